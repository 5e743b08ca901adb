package verifv

import (
	"crypto/ed25519"
	"crypto/rsa"
	"encoding/hex"
	"io"

	"golang.org/x/crypto/ssh"
)

// Key pairs: a private key is its seed, a public one the seed with every bit flipped.

var (
	// KeyFault is the step of making or marshalling a key that fails (-1: none).
	KeyFault int
	keySteps int
	// RSABits is the size asked for.
	RSABits int
	// SSHPasswords and SSHKeys are what a connection may log in with.
	SSHPasswords []string
	SSHKeys      [][]byte
	// SSHKeyBad makes private keys unreadable.
	SSHKeyBad bool
)

func resetKeys() {
	KeyFault, keySteps, RSABits, SSHPasswords, SSHKeys, SSHKeyBad = -1, 0, 0, nil, nil, false
}

func keyStep() error {
	n := keySteps
	keySteps++
	if n == KeyFault {
		return ErrInjected
	}
	return nil
}

// FlipSeed relates the two halves of a key.
func FlipSeed(seed []byte) []byte {
	out := make([]byte, len(seed))
	for i, b := range seed {
		out[i] = ^b
	}
	return out
}

func Ed25519_GenerateKey(r io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
	if r == nil {
		r = Rand_Reader
	}
	if err := keyStep(); err != nil {
		return nil, nil, err
	}
	seed := make([]byte, 32)
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, nil, err
	}
	return FlipSeed(seed), seed, nil
}

func Rsa_GenerateKey(r io.Reader, bits int) (*rsa.PrivateKey, error) {
	if err := keyStep(); err != nil {
		return nil, err
	}
	seed := make([]byte, 3)
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, err
	}
	RSABits = bits
	return &rsa.PrivateKey{PublicKey: rsa.PublicKey{E: int(seed[0])<<16 | int(seed[1])<<8 | int(seed[2])}}, nil
}

func X509_MarshalPKCS8PrivateKey(key interface{}) ([]byte, error) {
	if err := keyStep(); err != nil {
		return nil, err
	}
	switch k := key.(type) {
	case ed25519.PrivateKey:
		return []byte(k), nil
	case *rsa.PrivateKey:
		return []byte{byte(k.E >> 16), byte(k.E >> 8), byte(k.E)}, nil
	}
	return nil, ErrInjected
}

type keyPub struct {
	kind string
	data []byte
}

func (k keyPub) Type() string                                 { return k.kind }
func (k keyPub) Marshal() []byte                              { return k.data }
func (k keyPub) Verify(data []byte, sig *ssh.Signature) error { return nil }

func Ssh_NewPublicKey(key interface{}) (ssh.PublicKey, error) {
	if err := keyStep(); err != nil {
		return nil, err
	}
	switch k := key.(type) {
	case ed25519.PublicKey:
		return keyPub{"ssh-ed25519", []byte(k)}, nil
	case *rsa.PublicKey:
		return keyPub{"ssh-rsa", FlipSeed([]byte{byte(k.E >> 16), byte(k.E >> 8), byte(k.E)})}, nil
	}
	return nil, ErrInjected
}

func Ssh_MarshalAuthorizedKey(key ssh.PublicKey) []byte {
	return []byte(key.Type() + " " + hex.EncodeToString(key.Marshal()) + "\n")
}

type keySigner struct{ pem []byte }

func (k keySigner) PublicKey() ssh.PublicKey { return keyPub{"signer", k.pem} }
func (k keySigner) Sign(r io.Reader, data []byte) (*ssh.Signature, error) {
	return nil, ErrInjected
}

func Ssh_ParsePrivateKey(pem []byte) (ssh.Signer, error) {
	if SSHKeyBad {
		return nil, ErrInjected
	}
	return keySigner{pem}, nil
}

func Ssh_PublicKeys(signers ...ssh.Signer) ssh.AuthMethod {
	for _, s := range signers {
		SSHKeys = append(SSHKeys, s.PublicKey().Marshal())
	}
	return ssh.PublicKeys(signers...)
}

func Ssh_Password(p string) ssh.AuthMethod {
	SSHPasswords = append(SSHPasswords, p)
	return ssh.Password(p)
}
