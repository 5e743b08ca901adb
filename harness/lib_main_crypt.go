// package-dir: .
package main

import (
	"crypto/cipher"

	"github.com/aarondl/bpass/verifv"
)

// How the file format wraps a master key (independent of the code under test).

const (
	refSalt = 32
	refKey  = 80
	refIV   = 40
	refUser = 32 + refSalt + refIV + refKey
)

func refBlock(layer int, key []byte) (cipher.Block, int, int) {
	var b cipher.Block
	var err error
	switch layer {
	case 0:
		b, err = verifv.Aes_NewCipher(key[0:32])
	case 1:
		b, err = verifv.Camellia_NewCipher(key[32:64])
	default:
		var c cipher.Block
		c, err = verifv.Cast5_NewCipher(key[64:80])
		b = c
	}
	if err != nil {
		panic(err)
	}
	offs := []int{0, 16, 32, 40}
	return b, offs[layer], offs[layer+1]
}

func xorB(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = a[i] ^ b[i]
	}
	return out
}

func refLayerD(layer int, key, iv, in []byte) []byte {
	blk, lo, hi := refBlock(layer, key)
	prev := iv[lo:hi]
	size := hi - lo
	var out []byte
	for i := 0; i < len(in); i += size {
		p := make([]byte, size)
		blk.Decrypt(p, in[i:i+size])
		out = append(out, xorB(p, prev)...)
		prev = in[i : i+size]
	}
	return out
}

func refUnwrap(key, iv, wrapped []byte) []byte {
	w := wrapped
	for l := 2; l >= 0; l-- {
		w = refLayerD(l, key, iv, w)
	}
	return w
}

func refDerive(pass, salt []byte) []byte {
	k, err := verifv.Scrypt_Key(pass, salt, 524288, 8, 1, refKey)
	if err != nil {
		panic(err)
	}
	return k
}
