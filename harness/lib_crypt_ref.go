// package-dir: crypt
package crypt

import (
	"crypto/cipher"
	"strconv"

	"github.com/aarondl/bpass/verifv"
)

// An independent implementation of the documented version-1 file format.
//
//	single: magic(8) version(4) "0000" salt(32) iv(40) body
//	multi:  magic(8) version(4) nusers(4) { sha256(name)(32) salt(32) iv(40) mkey(80) }* ivm(40) body
//	body:   CAST5-CBC(pad(Camellia-CBC(pad(AES-CBC(pad(sha512(header||pt) || pt))))))

const (
	refSalt = 32
	refKey  = 80
	refIV   = 40
	refUser = 32 + refSalt + refIV + refKey
)

func refBlock(layer int, key []byte) (cipher.Block, int, int) {
	var b cipher.Block
	var err error
	switch layer {
	case 0:
		b, err = verifv.Aes_NewCipher(key[0:32])
	case 1:
		b, err = verifv.Camellia_NewCipher(key[32:64])
	default:
		var c cipher.Block
		c, err = verifv.Cast5_NewCipher(key[64:80])
		b = c
	}
	if err != nil {
		panic(err)
	}
	offs := []int{0, 16, 32, 40}
	return b, offs[layer], offs[layer+1]
}

func xorB(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = a[i] ^ b[i]
	}
	return out
}

func refLayerE(layer int, key, iv, in []byte) []byte {
	blk, lo, hi := refBlock(layer, key)
	prev := iv[lo:hi]
	size := hi - lo
	var out []byte
	for i := 0; i < len(in); i += size {
		c := make([]byte, size)
		blk.Encrypt(c, xorB(in[i:i+size], prev))
		out = append(out, c...)
		prev = c
	}
	return out
}

func refLayerD(layer int, key, iv, in []byte) []byte {
	blk, lo, hi := refBlock(layer, key)
	prev := iv[lo:hi]
	size := hi - lo
	var out []byte
	for i := 0; i < len(in); i += size {
		p := make([]byte, size)
		blk.Decrypt(p, in[i:i+size])
		out = append(out, xorB(p, prev)...)
		prev = in[i : i+size]
	}
	return out
}

func refPad(in []byte, size int) []byte {
	n := size - len(in)%size
	out := append([]byte(nil), in...)
	for i := 0; i < n; i++ {
		out = append(out, byte(n))
	}
	return out
}

// refUnpad forks over the pad length.
func refUnpad(in []byte) ([]byte, bool) {
	if len(in) == 0 {
		return nil, false
	}
	n := int(in[len(in)-1])
	if n == 0 || n > len(in) {
		return nil, false
	}
	for i := 1; i <= n; i++ {
		if in[len(in)-i] != byte(n) {
			return nil, false
		}
	}
	return in[:len(in)-n], true
}

// refBody encrypts header digest and plaintext.
func refBody(header, key, iv, pt []byte) []byte {
	sum := verifv.Sha512_Sum512(append(append([]byte(nil), header...), pt...))
	return refSeal(sum[:], key, iv, pt)
}

// refSeal encrypts a digest of one's choice and plaintext.
func refSeal(sum, key, iv, pt []byte) []byte {
	work := append(append([]byte(nil), sum...), pt...)
	work = refLayerE(0, key, iv, refPad(work, 16))
	work = refLayerE(1, key, iv, refPad(work, 16))
	return refLayerE(2, key, iv, refPad(work, 8))
}

// refOpen undoes refBody; ok is false unless padding and digest are right.
func refOpen(header, key, iv, body []byte) (pt []byte, ok bool) {
	work := body
	for l := 2; l >= 0; l-- {
		size := 16
		if l == 2 {
			size = 8
		}
		if len(work)%size != 0 {
			return nil, false
		}
		if work, ok = refUnpad(refLayerD(l, key, iv, work)); !ok {
			return nil, false
		}
	}
	if len(work) < 64 {
		return nil, false
	}
	sum := verifv.Sha512_Sum512(append(append([]byte(nil), header...), work[64:]...))
	if !verifv.EqB(sum[:], work[:64]) {
		return nil, false
	}
	return work[64:], true
}

func refDigits(n int) string {
	s := strconv.Itoa(n)
	for len(s) < 4 {
		s = "0" + s
	}
	return s
}

func refHeader(nUsers int) []byte { return []byte("blobpass0001" + refDigits(nUsers)) }

func refSingle(key, salt, iv, pt []byte) []byte {
	h := append(refHeader(0), salt...)
	h = append(h, iv...)
	return append(h, refBody(h, key, iv, pt)...)
}

type refEntry struct{ hash, salt, iv, mkey []byte }

func refMulti(us []refEntry, master, ivm, pt []byte) []byte {
	h := refHeader(len(us))
	for _, u := range us {
		h = append(h, u.hash...)
		h = append(h, u.salt...)
		h = append(h, u.iv...)
		h = append(h, u.mkey...)
	}
	h = append(h, ivm...)
	return append(h, refBody(h, master, ivm, pt)...)
}

func refWrap(key, iv, master []byte) []byte {
	w := master
	for l := 0; l < 3; l++ {
		w = refLayerE(l, key, iv, w)
	}
	return w
}

func refUnwrap(key, iv, wrapped []byte) []byte {
	w := wrapped
	for l := 2; l >= 0; l-- {
		w = refLayerD(l, key, iv, w)
	}
	return w
}

func refDerive(pass, salt []byte) []byte {
	k, err := verifv.Scrypt_Key(pass, salt, 524288, 8, 1, refKey)
	if err != nil {
		panic(err)
	}
	return k
}

func refName(n string) []byte {
	s := verifv.Sha256_Sum256([]byte(n))
	return s[:]
}

var refNames = append([]string{"alice", "Alice", " zo\u00eb B"}, moreNames()...)

func moreNames() (names []string) {
	for i := 4; i <= 1000; i++ {
		names = append(names, "user"+strconv.Itoa(i))
	}
	return names
}

// someUsers picks how many users a file has: a few of them with text of every
// length up to max, or counts of other digits with a short text.
func someUsers(max int) (n, length, who int) {
	counts := []int{1, 2, 3, 8, 12, 100}
	n = counts[verifv.Choose("users", verifv.Pick(5, 6))]
	if n > 3 {
		return n, 5, []int{0, 7, n - 1}[verifv.Choose("who", 3)]
	}
	return n, verifv.Choose("len", max+1), verifv.Choose("who", n)
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

func refUsers(n int, master []byte) (us []refEntry, passes [][]byte) {
	for i := 0; i < n; i++ {
		pass := verifv.Bytes("pass", 2)
		e := refEntry{hash: refName(refNames[i]), salt: verifv.Bytes("salt", refSalt), iv: verifv.Bytes("iv", refIV)}
		e.mkey = refWrap(refDerive(pass, e.salt), e.iv, master)
		us = append(us, e)
		passes = append(passes, pass)
	}
	return us, passes
}

func paramsOf(us []refEntry, master, ivm []byte) *Params {
	p := &Params{NUsers: len(us), Master: cp(master), IVM: cp(ivm)}
	for _, u := range us {
		p.Keys = append(p.Keys, nil)
		p.Users = append(p.Users, cp(u.hash))
		p.Salts = append(p.Salts, cp(u.salt))
		p.IVs = append(p.IVs, cp(u.iv))
		p.MKeys = append(p.MKeys, cp(u.mkey))
	}
	return p
}

// refFill fills b with fixed bytes that depend on k.
func refFill(b []byte, k int) []byte {
	for i := range b {
		b[i] = byte((i + k) * 7 >> uint(i%3))
	}
	return b
}

// longPass gives a fixed passphrase of some length up to 300 bytes.
func longPass() []byte {
	lens := []int{3, 16, 31, 32, 33, 63, 64, 65, 71, 72, 73, 100, 128, 255, 300}
	p := make([]byte, lens[verifv.Choose("passlen", len(lens))])
	for i := range p {
		p[i] = 'a' + byte(i*i+i/26)%26
	}
	return p
}

// bigCrowd is a table of n users whose passphrases are their names.
func bigCrowd(n int, master []byte) (us []refEntry) {
	for i := 0; i < n; i++ {
		e := refEntry{hash: refName(refNames[i]), salt: refFill(make([]byte, refSalt), 10*i+1), iv: refFill(make([]byte, refIV), 10*i+2)}
		e.mkey = refWrap(refDerive([]byte(refNames[i]), e.salt), e.iv, master)
		us = append(us, e)
	}
	return us
}
