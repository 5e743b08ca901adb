// package-dir: crypt
package crypt

import "github.com/aarondl/bpass/verifv"

func c04Open(user, pass, key, salt, file []byte) error {
	file = append(make([]byte, 0, len(file)), file...)
	in := cp(file)
	var err error
	verifv.NoPanic("opening a damaged file panicked", func() { _, _, _, err = Decrypt(user, pass, key, salt, file[:len(file):len(file)]) })
	verifv.Assert(verifv.EqB(file, in), "opening altered the file's bytes")
	verifv.NoPanic("asking whether a damaged file is multi-user panicked", func() { _, _ = IsMultiUser(file[:len(file):len(file)]) })
	return err
}

func c04User() []byte {
	return [][]byte{nil, []byte("alice"), {}, verifv.Bytes("user", 1)}[verifv.Choose("user", verifv.Pick(2, 4))]
}

func c04Pass() []byte {
	return [][]byte{nil, verifv.Bytes("pass", 2)}[verifv.Choose("pass", 2)]
}

// Completely arbitrary bytes.
func Harness_C04_raw() {
	verifv.Bound("every byte string of length 0..24 (thorough 0..48), every user name of 0..1 bytes or none, passphrase of 2 bytes or none")
	n := verifv.Choose("len", verifv.Pick(25, 49))
	_ = c04Open(c04User(), c04Pass(), nil, nil, verifv.Bytes("file", n))
	verifv.Reach("survived")
}

// The digits decide how much is read: every value of the eight digit bytes, at every file length up to a small table.
func Harness_C04_digits() {
	verifv.Bound("magic followed by any 8 version and count bytes, and 0, 1, 31, 32, 71, 72, 73, 183, 223, 225, 407 or 409 further bytes")
	lens := []int{0, 1, 31, 32, 71, 72, 73, 183, 223, 225, 407, 409}
	n := lens[verifv.Choose("len", len(lens))]
	file := append([]byte("blobpass"), verifv.Bytes("digits", 8)...)
	file = append(file, make([]byte, n)...)
	verifv.Assume(verifv.Or(verifv.EqB(file[8:12], []byte("0001")), n == 0))
	_ = c04Open([]byte("alice"), []byte("pw"), nil, nil, file)
	verifv.Reach("survived")
}

// c04Sealed gives bodies that really decrypt to damaged contents: any bytes of
// length n behind `depth` correctly padded cipher layers.
func c04Sealed(key, iv []byte) (body []byte, digest bool) {
	depth := verifv.Choose("depth", 4)
	switch depth {
	case 0: // unaligned or empty ciphertext
		n := []int{0, 1, 7, 9, 15, 12, 17, 20, 23}[verifv.Choose("raw", 9)]
		return verifv.Bytes("body", n), false
	case 1: // the Camellia layer is not whole blocks, or empty
		n := verifv.Choose("mid", verifv.Pick(24, 40))
		if n%16 == 0 && n > 0 {
			return nil, false
		}
		return refLayerE(2, key, iv, refPad(verifv.Bytes("text", n), 8)), false
	case 2: // the AES layer is not whole blocks, or empty
		n := verifv.Choose("mid", verifv.Pick(24, 40))
		if n%16 == 0 && n > 0 {
			return nil, false
		}
		w := refLayerE(1, key, iv, refPad(verifv.Bytes("text", n), 16))
		return refLayerE(2, key, iv, refPad(w, 8)), false
	}
	// all three layers are fine; the digest is short, missing or arbitrary
	n := verifv.Choose("text", verifv.Pick(70, 90))
	w := refLayerE(0, key, iv, refPad(verifv.Bytes("text", n), 16))
	w = refLayerE(1, key, iv, refPad(w, 16))
	return refLayerE(2, key, iv, refPad(w, 8)), n >= 64
}

func Harness_C04_single() {
	verifv.Bound("single-user headers of every length, and bodies of every unaligned size up to 23 or decrypting (through 1, 2 or 3 layers) to any content of 0..23 (thorough 39) or 0..69 (89) bytes")
	key, salt, iv := verifv.Bytes("key", refKey), verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV)
	file := append(append(refHeader(0), salt...), iv...)
	if cut := verifv.Choose("cut", 89); cut < 88 {
		file = file[:cut]
		verifv.Assert(c04Open(nil, []byte("pw"), nil, nil, file) != nil, "a file that ends inside its header was opened")
		return
	}
	body, digest := c04Sealed(key, iv)
	err := c04Open(nil, nil, cp(key), cp(salt), append(file, body...))
	verifv.Assert(digest || err != nil, "a file without a valid digest was opened")
	verifv.Reach("refused")
}

func Harness_C04_multi() {
	verifv.Bound("1..2-user headers of every 4th length (thorough all) and the same bodies, opened by a listed user")
	nu := 1 + verifv.Choose("users", 2)
	master, ivm := verifv.Bytes("master", refKey), verifv.Bytes("ivm", refIV)
	us, passes := refUsers(nu, master)
	file := refMulti(us, master, ivm, nil)
	hl := 16 + nu*refUser + refIV
	step := verifv.Pick(4, 1)
	if cut := verifv.Choose("cut", hl/step+1) * step; cut < hl {
		who := []byte("alice")
		if verifv.Choose("who", 2) == 1 {
			who = []byte("mallory")
		}
		verifv.Assert(c04Open(who, passes[0], nil, nil, file[:cut]) != nil, "a file that ends inside its header was opened")
		return
	}
	if nu == 2 && verifv.Tier() == 0 {
		return
	}
	body, digest := c04Sealed(master, ivm)
	err := c04Open([]byte(refNames[nu-1]), passes[nu-1], nil, nil, append(file[:hl], body...))
	verifv.Assert(digest || err != nil, "a file without a valid digest was opened")
	verifv.Reach("refused")
}

// Supplied keys of any length.
func Harness_C04_key() {
	verifv.Bound("valid files opened with a matching salt and a key of every length 0..90, with and without a passphrase")
	salt, iv, key := verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV), verifv.Bytes("key", 90)
	n := verifv.Choose("keylen", 91)
	var file, user, pass []byte
	if verifv.Choose("multi", 2) == 0 {
		file = refSingle(key[:80], salt, iv, []byte("text"))
	} else {
		master := verifv.Bytes("master", refKey)
		user = []byte("alice")
		us := []refEntry{{hash: refName("alice"), salt: salt, iv: iv, mkey: refWrap(key[:80], iv, master)}}
		file = refMulti(us, master, iv, []byte("text"))
	}
	err := c04Open(user, pass, cp(key[:n]), cp(salt), file)
	verifv.Assert(verifv.Implies(n == 80, err == nil), "the right key was refused")
	verifv.Reach("survived")
}
