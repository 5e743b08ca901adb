// package-dir: crypt
package crypt

import "github.com/aarondl/bpass/verifv"

// tamper changes one byte of b at a chosen offset to any other value.
func tamper(b []byte, at int) []byte {
	out := cp(b)
	d := verifv.Byte("delta")
	verifv.Assume(d != 0)
	out[at] ^= d
	return out
}

// Any body at all of the chosen size, given from the inside out (the layers are
// bijections, so arbitrary layer texts are arbitrary bodies): inner is what the
// innermost layer decrypts to when the outer paddings have their usual length.
// Padding counts above the limit are left to P01 and C04.
func c03Body(key, iv []byte) []byte {
	lim := byte(verifv.Pick(2, 16))
	inner := 80 + 16*verifv.Choose("body", verifv.Pick(1, 2))
	arb := func(label string, n int) []byte {
		b := verifv.Bytes(label, n)
		verifv.Assume(verifv.Or(b[n-1] <= lim, n < 80 && b[n-1] == byte(n)))
		return b
	}
	work := refLayerE(0, key, iv, arb("inner", inner))
	work = refLayerE(1, key, iv, append(work, arb("pad2", 16)...))
	return refLayerE(2, key, iv, append(work, arb("pad3", 8)...))
}

// Any bytes at all: success exactly when the independent reader accepts, with the same plaintext.
func Harness_C03_single() {
	verifv.Bound("single-user files whose salt, iv and body bytes are all arbitrary (body 104 bytes, thorough 120; padding counts up to 2, thorough 16, and the usual ones), and any passphrase of 2 bytes")
	pass := verifv.Bytes("pass", 2)
	hdr := append(refHeader(0), verifv.Bytes("hdr", refSalt+refIV)...)
	salt, iv := hdr[16:48], hdr[48:88]
	key := refDerive(pass, salt)
	file := append(cp(hdr), c03Body(key, iv)...)
	var p Params
	var pt []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, p, pt, err = Decrypt(nil, pass, nil, nil, cp(file)) })
	want, ok := refOpen(hdr, key, iv, file[88:])
	if err != nil {
		verifv.Assert(!ok, "an authentic file was refused")
		verifv.Assert(pt == nil, "plaintext was returned with an error")
		verifv.Reach("rejected")
		return
	}
	verifv.Assert(ok, "a file was opened although its digest does not authenticate it")
	verifv.Assert(verifv.EqB(pt, want), "the plaintext returned is not the one the digest covers")
	verifv.Assert(verifv.EqB(p.Salts[p.User], salt), "the salt returned is not the file's")
	verifv.Reach("opened")
}

func Harness_C03_single_key() {
	verifv.Bound("as above with a key and salt supplied by the caller (matching the file's salt or not), with and without a passphrase")
	var pass []byte
	if verifv.Choose("havepass", 2) == 1 {
		pass = verifv.Bytes("pass", 2)
	}
	key, salt := verifv.Bytes("key", refKey), verifv.Bytes("salt", refSalt)
	hdr := append(refHeader(0), verifv.Bytes("hdr", refSalt+refIV)...)
	same := verifv.EqB(salt, hdr[16:48])
	k := key
	if !same {
		if pass == nil {
			_, _, _, err := Decrypt(nil, pass, cp(key), cp(salt), append(hdr, verifv.Bytes("body", 104)...))
			verifv.Assert(err != nil, "a file was opened with a key of another salt and no passphrase")
			return
		}
		k = refDerive(pass, hdr[16:48])
	}
	file := append(cp(hdr), c03Body(k, hdr[48:])...)
	var pt []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, pt, err = Decrypt(nil, pass, cp(key), cp(salt), cp(file)) })
	want, ok := refOpen(hdr, k, hdr[48:88], file[88:])
	if err != nil {
		verifv.Assert(!ok, "an authentic file was refused")
		return
	}
	verifv.Assert(ok, "a file was opened although its digest does not authenticate it")
	verifv.Assert(verifv.EqB(pt, want), "the plaintext returned is not the one the digest covers")
	verifv.Reach("opened")
}

// c03Table is a user table of n arbitrary records where only record who (none
// if negative) carries alice's name; who's wrapped key holds master.
func c03Table(n, who int, pass, master []byte) (hdr []byte) {
	hash := refName("alice")
	hdr = refHeader(n)
	for i := 0; i < n; i++ {
		if i == who {
			salt, iv := verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV)
			hdr = append(append(append(append(hdr, hash...), salt...), iv...), refWrap(refDerive(pass, salt), iv, master)...)
			continue
		}
		rec := verifv.Bytes("rec", refUser)
		verifv.Assume(verifv.Not(verifv.EqB(rec[:32], hash)))
		hdr = append(hdr, rec...)
	}
	return append(hdr, verifv.Bytes("ivm", refIV)...)
}

func Harness_C03_multi() {
	verifv.Bound("files of 1..2 users (thorough 3) whose user table, master iv and body bytes are all arbitrary (bodies as above), opened by the user at any place in the table")
	nu := 1 + verifv.Choose("users", verifv.Pick(2, 3))
	who := verifv.Choose("who", nu)
	pass, master := verifv.Bytes("pass", 2), verifv.Bytes("master", refKey)
	hdr := c03Table(nu, who, pass, master)
	file := append(cp(hdr), c03Body(master, hdr[len(hdr)-refIV:])...)
	var p Params
	var pt []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, p, pt, err = Decrypt([]byte("alice"), pass, nil, nil, cp(file)) })
	want, ok := refOpen(hdr, master, hdr[len(hdr)-refIV:], file[len(hdr):])
	if err != nil {
		verifv.Assert(!ok, "an authentic file was refused")
		verifv.Assert(pt == nil, "plaintext was returned with an error")
		verifv.Reach("rejected")
		return
	}
	verifv.Assert(ok, "a file was opened although its digest does not authenticate it and its user table")
	verifv.Assert(verifv.EqB(pt, want), "the plaintext returned is not the one the digest covers")
	verifv.Assert(p.User == who, "another user was identified")
	verifv.Reach("opened")
}

// A stranger is refused even when the body would open with the key that an
// all-zero record, or any record of the table, gives under his passphrase.
func Harness_C03_stranger() {
	verifv.Bound("files of 1..2 users, none of them the user opening it; correctly sealed bodies for the master key his passphrase unwraps from any record or from an all-zero one")
	nu := 1 + verifv.Choose("users", 2)
	pass, pt := verifv.Bytes("pass", 2), verifv.Bytes("pt", verifv.Choose("len", 2)*200)
	hdr := c03Table(nu, -1, pass, nil)
	salt, iv, mkey := make([]byte, refSalt), make([]byte, refIV), make([]byte, refKey)
	r := verifv.Choose("record", nu+1)
	if r < nu {
		at := 16 + r*refUser + 32
		salt, iv, mkey = hdr[at:at+32], hdr[at+32:at+72], hdr[at+72:at+152]
	}
	master := refUnwrap(refDerive(pass, salt), iv, mkey)
	ivm := hdr[len(hdr)-refIV:]
	body := refBody(hdr, master, ivm, pt)
	if verifv.Symbolic() && r < nu {
		// otherwise the stranger's own key gives garbage: only garbage that unpads to nothing
		zero := refUnwrap(refDerive(pass, make([]byte, refSalt)), make([]byte, refIV), make([]byte, refKey))
		last := refLayerD(2, zero, ivm, body)
		verifv.Assume(last[len(last)-1] == 0)
	}
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, _, err = Decrypt([]byte("alice"), pass, nil, nil, append(hdr, body...)) })
	verifv.Assert(err != nil, "a file was opened by a user who is not in it")
	verifv.Reach("unknown user")
}

// A body whose decrypted text is intact under an altered header.
func c03Rebody(good, key, iv, pt []byte) []byte {
	sum := verifv.Sha512_Sum512(append(cp(good), pt...))
	work := append(append([]byte(nil), sum[:]...), pt...)
	work = refLayerE(0, key, iv, refPad(work, 16))
	work = refLayerE(1, key, iv, refPad(work, 16))
	return refLayerE(2, key, iv, refPad(work, 8))
}

func Harness_C03_tamper_magic() {
	verifv.Bound("single-user file: any one byte of magic, version or user count changed to any value, decrypted text intact")
	salt, iv, key := verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV), verifv.Bytes("key", refKey)
	pt := verifv.Bytes("pt", 5)
	good := append(append(refHeader(0), salt...), iv...)
	bad := tamper(good, verifv.Choose("at", 16))
	file := append(cp(bad), c03Rebody(good, key, iv, pt)...)
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, _, err = Decrypt([]byte("alice"), nil, cp(key), cp(salt), file) })
	verifv.Assert(err != nil, "a changed header byte was not noticed")
	verifv.Reach("noticed")
}

// Any change at all of salt or iv.
func Harness_C03_tamper_single() {
	verifv.Bound("single-user file of 0..2 blocks: salt and iv bytes changed in any way, decrypted text intact")
	key := verifv.Bytes("key", refKey)
	pt := verifv.Bytes("pt", verifv.Choose("len", 3)*8)
	good := append(refHeader(0), verifv.Bytes("good", refSalt+refIV)...)
	bad := append(refHeader(0), verifv.Bytes("bad", refSalt+refIV)...)
	verifv.Assume(verifv.Not(verifv.EqB(good, bad)))
	file := append(cp(bad), c03Rebody(good, key, bad[48:], pt)...)
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, _, err = Decrypt([]byte("alice"), nil, cp(key), cp(bad[16:48]), file) })
	verifv.Assert(err != nil, "a changed header byte was not noticed")
	verifv.Reach("noticed")
}

// Any change at all of the user table (but the opening user's own record, which decides the key) or the master iv.
func Harness_C03_tamper_multi() {
	verifv.Bound("files of 1..3 users: the records of the other users and the master iv changed in any way, decrypted text intact")
	nu := 1 + verifv.Choose("users", verifv.Pick(2, 3))
	who := verifv.Choose("who", nu)
	master := verifv.Bytes("master", refKey)
	pt := verifv.Bytes("pt", verifv.Choose("len", 2)*8)
	pass := verifv.Bytes("pass", 2)
	own := refEntry{hash: refName("alice"), salt: verifv.Bytes("salt", refSalt), iv: verifv.Bytes("iv", refIV)}
	own.mkey = refWrap(refDerive(pass, own.salt), own.iv, master)
	good, bad := refHeader(nu), refHeader(nu)
	for i := 0; i < nu; i++ {
		if i == who {
			rec := append(append(append(cp(own.hash), own.salt...), own.iv...), own.mkey...)
			good, bad = append(good, rec...), append(bad, rec...)
			continue
		}
		b := verifv.Bytes("badrec", refUser)
		verifv.Assume(verifv.Not(verifv.EqB(b[:32], own.hash)))
		good, bad = append(good, verifv.Bytes("goodrec", refUser)...), append(bad, b...)
	}
	good, bad = append(good, verifv.Bytes("goodivm", refIV)...), append(bad, verifv.Bytes("badivm", refIV)...)
	verifv.Assume(verifv.Not(verifv.EqB(good, bad)))
	file := append(cp(bad), c03Rebody(good, master, bad[len(bad)-refIV:], pt)...)
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, _, err = Decrypt([]byte("alice"), cp(pass), nil, nil, file) })
	verifv.Assert(err != nil, "a changed byte of the user table or master iv was not noticed")
	verifv.Reach("noticed")
}

// The digest in the file is any other than the right one.
func Harness_C03_digest() {
	verifv.Bound("files sealed with the right key whose digest differs from the right one in any way; one user (key derived or supplied) or two, texts of 0, 1 and 13 bytes")
	pt := verifv.Bytes("pt", []int{0, 1, 13}[verifv.Choose("len", 3)])
	pass, key := verifv.Bytes("pass", 2), verifv.Bytes("key", refKey)
	delta := verifv.Bytes("delta", 64)
	verifv.Assume(!verifv.EqB(delta, make([]byte, 64)))
	var hdr, user, k, salt []byte
	kind := verifv.Choose("kind", 4)
	if kind < 2 {
		hdr = append(refHeader(0), verifv.Bytes("hdr", refSalt+refIV)...)
		if kind == 0 {
			key = refDerive(pass, hdr[16:48])
		} else {
			pass, k, salt = nil, cp(key), cp(hdr[16:48])
		}
	} else {
		hdr, user = c03Table(2, kind-2, pass, key), []byte("alice")
	}
	iv := hdr[len(hdr)-refIV:]
	sum := verifv.Sha512_Sum512(append(cp(hdr), pt...))
	file := append(cp(hdr), refSeal(xorB(sum[:], delta), key, iv, pt)...)
	var got []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt(user, pass, k, salt, file) })
	verifv.Assert(err != nil && got == nil, "a file with another digest than its own was opened")
	verifv.Reach("refused")
}

// Long files, ciphers computed.
func Harness_C03_long() {
	verifv.Bound("files of one or two users with fixed texts of 300, 5000 and (thorough) 70000 bytes, ciphers computed: the lowest or highest bit at any of 26 places (every part of the header, blocks from the first to the last) changed, cut by 1, 8, 16 or 1024 bytes, or 8 or 16 bytes or the last blocks appended, two blocks exchanged or one repeated")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(100000000)
	pt := make([]byte, []int{300, 5000, 70000}[verifv.Choose("len", verifv.Pick(2, 3))])
	for i := range pt {
		pt[i] = byte(i * 7 >> uint(i%3))
	}
	fill := func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*37 + k)
		}
		return b
	}
	pass, salt, iv := []byte("pass"), fill(refSalt, 1), fill(refIV, 2)
	key := refDerive(pass, salt)
	user := []byte(nil)
	var file []byte
	body := 88
	if verifv.Choose("users", 2) == 0 {
		file = refSingle(key, salt, iv, pt)
	} else {
		user = []byte("ann")
		master := fill(refKey, 3)
		us := []refEntry{{refName("bo"), fill(refSalt, 5), fill(refIV, 6), fill(refKey, 7)}, {refName("ann"), salt, iv, refWrap(key, iv, master)}}
		file = refMulti(us, master, fill(refIV, 4), pt)
		body = 16 + 2*refUser + refIV
	}
	_, _, got, err := Decrypt(user, pass, nil, nil, cp(file))
	verifv.Assert(err == nil && verifv.EqB(got, pt), "a well-formed file was refused")
	bad := cp(file)
	n := len(file)
	switch how := verifv.Choose("how", 9); how {
	case 0:
		at := []int{0, 7, 11, 15, 16, 20, 47, 48, 60, 87, body - 40, body - 1, body, body + 8, body + 70, body + 100, body + 128, body + 200, body + 255, body + 256, n / 2, n/2 + 9, n - 40, n - 17, n - 8, n - 1}[verifv.Choose("at", 26)]
		bad[at] ^= 1 << uint((7*verifv.Choose("bit", 2)))
	case 1, 2, 3, 4:
		if how == 4 && n < 2000 {
			return
		}
		bad = bad[:n-[]int{1, 8, 16, 1024}[how-1]]
	case 5:
		bad = append(bad, fill(8, 1)...)
	case 6:
		bad = append(bad, bad[n-16:]...)
	case 7:
		a, b := body+(n-body)/16*8, n-32
		for i := 0; i < 8; i++ {
			bad[a+i], bad[b+i] = bad[b+i], bad[a+i]
		}
	default:
		bad = append(cp(bad[:body+16]), file[body+8:]...)
	}
	_, _, got, err = Decrypt(user, pass, nil, nil, bad)
	if err != nil {
		verifv.Assert(got == nil, "plaintext was returned with an error")
		verifv.Reach("refused")
		return
	}
	// what concerns only another user's record does not matter
	verifv.Assert(user != nil && verifv.EqB(got, pt), "a changed file was opened")
	verifv.Assert(verifv.EqB(bad[body-40:], file[body-40:]), "a changed file was opened")
	verifv.Reach("unharmed")
}

// Another passphrase, however little it differs, opens nothing.
func Harness_C03_passphrases() {
	verifv.Bound("fixed passphrases of 15 lengths from 3 to 300 bytes, one or two users, ciphers computed; opened with a letter more, the last one less, or the first, middle or last letter changed")
	verifv.ConcreteCrypto()
	pass := longPass()
	pt := refFill(make([]byte, 20), 1)
	salt, iv := refFill(make([]byte, refSalt), 2), refFill(make([]byte, refIV), 3)
	key := refDerive(pass, salt)
	file, user := refSingle(key, salt, iv, pt), []byte(nil)
	if verifv.Choose("users", 2) == 1 {
		master := refFill(make([]byte, refKey), 4)
		us := append(bigCrowd(1, master), refEntry{refName("ann"), salt, iv, refWrap(key, iv, master)})
		file, user = refMulti(us, master, iv, pt), []byte("ann")
	}
	wrong := cp(pass)
	switch verifv.Choose("change", 5) {
	case 0:
		wrong = append(wrong, 'x')
	case 1:
		wrong = wrong[:len(wrong)-1]
	case 2:
		wrong[0] ^= 1
	case 3:
		wrong[len(wrong)/2] ^= 0x20
	default:
		wrong[len(wrong)-1] ^= 2
	}
	_, _, got, err := Decrypt(user, wrong, nil, nil, cp(file))
	verifv.Assert(err == ErrWrongPassphrase, "another passphrase is not refused as wrong")
	verifv.Assert(got == nil, "plaintext was returned with an error")
	_, _, got, err = Decrypt(user, cp(pass), nil, nil, cp(file))
	verifv.Assert(err == nil && verifv.EqB(got, pt), "the right passphrase does not open the file")
	verifv.Reach("refused")
}
