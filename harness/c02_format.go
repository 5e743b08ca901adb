// package-dir: crypt
package crypt

import (
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// What Encrypt writes is byte for byte what the documented format prescribes.
func Harness_C02_writes_single() {
	verifv.Bound("writer, one user: plaintexts of every length 0..40 (thorough 130), every key and salt")
	pt := verifv.Bytes("pt", verifv.Choose("len", verifv.Pick(40, 130)+1))
	key, salt := verifv.Bytes("key", refKey), verifv.Bytes("salt", refSalt)
	var out []byte
	var err error
	verifv.NoPanic("encrypt panicked", func() {
		out, err = Encrypt(1, &Params{Keys: [][]byte{cp(key)}, Salts: [][]byte{cp(salt)}}, cp(pt))
	})
	verifv.Assert(err == nil, "encrypt refused usable credentials")
	verifv.Assert(len(out) >= 16+refSalt+refIV, "the file is shorter than its header")
	iv := out[16+refSalt : 16+refSalt+refIV]
	want := refSingle(key, salt, iv, pt)
	verifv.Assert(len(out) == len(want), "single-user file has another length than the format prescribes")
	verifv.Assert(verifv.EqB(out[:16], want[:16]), "single-user file: magic, version or user count differ from the format")
	verifv.Assert(verifv.EqB(out[:88], want[:88]), "single-user file: header differs from the format")
	verifv.Assert(verifv.EqB(out, want), "single-user file: body differs from the format")
	multi, err := IsMultiUser(out)
	verifv.Assert(err == nil && !multi, "a single-user file is not recognised as one")
	verifv.Reach("done")
}

func Harness_C02_writes_multi() {
	verifv.Bound("writer, 1..3 users: plaintexts of every length 0..17 (thorough 64); 8 and 12 (thorough 100) users: one of 5 bytes; every salt, iv, wrapped key, master key; every wrapping of a master key")
	n, length, who := someUsers(verifv.Pick(17, 64))
	pt := verifv.Bytes("pt", length)
	master, ivm := verifv.Bytes("master", refKey), verifv.Bytes("ivm", refIV)
	var us []refEntry
	for i := 0; i < n; i++ {
		us = append(us, refEntry{refName(refNames[i]), verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV), verifv.Bytes("mkey", refKey)})
	}
	p := paramsOf(us, master, ivm)
	p.User = who
	var out []byte
	var err error
	verifv.NoPanic("encrypt panicked", func() { out, err = Encrypt(1, p, cp(pt)) })
	verifv.Assert(err == nil, "encrypt refused usable credentials")
	want := refMulti(us, master, ivm, pt)
	h := 16 + n*refUser + refIV
	verifv.Assert(len(out) == len(want), "multi-user file has another length than the format prescribes")
	verifv.Assert(verifv.EqB(out[:16], want[:16]), "multi-user file: magic, version or user count differ from the format")
	verifv.Assert(verifv.EqB(out[:h], want[:h]), "multi-user file: user table differs from the format")
	verifv.Assert(verifv.EqB(out, want), "multi-user file: body differs from the format")
	multi, err := IsMultiUser(out)
	verifv.Assert(err == nil && multi, "a multi-user file is not recognised as one")

	key := verifv.Bytes("key", refKey)
	mkey, iv, err := EncryptMasterKey(1, cp(key), cp(master))
	verifv.Assert(err == nil && len(iv) == refIV, "the master key could not be wrapped")
	verifv.Assert(verifv.EqB(mkey, refWrap(key, iv, master)), "the wrapped master key differs from the format")
	verifv.Reach("done")
}

// Every file of an independent writer opens.
func Harness_C02_reads_single() {
	verifv.Bound("reader, one user: independently written files with plaintexts of every length 0..40 (thorough 130)")
	pt := verifv.Bytes("pt", verifv.Choose("len", verifv.Pick(40, 130)+1))
	salt, iv, pass := verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV), verifv.Bytes("pass", 1+verifv.Choose("passlen", 2)*7)
	file := refSingle(refDerive(pass, salt), salt, iv, pt)
	var got []byte
	var err error
	var user []byte
	if verifv.Choose("name", 2) == 1 {
		user = []byte("alice")
	}
	verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt(user, pass, nil, nil, file) })
	verifv.Assert(err == nil, "a well-formed single-user file was refused")
	verifv.Assert(verifv.EqB(got, pt), "a well-formed single-user file gives another plaintext")
	verifv.Reach("done")
}

func Harness_C02_reads_multi() {
	verifv.Bound("reader, 1..3 users: independently written files with plaintexts of every length 0..17 (thorough 64), opened by every user; 8 and 12 (thorough 100) users: a text of 5 bytes, opened by the first, 8th and last")
	n, length, who := someUsers(verifv.Pick(17, 64))
	master, ivm := verifv.Bytes("master", refKey), verifv.Bytes("ivm", refIV)
	us, passes := refUsers(n, master)
	pt := verifv.Bytes("pt", length)
	file := refMulti(us, master, ivm, pt)
	var got []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt([]byte(refNames[who]), passes[who], nil, nil, file) })
	verifv.Assert(err == nil, "a well-formed multi-user file was refused")
	verifv.Assert(verifv.EqB(got, pt), "a well-formed multi-user file gives another plaintext")
	_, _, _, err = Decrypt(nil, passes[who], nil, nil, file)
	verifv.Assert(err == ErrNeedUser, "a multi-user file opened without a user name does not ask for one")
	verifv.Reach("done")
}

// Files of other versions are refused and the version is named.
func Harness_C02_versions() {
	verifv.Bound("every four-digit version number, with a body that is otherwise well formed; the version-0 magic; every other magic")
	pt := verifv.Bytes("pt", 3)
	salt, iv, pass := verifv.Bytes("salt", refSalt), verifv.Bytes("iv", refIV), verifv.Bytes("pass", 2)
	file := refSingle(refDerive(pass, salt), salt, iv, pt)
	var err error
	var got []byte
	switch verifv.Choose("kind", 4) {
	case 0:
		d := verifv.Bytes("digits", 4)
		for _, c := range d {
			verifv.Assume(verifv.And(c >= '0', c <= '9'))
		}
		verifv.Assume(!verifv.EqB(d, []byte("0001")))
		copy(file[8:], d)
		verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt(nil, pass, nil, nil, file) })
		verifv.Assert(err != nil && got == nil, "a file of another version was opened")
		verifv.Reach("version refused")
	case 3:
		v := []string{"0002", "1234", "0010", "9999"}[verifv.Choose("version", 4)]
		copy(file[8:], v)
		_, _, _, err = Decrypt(nil, pass, nil, nil, file)
		verifv.Assert(err != nil && strings.Contains(err.Error(), strings.TrimLeft(v, "0")), "the refusal does not name the version")
	case 1:
		copy(file, []byte{0x6b, 0x6e, 0x69, 0x6f, 0x70, 0x61, 0x73, 0x73, 0x30, 0x30, 0x30, 0x30, 0x30, 0x30, 0x30, 0x31})
		verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt(nil, pass, nil, nil, file) })
		verifv.Assert(err != nil && got == nil, "a version 0 file was opened")
	default:
		m := verifv.Bytes("magic", 8)
		verifv.Assume(!verifv.EqB(m, []byte("blobpass")))
		copy(file, m)
		verifv.NoPanic("decrypt panicked", func() { _, _, got, err = Decrypt(nil, pass, nil, nil, file) })
		verifv.Assert(err != nil && got == nil, "a file with another magic was opened")
		_, err = IsMultiUser(file)
		verifv.Assert(err != nil, "a file with another magic is accepted by the multi-user test")
		verifv.Reach("magic refused")
	}
}

// Long texts, ciphers computed.
func Harness_C02_long() {
	verifv.Bound("writer and reader, one or two users, ciphers computed: fixed texts of 255..257, 1000, 4080, 4096, 65535 and (thorough) 70000 bytes")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(60000000)
	lens := []int{255, 256, 257, 1000, 4080, 4096, 65535, 70000}
	pt := make([]byte, lens[verifv.Choose("len", verifv.Pick(7, 8))])
	fill := func(b []byte, k int) []byte {
		for i := range b {
			b[i] = byte((i + k) * 7 >> uint(i%3))
		}
		return b
	}
	fill(pt, 0)
	pass, salt, iv := []byte("pass"), fill(make([]byte, refSalt), 1), fill(make([]byte, refIV), 2)
	key := refDerive(pass, salt)
	single := verifv.Choose("users", 2) == 0
	p := &Params{Keys: [][]byte{cp(key)}, Salts: [][]byte{cp(salt)}}
	file := []byte(nil)
	user := []byte(nil)
	master, ivm := fill(make([]byte, refKey), 3), fill(make([]byte, refIV), 4)
	us := []refEntry{{refName("ann"), salt, iv, refWrap(key, iv, master)}}
	if single {
		file = refSingle(key, salt, iv, pt)
	} else {
		user = []byte("ann")
		file = refMulti(us, master, ivm, pt)
		p = paramsOf(us, master, ivm)
	}
	_, _, got, err := Decrypt(user, pass, nil, nil, cp(file))
	verifv.Assert(err == nil, "a well-formed file was refused")
	verifv.Assert(verifv.EqB(got, pt), "a well-formed file gives another plaintext")
	out, err := Encrypt(1, p, cp(pt))
	verifv.Assert(err == nil, "encrypt refused usable credentials")
	want := []byte(nil)
	if single {
		verifv.Assert(len(out) >= 16+refSalt+refIV, "the file is shorter than its header")
		want = refSingle(key, salt, out[16+refSalt:16+refSalt+refIV], pt)
	} else {
		want = refMulti(us, master, ivm, pt)
	}
	verifv.Assert(verifv.EqB(out, want), "the file differs from the format")
	verifv.Reach("done")
}

// Many users, ciphers computed.
func Harness_C02_crowd() {
	verifv.Bound("writer and reader, ciphers computed: 9..11, 99..101, 111 and 120 (thorough 255, 256, 300, 999) users, a fixed text, opened by the first, the 10th and the last")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(200000000)
	counts := []int{9, 10, 11, 99, 100, 101, 111, 120, 255, 256, 300, 999}
	n := counts[verifv.Choose("users", verifv.Pick(8, 12))]
	master, ivm, pt := refFill(make([]byte, refKey), 3), refFill(make([]byte, refIV), 4), refFill(make([]byte, 33), 5)
	us := bigCrowd(n, master)
	file := refMulti(us, master, ivm, pt)
	who := []int{0, 9, n - 1}[verifv.Choose("who", 3)]
	if who >= n {
		who = n - 1
	}
	var p Params
	var got []byte
	var err error
	verifv.NoPanic("decrypt panicked", func() {
		_, p, got, err = Decrypt([]byte(refNames[who]), []byte(refNames[who]), nil, nil, cp(file))
	})
	verifv.Assert(err == nil, "a well-formed multi-user file was refused")
	verifv.Assert(verifv.EqB(got, pt), "a well-formed multi-user file gives another plaintext")
	verifv.Assert(p.NUsers == n && p.User == who, "the users were miscounted")
	multi, err := IsMultiUser(file)
	verifv.Assert(err == nil && multi, "a multi-user file is not recognised as one")
	_, _, got, err = Decrypt([]byte("nobody"), []byte("nobody"), nil, nil, cp(file))
	verifv.Assert(err != nil && got == nil, "a file was opened by nobody")
	q := paramsOf(us, master, ivm)
	q.User = who
	var out []byte
	verifv.NoPanic("encrypt panicked", func() { out, err = Encrypt(1, q, cp(pt)) })
	verifv.Assert(err == nil, "encrypt refused usable credentials")
	verifv.Assert(verifv.EqB(out, file), "the file differs from the format")
	verifv.Reach("done")
}

// Long passphrases, ciphers computed.
func Harness_C02_passphrases() {
	verifv.Bound("fixed passphrases of 15 lengths from 3 to 300 bytes, one or two users, ciphers computed: keys derived as the format prescribes and independently written files opened")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	pass := longPass()
	pt := refFill(make([]byte, 20), 1)
	key, salt, err := DeriveKey(1, cp(pass))
	verifv.Assert(err == nil && len(salt) == refSalt, "deriving a key failed")
	verifv.Assert(verifv.EqB(key, refDerive(pass, salt)), "the derived key does not belong to the passphrase and salt")
	salt, iv := refFill(make([]byte, refSalt), 2), refFill(make([]byte, refIV), 3)
	key = refDerive(pass, salt)
	file, user := refSingle(key, salt, iv, pt), []byte(nil)
	if verifv.Choose("users", 2) == 1 {
		master := refFill(make([]byte, refKey), 4)
		us := append(bigCrowd(1, master), refEntry{refName("ann"), salt, iv, refWrap(key, iv, master)})
		file, user = refMulti(us, master, iv, pt), []byte("ann")
	}
	_, _, got, err := Decrypt(user, cp(pass), nil, nil, file)
	verifv.Assert(err == nil, "a well-formed file was refused")
	verifv.Assert(verifv.EqB(got, pt), "a well-formed file gives another plaintext")
	verifv.Reach("done")
}
