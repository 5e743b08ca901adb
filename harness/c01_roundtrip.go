// package-dir: crypt
package crypt

import (
	"strconv"

	"github.com/aarondl/bpass/verifv"
)

func c01Open(what string, user, pass, key, salt, file, want []byte) Params {
	var v int
	var p Params
	var pt []byte
	var err error
	in := cp(file)
	verifv.NoPanic(what+": decrypt panicked", func() { v, p, pt, err = Decrypt(user, pass, key, salt, in) })
	verifv.Assert(err == nil, what+": an authorised user cannot open the file")
	verifv.Assert(v == 1, what+": decrypt reports another version")
	verifv.Assert(verifv.EqB(pt, want), what+": decrypted text differs from the plaintext")
	verifv.Assert(verifv.EqB(in, file), what+": decrypt altered its input")
	return p
}

func c01Encrypt(what string, p *Params, pt []byte) []byte {
	var out []byte
	var err error
	in := cp(pt)
	verifv.NoPanic(what+": encrypt panicked", func() { out, err = Encrypt(1, p, in) })
	verifv.Assert(err == nil, what+": encrypt refused usable credentials")
	verifv.Assert(verifv.EqB(in, pt), what+": encrypt altered the plaintext")
	return out
}

func c01Derive(pass []byte) (key, salt []byte) {
	var err error
	key, salt, err = DeriveKey(1, pass)
	verifv.Assert(err == nil, "deriving a key failed")
	verifv.Assert(len(key) == refKey && len(salt) == refSalt, "derived key or salt has the wrong size")
	verifv.Assert(verifv.EqB(key, refDerive(pass, salt)), "the derived key does not belong to the passphrase and salt")
	return key, salt
}

func Harness_C01_single() {
	max := verifv.Pick(40, 130)
	verifv.Bound("one user: plaintexts of every length 0..40 (thorough 130) and content, every 2-byte passphrase; key derived, supplied, or stale; second save and passphrase change")
	n := verifv.Choose("len", max+1)
	pt := verifv.Bytes("pt", n)
	pass := verifv.Bytes("pass", 2)
	key, salt := c01Derive(pass)
	file := c01Encrypt("single", &Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, pt)
	var p Params
	switch verifv.Choose("how", 4) {
	case 0:
		p = c01Open("single, passphrase", nil, pass, nil, nil, file, pt)
	case 1:
		p = c01Open("single, supplied key", nil, nil, cp(key), cp(salt), file, pt)
	case 2:
		p = c01Open("single, supplied key and passphrase", nil, pass, cp(key), cp(salt), file, pt)
	default: // a stale key of another salt falls back to the passphrase
		stale := verifv.Bytes("stalesalt", []int{0, 31, refSalt}[verifv.Choose("stalelen", 3)])
		verifv.Assume(!verifv.EqB(stale, salt))
		p = c01Open("single, stale key", nil, pass, verifv.Bytes("stalekey", refKey), stale, file, pt)
	}
	verifv.Assert(p.NUsers == 0 && p.User == 0 && len(p.Keys) == 1 && len(p.Salts) == 1, "single: returned parameters do not describe one user")
	verifv.Assert(verifv.And(verifv.EqB(p.Keys[0], key), verifv.EqB(p.Salts[0], salt)), "single: returned key or salt differ")
	pt2 := verifv.Bytes("pt2", verifv.Choose("len2", 2)*7)
	if verifv.Choose("change", 2) == 1 {
		pass = verifv.Bytes("newpass", 2)
		p.Keys[p.User], p.Salts[p.User] = c01Derive(pass)
		verifv.Reach("passphrase changed")
	}
	file2 := c01Encrypt("single, second save", &p, pt2)
	c01Open("single, second save", nil, pass, nil, nil, file2, pt2)
	verifv.Reach("done")
	verifv.Observe("len", len(file), len(file2))
}

func Harness_C01_multi() {
	max := verifv.Pick(9, 40)
	verifv.Bound("1..3 users: plaintexts of length 0..9 (thorough 0..40), 8 and 12 (thorough 100) users: one of 5 bytes; every 2-byte passphrase of each; opened by each (the first, 8th or last of many) user, with the passphrase, a supplied key or one of another salt, saved again by that user, with or without rekeying one of the users")
	n, length, who := someUsers(max)
	pt := verifv.Bytes("pt", length)
	master, ivm, err := NewMasterKey(1)
	verifv.Assert(err == nil && len(master) == refKey && len(ivm) == refIV, "no usable master key")
	p := Params{NUsers: n, Master: master, IVM: ivm}
	var passes [][]byte
	for i := 0; i < n; i++ {
		pass := verifv.Bytes("pass", 2)
		passes = append(passes, pass)
		key, salt := c01Derive(pass)
		mkey, iv, err := EncryptMasterKey(1, key, cp(master))
		verifv.Assert(err == nil && len(mkey) == refKey && len(iv) == refIV, "the master key could not be wrapped")
		p.Users = append(p.Users, refName(refNames[i]))
		p.Salts = append(p.Salts, salt)
		p.IVs = append(p.IVs, iv)
		p.MKeys = append(p.MKeys, mkey)
		p.Keys = append(p.Keys, nil)
		if i == n-1 {
			p.Keys[i] = key
			p.User = i
		}
	}
	file := c01Encrypt("multi", &p, pt)
	q := c01Open("multi", []byte(refNames[who]), passes[who], nil, nil, file, pt)
	verifv.Assert(q.NUsers == n && q.User == who, "multi: returned parameters identify another user")
	verifv.Assert(len(q.Keys) == n && len(q.Salts) == n && len(q.IVs) == n && len(q.MKeys) == n && len(q.Users) == n, "multi: returned tables have the wrong size")
	for i := 0; i < n; i++ {
		verifv.Assert(verifv.And(verifv.EqB(q.Users[i], p.Users[i]), verifv.EqB(q.Salts[i], p.Salts[i]), verifv.EqB(q.IVs[i], p.IVs[i]), verifv.EqB(q.MKeys[i], p.MKeys[i])), "multi: a returned user record differs")
	}
	verifv.Assert(verifv.And(verifv.EqB(q.Master, master), verifv.EqB(q.IVM, ivm)), "multi: returned master key differs")
	verifv.Assert(verifv.EqB(q.Keys[who], refDerive(passes[who], p.Salts[who])), "multi: returned key differs")
	// reopening with the returned key and salt needs no passphrase
	c01Open("multi, supplied key", []byte(refNames[who]), nil, cp(q.Keys[who]), cp(q.Salts[who]), file, pt)

	if verifv.Choose("stale", 2) == 1 { // a key of another salt falls back to the passphrase
		stale := verifv.Bytes("stalesalt", []int{0, 31, refSalt}[verifv.Choose("stalelen", 3)])
		verifv.Assume(!verifv.EqB(stale, p.Salts[who]))
		q = c01Open("multi, stale key", []byte(refNames[who]), passes[who], verifv.Bytes("stalekey", refKey), stale, file, pt)
		verifv.Assert(verifv.And(verifv.EqB(q.Keys[who], refDerive(passes[who], p.Salts[who])), verifv.EqB(q.Salts[who], p.Salts[who])), "multi: the key returned is not the one of the file")
		verifv.Reach("stale")
	}

	victim := n
	if n <= 3 {
		victim = verifv.Choose("rekey", n+1)
	} else if verifv.Choose("rekey", 2) == 1 {
		victim = n - 2
	}
	if victim < n {
		old := passes[victim]
		passes[victim] = verifv.Bytes("newpass", 2)
		verifv.Assume(!verifv.EqB(old, passes[victim]))
		key, salt := c01Derive(passes[victim])
		mkey, iv, err := EncryptMasterKey(1, key, q.Master)
		verifv.Assert(err == nil, "the master key could not be wrapped again")
		if victim == q.User {
			q.Keys[victim] = key
		} else {
			q.Keys[victim] = nil
		}
		q.Salts[victim], q.MKeys[victim], q.IVs[victim] = salt, mkey, iv
		verifv.Reach("rekeyed")
	}
	pt2 := verifv.Bytes("pt2", 5)
	file2 := c01Encrypt("multi, second save", &q, pt2)
	for i := 0; i < n; i++ {
		r := c01Open("multi, second save, user "+strconv.Itoa(i), []byte(refNames[i]), passes[i], nil, nil, file2, pt2)
		verifv.Assert(r.User == i, "multi, second save: wrong user identified")
	}
	verifv.Reach("done")
	verifv.Observe("len", len(file), len(file2))
}

// Long texts, ciphers computed.
func Harness_C01_long() {
	verifv.Bound("one or two users with fixed passphrases, ciphers computed: texts of 255..257, 1000, 4080, 4096, 65535 and (thorough) 70000 bytes, one part of them repeated")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(60000000)
	lens := []int{255, 256, 257, 1000, 4080, 4096, 65535, 70000}
	n := lens[verifv.Choose("len", verifv.Pick(7, 8))]
	pt := make([]byte, n)
	for i := range pt {
		pt[i] = byte(i * 7 >> uint(i%3))
	}
	pass := []byte("pass")
	key, salt := c01Derive(pass)
	p := Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}
	user := []byte(nil)
	if verifv.Choose("users", 2) == 1 {
		master, ivm, err := NewMasterKey(1)
		verifv.Assert(err == nil, "no usable master key")
		mkey, iv, err := EncryptMasterKey(1, key, cp(master))
		verifv.Assert(err == nil, "the master key could not be wrapped")
		user = []byte("ann")
		p = Params{NUsers: 1, Master: master, IVM: ivm, Users: [][]byte{refName("ann")}, Salts: p.Salts, IVs: [][]byte{iv}, MKeys: [][]byte{mkey}, Keys: p.Keys}
	}
	file := c01Encrypt("long", &p, pt)
	q := c01Open("long", user, pass, nil, nil, file, pt)
	file2 := c01Encrypt("long, saved again", &q, pt)
	c01Open("long, saved again", user, pass, nil, nil, file2, pt)
	verifv.Observe("len", len(file), len(file2))
	verifv.Reach("done")
}

// Many users, ciphers computed.
func Harness_C01_crowd() {
	verifv.Bound("99..101 and 120 (thorough 256, 300) users made with the package's own functions, ciphers computed; a fixed text, opened by the first, the 10th and the last, saved again by that user and opened by the others of these")
	verifv.RandMode = 2
	verifv.ConcreteCrypto()
	verifv.StepLimit(200000000)
	counts := []int{99, 100, 101, 120, 256, 300}
	n := counts[verifv.Choose("users", verifv.Pick(4, 6))]
	pt := refFill(make([]byte, 33), 5)
	master, ivm, err := NewMasterKey(1)
	verifv.Assert(err == nil, "no usable master key")
	p := Params{NUsers: n, Master: master, IVM: ivm}
	for i := 0; i < n; i++ {
		key, salt := c01Derive([]byte(refNames[i]))
		mkey, iv, err := EncryptMasterKey(1, key, cp(master))
		verifv.Assert(err == nil, "the master key could not be wrapped")
		p.Users = append(p.Users, refName(refNames[i]))
		p.Salts, p.IVs = append(p.Salts, salt), append(p.IVs, iv)
		p.MKeys, p.Keys = append(p.MKeys, mkey), append(p.Keys, nil)
	}
	file := c01Encrypt("crowd", &p, pt)
	these := []int{0, 9, n - 1}
	who := these[verifv.Choose("who", 3)]
	q := c01Open("crowd", []byte(refNames[who]), []byte(refNames[who]), nil, nil, file, pt)
	verifv.Assert(q.NUsers == n && q.User == who, "crowd: returned parameters identify another user")
	pt2 := refFill(make([]byte, 12), 7)
	file = c01Encrypt("crowd, saved again", &q, pt2)
	for _, i := range these {
		r := c01Open("crowd, saved again", []byte(refNames[i]), []byte(refNames[i]), nil, nil, file, pt2)
		verifv.Assert(r.User == i && r.NUsers == n, "crowd: returned parameters identify another user")
	}
	verifv.Reach("done")
}
