// package-dir: crypt
package crypt

import (
	"errors"

	"github.com/aarondl/bpass/verifv"
)

// c06List deviates a list of byte strings; kept[i] tells whether entry i is still the good one.
func c06List(l [][]byte, n int) [][]byte {
	out := append([][]byte(nil), l...)
	at := 0
	if len(out) > 1 {
		at = verifv.Choose("entry", len(out))
	}
	switch verifv.Choose("how", 7) {
	case 0:
		return nil
	case 1:
		return append(out, verifv.Bytes("extra", n))
	case 2:
		if len(out) > 0 {
			return out[:len(out)-1]
		}
	case 3:
		if len(out) > 0 {
			out[at] = nil
		}
	case 4:
		if len(out) > 0 {
			out[at] = verifv.Bytes("short", n-1)
		}
	case 5:
		if len(out) > 0 {
			out[at] = verifv.Bytes("long", n+1)
		}
	default:
		if len(out) > 0 {
			out[at] = []byte{}
		}
	}
	return out
}

func c06One(b []byte, n int) []byte {
	switch verifv.Choose("how", 5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return verifv.Bytes("short", n-1)
	case 3:
		return verifv.Bytes("long", n+1)
	}
	return verifv.Bytes("tiny", 1)
}

func c06Deviate(p *Params, field int) {
	switch field {
	case 0:
		p.Keys = c06List(p.Keys, refKey)
	case 1:
		p.Salts = c06List(p.Salts, refSalt)
	case 2:
		p.Users = c06List(p.Users, 32)
	case 3:
		p.IVs = c06List(p.IVs, refIV)
	case 4:
		p.MKeys = c06List(p.MKeys, refKey)
	case 5:
		p.IVM = c06One(p.IVM, refIV)
	case 6:
		p.Master = c06One(p.Master, refKey)
	case 7:
		p.NUsers += []int{1, -1, -3, 10000, 1 << 40}[verifv.Choose("count", 5)]
	case 8:
		p.User = []int{-1, p.NUsers, 1 << 40}[verifv.Choose("index", 3)]
	}
}

func c06Is(l [][]byte, i int, want []byte) bool {
	return i < len(l) && len(l[i]) == len(want) && verifv.EqB(l[i], want)
}

func Harness_C06_encrypt() {
	verifv.Bound("valid single-user and 1..2-user (thorough 3) parameter sets with up to two fields (thorough also three for one user) absent, empty, short, long, extra or miscounted")
	users := verifv.Choose("users", verifv.Pick(3, 4))
	pt := verifv.Bytes("pt", 3)
	master, ivm := verifv.Bytes("master", refKey), verifv.Bytes("ivm", refIV)
	us, passes := refUsers(users, master)
	p := paramsOf(us, master, ivm)
	key, salt := verifv.Bytes("key", refKey), verifv.Bytes("ssalt", refSalt)
	if users == 0 {
		p = &Params{Keys: [][]byte{cp(key)}, Salts: [][]byte{cp(salt)}}
	} else {
		if verifv.Choose("havekeys", 2) == 1 {
			for i := range us {
				p.Keys[i] = refDerive(passes[i], us[i].salt)
			}
		}
	}
	n := verifv.Choose("deviations", 3)
	if users == 1 && verifv.Tier() > 0 && n == 2 {
		n += verifv.Choose("more", 2)
	}
	f, missing, other := 0, false, false
	for i := 0; i < n; i++ {
		f += verifv.Choose("field", 9-f)
		c06Deviate(p, f)
		if f == 5 && p.IVM == nil || f == 6 && p.Master == nil {
			missing = true
		} else {
			other = true
		}
		if f++; f >= 9 {
			break
		}
	}
	multi := p.NUsers != 0
	var out []byte
	var err error
	verifv.NoPanic("encrypting panicked", func() { out, err = Encrypt(1, p, cp(pt)) })
	if err != nil {
		verifv.Assert(out == nil, "output was returned together with an error")
		verifv.Assert(n > 0, "a valid parameter set was refused")
		if users > 0 && missing && !other {
			verifv.Assert(errors.Is(err, ErrNeedFullRekey), "a missing master key or iv was not reported as needing a full rekey")
		}
		verifv.Reach("refused")
		return
	}
	verifv.Assert(!(multi && users > 0 && missing), "a multi-user file was written without its master key or iv")
	if !multi {
		if c06Is(p.Keys, 0, key) && c06Is(p.Salts, 0, salt) && users == 0 {
			c06Open(nil, nil, key, salt, out, pt)
		}
		return
	}
	verifv.Assert(p.NUsers > 0 && len(out) >= 16+p.NUsers*refUser, "the file has no room for the users it lists")
	for i := 0; i < p.NUsers; i++ {
		verifv.Assert(i < len(p.Users) && i < len(p.Salts) && i < len(p.IVs) && i < len(p.MKeys), "a user without a record was written")
		verifv.Assert(len(p.Users[i]) == 32 && len(p.Salts[i]) == refSalt && len(p.IVs[i]) == refIV && len(p.MKeys[i]) == refKey, "a user who cannot open the file was written")
	}
	for i := range us {
		if i < p.NUsers && c06Is(p.Users, i, us[i].hash) && c06Is(p.Salts, i, us[i].salt) && c06Is(p.IVs, i, us[i].iv) && c06Is(p.MKeys, i, us[i].mkey) &&
			verifv.EqB(p.Master, master) {
			c06Open([]byte(refNames[i]), passes[i], nil, nil, out, pt)
			verifv.Reach("opened by a listed user")
		}
	}
}

func c06Open(user, pass, key, salt, file, pt []byte) {
	var got []byte
	var err error
	verifv.NoPanic("decrypting panicked", func() { _, _, got, err = Decrypt(user, pass, key, salt, file) })
	verifv.Assert(err == nil, "a listed user with consistent credentials cannot open the file")
	verifv.Assert(verifv.EqB(got, pt), "a listed user reads other text")
}

// As many users as the header has digits for.
func Harness_C06_many() {
	verifv.Bound("files of 999, 1000, 9999, 10000 and 12345 users with one passphrase, opened by the first and the last")
	verifv.ConcreteCrypto()
	verifv.RandMode = 2
	verifv.StepLimit(40000000)
	n := []int{999, 1000, 9999, 10000, 12345}[verifv.Choose("users", 5)]
	key, err := verifv.Scrypt_Key([]byte("pw"), make([]byte, refSalt), 524288, 8, 1, refKey)
	verifv.Assert(err == nil, "no key")
	master, ivm := make([]byte, refKey), make([]byte, refIV)
	mkey, iv, err := EncryptMasterKey(1, key, master)
	verifv.Assert(err == nil, "no wrapped key")
	p := &Params{NUsers: n, Master: master, IVM: ivm, Keys: make([][]byte, n), User: 1}
	first, last, nobody := refName("first"), refName("last"), make([]byte, 32)
	salt := make([]byte, refSalt)
	for i := 0; i < n; i++ {
		u := nobody
		switch i {
		case 0:
			u = first
		case n - 1:
			u = last
		}
		p.Users = append(p.Users, u)
		p.Salts = append(p.Salts, salt)
		p.IVs = append(p.IVs, iv)
		p.MKeys = append(p.MKeys, mkey)
	}
	pt := []byte("text")
	var out []byte
	verifv.NoPanic("encrypting panicked", func() { out, err = Encrypt(1, p, cp(pt)) })
	if err != nil {
		verifv.Assert(n > 9999, "a number of users the format has room for was refused")
		verifv.Reach("refused")
		return
	}
	c06Open([]byte("first"), []byte("pw"), nil, nil, out, pt)
	c06Open([]byte("last"), []byte("pw"), nil, nil, out, pt)
	verifv.Reach("opened")
}

func Harness_C06_wrap() {
	verifv.Bound("wrapping a master key of every length 0..90 with a user key of every length 0..90 (one of them the right length or both equal)")
	n := verifv.Choose("len", 91)
	kl, ml := n, n
	switch verifv.Choose("which", 3) {
	case 0:
		kl = refKey
	case 1:
		ml = refKey
	}
	key, master := verifv.Bytes("key", kl), verifv.Bytes("master", ml)
	var w, iv []byte
	var err error
	m := cp(master)
	verifv.NoPanic("wrapping panicked", func() { w, iv, err = EncryptMasterKey(1, cp(key), m) })
	verifv.Assert(verifv.EqB(m, master), "wrapping altered the master key")
	if kl != refKey || ml != refKey {
		verifv.Assert(err != nil, "a key of the wrong size was accepted")
		verifv.Assert(w == nil && iv == nil, "output was returned together with an error")
		return
	}
	verifv.Assert(err == nil, "a valid wrapping was refused")
	verifv.Assert(len(w) == refKey && len(iv) == refIV, "the wrapped key or its iv has the wrong size")
	verifv.Assert(verifv.EqB(refUnwrap(key, iv, w), master), "the wrapped key does not unwrap to the master key")
	verifv.Reach("wrapped")
}

func Harness_C06_version() {
	verifv.Bound("every version number but 1, for every operation that takes one")
	v := verifv.Int("version", -1<<62, 1<<62)
	verifv.Assume(v != 1)
	key, salt := verifv.Bytes("key", refKey), verifv.Bytes("salt", refSalt)
	var err error
	var a, b []byte
	op := verifv.Choose("op", 4)
	verifv.NoPanic("an unknown version panicked", func() {
		switch op {
		case 0:
			a, err = Encrypt(v, &Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, nil)
		case 1:
			a, b, err = EncryptMasterKey(v, key, key)
		case 2:
			a, b, err = NewMasterKey(v)
		default:
			a, b, err = DeriveKey(v, []byte("pw"))
		}
	})
	verifv.Assert(err != nil && a == nil && b == nil, "an unknown version was accepted")
	verifv.Reach("refused")
}
