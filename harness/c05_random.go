// package-dir: crypt
package crypt

import "github.com/aarondl/bpass/verifv"

type c05Claim struct {
	what   string
	lo, hi int
}

// c05Pool tracks which bytes of the random stream were used for what.
type c05Pool struct{ used []c05Claim }

func (p *c05Pool) stream() []byte {
	var s []byte
	for _, b := range verifv.RandLog {
		s = append(s, b...)
	}
	return s
}

func c05Same(a, b []byte) bool {
	if verifv.Symbolic() {
		return verifv.BranchIs(verifv.EqB(a, b)) == 1
	}
	return verifv.EqB(a, b)
}

// claim asserts that v is n consecutive bytes of the random stream that nothing else uses.
func (p *c05Pool) claim(what string, v []byte, n int) {
	verifv.Assert(len(v) == n, what+" has the wrong size")
	if len(v) != n {
		return
	}
	s := p.stream()
	shared := false
	for lo := 0; lo+n <= len(s); lo++ {
		if !c05Same(v, s[lo:lo+n]) {
			continue
		}
		free := true
		for _, u := range p.used {
			if lo < u.hi && u.lo < lo+n {
				free = false
			}
		}
		if free {
			p.used = append(p.used, c05Claim{what, lo, lo + n})
			return
		}
		shared = true
	}
	for i := range s { // so that the counterexample's bytes tell the places apart
		verifv.Assume(s[i] == byte(i*7+i/256*13+1))
	}
	verifv.Assert(!shared, what+" shares random bytes with another salt, iv or key")
	verifv.Assert(false, what+" does not come entirely from the secure random source")
}

func Harness_C05_fresh() {
	verifv.Bound("a session of two derivations, a master key, two wrappings and three single-user and one multi-user save, for every value of the random bytes and every 2-byte passphrase and plaintext")
	verifv.RandMode = 1
	var pool c05Pool
	pass := verifv.Bytes("pass", 2)
	pt := verifv.Bytes("pt", 2)
	k1, s1, err := DeriveKey(1, pass)
	verifv.Assert(err == nil, "deriving failed")
	pool.claim("first salt", s1, refSalt)
	k2, s2, err := DeriveKey(1, pass)
	verifv.Assert(err == nil, "deriving failed")
	pool.claim("second salt", s2, refSalt)
	master, ivm, err := NewMasterKey(1)
	verifv.Assert(err == nil, "making a master key failed")
	pool.claim("master key", master, refKey)
	pool.claim("master iv", ivm, refIV)
	m1, i1, err := EncryptMasterKey(1, k1, master)
	verifv.Assert(err == nil, "wrapping failed")
	pool.claim("first user's iv", i1, refIV)
	m2, i2, err := EncryptMasterKey(1, k2, master)
	verifv.Assert(err == nil, "wrapping failed")
	pool.claim("second user's iv", i2, refIV)
	p := &Params{Keys: [][]byte{k1}, Salts: [][]byte{s1}}
	for i := 0; i < 2; i++ {
		f, err := Encrypt(1, p, pt)
		verifv.Assert(err == nil, "encrypting failed")
		pool.claim("iv of a save", f[48:88], refIV)
		if i == 1 {
			_, q, _, err := Decrypt(nil, nil, cp(k1), cp(s1), f)
			verifv.Assert(err == nil, "decrypting failed")
			f, err = Encrypt(1, &q, pt)
			verifv.Assert(err == nil, "encrypting failed")
			pool.claim("iv of a save after reopening", f[48:88], refIV)
		}
	}
	mp := &Params{NUsers: 2, Keys: [][]byte{k1, k2}, Salts: [][]byte{s1, s2}, Users: [][]byte{refName("alice"), refName("bob")},
		IVs: [][]byte{i1, i2}, MKeys: [][]byte{m1, m2}, Master: master, IVM: ivm}
	f, err := Encrypt(1, mp, pt)
	verifv.Assert(err == nil, "encrypting failed")
	verifv.Assert(verifv.EqB(f[16+32:16+64], s1) && verifv.EqB(f[16+64:16+104], i1), "the first user's salt or iv was replaced")
	verifv.Assert(verifv.EqB(f[16+2*refUser:16+2*refUser+refIV], ivm), "the master iv was replaced")
	verifv.Assert(verifv.InsecureRand == 0, "an insecure random source was used")
	verifv.Reach("done")
}

// Any failing read makes the operation fail and yield nothing.
func Harness_C05_fault() {
	verifv.Bound("any read of the random source failing or returning any shorter count (0, 1, half, all but one byte), with or without an error")
	verifv.RandMode = 1
	op := verifv.Choose("op", 5)
	key, salt, master, iv := verifv.Bytes("key", refKey), verifv.Bytes("salt", refSalt), verifv.Bytes("master", refKey), verifv.Bytes("iv", refIV)
	verifv.RandFault = verifv.Choose("fault", 4)
	verifv.RandShort = []int{0, 1, 16, 31, 39, 79}[verifv.Choose("short", 6)]
	verifv.RandShortNil = verifv.Choose("nilerr", 2) == 1
	if verifv.RandShortNil && verifv.RandShort == 0 {
		return // a reader that gives nothing without an error forever is not a failing source
	}
	var a, b []byte
	var err error
	verifv.NoPanic("panicked when randomness failed", func() {
		switch op {
		case 0:
			a, b, err = DeriveKey(1, []byte("pw"))
		case 1:
			a, b, err = NewMasterKey(1)
		case 2:
			a, b, err = EncryptMasterKey(1, key, master)
		case 3:
			a, err = Encrypt(1, &Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, []byte("text"))
		default:
			a, err = Encrypt(1, &Params{NUsers: 1, Keys: [][]byte{nil}, Salts: [][]byte{salt}, Users: [][]byte{refName("alice")},
				IVs: [][]byte{iv}, MKeys: [][]byte{key}, Master: master, IVM: iv}, []byte("text"))
		}
	})
	if verifv.RandReads() <= verifv.RandFault {
		verifv.Assert(err == nil, "the operation failed although randomness did not")
		verifv.Reach("not reached")
		return
	}
	if verifv.RandFaultLen <= verifv.RandShort || verifv.RandShortNil && verifv.RandReads() > verifv.RandFault+1 {
		return // everything asked for came, or was completed by further reads
	}
	verifv.Assert(err != nil, "a failing random source was not reported")
	verifv.Assert(a == nil && b == nil, "something was produced although the random source failed")
	verifv.Reach("reported")
}
