// package-dir: blobformat
package blobformat

import (
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// lowerIs tells whether an ASCII text is w in any letter case.
func lowerIs(s, w string) bool {
	if len(s) != len(w) {
		return false
	}
	same := true
	for i := 0; i < len(s); i++ {
		same = verifv.And(same, verifv.Or(s[i] == w[i], verifv.And(w[i] >= 'a', w[i] <= 'z', s[i] == w[i]-32)))
	}
	return same
}

func oneOf(s string, ws ...string) bool {
	in := false
	for _, w := range ws {
		in = verifv.Or(in, lowerIs(s, w))
	}
	return in
}

func asciiKey(max int) string {
	k := verifv.String("key", verifv.Choose("klen", max+1))
	for i := 0; i < len(k); i++ {
		verifv.Assume(k[i] < 0x80)
	}
	return k
}

// b02Store has an entry with all fields the program manages, and a plain one.
func b02Store() (b Blobs, user, plain string) {
	b = newBlobs()
	user = mustNew(b, "user/u")
	plain = mustNew(b, "p")
	for _, k := range []string{KeyIV, KeySalt, KeyMKey, KeyTwoFactor} {
		b.DB.Set(user, k, "x")
	}
	for _, k := range []string{"own", KeyPass} {
		verifv.Assert(b.Set(user, k, "o") == nil, "setting a field failed")
	}
	return b, user, plain
}

// Setting any key of the entry.
func Harness_B02_set() {
	verifv.Bound("keys of 0..7 ASCII characters or 1..2 any bytes (thorough 1..4), values of 0..2 any bytes; on a user entry with every managed field, a plain entry, a deleted and an unknown one; the view refreshed before or not")
	b, user, plain := b02Store()
	gone := mustNew(b, "g")
	b.DB.Delete(gone)
	if verifv.Choose("refreshed", 2) == 1 {
		b.UpdateSnapshot()
	}
	var key string
	if verifv.Choose("ascii", 2) == 1 {
		key = asciiKey(7)
	} else {
		key = verifv.String("key", 1+verifv.Choose("klen", verifv.Pick(2, 4)))
	}
	value := anyText("val", 2)
	before := state(b)
	log := len(b.Log)
	t0 := verifv.Clock()
	id := []string{user, plain, gone, "unknown"}[verifv.Choose("entry", 4)]
	err := b.Set(id, key, value)
	prot := oneOf(key, KeyName, KeyUpdated, KeyTwoFactor, KeyIV, KeySalt, KeyMKey)
	if err != nil {
		verifv.Assert(verifv.Or(prot, before.at(id) == nil), "setting an ordinary field was refused")
		verifv.Assert(verifv.Implies(prot, IsKeyNotAllowed(err)), "a managed field is not reported as such")
		verifv.Assert(len(b.Log) == log && viewIs(b, before), "a refused change changed something")
		verifv.Reach("refused")
		return
	}
	verifv.Assert(before.at(id) != nil, "setting a field of an entry that is not there was accepted")
	verifv.Assert(verifv.Not(prot), "a field the program manages was set")
	m := state(b)
	verifv.Assert(viewIs(b, m), "the store does not show its history")
	before.at(id).set(key, value)
	verifv.Assert(sameState(before, m, id), "setting a field changed something else or did not store it exactly")
	verifv.Assert(freshly(m, id, t0), "setting a field did not refresh the update time")
	blob, err := b.Find(id)
	verifv.Assert(err == nil && verifv.EqS(blob.Get(key), value), "a field does not read back as it was set")
	verifv.Reach("set")
}

// Deleting any key of the entry.
func Harness_B02_delete() {
	verifv.Bound("keys of 0..7 ASCII characters or 1..3 any bytes; on a user entry with every managed field, a plain entry, a deleted and an unknown one")
	b, user, plain := b02Store()
	gone := mustNew(b, "g")
	b.DB.Delete(gone)
	var key string
	if verifv.Choose("ascii", 2) == 1 {
		key = asciiKey(7)
	} else {
		key = verifv.String("key", 1+verifv.Choose("klen", 3))
	}
	before := state(b)
	log := len(b.Log)
	t0 := verifv.Clock()
	id := []string{user, plain, gone, "unknown"}[verifv.Choose("entry", 4)]
	err := b.DeleteKey(id, key)
	exact := false
	for _, k := range []string{KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey} {
		exact = verifv.Or(exact, verifv.EqS(key, k))
	}
	if err != nil {
		verifv.Assert(verifv.Or(oneOf(key, KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey), before.at(id) == nil), "deleting an ordinary field was refused")
		verifv.Assert(verifv.Implies(exact, IsKeyNotAllowed(err)), "a managed field is not reported as such")
		verifv.Assert(len(b.Log) == log && viewIs(b, before), "a refused change changed something")
		verifv.Reach("refused")
		return
	}
	verifv.Assert(before.at(id) != nil, "deleting a field of an entry that is not there was accepted")
	verifv.Assert(verifv.Not(exact), "a name, update time or key material was deleted")
	m := state(b)
	verifv.Assert(viewIs(b, m), "the store does not show its history")
	before.at(id).del(key)
	verifv.Assert(sameState(before, m, id), "deleting a field changed something else")
	verifv.Assert(freshly(m, id, t0), "deleting a field did not refresh the update time")
	verifv.Reach("deleted")
}

// The two-factor setter.
func Harness_B02_twofactor() {
	verifv.Bound("two-factor secrets of 2, 4 or 5 letters or digits given bare, an otpauth address, and broken addresses; on a user entry, a deleted and an unknown one")
	b, user, _ := b02Store()
	gone := mustNew(b, "g")
	b.DB.Delete(gone)
	id := []string{user, gone, "unknown"}[verifv.Choose("entry", 3)]
	before := state(b)
	log := len(b.Log)
	t0 := verifv.Clock()
	arg, want, bad := "", "", false
	switch verifv.Choose("form", 3) {
	case 0:
		n := []int{2, 4, 5}[verifv.Choose("len", 3)]
		arg = verifv.String("secret", n)
		for i := 0; i < n; i++ {
			verifv.Assume(verifv.Or(verifv.And(arg[i] >= 'A', arg[i] <= 'Z'), verifv.And(arg[i] >= '2', arg[i] <= '7')))
		}
		want = "secret=" + arg
	case 1:
		arg = "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP"
		want = arg
	case 2:
		arg, bad = "otpauth://%zz", true
	}
	err := b.SetTwofactor(id, arg)
	if err != nil {
		verifv.Assert(bad || before.at(id) == nil, "setting a two-factor secret was refused")
		verifv.Assert(len(b.Log) == log && viewIs(b, before), "a refused change changed something")
		verifv.Reach("refused")
		return
	}
	verifv.Assert(before.at(id) != nil && !bad, "a broken two-factor address or missing entry was accepted")
	m := state(b)
	got, _ := m.at(id).get(KeyTwoFactor)
	verifv.Assert(strings.HasPrefix(got, "otpauth://totp/") && len(got) >= len(want) && verifv.EqS(got[len(got)-len(want):], want), "the two-factor address does not hold the secret")
	before.at(id).set(KeyTwoFactor, got)
	verifv.Assert(sameState(before, m, id), "setting the two-factor secret changed something else")
	verifv.Assert(freshly(m, id, t0), "setting the two-factor secret did not refresh the update time")
	verifv.Reach("set")
}
