// package-dir: blobformat
package blobformat

import "github.com/aarondl/bpass/verifv"

func Harness_B05_rename() {
	n := verifv.Pick(3, 4)
	verifv.Bound("stores of 1..3 (thorough 1..4) entries with names of 1..2 characters out of a and 1, in any combination of duplicates; the same records in another order beside it")
	ids := []string{"c-1", "a-2", "b-3", "d-4"}
	k := 1 + verifv.Choose("entries", n)
	names := make([]string, k)
	b, other := newBlobs(), newBlobs()
	for i := range names {
		names[i] = verifv.String("name", 1+verifv.Choose("len", 2))
		for j := range names[i] {
			verifv.Assume(verifv.InSet(names[i][j], "a1"))
		}
		b.DB.Log = append(b.DB.Log, addTx(ids[i]))
		b.DB.Set(ids[i], KeyName, names[i])
		b.DB.Set(ids[i], KeyPass, "p"+ids[i])
	}
	for i := k - 1; i >= 0; i-- {
		other.DB.Log = append(other.DB.Log, addTx(ids[i]))
		other.DB.Set(ids[i], KeyPass, "p"+ids[i])
		other.DB.Set(ids[i], KeyName, names[i])
	}
	if verifv.Choose("refreshed", 2) == 1 {
		b.UpdateSnapshot()
	}
	dup := func(i int) bool {
		d := false
		for j := range names {
			if j != i {
				d = verifv.Or(d, verifv.EqS(names[i], names[j]))
			}
		}
		return d
	}
	before := state(b)
	renames, err := b.RenameDuplicates()
	verifv.Assert(err == nil, "renaming failed")
	_, err = other.RenameDuplicates()
	verifv.Assert(err == nil, "renaming failed")
	after, there := state(b), state(other)
	verifv.Assert(len(after) == k, "an entry was lost or came up")
	verifv.Assert(viewIs(b, after), "the current entries are not what the history gives")
	got := make([]string, k)
	changed := false
	for i := range names {
		e := after.at(ids[i])
		verifv.Assert(e != nil, "an entry was lost")
		got[i], _ = e.get(KeyName)
		p, _ := e.get(KeyPass)
		verifv.Assert(p == "p"+ids[i], "a field was lost")
		c := verifv.Not(verifv.EqS(got[i], names[i]))
		verifv.Assert(verifv.Implies(c, dup(i)), "an entry was renamed whose name was nobody else's")
		if c {
			changed = true
			_, told := renames[names[i]]
			verifv.Assert(told, "a rename was not reported")
		} else {
			b4 := before.at(ids[i])
			verifv.Assert(len(b4.keys) == len(e.keys), "an entry that was not renamed was changed")
		}
		t, _ := there.at(ids[i]).get(KeyName)
		verifv.Assert(verifv.EqS(t, got[i]), "replicas with the same entries chose different names")
		for j := 0; j < i; j++ {
			verifv.Assert(verifv.Not(verifv.EqS(got[i], got[j])), "two entries still have the same name")
		}
	}
	// of those with one name, one keeps it
	for i := range names {
		kept := false
		for j := range names {
			kept = verifv.Or(kept, verifv.And(verifv.EqS(names[i], names[j]), verifv.EqS(got[j], names[j])))
		}
		verifv.Assert(kept, "nobody kept a name that was taken twice")
	}
	for old, now := range renames {
		is := false
		for i := range names {
			is = verifv.Or(is, verifv.And(verifv.EqS(names[i], old), verifv.EqS(got[i], now), dup(i)))
		}
		verifv.Assert(is, "a rename was reported that did not happen")
	}
	if changed {
		verifv.Reach("renamed")
	} else {
		verifv.Assert(len(renames) == 0, "renames were reported though none happened")
		verifv.Reach("nothing to do")
	}
}

// Many of one name.
func Harness_B05_many() {
	verifv.Bound("2, 11 or 13 (thorough 40) entries of one name, and three more with names of one or two characters out of a and 1; beside a replica with the entries in the opposite order")
	n := []int{2, 11, 13, 40}[verifv.Choose("entries", verifv.Pick(3, 4))]
	b := newBlobs()
	names := make([]string, n+3)
	for i := range names {
		names[i] = "a"
		if i >= n {
			names[i] = verifv.String("name", 1+verifv.Choose("len", 2))
			for j := range names[i] {
				verifv.Assume(verifv.InSet(names[i][j], "a1"))
			}
		}
		id := "e" + string(rune('A'+i))
		b.DB.Log = append(b.DB.Log, addTx(id))
		b.DB.Set(id, KeyName, names[i])
		b.DB.Set(id, KeyPass, "p"+id)
	}
	other := newBlobs()
	for i := range names {
		j := len(names) - 1 - i
		id := "e" + string(rune('A'+j))
		other.DB.Log = append(other.DB.Log, addTx(id))
		other.DB.Set(id, KeyName, names[j])
	}
	renames, err := b.RenameDuplicates()
	verifv.Assert(err == nil, "renaming failed")
	verifv.Assert(len(renames) > 0, "a rename was not reported")
	_, err = other.RenameDuplicates()
	verifv.Assert(err == nil, "renaming failed")
	there := state(other)
	after := state(b)
	verifv.Assert(len(after) == len(names), "an entry was lost or came up")
	verifv.Assert(viewIs(b, after), "the current entries are not what the history gives")
	got := make([]string, len(names))
	for i := range names {
		id := "e" + string(rune('A'+i))
		e := after.at(id)
		verifv.Assert(e != nil, "an entry was lost")
		got[i], _ = e.get(KeyName)
		p, _ := e.get(KeyPass)
		verifv.Assert(p == "p"+id, "a field was lost")
		t, _ := there.at(id).get(KeyName)
		verifv.Assert(verifv.EqS(t, got[i]), "replicas with the same entries chose different names")
		for j := 0; j < i; j++ {
			verifv.Assert(verifv.Not(verifv.EqS(got[i], got[j])), "two entries still have the same name")
		}
	}
	for i := range names {
		kept := false
		for j := range names {
			kept = verifv.Or(kept, verifv.And(verifv.EqS(names[i], names[j]), verifv.EqS(got[j], names[j])))
		}
		verifv.Assert(kept, "nobody kept a name that was taken twice")
	}
	verifv.Reach("done")
}
