// package-dir: blobformat
package blobformat

import (
	"strconv"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

// b01Store has up to n entries with different names of any bytes, one of
// which may have been deleted.
func b01Store(n int) (b Blobs, names, ids []string) {
	b = newBlobs()
	n = verifv.Choose("entries", n+1)
	for i := 0; i < n; i++ {
		// the first may have the empty name
		name := verifv.String("name", 1-verifv.Choose("empty", 1+b2i(i == 0)))
		for _, o := range names {
			verifv.Assume(verifv.Not(verifv.EqS(o, name)))
		}
		names = append(names, name)
		ids = append(ids, mustNew(b, name))
	}
	if n > 0 && verifv.Choose("delete", 2) == 1 {
		b.DB.Delete(ids[n-1])
		names, ids = names[:n-1], ids[:n-1]
	}
	for i := range ids {
		if verifv.Choose("field", 2) == 1 {
			verifv.Assert(b.Set(ids[i], "f", verifv.String("val", 1)) == nil, "setting a field failed")
		}
	}
	return b, names, ids
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkFindable(b Blobs, name, uuid string) {
	got, blob, err := b.FindByName(name)
	verifv.Assert(err == nil && got == uuid && blob != nil, "an entry is not found under its name")
	verifv.Assert(blob.Name() == name, "the entry found has another name")
}

func checkUnique(m model) {
	for i := range m {
		for j := 0; j < i; j++ {
			x, _ := m[i].get(KeyName)
			y, _ := m[j].get(KeyName)
			verifv.Assert(verifv.Not(verifv.EqS(x, y)), "two live entries have one name")
		}
	}
}

func hasName(names []string, n string) bool {
	in := false
	for _, x := range names {
		in = verifv.Or(in, verifv.EqS(x, n))
	}
	return in
}

// Adding an entry, a user or a sync entry.
func Harness_B01_add() {
	n := verifv.Pick(3, 4)
	verifv.Bound("stores of 0..3 (quick) or 0..4 (thorough) entries with different names of one byte of any value (one possibly the empty name), one possibly deleted again and some with a field; adding a plain entry (name of 0..2 any bytes), a user or a sync entry of any of these names, twice")
	b, names, ids := b01Store(n)
	before := state(b)
	log := append([]txlogs.Tx{}, b.Log...)
	name := anyText("new", 2)
	full := name
	var id string
	var err error
	kind := verifv.Choose("kind", 2)
	t0 := verifv.Clock()
	switch kind {
	case 0:
		id, err = b.New(name)
	case 1:
		full = "user/" + name
		id, err = b.NewUser(name)
	}
	taken := hasName(names, full)
	verifv.Assert(verifv.Iff(err != nil, taken), "adding fails exactly when the name is taken")
	if err != nil {
		verifv.Assert(err == ErrNameNotUnique && id == "", "a taken name is not reported as such")
		verifv.Assert(len(b.Log) == len(log) && viewIs(b, before), "a refused add changed something")
		verifv.Reach("refused")
		return
	}
	m := state(b)
	verifv.Assert(viewIs(b, m), "the store does not show its history")
	e := m.at(id)
	verifv.Assert(e != nil && len(m) == len(before)+1, "not exactly one entry was added")
	for _, o := range ids {
		verifv.Assert(o != id, "the new entry has the identifier of another")
	}
	v, ok := e.get(KeyName)
	verifv.Assert(ok && verifv.EqS(v, full), "the new entry has another name")
	verifv.Assert(len(e.keys) == 2 && freshly(m, id, t0), "the new entry does not consist of its name and update time")
	verifv.Assert(sameState(before, m[:len(m)-1], ""), "adding an entry changed another")
	checkUnique(m)
	checkFindable(b, full, id)
	for i := range ids {
		checkFindable(b, names[i], ids[i])
	}
	if kind == 1 {
		u, _, err := b.FindUser(name)
		verifv.Assert(err == nil && u == id, "a new user is not found")
		verifv.Assert(IsUserEntry(full) && SplitUsername(full) == name, "a user's entry name does not give back the user")
	}
	_, err = b.New(full)
	verifv.Assert(err == ErrNameNotUnique, "adding the same name again was accepted")
	verifv.Assert(viewIs(b, m), "a refused add changed something")
	verifv.Reach("added")
}

// Sync entries get the first free name.
func Harness_B01_sync() {
	verifv.Bound("stores of 0..3 entries named like sync entries of the kind (sync/k, sync/k1, sync/k11) or not; adding two sync entries of a kind of 0..2 any bytes")
	b := newBlobs()
	kind := anyText("kind", 2)
	var names, ids []string
	suf := ""
	for i := 0; i < 3; i++ {
		if verifv.Choose("taken", 2) == 1 {
			names = append(names, "sync/"+kind+suf)
			ids = append(ids, mustNew(b, "sync/"+kind+suf))
		}
		suf += "1"
	}
	for i := 0; i < 2; i++ {
		id, err := b.NewSync(kind)
		verifv.Assert(err == nil, "adding a sync entry failed")
		m := state(b)
		verifv.Assert(viewIs(b, m), "the store does not show its history")
		v, _ := m.at(id).get(KeyName)
		verifv.Assert(len(v) >= 5+len(kind) && v[:5+len(kind)] == "sync/"+kind, "a sync entry is not named after its kind")
		checkUnique(m)
		checkFindable(b, v, id)
		for i := range ids {
			checkFindable(b, names[i], ids[i])
		}
		names, ids = append(names, v), append(ids, id)
	}
	verifv.Reach("added")
}

// Renaming.
func Harness_B01_rename() {
	n := verifv.Pick(3, 4)
	verifv.Bound("stores of 0..3 (quick) or 0..4 (thorough) entries with different names of one byte of any value (one possibly the empty name), one possibly deleted again and some with a field; renaming any entry, the deleted or an unknown one, to any name of 0..2 bytes, then looking up and reusing the old name")
	b, names, ids := b01Store(n)
	before := state(b)
	log := len(b.Log)
	to := anyText("new", 2)
	which := verifv.Choose("which", len(ids)+1)
	id := "unknown"
	if which < len(ids) {
		id = ids[which]
	} else if len(before) < n && len(b.Log) > 0 {
		// the deleted entry, when there is one
		last := b.Log[0].UUID
		for _, tx := range b.Log {
			if tx.Kind == txlogs.TxDelete {
				last = tx.UUID
			}
		}
		if before.at(last) == nil {
			id = last
		}
	}
	t0 := verifv.Clock()
	err := b.Rename(id, to)
	refuse := verifv.Or(which == len(ids), hasName(names, to))
	verifv.Assert(verifv.Iff(err != nil, refuse), "renaming fails exactly when the name is taken or the entry missing")
	if err != nil {
		verifv.Assert(len(b.Log) == log && viewIs(b, before), "a refused rename changed something")
		verifv.Reach("refused")
		return
	}
	m := state(b)
	verifv.Assert(viewIs(b, m), "the store does not show its history")
	old := names[which]
	want := model{}
	for _, e := range before {
		if e.uuid == id {
			e.set(KeyName, to)
		}
		want = append(want, e)
	}
	verifv.Assert(sameState(want, m, id), "renaming changed something else")
	verifv.Assert(freshly(m, id, t0), "renaming did not refresh the update time")
	checkUnique(m)
	checkFindable(b, to, id)
	got, _, err := b.FindByName(old)
	verifv.Assert(err == nil && got == "", "a renamed entry is still found under its old name")
	nid, err := b.New(old)
	verifv.Assert(err == nil, "the old name of a renamed entry cannot be used again")
	checkFindable(b, old, nid)
	checkFindable(b, to, id)
	verifv.Reach("renamed")
}

// Many entries.
func Harness_B01_many() {
	verifv.Bound("40 (thorough 300) entries, the first, middle or last named by any two letters; one of three added, or one renamed, to any name of two letters, a number of them or a long one; 13 sync entries of a kind")
	n := verifv.Pick(40, 300)
	b := newBlobs()
	var names, ids []string
	at := []int{0, n / 2, n - 1}[verifv.Choose("at", 3)]
	text := func(label string) string {
		s := verifv.String(label, 2)
		verifv.Assume(verifv.And(s[0] >= 'a', s[0] <= 'z', s[1] >= 'a', s[1] <= 'z'))
		return s
	}
	for i := 0; i < n; i++ {
		name := "n" + strconv.Itoa(i)
		if i == at {
			name = text("name")
		}
		id := "id-" + strconv.Itoa(i)
		b.DB.Log = append(b.DB.Log, addTx(id))
		b.DB.Set(id, KeyName, name)
		names, ids = append(names, name), append(ids, id)
	}
	to := []string{"n1", "n" + strconv.Itoa(n-1), "n" + strconv.Itoa(n), "a name of many words that is rather long/and has a part", ""}[verifv.Choose("to", 5)]
	if to == "" {
		to = text("new")
	}
	taken := hasName(names, to)
	log := len(b.Log)
	if verifv.Choose("rename", 2) == 1 {
		k := []int{1, n / 2, n - 1}[verifv.Choose("which", 3)]
		err := b.Rename(ids[k], to)
		verifv.Assert(verifv.Iff(err != nil, taken), "renaming fails exactly when the name is taken")
		if err == nil {
			names[k] = to
			verifv.Reach("renamed")
		} else {
			verifv.Assert(len(b.Log) == log, "a refused rename changed something")
			verifv.Reach("refused")
		}
	} else {
		id, err := b.New(to)
		verifv.Assert(verifv.Iff(err != nil, taken), "adding fails exactly when the name is taken")
		if err == nil {
			names, ids = append(names, to), append(ids, id)
			verifv.Reach("added")
		} else {
			verifv.Assert(len(b.Log) == log, "a refused add changed something")
		}
		for i := 0; i < 13; i++ {
			id, err := b.NewSync("file")
			verifv.Assert(err == nil, "adding a sync entry failed")
			e, err := b.Find(id)
			verifv.Assert(err == nil && !hasName(names, e.Name()), "a sync entry got a name that is taken")
			names, ids = append(names, e.Name()), append(ids, id)
		}
	}
	for i := range names {
		checkFindable(b, names[i], ids[i])
	}
}
