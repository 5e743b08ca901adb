// package-dir: blobformat
package blobformat

import (
	"strconv"
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// refMatch: the query's characters occur in the name in order, a lowercase
// letter matching either case. ASCII only.
func refMatch(name, query string) bool {
	// ok[j]: query[:j] occurs in order in the name so far
	ok := make([]bool, len(query)+1)
	ok[0] = true
	for i := 0; i < len(name); i++ {
		for j := len(query); j > 0; j-- {
			q := query[j-1]
			hit := verifv.Or(q == name[i], verifv.And(q >= 'a', q <= 'z', name[i] == q-32))
			ok[j] = verifv.Or(ok[j], verifv.And(ok[j-1], hit))
		}
	}
	return ok[len(query)]
}

// split by symbolic slashes: forks per byte, so only used on short texts.
func segs(s string) []string { return strings.Split(s, "/") }

func refFound(name, query string) bool {
	q := segs(query)
	if len(q) == 1 {
		return refMatch(name, query)
	}
	n := segs(name)
	if len(n) < len(q) {
		return false
	}
	all := true
	for i := range q {
		all = verifv.And(all, refMatch(n[i], q[i]))
	}
	return all
}

// nameText is a text of letters a, b in either case and slashes.
func nameText(label string, n int) string {
	s := verifv.String(label, n)
	for i := 0; i < n; i++ {
		verifv.Assume(verifv.InSet(s[i], "abAB/1"))
	}
	return s
}

// resultsAre: the results are exactly the entries that are in, by their names.
func resultsAre(res SearchResults, ids, names []string, in []bool) {
	n := 0
	for i, id := range ids {
		got, ok := res[id]
		verifv.Assert(verifv.Iff(ok, in[i]), "an entry that does not match was found or one that does was not")
		if ok {
			n++
			verifv.Assert(verifv.EqS(got, names[i]), "a result has another entry's name")
		}
	}
	verifv.Assert(len(res) == n && len(res.UUIDs()) == n && len(res.Names()) == n, "the results have entries that are not there")
}

// storeOf makes a store with entries of these names, and one deleted entry.
func storeOf(names []string) (b Blobs, ids []string) {
	b = newBlobs()
	for _, n := range names {
		id, err := b.DB.Add()
		verifv.Assert(err == nil, "adding failed")
		b.DB.Set(id, KeyName, n)
		ids = append(ids, id)
	}
	gone, _ := b.DB.Add()
	b.DB.Set(gone, KeyName, "aab")
	if verifv.Choose("refreshed", 2) == 1 {
		b.UpdateSnapshot()
	}
	b.DB.Delete(gone)
	return b, ids
}

func Harness_B04_names() {
	n := verifv.Pick(3, 5)
	verifv.Bound("two entries with names of 0..3 (thorough 0..5) characters out of a, b, A, B, 1, / and one deleted, every query of 0..3 of them")
	names := []string{nameText("name", verifv.Choose("len", n+1)), "Ab/a"}
	b, ids := storeOf(names)
	before := state(b)
	log := len(b.Log)
	q := nameText("query", verifv.Choose("qlen", 4))
	res, err := b.Search(q)
	verifv.Assert(err == nil, "searching failed")
	in := make([]bool, len(names))
	for i := range names {
		in[i] = refFound(names[i], q)
	}
	resultsAre(res, ids, names, in)
	verifv.Assert(len(b.Log) == log && viewIs(b, before), "searching changed something")
	verifv.Possible("found", in[0])
	verifv.Possible("not found", verifv.Not(in[0]))
}

// Labels are one or two letters.
func labelText(label string) string {
	s := verifv.String(label, 1+verifv.Choose("long", 2))
	for i := range s {
		verifv.Assume(verifv.InSet(s[i], "aAb"))
	}
	return s
}

func Harness_B04_labels() {
	max := verifv.Pick(2, 3)
	verifv.Bound("two entries with 0..2 (thorough 0..3) labels of one or two letters (a, A, b) each, repeated ones included, every search for 0..2 (thorough 0..3) such labels")
	names := []string{"e", "f"}
	b, ids := storeOf(names)
	labels := make([][]string, 2)
	for i := range labels {
		if i == 1 {
			labels[1] = []string{"a", "Ab"}
			b.DB.Set(ids[1], KeyLabels, "a,Ab")
			continue
		}
		for k := verifv.Choose("labels", max+1); k > 0; k-- {
			labels[i] = append(labels[i], labelText("label"))
		}
		if len(labels[i]) != 0 {
			b.DB.Set(ids[i], KeyLabels, strings.Join(labels[i], ","))
		}
	}
	before := state(b)
	log := len(b.Log)
	var want []string
	for k := verifv.Choose("wanted", max+1); k > 0; k-- {
		want = append(want, labelText("want"))
	}
	res, err := b.SearchLabels(want...)
	verifv.Assert(err == nil, "searching failed")
	in := make([]bool, 2)
	for i := range in {
		in[i] = true
		for _, w := range want {
			has := false
			for _, l := range labels[i] {
				has = verifv.Or(has, verifv.EqS(l, w))
			}
			in[i] = verifv.And(in[i], has)
		}
	}
	resultsAre(res, ids, names, in)
	verifv.Assert(len(b.Log) == log && viewIs(b, before), "searching changed something")
	verifv.Possible("found", in[0])
	verifv.Possible("not found", verifv.Not(in[0]))
}

func Harness_B04_users() {
	verifv.Bound("three entries: one with a name of 0..8 any bytes, a user and one with user/ inside its name; every user name of 0..3 bytes looked up")
	names := []string{verifv.String("name", verifv.Choose("len", 9)), "user/b", "my/user/b"}
	b, ids := storeOf(names)
	n := names[0]
	isUser := len(n) >= 5 && verifv.And(n[0] == 'u', n[1] == 's', n[2] == 'e', n[3] == 'r', n[4] == '/')
	res, err := b.Users()
	verifv.Assert(err == nil, "listing users failed")
	resultsAre(res, ids, names, []bool{isUser, true, false})
	verifv.Assert(verifv.Iff(IsUserEntry(n), isUser), "an entry is taken for a user by mistake, or a user is not")
	who := SplitUsername(n)
	if isUser {
		verifv.Assert(verifv.EqS(who, n[5:]), "the user name is not what follows user/")
		verifv.Reach("user")
	} else {
		verifv.Assert(who == "", "an ordinary entry has a user name")
		verifv.Reach("other")
	}
	u := verifv.String("user", verifv.Choose("ulen", 4))
	id, bl, err := b.FindUser(u)
	verifv.Assert(err == nil, "finding a user failed")
	is0, is1 := verifv.EqS(n, "user/"+u), verifv.EqS(u, "b")
	if id == "" {
		verifv.Assert(bl == nil && verifv.Not(verifv.Or(is0, is1)), "a user was not found")
	} else {
		verifv.Assert(verifv.Or(verifv.And(is0, id == ids[0]), verifv.And(is1, id == ids[1])), "the wrong user was found")
		verifv.Assert(verifv.EqS(bl.Name(), "user/"+u), "the entry found is another user's")
		verifv.Reach("found user")
	}
}

// Many entries.
func Harness_B04_many() {
	verifv.Bound("40 (thorough 300) entries with fixed names and labels, and at any place among them one with a name and a label of one or two letters; every query and label of one such letter; every user and entry looked up")
	n := verifv.Pick(40, 300)
	b := newBlobs()
	var ids, names, labels []string
	at := []int{0, n / 2, n - 1}[verifv.Choose("at", 3)]
	for i := 0; i < n; i++ {
		name, label := "x/"+strconv.Itoa(i), "l"+strconv.Itoa(i%7)
		if i%5 == 4 {
			name = "user/" + strconv.Itoa(i)
		}
		if i == at {
			name, label = nameText("name", 2), labelText("label")
		}
		id := "id-" + strconv.Itoa(i)
		b.DB.Log = append(b.DB.Log, addTx(id))
		b.DB.Set(id, KeyName, name)
		b.DB.Set(id, KeyLabels, "m,"+label)
		ids, names, labels = append(ids, id), append(names, name), append(labels, label)
	}
	in := make([]bool, n)
	var res SearchResults
	var err error
	switch verifv.Choose("how", 4) {
	case 0:
		q := nameText("query", 1)
		res, err = b.Search(q)
		for i := range in {
			in[i] = refFound(names[i], q)
		}
	case 1:
		w := []string{"m", "l3", "b"}[verifv.Choose("want", 3)]
		res, err = b.SearchLabels("m", w)
		for i := range in {
			in[i] = verifv.Or(w == "m", verifv.EqS(labels[i], w))
		}
	case 2:
		res, err = b.Users()
		for i := range in {
			in[i] = i%5 == 4 && i != at
		}
	default:
		for i := range names {
			id, bl, err := b.FindByName(names[i])
			verifv.Assert(err == nil && id == ids[i] && verifv.EqS(bl.Name(), names[i]), "an entry is not found by its name")
			if i%5 == 4 && i != at {
				id, _, err = b.FindUser(names[i][5:])
				verifv.Assert(err == nil && id == ids[i], "a user is not found")
			}
		}
		id, _, err := b.FindByName("x/")
		verifv.Assert(err == nil && (id == "" || id == ids[at]), "an entry is found by a name it has not")
		verifv.Reach("by name")
		return
	}
	verifv.Assert(err == nil, "searching failed")
	resultsAre(res, ids, names, in)
	verifv.Reach("searched")
}
