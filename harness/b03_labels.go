// package-dir: blobformat
package blobformat

import (
	"strings"

	"github.com/aarondl/bpass/verifv"
)

// label is a symbolic text without commas.
func symLabel(n int) string {
	l := verifv.String("label", n)
	for i := 0; i < len(l); i++ {
		verifv.Assume(l[i] != ',')
	}
	return l
}

// b03Store has an entry with the given labels (nil: none) and another labelled one.
func b03Store(labels []string) (b Blobs, id string) {
	b = newBlobs()
	id = mustNew(b, "e")
	other := mustNew(b, "o")
	b.DB.Set(other, KeyLabels, "x,y")
	b.DB.Set(id, KeyPass, "p")
	if len(labels) != 0 {
		b.DB.Set(id, KeyLabels, strings.Join(labels, ","))
	}
	return b, id
}

func b03Labels(max int) []string {
	var ls []string
	for i := verifv.Choose("labels", max+1); i > 0; i-- {
		ls = append(ls, symLabel(1+verifv.Choose("long", 2)))
	}
	if len(ls) >= 3 && verifv.Choose("empty", 2) == 1 {
		ls[0] = "" // a file from elsewhere may have that
	}
	return ls
}

func sameLabels(got []string, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	same := true
	for i := range got {
		same = verifv.And(same, verifv.EqS(got[i], want[i]))
	}
	return same
}

func checkLabels(b Blobs, id string, before model, want []string, t0 int64) {
	e := before.at(id)
	e.del(KeyLabels)
	if len(want) != 0 {
		e.set(KeyLabels, strings.Join(want, ","))
	}
	after := state(b)
	verifv.Assert(sameState(after, before, id), "other fields or entries changed, or not exactly that label")
	verifv.Assert(freshly(after, id, t0), "the update time was not refreshed")
	bl, err := b.Find(id)
	verifv.Assert(err == nil && sameLabels(bl.Labels(), want), "the entry does not have exactly the expected labels")
}

func Harness_B03_add() {
	verifv.Bound("0..3 labels of 1..2 any bytes but commas (the first of three or more possibly empty), plus any such label (quick; thorough 0..4), the view refreshed before or not")
	labels := b03Labels(verifv.Pick(3, 4))
	b, id := b03Store(labels)
	if verifv.Choose("refreshed", 2) == 1 {
		b.UpdateSnapshot()
	}
	before := state(b)
	t0 := verifv.Clock()
	l := symLabel(1 + verifv.Choose("long", 2))
	verifv.Assert(b.AddLabel(id, l) == nil, "adding a label failed")
	checkLabels(b, id, before, append(append([]string(nil), labels...), l), t0)
	verifv.Reach("added")
}

func Harness_B03_remove() {
	verifv.Bound("0..3 labels of 1..2 any bytes but commas, the first of three or more possibly empty (quick; thorough 0..5), every 64-bit index")
	labels := b03Labels(verifv.Pick(3, 5))
	b, id := b03Store(labels)
	if verifv.Choose("refreshed", 2) == 1 {
		b.UpdateSnapshot()
	}
	before := state(b)
	log := len(b.Log)
	t0 := verifv.Clock()
	index := int(verifv.Int64("index"))
	var err error
	end := verifv.Catch(func() { err = b.RemoveLabel(id, index) })
	verifv.Assert(end == "", "removing a label crashed")
	for i := range labels {
		if index == i {
			verifv.Assert(err == nil, "a label that is there could not be removed")
			want := append(append([]string(nil), labels[:i]...), labels[i+1:]...)
			checkLabels(b, id, before, want, t0)
			verifv.Reach("removed")
			return
		}
	}
	verifv.Assert(err != nil, "removing a label that is not there succeeded")
	verifv.Assert(len(b.Log) == log && viewIs(b, before), "a refused change changed something")
	verifv.Reach("refused")
}
