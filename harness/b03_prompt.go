// package-dir: .
package main

import (
	"io"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/verifv"
)

func anyOf(b byte, set string) bool { return verifv.InSet(b, set) }

// The label prompt, with what the user may type.
func Harness_B03_prompt() {
	verifv.Bound("an entry with labels a and b-c, or none, beside another; up to 2 (thorough 3) lines of 1..2 (thorough 1..3) ASCII characters or one of six with letters or spaces outside ASCII, then the end in any of its four forms")
	u := newUI()
	id, _ := u.store.New("e")
	other, _ := u.store.New("o")
	u.store.DB.Set(other, blobformat.KeyLabels, "x")
	var have []string
	if verifv.Choose("has", 2) == 1 {
		have = []string{"a", "b-c"}
		u.store.DB.Set(id, blobformat.KeyLabels, "a,b-c")
	}
	log := cpTxs(u.store.Log)
	want := append([]string(nil), have...)
	lines := verifv.Choose("lines", verifv.Pick(2, 3)+1)
	interrupted := false
	ask(lines+1, func(n int, prompt, said string) (string, error) {
		if n == lines {
			switch verifv.Choose("end", 4) {
			case 0:
				return "", nil
			case 1:
				return ".", nil
			case 2:
				return "", io.EOF
			}
			interrupted = true
			return "", ErrInterrupt
		}
		if k := verifv.Choose("kind", 7); k > 0 {
			l := []string{"é", "É", "a\u00a0b", "世", "\u2003", "xÄ"}[k-1]
			ok := []bool{true, false, false, true, false, false}[k-1]
			for _, w := range want {
				ok = verifv.And(ok, verifv.Not(verifv.EqS(w, l)))
			}
			if ok {
				want = append(want, l)
			}
			return l, nil
		}
		l := verifv.String("line", 1+verifv.Choose("len", verifv.Pick(2, 3)))
		ok := verifv.Not(verifv.EqS(l, "."))
		verifv.Assume(ok)
		for i := range l {
			verifv.Assume(l[i] < 128)
			ok = verifv.And(ok, verifv.Not(anyOf(l[i], " \t\n\v\f\r,")), verifv.Not(verifv.And(l[i] >= 'A', l[i] <= 'Z')))
		}
		for _, w := range want {
			ok = verifv.And(ok, verifv.Not(verifv.EqS(w, l)))
		}
		if ok {
			want = append(want, l)
		}
		return l, nil
	})
	err := u.addLabels("e")
	after := u.store.Log
	if interrupted {
		verifv.Assert(err == ErrInterrupt, "an interrupt was not passed on")
		verifv.Assert(vSameLog(after, log), "an interrupted prompt changed something")
		verifv.Reach("interrupted")
		return
	}
	verifv.Assert(err == nil, "adding labels failed")
	st, _ := refState(log)
	if len(want) == len(have) {
		verifv.Assert(storeIs(u.store, st), "refused labels changed something")
		verifv.Reach("nothing")
		return
	}
	u.store.UpdateSnapshot()
	st[id][blobformat.KeyLabels] = strings.Join(want, ",")
	st[id][blobformat.KeyUpdated] = u.store.Snapshot[id][blobformat.KeyUpdated]
	verifv.Assert(storeIs(u.store, st), "not exactly the accepted labels were added")
	verifv.Reach("added")
}

// Removing a label by its name.
func Harness_B03_byname() {
	verifv.Bound("an entry with 0..3 labels of 1..2 lowercase letters, any such label named")
	u := newUI()
	id, _ := u.store.New("e")
	other, _ := u.store.New("o")
	u.store.DB.Set(other, blobformat.KeyLabels, "x")
	letters := func(label string) string {
		s := verifv.String(label, 1+verifv.Choose("len", 2))
		for i := range s {
			verifv.Assume(s[i] >= 'a' && s[i] <= 'z')
		}
		return s
	}
	var have []string
	for i := verifv.Choose("labels", 4); i > 0; i-- {
		l := letters("label")
		for _, h := range have {
			verifv.Assume(verifv.Not(verifv.EqS(h, l)))
		}
		have = append(have, l)
	}
	if len(have) > 0 {
		u.store.DB.Set(id, blobformat.KeyLabels, strings.Join(have, ","))
	}
	log := cpTxs(u.store.Log)
	st, _ := refState(log)
	l := letters("named")
	var err error
	end := verifv.Catch(func() { err = u.deleteLabel("e", l) })
	verifv.Assert(end == "" && err == nil, "removing a label failed")
	for i, h := range have {
		if verifv.EqS(h, l) {
			rest := append(append([]string(nil), have[:i]...), have[i+1:]...)
			if len(rest) == 0 {
				delete(st[id], blobformat.KeyLabels)
			} else {
				st[id][blobformat.KeyLabels] = strings.Join(rest, ",")
			}
			u.store.UpdateSnapshot()
			st[id][blobformat.KeyUpdated] = u.store.Snapshot[id][blobformat.KeyUpdated]
			verifv.Assert(storeIs(u.store, st), "not exactly that label was removed")
			verifv.Reach("removed")
			return
		}
	}
	verifv.Assert(vSameLog(u.store.Log, log), "removing a label that is not there changed something")
	verifv.Reach("not there")
}
