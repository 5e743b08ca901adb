// package-dir: .
package main

import (
	"io"
	"strconv"

	"github.com/aarondl/bpass/txlogs"
	"github.com/aarondl/bpass/verifv"
)

var mIDs = []string{"u-zero", "u-one"}

// m04Pool is a history of adds of both entries and n further records one
// second apart, deletions included, with what each side holds of it.
func m04Pool(n int) (all, a, b []txlogs.Tx) {
	at := int64(0)
	put := func(tx txlogs.Tx, who int) {
		at += 1e9
		tx.Time = at
		all = append(all, tx)
		if who&1 != 0 {
			a = append(a, tx)
		}
		if who&2 != 0 {
			b = append(b, tx)
		}
	}
	for _, id := range mIDs {
		put(txlogs.Tx{Kind: txlogs.TxAdd, UUID: id}, 3)
	}
	for i := 0; i < n; i++ {
		tx := txlogs.Tx{UUID: mIDs[verifv.Choose("entry", 2)]}
		switch verifv.Choose("kind", verifv.Pick(2, 3)) {
		case 0:
			tx.Kind = txlogs.TxDelete
		case 1:
			tx.Kind, tx.Key, tx.Value = txlogs.TxSetKey, verifv.String("key", 1), verifv.String("val", 1)
		case 2:
			tx.Kind, tx.Key = txlogs.TxDeleteKey, verifv.String("key", 1)
		}
		put(tx, 1+verifv.Choose("who", 3))
	}
	return all, a, b
}

// resolve gives the merged history the answers ask for; asked counts the
// answers used of each entry. True restores.
func resolve(all []txlogs.Tx, answers map[string][]bool) (out []txlogs.Tx, asked map[string]int) {
	asked = map[string]int{}
	later := func(i int) bool {
		for _, tx := range all[i+1:] {
			if tx.UUID == all[i].UUID {
				return true
			}
		}
		return false
	}
	dead := map[string]bool{}
	for i, tx := range all {
		if dead[tx.UUID] {
			continue
		}
		if tx.Kind == txlogs.TxDelete {
			if later(i) {
				k := asked[tx.UUID]
				asked[tx.UUID]++
				if k >= len(answers[tx.UUID]) || answers[tx.UUID][k] {
					continue
				}
			}
			dead[tx.UUID] = true
		}
		out = append(out, tx)
	}
	return out, asked
}

func Harness_M04_resolve() {
	n := verifv.Pick(4, 5)
	verifv.Bound("every pair of valid histories holding any parts of up to 4 (thorough 5) records (sets and deletions, thorough: key deletions too) on two entries after their creation; every sequence of answers, up to two of them unusable; or the input ending at any prompt")
	all, a, b := m04Pool(verifv.Choose("len", n+1))
	if _, ok := refState(a); !ok {
		return
	}
	if _, ok := refState(b); !ok {
		return
	}
	u := newUI()
	answers := map[string][]bool{}
	junk, ended := 0, false
	last := ""
	ask(40, func(n int, prompt, said string) (string, error) {
		for _, id := range mIDs {
			if has(said, id) {
				last = id
			}
		}
		verifv.Assert(last != "", "the prompt does not say which entry it is about")
		c := verifv.Choose("answer", 4)
		if c == 2 {
			if junk >= 1 {
				c = 0
			} else {
				junk++
				return []string{"", "x", "restore"}[verifv.Choose("junk", 3)], nil
			}
		}
		if c == 3 {
			ended = true
			return "", io.EOF
		}
		answers[last] = append(answers[last], c == 0)
		return []string{"r", "D"}[c], nil
	})
	ac, bc := cpTxs(a), cpTxs(b)
	var c []txlogs.Tx
	var err error
	end := verifv.Catch(func() { c, err = mergeLogs(u, a, b) })
	verifv.Assert(end == "", "merging crashed")
	verifv.Assert(vSameLog(a, ac) && vSameLog(b, bc), "merging altered an input")
	if ended {
		verifv.Assert(err != nil && c == nil, "a merge the user broke off succeeded")
		verifv.Reach("broken off")
		return
	}
	verifv.Assert(err == nil, "merging failed")
	want, asked := resolve(all, answers)
	for _, id := range mIDs {
		verifv.Assert(asked[id] == len(answers[id]), "a conflict was asked about too often or not at all")
	}
	verifv.Assert(vSameLog(c, want), "the merged history is not what the answers ask for")
	st, ok := refState(c)
	verifv.Assert(ok, "the merged history does not apply")
	for _, id := range mIDs {
		for _, r := range answers[id] {
			if r {
				verifv.Reach("restored")
			} else {
				verifv.Assert(st[id] == nil, "an entry that was to be deleted is there")
				verifv.Reach("deleted")
			}
		}
		if len(answers[id]) > 1 {
			verifv.Reach("two deletions of an entry")
		}
	}
	if len(answers[mIDs[0]]) > 0 && len(answers[mIDs[1]]) > 0 {
		verifv.Reach("conflicts of both entries")
	}
	if len(answers) == 0 {
		verifv.Reach("no conflict")
	}
}

// Histories of different files, merged only on request.
func Harness_M04_root() {
	verifv.Bound("two histories without a common root, one of them deleting an entry and the other not knowing it; every answer to both kinds of prompt, up to two unusable ones; or the input ending")
	a := []txlogs.Tx{{Kind: txlogs.TxAdd, UUID: mIDs[0], Time: 1e9}, {Kind: txlogs.TxSetKey, UUID: mIDs[0], Time: 3e9, Key: "k", Value: verifv.String("val", 1)}}
	b := []txlogs.Tx{{Kind: txlogs.TxAdd, UUID: mIDs[1], Time: 2e9}}
	if verifv.Choose("deleted", 2) == 1 {
		b = append(b, txlogs.Tx{Kind: txlogs.TxDelete, UUID: mIDs[1], Time: 4e9})
	}
	if verifv.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	u := newUI()
	yes, ended, junk := false, false, 0
	ask(20, func(n int, prompt, said string) (string, error) {
		switch verifv.Choose("answer", 4) {
		case 0:
			yes = true
			return []string{"y", "yes", "YES", "Y"}[verifv.Choose("word", 4)], nil
		case 1:
			return []string{"n", "no", "NO", "N"}[verifv.Choose("word", 4)], nil
		case 2:
			if junk < 2 {
				junk++
				return []string{"", "x", "r"}[verifv.Choose("junk", 3)], nil
			}
		}
		ended = true
		return "", ErrInterrupt
	})
	var c []txlogs.Tx
	var err error
	end := verifv.Catch(func() { c, err = mergeLogs(u, a, b) })
	verifv.Assert(end == "", "merging crashed")
	if ended || !yes {
		verifv.Assert(err != nil && len(c) == 0, "different files were merged without consent")
		verifv.Reach("declined")
		return
	}
	verifv.Assert(err == nil && len(c) == len(a)+len(b), "a forced merge does not hold every record of both")
	for i := range c {
		verifv.Assert(i == 0 || c[i-1].Time < c[i].Time, "a forced merge is not in time order")
	}
	_, ok := refState(c)
	verifv.Assert(ok, "a forced merge does not apply")
	verifv.Reach("forced")
}

// Many conflicts.
func Harness_M04_many() {
	verifv.Bound("12 (thorough 40) entries deleted on one side and changed on the other, later or earlier, and a long history before; any three of the answers (others fixed), or the input ending at any prompt")
	n := verifv.Pick(12, 40)
	var base, a, b []txlogs.Tx
	at := int64(0)
	tx := func(kind txlogs.TxKind, i int, v string) txlogs.Tx {
		at += 1e9
		t := txlogs.Tx{Time: at, Kind: kind, UUID: "u-" + strconv.Itoa(i) + "."}
		if kind == txlogs.TxSetKey {
			t.Key, t.Value = "k", v
		}
		return t
	}
	for i := 0; i < n; i++ {
		base = append(base, tx(txlogs.TxAdd, i, ""))
		for k := 0; k < 3; k++ {
			base = append(base, tx(txlogs.TxSetKey, i, strconv.Itoa(k)))
		}
	}
	a, b = cpTxs(base), cpTxs(base)
	v := verifv.String("value", 1)
	all := cpTxs(base)
	for i := 0; i < n; i++ {
		d, s := tx(txlogs.TxDelete, i, ""), tx(txlogs.TxSetKey, i, "new")
		s.Time, d.Time = d.Time, s.Time
		if i%3 != 0 { // the deletion is earlier: a conflict
			s.Time, d.Time = d.Time, s.Time
			all = append(all, d, s)
		} else {
			all = append(all, s, d)
		}
		if i == n/2 {
			s.Value = v
			for k := range all {
				if all[k].UUID == s.UUID && all[k].Time == s.Time {
					all[k].Value = v
				}
			}
		}
		if i%2 == 0 {
			a, b = append(a, d), append(b, s)
		} else {
			a, b = append(a, s), append(b, d)
		}
	}
	u := newUI()
	answers := map[string][]bool{}
	count, free, ended := 0, 0, false
	first := verifv.Choose("from", n)
	stop := -1
	if verifv.Choose("ends", 2) == 1 {
		stop = verifv.Choose("end", n)
	}
	ask(4*n, func(k int, prompt, said string) (string, error) {
		last := ""
		for i := 0; i < n; i++ {
			if id := "u-" + strconv.Itoa(i) + "."; has(said, id) {
				last = id
			}
		}
		verifv.Assert(last != "", "the prompt does not say which entry it is about")
		if count == stop {
			ended = true
			return "", io.EOF
		}
		keep := count%3 == 0
		if count >= first && free < 3 {
			keep = verifv.Choose("answer", 2) == 0
			free++
		}
		count++
		answers[last] = append(answers[last], keep)
		if keep {
			return "r", nil
		}
		return "D", nil
	})
	var c []txlogs.Tx
	var err error
	end := verifv.Catch(func() { c, err = mergeLogs(u, a, b) })
	verifv.Assert(end == "", "merging crashed")
	if ended {
		verifv.Assert(err != nil && c == nil, "a merge the user broke off succeeded")
		verifv.Reach("broken off")
		return
	}
	verifv.Assert(err == nil, "merging failed")
	want, asked := resolve(all, answers)
	for i := 0; i < n; i++ {
		id := "u-" + strconv.Itoa(i) + "."
		verifv.Assert(asked[id] == len(answers[id]), "a conflict was asked about too often or not at all")
	}
	verifv.Assert(vSameLog(c, want), "the merged history is not what the answers ask for")
	verifv.Reach("resolved")
}
