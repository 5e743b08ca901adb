// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// wantConflicts lists, for a merged order, each deletion of an entry that a
// later record still touches, with the first such record.
func wantConflicts(c []Tx) (out [][2]Tx) {
	done := map[string]bool{}
	del := map[string]Tx{}
	for _, tx := range c {
		d, gone := del[tx.UUID]
		switch {
		case gone && !done[tx.UUID]:
			done[tx.UUID] = true
			out = append(out, [2]Tx{d, tx})
		case !gone && tx.Kind == TxDelete:
			del[tx.UUID] = tx
		}
	}
	return out
}

func m03Check(a, b, merged []Tx) {
	ac, bc := cpLog(a), cpLog(b)
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(eqLog(a, ac) && eqLog(b, bc), "merging altered an input")
	want := wantConflicts(merged)
	verifv.Assert(len(conflicts) == len(want), "the conflicts are not exactly the deletions whose entry was touched later")
	for i := range want {
		if i < len(conflicts) {
			verifv.Assert(conflicts[i].Kind == ConflictKindDeleteSet, "the conflict is of the wrong kind")
			verifv.Assert(eqTx(conflicts[i].Initial, want[i][0]), "a conflict names another deletion")
			verifv.Assert(eqTx(conflicts[i].Conflict, want[i][1]), "a conflict names another edit")
		}
	}
	if len(want) > 0 {
		verifv.Assert(len(c) == 0, "a merge with open conflicts returned a history")
		again, same := Merge(a, b, conflicts)
		verifv.Assert(len(again) == 0 && len(same) == len(conflicts), "unresolved conflicts were not reported again")
		verifv.Reach("conflict")
		return
	}
	verifv.Assert(eqLog(c, merged), "the merged history is not every record of both, once, in time order")
	s := &DB{Log: c}
	verifv.Assert(s.UpdateSnapshot() == nil, "a merge without conflict does not apply")
	st, _ := refReplay(merged)
	verifv.Assert(refSame(s.Snapshot, st), "the merged state is not what the merged history gives")
	verifv.Reach("applies")
}

// Two replicas holding any parts of one pool, deletions included.
func Harness_M03_pool() {
	n := verifv.Pick(4, 5)
	verifv.Bound("every pair of valid histories drawn from a first record and up to 4 (quick) or 5 (thorough) further ones of any kind on two entries (any one-byte keys and values, any strictly increasing times), each held by one side or both")
	p := pool(verifv.Choose("len", n+1), txKinds)
	l := split(p, 2)
	if !valid(l[0]) || !valid(l[1]) {
		return
	}
	m03Check(l[0], l[1], p)
}

// Forks that delete and edit two entries at any times, ties included.
func Harness_M03_fork() {
	verifv.Bound("a common history adding two entries and two forks of 0..2 records (deletions and sets of either entry), at any times in order with ties")
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: 1}, {Kind: TxAdd, UUID: "u1", Time: 2}}
	var l [2][]Tx
	for r := range l {
		l[r] = cpLog(base)
		for i := verifv.Choose("len", 3); i > 0; i-- {
			tx := Tx{Kind: []TxKind{TxDelete, TxSetKey}[verifv.Choose("kind", 2)], UUID: txIDs[verifv.Choose("uuid", 2)], Time: verifv.Int64("t")}
			if tx.Kind == TxSetKey {
				tx.Key, tx.Value = "k", verifv.String("val", 1)
			}
			verifv.Assume(tx.Time >= l[r][len(l[r])-1].Time)
			l[r] = append(l[r], tx)
		}
	}
	if !valid(l[0]) || !valid(l[1]) {
		return
	}
	for _, x := range l[0][2:] {
		for _, y := range l[1][2:] {
			verifv.Assume(verifv.Not(eqTx(x, y)))
		}
	}
	c, conflicts := Merge(l[0], l[1], nil)
	if len(conflicts) == 0 {
		verifv.Assert(len(c) == len(l[0])+len(l[1])-2, "an edit was lost or doubled")
		s := &DB{Log: c}
		verifv.Assert(s.UpdateSnapshot() == nil, "a merge without conflict does not apply")
		verifv.Reach("applies")
	}
	// An entry that one side deleted and the other touched strictly later.
	want := 0
	for u := 0; u < 2; u++ {
		must, may := false, false
		for r := range l {
			for _, d := range l[r][2:] {
				for _, e := range l[1-r][2:] {
					if d.Kind == TxDelete && d.UUID == txIDs[u] && e.UUID == txIDs[u] {
						must = verifv.Or(must, e.Time > d.Time)
						may = verifv.Or(may, e.Time >= d.Time)
					}
				}
			}
		}
		got := false
		for _, x := range conflicts {
			if x.Initial.UUID == txIDs[u] {
				got = true
				want++
				verifv.Assert(x.Conflict.UUID == txIDs[u] && x.Initial.Kind == TxDelete, "a conflict does not name a deletion and an edit of one entry")
				verifv.Assert(x.Conflict.Time >= x.Initial.Time, "a conflict names an edit made before the deletion")
			}
		}
		verifv.Assert(verifv.Implies(must, got), "a deleted entry was touched later and no conflict was reported")
		verifv.Assert(verifv.Implies(got, may), "a conflict was reported for an entry that was not touched after its deletion")
	}
	verifv.Assert(want == len(conflicts), "a conflict was reported twice or for another entry")
	if want > 0 {
		verifv.Reach("conflict")
	}
}

// Histories that do not share a root.
func Harness_M03_root() {
	verifv.Bound("two histories of 1..3 records; their first records alike, or different in time, entry or both")
	mk := func(id string) []Tx {
		l := []Tx{{Kind: TxAdd, UUID: id, Time: verifv.Int64("t")}}
		for i := verifv.Choose("len", 3); i > 0; i-- {
			tx := Tx{Kind: TxSetKey, UUID: id, Time: verifv.Int64("t"), Key: "k", Value: verifv.String("val", 1)}
			verifv.Assume(tx.Time > l[len(l)-1].Time)
			l = append(l, tx)
		}
		return l
	}
	a, b := mk("u0"), mk(txIDs[verifv.Choose("other", 2)])
	same := eqTx(a[0], b[0])
	sameRec := a[0].UUID == b[0].UUID
	if sameRec {
		// Two different creations of one entry do not happen.
		verifv.Assume(same)
	}
	c, conflicts := Merge(a, b, nil)
	if sameRec {
		verifv.Assert(len(conflicts) == 0, "histories that share a root were refused")
		verifv.Reach("shared")
		return
	}
	verifv.Assert(len(conflicts) == 1 && len(c) == 0, "histories that do not share a root were merged silently")
	verifv.Assert(conflicts[0].Kind == ConflictKindRoot, "the conflict is of the wrong kind")
	verifv.Assert(eqTx(conflicts[0].Initial, a[0]) && eqTx(conflicts[0].Conflict, b[0]), "the conflict does not name the two roots")
	conflicts[0].Force()
	c, conflicts = Merge(a, b, conflicts)
	verifv.Assert(len(conflicts) == 0 && len(c) == len(a)+len(b), "a forced merge does not hold every record of both")
	verifv.Assert(interleavesRec(c, a, b), "a forced merge is not an interleaving of both")
	s := &DB{Log: c}
	verifv.Assert(s.UpdateSnapshot() == nil, "a forced merge does not apply")
	verifv.Reach("forced")
}

func interleavesRec(c, a, b []Tx) bool {
	if len(c) == 0 {
		return true
	}
	res := false
	if len(a) > 0 {
		res = verifv.Or(res, verifv.And(eqTx(c[0], a[0]), interleavesRec(c[1:], a[1:], b)))
	}
	if len(b) > 0 {
		res = verifv.Or(res, verifv.And(eqTx(c[0], b[0]), interleavesRec(c[1:], a, b[1:])))
	}
	return res
}

// Many entries, some with conflicts, each deletion in any place of the time order.
func Harness_M03_many() {
	n := verifv.Pick(6, 20)
	verifv.Bound("7 (thorough 21) entries; each is left alone, deleted before or deleted after the other side's two edits in a fixed pattern of four, one chosen entry having any time for its deletion and any text in its edit; several deletions of one entry on both sides for one of them; either side first; each conflict is reported once, all of them at once, and again as long as one of them has no answer")
	verifv.StepLimit(20000000)
	var base, a, b []Tx
	id := func(i int) string { return "u" + string(rune('a'+i)) }
	for i := 0; i <= n; i++ {
		base = append(base, Tx{Kind: TxAdd, UUID: id(i), Time: int64(i + 1)})
	}
	a, b = cpLog(base), cpLog(base)
	x := verifv.Choose("entry", n)
	shift := verifv.Choose("pattern", 4)
	type want struct{ del, first Tx }
	wants := map[string]want{}
	at := int64(1000)
	for i := 0; i <= n; i++ {
		at += 100
		set := Tx{Kind: TxSetKey, UUID: id(i), Time: at, Key: "k", Value: "v"}
		set2 := set
		set2.Time, set2.Value = at+20, "w"
		del := Tx{Kind: TxDelete, UUID: id(i), Time: at - 10}
		switch (i + shift) % 4 {
		case 0:
			continue
		case 1:
			del.Time = at + 30
		case 2:
			del.Time = at + 10
		}
		if i == x {
			del.Time = at - 10 + int64(verifv.Byte("t"))%50
			verifv.Assume(verifv.And(del.Time != set.Time, del.Time != set2.Time))
			set.Value = verifv.String("value", 1)
		}
		a = append(a, del)
		b = append(b, set, set2)
		if del.Time < set.Time {
			wants[id(i)] = want{del, set}
		} else if del.Time < set2.Time {
			wants[id(i)] = want{del, set2}
		} else if i == n-1 { // deleted on the other side as well
			d2 := del
			d2.Time = del.Time + 5
			b = append(b, d2)
			wants[id(i)] = want{del, d2}
		}
	}
	if verifv.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	ac, bc := cpLog(a), cpLog(b)
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(eqLog(a, ac) && eqLog(b, bc), "merging altered an input")
	verifv.Assert(len(conflicts) == len(wants), "the conflicts are not exactly the deletions whose entry was touched later")
	for _, k := range conflicts {
		w, ok := wants[k.Initial.UUID]
		verifv.Assert(ok && eqTx(k.Initial, w.del) && eqTx(k.Conflict, w.first) && k.Kind == ConflictKindDeleteSet, "a conflict names another deletion or another edit")
		delete(wants, k.Initial.UUID)
	}
	verifv.Assert(len(wants) == 0, "a conflict is missing")
	if len(conflicts) == 0 {
		verifv.Assert(len(c) == len(a)+len(b)-len(base), "an edit was lost or doubled")
		return
	}
	verifv.Assert(len(c) == 0, "a merge with open conflicts returned a history")
	// All but one answered: nothing happens yet.
	open := verifv.Choose("open", len(conflicts))
	for i := range conflicts {
		if i != open {
			if i%2 == 0 {
				conflicts[i].DiscardConflict()
			} else {
				conflicts[i].DiscardInitial()
			}
		}
	}
	c, again := Merge(a, b, conflicts)
	verifv.Assert(len(c) == 0 && len(again) == len(conflicts), "a merge with an open conflict went ahead")
	verifv.Reach("many conflicts")
}

// Deletions whose later edits come in turns.
func Harness_M03_turns() {
	verifv.Bound("two or three entries deleted on one side and each edited once or twice (thorough up to three times) on the other, the edits taking turns in any rotation; any times of the deletions before, between or after the edits; either side first")
	verifv.StepLimit(20000000)
	n := 2 + verifv.Choose("entries", 2)
	rounds := 1 + verifv.Choose("rounds", verifv.Pick(2, 3))
	var base, a, b []Tx
	id := func(i int) string { return "u" + string(rune('a'+i)) }
	for i := 0; i < n; i++ {
		base = append(base, Tx{Kind: TxAdd, UUID: id(i), Time: int64(i + 1)})
	}
	a, b = cpLog(base), cpLog(base)
	at := int64(1000)
	for r := 0; r < rounds; r++ {
		turn := verifv.Choose("turn", n)
		for i := 0; i < n; i++ {
			at += 10
			b = append(b, Tx{Kind: TxSetKey, UUID: id((i + turn) % n), Time: at, Key: "k", Value: "v" + string(rune('0'+r))})
		}
	}
	// Odd, so that no edit has the same time.
	last := int64(900)
	for i := 0; i < n; i++ {
		t := verifv.Int64("deleted")
		verifv.Assume(verifv.And(t > last, t < 1200, t&1 == 1))
		last = t
		a = append(a, Tx{Kind: TxDelete, UUID: id(i), Time: t})
	}
	want := 0
	wants := make([]Tx, n)
	for i, d := range a[len(base):] {
		for _, e := range b[len(base):] {
			if e.UUID == d.UUID && e.Time > d.Time {
				wants[i] = e
				want++
				break
			}
		}
	}
	first, second := a, b
	if verifv.Choose("swap", 2) == 1 {
		first, second = b, a
	}
	c, conflicts := Merge(first, second, nil)
	verifv.Assert(len(conflicts) == want, "the conflicts are not exactly the deletions whose entry was touched later")
	seen := map[string]bool{}
	for _, k := range conflicts {
		for i := 0; i < n; i++ {
			if id(i) == k.Initial.UUID {
				verifv.Assert(!seen[id(i)] && wants[i].UUID != "", "a deletion is reported that nobody contradicted, or twice")
				verifv.Assert(eqTx(k.Initial, a[len(base)+i]) && eqTx(k.Conflict, wants[i]), "a conflict names another deletion or another edit")
				seen[id(i)] = true
			}
		}
	}
	if want > 0 {
		verifv.Assert(len(c) == 0, "a merge with open conflicts returned a history")
		verifv.Reach("conflicts")
	} else {
		verifv.Assert(len(c) == len(a)+len(b)-len(base), "an edit was lost or doubled")
		verifv.Reach("none")
	}
}
