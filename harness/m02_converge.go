// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// merge2 merges and fails the path's expectation when a conflict is reported.
func merge2(a, b []Tx) []Tx {
	ac, bc := cpLog(a), cpLog(b)
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(len(conflicts) == 0, "a conflict was reported although no deleted entry was edited")
	verifv.Assert(eqLog(a, ac) && eqLog(b, bc), "merging altered an input")
	return c
}

// Three replicas that exchanged edits in any pattern before.
func Harness_M02_three() {
	n := verifv.Pick(3, 4)
	verifv.Bound("three replicas holding any parts of a pool of a first record and up to 3 (quick) or 4 (thorough) further ones of any kind on two entries (no entry edited after its deletion), any one-byte keys and values, any strictly increasing times; every merge order and grouping")
	p := pool(verifv.Choose("len", n+1), txKinds)
	if !valid(p) {
		return
	}
	l := split(p, 3)
	for _, r := range l {
		if !valid(r) {
			return
		}
	}
	// Every assignment of records to replicas is tried, so the order a, b, c is general.
	a, b, c := l[0], l[1], l[2]
	var got []Tx
	switch verifv.Choose("grouping", 5) {
	case 0:
		got = merge2(merge2(a, b), c)
	case 1:
		got = merge2(a, merge2(b, c))
	case 2: // a exchanged with both before c saw b
		got = merge2(merge2(c, merge2(a, b)), merge2(b, a))
	case 3: // everyone merged with a, then with each other
		got = merge2(merge2(a, b), merge2(a, c))
	case 4: // merging again changes nothing
		m := merge2(merge2(a, b), c)
		got = merge2(m, m)
		verifv.Assert(eqLog(merge2(got, a), got) && eqLog(merge2(b, got), got), "merging what was already merged changes the history")
	}
	verifv.Assert(eqLog(got, p), "replicas that saw all edits hold different histories")
	want, ok := refReplay(p)
	s := &DB{Log: got}
	verifv.Assert((s.UpdateSnapshot() == nil) == ok, "the merged history does not apply")
	if ok {
		verifv.Assert(refSame(s.Snapshot, want), "replicas that saw all edits hold different states")
	}
	verifv.Reach("converged")
}

// Three forks of one history at any times, ties and clocks going back included.
func Harness_M02_ties() {
	n := verifv.Pick(1, 2)
	verifv.Bound("a common history of 1..2 records and three forks of 0..2, 0..1 and 0..1 (quick) or three of 0..2 (thorough) different sets of one field each, any one-byte values, any times with ties in any order; merged in two symbolically chosen orders and groupings")
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: verifv.Int64("t")}}
	if verifv.Choose("two", 2) == 1 {
		base = append(base, Tx{Kind: TxAdd, UUID: "u1", Time: verifv.Int64("t")})
	}
	var l [3][]Tx
	var all []Tx
	for r := range l {
		l[r] = cpLog(base)
		max := n
		if r == 0 {
			max = 2
		}
		for i := verifv.Choose("len", max+1); i > 0; i-- {
			tx := Tx{Kind: TxSetKey, UUID: txIDs[(r+i)%len(base)], Time: verifv.Int64("t"), Key: "k", Value: verifv.String("val", 1)}
			for _, o := range all {
				verifv.Assume(verifv.Not(eqTx(o, tx)))
			}
			all = append(all, tx)
			l[r] = append(l[r], tx)
		}
	}
	one := merge2(merge2(l[0], l[1]), l[2])
	var two []Tx
	switch verifv.Choose("order", 5) {
	case 0:
		two = merge2(l[0], merge2(l[1], l[2]))
	case 1:
		two = merge2(l[1], merge2(l[2], l[0]))
	case 2:
		two = merge2(merge2(l[2], l[1]), l[0])
	case 3:
		two = merge2(merge2(l[0], l[2]), merge2(l[1], l[2]))
	case 4:
		two = merge2(one, merge2(l[2], l[0]))
	}
	verifv.Assert(len(one) == len(base)+len(all), "an edit was lost or doubled")
	verifv.Assert(eqLog(one, two), "replicas that merged in different orders hold different histories")
	verifv.Reach("converged")
}

// Two or three forks with records of every kind that cannot conflict.
func Harness_M02_kinds() {
	verifv.Bound("a common history of two records and forks of 1..2, 1 and (thorough) 0..1 different records each: sets and key deletions of either entry, or a new entry; any one-byte keys and values, any times with ties in any order; merged in both orders and another grouping")
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: verifv.Int64("t")}, {Kind: TxAdd, UUID: "u1", Time: verifv.Int64("t")}}
	var l [3][]Tx
	var all []Tx
	for r := range l {
		l[r] = cpLog(base)
		n := 1
		if r == 0 {
			n += verifv.Choose("more", 2)
		} else if r == 2 {
			n = verifv.Choose("third", verifv.Pick(1, 2))
		}
		for i := 0; i < n; i++ {
			tx := Tx{Time: verifv.Int64("t"), UUID: txIDs[verifv.Choose("entry", 2)]}
			switch verifv.Choose("kind", 3) {
			case 0:
				tx.Kind, tx.Key, tx.Value = TxSetKey, verifv.String("key", 1), verifv.String("val", 1)
			case 1:
				tx.Kind, tx.Key = TxDeleteKey, verifv.String("key", 1)
			default:
				tx.Kind, tx.UUID = TxAdd, "new"+string(rune('0'+r))+string(rune('0'+i))
			}
			for _, o := range all {
				verifv.Assume(verifv.Not(eqTx(o, tx)))
			}
			all = append(all, tx)
			l[r] = append(l[r], tx)
		}
	}
	one := merge2(merge2(l[0], l[1]), l[2])
	var two []Tx
	switch verifv.Choose("order", verifv.Pick(1, 2)) {
	case 0:
		two = merge2(l[1], merge2(l[2], l[0]))
	default:
		two = merge2(l[1], merge2(l[0], l[2]))
	}
	verifv.Assert(len(one) == len(base)+len(all), "an edit was lost or doubled")
	verifv.Assert(eqLog(one, two), "replicas that merged in different orders hold different histories")
	verifv.Reach("converged")
}

// Several replicas with long histories, merged in different orders.
func Harness_M02_many() {
	r := verifv.Pick(4, 6)
	verifv.Bound("4 (thorough 6) replicas that each made 20 (thorough 60) records after a common history of 1 or 40, one to one in time or with all of them at the same times, any text in a record of two of them and any time for the last of one; merged in a row forwards, in a row backwards, in pairs, or everyone with the first")
	verifv.StepLimit(60000000)
	n := verifv.Pick(20, 60)
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: 1}}
	if verifv.Choose("common", 2) == 1 {
		for i := 0; i < 40; i++ {
			base = append(base, Tx{Kind: TxSetKey, UUID: "u0", Time: int64(i + 2), Key: "k", Value: "v"})
		}
	}
	same := verifv.Choose("ties", 2) == 1
	l := make([][]Tx, r)
	total := len(base)
	for i := range l {
		l[i] = cpLog(base)
		for k := 0; k < n; k++ {
			t := int64(1000 + k*r + i)
			if same {
				t = int64(1000 + k*3)
			}
			tx := Tx{Kind: TxSetKey, UUID: "u0", Time: t, Key: "k" + string(rune('a'+i)), Value: "v"}
			if k%7 == 3 {
				tx.Kind, tx.Value = TxDeleteKey, ""
			}
			if i < 2 && k == n/2 {
				tx.Key = verifv.String("key", 1)
			}
			if i == 1 && k == n-1 {
				tx.Time = verifv.Int64("t")
				verifv.Assume(tx.Time >= l[i][len(l[i])-1].Time)
			}
			l[i] = append(l[i], tx)
			total++
		}
	}
	verifv.Assume(l[0][len(base)+n/2].Key != l[1][len(base)+n/2].Key)
	one := l[0]
	for _, x := range l[1:] {
		one = merge2(one, x)
	}
	two := l[r-1]
	switch verifv.Choose("order", 3) {
	case 0:
		for i := r - 2; i >= 0; i-- {
			two = merge2(l[i], two)
		}
	case 1:
		two = nil
		for i := 0; i < r; i += 2 {
			two = merge2(merge2(l[i+1], l[i]), two)
		}
	case 2:
		two = l[0]
		for i := 1; i < r; i++ {
			two = merge2(merge2(l[i], l[0]), two)
		}
	}
	verifv.Assert(len(one) == total, "an edit was lost or doubled")
	verifv.Assert(eqLog(one, two), "replicas that merged in different orders hold different histories")
	verifv.Reach("many replicas converged")
}
