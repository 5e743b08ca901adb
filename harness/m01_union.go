// package-dir: txlogs
package txlogs

import "github.com/aarondl/bpass/verifv"

// Two replicas holding any parts of one pool of edits.
func Harness_M01_union() {
	n := verifv.Pick(4, 5)
	verifv.Bound("every pair of histories drawn from a first record and up to 4 (quick) or 5 (thorough) further ones (adds, sets, key deletions on two entries; any one-byte keys and values, any strictly increasing times), each record held by one side or both")
	p := pool(verifv.Choose("len", n+1), []TxKind{TxSetKey, TxAdd, TxDeleteKey})
	l := split(p, 2)
	if !valid(l[0]) || !valid(l[1]) {
		return
	}
	a, b := cpLog(l[0]), cpLog(l[1])
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(len(conflicts) == 0, "a conflict was reported although nothing was deleted")
	verifv.Assert(eqLog(c, p), "the merged history is not every record of both, once, in time order")
	verifv.Assert(eqLog(a, l[0]) && eqLog(b, l[1]), "merging altered an input")
	// Writing to the result must not reach the inputs.
	for i := range c {
		c[i].Value += "!"
	}
	verifv.Assert(eqLog(a, l[0]) && eqLog(b, l[1]), "the merged history shares memory with an input")
	verifv.Reach("merged")
}

// Two replicas that fork once, at any times, ties included.
func Harness_M01_ties() {
	n := verifv.Pick(2, 3)
	verifv.Bound("a common history of 1..2 records and two forks of 0..2 (quick) or 0..3 (thorough) different records each on two entries, any one-byte keys and values, any times in any order with ties")
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: verifv.Int64("t")}}
	if verifv.Choose("two", 2) == 1 {
		base = append(base, Tx{Kind: TxAdd, UUID: "u1", Time: verifv.Int64("t")})
	}
	var fork [2][]Tx
	for r := range fork {
		for i := verifv.Choose("len", n+1); i > 0; i-- {
			fork[r] = append(fork[r], Tx{Kind: TxSetKey, UUID: txIDs[verifv.Choose("uuid", len(base))], Time: verifv.Int64("t"), Key: verifv.String("key", 1), Value: verifv.String("val", 1)})
		}
	}
	for _, x := range fork[0] {
		for _, y := range fork[1] {
			verifv.Assume(verifv.Not(eqTx(x, y)))
		}
	}
	a := append(cpLog(base), fork[0]...)
	b := append(cpLog(base), fork[1]...)
	ac, bc := cpLog(a), cpLog(b)
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(len(conflicts) == 0, "a conflict was reported although nothing was deleted")
	verifv.Assert(eqLog(a, ac) && eqLog(b, bc), "merging altered an input")
	verifv.Assert(len(c) == len(base)+len(fork[0])+len(fork[1]), "the merged history does not hold every record of both exactly once")
	verifv.Assert(interleaves(c[len(base):], fork[0], fork[1]), "the merged history is not an interleaving of both")
	verifv.Assert(eqLog(c[:len(base)], base), "the common history changed")
	sorted, out := true, true
	for i := len(base) + 1; i < len(c); i++ {
		out = verifv.And(out, c[i-1].Time <= c[i].Time)
	}
	for r := range fork {
		for i := 1; i < len(fork[r]); i++ {
			sorted = verifv.And(sorted, fork[r][i-1].Time <= fork[r][i].Time)
		}
	}
	verifv.Assert(verifv.Implies(sorted, out), "the merged history is not in time order")
	verifv.Reach("merged")
}

// interleaves: c is made of a and b, each in its own order.
func interleaves(c, a, b []Tx) bool {
	if len(c) != len(a)+len(b) {
		return false
	}
	if len(c) == 0 {
		return true
	}
	res := false
	if len(a) > 0 {
		res = verifv.Or(res, verifv.And(eqTx(c[0], a[0]), interleaves(c[1:], a[1:], b)))
	}
	if len(b) > 0 {
		res = verifv.Or(res, verifv.And(eqTx(c[0], b[0]), interleaves(c[1:], a, b[1:])))
	}
	return res
}

// Empty histories and prefixes, deletions included.
func Harness_M01_prefix() {
	n := verifv.Pick(4, 5)
	verifv.Bound("a valid history of 0 to 5 (quick) or 6 (thorough) records of any kind merged with each of its prefixes (the empty one and itself included), in both orders; any one-byte keys and values, any strictly increasing times")
	p := pool(verifv.Choose("len", n+1), txKinds)
	if !valid(p) {
		return
	}
	if verifv.Choose("none", 2) == 1 {
		p = nil
	}
	k := verifv.Choose("prefix", len(p)+1)
	a, b := cpLog(p), cpLog(p[:k])
	if verifv.Choose("nil", 2) == 1 && k == 0 {
		b = nil
	}
	if verifv.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	var c []Tx
	var conflicts []Conflict
	end := verifv.Catch(func() { c, conflicts = Merge(a, b, nil) })
	verifv.Assert(end == "", "merging with an earlier or empty history crashed")
	verifv.Assert(len(conflicts) == 0, "merging with an earlier or empty history reports a conflict")
	verifv.Assert(eqLog(c, p), "merging with an earlier or empty history does not give the longer one")
	verifv.Reach("merged")
}

// Long forks, interleaved in different ways.
func Harness_M01_long() {
	verifv.Bound("a common history of 1 or 301 (thorough 41) records on two entries and two forks of 0, 13 or 60 (thorough 1, 130) sets each, interleaved one to one, three to two, or one after the other, the time, key and value of one of them (the last, or in the middle) being anything")
	verifv.StepLimit(30000000)
	base := []Tx{{Kind: TxAdd, UUID: "u0", Time: 1}, {Kind: TxAdd, UUID: "u1", Time: 2}}
	base = base[:1+verifv.Choose("entries", verifv.Pick(1, 2))]
	set := func(t int64, u, k string) Tx { return Tx{Kind: TxSetKey, UUID: u, Time: t, Key: k, Value: "v"} }
	for n := []int{0, 300, 40}[verifv.Choose("common", verifv.Pick(2, 3))]; n > 0; n-- {
		base = append(base, set(int64(1000-n), base[n%len(base)%2].UUID, "c"))
	}
	lens := []int{0, 13, 60, 1, 130}
	step := [][2]int64{{2, 2}, {3, 2}, {1, 0}}[verifv.Choose("interleaving", 3)]
	a, b := cpLog(base), cpLog(base)
	na, nb := lens[verifv.Choose("a", verifv.Pick(3, 5))], lens[verifv.Choose("b", verifv.Pick(3, 5))]
	for i := 0; i < na; i++ {
		a = append(a, set(1000+int64(i)*step[0], "u0", "a"))
	}
	for i := 0; i < nb; i++ {
		t := 1001 + int64(i)*step[1]
		if step[1] == 0 {
			t = 2000 + int64(i)
		}
		b = append(b, set(t, "u0", "b"))
	}
	if nb > 0 {
		x := &b[len(b)-1]
		if verifv.Choose("middle", 2) == 1 {
			x = &b[len(base)+nb/2]
		}
		x.Key, x.Value = verifv.String("key", 1), verifv.String("val", 1)
		verifv.Assume(x.Key != "a")
		if x == &b[len(b)-1] {
			x.Time = verifv.Int64("t")
			verifv.Assume(x.Time > b[len(b)-2].Time)
		}
	}
	ac, bc := cpLog(a), cpLog(b)
	if verifv.Choose("swap", 2) == 1 {
		a, b, ac, bc = b, a, bc, ac
	}
	c, conflicts := Merge(a, b, nil)
	verifv.Assert(len(conflicts) == 0, "a conflict was reported although nothing was deleted")
	verifv.Assert(eqLog(a, ac) && eqLog(b, bc), "merging altered an input")
	verifv.Assert(len(c) == len(a)+len(b)-len(base), "the merged history does not hold every record of both exactly once")
	i, j, ok := len(base), len(base), true
	for k, tx := range c {
		if k < len(base) {
			ok = verifv.And(ok, eqTx(tx, base[k]))
			continue
		}
		ok = verifv.And(ok, verifv.Or(k == len(base), c[k-1].Time <= tx.Time))
		// a tie may go either way, all records of the sides differ
		if i < len(a) && (j >= len(b) || eqTx(tx, a[i])) {
			ok = verifv.And(ok, eqTx(tx, a[i]))
			i++
		} else {
			ok = verifv.And(ok, eqTx(tx, b[j]))
			j++
		}
	}
	verifv.Assert(ok && i == len(a) && j == len(b), "the long merged history is not every record of both, once, in time order")
	verifv.Reach("long histories merged")
}
