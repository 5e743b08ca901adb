package main

import (
	"fmt"
)

// Decision kinds.
const (
	dBranch uint8 = iota
	dChoose
	dConcEq
	dConcNe
)

type Decision struct {
	k uint8
	v uint64
}

type workItem struct {
	prefix []Decision
	model  *Model
}

// Engine control-flow signals (Go panics caught by the driver).
type engineError struct{ msg string }

func (e *engineError) Error() string { return e.msg }

func engineErr(f string, a ...any) *engineError { return &engineError{fmt.Sprintf(f, a...)} }

type pathEnd struct{ reason string } // pruned / done early

type violationStop struct{}

type inputRec struct {
	label string
	kind  string // int, bytes, choose, bool
	terms []*Term
	val   uint64
}

type obsRec struct {
	label string
	val   Value
}

// Path is the state of one execution.
type Path struct {
	in      *Interp
	drv     *Driver
	prefix  []Decision
	pos     int
	trace   []Decision
	pc      []*Term
	pcSet   map[int]bool
	model   *Model
	inputs  []inputRec
	occ     map[string]int
	obs     []obsRec
	reached map[string]bool
	steps   int
	stepLim int
	nvar    int
	notes   []string
	depth   int
	opaque  int
	skipValidate bool
	asserts int
	mapMode int
	concCrypto bool

	bind       map[string]uint64
	boundAtoms map[int32]bool
	substMemo  map[int]*Term
}

func (p *Path) inPrefix() bool { return p.pos < len(p.prefix) }

func (p *Path) record(d Decision) {
	p.trace = append(p.trace, d)
}

func (p *Path) addPC(t *Term) {
	if t == p.in.tm.True {
		return
	}
	if t.op == opAnd {
		for _, a := range t.args {
			p.addPC(a)
		}
		return
	}
	if p.pcSet[t.id] {
		return
	}
	p.pcSet[t.id] = true
	p.pc = append(p.pc, t)
	p.learn(t)
}

// implied: 1 true, 0 false, -1 unknown.
func (p *Path) implied(t *Term) int {
	if t.isConst() {
		return int(t.val)
	}
	if p.pcSet[t.id] {
		return 1
	}
	if p.pcSet[p.in.tm.Not(t).id] {
		return 0
	}
	if t.op == opAnd {
		all := true
		for _, a := range t.args {
			switch p.implied(a) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	} else if t.op == opOr {
		all := true
		for _, a := range t.args {
			switch p.implied(a) {
			case 1:
				return 1
			case -1:
				all = false
			}
		}
		if all {
			return 0
		}
	}
	return -1
}

// slice returns the constraints of pc connected with ts (including ts).
func (p *Path) slice(ts ...*Term) []*Term {
	tm := p.in.tm
	want := map[int32]bool{}
	out := append([]*Term(nil), ts...)
	pc := p.pc
	if len(p.bind) > 0 {
		pc = make([]*Term, 0, len(p.pc))
		for _, c := range p.pc {
			if c = p.subst(c); c != tm.True {
				pc = append(pc, c)
			}
		}
	}
	for _, t := range ts {
		for _, a := range tm.atomsOf(t) {
			want[a] = true
		}
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			at := tm.atomsOf(c)
			for _, a := range at {
				if want[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, a := range at {
					want[a] = true
				}
			}
		}
	}
	return out
}

func mergeModel(base, over *Model) *Model {
	n := base.clone()
	for k, v := range over.vars {
		n.vars[k] = v
	}
	for k, v := range over.ufs {
		n.ufs[k] = v
	}
	return n
}

func (p *Path) holds(m *Model, extra ...*Term) bool {
	tm := p.in.tm
	old := tm.model
	tm.setModel(m)
	defer tm.setModel(old)
	for _, t := range extra {
		if tm.eval(t) == 0 {
			return false
		}
	}
	for _, t := range p.pc {
		if tm.eval(t) == 0 {
			return false
		}
	}
	return true
}

// check asks whether pc ∧ ts is satisfiable and returns a full model.
func (p *Path) check(ts ...*Term) (Result, *Model) {
	for _, t := range ts {
		if p.implied(t) == 0 {
			return Unsat, nil
		}
	}
	r, m := p.in.sol.Check(p.slice(ts...))
	if r != Sat {
		return r, nil
	}
	full := mergeModel(p.model, m)
	if p.holds(full, ts...) {
		return Sat, full
	}
	// merging broke functional consistency: ask for everything at once
	all := append(append([]*Term(nil), p.pc...), ts...)
	r, m = p.in.sol.Check(all)
	if r != Sat {
		return r, nil
	}
	full = mergeModel(p.model, m)
	if !p.holds(full, ts...) {
		full = m
		if !p.holds(full, ts...) {
			debugf("model does not satisfy its own path condition (encoder or evaluator mismatch)")
			p.drv.noteInconclusive("model-mismatch")
			return Unknown, nil
		}
	}
	return Sat, full
}

func (p *Path) evalBool(t *Term) bool {
	return p.in.tm.eval(t) != 0
}

func (p *Path) setModel(m *Model) {
	p.model = m
	p.in.tm.setModel(m)
}

func (p *Path) fork(d Decision, m *Model) {
	pre := make([]Decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	p.drv.push(&workItem{prefix: pre, model: m})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	c = p.subst(c)
	switch p.implied(c) {
	case 0:
		return false
	case 1:
		return true
	}
	tm := p.in.tm
	if p.inPrefix() {
		d := p.prefix[p.pos]
		if d.k != dBranch {
			panic(engineErr("replay divergence: expected branch decision, have kind %d", d.k))
		}
		p.pos++
		p.record(d)
		if d.v != 0 {
			p.addPC(c)
		} else {
			p.addPC(tm.Not(c))
		}
		return d.v != 0
	}
	if p.drv.forkLimit > 0 && len(p.trace) >= p.drv.forkLimit {
		p.drv.noteInconclusive("fork-depth")
		panic(pathEnd{"fork depth limit"})
	}
	side := p.evalBool(c)
	taken, other := c, tm.Not(c)
	if !side {
		taken, other = other, taken
	}
	r, m := p.check(other)
	p.drv.branches.Add(1)
	switch r {
	case Sat:
		p.fork(Decision{dBranch, b2u(!side)}, m)
	case Unknown:
		p.drv.noteInconclusive("solver-unknown")
	}
	p.record(Decision{dBranch, b2u(side)})
	p.addPC(taken)
	return side
}

// choose is an unconstrained n-way nondeterministic choice.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.inPrefix() {
		d := p.prefix[p.pos]
		if d.k != dChoose {
			panic(engineErr("replay divergence: expected choice, have kind %d", d.k))
		}
		p.pos++
		p.record(d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(Decision{dChoose, uint64(i)}, p.model)
	}
	p.drv.branches.Add(int64(n - 1))
	p.record(Decision{dChoose, 0})
	return 0
}

// concretize enumerates the feasible values of t.
func (p *Path) concretize(t *Term) uint64 {
	t = p.subst(t)
	if t.isConst() {
		return t.val
	}
	tm := p.in.tm
	for n := 0; ; n++ {
		if p.inPrefix() {
			d := p.prefix[p.pos]
			if d.k != dConcEq && d.k != dConcNe {
				panic(engineErr("replay divergence: expected concretisation, have kind %d", d.k))
			}
			p.pos++
			p.record(d)
			eq := tm.Eq(t, tm.Const(d.v, t.w))
			if d.k == dConcEq {
				p.addPC(eq)
				return d.v
			}
			p.addPC(tm.Not(eq))
			continue
		}
		if n > p.drv.concLimit {
			p.drv.noteInconclusive("concretisation-limit")
			panic(pathEnd{"concretisation limit"})
		}
		v := tm.eval(t)
		eq := tm.Eq(t, tm.Const(v, t.w))
		r, m := p.check(tm.Not(eq))
		p.drv.branches.Add(1)
		switch r {
		case Sat:
			p.fork(Decision{dConcNe, v}, m)
		case Unknown:
			p.drv.noteInconclusive("solver-unknown")
		}
		p.record(Decision{dConcEq, v})
		p.addPC(eq)
		return v
	}
}

// assume prunes executions where c is false.
func (p *Path) assume(c *Term) {
	c = p.subst(c)
	switch p.implied(c) {
	case 1:
		return
	case 0:
		panic(pathEnd{"assume"})
	}
	if p.inPrefix() {
		p.addPC(c)
		return
	}
	if p.evalBool(c) {
		p.addPC(c)
		return
	}
	r, m := p.check(c)
	switch r {
	case Sat:
		p.setModel(m)
		p.addPC(c)
	case Unsat:
		panic(pathEnd{"assume"})
	default:
		p.drv.noteInconclusive("solver-unknown")
		panic(pathEnd{"assume-unknown"})
	}
}

// assert reports a violation when c can be false.
func (p *Path) assert(c *Term, msg string) {
	p.drv.assertions.Add(1)
	p.asserts++
	c = p.subst(c)
	if p.implied(c) == 1 {
		return
	}
	tm := p.in.tm
	if p.inPrefix() {
		// already decided by the execution that forked us; the model may not
		// satisfy pc yet, so only record.
		p.addPC(c)
		if p.implied(tm.Not(c)) == 1 {
			panic(pathEnd{"assert-false"})
		}
		return
	}
	var m *Model
	if !p.evalBool(c) {
		m = p.model
	} else {
		r, mm := p.check(tm.Not(c))
		switch r {
		case Unsat:
			p.addPC(c)
			return
		case Unknown:
			p.drv.noteInconclusive("solver-unknown")
			p.addPC(c)
			return
		}
		m = mm
	}
	p.drv.violation(p, "assert", msg, m)
	// continue where the assertion holds, if possible
	p.assume(c)
}

func (p *Path) freshVar(label string, w int) *Term {
	name := fmt.Sprintf("%s!%d", label, p.nvar)
	p.nvar++
	return p.in.tm.Var(name, w)
}
