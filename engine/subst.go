package main

// Path-level substitution: once the path condition fixes a variable to a
// constant, later conditions are simplified with it.

func (p *Path) bindVar(v *Term, c uint64) {
	if p.bind == nil {
		p.bind = map[string]uint64{}
		p.boundAtoms = map[int32]bool{}
	}
	if _, ok := p.bind[v.name]; ok {
		return
	}
	p.bind[v.name] = c
	for _, a := range p.in.tm.atomsOf(v) {
		p.boundAtoms[a] = true
	}
	p.substMemo = nil
}

// learn derives var = const facts from a path condition.
func (p *Path) learn(t *Term) {
	switch t.op {
	case opVar:
		if t.w == 0 {
			p.bindVar(t, 1)
		}
		return
	case opNot:
		if t.args[0].op == opVar {
			p.bindVar(t.args[0], 0)
		}
		return
	case opEq:
	default:
		return
	}
	a, b := t.args[0], t.args[1]
	if a.isConst() {
		a, b = b, a
	}
	if !b.isConst() || a.w == 0 {
		return
	}
	c := b.val
	for {
		switch a.op {
		case opVar:
			p.bindVar(a, c)
			return
		case opZExt, opSExt:
			x := a.args[0]
			if x.w > 63 {
				return
			}
			lo := c & mask(x.w)
			back := lo
			if a.op == opSExt {
				back = uint64(sext64(lo, x.w)) & mask(a.w)
			}
			if back != c {
				return
			}
			a, c = x, lo
		case opAdd:
			if !a.args[1].isConst() {
				return
			}
			c = (c - a.args[1].val) & mask(a.w)
			a = a.args[0]
		case opSub:
			if !a.args[0].isConst() {
				return
			}
			c = (a.args[0].val - c) & mask(a.w)
			a = a.args[1]
		default:
			return
		}
	}
}

func (p *Path) subst(t *Term) *Term {
	if len(p.bind) == 0 || t.isConst() {
		return t
	}
	hit := false
	for _, a := range p.in.tm.atomsOf(t) {
		if p.boundAtoms[a] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.op == opVar {
		if v, ok := p.bind[t.name]; ok {
			return p.in.tm.Const(v, t.w)
		}
		return t
	}
	if r, ok := p.substMemo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = p.subst(a)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = p.in.tm.rebuild(t, args)
	}
	if p.substMemo == nil {
		p.substMemo = map[int]*Term{}
	}
	p.substMemo[t.id] = r
	return r
}

func (tm *TM) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case opUF:
		return tm.UF(t.name, t.w, a...)
	case opNot:
		return tm.Not(a[0])
	case opAnd:
		return tm.And(a...)
	case opOr:
		return tm.Or(a...)
	case opEq:
		return tm.Eq(a[0], a[1])
	case opIte:
		return tm.Ite(a[0], a[1], a[2])
	case opAdd:
		return tm.Add(a[0], a[1])
	case opSub:
		return tm.Sub(a[0], a[1])
	case opMul:
		return tm.Mul(a[0], a[1])
	case opUDiv, opSDiv, opURem, opSRem:
		if a[1].isConst() && a[1].val == 0 {
			return tm.intern(&Term{op: t.op, w: t.w, args: a})
		}
		return tm.div(t.op, a[0], a[1])
	case opBAnd:
		return tm.BAnd(a[0], a[1])
	case opBOr:
		return tm.BOr(a[0], a[1])
	case opBXor:
		return tm.BXor(a...)
	case opBNot:
		return tm.BNot(a[0])
	case opShl:
		return tm.Shl(a[0], a[1])
	case opLShr:
		return tm.LShr(a[0], a[1])
	case opAShr:
		return tm.AShr(a[0], a[1])
	case opUlt:
		return tm.Ult(a[0], a[1])
	case opUle:
		return tm.Ule(a[0], a[1])
	case opSlt:
		return tm.Slt(a[0], a[1])
	case opSle:
		return tm.Sle(a[0], a[1])
	case opConcat:
		return tm.Concat(a...)
	case opExtract:
		return tm.Extract(a[0], int(t.val)+t.w-1, int(t.val))
	case opZExt:
		return tm.ZExt(a[0], t.w)
	case opSExt:
		return tm.SExt(a[0], t.w)
	}
	return tm.intern(&Term{op: t.op, w: t.w, val: t.val, name: t.name, args: a})
}
