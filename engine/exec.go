package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) where(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.cur == nil {
			continue
		}
		if f.code.repo || f.caller == nil {
			pos := in.prog.Fset.Position(f.cur.Pos())
			if !pos.IsValid() {
				for _, i := range f.cur.Block().Instrs {
					if i.Pos().IsValid() {
						pos = in.prog.Fset.Position(i.Pos())
					}
				}
			}
			return fmt.Sprintf("%s (%s:%d)", f.code.name, shortFile(pos.Filename), pos.Line)
		}
	}
	return "?"
}

func (in *Interp) stack(fr *frame) string {
	s := ""
	n := 0
	for f := fr; f != nil && n < 25; f = f.caller {
		pos := token.Position{}
		if f.cur != nil {
			pos = in.prog.Fset.Position(f.cur.Pos())
		}
		s += fmt.Sprintf("  %s %s:%d\n", f.code.name, shortFile(pos.Filename), pos.Line)
		n++
	}
	return s
}

func (in *Interp) stepLimit(fr *frame) {
	in.path.drv.stepLimitHit(in.path, in.where(fr))
	panic(pathEnd{"step limit"})
}

func (in *Interp) nilDeref() {
	in.rtPanic("invalid memory address or nil pointer dereference")
}

func (in *Interp) rtPanic(msg string) { in.rtPanicPlain("runtime error: " + msg) }

func (in *Interp) rtPanicPlain(msg string) {
	w := ""
	if in.cur() != nil {
		w = in.where(in.cur())
	}
	panic(&targetPanic{v: in.mkError(msg), where: w})
}

func (in *Interp) cur() *frame { return in.top }

// mkError builds an error value (*errors.errorString).
func (in *Interp) mkError(msg Value) Iface {
	t := in.ld.errorString
	v := new(Value)
	*v = Struct{msg}
	return Iface{t: in.ptrTo(t), v: v}
}

func (in *Interp) execTolerant(fr *frame, it *inst) {
	// skip nested package initialisers
	if c, ok := it.i.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Synthetic != "" && f.Pkg != fr.code.fn.Pkg {
			return
		}
	}
	if u, ok := it.i.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
			fr.env[it.dst] = in.tm.False
			return
		}
	}
	if st, ok := it.i.(*ssa.Store); ok {
		if g, ok := st.Addr.(*ssa.Global); ok {
			fr.stored[g] = true
			if it.ops[1].slot >= 0 {
				if p, ok := fr.env[it.ops[1].slot].(Poison); ok {
					m := in.shared
					if in.ld.isRepo(g.Pkg.Pkg.Path()) {
						m = in.local
					}
					*m[g] = p
					return
				}
			}
		}
	}
	saved := in.top
	func() {
		defer func() {
			if r := recover(); r != nil {
				var msg string
				switch e := r.(type) {
				case *engineError:
					msg = e.msg
				case *targetPanic:
					msg = "panic in init"
				default:
					panic(r)
				}
				in.top = saved
				if it.dst >= 0 {
					fr.env[it.dst] = Poison{fr.code.pkg + ": " + it.i.String() + ": " + msg}
				} else if _, ok := it.i.(*ssa.If); ok {
					panic(engineErr("%s", msg))
				}
			}
		}()
		in.exec(fr, it)
	}()
}

func (in *Interp) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(engineErr("deref of %T", v))
	}
	if p == nil {
		in.nilDeref()
	}
	return p
}

func (in *Interp) exec(fr *frame, it *inst) {
	in.top = fr
	switch x := it.i.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.env[it.dst] = p
	case *ssa.UnOp:
		fr.env[it.dst] = in.unop(fr, x, it)
	case *ssa.BinOp:
		fr.env[it.dst] = in.binop(x.Op, x.X.Type(), fr.get(&it.ops[0]), fr.get(&it.ops[1]), x.Y.Type())
	case *ssa.Store:
		p := in.deref(fr.get(&it.ops[0]))
		v := fr.get(&it.ops[1])
		storeInto(p, v)
	case *ssa.Call:
		fr.env[it.dst] = in.doCall(fr, &x.Call, it.ops, x)
		in.top = fr
	case *ssa.FieldAddr:
		p := in.deref(fr.get(&it.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			panic(engineErr("FieldAddr on %T (%s)", *p, x.X.Type()))
		}
		fr.env[it.dst] = &s[x.Field]
	case *ssa.Field:
		fr.env[it.dst] = fr.get(&it.ops[0]).(Struct)[x.Field]
	case *ssa.IndexAddr:
		fr.env[it.dst] = in.indexAddr(fr, x, it)
	case *ssa.Index:
		c := fr.get(&it.ops[0])
		idx := in.idxTerm(fr.get(&it.ops[1]).(*Term), x.Index.Type())
		switch a := c.(type) {
		case Array:
			fr.env[it.dst] = in.readIdx([]Value(a), idx)
		default:
			fr.env[it.dst] = in.strIndex(c, idx)
		}
	case *ssa.Lookup:
		c := fr.get(&it.ops[0])
		k := fr.get(&it.ops[1])
		if m, ok := c.(*Map); ok {
			in.checkHashable(k)
			e := in.mapFind(m, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = in.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				fr.env[it.dst] = Tuple{v, in.tm.Bool(e != nil)}
			} else {
				fr.env[it.dst] = v
			}
		} else {
			fr.env[it.dst] = in.strIndex(c, in.idxTerm(k.(*Term), x.Index.Type()))
		}
	case *ssa.MapUpdate:
		m := fr.get(&it.ops[0]).(*Map)
		k := fr.get(&it.ops[1])
		in.checkHashable(k)
		in.mapSet(m, k, fr.get(&it.ops[2]))
	case *ssa.Extract:
		fr.env[it.dst] = fr.get(&it.ops[0]).(Tuple)[x.Index]
	case *ssa.MakeInterface:
		fr.env[it.dst] = Iface{t: x.X.Type(), v: copyVal(fr.get(&it.ops[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[it.dst] = fr.get(&it.ops[0])
	case *ssa.Convert:
		fr.env[it.dst] = in.convert(x.X.Type(), x.Type(), fr.get(&it.ops[0]))
	case *ssa.MultiConvert:
		fr.env[it.dst] = in.convert(x.X.Type(), x.Type(), fr.get(&it.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&it.ops[0]).([]Value)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		if s == nil {
			fr.env[it.dst] = (*Value)(nil)
		} else {
			p := new(Value)
			*p = Array(s[:n:n])
			fr.env[it.dst] = p
		}
	case *ssa.MakeClosure:
		f := &FnVal{fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(it.ops); i++ {
			f.env = append(f.env, fr.get(&it.ops[i]))
		}
		fr.env[it.dst] = f
	case *ssa.MakeMap:
		fr.env[it.dst] = newMap()
	case *ssa.MakeSlice:
		n := in.sizeArg(fr.get(&it.ops[0]).(*Term), x.Len.Type(), "len")
		c := in.sizeArg(fr.get(&it.ops[1]).(*Term), x.Cap.Type(), "cap")
		if c < n {
			in.rtPanic("makeslice: cap out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[it.dst] = in.makeSlice(et, n, c)
	case *ssa.Slice:
		fr.env[it.dst] = in.slice(fr, x, it)
	case *ssa.TypeAssert:
		fr.env[it.dst] = in.typeAssert(x, fr.get(&it.ops[0]))
	case *ssa.Range:
		c := fr.get(&it.ops[0])
		if m, ok := c.(*Map); ok {
			iter := &Iter{m: m}
			if m != nil {
				iter.ents = in.mapOrder(m)
			}
			fr.env[it.dst] = iter
		} else {
			fr.env[it.dst] = &Iter{str: c, strN: strLen(c)}
		}
	case *ssa.Next:
		fr.env[it.dst] = in.next(fr, fr.get(&it.ops[0]).(*Iter), x)
	case *ssa.Defer:
		f, args := in.prepCall(fr, &x.Call, it.ops)
		fr.defers = append(fr.defers, deferred{f, args})
	case *ssa.MakeChan:
		n := in.path.concretize(fr.get(&it.ops[0]).(*Term))
		fr.env[it.dst] = &Chan{cap: int(n)}
	case *ssa.Send:
		ch := fr.get(&it.ops[0]).(*Chan)
		if ch == nil || len(ch.q) >= ch.cap {
			panic(engineErr("blocking channel send"))
		}
		ch.q = append(ch.q, fr.get(&it.ops[1]))
	case *ssa.Go:
		panic(engineErr("go statement unsupported in %s", fr.code.name))
	case *ssa.Select:
		panic(engineErr("select unsupported in %s", fr.code.name))
	default:
		panic(engineErr("unsupported instruction %T in %s", it.i, fr.code.name))
	}
}

func (in *Interp) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil {
		switch i.v.(type) {
		case []Value, *Map, *FnVal:
			in.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
}

func (in *Interp) makeSlice(et types.Type, n, c int) []Value {
	s := make([]Value, c)
	if c > 0 {
		z := in.zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = copyVal(z)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

const maxAlloc = 1 << 22

func (in *Interp) sizeArg(t *Term, ty types.Type, what string) int {
	w, signed, _ := isIntType(ty)
	_ = w
	if !t.isConst() {
		// out of range values panic: makeslice accepts 0..maxAlloc(2^47)
		var bad *Term
		lim := in.tm.Const(1<<46, 64)
		t64 := in.ext(t, signed, 64)
		if signed {
			bad = in.tm.Or(in.tm.Slt(t64, in.tm.Const(0, 64)), in.tm.Sle(lim, t64))
		} else {
			bad = in.tm.Ule(lim, t64)
		}
		if in.path.branch(bad) {
			in.rtPanic("makeslice: " + what + " out of range")
		}
		big := in.tm.Ult(in.tm.Const(maxAlloc, 64), t64)
		if in.path.branch(big) {
			in.path.drv.noteBigAlloc(in.path, in.where(in.top))
			panic(pathEnd{"big allocation"})
		}
		return int(in.path.concretize(t64))
	}
	v := int64(t.val)
	if signed {
		v = sext64(t.val, t.w)
	}
	if v < 0 || v >= 1<<46 {
		in.rtPanic("makeslice: " + what + " out of range")
	}
	if v > maxAlloc {
		in.path.drv.noteBigAlloc(in.path, in.where(in.top))
		panic(pathEnd{"big allocation"})
	}
	return int(v)
}

func (in *Interp) ext(t *Term, signed bool, w int) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return in.tm.Extract(t, w-1, 0)
	}
	if signed {
		return in.tm.SExt(t, w)
	}
	return in.tm.ZExt(t, w)
}

// idxTerm widens an index to a signed 64-bit term.
func (in *Interp) idxTerm(t *Term, ty types.Type) *Term {
	_, signed, _ := isIntType(ty)
	return in.ext(t, signed, 64)
}

// boundsCheck forks on idx in [0,n).
func (in *Interp) boundsCheck(idx *Term, n int) {
	if idx.isConst() {
		if int64(idx.val) < 0 || int64(idx.val) >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.val), n))
		}
		return
	}
	ok := in.tm.Ult(idx, in.tm.Const(uint64(n), 64))
	if !in.path.branch(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

func (in *Interp) strIndex(s Value, idx *Term) Value {
	n := strLen(s)
	in.boundsCheck(idx, n)
	if idx.isConst() {
		return in.strAt(s, int(idx.val))
	}
	return in.iteTable(in.strBytes(s), idx)
}

func (in *Interp) readIdx(a []Value, idx *Term) Value {
	in.boundsCheck(idx, len(a))
	if idx.isConst() {
		return copyVal(a[idx.val])
	}
	if len(a) > 0 {
		if _, ok := a[0].(*Term); ok && len(a) <= 4096 {
			return in.iteTable(in.sliceTerms(a), idx)
		}
	}
	return copyVal(a[in.path.concretize(idx)])
}

// iteTable reads tab[idx] with idx known in range, grouping runs of equal entries.
func (in *Interp) iteTable(tab []*Term, idx *Term) *Term {
	tm := in.tm
	// restrict by simple range
	lo, hi := urange(idx)
	if hi >= uint64(len(tab)) {
		hi = uint64(len(tab)) - 1
	}
	if lo > hi {
		lo = 0
	}
	type run struct {
		end int
		t   *Term
	}
	var runs []run
	for i := int(lo); i <= int(hi); i++ {
		if n := len(runs); n > 0 && runs[n-1].t == tab[i] {
			runs[n-1].end = i
		} else {
			runs = append(runs, run{i, tab[i]})
		}
	}
	var build func(rs []run) *Term
	build = func(rs []run) *Term {
		if len(rs) == 1 {
			return rs[0].t
		}
		m := len(rs) / 2
		c := tm.Ult(idx, tm.Const(uint64(rs[m-1].end+1), 64))
		return tm.Ite(c, build(rs[:m]), build(rs[m:]))
	}
	return build(runs)
}

func (in *Interp) elems(v Value) ([]Value, bool) {
	switch a := v.(type) {
	case []Value:
		return a, true
	case *Value:
		if a == nil {
			in.nilDeref()
		}
		if arr, ok := (*a).(Array); ok {
			return []Value(arr), true
		}
	}
	return nil, false
}

func (in *Interp) indexAddr(fr *frame, x *ssa.IndexAddr, it *inst) Value {
	es, ok := in.elems(fr.get(&it.ops[0]))
	if !ok {
		panic(engineErr("IndexAddr on %T", fr.get(&it.ops[0])))
	}
	idx := in.idxTerm(fr.get(&it.ops[1]).(*Term), x.Index.Type())
	in.boundsCheck(idx, len(es))
	return &es[in.path.concretize(idx)]
}

func (in *Interp) fusedIndexLoad(fr *frame, it, ld *inst) {
	in.top = fr
	x := it.i.(*ssa.IndexAddr)
	es, ok := in.elems(fr.get(&it.ops[0]))
	if !ok {
		panic(engineErr("IndexAddr on %T", fr.get(&it.ops[0])))
	}
	idx := in.idxTerm(fr.get(&it.ops[1]).(*Term), x.Index.Type())
	fr.env[ld.dst] = in.readIdx(es, idx)
}

func (in *Interp) slice(fr *frame, x *ssa.Slice, it *inst) Value {
	base := fr.get(&it.ops[0])
	get := func(i int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return in.idxTerm(fr.get(&it.ops[i]).(*Term), v.Type())
	}
	lo, hi, max := get(1, x.Low), get(2, x.High), get(3, x.Max)
	var n, c int
	var es []Value
	isStr := false
	switch b := base.(type) {
	case string, SymStr:
		isStr = true
		n = strLen(b)
		c = n
	case []Value:
		es = b
		n, c = len(b), cap(b)
	case *Value:
		if b == nil {
			in.nilDeref()
		}
		arr, ok := (*b).(Array)
		if !ok {
			panic(engineErr("slice of pointer to %T", *b))
		}
		es = []Value(arr)
		n, c = len(es), len(es)
		es = es[:n:n]
	default:
		panic(engineErr("slice of %T", base))
	}
	// check 0 <= lo <= hi <= max <= cap with forks for symbolic bounds
	conc := func(t *Term, min, lim int, what string) int {
		if t.isConst() {
			v := int64(t.val)
			if v < int64(min) || v > int64(lim) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%s %d] with %d", what, v, lim))
			}
			return int(v)
		}
		ok := in.tm.And(in.tm.Ule(t, in.tm.Const(uint64(lim), 64)), in.tm.Ule(in.tm.Const(uint64(min), 64), t))
		if !in.path.branch(ok) {
			in.rtPanic("slice bounds out of range " + what)
		}
		return int(in.path.concretize(t))
	}
	m := c
	if max != nil {
		m = conc(max, 0, c, "::max")
	}
	h := n
	if hi != nil {
		h = conc(hi, 0, m, ":high")
	} else if h > m {
		in.rtPanic("slice bounds out of range")
	}
	l := 0
	if lo != nil {
		l = conc(lo, 0, h, "low:")
	}
	if isStr {
		return strSlice(base, l, h)
	}
	if es == nil {
		return []Value(nil)
	}
	return es[l:h:m]
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(engineErr("TypeAssert on %T", v))
	}
	good := false
	_, isI := x.AssertedType.Underlying().(*types.Interface)
	if i.t != nil {
		if isI {
			good = in.implements(i.t, x.AssertedType)
		} else {
			good = types.Identical(i.t, x.AssertedType)
		}
	}
	var res Value
	if good {
		if isI {
			res = i
		} else {
			res = copyVal(i.v)
		}
	} else {
		res = in.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{res, in.tm.Bool(good)}
	}
	if !good {
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		in.rtPanicPlain(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
	}
	return res
}

func (in *Interp) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := in.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	in.impl[k] = r
	return r
}

func (in *Interp) mapOrder(m *Map) []*mapEntry {
	ents := append([]*mapEntry(nil), m.ents...)
	n := len(ents)
	if n < 2 || in.inInit > 0 {
		return ents
	}
	p := in.path
	switch p.drv.mapMode(p) {
	case 0:
		return ents
	case 1: // insertion or reverse
		if p.choose(2) == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
		return ents
	default: // all permutations (first 4 positions)
		for i := 0; i < n-1 && i < 4; i++ {
			j := i + p.choose(n-i)
			ents[i], ents[j] = ents[j], ents[i]
		}
		return ents
	}
}

func (in *Interp) next(fr *frame, iter *Iter, x *ssa.Next) Value {
	tm := in.tm
	if x.IsString {
		if iter.spos >= iter.strN {
			return Tuple{tm.False, tm.Const(0, 64), tm.Const(0, 32)}
		}
		pos := iter.spos
		b := in.strAt(iter.str, pos)
		if in.path.branch(tm.Ult(b, tm.Const(0x80, 8))) {
			iter.spos++
			return Tuple{tm.True, tm.Const(uint64(pos), 64), tm.ZExt(b, 32)}
		}
		hi := pos + 4
		if hi > iter.strN {
			hi = iter.strN
		}
		res := in.call(fr, in.ld.fn("unicode/utf8", "DecodeRuneInString"), []Value{strSlice(iter.str, pos, hi)}, nil).(Tuple)
		n := in.path.concretize(res[1].(*Term))
		iter.spos += int(n)
		return Tuple{tm.True, tm.Const(uint64(pos), 64), res[0]}
	}
	for iter.pos < len(iter.ents) {
		e := iter.ents[iter.pos]
		iter.pos++
		if e.deleted {
			continue
		}
		return Tuple{tm.True, copyVal(e.k), copyVal(e.v)}
	}
	tu := x.Type().(*types.Tuple)
	z := Tuple{tm.False, nil, nil}
	for i := 1; i <= 2; i++ {
		if b, ok := tu.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		z[i] = in.zero(tu.At(i).Type())
	}
	return z
}

func (in *Interp) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if pkg != nil && !token.IsExported(name) {
		k.n = pkg.Path() + "." + name
	}
	if f, ok := in.methods[k]; ok {
		return f
	}
	f := in.prog.LookupMethod(t, pkg, name)
	in.methods[k] = f
	return f
}

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon, ops []operand) (*FnVal, []Value) {
	v := fr.get(&ops[0])
	if c.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			panic(engineErr("invoke on %T", v))
		}
		if i.t == nil {
			in.nilDeref()
		}
		f := in.lookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(engineErr("no method %s on %s", c.Method.Name(), i.t))
		}
		args := make([]Value, 0, len(ops))
		args = append(args, copyVal(i.v))
		for k := 1; k < len(ops); k++ {
			args = append(args, copyVal(fr.get(&ops[k])))
		}
		return in.fnVal(f), args
	}
	f, ok := v.(*FnVal)
	if !ok {
		panic(engineErr("call of %T in %s", v, fr.code.name))
	}
	args := make([]Value, 0, len(ops))
	for k := 1; k < len(ops); k++ {
		args = append(args, copyVal(fr.get(&ops[k])))
	}
	return f, args
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ops []operand, call *ssa.Call) Value {
	f, args := in.prepCall(fr, c, ops)
	if f == nil {
		in.nilDeref()
	}
	if f.builtin != nil {
		return in.builtin(fr, f.builtin, args, c)
	}
	return in.callFn(fr, f, args)
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	tm := in.tm
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, SymStr:
			return tm.Const(uint64(strLen(x)), 64)
		case []Value:
			return tm.Const(uint64(len(x)), 64)
		case *Map:
			if x == nil {
				return tm.Const(0, 64)
			}
			return tm.Const(uint64(x.n), 64)
		case Array:
			return tm.Const(uint64(len(x)), 64)
		case *Value:
			return tm.Const(uint64(len((*x).(Array))), 64)
		case *Chan:
			return tm.Const(uint64(len(x.q)), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return tm.Const(uint64(cap(x)), 64)
		case Array:
			return tm.Const(uint64(len(x)), 64)
		case *Value:
			return tm.Const(uint64(len((*x).(Array))), 64)
		}
	case "append":
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		case string, SymStr:
			add = termsToSlice(in.strBytes(y))
		case nil:
		}
		return in.appendVals(s, add)
	case "copy":
		d := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		default:
			src = termsToSlice(in.strBytes(y))
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			switch src[0].(type) {
			case Struct, Array:
				tmp := make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				for i := range tmp {
					storeInto(&d[i], tmp[i])
				}
			default:
				copy(d[:n], src[:n])
			}
		}
		return tm.Const(uint64(n), 64)
	case "delete":
		if m := args[0].(*Map); m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case []Value:
			if len(x) > 0 {
				z := in.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range x {
					storeInto(&x[i], copyVal(z))
				}
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], where: in.where(fr)})
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		f := fr.caller
		if f != nil && f.panicking {
			f.panicking = false
			v := f.panicV.v
			f.panicV = nil
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			switch y := a.(type) {
			case *Term:
				t := c.Args[0].Type()
				if isSigned(t) {
					less = tm.Slt(y, r.(*Term))
				} else {
					less = tm.Ult(y, r.(*Term))
				}
				if b.Name() == "max" {
					if isSigned(t) {
						less = tm.Slt(r.(*Term), y)
					} else {
						less = tm.Ult(r.(*Term), y)
					}
				}
				r = tm.Ite(less, y, r.(*Term))
			case float64:
				if b.Name() == "max" {
					r = math.Max(r.(float64), y)
				} else {
					r = math.Min(r.(float64), y)
				}
			default:
				l := in.strLess(a, r)
				if b.Name() == "max" {
					l = in.strLess(r, a)
				}
				if in.path.branch(l) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanicPlain("value method called using nil pointer")
		}
		return args[0]
	case "close":
		args[0].(*Chan).closed = true
		return nil
	case "String": // unsafe.String
		es := args[0].(*Value)
		n := int(in.path.concretize(args[1].(*Term)))
		if n == 0 {
			return ""
		}
		return mkStr(in.sliceTerms(in.ptrRun(es, n)))
	case "StringData":
		s := in.strBytes(args[0])
		if len(s) == 0 {
			return (*Value)(nil)
		}
		vs := termsToSlice(s)
		in.ptrRuns()[&vs[0]] = vs
		return &vs[0]
	case "SliceData":
		s := args[0].([]Value)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		s = s[:cap(s)]
		in.ptrRuns()[&s[0]] = s
		return &s[0]
	case "Slice":
		es := args[0].(*Value)
		n := int(in.path.concretize(args[1].(*Term)))
		if es == nil {
			return []Value(nil)
		}
		return in.ptrRun(es, n)
	}
	panic(engineErr("unsupported builtin %s", b.Name()))
}

func (in *Interp) ptrRuns() map[*Value][]Value {
	if in.runs == nil {
		in.runs = map[*Value][]Value{}
	}
	return in.runs
}

func (in *Interp) ptrRun(p *Value, n int) []Value {
	s, ok := in.ptrRuns()[p]
	if !ok || len(s) < n {
		panic(engineErr("unsafe pointer run of %d elements", n))
	}
	return s[:n:n]
}

func (in *Interp) appendVals(s []Value, add []Value) []Value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	var out []Value
	if n <= cap(s) {
		out = s[:n]
	} else {
		// mimic Go's growth closely enough: doubling
		c := cap(s) * 2
		if c < n {
			c = n
			if r := c % 8; r != 0 && c > 0 {
				c += 8 - r
			}
		}
		out = make([]Value, n, c)
		copy(out, s)
	}
	switch add[0].(type) {
	case Struct, Array:
		for i := range add {
			out[len(s)+i] = copyVal(add[i])
		}
	default:
		copy(out[len(s):], add)
	}
	// fill spare capacity lazily: values beyond len must be zero when resliced
	if cap(out) > n {
		spare := out[n:cap(out)]
		if len(spare) > 0 && spare[0] == nil {
			z := zeroLike(in, add[0])
			for i := range spare {
				if spare[i] == nil {
					spare[i] = copyVal(z)
				}
			}
		}
	}
	return out
}

func zeroLike(in *Interp, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return in.tm.Const(0, x.w)
	case string, SymStr:
		return ""
	case float64:
		return float64(0)
	case []Value:
		return []Value(nil)
	case *Value:
		return (*Value)(nil)
	case *Map:
		return (*Map)(nil)
	case *FnVal:
		return (*FnVal)(nil)
	case Iface:
		return Iface{}
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = zeroLike(in, x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = zeroLike(in, x[i])
		}
		return n
	}
	return v
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, it *inst) Value {
	v := fr.get(&it.ops[0])
	tm := in.tm
	switch x.Op {
	case token.MUL:
		p := in.deref(v)
		r := copyVal(*p)
		if po, ok := r.(Poison); ok {
			panic(engineErr("poison read: %s", po.msg))
		}
		return r
	case token.NOT:
		return tm.Not(v.(*Term))
	case token.SUB:
		switch n := v.(type) {
		case *Term:
			return tm.Sub(tm.Const(0, n.w), n)
		case float64:
			return -n
		case complex128:
			return -n
		}
	case token.XOR:
		return tm.BNot(v.(*Term))
	case token.ARROW:
		ch := v.(*Chan)
		if ch == nil || (len(ch.q) == 0 && !ch.closed) {
			panic(engineErr("blocking channel receive"))
		}
		var r Value
		ok := len(ch.q) > 0
		if ok {
			r = ch.q[0]
			ch.q = ch.q[1:]
		} else {
			r = in.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return Tuple{r, tm.Bool(ok)}
		}
		return r
	}
	panic(engineErr("unop %s on %T", x.Op, v))
}

func (in *Interp) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	tm := in.tm
	switch op {
	case token.EQL:
		return in.eqOp(a, b)
	case token.NEQ:
		return tm.Not(in.eqOp(a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		signed := isSigned(t)
		switch op {
		case token.ADD:
			return tm.Add(x, y)
		case token.SUB:
			return tm.Sub(x, y)
		case token.MUL:
			return tm.Mul(x, y)
		case token.QUO, token.REM:
			if y.isConst() {
				if y.val == 0 {
					in.rtPanic("integer divide by zero")
				}
			} else if in.path.branch(tm.Eq(y, tm.Const(0, y.w))) {
				in.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return tm.div(opSDiv, x, y)
			case op == token.QUO:
				return tm.div(opUDiv, x, y)
			case signed:
				return tm.div(opSRem, x, y)
			}
			return tm.div(opURem, x, y)
		case token.AND:
			if x.w == 0 {
				return tm.And(x, y)
			}
			return tm.BAnd(x, y)
		case token.OR:
			if x.w == 0 {
				return tm.Or(x, y)
			}
			return tm.BOr(x, y)
		case token.XOR:
			return tm.BXor(x, y)
		case token.AND_NOT:
			return tm.BAnd(x, tm.BNot(y))
		case token.SHL, token.SHR:
			return in.shift(op, x, y, signed, bt)
		case token.LSS:
			if signed {
				return tm.Slt(x, y)
			}
			return tm.Ult(x, y)
		case token.LEQ:
			if signed {
				return tm.Sle(x, y)
			}
			return tm.Ule(x, y)
		case token.GTR:
			if signed {
				return tm.Slt(y, x)
			}
			return tm.Ult(y, x)
		case token.GEQ:
			if signed {
				return tm.Sle(y, x)
			}
			return tm.Ule(y, x)
		case token.LAND:
			return tm.And(x, y)
		case token.LOR:
			return tm.Or(x, y)
		}
	case string, SymStr:
		switch op {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return tm.Not(in.strLess(b, a))
		case token.GEQ:
			return tm.Not(in.strLess(a, b))
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return in.fl(t, x+y)
		case token.SUB:
			return in.fl(t, x-y)
		case token.MUL:
			return in.fl(t, x*y)
		case token.QUO:
			return in.fl(t, x/y)
		case token.LSS:
			return tm.Bool(x < y)
		case token.LEQ:
			return tm.Bool(x <= y)
		case token.GTR:
			return tm.Bool(x > y)
		case token.GEQ:
			return tm.Bool(x >= y)
		}
	}
	panic(engineErr("binop %s on %T,%T", op, a, b))
}

func (in *Interp) fl(t types.Type, f float64) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (in *Interp) eqOp(a, b Value) *Term {
	// comparisons with nil literals arrive with matching dynamic kinds
	switch x := a.(type) {
	case []Value:
		if y, ok := b.([]Value); ok {
			return in.tm.Bool((x == nil) == (y == nil) && (x == nil || y == nil))
		}
	case Iface:
		if _, ok := b.(Iface); !ok {
			if b == nil {
				return in.tm.Bool(x.t == nil)
			}
			// comparison of interface with concrete value
			panic(engineErr("mixed interface comparison with %T", b))
		}
	}
	return in.equals(a, b)
}

func (in *Interp) shift(op token.Token, x, y *Term, signed bool, bt types.Type) Value {
	tm := in.tm
	if isSigned(bt) {
		neg := tm.Slt(y, tm.Const(0, y.w))
		if in.path.branch(neg) {
			in.rtPanic("negative shift amount")
		}
	}
	var cnt *Term
	if y.w > x.w {
		big := tm.Ule(tm.Const(uint64(x.w), y.w), y)
		low := tm.Extract(y, x.w-1, 0)
		if big.isConst() {
			if big.val != 0 {
				cnt = tm.Const(uint64(x.w), x.w)
			} else {
				cnt = low
			}
		} else {
			cnt = tm.Ite(big, tm.Const(uint64(x.w), x.w), low)
		}
	} else {
		cnt = tm.ZExt(y, x.w)
	}
	if op == token.SHL {
		return tm.Shl(x, cnt)
	}
	if signed {
		return tm.AShr(x, cnt)
	}
	return tm.LShr(x, cnt)
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	tm := in.tm
	fu, tu := from.Underlying(), to.Underlying()
	if w, _, ok := isIntType(to); ok {
		switch x := v.(type) {
		case *Term:
			return in.ext(x, isSigned(from), w)
		case float64:
			if isSigned(to) {
				return tm.Const(uint64(int64(x)), w)
			}
			return tm.Const(uint64(x), w)
		case *Value: // unsafe.Pointer -> uintptr
			return in.ptrInt(x)
		}
	}
	switch tb := tu.(type) {
	case *types.Basic:
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, SymStr:
				return v
			case []Value:
				if et, ok := fu.(*types.Slice); ok {
					if w, _, _ := isIntType(et.Elem()); w == 8 {
						return mkStr(in.sliceTerms(x))
					}
					// []rune
					var out []*Term
					for _, r := range x {
						out = append(out, in.encodeRune(r.(*Term))...)
					}
					return mkStr(out)
				}
			case *Term:
				r := in.ext(x, isSigned(from), 64)
				bad := tm.Ult(tm.Const(0x10FFFF, 64), r)
				if in.path.branch(bad) {
					return "\uFFFD"
				}
				return mkStr(in.encodeRune(tm.Extract(r, 31, 0)))
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case float64:
				return in.fl(to, x)
			case *Term:
				u := in.path.concretize(x)
				if isSigned(from) {
					return in.fl(to, float64(sext64(u, x.w)))
				}
				return in.fl(to, float64(u))
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if tb.Info()&types.IsComplex != 0 {
			return v
		}
	case *types.Slice:
		switch x := v.(type) {
		case string, SymStr:
			w, _, _ := isIntType(tb.Elem())
			if w == 8 {
				s := termsToSlice(in.strBytes(x))
				if s == nil {
					s = []Value{}
				}
				return s
			}
			out := []Value{}
			iter := &Iter{str: x, strN: strLen(x)}
			for iter.spos < iter.strN {
				b := in.strAt(x, iter.spos)
				if in.path.branch(tm.Ult(b, tm.Const(0x80, 8))) {
					iter.spos++
					out = append(out, tm.ZExt(b, 32))
					continue
				}
				hi := iter.spos + 4
				if hi > iter.strN {
					hi = iter.strN
				}
				res := in.call(in.top, in.ld.fn("unicode/utf8", "DecodeRuneInString"), []Value{strSlice(x, iter.spos, hi)}, nil).(Tuple)
				iter.spos += int(in.path.concretize(res[1].(*Term)))
				out = append(out, res[0])
			}
			return out
		case []Value:
			return x
		}
	case *types.Pointer:
		return v
	case *types.Array: // slice to array
		if s, ok := v.([]Value); ok {
			n := int(tb.Len())
			if len(s) < n {
				in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			return copyVal(Array(s[:n]))
		}
	}
	if fu == tu || types.Identical(fu, tu) {
		return v
	}
	panic(engineErr("convert %s -> %s of %T", from, to, v))
}

func (in *Interp) ptrInt(p *Value) *Term {
	if p == nil {
		return in.tm.Const(0, 64)
	}
	panic(engineErr("pointer to integer conversion"))
}

func (in *Interp) encodeRune(r *Term) []*Term {
	if r.isConst() {
		s := string(rune(int32(r.val)))
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = in.tm.Const(uint64(s[i]), 8)
		}
		return out
	}
	res := in.call(in.top, in.ld.fn("unicode/utf8", "AppendRune"), []Value{[]Value(nil), r}, nil).([]Value)
	return in.sliceTerms(res)
}
