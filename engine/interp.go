package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	slot int
	c    Value
	g    *ssa.Global
}

type inst struct {
	i   ssa.Instruction
	dst int
	ops []operand
	fus bool // IndexAddr fused with the following load
}

type block struct {
	insts []inst
	phis  []inst
	succ  []int
	// if-conversion
}

type fnCode struct {
	fn     *ssa.Function
	nslots int
	blocks []block
	params int
	intr   intrinsic
	name   string
	pkg    string
	repo   bool
	hasDef int
}

type deferred struct {
	fn   *FnVal
	args []Value
}

type targetPanic struct {
	v     Value // Iface
	where string
}

type frame struct {
	in       *Interp
	code     *fnCode
	env      []Value
	caller   *frame
	defers   []deferred
	result   Value
	panicking bool
	panicV   *targetPanic
	recovered bool
	depth    int
	cur      ssa.Instruction
	stored   map[*ssa.Global]bool
}

// Interp executes SSA for one worker.
type Interp struct {
	ld      *Loaded
	prog    *ssa.Program
	tm      *TM
	sol     *Solver
	path    *Path
	code    map[*ssa.Function]*fnCode
	fnvals  map[*ssa.Function]*FnVal
	shared  map[*ssa.Global]*Value
	local   map[*ssa.Global]*Value
	initedS map[*ssa.Package]bool
	initedL map[*ssa.Package]bool
	inInit  int
	funcs   map[*ssa.Function]int // encoded functions of the repo (per worker)
	methods map[methKey]*ssa.Function
	impl    map[implKey]bool
	top     *frame
	runs    map[*Value][]Value
	hexEnc  map[int][2]*Term
	hexDec  map[[2]int]*Term
	jsonMemo map[string]*jnode
	hexChar  map[int]bool
	once    map[*Value]bool
	ptrs    map[types.Type]types.Type
	uniq    map[string]*Value
}

type methKey struct {
	t types.Type
	n string
}
type implKey struct {
	t types.Type
	i types.Type
}

func NewInterp(ld *Loaded, st *Stats, solverBin string, tmo int) *Interp {
	in := &Interp{ld: ld, prog: ld.Prog, tm: NewTM(), code: map[*ssa.Function]*fnCode{}, fnvals: map[*ssa.Function]*FnVal{},
		shared: map[*ssa.Global]*Value{}, initedS: map[*ssa.Package]bool{}, funcs: map[*ssa.Function]int{},
		methods: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}, hexEnc: map[int][2]*Term{}, hexChar: map[int]bool{}, hexDec: map[[2]int]*Term{}, jsonMemo: map[string]*jnode{},
		ptrs: map[types.Type]types.Type{}, uniq: map[string]*Value{}}
	in.sol = NewSolver(in.tm, st, solverBin, tmo)
	in.tm.setModel(NewModel())
	return in
}

// ---------------------------------------------------------------- compile

func (in *Interp) compile(fn *ssa.Function) *fnCode {
	if c, ok := in.code[fn]; ok {
		return c
	}
	c := &fnCode{fn: fn, name: fn.String()}
	in.code[fn] = c
	if fn.Pkg != nil {
		c.pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		c.pkg = o.Pkg.Pkg.Path()
	}
	c.repo = in.ld.isRepo(c.pkg)
	c.intr = lookupIntrinsic(fn, c)
	if fn.Blocks == nil {
		return c
	}
	slots := map[ssa.Value]int{}
	n := 0
	alloc := func(v ssa.Value) int {
		slots[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	for _, f := range fn.FreeVars {
		alloc(f)
	}
	c.params = n
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	c.nslots = n
	mkop := func(v ssa.Value) operand {
		switch x := v.(type) {
		case *ssa.Const:
			return operand{slot: -1, c: in.constVal(x)}
		case *ssa.Function:
			return operand{slot: -1, c: in.fnVal(x)}
		case *ssa.Builtin:
			return operand{slot: -1, c: &FnVal{builtin: x, name: x.Name()}}
		case *ssa.Global:
			return operand{slot: -2, g: x}
		case nil:
			return operand{slot: -1}
		}
		s, ok := slots[v]
		if !ok {
			panic(engineErr("compile %s: no slot for %s (%T)", fn, v.Name(), v))
		}
		return operand{slot: s}
	}
	c.blocks = make([]block, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &c.blocks[bi]
		for _, s := range b.Succs {
			blk.succ = append(blk.succ, s.Index)
		}
		for k, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			it := inst{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				it.dst = slots[v]
			}
			switch x := i.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					it.ops = append(it.ops, mkop(e))
				}
				blk.phis = append(blk.phis, it)
				continue
			case *ssa.Slice:
				it.ops = []operand{mkop(x.X), mkop(orNil(x.Low)), mkop(orNil(x.High)), mkop(orNil(x.Max))}
			case *ssa.Call:
				it.ops = in.callOps(&x.Call, mkop)
			case *ssa.Defer:
				it.ops = in.callOps(&x.Call, mkop)
			case *ssa.Go:
				it.ops = in.callOps(&x.Call, mkop)
			case *ssa.IndexAddr:
				it.ops = []operand{mkop(x.X), mkop(x.Index)}
				if k+1 < len(b.Instrs) {
					if u, ok := b.Instrs[k+1].(*ssa.UnOp); ok && u.Op == token.MUL && u.X == x && x.Referrers() != nil && len(*x.Referrers()) == 1 {
						it.fus = true
					}
				}
			case *ssa.MakeMap:
				// reserve ignored
			case *ssa.Select:
				it.ops = nil
			default:
				var rands [8]*ssa.Value
				for _, r := range i.Operands(rands[:0]) {
					if r == nil || *r == nil {
						it.ops = append(it.ops, operand{slot: -1})
						continue
					}
					it.ops = append(it.ops, mkop(*r))
				}
			}
			blk.insts = append(blk.insts, it)
		}
	}
	return c
}

func orNil(v ssa.Value) ssa.Value {
	if v == nil {
		return nil
	}
	return v
}

func (in *Interp) callOps(c *ssa.CallCommon, mkop func(ssa.Value) operand) []operand {
	ops := []operand{mkop(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mkop(a))
	}
	return ops
}

func (in *Interp) fnVal(f *ssa.Function) *FnVal {
	if v, ok := in.fnvals[f]; ok {
		return v
	}
	v := &FnVal{fn: f}
	in.fnvals[f] = v
	return v
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineErr("const of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.tm.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.tm.Const(uint64(i), intWidth(b))
		}
		u, _ := constant.Uint64Val(v)
		return in.tm.Const(u, intWidth(b))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	panic(engineErr("const kind %s", t))
}

// ---------------------------------------------------------------- globals

func (in *Interp) global(g *ssa.Global) *Value {
	pkg := g.Pkg
	if in.ld.isRepo(pkg.Pkg.Path()) {
		if p, ok := in.local[g]; ok {
			in.ensureInitLocal(pkg)
			return p
		}
		in.allocGlobals(pkg, in.local)
		in.ensureInitLocal(pkg)
		return in.local[g]
	}
	if p, ok := in.shared[g]; ok {
		in.ensureInitShared(pkg)
		return p
	}
	in.allocGlobals(pkg, in.shared)
	in.ensureInitShared(pkg)
	return in.shared[g]
}

func (in *Interp) allocGlobals(pkg *ssa.Package, m map[*ssa.Global]*Value) {
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			p := new(Value)
			*p = in.zero(g.Type().(*types.Pointer).Elem())
			m[g] = p
		}
	}
}

func (in *Interp) ensureInitShared(pkg *ssa.Package) {
	if in.initedS[pkg] {
		return
	}
	in.initedS[pkg] = true
	in.runInit(pkg)
}

func (in *Interp) ensureInitLocal(pkg *ssa.Package) {
	if in.initedL[pkg] {
		return
	}
	in.initedL[pkg] = true
	in.runInit(pkg)
}

func (in *Interp) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	in.inInit++
	savedSteps := in.path.steps
	defer func() {
		in.inInit--
		in.path.steps = savedSteps
	}()
	code := in.compile(fn)
	// the init guard is a global "init$guard"; run the body directly
	fr := &frame{in: in, code: code, env: make([]Value, code.nslots), depth: 1}
	in.runTolerant(fr)
}

// runTolerant executes an init function; instructions that cannot be executed yield Poison.
func (in *Interp) runTolerant(fr *frame) {
	fr.stored = map[*ssa.Global]bool{}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*engineError)
			if !ok {
				panic(r)
			}
			debugf("init of %s aborted: %s", fr.code.pkg, e.msg)
			for _, b := range fr.code.fn.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok && !fr.stored[g] {
							m := in.shared
							if in.ld.isRepo(g.Pkg.Pkg.Path()) {
								m = in.local
							}
							if p := m[g]; p != nil {
								*p = Poison{"init aborted: " + g.String() + ": " + e.msg}
							}
						}
					}
				}
			}
		}
	}()
	in.runBody(fr, true)
}

// ---------------------------------------------------------------- execution

func (fr *frame) get(o *operand) Value {
	if o.slot >= 0 {
		v := fr.env[o.slot]
		if p, ok := v.(Poison); ok {
			panic(engineErr("poison value used: %s", p.msg))
		}
		return v
	}
	if o.slot == -2 {
		return fr.in.global(o.g)
	}
	return o.c
}

func (in *Interp) callFn(caller *frame, f *FnVal, args []Value) Value {
	if f == nil {
		in.nilDeref()
	}
	if f.native != nil {
		return f.native(in, caller, args)
	}
	if f.builtin != nil {
		panic(engineErr("builtin %s called as value", f.builtin.Name()))
	}
	return in.call(caller, f.fn, args, f.env)
}

func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	code := in.compile(fn)
	if code.intr != nil {
		if r, ok := code.intr(in, caller, fn, args); ok {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(engineErr("unsupported function without body: %s", code.name))
	}
	depth := 1
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 2000 {
		in.path.drv.noteInconclusive("call-depth")
		panic(pathEnd{"call depth"})
	}
	if code.repo {
		in.funcs[fn]++
	}
	fr := &frame{in: in, code: code, caller: caller, depth: depth}
	fr.env = make([]Value, code.nslots)
	if len(args)+len(env) != code.params {
		panic(engineErr("call %s: %d args + %d free, want %d", code.name, len(args), len(env), code.params))
	}
	copy(fr.env, args)
	copy(fr.env[len(args):], env)
	in.runFrame(fr)
	return fr.result
}

// runFrame runs the body with defer/recover handling.
func (in *Interp) runFrame(fr *frame) {
	if fr.code.fn.Recover == nil && !hasDefer(fr.code) {
		in.runBody(fr, false)
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = true
			fr.panicV = tp
		}()
		in.runBody(fr, false)
	}()
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
		// recovered: run the recover block
		if rb := fr.code.fn.Recover; rb != nil {
			in.runFrom(fr, rb.Index, false)
		} else {
			fr.result = in.zeroResult(fr.code.fn)
		}
	}
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func hasDefer(c *fnCode) bool {
	if c.hasDef != 0 {
		return c.hasDef == 1
	}
	c.hasDef = 2
	for i := range c.blocks {
		for j := range c.blocks[i].insts {
			if _, ok := c.blocks[i].insts[j].i.(*ssa.Defer); ok {
				c.hasDef = 1
				return true
			}
		}
	}
	return false
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = true
				fr.panicV = tp
			}()
			in.callDeferred(fr, d)
		}()
	}
}

func (in *Interp) callDeferred(fr *frame, d deferred) {
	if d.fn == nil {
		in.nilDeref()
	}
	if d.fn.builtin != nil {
		in.builtin(fr, d.fn.builtin, d.args, nil)
		return
	}
	in.callFn(fr, d.fn, d.args)
}

func (in *Interp) runBody(fr *frame, tolerant bool) { in.runFrom(fr, 0, tolerant) }

func (in *Interp) runFrom(fr *frame, bi int, tolerant bool) {
	prev := -1
	p := in.path
	for {
		blk := &fr.code.blocks[bi]
		if len(blk.phis) > 0 {
			sb := fr.code.fn.Blocks[bi]
			edge := -1
			for k, pr := range sb.Preds {
				if pr.Index == prev {
					edge = k
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			for k := range blk.phis {
				vals = append(vals, fr.get(&blk.phis[k].ops[edge]))
			}
			for k := range blk.phis {
				fr.env[blk.phis[k].dst] = vals[k]
			}
		}
		next := -1
		for k := 0; k < len(blk.insts); k++ {
			it := &blk.insts[k]
			p.steps++
			if p.steps > p.stepLim {
				in.stepLimit(fr)
			}
			if p.steps&0xfff == 0 && !in.sol.hard.IsZero() && time.Now().After(in.sol.hard) {
				p.drv.noteInconclusive("out of time")
				panic(pathEnd{"out of time"})
			}
			fr.cur = it.i
			switch it.i.(type) {
			case *ssa.If:
				c := fr.get(&it.ops[0]).(*Term)
				if p.branch(c) {
					next = blk.succ[0]
				} else {
					next = blk.succ[1]
				}
			case *ssa.Jump:
				next = blk.succ[0]
			case *ssa.Return:
				switch len(it.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&it.ops[0])
				default:
					tu := make(Tuple, len(it.ops))
					for i := range it.ops {
						tu[i] = fr.get(&it.ops[i])
					}
					fr.result = tu
				}
				return
			case *ssa.Panic:
				v := fr.get(&it.ops[0])
				panic(&targetPanic{v: v, where: in.where(fr)})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.panicV)
				}
			default:
				if it.fus {
					in.fusedIndexLoad(fr, it, &blk.insts[k+1])
					k++
					p.steps++
					continue
				}
				if tolerant {
					in.execTolerant(fr, it)
				} else {
					in.exec(fr, it)
				}
			}
		}
		if next < 0 {
			panic(engineErr("fell off block in %s", fr.code.name))
		}
		prev, bi = bi, next
	}
}
