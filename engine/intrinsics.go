package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function, c *fnCode) intrinsic {
	name := c.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	switch c.pkg {
	case vpkg:
		if i, ok := verifvIntr[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return i
		}
	case "sync/atomic", "internal/runtime/atomic":
		return atomicIntr(fn)
	}
	return nil
}

func simple(f func(in *Interp, args []Value) Value) intrinsic {
	return func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		return f(in, args), true
	}
}

func noop(v Value) intrinsic {
	return func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) { return v, true }
}

// zeroRes returns the zero results of the function.
func zeroRes(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
	return in.zeroResult(fn), true
}

func (in *Interp) i64(n int) *Term { return in.tm.Const(uint64(int64(n)), 64) }

// bytesOf accepts []byte slices and strings.
func (in *Interp) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case []Value:
		return in.sliceTerms(x)
	default:
		return in.strBytes(x)
	}
}

// leafConsts lists the constants an ite tree can evaluate to (nil when unknown or too many).
func leafConsts(t *Term, max int) []uint64 {
	var out []uint64
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.isConst() {
			out = append(out, t.val)
			return len(out) <= max
		}
		if t.op == opIte {
			return walk(t.args[1]) && walk(t.args[2])
		}
		return false
	}
	if !walk(t) {
		return nil
	}
	return out
}

// pred builds the term pred(b) for a byte term from a concrete predicate over all byte values, as a disjunction of ranges.
func (in *Interp) pred(b *Term, f func(c byte) bool) *Term {
	tm := in.tm
	if b.isConst() {
		return tm.Bool(f(byte(b.val)))
	}
	if ls := leafConsts(b, 64); ls != nil {
		all, none := true, true
		for _, v := range ls {
			if f(byte(v)) {
				none = false
			} else {
				all = false
			}
		}
		if all {
			return tm.True
		}
		if none {
			return tm.False
		}
	}
	lo, hi := urange(b)
	var ors []*Term
	for i := int(lo); i <= int(hi) && i < 256; {
		if !f(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 <= int(hi) && j+1 < 256 && f(byte(j+1)) {
			j++
		}
		switch {
		case i == j:
			ors = append(ors, tm.Eq(b, tm.Const(uint64(i), 8)))
		case i == 0:
			ors = append(ors, tm.Ule(b, tm.Const(uint64(j), 8)))
		case j == 255:
			ors = append(ors, tm.Ule(tm.Const(uint64(i), 8), b))
		default:
			ors = append(ors, tm.And(tm.Ule(tm.Const(uint64(i), 8), b), tm.Ule(b, tm.Const(uint64(j), 8))))
		}
		i = j + 1
	}
	return tm.Or(ors...)
}

const hexDigits = "0123456789abcdef"

func (in *Interp) hexByte(b *Term) (hi, lo *Term) {
	tm := in.tm
	if b.isConst() {
		return tm.Const(uint64(hexDigits[b.val>>4]), 8), tm.Const(uint64(hexDigits[b.val&15]), 8)
	}
	if p, ok := in.hexEnc[b.id]; ok {
		return p[0], p[1]
	}
	tab := make([]*Term, 16)
	for i := range tab {
		tab[i] = tm.Const(uint64(hexDigits[i]), 8)
	}
	hi = in.iteTable(tab, tm.ZExt(tm.Extract(b, 7, 4), 64))
	lo = in.iteTable(tab, tm.ZExt(tm.Extract(b, 3, 0), 64))
	in.hexEnc[b.id] = [2]*Term{hi, lo}
	in.hexDec[[2]int{hi.id, lo.id}] = b
	in.hexChar[hi.id], in.hexChar[lo.id] = true, true
	return hi, lo
}

func (in *Interp) hexTerms(bs []*Term) []*Term {
	out := make([]*Term, 0, 2*len(bs))
	for _, b := range bs {
		h, l := in.hexByte(b)
		out = append(out, h, l)
	}
	return out
}

// unhex decodes pairs produced by hexByte; ok is false if any pair is unknown.
func (in *Interp) unhex(ts []*Term) ([]*Term, bool) {
	if len(ts)%2 != 0 {
		return nil, false
	}
	var out []*Term
	for i := 0; i < len(ts); i += 2 {
		if ts[i].isConst() && ts[i+1].isConst() {
			a := strings.IndexByte(hexDigits, byte(ts[i].val))
			b := strings.IndexByte(hexDigits, byte(ts[i+1].val))
			if a < 0 || b < 0 {
				return nil, false
			}
			out = append(out, in.tm.Const(uint64(a<<4|b), 8))
			continue
		}
		b, ok := in.hexDec[[2]int{ts[i].id, ts[i+1].id}]
		if !ok {
			return nil, false
		}
		out = append(out, b)
	}
	return out, true
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

// indexByte finds the first occurrence by forking.
func (in *Interp) indexByte(bs []*Term, c *Term) Value {
	for i, b := range bs {
		if in.path.branch(in.tm.Eq(b, c)) {
			return in.i64(i)
		}
	}
	return in.i64(-1)
}

func (in *Interp) lastIndexByte(bs []*Term, c *Term) Value {
	for i := len(bs) - 1; i >= 0; i-- {
		if in.path.branch(in.tm.Eq(bs[i], c)) {
			return in.i64(i)
		}
	}
	return in.i64(-1)
}

func (in *Interp) indexSub(a, b []*Term) Value {
	if len(b) == 0 {
		return in.i64(0)
	}
	for i := 0; i+len(b) <= len(a); i++ {
		if in.path.branch(in.bytesEq(a[i:i+len(b)], b)) {
			return in.i64(i)
		}
	}
	return in.i64(-1)
}

func (in *Interp) compareBytes(a, b []*Term) Value {
	tm := in.tm
	return tm.Ite(in.bytesLess(a, b), tm.Const(^uint64(0), 64), tm.Ite(in.bytesEq(a, b), tm.Const(0, 64), tm.Const(1, 64)))
}

func (in *Interp) method(t types.Type, name string) *ssa.Function {
	k := methKey{t, "?" + name}
	if f, ok := in.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := in.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		f = in.prog.MethodValue(sel)
	}
	in.methods[k] = f
	return f
}

// errText calls Error or String.
func (in *Interp) stringer(i Iface) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	for _, n := range []string{"Error", "String"} {
		f := in.method(i.t, n)
		if f == nil {
			continue
		}
		sig := f.Signature
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		if p, ok := i.v.(*Value); ok && p == nil {
			return "<nil>", true
		}
		return in.call(in.top, f, []Value{copyVal(i.v)}, nil), true
	}
	return nil, false
}

// sprint formats one operand.
func (in *Interp) fmtVal(i Iface, verb byte, flags string, width, prec int) Value {
	native := func(v any) Value {
		f := "%" + flags
		if width >= 0 {
			f += strconv.Itoa(width)
		}
		if prec >= 0 {
			f += "." + strconv.Itoa(prec)
		}
		return fmt.Sprintf(f+string(verb), v)
	}
	if i.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 'v' {
				return "<nil>"
			}
			return "%!s(<nil>)"
		}
		return native(nil)
	}
	if verb == 'T' {
		return i.t.String()
	}
	if strings.IndexByte("vsxXq", verb) >= 0 && !strings.Contains(flags, "#") {
		if s, ok := in.stringer(i); ok {
			return in.fmtStr(s, verb, flags, width, prec)
		}
	}
	return in.fmtRaw(i.t, i.v, verb, flags, width, prec, native)
}

func (in *Interp) pad(s Value, flags string, width int) Value {
	n := strLen(s) // byte count; rune count for concrete strings
	if c, ok := s.(string); ok {
		n = utf8.RuneCountInString(c)
	}
	if width > n {
		sp := strings.Repeat(" ", width-n)
		if strings.Contains(flags, "-") {
			return in.strConcat(s, sp)
		}
		return in.strConcat(sp, s)
	}
	return s
}

func (in *Interp) fmtStr(s Value, verb byte, flags string, width, prec int) Value {
	if c, ok := s.(string); ok {
		f := "%" + flags
		if width >= 0 {
			f += strconv.Itoa(width)
		}
		if prec >= 0 {
			f += "." + strconv.Itoa(prec)
		}
		return fmt.Sprintf(f+string(verb), c)
	}
	if verb == 'v' && strings.Contains(flags, "#") {
		verb, flags = 'q', ""
	}
	switch verb {
	case 'x':
		return in.pad(mkStr(in.hexTerms(in.strBytes(s))), flags, width)
	case 'q':
		in.path.opaque++
		return in.strConcat(in.strConcat("\"", s), "\"")
	}
	return in.pad(s, flags, width)
}

func (in *Interp) fmtRaw(t types.Type, v Value, verb byte, flags string, width, prec int, native func(any) Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if u.Info()&types.IsBoolean != 0 {
				b := false
				if x.isConst() {
					b = x.val != 0
				} else {
					b = in.path.branch(x)
				}
				return native(b)
			}
			if !x.isConst() {
				if s, ok := in.fmt10(x, u); ok && (verb == 'd' || verb == 'v') && width < 0 {
					return s
				}
				if x.w == 8 && verb == 'x' && !isSigned(t) && flags == "0" && width == 2 {
					return mkStr(in.hexTerms([]*Term{x}))
				}
				if x.w <= 8 && verb == 'c' {
					return mkStr([]*Term{x})
				}
				in.path.opaque++
				return "‹n›"
			}
			if isSigned(t) {
				n := sext64(x.val, x.w)
				switch x.w {
				case 32:
					return native(int32(n))
				case 8:
					return native(int8(n))
				}
				return native(n)
			}
			switch x.w {
			case 8:
				return native(uint8(x.val))
			}
			return native(x.val)
		case string, SymStr:
			return in.fmtStr(v, verb, flags, width, prec)
		case float64:
			return native(x)
		}
	case *types.Slice, *types.Array:
		var es []Value
		var et types.Type
		switch y := v.(type) {
		case []Value:
			es = y
		case Array:
			es = []Value(y)
		}
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		if w, signed, ok := isIntType(et); ok && w == 8 && !signed {
			ts := in.sliceTerms(es)
			if verb == 's' || verb == 'x' || verb == 'q' {
				return in.fmtStr(mkStr(ts), verb, flags, width, prec)
			}
			if allConst(ts) {
				b := make([]byte, len(ts))
				for i := range b {
					b[i] = byte(ts[i].val)
				}
				return native(b)
			}
			in.path.opaque++
			return "‹bytes›"
		}
		var out Value = "["
		for k, e := range es {
			if k > 0 {
				out = in.strConcat(out, " ")
			}
			ie, ok := e.(Iface)
			if !ok {
				ie = Iface{et, e}
			}
			out = in.strConcat(out, in.fmtVal(ie, verb, flags, -1, -1))
		}
		return in.strConcat(out, "]")
	case *types.Interface:
		if i, ok := v.(Iface); ok {
			return in.fmtVal(i, verb, flags, width, prec)
		}
	}
	return "‹" + t.String() + "›"
}

// fmt10 renders a symbolic 64-bit time-like integer as 19 opaque digits (values in [1e18, 2^63)).
func (in *Interp) fmt10(x *Term, u *types.Basic) (Value, bool) {
	if x.w != 64 {
		return nil, false
	}
	tm := in.tm
	lo := tm.Const(1000000000000000000, 64)
	rng := tm.And(tm.Ule(lo, x), tm.Slt(lo, x))
	if in.path.implied(rng) != 1 {
		r, _ := in.path.check(tm.Not(rng))
		if r != Unsat {
			return nil, false
		}
	}
	f := tm.UF("fmt10", 19*8, x)
	out := make([]*Term, 19)
	for i := range out {
		out[i] = tm.Extract(f, (18-i)*8+7, (18-i)*8)
	}
	return mkStr(out), true
}

func (in *Interp) sprintf(format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		// symbolic format: no directives unless a byte is '%'
		for _, b := range in.strBytes(format) {
			if in.path.branch(in.tm.Eq(b, in.tm.Const('%', 8))) {
				in.path.opaque++
				return format
			}
		}
		return format
	}
	var out Value = ""
	argi := 0
	lit := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			i++
			continue
		}
		if lit < i {
			out = in.strConcat(out, f[lit:i])
		}
		i++
		start := i
		for i < len(f) && strings.IndexByte("#0- +", f[i]) >= 0 {
			i++
		}
		flags := f[start:i]
		width, prec := -1, -1
		num := func() int {
			if i < len(f) && f[i] == '*' {
				i++
				if argi < len(args) {
					t := args[argi].(Iface).v.(*Term)
					argi++
					return int(int64(in.path.concretize(t)))
				}
				return -1
			}
			n, any := 0, false
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				n = n*10 + int(f[i]-'0')
				i++
				any = true
			}
			if !any {
				return -1
			}
			return n
		}
		width = num()
		if i < len(f) && f[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i >= len(f) {
			out = in.strConcat(out, "%!(NOVERB)")
			lit = i
			break
		}
		r, sz := utf8.DecodeRuneInString(f[i:])
		i += sz
		lit = i
		if r == '%' {
			out = in.strConcat(out, "%")
			continue
		}
		verb := byte(r)
		if argi >= len(args) {
			out = in.strConcat(out, "%!"+string(r)+"(MISSING)")
			continue
		}
		a := args[argi].(Iface)
		argi++
		if verb == 'w' {
			verb = 'v'
		}
		out = in.strConcat(out, in.fmtVal(a, verb, flags, width, prec))
	}
	if lit < len(f) {
		out = in.strConcat(out, f[lit:])
	}
	if argi < len(args) {
		out = in.strConcat(out, "%!(EXTRA)")
	}
	return out
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	var out Value = ""
	prevStr := true
	for k, a := range args {
		i := a.(Iface)
		isStr := false
		if i.t != nil {
			if b, ok := i.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
		}
		if k > 0 && (ln || (!isStr && !prevStr)) {
			out = in.strConcat(out, " ")
		}
		out = in.strConcat(out, in.fmtVal(i, 'v', "", -1, -1))
		prevStr = isStr
	}
	if ln {
		out = in.strConcat(out, "\n")
	}
	return out
}

// emit records console output.
func (in *Interp) emit(s Value) {
	if in.inInit > 0 {
		return
	}
	in.call(in.top, in.ld.fn(vpkg, "Emit"), []Value{s}, nil)
}

func (in *Interp) writeTo(w Value, s Value) Value {
	i := w.(Iface)
	if i.t == nil {
		in.nilDeref()
	}
	f := in.lookupMethod(i.t, nil, "Write")
	if f == nil {
		panic(engineErr("no Write method on %s", i.t))
	}
	bs := termsToSlice(in.strBytes(s))
	return in.call(in.top, f, []Value{copyVal(i.v), bs}, nil)
}

func (in *Interp) nres(s Value) Value {
	return Tuple{in.i64(strLen(s)), Iface{}}
}

func atomicIntr(fn *ssa.Function) intrinsic {
	name := fn.Name()
	recv := fn.Signature.Recv() != nil
	if recv {
		return nil // methods are small wrappers around the functions, interpreted
	}
	pre := func(p string) bool { return strings.HasPrefix(name, p) }
	return func(in *Interp, caller *frame, f *ssa.Function, args []Value) (Value, bool) {
		switch {
		case pre("Load"):
			return copyVal(*in.deref(args[0])), true
		case pre("Store"):
			storeInto(in.deref(args[0]), args[1])
			return nil, true
		case pre("Add"), pre("Xadd"):
			p := in.deref(args[0])
			*p = in.tm.Add((*p).(*Term), args[1].(*Term))
			return *p, true
		case pre("CompareAndSwap"), pre("Cas"):
			p := in.deref(args[0])
			if in.path.branch(in.equals(*p, args[1])) {
				storeInto(p, args[2])
				return in.tm.True, true
			}
			return in.tm.False, true
		case pre("Swap"):
			p := in.deref(args[0])
			o := copyVal(*p)
			storeInto(p, args[1])
			return o, true
		case pre("And"):
			p := in.deref(args[0])
			o := (*p).(*Term)
			*p = in.tm.BAnd(o, args[1].(*Term))
			return o, true
		case pre("Or"):
			p := in.deref(args[0])
			o := (*p).(*Term)
			*p = in.tm.BOr(o, args[1].(*Term))
			return o, true
		}
		return nil, false
	}
}

const timeTag = 0x3FFFFFFF

func timeExt(v Value) (*Term, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) < 2 {
		return nil, false
	}
	w, ok := s[0].(*Term)
	if !ok || !w.isConst() || w.val != timeTag {
		return nil, false
	}
	return s[1].(*Term), true
}

// nanosOf gives the unix nanoseconds of a time value if cheaply available.
func (in *Interp) nanosOf(v Value) (*Term, bool) {
	if e, ok := timeExt(v); ok {
		return e, true
	}
	s, ok := v.(Struct)
	if !ok {
		return nil, false
	}
	w, ok1 := s[0].(*Term)
	e, ok2 := s[1].(*Term)
	if !ok1 || !ok2 || !w.isConst() || !e.isConst() {
		return nil, false
	}
	r := in.call(in.top, in.timeMethod("UnixNano"), []Value{v}, nil)
	return r.(*Term), true
}

func (in *Interp) timeMethod(n string) *ssa.Function {
	t := in.ld.Pkgs["time"].Pkg.Scope().Lookup("Time").Type()
	return in.lookupMethod(t, nil, n)
}

func timeUn(f func(in *Interp, e *Term, args []Value) Value) intrinsic {
	return func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		e, ok := timeExt(args[0])
		if !ok {
			return nil, false
		}
		return f(in, e, args), true
	}
}

func timeBin(f func(in *Interp, a, b *Term) Value) intrinsic {
	return func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		_, ok1 := timeExt(args[0])
		_, ok2 := timeExt(args[1])
		if !ok1 && !ok2 {
			return nil, false
		}
		a, ok1 := in.nanosOf(args[0])
		b, ok2 := in.nanosOf(args[1])
		if !ok1 || !ok2 {
			panic(engineErr("time comparison of unsupported representation"))
		}
		return f(in, a, b), true
	}
}

// colorMethod: color package wrappers produce plain text.
func colorMethod(kind string) intrinsic {
	return func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		a := args[1:]
		switch kind {
		case "Sprint":
			return in.sprint(a[0].([]Value), false), true
		case "Sprintln":
			return in.sprint(a[0].([]Value), true), true
		case "Sprintf":
			return in.sprintf(a[0], a[1].([]Value)), true
		case "Print":
			in.emit(in.sprint(a[0].([]Value), false))
		case "Println":
			in.emit(in.sprint(a[0].([]Value), true))
		case "Printf":
			in.emit(in.sprintf(a[0], a[1].([]Value)))
		case "Fprint":
			return in.errOf(in.writeTo(a[0], in.sprint(a[1].([]Value), false))), true
		case "Fprintln":
			return in.errOf(in.writeTo(a[0], in.sprint(a[1].([]Value), true))), true
		case "Fprintf":
			return in.errOf(in.writeTo(a[0], in.sprintf(a[1], a[2].([]Value)))), true
		}
		return Iface{}, true
	}
}

func (in *Interp) errOf(r Value) Value { return r.(Tuple)[1] }

func (in *Interp) errorf(args []Value) Value {
	msg := in.sprintf(args[0], args[1].([]Value))
	f, _ := args[0].(string)
	var wrapped []Iface
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("#0- +.123456789", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(args[1].([]Value)) {
			if e, ok := args[1].([]Value)[n].(Iface); ok && e.t != nil {
				wrapped = append(wrapped, e)
			}
		}
		n++
	}
	if len(wrapped) == 1 && in.ld.wrapError != nil {
		v := new(Value)
		*v = Struct{msg, wrapped[0]}
		return Iface{t: in.ptrTo(in.ld.wrapError), v: v}
	}
	return in.mkError(msg)
}

func (in *Interp) ptrTo(t types.Type) types.Type {
	if p, ok := in.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	in.ptrs[t] = p
	return p
}

// deepEq implements reflect.DeepEqual.
func (in *Interp) deepEq(a, b Value) *Term {
	tm := in.tm
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return tm.False
		}
		if x.t == nil || y.t == nil {
			return tm.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tm.False
		}
		return in.deepEq(x.v, y.v)
	case []Value:
		y := b.([]Value)
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return tm.False
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, in.deepEq(x[i], y[i]))
		}
		return tm.And(cs...)
	case Array:
		y := b.(Array)
		var cs []*Term
		for i := range x {
			cs = append(cs, in.deepEq(x[i], y[i]))
		}
		return tm.And(cs...)
	case Struct:
		y := b.(Struct)
		var cs []*Term
		for i := range x {
			cs = append(cs, in.deepEq(x[i], y[i]))
		}
		return tm.And(cs...)
	case *Value:
		y := b.(*Value)
		if x == y {
			return tm.True
		}
		if x == nil || y == nil {
			return tm.False
		}
		return in.deepEq(*x, *y)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return tm.False
		}
		if x == nil {
			return tm.True
		}
		if x.n != y.n {
			return tm.False
		}
		var cs []*Term
		for _, e := range x.ents {
			o := in.mapFind(y, e.k)
			if o == nil {
				return tm.False
			}
			cs = append(cs, in.deepEq(e.v, o.v))
		}
		return tm.And(cs...)
	}
	return in.equals(a, b)
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(names string, f intrinsic) {
		for _, n := range strings.Fields(strings.ReplaceAll(names, ") ", ")\x00")) {
			intrinsics[strings.ReplaceAll(n, "\x00", " ")] = f
		}
	}
	reg1 := func(n string, f intrinsic) { intrinsics[n] = f }

	reg1("unique.Make", func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		k, ok := concKey(args[0])
		if !ok {
			return nil, false
		}
		k = fn.String() + k
		p := in.uniq[k]
		if p == nil {
			p = new(Value)
			*p = copyVal(args[0])
			in.uniq[k] = p
		}
		return Struct{p}, true
	})

	reg1("github.com/pquerna/otp/hotp.GenerateCodeCustom", func(in *Interp, caller *frame, fn *ssa.Function, args []Value) (Value, bool) {
		return in.call(caller, in.ld.fn(vpkg, "HotpCode"), args, nil), true
	})

	// --- bytes / strings kernels
	eqB := simple(func(in *Interp, a []Value) Value { return in.bytesEq(in.bytesOf(a[0]), in.bytesOf(a[1])) })
	reg("bytes.Equal internal/bytealg.Equal crypto/hmac.Equal", eqB)
	reg1("crypto/subtle.ConstantTimeCompare", simple(func(in *Interp, a []Value) Value {
		return in.tm.Ite(in.bytesEq(in.bytesOf(a[0]), in.bytesOf(a[1])), in.i64(1), in.i64(0))
	}))
	intrinsics["crypto/internal/fips140/subtle.ConstantTimeCompare"] = intrinsics["crypto/subtle.ConstantTimeCompare"]
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString bytes.IndexByte strings.IndexByte", simple(func(in *Interp, a []Value) Value {
		return in.indexByte(in.bytesOf(a[0]), a[1].(*Term))
	}))
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString bytes.LastIndexByte strings.LastIndexByte", simple(func(in *Interp, a []Value) Value {
		return in.lastIndexByte(in.bytesOf(a[0]), a[1].(*Term))
	}))
	reg("internal/bytealg.Count internal/bytealg.CountString", simple(func(in *Interp, a []Value) Value {
		n := 0
		for _, b := range in.bytesOf(a[0]) {
			if in.path.branch(in.tm.Eq(b, a[1].(*Term))) {
				n++
			}
		}
		return in.i64(n)
	}))
	reg("internal/bytealg.Compare bytes.Compare internal/bytealg.CompareString strings.Compare", simple(func(in *Interp, a []Value) Value {
		return in.compareBytes(in.bytesOf(a[0]), in.bytesOf(a[1]))
	}))
	reg("strings.Index bytes.Index internal/stringslite.Index internal/bytealg.Index internal/bytealg.IndexString", simple(func(in *Interp, a []Value) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return in.i64(strings.Index(x, y))
		}
		return in.indexSub(in.bytesOf(a[0]), in.bytesOf(a[1]))
	}))
	reg("strings.LastIndex bytes.LastIndex", simple(func(in *Interp, a []Value) Value {
		x, y := in.bytesOf(a[0]), in.bytesOf(a[1])
		for i := len(x) - len(y); i >= 0; i-- {
			if in.path.branch(in.bytesEq(x[i:i+len(y)], y)) {
				return in.i64(i)
			}
		}
		return in.i64(-1)
	}))
	reg("strings.HasPrefix bytes.HasPrefix internal/stringslite.HasPrefix", simple(func(in *Interp, a []Value) Value {
		x, y := in.bytesOf(a[0]), in.bytesOf(a[1])
		if len(x) < len(y) {
			return in.tm.False
		}
		return in.bytesEq(x[:len(y)], y)
	}))
	reg("strings.HasSuffix bytes.HasSuffix internal/stringslite.HasSuffix", simple(func(in *Interp, a []Value) Value {
		x, y := in.bytesOf(a[0]), in.bytesOf(a[1])
		if len(x) < len(y) {
			return in.tm.False
		}
		return in.bytesEq(x[len(x)-len(y):], y)
	}))
	reg1("internal/bytealg.MakeNoZero", simple(func(in *Interp, a []Value) Value {
		n := int(in.path.concretize(a[0].(*Term)))
		s := make([]Value, n)
		for i := range s {
			s[i] = in.tm.Const(0, 8)
		}
		return s
	}))
	reg("strings.Clone internal/stringslite.Clone", simple(func(in *Interp, a []Value) Value { return a[0] }))
	reg1("strings.Repeat", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[1].(*Term)
		if !t.isConst() || int64(t.val) < 0 || int64(t.val)*int64(strLen(a[0])) > maxAlloc {
			return nil, false
		}
		bs := in.strBytes(a[0])
		var out []*Term
		for i := 0; i < int(t.val); i++ {
			out = append(out, bs...)
		}
		return mkStr(out), true
	})
	reg1("bytes.Repeat", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[1].(*Term)
		if !t.isConst() || int64(t.val) < 0 || int64(t.val)*int64(len(a[0].([]Value))) > maxAlloc {
			return nil, false
		}
		bs := a[0].([]Value)
		out := []Value{}
		for i := 0; i < int(t.val); i++ {
			out = append(out, bs...)
		}
		return out[:len(out):len(out)], true
	})
	for _, n := range []string{"strings.ToLower", "strings.ToUpper"} {
		n := n
		reg1(n, func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if s, ok := a[0].(string); ok {
				if n == "strings.ToLower" {
					return strings.ToLower(s), true
				}
				return strings.ToUpper(s), true
			}
			bs := in.strBytes(a[0])
			tm := in.tm
			var ascii []*Term
			for _, b := range bs {
				ascii = append(ascii, tm.Ult(b, tm.Const(0x80, 8)))
			}
			if !in.path.branch(tm.And(ascii...)) {
				return nil, false
			}
			out := make([]*Term, len(bs))
			for i, b := range bs {
				lo, hi, x := byte('A'), byte('Z'), uint64(0x20)
				if n == "strings.ToUpper" {
					lo, hi = 'a', 'z'
				}
				c := in.pred(b, func(c byte) bool { return c >= lo && c <= hi })
				out[i] = tm.Ite(c, tm.BXor(b, tm.Const(x, 8)), b)
			}
			return mkStr(out), true
		})
	}
	reg1("strings.EqualFold", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return in.tm.Bool(strings.EqualFold(x, y)), true
		}
		return nil, false
	})
	reg1("crypto/internal/fips140/alias.InexactOverlap", simple(func(in *Interp, a []Value) Value { return in.tm.False }))
	reg1("crypto/internal/fips140/alias.AnyOverlap", simple(func(in *Interp, a []Value) Value { return in.tm.False }))
	xor := simple(func(in *Interp, a []Value) Value {
		d, x, y := a[0].([]Value), a[1].([]Value), a[2].([]Value)
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if n == 0 {
			return in.i64(0)
		}
		if len(d) < n {
			in.rtPanicPlain("subtle.XORBytes: dst too short")
		}
		tx := in.tm.Concat(in.sliceTerms(x[:n])...)
		ty := in.tm.Concat(in.sliceTerms(y[:n])...)
		_ = tx
		_ = ty
		for i := 0; i < n; i++ {
			d[i] = in.tm.BXor(x[i].(*Term), y[i].(*Term))
		}
		return in.i64(n)
	})
	reg("crypto/subtle.XORBytes crypto/internal/fips140/subtle.XORBytes", xor)
	reg("crypto/internal/fips140.RecordApproved crypto/internal/fips140.RecordNonApproved crypto/internal/fips140only.Enforced", zeroRes)
	reg("crypto/internal/boring.Unreachable crypto/internal/boring.UnreachableExceptTests crypto/fips140.Enforced crypto/internal/fips140only.Enforced", zeroRes)

	// --- hex
	reg1("encoding/hex.EncodeToString", simple(func(in *Interp, a []Value) Value { return mkStr(in.hexTerms(in.bytesOf(a[0]))) }))
	reg1("encoding/hex.DecodeString", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		out, ok := in.unhex(in.strBytes(a[0]))
		if !ok {
			return nil, false
		}
		s := termsToSlice(out)
		return Tuple{s, Iface{}}, true
	})

	// --- fmt
	reg1("fmt.Sprintf", simple(func(in *Interp, a []Value) Value { return in.sprintf(a[0], a[1].([]Value)) }))
	reg1("fmt.Sprint", simple(func(in *Interp, a []Value) Value { return in.sprint(a[0].([]Value), false) }))
	reg1("fmt.Sprintln", simple(func(in *Interp, a []Value) Value { return in.sprint(a[0].([]Value), true) }))
	reg1("fmt.Errorf", simple(func(in *Interp, a []Value) Value { return in.errorf(a) }))
	reg1("fmt.Fprintf", simple(func(in *Interp, a []Value) Value { return in.writeTo(a[0], in.sprintf(a[1], a[2].([]Value))) }))
	reg1("fmt.Fprint", simple(func(in *Interp, a []Value) Value { return in.writeTo(a[0], in.sprint(a[1].([]Value), false)) }))
	reg1("fmt.Fprintln", simple(func(in *Interp, a []Value) Value { return in.writeTo(a[0], in.sprint(a[1].([]Value), true)) }))
	reg1("fmt.Printf", simple(func(in *Interp, a []Value) Value {
		s := in.sprintf(a[0], a[1].([]Value))
		in.emit(s)
		return in.nres(s)
	}))
	reg1("fmt.Print", simple(func(in *Interp, a []Value) Value {
		s := in.sprint(a[0].([]Value), false)
		in.emit(s)
		return in.nres(s)
	}))
	reg1("fmt.Println", simple(func(in *Interp, a []Value) Value {
		s := in.sprint(a[0].([]Value), true)
		in.emit(s)
		return in.nres(s)
	}))
	for _, k := range []string{"Sprint", "Sprintf", "Sprintln", "Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"} {
		intrinsics["(github.com/aarondl/color.Color)."+k] = colorMethod(k)
		intrinsics["(github.com/aarondl/color.Colors)."+k] = colorMethod(k)
	}

	// --- errors
	reg1("reflect.DeepEqual", simple(func(in *Interp, a []Value) Value { return in.deepEq(a[0], a[1]) }))
	reg1("errors.Is", simple(func(in *Interp, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for {
			if e.t == nil || t.t == nil {
				return in.tm.Bool(e.t == nil && t.t == nil)
			}
			if types.Comparable(e.t) && in.path.branch(in.equals(e, t)) {
				return in.tm.True
			}
			if f := in.method(e.t, "Is"); f != nil {
				if in.path.branch(in.call(in.top, f, []Value{e.v, t}, nil).(*Term)) {
					return in.tm.True
				}
			}
			f := in.method(e.t, "Unwrap")
			if f == nil {
				return in.tm.False
			}
			r, ok := in.call(in.top, f, []Value{e.v}, nil).(Iface)
			if !ok || r.t == nil {
				return in.tm.False
			}
			e = r
		}
	}))
	reg1("errors.As", simple(func(in *Interp, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			in.rtPanicPlain("errors: target must be a non-nil pointer")
		}
		et := pt.Elem()
		for e.t != nil {
			if _, isI := et.Underlying().(*types.Interface); isI {
				if in.implements(e.t, et) {
					storeInto(t.v.(*Value), e)
					return in.tm.True
				}
			} else if types.Identical(e.t, et) {
				storeInto(t.v.(*Value), copyVal(e.v))
				return in.tm.True
			}
			f := in.method(e.t, "Unwrap")
			if f == nil {
				break
			}
			r, ok := in.call(in.top, f, []Value{e.v}, nil).(Iface)
			if !ok {
				break
			}
			e = r
		}
		return in.tm.False
	}))

	// --- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "(*sync.Pool).Put",
		"internal/godebug.(*Setting).IncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register"} {
		reg1(n, zeroRes)
	}
	reg1("(*internal/godebug.Setting).Value", simple(func(in *Interp, a []Value) Value { return "" }))
	reg1("(*sync.Once).Do", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		p := in.deref(a[0])
		k := p
		if in.once[k] {
			return nil, true
		}
		in.once[k] = true
		in.callFn(in.top, a[1].(*FnVal), nil)
		return nil, true
	})
	reg1("(*sync.Pool).Get", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := (*in.deref(a[0])).(Struct)
		f, ok := s[len(s)-1].(*FnVal)
		if !ok || f == nil {
			return Iface{}, true
		}
		return in.callFn(in.top, f, nil), true
	})
	reg1("(*strings.Builder).copyCheck", noop(nil))
	reg1("internal/abi.NoEscape", simple(func(in *Interp, a []Value) Value { return a[0] }))
	reg1("internal/abi.Escape", simple(func(in *Interp, a []Value) Value { return a[0] }))
	reg1("runtime.Caller", zeroRes)
	reg1("internal/race.Acquire", zeroRes)

	// --- math
	reg1("math.archFloor", simple(func(in *Interp, a []Value) Value { return math.Floor(a[0].(float64)) }))
	reg1("math.Float64bits", simple(func(in *Interp, a []Value) Value { return in.tm.Const(math.Float64bits(a[0].(float64)), 64) }))
	reg1("math.Float64frombits", simple(func(in *Interp, a []Value) Value {
		return math.Float64frombits(in.path.concretize(a[0].(*Term)))
	}))
	for _, n := range []string{"Len", "Len64", "Len32", "TrailingZeros", "TrailingZeros64", "TrailingZeros32", "LeadingZeros64"} {
		n := n
		reg1("math/bits."+n, func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
			t := a[0].(*Term)
			if !t.isConst() {
				return nil, false
			}
			switch n {
			case "Len", "Len64", "Len32":
				return in.i64(bits.Len64(t.val)), true
			case "TrailingZeros", "TrailingZeros64":
				return in.i64(bits.TrailingZeros64(t.val)), true
			case "TrailingZeros32":
				return in.i64(bits.TrailingZeros32(uint32(t.val))), true
			}
			return in.i64(bits.LeadingZeros64(t.val)), true
		})
	}

	// --- sort
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		n := n
		reg1(n, simple(func(in *Interp, a []Value) Value {
			s := a[0].(Iface).v.([]Value)
			less := a[1].(*FnVal)
			// insertion sort by adjacent swaps: a valid (stable) behaviour of both
			for i := 1; i < len(s); i++ {
				for j := i; j > 0; j-- {
					r := in.callFn(in.top, less, []Value{in.i64(j), in.i64(j - 1)}).(*Term)
					if !in.path.branch(r) {
						break
					}
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		}))
	}

	reg1("sort.SliceIsSorted", simple(func(in *Interp, a []Value) Value {
		s := a[0].(Iface).v.([]Value)
		less := a[1].(*FnVal)
		for i := len(s) - 1; i > 0; i-- {
			if in.path.branch(in.callFn(in.top, less, []Value{in.i64(i), in.i64(i - 1)}).(*Term)) {
				return in.tm.Bool(false)
			}
		}
		return in.tm.Bool(true)
	}))

	// --- strconv of opaque digits
	parse10 := func(in *Interp, s Value) (*Term, bool) {
		bs, ok := s.(SymStr)
		if !ok || len(bs) != 19 {
			return nil, false
		}
		c := in.tm.Concat(bs...)
		if c.op == opUF && c.name == "fmt10" {
			return c.args[0], true
		}
		return nil, false
	}
	reg1("strconv.FormatInt", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		t, b := a[0].(*Term), a[1].(*Term)
		if t.isConst() && b.isConst() {
			return strconv.FormatInt(int64(t.val), int(b.val)), true
		}
		if b.isConst() && b.val == 10 {
			if s, ok := in.fmt10(t, nil); ok {
				return s, true
			}
		}
		return nil, false
	})
	reg1("strconv.Itoa", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.Itoa(int(int64(t.val))), true
		}
		return nil, false
	})
	reg1("strconv.ParseInt", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		if x, ok := parse10(in, a[0]); ok {
			return Tuple{x, Iface{}}, true
		}
		return nil, false
	})

	// --- time
	reg1("time.Unix", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s, n := a[0].(*Term), a[1].(*Term)
		if s.isConst() && n.isConst() {
			return nil, false
		}
		if s.isConst() && s.val == 0 {
			return Struct{in.tm.Const(timeTag, 64), n, (*Value)(nil)}, true
		}
		return Struct{in.tm.Const(timeTag, 64), in.tm.Add(in.tm.Mul(s, in.tm.Const(1000000000, 64)), n), (*Value)(nil)}, true
	})
	reg1("(time.Time).UnixNano", timeUn(func(in *Interp, e *Term, a []Value) Value { return e }))
	reg1("(time.Time).Unix", timeUn(func(in *Interp, e *Term, a []Value) Value { return in.tm.div(opSDiv, e, in.tm.Const(1000000000, 64)) }))
	reg1("(time.Time).UnixMilli", timeUn(func(in *Interp, e *Term, a []Value) Value { return in.tm.div(opSDiv, e, in.tm.Const(1000000, 64)) }))
	reg1("(time.Time).IsZero", timeUn(func(in *Interp, e *Term, a []Value) Value { return in.tm.False }))
	for _, n := range []string{"UTC", "Local", "In"} {
		reg1("(time.Time)."+n, timeUn(func(in *Interp, e *Term, a []Value) Value { return copyVal(a[0]) }))
	}
	for _, n := range []string{"Round", "Truncate"} {
		up := n == "Round"
		reg1("(time.Time)."+n, timeUn(func(in *Interp, e *Term, a []Value) Value {
			d, ok := a[1].(*Term)
			if !ok || !d.isConst() {
				panic(engineErr("symbolic time rounding"))
			}
			if int64(d.val) <= 0 {
				return copyVal(a[0])
			}
			// The zero time is 62135596800 s before the epoch.
			tm := in.tm
			off := new(big.Int).Mul(big.NewInt(62135596800), big.NewInt(1000000000))
			off.Mod(off, big.NewInt(int64(d.val)))
			c := func(v uint64) *Term { return tm.Const(v, 64) }
			r := tm.Add(tm.div(opSRem, e, d), c(off.Uint64()))
			r = tm.Ite(tm.Slt(r, c(0)), tm.Add(r, d), r)
			r = tm.Ite(tm.Slt(r, d), r, tm.Sub(r, d))
			t := tm.Sub(e, r)
			if up {
				t = tm.Ite(tm.Slt(tm.Add(r, r), d), t, tm.Add(t, d))
			}
			return Struct{tm.Const(timeTag, 64), t, (*Value)(nil)}
		}))
	}
	for _, n := range []string{"Format", "String"} {
		reg1("(time.Time)."+n, func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
			if e, ok := in.nanosOf(a[0]); ok && e.isConst() {
				t := time.Unix(0, int64(e.val))
				if s := a[0].(Struct); len(s) > 2 {
					if l, ok := s[2].(*Value); ok && l == nil {
						t = t.UTC()
					}
				}
				if len(a) == 1 {
					return t.String(), true
				}
				if l, ok := a[1].(string); ok {
					return t.Format(l), true
				}
			}
			in.path.opaque++
			return "‹time›", true
		})
	}
	reg1("(time.Time).Before", timeBin(func(in *Interp, a, b *Term) Value { return in.tm.Slt(a, b) }))
	reg1("(time.Time).After", timeBin(func(in *Interp, a, b *Term) Value { return in.tm.Slt(b, a) }))
	reg1("(time.Time).Equal", timeBin(func(in *Interp, a, b *Term) Value { return in.tm.Eq(a, b) }))
	reg1("(time.Time).Sub", timeBin(func(in *Interp, a, b *Term) Value { return in.tm.Sub(a, b) }))
	reg1("(time.Time).Add", timeUn(func(in *Interp, e *Term, a []Value) Value {
		return Struct{in.tm.Const(timeTag, 64), in.tm.Add(e, a[1].(*Term)), (*Value)(nil)}
	}))

	// --- json
	reg1("encoding/json.Marshal", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return in.jsonMarshal(a[0].(Iface), "", ""), true
	})
	reg1("encoding/json.MarshalIndent", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		p, ok1 := a[1].(string)
		i, ok2 := a[2].(string)
		if !ok1 || !ok2 {
			panic(engineErr("symbolic json indent"))
		}
		return in.jsonMarshal(a[0].(Iface), p, i), true
	})
	reg1("encoding/json.Unmarshal", func(in *Interp, caller *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return in.jsonUnmarshal(a[0].([]Value), a[1].(Iface)), true
	})
	reg1("os.Getenv", noop(""))
	reg1("golang.org/x/exp/rand.Seed", zeroRes)
}
