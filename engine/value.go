package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a dynamic value of the interpreted program:
//
//	*Term        integers and booleans
//	string       concrete strings;  SymStr symbolic-content strings (concrete length)
//	float64, complex128
//	[]Value      slices;  Struct, Array aggregates;  *Value pointers
//	*Map, *FnVal, Iface, Tuple, *Chan, Poison, *Iter
type Value = any

type SymStr []*Term
type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type FnVal struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	native  func(in *Interp, fr *frame, args []Value) Value
	name    string
}

type Poison struct{ msg string }

// TimeVal marks modelled time inside time.Time structs (see intrinsics).

type mapEntry struct {
	k, v    Value
	deleted bool
	sym     bool
}

// Map is an insertion-ordered association list with a fast index for concrete keys.
type Map struct {
	ents []*mapEntry
	idx  map[string]*mapEntry
	n    int
	nsym int
}

func newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

type Iter struct {
	ents []*mapEntry
	m    *Map
	pos  int
	str  Value // string iteration
	spos int
	strN int
}

// concKey renders a fully concrete key canonically; ok is false when symbolic.
func concKey(v Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return "s" + v, true
	case SymStr:
		return "", false
	case *Term:
		if v.isConst() {
			return "i" + strconv.FormatUint(v.val, 10), true
		}
		return "", false
	case float64:
		return "f" + strconv.FormatFloat(v, 'g', -1, 64), true
	case Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, x := range v {
			k, ok := concKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(strconv.Itoa(len(k)))
			sb.WriteByte(':')
			sb.WriteString(k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, x := range v {
			k, ok := concKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(strconv.Itoa(len(k)))
			sb.WriteByte(':')
			sb.WriteString(k)
		}
		return sb.String(), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := concKey(v.v)
		return "I" + v.t.String() + "|" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *FnVal:
		return fmt.Sprintf("F%p", v), true
	}
	return "", false
}

// copyVal deep-copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					n[i] = copyVal(x)
				}
			default:
				copy(n, v)
			}
		}
		return n
	}
	return v
}

// storeInto assigns v to *dst keeping interior pointers valid.
func storeInto(dst *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return in.tm.False
		case u.Info()&types.IsInteger != 0:
			return in.tm.Const(0, intWidth(u))
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*FnVal)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, int(u.Len()))
		if len(a) > 0 {
			z := in.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	panic(engineErr("zero: unsupported type %s", t))
}

// Chan is a minimal buffered channel for sequential use.
type Chan struct {
	q      []Value
	cap    int
	closed bool
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isIntType(t types.Type) (w int, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	return intWidth(b), b.Info()&types.IsUnsigned == 0, true
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case SymStr:
		return len(s)
	}
	panic(engineErr("strLen of %T", v))
}

func (in *Interp) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = in.tm.Const(uint64(s[i]), 8)
		}
		return out
	case SymStr:
		return s
	}
	panic(engineErr("strBytes of %T", v))
}

func (in *Interp) strAt(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return in.tm.Const(uint64(s[i]), 8)
	case SymStr:
		return s[i]
	}
	panic(engineErr("strAt of %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return SymStr(append([]*Term(nil), b...))
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.val)
	}
	return string(buf)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case SymStr:
		return mkStr(s[lo:hi])
	}
	panic(engineErr("strSlice of %T", v))
}

func (in *Interp) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, y := in.strBytes(a), in.strBytes(b)
	out := make([]*Term, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return mkStr(out)
}

func (in *Interp) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return in.tm.False
	}
	if len(a) == 0 {
		return in.tm.True
	}
	for i := range a {
		if a[i].isConst() && b[i].isConst() && a[i].val != b[i].val {
			return in.tm.False
		}
	}
	return in.tm.Eq(in.tm.Concat(a...), in.tm.Concat(b...))
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.tm.Bool(x == y)
		}
	}
	return in.bytesEq(in.strBytes(a), in.strBytes(b))
}

// strLess builds the lexicographic a < b term.
func (in *Interp) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.tm.Bool(x < y)
		}
	}
	return in.bytesLess(in.strBytes(a), in.strBytes(b))
}

func (in *Interp) bytesLess(x, y []*Term) *Term {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := in.tm.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = in.tm.Or(in.tm.Ult(x[i], y[i]), in.tm.And(in.tm.Eq(x[i], y[i]), r))
	}
	return r
}

func (in *Interp) sliceTerms(v []Value) []*Term {
	out := make([]*Term, len(v))
	for i, x := range v {
		t, ok := x.(*Term)
		if !ok {
			panic(engineErr("sliceTerms: element %T", x))
		}
		out[i] = t
	}
	return out
}

func termsToSlice(ts []*Term) []Value {
	out := make([]Value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// equals builds the equality term of two values of the same static type.
func (in *Interp) equals(a, b Value) *Term {
	tm := in.tm
	switch x := a.(type) {
	case *Term:
		return tm.Eq(x, b.(*Term))
	case string, SymStr:
		return in.strEq(a, b)
	case float64:
		return tm.Bool(x == b.(float64))
	case complex128:
		return tm.Bool(x == b.(complex128))
	case *Value:
		y, _ := b.(*Value)
		return tm.Bool(x == y)
	case *Map:
		return tm.Bool(x == b.(*Map))
	case *Chan:
		return tm.Bool(x == b.(*Chan))
	case *FnVal:
		y, _ := b.(*FnVal)
		return tm.Bool(x == y)
	case []Value:
		y := b.([]Value)
		return tm.Bool(x == nil && y == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(engineErr("iface compare with %T", b))
		}
		if x.t == nil || y.t == nil {
			return tm.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tm.False
		}
		switch x.v.(type) {
		case []Value, *Map, *FnVal:
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.equals(x.v, y.v)
	case Struct:
		y := b.(Struct)
		var cs []*Term
		for i := range x {
			cs = append(cs, in.equals(x[i], y[i]))
		}
		return tm.And(cs...)
	case Array:
		y := b.(Array)
		if len(x) > 0 {
			if _, ok := x[0].(*Term); ok {
				return in.bytesEq(in.sliceTerms(x), in.sliceTerms(y))
			}
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, in.equals(x[i], y[i]))
		}
		return tm.And(cs...)
	case nil:
		return tm.Bool(b == nil)
	}
	panic(engineErr("equals: %T vs %T", a, b))
}

// ---- maps

func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if ck, ok := concKey(k); ok {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted || !e.sym {
				continue
			}
			if in.path.branch(in.equals(e.k, k)) {
				return e
			}
		}
		return nil
	}
	// interface keys: unhashable
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if in.path.branch(in.equals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		in.rtPanicPlain("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		e.sym = true
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (in *Interp) mapDelete(m *Map, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEntry(nil), m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
	m.n--
}
