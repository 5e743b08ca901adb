package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	opConst Op = iota // width 0 (bool, val 0/1) or 1..64
	opVar
	opUF
	opNot
	opAnd
	opOr
	opEq
	opIte
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opBNot
	opShl
	opLShr
	opAShr
	opUlt
	opUle
	opSlt
	opSle
	opConcat
	opExtract // aux = lo; width gives size
	opZExt
	opSExt
)

var opNames = [...]string{"const", "var", "uf", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "concat", "extract", "zext", "sext"}

// Term is a hash-consed SMT term. Width 0 means Bool.
type Term struct {
	id   int
	op   Op
	w    int
	val  uint64
	name string
	args []*Term

	atoms    []int32
	hasAtoms bool

	evGen  int
	evVal  uint64
	evWide string

	emitted int // solver generation in which it was defined
}

// TM is a term manager (one per worker).
type TM struct {
	tab     map[string]*Term
	n       int
	small   [65][258]*Term
	True    *Term
	False   *Term
	atomIDs map[string]int32
	atomNames map[int32]string
	buf     []byte
	uf      map[string]*ufInfo
	evGenC  int
	model   *Model
}

type ufInfo struct {
	injective bool
	inverse   string
}

func NewTM() *TM {
	tm := &TM{tab: map[string]*Term{}, atomIDs: map[string]int32{}, uf: map[string]*ufInfo{}}
	tm.False = tm.intern(&Term{op: opConst, w: 0, val: 0})
	tm.True = tm.intern(&Term{op: opConst, w: 0, val: 1})
	return tm
}

func (tm *TM) intern(t *Term) *Term {
	b := tm.buf[:0]
	b = append(b, byte(t.op))
	b = binary.AppendUvarint(b, uint64(t.w))
	b = binary.AppendUvarint(b, t.val)
	if t.name != "" {
		b = append(b, t.name...)
		b = append(b, 0)
	}
	for _, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	tm.buf = b
	if e, ok := tm.tab[string(b)]; ok {
		return e
	}
	tm.n++
	t.id = tm.n
	tm.tab[string(b)] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tm *TM) Const(v uint64, w int) *Term {
	if w == 0 {
		if v != 0 {
			return tm.True
		}
		return tm.False
	}
	if w > 64 {
		panic("wide const")
	}
	v &= mask(w)
	if v < 257 {
		if t := tm.small[w][v]; t != nil {
			return t
		}
	}
	t := tm.intern(&Term{op: opConst, w: w, val: v})
	if v < 257 {
		tm.small[w][v] = t
	}
	return t
}

func (tm *TM) Bool(b bool) *Term {
	if b {
		return tm.True
	}
	return tm.False
}

func (tm *TM) Var(name string, w int) *Term {
	return tm.intern(&Term{op: opVar, w: w, name: name})
}

func (t *Term) isConst() bool { return t.op == opConst }

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// UF application. Args are wide bit-vectors; names encode argument widths.
func (tm *TM) UF(name string, w int, args ...*Term) *Term {
	if inf := tm.uf[name]; inf != nil && inf.inverse != "" && len(args) == 2 {
		a := args[1]
		if a.op == opUF && a.name == inf.inverse && len(a.args) == 2 && a.args[0] == args[0] {
			return a.args[1]
		}
	}
	return tm.intern(&Term{op: opUF, w: w, name: name, args: args})
}

func (tm *TM) Not(a *Term) *Term {
	switch a.op {
	case opConst:
		return tm.Bool(a.val == 0)
	case opNot:
		return a.args[0]
	case opUlt:
		return tm.intern(&Term{op: opUle, args: []*Term{a.args[1], a.args[0]}})
	case opUle:
		return tm.intern(&Term{op: opUlt, args: []*Term{a.args[1], a.args[0]}})
	case opSlt:
		return tm.intern(&Term{op: opSle, args: []*Term{a.args[1], a.args[0]}})
	case opSle:
		return tm.intern(&Term{op: opSlt, args: []*Term{a.args[1], a.args[0]}})
	}
	return tm.intern(&Term{op: opNot, args: []*Term{a}})
}

func (tm *TM) nary(op Op, in []*Term) *Term {
	// op is opAnd or opOr
	unit, zero := tm.True, tm.False
	if op == opOr {
		unit, zero = tm.False, tm.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[t.id] {
			seen[t.id] = true
			if seen[tm.Not(t).id] {
				return false
			}
			out = append(out, t)
		}
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tm.intern(&Term{op: op, args: out})
}

func (tm *TM) And(ts ...*Term) *Term { return tm.nary(opAnd, ts) }
func (tm *TM) Or(ts ...*Term) *Term  { return tm.nary(opOr, ts) }

func (tm *TM) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tm.True && b == tm.False {
			return c
		}
		if a == tm.False && b == tm.True {
			return tm.Not(c)
		}
		if a == tm.True {
			return tm.Or(c, b)
		}
		if a == tm.False {
			return tm.And(tm.Not(c), b)
		}
		if b == tm.True {
			return tm.Or(tm.Not(c), a)
		}
		if b == tm.False {
			return tm.And(c, a)
		}
	}
	if c.op == opNot {
		return tm.Ite(c.args[0], b, a)
	}
	return tm.intern(&Term{op: opIte, w: a.w, args: []*Term{c, a, b}})
}

// pieces flattens a concat.
func pieces(t *Term) []*Term {
	if t.op == opConcat {
		return t.args
	}
	return []*Term{t}
}

func (tm *TM) Eq(a, b *Term) *Term {
	if a == b {
		return tm.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tm.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tm.Not(a)
		}
	} else if b.isConst() {
		switch a.op {
		case opZExt:
			in := a.args[0]
			if b.val&^mask(in.w) != 0 {
				return tm.False
			}
			return tm.Eq(in, tm.Const(b.val, in.w))
		case opSExt:
			in := a.args[0]
			if uint64(sext64(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
				return tm.False
			}
			return tm.Eq(in, tm.Const(b.val, in.w))
		case opIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return tm.Ite(a.args[0], tm.Eq(x, b), tm.Eq(y, b))
			}
		case opAdd:
			if a.args[1].isConst() {
				return tm.Eq(a.args[0], tm.Const(b.val-a.args[1].val, a.w))
			}
		case opBXor:
			last := a.args[len(a.args)-1]
			if last.isConst() {
				return tm.Eq(tm.BXor(a.args[:len(a.args)-1]...), tm.Const(b.val^last.val, a.w))
			}
		case opBNot:
			return tm.Eq(a.args[0], tm.Const(^b.val, a.w))
		}
	}
	if a.op == opUF && b.op == opUF {
		if inf := tm.uf[a.name]; inf != nil && inf.injective {
			if a.name == b.name && len(a.args) == len(b.args) {
				var cs []*Term
				for i := range a.args {
					if a.args[i].w != b.args[i].w {
						return tm.False
					}
					cs = append(cs, tm.Eq(a.args[i], b.args[i]))
				}
				return tm.And(cs...)
			}
			if sameFamily(a.name, b.name) {
				return tm.False
			}
		}
	}
	if a.op == opZExt && b.op == opZExt && a.args[0].w == b.args[0].w {
		return tm.Eq(a.args[0], b.args[0])
	}
	if a.op == opConcat || b.op == opConcat {
		return tm.eqConcat(a, b)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tm.intern(&Term{op: opEq, args: []*Term{a, b}})
}

func sameFamily(a, b string) bool {
	i, j := strings.IndexByte(a, '@'), strings.IndexByte(b, '@')
	if i < 0 || j < 0 {
		return false
	}
	return a[:i] == b[:j]
}

// eqConcat compares bit strings piecewise where pieces align.
func (tm *TM) eqConcat(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	var conj []*Term
	i, j := 0, 0
	var ra, rb []*Term // pending pieces since last alignment
	wa, wb := 0, 0
	flush := func() bool {
		if len(ra) == 0 {
			return true
		}
		var c *Term
		if len(ra) == 1 && len(rb) == 1 {
			c = tm.Eq(ra[0], rb[0])
		} else {
			// try byte-wise const mismatch detection through extraction
			x, y := tm.Concat(ra...), tm.Concat(rb...)
			if x == y {
				c = tm.True
			} else if (x.op == opConcat || y.op == opConcat) && x.w%8 == 0 {
				// split to the finer partition
				var cs []*Term
				fine := x
				other := y
				if len(pieces(y)) > len(pieces(x)) {
					fine, other = y, x
				}
				off := fine.w
				for _, p := range pieces(fine) {
					off -= p.w
					e := tm.Extract(other, off+p.w-1, off)
					if e.op == opConcat || p.op == opConcat {
						cs = append(cs, tm.intern(&Term{op: opEq, args: []*Term{p, e}}))
					} else {
						cs = append(cs, tm.Eq(p, e))
					}
				}
				c = tm.And(cs...)
			} else {
				c = tm.intern(&Term{op: opEq, args: []*Term{x, y}})
			}
		}
		ra, rb = nil, nil
		wa, wb = 0, 0
		if c == tm.False {
			return false
		}
		conj = append(conj, c)
		return true
	}
	for i < len(pa) || j < len(pb) {
		if wa <= wb && i < len(pa) {
			ra = append(ra, pa[i])
			wa += pa[i].w
			i++
		} else {
			rb = append(rb, pb[j])
			wb += pb[j].w
			j++
		}
		if wa == wb {
			if !flush() {
				return tm.False
			}
		}
	}
	return tm.And(conj...)
}

// Concat with args[0] most significant.
func (tm *TM) Concat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == opConcat {
			for _, x := range t.args {
				push(x)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == opExtract && t.op == opExtract && p.args[0] == t.args[0] && p.val == t.val+uint64(t.w) {
				out[n-1] = tm.Extract(p.args[0], int(p.val)+p.w-1, int(t.val))
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	allConst := true
	for _, t := range out {
		w += t.w
		if !t.isConst() {
			allConst = false
		}
	}
	if allConst && w <= 64 {
		var v uint64
		for _, t := range out {
			v = v<<uint(t.w) | t.val
		}
		return tm.Const(v, w)
	}
	return tm.intern(&Term{op: opConcat, w: w, args: out})
}

func (tm *TM) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case opConst:
		return tm.Const(t.val>>uint(lo), w)
	case opExtract:
		return tm.Extract(t.args[0], hi+int(t.val), lo+int(t.val))
	case opConcat:
		// locate
		off := t.w
		var parts []*Term
		for _, p := range t.args {
			plo := off - p.w
			phi := off - 1
			off = plo
			if plo > hi || phi < lo {
				continue
			}
			h, l := hi, lo
			if phi < h {
				h = phi
			}
			if plo > l {
				l = plo
			}
			parts = append(parts, tm.Extract(p, h-plo, l-plo))
		}
		return tm.Concat(parts...)
	case opZExt:
		in := t.args[0]
		if hi < in.w {
			return tm.Extract(in, hi, lo)
		}
		if lo >= in.w && w <= 64 {
			return tm.Const(0, w)
		}
		if lo < in.w && w <= 64 {
			return tm.ZExt(tm.Extract(in, in.w-1, lo), w)
		}
	case opSExt:
		in := t.args[0]
		if hi < in.w {
			return tm.Extract(in, hi, lo)
		}
	case opBAnd, opBOr, opBXor:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = tm.Extract(a, hi, lo)
		}
		switch t.op {
		case opBAnd:
			return tm.BAnd(args[0], args[1])
		case opBOr:
			return tm.BOr(args[0], args[1])
		}
		return tm.BXor(args...)
	case opIte:
		if t.args[1].isConst() && t.args[2].isConst() {
			return tm.Ite(t.args[0], tm.Extract(t.args[1], hi, lo), tm.Extract(t.args[2], hi, lo))
		}
	case opAdd, opSub, opMul:
		if lo == 0 && w <= 64 {
			a, b := tm.Extract(t.args[0], hi, 0), tm.Extract(t.args[1], hi, 0)
			switch t.op {
			case opAdd:
				return tm.Add(a, b)
			case opSub:
				return tm.Sub(a, b)
			}
			return tm.Mul(a, b)
		}
	case opLShr:
		if t.args[1].isConst() && uint64(hi)+t.args[1].val < uint64(t.w) {
			return tm.Extract(t.args[0], hi+int(t.args[1].val), lo+int(t.args[1].val))
		}
	}
	return tm.intern(&Term{op: opExtract, w: w, val: uint64(lo), args: []*Term{t}})
}

func (tm *TM) ZExt(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return tm.Const(t.val, w)
	}
	if t.op == opZExt {
		return tm.ZExt(t.args[0], w)
	}
	if t.op == opIte && t.args[1].isConst() && t.args[2].isConst() {
		return tm.Ite(t.args[0], tm.ZExt(t.args[1], w), tm.ZExt(t.args[2], w))
	}
	return tm.intern(&Term{op: opZExt, w: w, args: []*Term{t}})
}

func (tm *TM) SExt(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return tm.Const(uint64(sext64(t.val, t.w)), w)
	}
	if t.op == opZExt && t.w > t.args[0].w {
		return tm.ZExt(t.args[0], w)
	}
	if t.op == opSExt {
		return tm.SExt(t.args[0], w)
	}
	return tm.intern(&Term{op: opSExt, w: w, args: []*Term{t}})
}

func (tm *TM) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val+b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == opAdd && a.args[1].isConst() {
			return tm.Add(a.args[0], tm.Const(a.args[1].val+b.val, a.w))
		}
	} else {
		if a.op == opAdd && a.args[1].isConst() {
			return tm.Add(tm.Add(a.args[0], b), a.args[1])
		}
		if b.op == opAdd && b.args[1].isConst() {
			return tm.Add(tm.Add(a, b.args[0]), b.args[1])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tm.intern(&Term{op: opAdd, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) Sub(a, b *Term) *Term {
	if a == b {
		return tm.Const(0, a.w)
	}
	if b.isConst() {
		return tm.Add(a, tm.Const(-b.val, a.w))
	}
	if a.isConst() && b.isConst() {
		return tm.Const(a.val-b.val, a.w)
	}
	// (x + c) - x
	if a.op == opAdd && a.args[1].isConst() && a.args[0] == b {
		return a.args[1]
	}
	return tm.intern(&Term{op: opSub, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val*b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
	}
	return tm.intern(&Term{op: opMul, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		switch op {
		case opUDiv:
			return tm.Const(a.val/b.val, a.w)
		case opURem:
			return tm.Const(a.val%b.val, a.w)
		case opSDiv:
			x, y := sext64(a.val, a.w), sext64(b.val, b.w)
			if y == -1 {
				return tm.Const(uint64(-x), a.w)
			}
			return tm.Const(uint64(x/y), a.w)
		case opSRem:
			x, y := sext64(a.val, a.w), sext64(b.val, b.w)
			if y == -1 {
				return tm.Const(0, a.w)
			}
			return tm.Const(uint64(x%y), a.w)
		}
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		k := bits.TrailingZeros64(b.val)
		if op == opUDiv {
			return tm.LShr(a, tm.Const(uint64(k), a.w))
		}
		if op == opURem {
			return tm.BAnd(a, tm.Const(b.val-1, a.w))
		}
	}
	// signed ops on provably non-negative zext values become unsigned
	if (op == opSDiv || op == opSRem) && a.op == opZExt && a.w > a.args[0].w && b.isConst() && sext64(b.val, b.w) > 0 {
		if op == opSDiv {
			return tm.div(opUDiv, a, b)
		}
		return tm.div(opURem, a, b)
	}
	return tm.intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val&b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		if a.op == opZExt {
			in := a.args[0]
			if b.val&mask(in.w) == mask(in.w) {
				return a
			}
			if in.w <= 64 {
				return tm.ZExt(tm.BAnd(in, tm.Const(b.val, in.w)), a.w)
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tm.intern(&Term{op: opBAnd, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val|b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tm.intern(&Term{op: opBOr, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) BXor(ts ...*Term) *Term {
	w := ts[0].w
	if w > 64 {
		// bytewise
		var out []*Term
		for hi := w; hi > 0; hi -= 8 {
			var bs []*Term
			for _, t := range ts {
				bs = append(bs, tm.Extract(t, hi-1, hi-8))
			}
			out = append(out, tm.BXor(bs...))
		}
		return tm.Concat(out...)
	}
	var c uint64
	cnt := map[int]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.isConst():
			c ^= t.val
		case t.op == opBXor:
			for _, x := range t.args {
				add(x)
			}
		default:
			if _, ok := cnt[t.id]; ok {
				delete(cnt, t.id)
			} else {
				cnt[t.id] = t
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	out := make([]*Term, 0, len(cnt)+1)
	for _, t := range cnt {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if c != 0 || len(out) == 0 {
		out = append(out, tm.Const(c, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return tm.intern(&Term{op: opBXor, w: w, args: out})
}

func (tm *TM) BNot(a *Term) *Term {
	if a.isConst() {
		return tm.Const(^a.val, a.w)
	}
	if a.op == opBNot {
		return a.args[0]
	}
	return tm.intern(&Term{op: opBNot, w: a.w, args: []*Term{a}})
}

func (tm *TM) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return tm.Const(0, a.w)
		}
		if a.isConst() {
			return tm.Const(a.val<<b.val, a.w)
		}
	}
	return tm.intern(&Term{op: opShl, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return tm.Const(0, a.w)
		}
		if a.isConst() {
			return tm.Const(a.val>>b.val, a.w)
		}
		if a.op == opZExt {
			in := a.args[0]
			if b.val >= uint64(in.w) {
				return tm.Const(0, a.w)
			}
			return tm.ZExt(tm.LShr(in, tm.Const(b.val, in.w)), a.w)
		}
	}
	return tm.intern(&Term{op: opLShr, w: a.w, args: []*Term{a, b}})
}

func (tm *TM) AShr(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			s := b.val
			if s >= uint64(a.w) {
				s = uint64(a.w) - 1
			}
			return tm.Const(uint64(sext64(a.val, a.w)>>s), a.w)
		}
		if a.op == opZExt && a.w > a.args[0].w {
			return tm.LShr(a, b)
		}
	}
	return tm.intern(&Term{op: opAShr, w: a.w, args: []*Term{a, b}})
}

// urange returns simple unsigned bounds.
func urange(t *Term) (lo, hi uint64) {
	switch t.op {
	case opConst:
		return t.val, t.val
	case opZExt:
		return urange(t.args[0])
	case opBAnd:
		if t.args[1].isConst() {
			return 0, t.args[1].val
		}
	case opURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return 0, t.args[1].val - 1
		}
	case opIte:
		a, b := urange(t.args[1])
		c, d := urange(t.args[2])
		if c < a {
			a = c
		}
		if d > b {
			b = d
		}
		return a, b
	case opAdd:
		if t.w <= 64 && t.args[1].isConst() && t.args[1].val < 1<<32 {
			a, b := urange(t.args[0])
			if b < mask(t.w)-t.args[1].val {
				return a + t.args[1].val, b + t.args[1].val
			}
		}
	}
	return 0, mask(t.w)
}

func (tm *TM) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Bool(a.val < b.val)
	}
	if a == b {
		return tm.False
	}
	al, ah := urange(a)
	bl, bh := urange(b)
	if ah < bl {
		return tm.True
	}
	if al >= bh {
		return tm.False
	}
	if a.op == opZExt && b.op == opZExt && a.args[0].w == b.args[0].w {
		return tm.Ult(a.args[0], b.args[0])
	}
	if a.op == opZExt && b.isConst() { // b in range of a.inner
		return tm.Ult(a.args[0], tm.Const(b.val, a.args[0].w))
	}
	if b.op == opZExt && a.isConst() {
		return tm.Ult(tm.Const(a.val, b.args[0].w), b.args[0])
	}
	return tm.intern(&Term{op: opUlt, args: []*Term{a, b}})
}

func (tm *TM) Ule(a, b *Term) *Term { return tm.Not(tm.Ult(b, a)) }

func nonNeg(t *Term) bool {
	_, h := urange(t)
	return h <= mask(t.w)>>1
}

func (tm *TM) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return tm.False
	}
	na, nb := nonNeg(a), nonNeg(b)
	if na && nb {
		return tm.Ult(a, b)
	}
	if na && b.isConst() { // b negative
		return tm.False
	}
	if nb && a.isConst() {
		return tm.True
	}
	return tm.intern(&Term{op: opSlt, args: []*Term{a, b}})
}

func (tm *TM) Sle(a, b *Term) *Term { return tm.Not(tm.Slt(b, a)) }

// ---------------------------------------------------------------- atoms

func (tm *TM) atomID(name string) int32 {
	if id, ok := tm.atomIDs[name]; ok {
		return id
	}
	id := int32(len(tm.atomIDs) + 1)
	tm.atomIDs[name] = id
	return id
}

func (tm *TM) atomsOf(t *Term) []int32 {
	if t.hasAtoms {
		return t.atoms
	}
	set := map[int32]struct{}{}
	switch t.op {
	case opVar:
		set[tm.atomID(t.name)] = struct{}{}
	case opUF:
		n := t.name
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		set[tm.atomID("uf "+n)] = struct{}{}
	}
	for _, a := range t.args {
		for _, x := range tm.atomsOf(a) {
			set[x] = struct{}{}
		}
	}
	out := make([]int32, 0, len(set))
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	t.atoms, t.hasAtoms = out, true
	return out
}

// ---------------------------------------------------------------- models

// Model assigns variables and uninterpreted function entries.
type Model struct {
	vars map[string]uint64
	ufs  map[string]string
}

func NewModel() *Model { return &Model{vars: map[string]uint64{}, ufs: map[string]string{}} }

func (m *Model) clone() *Model {
	n := NewModel()
	for k, v := range m.vars {
		n.vars[k] = v
	}
	for k, v := range m.ufs {
		n.ufs[k] = v
	}
	return n
}

func (tm *TM) setModel(m *Model) {
	tm.model = m
	tm.evGenC++
}

// evalW evaluates a wide term to big-endian bytes.
func (tm *TM) evalW(t *Term) string {
	if t.w <= 64 {
		v := tm.eval(t)
		n := (t.w + 7) / 8
		b := make([]byte, n)
		for i := n - 1; i >= 0; i-- {
			b[i] = byte(v)
			v >>= 8
		}
		return string(b)
	}
	if t.evGen == tm.evGenC {
		return t.evWide
	}
	var r string
	switch t.op {
	case opConcat:
		var sb strings.Builder
		ok := true
		for _, p := range t.args {
			if p.w%8 != 0 {
				ok = false
				break
			}
			sb.WriteString(tm.evalW(p))
		}
		if !ok {
			panic("unaligned wide concat")
		}
		r = sb.String()
	case opUF:
		r = tm.evalUF(t)
	case opExtract:
		s := tm.evalW(t.args[0])
		lo := int(t.val)
		if lo%8 != 0 || t.w%8 != 0 {
			panic("unaligned wide extract")
		}
		n := len(s)
		r = s[n-(lo+t.w)/8 : n-lo/8]
	case opIte:
		if tm.eval(t.args[0]) != 0 {
			r = tm.evalW(t.args[1])
		} else {
			r = tm.evalW(t.args[2])
		}
	default:
		panic("evalW: " + opNames[t.op])
	}
	t.evGen, t.evWide = tm.evGenC, r
	return r
}

func (tm *TM) ufKey(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.name)
	for _, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(hex.EncodeToString([]byte(tm.evalW(a))))
	}
	return sb.String()
}

func (tm *TM) evalUF(t *Term) string {
	k := tm.ufKey(t)
	if v, ok := tm.model.ufs[k]; ok {
		return v
	}
	n := (t.w + 7) / 8
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d %s", i, k)))
		out = append(out, h[:]...)
	}
	out = out[:n]
	if t.w%8 != 0 {
		out[0] &= byte(mask(t.w % 8))
	}
	return string(out)
}

func (tm *TM) eval(t *Term) uint64 {
	if t.op == opConst {
		return t.val
	}
	if t.evGen == tm.evGenC {
		return t.evVal
	}
	var r uint64
	a := t.args
	switch t.op {
	case opVar:
		r = tm.model.vars[t.name]
	case opUF:
		s := tm.evalUF(t)
		for i := 0; i < len(s); i++ {
			r = r<<8 | uint64(s[i])
		}
	case opNot:
		r = 1 - tm.eval(a[0])
	case opAnd:
		r = 1
		for _, x := range a {
			if tm.eval(x) == 0 {
				r = 0
				break
			}
		}
	case opOr:
		for _, x := range a {
			if tm.eval(x) != 0 {
				r = 1
				break
			}
		}
	case opEq:
		if a[0].w > 64 {
			if tm.evalW(a[0]) == tm.evalW(a[1]) {
				r = 1
			}
		} else if tm.eval(a[0]) == tm.eval(a[1]) {
			r = 1
		}
	case opIte:
		if tm.eval(a[0]) != 0 {
			r = tm.eval(a[1])
		} else {
			r = tm.eval(a[2])
		}
	case opAdd:
		r = tm.eval(a[0]) + tm.eval(a[1])
	case opSub:
		r = tm.eval(a[0]) - tm.eval(a[1])
	case opMul:
		r = tm.eval(a[0]) * tm.eval(a[1])
	case opUDiv, opURem, opSDiv, opSRem:
		x, y := tm.eval(a[0]), tm.eval(a[1])
		w := t.w
		if y == 0 {
			switch t.op {
			case opUDiv:
				r = ^uint64(0)
			case opURem, opSRem:
				r = x
			case opSDiv:
				if sext64(x, w) < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			}
		} else {
			switch t.op {
			case opUDiv:
				r = x / y
			case opURem:
				r = x % y
			case opSDiv:
				if sext64(y, w) == -1 {
					r = uint64(-sext64(x, w))
				} else {
					r = uint64(sext64(x, w) / sext64(y, w))
				}
			case opSRem:
				if sext64(y, w) == -1 {
					r = 0
				} else {
					r = uint64(sext64(x, w) % sext64(y, w))
				}
			}
		}
	case opBAnd:
		r = tm.eval(a[0]) & tm.eval(a[1])
	case opBOr:
		r = tm.eval(a[0]) | tm.eval(a[1])
	case opBXor:
		for _, x := range a {
			r ^= tm.eval(x)
		}
	case opBNot:
		r = ^tm.eval(a[0])
	case opShl:
		if s := tm.eval(a[1]); s < uint64(t.w) {
			r = tm.eval(a[0]) << s
		}
	case opLShr:
		if s := tm.eval(a[1]); s < uint64(t.w) {
			r = tm.eval(a[0]) >> s
		}
	case opAShr:
		s := tm.eval(a[1])
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sext64(tm.eval(a[0]), t.w) >> s)
	case opUlt:
		if tm.eval(a[0]) < tm.eval(a[1]) {
			r = 1
		}
	case opUle:
		if tm.eval(a[0]) <= tm.eval(a[1]) {
			r = 1
		}
	case opSlt:
		if sext64(tm.eval(a[0]), a[0].w) < sext64(tm.eval(a[1]), a[0].w) {
			r = 1
		}
	case opSle:
		if sext64(tm.eval(a[0]), a[0].w) <= sext64(tm.eval(a[1]), a[0].w) {
			r = 1
		}
	case opConcat:
		for _, x := range a {
			r = r<<uint(x.w) | tm.eval(x)
		}
	case opExtract:
		if a[0].w > 64 {
			lo := int(t.val)
			s := tm.evalW(a[0])
			// take covering bytes
			n := len(s)
			b1 := n - lo/8
			b0 := n - (lo+t.w+7)/8
			var v uint64
			for _, c := range []byte(s[b0:b1]) {
				v = v<<8 | uint64(c)
			}
			r = v >> uint(lo%8)
		} else {
			r = tm.eval(a[0]) >> t.val
		}
	case opZExt:
		r = tm.eval(a[0])
	case opSExt:
		r = uint64(sext64(tm.eval(a[0]), a[0].w))
	default:
		panic("eval: " + opNames[t.op])
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	t.evGen, t.evVal = tm.evGenC, r
	return r
}

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case opVar:
		return t.name
	}
	if d > 6 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	if t.op == opUF {
		sb.WriteString(" " + t.name)
	}
	if t.op == opExtract {
		fmt.Fprintf(&sb, "[%d+%d]", t.val, t.w)
	}
	for i, a := range t.args {
		if i > 8 {
			sb.WriteString(" …")
			break
		}
		sb.WriteString(" " + a.str(d+1))
	}
	sb.WriteString(")")
	return sb.String()
}
