package main

import (
	"crypto/aes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// verifvIntr are the primitives of package verifv the engine implements itself.
var verifvIntr map[string]intrinsic

func (in *Interp) label(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr("symbolic label"))
	}
	p := in.path
	n := p.occ[s]
	p.occ[s] = n + 1
	return fmt.Sprintf("%s#%d", s, n)
}

func (in *Interp) strArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(engineErr("symbolic string where a constant is needed"))
	}
	return s
}

func (in *Interp) intArg(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		return int(int64(in.path.concretize(t)))
	}
	return int(int64(t.val))
}

func (in *Interp) inputBytes(label string, n int) []*Term {
	l := in.label(label)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = in.tm.Var(fmt.Sprintf("%s[%d]", l, i), 8)
	}
	in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "bytes", terms: ts})
	return ts
}

// constBytes is the value of bytes that are all known.
func constBytes(ts []*Term) ([]byte, bool) {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		b[i] = byte(t.val)
	}
	return b, true
}

func (in *Interp) knownBytes(b []byte) []*Term {
	ts := make([]*Term, len(b))
	for i, c := range b {
		ts[i] = in.tm.Const(uint64(c), 8)
	}
	return ts
}

// expand is what verifv.UF computes natively.
func expand(name string, outLen int, args [][]byte) []byte {
	var out []byte
	for i := 0; len(out) < outLen; i++ {
		h := sha512.New()
		fmt.Fprintf(h, "%s/%d/%d", name, outLen, i)
		for _, a := range args {
			fmt.Fprintf(h, "|%d|", len(a))
			h.Write(a)
		}
		out = h.Sum(out)
	}
	return out[:outLen]
}

// prp is a fixed permutation of blocks per key: AES itself, and a four round
// Feistel network in place of the other ciphers.
func prp(alg, dir string, key, blk []byte) []byte {
	if alg == "aes" {
		if c, err := aes.NewCipher(key); err == nil && len(blk) == 16 {
			out := make([]byte, 16)
			if dir == "E" {
				c.Encrypt(out, blk)
			} else {
				c.Decrypt(out, blk)
			}
			return out
		}
	}
	h := len(blk) / 2
	l, r := append([]byte(nil), blk[:h]...), append([]byte(nil), blk[h:]...)
	round := func(i int, half []byte) []byte {
		return expand(fmt.Sprintf("%s/%d", alg, i), len(half), [][]byte{key, half})
	}
	xor := func(a, b []byte) []byte {
		for i := range a {
			a[i] ^= b[i]
		}
		return a
	}
	if dir == "E" {
		for i := 0; i < 4; i++ {
			l, r = r, xor(l, round(i, r))
		}
	} else {
		for i := 3; i >= 0; i-- {
			l, r = xor(r, round(i, l)), l
		}
	}
	return append(l, r...)
}

func (in *Interp) concreteUF(name string, outLen int, args [][]*Term) ([]*Term, bool) {
	var bs [][]byte
	for _, a := range args {
		b, ok := constBytes(a)
		if !ok {
			return nil, false
		}
		bs = append(bs, b)
	}
	switch {
	case name == "sha512" && outLen == 64 && len(bs) == 1:
		s := sha512.Sum512(bs[0])
		return in.knownBytes(s[:]), true
	case name == "sha256" && outLen == 32 && len(bs) == 1:
		s := sha256.Sum256(bs[0])
		return in.knownBytes(s[:]), true
	}
	return in.knownBytes(expand(name, outLen, bs)), true
}

func (in *Interp) ufApp(name string, outLen int, inj bool, args [][]*Term) []*Term {
	if in.path.concCrypto {
		if ts, ok := in.concreteUF(name, outLen, args); ok {
			return ts
		}
	}
	full := name + "@"
	var as []*Term
	for i, a := range args {
		if i > 0 {
			full += "_"
		}
		full += fmt.Sprint(len(a))
		if len(a) > 0 {
			as = append(as, in.tm.Concat(a...))
		}
	}
	full += fmt.Sprintf("=%d", outLen)
	if in.tm.uf[full] == nil {
		in.tm.uf[full] = &ufInfo{injective: inj}
	}
	u := in.tm.UF(full, outLen*8, as...)
	return in.splitBytes(u)
}

func (in *Interp) splitBytes(u *Term) []*Term {
	n := u.w / 8
	out := make([]*Term, n)
	for i := range out {
		out[i] = in.tm.Extract(u, (n-1-i)*8+7, (n-1-i)*8)
	}
	return out
}

func (in *Interp) strOrBytes(v Value) []*Term { return in.bytesOf(v) }

func init() {
	verifvIntr = map[string]intrinsic{
		"Symbolic": simple(func(in *Interp, a []Value) Value { return in.tm.True }),
		"Tier":     simple(func(in *Interp, a []Value) Value { return in.i64(in.path.drv.tier) }),
		"Byte": simple(func(in *Interp, a []Value) Value {
			l := in.label(in.strArg(a[0]))
			t := in.tm.Var(l, 8)
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "int", terms: []*Term{t}})
			return t
		}),
		"Bool": simple(func(in *Interp, a []Value) Value {
			l := in.label(in.strArg(a[0]))
			t := in.tm.Var(l, 0)
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "int", terms: []*Term{t}})
			return t
		}),
		"Int": simple(func(in *Interp, a []Value) Value {
			l := in.label(in.strArg(a[0]))
			t := in.tm.Var(l, 64)
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "int", terms: []*Term{t}})
			lo, hi := a[1].(*Term), a[2].(*Term)
			in.path.assume(in.tm.And(in.tm.Sle(lo, t), in.tm.Sle(t, hi)))
			return t
		}),
		"Int64": simple(func(in *Interp, a []Value) Value {
			l := in.label(in.strArg(a[0]))
			t := in.tm.Var(l, 64)
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "int", terms: []*Term{t}})
			return t
		}),
		"Choose": simple(func(in *Interp, a []Value) Value {
			l := in.label(in.strArg(a[0]))
			v := in.path.choose(in.intArg(a[1]))
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "choose", val: uint64(v)})
			return in.i64(v)
		}),
		"Bytes": simple(func(in *Interp, a []Value) Value {
			return termsToSlice(in.inputBytes(in.strArg(a[0]), in.intArg(a[1])))
		}),
		"String": simple(func(in *Interp, a []Value) Value {
			return mkStr(in.inputBytes(in.strArg(a[0]), in.intArg(a[1])))
		}),
		"Blob": simple(func(in *Interp, a []Value) Value {
			n := in.intArg(a[1])
			l := in.label(in.strArg(a[0]))
			if n == 0 {
				in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "bytes"})
				return []Value{}
			}
			u := in.tm.UF("blob:"+l, n*8)
			ts := in.splitBytes(u)
			in.path.inputs = append(in.path.inputs, inputRec{label: l, kind: "bytes", terms: ts})
			return termsToSlice(ts)
		}),
		"Assume": simple(func(in *Interp, a []Value) Value { in.path.assume(a[0].(*Term)); return nil }),
		"Assert": simple(func(in *Interp, a []Value) Value {
			msg, ok := a[1].(string)
			if !ok {
				msg = "symbolic message"
			}
			in.path.assert(a[0].(*Term), msg)
			return nil
		}),
		"Reach": simple(func(in *Interp, a []Value) Value { in.path.reached[in.strArg(a[0])] = true; return nil }),
		"Expect": simple(func(in *Interp, a []Value) Value {
			for _, s := range a[0].([]Value) {
				in.path.drv.expectLabel(in.strArg(s))
			}
			return nil
		}),
		"Possible": simple(func(in *Interp, a []Value) Value {
			l := in.strArg(a[0])
			d := in.path.drv
			d.mu.Lock()
			done := d.possible[l]
			if d.possible == nil {
				d.possible = map[string]bool{}
			}
			d.possible[l] = done
			d.mu.Unlock()
			if done || in.path.inPrefix() {
				return nil
			}
			c := in.path.subst(a[1].(*Term))
			ok := in.path.evalBool(c)
			if !ok {
				switch r, _ := in.path.check(c); r {
				case Sat:
					ok = true
				case Unknown:
					d.noteInconclusive("solver-unknown")
				}
			}
			if ok {
				d.mu.Lock()
				d.possible[l] = true
				d.mu.Unlock()
			}
			return nil
		}),
		"Observe": simple(func(in *Interp, a []Value) Value {
			for _, v := range a[1].([]Value) {
				in.path.obs = append(in.path.obs, obsRec{in.strArg(a[0]), v.(Iface).v})
			}
			return nil
		}),
		"UF": simple(func(in *Interp, a []Value) Value {
			var args [][]*Term
			for _, v := range a[2].([]Value) {
				args = append(args, in.sliceTerms(v.([]Value)))
			}
			return termsToSlice(in.ufApp(in.strArg(a[0]), in.intArg(a[1]), true, args))
		}),
		"BlockE": simple(func(in *Interp, a []Value) Value { return in.block(in.strArg(a[0]), "E", a[1], a[2]) }),
		"BlockD": simple(func(in *Interp, a []Value) Value { return in.block(in.strArg(a[0]), "D", a[1], a[2]) }),
		"And": simple(func(in *Interp, a []Value) Value {
			var ts []*Term
			for _, v := range a[0].([]Value) {
				ts = append(ts, v.(*Term))
			}
			return in.tm.And(ts...)
		}),
		"Or": simple(func(in *Interp, a []Value) Value {
			var ts []*Term
			for _, v := range a[0].([]Value) {
				ts = append(ts, v.(*Term))
			}
			return in.tm.Or(ts...)
		}),
		"Not":     simple(func(in *Interp, a []Value) Value { return in.tm.Not(a[0].(*Term)) }),
		"Implies": simple(func(in *Interp, a []Value) Value { return in.tm.Or(in.tm.Not(a[0].(*Term)), a[1].(*Term)) }),
		"Iff":     simple(func(in *Interp, a []Value) Value { return in.tm.Eq(a[0].(*Term), a[1].(*Term)) }),
		"EqS":     simple(func(in *Interp, a []Value) Value { return in.strEq(a[0], a[1]) }),
		"EqB":     simple(func(in *Interp, a []Value) Value { return in.bytesEq(in.bytesOf(a[0]), in.bytesOf(a[1])) }),
		"EqI":     simple(func(in *Interp, a []Value) Value { return in.tm.Eq(a[0].(*Term), a[1].(*Term)) }),
		"LtI":     simple(func(in *Interp, a []Value) Value { return in.tm.Slt(a[0].(*Term), a[1].(*Term)) }),
		"IteI":    simple(func(in *Interp, a []Value) Value { return in.tm.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }),
		"InSet": simple(func(in *Interp, a []Value) Value {
			set := in.strArg(a[1])
			return in.pred(a[0].(*Term), func(c byte) bool { return strings.IndexByte(set, c) >= 0 })
		}),
		"Concrete": simple(func(in *Interp, a []Value) Value {
			switch x := a[0].(type) {
			case SymStr:
				b := make([]byte, len(x))
				for i, t := range x {
					b[i] = byte(in.path.concretize(t))
				}
				return string(b)
			}
			return a[0]
		}),
		"ConcreteCrypto": simple(func(in *Interp, a []Value) Value { in.path.concCrypto = true; return nil }),
		"MapOrder":  simple(func(in *Interp, a []Value) Value { in.path.mapMode = in.intArg(a[0]); return nil }),
		"StepLimit": simple(func(in *Interp, a []Value) Value { in.path.stepLim = in.intArg(a[0]); return nil }),
		"BranchIs": simple(func(in *Interp, a []Value) Value { // is the condition decided already? (1 true, 0 false, -1 open)
			return in.i64(in.path.implied(a[0].(*Term)))
		}),
		"Debug": simple(func(in *Interp, a []Value) Value {
			if debug {
				s := ""
				for _, v := range a[0].([]Value) {
					s += " " + showVal(v)
				}
				debugf("DEBUG%s", s)
			}
			return nil
		}),
		"Bound": simple(func(in *Interp, a []Value) Value { in.path.drv.noteBound(in.strArg(a[0])); return nil }),
	}
}

func (in *Interp) block(alg, dir string, key, blk Value) Value {
	k, b := in.sliceTerms(key.([]Value)), in.sliceTerms(blk.([]Value))
	if in.path.concCrypto && len(b)%2 == 0 {
		if kb, ok := constBytes(k); ok {
			if bb, ok := constBytes(b); ok {
				return termsToSlice(in.knownBytes(prp(alg, dir, kb, bb)))
			}
		}
	}
	e := fmt.Sprintf("%sE@%d_%d", alg, len(k), len(b))
	d := fmt.Sprintf("%sD@%d_%d", alg, len(k), len(b))
	if in.tm.uf[e] == nil {
		in.tm.uf[e] = &ufInfo{inverse: d}
		in.tm.uf[d] = &ufInfo{inverse: e}
	}
	n := e
	if dir == "D" {
		n = d
	}
	u := in.tm.UF(n, len(b)*8, in.tm.Concat(k...), in.tm.Concat(b...))
	if u.w == 8*len(b) {
		return termsToSlice(in.splitBytes(u))
	}
	panic(engineErr("block width"))
}

func showVal(v Value) string {
	switch x := v.(type) {
	case Iface:
		return showVal(x.v)
	case *Term:
		return x.String()
	case SymStr:
		s := "sym\""
		for _, t := range x {
			if t.isConst() {
				s += string(rune(t.val))
			} else {
				s += "<" + t.String() + ">"
			}
		}
		return s + "\""
	case []Value:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += showVal(e)
		}
		return s + "]"
	case Struct:
		s := "{"
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += showVal(e)
		}
		return s + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + showVal(*x)
	}
	return fmt.Sprintf("%v", v)
}

var _ = hex.EncodeToString
var _ *ssa.Function
