package main

import (
	"encoding/binary"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// jnode is a decoded JSON value whose strings and numbers may be symbolic.
type jnode struct {
	kind byte // o a s n b z
	keys []Value
	vals []*jnode
	str  Value
	num  *Term  // integer value when known
	text string // literal text of a concrete number
	b    bool
}

type jfield struct {
	name      string
	omitempty bool
	omitzero  bool
	quoted    bool
	index     int
	typ       types.Type
}

func (in *Interp) jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if f.Anonymous() {
			panic(engineErr("json of embedded field %s", f.Name()))
		}
		if !f.Exported() {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: parts[0], index: i, typ: f.Type()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "omitzero":
				jf.omitzero = true
			case "string":
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsBoolean|types.IsNumeric) != 0 {
					jf.quoted = true
				}
			}
		}
		out = append(out, jf)
	}
	return out
}

type jenc struct {
	in     *Interp
	out    []*Term
	prefix string
	indent string
}

func (e *jenc) lit(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, e.in.tm.Const(uint64(s[i]), 8))
	}
}

func (e *jenc) nl(depth int) {
	if e.prefix == "" && e.indent == "" {
		return
	}
	e.lit("\n" + e.prefix + strings.Repeat(e.indent, depth))
}

func (in *Interp) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !in.path.branch(x)
		}
		return in.path.branch(in.tm.Eq(x, in.tm.Const(0, x.w)))
	case string, SymStr:
		return strLen(x) == 0
	case []Value:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case Array:
		return len(x) == 0
	case float64:
		return x == 0
	}
	return false
}

func (e *jenc) enc(t types.Type, v Value, depth int) *jnode {
	in := e.in
	if in.method(t, "MarshalJSON") != nil || in.method(t, "MarshalText") != nil {
		panic(engineErr("json of custom marshaler %s", t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &jnode{kind: 's', str: e.encStr(v)}
		case u.Info()&types.IsBoolean != 0:
			b := in.path.branch(v.(*Term))
			e.lit(strconv.FormatBool(b))
			return &jnode{kind: 'b', b: b}
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			if !x.isConst() {
				if s, ok := in.fmt10(x, u); ok {
					e.out = append(e.out, in.strBytes(s)...)
					return &jnode{kind: 'n', num: x}
				}
				in.path.concretize(x)
				x = in.tm.Const(in.tm.eval(x), x.w)
			}
			txt := strconv.FormatUint(x.val, 10)
			if isSigned(t) {
				txt = strconv.FormatInt(sext64(x.val, x.w), 10)
			}
			e.lit(txt)
			return &jnode{kind: 'n', text: txt}
		}
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			e.lit("null")
			return &jnode{kind: 'z'}
		}
		return e.enc(u.Elem(), *p, depth)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.lit("null")
			return &jnode{kind: 'z'}
		}
		return e.enc(i.t, i.v, depth)
	case *types.Struct:
		n := &jnode{kind: 'o'}
		s := v.(Struct)
		e.lit("{")
		first := true
		for _, f := range in.jsonFields(u) {
			if f.omitempty && in.jsonEmpty(s[f.index]) {
				continue
			}
			if f.omitzero && in.path.branch(in.equals(s[f.index], in.zero(f.typ))) {
				continue
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.nl(depth + 1)
			e.encStr(f.name)
			e.lit(":")
			if e.indent != "" || e.prefix != "" {
				e.lit(" ")
			}
			n.keys = append(n.keys, f.name)
			if f.quoted {
				// the encoding as the text of a string
				sub := &jenc{in: in}
				m := sub.enc(f.typ, s[f.index], 0)
				if m.kind == 's' {
					n.vals = append(n.vals, &jnode{kind: 's', str: e.encStr(mkStr(sub.out))})
				} else {
					e.lit("\"")
					e.out = append(e.out, sub.out...)
					e.lit("\"")
					n.vals = append(n.vals, &jnode{kind: 's', str: mkStr(sub.out)})
				}
				continue
			}
			n.vals = append(n.vals, e.enc(f.typ, s[f.index], depth+1))
		}
		if !first {
			e.nl(depth)
		}
		e.lit("}")
		return n
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			e.lit("null")
			return &jnode{kind: 'z'}
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			panic(engineErr("json map key %s", u.Key()))
		}
		ents := append([]*mapEntry(nil), m.ents...)
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0 && in.path.branch(in.strLess(ents[j].k, ents[j-1].k)); j-- {
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		n := &jnode{kind: 'o'}
		e.lit("{")
		for k, en := range ents {
			if k > 0 {
				e.lit(",")
			}
			e.nl(depth + 1)
			key := e.encStr(en.k)
			e.lit(":")
			if e.indent != "" || e.prefix != "" {
				e.lit(" ")
			}
			n.keys = append(n.keys, key)
			n.vals = append(n.vals, e.enc(u.Elem(), en.v, depth+1))
		}
		if len(ents) > 0 {
			e.nl(depth)
		}
		e.lit("}")
		return n
	case *types.Slice:
		s := v.([]Value)
		if s == nil {
			e.lit("null")
			return &jnode{kind: 'z'}
		}
		if w, _, ok := isIntType(u.Elem()); ok && w == 8 {
			panic(engineErr("json of []byte"))
		}
		n := &jnode{kind: 'a'}
		e.lit("[")
		for k, x := range s {
			if k > 0 {
				e.lit(",")
			}
			e.nl(depth + 1)
			n.vals = append(n.vals, e.enc(u.Elem(), x, depth+1))
		}
		if len(s) > 0 {
			e.nl(depth)
		}
		e.lit("]")
		return n
	}
	panic(engineErr("json encode of %s", t))
}

// decodeRune decodes the sequence at the start of ts (first byte known >= 0x80), forking as needed.
func (in *Interp) decodeRune(ts []*Term) (*Term, int) {
	if len(ts) > 4 {
		ts = ts[:4]
	}
	res := in.call(in.top, in.ld.fn("unicode/utf8", "DecodeRuneInString"), []Value{mkStr(ts)}, nil).(Tuple)
	return res[0].(*Term), int(in.path.concretize(res[1].(*Term)))
}

// encStr writes a JSON string and returns the value a decoder recovers.
func (e *jenc) encStr(v Value) Value {
	in, tm := e.in, e.in.tm
	if c, ok := v.(string); ok {
		ascii := true
		for i := 0; i < len(c); i++ {
			if c[i] < 0x20 || c[i] >= 0x7f || strings.IndexByte(`"\<>&`, c[i]) >= 0 {
				ascii = false
				break
			}
		}
		if ascii {
			e.lit(`"` + c + `"`)
			return c
		}
	}
	bs := in.strBytes(v)
	var dec []*Term
	e.lit(`"`)
	for i := 0; i < len(bs); {
		b := bs[i]
		if in.hexChar[b.id] {
			e.out = append(e.out, b)
			dec = append(dec, b)
			i++
			continue
		}
		safe := in.pred(b, func(c byte) bool { return c >= 0x20 && c < 0x80 && strings.IndexByte(`"\<>&`, c) < 0 })
		if in.path.branch(safe) {
			e.out = append(e.out, b)
			dec = append(dec, b)
			i++
			continue
		}
		if in.path.branch(tm.Ult(b, tm.Const(0x80, 8))) {
			dec = append(dec, b)
			i++
			if in.path.branch(in.pred(b, func(c byte) bool { return c == '"' || c == '\\' })) {
				e.lit(`\`)
				e.out = append(e.out, b)
				continue
			}
			if in.path.branch(in.pred(b, func(c byte) bool { return strings.IndexByte("\n\r\t\b\f", c) >= 0 })) {
				e.lit(`\`)
				r := tm.Const('n', 8)
				for k, c := range []byte("\r\t\b\f") {
					r = tm.Ite(tm.Eq(b, tm.Const(uint64(c), 8)), tm.Const(uint64("rtbf"[k]), 8), r)
				}
				e.out = append(e.out, r)
				continue
			}
			e.lit(`\u00`)
			h, l := in.hexByte(b)
			e.out = append(e.out, h, l)
			continue
		}
		r, n := in.decodeRune(bs[i:])
		if n == 1 {
			e.lit(`\ufffd`)
			for _, c := range []byte("\uFFFD") {
				dec = append(dec, tm.Const(uint64(c), 8))
			}
			i++
			continue
		}
		dec = append(dec, bs[i:i+n]...)
		if n == 3 && in.path.branch(tm.Eq(r, tm.Const(0x2028, r.w))) {
			e.lit(`\u2028`)
		} else if n == 3 && in.path.branch(tm.Eq(r, tm.Const(0x2029, r.w))) {
			e.lit(`\u2029`)
		} else {
			e.out = append(e.out, bs[i:i+n]...)
		}
		i += n
	}
	e.lit(`"`)
	return mkStr(dec)
}

func termsKey(ts []*Term) string {
	b := make([]byte, 0, len(ts)*3)
	for _, t := range ts {
		b = binary.AppendUvarint(b, uint64(t.id))
	}
	return string(b)
}

func (in *Interp) jsonMarshal(i Iface, prefix, indent string) Value {
	e := &jenc{in: in, prefix: prefix, indent: indent}
	if i.t == nil {
		e.lit("null")
	} else {
		n := e.enc(i.t, i.v, 0)
		in.jsonMemo[termsKey(e.out)] = n
	}
	return Tuple{termsToSlice(e.out), Iface{}}
}

// ---------------------------------------------------------------- decoding

type jdec struct {
	in  *Interp
	b   []*Term
	pos int
}

type jsonSyntax struct{ msg string }

func (d *jdec) fail(msg string) { panic(jsonSyntax{msg}) }

// is tests the current byte against a concrete set.
func (d *jdec) is(f func(c byte) bool) bool {
	if d.pos >= len(d.b) {
		return false
	}
	return d.in.path.branch(d.in.pred(d.b[d.pos], f))
}

func (d *jdec) isc(c byte) bool { return d.is(func(x byte) bool { return x == c }) }

func (d *jdec) ws() {
	for d.is(func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }) {
		d.pos++
	}
}

func (d *jdec) want(s string) {
	for i := 0; i < len(s); i++ {
		if !d.isc(s[i]) {
			d.fail("invalid character in literal")
		}
		d.pos++
	}
}

func (d *jdec) value(depth int) *jnode {
	if depth > 10000 {
		d.fail("exceeded max depth")
	}
	d.ws()
	if d.pos >= len(d.b) {
		d.fail("unexpected end of JSON input")
	}
	switch {
	case d.isc('{'):
		d.pos++
		n := &jnode{kind: 'o'}
		d.ws()
		if d.isc('}') {
			d.pos++
			return n
		}
		for {
			d.ws()
			if !d.isc('"') {
				d.fail("invalid character looking for beginning of object key string")
			}
			n.keys = append(n.keys, d.str())
			d.ws()
			if !d.isc(':') {
				d.fail("invalid character after object key")
			}
			d.pos++
			n.vals = append(n.vals, d.value(depth+1))
			d.ws()
			if d.isc(',') {
				d.pos++
				continue
			}
			if d.isc('}') {
				d.pos++
				return n
			}
			d.fail("invalid character after object key:value pair")
		}
	case d.isc('['):
		d.pos++
		n := &jnode{kind: 'a'}
		d.ws()
		if d.isc(']') {
			d.pos++
			return n
		}
		for {
			n.vals = append(n.vals, d.value(depth+1))
			d.ws()
			if d.isc(',') {
				d.pos++
				continue
			}
			if d.isc(']') {
				d.pos++
				return n
			}
			d.fail("invalid character after array element")
		}
	case d.isc('"'):
		return &jnode{kind: 's', str: d.str()}
	case d.isc('t'):
		d.want("true")
		return &jnode{kind: 'b', b: true}
	case d.isc('f'):
		d.want("false")
		return &jnode{kind: 'b'}
	case d.isc('n'):
		d.want("null")
		return &jnode{kind: 'z'}
	}
	if d.pos+19 <= len(d.b) {
		c := d.in.tm.Concat(d.b[d.pos : d.pos+19]...)
		if c.op == opUF && c.name == "fmt10" {
			d.pos += 19
			return &jnode{kind: 'n', num: c.args[0]}
		}
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	var txt []byte
	take := func() {
		txt = append(txt, byte(d.in.path.concretize(d.b[d.pos])))
		d.pos++
	}
	if d.isc('-') {
		take()
	}
	if d.isc('0') {
		take()
	} else if d.is(digit) {
		for d.is(digit) {
			take()
		}
	} else {
		d.fail("invalid character looking for beginning of value")
	}
	if d.isc('.') {
		take()
		if !d.is(digit) {
			d.fail("invalid character after decimal point")
		}
		for d.is(digit) {
			take()
		}
	}
	if d.is(func(c byte) bool { return c == 'e' || c == 'E' }) {
		take()
		if d.is(func(c byte) bool { return c == '+' || c == '-' }) {
			take()
		}
		if !d.is(digit) {
			d.fail("invalid character in exponent")
		}
		for d.is(digit) {
			take()
		}
	}
	return &jnode{kind: 'n', text: string(txt)}
}

func (d *jdec) hex4() (rune, []*Term) {
	var r rune
	for k := 0; k < 4; k++ {
		if !d.is(func(c byte) bool {
			return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
		}) {
			d.fail("invalid character in \\u hexadecimal character escape")
		}
		c := byte(d.in.path.concretize(d.b[d.pos]))
		v, _ := strconv.ParseUint(string(c), 16, 8)
		r = r<<4 | rune(v)
		d.pos++
	}
	return r, nil
}

func (d *jdec) str() Value {
	in, tm := d.in, d.in.tm
	d.pos++
	var out []*Term
	add := func(r rune) {
		var b [4]byte
		n := utf8.EncodeRune(b[:], r)
		for _, c := range b[:n] {
			out = append(out, tm.Const(uint64(c), 8))
		}
	}
	for {
		if d.pos >= len(d.b) {
			d.fail("unexpected end of JSON input")
		}
		if d.is(func(c byte) bool { return c >= 0x20 && c < 0x80 && c != '"' && c != '\\' }) {
			out = append(out, d.b[d.pos])
			d.pos++
			continue
		}
		if d.isc('"') {
			d.pos++
			return mkStr(out)
		}
		if d.isc('\\') {
			d.pos++
			switch {
			case d.is(func(c byte) bool { return c == '"' || c == '\\' || c == '/' }):
				out = append(out, d.b[d.pos])
				d.pos++
			case d.is(func(c byte) bool { return strings.IndexByte("bfnrt", c) >= 0 }):
				b := d.b[d.pos]
				r := tm.Const('\b', 8)
				for k, c := range []byte("fnrt") {
					r = tm.Ite(tm.Eq(b, tm.Const(uint64(c), 8)), tm.Const(uint64("\f\n\r\t"[k]), 8), r)
				}
				out = append(out, r)
				d.pos++
			case d.isc('u'):
				d.pos++
				// \u00XX with symbolic nibbles written by our own encoder
				if d.pos+4 <= len(d.b) && d.b[d.pos].isConst() && d.b[d.pos].val == '0' && d.b[d.pos+1].isConst() && d.b[d.pos+1].val == '0' && !d.b[d.pos+3].isConst() {
					if b, ok := in.hexDec[[2]int{d.b[d.pos+2].id, d.b[d.pos+3].id}]; ok && in.path.branch(tm.Ult(b, tm.Const(0x80, 8))) {
						out = append(out, b)
						d.pos += 4
						continue
					}
				}
				r, _ := d.hex4()
				if r >= 0xD800 && r < 0xE000 {
					save := d.pos
					ok := false
					if r < 0xDC00 && d.isc('\\') {
						d.pos++
						if d.isc('u') {
							d.pos++
							r2, _ := d.hex4()
							if r2 >= 0xDC00 && r2 < 0xE000 {
								add((r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000)
								ok = true
							}
						}
					}
					if !ok {
						d.pos = save
						add(0xFFFD)
					}
					continue
				}
				add(r)
			default:
				d.fail("invalid character in string escape code")
			}
			continue
		}
		if d.is(func(c byte) bool { return c < 0x20 }) {
			d.fail("invalid character in string literal")
		}
		_, n := in.decodeRune(d.b[d.pos:])
		if n == 1 {
			add(0xFFFD)
		} else {
			out = append(out, d.b[d.pos:d.pos+n]...)
		}
		d.pos += n
	}
}

func (in *Interp) jsonUnmarshal(data []Value, target Iface) Value {
	ts := in.sliceTerms(data)
	var n *jnode
	if m, ok := in.jsonMemo[termsKey(ts)]; ok {
		n = m
	} else {
		d := &jdec{in: in, b: ts}
		var errv Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					s, ok := r.(jsonSyntax)
					if !ok {
						panic(r)
					}
					errv = in.mkError(s.msg)
				}
			}()
			n = d.value(0)
			d.ws()
			if d.pos < len(d.b) {
				d.fail("invalid character after top-level value")
			}
		}()
		if errv != nil {
			return errv
		}
	}
	p, ok := target.v.(*Value)
	if target.t == nil || !ok || p == nil {
		return in.mkError("json: Unmarshal(nil)")
	}
	a := &jassign{in: in}
	pt := target.t.Underlying().(*types.Pointer)
	a.set(pt.Elem(), p, n)
	if a.err != "" {
		return in.mkError(a.err)
	}
	return Iface{}
}

type jassign struct {
	in  *Interp
	err string
}

func (a *jassign) bad(what string, t types.Type) {
	if a.err == "" {
		a.err = "json: cannot unmarshal " + what + " into Go value of type " + t.String()
	}
}

func (a *jassign) set(t types.Type, p *Value, n *jnode) {
	in := a.in
	if n.kind == 'z' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			*p = in.zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = in.zero(u.Elem())
			*p = q
		}
		a.set(u.Elem(), q, n)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				a.bad(kindName(n), t)
				return
			}
			*p = n.str
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				a.bad(kindName(n), t)
				return
			}
			*p = in.tm.Bool(n.b)
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				a.bad(kindName(n), t)
				return
			}
			w := intWidth(u)
			if n.num != nil {
				if w != 64 {
					a.bad("number", t)
					return
				}
				*p = n.num
				return
			}
			if isSigned(t) {
				v, err := strconv.ParseInt(n.text, 10, w)
				if err != nil {
					a.bad("number "+n.text, t)
					return
				}
				*p = in.tm.Const(uint64(v), w)
			} else {
				v, err := strconv.ParseUint(n.text, 10, w)
				if err != nil {
					a.bad("number "+n.text, t)
					return
				}
				*p = in.tm.Const(v, w)
			}
		default:
			panic(engineErr("json decode into %s", t))
		}
	case *types.Struct:
		if n.kind != 'o' {
			a.bad(kindName(n), t)
			return
		}
		s := (*p).(Struct)
		fs := in.jsonFields(u)
		for k, key := range n.keys {
			idx := -1
			for i, f := range fs {
				if in.path.branch(in.strEq(key, f.name)) {
					idx = i
					break
				}
			}
			if idx < 0 {
				if c, ok := key.(string); ok {
					for i, f := range fs {
						if strings.EqualFold(f.name, c) {
							idx = i
							break
						}
					}
				}
			}
			if idx >= 0 && fs[idx].quoted && n.vals[k].kind != 'z' {
				a.setQuoted(fs[idx].typ, &s[fs[idx].index], n.vals[k])
			} else if idx >= 0 {
				a.set(fs[idx].typ, &s[fs[idx].index], n.vals[k])
			}
		}
	case *types.Map:
		if n.kind != 'o' {
			a.bad(kindName(n), t)
			return
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = newMap()
			*p = m
		}
		for k, key := range n.keys {
			v := new(Value)
			*v = in.zero(u.Elem())
			a.set(u.Elem(), v, n.vals[k])
			in.mapSet(m, key, *v)
		}
	case *types.Slice:
		if n.kind != 'a' {
			a.bad(kindName(n), t)
			return
		}
		out := make([]Value, len(n.vals))
		for i, x := range n.vals {
			out[i] = in.zero(u.Elem())
			a.set(u.Elem(), &out[i], x)
		}
		*p = out
	case *types.Interface:
		panic(engineErr("json decode into interface"))
	default:
		panic(engineErr("json decode into %s", t))
	}
}

// setQuoted reads a field with the string option.
func (a *jassign) setQuoted(t types.Type, p *Value, n *jnode) {
	bad := func() {
		if a.err == "" {
			a.err = "json: invalid use of ,string struct tag, trying to unmarshal into " + t.String()
		}
	}
	if n.kind != 's' {
		bad()
		return
	}
	var m *jnode
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(jsonSyntax); !ok {
					panic(r)
				}
			}
		}()
		d := &jdec{in: a.in, b: a.in.strBytes(n.str)}
		v := d.value(0)
		if d.pos == len(d.b) {
			m = v
		}
	}()
	if m == nil || m.kind == 'o' || m.kind == 'a' {
		bad()
		return
	}
	old := a.err
	a.set(t, p, m)
	if a.err != old {
		a.err = old
		bad()
	}
}

func kindName(n *jnode) string {
	switch n.kind {
	case 'o':
		return "object"
	case 'a':
		return "array"
	case 's':
		return "string"
	case 'n':
		return "number"
	case 'b':
		return "bool"
	}
	return "null"
}
