package main

// encoding/json over interpreted values: a typed walker with the semantics
// of the standard package, on texts that may contain formatted symbolic
// values.

import (
	"encoding/base64"
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type jv struct {
	kind byte // n t # " [ {
	b    bool
	text []Value
	arr  []*jv
	keys []Value
	vals []*jv
	raw  []Value
}

type jsyntax struct {
	msg string
	eof bool
}

type jparser struct {
	w   *W
	e   []Value
	i   int
	own bool // e is the parser's own copy
}

func (p *jparser) fail(msg string) { panic(jsyntax{msg: msg}) }
func (p *jparser) eof()            { panic(jsyntax{msg: "unexpected end of JSON input", eof: true}) }

// is reports whether the current element is the byte c.
func (p *jparser) is(c byte) bool {
	x := p.e[p.i]
	if x.p == nil {
		return byte(x.n) == c
	}
	if h, ok := x.p.(*Hole); ok {
		if h.chars() != "" && strings.IndexByte(h.chars(), c) < 0 {
			return false
		}
		if h.kind == "jstr" {
			return false
		}
		unsup("JSON text with a formatted value (%s) in an unexpected place", h.kind)
	}
	return p.w.branch(p.w.eq(x, Value{n: uint64(c)}, types.Typ[types.Byte]))
}

func (p *jparser) ws() {
	for p.i < len(p.e) {
		x := p.e[p.i]
		if _, ok := x.p.(*Hole); ok {
			return
		}
		if p.is(' ') || p.is('\n') || p.is('\t') || p.is('\r') {
			p.i++
			continue
		}
		return
	}
}

func (p *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if p.i >= len(p.e) {
			p.eof()
		}
		if !p.is(s[k]) {
			p.fail("invalid character in literal " + s)
		}
		p.i++
	}
}

func isNumHole(v Value) *Hole {
	h, ok := v.p.(*Hole)
	if ok && (h.kind == "int" || h.kind == "uint" || h.kind == "f64") {
		return h
	}
	return nil
}

func (p *jparser) value(depth int) *jv {
	p.ws()
	if p.i >= len(p.e) {
		p.eof()
	}
	start := p.i
	done := func(v *jv) *jv {
		v.raw = p.e[start:p.i]
		return v
	}
	if isNumHole(p.e[p.i]) != nil {
		return done(p.number())
	}
	switch {
	case p.is('{'):
		p.i++
		v := &jv{kind: '{'}
		p.ws()
		if p.i >= len(p.e) {
			p.eof()
		}
		if p.is('}') {
			p.i++
			return done(v)
		}
		for {
			p.ws()
			if p.i >= len(p.e) {
				p.eof()
			}
			if !p.is('"') {
				p.fail("invalid character looking for beginning of object key string")
			}
			k := p.str()
			p.ws()
			if p.i >= len(p.e) {
				p.eof()
			}
			if !p.is(':') {
				p.fail("invalid character after object key")
			}
			p.i++
			x := p.value(depth + 1)
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, x)
			p.ws()
			if p.i >= len(p.e) {
				p.eof()
			}
			if p.is(',') {
				p.i++
				continue
			}
			if p.is('}') {
				p.i++
				return done(v)
			}
			p.fail("invalid character after object key:value pair")
		}
	case p.is('['):
		p.i++
		v := &jv{kind: '['}
		p.ws()
		if p.i >= len(p.e) {
			p.eof()
		}
		if p.is(']') {
			p.i++
			return done(v)
		}
		for {
			v.arr = append(v.arr, p.value(depth+1))
			p.ws()
			if p.i >= len(p.e) {
				p.eof()
			}
			if p.is(',') {
				p.i++
				continue
			}
			if p.is(']') {
				p.i++
				return done(v)
			}
			p.fail("invalid character after array element")
		}
	case p.is('"'):
		s := p.str()
		return done(&jv{kind: '"', text: strElems(s)})
	case p.is('n'):
		p.lit("null")
		return done(&jv{kind: 'n'})
	case p.is('t'):
		p.lit("true")
		return done(&jv{kind: 't', b: true})
	case p.is('f'):
		p.lit("false")
		return done(&jv{kind: 't'})
	}
	if x := p.e[p.i]; x.p != nil {
		if h, ok := x.p.(*Hole); ok {
			unsup("JSON value from %s text", h.kind)
		}
		// a symbolic byte that starts a number
		dig := p.w.tt.And(p.w.tt.Bin(OULe, SBool, p.w.tt.BV('0', 8), p.w.term(x, tiByte)), p.w.tt.Bin(OULe, SBool, p.w.term(x, tiByte), p.w.tt.BV('9', 8)))
		if p.is('-') || p.w.branch(dig) {
			return done(p.number())
		}
		p.fail("invalid character looking for beginning of value")
	}
	c := byte(p.e[p.i].n)
	if c == '-' || c >= '0' && c <= '9' {
		return done(p.number())
	}
	p.fail("invalid character " + strconv.QuoteRune(rune(c)) + " looking for beginning of value")
	return nil
}

func (p *jparser) number() *jv {
	start := p.i
	holes := 0
	for p.i < len(p.e) {
		x := p.e[p.i]
		if isNumHole(x) != nil {
			holes++
			p.i++
			continue
		}
		if x.p == nil && strings.IndexByte("+-.0123456789eE", byte(x.n)) >= 0 {
			p.i++
			continue
		}
		if x.p != nil {
			if _, ok := x.p.(*Hole); !ok {
				t := p.w.term(x, tiByte)
				c := p.w.tt.False
				for _, ch := range "+-.0123456789eE" {
					c = p.w.tt.Or(c, p.w.tt.Eq(t, p.w.tt.BV(uint64(ch), 8)))
				}
				if p.w.branch(c) {
					p.fix(p.i, "JSON number")
					p.i++
					continue
				}
			}
		}
		break
	}
	text := p.e[start:p.i]
	if holes == 0 {
		s, _ := conStr(Value{p: Slice(text)})
		var n json.Number
		if json.Unmarshal([]byte(s), &n) != nil {
			p.fail("invalid number " + s)
		}
		return &jv{kind: '#', text: text}
	}
	if holes > 1 {
		p.fail("invalid number")
	}
	if len(text) > 1 {
		// int hole with decimals appended is fine, anything else is unclear
		h := isNumHole(text[0])
		if h == nil || h.kind == "f64" {
			unsup("JSON number composed of formatted values")
		}
		rest, _ := conStr(Value{p: Slice(text[1:])})
		var n json.Number
		if json.Unmarshal([]byte("1"+rest), &n) != nil || rest[0] >= '0' && rest[0] <= '9' {
			unsup("JSON number composed of formatted values")
		}
		return &jv{kind: '#', text: text}
	}
	h := isNumHole(text[0])
	if h.kind == "f64" && h.fmt != 'j' {
		x := p.w.term(h.v, tiF64)
		if p.w.branch(p.w.tt.Or(p.w.tt.Un(OFIsNaN, SBool, x), p.w.tt.Un(OFIsInf, SBool, x))) {
			p.fail("invalid character looking for beginning of value")
		}
	}
	return &jv{kind: '#', text: text}
}

func (p *jparser) str() Value {
	p.i++ // opening quote
	var out []Value
	for {
		if p.i >= len(p.e) {
			p.eof()
		}
		x := p.e[p.i]
		if h, ok := x.p.(*Hole); ok {
			if h.kind == "jstr" {
				out = append(out, h.s...)
			} else {
				out = append(out, x)
			}
			p.i++
			continue
		}
		if p.is('"') {
			p.i++
			return elemsToStr(out)
		}
		if p.is('\\') {
			p.i++
			if p.i >= len(p.e) {
				p.eof()
			}
			if c := p.e[p.i]; c.p != nil {
				found := false
				for _, x := range []byte(`"\/bfnrtu`) {
					if found = p.is(x); found {
						p.fix(p.i, "JSON escape")
						break
					}
				}
				if !found {
					p.fail("invalid character in string escape code")
				}
			}
			c := p.e[p.i]
			p.i++
			switch byte(c.n) {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, Value{n: '\b'})
			case 'f':
				out = append(out, Value{n: '\f'})
			case 'n':
				out = append(out, Value{n: '\n'})
			case 'r':
				out = append(out, Value{n: '\r'})
			case 't':
				out = append(out, Value{n: '\t'})
			case 'u':
				s := ""
				hex := func() rune {
					if p.i+4 > len(p.e) {
						p.eof()
					}
					for j := p.i; j < p.i+4; j++ {
						if p.e[j].p != nil {
							if !p.between(j, '0', '9') && !p.between(j, 'a', 'f') && !p.between(j, 'A', 'F') {
								p.fail("invalid character in \\u hexadecimal character escape")
							}
							p.fix(j, "hexadecimal digit")
						}
					}
					s = mustStr(elemsToStr(p.e[p.i:p.i+4]), "JSON escape")
					r, err := strconv.ParseUint(s, 16, 32)
					if err != nil {
						p.fail("invalid character in \\u hexadecimal character escape")
					}
					p.i += 4
					return rune(r)
				}
				r := hex()
				if r >= 0xd800 && r < 0xdc00 && p.i+1 < len(p.e) && p.e[p.i].p == nil && p.e[p.i].n == '\\' && p.e[p.i+1].p == nil && p.e[p.i+1].n == 'u' {
					save := p.i
					p.i += 2
					r2 := hex()
					if r2 >= 0xdc00 && r2 < 0xe000 {
						r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
					} else {
						p.i = save
						r = utf8.RuneError
					}
				} else if r >= 0xd800 && r < 0xe000 {
					r = utf8.RuneError
				}
				out = append(out, strElems(mkStr(string(r)))...)
			default:
				p.fail("invalid character in string escape code")
			}
			continue
		}
		if x.p == nil {
			if x.n < 0x20 {
				p.fail("invalid character in string literal")
			}
			if x.n >= 0x80 {
				r, n := p.rune()
				out = append(out, strElems(mkStr(r))...)
				p.i += n
				continue
			}
		} else {
			t := p.w.term(x, tiByte)
			if p.w.branch(p.w.tt.Bin(OULt, SBool, t, p.w.tt.BV(0x20, 8))) {
				p.fail("invalid character in string literal")
			}
			if p.w.branch(p.w.tt.Bin(OULe, SBool, p.w.tt.BV(0x80, 8), t)) {
				r, n := p.rune()
				out = append(out, strElems(mkStr(r))...)
				p.i += n
				continue
			}
		}
		out = append(out, x)
		p.i++
	}
}

// fix makes the byte at i concrete, exploring every value it can have.
func (p *jparser) fix(i int, what string) byte {
	if p.e[i].p == nil {
		return byte(p.e[i].n)
	}
	v := p.w.concretize(p.w.term(p.e[i], tiByte), what)
	if !p.own {
		p.e, p.own = append([]Value{}, p.e...), true
	}
	p.e[i] = Value{n: v}
	return byte(v)
}

func (p *jparser) between(i int, lo, hi byte) bool {
	x := p.e[i]
	if x.p == nil {
		return byte(x.n) >= lo && byte(x.n) <= hi
	}
	if _, ok := x.p.(*Hole); ok {
		return false // formatted values are ASCII
	}
	t := p.w.term(x, tiByte)
	return p.w.branch(p.w.tt.And(p.w.tt.Bin(OULe, SBool, p.w.tt.BV(uint64(lo), 8), t), p.w.tt.Bin(OULe, SBool, t, p.w.tt.BV(uint64(hi), 8))))
}

// rune decodes the rune at p.i, which starts with a byte that is not ASCII.
func (p *jparser) rune() (string, int) {
	if p.e[p.i].p != nil {
		if p.i+1 >= len(p.e) || !p.between(p.i+1, 0x80, 0xbf) {
			return "\ufffd", 1
		}
		p.fix(p.i, "byte of a rune")
	}
	var b []byte
	for j := p.i; j < len(p.e) && j < p.i+4; j++ {
		if p.e[j].p != nil {
			if utf8.FullRune(b) || !p.between(j, 0x80, 0xbf) {
				break
			}
			p.fix(j, "byte of a rune")
		}
		b = append(b, byte(p.e[j].n))
	}
	r, n := utf8.DecodeRune(b)
	return string(r), n
}

// parseJSON parses one value; rest is what follows it.
func (w *W) parseJSON(e []Value, whole bool) (v *jv, rest []Value, err *jsyntax) {
	p := &jparser{w: w, e: e}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(jsyntax); ok {
				v, err = nil, &s
				return
			}
			panic(r)
		}
	}()
	v = p.value(0)
	if whole {
		p.ws()
		if p.i < len(e) {
			p.fail("invalid character after top-level value")
		}
	}
	return v, e[p.i:], nil
}

func (w *W) jsonSyntaxErr(s *jsyntax) Value {
	t := w.eng.typ("encoding/json", "SyntaxError")
	return Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: Agg{mkStr(s.msg), {}}})}}
}

// ---- struct fields ----

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omitEmpty bool
	quoted    bool
	tagged    bool
}

func jsonFields(t types.Type) []jfield {
	var out []jfield
	var walk func(t types.Type, path []int)
	seen := map[string]int{}
	walk = func(t types.Type, path []int) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			pth := append(append([]int{}, path...), i)
			if f.Anonymous() && parts[0] == "" {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					if !f.Exported() {
						continue
					}
					_ = p
					unsup("JSON of an embedded pointer")
				}
				if _, ok := ft.Underlying().(*types.Struct); ok {
					walk(ft, pth)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: parts[0], path: pth, t: f.Type(), tagged: parts[0] != ""}
			if jf.name == "" {
				jf.name = f.Name()
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					jf.omitEmpty = true
				case "string":
					jf.quoted = true
				case "omitzero":
					unsup("omitzero")
				}
			}
			if k, ok := seen[jf.name]; ok {
				if len(out[k].path) <= len(pth) {
					continue
				}
				out[k] = jf
				continue
			}
			seen[jf.name] = len(out)
			out = append(out, jf)
		}
	}
	walk(t, nil)
	return out
}

// ---- encoding ----

type jerr struct{ v Value }

func (w *W) jsonMarshal(v Value, html bool) (out []Value, errV Value) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				out, errV = nil, e.v
				return
			}
			panic(r)
		}
	}()
	ifc, ok := v.p.(*Iface)
	if !ok {
		return strElems(mkStr("null")), Value{}
	}
	return w.jenc(ifc.t, ifc.v, nil, html), Value{}
}

func (w *W) jsonString(s Value, escHTML bool) []Value {
	if c, ok := conStr(s); ok {
		b, _ := json.Marshal(c)
		if !escHTML {
			var sb strings.Builder
			enc := json.NewEncoder(&sb)
			enc.SetEscapeHTML(false)
			enc.Encode(c)
			b = []byte(strings.TrimSuffix(sb.String(), "\n"))
		}
		return strElems(mkStr(string(b)))
	}
	e := strElems(s)
	// Plain parts are rendered as they are, symbolic bytes as one unit whose
	// text decodes back to them (valid for ASCII).
	q := Value{n: '"'}
	out := []Value{q}
	for i := 0; i < len(e); {
		if h := isNumHole(e[i]); h != nil {
			out = append(out, e[i])
			i++
			continue
		}
		if _, ok := e[i].p.(*Term); ok {
			j := i
			for j < len(e) {
				t, ok := e[j].p.(*Term)
				if !ok {
					break
				}
				if w.branch(w.tt.Bin(OULe, SBool, w.tt.BV(0x80, 8), t)) {
					break
				}
				j++
			}
			if j == i {
				// not ASCII: invalid by itself between ASCII bytes, else made concrete
				alone := (i == 0 || e[i-1].p == nil && e[i-1].n < 0x80) && (i+1 == len(e) || e[i+1].p == nil && e[i+1].n < 0x80)
				e = append([]Value{}, e...)
				if alone {
					e[i] = Value{n: 0xff}
				} else {
					e[i] = Value{n: w.concretize(w.term(e[i], tiByte), "byte of a rune")}
				}
				// a rune may have begun before it
				return w.jsonString(elemsToStr(e), escHTML)
			}
			out = append(out, Value{p: &Hole{kind: "jstr", s: append([]Value{}, e[i:j]...)}})
			i = j
			continue
		}
		if h, ok := e[i].p.(*Hole); ok {
			switch h.kind {
			case "quote", "fmt", "time", "ptr":
				// text that is only carried along
				out = append(out, Value{p: &Hole{kind: "jstr", s: []Value{e[i]}}})
				i++
				continue
			}
		}
		if e[i].p != nil {
			unsup("JSON string with %T", e[i].p)
		}
		j := i
		for j < len(e) && e[j].p == nil {
			j++
		}
		c, _ := conStr(Value{p: Slice(e[i:j])})
		b, _ := json.Marshal(c)
		out = append(out, strElems(mkStr(string(b[1:len(b)-1])))...)
		i = j
	}
	return append(out, q)
}

func (w *W) jsonErr(kind string, msg string) {
	panic(jerr{w.errStr("json: " + msg)})
}

func (w *W) isEmptyJSON(t types.Type, v Value) bool {
	ti := typeInfo(t)
	switch ti.k {
	case KString, KSlice, KArray:
		return len(sl2(v)) == 0
	case KMap:
		m, _ := v.p.(*MapV)
		return m == nil || m.n == 0
	case KBool:
		return !w.branchV(v)
	case KInt:
		return w.branch(w.tt.Eq(w.term(v, ti), w.tt.BV(0, ti.w)))
	case KF64:
		return w.branch(w.tt.Bin(OFEq, SBool, w.term(v, ti), w.tt.F64(0)))
	case KPtr, KIface:
		return v.p == nil
	}
	return false
}

func sl2(v Value) []Value {
	switch s := v.p.(type) {
	case Slice:
		return s
	case Agg:
		return s
	case nil:
		return nil
	}
	return strElems(v)
}

func (w *W) jenc(t types.Type, v Value, addr *Value, escHTML bool) []Value {
	if isRawMessage(t) {
		if v.p == nil {
			return strElems(mkStr("null"))
		}
		jvv, _, err := w.parseJSON(v.p.(Slice), true)
		if err != nil {
			panic(jerr{w.jsonSyntaxErr(err)})
		}
		return w.jcompact(jvv)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" {
		switch n.Obj().Name() {
		case "Number":
			e := strElems(v)
			if len(e) == 0 {
				return []Value{{n: '0'}}
			}
			x, rest, err := w.parseJSON(e, true)
			if err != nil || len(rest) > 0 || x.kind != '#' {
				w.jsonErr("", "invalid number literal")
			}
			return e
		}
	}
	k := typeInfo(t).k
	if k != KIface {
		if m := w.methodByName(t, "MarshalJSON"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 2 {
			if k == KPtr && v.p == nil {
				return strElems(mkStr("null"))
			}
			return w.jmarshaler(m, v)
		}
		if addr != nil && k != KPtr {
			if m := w.methodByName(types.NewPointer(t), "MarshalJSON"); m != nil && m.Signature.Params().Len() == 0 {
				return w.jmarshaler(m, Value{p: addr})
			}
		}
		if m := w.methodByName(t, "MarshalText"); m != nil && m.Signature.Params().Len() == 0 {
			if k == KPtr && v.p == nil {
				return strElems(mkStr("null"))
			}
			r := w.callSync(Value{p: m}, v).p.(Tuple)
			if r[1].p != nil {
				panic(jerr{r[1]})
			}
			return w.jsonString(elemsToStr(sl(r[0])), escHTML)
		}
	}
	switch k {
	case KBool:
		if w.branchV(v) {
			return strElems(mkStr("true"))
		}
		return strElems(mkStr("false"))
	case KInt:
		return strElems(w.fmtInt(v, typeInfo(t).signed))
	case KF64:
		if tm, ok := v.p.(*Term); ok {
			if w.branch(w.tt.Or(w.tt.Un(OFIsNaN, SBool, tm), w.tt.Un(OFIsInf, SBool, tm))) {
				w.jsonErr("", "unsupported value")
			}
			return []Value{{p: &Hole{kind: "f64", fmt: 'j', prec: -1, v: v}}}
		}
		b, err := json.Marshal(math.Float64frombits(v.n))
		if err != nil {
			w.jsonErr("", "unsupported value: "+strconv.FormatFloat(math.Float64frombits(v.n), 'g', -1, 64))
		}
		return strElems(mkStr(string(b)))
	case KString:
		return w.jsonString(v, escHTML)
	case KIface:
		ifc, ok := v.p.(*Iface)
		if !ok {
			return strElems(mkStr("null"))
		}
		return w.jenc(ifc.t, ifc.v, nil, escHTML)
	case KPtr:
		if v.p == nil {
			return strElems(mkStr("null"))
		}
		p := w.ptr(v)
		return w.jenc(t.Underlying().(*types.Pointer).Elem(), *p, p, escHTML)
	case KSlice:
		s, ok := v.p.(Slice)
		if !ok {
			return strElems(mkStr("null"))
		}
		et := t.Underlying().(*types.Slice).Elem()
		if eb := typeInfo(et); eb.k == KInt && eb.w == 8 && !eb.signed {
			c, ok := conStr(v)
			if !ok {
				h := &Hole{kind: "b64", s: append([]Value{}, v.p.(Slice)...)}
				return []Value{{n: '"'}, {p: h}, {n: '"'}}
			}
			return strElems(mkStr(`"` + base64.StdEncoding.EncodeToString([]byte(c)) + `"`))
		}
		return w.jlist(et, s, escHTML)
	case KArray:
		return w.jlist(t.Underlying().(*types.Array).Elem(), v.p.(Agg), escHTML)
	case KMap:
		m, _ := v.p.(*MapV)
		if m == nil {
			return strElems(mkStr("null"))
		}
		mt := t.Underlying().(*types.Map)
		kk := typeInfo(mt.Key())
		out := []Value{{n: '{'}}
		es := w.mapSorted(m)
		if kk.k == KInt && len(es) > 1 {
			// JSON sorts by text
			sort.SliceStable(es, func(i, j int) bool {
				a, b := w.fmtInt(es[i].k, kk.signed), w.fmtInt(es[j].k, kk.signed)
				return mustStr(a, "json map key") < mustStr(b, "json map key")
			})
		}
		for i, e := range es {
			if i > 0 {
				out = append(out, Value{n: ','})
			}
			switch kk.k {
			case KString:
				out = append(out, w.jsonString(e.k, escHTML)...)
			case KInt:
				out = append(out, w.jsonString(w.fmtInt(e.k, kk.signed), escHTML)...)
			default:
				w.jsonErr("", "unsupported type: "+t.String())
			}
			out = append(out, Value{n: ':'})
			out = append(out, w.jenc(mt.Elem(), e.v, nil, escHTML)...)
		}
		return append(out, Value{n: '}'})
	case KStruct:
		out := []Value{{n: '{'}}
		first := true
		for _, f := range jsonFields(t) {
			x := v
			var xa *Value
			base := v
			if addr != nil {
				base = *addr
			}
			for _, i := range f.path {
				xa = &base.p.(Agg)[i]
				base = *xa
			}
			x = base
			if addr == nil {
				xa = nil
			}
			if f.omitEmpty && w.isEmptyJSON(f.t, x) {
				continue
			}
			if !first {
				out = append(out, Value{n: ','})
			}
			first = false
			out = append(out, w.jsonString(mkStr(f.name), true)...)
			out = append(out, Value{n: ':'})
			b := w.jenc(f.t, x, xa, escHTML)
			if f.quoted {
				switch typeInfo(f.t).k {
				case KInt, KF64, KBool:
					b = append(append([]Value{{n: '"'}}, b...), Value{n: '"'})
				case KString:
					b = w.jsonString(elemsToStr(b), escHTML)
				}
			}
			out = append(out, b...)
		}
		return append(out, Value{n: '}'})
	}
	w.jsonErr("", "unsupported type: "+t.String())
	return nil
}

func (w *W) jlist(et types.Type, s []Value, escHTML bool) []Value {
	out := []Value{{n: '['}}
	for i := range s {
		if i > 0 {
			out = append(out, Value{n: ','})
		}
		out = append(out, w.jenc(et, s[i], &s[i], escHTML)...)
	}
	return append(out, Value{n: ']'})
}

func (w *W) jcompact(v *jv) []Value {
	switch v.kind {
	case '[':
		out := []Value{{n: '['}}
		for i, x := range v.arr {
			if i > 0 {
				out = append(out, Value{n: ','})
			}
			out = append(out, w.jcompact(x)...)
		}
		return append(out, Value{n: ']'})
	case '{':
		out := []Value{{n: '{'}}
		for i, x := range v.vals {
			if i > 0 {
				out = append(out, Value{n: ','})
			}
			out = append(out, w.jsonString(v.keys[i], true)...)
			out = append(out, Value{n: ':'})
			out = append(out, w.jcompact(x)...)
		}
		return append(out, Value{n: '}'})
	}
	return v.raw
}

func (w *W) jmarshaler(m any, v Value) []Value {
	r := w.callSync(Value{p: m}, v).p.(Tuple)
	if r[1].p != nil {
		// *json.MarshalerError
		t := w.eng.typ("encoding/json", "MarshalerError")
		st := t.Underlying().(*types.Struct)
		a := make(Agg, st.NumFields())
		for i := range a {
			a[i] = zero(st.Field(i).Type())
			if st.Field(i).Name() == "Err" {
				a[i] = r[1]
			}
		}
		panic(jerr{Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: a})}}})
	}
	x, _, err := w.parseJSON(sl(r[0]), true)
	if err != nil {
		panic(jerr{w.jsonSyntaxErr(err)})
	}
	return w.jcompact(x)
}

// ---- decoding ----

type jdec struct {
	w         *W
	saved     Value
	useNumber bool
	strict    bool
}

func (d *jdec) save(msg string) {
	if d.saved.p == nil {
		t := d.w.eng.typ("encoding/json", "UnmarshalTypeError")
		st := t.Underlying().(*types.Struct)
		a := make(Agg, st.NumFields())
		for i := range a {
			a[i] = zero(st.Field(i).Type())
			if st.Field(i).Name() == "Value" {
				a[i] = mkStr(msg)
			}
		}
		d.saved = Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: a})}}
	}
}

func (w *W) jsonUnmarshal(text []Value, target Value, useNumber, strict bool) Value {
	v, _, err := w.parseJSON(text, true)
	if err != nil {
		return w.jsonSyntaxErr(err)
	}
	return w.jsonDecode(v, target, useNumber, strict)
}

func (w *W) jsonDecode(v *jv, target Value, useNumber, strict bool) (errV Value) {
	ifc, ok := target.p.(*Iface)
	if !ok || typeInfo(ifc.t).k != KPtr || ifc.v.p == nil {
		return w.errStr("json: Unmarshal(non-pointer)")
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				errV = e.v
				return
			}
			panic(r)
		}
	}()
	d := &jdec{w: w, useNumber: useNumber, strict: strict}
	p := w.ptr(ifc.v)
	d.dec(v, p, ifc.t.Underlying().(*types.Pointer).Elem())
	return d.saved
}

func (d *jdec) generic(v *jv) Value {
	w := d.w
	mk := func(t types.Type, x Value) Value { return Value{p: &Iface{t: t, v: x}} }
	switch v.kind {
	case 'n':
		return Value{}
	case 't':
		return mk(types.Typ[types.Bool], mkBool(v.b))
	case '"':
		return mk(types.Typ[types.String], elemsToStr(v.text))
	case '#':
		if d.useNumber {
			return mk(w.eng.typ("encoding/json", "Number"), elemsToStr(v.text))
		}
		return mk(types.Typ[types.Float64], d.float(v))
	case '[':
		s := make(Slice, len(v.arr))
		for i, x := range v.arr {
			s[i] = d.generic(x)
		}
		return mk(types.NewSlice(emptyIface), Value{p: s})
	case '{':
		m := newMap(types.NewMap(types.Typ[types.String], emptyIface))
		for i, k := range v.keys {
			w.mapSet(m, k, d.generic(v.vals[i]))
		}
		return mk(types.NewMap(types.Typ[types.String], emptyIface), Value{p: m})
	}
	panic("generic")
}

var emptyIface = types.Universe.Lookup("any").Type().Underlying()

func (d *jdec) float(v *jv) Value {
	s := elemsToStr(v.text)
	if c, ok := conStr(s); ok {
		f, err := strconv.ParseFloat(c, 64)
		if err != nil {
			d.save("number " + c)
			return Value{}
		}
		return Value{n: math.Float64bits(f)}
	}
	f, ok := d.w.holeFloat(s)
	if !ok {
		d.save("number")
	}
	return f
}

func (d *jdec) dec(v *jv, slot *Value, t types.Type) {
	w := d.w
	if isRawMessage(t) {
		w.store(slot, Value{p: append(Slice{}, v.raw...)})
		return
	}
	k := typeInfo(t).k
	// Unmarshaler on the address
	if k != KIface && k != KPtr {
		if m := w.methodByName(types.NewPointer(t), "UnmarshalJSON"); m != nil && m.Signature.Params().Len() == 1 {
			r := w.callSync(Value{p: m}, Value{p: slot}, Value{p: append(Slice{}, v.raw...)})
			if r.p != nil {
				panic(jerr{r})
			}
			return
		}
		if v.kind == '"' {
			if m := w.methodByName(types.NewPointer(t), "UnmarshalText"); m != nil && m.Signature.Params().Len() == 1 {
				r := w.callSync(Value{p: m}, Value{p: slot}, Value{p: append(Slice{}, v.text...)})
				if r.p != nil {
					panic(jerr{r})
				}
				return
			}
		}
	}
	if v.kind == 'n' {
		switch k {
		case KIface, KPtr, KMap, KSlice:
			w.store(slot, Value{})
		}
		return
	}
	if k == KPtr {
		et := t.Underlying().(*types.Pointer).Elem()
		if slot.p == nil {
			nv := zero(et)
			w.store(slot, newObj(nv))
		}
		d.dec(v, w.ptr(*slot), et)
		return
	}
	if k == KIface {
		it := t.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			// a non-nil pointer inside is decoded into
			if ifc, ok := slot.p.(*Iface); ok && typeInfo(ifc.t).k == KPtr && ifc.v.p != nil {
				d.dec(v, w.ptr(ifc.v), ifc.t.Underlying().(*types.Pointer).Elem())
				return
			}
			w.store(slot, d.generic(v))
			return
		}
		d.save(kindName(v))
		return
	}
	switch v.kind {
	case 't':
		if k != KBool {
			d.save("bool")
			return
		}
		w.store(slot, mkBool(v.b))
	case '"':
		s := elemsToStr(v.text)
		switch k {
		case KString:
			if isJSONNumber(t) {
				// a quoted number must be a valid number
				x, rest, err := w.parseJSON(v.text, true)
				if err != nil || len(rest) > 0 || x.kind != '#' {
					panic(jerr{w.errStr("json: invalid number literal, trying to unmarshal into Number")})
				}
			}
			w.store(slot, s)
		case KSlice:
			et := typeInfo(t.Underlying().(*types.Slice).Elem())
			if et.k == KInt && et.w == 8 {
				if h := soleHole(s); h != nil && h.kind == "b64" {
					w.store(slot, Value{p: append(Slice{}, h.s...)})
					return
				}
				b, err := base64.StdEncoding.DecodeString(mustStr(s, "base64 JSON string"))
				if err != nil {
					if d.saved.p == nil {
						d.saved = w.errStr(err.Error())
					}
					return
				}
				w.store(slot, bytesVal(b))
				return
			}
			d.save("string")
		default:
			d.save("string")
		}
	case '#':
		ti := typeInfo(t)
		switch k {
		case KF64:
			w.store(slot, d.float(v))
		case KString:
			if isJSONNumber(t) {
				w.store(slot, elemsToStr(v.text))
				return
			}
			d.save("number")
		case KInt:
			s := elemsToStr(v.text)
			bits := int(ti.w)
			fn := "ParseInt"
			if !ti.signed {
				fn = "ParseUint"
			}
			if c, ok := conStr(s); ok {
				if ti.signed {
					n, err := strconv.ParseInt(c, 10, bits)
					if err != nil {
						d.save("number " + c)
						return
					}
					w.store(slot, mkInt(n))
				} else {
					n, err := strconv.ParseUint(c, 10, bits)
					if err != nil {
						d.save("number " + c)
						return
					}
					w.store(slot, Value{n: n})
				}
				return
			}
			f := w.eng.findFunc("strconv", fn)
			r := w.callSync(Value{p: f}, s, mkInt(10), mkInt(int64(bits))).p.(Tuple)
			if r[1].p != nil {
				d.save("number")
				return
			}
			x := r[0]
			if tm, ok := x.p.(*Term); ok && bits < 64 {
				x = w.iv(w.tt.Extract(bits-1, 0, tm), ti)
			}
			w.store(slot, x)
		default:
			d.save("number")
		}
	case '[':
		switch k {
		case KSlice:
			et := t.Underlying().(*types.Slice).Elem()
			old, _ := slot.p.(Slice)
			s := make(Slice, len(v.arr))
			for i := range s {
				// elements of the old backing array are reused by encoding/json
				if i < cap(old) {
					s[i] = copyVal(old[:cap(old)][i])
					if i >= len(old) {
						s[i] = zero(et)
					}
				} else {
					s[i] = zero(et)
				}
			}
			w.store(slot, Value{p: s})
			for i, x := range v.arr {
				d.dec(x, &s[i], et)
			}
		case KArray:
			et := t.Underlying().(*types.Array).Elem()
			a := slot.p.(Agg)
			for i := range a {
				if i < len(v.arr) {
					d.dec(v.arr[i], &a[i], et)
				} else {
					w.store(&a[i], zero(et))
				}
			}
		default:
			d.save("array")
		}
	case '{':
		switch k {
		case KMap:
			mt := t.Underlying().(*types.Map)
			if typeInfo(mt.Key()).k != KString {
				unsup("JSON object into %s", t)
			}
			if slot.p == nil {
				w.store(slot, Value{p: newMap(mt)})
			}
			m := slot.p.(*MapV)
			for i, key := range v.keys {
				x := zero(mt.Elem())
				px := &x
				d.dec(v.vals[i], px, mt.Elem())
				w.mapSet(m, key, *px)
			}
		case KStruct:
			fs := jsonFields(t)
			for i, key := range v.keys {
				var f *jfield
				ks, con := conStr(key)
				if !con {
					ks = "?"
					f = w.fieldOf(fs, strElems(key))
				}
				for j := range fs {
					if con && fs[j].name == ks {
						f = &fs[j]
						break
					}
				}
				if con && f == nil {
					for j := range fs {
						if strings.EqualFold(fs[j].name, ks) {
							f = &fs[j]
							break
						}
					}
				}
				if f == nil {
					if d.strict {
						panic(jerr{w.errStr("json: unknown field " + strconv.Quote(ks))})
					}
					continue
				}
				p := slot
				for _, ix := range f.path {
					p = &p.p.(Agg)[ix]
				}
				if f.quoted {
					x := v.vals[i]
					if x.kind == 'n' {
						continue
					}
					if x.kind != '"' {
						panic(jerr{w.errStr("json: invalid use of ,string struct tag")})
					}
					in, _, err := w.parseJSON(x.text, true)
					if err != nil {
						panic(jerr{w.errStr("json: invalid use of ,string struct tag")})
					}
					d.dec(in, p, f.t)
					continue
				}
				d.dec(v.vals[i], p, f.t)
			}
		default:
			d.save("object")
		}
	}
}

// fieldOf finds the field that a key with symbolic bytes names.
func (w *W) fieldOf(fs []jfield, e []Value) *jfield {
	for _, x := range e {
		if x.p == nil && x.n >= 0x80 {
			unsup("JSON object key with symbolic and non-ASCII bytes")
		}
	}
	for j := range fs {
		if len(fs[j].name) == len(e) && w.branch(w.strEq(elemsToStr(e), mkStr(fs[j].name))) {
			return &fs[j]
		}
	}
	for j := range fs {
		if len(fs[j].name) != len(e) {
			continue
		}
		c := w.tt.True
		for i, x := range e {
			n := fs[j].name[i]
			t := w.term(x, tiByte)
			o := w.tt.Eq(t, w.tt.BV(uint64(n), 8))
			if l := n | 0x20; l >= 'a' && l <= 'z' {
				o = w.tt.Or(o, w.tt.Eq(t, w.tt.BV(uint64(n^0x20), 8)))
			}
			c = w.tt.And(c, o)
		}
		if w.branch(c) {
			return &fs[j]
		}
	}
	return nil
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "encoding/json" && n.Obj().Name() == "RawMessage" || p == "encoding/json/jsontext" && n.Obj().Name() == "Value"
}

func isJSONNumber(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number"
}

func kindName(v *jv) string {
	switch v.kind {
	case 't':
		return "bool"
	case '"':
		return "string"
	case '#':
		return "number"
	case '[':
		return "array"
	}
	return "object"
}

type decSt struct {
	rd        Value
	buf       []Value
	read      bool
	rdErr     Value
	useNumber bool
	strict    bool
}

// readAll drains a reader.
func (w *W) readAll(rd Value) ([]Value, Value) {
	ifc, ok := rd.p.(*Iface)
	if !ok {
		panic(w.nilPanic())
	}
	m := w.methodByName(ifc.t, "Read")
	var out []Value
	for i := 0; ; i++ {
		if i > 10000 {
			unsup("reader does not end")
		}
		buf := make(Slice, 512)
		r := w.callSync(Value{p: m}, ifc.v, Value{p: buf}).p.(Tuple)
		n := w.concInt(r[0], "read count")
		out = append(out, buf[:n]...)
		if r[1].p != nil {
			eof := *w.global(w.eng.ssaPkgs["io"].Var("EOF"))
			if w.branch(w.eq(r[1], eof, w.eng.typ("io", "Reader").Underlying())) {
				return out, Value{}
			}
			return out, r[1]
		}
	}
}

func init() {
	regS("encoding/json.Marshal", func(w *W, a []Value) Value {
		b, err := w.jsonMarshal(a[0], true)
		if err.p != nil {
			return tup(Value{}, err)
		}
		return tup(Value{p: append(Slice{}, b...)}, Value{})
	})
	regS("encoding/json.Unmarshal", func(w *W, a []Value) Value {
		return w.jsonUnmarshal(sl(a[0]), a[1], false, false)
	})
	regS("encoding/json.Valid", func(w *W, a []Value) Value {
		_, _, err := w.parseJSON(sl(a[0]), true)
		return mkBool(err == nil)
	})
	regS("encoding/json.NewDecoder", func(w *W, a []Value) Value {
		p := newObj(zero(w.eng.typ("encoding/json", "Decoder")))
		w.side[sideKey{p.p.(*Value), "jdec"}] = &decSt{rd: a[0]}
		return p
	})
	decOf := func(w *W, v Value) *decSt {
		d, _ := w.side[sideKey{w.ptr(v), "jdec"}].(*decSt)
		if d == nil {
			unsup("unknown json.Decoder")
		}
		return d
	}
	regS("(*encoding/json.Decoder).UseNumber", func(w *W, a []Value) Value { decOf(w, a[0]).useNumber = true; return Value{} })
	regS("(*encoding/json.Decoder).DisallowUnknownFields", func(w *W, a []Value) Value { decOf(w, a[0]).strict = true; return Value{} })
	regS("(*encoding/json.Decoder).Buffered", func(w *W, a []Value) Value { unsup("Decoder.Buffered"); return Value{} })
	regS("(*encoding/json.Decoder).More", func(w *W, a []Value) Value {
		d := decOf(w, a[0])
		w.decFill(d)
		p := &jparser{w: w, e: d.buf}
		p.ws()
		return mkBool(p.i < len(p.e))
	})
	regS("(*encoding/json.Decoder).Decode", func(w *W, a []Value) Value {
		d := decOf(w, a[0])
		v, errV := w.decNext(d)
		if errV.p != nil {
			return errV
		}
		return w.jsonDecode(v, a[1], d.useNumber, d.strict)
	})
	regS("encoding/json.NewEncoder", func(w *W, a []Value) Value {
		p := newObj(zero(w.eng.typ("encoding/json", "Encoder")))
		w.side[sideKey{p.p.(*Value), "jenc"}] = &encSt{wr: a[0], html: true}
		return p
	})
	regS("(*encoding/json.Encoder).SetEscapeHTML", func(w *W, a []Value) Value {
		w.side[sideKey{w.ptr(a[0]), "jenc"}].(*encSt).html = w.branchV(a[1])
		return Value{}
	})
	regS("(*encoding/json.Encoder).Encode", func(w *W, a []Value) Value {
		st, _ := w.side[sideKey{w.ptr(a[0]), "jenc"}].(*encSt)
		if st == nil {
			unsup("unknown json.Encoder")
		}
		b, err := w.jsonMarshal(a[1], st.html)
		if err.p != nil {
			return err
		}
		b = append(append([]Value{}, b...), Value{n: '\n'})
		ifc := st.wr.p.(*Iface)
		m := w.methodByName(ifc.t, "Write")
		r := w.callSync(Value{p: m}, ifc.v, Value{p: Slice(b)}).p.(Tuple)
		return r[1]
	})
	regS("encoding/json.Compact", func(w *W, a []Value) Value { unsup("json.Compact"); return Value{} })
	regS("encoding/json.HTMLEscape", func(w *W, a []Value) Value { unsup("json.HTMLEscape"); return Value{} })
	regS("(*encoding/json.SyntaxError).Error", func(w *W, a []Value) Value { return w.ptr(a[0]).p.(Agg)[0] })
	regS("(*encoding/json.UnmarshalTypeError).Error", func(w *W, a []Value) Value {
		return concatStr(mkStr("json: cannot unmarshal "), w.ptr(a[0]).p.(Agg)[0])
	})
	regS("(*encoding/json.MarshalerError).Error", func(w *W, a []Value) Value { return mkStr("json: error calling MarshalJSON") })
	regS("(*encoding/json.MarshalerError).Unwrap", func(w *W, a []Value) Value {
		t := w.eng.typ("encoding/json", "MarshalerError")
		return w.ptr(a[0]).p.(Agg)[fieldIdx(t, "Err")]
	})
	regS("(encoding/json.Number).String", func(w *W, a []Value) Value { return a[0] })
	regS("(encoding/json.Number).Float64", func(w *W, a []Value) Value {
		f := w.eng.findFunc("strconv", "ParseFloat")
		return w.callSync(Value{p: f}, a[0], mkInt(64))
	})
	regS("(encoding/json.Number).Int64", func(w *W, a []Value) Value {
		f := w.eng.findFunc("strconv", "ParseInt")
		return w.callSync(Value{p: f}, a[0], mkInt(10), mkInt(64))
	})
	regS("(encoding/json.RawMessage).MarshalJSON", func(w *W, a []Value) Value {
		if a[0].p == nil {
			return tup(Value{p: Slice(strElems(mkStr("null")))}, Value{})
		}
		return tup(a[0], Value{})
	})
}

type encSt struct {
	wr   Value
	html bool
}

func (w *W) decFill(d *decSt) {
	if !d.read {
		d.read = true
		d.buf, d.rdErr = w.readAll(d.rd)
	}
}

// decNext takes the next value off a decoder's stream.
func (w *W) decNext(d *decSt) (*jv, Value) {
	w.decFill(d)
	p := &jparser{w: w, e: d.buf}
	p.ws()
	if p.i >= len(p.e) {
		if d.rdErr.p != nil {
			return nil, d.rdErr
		}
		return nil, *w.global(w.eng.ssaPkgs["io"].Var("EOF"))
	}
	v, rest, err := w.parseJSON(d.buf, false)
	if err != nil {
		if err.eof {
			if d.rdErr.p != nil {
				return nil, d.rdErr
			}
			return nil, *w.global(w.eng.ssaPkgs["io"].Var("ErrUnexpectedEOF"))
		}
		return nil, w.jsonSyntaxErr(err)
	}
	d.buf = rest
	return v, Value{}
}
