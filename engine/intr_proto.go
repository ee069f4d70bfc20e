package main

// github.com/golang/protobuf/jsonpb over interpreted messages, driven by the
// struct tags of the generated code, with the semantics of version 1.3.2.

import (
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
)

type pbOpts struct {
	enumsAsInts, emitDefaults, origName bool
	allowUnknown                        bool
}

type pbProp struct {
	orig, json string
	enum       bool
}

func parsePB(tag string) pbProp {
	var p pbProp
	for _, s := range strings.Split(reflect.StructTag(tag).Get("protobuf"), ",") {
		switch {
		case strings.HasPrefix(s, "name="):
			p.orig = s[5:]
		case strings.HasPrefix(s, "json="):
			p.json = s[5:]
		case strings.HasPrefix(s, "enum="):
			p.enum = true
		}
	}
	return p
}

func (w *W) pbErr(msg string) { panic(jerr{w.errStr(msg)}) }

func (w *W) pbCustom(t types.Type) {
	for _, m := range []string{"XXX_WellKnownType", "MarshalJSONPB", "UnmarshalJSONPB"} {
		if w.methodByName(types.NewPointer(t), m) != nil {
			unsup("jsonpb of %s", t)
		}
	}
}

// oneofs gives the wrapper types of an interface field.
func (w *W) oneofs(st types.Type, it types.Type) []types.Type {
	n, ok := st.(*types.Named)
	if !ok {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), iface) {
			out = append(out, tn.Type())
		}
	}
	return out
}

func (w *W) pbStruct(o pbOpts, t types.Type, v Value) []Value {
	w.pbCustom(t)
	st := t.Underlying().(*types.Struct)
	agg := v.p.(Agg)
	out := []Value{{n: '{'}}
	first := true
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		x := agg[i]
		ft := f.Type()
		tag := st.Tag(i)
		k := typeInfo(ft).k
		if k == KIface && x.p == nil {
			continue
		}
		if !o.emitDefaults {
			switch k {
			case KBool, KInt, KF64, KString:
				if w.isEmptyJSON(ft, x) {
					continue
				}
			case KMap, KPtr, KSlice:
				if x.p == nil {
					continue
				}
			}
		}
		if reflect.StructTag(tag).Get("protobuf_oneof") != "" {
			ifc := x.p.(*Iface)
			wt := ifc.t.Underlying().(*types.Pointer).Elem()
			ws := wt.Underlying().(*types.Struct)
			x = w.ptr(ifc.v).p.(Agg)[0]
			ft, tag = ws.Field(0).Type(), ws.Tag(0)
		}
		p := parsePB(tag)
		name := p.json
		if o.origName || name == "" {
			name = p.orig
		}
		if !first {
			out = append(out, Value{n: ','})
		}
		first = false
		out = append(out, strElems(mkStr(`"`+name+`":`))...)
		out = append(out, w.pbValue(o, p, ft, x)...)
	}
	return append(out, Value{n: '}'})
}

func (w *W) pbValue(o pbOpts, p pbProp, t types.Type, v Value) []Value {
	k := typeInfo(t).k
	if k == KPtr {
		if v.p == nil {
			return strElems(mkStr("null"))
		}
		return w.pbValue(o, p, t.Underlying().(*types.Pointer).Elem(), *w.ptr(v))
	}
	switch k {
	case KSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if eb := typeInfo(et); eb.k == KInt && eb.w == 8 {
			return w.jenc(t, v, nil, true)
		}
		out := []Value{{n: '['}}
		for i, x := range sl2(v) {
			if i > 0 {
				out = append(out, Value{n: ','})
			}
			out = append(out, w.pbValue(o, p, et, x)...)
		}
		return append(out, Value{n: ']'})
	case KStruct:
		return w.pbStruct(o, t, v)
	case KMap:
		mt := t.Underlying().(*types.Map)
		out := []Value{{n: '{'}}
		if m, _ := v.p.(*MapV); m != nil {
			if typeInfo(mt.Key()).k != KString {
				unsup("jsonpb of %s", t)
			}
			for i, e := range w.mapSorted(m) {
				if i > 0 {
					out = append(out, Value{n: ','})
				}
				out = append(out, w.jsonString(e.k, true)...)
				out = append(out, Value{n: ':'})
				out = append(out, w.pbValue(o, pbProp{}, mt.Elem(), e.v)...)
			}
		}
		return append(out, Value{n: '}'})
	case KF64:
		if tm, ok := v.p.(*Term); ok {
			if w.branch(w.tt.Un(OFIsNaN, SBool, tm)) {
				return strElems(mkStr(`"NaN"`))
			}
			if w.branch(w.tt.Un(OFIsInf, SBool, tm)) {
				if w.branch(w.tt.Bin(OFLt, SBool, w.tt.F64(0), tm)) {
					return strElems(mkStr(`"Infinity"`))
				}
				return strElems(mkStr(`"-Infinity"`))
			}
		} else if s := strconv.FormatFloat(math.Float64frombits(v.n), 'g', -1, 64); s == "NaN" {
			return strElems(mkStr(`"NaN"`))
		} else if s == "+Inf" {
			return strElems(mkStr(`"Infinity"`))
		} else if s == "-Inf" {
			return strElems(mkStr(`"-Infinity"`))
		}
		return w.jenc(t, v, nil, true)
	case KInt:
		ti := typeInfo(t)
		if p.enum && !o.enumsAsInts {
			m := w.methodByName(t, "String")
			s := w.callSync(Value{p: m}, v)
			c, ok := conStr(s)
			if !ok {
				return strElems(s) // unknown symbolic value, in decimal
			}
			if _, err := strconv.Atoi(c); err == nil {
				return strElems(s)
			}
			return strElems(mkStr(`"` + c + `"`))
		}
		s := strElems(w.fmtInt(v, ti.signed))
		if ti.w == 64 {
			return append(append([]Value{{n: '"'}}, s...), Value{n: '"'})
		}
		return s
	}
	return w.jenc(t, v, nil, true)
}

func (w *W) pbMarshal(o pbOpts, pb Value) (out []Value, errV Value) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				out, errV = nil, e.v
				return
			}
			panic(r)
		}
	}()
	ifc, ok := pb.p.(*Iface)
	if !ok || ifc.v.p == nil {
		w.pbErr("Marshal called with nil")
	}
	return w.pbStruct(o, ifc.t.Underlying().(*types.Pointer).Elem(), *w.ptr(ifc.v)), Value{}
}

type pbDec struct {
	*jdec
	o pbOpts
}

func (d *pbDec) scalar(v *jv, slot *Value, t types.Type) {
	d.dec(v, slot, t)
	if d.saved.p != nil {
		panic(jerr{d.saved})
	}
}

// object gives the fields of a JSON object (last one of a name wins), or
// an error for anything that is neither an object nor null.
func (d *pbDec) object(v *jv) ([]Value, []*jv) {
	if v.kind == 'n' {
		return nil, nil
	}
	if v.kind != '{' {
		d.save(kindName(v))
		panic(jerr{d.saved})
	}
	var ks []Value
	var vs []*jv
next:
	for i, k := range v.keys {
		for j := range ks {
			if d.w.branch(d.w.strEq(ks[j], k)) {
				vs[j] = v.vals[i]
				continue next
			}
		}
		ks = append(ks, k)
		vs = append(vs, v.vals[i])
	}
	return ks, vs
}

func (d *pbDec) value(v *jv, slot *Value, t types.Type, p pbProp) {
	w := d.w
	k := typeInfo(t).k
	if k == KPtr {
		if v.kind == 'n' {
			return
		}
		et := t.Underlying().(*types.Pointer).Elem()
		n := newObj(zero(et))
		w.store(slot, n)
		d.value(v, w.ptr(n), et, p)
		return
	}
	if v.kind == '"' && p.enum {
		if k == KSlice {
			// a string for a repeated enum: the target kind is wrong
			w.pbErr("invalid target for enum")
		}
		n, ok := t.(*types.Named)
		if !ok {
			unsup("enum type %s", t)
		}
		g := w.eng.ssaPkgs[n.Obj().Pkg().Path()].Var(n.Obj().Name() + "_value")
		if g == nil {
			unsup("no values of enum %s", t)
		}
		raw := v.raw[1 : len(v.raw)-1]
		m, _ := w.global(g).p.(*MapV)
		for _, e := range w.mapSorted(m) {
			if w.branch(w.strEq(e.k, elemsToStr(raw))) {
				w.store(slot, e.v)
				return
			}
		}
		w.pbErr("unknown value for enum " + n.Obj().Name())
	}
	switch k {
	case KStruct:
		w.pbCustom(t)
		ks, vs := d.object(v)
		used := make([]bool, len(ks))
		find := func(p pbProp) *jv {
			var r *jv
			camel := p.json
			if camel == "" {
				camel = p.orig
			}
			for _, name := range []string{p.orig, camel} {
				for i, kk := range ks {
					if !used[i] && w.branch(w.strEq(kk, mkStr(name))) {
						used[i] = true
						r = vs[i]
					}
				}
			}
			return r
		}
		st := t.Underlying().(*types.Struct)
		agg := slot.p.(Agg)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if strings.HasPrefix(f.Name(), "XXX_") {
				continue
			}
			pp := parsePB(st.Tag(i))
			if oo := reflect.StructTag(st.Tag(i)).Get("protobuf_oneof"); oo != "" {
				pp.orig = oo
			}
			if x := find(pp); x != nil {
				d.value(x, &agg[i], f.Type(), pp)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if reflect.StructTag(st.Tag(i)).Get("protobuf_oneof") == "" {
				continue
			}
			for _, wt := range w.oneofs(t, st.Field(i).Type()) {
				ws := wt.Underlying().(*types.Struct)
				pp := parsePB(ws.Tag(0))
				x := find(pp)
				if x == nil {
					continue
				}
				n := newObj(zero(wt))
				w.store(&agg[i], Value{p: &Iface{t: types.NewPointer(wt), v: n}})
				d.value(x, &w.ptr(n).p.(Agg)[0], ws.Field(0).Type(), pp)
			}
		}
		if !d.o.allowUnknown {
			for i := range ks {
				if !used[i] {
					w.pbErr("unknown field in " + t.String())
				}
			}
		}
		return
	case KSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if eb := typeInfo(et); eb.k == KInt && eb.w == 8 {
			break
		}
		if v.kind == 'n' {
			return
		}
		if v.kind != '[' {
			d.save(kindName(v))
			panic(jerr{d.saved})
		}
		s := make(Slice, len(v.arr))
		for i := range s {
			s[i] = zero(et)
		}
		w.store(slot, Value{p: s})
		for i, x := range v.arr {
			d.value(x, &s[i], et, p)
		}
		return
	case KMap:
		mt := t.Underlying().(*types.Map)
		if typeInfo(mt.Key()).k != KString {
			unsup("jsonpb into %s", t)
		}
		ks, vs := d.object(v)
		if v.kind == 'n' {
			return
		}
		m := newMap(mt)
		w.store(slot, Value{p: m})
		for i, kk := range ks {
			x := zero(mt.Elem())
			px := &x
			d.value(vs[i], px, mt.Elem(), pbProp{})
			w.mapSet(m, kk, *px)
		}
		return
	case KF64:
		if v.kind == '"' {
			if c, ok := conStr(Value{p: Slice(v.raw)}); ok {
				switch c {
				case `"NaN"`, `"Infinity"`, `"-Infinity"`:
					f, _ := strconv.ParseFloat(c[1:len(c)-1], 64)
					w.store(slot, Value{n: math.Float64bits(f)})
					return
				}
			}
		}
	case KIface:
		if v.kind == 'n' {
			w.store(slot, Value{})
			return
		}
		d.save(kindName(v))
		panic(jerr{d.saved})
	}
	if (k == KF64 || k == KInt && typeInfo(t).w >= 32) && v.kind == '"' {
		in, _, err := w.parseJSON(v.raw[1:len(v.raw)-1], true)
		if err != nil {
			panic(jerr{w.jsonSyntaxErr(err)})
		}
		v = in
	}
	d.scalar(v, slot, t)
}

func (w *W) pbUnmarshal(o pbOpts, v *jv, pb Value) (errV Value) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				errV = e.v
				return
			}
			panic(r)
		}
	}()
	ifc, ok := pb.p.(*Iface)
	if !ok || ifc.v.p == nil {
		panic(w.nilPanic())
	}
	d := &pbDec{&jdec{w: w}, o}
	d.value(v, w.ptr(ifc.v), ifc.t.Underlying().(*types.Pointer).Elem(), pbProp{})
	return Value{}
}

func (w *W) pbOptsOf(m Value) pbOpts {
	t := w.eng.typ("github.com/golang/protobuf/jsonpb", "Marshaler")
	a := w.ptr(m).p.(Agg)
	fl := func(n string) bool { return w.branchV(a[fieldIdx(t, n)]) }
	if s, _ := conStr(a[fieldIdx(t, "Indent")]); s != "" {
		unsup("indented jsonpb")
	}
	if a[fieldIdx(t, "AnyResolver")].p != nil {
		unsup("jsonpb with a resolver")
	}
	return pbOpts{enumsAsInts: fl("EnumsAsInts"), emitDefaults: fl("EmitDefaults"), origName: fl("OrigName")}
}

func (w *W) writeTo(wr Value, b []Value) Value {
	ifc, ok := wr.p.(*Iface)
	if !ok {
		panic(w.nilPanic())
	}
	m := w.methodByName(ifc.t, "Write")
	r := w.callSync(Value{p: m}, ifc.v, Value{p: append(Slice{}, b...)}).p.(Tuple)
	return r[1]
}

// protoIface reports whether v holds a protocol buffer message.
func (w *W) isProto(v Value) bool {
	ifc, ok := v.p.(*Iface)
	return ok && w.methodByName(ifc.t, "ProtoMessage") != nil
}

func init() {
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln"} {
		regS(n, func(w *W, a []Value) Value {
			w.check(w.tt.False, "the program exits")
			panic(pathEnd{"exit"})
		})
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln"} {
		regS(n, func(w *W, a []Value) Value {
			panic(goPanic{v: Value{p: &Iface{t: types.Typ[types.String], v: mkStr("log.Panic")}}, msg: "log.Panic"})
		})
	}

	const jp = "github.com/golang/protobuf/jsonpb"
	regS("(*"+jp+".Marshaler).Marshal", func(w *W, a []Value) Value {
		b, err := w.pbMarshal(w.pbOptsOf(a[0]), a[2])
		if err.p != nil {
			return err
		}
		return w.writeTo(a[1], b)
	})
	regS("(*"+jp+".Marshaler).MarshalToString", func(w *W, a []Value) Value {
		b, err := w.pbMarshal(w.pbOptsOf(a[0]), a[1])
		if err.p != nil {
			return tup(mkStr(""), err)
		}
		return tup(elemsToStr(b), Value{})
	})
	unOpts := func(w *W, u Value) pbOpts {
		t := w.eng.typ(jp, "Unmarshaler")
		a := w.ptr(u).p.(Agg)
		if a[fieldIdx(t, "AnyResolver")].p != nil {
			unsup("jsonpb with a resolver")
		}
		return pbOpts{allowUnknown: w.branchV(a[fieldIdx(t, "AllowUnknownFields")])}
	}
	next := func(w *W, o pbOpts, d *decSt, pb Value) Value {
		v, err := w.decNext(d)
		if err.p != nil {
			return err
		}
		return w.pbUnmarshal(o, v, pb)
	}
	jdecOf := func(w *W, v Value) *decSt {
		d, _ := w.side[sideKey{w.ptr(v), "jdec"}].(*decSt)
		if d == nil {
			unsup("unknown json.Decoder")
		}
		return d
	}
	regS("(*"+jp+".Unmarshaler).UnmarshalNext", func(w *W, a []Value) Value {
		return next(w, unOpts(w, a[0]), jdecOf(w, a[1]), a[2])
	})
	regS("(*"+jp+".Unmarshaler).Unmarshal", func(w *W, a []Value) Value {
		return next(w, unOpts(w, a[0]), &decSt{rd: a[1]}, a[2])
	})
	regS(jp+".UnmarshalNext", func(w *W, a []Value) Value { return next(w, pbOpts{}, jdecOf(w, a[0]), a[1]) })
	regS(jp+".Unmarshal", func(w *W, a []Value) Value { return next(w, pbOpts{}, &decSt{rd: a[0]}, a[1]) })
	regS(jp+".UnmarshalString", func(w *W, a []Value) Value {
		return next(w, pbOpts{}, &decSt{read: true, buf: strElems(a[0])}, a[1])
	})

	// A dialled connection that never connects: calls end at the interceptor.
	dial := func(w *W, target, opts Value) Value {
		ct := w.eng.typ("google.golang.org/grpc", "ClientConn")
		cc := newObj(zero(ct))
		w.ptr(cc).p.(Agg)[fieldIdx(ct, "target")] = target
		dp := &w.ptr(cc).p.(Agg)[fieldIdx(ct, "dopts")]
		for _, o := range sl(opts) {
			ifc, ok := o.p.(*Iface)
			if !ok {
				panic(w.nilPanic())
			}
			w.callSync(Value{p: w.methodByName(ifc.t, "apply")}, ifc.v, Value{p: dp})
		}
		dt := ct.Underlying().(*types.Struct).Field(fieldIdx(ct, "dopts")).Type()
		ci := fieldIdx(dt, "copts")
		cot := dt.Underlying().(*types.Struct).Field(ci).Type()
		d := dp.p.(Agg)
		co := d[ci].p.(Agg)
		secure := co[fieldIdx(cot, "TransportCredentials")].p != nil || co[fieldIdx(cot, "CredsBundle")].p != nil
		if insecure := d[fieldIdx(dt, "insecure")].n != 0; insecure == secure {
			msg := "grpc: no transport security set (use grpc.WithInsecure() explicitly or set credentials)"
			if secure {
				msg = "grpc: transport credentials are set for an insecure connection (grpc.WithTransportCredentials() and grpc.WithInsecure() are both called)"
			}
			return tup(Value{}, w.errStr(msg))
		}
		return tup(cc, Value{})
	}
	regS("google.golang.org/grpc.Dial", func(w *W, a []Value) Value { return dial(w, a[0], a[1]) })
	regS("google.golang.org/grpc.DialContext", func(w *W, a []Value) Value { return dial(w, a[1], a[2]) })
	regS("(*google.golang.org/grpc.ClientConn).Target", func(w *W, a []Value) Value {
		return w.ptr(a[0]).p.(Agg)[fieldIdx(w.eng.typ("google.golang.org/grpc", "ClientConn"), "target")]
	})
	regS("(*google.golang.org/grpc.ClientConn).Close", func(w *W, a []Value) Value { return Value{} })

	const gw = "github.com/grpc-ecosystem/grpc-gateway/runtime"
	regS(gw+".zzField", func(w *W, a []Value) Value {
		ifc, ok := a[0].p.(*Iface)
		if !ok || ifc.v.p == nil {
			unsup("query parameters into a nil message")
		}
		t := ifc.t.Underlying().(*types.Pointer).Elem()
		st := t.Underlying().(*types.Struct)
		agg := w.ptr(ifc.v).p.(Agg)
		for i := 0; i < st.NumFields(); i++ {
			if st.Tag(i) == "" || reflect.StructTag(st.Tag(i)).Get("protobuf_oneof") != "" {
				continue
			}
			p := parsePB(st.Tag(i))
			if p.orig == "" || !(w.branch(w.strEq(a[1], mkStr(p.orig))) || p.json != "" && w.branch(w.strEq(a[1], mkStr(p.json)))) {
				continue
			}
			ft := st.Field(i).Type()
			enum := Value{}
			if p.enum {
				n, ok := ft.(*types.Named)
				if s, isl := ft.Underlying().(*types.Slice); isl {
					n, ok = s.Elem().(*types.Named)
				}
				if !ok {
					unsup("enum type %s", ft)
				}
				enum = *w.global(w.eng.ssaPkgs[n.Obj().Pkg().Path()].Var(n.Obj().Name() + "_value"))
			}
			return tup(Value{p: &Iface{t: types.NewPointer(ft), v: Value{p: &agg[i]}}}, enum, mkBool(true))
		}
		return tup(Value{}, Value{}, mkBool(false))
	})
	regS(gw+".zzSetEnums", func(w *W, a []Value) Value {
		ifc := a[0].p.(*Iface)
		ft := ifc.t.(*types.Pointer).Elem()
		vals := sl(a[1])
		if typeInfo(ft).k == KSlice {
			w.store(w.ptr(ifc.v), Value{p: append(Slice{}, vals...)})
		} else if len(vals) > 0 {
			w.store(w.ptr(ifc.v), vals[0])
		}
		return Value{}
	})
	regS("(*"+gw+".JSONPb).marshalNonProtoField", func(w *W, a []Value) Value {
		o := w.pbOptsOf(a[0])
		v := a[1]
		ifc, ok := v.p.(*Iface)
		for ok && typeInfo(ifc.t).k == KPtr && ifc.v.p != nil {
			ifc = &Iface{t: ifc.t.Underlying().(*types.Pointer).Elem(), v: *w.ptr(ifc.v)}
		}
		if ok {
			k := typeInfo(ifc.t).k
			switch {
			case k == KSlice && ifc.v.p == nil && o.emitDefaults:
				return tup(Value{p: Slice(strElems(mkStr("[]")))}, Value{})
			case k == KSlice && w.methodByName(ifc.t.Underlying().(*types.Slice).Elem(), "ProtoMessage") != nil,
				k == KMap, w.methodByName(ifc.t, "EnumDescriptor") != nil:
				unsup("JSONPb of %s", ifc.t)
			}
			v = Value{p: ifc}
		}
		b, err := w.jsonMarshal(v, true)
		if err.p != nil {
			return tup(Value{}, err)
		}
		return tup(Value{p: append(Slice{}, b...)}, Value{})
	})
	regS(gw+".decodeNonProtoField", func(w *W, a []Value) Value {
		ifc, ok := a[1].p.(*Iface)
		if !ok || typeInfo(ifc.t).k != KPtr {
			return w.errStr("not a pointer")
		}
		et := ifc.t.Underlying().(*types.Pointer).Elem()
		if k := typeInfo(et).k; k == KPtr || k == KMap || w.methodByName(et, "EnumDescriptor") != nil {
			unsup("JSONPb into %s", et)
		}
		d := jdecOf(w, a[0])
		v, errV := w.decNext(d)
		if errV.p != nil {
			return errV
		}
		return w.jsonDecode(v, a[1], d.useNumber, d.strict)
	})

	// The proto registry is only used by name; registration has no effect here.
	regS("github.com/golang/protobuf/proto.Clone", func(w *W, a []Value) Value {
		ifc, ok := a[0].p.(*Iface)
		if !ok || ifc.v.p == nil {
			return a[0]
		}
		return Value{p: &Iface{t: ifc.t, v: w.deepCopy(ifc.t, ifc.v)}}
	})
	regS("github.com/golang/protobuf/proto.Equal", func(w *W, a []Value) Value {
		x, ok1 := a[0].p.(*Iface)
		y, ok2 := a[1].p.(*Iface)
		if !ok1 || !ok2 {
			return mkBool(ok1 == ok2)
		}
		if !types.Identical(x.t, y.t) {
			return mkBool(false)
		}
		return w.bv(w.deepEq(x.t, x.v, y.v))
	})
	regS("github.com/golang/protobuf/proto.CompactTextString", func(w *W, a []Value) Value { return mkStr("<message>") })
	regS("github.com/golang/protobuf/proto.MarshalTextString", func(w *W, a []Value) Value { return mkStr("<message>") })
}

// deepCopy copies a message.
func (w *W) deepCopy(t types.Type, v Value) Value {
	switch typeInfo(t).k {
	case KPtr:
		if v.p == nil {
			return v
		}
		et := t.Underlying().(*types.Pointer).Elem()
		return newObj(w.deepCopy(et, *w.ptr(v)))
	case KStruct:
		st := t.Underlying().(*types.Struct)
		a := append(Agg{}, v.p.(Agg)...)
		for i := range a {
			if strings.HasPrefix(st.Field(i).Name(), "XXX_") {
				a[i] = zero(st.Field(i).Type())
				continue
			}
			a[i] = w.deepCopy(st.Field(i).Type(), a[i])
		}
		return Value{p: a}
	case KSlice:
		s, ok := v.p.(Slice)
		if !ok {
			return v
		}
		et := t.Underlying().(*types.Slice).Elem()
		o := make(Slice, len(s))
		for i := range s {
			o[i] = w.deepCopy(et, s[i])
		}
		return Value{p: o}
	case KMap:
		m, _ := v.p.(*MapV)
		if m == nil {
			return v
		}
		mt := t.Underlying().(*types.Map)
		o := newMap(mt)
		for _, e := range w.mapSorted(m) {
			w.mapSet(o, e.k, w.deepCopy(mt.Elem(), e.v))
		}
		return Value{p: o}
	case KIface:
		ifc, ok := v.p.(*Iface)
		if !ok {
			return v
		}
		return Value{p: &Iface{t: ifc.t, v: w.deepCopy(ifc.t, ifc.v)}}
	}
	return v
}

// deepEq is proto.Equal.
func (w *W) deepEq(t types.Type, a, b Value) *Term {
	switch typeInfo(t).k {
	case KPtr:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		return w.deepEq(t.Underlying().(*types.Pointer).Elem(), *w.ptr(a), *w.ptr(b))
	case KStruct:
		st := t.Underlying().(*types.Struct)
		x, y := a.p.(Agg), b.p.(Agg)
		r := w.tt.True
		for i := range x {
			if !strings.HasPrefix(st.Field(i).Name(), "XXX_") {
				r = w.tt.And(r, w.deepEq(st.Field(i).Type(), x[i], y[i]))
			}
		}
		return r
	case KSlice:
		x, y := sl2(a), sl2(b)
		et := t.Underlying().(*types.Slice).Elem()
		if len(x) != len(y) {
			return w.tt.False
		}
		r := w.tt.True
		for i := range x {
			r = w.tt.And(r, w.deepEq(et, x[i], y[i]))
		}
		return r
	case KMap:
		m1, _ := a.p.(*MapV)
		m2, _ := b.p.(*MapV)
		var e1, e2 []*mapEnt
		if m1 != nil {
			e1 = w.mapSorted(m1)
		}
		if m2 != nil {
			e2 = w.mapSorted(m2)
		}
		if len(e1) != len(e2) {
			return w.tt.False
		}
		mt := t.Underlying().(*types.Map)
		r := w.tt.True
		for i := range e1 {
			r = w.tt.And(r, w.tt.And(w.strEq(e1[i].k, e2[i].k), w.deepEq(mt.Elem(), e1[i].v, e2[i].v)))
		}
		return r
	case KIface:
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if !ok1 || !ok2 {
			return w.tt.Bool(ok1 == ok2)
		}
		if !types.Identical(x.t, y.t) {
			return w.tt.False
		}
		return w.deepEq(x.t, x.v, y.v)
	case KF64:
		x, y := w.term(a, tiF64), w.term(b, tiF64)
		return w.tt.Bin(OFEq, SBool, x, y)
	}
	return w.eq(a, b, t)
}

// Scans for characters that formatted numbers cannot contain skip them.
func init() {
	for _, n := range []struct{ pkg, fn string }{
		{"net/url", "stringContainsCTLByte"},
	} {
		regS(n.pkg+"."+n.fn, func(w *W, a []Value) Value {
			e := strElems(a[0])
			if !hasHole(e) {
				return bodyV
			}
			var out []Value
			for _, x := range e {
				if h, ok := x.p.(*Hole); ok {
					if h.kind != "int" && h.kind != "uint" && h.kind != "f64" {
						unsup("%s of %s text", n.fn, h.kind)
					}
					continue
				}
				out = append(out, x)
			}
			return w.callSync(Value{p: w.eng.findFunc(n.pkg, n.fn)}, elemsToStr(out))
		})
	}
}

func init() {
	regS("strings.ContainsRune", func(w *W, a []Value) Value {
		s, ok := conStr(a[0])
		if !ok || a[1].p == nil {
			return bodyV
		}
		r := w.term(a[1], tinfo{k: KInt, w: 32, signed: true})
		c := w.tt.False
		for _, x := range s {
			c = w.tt.Or(c, w.tt.Eq(r, w.tt.BV(uint64(x), 32)))
		}
		return w.bv(c)
	})
}
