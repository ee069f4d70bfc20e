package main

// Certificates and digests: computed on concrete bytes by the libraries
// themselves.

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"go/types"
	"net"
	"strings"
)

func (w *W) concBytes(v Value, what string) []byte {
	s, ok := conStr(v)
	if !ok {
		e := strElems(v)
		b := make([]byte, len(e))
		for i := range e {
			if hasHole(e[i : i+1]) {
				unsup("%s of formatted text", what)
			}
			b[i] = byte(e[i].n)
			if e[i].p != nil {
				b[i] = byte(w.concretize(w.term(e[i], tiByte), what))
			}
		}
		return b
	}
	return []byte(s)
}

func bytesV(b []byte) Value { return Value{p: Slice(strElems(mkStr(string(b))))} }

func regCrypto() {
	regS("crypto/sha256.Sum224", func(w *W, a []Value) Value {
		d := sha256.Sum224(w.concBytes(a[0], "digest"))
		return Value{p: Agg(strElems(mkStr(string(d[:]))))}
	})
	regS("crypto/sha256.Sum256", func(w *W, a []Value) Value {
		d := sha256.Sum256(w.concBytes(a[0], "digest"))
		return Value{p: Agg(strElems(mkStr(string(d[:]))))}
	})
	regS("crypto/x509.ParseCertificate", func(w *W, a []Value) Value {
		c, err := x509.ParseCertificate(w.concBytes(a[0], "certificate"))
		if err != nil {
			return tup(Value{}, w.errStr(err.Error()))
		}
		t := w.eng.typ("crypto/x509", "Certificate")
		v := zero(t)
		v.p.(Agg)[fieldIdx(t, "Raw")] = bytesV(c.Raw)
		v.p.(Agg)[fieldIdx(t, "RawSubject")] = bytesV(c.RawSubject)
		return tup(newObj(v), Value{})
	})
	regS("crypto/tls.X509KeyPair", func(w *W, a []Value) Value {
		t := w.eng.typ("crypto/tls", "Certificate")
		v := zero(t)
		for _, b := range a[:2] {
			if _, ok := conStr(b); !ok && len(strElems(b)) < 100 {
				return tup(v, w.errStr("tls: failed to find any PEM data")) // too short for any
			}
		}
		c, err := tls.X509KeyPair(w.concBytes(a[0], "certificate"), w.concBytes(a[1], "key"))
		if err != nil {
			return tup(v, w.errStr(err.Error()))
		}
		var ders Slice
		for _, d := range c.Certificate {
			ders = append(ders, bytesV(d))
		}
		v.p.(Agg)[fieldIdx(t, "Certificate")] = Value{p: ders}
		kt := types.NewPointer(w.eng.typ("crypto/tls", "Certificate"))
		v.p.(Agg)[fieldIdx(t, "PrivateKey")] = Value{p: &Iface{t: kt, v: newObj(zero(t))}} // some key
		return tup(v, Value{})
	})
	regS(symP+"Field", func(w *W, a []Value) Value {
		name, _ := conStr(a[1])
		ifc := a[0].p.(*Iface)
		t := ifc.t.Underlying().(*types.Pointer).Elem()
		i := fieldIdx(t, name)
		v := w.ptr(ifc.v).p.(Agg)[i]
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if typeInfo(ft).k == KIface {
			return v
		}
		return Value{p: &Iface{t: ft, v: v}}
	})
	for _, pkg := range []string{"html/template", "text/template"} {
		regS(pkg+".zzField", func(w *W, a []Value) Value {
			name, _ := conStr(a[1])
			ifc, ok := a[0].p.(*Iface)
			if !ok || !strings.HasPrefix(name, ".") {
				unsup("template with %s", name)
			}
			t, v := ifc.t, ifc.v
			if p, isP := t.Underlying().(*types.Pointer); isP {
				t, v = p.Elem(), *w.ptr(v)
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				unsup("template of a %s", t)
			}
			for i := 0; i < st.NumFields(); i++ {
				if "."+st.Field(i).Name() != name {
					continue
				}
				f := v.p.(Agg)[i]
				switch b, _ := st.Field(i).Type().Underlying().(*types.Basic); {
				case b == nil:
				case b.Info()&types.IsString != 0:
					return tup(f, mkBool(true))
				case b.Info()&types.IsInteger != 0:
					return tup(w.fmtInt(f, b.Info()&types.IsUnsigned == 0), mkBool(false))
				}
			}
			unsup("template with %s", name)
			return Value{}
		})
	}
	regS("net.ParseIP", func(w *W, a []Value) Value {
		ip := net.ParseIP(string(w.concBytes(a[0], "address")))
		if ip == nil {
			return Value{}
		}
		return bytesV(ip)
	})
}
