package main

import (
	"go/types"
	"net/http"
)

// url.Values.Encode is an injective function of the map's content.
func init() {
	pure("net/http.CanonicalHeaderKey", http.CanonicalHeaderKey)
	pure("net/textproto.CanonicalMIMEHeaderKey", http.CanonicalHeaderKey)
	strSl := types.NewSlice(types.Typ[types.String])
	mt := types.NewMap(types.Typ[types.String], strSl)
	intrinsics["(net/url.Values).Encode"] = func(c *callCtx) []Outcome {
		x, st := c.x, c.st
		x.trusted["net/url (query strings round-trip)"] = true
		m := c.t(0)
		_, h := x.elemHeap(st, types.Typ[types.String])
		d, v, l := x.mapDom(st, m, mt), x.mapVal(st, m, mt), x.mapLen(st, m, mt)
		return c.ret(Ite(Eq(l, Zero), StrC(""), App("urlenc", StrS, d, v, l, h)))
	}
	intrinsics["net/url.ParseQuery"] = func(c *callCtx) []Outcome {
		x, st := c.x, c.st
		x.trusted["net/url (query strings round-trip)"] = true
		s := c.t(0)
		noErr := x.zero(c.resT(1))
		var d, v, l func(s *Term) *Term
		kd, kv, kl, ds, vs, ls := x.mapKeys(mt)
		d = func(s *Term) *Term {
			switch {
			case s.Op == "ite":
				return iteMap(s, d)
			case s == StrC(""):
				return DefArr(StrS, BoolS)
			case s.Op == "app" && s.Name == "urlenc":
				return s.Args[0]
			}
			return Ite(Eq(s, StrC("")), DefArr(StrS, BoolS), App("q_dom", ds.V, s))
		}
		v = func(s *Term) *Term {
			switch {
			case s.Op == "ite":
				return iteMap(s, v)
			case s == StrC(""):
				return DefArr(StrS, SliceS)
			case s.Op == "app" && s.Name == "urlenc":
				return s.Args[1]
			}
			return Ite(Eq(s, StrC("")), DefArr(StrS, SliceS), App("q_val", vs.V, s))
		}
		l = func(s *Term) *Term {
			switch {
			case s.Op == "ite":
				return iteMap(s, l)
			case s == StrC(""):
				return Zero
			case s.Op == "app" && s.Name == "urlenc":
				return s.Args[2]
			}
			return Ite(Eq(s, StrC("")), Zero, App("q_len", IntS, s))
		}
		m := x.newMap(st, mt)
		st.setHeap(kd, Store(st.heap(kd, ds), m, d(s)))
		st.setHeap(kv, Store(st.heap(kv, vs), m, v(s)))
		st.setHeap(kl, Store(st.heap(kl, ls), m, l(s)))
		return c.ret(m, noErr)
	}
	intrinsics["github.com/golang/protobuf/jsonpb.UnmarshalString"] = func(c *callCtx) []Outcome {
		return c.x.pbDecode(c, c.st, c.t(0), c.t(1))
	}
}
