package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	x    *Engine
	st   *State
	fn   *ssa.Function
	args []Val
	pos  token.Pos
}

func (c *callCtx) t(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		c.x.fail("argument %d of %s is not a term", i, c.fn)
	}
	return t
}
func (c *callCtx) ret(vs ...Val) []Outcome {
	switch len(vs) {
	case 0:
		return []Outcome{{c.st, nil}}
	case 1:
		return []Outcome{{c.st, vs[0]}}
	}
	return []Outcome{{c.st, Tuple(vs)}}
}
func (c *callCtx) argT(i int) types.Type {
	sig := c.fn.Signature
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}
func (c *callCtx) resT(i int) types.Type { return c.fn.Signature.Results().At(i).Type() }
func (c *callCtx) tArgs() []types.Type   { return c.fn.TypeArgs() }

type intrinsic func(c *callCtx) []Outcome

var intrinsics = map[string]intrinsic{}

// ---------- specification calls ----------

func unboxFn(x *Engine, t *Term) *Term {
	// closures passed through interface{}
	if t.S == IfaceS {
		return Sel(t, 1)
	}
	return t
}

func (x *Engine) evalBool(st *State, v Val) *Term { return v.(*Term) }

func (x *Engine) specCall(c *callCtx) []Outcome {
	name := origin(c.fn).Name()
	st := c.st
	if recv := c.fn.Signature.Recv(); recv != nil {
		tn, as := specType(recv.Type())
		s := c.t(0)
		switch tn {
		case "Seq":
			switch name {
			case "Len":
				return c.ret(SeqLen(s))
			case "At":
				return c.ret(x.typed(SeqAt(s, c.t(1)), as[0], st))
			case "Append":
				return c.ret(SeqAppend(s, c.t(1)))
			case "Concat":
				return c.ret(SeqCat(s, c.t(1)))
			case "Take":
				return c.ret(SeqTake(s, clamp(c.t(1), SeqLen(s))))
			case "Drop":
				return c.ret(SeqDrop(s, clamp(c.t(1), SeqLen(s))))
			case "Slice":
				return c.ret(x.sliceFromSeq(st, s, as[0]))
			}
		case "Map":
			k := c.t(1)
			switch name {
			case "Has":
				return c.ret(Select(Sel(s, 0), k))
			case "Get":
				return c.ret(Ite(Select(Sel(s, 0), k), x.typed(Select(Sel(s, 1), k), as[1], st), x.zero(as[1])))
			case "With":
				return c.ret(Ctor(s.S, Store(Sel(s, 0), k, True), Store(Sel(s, 1), k, c.t(2))))
			case "Without":
				return c.ret(Ctor(s.S, Store(Sel(s, 0), k, False), Store(Sel(s, 1), k, canonV(Sel(s, 1).S.V))))
			}
		case "Visited":
			return c.ret(Select(s, c.t(1)))
		case "JSON":
			return x.jsonCall(c, name)
		}
		x.fail("spec method %s", c.fn)
	}
	switch name {
	case "ParseJSON":
		if d := x.jdoc(st, c.t(0)); d != nil {
			return c.ret(d)
		}
		return c.ret(x.jnode(x.rawMessage(), c.t(0), st, func() string { _, s := x.snapshot(st); return s }()))
	case "Garbage":
		if d := x.jdoc(st, c.t(0)); d != nil {
			return c.ret(False)
		}
		return c.ret(x.garbage(x.seqOf(st, c.t(0), types.Typ[types.Uint8])))
	case "Unsupported":
		x.fail("%s", strVal[c.t(0)])
	case "NumFields", "FieldPtr", "EnvTag":
		pt := x.tagType(Sel(c.t(0), 0))
		if pt == nil {
			x.fail("fields of an unknown type")
		}
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			x.fail("fields of a %s", pt)
		}
		u, ok := p.Elem().Underlying().(*types.Struct)
		if name == "NumFields" {
			if !ok {
				return c.ret(Int(-1))
			}
			return c.ret(Int(int64(u.NumFields())))
		}
		if !ok || !c.t(1).isInt() {
			x.fail("a field of a %s, or not a known one", pt)
		}
		i := int(c.t(1).I.Int64())
		if name == "EnvTag" {
			ps := strings.Split(reflect.StructTag(u.Tag(i)).Get("env"), ",")
			req := False
			for j := range ps {
				if ps[j] = strings.TrimSpace(ps[j]); ps[j] == "required" {
					req = True
				}
			}
			return c.ret(StrC(ps[0]), req)
		}
		if !u.Field(i).Exported() {
			return c.ret(x.zero(c.fn.Signature.Results().At(0).Type()))
		}
		return c.ret(x.mkIface(x.fieldAddr(x.unbox(Sel(c.t(0), 1), pt, st), p.Elem(), i), types.NewPointer(u.Field(i).Type())))
	case "Plain":
		return c.ret(plainStr(c.t(0)))
	case "Separate":
		// two slices do not share an array
		a, b := c.t(0), c.t(1)
		return c.ret(Or(Eq(Sel(a, 3), Zero), Eq(Sel(b, 3), Zero), Not(Eq(Sel(a, 0), Sel(b, 0)))))
	case "Apart":
		// the array shown by a document is another one than the slice's
		isSl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok && !isByteSlice(t) }
		base := Zero
		if c.t(1).S == SliceS {
			base = Sel(c.t(1), 0)
		} else {
			base = x.jview(c.t(1), isSl, Zero, func(t types.Type, v *Term, _ *State, _ string) *Term { return Sel(v, 0) })
		}
		return c.ret(x.jview(c.t(0), isSl, True, func(t types.Type, v *Term, _ *State, _ string) *Term {
			if isRaw(t) {
				return True
			}
			return Or(Eq(Sel(v, 0), Zero), Not(Eq(Sel(v, 0), base)))
		}))
	case "Recent":
		// the array shown by a document was made since the loop began
		lim := x.loopLim
		if lim == nil {
			x.fail("spec.Recent outside an invariant")
		}
		return c.ret(x.jview(c.t(0), func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok && !isByteSlice(t) }, True, func(t types.Type, v *Term, _ *State, _ string) *Term {
			if isRaw(t) {
				return True
			}
			return Or(Eq(Sel(v, 0), Zero), Le(lim, Sel(v, 0)))
		}))
	case "JSONOf":
		fs, snap := x.snapshot(st)
		return c.ret(x.jnode(anyT, c.t(0), fs, snap))
	case "Inv":
		n, v := strVal[c.t(0)], c.t(2)
		if !c.t(1).isInt() {
			x.fail("spec.Inv index")
		}
		return c.ret(x.invFn("fn:"+n, int(c.t(1).I.Int64()), x.ifaceScalar(v), c.tArgs()[0]))
	case "Known":
		return c.ret(knownFn("fn:"+strVal[c.t(0)], x.ifaceScalar(c.t(1))))
	case "Put", "Of":
		// ghost fields of library objects
		var t types.Type
		if as := c.tArgs(); len(as) > 0 {
			t = as[0]
		}
		k := "GF:" + strVal[c.t(1)] + ":" + tkey(t)
		if _, ok := keyType[k]; !ok {
			keyType[k] = t
		}
		so := ArrS(IntS, sortOf(t))
		obj := x.ifaceScalar(c.t(0))
		get := func(o *Term) *Term {
			return x.typed(Select(st.heap(k, so), o), t, st)
		}
		if name == "Of" {
			return c.ret(iteMap(obj, get))
		}
		st.recordWrite(k, obj)
		st.setHeap(k, Store(st.heap(k, so), obj, c.t(2)))
		return c.ret()
	case "Inside", "SetInside":
		// the map inside a sync.Map
		c.x.nilCheck(c.st, c.t(0), c.pos)
		if name == "SetInside" {
			x.store(st, c.t(0), deref(c.argT(0)), c.t(1))
			return c.ret()
		}
		return c.ret(x.typed(x.load(st, c.t(0), deref(c.argT(0))), c.fn.Signature.Results().At(0).Type(), st))
	case "Native":
		return c.ret(False)
	case "Exit":
		if x.dry == 0 && x.spec == 0 {
			x.exits = append(x.exits, And(st.pc...))
		}
		st.assume(False)
		return nil
	case "Requires", "Assume":
		if x.spec > 0 {
			return c.ret()
		}
		st.assume(c.t(0))
		return c.ret()
	case "Ensures", "Assert":
		l, ok := strVal[c.t(0)]
		if !ok {
			x.fail("label of %s must be a literal", name)
		}
		x.oblige(st, strings.ToLower(name), l, c.t(1), c.pos)
		if name == "Assert" || x.dry > 0 {
			st.assume(c.t(1))
		}
		return c.ret()
	case "Cover":
		l := strVal[c.t(0)]
		if x.dry == 0 && x.spec == 0 {
			x.obls = append(x.obls, &Obl{Label: "cover: " + l, Kind: "cover", PC: append([]*Term{}, st.pc...), Goal: False, Pos: x.posStr(c.pos)})
		}
		return c.ret()
	case "Show":
		return c.ret()
	case "GoSkip":
		x.goMode = "skip"
		return c.ret()
	case "GoRun":
		x.goMode = "run"
		return c.ret()
	case "Invariant":
		f := unboxFn(x, c.t(0))
		if x.clos[f] == nil {
			x.fail("invariant must be a function literal")
		}
		x.invs = append(x.invs, f)
		return c.ret()
	case "Replace":
		f, g := unboxFn(x, c.t(0)), unboxFn(x, c.t(1))
		cl := x.clos[f]
		if cl == nil || cl.fn == nil || x.clos[g] == nil {
			x.fail("spec.Replace needs a function and a summary")
		}
		x.replace[thunkTarget(cl.fn)] = g
		x.note("callers of %s are checked against its contract (summary), not its body", fnName(thunkTarget(cl.fn)))
		return c.ret()
	case "Holds":
		return c.ret(x.pureEval(st, c.t(0)))
	case "Recursive":
		f, g := unboxFn(x, c.t(0)), unboxFn(x, c.t(1))
		cl := x.clos[f]
		if cl == nil || cl.fn == nil || x.clos[g] == nil {
			x.fail("spec.Recursive needs a function and a summary")
		}
		x.recur[thunkTarget(cl.fn)] = &recursion{sum: g}
		x.note("recursive calls of %s are checked against its contract (summary): the hypothesis of an induction over the calls", fnName(thunkTarget(cl.fn)))
		return c.ret()
	case "Forall", "Exists":
		lo, hi, f := c.t(0), c.t(1), c.t(2)
		if lo.isInt() && hi.isInt() && new(big.Int).Sub(hi.I, lo.I).Cmp(big.NewInt(16)) <= 0 {
			var ts []*Term
			for i := new(big.Int).Set(lo.I); i.Cmp(hi.I) < 0; i.Add(i, bigOne) {
				ts = append(ts, x.pureEval(st, f, IntB(new(big.Int).Set(i))))
			}
			if name == "Forall" {
				return c.ret(And(ts...))
			}
			return c.ret(Or(ts...))
		}
		b := BVar("i", IntS)
		lo1, hi1 := bounds(lo, 0)
		_ = hi1
		if lo1 != nil {
			setRange(b, lo1, maxInt64)
		}
		body := x.pureEval(st, f, b)
		delete(rangeTab, b)
		in := And(mk("ge0", BoolS, "", nil, Sub(b, lo)), mk("ge0", BoolS, "", nil, Sub(Sub(hi, b), One)))
		if name == "Forall" {
			return c.ret(Forall([]*Term{b}, Implies(in, body), quantPats(b, body)...))
		}
		return c.ret(Not(Forall([]*Term{b}, Implies(in, Not(body)), quantPats(b, body)...)))
	case "ForallKey", "ForallKeys":
		ks := sortOf(c.tArgs()[0])
		b := BVar("k", ks)
		body := x.pureEval(st, c.t(0), b)
		return c.ret(Forall([]*Term{b}, body, quantPats(b, body)...))
	case "SeqOf":
		return c.ret(x.seqOf(st, c.t(0), c.tArgs()[0]))
	case "Empty":
		return c.ret(SeqEmpty(sortOf(c.tArgs()[0])))
	case "SeqEq", "MapEq", "Same":
		return c.ret(Eq(c.t(0), c.t(1)))
	case "MapOf":
		mt := types.NewMap(c.tArgs()[0], c.tArgs()[1])
		ms := MapSort(sortOf(mt.Key()), sortOf(mt.Elem()))
		none := Ctor(ms, DefArr(ms.SelS[0].K, BoolS), DefArr(ms.SelS[1].K, ms.SelS[1].V))
		return c.ret(iteMap(c.t(0), func(m *Term) *Term {
			if m.isInt() && m.I.Sign() == 0 {
				return none
			}
			r := Ctor(ms, x.mapDom(st, m, mt), x.mapVal(st, m, mt))
			if _, _, ok := splitRef(m); !ok && !m.isInt() {
				r = Ite(Eq(m, Zero), none, r)
			}
			return r
		}))
	case "EmptyMap":
		ms := MapSort(sortOf(c.tArgs()[0]), sortOf(c.tArgs()[1]))
		return c.ret(Ctor(ms, DefArr(ms.SelS[0].K, BoolS), DefArr(ms.SelS[1].K, ms.SelS[1].V)))
	case "Any":
		n := strVal[c.t(0)]
		t := c.tArgs()[0]
		if tn, as := specType(t); tn != "" {
			_ = as
			return c.ret(Fresh("any:"+n, sortOf(t)))
		}
		return c.ret(x.fresh("any:"+n, t, st))
	case "AnyNew":
		n := strVal[c.t(0)]
		et := c.tArgs()[0]
		v := x.fresh("any:"+n, types.NewSlice(et), st)
		base := st.alloc()
		hs := ArrS(IntS, ArrS(IntS, sortOf(et)))
		st.recordWrite(elemKey(et), base)
		st.setHeap(elemKey(et), Store(st.heap(elemKey(et), hs), base, Fresh("any:"+n+".elems", hs.V)))
		return c.ret(Ctor(SliceS, base, Zero, v.Args[2], v.Args[2]))
	case "Fn":
		n := strVal[c.t(0)]
		rt := c.tArgs()[0]
		var as []*Term
		sl := c.t(1)
		if !Sel(sl, 2).isInt() {
			x.fail("spec.Fn with a non-literal argument list")
		}
		cnt := int(Sel(sl, 2).I.Int64())
		et := types.NewInterfaceType(nil, nil)
		for i := 0; i < cnt; i++ {
			v := x.sliceAt(st, sl, Int(int64(i)), et)
			as = append(as, x.ifaceScalar(v))
		}
		r := App("fn:"+n, sortOf(rt), as...)
		return c.ret(x.typed(r, rt, nil))
	case "Implies":
		return c.ret(Implies(c.t(0), c.t(1)))
	case "Iff":
		return c.ret(Eq(c.t(0), c.t(1)))
	case "Ite":
		return c.ret(Ite(c.t(0), c.t(1), c.t(2)))
	case "GenFor", "Impl":
		return c.ret()
	}
	x.fail("spec function %s", name)
	return nil
}

func (x *Engine) invFn(name string, i int, v *Term, rt types.Type) *Term {
	if v.Op == "ite" {
		return iteMap(v, func(v *Term) *Term { return x.invFn(name, i, v, rt) })
	}
	if v.Op == "app" && v.Name == name && i < len(v.Args) {
		a := v.Args[i]
		if a.S == sortOf(rt) {
			return a
		}
	}
	return x.typed(App(fmt.Sprintf("inv:%s:%d", name, i), sortOf(rt), v), rt, nil)
}

func knownFn(name string, v *Term) *Term {
	if v.Op == "ite" {
		return iteMap(v, func(v *Term) *Term { return knownFn(name, v) })
	}
	return Bool(v.Op == "app" && v.Name == name)
}

func (x *Engine) rawMessage() types.Type {
	return x.pkgs["encoding/json"].Pkg.Scope().Lookup("RawMessage").Type()
}

// thunkTarget finds the real function behind a method expression.
func thunkTarget(fn *ssa.Function) *ssa.Function {
	if fn.Synthetic == "" || len(fn.Blocks) == 0 {
		return fn
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok {
					return f
				}
			}
		}
	}
	return fn
}

// ifaceScalar unwraps a boxed interface into its content when that is known.
func (x *Engine) ifaceScalar(v *Term) *Term {
	p := Sel(v, 1)
	if p.Op == "app" && strings.HasPrefix(p.Name, "box:") {
		return p.Args[0]
	}
	if t := x.tagType(Sel(v, 0)); t != nil && isPtrLike(t) {
		return p
	}
	return v
}

func clamp(n, l *Term) *Term {
	return Ite(Lt(n, Zero), Zero, Ite(Lt(l, n), l, n))
}

// quantPats picks select/app terms mentioning the bound variable directly as patterns.
func quantPats(b, body *Term) []*Term {
	var pats []*Term
	seen := map[*Term]bool{}
	subterms([]*Term{body}, seen, func(t *Term) {
		if len(pats) >= 6 || !t.bound {
			return
		}
		ok := false
		switch t.Op {
		case "select":
			// direct index or offset index
			if t.Args[1] == b || (t.Args[1].Op == "+" && hasArg(t.Args[1], b)) {
				ok = onlyBound(t, b)
			}
		case "app":
			for _, a := range t.Args {
				if a == b {
					ok = onlyBound(t, b)
				}
			}
		}
		if ok && !patBad(t) {
			pats = append(pats, t)
		}
	})
	// drop patterns that contain another chosen pattern with simpler shape
	return pats
}
func hasArg(t, b *Term) bool {
	for _, a := range t.Args {
		if a == b {
			return true
		}
	}
	return false
}
func patBad(t *Term) bool {
	bad := false
	subterms([]*Term{t}, map[*Term]bool{}, func(s *Term) {
		switch s.Op {
		case "ite", "and", "or", "not", "=", "ge0", "forall", "exists", "true", "false", "r<=":
			bad = true
		}
	})
	return bad
}
func onlyBound(t, b *Term) bool {
	for _, v := range freeBVars(t) {
		if v != b {
			return false
		}
	}
	return true
}

// ---------- builtins ----------

func (x *Engine) builtin(st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) Val {
	t := func(i int) *Term { return args[i].(*Term) }
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch name {
	case "len":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			return Sel(t(0), 2)
		case *types.Map:
			m := t(0)
			if m.Op == "ite" {
				return x.mapLen(st, m, u)
			}
			l := x.mapLen(st, m, u)
			if _, _, ok := splitRef(m); !ok && !m.isInt() {
				l = Ite(Eq(m, Zero), Zero, l)
			}
			x.mapLenFacts(st, l, m, u)
			return l
		case *types.Basic:
			return StrLen(t(0))
		case *types.Array:
			return Int(u.Len())
		case *types.Pointer:
			return Int(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			r := Fresh("chanlen", IntS)
			setRange(r, big.NewInt(0), maxInt64)
			return r
		}
	case "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			return Sel(t(0), 3)
		case *types.Array:
			return Int(u.Len())
		case *types.Chan:
			return x.fresh("chancap", types.Typ[types.Int], st)
		}
	case "append":
		e := at(0).Underlying().(*types.Slice).Elem()
		if b, ok := at(1).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n := StrLen(t(1))
			arr := App("bytes_of", ArrS(IntS, IntS), t(1))
			return x.appendSeq(st, t(0), Ctor(SeqSort(IntS), n, arr), e)
		}
		return x.appendSeq(st, t(0), x.seqOf(st, t(1), e), e)
	case "copy":
		e := at(0).Underlying().(*types.Slice).Elem()
		d := t(0)
		var src *Term
		if _, ok := at(1).Underlying().(*types.Basic); ok {
			src = Ctor(SeqSort(IntS), StrLen(t(1)), App("bytes_of", ArrS(IntS, IntS), t(1)))
		} else {
			src = x.seqOf(st, t(1), e)
		}
		n := Ite(Le(Sel(d, 2), SeqLen(src)), Sel(d, 2), SeqLen(src))
		if n == Zero {
			return Zero
		}
		k, h := x.elemHeap(st, e)
		b, o, _, _ := sliceParts(d)
		inner := Select(h, b)
		var ni *Term
		if n.isInt() && n.I.Int64() <= 16 {
			ni = inner
			for j := int64(0); j < n.I.Int64(); j++ {
				ni = Store(ni, Add(o, Int(j)), SeqAt(src, Int(j)))
			}
		} else if o == Zero && n == Sel(d, 2) && n == SeqLen(src) {
			ni = SeqArr(src)
		} else {
			ni = App("arr_put", inner.S, inner, o, SeqArr(src), n)
		}
		st.recordWrite(k, b)
		st.setHeap(k, Store(h, b, ni))
		return n
	case "delete":
		x.mapDelete(st, t(0), t(1), at(0).Underlying().(*types.Map))
		return nil
	case "close":
		ch := t(0)
		h := st.heap("CH:closed", ArrS(IntS, BoolS))
		x.nopanic(st, nonNil(ch), "close of nil channel", pos)
		x.nopanic(st, Not(Select(h, ch)), "close of closed channel", pos)
		st.recordWrite("CH:closed", ch)
		st.setHeap("CH:closed", Store(h, ch, True))
		return nil
	case "print", "println":
		return nil
	case "recover":
		return x.zero(types.NewInterfaceType(nil, nil))
	case "min", "max":
		r := t(0)
		for i := 1; i < len(args); i++ {
			if name == "min" {
				r = Ite(Le(r, t(i)), r, t(i))
			} else {
				r = Ite(Le(r, t(i)), t(i), r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return t(0)
	}
	x.fail("builtin %s", name)
	return nil
}

func (x *Engine) mapLenFacts(st *State, l, m *Term, u *types.Map) {
	if l.isInt() || x.spec > 0 {
		return
	}
	dom := x.mapDom(st, m, u)
	b := BVar("k", sortOf(u.Key()))
	s := Select(dom, b)
	if s.Op == "select" {
		st.assume(Or(Not(Eq(l, Zero)), Forall([]*Term{b}, Not(s), s)))
	}
}

// ---------- globals ----------

func (x *Engine) globalValue(st *State, g *ssa.Global) *Term {
	if g.Pkg == nil {
		return nil
	}
	p := g.Pkg.Pkg.Path()
	full := p + "." + g.Name()
	switch {
	case strings.HasPrefix(p, "code.cloudfoundry.org/log-cache"):
		return nil
	}
	t := deref(g.Type())
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		// sentinel errors: distinct non-nil values
		r := x.globalRef(g)
		return Ctor(IfaceS, x.tagOf(sentinelErr), Sub(Zero, Sub(Zero, r)))
	}
	if full == "net/http.DefaultClient" || full == "net/http.DefaultTransport" {
		return nil
	}
	return nil
}

var sentinelErr = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "sentinel", nil), types.NewStruct(nil, nil), nil))

// ---------- unknown functions ----------

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "math": true, "net/url": true, "html": true, "path/filepath": true, "bytes": true, "encoding/base64": true, "encoding/hex": true, "crypto/sha256": true, "mime": true, "net/textproto": true, "hash/fnv": true}

func (x *Engine) external(c *callCtx) []Outcome {
	name := origin(c.fn).String()
	p := ""
	if c.fn.Pkg != nil {
		p = c.fn.Pkg.Pkg.Path()
	}
	scalar := true
	var as []*Term
	for i, a := range c.args {
		t, ok := a.(*Term)
		if !ok {
			scalar = false
			continue
		}
		switch t.S {
		case IntS, BoolS, StrS, RealS:
			if i < len(c.args) && isPtrLike(c.argT(i)) {
				scalar = false
			}
		case SliceS:
			e := c.argT(i).Underlying().(*types.Slice).Elem()
			switch e.Underlying().(type) {
			case *types.Basic:
				t = x.seqOf(c.st, t, e)
			default:
				scalar = false
			}
		default:
			scalar = false
		}
		as = append(as, t)
	}
	x.trusted[name] = true
	res := c.fn.Signature.Results()
	if purePkgs[p] && scalar {
		var vs []Val
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, x.pureResult(c.st, name, i, res.At(i).Type(), as))
		}
		return c.ret(vs...)
	}
	if x.spec > 0 {
		x.fail("external function %s in a specification", name)
	}
	if !harmless[name] && !harmlessPkg[p] {
		x.fail("call of %s: no contract for this external function", name)
	}
	var vs []Val
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, x.fresh("ext:"+name, res.At(i).Type(), c.st))
	}
	return c.ret(vs...)
}

func (x *Engine) pureResult(st *State, name string, i int, t types.Type, as []*Term) *Term {
	n := "ext:" + name
	if i > 0 {
		n += "#" + strconv.Itoa(i)
	}
	switch sortOf(t) {
	case IfaceS:
		ok := App(n+"?", BoolS, as...)
		tag := App(n+"!tag", IntS, as...)
		setRange(tag, big.NewInt(1), nil)
		return Ite(ok, Ctor(IfaceS, Zero, Zero), Ctor(IfaceS, tag, App(n+"!pay", IntS, as...)))
	case SliceS:
		e := t.Underlying().(*types.Slice).Elem()
		l := App(n+"!len", IntS, as...)
		setRange(l, big.NewInt(0), new(big.Int).Lsh(bigOne, 40))
		arr := App(n+"!arr", ArrS(IntS, sortOf(e)), as...)
		return x.sliceFromSeq(st, Ctor(SeqSort(sortOf(e)), l, arr), e)
	}
	return x.typed(App(n, sortOf(t), as...), t, st)
}

// functions whose effects are irrelevant to every property (logging, metrics, sleeping)
var harmless = map[string]bool{}
var harmlessPkg = map[string]bool{"log": true}

func lit(t *Term) (interface{}, bool) {
	if s, ok := strVal[t]; ok {
		return s, true
	}
	if t.isInt() {
		return t.I, true
	}
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	return nil, false
}

// pure registers a deterministic library function: folded on literals, uninterpreted otherwise.
func pure(name string, f interface{}) {
	fv := reflect.ValueOf(f)
	intrinsics[name] = func(c *callCtx) []Outcome {
		ft := fv.Type()
		in := make([]reflect.Value, ft.NumIn())
		ok := true
		var as []*Term
		for i := range in {
			a := c.t(i)
			as = append(as, a)
			l, lok := lit(a)
			if !lok {
				ok = false
				continue
			}
			switch ft.In(i).Kind() {
			case reflect.String:
				in[i] = reflect.ValueOf(l.(string))
			case reflect.Bool:
				in[i] = reflect.ValueOf(l.(bool))
			default:
				b := l.(*big.Int)
				v := reflect.New(ft.In(i)).Elem()
				if v.CanInt() {
					v.SetInt(b.Int64())
				} else if v.CanUint() {
					v.SetUint(b.Uint64())
				} else {
					ok = false
				}
				in[i] = v
			}
		}
		if ok && ft.NumOut() <= 2 && (ft.NumOut() == 1 || ft.Out(1).Kind() == reflect.Bool || ft.Out(1).Kind() == reflect.String) {
			outs := fv.Call(in)
			var vs []Val
			for _, o := range outs {
				t := fromGo(o)
				if t == nil {
					goto sym
				}
				vs = append(vs, t)
			}
			return c.ret(vs...)
		}
	sym:
		c.x.trusted[name] = true
		var vs []Val
		for i := 0; i < c.fn.Signature.Results().Len(); i++ {
			vs = append(vs, c.x.pureResult(c.st, name, i, c.resT(i), as))
		}
		return c.ret(vs...)
	}
}

func fromGo(o reflect.Value) *Term {
	switch o.Kind() {
	case reflect.String:
		return StrC(o.String())
	case reflect.Bool:
		return Bool(o.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return Int(o.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return IntB(new(big.Int).SetUint64(o.Uint()))
	}
	return nil
}

func nop(names ...string) {
	for _, n := range names {
		intrinsics[n] = func(c *callCtx) []Outcome {
			var vs []Val
			for i := 0; i < c.fn.Signature.Results().Len(); i++ {
				vs = append(vs, c.x.fresh("nop", c.resT(i), c.st))
			}
			return c.ret(vs...)
		}
	}
}

var errStrT types.Type // *errors.errorString

const errKey = "F:errors.errorString.s"
const errWrapKey = "F:errors.errorString.wrap"

// newError allocates an error value with the given message.
func (x *Engine) newError(st *State, msg *Term, wrap *Term) *Term {
	r := st.alloc()
	st.recordWrite(errKey, r)
	st.setHeap(errKey, Store(st.heap(errKey, ArrS(IntS, StrS)), r, msg))
	if wrap != nil {
		st.recordWrite(errWrapKey, r)
		st.setHeap(errWrapKey, Store(st.heap(errWrapKey, ArrS(IntS, IfaceS)), r, wrap))
	}
	return Ctor(IfaceS, x.tagOf(errStrT), r)
}

func (x *Engine) errMsg(st *State, e *Term) *Term {
	if e.Op == "ite" {
		return iteMap(e, func(e *Term) *Term { return x.errMsg(st, e) })
	}
	tag := Sel(e, 0)
	if t := x.tagType(tag); t != nil && types.Identical(t, errStrT) {
		return Select(st.heap(errKey, ArrS(IntS, StrS)), Sel(e, 1))
	}
	return App("err_msg", StrS, tag, Sel(e, 1))
}

func (x *Engine) varargs(st *State, sl *Term) ([]*Term, bool) {
	n := Sel(sl, 2)
	if !n.isInt() {
		return nil, false
	}
	et := types.NewInterfaceType(nil, nil)
	var out []*Term
	for i := int64(0); i < n.I.Int64(); i++ {
		out = append(out, x.sliceAt(st, sl, Int(i), anyT))
	}
	_ = et
	return out, true
}

var anyT types.Type = types.Universe.Lookup("any").Type()

// fmtValue renders one argument for %v/%s.
func (x *Engine) fmtValue(st *State, v *Term, verb byte) *Term {
	tag := Sel(v, 0)
	t := x.tagType(tag)
	if t == nil {
		return App("fmt:"+string(verb), StrS, tag, Sel(v, 1))
	}
	// errors and stringers
	if verb == 's' || verb == 'v' {
		if types.Identical(t, errStrT) {
			return x.errMsg(st, v)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		ms := types.NewMethodSet(t)
		hasStr := ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
		if !hasStr {
			u := x.unbox(Sel(v, 1), t, st)
			switch {
			case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				return u
			case b.Info()&types.IsString != 0 && verb == 'q':
				return quoteT(u)
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return itoa(u)
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				return Ite(u, StrC("true"), StrC("false"))
			}
		}
	}
	p := Sel(v, 1)
	if p.Op == "app" && strings.HasPrefix(p.Name, "box:") {
		p = p.Args[0]
		if p.S == SliceS {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				p = x.seqOf(st, p, sl.Elem())
			}
		}
	}
	return App("fmt:"+string(verb), StrS, tag, p)
}

func itoa(t *Term) *Term {
	if t.isInt() {
		return StrC(t.I.String())
	}
	return App("itoa", StrS, t)
}
func quoteT(t *Term) *Term {
	if s, ok := strVal[t]; ok {
		return StrC(strconv.Quote(s))
	}
	return App("quote", StrS, t)
}

func (x *Engine) sprintf(st *State, f *Term, sl *Term) *Term {
	fs, ok := strVal[f]
	args, ok2 := x.varargs(st, sl)
	if !ok || !ok2 {
		return App("sprintf", StrS, f, x.seqOf(st, sl, anyT))
	}
	var parts []*Term
	ai := 0
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, StrC(fs[i:]))
			break
		}
		parts = append(parts, StrC(fs[i:i+j]))
		i += j + 1
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			parts = append(parts, StrC("%"))
			i++
			continue
		}
		k := i
		for k < len(fs) && !unicode.IsLetter(rune(fs[k])) {
			k++
		}
		if k >= len(fs) {
			break
		}
		verb := fs[k]
		flags := fs[i:k]
		i = k + 1
		if ai >= len(args) {
			parts = append(parts, StrC("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		if n, err := strconv.Atoi(strings.TrimPrefix(flags, ".")); err == nil && verb == 'f' && flags[0] == '.' {
			if t := x.tagType(Sel(a, 0)); t != nil && t.Underlying() == types.Typ[types.Float64] {
				parts = append(parts, ftoa(x.ifaceScalar(a), Int('f'), Int(int64(n)), Int(64)))
				continue
			}
		}
		if flags == "" {
			parts = append(parts, x.fmtValue(st, a, verb))
		} else {
			parts = append(parts, App("fmt:"+flags+string(verb), StrS, Sel(a, 0), x.ifaceScalarTerm(a)))
		}
	}
	return StrCat(parts...)
}

func (x *Engine) ifaceScalarTerm(a *Term) *Term { return x.ifaceScalar(a) }

// invokeLib handles interface methods of library types the engine models itself.
func (x *Engine) invokeLib(st *State, r *Term, m *types.Func, args []Val, pos token.Pos) ([]Outcome, bool) {
	t := x.tagType(Sel(r, 0))
	if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
		if t == nil || types.Identical(t, errStrT) || types.Identical(t, sentinelErr) {
			return []Outcome{{st, x.errMsg(st, r)}}, true
		}
	}
	if t != nil {
		k := tkey(t) + "." + m.Name()
		if f, ok := libMethods[k]; ok {
			return f(x, st, r, args), true
		}
	}
	return nil, false
}

var libMethods = map[string]func(x *Engine, st *State, r *Term, args []Val) []Outcome{}

// ---------- time ----------

const clockKey = "G:clock"

func (x *Engine) now(st *State) *Term {
	old := st.heap(clockKey, IntS)
	if x.spec > 0 {
		return old
	}
	n := Fresh("now", IntS)
	setRange(n, big.NewInt(0), new(big.Int).Lsh(bigOne, 62))
	setRange(old, big.NewInt(0), new(big.Int).Lsh(bigOne, 62))
	st.assume(Le(old, n))
	st.recordWrite(clockKey, Zero)
	st.setHeap(clockKey, n)
	x.note("time.Now() is an arbitrary non-decreasing clock between 1970 and 2116")
	return n
}

func clamp64(t *Term) *Term {
	lo, hi := intLimits(64, true)
	bl, bh := bounds(t, 0)
	if bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
		return t
	}
	return Ite(Lt(t, IntB(lo)), IntB(lo), Ite(Lt(IntB(hi), t), IntB(hi), t))
}

var int64T = types.Typ[types.Int64]

func init() {
	T := func(name string, f func(c *callCtx) Val) {
		intrinsics[name] = func(c *callCtx) []Outcome { return c.ret(f(c)) }
	}
	e9 := big.NewInt(1000000000)
	T("time.Now", func(c *callCtx) Val { return c.x.now(c.st) })
	T("time.Unix", func(c *callCtx) Val { return Add(MulC(c.t(0), e9), c.t(1)) })
	T("time.UnixMilli", func(c *callCtx) Val { return MulC(c.t(0), big.NewInt(1000000)) })
	T("(time.Time).UnixNano", func(c *callCtx) Val { return c.x.wrap(c.st, c.t(0), int64T) })
	T("(time.Time).Unix", func(c *callCtx) Val { return c.x.wrap(c.st, EDiv(c.t(0), IntB(e9)), int64T) })
	T("(time.Time).UnixMilli", func(c *callCtx) Val { return c.x.wrap(c.st, EDiv(c.t(0), Int(1000000)), int64T) })
	T("(time.Time).Add", func(c *callCtx) Val { return Add(c.t(0), c.t(1)) })
	T("(time.Time).Sub", func(c *callCtx) Val { return clamp64(Sub(c.t(0), c.t(1))) })
	T("(time.Time).Before", func(c *callCtx) Val { return Lt(c.t(0), c.t(1)) })
	T("(time.Time).After", func(c *callCtx) Val { return Lt(c.t(1), c.t(0)) })
	T("(time.Time).Equal", func(c *callCtx) Val { return Eq(c.t(0), c.t(1)) })
	T("(time.Time).Compare", func(c *callCtx) Val {
		return Ite(Lt(c.t(0), c.t(1)), Int(-1), Ite(Eq(c.t(0), c.t(1)), Zero, One))
	})
	T("(time.Time).IsZero", func(c *callCtx) Val { return Eq(c.t(0), IntB(timeZero)) })
	for _, n := range []string{"UTC", "Local", "In", "Round0"} {
		T("(time.Time)."+n, func(c *callCtx) Val { return c.t(0) })
	}
	T("(time.Time).Truncate", func(c *callCtx) Val {
		t, d := c.t(0), c.t(1)
		return Ite(Le(d, Zero), t, Sub(t, EMod(Sub(t, IntB(timeZero)), Ite(Le(d, Zero), One, d))))
	})
	T("(time.Time).Format", func(c *callCtx) Val { return App("time_fmt", StrS, c.t(0), c.t(1)) })
	T("(time.Time).String", func(c *callCtx) Val { return App("time_str", StrS, c.t(0)) })
	T("time.Since", func(c *callCtx) Val { return clamp64(Sub(c.x.now(c.st), c.t(0))) })
	T("time.Until", func(c *callCtx) Val { return clamp64(Sub(c.t(0), c.x.now(c.st))) })
	T("(time.Duration).Seconds", func(c *callCtx) Val {
		return rbin("/", toReal(c.t(0)), RealR(new(big.Rat).SetInt64(1000000000)))
	})
	T("(time.Duration).Milliseconds", func(c *callCtx) Val { return truncDiv(c.t(0), Int(1000000)) })
	T("(time.Duration).Microseconds", func(c *callCtx) Val { return truncDiv(c.t(0), Int(1000)) })
	T("(time.Duration).Nanoseconds", func(c *callCtx) Val { return c.t(0) })
	T("(time.Duration).Minutes", func(c *callCtx) Val {
		return rbin("/", toReal(c.t(0)), RealR(new(big.Rat).SetInt64(60000000000)))
	})
	T("(time.Duration).Hours", func(c *callCtx) Val {
		return rbin("/", toReal(c.t(0)), RealR(new(big.Rat).SetInt64(3600000000000)))
	})
	T("(time.Duration).Truncate", func(c *callCtx) Val {
		d, m := c.t(0), c.t(1)
		mm := Ite(Le(m, Zero), One, m)
		neg := func(t *Term) *Term { return Sub(Zero, t) }
		return Ite(Le(m, Zero), d, Ite(Le(Zero, d), Sub(d, EMod(d, mm)), neg(Sub(neg(d), EMod(neg(d), mm)))))
	})
	T("(time.Duration).Abs", func(c *callCtx) Val {
		d := c.t(0)
		return clamp64(Ite(Le(Zero, d), d, Sub(Zero, d)))
	})
	T("(time.Duration).String", func(c *callCtx) Val {
		if c.t(0).isInt() {
			return StrC(time.Duration(c.t(0).I.Int64()).String())
		}
		return App("dur_str", StrS, c.t(0))
	})
	T("time.After", func(c *callCtx) Val {
		ch := c.st.alloc()
		c.st.setHeap("CH:closed", Store(c.st.heap("CH:closed", ArrS(IntS, BoolS)), ch, False))
		c.st.recordWrite("CH:closed", ch)
		return ch
	})
	nop("time.Sleep")
	intrinsics["time.Sleep"] = func(c *callCtx) []Outcome {
		// the clock advances by at least the duration
		old := c.st.heap(clockKey, IntS)
		n := c.x.now(c.st)
		c.st.assume(Le(Add(old, c.t(0)), n))
		return c.ret()
	}

	// sync
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			nop("(*sync." + t + ")." + m)
		}
	}
	T("(*sync.Mutex).TryLock", func(c *callCtx) Val { return True })
	nop("(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait")
	intrinsics["(*sync.Once).Do"] = func(c *callCtx) []Outcome {
		p := c.t(0)
		ot := deref(c.argT(0))
		done := c.x.load(c.st, p, ot)
		return c.x.splitBool(c.st, Eq(done, One), func(st *State) []Outcome {
			return []Outcome{{st, nil}}
		}, func(st *State) []Outcome {
			c.x.store(st, p, ot, One)
			outs := c.x.callValue(st, c.t(1), nil, nil, c.pos)
			for i := range outs {
				outs[i].res = nil
			}
			return outs
		})
	}
	// atomics
	for _, n := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		n := n
		ty := map[string]types.Type{"Int64": types.Typ[types.Int64], "Int32": types.Typ[types.Int32], "Uint64": types.Typ[types.Uint64], "Uint32": types.Typ[types.Uint32]}[n]
		T("sync/atomic.Add"+n, func(c *callCtx) Val {
			p := c.t(0)
			c.x.nilCheck(c.st, p, c.pos)
			v := c.x.wrap(c.st, Add(c.x.load(c.st, p, ty), c.t(1)), ty)
			c.x.store(c.st, p, ty, v)
			return v
		})
		T("sync/atomic.Load"+n, func(c *callCtx) Val {
			c.x.nilCheck(c.st, c.t(0), c.pos)
			return c.x.load(c.st, c.t(0), ty)
		})
		T("sync/atomic.Store"+n, func(c *callCtx) Val {
			c.x.nilCheck(c.st, c.t(0), c.pos)
			c.x.store(c.st, c.t(0), ty, c.t(1))
			return nil
		})
		T("sync/atomic.Swap"+n, func(c *callCtx) Val {
			o := c.x.load(c.st, c.t(0), ty)
			c.x.store(c.st, c.t(0), ty, c.t(1))
			return o
		})
		T("sync/atomic.CompareAndSwap"+n, func(c *callCtx) Val {
			o := c.x.load(c.st, c.t(0), ty)
			ok := Eq(o, c.t(1))
			c.x.store(c.st, c.t(0), ty, Ite(ok, c.t(2), o))
			return ok
		})
		mt := func(c *callCtx) types.Type { return deref(c.argT(0)) }
		T("(*sync/atomic."+n+").Add", func(c *callCtx) Val {
			v := c.x.wrap(c.st, Add(c.x.load(c.st, c.t(0), mt(c)), c.t(1)), ty)
			c.x.store(c.st, c.t(0), mt(c), v)
			return v
		})
		T("(*sync/atomic."+n+").Load", func(c *callCtx) Val { return c.x.typed(c.x.load(c.st, c.t(0), mt(c)), ty, c.st) })
		T("(*sync/atomic."+n+").Store", func(c *callCtx) Val { c.x.store(c.st, c.t(0), mt(c), c.t(1)); return nil })
	}

	// errors and formatting
	T("errors.New", func(c *callCtx) Val { return c.x.newError(c.st, c.t(0), nil) })
	T("fmt.Errorf", func(c *callCtx) Val {
		msg := c.x.sprintf(c.st, c.t(0), c.t(1))
		var w *Term
		if f, ok := strVal[c.t(0)]; ok && strings.Contains(f, "%w") {
			if as, ok := c.x.varargs(c.st, c.t(1)); ok && len(as) > 0 {
				w = as[len(as)-1]
			}
		}
		return c.x.newError(c.st, msg, w)
	})
	T("fmt.Sprintf", func(c *callCtx) Val { return c.x.sprintf(c.st, c.t(0), c.t(1)) })
	T("fmt.Sprint", func(c *callCtx) Val {
		as, ok := c.x.varargs(c.st, c.t(0))
		if ok && len(as) == 1 {
			return c.x.fmtValue(c.st, as[0], 'v')
		}
		return App("sprint", StrS, c.x.seqOf(c.st, c.t(0), anyT))
	})
	nop("fmt.Printf", "fmt.Println", "fmt.Print")
	T("strconv.Itoa", func(c *callCtx) Val { return itoa(c.t(0)) })
	T("strconv.FormatInt", func(c *callCtx) Val {
		if c.t(1).isInt() && c.t(1).I.Int64() == 10 {
			return itoa(c.t(0))
		}
		return App("formatint", StrS, c.t(0), c.t(1))
	})
	T("strconv.FormatUint", func(c *callCtx) Val {
		if c.t(1).isInt() && c.t(1).I.Int64() == 10 {
			return itoa(c.t(0))
		}
		return App("formatint", StrS, c.t(0), c.t(1))
	})
	T("strconv.FormatBool", func(c *callCtx) Val { return Ite(c.t(0), StrC("true"), StrC("false")) })
	T("strconv.Quote", func(c *callCtx) Val { return quoteT(c.t(0)) })
	T("strconv.FormatFloat", func(c *callCtx) Val {
		return ftoa(c.t(0), c.t(1), c.t(2), c.t(3))
	})
	parseInt := func(signed bool) func(c *callCtx) []Outcome {
		var self func(c *callCtx) []Outcome
		self = func(c *callCtx) []Outcome {
			s := c.t(0)
			x := c.x
			if s.Op == "ite" {
				half := func(i int) func(st *State) []Outcome {
					return func(st *State) []Outcome {
						d := *c
						d.st = st
						d.args = append([]Val{s.Args[i]}, c.args[1:]...)
						return self(&d)
					}
				}
				return x.splitBool(c.st, s.Args[0], half(1), half(2))
			}
			base, bits := int64(10), int64(64)
			if len(c.args) == 3 {
				if !c.t(1).isInt() || !c.t(2).isInt() {
					x.fail("strconv with a computed base or size")
				}
				base, bits = c.t(1).I.Int64(), c.t(2).I.Int64()
				if bits == 0 {
					bits = 64
				}
			}
			lo, hi := intLimits(uint(bits), signed)
			if v, ok := strVal[s]; ok {
				if signed {
					n, err := strconv.ParseInt(v, int(base), int(bits))
					if err == nil {
						return c.ret(Int(n), x.zero(c.resT(1)))
					}
					return c.ret(Int(n), x.newError(c.st, StrC(err.Error()), nil))
				}
				n, err := strconv.ParseUint(v, int(base), int(bits))
				if err == nil {
					return c.ret(IntB(new(big.Int).SetUint64(n)), x.zero(c.resT(1)))
				}
				return c.ret(IntB(new(big.Int).SetUint64(n)), x.newError(c.st, StrC(err.Error()), nil))
			}
			bad := func(syntax, n *Term) func(st *State) []Outcome {
				return func(st *State) []Outcome {
					// the value returned with an error: 0 for syntax errors, saturated for range errors
					v := Ite(syntax, Zero, Ite(Lt(n, IntB(lo)), IntB(lo), IntB(hi)))
					if !signed {
						v = Ite(Or(syntax, Lt(n, Zero)), Zero, IntB(hi))
					}
					return []Outcome{{st, Tuple{v, x.newError(st, StrCat(StrC("strconv: parsing "), quoteT(s), StrC(": invalid syntax or out of range")), nil)}}}
				}
			}
			if s.Op == "app" && s.Name == "itoa" && base == 10 {
				n := s.Args[0]
				return x.splitBool(c.st, And(Le(IntB(lo), n), Le(n, IntB(hi))), func(st *State) []Outcome {
					return []Outcome{{st, Tuple{n, x.zero(c.resT(1))}}}
				}, bad(False, n))
			}
			suffix := ""
			if base != 10 {
				suffix = fmt.Sprintf(":%d", base)
			}
			ok := App("isint"+suffix, BoolS, s)
			n := App("un_itoa"+suffix, IntS, s)
			good := And(ok, Le(IntB(lo), n), Le(n, IntB(hi)))
			x.note("strconv.ParseInt/ParseUint accept exactly the strings of an uninterpreted predicate containing every canonical decimal")
			return x.splitBool(c.st, good, func(st *State) []Outcome {
				return []Outcome{{st, Tuple{n, x.zero(c.resT(1))}}}
			}, bad(Not(ok), n))
		}
		return self
	}
	intrinsics["strconv.ParseInt"] = parseInt(true)
	intrinsics["strconv.Atoi"] = parseInt(true)
	intrinsics["strconv.ParseUint"] = parseInt(false)
	intrinsics["strconv.ParseFloat"] = func(c *callCtx) []Outcome {
		s := c.t(0)
		x := c.x
		if s.Op == "app" && s.Name == "ftoa" {
			v := s.Args[0]
			if s.Args[2] != Int(-1) {
				v = App("fround", RealS, v, s.Args[2])
				if s.Args[1] != Int('f') {
					v = App("frounde", RealS, s.Args[0], s.Args[1], s.Args[2])
				}
			}
			if s.Args[3] != Int(64) {
				v = App("float32", RealS, v)
			}
			if c.t(1) != Int(64) {
				v = App("float32", RealS, v)
			}
			return c.ret(v, x.zero(c.resT(1)))
		}
		if v, ok := strVal[s]; ok {
			if r, ok := new(big.Rat).SetString(v); ok && !strings.Contains(v, "/") && c.t(1) == Int(64) {
				return c.ret(RealR(r), x.zero(c.resT(1)))
			}
		}
		is, v := App("isfloat", BoolS, s), App("un_ftoa", RealS, s)
		if c.t(1) != Int(64) {
			// single precision: another range and other values
			is, v = And(is, App("isfloat32", BoolS, s)), App("float32", RealS, v)
		}
		return c.x.splitBool(c.st, is, func(st *State) []Outcome {
			return []Outcome{{st, Tuple{v, x.zero(c.resT(1))}}}
		}, func(st *State) []Outcome {
			return []Outcome{{st, Tuple{RealR(new(big.Rat)), x.newError(st, StrCat(StrC("strconv.ParseFloat: parsing "), quoteT(s)), nil)}}}
		})
	}
	// strings
	pure("strings.HasPrefix", strings.HasPrefix)
	pure("strings.HasSuffix", strings.HasSuffix)
	pure("strings.Contains", strings.Contains)
	pure("strings.ContainsAny", strings.ContainsAny)
	pure("strings.Index", strings.Index)
	pure("strings.IndexByte", strings.IndexByte)
	pure("strings.LastIndex", strings.LastIndex)
	pure("strings.ToLower", strings.ToLower)
	pure("strings.ToUpper", strings.ToUpper)
	pure("strings.Title", strings.Title)
	pure("strings.TrimSpace", strings.TrimSpace)
	pure("strings.Trim", strings.Trim)
	pure("strings.TrimLeft", strings.TrimLeft)
	pure("strings.TrimRight", strings.TrimRight)
	pure("strings.TrimPrefix", strings.TrimPrefix)
	pure("strings.TrimSuffix", strings.TrimSuffix)
	pure("strings.Replace", strings.Replace)
	pure("strings.ReplaceAll", strings.ReplaceAll)
	pure("strings.EqualFold", strings.EqualFold)
	pure("strings.Repeat", strings.Repeat)
	pure("strings.Count", strings.Count)
	hp := intrinsics["strings.HasPrefix"]
	intrinsics["strings.HasPrefix"] = func(c *callCtx) []Outcome {
		s, p := c.t(0), c.t(1)
		if s.Op == "ite" {
			d := *c
			d.args = []Val{s.Args[1], p}
			a := intrinsics["strings.HasPrefix"](&d)[0].res.(*Term)
			d.args = []Val{s.Args[2], p}
			b := intrinsics["strings.HasPrefix"](&d)[0].res.(*Term)
			return c.ret(Ite(s.Args[0], a, b))
		}
		if pv, ok := strVal[p]; ok && s.Op == "app" && s.Name == "str_cat" {
			if f, ok := strVal[s.Args[0]]; ok {
				if len(f) >= len(pv) {
					return c.ret(Bool(strings.HasPrefix(f, pv)))
				}
				if !strings.HasPrefix(pv, f) {
					return c.ret(False)
				}
			}
		}
		return hp(c)
	}
	intrinsics["strings.Join"] = func(c *callCtx) []Outcome {
		sl, sep := c.t(0), c.t(1)
		n := Sel(sl, 2)
		if n.isInt() && n.I.Int64() <= 64 {
			var ps []*Term
			for i := int64(0); i < n.I.Int64(); i++ {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, c.x.sliceAt(c.st, sl, Int(i), types.Typ[types.String]))
			}
			return c.ret(StrCat(ps...))
		}
		return c.ret(App("str_join", StrS, c.x.seqOf(c.st, sl, types.Typ[types.String]), sep))
	}
	intrinsics["errors.Is"] = func(c *callCtx) []Outcome {
		return c.ret(Or(c.x.equal(c.t(0), c.t(1)), App("errors_is", BoolS, Sel(c.t(0), 0), Sel(c.t(0), 1), Sel(c.t(1), 0), Sel(c.t(1), 1))))
	}
	// math
	T("math.Abs", func(c *callCtx) Val {
		z := RealR(new(big.Rat))
		return Ite(Le(z, c.t(0)), c.t(0), Sub(z, c.t(0)))
	})
	T("math.Float64bits", func(c *callCtx) Val {
		r := App("f64bits", IntS, c.t(0))
		setRange(r, big.NewInt(0), new(big.Int).SetUint64(^uint64(0)))
		return r
	})
	T("math.Float64frombits", func(c *callCtx) Val {
		a := c.t(0)
		if a.Op == "app" && a.Name == "f64bits" {
			return a.Args[0]
		}
		return App("f64frombits", RealS, a)
	})
	T("math.IsNaN", func(c *callCtx) Val {
		c.x.note("floating-point NaN and infinities are outside the real-number model")
		return False
	})
	T("math.IsInf", func(c *callCtx) Val {
		c.x.note("floating-point NaN and infinities are outside the real-number model")
		return False
	})
	T("math.Floor", func(c *callCtx) Val { return toReal(toInt(c.t(0))) })
	T("math.Ceil", func(c *callCtx) Val {
		z := RealR(new(big.Rat))
		return Sub(z, toReal(toInt(Sub(z, c.t(0)))))
	})
	T("math.Min", func(c *callCtx) Val { return Ite(Le(c.t(0), c.t(1)), c.t(0), c.t(1)) })
	T("math.Max", func(c *callCtx) Val { return Ite(Le(c.t(0), c.t(1)), c.t(1), c.t(0)) })
	// a payload is what boxing its content gives
	groundFacts["unbox:Str"] = func(t *Term) []*Term {
		return []*Term{mk("=", BoolS, "", nil, App("box:Str", IntS, t), t.Args[0])}
	}
	groundFacts["f64bits"] = func(t *Term) []*Term {
		return []*Term{mk("=", BoolS, "", nil, App("f64frombits", RealS, t), t.Args[0])}
	}
	intrinsics["unicode.IsLetter"] = nil
	delete(intrinsics, "unicode.IsLetter")
	_ = fmt.Sprint
}

func (x *Engine) splitBool(st *State, c *Term, a, b func(st *State) []Outcome) []Outcome {
	if c == True || st.pcset[c] {
		return a(st)
	}
	if c == False || st.pcset[Not(c)] {
		return b(st)
	}
	var outs []Outcome
	if x.feasible(st, c) {
		s := st.clone()
		s.assume(c)
		outs = append(outs, a(s)...)
	}
	if x.feasible(st, Not(c)) {
		s := st.clone()
		s.assume(Not(c))
		outs = append(outs, b(s)...)
	}
	return x.mergeOutcomes(outs)
}
