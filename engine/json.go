package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JSON documents are lazy views: a node is a Go value of a known type seen in a frozen heap.
// The bytes encoding/json produces for it are the uninterpreted array jbytes(node).

type jtype struct {
	t  types.Type
	st *State
}

var (
	jnames = map[string]jtype{}
	jsnap  = map[string]int{}
)

const jabsent = "jabsent"

func jAbsent() *Term { return App(jabsent, IntS) }

func (x *Engine) jnode(t types.Type, v *Term, st *State, snap string) *Term {
	n := "jn:" + snap + ":" + tkey(t)
	if _, ok := jnames[n]; !ok {
		jnames[n] = jtype{t, st}
	}
	return App(n, IntS, v)
}

var snapIDs = map[*State]string{}

func (x *Engine) snapshot(st *State) (*State, string) {
	// identical heaps share a snapshot, so that equal documents are equal terms
	var ks []string
	for k := range st.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d;", k, st.heaps[k].id)
	}
	id, ok := jsnap[b.String()]
	if !ok {
		id = len(jsnap) + 1
		jsnap[b.String()] = id
	}
	c := st.clone()
	c.mods = nil
	return c, fmt.Sprint(id)
}

func jtag(f *types.Var, tag string) (name string, skip, omit bool) {
	j := reflect.StructTag(tag).Get("json")
	if j == "-" || !f.Exported() {
		return "", true, false
	}
	ps := strings.Split(j, ",")
	name = ps[0]
	if name == "" {
		name = f.Name()
	}
	for _, p := range ps[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	return
}

func isRaw(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "encoding/json" && nm == "RawMessage" || p == "encoding/json/jsontext" && nm == "Value"
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// registerJSONTypes fixes the dynamic types a document's interface values may have.
func (x *Engine) registerJSONTypes() {
	x.jtypes = nil
	add := func(t types.Type) { x.tagOf(t); x.jtypes = append(x.jtypes, t) }
	for _, k := range []types.BasicKind{types.String, types.Bool, types.Float64} {
		add(types.Typ[k])
	}
	// everything the code and the contracts store in an interface and that has a JSON form of its own
	seen := map[string]types.Type{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && jsonShape(m.X.Type()) {
					seen[tkey(m.X.Type())] = m.X.Type()
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, path := range sortedKeys(x.pkgs) {
		if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/rpc/") {
			continue
		}
		for _, m := range x.pkgs[path].Members {
			switch m := m.(type) {
			case *ssa.Function:
				scan(m)
			case *ssa.Type:
				if n := namedOf(m.Type()); n != nil && !types.IsInterface(n) && n.TypeParams().Len() == 0 {
					for i := 0; i < n.NumMethods(); i++ {
						scan(x.prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(seen) {
		add(seen[k])
	}
}

func jsonShape(t types.Type) bool {
	if isRaw(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return jsonShape(u.Elem()) || types.IsInterface(u.Elem())
	case *types.Map:
		return isStrT(u.Key())
	case *types.Pointer:
		s, ok := u.Elem().Underlying().(*types.Struct)
		return ok && jsonShape(s)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if strings.Contains(u.Tag(i), "json:") {
				return true
			}
		}
	}
	return false
}

// jview resolves pointers, interfaces and raw messages to what the document shows; f sees concrete views.
func (x *Engine) jview(n *Term, want func(t types.Type) bool, absent *Term, f func(t types.Type, v *Term, st *State, snap string) *Term) *Term {
	if n.Op == "ite" {
		return iteMap(n, func(n *Term) *Term { return x.jview(n, want, absent, f) })
	}
	if n.Op != "app" {
		x.fail("JSON view of an unknown document %s", n.Str())
	}
	if n.Name == jabsent {
		return absent
	}
	jt, ok := jnames[n.Name]
	if !ok {
		x.fail("JSON view of an unknown document %s", n.Str())
	}
	snap := strings.SplitN(n.Name, ":", 3)[1]
	v := n.Args[0]
	return x.jviewV(jt.t, v, jt.st, snap, want, absent, f)
}

func (x *Engine) jviewV(t types.Type, v *Term, st *State, snap string, want func(t types.Type) bool, absent *Term, f func(t types.Type, v *Term, st *State, snap string) *Term) *Term {
	if v.Op == "ite" && v.S != BoolS {
		return iteMap(v, func(v *Term) *Term { return x.jviewV(t, v, st, snap, want, absent, f) })
	}
	if isRaw(t) {
		if d := x.jdoc(st, v); d != nil {
			return x.jview(d, want, absent, f)
		}
		return f(t, v, st, snap)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v == Zero {
			return absent
		}
		if !isStructObj(u.Elem()) || !want(u.Elem()) {
			return absent
		}
		r := x.jviewV(u.Elem(), x.load(st, v, u.Elem()), st, snap, want, absent, f)
		return Ite(Eq(v, Zero), absent, r)
	case *types.Interface:
		tag := Sel(v, 0)
		if tag == Zero {
			return absent
		}
		ct := x.tagType(tag)
		if ct == nil {
			ct = x.knownElemTag(tag)
		}
		if ct != nil {
			if !want(ct) && !isRaw(ct) && !isPtrTo(ct, want) {
				return absent
			}
			return x.jviewV(ct, x.unbox(Sel(v, 1), ct, st), st, snap, want, absent, f)
		}
		r := absent
		for i := len(x.jtypes) - 1; i >= 0; i-- {
			ct := x.jtypes[i]
			if !want(ct) && !isRaw(ct) && !isPtrTo(ct, want) {
				continue
			}
			r = Ite(Eq(tag, x.tagOf(ct)), x.jviewV(ct, x.unbox(Sel(v, 1), ct, st), st, snap, want, absent, f), r)
		}
		return r
	}
	if !want(t) {
		return absent
	}
	return f(t, v, st, snap)
}

func isPtrTo(t types.Type, want func(t types.Type) bool) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && want(p.Elem())
}

// jdoc is the document whose encoding the bytes are (nil if they are not known to be one).
func (x *Engine) jdoc(st *State, bytes *Term) *Term {
	if bytes.Op == "ite" {
		a, b := x.jdoc(st, bytes.Args[1]), x.jdoc(st, bytes.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return Ite(bytes.Args[0], a, b)
	}
	seq := x.seqOf(st, bytes, types.Typ[types.Uint8])
	return x.jdocSeq(seq)
}

func (x *Engine) jdocSeq(seq *Term) *Term {
	if seq.Op == "ite" {
		a, b := x.jdocSeq(seq.Args[1]), x.jdocSeq(seq.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return Ite(seq.Args[0], a, b)
	}
	return x.jdocArr(SeqArr(seq), SeqLen(seq))
}

func (x *Engine) jdocArr(arr, n *Term) *Term {
	if arr.Op == "app" && arr.Name == "sq_of" && arr.Args[1] == Zero && arr.Args[2] == n {
		arr = arr.Args[0]
	}
	if arr.Op == "store" && arr.Args[2].isInt() && Sub(n, arr.Args[1]) == One {
		switch arr.Args[2].I.Int64() {
		case '\n', ' ', '\t', '\r':
			return x.jdocArr(arr.Args[0], Sub(n, One))
		}
	}
	if arr.Op == "app" && arr.Name == "sq_of" && arr.Args[1] == Zero && arr.Args[2] == n {
		arr = arr.Args[0]
	}
	if arr.Op == "app" && arr.Name == "jbytes" && n == jlen(arr.Args[0]) {
		return arr.Args[0]
	}
	if arr.Op == "app" && arr.Name == "bytes_of" {
		return x.jdocStr(arr.Args[0])
	}
	return nil
}

// jdocStr: a string known to be made of a document's bytes.
func (x *Engine) jdocStr(s *Term) *Term {
	if s.Op == "app" && s.Name == "str_of_bytes" {
		return x.jdocArr(s.Args[0], s.Args[1])
	}
	if s.Op == "app" && s.Name == "str_cat" {
		return x.jdocTemplate(s)
	}
	return nil
}

// jdocTemplate reads text put together around values, {"a":"<value>",...}: the document it denotes as
// long as no value has characters that JSON escapes.
func (x *Engine) jdocTemplate(s *Term) *Term {
	var toks []interface{} // bytes of the literal parts and the values between them
	for _, p := range s.Args {
		if lit, ok := strVal[p]; ok {
			for i := 0; i < len(lit); i++ {
				toks = append(toks, lit[i])
			}
		} else {
			toks = append(toks, p)
		}
	}
	i := 0
	space := func() {
		for i < len(toks) {
			if c, ok := toks[i].(byte); !ok || !strings.ContainsRune(" \t\r\n", rune(c)) {
				return
			}
			i++
		}
	}
	is := func(c byte) bool {
		space()
		if i < len(toks) && toks[i] == interface{}(c) {
			i++
			return true
		}
		return false
	}
	var conds []*Term
	str := func() *Term {
		if !is('"') {
			return nil
		}
		var parts []*Term
		for ; i < len(toks); i++ {
			switch t := toks[i].(type) {
			case byte:
				if t == '"' {
					i++
					return StrCat(append([]*Term{StrC("")}, parts...)...)
				}
				if t == '\\' || t < 0x20 || t >= 0x80 {
					return nil
				}
				parts = append(parts, StrC(string(rune(t))))
			case *Term:
				conds = append(conds, plainStr(t))
				parts = append(parts, t)
			}
		}
		return nil
	}
	if !is('{') {
		return nil
	}
	var fields []*types.Var
	var tags, names []string
	var vals []*Term
	for {
		k := str()
		name, ok := strVal[k]
		if k == nil || !ok || !is(':') {
			return nil
		}
		v := str()
		if v == nil {
			return nil
		}
		fields = append(fields, types.NewField(0, nil, fmt.Sprintf("F%d", len(fields)), types.Typ[types.String], false))
		tags = append(tags, fmt.Sprintf("json:%q", name))
		names = append(names, name)
		vals = append(vals, v)
		if is('}') {
			break
		}
		if !is(',') {
			return nil
		}
	}
	space()
	if i < len(toks) {
		return nil
	}
	t := types.NewStruct(fields, tags)
	n := x.jnode(t, Ctor(sortOf(t), vals...), nil, "tmpl:"+strings.Join(names, ","))
	return Ite(And(conds...), n, jAbsent())
}

// plainStr: the text has no character that JSON escapes.
func plainStr(t *Term) *Term {
	if s, ok := strVal[t]; ok {
		for _, c := range s {
			if c < 0x20 || c == '"' || c == '\\' || c == 0xfffd {
				return False
			}
		}
		return True
	}
	if t.Op == "app" {
		switch t.Name {
		case "itoa", "ftoa":
			return True
		case "str_cat":
			r := True
			for _, a := range t.Args {
				r = And(r, plainStr(a))
			}
			return r
		}
	}
	return App("str_plain", BoolS, t)
}

func jlen(n *Term) *Term {
	l := App("jlen", IntS, n)
	setRange(l, big.NewInt(1), new(big.Int).Lsh(bigOne, 40))
	return l
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func (x *Engine) jsonCall(c *callCtx, name string) []Outcome {
	n := c.t(0)
	switch name {
	case "Field":
		k, ok := strVal[c.t(1)]
		if !ok {
			x.fail("JSON.Field needs a literal name")
		}
		want := func(t types.Type) bool {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				if n := namedOf(t); n != nil {
					if _, op := opaqueStructs[tkey(n)]; op {
						return false
					}
				}
				for i := 0; i < u.NumFields(); i++ {
					if nm, skip, _ := jtag(u.Field(i), u.Tag(i)); !skip && nm == k {
						return true
					}
				}
			case *types.Map:
				return isStrT(u.Key())
			}
			return false
		}
		return c.ret(x.jview(n, want, jAbsent(), func(t types.Type, v *Term, st *State, snap string) *Term {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					nm, skip, omit := jtag(u.Field(i), u.Tag(i))
					if skip || nm != k {
						continue
					}
					ft := u.Field(i).Type()
					fv := x.typed(Sel(v, i), ft, st)
					r := x.jnode(ft, fv, st, snap)
					if omit {
						r = Ite(x.jempty(fv, ft, st), jAbsent(), r)
					}
					return r
				}
			case *types.Map:
				key := c.t(1)
				return Ite(x.mapHas(st, v, key, u), x.jnode(u.Elem(), x.mapGet(st, v, key, u), st, snap), jAbsent())
			}
			return jAbsent()
		}))
	case "At", "Len":
		want := func(t types.Type) bool {
			if isByteSlice(t) {
				return false
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Array:
				return true
			}
			return false
		}
		absent := Int(-1)
		if name == "At" {
			absent = jAbsent()
		}
		return c.ret(x.jview(n, want, absent, func(t types.Type, v *Term, st *State, snap string) *Term {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				if name == "Len" {
					return Ite(And(Eq(Sel(v, 0), Zero), Eq(Sel(v, 2), Zero)), Int(-1), Sel(v, 2))
				}
				return x.jnode(u.Elem(), x.sliceAt(st, v, c.t(1), u.Elem()), st, snap)
			case *types.Array:
				if name == "Len" {
					return Int(u.Len())
				}
				return x.jnode(u.Elem(), x.typed(Select(v, c.t(1)), u.Elem(), st), st, snap)
			}
			return absent
		}))
	case "Str":
		return c.ret(x.jview(n, isStrT, StrC(""), func(t types.Type, v *Term, st *State, snap string) *Term {
			if isRaw(t) {
				return App("json_str", StrS, x.seqOf(st, v, types.Typ[types.Uint8]))
			}
			return v
		}))
	case "Num":
		return c.ret(x.jview(n, isNumT, StrC(""), func(t types.Type, v *Term, st *State, snap string) *Term {
			if isRaw(t) {
				return x.bytesToStr(x.seqOf(st, v, types.Typ[types.Uint8]), false)
			}
			if v.S == RealS {
				return App("json_float", StrS, v)
			}
			return itoa(v)
		}))
	case "StrMap":
		ms := MapSort(StrS, StrS)
		bad := Ctor(ms, App("json_badmap_d", ArrS(StrS, BoolS)), App("json_badmap_v", ArrS(StrS, StrS)))
		want := func(t types.Type) bool {
			u, ok := t.Underlying().(*types.Map)
			return ok && isStrT(u.Key()) && isStrT(u.Elem())
		}
		return c.ret(x.jview(n, want, bad, func(t types.Type, v *Term, st *State, snap string) *Term {
			if isRaw(t) {
				return bad
			}
			mt := t.Underlying().(*types.Map)
			r := Ctor(ms, x.mapDom(st, v, mt), x.mapVal(st, v, mt))
			if v == Zero {
				return bad
			}
			return Ite(Eq(v, Zero), bad, r)
		}))
	}
	x.fail("JSON accessor %s", name)
	return nil
}

// jempty is encoding/json's notion of an empty value.
func (x *Engine) jempty(v *Term, t types.Type, st *State) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return Eq(Sel(v, 2), Zero)
	case *types.Map:
		return Or(Eq(v, Zero), Eq(x.mapLen(st, v, u), Zero))
	case *types.Pointer:
		return Eq(v, Zero)
	case *types.Interface:
		return Eq(Sel(v, 0), Zero)
	case *types.Basic:
		return Eq(v, x.zero(t))
	}
	return False
}

// jconv decodes a document into a value of type to.
func (x *Engine) jconv(st *State, n *Term, to types.Type) *Term {
	if n.Op == "ite" {
		return iteMap(n, func(n *Term) *Term { return x.jconv(st, n, to) })
	}
	if n.Name == jabsent {
		return x.zero(to)
	}
	jt, ok := jnames[n.Name]
	if !ok {
		x.fail("decoding an unknown document")
	}
	snap := strings.SplitN(n.Name, ":", 3)[1]
	return x.jconvV(st, jt.t, n.Args[0], jt.st, snap, to)
}

func (x *Engine) jconvV(st *State, t types.Type, v *Term, fst *State, snap string, to types.Type) *Term {
	if v.Op == "ite" && v.S != BoolS {
		return iteMap(v, func(v *Term) *Term { return x.jconvV(st, t, v, fst, snap, to) })
	}
	if isRaw(t) {
		if d := x.jdoc(fst, v); d != nil && !isRaw(to) {
			return x.jconv(st, d, to)
		}
	}
	if isRaw(to) {
		if isRaw(t) {
			return v
		}
		nd := x.jnode(t, v, fst, snap)
		return x.sliceFromSeq(st, Ctor(SeqSort(IntS), jlen(nd), App("jbytes", ArrS(IntS, IntS), nd)), types.Typ[types.Uint8])
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v == Zero {
			return x.zero(to)
		}
		return Ite(Eq(v, Zero), x.zero(to), x.jconvV(st, p.Elem(), x.load(fst, v, p.Elem()), fst, snap, to))
	}
	if _, ok := t.Underlying().(*types.Interface); ok && !types.IsInterface(to) {
		ct := x.tagType(Sel(v, 0))
		if ct == nil {
			x.fail("decoding an interface value of unknown type into %s", to)
		}
		return x.jconvV(st, ct, x.unbox(Sel(v, 1), ct, fst), fst, snap, to)
	}
	if types.Identical(t.Underlying(), to.Underlying()) && sortOf(t) == sortOf(to) {
		return v
	}
	switch u := to.Underlying().(type) {
	case *types.Struct:
		if fu, ok := t.Underlying().(*types.Struct); ok {
			as := make([]*Term, u.NumFields())
			for i := range as {
				ft := u.Field(i).Type()
				as[i] = x.zero(ft)
				nm, skip, _ := jtag(u.Field(i), u.Tag(i))
				if skip {
					continue
				}
				for j := 0; j < fu.NumFields(); j++ {
					fn, fskip, omit := jtag(fu.Field(j), fu.Tag(j))
					if fskip || fn != nm {
						continue
					}
					fv := x.typed(Sel(v, j), fu.Field(j).Type(), fst)
					as[i] = x.jconvV(st, fu.Field(j).Type(), fv, fst, snap, ft)
					if omit {
						as[i] = Ite(x.jempty(fv, fu.Field(j).Type(), fst), x.zero(ft), as[i])
					}
				}
			}
			return Ctor(sortOf(to), as...)
		}
	case *types.Slice:
		if fu, ok := t.Underlying().(*types.Slice); ok {
			if v == x.zero(t) {
				return x.zero(to)
			}
			// element by element
			b, o, l, _ := sliceParts(v)
			i := BVar("i", IntS)
			_, h := x.elemHeap(fst, fu.Elem())
			ev := x.jconvV(st, fu.Elem(), Select(Select(h, b), Add(o, i)), fst, snap, u.Elem())
			arr := Fresh("jarr", ArrS(IntS, sortOf(u.Elem())))
			heapLim[arr] = refBound{st.base, st.off}
			in := And(mk("ge0", BoolS, "", nil, i), mk("ge0", BoolS, "", nil, Sub(Sub(l, i), One)))
			at := Select(arr, i)
			st.assume(Forall([]*Term{i}, Implies(in, Eq(at, ev)), at))
			r := x.sliceFromSeq(st, Ctor(SeqSort(sortOf(u.Elem())), l, arr), u.Elem())
			return Ite(And(Eq(b, Zero), Eq(l, Zero)), x.zero(to), r)
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return x.mkIface(v, t)
		}
	case *types.Basic:
		ok := isStrT(t) && isStrT(to)
		if ok {
			return v
		}
	}
	x.fail("decoding a document of type %s into %s", t, to)
	return nil
}

func init() {
	intrinsics["encoding/json.Marshal"] = func(c *callCtx) []Outcome {
		x, st, v := c.x, c.st, c.t(0)
		fs, snap := x.snapshot(st)
		nd := x.jnode(anyT, v, fs, snap)
		x.trusted["encoding/json.Marshal"] = true
		x.note("encoding/json encodes every finite value of the types used here without error")
		out := x.sliceFromSeq(st, Ctor(SeqSort(IntS), jlen(nd), App("jbytes", ArrS(IntS, IntS), nd)), types.Typ[types.Uint8])
		return c.ret(out, x.zero(c.resT(1)))
	}
	var unmarshal func(c *callCtx) []Outcome
	unmarshal = func(c *callCtx) []Outcome {
		x, st := c.x, c.st
		data, v := c.t(0), c.t(1)
		x.trusted["encoding/json.Unmarshal"] = true
		pt := x.tagType(Sel(v, 0))
		if pt == nil {
			x.fail("json.Unmarshal into an unknown type")
		}
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			x.fail("json.Unmarshal into a %s", pt)
		}
		tgt := x.unbox(Sel(v, 1), pt, st)
		if d := x.jdoc(st, data); d != nil {
			x.store(st, tgt, p.Elem(), x.jconv(st, d, p.Elem()))
			return c.ret(x.zero(c.resT(0)))
		}
		// bytes chosen by a condition are decoded case by case
		var cond *Term
		b, o, l, cp := sliceParts(data)
		for _, p := range []*Term{data, b, l} {
			if p.Op == "ite" && cond == nil {
				cond = p.Args[0]
			}
		}
		if cond != nil {
			half := func(v bool) func(st *State) []Outcome {
				return func(st *State) []Outcome {
					d := *c
					d.st = st
					d.args = append([]Val{mkSlice(underCond(b, cond, v), underCond(o, cond, v), underCond(l, cond, v), underCond(cp, cond, v))}, c.args[1:]...)
					return unmarshal(&d)
				}
			}
			return x.splitBool(st, cond, half(true), half(false))
		}
		seq := x.seqOf(st, data, types.Typ[types.Uint8])
		bad := Or(x.garbage(seq), App("json_invalid:"+tkey(p.Elem()), BoolS, seq))
		return x.splitBool(st, bad, func(st *State) []Outcome {
			x.store(st, tgt, p.Elem(), x.fresh("junk", p.Elem(), st))
			return []Outcome{{st, x.newError(st, App("json_error", StrS, seq), nil)}}
		}, func(st *State) []Outcome {
			x.store(st, tgt, p.Elem(), x.fresh("decoded", p.Elem(), st))
			return []Outcome{{st, x.zero(c.resT(0))}}
		})
	}
	intrinsics["encoding/json.Unmarshal"] = unmarshal
	intrinsics["encoding/json.Valid"] = func(c *callCtx) []Outcome {
		x := c.x
		if d := x.jdoc(c.st, c.t(0)); d != nil {
			return c.ret(True)
		}
		seq := x.seqOf(c.st, c.t(0), types.Typ[types.Uint8])
		return c.ret(Not(Or(x.garbage(seq), App("json_trailing", BoolS, seq))))
	}
	// jsonpb: the text of a message is an injective function of the message
	intrinsics["(*github.com/golang/protobuf/jsonpb.Marshaler).MarshalToString"] = func(c *callCtx) []Outcome {
		x, v := c.x, c.t(1)
		x.trusted["jsonpb.Marshaler"] = true
		return c.ret(App("jsonpb", StrS, Sel(v, 0), Sel(v, 1)), x.zero(c.resT(1)))
	}
	groundFacts["bytes_of"] = func(t *Term) []*Term {
		s := t.Args[0]
		l := StrLen(s)
		fs := []*Term{mk("=", BoolS, "", nil, App("str_of_bytes", StrS, sqOf(t, Zero, l), l), s)}
		return fs
	}
}

// garbage: the bytes do not begin with a JSON value.
func (x *Engine) garbage(seq *Term) *Term { return App("json_bad", BoolS, x.bytesToStr(seq, false)) }

// pbDecode models jsonpb.Unmarshal on the given text.
func (x *Engine) pbDecode(c *callCtx, st *State, text *Term, dst *Term) []Outcome {
	if text.Op == "ite" {
		return x.splitBool(st, text.Args[0], func(st *State) []Outcome { return x.pbDecode(c, st, text.Args[1], dst) },
			func(st *State) []Outcome { return x.pbDecode(c, st, text.Args[2], dst) })
	}
	pt := x.tagType(Sel(dst, 0))
	if pt == nil {
		x.fail("jsonpb.Unmarshal into an unknown type")
	}
	p := pt.Underlying().(*types.Pointer)
	tgt := x.unbox(Sel(dst, 1), pt, st)
	if text.Op == "app" && text.Name == "jsonpb" {
		if x.tagType(text.Args[0]) == nil || tkey(x.tagType(text.Args[0])) != tkey(pt) {
			x.fail("jsonpb.Unmarshal of a %s into a %s", text.Args[0].Str(), pt)
		}
		x.store(st, tgt, p.Elem(), x.load(st, text.Args[1], p.Elem()))
		return []Outcome{{st, x.zero(types.Universe.Lookup("error").Type())}}
	}
	bad := Or(App("json_bad", BoolS, text), App("jsonpb_invalid:"+tkey(p.Elem()), BoolS, text))
	return x.splitBool(st, bad, func(st *State) []Outcome {
		x.store(st, tgt, p.Elem(), x.fresh("junk", p.Elem(), st))
		return []Outcome{{st, x.newError(st, App("jsonpb_error", StrS, text), nil)}}
	}, func(st *State) []Outcome {
		x.store(st, tgt, p.Elem(), x.fresh("decoded", p.Elem(), st))
		return []Outcome{{st, x.zero(types.Universe.Lookup("error").Type())}}
	})
}
