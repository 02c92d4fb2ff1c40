package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, Tuple or *mapIter.
type Val interface{}
type Tuple []Val

type mapIter struct {
	key  string // heap key of the visited set
	m    *Term
	mt   *types.Map
	dom0 *Term
	str  *Term // string iteration
	id   int
}

// State is one symbolic machine state.
type State struct {
	heaps map[string]*Term
	pc    []*Term
	pcset map[*Term]bool
	base  *Term
	off   int64
	mods  []*modRec // active loop write recorders (innermost last)
}

type write struct {
	key  string
	ref  *Term
	cond []*Term
}
type modRec struct {
	writes []write
	seen   map[string]bool
	lim    *Term
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), base: s.base, off: s.off, mods: s.mods}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.pc = append(make([]*Term, 0, len(s.pc)+4), s.pc...)
	n.pcset = make(map[*Term]bool, len(s.pcset)+4)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	return n
}

func (s *State) assume(t *Term) {
	for _, c := range flat("and", []*Term{t}, nil) {
		if c == True || s.pcset[c] {
			continue
		}
		s.pcset[c] = true
		s.pc = append(s.pc, c)
	}
}
func (s *State) dead() bool { return s.pcset[False] }

func (s *State) alloc() *Term {
	r := Add(s.base, Int(s.off))
	s.off++
	return r
}
func (s *State) lim() *Term { return Add(s.base, Int(s.off)) }

var heapSort = map[string]*Sort{}

var readLog map[string]bool

func (s *State) heap(key string, so *Sort) *Term {
	if readLog != nil {
		readLog[key] = true
	}
	if o, ok := heapSort[key]; ok {
		if o != so {
			panic(unsupported{"heap " + key + " used at sorts " + o.Name + " and " + so.Name})
		}
	} else {
		heapSort[key] = so
	}
	if h, ok := s.heaps[key]; ok {
		return h
	}
	h := Const("H0:"+key, so)
	s.heaps[key] = h
	if _, ok := heapLim[h]; !ok {
		b := s.base
		for allocBases[b].parent != nil {
			b = allocBases[b].parent
		}
		heapLim[h] = refBound{b, 0}
	}
	return h
}

func (s *State) setHeap(key string, h *Term) { s.heaps[key] = h }

func (s *State) recordWrite(key string, ref *Term, cond ...*Term) {
	for _, m := range s.mods {
		k := fmt.Sprintf("%s@%d", key, ref.id)
		if m.seen[k] {
			continue
		}
		m.seen[k] = true
		c := append(append([]*Term{}, s.pc...), cond...)
		m.writes = append(m.writes, write{key, ref, c})
	}
}

type unsupported struct{ msg string }

func (x *Engine) fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- types to sorts ----------

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

var typeKeyMemo = map[types.Type]string{}

var aliasRE = regexp.MustCompile(`(^|[\[\]*( ,])(byte|rune|any)($|[\]), ;}])`)

func tkey(t types.Type) string {
	if k, ok := typeKeyMemo[t]; ok {
		return k
	}
	k := typeKey(unnamedParams(t))
	k = strings.ReplaceAll(k, "code.cloudfoundry.org/", "")
	for i := 0; i < 2; i++ {
		k = aliasRE.ReplaceAllStringFunc(k, func(m string) string {
			p := aliasRE.FindStringSubmatch(m)
			return p[1] + map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[p[2]] + p[3]
		})
	}
	k = strings.NewReplacer("\\", "", "|", "", "\"", "").Replace(k)
	typeKeyMemo[t] = k
	return k
}

// unnamedParams drops the names of parameters, which do not distinguish types.
func unnamedParams(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Signature:
		tup := func(p *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < p.Len(); i++ {
				vs = append(vs, types.NewParam(token.NoPos, nil, "", unnamedParams(p.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	case *types.Pointer:
		if e := unnamedParams(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unnamedParams(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Map:
		k, e := unnamedParams(u.Key()), unnamedParams(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}

var opaqueStructs = map[string]*Sort{
	"time.Time": IntS, "sync.Mutex": IntS, "sync.RWMutex": IntS, "sync.WaitGroup": IntS, "sync.Once": IntS,
	"sync/atomic.Int64": IntS, "sync/atomic.Int32": IntS, "sync/atomic.Uint64": IntS, "sync/atomic.Uint32": IntS, "sync/atomic.Bool": BoolS,
	"math/big.Int": IntS,
	"sync.Pool":    IntS,
	"sync.Map":     IntS, // the map inside (a reference, 0 while nothing was stored)
}

const specPath = "verif.local/spec"

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func specType(t types.Type) (string, []types.Type) {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != specPath {
		return "", nil
	}
	var as []types.Type
	for i := 0; i < n.TypeArgs().Len(); i++ {
		as = append(as, n.TypeArgs().At(i))
	}
	return n.Obj().Name(), as
}

var sortMemo = map[types.Type]*Sort{}
var structFieldTypes = map[*Sort][]types.Type{}

func sortOf(t types.Type) *Sort {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortMemo[t] = s
	return s
}

func sortOf1(t types.Type) *Sort {
	t = types.Unalias(t)
	if n, as := specType(t); n != "" {
		switch n {
		case "Seq":
			return SeqSort(sortOf(as[0]))
		case "Map":
			return MapSort(sortOf(as[0]), sortOf(as[1]))
		case "Int", "JSON":
			return IntS
		case "Visited":
			return ArrS(sortOf(as[0]), BoolS)
		}
	}
	if n := namedOf(t); n != nil {
		if s, ok := opaqueStructs[tkey(n)]; ok {
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsFloat != 0:
			return RealS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Kind() == types.UnsafePointer:
			return IntS
		case u.Kind() == types.UntypedNil:
			return IntS
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return IntS
	case *types.Slice:
		return SliceS
	case *types.Interface:
		return IfaceS
	case *types.Array:
		return ArrS(IntS, sortOf(u.Elem()))
	case *types.Struct:
		name := "S_" + mangle(tkey(t))
		var sels []string
		var ss []*Sort
		var fts []types.Type
		for i := 0; i < u.NumFields(); i++ {
			sels = append(sels, fmt.Sprintf("%s.%d.%s", name, i, mangle(u.Field(i).Name())))
			ss = append(ss, sortOf(u.Field(i).Type()))
			fts = append(fts, u.Field(i).Type())
		}
		s := mkSort(&Sort{Name: name, Kind: 'd', Ctor: "mk" + name, Sels: sels, SelS: ss})
		structFieldTypes[s] = fts
		return s
	case *types.Tuple:
	}
	panic(unsupported{"no sort for type " + t.String()})
}

// intRange returns bounds of a machine integer type.
func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}
func intLimits(bits uint, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
}

var timeZero = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))

func isTime(t types.Type) bool { n := namedOf(t); return n != nil && tkey(n) == "time.Time" }

// typed attaches the facts a well-typed value has to a term.
func (x *Engine) typed(t *Term, ty types.Type, st *State) *Term {
	if t == nil {
		return t
	}
	if t.Op == "int" || isBoolLit(t) {
		return t
	}
	if t.Op == "ite" && t.S != BoolS {
		// a read from a framed heap: every heap involved is well typed
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "ite" {
				walk(t.Args[1])
				walk(t.Args[2])
			} else if t.Op == "select" {
				x.typed(t, ty, st)
			}
		}
		walk(t)
		return t
	}
	if t.Op == "ite" || t.Op == "ctor" || t.Op == "+" || t.Op == "*c" {
		return t
	}
	if n, _ := specType(ty); n != "" {
		return t
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if bits, sg, ok := intInfo(u); ok {
			lo, hi := intLimits(bits, sg)
			setRange(t, lo, hi)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if isAddr(t) {
			return t
		}
		if st != nil {
			x.boundRef(t, st)
		}
	case *types.Slice:
		if st != nil {
			b := Sel(t, 0)
			if b.Op == "sel" {
				x.boundRef(b, st)
			}
		}
	}
	return t
}

func (x *Engine) boundRef(t *Term, st *State) {
	if t.S == IntS && t.Op == "select" {
		markRefHeap(t, 0)
	}
	lim := refBound{st.base, st.off}
	if l, ok := heapLim[heapRoot(t)]; ok && refCmp(Add(l.base, Int(l.off)), st.lim()) == -1 {
		lim = l
	}
	if t.bound {
		if _, ok := boundRefBounds[t]; !ok {
			boundRefBounds[t] = Add(lim.base, Int(lim.off))
		}
		return
	}
	setRefBound(t, lim.base, lim.off)
}

// heapLim: a heap as a whole was there in a state with this allocation limit, so every
// reference stored in it is below the limit.
var heapLim = map[*Term]refBound{}

// noteHeaps records the limit for the heaps of a state.
func (st *State) noteHeaps() {
	for _, h := range st.heaps {
		for h.Op == "framed" || h.Op == "store" {
			if h.Op == "store" {
				h = h.Args[0]
			} else {
				h = h.Args[1] // the older part has a limit of its own
			}
		}
		if old, ok := heapLim[h]; !ok || refCmp(st.lim(), Add(old.base, Int(old.off))) == -1 {
			heapLim[h] = refBound{st.base, st.off}
		}
	}
}

// refHeap: heaps (and arrays) whose cells are references.
var refHeap = map[*Term]bool{}

func markRefHeap(t *Term, depth int) {
	if refHeap[t] || depth > 40 {
		return
	}
	switch {
	case t.Op == "select":
		markRefHeap(t.Args[0], depth+1)
	case t.Op == "store":
		markRefHeap(t.Args[0], depth+1)
		if t.Args[2].S.Kind == 'a' {
			markRefHeap(t.Args[2], depth+1)
		}
	case t.Op == "ite":
		markRefHeap(t.Args[1], depth+1)
		markRefHeap(t.Args[2], depth+1)
	case t.Op == "framed" || t.Op == "app" && t.Name == "sq_of":
		markRefHeap(t.Args[0], depth+1)
		if t.Op == "framed" {
			markRefHeap(t.Args[1], depth+1)
		}
	case t.Op == "const" && t.S.Kind == 'a':
		if _, ok := heapLim[t]; ok {
			refHeap[t] = true
		}
	default:
		return
	}
}

// heapRoot: the heap a read goes to.
func heapRoot(t *Term) *Term {
	for t.Op == "select" || t.Op == "sel" || t.Op == "app" && t.Name == "sq_of" {
		t = t.Args[0]
	}
	return t
}

func (x *Engine) zero(t types.Type) *Term {
	t = types.Unalias(t)
	if n, as := specType(t); n != "" {
		switch n {
		case "Seq":
			return SeqEmpty(sortOf(as[0]))
		case "Map":
			k, v := sortOf(as[0]), sortOf(as[1])
			return Ctor(MapSort(k, v), DefArr(k, BoolS), DefArr(k, v))
		case "Int":
			return Zero
		case "JSON":
			return jAbsent()
		}
	}
	if isTime(t) {
		return IntB(timeZero)
	}
	s := sortOf(t)
	switch u := t.Underlying().(type) {
	case *types.Array:
		// constant array value
		return ConstArr(s, x.zero(u.Elem()))
	case *types.Struct:
		if s.Kind == 'd' {
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, x.zero(u.Field(i).Type()))
			}
			return Ctor(s, as...)
		}
	}
	switch s {
	case BoolS:
		return False
	case IntS:
		return Zero
	case RealS:
		return RealR(new(big.Rat))
	case StrS:
		return StrC("")
	case SliceS:
		return Ctor(SliceS, Zero, Zero, Zero, Zero)
	case IfaceS:
		return Ctor(IfaceS, Zero, Zero)
	}
	panic(unsupported{"zero " + t.String()})
}

// fresh builds an arbitrary well-typed value.
func (x *Engine) fresh(name string, t types.Type, st *State) *Term {
	s := sortOf(t)
	v := Fresh(name, s)
	if s == SliceS {
		v = Ctor(SliceS, Fresh(name+".base", IntS), Fresh(name+".off", IntS), Fresh(name+".len", IntS), Fresh(name+".cap", IntS))
		b, o, l, c := v.Args[0], v.Args[1], v.Args[2], v.Args[3]
		for _, q := range []*Term{o, l, c} {
			setRange(q, big.NewInt(0), new(big.Int).Lsh(bigOne, 62))
		}
		setRange(b, big.NewInt(0), nil)
		setRefBound(b, st.base, st.off)
		st.assume(Le(l, c))
		st.assume(Or(Not(Eq(b, Zero)), And(Eq(c, Zero), Eq(o, Zero))))
		return v
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		setRange(v, big.NewInt(0), nil)
	}
	if s == IfaceS {
		tag := Sel(v, 0)
		setRange(tag, big.NewInt(0), nil)
		st.assume(Or(Not(Eq(tag, Zero)), Eq(Sel(v, 1), Zero)))
	}
	return x.typed(v, t, st)
}

// ---------- addresses ----------

type addrInfo struct {
	kind  byte // 'F' field of struct object, 'E' slice/array element, 'C' unused
	key   string
	hs    *Sort
	rootT types.Type // type of the stored root value
	steps []addrStep
	nidx  int
}
type addrStep struct {
	field int // >=0 field; -1 array index (argument)
	t     types.Type
}

var addrTab = map[string]*addrInfo{}

func isAddr(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "addr:") }

func regAddr(a *addrInfo) string {
	n := "addr:" + a.key
	for _, s := range a.steps {
		if s.field >= 0 {
			n += fmt.Sprintf("/%d", s.field)
		} else {
			n += "/i"
		}
	}
	if _, ok := addrTab[n]; !ok {
		addrTab[n] = a
	}
	return n
}

func isStructObj(t types.Type) bool {
	if n, _ := specType(t); n != "" {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	return sortOf(t).Kind == 'd'
}

func fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	k := "F:" + tkey(t) + "." + st.Field(i).Name()
	if _, ok := keyType[k]; !ok {
		keyType[k] = st.Field(i).Type()
	}
	return k
}

// keyType is the Go type of the values in a heap of cells or fields.
var keyType = map[string]types.Type{}

func cellKey(t types.Type) string {
	k := "C:" + tkey(t)
	if _, ok := keyType[k]; !ok {
		keyType[k] = t
	}
	return k
}

func (x *Engine) fieldAddr(p *Term, structT types.Type, i int) *Term {
	if p.Op == "ite" {
		return iteMap(p, func(p *Term) *Term { return x.fieldAddr(p, structT, i) })
	}
	ft := structT.Underlying().(*types.Struct).Field(i).Type()
	if isAddr(p) {
		a := addrTab[p.Name]
		na := *a
		na.steps = append(append([]addrStep{}, a.steps...), addrStep{i, structT})
		return App(regAddr(&na), IntS, p.Args...)
	}
	if !isStructObj(structT) {
		x.fail("field address of opaque struct %s", structT)
	}
	a := &addrInfo{kind: 'F', key: fieldKey(structT, i), hs: ArrS(IntS, sortOf(ft)), rootT: ft}
	return App(regAddr(a), IntS, p)
}

func elemKey(t types.Type) string { return "E:" + tkey(t) }

func (x *Engine) elemAddr(base, idx *Term, elem types.Type) *Term {
	if base.Op == "ite" && isAddrish(base) {
		return iteMap(base, func(base *Term) *Term { return x.elemAddr(base, idx, elem) })
	}
	if isAddr(base) { // element of an array embedded in an object
		a := addrTab[base.Name]
		na := *a
		na.steps = append(append([]addrStep{}, a.steps...), addrStep{-1, elem})
		return App(regAddr(&na), IntS, append(append([]*Term{}, base.Args...), idx)...)
	}
	a := &addrInfo{kind: 'E', key: elemKey(elem), hs: ArrS(IntS, ArrS(IntS, sortOf(elem))), rootT: elem}
	return App(regAddr(a), IntS, base, idx)
}
func isAddrish(t *Term) bool {
	if t.Op == "ite" {
		return isAddrish(t.Args[1]) || isAddrish(t.Args[2])
	}
	return isAddr(t)
}

func getPath(v *Term, steps []addrStep, idx []*Term) *Term {
	for _, s := range steps {
		if s.field >= 0 {
			v = Sel(v, s.field)
		} else {
			v = Select(v, idx[0])
			idx = idx[1:]
		}
	}
	return v
}
func setPath(v *Term, steps []addrStep, idx []*Term, nv *Term) *Term {
	if len(steps) == 0 {
		return nv
	}
	s := steps[0]
	if s.field >= 0 {
		return Upd(v, s.field, setPath(Sel(v, s.field), steps[1:], idx, nv))
	}
	return Store(v, idx[0], setPath(Select(v, idx[0]), steps[1:], idx[1:], nv))
}

// iteMap applies f to every leaf of an ite DAG, each once.
func iteMap(p *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var get func(p *Term) *Term
	get = func(p *Term) *Term {
		r, ok := memo[p]
		if !ok {
			if p.Op == "ite" {
				r = Ite(p.Args[0], get(p.Args[1]), get(p.Args[2]))
			} else {
				r = f(p)
			}
			memo[p] = r
		}
		return r
	}
	return get(p)
}

func (x *Engine) load(st *State, p *Term, t types.Type) *Term {
	if p.Op == "ite" {
		return iteMap(p, func(p *Term) *Term { return x.load(st, p, t) })
	}
	if isAddr(p) {
		a := addrTab[p.Name]
		h := st.heap(a.key, a.hs)
		var v *Term
		n := 1
		if a.kind == 'E' {
			v = Select(Select(h, p.Args[0]), p.Args[1])
			n = 2
		} else {
			v = Select(h, p.Args[0])
		}
		x.typedDeep(v, a.rootT, st)
		v = getPath(v, a.steps, p.Args[n:])
		return x.typed(v, t, st)
	}
	if isStructObj(t) {
		u := t.Underlying().(*types.Struct)
		as := make([]*Term, u.NumFields())
		for i := range as {
			ft := u.Field(i).Type()
			as[i] = x.typed(Select(st.heap(fieldKey(t, i), ArrS(IntS, sortOf(ft))), p), ft, st)
		}
		return Ctor(sortOf(t), as...)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return Select(st.heap(elemKey(a.Elem()), ArrS(IntS, ArrS(IntS, sortOf(a.Elem())))), p)
	}
	v := Select(st.heap(cellKey(t), ArrS(IntS, sortOf(t))), p)
	return x.typed(v, t, st)
}

// typedDeep types the immediate fields of struct values lazily used by getPath.
func (x *Engine) typedDeep(v *Term, t types.Type, st *State) {
	if v.S == IntS || v.S == SliceS {
		x.typed(v, t, st)
	}
}

func (x *Engine) store(st *State, p *Term, t types.Type, v *Term) {
	if p.Op == "ite" {
		// conditional store to both
		a, b, c := p.Args[1], p.Args[2], p.Args[0]
		if a.isInt() || b.isInt() {
			// one side nil: excluded by the nil check already recorded
			if a == Zero {
				x.store(st, b, t, v)
				return
			}
			if b == Zero {
				x.store(st, a, t, v)
				return
			}
		}
		x.store(st, a, t, Ite(c, v, x.load(st, a, t)))
		x.store(st, b, t, Ite(c, x.load(st, b, t), v))
		return
	}
	if isAddr(p) {
		a := addrTab[p.Name]
		h := st.heap(a.key, a.hs)
		st.recordWrite(a.key, p.Args[0])
		if a.kind == 'E' {
			inner := Select(h, p.Args[0])
			nv := v
			if len(a.steps) > 0 {
				nv = setPath(Select(inner, p.Args[1]), a.steps, p.Args[2:], v)
			}
			st.setHeap(a.key, Store(h, p.Args[0], Store(inner, p.Args[1], nv)))
		} else {
			nv := v
			if len(a.steps) > 0 {
				nv = setPath(Select(h, p.Args[0]), a.steps, p.Args[1:], v)
			}
			st.setHeap(a.key, Store(h, p.Args[0], nv))
		}
		return
	}
	if isStructObj(t) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			k := fieldKey(t, i)
			h := st.heap(k, ArrS(IntS, sortOf(u.Field(i).Type())))
			st.recordWrite(k, p)
			st.setHeap(k, Store(h, p, Sel(v, i)))
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		k := elemKey(a.Elem())
		h := st.heap(k, ArrS(IntS, ArrS(IntS, sortOf(a.Elem()))))
		st.recordWrite(k, p)
		st.setHeap(k, Store(h, p, v))
		return
	}
	k := cellKey(t)
	h := st.heap(k, ArrS(IntS, sortOf(t)))
	st.recordWrite(k, p)
	st.setHeap(k, Store(h, p, v))
}

// ---------- slices ----------

func sliceParts(s *Term) (b, o, l, c *Term) { return Sel(s, 0), Sel(s, 1), Sel(s, 2), Sel(s, 3) }
func mkSlice(b, o, l, c *Term) *Term        { return Ctor(SliceS, b, o, l, c) }

func (x *Engine) elemHeap(st *State, elem types.Type) (string, *Term) {
	k := elemKey(elem)
	return k, st.heap(k, ArrS(IntS, ArrS(IntS, sortOf(elem))))
}

func (x *Engine) sliceAt(st *State, s, i *Term, elem types.Type) *Term {
	if s.Op == "ite" {
		return iteMap(s, func(s *Term) *Term { return x.sliceAt(st, s, i, elem) })
	}
	b, o, _, _ := sliceParts(s)
	_, h := x.elemHeap(st, elem)
	return x.typed(Select(Select(h, b), Add(o, i)), elem, st)
}

// seqOf is the canonical sequence value of a slice.
func (x *Engine) seqOf(st *State, s *Term, elem types.Type) *Term {
	es := sortOf(elem)
	_, h := x.elemHeap(st, elem)
	if s.Op == "ite" {
		return iteMap(s, func(s *Term) *Term { return x.seqOf(st, s, elem) })
	}
	b, o, l, _ := sliceParts(s)
	if l == Zero {
		return SeqEmpty(es)
	}
	return Ctor(SeqSort(es), l, sqOf(Select(h, b), o, l))
}

// sliceFromSeq allocates a new slice holding the sequence.
func (x *Engine) sliceFromSeq(st *State, seq *Term, elem types.Type) *Term {
	r := st.alloc()
	k, h := x.elemHeap(st, elem)
	st.recordWrite(k, r)
	st.setHeap(k, Store(h, r, SeqArr(seq)))
	return mkSlice(r, Zero, SeqLen(seq), SeqLen(seq))
}

// sizeClasses are the small allocation sizes of the runtime.
var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512}

// grownCap is the capacity the runtime gives a small slice of known length and capacity that has to grow.
func grownCap(elem types.Type, need, old *Term) (*Term, bool) {
	if !need.isInt() || !old.isInt() || !need.I.IsInt64() || need.I.Int64() > 512 {
		return nil, false
	}
	size := types.SizesFor("gc", "amd64").Sizeof(elem)
	if size == 0 {
		return need, true
	}
	n := 2 * old.I.Int64()
	if need.I.Int64() > n {
		n = need.I.Int64()
	}
	for _, s := range sizeClasses {
		if n*size <= s {
			return Int(s / size), true
		}
	}
	return nil, false
}

func (x *Engine) appendSeq(st *State, s *Term, seq *Term, elem types.Type) *Term {
	n := SeqLen(seq)
	if n == Zero {
		return s
	}
	b, o, l, c := sliceParts(s)
	k, h := x.elemHeap(st, elem)
	nl := Add(l, n)
	fits := Le(nl, c)
	inner := Select(h, b)
	put := func(arr, at *Term) *Term {
		if n.isInt() && n.I.IsInt64() && n.I.Int64() <= 16 {
			for j := int64(0); j < n.I.Int64(); j++ {
				arr = Store(arr, Add(at, Int(j)), SeqAt(seq, Int(j)))
			}
			return arr
		}
		return nil
	}
	cp := sqOf(inner, o, l)
	// content of the reallocated backing array
	var c2 *Term
	if r := put(cp, l); r != nil {
		c2 = r
	} else {
		c2 = SeqArr(SeqCat(Ctor(SeqSort(sortOf(elem)), l, cp), seq))
	}
	res := func(fit bool) *Term {
		if fit {
			var c1 *Term
			if r := put(inner, Add(o, l)); r != nil {
				c1 = r
			} else {
				c1 = App("arr_put", inner.S, inner, Add(o, l), SeqArr(seq), n)
			}
			st.recordWrite(k, b, fits)
			st.setHeap(k, Store(st.heaps[k], b, Ite(fits, c1, Select(st.heaps[k], b))))
			return mkSlice(b, o, nl, c)
		}
		r := st.alloc()
		st.recordWrite(k, r)
		st.setHeap(k, Store(st.heaps[k], r, c2))
		if n, ok := grownCap(elem, nl, c); ok {
			x.note("a slice of literally known length that has to grow grows to the runtime's size class")
			return mkSlice(r, Zero, nl, n)
		}
		nc := Fresh("cap", IntS)
		setRange(nc, big.NewInt(0), new(big.Int).Lsh(bigOne, 62))
		st.assume(Le(nl, nc))
		return mkSlice(r, Zero, nl, nc)
	}
	switch fits {
	case True:
		return res(true)
	case False:
		return res(false)
	}
	r1 := res(false)
	r2 := res(true)
	return Ite(fits, r2, r1)
}

// ---------- maps ----------

func (x *Engine) mapKeys(t *types.Map) (kd, kv, kl string, ds, vs, ls *Sort) {
	n := tkey(t.Key()) + ":" + tkey(t.Elem())
	k, v := sortOf(t.Key()), sortOf(t.Elem())
	return "MD:" + n, "MV:" + n, "ML:" + n, ArrS(IntS, ArrS(k, BoolS)), ArrS(IntS, ArrS(k, v)), ArrS(IntS, IntS)
}
func (x *Engine) mapDom(st *State, m *Term, t *types.Map) *Term {
	if m.Op == "ite" {
		return iteMap(m, func(m *Term) *Term { return x.mapDom(st, m, t) })
	}
	if m == Zero {
		return DefArr(sortOf(t.Key()), BoolS)
	}
	kd, _, _, ds, _, _ := x.mapKeys(t)
	return Select(st.heap(kd, ds), m)
}
func (x *Engine) mapVal(st *State, m *Term, t *types.Map) *Term {
	if m.Op == "ite" {
		return iteMap(m, func(m *Term) *Term { return x.mapVal(st, m, t) })
	}
	if m == Zero {
		return DefArr(sortOf(t.Key()), sortOf(t.Elem()))
	}
	_, kv, _, _, vs, _ := x.mapKeys(t)
	return Select(st.heap(kv, vs), m)
}
func (x *Engine) mapLen(st *State, m *Term, t *types.Map) *Term {
	if m.Op == "ite" {
		return iteMap(m, func(m *Term) *Term { return x.mapLen(st, m, t) })
	}
	if m == Zero {
		return Zero
	}
	_, _, kl, _, _, ls := x.mapKeys(t)
	r := Select(st.heap(kl, ls), m)
	if !r.isInt() {
		setRange(r, big.NewInt(0), new(big.Int).Lsh(bigOne, 62))
	}
	return r
}
func (x *Engine) mapHas(st *State, m, k *Term, t *types.Map) *Term {
	h := Select(x.mapDom(st, m, t), k)
	if m.isInt() || m.Op == "ite" {
		return h
	}
	return And(Not(Eq(m, Zero)), h)
}
func (x *Engine) mapGet(st *State, m, k *Term, t *types.Map) *Term {
	v := x.typed(Select(x.mapVal(st, m, t), k), t.Elem(), st)
	return Ite(x.mapHas(st, m, k, t), v, x.zero(t.Elem()))
}
func (x *Engine) mapSet(st *State, m, k, v *Term, t *types.Map) {
	if m.Op == "ite" {
		a, b, c := m.Args[1], m.Args[2], m.Args[0]
		s1, s2 := st.clone(), st.clone()
		x.mapSet(s1, a, k, v, t)
		x.mapSet(s2, b, k, v, t)
		kd, kv, kl, _, _, _ := x.mapKeys(t)
		for _, q := range []string{kd, kv, kl} {
			st.setHeap(q, Ite(c, s1.heaps[q], s2.heaps[q]))
		}
		return
	}
	kd, kv, kl, ds, vs, ls := x.mapKeys(t)
	hd, hv, hl := st.heap(kd, ds), st.heap(kv, vs), st.heap(kl, ls)
	had := Select(Select(hd, m), k)
	n := x.mapLen(st, m, t)
	for _, q := range []string{kd, kv, kl} {
		st.recordWrite(q, m)
	}
	st.setHeap(kd, Store(hd, m, Store(Select(hd, m), k, True)))
	st.setHeap(kv, Store(hv, m, Store(Select(hv, m), k, v)))
	st.setHeap(kl, Store(hl, m, Ite(had, n, Add(n, One))))
}
func (x *Engine) mapDelete(st *State, m, k *Term, t *types.Map) {
	if m == Zero {
		return
	}
	if m.Op == "ite" {
		a, b, c := m.Args[1], m.Args[2], m.Args[0]
		s1, s2 := st.clone(), st.clone()
		x.mapDelete(s1, a, k, t)
		x.mapDelete(s2, b, k, t)
		kd, kv, kl, ds, vs, ls := x.mapKeys(t)
		for i, q := range []string{kd, kv, kl} {
			so := []*Sort{ds, vs, ls}[i]
			st.setHeap(q, Ite(c, s1.heap(q, so), s2.heap(q, so)))
		}
		return
	}
	kd, kv, kl, ds, vs, ls := x.mapKeys(t)
	hd, hv, hl := st.heap(kd, ds), st.heap(kv, vs), st.heap(kl, ls)
	had := Select(Select(hd, m), k)
	n := x.mapLen(st, m, t)
	for _, q := range []string{kd, kv, kl} {
		st.recordWrite(q, m)
	}
	st.setHeap(kd, Store(hd, m, Store(Select(hd, m), k, False)))
	st.setHeap(kv, Store(hv, m, Store(Select(hv, m), k, canonV(sortOf(t.Elem())))))
	st.setHeap(kl, Store(hl, m, Ite(had, Sub(n, One), n)))
}
func canonV(s *Sort) *Term {
	if s == BoolS {
		return False
	}
	return Dflt(s)
}
func (x *Engine) newMap(st *State, t *types.Map) *Term {
	r := st.alloc()
	kd, kv, kl, ds, vs, ls := x.mapKeys(t)
	for _, q := range []string{kd, kv, kl} {
		st.recordWrite(q, r)
	}
	st.setHeap(kd, Store(st.heap(kd, ds), r, DefArr(sortOf(t.Key()), BoolS)))
	st.setHeap(kv, Store(st.heap(kv, vs), r, DefArr(sortOf(t.Key()), sortOf(t.Elem()))))
	st.setHeap(kl, Store(st.heap(kl, ls), r, Zero))
	return r
}

// ---------- interfaces ----------

type typeTab struct {
	ids   map[string]int64
	types []types.Type
}

func (x *Engine) tagOf(t types.Type) *Term {
	k := typeKey(unnamedParams(t))
	if id, ok := x.tags.ids[k]; ok {
		return Int(id)
	}
	id := int64(len(x.tags.types) + 1)
	x.tags.ids[k] = id
	x.tags.types = append(x.tags.types, t)
	return Int(id)
}
func (x *Engine) tagType(t *Term) types.Type {
	if t.isInt() && t.I.IsInt64() {
		i := t.I.Int64()
		if i >= 1 && int(i) <= len(x.tags.types) {
			return x.tags.types[i-1]
		}
	}
	return nil
}
func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}
func (x *Engine) box(v *Term, t types.Type) *Term {
	if isPtrLike(t) {
		return v
	}
	if v.Op == "app" && v.Name == "unbox:"+v.S.Name && v.Args[0].S == IntS {
		return v.Args[0]
	}
	return App("box:"+v.S.Name, IntS, v)
}
func (x *Engine) unbox(p *Term, t types.Type, st *State) *Term {
	if isPtrLike(t) {
		return x.typed(p, t, st)
	}
	s := sortOf(t)
	if p.Op == "app" && p.Name == "box:"+s.Name {
		return p.Args[0]
	}
	if p.Op == "ite" {
		return iteMap(p, func(p *Term) *Term { return x.unbox(p, t, st) })
	}
	return x.typed(App("unbox:"+s.Name, s, p), t, st)
}
func (x *Engine) mkIface(v *Term, t types.Type) *Term {
	return Ctor(IfaceS, x.tagOf(t), x.box(v, t))
}

// ---------- functions ----------

type closure struct {
	fn   *ssa.Function
	bind []Val
	// engine-level native function
	native func(x *Engine, st *State, args []Val) []Outcome
	id     *Term
	name   string
	// bound receiver for method values on interfaces
	recv   *Term
	method *types.Func
}

func (x *Engine) newClosure(c *closure) *Term {
	x.nclos++
	c.id = Int(-1000000 - int64(x.nclos))
	x.clos[c.id] = c
	return c.id
}
func (x *Engine) fnVal(fn *ssa.Function) *Term {
	if t, ok := x.fnIDs[fn]; ok {
		return t
	}
	t := x.newClosure(&closure{fn: fn})
	x.fnIDs[fn] = t
	return t
}

// Outcome is one way a call can end.
type Outcome struct {
	st  *State
	res Val
	// panicked paths are dropped after recording an obligation
}
