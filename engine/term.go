package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort is an SMT sort.
type Sort struct {
	Name  string // SMT-LIB text
	Kind  byte   // 'i' int, 'b' bool, 'r' real, 'u' uninterpreted, 'a' array, 'd' datatype
	K, V  *Sort  // array
	Ctor  string // datatype
	Sels  []string
	SelS  []*Sort
	Elem  *Sort // for Seq datatypes
	order int
}

var (
	sortTab  = map[string]*Sort{}
	sortList []*Sort
)

func mkSort(s *Sort) *Sort {
	if x, ok := sortTab[s.Name]; ok {
		return x
	}
	s.order = len(sortList)
	sortTab[s.Name] = s
	sortList = append(sortList, s)
	return s
}

var (
	IntS   = mkSort(&Sort{Name: "Int", Kind: 'i'})
	BoolS  = mkSort(&Sort{Name: "Bool", Kind: 'b'})
	RealS  = mkSort(&Sort{Name: "Real", Kind: 'r'})
	StrS   = mkSort(&Sort{Name: "Str", Kind: 'u'})
	SliceS = mkSort(&Sort{Name: "Slice", Kind: 'd', Ctor: "mkslice", Sels: []string{"s_base", "s_off", "s_len", "s_cap"}, SelS: []*Sort{IntS, IntS, IntS, IntS}})
	IfaceS = mkSort(&Sort{Name: "Iface", Kind: 'd', Ctor: "mkiface", Sels: []string{"i_tag", "i_pay"}, SelS: []*Sort{IntS, IntS}})
)

func ArrS(k, v *Sort) *Sort {
	return mkSort(&Sort{Name: "(Array " + k.Name + " " + v.Name + ")", Kind: 'a', K: k, V: v})
}
func USort(name string) *Sort { return mkSort(&Sort{Name: name, Kind: 'u'}) }

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("$p")
		case c == '[':
			b.WriteString("$l")
		case c == ']':
			b.WriteString("$r")
		default:
			b.WriteString("$")
		}
	}
	return b.String()
}

func SeqSort(e *Sort) *Sort {
	n := "Seq_" + mangle(e.Name)
	return mkSort(&Sort{Name: n, Kind: 'd', Ctor: "mk" + n, Sels: []string{"len" + n, "arr" + n}, SelS: []*Sort{IntS, ArrS(IntS, e)}, Elem: e})
}
func MapSort(k, v *Sort) *Sort {
	n := "Map_" + mangle(k.Name) + "_" + mangle(v.Name)
	return mkSort(&Sort{Name: n, Kind: 'd', Ctor: "mk" + n, Sels: []string{"dom" + n, "val" + n}, SelS: []*Sort{ArrS(k, BoolS), ArrS(k, v)}, Elem: v})
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string
	S    *Sort
	Args []*Term
	Name string
	I    *big.Int
	id   int
	// free bound variables occur (so no ground facts may be instantiated)
	bound bool
	// set of pattern terms for quantifiers
	Pat []*Term
}

var (
	tmu     sync.Mutex
	termTab = map[string]*Term{}
	termN   int
)

func mk(op string, s *Sort, name string, i *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	b.WriteByte('|')
	b.WriteString(name)
	if i != nil {
		b.WriteByte('#')
		b.WriteString(i.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	tmu.Lock()
	defer tmu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{Op: op, S: s, Args: args, Name: name, I: i, id: termN}
	if op == "bvar" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

func Const(name string, s *Sort) *Term { return mk("const", s, name, nil) }
func IntB(i *big.Int) *Term            { return mk("int", IntS, "", i) }
func Int(i int64) *Term                { return IntB(big.NewInt(i)) }

var (
	True  = mk("true", BoolS, "", nil)
	False = mk("false", BoolS, "", nil)
	Zero  = Int(0)
	One   = Int(1)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func RealR(r *big.Rat) *Term { return mk("real", RealS, r.String(), nil) }

var freshN int

func Fresh(prefix string, s *Sort) *Term {
	freshN++
	return Const(fmt.Sprintf("%s!%d", mangle(prefix), freshN), s)
}
func BVar(prefix string, s *Sort) *Term {
	freshN++
	return mk("bvar", s, fmt.Sprintf("%s?%d", mangle(prefix), freshN), nil)
}

// App is an uninterpreted function application.
func App(name string, s *Sort, args ...*Term) *Term { return mk("app", s, name, nil, args...) }

func (t *Term) isInt() bool { return t.Op == "int" }

// ---------- boolean ----------

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", BoolS, "", nil, a)
}

func flat(op string, ts []*Term, out []*Term) []*Term {
	for _, t := range ts {
		if t.Op == op {
			out = flat(op, t.Args, out)
		} else {
			out = append(out, t)
		}
	}
	return out
}

func And(ts ...*Term) *Term {
	fs := flat("and", ts, nil)
	seen := map[int]bool{}
	var out []*Term
	for _, t := range fs {
		if t == True || seen[t.id] {
			continue
		}
		if t == False || seen[Not(t).id] {
			return False
		}
		seen[t.id] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", BoolS, "", nil, out...)
}

func Or(ts ...*Term) *Term {
	fs := flat("or", ts, nil)
	seen := map[int]bool{}
	var out []*Term
	for _, t := range fs {
		if t == False || seen[t.id] {
			continue
		}
		if t == True || seen[Not(t).id] {
			return True
		}
		seen[t.id] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", BoolS, "", nil, out...)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.S == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.S != b.S {
		panic("ite sorts " + a.S.Name + " vs " + b.S.Name)
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", a.S, "", nil, c, a, b)
}

// ---------- linear integer arithmetic ----------

type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func toLin(t *Term, m *big.Int, l *lin) {
	switch t.Op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(t.I, m))
	case "+":
		for _, a := range t.Args {
			toLin(a, m, l)
		}
	case "*c":
		toLin(t.Args[0], new(big.Int).Mul(m, t.I), l)
	default:
		if o, ok := l.c[t]; ok {
			o.Add(o, m)
			if o.Sign() == 0 {
				delete(l.c, t)
			}
		} else {
			l.c[t] = new(big.Int).Set(m)
		}
	}
}

func newLin() *lin { return &lin{map[*Term]*big.Int{}, new(big.Int)} }
func fromLin(l *lin) *Term {
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		c := l.c[t]
		if c.IsInt64() && c.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*c", IntS, "", c, t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, IntB(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", IntS, "", nil, out...)
}

var bigOne = big.NewInt(1)
var bigNeg = big.NewInt(-1)

func Add(a, b *Term) *Term {
	if a.S == RealS {
		return rbin("+", a, b)
	}
	l := newLin()
	toLin(a, bigOne, l)
	toLin(b, bigOne, l)
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	if a.S == RealS {
		return rbin("-", a, b)
	}
	l := newLin()
	toLin(a, bigOne, l)
	toLin(b, bigNeg, l)
	return fromLin(l)
}
func MulC(a *Term, c *big.Int) *Term {
	l := newLin()
	toLin(a, c, l)
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	if a.S == RealS {
		return rbin("*", a, b)
	}
	if a.isInt() {
		return MulC(b, a.I)
	}
	if b.isInt() {
		return MulC(a, b.I)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", IntS, "", nil, a, b)
}
func rbin(op string, a, b *Term) *Term {
	x, okx := ratOf(a)
	y, oky := ratOf(b)
	if okx && oky {
		r := new(big.Rat)
		switch op {
		case "+":
			return RealR(r.Add(x, y))
		case "-":
			return RealR(r.Sub(x, y))
		case "*":
			return RealR(r.Mul(x, y))
		case "/":
			if y.Sign() != 0 {
				return RealR(r.Quo(x, y))
			}
		}
	}
	if op == "/" && oky && y.IsInt() && y.Sign() > 0 && a.Op == "to_real" {
		// a whole multiple of the divisor
		l := newLin()
		toLin(a.Args[0], bigOne, l)
		q, ok := l.quo(y.Num())
		if ok {
			return toReal(q)
		}
	}
	return mk("r"+op, RealS, "", nil, a, b)
}

// quo divides a linear form whose coefficients are all multiples of d.
func (l *lin) quo(d *big.Int) (*Term, bool) {
	m := new(big.Int)
	div := func(c *big.Int) (*big.Int, bool) {
		q := new(big.Int)
		q.QuoRem(c, d, m)
		return q, m.Sign() == 0
	}
	k, ok := div(l.k)
	if !ok {
		return nil, false
	}
	r := IntB(k)
	for t, c := range l.c {
		q, ok := div(c)
		if !ok {
			return nil, false
		}
		r = Add(r, MulC(t, q))
	}
	return r, true
}

// ftoa is strconv.FormatFloat.
func ftoa(v, format, prec, bits *Term) *Term {
	if v.Op == "to_real" && format == Int('f') && (prec == Int(0) || prec == Int(-1)) && bits == Int(64) {
		return itoa(v.Args[0])
	}
	return App("ftoa", StrS, v, format, prec, bits)
}
func ratOf(t *Term) (*big.Rat, bool) {
	if t.Op == "real" {
		r, ok := new(big.Rat).SetString(t.Name)
		return r, ok
	}
	return nil, false
}

// EDiv / EMod: SMT-LIB (Euclidean) integer division by a constant or term.
func EDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return IntB(q)
	}
	if b.isInt() && b.I.IsInt64() && b.I.Int64() == 1 {
		return a
	}
	return mk("div", IntS, "", nil, a, b)
}
func EMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.I, b.I, new(big.Int))
		return IntB(m)
	}
	return mk("mod", IntS, "", nil, a, b)
}

func Le(a, b *Term) *Term {
	if a.S == RealS {
		x, okx := ratOf(a)
		y, oky := ratOf(b)
		if okx && oky {
			return Bool(x.Cmp(y) <= 0)
		}
		return mk("r<=", BoolS, "", nil, a, b)
	}
	d := Sub(b, a)
	if d.isInt() {
		return Bool(d.I.Sign() >= 0)
	}
	// interval shortcut
	if lo, _ := bounds(d, 0); lo != nil && lo.Sign() >= 0 {
		return True
	}
	if _, hi := bounds(d, 0); hi != nil && hi.Sign() < 0 {
		return False
	}
	return mk("ge0", BoolS, "", nil, d)
}
func Lt(a, b *Term) *Term {
	if a.S == RealS {
		return Not(Le(b, a))
	}
	return Le(Add(a, One), b)
}

// ---------- ranges known from Go types ----------

type rng struct{ lo, hi *big.Int }

var rangeTab = map[*Term]rng{}

func setRange(t *Term, lo, hi *big.Int) {
	if t.isInt() || t.S != IntS {
		return
	}
	if r, ok := rangeTab[t]; ok {
		if lo != nil && (r.lo == nil || r.lo.Cmp(lo) < 0) {
			r.lo = lo
		}
		if hi != nil && (r.hi == nil || r.hi.Cmp(hi) > 0) {
			r.hi = hi
		}
		rangeTab[t] = r
		return
	}
	rangeTab[t] = rng{lo, hi}
}

func bounds(t *Term, depth int) (lo, hi *big.Int) {
	if t.isInt() {
		return t.I, t.I
	}
	if r, ok := rangeTab[t]; ok {
		lo, hi = r.lo, r.hi
	}
	if depth > 6 {
		return
	}
	switch t.Op {
	case "+":
		l, h := new(big.Int), new(big.Int)
		for _, a := range t.Args {
			al, ah := bounds(a, depth+1)
			if l != nil && al != nil {
				l.Add(l, al)
			} else {
				l = nil
			}
			if h != nil && ah != nil {
				h.Add(h, ah)
			} else {
				h = nil
			}
		}
		lo, hi = tighter(lo, hi, l, h)
	case "*c":
		l, h := bounds(t.Args[0], depth+1)
		if t.I.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			l = new(big.Int).Mul(l, t.I)
		}
		if h != nil {
			h = new(big.Int).Mul(h, t.I)
		}
		lo, hi = tighter(lo, hi, l, h)
	case "ite":
		l1, h1 := bounds(t.Args[1], depth+1)
		l2, h2 := bounds(t.Args[2], depth+1)
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = l1
			if l2.Cmp(l1) < 0 {
				l = l2
			}
		}
		if h1 != nil && h2 != nil {
			h = h1
			if h2.Cmp(h1) > 0 {
				h = h2
			}
		}
		lo, hi = tighter(lo, hi, l, h)
	case "mod":
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			lo, hi = tighter(lo, hi, new(big.Int), new(big.Int).Sub(t.Args[1].I, bigOne))
		}
	case "div":
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			l, h := bounds(t.Args[0], depth+1)
			if l != nil {
				l, _ = new(big.Int).DivMod(l, t.Args[1].I, new(big.Int))
			}
			if h != nil {
				h, _ = new(big.Int).DivMod(h, t.Args[1].I, new(big.Int))
			}
			lo, hi = tighter(lo, hi, l, h)
		}
	}
	return
}
func tighter(lo, hi, l, h *big.Int) (*big.Int, *big.Int) {
	if l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	return lo, hi
}

// ---------- equality ----------

// alloc bases: ref terms are base + k
type allocInfo struct {
	parent *Term
	minOff int64
}

var allocBases = map[*Term]allocInfo{} // alloc base symbol -> parent base and offset it is known to be at least
var strConsts = map[string]*Term{}
var strVal = map[*Term]string{}

func StrC(s string) *Term {
	if t, ok := strConsts[s]; ok {
		return t
	}
	t := Const(fmt.Sprintf("str!%d", len(strConsts)), StrS)
	strConsts[s] = t
	strVal[t] = s
	return t
}

// splitRef returns base and offset when t is an allocation-based ref.
func splitRef(t *Term) (*Term, int64, bool) {
	if _, ok := allocBases[t]; ok {
		return t, 0, true
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].isInt() {
		if _, ok := allocBases[t.Args[0]]; ok {
			return t.Args[0], t.Args[1].I.Int64(), true
		}
	}
	return nil, 0, false
}

// refCmp compares two allocation-based refs: returns -1 if definitely a<b, 1 if a>b, 0 unknown, 2 equal.
func refCmp(a, b *Term) int {
	if a == b {
		return 2
	}
	ab, ao, ok1 := splitRef(a)
	bb, bo, ok2 := splitRef(b)
	if !ok1 || !ok2 {
		// int constants (nil, globals) are below every alloc base
		if ok1 && b.isInt() && b.I.Sign() <= 0 {
			return 1
		}
		if ok2 && a.isInt() && a.I.Sign() <= 0 {
			return -1
		}
		return 0
	}
	if ab == bb {
		if ao < bo {
			return -1
		}
		return 1
	}
	// walk up from bb: bb >= parent+minOff
	less := func(xb *Term, xo int64, yb *Term, yo int64) bool { // x < y ?
		off := yo
		for cur := yb; cur != nil; {
			if cur == xb {
				return xo < off
			}
			inf, ok := allocBases[cur]
			if !ok || inf.parent == nil {
				return false
			}
			off += inf.minOff
			cur = inf.parent
		}
		return false
	}
	if less(ab, ao, bb, bo) {
		return -1
	}
	if less(bb, bo, ab, ao) {
		return 1
	}
	return 0
}

// oldBound: refs known (by construction) to be below an alloc base+off
type refBound struct {
	base *Term
	off  int64
}

var refBounds = map[*Term]refBound{} // term (ref) is < base+off

func setRefBound(t *Term, base *Term, off int64) {
	if t.isInt() || t.bound {
		return
	}
	if _, _, ok := splitRef(t); ok {
		return
	}
	// the value was there in every state it was read in: the earliest counts
	if old, ok := refBounds[t]; !ok || refCmp(Add(base, Int(off)), Add(old.base, Int(old.off))) == -1 {
		refBounds[t] = refBound{base, off}
	}
}

// refBelow: definitely t < lim (lim alloc-based)?
func refBelow(t, lim *Term) bool {
	if refCmp(t, lim) == -1 {
		return true
	}
	if rb, ok := refBounds[t]; ok {
		b := Add(rb.base, Int(rb.off))
		if b == lim || refCmp(b, lim) == -1 {
			return true
		}
	}
	if t.Op == "ite" {
		return refBelow(t.Args[1], lim) && refBelow(t.Args[2], lim)
	}
	return false
}

// refAtLeast: definitely t >= lim?
func refAtLeast(t, lim *Term) bool {
	c := refCmp(t, lim)
	if c == 1 || c == 2 {
		return true
	}
	if l, ok := refLow[t]; ok && (l == lim || refAtLeast(l, lim)) {
		return true
	}
	if t.Op == "ite" {
		return refAtLeast(t.Args[1], lim) && refAtLeast(t.Args[2], lim)
	}
	return false
}

// refLow: refs known (by a loop invariant) to be at least an allocation limit.
var refLow = map[*Term]*Term{}

func refDistinct(a, b *Term) bool {
	c := refCmp(a, b)
	if c == 1 || c == -1 {
		return true
	}
	if _, _, ok := splitRef(a); ok && refBelow(b, a) {
		return true
	}
	if _, _, ok := splitRef(b); ok && refBelow(a, b) {
		return true
	}
	if l, ok := refLow[a]; ok && (refBelow(b, l) || b.isInt() && b.I.Sign() <= 0) {
		return true
	}
	if l, ok := refLow[b]; ok && (refBelow(a, l) || a.isInt() && a.I.Sign() <= 0) {
		return true
	}
	return false
}

var eqMemo, selMemo sync.Map

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic("eq sorts " + a.S.Name + " vs " + b.S.Name + ": " + a.Str() + " / " + b.Str())
	}
	switch a.S {
	case BoolS:
		return Ite(a, b, Not(b))
	case IntS:
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.I.Sign() == 0)
		}
		if refDistinct(a, b) {
			return False
		}
		if r, ok := eqAddr(a, b); ok {
			return r
		}
		if lo, hi := bounds(d, 0); (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return False
		}
	case StrS:
		_, x := strVal[a]
		_, y := strVal[b]
		if x && y {
			return False
		}
		if x && b.Op == "app" {
			a, b, x, y = b, a, y, x
		}
		if v, ok := strVal[b]; ok && a.Op == "app" {
			switch a.Name {
			case "itoa":
				if n, ok := new(big.Int).SetString(v, 10); ok && n.String() == v {
					return Eq(a.Args[0], IntB(n))
				}
				return False
			case "ftoa":
				if v == "" {
					return False
				}
			}
		}
		if a.Op == "app" && b.Op == "app" && a.Name == "itoa" && b.Name == "itoa" {
			return Eq(a.Args[0], b.Args[0])
		}
		if r, ok := strEqNorm(a, b); ok {
			return r
		}
	case RealS:
		if x, ok := ratOf(a); ok {
			if y, ok := ratOf(b); ok {
				return Bool(x.Cmp(y) == 0)
			}
		}
	}
	if a.S.Kind == 'd' && a.Op == "ctor" && b.Op == "ctor" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// ite with a constant-ish other side
	if b.Op == "ite" && a.Op != "ite" {
		a, b = b, a
	}
	if a.Op == "ite" && (b.isInt() || isLit(b)) {
		k := [2]*Term{a, b}
		if r, ok := eqMemo.Load(k); ok {
			return r.(*Term)
		}
		l, r := Eq(a.Args[1], b), Eq(a.Args[2], b)
		var res *Term
		if isBoolLit(l) || isBoolLit(r) {
			res = Ite(a.Args[0], l, r)
		} else {
			x, y := a, b
			if x.id > y.id {
				x, y = y, x
			}
			res = mk("=", BoolS, "", nil, x, y)
		}
		eqMemo.Store(k, res)
		return res
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", BoolS, "", nil, a, b)
}

// eqAddr decides equality of interior addresses and boxed values.
func eqAddr(a, b *Term) (*Term, bool) {
	isA := func(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "addr:") }
	isB := func(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "box:") }
	if isA(b) && !isA(a) {
		a, b = b, a
	}
	if isA(a) {
		if b.isInt() {
			return False, true
		}
		if _, _, ok := splitRef(b); ok {
			return False, true
		}
		if isA(b) {
			if a.Name != b.Name || len(a.Args) != len(b.Args) {
				return False, true
			}
			return eqArgs(a, b), true
		}
	}
	if isB(a) && isB(b) && a.Name == b.Name {
		return eqArgs(a, b), true
	}
	return nil, false
}
func eqArgs(a, b *Term) *Term {
	var cs []*Term
	for i := range a.Args {
		if a.Args[i].S != b.Args[i].S {
			return False
		}
		cs = append(cs, Eq(a.Args[i], b.Args[i]))
	}
	return And(cs...)
}
func isBoolLit(t *Term) bool { return t == True || t == False }
func isLit(t *Term) bool {
	if t.Op == "ctor" {
		for _, a := range t.Args {
			if !isLit(a) {
				return false
			}
		}
		return true
	}
	_, ok := strVal[t]
	return ok || t.isInt() || t.Op == "real" || isBoolLit(t)
}

// ---------- datatypes ----------

func Ctor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.SelS) {
		panic("ctor arity " + s.Name)
	}
	for i, a := range args {
		if a.S != s.SelS[i] {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", s.Name, i, a.S.Name, s.SelS[i].Name))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Args[0].S == s && args[0].Name == s.Sels[0] {
		x := args[0].Args[0]
		ok := true
		for i := range args {
			if !(args[i].Op == "sel" && args[i].Args[0] == x && args[i].Name == s.Sels[i]) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("ctor", s, s.Ctor, nil, args...)
}
func Sel(t *Term, i int) *Term {
	if t.Op == "ctor" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return iteMap(t, func(t *Term) *Term { return Sel(t, i) })
	}
	if i >= len(t.S.Sels) {
		panic("sel on " + t.S.Name + " " + t.Str())
	}
	r := mk("sel", t.S.SelS[i], t.S.Sels[i], nil, t)
	if i == 0 && t.S == SliceS && len(heapLim) > 0 {
		// the array of a slice that was read from a known heap
		if l, ok := heapLim[heapRoot(t)]; ok {
			if !r.bound {
				setRefBound(r, l.base, l.off)
			} else if _, ok := boundRefBounds[r]; !ok {
				boundRefBounds[r] = Add(l.base, Int(l.off))
			}
		}
	}
	return r
}
func Upd(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.S.SelS))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(t, j)
		}
	}
	return Ctor(t.S, args...)
}

// ---------- arrays ----------

func Dflt(s *Sort) *Term { return Const("dflt$"+mangle(s.Name), s) }
func DefArr(k, v *Sort) *Term {
	return Const("defarr$"+mangle(k.Name)+"$"+mangle(v.Name), ArrS(k, v))
}
func isDefArr(t *Term) bool { return t.Op == "const" && strings.HasPrefix(t.Name, "defarr$") }

// distinct: definitely different?
func distinct(a, b *Term) bool { return Eq(a, b) == False }

func Select(a, i *Term) *Term {
	if a.S.Kind != 'a' || a.S.K != i.S {
		panic("select " + a.S.Name + " with " + i.S.Name)
	}
	for {
		switch a.Op {
		case "store":
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
			if i.bound {
				// keep structure readable for the solver: ite
				return Ite(e, a.Args[2], Select(a.Args[0], i))
			}
			return mk("select", a.S.V, "", nil, a, i)
		case "framed":
			// framed(old, new, lim): refs < lim read old, others new
			if refBelow(i, a.Args[2]) || (i.isInt() && i.I.Sign() <= 0) {
				a = a.Args[0]
				continue
			}
			if refAtLeast(i, a.Args[2]) {
				a = a.Args[1]
				continue
			}
			return Ite(Lt(i, a.Args[2]), Select(a.Args[0], i), Select(a.Args[1], i))
		case "ite":
			k := [2]*Term{a, i}
			if r, ok := selMemo.Load(k); ok {
				return r.(*Term)
			}
			r := Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			selMemo.Store(k, r)
			return r
		case "const":
			if isDefArr(a) {
				if a.S.V == BoolS {
					return False
				}
				return Dflt(a.S.V)
			}
		case "constarr":
			return a.Args[0]
		case "app":
			switch a.Name {
			case "sq_of": // (inner, off, len)
				in := And(Le(Zero, i), Lt(i, a.Args[2]))
				if in == True {
					return Select(a.Args[0], Add(a.Args[1], i))
				}
				if in == False {
					return Dflt(a.S.V)
				}
			case "arr_put": // (array, at, source, number)
				at, n := a.Args[1], a.Args[3]
				lo, hi := Le(at, i), Lt(i, Add(at, n))
				if lo == True && hi == True {
					return Select(a.Args[2], Sub(i, at))
				}
				if lo == False || hi == False {
					return Select(a.Args[0], i)
				}
			case "bytes_of":
				if b := byteOf(a.Args[0], i); b != nil {
					return b
				}
			}
		}
		break
	}
	r := mk("select", a.S.V, "", nil, a, i)
	if r.S == IntS && !r.bound && len(refHeap) > 0 {
		if root := heapRoot(r); refHeap[root] {
			if l, ok := heapLim[root]; ok {
				setRefBound(r, l.base, l.off)
			}
		}
	}
	return r
}

// byteOf: byte i of a text that begins or ends with a known part, if i lies in it.
func byteOf(s, i *Term) *Term {
	ps := []*Term{s}
	if s.Op == "app" && s.Name == "str_cat" {
		ps = s.Args
	}
	if lit, ok := strVal[ps[0]]; ok && i.isInt() && i.I.Sign() >= 0 && i.I.Cmp(big.NewInt(int64(len(lit)))) < 0 {
		return Int(int64(lit[i.I.Int64()]))
	}
	if lit, ok := strVal[ps[len(ps)-1]]; ok {
		if d := Sub(StrLen(s), i); d.isInt() && d.I.Sign() > 0 && d.I.Cmp(big.NewInt(int64(len(lit)))) <= 0 {
			return Int(int64(lit[len(lit)-int(d.I.Int64())]))
		}
	}
	return nil
}

func Store(a, i, v *Term) *Term {
	if a.S.V != v.S {
		panic("store " + a.S.Name + " value " + v.S.Name)
	}
	if a.Op == "store" {
		if a.Args[1] == i {
			return Store(a.Args[0], i, v)
		}
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.S, "", nil, a, i, v)
}
func Framed(old, nw, lim *Term) *Term { return mk("framed", old.S, "", nil, old, nw, lim) }
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, "", nil, v) }

// ---------- sequences ----------

func SeqLen(s *Term) *Term { return Sel(s, 0) }
func SeqArr(s *Term) *Term { return Sel(s, 1) }
func SeqEmpty(e *Sort) *Term {
	return Ctor(SeqSort(e), Zero, DefArr(IntS, e))
}
func SeqAppend(s, x *Term) *Term {
	return Ctor(s.S, Add(SeqLen(s), One), Store(SeqArr(s), SeqLen(s), x))
}
func SeqAt(s, i *Term) *Term { return Select(SeqArr(s), i) }

// sqOf builds the canonical array of inner[off..off+n).
func sqOf(inner, off, n *Term) *Term {
	if n == Zero {
		return DefArr(IntS, inner.S.V)
	}
	switch inner.Op {
	case "store":
		d := Sub(inner.Args[1], off) // relative index
		if d == Sub(n, One) {
			return Store(sqOf(inner.Args[0], off, d), d, inner.Args[2])
		}
		if Le(n, d) == True || Lt(d, Zero) == True {
			return sqOf(inner.Args[0], off, n)
		}
		if n.isInt() && n.I.IsInt64() && n.I.Int64() <= 16 && d.isInt() {
			// small literal: materialise
			r := DefArr(IntS, inner.S.V)
			for j := int64(0); j < n.I.Int64(); j++ {
				r = Store(r, Int(j), Select(inner, Add(off, Int(j))))
			}
			return r
		}
	case "app":
		if inner.Name == "sq_of" && off == Zero && inner.Args[2] == n {
			return inner
		}
	case "ite":
		return iteMap(inner, func(inner *Term) *Term { return sqOf(inner, off, n) })
	}
	if isDefArr(inner) {
		return inner
	}
	return App("sq_of", inner.S, inner, off, n)
}
func SeqTake(s, n *Term) *Term {
	if n == SeqLen(s) {
		return s
	}
	if n == Zero {
		return SeqEmpty(s.S.Elem)
	}
	a := SeqArr(s)
	if a.Op == "app" && a.Name == "sq_of" && Le(n, a.Args[2]) == True {
		return Ctor(s.S, n, sqOf(a.Args[0], a.Args[1], n))
	}
	return Ctor(s.S, n, App("sq_of", a.S, a, Zero, n))
}
func SeqDrop(s, n *Term) *Term {
	if n == Zero {
		return s
	}
	m := Sub(SeqLen(s), n)
	return Ctor(s.S, m, sqOf(SeqArr(s), n, m))
}
func SeqCat(a, b *Term) *Term {
	if a.Op == "ctor" && a.Args[0] == Zero {
		return b
	}
	if b.Op == "ctor" && b.Args[0] == Zero {
		return a
	}
	if b.Op == "ctor" && b.Args[0].isInt() && b.Args[0].I.IsInt64() && b.Args[0].I.Int64() <= 8 {
		r := a
		for j := int64(0); j < b.Args[0].I.Int64(); j++ {
			r = SeqAppend(r, SeqAt(b, Int(j)))
		}
		return r
	}
	return Ctor(a.S, Add(SeqLen(a), SeqLen(b)), App("sq_cat", SeqArr(a).S, SeqArr(a), SeqLen(a), SeqArr(b)))
}

// ---------- strings ----------

func StrCat(ts ...*Term) *Term {
	var fs []*Term
	for _, t := range ts {
		if t.Op == "app" && t.Name == "str_cat" {
			fs = append(fs, t.Args...)
		} else {
			fs = append(fs, t)
		}
	}
	var out []*Term
	for _, t := range fs {
		s, ok := strVal[t]
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if p, ok2 := strVal[out[len(out)-1]]; ok2 {
				out[len(out)-1] = StrC(p + s)
				continue
			}
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("str_cat", StrS, out...)
}

// strEqNorm cancels common prefixes and suffixes of concatenations.
func strEqNorm(a, b *Term) (*Term, bool) {
	parts := func(t *Term) []*Term {
		if t.Op == "app" && t.Name == "str_cat" {
			return append([]*Term{}, t.Args...)
		}
		if s, ok := strVal[t]; ok && s == "" {
			return nil
		}
		return []*Term{t}
	}
	pa, pb := parts(a), parts(b)
	la, lb := len(pa), len(pb)
	if la < 2 && lb < 2 {
		return nil, false
	}
	changed := false
	for dir := 0; dir < 2; dir++ {
		for len(pa) > 0 && len(pb) > 0 {
			ia, ib := 0, 0
			if dir == 1 {
				ia, ib = len(pa)-1, len(pb)-1
			}
			x, y := pa[ia], pb[ib]
			cut := func(p []*Term, i int, rest string) []*Term {
				q := append([]*Term{}, p...)
				if rest == "" {
					return append(q[:i], q[i+1:]...)
				}
				q[i] = StrC(rest)
				return q
			}
			if x == y {
				pa, pb = cut(pa, ia, ""), cut(pb, ib, "")
				changed = true
				continue
			}
			sx, okx := strVal[x]
			sy, oky := strVal[y]
			if okx && oky {
				n := len(sx)
				if len(sy) < n {
					n = len(sy)
				}
				if dir == 0 {
					if sx[:n] != sy[:n] {
						return False, true
					}
					pa, pb = cut(pa, ia, sx[n:]), cut(pb, ib, sy[n:])
				} else {
					if sx[len(sx)-n:] != sy[len(sy)-n:] {
						return False, true
					}
					pa, pb = cut(pa, ia, sx[:len(sx)-n]), cut(pb, ib, sy[:len(sy)-n])
				}
				changed = true
				continue
			}
			break
		}
	}
	if len(pa) == 0 && len(pb) == 0 {
		return True, true
	}
	if len(pa) == 0 || len(pb) == 0 {
		r := pa
		if len(pa) == 0 {
			r = pb
		}
		for _, t := range r {
			if _, ok := strVal[t]; ok {
				return False, true
			}
		}
	}
	if !changed {
		return nil, false
	}
	return Eq(StrCat(pa...), StrCat(pb...)), true
}

// ---------- quantifiers ----------

// Forall binds vars in body with optional patterns.
func Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }

func quant(op string, vars []*Term, body *Term, pats []*Term) *Term {
	if isBoolLit(body) {
		return body
	}
	names := make([]string, len(vars))
	used := false
	for i, v := range vars {
		names[i] = v.Name
		if occurs(v, body) {
			used = true
		}
	}
	if !used && op == "forall" {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	t := mk(op, BoolS, fmt.Sprintf("%d:%s", len(vars), strings.Join(names, ",")), nil, args...)
	if t.Pat == nil && pats != nil {
		t.Pat = pats
	}
	// bound only if something else is free inside
	t.bound = freeBound(t)
	return t
}

func occurs(v, t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.bound && v.Op == "bvar" || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
func isQuant(t *Term) bool { return t.Op == "forall" || t.Op == "exists" }
func freeBound(t *Term) bool {
	bound := map[*Term]int{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.Op == "bvar" {
			return bound[t] == 0
		}
		if isQuant(t) {
			n := len(t.Args) - 1
			for _, v := range t.Args[:n] {
				bound[v]++
			}
			r := rec(t.Args[n])
			for _, v := range t.Args[:n] {
				bound[v]--
			}
			return r
		}
		if !t.bound {
			return false
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	inst := true
	for k := range m {
		inst = inst && k.bound && len(k.Args) == 0
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
			if inst && t.bound {
				carryFacts(t, r)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// carryFacts gives an instance the bounds of the term it is an instance of.
func carryFacts(t, r *Term) {
	if lim, ok := boundRefBounds[t]; ok {
		if !r.bound {
			setRefBound(r, lim, 0)
		} else if _, ok := boundRefBounds[r]; !ok && (r.Op == "sel" || r.Op == "select") {
			boundRefBounds[r] = lim
		}
	}
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		l := newLin()
		for _, x := range a {
			toLin(x, bigOne, l)
		}
		return fromLin(l)
	case "*c":
		return MulC(a[0], t.I)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return EDiv(a[0], a[1])
	case "mod":
		return EMod(a[0], a[1])
	case "ge0":
		return Le(Zero, a[0])
	case "=":
		return Eq(a[0], a[1])
	case "ctor":
		return Ctor(t.S, a...)
	case "sel":
		for i, s := range a[0].S.Sels {
			if s == t.Name {
				return Sel(a[0], i)
			}
		}
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "r+", "r-", "r*", "r/":
		return rbin(t.Op[1:], a[0], a[1])
	case "r<=":
		return Le(a[0], a[1])
	case "app":
		if t.Name == "str_cat" {
			return StrCat(a...)
		}
		if t.Name == "sq_of" {
			return sqOf(a[0], a[1], a[2])
		}
	case "forall", "exists":
		r := mk(t.Op, t.S, t.Name, nil, a...)
		if r.Pat == nil {
			r.Pat = t.Pat
		}
		r.bound = freeBound(r)
		return r
	}
	return mk(t.Op, t.S, t.Name, t.I, a...)
}

// Str prints a term as SMT-LIB without sharing (for diagnostics; truncated).
func (t *Term) Str() string {
	s := smtStr(t, 8)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
func smtStr(t *Term, depth int) string {
	if s, ok := strVal[t]; ok {
		return fmt.Sprintf("%q", s)
	}
	if depth == 0 {
		return "…"
	}
	h := smtHead(t)
	if len(t.Args) == 0 {
		return h
	}
	var b strings.Builder
	b.WriteString("(" + h)
	for _, a := range t.Args {
		b.WriteString(" " + smtStr(a, depth-1))
	}
	b.WriteString(")")
	return b.String()
}
