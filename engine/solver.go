package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// unfoldSpec returns the one-step definition of a logical function application (set by the engine).
var unfoldSpec func(t *Term) *Term

func smtName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!?~&^<>@/-+*=%", c)) {
			ok = false
		}
	}
	if ok {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "$") + "|"
}

func smtInt(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

func appName(t *Term) string {
	var b strings.Builder
	b.WriteString(t.Name)
	for _, a := range t.Args {
		b.WriteString("." + mangle(a.S.Name))
	}
	b.WriteString("." + mangle(t.S.Name))
	return smtName(b.String())
}

func smtHead(t *Term) string {
	switch t.Op {
	case "const", "bvar":
		return smtName(t.Name)
	case "int":
		return smtInt(t.I)
	case "real":
		p := strings.Split(t.Name, "/")
		neg := false
		if strings.HasPrefix(p[0], "-") {
			neg = true
			p[0] = p[0][1:]
		}
		s := p[0] + ".0"
		if len(p) == 2 && p[1] != "1" {
			s = "(/ " + s + " " + p[1] + ".0)"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return s
	case "*", "div", "mod", "r*", "r/":
		if nonlinear(t) {
			return nlNames[t.Op]
		}
		return strings.TrimPrefix(t.Op, "r")
	case "true", "false", "not", "and", "or", "ite", "+", "=", "select", "store":
		return t.Op
	case "*c":
		return "* " + smtInt(t.I)
	case "ge0":
		return "<= 0"
	case "r+", "r-", "r<=":
		return t.Op[1:]
	case "ctor", "sel":
		return smtName(t.Name)
	case "app":
		return appName(t)
	case "constarr":
		return "(as const " + t.S.Name + ")"
	case "to_real", "to_int":
		return t.Op
	}
	return t.Op
}

var nlNames = map[string]string{"*": "nl$mul", "div": "nl$div", "mod": "nl$mod", "r*": "nl$rmul", "r/": "nl$rdiv"}

// nonlinear operations are written as functions of their own, which a header either defines
// or leaves arbitrary: most obligations do not depend on them.
func nonlinear(t *Term) bool {
	c := func(a *Term) bool { _, ok := ratOf(a); return ok || a.isInt() }
	switch t.Op {
	case "*", "r*":
		return !c(t.Args[0]) && !c(t.Args[1])
	case "div", "mod", "r/":
		return !c(t.Args[1])
	}
	return false
}

func nlHeader(abstract bool) string {
	var b strings.Builder
	for _, op := range []string{"*", "div", "mod", "r*", "r/"} {
		so, o := "Int", op
		if op[0] == 'r' {
			so, o = "Real", op[1:]
		}
		if abstract {
			fmt.Fprintf(&b, "(declare-fun %s (%s %s) %s)\n", nlNames[op], so, so, so)
		} else {
			fmt.Fprintf(&b, "(define-fun %s ((a %s) (b %s)) %s (%s a b))\n", nlNames[op], so, so, so, o)
		}
	}
	return b.String()
}

type script struct {
	b       strings.Builder
	decl    map[string]bool
	sorts   map[*Sort]bool
	defd    map[*Term]string
	refs    map[*Term]int
	visited map[*Term]bool
	strs    []*Term
	quant   bool
	nl      bool // uses nonlinear operations
}

func (sc *script) sort(s *Sort) {
	if sc.sorts[s] {
		return
	}
	sc.sorts[s] = true
	switch s.Kind {
	case 'a':
		sc.sort(s.K)
		sc.sort(s.V)
	case 'u':
		fmt.Fprintf(&sc.b, "(declare-sort %s 0)\n", smtName(s.Name))
	case 'd':
		for _, x := range s.SelS {
			sc.sort(x)
		}
		if len(s.Sels) == 0 {
			fmt.Fprintf(&sc.b, "(declare-datatypes ((%s 0)) (((%s))))\n", smtName(s.Name), smtName(s.Ctor))
			return
		}
		fmt.Fprintf(&sc.b, "(declare-datatypes ((%s 0)) (((%s", smtName(s.Name), smtName(s.Ctor))
		for i, n := range s.Sels {
			fmt.Fprintf(&sc.b, " (%s %s)", smtName(n), s.SelS[i].Name)
		}
		sc.b.WriteString("))))\n")
	}
}

func (sc *script) declare(t *Term) {
	if sc.visited[t] {
		return
	}
	sc.visited[t] = true
	for _, a := range t.Args {
		sc.declare(a)
	}
	sc.sort(t.S)
	switch t.Op {
	case "const", "framed":
		n := sc.nameOf(t)
		if !sc.decl[n] {
			sc.decl[n] = true
			fmt.Fprintf(&sc.b, "(declare-fun %s () %s)\n", n, t.S.Name)
			if _, ok := strVal[t]; ok {
				sc.strs = append(sc.strs, t)
			}
		}
	case "app":
		n := appName(t)
		if !sc.decl[n] {
			sc.decl[n] = true
			var as []string
			for _, a := range t.Args {
				as = append(as, a.S.Name)
			}
			fmt.Fprintf(&sc.b, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.S.Name)
		}
	}
}

func (sc *script) nameOf(t *Term) string {
	if t.Op == "framed" {
		return fmt.Sprintf("framed!%d", t.id)
	}
	return smtName(t.Name)
}

func (sc *script) count(t *Term) {
	sc.refs[t]++
	if sc.refs[t] > 1 {
		return
	}
	if t.Op == "framed" {
		return
	}
	for _, a := range t.Args {
		sc.count(a)
	}
}

func (sc *script) expr(t *Term, b *strings.Builder) {
	if n, ok := sc.defd[t]; ok {
		b.WriteString(n)
		return
	}
	if t.Op == "framed" {
		b.WriteString(sc.nameOf(t))
		return
	}
	if isQuant(t) {
		n := len(t.Args) - 1
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Args[:n] {
			fmt.Fprintf(b, "(%s %s)", smtName(v.Name), v.S.Name)
		}
		b.WriteString(") ")
		if len(t.Pat) > 0 {
			b.WriteString("(! ")
			sc.expr(t.Args[n], b)
			for _, p := range t.Pat {
				b.WriteString(" :pattern (")
				if p.Op == "multipat" {
					for i, q := range p.Args {
						if i > 0 {
							b.WriteString(" ")
						}
						sc.expr(q, b)
					}
				} else {
					sc.expr(p, b)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			sc.expr(t.Args[n], b)
		}
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(smtHead(t))
		return
	}
	b.WriteString("(" + smtHead(t))
	for _, a := range t.Args {
		b.WriteString(" ")
		sc.expr(a, b)
	}
	b.WriteString(")")
}

// define emits define-funs for shared ground subterms, children first.
func (sc *script) define(t *Term, done map[*Term]bool) {
	if done[t] {
		return
	}
	done[t] = true
	if t.Op == "framed" {
		return
	}
	for _, a := range t.Args {
		sc.define(a, done)
	}
	if !t.bound && len(t.Args) > 0 && sc.refs[t] > 1 {
		var b strings.Builder
		sc.expr(t, &b)
		if b.Len() > 24 {
			n := fmt.Sprintf("n!%d", t.id)
			fmt.Fprintf(&sc.b, "(define-fun %s () %s %s)\n", n, t.S.Name, b.String())
			sc.defd[t] = n
		}
	}
}

func subterms(ts []*Term, seen map[*Term]bool, f func(*Term)) {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		f(t)
		subterms(t.Args, seen, f)
	}
}

func freeBVars(t *Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if !t.bound && t.Op != "bvar" || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "bvar" && !have[t] {
			have[t] = true
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// facts derives the well-formedness and definitional facts of all subterms.
func facts(roots []*Term, fuel int) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	depth := map[*Term]int{}
	work := roots
	bases := map[*Term]bool{}
	var addBase func(b *Term, next *[]*Term)
	addBase = func(b *Term, next *[]*Term) {
		if b == nil || bases[b] {
			return
		}
		bases[b] = true
		inf := allocBases[b]
		if inf.parent == nil {
			*next = append(*next, Le(One, b))
			return
		}
		*next = append(*next, mk("ge0", BoolS, "", nil, Sub(b, Add(inf.parent, Int(inf.minOff)))))
		addBase(inf.parent, next)
	}
	for round := 0; round < 12 && len(work) > 0; round++ {
		var next []*Term
		subterms(work, seen, func(t *Term) {
			if _, ok := allocBases[t]; ok {
				addBase(t, &next)
			}
			if t.bound {
				// typed range facts below quantifiers
				if r, ok := rangeTab[t]; ok && (t.Op == "select" || t.Op == "app") {
					vs := freeBVars(t)
					var cs []*Term
					if r.lo != nil {
						cs = append(cs, mk("ge0", BoolS, "", nil, Sub(t, IntB(r.lo))))
					}
					if r.hi != nil {
						cs = append(cs, mk("ge0", BoolS, "", nil, Sub(IntB(r.hi), t)))
					}
					if len(vs) > 0 && len(cs) > 0 {
						next = append(next, Forall(vs, And(cs...), t))
					}
				}
				if rb, ok := boundRefBounds[t]; ok {
					vs := freeBVars(t)
					if len(vs) > 0 {
						next = append(next, Forall(vs, mk("ge0", BoolS, "", nil, Sub(Sub(rb, t), One)), t))
					}
				}
				return
			}
			if r, ok := rangeTab[t]; ok && !t.isInt() {
				if r.lo != nil {
					next = append(next, mk("ge0", BoolS, "", nil, Sub(t, IntB(r.lo))))
				}
				if r.hi != nil {
					next = append(next, mk("ge0", BoolS, "", nil, Sub(IntB(r.hi), t)))
				}
			}
			if rb, ok := refBounds[t]; ok {
				next = append(next, mk("ge0", BoolS, "", nil, Sub(Sub(Add(rb.base, Int(rb.off)), t), One)))
				addBase(rb.base, &next)
			}
			if t.S == SliceS && t.Op != "ctor" && t.Op != "ite" {
				l, c, o := Sel(t, 2), Sel(t, 3), Sel(t, 1)
				next = append(next, mk("ge0", BoolS, "", nil, l), mk("ge0", BoolS, "", nil, Sub(c, l)), mk("ge0", BoolS, "", nil, o),
					Or(Not(mk("=", BoolS, "", nil, Sel(t, 0), Zero)), Eq(c, Zero)),
					mk("ge0", BoolS, "", nil, Sub(IntB(maxInt64), Add(c, o))))
			}
			if t.S.Kind == 'd' && t.S.Elem != nil && strings.HasPrefix(t.S.Name, "Seq_") && t.Op != "ctor" && t.Op != "ite" {
				next = append(next, mk("ge0", BoolS, "", nil, Sel(t, 0)))
			}
			if t.Op == "app" {
				if strings.HasPrefix(t.Name, "box:") {
					next = append(next, mk("=", BoolS, "", nil, App("un"+t.Name, t.Args[0].S, t), t.Args[0]))
				}
				switch t.Name {
				case "itoa":
					next = append(next, mk("=", BoolS, "", nil, App("un_itoa", IntS, t), t.Args[0]),
						App("isint", BoolS, t))
				case "quote":
					next = append(next, mk("=", BoolS, "", nil, App("un_quote", StrS, t), t.Args[0]))
				case "ftoa":
					next = append(next, mk("=", BoolS, "", nil, App("un_ftoa", RealS, t), t.Args[0]), App("isfloat", BoolS, t))
				case "str_len":
					next = append(next, mk("ge0", BoolS, "", nil, t), Sub1(t))
					if a := t.Args[0]; a.Op == "app" && a.Name == "str_cat" {
						s := Zero
						for _, p := range a.Args {
							s = Add(s, StrLen(p))
						}
						next = append(next, mk("=", BoolS, "", nil, t, s))
					} else if _, ok := strVal[a]; !ok {
						// only the empty string has length zero
						z, e := mk("=", BoolS, "", nil, t, Zero), mk("=", BoolS, "", nil, a, StrC(""))
						next = append(next, Or(Not(z), e), Or(z, Not(e)))
					}
				}
				if gf, ok := groundFacts[t.Name]; ok {
					next = append(next, gf(t)...)
				}
				if strings.HasPrefix(t.Name, "spec:") && unfoldSpec != nil && depth[t] < fuel {
					d := unfoldSpec(t)
					if d != nil && d != t {
						next = append(next, Eq(t, d))
						subterms([]*Term{d}, map[*Term]bool{}, func(x *Term) {
							if x.Op == "app" && strings.HasPrefix(x.Name, "spec:") && !seen[x] && depth[x] == 0 && x != t {
								depth[x] = depth[t] + 1
							}
						})
					}
				}
			}
		})
		out = append(out, next...)
		work = next
	}
	// array function axioms
	type key struct{ n, s string }
	ax := map[key]bool{}
	all := append(append([]*Term{}, roots...), out...)
	var extra []*Term
	for pass := 0; pass < 2; pass++ {
		subterms(all, map[*Term]bool{}, func(t *Term) {
			for _, p := range t.Pat {
				_ = p
			}
			switch {
			case t.Op == "app" && t.Name == "sq_of":
				k := key{"sq_of", t.S.Name}
				if !ax[k] {
					ax[k] = true
					a, o, n, i := mk("bvar", t.S, "a?", nil), mk("bvar", IntS, "o?", nil), mk("bvar", IntS, "n?", nil), mk("bvar", IntS, "i?", nil)
					lhs := mk("select", t.S.V, "", nil, App("sq_of", t.S, a, o, n), i)
					rhs := mk("ite", t.S.V, "", nil, And(mk("ge0", BoolS, "", nil, i), mk("ge0", BoolS, "", nil, Sub(Sub(n, i), One))), mk("select", t.S.V, "", nil, a, Add(o, i)), Dflt(t.S.V))
					extra = append(extra, Forall([]*Term{a, o, n, i}, mk("=", BoolS, "", nil, lhs, rhs), lhs))
				}
			case t.Op == "app" && t.Name == "sq_cat":
				k := key{"sq_cat", t.S.Name}
				if !ax[k] {
					ax[k] = true
					a, o, n, i := mk("bvar", t.S, "a?", nil), mk("bvar", IntS, "n?", nil), mk("bvar", t.S, "b?", nil), mk("bvar", IntS, "i?", nil)
					lhs := mk("select", t.S.V, "", nil, App("sq_cat", t.S, a, o, n), i)
					rhs := mk("ite", t.S.V, "", nil, mk("ge0", BoolS, "", nil, Sub(Sub(o, i), One)), mk("select", t.S.V, "", nil, a, i), mk("select", t.S.V, "", nil, n, Sub(i, o)))
					extra = append(extra, Forall([]*Term{a, o, n, i}, mk("=", BoolS, "", nil, lhs, rhs), lhs))
				}
			case t.Op == "app" && t.Name == "arr_put":
				k := key{"arr_put", t.S.Name}
				if !ax[k] {
					ax[k] = true
					a, at, src, n, i := mk("bvar", t.S, "a?", nil), mk("bvar", IntS, "at?", nil), mk("bvar", t.S, "b?", nil), mk("bvar", IntS, "n?", nil), mk("bvar", IntS, "i?", nil)
					lhs := mk("select", t.S.V, "", nil, App("arr_put", t.S, a, at, src, n), i)
					rhs := mk("ite", t.S.V, "", nil, And(mk("ge0", BoolS, "", nil, Sub(i, at)), mk("ge0", BoolS, "", nil, Sub(Sub(Add(at, n), i), One))), mk("select", t.S.V, "", nil, src, Sub(i, at)), mk("select", t.S.V, "", nil, a, i))
					extra = append(extra, Forall([]*Term{a, at, src, n, i}, mk("=", BoolS, "", nil, lhs, rhs), lhs))
				}
			case isDefArr(t):
				k := key{"def", t.S.Name}
				if !ax[k] {
					ax[k] = true
					i := mk("bvar", t.S.K, "i?"+mangle(t.S.K.Name), nil)
					lhs := mk("select", t.S.V, "", nil, t, i)
					d := Dflt(t.S.V)
					if t.S.V == BoolS {
						d = False
					}
					var eq *Term
					if d == False {
						eq = mk("not", BoolS, "", nil, lhs)
					} else {
						eq = mk("=", BoolS, "", nil, lhs, d)
					}
					extra = append(extra, Forall([]*Term{i}, eq, lhs))
				}
			case t.Op == "framed" && !t.bound:
				k := key{"framed", fmt.Sprint(t.id)}
				if !ax[k] {
					ax[k] = true
					i := mk("bvar", t.S.K, "i?"+mangle(t.S.K.Name), nil)
					lhs := mk("select", t.S.V, "", nil, t, i)
					rhs := mk("ite", t.S.V, "", nil, mk("ge0", BoolS, "", nil, Sub(Sub(t.Args[2], i), One)), mk("select", t.S.V, "", nil, t.Args[0], i), mk("select", t.S.V, "", nil, t.Args[1], i))
					extra = append(extra, Forall([]*Term{i}, mk("=", BoolS, "", nil, lhs, rhs), lhs))
				}
			}
		})
		all = extra
	}
	return append(out, extra...)
}

// engMu guards the engine's global tables while scripts are built concurrently.
var engMu sync.Mutex

var boundRefBounds = map[*Term]*Term{}
var groundFacts = map[string]func(t *Term) []*Term{}

func Sub1(t *Term) *Term { return mk("ge0", BoolS, "", nil, Sub(IntB(maxInt64), t)) }

func StrLen(s *Term) *Term {
	if v, ok := strVal[s]; ok {
		return Int(int64(len(v)))
	}
	t := App("str_len", IntS, s)
	min := int64(0)
	if s.Op == "app" && s.Name == "str_cat" {
		for _, a := range s.Args {
			min += int64(len(strVal[a]))
		}
	}
	setRange(t, big.NewInt(min), maxInt64)
	return t
}

var maxInt64 = new(big.Int).SetUint64(1<<63 - 1)

// buildScript renders assumptions (conjunction) for check-sat.
func buildScript(asserts []*Term, fuel, rounds int, header string, model []*Term) (body string, quant, nl bool) {
	asserts = append([]*Term{}, asserts...)
	for i, a := range asserts {
		if hasQuant(a) {
			asserts[i] = hoist(skolemize(a))
		}
	}
	var fs []*Term
	done := map[[2]*Term]bool{}
	for r := 0; ; r++ {
		fs = facts(asserts, fuel)
		if r == rounds {
			break
		}
		us := universals(asserts)
		if len(us) == 0 {
			break
		}
		ins := instantiate(us, append(append([]*Term{}, asserts...), fs...), done)
		if len(ins) == 0 {
			break
		}
		asserts = append(asserts, ins...)
	}
	sc := &script{decl: map[string]bool{}, sorts: map[*Sort]bool{IntS: true, BoolS: true, RealS: true}, defd: map[*Term]string{}, refs: map[*Term]int{}, visited: map[*Term]bool{}}
	all := append(append([]*Term{}, asserts...), fs...)
	for _, m := range model {
		all = append(all, Eq(m, m))
	}
	sc.b.WriteString(header)
	subterms(append([]*Term{}, all...), map[*Term]bool{}, func(t *Term) {
		if nonlinear(t) {
			sc.nl = true
			if t.Op == "mod" && !t.bound {
				// what remains known of a remainder when it is left arbitrary
				all = append(all, Implies(Lt(Zero, t.Args[1]), And(Le(Zero, t), Lt(t, t.Args[1]))))
			}
		}
	})
	for _, t := range all {
		sc.declare(t)
		subterms([]*Term{t}, map[*Term]bool{}, func(x *Term) {
			for _, p := range x.Pat {
				sc.declare(p)
			}
			if isQuant(x) {
				sc.quant = true
			}
		})
	}
	if len(sc.strs) > 1 {
		sc.b.WriteString("(assert (distinct")
		for _, s := range sc.strs {
			sc.b.WriteString(" " + smtName(s.Name))
		}
		sc.b.WriteString("))\n")
	}
	for _, t := range all {
		sc.count(t)
	}
	defined := map[*Term]bool{}
	for _, t := range all {
		sc.define(t, defined)
		var b strings.Builder
		sc.expr(t, &b)
		fmt.Fprintf(&sc.b, "(assert %s)\n", b.String())
	}
	return sc.b.String(), sc.quant, sc.nl
}

type solverDef struct {
	name string
	cmd  []string
	head string
}

var solvers = []solverDef{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.ematching true)\n(set-option :smt.arith.solver 2)\n"},
	{"z3-4.8.12", []string{"z3", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-"}, "(set-logic ALL)\n"},
}

type solverStat struct {
	queries int64
	nanos   int64
}

var (
	sem          = make(chan struct{}, 8)
	stats        = map[string]*solverStat{"z3-new": {}, "z3-4.8.12": {}, "cvc5": {}}
	qcache       sync.Map
	totalQueries int64
)

func runSolver(ctx context.Context, d solverDef, body string, ms int, rseed int) string {
	sem <- struct{}{}
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return "unknown"
	}
	start := time.Now()
	args := append([]string{}, d.cmd...)
	if d.name == "cvc5" {
		args = append(args[:1], append([]string{fmt.Sprintf("--tlimit=%d", ms)}, args[1:]...)...)
	} else {
		args = append(args, fmt.Sprintf("-t:%d", ms))
	}
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	h := d.head
	if rseed != 0 && d.name != "cvc5" {
		h += fmt.Sprintf("(set-option :smt.random_seed %d)\n", rseed)
	}
	cmd.Stdin = strings.NewReader(h + body + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	if os.Getenv("VERIF_SLOW") != "" && time.Since(start) > time.Second {
		f := fmt.Sprintf("/tmp/slow_%d.smt2", start.UnixNano())
		os.WriteFile(f, []byte(h+body+"(check-sat)\n"), 0644)
		fmt.Fprintln(os.Stderr, "SLOW", d.name, time.Since(start), f)
	}
	st := stats[d.name]
	atomic.AddInt64(&st.queries, 1)
	atomic.AddInt64(&st.nanos, int64(time.Since(start)))
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "sat", "unsat", "unknown", "timeout":
		return first
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "interrupted") && ctx.Err() == nil && c.Err() == nil {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", d.name, first)
			os.WriteFile("/tmp/err.smt2", []byte(h+body+"(check-sat)\n"), 0644)
		}
		if strings.Contains(s, "\nunsat") || strings.Contains(s, "\nsat") {
			return "error"
		}
	}
	return "unknown"
}

type result struct {
	res    string // unsat / sat / unknown
	solver string
	ms     int64
	script string
}

// prove checks that asserts ∧ ¬goal is unsatisfiable.
func prove(assume []*Term, goal *Term, ms int, thorough bool) result {
	all := append(append([]*Term{}, assume...), Not(goal))
	if !thorough {
		return checkUnsat(all, ms, false)
	}
	first := ms
	if first > 4000 {
		first = 4000
	}
	r := checkUnsat(all, first, false)
	if r.res == "unsat" || r.res == "sat" {
		return r
	}
	start := time.Now()
	engMu.Lock()
	quantified := len(universals(all)) > 0
	engMu.Unlock()
	if quantified {
		if d := checkUnsatR(all, first, false, 4); d.res == "unsat" {
			d.ms += r.ms
			return d
		}
	}
	cs := &caseSearch{ms: 2000, until: start.Add(100 * time.Second)}
	assume, goal = decide(assume, goal)
	if cs.cases(assume, goal, 12) {
		return result{res: "unsat", solver: r.solver + ", " + "by cases", script: r.script, ms: r.ms + time.Since(start).Milliseconds()}
	}
	return checkUnsat(all, ms, true)
}

// decide replaces the conditions in goal and assumptions that the assumptions settle.
func decide(assume []*Term, goal *Term) ([]*Term, *Term) {
	tried := map[*Term]bool{}
	for round := 0; round < 4; round++ {
		engMu.Lock()
		var conds []*Term
		facts := map[*Term]bool{}
		for _, a := range assume {
			facts[a] = true
		}
		subterms(append([]*Term{goal}, assume...), map[*Term]bool{}, func(t *Term) {
			var c *Term
			if t.Op == "ite" {
				c = t.Args[0]
			} else if t.Op == "select" && t.Args[0].Op == "store" {
				c = Eq(t.Args[0].Args[1], t.Args[1])
			}
			if c == nil || isBoolLit(c) || tried[c] || facts[c] || facts[Not(c)] || len(conds) >= 80 || freeBound(c) || hasQuant(c) {
				return
			}
			tried[c] = true
			conds = append(conds, c)
		})
		engMu.Unlock()
		if len(conds) == 0 {
			break
		}
		verdict := make([]int, len(conds))
		var wg sync.WaitGroup
		for i, c := range conds {
			wg.Add(1)
			go func(i int, c *Term) {
				defer wg.Done()
				if checkUnsat(append(append([]*Term{}, assume...), c), 100, false).res == "unsat" {
					verdict[i] = -1
				} else if checkUnsat(append(append([]*Term{}, assume...), Not(c)), 100, false).res == "unsat" {
					verdict[i] = 1
				}
			}(i, c)
		}
		wg.Wait()
		engMu.Lock()
		m := map[*Term]*Term{}
		var add []*Term
		for i, c := range conds {
			if verdict[i] != 0 {
				v := Bool(verdict[i] > 0)
				m[c], m[Not(c)] = v, Not(v)
				if verdict[i] < 0 {
					c = Not(c)
				}
				add = append(add, c)
			}
		}
		if len(m) > 0 {
			// the facts themselves are kept: each is needed to derive the others
			as := append([]*Term{}, assume...)
			for _, a := range assume {
				if b := Subst(a, m); b != a {
					as = append(as, b)
				}
			}
			assume = append(as, add...)
			goal = Subst(goal, m)
		}
		if os.Getenv("VERIF_DEBUG") == "3" {
			dbg("     decide: %d of %d conditions", len(m)/2, len(conds))
			for i, c := range conds {
				if verdict[i] == 0 {
					dbg("       open: %s", smtStr(c, 14))
				}
			}
		}
		engMu.Unlock()
		if len(m) == 0 {
			break
		}
	}
	return assume, goal
}

// cases proves the goal by case distinction on its conditions; false means it could not.
type caseSearch struct {
	ms    int
	n     int64
	until time.Time
	lost  atomic.Bool
}

func (cs *caseSearch) cases(assume []*Term, goal *Term, depth int) bool {
	engMu.Lock()
	goals := conjuncts(goal)
	if len(goals) == 1 {
		// one disjunct may be proved with the others denied
		ds := disjuncts(goals[0])
		var rest, extra []*Term
		m := map[*Term]*Term{}
		for _, d := range ds {
			if isCond(d) {
				extra = append(extra, Not(d))
				m[d], m[Not(d)] = False, True
			} else {
				rest = append(rest, d)
			}
		}
		if len(ds) > 1 && len(rest) == 1 {
			as := make([]*Term, 0, len(assume)+len(extra))
			for _, a := range assume {
				as = append(as, Subst(a, m))
			}
			assume = append(as, extra...)
			goal = Subst(rest[0], m)
			goals = conjuncts(goal)
		}
	}
	engMu.Unlock()
	if len(goals) > 1 {
		return cs.all(len(goals), func(i int) bool { return cs.one(assume, goals[i], depth) })
	}
	return cs.split(assume, goal, depth)
}

func (cs *caseSearch) all(n int, f func(i int) bool) bool {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if !cs.lost.Load() && !f(i) {
				cs.lost.Store(true)
			}
		}(i)
	}
	wg.Wait()
	return !cs.lost.Load()
}

// conjuncts and disjuncts look through negations.
func conjuncts(t *Term) []*Term {
	switch {
	case t.Op == "and":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, conjuncts(a)...)
		}
		return r
	case t.Op == "not" && t.Args[0].Op == "or":
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, conjuncts(Not(a))...)
		}
		return r
	}
	return []*Term{t}
}
func disjuncts(t *Term) []*Term {
	switch {
	case t.Op == "or":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, disjuncts(a)...)
		}
		return r
	case t.Op == "not" && t.Args[0].Op == "and":
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, disjuncts(Not(a))...)
		}
		return r
	}
	return []*Term{t}
}

// isCond: a small condition without cases of its own.
func isCond(t *Term) bool {
	ok := true
	subterms([]*Term{t}, map[*Term]bool{}, func(s *Term) {
		if s.Op == "ite" || s.Op == "store" || s.Op == "and" || s.Op == "or" || isQuant(s) {
			ok = false
		}
	})
	return ok
}

func (cs *caseSearch) one(assume []*Term, goal *Term, depth int) bool {
	if goal == True {
		return true
	}
	if atomic.AddInt64(&cs.n, 1) > 300 || time.Now().After(cs.until) {
		return false
	}
	r := checkUnsat(append(append([]*Term{}, assume...), Not(goal)), cs.ms, false)
	if r.res == "unsat" {
		return true
	}
	if os.Getenv("VERIF_DEBUG") == "3" {
		dbg("     case depth %d: %s %dms goal %.300s", depth, r.res, r.ms, goal.Str())
		if depth <= 5 {
			os.WriteFile("/tmp/leaf.smt2", []byte(r.script), 0644)
		}
	}
	if r.res == "sat" || depth == 0 {
		return false
	}
	return cs.cases(assume, goal, depth-1)
}

func (cs *caseSearch) split(assume []*Term, goal *Term, depth int) bool {
	engMu.Lock()
	c := splitCond(goal)
	engMu.Unlock()
	if c == nil {
		return false
	}
	return cs.all(2, func(i int) bool {
		engMu.Lock()
		v := Bool(i == 0)
		m := map[*Term]*Term{c: v, Not(c): Not(v)}
		as := make([]*Term, 0, len(assume)+1)
		for _, a := range assume {
			as = append(as, Subst(a, m))
		}
		if v == True {
			as = append(as, c)
		} else {
			as = append(as, Not(c))
		}
		g := Subst(goal, m)
		engMu.Unlock()
		return cs.one(as, g, depth)
	})
}

// splitCond is a condition of the goal nearest to its root.
func splitCond(goal *Term) *Term {
	seen := map[*Term]bool{}
	level := []*Term{goal}
	for len(level) > 0 {
		var next []*Term
		for _, t := range level {
			if seen[t] || isQuant(t) {
				continue
			}
			seen[t] = true
			if t.Op == "ite" && !freeBound(t.Args[0]) && !hasQuant(t.Args[0]) {
				return t.Args[0]
			}
			if t.Op == "select" && t.Args[0].Op == "store" {
				if c := Eq(t.Args[0].Args[1], t.Args[1]); !isBoolLit(c) && !freeBound(c) && !hasQuant(c) && c.Op != "and" {
					return c
				}
			}
			next = append(next, t.Args...)
		}
		level = next
	}
	return nil
}

func relevant(asserts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range asserts {
		for _, c := range flat("and", []*Term{t}, nil) {
			if c == True || seen[c] {
				continue
			}
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

func checkUnsat(asserts []*Term, ms int, portfolio bool) result {
	return checkUnsatR(asserts, ms, portfolio, 2)
}

// checkUnsatR: rounds of instances the engine adds itself.
func checkUnsatR(asserts []*Term, ms int, portfolio bool, rounds int) result {
	asserts = relevant(asserts)
	for _, a := range asserts {
		if a == False {
			return result{res: "unsat", solver: "simplifier"}
		}
	}
	set := map[*Term]bool{}
	for _, a := range asserts {
		set[a] = true
	}
	for _, a := range asserts {
		if set[Not(a)] {
			return result{res: "unsat", solver: "simplifier"}
		}
	}
	atomic.AddInt64(&totalQueries, 1)
	engMu.Lock()
	body, _, nl := buildScript(asserts, 2, rounds, "", nil)
	engMu.Unlock()
	if nl {
		// most obligations do not depend on products and quotients
		if r := solve(nlHeader(true)+body, ms, false); r.res == "unsat" || ms < 2000 && !portfolio {
			if r.res == "sat" {
				r.res = "unknown"
			}
			return r
		}
		body = nlHeader(false) + body
	}
	return solve(body, ms, portfolio)
}

func solve(body string, ms int, portfolio bool) result {
	h := sha256.Sum256([]byte(body))
	key := string(h[:])
	if r, ok := qcache.Load(key); ok {
		rr := r.(result)
		if rr.res == "unsat" || rr.res == "sat" || rr.ms >= int64(ms) {
			return rr
		}
	}
	start := time.Now()
	try := func(d solverDef, ms int, seed int) string { return runSolver(context.Background(), d, body, ms, seed) }
	first := ms
	if portfolio && first > 4000 {
		first = 4000
	}
	r := result{script: body}
	_ = try
	// array extensionality is rarely needed and dear: try without it first (unsat stays unsat)
	lean, quick := first, first
	if lean > 3000 {
		lean = 3000
	}
	if quick > 300 {
		quick = 300
	}
	const ext = "(set-option :smt.array.extensional %v)\n"
	r.res = ask(solvers[0].head+fmt.Sprintf(ext, ms > 300), body, quick)
	if r.res != "unsat" && r.res != "sat" && first > quick && time.Since(start) > time.Duration(quick-20)*time.Millisecond {
		if r.res = ask(solvers[0].head+fmt.Sprintf(ext, false), body, lean); r.res != "unsat" {
			r.res = ask(solvers[0].head+fmt.Sprintf(ext, true), body, first)
		}
	}
	if r.res == "error" {
		r.res = try(solvers[0], first, 0)
	}
	r.solver = solvers[0].name
	if r.res != "unsat" && r.res != "sat" && portfolio {
		ctx, cancel := context.WithCancel(context.Background())
		type rr struct {
			res, solver string
		}
		ch := make(chan rr, 4)
		n := 0
		launch := func(d solverDef, seed int) {
			n++
			go func() { ch <- rr{runSolver(ctx, d, body, ms, seed), d.name} }()
		}
		launch(solvers[1], 0)
		launch(solvers[2], 0)
		launch(solvers[0], 7)
		launch(solvers[1], 11)
		for ; n > 0; n-- {
			x := <-ch
			if x.res == "unsat" || (x.res == "sat" && r.res != "unsat") {
				r.res, r.solver = x.res, x.solver
				if x.res == "unsat" {
					break
				}
			}
		}
		cancel()
	}
	if r.res == "timeout" || r.res == "error" {
		r.res = "unknown"
	}
	r.ms = time.Since(start).Milliseconds()
	sv := r
	sv.ms = int64(ms)
	qcache.Store(key, sv)
	return r
}

// quickUnsat: cheap feasibility test used to prune paths (sound either way).
func quickUnsat(asserts []*Term) bool {
	var as []*Term
	for _, a := range relevant(asserts) {
		if a.bound || a == True {
			continue
		}
		if a == False {
			return true
		}
		if !hasQuant(a) {
			as = append(as, a)
		}
	}
	return checkUnsat(as, 300, false).res == "unsat"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
