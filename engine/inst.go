package main

import (
	"fmt"
	"strings"
)

// skolemize replaces quantifiers of existential force in an assertion by witnesses.
func skolemize(t *Term) *Term {
	memo := map[*Term][2]*Term{}
	var rec func(t *Term, pos bool) *Term
	rec = func(t *Term, pos bool) *Term {
		switch t.Op {
		case "not", "and", "or", "forall", "exists", "ite":
		default:
			return t
		}
		if t.bound {
			return t
		}
		k := 0
		if pos {
			k = 1
		}
		if m, ok := memo[t]; ok && m[k] != nil {
			return m[k]
		}
		r := t
		switch t.Op {
		case "not":
			r = Not(rec(t.Args[0], !pos))
		case "and", "or":
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = rec(a, pos)
			}
			if t.Op == "and" {
				r = And(args...)
			} else {
				r = Or(args...)
			}
		case "ite":
			if t.S == BoolS && !hasQuant(t.Args[0]) {
				r = Ite(t.Args[0], rec(t.Args[1], pos), rec(t.Args[2], pos))
			}
		case "forall", "exists":
			if (t.Op == "forall") != pos {
				n := len(t.Args) - 1
				m := map[*Term]*Term{}
				for i, v := range t.Args[:n] {
					c := Const(fmt.Sprintf("sk!%d!%d", t.id, i), v.S)
					m[v] = c
				}
				r = rec(Subst(t.Args[n], m), pos)
			}
		}
		m := memo[t]
		m[k] = r
		memo[t] = m
		return r
	}
	return rec(t, true)
}

var hasQuantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if v, ok := hasQuantMemo[t]; ok {
		return v
	}
	r := isQuant(t)
	for _, a := range t.Args {
		r = r || hasQuant(a)
	}
	hasQuantMemo[t] = r
	return r
}

type uquant struct {
	t   *Term
	top bool
}

// universals collects the quantifiers of universal force.
func universals(ts []*Term) []uquant {
	var out []uquant
	seen := map[*Term]bool{}
	var rec func(t *Term, pos, top bool)
	rec = func(t *Term, pos, top bool) {
		if !hasQuant(t) || t.bound {
			return
		}
		switch t.Op {
		case "not":
			rec(t.Args[0], !pos, false)
		case "and":
			for _, a := range t.Args {
				rec(a, pos, top && pos)
			}
		case "or":
			for _, a := range t.Args {
				rec(a, pos, top && !pos)
			}
		case "ite":
			rec(t.Args[1], pos, false)
			rec(t.Args[2], pos, false)
		case "forall":
			if pos && !seen[t] {
				seen[t] = true
				out = append(out, uquant{t, top})
			}
		case "exists":
			if !pos && !seen[t] {
				seen[t] = true
				out = append(out, uquant{t, false})
			}
		}
	}
	for _, t := range ts {
		rec(t, true, true)
	}
	return out
}

// trigger is an array read inside a quantifier whose index is the bound variable plus an offset.
type trigger struct {
	arr *Term // nil when the array itself is bound
	so  *Sort
	key string
	off *Term // nil for non-integer keys
}

func triggersOf(q *Term) []trigger {
	v := q.Args[0]
	var out []trigger
	subterms([]*Term{q.Args[len(q.Args)-1]}, map[*Term]bool{}, func(t *Term) {
		if t.Op != "select" || !t.bound {
			return
		}
		a, i := t.Args[0], t.Args[1]
		var off *Term
		if i == v {
			if v.S == IntS {
				off = Zero
			}
		} else if v.S == IntS && i.Op == "+" {
			l := newLin()
			toLin(i, bigOne, l)
			c, ok := l.c[v]
			if !ok || !c.IsInt64() || c.Int64() != 1 {
				return
			}
			off = Sub(i, v)
			if off.bound {
				return
			}
		} else {
			return
		}
		tr := trigger{so: a.S, off: off, key: arrKey(a)}
		if !a.bound {
			tr.arr = a
		}
		out = append(out, tr)
	})
	return out
}

var arrKeyMemo = map[*Term]string{}

// arrKey names the heap an array belongs to; arrays of different heaps never alias.
func arrKey(a *Term) string {
	if k, ok := arrKeyMemo[a]; ok {
		return k
	}
	k := "*"
	switch a.Op {
	case "store", "framed":
		k = arrKey(a.Args[0])
	case "ite":
		k = arrKey(a.Args[1])
	case "select":
		if k = arrKey(a.Args[0]); k != "*" {
			k = "in:" + k
		}
	case "app":
		if a.Name == "sq_of" || a.Name == "arr_put" || a.Name == "sq_cat" {
			k = arrKey(a.Args[0])
		}
	case "const":
		n := a.Name
		switch {
		case strings.HasPrefix(n, "H0:"):
			k = mangle(n[3:])
		case strings.HasPrefix(n, "F$") || strings.HasPrefix(n, "E$") || strings.HasPrefix(n, "C$") || strings.HasPrefix(n, "M$"):
			if i := strings.LastIndex(n, "!"); i > 0 {
				n = n[:i]
			}
			n = strings.TrimRight(n, "$")
			k = n
		}
	}
	if k != "*" {
		k = strings.TrimRight(k, "$")
	}
	arrKeyMemo[a] = k
	return k
}

const maxInst = 400

// instantiate adds ground instances of universal quantifiers at the array indices occurring in the formulas.
func instantiate(quants []uquant, ground []*Term, done map[[2]*Term]bool) []*Term {
	bySort := map[*Sort][][2]*Term{}
	type si struct {
		s *Sort
		i *Term
	}
	seenIdx := map[si]bool{}
	byArr := map[[2]*Term]bool{}
	arrIdx := map[*Term][]*Term{}
	subterms(ground, map[*Term]bool{}, func(t *Term) {
		if t.bound {
			return
		}
		var a, i *Term
		if t.Op == "select" {
			a, i = t.Args[0], t.Args[1]
		} else if t.Op == "store" {
			a, i = t, t.Args[1]
		} else {
			return
		}
		if t.Op == "store" && (a.S.V == SliceS || a.S.V.Kind == 'a') {
			return
		}
		if !byArr[[2]*Term{a, i}] {
			byArr[[2]*Term{a, i}] = true
			arrIdx[a] = append(arrIdx[a], i)
		}
		if !seenIdx[si{a.S, i}] {
			seenIdx[si{a.S, i}] = true
			bySort[a.S] = append(bySort[a.S], [2]*Term{a, i})
		}
	})
	var out []*Term
	add := func(q uquant, g *Term) {
		k := [2]*Term{q.t, g}
		if done[k] || len(out) >= maxInst {
			return
		}
		done[k] = true
		n := len(q.t.Args) - 1
		body := q.t.Args[n]
		m := map[*Term]*Term{q.t.Args[0]: g}
		var inst *Term
		if n == 1 {
			inst = Subst(body, m)
		} else {
			vs := q.t.Args[1:n]
			inst = quant(q.t.Op, vs, Subst(body, m), nil)
		}
		if q.t.Op == "exists" { // negative position: ¬∃ gives ¬body
			out = append(out, Or(q.t, skolemize(Not(inst))))
			return
		}
		if q.top {
			out = append(out, hoist(skolemize(inst)))
		} else {
			out = append(out, Or(Not(q.t), skolemize(inst)))
		}
	}
	solve := func(tr trigger, i *Term) *Term {
		if tr.off == nil {
			return i
		}
		return Sub(i, tr.off)
	}
	for pass := 0; pass < 2; pass++ {
		for _, q := range quants {
			for _, tr := range triggersOf(q.t) {
				if pass == 0 {
					if tr.arr != nil {
						for _, i := range arrIdx[tr.arr] {
							add(q, solve(tr, i))
						}
					}
				} else {
					for _, p := range bySort[tr.so] {
						if k := arrKey(p[0]); p[1].S == q.t.Args[0].S && (k == tr.key || k == "*" || tr.key == "*") {
							add(q, solve(tr, p[1]))
						}
					}
				}
			}
		}
	}
	return out
}

// hoist pulls a universal quantifier out of a disjunction of otherwise quantifier-free formulas.
func hoist(t *Term) *Term {
	if t.Op != "or" || t.bound {
		return t
	}
	var q *Term
	var rest []*Term
	for _, a := range t.Args {
		switch {
		case a.Op == "forall" && q == nil:
			q = a
		case hasQuant(a):
			return t
		default:
			rest = append(rest, a)
		}
	}
	if q == nil {
		return t
	}
	n := len(q.Args) - 1
	return quant("forall", q.Args[:n], Or(append(rest, q.Args[n])...), q.Pat)
}
