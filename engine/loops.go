package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type modInfo struct {
	full  bool
	fresh bool
	refs  []*Term
}

func (m *modInfo) addRef(t *Term) bool {
	for _, r := range m.refs {
		if r == t {
			return false
		}
	}
	m.refs = append(m.refs, t)
	return true
}

type cand struct {
	name string
	user bool
	mark func(ps *pstate) // registers what the invariant says about element types
	eval func(ps *pstate) *Term
}

func (c *cand) assume(h *pstate) {
	h.st.assume(c.eval(h))
	if c.mark != nil {
		c.mark(h)
	}
}

// tagCands proposes, for slices of interface values, the dynamic types the loop itself stores.
func (x *Engine) tagCands(lp *loopInfo, qs []quantity) (cs []*cand) {
	for _, q := range qs {
		q := q
		if q.t == nil {
			continue
		}
		sl, ok := q.t.Underlying().(*types.Slice)
		if !ok || !types.IsInterface(sl.Elem()) {
			continue
		}
		seen := map[string]bool{}
		var ts []types.Type
		for b := range lp.body {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && types.Identical(m.Type(), sl.Elem()) && !seen[tkey(m.X.Type())] {
					seen[tkey(m.X.Type())] = true
					ts = append(ts, m.X.Type())
				}
			}
		}
		sort.Slice(ts, func(i, j int) bool { return tkey(ts[i]) < tkey(ts[j]) })
		for _, t := range ts {
			tag := x.tagOf(t)
			cs = append(cs, &cand{name: "auto: elements of " + q.name + " are " + t.String(), eval: func(ps *pstate) *Term {
				i := BVar("i", IntS)
				v := q.get(ps)
				at := x.sliceAt(ps.st, v, i, sl.Elem())
				body := Implies(And(Le(Zero, i), Lt(i, Sel(v, 2))), Eq(Sel(at, 0), tag))
				return Forall([]*Term{i}, body, quantPats(i, body)...)
			}, mark: func(ps *pstate) {
				i := BVar("i", IntS)
				if b := Sel(q.get(ps), 0); b.Op != "const" {
					return
				}
				iteMap(x.sliceAt(ps.st, q.get(ps), i, sl.Elem()), func(l *Term) *Term {
					if l.Op == "select" {
						elemTags[l.Args[0]] = t
					}
					return l
				})
			}})
		}
	}
	return
}

// elemTags: arrays of interface values whose (valid) elements are known, by a loop invariant, to have one type.
var elemTags = map[*Term]types.Type{}

// knownElemTag is the type all elements of the array an interface value is taken from are known to have.
func (x *Engine) knownElemTag(tag *Term) types.Type {
	if tag.Op != "sel" || tag.Args[0].Op != "select" {
		return nil
	}
	arr := tag.Args[0].Args[0]
	for arr.Op == "app" && arr.Name == "sq_of" {
		arr = arr.Args[0]
	}
	return elemTags[arr]
}

type quantity struct {
	name string
	sym  *Term // value at the loop head
	get  func(ps *pstate) *Term
	ent  *Term
	t    types.Type
	key  string // of a cell
	ref  *Term
}

// headDecided tells whether the loop test at the head is literally decided in ps.
func (x *Engine) headDecided(fr *frame, lp *loopInfo, ps *pstate) (ok bool) {
	last := lp.head.Instrs[len(lp.head.Instrs)-1]
	if _, isIf := last.(*ssa.If); !isIf {
		return false
	}
	for _, in := range lp.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
	}
	q := ps.clone()
	q.st.mods = nil
	n := 0
	x.spec++
	x.dry++
	defer func() {
		x.spec--
		x.dry--
		if r := recover(); r != nil {
			if _, un := r.(unsupported); un {
				ok = false
				return
			}
			panic(r)
		}
	}()
	outs := x.run(fr, q, lp.head, 0, func(*pstate, *ssa.BasicBlock, *ssa.BasicBlock) { n++ })
	return n == 1 && len(outs) == 0
}

func allInvariant(t *Term, mark int, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	if t.Op == "const" || t.Op == "bvar" {
		r = t.id <= mark || strVal[t] != "" || t == StrC("") || strings.HasPrefix(t.Name, "H0:") || strings.HasPrefix(t.Name, "dflt$") || strings.HasPrefix(t.Name, "defarr$")
		if _, ok := strVal[t]; ok {
			r = true
		}
	}
	for _, a := range t.Args {
		if !r {
			break
		}
		r = allInvariant(a, mark, memo)
	}
	memo[t] = r
	return r
}

func (x *Engine) loop(fr *frame, lp *loopInfo, ps *pstate) (exits []exitState, outs []Outcome) {
	for it := 0; it < 48; it++ {
		if ps.st.dead() || !x.headDecided(fr, lp, ps) {
			break
		}
		backs, ex, os := x.region(fr, []*pstate{ps}, lp.head, lp.body, lp.head)
		exits = append(exits, ex...)
		outs = append(outs, os...)
		if len(backs) == 0 {
			return
		}
		if len(backs) > 1 {
			for _, b := range backs {
				ex, os := x.loop(fr, lp, b)
				exits = append(exits, ex...)
				outs = append(outs, os...)
			}
			return
		}
		ps = backs[0]
	}
	if ps.st.dead() {
		return
	}
	if x.spec > 0 {
		x.fail("loop with undecided bound in a specification (%s)", fr.fn)
	}
	ex, os := x.loopInv(fr, lp, ps)
	return append(exits, ex...), append(outs, os...)
}

func (x *Engine) loopInv(fr *frame, lp *loopInfo, entry *pstate) (exits []exitState, outs []Outcome) {
	if x.dry == 0 {
		x.loopsN++
	}
	lim0 := entry.st.lim()
	mark := termN
	memo := map[*Term]bool{}
	var phis []*ssa.Phi
	for _, in := range lp.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	mods := map[string]*modInfo{}
	phiMod := map[*ssa.Phi]bool{}
	var pend []write
	pendFull := map[string]bool{}

	var cells []quantity // havocked specific cells of the current head
	mkHead := func() *pstate {
		h := entry.clone()
		st := h.st
		nb := Fresh("A", IntS)
		allocBases[nb] = allocInfo{parent: entry.st.base, minOff: entry.st.off}
		st.base, st.off = nb, 0
		st.mods = nil
		cells = nil
		for _, k := range sortedKeys(mods) {
			mi := mods[k]
			so := heapSort[k]
			old := st.heap(k, so)
			if mi.full || scalarHeap(k) {
				st.setHeap(k, Fresh(k, so))
				continue
			}
			nh := old
			for _, r := range mi.refs {
				r := r
				fv := Fresh(k+"@", so.V)
				if kt := keyType[k]; kt != nil {
					x.typedDeep(fv, kt, st) // what is stored now was made before now
				}
				nh = Store(nh, r, fv)
				key := k
				cells = append(cells, quantity{key: k, ref: r, name: k + "@" + r.Str(), sym: fv, ent: Select(old, r), get: func(ps *pstate) *Term { return Select(ps.st.heap(key, so), r) }})
			}
			if mi.fresh {
				nh = Framed(nh, Fresh(k+"#", so), lim0)
			}
			st.setHeap(k, nh)
		}
		for _, p := range phis {
			if phiMod[p] {
				v := x.fresh(phiName(p), p.Type(), st)
				if p.Comment == "rangeindex" {
					// from -1 up to the length of what is ranged over, by construction of the SSA form
					setRange(v, big.NewInt(-1), new(big.Int).Lsh(bigOne, 62))
				}
				h.env[p] = v
			} else {
				h.env[p] = entry.env[p]
			}
		}
		st.noteHeaps()
		return h
	}
	classify := func(ws []write) (changed bool) {
		pend = nil
		for _, w := range ws {
			mi := mods[w.key]
			if mi == nil {
				mi = &modInfo{}
				mods[w.key] = mi
				changed = true
			}
			if mi.full || scalarHeap(w.key) {
				continue
			}
			if pendFull[w.key] {
				mi.full = true
				changed = true
				continue
			}
			var leaf func(t *Term)
			leaf = func(t *Term) {
				if t.Op == "ite" {
					leaf(t.Args[1])
					leaf(t.Args[2])
					return
				}
				if t == Zero {
					return
				}
				if allInvariant(t, mark, memo) {
					if mi.addRef(t) {
						changed = true
						if len(mi.refs) > 12 {
							mi.full = true
						}
					}
					return
				}
				if !mi.fresh {
					mi.fresh = true
					changed = true
				}
				if !refAtLeast(t, lim0) {
					pend = append(pend, write{w.key, t, w.cond})
				}
			}
			leaf(w.ref)
		}
		return
	}
	var conds []*Term
	runBody := func(h *pstate, outer bool) (backs []*pstate, ex []exitState, os []Outcome, rec *modRec) {
		rec = &modRec{seen: map[string]bool{}, lim: lim0}
		if outer {
			h.st.mods = append(append([]*modRec{}, entry.st.mods...), rec)
		} else {
			h.st.mods = []*modRec{rec}
		}
		saved := condRec
		condRec = &conds
		defer func() { condRec = saved }()
		backs, ex, os = x.region(fr, []*pstate{h}, lp.head, lp.body, lp.head)
		return
	}

	var cands []*cand
	restart := 0
again:
	restart++
	if restart > 10 {
		x.fail("loop frame inference does not stabilise in %s", fr.fn)
	}
	// 1. discover what the loop modifies
	var head *pstate
	for round := 0; ; round++ {
		if round > 12 {
			x.fail("loop modification analysis does not stabilise in %s", fr.fn)
		}
		conds = nil
		head = mkHead()
		hv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			hv[p] = head.env[p]
		}
		x.dry++
		backs, _, _, rec := runBody(head.clone(), false)
		x.dry--
		ch := classify(rec.writes)
		for _, p := range phis {
			if phiMod[p] {
				continue
			}
			for _, b := range backs {
				if b.env[p] != hv[p] {
					phiMod[p] = true
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	// quantities
	var qs []quantity
	for _, p := range phis {
		if !phiMod[p] {
			continue
		}
		p := p
		t, ok := head.env[p].(*Term)
		if !ok {
			x.fail("loop carries a non-term value %s in %s", p, fr.fn)
		}
		e := entry.env[p].(*Term)
		qs = append(qs, quantity{name: phiName(p), sym: t, ent: e, t: p.Type(), get: func(ps *pstate) *Term { return ps.env[p].(*Term) }})
	}
	qs = append(qs, cells...)
	cands = x.autoCands(qs, entry, lim0)
	cands = append(cands, x.tagCands(lp, qs)...)
	cands = append(cands, x.condCands(conds, qs, mark, memo)...)
	cands = append(cands, x.userCands(fr, lp, entry, head, phis, phiMod, cells, lim0)...)
	// entry check
	cands = x.filter(cands, []*pstate{entry})
	// Houdini
	for round := 0; ; round++ {
		if round > 25 {
			x.fail("invariant inference does not converge in %s", fr.fn)
		}
		h := mkHead()
		for _, c := range cands {
			c.assume(h)
		}
		x.dry++
		backs, _, _, rec := runBody(h, false)
		x.dry--
		n := len(cands)
		if classify(rec.writes) {
			goto again
		}
		before := map[*cand]bool{}
		for _, c := range cands {
			before[c] = true
		}
		cands = x.filter(cands, backs)
		if len(cands) == n {
			// 2. frame check
			for _, w := range pend {
				if mi := mods[w.key]; mi == nil || mi.full {
					continue
				}
				if r := checkUnsat(append(append([]*Term{}, w.cond...), Lt(w.ref, lim0)), 2000, false); r.res != "unsat" {
					if os.Getenv("VERIF_DEBUG") != "" {
						dbg("loop %s: write to %s at %s may hit older objects", fr.fn, w.key, w.ref.Str())
					}
					pendFull[w.key] = true
				}
			}
			redo := false
			for _, w := range pend {
				if pendFull[w.key] && !mods[w.key].full {
					mods[w.key].full = true
					redo = true
				}
			}
			if redo {
				goto again
			}
			break
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			left := map[*cand]bool{}
			for _, c := range cands {
				left[c] = true
			}
			for c := range before {
				if !left[c] && c.user {
					dbg("loop %s: user invariant %s not preserved", fr.fn, c.name)
				}
			}
		}
	}
	// 3. final run with obligations
	h := mkHead()
	if os.Getenv("VERIF_DEBUG") != "" && x.dry == 0 {
		for k, m := range mods {
			dbg("loop %s: modifies %s full=%v fresh=%v refs=%d", fr.fn, k, m.full, m.fresh, len(m.refs))
		}
	}
	for _, c := range cands {
		if os.Getenv("VERIF_DEBUG") != "" && x.dry == 0 {
			dbg("loop %s: invariant %s", fr.fn, c.name)
		}
		if c.user && x.dry == 0 {
			x.invUsed[c.name] = true
		}
		c.assume(h)
	}
	_, ex, os2, _ := runBody(h, true)
	for _, e := range ex {
		e.ps.st.mods = entry.st.mods
		exits = append(exits, e)
	}
	for _, o := range os2 {
		o.st.mods = entry.st.mods
		outs = append(outs, o)
	}
	return
}

var condRec *[]*Term

func scalarHeap(k string) bool { return strings.HasPrefix(k, "IT:") || strings.HasPrefix(k, "G:") }

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// filter keeps the candidates that hold in all states.
func (x *Engine) filter(cands []*cand, sts []*pstate) []*cand {
	if len(cands) == 0 || len(sts) == 0 {
		return cands
	}
	type job struct {
		c    *cand
		goal *Term
		ps   *pstate
	}
	bad := map[*cand]bool{}
	var mu sync.Mutex
	for _, ps := range sts {
		var jobs []job
		for _, c := range cands {
			if bad[c] {
				continue
			}
			g := c.eval(ps)
			if g == True || ps.st.pcset[g] {
				continue
			}
			if g == False && !ps.st.dead() {
				// still possible that the path is infeasible
				if !quickUnsat(ps.st.pc) {
					bad[c] = true
				}
				continue
			}
			jobs = append(jobs, job{c, g, ps})
		}
		if len(jobs) == 0 {
			continue
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func(j job) {
				defer wg.Done()
				ms := 1500
				if j.c.user {
					ms = 6000
				}
				// split conjunctions: each conjunct separately
				for _, g := range flat("and", []*Term{j.goal}, nil) {
					r := prove(j.ps.st.pc, g, ms, j.c.user)
					if r.res != "unsat" {
						if j.c.user && os.Getenv("VERIF_DEBUG") == "2" {
							mu.Lock()
							dbg("   user cand %s fails: %s  [%s]", j.c.name, g.Str(), r.res)
							if f := os.Getenv("VERIF_DUMP"); f != "" {
								os.WriteFile(fmt.Sprintf("%s.%s.%d", f, strings.SplitN(j.c.name, "(", 2)[0], g.id), []byte(r.script+"\n(check-sat)\n"), 0644)
							}
							mu.Unlock()
						}
						mu.Lock()
						bad[j.c] = true
						mu.Unlock()
						return
					}
				}
			}(j)
		}
		wg.Wait()
	}
	var out []*cand
	for _, c := range cands {
		if !bad[c] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Engine) autoCands(qs []quantity, entry *pstate, lim0 *Term) []*cand {
	var cs []*cand
	add := func(name string, f func(ps *pstate) *Term) {
		cs = append(cs, &cand{name: "auto: " + name, eval: f})
	}
	type iq struct {
		name string
		get  func(ps *pstate) *Term
		ent  *Term
	}
	var ints, bools []iq
	for _, q := range qs {
		q := q
		switch {
		case q.sym.S == IntS:
			isRef := false
			if q.t != nil {
				switch q.t.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
					isRef = true
				}
			}
			add(q.name+" unchanged", func(ps *pstate) *Term { return Eq(q.get(ps), q.ent) })
			if isRef || q.t == nil {
				add(q.name+" non-nil", func(ps *pstate) *Term { return nonNil(q.get(ps)) })
				add(q.name+" fresh", func(ps *pstate) *Term { return Le(lim0, q.get(ps)) })
				add(q.name+" fresh or nil", func(ps *pstate) *Term { return Or(Eq(q.get(ps), Zero), Le(lim0, q.get(ps))) })
				add(q.name+" fresh or unchanged", func(ps *pstate) *Term { return Or(Eq(q.get(ps), q.ent), Le(lim0, q.get(ps))) })
			}
			if !isRef {
				add(q.name+" >= entry", func(ps *pstate) *Term { return Le(q.ent, q.get(ps)) })
				add(q.name+" <= entry", func(ps *pstate) *Term { return Le(q.get(ps), q.ent) })
				add(q.name+" >= 0", func(ps *pstate) *Term { return Le(Zero, q.get(ps)) })
				ints = append(ints, iq{q.name, q.get, q.ent})
			}
		case q.sym.S == SliceS:
			b := func(ps *pstate) *Term { return Sel(q.get(ps), 0) }
			// the identity of an empty array cannot be observed: it may be taken to be new
			empty := q.sym.Op == "ctor" && Sel(q.ent, 3) == Zero && refDistinct(Sel(q.ent, 0), Zero)
			if empty {
				cs = append([]*cand{{name: "auto: " + q.name + " is a new array", eval: func(ps *pstate) *Term {
					if _, ok := refLow[b(ps)]; ok {
						return True
					}
					return Or(Le(lim0, b(ps)), And(Eq(Sel(q.get(ps), 3), Zero), Not(Eq(b(ps), Zero))))
				}, mark: func(ps *pstate) {
					if t := b(ps); t.Op == "const" {
						ps.st.assume(Le(lim0, t))
						refLow[t] = lim0
					}
				}}}, cs...)
				ints = append(ints, iq{"len(" + q.name + ")", func(ps *pstate) *Term { return Sel(q.get(ps), 2) }, Sel(q.ent, 2)})
				continue
			}
			add(q.name+" unchanged", func(ps *pstate) *Term {
				v := q.get(ps)
				return And(Eq(Sel(v, 0), Sel(q.ent, 0)), Eq(Sel(v, 1), Sel(q.ent, 1)), Eq(Sel(v, 2), Sel(q.ent, 2)), Eq(Sel(v, 3), Sel(q.ent, 3)))
			})
			add(q.name+" fresh or empty", func(ps *pstate) *Term { return Or(Le(lim0, b(ps)), Eq(Sel(q.get(ps), 3), Zero)) })
			add(q.name+" fresh", func(ps *pstate) *Term { return Le(lim0, b(ps)) })
			add(q.name+" same base", func(ps *pstate) *Term { return And(Eq(b(ps), Sel(q.ent, 0)), Eq(Sel(q.get(ps), 1), Sel(q.ent, 1))) })
			add(q.name+" same end", func(ps *pstate) *Term {
				v := q.get(ps)
				return And(Eq(b(ps), Sel(q.ent, 0)), Eq(Add(Sel(v, 1), Sel(v, 2)), Add(Sel(q.ent, 1), Sel(q.ent, 2))))
			})
			ints = append(ints, iq{"len(" + q.name + ")", func(ps *pstate) *Term { return Sel(q.get(ps), 2) }, Sel(q.ent, 2)})
		case q.sym.S == IfaceS:
			add(q.name+" unchanged", func(ps *pstate) *Term {
				return And(Eq(Sel(q.get(ps), 0), Sel(q.ent, 0)), Eq(Sel(q.get(ps), 1), Sel(q.ent, 1)))
			})
			add(q.name+" same type", func(ps *pstate) *Term { return Eq(Sel(q.get(ps), 0), Sel(q.ent, 0)) })
			add(q.name+" non-nil", func(ps *pstate) *Term { return Not(Eq(Sel(q.get(ps), 0), Zero)) })
		case q.sym.S.Kind == 'd' && strings.HasPrefix(q.sym.S.Name, "Seq_"):
			add(q.name+" unchanged", func(ps *pstate) *Term { return Eq(q.get(ps), q.ent) })
			ints = append(ints, iq{"len(" + q.name + ")", func(ps *pstate) *Term { return Sel(q.get(ps), 0) }, Sel(q.ent, 0)})
		default:
			add(q.name+" unchanged", func(ps *pstate) *Term { return Eq(q.get(ps), q.ent) })
			if q.sym.S == BoolS {
				bools = append(bools, iq{q.name, q.get, q.ent})
			}
		}
	}
	if len(bools) <= 10 {
		for i := range bools {
			for j := range bools {
				a, b := bools[i], bools[j]
				if i != j {
					add(a.name+" implies "+b.name, func(ps *pstate) *Term { return Implies(a.get(ps), b.get(ps)) })
				}
			}
		}
	}
	if len(ints) <= 10 {
		for i := range ints {
			for j := i + 1; j < len(ints); j++ {
				a, b := ints[i], ints[j]
				d0 := Sub(a.ent, b.ent)
				add(a.name+"-"+b.name+" constant", func(ps *pstate) *Term { return Eq(Sub(a.get(ps), b.get(ps)), d0) })
				s0 := Add(a.ent, b.ent)
				add(a.name+"+"+b.name+" constant", func(ps *pstate) *Term { return Eq(Add(a.get(ps), b.get(ps)), s0) })
			}
		}
	}
	return cs
}

// condCands turns branch conditions over loop-head quantities into candidate invariants.
func (x *Engine) condCands(conds []*Term, qs []quantity, mark int, memo map[*Term]bool) []*cand {
	symOK := map[*Term]bool{}
	for _, q := range qs {
		subterms([]*Term{q.sym}, map[*Term]bool{}, func(t *Term) {
			if t.Op == "const" && t.id > mark {
				symOK[t] = true
			}
		})
	}
	var ok func(t *Term, uses *bool) bool
	ok = func(t *Term, uses *bool) bool {
		if t.bound {
			return false
		}
		if t.Op == "const" {
			if symOK[t] {
				*uses = true
				return true
			}
			return allInvariant(t, mark, memo)
		}
		for _, a := range t.Args {
			if !ok(a, uses) {
				return false
			}
		}
		return true
	}
	subst := func(t *Term) func(ps *pstate) *Term {
		return func(ps *pstate) *Term {
			m := map[*Term]*Term{}
			for _, q := range qs {
				v := q.get(ps)
				if q.sym.Op == "ctor" {
					for i, a := range q.sym.Args {
						if a.Op == "const" {
							m[a] = Sel(v, i)
						}
					}
				} else {
					m[q.sym] = v
				}
			}
			return Subst(t, m)
		}
	}
	var cs []*cand
	seen := map[*Term]bool{}
	for _, c := range conds {
		if c.Op == "not" {
			c = c.Args[0]
		}
		if seen[c] {
			continue
		}
		seen[c] = true
		uses := false
		if !ok(c, &uses) || !uses || len(cs) > 40 {
			continue
		}
		var ts []*Term
		if c.Op == "ge0" {
			d := c.Args[0]
			ts = []*Term{c, mk("ge0", BoolS, "", nil, Add(d, One)), Not(c), mk("ge0", BoolS, "", nil, Sub(Zero, d))}
		} else {
			ts = []*Term{c, Not(c)}
		}
		for _, t := range ts {
			if isBoolLit(t) {
				continue
			}
			cs = append(cs, &cand{name: "auto: branch " + t.Str(), eval: subst(t)})
		}
	}
	return cs
}

type holeSrc struct {
	name string
	mod  bool
	get  func(ps *pstate) Val
}

// startsPhi: the value only starts off a loop's variable.
func startsPhi(v ssa.Value) bool {
	if _, ok := v.(*ssa.Phi); ok || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

// filledIn: the loop sets elements of the slice.
func filledIn(v ssa.Value, lp *loopInfo) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && lp.body[ia.Block()] {
			return true
		}
	}
	return false
}

// isJSONList: a slice of things made to be shown (not of messages, texts or bytes).
func isJSONList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch e := sl.Elem().Underlying().(type) {
	case *types.Interface:
		return e.NumMethods() == 0
	case *types.Slice:
		return !isByteSlice(e) || isRaw(sl.Elem())
	case *types.Struct:
		for i := 0; i < e.NumFields(); i++ {
			if strings.Contains(e.Tag(i), "json:") {
				return true
			}
		}
	case *types.Pointer:
		u, ok := e.Elem().Underlying().(*types.Struct)
		for i := 0; ok && i < u.NumFields(); i++ {
			if strings.Contains(u.Tag(i), "protobuf:") {
				return false
			}
		}
		return ok && isJSONList(types.NewSlice(u))
	}
	return false
}

func (x *Engine) userCands(fr *frame, lp *loopInfo, entry, head *pstate, phis []*ssa.Phi, phiMod map[*ssa.Phi]bool, cells []quantity, lim0 *Term) []*cand {
	var cs []*cand
	if len(x.invs) == 0 {
		return nil
	}
	// in-scope values, in a deterministic order
	type sv struct {
		v    ssa.Value
		name string
	}
	var scope []sv
	for v := range entry.env {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.head {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok {
			if in.Block() != nil && (lp.body[in.Block()] || !in.Block().Dominates(lp.head)) {
				continue
			}
		}
		if v == resKey {
			continue
		}
		scope = append(scope, sv{v, v.Name()})
	}
	sort.Slice(scope, func(i, j int) bool { return scope[i].name < scope[j].name })
	srcs := func(t types.Type) []holeSrc {
		var out []holeSrc
		if n, as := specType(t); n == "Visited" {
			for _, s := range scope {
				if it, ok := entry.env[s.v].(*mapIter); ok && types.Identical(it.mt.Key(), as[0]) {
					it := it
					out = append(out, holeSrc{"visited", true, func(ps *pstate) Val {
						return ps.st.heap(it.key, ArrS(sortOf(it.mt.Key()), BoolS))
					}})
				}
			}
			return out
		}
		if n, _ := specType(t); n == "JSON" {
			// lists, whatever they are made of
			list := func(get func(ps *pstate) Val, lt types.Type) func(ps *pstate) Val {
				return func(ps *pstate) Val {
					fs, snap := x.snapshot(ps.st)
					return x.jnode(lt, get(ps).(*Term), fs, snap)
				}
			}
			seen := map[ssa.Value]bool{}
			for _, p := range phis {
				if isJSONList(p.Type()) {
					p := p
					out = append(out, holeSrc{phiName(p), true, list(func(ps *pstate) Val { return ps.env[p] }, p.Type())})
				}
			}
			for _, q := range cells {
				if kt := keyType[q.key]; kt != nil && isJSONList(kt) {
					q := q
					out = append(out, holeSrc{q.name, true, list(func(ps *pstate) Val { return x.typed(q.get(ps), kt, ps.st) }, kt)})
				}
			}
			for _, s := range scope {
				s := s
				if isJSONList(s.v.Type()) && !seen[s.v] && !startsPhi(s.v) {
					seen[s.v] = true
					out = append(out, holeSrc{s.name, filledIn(s.v, lp), list(func(ps *pstate) Val { return ps.env[s.v] }, s.v.Type())})
				}
			}
			return out
		}
		for _, p := range phis {
			if types.Identical(p.Type(), t) {
				p := p
				out = append(out, holeSrc{phiName(p), phiMod[p], func(ps *pstate) Val { return ps.env[p] }})
				if _, _, ok := intInfo(t); ok && phiMod[p] {
					out = append(out, holeSrc{phiName(p) + "+1", true, func(ps *pstate) Val { return Add(ps.env[p].(*Term), One) }})
				}
			}
		}
		for _, q := range cells {
			if kt := keyType[q.key]; kt != nil && types.Identical(kt, t) {
				q := q
				out = append(out, holeSrc{q.name, true, func(ps *pstate) Val { return x.typed(q.get(ps), t, ps.st) }})
			}
		}
		// variables captured by the functions in scope
		for _, s := range scope {
			ct, ok := entry.env[s.v].(*Term)
			if !ok || x.clos[ct] == nil || x.clos[ct].fn == nil {
				continue
			}
			for i, b := range x.clos[ct].bind {
				b, ok := b.(*Term)
				fv := x.clos[ct].fn.FreeVars[i]
				if a, isPtr := fv.Type().Underlying().(*types.Pointer); ok && isPtr && types.Identical(a.Elem(), t) {
					out = append(out, holeSrc{"*" + fv.Name(), true, func(ps *pstate) Val { return x.load(ps.st, b, t) }})
				}
			}
		}
		_, isInt, _ := func() (uint, bool, bool) { b, _, ok := intInfo(t); return b, ok, ok }()
		for _, s := range scope {
			s := s
			if _, isIt := entry.env[s.v].(*mapIter); isIt {
				continue
			}
			// local variables held in cells
			if a, ok := s.v.Type().Underlying().(*types.Pointer); ok && types.Identical(a.Elem(), t) {
				_, isAlloc := s.v.(*ssa.Alloc)
				_, isFree := s.v.(*ssa.FreeVar)
				if isAlloc || isFree {
					nm := s.name
					if al, ok := s.v.(*ssa.Alloc); ok && al.Comment != "" {
						nm = al.Comment
					}
					out = append(out, holeSrc{"*" + nm, true, func(ps *pstate) Val { return x.load(ps.st, ps.env[s.v].(*Term), t) }})
				}
			}
			if !isInt && types.Identical(s.v.Type(), t) && t.Underlying() != types.Typ[types.Bool] {
				_, isMap := t.Underlying().(*types.Map)
				out = append(out, holeSrc{s.name, isMap, func(ps *pstate) Val { return ps.env[s.v] }})
			}
		}
		return out
	}
	for n, f := range x.invs {
		c := x.clos[f]
		sig := c.fn.Signature
		np := sig.Params().Len()
		combos := [][]holeSrc{nil}
		for i := 0; i < np; i++ {
			ss := srcs(sig.Params().At(i).Type())
			var next [][]holeSrc
			for _, c := range combos {
				for _, s := range ss {
					next = append(next, append(append([]holeSrc{}, c...), s))
				}
			}
			combos = next
			if len(combos) > 400 {
				combos = combos[:400]
			}
		}
		for _, cb := range combos {
			if np > 0 {
				mod := false
				lists, modList := false, false
				for i, s := range cb {
					mod = mod || s.mod
					if n, _ := specType(sig.Params().At(i).Type()); n == "JSON" {
						lists, modList = true, modList || s.mod
					}
				}
				mod = mod && (!lists || modList)
				if !mod {
					continue
				}
			}
			cb := cb
			f := f
			name := fmt.Sprintf("inv%d(", n)
			for i, s := range cb {
				if i > 0 {
					name += ","
				}
				name += s.name
			}
			name += ")"
			cs = append(cs, &cand{name: name, user: true, eval: func(ps *pstate) *Term {
				args := make([]Val, len(cb))
				for i, s := range cb {
					args[i] = s.get(ps)
				}
				defer func(l *Term) { x.loopLim = l }(x.loopLim)
				x.loopLim = lim0
				return x.pureEval(ps.st, f, args...)
			}})
		}
	}
	return cs
}
