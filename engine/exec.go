package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Label string
	Kind  string // ensures, nopanic, assert, cover
	Pos   string
	PC    []*Term
	Goal  *Term
	Res   result
	Fn    string
}

type Engine struct {
	loopLim  *Term // where allocation stood when the loop of the invariant under evaluation began
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	tags     typeTab
	clos     map[*Term]*closure
	fnIDs    map[*ssa.Function]*Term
	nclos    int
	globals  map[*ssa.Global]*Term
	obls     []*Obl
	exits    []*Term // where the contract ends the process
	dry      int
	spec     int
	depth    int
	stack    []*ssa.Function
	replace  map[*ssa.Function]*Term
	recur    map[*ssa.Function]*recursion
	invs     []*Term
	notes    map[string]bool
	under    map[string]bool // real functions executed
	trusted  map[string]bool // external functions used by assumption
	loopsN   int
	invUsed  map[string]bool
	loopMemo map[*ssa.Function]*loopNest
	specRead map[*ssa.Function][]string
	specFns  map[string]*specFn
	contract string
	goMode   string
	built    map[string]bool
	steps    int
	debug    bool
	initDone bool
	jtypes   []types.Type
	models   map[string]*ssa.Function
}

type pstate struct {
	st     *State
	env    map[ssa.Value]Val
	defers []deferred
}
type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

func (p *pstate) clone() *pstate {
	n := &pstate{st: p.st.clone(), env: make(map[ssa.Value]Val, len(p.env))}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, p.defers...)
	return n
}

type frame struct {
	fn   *ssa.Function
	nest *loopNest
}

type exitState struct {
	ps *pstate
	to *ssa.BasicBlock
}

// ---------- loop nests ----------

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}
type loopNest struct {
	heads map[*ssa.BasicBlock]*loopInfo
	rpo   map[*ssa.BasicBlock]int
}

func (x *Engine) nestOf(fn *ssa.Function) *loopNest {
	if n, ok := x.loopMemo[fn]; ok {
		return n
	}
	n := &loopNest{heads: map[*ssa.BasicBlock]*loopInfo{}, rpo: map[*ssa.BasicBlock]int{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		n.rpo[b] = len(post) - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := n.heads[s]
				if lp == nil {
					lp = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					n.heads[s] = lp
				}
				var add func(c *ssa.BasicBlock)
				add = func(c *ssa.BasicBlock) {
					if lp.body[c] {
						return
					}
					lp.body[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			} else if n.rpo[s] <= n.rpo[b] && n.rpo[s] != 0 {
				x.fail("irreducible control flow in %s", fn)
			}
		}
	}
	x.loopMemo[fn] = n
	return n
}

// ---------- obligations ----------

func (x *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Engine) curFn() string {
	if len(x.stack) == 0 {
		return ""
	}
	return fnName(x.stack[len(x.stack)-1])
}

func fnName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "code.cloudfoundry.org/log-cache/", "")
}

func (x *Engine) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	if x.dry > 0 || x.spec > 0 || st.dead() {
		return
	}
	if goal == True && kind == "nopanic" {
		return
	}
	x.obls = append(x.obls, &Obl{Label: label, Kind: kind, Pos: x.posStr(pos), PC: append([]*Term{}, st.pc...), Goal: goal, Fn: x.curFn()})
}

func (x *Engine) nopanic(st *State, ok *Term, what string, pos token.Pos) {
	if x.spec > 0 || ok == True {
		return
	}
	x.oblige(st, "nopanic", "no-panic: "+what, ok, pos)
	st.assume(ok)
}

func (x *Engine) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

// ---------- merging ----------

func (x *Engine) sameHeaps(a, b *State) (diff []string) {
	for k, v := range a.heaps {
		w, ok := b.heaps[k]
		if !ok {
			w = Const("H0:"+k, v.S)
		}
		if v != w {
			diff = append(diff, k)
		}
	}
	for k, w := range b.heaps {
		if _, ok := a.heaps[k]; !ok {
			if w != Const("H0:"+k, w.S) {
				diff = append(diff, k)
			}
		}
	}
	sort.Strings(diff)
	return
}

func mergeVal(c *Term, a, b Val) (Val, bool) {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if a == bt {
			return a, true
		}
		if a == nil || bt == nil || a.S != bt.S {
			return nil, false
		}
		return Ite(c, a, bt), true
	case Tuple:
		bt, ok := b.(Tuple)
		if !ok || len(a) != len(bt) {
			return nil, false
		}
		r := make(Tuple, len(a))
		for i := range a {
			v, ok := mergeVal(c, a[i], bt[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case nil:
		return nil, b == nil
	}
	if a == b {
		return a, true
	}
	return nil, false
}

// mergePC returns the condition selecting a and the merged path condition.
func mergePC(a, b *State) (*Term, []*Term) {
	var common, ra, rb []*Term
	for _, t := range a.pc {
		if b.pcset[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b.pc {
		if !a.pcset[t] {
			rb = append(rb, t)
		}
	}
	var c *Term
	for _, t := range ra {
		if b.pcset[Not(t)] {
			c = t
			break
		}
	}
	if c == nil {
		// the other side may hold the negation of a conjunction
		ca := And(ra...)
		c = ca
	}
	or := Or(And(ra...), And(rb...))
	return c, append(common, or)
}

func allocMax(a, b *State) (*Term, int64) {
	if a.base == b.base {
		if a.off > b.off {
			return a.base, a.off
		}
		return b.base, b.off
	}
	la, lb := a.lim(), b.lim()
	if c := refCmp(la, lb); c == -1 {
		return b.base, b.off
	} else if c == 1 {
		return a.base, a.off
	}
	// unrelated: a fresh base above both
	n := Fresh("A", IntS)
	allocBases[n] = allocInfo{parent: a.base, minOff: a.off}
	extraBase[n] = append(extraBase[n], mk("ge0", BoolS, "", nil, Sub(n, lb)))
	return n, 0
}

var extraBase = map[*Term][]*Term{}

func (x *Engine) tryMerge(a, b *pstate, force bool) *pstate {
	if len(a.defers) != len(b.defers) {
		return nil
	}
	for i := range a.defers {
		if a.defers[i].call != b.defers[i].call {
			return nil
		}
		for j := range a.defers[i].args {
			if a.defers[i].args[j] != b.defers[i].args[j] {
				return nil
			}
		}
		if a.defers[i].fn != b.defers[i].fn {
			return nil
		}
	}
	diff := x.sameHeaps(a.st, b.st)
	if len(diff) > 0 && !force {
		return nil
	}
	c, pc := mergePC(a.st, b.st)
	env := make(map[ssa.Value]Val, len(a.env))
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue
		}
		m, ok := mergeVal(c, v, w)
		if !ok {
			return nil
		}
		env[k] = m
	}
	n := &State{heaps: map[string]*Term{}, pcset: map[*Term]bool{}, mods: a.st.mods}
	for k, v := range a.st.heaps {
		n.heaps[k] = v
	}
	for k, v := range b.st.heaps {
		if _, ok := n.heaps[k]; !ok {
			n.heaps[k] = v
		}
	}
	for _, k := range diff {
		va, ok := a.st.heaps[k]
		if !ok {
			va = Const("H0:"+k, b.st.heaps[k].S)
		}
		vb, ok := b.st.heaps[k]
		if !ok {
			vb = Const("H0:"+k, va.S)
		}
		n.heaps[k] = Ite(c, va, vb)
	}
	for _, t := range pc {
		n.assume(t)
	}
	n.base, n.off = allocMax(a.st, b.st)
	for _, e := range extraBase[n.base] {
		n.assume(e)
	}
	return &pstate{st: n, env: env, defers: a.defers}
}

const maxStates = 12

func (x *Engine) mergeAll(ps []*pstate) []*pstate {
	var live []*pstate
	for _, p := range ps {
		if !p.st.dead() {
			live = append(live, p)
		}
	}
	ps = live
	force := x.spec > 0
	for {
		merged := false
	outer:
		for i := 0; i < len(ps); i++ {
			for j := i + 1; j < len(ps); j++ {
				if m := x.tryMerge(ps[i], ps[j], force); m != nil {
					ps[i] = m
					ps = append(ps[:j:j], ps[j+1:]...)
					merged = true
					break outer
				}
			}
		}
		if !merged {
			if !force && len(ps) > maxStates {
				force = true
				continue
			}
			return ps
		}
		if len(ps) <= maxStates && x.spec == 0 {
			force = false
		}
	}
}

func (x *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	key := resKey
	var ps []*pstate
	for _, o := range outs {
		ps = append(ps, &pstate{st: o.st, env: map[ssa.Value]Val{key: o.res}})
	}
	ps = x.mergeAll(ps)
	var r []Outcome
	for _, p := range ps {
		r = append(r, Outcome{p.st, p.env[key]})
	}
	return r
}

var resKey = ssa.NewConst(constant.MakeInt64(77), types.Typ[types.Int])

// ---------- function execution ----------

func (x *Engine) execFunc(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		x.fail("no body for %s", fn)
	}
	x.depth++
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	if x.depth > 80 {
		x.fail("call depth exceeded in %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 6 {
		x.fail("unbounded recursion in %s (no contract)", fn)
	}
	if x.spec == 0 && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "code.cloudfoundry.org/log-cache") && !x.inContractFile(fn) {
		x.under[fnName(fn)] = true
	}
	ps := &pstate{st: st, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		ps.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		ps.env[f] = bind[i]
	}
	fr := &frame{fn: fn, nest: x.nestOf(fn)}
	var outs []Outcome
	if fr.nest.heads[fn.Blocks[0]] != nil {
		x.fail("loop at entry block of %s", fn)
	}
	_, _, outs = x.region(fr, []*pstate{ps}, fn.Blocks[0], nil, nil)
	return x.mergeOutcomes(outs)
}

func (x *Engine) inContractFile(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pos()
	if !p.IsValid() && fn.Synthetic != "" {
		return false
	}
	return strings.Contains(x.fset.Position(p).Filename, "zz_verif_")
}

func (x *Engine) region(fr *frame, init []*pstate, start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) (backs []*pstate, exits []exitState, outs []Outcome) {
	pend := map[*ssa.BasicBlock][]*pstate{start: init}
	first := true
	push := func(ps *pstate, from, to *ssa.BasicBlock) {
		if ps.st.dead() {
			return
		}
		x.phis(ps, from, to)
		switch {
		case to == head:
			backs = append(backs, ps)
		case body != nil && !body[to]:
			exits = append(exits, exitState{ps, to})
		default:
			pend[to] = append(pend[to], ps)
		}
	}
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for c := range pend {
			if b == nil || fr.nest.rpo[c] < fr.nest.rpo[b] {
				b = c
			}
		}
		sts := pend[b]
		delete(pend, b)
		sts = x.mergeAll(sts)
		if lp := fr.nest.heads[b]; lp != nil && !(first && b == head) {
			for _, ps := range sts {
				ex, os := x.loop(fr, lp, ps)
				outs = append(outs, os...)
				for _, e := range ex {
					// phis were computed on the exiting edge
					switch {
					case e.to == head:
						backs = append(backs, e.ps)
					case body != nil && !body[e.to]:
						exits = append(exits, e)
					default:
						pend[e.to] = append(pend[e.to], e.ps)
					}
				}
			}
			first = false
			continue
		}
		first = false
		for _, ps := range sts {
			outs = append(outs, x.run(fr, ps, b, 0, push)...)
		}
	}
	backs = x.mergeAll(backs)
	return
}

func (x *Engine) phis(ps *pstate, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type kv struct {
		p *ssa.Phi
		v Val
	}
	var vs []kv
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, kv{p, x.val(ps, p.Edges[idx])})
	}
	for _, e := range vs {
		ps.env[e.p] = e.v
	}
}

type pushFn func(ps *pstate, from, to *ssa.BasicBlock)

// run executes block b from instruction i.
func (x *Engine) run(fr *frame, ps *pstate, b *ssa.BasicBlock, i int, push pushFn) (outs []Outcome) {
	for ; i < len(b.Instrs); i++ {
		if ps.st.dead() {
			return
		}
		x.steps++
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			push(ps, b, b.Succs[0])
			return
		case *ssa.If:
			c := x.term(ps, in.Cond)
			t, f := x.fork(ps, c)
			if t != nil {
				push(t, b, b.Succs[0])
			}
			if f != nil {
				push(f, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			var r Val
			switch len(in.Results) {
			case 0:
			case 1:
				r = x.val(ps, in.Results[0])
			default:
				t := make(Tuple, len(in.Results))
				for i, v := range in.Results {
					t[i] = x.val(ps, v)
				}
				r = t
			}
			return append(outs, Outcome{ps.st, r})
		case *ssa.Panic:
			if x.spec == 0 {
				x.oblige(ps.st, "nopanic", "no-panic: explicit panic", False, in.Pos())
			}
			ps.st.assume(False)
			return
		case *ssa.Go:
			if x.goMode != "run" {
				x.instr(ps, in)
				continue
			}
			x.note("goroutines run as a whole where they are started: %s", x.posStr(in.Pos()))
			res := x.call(ps, &in.Call, in.Pos(), nil)
			if len(res) == 1 {
				ps.st = res[0].st
				continue
			}
			for _, o := range res {
				q := ps.clone()
				q.st = o.st
				outs = append(outs, x.run(fr, q, b, i+1, push)...)
			}
			return
		case *ssa.Call:
			res := x.call(ps, &in.Call, in.Pos(), in)
			if len(res) == 1 {
				ps.st = res[0].st
				ps.env[in] = res[0].res
				continue
			}
			for k, o := range res {
				q := ps
				if k < len(res)-1 {
					q = &pstate{env: make(map[ssa.Value]Val, len(ps.env)), defers: append([]deferred{}, ps.defers...)}
					for a, v := range ps.env {
						q.env[a] = v
					}
				}
				q.st = o.st
				q.env[in] = o.res
				outs = append(outs, x.run(fr, q, b, i+1, push)...)
			}
			return
		case *ssa.RunDefers:
			cur := []Outcome{{ps.st, nil}}
			for d := len(ps.defers) - 1; d >= 0; d-- {
				df := ps.defers[d]
				var next []Outcome
				for _, o := range cur {
					next = append(next, x.callDeferred(o.st, df)...)
				}
				cur = x.mergeOutcomes(next)
			}
			ps.defers = nil
			if len(cur) == 1 {
				ps.st = cur[0].st
				continue
			}
			for _, o := range cur {
				q := ps.clone()
				q.st = o.st
				outs = append(outs, x.run(fr, q, b, i+1, push)...)
			}
			return
		case *ssa.Select:
			for _, q := range x.selectInstr(ps, in) {
				outs = append(outs, x.run(fr, q, b, i+1, push)...)
			}
			return
		case *ssa.Next:
			qs := x.next(ps, in)
			for _, q := range qs {
				outs = append(outs, x.run(fr, q, b, i+1, push)...)
			}
			return
		default:
			x.instr(ps, in)
		}
	}
	return
}

func (x *Engine) feasible(st *State, c *Term) bool {
	if c == False || st.pcset[Not(c)] {
		return false
	}
	if c == True || st.pcset[c] {
		return true
	}
	if x.spec > 0 || c.bound {
		return true
	}
	return !quickUnsat(append(append([]*Term{}, st.pc...), c))
}

func (x *Engine) fork(ps *pstate, c *Term) (t, f *pstate) {
	if condRec != nil && !isBoolLit(c) && x.spec == 0 {
		*condRec = append(*condRec, c)
	}
	if c == True || ps.st.pcset[c] {
		return ps, nil
	}
	if c == False || ps.st.pcset[Not(c)] {
		return nil, ps
	}
	tOK := x.feasible(ps.st, c)
	if !tOK {
		ps.st.assume(Not(c))
		return nil, ps
	}
	if !x.feasible(ps.st, Not(c)) {
		ps.st.assume(c)
		return ps, nil
	}
	f = ps.clone()
	ps.st.assume(c)
	f.st.assume(Not(c))
	return ps, f
}

// splitOn enumerates the leaves of an ite term with the matching states.
func (x *Engine) splitOn(st *State, t *Term, f func(st *State, t *Term) []Outcome) []Outcome {
	if t.Op != "ite" {
		return f(st, t)
	}
	var outs []Outcome
	c := t.Args[0]
	if x.feasible(st, c) {
		s := st.clone()
		s.assume(c)
		outs = append(outs, x.splitOn(s, t.Args[1], f)...)
	}
	if x.feasible(st, Not(c)) {
		s := st.clone()
		s.assume(Not(c))
		outs = append(outs, x.splitOn(s, t.Args[2], f)...)
	}
	return x.mergeOutcomes(outs)
}

// ---------- values ----------

func (x *Engine) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := Int(-int64(10 + len(x.globals)))
	x.globals[g] = t
	return t
}

func (x *Engine) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
			x.fail("uninstantiated %s", tp)
		}
		return x.zero(t)
	}
	switch sortOf(t) {
	case BoolS:
		return Bool(constant.BoolVal(c.Value))
	case IntS:
		v := constant.ToInt(c.Value)
		if v.Kind() != constant.Int {
			x.fail("const %s", c)
		}
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return IntB(b)
	case RealS:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			x.fail("float const %s", c)
		}
		return RealR(r)
	case StrS:
		return StrC(constant.StringVal(c.Value))
	}
	x.fail("const of type %s", t)
	return nil
}

func (x *Engine) val(ps *pstate, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constTerm(v)
	case *ssa.Function:
		return x.fnVal(v)
	case *ssa.Global:
		return x.globalRef(v)
	}
	r, ok := ps.env[v]
	if !ok {
		x.fail("no value for %s in %s", v.Name(), x.curFn())
	}
	return r
}
func (x *Engine) term(ps *pstate, v ssa.Value) *Term {
	r := x.val(ps, v)
	t, ok := r.(*Term)
	if !ok {
		x.fail("value %s is not a term (%T)", v, r)
	}
	return t
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Engine) wrap(st *State, t *Term, ty types.Type) *Term {
	bits, sg, ok := intInfo(ty)
	if !ok || t.S != IntS {
		return t
	}
	lo, hi := intLimits(bits, sg)
	bl, bh := bounds(t, 0)
	if bl != nil && bh != nil && bl.Cmp(lo) >= 0 && bh.Cmp(hi) <= 0 {
		return t
	}
	if t.bound || x.spec > 0 && st == nil {
		return wrapTerm(t, bits, sg)
	}
	in := And(mk("ge0", BoolS, "", nil, Sub(t, IntB(lo))), mk("ge0", BoolS, "", nil, Sub(IntB(hi), t)))
	if quickUnsat(append(append([]*Term{}, st.pc...), Not(in))) {
		return t
	}
	return wrapTerm(t, bits, sg)
}

func wrapTerm(t *Term, bits uint, sg bool) *Term {
	m := new(big.Int).Lsh(bigOne, bits)
	if !sg {
		return EMod(t, IntB(m))
	}
	h := new(big.Int).Lsh(bigOne, bits-1)
	return Sub(EMod(Add(t, IntB(h)), IntB(m)), IntB(h))
}

// truncDiv is Go's division (toward zero).
func truncDiv(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		lo, _ := bounds(a, 0)
		if lo != nil && lo.Sign() >= 0 {
			return EDiv(a, b)
		}
		return Ite(Le(Zero, a), EDiv(a, b), Sub(Zero, EDiv(Sub(Zero, a), b)))
	}
	lo, _ := bounds(a, 0)
	lb, _ := bounds(b, 0)
	if lo != nil && lo.Sign() >= 0 && lb != nil && lb.Sign() >= 0 {
		return EDiv(a, b)
	}
	neg := func(t *Term) *Term { return Sub(Zero, t) }
	return Ite(Le(Zero, a), Ite(Lt(Zero, b), EDiv(a, b), neg(EDiv(a, neg(b)))),
		Ite(Lt(Zero, b), neg(EDiv(neg(a), b)), EDiv(neg(a), neg(b))))
}
func truncMod(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		lo, _ := bounds(a, 0)
		if lo != nil && lo.Sign() >= 0 {
			return EMod(a, b)
		}
	}
	return Sub(a, Mul(truncDiv(a, b), b))
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Engine) equal(a, b *Term) *Term {
	if a.S == IfaceS {
		if a.Op == "ite" {
			return iteMap(a, func(a *Term) *Term { return x.equal(a, b) })
		}
		if b.Op == "ite" {
			return iteMap(b, func(b *Term) *Term { return x.equal(a, b) })
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if Sel(p[0], 0) == Zero {
				return Eq(Sel(p[1], 0), Zero)
			}
		}
		return And(Eq(Sel(a, 0), Sel(b, 0)), Eq(Sel(a, 1), Sel(b, 1)))
	}
	if a.S == SliceS { // only nil comparisons are legal
		if b.Op == "ctor" && b.Args[0] == Zero {
			return Eq(Sel(a, 0), Zero)
		}
		return Eq(Sel(b, 0), Zero)
	}
	return Eq(a, b)
}

func (x *Engine) binop(ps *pstate, in *ssa.BinOp) *Term {
	a, b := x.term(ps, in.X), x.term(ps, in.Y)
	st := ps.st
	t := in.X.Type()
	switch in.Op {
	case token.EQL:
		return x.equal(a, b)
	case token.NEQ:
		return Not(x.equal(a, b))
	}
	if a.S == StrS {
		switch in.Op {
		case token.ADD:
			return StrCat(a, b)
		case token.LSS:
			return strLt(a, b)
		case token.GTR:
			return strLt(b, a)
		case token.LEQ:
			return Not(strLt(b, a))
		case token.GEQ:
			return Not(strLt(a, b))
		}
	}
	switch in.Op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	if a.S == BoolS {
		switch in.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	if a.S == RealS {
		switch in.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			x.note("floating point is modelled as exact real arithmetic; division by zero yields an unspecified value")
			return rbin("/", a, b)
		}
	}
	switch in.Op {
	case token.ADD:
		return x.wrap(st, Add(a, b), t)
	case token.SUB:
		return x.wrap(st, Sub(a, b), t)
	case token.MUL:
		return x.wrap(st, Mul(a, b), t)
	case token.QUO:
		x.nopanic(st, Not(Eq(b, Zero)), "division by zero", in.Pos())
		return x.wrap(st, truncDiv(a, b), t)
	case token.REM:
		x.nopanic(st, Not(Eq(b, Zero)), "division by zero", in.Pos())
		return truncMod(a, b)
	case token.SHL:
		if b.isInt() && b.I.IsInt64() && b.I.Int64() < 64 {
			return x.wrap(st, MulC(a, new(big.Int).Lsh(bigOne, uint(b.I.Int64()))), t)
		}
		r := App("shl", IntS, a, b)
		return x.typed(r, t, st)
	case token.SHR:
		if b.isInt() && b.I.IsInt64() {
			if b.I.Int64() >= 64 {
				lo, _ := bounds(a, 0)
				if lo != nil && lo.Sign() >= 0 {
					return Zero
				}
				return Ite(Lt(a, Zero), Int(-1), Zero)
			}
			return EDiv(a, IntB(new(big.Int).Lsh(bigOne, uint(b.I.Int64()))))
		}
		return x.typed(App("shr", IntS, a, b), t, st)
	case token.AND:
		if r := maskTerm(a, b); r != nil {
			return r
		}
		if r := maskTerm(b, a); r != nil {
			return r
		}
		return x.typed(App("bitand", IntS, a, b), t, st)
	case token.OR:
		return x.typed(App("bitor", IntS, a, b), t, st)
	case token.XOR:
		return x.typed(App("bitxor", IntS, a, b), t, st)
	case token.AND_NOT:
		return x.typed(App("bitandnot", IntS, a, b), t, st)
	}
	x.fail("binop %s", in)
	return nil
}

func maskTerm(a, m *Term) *Term {
	if !m.isInt() || m.I.Sign() < 0 {
		return nil
	}
	if a.isInt() && a.I.Sign() >= 0 {
		return IntB(new(big.Int).And(a.I, m.I))
	}
	p := new(big.Int).Add(m.I, bigOne)
	if p.BitLen()-1 == int(p.TrailingZeroBits()) {
		return EMod(a, IntB(p))
	}
	return nil
}

func strLt(a, b *Term) *Term {
	x, ok1 := strVal[a]
	y, ok2 := strVal[b]
	if ok1 && ok2 {
		return Bool(x < y)
	}
	if a == b {
		return False
	}
	// an injective order embedding of strings into the reals
	return Not(Le(App("str_ord", RealS, b), App("str_ord", RealS, a)))
}

func (x *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	fu, tu := from.Underlying(), to.Underlying()
	_, fsl := fu.(*types.Slice)
	_, tsl := tu.(*types.Slice)
	switch {
	case fs == IntS && ts == IntS:
		if _, ok := tu.(*types.Basic); ok {
			return x.wrap(st, v, to)
		}
		return v
	case fs == IntS && ts == RealS:
		return toReal(v)
	case fs == RealS && ts == IntS:
		r := Ite(Le(RealR(new(big.Rat)), v), toInt(v), Sub(Zero, toInt(Sub(RealR(new(big.Rat)), v))))
		bits, sg, _ := intInfo(to)
		lo, hi := intLimits(bits, sg)
		// out of range conversions are implementation defined
		in := And(mk("ge0", BoolS, "", nil, Sub(r, IntB(lo))), mk("ge0", BoolS, "", nil, Sub(IntB(hi), r)))
		u := App("f2i_out_of_range", IntS, v)
		setRange(u, lo, hi)
		return Ite(in, r, u)
	case fs == ts && !fsl && !tsl:
		return v
	case fs == StrS && tsl:
		eb := tu.(*types.Slice).Elem()
		n := StrLen(v)
		var arr *Term
		if isRune(eb) {
			arr = App("runes_of", ArrS(IntS, IntS), v)
			n = App("rune_count", IntS, v)
			setRange(n, big.NewInt(0), maxInt64)
		} else {
			arr = App("bytes_of", ArrS(IntS, IntS), v)
		}
		if s, ok := strVal[v]; ok && len(s) <= 256 && !isRune(eb) {
			arr = DefArr(IntS, IntS)
			for i := 0; i < len(s); i++ {
				arr = Store(arr, Int(int64(i)), Int(int64(s[i])))
			}
		}
		r := st.alloc()
		k, h := x.elemHeap(st, eb)
		st.recordWrite(k, r)
		st.setHeap(k, Store(h, r, arr))
		return mkSlice(r, Zero, n, n)
	case fsl && ts == StrS:
		eb := fu.(*types.Slice).Elem()
		return x.bytesToStr(x.seqOf(st, v, eb), isRune(eb))
	case fsl && tsl:
		return v
	case fs == IntS && ts == StrS:
		return App("rune_str", StrS, v)
	case fs.Kind == 'd' && ts.Kind == 'd' && len(fs.SelS) == len(ts.SelS):
		as := make([]*Term, len(fs.SelS))
		for i := range as {
			as[i] = x.convert(st, Sel(v, i), structFieldTypes[fs][i], structFieldTypes[ts][i])
		}
		return Ctor(ts, as...)
	}
	x.fail("convert %s to %s", from, to)
	return nil
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// underCond simplifies t knowing the value of c.
func underCond(t, c *Term, v bool) *Term {
	for t.Op == "ite" && t.Args[0] == c {
		if v {
			t = t.Args[1]
		} else {
			t = t.Args[2]
		}
	}
	return t
}

func (x *Engine) bytesToStr(seq *Term, rune bool) *Term {
	if rune {
		return App("str_of_runes", StrS, SeqArr(seq), SeqLen(seq))
	}
	arr, n := SeqArr(seq), SeqLen(seq)
	if arr.Op == "ite" {
		c := arr.Args[0]
		part := func(v bool, a *Term) *Term {
			l := underCond(n, c, v)
			return x.bytesToStr(Ctor(seq.S, l, underCond(a, c, v)), false)
		}
		return Ite(c, part(true, arr.Args[1]), part(false, arr.Args[2]))
	}
	inner := arr
	if arr.Op == "app" && arr.Name == "sq_of" && arr.Args[1] == Zero {
		inner = arr.Args[0]
	}
	if inner.Op == "app" && inner.Name == "bytes_of" && n == StrLen(inner.Args[0]) {
		return inner.Args[0]
	}
	if n == Zero {
		return StrC("")
	}
	if n.isInt() && n.I.IsInt64() && n.I.Int64() <= 512 {
		var bs []byte
		ok := true
		for i := int64(0); i < n.I.Int64(); i++ {
			c := Select(arr, Int(i))
			if !c.isInt() {
				ok = false
				break
			}
			bs = append(bs, byte(c.I.Int64()))
		}
		if ok {
			return StrC(string(bs))
		}
	}
	return App("str_of_bytes", StrS, arr, n)
}

func toReal(v *Term) *Term {
	if v.isInt() {
		return RealR(new(big.Rat).SetInt(v.I))
	}
	return mk("to_real", RealS, "", nil, v)
}
func toInt(v *Term) *Term {
	if v.Op == "to_real" {
		return v.Args[0]
	}
	if r, ok := ratOf(v); ok {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(r.Num(), r.Denom(), m)
		return IntB(q)
	}
	t := mk("to_int", IntS, "", nil, v)
	if v.Op == "r/" && v.Args[0].Op == "to_real" && v.Args[1].Op == "to_real" {
		a, b := v.Args[0].Args[0], v.Args[1].Args[0]
		return Ite(Lt(Zero, b), EDiv(a, b), t)
	}
	return t
}

// ---------- instructions ----------

func (x *Engine) nilCheck(st *State, p *Term, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	ok := nonNil(p)
	if ok == True {
		return
	}
	x.nopanic(st, ok, "nil dereference", pos)
}
func nonNil(p *Term) *Term {
	if p.Op == "ite" {
		return iteMap(p, func(p *Term) *Term { return nonNil(p) })
	}
	if isAddr(p) {
		return True
	}
	if p.isInt() {
		return Bool(p.I.Sign() != 0)
	}
	return Not(Eq(p, Zero))
}

func (x *Engine) instr(ps *pstate, in ssa.Instruction) {
	st := ps.st
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		r := st.alloc()
		x.store(st, r, t, x.zero(t))
		ps.env[in] = r
	case *ssa.BinOp:
		// comparisons with nil interfaces, etc. are handled in equal
		ps.env[in] = x.binop(ps, in)
	case *ssa.UnOp:
		ps.env[in] = x.unop(ps, in)
	case *ssa.ChangeInterface:
		ps.env[in] = x.val(ps, in.X)
	case *ssa.ChangeType:
		v := x.val(ps, in.X)
		if t, ok := v.(*Term); ok && t.S != sortOf(in.Type()) {
			v = x.convert(st, t, in.X.Type(), in.Type())
		}
		ps.env[in] = v
	case *ssa.Convert:
		ps.env[in] = x.convert(st, x.term(ps, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		ps.env[in] = x.convert(st, x.term(ps, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t, ok := x.val(ps, in.Tuple).(Tuple)
		if !ok {
			x.fail("extract from %T", x.val(ps, in.Tuple))
		}
		ps.env[in] = t[in.Index]
	case *ssa.Field:
		v := x.term(ps, in.X)
		ps.env[in] = x.typed(Sel(v, in.Field), in.Type(), st)
	case *ssa.FieldAddr:
		p := x.term(ps, in.X)
		x.nilCheck(st, p, in.Pos())
		ps.env[in] = x.fieldAddr(p, deref(in.X.Type()), in.Field)
	case *ssa.Index:
		v, i := x.term(ps, in.X), x.term(ps, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.nopanic(st, And(Le(Zero, i), Lt(i, Int(u.Len()))), "index out of range", in.Pos())
			ps.env[in] = x.typed(Select(v, i), in.Type(), st)
		case *types.Basic:
			x.nopanic(st, And(Le(Zero, i), Lt(i, StrLen(v))), "index out of range", in.Pos())
			ps.env[in] = strAt(v, i)
		default:
			x.fail("index %s", in)
		}
	case *ssa.IndexAddr:
		v, i := x.term(ps, in.X), x.term(ps, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.nopanic(st, And(Le(Zero, i), Lt(i, Sel(v, 2))), "index out of range", in.Pos())
			ps.env[in] = x.sliceElemAddr(v, i, u.Elem())
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			x.nilCheck(st, v, in.Pos())
			x.nopanic(st, And(Le(Zero, i), Lt(i, Int(a.Len()))), "index out of range", in.Pos())
			ps.env[in] = x.elemAddr(v, i, a.Elem())
		default:
			x.fail("indexaddr %s", in)
		}
	case *ssa.Lookup:
		switch u := in.X.Type().Underlying().(type) {
		case *types.Map:
			m, k := x.term(ps, in.X), x.term(ps, in.Index)
			v := x.mapGet(st, m, k, u)
			if in.CommaOk {
				ps.env[in] = Tuple{v, x.mapHas(st, m, k, u)}
			} else {
				ps.env[in] = v
			}
		case *types.Basic:
			v, i := x.term(ps, in.X), x.term(ps, in.Index)
			x.nopanic(st, And(Le(Zero, i), Lt(i, StrLen(v))), "index out of range", in.Pos())
			ps.env[in] = strAt(v, i)
		}
	case *ssa.MakeChan:
		r := st.alloc()
		k := "CH:closed"
		st.recordWrite(k, r)
		st.setHeap(k, Store(st.heap(k, ArrS(IntS, BoolS)), r, False))
		ps.env[in] = r
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, x.val(ps, b))
		}
		ps.env[in] = x.newClosure(c)
	case *ssa.MakeInterface:
		ps.env[in] = x.mkIface(x.term(ps, in.X), in.X.Type())
	case *ssa.MakeMap:
		ps.env[in] = x.newMap(st, in.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		e := in.Type().Underlying().(*types.Slice).Elem()
		l, c := x.term(ps, in.Len), x.term(ps, in.Cap)
		x.nopanic(st, And(Le(Zero, l), Le(l, c)), "makeslice: len out of range", in.Pos())
		r := st.alloc()
		k, h := x.elemHeap(st, e)
		st.recordWrite(k, r)
		st.setHeap(k, Store(h, r, ConstArr(ArrS(IntS, sortOf(e)), x.zero(e))))
		ps.env[in] = mkSlice(r, Zero, l, c)
	case *ssa.MapUpdate:
		m, k, v := x.term(ps, in.Map), x.term(ps, in.Key), x.term(ps, in.Value)
		x.nopanic(st, nonNil(m), "assignment to entry in nil map", in.Pos())
		x.mapSet(st, m, k, v, in.Map.Type().Underlying().(*types.Map))
	case *ssa.Store:
		p := x.term(ps, in.Addr)
		x.nilCheck(st, p, in.Pos())
		x.store(st, p, deref(in.Addr.Type()), x.term(ps, in.Val))
	case *ssa.Slice:
		ps.env[in] = x.slice(ps, in)
	case *ssa.SliceToArrayPointer:
		x.fail("slice to array pointer")
	case *ssa.TypeAssert:
		ps.env[in] = x.typeAssert(ps, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call, pos: in.Pos()}
		if in.Call.IsInvoke() {
			d.fn = x.val(ps, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(ps, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(ps, a))
		}
		ps.defers = append(ps.defers, d)
	case *ssa.Go:
		switch x.goMode {
		case "skip":
			x.note("goroutines started by the verified code are not followed: %s", x.posStr(in.Pos()))
		default:
			x.fail("go statement at %s", x.posStr(in.Pos()))
		}
	case *ssa.Range:
		switch u := in.X.Type().Underlying().(type) {
		case *types.Map:
			m := x.term(ps, in.X)
			x.nclos++
			it := &mapIter{key: fmt.Sprintf("IT:%d", x.nclos), m: m, mt: u, id: x.nclos}
			it.dom0 = x.mapDom(st, m, u)
			if !m.isInt() && m.Op != "ite" {
				it.dom0 = Ite(Eq(m, Zero), DefArr(sortOf(u.Key()), BoolS), it.dom0)
			}
			st.setHeap(it.key, DefArr(sortOf(u.Key()), BoolS))
			heapSort[it.key] = ArrS(sortOf(u.Key()), BoolS)
			st.recordWrite(it.key, Zero)
			ps.env[in] = it
		default:
			x.fail("range over %s", u)
		}
	case *ssa.Send:
		c := x.term(ps, in.Chan)
		ct := in.Chan.Type().Underlying().(*types.Chan)
		x.chanSend(st, c, x.term(ps, in.X), ct.Elem())
	default:
		x.fail("instruction %T at %s", in, x.posStr(in.Pos()))
	}
}

func (x *Engine) chanKey(e types.Type) (string, *Sort) {
	return "CHS:" + tkey(e), ArrS(IntS, SeqSort(sortOf(e)))
}
func (x *Engine) chanSend(st *State, c, v *Term, e types.Type) {
	k, s := x.chanKey(e)
	h := st.heap(k, s)
	st.recordWrite(k, c)
	st.setHeap(k, Store(h, c, SeqAppend(Select(h, c), v)))
}

func strAt(s, i *Term) *Term {
	if v, ok := strVal[s]; ok && i.isInt() && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(v)) {
		return Int(int64(v[i.I.Int64()]))
	}
	r := Select(App("bytes_of", ArrS(IntS, IntS), s), i)
	setRange(r, big.NewInt(0), big.NewInt(255))
	return r
}

func (x *Engine) sliceElemAddr(v, i *Term, e types.Type) *Term {
	if v.Op == "ite" {
		return iteMap(v, func(v *Term) *Term { return x.sliceElemAddr(v, i, e) })
	}
	b, o, _, _ := sliceParts(v)
	return x.elemAddr(b, Add(o, i), e)
}

func (x *Engine) unop(ps *pstate, in *ssa.UnOp) Val {
	st := ps.st
	switch in.Op {
	case token.MUL:
		p := x.term(ps, in.X)
		if g, ok := in.X.(*ssa.Global); ok {
			if v := x.globalValue(st, g); v != nil {
				return v
			}
		}
		x.nilCheck(st, p, in.Pos())
		return x.load(st, p, deref(in.X.Type()))
	case token.NOT:
		return Not(x.term(ps, in.X))
	case token.SUB:
		a := x.term(ps, in.X)
		if a.S == RealS {
			return Sub(RealR(new(big.Rat)), a)
		}
		return x.wrap(st, Sub(Zero, a), in.Type())
	case token.XOR:
		a := x.term(ps, in.X)
		_, sg, _ := intInfo(in.Type())
		if sg {
			return Sub(Int(-1), a)
		}
		_, hi := intLimits(func() (uint, bool) { b, s, _ := intInfo(in.Type()); return b, s }())
		return Sub(IntB(hi), a)
	case token.ARROW:
		c := x.term(ps, in.X)
		e := in.X.Type().Underlying().(*types.Chan).Elem()
		v, ok := x.recv(st, c, e)
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	x.fail("unop %s", in)
	return nil
}

// recv models a receive that completes: a closed channel yields zero, an open one an arbitrary value.
func (x *Engine) recv(st *State, c *Term, e types.Type) (*Term, *Term) {
	closed := Select(st.heap("CH:closed", ArrS(IntS, BoolS)), c)
	if st2, ok := e.Underlying().(*types.Struct); ok && st2.NumFields() == 0 {
		st.assume(closed)
		return x.zero(e), False
	}
	v := x.fresh("recv", e, st)
	return Ite(closed, x.zero(e), v), Not(closed)
}

func (x *Engine) selectInstr(ps *pstate, in *ssa.Select) []*pstate {
	var out []*pstate
	n := len(in.States)
	ready := make([]*Term, n)
	pick := Fresh("select", IntS)
	for i, s := range in.States {
		c := x.term(ps, s.Chan)
		e := s.Chan.Type().Underlying().(*types.Chan).Elem()
		closed := Select(ps.st.heap("CH:closed", ArrS(IntS, BoolS)), c)
		if s.Dir == types.RecvOnly {
			if st2, ok := e.Underlying().(*types.Struct); ok && st2.NumFields() == 0 {
				ready[i] = And(Not(Eq(c, Zero)), closed)
			} else {
				ready[i] = And(Not(Eq(c, Zero)), Or(closed, Fresh("ready", BoolS)))
			}
		} else {
			ready[i] = And(Not(Eq(c, Zero)), Fresh("ready", BoolS))
		}
	}
	mkRes := func(q *pstate, idx int) *pstate {
		tup := Tuple{Int(int64(idx)), False}
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				if i == idx {
					x.chanSend(q.st, x.term(q, s.Chan), x.term(q, s.Send), s.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				continue
			}
			e := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				v, ok := x.recv(q.st, x.term(q, s.Chan), e)
				tup[1] = ok
				tup = append(tup, v)
			} else {
				tup = append(tup, x.zero(e))
			}
		}
		q.env[in] = tup
		return q
	}
	for i := 0; i < n; i++ {
		c := And(ready[i], Eq(pick, Int(int64(i))))
		if !x.feasible(ps.st, c) {
			continue
		}
		q := ps.clone()
		q.st.assume(c)
		out = append(out, mkRes(q, i))
	}
	if !in.Blocking {
		var nr []*Term
		for _, r := range ready {
			nr = append(nr, Not(r))
		}
		nr = append(nr, Eq(pick, Int(-1)))
		c := And(nr...)
		if x.feasible(ps.st, c) {
			q := ps.clone()
			q.st.assume(c)
			out = append(out, mkRes(q, -1))
		}
	}
	return out
}

func (x *Engine) next(ps *pstate, in *ssa.Next) []*pstate {
	it, ok := x.val(ps, in.Iter).(*mapIter)
	if !ok {
		x.fail("next on %T", x.val(ps, in.Iter))
	}
	st := ps.st
	ks := sortOf(it.mt.Key())
	vis := st.heap(it.key, ArrS(ks, BoolS))
	dom := x.mapDom(st, it.m, it.mt)
	if !it.m.isInt() && it.m.Op != "ite" {
		dom = Ite(Eq(it.m, Zero), DefArr(ks, BoolS), dom)
	}
	k := x.fresh("key", it.mt.Key(), st)
	if keys, ok := concreteDom(dom); ok && dom == it.dom0 {
		// concrete domain: iterate in a fixed but arbitrary-looking order (contracts may not depend on it)
		for _, kk := range keys {
			if Select(vis, kk) == False {
				st.recordWrite(it.key, Zero)
				st.setHeap(it.key, Store(vis, kk, True))
				ps.env[in] = Tuple{True, kk, x.typed(Select(x.mapVal(st, it.m, it.mt), kk), it.mt.Elem(), st)}
				if len(keys) > 1 {
					x.note("a map with literally known keys is iterated in one fixed order")
				}
				return []*pstate{ps}
			}
		}
		ps.env[in] = Tuple{False, x.zero(it.mt.Key()), x.zero(it.mt.Elem())}
		return []*pstate{ps}
	}
	var out []*pstate
	// more
	q := ps.clone()
	q.st.assume(Select(dom, k))
	q.st.assume(Not(Select(vis, k)))
	if x.feasible(q.st, True) && !q.st.dead() && !quickUnsat(q.st.pc) {
		q.st.recordWrite(it.key, Zero)
		q.st.setHeap(it.key, Store(vis, k, True))
		q.env[in] = Tuple{True, k, x.typed(Select(x.mapVal(q.st, it.m, it.mt), k), it.mt.Elem(), q.st)}
		out = append(out, q)
	}
	// done: everything that was there from the start and still is was visited
	b := BVar("k", ks)
	pats := []*Term{Select(vis, b)}
	if p := Select(dom, b); p.Op == "select" {
		pats = append(pats, p)
	}
	var okp []*Term
	for _, p := range pats {
		if p.Op == "select" {
			okp = append(okp, p)
		}
	}
	done := Forall([]*Term{b}, Implies(And(Select(dom, b), Select(it.dom0, b)), Select(vis, b)), okp...)
	st.assume(done)
	if !st.dead() && !quickUnsat(st.pc) {
		ps.env[in] = Tuple{False, x.zero(it.mt.Key()), x.zero(it.mt.Elem())}
		out = append(out, ps)
	}
	return out
}

// concreteDom lists the keys of a domain built only from stores at pairwise distinct keys.
func concreteDom(d *Term) ([]*Term, bool) {
	var ks []*Term
	seen := map[*Term]bool{}
	for d.Op == "store" {
		k := d.Args[1]
		for o := range seen {
			if o != k && !distinct(o, k) {
				return nil, false
			}
		}
		if !seen[k] {
			seen[k] = true
			if d.Args[2] == True {
				ks = append(ks, k)
			} else if d.Args[2] != False {
				return nil, false
			}
		}
		d = d.Args[0]
	}
	if !isDefArr(d) {
		return nil, false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks, true
}

func (x *Engine) slice(ps *pstate, in *ssa.Slice) *Term {
	st := ps.st
	v := x.term(ps, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.term(ps, in.Low)
	} else {
		lo = Zero
	}
	if in.High != nil {
		hi = x.term(ps, in.High)
	}
	if in.Max != nil {
		mx = x.term(ps, in.Max)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := StrLen(v)
		if hi == nil {
			hi = n
		}
		x.nopanic(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", in.Pos())
		return subStr(v, lo, hi)
	case *types.Pointer: // array
		a := u.Elem().Underlying().(*types.Array)
		n := Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.nilCheck(st, v, in.Pos())
		x.nopanic(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds out of range", in.Pos())
		if isAddr(v) {
			x.fail("slicing an embedded array")
		}
		return mkSlice(v, lo, Sub(hi, lo), Sub(mx, lo))
	case *types.Slice:
		b, o, l, c := sliceParts(v)
		if hi == nil {
			hi = l
		}
		if mx == nil {
			mx = c
		}
		x.nopanic(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, c)), "slice bounds out of range", in.Pos())
		return mkSlice(b, Add(o, lo), Sub(hi, lo), Sub(mx, lo))
	}
	x.fail("slice of %s", in.X.Type())
	return nil
}

func subStr(s, lo, hi *Term) *Term {
	if v, ok := strVal[s]; ok && lo.isInt() && hi.isInt() {
		l, h := lo.I.Int64(), hi.I.Int64()
		if l >= 0 && l <= h && h <= int64(len(v)) {
			return StrC(v[l:h])
		}
	}
	if lo == Zero && hi == StrLen(s) {
		return s
	}
	if lo == hi {
		return StrC("")
	}
	// prefix of a concatenation
	if s.Op == "app" && s.Name == "str_cat" {
		off := Zero
		for i, p := range s.Args {
			if off == lo && hi == StrLen(s) {
				return StrCat(s.Args[i:]...)
			}
			off = Add(off, StrLen(p))
			if lo == Zero && off == hi {
				return StrCat(s.Args[:i+1]...)
			}
		}
	}
	return App("str_sub", StrS, s, lo, hi)
}

func (x *Engine) typeAssert(ps *pstate, in *ssa.TypeAssert) Val {
	st := ps.st
	v := x.term(ps, in.X)
	tag := Sel(v, 0)
	to := in.AssertedType
	var ok, val *Term
	if types.IsInterface(to) {
		ok = x.implements(tag, to)
		val = v
	} else {
		ok = Eq(tag, x.tagOf(to))
		if ok == False {
			val = x.zero(to)
		} else {
			val = x.unbox(Sel(v, 1), to, st)
		}
	}
	if in.CommaOk {
		return Tuple{Ite(ok, val, x.zero(to)), ok}
	}
	x.nopanic(st, ok, "type assertion", in.Pos())
	return val
}

func (x *Engine) implements(tag *Term, to types.Type) *Term {
	if tag.Op == "ite" {
		return iteMap(tag, func(tag *Term) *Term { return x.implements(tag, to) })
	}
	if tag == Zero {
		return False
	}
	it := to.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Not(Eq(tag, Zero))
	}
	if t := x.tagType(tag); t != nil {
		return Bool(types.Implements(t, it))
	}
	return And(Not(Eq(tag, Zero)), App("implements:"+tkey(to), BoolS, tag))
}

// ---------- calls ----------

func (x *Engine) callDeferred(st *State, d deferred) []Outcome {
	if b, ok := d.call.Value.(*ssa.Builtin); ok && !d.call.IsInvoke() {
		v := x.builtin(st, b.Name(), d.args, d.call, d.pos)
		return []Outcome{{st, v}}
	}
	if d.call.IsInvoke() {
		return x.invoke(st, d.fn.(*Term), d.call.Method, d.args, d.call.Value.Type(), d.pos)
	}
	return x.callValue(st, d.fn.(*Term), d.args, d.call.Signature(), d.pos)
}

func (x *Engine) call(ps *pstate, c *ssa.CallCommon, pos token.Pos, in ssa.Value) []Outcome {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = x.val(ps, a)
	}
	if c.IsInvoke() {
		return x.invoke(ps.st, x.term(ps, c.Value), c.Method, args, c.Value.Type(), pos)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		v := x.builtin(ps.st, f.Name(), args, c, pos)
		return []Outcome{{ps.st, v}}
	case *ssa.Function:
		return x.callFn(ps.st, f, args, nil, pos)
	}
	return x.callValue(ps.st, x.term(ps, c.Value), args, c.Signature(), pos)
}

// pushSel moves a choice of address out of a read, so that the values read show up.
func pushSel(t *Term) *Term {
	if t.Op != "select" {
		return t
	}
	return iteMap(t.Args[1], func(i *Term) *Term {
		return iteMap(pushSel(t.Args[0]), func(a *Term) *Term { return Select(a, i) })
	})
}

func (x *Engine) callValue(st *State, f *Term, args []Val, sig *types.Signature, pos token.Pos) []Outcome {
	f = pushSel(f)
	return x.splitOn(st, f, func(st *State, f *Term) []Outcome {
		if f == Zero {
			x.nopanic(st, False, "call of nil function", pos)
			return nil
		}
		c, ok := x.clos[f]
		if !ok {
			// one of the closures created so far?
			x.fail("call of unknown function value %s at %s", f.Str(), x.posStr(pos))
		}
		as := args
		if st.mods != nil || true {
			as = append([]Val{}, args...)
		}
		if c.native != nil {
			return c.native(x, st, as)
		}
		if c.method != nil {
			return x.invoke(st, c.recv, c.method, as, nil, pos)
		}
		return x.callFn(st, c.fn, as, c.bind, pos)
	})
}

func (x *Engine) invoke(st *State, recv *Term, m *types.Func, args []Val, it types.Type, pos token.Pos) []Outcome {
	return x.splitIface(st, recv, func(st *State, r *Term) []Outcome {
		tag := Sel(r, 0)
		if tag == Zero {
			x.nopanic(st, False, "nil interface method call "+m.Name(), pos)
			return nil
		}
		x.nopanic(st, Not(Eq(tag, Zero)), "nil interface method call "+m.Name(), pos)
		if out, ok := x.invokeLib(st, r, m, args, pos); ok {
			return out
		}
		t := x.tagType(tag)
		if t == nil {
			// ask the solver for a unique candidate
			for i, ct := range x.tags.types {
				_ = i
				if it != nil && !types.Implements(ct, it.Underlying().(*types.Interface)) {
					continue
				}
				if quickUnsat(append(append([]*Term{}, st.pc...), Not(Eq(tag, x.tagOf(ct))))) {
					t = ct
					break
				}
			}
		}
		if t == nil {
			x.fail("method %s on an interface value of unknown dynamic type at %s: %s", m.FullName(), x.posStr(pos), r.Str())
		}
		return x.callMethod(st, t, r, m, args, pos)
	})
}

func (x *Engine) callMethod(st *State, t types.Type, r *Term, m *types.Func, args []Val, pos token.Pos) []Outcome {
	fn := x.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		x.fail("no method %s on %s", m.Name(), t)
	}
	v := x.unbox(Sel(r, 1), t, st)
	return x.callFn(st, fn, append([]Val{v}, args...), nil, pos)
}

func (x *Engine) splitIface(st *State, r *Term, f func(st *State, r *Term) []Outcome) []Outcome {
	if r.Op == "ite" {
		return x.splitOn(st, r, func(st *State, q *Term) []Outcome { return x.splitIface(st, q, f) })
	}
	tag := Sel(r, 0)
	if tag.Op == "ite" {
		return x.splitOn(st, tag, func(st *State, tg *Term) []Outcome {
			pay := Sel(r, 1)
			// resolve the payload under the chosen tag
			pay = underPC(pay, st)
			return f(st, Ctor(IfaceS, tg, pay))
		})
	}
	return f(st, r)
}

// underPC simplifies the top ites of t with literals known in the path condition.
func underPC(t *Term, st *State) *Term {
	for t.Op == "ite" {
		if st.pcset[t.Args[0]] {
			t = t.Args[1]
		} else if st.pcset[Not(t.Args[0])] {
			t = t.Args[2]
		} else {
			break
		}
	}
	return t
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// recursion: calls of a function from within it follow its summary.
type recursion struct {
	sum *Term
	in  bool
}

func (x *Engine) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	if r, ok := x.replace[fn]; ok && x.spec == 0 {
		// inside its summary the function means itself
		c := x.clos[r]
		delete(x.replace, fn)
		defer func() { x.replace[fn] = r }()
		return x.callClosure(st, c, args, pos)
	}
	if r, ok := x.recur[fn]; ok && x.spec == 0 {
		if r.in {
			return x.callClosure(st, x.clos[r.sum], args, pos)
		}
		r.in = true
		defer func() { r.in = false }()
	}
	name := origin(fn).String()
	if in, ok := intrinsics[name]; ok {
		return in(&callCtx{x: x, st: st, fn: fn, args: args, pos: pos})
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == specPath || origin(fn).Pkg != nil && origin(fn).Pkg.Pkg.Path() == specPath {
		return x.specCall(&callCtx{x: x, st: st, fn: fn, args: args, pos: pos})
	}
	if m, ok := x.models[name]; ok {
		x.trusted[name] = true
		return x.execFunc(st, m, args, nil)
	}
	if x.isSpecRec(fn) {
		return []Outcome{{st, x.specApp(st, fn, args)}}
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		x.buildOnDemand(fn)
	}
	if len(fn.Blocks) == 0 || x.opaquePkg(fn) {
		return x.external(&callCtx{x: x, st: st, fn: fn, args: args, pos: pos})
	}
	return x.execFunc(st, fn, args, bind)
}

func (x *Engine) callClosure(st *State, c *closure, args []Val, pos token.Pos) []Outcome {
	if c.native != nil {
		return c.native(x, st, args)
	}
	return x.execFunc(st, c.fn, args, c.bind)
}

// pureEval evaluates a closure without side effects and merges all outcomes into one value.
func (x *Engine) pureEval(st *State, f *Term, args ...Val) *Term {
	return x.pureEvalV(st, f, args...).(*Term)
}
func (x *Engine) pureEvalV(st *State, f *Term, args ...Val) Val {
	x.spec++
	defer func() { x.spec-- }()
	st.noteHeaps()
	s := st.clone()
	s.mods = nil
	s.pc, s.pcset = nil, map[*Term]bool{}
	c, ok := x.clos[f]
	if !ok {
		x.fail("pure evaluation of unknown function %s", f.Str())
	}
	outs := x.callFn(s, c.fn, args, c.bind, token.NoPos)
	return x.mergePure(outs)
}
func (x *Engine) mergePure(outs []Outcome) Val {
	if len(outs) == 0 {
		x.fail("pure evaluation has no outcome")
	}
	r := outs[0].res
	for _, o := range outs[1:] {
		v, ok := mergeVal(And(o.st.pc...), o.res, r)
		if !ok {
			x.fail("pure evaluation: outcomes cannot be merged")
		}
		r = v
	}
	return r
}

// ---------- recursive specification functions ----------

type specFn struct {
	fn    *ssa.Function
	reads []string
}

func (x *Engine) isSpecRec(fn *ssa.Function) bool {
	if !strings.HasPrefix(fn.Name(), "spec") || fn.Parent() != nil || !x.inContractFile(fn) || fn.Signature.Recv() != nil {
		return false
	}
	if _, ok := x.specFns["spec:"+fn.String()]; ok {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f == fn {
					x.regSpec(fn)
					return true
				}
			}
		}
	}
	return false
}

func (x *Engine) regSpec(fn *ssa.Function) {
	sf := &specFn{fn: fn}
	x.specFns["spec:"+fn.String()] = sf
	// find the heaps it reads by evaluating the body once over arbitrary arguments
	st := x.blankState()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, Fresh("sp", sortOf(p.Type())))
	}
	savedLog := readLog
	readLog = map[string]bool{}
	x.spec++
	x.execFunc(st, fn, args, nil)
	x.spec--
	var rd []string
	for k := range readLog {
		rd = append(rd, k)
	}
	readLog = savedLog
	sort.Strings(rd)
	sf.reads = rd
}

func (x *Engine) blankState() *State {
	b := Const("A0", IntS)
	if _, ok := allocBases[b]; !ok {
		allocBases[b] = allocInfo{}
	}
	return &State{heaps: map[string]*Term{}, pcset: map[*Term]bool{}, base: b}
}

func (x *Engine) specApp(st *State, fn *ssa.Function, args []Val) *Term {
	sf := x.specFns["spec:"+fn.String()]
	var as []*Term
	for _, a := range args {
		as = append(as, a.(*Term))
	}
	for _, k := range sf.reads {
		as = append(as, st.heap(k, heapSort[k]))
	}
	rt := fn.Signature.Results().At(0).Type()
	// concrete unfolding when the first step is literal is left to the solver facts
	t := App("spec:"+fn.String(), sortOf(rt), as...)
	if !t.bound {
		x.typed(t, rt, nil)
	}
	return t
}

func (x *Engine) unfold(t *Term) *Term {
	sf := x.specFns[t.Name]
	if sf == nil {
		return nil
	}
	st := x.blankState()
	n := len(sf.fn.Params)
	var args []Val
	for i := 0; i < n; i++ {
		args = append(args, t.Args[i])
	}
	for i, k := range sf.reads {
		st.heaps[k] = t.Args[n+i]
	}
	x.spec++
	defer func() { x.spec-- }()
	return x.mergePure(x.execFunc(st, sf.fn, args, nil)).(*Term)
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
