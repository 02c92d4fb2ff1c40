package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEngine() *Engine {
	return &Engine{
		tags: typeTab{ids: map[string]int64{}}, clos: map[*Term]*closure{}, fnIDs: map[*ssa.Function]*Term{},
		globals: map[*ssa.Global]*Term{}, replace: map[*ssa.Function]*Term{}, notes: map[string]bool{}, under: map[string]bool{},
		trusted: map[string]bool{}, invUsed: map[string]bool{}, loopMemo: map[*ssa.Function]*loopNest{}, specFns: map[string]*specFn{},
	}
}

type contractResult struct {
	c     *Contract
	obls  []*Obl
	err   string
	execS float64
}

func (x *Engine) runContract(c *Contract) (res *contractResult) {
	res = &contractResult{c: c}
	start := time.Now()
	x.obls, x.invs, x.replace, x.goMode, x.stack, x.depth, x.spec, x.dry = nil, nil, map[*ssa.Function]*Term{}, "", nil, 0, 0, 0
	x.recur = map[*ssa.Function]*recursion{}
	condRec = nil
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				loc := ""
				if len(x.stack) > 0 {
					loc = " [in " + fnName(x.stack[len(x.stack)-1]) + "]"
				}
				res.err = u.msg + loc
			} else {
				res.err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
		res.obls = x.obls
		res.execS = time.Since(start).Seconds()
	}()
	st := x.blankState()
	for _, p := range sortedKeys(x.pkgs) {
		if strings.HasPrefix(p, modPath) || strings.Contains(p, "/blang/semver") {
			x.initGlobals(st, x.pkgs[p])
		}
	}
	// the objects created by initialisers precede the parameters
	st.mods = nil
	var args []Val
	for _, p := range c.Fn.Params {
		args = append(args, x.fresh(p.Name(), p.Type(), st))
	}
	outs := x.execFunc(st, c.Fn, args, nil)
	var goals []*Term
	for _, o := range outs {
		goals = append(goals, And(o.st.pc...))
	}
	goals = append(goals, x.exits...)
	x.obls = append(x.obls, &Obl{Label: "cover: contract terminates on some input", Kind: "cover", Goal: Not(Or(goals...))})
	return
}

// discharge solves all obligations of a contract.
func (x *Engine) discharge(obls []*Obl, ms int) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for _, o := range obls {
		o := o
		wg.Add(1)
		lim <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-lim }()
			if o.Kind == "cover" {
				// must not be refutable
				o.Res = checkUnsat(append(append([]*Term{}, o.PC...), Not(o.Goal)), 3000, false)
				return
			}
			// conjunct by conjunct
			gs := flat("and", []*Term{o.Goal}, nil)
			tot := result{res: "unsat", solver: "simplifier"}
			for _, g := range gs {
				r := prove(o.PC, g, ms, true)
				tot.ms += r.ms
				if r.solver != "simplifier" {
					tot.solver = r.solver
				}
				if r.res != "unsat" {
					tot.res, tot.script = r.res, r.script
					break
				}
			}
			o.Res = tot
		}()
	}
	wg.Wait()
}

func (o *Obl) ok() bool {
	if o.Kind == "cover" {
		return o.Res.res != "unsat"
	}
	return o.Res.res == "unsat"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|verify|native ID [contract]")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "verify":
		name := ""
		if len(os.Args) > 3 {
			name = os.Args[3]
		}
		rc := verify(os.Args[2], name)
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4])
		os.Exit(0)
	case "native":
		os.Exit(nativeCmd(os.Args[2], os.Args[3:]))
	}
	os.Exit(2)
}

func verify(prop, name string) int {
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	x := newEngine()
	unfoldSpec = x.unfold
	t0 := time.Now()
	cs, err := x.loadProgram(prop, tmp)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		return 1
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	rc := 0
	for _, c := range cs {
		if name != "" && !strings.Contains(c.Name, name) {
			continue
		}
		r := x.runContract(c)
		ms := 20000
		if v := os.Getenv("VERIF_MS"); v != "" {
			ms, _ = strconv.Atoi(v)
		}
		t1 := time.Now()
		x.discharge(r.obls, ms)
		fmt.Printf("== %s: %d obligations, exec %.1fs, solve %.1fs\n", c.Name, len(r.obls), r.execS, time.Since(t1).Seconds())
		if r.err != "" {
			fmt.Println("  UNSUPPORTED:", r.err)
			rc = 1
		}
		seen := map[string]int{}
		for i, o := range r.obls {
			seen[o.Label]++
			if !o.ok() {
				rc = 1
				fmt.Printf("  FAIL %s (%s) at %s in %s: %s by %s\n", o.Label, o.Kind, o.Pos, o.Fn, o.Res.res, o.Res.solver)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println("     goal:", o.Goal.Str())
					f := fmt.Sprintf("/tmp/vc_%s_%d.smt2", c.Name, i)
					os.WriteFile(f, []byte(solvers[0].head+o.Res.script+"(check-sat)\n"), 0644)
					fmt.Println("     script:", f)
					for _, p := range o.PC {
						fmt.Println("       pc:", p.Str())
					}
				}
			}
		}
		for _, l := range sortedKeys(seen) {
			fmt.Printf("   %3d × %s\n", seen[l], l)
		}
	}
	fmt.Println("functions:", strings.Join(sortedKeys(x.under), " "))
	fmt.Println("trusted:", strings.Join(sortedKeys(x.trusted), " "))
	fmt.Println("notes:", strings.Join(sortedKeys(x.notes), "; "))
	fmt.Println("invariants used:", strings.Join(sortedKeys(x.invUsed), " "), "loops:", x.loopsN)
	fmt.Printf("queries %d, total %.1fs\n", totalQueries, time.Since(t0).Seconds())
	return rc
}
