package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type oblOut struct {
	Label, Kind, Pos, Fn, Res, Solver string
	Ms                                int64
	Goal                              string
	Script                            string
	PC                                []string
}

type contractOut struct {
	Name, Pkg, File, Err string
	ExecS, SolveS        float64
	Obls                 []oblOut
	Vacuous              []string
}

type workerOut struct {
	LoadErr   string
	Contracts []contractOut
	All       []string // the contracts of the property, of which every n-th is verified here
	Under     []string
	Trusted   []string
	Notes     []string
	Invs      []string
	Bounded   []string
	Loops     int
	Queries   int64
	Solvers   map[string][2]int64 // queries, milliseconds
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// worker verifies the contracts i ≡ k (mod n) of a property and writes its findings.
func worker(prop, shard, out string) {
	var k, n int
	fmt.Sscanf(shard, "%d/%d", &k, &n)
	var w workerOut
	write := func() {
		b, _ := json.Marshal(w)
		os.WriteFile(out+".tmp", b, 0644)
		os.Rename(out+".tmp", out)
	}
	tmp, err := os.MkdirTemp("", "verifw")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	x := newEngine()
	unfoldSpec = x.unfold
	cs, err := x.loadProgram(prop, tmp)
	if err != nil {
		w.LoadErr = err.Error()
		write()
		return
	}
	for _, c := range cs {
		w.All = append(w.All, c.Pkg+"."+c.Name)
	}
	ms := envInt("VERIF_MS", 20000)
	if os.Getenv("VERIF_TIER") == "thorough" {
		ms *= 3
	}
	for i, c := range cs {
		if i%n != k {
			continue
		}
		r := x.runContract(c)
		t1 := time.Now()
		x.discharge(r.obls, ms)
		co := contractOut{Name: c.Name, Pkg: c.Pkg, File: c.File, Err: r.err, ExecS: r.execS}
		for _, o := range r.obls {
			oo := oblOut{Label: o.Label, Kind: o.Kind, Pos: o.Pos, Fn: o.Fn, Res: o.Res.res, Solver: o.Res.solver, Ms: o.Res.ms}
			if o.Kind == "cover" {
				if o.ok() {
					oo.Res = "reachable"
				} else {
					oo.Res = "unreachable"
				}
			}
			if !o.ok() {
				oo.Goal = o.Goal.Str()
				oo.Script = o.Res.script
				for _, p := range o.PC {
					oo.PC = append(oo.PC, p.Str())
				}
			}
			co.Obls = append(co.Obls, oo)
		}
		if r.err == "" {
			co.Vacuous = vacuous(r.obls)
		}
		co.SolveS = time.Since(t1).Seconds()
		w.Contracts = append(w.Contracts, co)
		w.Under, w.Trusted, w.Notes, w.Invs = sortedKeys(x.under), sortedKeys(x.trusted), sortedKeys(x.notes), sortedKeys(x.invUsed)
		w.Loops, w.Queries = x.loopsN, totalQueries
		w.Solvers = map[string][2]int64{}
		for n, s := range stats {
			w.Solvers[n] = [2]int64{s.queries, s.nanos / 1e6}
		}
		write()
	}
	write()
}

// vacuous lists the labels whose obligations are all unreachable.
func vacuous(obls []*Obl) []string {
	by := map[string][]*Obl{}
	for _, o := range obls {
		if o.Kind == "ensures" || o.Kind == "assert" {
			by[o.Label] = append(by[o.Label], o)
		}
	}
	var out []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for l, os := range by {
		wg.Add(1)
		go func(l string, os []*Obl) {
			defer wg.Done()
			for i, o := range os {
				if i > 24 {
					return
				}
				if checkUnsat(o.PC, 1500, false).res != "unsat" {
					return
				}
			}
			mu.Lock()
			out = append(out, l)
			mu.Unlock()
		}(l, os)
	}
	wg.Wait()
	sort.Strings(out)
	return out
}

type finding struct {
	Property string `json:"property"`
	Contract string `json:"contract"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func knownFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if strings.TrimSpace(l) != "" && json.Unmarshal([]byte(l), &f) == nil && f.Fixed == "" {
			out = append(out, f)
		}
	}
	return out
}

type alarm struct {
	contract, label, kind, detail string
	structural                    bool // not an obligation of the property itself
}

func check(prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(envInt("VERIF_SEED", 1))
	tmp, err := os.MkdirTemp("", "verifc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	nw := envInt("VERIF_WORKERS", 4)
	if n := countContracts(prop); n < nw {
		nw = n
	}
	if nw < 1 {
		nw = 1
	}
	outs := make([]workerOut, nw)
	crash := make([]string, nw)
	var wg sync.WaitGroup
	limit := time.Duration(envInt("VERIF_LIMIT", 420)) * time.Second
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			of := filepath.Join(tmp, fmt.Sprintf("w%d.json", k))
			cmd := exec.Command(self, "worker", prop, fmt.Sprintf("%d/%d", k, nw), of)
			cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
			var sb strings.Builder
			cmd.Stdout, cmd.Stderr = &sb, &sb
			cmd.WaitDelay = time.Second
			if err := cmd.Start(); err != nil {
				crash[k] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err != nil {
					crash[k] = err.Error() + "\n" + sb.String()
				}
			case <-time.After(limit):
				cmd.Process.Kill()
				<-done
				crash[k] = "time limit exceeded"
			}
			if b, err := os.ReadFile(of); err == nil {
				json.Unmarshal(b, &outs[k])
			} else if crash[k] == "" {
				crash[k] = "no result: " + sb.String()
			}
		}(k)
	}
	wg.Wait()

	var alarms []alarm
	under, trusted, notes, invs := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	solv := map[string][2]int64{}
	back := map[string]int{}
	total, ok, covers, loops := 0, 0, 0, 0
	var queries int64
	type cs struct {
		Contract    string   `json:"contract"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Labels      []string `json:"labels"`
		Seconds     float64  `json:"seconds"`
	}
	var per []cs
	labels := map[string]bool{}
	loadErr := ""
	verified := map[string]int{}
	for _, w := range outs {
		for _, c := range w.Contracts {
			verified[c.Pkg+"."+c.Name]++
		}
	}
	for k, w := range outs {
		for _, n := range w.All {
			if _, ok := verified[n]; ok && verified[n] == 1 || crash[k] != "" || verified[n] == -1 {
				continue
			}
			if verified[n] == 0 && strings.Join(crash, "") != "" {
				continue // said below
			}
			alarms = append(alarms, alarm{"", "every contract is verified once", "engine", fmt.Sprintf("%s was verified %d times", n, verified[n]), true})
			verified[n] = -1
		}
		if w.LoadErr != "" {
			loadErr = w.LoadErr
			continue
		}
		if crash[k] != "" {
			alarms = append(alarms, alarm{"", "verifier run", "engine", crash[k], true})
		}
		for _, s := range w.Under {
			under[s] = true
		}
		for _, s := range w.Trusted {
			trusted[s] = true
		}
		for _, s := range w.Notes {
			notes[s] = true
		}
		for _, s := range w.Invs {
			invs[s] = true
		}
		loops += w.Loops
		queries += w.Queries
		for n, s := range w.Solvers {
			v := solv[n]
			solv[n] = [2]int64{v[0] + s[0], v[1] + s[1]}
		}
		for _, c := range w.Contracts {
			p := cs{Contract: c.Name, Seconds: float64(int((c.ExecS+c.SolveS)*10)) / 10}
			ls := map[string]bool{}
			if c.Err != "" {
				alarms = append(alarms, alarm{c.Name, "the verifier cannot process the code under contract", "unsupported", c.Err, true})
			}
			for _, l := range c.Vacuous {
				alarms = append(alarms, alarm{c.Name, l, "vacuous", "no execution reaches this obligation", true})
			}
			seenL := map[string]bool{}
			reached, missed := map[string]bool{}, map[string]bool{}
			for _, o := range c.Obls {
				if o.Kind == "cover" && o.Res != "unreachable" {
					reached[o.Label] = true
				}
			}
			for _, o := range c.Obls {
				if o.Kind == "cover" {
					covers++
					if !reached[o.Label] && !missed[o.Label] {
						missed[o.Label] = true
						alarms = append(alarms, alarm{c.Name, o.Label, "vacuous", "not reachable", true})
					}
					continue
				}
				total++
				p.Obligations++
				ls[o.Label] = true
				labels[c.Name+": "+o.Label] = true
				if o.Res == "unsat" {
					ok++
					p.Discharged++
					back[o.Solver]++
					continue
				}
				if seenL[o.Label] {
					continue
				}
				seenL[o.Label] = true
				d := fmt.Sprintf("obligation %q (%s) at %s in %s\nverdict: %s (%s)\ngoal: %s\npath condition:\n  %s\n\nsolver input:\n%s\n", o.Label, o.Kind, o.Pos, o.Fn, o.Res, o.Solver, o.Goal, strings.Join(o.PC, "\n  "), o.Script)
				alarms = append(alarms, alarm{c.Name, o.Label, o.Kind, d, false})
			}
			p.Labels = sortedKeys(ls)
			per = append(per, p)
		}
	}
	if loadErr != "" {
		alarms = append(alarms, alarm{"", "the contracts apply to the code", "load", loadErr, true})
	}
	sort.Slice(per, func(i, j int) bool { return per[i].Contract < per[j].Contract })

	// known findings
	var left []alarm
	known := knownFindings()
	said := map[string]bool{}
	for _, a := range alarms {
		k := false
		for _, f := range known {
			if f.Property == prop && f.Contract == a.contract && f.Label == a.label && !a.structural {
				k = true
				if !said[f.What] {
					said[f.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
				}
			}
		}
		if !k {
			left = append(left, a)
		}
	}
	alarms = left

	// replay on the real code
	natRuns, natUseful := 0, 0
	var hit *nativeResult
	var natErr string
	if len(alarms) > 0 || tier == "thorough" {
		want := map[string]bool{}
		for _, a := range alarms {
			if a.contract != "" {
				want[a.contract] = true
			}
		}
		all := len(want) == 0
		bin, names, err := buildNative(prop, tmp)
		if err != nil {
			natErr = err.Error()
		} else {
			var mu sync.Mutex
			var wg sync.WaitGroup
			lim := make(chan struct{}, 8)
			budget := 4000
			if tier == "thorough" {
				budget = 20000
			}
			for _, n := range names {
				if !all && !want[n] {
					continue
				}
				for r := int64(0); r < 4; r++ {
					wg.Add(1)
					go func(n string, r int64) {
						defer wg.Done()
						lim <- struct{}{}
						defer func() { <-lim }()
						mu.Lock()
						stop := hit != nil
						mu.Unlock()
						if stop {
							return
						}
						os.MkdirAll(filepath.Join(tmp, fmt.Sprintf("n%s%d", n, r)), 0755)
						res := runNative(bin, n, seed*16+r, budget, 1<<30, filepath.Join(tmp, fmt.Sprintf("n%s%d", n, r)))
						mu.Lock()
						defer mu.Unlock()
						natRuns += res.Runs
						natUseful += res.Useful
						if res.Label != "" || strings.Contains(res.Crash, "panic:") || strings.Contains(res.Crash, "fatal error:") {
							for _, f := range known {
								if f.Property == prop && f.Contract == n && f.Label == res.Label {
									return
								}
							}
							if len(alarms) == 0 && res.Label == "terminates" {
								return
							}
							if hit == nil {
								hit = &res
							}
						}
					}(n, r)
				}
			}
			wg.Wait()
			if hit != nil && len(alarms) == 0 {
				alarms = append(alarms, alarm{hit.Contract, hit.Label, "native", "found by running the contract on the real code", false})
			}
		}
	}
	rc := 0
	if len(alarms) > 0 {
		rc = 1
		dir := filepath.Join(verifDir, "evidence", "replays")
		os.MkdirAll(dir, 0755)
		rf := filepath.Join(dir, prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		if hit != nil {
			fmt.Fprintf(&b, "FAILING INPUT (contract %s executed on the real code, generator seed %d)\nviolated: %s %s\n%s\n%s\n\nrerun: /verif/check.sh native %s %s\n\n", hit.Contract, hit.Seed, hit.Label, hit.Msg, strings.Join(hit.Input, "\n"), hit.Crash, prop, hit.Contract)
		} else {
			fmt.Fprintf(&b, "no failing input found (%d native runs, %d with satisfied preconditions) %s\n\n", natRuns, natUseful, natErr)
		}
		for _, a := range alarms {
			fmt.Printf("failed: %s: %s (%s)\n", a.contract, a.label, a.kind)
			if a.structural {
				d := a.detail
				if len(d) > 1500 {
					d = d[:1500]
				}
				fmt.Println("   ", d)
			}
			fmt.Fprintf(&b, "== contract %s: %s (%s)\n%s\n\n", a.contract, a.label, a.kind, a.detail)
		}
		os.WriteFile(rf, []byte(b.String()), 0644)
		suffix := ""
		if hit == nil {
			suffix = " no-failing-input-found"
		} else {
			fmt.Printf("failing input for %s: %s\n  %s\n", hit.Contract, hit.Label, strings.Join(hit.Input, "\n  "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rf, suffix)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": ok,
			"checker_cmd":              "/verif/check.sh " + prop,
			"trusted_base":             trustedBase(sortedKeys(trusted)),
			"functions_under_contract": sortedKeys(under),
			"contracts":                per,
			"distinct_obligations":     len(labels),
			"covers_reached":           covers,
			"loops_by_invariant":       loops,
			"invariants_used":          sortedKeys(invs),
			"back_ends":                back,
			"solver_queries":           queries,
			"solver_calls_ms":          solv,
			"native_runs":              natRuns,
			"native_runs_useful":       natUseful,
		},
		"assumptions": append(baseAssumptions, sortedKeys(notes)...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(alarms),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0644)
	fmt.Printf("%s: %d/%d obligations discharged, %d functions, %.1fs\n", prop, ok, total, len(under), time.Since(start).Seconds())
	return rc
}

func countContracts(prop string) int {
	ov, _, err := overlayFor(prop)
	if err != nil {
		return 1
	}
	n := 0
	for _, s := range ov {
		if strings.Contains(s, "/contracts/common/") {
			continue
		}
		b, _ := os.ReadFile(s)
		n += len(contractRe.FindAll(b, -1))
	}
	return n
}

func trustedBase(ext []string) []string {
	return append([]string{
		"the verification engine in /verif/engine (symbolic executor over golang.org/x/tools/go/ssa, loop invariant inference, VC generation)",
		"the Go type checker and SSA construction",
		"z3 4.8.12, z3 5.3.2 and cvc5 1.1.2 (an obligation counts as discharged when any of them answers unsat)",
	}, ext...)
}

var baseAssumptions = []string{
	"floating-point values are treated as mathematical reals",
	"strings are uninterpreted values with concatenation, length and the library functions named in trusted_base",
	"partial correctness: termination is not proved",
	"one goroutine at a time: sync primitives are no-ops, data races are outside the contracts",
	"memory allocation and stack depth are unlimited",
}
