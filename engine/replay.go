package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type nativeResult struct {
	Contract string
	Runs     int
	Useful   int
	Label    string
	Msg      string
	Input    []string
	Seed     int64
	Crash    string
}

var contractRe = regexp.MustCompile(`(?m)^func (Contract\w+)\(`)

// buildNative compiles the contracts of a property against the real code into a replay binary.
func buildNative(prop, tmp string) (string, []string, error) {
	ov, rel, err := overlayFor(prop)
	if err != nil {
		return "", nil, err
	}
	mod, err := copyMod(tmp)
	if err != nil {
		return "", nil, err
	}
	rep := map[string]string{}
	byPkg := map[string][]string{}
	for d, s := range ov {
		rep[d] = s
		b, err := os.ReadFile(s)
		if err != nil {
			return "", nil, err
		}
		if strings.Contains(s, "/contracts/common/") {
			continue
		}
		r, _ := filepath.Rel(repoDir, filepath.Dir(d))
		for _, m := range contractRe.FindAllStringSubmatch(string(b), -1) {
			byPkg[r] = append(byPkg[r], m[1])
		}
	}
	for _, r := range rel {
		if err := importable(filepath.Join(repoDir, r), tmp, rep); err != nil {
			return "", nil, err
		}
	}
	var b strings.Builder
	b.WriteString("package main\nimport (\n\t\"verif.local/spec\"\n\t\"encoding/json\"\n\t\"os\"\n\t\"strconv\"\n\t\"time\"\n")
	var names []string
	for i, r := range rel {
		if len(byPkg[r]) > 0 {
			fmt.Fprintf(&b, "\tp%d %q\n", i, modPath+"/"+r)
		}
	}
	b.WriteString(")\nvar contracts = map[string]interface{}{\n")
	for i, r := range rel {
		for _, n := range byPkg[r] {
			fmt.Fprintf(&b, "\t%q: p%d.%s,\n", n, i, n)
			names = append(names, n)
		}
	}
	b.WriteString(`}
func main() {
	name := os.Args[1]
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	ms, _ := strconv.Atoi(os.Args[3])
	runs, _ := strconv.Atoi(os.Args[4])
	r := spec.Run(contracts[name], seed, time.Duration(ms)*time.Millisecond, runs)
	out := map[string]interface{}{"Contract": name, "Runs": r.Runs, "Useful": r.Useful, "Input": r.Input, "Seed": r.Seed}
	if r.Failure != nil {
		out["Label"] = r.Failure.Label
		out["Msg"] = r.Failure.Msg
	}
	f, _ := os.Create(os.Args[5])
	json.NewEncoder(f).Encode(out)
	f.Close()
}
`)
	mf := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mf, []byte(b.String()), 0644); err != nil {
		return "", nil, err
	}
	rep[filepath.Join(repoDir, "internal/zzverif/main.go")] = mf
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, j, 0644); err != nil {
		return "", nil, err
	}
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-modfile="+mod, "-mod=mod", "-overlay="+of, "-o", bin, "./internal/zzverif")
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", nil, fmt.Errorf("%v\n%s", err, out)
	}
	sort.Strings(names)
	return bin, names, nil
}

var mainRe = regexp.MustCompile(`(?m)^package main\b`)

// importable has the replay binary see a program's sources as a package it can import.
func importable(dir, tmp string, rep map[string]string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for d := range rep {
		if filepath.Dir(d) == dir {
			files = append(files, d)
		}
	}
	for _, f := range files {
		src := f
		if s, ok := rep[f]; ok {
			src = s
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		at := mainRe.FindIndex(b)
		if at == nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		out, err := os.CreateTemp(tmp, "main*.go")
		if err != nil {
			return err
		}
		fmt.Fprintf(out, "%spackage program%s", b[:at[0]], b[at[1]:])
		out.Close()
		rep[f] = out.Name()
	}
	return nil
}

func runNative(bin, name string, seed int64, ms, runs int, tmp string) nativeResult {
	out := filepath.Join(tmp, "native_"+name+".json")
	_ = os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+15000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, name, fmt.Sprint(seed), fmt.Sprint(ms), fmt.Sprint(runs), out)
	cmd.Dir = tmp
	cmd.WaitDelay = time.Second
	b, err := cmd.CombinedOutput()
	var r nativeResult
	r.Contract = name
	j, rerr := os.ReadFile(out)
	if rerr == nil && json.Unmarshal(j, &r) == nil {
		return r
	}
	if err != nil {
		s := string(b)
		if len(s) > 3000 {
			s = s[:3000]
		}
		r.Crash = fmt.Sprintf("%v\n%s", err, s)
	}
	return r
}

func nativeCmd(prop string, args []string) int {
	tmp, err := os.MkdirTemp("", "verifn")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	bin, names, err := buildNative(prop, tmp)
	if err != nil {
		fmt.Println("BUILD:", err)
		return 1
	}
	rc := 0
	for _, n := range names {
		if len(args) > 0 && !strings.Contains(n, args[0]) {
			continue
		}
		r := runNative(bin, n, 1, 3000, 200000, tmp)
		fmt.Printf("%s: runs %d useful %d\n", n, r.Runs, r.Useful)
		if r.Label != "" || r.Crash != "" {
			rc = 1
			fmt.Printf("   FAIL %s %s %s\n   %s\n", r.Label, r.Msg, r.Crash, strings.Join(r.Input, "\n   "))
		}
	}
	return rc
}
