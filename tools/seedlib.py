"""Plants a bug in a scratch copy of /repo, confirms it, and files it under /verif/seeded."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=readonly")
DEMO = '''#!/bin/bash
# Runs demo_test.go inside %(pkg)s of the repository in the current directory.
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap '/bin/rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" >"$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd, cwd, check=False):
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
BUILT = "./pkg/... ./internal/blackbox/... ./internal/gateway/... ./internal/matchers/... ./internal/tls/... ./internal/promql/data_reader/... ./cmd/blackbox/... ./cmd/gateway/..."
def seed(id, prop, pkg, edits, demo, needs, breaks, demo_sh=None, extra=None):
    w = "/tmp/seedrepo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    d = f"/tmp/seeds/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if demo: open(d + "/demo_test.go", "w").write(demo)
    for n, c in (extra or {}).items(): open(os.path.join(d, n), "w").write(c)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % dict(pkg=pkg))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    c, o = run(f"bash {d}/demo.sh", w)
    if c != 0: print(id, "DEMO FAILS ON BASE\n", o[-3000:]); return
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(old) != 1: print(id, f, "edit matches", s.count(old)); return
        open(p, "w").write(s.replace(old, new))
    c, o = run("git diff", w); open(d + "/patch.diff", "w").write(o)
    c, o = run(f"gofmt -l {' '.join(e[0] for e in edits)}", w)
    if o.strip(): print(id, "not gofmt-clean", o)
    c, o = run(f"go build {BUILT} && go test -vet=off -count=1 $(echo {BUILT} | sed s,./internal/gateway/...,,)", w)
    g = run("go test -vet=off -count=1 ./internal/gateway | grep -c '2 Passed'", w)[1]
    if g.strip() != "1": c, o = 1, o + "gateway: " + g
    if c != 0: print(id, "BUILD OR TESTS FAIL\n", o[-3000:]); return
    c, o = run(f"bash {d}/demo.sh", w)
    if c == 0: print(id, "DEMO PASSES WITH BUG\n", o[-800:]); return
    tgt = f"/verif/seeded/{id}"
    shutil.rmtree(tgt, ignore_errors=True)
    shutil.copytree(d, tgt)
    c, o = run(f"VERIF_REPO={w} bash /verif/check.sh {prop}", "/verif")
    print(id, prop, "check exit", c, "|", *[l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("failed:")][:4])
    shutil.rmtree(w, ignore_errors=True)
