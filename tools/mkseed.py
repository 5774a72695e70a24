#!/usr/bin/env python3
"""Build seeded changes: mkseed.py SEEDS.py [id...]   (SEEDS.py defines SEEDS, a list of dicts)

Each is applied to a scratch copy of /repo, built, tested with the repository's tests and its
demonstration run on both trees; it is kept under /verif/seeded only when it counts."""
import json, os, re, shutil, subprocess, sys, tempfile
REPO = "/repo"
DEMO = '''#!/bin/bash
# Run with cwd = the repository: exit 0 when the property holds, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/goenv.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./zz_demo || exit 2
"$work/demo"
'''
HEAD = '''package main

import (
	"fmt"
	"os"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
%s)

var _ = sm.K(0)

func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

// panics tells whether f panicked.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// value evaluates a scalar expression by substituting numbers for its variables.
func value(e sm.Expression, vals map[sm.Variable]float64) float64 {
	total := 0.0
	term := func(m sm.Monomial) float64 {
		t := m.Coefficient
		for i, v := range m.VariableFactors {
			for k := 0; k < m.Exponents[i]; k++ {
				t *= vals[v]
			}
		}
		return t
	}
	switch x := e.(type) {
	case sm.K:
		total = float64(x)
	case sm.Variable:
		total = vals[x]
	case sm.Monomial:
		total = term(x)
	case sm.Polynomial:
		for _, m := range x.Monomials {
			total += term(m)
		}
	default:
		fail("not a scalar expression: %%T", e)
	}
	return total
}

var _ = value
var _ = panics
var _ = fail

func main() {
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", ". /opt/vp/goenv.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
blame = {}
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    dst = os.environ.get("SEED_DST", "/verif/seeded") + "/" + s["id"]
    if os.path.exists(dst) and not want:
        continue
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp/w")
    try:
        repo = w + "/repo"
        shutil.copytree(REPO, repo, symlinks=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            k = s.get("nth", 0)
            if n == 0 or (n > 1 and "nth" not in s):
                print(s["id"], "edit matches", n, "times:", old[:60]); ok = False; break
            pos = -1
            for _ in range(k + 1):
                pos = t.index(old, pos + 1)
            open(p, "w").write(t[:pos] + new + t[pos + len(old):])
        if not ok:
            continue
        patch = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        # the lines changed must be lines of the original repository
        for f, _, _ in s["edits"]:
            d = subprocess.run(["git", "diff", "-U0", f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + c):
                    b = subprocess.run(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
                    if not b.startswith("^"):
                        print(s["id"], "NOT an original line:", b.strip()); ok = False
        if not ok:
            continue
        rc, out = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -E '^(---|FAIL|panic)' | head", repo)
        if "FAIL" in out or "panic" in out or rc not in (0, 1):
            print(s["id"], "tests fail:", out[:500].replace("\n", " | ")); continue
        os.makedirs(w + "/d")
        open(w + "/d/main.go", "w").write(HEAD % s.get("imports", "") + "\t" + s["demo"].strip().replace("\n", "\n\t") + "\n}\n" + s.get("funcs", ""))
        open(w + "/d/demo.sh", "w").write(DEMO)
        os.chmod(w + "/d/demo.sh", 0o755)
        r1, o1 = sh("bash %s/d/demo.sh" % w, REPO)
        r2, o2 = sh("bash %s/d/demo.sh" % w, repo)
        if r1 != 0 or r2 == 0 or r2 == 2 and "panic" not in o2:
            print(s["id"], "demo: clean", r1, o1[-400:], "changed", r2, o2[-400:]); continue
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(patch)
        for n in ("main.go", "demo.sh"):
            shutil.copy(w + "/d/" + n, dst + "/" + n)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        print(s["id"], "KEPT:", o2.strip()[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
