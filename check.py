#!/usr/bin/env python3
"""Decide one property of MatProGo-dev/SymbolicMath.go.

usage: check.py PROPERTY [--tier quick|thorough]

1. builds the verifier (vcgen) and the executable contracts (harness) from /verif against
   /repo's current working tree;
2. vcgen generates every proof obligation of the property from the SSA form of /repo's current
   source and has z3 discharge each one (the deciding step);
3. the executable form of the same contracts is run on generated inputs (bounded; it is the
   replay step when an obligation fails, and otherwise a validation of the assumptions: floats as
   reals, the contracts of gonum).
Exits 0 if the property held, 1 with a VIOLATION line otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def environment():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GONOSUMDB="*",
               GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    env.setdefault("HOME", "/root")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def run(cmd, cwd, timeout, env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        return 124, out + "\n(time limit of %d s)" % timeout


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env = environment()
    henv = dict(env)
    go123 = "/opt/veriftools/go1.23.12/bin"
    if os.path.isdir(go123):
        henv["PATH"] = go123 + ":" + henv.get("PATH", "")
    cfg = json.load(open(os.path.join(VERIF, "checks.json"))).get(prop, {})
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    replay_dir = os.path.join(VERIF, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(replay_dir, prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    rep, problems, bounded, findings = None, [], None, []
    try:
        # -- build
        vcgen, harness = os.path.join(work, "vcgen"), os.path.join(work, "harness")
        rc, out = run(["go", "build", "-o", vcgen, "."], os.path.join(VERIF, "vcgen"), 600, env)
        if rc != 0:
            print(out)
            problems.append("the verifier does not build: " + out[-2000:])
        hdir = os.path.join(work, "hsrc")
        shutil.copytree(os.path.join(VERIF, "harness"), hdir)
        if REPO != "/repo":
            gm = os.path.join(hdir, "go.mod")
            s = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(s)
        lemmas = None
        if tier == "thorough" and os.path.exists(vcgen):
            # the lemmas of the theory once more, from its definitions (they do not depend on /repo)
            rc, out = run([sys.executable, os.path.join(VERIF, "tools", "lemmas.py")], VERIF, 900, dict(env, VCGEN=vcgen))
            lemmas = (out.strip() or "not run").split("\n")[-1]
        rc, out = run(["go", "build", "-o", harness, "."], hdir, 600, henv)
        hok = rc == 0
        if not hok:
            problems.append("the executable contracts do not build against /repo: " + out[-2000:])
        # -- proof
        if os.path.exists(vcgen):
            rfile = os.path.join(work, "report.json")
            cmd = [vcgen, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", rfile,
                   "-dump", work, "-budget", "540s" if tier == "quick" else "2400s"]
            if tier == "thorough":
                cmd += ["-rlimit", "12000000", "-jobtime", "600s"]
            else:
                cmd += ["-maxfail", "8"]
            rc, out = run(cmd, VERIF, 600 if tier == "quick" else 3000, env)
            print(out.rstrip())
            if os.path.exists(rfile):
                rep = json.load(open(rfile))
                for f in rep.get("failures") or []:
                    d = f.get("dump")
                    f["query"] = ""
                    if d and os.path.exists(d):
                        f["query"] = open(d).read()[-6000:]
            if rep is None:
                problems.append("the verifier gave no report (exit %d): %s" % (rc, out[-3000:]))
            elif not rep.get("proved"):
                if not rep.get("failures"):
                    problems.append("no obligation was generated")
        failed = bool(problems) or bool(rep and not rep["proved"])
        # -- executable contracts: replay of a failure, otherwise bounded validation
        if hok:
            if failed:
                rounds = [(seed + k, 40) for k in range(3)]
            elif tier == "quick":
                rounds = [(seed, cfg.get("secs", 12))]
            else:
                rounds = [(seed + k, 60) for k in range(3)]
            total = {"evaluations": 0, "cases": 0}
            for sd, secs in rounds:
                rc, out = run([harness, "-repo", REPO, "-prop", prop, "-secs", str(secs), "-max", "20", "-seed", str(sd)], work, secs * 3 + 120, henv)
                try:
                    h = json.loads(out[out.index("{"):])
                except ValueError:
                    findings.append({"case": "harness", "detail": "the run ended abnormally (exit %d): %s" % (rc, out[-3000:])})
                    break
                total["evaluations"] += h.get("evaluations", 0)
                total["cases"] = h.get("cases", 0)
                if h.get("sample"):
                    total["sample"] = h["sample"]
                if h.get("findings"):
                    findings += h["findings"]
                    break
            bounded = total
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = [l for l in open(os.path.join(VERIF, "known-findings.txt")) if l.startswith("known: ") and ("property=%s " % prop) in l]
    new = []
    for f in findings:
        tag = str(f.get("case", "")) + " " + str(f.get("input", "")) + " " + str(f.get("detail", ""))
        k = [l for l in known if "[" in l and l[l.index("[") + 1:l.index("]")] in tag]
        if k:
            continue
        new.append(f)
    for l in known:
        print("KNOWN-FINDING: " + l[len("known: "):].strip())
    proved = bool(rep and rep["proved"] and not problems)
    violated = not proved or bool(new)

    # -- evidence
    cov = {
        "obligations": rep["obligations"] if rep else 0,
        "discharged": rep["discharged"] if rep else 0,
        "checker_cmd": "python3 check.py %s (vcgen -prop %s; every obligation is one z3 query, unsat required)" % (prop, prop),
        "trusted_base": ["z3-new (z3 5.3.2)", "golang.org/x/tools/go/ssa (translation of /repo's source to SSA)", "vcgen (weakest preconditions over SSA, /verif/vcgen)",
                         "contracts/theory.smt2 (axioms of the mathematical vocabulary: definitions, and the lemmas that tools/lemmas.py does not prove from them, DESIGN.md section 3)"],
    }
    if lemmas:
        cov["theory_lemmas"] = lemmas
    assumptions = ["float64 arithmetic is treated as exact real arithmetic (no NaN, infinity or rounding); int as unbounded integers",
                   "loops and recursion are assumed to terminate (partial correctness)",
                   "variables with one ID are one variable (one environment)",
                   "values of interface type have one of the dynamic types known to vcgen or an unknown foreign type (tag AOther) on which only run-time type tests are performed"]
    if rep:
        cov.update({"functions_under_contract": rep["functions"], "functions_inlined": rep["inlined"], "verification_jobs": len(rep["jobs"] or []),
                    "return_paths": rep["returns"], "panic_paths": rep["panics"], "loops_cut": rep["loops"], "vacuous_jobs": rep["vacuous"],
                    "solver": rep["solver"], "solver_queries": rep["solver_queries"], "solver_s": rep["solver_ms"] / 1000.0,
                    "proof_wall_s": rep["wall_ms"] / 1000.0})
        assumptions += ["assumed contract: " + x for x in rep["trusted"] or []]
        assumptions += ["external function, contract assumed: " + x for x in rep["external"] or []]
    if bounded:
        cov["bounded_validation"] = {"label": "bounded, not counted as proved", "evaluations": bounded["evaluations"], "generators": bounded["cases"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if not violated:
        print("property %s holds: %d obligations discharged, %d bounded evaluations, %.0f s" % (prop, cov["obligations"], bounded["evaluations"] if bounded else 0, ev["wall_s"]))
        return 0
    fails = (rep.get("failures") if rep else None) or []
    json.dump({"property": prop, "failing_inputs": new, "failed_obligations": fails, "problems": problems,
               "how_to_replay": "cd /verif/harness && go run . -prop %s -seed SEED -case CASE -trial TRIAL (see failing_inputs)" % prop},
              open(replay, "w"), indent=1)
    for f in fails[:10]:
        print("failed obligation: %s: %s at %s" % (f.get("job"), f.get("obligation"), f.get("pos")))
    for p in problems:
        print("problem: " + p[:1500])
    for f in new[:3]:
        print("failing input: " + json.dumps(f)[:1500])
    line = "VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, VERIF) if False else replay)
    if not new:
        line += " no-failing-input-found"
    print(line)
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except Exception as e:  # no answer is reported as a failure to establish the property
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        p = os.path.join(VERIF, "replay", sys.argv[1] + ".json")
        json.dump({"property": sys.argv[1], "problems": [traceback.format_exc()]}, open(p, "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (sys.argv[1], p))
        code = 1
    sys.exit(code)
