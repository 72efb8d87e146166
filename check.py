#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decides one property by symbolic execution of the code in /repo.

exit 0: no explored path violates it (evidence says what was explored, and whether completely)
exit 1: violated; the counterexample was replayed against the natively compiled code
exit 2: the check gives no answer (build failure, encoding error, vacuous run, unconfirmed counterexample)
"""
import concurrent.futures, itertools, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import vpbuild
from checks import CHECKS, ASSUMPTIONS

BUDGET = {"quick": 420, "thorough": 840}


def known_findings(pid):
    r = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r


def expected_covers(harness, fn):
    t = open(os.path.join(V, "harness", harness + ".cpp")).read()
    parts = re.split(r'extern "C" void (\w+)\(\)', t)
    for i in range(1, len(parts), 2):
        if parts[i] == fn:
            return set(re.findall(r'vp_cover\("([^"]+)"\)', parts[i + 1]))
    return set()


def split_trace(t):
    d = {}
    for e in t.split(";"):
        if "=" in e:
            k, v = e.split("=", 1)
            d.setdefault(k, []).append(v)
    return d


class Replayer:
    def __init__(self, exe, scratch):
        self.exe, self.scratch, self.n = exe, scratch, itertools.count()

    def run(self, fn, choices, params, timeout=30):
        d = os.path.join(self.scratch, "r%d" % next(self.n))
        os.makedirs(d)
        with open(d + ".choices", "w") as f:
            for k, v in choices:
                f.write("%s %d\n" % (k.replace(" ", "_"), v))
        env = dict(os.environ, TZ="UTC", QT_HASH_SEED="0", LC_ALL="C.UTF-8", HOME=d, QT_LOGGING_RULES="", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0")
        cmd = [self.exe, fn, d + ".choices", d + ".trace"] + ["%s=%d" % kv for kv in params.items()]
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out = -999, "TIMEOUT (does not terminate)\n" + (e.stdout or b"").decode(errors="replace")
        tr = open(d + ".trace").read() if os.path.exists(d + ".trace") else ""
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, tr


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:]
    spec = CHECKS[pid]
    t0 = time.time()
    outdir = os.path.join(V, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        b = vpbuild.Build(spec["harness"]).go()
    except vpbuild.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    tb = time.time() - t0
    known = known_findings(pid)
    runs, viol, errs, seen_known = [], [], [], {}
    tot = dict(paths=0, infeasible=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, asserts=0, sym_asserts=0)
    solver_s, functions, samples, recs = 0.0, set(), [], []
    fns = [f for f in spec["fns"] if (tier == "thorough" or not f.get("thorough_only")) and (not only or f["fn"] in only)]
    weights = sum(f.get("w", 1) for f in fns)
    for i, f in enumerate(fns):
        left = BUDGET[tier] - (time.time() - t0)
        share = max(10, left * f.get("w", 1) / max(1, weights))
        weights -= f.get("w", 1)
        params = dict(f.get("params", {}))
        params.update(f.get(tier, {}))
        params.update((k, int(v)) for k, v in (kv.split("=") for kv in os.environ.get("VP_PARAMS", "").split()))  # for experiments
        jl = os.path.join(outdir, f["fn"] + ".jsonl")
        cmd = [b.symex, b.bc, "--fn", f["fn"], "--out", jl, "--time", str(int(share)), "--procs", "8", "--sample", str(f.get("sample", 7)), "--samples", "400", "--max-viol", "6"]
        if "steps" in f:
            cmd += ["--steps", str(f["steps"])]
        for k, v in params.items():
            cmd += ["--param", "%s=%d" % (k, v)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=share + 120)
        except subprocess.TimeoutExpired:
            errs.append("%s: engine timed out" % f["fn"])
            continue
        R = [json.loads(l) for l in open(jl)] if os.path.exists(jl) else []
        S = [r for r in R if r["t"] == "summary"]
        if not S:
            errs.append("%s: engine failed: %s" % (f["fn"], p.stdout.decode(errors="replace")[-1500:]))
            continue
        S = S[-1]
        cov = {r["label"] for r in R if r["t"] == "cover"}
        miss = expected_covers(spec["harness"], f["fn"]) - cov - set(f.get("optional_covers", []))
        for k in tot:
            tot[k] += S.get(k, 0)
        solver_s += S["solver_s"]
        functions |= set(S["functions"])
        v = [r for r in R if r["t"] == "violation"]
        for r in R:
            if r["t"] == "known":
                m = re.match(r"(\S+): ", r["msg"])
                kid = r.get("id") or (m.group(1) if m else "")
                if kid in known:
                    seen_known.setdefault(kid, (f, params, r))
                else:
                    v.append(r)
        e = [r for r in R if r["t"] == "error"]
        recs.append((f, params, v, [r for r in R if r["t"] == "sample"]))
        runs.append(dict(harness=f["fn"], bounds=f.get("bounds", ""), params=params, paths=S["paths"], steps=S["steps"], queries=S["queries"], solver_s=S["solver_s"], wall_s=S["wall_s"], complete=not S["incomplete"] and not S["unknown"] and not e, engine_errors=len(e), covers=sorted(cov), covers_missing=sorted(miss)))
        viol += [(f, params, r) for r in v]
        if miss and not v:
            errs.append("%s: not reached: %s" % (f["fn"], ", ".join(sorted(miss))))
        # an encoding error leaves paths unexplored; without enough other paths there is no answer
        if e:
            msgs = sorted({r["msg"] for r in e})
            print("note: %s: %d path(s) not encoded: %s" % (f["fn"], len(e), "; ".join(msgs[:5])))
            if len(e) * 4 > S["paths"] + len(e):
                errs.append("%s: %d of %d paths could not be encoded: %s" % (f["fn"], len(e), S["paths"] + len(e), "; ".join(msgs[:3])))
    # replay against the native build
    scratch = "/tmp/vp-replay-%d" % os.getpid()
    os.makedirs(scratch, exist_ok=True)
    confirmed, unconfirmed, validated, mismatches = [], [], 0, []
    try:
        try:
            rp = Replayer(b.replay(), scratch)
        except vpbuild.BuildError as e:
            rp = None
            errs.append("native replay program does not build: %s" % str(e)[-1500:])
        if rp:
            for f, params, r in viol[:40]:
                rc, out, tr = rp.run(f["fn"], r["choices"], params)
                bad = rc in (42, 99, -999) or (rc < 0) or (rc not in (0, 43, 44, 45, 46, 50, 127))
                (confirmed if bad else unconfirmed).append((f, params, r, rc, out))
                if len(confirmed) >= 3:
                    break
            for kid, (f, params, r) in sorted(seen_known.items()):
                rc, out, tr = rp.run(f["fn"], r["choices"], params)
                if rc == 0:
                    unconfirmed.append((f, params, r, rc, out))
            if not confirmed:
                per = max(1, int(os.environ.get("VP_SAMPLES", 24)) // max(1, len(recs)))
                for f, params, v, smp in recs:
                    if f.get("no_native_compare"):
                        continue
                    step = max(1, len(smp) // per)
                    picked = smp[::step][:per]
                    with concurrent.futures.ThreadPoolExecutor(4) as pool:
                        results = list(pool.map(lambda r: rp.run(f["fn"], r["choices"], params), picked))
                    for r, (rc, out, tr) in zip(picked, results):
                        a, c = split_trace(r["trace"]), split_trace(tr)
                        if rc in (0, 46) and a == c:
                            validated += 1
                            if len(samples) < 6:
                                samples.append(dict(harness=f["fn"], choices=r["choices"][:40], trace=r["trace"][:600]))
                        else:
                            mismatches.append((f["fn"], rc, out[-400:], r["choices"], {k: (a.get(k), c.get(k)) for k in set(a) | set(c) if a.get(k) != c.get(k)}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if mismatches:
        json.dump(mismatches, open(os.path.join(outdir, "mismatches.json"), "w"), indent=1)
        errs.append("%d sampled path(s) behave differently natively, see out/%s/mismatches.json: %s" % (len(mismatches), pid, str(mismatches[0])[:700]))
    replay = None
    for i, (f, params, r, rc, out) in enumerate(confirmed):
        p = os.path.join(outdir, "replay-%d.json" % i)
        json.dump(dict(property=pid, harness=spec["harness"], fn=f["fn"], params=params, kind=r["kind"], msg=r["msg"], choices=r["choices"], trace=r["trace"], stack=r.get("stack"), native_exit=rc, native_output=out[-3000:]), open(p, "w"), indent=1)
        replay = replay or p
    cover = dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated + len(confirmed),
                 samples=samples or [dict(harness=f["fn"], choices=r["choices"][:40]) for f, _, r in viol[:3]] or [dict(note="no path completed")],
                 meaning="states: symbolic path states explored to their end, each standing for all concrete values of its symbolic inputs; transitions: branch decisions the solver kept feasible both ways",
                 functions_encoded=sorted(functions), bounds=[dict(harness=r["harness"], bounds=r["bounds"], params=r["params"], complete=r["complete"]) for r in runs],
                 exhaustive=bool(runs) and all(r["complete"] for r in runs) and not errs, queries_discharged=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], query_cache_hits=tot["cache_hits"],
                 solver_time_s=round(solver_s, 3), instructions_executed=tot["steps"], assertions_checked=tot["asserts"], assertions_on_symbolic_values=tot["sym_asserts"], infeasible_paths=tot["infeasible"], build_s=round(tb, 1), runs=runs)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cover, assumptions=ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    evd = os.path.join(V, "out" if os.environ.get("VP_REPO") else "evidence")  # the evidence is about /repo only
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for r in runs:
        print("%-14s paths %-7d queries %-6d solver %.1fs wall %.1fs %s" % (r["harness"], r["paths"], r["queries"], r["solver_s"], r["wall_s"], "complete" if r["complete"] else "INCOMPLETE within the time limit"))
    print("native replays agreeing: %d, build %.0fs, total %.0fs" % (validated, tb, time.time() - t0))
    for kid, (f, params, r) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[kid]))
    if confirmed:
        f, params, r, rc, out = confirmed[0]
        print("%s: %s: %s" % (f["fn"], r["kind"], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    for f, params, r, rc, out in unconfirmed[:5]:
        print("counterexample not confirmed natively (exit %s): %s: %s: %s\n%s" % (rc, f["fn"], r["kind"], r["msg"], out[-600:]))
        json.dump(dict(fn=f["fn"], params=params, **r), open(os.path.join(outdir, "unconfirmed.json"), "w"), indent=1)
    for e in errs:
        print("no answer: " + e)
    return 2 if errs or unconfirmed else 0


if __name__ == "__main__":
    rc = main()
    try:
        vpbuild.prune()
    except OSError:
        pass
    sys.exit(rc)
