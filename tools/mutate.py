#!/usr/bin/env python3
"""Screens small mutants of /repo (deleted statements, negated conditions, changed operators and constants) with the
symbolic engine only; prints the ones no check notices, for review by hand.
mutate.py OUT WORKERS SEED COUNT [file-regex]"""
import glob, json, os, random, re, shutil, subprocess, sys, multiprocessing
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); sys.path.insert(0, V)
from checks import CHECKS
SKIP = re.compile(r"qC?(Debug|Warning|Info|Critical)\(|^\s*(//|\*|/\*|#|return|break|continue|delete|case|default|public|private|protected|using|Q_)|^\s*(const\s+)?[A-Za-z_:<>]+[ *&]+\w+\s*(=|;|\()")


def mutants():
    r = []
    for d in ("common", "libnymea-remoteproxy", "libnymea-remoteproxyclient", "monitor", "tunnelclient", "server"):
        for f in sorted(glob.glob("/repo/%s/**/*.cpp" % d, recursive=True)):
            if os.path.basename(f).startswith("moc_") or os.path.basename(f) in ("loggingcategories.cpp",): continue
            L = open(f).read().split("\n"); fn = None
            for i, l in enumerate(L):
                m = re.match(r"(?:[A-Za-z_][\w:<>\*& ,]*[ \*&])?([A-Za-z_]\w*::~?[A-Za-z_]\w*)\(", l) or re.match(r"(?:.* )?(operator<<|main|static void \w+)\(", l) if l[:1] not in (" ", "/", "#", "*") else None
                if m: fn = m.group(1); continue
                if not fn or fn == 'operator<<' or not l.startswith("    "): continue
                def add(new, kind): r.append((f, i, l, new, kind, fn))
                if re.search(r"qC?(Debug|Warning|Info|Critical)\(", l) or l.strip().startswith(("//", "*", "/*", "#")): continue
                if l.rstrip().endswith(";") and not SKIP.search(l) and "(" not in l[:4] and l.count("(") == l.count(")") and L[i - 1].rstrip()[-1:] in (";", "{", "}", "") or (l.rstrip().endswith("return;")): add(re.match(r"\s*", l).group(0) + ";", "delete")
                m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) ?\{?)$", l)
                if m: add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate")
                for a, b in ((" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("return true", "return false"), ("return false", "return true"), (" + ", " - "), (" += ", " -= "), ("++", "--"), ("= true", "= false"), ("= false", "= true"), ("(true)", "(false)"), ("(false)", "(true)")):
                    if a in l and "<<" not in l and "template" not in l: add(l.replace(a, b, 1), a.strip() + "->" + b.strip())
                m = re.search(r"\b([0-9]+)\b", l)
                if m and "QLatin" not in l and not l.strip().startswith("case") and not re.search(r'"[^"]*\b' + m.group(1) + r'\b[^"]*"', l): add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "const")
    return r


def worker(w, q, out, lock):
    d = "/tmp/mt/w%d" % w; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar -x -C " + d, shell=True, check=True)
    os.environ["VP_REPO"] = d
    import vpbuild; vpbuild.REPO = d
    ev = {}
    for p in glob.glob(V + "/evidence/C*.json"):
        e = json.load(open(p)); ev[e["property"]] = ("\n".join(e["coverage"]["functions_encoded"]), e["wall_s"])
    while True:
        try: m = q.get(timeout=2)
        except Exception: return
        f, i, l, new, kind, fn = m
        p = f.replace("/repo", d); src = open(p).read(); L = src.split("\n"); L[i] = new
        open(p, "w").write("\n".join(L)); res = "survived"; by = []
        try:
            cl = fn.split("::")[0]
            cs = sorted([c for c in CHECKS if fn + "(" in ev[c][0]], key=lambda c: ev[c][1])
            if f.endswith("main.cpp"): cs = [dict(server="C34", tunnelclient="C35", monitor="C36")[os.path.basename(os.path.dirname(f))]]
            if not cs: res = "not encoded"
            for c in cs:
                try: b = vpbuild.Build(CHECKS[c]["harness"], native=False, jobs=2).go()
                except vpbuild.BuildError as e: res = "no build"; break
                for g in CHECKS[c]["fns"]:
                    if g.get("thorough_only"): continue
                    pr = dict(g.get("params", {})); pr.update(g.get("quick", {})); jl = d + "/o.jsonl"
                    cmd = [b.symex, b.bc, "--fn", g["fn"], "--out", jl, "--time", "40", "--procs", "2", "--max-viol", "1"] + (["--steps", str(g["steps"])] if "steps" in g else []) + sum([["--param", "%s=%d" % kv] for kv in pr.items()], [])
                    if os.path.exists(jl): os.remove(jl)
                    try: subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    except subprocess.TimeoutExpired: by.append(c + "/" + g["fn"] + " timeout"); continue
                    R = [json.loads(x) for x in open(jl)] if os.path.exists(jl) else []
                    if any(x["t"] == "violation" for x in R): res = "killed"; by.append(c + "/" + g["fn"]); break
                    if any(x["t"] == "error" for x in R): by.append(c + "/" + g["fn"] + " error")
                if res == "killed": break
        finally: open(p, "w").write(src)
        with lock:
            with open(out, "a") as o: o.write(json.dumps(dict(res=res, by=by, file=f[6:], line=i + 1, fn=fn, kind=kind, old=l.strip(), new=new.strip())) + "\n")


if __name__ == "__main__":
    out, n, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); M = mutants()
    if len(sys.argv) > 5: M = [m for m in M if re.search(sys.argv[5], m[0])]
    done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    M = [m for m in M if (m[0][6:], m[1] + 1, m[3].strip()) not in done]
    random.Random(seed).shuffle(M); print(len(M), "mutants"); M = M[:count]
    if n == 0:
        for m in M: print(m)
        sys.exit()
    q = multiprocessing.Queue(); lock = multiprocessing.Lock()
    for m in M: q.put(m)
    P = [multiprocessing.Process(target=worker, args=(w, q, out, lock)) for w in range(n)]
    for p in P: p.start()
    for p in P: p.join()
