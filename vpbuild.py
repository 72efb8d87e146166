"""Builds everything a check needs from /repo's working tree: the symbolic engine, the bitcode of the
code under test with the Qt model and environment, and the native replay program."""
import hashlib, os, re, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
Q = "/usr/include/x86_64-linux-gnu/qt5"
MOC = "/usr/lib/qt5/bin/moc"
QINC = ["-I" + Q, "-I" + Q + "/QtCore", "-I" + Q + "/QtNetwork", "-I" + Q + "/QtWebSockets"]
DEFS = ["-DQT_NO_DEBUG", "-DQT_WEBSOCKETS_LIB", "-DQT_NETWORK_LIB", "-DQT_CORE_LIB"]
QTHDR = """QtCore/qobject.h QtCore/qtimer.h QtCore/qiodevice.h QtCore/qcoreapplication.h QtCore/qsettings.h QtCore/qfile.h
QtCore/qfiledevice.h QtCore/qbuffer.h QtNetwork/qabstractsocket.h QtNetwork/qtcpsocket.h QtNetwork/qsslsocket.h QtNetwork/qsslerror.h
QtNetwork/qtcpserver.h QtNetwork/qlocalserver.h QtNetwork/qlocalsocket.h QtWebSockets/qwebsocket.h QtWebSockets/qwebsocketserver.h""".split()
NATIVE_QT = {"qtimer", "qsocketnotifier", "qabstractsocket", "qtcpsocket", "qsslsocket", "qsslerror", "qtcpserver", "qlocalserver", "qlocalsocket", "qwebsocket", "qwebsocketserver"}
# further sources of /repo (with their headers) that only some harnesses need
EXTRA = {"c30": ["monitor/noninteractivemonitor"], "c31": ["monitor/monitor", "monitor/terminalwindow"], "c32": ["tunnelclient/clientconnection", "tunnelclient/serverconnection"],
    "c34": ["server/main", "server/remoteproxyserverapplication"], "c35": ["tunnelclient/main", "tunnelclient/clientconnection", "tunnelclient/serverconnection"],
    "c36": ["monitor/main", "monitor/noninteractivemonitor", "monitor/monitor", "monitor/terminalwindow"]}
PROGRAMS = ("c34", "c35", "c36")  # whole programs: main() is called by the harness
REDIRECT = ["-include", V + "/env/program_redirect.h"]
CLANG = ["clang++-18"]
BCF = "-O1 -g -fno-vectorize -fno-slp-vectorize -emit-llvm -c -w -fno-pic -D__PIC__=2 -D_GLIBCXX_EXTERN_TEMPLATE=0".split()
MODELF = "-fno-builtin -fno-access-control -fno-exceptions -DVP_ENGINE".split()
NATF = "-O0 -g1 -fPIC -c -w -fsanitize=address -fno-omit-frame-pointer".split()


class BuildError(Exception):
    pass


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout


def cached(key, suffix, make):
    """Object with that content key, made by make(tmpname) when absent."""
    d = os.path.join(B, "obj")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, key + suffix)
    if not os.path.exists(p):
        t = "%s.%d.tmp%s" % (p, os.getpid(), suffix)
        make(t)
        os.replace(t, p)
    else:
        os.utime(p)
    return p


def repo_files(harness):
    src, hdr = [], []
    for d in ("common", "libnymea-remoteproxy", "libnymea-remoteproxyclient"):
        for r, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                if f.startswith("moc_"):
                    continue
                if f.endswith(".cpp"):
                    src.append(os.path.join(r, f))
                elif f.endswith(".h"):
                    hdr.append(os.path.join(r, f))
    src.append(os.path.join(REPO, "monitor/monitorclient.cpp"))
    hdr.append(os.path.join(REPO, "monitor/monitorclient.h"))
    for f in EXTRA.get(harness, []):
        src.append(os.path.join(REPO, f + ".cpp"))
        if not f.endswith("/main"):
            hdr.append(os.path.join(REPO, f + ".h"))
    return src, hdr


def version_h():
    """<dir>/version.h with <dir>/x on the include path, for #include "../version.h"."""
    vals = {"SERVER_VERSION": ""}
    for m in re.finditer(r"^\s*([A-Z_]+)\s*=\s*([^\s$]\S*)\s*$", rd(os.path.join(REPO, "nymea-remoteproxy.pro")).decode(), re.M):
        vals[m.group(1)] = m.group(2)
    m = re.search(r"\(([^)]+)\)", rd(os.path.join(REPO, "debian/changelog")).decode(errors="replace")) if os.path.exists(os.path.join(REPO, "debian/changelog")) else None
    if m:
        vals["SERVER_VERSION"] = m.group(1)
    t = rd(os.path.join(REPO, "version.h.in")).decode()
    t = re.sub(r"\$\$([A-Z_]+)", lambda m: vals.get(m.group(1), ""), t)
    t = re.sub(r"'(\"[^\"]*\")'", r"\1", t)
    d = os.path.join(B, "inc-" + sha(t))
    if not os.path.exists(d + "/version.h"):
        os.makedirs(d + "/x", exist_ok=True)
        with open(d + "/version.h.%d" % os.getpid(), "w") as f:
            f.write(t)
        os.replace(d + "/version.h.%d" % os.getpid(), d + "/version.h")
    return d, vals


class Build:
    def __init__(self, harness, native=True, jobs=8):
        self.harness, self.native, self.jobs = harness, native, jobs

    def engine(self):
        srcs = [os.path.join(V, "engine", f) for f in ("expr.cpp", "solver.cpp", "exec.cpp")]
        hd = b"".join(rd(os.path.join(V, "engine", f)) for f in ("expr.h", "solver.h", "exec.h"))
        cxxf = run(["llvm-config-18", "--cxxflags"]).decode().split() + "-O2 -std=c++17 -fexceptions -w".split()
        libs = run(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support", "demangle", "bitreader", "--link-shared"]).decode().split() + ["-lz3"]
        futs = [self.pool.submit(cached, sha("eng", rd(s), hd), ".o", lambda t, s=s: run(["g++"] + cxxf + ["-c", s, "-o", t])) for s in srcs]

        def link():
            objs = [f.result() for f in futs]
            return cached(sha("symex", *objs), ".exe", lambda t: run(["g++", "-o", t] + objs + libs))
        return link

    def go(self):
        self.pool = ThreadPoolExecutor(self.jobs)
        inc, self.vals = version_h()
        src, hdr = repo_files(self.harness)
        rinc = ["-I" + REPO, "-I" + REPO + "/common", "-I" + REPO + "/libnymea-remoteproxy", "-I" + REPO + "/libnymea-remoteproxyclient", "-I" + inc + "/x"]
        hh = sha(*[h + rd(h).decode(errors="replace") for h in hdr], rd(inc + "/version.h"))
        repof = ["-std=gnu++11", "-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00"] + DEFS + QINC + rinc
        modelf = ["-std=gnu++11"] + DEFS + QINC
        envh = sha(rd(V + "/env/env.h"), rd(V + "/env/vp.h"))
        modh = sha(rd(V + "/model/m.h"), rd(V + "/model/object.h"), rd(V + "/model/canconvert.inc"))
        harh = sha(envh, *[rd(os.path.join(V, "harness", f)) for f in sorted(os.listdir(V + "/harness")) if f.endswith(".h")])
        bcjobs, natjobs = [], []

        def bc(s, flags, *key):
            bcjobs.append(self.pool.submit(cached, sha("bc", rd(s), s, flags, BCF, *key), ".bc", lambda t: run(CLANG + flags + BCF + [s, "-o", t])))

        def nat(s, flags, *key):
            natjobs.append(self.pool.submit(cached, sha("nat", rd(s), s, flags, NATF, *key), ".o", lambda t: run(["g++"] + flags + NATF + [s, "-o", t])))

        def mocs(h, extra, isqt):
            txt = rd(h)
            if isqt:
                txt = b"\n".join(l for l in txt.split(b"\n") if b"Q_PRIVATE_SLOT" not in l)

                def mk(t):
                    d = t + ".d"
                    os.makedirs(d)
                    p = os.path.join(d, os.path.basename(h))
                    with open(p, "wb") as f:
                        f.write(txt)
                    run([MOC] + DEFS + QINC + ["-f" + isqt, p, "-o", t])
                    shutil.rmtree(d)
                return cached(sha("mocqt", txt, h), ".cpp", mk)
            return cached(sha("moc", txt, h, hh), ".cpp", lambda t: run([MOC] + DEFS + QINC + rinc + [h, "-o", t]))

        eng = self.engine()
        moced = [h for h in hdr if re.search(rb"\bQ_(OBJECT|GADGET)\b", rd(h))]
        mocf = [(self.pool.submit(mocs, h, None, None), False, True) for h in moced]
        mocf += [(self.pool.submit(mocs, os.path.join(Q, h), None, h), True, os.path.basename(h)[:-2] in NATIVE_QT) for h in QTHDR + (["QtCore/qsocketnotifier.h"] if self.harness in PROGRAMS else [])]
        harn = [os.path.join(V, "harness", self.harness + ".cpp")]
        hflags = ["-std=gnu++11"] + DEFS + QINC + rinc + ["-I" + V + "/env", "-I" + V + "/harness", "-I" + REPO + "/monitor", "-I" + REPO + "/tunnelclient", "-fno-access-control"]
        for s in harn:
            bc(s, hflags + ["-DVP_ENGINE"], hh, harh)
        def flags(s):
            d = os.path.dirname(s)
            return repof + (["-I" + d] + REDIRECT if self.harness in PROGRAMS and os.path.basename(d) in ("server", "tunnelclient", "monitor") and os.path.dirname(d) == REPO.rstrip("/") else [])
        redir = [sha(rd(V + "/env/program_redirect.h"))] if self.harness in PROGRAMS else []
        for s in src:
            bc(s, flags(s), hh, *redir)
        hm = os.path.join(V, "harness", self.harness + "_moc.h")
        if os.path.exists(hm):  # harness classes with a meta object
            hmoc = cached(sha("mochar", rd(hm), hm, hh), ".cpp", lambda t: run([MOC] + DEFS + QINC + rinc + [hm, "-o", t]))
            bc(hmoc, hflags + ["-DVP_ENGINE"], hh, harh)
        for f in ("core", "string", "variant", "json", "object", "io", "stdcpp") + (("program",) if self.harness in PROGRAMS else ()):
            bc("%s/model/%s.cpp" % (V, f), modelf + MODELF, modh)
        bcjobs.append(self.pool.submit(cached, sha("mc", rd(V + "/model/memchr.c")), ".bc", lambda t: run(["clang-18"] + "-O1 -g -fno-builtin -fno-vectorize -fno-slp-vectorize -emit-llvm -c".split() + [V + "/model/memchr.c", "-o", t])))
        envs = ["timer", "net"] + {"c31": ["curses"], "c32": ["rand"], "c34": ["program"], "c35": ["program", "rand"], "c36": ["program", "curses"]}.get(self.harness, [])
        for f in envs:
            bc("%s/env/%s.cpp" % (V, f), modelf + MODELF + ["-I" + V + "/env"], envh)
        mocr = [(fu.result(), isqt, isnat) for fu, isqt, isnat in mocf]

        def unity(fs):
            """One source that includes the given ones."""
            def mk(t):
                with open(t, "w") as f:
                    f.write("".join('#include "%s"\n' % x for x in fs))
            return cached(sha("unity", *fs), ".cpp", mk)
        qtm, repm = [m for m, q, _ in mocr if q], [m for m, q, _ in mocr if not q]
        for i in range(2):  # two of each: all cores busy
            for fs, fl in ((qtm[i::2], modelf + MODELF + ["-DBUILDING_QSOCKETNOTIFIER"]), (repm[i::2], repof)):
                if fs:
                    bc(unity(fs), fl, hh)
        if self.native:
            nq = ["-std=gnu++11"] + DEFS + QINC + ["-fno-access-control", "-I" + V + "/env"]
            for s in harn + ([hmoc] if os.path.exists(hm) else []):
                nat(s, hflags, hh, harh)
            for s in src:
                nat(s, flags(s), hh, *redir)
            for f in envs + ["vp_native"]:
                nat("%s/env/%s.cpp" % (V, f), nq, envh)
            for fs, fl in (([m for m, q, n in mocr if q and n], nq + ["-DBUILDING_QSOCKETNOTIFIER"]), (repm, repof)):
                if fs:
                    nat(unity(fs), fl, hh)
        bcs = [j.result() for j in bcjobs]
        self.bc = cached(sha("link", *bcs), ".bc", lambda t: run(["llvm-link-18"] + bcs + ["-o", t]))
        self.symex = eng()
        self.natjobs = natjobs
        return self

    def replay(self):
        objs = [j.result() for j in self.natjobs]
        libs = ["-L/usr/lib/x86_64-linux-gnu", "-lQt5Core", "-ldl", "-rdynamic", "-Wl,-z,lazy", "-Wl,--wrap=exit", "-Wl,--unresolved-symbols=ignore-all", "-fsanitize=address"]
        return cached(sha("nlink3", *objs), ".exe", lambda t: run(["g++", "-o", t] + objs + libs))


def prune(limit=4 << 30):
    d = os.path.join(B, "obj")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))
    tot = sum(os.path.getsize(p) for _, p in fs)
    for _, p in fs:
        if tot < limit or os.path.getmtime(p) > time.time() - 3600:
            break
        tot -= os.path.getsize(p)
        os.remove(p)


if __name__ == "__main__":
    t = time.time()
    b = Build(sys.argv[1]).go()
    print("%.1f" % (time.time() - t), b.bc, b.symex)
    print(b.replay(), "%.1f" % (time.time() - t))
