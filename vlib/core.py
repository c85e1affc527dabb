"""Shared driver: build the analyser, compile /repo's translation units to LLVM bitcode,
run analyses, compare against expectations, write evidence and VIOLATION lines."""
import concurrent.futures, fcntl, hashlib, json, os, re, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DYND_REPO", "/repo")
WORK = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(VERIF, "build", "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:10])
NPROC = os.cpu_count() or 4
LLVM = "/usr/lib/llvm-18/bin"
CLANGXX = os.path.join(LLVM, "clang++")
CLANG = os.path.join(LLVM, "clang")


class AnalysisBroken(Exception):
    """The check cannot give a verdict (anchor vanished, build failed...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sha_file(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


# ---------------------------------------------------------------- analyser
def build_tool():
    """Compile the analyser from /verif/sa (cached on content)."""
    sadir = os.path.join(VERIF, "sa")
    srcs = sorted(f for f in os.listdir(sadir) if f.endswith(".cpp"))
    hdrs = sorted(f for f in os.listdir(sadir) if f.endswith(".h"))
    bdir = os.path.join(VERIF, "build", "sa")
    os.makedirs(bdir, exist_ok=True)
    hh = "".join(sha_file(os.path.join(sadir, h)) for h in hdrs)
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cxxflags = sh([LLVM + "/llvm-config", "--cxxflags"]).stdout.split()
        cxxflags = [f for f in cxxflags if not f.startswith("-std") and f != "-fno-exceptions"]
        ldflags = sh([LLVM + "/llvm-config", "--ldflags", "--libs"]).stdout.split()

        def one(s):
            key = hashlib.sha1((hh + sha_file(os.path.join(sadir, s))).encode()).hexdigest()[:16]
            obj = os.path.join(bdir, s + "." + key + ".o")
            if not os.path.exists(obj):
                r = sh([CLANGXX] + cxxflags + ["-std=c++17", "-O1", "-fno-rtti", "-w", "-c", os.path.join(sadir, s), "-o", obj + ".tmp"])
                if r.returncode:
                    raise AnalysisBroken("analyser build failed:\n" + r.stdout[-4000:])
                os.rename(obj + ".tmp", obj)
            return obj

        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, srcs))
        key = hashlib.sha1(" ".join(objs).encode()).hexdigest()[:16]
        exe = os.path.join(bdir, "dyndsa." + key)
        if not os.path.exists(exe):
            r = sh([CLANGXX] + objs + ["-o", exe + ".tmp"] + ldflags + ["-lpthread"])
            if r.returncode:
                raise AnalysisBroken("analyser link failed:\n" + r.stdout[-4000:])
            os.rename(exe + ".tmp", exe)
    return exe


# ---------------------------------------------------------------- repo units
_cdb = None


def compdb():
    """Compile commands of the library's own translation units, from a fresh cmake configure."""
    global _cdb
    if _cdb is not None:
        return _cdb
    cm = os.path.join(WORK, "cmake")
    os.makedirs(WORK, exist_ok=True)
    with Lock("cmake"):
        r = sh(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=", "-DDYND_BUILD_TESTS=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=-O1 -Wno-error", "-DCMAKE_C_FLAGS=-Wno-error"])
        if r.returncode:
            raise AnalysisBroken("cmake configure failed:\n" + r.stdout[-3000:])
        db = json.loads(
            subprocess.run(["ninja", "-C", cm, "-t", "compdb"], stdout=subprocess.PIPE, text=True).stdout)
    units = {}
    for e in db:
        f = e["file"]
        if not os.path.isabs(f):
            f = os.path.normpath(os.path.join(e["directory"], f))
        if not f.endswith((".cpp", ".c", ".cc")):
            continue
        rel = os.path.relpath(f, REPO)
        if rel.startswith(("tests/", "examples/", "benchmarks/", "thirdparty/", "..")):
            if not f.startswith(cm):
                continue
            if "/src/" not in f:
                continue
            rel = "<gen>/" + os.path.relpath(f, cm)
        args = shlex.split(e["command"])
        keep = []
        i = 0
        while i < len(args):
            a = args[i]
            if a in ("-I", "-isystem", "-D", "-U", "-include"):
                keep += [a, args[i + 1]]
                i += 1
            elif a.startswith(("-I", "-D", "-U", "-isystem")):
                keep.append(a)
            i += 1
        if rel in units:
            continue
        units[rel] = {"file": f, "flags": keep, "dir": e["directory"]}
    if len(units) < 60:
        raise AnalysisBroken("only %d translation units found" % len(units))
    _cdb = units
    return units


def include_flags():
    u = compdb()["src/dynd/array.cpp"]
    return u["flags"]


def _compile(job):
    src, out, cmd, extra_key = job
    rec = out + ".json"
    key = hashlib.sha1(("\0".join(cmd) + extra_key).encode()).hexdigest()
    if os.path.exists(rec) and os.path.exists(out):
        try:
            d = json.load(open(rec))
            if d["key"] == key and all(os.path.exists(p) and sha_cached(p) == h for p, h in d["deps"].items()):
                return out
        except (ValueError, KeyError):
            pass
    dep = out + ".d"
    r = sh(cmd + ["-MD", "-MF", dep, "-o", out])
    if r.returncode:
        raise AnalysisBroken("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))
    txt = open(dep).read().replace("\\\n", " ").split(":", 1)[1]
    deps = {p: sha_cached(p) for p in txt.split() if not p.startswith("/usr/")}
    json.dump({"key": key, "deps": deps}, open(rec, "w"))
    return out


_sha_cache = {}


def sha_cached(p):
    if p not in _sha_cache:
        _sha_cache[p] = sha_file(p)
    return _sha_cache[p]


CXXBASE = ["-std=c++14", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fPIC", "-emit-llvm", "-c",
           "-fno-strict-aliasing"]


def bitcode(rels=None, debug="-gline-tables-only"):
    """Compile the given translation units (default: all) of /repo's working tree to bitcode."""
    units = compdb()
    if rels is None:
        rels = sorted(units)
    jobs = []
    bdir = os.path.join(WORK, "bc" + ("" if debug == "-gline-tables-only" else debug))
    os.makedirs(bdir, exist_ok=True)
    for r in rels:
        if r not in units:
            raise AnalysisBroken("translation unit %s is no longer part of the build" % r)
        u = units[r]
        base = [x if x != "-gline-tables-only" else debug for x in CXXBASE]
        if u["file"].endswith(".c"):
            cmd = [CLANG] + [x for x in base if x != "-std=c++14"] + ["-std=gnu11"]
        else:
            cmd = [CLANGXX] + base
        cmd += u["flags"] + [u["file"]]
        jobs.append((r, os.path.join(bdir, r.replace("/", "_").replace("<", "").replace(">", "") + ".bc"), cmd, ""))
    with Lock("bc"):
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            return dict(zip(rels, ex.map(_compile, jobs)))


def compile_witness(name, text, flags=(), opt=None):
    """Compile a generated or committed witness unit (against /repo's headers) to bitcode."""
    wdir = os.path.join(WORK, "wit")
    os.makedirs(wdir, exist_ok=True)
    src = os.path.join(wdir, name + ".cpp")
    if not os.path.exists(src) or open(src).read() != text:
        open(src, "w").write(text)
        _sha_cache.pop(src, None)
    out = os.path.join(wdir, name + ".bc")
    cmd = [CLANGXX] + (CXXBASE if opt is None else opt) + list(flags) + include_flags() + [src]
    return _compile((name, out, cmd, ""))


def run_tool(args, files, jobs=None):
    """Run the analyser once per file in parallel; collect JSON lines."""
    exe = build_tool()

    def one(f):
        r = subprocess.run([exe] + args + ([f] if isinstance(f, str) else list(f)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise AnalysisBroken("analyser failed (%d) on %s: %s" % (r.returncode, f, r.stderr[-3000:]))
        out = []
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                out.append(json.loads(l))
        return out

    res = []
    with concurrent.futures.ThreadPoolExecutor(jobs or NPROC) as ex:
        for o in ex.map(one, files):
            res += o
    return res


def relpath(p):
    if p and p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


# ---------------------------------------------------------------- reporting
class Report:
    """obligations: list of dicts {key, where, what, ok, why}."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = {}
        self.notes = {}
        self.assumptions = []

    def add(self, key, ok, where="", why="", **kw):
        """One obligation; duplicates (same key from several units) are merged, failing wins."""
        o = self.obl.get(key)
        if o is None or (o["ok"] and not ok):
            self.obl[key] = dict(key=key, ok=bool(ok), where=relpath(where), why=why, **kw)

    def finish(self, minimum, rule, explanation, units=None, floors=None):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        obls = list(self.obl.values())
        bad = sorted((o for o in obls if not o["ok"]), key=lambda o: o["key"])
        known = load_known(self.pid)
        kn, new = [], []
        for o in bad:
            (kn if o["key"] in known else new).append(o)
        if not new:
            if len(obls) < minimum:
                raise AnalysisBroken("%s: only %d obligations found, expected at least %d (rule no longer matches the code)" % (self.pid, len(obls), minimum))
            for k, v in (floors or {}).items():
                if self.notes.get(k, 0) < v:
                    raise AnalysisBroken("%s: %s is %s, expected at least %d" % (self.pid, k, self.notes.get(k, 0), v))
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": explanation, "rule": rule, "obligations": len(obls),
                "discharged": len(obls) - len(bad), "known_findings": len(kn), "counts": self.notes,
                "samples": [{k: o[k] for k in ("key", "where", "ok", "why")} for o in (new + kn + sorted(obls, key=lambda o: hashlib.sha1((str(seed) + o["key"]).encode()).hexdigest())[:6])[:40]],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        ev["coverage"]["violation_list"] = [{"key": o["key"], "where": o["where"], "why": o["why"]} for o in new]
        if units is not None:
            ev["coverage"]["units_analysed"] = units
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in kn:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.pid, o["key"], o["where"], o["why"]))
        print("%s: %d obligations, %d discharged, %d known findings, %d new violations (%.1fs)" % (self.pid, len(obls), len(obls) - len(bad), len(kn), len(new), time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o in new:
                    f.write("%s\n  where: %s\n  why:   %s\n  rule:  %s\n" % (o["key"], o["where"], o["why"], rule))
            for o in new[:20]:
                print("  %s at %s: %s" % (o["key"], o["where"], o["why"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    """known_findings.txt: '<property> | <obligation key> | <description>' lines; 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            parts = [x.strip() for x in l.split(" | ")]
            if len(parts) >= 3 and parts[0] == pid:
                res[parts[1]] = parts[2]
    return res


def main(fn, pid):
    try:
        sys.exit(fn())
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(2)
