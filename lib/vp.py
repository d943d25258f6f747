"""Common driver: building witnesses, running the abstract interpreter, reporting."""
import os, sys, json, time, hashlib, subprocess, traceback, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang++"
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "witness")]
IRFLAGS = ["-std=gnu++14", "-w", "-DBOOST_ALL_NO_LIB=1", "-DNDEBUG", "-O1", "-Xclang", "-disable-llvm-passes",
           "-fno-exceptions", "-fno-threadsafe-statics", "-gline-tables-only", "-fno-strict-aliasing", "-ffp-contract=off"]


class WitnessError(Exception):
    """the witness program could not be built from the current tree"""
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def irdump_path():
    src = os.path.join(ROOT, "engine", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        flags = sh([LLVM + "/llvm-config", "--cxxflags", "--ldflags"]).stdout.split()
        tmp = exe + ".%d" % os.getpid()
        r = sh([CLANG, "-O1", src, "-o", tmp] + flags + ["-lLLVM-18"])
        if r.returncode:
            raise RuntimeError("cannot build irdump:\n" + r.stdout)
        os.replace(tmp, exe)
    return exe


class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="scratch-", dir=BUILD)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = Scratch()
        import atexit
        atexit.register(_scratch.close)
    return _scratch.dir


def build_ir(src_text, tag, extra=(), opaque=()):
    """compile a witness text against the current /repo, normalise, return Module"""
    import interp
    d = scratch()
    cpp, ll, js = [os.path.join(d, tag + e) for e in (".cpp", ".ll", ".json")]
    with open(cpp, "w") as f:
        f.write(src_text)
    r = sh([CLANG] + IRFLAGS + INC + list(extra) + ["-S", "-emit-llvm", "-MD", "-MF", js + ".d", cpp, "-o", ll])
    if r.returncode:
        raise WitnessError("witness %s does not compile" % tag, r.stdout)
    dep = open(js + ".d").read().replace("\\\n", " ").split()
    for h in dep:
        if h.startswith("/usr/include/boost/numeric/odeint"):
            raise RuntimeError("system odeint header picked up: " + h)
    r = sh([irdump_path(), ll, js] + list(opaque))
    if r.returncode:
        raise RuntimeError("irdump failed: " + r.stdout)
    m = interp.Module(js)
    m.headers = sorted(h for h in dep if h.startswith(REPO + "/include"))
    m.src = src_text
    os.unlink(ll)
    return m


def read_witness(name):
    return open(os.path.join(ROOT, "witness", name)).read()


def build_many(jobs):
    """jobs: list of (text, tag, extra) -> list of Module or exception"""
    irdump_path()
    scratch()

    def one(j):
        try:
            return build_ir(*j)
        except Exception as e:
            return e
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(one, jobs))


def pmap(fn, items, workers=8):
    """fn over items, each in a forked process of its own (results must be picklable), in order; the first exception is raised"""
    items = list(items)
    if len(items) < 2:
        return [fn(x) for x in items]
    import pickle
    d = tempfile.mkdtemp(prefix="pmap-", dir=BUILD)
    run, res, err = {}, {}, None
    todo = list(range(len(items)))
    try:
        while todo or run:
            while todo and len(run) < workers and not err:
                i = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        sys.setrecursionlimit(100000)
                        try:
                            out = (True, fn(items[i]))
                        except BaseException:
                            out = (False, traceback.format_exc())
                        with open("%s/%d" % (d, i), "wb") as f:
                            pickle.dump(out, f)
                    except BaseException:
                        code = 1
                    os._exit(code)
                run[pid] = i
            if err and not run:
                break
            pid, _ = os.wait()
            if pid not in run:
                continue
            i = run.pop(pid)
            try:
                with open("%s/%d" % (d, i), "rb") as f:
                    ok, v = pickle.load(f)
                os.remove("%s/%d" % (d, i))
                if ok:
                    res[i] = v
                else:
                    err = err or v
            except Exception:
                err = err or "worker died"
    finally:
        for pid in run:
            os.kill(pid, 9)
        shutil.rmtree(d, ignore_errors=True)
    if err:
        raise RuntimeError("in a worker: " + err)
    return [res[i] for i in range(len(items))]


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obl = 0
        self.done = 0
        self.bad = []
        self.samples = []
        self.counts = {}
        self.functions = set()
        self.headers = set()
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def analysed(self, module=None, func=None, interp=None):
        if module is not None:
            self.headers.update(h.split("/include/")[-1] for h in getattr(module, "headers", []))
        if func:
            self.functions.add(func)
        if interp is not None:
            for k, v in interp.stats.items():
                self.count("ir_" + k, v)
            self.count("events", len(interp.events))

    def check(self, inst, ok, detail="", site="", key=None):
        """one obligation; key identifies the instance in the known-findings file"""
        self.obl += 1
        if ok:
            self.done += 1
            if len(self.samples) < 40:
                self.samples.append(inst)
            return True
        key = key or inst
        for k in self.known:
            if k["key"] == key:
                self.known_hit.append((k, inst))
                return False
        self.bad.append((inst, detail, site))
        return False

    def finish(self):
        wall = time.time() - self.t0
        seen = set()
        for k, inst in self.known_hit:
            if k["key"] not in seen:
                seen.add(k["key"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": self.obl, "discharged": self.done,
                "analysed_witness_functions": len(self.functions),
                "library_headers_parsed": len(self.headers),
                "counts": self.counts,
                "samples": self.samples[:40],
                "known_findings_hit": len(seen),
            },
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.bad),
        }
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("property %s: %d obligations, %d discharged, %d known, %d violated; %d witness functions, %d headers; %.1fs" %
              (self.pid, self.obl, self.done, len(self.known_hit), len(self.bad), len(self.functions), len(self.headers), wall))
        if self.bad:
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.pid + ".txt")
            with open(p, "w") as f:
                for inst, detail, site in self.bad:
                    f.write("VIOLATED %s\n  site: %s\n  %s\n\n" % (inst, site, detail))
            for inst, detail, site in self.bad[:20]:
                print("  violated: %s\n    at %s\n    %s" % (inst, site or "?", str(detail)[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, ROOT)))
            return 1
        return 0


def syntax(text, tag="w", extra=(), std="gnu++14", compiler=None):
    """compile a program text (no code generated); (ok, log)"""
    d = scratch()
    cpp = os.path.join(d, tag + ".cpp")
    with open(cpp, "w") as f:
        f.write(text)
    r = sh([compiler or CLANG, "-std=" + std, "-w", "-DBOOST_ALL_NO_LIB=1", "-fsyntax-only", "-ferror-limit=3" if compiler is None else "-fmax-errors=3"] + INC + list(extra) + [cpp])
    return r.returncode == 0, r.stdout


def compiles(c, inst, text, site="", extra=(), tag="w"):
    """one obligation: the program is accepted by the type checker (the standard headers it needs are known to be there)"""
    ok, log = syntax(text, tag, extra)
    err = [l for l in log.splitlines() if "error" in l][:3]
    return c.check(inst, ok, " | ".join(err)[:900], site or (err[0].split(": error")[0] if err else ""))


def load_known(pid):
    p = os.path.join(ROOT, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main(pid, rule, fn, minimum=1):
    """run fn(check); exit 0/1, anything that stops the analysis exits 3"""
    c = Check(pid, rule)
    try:
        fn(c)
    except WitnessError as e:
        print("analysis error: %s\n%s" % (e, e.log[-3000:]))
        if c.bad:
            return c.finish()
        return 3
    except Exception:
        traceback.print_exc()
        if c.bad:
            return c.finish()
        return 3
    if c.obl < minimum:
        print("analysis broken: %d obligations, expected at least %d" % (c.obl, minimum))
        return 3
    return c.finish()
