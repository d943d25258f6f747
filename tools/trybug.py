#!/usr/bin/env python3
"""Try planted bugs in a scratch copy of /repo: trybug.py [-n] ID... ; -n skips building and testing the repository.
Reports: applies, stable tests still pass, demo before/after, what the property's check says."""
import sys, os, json, subprocess, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = "/tmp/sc"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    os.makedirs(S, exist_ok=True)
    sh("rsync -a --delete --exclude=/.git --exclude=/_build /repo/ %s/repo/" % S) if shutil.which("rsync") else None
    if not os.path.isdir(S + "/repo"): sh("cp -a /repo %s/repo" % S)
    sh("cd %s/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq" % S)
    if not os.path.exists(S + "/odeint.py"):
        for f in os.listdir("/opt/vp"):
            if os.path.isfile("/opt/vp/" + f):
                t = open("/opt/vp/" + f, errors="replace").read().replace("/repo", S + "/repo").replace("/opt/vp", S)
                open(S + "/" + f, "w").write(t); os.chmod(S + "/" + f, 0o755)
nob = "-n" in sys.argv
base = json.load(open("/opt/vp/BASELINE.json"))
rc = 0
for b in [a for a in sys.argv[1:] if a != "-n"]:
    d = os.path.join(V, "seeded", b); fresh()
    meta = json.load(open(d + "/meta.json")); p = meta["property"]
    demo = "/tmp/sc/demo"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    for f in ("patch.diff", "meta.json"): os.path.exists(demo + "/" + f) and os.unlink(demo + "/" + f)
    R = S + "/repo"
    d0 = sh("bash %s/demo.sh" % demo, cwd=R)
    a = sh("git apply %s/patch.diff" % d, cwd=R)
    if a.returncode: print(b, "PATCH DOES NOT APPLY", a.stdout); rc = 1; continue
    d1 = sh("bash %s/demo.sh" % demo, cwd=R)
    t = "tests skipped"
    if not nob:
        sh("bash %s/build.sh" % S); o = S + "/out.json"; sh("bash %s/test.sh %s" % (S, o))
        r = json.load(open(o))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        passed = set(r.get("passed", []))
        miss = [x for x in stable if x not in passed]
        t = "tests ok" if not miss else "TESTS BROKEN %s" % miss[:5]
    c = sh("VP_REPO=%s python3 checks/%s.py" % (R, p.lower()), cwd=V)
    v = [l for l in c.stdout.splitlines() if "violated" in l or "VIOLATION" in l]
    print("%s [%s]: demo %d -> %d %s; %s; check exit %d %s" % (b, p, d0.returncode, d1.returncode, "" if d0.returncode == 0 and d1.returncode else "DEMO BAD " + d0.stdout[-300:] + d1.stdout[-300:], t, c.returncode,
          "CAUGHT" if c.returncode == 1 else "MISSED " + c.stdout[-300:]), *(v[1:3]), sep="\n    ", flush=True)
    sh("git checkout -q -- .", cwd=R)
