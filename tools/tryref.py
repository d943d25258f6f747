#!/usr/bin/env python3
"""Edits that keep the behaviour must leave the checks quiet: tryref.py SPEC.py [id substring…]
A spec defines R = [dict(id, checks=["c09", …], edits=[(file below include/boost/numeric/odeint, old, new[, count])…])]."""
import sys, os, subprocess, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = "/tmp/rf%d" % os.getpid()
ns = {}
exec(open(sys.argv[1]).read(), ns)
bad = 0
for r in ns["R"]:
    if sys.argv[2:] and not any(s in r["id"] for s in sys.argv[2:]):
        continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    shutil.copytree("/repo/include", W + "/include")
    ok = True
    for e in r["edits"]:
        p = W + "/include/boost/numeric/odeint/" + e[0]
        s = open(p).read()
        if s.count(e[1]) < 1 or len(e) > 3 and s.count(e[1]) != e[3] or len(e) == 3 and s.count(e[1]) != 1:
            print(r["id"], "edit matches %d times in %s: %s" % (s.count(e[1]), e[0], e[1][:80])); ok = False
        open(p, "w").write(s.replace(e[1], e[2]))
    if not ok:
        bad += 1
        continue
    if os.environ.get("DEV"):
        o = subprocess.run("VP_REPO=%s timeout 1800 %s %s" % (W, os.environ["DEV"], r.get("dev", "")), shell=True, cwd=V, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
        b = [l for l in o.splitlines() if "BAD" in l or "rror" in l]
        print("%-40s %s" % (r["id"], "ok" if not b else "ALARM %d" % len(b)), flush=True)
        print("\n".join(l[:300] for l in o.splitlines() if "BAD" in l or "rror" in l or "  with " in l or "obl" in l and b)[:3000], flush=True)
        continue
    for c in r["checks"]:
        o = subprocess.run("VP_REPO=%s timeout 900 python3-vt checks/%s.py" % (W, c), shell=True, cwd=V, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("%-40s %s exit %d %s" % (r["id"], c, o.returncode, "quiet" if o.returncode == 0 else "ALARM"), flush=True)
        if o.returncode:
            bad += 1
            print("\n".join("    " + l[:400] for l in o.stdout.splitlines() if "violated" in l or "VIOL" in l or "rror" in l)[:1500], flush=True)
shutil.rmtree(W, ignore_errors=True)
sys.exit(bad > 0)
