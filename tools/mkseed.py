#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new[, count])], demo=C++ text, needs, breaks)]"""
import sys, os, json, subprocess, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = "/tmp/mkseed"
B = "include/boost/numeric/odeint/"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for e in s["edits"]:
        p = os.path.join(W, B + e[0]); t = open(p).read()
        assert t.count(e[1]) >= 1, (s["id"], e[0], e[1])
        assert len(e) > 3 or t.count(e[1]) == 1, (s["id"], "ambiguous", t.count(e[1]), e[1])
        if len(e) > 3:   # occurrence index
            parts = t.split(e[1]); i = e[3]
            t = e[1].join(parts[:i + 1]) + e[2] + e[1].join(parts[i + 1:])
        else: t = t.replace(e[1], e[2])
        open(p, "w").write(t)
    d = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout
    o = os.path.join(V, "seeded", s["id"]); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.cpp", "w").write(s["demo"])
    open(o + "/demo.sh", "w").write("""#!/bin/bash
# run in the root of the repository; exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s -std=gnu++14 -w -Iinclude %s "$here/demo.cpp" -o "$tmp/demo" %s || exit 3
exec_out=$(cd "$tmp" && timeout 60 ./demo); rc=$?
echo "$exec_out"
exit $rc
""" % (s.get("cxx", "g++"), s.get("flags", "-O1"), s.get("libs", "")))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    print("seed", s["id"])
shutil.rmtree(W, ignore_errors=True)
