#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source; main returns 0 when
the property holds), optional flags.  Writes seeded/<id>/."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    out = ""
    for f in sorted({e[0] for e in ns["edits"]}):
        a, b = os.path.join(w, "a", f), os.path.join(w, "b", f)
        os.makedirs(os.path.dirname(a)); os.makedirs(os.path.dirname(b))
        s = open("/repo/" + f).read()
        open(a, "w").write(s)
        for (ff, old, new) in ns["edits"]:
            if ff == f:
                assert s.count(old) == 1, (ns["id"], f, s.count(old), old)
                s = s.replace(old, new)
        open(b, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, a, b], stdout=subprocess.PIPE, text=True)
        out += "diff --git a/%s b/%s\n" % (f, f) + r.stdout
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.cpp"), "w").write(ns["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the property holds here; run in the root of a strf tree
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -f "$T/demo"; rmdir "$T"' EXIT
g++ -std=c++20 -O1 %s -I "$PWD/include" "$H/demo.cpp" -o "$T/demo" || exit 8
timeout 120 "$T/demo"
''' % ns.get("flags", ""))
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
    print(ns["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
