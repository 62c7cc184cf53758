#!/usr/bin/env python3
"""seedtest.py ID... [--nobuild] [--nocheck]: try planted bugs in a scratch copy of /repo (never in /repo itself).
For each: applies, builds, passes the tests, demo 0 -> nonzero, and which checks report it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/vt_seedwt"


def sh(cmd, cwd=None, timeout=1200, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)


def reset():
    os.makedirs(W, exist_ok=True)
    assert sh("rsync -a --no-times --delete --checksum --exclude _build --exclude .git /repo/ %s/" % W).returncode == 0 if shutil.which("rsync") else fallback()


def fallback():
    # keep _build; copy only files that differ (so that the incremental build stays incremental)
    for root in ("include", "src", "tests", "examples", "cmake", "."):
        pass
    r = sh("cd /repo && git ls-files -z | while IFS= read -r -d '' f; do cmp -s \"$f\" \"%s/$f\" || { mkdir -p \"%s/$(dirname \"$f\")\"; cp -p \"$f\" \"%s/$f\"; touch \"%s/$f\"; }; done" % (W, W, W, W))
    return r.returncode == 0


def build():
    return sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=20 -DSTRF_BUILD_TESTS=ON -DSTRF_BUILD_EXAMPLES=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Wno-dev >/dev/null && ninja -C _build", cwd=W, env={"CC": "gcc", "CXX": "g++"})


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        reset()
        res = []
        if "--nodemo" not in sys.argv:
            r = sh("bash %s/demo.sh" % d, cwd=W)
            res.append("demo-clean=%d" % r.returncode)
            if r.returncode: print('\n'.join(x for x in r.stdout.splitlines() if 'rror' in x)[:400])
        r = sh("git apply --unsafe-paths --directory=%s %s/patch.diff" % (W, d), cwd="/") if False else sh("patch -p1 --no-backup-if-mismatch < %s/patch.diff" % d, cwd=W)
        if r.returncode: print(i, "PATCH FAILED", r.stdout); continue
        if "--nodemo" not in sys.argv:
            r = sh("bash %s/demo.sh" % d, cwd=W)
            res.append("demo-bug=%d" % r.returncode)
        if "--nobuild" not in sys.argv:
            r = build()
            res.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            r = sh("ctest --test-dir _build -j1 --timeout 300 --output-on-failure", cwd=W)
            res.append("tests=%d" % r.returncode)
            if r.returncode: print('\n'.join(x for x in r.stdout.splitlines() if 'rror' in x or 'ailed' in x)[:1200])
        if "--nocheck" not in sys.argv:
            r = sh("python3 %s/bin/check.py %s" % (V, meta["property"]), env={"VT_REPO": W, "VERIF_SEED": "1"})
            line = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "ERROR"))][:2]
            res.append("check=%d %s" % (r.returncode, line))
        print(i, meta["property"], " ".join(res), flush=True)
    reset()


main()
