"""Shared machinery of the checks: build a driver from /repo's working tree, record a trace,
validate it with TLC against a TLA+ trace specification, run design models, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".cache")
REPLAYS = os.path.join(VERIF, "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
PLAIN = ["-O1", "-g1"]


class CheckError(Exception):
    """The machinery could not answer (exit 2)."""


class CompileError(CheckError):
    """A program that uses the documented interface does not compile."""


def tree_hash(root, exts=(".hpp", ".h", ".cpp", ".txt", "")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(src, flags=None, extra=None, std="c++20", cxx="g++", name=None, units=None):
    """Compile a harness source against /repo/include; returns the executable's path.
    units: further translation units [(source, [flags])], compiled in parallel and linked in."""
    flags = SAN if flags is None else flags
    extra = extra or []
    srcs = [src] if isinstance(src, str) else list(src)
    units = units or []
    srcs_all = srcs + [u[0] for u in units]
    h = hashlib.sha256()
    h.update(tree_hash(os.path.join(REPO, "include")).encode())
    if os.path.isdir(os.path.join(REPO, "src")):
        h.update(tree_hash(os.path.join(REPO, "src")).encode())
    for s in srcs_all:
        with open(s if os.path.isabs(s) else os.path.join(HARN, s), "rb") as fh:
            h.update(fh.read())
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".hpp"):
            with open(os.path.join(HARN, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    h.update(repr((flags, extra, std, cxx, units)).encode())
    key = h.hexdigest()[:24]
    bindir = os.path.join(CACHE, "bin")
    os.makedirs(bindir, exist_ok=True)
    base = (name or os.path.splitext(os.path.basename(srcs[0]))[0])
    exe = os.path.join(bindir, base + "-" + key)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    tmp = exe + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    common = [cxx, "-std=" + std] + flags + ["-I", os.path.join(REPO, "include"), "-I", HARN]

    def full(s):
        return s if os.path.isabs(s) else os.path.join(HARN, s)

    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            msg = "compilation of %s failed:\n%s" % (srcs_all, r.stdout[-4000:])
            bad = re.search(r"error:", r.stdout) and not re.search(r"internal compiler error|Killed|cannot allocate|No space left", r.stdout)
            raise (CompileError if bad else CheckError)(msg)
    if not units:
        run(common + [full(s) for s in srcs] + extra + ["-o", tmp])
    else:
        jobs = [(s, []) for s in srcs] + list(units)
        objs = ["%s.%d.o" % (tmp, k) for k in range(len(jobs))]
        try:
            with ThreadPoolExecutor(max_workers=8) as ex:
                list(ex.map(lambda j: run(common + list(jobs[j][1]) + ["-c", full(jobs[j][0]), "-o", objs[j]]), range(len(jobs))))
            run(common + objs + extra + ["-o", tmp])
        finally:
            for o in objs:
                if os.path.exists(o):
                    os.unlink(o)
    os.rename(tmp, exe)
    # keep the cache small
    fs = sorted((os.path.getmtime(os.path.join(bindir, f)), f) for f in os.listdir(bindir))
    for _, f in fs[:-60]:
        try:
            os.unlink(os.path.join(bindir, f))
        except OSError:
            pass
    return exe


class Crash(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def run_driver(exe, args, timeout=300, env=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e.update(env or {})
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=tempfile.gettempdir())
    except subprocess.TimeoutExpired as t:
        raise Crash("timeout after %d s" % timeout, (t.stdout or b"").decode(errors="replace"))
    out = r.stdout.decode(errors="replace")
    if r.returncode != 0:
        raise Crash("exit status %d" % r.returncode, out)
    return out


TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(module, cfg=None, env=None, workers=8, heap="6g", timeout=840, args=None):
    """Run TLC; returns (ok, generated, distinct, output)."""
    meta = tempfile.mkdtemp(prefix="vt_tlc_")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + (args or []) + \
              ["-config", cfg or module + ".cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        ms = TLC_STATS.findall(r.stdout)
        g, d = (int(ms[-1][0]), int(ms[-1][1])) if ms else (0, 0)
        return r.returncode == 0, g, d, r.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def unescape_tla(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def parse_reports(out):
    """REJECT / KNOWN lines printed by a trace specification."""
    rej, known = [], []
    for ln in out.splitlines():
        m = re.match(r'^"?(REJECT|KNOWN) (\d+) (.*?)"?$', ln)
        if m:
            if m.group(1) == "REJECT":
                rej.append((int(m.group(2)), unescape_tla(m.group(3))))
            else:
                known.append((int(m.group(2)), m.group(3)))
    return sorted(set(rej)), sorted(set(known))


def known_ids():
    """{(property, key)} from the committed known-findings file."""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$", ln.rstrip("\n"))
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.records = 0
        self.design_states = 0
        self.samples, self.violations, self.known, self.notes = [], [], {}, []
        self.parts = []

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                if isinstance(v, list):
                    getattr(self, k).extend(v)
                else:
                    setattr(self, k, getattr(self, k) + v)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.res = Result()
        self.known = known_ids()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- a violation ---------------------------------------------------------------
    def violation(self, name, info):
        os.makedirs(REPLAYS, exist_ok=True)
        k = len(self.res.violations) + 1
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.prop, re.sub(r"\W+", "_", name), k))
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.res.add(violations=[(path, info.get("what", ""))])

    # --- trace validation -------------------------------------------------------------
    def trace(self, name, driver, module, n, mode=None, build_kw=None, args=None, cfg=None,
              workers=4, heap="5g", timeout=300, seed_off=0, env=None):
        """Record a trace with a driver and validate it against a trace specification."""
        exe = build(driver, **(build_kw or {}))
        a = ["--mode", mode or "all", "--seed", str(self.seed * 1000003 + seed_off), "--n", str(n)] + (args or [])

        def record(path):
            try:
                run_driver(exe, a + ["--out", path], timeout=timeout, env=env)
                return None
            except Crash as c:
                return c

        def validate(path):
            e = {"VT_TRACE": path}
            e.update(env or {})
            ok, g, d, out = run_tlc(module, cfg, e, workers=workers, heap=heap)
            rej, known = parse_reports(out)
            if not ok and not rej and not known:
                raise CheckError("TLC failed on %s (%s):\n%s" % (module, name, out[-6000:]))
            if "Model checking completed" not in out:
                raise CheckError("TLC did not complete on %s (%s):\n%s" % (module, name, out[-6000:]))
            if "Postcondition" in out and "violated" in out:
                raise CheckError("trace not fully consumed by %s (%s):\n%s" % (module, name, out[-3000:]))
            return g, d, rej, known

        path = os.path.join(self.work, name + ".ndjson")
        c = record(path)
        if c is not None:
            c2 = record(path)
            if c2 is None:
                raise CheckError("driver %s failed once and then succeeded: %s\n%s" % (driver, c.what, c.log[-3000:]))
            tail = last_line(path)
            self.violation(name, {"what": "the real code crashed, corrupted memory or did not end",
                                  "driver": str(driver), "args": a, "how": c2.what,
                                  "log": c2.log[-6000:], "last_event": tail})
            return
        g, d, rej, known = validate(path)
        lines = None
        if rej or known:
            lines = open(path).read().split("\n")
        if rej:
            path2 = os.path.join(self.work, name + ".again.ndjson")
            c2 = record(path2)
            if c2 is not None:
                raise CheckError("driver %s: not repeatable" % driver)
            g2, d2, rej2, _ = validate(path2)
            lines2 = open(path2).read().split("\n")
            same = {lines[l - 1] for l, _ in rej} & {lines2[l - 1] for l, _ in rej2}
            if not same:
                raise CheckError("rejections of %s are not repeatable" % name)
            shown = [(l, w) for l, w in rej if lines[l - 1] in same]
            self.violation(name, {"what": "%d recorded call(s) not explained by %s" % (len(shown), module),
                                  "driver": str(driver), "args": a, "module": module,
                                  "rejected": [{"line": l, "event": tryjson(lines[l - 1]), "spec": tryjson(w)}
                                               for l, w in shown[:20]]})
        for l, k in known:
            if (self.prop, k) in self.known:
                self.res.known.setdefault(k, (lines[l - 1], 0))
                self.res.known[k] = (self.res.known[k][0], self.res.known[k][1] + 1)
            else:
                self.violation(name, {"what": "unlisted known deviation " + k, "driver": str(driver), "args": a,
                                      "module": module, "event": tryjson(lines[l - 1])})
                break
        nrec = sum(1 for _ in open(path))
        if nrec == 0:
            raise CheckError("empty trace from %s %s" % (driver, mode))
        self.res.add(states=d, transitions=g, traces=1, records=nrec,
                     samples=sample(path, 2),
                     parts=["%s: %d recorded events validated by %s" % (name, nrec, module)])
        os.unlink(path)

    # --- several builds of one program -----------------------------------------------------
    def builds(self, name, driver, n, variants, mode="all", workers=2, heap="4g", seed_off=0, timeout=300):
        """Build a driver in several ways, [(label, arguments of build)], and record the history of each from
           one seed; TraceBuilds requires them all to take the steps of the first."""
        a = ["--mode", mode, "--seed", str(self.seed * 1000003 + seed_off), "--n", str(n)]

        def record(v):
            label, kw = v
            kw = dict(kw)
            srcs = [driver] + kw.pop("add", [])
            exe = build(srcs if "units" not in kw else driver, name="%s-%s" % (name, label), **kw)
            path = os.path.join(self.work, "%s-%s.%s.ndjson" % (name, mode, label))
            for attempt in (1, 2):
                try:
                    run_driver(exe, a + ["--out", path], timeout=timeout)
                    how = ""
                    break
                except Crash as c:
                    how = c.what
            # (a line cut by a crash is no event)
            with open(path) as f:
                t = f.read()
            with open(path, "w") as f:
                f.write(t[:t.rfind("\n") + 1])
            return label, path, how
        with ThreadPoolExecutor(max_workers=8) as ex:
            runs = list(ex.map(record, variants))
        base, bpath, bhow = runs[0]
        for label, path, how in runs[1:]:
            tag = "%s-%s-%s" % (name, mode, label)
            if how != bhow:
                self.violation(tag, {"what": "one build ends, the other does not", "how": {base: bhow, label: how}, "driver": str(driver), "args": a,
                                     "last_events": {base: last_line(bpath), label: last_line(path)}})
                continue
            one, two = bpath, path
            if how:  # both fail alike: compare what both did before
                k = min(sum(1 for _ in open(p)) for p in (bpath, path))
                if k == 0:
                    continue
                one, two = path + ".1", path + ".2"
                for src, dst in ((bpath, one), (path, two)):
                    with open(dst, "w") as f:
                        f.write("\n".join(open(src).read().split("\n")[:k]) + "\n")
            ok, g, d, out = run_tlc("TraceBuilds", None, {"VT_TRACE": one, "VT_TRACE2": two}, workers=workers, heap=heap)
            rej, _ = parse_reports(out)
            if "Assumption" in out and "is false" in out:
                rej.append((1, "the histories have different lengths"))
            elif not ok and not rej or (not rej and "Model checking completed" not in out):
                raise CheckError("TLC failed on TraceBuilds (%s):\n%s" % (tag, out[-4000:]))
            if rej:
                lines = open(one).read().split("\n")
                self.violation(tag, {"what": "%d call(s) behave differently in the builds %s and %s" % (len(rej), base, label), "driver": str(driver), "args": a,
                                     "rejected": [{"line": l, base: tryjson(lines[l - 1]), label: tryjson(w)} for l, w in rej[:20]]})
            nrec = sum(1 for _ in open(one))
            self.res.add(states=d, transitions=g, traces=2, records=nrec, samples=sample(two, 1),
                         parts=["%s %s: %d events equal in the builds %s and %s" % (name, mode, nrec, base, label)])
        for _, p, _ in runs:
            for q in (p, p + ".1", p + ".2"):
                if os.path.exists(q):
                    os.unlink(q)

    # --- design model --------------------------------------------------------------------
    def model(self, module, cfg=None, workers=4, heap="5g", timeout=600, env=None, expect=None):
        """Check a design-level model (independent of the code): its failure is an error of the check."""
        ok, g, d, out = run_tlc(module, cfg, env, workers=workers, heap=heap, timeout=timeout)
        if not ok:
            raise CheckError("design model %s failed:\n%s" % (module, out[-5000:]))
        if expect and d < expect:
            raise CheckError("design model %s explored only %d states" % (module, d))
        self.res.add(states=d, transitions=g, parts=["design model %s: %d states" % (cfg or module, d)])

    # --- specification tables replayed through the code --------------------------------
    def table(self, module, cfg=None, env=None, workers=1, heap="4g"):
        """Let TLC emit the expectations (a file named by VT_OUT); returns the path."""
        p = os.path.join(self.work, "%s.tab" % (cfg or module))
        e = {"VT_OUT": p}
        e.update(env or {})
        ok, g, d, out = run_tlc(module, cfg, e, workers=workers, heap=heap)
        if not ok or not os.path.exists(p):
            raise CheckError("table module %s failed:\n%s" % (module, out[-5000:]))
        self.res.add(states=d, transitions=g)
        return p

    def replay(self, name, driver, table, args=None, build_kw=None, timeout=600, mode="all", env=None):
        """Replay specification-generated behaviours through the code; the driver prints
           MISMATCH {json} / KNOWN key {json} lines and a final 'DONE <count>' line."""
        exe = build(driver, **(build_kw or {}))
        a = ["--mode", mode, "--seed", str(self.seed), "--aux", table or ""] + (args or [])
        for attempt in (1, 2):
            try:
                out = run_driver(exe, a, timeout=timeout, env=env)
                crash = None
            except Crash as c:
                crash, out = c, c.log
            mism = [ln[9:] for ln in out.splitlines() if ln.startswith("MISMATCH ")]
            if not mism and crash is None:
                break
        if crash is not None:
            self.violation(name, {"what": "the real code crashed, corrupted memory or did not end",
                                  "driver": str(driver), "args": a, "how": crash.what, "log": crash.log[-6000:]})
            return
        m = re.search(r"^DONE (\d+)", out, re.M)
        if not m:
            raise CheckError("replayer %s gave no answer:\n%s" % (driver, out[-2000:]))
        if int(m.group(1)) == 0:
            raise CheckError("replayer %s replayed nothing" % driver)
        if mism:
            self.violation(name, {"what": "%d specified behaviour(s) not reproduced" % len(mism),
                                  "driver": str(driver), "args": a, "table": os.path.basename(table or ""),
                                  "mismatches": [tryjson(x) for x in mism[:20]]})
        for ln in out.splitlines():
            if ln.startswith("KNOWN "):
                _, k, rest = ln.split(" ", 2)
                if (self.prop, k) in self.known:
                    self.res.known.setdefault(k, (rest, 0))
                    self.res.known[k] = (self.res.known[k][0], self.res.known[k][1] + 1)
                else:
                    self.violation(name, {"what": "unlisted known deviation " + k, "event": tryjson(rest)})
                    break
        cnt = int(m.group(1))
        smp = [tryjson(ln[7:]) for ln in out.splitlines() if ln.startswith("SAMPLE ")][:2]
        self.res.add(traces=cnt, samples=smp, parts=["%s: %d specified behaviours replayed" % (name, cnt)])

    def parallel(self, *fs):
        """Run several parts at once; the first error is raised after all ended."""
        with ThreadPoolExecutor(max_workers=len(fs)) as ex:
            futs = [ex.submit(f) for f in fs]
            errs = []
            for f in futs:
                try:
                    f.result()
                except Exception as e:  # noqa
                    errs.append(e)
            if errs:
                raise errs[0]

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def tryjson(s):
    try:
        return json.loads(s)
    except Exception:
        return s


def last_line(path):
    try:
        with open(path, "rb") as f:
            return f.read()[-2000:].decode(errors="replace").strip().split("\n")[-1]
    except OSError:
        return ""


def sample(path, k):
    with open(path) as f:
        ls = f.read().split("\n")
    ls = [x for x in ls if x]
    step = max(1, len(ls) // (k + 1))
    return [tryjson(x[:1500]) for x in ls[step::step][:k]]


def main(prop, fn, meta):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    err = None
    try:
        fn(ctx)
    except CompileError as e:
        ctx.violation("compile", {"what": "a program that uses the documented interface does not compile", "log": str(e)})
    except CheckError as e:
        err = str(e)
    except Exception as e:
        import traceback
        err = traceback.format_exc()
    finally:
        ctx.close()
    r = ctx.res
    cov = {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces,
           "evaluations": r.records, "samples": r.samples[:8] or ["none"], "explanation": "; ".join(r.parts)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "model_checking"),
          "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(r.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, (ex, cnt) in sorted(r.known.items()):
        print("KNOWN-FINDING: property=%s %s %s (%d recorded occurrences, e.g. %s)" % (prop, k, ctx.known[(prop, k)], cnt, ex[:300]))
    for p in r.parts:
        print("  " + p)
    print("%s %s: %d states, %d traces/behaviours, %d events, %.1f s" % (prop, tier, r.states, r.traces, r.records, time.time() - t0))
    if r.violations:
        for path, what in r.violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + what)
        sys.exit(1)
    if err:
        print("ERROR " + err)
        sys.exit(2)
    sys.exit(0)
