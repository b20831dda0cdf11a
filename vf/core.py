"""Shared machinery of the checks: building drivers from the current tree under
sanitizers, running them in shards with crash/hang attribution, matching known
findings, and writing evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
BUDGET = {"quick": 560, "thorough": 3000}   # wall ceiling; case counts, not this, bound normal runs

LIBDIR = {"encoding": "whatwg/encoding", "url": "whatwg/url", "html": "whatwg/html", "css": "wwwc/css_syntax", "selectors": "wwwc/selectors"}


def libsrc(group):
    d = os.path.join(REPO, "lib", LIBDIR[group])
    return sorted(p for p in _tree(d) if p.endswith(".cpp"))


ICU = ["-licuuc", "-licui18n", "-licudata"]

BASE = ["-std=c++20", "-include", "cstdint", "-g1", "-O1", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


class NoAnswer(Exception):
    pass


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _tree(d):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith((".hpp", ".h", ".cpp", ".inc")):
                out.append(os.path.join(root, f))
    return out


_repo_digest = None


def repo_digest():
    global _repo_digest
    if _repo_digest is None:
        _repo_digest = _digest(_tree(os.path.join(REPO, "include")) + _tree(os.path.join(REPO, "lib")))
    return _repo_digest


def _unique():
    return ".tmp%d.%s" % (os.getpid(), os.urandom(6).hex())


class Build:
    """Objects are keyed by the content of every repository source and of the harness,
    so an object is reused only if nothing it could depend on differs."""

    def __init__(self):
        self.dir = os.path.join(VERIF, "build")
        os.makedirs(self.dir, exist_ok=True)

    def binary(self, name, harness, libs=(), flags=(), link=(), cxx="g++", san=True):
        srcs = [os.path.join(VERIF, "harness", harness)]
        for g in libs:
            srcs += libsrc(g)
        base = BASE + (SAN if san else []) + list(flags)
        hdig = _digest(_tree(os.path.join(VERIF, "harness")))
        jobs = []
        for s in srcs:
            own = s.startswith(VERIF)
            key = hashlib.sha256(json.dumps([s, base, cxx, repo_digest(), hdig if own else ""]).encode()).hexdigest()[:24]
            jobs.append((s, os.path.join(self.dir, key + ".o")))
        cmds = []
        for s, o in jobs:
            if not os.path.exists(o):
                tmp = o + _unique()
                cmds.append((o, tmp, [cxx] + base + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", tmp]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (o, tmp, c), r in zip(cmds, ex.map(lambda oc: subprocess.run(oc[2], capture_output=True, text=True, errors="replace"), cmds)):
                if r.returncode != 0:
                    raise NoAnswer("build failed: %s\n%s" % (" ".join(c), r.stderr[-3000:]))
                os.replace(tmp, o)
        key = hashlib.sha256(json.dumps([o for _, o in jobs] + list(link)).encode()).hexdigest()[:16]
        exe = os.path.join(self.dir, name + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + _unique()
            c = [cxx] + (SAN[:1] if san else []) + [o for _, o in jobs] + ["-o", tmp] + list(link)
            r = subprocess.run(c, capture_output=True, text=True, errors="replace")
            if r.returncode != 0:
                raise NoAnswer("link failed: %s\n%s" % (" ".join(c), r.stderr[-3000:]))
            os.replace(tmp, exe)
        return exe

    def many(self, specs):
        """specs: list of kwargs dicts for binary(); built concurrently."""
        libs = sorted({(tuple(k.get("libs", ())), tuple(k.get("flags", ()))) for k in specs})
        if any(l for l, _ in libs):   # build the first alone, so that objects they share are built once
            first, rest = [self.binary(**specs[0])], specs[1:]
        else:
            first, rest = [], specs
        with cf.ThreadPoolExecutor(4) as ex:
            return first + list(ex.map(lambda kw: self.binary(**kw), rest))


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LC_ALL": "C.UTF-8",
})


def crash_signature(stderr, rc):
    """A short, line-number-free description of how the process died."""
    if "VF-HANG" in stderr:
        return "hang: the case did not finish within its CPU budget"
    if "hard rss limit exhausted" in stderr:
        return "memory: the case used more than its memory budget"
    m = re.search(r"Assertion [`'](.+?)' failed", stderr)
    if m:
        f = re.search(r"(\S+?):\d+: (.+?): Assertion", stderr)
        where = os.path.basename(f.group(1)) if f else "?"
        return "assertion failed in %s: %s" % (where, m.group(1)[:160])
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", stderr)
    if m:
        return "AddressSanitizer: %s in %s" % (m.group(1), _frame(stderr))
    m = re.search(r"runtime error: (.+)", stderr)
    if m:
        return "UndefinedBehaviorSanitizer: %s in %s" % (re.sub(r"0x[0-9a-f]+|\b\d{4,}\b", "N", m.group(1))[:120], _frame(stderr))
    m = re.search(r"what\(\):\s*(.+)", stderr)
    if m:
        return "terminated by an uncaught exception: " + m.group(1)[:100]
    return "abnormal exit (status %s)" % rc


def _frame(stderr):
    for m in re.finditer(r"#\d+ \S+ in (.+?) (/\S+?)(?::\d+)?(?::\d+)?$", stderr, re.M):
        if REPO in m.group(2) or "wordring" in m.group(1):
            return re.sub(r"<.*", "", m.group(1))[:80] + " (" + os.path.basename(m.group(2)) + ")"
    return "?"


class Run:
    def __init__(self):
        self.fails = []       # dict(case, sig, detail, trace, mode)
        self.results = {}     # case -> payload
        self.evals = 0
        self.counters = {}
        self.states = set()
        self.cases = set()
        self.samples = []
        self.crashes = 0
        self.truncated = False

    def merge_stats(self, s):
        self.evals += s["evals"]
        for k, v in s["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.states.update(s["states"])
        self.cases.update(s["cases"])


def run_cases(exe, total, args=(), seed=None, cpu=20, tier="quick", max_crashes=12, shards=None, label=""):
    """Run cases 0..total-1 of a driver in parallel shards.  A crashing or hanging case is
    recorded and the shard resumes at the next case."""
    seed = SEED if seed is None else seed
    scratch = tempfile.mkdtemp(prefix="vfrun")
    run = Run()
    shards = shards or max(1, min(JOBS * 2, total))
    bounds = [(total * k // shards, total * (k + 1) // shards) for k in range(shards)]
    deadline = T0 + BUDGET[tier]
    seen = {"hangs": 0, "crashes": 0}

    def shard(k):
        lo, hi = bounds[k]
        outs, fails = [], []
        start, crashes = lo, 0
        part = 0
        while start < hi:
            if time.time() > deadline or seen["hangs"] >= 4 or seen["crashes"] >= 48:   # enough is known
                return outs, fails, True
            out = os.path.join(scratch, "o%d.%d" % (k, part)); prog = os.path.join(scratch, "p%d.%d" % (k, part)); part += 1
            p = subprocess.Popen([exe, str(seed), str(start), str(hi - start), out, prog, str(cpu)] + list(args),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, cwd=scratch)
            try:
                _, err = p.communicate(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                outs.append(out)
                return outs, fails, True
            err = err.decode("utf-8", "replace")
            outs.append(out)
            done = False
            if os.path.exists(out):
                with open(out, "rb") as f:
                    f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 2)); done = f.read() == b"E\n"
            if p.returncode == 0 and done:
                break
            cur = start
            if os.path.exists(prog):
                with open(prog, "rb") as f:
                    b = f.read()
                    if len(b) == 8:
                        cur = int.from_bytes(b, "little")
            if p.returncode in (2, 96) and "usage" in err:
                raise NoAnswer("driver refused its arguments")
            if p.returncode == -9:   # killed from outside (memory): no verdict from this
                raise NoAnswer("driver was killed")
            if p.returncode == 0 and done is False:
                raise NoAnswer("driver ended without its end marker")
            fails.append({"case": cur, "sig": crash_signature(err, p.returncode), "detail": err[-1800:] if "VF-HANG" in err else _head(err), "trace": [], "crash": True})
            crashes += 1
            seen["crashes"] += 1
            seen["hangs"] += p.returncode == 97 or "rss limit" in err
            start = cur + 1
            if crashes >= max_crashes:
                break
        return outs, fails, False

    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for outs, fails, trunc in ex.map(shard, range(shards)):
                run.truncated |= trunc
                for f in fails:
                    run.crashes += 1
                    run.fails.append(f)
                for o in outs:
                    if not os.path.exists(o):
                        continue
                    with open(o, encoding="utf-8", errors="replace") as fh:
                        for line in fh:
                            if line.startswith("R "):
                                _, i, pay = line.rstrip("\n").split(" ", 2)
                                run.results[int(i)] = pay
                            elif line.startswith("F "):
                                try:
                                    run.fails.append(json.loads(line[2:]))
                                except ValueError:
                                    run.fails.append({"case": -1, "sig": "unparsable failure record", "detail": line[:500], "trace": []})
                            elif line.startswith("X "):
                                try:
                                    run.samples.append(json.loads(line[2:]))
                                except ValueError:
                                    pass
                            elif line.startswith("S "):
                                run.merge_stats(json.loads(line[2:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for f in run.fails:
        f["seed"] = seed
        f["exe"] = os.path.basename(exe)
        f["args"] = list(args)
        f.setdefault("label", label)
    return run


def _head(err):
    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error"), err.find("Assertion"))
    return err[max(0, i - 300): i + 1600] if i >= 0 else err[-1600:]


# ----------------------------------------------------------------- known findings
def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) :: (.*)$", line)
            if m:
                out.append({"property": m.group(1), "match": json.loads(m.group(2)), "what": m.group(3)})
    return out


def matches(k, f):
    """A finding is matched by its exact signature and, where given, by its exact input."""
    mt = k["match"]
    for key, val in mt.items():
        if str(f.get(key, "")) != str(val):
            return False
    return bool(mt)


class Check:
    """Collects what one property's monitors observed and gives the verdict."""

    def __init__(self, prop, tier, level="exploration"):
        self.prop, self.tier, self.level = prop, tier, level
        self.fails = []
        self.evals = 0
        self.cases = 0
        self.nstates = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.truncated = False

    def add(self, run, label=""):
        for f in run.fails:
            f["label"] = label
            self.fails.append(f)
        self.evals += run.evals
        self.cases += run.counters.get("cases", 0) + run.crashes
        self.distinct.update((label, s) for s in run.cases)
        self.nstates += len(run.states)
        self.samples += [(label + " " + s).strip() for s in run.samples[:3]]
        for k, v in run.counters.items():
            kk = (label + ":" + k) if label else k
            self.counters[kk] = self.counters.get(kk, 0) + v
        self.truncated |= run.truncated

    def fail(self, sig, detail, **kw):
        f = {"case": kw.pop("case", -1), "sig": sig, "detail": detail, "trace": [], "seed": SEED}
        f.update(kw)
        self.fails.append(f)

    def ok(self, n=1):
        self.evals += n

    def seen(self, key):
        self.distinct.add(key)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def finish(self):
        known = [k for k in load_known() if k["property"] == self.prop]
        hit, bad = {}, []
        for f in self.fails:
            for i, k in enumerate(known):
                if matches(k, f):
                    hit.setdefault(i, f)
                    break
            else:
                bad.append(f)
        for i, k in enumerate(known):
            if i in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        replay = None
        if bad:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            seen = set()
            for f in bad:
                key = (f["sig"], f.get("label"))
                if key in seen or len(seen) >= 8:
                    continue
                seen.add(key)
                name = "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(f, sort_keys=True, default=str).encode()).hexdigest()[:12])
                replay = os.path.join(d, name)
                with open(replay, "w") as fh:
                    json.dump(f, fh, indent=1, default=str)
                print("  violated: %s | %s | %s" % (f["sig"], str(f.get("label", "")), str(f.get("input", ""))[:200]))
                print("    " + str(f.get("detail", ""))[:700].replace("\n", "\n    "))
                print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        nontrivial = len(self.distinct)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {
                "evaluations": self.cases, "monitor_evaluations": self.evals, "distinct_states_observed": self.nstates, "distinct_nontrivial": nontrivial, "rule": self.rule,
                "samples": [str(s)[:400] for s in self.samples[:10]],
                "observed": {k: self.counters[k] for k in sorted(self.counters)},
                "stopped_by_wall_ceiling": self.truncated,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 2),
            "violations": len(bad),
        }
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s %s: %d cases, %d monitor evaluations, %d distinct cases, %d states, %d violations, %.1f s" % (self.prop, self.tier, self.cases, self.evals, nontrivial, self.nstates, len(bad), time.time() - T0))
        return 1 if bad else 0


# ----------------------------------------------------------------- recorded outcomes against an offline reference
def _chunked(fn, items):
    """fn maps a list of cases to the list of expected outcomes; evaluated in parallel processes."""
    if len(items) < 2000:
        return fn(items)
    import multiprocessing as mp
    n = JOBS * 4
    parts = [items[len(items) * k // n: len(items) * (k + 1) // n] for k in range(n)]
    with mp.get_context("fork").Pool(JOBS) as pool:
        out = []
        for r in pool.map(fn, parts):
            out += r
        return out


def compare(c, exe, cases, line, expect, sig, tier, label="", cpu=20, args=(), same=None, show=None, dec=None):
    """Run the driver on the cases (one per line) and compare each recorded outcome with the reference.
    expect: list of cases -> list of expected payloads (None: the reference gives no verdict)."""
    d = tempfile.mkdtemp(prefix="vfcase")
    try:
        ls = [line(x) for x in cases]
        with open(os.path.join(d, "cases"), "w") as f:
            f.write("\n".join(ls) + "\n")
        run = run_cases(exe, len(cases), [os.path.join(d, "cases")] + list(args), tier=tier, label=label, cpu=cpu)
        for f in run.fails:
            f["input"] = ls[f["case"]][:2000] if 0 <= f["case"] < len(ls) else ""
            f["args"] = []
        c.add(run, label)
        want = _chunked(expect, cases)
        crashed = {f["case"] for f in run.fails}
        missing = 0
        for i, w in enumerate(want):
            if i in crashed:
                continue
            if i not in run.results:
                missing += 1
                continue
            if w is None:
                c.count((label + ":" if label else "") + "no verdict")
                continue
            c.ok()
            got = run.results[i]
            if not (same(got, w) if same else got == w):
                shown = show(cases[i]) if show else ls[i]
                c.fail(sig(cases[i], got, w), "observed %s\nexpected %s" % tuple((dec(z) if dec else z)[:900] for z in (got, w)), case=i, input=ls[i][:2000], label=label, shown=str(shown)[:600])
        if missing and not run.truncated and not run.fails:
            raise NoAnswer("%d cases left no record" % missing)
        return run
    finally:
        shutil.rmtree(d, ignore_errors=True)
