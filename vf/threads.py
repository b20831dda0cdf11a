"""X01: no hidden shared state.  The drivers of the other properties, built with ThreadSanitizer, run their cases in
several threads at once; a monitor compares every outcome with that of a run alone, and the race detector watches."""
import glob, gzip, random
from .core import *
from .containers import PLAN

THREADS, ROUNDS = 4, 3
FLAGS = ["-fsanitize=thread", "-DVF_THREADS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
LIBS = {"url.cpp": ("encoding", "url"), "url_parts.cpp": ("encoding", "url"), "css.cpp": ("encoding", "css"), "encoding.cpp": ("encoding",),
        "html.cpp": ("encoding", "url", "html"), "html_doc.cpp": ("encoding", "url", "html"), "infra.cpp": (),
        "selectors.cpp": ("encoding", "url", "html", "css", "selectors"), "sel_grammar.cpp": ("encoding", "url", "html", "css", "selectors"),
        "shared.cpp": ("encoding", "url", "html", "css", "selectors")}
# containers: cases of each driver mode (quick, thorough)
OWN = {"T01": (60, 800), "T02": (60, 800), "V01": (200, 4000), "R01": (80, 1500), "R02": (60, 1000), "R03": (60, 1000), "A01": (150, 3000), "G01": (150, 3000), "D01": (300, 5000), "S01": (300, 5000), "S02": (200, 4000)}
SUPP = "called_from_lib:libicuuc.so\ncalled_from_lib:libicui18n.so\ncalled_from_lib:libicudata.so\nrace:libicu\n"


def _reports(text):
    """Race reports of the detector: (kind, function in the library or None, text)."""
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.+?) \(pid=\d+\)\n(.*?)(?=\n=====|\Z)", text, re.S):
        where = None
        stacks = m.group(2).split("\n\n")
        for st in stacks[:2]:      # the two accesses
            for f in re.finditer(r"#\d+ (.+?) (/\S+?):\d+", st):
                if f.group(2).startswith(os.path.join(REPO, "include")) or f.group(2).startswith(os.path.join(REPO, "lib")):
                    where = where or "%s (%s)" % (re.sub(r"<.*|\(.*", "", f.group(1))[:80], os.path.basename(f.group(2)))
        yield m.group(1), where, m.group(0)


def one(exe, label, total, args, seed, limit):
    """(run, reports, note) of one driver."""
    scratch = tempfile.mkdtemp(prefix="vfthr")
    try:
        with open(os.path.join(scratch, "supp"), "w") as f:
            f.write(SUPP)
        env = dict(ENV, TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:suppressions=%s:log_path=%s" % (os.path.join(scratch, "supp"), os.path.join(scratch, "tsan")))

        def go(threads, out, pre=()):
            t = time.time()
            p = subprocess.Popen(list(pre) + [exe, str(seed), "0", str(total), out, str(threads), str(ROUNDS)] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=scratch)
            try:
                _, err = p.communicate(timeout=limit)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                rc, err = "timeout", b""
            logs = "".join(open(x, errors="replace").read() for x in glob.glob(os.path.join(scratch, "tsan.*")))
            return rc, err.decode("utf-8", "replace") + logs, time.time() - t

        pre = ()
        for _ in range(4):
            rc, err, _t = go(THREADS, os.path.join(scratch, "o"), pre)
            if "unexpected memory mapping" not in err:
                break
            pre = ("setarch", "-R")
            for x in glob.glob(os.path.join(scratch, "tsan.*")) + glob.glob(os.path.join(scratch, "o")):
                os.unlink(x)
        else:
            raise NoAnswer("ThreadSanitizer cannot map its memory here")
        if "usage" in err and rc == 2:
            raise NoAnswer("driver refused its arguments")
        run, note = Run(), ""
        done = False
        if os.path.exists(os.path.join(scratch, "o")):
            for line in open(os.path.join(scratch, "o"), encoding="utf-8", errors="replace"):
                if line.startswith("F "):
                    run.fails.append(json.loads(line[2:]))
                elif line.startswith("S "):
                    run.merge_stats(json.loads(line[2:]))
                done |= line == "E\n"
        reports = list(_reports(err))
        if not done:
            # died or did not end: that is this property's only if a thread alone gets through the same cases
            if rc == -9:
                raise NoAnswer("driver was killed")
            rc1, err1, t1 = go(0, os.path.join(scratch, "o1"), pre)
            ok1 = os.path.exists(os.path.join(scratch, "o1")) and open(os.path.join(scratch, "o1")).read().endswith("E\n")
            if ok1 and (rc != "timeout" or t1 < limit / 60):
                run.fails.append({"case": -1, "sig": "stops only while other threads run", "detail": "status %s: %s" % (rc, err[-1500:]), "trace": []})
            else:
                note = "stopped alone too"
        return run, reports, note
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier):
    c = Check(prop, tier)
    c.rule = "One case is one case of another property's driver (or one object read by all threads); cases are distinct by outcome and event trace. Each was observed in four threads running at once and once alone."
    c.assumptions = ["g++ 13 with ThreadSanitizer, libstdc++ strings instantiated in instrumented code, library assertions on", "ICU is not instrumented and is taken to be thread-safe", "a schedule that did not occur was not observed; the race detector reports conflicting accesses that no synchronisation orders, whether or not they collided"]
    quick = tier == "quick"
    with gzip.open(os.path.join(VERIF, "vf", "data", "threads.json.gz")) as f:
        corpus = json.load(f)
    jobs = []      # label, harness, libs, cases, args, lines
    for p, (h, lines) in sorted(corpus.items()):
        lines = list(lines)
        random.Random(SEED * 1009 + len(p)).shuffle(lines)
        n = {"H01": 250, "H04": 250, "Q01": 200}.get(p, 500)
        jobs.append((p, h, LIBS[h], n if quick else len(lines), [], lines))
    for p, (q, t) in OWN.items():
        _, h, libs, args, _, _ = PLAN[p][0]
        jobs.append((p, h, libs, q if quick else t, args, None))
    jobs.append(("shared", "shared.cpp", LIBS["shared.cpp"], 480 if quick else 6000, [], None))
    b = Build()
    link = ["-fsanitize=thread", "-pthread"]
    names = {}
    for _, h, libs, _, _, _ in jobs:
        names.setdefault(h, libs)
    order = sorted(names, key=lambda h: (-len(names[h]), h))
    exes = dict(zip(order, b.many([dict(name="t_" + os.path.splitext(h)[0], harness=h, libs=names[h], san=False, flags=FLAGS, link=link + (ICU if names[h] else [])) for h in order])))
    d = tempfile.mkdtemp(prefix="vfthr")
    reps = range(3 if quick else 20)

    def work(j):
        (label, h, _, n, args, lines), rep = j
        ls = None
        if lines:
            k = rep * n % len(lines)
            ls = (lines[k:] + lines[:k])[:n]
            random.Random(SEED * 7 + rep).shuffle(ls)
            path = os.path.join(d, "%s.%d" % (label, rep))
            with open(path, "w") as f:
                f.write("\n".join(ls) + "\n")
            args, n = [path], len(ls)
        return label, h, ls, one(exes[h], label, n, args, SEED * 100 + rep, 200 if quick else 1200)

    try:
        with cf.ThreadPoolExecutor(3) as ex:
            for label, h, ls, (run, reports, note) in ex.map(work, [(j, r) for r in reps for j in jobs]):
                for f in run.fails:
                    f["seed"], f["exe"] = SEED, h
                    if ls and 0 <= f["case"] < len(ls):
                        f["input"] = ls[f["case"]][:2000]
                c.add(run, label)
                c.count("drivers run")
                if note:
                    c.count("drivers without verdict")
                for kind, where, text in reports:
                    if where is None:
                        c.count("reports outside the library")
                        continue
                    c.count("races reported")
                    c.fail("%s in %s" % (kind, where), text[:1800], label=label, exe=h)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.samples = ["%s: the outcome of every case in 4 threads at once against the outcome alone" % x for x in ("U02 " + corpus["U02"][1][0][:120], "H01 " + corpus["H01"][1][0][:120])]
    if c.counters.get("drivers without verdict", 0) == c.counters.get("drivers run", 0):
        raise NoAnswer("no driver gave a verdict")
    return c.finish()
