"""Shared machinery of the model-checking framework.

A check is a module in /verif/checks with
    TITLE, LEVEL, RULE, TECHNIQUE   (strings)
    NEED_EXT   False | "controlled" | "plain"   (compile the C++ extension?)
    setup(ctx)                      optional; runs once before the workers fork
    cases(tier)                     generator of JSON-able cases; the enumeration
    run_case(case, rec, ctx)        explores ONE case on the real code; reports to `rec`

Every case is explored exhaustively and independently, so a violation is replayed by
handing the same case to run_case again (run.py <ID> --replay FILE).
"""
import os, sys, json, time, signal, shutil, tempfile, traceback, subprocess, atexit, hashlib, importlib
import multiprocessing as _mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class Abort(Exception):
    """The case cannot be explored any further (already recorded)."""


class Rec:
    """Measures and verdicts of one or several cases."""
    MAX_SAMPLES = 6

    def __init__(self):
        self.n = {}
        self.samples = []
        self.viol = []          # dicts: key, msg, case
        self.case = None
        self.times = []

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + int(k)

    def state(self, k=1):
        self.add("states", k)

    def trans(self, k=1):
        self.add("transitions", k)

    def trace(self, k=1):
        self.add("traces_validated_against_impl", k)

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(obj)

    def bad(self, key, msg):
        """key identifies call site + failing input class; msg is the evidence."""
        if len(self.viol) < 400:
            self.viol.append({"key": key, "msg": str(msg)[:2000], "case": self.case})

    def check(self, cond, key, msg):
        self.add("checks")
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return bool(cond)

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for s in o.samples:
            self.sample(s)
        self.viol += o.viol
        self.times += o.times


class Ctx:
    pass


def _copy_tree(src, dst):
    def ign(d, names):
        return [x for x in names if x == "__pycache__" or x.endswith((".so", ".pyc", ".nbi", ".nbc"))]
    shutil.copytree(src, dst, ignore=ign)


def stage(need_ext, work):
    """Private copy of the package under test, freshly built from /repo's working tree."""
    st = os.path.join(work, "stage")
    os.makedirs(st)
    _copy_tree(os.path.join(REPO, "coniii"), os.path.join(st, "coniii"))
    if need_ext:
        build_ext(need_ext, work, os.path.join(st, "coniii"))
    return st


def build_ext(kind, work, outdir):
    """Compile cpp/*.cpp of the working tree into samplers_ext.so.

    kind "controlled": the C++ standard random sources are replaced, by a forced include,
    with ones that ask our choice explorer (cpp/ctl_rng.hpp).  No source is edited.
    kind "plain": exactly the shipped build.
    """
    import sysconfig
    inc = sysconfig.get_paths()["include"]
    tag = "%d%d" % sys.version_info[:2]
    src = os.path.join(REPO, "cpp")
    common = ["-std=c++11", "-fPIC", "-w", "-DNDEBUG", "-I" + src, "-I" + inc]
    # -DNDEBUG mirrors distutils' default flags for CPython extension modules
    if kind == "controlled":
        common += ["-O1", "-include", os.path.join(VERIF, "cpp", "ctl_rng.hpp")]
    else:
        common += ["-O2"]
    procs, objs = [], []
    srcs = sorted(f for f in os.listdir(src) if f.endswith(".cpp"))
    for f in srcs:
        o = os.path.join(work, f + "." + kind + ".o")
        objs.append(o)
        procs.append((f, subprocess.Popen(["g++"] + common + ["-c", os.path.join(src, f), "-o", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("g++ failed on %s:\n%s" % (f, out.decode()[-3000:]))
    so = os.path.join(outdir, "samplers_ext.so")
    subprocess.check_call(["g++", "-shared", "-o", so] + objs +
                          ["-lboost_python" + tag, "-lboost_numpy" + tag])
    return so


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, what = line[len("finding: property="):].partition(" -- ")
                pid, _, key = head.partition(" key=")
                out.setdefault(pid.strip(), {})[key.strip()] = what.strip()
    return out


# ------------------------------------------------------------------ parallel driver
_G = {}


DEADLINE = float("inf")      # cases that begin later are left out (and counted): a check gets 900 s
CASE_LIMIT = 400       # the thorough tier gets eighteen times as much


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    from mc import choice
    if time.time() > DEADLINE or choice.Budget.started and time.time() - choice.Budget.started < CASE_LIMIT / 8:
        raise choice.Unsupported("time is up")     # the enumeration is large, no execution is stuck
    raise CaseTimeout("no result after %d s: the code under test does not terminate on this case" % CASE_LIMIT)


def _worker(args):
    i, case = args
    mod, ctx = _G["mod"], _G["ctx"]
    rec = Rec()
    rec.case = case
    t0 = time.time()
    if t0 > DEADLINE - 1:
        rec.add("incomplete_cases")
        return i, rec
    from mc.choice import Unsupported
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(min(CASE_LIMIT, DEADLINE - t0 + 2)))
    try:
        mod.run_case(case, rec, ctx)
    except Abort:
        pass
    except Unsupported:
        rec.add("incomplete_cases")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = "?"
        for fr in reversed(tb):
            if os.sep + "stage" + os.sep in fr.filename:
                site = os.path.basename(fr.filename) + ":" + fr.name
                break
        rec.bad("exception:%s:%s:%s" % (getattr(mod, "exc_tag", lambda c: c.get("k", ""))(case)
                                     if isinstance(case, dict) else "", type(e).__name__, site),
                traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    rec.add("cases")
    if os.environ.get("VERIF_PROFILE"):
        rec.times = [(time.time() - t0, case)]
    return i, rec


def _warm(mod, ctx):
    if hasattr(mod, "setup"):
        mod.setup(ctx)


def explore(mod, ctx, tier, jobs):
    total = Rec()
    _G.update(mod=mod, ctx=ctx)
    cs = list(enumerate(mod.cases(tier)))
    if jobs <= 1 or len(cs) <= 1:
        for c in cs:
            total.merge(_worker(c)[1])
        return total, len(cs)
    chunk = max(1, min(getattr(mod, "CHUNK", 64), (len(cs) + jobs * 4 - 1) // (jobs * 4)))
    c = _mp.get_context("fork")
    # concurrent.futures notices a worker that died (segfault, out of memory)
    from concurrent.futures import ProcessPoolExecutor
    res = []
    try:
        with ProcessPoolExecutor(jobs, mp_context=c) as ex:
            for r in ex.map(_worker, cs, chunksize=chunk):
                res.append(r)
    except Exception as e:
        if type(e).__name__ != "BrokenProcessPool":
            raise
        # a worker died: find the case that kills it, each in its own process
        done = {i for i, _ in res}
        for c1 in cs:
            if c1[0] in done:
                continue
            r = _isolated(c1)
            res.append(r)
            if r[1].viol:
                break
    res.sort(key=lambda t: t[0])
    for _, r in res:
        total.merge(r)
    return total, len(cs)


def _isolated(c1):
    ctx = _mp.get_context("fork")
    q = ctx.SimpleQueue()

    def go():
        q.put(_worker(c1))
    p = ctx.Process(target=go)
    p.start()
    t0 = time.time()
    while p.is_alive() and q.empty() and time.time() - t0 < 300:
        time.sleep(0.002)
    if not q.empty():
        r = q.get()
        p.join()
        return r
    p.join(1)
    rec = Rec()
    rec.case = c1[1]
    rec.bad("crash:" + str(c1[1].get("k", "")), "process died with exit code %s" % p.exitcode)
    if p.is_alive():
        p.kill()
    return c1[0], rec


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    a = argv[2:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--jobs":
            jobs = int(a.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    global CASE_LIMIT, DEADLINE
    t0 = time.time()
    if tier == "thorough":
        CASE_LIMIT = 7200
        from mc.choice import Budget
        Budget.law = Budget.small = 3600.
    else:
        DEADLINE = t0 + 800
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(work, ignore_errors=True)
    atexit.register(clean)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(work, "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    os.environ["TMPDIR"] = work
    tempfile.tempdir = work
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")

    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx()
    ctx.work, ctx.tier, ctx.repo, ctx.verif = work, tier, REPO, VERIF
    viol_setup = None
    total, ncases = Rec(), 0
    err = None
    try:
        ctx.stage = stage(getattr(mod, "NEED_EXT", False), work)
        sys.path.insert(0, ctx.stage)
        os.chdir(work)
        _warm(mod, ctx)
        if replay:
            case = json.load(open(replay))["case"]
            _G.update(mod=mod, ctx=ctx)
            if case is not None:
                total = _worker((0, case))[1]
            ncases = 1
        else:
            total, ncases = explore(mod, ctx, tier, jobs)
    except Exception:
        err = traceback.format_exc()
        total.case = None
        total.bad("setup", "the code under test could not be brought up:\n" + err[-1800:])

    known = load_known().get(pid, {})
    fresh, hit = [], {}
    for v in total.viol:
        if v["key"] in known:
            hit.setdefault(v["key"], v)
        else:
            fresh.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, k, known[k]))

    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rc = 0
    if fresh:
        rc = 1
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        shown = 0
        for v in fresh:
            if v["key"] in seen or shown >= 8:
                continue
            seen.add(v["key"])
            shown += 1
            name = "%s-%s.json" % (pid, hashlib.sha1(
                (v["key"] + json.dumps(v["case"], sort_keys=True, default=str)).encode()).hexdigest()[:10])
            path = os.path.join(rd, name)
            json.dump({"property": pid, "key": v["key"], "msg": v["msg"], "case": v["case"],
                       "replay": "%s %s/run.py %s --replay %s" % (PY, VERIF, pid, path)},
                      open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key: %s" % v["key"])
            print("  case: %s" % json.dumps(v["case"], default=str)[:600])
            print("  " + v["msg"].replace("\n", "\n  ")[:1500])
    if os.environ.get("VERIF_KEYS"):
        seen = {}
        for v in total.viol:
            seen.setdefault(v["key"], []).append(v["msg"])
        for key, ms in seen.items():
            print("KEY %s (%d) -- %s" % (key, len(ms), ms[0][:600].replace("\n", " ")))
    for t, c in sorted(total.times, key=lambda x: -x[0])[:25]:
        print("  %.2f s %s" % (t, json.dumps(c)[:200]))
    n = total.n
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"exhaustive": not n.get("incomplete_cases"), "cases": ncases, "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
           "rule": getattr(mod, "RULE", ""), "samples": total.samples or ["(none)"]}
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov[k] = n.get(k, 0)
    for k, v in sorted(n.items()):
        if k not in cov:
            cov[k] = v
    if not replay:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []),
                   "wall_s": round(time.time() - t0, 3), "violations": len(fresh)},
                  open(os.path.join(evd, pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d cases, states=%d transitions=%d traces=%d checks=%d, %d violation(s), %.1f s" % (
        pid, tier, ncases, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        n.get("checks", 0), len(fresh), time.time() - t0))
    if n.get("incomplete_cases"):
        print("%d cases were not explored completely" % n["incomplete_cases"])
    sys.stdout.flush()
    return rc
