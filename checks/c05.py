"""C05: parallel sampling: sample counts, independence of worker scheduling, seeding."""
import itertools
import numpy as np
from mc import env, pool
from mc.choice import SRC, runs
from mc.ising import *

LEVEL = "model_checking"
NEED_EXT = "plain"
TECHNIQUE = ("stateless exploration of all worker schedules: the worker pool is replaced by a cooperative scheduler that "
             "runs the real worker code in every possible order and hands results back in completion order; runs are "
             "compared with each other, with the real process pool, and across seeds")
RULE = ("case = entry point x number of workers x sample size (x seed set); every order in which the workers' tasks can "
        "run and finish is executed with the shipped compiled sampler and the real random generators")
BOUNDS = {"quick": "11 entry points, 1-4 workers (all 4! completion orders; for tempering, with hundreds of pool calls, the two extreme orders), sample sizes 1-9, 16 seeds pairwise; up to 64 workers and 2047 samples in the two extreme orders",
          "thorough": "as quick with 5 workers (120 orders), sample sizes 1-13, 64 seeds"}
ASSUMPTIONS = ["tasks of a process pool share no memory: each works on a private copy made at submission, so execution "
               "order is the only freedom of the scheduler (compared with the real pool for every entry point)",
               "the chain law inside each worker is decided by C01-C04 on the same routines"]
CHUNK = 2
N = 7

ENTRY = ("boost", "boost_sys", "py", "py_sys", "cond", "potts", "potts_py", "helper", "ising", "triplet", "potts_model")
SEQ = ("boost_seq", "py_seq", "cond_seq", "cond_py", "potts_seq", "potts_py_seq", "helper_seq", "ising_seq",
       "triplet_seq", "potts_model_seq", "tempering", "wolff", "wolff_par", "mch", "cluster_model")


def setup(ctx):
    env.bring_up(ctx)
    import coniii.utils as u
    ctx.e = u.define_ising_helper_functions()[0]
    ctx.e3 = u.define_potts_helper_functions(3)[0]
    ctx.et = u.define_triplet_helper_functions()[0]
    ctx.e(np.array([[1, -1]]), np.zeros(3))
    ctx.e3(np.array([[1, 0]]), np.zeros(7))
    import multiprocess.context
    ctx.real = None


TH = np.array([0.3 * ((i * 7) % 5 - 2) / 2 for i in range(N + N * (N - 1) // 2)])
TH3 = np.array([0.3 * ((i * 7) % 5 - 2) / 2 for i in range(3 * N + N * (N - 1) // 2)])
FX = [(1, 1), (4, -1)]


def entry(ctx, name, ns, seed, cpus, b=2, ni=9):
    """Run one seeded entry point from scratch; returns its samples."""
    s = ctx.samplers
    rng = lambda: np.random.RandomState(seed)
    par = name not in SEQ
    base = name[:-4] if name.endswith("_seq") else name
    kw = dict(n_iters=ni, burn_in=b)
    if base in ("boost", "boost_sys", "py", "py_sys"):
        m = s.Metropolis(N, TH, calc_e=ctx.e, rng=rng(), boost=base.startswith("boost"), iprint=False)
        f = m.generate_sample_parallel if par else m.generate_sample
        f(ns, systematic_iter=base.endswith("_sys"), **kw)
        return m.sample
    if base in ("cond", "cond_py"):
        m = s.Metropolis(N, TH, calc_e=ctx.e, rng=rng(), boost=base == "cond", iprint=False)
        m.generate_cond_sample(ns, FX, parallel=par, **kw)
        return m.sample
    if base in ("potts", "potts_py"):
        m = s.Potts3(N, TH3, calc_e=ctx.e3, rng=rng(), n_cpus=max(2, cpus), boost=base == "potts")
        (m.generate_sample_parallel if par else m.generate_sample)(ns, **kw)
        return m.sample
    if base == "helper":
        return s.sample_ising(TH, ns, seed=seed, parallel=par, generate_sample_kw=kw)
    if base in ("ising", "triplet", "potts_model"):
        if base == "ising":
            m = ctx.models.Ising(TH, rng=rng())
        elif base == "triplet":
            m = ctx.models.Triplet([TH[:N], TH[N:], np.linspace(-.2, .2, N * (N - 1) * (N - 2) // 6)], rng=rng())
        else:
            m = ctx.models.Potts3(TH3, rng=rng())
        m.setup_sampler(sample_size=ns, sampler_kwargs={"n_cpus": max(2, cpus)} if base == "potts_model" else
                        {"iprint": False})
        m.generate_sample(ni, b, parallel=par)
        return m.sample
    if base == "tempering":
        p = s.ParallelTempering(4, np.array([.3, .1, -.2, .3, .2, -.1, .4, .1, .2, -.3]), ctx.e, 2, (1., 2.),
                                replica_burnin=5, rep_ex_burnin=3, rng=rng())
        env.quietly(p.generate_sample, ns)
        return np.vstack(p.sample)
    if base in ("wolff", "wolff_par"):
        w = s.WolffIsing(np.abs(TH[N:]), TH[:N])
        w.rng = rng()
        return (w.generate_sample_parallel if base == "wolff_par" else w.generate_sample)(ns, 3)
    if base == "mch":
        x = np.array([[1, 1, -1], [-1, 1, 1], [1, -1, 1], [-1, -1, -1], [1, 1, 1]])
        m = ctx.solvers.MCH(x, sample_size=40, rng=rng(), iprint=False, sampler_kw={"iprint": False})
        return m.solve(maxiter=2, tol=0, tolNorm=0)
    if base == "cluster_model":
        x = np.array([[1, 1, -1], [-1, 1, 1], [1, -1, 1], [-1, -1, -1], [1, 1, 1]])
        m = ctx.solvers.ClusterExpansion(x, rng=rng(), iprint=False)
        m.model.sampler.generate_sample(ns, n_iters=9)
        return m.model.sampler.sample
    raise KeyError(name)


def quick_entry(*a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.array(env.quietly(entry, *a, **k))


def cases(tier):
    th = tier == "thorough"
    for name in ENTRY:
        for c in range(1, 6 if th else 5):
            if name.startswith("potts") and c < 2:
                continue
            for ns in range(1, 14 if th else 10):
                if name in ("potts", "potts_model") and ns <= c:
                    continue
                yield {"k": "sched", "name": name, "cpus": c, "ns": ns}
        yield {"k": "real", "name": name, "cpus": 3, "ns": 7}
        for c, ns in ((2, 1025), (3, 1000), (8, 100), (8, 2047), (17, 300), (64, 1000)):
            yield {"k": "sched", "name": name, "cpus": c, "ns": ns}
    for name in ENTRY + SEQ:
        yield {"k": "seeds", "name": name, "seeds": 64 if th else 16}
    yield {"k": "real", "name": "tempering", "cpus": 2, "ns": 2}
    yield {"k": "real", "name": "wolff_par", "cpus": 2, "ns": 3}
    for c in (1, 2, 4):
        yield {"k": "apart", "name": "wolff_par", "cpus": c}
    for name in ("wolff_par", "tempering"):
        for c in (1, 2, 3):
            yield {"k": "sched", "name": name, "cpus": c, "ns": 2}


def expect_shape(name, ns):
    if name == "tempering":
        return (2 * ns, 4)
    return (ns, 3) if name == "cluster_model" else (6,) if name == "mch" else (ns, N)


def run_case(case, rec, ctx):
    name = case["name"]
    pool.FakePool.isolate = True
    tag = name
    if case["k"] == "sched":
        c, ns = case["cpus"], case["ns"]
        pool.set_cpus(c)
        ref = None
        SRC.schedules = True
        # two workers' worth of global disturbance: none of it may matter
        try:
            limit = 0
            for k, (x, _, ans) in enumerate(runs(lambda: quick_entry(ctx, name, ns, 11, c, 0 if ns % 2 else 2), 2)
                                            if name != "tempering" and ns < 100 else few(lambda: quick_entry(ctx, name, ns, 11, c))):
                rec.trans()
                rec.trace()
                np.random.seed(k)           # global generator: must be irrelevant
                if not rec.check(x.shape == expect_shape(name, ns), tag + ":count",
                                 "%s rows instead of %d with %d workers" % (x.shape, ns, c)):
                    return
                if ref is None:
                    ref = x
                if not rec.check(np.array_equal(x, ref), tag + ":schedule",
                                 lambda: "result depends on the order of workers, answers %s\n%s\n%s" % (ans, ref, x)):
                    return
        finally:
            SRC.schedules = False
        rec.state(k + 1)
        if c == 3 and ns == 5 and name == "boost":
            rec.sample({"entry": name, "workers": c, "orders": k + 1, "first row": [int(v) for v in ref[0]]})
        # replicas are not copies of one another, and start from different random states
        per = -(-ns // c)
        if c > 1 and per >= 2 and name not in ("tempering", "wolff_par"):
            blocks = [ref[i * per:(i + 1) * per] for i in range(c)]
            full = [tuple(b.flatten()) for b in blocks if len(b) == per]
            rec.check(len(set(full)) == len(full), tag + ":replica-seeds",
                      lambda: "two workers returned identical blocks\n%s" % ref)
        return
    if case["k"] == "apart":
        # chains that start from the same state must not use the same random numbers
        pool.set_cpus(case["cpus"])
        same = []
        for sd in range(4):
            w = ctx.samplers.WolffIsing(np.zeros(TH[N:].size), np.zeros(N) + .5)
            w.rng = np.random.RandomState(sd)
            x = env.quietly(w.generate_sample_parallel, 16, 2 * N + 1, initialSample=np.ones((16, N)))
            rec.trans()
            rec.state()
            # every chain decides several flips at random: all 16 rows are equal only if the chains share their numbers
            same.append(len(np.unique(np.array(x), axis=0)) == 1)
        rec.check(not all(same), "wolff_par:shared-numbers", "all parallel chains of every seed follow one and the same path")
        return
    if case["k"] == "real":
        c, ns = case["cpus"], case["ns"]
        pool.set_cpus(c)
        fake = quick_entry(ctx, name, ns, 5, c)
        real = with_real_pool(c, lambda: quick_entry(ctx, name, ns, 5, c))
        rec.trace()
        rec.state()
        rec.check(np.array_equal(fake, real), tag + ":real-pool",
                  lambda: "the real process pool gives a different result than the explored one\n%s\n%s" % (fake, real))
        return
    if case["k"] == "seeds":
        pool.set_cpus(2)
        out = []
        for sd in range(case["seeds"] if name != "tempering" else 6):
            np.random.seed(123)
            g0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
            a = quick_entry(ctx, name, 6, sd, 2)
            rec.trans(2)
            np.random.seed(77)
            b = quick_entry(ctx, name, 6, sd, 2)
            if not rec.check(np.array_equal(a, b), tag + ":seed-repeat",
                             lambda: "same seed %d, different results\n%s\n%s" % (sd, a, b)):
                return
            out.append(a)
            rec.state()
        for i, j in itertools.combinations(range(len(out)), 2):
            if not rec.check(not np.array_equal(out[i], out[j]), tag + ":seed-ignored",
                             lambda: "seeds %d and %d give identical results\n%s" % (i, j, out[i])):
                return


def few(fn):
    """Tempering runs hundreds of pool calls; explore the two extreme completion orders."""
    SRC.active = True
    try:
        for v in (0, 1):
            SRC.reset([])
            old = SRC.nopick
            SRC.nopick = lambda n: (n - 1) * v
            try:
                yield fn(), 1.0, ["first" if v == 0 else "last"]
            finally:
                del SRC.nopick
    finally:
        SRC.active = False


def with_real_pool(c, fn):
    import multiprocess, multiprocess.context
    from multiprocess.pool import Pool as _  # noqa: F401  (FakePool)
    import importlib.util, sys
    spec = importlib.util.find_spec("multiprocess.pool")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ctx = multiprocess.get_context("fork")
    real = lambda processes=None, *a, **k: m.Pool(processes or c, *a, context=ctx, **k)
    import coniii
    saved = []
    for name, mod in list(sys.modules.items()):
        if name.startswith("coniii") and mod is not None:
            for a, v in list(vars(mod).items()):
                if v is pool.FakePool:
                    saved.append((mod, a, v))
                    setattr(mod, a, real)
    saved.append((multiprocess, "Pool", multiprocess.Pool))
    multiprocess.Pool = real
    try:
        return fn()
    finally:
        for o, a, v in saved:
            setattr(o, a, v)
