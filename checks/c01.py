"""C01: the default (C++) Ising sampler simulates the model it was given."""
import itertools, math
import numpy as np
from mc import env, pool
from mc.choice import SRC, law, follow, Rng
from mc.ising import *

LEVEL = "model_checking"
NEED_EXT = "controlled"
TECHNIQUE = ("explicit-state probabilistic model checking of the compiled sampler: every random answer is "
             "enumerated, giving the exact transition kernel, which is checked against the Boltzmann law")
RULE = ("case = one parameter vector (plus schedule); all start states x all site draws x all cells of the "
        "acceptance draw are executed on the real C++ code through its Python binding")
BOUNDS = {"quick": "n<=4; n=3 all 3^6 parameter vectors over {-1,0,1}*ln2/2, n=4 all vectors with <=2 non-zero "
                   "entries; schedules n_samples<=3, burn_in<=3, n_iters<=3; detailed balance around a scripted "
                   "state for n up to 260, order of systematic updates for n<=300 and up to 70000 updates; runs of 20011 samples, 70001 burn-in and 33333 updates per sample by every route; 64 start states of n<=130; exact ratios of all rates for energy differences 1e-9..8",
          "thorough": "n<=5; as quick plus n=4 all vectors with <=3 non-zero entries, n=5 <=2, and schedules "
                      "up to 4 steps on 3 spins"}
ASSUMPTIONS = ["acceptance probabilities of the enumerated parameter vectors are powers of 1/2, so a grid of "
               "2^m midpoints represents a uniform real exactly",
               "std::mt19937_64 and the standard distributions are correct (they are replaced by the explorer)",
               "real draws between two of nine probed cells of 2^45 change the decision at most once (found by bisection)"]
U = LN2 / 2
CHUNK = 8


def setup(ctx):
    env.bring_up(ctx, ext=True)
    ctx.models.Ising(3)          # compile before forking


def sparse(n, k, vals=(-1, 1)):
    m = n_ising(n)
    for r in range(k + 1):
        for ix in itertools.combinations(range(m), r):
            for v in itertools.product(vals, repeat=r):
                t = [0] * m
                for i, x in zip(ix, v):
                    t[i] = x
                yield t


def cases(tier):
    for h in (-2, -1, 0, 1, 2):
        yield {"k": "kernel", "n": 1, "t": [h]}
    for t in itertools.product((-2, -1, 0, 1, 2), repeat=3):
        yield {"k": "kernel", "n": 2, "t": list(t)}
    for t in itertools.product((-1, 0, 1), repeat=6):
        yield {"k": "kernel", "n": 3, "t": list(t)}
    for t in sparse(4, 3 if tier == "thorough" else 2):
        yield {"k": "kernel", "n": 4, "t": t}
    for t in ([1, -1, 0, 1, 1, -1, 0, 1, 0, 0], [0, 1, 1, -1, 0, 0, 1, 1, -1, 1]):
        yield {"k": "kernel", "n": 4, "t": t}
    if tier == "thorough":
        for t in sparse(5, 2):
            yield {"k": "kernel", "n": 5, "t": t}
    else:
        for t in sparse(5, 1, (1,)):
            yield {"k": "kernel", "n": 5, "t": t}
    th = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 1], [-1, 0, 1]]
    for t in th:
        for sysit in (False, True):
            for ns, b, k in [(1, 0, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 0, 3), (2, 1, 1), (2, 0, 2),
                             (3, 0, 1), (2, 2, 1), (1, 3, 0), (2, 1, 0)]:
                yield {"k": "sched", "n": 2, "t": t, "ns": ns, "b": b, "ni": k, "sys": sysit}
    for t in ([1, 0, -1, 1, 0, 0], [0, 1, 0, 0, 1, 0]):
        for ns, b, k in [(1, 0, 2), (2, 0, 2), (1, 3, 1), (2, 1, 1), (1, 0, 4), (3, 1, 1)] + (
                [(3, 0, 2), (2, 2, 2), (1, 2, 4)] if tier == "thorough" else []):
            yield {"k": "sched", "n": 3, "t": t, "ns": ns, "b": b, "ni": k, "sys": True}
    for t in th:
        for via in ("metropolis", "model", "sample_ising", "sample_ising_lists", "sampler_reuse", "readin"):
            for b, k in ((1, 1), (None, 1), (0, 1), (2, 1), (1, 2)):
                yield {"k": "api", "n": 2, "t": t, "via": via, "b": b, "ni": k}
    for t in ([1, 0, -1, 1, 0, 1], [0, 1, 0, 0, 1, -1]):
        for via in ("metropolis", "model", "sample_ising", "sample_ising_lists", "sampler_reuse", "readin"):
            yield {"k": "api", "n": 3, "t": t, "via": via, "b": 1, "ni": 1}
    for n, step in ((8, 1), (13, 1), (21, 2), (40, 4), (130, 14), (260, 60)):
        for v in range(2 if tier == "quick" else 4):
            yield {"k": "large", "n": n, "v": v, "step": step if tier == "quick" else (step + 1) // 2}
    for via in ("metropolis", "parallel", "model"):
        for n in (2, 33, 70, 130):
            yield {"k": "starts", "n": n, "via": via}
    for n in (2, 3, 6):
        for par in (False, True):
            yield {"k": "updated", "n": n, "par": par}
    for n in (1, 2, 3):
        for sysit in (False, True):
            yield {"k": "scales", "n": n, "sys": sysit}
    # long runs through every route
    for via in ("metropolis", "model", "model_par", "helper", "helper_par", "parallel"):
        for n in (2, 3, 7):
            for sysit in ((False, True) if via in ("metropolis", "parallel") else (False,)):
                for ns, b, ni in ((20011, 0, 1), (3, 70001, 2), (4, 1, 33333)) if n == 3 else ((1500, 7, 3), (13, 1000, 500)):
                    for w in (1, 3) if "par" in via else (1,):
                        yield {"k": "long", "n": n, "via": via, "sys": sysit, "ns": ns, "b": b, "ni": ni, "w": w}
    for n in (1, 2, 5, 9, 40, 130, 300):
        for b, ni, ns in ((0, 1, 2 * n + 3), (n + 2, 1, 5), (3, n, 4), (2, 2 * n + 1, 4), (70000, 3, 3),
                          (5, 1, 3000 if n < 9 else 40), (1, 33000, 2)):
            yield {"k": "order", "n": n, "b": b, "ni": ni, "ns": ns}


def large_case(case, rec, ctx):
    n, v = case["n"], case["v"]
    th = np.array(matching(n, v), dtype=float) * U
    pairs = local_balance(rec, "cpp-large", lambda ns: direct(ctx, n, th, ns, 0, 1), n, 4, sparse_energy(th, n),
                          range(0, n, case["step"]), lambda i, m: (i * i + i // 3 + v) % 2 if m == 2 else i + v,
                          "n=%d variant %d" % (n, v))
    rec.sample({"n": n, "variant": v, "pairs of states": pairs})


def order_case(case, rec, ctx):
    """without fields and couplings every update is a flip: the returned states are known from the first"""
    n, b, ni, ns = case["n"], case["b"], case["ni"], case["ns"]
    out, _ = follow(direct(ctx, n, np.zeros(n_ising(n)), ns, b, ni, True), 2, lambda i, m: i % 2 if m == 2 and i < n else 0)
    rec.state(ns)
    rec.trans(b + ns * ni)
    rec.trace(1)
    ordered(rec, "cpp-large", out, b, ni, ns, range(n), [], str(case))


def scales_case(case, rec, ctx):
    n = case["n"]
    for t in scales(n):
        th = np.array(t)
        P = scaled_rows(rec, lambda ns: direct(ctx, n, th, ns, 0, 1, case["sys"]), states(n, (0, 1)))
        what = "parameters %s, %s" % (t, "systematic" if case["sys"] else "random sites")
        rec.check(len(P) > 2 ** n / 2, "scales:states", lambda: "only %d states reached in one update (%s)" % (len(P), what))
        ratios(rec, "scales", P, lambda s: ising_e(t, s), what)
        rec.trace()


def updated_case(case, rec, ctx):
    n, par = case["n"], case["par"]
    pool.set_cpus(2)

    def sample(m, ns):
        (m.generate_sample_parallel if par else m.generate_sample)(ns, n_iters=n, burn_in=8 * n)
        return np.array(m.sample)
    with env.controlled():
        updated(rec, "parallel" if par else "seq", lambda th: ctx.samplers.Metropolis(n, th, rng=Rng(), iprint=False), sample, n, 0, str(case), True)


def starts_case(case, rec, ctx):
    n, via = case["n"], case["via"]
    th = np.zeros(n_ising(n))
    pool.set_cpus(2)

    def run(rng):
        if via == "model":
            m = ctx.models.Ising(th, rng=rng)
            m.setup_sampler(sample_size=1, sampler_kwargs={"iprint": False})
            m.generate_sample(0, 0, parallel=False)
        else:
            m = ctx.samplers.Metropolis(n, th, rng=rng, iprint=False)
            m.generate_sample(1, n_iters=0, burn_in=0) if via == "metropolis" else m.generate_sample_parallel(2, n_iters=0, burn_in=0)
        return np.array(m.sample)[0]
    starts(rec, via, run, n, str(case))


def long_case(case, rec, ctx):
    n, via, sysit, w = case["n"], case["via"], case["sys"], case["w"]
    th = np.zeros(n_ising(n))
    pool.set_cpus(w)

    def run(ns, b, ni):
        def f():
            if via in ("metropolis", "parallel"):
                m = ctx.samplers.Metropolis(n, th.copy(), rng=Rng(), iprint=False)
                (m.generate_sample if via == "metropolis" else m.generate_sample_parallel)(ns, n_iters=ni, burn_in=b, systematic_iter=sysit)
                return np.array(m.sample)
            if via in ("model", "model_par"):
                m = ctx.models.Ising(th.copy(), rng=Rng())
                m.setup_sampler(sample_size=ns, sampler_kwargs={"iprint": False})
                m.generate_sample(ni, b, parallel=via == "model_par")
                return np.array(m.sample)
            return np.array(ctx.samplers.sample_ising(th.copy(), ns, seed=3, parallel=via == "helper_par", generate_sample_kw={"n_iters": ni, "burn_in": b}))
        with env.controlled():
            return follow(f, 2, lambda i, m: 0)[0]
    timed(rec, "long:" + via, run, n, case["ns"], case["b"], case["ni"], sysit, str(case), w)


def grid(n, t):
    m = 2 * max([abs(t[i]) + sum(abs(t[n + k]) for k, (a, b) in enumerate(itertools.combinations(range(n), 2))
                                if i in (a, b)) for i in range(n)])
    return 2 ** max(1, m // 2 * 1)          # dE = 2*(h+J..)*U = (...)*ln2


def direct(ctx, n, th, ns, b, k, s=False):
    def f():
        x = ctx.ext.BoostIsing(n, th, 1)
        x.generate_sample(ns, b, k, s)
        return env.rows(x.fetch_sample())
    return f


def kernel(ctx, n, th, K, rec):
    j = law(direct(ctx, n, th, 2, 0, 1), K, rec=rec)
    j = {(a, b): p for (a, b), p in j.items()}
    return rows_from_joint(j), j


def sys_kernels(ctx, n, th, K, rec):
    """P_i: the kernel that updates spin i, observed as step i of systematic iteration"""
    P = []
    for i in range(n):
        # samples are taken after steps b and b+1; the second is the one that updates i
        b = (i - 1) % n
        P.append(rows_from_joint(law(direct(ctx, n, th, 2, b, 1, True), K, rec=rec)))
    return P


def chain_law(init, kernels, take):
    """law of the states seen after the given step numbers"""
    d = {((), s): p for s, p in init.items()}
    for t, P in enumerate(kernels, 1):
        nd = {}
        for (h, s), p in d.items():
            for b, q in P[s].items():
                hh = h
                for _ in range(take.count(t)):
                    hh = hh + (b,)
                nd[(hh, b)] = nd.get((hh, b), 0.0) + p * q
        d = nd
    out = {}
    for (h, s), p in d.items():
        out[h] = out.get(h, 0.0) + p
    return out


def expected_law(ctx, n, th, K, ns, b, ni, sysit, rec):
    init = {s: 1 / 2 ** n for s in states(n)}
    tot = b + ns * ni
    if sysit:
        Pi = sys_kernels(ctx, n, th, K, rec)
        ks = [Pi[t % n] for t in range(tot)]
    else:
        P, _ = kernel(ctx, n, th, K, rec)
        ks = [P] * tot
    take = [b + (i + 1) * ni for i in range(ns)]
    if ni == 0:
        # all samples are the state after burn in
        take = [b] * ns
        if b == 0:
            return {tuple([s] * ns): p for s, p in init.items()}
    return chain_law(init, ks, take)


def run_case(case, rec, ctx):
    if case["k"] == "scales":
        return scales_case(case, rec, ctx)
    if case["k"] == "updated":
        return updated_case(case, rec, ctx)
    if case["k"] == "starts":
        return starts_case(case, rec, ctx)
    if case["k"] == "long":
        return long_case(case, rec, ctx)
    if case["k"] in ("large", "order"):
        return (large_case if case["k"] == "large" else order_case)(case, rec, ctx)
    n = case["n"]
    th = np.array(case["t"], dtype=float) * U
    K = grid(n, case["t"])
    sts = states(n)
    rec.state(len(sts))
    what = "n=%d theta=%s*ln2/2" % (n, case["t"])
    if case["k"] == "kernel":
        P, _ = kernel(ctx, n, th, K, rec)
        if SRC.bad:
            rec.bad("cpp:range", SRC.bad[0])
        pi = boltzmann(lambda s: ising_e(th, s), sts)
        if check_kernel(rec, "cpp", P, pi, sts, what):
            check_irreducible(rec, "cpp", P, sts, what)
        if n == 3 and sum(map(abs, case["t"])) == 2:
            rec.sample({"theta/(ln2/2)": case["t"], "kernel_row_of": list(sts[0]),
                        "row": {str(k): v for k, v in P.get(sts[0], {}).items()}})
        if n in (2, 3) and (n == 2 or sum(map(abs, case["t"])) <= 3):
            Pi = sys_kernels(ctx, n, th, K, rec)
            for i in range(n):
                if check_kernel(rec, "cpp-systematic", Pi[i], pi, sts, what + " step %d" % i):
                    wrong = [(a, b) for a in Pi[i] for b, q in Pi[i][a].items()
                             if q > 0 and any(a[j] != b[j] for j in range(n) if j != i)]
                    rec.check(not wrong, "cpp-systematic:site",
                              lambda: "step %d of systematic iteration changed another spin: %s" % (i, wrong[0]))
                    moves = any(a != b and q > 0 for a in Pi[i] for b, q in Pi[i][a].items())
                    rec.check(moves, "cpp-systematic:visit", "step %d of systematic iteration never updates spin %d" % (i, i))
    elif case["k"] == "sched":
        ns, b, ni, sysit = case["ns"], case["b"], case["ni"], case["sys"]
        got = law(direct(ctx, n, th, ns, b, ni, sysit), K, rec=rec)
        exp = expected_law(ctx, n, th, K, ns, b, ni, sysit, rec)
        rec.check(tv(got, exp) < 1e-9, "cpp:schedule",
                  lambda: "law of the returned samples differs from burn_in/n_iters applications of the kernel: "
                          "%s %s max %.3g" % (what, case, tv(got, exp)))
    else:
        b, ni = case["b"], case["ni"]
        beff = ni if b is None else b
        if case["via"] == "readin":
            def f():
                x = ctx.ext.BoostIsing(n, np.zeros_like(th) + 0.3, 1)
                x.readin_multipliers(th)
                x.generate_sample(2, beff, ni, False)
                return env.rows(x.fetch_sample())
        elif case["via"] == "metropolis":
            def f():
                m = ctx.samplers.Metropolis(n, th.copy(), rng=Rng(), iprint=False)
                m.generate_sample(2, n_iters=ni, burn_in=b)
                return env.rows(m.sample)
        elif case["via"] == "sampler_reuse":
            def f():
                m = ctx.samplers.Metropolis(n, np.zeros_like(th) + .3, rng=Rng(), iprint=False)
                m.update_parameters(th)
                m.generate_sample(2, n_iters=ni, burn_in=b)
                return env.rows(m.sample)
        elif case["via"] == "model":
            def f():
                m = ctx.models.Ising(th.copy(), rng=Rng())
                m.setup_sampler(sample_size=2, sampler_kwargs={"iprint": False})
                m.generate_sample(ni, b, parallel=False)
                return env.rows(m.sample)
        else:
            def f():
                return env.rows(ctx.samplers.sample_ising(
                    [th[:n].copy(), th[n:].copy()] if case["via"] == "sample_ising_lists" else th.copy(), 2, seed=3, parallel=False,
                    generate_sample_kw={"n_iters": ni, "burn_in": b}))
        with env.controlled():
            got = law(f, K, rec=rec)
        exp = expected_law(ctx, n, th, K, 2, beff, ni, False, rec)
        rec.check(tv(got, exp) < 1e-9, "api:%s:%s" % (case["via"], "burn0" if b == 0 else "law"),
                  lambda: "law of the returned samples is not that of %d burn-in steps and %d steps per sample of "
                          "the model's chain (%s)\nexpected %s\ngot %s" % (beff, ni, what, exp, got))
