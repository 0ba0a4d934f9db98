"""C03: the 3-state Potts sampler simulates exactly the Potts model, by every route."""
import itertools, pickle
import numpy as np
from mc import env, pool
from mc.choice import SRC, law, follow, Rng
from mc.ising import *
from checks.c01 import chain_law

LEVEL = "model_checking"
NEED_EXT = "controlled"
TECHNIQUE = ("explicit-state probabilistic model checking of the compiled and the Python Potts sampler: all random "
             "answers (start, site, proposal, acceptance) enumerated, exact kernels checked against the Boltzmann law")
RULE = ("case = parameter vector (multiples of ln2) x implementation/route; all start states, sites, proposals and "
        "acceptance cells are executed on the real code")
BOUNDS = {"quick": "n=1 all vectors over {-1,0,1}, n=2 all with <=3 non-zero entries, n=3 <=2; routes on n<=2; "
                   "detailed balance around a scripted state and systematic order for n<=130; runs of up to 10007 samples; 64 start states of n<=70; exact ratios of all rates for energy differences 1e-9..8",
          "thorough": "n=2 <=4 non-zero entries, n=3 <=3 (positive) and one-hot n=4; routes as quick plus longer schedules"}
ASSUMPTIONS = ["energies are multiples of ln2 where the acceptance grid is enumerated, which makes it exact",
               "real draws between two of nine probed cells of 2^45 change the decision at most once (found by bisection)"]
CHUNK = 4


def npar(n):
    return 3 * n + n * (n - 1) // 2


def setup(ctx):
    env.bring_up(ctx, ext=True)
    f = ctx.utils.define_potts_helper_functions
    import functools
    g = functools.lru_cache(None)(f)
    for m in (ctx.utils, ctx.models, ctx.samplers, ctx.solvers):
        if hasattr(m, "define_potts_helper_functions"):
            m.define_potts_helper_functions = g
    e = g(3)[0]
    e(np.zeros((1, 2), dtype=int), np.zeros(7))
    ctx.calc_e = e
    ctx.models.Potts3([np.zeros(6), np.zeros(1)])


def sparse(n, k, vals=(-1, 1)):
    m = npar(n)
    for r in range(k + 1):
        for ix in itertools.combinations(range(m), r):
            for v in itertools.product(vals, repeat=r):
                t = [0] * m
                for i, x in zip(ix, v):
                    t[i] = x
                yield t


GENERIC2 = [[1, 0, -1, 0, 1, 0, 1], [0, 1, 0, -1, 1, 0, -1], [1, 0, 0, 1, 0, 0, 1]]


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        for via in ("py", "cpp"):
            yield {"k": "scales", "n": n, "via": via}
    for t in itertools.product((-1, 0, 1), repeat=3):
        yield {"k": "cpp", "n": 1, "t": list(t)}
        yield {"k": "py", "n": 1, "t": list(t)}
    for t in itertools.chain(sparse(2, 4 if th else 3), GENERIC2):
        yield {"k": "cpp", "n": 2, "t": t}
        yield {"k": "py", "n": 2, "t": t}
    for t in itertools.chain(sparse(3, 3, (1,)) if th else sparse(3, 2, (1,)), sparse(3, 1, (-1,))):
        yield {"k": "cpp", "n": 3, "t": t}
    for t in sparse(3, 2):
        yield {"k": "py", "n": 3, "t": t}
    if th:
        for t in sparse(4, 1, (1,)):
            yield {"k": "cpp", "n": 4, "t": t}
    for t in sparse(4, 1, (1,)):
        yield {"k": "py", "n": 4, "t": t}
    for n in (2, 3, 4) + ((5,) if th else ()):
        for t in sparse(n, 1, (1,)):
            if n < 4 or any(t[3 * n:]) or th:
                yield {"k": "cpp", "n": n, "t": t, "via": "pickle"}
    for n in (5, 8, 13, 40, 130):
        for v in (0, 1):
            for via in ("cpp", "pickle", "py"):
                yield {"k": "large", "n": n, "v": v, "via": via, "sites": n if n < 14 else (6 if n < 100 else 3) * (2 if th else 1)}
        for b, ni, ns in ((0, 1, 2 * n + 3), (n + 2, 1, 5), (1, n, 3), (2, 2 * n + 1, 4)):
            yield {"k": "order", "n": n, "b": b, "ni": ni, "ns": ns}
    # long runs through every route
    for via in ("boost", "py", "par_boost", "par_py"):
        for n in (2, 3):
            yield {"k": "updated", "n": n, "via": via}
    for via in ("boost", "py", "model", "par_boost", "par_py", "par_model"):
        for n in (2, 33, 70):
            yield {"k": "starts", "n": n, "via": via}
        for n in (3, 5):
            for sysit in ((False, True) if "model" not in via else (False,)):
                for ns, b, ni in ((2003 if "py" in via else 10007, 0, 1), (2, 1501, 1), (2, 1, 1301), (10, 290, 271)):
                    for w in (2, 3) if "par" in via else (1,):
                        if w < ns:
                            yield {"k": "long", "n": n, "via": via, "sys": sysit, "ns": ns, "b": b, "ni": ni, "w": w}
    for route in ("boost", "py", "model", "model_py", "pickle", "update"):
        for n, t in [(1, [1, 0, -1]), (2, GENERIC2[0]), (2, GENERIC2[1])]:
            for b, k in [(0, 1), (1, 1), (None, 1), (2, 0)]:
                for sysit in ((False, True) if route in ("boost", "py", "pickle") else (False,)):
                    yield {"k": "route", "route": route, "n": n, "t": t, "ns": 1, "b": b, "ni": k, "sys": sysit}
            if n == 1 or th:
                for sysit in ((False, True) if route in ("boost", "py", "pickle") else (False,)):
                    yield {"k": "route", "route": route, "n": n, "t": t, "ns": 2, "b": 1, "ni": 1, "sys": sysit}
    for route in ("par_boost", "par_py", "par_model"):
        for t in ([1, 0, -1], [0, 1, 0], [0, 0, 0]):
            for ns, b, k in [(3, 0, 1), (3, 1, 0), (4, 0, 1), (3, None, 1)]:
                if b is None and t == [1, 0, -1] and not th:
                    continue
                for sysit in ((False, True) if route != "par_model" else (False,)):
                    yield {"k": "par", "route": route, "n": 1, "t": t, "ns": ns, "b": b, "ni": k, "sys": sysit}
        for t in GENERIC2[:2]:
            for sysit in ((False, True) if route != "par_model" else (False,)):
                yield {"k": "par", "route": route, "n": 2, "t": t, "ns": 3, "b": 1, "ni": 0, "sys": sysit}


def grid(n, t):
    m = max(potts_e(t, s) for s in states(n, (0, 1, 2))) - min(potts_e(t, s) for s in states(n, (0, 1, 2)))
    d = 0
    for s in states(n, (0, 1, 2)):
        for i in range(n):
            for v in (0, 1, 2):
                u = s[:i] + (v,) + s[i + 1:]
                d = max(d, potts_e(t, u) - potts_e(t, s))
    return 2 ** max(1, int(d))


def direct(ctx, n, th, ns, b, k, s, via=None):
    def f():
        x = ctx.ext.BoostPotts3(n, th, 1)
        if via == "pickle":
            x = pickle.loads(pickle.dumps(x))
        x.generate_sample(ns, b, k, s)
        return env.rows(x.fetch_sample())
    return f


def cpp_kernels(ctx, n, th, K, rec):
    P = rows_from_joint(law(direct(ctx, n, th, 2, 0, 1, False), K, rec=rec))
    Pi = [rows_from_joint(law(direct(ctx, n, th, 2, (i - 1) % n, 1, True), K, rec=rec)) for i in range(n)]
    return P, Pi


def py_kernels(ctx, n, th, K, rec):
    m = ctx.samplers.Potts3(n, th, calc_e=ctx.calc_e, rng=Rng(), boost=False)
    P, Pi = {}, [{} for _ in range(n)]
    for s in states(n, (0, 1, 2)):
        E0 = potts_e(th, s)
        for site in [None] + list(range(n)):
            def f():
                x = np.array(s)
                de = m.sample_metropolis(x, E0, flip_site=site)
                return tuple(int(v) for v in x), round(float(np.asarray(de).reshape(-1)[0]), 9)
            row = {}
            for (s1, de), p in law(f, K, rec=rec).items():
                row[s1] = row.get(s1, 0) + p
                rec.check(abs(de - (potts_e(th, s1) - E0)) < 1e-8, "py:dE",
                          lambda: "reported energy change %g but state went %s -> %s" % (de, s, s1))
                diff = [i for i in range(n) if s1[i] != s[i]]
                rec.check(len(diff) <= 1 and (site is None or diff in ([], [site])), "py:site",
                          lambda: "flip_site=%s but state went %s -> %s" % (site, s, s1))
            (P if site is None else Pi[site])[s] = row
    return P, Pi


def scales_case(case, rec, ctx):
    n = case["n"]
    sts = states(n, (0, 1, 2))
    for t in scales(n, 3):
        th = np.array(t)
        e = lambda s: potts_e(t, s)
        if case["via"] == "py":
            m = ctx.samplers.Potts3(n, th, calc_e=ctx.calc_e, rng=Rng(), boost=False)
            for site in [None] + list(range(n)):
                P = {}
                for s in sts:
                    def f():
                        x = np.array(s)
                        de = m.sample_metropolis(x, e(s), flip_site=site)
                        s1 = tuple(int(v) for v in x)
                        rec.check(abs(float(np.asarray(de).reshape(-1)[0]) - (e(s1) - e(s))) < 1e-12, "scales:dE", lambda: "reported energy change %s of %s -> %s (%s)" % (de, s, s1, t))
                        return s1
                    P[s] = law(f, 64, rec=rec, lazy=True)
                ratios(rec, "scales:py", P, e, "parameters %s, site %s" % (t, site))
        else:
            for sysit in (False, True) if n < 3 else (True,):
                P = scaled_rows(rec, lambda ns: direct(ctx, n, th, ns, 0, 1, sysit), sts)
                what = "parameters %s, %s" % (t, "systematic" if sysit else "random sites")
                rec.check(len(P) > 3 ** n / 2, "scales:states", lambda: "only %d states reached in one update (%s)" % (len(P), what))
                ratios(rec, "scales:cpp", P, e, what)
        rec.trace()


def updated_case(case, rec, ctx):
    n, via = case["n"], case["via"]
    pool.set_cpus(2)

    def sample(m, ns):
        (m.generate_sample_parallel if "par" in via else m.generate_sample)(ns, n_iters=n, burn_in=8 * n)
        return np.array(m.sample)
    with env.controlled():
        updated(rec, via, lambda th: ctx.samplers.Potts3(n, th, calc_e=ctx.calc_e, rng=Rng(), boost="boost" in via, n_cpus=2), sample, n, 3, str(case), "boost" in via)


def starts_case(case, rec, ctx):
    n, via = case["n"], case["via"]
    pool.set_cpus(2)
    th = np.zeros(npar(n))

    def run(rng):
        if "model" in via:
            m = ctx.models.Potts3([th[:3 * n], th[3 * n:]], rng=rng)
            m.setup_sampler(sample_size=4, sampler_kwargs={"n_cpus": 2})
            m.generate_sample(0, 0, parallel=via == "par_model")
        else:
            m = ctx.samplers.Potts3(n, th, calc_e=lambda S, th: np.zeros(len(S)), rng=rng, boost="boost" in via, n_cpus=2)
            (m.generate_sample_parallel if "par" in via else m.generate_sample)(4, n_iters=0, burn_in=0)
        return np.array(m.sample)[0]
    starts(rec, via, run, n, str(case))


def long_case(case, rec, ctx):
    """without fields and couplings every update changes one unit; with the same answers a run that takes fewer samples
    sees some of the states of a run that takes all"""
    n, via, sysit, w, B, ni, ns = (case[x] for x in ("n", "via", "sys", "w", "b", "ni", "ns"))
    pool.set_cpus(w)
    th = np.zeros(npar(n))
    S, M = ctx.samplers, ctx.models
    tag = "long:" + via

    def run(ns, b, ni):
        def f():
            if "model" in via:
                m = M.Potts3([th[:3 * n], th[3 * n:]], rng=Rng())
                m.setup_sampler(sample_size=ns, sampler_kwargs={"n_cpus": max(2, w)})
                m.generate_sample(ni, b, parallel=via == "par_model")
            else:
                m = S.Potts3(n, th, calc_e=lambda S, th: np.zeros(len(S)), rng=Rng(), boost="boost" in via, n_cpus=max(2, w))
                (m.generate_sample_parallel if "par" in via else m.generate_sample)(ns, n_iters=ni, burn_in=b, systematic_iter=sysit)
            return np.array(m.sample)
        with env.controlled():
            return follow(f, 2, lambda i, m: 0)[0]
    rows = run(ns, B, ni)
    per = -(-ns // w)
    rec.state(ns)
    rec.trans(B + ns * ni)
    rec.trace()
    if not rec.check(rows.shape == (ns, n), tag + ":rows", "%s rows instead of %d (%s)" % (rows.shape, ns, case)):
        return
    if ni == 1:
        for a in range(0, ns, per):
            d = rows[a + 1:a + per] != rows[a:a + per][:-1]
            bad = d.sum(1) != 1
            if sysit and len(d):
                bad |= ~d[np.arange(len(d)), (B + 1 + np.arange(len(d))) % n]
            rec.check(not bad.any(), tag + ":step", lambda: "rows %d and %d of a block are not one update apart (%s)" % (np.argmax(bad), np.argmax(bad) + 1, case))
    if per * ni + B < 6000:
        m = per * ni + B
        full = run(w * m, 0, 1)
        t = B + (np.arange(ns) % per + 1) * ni
        want = full[np.arange(ns) // per * m + t - 1]
        bad = (rows != want).any(1)
        rec.check(not bad.any(), tag + ":time", lambda: "row %d is not the state after %d updates (%s)" % (np.argmax(bad), t[np.argmax(bad)], case))


def large_case(case, rec, ctx):
    n, v = case["n"], case.get("v", 0)
    if case["k"] == "order":
        # every proposal is accepted without fields and couplings: rows one sweep apart differ in the updated units
        b, ni, ns = case["b"], case["ni"], case["ns"]
        out, _ = follow(direct(ctx, n, np.zeros(npar(n)), ns, b, ni, True), 2, lambda i, m: i % 3 if m == 3 else 0)
        rec.state(ns)
        rec.trans(b + ns * ni)
        rec.check(len(out) == ns, "cpp-large:rows", "%d rows instead of %d (%s)" % (len(out), ns, case))
        for k in range(1, ns):
            f = flips(n, b + k * ni, b + (k + 1) * ni)
            wrong = [i for i in range(n) if (f[i] == 0 and out[k][i] != out[k - 1][i]) or (f[i] == 1 and out[k][i] == out[k - 1][i])]
            if not rec.check(not wrong, "cpp-large:order", lambda: "rows %d and %d are not separated by %d systematic updates from unit %d "
                             "on: unit %d (%s)" % (k - 1, k, ni, (b + k * ni) % n, wrong[0], case)):
                break
        return
    th = np.array(matching_potts(n, v), dtype=float) * LN2
    e = sparse_potts_energy(th, n)
    sites = list(range(0, n, max(1, n // case["sites"])))
    if case["via"] == "py":
        m = ctx.samplers.Potts3(n, th, calc_e=ctx.calc_e, rng=Rng(), boost=False)
        s0 = tuple((i * i + i // 3 + v) % 3 for i in range(n))
        P = {}
        for s in [s0] + [s0[:i] + ((s0[i] + d) % 3,) + s0[i + 1:] for i in sites[:12] for d in (1, 2)]:
            def f():
                x = np.array(s)
                de = m.sample_metropolis(x, e(s))
                return tuple(int(a) for a in x), round(float(np.asarray(de).reshape(-1)[0]), 9)
            P[s] = {}
            for (s1, de), p in law(f, 4, rec=rec).items():
                P[s][s1] = P[s].get(s1, 0) + p
                rec.check(abs(de - (e(s1) - e(s))) < 1e-7, "py-large:dE", lambda: "reported energy change %g is not that of the move (%s)" % (de, case))
            rec.state(1)
        balance(rec, "py-large", P, n, e, str(case))
    else:
        local_balance(rec, case["via"] + "-large", lambda ns: direct(ctx, n, th, ns, 0, 1, False, case["via"]), n, 4, e, sites,
                      lambda i, m: i * i + i // 3 + v, str(case), vals=3)


def run_case(case, rec, ctx):
    if case["k"] == "scales":
        return scales_case(case, rec, ctx)
    if case["k"] == "updated":
        return updated_case(case, rec, ctx)
    if case["k"] == "starts":
        return starts_case(case, rec, ctx)
    if case["k"] == "long":
        return long_case(case, rec, ctx)
    if case["k"] in ("large", "order"):
        return large_case(case, rec, ctx)
    n, t = case["n"], case["t"]
    th = np.array(t, dtype=float) * LN2
    K = grid(n, t)
    sts = states(n, (0, 1, 2))
    rec.state(len(sts))
    pi = boltzmann(lambda s: potts_e(th, s), sts)
    k = case["k"]
    what = "n=%d theta=%s*ln2" % (n, t)
    if k in ("cpp", "py"):
        if k == "cpp" and (n >= 3 or "via" in case):
            P, Pi = rows_from_joint(law(direct(ctx, n, th, 2, 0, 1, False, case.get("via")), K, rec=rec)), []
        else:
            P, Pi = (cpp_kernels if k == "cpp" else py_kernels)(ctx, n, th, K, rec)
        if SRC.bad:
            rec.bad("cpp:range", SRC.bad[0])
        if check_kernel(rec, k, P, pi, sts, what):
            check_irreducible(rec, k, P, sts, what)
            for s in sts:
                nb = {u for u, q in P[s].items() if q > 0 and u != s}
                full = {s[:i] + (v,) + s[i + 1:] for i in range(n) for v in (0, 1, 2) if v != s[i]}
                if not rec.check(nb == full, k + ":proposals",
                                 lambda: "from %s the reachable states are %s, expected every single-spin change" % (s, sorted(nb))):
                    break
        for i, Q in enumerate(Pi):
            if check_kernel(rec, k + "-systematic", Q, pi, sts, what + " step %d" % i):
                rec.check(all(a[:i] + a[i + 1:] == b[:i] + b[i + 1:] for a in Q for b, q in Q[a].items() if q > 0),
                          k + "-systematic:site", "step %d changes another spin" % i)
                rec.check(any(a != b and q > 0 for a in Q for b, q in Q[a].items()), k + "-systematic:visit",
                          "step %d never updates spin %d" % (i, i))
        if n == 2 and t == GENERIC2[0]:
            rec.sample({"impl": k, "theta/ln2": t, "row_of": "00", "row": {str(b): q for b, q in P[(0, 0)].items()}})
        return
    ns, b, ni, sysit, route = case["ns"], case["b"], case["ni"], case["sys"], case["route"]
    be = ni if b is None else b
    isboost = route not in ("py", "model_py", "par_py")
    P, Pi = (cpp_kernels if isboost else py_kernels)(ctx, n, th, K, rec)
    tot = be + (ns + 1) * max(ni, 1)
    ks = [Pi[i % n] for i in range(tot)] if sysit else [P] * tot
    init = {s: 1 / 3 ** n for s in sts}

    def chain(m):
        if be + m * ni == 0:
            return {tuple([s] * m): p for s, p in init.items()}
        return chain_law(init, ks[:be + m * ni], [be + (i + 1) * ni for i in range(m)])
    pool.set_cpus(2)
    pool.FakePool.isolate = False
    S, M = ctx.samplers, ctx.models

    def f():
        if route == "pickle":
            x = ctx.ext.BoostPotts3(n, th, 1)
            x = pickle.loads(pickle.dumps(x))
            x.generate_sample(ns, be, ni, sysit)
            return env.rows(x.fetch_sample())
        if route in ("boost", "py", "update"):
            m = S.Potts3(n, th if route != "update" else th + 1., calc_e=ctx.calc_e, rng=Rng(), boost=isboost)
            if route == "update":
                m.update_parameters(th)
            m.generate_sample(ns, n_iters=ni, burn_in=b, systematic_iter=sysit)
        elif route in ("par_boost", "par_py"):
            m = S.Potts3(n, th, calc_e=ctx.calc_e, rng=Rng(), boost=isboost, n_cpus=2)
            m.generate_sample_parallel(ns, n_iters=ni, burn_in=b, systematic_iter=sysit)
        else:
            m = M.Potts3([th[:3 * n], th[3 * n:]], rng=Rng())
            m.setup_sampler(sample_size=ns, sampler_kwargs={"boost": isboost, "n_cpus": 2})
            m.generate_sample(ni, be, parallel=(route == "par_model"))
        if not isinstance(m.sample, np.ndarray) or m.sample.shape != (ns, n):
            rec.bad(route + ":shape", "sample of shape %s instead of %s" % (getattr(m.sample, "shape", None), (ns, n)))
            return ()
        return env.rows(m.sample)
    with env.controlled():
        got = law(f, K, rec=rec)
    if case["k"] == "route":
        exp = chain(ns)
    else:
        per = -(-ns // 2)
        a, c = chain(per), chain(ns - per)
        exp = {x + y: p * q for x, p in a.items() for y, q in c.items()}
    rec.check(tv(got, exp) < 1e-9, "%s:law" % route,
              lambda: "law of returned samples differs from burn_in/n_iters updates of independent chains, max %.3g; %s\n"
                      "expected %s\ngot %s" % (tv(got, exp), what, str(exp)[:400], str(got)[:400]))
