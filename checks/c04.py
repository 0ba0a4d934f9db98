"""C04: conditional sampling fixes the given spins and samples the conditional law."""
import itertools
import numpy as np
from mc import env, pool
from mc.choice import SRC, law, follow, Rng
from mc.ising import *
from checks.c01 import chain_law, sparse

LEVEL = "model_checking"
NEED_EXT = "controlled"
TECHNIQUE = ("explicit-state probabilistic model checking of the conditional samplers (C++ and Python): all random "
             "answers enumerated for every fixed subset and value, exact kernels against the conditional Boltzmann law")
RULE = ("case = parameters x fixed subset with values x implementation/route/schedule; every start, site and "
        "acceptance cell is executed on the real code")
BOUNDS = {"quick": "n=2,3 all non-empty proper subsets and values, all parameter vectors with <=2 non-zero entries; "
                   "n=4 all subsets/values with one-hot and dense vectors; routes with <=3 updates; energies of free spins: n<=5, all subsets and states; "
                   "detailed balance around a scripted state and systematic order for n<=130 with 6 fixed subsets; runs of up to 10006 samples; 64 start states of n<=130; exact ratios of all rates for energy differences 1e-9..8",
          "thorough": "as quick with <=3 non-zero entries for n=3, <=2 for n=4, n=5 one-hot; routes with <=4 updates"}
ASSUMPTIONS = ["energies are multiples of ln2 where the acceptance grid is enumerated, which makes it exact",
               "real draws between two of nine probed cells of 2^45 change the decision at most once (found by bisection)",
               "fixed subsets are ordered by spin index and leave at least one spin free, as documented"]
U = LN2 / 2
CHUNK = 8


def setup(ctx):
    env.bring_up(ctx, ext=True)
    ctx.e = ctx.utils.define_ising_helper_functions()[0]
    ctx.e(np.array([[1, -1]]), np.zeros(3))


def subsets(n):
    for r in range(1, n):
        for ix in itertools.combinations(range(n), r):
            for v in itertools.product((-1, 1), repeat=r):
                yield [[i, x] for i, x in zip(ix, v)]


D3 = [[1, 0, -1, 1, 0, 1], [0, 1, 0, 1, 1, -1], [1, -1, 1, -1, 1, 1]]
D4 = [[1, -1, 0, 1, 1, -1, 0, 1, 0, 0], [0, 1, 1, -1, 0, 0, 1, 1, -1, 1]]


def cases(tier):
    th = tier == "thorough"
    for n, ts in ((2, itertools.product((-2, -1, 0, 1, 2), repeat=3)),
                  (3, itertools.chain(sparse(3, 3 if th else 2), D3)),
                  (4, itertools.chain(sparse(4, 2) if th else sparse(4, 1), D4)),
                  (5, sparse(5, 1, (1,)) if th else [])):
        for t in ts:
            yield {"k": "cpp", "n": n, "t": list(t)}
    # routes
    for impl in ("boost", "py", "boost_par"):
        for n, t in [(2, [1, -1, 1]), (3, D3[0]), (3, D3[1])]:
            if impl == "boost_par" and t == D3[1] and not th:
                continue
            for fx in subsets(n):
                nf = n - len(fx)
                sch = [(1, 1, 1), (2, 0, 1), (1, 2, 1), (3, 0, 1), (2, 1, 0), (1, 0, 2)]
                if impl == "boost_par":
                    sch = [(1, 0, 1), (3, 0, 1), (2, 1, 0), (1, 1, 1)] if nf == 1 else [(1, 1, 0), (2, 0, 1)]
                elif th:
                    sch += [(2, 1, 1), (2, 0, 2), (1, 1, 3)]
                for ns, b, ni in sch:
                    if impl == "py" and nf == 2 and ns == 3:
                        continue
                    for sysit in (False, True):
                        yield {"k": "route", "impl": impl, "n": n, "t": t, "fx": fx, "ns": ns, "b": b, "ni": ni,
                               "sys": sysit}
    # the energy as a function of the free spins only
    for n in (2, 3, 4, 5) + ((6,) if th else ()):
        yield {"k": "energy", "n": n}
    # systems too large for a full kernel
    for n in (7, 12, 40, 130):
        for f in range(6):
            for v in ((f % 2,) if n > 12 else (0, 1)):
                yield {"k": "large", "n": n, "f": f, "v": v, "sites": n if n < 13 else (8 if n < 100 else 4) * (2 if th else 1)}
            for b, ni, ns in ((0, 1, 2 * n + 3), (n + 2, 1, 5), (3, n, 4), (2, 2 * n + 1, 4), (70000, 3, 3)):
                yield {"k": "order", "n": n, "f": f, "v": 0, "b": b, "ni": ni, "ns": ns}
    for n, fx in ((2, [(0, 1)]), (2, [(1, -1)]), (3, [(1, 1)]), (3, [(2, -1)])):
        yield {"k": "scales", "n": n, "fx": fx}
    # long runs through every route
    for via in ("py", "boost", "boost_par"):
        for n, fx in ((3, [(1, -1)]), (34, [(0, 1), (33, -1)]), (70, [(5, 1)]), (130, [(64, -1), (129, 1)])):
            yield {"k": "starts", "n": n, "fx": fx, "via": via}
        for n, fx in ((4, [(1, -1)]), (5, [(0, 1), (3, -1)]), (3, [(2, 1)])):
            for sysit in (False, True):
                for ns, b, ni in ((5003, 0, 1), (2, 3001, 1), (2, 1, 2501), (10, 300, 271)):
                    for w in (1, 3) if via == "boost_par" else (1,):
                        if via != "py" or n == 4:
                            yield {"k": "long", "n": n, "fx": fx, "via": via, "sys": sysit, "ns": ns * (1 if via == "py" or ns < 99 else 2), "b": b, "ni": ni, "w": w}
    # larger systems: bookkeeping of the returned rows only (start states and outcomes still enumerated)
    for n in (4, 5):
        for fx in subsets(n):
            if n - len(fx) > 2 or any(v == 1 for _, v in fx[1:]):
                continue
            for ns in (1, 2, 3):
                yield {"k": "rows", "n": n, "fx": fx, "ns": ns}


def large_fixed(n, f):
    ix = {0: range(0, n, 3), 1: range(n - 2), 2: range(2, n), 3: [n // 2], 4: [0, n - 1], 5: range(1, n, 2)}[f]
    return [(i, 1 if (i * i + i // 2) % 3 else -1) for i in ix]


def large_case(case, rec, ctx):
    n, fx = case["n"], large_fixed(case["n"], case["f"])
    th = np.array(matching(n, case["v"]), dtype=float) * LN2 / 2
    free = [i for i in range(n) if i not in dict(fx)]
    if case["k"] == "order":
        b, ni, ns = case["b"], case["ni"], case["ns"]
        out, _ = follow(direct(ctx, n, np.zeros(n_ising(n)), fx, ns, b, ni, True), 2, lambda i, m: i % 2 if m == 2 and i < n else 0)
        rec.state(ns)
        rec.trans(b + ns * ni)
        ordered(rec, "cpp-large", out, b, ni, ns, free, fx, str(case))
        return
    sites = free[::max(1, len(free) // case["sites"])]

    def sample(ns):
        f = direct(ctx, n, th, fx, ns, 0, 1, False)

        def g():
            out = f()
            for r in out:
                rec.check(all(r[i] == x for i, x in fx), "cpp-large:fixed", lambda: "a fixed spin has another value: %s" % case)
            return out
        return g
    local_balance(rec, "cpp-large", sample, n, 4, sparse_energy(th, n), sites, lambda i, m: (i * i + i // 3) % 2 if m == 2 else i, str(case))


def scales_case(case, rec, ctx):
    n, fx = case["n"], [tuple(x) for x in case["fx"]]
    for t in scales(n):
        th = np.array(t)
        for sysit in (False, True):
            P = scaled_rows(rec, lambda ns: direct(ctx, n, th, fx, ns, 0, 1, sysit), states(n, (0, 1)))
            what = "parameters %s, fixed %s, %s" % (t, fx, "systematic" if sysit else "random sites")
            rec.check(len(P) > 2 ** (n - len(fx)) / 2 and all(s[i] == v for s in P for i, v in fx), "scales:states", lambda: "states %s reached in one update (%s)" % (list(P), what))
            ratios(rec, "scales", P, lambda s: ising_e(t, s), what)
        rec.trace()


def starts_case(case, rec, ctx):
    n, via, fx = case["n"], case["via"], [tuple(x) for x in case["fx"]]
    pool.set_cpus(2)
    th = np.zeros(n_ising(n))

    def run(rng):
        m = ctx.samplers.Metropolis(n, th, calc_e=lambda S, th: np.zeros(len(S)), rng=rng, boost=via != "py", iprint=False)
        m.generate_cond_sample(2, fx, burn_in=0, n_iters=0, parallel=via == "boost_par")
        return np.array(m.sample)[0]
    starts(rec, via, run, n, str(case), [i for i in range(n) if i not in dict(fx)])


def long_case(case, rec, ctx):
    n, via, sysit, w, fx = case["n"], case["via"], case["sys"], case["w"], [tuple(x) for x in case["fx"]]
    pool.set_cpus(w)
    th = np.zeros(n_ising(n))

    def run(ns, b, ni):
        def f():
            m = ctx.samplers.Metropolis(n, th, calc_e=lambda S, th: np.zeros(len(S)), rng=Rng(), boost=via != "py", iprint=False)
            m.generate_cond_sample(ns, fx, burn_in=b, n_iters=ni, systematic_iter=sysit, parallel=via == "boost_par")
            return np.array(m.sample)
        with env.controlled():
            return follow(f, 2, lambda i, m: 0)[0]
    rec.check(all((np.array(run(case["ns"], 1, 1))[:, i] == v).all() for i, v in fx), "long:fixed", "fixed spins have other values (%s)" % case)
    timed(rec, "long:" + via, run, n, case["ns"], case["b"], case["ni"], sysit, str(case), w, [i for i in range(n) if i not in dict(fx)])


def grid(n, t):
    m = max(abs(t[i]) + sum(abs(t[n + k]) for k, (a, b) in enumerate(itertools.combinations(range(n), 2))
                            if i in (a, b)) for i in range(n))
    return 2 ** max(1, m)


def direct(ctx, n, th, fx, ns, b, ni, s):
    ix = np.array([i for i, _ in fx], dtype=np.int32)
    v = np.array([x for _, x in fx], dtype=np.int32)

    def f():
        x = ctx.ext.BoostIsing(n, th, 1)
        x.generate_cond_sample(ix, v, ns, b, ni, s)
        return env.rows(x.fetch_sample())
    return f


def compl(n, fx):
    d = dict(map(tuple, fx))
    return [s for s in states(n) if all(s[i] == v for i, v in d.items())]


def cond_pi(th, sts):
    return boltzmann(lambda s: ising_e(th, s), sts)


def kernels(ctx, n, th, fx, K, rec):
    free = [i for i in range(n) if i not in dict(map(tuple, fx))]
    P = rows_from_joint(law(direct(ctx, n, th, fx, 2, 0, 1, False), K, rec=rec))
    Pi = [rows_from_joint(law(direct(ctx, n, th, fx, 2, (k - 1) % len(free), 1, True), K, rec=rec))
          for k in range(len(free))]
    return P, Pi, free


def verify(rec, tag, P, Pi, free, th, n, fx, what):
    sts = compl(n, fx)
    pi = cond_pi(th, sts)
    wrong = [s for a in P for s in list(P[a]) + [a] if s not in sts]
    if not rec.check(not wrong, tag + ":fixed", lambda: "state %s returned although %s is fixed; %s" % (wrong[0], fx, what)):
        return False
    if check_kernel(rec, tag, P, pi, sts, what):
        check_irreducible(rec, tag, P, sts, what)
    for k, Q in enumerate(Pi):
        if not rec.check(all(s in sts for a in Q for s in list(Q[a]) + [a]), tag + "-systematic:fixed",
                         lambda: "systematic step %d changes a fixed spin; %s" % (k, what)):
            return False
        if check_kernel(rec, tag + "-systematic", Q, pi, sts, what + " step %d" % k):
            rec.check(all(a[j] == b[j] for a in Q for b, q in Q[a].items() if q > 0 for j in range(n) if j != free[k])
                      and any(a != b and q > 0 for a in Q for b, q in Q[a].items()), tag + "-systematic:site",
                      lambda: "systematic step %d does not update free spin %d only; %s" % (k, free[k], what))
    return True


def run_case(case, rec, ctx):
    if case["k"] == "scales":
        return scales_case(case, rec, ctx)
    if case["k"] == "starts":
        return starts_case(case, rec, ctx)
    if case["k"] == "long":
        return long_case(case, rec, ctx)
    if case["k"] in ("large", "order"):
        return large_case(case, rec, ctx)
    n = case["n"]
    if case["k"] == "cpp":
        t = case["t"]
        th = np.array(t, dtype=float) * U
        K = grid(n, t)
        for fx in subsets(n):
            if n == 5 and len(fx) != 2:
                continue
            rec.state(2 ** (n - len(fx)))
            P, Pi, free = kernels(ctx, n, th, fx, K, rec)
            if SRC.bad:
                rec.bad("cpp:range", SRC.bad[0] + " fixed %s" % fx)
            verify(rec, "cpp", P, Pi, free, th, n, fx, "theta=%s*ln2/2 fixed=%s" % (t, fx))
            if n == 3 and t == D3[0] and len(fx) == 1 and fx[0][1] == 1:
                rec.sample({"theta/(ln2/2)": t, "fixed": fx,
                            "kernel": {str(a): {str(b): q for b, q in r.items()} for a, r in P.items()}})
        return
    if case["k"] == "energy":
        for fx in subsets(n):
            old = getattr(ctx.samplers, "njit", None)
            if n > 2 and old is not None:
                ctx.samplers.njit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)  # interpreted: compiling takes a second per subset
            try:
                g = ctx.samplers.define_jit_cond_calc_e(n, ctx.e, np.array(fx).ravel())
            finally:
                if old is not None:
                    ctx.samplers.njit = old
            free = [i for i in range(n) if i not in dict(map(tuple, fx))]
            for s in compl(n, fx):
                for th in (np.arange(1., n_ising(n) + 1) ** 1.5, (-1.) ** np.arange(n_ising(n))):
                    rec.state()
                    rec.trans()
                    e = np.asarray(g(np.array([[s[i] for i in free]]), th)).ravel()
                    rec.check(len(e) == 1 and abs(e[0] - ising_e(th, s)) < 1e-9, "energy",
                              lambda: "free spins %s of %d with %s fixed: energy %s instead of %s" % ([s[i] for i in free], n, fx, e, ising_e(th, s)))
        rec.trace()
        return
    if case["k"] == "rows":
        fx, ns = case["fx"], case["ns"]
        th = np.array([0.1 * (i + 1) * (-1) ** i for i in range(n_ising(n))])
        for impl in ("py", "boost"):
            def f():
                m = ctx.samplers.Metropolis(n, th, calc_e=ctx.e, rng=Rng(), boost=impl == "boost", iprint=False)
                m.generate_cond_sample(ns, [tuple(x) for x in fx], burn_in=0, n_iters=1, systematic_iter=True,
                                       parallel=False)
                return rows_ok(rec, impl, m, n, ns, fx, th)
            d = law(f, 1, rec=rec)
            rec.state(len(d))
        return
    # routes
    fx, ns, b, ni, sysit, impl, t = (case[x] for x in ("fx", "ns", "b", "ni", "sys", "impl", "t"))
    th = np.array(t, dtype=float) * U
    K = grid(n, t)
    P, Pi, free = kernels(ctx, n, th, fx, K, rec)
    pool.set_cpus(2)
    pool.FakePool.isolate = False
    nf = len(free)

    def f():
        m = ctx.samplers.Metropolis(n, th, calc_e=ctx.e, rng=Rng(), boost=impl != "py", iprint=False)
        m.generate_cond_sample(ns, [tuple(x) for x in fx], burn_in=b, n_iters=ni, systematic_iter=sysit,
                               parallel=impl == "boost_par")
        return rows_ok(rec, impl, m, n, ns, fx, th)
    with env.controlled():
        got = law(f, K, rec=rec)
    sts = compl(n, fx)
    init = {s: 1 / len(sts) for s in sts}

    def chain(m):
        tot = b + m * ni
        if tot == 0:
            return {tuple([s] * m): p for s, p in init.items()}
        ks = [Pi[i % nf] for i in range(tot)] if sysit else [P] * tot
        return chain_law(init, ks, [b + (i + 1) * ni for i in range(m)])
    if impl == "boost_par":
        per = -(-ns // 2)
        a, c = chain(per), chain(ns - per) if ns > per else {(): 1.0}
        exp = {x + y: p * q for x, p in a.items() for y, q in c.items()}
    else:
        exp = chain(ns)
    rec.state(len(exp))
    rec.check(tv(got, exp) < 1e-9, impl + ":law",
              lambda: "law of returned samples differs from burn_in/n_iters updates of the conditional chain, max %.3g\n"
                      "expected %s\ngot %s" % (tv(got, exp), str(exp)[:500], str(got)[:500]))


def rows_ok(rec, impl, m, n, ns, fx, th):
    x = np.asarray(m.sample)
    rec.add("checks")
    if x.shape != (ns, n):
        rec.bad(impl + ":shape", "sample has shape %s instead of %s, fixed %s" % (x.shape, (ns, n), fx))
        return None
    out = env.rows(x)
    if any(r[i] != v for r in out for i, v in fx) or any(v not in (-1, 1) for r in out for v in r):
        rec.bad(impl + ":fixed", "rows %s although %s is fixed" % (out, fx))
    if impl == "py":
        E = np.asarray(m.E).reshape(-1)
        if len(E) != ns or any(abs(E[i] - ising_e(th, out[i])) > 1e-9 for i in range(ns)):
            rec.bad("py:E", "energies %s reported for %s, theta %s" % (E, out, list(th)))
    return out
