"""C02: the pure-Python Metropolis sampler is exact for any energy function."""
import itertools
import numpy as np
from mc import env, pool
from mc.choice import SRC, law, runs, follow, Rng
from mc.ising import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state probabilistic model checking of the Python sampler: all random answers enumerated, "
             "exact kernel and sample-path laws compared with the Boltzmann law of arbitrary energy tables")
RULE = ("case = one energy table over all states (or one parameter vector) and one call form/schedule; every start "
        "state x site x acceptance cell is executed on the real code")
BOUNDS = {"quick": "n=1..3 spins; all tables over {0,1,2} (n<=2), {0,1} (n=3); schedules with <=4 updates; detailed balance around one state and systematic order for n<=130; runs of 5003 samples, 3001 burn-in and 2501 updates per sample; 64 start states of n<=130; exact ratios of all rates for energy differences 1e-9..8",
          "thorough": "n=1..4; tables over {0,1,2,3} (n=2), {0,1,3} (n=3), 2000 n=4 tables with <=3 non-zero "
                      "entries; schedules with <=5 updates"}
ASSUMPTIONS = ["energies are multiples of ln2 where the acceptance grid is enumerated, which makes it exact; elsewhere the threshold is read lazily from the comparison"]
CHUNK = 16


def setup(ctx):
    env.bring_up(ctx)


def tables(tier):
    for t in itertools.product((0, 1, 2), repeat=2):
        yield 1, list(t)
    for t in itertools.product((0, 1, 2, 3) if tier == "thorough" else (0, 1, 2), repeat=4):
        yield 2, list(t)
    for t in itertools.product((0, 1, 3) if tier == "thorough" else (0, 1), repeat=8):
        yield 3, list(t)
    if tier == "thorough":
        for r in (1, 2, 3):
            for ix in itertools.combinations(range(16), r):
                t = [0] * 16
                for i, x in zip(ix, (1, 2, 1)):
                    t[i] = x
                yield 4, t


def cases(tier):
    for n, t in tables(tier):
        yield {"k": "step", "n": n, "t": t}
    sel = [[0, 0, 0, 0], [0, 1, 0, 0], [1, 0, 0, 2], [0, 1, 2, 0], [2, 1, 1, 0]]
    scheds = [(1, 0, 1), (1, None, 1), (1, 2, 1), (2, 1, 1), (2, 0, 2), (3, 0, 1), (1, 1, 2), (2, None, 1),
              (1, 3, 0), (1, 0, 3)]
    if tier == "thorough":
        scheds += [(2, 1, 2), (4, 1, 1), (1, 0, 5), (5, 0, 1)]
    for t in sel:
        for ns, b, ni in scheds:
            for sysit in (False, True):
                for hist in (False, True):
                    for init in ([-1, 1], None):
                        if init is None and ns * ni + (ni if b is None else b) > 3:
                            continue
                        yield {"k": "gen", "n": 2, "t": t, "ns": ns, "b": b, "ni": ni, "sys": sysit,
                               "hist": hist, "init": init}
    for t in ([0, 1, 0, 0, 1, 0, 0, 1], [0, 0, 1, 0, 1, 1, 0, 0]):
        for ns, b, ni in [(2, 0, 2), (1, 2, 1), (3, 0, 1), (2, 1, 1), (1, 0, 4)]:
            for hist in (False, True):
                yield {"k": "gen", "n": 3, "t": t, "ns": ns, "b": b, "ni": ni, "sys": True, "hist": hist,
                       "init": [1, -1, 1]}
    # histories of calls on one sampler object
    for t in sel[1:2] + [[0, 1, 1, 0]]:
        ops = ["g1", "g2", "par", "upd", "init"]
        for seq in itertools.product(ops, repeat=2):
            yield {"k": "seq", "n": 2, "t": t, "ops": list(seq)}
        for seq in itertools.product(["g1", "upd", "init"] + (["par"] if tier == "thorough" else []), repeat=3):
            yield {"k": "seq", "n": 2, "t": t, "ops": list(seq)}
    for t in itertools.product((-1, 0, 1), repeat=3):
        yield {"k": "ising", "n": 2, "t": list(t)}
    for n in (6, 9, 17, 40, 130):
        for v in (0, 1):
            yield {"k": "large", "n": n, "v": v}
        for ns, b, ni in [(2 * n + 3, 0, 1), (4, n + 2, 1), (3, 3, n), (3, 2, 2 * n + 1), (1000 if n < 17 else 10, 500, 3)]:
            yield {"k": "order", "n": n, "ns": ns, "b": b, "ni": ni}
    for n in (2, 33, 70, 130):
        for via in ("seq", "history", "parallel"):
            yield {"k": "starts", "n": n, "via": via}
    for n in (2, 3, 6):
        for par in (False, True):
            yield {"k": "updated", "n": n, "par": par}
    for n in (1, 2, 3):
        for fam in ("ising", "table"):
            yield {"k": "scales", "n": n, "fam": fam}
    # long runs
    for via in ("seq", "history", "parallel"):
        for sysit in (False, True):
            for n, ns, b, ni in ((3, 5003, 0, 1), (3, 2, 3001, 1), (5, 2, 1, 2501), (7, 10, 300, 271)):
                for w in (1, 3) if via == "parallel" else (1,):
                    yield {"k": "long", "n": n, "via": via, "sys": sysit, "ns": ns, "b": b, "ni": ni, "w": w}
    for t in ([1, 0, -1, 1, 0, 1], [0, 1, 0, 0, 1, -1], [1, 0, 0, -1, 1, 0]):
        yield {"k": "ising", "n": 3, "t": t}


def ix(s):
    r = 0
    for x in s:
        r = 2 * r + (1 if x > 0 else 0)
    return r


def calc_e(S, th):
    return np.array([th[ix(s)] for s in S], dtype=float)


def mk(ctx, n, tab, e=calc_e, rng=None):
    return ctx.samplers.Metropolis(n, np.array(tab, dtype=float) * LN2, calc_e=e, rng=rng or Rng(),
                                   boost=False, iprint=False)


def grid(tab):
    return 2 ** max(1, max(tab) - min(tab))


def kernels(ctx, n, tab, rec, tag, e=calc_e):
    """random-site kernel and the kernels of the single sites, with per-call checks"""
    sts, K = states(n), grid(tab)
    th = np.array(tab, dtype=float) * LN2
    m = mk(ctx, n, tab, e)
    P, Pi = {}, [{} for _ in range(n)]
    for s in sts:
        E0 = float(e(np.array([s]), th)[0])
        for site in [None] + list(range(n)):
            for form in ((0, 1) if site is None else (0,)):
                E0f = E0 if form == 0 else np.array([E0])

                def f():
                    x = np.array(s, dtype=int)
                    de = m.sample_metropolis(x, E0f, flip_site=site)
                    return tuple(int(v) for v in x), float(np.asarray(de).reshape(-1)[0])
                d = law(f, K, rec=rec)
                row = {}
                for (s1, de), p in d.items():
                    row[s1] = row.get(s1, 0) + p
                    rec.check(abs(de - (float(e(np.array([s1]), th)[0]) - E0)) < 1e-12, tag + ":dE",
                              lambda: "reported energy change %g but state went %s -> %s (table %s)" % (de, s, s1, tab))
                    diff = [i for i in range(n) if s1[i] != s[i]]
                    rec.check(len(diff) <= 1 and (site is None or diff in ([], [site])), tag + ":site",
                              lambda: "flip_site=%s but state went %s -> %s" % (site, s, s1))
                (P if site is None else Pi[site])[s] = row
    return P, Pi


def scales_case(case, rec, ctx):
    n = case["n"]
    sts = states(n)
    ising = ctx.utils.define_ising_helper_functions()[0]
    for t in scales(n):
        if case["fam"] == "table":
            t = [(t * 8)[i] for i in range(2 ** n)]
            e, calc = (lambda s: t[ix(s)]), calc_e
        else:
            e, calc = (lambda s: ising_e(t, s)), ising
        m = ctx.samplers.Metropolis(n, np.array(t), calc_e=calc, rng=Rng(), boost=False, iprint=False)
        for site in [None] + list(range(n)):
            P = {}
            for s in sts:
                def f():
                    x = np.array(s, dtype=int)
                    de = m.sample_metropolis(x, e(s), flip_site=site)
                    s1 = tuple(int(v) for v in x)
                    rec.check(abs(float(np.asarray(de).reshape(-1)[0]) - (e(s1) - e(s))) < 1e-12, "scales:dE", lambda: "reported energy change %s of %s -> %s (%s)" % (de, s, s1, t))
                    return s1
                P[s] = law(f, 64, rec=rec, lazy=True)
            ratios(rec, "scales", P, e, "%s %s, site %s" % (case["fam"], t, site))
        rec.trace()


def run_case(case, rec, ctx):
    if case["k"] == "scales":
        return scales_case(case, rec, ctx)
    if case["k"] == "updated":
        return updated_case(case, rec, ctx)
    if case["k"] == "starts":
        return starts_case(case, rec, ctx)
    if case["k"] == "long":
        return long_case(case, rec, ctx)
    if case["k"] in ("large", "order"):
        return large_case(case, rec, ctx)
    n, tab = case["n"], case["t"]
    sts = states(n)
    rec.state(len(sts))
    if case["k"] == "step":
        K = grid(tab)
        pi = boltzmann(lambda s: tab[ix(s)] * LN2, sts)
        P, Pi = kernels(ctx, n, tab, rec, "step")
        what = "table %s*ln2" % tab
        if check_kernel(rec, "step", P, pi, sts, what):
            check_irreducible(rec, "step", P, sts, what)
        for i in range(n):
            check_kernel(rec, "step-site", Pi[i], pi, sts, what + " flip_site=%d" % i)
            rec.check(any(a != b and q > 0 for a in Pi[i] for b, q in Pi[i][a].items()), "step-site:move",
                      "a requested flip of site %d never happens, %s" % (i, what))
        # explicit rng and explicit energy function take precedence
        other = [tab[-1 - i] for i in range(len(tab))]
        m = mk(ctx, n, [0] * len(tab), rng=np.random.RandomState(0))
        e2 = lambda S, th: np.array([other[ix(s)] * LN2 for s in S])
        for s in sts:
            def f():
                x = np.array(s, dtype=int)
                m.sample_metropolis(x, other[ix(s)] * LN2, rng=Rng(), calc_e=e2)
                return tuple(int(v) for v in x)
            P[s] = law(f, K, rec=rec)
        check_kernel(rec, "step-override", P, boltzmann(lambda s: other[ix(s)] * LN2, sts), sts,
                     "calc_e argument with table %s" % other)
        if n == 2 and tab == [0, 1, 2, 0]:
            rec.sample({"table/ln2": tab, "kernel": {str(k): {str(b): q for b, q in v.items()} for k, v in P.items()}})
    elif case["k"] == "gen":
        gen_case(case, rec, ctx)
    elif case["k"] == "seq":
        seq_case(case, rec, ctx)
    else:
        ising_case(case, rec, ctx)


def gen_case(case, rec, ctx):
    n, tab = case["n"], case["t"]
    th = np.array(tab, dtype=float) * LN2
    K = grid(tab)
    P, Pi = kernels(ctx, n, tab, rec, "gen-step")
    ns, b, ni = case["ns"], case["b"], case["ni"]
    be = ni if b is None else b
    init = case["init"]

    def f():
        m = mk(ctx, n, tab)
        a = None if init is None else np.array([init])
        h = m.generate_sample(ns, n_iters=ni, burn_in=b, systematic_iter=case["sys"], saveHistory=case["hist"],
                              initial_sample=a)
        if a is not None and tuple(a[0]) != tuple(init):
            rec.bad("gen:mutates-initial", "initial_sample changed from %s to %s" % (init, a))
        smp = env.rows(m.sample)
        E = np.asarray(m.E).reshape(-1)
        bad = None
        if len(E) != ns or any(abs(E[i] - th[ix(smp[i])]) > 1e-12 for i in range(ns)):
            bad = "energies %s reported for samples %s of table %s*ln2" % (E, smp, tab)
        if bad:
            rec.bad("gen:E", bad)
        if case["hist"]:
            h = np.asarray(h).reshape(-1)
            ok = len(h) == ns * ni + 1 and all(abs(h[(i + 1) * ni] - th[ix(smp[i])]) < 1e-12 for i in range(ns))
            ok = ok and all(np.isclose(th, v, atol=1e-12).any() for v in h)
            if ok and be == 0 and init is not None:
                ok = abs(h[0] - th[ix(init)]) < 1e-12
            if not ok:
                rec.bad("gen:history", "history %s does not give the energy before sampling and after each of the "
                                       "%d updates; samples %s, table/ln2 %s" % (h / LN2, ns * ni, smp, tab))
            rec.add("checks")
        rec.add("checks")
        return smp
    got = law(f, K, rec=rec)
    tot = be + ns * ni
    start = {tuple(init): 1.0} if init is not None else {s: 1 / 2 ** n for s in states(n)}
    from checks.c01 import chain_law
    ks = [Pi[t % n] for t in range(tot)] if case["sys"] else [P] * tot
    if ni == 0:
        exp = chain_law(start, ks, [be] * ns) if be else {tuple([s] * ns): p for s, p in start.items()}
    else:
        exp = chain_law(start, ks, [be + (i + 1) * ni for i in range(ns)])
    rec.check(tv(got, exp) < 1e-9, "gen:%s-law" % ("systematic" if case["sys"] else "random"),
              lambda: "law of returned samples is not the start state followed by burn_in and n_iters updates "
                      "(max %.3g)\nexpected %s\ngot %s" % (tv(got, exp), exp, got))


def seq_case(case, rec, ctx):
    """call histories on one object: energies always belong to the samples, no call fails, all rows present"""
    n, tab = case["n"], case["t"]
    th0 = np.array(tab, dtype=float) * LN2

    def f():
        m = mk(ctx, n, tab)
        th = th0
        with env.controlled():
            for op in case["ops"]:
                if op == "g1":
                    m.generate_sample(1, n_iters=1, burn_in=0)
                elif op == "g2":
                    m.generate_sample(2, n_iters=1, burn_in=0)
                elif op == "par":
                    m.generate_sample_parallel(2, n_iters=1, burn_in=0)
                elif op == "init":
                    m.generate_sample(1, n_iters=1, burn_in=0, initial_sample=np.array([[1, -1]]))
                else:
                    th = th0[::-1].copy()
                    m.update_parameters(th)
                    th[:] = th0[::-1]
                    continue
                want = {"g1": 1, "g2": 2, "par": 2, "init": 1}[op]
                smp = np.asarray(m.sample)
                E = np.asarray([float(np.asarray(x).reshape(-1)[0]) for x in m.E])
                if smp.shape != (want, n):
                    rec.bad("seq:shape", "%s returned shape %s" % (op, smp.shape))
                    return None
                if any(abs(E[i] - th[ix(smp[i])]) > 1e-12 for i in range(want)):
                    rec.bad("seq:E", "after %s: energies/ln2 %s but samples %s have %s" % (
                        case["ops"], E / LN2, smp.tolist(), [th[ix(r)] / LN2 for r in smp]))
                rec.add("checks")
        return None
    pool.set_cpus(2)
    pool.FakePool.isolate = False        # process isolation is C05's subject
    law(f, grid(tab), rec=rec)


def updated_case(case, rec, ctx):
    n, par = case["n"], case["par"]
    pool.set_cpus(2)

    def sample(m, ns):
        (m.generate_sample_parallel if par else m.generate_sample)(ns, n_iters=n, burn_in=8 * n)
        return np.array(m.sample)
    e = ctx.utils.define_ising_helper_functions()[0]
    with env.controlled():
        updated(rec, "parallel" if par else "seq", lambda th: ctx.samplers.Metropolis(n, th, calc_e=e, rng=Rng(), boost=False, iprint=False), sample, n, 0, str(case), False)


def starts_case(case, rec, ctx):
    n, via = case["n"], case["via"]
    pool.set_cpus(2)

    def run(rng):
        m = mk(ctx, n, [0], lambda S, th: np.zeros(len(S)), rng=rng)
        if via == "parallel":
            m.generate_sample_parallel(2, n_iters=0, burn_in=0)
        else:
            m.generate_sample(1, n_iters=0, burn_in=0, saveHistory=via == "history")
        return np.array(m.sample)[0]
    starts(rec, via, run, n, str(case))


def long_case(case, rec, ctx):
    n, via, sysit, w = case["n"], case["via"], case["sys"], case["w"]
    pool.set_cpus(w)

    def run(ns, b, ni):
        def f():
            m = mk(ctx, n, [0], lambda S, th: np.zeros(len(S)))
            if via == "parallel":
                m.generate_sample_parallel(ns, n_iters=ni, burn_in=b, systematic_iter=sysit)
            else:
                m.generate_sample(ns, n_iters=ni, burn_in=b, systematic_iter=sysit, saveHistory=via == "history")
            return np.array(m.sample)
        with env.controlled():
            return follow(f, 2, lambda i, m: 0)[0]
    timed(rec, "long:" + via, run, n, case["ns"], case["b"], case["ni"], sysit, str(case), w)


def large_case(case, rec, ctx):
    n = case["n"]
    if case["k"] == "order":
        ns, b, ni = case["ns"], case["b"], case["ni"]
        s0 = np.array([[1 if (i * i + i // 3) % 3 else -1 for i in range(n)]])
        m = mk(ctx, n, [0], lambda S, th: np.zeros(len(S)))

        def f():
            m.generate_sample(ns, n_iters=ni, burn_in=b, systematic_iter=True, initial_sample=s0.copy())
            return env.rows(m.sample)
        out, _ = follow(f, 2, lambda i, k: 0)
        rec.state(ns)
        rec.trans(b + ns * ni)
        ordered(rec, "large", out, b, ni, ns, range(n), [], str(case))
        c = flips(n, 0, b + ni)
        rec.check(all((out[0][i] != s0[0][i]) == bool(c[i] % 2) for i in range(n)), "large:first",
                  lambda: "the first row is not %d systematic updates after the given start (%s)" % (b + ni, case))
        return
    th = np.array(matching(n, case["v"]), dtype=float) * LN2 / 2
    e = sparse_energy(th, n)
    calc = ctx.utils.define_ising_helper_functions()[0]
    m = ctx.samplers.Metropolis(n, th, calc_e=calc, rng=Rng(), boost=False, iprint=False)
    s0 = tuple(1 if (i * i + i // 3 + case["v"]) % 3 else -1 for i in range(n))
    P = {}
    for s in [s0] + [s0[:i] + (-s0[i],) + s0[i + 1:] for i in range(0, n, max(1, n // 12))]:
        E0 = e(s)

        def f():
            x = np.array(s)
            de = m.sample_metropolis(x, E0)
            return tuple(int(y) for y in x), round(float(np.asarray(de).reshape(-1)[0]), 9)
        P[s] = {}
        for (s1, de), p in law(f, 4, rec=rec).items():
            P[s][s1] = P[s].get(s1, 0) + p
            rec.check(abs(de - (e(s1) - E0)) < 1e-7, "large:dE", lambda: "reported energy change %g is not that of the move (%s)" % (de, case))
        rec.state()
    balance(rec, "large", P, n, e, str(case))


def ising_case(case, rec, ctx):
    """the default Ising energy through boost=False"""
    n, t = case["n"], case["t"]
    th = np.array(t, dtype=float) * LN2 / 2
    sts = states(n)
    e = ctx.utils.define_ising_helper_functions()[0]
    m = ctx.samplers.Metropolis(n, th, calc_e=e, rng=Rng(), boost=False, iprint=False)
    P = {}
    for s in sts:
        def f():
            x = np.array(s)
            m.sample_metropolis(x, ising_e(th, s))
            return tuple(int(v) for v in x)
        P[s] = law(f, 16, rec=rec)
    pi = boltzmann(lambda s: ising_e(th, s), sts)
    if check_kernel(rec, "ising-py", P, pi, sts, "theta %s*ln2/2" % t):
        check_irreducible(rec, "ising-py", P, sts, "theta %s" % t)
