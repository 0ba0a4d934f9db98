"""C06: parallel tempering samples the joint law of its replicas."""
import itertools
import numpy as np
from mc import env, pool
from mc.choice import SRC, law, runs, Rng
from mc.ising import *

LEVEL = "model_checking"
NEED_EXT = "plain"
TECHNIQUE = ("explicit-state probabilistic model checking of the replica exchange: from every joint state of the replicas "
             "every answer of the random generator is executed on the real code, giving the exact exchange and full-step "
             "kernels, compared with the product of Boltzmann laws")
RULE = ("case = parameters x inverse temperatures; all joint replica states x all acceptance cells of every swap (and of every "
        "Metropolis update of the full step) are executed; multi-step cases enumerate all swap histories")
BOUNDS = {"quick": "exchange: 2-4 replicas of 1-2 spins (<=256 joint states), all swap outcomes; full step and full sampling: 2 replicas; "
                   "swap histories of depth 4; temperature update: all acceptance vectors of a 4-value grid for 2-5 replicas, whole placement from every joint state of 2-3 replicas; the highest temperature "
                   "finite or infinite; energies other than the Ising one; exchange of up to 10 replicas with arbitrary temperatures and energies; acceptances down to 1e-9",
          "thorough": "exchange: up to 4 replicas of 3 spins in two temperature sets; histories of depth 6; full step with 2 updates more"}
ASSUMPTIONS = ["temperatures and parameters are chosen so that all acceptance probabilities are powers of 1/2, which makes the "
               "acceptance grid exact"]
CHUNK = 1
U = LN2


def still(p):
    """replicas that stay where they are: isolates the exchange"""
    for r in p.replicas:
        for name in ("generate_sample", "generate_sample_py", "generate_sample_boost"):
            setattr(r, name, lambda *a, **k: None)


def setup(ctx):
    env.bring_up(ctx)
    ctx.e = ctx.utils.define_ising_helper_functions()[0]
    ctx.e(np.array([[1, -1]]), np.zeros(3))


def cases(tier):
    th = tier == "thorough"
    one = [[1, 2]], [[0]]
    for R, n, ts in ((2, 2, [[1, 0, 1], [0, 0, -1], [1, -1, 1], [2, 0, 0]]), (3, 2, [[1, 0, 1], [0, -1, 1]]),
                     (4, 2, [[1, 0, 0], [0, 0, 1]]), (2, 3, [[1, 0, 0, 1, 0, -1]])) + \
            (((3, 3, [[1, 0, 0, 0, 1, -1]]),) if th else ()):
        for t in ts:
            yield {"k": "exchange", "R": R, "n": n, "t": t}
            if R < 4:
                yield {"k": "exchange", "R": R, "n": n, "t": t, "zero": True}
    for R in (2, 3, 4, 5, 7, 10):
        for i in range(4):
            yield {"k": "scales", "R": R, "i": i}
    for t in ([1, 1, 0], [1, -1, 0], [0, 0, 1], [0, 0, -1]):
        yield {"k": "step", "t": t, "burn": 1}
        yield {"k": "step", "t": t, "burn": 1, "zero": True}
        if th:
            yield {"k": "step", "t": t, "burn": 2}
    for t in ([1, 1, 0], [0, 0, 1], [1, 0, -1]):
        yield {"k": "step", "t": t, "burn": 1, "gas": True}
    for n in (2, 3, 4) if th else (2, 3):
        for R in (2, 3):
            yield {"k": "energy", "n": n, "R": R}
    for R in (2, 3, 4):
        yield {"k": "history", "R": R, "t": [1, 0, 1], "depth": 6 if th else (4 if R < 4 else 3)}
    for R in (2, 3, 4, 5):
        yield {"k": "beta", "R": R}
    for lo, hi in ((1., 2.), (1., 3.), (.5, 4.), (1., np.inf)):
        for R in (2, 3, 5):
            yield {"k": "init", "R": R, "lo": lo, "hi": hi}
    for R in (2, 3):
        for ns in (1, 2, 3):
            for ni in (1, 2):
                for z in (False, True):
                    yield {"k": "ratio", "R": R, "ns": ns, "ni": ni, "zero": z}
    for R in (2, 3, 4):
        for tol in (.001, .05, .5):
            for m in (0, 1, 2, 3, 6):
                yield {"k": "optimise", "R": R, "tol": tol, "max": m}
    for ns in (1, 2, 3):
        for R in (2, 3, 5, 10) if ns > 1 else (2, 3):
            for hist in (False, True):
                yield {"k": "record", "R": R, "ns": ns, "hist": hist}


def gas(s, th):
    """energy of the same parameters in the {0,1} representation"""
    s = np.asarray(s)
    x = (s + 1) // 2
    return -(x @ th[:2]) - th[2] * x[:, 0] * x[:, 1]


def make(ctx, n, th, R, burn=1, beta=None, Tbds=(1., 2.), e=None):
    pool.FakePool.isolate = False
    with env.controlled():
        p = env.quietly(ctx.samplers.ParallelTempering, n, th, e or ctx.e, R, Tbds, replica_burnin=1, rep_ex_burnin=burn,
                        rng=Rng())
    if beta is not None:
        p.beta = np.array(beta)
        p.update_replica_parameters()
    return p


def place(p, sts, lab=None):
    """put replica k into state sts[k]"""
    for k, (r, s) in enumerate(zip(p.replicas, sts)):
        r._samples = np.array([s])
        r.sample = np.array([s])
        r.E = np.array([p.calc_e(np.array([s]), p.theta)[0] * p.beta[k]])
        r.index = k if lab is None else lab[k]


def read(p):
    return tuple(tuple(int(v) for v in r.sample[0]) for r in p.replicas)


def sound(p, rec, tag, R):
    labs = sorted(r.index for r in p.replicas)
    rec.check(labs == list(range(R)), tag + ":labels", "replica labels are %s" % labs)
    for k, r in enumerate(p.replicas):
        s = np.asarray(r.sample)
        e = ising_e(list(p.theta), tuple(int(v) for v in s[0])) * p.beta[k]
        rec.check(abs(float(np.asarray(r.E).reshape(-1)[0]) - e) < 1e-9, tag + ":energy",
                  "replica %d in state %s at beta %s has stored energy %s, not %s" % (k, s, p.beta[k], r.E, e))
        rec.check(np.array_equal(s, r._samples), tag + ":state",
                  "replica %d reports %s but will continue from %s" % (k, s, r._samples))
        rec.check(np.allclose(r.theta, p.theta * p.beta[k]), tag + ":temperature",
                  "replica %d runs with %s instead of %s" % (k, r.theta, p.theta * p.beta[k]))


BETA = {2: [.5, 1.], 3: [.5, 1., 1.5], 4: [.5, 1., 1.5, 2.]}
# the highest temperature may be infinite
ZERO = {2: [0., .5], 3: [0., .5, 1.]}


def product_law(th, n, beta, e=None):
    sts = states(n)
    e = e or ising_e
    ps = [boltzmann(lambda s, b=b: b * e(th, s), sts) for b in beta]
    return {c: float(np.prod([ps[k][s] for k, s in enumerate(c)])) for c in itertools.product(sts, repeat=len(beta))}


def emax(th, n):
    es = [ising_e(th, s) for s in states(n)]
    return max(es) - min(es)


def run_case(case, rec, ctx):
    k = case["k"]
    if k == "exchange":
        R, n = case["R"], case["n"]
        betas = ZERO if case.get("zero") else BETA
        th = np.array(case["t"], dtype=float) * U
        p = make(ctx, n, th, R, beta=betas[R])
        still(p)
        pool.FakePool.isolate = False
        K = 2 ** int(round(max(1, max(np.diff(betas[R])) * emax(th, n) / LN2)))
        pi = product_law(th, n, betas[R])
        P = {}
        for c in pi:
            rec.state()

            def f():
                place(p, c)
                p.burn_and_exchange(pool.FakePool())
                sound(p, rec, "exchange", R)
                return read(p)
            P[c] = law(f, K, rec=rec)
        # exact kernel of the sequential neighbour swaps
        out = push(pi, P)
        rec.check(tv(out, pi) < 1e-9, "exchange:stationary",
                  lambda: "exchange changes the product law by %.3g; beta %s theta %s" % (tv(out, pi), betas[R], th))
        for c, row in P.items():
            exp = swap_model(c, th, betas[R])
            if not rec.check(tv(row, exp) < 1e-9, "exchange:probability",
                             lambda: "from %s: swaps %s, expected %s" % (c, row, exp)):
                break
            rec.check(all(sorted(d) == sorted(c) for d in row), "exchange:swap",
                      lambda: "exchange from %s invents states: %s" % (c, row))
        if R == 2:
            rec.sample({"theta": list(th), "beta": betas[R],
                        "kernel from": str(list(P)[1]), "row": {str(a): b for a, b in P[list(P)[1]].items()}})
    elif k == "scales":
        # any temperatures and parameters, any number of replicas: the exchange from some joint states
        R = case["R"]
        beta = [[.2 + .13 * i + .01 * (i * i % 3) for i in range(R)], [1e-3 * i for i in range(R)], [i * 2. for i in range(R)], [1. + 1e-6 * i for i in range(R)]][case["i"]]
        pool.FakePool.isolate = False
        for n in (2, 3):
            sts = states(n)
            p = None
            for t in list(scales(n)):
                th = np.array(t)
                if p is None:
                    p = make(ctx, n, th, R, beta=beta)
                    still(p)
                p.theta = th
                p.update_replica_parameters()
                for v in range(3):
                    c = tuple(sts[(i * (2 * v + 1) + v * v + i * i // 2) % len(sts)] for i in range(R))
                    if R > 7 and v or n == 3 and R > 4 and v:
                        continue
                    rec.state()

                    def f():
                        place(p, c)
                        p.burn_and_exchange(pool.FakePool())
                        sound(p, rec, "scales", R)
                        return read(p)
                    row, exp = law(f, 64, rec=rec, lazy=True), swap_model(c, th, beta)
                    rec.check(all(abs(q - row.get(x, 0.)) < 1e-6 * q + 1e-13 for x, q in exp.items()) and abs(sum(row.values()) - 1) < 1e-9, "scales:probability", lambda: "from %s, parameters %s, inverse temperatures %s: swaps %s, expected %s" % (c, t, beta, row, exp))
        rec.trace()
    elif k == "step":
        th = np.array(case["t"], dtype=float) * U
        n, beta, b = 2, (ZERO if case.get("zero") else BETA)[2], case["burn"]
        g = case.get("gas")
        if g:
            # the energy is the caller's function, whatever it makes of the parameters (here: spins in {0,1})
            beta, own = [1., 2.], lambda t, s: float(gas(np.array([s]), t)[0])
        p = make(ctx, n, th, 2, burn=b, beta=beta, e=gas if g else None)
        es = 2 * max(abs(th[0]) + abs(th[2]), abs(th[1]) + abs(th[2]))
        top = .5 * emax(th, n)
        if g:
            v = {s: own(th, s) for s in states(n)}
            es, top = max(abs(v[s] - v[c]) for s in v for c in v if sum(a != b for a, b in zip(s, c)) == 1), max(v.values()) - min(v.values())
        K = 2 ** int(round(max(1, max(beta) * es / LN2, top / LN2)))
        pi = product_law(th, n, beta, own if g else None)
        P = {}
        pool.FakePool.isolate = False
        saved = [r.rng for r in p.replicas]
        for c in pi:
            rec.state()

            def f():
                place(p, c)
                for r in p.replicas:
                    r.rng = Rng()
                with env.controlled():
                    p.burn_and_exchange(pool.FakePool())
                return read(p)
            P[c] = law(f, K, rec=rec)
        out = push(pi, P)
        rec.check(tv(out, pi) < 1e-9, "step:stationary",
                  lambda: "a sampling step changes the product law by %.3g; beta %s theta %s\nexpected %s\ngot %s" % (
                      tv(out, pi), beta, th, pi, out))
        # (a spin whose flip never costs energy is flipped for certain by a systematic sweep)
        for c in P if th[0] else []:
            rec.check(len(reach(P, c)) == len(pi), "step:ergodic", "from %s only %d of %d joint states reachable" % (
                c, len(reach(P, c)), len(pi)))
    elif k == "history":
        R, d = case["R"], case["depth"]
        th = np.array(case["t"], dtype=float) * U
        p = make(ctx, 2, th, R, beta=BETA[R])
        still(p)
        pool.FakePool.isolate = False
        sts = states(2)
        start = tuple(sts[(3 * i + 1) % 4] for i in range(R))

        def f():
            place(p, start)
            tr = []
            for _ in range(d):
                p.burn_and_exchange(pool.FakePool())
                sound(p, rec, "history", R)
                lab = [r.index for r in p.replicas]
                # a label travels with its state
                rec.check(all(read(p)[i] == start[lab[i]] for i in range(R)), "history:label",
                          lambda: "labels %s but states %s, started from %s" % (lab, read(p), start))
                tr.append(tuple(lab))
            return tuple(tr)
        K = 2
        seen = law(f, K, rec=rec)
        rec.state(len(seen))
    elif k == "energy":
        # every replica is sampled with the caller's energy: here a gap that leaves one state only
        R, n = case["R"], case["n"]
        for pat in states(n):
            def e(s, th, pat=np.array(pat)):
                return th[0] * (np.asarray(s) != pat).sum(1)
            p = env.quietly(ctx.samplers.ParallelTempering, n, np.array([400.] + [0.] * (n + n * (n - 1) // 2 - 1)), e, R, (1., 2.),
                            replica_burnin=2 * n, rep_ex_burnin=n, rng=np.random.RandomState(5))
            rec.state()
            rec.trace()
            rec.check(all(s == pat for s in read(p)), "energy:setup", lambda: "the energy leaves only %s but the replicas start in %s" % (pat, read(p)))
            env.quietly(p.generate_sample, 3)
            rec.trans(3)
            rec.check(all((np.asarray(s) == pat).all() for s in p.sample), "energy:sample", lambda: "the energy leaves only %s but %s is sampled" % (pat, p.sample))
    elif k == "beta":
        R = case["R"]
        f = ctx.samplers.ParallelTempering.iterate_beta
        for b0, b1 in ((.5, 1.), (1 / 3, 1.), (.25, 2.)):
            base = np.linspace(b0, b1, R)
            for beta in (base, base ** 2 / b1, np.sqrt(base * b1)):
                for acc in list(itertools.product((.1, .4, .7, 1.), repeat=R - 1)) + list(itertools.product((1e-9, 1e-4, .9), repeat=R - 1)):
                    a = np.array(acc)
                    x = beta.copy()
                    y = f(x, a)
                    rec.state()
                    rec.trans()
                    rec.check(np.array_equal(x, beta), "beta:mutates", "input temperatures overwritten")
                    rec.check(abs(y[-1] - beta[-1]) < 1e-12, "beta:lowest",
                              "lowest temperature moved from beta=%s to %s" % (beta[-1], y[-1]))
                    rec.check((np.diff(y) > 0).all() or min(acc) < 1e-3 and (np.diff(y) >= 0).all(), "beta:order", "inverse temperatures %s not increasing" % y)
                    exp = np.diff(beta) * a / a.mean()
                    rec.check(np.allclose(np.diff(y), exp), "beta:rule",
                              "spacings %s instead of %s (acceptance %s)" % (np.diff(y), exp, a))
    elif k == "init":
        R, lo, hi = case["R"], case["lo"], case["hi"]
        b = ctx.samplers.ParallelTempering.initialize_beta(1 / hi, 1 / lo, R)
        rec.state()
        rec.trans()
        rec.check(len(b) == R and abs(b[0] - 1 / hi) < 1e-12 and abs(b[-1] - 1 / lo) < 1e-12 and (np.diff(b) > 0).all(),
                  "init:beta", "initial inverse temperatures %s for T in [%s, %s]" % (b, lo, hi))
        th = np.array([.3, -.2, .5])
        p = env.quietly(ctx.samplers.ParallelTempering, 2, th, ctx.e, R, (lo, hi), replica_burnin=3, rep_ex_burnin=2,
                        rng=np.random.RandomState(3))
        rec.trace()
        rec.check(abs(p.beta[-1] - 1 / lo) < 1e-12 and (np.diff(p.beta) > 0).all() and len(p.replicas) == R,
                  "init:optimised", "inverse temperatures after set-up %s for T in [%s, %s]" % (p.beta, lo, hi))
        sound(p, rec, "init", R)
    elif k == "ratio":
        # the acceptance ratio used to place the temperatures is the mean exchange probability of the sampled replicas
        R, ns, beta = case["R"], case["ns"], (ZERO if case["zero"] else BETA)[case["R"]]
        for seed in range(4):
            th = np.array([.3, -.2, .5]) * (1 + seed)
            p = env.quietly(ctx.samplers.ParallelTempering, 2, th, ctx.e, R, (1., 2.), replica_burnin=3, rep_ex_burnin=2,
                            rng=np.random.RandomState(seed))
            p.beta = np.array(beta)
            p.update_replica_parameters()
            seen = []
            old = p.burn_in_replicas

            def spy(*a, **kw):
                old(*a, **kw)
                seen.append((read(p), kw.get("n_iters")))
            p.burn_in_replicas = spy
            got = env.quietly(p._acceptance_ratio, ns, case["ni"])
            rec.state()
            rec.trans(ns)
            rec.trace()
            want = [np.mean([min(1., math.exp((ising_e(th, s[i]) - ising_e(th, s[i + 1])) * (beta[i] - beta[i + 1]))) for s, _ in seen]) for i in range(R - 1)]
            rec.check(len(seen) == ns and np.allclose(got, want, rtol=1e-9), "ratio",
                      lambda: "acceptance ratios %s, the mean exchange probabilities of the %d sampled joint states are %s" % (got, len(seen), want))
    elif k == "optimise":
        # placing the temperatures: rounds until they move by less than the tolerance, at most the given number
        R = case["R"]
        for t in ((.3, -.2, .5), (-.4, .6, .2)):
            th = np.array(t)
            p = env.quietly(ctx.samplers.ParallelTempering, 2, th, ctx.e, R, (1., 2.), replica_burnin=3, rep_ex_burnin=2,
                            rng=np.random.RandomState(5))
            for sts in itertools.product(states(2), repeat=R) if R < 4 else itertools.combinations(states(2), R):
                p.beta = np.array(BETA[R])
                p.update_replica_parameters()
                place(p, sts)
                beta, moved = np.array(BETA[R]), math.inf
                for _ in range(case["max"]):
                    if not moved > case["tol"]:
                        break
                    a = [min(1., math.exp((ising_e(th, sts[i]) - ising_e(th, sts[i + 1])) * (beta[i] - beta[i + 1]))) for i in range(R - 1)]
                    d = np.diff(beta) * a / np.mean(a)
                    new = beta[-1] - np.append(np.cumsum(d[::-1])[::-1], 0)
                    moved, beta = np.abs(new - beta).mean(), new
                env.quietly(p.optimize_beta, 1, 0, tol=case["tol"], max_iter=case["max"])
                rec.state()
                rec.trans()
                rec.check(np.allclose(p.beta, beta, atol=1e-12), "optimise", lambda: "from %s with replicas in %s, tolerance %g and at most %d rounds: inverse temperatures %s instead of %s"
                          % (BETA[R], sts, case["tol"], case["max"], p.beta, beta))
                rec.check(all(np.allclose(r.theta, th * b) for r, b in zip(p.replicas, beta)), "optimise:parameters", "the replicas do not run at the temperatures that were found")
            rec.trace()
    elif k == "record":
        R, ns = case["R"], case["ns"]
        th = np.array([.3, -.2, .5])
        p = env.quietly(ctx.samplers.ParallelTempering, 2, th, ctx.e, R, (1., 2.), replica_burnin=3, rep_ex_burnin=2,
                        rng=np.random.RandomState(7))
        log = []
        old = p.burn_and_exchange

        def spy(pl):
            old(pl)
            log.append((read(p), tuple(r.index for r in p.replicas)))
        p.burn_and_exchange = spy
        out = env.quietly(p.generate_sample, ns, save_exchange_trajectory=case["hist"])
        rec.state()
        rec.trans(ns)
        rec.trace()
        rec.check(len(log) == ns, "record:count", "%d exchange rounds for %d samples" % (len(log), ns))
        rec.check(len(p.sample) == R and all(np.shape(x) == (ns, 2) for x in p.sample), "record:shape",
                  "sample shapes %s" % [np.shape(x) for x in p.sample])
        rec.check(all(np.asarray(x).dtype.kind == "i" for x in p.sample), "record:type", "spins are recorded as %s" % [np.asarray(x).dtype for x in p.sample])
        for i, (st, lab) in enumerate(log):
            rec.check(all(tuple(int(v) for v in p.sample[j][i]) == st[j] for j in range(R)), "record:rows",
                      "row %d of the samples is not the state of the replicas at that time" % i)
            if case["hist"]:
                rec.check(tuple(out[i]) == lab, "record:trajectory", "trajectory row %d is %s, labels were %s" % (i, out[i], lab))
        sound(p, rec, "record", R)


def swap_model(c, th, beta):
    """sequential Metropolis swaps of neighbouring replicas"""
    dist = {c: 1.0}
    for i in range(len(beta) - 1):
        new = {}
        for s, q in dist.items():
            d = (ising_e(th, s[i]) - ising_e(th, s[i + 1])) * (beta[i] - beta[i + 1])
            a = min(1.0, math.exp(d))
            t = s[:i] + (s[i + 1], s[i]) + s[i + 2:]
            new[t] = new.get(t, 0) + q * a
            new[s] = new.get(s, 0) + q * (1 - a)
        dist = new
    return dist
