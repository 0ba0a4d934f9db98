"""C22: the two-dimensional lattice automaton is an exact Metropolis simulation."""
import itertools, json, math, os, subprocess, sys
import numpy as np
from mc import env, choice
from mc.choice import SRC, law
from mc.ising import balance, ratios

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("stateless exploration of the real automaton: every random answer (site, order of the sweep, acceptance) is enumerated with its exact "
             "probability and the resulting transition matrix is checked for stationarity, reversibility and reachability; the compiled "
             "automaton is bound to the explored one by seeded runs")
RULE = ("case = lattice shape x parameters (one random update: full transition matrix; one sweep: full transition matrix), block of lattices for "
        "coarse graining, or a set of seeded runs of the compiled code")
BOUNDS = {"quick": "single updates: all states of 1x2..1x4, 2x1, 2x2, 2x3, 3x2, 2x4, 3x3 lattices x 6 parameter sets; detailed balance around one lattice of shapes up to 16x20, and of all lattices up to 2x3 x energy differences 1e-9..28; whole sweeps (all orders): 1x2, 1x3, 3x1, 2x2; "
                   "order of the sweep on shapes up to 4x6; coarse graining: all lattices up to 4x4 (even 2x6, 6x2), factors 1-3, all tie outcomes; "
                   "compiled code: 3 shapes x 2 modes x 40 seeds",
          "thorough": "adds 3x4 (4096 states) single updates, 1x4 and 2x2 sweeps on a finer grid, coarse graining of 5x4 and 4x5"}
ASSUMPTIONS = ["with numba's compiler switched off the same source runs as Python (compared with compiled runs by seed)"]
CHUNK = 1
L2 = math.log(2)


def setup(ctx):
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import importlib
    env.bring_up(ctx, modules=("utils",), fake_pool=False)
    ctx.auto = importlib.import_module("coniii.ising.automaton")


def params(dim):
    """(name, J, h, K): acceptance probabilities are multiples of 1/K or too close to 0 or 1 to matter"""
    n = dim[0] * dim[1]
    alt = [(1 if i % 3 == 0 else -1 if i % 3 == 1 else 0) * L2 / 2 for i in range(n)]
    ramp = [((i * 5) % 3 - 1) * L2 for i in range(n)]
    return [("free", 0., 0., 2), ("ferro", L2 / 4, 0., 8), ("antiferro", -L2 / 4, 0., 8), ("number", 0., L2 / 2, 2), ("fields", 0., alt, 2),
            ("both", L2 / 4, ramp, 16), ("both reversed", -L2 / 4, [-x for x in ramp], 16)]


def cases(tier):
    th = tier == "thorough"
    dims = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3)] + ([(3, 4)] if th else [])
    for d in dims:
        for p in range(7):
            yield {"k": "one", "dim": list(d), "p": p}
    for d in [(1, 1), (1, 2), (1, 3), (3, 1), (2, 2)] + ([(1, 4)] if th else []):
        for p in range(5 if d == (2, 2) else 7):
            yield {"k": "sweep", "dim": list(d), "p": p}
    if th:
        yield {"k": "sweep", "dim": [2, 2], "p": 5}
    for d in [(5, 6), (7, 3), (3, 8), (9, 9), (2, 17), (16, 20)] + ([(1, 130), (40, 7), (33, 34)] if th else [(1, 40)]):
        for v in range(3):
            yield {"k": "large", "dim": list(d), "v": v}
    for d in itertools.product((1, 2, 3, 4), (1, 2, 3, 5, 6)):
        yield {"k": "order", "dim": list(d)}
    for d in [(1, 1), (1, 2), (2, 2), (2, 3), (3, 2)]:
        yield {"k": "init", "dim": list(d)}
    shapes = [(2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 6), (6, 2), (3, 4), (4, 3), (4, 4)] + ([(5, 4), (4, 5)] if th else [])
    for d in shapes:
        for f in (1, 2, 3):
            if f <= min(d):
                tot = 2 ** (d[0] * d[1])
                for lo in range(0, tot, 4096):
                    yield {"k": "coarse", "dim": list(d), "f": f, "lo": lo, "hi": min(tot, lo + 4096)}
    for d in [(1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)]:
        for v in range(13):
            yield {"k": "scales", "dim": list(d), "v": v}
    yield {"k": "compiled"}
    yield {"k": "quench"}


def energy(x, J, h):
    return -(J * (x * np.roll(x, 1, 0)).sum() * (x.shape[0] > 1) + J * (x * np.roll(x, 1, 1)).sum() * (x.shape[1] > 1)) - (h * x).sum()


def lattices(dim):
    n = dim[0] * dim[1]
    for m in range(2 ** n):
        yield np.array([1 - 2 * (m >> b & 1) for b in range(n)]).reshape(dim)


def bits(x):
    return sum(1 << b for b, v in enumerate(np.asarray(x).ravel()) if v < 0)


def kernel(ctx, rec, dim, J, h, K, n_iters, systematic, what):
    n = dim[0] * dim[1]
    T = np.zeros((2 ** n, 2 ** n))
    with env.controlled():
        m = ctx.auto.Ising2D(tuple(dim), J, h=np.array(h).reshape(dim) if not np.isscalar(h) else h, rng=choice.Rng())
        for x in lattices(dim):
            def run():
                m.lattice = x.astype(np.int8)
                m.iterate(n_iters, systematic=systematic)
                return bits(m.lattice) if set(np.unique(m.lattice)) <= {-1, 1} and m.lattice.shape == tuple(dim) else -1
            d = law(run, K, rec=rec)
            rec.state()
            if not rec.check(-1 not in d, "states", lambda: "%s: a lattice with values other than +-1 results from %s" % (what, x.tolist())):
                return None
            for k, v in d.items():
                T[bits(x), k] = v
    return T


def large_case(case, rec, ctx):
    """detailed balance of single updates around one lattice, with arbitrary parameters (real draws decided lazily)"""
    dim, v = tuple(case["dim"]), case["v"]
    n = dim[0] * dim[1]
    J = (.37, -.21, .13)[v]
    h = (0., .3, np.array([.11 * ((i * 5) % 7 - 3) for i in range(n)]).reshape(dim))[v]
    hh = np.zeros(dim) + h
    s0 = tuple(1 if (i * i + i // 3 + v) % 5 < 3 else -1 for i in range(n))
    a, b = dim
    at = {(i % a) * b + j % b for i in (0, 1, a // 2, a - 1) for j in (0, b // 2, b - 1)}
    flip = lambda s, i: s[:i] + (-s[i],) + s[i + 1:]
    P = {}
    with env.controlled():
        m = ctx.auto.Ising2D(dim, J, h=h, rng=choice.Rng())
        for s in [s0] + [flip(s0, i) for i in sorted(at)]:
            def run():
                m.lattice = np.array(s, dtype=np.int8).reshape(dim)
                m.iterate(1, systematic=False)
                return tuple(np.asarray(m.lattice).ravel().tolist())
            P[s] = law(run, 64, rec=rec, lazy=True)
            rec.state()
    pairs = balance(rec, "large", P, n, lambda s: energy(np.array(s).reshape(dim), J, hh), str(case))
    rec.check(pairs >= len(at), "large:pairs", lambda: "internal: only %d pairs" % pairs)


def scales_case(case, rec, ctx):
    """single updates with energy differences of all sizes: rates of every pair of lattices in the exact ratio"""
    dim = tuple(case["dim"])
    n = dim[0] * dim[1]
    x = (1e-9, 1e-7, 1e-5, 1e-4, 1e-3, .01, .05, .2, .7, 1.2, 1.9, 2.6, 3.5)[case["v"]]
    ramp = np.array([((i * 5) % 7 - 2.9) / 3 for i in range(n)]).reshape(dim)
    for J, h in ((x, 0.), (-x, 0.), (0., x), (0., ramp * x), (x / 2, ramp * x / 2), (.25, x), (-.3, ramp * x), (x / 3, ramp), (x / 3, ramp * 1e-6)):
        hh = np.zeros(dim) + h
        P = {}
        with env.controlled():
            m = ctx.auto.Ising2D(dim, J, h=h, rng=choice.Rng())
            for s in lattices(dim):
                if n == 6 and s.ravel()[4] != 1:
                    continue
                def run():
                    m.lattice = s.astype(np.int8)
                    m.iterate(1, systematic=False)
                    return tuple(np.asarray(m.lattice).ravel().tolist())
                P[tuple(s.ravel().tolist())] = law(run, 64, rec=rec, lazy=True)
        ratios(rec, "scales", P, lambda s: energy(np.array(s).reshape(dim), J, hh), "%dx%d lattice, J=%g, h=%s" % (dim[0], dim[1], J, hh.tolist()))
        rec.trace()


def run_case(case, rec, ctx):
    k = case["k"]
    if k == "scales":
        return scales_case(case, rec, ctx)
    if k == "large":
        return large_case(case, rec, ctx)
    if k in ("one", "sweep"):
        dim = tuple(case["dim"])
        nm, J, h, K = params(dim)[case["p"]]
        hh = np.zeros(dim) + (np.array(h).reshape(dim) if not np.isscalar(h) else h)
        n = dim[0] * dim[1]
        what = "%dx%d lattice, J=%g, h=%s, %s" % (dim[0], dim[1], J, hh.tolist(), "one update" if k == "one" else "one sweep")
        if k == "sweep" and nm != "free" and n == 4 and K > 4:
            K = {"ferro": 4, "antiferro": 4}.get(nm, K)
        T = kernel(ctx, rec, dim, J, h, K, 1, k == "sweep", what)
        if T is None:
            return
        E = np.array([energy(x, J, hh) for x in lattices(dim)])
        # probabilities finer than the grid are floored by the explorer: the model's acceptance is read on the same grid
        w = np.exp(-(E - E.min()))
        w /= w.sum()
        acc = lambda de: 1. if de <= 1e-12 else (round(math.exp(-de) * K) / K if abs(math.exp(-de) * K - round(math.exp(-de) * K)) < 1e-9 else None)
        sup = T > 0
        if k == "one":
            for a, x in enumerate(lattices(dim)):
                for b in range(n):
                    c = a ^ (1 << b)
                    p = acc(E[c] - E[a])
                    if p is None:
                        continue
                    rec.check(abs(T[a, c] - p / n) < 1e-9, "rate:" + nm, lambda: "%s: spin %d of lattice %s flips with probability %g instead of %g"
                              % (what, b, x.tolist(), T[a, c], p / n))
                    q = acc(E[a] - E[c])
                    if q is not None:
                        rec.check(abs(w[a] * T[a, c] - w[c] * T[c, a]) < 1e-12, "balance:" + nm, lambda: "%s: detailed balance of flips of spin %d of %s" % (what, b, x.tolist()))
                for c in np.flatnonzero(sup[a]):
                    rec.check(bin(a ^ int(c)).count("1") <= 1, "single", lambda: "%s: one update takes lattice %s to one that differs in several spins" % (what, x.tolist()))
        exactly = all(acc(E[a ^ (1 << b)] - E[a]) is not None for a in range(2 ** n) for b in range(n))
        if exactly:
            rec.check(np.abs(w @ T - w).max() < 1e-10, "stationary:" + nm, lambda: "%s: the Boltzmann law is not preserved (off by %g)" % (what, np.abs(w @ T - w).max()))
        if k == "one":
            seen, todo = {0}, [0]
            while todo:
                a = todo.pop()
                for c in np.flatnonzero(sup[a]):
                    if int(c) not in seen:
                        seen.add(int(c))
                        todo.append(int(c))
            if exactly:
                rec.check(len(seen) == len(T), "reach:" + nm, lambda: "%s: only %d of %d lattices can be reached" % (what, len(seen), len(T)))
    elif k == "order":
        dim = tuple(case["dim"])
        n = dim[0] * dim[1]
        # all moves are free and accepted, so the lattice tells how often each site has been visited
        for sweeps in (0, 1, 2, 3):
            for extra in ({0, 1, n - 1} if sweeps else {0}):
                ni = max(0, n * (sweeps - 1) + extra) if extra else n * sweeps
                want = -(-ni // n)
                rng = np.random.RandomState(7)
                m = ctx.auto.Ising2D(dim, 0., rng=rng)
                x = m.lattice.copy()
                m.iterate(ni, systematic=True)
                rec.trans(n * want), rec.state(), rec.trace()
                rec.check(np.array_equal(m.lattice, x * (-1) ** want), "visits", lambda: "%s lattice, %d systematic iterations: sites are not each visited %d time(s)" % (dim, ni, want))
        for ni in range(0, 8):
            m = ctx.auto.Ising2D(dim, 0., rng=np.random.RandomState(7))
            x = m.lattice.copy()
            m.iterate(ni, systematic=False)
            rec.check(int(np.prod(m.lattice * x)) == (-1) ** ni, "count", lambda: "%s lattice: %d random iterations do not make %d updates" % (dim, ni, ni))
    elif k == "init":
        dim = tuple(case["dim"])
        n = dim[0] * dim[1]
        with env.controlled():
            d = law(lambda: tuple(int(v) for v in ctx.auto.Ising2D(dim, .5, rng=choice.Rng()).lattice.ravel()), 2, rec=rec)
        rec.state(len(d))
        rec.check(len(d) == 2 ** n and all(abs(v - .5 ** n) < 1e-12 for v in d.values()), "initial", lambda: "%s: initial lattices have law %s" % (dim, d))
    elif k == "coarse":
        dim, f = tuple(case["dim"]), case["f"]
        R, C = dim[0] // f, dim[1] // f
        import inspect
        takes = "rng" in inspect.signature(ctx.auto.coarse_grain).parameters
        for m in range(case["lo"], case["hi"]):
            x = np.array([1 - 2 * (m >> b & 1) for b in range(dim[0] * dim[1])]).reshape(dim).astype(np.int8)
            blk = x[:R * f, :C * f].astype(int).reshape(R, f, C, f).sum((1, 3))
            ties = int((blk == 0).sum())
            rec.state()
            what = lambda: "lattice %s, factor %d" % (x.tolist(), f)
            keep = x.copy()
            run = lambda: tuple(int(v) for v in np.asarray(ctx.auto.coarse_grain(x, f, rng=choice.Rng()) if takes else ctx.auto.coarse_grain(x, f)).ravel())
            try:
                if ties:
                    with env.controlled():
                        d = law(run, 2, rec=rec)
                else:
                    y = ctx.auto.coarse_grain(x, f)
                    rec.trans()
                    if not rec.check(np.shape(y) == (R, C), "coarse:shape", lambda: "%s: result of shape %s" % (what(), np.shape(y))):
                        continue
                    d = {tuple(int(v) for v in np.asarray(y).ravel()): 1.}
            except Exception as e:
                rec.bad("coarse:raises", "%s: %s" % (what(), repr(e)[:200]))
                continue
            want = {}
            for t in itertools.product((-1, 1), repeat=ties):
                y = np.sign(blk)
                y[y == 0] = t
                want[tuple(int(v) for v in y.ravel())] = .5 ** ties
            rec.check(d.keys() == want.keys() and all(abs(d[a] - want[a]) < 1e-12 for a in d), "coarse",
                      lambda: "%s: block spins have law %s instead of %s" % (what(), d, want))
            rec.check(np.array_equal(x, keep), "coarse:input", lambda: "%s was modified" % what())
    elif k == "quench":
        # couplings so strong that the acceptance of any increase is 0 on every grid
        for dim in [(2, 2), (2, 3), (3, 3)]:
            for sgn in (1, -1):
                J, h = 500. * sgn, np.array([(-1) ** i * 300. for i in range(dim[0] * dim[1])]).reshape(dim)
                T = kernel(ctx, rec, dim, J, h.ravel(), 2, 1, False, "quench")
                if T is None:
                    return
                E = np.array([energy(x, J, h) for x in lattices(dim)])
                a, b = np.nonzero(T)
                rec.check((E[b] <= E[a] + 1e-6).all(), "quench", lambda: "%s lattice: an update at zero temperature raises the energy" % (dim,))
    else:
        rec.trace()
        code = r"""
import sys, json, os
sys.path.insert(0, %r)
import numpy as np
from coniii.ising.automaton import Ising2D, coarse_grain
out = []
for dim in ((1, 4), (3, 3), (4, 5)):
    for systematic in (True, False):
        for seed in range(40):
            r = []
            for rep in range(2):
                np.random.seed(rep * 17 + 1)
                h = np.linspace(-.4, .6, dim[0] * dim[1]).reshape(dim)
                m = Ising2D(dim, .3, h=h, rng=np.random.RandomState(seed))
                x0 = m.lattice.copy()
                if seed < 3:
                    m.iterate(23, systematic); m.iterate(9, systematic)
                r.append((x0.tolist(), m.lattice.tolist()))
            out.append([list(dim), systematic, seed, r[0] == r[1], r[0]])
# sweeps of free spins visit every site once, as in the explored version; strong fields are followed
vis = []
for dim in ((1, 3), (2, 3), (4, 4)):
    m = Ising2D(dim, 0., rng=np.random.RandomState(1)); x = m.lattice.copy()
    m.iterate(3 * dim[0] * dim[1]); vis.append(bool((m.lattice == -x).all()))
    h = (-1.) ** np.arange(dim[0] * dim[1]).reshape(dim) * 50
    m = Ising2D(dim, .1, h=h, rng=np.random.RandomState(1)); m.iterate(3 * dim[0] * dim[1]); vis.append(bool((m.lattice == np.sign(h)).all()))
# single updates of the compiled code, for every lattice and site of a 3x3 system: moves that must be made or must not be made
flip = []
for J in (40., -40.):
    for m_ in range(512):
        x = np.array([1 - 2 * (m_ >> b & 1) for b in range(9)]).reshape(3, 3).astype(np.int8)
        mod = Ising2D((3, 3), J, rng=np.random.RandomState(0))
        for i in range(3):
            for j in range(3):
                y = x.copy(); mod.flip_metropolis(i, j, 3., J, y)
                s = int(x[i, j]); nb = int(x[i-1, j]) + int(x[(i+1) %% 3, j]) + int(x[i, j-1]) + int(x[i, (j+1) %% 3])
                de = 2 * s * (J * nb + 3.)
                flip.append([J, m_, i, j, de, int(y[i, j]) == -s, int((y != x).sum())])
bal = [f for f in flip if (f[5] != (f[4] <= 0) and abs(f[4]) > 30) or (f[4] <= 0 and not f[5]) or f[6] > 1]
print("RESULT" + json.dumps([out, vis, bal[:5], len(flip)]))
""" % ctx.stage
        e = dict(os.environ)
        e.pop("NUMBA_DISABLE_JIT", None)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=e, capture_output=True, text=True, timeout=380)
        line = [l for l in p.stdout.split("\n") if l.startswith("RESULT")]
        if not rec.check(bool(line), "compiled:raises", lambda: "the compiled automaton fails: %s" % p.stderr[-300:]):
            return
        out, vis, bal, nf = json.loads(line[0][6:])
        rec.trace(len(out)), rec.state(nf), rec.trans(nf)
        for dim, sysm, seed, same, r in out:
            rec.check(same, "generator", lambda: "%s lattice, systematic=%s, seed %d: two runs with equally seeded generators differ" % (dim, sysm, seed))
        for dim in ([1, 4], [3, 3], [4, 5]):
            for sysm in (True, False):
                rs = [json.dumps(r[0]) for d, s, seed, same, r in out if d == dim and s == sysm]
                rec.check(len(set(rs)) >= min(len(rs), 2 ** (dim[0] * dim[1])) // 4, "seeds", lambda: "%s: different seeds give only %d initial lattices" % (dim, len(set(rs))))
        rec.check(all(vis), "compiled:visits", lambda: "the compiled sweep does not visit each site once or ignores the fields: %s" % vis)
        rec.check(not bal, "compiled:flip", lambda: "compiled update decides differently from the Metropolis rule: [J, lattice, i, j, energy change, flipped, spins changed] = %s" % bal)
