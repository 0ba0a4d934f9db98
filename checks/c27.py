"""C27: regularised mean-field inversion returns its best candidate."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import blocks
from checks.c26 import reference, bits

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: the real solver is run on every data set of the bound against a model whose generated sample is scripted; every assignment of outcomes to the "
             "regularisation grid is enumerated, and every candidate the solver puts to the model, and its answer, are judged by an independent implementation")
RULE = "case = block of data sets x grid x every assignment of sample outcomes to grid points (or an exact rounded Boltzmann sample), or bracketing search over all value lists"
BOUNDS = {"quick": "data: 2 units, 8 rows, every multiset with varying units and all four states present (35), 3 units x 8 samples; grids of 3 and 4 values x all assignments of 3 outcomes for 7 data sets; exact "
                   "rounded samples of 400 rows with and without bracket, of 4000 rows of 3 units with the best strength off the grid; bracketing search: all lists of 3-6 values over 4 levels",
          "thorough": "8-row data of 2 units also with 3 states, 3 units x 20 samples; grids of up to 5 values for 12 data sets; bracketing: lists of up to 8 values over 3 levels"}
ASSUMPTIONS = ["the correlation matrix of the data is not singular", "the scripted sample is a function of the parameters, as it is for the real model when the generator is reset (the default)"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers", "mean_field_ising"))

    class Scripted(ctx.models.Ising):
        """the Ising model with scripted samples"""
        def generate_sample(self, n_iters, burn_in, multipliers=None, sample_size=None, *a, **k):
            m = np.array(self.multipliers if multipliers is None else multipliers)
            state = self.rng.get_state()
            self.rng.rand(7)
            self.sample = np.array(self.script(m, sample_size or self.sampleSize))
            self.calls.append((m, self.sample.copy(), hash((state[1].tobytes(), state[2])), n_iters))
            return self.sample
    ctx.Scripted = Scripted


def datasets(th):
    S = [(-1, -1), (-1, 1), (1, -1), (1, 1)]
    lo = 0 if th else 1
    out = [[S[i] for i in range(4) for _ in range(c[i])] for c in itertools.product(range(lo, 9), repeat=4) if sum(c) == 8]
    return [d for d in out if ok(d)]


def ok(d):
    X = (np.array(d) + 1) / 2
    p = X.mean(0)
    if not ((p > 0) & (p < 1)).all():
        return False
    C = X.T @ X / len(X)
    v = p * (1 - p)
    M = (C - np.outer(p, p)) / np.sqrt(np.outer(v, v))
    return np.linalg.eigvalsh(M).min() > .02


def three(th):
    P = list(itertools.product((-1, 1), repeat=3))
    out = []
    for m in range(20 if th else 8):
        d = [P[(i * i + 3 * m * i + m) % 8] for i in range(6 + m % 3)] + [P[(i + m) % 8] for i in range(8)]
        if ok(d):
            out.append(d)
    return out


def cases(tier):
    th = tier == "thorough"
    D = datasets(th)
    for b in blocks(D, 6):
        yield {"k": "exact", "d": b}
    for d in three(th):
        yield {"k": "exact", "d": [d], "fine": 4000}
    for w in ((5, 1, 2, 3, 1, 2, 2, 6), (3, 1, 1, 2, 1, 2, 1, 5), (9, 2, 3, 4, 1, 3, 2, 8), (4, 3, 1, 2, 2, 1, 3, 6), (7, 1, 1, 1, 1, 1, 1, 7), (2, 3, 3, 2, 3, 2, 2, 5)):
        yield {"k": "exact", "d": [[r for k, r in enumerate(itertools.product((-1, 1), repeat=3)) for _ in range(w[k])]], "fine": 4000}
    for d in D[::max(1, len(D) // (10 if th else 5))] + three(th)[:2]:
        for g in (3, 4) + ((5,) if th else ()):
            for first in range(3):
                yield {"k": "script", "d": d, "g": g, "first": first}
    for L in range(3, 9 if th else 7):
        for first in range(3 if L > 6 else 4):
            yield {"k": "bracket", "L": L, "first": first, "levels": 3 if L > 6 else 4}
    for p in itertools.product((1, 2, 3), repeat=2):
        yield {"k": "independent", "p": p}


# ---------------------------------------------------------------- reference
def table(d):
    X = (np.asarray(d, dtype=float) + 1) / 2
    return X.T @ X / len(X)


def curve(d, x):
    """parameters in the +/-1 basis of the mean-field inversion at regularisation strength x"""
    C = table(d)
    pm = np.diag(C).mean()
    gamma = x / (pm ** 2 * (1 - pm) ** 2) / len(d)
    S, J, h = reference(C, gamma)
    n = len(C)
    # exp(-h.s - sum_{i<j} J s s) with s = (1+t)/2
    f = [-h[i] / 2 - sum(J[i, j] for j in range(n) if j != i) / 4 for i in range(n)]
    c = [-J[i, j] / 4 for i in range(n) for j in range(i + 1, n)]
    return np.array(f + c)


def mismatch(d, sample):
    C, N = table(d), len(d)
    B = (C * N + 1) / (N + 2)
    D = (table(sample) - C) / np.sqrt(B * (1 - B) / N)
    iu = np.triu_indices(len(C))
    return (D[iu] ** 2).sum()


def on_curve(d, m):
    """distance of m from the curve of mean-field inversions over all strengths >= 0"""
    f = lambda x: np.abs(curve(d, x) - m).max()
    grid = [0.] + list(np.logspace(-7, 4, 45))
    vals = [f(x) for x in grid]
    i = int(np.argmin(vals))
    lo, hi = grid[max(0, i - 1)], grid[min(len(grid) - 1, i + 1)]
    g = (math.sqrt(5) - 1) / 2
    for _ in range(60):
        a, b = hi - g * (hi - lo), lo + g * (hi - lo)
        if f(a) < f(b):
            hi = b
        else:
            lo = a
    return min(f((lo + hi) / 2), vals[i])


def boltzmann_rows(m, R):
    """R rows with frequencies rounded from the Boltzmann distribution of parameters m (+/-1)"""
    n = int((math.isqrt(8 * len(m) + 1) - 1) // 2)
    S = 2 * bits(n) - 1
    iu = np.triu_indices(n, 1)
    e = S @ m[:n] + np.array([np.dot(m[n:], np.outer(s, s)[iu]) for s in S])
    w = np.exp(e - e.max())
    w /= w.sum()
    c = np.floor(w * R).astype(int)
    for i in np.argsort(-(w * R - c), kind="stable")[:R - c.sum()]:
        c[i] += 1
    return np.repeat(S, c, axis=0).astype(int)


def run(ctx, d, script, R, **kw):
    n = len(d[0])
    model = ctx.Scripted(np.zeros(n + n * (n - 1) // 2))
    model.calls, model.script = [], script
    model.rng = np.random.RandomState(11)
    s = ctx.solvers.RegularizedMeanField(np.array(d), model=model, sample_size=R, iprint=False)
    with np.errstate(all="ignore"):
        try:
            r = env.quietly(s.solve, **kw)
            return s, np.asarray(r), model.calls, None
        except Exception as e:
            return s, None, model.calls, e


def judge(rec, key, what, d, s, r, calls, grid, reset=True, full=True):
    rec.state(len(calls))
    rec.trans(len(calls))
    n = len(d[0])
    D = n + n * (n - 1) // 2
    mm = [mismatch(d, x) for m, x, h, it in calls]
    if reset:
        rec.check(len(set(h for m, x, h, it in calls)) <= 1, key + ":rng", lambda: what() + ": candidates were sampled from different generator states")
    if grid is not None:
        for x in grid:
            c = curve(d, x)
            rec.check(any(np.abs(m - c).max() < 1e-6 for m, *_ in calls), key + ":grid",
                      lambda: "%s: the inversion at grid value %g (parameters %s) was never put to the model; candidates %s" % (what(), x, c.tolist(), [m.tolist() for m, *_ in calls[:len(grid)]]))
    for m, *_ in (calls[:14] if full else calls[:6]):
        if not (m.shape == (D,) and np.isfinite(m).all() and not np.iscomplexobj(m) and on_curve(d, m) < 1e-5):
            rec.bad(key + ":candidate", "%s: candidate parameters %s are not a mean-field inversion at any strength" % (what(), m.tolist()))
            break
    if r is None:
        return mm
    if not rec.check(r.shape == (D,) and np.isfinite(r).all() and not np.iscomplexobj(r), key + ":shape", lambda: "%s: answer %s" % (what(), r)):
        return mm
    rec.check(np.array_equal(r, s.multipliers), key + ":attribute", lambda: what() + ": solver.multipliers differs from the returned answer")
    same = [a for a, (m, *_) in zip(mm, calls) if np.abs(m - r).max() < 1e-8 * (1 + np.abs(r).max())]
    if rec.check(bool(same), key + ":answer", lambda: "%s: the answer %s is none of the candidates it compared with the data" % (what(), r.tolist())):
        rec.check(min(same) <= min(mm) + 1e-9, key + ":best", lambda: "%s: mismatch of the answer is %r, that of another candidate %r" % (what(), min(same), min(mm)))
    rec.check(on_curve(d, r) < 1e-5, key + ":inversion", lambda: "%s: the answer %s is not a mean-field inversion at any strength" % (what(), r.tolist()))
    return mm


def interior(v):
    i = int(np.argmin(v))
    return 0 < i < len(v) - 1 and any(x > v[i] for x in v[i + 1:])


def script(case, rec, ctx):
    d, g = case["d"], case["g"]
    n = len(d[0])
    P = np.array(list(itertools.product((-1, 1), repeat=n)))
    near = np.array(d)
    outcomes = [near, np.concatenate([P, near]), np.concatenate([P, P, P[:3], near[:2]])]
    grid = np.linspace(.1, 1.3, g)
    C = [curve(d, x) for x in grid]
    for rest in itertools.product(range(3), repeat=g - 1):
        a = (case["first"],) + rest
        def f(m, R):
            return outcomes[a[int(np.argmin([np.abs(m - c).max() for c in C]))]]
        for reset in ((True, False) if g == 3 else (True,)):
            what = lambda: "data %s, grid %s, outcomes %s, reset_rng=%s" % (d, grid.tolist(), a, reset)
            s, r, calls, err = run(ctx, d, f, 10, n_grid_points=g, bracket=(.1, 1.3), reset_rng=reset)
            v = [mismatch(d, outcomes[x]) for x in a]
            if interior(v):
                if err is not None:
                    rec.bad("script:raises", "%s: %r although the mismatches %s have a minimum inside" % (what(), err, v))
            else:
                rec.check(err is not None, "script:boundary", lambda: "%s: returned %s although the mismatches %s have no bracketed minimum" % (what(), r, v))
            judge(rec, "script", what, d, s, r, calls, grid, reset, full=g == 3)
    rec.trace()
    rec.sample({"data": d, "grid": grid.tolist(), "assignments": 3 ** (g - 1)})


def exact(case, rec, ctx):
    for d in case["d"]:
        for R, kw in ((400, {"bracket": (0., 3.), "n_grid_points": 7}), (400, {"bracket": (.01, 1.), "n_grid_points": 5}), (400, {}),
                      (case.get("fine", 0), {"bracket": (0., 1.), "n_grid_points": 4}), (case.get("fine", 0), {"bracket": (0., 4.), "n_grid_points": 6})):
            if not R:
                continue
            what = lambda: "data %s, options %s, exact samples of %d rows" % (d, kw, R)
            s, r, calls, err = run(ctx, d, boltzmann_rows, R, **kw)
            grid = np.linspace(*kw["bracket"], kw["n_grid_points"]) if kw else None
            mm = judge(rec, "exact", what, d, s, r, calls, grid, full=False)
            if grid is not None:
                v = [mismatch(d, boltzmann_rows(curve(d, x), R)) for x in grid]
                rec.add("off grid", err is None and min(mm) < min(v) - 1e-9)
                # rounding makes ties between neighbours sensitive to the last digit: only clear cases
                if interior(v) and sorted(v)[1] > min(v) + 1e-9:
                    rec.check(err is None, "exact:raises", lambda: "%s: %r although mismatches %s have a minimum inside" % (what(), err, v))
            else:
                rec.check(err is None, "exact:raises", lambda: "%s: %r" % (what(), err))
        rec.trace()


def independent(case, rec, ctx):
    a, b = case["p"]
    d = [(2 * (i < a) - 1, 2 * (j < b) - 1) for i in range(4) for j in range(4)]
    want = np.array([math.atanh(2 * a / 4 - 1), math.atanh(2 * b / 4 - 1), 0.])
    for kw in ({}, ):
        s, r, calls, err = run(ctx, d, boltzmann_rows, 400, **kw)
        rec.state(len(calls))
        rec.trans()
        rec.trace()
        rec.check(err is None and r.shape == (3,) and np.abs(r - want).max() < 1e-6, "independent",
                  lambda: "independent units with %d/4 and %d/4 active: answer %s (%r) instead of %s" % (a, b, r, err, want.tolist()))


def bracket(case, rec, ctx):
    L = case["L"]
    s = ctx.solvers.RegularizedMeanField(np.array([[1, -1], [-1, -1], [1, 1], [-1, 1]]), iprint=False)
    xs = np.array([.5 * i + .1 * i * i for i in range(L)])
    for rest in itertools.product(range(case["levels"]), repeat=L - 1):
        v = [float(case["first"])] + [float(x) for x in rest]
        rec.state()
        rec.trans()
        for form in (list, np.array):
            what = lambda: "values %s" % v
            try:
                r = s.bracket1d(xs, form(v))
            except Exception as e:
                rec.check(not interior(v), "bracket:raises", lambda: "%s: %r" % (what(), e))
                continue
            if not rec.check(interior(v), "bracket:boundary", lambda: "%s: %s although the minimum is at an end" % (what(), r)):
                continue
            i = [int(np.where(xs == x)[0][0]) if (xs == x).any() else None for x in r]
            if not rec.check(len(r) == 3 and None not in i and i[0] < i[1] < i[2], "bracket:order", lambda: "%s: %s" % (what(), r)):
                continue
            a, b, c = (v[j] for j in i)
            m = min(v)
            k = v.index(m)
            rec.check(b == m and a > b and c > b, "bracket:valid", lambda: "%s: bracket %s has values %s" % (what(), r, (a, b, c)))
            rec.check(a == min(v[:i[1]]) or a == min(x for x in v[:i[1]] if x > m), "bracket:tight", lambda: "%s: left end has value %s" % (what(), a))
            rec.check(c == min([x for x in v[i[1] + 1:] if x > m]), "bracket:tight", lambda: "%s: right end has value %s" % (what(), c))
    rec.trace()


def run_case(case, rec, ctx):
    {"script": script, "exact": exact, "bracket": bracket, "independent": independent}[case["k"]](case, rec, ctx)
