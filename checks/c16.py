"""C16: pseudolikelihood maximisation optimises the true pseudolikelihood."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of all small data sets: the function handed to the optimiser by each solution path is evaluated on a parameter grid "
             "and compared (value and gradient) with the conditional probabilities computed from the full state table, and the returned parameters "
             "are compared with the stationary point found by an independent Newton iteration")
RULE = ("case = model family x size x block of data sets; each data set x {per-unit path, summed path, legacy path} x parameter set; solver results x row orders")
BOUNDS = {"quick": "objective: selected data sets of up to 20 units and of up to 70001 rows, and every data set with <=3 rows of 2 spins, every one- and two-row set of 3 spins, selected of 4 and 5; Potts k=2,3,4, n=2,3: every <=2-row set; "
                   "solutions: every count vector in {1,2,3}^4 (2 spins), 40 full-support ones of 3 spins; Potts count vectors of 2 units and of 3 (k=2,3)",
          "thorough": "<=5 rows of 2 spins, <=3 rows of 3, all count vectors in {1,2}^8 of 3 spins, 4-spin solutions, unit parameter vectors"}
ASSUMPTIONS = ["returned parameters are judged where all states occur in the data, so that the concave objective has a finite maximum"]
CHUNK = 1


def setup(ctx):
    import importlib
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers"))
    ctx.pinv = importlib.import_module("coniii.pseudo_inverse_ising")
    ctx.utils.define_ising_helper_functions()


def cases(tier):
    th = tier == "thorough"
    for n, m in ((2, 5 if th else 3), (3, 3 if th else 2)):
        rows = [c for q in range(1, m + 1) for c in itertools.combinations_with_replacement(range(2 ** n), q)]
        for b in blocks(rows, 12):
            yield {"k": "objective", "n": n, "rows": b, "th": th}
            yield {"k": "legacy", "n": n, "rows": b}
    for n in (4, 5):
        rows = [[(a * s + 3 * t) % 2 ** n for t in range(7)] for s, a in ((1, 5), (3, 7), (4, 3))]
        yield {"k": "objective", "n": n, "rows": rows, "th": th}
        yield {"k": "legacy", "n": n, "rows": rows}
    for n in (8, 13) + ((20, 30) if th else (20,)):
        yield {"k": "objective", "n": n, "wide": 1, "th": False}
        yield {"k": "legacy", "n": n, "wide": 1}
    # many rows
    for n, m, a in ((2, 2477, 1), (3, 1013, 3)):
        yield {"k": "objective", "n": n, "rows": [many(2 ** n, m, a)], "th": False}
        yield {"k": "legacy", "n": n, "rows": [many(2 ** n, m, a)]}
        yield {"k": "potts", "n": n, "q": 3, "rows": [many(3 ** n, m, a)], "th": False}
    for n in (2, 3):
        rows = [many(2 ** n, 20011, 1), many(2 ** n, 6007, 3), many(2 ** n, 70001, 5)]
        yield {"k": "objective", "n": n, "rows": rows[:1] + rows[2:], "th": False}
        yield {"k": "legacy", "n": n, "rows": rows[1:2]}
        yield {"k": "potts", "n": n, "q": 3, "rows": [many(3 ** n, 12007, 3)], "th": False}
    for n, q in ((6, 3), (11, 3), (7, 5)):
        yield {"k": "potts", "n": n, "q": q, "wide": 1, "th": False}
    for n, q in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3)) + (((3, 4), (4, 3)) if th else ()):
        rows = [c for m in (1, 2) for c in itertools.combinations_with_replacement(range(q ** n), m)]
        if len(rows) > 150:
            rows = rows[:: 1 + len(rows) // 150] + rows[:8]
        for b in blocks(rows, 40):
            yield {"k": "potts", "n": n, "q": q, "rows": b, "th": th}
    cs = list(itertools.product((1, 2, 3), repeat=4))
    for b in blocks(cs, 9):
        yield {"k": "solve", "n": 2, "counts": b}
    cs = list(itertools.product((1, 2), repeat=8))
    for b in blocks(cs if th else cs[::7] + [tuple(range(1, 9)), tuple(range(8, 0, -1))], 4):
        yield {"k": "solve", "n": 3, "counts": b}
    if th:
        for b in blocks([tuple(1 + (a * i * i + i) % 3 for i in range(16)) for a in range(12)], 2):
            yield {"k": "solve", "n": 4, "counts": b}
    yield {"k": "triplet"}
    for n, q in ((2, 2), (2, 3), (3, 2), (3, 3)) + (((2, 4), (4, 2)) if th else ()):
        m = q ** n
        cs = [tuple(1 + (a * i * i + b * i) % 3 for i in range(m)) for a in (0, 1, 2) for b in (0, 1, 4)][: 9 if th else 4]
        cs.append(tuple(1 + (i % 5) for i in range(m)))
        for b in blocks(cs, 1):
            yield {"k": "psolve", "n": n, "q": q, "counts": b}


def many(m, rows, a):
    """a long sequence over m letters, unequally frequent"""
    return [(i * i * a + i // 3) % m for i in range(rows)]


def around(n, vals):
    """a few states of a large system (with repetition) and all that differ from one of them in one unit"""
    data = [tuple(x) for x in some_states(n, vals, 5).tolist()]
    rest = sorted({s[:i] + (v,) + s[i + 1:] for s in data for i in range(n) for v in vals} - set(data))
    return np.array(data + rest), [[0, 1, 2, 3, 4, 2, 1], [3, 2]]


def tables(case, vals):
    """states to consider and the data sets as rows of them"""
    if "wide" in case:
        return around(case["n"], vals)
    return None, case["rows"]


class Cond:
    """log pseudolikelihood of a data set, term by term, with derivatives, from the full table of observables"""
    def __init__(self, S, O):
        self.S = [tuple(s) for s in S.tolist()]
        self.O = O
        self.row = {s: i for i, s in enumerate(self.S)}
        self.least = -10 ** 9
        self.vals = sorted(set(v for s in self.S for v in s))

    def unit(self, data, r, th):
        """value, gradient and Hessian of sum_data log p(s_r | rest)"""
        D = len(th)
        f, g, H = 0., np.zeros(D), np.zeros((D, D))
        for s in data:
            alt = [self.row[s[:r] + (v,) + s[r + 1:]] for v in self.vals if sum(s[:r] + (v,) + s[r + 1:]) >= self.least]
            o = self.O[alt]
            e = o @ th
            m = e.max()
            w = np.exp(e - m)
            z = w.sum()
            w = w / z
            mine = self.O[self.row[s]]
            f += mine @ th - m - math.log(z)
            mean = w @ o
            g += mine - mean
            H -= (o * w[:, None]).T @ o - np.outer(mean, mean)
        return f, g, H

    def total(self, data, th):
        out = [self.unit(data, r, th) for r in range(len(data[0]))]
        return sum(x[0] for x in out), sum(x[1] for x in out), sum(x[2] for x in out)


def newton(fgh, D, free):
    """maximise a concave function over the given coordinates"""
    th = np.zeros(D)
    for _ in range(200):
        f, g, H = fgh(th)
        g, H = g[free], H[np.ix_(free, free)]
        if np.abs(g).max() < 1e-11:
            break
        step = -np.linalg.lstsq(H, g, rcond=1e-12)[0]
        t = 1.
        while t > 1e-6:
            new = th.copy()
            new[free] += t * step
            if fgh(new)[0] >= f - 1e-13:
                break
            t /= 2
        th = new
    return th


class Spy:
    """an optimiser (passed through solver_kwargs) that examines the function it is asked to minimise"""
    def __init__(self, visit, answer):
        self.calls, self.visit, self.answer = 0, visit, answer

    def __call__(self, fun, x0, args=(), jac=None, **kw):
        from scipy.optimize import OptimizeResult
        i = self.calls
        self.calls += 1
        self.visit(i, fun, jac, np.array(x0))
        x = self.answer(i, np.array(x0))
        return OptimizeResult(x=x, fun=fun(x), success=True, nit=1, nfev=1, message="spy", status=0)


def near(rec, key, a, b, msg, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.size == b.size:
        a = a.reshape(b.shape)
    return rec.check(a.shape == b.shape and (b.size == 0 or np.abs(a - b).max() < tol * max(1, np.abs(b).max())), key,
                     lambda: "%s: got %s, definition gives %s" % (msg, a, b))


def unit_index(n, r):
    pairs = list(itertools.combinations(range(n), 2))
    return [r] + [n + pairs.index((min(i, r), max(i, r))) for i in range(n) if i != r]


def specs_for(D, th):
    s = [("zero",), ("dense", 0, .3), ("dense", 1, 1.), ("dense", 2, 3.)]
    return s + ([("unit", i, v) for i in range(D) for v in (1., -1.)] if th else [("unit", D - 1, 2.)])


def run_case(case, rec, ctx):
    {"objective": objective, "legacy": legacy, "potts": potts, "solve": solve, "triplet": triplet, "psolve": psolve}[case["k"]](case, rec, ctx)


def objective(case, rec, ctx):
    S, n = ctx.solvers, case["n"]
    states, sets = tables(case, (-1, 1))
    F = Family(n, 1, 2, S=states)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    ths = [(sp, vector(D, sp)) for sp in specs_for(D, case["th"])]
    helpers = ctx.utils.define_pseudo_ising_helper_functions(n)
    for rows in sets:
        data = [C.S[i] for i in rows]
        X = np.array(data)
        X.setflags(write=False)
        ps = env.quietly(S.Pseudo, X, iprint=False, get_multipliers_r=helpers[0], calc_observables_r=helpers[1])
        rec.state()
        units = [[C.unit(data, r, th) for _, th in ths] for r in range(n)]
        ans = [1 + 10 * r + np.arange(n) for r in range(n)]

        def visit(r, fun, jac, x0):
            ix = unit_index(n, r)
            for (sp, th), (f, g, H) in zip(ths, units[r]):
                rec.trans()
                near(rec, "unit:objective", fun(th[ix]), -f, "data %s unit %d parameters %s" % (data, r, sp))
                near(rec, "unit:gradient", jac(th[ix]), -g[ix], "data %s unit %d parameters %s" % (data, r, sp))
        spy = Spy(visit, lambda r, x0: ans[r].astype(float))
        got = env.quietly(ps.solve, solver_kwargs={"method": spy})
        rec.check(spy.calls == n, "unit:calls", "%d optimisations for %d units" % (spy.calls, n))
        want = np.zeros(D)
        for r in range(n):
            for i, v in zip(unit_index(n, r), ans[r]):
                want[i] += v if i < n else v / 2
        near(rec, "unit:average", got, want, "combination of the per-unit solutions %s" % ans)

        def visit(r, fun, jac, x0):
            for q, (sp, th) in enumerate(ths):
                rec.trans()
                near(rec, "sum:objective", fun(th), -sum(u[q][0] for u in units), "data %s parameters %s" % (data, sp))
                near(rec, "sum:gradient", jac(th), -sum(u[q][1] for u in units), "data %s parameters %s" % (data, sp))
        spy = Spy(visit, lambda r, x0: np.arange(D) + 1.)
        got = env.quietly(ps.solve, force_general=True, solver_kwargs={"method": spy})
        near(rec, "sum:returned", got, np.arange(D) + 1., "summed objective")
        rec.check(spy.calls == 1, "sum:calls", "%d optimisations" % spy.calls)
        rec.trace()
    rec.sample({"data": data, "log_pseudolikelihood": [float(sum(u[q][0] for u in units)) for q in range(len(ths))]})


def legacy(case, rec, ctx):
    """conditional log likelihood, its derivatives (of the negative) in the 0/1 basis, with fields on the diagonal"""
    S, n = ctx.solvers, case["n"]
    states, sets = tables(case, (0, 1))
    F = Family(n, 0, 2, S=states)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    ps = env.quietly(S.Pseudo, n, iprint=False)
    mod = ctx.pinv
    for rows in sets:
        data = [C.S[i] for i in rows]
        X = np.array(data)
        X.setflags(write=False)
        rec.state()
        for sp in specs_for(n * n, False):
            v = vector(n * n, sp).reshape(n, n)
            J = (v + v.T) / 2
            tot = 0
            for r in range(n):
                Jr = J[r].copy()
                Jr.setflags(write=False)
                # E = sum_ij J_ij x_i x_j: field -J_rr, coupling -2 J_ri
                th = np.zeros(D)
                ix = unit_index(n, r)
                th[ix] = np.concatenate([[-Jr[r]], -2 * np.delete(Jr, r)])
                f, g, H = C.unit(data, r, th)
                scale = np.insert(-2 * np.ones(n - 1), 0, -1)
                order = [r] + [i for i in range(n) if i != r]
                gj, Hj = np.zeros(n), np.zeros((n, n))
                gj[order] = g[ix] * scale
                Hj[np.ix_(order, order)] = H[np.ix_(ix, ix)] * np.outer(scale, scale)
                what = "data %s unit %d parameters %s" % (data, r, sp)
                tot += f
                for nm, ll, jac, hess, pc in (("solver", ps.cond_log_likelihood, ps.cond_jac, ps.cond_hess, ps.pair_cooc_mat),
                                              ("module", mod.conditionalLogLikelihood, mod.conditionalJacobian, mod.conditionalHessian, mod.pairCoocMat)):
                    rec.trans(3)
                    near(rec, nm + ":conditional", ll(r, X, Jr), f, what)
                    near(rec, nm + ":jacobian", jac(r, X, Jr), -gj, what)
                    near(rec, nm + ":hessian", hess(r, X, Jr), -Hj, what)
                    Y = 2. * X
                    Y[:, r] = 1
                    near(rec, nm + ":hessian", hess(r, X, Jr, pairCoocRhat=pc(Y)), -Hj, what)
                for least in range(1, n + 1) if n < 6 else (1, 2, n // 2, n - 1):
                    big = [s for s in data if sum(s) >= least]
                    if not big:
                        continue
                    C.least = least
                    f, g, H = C.unit(big, r, th)
                    C.least = -1
                    gj[order] = g[ix] * scale
                    Hj[np.ix_(order, order)] = H[np.ix_(ix, ix)] * np.outer(scale, scale)
                    B, what = np.array(big), "data %s of at least %d participants, unit %d parameters %s" % (big, least, r, sp)
                    rec.trans(3)
                    near(rec, "module:conditional", mod.conditionalLogLikelihood(r, B, Jr, minSize=least), f, what)
                    near(rec, "module:jacobian", mod.conditionalJacobian(r, B, Jr, minSize=least), -gj, what)
                    near(rec, "module:hessian", mod.conditionalHessian(r, B, Jr, minSize=least), -Hj, what)
            near(rec, "solver:total", ps.pseudo_log_likelihood(X, J), tot, "data %s parameters %s" % (data, sp))
            near(rec, "module:total", mod.pseudoLogLikelihood(X, J), tot, "data %s parameters %s" % (data, sp))
        rec.trace()


def potts_solver(ctx, X, n, q):
    u = ctx.utils
    model = env.quietly(ctx.models.Potts3, [np.zeros(3 * n), np.zeros(n * (n - 1) // 2)])
    key = ("potts", n, q)
    if key not in ctx.__dict__.setdefault("_h", {}):
        ctx._h[key] = (u.define_pseudo_potts_helper_functions(n, q), u.define_potts_helper_functions(q)[1])
    h, obs = ctx._h[key]
    return env.quietly(ctx.solvers.Pseudo, X, model=model, calc_observables=obs, get_multipliers_r=h[0], calc_observables_r=h[1], k=q, iprint=False)


def potts(case, rec, ctx):
    n, q = case["n"], case["q"]
    states, sets = tables(case, tuple(range(q)))
    F = PottsFamily(n, q, states)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    ths = [(sp, vector(D, sp)) for sp in specs_for(D, case["th"])]
    A = np.arange(D) + 1.
    for rows in sets:
        data = [C.S[i] for i in rows]
        X = np.array(data)
        X.setflags(write=False)
        ps = potts_solver(ctx, X, n, q)
        rec.state()
        for cost in (False, True):
            def visit(i, fun, jac, x0):
                for sp, th in ths:
                    f, g, H = C.total(data, th)
                    rec.trans()
                    near(rec, "potts:objective", fun(th), -f + cost * (A * th ** 2).sum(), "k=%d data %s parameters %s" % (q, data, sp))
                    near(rec, "potts:gradient", jac(th), -g + cost * 2 * A * th, "k=%d data %s parameters %s" % (q, data, sp))
            kw = {"cost_fcn": lambda x: (A * x ** 2).sum(), "cost_fcn_jac": lambda x: 2 * A * x} if cost else {}
            spy = Spy(visit, lambda i, x0: np.arange(D) + .5)
            got = env.quietly(ps.solve, solver_kwargs={"method": spy}, **kw)
            near(rec, "potts:returned", got, np.arange(D) + .5, "summed objective")
            rec.check(spy.calls == 1, "potts:calls", "%d optimisations" % spy.calls)
        rec.trace()
    rec.sample({"k": q, "data": data})


def orders(X):
    m = len(X)
    yield X
    yield X[::-1].copy()
    yield X[sorted(range(m), key=lambda i: (7 * i) % 13)].copy()


def solve(case, rec, ctx):
    S, u, n = ctx.solvers, ctx.utils, case["n"]
    F = Family(n, 1, 2)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    helpers = u.define_pseudo_ising_helper_functions(n)
    for cnt in case["counts"]:
        X = np.repeat(F.S, cnt, axis=0)
        data = [tuple(s) for s in X.tolist()]
        ref = np.zeros(D)
        for r in range(n):
            ix = unit_index(n, r)
            w = newton(lambda th: C.unit(data, r, th), D, ix)
            ref[ix] += np.where(np.array(ix) < n, w[ix], w[ix] / 2)
        tot = newton(lambda th: C.total(data, th), D, list(range(D)))
        for Y in orders(X):
            Y.setflags(write=False)
            for kw in ({}, {"get_multipliers_r": helpers[0], "calc_observables_r": helpers[1]}):
                ps = env.quietly(S.Pseudo, Y, iprint=False, **kw)
                what = "counts %s" % (cnt,)
                x, soln = env.quietly(ps.solve, full_output=True)
                rec.trans()
                near(rec, "solve:averaged", x, ref, what, 2e-4)
                near(rec, "solve:kept", ps.multipliers, x, what)
                rec.check(len(soln) == n, "solve:output", "%d results for %d units" % (len(soln), n))
                x, soln = env.quietly(ps.solve, force_general=True, full_output=True)
                near(rec, "solve:summed", x, tot, what, 2e-4)
                near(rec, "solve:kept", ps.multipliers, x, what)
                near(rec, "solve:value", soln["fun"], -C.total(data, tot)[0], what, 1e-6)
                if kw:
                    for g in (vector(D, ("dense", 0, 1.)), np.arange(D) / 3.):
                        g.setflags(write=False)
                        near(rec, "solve:guess", env.quietly(ps.solve, initial_guess=g), ref, what + " from another start", 5e-4)
                        near(rec, "solve:guess", env.quietly(ps.solve, initial_guess=g, force_general=True), tot, what + " from another start", 5e-4)
                    near(rec, "solve:legacy", ps._solve_ising_deprecated(), ref, what, 2e-3) if hasattr(ps, "_solve_ising_deprecated") else None
        # the legacy module works in the 0/1 basis with symmetric double counting
        J = env.quietly(ctx.pinv.pseudoInverseIsing, (X + 1) // 2)
        h, c = -np.diag(J), -2 * J[np.triu_indices(n, 1)]
        near(rec, "solve:module", u.convert_params(h, c, "11", concat=True), ref, "counts %s, module" % (cnt,), 2e-3)
        rec.state()
        rec.trace()
    rec.sample({"counts": list(cnt), "solution": [float(v) for v in x]})


def triplet(case, rec, ctx):
    """another family: the user supplies the parameters and observables of each conditional"""
    S, n = ctx.solvers, 3
    F = Family(n, 1, 3)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    m = env.quietly(ctx.models.Triplet, [np.zeros(3), np.zeros(3), np.zeros(1)])
    sub = F.names
    ixs = [[a for a, t in enumerate(sub) if r in t] for r in range(n)]
    for cnt in ((1, 2, 1, 3, 2, 1, 1, 2), (3, 1, 1, 1, 1, 2, 2, 1), (1,) * 8, (5, 1, 1, 2, 1, 4, 1, 1)):
        X = np.repeat(F.S, cnt, axis=0)
        data = [tuple(s) for s in X.tolist()]
        tot = newton(lambda th: C.total(data, th), D, list(range(D)))
        for Y in orders(X):
            ps = env.quietly(S.Pseudo, Y, model=m, calc_observables=ctx.utils.define_triplet_helper_functions()[1],
                             get_multipliers_r=lambda r, v: (v[ixs[r]], ixs[r]),
                             calc_observables_r=lambda r, Z: np.array([[np.prod(z[list(sub[a])]) for a in ixs[r]] for z in Z], dtype=float), iprint=False)
            x = env.quietly(ps.solve)
            near(rec, "triplet", x, tot, "counts %s" % (cnt,), 2e-4)
            rec.trans()
        rec.state()
        rec.trace()


def psolve(case, rec, ctx):
    n, q = case["n"], case["q"]
    F = PottsFamily(n, q)
    C = Cond(F.S, F.O)
    D = F.O.shape[1]
    for cnt in case["counts"]:
        X = np.repeat(F.S, cnt, axis=0)
        data = [tuple(s) for s in X.tolist()]
        tot = newton(lambda th: C.total(data, th), D, list(range(D)))
        rec.state()
        for Y in list(orders(X))[:2]:
            ps = potts_solver(ctx, Y, n, q)
            x, soln = env.quietly(ps.solve, full_output=True)
            rec.trans()
            f, g, H = C.total(data, x)
            rec.check(np.abs(g).max() < 1e-3 * len(data), "psolve:stationary", "k=%d counts %s: gradient %s" % (q, cnt, g))
            near(rec, "psolve:value", soln["fun"], -C.total(data, tot)[0], "k=%d counts %s" % (q, cnt), 1e-6)
            near(rec, "psolve:kept", ps.multipliers, x, "parameters")
            # fields are determined up to one constant per unit
            h = lambda v: v[: n * q].reshape(q, n) - v[: n * q].reshape(q, n).mean(0)
            near(rec, "psolve:fields", h(x), h(tot), "k=%d counts %s" % (q, cnt), 1e-3)
            near(rec, "psolve:couplings", x[n * q:], tot[n * q:], "k=%d counts %s" % (q, cnt), 1e-3)
            if n == 2 and Y is X:
                g = vector(D, ("dense", 0, .5))
                x = env.quietly(ps.solve, initial_guess=g)
                near(rec, "psolve:guess", x[n * q:], tot[n * q:], "k=%d counts %s" % (q, cnt), 1e-3)
        rec.trace()
    rec.sample({"k": q, "counts": list(cnt), "solution": [float(v) for v in x]})
