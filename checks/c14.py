"""C14: exact inversion recovers the unique model matching the given correlations."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of inverse problems: every model of a parameter grid (every parameter subset, every small sample with an "
             "interior solution) is solved by the real solver and the result is judged by independent enumeration of all states")
RULE = "case = solver x size x block of problems; each solution's exact correlations are compared with the constraints and its parameters with the original ones"
BOUNDS = {"quick": "full solver: n=2 5-value grid (125 models), n=3 3-value and 2-value grids (a third of 729 + 64), n=4 and n=5 zero, units, selected dense; every 8-row sample multiset of 2 spins "
                   "with all states present; sparse: every non-empty subset for n=2,3, all subsets of size <=2 or >=8 for n=4, in sorted, reversed and rotated order; a parameter bound tighter and looser than each one-parameter solution, both routes, n=2,3; starting points 1e-2 to 1e-7 beside the solution with a bound 5 % above the largest parameter, n=2..4",
          "thorough": "n=4 dense vectors and pairs, n=6 units, sparse n=4 all subsets, triplet model of 5 spins"}
ASSUMPTIONS = ["constraints come from models with parameters of magnitude <= 1.5, where the inverse problem is well conditioned"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers"))
    ctx.utils.define_ising_helper_functions()


def cases(tier):
    th = tier == "thorough"
    g5 = list(itertools.product((-1.5, -.5, 0., .5, 1.5), repeat=3))
    for b in blocks(g5, 20):
        yield {"k": "full", "n": 2, "v": b}
    g3 = list(itertools.product((-.7, 0., .7), repeat=6)) + list(itertools.product((-.5, .3), repeat=6))
    for b in blocks(g3 if th else g3[::3] + [], 20):
        yield {"k": "full", "n": 3, "v": b}
    for n in (4, 5) + ((6,) if th else ()):
        D = nparam(n, 2)
        vs = [("zero",)] + [("unit", i, s) for i in range(D) for s in (.8, -.8, .5, -.5)] + [("dense", m, .3) for m in range(12 if th else 4)]
        for b in blocks(vs, 4):
            yield {"k": "full", "n": n, "v": [vector(D, s).tolist() for s in b]}
    for n in (2, 3):
        yield {"k": "options", "n": n}
    comps = [c for c in itertools.product(range(1, 6), repeat=4) if sum(c) == 8]
    for b in blocks(comps, 12):
        yield {"k": "sample", "n": 2, "v": b}
    for n in (2, 3, 4):
        D = nparam(n, 2)
        subs = [c for m in range(1, D + 1) for c in itertools.combinations(range(D), m) if n < 4 or th or m <= 2 or m >= 9]
        for b in blocks(subs, 8):
            yield {"k": "sparse", "n": n, "subs": b}
    for n in (2, 3) + ((4,) if th else ()):
        for i in range(nparam(n, 2)):
            yield {"k": "cap", "n": n, "i": i}
    for n in (2, 3, 4):
        yield {"k": "near", "n": n}
    yield {"k": "refuse"}
    if th:
        for m in range(3):
            yield {"k": "triplet", "m": m}
    else:
        yield {"k": "triplet", "m": 0}


def judge(rec, key, F, sel, x, c, true, what, ctol=1e-6, ptol=1e-4):
    x = np.asarray(x, dtype=float)
    full = np.zeros(F.O.shape[1])
    full[list(sel)] = x
    got = F.obs(full)[list(sel)]
    d = np.abs(got - c).max()
    rec.check(d < ctol, key + ":correlations", "%s: correlations %s instead of %s (parameters %s)" % (what, got, c, x))
    if true is not None:
        d = np.abs(full - true).max()
        rec.check(d < ptol, key + ":parameters", "%s: parameters %s instead of %s" % (what, full, true))


def run_case(case, rec, ctx):
    S, k = ctx.solvers, case["k"]
    n = case.get("n", 5)
    F = Family(n, 1, 2)
    D = F.O.shape[1]
    every = list(range(D))
    en = env.quietly(S.Enumerate, n, iprint=False) if k in ("full", "options") else None
    if k == "full":
        for th in case["v"]:
            th = np.array(th)
            c = F.obs(th)
            cc = c.copy()
            cc.setflags(write=False)
            rec.state(len(F.S))
            rec.trans(2)
            rec.trace()
            # the default root finder is documented not to converge always; what it reports as a solution must be one,
            # and within |parameters| <= 1/2 it must find it
            try:
                x, soln = env.quietly(en.solve, constraints=cc, full_output=True)
                ok = bool(soln["success"])
                rec.check(np.array_equal(en.multipliers, x), "full:kept", "solver.multipliers differ from what was returned")
            except ValueError:
                ok = False
            if np.abs(th).max() <= .5:
                rec.check(ok, "full:found", "no solution found for n=%d model %s" % (n, th))
            if ok:
                judge(rec, "full", F, every, x, c, th, "n=%d model %s" % (n, th))
            else:
                rec.add("default_root_finder_gave_up")
            x = env.quietly(en.solve, constraints=cc, scipy_solver_kwargs={"method": "hybr", "tol": 1e-12})
            judge(rec, "full:hybr", F, every, x, c, th, "n=%d model %s, hybr" % (n, th))
        rec.sample({"n": n, "model": case["v"][-1], "solution": [float(v) for v in x]})
    elif k == "options":
        ths = [vector(D, ("dense", m, .4)) for m in range(3)]
        X = np.array(list(itertools.product((-1, 1), repeat=n)) + [[1] * n] * 2)
        withs = env.quietly(S.Enumerate, X, iprint=False)
        for th in ths:
            c = F.obs(th)
            for nm, kw in (("guess", {"initial_guess": np.full(D, .2)}), ("free", {"max_param_value": None}),
                           ("output", {"full_output": True}), ("hybr", {"scipy_solver_kwargs": {"method": "hybr"}})):
                g = env.quietly(en.solve, constraints=c.copy(), **kw)
                x = g[0] if nm == "output" else g
                rec.trans()
                judge(rec, "options:" + nm, F, every, x, c, th, "n=%d %s" % (n, nm), 1e-5, 1e-3)
            for cap in (50, None):
                x = env.quietly(en.solve, constraints=c.copy(), use_root=False, max_param_value=cap,
                                scipy_solver_kwargs={"method": "Nelder-Mead", "options": {"maxiter": 20000, "maxfev": 20000, "xatol": 1e-9, "fatol": 1e-9, "adaptive": True}})
                rec.trans()
                judge(rec, "options:minimize", F, every, x, c, None, "n=%d minimize" % n, 1e-3, 1e-2)
            # constraints given explicitly override those of the sample
            x = env.quietly(withs.solve, constraints=c.copy())
            judge(rec, "options:override", F, every, x, c, th, "explicit constraints with a sample, n=%d" % n)
            # a model object given by the user, with other parameters, does not matter
            m = env.quietly(ctx.models.Ising, vector(D, ("dense", 2, 1.)))
            x = env.quietly(env.quietly(S.Enumerate, X, model=m, iprint=False).solve, constraints=c.copy())
            judge(rec, "options:model", F, every, x, c, th, "user's model, n=%d" % n)
            rec.state(len(F.S))
            rec.trace()
        ref = X.mean(0)
        x = env.quietly(withs.solve)
        c = np.array([np.prod(X[:, list(t)], axis=1).mean() for t in F.names])
        judge(rec, "options:sample", F, every, x, c, None, "sample constraints")
    elif k == "sample":
        for counts in case["v"]:
            X = np.repeat(F.S, counts, axis=0)
            p = np.array(counts) / 8
            lp = np.log(p)
            # the unique solution for two spins: log-probabilities are linear in the parameters
            true = (F.O.T @ lp) / 4
            for Y in (X, X[::-1].copy()):
                s = env.quietly(S.Enumerate, Y, iprint=False)
                x = env.quietly(s.solve)
                rec.trans()
                judge(rec, "sample", F, every, x, p @ F.O, true, "sample counts %s" % (counts,))
            rec.state(4)
            rec.trace()
    elif k == "sparse":
        X = np.array(list(itertools.product((-1, 1), repeat=n)) + [[1] * n, [-1] + [1] * (n - 1)])
        cs = X[:, :0]
        cs = np.array([np.prod(X[:, list(t)], axis=1).mean() for t in F.names])
        for sub in case["subs"]:
            sub = list(sub)
            th = np.zeros(D)
            th[sub] = vector(D, ("dense", len(sub) % 3, .5))[sub]
            c = F.obs(th)[sub]
            for perm in {tuple(sub), tuple(sub[::-1]), tuple(sub[1:] + sub[:1])}:
                s = env.quietly(S.SparseEnumerate, n, parameter_ix=np.array(perm), iprint=False)
                cc = c.copy()
                cc.setflags(write=False)
                x = env.quietly(s.solve, constraints=cc)
                rec.trans()
                if rec.check(np.shape(x) == (len(sub),), "sparse:shape", "%s parameters for %s" % (np.shape(x), perm)):
                    judge(rec, "sparse", F, sub, x, c, th, "n=%d selected %s" % (n, perm))
                    full = np.asarray(s.fill_in(x), dtype=float)
                    want = np.zeros(D)
                    want[sub] = x
                    rec.check(np.array_equal(full, want), "sparse:fill", "n=%d selected %s filled in: %s" % (n, perm, full))
            s = env.quietly(S.SparseEnumerate, X.copy(), parameter_ix=np.array(sub[::-1]), iprint=False)
            x = env.quietly(s.solve)
            judge(rec, "sparse:sample", F, sub, x, cs[sub], None, "n=%d selected %s from a sample" % (n, sub))
            x = env.quietly(s.solve, constraints=c.copy(), initial_guess=np.full(len(sub), .1), max_param_value=None)
            judge(rec, "sparse:override", F, sub, x, c, th, "n=%d selected %s, explicit constraints with a sample" % (n, sub))
            g = env.quietly(s.solve, constraints=c.copy(), full_output=True)
            rec.check(isinstance(g, tuple) and len(g) == 2 and np.array_equal(g[0], s.multipliers) and np.array_equal(g[1]["x"], g[0]), "sparse:output",
                      lambda: "n=%d selected %s: full output %s" % (n, sub, g))
            rec.state(len(F.S))
            rec.trace()
        rec.sample({"n": n, "selected": sub, "solution": [float(v) for v in x]})
    elif k == "cap":
        # a bound on the parameters that the exact solution violates, or respects
        nm = {"method": "Nelder-Mead", "options": {"maxiter": 4000, "maxfev": 4000, "xatol": 1e-9, "fatol": 1e-9, "adaptive": True}}
        sub = sorted({case["i"], (case["i"] + 1) % D})
        whole, part = env.quietly(S.Enumerate, n, iprint=False), env.quietly(S.SparseEnumerate, n, parameter_ix=np.array(sub), iprint=False)
        for v, cap in ((1.2, .7), (-1.2, .7), (.6, .7), (-.6, None), (1.2, None)):
            th = vector(D, ("unit", case["i"], v))
            for nme, s, sel in (("full", whole, every), ("sparse", part, sub)):
                c = F.obs(th)[sel]
                what = "n=%d %s solver, parameter %d equal to %g and bound %s" % (n, nme, case["i"], v, cap)
                x = env.quietly(s.solve, constraints=c.copy(), max_param_value=cap, use_root=False, scipy_solver_kwargs=nm)
                rec.trans()
                if cap is None or abs(v) <= cap:
                    if nme == "sparse" or n == 2:
                        judge(rec, "cap:minimize", F, sel, x, c, th, what, 1e-4, 1e-3)
                if cap is not None:
                    rec.check(np.abs(x).max() <= cap, "cap:minimize", lambda: "%s: minimisation returns %s" % (what, x))
                try:
                    x, soln = env.quietly(s.solve, constraints=c.copy(), max_param_value=cap, full_output=True)
                    ok = bool(soln["success"])
                except ValueError:
                    ok = False
                if ok:
                    rec.check(cap is None or np.abs(x).max() <= cap, "cap:root", lambda: "%s: root finder reports success with %s" % (what, x))
                    judge(rec, "cap:root", F, sel, x, c, th, what)
            rec.state()
        rec.trace()
    elif k == "near":
        # starting points close to the solution, and a bound on every single parameter just above the largest one
        pick = sorted({0, n, D - 1})
        whole, part = env.quietly(S.Enumerate, n, iprint=False), env.quietly(S.SparseEnumerate, n, parameter_ix=np.array(pick), iprint=False)
        for m in range(3):
            th = vector(D, ("dense", m, .4))
            sp = np.zeros(D)
            sp[pick] = th[pick]
            for d in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7):
                for cap in (50, None, 1.05 * np.abs(th).max()):
                    for meth in (None, {"method": "hybr", "tol": 1e-13}):
                        for nme, s, sel, t in (("full", whole, every, th), ("sparse", part, pick, sp)):
                            c = F.obs(t)[sel]
                            kw = {} if meth is None else {"scipy_solver_kwargs": meth}
                            guess = t[sel] + d * np.where(np.arange(len(sel)) % 2, 1, -1)
                            what = "n=%d %s solver from %g beside the solution %s, bound %s, %s" % (n, nme, d, t, cap, meth)
                            try:
                                x, soln = env.quietly(s.solve, initial_guess=guess.copy(), constraints=c.copy(), max_param_value=cap, full_output=True, **kw)
                                y = env.quietly(s.solve, initial_guess=guess.copy(), constraints=c.copy(), max_param_value=cap, **kw)
                            except ValueError:
                                rec.add("default_root_finder_gave_up")
                                continue
                            rec.trans(2)
                            if rec.check(bool(soln["success"]) or meth is not None, "near:found", "%s: no solution found" % what):
                                judge(rec, "near", F, sel, x, c, t, what, 1e-10, 1e-8)
                                judge(rec, "near", F, sel, y, c, t, what, 1e-10, 1e-8)
            rec.state(len(F.S))
            rec.trace()
    elif k == "refuse":
        for f in (lambda: env.quietly(S.Enumerate, 3, iprint=False).solve(),
                  lambda: env.quietly(S.SparseEnumerate, 3, parameter_ix=np.array([0]), iprint=False).solve(),
                  lambda: S.SparseEnumerate(3, iprint=False),
                  lambda: env.quietly(S.Enumerate, 3, iprint=False).solve(constraints=np.zeros(6), initial_guess=np.zeros(5))):
            try:
                f()
                rec.bad("refuse", "an impossible request is answered")
            except Exception:
                rec.trans()
    else:
        F = Family(5, 1, 3)
        D = F.O.shape[1]
        th = vector(D, ("dense", case["m"], .15))
        c = F.obs(th)
        m = env.quietly(ctx.models.Triplet, [np.zeros(5), np.zeros(10), np.zeros(10)])
        s = env.quietly(S.Enumerate, model=m, calc_observables=ctx.utils.define_triplet_helper_functions()[1], iprint=False)
        x = env.quietly(s.solve, constraints=c.copy())
        judge(rec, "triplet", F, range(D), x, c, th, "triplet model")
        s = env.quietly(S.Enumerate, F.S.copy(), model=m, calc_observables=ctx.utils.define_triplet_helper_functions()[1], iprint=False)
        x = env.quietly(s.solve)
        judge(rec, "triplet:sample", F, range(D), x, np.zeros(D), np.zeros(D), "triplet model, uniform sample")
        rec.state(len(F.S))
        rec.trans(2)
        rec.trace()
