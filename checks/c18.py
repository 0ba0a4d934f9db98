"""C18: Monte Carlo histogram fitting reports honestly when it converged."""
import functools, itertools, math
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: a model object whose sampler is replaced by the explorer returns every sequence of samples of an alphabet; the real "
             "solver runs to the end on each and its whole history (parameters asked for, errors, flag, final sample) is compared with a reference machine")
RULE = "case = solver x settings; inside, every sequence of samples from the alphabet (depth-first over the answers actually asked for)"
BOUNDS = {"quick": "2 spins: alphabet of 4 samples of 4 rows, <=3 rounds, 5 tolerance pairs x 6 step settings x start x {all, 3 subsets of parameters}; 3 spins and Potts: alphabet of 3",
          "thorough": "<=4 rounds, alphabet of 5, every parameter subset, 3 spins alphabet of 4, sample sizes changing per round"}
ASSUMPTIONS = ["an error or a parameter step that equals its tolerance or limit up to rounding is not judged"]
CHUNK = 1

ROWS2 = [(-1, -1), (-1, 1), (1, -1), (1, 1)]


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers"))
    u, m = ctx.utils, ctx.models
    u.define_ising_helper_functions()

    def scripted(base):
        class Scripted(base):
            """a model whose samples are chosen by the explorer"""
            def script(self, next_sample):
                self._next, self.log = next_sample, []

            def generate_sample(self, n_iters, burn_in, multipliers=None, sample_size=None, sample_method=None, parallel=True, generate_kwargs={}):
                lam = np.array(self.multipliers if multipliers is None else multipliers, dtype=float)
                self.sample = self._next(lam, sample_size or self.sampleSize).copy()
                self.log.append((lam, n_iters, burn_in, sample_size or self.sampleSize, dict(generate_kwargs), self.sample.copy()))
        return Scripted
    ctx.scripted = {"ising": scripted(m.Ising), "potts": scripted(m.Potts3)}


TOLS = [(None, None), (.9, 1.1), (.3, 10.), (10., .6), (0, None), (10., 0)]
STEPS = [{"maxdlamda": 1, "eta": 1}, {"maxdlamda": .2, "eta": .1}, {"maxdlamda": 10, "eta": .5, "maxdlamdaNorm": .4}, {"maxdlamda": 5, "eta": .05, "maxLearningSteps": 3},
         {"maxdlamda": .05, "eta": 1.}, {"maxdlamda": 5, "maxdlamdaNorm": 5, "eta": .2, "maxLearningSteps": 1}]


def cases(tier):
    th = tier == "thorough"
    for fam, n in (("ising", 2), ("ising", 3), ("potts", 2)):
        D = nparam(n, 2, 3 if fam == "potts" else None)
        small = fam == "potts" or n == 3
        subs = [None] + ([c for m in range(1, D + 1) for c in itertools.combinations(range(D), m)] if th and not small else
                         [(0,), (D - 1, 0), (1, D - 1)] if not small else [(D - 1, 1), (2,)])
        for sub in subs:
            for tol in TOLS:
                for si, step in enumerate(STEPS):
                    if small and (si + TOLS.index(tol)) % 2:
                        continue
                    yield {"fam": fam, "n": n, "sub": sub, "tol": tol, "steps": [si], "rounds": (2 if small else 3) + th, "alpha": (3 if small else 4) + th}
            yield {"fam": fam, "n": n, "sub": sub, "tol": TOLS[1], "steps": [0, 1, 3], "sizes": [4, 6, 5, 7], "rounds": 3, "alpha": 3}
            yield {"fam": fam, "n": n, "sub": sub, "tol": TOLS[2], "steps": [2, 0, 1], "dicts": True, "rounds": 3, "alpha": 3}
    # larger systems and samples, more rounds (one script each)
    for fam, n, size in (("ising", 5, 120), ("ising", 8, 1001), ("ising", 11, 333), ("potts", 5, 300)):
        D = nparam(n, 2, 3 if fam == "potts" else None)
        for sub in (None, tuple(range(0, D, 3)), (D - 1, 0, D // 2)):
            for tol in (TOLS[0], TOLS[3]):
                for steps in ([1], [3], [5], [1, 3, 0, 5, 2, 4, 1, 0, 3, 3, 1, 1]):
                    yield {"fam": fam, "n": n, "sub": sub, "tol": tol, "steps": steps, "rounds": 12, "alpha": 6, "size": size}
    for n in (2, 3):
        yield {"jac": True, "n": n}
    yield {"refuse": True}


@functools.lru_cache(None)
def alphabet(fam, n, size, a):
    """samples: one matching the constraints, one close, others far and different"""
    F = Family(n, 1, 2) if fam == "ising" else PottsFamily(n, 3)
    m = len(F.S)
    base = F.S[[(i * 3 + 1) % m if i % 2 else i % m for i in range(size)]]
    out = [base]
    near = base.copy()
    near[0] = F.S[(list(map(tuple, F.S)).index(tuple(near[0])) + 1) % m]
    out.append(near)
    out.append(F.S[[(i * i + m - 1) % m for i in range(size)]])
    out.append(np.repeat(F.S[1:2], size, axis=0))
    out.append(F.S[[m - 1 - (i // 2) % m for i in range(size)]])
    out.append(F.S[[(2 * i + i // 3) % m for i in range(size)]])
    return out[:a], base


def reweigh(O, d):
    e = O @ d
    w = np.exp(e - e.max())
    return w @ O / w.sum()


def step(O, est, target, sel, D, maxdlamda=1, maxdlamdaNorm=1, maxLearningSteps=50, eta=1):
    """gradient moves scaled by the distance (at most 1) until a limit is passed"""
    d = np.zeros(len(target))
    dist = 1.
    k, tie = 0, False
    while True:
        d = d - (est - target) * min(dist, 1.) * eta
        full = np.zeros(D)
        full[sel] = d
        est = reweigh(O, full)[sel]
        dist = math.sqrt(((est - target) ** 2).sum())
        k += 1
        if math.sqrt((d ** 2).sum()) > maxdlamdaNorm or np.abs(d).max() > maxdlamda or k >= maxLearningSteps:
            tie = abs(math.sqrt((d ** 2).sum()) - maxdlamdaNorm) < 1e-9 or abs(np.abs(d).max() - maxdlamda) < 1e-9 or tie
            return full, est, tie
        tie = tie or abs(math.sqrt((d ** 2).sum()) - maxdlamdaNorm) < 1e-9 or abs(np.abs(d).max() - maxdlamda) < 1e-9


def near(rec, key, a, b, msg, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return rec.check(a.shape == b.shape and (b.size == 0 or np.abs(a - b).max() < tol * max(1, np.abs(b).max())), key,
                     lambda: "%s: got %s, expected %s" % (msg, a, b))


def run_case(case, rec, ctx):
    if "jac" in case:
        return jac(case, rec, ctx)
    if "refuse" in case:
        return refuse(rec, ctx)
    S, u = ctx.solvers, ctx.utils
    fam, n = case["fam"], case["n"]
    F = Family(n, 1, 2) if fam == "ising" else PottsFamily(n, 3)
    row = {tuple(s): i for i, s in enumerate(F.S.tolist())}
    D = F.O.shape[1]
    base = 2 if fam == "ising" else 3
    weight = base ** np.arange(n - 1, -1, -1)
    obs = lambda X: F.O[((np.asarray(X) + (1 if base == 2 else 0)) // (2 if base == 2 else 1)).astype(int) @ weight]
    size0 = case.get("sizes", [4])[0] if fam == "ising" else 5
    size0 = case.get("size", size0)
    sizes = case.get("sizes")
    sub = case["sub"]
    sel = list(range(D)) if sub is None else sorted(sub)
    _, data = alphabet(fam, n, case.get("size", 6), 1)
    model = env.quietly(ctx.scripted[fam], np.zeros(D))
    helpers = (u.define_ising_helper_functions(), ) if fam == "ising" else (pottsh(ctx),)
    kw = {} if fam == "ising" else {"calc_observables": helpers[0][1], "mch_approximation": helpers[0][2]}
    if sub is None:
        sv = env.quietly(S.MCH, data, model=model, sample_size=size0, iprint=False, **kw)
    else:
        sv = env.quietly(S.SparseMCH, data, model=model, sample_size=size0, iprint=False, parameter_ix=np.array(sub), **kw)
    steps = [STEPS[i] for i in case["steps"]]
    tol, tolN = case["tol"]
    outcomes = set()
    for explicit, guess in ((False, None), (True, vector(D, ("dense", 1, .4))[sel])):
        target = obs(data).mean(0)[sel]
        if explicit:
            target = target * .5
        for rounds in range(1, case["rounds"] + 1):
            if (len(case["steps"]) == 1 or "size" in case) and rounds not in (1, case["rounds"]):
                continue
            for word in words(case["alpha"], rounds + (2 if sub is None else 1)) if "size" not in case else scripts:
                pos = [0]

                def give(lam, size):
                    w = word(pos[0])
                    pos[0] += 1
                    return alphabet(fam, n, size, 6)[0][w]
                model.script(give)
                model.sampleSize = size0
                opts = {"n_iters": 7, "burn_in": 11, "maxiter": rounds, "generate_kwargs": {"systematic_iter": True} if explicit else {}}
                if tol is not None:
                    opts["tol"] = tol
                if tolN is not None:
                    opts["tolNorm"] = tolN
                if explicit:
                    opts["constraints"] = target.copy()
                    opts["initial_guess"] = guess.copy()
                    opts["initial_guess"].setflags(write=False)
                    opts["constraints"].setflags(write=False)
                if len(steps) > 1 and not sizes:
                    opts["custom_convergence_f"] = lambda i: dict(steps[min(i, len(steps) - 1)])
                elif sizes:
                    opts["custom_convergence_f"] = lambda i: (dict(steps[min(i, len(steps) - 1)]), sizes[min(i + 1, len(sizes) - 1)])
                else:
                    opts["learn_params_kwargs"] = dict(steps[0])
                x, flag, errors = env.quietly(sv.solve, full_output=True, **opts)
                log = model.log
                rec.trans(len(log))
                # reference machine
                lam = np.zeros(D)
                if explicit:
                    lam[sel] = guess
                t = tol if tol is not None else 1 / math.sqrt(size0)
                tN = tolN if tolN is not None else math.sqrt(1 / size0) * D if sub is not None else math.sqrt(1 / size0) * len(sel)
                what = "sub=%s tol=%s steps=%s maxiter=%d samples %s" % (sub, case["tol"], case["steps"], rounds, [word(i) for i in range(len(log))])
                want_flag, errs, size, doubt = None, [], size0, False
                i = 0
                while True:
                    if not rec.check(i < len(log), "rounds", "%s: stopped sampling after %d rounds" % (what, len(log))):
                        break
                    near(rec, "asked:parameters", log[i][0], lam, "%s, round %d" % (what, i))
                    rec.check(log[i][1:3] == (7, 11) and log[i][4] == opts["generate_kwargs"], "asked:options", "%s: %s" % (what, log[i][1:5]))
                    rec.check(log[i][3] == size, "asked:size", "%s: round %d drew %d samples instead of %d" % (what, i, log[i][3], size))
                    O = obs(log[i][5])
                    est = O.mean(0)[sel]
                    errs.append(est - target)
                    e, en = np.abs(errs[-1]).max(), math.sqrt((errs[-1] ** 2).sum())
                    doubt = doubt or abs(e - t) < 1e-9 or abs(en - tN) < 1e-9
                    if i > 0 and e < t and en < tN:
                        want_flag = 0
                        break
                    if i >= rounds:
                        want_flag = 1
                        break
                    if doubt and i > 0:
                        break
                    if sizes:
                        size = sizes[min(i + 1, len(sizes) - 1)]
                    d, _, tie = step(O, est, target, sel, D, **steps[min(i, len(steps) - 1)])
                    if tie:
                        doubt = True
                        break
                    lam = lam + d
                    i += 1
                if doubt or want_flag is None:
                    rec.add("not_judged_tie")
                    continue
                outcomes.add((want_flag, len(errs)))
                rec.check(flag == want_flag, "flag", "%s: flag %s instead of %s (errors %s, tolerances %s %s)" % (what, flag, want_flag, errs[-1], t, tN))
                near(rec, "errors", errors, np.array(errs), what)
                near(rec, "returned", x, lam[sel], what)
                near(rec, "kept", sv.multipliers, lam, what)
                if sub is not None:
                    rest = np.delete(sv.multipliers, sel)
                    rec.check((rest == 0).all(), "sparse:zero", "%s: parameters that are not selected: %s" % (what, rest))
                # any further sampling is at the returned parameters
                for q in log[len(errs):]:
                    near(rec, "final:parameters", q[0], lam, what)
                rec.check(len(log) <= rounds + 2, "rounds", "%s: %d samplings" % (what, len(log)))
                rec.check(model.sample is not None and np.array_equal(model.sample, log[-1][5]), "final:sample", what)
                rec.trace()
                rec.state()
    rec.sample({"settings": case, "outcomes (flag, errors logged)": sorted(outcomes)})


# late convergence, none, the same sample again and again
scripts = [lambda i: (3, 5, 2, 1, 4, 1, 5, 2, 0, 0, 0, 0, 0, 0)[i], lambda i: 2 + i * i % 4, lambda i: 1]


def words(k, length):
    """all words of the alphabet; identical prefixes that stop early are visited once"""
    stack = [()]
    while stack:
        pre = stack.pop()
        used = [0]

        def letter(i, pre=pre, used=used):
            used[0] = max(used[0], i + 1)
            return pre[i] if i < len(pre) else 0
        yield letter
        for j in range(len(pre), min(used[0], length)):
            for a in range(1, k):
                stack.append(pre + (0,) * (j - len(pre)) + (a,))


def pottsh(ctx):
    if not hasattr(ctx, "_ph"):
        ctx._ph = ctx.utils.define_potts_helper_functions(3)
    return ctx._ph


def jac(case, rec, ctx):
    S, n = ctx.solvers, case["n"]
    F = Family(n, 1, 2)
    D = F.O.shape[1]
    row = {tuple(s): i for i, s in enumerate(F.S.tolist())}
    model = env.quietly(ctx.models.Ising, np.zeros(D))
    for a in range(4):
        X = F.S[[(i * (a + 2) + i * i) % len(F.S) for i in range(9 + a)]]
        sv = env.quietly(S.MCH, X, model=model, sample_size=len(X), iprint=False)
        sv.model.sample = X.copy()
        sv._multipliers = vector(D, ("dense", a % 3, .5))
        O = F.O[[row[tuple(s)] for s in X.tolist()]]
        cov = O.T @ O / len(O) - np.outer(O.mean(0), O.mean(0))
        near(rec, "jacobian", env.quietly(sv.estimate_jac), cov, "sample %s" % X.tolist(), 1e-5)
        rec.trans()
        for sel in (None, [0], [D - 1, 1] if D > 3 else [2, 1]):
            ix = list(range(D)) if sel is None else sorted(sel)
            if sel is not None:
                sv = env.quietly(S.SparseMCH, X, model=model, sample_size=len(X), iprint=False, parameter_ix=np.array(sel))
                sv.model.sample = X.copy()
            target = F.obs(vector(D, ("dense", 2, .7)))[ix]
            start = vector(D, ("dense", 1, .2))
            for st in STEPS:
                sv._multipliers = start.copy()
                est = env.quietly(sv.learn_parameters_mch, O.mean(0)[ix], target, **st)
                d, e, tie = step(O, O.mean(0)[ix], target, ix, D, **st)
                if tie:
                    continue
                near(rec, "step:predicted", est, e, "step %s" % st)
                near(rec, "step:parameters", sv._multipliers, start + d, "step %s" % st)
                rec.trans()
        rec.state()
        rec.trace()


def refuse(rec, ctx):
    S = ctx.solvers
    X = np.array(ROWS2)
    for f in (lambda: S.SparseMCH(X, iprint=False), lambda: S.MCH(X, sample_size=0, iprint=False),
              lambda: env.quietly(S.SparseMCH, X, iprint=False, parameter_ix=np.array([0])).solve(initial_guess=np.zeros(2)),
              lambda: env.quietly(S.MCH, X, iprint=False).solve(initial_guess=np.zeros(2))):
        try:
            env.quietly(f)
            rec.bad("refuse", "an impossible request is answered")
        except Exception:
            rec.trans()
