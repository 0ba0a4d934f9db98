"""C09: converting parameters or correlations between bases preserves the model."""
import itertools
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: the distribution over all states of the model before and after conversion is computed from the "
             "definition and compared state by state; correlations are converted for every extreme point of the space of distributions")
RULE = ("case = converter x size x direction x block of parameter vectors / distributions; every input form is converted and all states are compared")
BOUNDS = {"quick": "pairwise n=1..6, general orders 1..4 with n<=5 (every unit vector, every pair of units for small n, dense vectors); correlations: every "
                   "point mass, every two-point distribution, uniform and dense distributions for n=1..5; some of each for up to 33 units; directions, vector and matrix form, joined output",
          "thorough": "pairwise n<=8, general orders up to 5 with n<=6, correlations n<=6 with all three-point distributions up to n=3"}
ASSUMPTIONS = ["the conversions are affine, so unit vectors plus generic dense vectors (parameters) and point masses (correlations) separate all coefficients"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 9 if th else 7):
        D = nparam(n, 2)
        vs = vectors(D, ["zero", "unit", "dense"], dense=16) + (vectors(D, ["pair"]) if n <= 4 or th else [])
        for to in ("01", "11"):
            for b in blocks(vs, 100):
                yield {"k": "pair", "n": n, "to": to, "v": b}
    for n in range(1, 7 if th else 6):
        for order in range(1, min(n, 5 if th else 4) + 1):
            D = nparam(n, order)
            vs = vectors(D, ["zero", "unit", "dense"], dense=16)
            for to in ("01", "11"):
                for b in blocks(vs, 40):
                    yield {"k": "general", "n": n, "order": order, "to": to, "v": b}
    for n in range(1, 7 if th else 6):
        for to in ("01", "11"):
            yield {"k": "corr", "n": n, "to": to, "three": th and n <= 3}
    # larger systems: the states with up to `order` units changed determine all parameters
    for to in ("01", "11"):
        for n in (9, 12, 20, 33) + ((64,) if th else ()):
            D = nparam(n, 2)
            vs = [("zero",), ("unit", 0, 1.), ("unit", D - 1, -1.), ("unit", n, 2.)] + [("dense", m, sc) for m in (0, 1, 2) for sc in (.1, 1., 20.)]
            yield {"k": "pair", "n": n, "to": to, "v": vs, "wide": 1}
            yield {"k": "corr", "n": n, "to": to, "three": False, "wide": 1}
        for n, order in ((7, 3), (11, 3), (16, 2), (9, 4)):
            D = nparam(n, order)
            vs = [("zero",), ("unit", 0, 1.), ("unit", D - 1, -1.), ("unit", n, 2.)] + [("dense", m, sc) for m in (0, 1, 2) for sc in (.1, 1., 20.)]
            yield {"k": "general", "n": n, "order": order, "to": to, "v": vs, "wide": 1}


def few(n, order):
    """states (0/1) with at most `order` units on, and some others"""
    out = [[int(i in c) for i in range(n)] for o in range(order + 1) for c in itertools.combinations(range(n), o)]
    return np.array(out + some_states(n, (0, 1)).tolist())


def same(rec, tag, a, b, tol, what):
    d = np.abs(np.asarray(a) - np.asarray(b)).max() if len(a) else 0.
    rec.check(d < tol, tag, "deviation %g: %s" % (d, what))


def frozen(*arrs):
    out = []
    for a in arrs:
        a = np.array(a)
        a.setflags(write=False)
        out.append(a)
    return out


def run_case(case, rec, ctx):
    u = ctx.utils
    k, n, to = case["k"], case["n"], case["to"]
    src, dst = (0, 1) if to == "11" else (1, 0)
    back = "01" if to == "11" else "11"
    if k in ("pair", "general"):
        order = case.get("order", 2)
        S = few(n, order) if "wide" in case else None
        fs, fd = (Family(n, b, order, S=S if S is None or not b else 2 * S - 1) for b in (src, dst))
        D = nparam(n, order)
        for spec in case["v"]:
            th = vector(D, spec)
            rec.state(len(fs.S))
            rec.trans(3)
            rec.trace()
            ref = fs.p(th)
            what = "n=%d to %s, parameters %s" % (n, to, spec)
            if k == "pair":
                h, J = th[:n].copy(), th[n:].copy()
                M = np.zeros((n, n))
                M[np.triu_indices(n, 1)] = J
                M = M + M.T
                outs = {"vector": u.convert_params(*frozen(h, J), to)}
                if n > 1:
                    outs["matrix"] = u.convert_params(*frozen(h, M), to)
                cat = u.convert_params(*frozen(h, J), to, concat=True)
                rec.check(np.shape(cat) == (D,), "pair:shape", "joined output has shape %s" % (np.shape(cat),))
                outs["joined"] = (cat[:n], cat[n:])
                for f, (h2, J2) in outs.items():
                    h2, J2 = np.asarray(h2), np.asarray(J2)
                    if not rec.check(h2.shape == (n,) and J2.shape == (D - n,), "pair:shape", "%s: shapes %s %s" % (f, h2.shape, J2.shape)):
                        continue
                    same(rec, "pair:law:" + f, fd.p(np.concatenate((h2, J2))), ref, 1e-9, what + " (%s form)" % f)
                    same(rec, "pair:energy:" + f, fd.e, fs.e, 1e-9 * (1 + np.abs(th).sum()), what + " (%s form)" % f)
                    hb, Jb = u.convert_params(h2, J2, back)
                    same(rec, "pair:back:" + f, np.concatenate((hb, Jb)), th, 1e-9 * (1 + np.abs(th).max()), what)
            else:
                parts = u.split_concat_params(th, n)
                forms = {"arrays": tuple(frozen(*parts)), "lists": tuple(list(x) for x in parts)}
                for f, arg in forms.items():
                    out = u.ising_convert_params(arg, to)
                    if not rec.check(len(out) == order and all(len(o) == len(p) for o, p in zip(out, parts)), "general:shape",
                                     "%s" % [len(o) for o in out]):
                        continue
                    cat = np.concatenate([np.asarray(o, dtype=float) for o in out])
                    same(rec, "general:law:%s" % f, fd.p(cat), ref, 1e-9, what + " order %d" % order)
                    same(rec, "general:energy:%s" % f, fd.e, fs.e, 1e-9 * (1 + np.abs(th).sum()), what + " order %d" % order)
                    joined = u.ising_convert_params(arg, to, concat=True)
                    same(rec, "general:joined", joined, cat, 1e-12, what)
                    hb = u.ising_convert_params(tuple(np.asarray(o) for o in out), back, concat=True)
                    same(rec, "general:back", hb, th, 1e-8 * (1 + np.abs(th).max()), what)
                if order == 2:
                    h2, J2 = u.convert_params(parts[0].copy(), parts[1].copy(), to)
                    same(rec, "general:agree", np.concatenate((h2, J2)), cat, 1e-9 * (1 + np.abs(th).max()), what)
        rec.sample({"converter": k, "n": n, "to": to, "parameters": case["v"][0]})
        return
    S = few(n, 1) if "wide" in case else None
    fs, fd = (Family(n, b, 2, S=S if S is None or not b else 2 * S - 1) for b in (src, dst))
    N = len(fs.S)
    dists = [np.eye(N)[i] for i in range(N)]
    dists += [np.eye(N)[i] * .25 + np.eye(N)[j] * .75 for i in range(N) for j in range(N) if i != j and N <= 16]
    if case["three"]:
        dists += [np.eye(N)[i] * .5 + np.eye(N)[j] * .3 + np.eye(N)[l] * .2 for i, j, l in itertools.permutations(range(N), 3)]
    dists += [np.ones(N) / N] + [fs.p(vector(nparam(n, 2), ("dense", m, sc))) for m in range(4) for sc in (.3, 1., 3.)]
    for p in dists:
        rec.state()
        rec.trans()
        rec.trace()
        a, b = p @ fs.O, p @ fd.O
        for integer in ((False, True) if set(p) <= {0., 1.} else (False,)):
            x = a.astype(int) if integer else a
            si, sij = frozen(x[:n], x[n:])
            g = u.convert_corr(si, sij, to)
            same(rec, "corr:value", np.concatenate(g), b, 1e-9, "n=%d to %s p=%s integer=%s" % (n, to, p, integer))
            cat = u.convert_corr(si, sij, to, concat=True)
            same(rec, "corr:joined", cat, b, 1e-9, "n=%d to %s p=%s" % (n, to, p))
            same(rec, "corr:keyword", u.convert_corr(si, sij, convertTo=to, concat=True), b, 1e-9, "deprecated keyword")
            gb = u.convert_corr(np.asarray(g[0]), np.asarray(g[1]), back, concat=True)
            same(rec, "corr:back", gb, a, 1e-9, "n=%d to %s p=%s" % (n, to, p))
    for bad in ("10", 11, None):
        for f in (lambda: u.convert_corr(np.zeros(n), np.zeros(n * (n - 1) // 2), bad),
                  lambda: u.convert_params(np.zeros(n), np.zeros(n * (n - 1) // 2), bad)):
            try:
                f()
                rec.bad("refuse", "target basis %r is accepted" % (bad,))
            except Exception:
                pass
