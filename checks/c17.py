"""C17: the adaptive cluster expansion is exact without truncation and truncates as defined."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of small data sets x every threshold that separates two cluster contributions: the expansion is recomputed "
             "from its definition (exact maximum-entropy model of each subset of units, Moebius inversion, recursive selection) and compared")
RULE = "case = size x block of data sets; each x {independent, mean-field reference} x {zero, every separating, infinite threshold} x {selected units}"
BOUNDS = {"quick": "2 spins: all count vectors in {1,2,3}^4; 3 spins: 40 full-support count vectors; 4 spins: 12, 5 spins: 2; every separating threshold; subsets of units; unit orders; 4 combinations of priors and every continuation from the contributions of another threshold for 2, 3 and 4 spins",
          "thorough": "3 spins: all of {1,2}^8; 4 spins: 60; 5 spins: 8; 6 spins: 1"}
ASSUMPTIONS = ["all states occur in the data, so that every sub-model has finite parameters",
               "thresholds within 1e-7 of a contribution are not judged (the comparison is then decided by rounding)"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers", "mean_field_ising"))
    ctx.utils.define_ising_helper_functions()


def big(n, a):
    """count vectors with every state present and different interactions for every a"""
    return tuple(1 + ((a * a + 3) * i * i + (2 * a + 1) * i + a) % 7 // 2 + 3 * (bin(i).count("1") in ((0, n) if a % 2 else (1, n))) for i in range(2 ** n))


def cases(tier):
    th = tier == "thorough"
    cs = list(itertools.product((1, 2, 3), repeat=4))
    for b in blocks(cs, 9):
        yield {"n": 2, "counts": b}
    cs = list(itertools.product((1, 2), repeat=8))
    cs = cs if th else cs[::7] + [tuple(range(1, 9)), tuple(range(8, 0, -1)), (4, 1, 1, 1, 1, 1, 1, 4)]
    for b in blocks(cs, 4):
        yield {"n": 3, "counts": b}
    for b in blocks([big(4, a) for a in range(60 if th else 12)], 1):
        yield {"n": 4, "counts": b}
    for b in blocks([big(5, a) for a in range(8 if th else 2)], 1):
        yield {"n": 5, "counts": b}
    if th:
        yield {"n": 6, "counts": [big(6, 1)]}
    yield {"n": 3, "counts": [(4, 1, 1, 1, 1, 1, 1, 4), (1, 2, 1, 3, 2, 1, 1, 2)], "pieces": True}
    yield {"n": 4, "counts": [big(4, 3)], "pieces": True}
    for n, cs in ((2, [(1, 2, 3, 1), (3, 1, 1, 3)]), (3, [(4, 1, 1, 1, 1, 1, 1, 4), (1, 2, 1, 3, 2, 1, 1, 2)]), (4, [big(4, 3)] + ([big(4, 5), big(4, 8)] if th else []))):
        for c in cs:
            for ref in ("independent", "mean field"):
                for pr, mf in ((0., None), (.5, None), (.5, 2.), (3., .1)):
                    yield {"n": n, "counts": [c], "prior": pr, "mfprior": mf, "ref": ref}


def maxent(c):
    """c: symmetric 0/1 co-occurrences -> entropy and symmetric matrix with E = sum_ij J_ij x_i x_j"""
    m = len(c)
    F = Family(m, 0, 2)
    target = np.array([c[t[0], t[-1]] for t in F.names])
    th = np.zeros(len(target))
    f = np.diag(c)
    th[:m] = np.log(f / (1 - f))

    def dual(th):
        e = F.O @ th
        return np.logaddexp.reduce(e) - target @ th
    for _ in range(300):
        p = F.p(th)
        g = p @ F.O - target
        if np.abs(g).max() < 1e-14:
            break
        H = (F.O * p[:, None]).T @ F.O - np.outer(p @ F.O, p @ F.O)
        step = np.linalg.solve(H, g)
        t, v = 1., dual(th)
        while dual(th - t * step) > v + 1e-14 and t > 1e-8:
            t /= 2
        th = th - t * step
    p = F.p(th)
    J = np.zeros((m, m))
    for t, v in zip(F.names, th):
        if len(t) == 1:
            J[t[0], t[0]] = -v
        else:
            J[t[0], t[1]] = J[t[1], t[0]] = -v / 2
    return -(p * np.log(p)).sum(), J


def meanfield(c):
    """Gaussian approximation: S = sum of single-unit entropies + log det(M)/2, couplings its derivatives"""
    p = np.diag(c)
    v = p * (1 - p)
    d = np.sqrt(np.outer(v, v))
    C = c - np.outer(p, p)
    M = C / d
    np.fill_diagonal(M, 1.)
    S = (-p * np.log(p) - (1 - p) * np.log(1 - p)).sum() + .5 * np.linalg.slogdet(M)[1]
    Jo = np.linalg.inv(M) / d
    np.fill_diagonal(Jo, 0)
    h = np.array([-math.log(p[i] / (1 - p[i])) + sum(Jo[i, j] * (C[i, j] * (p[i] - .5) / v[i] - p[j]) for j in range(len(p)) if j != i)
                  for i in range(len(p))])
    J = Jo / 2
    np.fill_diagonal(J, h)
    return S, J


def independent(c):
    p = np.diag(c)
    return (-p * np.log(p) - (1 - p) * np.log(1 - p)).sum(), np.diag(-np.log(p / (1 - p)))


class Expansion:
    def __init__(self, c, ref, exact=maxent):
        self.c, self.n, self.ref, self.exact = c, len(c), ref, exact
        self.d = {}

    def part(self, f, cl):
        s, j = f(self.c[np.ix_(cl, cl)])
        J = np.zeros((self.n, self.n))
        J[np.ix_(cl, cl)] = j
        return s, J

    def delta(self, cl):
        cl = tuple(sorted(cl))
        if cl not in self.d:
            s, J = self.part(self.exact, cl)
            a, b = self.part(self.ref, cl)
            s, J = s - a, J - b
            for m in range(1, len(cl)):
                for sub in itertools.combinations(cl, m):
                    a, b = self.delta(sub)
                    s, J = s - a, J - b
            self.d[cl] = s, J
        return self.d[cl]

    def select(self, T, units):
        kept = [[(i,) for i in units]]
        while kept[-1]:
            new = set()
            for a, b in itertools.combinations(kept[-1], 2):
                u = tuple(sorted(set(a) | set(b)))
                if len(u) == len(a) + 1 and abs(self.delta(u)[0]) > T:
                    new.add(u)
            kept.append(sorted(new))
        return [c for k in kept for c in k]

    def result(self, kept, units):
        s, J = self.part(self.ref, list(units))
        for c in kept:
            a, b = self.delta(c)
            s, J = s + a, J + b
        return s, J


def to_pm(ctx, J):
    n = len(J)
    h = -np.diag(J)
    c = -2 * J[np.triu_indices(n, 1)]
    # 0/1 -> +-1 : x = (1+s)/2
    H, k = h / 2, 0
    for a, b in itertools.combinations(range(n), 2):
        H[a] += c[k] / 4
        H[b] += c[k] / 4
        k += 1
    return np.concatenate([H, c / 4])


def near(rec, key, a, b, msg, tol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return rec.check(a.shape == b.shape and np.abs(a - b).max() < tol * max(1, np.abs(b).max()), key,
                     lambda: "%s: got %s, definition gives %s" % (msg, a, b))


def run_case(case, rec, ctx):
    n = case["n"]
    st = np.array(list(itertools.product((-1, 1), repeat=n)))
    for cnt in case["counts"]:
        X = np.repeat(st, cnt, axis=0)
        Z = (X + 1) // 2
        c = Z.T @ Z / len(Z)
        X.setflags(write=False)
        ace = env.quietly(ctx.solvers.ClusterExpansion, X, iprint=False, n_cpus=1)
        S, J = maxent(c)
        exact = to_pm(ctx, J)
        rec.state(2 ** n)
        rec.trace()
        if case.get("pieces"):
            pieces(rec, ctx, ace, c, cnt)
            continue
        if "prior" in case:
            E = regularised(rec, ctx, ace, c, cnt, case["prior"], case["mfprior"], case["ref"])
            continue
        for name, ref in (("independent", independent), ("mean field", meanfield)):
            kw = {} if name == "independent" else {"independentRef": False, "meanFieldRef": True}
            E = Expansion(c, ref)
            what = "counts %s, %s reference" % (cnt, name)
            # without truncation: exact
            x, ent, cl, dS, dJ = env.quietly(ace.solve, 0., full_output=True, **kw)
            rec.trans()
            near(rec, "exact:parameters", x, exact, what)
            near(rec, "exact:entropy", ent, S, what, 1e-7)
            near(rec, "exact:kept", ace.multipliers, x, what)
            x = env.quietly(ace.solve, -1., **kw)
            near(rec, "exact:parameters", x, exact, what + ", negative threshold")
            # every threshold between two contributions
            for c_ in [q for m in range(1, n + 1) for q in itertools.combinations(range(n), m)]:
                E.delta(c_)
            mags = sorted(abs(v[0]) for v in E.d.values())
            cuts = [(a + b) / 2 for a, b in zip(mags, mags[1:]) if b - a > 2e-7 and b > 1e-6] + [10 * mags[-1] + 1]
            if n > 4:
                cuts = cuts[::3]
            seen = set()
            for T in cuts:
                units = list(range(n))
                kept = E.select(T, units)
                if tuple(kept) in seen:
                    continue
                seen.add(tuple(kept))
                rs, rJ = E.result(kept, units)
                x, ent, cl, dS, dJ = env.quietly(ace.solve, T, full_output=True, **kw)
                got = sorted(tuple(sorted(int(i) for i in q)) for k in cl.values() for q in k)
                rec.trans()
                w = "%s threshold %.3g" % (what, T)
                if rec.check(got == sorted(kept), "truncated:clusters", "%s: kept %s instead of %s" % (w, got, sorted(kept))):
                    near(rec, "truncated:entropy", ent, rs, w, 1e-6)
                    near(rec, "truncated:parameters", x, to_pm(ctx, rJ), w)
                    for q in kept:
                        near(rec, "truncated:contribution", dS[q], E.delta(q)[0], w + " cluster %s" % (q,), 1e-6)
                        near(rec, "truncated:contribution", dJ[q], E.delta(q)[1], w + " cluster %s" % (q,), 1e-5)
            # selected units only, in any order of mention
            for m in range(2, n + 1):
                for sub in itertools.combinations(range(n), m):
                    if n > 4 and sub[0] > 0:
                        continue
                    s, j = E.part(maxent, list(sub))
                    for order in {sub, sub[::-1], sub[1:] + sub[:1]}:
                        x, ent, cl, dS, dJ = env.quietly(ace.solve, 0., cluster=list(order), full_output=True, **kw)
                        rec.trans()
                        near(rec, "subset:parameters", x, to_pm(ctx, j), what + " units %s" % (order,))
                        near(rec, "subset:entropy", ent, s, what + " units %s" % (order,), 1e-7)
            # renaming the units renames the result
            for perm in (list(range(n))[::-1], list(range(1, n)) + [0]):
                Y = np.ascontiguousarray(X[:, perm][::-1])
                T = cuts[len(cuts) // 2]
                a = env.quietly(ctx.solvers.ClusterExpansion, Y, iprint=False, n_cpus=1)
                x = env.quietly(a.solve, T, **kw)
                rs, rJ = E.result(E.select(T, range(n)), list(range(n)))
                near(rec, "order", x, to_pm(ctx, rJ[np.ix_(perm, perm)]), what + " units in order %s threshold %.3g" % (perm, T))
        for bad in ({"independentRef": True, "meanFieldRef": True},):
            try:
                env.quietly(ace.solve, 0., **bad)
                rec.bad("refuse", "two references are accepted")
            except Exception:
                rec.trans()
    rec.sample({"counts": list(cnt), "contributions": {str(k): float(v[0]) for k, v in list(E.d.items())[:8]}} if not case.get("pieces") else {"counts": list(cnt)})


def regularised(rec, ctx, ace, c, cnt, prior, mfprior, name):
    """expansions with a prior, and expansions that go on from the contributions of earlier ones"""
    n, ns = len(c), int(sum(cnt))
    kw = dict({} if name == "independent" else {"independentRef": False, "meanFieldRef": True}, priorLmbda=prior, meanFieldPriorLmbda=mfprior, numSamples=ns)
    lam = prior if mfprior is None else mfprior

    def whole(m):
        # the regularised entropy of a set of units is defined by the solver itself; only the expansion is judged
        return env.quietly(ace.S, list(range(len(m))), m, priorLmbda=prior, numSamples=ns)

    def gauss(m):
        return ctx.mean_field_ising.SmeanField(list(range(len(m))), m, lam, ns)
    E = Expansion(c, independent if name == "independent" else gauss, whole)
    for m in range(1, n + 1):
        for q in itertools.combinations(range(n), m):
            E.delta(q)
    mags = sorted(abs(v[0]) for v in E.d.values())
    cuts = [0.] + [(a + b) / 2 for a, b in zip(mags, mags[1:]) if b - a > 2e-6 and b > 1e-5] + [10 * mags[-1] + 1]
    cuts = cuts if n < 4 else cuts[:2] + cuts[2::3]
    for T in cuts:
        kept = E.select(T, range(n))
        if T == 0 and any(abs(E.d[q][0]) < 1e-6 for q in E.d if len(q) > 1):
            continue
        rs, rJ = E.result(kept, range(n))
        w = "counts %s, %s reference, prior %g, mean-field prior %s, threshold %.3g" % (cnt, name, prior, mfprior, T)
        for T0 in [None] + cuts:
            memo = {}
            if T0 is not None:
                o = env.quietly(ace.solve, T0, full_output=True, **kw)
                memo = {"deltaSdict": dict(o[3]), "deltaJdict": dict(o[4])}
            x, ent, cl, dS, dJ = env.quietly(ace.solve, T, full_output=True, **memo, **kw)
            got = sorted(tuple(sorted(int(i) for i in q)) for k in cl.values() for q in k)
            rec.trans()
            v = w + ("" if T0 is None else ", continued from threshold %.3g" % T0)
            if rec.check(got == sorted(kept), "prior:clusters", "%s: kept %s instead of %s" % (v, got, sorted(kept))):
                near(rec, "prior:entropy", ent, rs, v, 1e-5)
                near(rec, "prior:parameters", x, to_pm(ctx, rJ), v, 1e-4)
                for q in kept:
                    near(rec, "prior:contribution", dS[q], E.delta(q)[0], v + " cluster %s" % (q,), 1e-5)
                    near(rec, "prior:contribution", dJ[q], E.delta(q)[1], v + " cluster %s" % (q,), 1e-4)
    return E


def pieces(rec, ctx, ace, c, cnt):
    """the parts of the expansion that users can call directly"""
    n = len(c)
    for form, mat in (("symmetric", c), ("upper triangle", np.triu(c))):
        mat = mat.copy()
        mat.setflags(write=False)
        for m in range(1, n + 1):
            for sub in itertools.combinations(range(n), m):
                sub = list(sub)
                s, j = maxent(c[np.ix_(sub, sub)])
                J = np.zeros((n, n))
                J[np.ix_(sub, sub)] = j
                for an in (False, True):
                    a, b = env.quietly(ace.S, list(sub), mat, useAnalyticResults=an)
                    rec.trans()
                    near(rec, "S", a, s, "%s cluster %s analytic=%s" % (form, sub, an), 1e-7)
                    near(rec, "S:couplings", b, J, "%s cluster %s analytic=%s" % (form, sub, an))
                a, b = ace.Sindependent(list(sub), mat)
                s0, j0 = independent(c[np.ix_(sub, sub)])
                J = np.zeros((n, n))
                J[np.ix_(sub, sub)] = j0
                near(rec, "Sindependent", a, s0, str(sub), 1e-9)
                near(rec, "Sindependent", b, J, str(sub), 1e-9)
        if form == "symmetric":
            E = Expansion(c, independent)
            for sub in itertools.permutations(range(n), min(n, 3)):
                a, b = env.quietly(ace.deltaS, list(sub), mat, iprint=False, independentRef=True)
                near(rec, "deltaS", a, E.delta(sub)[0], str(sub), 1e-7)
                near(rec, "deltaS", b, E.delta(sub)[1], str(sub))
                rec.trans()
    for m in range(0, n + 2):
        for L in (list(range(n)), list(range(n))[::-1], [7, 3, 5]):
            got = ace.subsets(list(L), m)
            want = [set(q) for q in itertools.combinations(L, m)] if 0 < m <= len(L) else []
            rec.check(len(got) == len(want) and sorted(map(sorted, got)) == sorted(map(sorted, want)), "subsets", "size %d of %s: %s" % (m, L, got))
            rec.check(L == list(L), "subsets:input", "the list was changed")
            got = np.asarray(ace.subsets(list(L), m, sort=True)).tolist()
            rec.check(m >= len(L) or m < 2 or (all(list(q) == sorted(q) for q in got) and sorted(got) == sorted(map(sorted, want))), "subsets", "size %d of %s sorted: %s" % (m, L, got))
    rec.check(ace.clusterID([2, 0, 1]) == (0, 1, 2), "clusterID", "not sorted")
