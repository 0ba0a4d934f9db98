"""C12: data statistics equal their definitions for every data set."""
import itertools, math
import numpy as np
from mc import env

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of all small data sets: every statistic with every option is computed by the real code and by "
             "exact rational arithmetic from the definition")
RULE = "case = alphabet x rows x columns x block of data sets; all statistics and options are compared on each data set"
BOUNDS = {"quick": "data sets of up to 66 columns or 300 rows by formula; all data sets over {-1,1} and {0,1} with (rows,cols) up to (4,2),(5,2),(3,3),(2,4); over {-1,0,1} up to (3,2),(4,2),(2,3); "
                   "weights: none, number, per row from {0,1/2,2}-patterns, per statistic; two-state recordings of 2 to 400 and of over 70000 rows in 8 numeric types; all data sets over {-0., 0., 1.} up to (3,2)",
          "thorough": "adds {-1,1} (4,3),(3,4),(6,2) and {-1,0,1} (3,3), recordings of up to 80000 rows, negative zeros up to (3,3)"}
ASSUMPTIONS = []
CHUNK = 1
from fractions import Fraction as F


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)


def cases(tier):
    th = tier == "thorough"
    sizes = []
    for al in ((-1, 1), (0, 1)):
        sizes += [(al, r, c) for r, c in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (1, 3), (2, 3), (3, 3), (1, 4), (2, 4)]]
    sizes += [((-1, 0, 1), r, c) for r, c in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (1, 4)]]
    if th:
        sizes += [((-1, 1), 4, 3), ((-1, 1), 3, 4), ((-1, 1), 6, 2), ((0, 1), 3, 4), ((-1, 0, 1), 3, 3)]
    for al, r, c in sizes:
        tot = len(al) ** (r * c)
        for lo in range(0, tot, 250):
            yield {"k": "data", "al": list(al), "r": r, "c": c, "lo": lo, "hi": min(tot, lo + 250)}


    # long recordings in compact types: every assignment of multiplicities to the states
    for al in ((-1, 1), (0, 1), (-1, 0, 1)):
        st = list(itertools.product(al, repeat=2))
        for i, j in itertools.combinations(range(len(st)), 2):
            yield {"k": "long", "al": list(al), "a": st[i], "b": st[j], "m": [1, 127, 128, 200] + ([129, 255, 256, 40000] if th else [])}
    for al in ((-1, 1), (0, 1), (-1, 0, 1)):
        st = [(al[0], al[-1]), (al[-1], al[-1]), (al[1], al[0])]
        for a, b in itertools.combinations(st[:3 if al[0] else 2], 2):
            if a != b:
                for ma, mb in ((33000, 40001), (70001, 1)):
                    yield {"k": "long", "al": list(al), "a": a, "b": b, "pairs": [[ma, mb]]}
    # data sets with many columns, or many rows
    for al in ((-1, 1), (0, 1), (-1, 0, 1)):
        for r, c in [(5, 9), (4, 17), (6, 33), (3, 66), (70, 3), (300, 2), (130, 5)] + ([(3, 130), (600, 4)] if th else []):
            for v in range(3):
                yield {"k": "data", "al": list(al), "r": r, "c": c, "wide": v}
    # negative zeros
    for r, c in ((2, 1), (2, 2), (3, 2)) + (((4, 2), (3, 3)) if th else ()):
        yield {"k": "zeros", "r": r, "c": c}


TYPES = ("int8", "int16", "int32", "int64", "float32", "float64", "uint8", "bool")


def long(case, rec, ctx):
    """two states with every pair of multiplicities, stored in every numeric type"""
    u = ctx.utils
    a, b = case["a"], case["b"]
    if True:
        for ma, mb in case.get("pairs") or itertools.product(case["m"], repeat=2):
            S = ma + mb
            mean = lambda f: F(ma * f(a) + mb * f(b), S)
            si = [mean(lambda s: s[i]) for i in (0, 1)]
            sij = [mean(lambda s: s[0] * s[1])]
            ni = [ma * (a[i] != 0) + mb * (b[i] != 0) for i in (0, 1)]
            nij = ma * (a[0] * a[1] != 0) + mb * (b[0] * b[1] != 0)
            tot = lambda f: ma * f(a) + mb * f(b)
            for t in TYPES:
                if t in ("uint8", "bool") and -1 in case["al"]:
                    continue
                tol = 1e-5 if t == "float32" else 1e-12 * max(1, S / 100)
                X = np.array([a] * ma + [b] * mb).astype(t)
                rec.state()
                rec.trans()
                what = lambda: "%d times %s and %d times %s as %s" % (ma, a, mb, b, t)
                if t != "bool":
                    g = u.pair_corr(X)
                    eq(rec, "long:means", g[0], si, what, tol)
                    eq(rec, "long:pairs", g[1], sij, what, tol)
                    w = np.ones(S) / 2
                    eq(rec, "long:weights", u.pair_corr(X, weights=w, concat=True), [x * S / 2 for x in si + sij], what, tol)
                    g = u.pair_corr(X, weights=(np.array([.5, .25]), np.array([.125])), concat=True)
                    eq(rec, "long:tuple", g, [tot(lambda s: s[0]) / 2, tot(lambda s: s[1]) / 4, tot(lambda s: s[0] * s[1]) / 8], what, tol)
                    if all(ni) and nij:
                        eq(rec, "long:empty", u.pair_corr(X, exclude_empty=True, concat=True),
                           [F(tot(lambda s: s[i]), ni[i]) for i in (0, 1)] + [F(tot(lambda s: s[0] * s[1]), nij)], what, tol)
                        eq(rec, "long:order:empty", u.k_corr(X, 2, exclude_empty=True), [F(tot(lambda s: s[0] * s[1]), nij)], what, tol)
                        eq(rec, "long:order:empty", u.k_corr(X, 1, exclude_empty=True), [F(tot(lambda s: s[i]), ni[i]) for i in (0, 1)], what, tol)
                    eq(rec, "long:laplace", u.pair_corr(X, exclude_empty=True, laplace_count=True, concat=True),
                       [F(tot(lambda s: s[i]), ni[i] + 2) for i in (0, 1)] + [F(tot(lambda s: s[0] * s[1]), nij + 4)], what, tol)
                    for k, ref in ((1, si), (2, sij)):
                        eq(rec, "long:order", u.k_corr(X, k), ref, what, tol)
                p, st = u.state_probs(X)
                ok = sorted(map(tuple, st.astype(int).tolist())) == sorted({a, b})
                rec.check(ok, "long:states", lambda: "%s: states %s" % (what(), st.tolist()))
                eq(rec, "long:probs", p, [F(ma if tuple(s) == a else mb, S) for s in st.astype(int).tolist()], what, tol)
                c, st = u.state_probs(X, normalized=False)
                eq(rec, "long:counts", c, [ma if tuple(s) == a else mb for s in st.astype(int).tolist()], what, tol)
                eq(rec, "long:given", u.state_probs(X, allstates=np.array([b, a]).astype(t)), [F(mb, S), F(ma, S)], what, tol)
                ix = [int(i) for i in u.unique_rows(X)]
                rec.check(sorted(ix) == [0, ma], "long:first", lambda: "%s: first occurrences %s" % (what(), ix))
                # overlap of long states: the data set on its side
                if S < 600 or "pairs" in case:
                    Y = X.T.copy()
                    o = np.asarray(u.calc_overlap(Y)).ravel()
                    eq(rec, "long:overlap", o, [F(tot(lambda s: s[i] * s[j]), S) for i in (0, 1) for j in (0, 1)], what, tol)
                    if all(ni):
                        o = np.asarray(u.calc_overlap(Y, ignore_zeros=True)).ravel()
                        eq(rec, "long:overlap:zeros", o, [F(tot(lambda s: s[i] * s[j]), min(ni[i], ni[j])) for i in (0, 1) for j in (0, 1)], what, tol)
    rec.trace()


def zeros(case, rec, ctx):
    """every data set over {-0., 0., 1.}: a row is the same whatever the sign of its zeros"""
    u = ctx.utils
    r, c = case["r"], case["c"]
    for v in itertools.product((-0., 0., 1.), repeat=r * c):
        X = np.array(v).reshape(r, c)
        D = [tuple(int(x) for x in row) for row in X]
        rec.state()
        rec.trans()
        what = lambda: "data %s" % X.tolist()
        ix = [int(i) for i in u.unique_rows(X)]
        rec.check(sorted(ix) == sorted(D.index(d) for d in set(D)), "zeros:first", lambda: "%s: first occurrences %s" % (what(), ix))
        inv = [int(i) for i in np.asarray(u.unique_rows(X, return_inverse=True)).ravel()]
        rec.check(len(inv) == r and max(inv) < len(ix) and [D[ix[i]] for i in inv] == D, "zeros:inverse", lambda: "%s: inverse %s of %s" % (what(), inv, ix))
        p, st = u.state_probs(X)
        st = [tuple(int(x) for x in s) for s in st]
        if rec.check(sorted(st) == sorted(set(D)), "zeros:states", lambda: "%s: states %s" % (what(), st)):
            eq(rec, "zeros:probs", p, [F(D.count(s), r) for s in st], what)
        al = sorted(set(D))
        eq(rec, "zeros:given", u.state_probs(X, allstates=np.array(al) * 1.), [F(D.count(s), r) for s in al], what)
    rec.trace()


def datasets(case):
    al, r, c = case["al"], case["r"], case["c"]
    if "wide" in case:
        v, q = case["wide"], 97 if c > 2 else 5
        f = [lambda i, j: (i * j + j // 3 + i // 2) % len(al), lambda i, j: ((i * i % 7 + 3) * (j * j + 2) // 5) % len(al),
             lambda i, j: (j == (i * 7) % c) + (j > c // 2 and i % 2) * (len(al) - 2)][v]
        yield [tuple(al[int(f(i % q, j))] for j in range(c)) for i in range(r)]
        return
    for m in range(case["lo"], case["hi"]):
        v = []
        for _ in range(r * c):
            m, d = divmod(m, len(al))
            v.append(al[d])
        yield [tuple(v[i * c:(i + 1) * c]) for i in range(r)]


def eq(rec, key, got, want, what, tol=1e-12):
    got = np.asarray(got, dtype=float)
    want = [float(x) for x in want]
    ok = got.shape == (len(want),) and all((w is None) or abs(g - w) < tol * max(1, abs(w)) for g, w in zip(got, want))
    return rec.check(ok, key, lambda: "%s: got %s, definition gives %s" % (what() if callable(what) else what, got.tolist(), want))


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def run_case(case, rec, ctx):
    if case["k"] != "data":
        return {"long": long, "zeros": zeros}[case["k"]](case, rec, ctx)
    u = ctx.utils
    N = case["c"]
    for D in datasets(case):
        X = np.array(D)
        X.setflags(write=False)
        S = len(D)
        rec.state()
        rec.trace()
        what = lambda: "data %s" % (D,)
        pairs = list(itertools.combinations(range(N), 2))
        ks = [k for k in range(1, N + 1) if math.comb(N, k) < 8000]
        rec.trans()
        # ---- plain and weighted means
        wts = [("none", None, [F(1, S)] * S), ("number", .5, [F(1, 2)] * S)]
        for pat in {tuple([0] + [2] * (S - 1)), tuple([F(1, 2)] * (S - 1) + [2]), tuple(range(1, S + 1))}:
            wts.append(("rows", np.array([float(x) for x in pat]), [F(x) for x in pat]))
        for nm, w, ref in wts:
            si = [sum(ref[r] * D[r][i] for r in range(S)) for i in range(N)]
            sij = [sum(ref[r] * D[r][i] * D[r][j] for r in range(S)) for i, j in pairs]
            g = u.pair_corr(X, weights=w)
            eq(rec, "pair:means:" + nm, g[0], si, what)
            eq(rec, "pair:pairs:" + nm, g[1], sij, what)
            eq(rec, "pair:joined", u.pair_corr(X, weights=w, concat=True), si + sij, what)
            eq(rec, "pair:centred", u.pair_corr(X, weights=w, concat=True, subtract_mean=True),
               si + [c - si[i] * si[j] for c, (i, j) in zip(sij, pairs)], what)
            if nm != "number":
                for k in ks:
                    eq(rec, "order:%s" % nm, u.k_corr(X, k, weights=w),
                       [sum(ref[r] * prod(D[r][i] for i in c) for r in range(S)) for c in itertools.combinations(range(N), k)], what)
        # normalisation per statistic
        a, b = [F(1, i + 2) for i in range(N)], [F(1, 2 * i + 3) for i in range(len(pairs))]
        g = u.pair_corr(X, weights=(np.array([float(x) for x in a]), np.array([float(x) for x in b])))
        eq(rec, "pair:means:tuple", g[0], [a[i] * sum(d[i] for d in D) for i in range(N)], what)
        eq(rec, "pair:pairs:tuple", g[1], [b[c] * sum(d[i] * d[j] for d in D) for c, (i, j) in enumerate(pairs)], what)
        # ---- empty entries excluded
        ni = [sum(d[i] != 0 for d in D) for i in range(N)]
        nij = [sum(d[i] != 0 and d[j] != 0 for d in D) for i, j in pairs]
        if all(ni) and all(nij):
            g = u.pair_corr(X, exclude_empty=True)
            eq(rec, "pair:means:empty", g[0], [F(sum(d[i] for d in D), ni[i]) for i in range(N)], what)
            eq(rec, "pair:pairs:empty", g[1], [F(sum(d[i] * d[j] for d in D), nij[c]) for c, (i, j) in enumerate(pairs)], what)
        g = u.pair_corr(X, exclude_empty=True, laplace_count=True)
        eq(rec, "pair:means:laplace", g[0], [F(sum(d[i] for d in D), ni[i] + 2) for i in range(N)], what)
        eq(rec, "pair:pairs:laplace", g[1], [F(sum(d[i] * d[j] for d in D), nij[c] + 4) for c, (i, j) in enumerate(pairs)], what)
        for k in ks:
            cs = list(itertools.combinations(range(N), k))
            cnt = [sum(all(d[i] for i in c) for d in D) for c in cs]
            if all(cnt):
                eq(rec, "order:empty", u.k_corr(X, k, exclude_empty=True),
                   [F(sum(prod(d[i] for i in c) for d in D), m) for c, m in zip(cs, cnt)], what)
        # ---- unique rows
        ix = [int(i) for i in u.unique_rows(X)]
        uniq = sorted(set(D))
        rec.check(sorted(D[i] for i in ix) == uniq, "unique:rows", lambda: "data %s -> rows %s" % (D, ix))
        rec.check(all(D.index(D[i]) == i for i in ix), "unique:first", lambda: "data %s -> rows %s are not first occurrences" % (D, ix))
        inv = [int(i) for i in np.asarray(u.unique_rows(X, return_inverse=True)).ravel()]
        rec.check(len(inv) == S and [D[ix[i]] for i in inv] == D, "unique:inverse", lambda: "data %s -> inverse %s of %s" % (D, inv, ix))
        # ---- state frequencies
        p, st = u.state_probs(X)
        rec.check(sorted(map(tuple, st.tolist())) == uniq, "probs:states", lambda: "data %s -> states %s" % (D, st))
        eq(rec, "probs:found", p, [F(D.count(tuple(s)), S) for s in st.tolist()], what)
        c, st = u.state_probs(X, normalized=False)
        eq(rec, "probs:count", c, [D.count(tuple(s)) for s in st.tolist()], what)
        every = list(itertools.product(case["al"], repeat=N)) if len(case["al"]) ** N < 100 else uniq[1:] + [tuple(-x for x in D[0]), D[0]]
        every = list(dict.fromkeys(every))
        for nm, lst in (("all", every), ("reversed", every[::-1]), ("first", [D[0]]), ("extra", [tuple(9 for _ in range(N))] + every)):
            A = np.array(lst)
            A.setflags(write=False)
            got = env.quietly(u.state_probs, X, allstates=A)
            tot = sum(D.count(s) for s in lst)
            eq(rec, "probs:given", got, [F(D.count(s), tot) for s in lst], lambda: "data %s, requested %s" % (D, nm))
            eq(rec, "probs:given:count", u.state_probs(X, allstates=A, normalized=False), [D.count(s) for s in lst], what)
            wt = [F(i + 1, 2) for i in range(S)]
            ws = [sum((w for w, d in zip(wt, D) if d == s), F(0)) for s in lst]
            eq(rec, "probs:weighted", u.state_probs(X, allstates=A, weights=np.array([float(x) for x in wt]), normalized=False), ws, what)
            eq(rec, "probs:weighted:norm", u.state_probs(X, allstates=A, weights=np.array([float(x) for x in wt])),
               [x / sum(ws) for x in ws], what)
        if N == 1:
            p1, s1 = u.state_probs(X[:, 0])
            eq(rec, "probs:vector", p1, [F(D.count(tuple(s)), S) for s in s1.tolist()], what)
        # ---- overlaps
        o = u.calc_overlap(X)
        ref = [F(prod_sum(a, b), N) for a in D for b in D]
        eq(rec, "overlap", np.asarray(o).ravel(), ref, what)
        nz = [[min(sum(x != 0 for x in a), sum(x != 0 for x in b)) for b in D] for a in D]
        if all(all(r) for r in nz):
            o = u.calc_overlap(X, ignore_zeros=True)
            eq(rec, "overlap:zeros", np.asarray(o).ravel(), [F(prod_sum(a, b), nz[i][j]) for i, a in enumerate(D) for j, b in enumerate(D)], what)
    rec.sample({"alphabet": case["al"], "rows": case["r"], "cols": case["c"], "last data set": D})


def prod_sum(a, b):
    return sum(x * y for x, y in zip(a, b))
