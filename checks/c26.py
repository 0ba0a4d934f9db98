"""C26: mean-field formulas are exact where the theory is and consistent with each other."""
import itertools, math
import numpy as np
import scipy.linalg
from mc import env
from mc.exact import blocks

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: every correlation table of a grid of models and of all small samples, every ordered cluster and every option combination is "
             "put through the real mean-field code and judged by matrix algebra written independently, by derivatives and by sums over all states")
RULE = "case = block of tables x all ordered clusters x options, or one helper over all its inputs within the bound"
BOUNDS = {"quick": "2-unit tables: 5 frequencies squared x 6 correlations and all 8-row sample multisets; 3-unit tables of 64 models, 4 units of 12 models with all 64 ordered clusters; priors 0, .01, .5, 5, 1e4; "
                   "numerical inversion: 2-unit tables, 27 + 8 models of 3 units, minimum activity 0-2, priors; enumeration helpers: all sign patterns of parameters up to 3 units, dense to 6; samples: all of 1-4 rows of "
                   "2 units, 1-3 rows of 3; homogeneous systems of 1-8 units x 4 couplings x 5 fields; matrix helpers: sizes 1-7",
          "thorough": "3-unit tables of 729 models, 4 units of 60 models, 5 units with all ordered clusters; inversion of 216 models of 3 and 20 of 4 units; homogeneous systems to 14 units"}
ASSUMPTIONS = ["tables are those of models with every state possible, or samples with no constant unit", "homogeneous formulas: couplings are positive, as their integral representation requires"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "solvers", "mean_field_ising"))


def cases(tier):
    th = tier == "thorough"
    fr = (.1, .3, .5, .62, .9)
    t2 = [two(p, q, f) for p in fr for q in fr for f in (.05, .3, None, .6, .8, .97)]
    for b in blocks(t2, 30):
        yield {"k": "tables", "t": [t.tolist() for t in b], "clusters": True}
    comps = [c for c in itertools.product(range(0, 9), repeat=4) if sum(c) == 8 and 0 < c[2] + c[3] < 8 and 0 < c[1] + c[3] < 8]
    t8 = [from_counts(2, c).tolist() for c in (comps if th else comps[::3])]
    for b in blocks(t8, 25):
        yield {"k": "tables", "t": b, "clusters": False}
    m3 = list(itertools.product((-1.2, 0., .8), repeat=6)) if th else list(itertools.product((-.8, .6), repeat=6))
    for b in blocks(m3, 12):
        yield {"k": "tables", "t": [model_table(3, v).tolist() for v in b], "clusters": True}
    for b in blocks(range(60 if th else 12), 3):
        yield {"k": "tables", "t": [model_table(4, dense(10, m, .8)).tolist() for m in b], "clusters": True}
    for m in range(4 if th else 1):
        yield {"k": "tables", "t": [model_table(5, dense(15, m, .5)).tolist()], "clusters": th}
    for n in (7, 9, 12) + ((20,) if th else ()):
        yield {"k": "tables", "t": [smooth_table(n, a).tolist() for a in (0, 1)], "clusters": False, "some": 1}
    for N in list(range(1, 15 if th else 9)) + [20]:
        yield {"k": "homogeneous", "N": N}
    for n in (1, 2, 3, 4, 5, 6, 7, 11, 16, 33, 130):
        yield {"k": "matrix", "n": n}
    for n in range(1, 7):
        yield {"k": "enumerate", "n": n}
    for b in blocks(t2[::2], 25):
        yield {"k": "invert", "n": 2, "t": [t.tolist() for t in b]}
    p3 = list(itertools.product((-.6, 0., .6), repeat=6))
    p3 = p3[::3][:216] if th else list(itertools.product((-.6, .7), repeat=6))[::8] + p3[::27]
    for b in blocks(p3, 7):
        yield {"k": "invert", "n": 3, "t": [model_table(3, v).tolist() for v in b]}
    for m in range(20 if th else 2):
        yield {"k": "invert", "n": 4, "t": [model_table(4, dense(10, m, .5)).tolist()]}
    for b in blocks(range(27), 9):
        yield {"k": "minsize", "b": list(b)}
    for n, R in ((1, 4), (2, 4), (3, 3)):
        ss = [r for k in range(1, R + 1) for r in itertools.product(range(2 ** n), repeat=k)]
        for b in blocks(ss, 150):
            yield {"k": "samples", "n": n, "s": b}
    for n, R in ((6, 50), (9, 301), (12, 130), (17, 1003), (4, 3000)):
        yield {"k": "samples", "n": n, "s": [[(i * i * a + i // 3 + (i % 7) * a ** 3) % 2 ** n for i in range(R)] for a in (5, 1237)]}
    yield {"k": "legacy"}


# ---------------------------------------------------------------- reference
def bits(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=float)


def two(p, q, f):
    lo, hi = max(0, p + q - 1), min(p, q)
    r = p * q if f is None else lo + f * (hi - lo)
    return np.array([[p, r], [r, q]])


def from_counts(n, c):
    S = bits(n)
    w = np.array(c) / sum(c)
    return (S * w[:, None]).T @ S


def smooth_table(n, a):
    """a table of weakly correlated units"""
    p = np.array([.2 + .6 * ((i * 7 + a) % 11) / 11 for i in range(n)])
    sd = np.sqrt(p * (1 - p))
    c = np.array([[math.cos(1 + a + i * j + 3 * (i + j)) * .6 / n for j in range(n)] for i in range(n)]) * np.outer(sd, sd)
    C = np.outer(p, p) + c
    C[np.diag_indices(n)] = p
    return C


def dense(D, m, sc):
    return [2 * sc * ((math.sqrt(2 + 7 * m + 3 * i + (i * i) % 5) * 1.7) % 1 - .5) for i in range(D)]


def matrix(n, th):
    """parameters (fields, then couplings) as an upper triangular matrix"""
    A = np.diag(np.array(th[:n], dtype=float))
    A[np.triu_indices(n, 1)] = th[n:]
    return A


def exact(A, min_size=0, hext=0.):
    """probabilities of all allowed states for exp(-sum_i (A_ii - hext) s_i - sum_{i<j} A_ij s_i s_j)"""
    n = len(A)
    S = bits(n)
    S = S[S.sum(1) >= min_size]
    e = [-sum((A[i, i] - hext) * s[i] for i in range(n)) - sum(A[i, j] * s[i] * s[j] for i in range(n) for j in range(i + 1, n)) for s in S]
    e = np.array(e)
    w = np.exp(e - e.max())
    return S, w / w.sum(), e


def model_table(n, th, min_size=0):
    S, p, _ = exact(matrix(n, th), min_size)
    return (S * p[:, None]).T @ S


def reference(C, gamma, ind=True):
    """entropy, couplings (per pair) and fields of the Gaussian mean-field theory"""
    n = len(C)
    p = np.diag(C)
    v = p * (1 - p)
    c = C - np.outer(p, p)
    den = np.sqrt(np.outer(v, v))
    M = c / den
    np.fill_diagonal(M, 1.)
    if gamma == 0:
        K = np.linalg.inv(M)
        S = .5 * np.linalg.slogdet(M)[1]
    else:
        B = M - gamma * np.eye(n)
        H = .5 * (B + np.real(scipy.linalg.sqrtm(B @ B + 4 * gamma * np.eye(n))))
        if np.linalg.norm(H - gamma * np.linalg.inv(H) - B) > 1e-6 * max(1, gamma):
            raise ArithmeticError("reference inaccurate")
        K = np.linalg.inv(H)
        S = .5 * (np.linalg.slogdet(H)[1] + n - np.trace(H))
    J = K / den
    np.fill_diagonal(J, 0)
    h = np.array([sum(J[i, j] * (c[i, j] * (p[i] - .5) / v[i] - p[j]) for j in range(n)) for i in range(n)])
    if ind:
        S += -np.sum(p * np.log(p) + (1 - p) * np.log(1 - p))
        h -= np.log(p / (1 - p))
    return S, J, h


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or np.iscomplexobj(a):
        return False
    with np.errstate(all="ignore"):
        return bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def tables(case, rec, ctx):
    f = ctx.mean_field_ising
    for t in case["t"]:
        C = np.array(t)
        N = len(C)
        U = np.triu(C)
        cl = [c for m in range(1, N + 1) for c in itertools.permutations(range(N), m)] if case["clusters"] else [tuple(range(N))]
        if "some" in case:
            cl += [tuple(range(N))[::-1], tuple(range(1, N, 2)), tuple(range(N - 2, -1, -3)), (N - 1, 0, N // 2)]
        for cluster in cl:
            sub = C[np.ix_(cluster, cluster)]
            n = len(cluster)
            singular = np.linalg.eigvalsh((sub - np.outer(np.diag(sub), np.diag(sub))) / np.sqrt(np.outer(np.diag(sub) * (1 - np.diag(sub)), np.diag(sub) * (1 - np.diag(sub))))).min() < 1e-6
            full = n == N and cluster == tuple(range(N))
            for prior, num in ((0., None), (.01, 1000), (1., 2000), (2., 200), (4., 8), (50., 10), (1e5, 10)):
                if singular and prior < 2 or 0 < prior < 2 and not full:
                    continue
                gamma = prior / num if num else 0.
                for ind in (True, False):
                    for opt in (({}, {"useRegularizedEq": False}, {"alternateEnt": True}) if prior == 0 else ({}, {"alternateEnt": True})):
                        if opt and not (full or n < N) or "alternateEnt" in opt and n > 8:
                            continue
                        for tab, shape in ((C, "full"), (U, "upper")) if opt == {} else ((C, "full"),):
                            kw = dict(opt, indTerm=ind)
                            if prior:
                                kw.update(meanFieldPriorLmbda=prior, numSamples=num)
                            what = lambda: "table %s (%s), cluster %s, options %s" % (C.tolist(), shape, cluster, kw)
                            S0, J0, h0 = reference(sub, gamma, ind)
                            keep = tab.copy()
                            try:
                                with np.errstate(all="ignore"):
                                    ent, J = f.SmeanField(list(cluster), tab, **kw)
                            except Exception as e:
                                rec.bad("mf:raises", "%s: %r" % (what(), e))
                                continue
                            rec.state()
                            rec.trans(n * n)
                            rec.check((tab == keep).all(), "mf:mutates", lambda: what() + ": table changed")
                            tol = 1e-7 if not singular else 1e-5
                            if not rec.check(np.shape(J) == (N, N) and not np.iscomplexobj(J), "mf:shape", lambda: "%s: couplings of shape %s" % (what(), np.shape(J))):
                                continue
                            Jc = J[np.ix_(cluster, cluster)]
                            out = J.copy()
                            out[np.ix_(cluster, cluster)] = 0
                            rec.check((out == 0).all(), "mf:outside", lambda: what() + ": parameters outside the cluster")
                            pair = Jc + Jc.T
                            np.fill_diagonal(pair, 0)
                            rec.check((J == J.T).all(), "mf:symmetric", lambda: what() + ": parameters not symmetric")
                            rec.check(close(pair, J0, tol), "mf:couplings", lambda: "%s: couplings %s instead of %s" % (what(), pair.tolist(), J0.tolist()))
                            rec.check(close(np.diag(Jc), h0, tol), "mf:fields", lambda: "%s: fields %s instead of %s" % (what(), np.diag(Jc).tolist(), h0.tolist()))
                            if opt.get("alternateEnt"):
                                _, p, _ = exact(matrix(n, list(h0) + [J0[i, j] for i in range(n) for j in range(i + 1, n)]))
                                p = p[p > 0]
                                S0 = -np.sum(p * np.log(p))
                                if np.abs(J0).max() > 200 or np.abs(h0).max() > 200:
                                    continue
                            rec.check(close(ent, S0, tol * 10), "mf:entropy", lambda: "%s: entropy %s instead of %s" % (what(), ent, S0))
                            if full and opt == {} and shape == "full":
                                try:
                                    Jm = f.JmeanField(tab, **kw)
                                    rec.check(close(Jm, J, 1e-12), "mf:JmeanField", lambda: what() + ": JmeanField differs from SmeanField")
                                except Exception as e:
                                    rec.bad("mf:raises", "%s: JmeanField %r" % (what(), e))
                                if prior == 0:
                                    derivative(f, C, J, kw, rec, what)
            if case["clusters"]:
                ix = list(cluster)
                rec.check((f.coocCluster(C, ix) == sub).all(), "coocCluster", lambda: "coocCluster(%s, %s)" % (C.tolist(), ix))
                full_J = f.JfullFromCluster(sub, ix, N + 1)
                want = np.zeros((N + 1, N + 1))
                for a, i in enumerate(ix):
                    for b, j in enumerate(ix):
                        want[i, j] = sub[a, b]
                rec.check((full_J == want).all(), "JfullFromCluster", lambda: "JfullFromCluster(%s, %s)" % (sub.tolist(), ix))
        J = reference(C, .5)[1]
        p = np.diag(C)
        A = -2 * (J * .5) * (p * (1 - p))
        want = np.abs(np.linalg.eigvals(A)).max()
        rec.check(close(f.meanFieldStability(.5 * J + np.diag(p), p), want, 1e-9), "stability", lambda: "meanFieldStability for table %s" % C.tolist())
        rec.trace()
    rec.sample({"table": case["t"][0], "clusters": len(cl)})


def derivative(f, C, J, kw, rec, what):
    """couplings and fields are the derivatives of the entropy returned by the code itself"""
    n = len(C)
    eps = 1e-6
    if np.abs(J).max() > 30:
        return
    for i in range(n):
        for j in range(i, n):
            D = np.zeros((n, n))
            D[i, j] = D[j, i] = eps
            cl = list(range(n))
            d = (f.SmeanField(cl, C + D, **kw)[0] - f.SmeanField(cl, C - D, **kw)[0]) / (2 * eps)
            want = J[i, i] if i == j else J[i, j] + J[j, i]
            rec.check(abs(d - want) < 2e-4 * (1 + abs(want) + np.abs(J).max() ** 2), "mf:derivative",
                      lambda: "%s: derivative of the entropy along (%d,%d) is %r, parameter is %r" % (what(), i, j, d, want))


def homogeneous(case, rec, ctx):
    f = ctx.mean_field_ising
    N = case["N"]
    k = np.arange(N + 1)
    mult = np.array([math.comb(N, int(x)) for x in k], dtype=float)
    sp = 2. * k - N
    grid = np.linspace(-6, 6, 24001)
    for J in (.05, .2, .5, 1.):
        for h in (-1., -.3, 0., .4, 2.):
            what = lambda: "homogeneous system of %d units, coupling %s, field %s" % (N, J, h)
            e = h * sp + J * sp ** 2
            w = mult * np.exp(e)
            Z = w.sum()
            p = w / Z
            S = np.log(Z) - (p * e).sum()
            x = (p * sp).sum() / N
            S1 = -N * ((1 + x) / 2 * np.log((1 + x) / 2) + (1 - x) / 2 * np.log((1 - x) / 2))
            F = np.array([f.FHomogeneous(h, J, N, m) for m in grid[::4]])
            got = np.exp(-F).sum() * (grid[4] - grid[0])
            wide = J * N >= .8
            rec.check(not wide or close(got, Z, 1e-6), "homogeneous:Z", lambda: "%s: partition function %r instead of %r" % (what(), got, Z))
            for m in (-1., -.2, 0., .5, 1.3):
                eps = 1e-5
                d = (f.FHomogeneous(h / (1 + eps), J / (1 + eps), N, m) - f.FHomogeneous(h / (1 - eps), J / (1 - eps), N, m)) / (2 * eps)
                rec.check(abs(d - f.dFdT(h, J, N, m)) < 1e-5 * (1 + abs(d)), "homogeneous:dFdT", lambda: "%s, m=%s: dFdT %r instead of %r" % (what(), m, f.dFdT(h, J, N, m), d))
            for name, want in (("SHomogeneous", S), ("avgmHomogeneous", x), ("avgxHomogeneous", x), ("independentEntropyHomogeneous", S1),
                               ("independentEntropyHomogeneous2", S1), ("multiInfoHomogeneous", S1 - S)):
                if 1 - abs(x) < 1e-7 and "ntropy" in name + "entropy":
                    continue
                rec.trans()
                try:
                    with np.errstate(all="ignore"):
                        g = getattr(f, name)(h, J, N)
                except Exception as ex:
                    rec.bad("homogeneous:raises", "%s: %s %r" % (what(), name, ex))
                    continue
                rec.check(abs(g - want) < 1e-5 * (1 + N), "homogeneous:" + name, lambda: "%s: %s gives %r instead of %r" % (what(), name, g, want))
            rec.state()
    for x in (-800., -20., -1., -1e-3, 0., .5, 3., 40., 1e4):
        want = abs(x) + math.log1p(math.exp(-2 * abs(x))) - math.log(2)
        rec.check(close(f.logCosh(x), want, 1e-12), "logCosh", "logCosh(%s) = %r" % (x, f.logCosh(x)))
    rec.trace()


def matrix_helpers(case, rec, ctx):
    f = ctx.mean_field_ising
    n = case["n"]
    base = np.array([[3. * i + 7 * j + i * j + 1 for j in range(n)] for i in range(n)])
    order = []
    for d in range(n):
        for i in range(n - d):
            order.append((i, i + d))
    for a, (i, j) in enumerate(order):
        rec.check(f.diagFlatIndex(i, j, n) == a, "diagFlatIndex", lambda: "diagFlatIndex(%d, %d, %d) = %s instead of %d" % (i, j, n, f.diagFlatIndex(i, j, n), a))
    for dt in (float, int):
        A = base.astype(dt)
        keep = A.copy()
        def tst(key, what, fn, want):
            rec.trans()
            try:
                got = np.asarray(fn())
            except Exception as e:
                rec.bad(key + ":raises", "%s of a %s matrix of size %d: %r" % (what, dt.__name__, n, e))
                return
            want = np.asarray(want)
            rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-13, atol=0), key, lambda: "%s of size %d (%s): %s instead of %s" % (what, n, dt.__name__, got.tolist(), want.tolist()))
            rec.check((A == keep).all(), key + ":mutates", "%s changed its argument" % what)
        flat = [base[ij] for ij in order]
        tst("aboveDiagFlat", "aboveDiagFlat with diagonal", lambda: f.aboveDiagFlat(A, keepDiag=True), flat)
        if n > 1:
            tst("aboveDiagFlat", "aboveDiagFlat", lambda: f.aboveDiagFlat(A), flat[n:])
            tst("aboveDiagFlat", "aboveDiagFlat doubling", lambda: f.aboveDiagFlat(A, offDiagMult=2), 2 * np.array(flat[n:]))
        tst("aboveDiagFlat", "aboveDiagFlat doubling with diagonal", lambda: f.aboveDiagFlat(A, keepDiag=True, offDiagMult=2), np.array(flat) * np.array([1] * n + [2] * (len(flat) - n)))
        tst("unflatten", "unflatten", lambda: f.unflatten(np.array(flat, dtype=dt), n), np.triu(base))
        tst("unflatten", "unflatten a list", lambda: f.unflatten(flat, n), np.triu(base))
        sym = .5 * (np.triu(base) + np.triu(base).T)
        tst("unflatten", "unflatten symmetrized", lambda: f.unflatten(np.array(flat, dtype=dt), n, symmetrize=True), sym)
        tst("unflatten:inverse", "aboveDiagFlat of unflatten", lambda: f.aboveDiagFlat(f.unflatten(np.array(flat, dtype=dt), n), keepDiag=True), flat)
        up = np.triu(base) + np.triu(base, 1).T
        tst("symmetrize", "symmetrizeUsingUpper", lambda: f.symmetrizeUsingUpper(A), up)
        lst = np.arange(n) + 11
        wd = base.copy()
        wd[np.diag_indices(n)] = lst
        tst("replaceDiag", "replaceDiag", lambda: f.replaceDiag(A, lst), wd)
        tst("replaceDiag", "replaceDiag with a list", lambda: f.replaceDiag(A, lst.tolist()), wd)
        wz = base.copy()
        wz[np.diag_indices(n)] = 0
        tst("zeroDiag", "zeroDiag", lambda: f.zeroDiag(A), wz)
        for bad in (lambda: f.replaceDiag(A, np.arange(n + 1)), lambda: f.replaceDiag(A, np.ones((n, n))), lambda: f.symmetrizeUsingUpper(np.ones((n, n + 1)))):
            try:
                bad()
                rec.bad("refuse", "mismatched sizes accepted (size %d)" % n)
            except Exception:
                pass
        rec.state(len(order))
    rec.trace()


def enumerate_(case, rec, ctx):
    f = ctx.mean_field_ising
    n = case["n"]
    D = n * (n + 1) // 2
    if n <= 3:
        ths = list(itertools.product((-1.3, .7) if n == 3 else (-1.3, 0., .7), repeat=D))
    else:
        ths = [dense(D, m, sc) for m in range(8) for sc in (.1, 1., 4.)]
    S = bits(n)
    got = np.asarray(f.fightPossibilities(n))
    rec.check(got.shape == S.shape and (got == S).all(), "states", "fightPossibilities(%d) = %s" % (n, got.tolist()))
    for th in ths:
        A = matrix(n, th)
        sym = .5 * (A + A.T)
        for form, B in (("upper", A), ("symmetric", sym)):
            keep = B.copy()
            for ms in range(0, n + 1):
                for hext in (0, .45):
                    what = lambda: "%d units, parameters %s (%s), hext %s, minimum size %d" % (n, th, form, hext, ms)
                    Sx, p, e = exact(A, ms, hext)
                    rec.state(len(p))
                    rec.trans()
                    try:
                        C1 = f.coocExpectations(B, hext=hext, minSize=ms)
                        C2 = f.coocExpectations(B, hext, False, ms)
                        lz = np.asarray(f.unsummedLogZ(B, hext=hext, minSize=ms))
                        z = np.asarray(f.unsummedZ(B, hext, ms))
                    except Exception as ex:
                        rec.bad("expect:raises", "%s: %r" % (what(), ex))
                        continue
                    want = (Sx * p[:, None]).T @ Sx
                    rec.check(close(C1, np.triu(want), 1e-10), "expect:upper", lambda: "%s: correlations %s instead of %s" % (what(), np.asarray(C1).tolist(), np.triu(want).tolist()))
                    rec.check(close(C2, want, 1e-10), "expect:full", lambda: "%s: correlations %s instead of %s" % (what(), np.asarray(C2).tolist(), want.tolist()))
                    rec.check(close(lz, e, 1e-12) and close(z, np.exp(e), 1e-12), "expect:weights", lambda: "%s: log weights %s instead of %s" % (what(), lz.tolist(), e.tolist()))
                    if ms == 0 and hext == 0:
                        ent = f.analyticEntropy(B)
                        want = -np.sum(p * np.log(p))
                        rec.check(close(ent, want, 1e-10), "entropy", lambda: "%s: entropy %r instead of %r" % (what(), ent, want))
            rec.check((B == keep).all(), "expect:mutates", "parameters %s changed" % (th,))
    rec.trace()


def solve(f, C, **kw):
    with np.errstate(all="ignore"):
        return np.asarray(f.findJmatrixAnalytic_CoocMat(C, **kw))


def judge(rec, what, J, want, ms=0):
    n = len(want)
    if not rec.check(J.shape == (n, n) and (J == J.T).all(), "invert:symmetric", lambda: "%s: parameters %s" % (what(), J.tolist())):
        return
    A = np.diag(np.diag(J)) + np.triu(2 * J, 1)
    S, p, _ = exact(A, ms)
    got = (S * p[:, None]).T @ S
    d = np.abs(np.triu(got - want)).max()
    rec.check(d < 1e-5, "invert:solution", lambda: "%s: correlations of the solution differ from the table by %g (parameters %s)" % (what(), d, J.tolist()))


def invert(case, rec, ctx):
    f = ctx.mean_field_ising
    n = case["n"]
    for t in case["t"]:
        C = np.array(t)
        for tab, form in ((np.triu(C), "upper"), (C, "full")):
            if form == "full":
                continue  # the table is documented as upper triangular everywhere it is used
            keep = tab.copy()
            for kw in ({}, {"bayesianMean": True, "numSamples": 25}, {"Jinit": np.diag(np.linspace(-.5, .5, n))}):
                what = lambda: "table %s, options %s" % (C.tolist(), kw)
                want = np.triu((C * 25 + 1) / 27) if kw.get("bayesianMean") else np.triu(C)
                try:
                    J = solve(f, tab, **kw)
                except Exception as e:
                    rec.bad("invert:raises", "%s: %r" % (what(), e))
                    continue
                rec.state(2 ** n)
                rec.trans()
                judge(rec, what, J, want)
            for lam in (2., 50.):
                kw = {"priorLmbda": lam, "numSamples": 20}
                what = lambda: "table %s, options %s" % (C.tolist(), kw)
                try:
                    J = solve(f, tab, **kw)
                except Exception as e:
                    rec.bad("invert:raises", "%s: %r" % (what(), e))
                    continue
                iu = np.triu_indices(n, 1)
                p = np.diag(C)
                v = p * (1 - p)
                def objective(th):
                    A = matrix(n, th)
                    S, q, _ = exact(A)
                    r = np.triu((S * q[:, None]).T @ S - C)
                    return (r ** 2).sum() + sum((lam / 20 * v[i] * v[j] * A[i, j] ** 2) ** 2 for i, j in zip(*iu))
                th = np.concatenate([np.diag(J), 2 * J[iu]])
                o = objective(th)
                worst = 0.
                for a in range(len(th)):
                    for s in (.02, -.02):
                        t2 = th.copy()
                        t2[a] += s
                        worst = max(worst, o - objective(t2))
                rec.check(worst < 1e-7, "invert:prior", lambda: "%s: a neighbour of the solution is better by %g" % (what(), worst))
                rec.trans()
            rec.check((tab == keep).all(), "invert:mutates", "table %s changed" % C.tolist())
        rec.trace()


def minsize(case, rec, ctx):
    f = ctx.mean_field_ising
    g = list(itertools.product((-.5, 0., .5), repeat=3))
    for b in case["b"]:
        th = list(g[b]) + [.3, -.4, .2]
        for ms in (1, 2):
            if ms == 2:
                continue  # 4 allowed states of 3 units do not determine 6 parameters
            C = np.triu(model_table(3, th, ms))
            what = lambda: "table of parameters %s with minimum size %d" % (th, ms)
            try:
                J = solve(f, C, minSize=ms)
            except Exception as e:
                rec.bad("invert:raises", "%s: %r" % (what(), e))
                continue
            rec.state(8)
            rec.trans()
            judge(rec, what, J, C, ms)
        th4 = list(g[b]) + [.1] + [.2, -.3, .1, .25, -.15, .05]
        for ms in (1, 2):
            C = np.triu(model_table(4, th4, ms))
            what = lambda: "table of parameters %s with minimum size %d" % (th4, ms)
            try:
                J = solve(f, C, minSize=ms)
            except Exception as e:
                rec.bad("invert:raises", "%s: %r" % (what(), e))
                continue
            rec.state(16)
            rec.trans()
            judge(rec, what, J, C, ms)
    rec.trace()


def samples(case, rec, ctx):
    f = ctx.mean_field_ising
    n = case["n"]
    order = [(i, i + d) for d in range(n) for i in range(n - d)]
    for idx in case["s"]:
        X = np.array([[s >> (n - 1 - i) & 1 for i in range(n)] for s in idx], dtype=float)
        R = len(X)
        want = np.triu(X.T @ X / R)
        for dt in (float, int, np.int8, bool):
            for rep in (1, 200 if dt in (np.int8, int) else 1):
                Y = np.tile(X.astype(dt), (rep, 1))
                what = lambda: "sample %s (%s)%s" % (X.astype(int).tolist(), dt.__name__, " repeated %d times" % rep if rep > 1 else "")
                rec.trans()
                try:
                    got = f.cooccurrence_matrix(Y)
                    got0 = f.cooccurrence_matrix(Y, keep_diag=False)
                    zero = np.asarray(f.isingDeltaCooc(Y, want))
                except Exception as e:
                    rec.bad("cooc:raises", "%s: %r" % (what(), e))
                    continue
                rec.check(close(got, want, 1e-12), "cooc:" + dt.__name__, lambda: "%s: co-occurrence %s instead of %s" % (what(), got.tolist(), want.tolist()))
                rec.check(close(got0, np.triu(want, 1), 1e-12), "cooc:" + dt.__name__, lambda: "%s: co-occurrence without diagonal %s" % (what(), got0.tolist()))
                rec.check(zero.shape == (len(order),) and np.abs(zero).max() < 1e-12, "cooc:delta", lambda: "%s: difference from its own table %s" % (what(), zero.tolist()))
        other = np.full((n, n), .25)
        d = f.isingDeltaCooc(X, other)
        rec.check(np.allclose(d, [(want - np.triu(other))[i, j] if j >= i else 0 for i, j in order]), "cooc:delta", lambda: "%s: isingDeltaCooc against 1/4" % X.tolist())
        for dt in (float, int):
            f4 = f.fourthOrderCoocMat(X.astype(dt))
            w4 = np.array([[np.mean(X[:, a[0]] * X[:, a[1]] * X[:, b[0]] * X[:, b[1]]) for b in order] for a in order])
            rec.check(close(f4, w4, 1e-12), "fourth", lambda: "%s: fourth-order co-occurrence %s instead of %s" % (X.tolist(), np.asarray(f4).tolist(), w4.tolist()))
            for bm, pr in itertools.product((False, True), repeat=2):
                if dt is float:
                    wc = w4.copy()
                    if bm:
                        wc[np.diag_indices(len(wc))] = (np.diag(w4) * R + 1) / (R + 2)
                    wc = wc * (1 - wc)
                    if pr:
                        wc = scipy.linalg.block_diag(wc, np.eye(n * (n - 1) // 2))
                    gc = env.quietly(f.coocSampleCovariance, X.astype(dt), bayesianMean=bm, includePrior=pr)
                    rec.check(close(gc, wc, 1e-12), "covariance", lambda: "%s: covariance (mean %s, prior %s) %s instead of %s" % (X.tolist(), bm, pr, np.asarray(gc).tolist(), wc.tolist()))
        for N in (R, 30, 10 ** 6, 10 ** 9):
            bm = (want * N + 1) / (N + 2)
            rec.check(close(f.coocMatBayesianMean(want, N), bm, 1e-12), "bayesian", lambda: "coocMatBayesianMean of %s" % X.tolist())
            sd = np.array([math.sqrt(bm[ij] * (1 - bm[ij]) / N) for ij in order])
            rec.check(close(f.coocStdevsFlat(want, N), sd, 1e-12), "stdevs", lambda: "coocStdevsFlat of %s, %d samples" % (X.tolist(), N))
        rec.state()
    rec.trace()


def legacy(case, rec, ctx):
    f = ctx.mean_field_ising
    for h in (-3., -1., 0., 1., 3.):
        for J in (-2., -.5, 0., .5):
            for ell in (1, 2, 10):
                for T in (.5, 1., 4.):
                    x = f.m(h, J, ell, T)
                    r = 1 / (1 + math.exp((h + 2 * (ell - 1) * x * J) / T))
                    rec.state()
                    rec.trans()
                    rec.check(abs(x - r) < 1e-9, "m", "mean-field magnetisation m(%s, %s, %s, %s) = %r is not self consistent (%r)" % (h, J, ell, T, x, r))
    rec.trace()


def run_case(case, rec, ctx):
    {"tables": tables, "homogeneous": homogeneous, "matrix": matrix_helpers, "enumerate": enumerate_, "invert": invert, "minsize": minsize,
     "samples": samples, "legacy": legacy}[case["k"]](case, rec, ctx)
