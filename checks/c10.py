"""C10: pair indexing and vector/matrix forms are mutually inverse bijections."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import nparam, vectors, vector, blocks

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of all sizes up to the bound and all pairs, tuples, positions and unit parameter vectors, against the "
             "order of itertools.combinations")
RULE = "case = function group x size; every pair / tuple / position / unit vector of that size is mapped there and back"
BOUNDS = {"quick": "pairs: every n<=60, ten sizes up to 300, and the ends of ten rows for n=1000, 3001 and 9000; tuples of every order for n<=9, some orders up to n=400; forms: every n<=8, every unit vector and dense vectors, dense vectors up to n=257",
          "thorough": "pairs: every n<=150; tuples of every order for n<=12; forms: every n<=14"}
ASSUMPTIONS = []
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)
    ctx.utils.sub_to_ind(3, 0, 1)
    ctx.utils.ind_to_sub(3, 0)


def cases(tier):
    th = tier == "thorough"
    for n in sorted(set(list(range(2, 151 if th else 61)) + [100, 127, 128, 129, 181, 182, 183, 256, 257, 300])):
        yield {"k": "pairs", "n": n}
    for n in (1000, 3001, 9000) + ((20001, 40000) if th else ()):
        yield {"k": "far", "n": n}
    for n in range(1, 13 if th else 10):
        yield {"k": "tuples", "n": n}
    for n, o in ((17, 4), (33, 3), (70, 3), (129, 2), (12, 6), (400, 1), (200, 2)):
        yield {"k": "tuples", "n": n, "o": o}
    for n in range(2, 15 if th else 9):
        yield {"k": "forms", "n": n}
        yield {"k": "diag", "n": n}
    for n in (17, 33, 64, 65):
        yield {"k": "diag", "n": n}
    for n in (101, 128, 150, 257) + ((400, 700) if th else ()):
        yield {"k": "form", "n": n}
    for n in range(1, 9 if th else 7):
        yield {"k": "split", "n": n}
    for n, o in ((12, 5), (20, 3), (50, 2), (130, 2)):
        yield {"k": "split", "n": n, "o": o}


def frozen(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def run_case(case, rec, ctx):
    u, k, n = ctx.utils, case["k"], case["n"]
    if k == "pairs":
        seen = set()
        for c, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            rec.state()
            rec.trans(3)
            a, b = u.sub_to_ind(n, i, j), u.sub_to_ind(n, j, i)
            rec.check(a == c and b == c, "pairs:index", "pair (%d,%d) of %d -> %s and %s instead of %d" % (i, j, n, a, b, c))
            s = u.ind_to_sub(n, c)
            rec.check(s is not None and tuple(s) == (i, j), "pairs:sub", "position %d of %d -> %s instead of %s" % (c, n, s, (i, j)))
            seen.add(int(a))
        rec.check(len(seen) == n * (n - 1) // 2, "pairs:bijection", "only %d positions used" % len(seen))
        for i in {0, n // 2, n - 1}:
            try:
                u.sub_to_ind(n, i, i)
                rec.bad("pairs:equal", "pair (%d,%d) is accepted" % (i, i))
            except Exception:
                pass
        rec.trace()
    elif k == "far":
        # first and last pair of rows spread over the matrix
        for i in sorted({0, 1, 2, 7, n // 5, n // 3, n // 2, n - 7, n - 3, n - 2}):
            for j in sorted({i + 1, i + 2, (i + n) // 2, n - 2, n - 1}):
                if not i < j < n:
                    continue
                c = i * n - i * (i + 1) // 2 + j - i - 1
                rec.state()
                rec.trans(3)
                a, b = u.sub_to_ind(n, i, j), u.sub_to_ind(n, j, i)
                rec.check(a == c and b == c, "pairs:index", "pair (%d,%d) of %d -> %s and %s instead of %d" % (i, j, n, a, b, c))
                s = u.ind_to_sub(n, c)
                rec.check(s is not None and tuple(s) == (i, j), "pairs:sub", "position %d of %d -> %s instead of %s" % (c, n, s, (i, j)))
                got = u.unravel_index((i, j), n) if i < 500 else c
                rec.check(got == c, "tuples:index", "tuple (%d,%d) of %d -> %s instead of %d" % (i, j, n, got, c))
        rec.trace()
    elif k == "form":
        rec.state()
        rec.trans(4)
        rec.trace()
        th = np.arange(1., n * (n + 1) // 2 + 1) ** .5
        th[::3] *= -1
        M = np.diag(th[:n])
        up = np.triu_indices(n, 1)
        M[up] = th[n:]
        M.T[up] = th[n:]
        rec.check(np.array_equal(u.vec2mat(frozen(th)), M), "forms:vec2mat", lambda: "vec2mat for %d units" % n)
        h, J = u.vec2mat(frozen(th), separate_fields=True)
        rec.check(np.array_equal(h, th[:n]) and np.array_equal(J, M - np.diag(th[:n])), "forms:separate", lambda: "vec2mat for %d units, separate" % n)
        rec.check(np.array_equal(u.mat2vec(frozen(M)), th), "forms:mat2vec", lambda: "mat2vec for %d units" % n)
    elif k == "tuples":
        for o in range(1, n + 1) if "o" not in case else [case["o"]]:
            for c, t in enumerate(itertools.combinations(range(n), o)):
                rec.state()
                rec.trans()
                got = u.unravel_index(t, n)
                rec.check(got == c, "tuples:index", "tuple %s of %d -> %s instead of %d" % (t, n, got, c))
                if o == 1:
                    rec.check(u.unravel_index(t[0], n) == c, "tuples:int", "index %d of %d" % (t[0], n))
            for t in ((1, 0), (0, 0), (0, n)):
                if o == 2 and n > 2:
                    try:
                        u.unravel_index(t, n)
                        rec.bad("tuples:refuse", "tuple %s of %d accepted" % (t, n))
                    except Exception:
                        pass
        rec.trace()
    elif k == "forms":
        D = nparam(n, 2)
        for spec in vectors(D, ["zero", "unit", "dense"], dense=8):
            th = vector(D, spec)
            rec.state()
            rec.trans(3)
            rec.trace()
            M = np.zeros((n, n))
            for i in range(n):
                M[i, i] = th[i]
            for c, (i, j) in enumerate(itertools.combinations(range(n), 2)):
                M[i, j] = M[j, i] = th[n + c]
            got = u.vec2mat(frozen(th))
            rec.check(np.array_equal(got, M), "forms:vec2mat", lambda: "n=%d %s -> %s" % (n, th, got))
            h, J = u.vec2mat(frozen(th), separate_fields=True)
            M0 = M - np.diag(np.diag(M))
            rec.check(np.array_equal(h, th[:n]) and np.array_equal(J, M0), "forms:separate", lambda: "n=%d %s -> %s %s" % (n, th, h, J))
            v = u.mat2vec(frozen(M))
            rec.check(np.array_equal(v, th), "forms:mat2vec", lambda: "n=%d %s -> %s" % (n, M, v))
            rec.check(np.array_equal(u.mat2vec(got), th) and np.array_equal(u.vec2mat(v), M), "forms:inverse", "n=%d %s" % (n, spec))
        big = n * 12
        for m in range(big - 11, big + 1):
            th = np.arange(1., m * (m + 1) // 2 + 1)
            got = u.vec2mat(th)
            rec.check(np.shape(got) == (m, m) and np.array_equal(np.diag(got), th[:m]) and np.array_equal(got[np.triu_indices(m, 1)], th[m:]) and np.array_equal(got, got.T),
                      "forms:vec2mat", lambda: "vec2mat for %d units" % m)
            rec.check(np.array_equal(u.mat2vec(got), th), "forms:mat2vec", lambda: "mat2vec for %d units" % m)
        for bad in set(range(1, 30)) - {m * (m + 1) // 2 for m in range(1, 9)}:
            try:
                u.vec2mat(np.zeros(bad))
                rec.bad("forms:refuse", "%d parameters accepted" % bad)
            except Exception:
                pass
        rec.sample({"n": n, "unit vectors": D})
    elif k == "diag":
        base = np.arange(1., n * n + 1).reshape(n, n)
        for m in [base, base.T.copy(), np.asfortranarray(base), base - 7]:
            for d in [np.zeros(n), np.arange(n) + .5, -np.ones(n)] + [np.eye(n)[i] for i in range(n)]:
                rec.state()
                rec.trans(2)
                rec.trace()
                ref = np.array([[d[i] if i == j else m[i, j] for j in range(n)] for i in range(n)])
                got = u.replace_diag(frozen(m), frozen(d))
                rec.check(np.array_equal(got, ref), "diag:replace", lambda: "%s with %s -> %s" % (m, d, got))
            ref = np.array([[0. if i == j else m[i, j] for j in range(n)] for i in range(n)])
            rec.check(np.array_equal(u.zero_diag(frozen(m)), ref), "diag:zero", "%s" % m)
        for a, b in ((np.zeros((n, n)), np.zeros(n + 1)), (np.zeros((n, n + 1)), np.zeros(n)), (np.zeros((n, n)), np.zeros((n, 1)))):
            try:
                u.replace_diag(a, b)
                rec.bad("diag:refuse", "shapes %s %s accepted" % (a.shape, b.shape))
            except Exception:
                pass
    else:
        for top in range(1, n + 1) if "o" not in case else [1, case["o"]]:
            D = nparam(n, top)
            for p in (np.arange(D) + .25, list(range(D))):
                rec.state()
                rec.trans()
                rec.trace()
                out = u.split_concat_params(p, n)
                sizes = [math.comb(n, o) for o in range(1, top + 1)]
                rec.check([len(x) for x in out] == sizes and [v for x in out for v in x] == list(p), "split:parts",
                          "n=%d order %d: parts %s instead of %s" % (n, top, [len(x) for x in out], sizes))
