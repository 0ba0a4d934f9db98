"""C21: energy landscape tools of the Ising system."""
import itertools
import numpy as np
from mc import env, exact

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: for every parameter vector on a grid and every state of the system the real single-flip energies and "
             "basin searches are compared with the full transition graph of descending single flips")
RULE = "case = system size x block of parameter vectors; all 2^n states; non-trivial vectors also in every accepted input form"
BOUNDS = {"quick": "n=2: grid {-1,-1/2,0,1/2,1}^3; n=3: {-1,0,1}^6; n=4: {-1,1}^10 and structured vectors; n=5..9 structured (also degenerate) "
                   "vectors; states as int64, int8, float",
          "thorough": "n=4 adds {-1,0,1} on fields and all sign patterns of two coupling strengths; n=5: {-1,1} sign patterns of all couplings"}
ASSUMPTIONS = []
CHUNK = 1


def setup(ctx):
    import importlib
    env.bring_up(ctx, modules=("utils", "models"), fake_pool=False)
    ctx.land = importlib.import_module("coniii.ising.utils")


def cases(tier):
    th = tier == "thorough"
    for lo in range(0, 125, 25):
        yield {"n": 2, "set": "half", "lo": lo, "hi": lo + 25}
    for lo in range(0, 729, 81):
        yield {"n": 3, "set": "three", "lo": lo, "hi": lo + 81}
    for lo in range(0, 1024, 64):
        yield {"n": 4, "set": "sign", "lo": lo, "hi": lo + 64}
    if th:
        for lo in range(0, 81 * 64, 128):
            yield {"n": 4, "set": "mixed", "lo": lo, "hi": lo + 128}
        for lo in range(0, 1024, 32):
            yield {"n": 5, "set": "glass", "lo": lo, "hi": lo + 32}
    for n in (2, 3, 4, 5, 6, 7, 8, 9):
        D = n * (n + 1) // 2
        vs = [("zero",)] + [("unit", i, s) for i in range(D) for s in (1., -1.)] + exact.vectors(D, ["dense"], dense=20 if n < 8 else 8)
        for b in exact.blocks(vs, 24 if n < 8 else 6):
            yield {"n": n, "set": "vec", "vs": [list(v) for v in b]}


def vecs(case):
    n, D = case["n"], case["n"] * (case["n"] + 1) // 2
    if case["set"] == "vec":
        for v in case["vs"]:
            yield exact.vector(D, tuple(v))
        return
    for m in range(case["lo"], case["hi"]):
        if case["set"] == "half":
            al, d = (-1, -.5, 0, .5, 1), 3
        elif case["set"] == "three":
            al, d = (-1, 0, 1), 6
        elif case["set"] == "sign":
            al, d = (-1, 1), 10
        elif case["set"] == "glass":
            v = np.array([.25 * (-1) ** i for i in range(5)] + [1 if m >> i & 1 else -1 for i in range(10)], dtype=float)
            yield v
            continue
        else:
            f, c = divmod(m, 64)
            v = [(f // 3 ** i) % 3 - 1 for i in range(4)] + [(1 if c >> i & 1 else -1) * (1 + i % 2) for i in range(6)]
            yield np.array(v, dtype=float)
            continue
        out = []
        for _ in range(d):
            m, r = divmod(m, len(al))
            out.append(al[r])
        yield np.array(out, dtype=float)


def run_case(case, rec, ctx):
    n = case["n"]
    Ising = ctx.land.Ising
    S = np.array(list(itertools.product((-1, 1), repeat=n)))
    fam = exact.Family(n, 1, 2)
    fam01 = exact.Family(n, 0, 2)
    index = {tuple(s): i for i, s in enumerate(S.tolist())}
    flip = np.array([[index[tuple(-x if j == i else x for j, x in enumerate(s))] for i in range(n)] for s in S.tolist()])
    pairs = list(itertools.combinations(range(n), 2))
    for th in vecs(case):
        h, J = th[:n].copy(), th[n:].copy()
        what = "n=%d h=%s J=%s" % (n, h.tolist(), J.tolist())
        h.setflags(write=False), J.setflags(write=False)
        forms = [("arrays", h, J)]
        if case["set"] in ("vec", "half"):
            forms += [("lists", h.tolist(), J.tolist()), ("tuples", tuple(h.tolist()), tuple(J.tolist())),
                      ("strided", np.repeat(h, 2)[::2], np.repeat(J, 3)[::3])]
            if (h == h[0]).all():
                forms.append(("number for fields", float(h[0]), J))
            if (J == J[0]).all():
                forms.append(("number for couplings", h, float(J[0])))
            if not h.any():
                forms.append(("no fields", None, J))
            if not J.any():
                forms.append(("no couplings", h, None))
            if (th == th.astype(int)).all():
                forms += [("integers", h.astype(int), J.astype(int)), ("lists of integers", [int(x) for x in h], [int(x) for x in J])]
                if (h == h[0]).all() and (J == J[0]).all():
                    forms.append(("two integers", int(h[0]), int(J[0])))
        E = -(fam.O @ th)
        D = E[flip] - E[:, None]                   # energy change of every flip from every state
        tol = 1e-9 * (1 + np.abs(th).sum())
        # states reachable by strictly descending single flips
        reach = [None] * len(S)
        for i in np.argsort(E, kind="stable"):
            r = {int(i)}
            for f in range(n):
                if D[i, f] < -tol:
                    r |= reach[flip[i, f]]
            reach[i] = r
        minima = (D >= -tol).all(1)
        for name, hh, JJ in forms:
            try:
                m = Ising(n, hh, JJ)
            except Exception as e:
                rec.bad("form:" + name, "%s given as %s: %s" % (what, name, repr(e)[:150]))
                continue
            rec.trace()
            rec.check(np.allclose(m.fields(), h) and np.allclose(m.couplings(), J) and np.allclose(m.fields("1"), h) and np.allclose(m.couplings("1"), J),
                      "parameters", lambda: "%s given as %s is read as %s, %s" % (what, name, m.fields(), m.couplings()))
            p = fam.p(th)
            q = fam01.p(np.concatenate([np.asarray(m.fields("0"), dtype=float), np.asarray(m.couplings("0"), dtype=float)]))
            rec.check(np.allclose(p, q, atol=1e-8), "parameters:01", lambda: "%s (%s): the parameters reported in the 0/1 basis give another model" % (what, name))
            o = p @ fam.O
            o01 = p @ fam01.O
            tol_o = 1e-8 * (1 + np.abs(th).sum() * 1e-3)
            for b, w in (("1", o), ("0", o01)):
                c = np.asarray(m.correlations(b), dtype=float)
                rec.check(c.shape == w.shape and np.abs(c - w).max() < tol_o, "correlations:" + b,
                          lambda: "%s (%s): correlations in basis %s are %s instead of %s" % (what, name, b, c.tolist(), w.tolist()))
            rec.check(np.abs(np.asarray(m.correlations(), dtype=float) - o).max() < tol_o, "correlations:default", what)
            dts = (int, np.int8, float) if name == "arrays" else (int,)
            for i, s in enumerate(S):
                rec.state()
                for dt in dts:
                    x = s.astype(dt)
                    x.setflags(write=False)
                    try:
                        d = np.asarray(m.neighbor_dE(x), dtype=float)
                        b = m.find_basin(x)
                    except Exception as e:
                        rec.bad("raises", "%s (%s), state %s of %s: %s" % (what, name, s.tolist(), dt.__name__, repr(e)[:150]))
                        continue
                    rec.trans(n)
                    rec.check(d.shape == (n,) and np.abs(d - D[i]).max() < tol, "flip",
                              lambda: "%s (%s): energy changes of single flips of %s are %s instead of %s" % (what, name, s.tolist(), d.tolist(), D[i].tolist()))
                    k = index.get(tuple(int(v) for v in b))
                    if not rec.check(k is not None, "basin:state", lambda: "%s (%s): basin of %s is %s" % (what, name, s.tolist(), b)):
                        continue
                    # (zero-cost moves may be decided either way by rounding, so they are not counted as descents)
                    rec.check(minima[k], "basin:minimum", lambda: "%s (%s): basin of %s ends in %s, where a flip lowers the energy by %g"
                              % (what, name, s.tolist(), S[k].tolist(), -D[k].min()))
                    if not (np.abs(D) < 1e-9).any() or (th * 2 == np.round(th * 2)).all():
                        rec.check(k in reach[i], "basin:descent", lambda: "%s (%s): %s cannot reach %s by flips that each lower the energy"
                                  % (what, name, s.tolist(), S[k].tolist()))
                        if minima[i]:
                            rec.check(k == i, "basin:fixed", lambda: "%s (%s): local minimum %s is not returned unchanged (%s)" % (what, name, s.tolist(), S[k].tolist()))
        rec.sample({"n": n, "minima": int(minima.sum())})
