"""C13: model helper functions agree with the model definition."""
import itertools
import numpy as np
from mc import env
from mc.choice import SRC, law, Rng
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: every state of every small system of each model family is passed through the real helper functions and "
             "compared with the definition; reweighting is checked on every small sample, random neighbours on every answer of the generator")
RULE = "case = model family x function x size; all states (all samples up to the size bound) x a parameter set that separates all coefficients"
BOUNDS = {"quick": "selected states and parameters for n up to 70; pairwise in both bases n=2..6, no-field n=2..6, triplet n=3..5, Potts k=2..5 n=2..4, ternary n=2,3; samples of <=3 states (n=2,3; Potts k=2..4 n=2) under parameter changes up to 800; "
                   "neighbours: every state n<=7, random ones for n<=2 with every answer up to two rejections; pseudolikelihood views n=2..5, Potts k=2..4",
          "thorough": "n up to 8 (Potts 5 spins), samples of <=4 states"}
ASSUMPTIONS = ["energies are linear in the parameters"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)


def cases(tier):
    th = tier == "thorough"
    for n in range(2, 9 if th else 7):
        yield {"k": "energy", "fam": "ising", "n": n, "sym": 1}
        yield {"k": "energy", "fam": "ising", "n": n, "sym": 0}
        yield {"k": "energy", "fam": "nofield", "n": n, "sym": 1}
        yield {"k": "de", "n": n, "sym": 1}
        yield {"k": "de", "n": n, "sym": 0}
    for n in range(3, 7 if th else 6):
        yield {"k": "energy", "fam": "triplet", "n": n, "sym": 1}
    for q in (2, 3, 4, 5):
        for n in (2, 3, 4) + ((5,) if th and q < 4 else ()):
            yield {"k": "energy", "fam": "potts", "n": n, "q": q}
    for n in (9, 20, 40, 70) + ((140,) if th else ()):
        for sym in (0, 1):
            yield {"k": "energy", "fam": "ising", "n": n, "sym": sym, "wide": 1}
            yield {"k": "de", "n": n, "sym": sym, "wide": 1}
        yield {"k": "energy", "fam": "nofield", "n": n, "sym": 1, "wide": 1}
        if n < 30:
            yield {"k": "energy", "fam": "triplet", "n": n, "sym": 1, "wide": 1}
        for q in (3, 5):
            yield {"k": "energy", "fam": "potts", "n": n, "q": q, "wide": 1}
        yield {"k": "adj", "n": n, "wide": 1}
    for n in (2, 3):
        yield {"k": "ternary", "n": n}
    for n in range(1, 10 if th else 8):
        yield {"k": "adj", "n": n}
    for n in (1, 2):
        for m in (1, 2) if n == 2 and th else (1,):
            yield {"k": "random", "n": n, "m": m}
    top = 4 if th else 3
    for fam, n, q in (("ising", 2, 0), ("ising", 3, 0), ("nofield", 2, 0), ("nofield", 3, 0), ("potts", 2, 2), ("potts", 2, 3), ("potts", 2, 4), ("potts", 3, 2)):
        yield {"k": "reweight", "fam": fam, "n": n, "q": q, "top": top if n == 2 or th else 3}
    for n in (2, 3, 4, 5):
        yield {"k": "pseudo", "n": n}
        for q in (2, 3, 4):
            if q ** n <= 300:
                yield {"k": "pseudopotts", "n": n, "q": q}


def family(case):
    n = case["n"]
    S = None
    if "wide" in case:
        S = some_states(n, list(range(case["q"])) if case["fam"] == "potts" else (-1, 1) if case.get("sym", 1) else (0, 1))
    if case["fam"] == "potts":
        return PottsFamily(n, case["q"], S)
    if case["fam"] == "nofield":
        return Family(n, 1, 0, list(itertools.combinations(range(n), 2)), S)
    return Family(n, case.get("sym", 1), 3 if case["fam"] == "triplet" else 2, S=S)


def helpers(u, case):
    f = case["fam"]
    if f == "potts":
        return u.define_potts_helper_functions(case["q"])
    return {"ising": u.define_ising_helper_functions, "nofield": u.define_ising_helper_functions_sym,
            "triplet": u.define_triplet_helper_functions}[f]()


def close(rec, key, a, b, msg, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    ok = a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() < tol)
    return rec.check(ok, key, lambda: "%s\ngot %s\nwant %s" % (msg, a.tolist(), b.tolist()))


def run_case(case, rec, ctx):
    u, k, n = ctx.utils, case["k"], case["n"]
    if k == "energy":
        F = family(case)
        h = helpers(u, case)
        calc_e, calc_o = h[0], h[1]
        tag = "%s:" % case["fam"]
        close(rec, tag + "observables", calc_o(F.S.copy()), F.O, "observables of all states, n=%d" % n)
        for i in range(len(F.S)):
            close(rec, tag + "observables1", calc_o(F.S[i:i + 1].copy()), F.O[i:i + 1], "observables of %s" % F.S[i])
        D = F.O.shape[1]
        specs = vectors(D, ["zero", "unit", "dense"], dense=8)
        for spec in specs if "wide" not in case else [x for x in specs if x[0] != "unit" or x[1] % (1 + D // 40) in (0, 1) or x[1] == D - 1]:
            th = vector(D, spec)
            ref = -F.O @ th
            rec.state(len(F.S))
            rec.trans()
            rec.trace()
            close(rec, tag + "energy", calc_e(F.S.copy(), th.copy()), ref, tol=1e-9 * max(1, np.abs(th).sum() / 100), msg="energies, n=%d parameters %s" % (n, spec))
            i = (7 * D + len(spec)) % len(F.S)
            close(rec, tag + "energy1", calc_e(F.S[i:i + 1].copy(), th.copy()), ref[i:i + 1], tol=1e-9 * max(1, np.abs(th).sum() / 100), msg="energy of %s parameters %s" % (F.S[i], spec))
        rec.sample({"family": case["fam"], "n": n, "states": len(F.S), "parameters": D})
    elif k == "de":
        F = family(dict(case, fam="ising"))
        for i in range(F.O.shape[1]):
            rec.trans()
            close(rec, "de", u.calc_de(F.S.copy(), i), -F.O[:, i], "derivative with respect to parameter %d, n=%d" % (i, n))
        rec.state(len(F.S))
        rec.trace()
    elif k == "ternary":
        # fields for each of the three states of each unit are announced; what is read are columns that do not exist
        f = u.define_ternary_helper_functions()[1]
        f = getattr(f, "py_func", f)
        S = np.array(list(itertools.product((-1, 0, 1), repeat=n)))
        rec.trans()
        try:
            f(S)
        except IndexError:
            rec.bad("ternary:columns", "the observables of the ternary model read columns n..3n-1 of a state with n=%d units" % n)
    elif k == "adj":
        for f, vals, flip in ((u.adj, (0, 1), lambda x: 1 - x), (u.adj_sym, (-1, 1), lambda x: -x)):
            for s in itertools.product(vals, repeat=n) if "wide" not in case else [tuple(x.tolist()) for x in some_states(n, vals)]:
                rec.state()
                rec.trans()
                for dt in (int, float):
                    a = np.array(s, dtype=dt)
                    out = f(a)
                    want = sorted(tuple(flip(x) if j == i else x for j, x in enumerate(s)) for i in range(n))
                    rec.check(sorted(tuple(int(x) for x in r) for r in out) == want, "adj", lambda: "neighbours of %s: %s" % (s, out))
                    rec.check(tuple(a) == s, "adj:argument", "state %s was changed to %s" % (s, a))
            rec.trace()
    elif k == "random":
        m = case["m"]

        class Cut(Exception):
            pass
        for f, vals in ((u.adj, (0, 1)), (u.adj_sym, (-1, 1))):
            g = getattr(f, "py_func", f)
            for s in itertools.product(vals, repeat=n):
                def one():
                    a = np.array(s)
                    calls = [0]
                    real = np.random.rand

                    def rand(*d):
                        calls[0] += 1
                        if calls[0] > m + 2:
                            raise Cut
                        return real(*d)
                    np.random.rand = rand
                    try:
                        o = g(a, m)
                    except Cut:
                        return "cut"
                    finally:
                        np.random.rand = real
                    return tuple(tuple(int(x) for x in r) for r in o), tuple(a)
                with env.controlled():
                    L = law(one, 2, rec=rec)
                rec.state()
                L.pop("cut", 0)
                seen = {}
                for (o, a), p in L.items():
                    rec.check(len(o) == n + m and a == s, "random:shape", "neighbours of %s: %s" % (s, o))
                    rec.check(all(x != s and set(x) <= set(vals) for x in o[n:]), "random:self", "random neighbours of %s: %s" % (s, o[n:]))
                    for x in o[n:]:
                        seen[x] = seen.get(x, 0) + p
                rec.check(len(seen) == 2 ** n - 1 and max(seen.values()) - min(seen.values()) < 1e-9, "random:law", "random neighbours of %s: %s" % (s, seen))
    elif k == "reweight":
        F = family(case)
        mch = helpers(u, case)[2]
        D = F.O.shape[1]
        specs = [("zero",)] + [("unit", i, s) for i in range(D) for s in (.5, -.5, 3.)] + [("dense", m, sc) for m in (0, 1) for sc in (.1, 1., 5.)]
        for size in range(1, case["top"] + 1):
            for ms in itertools.combinations_with_replacement(range(len(F.S)), size):
                ix = list(ms)[::-1] if sum(ms) % 2 else list(ms)
                X, O = F.S[ix].copy(), F.O[ix]
                rec.state()
                for spec in specs + ([("unit", i, s) for i in range(D) for s in (800., -800.)] + [("dense", 2, 300.)] if size > 1 else []):
                    d = vector(D, spec)
                    e = O @ d
                    w = np.exp(e - e.max())
                    rec.trans()
                    close(rec, "reweight:" + case["fam"], mch(X, d.copy()), (w / w.sum()) @ O, "sample %s moved by %s" % (X.tolist(), spec), 1e-8)
                rec.trace()
    elif k == "pseudo":
        mult, obs = u.define_pseudo_ising_helper_functions(n)
        F = Family(n, 1, 2)
        D = F.O.shape[1]
        for r in range(n):
            idx = [a for a, c in enumerate(F.names) if r in c]
            for spec in vectors(D, ["zero", "unit", "dense"], dense=4):
                th = vector(D, spec)
                m, ix = mult(r, th.copy())
                rec.trans()
                rec.check(sorted(ix) == idx, "pseudo:index", "unit %d of %d: parameters %s instead of %s" % (r, n, list(ix), idx))
                close(rec, "pseudo:multipliers", m, th[list(ix)], "unit %d of %d" % (r, n))
            close(rec, "pseudo:observables", obs(r, F.S.copy()), F.O[:, list(ix)], "unit %d of %d" % (r, n))
            rec.state(len(F.S))
        rec.trace()
    else:
        q = case["q"]
        mult, obs = u.define_pseudo_potts_helper_functions(n, q)
        F = PottsFamily(n, q)
        D = F.O.shape[1]
        row = {tuple(s): i for i, s in enumerate(F.S.tolist())}
        pairs = list(itertools.combinations(range(n), 2))
        for r in range(n):
            idx = [a * n + r for a in range(q)] + [q * n + c for c, p in enumerate(pairs) if r in p]
            for spec in vectors(D, ["zero", "unit", "dense"], dense=4):
                th = vector(D, spec)
                m, ix = mult(r, th.copy())
                rec.trans()
                rec.check(sorted(ix) == sorted(idx), "pseudopotts:index", "unit %d of %d: parameters %s instead of %s" % (r, n, list(ix), idx))
                close(rec, "pseudopotts:multipliers", m, th[list(ix)], "unit %d of %d" % (r, n))
            o, oo, os_ = obs(r, F.S.copy())
            ix = list(ix)
            close(rec, "pseudopotts:observables", o, F.O[:, ix], "unit %d of %d" % (r, n))
            rec.check(len(oo) == q - 1, "pseudopotts:others", "%d alternatives" % len(oo))
            for s in range(len(F.S)):
                st = F.S[s].tolist()
                rec.check(sorted(list(os_[s]) + [st[r]]) == list(range(q)), "pseudopotts:alternatives", "unit %d of %s: %s" % (r, st, os_[s]))
                for a in range(q - 1):
                    st2 = list(st)
                    st2[r] = int(os_[s][a])
                    close(rec, "pseudopotts:alternative", oo[a][s], F.O[row[tuple(st2)]][ix], "unit %d of %s set to %d" % (r, st, st2[r]))
            rec.state(len(F.S))
        rec.trace()
