"""C15: minimum probability flow optimises its documented objective."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration of all small data sets: the flow out of every data state into every allowed neighbour is summed from the "
             "definition and compared with the objective, its logarithm and both gradients of the real code, and with what the solver returns")
RULE = ("case = size x block of data sets; each data set x {all neighbours, only non-data neighbours} x parameter set; solver cases x "
        "{logarithmic, plain} x {with, without gradient} x {default, user's neighbour function}")
BOUNDS = {"quick": "objective: selected data sets of up to 20 spins, and every data set with <=4 rows of 2 spins, every subset of the 8 states of 3 spins with two multiplicity patterns, 5 parameter "
                   "vectors; solver: every count vector in {1,2,3}^4 (2 spins), 40 full-support count vectors of 3 spins; value and slope reported for data of up to 70 spins and 103301 rows, and for every sequence of 3 problems put to one object",
          "thorough": "adds every unit vector to the parameters, <=6 rows of 2 spins, all count vectors in {1,2}^8 of 3 spins, triplet and 4-spin data"}
ASSUMPTIONS = ["solver optimality is judged where all states occur in the data, so that the convex objective has a finite minimiser"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers"))
    ctx.utils.define_ising_helper_functions()
    ctx.utils.adj(np.array([0, 1]))


def cases(tier):
    th = tier == "thorough"
    two = [c for m in range(1, (6 if th else 4) + 1) for c in itertools.combinations_with_replacement(range(4), m)]
    for b in blocks(two, 12):
        yield {"k": "objective", "n": 2, "rows": b, "th": th}
    three = [[s for s in range(8) if m >> s & 1] for m in range(1, 256)]
    three = [x + (x[:: 2] if len(x) % 2 else x[1::2]) for x in three]
    for b in blocks(three, 16):
        yield {"k": "objective", "n": 3, "rows": b, "th": th}
    cs = list(itertools.product((1, 2, 3), repeat=4))
    for b in blocks(cs, 9):
        yield {"k": "solve", "n": 2, "counts": b}
    cs = list(itertools.product((1, 2), repeat=8))
    for b in blocks(cs if th else cs[::7] + [tuple(range(1, 9)), tuple(range(8, 0, -1))], 4):
        yield {"k": "solve", "n": 3, "counts": b}
    for n in (7, 12, 20) + ((40,) if th else ()):
        yield {"k": "objective", "n": n, "wide": 1, "rows": [[0, 1, 2, 3, 4, 5, 6, 2, 2, 1], [4, 5], [0, 2, 6, 7]], "th": False}
    # many rows
    yield {"k": "objective", "n": 3, "rows": [many(8, 1013, 1), many(7, 2477, 3), many(4, 4099, 5)], "th": False}
    for n in (2, 3):
        yield {"k": "adjacent", "n": n}
    for n in (3, 33, 64, 65, 70):
        yield {"k": "problem", "n": n, "rows": [[0, 1, 2, 3, 0, 5], [0, 3, 6, 6, 6], [4, 1, 5, 2]]}
    yield {"k": "problem", "n": 3, "rows": [[0] * 40000 + [1, 2, 1], [3] * 70001 + [0] * 33000 + [5] * 300]}
    for ops in itertools.product(range(4), repeat=3):
        yield {"k": "again", "n": 3, "rows": [0, 1, 2, 3, 0, 5], "ops": ops}
    yield {"k": "triplet"}


def many(m, rows, a):
    """a long sequence over m letters, unequally frequent"""
    return [(i * i * a + i // 3) % m for i in range(rows)]


def nbr(s):
    return [tuple(1 - x if i == j else x for j, x in enumerate(s)) for i in range(len(s))]


def far(s):
    """a neighbour relation of our own: single changes and the opposite state"""
    return nbr(s) + [tuple(1 - x for x in s)]


def flow(F, th, uniq, cnt, allowed):
    """K and its gradient from the definition"""
    row = {tuple(s): i for i, s in enumerate(F.S.tolist())}
    E = -F.O @ th
    K, g = 0., np.zeros(len(th))
    for s, c in zip(uniq, cnt):
        for t in allowed[s]:
            w = c * math.exp(.5 * (E[row[s]] - E[row[t]]))
            K += w
            g += w * .5 * (F.O[row[t]] - F.O[row[s]])
    m = sum(cnt)
    return K / m, g / m


def close(rec, key, a, b, msg, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return rec.check(a.shape == b.shape and np.abs(a - b).max() < tol * max(1, np.abs(b).max()), key,
                     lambda: "%s: got %s, definition gives %s" % (msg, a, b))


def run_case(case, rec, ctx):
    S, u, k = ctx.solvers, ctx.utils, case["k"]
    if k == "triplet":
        return triplet(case, rec, ctx)
    if k in ("problem", "again"):
        return problem(case, rec, ctx)
    n = case["n"]
    states = None
    if "wide" in case:
        data = [tuple(x) for x in some_states(n, (0, 1), 6).tolist()] + [tuple(1 if i in (0, n // 2) else 0 for i in range(n))]
        data = list(dict.fromkeys(data + [nbr(data[2])[1]]))
        states = np.array(data + sorted({t for s in data for t in nbr(s)} - set(data)))
    F = Family(n, 0, 2, S=states)
    D = F.O.shape[1]
    sts = [tuple(s) for s in F.S.tolist()]
    if k == "adjacent":
        # every set of data states: which neighbours remain
        for m in range(1, 2 ** len(sts)):
            uniq = [sts[i] for i in range(len(sts)) if m >> i & 1]
            X = np.array(uniq)
            mpf = S.MPF(2 * X - 1, iprint=False) if m < 40 else mpf
            for fn, ref in ((None, nbr), (far, far)):
                mpf.adj = u.adj if fn is None else (lambda s: np.array(far(tuple(int(x) for x in s)), dtype=float))
                for conn in (True, False):
                    want = [[t for t in ref(s) if conn or t not in uniq] for s in uniq]
                    rec.state()
                    rec.trans()
                    try:
                        got = mpf.list_adjacent_states(X.copy(), conn)
                        got = [sorted(tuple(int(x) for x in t) for t in a) for a in got]
                    except Exception as e:
                        got = "refused"
                    if any(not w for w in want):
                        rec.check(got == "refused", "adjacent:isolated", "data %s: a data state without allowed neighbour is accepted" % uniq)
                    else:
                        rec.check(got == [sorted(w) for w in want], "adjacent", "data %s, all neighbours=%s: %s instead of %s" % (uniq, conn, got, want))
            rec.trace()
        return
    if k == "objective":
        specs = [("zero",), ("dense", 0, .1), ("dense", 1, 1.), ("dense", 2, 5.), ("unit", D - 1, 2.)]
        if case["th"]:
            specs += [("unit", i, s) for i in range(D) for s in (1., -1.)]
        for rows in case["rows"]:
            data = [sts[i] for i in rows]
            uniq = sorted(set(data))
            cnt = [data.count(s) for s in uniq]
            X = np.array(data)
            X.setflags(write=False)
            Xu, Xc = np.array(uniq), np.array(cnt)
            for conn in (True, False):
                allowed = {s: [t for t in nbr(s) if conn or t not in uniq] for s in uniq}
                if any(not a for a in allowed.values()):
                    continue
                for grad in (False, True):
                    mpf = S.MPF(2 * X - 1, iprint=False, calc_de=u.calc_de if grad else None)
                    adj = mpf.list_adjacent_states(Xu.copy(), conn)
                    rec.state()
                    for spec in specs:
                        th = vector(D, spec)
                        K, g = flow(F, th, uniq, cnt, allowed)
                        a = mpf.K(Xu.copy(), Xc.copy(), [x.copy() for x in adj], th.copy())
                        b = mpf.logK(Xu.copy(), Xc.copy(), [x.copy() for x in adj], th.copy())
                        what = "data %s all neighbours=%s parameters %s" % (data, conn, spec)
                        rec.trans(2)
                        if grad:
                            close(rec, "K:gradient", a[1], g, what)
                            close(rec, "logK:gradient", b[1], g / K, what)
                            a, b = a[0], b[0]
                        close(rec, "K", np.reshape(a, ()), K, what)
                        close(rec, "logK", np.reshape(b, ()), math.log(K), what)
                    rec.trace()
        rec.sample({"data": data, "neighbours": {str(s): len(a) for s, a in allowed.items()}})
        return
    for cnt in case["counts"]:
        X = np.repeat(2 * F.S - 1, cnt, axis=0)
        X = X[np.argsort([(7 * i) % 11 for i in range(len(X))], kind="stable")]
        X.setflags(write=False)
        for name, rel in (("default", nbr), ("own", far)):
            allowed = {s: rel(s) for s in sts}
            kw = {} if name == "default" else {"adj": lambda s: np.array(far(tuple(int(x) for x in s)), dtype=float)}
            for grad in (True, False):
                for uselog in (True, False):
                    de = None
                    used = []
                    if grad:
                        def de(s, i):
                            used.append(i)
                            return u.calc_de(s, i)
                    mpf = env.quietly(S.MPF, X, iprint=False, calc_de=de, **kw)
                    x, soln = env.quietly(mpf.solve, uselog=uselog, full_output=True)
                    rec.trans()
                    th01 = np.array(u.ising_convert_params(u.split_concat_params(np.asarray(x), n), "01", True))
                    K, g = flow(F, th01, sts, cnt, allowed)
                    r = np.abs(g / K).max()
                    what = "counts %s neighbours=%s gradient=%s log=%s" % (cnt, name, grad, uselog)
                    rec.check(r < (1e-4 if grad else 1e-3), "solve:stationary", "%s: gradient %g at the returned parameters %s" % (what, r, x))
                    rec.check(set(used) == set(range(D)) if grad else True, "solve:derivative", "%s: user's derivative function was not used" % what)
                    close(rec, "solve:value", np.reshape(soln["fun"], ()), math.log(K) if uselog else K, what, 1e-7)
                    close(rec, "solve:output", th01, soln["x"], what, 1e-8)
                    close(rec, "solve:kept", mpf.multipliers, x, what)
                    if grad and uselog:
                        y = env.quietly(mpf.solve, initial_guess=np.array(x) + .3)
                        close(rec, "solve:guess", y, x, what + " from another guess", 1e-2)
        rec.state()
        rec.trace()
    rec.sample({"counts": list(cnt), "solution": [float(v) for v in x]})


def problem(case, rec, ctx):
    """the value and the slope reported by the solver belong to the data and options it was given, also on an object
    that has solved other problems"""
    S, u, n = ctx.solvers, ctx.utils, case["n"]
    base = [tuple((i * k // 3 + i * i * (k + 1) // 5) % 2 for i in range(n)) for k in range(4)]
    base += [base[0][:-1] + (1 - base[0][-1],), base[1][:-2] + (1 - base[1][-2], base[1][-1])]
    if n == 3:
        base = [(0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 1), (1, 0, 0), (0, 1, 0)]
    assert len(set(base)) == len(base)
    for rows in case["rows"] if case["k"] == "problem" else [case["rows"]]:
        data = [base[i % len(base)] for i in rows]
        uniq = sorted(set(data))
        cnt = [data.count(s) for s in uniq]
        F = Family(n, 0, 2, S=np.array(uniq + sorted({t for s in uniq for t in nbr(s)} - set(uniq))))
        D = F.O.shape[1]
        X = 2 * np.array(data) - 1
        X.setflags(write=False)
        history = [(conn, log) for conn in (True, False) for log in (True, False)]
        if case["k"] == "again":
            history = [history[i] for i in case["ops"]]
        shared = env.quietly(S.MPF, X, iprint=False, calc_de=u.calc_de)
        for pos, (conn, log) in enumerate(history):
            mpf = shared if case["k"] == "again" else env.quietly(S.MPF, X, iprint=False, calc_de=u.calc_de)
            guess = vector(D, ("dense", pos % 3, .3 if n < 9 else .05))
            x, soln = env.quietly(mpf.solve, initial_guess=guess.copy(), uselog=log, all_connected=conn, full_output=True, solver_kwargs={"maxiter": 0 if n > 3 else 4})
            allowed = {s: [t for t in nbr(s) if conn or t not in uniq] for s in uniq}
            K, g = flow(F, np.asarray(soln["x"]), uniq, cnt, allowed)
            what = "n=%d, %d rows, rows %s.., all neighbours=%s log=%s, problems solved before by the object: %d" % (n, len(rows), rows[:6], conn, log, pos if mpf is shared else 0)
            close(rec, "problem:value", np.reshape(soln["fun"], ()), math.log(K) if log else K, what, 1e-8)
            close(rec, "problem:slope", soln["jac"], g / K if log else g, what, 1e-7)
            rec.trans()
            rec.state()
        rec.trace()


def triplet(case, rec, ctx):
    """another model family: three-body interactions, neighbours and energies supplied by the user"""
    S, u = ctx.solvers, ctx.utils
    n = 3
    F = Family(n, 0, 3)
    D = F.O.shape[1]
    sts = [tuple(s) for s in F.S.tolist()]
    row = {s: i for i, s in enumerate(sts)}
    m = env.quietly(ctx.models.Triplet, [np.zeros(3), np.zeros(3), np.zeros(1)])
    obs = u.define_triplet_helper_functions()[1]
    for cnt in ((1, 2, 1, 3, 2, 1, 1, 2), (3, 1, 1, 1, 1, 2, 2, 1), (1,) * 8):
        X = np.repeat(2 * F.S - 1, cnt, axis=0)
        for grad in (True, False):
            de = (lambda s, i: -np.asarray(obs(s))[:, i]) if grad else None
            mpf = env.quietly(S.MPF, X, model=m, calc_observables=obs, calc_de=de, iprint=False)
            x = env.quietly(mpf.solve)
            th01 = np.array(u.ising_convert_params(u.split_concat_params(np.asarray(x), n), "01", True))
            K, g = flow(F, th01, sts, cnt, {s: nbr(s) for s in sts})
            rec.trans()
            rec.check(np.abs(g / K).max() < 1e-3, "triplet:stationary", "counts %s: gradient %s at %s" % (cnt, g / K, x))
        rec.state()
        rec.trace()
