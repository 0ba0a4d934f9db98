"""C20: coarse graining merges every unit into exactly one group, greedily on the most similar pair."""
import itertools
import numpy as np
from mc import env

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: the real coarse graining is run on every similarity pattern of small systems and on every small data set; "
             "an independent monitor replays each round and accepts exactly the greedy merges")
RULE = "case = block of similarity patterns (units, rounds) or block of data sets; every group, every merge and every coarse column is judged"
BOUNDS = {"quick": "similarities: all patterns over {-2..3} for 2-3 units, all over {-1,0,1} (and all weak orders of 6 values, shifted below, across and "
                   "above zero) for 4, all over {-1,1} x third value on one pair for 5, two rounds for 5 units (all {-1,1} patterns x 27) ; "
                   "6-9 units: all 0/1/2 placements of the best and second best pair, up to 3 rounds; 12-40 units: some placements, up to 4 rounds; weak orders of 4 units with steps of 2^-30 to 2^-60; real-valued data of 15 forms; data: all +/-1 sets of 2-3 rows x 3-4 columns, 2 x 5-6",
          "thorough": "adds all {-1,0,1} patterns for 5 units, data of 4 x 4, 3 x 5 and 2 x 8"}
ASSUMPTIONS = ["the similarity and the coarse function supplied by the caller are pure functions of the columns they are given"]
CHUNK = 1


# a unit is its set of original units (low bits) and how often the coarse function was applied to it
TAG = 48
MASK = 2 ** TAG - 1


def fuse(Y):
    return (Y & MASK).sum(1) + ((Y >> TAG).max(1) + 1 << TAG)


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)


def weak_orders(m):
    """all rank patterns of m values (ranks 0..r-1, all used)"""
    for t in itertools.product(range(m), repeat=m):
        if set(t) == set(range(max(t) + 1)):
            yield t


def cases(tier):
    th = tier == "thorough"
    yield {"k": "pat", "n": 2, "set": "small"}
    yield {"k": "pat", "n": 3, "set": "small"}
    for a in range(6):
        yield {"k": "pat", "n": 4, "set": "weak", "first": a}
    for a in itertools.product((-1, 0, 1), repeat=2):
        yield {"k": "pat", "n": 4, "set": "three", "first": list(a)}
    for a in itertools.product((-1, 1), repeat=3):
        yield {"k": "pat", "n": 5, "set": "two", "first": list(a)}
    if th:
        for a in itertools.product((-1, 0, 1), repeat=3):
            yield {"k": "pat", "n": 5, "set": "three", "first": list(a)}
    for a in itertools.product((-1, 1), repeat=5):
        yield {"k": "rounds", "n": 5, "first": list(a)}
    for n in (6, 7, 8, 9):
        for sh in (-3., 0., 1.):
            yield {"k": "best", "n": n, "shift": sh}
    for base, step in ((1., -45), (0., -60), (-1., -40), (1000., -30)):
        for a in range(6):
            yield {"k": "fine", "base": base, "step": step, "first": a}
    for r, c in ((3, 4), (5, 5), (40, 7), (300, 12), (20, 33)):
        for v in range(3):
            yield {"k": "real", "r": r, "c": c, "v": v}
    # larger systems
    for n in (12, 17, 24, 33, 40):
        yield {"k": "best", "n": n, "shift": 0., "few": 1}
    for n, r in ((20, 300), (33, 40), (9, 1500)):
        yield {"k": "data", "r": r, "c": n, "lo": 0, "hi": 6, "wide": 1}
    shapes = [(2, 2), (3, 2), (2, 3), (3, 3), (2, 4), (3, 4), (2, 5), (2, 6)] + ([(4, 4), (3, 5), (2, 8)] if th else [])
    for r, c in shapes:
        tot = 2 ** (r * c)
        for lo in range(0, tot, 1024):
            yield {"k": "data", "r": r, "c": c, "lo": lo, "hi": min(tot, lo + 1024)}


def judge(rec, n, rounds, sim, out, what):
    """out: (coarse array holding bit masks in every row, groups). sim(frozenset, frozenset) -> similarity."""
    X, groups = out
    X = np.asarray(X)
    sets = [list(g) for g in groups]
    flat = [i for g in sets for i in g]
    ok = rec.check(sorted(flat) == list(range(n)), "partition", lambda: "%s: groups %s do not contain each of the %d units exactly once" % (what(), sets, n))
    want = n
    for _ in range(rounds):
        want = (want + 1) // 2
    ok = rec.check(len(sets) == want and X.shape[1] == want, "groups:number",
                   lambda: "%s: %d groups and %d columns, %d rounds on %d units give %d" % (what(), len(sets), X.shape[1], rounds, n, want)) and ok
    if not ok:
        return
    for g, col in zip(sets, X.T):
        rec.check((col >> TAG == rounds).all(), "applied", lambda: "%s: the coarse function was applied %s times to the units of group %s in %d rounds"
                  % (what(), (col >> TAG).tolist(), g, rounds))
        if not rec.check((col & MASK == sum(1 << i for i in g)).all(), "column", lambda: "%s: the column of group %s is made from other units (bits %s)" % (what(), g, col.tolist())):
            return
    return [frozenset(g) for g in sets]


def greedy_ok(units, merged, sim):
    """can `merged` (groups after one round) come from merging the most similar remaining pair again and again?"""
    pairs = [tuple(u for u in units if u <= m) for m in merged]
    if any(len(p) not in (1, 2) or frozenset().union(*p) != m for p, m in zip(pairs, merged)):
        return False
    singles = [p for p in pairs if len(p) == 1]
    pairs = [p for p in pairs if len(p) == 2]
    if len(singles) != len(units) % 2:
        return False
    left = set(units)
    while pairs:
        best = max(sim(a, b) for a, b in itertools.combinations(sorted(left, key=sorted), 2))
        for p in pairs:
            if sim(*p) == best:
                break
        else:
            return False
        pairs.remove(p)
        left -= set(p)
    return True


def run_pattern(rec, u, n, rounds, sim, what):
    X = np.array([[1 << i for i in range(n)]] * 2)
    keep = X.copy()
    seen = []
    B = lambda v: frozenset(i for i in range(n) if int(v) >> i & 1)

    def sim_func(Y):
        units = [B(v & MASK) for v in Y[0]]
        seen.append(units)
        return np.array([sim(a, b) for a, b in itertools.combinations(units, 2)], dtype=float)

    rec.trans()
    try:
        out = u.coarse_grain_with_func(X, rounds, sim_func, fuse)
    except Exception as e:
        return rec.bad("raises", "%s: raised %s" % (what(), repr(e)[:200]))
    rec.check(np.array_equal(X, keep), "input", lambda: "%s: the data passed in were modified" % what())
    last = judge(rec, n, rounds, sim, out, what)
    if last is None:
        return
    # every round is judged through the systems that the similarity function was shown
    stages = [[frozenset([i]) for i in range(n)]]
    for s in seen:
        if set(s) != set(stages[-1]):
            stages.append(s)
    if set(stages[-1]) != set(last):
        stages.append(last)
    if rec.check(len(stages) == rounds + 1, "rounds", lambda: "%s: saw %d stages for %d rounds" % (what(), len(stages) - 1, rounds)):
        for a, b in zip(stages, stages[1:]):
            rec.check(greedy_ok(a, b, sim), "greedy", lambda: "%s: %s -> %s does not merge the most similar remaining pair first"
                      % (what(), [sorted(x) for x in a], [sorted(x) for x in b]))


def table(n, vals):
    t = {}
    for v, (i, j) in zip(vals, itertools.combinations(range(n), 2)):
        t[frozenset([i]), frozenset([j])] = t[frozenset([j]), frozenset([i])] = v
    return t


def run_case(case, rec, ctx):
    u = ctx.utils
    k = case["k"]
    rec.trace()
    if k == "pat":
        n = case["n"]
        m = n * (n - 1) // 2
        if case["set"] == "small":
            pats = itertools.product((-2, -1, 0, 1, 2, 3), repeat=m)
        elif case["set"] == "weak":
            # all weak orders whose first value has the given rank; zero lies above, inside or below all values
            pats = (tuple(x - s for x in w) for w in weak_orders(m) if w[0] == case["first"] for s in (0, 1, 3, 6))
        elif case["set"] == "three":
            pats = (tuple(case["first"]) + p for p in itertools.product((-1, 0, 1), repeat=m - len(case["first"])))
        else:
            f = len(case["first"])
            pats = (tuple(case["first"]) + p for p in itertools.product((-1, 1), repeat=m - f))
            pats = (p[:j] + (v,) + p[j + 1:] for p in pats for j, v in ((0, p[0]), (m - 1, 0), (m // 2, 2)))
        for p in pats:
            t = table(n, p)
            rec.state()
            # (log2(units) must exceed the number of rounds)
            for r in ([0, 1] if n > 2 else [0]):
                run_pattern(rec, u, n, r, lambda a, b: t[a, b], lambda: "%d units, %d rounds, similarities %s" % (n, r, list(p)))
            rec.sample({"units": n, "similarities": list(p)})
    elif k == "fine":
        # similarities that differ by very little
        n = 4
        for w in weak_orders(6):
            if w[0] != case["first"] or w[1] > 2:
                continue
            t = table(n, [case["base"] + x * 2. ** case["step"] for x in w])
            rec.state()
            run_pattern(rec, u, n, 1, lambda a, b: t[a, b], lambda: "4 units, 1 round, similarities %g + %s * 2^%d" % (case["base"], list(w), case["step"]))
    elif k == "real":
        # real-valued data, averaged
        R, C = case["r"], case["c"]
        X = np.array([(np.sqrt(2 + 3 * i + 7 * (j // 2) + i * j * case["v"]) * 1.7) % 1 - .4 + .01 * j for i in range(R) for j in range(C)]).reshape(R, C)
        for fn, sim_func in (("mean product", lambda Y: [np.mean(Y[:, a] * Y[:, b]) for a, b in itertools.combinations(range(Y.shape[1]), 2)]),
                             ("closeness", lambda Y: np.array([-np.abs(Y[:, a] - Y[:, b]).sum() for a, b in itertools.combinations(range(Y.shape[1]), 2)]))):
            for gn, g in (("mean", lambda Y: Y.mean(1)), ("weighted", lambda Y: Y.max(1) * 1.25), ("sum", lambda Y: Y.sum(1))):
                for r in (1, 2):
                    if 2 ** r >= C:
                        continue
                    rec.state()
                    rec.trans()
                    seen = []

                    def grain(Y):
                        v = g(Y)
                        seen.append((Y.copy(), v.copy()))
                        return v
                    keep = X.copy()
                    what = lambda: "real data %dx%d (%d), %s, %s, %d rounds" % (R, C, case["v"], fn, gn, r)
                    Y, groups = u.coarse_grain_with_func(X, r, sim_func, grain)
                    rec.check(np.array_equal(X, keep), "input", lambda: "%s: the data passed in were modified" % what())
                    if not rec.check(sorted(i for g in groups for i in g) == list(range(C)) and np.shape(Y) == (R, len(groups)), "partition:real", lambda: "%s: groups %s" % (what(), groups)):
                        continue
                    # every column is what the coarse function made last
                    for q, col in zip(groups, np.asarray(Y).T):
                        rec.check(any(np.array_equal(col, v) for _, v in seen), "column:real", lambda: "%s: column of group %s is no value of the coarse function: %s" % (what(), q, col[:5].tolist()))
                        if r == 1:
                            w = [g(X[:, list(o)]) for o in itertools.permutations(q)]
                            rec.check(any(np.allclose(col, x, rtol=0, atol=1e-14) for x in w), "column:real", lambda: "%s: column of group %s is %s" % (what(), q, col[:5].tolist()))
                    if r == 1:
                        t = table(C, [float(x) for x in sim_func(X)])
                        rec.check(greedy_ok([frozenset([i]) for i in range(C)], [frozenset(q) for q in groups], lambda a, b: t[a, b]), "greedy:real",
                                  lambda: "%s: groups %s do not merge the most similar remaining pair first" % (what(), groups))
    elif k == "rounds":
        n = 5
        for p in itertools.product((-1, 1), repeat=5):
            t = table(n, tuple(case["first"]) + p)
            for q in itertools.product((-1, 0, 2), repeat=3):
                rec.state()

                def sim(a, b):
                    if len(a) == len(b) == 1:
                        return t[a, b]
                    return q[(min(a) + min(b) + len(a) + len(b)) % 3]
                # after the first round at most one unit is single, so pairs of single units belong to the first round only
                run_pattern(rec, u, n, 2, sim, lambda: "5 units, 2 rounds, similarities %s then %s" % (case["first"] + list(p), list(q)))
    elif k == "best":
        n = case["n"]
        pairs = list(itertools.combinations(range(n), 2))
        L = len(pairs)
        some = [0, 1, L // 3, L // 2, L - 2, L - 1] if "few" in case else range(L)
        for a in some:
            for b in some:
                rec.state()
                vals = [(i * 7 % 11) / 16. for i in range(len(pairs))]
                vals[b] = 1.
                vals[a] = 2.
                vals = [v + case["shift"] for v in vals]
                t = table(n, vals)

                def sim(x, y):
                    return t[x, y] if len(x) == len(y) == 1 else case["shift"] + ((sum(x) * 3 + sum(y) * 3 + len(x) * len(y)) % 13) / 16.
                for r in ((1, 2) if n <= 8 else (1, 3) if n < 33 else (2, 4)):
                    run_pattern(rec, u, n, r, sim, lambda: "%d units, %d rounds, best pairs %s, %s, shift %g" % (n, r, pairs[a], pairs[b], case["shift"]))
    else:
        R, C = case["r"], case["c"]
        corr = lambda Y: u.pair_corr(Y)[1]
        cov = lambda Y: u.pair_corr(Y, subtract_mean=True)[1]
        def majority(Y):
            s = Y.sum(1)
            return np.where(s == 0, Y[:, 0], np.sign(s))
        ident = {}
        for m in range(case["lo"], case["hi"]):
            if "wide" in case:
                # units in groups of similar ones
                X = np.array([1 - 2 * ((i * i * (j // (m + 1) + 1) + i // 5 + (j if (i + j) % (5 + m) == 0 else 0)) // 2 % 2) for i in range(R) for j in range(C)]).reshape(R, C)
            else:
                X = np.array([1 - 2 * (m >> b & 1) for b in range(R * C)]).reshape(R, C)
            rec.state()
            for nm, f in (("mean product", corr), ("covariance", cov)):
                rounds = max(r for r in range(5) if 2 ** r < C)
                for r in range(rounds + 1):
                    rec.trans()
                    calls = []

                    def grain(Y):
                        v = majority(Y)
                        calls.append((Y.copy(), v))
                        return v
                    what = lambda: "data %s, %s, %d rounds" % (X.tolist(), nm, r)
                    keep = X.copy()
                    try:
                        Y, groups = u.coarse_grain_with_func(X, r, f, grain)
                    except Exception as e:
                        rec.bad("raises", "%s: raised %s" % (what(), repr(e)[:200]))
                        continue
                    rec.check(np.array_equal(X, keep), "input", lambda: "%s: the data passed in were modified" % what())
                    rec.check(sorted(i for g in groups for i in g) == list(range(C)), "partition:data",
                              lambda: "%s: groups %s do not contain every unit exactly once" % (what(), groups))
                    rec.check(np.shape(Y) == (R, len(groups)) and np.asarray(Y).dtype == X.dtype, "shape:data",
                              lambda: "%s: coarse data of shape %s for %d groups" % (what(), np.shape(Y), len(groups)))
                    if r == 0:
                        rec.check(np.array_equal(Y, X) and [list(g) for g in groups] == [[i] for i in range(C)], "none", lambda: "%s: no rounds changed the data" % what())
                    if r == 1 and all(len(g) in (1, 2) for g in groups):
                        for g, col in zip(groups, np.asarray(Y).T):
                            w = [majority(X[:, list(o)]) for o in itertools.permutations(g)]
                            rec.check(any(np.array_equal(col, x) for x in w), "majority", lambda: "%s: column of group %s is %s" % (what(), g, col.tolist()))
                        c = f(X)
                        t = table(C, c)
                        sim = lambda a, b: round(float(t[a, b]), 12)
                        rec.check(greedy_ok([frozenset([i]) for i in range(C)], [frozenset(g) for g in groups], sim), "greedy:data",
                                  lambda: "%s: groups %s do not merge the most similar remaining pair first (similarities %s)" % (what(), groups, c.tolist()))
