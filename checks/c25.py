"""C25: estimated log-likelihoods and sparse parameter filling are exact."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import blocks

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: every model sample and every list of queried states up to a bound is put through the real estimator and judged by "
             "counting agreements one by one; every subset of parameter indices and every position is put through the real filling code")
RULE = "case = block of model samples (all queries of the bound), solver class, or parameter count (all index subsets)"
BOUNDS = {"quick": "model samples of up to 1000 rows of 70 units by formula, and all of 1-4 rows of 2 units, all multisets of 1-3 rows of 3 units; queries: every state over {-1,0,1}, every ordered list of 2 (and of 3 for 1 and 2 units), all states at "
                   "once; vector queries, default query, 8 solver classes, all histories of 3 sample/query operations; filling: all non-empty subsets of 1-10 parameters, 4 fill values, 4 value types",
          "thorough": "model samples of 5 rows of 2 units, 4 rows of 3 units, 1-2 rows of 4 units with all ordered pairs of queries; filling: all subsets of up to 14 parameters"}
ASSUMPTIONS = []
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers"))


def pm(n):
    return list(itertools.product((-1, 1), repeat=n))


def cases(tier):
    th = tier == "thorough"
    for n, R in ((1, 4), (2, 5 if th else 4)):
        ss = [r for k in range(1, R + 1) for r in itertools.product(range(2 ** n), repeat=k)]
        for b in blocks(ss, 60):
            yield {"k": "logp", "n": n, "s": b, "q": 3 if n == 1 else 2}
    ss = [r for k in range(1, 5 if th else 4) for r in itertools.combinations_with_replacement(range(8), k)]
    for b in blocks(ss, 12):
        yield {"k": "logp", "n": 3, "s": b, "q": 2}
    yield {"k": "logp", "n": 2, "s": [[0, 3, 3], [1, 2, 1, 1]], "q": 3}
    ss = [r for k in range(1, 3) for r in itertools.combinations_with_replacement(range(16), k)]
    for b in blocks(ss if th else ss[::9], 4):
        yield {"k": "logp", "n": 4, "s": b, "q": 2 if th else 1}
    for c in ("Enumerate", "SparseEnumerate", "MPF", "MCH", "SparseMCH", "Pseudo", "ClusterExpansion", "RegularizedMeanField"):
        yield {"k": "class", "c": c}
    for n, R in ((9, 30), (20, 300), (40, 1000), (70, 130)) + (((64, 20000),) if th else ()):
        yield {"k": "wide", "n": n, "R": R}
    yield {"k": "histories"}
    for D in range(1, 15 if th else 11):
        yield {"k": "fill", "D": D}
    for D in (55, 210, 300, 1275):
        yield {"k": "fill", "D": D}


def reference(ms, q):
    """log of the fraction of rows of ms that agree with every non-zero entry of q"""
    k = 0
    for r in ms:
        k += all(b == 0 or a == b for a, b in zip(r, q))
    return math.log(k / len(ms)) if k else -math.inf


def same(got, want):
    got = np.asarray(got, dtype=float)
    if got.shape != (len(want),):
        return False
    return all((a == b) or abs(a - b) < 1e-12 for a, b in zip(got.tolist(), want))


class Model:
    """the only thing the estimator uses is the sample"""
    def __init__(self, sample):
        self.sample = sample


def base(ctx, n, sample=None):
    s = ctx.solvers.Solver()
    s.basic_setup(sample_or_n=n if sample is None else sample, model=Model(None), iprint=False,
                  calc_observables=lambda x: np.asarray(x, dtype=float))
    return s


def ask(rec, s, key, what, want, *a, **k):
    try:
        with np.errstate(all="ignore"):
            got = s.logp(*a, **k)
    except Exception as e:
        rec.bad(key + ":raises", "%s: %r" % (what(), e))
        return
    rec.state(len(want))
    rec.trans()
    rec.check(same(got, want), key + ":value", lambda: "%s: log likelihoods %s instead of %s" % (what(), np.asarray(got).tolist(), want))


def logp(case, rec, ctx):
    n = case["n"]
    P = pm(n)
    Q = list(itertools.product((-1, 0, 1), repeat=n))
    s = base(ctx, n, None if n > 1 else np.array([[1], [-1]]))
    for idx in case["s"]:
        ms = [P[i] for i in idx]
        ref = {q: reference(ms, q) for q in Q}
        s.model.sample = np.array(ms)
        keep = s.model.sample.copy()
        for j, q in enumerate(Q):
            for dt in (int, float, np.int8):
                ask(rec, s, "vector", lambda: "sample %s, query %s as a vector (%s)" % (ms, q, dt), [ref[q]], np.array(q, dtype=dt))
            ask(rec, s, "one", lambda: "sample %s, query %s" % (ms, [q]), [ref[q]], np.array([q]), run_checks=bool(j % 2))
        for L in range(2, case["q"] + 1):
            for qs in itertools.product(Q, repeat=L):
                ask(rec, s, "list", lambda: "sample %s, queries %s" % (ms, qs), [ref[q] for q in qs], np.array(qs))
        for qs in (Q, Q[::-1], Q + Q, Q[1::2] + Q[::2]):
            ask(rec, s, "all", lambda: "sample %s, queries %s" % (ms, qs), [ref[q] for q in qs], np.array(qs))
        s.sample = np.array(Q)
        ask(rec, s, "default", lambda: "sample %s, default query" % ms, [ref[q] for q in Q])
        rec.check((s.model.sample == keep).all() and (s.sample == np.array(Q)).all(), "mutates", "model sample %s or data changed by logp" % ms)
        rec.trace()


def wide(case, rec, ctx):
    """large samples of many units: queries that leave out different numbers of units"""
    n, R = case["n"], case["R"]
    ms = [tuple(1 if (i * j + (i // 3) * (i // 7) + j // 2) % 5 < 2 + i % 2 else -1 for j in range(n)) for i in range(R)]
    s = base(ctx, n)
    s.model.sample = np.array(ms)
    Q = []
    for i in range(0, R, 1 + R // 25):
        for w in (lambda j: True, lambda j: j % 2 == 0, lambda j: j % 3 == i % 3, lambda j: j == i % n, lambda j: j < n - 1, lambda j: False):
            Q.append(tuple(ms[i][j] if w(j) else 0 for j in range(n)))
            Q.append(tuple((-ms[i][j] if j == (i + 1) % n else ms[i][j]) if w(j) else 0 for j in range(n)))
    ref = [reference(ms, q) for q in Q]
    what = lambda: "%s" % case
    ask(rec, s, "wide", what, ref, np.array(Q))
    ask(rec, s, "wide", what, ref[::-1], np.array(Q[::-1]))
    for q, r in list(zip(Q, ref))[::7]:
        ask(rec, s, "wide", what, [r], np.array(q))
    rec.trace()


def solver(ctx, c, data):
    S = getattr(ctx.solvers, c)
    kw = {"iprint": False}
    if c.startswith("Sparse"):
        kw["parameter_ix"] = np.array([0, 2])
    if c == "SparseMCH" or c == "MCH":
        kw["sample_size"] = 8
        kw["mch_approximation"] = lambda *a, **k: None
    if c in ("MPF", "Pseudo", "ClusterExpansion", "RegularizedMeanField"):
        pass
    return S(data, **kw)


def klass(case, rec, ctx):
    for data in ([[1, -1, 1], [-1, -1, 1], [1, 1, -1], [-1, 1, -1]], [[-1, 1, 1], [1, -1, -1], [1, 1, -1]]):
        d = np.array(data)
        try:
            s = env.quietly(solver, ctx, case["c"], d)
        except Exception as e:
            rec.bad("construct:" + case["c"], "%s(%s): %r" % (case["c"], data, e))
            continue
        for ms in ([[1, 1, 1]], [[1, -1, 1], [1, -1, 1], [-1, -1, -1]], [[1, -1, 1], [-1, -1, 1], [1, 1, -1], [-1, 1, 1], [1, 1, -1]]):
            s.model.sample = np.array(ms)
            what = lambda: "%s with data %s, model sample %s" % (case["c"], data, ms)
            ask(rec, s, "class:" + case["c"], what, [reference(ms, q) for q in data])
            Q = list(itertools.product((-1, 0, 1), repeat=3))
            ask(rec, s, "class:" + case["c"], what, [reference(ms, q) for q in Q], np.array(Q))
            rec.trace()


def histories(case, rec, ctx):
    """generated samples: every sequence of 3 operations on a solver with the real model"""
    ops = [("gen", 1), ("gen", 3), ("mult", .4), ("ask", 0), ("ask", 1), ("default", 0), ("logp-single", 0)]
    Q = [np.array(list(itertools.product((-1, 0, 1), repeat=2))), np.array([[0, 1], [1, 0], [0, 1], [-1, -1]])]
    data = np.array([[1, -1], [1, 1], [-1, -1], [1, -1]])
    for seq in itertools.product(ops, repeat=3):
        s = env.quietly(ctx.solvers.Enumerate, data, iprint=False)
        s.model.rng = np.random.RandomState(3)
        s.model.setup_sampler("metropolis")
        s.model.generate_sample(1, 0, sample_size=2, parallel=False)
        for op, a in seq:
            ms = s.model.sample.tolist()
            if op == "gen":
                s.model.generate_sample(2, 1, sample_size=a, parallel=False)
                rec.check(len(s.model.sample) == a, "history:size", "%s: sample of %d rows" % (seq, len(s.model.sample)))
            elif op == "mult":
                s.model.set_multipliers(np.array([a, -a, a]))
            elif op == "ask":
                ask(rec, s, "history", lambda: "%s, model sample %s" % (seq, ms), [reference(ms, q) for q in Q[a]], Q[a])
            elif op == "default":
                ask(rec, s, "history", lambda: "%s, model sample %s" % (seq, ms), [reference(ms, q) for q in data])
            else:
                ask(rec, s, "history", lambda: "%s, model sample %s" % (seq, ms), [reference(ms, data[0])], data[0])
        rec.trace()


def fill(case, rec, ctx):
    D = case["D"]
    class M:
        multipliers = np.zeros(D)
    s = ctx.solvers.Solver()
    s.model = M()
    wide = [range(0, D, k) for k in (1, 2, 3, 7, max(1, D - 1))] + [range(D // 2, D), [D - 1], [0], [0, 1, D - 1], range(1, D), [i for i in range(D) if i % 3]]
    for m in range(1, D + 1) if D < 20 else [len(x) for x in wide]:
        for sub in itertools.combinations(range(D), m) if D < 20 else [tuple(x) for x in wide if len(x) == m]:
            for dt in ((int, np.int32) if D <= 8 else (int,)):
                s.parameterIx = np.array(sub, dtype=dt)
                try:
                    s.set_insertion_ix()
                except Exception as e:
                    rec.bad("insertion:raises", "%d parameters, indices %s: %r" % (D, sub, e))
                    continue
                for vt, fv in ((float, 0), (float, .5), (int, 0), (int, -7), (int, .5), (np.float32, 2), (list, 0), (float, np.nan), (None, None)):
                    vals = [3 + 2 * j for j in range(m)]
                    x = vals if vt is list else np.array(vals, dtype=vt or float)
                    rec.trans()
                    try:
                        got = np.asarray(s.fill_in(x) if fv is None else s.fill_in(x, fv))
                    except Exception as e:
                        rec.bad("fill:raises", "%d parameters, indices %s, values %s (%s), fill %s: %r" % (D, sub, vals, vt, fv, e))
                        continue
                    want = [0 if fv is None else fv] * D
                    for j, i in enumerate(sub):
                        want[i] = vals[j]
                    ok = got.shape == (D,) and all(a == b or (a != a and b != b) for a, b in zip(got.tolist(), want))
                    rec.check(ok, "fill:" + ("type" if vt is int and fv == .5 or vt is list else "value"),
                              lambda: "%d parameters, indices %s, values %s (%s), fill %s: %s instead of %s" % (D, sub, vals, getattr(vt, "__name__", vt), fv, got.tolist(), want))
                    if vt is not list:
                        rec.check(x.tolist() == vals, "fill:mutates", "values %s changed" % vals)
            rec.state()
    rec.trace()
    rec.sample({"parameters": D, "subsets": 2 ** D - 1 if D < 20 else len(wide)})


def run_case(case, rec, ctx):
    {"logp": logp, "wide": wide, "class": klass, "histories": histories, "fill": fill}[case["k"]](case, rec, ctx)
