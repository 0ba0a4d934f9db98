"""C19: a model object always uses its current parameters and generator."""
import itertools, math
import numpy as np
from mc import env
from mc.exact import *
from mc.ising import near

LEVEL = "model_checking"
NEED_EXT = "plain"
TECHNIQUE = ("explicit-state exploration of the model object: every operation sequence up to a depth is run on the real object; after each operation its exact "
             "averages are compared with brute force for the parameters in force and each sample with that of a brand-new sampler fed the same generator state")
RULE = "case = model family x first two operations; inside, all continuations; plus every pair of input forms"
BOUNDS = {"quick": "Ising n=2,3 (compiled and Python sampler), Potts3 n=2 (both), triplet n=3,5: all sequences of 4 operations out of 11 (triplet and Python: 3; Ising n=10 and triplet n=6, which have no exact solution: 2); input forms n=2..5",
          "thorough": "depth 5 (4), input forms n=2..9"}
ASSUMPTIONS = ["the reference samplers themselves are judged by the properties on samplers",
               "a parameter vector handed to a model is not changed afterwards by its owner (the model documents no copy)"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models"))
    for f in ("define_ising_helper_functions", "define_triplet_helper_functions"):
        getattr(ctx.utils, f)()


OPS = ["setup", "setup2", "theta1", "theta2", "rng1", "rng2", "par", "seq", "over", "overseq", "size"]
CONFIGS = [("ising", 2, True, 4), ("ising", 3, True, 4), ("ising", 3, False, 3), ("potts", 2, True, 4), ("potts", 2, False, 3), ("triplet", 3, True, 3), ("triplet", 5, True, 3), ("ising", 10, True, 2), ("triplet", 6, True, 2)]


def cases(tier):
    th = tier == "thorough"
    for i, (fam, n, boost, depth) in enumerate(CONFIGS):
        for a in OPS:
            if depth + th <= 3:
                yield {"c": i, "pre": [a], "depth": depth + th}
            else:
                for b in OPS:
                    yield {"c": i, "pre": [a, b], "depth": depth + th}
    for n in range(2, 10 if th else 6):
        yield {"forms": n}
    for fam, n, boost in (("ising", 2, True), ("ising", 3, False), ("ising", 4, True), ("ising", 8, True), ("potts", 2, True), ("potts", 3, False), ("triplet", 3, True), ("triplet", 5, True)):
        yield {"near": [fam, n, boost]}


def family(fam, n):
    if fam == "potts":
        return PottsFamily(n, 3)
    return Family(n, 1, 3 if fam == "triplet" else 2)


def build(ctx, fam, n, th, **kw):
    m = ctx.models
    if fam == "ising":
        return m.Ising(th, **kw)
    if fam == "potts":
        return m.Potts3(th, **kw)
    a, b = n, n + math.comb(n, 2)
    return m.Triplet([th[:a], th[a:b], th[b:]], **kw)


class Shadow:
    """what the object is documented to be: parameters, generator, sampler settings"""
    def __init__(self, ctx, fam, n, boost, th, rng):
        self.ctx, self.fam, self.n, self.boost, self.th, self.rng = ctx, fam, n, boost, th, rng
        self.size, self.last = None, None

    def sample(self, th, size, par, setup=False):
        s = self.ctx.samplers
        cls = s.Potts3 if self.fam == "potts" else s.Metropolis
        u = self.ctx.utils
        e = u.define_potts_helper_functions(3)[0] if self.fam == "potts" else (
            u.define_triplet_helper_functions()[0] if self.fam == "triplet" else u.define_ising_helper_functions()[0])
        kw = {"n_cpus": 2} if self.fam == "potts" else {}
        q = cls(self.n, th.copy(), e, rng=self.rng if setup else np.random.RandomState(0), boost=self.boost, **kw)
        if setup:
            return
        q.rng = self.rng
        py = not self.boost or self.fam == "triplet"
        kw = {"initial_sample": self.last[1]} if py and self.last is not None and self.last[0] == par else {}
        (q.generate_sample_parallel if par else q.generate_sample)(size, n_iters=3, burn_in=5, **kw)
        x = np.array(q.sample)
        self.last = (par, (x[[size // 2 - 1, size - 1]] if par else x[-1:]).astype(int))
        return x


def run_case(case, rec, ctx):
    if "forms" in case:
        return forms(case["forms"], rec, ctx)
    if "near" in case:
        return near_case(*case["near"], rec, ctx)
    if not hasattr(ctx, "_pots"):
        ctx._pots = ctx.utils.define_potts_helper_functions(3)
        ctx.utils.define_potts_helper_functions = ctx.models.define_potts_helper_functions = lambda k: ctx._pots
    fam, n, boost, _ = CONFIGS[case["c"]]
    F = family(fam, n)
    D = F.O.shape[1]
    ths = [vector(D, ("dense", i, .6)) for i in range(4)]
    refs = [F.p(t) for t in ths]
    rest = case["depth"] - len(case["pre"])
    for word in itertools.product(OPS, repeat=rest):
        word = tuple(case["pre"]) + word
        # a sampling call before setup is refused; explored once
        explore(rec, ctx, case, word, fam, n, boost, F, ths, refs)
    rec.sample({"family": fam, "n": n, "compiled": boost, "operations": list(word)})


def explore(rec, ctx, case, word, fam, n, boost, F, ths, refs):
    seeds = np.random.RandomState(11), np.random.RandomState(11)
    given = ths[0].copy()
    m = env.quietly(build, ctx, fam, n, given, rng=seeds[0])
    sh = Shadow(ctx, fam, n, boost, ths[0], seeds[1])
    lent = [(given, ths[0])]
    cur = 0
    fresh = 0
    what = "%s n=%d compiled=%s after %s" % (fam, n, boost, "")
    for pos, op in enumerate(word):
        what = "%s n=%d compiled=%s after %s" % (fam, n, boost, ",".join(word[:pos + 1]))
        rec.trans()
        if op in ("setup", "setup2"):
            sh.size, sh.last = (4 if op == "setup" else 6), None
            env.quietly(sh.sample, sh.th, 1, False, setup=True)
            kw = {"sampler_kwargs": dict({"boost": boost}, **({"n_cpus": 2} if fam == "potts" else {}))}
            env.quietly(m.setup_sampler, sample_size=sh.size, **kw)
        elif op in ("theta1", "theta2"):
            cur = int(op[-1])
            t = ths[cur].copy()
            m.set_multipliers(t)
            lent.append((t, ths[cur]))
            sh.th = ths[cur]
        elif op in ("rng1", "rng2"):
            fresh += 1
            s = 100 * fresh + int(op[-1])
            m.set_rng(np.random.RandomState(s))
            sh.rng = np.random.RandomState(s)
        else:
            kw, th, size, par = {}, sh.th, sh.size, op not in ("seq", "overseq")
            if not par:
                kw["parallel"] = False
            if op in ("over", "overseq"):
                th = ths[3]
                kw["multipliers"] = th.copy()
                lent.append((kw["multipliers"], th))
            if op == "size":
                size = 8
                kw["sample_size"] = 8
            if sh.size is None:
                try:
                    env.quietly(m.generate_sample, 3, 5, **kw)
                    rec.bad("nosampler", "%s: sampling without a sampler is answered" % what)
                except Exception:
                    pass
                return
            env.quietly(m.generate_sample, 3, 5, **kw)
            want = env.quietly(sh.sample, th, size, par)
            got = np.asarray(m.sample)
            rec.check(got.shape == want.shape and np.array_equal(got, want), "sample",
                      lambda: "%s: sample\n%s\ninstead of\n%s" % (what, got, want))
        rec.check(all(np.array_equal(a, b) for a, b in lent), "input", lambda: "%s: an array of the caller was changed" % what)
        rec.check(np.array_equal(np.asarray(m.multipliers), ths[cur]), "multipliers", lambda: "%s: multipliers %s instead of %s" % (what, m.multipliers, ths[cur]))
        if sh.size is not None:
            rec.check(m.sampleSize == sh.size, "size", "%s: sample size %s" % (what, m.sampleSize))
        solvable = {"ising": n < 10, "triplet": n == 5, "potts": False}[fam]  # sizes whose exact equations are shipped
        rec.check(not solvable or getattr(m, "calc_p", None) is not None, "exact:lost", lambda: "%s: the exact averages are no longer available" % what)
        if getattr(m, "calc_p", None) is not None and (pos == len(word) - 1 or op.startswith("theta")):
            p, o = np.asarray(m.calc_p(), dtype=float), np.asarray(m.calc_observables(), dtype=float)
            rec.check(np.abs(p - refs[cur]).max() < 1e-9, "p", "%s: probabilities are not those of the current parameters" % what)
            rec.check(np.abs(o - refs[cur] @ F.O).max() < 1e-9, "observables", "%s: averages are not those of the current parameters" % what)
            alt = (cur + 1) % 3
            rec.check(np.abs(np.asarray(m.calc_p(ths[alt].copy()), dtype=float) - refs[alt]).max() < 1e-9, "p:explicit", "%s: explicit parameters are ignored" % what)
            rec.check(np.abs(np.asarray(m.calc_observables(ths[alt].copy()), dtype=float) - refs[alt] @ F.O).max() < 1e-9, "observables:explicit", "%s: explicit parameters are ignored" % what)
        rec.state()
    rec.trace()


def near_case(fam, n, boost, rec, ctx):
    """changes of parameters that are small, that cancel or that only permute them"""
    F = family(fam, n)
    D = F.O.shape[1]
    ths = near(n, 3 if fam == "potts" else 0)
    if fam == "triplet":
        ths = [np.append(t, np.linspace(.1, .2, D - len(t)) * np.abs(t[-1]) if i > 1 else np.zeros(D - len(t))) for i, t in enumerate(ths)]
    refs = [F.p(t) if i > 1 else None for i, t in enumerate(ths)]
    for a, b in itertools.permutations(range(len(ths)), 2):
        for how in ("set", "override"):
            rngs = np.random.RandomState(3), np.random.RandomState(3)
            m = env.quietly(build, ctx, fam, n, ths[a].copy(), rng=rngs[0])
            sh = Shadow(ctx, fam, n, boost, ths[a], rngs[1])
            sh.size = 4
            env.quietly(sh.sample, sh.th, 1, False, setup=True)
            env.quietly(m.setup_sampler, sample_size=4, sampler_kwargs=dict({"boost": boost}, **({"n_cpus": 2} if fam == "potts" else {})))
            for pos, c in enumerate((a, b, a)):
                what = "%s n=%d compiled=%s, parameters %s (%s)" % (fam, n, boost, [ths[x].tolist() for x in (a, b, a)[:pos + 1]], how)
                kw = {}
                if how == "override":
                    kw["multipliers"] = ths[c].copy()
                elif pos:
                    m.set_multipliers(ths[c].copy())
                env.quietly(m.generate_sample, 3, 5, **kw)
                want, got = env.quietly(sh.sample, ths[c], 4, True), np.asarray(m.sample)
                rec.check(np.array_equal(got, want), "near:sample", lambda: "%s: sample\n%s\ninstead of\n%s" % (what, got, want))
                if how == "set":
                    rec.check(np.array_equal(np.asarray(m.multipliers), ths[c]), "near:multipliers", what)
                    if getattr(m, "calc_p", None) is not None and refs[c] is not None:
                        rec.check(np.abs(np.asarray(m.calc_p(), dtype=float) - refs[c]).max() < 1e-13, "near:p", what)
                        rec.check(np.abs(np.asarray(m.calc_observables(), dtype=float) - refs[c] @ F.O).max() < 2e-13, "near:observables", what)
                rec.trans()
                rec.state()
            rec.trace()


def forms(n, rec, ctx):
    """equivalent ways of giving the parameters"""
    m, u = ctx.models, ctx.utils
    D = nparam(n, 2)
    F = Family(n, 1, 2)
    pairs = list(itertools.combinations(range(n), 2))
    for i in range(D + 3):
        v = vector(D, ("unit", i, 1.5)) if i < D else vector(D, ("dense", i - D, .7))
        J = np.zeros((n, n))
        J[np.diag_indices(n)] = v[:n]
        for (a, b), x in zip(pairs, v[n:]):
            J[a, b] = J[b, a] = x
        given = {"vector": v.copy(), "matrix": J.copy(), "list": [v[:n].copy(), v[n:].copy()], "matrix, column order": np.asfortranarray(J),
                 "tuple": (v[:n].copy(), v[n:].copy()), "nested lists": [v[:n].tolist(), v[n:].tolist()], "strided": np.repeat(v, 2)[::2]}
        ref = F.p(v)
        for name, g in given.items():
            before = [np.array(x) for x in (g if isinstance(g, (list, tuple)) else [g])]
            for x in (g if isinstance(g, (list, tuple)) else [g]):
                if isinstance(x, np.ndarray):
                    x.setflags(write=False)
            a = env.quietly(m.Ising, g)
            rec.trans()
            what = "n=%d %s given as %s" % (n, "parameter %d" % i, name)
            rec.check(a.n == n and np.array_equal(np.asarray(a.multipliers, dtype=float), v), "forms", "%s: parameters %s" % (what, a.multipliers))
            rec.check(np.abs(np.asarray(a.calc_p(), dtype=float) - ref).max() < 1e-9, "forms:p", what)
            rec.check(np.abs(np.asarray(a.calc_observables(), dtype=float) - ref @ F.O).max() < 1e-9, "forms:observables", what)
            after = [np.array(x) for x in (g if isinstance(g, (list, tuple)) else [g])]
            rec.check(all(np.array_equal(x, y) for x, y in zip(before, after)), "forms:input", "%s: the caller's array was changed" % what)
            env.quietly(a.setup_sampler, sample_size=4, sampler_kwargs={})
            a.set_rng(np.random.RandomState(5))
            env.quietly(a.generate_sample, 3, 5)
            q = ctx.samplers.Metropolis(n, v.copy(), u.define_ising_helper_functions()[0], rng=np.random.RandomState(5))
            env.quietly(q.generate_sample_parallel, 4, n_iters=3, burn_in=5)
            rec.check(np.array_equal(a.sample, q.sample), "forms:sample", "%s: other samples" % what)
        rec.state()
    z = env.quietly(m.Ising, n)
    rec.check(z.n == n and np.array_equal(z.multipliers, np.zeros(D)), "forms:size", "Ising(%d) is not the model without interactions" % n)
    for bad in (np.zeros(D + 1), [np.zeros(n), np.zeros(len(pairs) + 1)], 1, "abc"):
        try:
            env.quietly(m.Ising, bad)
            rec.bad("forms:refuse", "n=%d: %r is accepted" % (n, bad))
        except Exception:
            rec.trans()
    if n <= 4:
        Dp = nparam(n, 2, 3)
        for i in range(Dp):
            v = vector(Dp, ("unit", i, .5))
            for g in (v.copy(), [v[:3 * n].copy(), v[3 * n:].copy()]):
                a = env.quietly(m.Potts3, g)
                rec.check(a.n == n and np.array_equal(a.multipliers, v), "forms:potts", "n=%d: %s" % (n, a.multipliers))
                rec.trans()
        for bad in (np.zeros(Dp + 1), [np.zeros(3 * n), np.zeros(n * n)], [np.zeros(3 * n + 1), np.zeros(len(pairs))]):
            try:
                env.quietly(m.Potts3, bad)
                rec.bad("forms:refuse", "n=%d: %r is accepted" % (n, bad))
            except Exception:
                rec.trans()
    if 3 <= n <= 5:
        Dt = nparam(n, 3)
        v = vector(Dt, ("dense", 0, 1.))
        a = build(ctx, "triplet", n, v)
        rec.check(a.n == n and np.array_equal(a.multipliers, v), "forms:triplet", "n=%d: %s" % (n, a.multipliers))
    rec.trace()
    rec.sample({"n": n, "forms": list(given)})
