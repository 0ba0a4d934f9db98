"""C24: results depend on values only, and caller data are never modified."""
import itertools, copy
import numpy as np
from mc import env

LEVEL = "model_checking"
NEED_EXT = "plain"
TECHNIQUE = ("exhaustive exploration of the real entry points over all memory layouts of their array arguments: every combination of layouts is run and the "
             "result compared with that for fresh contiguous arrays; arguments are compared byte by byte before and after, every call is repeated, "
             "and on objects every sequence of calls up to a depth is run and each result compared with that of a fresh object")
RULE = "case = entry point; inside, every layout of every array argument (all combinations of two at a time), each value set"
BOUNDS = {"quick": "all public entry points, 13 layouts (dtype int64..int8, float64, float32; strided, reversed, windows, column order, transposed, read-only), each argument in turn and all together; all sequences of 3 calls on 10 kinds of objects",
          "thorough": "adds every combination of layouts of several arguments, sequences of 4 calls"}
ASSUMPTIONS = ["single precision and small integer layouts are used with values they represent exactly; results may then differ by rounding (1e-5)"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "samplers", "models", "solvers", "mean_field_ising", "ising.utils", "ising.automaton"))
    import importlib
    ctx.iutils = importlib.import_module("coniii.ising.utils")
    ctx.utils = importlib.import_module("coniii.utils")
    ctx.auto = importlib.import_module("coniii.ising.automaton")
    ctx.eqn = {n: importlib.import_module("coniii.ising_eqn.ising_eqn_%d_sym" % n) for n in (2, 3, 4)}
    ctx.eqn01 = {n: importlib.import_module("coniii.ising_eqn.ising_eqn_%d" % n) for n in (2, 3, 4)}
    ctx.ee = {"ising": ctx.utils.define_ising_helper_functions(), "sym": ctx.utils.define_ising_helper_functions_sym(),
              "plain": (lambda s, th: -(np.hstack((s, s[:, [0, 0, 1]] * s[:, [1, 2, 2]])) @ th),), "triplet": ctx.utils.define_triplet_helper_functions(), "potts": ctx.utils.define_potts_helper_functions(3)}


# ---- layouts: name -> function giving an equal array in that layout, or None where it does not apply
def strided(x):
    y = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype) + x.dtype.type(7)
    v = y[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def reversed_(x):
    sl = tuple(slice(None, None, -1) for _ in x.shape)
    return np.ascontiguousarray(x[sl])[sl]


def readonly(x):
    y = x.copy()
    y.setflags(write=False)
    return y


def exact(x, t):
    y = x.astype(t)
    return y if np.array_equal(y.astype(float), x.astype(float)) and x.dtype != y.dtype else None


def offset(x):
    """a window into a longer buffer"""
    b = np.full(x.size + 5, 9, dtype=x.dtype)
    v = b[3:3 + x.size].reshape(x.shape)
    v[...] = x
    return v


LAY = {"strided": strided, "reversed": reversed_, "read-only": readonly, "window": offset,
       "column order": lambda x: np.asfortranarray(x) if x.ndim > 1 else None,
       "transposed": lambda x: np.ascontiguousarray(x.T).T if x.ndim > 1 and x.shape[0] > 1 < x.shape[1] else None,
       "strided read-only": lambda x: readonly_view(strided(x))}
for t in ("int64", "int32", "int16", "int8", "float64", "float32"):
    LAY[t] = lambda x, t=t: exact(x, t)


def readonly_view(v):
    v.setflags(write=False)
    return v


# ---- values
P3 = np.array([.25, -.5, .125, .75, -.25, .5])
I3 = np.array([1., -1., 0., 1., -1., 1.])
P4 = np.array([.25, -.5, .125, .375, .75, -.25, .5, .125, -.375, .25])
T3 = np.array([.25, -.5, .125, .75, -.25, .5, .375])
Q2 = np.array([.25, -.5, .125, .75, -.25, .5, .625])
Q3 = np.array([.25, -.5, .125, .75, -.25, .5, .625, .375, -.125, -.25, .5, .75])
X3 = np.array([[1, 1, -1], [-1, 1, 1], [1, -1, 1], [-1, -1, -1], [1, 1, 1], [1, 1, -1], [-1, -1, 1], [1, -1, -1]])
X4 = np.array([[1, 1, -1, 1], [-1, 1, 1, 1], [1, -1, 1, -1], [-1, -1, -1, 1], [1, 1, 1, 1], [1, 1, -1, -1], [-1, -1, 1, 1], [1, -1, -1, -1], [-1, 1, -1, 1]])
Z3 = np.array([[1, 0, -1], [0, 1, 1], [1, -1, 0], [-1, -1, -1], [1, 1, 1]])
Y3 = np.array([[0, 1, 2], [2, 1, 1], [0, 0, 1], [2, 2, 2], [1, 0, 0], [0, 2, 1]])
W = np.array([.5, .125, .25, .125, 1., .25, .5, .25])
J3, J4 = P3[3:], P4[4:]
M3 = np.array([[.25, .75, -.25], [.75, -.5, .5], [-.25, .5, .125]])
C3 = np.array([.25, -.125, .125, .25, -.25, .125])
COOC = np.array([[.5, .25, .125], [.25, .625, .375], [.125, .375, .5]])
S4 = np.array([1, -1, 1, 1])


def rng(s=3):
    return np.random.RandomState(s)


def sampler(kind, par, cond=None, n=3, boost=True):
    def f(ctx, theta, initial=None):
        s = ctx.samplers
        e = ctx.ee["plain" if kind == "ising" and not boost else kind][0]
        cls = s.Potts3 if kind == "potts" else s.Metropolis
        m = cls(n, theta, e, rng=rng(), boost=boost, **({"n_cpus": 2} if kind == "potts" else {"iprint": False}))
        kw = {} if initial is None else {"initial_sample": initial}
        if cond is not None:
            m.generate_cond_sample(6, cond, burn_in=4, n_iters=3, parallel=par)
        elif par:
            m.generate_sample_parallel(6, n_iters=3, burn_in=4, **kw)
        else:
            m.generate_sample(6, n_iters=3, burn_in=4, **kw)
        return np.array(m.sample)
    return f


def replaced(kind, n=3, boost=True):
    def f(ctx, theta):
        cls = ctx.samplers.Potts3 if kind == "potts" else ctx.samplers.Metropolis
        m = cls(n, np.zeros(len(theta)), ctx.ee["plain" if kind == "ising" else kind][0], rng=rng(), boost=boost, **({"n_cpus": 2} if kind == "potts" else {"iprint": False}))
        m.update_parameters(theta)
        m.generate_sample(6, n_iters=3, burn_in=4)
        return np.array(m.sample)
    return f


def cond_steps(n, t):
    def f(ctx, theta):
        m = ctx.samplers.Metropolis(n, theta, ctx.ee["plain"][0], rng=rng(), iprint=False, boost=False)
        m.generate_cond_sample(5, [(t, 1)], burn_in=4, n_iters=3, parallel=False)
        return [np.array(m.sample), np.array(m.E)]
    return f


def tempering(ctx, theta):
    p = ctx.samplers.ParallelTempering(3, theta, ctx.ee["plain"][0], 2, (1., 2.), replica_burnin=5, rep_ex_burnin=3, rng=rng())
    env.quietly(p.generate_sample, 4)
    return np.vstack(p.sample)


def wolff(par):
    def f(ctx, J, h, initial=None):
        w = ctx.samplers.WolffIsing(J, h)
        w.rng = rng()
        kw = {} if initial is None else {"initialSample": initial}
        return (w.generate_sample_parallel if par else w.generate_sample)(8, 4, **kw)
    return f


def model(cls):
    def f(ctx, theta):
        m = env.quietly(getattr(ctx.models, cls), theta, rng=rng())
        out = [np.array(m.multipliers)]
        if getattr(m, "calc_p", None) is not None:
            out += [m.calc_p(), m.calc_observables()]
        env.quietly(m.setup_sampler, sample_size=6, sampler_kwargs={"n_cpus": 2} if type(m).__name__ == "Potts3" else {})
        env.quietly(m.generate_sample, 3, 4)
        return out + [np.array(m.sample)]
    return f


def model_set(cls, zero):
    def f(ctx, theta, over=None):
        m = env.quietly(getattr(ctx.models, cls), np.zeros(len(zero)) if cls != "Triplet" else [np.zeros(3), np.zeros(3), np.zeros(1)], rng=rng())
        m.set_multipliers(theta)
        env.quietly(m.setup_sampler, sample_size=6, sampler_kwargs={"n_cpus": 2} if type(m).__name__ == "Potts3" else {})
        kw = {} if over is None else {"multipliers": over}
        env.quietly(m.generate_sample, 3, 4, **kw)
        out = [np.array(m.multipliers), np.array(m.sample)]
        if getattr(m, "calc_p", None) is not None:
            out += [m.calc_p(theta), m.calc_observables(theta)]
        return out
    return f


def pieces(cls):
    def f(ctx, *th):
        m = env.quietly(getattr(ctx.models, cls), list(th), rng=rng())
        env.quietly(m.setup_sampler, sample_size=6, sampler_kwargs={"n_cpus": 2} if type(m).__name__ == "Potts3" else {})
        env.quietly(m.generate_sample, 3, 4)
        return [np.array(m.multipliers), np.array(m.sample)]
    return f


def solver(name, kw={}, solve={}, model=None, **extra):
    def f(ctx, x, **more):
        k = dict(kw)
        if model:
            k.update(model(ctx))
        k.setdefault("iprint", False)
        s = env.quietly(getattr(ctx.solvers, name), x, **k)
        a = dict(solve)
        a.update(more)
        r = env.quietly(s.solve, **a)
        r = r[0] if isinstance(r, tuple) and not name.startswith("Cluster") else r
        return [np.array(r)] + ([np.array(s.constraints)] if getattr(s, "constraints", None) is not None else [])
    return f


def enum_constraints(ctx, c, initial=None):
    s = ctx.solvers.Enumerate(3, iprint=False)
    return s.solve(constraints=c, initial_guess=initial)


def sparse_constraints(ctx, c):
    s = ctx.solvers.SparseEnumerate(3, parameter_ix=np.array([0, 2, 4]), iprint=False)
    return s.solve(constraints=c)


def pseudo_potts(ctx, x, **kw):
    gm, co = ctx.utils.define_pseudo_potts_helper_functions(3, 3)
    m = ctx.models.Potts3(np.zeros(12))
    s = ctx.solvers.Pseudo(x, model=m, calc_observables=ctx.ee["potts"][1], get_multipliers_r=gm, calc_observables_r=co, k=3, iprint=False)
    r = env.quietly(s.solve, **kw)
    return r


def logp(ctx, msample, q):
    s = ctx.solvers.Enumerate(X3, iprint=False)
    s.model.sample = msample
    return s.logp(q)


def landscape(ctx, h, J, s):
    m = ctx.iutils.Ising(4, h=h, J=J)
    return [m.correlations(), m.correlations("0"), m.fields("0"), m.couplings("0"), m.find_basin(s), m.neighbor_dE(s)]


def lattice(ctx, h):
    m = ctx.auto.Ising2D((2, 3), .25, h=h, rng=rng())
    m.iterate(4)
    m.iterate(4, systematic=False)
    return m.lattice


def coarse(ctx, x):
    u = ctx.utils
    return list(u.coarse_grain_with_func(x, 1, lambda y: u.pair_corr(y)[1], lambda y: np.sign(y.sum(1) + .5))[:1])


def cluster_entropy(ctx, c):
    s = ctx.solvers.ClusterExpansion(X3, iprint=False)
    return [np.asarray(x) for x in env.quietly(s.S, [0, 1, 2], c)]


# ---- objects and the calls made on them in every order: a call's result must not depend on the calls before it
def objects(ctx):
    S, q = ctx.solvers, env.quietly

    def reseed(s):
        s.model.set_rng(rng(5))
        return s
    o = {}
    o["Enumerate"] = (lambda: S.Enumerate(X3.copy(), iprint=False), {
        "solve": lambda s: s.solve(), "other constraints": lambda s: s.solve(constraints=C3.copy()), "guess": lambda s: s.solve(initial_guess=P3 / 4),
        "full": lambda s: s.solve(full_output=True)[0], "minimise": lambda s: np.round(s.solve(use_root=False, scipy_solver_kwargs={}), 2)})
    o["SparseEnumerate"] = (lambda: S.SparseEnumerate(X3.copy(), parameter_ix=np.array([4, 0, 2]), iprint=False), {
        "solve": lambda s: s.solve(), "other constraints": lambda s: s.solve(constraints=C3[[0, 2, 4]]), "fill": lambda s: s.fill_in(np.array([1., 2, 3])), "fill 9": lambda s: s.fill_in(np.array([1., 2, 3]), 9)})
    o["MPF"] = (lambda: S.MPF(X3.copy(), iprint=False), {
        "solve": lambda s: s.solve(), "plain objective": lambda s: np.round(s.solve(uselog=False), 3), "guess": lambda s: s.solve(initial_guess=P3), "limits": lambda s: s.solve(parameter_limits=.3)})
    o["Pseudo"] = (lambda: S.Pseudo(X3.copy(), iprint=False), {
        "solve": lambda s: s.solve(), "general": lambda s: s.solve(force_general=True), "guess": lambda s: s.solve(initial_guess=P3.copy()),
        "objective": lambda s: s.pseudo_log_likelihood(X3.copy(), M3.copy())})
    o["ClusterExpansion"] = (lambda: S.ClusterExpansion(X3.copy(), iprint=False), {
        "all": lambda s: q(s.solve, 0.), "some": lambda s: q(s.solve, .05), "full": lambda s: list(q(s.solve, .01, full_output=True))[:2],
        "mean field": lambda s: q(s.solve, .01, meanFieldRef=True, independentRef=False), "entropy": lambda s: [np.asarray(x) for x in q(s.S, [0, 1], COOC.copy())]})
    o["MCH"] = (lambda: S.MCH(X3.copy(), sample_size=12, rng=rng(), iprint=False, sampler_kw={"iprint": False}), {
        "solve": lambda s: q(reseed(s).solve, maxiter=2, tol=0, tolNorm=0, n_iters=3, burn_in=3), "guess": lambda s: q(reseed(s).solve, initial_guess=P3, maxiter=1, tol=0, tolNorm=0, n_iters=3, burn_in=3),
        "constraints": lambda s: q(reseed(s).solve, constraints=C3.copy(), maxiter=2, tol=0, tolNorm=0, n_iters=3, burn_in=3),
        "full": lambda s: [np.asarray(x, dtype=float) for x in q(reseed(s).solve, maxiter=1, tol=0, tolNorm=0, n_iters=3, burn_in=3, full_output=True)[::2]]})
    o["SparseMCH"] = (lambda: S.SparseMCH(X3.copy(), sample_size=12, parameter_ix=np.array([0, 2, 4]), rng=rng(), iprint=False, sampler_kw={"iprint": False}), {
        "solve": lambda s: q(reseed(s).solve, maxiter=2, tol=0, tolNorm=0, n_iters=3, burn_in=3), "guess": lambda s: q(reseed(s).solve, initial_guess=P3[:3].copy(), maxiter=1, tol=0, tolNorm=0, n_iters=3, burn_in=3)})
    o["landscape"] = (lambda: ctx.iutils.Ising(4, h=P4[:4].copy(), J=P4[4:].copy()), {
        "correlations": lambda m: m.correlations(), "correlations 0": lambda m: m.correlations("0"), "basin": lambda m: m.find_basin(S4.copy()), "dE": lambda m: m.neighbor_dE(S4.copy()),
        "fields": lambda m: [m.fields("0"), m.fields(), m.couplings(), m.couplings("0")]})
    o["sampler"] = (lambda: ctx.samplers.Metropolis(3, P3.copy(), ctx.ee["ising"][0], iprint=False, boost=False), {
        "seq": lambda m: seeded(m, False, X3[:1]), "systematic": lambda m: seeded(m, False, X3[:1], systematic_iter=True), "par": lambda m: seeded(m, True, X3[:2]),
        "cond": lambda m: condseeded(m), "one update": lambda m: stepped(m)})
    o["compiled sampler"] = (lambda: ctx.samplers.Metropolis(3, P3.copy(), iprint=False), {
        "par": lambda m: seeded(m, True, None), "systematic": lambda m: seeded(m, True, None, systematic_iter=True), "cond": lambda m: condseeded(m, parallel=True)})
    return o


def seeded(m, par, start, **kw):
    m.rng = rng(6)
    if start is not None:
        kw["initial_sample"] = start.copy()
    (m.generate_sample_parallel if par else m.generate_sample)(5, n_iters=2, burn_in=3, **kw)
    return [np.array(m.sample)]


def condseeded(m, parallel=False):
    m.rng = rng(6)
    m.generate_cond_sample(4, [(1, -1)], n_iters=2, burn_in=3, parallel=parallel)
    return [np.array(m.sample)] + ([np.array(m.E)] if not parallel else [])


def stepped(m):
    m.rng = rng(6)
    s = S4[:3].copy()
    e = m.calc_e(s[None], m.theta)
    return [np.array([m.sample_metropolis(s, e)]).ravel(), s]


HELPER = {"int32", "int16", "int8", "float32", "read-only", "strided read-only"}   # compiled for int64 states and float64 parameters (documented)
INPLACE = {"read-only", "strided read-only"}                             # these flip and restore the given state
TINY = {"int16", "int8"}                                                 # real parameters in such types are evaluated in half or single precision
NOT = {"energy ising": HELPER | {"float64"}, "reweighting ising": HELPER | {"float64"}, "energy sym": HELPER | {"float64"}, "reweighting sym": HELPER | {"float64"},
       "adj": INPLACE, "adj_sym": INPLACE, "lattice coarse": {"float64", "float32"}}


def unsupported(e, name, v):
    if e == "SparseEnumerate sample" and v.size == 3 and name.startswith("float"):
        return True                                     # indices
    return name in NOT.get(e, ()) or name in TINY and (e.startswith("exact averages") or e.startswith("Ising"))


def E():
    u = lambda f: (lambda ctx, *a: getattr(ctx.utils, f)(*a))
    uk = lambda f, **k: (lambda ctx, *a: getattr(ctx.utils, f)(*a, **k))
    mf = lambda f, **k: (lambda ctx, *a: getattr(ctx.mean_field_ising, f)(*a, **k))
    d = {}
    for nm, x in (("spins", X3), ("empty entries", Z3)):
        w = W[:len(x)]
        d["pair_corr " + nm] = (u("pair_corr"), [[x]])
        d["pair_corr weights " + nm] = (lambda ctx, x, w: ctx.utils.pair_corr(x, weights=w, concat=True, subtract_mean=True), [[x, w]])
        d["pair_corr normalizers " + nm] = (lambda ctx, x, a, b: ctx.utils.pair_corr(x, weights=(a, b)), [[x, W[:3], W[3:6]]])
        d["pair_corr exclude " + nm] = (uk("pair_corr", exclude_empty=True), [[x]])
        d["pair_corr laplace " + nm] = (uk("pair_corr", exclude_empty=True, laplace_count=True), [[x]])
        for k in (1, 2, 3):
            d["k_corr %d %s" % (k, nm)] = (lambda ctx, x, w, k=k: ctx.utils.k_corr(x, k, weights=w), [[x, w]])
        d["k_corr exclude " + nm] = (lambda ctx, x: ctx.utils.k_corr(x, 2, exclude_empty=True), [[x[:, [0, 1]]]])
        d["calc_overlap " + nm] = (u("calc_overlap"), [[x]])
        d["calc_overlap ignore " + nm] = (uk("calc_overlap", ignore_zeros=True), [[x]])
        d["state_probs " + nm] = (lambda ctx, x: sorted_states(*ctx.utils.state_probs(x)), [[x]])
        d["state_probs states " + nm] = (lambda ctx, x, s, w: ctx.utils.state_probs(x, allstates=s, weights=w), [[x, np.unique(x, axis=0), w]])
        d["unique_rows " + nm] = (lambda ctx, x: sorted(ctx.utils.unique_rows(x).tolist()), [[x]])
        d["unique_rows inverse " + nm] = (lambda ctx, x: same_as(ctx.utils.unique_rows(x, return_inverse=True)), [[x]])
    for to in ("01", "11"):
        d["convert_params " + to] = (lambda ctx, h, J, to=to: ctx.utils.convert_params(h, J, to), [[P3[:3], J3], [P4[:4], J4], [I3[:3], I3[3:]]])
        d["convert_params matrix " + to] = (lambda ctx, h, J, to=to: ctx.utils.convert_params(h, J, to, concat=True), [[P3[:3], M3 - np.diag(M3.diagonal())]])
        d["ising_convert_params " + to] = (lambda ctx, a, b, c, to=to: ctx.utils.ising_convert_params((a, b, c), to, concat=True), [[T3[:3], T3[3:6], T3[6:]], [I3[:3], I3[3:], I3[:1]]])
        d["convert_corr " + to] = (lambda ctx, a, b, to=to: ctx.utils.convert_corr(a, b, to), [[C3[:3], C3[3:]], [I3[:3], I3[3:]]])
    d["vec2mat"] = (u("vec2mat"), [[P3], [P4], [I3]])
    d["vec2mat fields"] = (uk("vec2mat", separate_fields=True), [[P3], [P4], [I3]])
    d["mat2vec"] = (u("mat2vec"), [[M3], [np.round(M3 * 4)]])
    d["split_concat_params"] = (lambda ctx, p: [np.array(x) for x in ctx.utils.split_concat_params(p, 3)], [[T3], [P3]])
    d["replace_diag"] = (u("replace_diag"), [[M3, P3[:3]], [np.round(M3 * 4), I3[:3]]])
    d["zero_diag"] = (u("zero_diag"), [[M3]])
    d["adj"] = (u("adj"), [[np.array([0, 1, 1, 0])]])
    d["adj_sym"] = (u("adj_sym"), [[S4]])
    d["calc_de"] = (lambda ctx, x: [np.array(ctx.utils.calc_de(x, i)) for i in range(6)], [[X3]])
    d["coarse_grain_with_func"] = (coarse, [[X4]])
    for k, x, th in (("ising", X3, P3), ("sym", X3, J3), ("triplet", X3, T3), ("potts", Y3, Q3)):
        d["observables " + k] = (lambda ctx, x, k=k: ctx.ee[k][1](x), [[x]])
        d["energy " + k] = (lambda ctx, x, th, k=k: ctx.ee[k][0](x, th), [[x, th]])
        if k != "triplet":
            d["reweighting " + k] = (lambda ctx, x, th, k=k: ctx.ee[k][2](x, th), [[x, th]])
    for n, p in ((2, P3[:3]), (3, P3), (4, P4)):
        d["exact averages n=%d" % n] = (lambda ctx, p, n=n: [ctx.eqn[n].calc_observables(p), ctx.eqn[n].p(p)], [[p], [np.round(p * 3)]])
        d["exact averages 0/1 n=%d" % n] = (lambda ctx, p, n=n: [ctx.eqn01[n].calc_observables(p), ctx.eqn01[n].p(p)], [[p], [np.round(p * 3)]])
    for k, th, n in (("ising", P3, 3), ("potts", Q3, 3)):
        for par in (False, True):
            for boost in (True, False):
                if k == "potts" and par and not boost:
                    pass
                d["sampler %s %s%s" % (k, "parallel" if par else "sequential", "" if boost else " python")] = (sampler(k, par, n=n, boost=boost), [[th], [np.round(th * 3)]])
    d["sampler ising replaced"] = (replaced("ising"), [[P3], [I3]])
    d["sampler ising replaced python"] = (replaced("ising", boost=False), [[P3], [I3]])
    d["sampler potts replaced"] = (replaced("potts"), [[Q3]])
    d["sampler potts replaced python"] = (replaced("potts", boost=False), [[Q3]])
    d["sampler ising initial sample python"] = (sampler("ising", False, boost=False), [[P3, X3[:1]]])
    d["sampler ising initial samples python"] = (sampler("ising", True, boost=False), [[P3, X3[:2]]])
    for t in range(3):
        d["conditional sampler fixed %d" % t] = (sampler("ising", False, cond=[(t, -1)]), [[P3], [I3]])
        d["conditional sampler parallel fixed %d" % t] = (sampler("ising", True, cond=[(t, 1)]), [[P3]])
        d["conditional sampler python fixed %d" % t] = (cond_steps(3, t), [[P3], [I3]])
    d["parallel tempering"] = (tempering, [[P3], [I3]])
    d["Wolff"] = (wolff(False), [[J3, P3[:3], X3], [I3[3:], I3[:3]]])
    d["Wolff matrix"] = (wolff(False), [[M3 - np.diag(M3.diagonal()), P3[:3]]])
    d["Wolff parallel"] = (wolff(True), [[J3, P3[:3], X3]])
    d["sample_ising"] = (lambda ctx, p: env.quietly(ctx.samplers.sample_ising, p, 6, seed=4, generate_sample_kw={"n_iters": 3}), [[P3], [I3]])
    d["Ising"] = (model("Ising"), [[P3], [I3], [P4]])
    d["Ising matrix"] = (model("Ising"), [[M3]])
    d["Ising pieces"] = (pieces("Ising"), [[P3[:3], P3[3:]]])
    d["Ising set"] = (model_set("Ising", P3), [[P3, P3[::-1].copy()], [I3]])
    d["Triplet pieces"] = (pieces("Triplet"), [[T3[:3], T3[3:6], T3[6:]]])
    d["Triplet set"] = (model_set("Triplet", T3), [[T3, T3[::-1].copy()]])
    d["Potts3"] = (model("Potts3"), [[Q3]])
    d["Potts3 pieces"] = (pieces("Potts3"), [[Q3[:9], Q3[9:]]])
    d["Potts3 set"] = (model_set("Potts3", Q3), [[Q3, Q3[::-1].copy()]])
    d["Enumerate sample"] = (solver("Enumerate"), [[X3]])
    d["Enumerate constraints"] = (enum_constraints, [[C3, P3 / 4], [C3, I3]])
    d["SparseEnumerate sample"] = (lambda ctx, x, ix: env.quietly(ctx.solvers.SparseEnumerate(x, parameter_ix=ix, iprint=False).solve), [[X3, np.array([0, 2, 4])]])
    d["SparseEnumerate constraints"] = (sparse_constraints, [[C3[[0, 2, 4]]]])
    d["MPF"] = (solver("MPF"), [[X3]])
    d["MPF initial"] = (lambda ctx, x, g: solver("MPF")(ctx, x, initial_guess=g), [[X3, P3], [X3, I3]])
    d["MPF gradient"] = (solver("MPF", model=lambda ctx: {"calc_de": ctx.utils.calc_de}, solve={"all_connected": True}), [[X3]])
    d["Pseudo"] = (solver("Pseudo"), [[X3]])
    d["Pseudo initial"] = (lambda ctx, x, g: solver("Pseudo")(ctx, x, initial_guess=g), [[X3, P3], [X3, I3]])
    d["Pseudo general initial"] = (lambda ctx, x, g: solver("Pseudo", solve={"force_general": True})(ctx, x, initial_guess=g), [[X3, P3], [X3, I3]])
    d["Pseudo potts initial"] = (lambda ctx, x, g: pseudo_potts(ctx, x, initial_guess=g), [[Y3, Q3], [Y3, np.round(Q3 * 2)]])
    d["SparseEnumerate initial"] = (lambda ctx, x, g: env.quietly(ctx.solvers.SparseEnumerate(x, parameter_ix=np.array([0, 2, 4]), iprint=False).solve, initial_guess=g), [[X3, P3[:3] / 4], [X3, I3[:3]]])
    d["Enumerate minimise"] = (lambda ctx, c, g: np.round(ctx.solvers.Enumerate(3, iprint=False).solve(constraints=c, initial_guess=g, use_root=False, scipy_solver_kwargs={}), 2), [[C3, I3]])
    d["Pseudo general"] = (solver("Pseudo", solve={"force_general": True}), [[X3]])
    d["Pseudo potts"] = (pseudo_potts, [[Y3]])
    d["MCH"] = (lambda ctx, x, g: env.quietly(ctx.solvers.MCH(x, sample_size=20, rng=rng(), iprint=False, sampler_kw={"iprint": False}).solve, initial_guess=g, maxiter=2, tol=0, tolNorm=0), [[X3, P3], [X3, I3]])
    d["SparseMCH"] = (lambda ctx, x, g: env.quietly(ctx.solvers.SparseMCH(x, sample_size=20, parameter_ix=np.array([0, 2, 4]), rng=rng(), iprint=False, sampler_kw={"iprint": False}).solve, initial_guess=g, maxiter=2, tol=0, tolNorm=0), [[X3, P3[:3]], [X3, I3[:3]]])
    d["ClusterExpansion"] = (solver("ClusterExpansion", solve={"threshold": 0.}), [[X3]])
    d["ClusterExpansion matrix"] = (lambda ctx, c: cluster_entropy(ctx, c), [[COOC]])
    d["RegularizedMeanField"] = (solver("RegularizedMeanField", {"sample_size": 50, "rng": None}, {}, model=lambda ctx: {"rng": rng()}), [[X3]])
    d["logp"] = (logp, [[X3, Z3]])
    d["landscape"] = (landscape, [[P4[:4], P4[4:], S4]])
    d["lattice"] = (lattice, [[np.array([[.25, -.5, .125], [.5, .25, -.75]])]])
    d["lattice coarse"] = (lambda ctx, x: ctx.auto.coarse_grain(x, 2, rng=rng()), [[X4[:8].reshape(4, 8)]])
    for f in ("aboveDiagFlat", "zeroDiag", "symmetrizeUsingUpper", "meanFieldStability2", "JmeanField", "analyticEntropy", "coocExpectations"):
        if f != "meanFieldStability2":
            d["mean field " + f] = (mf(f), [[COOC if f == "JmeanField" else np.triu(M3) if f in ("analyticEntropy", "coocExpectations") else M3]])
    d["mean field replaceDiag"] = (mf("replaceDiag"), [[M3, P3[:3]]])
    d["mean field unflatten"] = (lambda ctx, p: ctx.mean_field_ising.unflatten(p, 3), [[P3]])
    for f in ("cooccurrence_matrix", "coocSampleCovariance", "fourthOrderCoocMat"):
        d["mean field " + f] = (mf(f), [[(X3 + 1) // 2]])
    d["mean field entropy"] = (lambda ctx, c: [np.array(x) for x in ctx.mean_field_ising.SmeanField([0, 1, 2], c)], [[COOC]])
    d["mean field coocStdevsFlat"] = (lambda ctx, c: ctx.mean_field_ising.coocStdevsFlat(c, 20), [[COOC]])
    return d


def sorted_states(p, s):
    o = np.lexsort(np.asarray(s).T)
    return [np.asarray(p)[o], np.asarray(s)[o]]


def same_as(ix):
    """which rows carry equal labels"""
    ix = np.asarray(ix).ravel()
    return (ix[:, None] == ix[None, :]).astype(int)


ENTRIES = E()
OBJECTS = ["Enumerate", "SparseEnumerate", "MPF", "Pseudo", "ClusterExpansion", "MCH", "SparseMCH", "landscape", "sampler", "compiled sampler"]


def history(case, rec, ctx):
    make, ops = objects(ctx)[case["o"]]
    fresh = {k: f(make()) for k, f in ops.items()}
    # every sequence of calls ends up as a prefix of one of these
    for word in itertools.product(ops, repeat=case["depth"]):
        obj = make()
        for i, k in enumerate(word):
            try:
                r = ops[k](obj)
            except Exception as e:
                rec.bad("history:raises:%s" % case["o"], "%s: call %r after %s raises %r" % (case["o"], k, list(word[:i]), e))
                break
            rec.trans()
            if not rec.check(same(fresh[k], r, 1e-12), "history:%s" % case["o"], lambda: "%s: call %r after %s gives %s instead of %s"
                             % (case["o"], k, list(word[:i]), [x.tolist() for x in flat(r)], [x.tolist() for x in flat(fresh[k])])):
                break
        rec.state()
        rec.trace()
    rec.sample({"object": case["o"], "calls": list(ops), "sequences": len(ops) ** case["depth"]})


def cases(tier):
    for k in ENTRIES:
        yield {"e": k, "pairs": tier == "thorough"}
    for k in OBJECTS:
        yield {"o": k, "depth": 4 if tier == "thorough" else 3}


def leaves(r):
    if isinstance(r, np.ndarray):
        return [r] if r.dtype != object else []
    if isinstance(r, (tuple, list)):
        return [a for x in r for a in leaves(x)]
    if isinstance(r, dict):
        return [a for x in r.values() for a in leaves(x)]
    return []


def flat(r):
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in flat(x)]
    return [np.asarray(r, dtype=float)]


def same(a, b, tol):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True) for x, y in zip(a, b))


def run_case(case, rec, ctx):
    if "o" in case:
        return history(case, rec, ctx)
    f, sets = ENTRIES[case["e"]]
    for vals in sets:
        given = [v.copy() for v in vals]
        r = f(ctx, *given)
        base = copy.deepcopy(r)
        # what the caller does later with its arrays and with the result is no business of the next call
        for a in given + leaves(r):
            if a.flags.writeable and a.dtype.kind in "biufc":
                a[...] = 1 - a if a.dtype.kind != "b" else ~a
        again = f(ctx, *[v.copy() for v in vals])
        rec.check(same(base, again, 0), "repeat", lambda: "%s: repeating the call gives another result" % case["e"])
        lays = []
        for v in vals:
            o = {"plain": v.copy}
            for nm, g in LAY.items():
                if g(v) is not None and not unsupported(case["e"], nm, v):
                    o[nm] = lambda g=g, v=v: g(v)
            lays.append(o)
        one = [tuple(nm if i == k else "plain" for i in range(len(vals))) for k in range(len(vals)) for nm in lays[k] if nm != "plain"]
        combos = one + [(nm,) * len(vals) for nm in lays[0] if nm != "plain" and len(vals) > 1 and all(nm in o for o in lays)]
        if case["pairs"]:
            combos = one + [c for c in itertools.product(*lays) if sum(x != "plain" for x in c) >= 2]
        for c in combos:
            args = [o[nm]() for o, nm in zip(lays, c)]
            keep = [a.copy() for a in args]
            tol = 1e-5 if "float32" in c else 1e-9
            what = "%s with arguments %s" % (case["e"], ["%s %s" % (nm, v.shape) for nm, v in zip(c, vals)])
            rec.trans()
            rec.trace()
            rec.state()
            try:
                r = f(ctx, *args)
            except Exception as e:
                rec.bad("raises:%s:%s" % (case["e"], ",".join(c)), "%s raises %s: %s" % (what, type(e).__name__, str(e)[:100].replace("\n", " ")))
                continue
            rec.check(same(base, r, tol), "value:%s:%s" % (case["e"], ",".join(c)), lambda: "%s gives %s instead of %s" % (what, [x.tolist() for x in flat(r)][:3], [x.tolist() for x in flat(base)][:3]))
            rec.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "modified:%s:%s" % (case["e"], ",".join(c)), lambda: "%s modifies its argument" % what)
    rec.sample({"entry": case["e"], "combinations": len(combos), "layouts": sorted(LAY)})
