"""C07: shipped exact solutions equal brute-force enumeration of the model."""
import importlib, itertools
import numpy as np
from mc import env, exact
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration: every state of every shipped system is weighed by an independently written model and "
             "compared with the shipped equations at a parameter set that separates all their terms")
RULE = ("case = shipped module x block of parameter vectors; all 2^n states and all observables are compared at each vector")
BOUNDS = {"quick": "every shipped size (2..9), both bases, the two triplet models and the high-precision model; per module: zero, every unit vector "
                   "times +1, -1 and (large) 30, every pair of unit vectors up to n=5, dense vectors of irrational-like values at scales .1, 1, 5 and 40; unit vectors times 500 and 3000 and dense vectors at scales 300 and 2000",
          "thorough": "pairs of unit vectors for every size, and four times as many dense vectors"}
ASSUMPTIONS = ["the exponents of the shipped equations are linear in the parameters and the numerators linear in the exponentials, so that "
               "unit vectors and generic dense vectors separate all their coefficients"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "enumerate", "models"), fake_pool=False)


MODULES = [(n, "%d" % n, 0, 2) for n in range(2, 10)] + [(n, "%d_sym" % n, 1, 2) for n in range(2, 10)] + \
          [(4, "4_sym_hp", 1, 2), (5, "5_triplet", 0, 3), (5, "5_sym_triplet", 1, 3)]


def cases(tier):
    th = tier == "thorough"
    for n, name, sym, order in MODULES:
        D = nparam(n, order)
        kinds = ["zero", "unit", "big", "huge"] + ["dense"]
        for v in blocks(vectors(D, kinds, dense=40 if th else 10), 24 if n > 7 else 60):
            yield {"k": "module", "mod": name, "n": n, "sym": sym, "order": order, "v": v}
        if n <= 5 or th:
            for v in blocks(vectors(D, ["pair"]), 200):
                yield {"k": "module", "mod": name, "n": n, "sym": sym, "order": order, "v": v}
    for n in range(2, 10):
        D = nparam(n, 2)
        for v in blocks(vectors(D, ["zero", "unit", "dense"], dense=6), 60):
            yield {"k": "model", "cls": "Ising", "n": n, "order": 2, "v": v}
    for v in blocks(vectors(nparam(5, 3), ["zero", "unit", "dense"], dense=6), 60):
        yield {"k": "model", "cls": "Triplet", "n": 5, "order": 3, "v": v}


def run_case(case, rec, ctx):
    n, order = case["n"], case["order"]
    D = nparam(n, order)
    if case["k"] == "module":
        m = importlib.import_module("coniii.ising_eqn.ising_eqn_" + case["mod"])
        hp = case["mod"].endswith("hp")
        f = Family(n, case["sym"], order)
        for spec in case["v"]:
            th = vector(D, spec)
            compare(rec, case["mod"], f, th, m.calc_observables(th.copy()), m.p(th.copy()), spec, hp)
        if case["v"][0][0] == "zero":
            rec.sample({"module": case["mod"], "parameters": "zero", "p": [float(x) for x in m.p(np.zeros(D))][:4]})
        return
    # through the model object
    f = Family(n, 1, order)
    cls = getattr(ctx.models, case["cls"])
    # the documented state order is the one of bin_states()
    bs = ctx.utils.bin_states(n, sym=True)
    rec.check(np.array_equal(bs, f.S), "model:order", "bin_states order differs from counting order")
    for spec in case["v"]:
        th = vector(D, spec)
        arg = th.copy() if case["cls"] == "Ising" else [th[:5].copy(), th[5:15].copy(), th[15:].copy()]
        mod = env.quietly(cls, arg)
        compare(rec, case["cls"], f, th, mod.calc_observables(), mod.calc_p(), spec, False)
        other = th[::-1].copy()
        compare(rec, case["cls"] + ":arg", f, other, mod.calc_observables(other), mod.calc_p(other), spec, False)
