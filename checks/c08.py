"""C08: the equation generators write code that computes the exact model."""
import importlib.util, itertools, os, sys
import numpy as np
from mc import env
from mc.exact import *

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("explicit-state enumeration over generated programs: every program in the supported options up to the size bound is "
             "generated by the real writers, loaded, and its every state is compared with an independently written model")
RULE = ("case = generator x size x basis x order x precision (x number of states, x constrained subsets); the program is generated in a scratch "
        "directory and all its states and observables are compared at parameter vectors that separate all coefficients")
BOUNDS = {"quick": "pairwise n=1..10, triplet n=3..5, both bases, normal and high precision (n<=4); arbitrary single orders and mixed orders up to 4 with n<=5 "
                   "(index sets from get_nidx); every subset of the pairs for n=3; Potts (n,k) with n=3: k=2..12, 20, n=4: k=2..5, n=5: k=2,3; parameters up to 3000",
          "thorough": "pairwise n<=11, triplet n<=7 and n=10, high precision n<=5, Potts n=3 up to k=20 densely, n=4 up to k=7, n=6 k=3; every subset of pairs and triplets for n=4"}
ASSUMPTIONS = ["the generated exponents are linear in the parameters, so unit vectors and generic dense vectors separate all coefficients"]
CHUNK = 1


def setup(ctx):
    env.bring_up(ctx, modules=("utils", "enumerate", "enumerate_potts", "models"), fake_pool=False)
    env.quietly(ctx.utils.base_repr, 3, 2)
    list(ctx.utils.xpotts_states(1, 2))


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 12 if th else 11):
        for sym in (0, 1):
            yield {"k": "pairwise", "n": n, "sym": sym, "hp": False}
            if n <= (5 if th else 4):
                yield {"k": "pairwise", "n": n, "sym": sym, "hp": True}
    for n in list(range(3, 8)) + [10] if th else range(3, 6):
        for sym in (0, 1):
            yield {"k": "triplet", "n": n, "sym": sym, "hp": False}
            if n <= 4:
                yield {"k": "triplet", "n": n, "sym": sym, "hp": True}
    for n in (2, 3, 4, 5):
        for orders in ([1], [2], [3], [4], [1, 3], [2, 3], [1, 2, 3, 4], [1, 2, 4]):
            if max(orders) <= n:
                for sym in (0, 1):
                    yield {"k": "orders", "n": n, "sym": sym, "orders": orders}
    n = 4 if th else 3
    pairs = list(itertools.combinations(range(n), 2))
    for m in range(1, 2 ** len(pairs)):
        sel = [pairs[i] for i in range(len(pairs)) if m >> i & 1]
        for sym in (0, 1):
            yield {"k": "subset", "n": n, "sym": sym, "pairs": sel}
    ks = list(range(2, 21)) if th else list(range(2, 13)) + [20]
    for k in ks:
        yield {"k": "potts", "n": 3, "q": k}
    for n, k in ((4, 2), (4, 3), (4, 4), (4, 5), (5, 2), (5, 3)) + (((4, 6), (4, 7), (6, 3), (5, 4)) if th else ()):
        yield {"k": "potts", "n": n, "q": k}
    yield {"k": "index", "n": 0}
    for n in (3, 4):
        for sym in (0, 1):
            yield {"k": "script", "n": n, "sym": sym}


def load(path, name):
    """as a member of coniii.ising_eqn, which is where the files are meant to live"""
    full = "coniii.ising_eqn." + name
    spec = importlib.util.spec_from_file_location(full, path)
    m = importlib.util.module_from_spec(spec)
    m.__package__ = "coniii.ising_eqn"
    import coniii.ising_eqn
    spec.loader.exec_module(m)
    return m


def run_case(case, rec, ctx):
    k = case["k"]
    e = ctx.enum
    if k == "index":
        for n in range(1, 8):
            for o in range(1, n + 1):
                got = [tuple(int(x) for x in c) for c in np.asarray(e.get_nidx(o, n)).T]
                rec.state(len(got))
                rec.trans()
                rec.trace()
                rec.check(got == list(itertools.combinations(range(n), o)), "index:n",
                          "get_nidx(%d,%d) = %s" % (o, n, got[:8]))
        for n in range(3, 8):
            got = [tuple(int(x) for x in c) for c in zip(*np.where(e.get_3idx(n)))]
            rec.check(got == list(itertools.combinations(range(n), 3)), "index:3", "get_3idx(%d) marks %s" % (n, got[:8]))
        return
    n = case["n"]
    d = os.path.join(ctx.work, "gen_%d_%s" % (os.getpid(), abs(hash(str(case)))))
    os.makedirs(d)
    old = os.getcwd()
    os.chdir(d)
    try:
        if k == "script":
            # the documented command line
            import subprocess
            env2 = dict(os.environ, PYTHONPATH=ctx.stage)
            subprocess.run([sys.executable, "-m", "coniii.enumerate", str(n), str(case["sym"]), "2"], check=True, env=env2, stdout=subprocess.DEVNULL)
            subprocess.run([sys.executable, "-m", "coniii.enumerate_potts", str(n), "3", "potts.py"], check=True, env=env2,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            f = Family(n, case["sym"], 2)
            rec.check(os.path.isfile("ising_eqn/ising_eqn_%d%s.py" % (n, "_sym" if case["sym"] else "")), "script:name",
                      "wrote %s" % os.listdir("ising_eqn"))
            check(rec, "script", load(only("ising_eqn"), "s"), f, nparam(n, 2), False)
            check(rec, "script:potts", load("potts.py", "t"), PottsFamily(n, 3), nparam(n, 2, 3), False)
        elif k == "potts":
            ctx_potts = ctx.enumerate_potts
            q = case["q"]
            env.quietly(ctx_potts.SpecificFieldGenericCouplings(n, q).write, "potts_gen.py")
            m = load("potts_gen.py", "p%d_%d" % (n, q))
            f = PottsFamily(n, q)
            check(rec, "potts", m, f, nparam(n, 2, q), False, small=q ** n > 300)
        else:
            fn = os.path.join(d, "ising_eqn")
            sym = case["sym"]
            hp = case.get("hp", False)
            if k == "pairwise":
                env.quietly(e.pairwise, n, sym, high_prec=hp)
                f = Family(n, sym, 2)
            elif k == "triplet":
                env.quietly(e.triplet, n, sym, high_prec=hp)
                f = Family(n, sym, 3)
            elif k == "orders":
                env.quietly(e.write_eqns, n, sym, [tuple(e.get_nidx(o, n)) for o in case["orders"]], suffix="_x")
                f = Family(n, sym, 0, [c for o in case["orders"] for c in itertools.combinations(range(n), o)])
            elif k == "subset":
                sel = [tuple(c) for c in case["pairs"]]
                env.quietly(e.write_eqns, n, sym, [(list(range(n)),), tuple(zip(*sel))], suffix="_x")
                f = Family(n, sym, 0, [(i,) for i in range(n)] + sel)
            path = only(fn)
            base = os.path.basename(path)[:-3]
            # the suffix is what the model classes look for
            want = {"pairwise": "ising_eqn_%d%s%s" % (n, "_sym" if sym else "", "_hp" if hp else ""),
                    "triplet": "ising_eqn_%d%s%s" % (n, "_sym_triplet" if sym else "_triplet", "_hp" if hp else "")}.get(k, base)
            rec.check(base == want, k + ":name", "wrote %s instead of %s" % (base, want))
            check(rec, k + (":hp" if hp else ""), load(path, base), f, f.O.shape[1], hp, small=n > 9)
    finally:
        os.chdir(old)
        import shutil
        shutil.rmtree(d)


def only(folder):
    fs = [x for x in os.listdir(folder) if x.endswith(".py")]
    assert len(fs) == 1, fs
    return os.path.join(folder, fs[0])


def check(rec, tag, m, f, D, hp, small=False):
    rec.add("programs")
    vs = vectors(D, ["zero", "unit", "huge", "dense"], dense=8)
    if len(f.S) <= 32 and not hp:
        vs += vectors(D, ["pair"])
    if small:
        vs = vectors(D, ["zero", "dense"], dense=8) + [("unit", i, 1.) for i in range(D)]
    if hp:
        vs = [("zero",)] + [("unit", i, s) for i in range(D) for s in (1., 30.)] + vectors(D, ["dense"], dense=4)
    for spec in vs:
        th = vector(D, spec)
        compare(rec, tag, f, th, m.calc_observables(th.copy()), m.p(th.copy()), spec, hp)
    rec.sample({"program": tag, "states": len(f.S), "parameters": D, "vectors": len(vs)})
