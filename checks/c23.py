"""C23: the Wolff cluster sampler preserves the Boltzmann law."""
import itertools, json, math, os, subprocess, sys
import numpy as np
from mc import env, choice
from mc.choice import law

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = ("stateless exploration of the real sampler: every outcome of every comparison with a random number is enumerated with its exact probability "
             "(any real parameters), giving the transition matrix of a cluster update, and the laws of generated samples and histories as products of it; "
             "the compiled neighbour search is bound to the explored one on all inputs of a grid")
RULE = "case = couplings and fields x start site (transition matrix), or system x route x number of updates (law of the samples), or the compiled neighbour search"
BOUNDS = {"quick": "detailed balance around one state of n<=40 units coupled in pairs, n<=140 coupled as a star or rigidly; transition matrices over all states for n=1..4, 9 parameter sets (mixed signs, zeros, strong), vector and matrix couplings, random and every given start "
                   "site; samples: n<=3, 0-4 updates, up to 2 rows, three routes, given and random initial sample; compiled search: n<=4, all marked sets, 4^n random rows",
          "thorough": "adds n=5 (all 32 states), 20 parameter sets, up to 5 updates (7 for n=1)"}
ASSUMPTIONS = ["with numba's compiler switched off the same source runs as Python (compared with compiled runs over a grid)"]
CHUNK = 1


def setup(ctx):
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    env.bring_up(ctx, modules=("utils", "samplers"))


def params(n, i):
    """couplings (vector) and fields number i"""
    m = n * (n - 1) // 2
    k = np.arange(m)
    f = np.arange(n)
    J = [0 * k, .3 + 0 * k, -.3 + 0 * k, np.where(k % 2, .7, -.4) + .01 * k, np.where(k % 3, 0., .9), .2 * (k - m / 2.5), 1.3 - .4 * k, np.where(k % 3 == 1, -2.5, .15 * k), 4. - 8. * (k % 2)]
    h = [0. * f, .4 + 0 * f, .3 * (f - 1.2), np.where(f % 2, -.5, .8), .25 * f, -.6 + .5 * f, np.where(f == 0, 2.1, 0.), .05 + 0 * f, 0. * f]
    if i < 9:
        return J[i] * 1., h[(i * 2 + (i > 2)) % 9] * 1.
    return J[i % 9] * (.5 if i % 2 else -1.), h[(i * 4 + 1) % 9] * (1 if i % 2 else -1.)


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for i in range(20 if th and n < 5 else 9 if n < 5 else 8):
            yield {"k": "kernel", "n": n, "i": i}
    for n in (1, 2, 3):
        for i in (1, 3, 5):
            for nit in range(8 if th and n == 1 else 6 if th and n == 2 else 5 if n < 3 else 4):
                if n == 3 and nit == 3 and i != 3:
                    continue
                yield {"k": "sample", "n": n, "i": i, "nit": nit}
    for n in (7, 10, 20) + ((40, 70) if th else (40,)):
        for v in range(2):
            yield {"k": "large", "n": n, "v": v}
    for n in (40, 70, 140) + ((300,) if th else ()):
        for v in range(3):
            yield {"k": "star", "n": n, "v": v}
            yield {"k": "rigid", "n": n, "v": v}
    yield {"k": "update", "n": 3}
    yield {"k": "compiled", "n": 4}


def states(n):
    return [np.array([1. - 2 * (m >> b & 1) for b in range(n)]) for m in range(2 ** n)]


def bits(x):
    v = np.asarray(x)
    if v.ndim != 1 or not set(np.unique(v)) <= {-1, 1}:
        return -1
    return sum(1 << b for b, y in enumerate(v) if y < 0)


def mat(J, n):
    M = np.zeros((n, n))
    M[np.triu_indices(n, 1)] = J
    return M + M.T


def boltzmann(J, h, n):
    M = mat(J, n)
    w = np.exp([.5 * s @ M @ s + h @ s for s in states(n)])
    return w / w.sum()


def kernel(w, rec, n, site, key, what, dtype=float):
    T = np.zeros((2 ** n, 2 ** n))
    for a, s in enumerate(states(n)):
        def run():
            x = s.astype(dtype)
            w.one_step(x) if site is None else w.one_step(x, initialsite=site)
            return bits(x)
        d = law(run, 64, rec=rec, lazy=True)
        rec.state()
        if not rec.check(-1 not in d, key + ":values", lambda: "%s: an update of %s leaves a state that is not +-1" % (what, s.tolist())):
            return None
        for c, p in d.items():
            T[a, c] += p
    return T


def connected(C, M, s, start=None):
    """is the set C connected through pairs whose alignment is favoured in s?"""
    C = list(C)
    seen, todo = {C[0] if start is None else start}, [C[0] if start is None else start]
    while todo:
        i = todo.pop()
        for j in C:
            if j not in seen and M[i, j] * s[i] * s[j] > 0:
                seen.add(j)
                todo.append(j)
    return seen >= set(C)


def large_case(case, rec, S):
    """Every unit has one partner, so that a cluster is one unit or a pair: detailed balance around one state."""
    n, v = case["n"], case["v"]
    part = [n - 1 - i if v else i ^ 1 for i in range(n)]
    M = np.zeros((n, n))
    for i in range(n):
        if part[i] != i and part[i] < n:
            M[i, part[i]] = M[part[i], i] = .17 * (min(i, part[i]) % 4 - 1.5)
    h = np.array([.23 * ((i * 7 + v) % 5 - 2) for i in range(n)])
    w = S.WolffIsing(M[np.triu_indices(n, 1)], h.copy())
    w.rng = choice.Rng()
    s0 = tuple(1 if (i * i + i // 3 + v) % 5 < 3 else -1 for i in range(n))
    step = max(1, n // 10)

    def row(s):
        def run():
            x = np.array(s, dtype=float)
            w.one_step(x)
            return tuple(int(y) for y in x)
        rec.state()
        return law(run, 64, rec=rec, lazy=True)

    def energy(s):
        x = np.array(s)
        return -(.5 * x @ M @ x + h @ x)
    P = row(s0)
    hit = set()
    for s in P:
        diff = [i for i in range(n) if s[i] != s0[i]]
        hit.update(diff)
        rec.check(len(diff) <= 1 or len(diff) == 2 and part[diff[0]] == diff[1], "large:cluster", lambda: "units %s flipped together (%s)" % (diff, case))
        if not diff or diff[0] % step:
            continue
        back = row(s).get(s0, 0.)
        e = energy(s) - energy(s0)
        rec.check(back > 0 and abs(P[s] - back * math.exp(-e)) < 1e-9, "large:balance", lambda: "flipping units %s has probability %g and %g back, which "
                  "should be in the ratio %g (%s)" % (diff, P[s], back, math.exp(-e), case))
    rec.check(len(hit) == n, "large:reach", lambda: "units %s are never flipped (%s)" % (sorted(set(range(n)) - hit), case))


def wide_case(case, rec, S):
    """star: one unit with partners far apart; rigid: units bound so strongly that they flip together"""
    n, v = case["n"], case["v"]
    M = np.zeros((n, n))
    s0 = np.array([1. if (i * i + i // 3 + v) % 5 < 3 else -1. for i in range(n)])
    h = np.array([.03 * ((i * 7 + v) % 5 - 2) for i in range(n)])
    if case["k"] == "star":
        c = [0, n - 1, n // 2][v]
        leaves = [(c + d) % n for d in (1, 9, 17, 33, 65, 129) if d < n]
        for i, j in enumerate(leaves):
            M[c, j] = M[j, c] = (.4 - .07 * i) * s0[c] * s0[j]
        sites = [c, leaves[-1]]
    else:
        # a chain, a comb or everything
        for i in range(n - 1):
            j = [i, 0, max(0, i + 1 - 9)][v]
            M[i + 1, j] = M[j, i + 1] = 60. * s0[j] * s0[i + 1]
        sites = [0, n // 2, n - 1]
    w = S.WolffIsing(M[np.triu_indices(n, 1)], h.copy())
    w.rng = choice.Rng()

    def row(s, site):
        def run():
            x = np.array(s, dtype=float)
            w.one_step(x, initialsite=site)
            return tuple(int(y) for y in x)
        rec.state()
        return law(run, 64, rec=rec, lazy=True)
    for site in sites:
        a = tuple(int(x) for x in s0)
        P = row(a, site)
        moves = [s for s in P if s != a]
        if case["k"] == "rigid":
            rec.check(all(x == tuple(-y for y in a) for x in moves) and moves, "wide:rigid", lambda: "units bound with certainty do not flip together from site %d (%s)" % (site, case))
        for s in moves:
            diff = [i for i in range(n) if s[i] != a[i]]
            rec.check(site in diff and connected(diff, M, s0), "wide:cluster", lambda: "units %s flip together from site %d (%s)" % (diff, site, case))
            f, g = P[s], row(s, site).get(a, 0.)
            d = 2 * sum(h[i] * a[i] for i in diff)
            t = np.array(s)
            d += .5 * (s0 @ M @ s0 - t @ M @ t)
            rec.check(g > 0 and abs(f / g * math.exp(d) - 1) < 1e-8, "wide:balance", lambda: "flipping units %s has probability %.12g and %.12g back, which should be in the ratio %.12g (%s)" % (diff, f, g, math.exp(-d), case))


def run_case(case, rec, ctx):
    k, n = case["k"], case["n"]
    S = ctx.samplers
    if k in ("large", "star", "rigid"):
        with env.controlled():
            return (large_case if k == "large" else wide_case)(case, rec, S)
    with env.controlled():
        if k == "kernel":
            J, h = params(n, case["i"])
            M, pi = mat(J, n), boltzmann(J, h, n)
            base = {}
            for form, dtype in (("vector", float), ("matrix", float), ("vector", int)):
                Jf = J if form == "vector" else M
                try:
                    w = S.WolffIsing(Jf.copy(), h.copy())
                    w.rng = choice.Rng()
                except Exception as e:
                    rec.bad("raises:" + form, "WolffIsing with couplings as a %s of shape %s, n=%d: %r" % (form, Jf.shape, n, e))
                    continue
                for site in [None] + list(range(n)):
                    if dtype is int and site not in (None, n - 1) or form == "matrix" and site not in (None, 0):
                        continue
                    what = "couplings %s (%s), fields %s, start %s" % (J.tolist(), form, h.tolist(), "random" if site is None else "at site %d" % site)
                    key = "%s:%s" % ("random" if site is None else "given", form)
                    T = kernel(w, rec, n, site, key, what, dtype)
                    if T is None:
                        continue
                    rec.check(np.allclose(T.sum(1), 1), key + ":mass", lambda: what)
                    D = pi[:, None] * T
                    rec.check(np.abs(pi @ T - pi).max() < 1e-10, key + ":stationary", lambda: "%s: the Boltzmann law changes by up to %g in one update" % (what, np.abs(pi @ T - pi).max()))
                    i, j = np.unravel_index(np.abs(D - D.T).argmax(), D.shape)
                    rec.check(np.abs(D - D.T).max() < 1e-10, key + ":balance", lambda: "%s: %s -> %s has probability %g, back %g, weights %g and %g"
                              % (what, states(n)[i].tolist(), states(n)[j].tolist(), T[i, j], T[j, i], pi[i], pi[j]))
                    for a, s in enumerate(states(n)):
                        for c in np.flatnonzero(T[a] > 1e-14):
                            C = [b for b in range(n) if (a ^ int(c)) >> b & 1]
                            if not C:
                                continue
                            rec.check(connected(C, M, s), key + ":favoured", lambda: "%s: from %s the sites %s flip together, which are not connected by favoured pairs" % (what, s.tolist(), C))
                            if site is not None:
                                rec.check(site in C, key + ":start", lambda: "%s: from %s the sites %s flip, the start site is not among them" % (what, s.tolist(), C))
                    if site is None:
                        R = np.linalg.matrix_power((T > 0).astype(float) + np.eye(2 ** n), 2 ** n)
                        rec.check((R > 0).all(), key + ":reach", lambda: "%s: not every state can be reached" % what)
                    if (site, dtype) in base:
                        rec.check(np.allclose(base[site, dtype], T, atol=1e-12), key + ":form", lambda: "%s: the update differs from that with couplings as a vector" % what)
                    base.setdefault((site, dtype), T)
            rec.sample({"n": n, "J": J.tolist(), "h": h.tolist(), "update kernel row 0": base[None, float][0].round(6).tolist() if (None, float) in base else None})
        elif k == "sample":
            sample_case(case, rec, S)
        elif k == "update":
            J, h = params(n, 3)
            J2, h2 = params(n, 5)
            for form in ("vector", "matrix"):
                w = S.WolffIsing(J, h)
                w.rng = choice.Rng()
                w.update_parameters(J2 if form == "vector" else mat(J2, n), h2)
                T = kernel(w, rec, n, None, "update", "after update_parameters (%s)" % form)
                pi = boltzmann(J2, h2, n)
                rec.check(T is not None and np.abs(pi @ T - pi).max() < 1e-10, "update:" + form, lambda: "after update_parameters(%s) the sampler does not sample the new model" % form)
    if k == "compiled":
        compiled(rec, ctx)


def sample_case(case, rec, S):
    n, nit = case["n"], case["nit"]
    J, h = params(n, case["i"])
    w = S.WolffIsing(J.copy(), h.copy())
    w.rng = choice.Rng()
    what = "couplings %s, fields %s, %d updates" % (J.tolist(), h.tolist(), nit)
    T = kernel(w, rec, n, None, "sample", what)
    F = [kernel(w, rec, n, i, "sample", what) for i in range(n)]
    if T is None or any(f is None for f in F):
        return
    I = np.eye(2 ** n)
    P = np.linalg.matrix_power(T, nit)
    Q = I
    for j in range(nit):
        Q = Q @ F[j % n]
    small = n <= 2 or nit <= 1

    def go(route, start, rows, hist):
        w = S.WolffIsing(J.copy(), h.copy())
        w.rng = choice.Rng()
        kw = {} if start is None else {"initialSample": start}
        keep = None if start is None else start.copy()
        if route == "parallel":
            r = w.generate_sample_parallel(rows, nit, **kw)
        else:
            r = w.generate_sample(rows, nit, save_history=hist, **kw)
        if keep is not None and not np.array_equal(keep, start):
            return "overwrote the initial sample"
        x, H = r if hist else (r, None)
        if np.shape(x) != (rows, n):
            return "returned a sample of shape %s instead of %s" % (np.shape(x), (rows, n))
        out = tuple(bits(v) for v in x)
        if hist:
            if np.shape(H) != (rows, n, nit + 1):
                return "returned a history of shape %s instead of %s" % (np.shape(H), (rows, n, nit + 1))
            return out, tuple(tuple(bits(H[i, :, j]) for j in range(nit + 1)) for i in range(rows))
        return out
    u = np.ones(2 ** n) / 2 ** n
    for route in ("sequential", "history", "parallel"):
        K = P if route == "sequential" else Q
        hist = route == "history"
        starts = [(None, 1)] + [(s[None], 1) for s in states(n)]
        if n <= 2 and nit <= 2:
            starts += [(np.array([a, b]), 2) for a in states(n) for b in states(n)] + ([(None, 2)] if n == 1 or nit < 2 else [])
        if n == 3 and nit >= 2:
            starts = [(s[None], 1) for s in states(n)[::3]]
            if nit == 3 and route == "history":
                starts = starts[:1]
        for st, rows in starts:
            key = "%s:%s" % (route, "given" if st is not None else "random")
            wh = "%s, %s, %d row(s), initial sample %s" % (route, what, rows, None if st is None else st.tolist())
            try:
                d = law(lambda: go(route, None if st is None else st.copy(), rows, hist), 64, rec=rec, lazy=True)
            except choice.Unsupported:
                raise
            except Exception as e:
                rec.bad(key + ":raises", "%s: %r" % (wh, e))
                continue
            rec.state(len(d))
            errs = [x for x in d if isinstance(x, str)]
            if not rec.check(not errs, key + ":shape", lambda: "%s: %s" % (wh, errs[0])):
                continue
            first = [u if st is None else I[bits(st[r])] for r in range(rows)]
            if hist:
                worst = 0.
                for (out, H), p in d.items():
                    q = 1.
                    for r in range(rows):
                        if H[r][-1] != out[r]:
                            rec.bad(key + ":last", "%s: the history ends with %s but the sample is %s" % (wh, H[r][-1], out[r]))
                        q *= first[r][H[r][0]]
                        for j in range(nit):
                            # the order of the start sites is the sampler's business: any of the fixed-site updates or the random one
                            q *= F[j % n][H[r][j], H[r][j + 1]]
                    worst = max(worst, abs(p - q))
                rec.check(worst < 1e-10, key + ":path", lambda: "%s: probability of a history is off by %g" % (wh, worst))
                rec.check(abs(sum(d.values()) - 1) < 1e-9, key + ":mass", lambda: wh)
            else:
                worst = max(abs(d.get(o, 0.) - math.prod((first[r] @ K)[o[r]] for r in range(rows))) for o in itertools.product(range(2 ** n), repeat=rows))
                rec.check(worst < 1e-10 and all(len(o) == rows for o in d), key + ":law", lambda: "%s: probability of an outcome differs from that of %d updates by %g" % (wh, nit, worst))


def compiled(rec, ctx):
    """the neighbour search compiled by numba against the same rule in the explorer"""
    code = r"""
import sys, json, itertools
sys.path.insert(0, %r)
import numpy as np
from coniii.samplers import iterate_neighbors
bad, cnt = [], 0
for n in (1, 2, 3, 4):
    for marked in itertools.product((False, True), repeat=n):
        for e in ([.5] * n, [1.5, .2, 1., .6][:n], [0., 3., .3, .9][:n]):
            for r in itertools.product((.05, .35, .65, .95), repeat=n):
                got = iterate_neighbors(n, np.array(marked), np.array(e), np.array(r)).tolist()
                want = [i for i in range(n) if not marked[i] and r[i] < 1 - e[i]]
                cnt += 1
                if got != want:
                    bad.append([n, marked, e, r, got, want])
print("RESULT" + json.dumps([cnt, len(bad), bad[:3]]))
""" % ctx.stage
    e = dict(os.environ)
    e.pop("NUMBA_DISABLE_JIT", None)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=e, capture_output=True, text=True, timeout=380)
    line = [l for l in p.stdout.split("\n") if l.startswith("RESULT")]
    if not line and "cannot import name 'iterate_neighbors'" in p.stderr:
        rec.add("compiled_search_absent")      # the helper may be organised differently: the kernels above judge it
        return
    if not rec.check(bool(line), "compiled:raises", lambda: "the compiled neighbour search fails: %s" % p.stderr[-300:]):
        return
    cnt, nb, bad = json.loads(line[0][6:])
    rec.trans(cnt)
    rec.trace(cnt)
    rec.state(cnt)
    rec.check(nb == 0, "compiled:differs", lambda: "the compiled neighbour search disagrees with the interpreted one in %d of %d cases, e.g. %s" % (nb, cnt, bad))
