"""Vectorised brute-force reference for Ising (both bases), triplet and Potts models, and
parameter sets that separate every coefficient of a parameter-linear exponent."""
import itertools, math
import numpy as np


def nparam(n, order, k=None):
    if k is not None:
        return n * k + n * (n - 1) // 2
    return sum(math.comb(n, o) for o in range(1, order + 1))


class Family:
    """p(s) ~ exp(sum_a theta_a O_a(s)); states in counting order, first unit most significant"""
    def __init__(self, n, sym, order, subsets=None, S=None):
        vals = (-1, 1) if sym else (0, 1)
        self.S = np.array(list(itertools.product(vals, repeat=n)), dtype=int) if S is None else S
        sub = subsets if subsets is not None else [c for o in range(1, order + 1)
                                                   for c in itertools.combinations(range(n), o)]
        self.O = np.array([np.prod(self.S[:, list(c)], axis=1) for c in sub], dtype=float).T
        self.names = sub

    def p(self, th):
        e = self.O @ np.asarray(th, dtype=float)
        e = e - e.max()
        self.e = e
        w = np.exp(e)
        z = w.sum()
        self.logp = e - np.log(z)
        return w / z

    def obs(self, th):
        return self.p(th) @ self.O


class PottsFamily(Family):
    def __init__(self, n, k, S=None):
        self.S = np.array(list(itertools.product(range(k), repeat=n)), dtype=int) if S is None else S
        cols = [(self.S[:, i] == r) for r in range(k) for i in range(n)]
        cols += [(self.S[:, i] == self.S[:, j]) for i, j in itertools.combinations(range(n), 2)]
        self.O = np.array(cols, dtype=float).T


def some_states(n, vals, rows=7):
    """a few states of a system with too many states to list them"""
    f = [lambda i: 0, lambda i: i, lambda i: i * i + i // 3, lambda i: i // 2, lambda i: i == n - 1, lambda i: i != n // 2, lambda i: (i * 5 + 2) // 3]
    return np.array([[vals[int(g(i)) % len(vals)] for i in range(n)] for g in f[:rows]], dtype=int)


def vectors(D, kinds, dense=10):
    out = []
    for kd in kinds:
        if kd == "zero":
            out.append(("zero",))
        elif kd == "unit":
            out += [("unit", i, s) for i in range(D) for s in (1., -1.)]
        elif kd == "big":
            out += [("unit", i, s) for i in range(D) for s in (30., -30.)]
        elif kd == "huge":
            out += [("unit", i, s) for i in range(D) for s in (500., -500., 3000., -3000.)] + [("dense", m, sc) for m in range(3) for sc in (300., 2000.)]
        elif kd == "pair":
            out += [("pair", i, j, a, b) for i in range(D) for j in range(i) for a, b in ((1., 1.), (1., -1.))]
        elif kd == "dense":
            out += [("dense", m, sc) for m in range(max(1, dense // 4)) for sc in (.1, 1., 5., 40.)]
    return out


def vector(D, spec):
    v = np.zeros(D)
    if spec[0] == "unit":
        v[spec[1]] = spec[2]
    elif spec[0] == "pair":
        v[spec[1]] = spec[3]
        v[spec[2]] = spec[4]
    elif spec[0] == "dense":
        # square roots of distinct integers mod 1: linearly independent over the rationals
        m, sc = spec[1], spec[2]
        v = np.array([(math.sqrt(2 + 7 * m + 3 * i + (i * i) % 5) * 1.7) % 1 - .5 for i in range(D)]) * 2 * sc
    return v


def blocks(xs, k):
    xs = list(xs)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def compare(rec, tag, f, th, obs, p, what, hp=False, probs=True):
    rec.state(len(f.S))
    rec.trans(len(th) + len(f.S))
    rec.trace()
    ref = f.p(th)
    robs = ref @ f.O
    o = np.array([float(x) for x in obs]) if hp else np.asarray(obs, dtype=float)
    if not rec.check(o.shape == robs.shape, tag + ":shape", "observables of shape %s instead of %s" % (o.shape, robs.shape)):
        return
    d = np.abs(o - robs)
    d[np.isnan(d)] = np.inf
    i = int(d.argmax())
    tol = 1e-8 * (1 + np.abs(th).sum() * 1e-3)
    rec.check(d[i] < tol, tag + ":observables",
              "observable %d is %r, enumeration gives %r (parameters %s)" % (i, float(o[i]), float(robs[i]), what))
    if not probs:
        return
    q = np.array([float(x) for x in p]) if hp else np.asarray(p, dtype=float)
    if not rec.check(q.shape == ref.shape, tag + ":pshape", "probabilities of shape %s instead of %s" % (q.shape, ref.shape)):
        return
    d = np.abs(q - ref)
    d[np.isnan(d)] = np.inf
    i = int(d.argmax())
    rec.check(d[i] < tol, tag + ":p",
              "probability of state %s is %r, enumeration gives %r (parameters %s)" % (f.S[i].tolist(), float(q[i]), float(ref[i]), what))
    rec.check((q >= 0).all() and abs(q.sum() - 1) < 1e-7, tag + ":normalised",
              "probabilities sum to %r, min %r (parameters %s)" % (q.sum(), q.min(), what))
    # small probabilities are compared on the log scale
    big = (f.logp > -600) & (q > 0)
    if big.any():
        dl = np.abs(np.log(q[big]) - f.logp[big])
        j = int(dl.argmax())
        rec.check(dl[j] < 1e-7 * (1 + np.abs(th).sum() * 1e-2), tag + ":logp",
                  lambda: "log probability of state %s is off by %g (parameters %s)" % (f.S[big][j].tolist(), dl[j], what))
    rec.check(((q > 0) | (f.logp < -600)).all(), tag + ":positive", lambda: "a possible state has probability 0 (parameters %s)" % (what,))
