"""Exhaustive exploration of every answer a random source (or scheduler) can give.

SRC is the single choice stack: Python random generators (Rng), the controlled C++ build
and the fake process pool all draw from it.  `runs(fn)` re-executes fn once for each
distinct sequence of answers (stateless model checking by re-execution), yielding the
result with the exact probability weight of that sequence.

A uniform real is answered with the midpoints of a grid of K equal cells.  Choosing
parameters whose acceptance probabilities are multiples of 1/K makes the enumeration
exact: every u in a cell leads to the same decision.
"""
import ctypes, math, os, copy
import numpy as np
import numpy.random as _npr

_RS = _npr.RandomState
BIG = 4096          # a request with more outcomes than this is a seed draw, not a choice


class Unsupported(BaseException):
    """the executions of the code under test cannot be enumerated (not a violation)"""


class Budget:
    """Seconds one enumeration may take. It shrinks once an enumeration has proved too large: the others of its kind will be."""
    law, small, hit = 150., 6., False
    started = None          # when the execution now under way began


import time as _time


class Source:
    def __init__(self):
        self.K = 8
        self.active = False
        self.lazy = False
        self.reset([])
        self.seed_ctr = 0
        self.schedules = False

    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.seed_ctr = 1000
        self.seeds = []
        self.bad = []
        self.wt = 1.0
        self.sched_log = []

    def pick(self, n):
        i = len(self.taken)
        if n == 1:
            return 0
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        self.wt /= n
        return c

    def nopick(self, n):
        """nondeterministic (scheduler) choice: no probability weight"""
        i = len(self.taken)
        if n == 1:
            return 0
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def pick_w(self, p):
        """choice between two outcomes with probabilities p and 1-p; returns True for the first"""
        if p <= 0:
            return False
        if p >= 1:
            return True
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, 2))
        self.wt *= p if c == 0 else 1 - p
        return c == 0

    def unit(self):
        if self.lazy:
            return Lazy(_Base())
        return (self.pick(self.K) + 0.5) / self.K

    def seed(self, lo, hi):
        self.seed_ctr += 1
        v = lo + self.seed_ctr
        self.seeds.append(v)
        return v


SRC = Source()


class _Base:
    """a uniform variate on [0,1) of which only the interval [lo, hi) has been decided"""
    __slots__ = ("lo", "hi", "val")

    def __init__(self):
        self.lo, self.hi, self.val = 0.0, 1.0, None

    def below(self, t):
        """is the variate smaller than t?  Branches with the exact conditional probability."""
        if self.val is not None:
            return self.val < t
        if t <= self.lo:
            return False
        if t >= self.hi:
            return True
        if SRC.pick_w((t - self.lo) / (self.hi - self.lo)):
            self.hi = t
            return True
        self.lo = t
        return False

    def settle(self):
        """code that needs the number itself gets one on the grid of K cells"""
        if self.val is None:
            self.val = self.lo + (self.hi - self.lo) * (SRC.pick(SRC.K) + .5) / SRC.K
        return self.val


class Lazy:
    """A uniform variate (or a monotone function of one) that is decided only as far as comparisons need:
    every comparison branches with its exact probability, so that no grid is needed for arbitrary thresholds."""
    __slots__ = ("b", "f", "inv", "inc")
    __array_priority__ = 1e6

    def __init__(self, b, f=None, inv=None, inc=True):
        self.b, self.f, self.inv, self.inc = b, f, inv, inc

    def _lt(self, x):
        x = float(x)
        t = x if self.inv is None else self.inv(x)
        return self.b.below(t) if self.inc else not self.b.below(t)

    __lt__ = __le__ = lambda self, x: self._lt(x) if not isinstance(x, Lazy) else float(self) < float(x)
    __gt__ = __ge__ = lambda self, x: (not self._lt(x)) if not isinstance(x, Lazy) else float(self) > float(x)

    def __eq__(self, x):
        return False

    def __ne__(self, x):
        return True

    def __hash__(self):
        return id(self.b)

    def __float__(self):
        v = self.b.settle()
        return float(v if self.f is None else self.f(v))

    def _map(self, g, ginv, inc):
        f, inv = self.f, self.inv
        return Lazy(self.b, (lambda u: g(u)) if f is None else (lambda u: g(f(u))),
                    (lambda x: ginv(x)) if inv is None else (lambda x: inv(ginv(x))), self.inc == inc)

    def __add__(self, c):
        return self._map(lambda v: v + c, lambda x: x - c, True)
    __radd__ = __add__

    def __sub__(self, c):
        return self + (-c)

    def __rsub__(self, c):
        return (-self) + c

    def __neg__(self):
        return self._map(lambda v: -v, lambda x: -x, False)

    def __mul__(self, c):
        if isinstance(c, Lazy) or c == 0:
            return float(self) * float(c)
        return self._map(lambda v: v * c, lambda x: x / c, c > 0)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1. / c)

    __rtruediv__ = lambda self, c: c / float(self)
    __pow__ = lambda self, c: float(self) ** c
    __rpow__ = lambda self, c: c ** float(self)
    __abs__ = lambda self: abs(float(self))
    __round__ = lambda self, *a: round(float(self), *a)

    def log(self):
        e = lambda x: math.exp(x) if x < 700 else math.inf
        return self._map(lambda v: math.log(v) if v > 0 else -math.inf, e, True)

    def exp(self):
        return self._map(math.exp, lambda x: math.log(x) if x > 0 else -math.inf, True)

    def __int__(self):
        lo = self.f(0.) if self.f else 0.
        hi = self.f(1.) if self.f else 1.
        if not (math.isfinite(lo) and math.isfinite(hi)) or abs(hi - lo) > BIG:
            return int(float(self))
        a, z = sorted((math.floor(lo), math.floor(hi)))
        for k in range(a, z + 1):
            if self._lt(k + 1):
                return k if k >= 0 else k + 1
        return z
    __trunc__ = __int__

    def __floor__(self):
        return int(math.floor(float(self))) if float(self) < 0 else int(self)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__" or kw:
            return NotImplemented
        nm = ufunc.__name__
        if any(isinstance(a, np.ndarray) and a.ndim for a in args):
            args = [np.array(a, dtype=object) if isinstance(a, Lazy) else a for a in args]
            sh = np.broadcast(*args).shape
            ar = [np.broadcast_to(a, sh).astype(object) for a in args]
            out = [self._op(nm, ufunc, [a[i] for a in ar]) for i in np.ndindex(sh)]
            return np.array(out).reshape(sh)
        return self._op(nm, ufunc, [a.item() if isinstance(a, np.ndarray) else a for a in args])

    def _op(self, nm, ufunc, a):
        import operator as o
        t = {"less": o.lt, "less_equal": o.le, "greater": o.gt, "greater_equal": o.ge, "add": o.add, "subtract": o.sub,
             "multiply": o.mul, "true_divide": o.truediv, "divide": o.truediv, "negative": o.neg, "equal": o.eq, "not_equal": o.ne}
        if nm in t:
            return t[nm](*a)
        if nm in ("log", "exp"):
            return getattr(a[0], nm)()
        return ufunc(*[float(x) if isinstance(x, Lazy) else x for x in a])


def runs(fn, K=None, limit=5_000_000, lazy=False, base=()):
    """Yield (result, weight, answers) for every complete sequence of random answers that starts with the answers
    in base (the weight is that of the answers after it)."""
    base = list(base)
    SRC.lazy = lazy
    if K is not None:
        SRC.K = K
        set_grid(K)
    prefix, count = base, 0
    SRC.active = True
    t0 = _time.time()
    try:
        while True:
            SRC.reset(prefix)
            Budget.started = _time.time()
            if count > 20 and Budget.started - t0 > (Budget.small if Budget.hit else Budget.law):
                Budget.hit = True
                raise Unsupported("more than %d executions" % count)
            out = fn()
            t = SRC.taken
            yield out, SRC.wt * math.prod(n for _, n in t[:len(base)]) if base else SRC.wt, t
            count += 1
            if count > limit:
                raise Unsupported("more than %d executions" % limit)
            while len(t) > len(base) and t[-1][0] == t[-1][1] - 1:
                t.pop()
            if len(t) <= len(base):
                return
            prefix = [c for c, _ in t]
            prefix[-1] += 1
    finally:
        Budget.started = None
        SRC.active = False
        SRC.lazy = False
        SRC.reset([])


def follow(fn, K, answer):
    """One execution of fn in which the i-th question, with n outcomes, is answered answer(i, n); returns the
    result and the list of answers."""
    SRC.K = K
    set_grid(K)
    SRC.active = True
    pick = SRC.pick

    def scripted(n):
        if n == 1:
            return 0
        c = min(max(int(answer(len(SRC.taken), n)), 0), n - 1)
        SRC.taken.append((c, n))
        return c
    try:
        SRC.reset([])
        SRC.pick = scripted
        out = fn()
        return out, [c for c, _ in SRC.taken]
    finally:
        SRC.pick = pick
        SRC.active = False
        SRC.reset([])


def refined(fn, prefix=(), K=2 ** 45, probes=9, rec=None):
    """Distribution of fn()'s result when uniform reals have a grid of K cells, too many to be answered one by one:
    cells between which nothing changes are taken together. Every interval between two of the probed cells is
    assumed to hold at most one change, which is found by bisection."""
    prefix = list(prefix)
    nxt = []

    def answer(i, n):
        if i < len(prefix):
            return prefix[i]
        nxt.append(n)
        return 0
    out, _ = follow(fn, K, answer)
    if rec is not None:
        rec.trans(1)
    if not nxt:
        return {out: 1.}
    n = nxt[0]
    sub = {}

    def go(c):
        if c not in sub:
            sub[c] = refined(fn, prefix + [c], K, probes, rec)
        return sub[c]
    d = {}
    if n < K:
        for c in range(n):
            for k, p in go(c).items():
                d[k] = d.get(k, 0.) + p / n
        return d
    pts = sorted({0, K - 1} | {K * i // (probes - 1) for i in range(1, probes - 1)})
    cuts = [0]
    for a, b in zip(pts, pts[1:]):
        if go(a) != go(b):
            ga = go(a)
            while b - a > 1:
                m = (a + b) // 2
                if go(m) == ga:
                    a = m
                else:
                    b = m
            cuts.append(b)
    for a, b in zip(cuts, cuts[1:] + [K]):
        for k, p in go(a).items():
            d[k] = d.get(k, 0.) + p * ((b - a) / K)
    return d


def law(fn, K=None, key=None, rec=None, limit=5_000_000, lazy=False, base=()):
    """Exact distribution of fn()'s result: {result: probability} (given the answers in base, if any)."""
    d, n = {}, 0
    for out, w, _ in runs(fn, K, limit, lazy, base):
        k = key(out) if key else out
        d[k] = d.get(k, 0.0) + w
        n += 1
    if rec is not None:
        rec.trans(n)
        rec.trace(n)
    return d


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(x) for x in size)


def _fill(f, size):
    sh = _shape(size)
    if sh is None:
        return f()
    n = int(np.prod(sh)) if sh else 1
    if SRC.lazy:
        v = [f() for _ in range(n)]
        a = np.empty(n, dtype=object if any(isinstance(x, Lazy) for x in v) else None)
        a[:] = v
        return (a if a.dtype == object else np.array(v)).reshape(sh)
    return np.array([f() for _ in range(n)]).reshape(sh)


def _settle(cp):
    """a number on the same side of every entry of cp as a uniform variate, chosen with exact probability"""
    b, lo = _Base(), 0.
    for t in cp:
        if b.below(t):
            return (lo + t) / 2
        lo = t
    return (lo + 1) / 2


class Rng(_RS):
    """A RandomState whose every answer is a choice of the explorer."""
    def __init__(self, seed=None):
        super().__init__(0)
        self.seed_arg = seed

    def __reduce__(self):
        return (Rng, (self.seed_arg,))

    def __deepcopy__(self, memo):
        return Rng(self.seed_arg)

    def __copy__(self):
        return Rng(self.seed_arg)

    def seed(self, *a, **k):
        return None

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        n = int(hi) - int(lo)
        if n <= 0:
            raise ValueError("low >= high")
        if n > BIG:
            return _fill(lambda: SRC.seed(int(lo), int(hi)), size)
        return _fill(lambda: int(lo) + SRC.pick(n), size)

    def random_integers(self, low, high=None, size=None):
        lo, hi = (1, low) if high is None else (low, high)
        return self.randint(lo, hi + 1, size)

    def rand(self, *dims):
        return _fill(SRC.unit, dims if dims else None)

    def random_sample(self, size=None):
        return _fill(SRC.unit, size)

    random = random_sample
    ranf = random_sample
    sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return _fill(lambda: low + (high - low) * SRC.unit(), size)

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        a = np.asarray(a)
        n = len(a)
        if p is not None:
            cp = np.cumsum(p)
            return _fill(lambda: a[min(int(np.searchsorted(cp, float(SRC.unit()) if not SRC.lazy else _settle(cp), side="right")), n - 1)], size)
        if not replace:
            left = list(range(n))
            sh = _shape(size)
            m = 1 if sh is None else int(np.prod(sh))
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            out = [left.pop(SRC.pick(len(left))) for _ in range(m)]
            return a[out[0]] if sh is None else a[np.array(out, dtype=int)].reshape(sh + a.shape[1:])
        sh = _shape(size)
        if sh is None:
            return a[SRC.pick(n)]
        m = int(np.prod(sh))
        ix = np.array([SRC.pick(n) for _ in range(m)], dtype=int)
        return a[ix].reshape(sh + a.shape[1:])

    def permutation(self, x):
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        left = list(range(len(a)))
        return a[[left.pop(SRC.pick(len(left))) for _ in range(len(a))]]

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = SRC.pick(i + 1)
            x[i], x[j] = copy.copy(x[j]), copy.copy(x[i])

    def binomial(self, n, p, size=None):
        return _fill(lambda: sum(SRC.unit() < p for _ in range(int(n))), size)

    def normal(self, *a, **k):
        raise Unsupported("normal variates cannot be enumerated")
    randn = standard_normal = normal


_PATCH = ("rand", "randint", "random", "random_sample", "ranf", "uniform", "choice",
          "permutation", "shuffle", "binomial", "normal", "randn")
_saved = {}


def install_numpy():
    """All of numpy's legacy random API now asks the explorer (RandomState included)."""
    if _saved:
        return
    _saved["RandomState"] = _npr.RandomState
    g = Rng()
    for f in _PATCH:
        _saved[f] = getattr(_npr, f)
        setattr(_npr, f, getattr(g, f))
    _npr.RandomState = Rng
    _npr.mtrand.RandomState = Rng


def uninstall_numpy():
    for f, v in _saved.items():
        setattr(_npr, f, v)
    if _saved:
        _npr.mtrand.RandomState = _saved["RandomState"]
    _saved.clear()


# ------------------------------------------------------------- the controlled C++ build
_lib = None
_cb = None


def attach_ext(stage):
    """Connect a controlled samplers_ext.so to SRC."""
    global _lib, _cb
    so = os.path.join(stage, "coniii", "samplers_ext.so")
    _lib = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
    CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_long, ctypes.c_long)

    def pick(kind, n):
        if kind == 3:
            SRC.bad.append("empty range requested from the C++ random source (width %d)" % n)
            return 0
        if n > BIG and kind != 1:
            return SRC.seed(0, n)
        return SRC.pick(n)
    _cb = CB(pick)
    ctypes.c_void_p.in_dll(_lib, "verif_pick_cb").value = ctypes.cast(_cb, ctypes.c_void_p).value


def set_grid(K):
    if _lib is not None:
        ctypes.c_long.in_dll(_lib, "verif_grid").value = K
