"""C11: state enumeration lists every state exactly once in counting order."""
import itertools
import math
import numpy as np
from mc import env

LEVEL = "model_checking"
NEED_EXT = False
TECHNIQUE = "explicit-state enumeration of all sizes, bases and integers up to the bound against counting order built with itertools.product and divmod"
RULE = "case = function x size x basis; the complete list of states (or digits of every integer of the range) is compared"
BOUNDS = {"quick": "binary n<=17 in both bases (lazy n<=11); multi-state: every k=2..36 and every n with k^n<=40000; digits: every integer <= 4000 and "
                   "base^e-1, base^e, base^e+1 up to 2^62 for every base 2..36; multinomial coefficients of every composition of n<=20 into <=4 parts; "
                   "expanded binomials of every n<=12 and 5 pairs of terms",
          "thorough": "binary n<=18 (lazy n<=14), k^n<=700000, digits up to 60000; multinomials n<=40, <=5 parts; expanded binomials n<=16"}
ASSUMPTIONS = []
CHUNK = 1
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def setup(ctx):
    env.bring_up(ctx, modules=("utils",), fake_pool=False)
    ctx.utils.base_repr(3, 2)
    ctx.utils.base_repr(3, 20)
    list(ctx.utils.xpotts_states(1, 2))


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 19 if th else 18):
        for sym in (False, True):
            yield {"k": "bin", "n": n, "sym": sym, "lazy": n <= (14 if th else 11)}
    yield {"k": "refuse"}
    for n in range(41 if th else 21):
        yield {"k": "multinomial", "n": n, "parts": 5 if th else 4}
    for n in range(1, 17 if th else 13):
        yield {"k": "binomial", "n": n}
    for q in range(2, 37):
        n = 1
        while q ** n <= (700000 if th else 40000):
            yield {"k": "potts", "n": n, "q": q}
            n += 1
        yield {"k": "digits", "q": q, "top": 60000 if th else 4000}


def digits(i, b):
    o = []
    while i:
        i, r = divmod(i, b)
        o.append(DIGITS[r])
    return o[::-1] or ["0"]


def run_case(case, rec, ctx):
    u, k = ctx.utils, case["k"]
    if k == "bin":
        n, sym = case["n"], case["sym"]
        ref = np.array(list(itertools.product((-1, 1) if sym else (0, 1), repeat=n)))
        got = u.bin_states(n, sym=sym)
        rec.state(2 ** n)
        rec.trans()
        rec.trace()
        rec.check(np.shape(got) == ref.shape and np.array_equal(got, ref) and np.asarray(got).dtype.kind == "i", "bin:eager",
                  lambda: "bin_states(%d,%s) differs: %s" % (n, sym, got[:5]))
        if got.flags.writeable:
            got[...] = 7        # the caller's own array from here on
        rec.check(np.array_equal(u.bin_states(n, sym), ref), "bin:positional", "bin_states(%d,%s) after the first result was overwritten" % (n, sym))
        if not sym:
            rec.check(np.array_equal(u.bin_states(n), ref), "bin:default", "bin_states(%d)" % n)
        if case["lazy"]:
            c = 0
            seen = []
            for s, r in itertools.zip_longest(u.xbin_states(n, sym=sym), ref):
                rec.trans()
                if s is None or r is None or not np.array_equal(s, r):
                    rec.bad("bin:lazy", "xbin_states(%d,%s): state %d is %s instead of %s" % (n, sym, c, s, r))
                    break
                seen.append(s)
                c += 1
            # states already handed out are not overwritten by later ones
            rec.check(np.array_equal(np.array(seen), ref[:len(seen)]), "bin:alias", "xbin_states(%d,%s) reuses its states" % (n, sym))
        rec.sample({"n": n, "sym": sym, "first": ref[:2].tolist()})
    elif k == "refuse":
        for f in (lambda: u.bin_states(-1), lambda: u.bin_states(31), lambda: list(u.xbin_states(0)), lambda: list(u.xpotts_states(0, 2)),
                  lambda: list(u.xpotts_states(2, 1)), lambda: u.base_repr(-1, 2), lambda: u.base_repr(1, 1), lambda: u.base_repr(1, 37)):
            try:
                f()
                rec.bad("refuse", "an impossible request is answered")
            except Exception:
                rec.trans()
    elif k == "multinomial":
        n = case["n"]
        for m in range(1, case["parts"] + 1):
            # every ordered composition of n into m parts (zero allowed); beyond n=20 unordered ones
            for c in (itertools.product(range(n + 1), repeat=m - 1) if n <= 20 else itertools.combinations_with_replacement(range(n + 1), m - 1)):
                last = n - sum(c)
                if last < 0:
                    continue
                rec.state()
                rec.trans()
                want, left = 1, n
                for x in c:
                    want *= math.comb(left, x)
                    left -= x
                if want >= 2 ** 62:
                    continue
                got = u.multinomial(n, *c, last)
                rec.check(got == want, "multinomial", lambda: "%d!/%s! is %d, not %s" % (n, c + (last,), want, got))
        rec.trace()
    elif k == "binomial":
        n = case["n"]
        for a, b in ((1., 1.), (2., 3.), (-1., 2.), (.5, -.25), (1., 0.)):
            rec.state()
            rec.trans()
            got = sorted(u._expand_binomial(a, b, n))
            # expanding the product one factor at a time gives one term per subset
            want = sorted(math.prod(t) for t in itertools.product((a, b), repeat=n))
            rec.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-12, atol=0), "binomial", lambda: "(%s x + %s)^%d expands to %s" % (a, b, n, got[:6]))
        rec.trace()
    elif k == "potts":
        n, q = case["n"], case["q"]
        c = 0
        for s, r in itertools.zip_longest(u.xpotts_states(n, q), itertools.product(DIGITS[:q], repeat=n)):
            if s is None or r is None or tuple(s) != r:
                rec.bad("potts:order", "xpotts_states(%d,%d): state %d is %s instead of %s" % (n, q, c, s, r))
                break
            c += 1
        rec.state(c)
        rec.trans(c)
        rec.trace()
    else:
        b = case["q"]
        xs = list(range(case["top"] + 1))
        e = 1
        while b ** e < 2 ** 62:
            xs += [b ** e - 1, b ** e, b ** e + 1, (b - 1) * b ** (e - 1), b ** e // 2]
            e += 1
        for i in xs:
            if i >= 2 ** 62:
                continue
            rec.trans()
            got = list(u.base_repr(i, b))
            if not rec.check(got == digits(i, b), "digits", "%d in base %d gives %s instead of %s" % (i, b, "".join(got), "".join(digits(i, b)))):
                break
        rec.state(len(xs))
        rec.trace()
