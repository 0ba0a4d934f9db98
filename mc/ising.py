"""Boring reference models: written from the definitions, independent of /repo."""
import itertools, math
import numpy as np

LN2 = math.log(2.0)


def states(n, vals=(-1, 1)):
    return [tuple(s) for s in itertools.product(vals, repeat=n)]


def ising_e(theta, s):
    """E(s) = -sum_i h_i s_i - sum_{i<j} J_ij s_i s_j"""
    n = len(s)
    e = -sum(theta[i] * s[i] for i in range(n))
    k = n
    for i in range(n):
        for j in range(i + 1, n):
            e -= theta[k] * s[i] * s[j]
            k += 1
    return e


def potts_e(theta, s, q=3):
    """fields of state r sit at [r*n, (r+1)*n); couplings reward agreement"""
    n = len(s)
    e = -sum(theta[s[i] * n + i] for i in range(n))
    k = q * n
    for i in range(n):
        for j in range(i + 1, n):
            if s[i] == s[j]:
                e -= theta[k]
            k += 1
    return e


def triplet_e(theta, s):
    n = len(s)
    e = ising_e(theta, s)
    k = n + n * (n - 1) // 2
    for i, j, l in itertools.combinations(range(n), 3):
        e -= theta[k] * s[i] * s[j] * s[l]
        k += 1
    return e


def boltzmann(E, sts):
    w = [math.exp(-E(s)) for s in sts]
    z = math.fsum(w)
    return {s: x / z for s, x in zip(sts, w)}


def ising_obs(s):
    n = len(s)
    return [s[i] for i in range(n)] + [s[i] * s[j] for i in range(n) for j in range(i + 1, n)]


def triplet_obs(s):
    return ising_obs(s) + [s[i] * s[j] * s[k] for i, j, k in itertools.combinations(range(len(s)), 3)]


def n_ising(n):
    return n + n * (n - 1) // 2


def tv(a, b):
    ks = set(a) | set(b)
    return max((abs(a.get(k, 0.0) - b.get(k, 0.0)) for k in ks), default=0.0)


def rows_from_joint(joint):
    """joint: {(s0, s1): p} -> P[s0][s1]"""
    m = {}
    for (a, b), p in joint.items():
        m[a] = m.get(a, 0.0) + p
    P = {}
    for (a, b), p in joint.items():
        P.setdefault(a, {})[b] = p / m[a]
    return P


def push(dist, P):
    out = {}
    for a, p in dist.items():
        for b, q in P[a].items():
            out[b] = out.get(b, 0.0) + p * q
    return out


def reach(P, start):
    seen, todo = {start}, [start]
    while todo:
        a = todo.pop()
        for b, p in P[a].items():
            if p > 0 and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def check_kernel(rec, tag, P, pi, sts, what=""):
    """pi stationary under P, and every state reachable from every state."""
    missing = [s for s in sts if s not in P]
    if not rec.check(not missing, tag + ":start", "states never visited: %s %s" % (missing[:4], what)):
        return False
    out = push(pi, P)
    d = tv(out, pi)
    ok = rec.check(d < 1e-9, tag + ":stationary",
                   lambda: "Boltzmann distribution is not preserved (max deviation %.3g) %s\nexpected %s\ngot %s" % (
                       d, what, pi, out))
    extra = set(out) - set(sts)
    ok &= rec.check(not extra, tag + ":alphabet", "states outside the alphabet: %s %s" % (list(extra)[:4], what))
    return ok


def check_irreducible(rec, tag, P, sts, what=""):
    for s in sts:
        r = reach(P, s)
        if not rec.check(len(r) == len(sts), tag + ":ergodic",
                         lambda: "from %s only %d of %d states can be reached %s" % (s, len(r), len(sts), what)):
            return False
    return True


def local_balance(rec, tag, sample, n, K, energy, sites, answer, what, vals=2):
    """Transition probabilities of a system too large for a full kernel.

    sample(ns) is a function that returns ns successive states.  The answers up to the first state are scripted,
    all answers of the step to the second one are enumerated, from a scripted start and from starts that differ
    from it in one answer.  Wherever both of two states that differ in one unit were starts, the rates between
    them must be in detailed balance; no step may change two units; every unit can change."""
    from mc.choice import follow, law
    P = {}
    one, two = sample(1), sample(2)
    for j in [None] + list(sites):
        for d in range(1, vals) if j is not None else (0,):
            def script(i, m):
                c = answer(i, m) % m
                return (c + d) % m if i == j else c
            (s,), ans = follow(one, K, script)
            if s in P:
                continue
            joint = law(two, K, rec=rec, base=ans)
            if any(a != s for a, b in joint):
                continue
            P[s] = {b: p for (a, b), p in joint.items()}
            rec.state(1)
    return balance(rec, tag, P, n, energy, what)


def balance(rec, tag, P, n, energy, what):
    """P: {state: {next state: probability}} for some states"""
    for s, row in P.items():
        for b in row:
            diff = [i for i in range(n) if b[i] != s[i]]
            rec.check(len(diff) <= 1, tag + ":step", lambda: "one update changed units %s (%s)" % (diff, what))
    pairs = 0
    keys = list(P)
    for x, s in enumerate(keys):
        for b in keys[x + 1:]:
            diff = [i for i in range(n) if b[i] != s[i]]
            if len(diff) != 1:
                continue
            pairs += 1
            f, g = P[s].get(b, 0.), P[b].get(s, 0.)
            e = energy(b) - energy(s)
            rec.check(f > 0 and g > 0 and abs(f - g * math.exp(-e)) < 1e-9, tag + ":balance",
                      lambda: "unit %d: probability %.6g of the change %d->%d and %.6g of the change back are not in "
                              "the ratio exp(-dE) = %.6g (%s)" % (diff[0], f, s[diff[0]], b[diff[0]], g,
                                                                  math.exp(-e), what))
    return pairs


def matching(n, v):
    """fields and one coupling per spin (Ising form, small integers) for systems of any size"""
    t = [0] * n_ising(n)
    for i in range(n):
        t[i] = (i * 7 + v) % 3 - 1
    part = [n - 1 - i if v % 2 == 0 else (i ^ 1) for i in range(n)]
    k = n
    for i in range(n):
        for j in range(i + 1, n):
            if part[i] == j:
                t[k] = 1 if (i + v) % 3 else -1
            k += 1
    return t


def sparse_energy(th, n, first=None):
    """Ising energy that only visits the non-zero couplings"""
    nz = [(k, i, j) for k, (i, j) in enumerate(itertools.combinations(range(n), 2), n) if th[k]]
    return lambda s: -sum(th[i] * s[i] for i in range(n)) - sum(th[k] * s[i] * s[j] for k, i, j in nz)


def flips(n, a, c):
    """how often each unit is updated in the steps a..c-1 of systematic iteration"""
    return [(c - i + n - 1) // n - (a - i + n - 1) // n for i in range(n)]


def ordered(rec, tag, rows, b, ni, ns, units, fixed, what):
    """rows of a two-valued system without fields and couplings, where every update is a flip"""
    if not rec.check(len(rows) == ns, tag + ":rows", "%d rows instead of %d (%s)" % (len(rows), ns, what)):
        return
    for k in range(ns):
        rec.check(all(rows[k][i] == x for i, x in fixed), tag + ":fixed", lambda: "row %d: fixed units changed (%s)" % (k, what))
    for k in range(1, ns):
        f = flips(len(units), b + k * ni, b + (k + 1) * ni)
        if not rec.check(all((rows[k][i] != rows[k - 1][i]) == bool(f[x] % 2) for x, i in enumerate(units)), tag + ":order",
                         lambda: "rows %d and %d are not separated by %d systematic updates from unit %d on (%s)" % (
                             k - 1, k, ni, units[(b + k * ni) % len(units)], what)):
            return


def timed(rec, tag, run, n, ns, b, ni, sysit, what, workers=1, units=None):
    """Long runs without fields and couplings, where every update flips a spin: run(ns, b, ni) returns rows; with
    systematic updates every row is known from the start state, with random ones the parity of its number of flips is."""
    units = list(range(n)) if units is None else list(units)
    starts, rows = np.array(run(workers, 0, 0)), np.array(run(ns, b, ni))
    if not rec.check(starts.shape == (workers, n) and rows.shape == (ns, n), tag + ":rows", "%s rows instead of %d (%s)" % (rows.shape, ns, what)):
        return
    per = -(-ns // workers)
    t = b + (np.arange(ns) % per + 1) * ni
    m = len(units)
    fixed = [i for i in range(n) if i not in units]
    want = starts[np.arange(ns) // per].astype(int)
    rec.check((rows[:, fixed] == want[:, fixed]).all(), tag + ":fixed", "fixed units changed (%s)" % what)
    if sysit:
        c = (t[:, None] - np.arange(m)[None, :] + m - 1) // m
        want[:, units] *= 1 - 2 * (c % 2)
        bad = (rows != want).any(1)
    else:
        bad = rows[:, units].prod(1) != want[:, units].prod(1) * (1 - 2 * (t % 2))
    rec.state(ns)
    rec.trans(int(t[-1]))
    rec.trace()
    rec.check(not bad.any(), tag + ":time", lambda: "row %d is not the state after %d updates (%s)" % (np.argmax(bad), t[np.argmax(bad)], what))


def matching_potts(n, v, q=3):
    """fields (one per state and unit) and one coupling per unit, entries in {0, 1}"""
    t = [(1 if (r + i * 2 + v + i // 4) % 3 == 0 else 0) for r in range(q) for i in range(n)] + [0] * (n * (n - 1) // 2)
    m = matching(n, v)
    for k in range(n, len(m)):
        t[k - n + q * n] = m[k]
    return t


def sparse_potts_energy(th, n, q=3):
    nz = [(k, i, j) for k, (i, j) in enumerate(itertools.combinations(range(n), 2), q * n) if th[k]]
    return lambda s: -sum(th[s[i] * n + i] for i in range(n)) - sum(th[k] for k, i, j in nz if s[i] == s[j])


def _script(s):
    def answer(i, m):
        x = (s * 0x9E3779B97F4A7C15 + (i + 1) * 0xBF58476D1CE4E5B9) & (2 ** 64 - 1)
        for _ in range(2):
            x = ((x ^ (x >> 30)) * 0x94D049BB133111EB) & (2 ** 64 - 1)
        return ((x ^ (x >> 31)) >> 11) % m
    return answer


def starts(rec, tag, run, n, what, units=None, scripts=64):
    """Start states of run(rng) under many streams of random numbers: every unit varies and none is a function of
    another one."""
    from mc.choice import follow
    S = np.array([follow(lambda: run(np.random.RandomState(s)), 2, _script(s))[0] for s in range(scripts)])
    if not rec.check(S.shape == (scripts, n), tag + ":start-shape", "start state of shape %s (%s)" % (S.shape[1:], what)):
        return
    rec.state(scripts)
    rec.trace(scripts)
    seen = {}
    for i in range(n) if units is None else units:
        c = S[:, i]
        _, first, key = np.unique(c, return_index=True, return_inverse=True)
        order = np.argsort(np.argsort(first))
        key = tuple(order[key.reshape(-1)])
        if not rec.check(len(first) > 1, tag + ":start-constant", "unit %d starts in state %s in %d of %d runs (%s)" % (i, c[0], scripts, scripts, what)):
            return
        if not rec.check(key not in seen, tag + ":start-copy", lambda: "the start state of unit %d determines that of unit %d (%s)" % (seen[key], i, what)):
            return
        seen[key] = i


def near(n, k=0):
    """Parameter vectors that are easily taken for each other and lead to different behaviour. For k states: Potts."""
    m = max(k, 1)
    D = m * n + n * (n - 1) // 2
    out = []
    for j in (1e6 + 20, 1e6 - 20):
        t = np.zeros(D)
        # the last unit is pinned; the first has a field against its coupling with the last
        t[(n - 1) + (n if k else 0)] = 1e9
        t[0] = -1e6 if k == 0 else 1e6
        t[m * n + n - 2] = j
        out.append(t)
    base = np.linspace(-.7, .8, D)
    for t in (base, base[::-1].copy(), -base, base * (1 + 3e-6), base + 3e-9, np.abs(base), base * 1e-9, base * 2e-9, np.round(base), np.zeros(D)):
        out.append(t)
    return out


def updated(rec, tag, make, sample, n, k, what, warm=True):
    """A sampler whose parameters are replaced behaves like a new one with these parameters."""
    from mc.choice import follow
    ths = near(n, k)
    ref = {}

    for seq in [(c,) for c in range(len(ths))] + list(itertools.permutations(range(len(ths)), 2)):
        x = [None]

        def begin():
            x[0] = make(ths[seq[0]].copy())
            if len(seq) > 1:
                if warm:      # the samplers in Python go on from the last state
                    sample(x[0], 6)
                x[0].update_parameters(ths[seq[1]].copy())
        follow(begin, 64, _script(1))
        got = follow(lambda: sample(x[0], 6), 64, _script(2))[0]
        rec.trans()
        if len(seq) == 1:
            ref[seq[0]] = got
        else:
            rec.check(np.array_equal(got, ref[seq[1]]), tag + ":updated", lambda: "after %s was replaced by %s the samples are\n%s\ninstead of\n%s (%s)" % (
                ths[seq[0]].tolist(), ths[seq[1]].tolist(), got, ref[seq[1]], what))
    rec.check(not np.array_equal(ref[0], ref[1]), tag + ":updated-alike", "parameters with opposite effective fields give the same samples (%s)" % what)
    rec.state(len(ths))
    rec.trace()


def scales(n, k=0):
    """Parameters whose energy differences are tiny, moderate and large. For k states: Potts."""
    m = max(k, 1)
    D = m * n + n * (n - 1) // 2
    base = [((7 * i + 3) % 11 - 5.) / 5 + .01 for i in range(D)]
    for x in (1e-9, 1e-7, 1e-5, 1e-4, 1e-3, .01, .05, .2, .7, 1.5, 3., 5., 8.):
        yield [b * x for b in base]
        if n > 1:
            yield [0.] * (m * n) + [x if i % 2 == 0 else -x for i in range(D - m * n)]
        if x < 1e-2:      # small differences of large numbers
            yield [(i % n == 0) * (x + 2.) if i < m * n else -2. * (i == m * n) for i in range(D)] if n == 2 else [2. + x * b for b in base]


def ratios(rec, tag, P, energy, what):
    """forward and backward rates of every pair of states are in the ratio of the weights, at every scale"""
    for s in P:
        rec.check(abs(sum(P[s].values()) - 1) < 1e-9, tag + ":mass", lambda: "probabilities from %s: %s (%s)" % (s, P[s], what))
        for b in P[s]:
            if b <= s or b not in P:
                continue
            e = energy(b) - energy(s)
            f, g = P[s][b], P[b].get(s, 0.)
            if e < 0:
                e, f, g = -e, g, f
            tol = 1e-9 + (1e-12 / math.exp(-e) if e < 60 else 1.)
            rec.check(g > 0 and abs(f / g * math.exp(e) - 1) < tol, tag + ":ratio",
                      lambda: "the change between %s and %s has probability %.12g one way and %.12g back, which should be in the ratio %.12g (%s)" % (s, b, f, g, math.exp(-e), what))
        rec.state()


def scaled_rows(rec, sample, sts):
    """rows of the kernel of a sampler in C++: sample(ns) is a function returning ns successive states"""
    from mc.choice import follow, refined
    P = {}
    one, two = sample(1), sample(2)
    for want in sts:
        for w in range(2):
            def script(i, m):
                if m > 4096:
                    return 0 if w else m - 1
                return want[i] if i < len(want) else 0
            (s,), ans = follow(one, 2 ** 45, script)
            if s not in P:
                j = refined(two, ans, rec=rec)
                P[s] = {}
                for (a, b), p in j.items():
                    if a != s:
                        P.pop(s)
                        break
                    P[s][b] = P[s].get(b, 0.) + p
    return P
