"""setup_cmd: nothing is prebuilt; confirm that the tools the checks need are present, and that the explorer itself enumerates
what it claims (a sampler known to be exact is found exact, a subtly biased one is not, every schedule of a toy pool is visited)."""
import math, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
assert shutil.which("g++"), "g++ missing"
import numpy as np, scipy, numba, multiprocess, dill
from mc.choice import SRC, law, runs, Rng
from mc.pool import FakePool

E = [0., .3, 1.1]


def step(s, rng, biased):
    t = (s + rng.randint(1, 3)) % 3
    d = E[t] - E[s]
    if d < 0 or biased and s == 0 or rng.rand() < math.exp(-d):
        return t
    return s


rng = Rng()
p = np.exp(-np.array(E))
p /= p.sum()
for biased in (False, True):
    P = np.array([[law(lambda: step(s, rng, biased), lazy=True).get(t, 0.) for t in range(3)] for s in range(3)])
    assert np.allclose(P.sum(1), 1)
    assert np.allclose(p @ P, p) != biased, P
assert sum(w for _, w, _ in runs(lambda: tuple(rng.permutation(4)))) - 1 < 1e-12
assert len(law(lambda: tuple(rng.permutation(4)))) == 24
assert abs(law(lambda: rng.rand() < .3, lazy=True)[True] - .3) < 1e-12
assert abs(law(lambda: np.log(2 * rng.rand()) < -1, lazy=True)[True] - math.exp(-1) / 2) < 1e-12
SRC.schedules = True
seen = {}
for out, _, _ in runs(lambda: (tuple(FakePool(3).imap_unordered(lambda x: x * x, range(4))), SRC.sched_log[-1])):
    seen[out[1]] = out[0]
SRC.schedules = False
assert len(seen) == 24 and all(v == tuple(i * i for i in k) for k, v in seen.items())
print("ok", sys.version.split()[0], np.__version__, scipy.__version__, numba.__version__)
