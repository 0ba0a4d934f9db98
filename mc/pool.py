"""A process pool that runs in-process under the explorer's control.

Like a real pool it gives every task a private copy of the function and its argument
(through dill) and hands back a copy of the result; which pending task runs next is a
choice, so all worker schedules can be enumerated.  `imap_unordered` and callbacks see
results in completion order, exactly the freedom the operating system has.
"""
import dill
from .choice import SRC

CPUS = 2
LOG = []


def set_cpus(n):
    global CPUS
    CPUS = n


def cpu_count():
    return CPUS


class _Result:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    isolate = True

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self._processes = processes or CPUS
        self.open = True
        LOG.append(("open", self._processes))
        if initializer:
            initializer(*initargs)

    def _run(self, f, tasks, chunksize=None, star=False):
        assert self.open, "pool used after close"
        tasks = list(tasks)
        n = len(tasks)
        if chunksize is None:
            chunksize, extra = divmod(n, self._processes * 4)
            chunksize += bool(extra)
        chunks = [list(range(i, min(n, i + chunksize))) for i in range(0, n, chunksize)] if n else []
        blobs = [dill.dumps((f, [tasks[i] for i in c])) for c in chunks] if self.isolate else \
                [(f, [tasks[i] for i in c]) for c in chunks]
        res, order, pending = [None] * n, [], list(range(len(chunks)))
        while pending:
            k = SRC.nopick(len(pending)) if SRC.schedules else 0
            c = pending.pop(k)
            g, args = dill.loads(blobs[c]) if self.isolate else blobs[c]
            for i, a in zip(chunks[c], args):
                r = g(*a) if star else g(a)
                res[i] = dill.loads(dill.dumps(r)) if self.isolate else r
                order.append(i)
        SRC.sched_log.append(tuple(order))
        return res, order

    def map(self, f, it, chunksize=None):
        return self._run(f, it, chunksize)[0]

    def starmap(self, f, it, chunksize=None):
        return self._run(f, it, chunksize, star=True)[0]

    def imap(self, f, it, chunksize=1):
        return iter(self._run(f, it, chunksize)[0])

    def imap_unordered(self, f, it, chunksize=1):
        r, o = self._run(f, it, chunksize)
        return iter([r[i] for i in o])

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(f, it, chunksize)
        if callback:
            callback(r)
        return _Result(r)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(f, it, chunksize)
        if callback:
            callback(r)
        return _Result(r)

    def apply(self, f, args=(), kwds={}):
        return self._run(lambda a: a[0](*a[1], **a[2]), [(f, args, kwds)])[0][0]

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(f, args, kwds)
        if callback:
            callback(r)
        return _Result(r)

    def close(self):
        self.open = False

    terminate = close

    def join(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False


def install():
    """Replace multiprocess' pool before coniii is imported."""
    import multiprocess, multiprocess.pool, multiprocess.context
    multiprocess.Pool = FakePool
    multiprocess.cpu_count = cpu_count
    multiprocess.context.BaseContext.Pool = lambda self, *a, **k: FakePool(*a, **k)
    multiprocess.context.BaseContext.cpu_count = lambda self: CPUS
    import os
    multiprocess.pool.Pool = FakePool
