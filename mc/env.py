"""Bring the staged copy of coniii up under the explorer's control."""
import contextlib, importlib, io, os, sys, warnings
import numpy as np
from . import choice, pool
from .choice import SRC


def bring_up(ctx, cpus=2, modules=("utils", "samplers", "models", "solvers"), fake_pool=True, ext=None):
    if fake_pool:
        pool.install()
        pool.set_cpus(cpus)
    warnings.simplefilter("ignore")
    c = importlib.import_module("coniii")
    assert os.path.realpath(c.__file__).startswith(os.path.realpath(ctx.stage)), c.__file__
    for m in modules:
        setattr(ctx, m.split(".")[-1] if m != "enumerate" else "enum", importlib.import_module("coniii." + m))
    if ext:
        choice.attach_ext(ctx.stage)
        ctx.ext = importlib.import_module("coniii.samplers_ext")
    warnings.simplefilter("ignore")
    memo_helpers(ctx)
    return c


def memo_helpers(ctx):
    """The define_*_helper_functions() factories compile numba code on every call (0.5 s);
    they take no input and return stateless functions, so each is called once and reused."""
    import functools, sys
    done = {}
    for name, m in list(sys.modules.items()):
        if not name.startswith("coniii") or m is None:
            continue
        for a, f in list(vars(m).items()):
            if (a.startswith("define_") and a.endswith("helper_functions") and callable(f)
                    and not hasattr(f, "_memo")):
                import inspect
                try:
                    if inspect.signature(f).parameters:
                        continue
                except (TypeError, ValueError):
                    continue
                if f not in done:
                    g = functools.lru_cache(None)(f)
                    g._memo = True
                    done[f] = g
                setattr(m, a, done[f])


@contextlib.contextmanager
def controlled():
    choice.install_numpy()
    try:
        yield
    finally:
        choice.uninstall_numpy()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def quietly(f, *a, **k):
    with quiet():
        return f(*a, **k)


def rows(x):
    return tuple(tuple(int(v) for v in r) for r in x)
