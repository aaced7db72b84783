"""Contracts: registry and runner."""
import time, traceback
import z3
from . import core, arr, loop, npm, load
from .core import Engine, Sym, Unsupported, Refuted, And, Or, Not, lift, zi, zr, zb, same
E = core.E
REG = []


class Contract:
    def __init__(self, pids, name, fn, replay, strict, tier, title):
        self.pids, self.name, self.fn, self.replay, self.strict, self.tier, self.title = pids, name, fn, replay, strict, tier, title


def contract(pids, name, replay=None, strict=True, tier="quick", title=""):
    """name: module.function under contract. replay(tier): run-time cases evaluating the same contract on the real code."""
    pids = pids if isinstance(pids, (list, tuple)) else [pids]

    def deco(f):
        REG.append(Contract(pids, name, f, replay, strict, tier, title or f.__name__))
        return f
    return deco


class Ctx:
    """One contract being decided."""

    def __init__(self, root, models=None, tier="quick"):
        self.root = root
        self.tier = tier
        self.E = core.use(Engine())
        self.new_repo(models)
        self.sat_ok = 0
        self.paths_run = 0
        self.label = ""

    def new_repo(self, extra=None, overrides=None):
        from . import xrm
        m = dict(BASE_MODELS)
        m["numpy"] = npm.np
        m["xarray"] = xrm.xr
        m["flox"] = xrm.flox
        m["pandas"] = xrm.pd
        from . import maps
        m["scipy.sparse.csr_matrix"] = maps.csr_matrix
        m["scipy.sparse.csgraph.connected_components"] = maps.connected_components
        m["numpy.lib.stride_tricks.sliding_window_view"] = npm.sliding_window_view
        m["flox.xarray"] = xrm.flox.xarray
        m.update(extra or {})
        self.repo = load.Repo(self.root, m, overrides)
        self.repo.loop = loop.Loop()
        self.repo.shadow = dict(npm.SHADOW)
        self.repo.shadow["range"] = loop.mk_range
        old = getattr(self, "used", {})
        self.used = old
        return self.repo

    def require(self, name, goal):
        self.E.require((self.label + ": " if self.label else "") + name, goal)

    def run(self, thunk, allow=()):
        """Every path of thunk; an exception of the repository that is not allowed makes its path an obligation 'unreachable'."""
        def t():
            r = thunk()
            self.touch()
            return r
        self.E.ghost, self.E.points, self.E.pseen, self.E.plog = {}, {}, {}, []
        out = self.E.explore(t)
        self.E.ghost, self.E.points, self.E.pseen, self.E.plog = {}, {}, {}, []
        self.paths_run += len(out)
        for hy, kind, v in out:
            if kind == "exc":
                if not is_repo_error(v):
                    raise Unsupported(f"the model met {type(v).__name__}: {v} [{where(v)}]")
                if not any(type(v).__name__ == a for a in allow):
                    self.E.obls.append((f"{self.label}: never raises {type(v).__name__} here ({str(v)[:60]!r})", list(self.E.hyps) + list(hy), z3.BoolVal(False), [], sorted(self.E.inexact), None))
        self.used.update(self.repo.used)
        if not out and not self.E.obls:
            raise Unsupported("no path")
        return out

    def under(self, cond):
        """with c.under(cond): obligations stated under an additional hypothesis."""
        import contextlib

        @contextlib.contextmanager
        def cm():
            m = self.E.mark()
            self.E.assume(cond)
            try:
                yield
            finally:
                self.E.rollback(m)
        return cm()

    def touch(self):
        """Vacuity: the hypotheses of a completed path must be satisfiable (at most not refutable)."""
        if self.sat_ok >= 3:
            return
        r = self.E._check(z3.BoolVal(True), 2000)
        if r == z3.unsat:
            raise Unsupported("contradictory hypotheses on a completed path")
        self.sat_ok += 1


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:])


def is_repo_error(ex):
    m = type(ex).__module__
    if m.startswith("marEx") or m.startswith("pyvc_repo"):
        return True
    return isinstance(ex, (ValueError, NotImplementedError, ImportError)) and last_frame_is_repo(ex)


def last_frame_is_repo(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return bool(tb) and "marEx/" in tb[-1].filename


SIL = load.Silent()
BASE_MODELS = {
    "logging": SIL, "warnings": SIL, "gc": SIL, "warnings.warn": SIL, "warnings.filterwarnings": SIL,
    "numba.prange": loop.mk_range, "numba.jit": None, "numba.njit": None,
    "numpy.typing.NDArray": None, "marEx.logging_config": SIL,
    "dask.persist": lambda *a, **k: a if len(a) != 1 else (a[0],),
    "dask.base.is_dask_collection": lambda x: True,
    "dask.is_dask_collection": lambda x: True,
}
