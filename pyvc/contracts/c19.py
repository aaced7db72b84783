"""P19: arrays written through the on-disk store."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb
from ..core import sym_int, sym_bool, Unsupported, RepList, RepThen
from ..load import Self
from .c01 import attempt
from .c05 import _Ctx
from .c07 import _plan
T, H = "marEx.track", "marEx.helper"


def rp19(tier): return _plan("P19")


class Path_:
    def __init__(self, s): self.s = s
    def __truediv__(self, o): return Path_(f"{self.s}/{o}")
    def __str__(self): return self.s
    __repr__ = __fspath__ = __str__
    def __format__(self, f): return self.s
    def exists(self): return self.s in STORE or self.s == "tmp"
    @property
    def suffix(self): return "." + self.s.rsplit(".", 1)[-1] if "." in self.s else ""
    @property
    def name(self): return self.s.rsplit("/", 1)[-1]
    def unlink(self, *a, **k): STORE.pop(self.s, None)
    is_dir = exists


STORE = {}


class Missing(Exception):
    pass


class Data:
    """An array or dataset whose content is an opaque token; lazily read data hold the path they are read from."""
    dtype = "f"

    def __init__(self, token, dims, chunks, sizes, dataset=False, src=None, name="v", coords=("c",), attrs=("a",)):
        self.token, self.dims, self.cs, self.sizes, self.dataset, self.src, self.name, self._coords, self._attrs = token, dims, chunks, sizes, dataset, src, name, coords, attrs

    @property
    def chunksizes(self): return dict(self.cs)
    @property
    def chunks(self): return tuple(self.cs[d] for d in self.dims if d in self.cs)
    def _copy(self, **k):
        r = Data(self.token, self.dims, dict(self.cs), self.sizes, self.dataset, self.src, self.name, self._coords, self._attrs)
        r.__dict__.update(k)
        return r

    def read(self):
        """The token, if it can still be read."""
        if self.src is not None and STORE.get(self.src) is None:
            return None
        return self.token

    def chunk(self, c=None, **k):
        c = dict(c or {}, **k)
        return self._copy(cs=dict(self.cs, **c))

    def compute(self, **k):
        return self._copy(token=self.read(), src=None)
    persist = compute

    def load(self):
        self.token, self.src = self.read(), None
        return self

    def to_zarr(self, path, mode=None, **k):
        if mode not in ("w",):
            raise Unsupported("to_zarr with this mode")
        for d, cc in self.cs.items():
            self.checker(d, cc, self.sizes[d])
        STORE[str(path)] = self._copy(token=self.read(), src=None)
    checker = staticmethod(lambda *a: None)

    # a dataset as read back: one variable
    @property
    def data_vars(self): return {"v": 1, "w": 1} if self.dataset else {self.name: 1}
    def __getitem__(self, k): return self._copy(var=k, dataset=False)
    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k == self.__dict__.get("name"):
            return self._copy(var=k)
        raise AttributeError(k)


class Opened(Data):
    pass


class XR_:
    class Dataset:
        pass

    def open_zarr(self, path, **k):
        d = STORE.get(str(path))
        if d is None:
            raise Missing(str(path))
        return d._copy(src=str(path))

    class _M(type):
        def __instancecheck__(cls, x): return isinstance(x, Data) and x.dataset

    class _N(type):
        def __instancecheck__(cls, x): return isinstance(x, Data) and not x.dataset
    Dataset = _M("Dataset", (), {})
    DataArray = _N("DataArray", (), {})


class SH:
    def rmtree(self, p, *a, **k): STORE.pop(str(p), None)


class Cfg:
    class config:
        get = staticmethod(lambda *a, **k: "tmp")


class _U:
    class uuid4:
        hex = "0123456789abcdef"


@contract(["P19"], f"{H}.checkpoint_to_zarr", rp19, title="an array through the on-disk store")
def through_store(c):
    """What comes back is what went in, of the same kind, readable whether or not the file is deleted afterwards; chunks written are uniform except a smaller last one and cover the record,
    for every size of the chunks."""
    for ds in (False, True):
        for cleanup in (False, True):
            for nch in (0, 1, 2, 3):
                def t():
                    E = c.E
                    STORE.clear()
                    E.ghost["divfact"] = True
                    xr, sh = XR_(), SH()
                    m = {"xarray": xr, "shutil": sh, "uuid": _U, "pathlib.Path": Path_, "tempfile.gettempdir": lambda: "tmp", "dask": Cfg}
                    ov = {(H, "xr"): xr, (H, "shutil"): sh, (H, "uuid"): _U, (H, "Path"): Path_, (H, "gettempdir"): lambda: "tmp", (H, "dask"): Cfg, (H, "log_timing"): lambda *a, **k: _Ctx()}
                    c.new_repo(m, ov)
                    ch = [sym_int(f"chunk{i}") for i in range(nch)]
                    E.assume(And(*[x.e >= 1 for x in ch]) if ch else True)
                    tot = Sym(z3.Sum([x.e for x in ch])) if nch else sym_int("n")
                    dims = ("x", "time") if nch else ("x",)
                    d = Data("content", dims, {"time": tuple(ch)} if nch else {}, {"time": tot, "x": 3} if nch else {"x": 3}, dataset=ds)
                    lab = f"{'dataset' if ds else 'array'}, {'deleted' if cleanup else 'kept'}, {nch} chunks"

                    def chk(dim, cc, size):
                        if isinstance(cc, RepList):
                            c.require(f"uniform chunks cover the record ({lab})", zi(cc.v) * zi(cc.n) == zi(size))
                        elif isinstance(cc, RepThen):
                            c.require(f"chunks cover the record ({lab})", zi(cc.v) * zi(cc.n) + sum(zi(x) for x in cc.more) == zi(size))
                            c.require(f"only the last chunk is smaller ({lab})", And(z3.BoolVal(len(cc.more) == 1), zi(cc.more[0]) <= zi(cc.v), zi(cc.more[0]) > 0))
                        else:
                            c.require(f"chunks written are regular ({lab})", And(*[zi(x) == zi(cc[0]) for x in cc[:-1]], zi(cc[-1]) <= zi(cc[0]), sum(zi(x) for x in cc) == zi(size)))
                    Data.checker = staticmethod(chk)
                    try:
                        r, ex = attempt(lambda: c.repo.fn(H, "checkpoint_to_zarr")(d, name="n", cleanup=cleanup, timedim="time"))
                    finally:
                        Data.checker = staticmethod(lambda *a: None)
                    c.require(f"no failure ({lab})", z3.BoolVal(ex is None))
                    if ex is not None:
                        return
                    c.require(f"the content is readable and unchanged ({lab})", z3.BoolVal(isinstance(r, Data) and r.read() == "content"))
                    c.require(f"the same kind of object ({lab})", z3.BoolVal(isinstance(r, Data) and r.dataset == ds and (ds or r.__dict__.get("var", r.name) == "v")))
                    if cleanup:
                        c.require(f"the file is deleted ({lab})", z3.BoolVal(not STORE))
                c.run(t)


@contract(["P19", "P20"], f"{T}.tracker.refresh_dask_graph", rp19, title="refreshing through the scratch store")
def refresh(c):
    """The field comes back from the scratch store as it was written."""
    def t():
        STORE.clear()
        xr = XR_()
        c.new_repo({"xarray": xr}, {(T, "xr"): xr})
        slf = Self(c.repo, T, "tracker", {"scratch_dir": "scratch", "timedim": "time", "xdim": "x", "unstructured_grid": True})
        STORE["scratch/marEx_temp_field.zarr"] = Data("old", ("time", "x"), {}, {"time": 1, "x": 1})
        r, ex = attempt(lambda: slf.refresh_dask_graph(Data("field", ("time", "x"), {}, {"time": sym_int("nt"), "x": sym_int("n")}, name="f")))
        c.require("no failure", z3.BoolVal(ex is None))
        if ex is None:
            c.require("the field that was written", z3.BoolVal(isinstance(r, Data) and r.read() == "field"))
    c.run(t)
