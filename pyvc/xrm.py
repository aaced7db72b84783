"""xarray / flox model: arrays with named dimensions over pyvc.arr (assumed contracts of xarray, stated here).

Chunking, persisting and computing are the identity (assumed).  A dimension made by grouping is indexed by its label minus `lab[dim]`."""
import z3
from . import core, arr, npm
from .core import Sym, Unsupported, lift, zi, zr, zb, And, Or, Not, ite, cast, mk_sum, mk_red
from .arr import Arr, conc, inb, to_arr
E = core.E
I = z3.IntSort()
YEAR, DOY, MONTH = [z3.Function(n, I, I) for n in ("yearOf", "dayOfYear", "monthOf")]


def _scalar(v):
    v = lift(v)
    return Arr((), lambda: v, v.kind)


def _arr(x):
    if isinstance(x, DA):
        return x.arr
    if isinstance(x, Arr):
        return x
    if isinstance(x, (Sym, int, float, bool)):
        return _scalar(x)
    return to_arr(x)


class Coords(dict):
    """name -> DA (or None when only the existence matters)."""

    def __init__(self, owner, d):
        super().__init__(d)
        self.owner = owner

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if v is None:
            raise Unsupported(f"values of coordinate {k}")
        return v

    def to_dataset(self):
        raise Unsupported("coords.to_dataset")


class _Meta(type):
    def __instancecheck__(cls, x):
        return getattr(x, "_is_da", False)


class DA(metaclass=_Meta):
    _pyvc_array = True
    _is_da = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, lab=None):
        self.__dict__["long"] = None
        if isinstance(data, arr.Long):
            self.__dict__.update(long=data, arr=None, dims=(dims,) if isinstance(dims, str) else tuple(dims), name=name, attrs=attrs or {}, lab={}, coords=None)
            self.__dict__["coords"] = Coords(self, {})
            return
        a = _arr(data)
        if isinstance(data, DA) and dims is None:
            dims = data.dims
            coords = coords if coords is not None else dict(data.coords)
        if isinstance(data, DA) and dims is not None and tuple(dims) != data.dims and set(dims) == set(data.dims):
            raise Unsupported("re-labelling of dimensions")
        if isinstance(dims, str):
            dims = [dims]
        if dims is None:
            if a.ndim:
                raise Unsupported("DataArray without dims")
            dims = ()
        if len(dims) != a.ndim:
            raise Unsupported(f"DataArray: {len(dims)} names for {a.ndim} dimensions")
        self.arr, self.dims = a, tuple(dims)
        self.name, self.attrs = name, attrs if attrs is not None else {}
        self.lab = dict(lab or {})
        cs = {}
        for k, v in (coords or {}).items():
            if isinstance(v, tuple) and len(v) == 2:
                v = DA(v[1], dims=v[0], name=k)
            elif isinstance(v, DA) or v is None:
                pass
            elif isinstance(v, Arr) and v.ndim == 1:
                v = DA(v, dims=(k,), name=k)
            elif isinstance(v, Arr) and v.ndim == 0 or isinstance(v, (Sym, int, float)):
                v = DA(_scalar(v) if not isinstance(v, Arr) else v, dims=(), name=k)
            else:
                v = DA(to_arr(v), dims=(k,), name=k)
            cs[k] = v
        self.coords = Coords(self, cs)

    # ---- basics
    shape = property(lambda s: s.arr.shape)
    ndim = property(lambda s: len(s.dims))
    dtype = property(lambda s: s.arr.dtype)
    size = property(lambda s: s.arr.size)
    data = property(lambda s: s.arr)
    values = property(lambda s: s.arr)
    indexes = property(lambda s: s.coords)

    @property
    def sizes(self):
        return dict(zip(self.dims, self.arr.shape))

    @property
    def chunks(self):
        if self.__dict__.get("_nodask"):
            return None
        return tuple((f"chunk:{d}",) for d in self.dims)

    @property
    def chunksizes(self):
        if self.__dict__.get("_nodask"):
            return {}
        return {d: (f"chunk:{d}",) for d in self.dims}

    def _new(self, a, dims=None, coords=None, lab=None, name=None):
        dims = self.dims if dims is None else tuple(dims)
        coords = {k: v for k, v in (dict(self.coords) if coords is None else coords).items() if v is None or all(d in dims for d in v.dims)}
        lab = {k: v for k, v in (self.lab if lab is None else lab).items() if k in dims}
        r = DA(a, coords=coords, dims=dims, name=self.name if name is None else name, attrs=dict(self.attrs), lab=lab)
        if self.__dict__.get("_nodask"):
            r.__dict__["_nodask"] = True
            r.arr._dask = False
        return r

    def _map(self, f, kind=None):
        return self._new(self.arr.map(f, kind))

    def get(self, **ix):
        """Element by dimension names."""
        return self.arr.get(*[ix[d] for d in self.dims])

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        cs = self.__dict__.get("coords")
        if cs is not None and a in cs:
            return cs[a]
        if cs is not None and a in self.dims:
            return self[a]
        raise Unsupported(f"DataArray.{a}")

    def _no_hash(self):
        return id(self)
    __hash__ = _no_hash

    def __bool__(self):
        return bool(self.arr)

    def __int__(self):
        return int(self.arr)

    def __float__(self):
        return float(self.arr)

    def __len__(self):
        return len(self.arr)

    def _sym_len(self):
        return npm.SHADOW["len"](self.arr)

    def __format__(self, s):
        return "<DataArray>"

    def item(self):
        return self.arr.item()

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self.coords:
                return self.coords[k]
            if k in self.dims:
                n = self.sizes[k]
                return DA(Arr((n,), lambda i: Sym(i), "i"), dims=(k,), name=k)
            raise KeyError(k)
        if isinstance(k, dict):
            return self.isel(k)
        if not isinstance(k, tuple):
            k = (k,)
        if Ellipsis in [x for x in k if not isinstance(x, (DA, Arr, Sym))]:
            raise Unsupported("DataArray[...]")
        return self.isel(dict(zip(self.dims, k)))

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.coords.update(self.assign_coords({k: v}).coords)
            return
        if isinstance(k, dict):
            k = tuple(k.get(d, slice(None)) for d in self.dims)
        if isinstance(v, DA):
            raise Unsupported("assignment of a DataArray")
        self.arr[k] = v

    def identity(self, *a, **k):
        return self
    chunk = load = unify_chunks = identity

    def persist(self, *a, **k):
        return self._new(Arr(self.arr.shape, arr.memo(self.arr.snapshot()), self.arr._kind)) if self.ndim and not self.arr.comp else self
    compute = persist

    def copy(self, deep=True, data=None):
        if data is not None:
            return self._new(_arr(data))
        return self._new(self.arr.copy())

    def to_numpy(self):
        return self.arr

    def to_zarr(self, path, mode="w", **k):
        E.dep("zarr and npz files give back what was last written under the name")
        DISK.zarr(path, self)

    def set_index(self, m):
        """An index of another name along a dimension: labels only."""
        return self

    def rename(self, new=None, **kw):
        if new is None or isinstance(new, dict):
            m = dict(new or {}, **kw)
            r = DA(self.arr, coords={}, dims=[m.get(d, d) for d in self.dims], name=self.name, attrs=self.attrs, lab={m.get(k, k): v for k, v in self.lab.items()})
            for k, v in self.coords.items():
                v2 = None if v is None else DA(v.arr, dims=[m.get(d, d) for d in v.dims], name=m.get(k, k), attrs=v.attrs)
                dict.__setitem__(r.coords, m.get(k, k), v2)
            return r
        r = self._new(self.arr)
        r.name = new
        return r

    def assign_coords(self, new=None, **kw):
        cs = dict(self.coords)
        for k, v in dict(new or {}, **kw).items():
            if isinstance(v, tuple):
                v = DA(v[1], dims=v[0], name=k)
            elif isinstance(v, DA):
                v = DA(v.arr, dims=v.dims, name=k)
            else:
                v = DA(to_arr(v), dims=(k,), name=k)
            cs[k] = v
        return self._new(self.arr, coords=cs)

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self.coords and errors == "raise" and n not in self.dims:
                raise Unsupported(f"drop_vars of an absent coordinate {n}")
        return self._new(self.arr, coords={k: v for k, v in self.coords.items() if k not in names})

    def reset_coords(self, *a, **k):
        return self.drop_vars(a[0] if a else list(self.coords))

    def transpose(self, *names):
        names = [n for n in names]
        if Ellipsis in names:
            i = names.index(Ellipsis)
            rest = [d for d in self.dims if d not in names]
            names = names[:i] + rest + names[i + 1:]
        if not names:
            names = list(self.dims[::-1])
        if set(names) != set(self.dims):
            raise ValueError(f"transpose {names} of {self.dims}")
        return self._new(self._by(names), names)

    def _by(self, names):
        a, dims = self.arr, self.dims
        e = a.snapshot()
        pos = [dims.index(n) for n in names]

        def el(*i):
            full = [None] * len(dims)
            for p, v in zip(pos, i):
                full[p] = v
            return e(*full)
        return Arr([a.shape[p] for p in pos], el, a._kind)

    def astype(self, t, **k):
        return self._new(self.arr.astype(t))

    def fillna(self, v):
        return self._map(lambda x: ite(Sym(core.nanb(x)), lift(v), Sym(x.e, inf=x.inf)))

    def isnull(self):
        return self._map(lambda v: Sym(core.nanb(v)), "b")

    def notnull(self):
        return self._map(lambda v: Sym(Not(core.nanb(v))), "b")

    def isin(self, vals):
        return self._new(npm.np.isin(self.arr, _arr(vals)))

    def equals(self, o):
        raise Unsupported("equals")

    # ---- elementwise with alignment by name
    def _bin(self, o, f):
        if isinstance(o, DA):
            return broadcast(f, self, o)
        if isinstance(o, GroupBy):
            return NotImplemented
        if isinstance(o, Arr) and o.ndim > 0:
            return self._new(arr.broadcast2(self.arr, o, f))
        if isinstance(o, Arr):
            o = o.get()
        o = lift(o)
        return self._map(lambda v: f(v, o))

    def where(self, cond, other=None, drop=False):
        if drop:
            return Dropped(self.where(cond, other))
        nan = lambda: Sym(z3.RealVal(0), nan=True)
        if not isinstance(cond, DA):
            cond = DA(_arr(cond), dims=self.dims)
        if other is None:
            return broadcast(lambda v, c: ite(c, v.num() if v.kind != "f" else v, nan()) if v.kind == "f" else ite(c, Sym(zr(v.num())), nan()), self, cond)
        if isinstance(other, DA):
            return broadcast(lambda v, c, o: _ite(c, v, o), self, cond, other)
        return broadcast(lambda v, c: _ite(c, v, lift(other)), self, cond)

    def clip(self, min=None, max=None):
        r = self
        if min is not None:
            r = r._map(lambda v: npm.np.maximum(v, lift(min)))
        if max is not None:
            r = r._map(lambda v: npm.np.minimum(v, lift(max)))
        return r

    # ---- indexing
    def isel(self, idx=None, drop=False, missing_dims="raise", **kw):
        idx = dict(idx or {}, **kw)
        for k in idx:
            if k not in self.dims:
                raise ValueError(f"isel: no dimension {k}")
        # sizes and maps per dimension
        vec = {}
        newdims = []
        sizes = {}
        maps = {}
        for d, n in zip(self.dims, self.arr.shape):
            if d not in idx:
                newdims.append(d)
                sizes[d] = n
                continue
            v = idx[d]
            if isinstance(v, DA) and v.dims == (d,) and v.arr._kind == "b":
                v = v.arr                                            # selection by a condition along the dimension itself
            if isinstance(v, slice):
                lo, ln, step = _slice(v, n)
                newdims.append(d)
                sizes[d] = ln
                maps[d] = (lambda lo, step: lambda env, d=d: lo + step * env[d])(lo, step)
            elif isinstance(v, DA) and v.ndim > 0:
                vec[d] = v
            elif isinstance(v, DA):
                s = v.arr.get()
                maps[d] = (lambda s, n: lambda env: _wrapi(s, n))(s, n)
            elif isinstance(v, Arr) and v.ndim == 1:
                w = v if v._kind != "b" else npm.np.nonzero(v)[0]
                newdims.append(d)
                sizes[d] = w.shape[0]
                maps[d] = (lambda w, n: lambda env, d=d: _wrapi(w.get(env[d]), n))(w, n)
            elif isinstance(v, arr.Long):
                if len(idx) != 1:
                    raise Unsupported("long-form selection of several dimensions")
                return RaggedDA(self, d, v)
            elif isinstance(v, (list, tuple)):
                w = to_arr(list(v))
                newdims.append(d)
                sizes[d] = w.shape[0]
                maps[d] = (lambda w, n: lambda env, d=d: _wrapi(w.get(env[d]), n))(w, n)
            else:
                s = lift(v)
                maps[d] = (lambda s, n: lambda env: _wrapi(s, n))(s, n)
        for d, v in vec.items():
            for q, m in zip(v.dims, v.arr.shape):
                if q not in newdims:
                    newdims.insert(self.dims.index(d) if len(newdims) >= self.dims.index(d) else len(newdims), q)
                    sizes[q] = m
            n = self.sizes[d]
            maps[d] = (lambda v, n: lambda env: _wrapi(v.arr.get(*[env[q] for q in v.dims]), n))(v, n)
        e = self.arr.snapshot()
        old = self.dims

        def el(*i):
            env = dict(zip(newdims, i))
            return e(*[arr.ix(maps[d](env)) if d in maps else env[d] for d in old])
        a = Arr([sizes[d] for d in newdims], el, self.arr._kind)
        cs = {}
        for k, v in self.coords.items():
            if v is None:
                if drop and k in idx and k not in newdims:
                    continue
                cs[k] = None
                continue
            hit = [d for d in v.dims if d in idx]
            if not hit:
                cs[k] = v
            elif drop and all(d not in newdims for d in v.dims):
                continue
            else:
                cs[k] = v.isel({d: idx[d] for d in hit})
        return self._new(a, newdims, coords=cs)

    def stack(self, dims=None, create_index=True, **kw):
        """Several dimensions read as one, in row-major order."""
        kw = dict(dims or {}, **kw)
        if len(kw) != 1:
            raise Unsupported("DataArray.stack")
        (n, ds), = kw.items()
        return Stacked(self, n, tuple(ds))

    def sel(self, idx=None, method=None, **kw):
        idx = dict(idx or {}, **kw)
        for v in idx.values():
            if getattr(v, "_stub", False):
                return v
        out = {}
        for d, v in idx.items():
            if d not in self.lab or self.lab[d] is None or method is not None:
                raise Unsupported(f"sel on {d}")
            out[d] = v - self.lab[d] if not isinstance(v, slice) else None
            if out[d] is None:
                raise Unsupported("sel(slice)")
        return self.isel(out)

    # ---- reductions
    def _red(self, f, dim, kind):
        if dim is None or dim is Ellipsis:
            r = f(self.arr)
            return DA(_scalar(r) if not isinstance(r, Arr) else r, dims=())
        ds = [dim] if isinstance(dim, str) else list(dim)
        for d in ds:
            if d not in self.dims:
                raise ValueError(f"no dimension {d}")
        keep = [d for d in self.dims if d not in ds]
        if not keep:
            return self._new(_scalar(f(self._by(ds))), ())
        r = npm._axis(self.arr, [self.dims.index(d) for d in ds], f, kind)
        return self._new(r, keep)

    def any(self, dim=None, **k): return self._red(npm.np.any, dim, "b")
    def all(self, dim=None, **k): return self._red(npm.np.all, dim, "b")
    def sum(self, dim=None, skipna=None, **k): return self._red(nansum, dim, "f" if self.arr._kind == "f" else "i")
    def count(self, dim=None, **k): return self.notnull().sum(dim)
    def max(self, dim=None, **k): return self._red(nanext(1), dim, self.arr._kind)
    def min(self, dim=None, **k): return self._red(nanext(-1), dim, self.arr._kind)
    def mean(self, dim=None, skipna=None, **k): return self._red(nanmean, dim, "f")
    def std(self, dim=None, **k): return self._red(lambda a: functional("std", [], a), dim, "f")
    def median(self, dim=None, **k): return self._red(lambda a: functional("quantile", [z3.Q(1, 2)], a), dim, "f")

    def quantile(self, q, dim=None, **k):
        if k and any(v not in (None, "linear", False) for v in k.values()):
            raise Unsupported("quantile options")
        q = zr(lift(q))
        r = self._red(lambda a: functional("quantile", [q], a), dim, "f")
        dict.__setitem__(r.coords, "quantile", DA(_scalar(Sym(q)), dims=()))
        return r

    def argmax(self, dim=None, **k): return self._red(npm.np.argmax, dim, "i")
    def argmin(self, dim=None, **k): return self._red(npm.np.argmin, dim, "i")

    def cumsum(self, dim=None, **k):
        ax = self.dims.index(dim)
        e = self.arr.snapshot()

        def el(*i):
            n = i[ax]
            return Sym(mk_sum((Sym(n) + 1,), lambda t: e(*i[:ax], t, *i[ax + 1:])))
        E.dep("cumsum is the running sum")
        return self._new(Arr(self.arr.shape, el, "f"))

    def reduce(self, f, dim=None, **k):
        raise Unsupported("reduce")

    def dot(self, o, dims=None, dim=None):
        sh = [d for d in self.dims if d in o.dims] if (dims or dim) is None else ([dims or dim] if isinstance(dims or dim, str) else list(dims or dim))
        keep = [d for d in self.dims if d not in sh] + [d for d in o.dims if d not in sh and d not in self.dims]
        sz = dict(o.sizes, **self.sizes)
        a, b = self.arr.snapshot(), o.arr.snapshot()
        dep = [sz[d] for d in sh]

        def el(*i):
            env = dict(zip(keep, i))

            def term(*s):
                ev = dict(env, **dict(zip(sh, s)))
                return a(*[ev[d] for d in self.dims]) * b(*[ev[d] for d in o.dims])
            n = conc(dep[0]) if len(dep) == 1 else None
            if n is not None and n <= 16:                             # a sum over a few named components is written out
                r = Sym(z3.RealVal(0))
                for q in range(n):
                    r = r + term(z3.IntVal(q))
                return r
            return nansum_fn(dep, term, strict=True)
        return DA(Arr([sz[d] for d in keep], el, "f"), dims=keep, coords={k: v for k, v in {**o.coords, **self.coords}.items() if v is not None and all(q in keep for q in v.dims)})

    # ---- windows
    def rolling(self, dim=None, min_periods=None, center=False, **kw):
        d = dict(dim or {}, **kw)
        if len(d) != 1:
            raise Unsupported("rolling over several dimensions")
        (k, w), = d.items()
        return Rolling(self, k, w, min_periods, center)

    def pad(self, pad_width=None, mode="constant", constant_values=None, **kw):
        d = dict(pad_width or {}, **{k: v for k, v in kw.items() if k in self.dims})
        r = self
        for k, w in d.items():
            lo, hi = w if isinstance(w, tuple) else (w, w)
            lo, hi = lift(lo), lift(hi)
            n = r.sizes[k]
            ax = r.dims.index(k)
            e = r.arr.snapshot()

            def el(*i, e=e, lo=lo, n=n, ax=ax):
                p = i[ax] - zi(lo)
                nn = zi(n)
                if mode == "wrap":
                    q = z3.If(p < 0, p + nn, z3.If(p >= nn, p - nn, p))
                    return e(*i[:ax], q, *i[ax + 1:])
                if mode == "edge":
                    q = z3.If(p < 0, z3.IntVal(0), z3.If(p >= nn, nn - 1, p))
                    return e(*i[:ax], q, *i[ax + 1:])
                if mode in ("reflect", "symmetric"):
                    s = 1 if mode == "reflect" else 0
                    q = z3.If(p < 0, -p - 1 + s, z3.If(p >= nn, 2 * nn - 1 - s - p, p))
                    return e(*i[:ax], q, *i[ax + 1:])
                if mode == "constant":
                    v = e(*i)
                    c = Sym(z3.RealVal(0), nan=True) if constant_values is None else lift(constant_values)
                    q = z3.If(And(p >= 0, p < nn), p, z3.IntVal(0))
                    return _ite(Sym(And(p >= 0, p < nn)), e(*i[:ax], q, *i[ax + 1:]), c)
                raise Unsupported(f"pad mode {mode}")
            if mode in ("reflect", "symmetric"):
                s = 1 if mode == "reflect" else 0
                if not E.provable(And(zi(lo) <= zi(n) - s, zi(hi) <= zi(n) - s)):
                    E.dep("reflect padding wider than the dimension repeats the reflection")
                    e0 = r.arr.snapshot()
                    F = E.fresh_fun("reflected", [z3.IntSort()], z3.IntSort())

                    def el(*i, e=e0, lo=lo, n=n, ax=ax, s=s, F=F):
                        p, nn = i[ax] - zi(lo), zi(n)
                        E.assume(And(F(p) >= 0, F(p) < nn, z3.Implies(And(p >= 0, p < nn), F(p) == p), z3.Implies(And(p < 0, -p <= nn - s), F(p) == -p - 1 + s),
                                     z3.Implies(And(p >= nn, p - nn + 1 <= nn - s), F(p) == 2 * nn - 1 - s - p)))
                        return e(*i[:ax], F(p), *i[ax + 1:])
            if mode == "wrap":
                if not E.provable(And(zi(lo) <= zi(n), zi(hi) <= zi(n))):
                    raise Unsupported("wrap padding wider than the dimension")
            sh = list(r.arr.shape)
            sh[ax] = n + lo + hi
            cs = {kk: v for kk, v in r.coords.items() if v is not None and k not in v.dims}
            if mode == "wrap" and r.lab.get(k) is not None:           # the labels are continued like the values
                base = zi(r.lab[k])

                def cl(i, lo=lo, n=n, base=base):
                    p, nn = i - zi(lo), zi(n)
                    return Sym(base + z3.If(p < 0, p + nn, z3.If(p >= nn, p - nn, p)))
                cs[k] = DA(Arr((sh[ax],), cl, "i"), dims=(k,), name=k)
            r = r._new(Arr(sh, el, r.arr._kind), coords=cs, lab={kk: v for kk, v in r.lab.items() if kk != k})
        return r

    def shift(self, sh=None, fill_value=None, **kw):
        d = dict(sh or {}, **kw)
        (k, m), = d.items()
        ax = self.dims.index(k)
        e = self.arr.snapshot()
        n = self.sizes[k]
        m = zi(lift(m))

        def el(*i):
            p = i[ax] - m
            c = Sym(z3.RealVal(0), nan=True) if fill_value is None else lift(fill_value)
            return _ite(Sym(And(p >= 0, p < zi(n))), e(*i[:ax], p, *i[ax + 1:]), c)
        return self._new(Arr(self.arr.shape, el, self.arr._kind))

    def roll(self, shifts=None, roll_coords=False, **kw):
        d = dict(shifts or {}, **kw)
        (k, m), = d.items()
        ax = self.dims.index(k)
        e = self.arr.snapshot()
        n = zi(self.sizes[k])
        m = zi(lift(m))

        def el(*i):
            p = i[ax] - m
            q = z3.If(p < 0, p + n, z3.If(p >= n, p - n, p))
            return e(*i[:ax], q, *i[ax + 1:])
        return self._new(Arr(self.arr.shape, el, self.arr._kind))

    # ---- time and groups
    @property
    def dt(self):
        return Dt(self)

    def groupby(self, group=None, **kw):
        if kw:
            (name, g), = kw.items()
            return GroupBy(self, name, getattr(g, "labels", None))
        if isinstance(group, str):
            return GroupBy(self, group, None)
        if isinstance(group, DA):
            r = self.assign_coords({group.name: group})
            return GroupBy(r, group.name, None)
        raise Unsupported("groupby")

    def _op(f):
        def g(self, o):
            return self._bin(o, f)
        return g

    __add__ = _op(lambda a, b: a + b)
    __radd__ = _op(lambda a, b: b + a)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = _op(lambda a, b: b * a)
    __truediv__ = _op(lambda a, b: a / b)
    __rtruediv__ = _op(lambda a, b: b / a)
    __floordiv__ = _op(lambda a, b: a // b)
    __mod__ = _op(lambda a, b: a % b)
    __lt__ = _op(lambda a, b: a < b)
    __le__ = _op(lambda a, b: a <= b)
    __gt__ = _op(lambda a, b: a > b)
    __ge__ = _op(lambda a, b: a >= b)
    __and__ = _op(lambda a, b: a & b)
    __rand__ = _op(lambda a, b: b & a)
    __or__ = _op(lambda a, b: a | b)
    __ror__ = _op(lambda a, b: b | a)
    __xor__ = _op(lambda a, b: a ^ b)
    __eq__ = _op(lambda a, b: a == b)
    __ne__ = _op(lambda a, b: a != b)

    def __invert__(self):
        return self._new(~self.arr)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __abs__(self):
        return self._map(core.absv)

    def __pow__(self, o):
        return self._map(lambda v: v ** o)


class Stacked:
    """DataArray.stack: kept as its source and the stacked dimensions."""

    def __init__(self, da, name, dims):
        self.da, self.name, self.stacked = da, name, dims


class Dropped:
    """where(cond, drop=True): labels without a selected element are gone; only statistics over the rest are available."""
    _is_da = False

    def __init__(self, da):
        self._da = da

    def __getattr__(self, a):
        if a in ("sum", "mean", "max", "min", "count"):
            return getattr(self._da, a)
        if a in ("compute", "persist", "load"):
            return lambda *q, **k: self
        raise Unsupported(f"where(drop=True).{a}")


def _ite(c, a, b):
    if a.kind == b.kind:
        return ite(c, a, b)
    if "f" in (a.kind, b.kind):
        a2 = a if a.kind == "f" else Sym(zr(a.num()))
        b2 = b if b.kind == "f" else Sym(zr(b.num()))
        return ite(c, a2, b2)
    return ite(c, a.num(), b.num())


def _wrapi(v, n):
    v = lift(v)
    e = v.e if v.kind == "i" else z3.ToInt(v.e)
    if E.provable(e >= 0):
        return e
    return z3.If(e < 0, e + zi(n), e)


def _slice(s, n):
    lo, ln, step = arr.slice_of(s, n)
    return zi(lo), ln, step


def same_label(a, b):
    if a is None or b is None:
        return a is b
    return a is b or E.provable(zi(a) == zi(b))


def broadcast(f, *xs):
    dims, sz, lab, cs = [], {}, {}, {}
    for x in xs:
        for d, n in zip(x.dims, x.arr.shape):
            if d not in dims:
                dims.append(d)
                sz[d] = n
            elif not arr.same_size(sz[d], n):
                raise Unsupported(f"sizes of {d} may differ")
        for d, l in x.lab.items():
            if d in lab and not same_label(lab[d], l):
                raise Unsupported(f"labels of {d} differ")
            lab[d] = l
        for k, v in x.coords.items():
            cs.setdefault(k, v)
    es = [x.arr.snapshot() for x in xs]

    def el(*i):
        env = dict(zip(dims, i))
        return lift(f(*[lift(e(*[env[d] for d in x.dims])) for e, x in zip(es, xs)]))
    kind = lift(f(*[core.sample(x.arr._kind) for x in xs])).kind
    return DA(Arr([sz[d] for d in dims], el, kind), dims=dims, coords={k: v for k, v in cs.items() if v is None or all(q in dims for q in v.dims)}, lab=lab, name=xs[0].name)


# ---------------------------------------------------------------- reductions that skip missing values
def nansum_fn(dom, fn, strict=False):
    """Sum of fn over dom; NaN are skipped (strict: make the result NaN)."""
    dom = [arr.conc(n) if arr.conc(n) is not None else n for n in dom]

    def term(*d):
        v = lift(fn(*d)).num()
        if not core.no_inf(v):
            E.dep("infinite values do not occur in sums (finiteness is validated)")
        return Sym(z3.If(core.nanb(v), z3.RealVal(0), zr(v))) if not core.finite_plain(v) else v
    s = mk_sum(tuple(dom), term)
    if not strict:
        return Sym(s)
    a = Arr(dom, lambda *d: Sym(core.nanb(lift(fn(*d)))), "b")
    if core.finite_plain(lift(fn(*[z3.Int(f"?q{i}") for i in range(len(dom))]))):
        return Sym(s)
    return Sym(s, nan=npm.np.any(a).e)


def nansum(a):
    dom, mask, g = npm.domain(a)
    s = nansum_fn(dom, lambda *d: ite(Sym(mask(*d)), g(*d).num(), lift(0) if a._kind != "f" else Sym(z3.RealVal(0))))
    if a._kind in "bi":
        E.sumfact(z3.IsInt(s.e))
        return Sym(z3.ToInt(s.e))
    return s


def nancount(a):
    dom, mask, g = npm.domain(a)
    s = mk_sum(dom, lambda *d: Sym(z3.If(And(mask(*d), Not(core.nanb(g(*d)))), z3.RealVal(1), z3.RealVal(0))))
    return s


def nanmean(a):
    s, n = zr(nansum(a)), nancount(a)
    return Sym(s / z3.If(n == 0, z3.RealVal(1), n), nan=n == 0)


def nanext(sign):
    def f(a):
        if a._kind == "f":
            if E.ghost.get("loose_ext"):
                return Sym(E.fresh("ext", z3.RealSort()))
            if not E.ghost.get("plain_ext"):
                return functional("max" if sign > 0 else "min", [], a)
        return npm.np._ext(a, sign, "max" if sign > 0 else "min")
    return f


def functional(kind, params, a):
    """A statistic of a collection of values (assumed: a function of the values, positions being irrelevant only if the same)."""
    dom, mask, g = npm.domain(a)
    E.dep(f"{kind} is a function of the values it is given")
    return mk_red(kind, params, dom, lambda *d: (mask(*d), g(*d)))


# ---------------------------------------------------------------- windows, groups
class Rolling:
    def __init__(self, da, dim, w, min_periods, center):
        self.da, self.dim, self.w, self.mp, self.center = da, dim, w, min_periods, center

    def construct(self, window_dim=None, **kw):
        if isinstance(window_dim, dict):
            (_, window_dim), = window_dim.items()
        da, w = self.da, zi(lift(self.w))
        off = w / 2 if self.center else w - 1
        ax = da.dims.index(self.dim)
        e = da.arr.snapshot()
        n = zi(da.sizes[self.dim])

        def el(*i):
            p = i[ax] - off + i[-1]
            v = e(*i[:ax], p, *i[ax + 1:-1])
            v = v if v.kind == "f" else Sym(zr(v.num()))
            return ite(Sym(And(p >= 0, p < n)), v, Sym(z3.RealVal(0), nan=True))
        E.dep("rolling(center=True): the window of position i starts at i - window//2; outside the record is missing")
        cs = dict(da.coords)
        return DA(Arr(list(da.arr.shape) + [lift(self.w) if conc(self.w) is None else conc(self.w)], el, "f"), dims=list(da.dims) + [window_dim], coords=cs, lab=da.lab, name=da.name)

    def _agg(self, kind):
        c = self.construct("?window")
        full = c.isnull().any("?window") if self.mp is None else None
        r = (c.sum("?window") if kind == "sum" else c.mean("?window"))
        if self.mp is None:
            return r.where(~full)
        if self.mp == 1:
            return r.where(c.notnull().any("?window"))
        raise Unsupported("min_periods")

    def mean(self, **k): return self._agg("mean")
    def sum(self, **k): return self._agg("sum")


class Dt:
    def __init__(self, da):
        self.da = da

    def _f(self, f, name, lo, hi):
        def g(v):
            r = f(v.e)
            E.assume(And(r >= lo, r <= hi) if hi else r >= lo)
            return Sym(r)
        r = self.da._map(g, "i")
        r.name = name
        E.dep(f"{name} of a time value is a function of that value")
        return r
    year = property(lambda s: s._f(YEAR, "year", -30000, None))
    dayofyear = property(lambda s: s._f(DOY, "dayofyear", 1, 366))
    month = property(lambda s: s._f(MONTH, "month", 1, 12))


def label_base(labels):
    """Contiguous labels a, a+1, ...: (a, n)."""
    if labels is None:
        return None
    if isinstance(labels, Arr):
        n = labels.shape[0]
        i = z3.Int("?lab")
        v0 = labels.get(z3.IntVal(0))
        if E.provable(z3.Implies(inb(i, n), labels.get(i).e == v0.e + i)):
            return (z3.simplify(v0.e), n)
        return None
    try:
        L = [int(x) for x in labels]
    except Exception:
        return None
    return (z3.IntVal(L[0]), len(L)) if L == list(range(L[0], L[0] + len(L))) else None


class GroupBy:
    """groupby a coordinate of the time dimension: binary operations pair every element with the entry of its own label."""

    def __init__(self, da, name, labels):
        self.da, self.name, self.labels = da, name, labels
        self.key = da.coords[name]
        self.base = label_base(labels) if labels is not None else None
        E.dep("groupby(...) op other: each element meets the entry of `other` carrying its group label; groups without an entry give missing results")

    def _at(self, o, f):
        da, key, nm = self.da, self.key, self.name
        if nm not in o.dims:
            raise Unsupported("groupby arithmetic without the group dimension")
        lb = o.lab.get(nm, 0) if nm in o.lab else None
        if nm not in o.lab:
            cb = label_base(o.coords[nm].arr) if o.coords.get(nm) is not None else None
            if cb is None:
                raise Unsupported("unknown labels of the group dimension")
            lb = cb[0]
        oth = [d for d in o.dims if d != nm]
        dims = list(da.dims) + [d for d in oth if d not in da.dims]
        sz = dict(o.sizes, **da.sizes)
        e, oe = da.arr.snapshot(), o.arr.snapshot()

        def el(*i):
            env = dict(zip(dims, i))
            g = key.arr.get(*[env[d] for d in key.dims]).e
            ix = g if lb is None else g - lb
            return lift(f(e(*[env[d] for d in da.dims]), oe(*[ix if d == nm else env[d] for d in o.dims])))
        kind = lift(f(core.sample(da.arr._kind), core.sample(o.arr._kind))).kind
        return DA(Arr([sz[d] for d in dims], el, kind), dims=dims, coords=dict(da.coords), name=da.name, lab={k: v for k, v in da.lab.items()})

    def __ge__(self, o): return self._at(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._at(o, lambda a, b: a > b)
    def __le__(self, o): return self._at(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._at(o, lambda a, b: a < b)
    def __sub__(self, o): return self._at(o, lambda a, b: a - b)
    def __add__(self, o): return self._at(o, lambda a, b: a + b)
    def __truediv__(self, o): return self._at(o, lambda a, b: a / b)
    def __mul__(self, o): return self._at(o, lambda a, b: a * b)

    def reduce(self, f, dim=None, **k):
        if f == npm.np.nanpercentile:
            q = zr(lift(k["q"]))
            return self._agg(dim, lambda dom, fn: mk_red("nanpercentile", [q], dom, fn))
        if f == npm.np.percentile:
            q = zr(lift(k["q"]))
            return self._agg(dim, lambda dom, fn: mk_red("percentile", [q], dom, fn))
        if f == npm.np.nanquantile:
            q = zr(lift(k["q"])) * 100
            return self._agg(dim, lambda dom, fn: mk_red("nanpercentile", [q], dom, fn))
        raise Unsupported("groupby.reduce")

    def quantile(self, q, dim=None, **k):
        q = zr(lift(q)) * 100
        return self._agg(dim, lambda dom, fn: mk_red("nanpercentile", [q], dom, fn))

    def mean(self, dim=None, **k):
        return self._agg(dim, group_mean)

    def _agg(self, dim, agg):
        da = self.da
        ds = [dim] if isinstance(dim, str) else list(dim) if dim is not None else list(self.key.dims)
        if any(d not in ds for d in self.key.dims):
            raise Unsupported("group dimension is kept")
        return group_reduce(da, [(self.name, self.key, None)], ds, agg)


def group_mean(dom, fn):
    def v(*d):
        m, x = fn(*d)
        return Sym(z3.If(And(m, Not(core.nanb(x))), zr(x.num()), z3.RealVal(0)))

    def c(*d):
        m, x = fn(*d)
        return Sym(z3.If(And(m, Not(core.nanb(x))), z3.RealVal(1), z3.RealVal(0)))
    s, n = mk_sum(tuple(dom), v), mk_sum(tuple(dom), c)
    return Sym(s / z3.If(n == 0, z3.RealVal(1), n), nan=n == 0)


def group_count(dom, fn):
    def c(*d):
        m, x = fn(*d)
        return Sym(z3.If(And(m, Not(core.nanb(x))), z3.RealVal(1), z3.RealVal(0)))
    return Sym(mk_sum(tuple(dom), c))


def group_sum(dom, fn):
    def v(*d):
        m, x = fn(*d)
        return Sym(z3.If(And(m, Not(core.nanb(x))), zr(x.num()), z3.RealVal(0)))
    return Sym(mk_sum(tuple(dom), v))


def group_reduce(da, by, ds, agg):
    """by: [(name, key DA, (base, n) or None)]."""
    keep = [d for d in da.dims if d not in ds]
    names = [n for n, _, _ in by]
    dom = [da.sizes[d] for d in ds]
    e = da.arr.snapshot()
    sizes = []
    lab = {}
    for n, k, lb in by:
        if lb is None:
            sizes.append(Sym(E.fresh("ngroups", I)))
            lab[n] = None
        else:
            sizes.append(lb[1])
            lab[n] = lb[0]

    def el(*i):
        env = dict(zip(keep, i[:len(keep)]))
        labs = i[len(keep):]

        def fn(*d):
            ev = dict(env, **dict(zip(ds, d)))
            m = And(*[zi(k.arr.get(*[ev[q] for q in k.dims])) == (l if lab[n] is None else l + lab[n]) for (n, k, _), l in zip(by, labs)])
            return m, e(*[ev[q] for q in da.dims])
        return agg(dom, fn)
    a = Arr([da.sizes[d] for d in keep] + sizes, el, "f")
    cs = {k: v for k, v in da.coords.items() if v is not None and all(q in keep for q in v.dims)}
    for n in names:
        cs[n] = None
    return DA(a, dims=keep + names, coords=cs, lab={**{k: v for k, v in da.lab.items() if k in keep}, **lab}, name=da.name)


# ---------------------------------------------------------------- long-form (ragged) selections
class RaggedDA:
    """da.isel(dim=ragged index list): element (t, j) of the list selects da at t.idx(t, j)."""
    _is_da = True

    def __init__(self, da, dim, rag):
        self.da, self.dim, self.rag = da, dim, rag
        self.ren = {}

    def rename(self, m):
        r = RaggedDA(self.da, self.dim, self.rag)
        r.ren = dict(m)
        return r

    def chunk(self, *a, **k): return self
    persist = compute = chunk

    @property
    def dims(self):
        return tuple(self.ren.get(d, d) for d in self.da.dims)


def xarray_reduce(obj, *by, dim=None, func=None, expected_groups=None, isbin=False, fill_value=None, dtype=None, method=None, **kw):
    aggs = {"nanmean": group_mean, "count": group_count, "nansum": group_sum}    # "mean" and "sum" would carry missing values along: not modelled
    ds = [dim] if isinstance(dim, str) else list(dim)
    eg = list(expected_groups) if isinstance(expected_groups, (tuple, list)) else [expected_groups] * len(by)
    if func == "std" or func == "nanstd":
        agg = lambda dom, fn: mk_red("std", [], dom, fn)
    elif func in aggs:
        agg = aggs[func]
    else:
        raise Unsupported(f"xarray_reduce func={func}")
    E.dep("flox.xarray_reduce(func) reduces, for every label, exactly the elements whose keys equal it (missing ones are skipped)")
    if isinstance(obj, RaggedDA):
        return _ragged_reduce(obj, by, ds, eg, agg)
    return group_reduce(obj, [(b.name, b, label_base(g)) for b, g in zip(by, eg)], ds, agg)


def _ragged_reduce(obj, by, ds, eg, agg):
    """Groups over the elements (t, d) of a long-form list; a key whose label determines d is collapsed by the one-point rule."""
    da, dim, sel = obj.da, obj.dim, obj.rag
    if ds != [obj.ren.get(dim, dim)]:
        raise Unsupported("long-form reduction over other dimensions")
    keep = [d for d in da.dims if d != dim]
    e = da.arr.snapshot()
    lay = sel.layout
    keys, sizes, lab = [], [], {}
    for b, g in zip(by, eg):
        L = b.long
        if L is None or L.layout is not lay:
            raise Unsupported("a group key of another layout")
        keys.append((b.name, L, g))
        lb = label_base(g)
        if lb is not None:
            sizes.append(lb[1])
            lab[b.name] = ("base", lb[0])
        elif isinstance(g, Arr):
            sizes.append(g.shape[0])
            lab[b.name] = ("pos", g)
        else:
            raise Unsupported("labels of a long-form reduction")
    names = [k[0] for k in keys]
    nd = len(lay.dom)

    def el(*i):
        env = dict(zip(keep, i[:len(keep)]))
        labs, pos = {}, []
        for (n, L, g), p in zip(keys, i[len(keep):]):
            labs[n] = p + lab[n][1] if lab[n][0] == "base" else zi(lab[n][1].get(p))
            if lab[n][0] == "pos":
                pos.append(p)
        m_of = lambda t, *d: And(lay.guard(t, *d), *[zi(L.value(t, *d)) == labs[n] for n, L, g in keys])
        if nd == 1:
            tt, dd = E.fresh("?t", I), E.fresh("?d", I)
            one = None
            for p in pos:
                m = E.mark()
                E.point(dd, dom=(lay.dom[0],)), E.point(p, dom=(lay.dom[0],))
                ok = E.provable(z3.Implies(And(m_of(tt, dd), inb(p, lay.dom[0])), dd == p))
                E.rollback(m)
                if ok:
                    one = p
            if one is None:
                raise Unsupported("group labels do not determine the list position")
            E.dep("one-point rule: a sum whose terms vanish unless d = p is its term at p (side condition proved)")

            def fn(t):
                return m_of(t, one), e(*[dict(env, **{dim: zi(sel.value(t, one))})[q] for q in da.dims])
        elif nd == 0:
            def fn(t):
                return m_of(t), e(*[dict(env, **{dim: zi(sel.value(t))})[q] for q in da.dims])
        else:
            raise Unsupported("long-form list of several inner dimensions")
        return agg((Sym(lay.b),), fn)
    a = Arr([da.sizes[d] for d in keep] + sizes, el, "f")
    return DA(a, dims=keep + names, coords={n: None for n in names}, lab={n: lab[n][1] for n in names if lab[n][0] == "base"})


# ---------------------------------------------------------------- module xarray
DISK = None


class DS:
    """Dataset: named variables."""
    _is_ds = True

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars = {k: (v if isinstance(v, DA) else DA(v[1], dims=v[0]) if isinstance(v, tuple) else v) for k, v in (data_vars or {}).items()}
        self.coords = {}
        for v in self.data_vars.values():
            for k, c in getattr(v, "coords", {}).items():
                self.coords.setdefault(k, c)
        for k, v in (coords or {}).items():
            if isinstance(v, tuple):
                v = DA(v[1].arr if isinstance(v[1], DA) else v[1], dims=(v[0],) if isinstance(v[0], str) else v[0], name=k)
            elif isinstance(v, Arr):
                v = DA(v, dims=(k,), name=k)
            self.coords[k] = v
        self.attrs = dict(attrs or {})

    def __getitem__(self, k):
        if k in self.data_vars:
            return self.data_vars[k]
        if k in self.coords:
            return self.coords[k]
        raise KeyError(k)

    def __setitem__(self, k, v):
        if isinstance(v, DA):
            v = v.copy()
            for n, c in self.coords.items():
                if isinstance(c, DA) and set(c.dims) <= set(v.dims):
                    v.coords.setdefault(n, c)
        self.data_vars[k] = v

    def __contains__(self, k):
        return k in self.data_vars or k in self.coords

    def __getattr__(self, k):
        if k.startswith("__") or k in ("data_vars", "coords"):
            raise AttributeError(k)
        if k in self:
            return self[k]
        raise Unsupported(f"Dataset.{k}")

    @property
    def sizes(self):
        r = {}
        for v in list(self.data_vars.values()) + list(self.coords.values()):
            if isinstance(v, DA):
                for d, n in zip(v.dims, v.arr.shape):
                    r.setdefault(d, n)
        return r
    dims = sizes

    def isel(self, idx=None, drop=False, missing_dims="raise", **kw):
        idx = dict(idx or {}, **kw)
        for k in idx:
            if k not in self.sizes:
                raise ValueError(f"isel: no dimension {k}")
        # one selection, shared by all variables
        idx = {k: (npm.np.nonzero(v.arr)[0] if isinstance(v, DA) and v.dims == (k,) and v.arr._kind == "b" else npm.np.nonzero(v)[0] if isinstance(v, Arr) and v._kind == "b" else v) for k, v in idx.items()}
        f = lambda v: v.isel({k: w for k, w in idx.items() if k in v.dims}) if isinstance(v, DA) and any(k in v.dims for k in idx) else v
        r = DS({k: f(v) for k, v in self.data_vars.items()}, None, self.attrs)
        r.coords = {k: f(v) for k, v in self.coords.items()}
        return r

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        r = DS({k: (v.drop_vars([n for n in names if n in v.coords]) if isinstance(v, DA) else v) for k, v in self.data_vars.items() if k not in names},
               {k: v for k, v in self.coords.items() if k not in names}, self.attrs)
        r.coords = {k: v for k, v in r.coords.items() if k not in names}
        return r

    def assign_coords(self, new=None, **kw):
        return DS(self.data_vars, dict(self.coords, **dict(new or {}, **kw)), self.attrs)

    def chunk(self, *a, **k):
        return self
    persist = compute = load = chunk


class _UFuncs:
    def __getattr__(self, a):
        if a == "fabs":
            return lambda x: abs(x)
        return getattr(npm.np, a)


class _Grouper:
    def __init__(self, labels=None):
        self.labels = labels


class _Groupers:
    UniqueGrouper = _Grouper


class XR:
    DataArray = DA
    Dataset = DS
    ufuncs = _UFuncs()
    groupers = _Groupers()

    def where(self, c, a, b):
        if not isinstance(c, DA):
            raise Unsupported("xr.where")
        pos = lambda x: DA(x, dims=c.dims, lab=c.lab) if isinstance(x, Arr) and x.ndim == len(c.dims) and x.ndim > 0 else DA(_arr(x), dims=())     # an unnamed array is matched by position
        xs = [x if isinstance(x, DA) else pos(x) for x in (c, a, b)]
        r = broadcast(lambda cc, x, y: _ite(cc, x, y), *xs)
        return r

    def open_zarr(self, path, **k):
        return DISK.open_zarr(path, **k)

    def ones_like(self, d, dtype=None):
        k = npm._kd(dtype) if dtype is not None else d.arr._kind
        one = Sym(z3.BoolVal(True)) if k == "b" else Sym(z3.IntVal(1)) if k == "i" else Sym(z3.RealVal(1))
        return d._new(Arr(d.arr.shape, lambda *i: one, k))

    def zeros_like(self, d, dtype=None):
        k = npm._kd(dtype) if dtype is not None else d.arr._kind
        o = Sym(z3.BoolVal(False)) if k == "b" else Sym(z3.IntVal(0)) if k == "i" else Sym(z3.RealVal(0))
        return d._new(Arr(d.arr.shape, lambda *i: o, k))

    def full_like(self, d, v, dtype=None):
        return d._new(Arr(d.arr.shape, lambda *i: lift(v), npm._kd(dtype) if dtype is not None else d.arr._kind))

    def concat(self, objs, dim=None, **k):
        objs = list(objs)
        if not isinstance(dim, str) or not all(isinstance(o, DA) for o in objs):
            raise Unsupported("xr.concat")
        if all(dim not in o.dims for o in objs):
            if any(o.dims != objs[0].dims for o in objs):
                raise Unsupported("xr.concat of differing dimensions")
            els = [o.arr.snapshot() for o in objs]

            def el(i, *r):
                out = els[-1](*r)
                for j in range(len(els) - 2, -1, -1):
                    out = _ite(Sym(i == j), els[j](*r), out)
                return out
            a = Arr((len(objs),) + tuple(objs[0].arr.shape), el, objs[0].arr._kind)
            return DA(a, dims=(dim,) + tuple(objs[0].dims), coords={k: v for k, v in objs[0].coords.items() if v is not None and v.dims})
        lead = next(o for o in objs if dim in o.dims)
        full = []
        for o in objs:
            if dim not in o.dims:
                if set(o.dims) != set(lead.dims) - {dim}:
                    raise Unsupported("xr.concat of differing dimensions")
                c0 = o.coords.get(dim)
                e, ax, rest = o.arr.snapshot(), lead.dims.index(dim), [d for d in lead.dims if d != dim]
                el = (lambda e, ax, pm: lambda *i: e(*[([x for k, x in enumerate(i) if k != ax])[q] for q in pm]))(e, ax, [rest.index(d) for d in o.dims])
                a = Arr(tuple(1 if d == dim else o.sizes[d] for d in lead.dims), el, o.arr._kind)
                full.append((a, None if c0 is None or dim not in lead.coords else Arr((1,), (lambda v: lambda i: v)(c0.arr.get() if not c0.dims else c0.arr.get(0)), lead.coords[dim].arr._kind)))
            else:
                o = o.transpose(*lead.dims)
                full.append((o.arr, o.coords[dim].arr if dim in o.coords else None))
        ax = lead.dims.index(dim)
        els, lens = [a.snapshot() for a, _ in full], [zi(lift(a.shape[ax])) for a, _ in full]
        offs = [z3.IntVal(0)]
        for n in lens:
            offs.append(z3.simplify(offs[-1] + n))

        def el(*i):
            at = lambda q: els[q](*(i[:ax] + (z3.simplify(i[ax] - offs[q]),) + i[ax + 1:]))
            out = at(len(els) - 1)
            for q in range(len(els) - 2, -1, -1):
                out = _ite(Sym(i[ax] < offs[q + 1]), at(q), out)
            return out
        sh = list(lead.arr.shape)
        sh[ax] = arr._pyint(offs[-1])
        cs = {k: v for k, v in lead.coords.items() if k != dim and v is not None and dim not in v.dims}
        if all(cv is not None for _, cv in full):
            cs[dim] = DA(npm.np.concatenate([cv for _, cv in full]), dims=(dim,), name=dim)
        E.dep("xr.concat along a dimension puts the parts one after the other")
        return DA(Arr(tuple(sh), el, lead.arr._kind), dims=lead.dims, coords=cs, name=lead.name)

    def broadcast(self, *xs, **k):
        if k or not all(isinstance(x, DA) for x in xs):
            raise Unsupported("xr.broadcast of this")
        dims, sz, lab = [], {}, {}
        for x in xs:
            for d in x.dims:
                if d not in dims:
                    dims.append(d)
                    sz[d] = x.sizes[d]
            lab.update(x.lab)

        def one(x):
            e = x.arr.snapshot()
            ix = [dims.index(d) for d in x.dims]
            return DA(Arr([sz[d] for d in dims], lambda *i: e(*[i[j] for j in ix]), x.arr._kind), dims=dims, coords={q: v for q, v in x.coords.items() if v is not None}, lab=lab)
        return tuple(one(x) for x in xs)

    def apply_ufunc(self, f, *args, input_core_dims=None, output_core_dims=((),), vectorize=False, kwargs=None, exclude_dims=(), **k):
        icd = input_core_dims or [[]] * len(args)
        loop = []
        sz = {}
        for a, c in zip(args, icd):
            for d in (a.dims if isinstance(a, DA) else ()):
                sz.setdefault(d, a.sizes[d])
                if d not in c and d not in loop:
                    loop.append(d)
        if len(output_core_dims) != 1:
            if not vectorize or any(len(o) > 1 for o in output_core_dims):
                raise Unsupported("apply_ufunc with several outputs")
            os_ = dict((k.get("dask_gufunc_kwargs") or {}).get("output_sizes") or {})
            return tuple(self.apply_ufunc((lambda j: lambda *a, **kk: f(*a, **kk)[j])(j), *args, input_core_dims=input_core_dims, output_core_dims=[o], vectorize=True, kwargs=kwargs, exclude_dims=exclude_dims, _osz=os_)
                         for j, o in enumerate(output_core_dims))
        ocd = list(output_core_dims[0])
        E.dep("apply_ufunc hands every block its core dimensions last and joins the results")
        cs = {}
        for a in args:
            if isinstance(a, DA):
                cs.update({q: v for q, v in a.coords.items() if v is not None})
        if not vectorize:
            full = []
            for a, c in zip(args, icd):
                if isinstance(a, DA):
                    ld = [d for d in loop if d in a.dims]
                    if ld != loop and ld:
                        raise Unsupported("apply_ufunc broadcasting")
                    full.append(a._by(ld + list(c)))
                else:
                    full.append(a)
            r = f(*full, **(kwargs or {}))
            if not isinstance(r, Arr):
                r = to_arr(r)
            od = loop + ocd
            if r.ndim != len(od):
                raise Unsupported("apply_ufunc result dimensions")
            return DA(r, dims=od, coords={q: v for q, v in cs.items() if all(x in od for x in v.dims)})

        def call(*i):
            env = dict(zip(loop, i[:len(loop)]))
            parts = []
            for a, c in zip(args, icd):
                if isinstance(a, DA):
                    e = a.arr.snapshot()
                    parts.append(Arr([a.sizes[d] for d in c], (lambda e, a, c: lambda *q: e(*[dict(env, **dict(zip(c, q)))[d] for d in a.dims]))(e, a, c), a.arr._kind))
                else:
                    parts.append(a)
            E.ghost["ufunc_at"] = env
            if E.ghost.get("ufunc_points"):
                E.point(*i[:len(loop)], dom=[sz[d] for d in loop])
                rs = E.ghost.setdefault("ranges", [])
                rs.append(And(*[And(zi(q) >= 0, zi(q) < zi(sz[d])) for q, d in zip(i, loop)]))
                try:
                    return f(*parts, **(kwargs or {}))
                finally:
                    rs.pop()
            return f(*parts, **(kwargs or {}))

        def el(*i):
            r = call(*i)
            return r.get(*i[len(loop):]) if ocd else lift(r)
        if not ocd and list(k.get("output_dtypes") or []) == [object]:
            if len(loop) != 1:
                raise Unsupported("object results over several dimensions")
            return RaggedObj(npm.Ragged(sz[loop[0]], call))
        given = k.get("_osz") or (k.get("dask_gufunc_kwargs") or {}).get("output_sizes") or {}
        osz = [given.get(d, sz.get(d)) for d in ocd]
        if any(s is None for s in osz):
            osz = [Sym(E.fresh("osize", I)) if s is None else s for s in osz]
        lab = {}
        for a in args:
            if isinstance(a, DA):
                lab.update({q: v for q, v in a.lab.items() if q in loop + ocd})
        kd = "i" if E.ghost.get("ufunc_points") and [core.kind_of(q) for q in k.get("output_dtypes") or [] if q is not object] == ["i"] else "f"
        return DA(Arr([sz[d] for d in loop] + osz, el, kd), dims=loop + ocd, coords={q: v for q, v in cs.items() if all(x in loop + ocd for x in v.dims)}, lab=lab)

    def __getattr__(self, a):
        raise Unsupported(f"xr.{a}")


class RaggedObj:
    """DataArray of objects over one dimension (only its values are used)."""

    def __init__(self, r): self.values = r
    def persist(self, **k): return self
    compute = load = persist
    data = property(lambda s: s.values)
    def to_numpy(self): return self.values


class _Flox:
    class xarray:
        xarray_reduce = staticmethod(xarray_reduce)


class Series:
    """pandas.Series(range(n), index=labels): lookup by label (labels must be present)."""

    def __init__(self, data=None, index=None, **k):
        from . import loop
        if isinstance(data, loop.Range) and isinstance(index, Arr):
            self.data = Arr((Sym(data.b - data.a),), lambda i: Sym(data.a + i), "i")
        elif isinstance(index, Arr):
            self.data = to_arr(list(data) if isinstance(data, range) else data)
        else:
            raise Unsupported("pandas.Series")
        self.index = index

    def _pos(self, v):
        tab = E.ghost.setdefault("series", {})
        v = lift(v)
        key = (id(self), z3.simplify(v.e).get_id(), tuple(b.get_id() for b in E.binders))
        E.keep.append(z3.simplify(v.e))
        if key not in tab:
            tab[key] = E.fresh("lookup", I)
        p = tab[key]
        E.dep("pandas label lookup: the position carrying the label (present, unique)")
        E.assume(And(p >= 0, p < zi(self.index.shape[0]), zi(self.index.get(p)) == zi(v)))
        E.point(p, dom=(self.index.shape[0],))
        return p

    def __getitem__(self, k):
        if isinstance(k, DA):
            k = k.arr
        if isinstance(k, Arr):
            r = Arr(k.shape, lambda *i: self.data.get(self._pos(k.get(*i))), self.data._kind)
            return r
        return self.data.get(self._pos(k))
    loc = property(lambda s: s)


class PD:
    Series = Series

    def __getattr__(self, a):
        raise Unsupported(f"pd.{a}")


pd = PD()
xr = XR()
flox = _Flox()
