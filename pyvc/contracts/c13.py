"""P13 (event identity), P14 (event statistics)."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb
from ..core import sym_int, sym_real, sym_bool, Unsupported, mk_sum
from .. import core, xrm, npm, maps
from ..arr import Arr, sym_arr, inb, to_arr, comp_of
from ..load import Self
from .c17 import grid
from .c01 import attempt
from .c07 import _plan
T = "marEx.track"
Z = z3.IntVal
Q = f"tracker.cluster_rename_objects_and_props"


def rp13(tier): return _plan("P13")


def rp14(tier): return _plan("P14", "P16")


def lin(v, n, q):
    f = z3.ToInt(q)
    return z3.If(q <= 0, v(Z(0)), z3.If(q >= z3.ToReal(n - 1), v(n - 1), v(f) + (q - z3.ToReal(f)) * (v(f + 1) - v(f))))


@contract(["P14", "P16"], f"{T}.{Q}.calculate_area_centroid_for_slice", rp14, title="event areas and centroids at one time")
def slice_stats(c):
    """Every present event with cells: area = sum of its cells' areas, centroid = area-weighted mean of (unwrapped) indices, read off the coordinates; every other event: missing."""
    for mesh, regional in ((False, False), (False, True), (True, False)):
        def t():
            E = c.E
            ny, nx, n = sym_int("ny"), sym_int("nx"), sym_int("n_ids")
            E.assume(And(ny.e >= 1, nx.e >= 1, n.e >= 0))
            sh = (nx,) if mesh else (ny, nx)
            fld = sym_arr("ids", sh, "i", lambda v: v >= 0)
            ar = sym_arr("cell", sh, "f", lambda v: v > 0)
            pres = sym_arr("present", (n,), "b")
            ev = sym_arr("event", (n,), "i", lambda v: v >= 1)
            la, lo = sym_arr("lat", (nx if mesh else ny,), "f"), sym_arr("lon", (nx,), "f")
            sft = z3.Function("shifted", z3.IntSort(), z3.IntSort(), z3.BoolSort())

            def unw(xs, w):
                k = E.binders[-1]
                return xs.map(lambda v: Sym(z3.If(sft(k, zi(v)), zi(v) - zi(w), zi(v))), "i")
            c.new_repo(None, {(T, "unwrap_periodic_columns"): unw})
            f = c.repo.fn_nested(T, Q, "calculate_area_centroid_for_slice", {})
            j = z3.Int("j")
            E.assume(inb(j, n))
            E.point(j, dom=(n,))
            comp_of(pres)[0].rank(j)
            r, ex = attempt(lambda: f(fld, ar, pres, ev, la, lo, mesh, regional))
            g = "mesh" if mesh else "regional grid" if regional else "global grid"
            c.require(f"no failure ({g})", z3.BoolVal(ex is None))
            if ex is not None:
                return
            A, LA, LO = r
            S = lambda h: mk_sum(sh, lambda *q: Sym(z3.If(fld.get(*q).e == ev.get(j).e, h(*q), z3.RealVal(0))))
            w = lambda *q: ar.get(*q).e
            tot = S(w)

            here = z3.Int("yy"), z3.Int("xx")
            here = here[1:] if mesh else here
            for lab, X in (("area", A), ("latitude", LA), ("longitude", LO)):
                c.require(f"one {lab} per event ({g})", zi(X.shape[0]) == n.e)
                v = X.get(j)
                c.require(f"{lab} missing for an absent event ({g})", z3.Implies(Not(zb(pres.get(j))), core.nanb(lift(v))))
            occ = And(*[inb(a, s) for a, s in zip(here, sh)], fld.get(*here).e == ev.get(j).e, zb(pres.get(j)))
            E.point(*here, dom=sh)
            with c.under(occ):
                E.ghost["positive_sums"] = True
                c.require(f"a positive area ({g})", tot > 0)
                E.ghost["positive_sums"] = False
                E.assume(tot > 0)
                c.require(f"area: sum of the event's cells ({g})", And(Not(core.nanb(A.get(j))), zr(A.get(j)) == tot))
                if mesh:
                    la_r, lo_r = npm.np.radians(la), npm.np.radians(lo)
                    co = lambda i: npm.uf("cos", la_r.get(i))
                    wx = S(lambda i: w(i) * (zr(co(i)) * zr(npm.uf("cos", lo_r.get(i)))))
                    wy = S(lambda i: w(i) * (zr(co(i)) * zr(npm.uf("sin", lo_r.get(i)))))
                    wz = S(lambda i: w(i) * zr(npm.uf("sin", la_r.get(i))))
                    nm = core.sqrt(Sym(wx * wx + wy * wy + wz * wz))
                    div = lambda v: z3.If(zr(nm) > 0, v / zr(nm), v)
                    zc = npm.np.clip(Sym(div(wz)), -1, 1)
                    c.require(f"latitude: of the mean vector ({g})", zr(LA.get(j)) == zr(npm.np.degrees(npm.uf("arcsin", zc))))
                    lon = zr(npm.np.degrees(npm.uf("arctan2", Sym(div(wy)), Sym(div(wx)))))
                    c.require(f"longitude: of the mean vector ({g})", zr(LO.get(j)) == z3.If(lon > 180, lon - 360, z3.If(lon < -180, lon + 360, lon)))
                else:
                    py = S(lambda y, x: z3.ToReal(y) * w(y, x)) / tot
                    col = (lambda x: z3.ToReal(x)) if regional else (lambda x: z3.ToReal(z3.If(sft(j, x), x - nx.e, x)))
                    px = S(lambda y, x: col(x) * w(y, x)) / tot
                    if not regional:
                        px = z3.If(px < 0, px + z3.ToReal(nx.e), px)
                    c.require(f"latitude: of the area-weighted mean row ({g})", zr(LA.get(j)) == lin(lambda i: la.get(i).e, ny.e, py))
                    c.require(f"longitude: of the area-weighted mean column ({g})", zr(LO.get(j)) == lin(lambda i: lo.get(i).e, nx.e, px))
        c.run(t)


# ------------------------------------------------------------------ P13
class Stop(Exception):
    pass


class XR:
    """xarray, recording apply_ufunc calls; stops the function when the given number of them have run."""

    def __init__(self, n):
        self.n, self.calls, self.out = n, [], []

    def __getattr__(self, a):
        return getattr(xrm.xr, a)

    def apply_ufunc(self, f, *a, **k):
        self.calls.append((f, a, k))
        r = xrm.xr.apply_ufunc(f, *a, **k)
        self.out.append(r)
        if len(self.out) >= self.n:
            raise Stop()
        return r


@contract(["P13", "P15"], f"{T}.{Q}", rp13, title="event identity")
def identity(c):
    """Objects joined by a link get one event ID, objects of one event are joined by links (any quantity equal along every link is equal over an event), IDs are 1..N without holes."""
    for mesh in (False, True):
        def t():
            E = c.E
            da, sz = grid(E, mesh, ("time", None, "ncells") if mesh else ("time", "lat", "lon"), "i")
            F = da.arr
            m = sym_int("n_links")
            E.assume(And(m.e >= 0, *[s.e >= 1 for s in sz]))
            nd = len(sz)
            E.universal(nd, lambda *q: z3.Implies(And(*[inb(a, s) for a, s in zip(q, sz)]), F.get(*q).e >= 0), dom=sz)
            L = sym_arr("link", (m, 3), "i")
            where = [[z3.Function(f"cell{s}{d}", z3.IntSort(), z3.IntSort()) for d in range(nd)] for s in (0, 1)]
            conn = z3.Function("joined", z3.IntSort(), z3.IntSort())

            def link(e):
                out = [conn(L.get(e, Z(0)).e) == conn(L.get(e, Z(1)).e)]
                for s in (0, 1):
                    q = [f(e) for f in where[s]]
                    E.point(*q, dom=sz)
                    E.point(e, Z(s), dom=(m, 2))
                    out += [*[inb(a, n) for a, n in zip(q, sz)], F.get(*q).e == L.get(e, Z(s)).e, L.get(e, Z(s)).e >= 1]
                return z3.Implies(And(e >= 0, e < m.e), And(*out))
            E.universal(1, link, dom=(m,))
            xr_ = XR(1)
            c.new_repo({"xarray": xr_})
            E.ghost["node_value"] = conn
            E.ghost["no_order"] = True
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "ydim": None if mesh else "lat", "xdim": "ncells" if mesh else "lon", "timedim": "time", "timecoord": "time"})
            p = [z3.Int(f"p{d}") for d in range(nd)]
            q = [z3.Int(f"q{d}") for d in range(nd)]
            e = z3.Int("e")
            E.assume(And(*[inb(a, s) for a, s in zip(p + q, sz + sz)], e >= 0))
            E.point(*p, dom=sz)
            E.point(*q, dom=sz)
            E.point(e, dom=(m,))
            u = npm.np.unique(F)
            for v in (F.get(*p).e, F.get(*q).e, L.get(e, Z(0)).e, L.get(e, Z(1)).e):
                E.point(u.upos(v), dom=u.shape)
            try:
                slf.cluster_rename_objects_and_props(da, None, L, None)
                raise Unsupported("the relabelling is not where it was")
            except Stop:
                pass
            if not xr_.out:
                raise Unsupported("the relabelling is not where it was")
            R = xr_.out[0]
            at = lambda q: zi(R.get(**dict(zip(da.dims, q))))
            nc, _, _, G = E.ghost["components"]
            for v in (F.get(*p).e, F.get(*q).e, L.get(e, Z(0)).e, L.get(e, Z(1)).e):
                E.point(E.ghost["unique_by_size"][z3.simplify(G.n).get_id()].upos(v), dom=(G.n,))
            g = "mesh" if mesh else "grid"
            Fp, Fq = F.get(*p).e, F.get(*q).e
            c.require(f"same cells ({g})", z3.BoolVal(set(R.dims) == set(da.dims)))
            c.require(f"background stays background ({g})", z3.Implies(Fp == 0, at(p) == 0))
            c.require(f"every object gets an ID from 1 to N ({g})", z3.Implies(Fp > 0, And(at(p) >= 1, at(p) <= nc)))
            with c.under(And(e < m.e, Fp == L.get(e, Z(0)).e, Fq == L.get(e, Z(1)).e)):
                c.require(f"linked objects share their ID ({g})", at(p) == at(q))
            c.require(f"one object, one ID ({g})", z3.Implies(Fp == Fq, at(p) == at(q)))
            with c.under(And(Fp > 0, Fq > 0, at(p) == at(q))):
                c.require(f"objects sharing an ID are joined by links ({g})", conn(Fp) == conn(Fq))
        c.run(t)


@contract(["P14", "P13"], f"{T}.{Q}.process_timestep", rp14, title="which object an event is at one time")
def presence(c):
    """At every time an event is represented by one of its own objects, and by none (0) when it has no cell: the basis of presence, start and end."""
    def t():
        E = c.E
        n, N = sym_int("ncells"), sym_int("n_events")
        E.assume(And(n.e >= 1, N.e >= 0))
        old = sym_arr("object", (n,), "i", lambda v: v >= 0)
        new = sym_arr("event", (n,), "i", lambda v: And(v >= 0, v <= N.e))
        good = z3.Function("belongs", z3.IntSort(), z3.BoolSort())
        j, p = z3.Ints("j p")
        E.assume(And(j >= 0, j <= N.e, inb(p, n)))
        E.point(p, dom=(n,))
        E.universal(1, lambda q: z3.Implies(And(inb(q, n), new.get(q).e > 0), old.get(q).e > 0), dom=(n,))
        E.universal(1, lambda q: z3.Implies(And(inb(q, n), new.get(q).e == j + 1), good(old.get(q).e)), dom=(n,))
        ids = npm.np.arange(1, N + 2)
        m = maps.SymMap(N.e + 1, lambda k: Sym(zi(k) + 1), lambda k: Sym(zi(k)))
        f = c.repo.fn_nested(T, Q, "process_timestep", {"new_id_to_idx": m})
        comp_of(new > 0)[0].rank(p)
        r = f(old, new)
        v = zi(r.get(j))
        c.require("one entry per event", zi(r.shape[0]) == N.e + 1)
        with c.under(v != 0):
            c.require("an entry is an object of that event at that time", good(v))
        with c.under(new.get(p).e == j + 1):
            c.require("an event with a cell has an entry", v > 0)
    c.run(t)


class Stub:
    """A value the contract does not look into."""
    _stub = True

    def __init__(self, tag="", **kw):
        self.__dict__.update(kw, _tag=tag)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Stub(self._tag + "." + a)

    def __call__(self, *a, **k): return self
    def __getitem__(self, k): return self
    def __setitem__(self, k, v): pass
    def __iter__(self): return iter(())
    def _sym_len(self): return 1

    def _op(self, *a): return self
    __gt__ = __lt__ = __ge__ = __le__ = __mul__ = __rmul__ = __add__ = __sub__ = __and__ = __or__ = __invert__ = _op


class Mapping_(xrm.DA):
    def isin(self, *a): return Stub("known")

    def where(self, cond, *a, **k):
        return cond if isinstance(cond, Stub) else xrm.DA.where(self, cond, *a, **k)


class XRW:
    """xarray with the three block-wise steps replaced by their contracts."""

    def __init__(self, out):
        self.out, self.calls, self.merged = out, [], None

    def __getattr__(self, a):
        return getattr(xrm.xr, a)

    def apply_ufunc(self, f, *a, **k):
        self.calls.append((f, a, k))
        if len(self.calls) > len(self.out):
            raise Unsupported("more block-wise steps than the contract knows")
        return self.out[len(self.calls) - 1](a, k)

    def where(self, c_, a, b):
        return Stub("where") if any(isinstance(x, Stub) for x in (c_, a, b)) else xrm.xr.where(c_, a, b)

    def full_like(self, d, *a, **k): return Stub("ledger")
    def map_blocks(self, *a, **k): return Stub("ledger")

    def concat(self, objs, dim=None, **k):
        if any(isinstance(x, Stub) for x in objs):
            return objs[-1]
        return xrm.xr.concat(objs, dim=dim, **k)

    def broadcast(self, *a):
        t = max(a, key=lambda x: len(x.dims))
        out = []
        for x in a:
            z = t.arr
            out.append(xrm.DA(Arr(t.arr.shape, (lambda x: lambda *i: x.get(**{d: j for d, j in zip(t.dims, i) if d in x.dims}))(x), x.arr._kind), dims=t.dims))
        return tuple(out)

    def merge(self, parts, **k):
        self.merged = parts
        slf = self

        class R:
            def isel(self, **kw):
                slf.final = kw
                return slf
        return R()


@contract(["P14", "P13"], f"{T}.{Q}", rp14, title="assembly of the event dataset")
def assembly(c):
    """Presence is exactly where the event has an object, start/end are the times of the first/last presence, areas and centroids are those computed from the final field with the
    tracker's areas and coordinates, and the padding event is dropped."""
    for mesh, regional, flat in ((False, False, True), (False, True, False), (True, False, False)):
        def t():
            E = c.E
            da, sz = grid(E, mesh, ("time", None, "ncells") if mesh else ("time", "lat", "lon"), "i")
            E.assume(And(*[s.e >= 1 for s in sz]))
            nd = len(sz)
            E.ghost["no_order"] = True
            R = xrm.DA(sym_arr("event_field", sz, "i", lambda v: v >= 0), dims=da.dims, coords=dict(da.coords))
            G = z3.Function("object_of", z3.IntSort(), z3.IntSort(), z3.IntSort())
            outs = [None]
            res = []

            def second(a, k):
                outs[0] = (a, k)
                n = (k.get("dask_gufunc_kwargs") or {}).get("output_sizes", {}).get("ID")
                x = Mapping_(Arr((sz[0], n), lambda i, j: Sym(G(i, j)), "i"), dims=("time", "ID"), coords={q: v for q, v in da.coords.items() if v.dims == ("time",)})
                x.assign_coords = lambda *a_, **k_: x
                x.compute = lambda *a_, **k_: x
                return x

            def third(a, k):
                n = a[3].sizes["ID"]
                for q in range(3):
                    res.append(xrm.DA(sym_arr(f"stat{q}", (sz[0], n), "f"), dims=("time", "ID")))
                return tuple(res)
            xr_ = XRW([lambda a, k: R, second, third])
            c.new_repo({"xarray": xr_, "dask.persist": lambda *a: a})
            ca = xrm.DA(sym_arr("cell", (sz[1],) if flat or mesh else sz[1:], "f"), dims=(da.dims[1],) if flat or mesh else da.dims[1:])
            la, lo = xrm.DA(sym_arr("lat", (sz[1],), "f"), dims=(da.dims[1],)), xrm.DA(sym_arr("lon", (sz[-1],), "f"), dims=(da.dims[-1],))
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "ydim": None if mesh else "lat", "xdim": "ncells" if mesh else "lon", "timedim": "time", "timecoord": "time",
                                             "regional_mode": regional, "cell_area": ca, "lat": la, "lon": lo, "timechunks": 1})
            props = Stub("props", data_vars=["area", "centroid"])
            r = slf.cluster_rename_objects_and_props(da, props, npm.np.zeros((0, 3), dtype=npm.np.int32), Stub("merges"))
            g = "mesh" if mesh else "regional grid" if regional else "global grid"
            if len(xr_.calls) != 3 or xr_.merged is None:
                raise Unsupported("not the block-wise steps the contract knows")
            nc = E.ghost["components"][0]
            fld, ds, led = xr_.merged
            i = z3.Ints("t y x")[:nd] if not mesh else z3.Ints("t x")
            j = z3.Int("j")
            E.assume(And(*[inb(a, s) for a, s in zip(i, sz)], j >= 0, j < nc))
            tt = i[0]
            E.point(tt, dom=(sz[0],))
            loc = dict(zip(da.dims, i))
            c.require(f"the field reported is the relabelled field ({g})", And(z3.BoolVal(fld.name == "ID_field" and fld.dims == R.dims), zi(fld.get(**loc)) == zi(R.get(**loc))))
            c.require(f"the padding event is dropped, no other ({g})", And(z3.BoolVal(getattr(xr_, "final", None) == {"ID": slice(0, -1)}), zi(ds.coords["ID"].sizes["ID"]) == nc + 1, zi(ds.coords["ID"].get(ID=j)) == j + 1))
            # the second step sees object and event of every cell of events
            (a, k) = outs[0]
            src = [x.da if isinstance(x, xrm.Stacked) else x for x in a[:2]]
            if not mesh:
                c.require(f"all cells are looked at ({g})", z3.BoolVal(all(isinstance(x, xrm.Stacked) and set(x.stacked) == {"lat", "lon"} for x in a[:2]) and [list(x) for x in k["input_core_dims"]] == [[a[0].name]] * 2))
            on = zi(R.get(**loc)) > 0
            o, e = src[0].get(**loc), src[1].get(**loc)
            c.require(f"with their objects and events ({g})", z3.Implies(on, And(Not(core.nanb(o)), Not(core.nanb(e)), zr(o) == z3.ToReal(zi(da.get(**loc))), zr(e) == z3.ToReal(zi(R.get(**loc))))))
            c.require(f"and no other cells ({g})", z3.Implies(Not(on), core.nanb(e)))
            pres = ds["presence"]
            P = lambda s: G(s, j) > 0
            c.require(f"presence: the event has an object then ({g})", zb(pres.get(time=tt, ID=j)) == P(tt))
            tm = da.coords["time"]
            s1, s2, w = z3.Int("s1"), z3.Int("s2"), z3.Int("w")
            E.assume(And(inb(w, sz[0]), P(w), inb(s1, sz[0]), inb(s2, sz[0])))
            for q in (w, s1, s2, zi(sz[0]) - 1 - w, zi(sz[0]) - 1 - s1, zi(sz[0]) - 1 - s2):
                E.point(z3.simplify(q), dom=(sz[0],))
            E_first = lambda s: E.universal(1, lambda v: z3.Implies(And(inb(v, sz[0]), v < s), Not(P(v))), dom=(sz[0],))
            E_last = lambda s: E.universal(1, lambda v: z3.Implies(And(inb(v, sz[0]), v > s), Not(P(v))), dom=(sz[0],))
            E.assume(And(P(s1), P(s2)))
            E_first(s1)
            E_last(s2)
            c.require(f"start: the time of the first presence ({g})", zr(ds["time_start"].get(ID=j)) == zr(tm.get(time=s1)))
            c.require(f"end: the time of the last presence ({g})", zr(ds["time_end"].get(ID=j)) == zr(tm.get(time=s2)))
            # statistics
            f3, a3, k3 = xr_.calls[2]
            core_d = [list(x) for x in k3["input_core_dims"]]
            sp = [d for d in da.dims if d != "time"]
            c.require(f"statistics: one slice at a time ({g})", z3.BoolVal(core_d == [sp, sp, ["ID"], ["ID"], [sp[0]], [sp[-1]]] and k3.get("vectorize") is True
                                                                       and k3.get("kwargs") == {"is_unstructured": mesh, "regional_mode": regional}))
            sl = dict(zip(sp, i[1:]))
            cw = ca.get(**{d: sl[d] for d in ca.dims})
            c.require(f"statistics: of the relabelled field ({g})", zi(a3[0].get(**loc)) == zi(R.get(**loc)))
            c.require(f"statistics: with the tracker's cell areas ({g})", zr(a3[1].get(**sl)) == zr(cw))
            c.require(f"statistics: for the events present ({g})", And(zb(a3[2].get(time=tt, ID=j)) == P(tt), zi(a3[3].get(ID=j)) == j + 1))
            c.require(f"statistics: on the tracker's coordinates ({g})", And(z3.BoolVal(a3[4] is la and a3[5] is lo)))
            c.require(f"area reported ({g})", And(z3.BoolVal(ds["area"].dims == ("time", "ID")), zr(ds["area"].get(time=tt, ID=j)) == zr(res[0].get(time=tt, ID=j))))
            cen = ds["centroid"]
            c.require(f"centroid reported: latitude, longitude ({g})", And(*[zr(cen.get(component=Z(q), time=tt, ID=j)) == zr(res[1 + q].get(time=tt, ID=j)) for q in (0, 1)]))
        c.run(t)


# ------------------------------------------------------------------ object properties (used for the overlap threshold and the division of merged objects)
def rp_props(tier): return _plan2("P11", "P14", "P12")


def _plan2(*p):
    from .c07 import _plan
    return _plan(*p)


@contract(["P11", "P14"], f"{T}.tracker.calculate_object_properties", rp_props, title="object properties on meshes")
def object_props_mesh(c):
    """At every time each object's slot holds its id, the sum of its cells' areas and the position of the area-weighted mean vector; all objects fit in the buffer."""
    def t():
        E = c.E
        nt, n = sym_int("nt"), sym_int("n")
        E.assume(And(nt.e >= 2, n.e >= 1))
        F = sym_arr("ids", (nt, n), "i", lambda v: v >= 0)
        area = sym_arr("cell", (n,), "f", lambda v: v > 0)
        la, lo = sym_arr("lat", (n,), "f"), sym_arr("lon", (n,), "f")
        rec = XR(1)
        c.new_repo({"xarray": rec})
        slf = Self(c.repo, T, "tracker", {"unstructured_grid": True, "timedim": "tt", "xdim": "cc", "ydim": None, "lat": xrm.DA(la, dims=("cc",)), "lon": xrm.DA(lo, dims=("cc",)),
                                         "cell_area": xrm.DA(area, dims=("cc",)), "regional_mode": False})
        tt, d = z3.Ints("t d")
        E.assume(And(inb(tt, nt), inb(d, n)))
        E.point(tt, d, dom=(nt, n))
        E.ghost["distinct_bound"] = True
        got = []

        def stop(f, *a, **k):
            got.append((f, a, k))
            raise Stop()
        rec.apply_ufunc = stop
        try:
            slf.calculate_object_properties(xrm.DA(F, dims=("tt", "cc")), properties=["area", "centroid"])
        except Stop:
            pass
        c.require("properties are computed time by time", z3.BoolVal(len(got) == 1))
        f, a, k = got[0]
        M = lift(F.max()).e                  # the largest id; instantiated here for the cells of this time
        E.universal(1, lambda q: z3.Implies(inb(q, n), F.get(tt, q).e <= M), dom=(n,))
        icd = k["input_core_dims"]
        frames = []
        for x, cd in zip(a, icd):
            e = x.arr.snapshot()
            frames.append(Arr((n,), (lambda e, x: lambda q: e(*[{"tt": tt, "cc": q}[y] for y in x.dims]))(e, x), x.arr._kind))
        c.require("each object's cells are those of that time", zi(frames[0].get(d)) == zi(F.get(tt, d)))
        r, ex = attempt(lambda: f(*frames, **(k.get("kwargs") or {})))
        c.require("no failure: every object fits", z3.BoolVal(ex is None))
        if ex is not None:
            return
        R, ids = r
        v = F.get(tt, d).e
        with c.under(v > 0):
            us = [x for kk, x in E.ghost.get("reductions", {}).items() if kk[0] == "unique"]
            if not us:
                raise Unsupported("the objects are not listed by np.unique")
            (nn, el, pos, fact), _ = us[-1]
            E.assume(fact(d))
            s = pos(v)
            c.require("every object has a slot holding its id", And(inb(s, Sym(zi(ids.shape[0]))), zi(ids.get(s)) == v))
            S = lambda h: mk_sum((n,), lambda q: Sym(z3.If(F.get(tt, q).e == v, h(q), z3.RealVal(0))))
            w = lambda q: area.get(q).e
            c.require("area: sum of the object's cells", zr(R.get(0, s)) == S(w))
            la_r, lo_r = npm.np.radians(la), npm.np.radians(lo)
            co = lambda i: npm.uf("cos", la_r.get(i))
            wx = S(lambda i: w(i) * (zr(co(i)) * zr(npm.uf("cos", lo_r.get(i)))))
            wy = S(lambda i: w(i) * (zr(co(i)) * zr(npm.uf("sin", lo_r.get(i)))))
            wz = S(lambda i: w(i) * zr(npm.uf("sin", la_r.get(i))))
            nm = core.sqrt(Sym(wx * wx + wy * wy + wz * wz))
            den = z3.If(zr(nm) > 0, zr(nm), z3.RealVal(1))
            zc = npm.np.clip(Sym(wz / den), -1, 1)
            c.require("latitude: of the mean vector", zr(R.get(1, s)) == zr(npm.np.degrees(npm.uf("arcsin", zc))))
            lon = zr(npm.np.degrees(npm.uf("arctan2", Sym(wy / den), Sym(wx / den))))
            c.require("longitude: of the mean vector", zr(R.get(2, s)) == z3.If(lon > 180, lon - 360, z3.If(lon < -180, lon + 360, lon)))
        j = z3.Int("j")
        with c.under(inb(j, Sym(zi(ids.shape[0])))):
            E.point(j, dom=(ids.shape[0],))
            c.require("ids are never negative", zi(ids.get(j)) >= 0)
    c.run(t)


@contract(["P11", "P14", "P16"], f"{T}.tracker.calculate_object_properties", rp_props, title="object properties on grids")
def object_props_grid(c):
    """Each frame is measured by regionprops (assumed); on global grids every object's centroid is replaced by calculate_centroid of exactly that object's cells, in regional mode none is."""
    for regional in (False, True):
        def t():
            E = c.E
            nt, ny, nx = sym_int("nt"), sym_int("ny"), sym_int("nx")
            E.assume(And(nt.e >= 2, ny.e >= 1, nx.e >= 1))
            F = sym_arr("ids", (nt, ny, nx), "i", lambda v: v >= 0)
            tt, y, x = z3.Ints("t y x")
            E.assume(And(inb(tt, nt), inb(y, ny), inb(x, nx)))
            E.point(y, x, dom=(ny, nx))
            rec = XR(1)
            got, asked = [], []

            def stop(f, *a, **k):
                got.append((f, a, k))
                raise Stop()
            rec.apply_ufunc = stop
            raw = [z3.Function(f"raw{i}", z3.IntSort(), z3.RealSort()) for i in (0, 1)]
            new = [z3.Function(f"new{i}", z3.IntSort(), z3.RealSort()) for i in (0, 1)]
            A = z3.Function("cells", z3.IntSort(), z3.RealSort())

            def table(ids, intensity_image=None, properties=(), **k):
                if intensity_image is not None or k:
                    raise Unsupported("regionprops_table with these arguments")
                asked.append(list(properties))
                pos = npm.np.unique(ids[ids > 0])
                e = pos.snapshot()
                col = lambda fn: Arr(pos.shape, lambda i: Sym(fn(zi(e(i)))), "f")
                full = {"label": pos, "area": col(A), "centroid-0": col(raw[0]), "centroid-1": col(raw[1])}
                out = {}
                for p in properties:
                    for kk in full:
                        if kk == p or kk.startswith(p + "-"):
                            out[kk] = full[kk]
                return out

            def cent(mask, orig=None):
                if mask.ndim != 2:
                    raise Unsupported("centroid of a mask that is not a frame")
                # which object the mask shows: the one whose cell it is at the probe
                k = E.binders[-1]
                lab = zi(E.ghost["labels"].get(k))
                c.require(f"the centroid is recomputed from exactly the object's cells", zb(mask.get(y, x)) == (F.get(tt, y, x).e == lab))
                if orig is not None:
                    c.require("the original centroid handed over is the object's", And(zr(orig[0]) == raw[0](lab), zr(orig[1]) == raw[1](lab)))
                return (Sym(new[0](lab)), Sym(new[1](lab)))
            c.new_repo({"xarray": rec, "skimage.measure.regionprops_table": table}, {(T, "regionprops_table"): table})
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": False, "timedim": "tt", "xdim": "xx", "ydim": "yy", "regional_mode": regional}, {"calculate_centroid": cent})
            try:
                slf.calculate_object_properties(xrm.DA(F, dims=("tt", "yy", "xx")), properties=["area", "centroid"])
            except Stop:
                pass
            g = "regional" if regional else "global"
            c.require(f"properties are computed time by time ({g})", z3.BoolVal(len(got) == 1))
            f, a, k = got[0]
            e = a[0].arr.snapshot()
            icd = k["input_core_dims"][0]
            fr = Arr([a[0].sizes[d] for d in icd], lambda *q: e(*[dict(zip(icd, q), tt=tt)[d] for d in a[0].dims]), "i")
            E.ghost["labels"] = npm.np.unique(fr[fr > 0])
            r, ex = attempt(lambda: f(fr))
            c.require(f"no failure ({g})", z3.BoolVal(ex is None))
            if ex is not None:
                return
            c.require(f"label, area and centroid are asked for ({g})", z3.BoolVal(bool(asked) and {"label", "area", "centroid"} <= set(asked[0])))
            n = zi(r["label"].shape[0])
            j = z3.Int("j")
            with c.under(inb(j, Sym(n))):
                lab = zi(r["label"].get(j))
                c.require(f"area of the object ({g})", zr(r["area"].get(j)) == A(lab))
                want = raw if regional else new
                from ..arr import to_arr
                for i in (0, 1):
                    col = r[f"centroid-{i}"]
                    v = col.get(j) if isinstance(col, Arr) else col[Sym(j)]
                    c.require(f"centroid component {i} of the object ({g})", zr(v) == want[i](lab))
        c.run(t)
