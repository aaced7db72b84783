"""P17: coordinate units and conventions. P18: tracker settings. P19: preprocessing checkpoints. P09: reported preprocessing statistics."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported, nanb, infi
from .. import core, xrm, npm
from ..arr import Arr, sym_arr, inb
from ..load import Self
from .c01 import attempt
T = "marEx.track"


def grid(E, mesh=False, names=("time", "lat", "lon"), kind="b", dask=True, pre="", one=True):
    nt, ny, nx = sym_int(pre + "nt"), sym_int(pre + "ny"), sym_int(pre + "nx")
    E.assume(And(nt.e >= 1, ny.e >= 1, nx.e >= 1))
    t, y, x = names
    if mesh:
        cs = {t: (t, sym_arr(pre + "tv", (nt,), "i")), "lat": (x, sym_arr(pre + "latv", (nx,), "f")), "lon": (x, sym_arr(pre + "lonv", (nx,), "f"))}
        return xrm.DA(sym_arr(pre + "a", (nt, nx), kind), dims=(t, x), coords=cs, attrs={"keep": "me"}), (nt, nx)
    cs = {t: (t, sym_arr(pre + "tv", (nt,), "i")), y: (y, sym_arr(pre + "latv", (ny,), "f")), x: (x, sym_arr(pre + "lonv", (nx,), "f"))}
    return xrm.DA(sym_arr(pre + "a", (nt, ny, nx), kind), dims=(t, y, x), coords=cs, attrs={"keep": "me"}), (nt, ny, nx)


def rp_units(tier):
    import sys, os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from rt.plan import plan
    return [[m, k, kw] for m, k, kw in plan("P17", "quick", 1)]


PI = None


@contract(["P17", "P18"], f"{T}.tracker._unify_coordinates", rp_units, title="coordinate units")
def unify(c):
    """Units are taken as given, or recognised from the longitude range only when it is within one degree of 360 or 0.02 of 2 pi; anything else is refused; coordinates come out in degrees and the caller's data are untouched."""
    for mesh in (False, True):
        for regional in (False, True):
            def t():
                E = c.E
                units = core.sym_str("units") if bool(sym_bool("units_given")) else None
                da, sz = grid(E, mesh)
                before = dict(da.coords)
                lon = da.coords["lon"]
                n = lon.shape[0]
                q = z3.Int("q")
                E.assume(inb(q, n))
                E.point(q, dom=(n,))
                slf = Self(c.repo, T, "tracker", {"data_bin": da, "regional_mode": regional, "coordinate_units": units, "xcoord": "lon", "ycoord": "lat", "timedim": "time", "xdim": "lon"})
                pi = npm.np.pi
                E.assume(And(Not(nanb(float_(lon.max()))), Not(nanb(float_(lon.min())))))   # coordinate values are present
                _, ex = attempt(lambda: slf._unify_coordinates())
                rng = zr(float_(lon.max())) - zr(float_(lon.min()))
                deg = And(rng <= 361, rng >= 359)
                two_pi = zr(lift(2 * pi))
                eps = zr(lift(0.02))
                rad = And(rng - two_pi <= eps, two_pi - rng <= eps, Not(deg))
                S = lambda v: zb(units == v)
                tag = f"{'mesh' if mesh else 'grid'}, {'regional' if regional else 'global'}, units {'given' if units is not None else 'left out'}"
                if units is not None:
                    ok_d, ok_r = S("degrees"), S("radians")
                elif regional:
                    ok_d = ok_r = z3.BoolVal(False)
                else:
                    ok_d, ok_r = deg, rad
                if ex is not None:
                    c.require(f"refused ({tag}) with CoordinateError", z3.BoolVal(type(ex).__name__ == "CoordinateError"))
                    c.require(f"refused ({tag}): only unknown units or an ambiguous range", Not(Or(ok_d, ok_r)))
                    return
                c.require(f"accepted ({tag}): units known or recognised", Or(ok_d, ok_r))
                c.require(f"accepted ({tag}): the units in force", And(z3.Implies(ok_d, zb(slf.coordinate_units == "degrees")), z3.Implies(ok_r, zb(slf.coordinate_units == "radians"))))
                out = slf.data_bin
                for nm in ("lat", "lon"):
                    v0 = before[nm].arr.get(q)
                    v1 = out.coords[nm].arr.get(q)
                    c.require(f"accepted ({tag}): {nm} in degrees", And(z3.Implies(ok_d, zr(v1) == zr(v0)), z3.Implies(ok_r, zr(v1) == zr(v0 * 180.0 / pi))))
                c.require(f"({tag}): caller's coordinates untouched", z3.BoolVal(all(da.coords[k] is before[k] for k in before)))
                ix = {d: z3.Int("p_" + d) for d in da.dims}
                c.require(f"({tag}): data untouched", zb(out.get(**ix)) == zb(da.get(**ix)))
            c.run(t)


def float_(x):
    while isinstance(x, (xrm.DA, Arr)):
        x = x.item()
    return x


@contract(["P17", "P14"], f"{T}.tracker._remap_coordinates", rp_units, title="reported coordinates")
def remap(c):
    """Results carry the input's own coordinates; centroids keep their place on the sphere and follow the input's units and longitude range."""
    for units in ("degrees", "radians"):
        for with_c in (True, False):
            def t():
                E = c.E
                n, ny, nx, nt = sym_int("nid"), sym_int("ny"), sym_int("nx"), sym_int("nt")
                E.assume(And(n.e >= 0, ny.e >= 1, nx.e >= 1, nt.e >= 1))
                la = xrm.DA(sym_arr("lat0", (ny,), "f", lambda v: True), dims=("lat",), name="lat")
                lo = xrm.DA(sym_arr("lon0", (nx,), "f", lambda v: True), dims=("lon",), name="lon")
                ids = xrm.DA(sym_arr("ids", (nt, ny, nx), "i"), dims=("time", "lat", "lon"), coords={"lat": ("lat", sym_arr("latd", (ny,), "f")), "lon": ("lon", sym_arr("lond", (nx,), "f"))})
                cen = xrm.DA(sym_arr("cen", (2, nt, n), "x"), dims=("component", "time", "ID"))
                ds = xrm.DS(dict({"ID_field": ids}, **({"centroid": cen} if with_c else {})))
                p, q, i, j = z3.Ints("p q i j")
                E.assume(And(inb(p, nt), inb(q, n), inb(i, ny), inb(j, nx)))
                E.point(i, dom=(ny,))
                E.point(j, dom=(nx,))
                E.assume(And(Not(nanb(float_(lo.max()))), Not(nanb(float_(lo.min())))))   # coordinate values are present
                slf = Self(c.repo, T, "tracker", {"coordinate_units": units, "xcoord": "lon", "ycoord": "lat", "lat_init": la, "lon_init": lo})
                r = slf._remap_coordinates(ds)
                tag = f"{units}, centroids {'present' if with_c else 'absent'}"
                c.require(f"the input's coordinates come back ({tag})", And(zr(r["lat"].arr.get(i)) == zr(la.arr.get(i)), zr(r["lon"].arr.get(j)) == zr(lo.arr.get(j))))
                c.require(f"the event field is untouched ({tag})", zi(r["ID_field"].arr.get(p, i, j)) == zi(ids.arr.get(p, i, j)))
                if not with_c:
                    c.require(f"no centroid invented ({tag})", z3.BoolVal("centroid" not in r.data_vars))
                    return
                pi = npm.np.pi
                f = (lambda v: v * pi / 180.0) if units == "radians" else (lambda v: v)
                half = zr(lift(pi)) if units == "radians" else z3.RealVal(180)
                out = r["centroid"]
                c.require(f"shape of the centroids ({tag})", And(z3.BoolVal(out.dims[0] == "component" and set(out.dims) == {"component", "time", "ID"}), zi(out.sizes["component"]) == 2))
                y0, x0 = cen.arr.get(0, p, q), cen.arr.get(1, p, q)
                y1, x1 = out.get(component=0, time=p, ID=q), out.get(component=1, time=p, ID=q)
                c.require(f"missing centroids stay missing ({tag})", And(nanb(y1) == nanb(y0), nanb(x1) == nanb(x0)))
                with c.under(And(Not(nanb(y0)), Not(nanb(x0)), infi(x0) == 0, infi(y0) == 0)):
                    c.require(f"latitude in the input's units ({tag})", zr(y1) == zr(f(y0)))
                    d = zr(x1) - zr(f(x0))
                    c.require(f"longitude: the same meridian ({tag})", Or(d == 0, d == 2 * half))
                    mn, mx = zr(float_(lo.min())), zr(float_(lo.max()))
                    with c.under(And(zr(x0) >= -180, zr(x0) <= 180, half > 3)):
                        c.require(f"longitude: kept in -half..half when the input has negative longitudes ({tag})", z3.Implies(mn < 0, d == 0))
                        c.require(f"longitude: in 0..full when the input goes past half a turn ({tag})", z3.Implies(And(mn >= 0, mx > half), zr(x1) >= 0))
                        c.require(f"longitude: eastern values unshifted ({tag})", z3.Implies(zr(x0) >= 0, d == 0))
            c.run(t)


# ------------------------------------------------------------------ P18
def rp_cfg(tier):
    import sys, os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from rt.plan import plan
    return [[m, k, kw] for m, k, kw in plan("P18", "quick", 1)]


def opt(name, mk):
    return mk(name) if bool(sym_bool(name + "_given")) else None


@contract(["P18", "P09"], f"{T}.tracker._resolve_area_filtering_parameters", rp_cfg, title="area filter settings")
def resolve(c):
    def t():
        q, a = opt("quartile", sym_real), opt("absolute", sym_int)
        slf = Self(c.repo, T, "tracker", {})
        _, ex = attempt(lambda: slf._resolve_area_filtering_parameters(q, a))
        both = q is not None and a is not None
        tag = f"quartile {'given' if q is not None else 'left out'}, absolute {'given' if a is not None else 'left out'}"
        c.require(f"refused iff both are given ({tag})", z3.BoolVal((ex is not None) == both and (ex is None or type(ex).__name__ == "ConfigurationError")))
        if ex is not None:
            return
        c.require(f"which filter is in force ({tag})", zb(lift(slf._use_absolute_filtering)) == (a is not None))
        if a is not None:
            c.require(f"absolute area kept ({tag})", zi(slf.area_filter_absolute) == a.e)
        else:
            c.require(f"quartile kept, default one half ({tag})", zr(slf.area_filter_quartile) == (q.e if q is not None else z3.Q(1, 2)))
    c.run(t)


def build(c, mesh, **kw):
    """tracker.__init__ on a symbolic input; the coordinate unification and the mesh set-up have contracts of their own."""
    slf = Self(c.repo, T, "tracker", {}, {"_unify_coordinates": lambda: None, "_setup_unstructured_grid": lambda *a: kw["calls"].append(a), "_configure_warnings": lambda: None})
    return slf


@contract(["P18"], f"{T}.tracker.__init__", rp_cfg, title="tracker construction")
def construct(c):
    """The constructor refuses exactly what the documented domain excludes and stores the settings it was given."""
    NM = ("time", "lat", "lon")
    variants = [("plain", {}), ("not Boolean", {"kind": "f"}), ("not chunked", {"dask": False}), ("transposed", {"perm": True}), ("missing dimension", {"drop": True}), ("mask not Boolean", {"mkind": "i"}),
                ("missing coordinate", {"nocoord": True})]
    for mesh in (False, True):
        for vn, v in variants:
            def t():
                E = c.E
                calls = []
                c.new_repo({"dask.base.is_dask_collection": lambda x: getattr(x, "_dask", True), "dask.is_dask_collection": lambda x: getattr(x, "_dask", True)})
                names = ("time", None, "ncells") if mesh else NM
                da, sz = grid(E, mesh, names, v.get("kind", "b"))
                if v.get("perm"):
                    da = da.transpose(*da.dims[::-1])
                if v.get("drop"):
                    da = da.isel({"lat": 0}) if not mesh else xrm.DA(sym_arr("a3", (*sz, 2), "b"), dims=(*da.dims, "extra"), coords=dict(da.coords))
                if v.get("nocoord"):
                    da = xrm.DA(da.arr, dims=da.dims, coords={k: w for k, w in da.coords.items() if k != "time"})
                if v.get("dask") is False:
                    da.__dict__["_nodask"] = True
                    da.arr._dask = False
                sp = sz[1:]
                mask = xrm.DA(sym_arr("mask", sp, v.get("mkind", "b")), dims=names[1:] if not mesh else ("ncells",), coords={k: w for k, w in da.coords.items() if k in ("lat", "lon") and all(d in names[1:] for d in w.dims)})
                q, a = opt("quartile", sym_real), opt("absolute", sym_int)
                if vn != "plain":
                    E.assume(And(*([z3.BoolVal(True)] + [And(x.e >= 0, x.e <= 1) for x in (q,) if x is not None])))
                    if q is not None and a is not None:
                        return
                Tf, Rf, ot = sym_int("T_fill"), sym_int("R_fill"), sym_real("overlap")
                res = opt("resolution", sym_real) if vn == "plain" else None
                am, nn = sym_bool("allow_merging"), sym_bool("nn_partitioning")
                kw = dict(R_fill=Rf, T_fill=Tf, area_filter_quartile=q, area_filter_absolute=a, allow_merging=am, nn_partitioning=nn, overlap_threshold=ot, grid_resolution=res, unstructured_grid=mesh)
                td = nb = ca = None
                if mesh:
                    kw["dimensions"] = {"time": "time", "x": "ncells"}
                    kw["coordinates"] = {"time": "time", "x": "lon", "y": "lat"}
                    if vn != "plain" or bool(sym_bool("temp_given")):
                        td = "scratch"
                    if vn != "plain" or bool(sym_bool("neigh_given")):
                        nb = xrm.DA(sym_arr("nb", (3, sz[1]), "i"), dims=("nv", "ncells"))
                    if vn != "plain" or bool(sym_bool("area_given")):
                        ca = xrm.DA(sym_arr("areas", (sz[1],), "f"), dims=("ncells",), coords={k: w for k, w in da.coords.items() if k in ("lat", "lon")})
                    kw.update(temp_dir=td, neighbours=nb, cell_areas=ca)
                elif vn == "plain" and bool(sym_bool("area_given")):
                    if bool(sym_bool("area_dims_right")):
                        ca = xrm.DA(sym_arr("areas", sp, "f"), dims=("lat", "lon"))
                        okd = True
                    else:
                        ca = xrm.DA(sym_arr("areas", sp[:1], "f"), dims=("lat",))
                        okd = False
                    kw["cell_areas"] = ca
                else:
                    okd = True
                regional = bool(sym_bool("regional")) if vn == "plain" else False
                kw.update(regional_mode=regional, coordinate_units="degrees")
                slf = Self(c.repo, T, "tracker", {}, {"_unify_coordinates": lambda: None, "_setup_unstructured_grid": lambda *a: calls.append(a), "_configure_warnings": lambda: None})
                d0 = dict(kw.get("dimensions") or {})
                _, ex = attempt(lambda: getattr(slf, "__init__", None) or slf._init(da, mask, **kw)) if False else attempt(lambda: c.repo.fn(T, "tracker.__init__")(slf, da, mask, **kw))
                some = zb(lift(npm.np.any(npm.np.asarray(mask.arr).astype(bool) if mask.arr._kind != "b" else mask.arr)))
                bad = [z3.BoolVal(vn in ("not Boolean", "not chunked", "mask not Boolean", "missing coordinate", "missing dimension")), z3.BoolVal(q is not None and a is not None), Tf.e % 2 != 0]
                if mask.arr._kind == "b":
                    bad.append(Not(some))
                if q is not None and a is None:
                    bad.append(Or(q.e < 0, q.e > 1))
                if a is not None and q is None:
                    bad.append(a.e <= 0)
                if res is not None:
                    bad.append(z3.BoolVal(True) if mesh else res.e <= 0)
                if mesh:
                    bad.append(z3.BoolVal(regional or td is None or nb is None or ca is None))
                else:
                    bad.append(z3.BoolVal(not okd))
                tag = f"{'mesh' if mesh else 'grid'}, {vn}"
                if ex is not None:
                    kinds = ("DataValidationError", "ConfigurationError") + (("NotImplementedError",) if mesh and regional else ()) + (("KeyError",) if vn in ("missing coordinate", "missing dimension") else ())
                    c.require(f"refused ({tag}) with the library's error", z3.BoolVal(type(ex).__name__ in kinds))
                    c.require(f"refused ({tag}): only outside the documented domain", Or(*bad))
                    return
                c.require(f"accepted ({tag}): inside the documented domain", Not(Or(*bad)))
                c.require(f"settings stored unchanged ({tag})", And(zi(slf.R_fill) == Rf.e, zi(slf.T_fill) == Tf.e, zr(slf.overlap_threshold) == ot.e, zb(lift(slf.allow_merging)) == am.e, zb(lift(slf.nn_partitioning)) == nn.e,
                                                                 z3.BoolVal(slf.unstructured_grid == mesh and slf.regional_mode == regional)))
                c.require(f"dimension order (time first) ({tag})", z3.BoolVal(slf.data_bin.dims == (("time", "ncells") if mesh else NM)))
                ix = {d: z3.Int("p_" + d) for d in da.dims}
                E.assume(And(*[inb(ix[d], da.sizes[d]) for d in da.dims]))
                c.require(f"data unchanged ({tag})", zb(slf.data_bin.get(**ix)) == zb(da.get(**ix)))
                c.require(f"mask unchanged ({tag})", zb(slf.mask.get(**{d: ix[d] for d in mask.dims})) == zb(mask.get(**{d: ix[d] for d in mask.dims})))
                A = slf.cell_area
                got = zr(A.get(**{d: ix[d] for d in A.dims}))
                if res is not None:
                    N = npm.np
                    lat = N.radians(da.coords["lat"].arr.get(ix["lat"]))
                    h = N.radians(res)
                    want = 6378.0 ** 2 * abs(N.sin(lat + h / 2) - N.sin(lat - h / 2)) * h
                    c.require(f"cell areas from the resolution: spherical strips ({tag})", got == zr(want))
                elif ca is not None:
                    c.require(f"cell areas as given ({tag})", got == zr(ca.get(**{d: ix[d] for d in ca.dims})))
                else:
                    c.require(f"unit cell areas by default ({tag})", got == 1)
                c.require(f"mesh set-up runs exactly on meshes ({tag})", z3.BoolVal(len(calls) == (1 if mesh else 0)))
            c.run(t)


# ------------------------------------------------------------------ P18/P09/P13: reported settings
STATS = ("total_area_IDed", "N_objects_prefiltered", "N_objects_filtered", "area_threshold", "accepted_area_fraction", "preprocessed_area_fraction")


@contract(["P18", "P09", "P13", "P15"], f"{T}.tracker.run_stats_attributes", rp_cfg, title="reported settings and totals")
def report(c):
    for merging in (True, False):
        def t():
            E = c.E
            c.new_repo({"builtins.print": lambda *a, **k: None})
            ids, _ = grid(E, False, kind="i")
            ds = xrm.DS({"ID_field": ids})
            nm = sym_int("nmerge")
            E.assume(nm.e >= 0)
            npar = sym_arr("npar", (nm,), "i")
            mg = xrm.DS({"n_parents": xrm.DA(npar, dims=("merge_ID",))}) if merging else xrm.DS()
            if merging:
                mg.coords["merge_ID"] = xrm.DA(sym_arr("mid", (nm,), "i"), dims=("merge_ID",))
            stats = tuple(sym_int(s) if s.startswith("N_") else sym_real(s) for s in STATS)
            E.assume(And(*[s.e >= 0 for s in stats]))
            N = sym_int("N_events")
            Rf, Tf, q, ot = sym_int("R_fill"), sym_int("T_fill"), sym_real("quartile"), sym_real("ot")
            nn = sym_bool("nn")
            slf = Self(c.repo, T, "tracker", {"allow_merging": merging, "R_fill": Rf, "T_fill": Tf, "area_filter_quartile": q, "overlap_threshold": ot, "nn_partitioning": nn, "data_attrs": {"keep": "me"},
                                              "timedim": "time", "verbose": None, "quiet": None}, {"_remap_coordinates": lambda d: d})
            r = slf.run_stats_attributes(ds, mg, stats, N)
            A = r.attrs
            tag = "merging" if merging else "no merging"
            c.require(f"counts, threshold and fractions as computed ({tag})", And(zi(A["N_objects_prefiltered"]) == stats[1].e, zi(A["N_objects_filtered"]) == stats[2].e, zr(A["area_threshold (cells)"]) == stats[3].e,
                      zr(A["accepted_area_fraction"]) == stats[4].e, zr(A["preprocessed_area_fraction"]) == stats[5].e))
            c.require(f"number of events ({tag})", zi(A["N_events_final"]) == N.e)
            c.require(f"settings as used ({tag})", And(zi(A["R_fill"]) == Rf.e, zi(A["T_fill"]) == Tf.e, zr(A["area_filter_quartile"]) == q.e, zi(A["allow_merging"]) == (1 if merging else 0)))
            c.require(f"input attributes inherited ({tag})", z3.BoolVal(A.get("keep") == "me"))
            ix = z3.Ints("p0 p1 p2")
            c.require(f"event field untouched ({tag})", zi(r["ID_field"].arr.get(*ix)) == zi(ids.arr.get(*ix)))
            if merging:
                want = core.mk_sum((nm,), lambda k: Sym(z3.If(npar.get(k).e > 2, z3.IntVal(1), z3.IntVal(0))))
                c.require(f"merge totals are the table's ({tag})", And(zi(A["total_merges"]) == nm.e, zr(lift(A["multi_parent_merges"])) == (z3.ToReal(want) if want.is_int() else want)))
                c.require(f"merge settings as used ({tag})", And(zr(A["overlap_threshold"]) == ot.e, zi(lift(A["nn_partitioning"])) == z3.If(nn.e, z3.IntVal(1), z3.IntVal(0))))
        c.run(t)


# ------------------------------------------------------------------ P19/P09: preprocessing and its checkpoint
class Disk:
    """The checkpoint files: what was written last under a name is what is read (assumed of zarr and npz)."""

    def __init__(self):
        self.f = {}

    def zarr(self, path, da):
        self.f[path] = xrm.DA(da.arr, dims=da.dims, coords=dict(da.coords), name=da.name, attrs=dict(da.attrs))

    def open_zarr(self, path, **k):
        if path not in self.f:
            raise FileNotFoundError(path)
        d = self.f[path]
        return xrm.DS({d.name: d})

    def savez(self, path, **kw):
        self.f[path] = dict(kw)

    def load(self, path, **k):
        return dict(self.f[path])


def rp_ck(tier):
    import sys, os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from rt.plan import plan
    return [[m, k, kw] for p in ("P19", "P09") for m, k, kw in plan(p, "quick", 1)]


@contract(["P19", "P09", "P18"], f"{T}.tracker.run_preprocess", rp_ck, title="preprocessing and checkpoint")
def preprocess(c):
    for merging_ck in (None, "None", "save", "load"):
        for where in ("argument", "setting"):
            for scratch in ("dir", None):
                def t():
                    E = c.E
                    disk = Disk()
                    log = []
                    c.new_repo({"time": npm_time, "dask.distributed.wait": lambda *a, **k: None})
                    da, sz = grid(E)
                    no = sym_int("nobj")
                    E.assume(no.e >= 1)
                    areas = xrm.DA(sym_arr("obj_area", (no,), "f", lambda x: x > 0), dims=("object",))
                    z0 = z3.Int("obj0")
                    E.point(z3.IntVal(0), dom=(no,))
                    thr = sym_real("thr")
                    n0, n1 = sym_int("n_pre"), sym_int("n_post")

                    def step(name):
                        def f(x, *a, **k):
                            if a or k:
                                raise Unsupported(f"{name} with further arguments")
                            out = xrm.DA(sym_arr(name, sz, "b"), dims=da.dims, coords=dict(da.coords))
                            log.append((name, x, out))
                            return out
                        return f

                    def filt(x):
                        out = step("filter_small_objects")(x)
                        return out, thr, areas, n0, n1

                    def area(x):
                        out = xrm.DA(sym_arr(f"area{len(log)}", (sz[0],), "f", lambda v: v >= 0), dims=("time",))
                        E.assume(zr(float_(out.sum())) > 0)
                        log.append(("compute_area", x, out))
                        return out
                    E.assume(zr(float_(areas.sum())) > 0)
                    ck_arg, ck_set = (merging_ck, None) if where == "argument" else (None, merging_ck)
                    xrm.DISK = disk
                    flds = {"checkpoint": ck_set, "scratch_dir": scratch, "timedim": "time", "timechunks": sym_int("tc"), "data_bin": da, "verbose": None, "quiet": None, "R_fill": 3, "T_fill": 2}
                    ms = {"fill_holes": step("fill_holes"), "fill_time_gaps": step("fill_time_gaps"), "filter_small_objects": filt, "compute_area": area}
                    tag = f"checkpoint={merging_ck} as {where}, directory {'given' if scratch else 'missing'}"
                    active = merging_ck in ("save", "load")
                    if merging_ck == "load" and scratch:
                        # what an earlier run with 'save' wrote
                        xrm.DISK = disk
                        s0 = Self(c.repo, T, "tracker", dict(flds, checkpoint=None), ms)
                        d1, st1 = s0.run_preprocess(checkpoint="save")
                        log.clear()
                    slf = Self(c.repo, T, "tracker", dict(flds, data_bin=da), ms)
                    r, ex = attempt(lambda: slf.run_preprocess(**({"checkpoint": ck_arg} if where == "argument" else {})))
                    c.require(f"refused iff a checkpoint has no directory ({tag})", z3.BoolVal((ex is not None) == (active and not scratch) and (ex is None or type(ex).__name__ == "ConfigurationError")))
                    if ex is not None:
                        return
                    d, st = r
                    ix = {k: z3.Int("p_" + k) for k in da.dims}
                    E.assume(And(*[inb(ix[k], s) for k, s in zip(da.dims, sz)]))
                    if merging_ck == "load":
                        c.require(f"loaded data are the saved run's ({tag})", zb(d.get(**ix)) == zb(d1.get(**ix)))
                        c.require(f"loaded statistics are the saved run's, in order ({tag})", z3.BoolVal(len(st) == len(st1)) if len(st) != len(st1) else And(*[zr(lift(x)) == zr(lift(y)) for x, y in zip(st, st1)]))
                        c.require(f"nothing is recomputed ({tag})", z3.BoolVal(not log))
                        return
                    chain = [(n, x) for n, x, o in log if n != "compute_area"]
                    outs = {n: o for n, x, o in log if n != "compute_area"}
                    c.require(f"hole filling, then gap filling, then the area filter, each once ({tag})", z3.BoolVal([n for n, _ in chain] == ["fill_holes", "fill_time_gaps", "filter_small_objects"]))
                    if [n for n, _ in chain] != ["fill_holes", "fill_time_gaps", "filter_small_objects"]:
                        return
                    fl = lambda x: zb(x.get(**ix))
                    c.require(f"each step takes the previous one's result ({tag})", And(fl(chain[0][1]) == fl(da), fl(chain[1][1]) == fl(outs["fill_holes"]), fl(chain[2][1]) == fl(outs["fill_time_gaps"])))
                    c.require(f"the filtered field is returned ({tag})", zb(d.get(**ix)) == fl(outs["filter_small_objects"]))
                    ars = {id(x): None for n, x, o in log if n == "compute_area"}
                    raw = [o for n, x, o in log if n == "compute_area" and x is da]
                    pro = [o for n, x, o in log if n == "compute_area" and x is not da]
                    ok = len(raw) >= 1 and len(pro) >= 1
                    c.require(f"areas of the raw and the processed field are measured ({tag})", z3.BoolVal(ok))
                    if not ok:
                        return
                    px = [x for n, x, o in log if n == "compute_area" and x is not da][0]
                    c.require(f"the processed area is that of the returned field ({tag})", fl(px) == zb(d.get(**ix)))
                    tot = zr(float_(areas.sum()))
                    acc = zr(float_(areas.where(areas >= thr, other=0.0).sum()))
                    want = (tot, n0.e, n1.e, thr.e, acc / tot, zr(float_(raw[0].sum())) / zr(float_(pro[0].sum())))
                    c.require(f"six statistics ({tag})", z3.BoolVal(len(st) == 6))
                    for k, (nm, w) in enumerate(zip(STATS, want)):
                        c.require(f"statistic {nm} ({tag})", zr(lift(st[k])) == (z3.ToReal(w) if w.is_int() else w))
                c.run(t)


class _Time:
    sleep = staticmethod(lambda *a: None)
    time = staticmethod(lambda: 0.0)
    perf_counter = time


npm_time = _Time()


def rp_region(tier):
    from .c07 import _plan
    return _plan("P16", "P18")


@contract(["P16", "P18"], f"{T}.regional_tracker", rp_region, title="regional tracker")
def regional(c):
    """A regional tracker is a tracker with regional mode on and otherwise exactly the caller's settings."""
    for extra in ({}, {"T_fill": sym_int("T_fill"), "overlap_threshold": sym_real("thr")}, {"allow_merging": False, "nn_partitioning": True, "coordinates": {"x": "a"}}):
        for filt in ({}, {"area_filter_quartile": sym_real("q")}, {"area_filter_absolute": sym_int("a")}):
            def t():
                got = []
                sig = c.repo.sig(T, "tracker.__init__")

                def made(*a, **k):
                    b = sig.bind(None, *a, **k)
                    b.apply_defaults()
                    got.append(dict(b.arguments))
                    return "the tracker"
                dflt = {n: p.default for n, p in sig.parameters.items()}
                c.new_repo(None, {(T, "tracker"): made})
                data, mask, R = object(), object(), sym_int("R")
                r = c.repo.fn(T, "regional_tracker")(data, mask, "degrees", R, **filt, **extra)
                want = {k: v for k, v in dflt.items() if k != "self"}
                want.update(extra)
                want.update(filt)
                want.update(data_bin=data, mask=mask, R_fill=R, coordinate_units="degrees", regional_mode=True)
                tag = f"{'/'.join(filt) or 'no filter'}, {'/'.join(extra) or 'no more settings'}"
                c.require(f"one tracker is made and returned ({tag})", z3.BoolVal(len(got) == 1 and r == "the tracker"))
                if len(got) != 1:
                    return
                g = got[0]
                for k, v in want.items():
                    c.require(f"{k} as given ({tag})", z3.BoolVal(g.get(k) is v or (not isinstance(v, Sym) and not isinstance(g.get(k), Sym) and g.get(k) == v)))
            c.run(t)
