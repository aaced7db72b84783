"""P01, P02, P03, P06: thresholds, flags and refusals of detect.py."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, same, is_repo_error
from ..core import sym_int, sym_real, sym_bool, sym_xreal, Unsupported, nanb, infi, mk_red, mk_sum
from .. import core, npm, xrm
from ..arr import Arr, sym_arr, inb
from ..loop import Spec
D = "marEx.detect"
GRIDS = {"gridded": (("time", "lat", "lon"), {"time": "time", "y": "lat", "x": "lon"}),
         "renamed": (("tt", "yy", "xx"), {"time": "tt", "y": "yy", "x": "xx"}),
         "transposed": (("lon", "time", "lat"), {"time": "time", "y": "lat", "x": "lon"}),
         "mesh": (("time", "ncells"), {"time": "time", "x": "ncells"})}


def data(E, grid, kind="x", name="a"):
    """An arbitrary input field with its coordinates."""
    dims, dm = GRIDS[grid]
    nt, ny, nx = sym_int("nt"), sym_int("ny"), sym_int("nx")
    E.assume(And(nt.e >= 1, ny.e >= 1, nx.e >= 1))
    sz = {dm["time"]: nt, dm["x"]: nx}
    if "y" in dm:
        sz[dm["y"]] = ny
    tv = sym_arr("timevalue", (nt,), "i")
    cs = {dm["time"]: (dm["time"], tv)}
    cd = {"time": dm["time"], "x": dm["x"] if "y" in dm else "lon", "y": dm.get("y", "lat")}
    cs[cd["x"]] = (dm["x"], sym_arr("xc", (nx,), "f"))
    cs[cd["y"]] = (dm["y"] if "y" in dm else dm["x"], sym_arr("yc", (ny if "y" in dm else nx,), "f"))
    sz = {d: sz[d] for d in dims}
    a = sym_arr(name, [sz[d] for d in dims], kind)
    da = xrm.DA(a, dims=dims, coords=cs, name="thing")
    return da, dm, cd, sz


def cell(E, dm, sz, tag=""):
    """An arbitrary point (bound variables of the postcondition)."""
    ix = {}
    for k, d in dm.items():
        v = z3.Int(f"p{k}{tag}")
        E.assume(inb(v, sz[d]))
        E.point(v, dom=(sz[d],))
        ix[d] = v
    for ds in (list(sz), [d for d in sz if d != dm["time"]]):
        E.point(*[ix[d] for d in ds])
    return ix


def fin(v):
    return And(Not(nanb(v)), infi(v) == 0)


def attempt(fn):
    try:
        return fn(), None
    except Exception as ex:
        if not is_repo_error(ex):
            raise
        return None, ex


# ------------------------------------------------------------------ P06
def rp_refuse(tier):
    return [["det", "case_refuse_data", dict(where=w, value=v, grid=g)] for g in ("gridded", "mesh") for v in ("nan", "inf", "-inf") for w in ("mid", "last", "one", "none")] + \
           [["det", "case_refuse_data", dict(first_all=True, grid=g)] for g in ("gridded", "mesh")] + [["det", "case_refuse_data", dict(masked_change=True, grid=g)] for g in ("gridded", "mesh")]


@contract(["P06"], f"{D}._validate_data_values", rp_refuse, title="data validation")
def validate_values(c):
    """returns iff some cell is finite at t=0 and no cell finite at t=0 ever has a missing or infinite value; otherwise DataValidationError."""
    for grid in ("gridded", "mesh", "renamed"):
        def t():
            E = c.E
            da, dm, cd, sz = data(E, grid)
            f = c.repo.fn(D, "_validate_data_values")
            p = cell(E, dm, sz)
            r, ex = attempt(lambda: f(da, dm))
            at = lambda ix: da.get(**ix)
            p0 = dict(p, **{dm["time"]: z3.IntVal(0)})
            if ex is None:
                c.require(f"accepted ({grid}): a cell valid at the first step has only finite values", z3.Implies(fin(at(p0)), fin(at(p))))
                c.require(f"accepted ({grid}): some cell is valid at the first step", npm.np.any(xrm._arr(da.isel({dm["time"]: 0})._map(lambda v: Sym(fin(v)), "b"))))
            else:
                c.require(f"refused ({grid}) with DataValidationError", z3.BoolVal(type(ex).__name__ == "DataValidationError"))
                first = da.isel({dm["time"]: 0})._map(lambda v: Sym(fin(v)), "b")
                bad = da._map(lambda v: Sym(Not(fin(v))), "b")
                both = bad.any(dm["time"]) & first
                c.require(f"refused ({grid}): nothing valid at the first step, or a valid cell with a bad value later",
                          Or(Not(npm.np.any(first.arr).e), npm.np.any(both.arr).e))
        c.run(t)


def rp_cfg(tier):
    import sys, os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from rt.plan import plan
    return [[m, k, kw] for m, k, kw in plan("P06", "quick", 1) if k == "case_refuse_config"]


def opt_int(E, name):
    """None or an arbitrary integer."""
    if bool(sym_bool(name + "_given")):
        return sym_int(name)
    return None


@contract(["P06"], f"{D}.identify_extremes", rp_cfg, title="option refusals")
def refusals(c):
    """identify_extremes raises ConfigurationError iff the option combination is one it cannot honour; otherwise exactly one of the two methods runs, with the caller's options."""
    for grid in ("gridded", "mesh"):
        def t():
            E = c.E
            calls = []

            def rec(name):
                def f(*a, **k):
                    calls.append((name, a, k))
                    return name, name
                return f
            c.new_repo(None, {(D, "_identify_extremes_constant"): rec("global_extreme"), (D, "_identify_extremes_hobday"): rec("hobday_extreme")})
            da, dm, cd, sz = data(E, grid)
            me, mp = core.sym_str("method_extreme"), core.sym_str("method_percentile")
            pct, prec, mx = sym_real("pct"), sym_real("precision"), sym_real("max_anomaly")
            wd, ws = sym_int("wd"), opt_int(E, "ws")
            E.assume(And(wd.e >= 1, ws.e >= 1 if ws is not None else True))
            f = c.repo.fn(D, "identify_extremes")
            r, ex = attempt(lambda: f(da, method_extreme=me, threshold_percentile=pct, dimensions=dict(dm), coordinates=dict(cd), window_days_hobday=wd, window_spatial_hobday=ws,
                                      method_percentile=mp, precision=prec, max_anomaly=mx))
            S = lambda a, b: zb(a == b)
            exact, approx, hob, glo = S(mp, "exact"), S(mp, "approximate"), S(me, "hobday_extreme"), S(me, "global_extreme")
            bad = Or(Not(Or(exact, approx)), Not(Or(hob, glo)), And(exact, Or(prec.e != z3.RealVal("0.01"), mx.e != 5)), And(approx, pct.e < 60), And(hob, wd.e % 2 == 0))
            if ws is not None:
                bad = Or(bad, z3.BoolVal(grid == "mesh"), Not(hob), exact, And(hob, ws.e % 2 == 0))
            tag = f"{grid}, spatial window {'given' if ws is not None else 'left out'}"
            if ex is not None:
                c.require(f"refused ({tag}) with ConfigurationError", z3.BoolVal(type(ex).__name__ == "ConfigurationError"))
                c.require(f"refused ({tag}): only what cannot be honoured", bad)
                return
            c.require(f"accepted ({tag}): nothing that cannot be honoured", Not(bad))
            c.require(f"accepted ({tag}): exactly one method runs", z3.BoolVal(len(calls) == 1))
            if len(calls) != 1:
                return
            name, a, k = calls[0]
            c.require(f"accepted ({tag}): the requested method runs", S(me, name))
            sig = c.repo.sig(D, "_identify_extremes_constant" if name == "global_extreme" else "_identify_extremes_hobday")
            b = sig.bind(*a, **k)
            b.apply_defaults()
            g = b.arguments
            ok = [z3.BoolVal(g["da"] is da), zr(g["threshold_percentile"]) == pct.e, zr(g["precision"]) == prec.e, zr(g["max_anomaly"]) == mx.e, zb(g["method_percentile"] == mp)]
            c.require(f"accepted ({tag}): data, percentile and precision reach the method", And(*ok))
            if name == "hobday_extreme":
                c.require(f"accepted ({tag}): the window options reach the method", And(zi(g["window_days_hobday"]) == wd.e,
                          zi(g["window_spatial_hobday"]) == ws.e if ws is not None else z3.BoolVal(g["window_spatial_hobday"] == (5 if grid == "gridded" else None))))
        c.run(t)


@contract(["P06"], f"{D}._infer_dims_coords", rp_cfg, title="dimension and coordinate names")
def names(c):
    """missing dimensions, missing coordinates and mesh data without coordinate names are refused; otherwise the given names are returned, time defaulted."""
    ALL = {"time": "time", "y": "lat", "x": "lon"}
    for have in (("time", "lat", "lon"), ("time", "lon"), ("tt", "lat", "lon"), ("time", "ncells")):
        for dims in (None, {"x": "lon", "y": "lat"}, {"time": "tt", "x": "lon", "y": "lat"}, {"x": "ncells"}, {"time": "time", "x": "lon"}, {"x": "lon", "y": "nope"}):
            for coords in (None, {"x": "lon", "y": "lat"}, {"time": "tt", "x": "lon", "y": "lat"}, {"x": "c9", "y": "lat"}):
                def t():
                    E = c.E
                    n = [sym_int(f"n{i}") for i in range(len(have))]
                    for k in n:
                        E.assume(k.e >= 1)
                    extra = {} if have[-1] != "ncells" else {"lon": ("ncells", sym_arr("lo", (n[-1],), "f")), "lat": ("ncells", sym_arr("la", (n[-1],), "f"))}
                    cs = {d: (d, sym_arr("c" + d, (k,), "f")) for d, k in zip(have, n) if d != "ncells"}
                    da = xrm.DA(sym_arr("a", n, "f"), dims=have, coords=dict(cs, **extra), name="v")
                    d0 = dict(dims) if dims is not None else None
                    c0 = dict(coords) if coords is not None else None
                    r, ex = attempt(lambda: c.repo.fn(D, "_infer_dims_coords")(da, dims, coords))
                    wd = dict(ALL) if dims is None else {"time": "time", **dims}
                    wc = None if coords is None and "y" not in wd else dict(wd) if coords is None else {"time": wd["time"], **coords}
                    bad = wc is None or any(v not in have for v in wd.values()) or any(v not in da.coords for v in wc.values())
                    nm = f"have={'/'.join(have)} dims={dims} coords={coords}"
                    c.require(f"refused iff a name is missing [{nm}]", z3.BoolVal((ex is not None) == bad and (ex is None or type(ex).__name__ == "DataValidationError")))
                    if ex is None:
                        c.require(f"names returned [{nm}]", z3.BoolVal(dict(r[0]) == wd and dict(r[1]) == wc))
                    c.require(f"caller's dictionaries untouched [{nm}]", z3.BoolVal((dims is None or dict(dims) == d0) and (coords is None or dict(coords) == c0)))
                c.run(t)


# ------------------------------------------------------------------ P01 / P02 / P03
def rp_flags(tier):
    return [["det", "case_flags", dict(kind=k, seed=s, method=m, mp=mp, grid=g, nt=760)] for s in range(2) for k in ("ties", "normal") for m in ("global_extreme", "hobday_extreme")
            for mp in ("exact", "approximate") for g in ("gridded", "mesh")]


def rp_const(tier):
    return [["det", "case_const_threshold", dict(seed=s, pct=p, grid=g)] for s in range(4) for p in (30, 60, 95) for g in ("gridded", "mesh")]


def thr_field(E, dm, sz, extra=()):
    """An arbitrary threshold field, as a quantile routine may return it (missing values included)."""
    dims = [d for d in sz if d != dm["time"]] + [n for n, _ in extra]
    return xrm.DA(sym_arr("thr", [sz[d] for d in dims if d in sz] + [k for _, k in extra], "x"), dims=dims, lab={n: z3.IntVal(1) for n, _ in extra},
                  coords={n: None for n, _ in extra})


@contract(["P01", "P02"], f"{D}._identify_extremes_constant", rp_flags, title="constant threshold flags")
def const_flags(c):
    """extreme(t, cell) iff anomaly(t, cell) >= threshold(cell), the returned threshold; the exact threshold is the requested percentile of the cell's own series."""
    for grid in ("gridded", "mesh", "renamed", "transposed"):
        for mp in ("exact", "approximate"):
            def t():
                E = c.E
                got = []
                da, dm, cd, sz = data(E, grid)

                def hq(*a, **k):
                    b = sig.bind(*a, **k)
                    b.apply_defaults()
                    got.append(b.arguments)
                    return thr_field(E, dm, sz)
                sig = c.repo.sig(D, "_compute_histogram_quantile_1d")
                c.new_repo(None, {(D, "_compute_histogram_quantile_1d"): hq})
                pct, prec, mx = sym_real("pct"), sym_real("precision"), sym_real("max_anomaly")
                ext, thr = c.repo.fn(D, "_identify_extremes_constant")(da, pct, mp, dm, prec, mx)
                p = cell(E, dm, sz)
                a = da.get(**p)
                q = thr.get(**{d: p[d] for d in thr.dims})
                tag = f"{grid}, {mp}"
                c.require(f"one threshold per cell ({tag})", z3.BoolVal(set(thr.dims) == {d for d in sz if d != dm["time"]} and set(ext.dims) == set(sz)))
                c.require(f"flag iff anomaly >= own threshold ({tag})", zb(ext.get(**p)) == And(Not(nanb(a)), Not(nanb(q)), zb(a >= q)))
                if mp == "exact":
                    e = mk_red("quantile", [zr(pct) / 100], (sz[dm["time"]],), lambda t: (z3.BoolVal(True), da.get(**dict(p, **{dm["time"]: t}))))
                    c.require(f"threshold is the requested percentile of the cell's series ({tag})", And(nanb(q) == nanb(e), z3.Implies(Not(nanb(q)), zr(q) == zr(e))))
                else:
                    g = got[0]
                    c.require(f"the quantile routine gets this field, this percentile and these bins ({tag})", And(z3.BoolVal(len(got) == 1 and g["da"] is da and g["dim"] == dm["time"] and g["bin_edges"] is None),
                              zr(g["q"]) == zr(pct) / 100, zr(g["precision"]) == prec.e, zr(g["max_anomaly"]) == mx.e))
            c.run(t)


@contract(["P01", "P03"], f"{D}._identify_extremes_hobday", rp_flags, title="day-of-year threshold flags")
def hobday_flags(c):
    """extreme(t, cell) iff anomaly >= threshold(cell, day of year of t)."""
    for grid in ("gridded", "mesh", "transposed"):
        for ck in (False, True):
            def t():
                E = c.E
                got = []
                da, dm, cd, sz = data(E, grid)
                sig = c.repo.sig(D, "_compute_histogram_quantile_2d")

                def hq(*a, **k):
                    b = sig.bind(*a, **k)
                    b.apply_defaults()
                    got.append(b.arguments)
                    return thr_field(E, dm, sz, [("dayofyear", 366)])
                c.new_repo(None, {(D, "_compute_histogram_quantile_2d"): hq, (D, "checkpoint_to_zarr"): lambda x, *a, **k: x})
                pct, prec, mx = sym_real("pct"), sym_real("precision"), sym_real("max_anomaly")
                wd = sym_int("wd")
                E.assume(wd.e >= 1)
                ws = opt_int(E, "ws")
                ext, thr = c.repo.fn(D, "_identify_extremes_hobday")(da, pct, wd, ws, "approximate", dm, cd, prec, mx, ck)
                p = cell(E, dm, sz)
                tag = f"{grid}{', checkpointed' if ck else ''}"
                c.require(f"one threshold per cell and day of year ({tag})", z3.BoolVal(set(thr.dims) == {d for d in sz if d != dm["time"]} | {"dayofyear"} and set(ext.dims) == set(sz)))
                a = da.get(**p)
                doy = xrm.DOY(da.coords[dm["time"]].arr.get(p[dm["time"]]).e)
                q = thr.get(**{d: (p[d] if d != "dayofyear" else doy - 1) for d in thr.dims})
                c.require(f"flag iff anomaly >= the threshold of its own cell and day of year ({tag})", zb(ext.get(**p)) == And(Not(nanb(a)), Not(nanb(q)), zb(a >= q)))
                g = got[0]
                c.require(f"the quantile routine gets this percentile, window and precision ({tag})",
                          And(z3.BoolVal(len(got) == 1 and g["bin_edges"] is None and (g["window_spatial_hobday"] is None) == (ws is None)), zi(g["window_days_hobday"]) == wd.e,
                              zr(g["q"]) == zr(pct) / 100, zr(g["precision"]) == prec.e, zr(g["max_anomaly"]) == mx.e, zi(g["window_spatial_hobday"]) == ws.e if ws is not None else True))
                same_data = g["da"].get(**p)
                c.require(f"the quantile routine gets this field with its day of year ({tag})", And(core.same(lift(same_data), lift(a)), zi(g["da"].coords["dayofyear"].arr.get(p[dm["time"]])) == doy))
            c.run(t)


def rp_doy(tier):
    return [["det", "case_doy_threshold", dict(seed=s, kind="skew", wd=w, mp="exact", grid=g, stride=29, nt=800)] for s in range(2) for w in (3, 11) for g in ("gridded", "mesh")]


@contract(["P03", "P01"], f"{D}._identify_extremes_hobday", rp_doy, title="exact day-of-year threshold")
def hobday_exact(c):
    """threshold(cell, d) = the requested percentile of the cell's values within window//2 steps of any time whose day of year is d (missing ones skipped)."""
    for grid in ("gridded", "mesh"):
        def t():
            E = c.E
            da, dm, cd, sz = data(E, grid)
            pct = sym_real("pct")
            wd = sym_int("wd")
            E.assume(And(wd.e >= 1, wd.e % 2 == 1))
            ext, thr = c.repo.fn(D, "_identify_extremes_hobday")(da, pct, wd, None, "exact", dm, cd)
            p = cell(E, dm, sz)
            T = dm["time"]
            d = z3.Int("doy")
            E.assume(And(d >= 1, d <= 366))
            q = thr.get(**{k: (p[k] if k != "dayofyear" else (d if thr.lab["dayofyear"] is None else d - thr.lab["dayofyear"])) for k in thr.dims})
            tv = da.coords[T].arr
            h = wd.e / 2

            def fn(w, t):
                s = t + w - h
                v = da.get(**dict(p, **{T: s}))
                return And(xrm.DOY(tv.get(t).e) == d, s >= 0, s < zi(sz[T])), v
            e = mk_red("nanpercentile", [zr(pct)], (wd, sz[T]), fn)
            c.require(f"pool of the percentile ({grid})", And(nanb(q) == nanb(e), z3.Implies(Not(nanb(q)), zr(q) == zr(e))))
            a = da.get(**p)
            doy = xrm.DOY(tv.get(p[T]).e)
            q2 = thr.get(**{k: (p[k] if k != "dayofyear" else (doy if thr.lab["dayofyear"] is None else doy - thr.lab["dayofyear"])) for k in thr.dims})
            c.require(f"flag iff anomaly >= own threshold (exact, {grid})", zb(ext.get(**p)) == And(Not(nanb(a)), Not(nanb(q2)), zb(a >= q2)))
        c.run(t)
