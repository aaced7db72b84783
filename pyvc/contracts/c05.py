"""P01-P06: the detection pipeline (preprocess_data) and the choice of anomaly method."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, same, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported, nanb
from .. import core, npm, xrm, arr
from ..arr import Arr, sym_arr, inb
from .c01 import D, GRIDS, data, cell, fin, attempt
from .c04 import rp_det, rp_shift, eqv, data_f, year
from .c07 import _plan

def rp_pipe(tier): return _plan("P06", "P01", "P05", "P04")
METHODS = {"detrend_harmonic": "_compute_anomaly_detrended", "shifting_baseline": "_compute_anomaly_shifting_baseline",
           "fixed_baseline": "_compute_anomaly_fixed_baseline", "detrend_fixed_baseline": "_compute_anomaly_detrend_fixed_baseline"}


@contract(["P04", "P05", "P06"], f"{D}.compute_normalised_anomaly", rp_pipe, title="choice of anomaly method")
def dispatch(c):
    """Exactly the requested method runs, on the caller's data with the caller's options; any other method name is refused."""
    def t():
        E = c.E
        calls = []

        def rec(name):
            def f(*a, **k):
                calls.append((name, a, k))
                return name
            return f
        c.new_repo(None, {(D, f): rec(f) for f in METHODS.values()})
        da, dm, cd, sz = data_f(E, "gridded")
        ma = core.sym_str("method_anomaly")
        wy, sd = sym_int("wy"), sym_int("sd")
        std, zm = sym_bool("std"), sym_bool("zm")
        orders = [1, 3]
        r, ex = attempt(lambda: c.repo.fn(D, "compute_normalised_anomaly")(da, method_anomaly=ma, dimensions=dict(dm), coordinates=dict(cd), window_year_baseline=wy, smooth_days_baseline=sd,
                                                                             std_normalise=std, detrend_orders=orders, force_zero_mean=zm))
        known = Or(*[zb(ma == m) for m in METHODS])
        if ex is not None:
            c.require("refused: only unknown methods, as ConfigurationError", And(z3.BoolVal(type(ex).__name__ == "ConfigurationError"), Not(known)))
            return
        c.require("accepted: only known methods", known)
        c.require("exactly one method runs and its result is returned", z3.BoolVal(len(calls) == 1 and r == calls[0][0]))
        if len(calls) != 1:
            return
        name, a, k = calls[0]
        c.require("the requested method runs", And(*[z3.Implies(zb(ma == m), z3.BoolVal(f == name)) for m, f in METHODS.items()]))
        b = c.repo.sig(D, name).bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        ok = [z3.BoolVal(g["da"] is da), z3.BoolVal(dict(g["dimensions"]) == dict(dm) and dict(g["coordinates"]) == dict(cd))]
        if "std_normalise" in g:
            ok.append(zb(g["std_normalise"]) == std.e)
        if name in (METHODS["detrend_harmonic"], METHODS["detrend_fixed_baseline"]):
            ok += [z3.BoolVal(list(g["detrend_orders"]) == [1, 3]), zb(g["force_zero_mean"]) == zm.e]
        if name == METHODS["detrend_harmonic"]:
            ok.append(z3.BoolVal(g.get("remove_harmonics", True) is True))
        if name == METHODS["shifting_baseline"]:
            ok += [zi(g["window_year_baseline"]) == wy.e, zi(g["smooth_days_baseline"]) == sd.e]
        c.require("data and options reach the method", And(*ok))
    c.run(t)


class _Dask:
    """dask settings change no value"""
    class config:
        set = staticmethod(lambda *a, **k: _Ctx())
    persist = staticmethod(lambda *a, **k: a)
    compute = staticmethod(lambda *a, **k: a)


class _Ctx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contract(["P01", "P02", "P03", "P04", "P05", "P06"], f"{D}.preprocess_data", rp_pipe, title="detection pipeline")
def pipeline(c):
    """The data are validated, the anomalies are those of the requested method, the years without a full shifting baseline are dropped and only those, the flags and
    thresholds returned are those identified in the returned anomalies (and in the standardised ones) with the caller's options; inputs that cannot be honoured are refused."""
    for grid in ("gridded", "mesh", "renamed"):
        for ma in METHODS:
            for me in ("global_extreme", "hobday_extreme"):
                if grid != "gridded" and (ma, me) not in (("shifting_baseline", "hobday_extreme"), ("detrend_harmonic", "global_extreme")):
                    continue
                def t():
                    E = c.E
                    log = []
                    da, dm, cd, sz = data_f(E, grid)
                    T = dm["time"]
                    dask = bool(sym_bool("is_dask"))
                    std = bool(sym_bool("std")) if ma == "detrend_harmonic" else False
                    sp = [d for d in sz if d != T]
                    anom = xrm.DA(sym_arr("anom", [sz[d] for d in da.dims], "f"), dims=da.dims, coords=dict(da.coords))
                    stn = xrm.DA(sym_arr("stn", [sz[d] for d in da.dims], "f"), dims=da.dims, coords=dict(da.coords))
                    mask = xrm.DA(sym_arr("maskv", [sz[d] for d in sp], "b"), dims=tuple(sp), coords={k: v for k, v in da.coords.items() if T not in v.dims})
                    s_an, s_ex = c.repo.sig(D, "compute_normalised_anomaly"), c.repo.sig(D, "identify_extremes")
                    outs = []

                    def an(*a, **k):
                        b = s_an.bind(*a, **k)
                        b.apply_defaults()
                        log.append(("anomaly", b.arguments))
                        return xrm.DS(dict({"dat_anomaly": anom, "mask": mask}, **({"dat_stn": stn} if std else {})))

                    def idx(*a, **k):
                        b = s_ex.bind(*a, **k)
                        b.apply_defaults()
                        log.append(("extremes", b.arguments))
                        x = b.arguments["da"]
                        n = len(outs)
                        e = xrm.DA(sym_arr(f"ext{n}", [x.sizes[d] for d in x.dims], "b"), dims=x.dims, coords=dict(x.coords))
                        tc = {k: v for k, v in x.coords.items() if T not in v.dims}
                        if me == "global_extreme":
                            th = xrm.DA(sym_arr(f"thr{n}", [x.sizes[d] for d in sp], "f"), dims=tuple(sp), coords=tc)
                        else:
                            th = xrm.DA(sym_arr(f"thr{n}", [366] + [x.sizes[d] for d in sp], "f"), dims=("dayofyear",) + tuple(sp), coords=tc)
                        outs.append((e, th))
                        return e, th

                    def val(*a, **k):
                        log.append(("validate", a, k))

                    nop = lambda *a, **k: None
                    c.new_repo({"dask.is_dask_collection": lambda x: dask, "dask.base.is_dask_collection": lambda x: dask, "dask.persist": lambda *a, **k: a,
                                "dask": _Dask()},
                               {(D, "compute_normalised_anomaly"): an, (D, "identify_extremes"): idx, (D, "_validate_data_values"): val, (D, "log_timing"): lambda *a, **k: _Ctx(),
                                (D, "log_memory_usage"): nop, (D, "log_dask_info"): nop, (D, "configure_logging"): nop, (D, "fix_dask_tuple_array"): lambda x: x})
                    pct, prec, mx = sym_real("pct"), sym_real("precision"), sym_real("max_anomaly")
                    wy, sd, wd = sym_int("wy"), sym_int("sd"), sym_int("wd")
                    mp = core.sym_str("mp")
                    zm = bool(sym_bool("zm"))
                    E.assume(wy.e >= 1)
                    y = lambda k: year(da, dm, k)
                    f = c.repo.fn(D, "preprocess_data")
                    r, ex = attempt(lambda: f(da, method_anomaly=ma, method_extreme=me, threshold_percentile=pct, window_year_baseline=wy, smooth_days_baseline=sd, window_days_hobday=wd,
                                              window_spatial_hobday=None, std_normalise=std, detrend_orders=[1, 2], force_zero_mean=zm, method_percentile=mp, precision=prec, max_anomaly=mx,
                                              dimensions=dict(dm), coordinates=dict(cd)))
                    tag = f"{grid}, {ma}, {me}{', standardised' if std else ''}"
                    if ex is not None:
                        names = [l[0] for l in log]
                        c.require(f"refused only without dask or with too short a record ({tag})", z3.BoolVal(type(ex).__name__ == "DataValidationError" and ((not dask and not log) or (dask and ma == "shifting_baseline" and names == ["validate", "anomaly"]))))
                        if dask:
                            c.require(f"refused: the record is shorter than the baseline ({tag})", zi(lift(da.coords[T].dt.year.max().item())) - zi(lift(da.coords[T].dt.year.min().item())) + 1 < wy.e)
                        return
                    c.require(f"in-memory data are refused ({tag})", z3.BoolVal(dask))
                    names = [l[0] for l in log]
                    want = ["validate", "anomaly", "extremes"] + (["extremes"] if std else [])
                    c.require(f"validation, anomaly, extremes (and those of the standardised anomaly) ({tag})", z3.BoolVal(names == want))
                    if names != want:
                        return
                    p = cell(E, dm, sz)
                    v = log[0]
                    c.require(f"the caller's data are validated ({tag})", eqv(v[1][0].get(**p), da.get(**p)))
                    g = log[1][1]
                    c.require(f"anomalies are of the caller's data with the caller's options ({tag})", And(eqv(g["da"].get(**p), da.get(**p)), z3.BoolVal(g["method_anomaly"] == ma and list(g["detrend_orders"]) == [1, 2] and
                              bool(g["std_normalise"]) == std and g["force_zero_mean"] is zm and dict(g["dimensions"]) == dict(dm) and dict(g["coordinates"]) == dict(cd)), zi(g["window_year_baseline"]) == wy.e, zi(g["smooth_days_baseline"]) == sd.e))
                    for n, (nm, src) in enumerate([("dat_anomaly", anom)] + ([("dat_stn", stn)] if std else [])):
                        h = log[2 + n][1]
                        c.require(f"options reach the identification in {nm} ({tag})", And(z3.BoolVal(h["method_extreme"] == me and h["window_spatial_hobday"] is None and dict(h["dimensions"]) == dict(dm) and dict(h["coordinates"]) == dict(cd)),
                                  zr(h["threshold_percentile"]) == pct.e, zi(h["window_days_hobday"]) == wd.e, zb(h["method_percentile"] == mp), zr(h["precision"]) == prec.e, zr(h["max_anomaly"]) == mx.e))
                        x = h["da"]
                        q = dict(p)
                        tq = z3.Int(f"tq{n}")
                        E.assume(inb(tq, x.sizes[T]))
                        E.point(tq, dom=(x.sizes[T],))
                        q[T] = tq
                        got = r[nm]
                        c.require(f"the flags are identified in the returned {nm} ({tag})", And(zi(x.sizes[T]) == zi(got.sizes[T]), eqv(x.get(**q), got.get(**q))))
                        e, th = outs[n]
                        sfx = "" if n == 0 else "_stn"
                        c.require(f"the flags returned are those identified in {nm} ({tag})", zb(r["extreme_events" + sfx].get(**q)) == zb(e.get(**q)))
                        qs = {d: p[d] for d in sp}
                        if me != "global_extreme":
                            dd = z3.Int("dday")
                            E.assume(inb(dd, 366))
                            qs["dayofyear"] = dd
                        c.require(f"the thresholds returned are those identified in {nm} ({tag})", eqv(r["thresholds" + sfx].get(**qs), th.get(**qs)))
                    ms = {d: p[d] for d in sp}
                    c.require(f"the mask is the anomaly method's ({tag})", zb(r["mask"].get(**ms)) == zb(mask.get(**ms)))
                    x = r["dat_anomaly"]
                    tm = lambda k: x.coords[T].arr.get(k).e
                    if ma != "shifting_baseline":
                        c.require(f"no step is dropped ({tag})", And(zi(x.sizes[T]) == sz[T].e, eqv(x.get(**p), anom.get(**p)), tm(p[T]) == da.coords[T].arr.get(p[T]).e))
                    else:
                        ccs = [cc for cc, _ in E.ghost.get("comps", {}).values() if len(cc.dom) == 1 and E.provable(zi(cc.n) == zi(x.sizes[T])) and E.provable(zi(cc.dom[0]) == sz[T].e)]
                        if len(ccs) != 1:
                            raise Unsupported("how the steps without a baseline are dropped")
                        cc = ccs[0]
                        y0 = zi(lift(da.coords[T].dt.year.min().item()))
                        c.require(f"kept: exactly the steps with a full baseline before them ({tag})", cc.mask(p[T]) == (y(p[T]) >= y0 + wy.e))
                        k = z3.Int("kk")
                        E.assume(inb(k, x.sizes[T]))
                        E.point(k, dom=(x.sizes[T],))
                        src = cc.pos(k)[0]
                        c.require(f"kept steps are the input's, with their times ({tag})", And(eqv(x.get(**dict(p, **{T: k})), anom.get(**dict(p, **{T: src}))), tm(k) == da.coords[T].arr.get(src).e))
                        y1 = zi(lift(da.coords[T].dt.year.max().item()))
                        c.require(f"accepted: the record is at least as long as the baseline ({tag})", y1 - y0 + 1 >= wy.e)
                c.run(t)


DEC = z3.Function("decimal_year_of", z3.IntSort(), z3.RealSort())


@contract(["P05"], f"{D}._compute_anomaly_detrended", rp_det, title="regression on trend and harmonics")
def detrended(c):
    """anomaly = data - fitted model (the pseudo-inverse of the design applied to the cell's series), less its time mean when asked; the design holds the constant, the requested powers of
    the centred decimal year and, when asked, the annual and semi-annual harmonics, each but the constant centred."""
    for grid, orders, harm in (("gridded", [1], True), ("gridded", [1, 2], True), ("mesh", [1, 3], True), ("renamed", [2], False), ("transposed", None, True), ("mesh", [1], False)):
        def t():
            E = c.E
            da, dm, cd, sz = data(E, grid, "f")
            T = dm["time"]
            nt = sz[T]
            seen = []
            K = 1 + len(orders or [1]) + (4 if harm else 0)

            def pinv(m, *a, **k):
                m = npm.to_arr(m) if hasattr(npm, "to_arr") else m
                P = sym_arr(f"pinv{len(seen)}", (nt, K), "f")
                seen.append((m, P))
                return P

            def dec(x, dim="time", coord=None):
                tv = da.coords[T].arr
                return x.assign_coords(decimal_year=(dim, Arr((nt,), lambda k: Sym(DEC(tv.get(k).e)), "f")))
            c.new_repo(None, {(D, "add_decimal_year"): dec})
            npm.np.__dict__["linalg"] = type("L", (), {"pinv": staticmethod(pinv)})()
            try:
                zm = bool(sym_bool("zm"))
                r = c.repo.fn(D, "_compute_anomaly_detrended")(da, False, orders, dict(dm), dict(cd), zm, harm)
            finally:
                del npm.np.__dict__["linalg"]
            tag = f"{grid}, orders {orders}, {'with' if harm else 'without'} harmonics, {'zero mean' if zm else 'as fitted'}"
            c.require(f"one regression ({tag})", z3.BoolVal(len(seen) == 1))
            if len(seen) != 1:
                return
            M, P = seen[0]
            p = cell(E, dm, sz)
            dyr = Arr((nt,), lambda k: Sym(DEC(da.coords[T].arr.get(k).e)), "f")
            mean = lambda a: npm.np.mean(a)
            rows = [dyr * 0 + 1]
            cen = dyr - mean(dyr)
            for o in (orders or [1]):
                rows.append(cen ** o)
            if harm:
                for m in (2, 4):
                    rows += [npm.np.sin(m * npm.np.pi * dyr), npm.np.cos(m * npm.np.pi * dyr)]
            c.require(f"number of regressors and steps ({tag})", And(zi(M.shape[0]) == K, zi(M.shape[1]) == nt.e))
            want = [rows[0]] + [q - mean(q) for q in rows[1:]]
            for k, o in enumerate(orders or [1]):
                if o == 1:
                    E.dep("lemma: the deviations from a mean sum to zero")
                    E.assume(zr(mean(rows[1 + k])) == 0)
            for k in range(K):
                c.require(f"regressor {k} ({tag})", zr(M.get(z3.IntVal(k), p[T])) == zr(want[k].get(p[T])))
            x = lambda s: da.get(**dict(p, **{T: s}))
            co = [mk_sum_time(E, nt, (lambda k: lambda s: zr(P.get(s, z3.IntVal(k))) * zr(x(s)))(k)) for k in range(K)]

            def resid(s):
                fit = None
                for k in range(K):
                    v = zr(M.get(z3.IntVal(k), s)) * co[k]
                    fit = v if fit is None else fit + v
                return zr(x(s)) - fit
            got = r["dat_anomaly"]
            c.require(f"dimensions kept ({tag})", z3.BoolVal(set(got.dims) == set(sz)))
            g = got.get(**p)
            c.require(f"data minus the fitted model{', less its time mean' if zm else ''} ({tag})",
                      And(Not(nanb(g)), zr(g) == resid(p[T]) - (mk_sum_time(E, nt, resid) / z3.ToReal(nt.e) if zm else z3.RealVal(0))))
            kk = r["mask"].get(**{d: p[d] for d in sz if d != T})
            c.require(f"mask = first step is finite ({tag})", zb(kk) == fin(da.get(**dict(p, **{T: z3.IntVal(0)}))))
        c.run(t)


def mk_sum_time(E, n, f):
    from ..core import mk_sum
    return zr(mk_sum((n,), lambda s: Sym(f(s))))


@contract(["P05"], f"{D}._compute_anomaly_detrended", rp_det, title="standardisation by day of year")
def standardised(c):
    """STD(day) = square root of the circular 30-day mean (15 days before to 14 after) of the variance per day of year of the returned anomaly; the standardised anomaly is the
    anomaly divided by the STD of its own day (missing where that is zero)."""
    for grid, nd in (("gridded", 366), ("gridded", 365), ("mesh", 366)):
        def t():
            E = c.E
            da, dm, cd, sz = data(E, grid, "f")
            T = dm["time"]
            nt = sz[T]
            calls = []
            sp = [d for d in da.dims if d != T]
            E.ghost["total_sqrt"] = "the square root of a negative number is missing"
            E.ghost["expand_sums"] = 30
            sd = sym_arr("std_day", [sz[d] for d in sp] + [nd], "f", lambda v: v >= 0)

            def red(obj, *by, dim=None, func=None, **k):
                calls.append((obj, by, dim, func))
                return xrm.DA(sd, dims=tuple(sp) + ("dayofyear",), coords={k: v for k, v in da.coords.items() if v is not None and T not in v.dims}, lab={"dayofyear": 1})

            def dec(x, dim="time", coord=None):
                tv = da.coords[T].arr
                return x.assign_coords(decimal_year=(dim, Arr((nt,), lambda k: Sym(DEC(tv.get(k).e)), "f")))
            c.new_repo({"flox.xarray": type("F", (), {"xarray_reduce": staticmethod(red)})(), "flox": type("F", (), {"xarray": type("G", (), {"xarray_reduce": staticmethod(red)})()})()},
                       {(D, "add_decimal_year"): dec})
            npm.np.__dict__["linalg"] = type("L", (), {"pinv": staticmethod(lambda m, *a, **k: sym_arr("pinv", (nt, 6), "f"))})()
            try:
                zm = bool(sym_bool("zm"))
                r = c.repo.fn(D, "_compute_anomaly_detrended")(da, True, [1], dict(dm), dict(cd), zm, True)
            finally:
                del npm.np.__dict__["linalg"]
            tag = f"{grid}, {nd} days, {'zero mean' if zm else 'as fitted'}"
            c.require(f"one deviation per day of year ({tag})", z3.BoolVal(len(calls) == 1 and calls[0][3] == "std" and len(calls[0][1]) == 1 and calls[0][2] in (T, [T], (T,))))
            if len(calls) != 1:
                return
            obj, by = calls[0][:2]
            p = cell(E, dm, sz)
            an = r["dat_anomaly"]
            c.require(f"of the returned anomaly ({tag})", zr(obj.get(**p)) == zr(an.get(**p)))
            day = lambda k: xrm.DOY(da.coords[T].arr.get(k).e)
            c.require(f"grouped by day of year ({tag})", zi(by[0].get(**{T: p[T]})) == day(p[T]))
            u = z3.Int("dday")
            E.assume(inb(u, nd))
            S = r["STD"]
            q = {d: p[d] for d in sp}
            wrap = lambda k: z3.If(k < 0, k + nd, z3.If(k >= nd, k - nd, k))

            def var(k):
                v = zr(sd.get(*[p[d] for d in sp], wrap(u - 15 + k)))
                return v * v
            tot = mk_sum_time(E, 30, var)
            g = S.get(**dict(q, dayofyear=u))
            c.require(f"STD squared = circular 30-day mean of the variance ({tag})", And(Not(nanb(g)), zr(g) >= 0, zr(g) * zr(g) == tot / 30))
            E.assume(And(day(p[T]) >= 1, day(p[T]) <= nd))
            own = zr(S.get(**dict(q, dayofyear=day(p[T]) - 1)))
            s = r["dat_stn"].get(**p)
            c.require(f"standardised = anomaly / STD of its day ({tag})", z3.Implies(own > z3.RealVal("0.0000000001"), And(Not(nanb(s)), zr(s) * own == zr(an.get(**p)))))
            c.require(f"missing where the deviation vanishes ({tag})", z3.Implies(own == 0, nanb(s)))
        c.run(t)
