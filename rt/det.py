"""Run-time contracts for the detection half (marEx.detect), used as the bounded stand-in layer and for replay.

Every `case_*` function takes only JSON-able parameters and raises ContractViolation when a
post-condition of the real code is false.  Oracles are independent numpy re-statements of the property.
"""
from common import *
import pandas as pd

F32 = np.float32


# ------------------------------------------------------------------ input generation
def make_anom(kind, nt, ny, nx, seed, quant=None):
    r = rng("anom", kind, nt, ny, nx, seed)
    if kind == "normal":
        v = r.normal(0, 1, (nt, ny, nx))
    elif kind == "ties":
        v = r.integers(-3, 4, (nt, ny, nx)) * 0.25
    elif kind == "const0":
        v = np.zeros((nt, ny, nx))
        v[:, 0, 0] = r.normal(0, 1, nt)
    elif kind == "skew":
        v = r.gamma(1.5, 0.5, (nt, ny, nx)) - 0.4
    elif kind == "bimodal":
        v = np.where(r.random((nt, ny, nx)) < 0.7, -1.0, 2.0) + 0.01 * r.normal(0, 1, (nt, ny, nx))
    elif kind == "high":
        return (4.6 + 0.35 * r.random((nt, ny, nx))).astype(F32)
    elif kind == "seasonal":
        return (np.abs(r.normal(0, 0.6, (nt, ny, nx))) + 1.5 + 1.3 * np.sin(2 * np.pi * np.arange(nt) / 365.25)[:, None, None] + 0.3 * np.arange(nx)).astype(F32)
    else:
        raise ValueError(kind)
    v = np.clip(v, -4.5, 4.5)
    return v.astype(F32)


def put_land(v, land):
    v = v.copy()
    for (j, i) in land:
        v[:, j, i] = np.nan
    return v


DIMS3 = {"time": "time", "x": "lon", "y": "lat"}


def build(kind, nt, ny, nx, seed, land, grid, start, names, chunks):
    v = put_land(make_anom(kind, nt, ny, nx, seed), land)
    if grid == "gridded":
        t, y, x = names
        order = {"t": t, "y": y, "x": x}
        da = gridded(v, start=start, dims=(t, y, x), chunks={t: chunks, y: -1, x: -1}, name="anom")
        return da, {"time": t, "x": x, "y": y}, {"time": t, "x": x, "y": y}, v
    v2 = v.reshape(nt, ny * nx)
    da = unstructured(v2, start=start, chunks={"time": chunks, "ncells": -1}, name="anom")
    return da, {"time": "time", "x": "ncells"}, {"time": "time", "x": "lon", "y": "lat"}, v2


def run_preprocess(da, dims, coords, entry, **kw):
    """entry 'method' or 'method+stn': flags and thresholds of the whole preprocessing, and the anomalies they belong to"""
    quiet()
    method, _, stn = entry.partition("+")
    extra = dict(std_normalise=True) if stn else {}
    if method == "shifting_baseline":
        extra.update(window_year_baseline=2, smooth_days_baseline=5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = detect.preprocess_data(da, method_anomaly=method, dimensions=dims, coordinates=coords, **extra, **kw)
        out = []
        for a, e, t in (("dat_anomaly", "extreme_events", "thresholds"),) + ((("dat_stn", "extreme_events_stn", "thresholds_stn"),) if stn else ()):
            out.append((ds[a].transpose(*da.dims).compute(), ds[e].transpose(*da.dims).compute(), ds[t].compute()))
    return out


def all_extremes(da, dims, coords, v, entry="identify", **kw):
    """[(anomaly field, its values, flags, thresholds)]"""
    if entry == "identify":
        e, t = run_extremes(da, dims, coords, **kw)
        return [(da, v, e, t)]
    return [(a, a.values, e, t) for a, e, t in run_preprocess(da, dims, coords, entry, **kw)]


def run_extremes(da, dims, coords, **kw):
    quiet()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e, t = detect.identify_extremes(da, dimensions=dims, coordinates=coords, **kw)
        e = e.transpose(*da.dims).compute()
        t = t.compute()
    return e, t


# ------------------------------------------------------------------ P01: flags == exceedances
def case_flags(kind="ties", nt=420, ny=2, nx=3, seed=0, land=((0, 1),), grid="gridded", start="2001-03-01",
               names=("time", "lat", "lon"), chunks=100, method="global_extreme", pct=90, mp="exact", wd=5, ws=None,
               precision=0.01, max_anomaly=5.0, entry="identify"):
    da, dims, coords, v = build(kind, nt, ny, nx, seed, land, grid, start, names, chunks)
    n = 0
    for da, v, e, t in all_extremes(da, dims, coords, v, entry, method_extreme=method, threshold_percentile=pct, method_percentile=mp,
                                    window_days_hobday=wd, window_spatial_hobday=ws, precision=precision, max_anomaly=max_anomaly):
        n += check_flags(da, dims, v, e, t, method)
    return {"cells": n}


def check_flags(da, dims, v, e, t, method):
    sp = da.dims[1:]
    ensure(e.dtype == bool, "extreme flags are not boolean", dtype=e.dtype)
    ensure(e.dims == da.dims and e.shape == da.shape, "flag field does not have the data's dimensions", dims=e.dims)
    if method == "global_extreme":
        tv = t.transpose(*sp).values
        thr = np.broadcast_to(tv, v.shape)
    else:
        doy = da[dims["time"]].dt.dayofyear.values
        tt = t.transpose("dayofyear", *sp)
        lab = {int(d): k for k, d in enumerate(tt["dayofyear"].values)}
        thr = np.full(v.shape, np.nan)
        for k, d in enumerate(doy):
            if int(d) in lab:
                thr[k] = tt.values[lab[int(d)]]
    with np.errstate(invalid="ignore"):
        want = v >= thr
    bad = np.argwhere(want != e.values)
    ensure(bad.size == 0, "flag differs from (anomaly >= threshold)", at=bad[:1].tolist(),
           flag=e.values[tuple(bad[0])] if bad.size else None)
    ensure(not e.values[~np.isfinite(v)].any(), "a missing value is flagged extreme")
    return int(v.size)


# ------------------------------------------------------------------ P02: constant-in-time thresholds
def rank_ok(sample, thr, q, precision, tail=1e-9, bins=2.0):
    """thr is a q-quantile of sample up to the histogram resolution (`bins` bins each way)."""
    s = np.asarray(sample, dtype=np.float64)
    n = s.size
    below = (s < thr - bins * precision - 1e-5).sum()
    upto = (s <= thr + bins * precision + 1e-5).sum()
    return below <= q * n + tail * n + 1e-6 and upto >= q * n - tail * n - 1e-6


def case_const_threshold(kind="normal", nt=400, ny=2, nx=3, seed=0, land=((1, 2),), grid="gridded",
                         names=("time", "lat", "lon"), chunks=100, pct=90, mp="exact", precision=0.01, max_anomaly=5.0, entry="identify"):
    da, dims, coords, v = build(kind, nt, ny, nx, seed, land, grid, "2001-01-01", names, chunks)
    n = 0
    for da, v, e, t in all_extremes(da, dims, coords, v, entry, method_extreme="global_extreme", threshold_percentile=pct, method_percentile=mp,
                                    precision=precision, max_anomaly=max_anomaly):
        n += check_const(da, v, t, pct, mp, precision)
    return {"cells": n}


def check_const(da, v, t, pct, mp, precision):
    tv = t.transpose(*da.dims[1:]).values
    q = pct / 100.0
    for idx in np.ndindex(tv.shape):
        s = v[(slice(None),) + idx]
        if not np.isfinite(s).all():
            ensure(np.isnan(tv[idx]), "location without data has a threshold", at=idx, thr=tv[idx])
            continue
        if mp == "exact":
            want = np.quantile(s.astype(np.float64), q)
            ensure(abs(tv[idx] - want) <= 1e-5 + 1e-5 * abs(want), "exact threshold is not the requested percentile", at=idx,
                   thr=tv[idx], want=want)
        else:
            ensure(np.isfinite(tv[idx]), "threshold missing at a valid location", at=idx)
            ensure(tv[idx] >= precision - 1e-6, "approximate threshold is not positive", at=idx, thr=tv[idx])
            if np.quantile(s, q, method="lower") > 4 * precision:
                ensure(rank_ok(s, float(tv[idx]), q, precision, bins=1.0), "approximate threshold is off by more than the histogram resolution",
                       at=idx, thr=tv[idx], exact=np.quantile(s, q))
            elif np.quantile(s, q, method="higher") <= precision:
                ensure(tv[idx] <= 3 * precision + 1e-6, "threshold of a non-positive series exceeds the floor", at=idx, thr=tv[idx])
    return int(tv.size)


# ------------------------------------------------------------------ P03: day-of-year thresholds
def pooled_samples(v, doy, d, wd, j, i, ws):
    """circular day-of-year window, periodic in the last axis, truncated in the first spatial axis"""
    h = wd // 2
    days = {((d - 1 + k) % 366) + 1 for k in range(-h, h + 1)} if wd < 366 else set(range(1, 367))
    tsel = np.isin(doy, list(days))
    if ws is None or ws == 1:
        cells = [(j, i)]
    else:
        s = ws // 2
        ny, nx = v.shape[1:]
        cells = [(jj, (i + k) % nx) for jj in range(max(0, j - s), min(ny, j + s + 1)) for k in range(-s, s + 1)]
    out = np.concatenate([v[tsel, a, b] for a, b in cells])
    return out[np.isfinite(out)]


def case_doy_threshold(kind="normal", nt=366 * 3, ny=2, nx=3, seed=0, land=((0, 0),), grid="gridded", start="2000-01-01",
                       names=("time", "lat", "lon"), chunks=200, pct=90, mp="approximate", wd=11, ws=None, precision=0.02,
                       max_anomaly=5.0, stride=17, entry="identify"):
    da, dims, coords, v = build(kind, nt, ny, nx, seed, land, grid, start, names, chunks)
    if mp == "exact":
        precision, max_anomaly = 0.01, 5.0
    n = 0
    for da, v, e, t in all_extremes(da, dims, coords, v, entry, method_extreme="hobday_extreme", threshold_percentile=pct, method_percentile=mp,
                                    window_days_hobday=wd, window_spatial_hobday=ws, precision=precision, max_anomaly=max_anomaly):
        n += check_doy(da, dims, v, t, pct, mp, wd, ws, precision, stride)
    return {"thresholds": n}


def check_doy(da, dims, v, t, pct, mp, wd, ws, precision, stride):
    sp = da.dims[1:]
    t = t.transpose("dayofyear", *sp)
    doy = da[dims["time"]].dt.dayofyear.values
    v3 = v if v.ndim == 3 else v[:, None, :]
    tv = t.values if v.ndim == 3 else t.values[:, None, :]
    labels = t["dayofyear"].values.astype(int)
    q = pct / 100.0
    ws_eff = (5 if ws is None else ws) if (v.ndim == 3 and mp == "approximate") else None
    ensure(len(set(labels.tolist())) == len(labels), "duplicate day-of-year thresholds")
    checked = 0
    for k in sorted(set(range(0, len(labels), stride)) | {0, 1, 2, len(labels) - 3, len(labels) - 2, len(labels) - 1}):
        d = int(labels[k])
        for j in range(v3.shape[1]):
            for i in range(v3.shape[2]):
                if not np.isfinite(v3[0, j, i]):
                    ensure(np.isnan(tv[k, j, i]), "location without data has a threshold", doy=d, at=(j, i))
                    continue
                if mp == "exact":
                    # centred window in time around every occurrence of the day
                    h = wd // 2
                    occ = np.where(doy == d)[0]
                    idx = np.concatenate([np.arange(o - h, o + h + 1) for o in occ])
                    idx = idx[(idx >= 0) & (idx < len(doy))]
                    s = v3[idx, j, i]
                    want = np.nanpercentile(s.astype(np.float64), pct)
                    ensure(abs(tv[k, j, i] - want) <= 1e-5 * max(1, abs(want)) + 1e-5, "exact day-of-year threshold is not the pooled percentile",
                           doy=d, at=(j, i), thr=tv[k, j, i], want=want)
                else:
                    s = pooled_samples(v3, doy, d, wd, j, i, ws_eff)
                    if s.size == 0:
                        continue
                    thr = float(tv[k, j, i])
                    ensure(np.isfinite(thr), "threshold missing at a valid location/day", doy=d, at=(j, i))
                    ensure(thr >= precision - 1e-6, "threshold is not positive", doy=d, at=(j, i), thr=thr)
                    if np.quantile(s, q, method="lower") > 4 * precision:
                        ensure(rank_ok(s, thr, q, precision, bins=1.5), "day-of-year threshold is off by more than the histogram resolution",
                               doy=d, at=(j, i), thr=thr, exact=np.quantile(s, q), n=s.size)
                    elif np.quantile(s, q, method="higher") <= precision:
                        ensure(thr <= 3 * precision + 1e-6, "threshold of a non-positive pool exceeds the floor", doy=d, thr=thr)
                checked += 1
    return checked


# kernel-level: histogram quantile
def case_hist_kernel(n_doy=7, n_bins=6, wd=3, q=0.9, seed=0, sparse=0.5, dtype="int32", zero_rows=()):
    r = rng("hist", n_doy, n_bins, wd, seed)
    h = r.integers(0, 6, (n_doy, n_bins)) * (r.random((n_doy, n_bins)) < sparse)
    h = h.astype(dtype)
    for z in zero_rows:
        h[z] = 0
    centers = np.concatenate([[0.0], 0.25 + 0.5 * np.arange(n_bins - 1)])
    with np.errstate(all="ignore"):
        out = np.asarray(detect._rolling_histogram_quantile(h.copy(), wd, q, centers.copy()))
    check_hist_contract(h, wd, q, centers, out)
    return {"days": n_doy}


def check_hist_contract(h, wd, q, centers, out):
    n_doy, n_bins = h.shape
    half = wd // 2
    ensure(out.shape == (n_doy,), "quantile kernel returns the wrong shape", shape=out.shape)
    for d in range(n_doy):
        w = sum(h[(d + k) % n_doy].astype(np.int64) for k in range(-half, half + 1))
        tot = w.sum()
        if tot == 0:
            ensure(np.isnan(out[d]), "no samples in the window but a threshold is returned", day=d, thr=out[d])
            continue
        c = np.cumsum(w)
        pos = q * tot
        u = int(np.sum(c <= pos))          # first bin whose cumulative count exceeds the position
        u = min(u, n_bins - 1)
        if u == 0:
            ensure(abs(out[d] - centers[0]) < 1e-5, "all mass in the first bin but threshold is not its centre", day=d, thr=out[d])
            continue
        cl, cu = c[u - 1], c[u]
        f = (pos - cl) / (cu - cl) if cu > cl else 0.5
        want = centers[u - 1] + f * (centers[u] - centers[u - 1])
        ensure(abs(out[d] - want) <= 1e-4 * max(1.0, abs(want)), "kernel quantile differs from count interpolation of the windowed histogram",
               day=d, thr=out[d], want=want)


# ------------------------------------------------------------------ P04: shifting baseline
def case_shifting(nyears=5, W=2, S=5, ny=1, nx=2, seed=0, land=(), grid="gridded", start="2001-01-01", names=("time", "lat", "lon"),
                  chunks=150, drop=(), freq="D", entry="preprocess", step=1):
    end = pd.Timestamp(start) + pd.DateOffset(years=nyears) - pd.Timedelta(days=1)
    times = pd.date_range(start, end, freq=freq)
    if drop:
        keep = np.ones(len(times), bool)
        for y in drop:
            keep &= np.asarray(times.year != y)
        times = times[keep]
    r = rng("shift", nyears, W, S, seed)
    nt = len(times)
    v = (10 + r.normal(0, 1, (nt, ny, nx)) + np.arange(nt)[:, None, None] * 1e-3).astype(F32)
    v = put_land(v, land)
    if grid == "gridded":
        da = gridded(v, times=times, dims=tuple(names), chunks={names[0]: chunks, names[1]: -1, names[2]: -1})
        dims = {"time": names[0], "x": names[2], "y": names[1]}; coords = dict(dims)
    else:
        v = v.reshape(nt, -1)
        da = unstructured(v, times=times, chunks={"time": chunks, "ncells": -1})
        dims = {"time": "time", "x": "ncells"}; coords = {"time": "time", "x": "lon", "y": "lat"}
    quiet()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if entry == "preprocess":
            ds = detect.preprocess_data(da, method_anomaly="shifting_baseline", method_extreme="global_extreme", window_year_baseline=W,
                                        smooth_days_baseline=S, dimensions=dims, coordinates=coords, method_percentile="exact")
        else:
            ds = detect.compute_normalised_anomaly(da, "shifting_baseline", dims, coords, W, S)
        an = ds.dat_anomaly.transpose(*da.dims).compute()
    tc = dims["time"]
    years, doys = times.year.values, times.dayofyear.values
    # oracle: centred mean of S samples (missing at the ends), then mean over the W preceding calendar years
    h_lo = S // 2
    sm = np.full(v.shape, np.nan, dtype=np.float64)
    for k in range(nt):
        lo = k - h_lo
        hi = lo + S
        if lo >= 0 and hi <= nt:
            sm[k] = v[lo:hi].mean(axis=0, dtype=np.float64)
    keep_out = years >= years.min() + W
    out_times = times[keep_out] if entry == "preprocess" else times
    ensure(len(an[tc]) == len(out_times) and (pd.DatetimeIndex(an[tc].values) == out_times).all(),
           "output time axis is not exactly the input after the first W years", got=len(an[tc]), want=len(out_times))
    got = an.values
    for kk in range(0, len(out_times), step):
        y, d = out_times[kk].year, out_times[kk].dayofyear
        k = int(np.where(times == out_times[kk])[0][0])
        sel = (doys == d) & (years >= y - W) & (years < y)
        if y < years.min() + W:
            ensure(np.isnan(got[kk]).all(), "anomaly produced without W years of history", time=str(out_times[kk]))
            continue
        pool = sm[sel]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            clim = np.nanmean(pool, axis=0) if sel.any() else np.full(v.shape[1:], np.nan)
        want = v[k] - clim
        ok = (np.isnan(want) & np.isnan(got[kk])) | (np.abs(np.nan_to_num(want) - np.nan_to_num(got[kk])) < 2e-3)
        ok &= np.isnan(want) == np.isnan(got[kk])
        ensure(ok.all(), "anomaly is not data minus the mean of the W preceding years' smoothed same-day values", time=str(out_times[kk]),
               got=got[kk].ravel()[:2], want=np.ravel(want)[:2])
    if "mask" in ds:
        m = ds.mask.compute()
        ensure((m.transpose(*da.dims[1:]).values == np.isfinite(v[0])).all(), "mask is not the finite cells of the first time step")
    return {"times": len(out_times)}


def case_causal(nyears=4, W=2, S=1, seed=0, change_year=2003, start="2001-01-01"):
    """relational: changing data in year Y leaves every anomaly before Y untouched (S=1: no smoothing across the boundary)"""
    times = pd.date_range(start, pd.Timestamp(start) + pd.DateOffset(years=nyears) - pd.Timedelta(days=1))
    r = rng("causal", seed)
    v = r.normal(0, 1, (len(times), 1, 2)).astype(F32)
    v2 = v.copy(); v2[times.year >= change_year] += 7.0
    outs = []
    for arr in (v, v2):
        da = gridded(arr, times=times)
        a = detect.compute_normalised_anomaly(da, "shifting_baseline", DIMS3, DIMS3, W, S).dat_anomaly.transpose("time", "lat", "lon").compute().values
        outs.append(a)
    sel = times.year < change_year
    ensure(np.array_equal(outs[0][sel], outs[1][sel], equal_nan=True), "an anomaly depends on data from a later year")
    # and the changed year itself sees the unchanged climatology
    sel = times.year == change_year
    d = outs[1][sel] - outs[0][sel]
    d = d[np.isfinite(d)]
    ensure(np.allclose(d, 7.0, atol=1e-3), "the baseline of a year includes that year's own data")
    return {"times": len(times)}


# ------------------------------------------------------------------ P05: detrend / fixed baseline
def dec_year(times):
    y = times.year.values
    s = pd.to_datetime([f"{a}-01-01" for a in y]); e = pd.to_datetime([f"{a+1}-01-01" for a in y])
    return y + (times - s).days.values / (e - s).days.values


def design(times, orders, harmonics):
    dy = dec_year(times)
    cols = [np.ones(len(dy))] + [(dy - dy.mean()) ** o for o in orders]
    if harmonics:
        cols += [np.sin(2 * np.pi * dy), np.cos(2 * np.pi * dy), np.sin(4 * np.pi * dy), np.cos(4 * np.pi * dy)]
    return np.array(cols).T


def case_detrend(nt=800, ny=2, nx=2, seed=0, land=((1, 1),), orders=(1,), zero_mean=True, harmonics=True, method="detrend_harmonic",
                 grid="gridded", names=("time", "lat", "lon"), start="2001-02-10", freq="D", chunks=200, std=False, transpose=False, entry="anomaly", scale=1.0):
    times = pd.date_range(start, periods=nt, freq=freq)
    r = rng("detrend", nt, seed)
    dy = dec_year(times)
    tt = (dy - dy.mean())
    v = (15 + r.normal(0, 0.7, (nt, ny, nx)) + 0.3 * tt[:, None, None] + 0.2 * (tt**2)[:, None, None] + 2 * np.sin(2 * np.pi * dy)[:, None, None]
         + 0.5 * np.cos(4 * np.pi * dy)[:, None, None])
    v = put_land((v * scale).astype(F32), land)
    if grid == "gridded":
        da = gridded(v, times=times, dims=tuple(names), chunks={names[0]: chunks, names[1]: -1, names[2]: -1})
        dims = {"time": names[0], "x": names[2], "y": names[1]}; coords = dict(dims)
    else:
        v = v.reshape(nt, -1)
        da = unstructured(v, times=times, chunks={"time": chunks, "ncells": -1})
        dims = {"time": "time", "x": "ncells"}; coords = {"time": "time", "x": "lon", "y": "lat"}
    order_dims = da.dims
    if transpose:
        da = da.transpose(*(list(da.dims[1:]) + [da.dims[0]]))
    quiet()
    if entry == "anomaly":
        ds = detect.compute_normalised_anomaly(da, method, dims, coords, std_normalise=std, detrend_orders=list(orders), force_zero_mean=zero_mean)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = detect.preprocess_data(da, method_anomaly=method, method_extreme="global_extreme", method_percentile="exact", threshold_percentile=90, dimensions=dims, coordinates=coords,
                                        std_normalise=std, detrend_orders=list(orders), force_zero_mean=zero_mean)
    got = ds.dat_anomaly.transpose(*order_dims).compute().values.astype(np.float64)
    ensure(got.shape == v.shape, "anomaly has a different shape")
    x = v.reshape(nt, -1).astype(np.float64)
    g = got.reshape(nt, -1)
    M = design(times, orders, harmonics=(method == "detrend_harmonic"))
    doy = times.dayofyear.values
    for c in range(x.shape[1]):
        s = x[:, c]
        if not np.isfinite(s).all():
            ensure(np.isnan(g[:, c]).all(), "land cell received an anomaly", cell=c)
            continue
        if method in ("detrend_harmonic", "detrend_fixed_baseline"):
            coef, *_ = np.linalg.lstsq(M, s, rcond=None)
            resid = s - M @ coef
        else:
            resid = s
        if method in ("fixed_baseline", "detrend_fixed_baseline"):
            clim = pd.Series(resid).groupby(doy).transform("mean").values
            resid = resid - clim
        ensure(np.abs(resid - g[:, c]).max() < 5e-3, f"{method} anomaly is not the data minus the fitted model", cell=c,
               err=float(np.abs(resid - g[:, c]).max()))
        if zero_mean or method == "fixed_baseline":
            ensure(abs(g[:, c].mean()) < 2e-3, "anomaly does not have zero mean", cell=c, mean=g[:, c].mean())
    m = ds.mask.compute().transpose(*order_dims[1:]).values
    ensure((m == np.isfinite(v[0])).all(), "mask is not the finite cells of the first time step")
    if std:
        stn = ds.dat_stn.transpose(*order_dims).compute().values.reshape(nt, -1)
        for c in range(x.shape[1]):
            if not np.isfinite(x[:, c]).all():
                continue
            a = g[:, c]
            sd = pd.Series(a).groupby(doy).std(ddof=0).sort_index()
            n = len(sd)
            if n < 365:
                return {"cells": x.shape[1]}
            var = sd.values ** 2
            # 30-day circular centred mean of the variance
            roll = np.array([var[np.arange(k - 15, k + 15) % n].mean() for k in range(n)])
            want = a / np.sqrt(roll)[doy - 1]
            ensure(np.abs(want - stn[:, c]).max() < 1e-3 * np.abs(want).max(), "standardised anomaly is not anomaly / 30-day circular std",
                   cell=c, err=float(np.nanmax(np.abs(want - stn[:, c]))))
    return {"cells": x.shape[1]}


# ------------------------------------------------------------------ the pipeline is the composition of its steps
def case_pipeline(anomaly="shifting_baseline", extreme="hobday_extreme", mp="approximate", pct=92.0, precision=0.02, maxan=9.0, wd=7, ws=None, std=False, orders=(1, 2), zero_mean=False, W=2, S=7,
                  nt=1150, ny=3, nx=4, seed=0, grid="gridded", scale=2.5, start="2001-03-05"):
    """preprocess_data = compute_normalised_anomaly, the years with a full baseline, identify_extremes: with the caller's options throughout"""
    times = pd.date_range(start, periods=nt, freq="D")
    r = rng("pipe", nt, seed)
    v = (12 + scale * r.normal(0, 1, (nt, ny, nx)) + 3 * np.sin(2 * np.pi * np.arange(nt) / 365.25)[:, None, None] + 0.002 * np.arange(nt)[:, None, None]).astype(F32)
    v = put_land(v, ((0, 1),))
    if grid == "gridded":
        da = gridded(v, times=times, dims=("time", "lat", "lon"), chunks={"time": 200, "lat": -1, "lon": -1})
        dims = {"time": "time", "x": "lon", "y": "lat"}; coords = dict(dims)
    else:
        da = unstructured(v.reshape(nt, -1), times=times, chunks={"time": 200, "ncells": -1})
        dims = {"time": "time", "x": "ncells"}; coords = {"time": "time", "x": "lon", "y": "lat"}
    quiet()
    kw = {} if mp == "exact" else dict(precision=precision, max_anomaly=maxan)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = detect.preprocess_data(da, method_anomaly=anomaly, method_extreme=extreme, threshold_percentile=pct, window_year_baseline=W, smooth_days_baseline=S, window_days_hobday=wd,
                                    window_spatial_hobday=ws, std_normalise=std, detrend_orders=list(orders), force_zero_mean=zero_mean, method_percentile=mp, dimensions=dims, coordinates=coords, **kw)
        an = detect.compute_normalised_anomaly(da.astype(np.float32), anomaly, dims, coords, window_year_baseline=W, smooth_days_baseline=S, std_normalise=std, detrend_orders=list(orders),
                                               force_zero_mean=zero_mean)
        if anomaly == "shifting_baseline":
            an = an.isel(time=np.asarray(an.time.dt.year.values >= times[0].year + W))
        for nm, sfx in [("dat_anomaly", "")] + ([("dat_stn", "_stn")] if std and anomaly == "detrend_harmonic" else []):
            a, b = ds[nm].transpose(*da.dims).compute().values, an[nm].transpose(*da.dims).compute().values
            ensure(a.shape == b.shape and (ds.time.values == an.time.values).all(), f"{nm}: the steps returned are not those with a full baseline", got=a.shape, want=b.shape)
            ensure(np.allclose(a, b, atol=1e-5, equal_nan=True), f"{nm} is not that of the requested method and options")
            e, th = detect.identify_extremes(ds[nm], method_extreme=extreme, threshold_percentile=pct, dimensions=dims, coordinates=coords, window_days_hobday=wd, window_spatial_hobday=ws,
                                             method_percentile=mp, **kw)
            g = ds["thresholds" + sfx].compute()
            if "dayofyear" in g.coords and "dayofyear" in th.coords:
                th = th.sel(dayofyear=g.dayofyear)                       # (the standard deviation's calendar decides which days are returned)
            ensure(np.allclose(g.values, th.transpose(*g.dims).compute().values, atol=1e-5, equal_nan=True), f"thresholds of {nm} are not those of the requested options")
            g = ds["extreme_events" + sfx].compute()
            ensure((g.values == e.transpose(*g.dims).compute().values).all(), f"flags of {nm} are not those of the requested options")
        ensure((ds.mask.values == an.mask.transpose(*ds.mask.dims).compute().values).all(), "mask is not the anomaly method's")
    return {"steps": int(ds.sizes["time"])}


# ------------------------------------------------------------------ P06: refusals
def _expect_refusal(fn, kinds, what):
    try:
        fn()
    except kinds:
        return
    except ContractViolation:
        raise
    except Exception as ex:  # wrong kind of error
        raise ContractViolation(f"{what}: refused with {type(ex).__name__} instead of a package error")
    raise ContractViolation(f"{what}: accepted")


def _expect_ok(fn, what):
    from marEx.exceptions import MarExError
    try:
        return fn()
    except MarExError as ex:
        raise ContractViolation(f"{what}: refused ({type(ex).__name__}: {str(ex).splitlines()[0]})")


def case_refuse_data(where="mid", value="nan", grid="gridded", first_all=False, seed=0, land=((0, 0),), nt=30, masked_change=False):
    from marEx.exceptions import DataValidationError
    r = rng("refuse", where, value, seed)
    v = r.normal(0, 1, (nt, 3, 4)).astype(F32)
    v = put_land(v, land)
    bad = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[value]
    expect = True
    if first_all:
        v[0] = bad
    elif masked_change:
        v[5:, 0, 0] = 1.0         # a masked cell may hold anything later
        expect = False
    elif where == "none":
        expect = False
    else:
        t = {"mid": nt // 2, "last": nt - 1, "one": 1}[where]
        v[t, 2, 3] = bad
    if grid == "gridded":
        da, dims, coords = gridded(v), DIMS3, DIMS3
    else:
        da, dims, coords = unstructured(v.reshape(nt, -1)), {"time": "time", "x": "ncells"}, {"time": "time", "x": "lon", "y": "lat"}
    fn = lambda: detect.preprocess_data(da, method_anomaly="detrend_harmonic", method_extreme="global_extreme", method_percentile="exact",
                                        dimensions=dims, coordinates=coords)
    if grid != "gridded" and not expect:
        fn = lambda: detect._validate_data_values(da, dims)
    if expect:
        _expect_refusal(fn, DataValidationError, f"invalid value {value} at {where}")
    else:
        _expect_ok(fn, "valid data")
    return {}


def case_refuse_config(kw=None, expect="ConfigurationError", grid="gridded", entry="identify"):
    import marEx.exceptions as X
    kw = dict(kw or {})
    r = rng("cfg", sorted(kw.items()), grid)
    v = r.normal(0, 0.5, (400, 2, 3)).astype(F32)
    if grid == "gridded":
        da, dims, coords = gridded(v, name="a"), DIMS3, DIMS3
    else:
        da, dims, coords = unstructured(v.reshape(400, -1), name="a"), {"time": "time", "x": "ncells"}, {"time": "time", "x": "lon", "y": "lat"}
    if "dims" in kw:
        dims = kw.pop("dims")
    if "coords" in kw:
        coords = kw.pop("coords")
    if kw.pop("numpy", False):
        da = da.compute()
    fn = {"identify": lambda: detect.identify_extremes(da, dimensions=dims, coordinates=coords, **kw),
          "anomaly": lambda: detect.compute_normalised_anomaly(da, dimensions=dims, coordinates=coords, **kw),
          "preprocess": lambda: detect.preprocess_data(da, dimensions=dims, coordinates=coords, **kw)}[entry]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        quiet()
        if expect:
            _expect_refusal(fn, getattr(X, expect), f"{entry}({kw}) on {grid}")
        else:
            _expect_ok(fn, f"{entry}({kw}) on {grid}")
    return {}


def case_ckpt_detect(method="shifting_baseline", extreme="hobday_extreme", mp="approximate", grid="gridded", nt=1200, seed=0, chunks=150, std=False):
    """detection with temporary on-disk checkpoints gives the same result as without"""
    r = rng("ckd", method, seed)
    v = (10 + r.normal(0, 1, (nt, 2, 3)) + 2 * np.sin(np.arange(nt) * 2 * np.pi / 365.25)[:, None, None]).astype(F32)
    v[:, 1, 2] = np.nan
    outs = []
    for ck in (False, True):
        if grid == "gridded":
            da, dims, coords = gridded(v, start="2003-01-01", chunks={"time": chunks, "lat": -1, "lon": -1}), DIMS3, DIMS3
        else:
            da, dims, coords = unstructured(v.reshape(nt, -1), start="2003-01-01", chunks={"time": chunks, "ncells": -1}), {"time": "time", "x": "ncells"}, {"time": "time", "x": "lon", "y": "lat"}
        quiet()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = detect.preprocess_data(da, method_anomaly=method, method_extreme=extreme, method_percentile=mp, threshold_percentile=90, dimensions=dims, coordinates=coords,
                                        window_year_baseline=2, smooth_days_baseline=5, window_days_hobday=5, std_normalise=std, use_temp_checkpoints=ck).compute()
        outs.append(ds)
    a, b = outs
    ensure(set(a.data_vars) == set(b.data_vars), "checkpointing changes the set of results", a=sorted(a.data_vars), b=sorted(b.data_vars))
    for k in a.data_vars:
        x, y = a[k], b[k].transpose(*a[k].dims)
        ensure(x.shape == y.shape and x.dtype == y.dtype, f"checkpointing changes the shape or type of {k}", a=(x.shape, x.dtype), b=(y.shape, y.dtype))
        ensure(np.array_equal(x.values, y.values, equal_nan=x.dtype.kind == "f"), f"checkpointing changes {k}", bad=int((~((x.values == y.values) | (x.values != x.values))).sum()))
    return {}
