"""Run-time contracts for whole-pipeline relations, coordinate units, configuration, checkpoints, logging, errors, plotting."""
from common import *
import trk, det
from trk import *
import pandas as pd
import logging


def partition_key(F):
    return F


# ------------------------------------------------------------------ P16 longitude periodicity
def case_roll(kind="movers", nt=6, ny=10, nx=18, seed=0, density=0.35, nn=False, shift=5, R=0, T=0, tchunk=3, quart=None, thr=0.5):
    """relabelling where the longitude axis is cut changes nothing but the position of the result (global mode)"""
    b = scene(kind, nt, ny, nx, seed, density)
    b[0, : max(3, R + 4)] = False          # an isolated leading object: finding F1 then concerns the same object wherever the seam is
    b[0, 0, 2: 4 + 2 * R] = True
    kw = dict(nn_partitioning=nn, R_fill=R, T_fill=T, tchunk=tchunk, overlap_threshold=thr)
    kw.update({"area_filter_quartile": quart} if quart is not None else {"area_filter_absolute": 1})
    out = []
    pre = np.stack([o_morph_struct(x, R, True) for x in b])
    if only_first(pre, True):
        return {}
    for s in (0, shift):
        ev, mg = run_all(g_tracker(np.roll(b, s, axis=2), **kw))
        F = ev.ID_field.transpose("time", "lat", "lon").compute().values
        out.append((np.roll(F, -s, axis=2), int(ev.attrs["N_events_final"]), int(ev.attrs["total_merges"])))
    ensure((out[0][0] > 0).tolist() == (out[1][0] > 0).tolist(), "moving the seam changes which cells belong to events")
    # cells exactly equidistant from two parents go to the parent listed first, and objects are listed in seam-dependent order
    ties = []
    P = out[0][0] > 0
    Ref(P, [comps_struct(x, True) for x in P], np.ones((ny, nx)), thr, grid_split(nn, True, ties), None).run()
    if ties:
        return {"ties": len(ties)}
    ensure(out[0][1:] == out[1][1:], "moving the seam changes the number of events or merges", a=out[0][1:], b=out[1][1:])
    ensure(same_partition(out[0][0], out[1][0]), "moving the seam changes the events")
    return {"events": out[0][1]}


def case_seam_pair(regional=False, ny=6, nx=12, nt=4):
    """two objects touching only across the seam: one event globally, two regionally"""
    b = np.zeros((nt, ny, nx), bool)
    b[:, 2:4, 0:2] = True
    b[:, 2:4, nx - 2:] = True
    b[0] = False
    b[0, 2, 5] = True
    ev, _ = run_all(g_tracker(b, regional_mode=regional))
    ensure(int(ev.attrs["N_events_final"]) == (2 if regional else 1), "seam-crossing objects are joined/split wrongly", n=int(ev.attrs["N_events_final"]))
    return {}


# ------------------------------------------------------------------ P17 units
def _events(ev, names=("time", "lat", "lon")):
    E = ev.compute()
    return E.ID_field.transpose(*names).values, E.area.transpose("time", "ID").values, E.centroid.transpose("component", "time", "ID").values


def case_units(kind="movers", nt=6, ny=8, nx=24, seed=0, lonrange="0_360", grid="gridded", areas="res", auto=True, nn=False, regional=False):
    """radian input gives the events of the same data in degrees; coordinates and centroids are returned in the input's units and range"""
    b = scene(kind, nt, ny, nx, seed, 0.35)
    res = []
    if grid == "gridded":
        lon = (np.arange(nx) + 0.5) * 360.0 / nx if not regional else 20 + np.arange(nx) * 2.0
        if auto:
            lon = np.linspace(0, 359.5, nx)
        if lonrange != "0_360":
            lon = lon - 180
        lat = np.linspace(-60, 60, ny)
        for u in ("degrees", "radians"):
            f = 1.0 if u == "degrees" else np.pi / 180
            kw = {}
            if areas == "res":
                kw["grid_resolution"] = 360.0 / nx
            elif areas == "cell":
                kw["cell_areas"] = xr.DataArray(1.0 + np.arange(ny)[:, None] * 0.1 + np.zeros((ny, nx)), dims=("lat", "lon"), coords={"lat": lat * f, "lon": lon * f})
            tr = g_tracker(b, lon=lon * f, lat=lat * f, coordinate_units=None if (auto and not regional) else u, nn_partitioning=nn, regional_mode=regional, **kw)
            ev, _ = run_all(tr)
            ensure(np.allclose(ev["lat"].values, lat * f) and np.allclose(ev["lon"].values, lon * f), "output coordinates are not the input coordinates", units=u)
            res.append(_events(ev))
    else:
        bb = np.repeat(b.reshape(nt, -1), 2, axis=1)
        nb, lat, lon, ar = tri_mesh(ny, nx)
        lo = lon % 360.0 if lonrange in ("0_360", "from0") else lon
        if lonrange == "from0":
            lo = lo - lo.min()
        for u in ("degrees", "radians"):
            f = 1.0 if u == "degrees" else np.pi / 180
            with Scratch() as d:
                tr = u_tracker(bb, ny, nx, d, tchunk=nt, units=u, lon_range=lonrange, nn_partitioning=nn)
                ev, _ = run_all(tr)
                ev = ev.compute()
            ensure(np.allclose(ev["lat"].values, lat * f) and np.allclose(ev["lon"].values, lo * f), "output coordinates are not the input coordinates", units=u)
            res.append(_events(ev, ("time", "ncells")))
    (F0, A0, C0), (F1, A1, C1) = res
    ensure(F0.shape == F1.shape and same_partition(F0, F1) and F0.max() == F1.max(), "events depend on the coordinate units")
    ensure(np.allclose(A0, A1, rtol=1e-3, equal_nan=True), "areas depend on the coordinate units")
    full = 360.0
    ensure(np.allclose(C0[0], np.rad2deg(C1[0]), atol=2e-2, equal_nan=True), "centroid latitudes depend on the coordinate units")
    d = C0[1] - np.rad2deg(C1[1])
    d = (d + 180) % 360 - 180
    ensure((np.abs(d[np.isfinite(d)]) < 3e-2).all(), "centroid longitudes depend on the coordinate units")
    for C, f in ((C0, 1.0), (C1, np.pi / 180)):
        c = C[1][np.isfinite(C[1])] / f
        if regional:
            ensure((c >= lon.min() - 1e-2).all() and (c <= lon.max() + 1e-2).all(), "regional centroids leave the region", lo=c.min(), hi=c.max())
        elif lonrange in ("0_360", "from0"):
            ensure((c >= -1e-3).all() and (c <= 360.01).all(), "centroid longitudes are not in the input's 0..360 range", lo=c.min(), hi=c.max())
        else:
            ensure((c >= -180.01).all() and (c <= 180.01).all(), "centroid longitudes are not in the input's -180..180 range", lo=c.min(), hi=c.max())
    return {"events": int(F0.max())}


def case_auto_units(span=359.5, expect="degrees", units=None, regional=False, n=8):
    from marEx.exceptions import CoordinateError
    lon = np.linspace(0, span, n)
    b = np.ones((2, 3, n), bool)
    try:
        tr = g_tracker(b, lon=lon, lat=np.linspace(-1, 1, 3), coordinate_units=units, regional_mode=regional)
        got = tr.coordinate_units
    except CoordinateError:
        got = "refused"
    ensure(got == expect, "longitude span interpreted as the wrong units", span=span, got=got, want=expect, units=units)
    return {}


def case_no_mutation(grid="gridded", units="radians", nt=5, ny=6, nx=10, seed=1, R=2, T=2):
    """running the tracker leaves the caller's arrays untouched"""
    b = scene("movers", nt, ny, nx, seed)
    f = np.pi / 180 if units == "radians" else 1.0
    lon = np.arange(nx) * 360.0 / nx * f
    lat = np.linspace(-60, 60, ny) * f
    da = xr.DataArray(b, dims=("time", "lat", "lon"), coords={"time": time_axis("2000-01-01", nt), "lat": lat, "lon": lon}, attrs={"a": 1}).chunk({"time": 2})
    m = xr.DataArray(np.ones((ny, nx), bool), dims=("lat", "lon"), coords={"lat": lat, "lon": lon}).chunk()
    da0, m0 = da.copy(deep=True).compute(), m.copy(deep=True).compute()
    quiet()
    with silence():
        tr = track.tracker(da, m, R_fill=R, T_fill=T, area_filter_absolute=1, coordinate_units=units, quiet=True)
        r = tr.run()
    quiet()
    ensure(da.identical(da0.chunk({"time": 2})) or (da.compute().identical(da0)), "the input data were modified")
    ensure(m.compute().identical(m0), "the input mask was modified")
    ensure(r.attrs.get("a") == 1, "attributes of the input are not inherited")
    return {}


# ------------------------------------------------------------------ P18 configuration of the tracker
def case_tracker_config(kw=None, expect=None, grid="gridded", mutate=None):
    import marEx.exceptions as X
    kw = dict(kw or {})
    nt, ny, nx = 4, 4, 6
    b = np.zeros((nt, ny, nx), bool)
    b[:, 1:3, 1:4] = True
    lat = np.linspace(-30, 30, ny); lon = np.arange(nx) * 60.0
    mut = mutate or ""
    quiet()
    with Scratch() as d, silence():
        if grid == "gridded":
            da = xr.DataArray(b, dims=("time", "lat", "lon"), coords={"time": time_axis("2000-01-01", nt), "lat": lat, "lon": lon}).chunk({"time": 2})
            m = xr.DataArray(np.ones((ny, nx), bool), dims=("lat", "lon"), coords={"lat": lat, "lon": lon})
            base = dict(R_fill=0, T_fill=0, coordinate_units="degrees", quiet=True)
        else:
            nb, la, lo, ar = tri_mesh(ny, nx)
            co = {"lat": ("ncells", la), "lon": ("ncells", lo)}
            bb = np.repeat(b.reshape(nt, -1), 2, axis=1)
            da = xr.DataArray(bb, dims=("time", "ncells"), coords={"time": time_axis("2000-01-01", nt), **co}).chunk({"time": 2, "ncells": -1})
            m = xr.DataArray(np.ones(2 * ny * nx, bool), dims=("ncells",), coords=co)
            base = dict(R_fill=0, T_fill=0, coordinate_units="degrees", quiet=True, unstructured_grid=True, temp_dir=d, dimensions={"x": "ncells"},
                        coordinates={"x": "lon", "y": "lat"}, neighbours=xr.DataArray(nb, dims=("nv", "ncells"), coords=co).chunk(),
                        cell_areas=xr.DataArray(ar, dims=("ncells",), coords=co))
        if mut == "float":
            da = da.astype(float)
        elif mut == "intmask":
            m = m.astype(int)
        elif mut == "emptymask":
            m = xr.zeros_like(m)
        elif mut == "notdask":
            da = da.compute()
        elif mut == "xchunk":
            da = da.chunk({da.dims[-1]: 2})
        elif mut == "4d":
            da = da.expand_dims("depth")
        elif mut == "badareas":
            base["cell_areas"] = xr.DataArray(np.ones((nt, ny, nx)), dims=("time", "lat", "lon")) if grid == "gridded" else None
        elif mut.startswith("drop:"):
            base[mut[5:]] = None
        elif mut == "badnv":
            base["neighbours"] = base["neighbours"].isel(nv=slice(0, 2))
        elif mut == "transposed":
            da = da.transpose(*da.dims[::-1])
        base.update(kw)
        try:
            tr = track.tracker(da, m.chunk(), **base)
            got = None
        except Exception as ex:
            got = type(ex).__name__
            mro = [c.__name__ for c in type(ex).__mro__]
            ensure(expect is not None, "a valid configuration is refused", kw=kw, mutate=mut, error=f"{got}: {str(ex).splitlines()[0]}")
            ensure(expect in mro, "refused with the wrong kind of error", kw=kw, mutate=mut, got=got, want=expect)
    quiet()
    ensure(expect is None or got is not None, "an invalid configuration is accepted", kw=kw, mutate=mut, want=expect)
    if got is None:
        for dname in (tr.data_bin.dims[1:]):
            ensure(len(tr.data_bin.chunksizes[dname]) == 1, "a spatial dimension stays chunked", dim=dname)
        if not ({"area_filter_quartile", "area_filter_absolute"} & set(kw)):
            ensure(tr.area_filter_quartile == 0.5 and not tr._use_absolute_filtering, "default area filter is not the median")
        elif "area_filter_quartile" in kw:
            ensure(tr.area_filter_quartile == kw["area_filter_quartile"] and not tr._use_absolute_filtering, "requested quantile not used")
        else:
            ensure(tr.area_filter_absolute == kw["area_filter_absolute"] and tr._use_absolute_filtering, "requested absolute area not used")
    return {}


def case_attrs(kind="noise", nt=5, ny=8, nx=12, seed=0, density=0.35, quart=0.5, absolute=None, R=0, T=0, tchunk=2, land="none", areas="unit", nn=False, thr=0.5, merging=True):
    """summary attributes describe what was done"""
    m = mask_of(land, ny, nx, seed)
    b = scene(kind, nt, ny, nx, seed, density) & m
    if not b.any():
        return {}
    kw = {"area_filter_absolute": absolute} if absolute is not None else {"area_filter_quartile": quart}
    tr = g_tracker(b, m, tchunk=tchunk, R_fill=R, T_fill=T, nn_partitioning=nn, overlap_threshold=thr, allow_merging=merging, **kw)
    overlap = thr
    w = np.ones((ny, nx))
    filled = b.copy()
    if R:
        filled = np.stack([o_morph_struct(x, R, True) for x in filled]) & m
    if T:
        filled = o_time_close(filled, T)
        if R // 2:
            filled = np.stack([o_morph_struct(x, R // 2, True) for x in filled])
        filled &= m
    labs = [comps_struct(x, True) for x in filled]
    sizes = np.array([int((l == k).sum()) for l in labs for k in np.unique(l[l > 0])], float)
    if not len(sizes):
        return {}
    thr = float(absolute) if absolute is not None else np.percentile(sizes, quart * 100)
    if not (sizes >= thr).any():
        return {}
    if only_first(filled, True):
        return {}
    keep = np.zeros_like(filled)
    for t, l in enumerate(labs):
        for k in np.unique(l[l > 0]):
            if (l == k).sum() >= thr:
                keep[t] |= l == k
    ev, mg = run_all(tr)
    F = ev.ID_field.transpose("time", "lat", "lon").compute().values
    n_keep = int((sizes >= thr).sum())
    f1 = first_object(filled, True)
    if (f1 & keep).any() and not (f1 & (F > 0)).any():
        known("F1")
        keep &= ~f1
        n_keep -= 1
    ensure(((F > 0) == keep).all(), "tracked cells are not: filled holes, filled gaps, small objects removed", n=int(((F > 0) != keep).sum()))
    a = ev.attrs
    ensure(int(a["N_objects_prefiltered"]) == len(sizes), "N_objects_prefiltered is wrong", got=a["N_objects_prefiltered"], want=len(sizes))
    ensure(int(a["N_objects_filtered"]) == n_keep, "N_objects_filtered is wrong", got=a["N_objects_filtered"], want=n_keep)
    ensure(abs(float(a["area_threshold (cells)"]) - thr) < 1e-6, "area_threshold is wrong")
    ensure(abs(float(a["accepted_area_fraction"]) - sizes[sizes >= thr].sum() / sizes.sum()) < 1e-6, "accepted_area_fraction is wrong", got=a["accepted_area_fraction"])
    ensure(abs(float(a["preprocessed_area_fraction"]) - b.sum() / keep.sum()) < 1e-5, "preprocessed_area_fraction is wrong", got=a["preprocessed_area_fraction"])
    ensure(int(a["R_fill"]) == R and int(a["T_fill"]) == T and int(a["allow_merging"]) == merging, "settings are misreported")
    if merging:
        ensure(int(a["nn_partitioning"]) == nn and abs(float(a["overlap_threshold"]) - overlap) < 1e-9, "settings are misreported", got=[str(a["nn_partitioning"]), str(a["overlap_threshold"])])
    else:
        ensure(same_partition(F, comps3_struct(keep, True)), "events without merging are not the space-time connected components")
    return {"objects": len(sizes)}


# ------------------------------------------------------------------ P19 checkpoints
def case_checkpoint(kind="noise", nt=7, ny=8, nx=12, seed=0, density=0.35, grid="gridded", tchunk=3, how="run", nn=False, R=0, T=2, quart=0.5):
    """saving does not change the result, and a later run that loads the saved state reproduces it"""
    track.time.sleep = lambda *a: None
    b = scene(kind, nt, ny, nx, seed, density)
    outs = []
    with Scratch() as d:
        for mode in (None, "save", "load"):
            kw = dict(tchunk=tchunk, R_fill=R, T_fill=T, nn_partitioning=nn, area_filter_quartile=quart)
            run_kw = {}
            if mode and how == "run":
                run_kw["checkpoint"] = mode
            elif mode:
                kw["checkpoint"] = mode
            if grid == "gridded":
                bb = b if mode != "load" else b & False      # a loading run must not depend on the raw data any more
                tr = g_tracker(bb, temp_dir=d, **kw)
                names = ("time", "lat", "lon")
            else:
                bb = np.repeat(b.reshape(nt, -1), 2, axis=1)
                tr = u_tracker(bb, ny, nx, d, **kw)
                names = ("time", "ncells")
            ev, mg = run_all(tr, **run_kw)
            E = ev.compute()
            outs.append((E.ID_field.transpose(*names).values, E.area.transpose("time", "ID").values, {k: float(v) for k, v in E.attrs.items() if np.ndim(v) == 0 and not isinstance(v, str)}))
    for k, nm in ((1, "saving"), (2, "loading")):
        ensure(same_partition(outs[0][0], outs[k][0]), f"{nm} a checkpoint changes the events")
        ensure(np.array_equal(outs[0][0], outs[k][0]), f"{nm} a checkpoint changes the event IDs")
        ensure(np.allclose(outs[0][1], outs[k][1], equal_nan=True), f"{nm} a checkpoint changes the event areas")
        for a in outs[0][2]:
            ensure(np.isclose(outs[0][2][a], outs[k][2][a]), f"{nm} a checkpoint changes attribute '{a}'", was=outs[0][2][a], now=outs[k][2][a])
    return {"events": int(outs[0][0].max())}


def case_zarr(chunks=(3, 5, 2), kind="array", seed=0, timedim="time", other=4, dtype="float32", cleanup=False, nan=True):
    """a checkpointed object equals the original"""
    n = int(sum(chunks))
    r = rng("zarr", chunks, seed)
    v = r.normal(0, 1, (n, other)).astype(dtype)
    if nan:
        v[0, 0] = np.nan
    da = xr.DataArray(v, dims=(timedim, "x"), coords={timedim: np.arange(n), "x": np.arange(other) * 1.5}, name="v", attrs={"u": "K"}).chunk({timedim: tuple(chunks), "x": -1})
    obj = da if kind == "array" else xr.Dataset({"v": da, "w": (da * 2)})
    with Scratch() as d, dask.config.set({"temporary-directory": d}), silence():
        got = helper.checkpoint_to_zarr(obj, name="t", timedim=timedim, cleanup=cleanup)
        if cleanup:
            import os
            ensure(not [x for x in os.listdir(d) if x.startswith("marEx_checkpoint")], "a checkpoint file that was to be deleted is left behind")
        if True:
            got = got.compute()
            vals = got if kind == "array" else got["v"]
            ensure(type(got) is type(obj), "checkpointing changes the type of the object")
            ensure(vals.dims == da.dims and np.array_equal(vals.values, v, equal_nan=True), "a checkpointed array differs from the original")
            ensure(np.array_equal(vals[timedim].values, np.arange(n)) and np.array_equal(vals["x"].values, da["x"].values), "checkpointing changes coordinates")
            if kind != "array":
                ensure(np.allclose(got["w"].values, 2 * v, equal_nan=True), "a checkpointed dataset differs from the original")
    return {}


def case_tuple_fix(chunks=(2, 3), seed=0):
    r = rng("tup", seed)
    v = r.normal(0, 1, (int(sum(chunks)), 3))
    da = xr.DataArray(v, dims=("a", "b"), coords={"a": np.arange(v.shape[0])}, name="q", attrs={"z": 1}).chunk({"a": tuple(chunks)})
    got = helper.fix_dask_tuple_array(da)
    ensure(got.chunks == da.chunks and got.compute().identical(da.compute()), "materialising chunks changes the array")
    return {}


# ------------------------------------------------------------------ P20 chunk independence
def case_chunks(kind="movers", nt=8, ny=12, nx=22, seed=0, density=0.35, tchunks=(8, 3, 1), nn=True, grid="gridded", R=0, T=0, quart=None, thr=0.5, attrs=True):
    out = []
    b = scene(kind, nt, ny, nx, seed, density)
    kw = dict(nn_partitioning=nn, R_fill=R, T_fill=T, overlap_threshold=thr)
    kw.update({"area_filter_quartile": quart} if quart is not None else {"area_filter_absolute": 1})
    for tc in tchunks:
        if grid == "gridded":
            ev, mg = run_all(g_tracker(b, tchunk=tc, **kw))
            F = ev.ID_field.transpose("time", "lat", "lon").compute().values
        else:
            bb = np.repeat(b.reshape(nt, -1), 2, axis=1)
            with Scratch() as d:
                ev, mg = run_all(u_tracker(bb, ny, nx, d, tchunk=tc, area=np.ones(bb.shape[1]), **kw))
                F = ev.ID_field.transpose("time", "ncells").compute().values
        out.append((F, int(ev.attrs["N_events_final"]), int(ev.attrs["total_merges"])))
    for k in range(1, len(out)):
        ensure(same_partition(out[0][0], out[k][0]), "the events depend on how the data are chunked in time", chunks=(tchunks[0], tchunks[k]), n=(out[0][1], out[k][1]))
        ensure(out[0][1:] == out[k][1:], "event or merge counts depend on time chunking", chunks=(tchunks[0], tchunks[k]), a=out[0][1:], b=out[k][1:])
    return {"events": out[0][1]}


def case_chunks_detect(method="hobday_extreme", mp="approximate", anomaly="detrend_harmonic", nt=800, ny=2, nx=4, seed=0, chunks=(800, 120, 37), W=1):
    """anomalies, thresholds and flags do not depend on time chunking"""
    r = rng("chd", seed, method, anomaly)
    t = time_axis("2001-01-01", nt)
    v = (10 + 2 * np.sin(2 * np.pi * np.arange(nt) / 365.25)[:, None, None] + r.normal(0, 1, (nt, ny, nx))).astype(np.float32)
    out = []
    for c in chunks:
        quiet()
        with silence():
            ds = detect.preprocess_data(gridded(v, times=t, chunks={"time": c, "lat": -1, "lon": -1}), method_anomaly=anomaly, method_extreme=method, method_percentile=mp,
                                        window_year_baseline=W, smooth_days_baseline=5, window_days_hobday=5, window_spatial_hobday=1 if mp == "approximate" and method == "hobday_extreme" else None).compute()
        out.append(ds)
    for k in range(1, len(out)):
        ensure(out[0].sizes == out[k].sizes, "output sizes depend on time chunking")
        a, b = out[0].dat_anomaly.values, out[k].dat_anomaly.transpose(*out[0].dat_anomaly.dims).values
        ensure(np.allclose(a, b, atol=1e-4, equal_nan=True), "anomalies depend on time chunking", chunks=(chunks[0], chunks[k]))
        d = np.abs(out[0].thresholds.values - out[k].thresholds.transpose(*out[0].thresholds.dims).values)
        ensure((np.nan_to_num(d) < 2e-2).mean() > 0.99, "thresholds depend on time chunking", chunks=(chunks[0], chunks[k]))
        e0, e1 = out[0].extreme_events.values, out[k].extreme_events.transpose(*out[0].extreme_events.dims).values
        ensure((e0 != e1).mean() < 5e-3, "flags depend on time chunking", chunks=(chunks[0], chunks[k]), frac=float((e0 != e1).mean()))
    return {}


# ------------------------------------------------------------------ P21 logging
def case_logging(seq=(("v", True), ("q", True))):
    import marEx.logging_config as L
    lg = logging.getLogger("marEx")
    with silence():
        want = None
        for op, val in seq:
            if op == "v":
                L.set_verbose_mode(val); want = "verbose" if val else "normal"
            elif op == "q":
                L.set_quiet_mode(val); want = "quiet" if val else "normal"
            elif op == "n":
                L.set_normal_logging(); want = "normal"
            elif op == "c":
                L.configure_logging(**val)
                q, v = bool(val.get("quiet")), bool(val.get("verbose"))
                want = "quiet" if q else ("verbose" if v else "normal")
            lev = {"quiet": logging.WARNING, "verbose": logging.DEBUG, "normal": logging.INFO}[want]
            if op == "c" and val.get("level") is not None:
                lev = getattr(logging, val["level"].upper()) if isinstance(val["level"], str) else val["level"]
            ensure(L.get_verbosity_level() == want, "verbosity mode is wrong", after=[op, val], got=L.get_verbosity_level(), want=want)
            ensure(L.is_quiet_mode() == (want == "quiet") and L.is_verbose_mode() == (want == "verbose"), "mode queries disagree", after=[op, val])
            ensure(lg.level == lev, "logger level does not follow the mode", after=[op, val], got=lg.level, want=lev)
            n = 0 if (op == "c" and val.get("console_output") is False) else 1
            ensure(len(lg.handlers) == n and all(h.level == lev for h in lg.handlers), "handlers accumulate or have the wrong level", n=len(lg.handlers), want=n)
            ensure(lg.propagate is False, "messages propagate to the root logger")
    quiet()
    return {}


# ------------------------------------------------------------------ P22 plotting
def case_clim(seed=0, issym=False, perc=(2, 98), nan=True, n=40):
    from marEx.plotX.base import PlotterBase
    r = rng("clim", seed, issym, perc)
    v = r.normal(r.normal(), 2, n)
    if nan:
        v[:5] = np.nan
    p = PlotterBase.__new__(PlotterBase)
    lo, hi = p.clim_robust(v, issym, list(perc) if perc is not None else None)
    P = list(perc) if perc is not None else [2, 98]
    a, b = np.nanpercentile(v, P)
    if issym:
        m = max(abs(a), abs(b)); a, b = -m, m
    elif P[0] == 0:
        a = 0.0
    ensure(np.isclose(lo, a) and np.isclose(hi, b), "colour limits are not the requested data percentiles", got=(lo, hi), want=(a, b))
    return {}


def case_wrap_lon(nx=12, ny=4, lon0=0.0, span="global", seed=0):
    from marEx.plotX.gridded import GriddedPlotter
    r = rng("wl", nx, seed)
    dl = 360.0 / nx if span == "global" else 2.0
    lon = lon0 + np.arange(nx) * dl
    v = r.normal(0, 1, (ny, nx))
    da = xr.DataArray(v, dims=("lat", "lon"), coords={"lat": np.arange(ny) * 1.0, "lon": lon})
    p = GriddedPlotter.__new__(GriddedPlotter)
    p.dimensions = {"time": "time", "y": "lat", "x": "lon"}
    got = p.wrap_lon(da)
    g = got.transpose("lat", "lon")
    if span == "global":
        ensure(g.shape == (ny, nx + 1), "global field is not closed at the seam", shape=g.shape)
        ensure(np.array_equal(g.values[:, :nx], v) and np.array_equal(g.values[:, nx], v[:, 0]), "closing the seam changes the field")
        ensure(np.allclose(g.lon.values, np.append(lon, lon[0] + 360)), "longitudes of the closed field are wrong")
    else:
        ensure(g.identical(da), "a regional field is altered for plotting")
    return {}


def case_id_plot(ids=(1, 2, 5), shape=(3, 4), seed=0):
    """every event ID gets its own colour bin; background is not drawn"""
    from marEx.plotX.base import PlotterBase, PlotConfig
    r = rng("idp", ids, seed)
    v = r.choice([0] + list(ids), shape)
    v.flat[0] = max(ids)
    p = PlotterBase.__new__(PlotterBase)
    p.dimensions = {"time": "time", "y": "lat", "x": "lon"}
    p.da = xr.DataArray(v, dims=("lat", "lon"))
    cmap, norm, clim, units, ext = p._setup_common_params(PlotConfig(plot_IDs=True))
    bins = [int(norm(i)) for i in range(1, max(ids) + 1)]
    ensure(len(set(bins)) == max(ids), "two events share a colour", bins=bins)
    ensure(np.isnan(p.da.values[v == 0]).all() and (p.da.values[v > 0] == v[v > 0]).all(), "background or event cells are altered when plotting IDs")
    return {}


def case_grid_detect(ydim=True, names=("lat", "lon")):
    import marEx.plotX as PX
    if ydim:
        da = xr.DataArray(np.zeros((3, 4)), dims=names, coords={names[0]: np.arange(3.0), names[1]: np.arange(4.0)})
        dims, co = {"y": names[0], "x": names[1]}, {"y": names[0], "x": names[1]}
    else:
        da = xr.DataArray(np.zeros(5), dims=("ncells",), coords={"lat": ("ncells", np.arange(5.0)), "lon": ("ncells", np.arange(5.0))})
        dims, co = {"x": "ncells"}, {"x": "lon", "y": "lat"}
    got = PX._detect_grid_type(da, dims, co)
    ensure(got == ("gridded" if ydim else "unstructured"), "grid type detected wrongly", got=got)
    return {}


# ------------------------------------------------------------------ P23 errors
def case_errors(cls="ConfigurationError", details="dd", suggestions=("s1", "s2"), context=(("k", 3),), code=None):
    import marEx.exceptions as X
    C = getattr(X, cls)
    kw = {}
    if code is not None:
        kw["error_code"] = code
    e = C("main text", details=details, suggestions=list(suggestions) if suggestions else None, context=dict(context) if context else None, **kw)
    s = str(e)
    ensure(isinstance(e, X.MarExError) and isinstance(e, Exception), "package error outside the hierarchy", cls=cls)
    ensure(s.startswith("main text"), "message lost")
    for part in ([details] if details else []) + list(suggestions or ()) + [f"{k}={v}" for k, v in (context or ())] + ([code] if code else []):
        ensure(part in s, "error text omits information", missing=part, text=s)
    ensure(e.suggestions == list(suggestions or []) and e.context == dict(context or {}), "error attributes are wrong")
    return {}


def case_wrap_error(kind="ValueError", message=None, target=None):
    import builtins
    import marEx.exceptions as X
    want = {"ValueError": "DataValidationError", "TypeError": "DataValidationError", "RuntimeError": "ProcessingError", "KeyError": "ConfigurationError",
            "AttributeError": "ConfigurationError", "ImportError": "DependencyError", "ModuleNotFoundError": "DependencyError"}.get(kind, "MarExError")
    orig = getattr(builtins, kind)("boom")
    w = X.wrap_exception(orig, message=message, marex_exception_type=getattr(X, target) if target else None)
    ensure(type(w).__name__ == (target or want), "wrapped in the wrong error class", got=type(w).__name__, want=target or want)
    ensure(w.__cause__ is orig and "boom" in str(w) and kind in str(w), "the original error is lost")
    ensure(kind in [str(v) for v in w.context.values()], "the original error's type is not recorded", context=str(w.context), want=kind)
    if message:
        ensure(str(w).startswith(message), "custom message lost")
    return {}
