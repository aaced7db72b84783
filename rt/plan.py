"""Which run-time contracts (bounded stand-ins / replay searches) belong to which property.

plan(pid, tier, seed) -> list of (module, case, params).  Deterministic.  The quick list is a prefix-like subset of the thorough one.
"""
import random


def _seeds(tier, nq, nt, seed):
    n = nq if tier == "quick" else nt
    return [seed - 1 + k for k in range(n)]


def plan(pid, tier="quick", seed=1):
    q = tier == "quick"
    L = []

    def add(mod, case, **kw):
        L.append((mod, case, kw))
    S = lambda a, b: _seeds(tier, a, b, seed)
    S0 = seed - 1
    if pid in ("P01", "P02", "P03", "P04", "P05", "P06"):
        # the whole pipeline with every option away from its default
        for s in S(1, 4):
            P = lambda **k: add("det", "case_pipeline", seed=s, **k)
            if pid in ("P03", "P01"):
                P(anomaly="fixed_baseline", nt=800, ws=3 if pid == "P03" else 1)
                P(anomaly="detrend_harmonic", nt=800, std=True, grid="mesh", wd=3)
            if pid == "P03":
                P(anomaly="detrend_harmonic", mp="exact", nt=760, wd=15, pct=85.0)
            if pid in ("P02", "P01", "P06"):
                P(anomaly="detrend_harmonic", extreme="global_extreme", nt=500, std=True, maxan=7.0, precision=0.05)
                P(anomaly="fixed_baseline", extreme="global_extreme", mp="exact", nt=500, grid="mesh", pct=75.0)
            if pid in ("P04", "P06"):
                P(extreme="global_extreme", W=1, S=5, nt=900)
                P(extreme="global_extreme", mp="exact", W=2, S=9, nt=1200, grid="mesh", start="2003-01-01")
            if pid == "P05":
                P(anomaly="detrend_harmonic", extreme="global_extreme", mp="exact", nt=800, std=True, zero_mean=bool(s % 2), orders=(1, 3))
                P(anomaly="detrend_fixed_baseline", extreme="global_extreme", mp="exact", nt=800, zero_mean=bool((s + 1) % 2), orders=(1, 2), grid="mesh")
                P(anomaly="fixed_baseline", extreme="global_extreme", mp="exact", nt=800)
    if pid == "P01":
        for s in S(2, 8):
            for kind in ("ties", "normal"):
                add("det", "case_flags", kind=kind, seed=s)
                add("det", "case_flags", kind=kind, seed=s, mp="approximate", names=("t", "yy", "xx"))
                add("det", "case_flags", kind=kind, seed=s, method="hobday_extreme", mp="approximate", nt=800)
                add("det", "case_flags", kind=kind, seed=s, method="hobday_extreme", mp="exact", nt=760)
                add("det", "case_flags", kind=kind, seed=s, grid="mesh", method="hobday_extreme", mp="approximate", nt=800)
            add("det", "case_flags", kind="ties", seed=s, grid="mesh", mp="exact")
            add("det", "case_flags", kind="ties", seed=s, grid="mesh", mp="approximate", pct=60)
            add("det", "case_flags", kind="const0", seed=s, mp="approximate")
            add("det", "case_flags", kind="normal", seed=s, entry="detrend_harmonic+stn", method="global_extreme", mp=("exact", "approximate")[s % 2], nt=1100)
            add("det", "case_flags", kind="normal", seed=s, entry="detrend_harmonic+stn", method="hobday_extreme", mp="approximate", nt=1100, ws=(1, 3)[s % 2], pct=80, start="2003-01-01")
            add("det", "case_flags", kind="normal", seed=s, entry=("fixed_baseline", "detrend_fixed_baseline")[s % 2], method="hobday_extreme", mp="exact", nt=1100, start="2003-01-01")
            add("det", "case_flags", kind="normal", seed=s, entry="shifting_baseline", method="global_extreme", mp="exact", nt=1300, grid=("gridded", "mesh")[s % 2])
            add("det", "case_flags", kind="skew", seed=s, method="hobday_extreme", mp="approximate", ws=1, nt=400, start="2004-02-20")
    elif pid == "P02":
        for s in S(3, 12):
            for pct in (60, 90, 99):
                add("det", "case_const_threshold", seed=s, pct=pct)
                add("det", "case_const_threshold", seed=s, pct=pct, mp="approximate", kind="skew")
            add("det", "case_const_threshold", seed=s, pct=95, mp="approximate", kind="bimodal", nt=900)
            add("det", "case_const_threshold", seed=s, pct=95, mp="approximate", kind="normal", precision=0.05, max_anomaly=6.0)
            add("det", "case_const_threshold", seed=s, pct=95, grid="mesh")
            add("det", "case_const_threshold", seed=s, pct=(92.5, 97.3, 89.9)[s % 3], kind="skew")
            add("det", "case_const_threshold", seed=s, pct=(92.5, 97.3, 60.5)[s % 3], kind="skew", mp="approximate", precision=0.002)
            add("det", "case_const_threshold", seed=s, pct=95, kind="high", mp="approximate", precision=0.05)
            add("det", "case_const_threshold", seed=s, pct=90, kind="seasonal", mp="approximate", precision=0.01, max_anomaly=12.0)
            add("det", "case_const_threshold", seed=s, pct=90, kind="normal", mp=("exact", "approximate", "approximate")[s % 3], entry=("fixed_baseline", "detrend_harmonic+stn", "detrend_harmonic")[s % 3], nt=1100,
                **({} if s % 3 == 0 else dict(precision=0.004, max_anomaly=6.0)))
            add("det", "case_const_threshold", seed=s, pct=95, grid="mesh", mp="approximate")
            add("det", "case_const_threshold", seed=s, pct=30, kind="ties")
            add("det", "case_const_threshold", seed=s, pct=90, mp="approximate", kind="const0", names=("t", "y", "x"))
    elif pid == "P03":
        for s in S(2, 6):
            add("det", "case_doy_threshold", seed=s, kind="skew", wd=11, ws=1)
            add("det", "case_doy_threshold", seed=s, kind="normal", wd=5, ws=3, ny=4, nx=5, stride=41)
            add("det", "case_doy_threshold", seed=s, kind="skew", wd=1, ws=5, ny=3, nx=6, stride=53)
            add("det", "case_doy_threshold", seed=s, kind="skew", wd=11, mp="exact", stride=29)
            add("det", "case_doy_threshold", seed=s, kind="skew", wd=3, grid="mesh", stride=23)
            add("det", "case_doy_threshold", seed=s, kind="seasonal", wd=3, ws=3, ny=3, nx=4, stride=37, pct=(92.5, 81.3)[s % 2], precision=0.01, max_anomaly=8.0)
            add("det", "case_doy_threshold", seed=s, kind="seasonal", wd=9, ws=1, stride=31, pct=(95, 88)[s % 2], precision=0.05, max_anomaly=8.0, start="2001-05-01")
            add("det", "case_doy_threshold", seed=s, kind="skew", wd=(7, 3)[s % 2], mp="exact", stride=29, pct=(92.5, 71.3)[s % 2], grid=("gridded", "mesh")[s % 2])
            add("det", "case_doy_threshold", seed=s, kind="high", wd=3, ws=1, stride=41, pct=90, precision=0.05)
            add("det", "case_doy_threshold", seed=s, kind="normal", wd=(3, 9)[s % 2], mp=("approximate", "exact")[s % 2], entry=("detrend_harmonic+stn", "fixed_baseline")[s % 2], stride=41, nt=1300, pct=85,
                ws=(3, None)[s % 2], precision=0.03, max_anomaly=7.0)
            add("det", "case_doy_threshold", seed=s, kind="bimodal", wd=31, ws=None, ny=5, nx=6, stride=61, pct=80)
            add("det", "case_doy_threshold", seed=s, kind="seasonal", wd=3, ws=None, ny=3, nx=6, stride=(61, 47)[s % 2], pct=90, precision=0.01, max_anomaly=8.0)
        for s in S(60, 240):
            add("det", "case_hist_kernel", seed=s, n_doy=5 + s % 7, n_bins=3 + s % 5, wd=1 + 2 * (s % 3), q=(0.6, 0.9, 0.95, 0.5, 0.75)[s % 5], sparse=(0.3, 0.6, 0.9, 0.15)[s % 4],
                zero_rows=() if s % 4 else (0, 1, 2))
    elif pid == "P04":
        add("det", "case_shifting", nyears=92, W=1, S=3, chunks=6000, entry="anomaly", start="1900-01-01", nx=1, step=50)
        for s in S(2, 6):
            add("det", "case_shifting", seed=s, step=3)
            add("det", "case_shifting", seed=s, W=3, S=11, nyears=5, grid="mesh", step=5)
            add("det", "case_shifting", seed=s, W=1, S=1, nyears=3, start="2003-01-01", names=("t", "y", "x"), step=3)
            add("det", "case_shifting", seed=s, W=2, S=21, nyears=5, entry="anomaly", step=5)
            add("det", "case_shifting", seed=s, W=2, S=5, nyears=6, drop=(2003,), entry="anomaly", step=5)
            add("det", "case_shifting", seed=s, W=2, S=5, nyears=4, start="2003-06-15", land=((0, 1),), step=3)
            add("det", "case_causal", seed=s)
            add("det", "case_causal", seed=s, W=1, change_year=2002)
    elif pid == "P05":
        for s in S(2, 6):
            for method in ("detrend_harmonic", "fixed_baseline", "detrend_fixed_baseline"):
                add("det", "case_detrend", seed=s, method=method)
                add("det", "case_detrend", seed=s, method=method, grid="mesh", orders=(1, 2))
                add("det", "case_detrend", seed=s, method=method, names=("t", "y", "x"), transpose=True)
            add("det", "case_detrend", seed=s, orders=(1, 2, 3), zero_mean=False)
            add("det", "case_detrend", seed=s, orders=(1, 2), zero_mean=bool(s % 2), entry="preprocess", std=True, nt=1100, start="2003-01-01")
            add("det", "case_detrend", seed=s, orders=(2,), method="detrend_fixed_baseline", entry="preprocess", grid=("gridded", "mesh")[s % 2])
            add("det", "case_detrend", seed=s, method="fixed_baseline", nt=1600, start="2003-06-01", chunks=90)
            add("det", "case_detrend", seed=s, orders=(2,), zero_mean=True)
            add("det", "case_detrend", seed=s, std=True, nt=1100)
            add("det", "case_detrend", seed=s, std=True, nt=800, scale=(2e-3, 40.0)[s % 2], grid="mesh", start="2005-01-01", orders=(1, 2))
            add("det", "case_detrend", seed=s, std=True, nt=1100, start="2004-03-01", land=())
            add("det", "case_detrend", seed=s, method="detrend_fixed_baseline", orders=(1, 2), zero_mean=False, freq="5D", nt=500)
    elif pid == "P06":
        for g in ("gridded", "mesh"):
            for v in ("nan", "inf", "-inf"):
                for w in ("mid", "last", "one"):
                    if q and w == "mid" and v != "nan":
                        continue
                    add("det", "case_refuse_data", where=w, value=v, grid=g)
            add("det", "case_refuse_data", first_all=True, grid=g)
            add("det", "case_refuse_data", where="none", grid=g)
            add("det", "case_refuse_data", masked_change=True, grid=g)
        C = "ConfigurationError"; D = "DataValidationError"
        H = dict(method_extreme="hobday_extreme")
        for kw, ex, g in (
            (dict(method_percentile="bogus"), C, "gridded"), (dict(method_percentile="exact", precision=0.02), C, "gridded"),
            (dict(method_percentile="exact", max_anomaly=4.0), C, "gridded"), (dict(threshold_percentile=59.9), C, "gridded"),
            (dict(threshold_percentile=55, method_extreme="global_extreme"), C, "mesh"), (dict(window_days_hobday=2, **H), C, "mesh"), (dict(window_days_hobday=6, method_percentile="exact", **H), C, "gridded"),
            (dict(window_spatial_hobday=5, method_percentile="exact", **H), C, "gridded"), (dict(window_spatial_hobday=1, method_percentile="exact", **H), C, "gridded"), (dict(window_spatial_hobday=1, **H), C, "mesh"),
            (dict(window_spatial_hobday=6, **H), C, "gridded"), (dict(window_spatial_hobday=1, **H), None, "gridded"),
            (dict(threshold_percentile=60, method_extreme="global_extreme"), None, "gridded"),
            (dict(threshold_percentile=10, method_percentile="exact", method_extreme="global_extreme"), None, "gridded"),
            (dict(method_extreme="bogus"), C, "gridded"), (dict(window_days_hobday=4, **H), C, "gridded"), (dict(window_days_hobday=5, **H), None, "gridded"),
            (dict(window_spatial_hobday=2, **H), C, "gridded"), (dict(window_spatial_hobday=3, **H), None, "gridded"),
            (dict(window_spatial_hobday=3, method_extreme="global_extreme"), C, "gridded"), (dict(window_spatial_hobday=3, method_percentile="exact", **H), C, "gridded"),
            (dict(window_spatial_hobday=3, **H), C, "mesh"), (dict(window_days_hobday=4, method_extreme="global_extreme", method_percentile="exact"), None, "gridded"),
            (dict(dims={"time": "time", "x": "nope", "y": "lat"}), D, "gridded"), (dict(coords={"time": "time", "x": "nope", "y": "lat"}), D, "gridded"),
        ):
            add("det", "case_refuse_config", kw=kw, expect=ex, grid=g)
        for kw, ex in ((dict(method_anomaly="bogus"), C), (dict(method_anomaly="fixed_baseline"), None),
                       (dict(method_anomaly="detrend_harmonic", detrend_orders=[0]), C), (dict(method_anomaly="detrend_harmonic", detrend_orders=[1]), None),
                       (dict(method_anomaly="detrend_fixed_baseline", detrend_orders=[-1]), C),
                       (dict(method_anomaly="detrend_harmonic", detrend_orders=[1, 0]), C), (dict(method_anomaly="detrend_harmonic", detrend_orders=[]), C), (dict(method_anomaly="detrend_fixed_baseline", detrend_orders=[1, 0, 2]), C),
                       (dict(method_anomaly="detrend_fixed_baseline", detrend_orders=[2, 3]), None)):
            add("det", "case_refuse_config", kw=kw, expect=ex, entry="anomaly")
        for kw, ex in ((dict(numpy=True), D), (dict(method_anomaly="shifting_baseline", window_year_baseline=15), D), (dict(method_anomaly="shifting_baseline", window_year_baseline=3, smooth_days_baseline=1), D), (dict(dims={"time": "time", "x": "lon", "y": "zz"}), D)):
            add("det", "case_refuse_config", kw=kw, expect=ex, entry="preprocess")
    elif pid == "P07":
        for s in S(3, 10):
            for R in (1, 2, 3):
                add("trk", "case_fill_struct", seed=s, R=R)
                add("trk", "case_fill_struct", seed=s, R=R, regional=True, kind="noise", density=0.5)
                add("trk", "case_fill_struct", seed=s, R=R, land="speckle")
                add("trk", "case_fill_mesh", seed=s, R=R, land=("none", "speckle", "block")[s % 3])
            add("trk", "case_fill_struct", seed=s, R=4, ny=9, nx=11)
            add("trk", "case_fill_struct", seed=s, R=0)
            add("trk", "case_fill_mesh", seed=s, R=0)
        for s in S(10, 60):
            add("trk", "case_sparse_power", seed=s, exponent=s % 5, n=3 + s % 6)
        for s in S(2, 6):
            add("misc", "case_attrs", seed=s + 20, R=(2, 1)[s % 2], density=0.5, kind="blobs", ny=12, nx=16)
            add("misc", "case_attrs", seed=s + 20, R=3, absolute=1, land="speckle", density=0.45, ny=10, nx=16, tchunk=5)
    elif pid == "P08":
        for s in S(2, 6):
            add("misc", "case_attrs", seed=s + 25, T=2, R=(0, 2)[s % 2], density=0.4, nt=8, tchunk=3, absolute=1)
            add("misc", "case_attrs", seed=s + 25, T=4, R=0, density=0.25, nt=11, tchunk=(4, 1)[s % 2], absolute=2, land="block")
        for s in S(3, 10):
            for T in (0, 2, 4, 6):
                add("trk", "case_time_gaps", seed=s, T=T, tchunk=(4, 1, 13, 3)[s % 4])
            add("trk", "case_time_gaps", seed=s, T=2, R=3, ny=10, nx=14)
            add("trk", "case_time_gaps", seed=s, T=4, land="block", density=0.25)
            add("trk", "case_time_gaps", seed=s, T=2, grid="mesh", R=2, land="speckle", ny=4, nx=5)
    elif pid == "P09":
        for s in S(3, 10):
            for kw in (dict(quartile=0.5), dict(absolute=3), dict(quartile=0.0), dict(quartile=1.0), dict(absolute=1), dict(quartile=0.8)):
                add("trk", "case_filter", seed=s, **kw)
            add("trk", "case_filter", seed=s, regional=True, quartile=0.5)
            add("trk", "case_filter", seed=s, tchunk=1, absolute=4, kind="blobs")
            add("trk", "case_filter", seed=s, grid="mesh", absolute=8, ny=8, nx=12)
            add("trk", "case_filter", seed=s, grid="mesh", absolute=6, kind="blobs", ny=10, nx=14)
            add("trk", "case_filter", seed=s, grid="mesh", quartile=0.5, kind="blobs", ny=16, nx=24, density=0.45)
            add("misc", "case_attrs", seed=s, R=0)
            add("misc", "case_attrs", seed=s, R=2, T=2, density=0.5)
            add("misc", "case_attrs", seed=s, absolute=3, T=2)
    elif pid == "P10":
        for s in S(3, 10):
            add("trk", "case_identify", seed=s)
            add("trk", "case_identify", seed=s, regional=True)
            add("trk", "case_identify", seed=s, time_connectivity=True, density=0.25)
            add("trk", "case_identify", seed=s, time_connectivity=True, regional=True, density=0.2)
            add("trk", "case_identify", seed=s, tchunk=1, kind="blobs")
            add("trk", "case_identify", seed=s, tchunk=4, land="strait")
            add("trk", "case_identify", seed=s, grid="mesh", density=0.5)
            add("trk", "case_identify", seed=s, grid="mesh", density=0.6, land="speckle", tchunk=1)
            add("trk", "case_track", seed=s, kind="noise", density=(0.12, 0.3, 0.2)[s % 3], merging=False, nt=6, ny=7, nx=12, regional=bool(s % 2))
            add("trk", "case_track", seed=s, kind="noise", density=0.3, nt=4, ny=8, nx=12, nn=bool(s % 2), tchunk=2)
    elif pid == "P11":
        for s in S(6, 30):
            add("trk", "case_overlap_slice", seed=s, nid=2 + s % 5, gap=1 + s % 3)
            add("trk", "case_overlap_slice", seed=s, nid=3, grid="mesh")
            add("trk", "case_overlap_slice", seed=s, nid=3 + s % 3, grid=("gridded", "mesh")[s % 2], gap=(50021, 70001, 131072)[s % 3])      # products of IDs exceed 32 bits
        for s in S(3, 10):
            add("trk", "case_find_overlaps", seed=s, tchunk=(2, 1, 3)[s % 3])
            add("trk", "case_find_overlaps", seed=s, kind="noise", tchunk=(1, 5, 2)[s % 3])
            add("trk", "case_find_overlaps", seed=s, grid="mesh", tchunk=(2, 1, 3)[s % 3], ny=4, nx=6)
        for s in S(8, 40):
            add("trk", "case_threshold", seed=s, thr=(0.5, 0.25, 0.0, 1.0)[s % 4])
            add("trk", "case_threshold", seed=s, grid="mesh", thr=(0.5, 0.3)[s % 2], integral=bool(s % 2))
        for s in S(2, 8):
            add("trk", "case_track", seed=s, kind="late", nt=4, ny=6, nx=20, tchunk=(1, 2)[s % 2], nn=True, regional=True)
            add("trk", "case_track_mesh", seed=s, kind="late", nt=4, ny=6, nx=20, tchunk=4, nn=True, areas="unit")
            add("trk", "case_track_mesh", seed=s, kind="blobs", nt=6, ny=7, nx=11, tchunk=6, nn=True, areas="geo", thr=0.3)
            add("trk", "case_track_mesh", seed=s, kind="shrink", nt=4, ny=8, nx=14, tchunk=4, nn=bool(s % 2), areas="unit")
            add("trk", "case_track", seed=s, kind="half", nt=6, ny=9, nx=14, tchunk=(2, 3)[s % 2], nn=bool(s % 2))
            add("trk", "case_track_mesh", seed=s, kind="half", nt=6, ny=9, nx=14, tchunk=(6, 2)[s % 2], nn=bool(s % 2), areas="unit")
            add("trk", "case_track", seed=s + 3, kind="blobs", thr=(0.3, 0.7)[s % 2], tchunk=2)
    elif pid == "P12":
        for s in S(20, 120):
            add("trk", "case_nn_grid", seed=s, np_=2 + s % 3, wrap=bool(s % 2), maxd=(40, 3, 6)[s % 3], density=(0.5, 0.9)[s % 2], ny=4 + s % 4, nx=7 + s % 6)
            add("trk", "case_dist_kernel", seed=s, wrap=bool(s % 2), nx=5 + s % 5)
        for s in S(10, 60):
            add("trk", "case_nn_mesh", seed=s, np_=2 + s % 3)
            add("trk", "case_nn_mesh", seed=s, np_=2 + s % 3, kernel="plain")
            add("trk", "case_centroid_mesh", seed=s, np_=2 + s % 3)
        for s in S(2, 8):
            for nn in (True, False):
                add("trk", "case_track", seed=s, kind="long", nt=4, ny=8, nx=20, tchunk=2, nn=nn)
                add("trk", "case_track", seed=s, kind="far", nt=4, ny=8, nx=60, tchunk=2, nn=nn, regional=bool(s % 2))
                add("trk", "case_track_mesh", seed=s, kind="far", nt=4, ny=7, nx=48, tchunk=4, nn=nn, areas="unit")
                add("trk", "case_track", seed=s, kind="long", nt=4, ny=8, nx=20, tchunk=4, nn=nn, regional=True)
                add("trk", "case_track_mesh", seed=s, kind="long", nt=4, ny=8, nx=20, tchunk=4, nn=nn, areas="unit")
            add("trk", "case_track_mesh", seed=s, kind="blobs", nt=6, ny=9, nx=14, tchunk=6, nn=False, areas="steep", thr=0.25)
            add("trk", "case_track_mesh", seed=s + 3, kind="movers", nt=8, ny=9, nx=14, tchunk=8, nn=False, areas="steep", thr=0.3)
            add("trk", "case_track", seed=s, kind="vast", nt=4, ny=20, nx=116, tchunk=2, regional=True)
            for nn in (True, False):
                add("trk", "case_track_mesh", seed=s, kind="aside", nt=4, ny=8, nx=20, tchunk=4, nn=nn, areas="unit", thr=0.2)
                add("trk", "case_track", seed=s, kind="aside", nt=4, ny=8, nx=20, tchunk=2, nn=nn, thr=0.2, regional=bool(s % 2))
            add("trk", "case_track", seed=s + 9, kind="movers", nn=bool(s % 2))
    elif pid in ("P13", "P14", "P15"):
        k0 = {"P13": 0, "P14": 1, "P15": 2}[pid]
        add("trk", "case_track", seed=1, kind="many", nt=4, ny=16, nx=36, tchunk=2, nn=k0 == 1, thr=0.3)
        for s in S(3, 12):
            for nn in (True, False):
                add("trk", "case_track", seed=s, nn=nn, tchunk=(3, 1, 2, 8)[(s + k0) % 4])
                add("trk", "case_track", seed=s + 50 * k0, nn=nn, kind="blobs", regional=True, thr=0.25)
                add("trk", "case_track", seed=s + 70 * k0, nn=nn, tchunk=2, areas="cell", thr=(0.5, 0.3, 0.8)[k0])
                add("trk", "case_track", seed=s, nn=nn, tchunk=8, areas="res", land="speckle")
                add("trk", "case_track_mesh", seed=s, nn=nn, tchunk=7, areas=("unit", "geo", "rand")[(s + k0) % 3])
            add("trk", "case_track", seed=s, kind="triple", ny=13, nx=20, nt=6, tchunk=2, nn=bool(s % 2))
            add("trk", "case_track_mesh", seed=s, kind="triple", ny=13, nx=20, nt=6, tchunk=(1, 2, 3)[s % 3], nn=bool(s % 2), areas="unit")
            add("trk", "case_track", seed=s, kind="cascade", nt=6, ny=8, nx=24, tchunk=(1, 2, 3, 6)[(s + k0) % 4], nn=bool((s + k0) % 2))
            add("trk", "case_track", seed=s, kind="late", nt=4, ny=6, nx=20, tchunk=(1, 2, 3, 4)[(s + k0) % 4], nn=True, regional=True)
            add("trk", "case_track_mesh", seed=s, kind="late", nt=4, ny=6, nx=20, tchunk=4, nn=True, areas="unit")
            add("trk", "case_track", seed=s, kind="shrink", nt=4, ny=8, nx=14, tchunk=(1, 2, 3, 4)[(s + k0) % 4], nn=bool((s + k0) % 2), regional=True)
            add("trk", "case_track_mesh", seed=s, kind="shrink", nt=4, ny=8, nx=14, tchunk=4, nn=bool((s + k0) % 2), areas="unit")
            add("trk", "case_track_mesh", seed=s, kind="cascade", nt=6, ny=8, nx=24, tchunk=6, nn=bool((s + k0) % 2), areas="unit")
            add("trk", "case_track", seed=s, kind="movers", merging=False)
            add("trk", "case_track", seed=s, kind="noise", density=(0.12, 0.2, 0.3)[s % 3], merging=False, nt=6, ny=7, nx=12)
            add("trk", "case_track", seed=s + 5 + k0, kind="movers", nt=14, tchunk=1, nn=bool(s % 2), nx=18)
            if pid != "P14" and s < S0 + 2:
                add("trk", "case_track", seed=s, kind="steady", nt=24, tchunk=2, nn=bool(s % 2), ny=9, nx=12)
            add("trk", "case_track", seed=s, kind=("long", "half")[s % 2], nt=6, ny=9, nx=20, tchunk=(2, 4)[s % 2], nn=bool(s % 2), regional=bool((s // 2) % 2))
            add("trk", "case_track_mesh", seed=s, kind=("half", "long")[s % 2], nt=6, ny=9, nx=20, tchunk=6, nn=bool(s % 2), areas="unit")
            add("trk", "case_track", seed=s, kind="rare", nt=40, ny=7, nx=12, tchunk=10)
            if pid == "P14":
                add("trk", "case_track", seed=s, kind="movers", lon0=-180.0, areas="res")
                add("trk", "case_track", seed=s, kind="movers", names=("t", "y", "x"), order=("x", "t", "y"))
                add("trk", "case_track_mesh", seed=s, tchunk=7, lon_range="0_360", units=("degrees", "radians")[s % 2])
    elif pid == "P16":
        for s in S(4, 16):
            for nn in (True, False):
                add("misc", "case_roll", seed=s, nn=nn, shift=3 + 2 * s)
            add("misc", "case_roll", seed=s, R=2, T=2, quart=0.4, shift=1 + s)
            add("misc", "case_roll", seed=s + 40, shift=9 + s, thr=0.3)
            add("trk", "case_identify", seed=s + 30)
            add("trk", "case_identify", seed=s + 30, regional=True, time_connectivity=True)
            add("trk", "case_fill_struct", seed=s + 30, R=2)
            add("trk", "case_nn_grid", seed=s + 900, wrap=True)
            add("trk", "case_nn_grid", seed=s + 900, wrap=False)
            add("trk", "case_dist_kernel", seed=s + 900, wrap=bool(s % 2))
            add("trk", "case_track", seed=s + 20, regional=True, nn=bool(s % 2))
            add("trk", "case_track", seed=s, kind="long", nt=4, ny=8, nx=20, tchunk=4, nn=bool(s % 2), regional=bool((s // 2) % 2))
        add("misc", "case_seam_pair", regional=False)
        add("misc", "case_seam_pair", regional=True)
    elif pid == "P17":
        for s in S(2, 8):
            for lr in ("0_360", "pm180"):
                add("misc", "case_units", seed=s, lonrange=lr)
                add("misc", "case_units", seed=s, lonrange=lr, areas="cell", auto=False, nn=True)
                add("misc", "case_units", seed=s, lonrange=lr, grid="mesh", ny=6, nx=10, nn=bool(s % 2))
            add("misc", "case_units", seed=s, regional=True, auto=False)
            add("misc", "case_units", seed=s, lonrange="from0", grid="mesh", ny=6, nx=10)
        import math
        for sp, e in ((359.5, "degrees"), (359.0, "degrees"), (361.0, "degrees"), (358.9, "refused"), (361.2, "refused"), (2 * math.pi, "radians"), (6.27, "radians"),
                      (6.25, "refused"), (6.31, "refused"), (100.0, "refused"), (180.0, "refused")):
            add("misc", "case_auto_units", span=sp, expect=e)
        for sp, e, u, r in ((50.0, "refused", None, True), (50.0, "degrees", "degrees", True), (50.0, "refused", "deg", False), (50.0, "refused", "deg", True), (1.0, "radians", "radians", True),
                            (100.0, "radians", "radians", False)):
            add("misc", "case_auto_units", span=sp, expect=e, units=u, regional=r)
        add("misc", "case_no_mutation"); add("misc", "case_no_mutation", units="degrees")
    elif pid == "P18":
        C = "ConfigurationError"; D = "DataValidationError"
        for kw, ex in (({}, None), ({"area_filter_quartile": 0.3, "area_filter_absolute": 3}, C), ({"area_filter_quartile": 0.0, "area_filter_absolute": 3}, C),
                       ({"area_filter_quartile": -0.1}, C), ({"area_filter_quartile": 1.1}, C), ({"area_filter_quartile": 0.0}, None), ({"area_filter_quartile": 1.0}, None),
                       ({"area_filter_absolute": 0}, C), ({"area_filter_absolute": -2}, C), ({"area_filter_absolute": 1}, None), ({"T_fill": 1}, C), ({"T_fill": 3}, C),
                       ({"T_fill": 4}, None), ({"grid_resolution": 0}, D), ({"grid_resolution": -1.0}, D), ({"grid_resolution": 0.5}, None), ({"regional_mode": True}, None),
                       ({"coordinate_units": "deg"}, "CoordinateError"), ({"regional_mode": True, "coordinate_units": None}, "CoordinateError")):
            add("misc", "case_tracker_config", kw=kw, expect=ex)
        for m, ex in (("float", D), ("intmask", D), ("emptymask", D), ("notdask", D), ("xchunk", None), ("4d", D), ("badareas", D), ("transposed", None)):
            add("misc", "case_tracker_config", mutate=m, expect=ex)
        for m, ex in (("float", D), ("intmask", D), ("emptymask", D), ("notdask", D), ("drop:temp_dir", D), ("drop:neighbours", D), ("drop:cell_areas", D), ("badnv", D), ("xchunk", None),
                      ("transposed", None), ("", None)):
            add("misc", "case_tracker_config", mutate=m, expect=ex, grid="mesh")
        add("misc", "case_tracker_config", grid="mesh", kw={"grid_resolution": 1.0}, expect=D)
        add("misc", "case_tracker_config", grid="mesh", kw={"regional_mode": True}, expect="NotImplementedError")
        add("misc", "case_tracker_config", grid="mesh", kw={"T_fill": 5}, expect=C)
        for s in S(2, 6):
            add("misc", "case_attrs", seed=s + 10)
            add("misc", "case_attrs", seed=s + 10, R=2, T=4, density=0.45)
            add("misc", "case_attrs", seed=s + 10, absolute=5)
            add("misc", "case_attrs", seed=s + 11, absolute=2, nn=True, thr=(0.25, 0.8)[s % 2])
            add("misc", "case_attrs", seed=s + 12, quart=0.3, merging=False, nn=bool(s % 2))
    elif pid == "P19":
        for s in S(2, 6):
            add("misc", "case_checkpoint", seed=s)
            add("misc", "case_checkpoint", seed=s, how="init", nn=True, kind="movers", quart=0.2)
            add("misc", "case_checkpoint", seed=s, tchunk=2, R=2, density=0.5, T=4)
            add("misc", "case_checkpoint", seed=s, grid="mesh", density=0.6, ny=6, nx=9, quart=0.0, tchunk=7)
            for c in ((3, 5, 2), (4, 4), (4, 4, 3), (1, 7), (5,), (7, 1, 1), (2, 3, 2, 3)):
                add("misc", "case_zarr", chunks=c, seed=s)
                add("misc", "case_zarr", chunks=c, kind="ds", seed=s)
            add("misc", "case_zarr", timedim="t2", seed=s)
            add("misc", "case_zarr", cleanup=True, seed=s, kind=("array", "dataset")[s % 2])
            add("misc", "case_tuple_fix", seed=s)
            add("det", "case_ckpt_detect", seed=s, grid=("gridded", "mesh")[s % 2])
            add("det", "case_ckpt_detect", seed=s, method="detrend_harmonic", std=True, nt=1150)
            add("det", "case_ckpt_detect", seed=s, method="shifting_baseline", extreme="global_extreme", mp="exact", chunks=(150, 37)[s % 2])
    elif pid == "P20":
        add("misc", "case_chunks", grid="mesh", seed=0, nn=True, tchunks=(8, 3))          # known finding F2
        for s in S(3, 10):
            add("misc", "case_chunks", seed=s)
            add("misc", "case_chunks", seed=s, nn=False, R=2, T=2, quart=0.3, tchunks=(8, 2, 5))
            if s < S0 + 2:
                add("misc", "case_chunks", seed=s, kind="steady", nn=bool(s % 2), nt=24, ny=9, nx=12, tchunks=(24, 2))
            add("misc", "case_chunks", seed=s + 4, nn=bool(s % 2), nt=14, nx=18, tchunks=(14, 1, (3, 1, 4, 6)))
            add("misc", "case_chunks", seed=s, kind="blobs", thr=0.25, nt=9, ny=9, nx=14, tchunks=(9, 2, (1, 5, 3)), nn=bool((s + 1) % 2))
            add("misc", "case_chunks", grid="mesh", kind="triple", seed=s, nt=6, ny=13, nx=20, tchunks=(6, 1, 2, 3), nn=bool(s % 2))
            add("misc", "case_chunks_detect", seed=s)
            add("misc", "case_chunks_detect", seed=s, anomaly="shifting_baseline", nt=1100, W=2, chunks=(1100, 120, 37))
            add("misc", "case_chunks_detect", seed=s, anomaly="fixed_baseline", method="global_extreme")
        for s in S(1, 3):
            add("misc", "case_chunks_detect", seed=s, method="global_extreme", mp="exact", chunks=(800, 120))
            add("misc", "case_chunks_detect", seed=s, anomaly="detrend_fixed_baseline", mp="exact", chunks=(800, 120))
    elif pid == "P21":
        r = random.Random(seed)
        for s in ((("v", True), ("q", True)), (("q", True), ("v", True)), (("q", True), ("q", False)), (("c", {"quiet": True, "verbose": True}),),
                  (("n", 0), ("c", {"level": "ERROR"}), ("c", {"verbose": True, "level": "INFO"}), ("c", {"console_output": False}), ("v", False))):
            add("misc", "case_logging", seq=s)
        ops = [("v", True), ("v", False), ("q", True), ("q", False), ("n", 0), ("c", {"quiet": True, "verbose": True}), ("c", {"quiet": False, "verbose": True}), ("c", {"level": 10}),
               ("c", {"quiet": True, "level": "DEBUG"}), ("c", {"console_output": False, "verbose": True})]
        for _ in range(20 if q else 200):
            add("misc", "case_logging", seq=[r.choice(ops) for _ in range(4)])
    elif pid == "P22":
        for s in S(4, 20):
            add("misc", "case_clim", seed=s); add("misc", "case_clim", issym=True, perc=(5, 90), seed=s); add("misc", "case_clim", perc=(0, 98), seed=s); add("misc", "case_clim", perc=None, seed=s)
            add("misc", "case_clim", issym=True, perc=(0, 100), seed=s)
            add("misc", "case_wrap_lon", nx=6 + s, seed=s); add("misc", "case_wrap_lon", lon0=-180.0, nx=8 + s, seed=s); add("misc", "case_wrap_lon", span="regional", nx=5 + s, seed=s)
            add("misc", "case_id_plot", seed=s); add("misc", "case_id_plot", ids=(1, 2, 3, 9 + s), seed=s)
        add("misc", "case_grid_detect"); add("misc", "case_grid_detect", ydim=False); add("misc", "case_grid_detect", names=("yy", "xx"))
    elif pid == "P23":
        for c in "MarExError DataValidationError CoordinateError ProcessingError ConfigurationError DependencyError TrackingError VisualisationError".split():
            add("misc", "case_errors", cls=c); add("misc", "case_errors", cls=c, code="Z9", details=None); add("misc", "case_errors", cls=c, suggestions=None, context=None)
        for k in "ValueError TypeError RuntimeError KeyError AttributeError ImportError ModuleNotFoundError OSError ZeroDivisionError".split():
            add("misc", "case_wrap_error", kind=k)
        add("misc", "case_wrap_error", message="mm", target="TrackingError")
    else:
        raise KeyError(pid)
    return L
