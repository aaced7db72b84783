"""Run-time contracts for the tracking half (marEx.track): bounded stand-in layer and replay target.

Every `case_*` takes JSON-able parameters, drives the real code and raises ContractViolation when a post-condition is
false.  Oracles are independent numpy statements of the property.
"""
from common import *
import contextlib, io, tempfile, shutil, itertools
from scipy import ndimage

R_EARTH = 6378.0


# ------------------------------------------------------------------ construction
def scene(kind, nt, ny, nx, seed, density=0.5):
    """boolean (nt, ny, nx) test fields"""
    r = rng("scene", kind, nt, ny, nx, seed)
    b = np.zeros((nt, ny, nx), bool)
    if kind == "noise":
        b = r.random((nt, ny, nx)) < density
    elif kind == "blobs":           # smooth random field thresholded, correlated in time
        f = r.normal(0, 1, (nt, ny, nx))
        f = ndimage.gaussian_filter(f, (0.8, 1.2, 1.2), mode=("nearest", "nearest", "wrap"))
        b = f > np.quantile(f, 1 - density)
    elif kind == "movers":          # discs that move, grow and collide (merges and splits)
        n = 3 + int(r.integers(0, 3))
        cy = r.uniform(2, ny - 3, n); cx = r.uniform(0, nx, n)
        vy = r.uniform(-0.8, 0.8, n); vx = r.uniform(-1.6, 1.6, n); rad = r.uniform(1.4, 3.2, n)
        Y, X = np.mgrid[0:ny, 0:nx]
        for t in range(nt):
            for k in range(n):
                y = np.clip(cy[k] + vy[k] * t, 1, ny - 2); x = (cx[k] + vx[k] * t) % nx
                dx = np.abs(X - x); dx = np.minimum(dx, nx - dx)
                b[t] |= (Y - y) ** 2 + dx**2 <= rad[k] ** 2
    elif kind == "empty":
        pass
    elif kind == "triple":          # two unrelated three-way merges at consecutive times (needs ny >= 13, nx >= 20)
        def bar(t, y, xs):
            for x in xs:
                b[t, y:y + 2, x:x + 3] = True
        for t in range(nt):
            for y, tm in ((1, 1 + seed % 2), (7, 2 + seed % 2)):
                if t < tm:
                    bar(t, y, (1, 6, 11))
                else:
                    b[t, y:y + 2, 1:14] = True
    elif kind == "rare":            # a single short merge in a long quiet record
        t0 = nt // 2 + seed % 3
        b[t0, 2:4, 1:4] = True; b[t0, 2:4, 6:9] = True
        b[t0 + 1, 2:4, 1:9] = True
    elif kind == "long":            # small parents joined by a long thin object: cells far from every parent
        w = min(nx - 2, 18)
        x0 = 1 + seed % 2
        y = 2 + seed % 3
        for t in range(nt):
            if t < 2:
                b[t, y, x0:x0 + 3] = True; b[t, y:y + 2, x0 + w // 2 + 1:x0 + w // 2 + 4] = True
            else:
                b[t, y, x0:x0 + w] = True
    elif kind == "far":             # a short and a long parent joined by a corridor: cells more than a dozen columns from both (needs nx >= 44)
        y = 2 + seed % 3
        a, b0 = 3 + seed % 2, 29 + seed % 4
        for t in range(nt):
            if t < 2:
                b[t, y, a:a + 2] = True; b[t, y, b0:b0 + 8] = True
            else:
                b[t, y, a:b0 + 8] = True
    elif kind == "vast":            # a large and a tiny parent far apart, joined by a corridor longer than the least search distance (ny >= 20, nx >= 116)
        a, b0 = 2 + seed % 2, 107 + seed % 3
        for t in range(nt):
            b[t, 2:18, a:a + 16] = True
            b[t, 9, b0:b0 + 2] = True
            if t >= 2:
                b[t, 9, a:b0 + 2] = True
    elif kind == "steady":          # pairs that join and part again every few steps from the second one on, on a small grid (needs ny >= 9, nx >= 12)
        for t in range(nt):
            k = t % (5 + seed % 3)
            b[t, 2:4, 1:4] = True; b[t, 2:4, 6:9] = True
            if k in (1, 2):
                b[t, 2:4, 1:9] = True
            b[t, 6:8, 2:5] = True; b[t, 6:8, 7:10] = t % 4 != 3
            if k in (1, 3):
                b[t, 6:8, 2:10] = True
    elif kind == "aside":           # parents that lie alongside the object they join, overlapping only a small part of it (needs ny >= 8, nx >= 20; thr <= 0.25)
        y = 3 + seed % 2
        for t in range(nt):
            if t < 2:
                b[t, y, 2:5] = True; b[t, y - 1, 2:10] = True
                b[t, y, 15:17 + seed % 2] = True
            else:
                b[t, y, 2:17] = True
    elif kind == "many":            # more than 127 separate small objects that persist, two of which join (needs ny >= 16, nx >= 36)
        for t in range(nt):
            b[t, 0:ny - 1:2, 0:nx - 1:2] = True
            if t >= 2:
                b[t, 4, 4:7] = True; b[t, ny - 4, nx - 8:nx - 5] = True
    elif kind == "cascade":         # an object born of a merge joins a third one in the very next step, and so on (needs ny >= 8, nx >= 24)
        y = 2 + seed % 3
        xs = [1, 7, 12, 17 + seed % 2]
        for t in range(nt):
            n = max(0, min(t - seed % 2, 3))
            for x in xs:
                b[t, y:y + 2, x:x + 4] = True
            b[t, y:y + 2, 1:xs[n] + 4] = True
    elif kind == "late":            # a part of a divided object overlaps the next step's object enough although the undivided one did not (needs ny >= 6, nx >= 20)
        y = 2
        for t in range(nt):
            if t == 0:
                b[t, y, 5:8] = True; b[t, y, 10:17] = True
            elif t == 1:
                b[t, y, 5:17] = True; b[t, y, 0:4] = True
            else:
                b[t, y, 0:9] = True
        if seed % 2:
            b = b[:, :, ::-1].copy()
    elif kind == "shrink":          # an object smaller than one of the two it comes from (needs ny >= 8, nx >= 14)
        y = 2 + seed % 2
        for t in range(nt):
            if t < 2:
                b[t, y:y + 3, 2:8] = True; b[t, y, 9:12] = True
            else:
                b[t, y, 2:12] = True
    elif kind == "half":            # overlaps of exactly half the smaller object
        for t in range(nt):
            if t % 3 == 0:
                b[t, 2, 1:5] = True; b[t, 2, 8:12] = True; b[t, 6, 2:6] = True; b[t, 6, 8:12] = True
            else:
                b[t, 2, 3:10] = True; b[t, 6, 4:11] = True
    elif kind == "full":
        b[:] = True
    else:
        raise ValueError(kind)
    return b


def mesh_scene(kind, nt, ny, nx, seed, density=0.5):
    b = scene(kind, nt, ny, nx, seed, density)
    return np.repeat(b.reshape(nt, ny * nx), 2, axis=1)


def mask_of(land, ny, nx, seed=0):
    m = np.ones((ny, nx), bool)
    if land == "none":
        pass
    elif land == "block":
        m[: max(1, ny // 4), : max(1, nx // 3)] = False
    elif land == "speckle":
        m = rng("mask", ny, nx, seed).random((ny, nx)) > 0.12
        m[ny // 2, nx // 2] = True
    elif land == "strait":
        m[:, nx // 4: nx // 4 + nx // 3] = False
        m[ny // 2, :] = True
    return m


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="marex_rt_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


DIMS = {"time": "time", "y": "lat", "x": "lon"}


def g_tracker(b, mask=None, tchunk=3, lon0=0.0, lon=None, lat=None, names=("time", "lat", "lon"), order=None, start="2000-01-01", attrs=None, xchunk=-1,
              **kw):
    nt, ny, nx = b.shape
    lon = lon0 + np.arange(nx) * (360.0 / nx) if lon is None else np.asarray(lon)
    lat = np.linspace(-60, 60, ny) if lat is None else np.asarray(lat)
    t, y, x = names
    da = xr.DataArray(b, dims=names, coords={t: time_axis(start, nt), y: lat, x: lon}, attrs=attrs or {})
    m = xr.DataArray(np.ones((ny, nx), bool) if mask is None else mask, dims=(y, x), coords={y: lat, x: lon})
    if order is not None:
        da = da.transpose(*order)
    da = da.chunk({t: tchunk, y: -1, x: xchunk})
    kw.setdefault("R_fill", 0); kw.setdefault("T_fill", 0)
    if "area_filter_quartile" not in kw and "area_filter_absolute" not in kw:
        kw["area_filter_absolute"] = 1
    kw.setdefault("coordinate_units", "degrees")
    kw.setdefault("dimensions", {"time": t, "y": y, "x": x})
    quiet()
    with silence():
        tr = track.tracker(da, m.chunk(), quiet=True, **kw)
    quiet()
    return tr


def u_tracker(b, ny, nx, tmp, mask=None, tchunk=3, lon_range="pm180", units="degrees", start="2000-01-01", area=None, periodic=True, **kw):
    nt, n = b.shape
    nb, lat, lon, ar = tri_mesh(ny, nx, periodic=periodic)
    if area is not None:
        ar = np.asarray(area, float)
    if lon_range in ("0_360", "from0"):
        lon = lon % 360.0
    if lon_range == "from0":                 # the westernmost cell exactly on the meridian
        lon = lon - lon.min()
    if units == "radians":
        lat, lon = np.deg2rad(lat), np.deg2rad(lon)
    co = {"lat": ("ncells", lat), "lon": ("ncells", lon)}
    da = xr.DataArray(b, dims=("time", "ncells"), coords={"time": time_axis(start, nt), **co}).chunk({"time": tchunk, "ncells": -1})
    m = xr.DataArray(np.ones(n, bool) if mask is None else mask, dims=("ncells",), coords=co)
    N = xr.DataArray(nb, dims=("nv", "ncells"), coords=co).chunk()
    A = xr.DataArray(ar, dims=("ncells",), coords=co)
    kw.setdefault("R_fill", 0); kw.setdefault("T_fill", 0)
    if "area_filter_quartile" not in kw and "area_filter_absolute" not in kw:
        kw["area_filter_absolute"] = 1
    quiet()
    with silence():
        tr = track.tracker(da, m.chunk(), unstructured_grid=True, temp_dir=tmp, neighbours=N, cell_areas=A, dimensions={"x": "ncells"},
                           coordinates={"x": "lon", "y": "lat"}, coordinate_units=units, quiet=True, **kw)
    quiet()
    return tr


# ------------------------------------------------------------------ P07 morphology
def disk(R):
    return [(a, b) for a in range(-R, R + 1) for b in range(-R, R + 1) if a * a + b * b < R * R + 1]


def o_morph_struct(b2, R, wrap):
    """opening(closing(X)) by a disc; x periodic (global) or edge-extended (regional); y edge-extended.  Exact (no border effects)."""
    if R == 0:
        return b2.copy()
    ny, nx = b2.shape
    P = 4 * R + 2
    if wrap:
        xi = np.arange(-P, nx + P) % nx
    else:
        xi = np.clip(np.arange(-P, nx + P), 0, nx - 1)
    yi = np.clip(np.arange(-P, ny + P), 0, ny - 1)
    X = b2[np.ix_(yi, xi)]
    offs = disk(R)

    def dil(A):
        o = np.zeros_like(A)
        for a, b in offs:
            o |= ndimage.shift(A, (a, b), order=0, mode="nearest")
        return o

    def ero(A):
        return ~dil(~A)
    Y = ero(dil(X))
    Y = dil(ero(Y))
    return Y[P:-P, P:-P]


def case_fill_struct(kind="blobs", nt=3, ny=14, nx=24, seed=0, density=0.5, R=2, regional=False, land="none", tchunk=2):
    b = scene(kind, nt, ny, nx, seed, density)
    m = mask_of(land, ny, nx, seed)
    b = b & m
    tr = g_tracker(b, m, tchunk=tchunk, R_fill=R, regional_mode=regional)
    with silence():
        got = tr.fill_holes(tr.data_bin).transpose("time", "lat", "lon").compute().values
    ensure(got.dtype == bool and got.shape == b.shape, "hole filling changes shape or type")
    for t in range(nt):
        want = o_morph_struct(b[t], R, not regional) & m
        bad = np.argwhere(want != got[t])
        ensure(bad.size == 0, "hole filling is not closing-then-opening by the requested radius", t=t, at=bad[:1].tolist(), n=len(bad))
    return {"cells": int(b.size)}


def hop_ball(nb0, R):
    """list of boolean reach matrices applied as dilation"""
    n = nb0.shape[1]
    A = np.eye(n, dtype=bool)
    for k in range(3):
        v = nb0[k] >= 0
        A[np.where(v)[0], nb0[k][v]] = True
    return A


def o_morph_mesh(b1, m, nb0, R):
    A = hop_ball(nb0, R)
    Pw = np.eye(A.shape[0], dtype=bool)
    for _ in range(R):
        Pw = (Pw.astype(np.uint8) @ A.astype(np.uint8)) > 0
    dil = lambda v: (Pw.astype(np.uint8) @ v.astype(np.uint8)) > 0
    ero = lambda v: ~dil(~v)
    x = dil(b1)
    x = ero(x | ~m)
    x = dil(ero(x | ~m))
    return x


def case_fill_mesh(kind="blobs", nt=3, ny=6, nx=9, seed=0, density=0.5, R=2, land="none", tchunk=2):
    m2 = mask_of(land, ny, nx, seed)
    m = np.repeat(m2.reshape(-1), 2)
    b = mesh_scene(kind, nt, ny, nx, seed, density) & m
    nb, *_ = tri_mesh(ny, nx)
    with Scratch() as d:
        tr = u_tracker(b, ny, nx, d, m, tchunk=tchunk, R_fill=R)
        with silence():
            got = tr.fill_holes(tr.data_bin).transpose("time", "ncells").compute().values
    for t in range(nt):
        want = o_morph_mesh(b[t], m, nb - 1, R)
        ensure((got[t] & m == want & m).all(), "hole filling on the mesh is not closing-then-opening by R neighbour hops", t=t)
        ensure(not (got[t] & ~m).any(), "hole filling sets cells outside the valid-region mask", t=t)
    return {"cells": int(b.size)}


def case_sparse_power(n=7, nt=3, seed=0, exponent=2, explicit_zero=True):
    """R applications of a boolean sparse matrix = R-hop reach (any exponent, any pattern)"""
    from scipy.sparse import csr_matrix
    r = rng("sbp", n, nt, seed, exponent)
    A = r.random((n, n)) < 0.3
    ind, ptr, dat = [], [0], []
    for i in range(n):
        cols = np.where(A[i])[0]
        for c in cols:
            ind.append(c)
            dat.append(bool(r.random() > 0.2) if explicit_zero else True)
        ptr.append(len(ind))
    ind = np.array(ind, np.int32); ptr = np.array(ptr, np.int32); dat = np.array(dat, bool)
    v = r.random((nt, n)) < 0.4
    v0 = v.copy()
    got = np.asarray(track.sparse_bool_power(v, dat, ind, ptr, exponent))
    E = np.zeros((n, n), bool)
    for i in range(n):
        for j in range(ptr[i], ptr[i + 1]):
            E[i, ind[j]] |= dat[j]
    w = v0.copy()
    for _ in range(exponent):
        w = (w.astype(int) @ E.T.astype(int)) > 0
    ensure(got.shape == v.shape and (got == w).all(), "boolean matrix power differs from R-hop reachability")
    ensure((v == v0).all(), "boolean matrix power modifies its input")
    return {}


# ------------------------------------------------------------------ P08 temporal gaps
def o_time_close(b, T):
    out = b.copy()
    nt = b.shape[0]
    flat = b.reshape(nt, -1); o = out.reshape(nt, -1)
    for c in range(flat.shape[1]):
        idx = np.where(flat[:, c])[0]
        for a, z in zip(idx[:-1], idx[1:]):
            if 1 < z - a <= T + 1:
                o[a:z, c] = True
    return o.reshape(b.shape)


def case_time_gaps(nt=13, ny=3, nx=4, seed=0, T=2, density=0.35, R=0, tchunk=4, grid="gridded", land="none"):
    b = rng("gaps", nt, ny, nx, seed).random((nt, ny, nx)) < density
    m = mask_of(land, ny, nx, seed)
    b &= m
    if grid == "gridded":
        tr = g_tracker(b, m, tchunk=tchunk, T_fill=T, R_fill=R)
        with silence():
            got = tr.fill_time_gaps(tr.data_bin).transpose("time", "lat", "lon").compute()
        ensure((got["time"].values == time_axis("2000-01-01", nt).values).all(), "temporal filling changes the time axis")
        got = got.values
        want = o_time_close(b, T) if T else b
        if R // 2 and T:
            want = np.stack([o_morph_struct(w, R // 2, True) for w in want])
        want = want & m
    else:
        b2 = np.repeat(b.reshape(nt, -1), 2, axis=1)
        m1 = np.repeat(m.reshape(-1), 2)
        nb, *_ = tri_mesh(ny, nx)
        with Scratch() as d:
            tr = u_tracker(b2, ny, nx, d, m1, tchunk=tchunk, T_fill=T, R_fill=R)
            with silence():
                got = tr.fill_time_gaps(tr.data_bin).transpose("time", "ncells").compute().values
        want = o_time_close(b2, T) if T else b2
        if T:
            want = np.stack([o_morph_mesh(w, m1, nb - 1, R // 2) for w in want])
        want = want & m1
        got = got & m1
    bad = np.argwhere(want != got)
    ensure(bad.size == 0, "temporal filling is not exactly: gaps of at most T_fill steps closed, longer gaps kept", at=bad[:1].tolist(), n=len(bad))
    return {"cells": int(b.size)}


# ------------------------------------------------------------------ components
def comps_struct(b2, wrap):
    lab, n = ndimage.label(b2, structure=np.ones((3, 3)))
    if wrap and n:
        par = list(range(n + 1))

        def f(a):
            while par[a] != a:
                a = par[a]
            return a
        ny = b2.shape[0]
        for y in range(ny):
            for dy in (-1, 0, 1):
                if 0 <= y + dy < ny and lab[y, 0] and lab[y + dy, -1]:
                    par[f(lab[y, 0])] = f(lab[y + dy, -1])
        lab = np.array([f(k) for k in range(n + 1)])[lab]
    return lab


def comps3_struct(b3, wrap):
    lab, n = ndimage.label(b3, structure=np.ones((3, 3, 3)))
    if wrap and n:
        par = list(range(n + 1))

        def f(a):
            while par[a] != a:
                a = par[a]
            return a
        nt, ny, _ = b3.shape
        for t in range(nt):
            for y in range(ny):
                if not lab[t, y, 0]:
                    continue
                for dt in (-1, 0, 1):
                    for dy in (-1, 0, 1):
                        if 0 <= t + dt < nt and 0 <= y + dy < ny and lab[t + dt, y + dy, -1]:
                            par[f(lab[t, y, 0])] = f(lab[t + dt, y + dy, -1])
        lab = np.array([f(k) for k in range(n + 1)])[lab]
    return lab


def comps_mesh(b1, nb0):
    n = len(b1)
    lab = np.zeros(n, int)
    k = 0
    adj = [set() for _ in range(n)]
    for c in range(n):
        for v in range(3):
            o = nb0[v, c]
            if o >= 0:
                adj[c].add(o); adj[o].add(c)
    for s in range(n):
        if b1[s] and not lab[s]:
            k += 1
            st = [s]; lab[s] = k
            while st:
                c = st.pop()
                for o in adj[c]:
                    if b1[o] and not lab[o]:
                        lab[o] = k; st.append(o)
    return lab


def same_partition(a, b):
    """label arrays describe the same partition (0 = background in both)"""
    a = np.asarray(a).ravel(); b = np.asarray(b).ravel()
    if ((a > 0) != (b > 0)).any():
        return False
    sel = a > 0
    pairs = np.unique(np.stack([a[sel], b[sel]]), axis=1)
    return len(np.unique(pairs[0])) == pairs.shape[1] == len(np.unique(pairs[1]))


def case_identify(kind="noise", nt=4, ny=6, nx=9, seed=0, density=0.4, grid="gridded", regional=False, time_connectivity=False, land="none", tchunk=2):
    m2 = mask_of(land, ny, nx, seed)
    if grid == "gridded":
        b = scene(kind, nt, ny, nx, seed, density) & m2
        tr = g_tracker(b, m2, tchunk=tchunk, regional_mode=regional)
        with silence():
            f, _, N = tr.identify_objects(tr.data_bin, time_connectivity=time_connectivity)
        got = f.transpose("time", "lat", "lon").compute().values
        if time_connectivity:
            ensure(same_partition(got, comps3_struct(b, not regional)), "objects are not the space-time connected components")
        else:
            for t in range(nt):
                ensure(same_partition(got[t], comps_struct(b[t], not regional)), "objects are not the spatial connected components", t=t)
        ids = np.unique(got[got > 0])
        ensure(len(ids) == int(N) and (len(ids) == 0 or (ids == np.arange(1, len(ids) + 1)).all()), "object IDs are not 1..N", N=int(N))
        if not time_connectivity:
            for a in range(nt):
                for c in range(a + 1, nt):
                    ensure(not (set(np.unique(got[a][got[a] > 0])) & set(np.unique(got[c][got[c] > 0]))), "an object ID is reused at another time")
    else:
        m = np.repeat(m2.reshape(-1), 2)
        r = rng("ident", seed)
        b = (r.random((nt, 2 * ny * nx)) < density) if kind == "noise" else mesh_scene(kind, nt, ny, nx, seed, density)
        nb, *_ = tri_mesh(ny, nx)
        with Scratch() as d:
            tr = u_tracker(b, ny, nx, d, m, tchunk=tchunk)
            with silence():
                f, _, _ = tr.identify_objects(tr.data_bin, time_connectivity=False)
            got = f.transpose("time", "ncells").compute().values
        for t in range(nt):
            ensure(same_partition(got[t], comps_mesh(b[t] & m, nb - 1)), "objects are not the mesh connected components", t=t)
    return {"cells": int(b.size)}


# ------------------------------------------------------------------ P09 area filter
def first_object(b, wrap):
    """cells of the gridded object that carries the lowest ID (it contains the first set cell in time, y, x order)"""
    out = np.zeros_like(b)
    t, y, x = np.argwhere(b)[0]
    l = comps_struct(b[t], wrap)
    out[t] = l == l[y, x]
    return out


def effective(b, got, wrap):
    """the processed field the tracker works on: b, or b without its first object (known finding F1)"""
    if (got == b).all():
        return b
    f = first_object(b, wrap)
    if (got == (b & ~f)).all():
        known("F1")
        return b & ~f
    return b


def only_first(b, wrap):
    return not b.any() or not (b & ~first_object(b, wrap)).any()


def case_filter(kind="noise", nt=4, ny=8, nx=12, seed=0, density=0.35, grid="gridded", regional=False, quartile=None, absolute=None, tchunk=2, land="none"):
    m2 = mask_of(land, ny, nx, seed)
    kw = {"area_filter_quartile": quartile} if quartile is not None else {"area_filter_absolute": absolute}
    if grid == "gridded":
        b = scene(kind, nt, ny, nx, seed, density) & m2
        tr = g_tracker(b, m2, tchunk=tchunk, regional_mode=regional, **kw)
        labs = [comps_struct(x, not regional) for x in b]
    else:
        m = np.repeat(m2.reshape(-1), 2)
        b = mesh_scene(kind, nt, ny, nx, seed, density) & m
        nb, *_ = tri_mesh(ny, nx)
        labs = [comps_mesh(x, nb - 1) for x in b]
    sizes = [[(int(k), int((l == k).sum())) for k in np.unique(l[l > 0])] for l in labs]
    allsz = np.array([s for ts in sizes for _, s in ts], float)
    with contextlib.ExitStack() as st:
        if grid != "gridded":
            d = st.enter_context(Scratch())
            tr = u_tracker(b, ny, nx, d, m, tchunk=tchunk, **kw)
        with silence():
            if len(allsz) == 0:
                return {}
            out, thr, areas, n_un, n_f = tr.filter_small_objects(tr.data_bin)
        dims = ("time", "lat", "lon") if grid == "gridded" else ("time", "ncells")
        got = out.transpose(*dims).compute().values
    ensure(got.dtype == bool, "area filter output is not boolean")
    pool = allsz
    if grid != "gridded":   # documented floor on the statistics of mesh objects: tiny objects are ignored
        pool = allsz[allsz > (5 if absolute is not None else 50)]
    if absolute is not None:
        ensure(float(thr) == float(absolute), "absolute filtering does not use the requested area", thr=thr)
    else:
        ensure(abs(float(thr) - np.percentile(pool, quartile * 100)) < 1e-6, "area threshold is not the requested quantile of the object areas", thr=float(thr))
    want = np.zeros_like(b)
    nkeep = 0
    for t, l in enumerate(labs):
        for k, s in sizes[t]:
            if s >= float(thr):
                want[t] |= l == k
                nkeep += 1
    if grid == "gridded" and want.any():
        w2 = effective(want, got, not regional) if (first_object(b, not regional) & want).any() else want
        if w2 is not want:
            want = w2
            nkeep -= 1
    bad = np.argwhere(want != got)
    ensure(bad.size == 0, "area filter does not keep exactly the objects of at least the threshold area", at=bad[:1].tolist(), thr=float(thr), n=len(bad))
    ensure(int(n_f) == nkeep or grid != "gridded", "number of kept objects is wrong", got=int(n_f), want=nkeep)
    if grid == "gridded":
        ensure(int(n_un) == len(allsz), "number of unfiltered objects is wrong", got=int(n_un), want=len(allsz))
    return {"objects": len(allsz)}


# ------------------------------------------------------------------ P11 overlaps
def o_overlaps(a, b, w):
    d = {}
    for i, j, x in zip(a.ravel(), b.ravel(), w.ravel()):
        if i > 0 and j > 0:
            d[(int(i), int(j))] = d.get((int(i), int(j)), 0.0) + float(x)
    return d


def case_overlap_slice(ny=4, nx=5, nid=4, seed=0, grid="gridded", sparse=0.4, gap=1):
    r = rng("ov", ny, nx, nid, seed)
    a = (r.integers(1, nid + 1, (ny, nx)) * gap) * (r.random((ny, nx)) > sparse)
    b = (r.integers(1, nid + 1, (ny, nx)) * gap + nid * gap) * (r.random((ny, nx)) > sparse)
    if seed % 3 == 1:
        a, b = b, a
    a = a.astype(np.int32); b = b.astype(np.int32)
    if grid == "gridded":
        tr = g_tracker(np.ones((2, ny, nx), bool))
        w = np.ones((ny, nx))
        got = tr.check_overlap_slice(a, b)
    else:
        with Scratch() as d:
            tr = u_tracker(np.ones((2, 2 * ny * nx), bool), ny, nx, d)
        a = np.repeat(a.ravel(), 2); b = np.repeat(b.ravel(), 2)
        w = tr.cell_area.values
        got = tr.check_overlap_slice(a, b)
    want = o_overlaps(a, b, w)
    rows = {(int(x[0]), int(x[1])): float(x[2]) for x in got}
    ensure(len(rows) == len(got), "an object pair is listed twice")
    ensure(set(rows) == set(want), "overlapping pairs are not exactly the co-located ID pairs", got=sorted(rows)[:4], want=sorted(want)[:4])
    for k in want:
        ensure(abs(rows[k] - want[k]) <= 1e-4 * max(1, want[k]), "overlap area of a pair is wrong", pair=k, got=rows[k], want=want[k])
    return {"pairs": len(want)}


def case_find_overlaps(kind="blobs", nt=5, ny=7, nx=9, seed=0, density=0.4, tchunk=2, grid="gridded"):
    if grid == "gridded":
        b = scene(kind, nt, ny, nx, seed, density)
        tr = g_tracker(b, tchunk=tchunk)
        with silence():
            f, _, N = tr.identify_objects(tr.data_bin, time_connectivity=False)
            L = tr.find_overlapping_objects(f)
        F = f.transpose("time", "lat", "lon").compute().values
        w = np.ones(F.shape[1:])
    else:
        b = mesh_scene(kind, nt, ny, nx, seed, density)
        with Scratch() as d:
            tr = u_tracker(b, ny, nx, d, tchunk=tchunk)
            with silence():
                f, _, _ = tr.identify_objects(tr.data_bin, time_connectivity=False)
                cs = (f.max(dim="ncells")).cumsum("time").shift({"time": 1}, fill_value=0)
                f = xr.where(f > 0, f + cs, 0).astype(np.int32).persist()
                L = tr.find_overlapping_objects(f)
            F = f.transpose("time", "ncells").compute().values
            w = tr.cell_area.values
    want = {}
    for t in range(nt - 1):
        for k, v in o_overlaps(F[t], F[t + 1], w).items():
            want[k] = want.get(k, 0) + v
    rows = {(int(x[0]), int(x[1])): float(x[2]) for x in L}
    ensure(len(rows) == len(L), "an object pair is listed twice")
    ensure(set(rows) == set(want), "overlap list is not exactly the pairs of consecutive times", extra=sorted(set(rows) - set(want))[:3],
           missing=sorted(set(want) - set(rows))[:3])
    for k in want:
        ensure(abs(rows[k] - want[k]) <= 1e-4 * max(1, want[k]), "overlap area is wrong", pair=k, got=rows[k], want=want[k])
    return {"pairs": len(want)}


def case_threshold(nobj=6, npairs=9, seed=0, thr=0.5, grid="gridded", missing=True, integral=True):
    """a pair survives iff both objects exist and overlap / min(area) >= threshold"""
    r = rng("thr", nobj, npairs, seed, thr)
    ids = np.sort(r.choice(np.arange(1, 3 * nobj), nobj, replace=False))
    area = r.integers(2, 12, nobj).astype(float) if integral else r.uniform(2, 12, nobj)
    lut = dict(zip(ids.tolist(), area.tolist()))
    props = xr.Dataset({"area": ("ID", area)}, coords={"ID": ids.astype(np.int32)})
    rows = []
    for _ in range(npairs):
        a, b = r.choice(ids, 2, replace=False)
        if missing and r.random() < 0.25:
            a = 3 * nobj + int(r.integers(0, 3))
        mn = min(lut.get(int(a), 4), lut.get(int(b), 4))
        ov = r.choice([thr * mn, max(1, thr * mn - 1), thr * mn + 1, mn, 1])
        rows.append((a, b, ov))
    dt = np.int32 if grid == "gridded" else np.float32
    L = np.array([[x, y, np.floor(z) if grid == "gridded" else z] for x, y, z in rows], dtype=dt)
    if grid == "gridded":
        tr = g_tracker(np.ones((2, 2, 3), bool), overlap_threshold=thr)
    else:
        with Scratch() as d:
            tr = u_tracker(np.ones((2, 12), bool), 2, 3, d, overlap_threshold=thr)
    with silence():
        got = tr.enforce_overlap_threshold(L.copy(), props)
    want = []
    for x, y, z in L.tolist():
        if int(x) in lut and int(y) in lut and float(z) / min(lut[int(x)], lut[int(y)]) >= thr:
            want.append((int(x), int(y), round(float(z), 4)))
    got = [(int(x[0]), int(x[1]), round(float(x[2]), 4)) for x in got]
    ensure(sorted(got) == sorted(want), "threshold keeps the wrong pairs", got=sorted(got)[:4], want=sorted(want)[:4])
    return {"pairs": npairs}


# ------------------------------------------------------------------ P12 partition kernels
def wdx(dx, nx, wrap):
    dx = abs(dx)
    return min(dx, nx - dx) if wrap else dx


def o_nearest_cell(child, parents, nx, wrap, maxd, cents):
    """for each child cell: the set of admissible parent indices"""
    out = []
    pts = [np.argwhere(p) for p in parents]
    for y, x in np.argwhere(child):
        d = [min((np.hypot(y - py, wdx(x - px, nx, wrap)) for py, px in q), default=np.inf) for q in pts]
        d = [v if v <= maxd else np.inf for v in d]
        m = min(d)
        if np.isfinite(m):
            out.append((d, {k for k, v in enumerate(d) if v <= m + 1e-9}))
        else:
            c = [np.hypot(y - cy, wdx(x - cx, nx, wrap)) for cy, cx in cents]
            m = min(c)
            out.append((c, {k for k, v in enumerate(c) if v <= m + 1e-9}))
    return out


def case_nn_grid(ny=6, nx=10, np_=2, seed=0, wrap=True, maxd=40, density=0.5, spread=True):
    r = rng("nng", ny, nx, np_, seed, maxd)
    child = r.random((ny, nx)) < density
    child[r.integers(0, ny), r.integers(0, nx)] = True
    par = np.zeros((np_, ny, nx), bool)
    for k in range(np_):
        for _ in range(1 + int(r.integers(0, 3))):
            par[k, r.integers(0, ny), r.integers(0, nx)] = True
    for k in range(1, np_):
        par[k] &= ~par[:k].any(0)
    if np_ > 2 and seed % 4 == 3:
        par[np_ - 1] = False
    if not par[0].any():
        par[0, 0, 0] = True
    cents = np.stack([np.argwhere(p).mean(0) if p.any() else np.array([0.0, 0.0]) for p in par])
    ids = (10 + np.arange(np_)).astype(np.int32)
    got = np.asarray(track.partition_nn_grid(child.copy(), par.copy(), ids.copy(), cents.copy(), nx, max_distance=maxd, wrap=wrap))
    want = o_nearest_cell(child, par, nx, wrap, maxd, cents)
    ensure(got.shape == (int(child.sum()),), "partition does not label exactly the merged object's cells", shape=got.shape)
    for k, (d, ok) in enumerate(want):
        ensure(int(got[k]) in set(ids.tolist()), "partition uses a label that is not one of the given IDs", label=int(got[k]))
        ensure(int(got[k]) - 10 in ok, "cell not assigned to the parent with the nearest cell", cell=np.argwhere(child)[k].tolist(), got=int(got[k]) - 10,
               distances=[round(float(v), 3) for v in d])
    return {"cells": int(child.sum())}


def case_dist_kernel(ny=5, nx=8, np_=3, seed=0, wrap=True):
    r = rng("dist", ny, nx, np_, seed)
    child = r.random((ny, nx)) < 0.6
    cents = np.stack([r.uniform(0, ny - 1, np_), r.uniform(0, nx - 1e-9, np_)], axis=1)
    got = np.asarray(track.wrapped_euclidian_distance_mask_parallel(child, cents, nx, wrap))
    pts = np.argwhere(child)
    ensure(got.shape == (len(pts), np_), "distance table has the wrong shape", shape=got.shape)
    for k, (y, x) in enumerate(pts):
        for j in range(np_):
            w = np.hypot(y - cents[j, 0], wdx(x - cents[j, 1], nx, wrap))
            ensure(abs(got[k, j] - w) < 1e-6, "distance to a centroid is not the (periodic) Euclidean distance", cell=(int(y), int(x)), got=got[k, j], want=w)
    return {"cells": len(pts)}


def hop_dist(nb0, src, child_only=None):
    n = nb0.shape[1]
    d = np.full(n, np.inf)
    d[src] = 0
    fr = list(np.where(src)[0])
    while fr:
        nx = []
        for c in fr:
            for v in range(3):
                o = nb0[v, c]
                if o >= 0 and d[o] > d[c] + 1:
                    d[o] = d[c] + 1
                    nx.append(o)
        fr = nx
    return d


def gc(lat1, lon1, lat2, lon2):
    a, b, c, d = map(np.deg2rad, (lat1, lon1, lat2, lon2))
    h = np.sin((a - c) / 2) ** 2 + np.cos(a) * np.cos(c) * np.sin((b - d) / 2) ** 2
    return 2 * np.arctan2(np.sqrt(h), np.sqrt(np.maximum(0, 1 - h)))


def case_nn_mesh(ny=4, nx=6, np_=2, seed=0, kernel="optimised", density=0.6, maxd=40, islands=False):
    """every merged cell goes to a parent reachable in the fewest neighbour hops (first come for ties)"""
    r = rng("nnm", ny, nx, np_, seed)
    nb, lat, lon, _ = tri_mesh(ny, nx)
    nb0 = nb - 1
    n = nb.shape[1]
    child = r.random(n) < density
    par = np.zeros((np_, n), bool)
    free = r.permutation(n)
    k0 = 0
    for k in range(np_):
        m = 1 + int(r.integers(0, 3))
        par[k, free[k0:k0 + m]] = True
        k0 += m
    # parents overlap the child (as in tracking)
    for k in range(np_):
        child[np.argmax(par[k])] = True
    cents = np.stack([[lat[p].mean(), lon[p].mean()] for p in par]).astype(np.float32)
    ids = (20 + np.arange(np_)).astype(np.int32)
    if kernel == "optimised":
        fr = np.full(n, 255, np.uint8)
        for k in range(np_):
            fr[par[k]] = k
        got = np.asarray(track.partition_nn_unstructured_optimised(child.copy(), fr, cents, nb0.copy(), lat.astype(np.float32), lon.astype(np.float32), max_distance=maxd))
    else:
        got = np.asarray(track.partition_nn_unstructured(child.copy(), par.copy(), ids, cents, nb0.copy(), lat.astype(np.float32), lon.astype(np.float32), max_distance=maxd)) - 20
    ensure(got.shape == (int(child.sum()),), "partition does not label exactly the merged object's cells", shape=got.shape)
    if kernel == "optimised":
        D = np.stack([hop_dist(nb0, p) for p in par])
    else:
        D = np.stack([hop_dist(nb0, p & child) for p in par])
    for k, c in enumerate(np.where(child)[0]):
        ensure(0 <= int(got[k]) < np_, "partition uses a label that is not one of the parents", label=int(got[k]))
        m = D[:, c].min()
        if not np.isfinite(m) or m > maxd:
            continue
        # cells beyond a level at which no merged cell was reached fall back to the nearest centroid
        if stalled(child, D, m):
            continue
        ensure(D[int(got[k]), c] <= m, "cell not assigned to the parent fewest hops away", cell=int(c), got=int(got[k]), hops=D[:, c].tolist())
    return {"cells": int(child.sum())}


def stalled(child, D, m):
    dm = D.min(0)
    for lev in range(1, int(m) + 1):
        if not (child & (dm == lev)).any():
            return True
    return False


def case_centroid_mesh(ny=3, nx=5, np_=3, seed=0):
    r = rng("cm", ny, nx, np_, seed)
    nb, lat, lon, _ = tri_mesh(ny, nx)
    n = nb.shape[1]
    child = r.random(n) < 0.6
    cents = np.stack([r.uniform(-55, 55, np_), r.uniform(-180, 180, np_)], 1).astype(np.float32)
    ids = np.array([7, 3, 11, 20, 31][:np_], np.int32)
    got = np.asarray(track.partition_centroid_unstructured(child.copy(), cents, ids, lat.astype(np.float32), lon.astype(np.float32)))
    if got.shape == (n,):
        lab = got[child]
    else:
        lab = got
    ensure(lab.shape == (int(child.sum()),), "partition does not label exactly the merged object's cells", shape=got.shape)
    for k, c in enumerate(np.where(child)[0]):
        d = np.array([gc(lat[c], lon[c], a, b) for a, b in cents])
        ok = set(ids[d <= d.min() + 1e-5].tolist())
        ensure(int(lab[k]) in ok, "cell not assigned to the nearest parent centroid", cell=int(c), got=int(lab[k]))
    return {"cells": int(child.sum())}


# ------------------------------------------------------------------ P13-P16 end to end
class Ref:
    """Sequential executable statement of event tracking with merging (independent of chunking)."""

    def __init__(self, b, labels, w, thr, split, cents, consolidate=True, passes=10, guide=None):
        self.guide = guide
        # labels: list of label arrays per time, w: cell weights used for overlap areas (1 on grids)
        self.thr, self.w, self.split, self.cents = thr, w, split, cents
        self.F, nid = [], 0
        for l in labels:
            u = np.unique(l[l > 0])
            out = np.zeros_like(l)
            for k in u:
                nid += 1
                out[l == k] = nid
            self.F.append(out)
        self.next = nid + 1
        self.merges = []
        self.consolidate = consolidate
        self.passes = passes
        self.near = []
        self.exact = bool((np.asarray(w) == 1).all())

    def links(self, a, b):
        ov = o_overlaps(a, b, self.w)
        ar = lambda f, k: float(self.w[f == k].sum())
        fr = {p: v / min(ar(a, p[0]), ar(b, p[1])) for p, v in ov.items()}
        # single-precision areas: a fraction within rounding of the threshold (but not representable exactly) decides either way
        self.near += [p for p, v in fr.items() if abs(v - self.thr) < 1e-4 and not self.exact]
        return {p: v for p, v in ov.items() if fr[p] >= self.thr}

    def consol(self, t):
        if t < 1 or not self.consolidate:
            return
        a, b = self.F[t - 1], self.F[t]
        L = self.links(a, b)
        for p in sorted({k[0] for k in L}):
            ch = sorted(k[1] for k in L if k[0] == p)
            for c in ch[1:]:
                b[b == c] = ch[0]

    def run(self):
        for t in range(len(self.F)):
            if t >= 1:
                self.consol(t - 1)
                a, b = self.F[t - 1], self.F[t]
                for it in range(self.passes):
                    L = self.links(a, b)
                    kids = {}
                    for (p, c), v in sorted(L.items()):
                        kids.setdefault(c, []).append((p, v))
                    mk = sorted(c for c in kids if len(kids[c]) > 1)
                    if not mk:
                        break
                    for c in mk:
                        ps = [p for p, _ in kids[c]]
                        new = [c] + list(range(self.next, self.next + len(ps) - 1))
                        self.next += len(ps) - 1
                        self.merges.append((t, len(ps), sorted(round(v, 3) for _, v in kids[c]), [(p, v) for p, v in kids[c]]))
                        cell = b == c
                        self.split.guide = None if self.guide is None else (self.guide[t - 1], self.guide[t])
                        lab = self.split(a, cell, ps)
                        b[cell] = np.array(new)[lab]
        return self

    def events(self):
        par = {}

        def f(x):
            par.setdefault(x, x)
            while par[x] != x:
                x = par[x]
            return x
        for t in range(len(self.F)):
            for k in np.unique(self.F[t][self.F[t] > 0]):
                f(int(k))
        self.pairs = []
        for t in range(len(self.F) - 1):
            for (p, c) in self.links(self.F[t], self.F[t + 1]):
                par[f(p)] = f(c)
        root = {k: f(k) for k in par}
        self.size = lambda t, p: int(sum((self.F[t] == k).sum() for k in root if root[k] == root.get(p)))     # cells of the event of object p at t
        return np.stack([np.vectorize(lambda x: root.get(int(x), 0) if x > 0 else 0)(g) for g in self.F])


def grid_centroid(mask, wrap):
    y, x = np.nonzero(mask)
    nx = mask.shape[1]
    if wrap:
        cols = np.unique(x)
        gaps = np.diff(np.append(cols, cols[0] + nx))
        k = len(gaps) - 1 - int(np.argmax(gaps[::-1]))
        if k != len(gaps) - 1:
            x = np.where(x >= cols[k + 1], x - nx, x)
    cx = x.mean()
    return y.mean(), cx + nx if cx < 0 else cx


def pick(near, a, ps, cell, guide, ambiguous):
    """which of several equally near parents gets a cell is not specified: follow the result under test
    (guide: its event field at the parents' time and at this time), provided it took one of the nearest"""
    if len(near) == 1:
        return near[0]
    if guide is not None:
        before, now = guide
        ok = [k for k in near if (before[a == ps[k]] == now[cell]).all()]
        if len(ok) == 1:
            return ok[0]
    ambiguous.append(tuple(int(v) for v in cell))
    return near[0]


def grid_split(nn, wrap, ambiguous):
    def f(a, cell, ps):
        nx = a.shape[1]
        pts = np.argwhere(cell)
        out = []
        if nn:
            P = [np.argwhere(a == p) for p in ps]
        else:
            C = [grid_centroid(a == p, wrap) for p in ps]
        for y, x in pts:
            if nn:
                d = [min(np.hypot(y - py, wdx(x - px, nx, wrap)) for py, px in q) for q in P]
            else:
                d = [np.hypot(y - cy, wdx(x - cx, nx, wrap)) for cy, cx in C]
            o = np.argsort(d, kind="stable")
            near = [int(k) for k in o if d[k] - d[o[0]] < 1e-7]
            out.append(pick(near, a, ps, (y, x), f.guide, ambiguous))
        return np.array(out)
    return f


def sphere_centroid(lat, lon, w):
    la, lo = np.deg2rad(lat), np.deg2rad(lon)
    v = np.array([(w * np.cos(la) * np.cos(lo)).sum(), (w * np.cos(la) * np.sin(lo)).sum(), (w * np.sin(la)).sum()])
    v /= np.linalg.norm(v)
    return np.rad2deg(np.arcsin(np.clip(v[2], -1, 1))), np.rad2deg(np.arctan2(v[1], v[0]))


def mesh_split(nn, nb0, lat, lon, w, ambiguous):
    def f(a, cell, ps):
        if nn:
            D = np.stack([hop_dist(nb0, a == p) for p in ps])
        else:
            C = [sphere_centroid(lat[a == p], lon[a == p], w[a == p]) for p in ps]
            D = np.stack([gc(lat, lon, c[0], c[1]) for c in C])
        out = []
        for c in np.where(cell)[0]:
            o = np.argsort(D[:, c], kind="stable")
            near = [int(k) for k in o if D[k, c] - D[o[0], c] < 1e-5]
            out.append(pick(near, a, ps, (c,), f.guide, ambiguous))
        return np.array(out)
    return f


def run_all(tr, **kw):
    with silence():
        r = tr.run(return_merges=True, **kw)
    ev, mg = r if isinstance(r, tuple) else (r, None)
    return ev, (mg.compute() if mg is not None else None)


def check_event_dataset(ev, F, times, area, lat, lon, wrap, mesh, cell_deg=None, units=1.0, tname="time"):
    """statistics agree with the ID field F (nt, ...)"""
    nt = F.shape[0]
    ids = np.unique(F[F > 0])
    N = len(ids)
    ensure((ids == np.arange(1, N + 1)).all(), "event IDs are not 1..N", ids=ids[:8].tolist())
    ensure(ev.sizes["ID"] == N and (ev.ID.values == np.arange(1, N + 1)).all(), "ID coordinate is not 1..N", n=ev.sizes["ID"], want=N)
    ensure(int(ev.attrs["N_events_final"]) == N, "reported number of events differs from the ID field", attr=ev.attrs["N_events_final"], want=N)
    E = ev.compute()
    ar = E.area.transpose(tname, "ID").values
    pr = E.presence.transpose(tname, "ID").values
    ce = E.centroid.transpose("component", tname, "ID").values
    gid = E.global_ID.transpose(tname, "ID").values
    ts, te = E.time_start.values, E.time_end.values
    for e in range(1, N + 1):
        pres = np.array([(F[t] == e).any() for t in range(nt)])
        ensure((pr[:, e - 1] == pres).all(), "presence does not match the ID field", event=e)
        ensure(((gid[:, e - 1] > 0) == pres).all(), "object mapping does not match the ID field", event=e)
        w = np.where(pres)[0]
        ensure(np.datetime64(ts[e - 1]) == np.datetime64(times[w[0]]), "time_start is not the first time of the event", event=e, got=str(ts[e - 1]))
        ensure(np.datetime64(te[e - 1]) == np.datetime64(times[w[-1]]), "time_end is not the last time of the event", event=e, got=str(te[e - 1]))
        ensure((np.diff(w) == 1).all(), "an event disappears and reappears", event=e)
        for t in range(nt):
            m = F[t] == e
            if not m.any():
                ensure(np.isnan(ar[t, e - 1]) and np.isnan(ce[:, t, e - 1]).all(), "absent event has an area or centroid", event=e, t=t)
                continue
            A = float(area[m].sum())
            ensure(abs(ar[t, e - 1] - A) <= 1e-4 * A, "area is not the sum of the event's cell areas", event=e, t=t, got=ar[t, e - 1], want=A)
            if mesh:
                la, lo = sphere_centroid(lat[m], lon[m], area[m])
                tol = 2e-2
                gl, go = ce[0, t, e - 1] / units, ce[1, t, e - 1] / units
                ensure(abs(gl - la) < tol, "centroid latitude is wrong", event=e, t=t, got=gl, want=la)
                dl = (go - lo + 180) % 360 - 180
                ensure(abs(dl) < tol / max(0.05, np.cos(np.deg2rad(la))), "centroid longitude is wrong", event=e, t=t, got=go, want=lo)
            else:
                y, x = np.nonzero(m)
                aw = area[m]
                cy = (y * aw).sum() / aw.sum()
                nx = m.shape[1]
                la = np.interp(cy, np.arange(len(lat)), lat)
                gl, go = ce[0, t, e - 1] / units, ce[1, t, e - 1] / units
                ensure(abs(gl - la) < 1e-2, "centroid latitude is not the area-weighted mean", event=e, t=t, got=gl, want=la)
                cols = np.unique(x)
                if wrap:
                    gaps = np.diff(np.append(cols, cols[0] + nx))
                    srt = np.sort(gaps)[::-1]
                    if len(srt) > 1 and srt[0] == srt[1] or srt[0] <= nx / 2:
                        continue            # the event encircles (most of) the globe: no preferred unwrapping
                    k = int(np.argmax(gaps))
                    if k != len(gaps) - 1:
                        x = np.where(x >= cols[k + 1], x - nx, x)
                cx = (x * aw).sum() / aw.sum()
                if wrap:
                    cx = cx % nx
                seam = wrap and cx > nx - 1
                dlon = lon[1] - lon[0]
                lo = lon[0] + cx * dlon
                d = (go - lo + 180) % 360 - 180 if wrap else go - lo
                ensure(abs(d) < (abs(dlon) * 1.01 if seam else 2e-2), "centroid longitude is not the area-weighted mean", event=e, t=t, got=go, want=lo)


def check_merges(mg, ev, F, times, ref_merges, size=None, tname="time"):
    n = mg.sizes.get("merge_ID", 0)
    ensure(int(ev.attrs["total_merges"]) == n, "reported number of merges differs from the merge table")
    ensure(int(ev.attrs["multi_parent_merges"]) == int((mg.n_parents.values > 2).sum()), "reported multi-parent merges differ from the merge table")
    got = []
    for k in range(n):
        p = mg.parent_IDs.values[k]; p = p[p > 0]
        c = mg.child_IDs.values[k]; c = c[c > 0]
        o = mg.overlap_areas.values[k]; o = o[o >= 0]
        ensure(len(p) >= 2, "a merge has fewer than two parents", merge=k)
        ensure(len(set(p.tolist())) == len(p), "a merge lists a parent twice", merge=k)
        ensure(int(mg.n_parents.values[k]) == len(p) and int(mg.n_children.values[k]) == len(c) == len(p), "parent/child counts of a merge are inconsistent", merge=k)
        tt = np.where(times == mg.merge_time.values[k])[0]
        ensure(len(tt) == 1, "merge time is not on the time axis", merge=k)
        got.append((int(tt[0]), len(p), sorted(round(float(v), 3) for v in o)))
    if ref_merges is not None:
        g, w = sorted(got), sorted((m[0], m[1], sorted(float(v) for v in m[2])) for m in ref_merges)
        same = len(g) == len(w) and all(a[:2] == b[:2] and len(a[2]) == len(b[2]) and np.allclose(a[2], b[2], rtol=1e-3, atol=0.06) for a, b in zip(g, w))
        ensure(same, "recorded merges are not the merges that happened", got=g[:3], want=w[:3])
    # ledger
    led = ev.merge_ledger.transpose(tname, "ID", "sibling_ID").compute().values
    mt = {m[0] for m in got}
    gid = ev.global_ID.transpose(tname, "ID").compute().values
    for t in range(led.shape[0]):
        for e in range(led.shape[1]):
            s = led[t, e]
            s = s[s > 0]
            if len(s):
                ensure(t in mt, "ledger lists a merge at a time without merges", t=t, event=e + 1)
                ensure(e + 1 in s.tolist(), "ledger entry of an event does not name the event among the merging siblings", t=t, event=e + 1, got=s.tolist())
                for q in s:
                    ensure(t > 0 and (F[t - 1] == q).any(), "ledger names an event that is not present before the merge", t=t, event=e + 1, sibling=int(q))
    # every recorded merge appears: parents' events list each other
    old2new = {}
    for t in range(gid.shape[0]):
        for e in range(gid.shape[1]):
            if gid[t, e] > 0:
                old2new.setdefault((t, int(gid[t, e])), e + 1)
    last, vague = {}, set()
    want = {}
    for m in ref_merges or ():
        k = (m[0], tuple(sorted((size(m[0] - 1, p), round(float(v), 1)) for p, v in m[3])))
        want[k] = want.get(k, 0) + 1
    for k in range(n if ref_merges is not None else 0):
        t = got[k][0]
        ev_of = [old2new.get((t - 1, int(p))) for p in mg.parent_IDs.values[k] if p > 0]
        ov = [float(v) for v in mg.overlap_areas.values[k] if v >= 0]
        if any(e is None for e in ev_of) or len(set(ev_of)) < len(ev_of):
            continue
        pr = sorted((int((F[t - 1] == e).sum()), v) for e, v in zip(ev_of, ov))
        ok = any(q[0] == t and len(q[1]) == len(pr) and all(a[0] == b[0] and abs(a[1] - b[1]) <= 0.06 + 1e-3 * b[1] for a, b in zip(pr, q[1])) for q in want)
        ensure(ok, "the overlap areas of a merge are not those of its parents, in order", merge=k, t=t, got=pr, want=[q[1] for q in want if q[0] == t][:3])
    for k in range(n):
        t = got[k][0]
        ps = [old2new.get((t - 1, int(p))) for p in mg.parent_IDs.values[k] if p > 0]
        if any(p is None for p in ps):          # parent not resolvable through global_ID (several objects in one event)
            vague.add(t)
            continue
        for p in ps:
            last.setdefault((t, p), []).append(set(ps))
    for (t, p), sibs in last.items():
        if t in vague:
            continue
        s = led[t, p - 1]
        s = set(s[s > 0].tolist())
        # an event taking part in several merges at once may list any of them
        ensure(any(s == v for v in sibs), "ledger does not list the events that merged", t=t, event=p, got=sorted(s), want=[sorted(v) for v in sibs])


def case_track(kind="movers", nt=8, ny=12, nx=22, seed=0, density=0.35, tchunk=3, regional=False, nn=True, thr=0.5, land="none", lon0=0.0, areas="unit",
               merging=True, names=("time", "lat", "lon"), order=None, strict=True):
    b = scene(kind, nt, ny, nx, seed, density)
    m = mask_of(land, ny, nx, seed)
    b &= m
    if only_first(b, not regional):
        return {}
    kw = {}
    lat = np.linspace(-60, 60, ny); lon = lon0 + np.arange(nx) * (360.0 / nx)
    area = np.ones((ny, nx))
    if areas == "cell":
        area = rng("ar", seed).uniform(0.5, 2.0, (ny, nx))
        kw["cell_areas"] = xr.DataArray(area, dims=names[1:], coords={names[1]: lat, names[2]: lon})
    elif areas == "res":
        res = 360.0 / nx
        kw["grid_resolution"] = res
        la = np.deg2rad(lat)[:, None]
        dl = np.deg2rad(res)
        area = R_EARTH**2 * np.abs(np.sin(la + dl / 2) - np.sin(la - dl / 2)) * dl * np.ones((1, nx))
    tr = g_tracker(b, m, tchunk=tchunk, lon0=lon0, regional_mode=regional, nn_partitioning=nn, overlap_threshold=thr, allow_merging=merging, names=tuple(names),
                   order=order, **kw)
    ev, mg = run_all(tr)
    F = ev.ID_field.transpose(*names).compute().values
    times = time_axis("2000-01-01", nt).values
    wrap = not regional
    b = effective(b, F > 0, wrap)
    ensure(((F > 0) == b).all(), "tracked events do not cover exactly the processed extreme cells", n=int(((F > 0) != b).sum()))
    if not merging:
        ensure(same_partition(F, comps3_struct(b, wrap)), "events without merging are not the space-time connected components")
        ids = np.unique(F[F > 0])
        ensure((ids == np.arange(1, len(ids) + 1)).all() and int(ev.attrs["N_events_final"]) == len(ids), "event IDs are not 1..N")
        return {"events": len(ids)}
    amb = []
    ref = Ref(b, [comps_struct(x, wrap) for x in b], np.ones((ny, nx)), thr, grid_split(nn, wrap, amb), None, guide=F).run()
    R = ref.events()
    check_event_dataset(ev, F, times, area, lat, lon, wrap, False, tname=names[0])
    if not amb:
        ensure(same_partition(F, R), "event partition differs from: overlap-linked objects, merged objects divided among their parents",
               first=next((t for t in range(nt) if not same_partition(F[t], R[t])), None))
    check_merges(mg, ev, F, times, ref.merges if not amb else None, ref.size, tname=names[0])
    return {"events": int(F.max()), "merges": len(ref.merges), "ambiguous": len(amb)}


def case_track_mesh(kind="movers", nt=7, ny=7, nx=11, seed=0, density=0.35, tchunk=3, nn=True, thr=0.5, land="none", units="degrees", lon_range="pm180", areas="geo"):
    m2 = mask_of(land, ny, nx, seed)
    m = np.repeat(m2.reshape(-1), 2)
    b = mesh_scene(kind, nt, ny, nx, seed, density) & m
    if not b.any():
        return {}
    nb, lat, lon, ar = tri_mesh(ny, nx)
    if areas == "unit":
        ar = np.ones(len(ar))
    elif areas == "steep":          # a coarse and a fine half: cells differ in area by up to a factor of thirty
        ar = 1.0 + 29.0 * ((np.arange(len(ar)) // 2 // nx + np.arange(len(ar)) // 2 % nx) % 3 == 0)
    elif areas != "geo":
        ar = rng("mar", seed).uniform(0.5, 2.0, len(ar))
    ar = ar.astype(np.float32).astype(float)
    with Scratch() as d:
        tr = u_tracker(b, ny, nx, d, m, tchunk=tchunk, nn_partitioning=nn, overlap_threshold=thr, units=units, lon_range=lon_range, area=ar)
        ev, mg = run_all(tr)
        ev = ev.compute()
    F = ev.ID_field.transpose("time", "ncells").values
    times = time_axis("2000-01-01", nt).values
    labs = [comps_mesh(x, nb - 1) for x in b]
    # objects of fewer than the documented floor are not special for absolute filtering with threshold 1
    ensure(((F > 0) == b).all(), "tracked events do not cover exactly the processed extreme cells", n=int(((F > 0) != b).sum()))
    amb = []
    ref = Ref(b, labs, ar, thr, mesh_split(nn, nb - 1, lat, lon, ar, amb), None, consolidate=False, passes=1, guide=F).run()
    R = ref.events()
    amb += ref.near
    check_event_dataset(ev, F, times, ar, lat, lon, True, True, units=np.pi / 180 if units == "radians" else 1.0)
    if lon_range == "0_360":
        c = ev.centroid.isel(component=1).values
        c = c[np.isfinite(c)]
        ensure((c >= -1e-3).all(), "centroid longitudes are not in the input's range")
    if not amb:
        ensure(same_partition(F, R), "event partition differs from: overlap-linked objects, merged objects divided among their parents",
               first=next((t for t in range(nt) if not same_partition(F[t], R[t])), None))
    check_merges(mg, ev, F, times, ref.merges if not amb else None, ref.size)
    return {"events": int(F.max()), "merges": len(ref.merges), "ambiguous": len(amb)}
