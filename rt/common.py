"""Shared set-up for the run-time contract layer (executed with the repository's own interpreter).

Imports marEx from the working tree, removes the need for a distributed cluster
(`wait` is a synchronisation no-op when persist() is synchronous) and provides small data builders.
"""
import os, sys, warnings, json, traceback, time as _time

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_k, "2")
warnings.filterwarnings("ignore")
REPO = os.environ.get("MAREX_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np
import xarray as xr
import dask
import distributed
import dask.distributed

xr.set_options(use_numbagg=False)
distributed.wait = lambda *a, **k: None
dask.distributed.wait = distributed.wait
dask.config.set(scheduler="synchronous")

import marEx
import marEx.detect as detect
import marEx.track as track
import marEx.helper as helper

import logging
marEx.set_quiet_mode()
logging.getLogger("marEx").setLevel(logging.CRITICAL)


class ContractViolation(AssertionError):
    """A post-condition of the real code is false on a concrete input."""


def ensure(cond, msg, **ctx):
    if not bool(cond):
        raise ContractViolation(msg + ("" if not ctx else " | " + ", ".join(f"{k}={v}" for k, v in ctx.items())))


KNOWN = []      # known findings met by the running case


def known(fid):
    if fid not in KNOWN:
        KNOWN.append(fid)


def quiet():
    marEx.set_quiet_mode()
    logging.getLogger("marEx").setLevel(logging.CRITICAL)


# ------------------------------------------------------------------ builders
def time_axis(start, n, freq="D"):
    import pandas as pd
    return pd.date_range(start, periods=n, freq=freq)


def gridded(values, start="2000-01-01", times=None, dims=("time", "lat", "lon"), chunks=None, lon=None, lat=None, name="sst"):
    nt, ny, nx = values.shape
    times = time_axis(start, nt) if times is None else times
    lon = np.arange(nx) * (360.0 / nx) if lon is None else lon
    lat = np.linspace(-60, 60, ny) if lat is None else lat
    da = xr.DataArray(values, dims=dims, coords={dims[0]: times, dims[1]: lat, dims[2]: lon}, name=name)
    if chunks is None:
        chunks = {dims[0]: max(1, nt // 3), dims[1]: -1, dims[2]: -1}
    return da.chunk(chunks) if chunks is not False else da


def unstructured(values, start="2000-01-01", times=None, chunks=None, name="sst"):
    nt, nc = values.shape
    times = time_axis(start, nt) if times is None else times
    da = xr.DataArray(values, dims=("time", "ncells"),
                      coords={"time": times, "lat": ("ncells", np.linspace(-50, 50, nc)), "lon": ("ncells", np.linspace(-170, 170, nc))},
                      name=name)
    return da.chunk({"time": max(1, nt // 3), "ncells": -1} if chunks is None else chunks)


def tri_mesh(ny, nx, lat0=-60.0, lat1=60.0, periodic=True):
    """Triangulated lat-lon mesh: 2*ny*nx cells. Returns (neighbours (3,n) with 1-based ids / 0 = none as in ICON, lat, lon, area)."""
    n = 2 * ny * nx
    def cid(j, i, k):
        return 2 * (j * nx + i) + k
    nb = np.zeros((3, n), dtype=np.int32)
    lat = np.zeros(n); lon = np.zeros(n)
    dlat = (lat1 - lat0) / ny; dlon = 360.0 / nx
    for j in range(ny):
        for i in range(nx):
            lo, up = cid(j, i, 0), cid(j, i, 1)
            lat[lo] = lat0 + (j + 1 / 3) * dlat; lat[up] = lat0 + (j + 2 / 3) * dlat
            lon[lo] = -180 + (i + 1 / 3) * dlon; lon[up] = -180 + (i + 2 / 3) * dlon
            left = (i - 1) % nx if periodic else i - 1
            right = (i + 1) % nx if periodic else i + 1
            nb[0, lo] = up + 1
            nb[1, lo] = cid(j, left, 1) + 1 if left >= 0 else 0
            nb[2, lo] = cid(j - 1, i, 1) + 1 if j > 0 else 0
            nb[0, up] = lo + 1
            nb[1, up] = cid(j, right, 0) + 1 if right < nx else 0
            nb[2, up] = cid(j + 1, i, 0) + 1 if j < ny - 1 else 0
    area = np.cos(np.deg2rad(lat)) * dlat * dlon
    return nb, lat, lon, area


def rng(*key):
    return np.random.default_rng([abs(hash_stable(k)) % (2**32) for k in key])


def hash_stable(k):
    import zlib
    return zlib.crc32(repr(k).encode())


def unjit(module):
    """Run the numba kernels as the Python they are written in (same source, no compilation cost)."""
    n = 0
    for k, f in list(vars(module).items()):
        pf = getattr(f, "py_func", None)
        if callable(pf):
            setattr(module, k, pf)
            n += 1
    return n
