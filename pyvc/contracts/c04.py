"""P04, P05: anomalies (shifting baseline, detrending, fixed baseline)."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, same, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported, nanb, infi, mk_red, mk_sum
from .. import core, npm, xrm, arr
from ..arr import Arr, sym_arr, inb
from .c01 import D, GRIDS, data, cell, fin, attempt

CK = {(D, "checkpoint_to_zarr"): lambda x, *a, **k: x}


def rp_shift(tier):
    return [["det", "case_shifting", dict(seed=s, **kw)] for s in range(2) for kw in (dict(step=3), dict(W=3, S=11, nyears=5, grid="mesh", step=5), dict(W=1, S=1, nyears=3, start="2003-01-01", step=3),
            dict(W=2, S=5, nyears=6, drop=(2003,), entry="anomaly", step=5), dict(W=2, S=5, nyears=4, start="2003-06-15", land=((0, 1),), step=3))] + [["det", "case_causal", dict(seed=s)] for s in range(2)]


def eqv(a, b):
    """Equal as floats: both missing, or equal values."""
    a, b = lift(a), lift(b)
    return And(nanb(a) == nanb(b), z3.Implies(Not(nanb(a)), zr(a) == zr(b)))


def data_f(E, grid, name="a"):
    """A field whose values are finite or missing."""
    da, dm, cd, sz = data(E, grid, "f", name)
    f = z3.Function(name + ".nan", *[z3.IntSort()] * len(da.dims), z3.BoolSort())
    e = da.arr._elem
    da.arr._elem = lambda *i: Sym(e(*i).e, nan=f(*i))
    return da, dm, cd, sz


def year(da, dm, t):
    return xrm.YEAR(da.coords[dm["time"]].arr.get(t).e)


def doy(da, dm, t):
    return xrm.DOY(da.coords[dm["time"]].arr.get(t).e)


def group_mean_spec(da, dm, p, cond):
    """Mean over the times t of the record with cond(t), missing values skipped; missing when there are none."""
    T = dm["time"]
    return xrm.group_mean((da.sizes[T],), lambda t: (And(inb(t, da.sizes[T]), cond(t)), da.get(**dict(p, **{T: t}))))


@contract(["P04"], f"{D}.rolling_climatology", rp_shift, title="rolling climatology")
def rolling(c):
    """climatology(t, cell) = mean over the times s with year(t) - W <= year(s) < year(t) and the same day of year, provided year(t) >= first year + W; otherwise missing."""
    for grid in ("gridded", "mesh", "renamed"):
        for ck in (False, True):
            def t():
                E = c.E
                c.new_repo(None, CK)
                da, dm, cd, sz = data_f(E, grid)
                W = sym_int("W")
                E.assume(W.e >= 1)
                r = c.repo.fn(D, "rolling_climatology")(da, W, dm, cd, ck)
                p = cell(E, dm, sz)
                T = dm["time"]
                tag = f"{grid}{', checkpointed' if ck else ''}"
                c.require(f"shape ({tag})", z3.BoolVal(set(r.dims) == set(sz)))
                got = r.get(**p)
                y0, d0 = year(da, dm, p[T]), doy(da, dm, p[T])
                first = npm.np.min(da.coords[T].dt.year.arr)
                spec = group_mean_spec(da, dm, p, lambda s: And(year(da, dm, s) >= y0 - W.e, year(da, dm, s) < y0, doy(da, dm, s) == d0, y0 >= zi(first) + W.e))
                c.require(f"window of earlier years, same day of year ({tag})", eqv(got, spec))
                if grid == "gridded" and not ck:
                    # causality: values of the target's own and later years are irrelevant
                    b = z3.Function("b", *[z3.IntSort()] * 3, z3.RealSort())
                    mix = xrm.DA(Arr(da.arr.shape, lambda i, *r: core.ite(Sym(year(da, dm, i) < y0), da.arr.get(i, *r), Sym(b(i, *r))), "f"), dims=da.dims, coords=dict(da.coords), name=da.name)
                    r2 = c.repo.fn(D, "rolling_climatology")(mix, W, dm, cd, ck)
                    c.require("later and concurrent years have no influence", eqv(r2.get(**p), got))
            c.run(t)


@contract(["P04"], f"{D}.smoothed_rolling_climatology", rp_shift, title="smoothed climatology")
def smoothed(c):
    """the climatology is taken of the centred S-step running mean (missing where the window leaves the record or holds a missing value); anomaly = value - climatology."""
    for grid in ("gridded", "mesh"):
        def t():
            E = c.E
            got = []
            da, dm, cd, sz = data_f(E, grid)
            clim = xrm.DA(sym_arr("clim", [sz[d] for d in da.dims], "f"), dims=da.dims)
            sig = c.repo.sig(D, "rolling_climatology")

            def rc(*a, **k):
                b = sig.bind(*a, **k)
                b.apply_defaults()
                got.append(b.arguments)
                return clim
            c.new_repo(None, {(D, "rolling_climatology"): rc})
            W, S = sym_int("W"), sym_int("S")
            E.assume(And(W.e >= 1, S.e >= 1, S.e % 2 == 1))
            f = c.repo.fn(D, "_compute_anomaly_shifting_baseline")
            ds = f(da, W, S, dm, cd, bool(sym_bool("ck")))
            p = cell(E, dm, sz)
            T = dm["time"]
            g = got[0]
            h = S.e / 2
            sm = g["da"].get(**p)
            s0 = lambda w: p[T] - h + w
            win = lambda w: And(w >= 0, w < S.e)
            bad = npm.np.any(Arr((S,), lambda w: Sym(Or(s0(w) < 0, s0(w) >= zi(sz[T]), nanb(da.get(**dict(p, **{T: s0(w)}))))), "b"))
            tot = mk_sum((S,), lambda w: Sym(z3.If(Or(s0(w) < 0, s0(w) >= zi(sz[T]), nanb(da.get(**dict(p, **{T: s0(w)})))), z3.RealVal(0), zr(da.get(**dict(p, **{T: s0(w)}))))))
            c.require(f"one climatology is taken, with the window of years of the caller ({grid})", And(z3.BoolVal(len(got) == 1), zi(g["window_year_baseline"]) == W.e))
            c.require(f"running mean missing exactly where its window is incomplete ({grid})", nanb(sm) == zb(bad))
            c.require(f"anomaly is value minus climatology ({grid})", eqv(ds["dat_anomaly"].get(**p), Sym(zr(da.get(**p)) - zr(clim.get(**p)), nan=nanb(da.get(**p)))))
            m = ds["mask"].get(**{d: p[d] for d in sz if d != T})
            c.require(f"mask = first step is finite ({grid})", zb(m) == fin(da.get(**dict(p, **{T: z3.IntVal(0)}))))
            n = mk_sum((S,), lambda w: Sym(z3.If(Or(s0(w) < 0, s0(w) >= zi(sz[T]), nanb(da.get(**dict(p, **{T: s0(w)})))), z3.RealVal(0), z3.RealVal(1))))
            c.require(f"running mean is the mean of the window ({grid})", z3.Implies(Not(nanb(sm)), zr(sm) * n == tot), )
        c.run(t)


def rp_det(tier):
    return [["det", "case_detrend", dict(seed=s, method=m, **kw)] for s in range(2) for m in ("detrend_harmonic", "fixed_baseline", "detrend_fixed_baseline")
            for kw in (dict(), dict(grid="mesh", orders=(1, 2)), dict(names=("t", "y", "x"), transpose=True))] + [["det", "case_detrend", dict(seed=s, std=True, nt=1100)] for s in range(2)]


@contract(["P05"], f"{D}._compute_anomaly_fixed_baseline", rp_det, title="fixed baseline")
def fixed(c):
    """anomaly(t, cell) = value - mean of the cell over every time of the record with the same day of year (missing values skipped)."""
    for grid in ("gridded", "mesh", "renamed", "transposed"):
        def t():
            E = c.E
            da, dm, cd, sz = data_f(E, grid)
            ds = c.repo.fn(D, "_compute_anomaly_fixed_baseline")(da, dm, cd)
            p = cell(E, dm, sz)
            T = dm["time"]
            m = group_mean_spec(da, dm, p, lambda s: doy(da, dm, s) == doy(da, dm, p[T]))
            a = da.get(**p)
            got = ds["dat_anomaly"]
            c.require(f"shape ({grid})", z3.BoolVal(set(got.dims) == set(sz)))
            c.require(f"value minus the mean of its day of year ({grid})", eqv(got.get(**p), Sym(zr(a) - zr(m), nan=Or(nanb(a), nanb(m)))))
            k = ds["mask"].get(**{d: p[d] for d in sz if d != T})
            c.require(f"mask = first step is finite ({grid})", zb(k) == fin(da.get(**dict(p, **{T: z3.IntVal(0)}))))
        c.run(t)


@contract(["P05"], f"{D}._compute_anomaly_detrend_fixed_baseline", rp_det, title="detrended fixed baseline")
def detrend_fixed(c):
    """the fixed-baseline anomaly of the detrended field (trend only, no harmonics), with the caller's orders and zero-mean choice."""
    def t():
        E = c.E
        got = []
        da, dm, cd, sz = data_f(E, "gridded")
        mid = xrm.DA(sym_arr("detrended", [sz[d] for d in da.dims], "f"), dims=da.dims, coords=dict(da.coords))
        out = object()
        s1, s2 = c.repo.sig(D, "_compute_anomaly_detrended"), c.repo.sig(D, "_compute_anomaly_fixed_baseline")

        def det(*a, **k):
            b = s1.bind(*a, **k)
            b.apply_defaults()
            got.append(("d", b.arguments))
            return xrm.DS({"dat_anomaly": mid})

        def fx(*a, **k):
            b = s2.bind(*a, **k)
            b.apply_defaults()
            got.append(("f", b.arguments))
            return out
        c.new_repo(None, {(D, "_compute_anomaly_detrended"): det, (D, "_compute_anomaly_fixed_baseline"): fx})
        orders = [1, 2]
        zm = bool(sym_bool("zero_mean"))
        r = c.repo.fn(D, "_compute_anomaly_detrend_fixed_baseline")(da, orders, dm, cd, zm)
        c.require("detrending, then the fixed baseline of its result", z3.BoolVal(r is out and [k for k, _ in got] == ["d", "f"]))
        g, h = got[0][1], got[1][1]
        c.require("trend only, caller's orders and zero-mean choice", z3.BoolVal(g["da"] is da and list(g["detrend_orders"]) == [1, 2] and g["force_zero_mean"] is zm and g["remove_harmonics"] is False
                  and not g["std_normalise"]))
        p = cell(E, dm, sz)
        c.require("the baseline is removed from the detrended field", eqv(h["da"].get(**p), mid.get(**p)))
    c.run(t)
