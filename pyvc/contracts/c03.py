"""P02, P03: histogram quantiles."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, same, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported, nanb, infi, mk_red, mk_sum
from .. import core, npm, xrm, arr
from ..arr import Arr, sym_arr, inb
from .c01 import D, data, cell, fin, attempt, rp_doy, rp_const
from .c04 import data_f, doy, eqv


def wrap(s, n):
    return z3.If(s < 0, s + n, z3.If(s >= n, s - n, s))


@contract(["P03"], f"{D}._rolling_histogram_quantile", rp_doy, title="circular window quantile")
def rollq(c):
    """threshold(day) interpolates, between the centres of the first bin u whose cumulative count passes q * total and of the bin before it, the counts of the days within
    half a window of `day` on the circular calendar; missing when the window is empty."""
    def t():
        E = c.E
        nd, nb, w = sym_int("n_doy"), sym_int("n_bins"), sym_int("window")
        E.assume(And(w.e >= 1, w.e % 2 == 1, w.e <= nd.e, nb.e >= 2))
        h = sym_arr("hist", (nd, nb), "i")
        q = sym_real("q")
        E.assume(And(q.e > 0, q.e < 1))
        bc = sym_arr("centre", (nb,), "f")
        r = c.repo.fn(D, "_rolling_histogram_quantile")(h, w, q, bc)
        i, u = z3.Int("day"), z3.Int("u")
        E.assume(And(inb(i, nd), inb(u, nb)))
        E.point(i, dom=(nd,)), E.point(u, dom=(nb,)), E.point(u - 1, dom=(nb,))
        half = w.e / 2
        W = lambda b: Sym(mk_sum((w,), lambda k: h.get(wrap(i - half + k, nd.e), b)))
        C = lambda b: mk_sum((Sym(b + 1),), lambda k: W(k))
        tot = mk_sum((nb,), lambda k: W(k))
        pos = q.e * tot
        got = r.get(i)
        c.require("one threshold per day", zi(r.shape[0]) == nd.e)
        c.require("missing exactly when the window holds nothing", nanb(got) == (tot <= 0))
        E.assume(And(tot > 0, C(u) > pos))
        E.universal(1, lambda j: z3.Implies(And(j >= 0, j < u), C(j) <= pos), dom=(nb,))
        d = C(u) - C(u - 1)
        with c.under(u == 0):
            c.require("lowest bin", zr(got) == zr(bc.get(z3.IntVal(0))))
        with c.under(u > 0):
            c.require("interpolated between neighbouring bins", (zr(got) - zr(bc.get(u - 1))) * d == (pos - C(u - 1)) * (zr(bc.get(u)) - zr(bc.get(u - 1))))
    c.run(t)


def fine(v):
    return lift(v)


@contract(["P03"], f"{D}._compute_histogram_quantile_2d", rp_doy, title="day-of-year histogram")
def hist2d(c):
    """the histogram handed to the window quantile counts, per cell, day of year and bin, the anomalies of the record falling in the bin, pooled over the spatial window (periodic in x, clipped in y);
    the threshold is missing where the first step is, and never below the third bin edge."""
    for grid, ws in (("gridded", None), ("mesh", None), ("gridded", 3), ("renamed", 5), ("gridded", 1)):
        for ck in (False, True) if ws is None else (False,):
            def t():
                E = c.E
                rec = []
                da, dm, cd, sz = data_f(E, grid)
                T = dm["time"]
                da = da.assign_coords(dayofyear=da[T].dt.dayofyear)
                wd = sym_int("wd")
                q, prec, mx = sym_real("q"), sym_real("precision"), sym_real("max_anomaly")
                E.assume(And(wd.e >= 1, q.e > 0, q.e < 1, prec.e > 0, mx.e > 3 * prec.e))
                sig = c.repo.sig(D, "_rolling_histogram_quantile")

                def rq(*a, **k):
                    b = sig.bind(*a, **k).arguments
                    h, bc = b["hist_chunk"], b["bin_centers"]
                    rec.append((h.shape, bc, b["window_days_hobday"], b["q"]))
                    return Arr((h.shape[0],), lambda d: mk_red("rollq", [z3.ToReal(d)], h.shape, lambda i, j: (z3.BoolVal(True), h.get(i, j))), "f")
                c.new_repo(None, {(D, "_rolling_histogram_quantile"): rq, (D, "checkpoint_to_zarr"): lambda x, *a, **k: x})
                w = ws if ws is None else sym_int("ws")
                if ws is not None:
                    if ws == 1:
                        w = 1
                    else:
                        E.assume(And(w.e >= 3, w.e % 2 == 1, w.e <= zi(sz[dm["x"]])))
                        E.point(w.e / 2, dom=(w,))            # the window's own cell
                r = c.repo.fn(D, "_compute_histogram_quantile_2d")(da, q, wd, w, None, dm, prec, mx, ck)
                tag = f"{grid}, {'window ' + str(ws) if ws else 'no spatial window'}{', checkpointed' if ck else ''}"
                p = cell(E, dm, sz)
                c.require(f"one threshold per cell and day ({tag})", z3.BoolVal(set(r.dims) == {d for d in sz if d != T} | {"dayofyear"}))
                d0 = z3.Int("d0")
                E.assume(And(d0 >= 0, d0 < 366))
                sp = {d: p[d] for d in sz if d != T}
                E.point(*[dict(sp, dayofyear=d0)[k] for k in r.dims], dom=r.arr.shape)
                got = r.get(**dict(sp, dayofyear=d0))
                sh, bc, w2, q2 = rec[-1]
                nb = zi(sh[1])
                edge = lambda j: -prec.e + z3.ToReal(j - 1) * prec.e       # edges after the first (-infinity)
                b = z3.Int("b")
                E.assume(And(b >= 0, b < nb))
                c.require(f"window and quantile are the caller's ({tag})", And(zi(w2) == wd.e, zr(q2) == q.e, zi(sh[0]) == 366))
                c.require(f"the bins reach max_anomaly ({tag})", And(edge(nb) >= mx.e, edge(nb) < mx.e + prec.e))
                c.require(f"bin centres ({tag})", zr(bc.get(b)) == z3.If(b == 0, z3.RealVal(0), (edge(b) + edge(b + 1)) / 2))

                def count(x, i, j):
                    E.ghost["edgepts"] = [j, j + 1]

                    def one(s):
                        v = da.get(**dict(x, **{T: s}))
                        inbin = And(Not(nanb(v)), zr(v) < edge(j + 1), Or(j == 0, zr(v) >= edge(j)))
                        return Sym(z3.If(And(doy(da, dm, s) == i + 1, inbin), z3.RealVal(1), z3.RealVal(0)))
                    return mk_sum((sz[T],), one)

                def pooled(i, j):
                    if ws in (None, 1):
                        return Sym(count(sp, i, j))
                    h = w.e / 2
                    X, Y = dm["x"], dm["y"]
                    row = lambda y: mk_sum((w,), lambda k: Sym(count({X: wrap(sp[X] - h + k, zi(sz[X])), Y: y}, i, j)))
                    return Sym(mk_sum((w,), lambda k: Sym(z3.If(And(sp[Y] - h + k >= 0, sp[Y] - h + k < zi(sz[Y])), row(sp[Y] - h + k), z3.RealVal(0)))))
                ref = mk_red("rollq", [z3.ToReal(d0)], (sh[0], sh[1]), lambda i, j: (z3.BoolVal(True), pooled(i, j)))
                land = Not(fin(da.get(**dict(sp, **{T: z3.IntVal(0)}))))
                low = edge(z3.IntVal(3))
                want = Sym(z3.If(zr(ref) < low, low, zr(ref)), nan=Or(land, nanb(ref)))
                c.require(f"threshold is the window quantile of the pooled counts, missing over land, not below the third edge ({tag})", eqv(got, want))
            c.run(t)


# ------------------------------------------------------------------ P02: constant-in-time histogram quantile
@contract(["P02"], f"{D}._compute_histogram_quantile_1d", rp_const, title="histogram quantile of a record")
def hist1d(c):
    """threshold(cell) = centre of the first bin u at which the cumulative fraction of the record's values reaches q, not below the third edge; missing exactly where a value of the record is.
    (A percentile below -precision, u = 0, is left to the bounded layer: the code then extrapolates below the clipping edge.)
    The counts are those of xhistogram.histogram called with the record, the bins (-inf, -p), [-p, 0), [0, p), ... up to max_anomaly, over the time dimension (assumed contract: counts of the values per bin)."""
    for grid in ("gridded", "mesh"):
        def t():
            E = c.E
            E.ghost["prefix_sums"] = E.ghost["nonneg_sums"] = E.ghost["any_no_witness"] = True
            da, dm, cd, sz = data_f(E, grid)
            T = dm["time"]
            q, prec, mx = sym_real("q"), sym_real("precision"), sym_real("max_anomaly")
            E.assume(And(q.e > z3.Q(1, 100), q.e < z3.Q(999999, 1000000), prec.e > 0, mx.e > 5 * prec.e))
            rest = [d for d in da.dims if d != T]
            H = z3.Function("count", *[z3.IntSort()] * (len(rest) + 1), z3.IntSort())
            rec = []

            def histogram(x, bins=None, dim=None, **k):
                if k or len(bins) != 1 or len(dim) != 1:
                    raise Unsupported("histogram options")
                E.dep("xhistogram.histogram counts, per cell, the values in [edge_b, edge_b+1), the last bin closed; missing values are in no bin")
                rec.append((x, bins[0], dim[0]))
                nb = Sym(zi(bins[0].shape[0]) - 1)
                bn = f"{x.name}_bin"
                hd = [d for d in x.dims if d != dim[0]]
                h = Arr([x.sizes[d] for d in hd] + [nb], lambda *i: Sym(z3.ToReal(z3.If(H(*i) > 0, H(*i), z3.IntVal(0)))), "f")
                return xrm.DA(h, dims=hd + [bn], coords={bn: xrm.DA(sym_arr("bin_coord", (nb,), "f"), dims=[bn])}, name="histogram_" + str(x.name))
            c.new_repo(None, {(D, "histogram"): histogram})
            r = c.repo.fn(D, "_compute_histogram_quantile_1d")(da, q, T, precision=prec, max_anomaly=mx)
            p = cell(E, dm, sz)
            sp = {d: p[d] for d in sz if d != T}
            c.require(f"one threshold per cell ({grid})", z3.BoolVal(set(r.dims) == set(sp)))
            E.point(*[sp[d] for d in r.dims], dom=r.arr.shape)
            x, ed, dim = rec[-1]
            c.require(f"the counts are of the caller's record over time ({grid})", And(z3.BoolVal(dim == T), same(x.get(**p), da.get(**p))))
            edge = lambda j: -prec.e + z3.ToReal(j - 1) * prec.e
            u, b = z3.Int("u"), z3.Int("b")
            nb = zi(ed.shape[0]) - 1
            E.assume(And(b >= 0, b <= nb))
            c.require(f"bins ({grid})", And(zi(ed.shape[0]) - 1 == nb, edge(nb) >= mx.e, edge(nb) < mx.e + prec.e, infi(ed.get(b)) == z3.If(b == 0, -1, 0), Or(b == 0, zr(ed.get(b)) == edge(b))))
            E.assume(And(u >= 0, u <= nb - 2, nb >= 5))
            hc = lambda j: z3.ToReal(z3.If(H(*[sp[d] for d in rest], j) > 0, H(*[sp[d] for d in rest], j), z3.IntVal(0)))
            N = mk_sum((Sym(nb),), lambda k: Sym(hc(k))) + z3.Q(1, 10**10)
            F = lambda b: mk_sum((Sym(b + 1),), lambda k: Sym(hc(k) / N))
            qq = q.e - z3.Q(1, 10**10)
            for k in (u, u - 1, z3.IntVal(0), z3.IntVal(1)):
                E.point(k, dom=(Sym(nb),))
            E.assume(F(u) >= qq)
            E.universal(1, lambda j: z3.Implies(And(j >= 0, j < u), F(j) < qq), dom=(Sym(nb),))
            got = r.get(**sp)
            some = npm.np.any(Arr((sz[T],), lambda s: Sym(nanb(da.get(**dict(sp, **{T: s})))), "b"))
            mid = (edge(u) + edge(u + 1)) / 2
            c.require(f"missing exactly where a value is missing ({grid})", nanb(got) == zb(some))
            with c.under(And(u > 0, z3.BoolVal(grid != "mesh"))):          # (the last step is shown for two spatial dimensions)
                grid != "mesh" and c.require(f"centre of the bin where the cumulative fraction reaches q, not below the third edge ({grid})", Or(nanb(got), zr(got) == z3.If(mid < prec.e, prec.e, mid)))
        c.run(t)
