"""P09 (area filter), P10 (labelling), P14 (areas, centroids), P16."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported, mk_sum
from .. import core, xrm, npm
from ..arr import Arr, sym_arr, inb, to_arr
from ..load import Self
from ..loop import Spec
from .c17 import grid, float_
from .c01 import attempt
from .c07 import _plan, app
T = "marEx.track"
Z = z3.IntVal


def rp9(tier): return _plan("P09")


def rp10(tier): return _plan("P10", "P16")


def rp14(tier): return _plan("P14", "P16")


# ------------------------------------------------------------------ P10 (grid)
@contract(["P10", "P16"], f"{T}.tracker.identify_objects", rp10, title="labelling on grids")
def label_grid(c):
    """The labelling runs once on the given field, with the 8 spatial neighbours (and, when asked, all space-time neighbours), across the x seam exactly on global grids."""
    for regional in (False, True):
        for tc in (False, True):
            def t():
                E = c.E
                da, sz = grid(E)
                calls = []
                N = sym_int("N_labels")

                class Lazy:
                    def compute(self): return N

                def label(image, structure=None, wrap_axes=None, **k):
                    if k:
                        raise Unsupported("label options")
                    E.dep("dask_image.ndmeasure.label: labels 1..N are the connected components of the non-zero cells under the structure, with the named axes periodic; 0 elsewhere")
                    out = sym_arr(f"label!{len(calls)}", sz, "i", lambda v: v >= 0)
                    calls.append((image, to_arr(structure) if structure is not None else None, wrap_axes, out))
                    return out, Lazy()
                c.new_repo({"dask_image.ndmeasure.label": label})
                slf = Self(c.repo, T, "tracker", {"unstructured_grid": False, "regional_mode": regional, "ydim": "lat", "xdim": "lon", "timedim": "time"})
                f, _, n = slf.identify_objects(da, time_connectivity=tc)
                g = f"{'regional' if regional else 'global'}, {'space-time' if tc else 'each time alone'}"
                c.require(f"one labelling ({g})", z3.BoolVal(len(calls) == 1))
                if len(calls) != 1:
                    return
                im, st, wr, out = calls[0]
                ix = z3.Ints("t y x")
                E.assume(And(*[inb(a, s) for a, s in zip(ix, sz)]))
                c.require(f"of the given field ({g})", zb((im.arr if isinstance(im, xrm.DA) else to_arr(im)).get(*ix)) == zb(da.arr.get(*ix)))
                o = z3.Ints("i j k")
                E.assume(And(*[And(a >= 0, a < 3) for a in o]))
                sv = st.get(*o)
                sv = zb(sv) if st._kind == "b" else zr(sv) != 0
                c.require(f"which cells are neighbours ({g})", And(*[zi(s) == 3 for s in st.shape], sv == (z3.BoolVal(True) if tc else o[0] == 1)) if st.ndim == 3 else z3.BoolVal(False))
                w = tuple(x % 3 for x in (wr or ()))
                c.require(f"which edges are joined ({g})", z3.BoolVal(w == (() if regional else (2,))))
                c.require(f"labels returned in place, count of labels ({g})", And(zi(f.get(time=ix[0], lat=ix[1], lon=ix[2])) == zi(out.get(*ix)), zi(lift(n)) == N.e, z3.BoolVal(f.dims == da.dims)))
            c.run(t)


# ------------------------------------------------------------------ P09
@contract(["P09"], f"{T}.tracker.filter_small_objects", rp9, title="area filter on grids")
def filter_grid(c):
    """Every object but the first listed one (known finding F1) survives iff its area is at least the threshold; background never does; threshold and counts as reported."""
    for absolute in (True, False):
        def t():
            E = c.E
            da, sz = grid(E)
            n = sym_int("nobj")
            E.assume(n.e >= 1)
            lab = xrm.DA(sym_arr("lab", sz, "i", lambda v: v >= 0), dims=da.dims, coords=dict(da.coords))
            ids = sym_arr("ids", (n,), "i", lambda v: v > 0)
            area = sym_arr("area", (n,), "f", lambda v: v > 0)
            props = xrm.DS({"area": xrm.DA(area, dims=("ID",), coords={"ID": ("ID", ids)})})
            N0, q, A = sym_int("N0"), sym_real("quart"), sym_int("abs_area")
            E.assume(And(q.e >= 0, q.e <= 1, A.e >= 1))
            calls = []

            def ident(x, time_connectivity=None):
                calls.append((x, time_connectivity))
                return lab, None, N0
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": False, "_use_absolute_filtering": absolute, "area_filter_absolute": A, "area_filter_quartile": q, "ydim": "lat", "xdim": "lon", "timedim": "time"},
                       {"identify_objects": ident, "calculate_object_properties": lambda f, *a, **k: props if f is lab else 1 / 0})
            tt, y, x, k, k2 = z3.Ints("t y x k k2")
            E.assume(And(*[inb(a, s) for a, s in zip((tt, y, x), sz)], k >= 1, k < n.e))
            for kk in (k, Z(0)):
                E.point(kk, dom=(n,))
            # labels are distinct
            E.assume(z3.Implies(ids.get(k).e == ids.get(Z(0)).e, k == 0))
            r = slf.filter_small_objects(da)
            out, thr, ar, n0, n1 = r
            g = "absolute" if absolute else "quartile"
            c.require(f"objects of each time alone ({g})", z3.BoolVal(len(calls) == 1 and calls[0][0] is da and calls[0][1] is False))
            if absolute:
                c.require(f"threshold is the configured area ({g})", zr(lift(thr)) == z3.ToReal(A.e))
            else:
                c.require(f"threshold is the configured percentile of all object areas ({g})", zr(lift(thr)) == zr(npm.np.percentile(area, q * 100.0)))
            cellv = zi(lab.arr.get(tt, y, x))
            o = zb(out.get(time=tt, lat=y, lon=x))
            with c.under(cellv == ids.get(k).e):
                # the other listed objects have other labels
                distinct(E, ids, n, k)
                c.require(f"survives iff its area reaches the threshold ({g})", o == (area.get(k).e >= zr(lift(thr))))
            with c.under(cellv == 0):
                c.require(f"background stays background ({g})", Not(o))
            c.require(f"areas and label count as found ({g})", And(zi(lift(n0)) == N0.e, zr(ar.arr.get(k)) == area.get(k).e))
            want = mk_sum((n,), lambda j: Sym(z3.If(And(j >= 1, area.get(j).e >= zr(lift(thr))), Z(1), Z(0))))
            c.require(f"number of survivors ({g})", zr(lift(n1)) == (z3.ToReal(want) if want.is_int() else want))
        c.run(t)


def distinct(E, ids, n, k):
    E.universal(1, lambda j: z3.Implies(And(inb(j, n), ids.get(j).e == ids.get(k).e), j == k), dom=(n,))


@contract(["P09"], f"{T}.tracker.filter_small_objects", rp9, title="mesh object sizes")
def mesh_sizes(c):
    """count_cluster_sizes: the listed ids are exactly the labels of the slice, each with its number of cells, the rest of the list empty."""
    def t():
        E = c.E
        n, mx = sym_int("ncells"), sym_int("max_ID")
        E.assume(And(n.e >= 1, mx.e >= 1))
        lab = sym_arr("lab", (n,), "i", lambda v: And(v >= 0, v <= mx.e))
        f = c.repo.fn_nested(T, "tracker.filter_small_objects", "count_cluster_sizes", {"max_ID": mx})
        p, k, k2 = z3.Ints("p k k2")
        E.assume(And(inb(p, n), inb(k, mx), inb(k2, mx)))
        E.point(p, dom=(n,))
        u = npm.np.unique(lab[lab > 0])
        E.assume(zi(u.shape[0]) <= mx.e)        # at most max_ID distinct labels lie in 1..max_ID
        E.point(k, dom=(u.shape[0],))
        sizes, uniq = f(lab)
        uk, sk = zi(uniq.get(k)), zi(sizes.get(k))
        c.require("as long as the largest label", And(zi(sizes.shape[0]) == mx.e, zi(uniq.shape[0]) == mx.e))
        want = mk_sum((n,), lambda j: Sym(z3.If(lab.get(j).e == uk, Z(1), Z(0))))
        with c.under(uk > 0):
            c.require("size = number of cells with the label", z3.ToReal(sk) == (z3.ToReal(want) if want.is_int() else want))
            c.require("no label twice", z3.Implies(zi(uniq.get(k2)) == uk, k == k2))
        c.require("filler entries are empty", z3.Implies(uk <= 0, And(uk == 0, sk == 0)))
        with c.under(lab.get(p).e > 0):
            j = zi(u.comp_pos(p)) if hasattr(u, "comp_pos") else None
            c.require("every label is listed", npm.np.any(Arr((mx,), lambda q: Sym(zi(uniq.get(q)) == lab.get(p).e), "b")).e) if j is None else None
    c.run(t)


@contract(["P09"], f"{T}.tracker.filter_small_objects", rp9, title="mesh object selection")
def mesh_filter(c):
    """filter_area_binary: a cell survives iff its label is one of the kept ones; background never."""
    def t():
        E = c.E
        n, m = sym_int("ncells"), sym_int("m")
        E.assume(And(n.e >= 1, m.e >= 1))
        lab = sym_arr("lab", (n,), "i", lambda v: v >= 0)
        keep = sym_arr("keep", (m,), "i")
        f = c.repo.fn_nested(T, "tracker.filter_small_objects", "filter_area_binary", {})
        p, k = z3.Ints("p k")
        E.assume(And(inb(p, n), inb(k, m)))
        E.point(p, dom=(n,))
        E.point(k, dom=(m,))
        r = f(lab, keep)
        o = zb(r.get(p))
        c.require("one flag per cell", zi(r.shape[0]) == n.e)
        c.require("background never survives", z3.Implies(lab.get(p).e == 0, Not(o)))
        c.require("a kept label survives", z3.Implies(And(lab.get(p).e > 0, keep.get(k).e == lab.get(p).e), o))
        anyk = npm.np.any(Arr((m,), lambda q: Sym(keep.get(q).e == lab.get(p).e), "b")).e
        c.require("only kept labels survive", z3.Implies(o, anyk))
    c.run(t)


@contract(["P09"], f"{T}.tracker.filter_small_objects", rp9, title="area filter on meshes")
def filter_mesh(c):
    """The whole mesh branch: the survivors of every time are the cells whose object has at least the threshold's number of cells."""
    for absolute in (True, False):
        def t():
            E = c.E
            da, sz = grid(E, True, ("time", None, "ncells"))
            nt, n = sz
            M = sym_int("largest_label")
            E.assume(M.e >= 0)
            lab = xrm.DA(sym_arr("lab", sz, "i", lambda v: And(v >= 0, v <= M.e)), dims=da.dims, coords=dict(da.coords))
            lab.__dict__["max"] = lambda *a, **k: xrm.DA(Arr((), lambda: M, "i"), dims=())      # the maximum bounds every label
            q, A = sym_real("quart"), sym_int("abs_area")
            E.assume(And(q.e >= 0, q.e <= 1, A.e >= 1))
            tt, p = z3.Ints("t p")
            E.assume(And(inb(tt, nt), inb(p, n)))
            E.point(p, dom=(n,))
            E.point(tt, p, dom=sz)
            calls = []

            def ident(x, time_connectivity=None):
                calls.append((x, time_connectivity))
                return lab, None, 1
            E.ghost["distinct_bound"] = True
            c.new_repo({"dask.array": DSA, "dask.array.isfinite": npm.np.isfinite})
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": True, "_use_absolute_filtering": absolute, "area_filter_absolute": A, "area_filter_quartile": q, "ydim": None, "xdim": "ncells", "timedim": "time"},
                       {"identify_objects": ident})
            row = Arr((n,), lambda j: lab.arr.get(tt, j), "i")
            u = npm.np.unique(row[row > 0])
            E.point(u.upos(lab.arr.get(tt, p).e), dom=(M,))
            E.point(u.upos(lab.arr.get(tt, p).e), dom=(u.shape[0],))
            r, ex = attempt(lambda: slf.filter_small_objects(da))
            g = "absolute" if absolute else "quartile"
            if ex is not None:
                c.require(f"refused only as a tracking error ({g})", z3.BoolVal(type(ex).__name__ == "TrackingError"))
                return
            out, thr, ar, n0, n1 = r
            c.require(f"objects of each time alone ({g})", z3.BoolVal(len(calls) == 1 and calls[0][0] is da and calls[0][1] is False))
            if absolute:
                c.require(f"threshold is the configured area ({g})", zr(lift(thr)) == z3.ToReal(A.e))
            v = lab.arr.get(tt, p).e
            cnt = mk_sum((n,), lambda j: Sym(z3.If(lab.arr.get(tt, j).e == v, Z(1), Z(0))))
            o = zb(out.get(time=tt, ncells=p))
            c.require(f"background stays background ({g})", z3.Implies(v == 0, Not(o)))
            with c.under(v > 0):
                big = (z3.ToReal(cnt) if cnt.is_int() else cnt) >= zr(lift(thr))
                with c.under(o):
                    c.require(f"survives only if its object has at least the threshold's cells ({g})", big)
                with c.under(Not(o)):
                    c.require(f"survives if its object has at least the threshold's cells ({g})", Not(big))
        c.run(t)


class _DSA:
    def __getattr__(self, a):
        return getattr(npm.np, a)


DSA = _DSA()


# ------------------------------------------------------------------ P14
@contract(["P14", "P09"], f"{T}.tracker.compute_area", rp14, title="total area")
def total_area(c):
    for mesh in (False, True):
        def t():
            E = c.E
            da, sz = grid(E, mesh, ("time", "lat", "lon") if not mesh else ("time", None, "ncells"))
            ar = xrm.DA(sym_arr("cell", sz[1:], "f"), dims=da.dims[1:])
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "cell_area": ar, "ydim": None if mesh else "lat", "xdim": "ncells" if mesh else "lon", "timedim": "time"})
            r = slf.compute_area(da)
            tt = z3.Int("t")
            E.assume(inb(tt, sz[0]))
            want = mk_sum(sz[1:], lambda *q: Sym(z3.If(zb(da.arr.get(tt, *q)), ar.arr.get(*q).e if mesh else z3.RealVal(1), z3.RealVal(0))))
            g = "mesh" if mesh else "grid"
            c.require(f"one value per time ({g})", z3.BoolVal(r.dims == ("time",)))
            c.require(f"sum over the set cells ({g})", zr(r.get(time=tt)) == want)
        c.run(t)


@contract(["P14", "P16"], f"{T}.unwrap_periodic_columns", rp14, title="unwrapping across the seam")
def unwrap(c):
    """Each column stays in its place modulo the width, and the object is cut at a widest gap: no circular run of empty columns is wider than the one left outside the unwrapped span."""
    def t():
        E = c.E
        n, nx = sym_int("n"), sym_int("nx")
        E.assume(And(n.e >= 1, nx.e >= 1))
        x = sym_arr("x", (n,), "i", lambda v: And(v >= 0, v < nx.e))
        i, j, p, q = z3.Ints("i j p q")
        E.assume(And(*[inb(a, n) for a in (i, j, p, q)]))
        for a in (i, j, p, q):
            E.point(a, dom=(n,))
        P, Q = x.get(p).e, x.get(q).e
        d = z3.If(Q > P, Q - P, Q - P + nx.e)           # p to q going east
        between = lambda v: z3.If(Q > P, And(v > P, v < Q), Or(v > P, v < Q))
        E.universal(1, lambda m: z3.Implies(inb(m, n), Not(between(x.get(m).e))), dom=(n,))
        u = npm.np.unique(x)
        nu = zi(u.shape[0])
        kp = u.upos(P)
        for k in (kp, kp + 1, u.upos(Q), u.upos(x.get(i).e), u.upos(x.get(j).e), Z(0), nu - 1):
            u.get(k)
        E.point(z3.simplify(nu - 1 - kp))
        r = c.repo.fn(T, "unwrap_periodic_columns")(x, nx)
        ri, rj = zi(r.get(i)), zi(r.get(j))
        c.require("one value per cell", zi(r.shape[0]) == n.e)
        c.require("the same column modulo the width", Or(ri == x.get(i).e, ri == x.get(i).e - nx.e))
        c.require("the span leaves out a widest gap", ri - rj <= nx.e - d)
        c.require("cells of one column stay together", z3.Implies(x.get(i).e == x.get(j).e, ri == rj))
    c.run(t)


@contract(["P14", "P16"], f"{T}.tracker.calculate_centroid", rp14, title="periodic centroid")
def centroid(c):
    for regional in (False, True):
        for given in (True, False):
            def t():
                E = c.E
                ny, nx = sym_int("ny"), sym_int("nx")
                E.assume(And(ny.e >= 1, nx.e >= 1))
                m = sym_arr("m", (ny, nx), "b")
                y0, x0 = z3.Ints("y0 x0")
                E.assume(And(inb(y0, ny), inb(x0, nx), zb(m.get(y0, x0))))
                E.point(y0, x0, dom=(ny, nx))
                calls = []
                shifted = z3.Function("shifted", z3.IntSort(), z3.BoolSort())
                moved = bool(sym_bool("straddles")) if not regional else False

                def unw(xs, w):
                    calls.append((xs, w))
                    if not moved:
                        return xs
                    return xs.map(lambda v: Sym(z3.If(shifted(zi(v)), zi(v) - zi(w), zi(v))), "i")
                c.new_repo(None, {(T, "unwrap_periodic_columns"): unw})
                og = (sym_real("oy"), sym_real("ox")) if given else None
                if regional and not given:
                    return
                slf = Self(c.repo, T, "tracker", {"regional_mode": regional, "unstructured_grid": False})
                r = slf.calculate_centroid(m, og) if given else slf.calculate_centroid(m)
                g = f"{'regional' if regional else 'global'}, {'given' if given else 'from scratch'}{', straddling the seam' if moved else ''}"
                S = lambda f: mk_sum((ny, nx), lambda y, x: Sym(z3.If(zb(m.get(y, x)), f(y, x), z3.RealVal(0))))
                cnt = S(lambda y, x: z3.RealVal(1))
                my = S(lambda y, x: z3.ToReal(y)) / cnt
                mx = S(lambda y, x: z3.ToReal(z3.If(shifted(x), x - nx.e, x)) if moved else z3.ToReal(x)) / cnt
                wx = z3.If(mx < 0, mx + z3.ToReal(nx.e), mx)
                if regional:
                    c.require(f"the plain centroid is kept ({g})", And(zr(r[0]) == og[0].e, zr(r[1]) == og[1].e))
                    return
                c.require(f"row: mean of the rows ({g})", zr(r[0]) == (og[0].e if given else my))
                c.require(f"column: mean of the unwrapped columns, brought back into the grid ({g})", zr(r[1]) == (og[1].e if given and not moved else wx))
            c.run(t)


@contract(["P10"], f"{T}.tracker.identify_objects", rp10, title="labelling on meshes")
def label_mesh(c):
    """On every time, over the cells set and not masked: the graph whose components are taken has one node per true cell and joins exactly the true cells one of which lists the other as a neighbour; every true
    cell gets its component's number plus one, every other cell 0."""
    def t():
        E = c.E
        da, (nt, n) = grid(E, True)
        mask = xrm.DA(sym_arr("mask", (n,), "b"), dims=("lon",))
        a = Arr((nt, n), lambda i, j: Sym(z3.simplify(zb(da.where(mask, other=False).get(time=i, lon=j)))), "b")         # set and not masked
        nb = sym_arr("nb", (3, n), "i", lambda v: And(v >= -1, v < n.e))
        calls = []
        F = z3.Function("component", z3.IntSort(), z3.IntSort(), z3.IntSort())
        ti, p, q, e = z3.Ints("ti p q e")

        def cells(k):
            return npm.np.nonzero(Arr((n,), lambda j: Sym(zb(a.get(k, j))), "b"))[0].comp[0]

        def csr(arg, shape=None, **k):
            d, (r, w) = arg
            return ("csr", d, getattr(r, "long", None), getattr(w, "long", None), shape)

        def cc(csgraph=None, directed=True, return_labels=True, **k):
            if not return_labels or not isinstance(csgraph, tuple) or csgraph[2] is None or csgraph[3] is None or csgraph[2].layout is not csgraph[3].layout or csgraph[2].layout.dom != ():
                raise Unsupported("another graph")
            time = E.binders[0] if E.binders else z3.IntVal(0)
            g, r, w, sh = csgraph[0], csgraph[2], csgraph[3], csgraph[4]
            cs = cells(time)
            calls.append((time, cs.rank(p)))
            c.require("edges count in both directions", z3.BoolVal(directed is False or k.get("connection", "weak") == "weak"))
            c.require("one node per true cell of the time", And(zi(sh[0]) == cs.n, zi(sh[1]) == cs.n))
            dat = to_arr(csgraph[1])
            x = E.fresh("?x", z3.IntSort())
            with c.under(And(r.layout.guard(e))):
                R, W = zi(r.value(e)), zi(w.value(e))
                P, Q = cs.pos(R)[0], cs.pos(W)[0]
                c.require("an edge joins two true cells one of which lists the other", And(R >= 0, R < cs.n, W >= 0, W < cs.n, zb(a.get(time, P)), zb(a.get(time, Q)),
                                                                                         Or(*[zi(nb.get(z3.IntVal(v), Q)) == P for v in range(3)], *[zi(nb.get(z3.IntVal(v), P)) == Q for v in range(3)])))
            c.require("edges have a weight", z3.Implies(inb(x, dat.shape[0]), zr(dat.get(x)) != 0))
            two = [z for y in list(E.ghost.get("comps", {}).values()) for z in (y if isinstance(y, tuple) else (y,)) if hasattr(z, "rank") and len(z.dom) == 2]
            if len(two) != 1:
                raise Unsupported("edges are not enumerated from the neighbour table")
            for v in range(3):
                with c.under(And(inb(p, n), inb(q, n), zb(a.get(time, p)), zb(a.get(time, q)), zi(nb.get(z3.IntVal(v), q)) == p)):
                    k2 = two[0].rank(z3.IntVal(v), q)
                    two[0].pos(k2)
                    rp_, rq = cs.rank(p), cs.rank(q)
                    c.require(f"a true cell and its true neighbour {v + 1} are joined", And(r.layout.guard(k2), zi(r.value(k2)) == rp_, zi(w.value(k2)) == rq))
            return sym_int("ncomp"), Arr((Sym(cs.n),), lambda j: Sym(F(time, j)), "i")
        c.new_repo({"scipy.sparse.csr_matrix": csr, "scipy.sparse.csgraph.connected_components": cc})
        slf = Self(c.repo, T, "tracker", {"unstructured_grid": True, "regional_mode": False, "ydim": None, "xdim": "lon", "timedim": "time", "mask": mask,
                                         "neighbours_int": xrm.DA(nb, dims=("nv", "lon"))})
        E.assume(And(inb(ti, nt), inb(p, n), inb(q, n)))
        fld, _, _ = slf.identify_objects(da, time_connectivity=False)
        c.require("time and cells stay the dimensions", z3.BoolVal(fld.dims == ("time", "lon")))
        r = fld.arr
        if not calls:
            raise Unsupported("no components are taken")
        v, v2 = zi(r.get(ti, p)), zi(r.get(ti, q))
        c.require("background is 0", z3.Implies(Not(zb(a.get(ti, p))), v == 0))
        k, node = calls[-1]         # the node of cell p, in the numbering of the graph
        node = z3.substitute(node, (k, ti)) if not z3.is_int_value(k) else node
        c.require("a true cell has its component's number plus one", z3.Implies(zb(a.get(ti, p)), v == F(ti, node) + 1))
        c.require("same shape", And(zi(r.shape[0]) == nt.e, zi(r.shape[1]) == n.e))
    c.run(t)
