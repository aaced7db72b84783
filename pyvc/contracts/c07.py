"""P07 (spatial hole filling), P08 (temporal gap filling), with P16 (which edges are periodic)."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported
from .. import core, xrm, npm
from ..arr import Arr, sym_arr, inb, to_arr
from ..load import Self
from ..loop import Spec
from ..loop import Spec
from .c17 import grid
T = "marEx.track"
Z = z3.IntVal


def _plan(*ps):
    import sys, os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from rt.plan import plan
    return [[m, k, kw] for p in ps for m, k, kw in plan(p, "quick", 1)]


def rp7(tier): return _plan("P07", "P16")


def rp8(tier): return _plan("P08")


class Morph:
    """binary_closing / binary_opening of dask_image: recorded, with scipy's definition (outside the array is False) as facts on demand."""

    def __init__(self, E):
        self.E, self.calls = E, []

    def op(self, kind):
        def f(image, structure=None, **k):
            if k.pop("iterations", 1) != 1 or k or structure is None:
                raise Unsupported(f"binary_{kind} options")
            image, structure = to_arr(image), to_arr(structure)
            if image.ndim != structure.ndim:
                raise Unsupported(f"binary_{kind}: structure of another rank")
            self.E.dep("dask_image's binary morphology is scipy's on the whole array: closing = erosion of dilation, opening = dilation of erosion, False outside the array")
            name = f"{kind}!{len(self.calls)}"
            out = sym_arr(name, image.shape, "b")
            self.calls.append((kind, image, structure, out, name))
            return out
        return f


def app(e, name):
    """The arguments of the application of `name` in a term."""
    st, seen = [z3.simplify(e)], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            return [x.arg(i) for i in range(x.num_args())]
        st.extend(x.children())
    return None


def off(S, d):
    """Membership of an offset in a structure with odd extent (origin at the centre)."""
    i = [z3.simplify(zi(v) + zi(n) / 2) for v, n in zip(d, S.shape)]
    return And(*[inb(a, n) for a, n in zip(i, S.shape)], zb(S.get(*i)))


# ------------------------------------------------------------------ P08
@contract(["P08"], f"{T}.tracker.fill_time_gaps", rp8, title="temporal gap filling")
def gaps(c):
    """A cell is set iff it was set or lies in a gap of at most T_fill steps between set times; then holes are filled with half the radius."""
    for mesh in (False, True):
        def t():
            E = c.E
            mo = Morph(E)
            c.new_repo({"dask_image.ndmorph.binary_closing": mo.op("closing"), "dask_image.ndmorph.binary_opening": mo.op("opening")})
            da, sz = grid(E, mesh, ("time", "lat", "lon") if not mesh else ("time", None, "ncells"))
            h, R = sym_int("half"), sym_int("R_fill")
            E.assume(And(h.e >= 0, R.e >= 0))
            Tf = h * 2
            calls = []

            def fill(x, R_fill=None):
                calls.append((x, R_fill))
                return x
            slf = Self(c.repo, T, "tracker", {"T_fill": Tf, "R_fill": R, "ydim": None if mesh else "lat", "xdim": "ncells" if mesh else "lon", "timedim": "time", "unstructured_grid": mesh}, {"fill_holes": fill})
            r = slf.fill_time_gaps(da)
            g = "mesh" if mesh else "grid"
            nt = sz[0].e
            sp = [z3.Int(f"s{i}") for i in range(len(sz) - 1)]
            tt = z3.Int("t")
            E.assume(And(inb(tt, sz[0]), *[inb(a, n) for a, n in zip(sp, sz[1:])]))
            a = lambda q: zb(da.arr.get(q, *sp))
            c.require(f"same dimensions and length ({g})", And(z3.BoolVal(tuple(r.dims) == tuple(da.dims)), zi(r.shape[0]) == nt))
            if not mo.calls:
                c.require(f"only a gap length of zero skips the filling ({g})", h.e == 0)
                c.require(f"nothing changed with a gap length of zero ({g})", And(zb(r.arr.get(tt, *sp)) == a(tt), z3.BoolVal(not calls)))
                return
            if len(mo.calls) != 1 or mo.calls[0][0] != "closing":
                raise Unsupported("more than one closing")
            c.require(f"holes are filled once afterwards, with half the radius ({g})", z3.BoolVal(len(calls) == 1) if len(calls) != 1 or calls[0][1] is None else zi(calls[0][1]) == R.e / 2)
            _, P, S, C, name = mo.calls[0]
            if not all(E.provable(zi(n) % 2 == 1) for n in S.shape):
                raise Unsupported("structure with an even extent")
            x = calls[0][0] if calls else r
            o = app(zb(x.arr.get(tt, *sp)), name)
            if o is None:
                raise Unsupported("the result is not read from the closing")
            c.require(f"the closed field is cropped back in place ({g})", And(zb(x.arr.get(tt, *sp)) == zb(C.get(*o)), *[p == q for p, q in zip(o[1:], sp)]))
            c.require(f"the result is that of the hole filling ({g})", z3.BoolVal(r is x))
            b = z3.simplify(o[0] - tt)                      # padding before the record
            N = zi(P.shape[0])
            with c.under(z3.BoolVal(True)):
                zz = z3.Int("z")
                E.assume(And(zz >= 0, zz < N))
                c.require(f"padding is empty, the record is unchanged ({g})", zb(P.get(zz, *sp)) == And(zz - b >= 0, zz - b < nt, a(zz - b)))
                c.require(f"spatial cells are not shifted or mixed ({g})", And(*[zi(n) == zi(m) for n, m in zip(P.shape[1:], sz[1:])], *[zi(n) == 1 for n in S.shape[1:]]))
                c.require(f"room beyond both ends of the record ({g})", And(b >= 0, N >= b + nt))
            ze = [Z(0)] * len(sp)
            inS = lambda d: off(S, [d] + ze)
            pa = lambda s: And(s >= 0, s < N, s - b >= 0, s - b < nt, a(s - b))     # the padded input, by the obligation above
            dil = z3.Function("dil", z3.IntSort(), z3.BoolSort())
            Ct = zb(C.get(*o))
            u, v, p, q = z3.Ints("u v p q")
            K = Tf.e + 1
            # definition of the closing at t and at the centres the argument needs
            cen0, sw = E.fresh("cen", z3.IntSort()), {}
            neg = z3.Implies(Not(Ct), And(inS(cen0 - o[0]), Or(cen0 < 0, cen0 >= N, And(*[Not(And(inS(cen0 - (s + b)), pa(s + b))) for s in (p, q, tt)]))))

            def pos(cen):
                w = E.fresh("src", z3.IntSort())
                return w, z3.Implies(And(Ct, inS(cen - o[0])), And(cen >= 0, cen < N, inS(cen - w), pa(w)))
            with c.under(And(neg, inb(p, sz[0]), inb(q, sz[0]))):
                c.require(f"set times stay set ({g})", z3.Implies(a(tt), Ct))
                c.require(f"gaps of at most T_fill steps are filled ({g})", z3.Implies(And(a(p), a(q), p < tt, tt < q, q - p - 1 <= Tf.e), Ct))
            # an empty run [u, v] around t, at least T_fill + 1 long: the window inside it
            cen = b + z3.If(tt + h.e <= v, z3.If(tt - h.e >= u, tt, u + h.e), v - h.e)
            w, f1 = pos(cen)
            with c.under(And(f1, u >= 0, v < nt, u <= tt, tt <= v, z3.Implies(And(w - b >= u, w - b <= v), Not(a(w - b))))):
                c.require(f"longer gaps are not filled ({g})", z3.Implies(v - u + 1 >= K, Not(Ct)))
            cen = b + z3.If(tt - h.e >= u, tt, u + h.e)
            w, f1 = pos(cen)
            with c.under(And(f1, u >= 0, u <= tt, z3.Implies(And(w - b >= u, w - b < nt), Not(a(w - b))))):
                c.require(f"the end of the record is not filled ({g})", Not(Ct))
            cen = b + z3.If(tt + h.e <= v, tt, v - h.e)
            w, f1 = pos(cen)
            with c.under(And(f1, v < nt, tt <= v, z3.Implies(And(w - b >= 0, w - b <= v), Not(a(w - b))))):
                c.require(f"the start of the record is not filled ({g})", Not(Ct))
        c.run(t)


# ------------------------------------------------------------------ P07 (grid)
@contract(["P07", "P16"], f"{T}.tracker.fill_holes", rp7, title="hole filling on grids")
def holes(c):
    """fill_holes = closing then opening with the disk of radius R on the field continued periodically (global) or by its edge values; land is cleared; R = 0 changes nothing."""
    for regional in (False, True):
        for own in (True, False):
            def t():
                E = c.E
                mo = Morph(E)
                c.new_repo({"dask_image.ndmorph.binary_closing": mo.op("closing"), "dask_image.ndmorph.binary_opening": mo.op("opening")})
                da, sz = grid(E)
                nt, ny, nx = [s.e for s in sz]
                R = sym_int("R")
                E.assume(R.e >= 0)
                if not regional:
                    E.assume(nx >= 4 * R.e)     # a global grid at least four radii round
                mask = xrm.DA(sym_arr("mask", sz[1:], "b"), dims=("lat", "lon"), coords={k: da.coords[k] for k in ("lat", "lon")})
                other = sym_int("other_R")
                slf = Self(c.repo, T, "tracker", {"R_fill": R if own else other, "unstructured_grid": False, "regional_mode": regional, "ydim": "lat", "xdim": "lon", "timedim": "time", "mask": mask})
                r = slf.fill_holes(da) if own else slf.fill_holes(da, R_fill=R)
                g = ("regional" if regional else "global") + (", own radius" if own else ", given radius")
                tt, y, x = z3.Ints("t y x")
                E.assume(And(inb(tt, sz[0]), inb(y, sz[1]), inb(x, sz[2])))
                a = lambda q, s: zb(da.arr.get(tt, q, s))
                m = zb(mask.arr.get(y, x))
                out = zb(r.get(time=tt, lat=y, lon=x))
                c.require(f"same dimensions and sizes ({g})", And(z3.BoolVal(set(r.dims) == set(da.dims)), *[zi(r.sizes[d]) == zi(n) for d, n in zip(da.dims, sz)]))
                c.require(f"land is never set ({g})", z3.Implies(Not(m), Not(out)))
                if not mo.calls:
                    c.require(f"only radius zero skips the morphology ({g})", R.e == 0)
                    c.require(f"radius zero changes nothing on sea ({g})", z3.Implies(m, out == a(y, x)))
                    return
                if [k[0] for k in mo.calls] != ["closing", "opening"] or mo.calls[1][1] is not mo.calls[0][3]:
                    c.require(f"one closing, then one opening of it ({g})", z3.BoolVal(False)) if [k[0] for k in mo.calls] == ["opening", "closing"] else None
                    raise Unsupported("another sequence of morphological operations")
                _, P, S, C, _ = mo.calls[0]
                _, _, S2, O, oname = mo.calls[1]
                o = app(out, oname)
                if o is None:
                    raise Unsupported("the result is not read from the opening")
                by, bx = z3.simplify(o[1] - y), z3.simplify(o[2] - x)
                c.require(f"the opened field is cropped back in place ({g})", z3.Implies(m, And(out == zb(O.get(*o)), o[0] == tt)))
                NY, NX = zi(P.shape[1]), zi(P.shape[2])
                i, j = z3.Ints("i j")
                with c.under(And(i >= -R.e, i <= R.e, j >= -R.e, j <= R.e)):
                    for nm, s in (("closing", S), ("opening", S2)):
                        c.require(f"{nm}: the structure is the disk of radius R ({g})", And(zi(s.shape[0]) == 1, zi(s.shape[1]) == 2 * R.e + 1, zi(s.shape[2]) == 2 * R.e + 1, zb(s.get(Z(0), i + R.e, j + R.e)) == (i * i + j * j <= R.e * R.e)))
                c.require(f"margins of four radii on every side ({g})", And(by >= 4 * R.e, bx >= 4 * R.e, NY - by - ny >= 4 * R.e, NX - bx - nx >= 4 * R.e, zi(P.shape[0]) == nt))
                Y, X = z3.Ints("Y X")
                cl = lambda v, n: z3.If(v < 0, Z(0), z3.If(v >= n, n - 1, v))
                with c.under(And(Y >= 0, Y < NY, X >= 0, X < NX, Y - by >= -4 * R.e, Y - by < ny + 4 * R.e, X - bx >= -4 * R.e, X - bx < nx + 4 * R.e)):
                    wx = cl(X - bx, nx) if regional else z3.If(X - bx < 0, X - bx + nx, z3.If(X - bx >= nx, X - bx - nx, X - bx))
                    c.require(f"padding continues the field ({'edge values on all sides' if regional else 'round the globe in x, edge values in y'}) ({g})", zb(P.get(tt, Y, X)) == a(cl(Y - by, ny), wx))
            c.run(t)


@contract(["P07", "P16"], f"{T}.tracker.fill_holes", rp7, title="margins of four radii suffice")
def margins(c):
    """Lemma: on an array with margins of 4 R around the region, closing then opening equals the same on the unbounded continuation: stage by stage for arbitrary disks."""
    def t():
        E = c.E
        I, B = z3.IntSort(), z3.BoolSort()
        R, NY, NX, y0, y1, x0, x1 = z3.Ints("R NY NX y0 y1 x0 x1")          # region of interest [y0, y1) x [x0, x1) of the array
        E.assume(And(R >= 0, y0 >= 4 * R, x0 >= 4 * R, y1 <= NY - 4 * R, x1 <= NX - 4 * R, y0 < y1, x0 < x1))
        D = lambda i, j: And(i >= -R, i <= R, j >= -R, j <= R, i * i + j * j <= R * R)
        ins = lambda y, x, k: And(y >= y0 - k * R, y < y1 + k * R, x >= x0 - k * R, x < x1 + k * R)
        dom = lambda y, x: And(y >= 0, y < NY, x >= 0, x < NX)
        # F: the unbounded field; P agrees with it on the array
        fs = {k: (z3.Function(k + "_arr", I, I, B), z3.Function(k + "_inf", I, I, B)) for k in ("f", "dil", "clo", "ero", "ope")}
        y, x = z3.Ints("y x")
        for k, (prev, this, ex) in enumerate((("f", "dil", True), ("dil", "clo", False), ("clo", "ero", False), ("ero", "ope", True))):
            reach = 4 - k
            A0, I0 = fs[prev]
            A1, I1 = fs[this]
            wi, wj = z3.Ints(f"wi{k} wj{k}")
            vi, vj = z3.Ints(f"vi{k} vj{k}")
            agree = lambda i, j: z3.Implies(ins(y + i, x + j, reach), A0(y + i, x + j) == I0(y + i, x + j))
            if ex:
                da = And(z3.Implies(A1(y, x), And(D(wi, wj), dom(y + wi, x + wj), A0(y + wi, x + wj))), z3.Implies(Not(A1(y, x)), Not(And(D(vi, vj), dom(y + vi, x + vj), A0(y + vi, x + vj)))))
                di = And(z3.Implies(I1(y, x), And(D(vi, vj), I0(y + vi, x + vj))), z3.Implies(Not(I1(y, x)), Not(And(D(wi, wj), I0(y + wi, x + wj)))))
            else:
                da = And(z3.Implies(Not(A1(y, x)), And(D(wi, wj), Not(And(dom(y + wi, x + wj), A0(y + wi, x + wj))))), z3.Implies(A1(y, x), z3.Implies(D(vi, vj), And(dom(y + vi, x + vj), A0(y + vi, x + vj)))))
                di = And(z3.Implies(Not(I1(y, x)), And(D(vi, vj), Not(I0(y + vi, x + vj)))), z3.Implies(I1(y, x), z3.Implies(D(wi, wj), I0(y + wi, x + wj))))
            with c.under(And(da, di, agree(wi, wj), agree(vi, vj), ins(y, x, reach - 1))):
                c.require(f"stage {this}: equal within {reach - 1} radii of the region", A1(y, x) == I1(y, x))
    c.run(t)


# ------------------------------------------------------------------ meshes
def rp7m(tier): return [q for q in _plan("P07") if "mesh" in str(q)] + [["trk", "case_holes_mesh", {"seed": s}] for s in range(0)]


@contract(["P07"], f"{T}.sparse_bool_power", rp7m, title="walks along a sparse matrix")
def power(c):
    """result(cell) <=> some true cell is reached by a walk of exactly `exponent` entries of the matrix (each entry with a true value)."""
    B, I = z3.BoolSort(), z3.IntSort()

    def t():
        E = c.E
        n, m, nc, ex = sym_int("n"), sym_int("entries"), sym_int("cols"), sym_int("exponent")
        E.assume(And(n.e >= 1, m.e >= 0, nc.e >= 1, ex.e >= 0))
        sp = sym_arr("sp", (m,), "b")
        ind = sym_arr("ind", (m,), "i", lambda v: And(v >= 0, v < n.e))
        # row pointers of a CSR matrix: from 0 to the number of entries, never decreasing
        P = z3.Function("ptr", I, I)

        def pe(i):
            E.assume(z3.Implies(And(i >= 0, i <= n.e), And(P(i) >= 0, P(i) <= m.e)))
            E.assume(z3.Implies(And(i >= 0, i < n.e), P(i) <= P(i + 1)))
            return Sym(P(i))
        ptr = Arr((n + 1,), pe, "i")
        vec = sym_arr("vec", (nc, n), "b")
        # a walk of e entries from row i to a true cell; H: the same with the first entry among those before j
        W, H = z3.Function("walk", I, I, I, B), z3.Function("walk_first", I, I, I, I, B)

        def defs(e, i, j, k):
            E.assume(z3.Implies(And(i >= 0, i < n.e, k >= 0, k < nc.e), And(
                W(0, i, k) == zb(vec.get(k, i)), H(e, i, P(i), k) == z3.BoolVal(False),
                z3.Implies(And(j >= P(i), j < P(i + 1)), H(e, i, j + 1, k) == Or(H(e, i, j, k), And(zb(sp.get(j)), W(e, zi(ind.get(j)), k)))),
                z3.Implies(e >= 0, W(e + 1, i, k) == H(e, i, P(i + 1), k)))))

        cur = {}

        def outer(env):
            def ai(e, it, ix):
                defs(it, ix[0], P(ix[0]), ix[1])
                defs(it - 1, ix[0], P(ix[0]), ix[1])
                return zb(e["result"].get(*ix)) == W(it, ix[0], ix[1])
            return Spec(arrays=("result",), rebind=("result",), arr_inv={"result": ai}, inv=lambda e, k: (cur.__setitem__("e", k), [])[1])

        def rows(env):
            s = cur["e"]

            def ai(e, it, ix):
                defs(s, ix[0], P(ix[0]), ix[1])
                pe(ix[0])
                return zb(e["temp_result"].get(*ix)) == z3.If(ix[0] < it, H(s, ix[0], P(ix[0] + 1), ix[1]), z3.BoolVal(False))
            return Spec(arrays=("temp_result",), arr_inv={"temp_result": ai})

        def entries(env):
            old = env["temp_result"].snapshot()
            i, s = zi(env["i"]), cur["e"]

            def ai(e, it, ix):
                pe(i)
                defs(s, i, it, ix[1])
                defs(s, i, it - 1, ix[1])
                return zb(e["temp_result"].get(*ix)) == z3.If(ix[0] == i, H(s, i, it, ix[1]), zb(old(*ix)))
            return Spec(arrays=("temp_result",), arr_inv={"temp_result": ai})
        E.loop_specs = {("sparse_bool_power", 0): outer, ("sparse_bool_power", 1): rows, ("sparse_bool_power", 2): entries}
        r = c.repo.fn(T, "sparse_bool_power")(vec, sp, ind, ptr, ex)
        q, x = z3.Ints("q x")
        E.assume(And(inb(q, nc), inb(x, n)))
        c.require("same shape as the field", And(zi(r.shape[0]) == nc.e, zi(r.shape[1]) == n.e))
        defs(ex.e, x, P(x), q)
        c.require("true exactly where a walk of the given length reaches a true cell", zb(r.get(q, x)) == W(ex.e, x, q))
    c.run(t)


@contract(["P07"], f"{T}.tracker.fill_holes", rp7m, title="hole filling on meshes")
def holes_mesh(c):
    """Dilation, erosion, erosion, dilation by R steps of the cell graph; before each erosion masked cells are set, so that objects are not eroded from the shore; masked cells come out empty."""
    for own in (True, False):
        def t():
            E = c.E
            calls = []
            da, sz = grid(E, True)
            R, other, m = sym_int("R"), sym_int("other_R"), sym_int("entries")
            E.assume(And(R.e >= 0, m.e >= 0))
            sp, ind, ptr = sym_arr("sp", (m,), "b"), sym_arr("ind", (m,), "i"), sym_arr("ptr", (sz[1] + 1,), "i")
            sig = c.repo.sig(T, "sparse_bool_power")

            def power(*a, **k):
                b = sig.bind(*a, **k).arguments
                v = b["vec"]
                out = sym_arr(f"walks!{len(calls)}", v.shape, "b")
                calls.append((Arr(v.shape, v.snapshot(), "b"), b["sp_data"], b["indices"], b["indptr"], b["exponent"], Arr(out.shape, out.snapshot(), "b")))
                return out
            c.new_repo(None, {(T, "sparse_bool_power"): power})

            class Csr:
                data, indices, indptr = sp, ind, ptr
            mask = xrm.DA(sym_arr("mask", sz[1:], "b"), dims=("lon",), coords={k: da.coords[k] for k in ("lat", "lon")})
            slf = Self(c.repo, T, "tracker", {"R_fill": R if own else other, "unstructured_grid": True, "xdim": "lon", "ydim": None, "timedim": "time", "mask": mask, "dilate_sparse": Csr})
            r = slf.fill_holes(da) if own else slf.fill_holes(da, R_fill=R)
            g = "own radius" if own else "given radius"
            tt, x, q = z3.Ints("t x q")
            E.assume(And(inb(tt, sz[0]), inb(x, sz[1]), inb(q, m)))
            mk = zb(mask.arr.get(x))
            out = zb(r.get(time=tt, lon=x))
            c.require(f"same dimensions ({g})", z3.BoolVal(set(r.dims) == set(da.dims)))
            c.require(f"masked cells are never set ({g})", z3.Implies(Not(mk), Not(out)))
            if not calls:
                c.require(f"only radius zero skips the morphology ({g})", R.e == 0)
                c.require(f"radius zero changes nothing on sea ({g})", z3.Implies(mk, out == zb(da.arr.get(tt, x))))
                return
            if len(calls) != 4:
                raise Unsupported("another sequence of morphological operations")
            for k, (v, s, i, p, e, o) in enumerate(calls):
                c.require(f"step {k + 1}: along the cell graph, R steps ({g})", And(zi(e) == R.e, zb(s.get(q)) == zb(sp.get(q)), zi(i.get(q)) == zi(ind.get(q)), zi(p.get(x)) == zi(ptr.get(x))))
            V = [zb(k[0].get(tt, x)) for k in calls]
            O = [zb(k[5].get(tt, x)) for k in calls]
            c.require(f"first the dilation of the field ({g})", V[0] == zb(da.arr.get(tt, x)))
            c.require(f"then the erosion of that, masked cells set ({g})", V[1] == Not(Or(O[0], Not(mk))))
            c.require(f"then the erosion of that, masked cells set ({g}, opening)", V[2] == Not(Or(Not(O[1]), Not(mk))))
            c.require(f"then the dilation of that ({g})", V[3] == Not(O[2]))
            c.require(f"the last dilation is the result on sea ({g})", z3.Implies(mk, out == O[3]))
        c.run(t)


class Mat:
    """A sparse Boolean matrix, known by its entries: entry(i, j)."""
    _mat = True

    def __init__(self, shape, entry, one=None): self.shape, self.entry = shape, entry

    def __add__(self, o):
        if not isinstance(o, Mat):
            raise Unsupported("sum of a sparse matrix and something else")
        core.E.dep("scipy.sparse: the sum of Boolean matrices has an entry where either has one")
        return Mat(self.shape, lambda i, j: Or(self.entry(i, j), o.entry(i, j)))
    __or__ = maximum = __add__
    def tocsr(self, *a, **k): return self
    tocoo = astype = copy = tocsr


@contract(["P07"], f"{T}.tracker._build_sparse_dilation_matrix", rp7m, title="the cell graph of a mesh")
def graph(c):
    """Cell i and cell j are joined exactly when j is i or one of the three neighbours listed for i (a negative neighbour is none)."""
    def t():
        E = c.E
        n = sym_int("n")
        E.assume(n.e >= 1)
        nb = sym_arr("nb", (3, n), "i", lambda v: And(v >= -1, v < n.e))
        i, j = z3.Ints("i j")
        E.assume(And(inb(i, n), inb(j, n)))

        def coo(arg, shape=None, dtype=None, **k):
            d, (r, q) = arg
            d, r, q = [to_arr(z) for z in (d, r, q)]
            E.dep("scipy.sparse: a matrix built from coordinates has an entry where a pair with a true value is listed")
            sh = shape

            def entry(a, b):
                return zb(npm.np.any((r == Sym(a)) & (q == Sym(b)) & (d if d._kind == "b" else d != 0)))
            return Mat(sh, entry)

        def eye(m, *a, **k):
            return Mat((m, m), lambda a, b: a == b)
        c.new_repo({"scipy.sparse.coo_matrix": coo, "scipy.sparse.csr_matrix": lambda x, *a, **k: x if isinstance(x, Mat) else coo(x, *a, **k), "scipy.sparse.eye": eye, "scipy.sparse.identity": eye,
                    "jax.numpy": npm.np})
        slf = Self(c.repo, T, "tracker", {"neighbours_int": xrm.DA(nb, dims=("nv", "lon"))})
        for v in range(3):
            E.point(z3.IntVal(v), i, dom=(3, n))
            E.point(3 * i + v, dom=(3 * n,))
            E.point(i, z3.IntVal(v), dom=(n, 3))
        slf._build_sparse_dilation_matrix()
        m = slf.dilate_sparse
        if not isinstance(m, Mat):
            raise Unsupported("the matrix is not known by its entries")
        want = Or(i == j, *[zi(nb.get(z3.IntVal(v), i)) == j for v in range(3)])
        got = m.entry(i, j)
        for cc in [z for w in list(E.ghost.get("comps", {}).values()) for z in (w if isinstance(w, tuple) else (w,)) if hasattr(z, "rank")]:
            if len(cc.dom) == 1:
                for v in range(3):
                    k = cc.rank(3 * i + v)
                    E.point(k, dom=(Sym(cc.n),))
        c.require("square, one row per cell", And(zi(m.shape[0]) == n.e, zi(m.shape[1]) == n.e))
        c.require("listed neighbours and the cell itself are joined", z3.Implies(want, got))
        c.require("nothing else is joined", z3.Implies(got, want))
    c.run(t)


class _FS:
    """os / shutil stand-ins: existence is arbitrary, every removal is recorded."""

    def __init__(self, log):
        self.log = log
        self.path = self
        self.sep = "/"

    def exists(self, p): return bool(sym_bool("exists"))
    isdir = exists
    def join(self, *a): return "/".join(a)
    def rmtree(self, p, *a, **k): self.log.append(p)


@contract(["P18", "P07"], f"{T}.tracker._setup_unstructured_grid", rp7, title="setting up a mesh")
def mesh_setup(c):
    """Zero-based neighbours of every cell, kept as given otherwise; connectivity that is not (3, cells) over the right dimensions, or no scratch directory, is refused with a library error;
    data, mask and areas keep their values and only the library's own temporary store is ever removed."""
    from .c01 import attempt
    for dims in (("nv", "cc"), ("cc", "nv"), ("edge", "cc")):
        for td in ("scratch", "", None):
            for nvc in (False, True):
                def t():
                    E = c.E
                    n, nv, nt = sym_int("n"), sym_int("nv"), sym_int("nt")
                    E.assume(And(n.e >= 1, nv.e >= 1, nt.e >= 1))
                    sz = {"nv": nv, "edge": nv, "cc": n}
                    N = sym_arr("neigh", tuple(sz[d] for d in dims), "i")
                    la, lo = sym_arr("lat", (n,), "f"), sym_arr("lon", (n,), "f")
                    D, K = sym_arr("data", (nt, n), "b"), sym_arr("mask", (n,), "b")
                    co = lambda: {"lat": xrm.DA(la, dims=("cc",)), "lon": xrm.DA(lo, dims=("cc",))}
                    nb = xrm.DA(N, dims=dims, coords=dict(co(), **({"nv": xrm.DA(sym_arr("nvl", (nv,), "i"), dims=("nv",))} if nvc and "nv" in dims else {})))
                    area = xrm.DA(sym_arr("area", (n,), "f"), dims=("cc",), coords=co())
                    log, built = [], []
                    fs = _FS(log)
                    c.new_repo({"os": fs, "shutil": fs}, {(T, "os"): fs, (T, "shutil"): fs})
                    slf = Self(c.repo, T, "tracker", {"ycoord": "lat", "xcoord": "lon", "xdim": "cc", "ydim": None, "timedim": "tt", "unstructured_grid": True, "cell_area": area,
                                                     "data_bin": xrm.DA(D, dims=("tt", "cc"), coords=co()), "mask": xrm.DA(K, dims=("cc",), coords=co()),
                                                     "lat": xrm.DA(la, dims=("cc",), coords=co()), "lon": xrm.DA(lo, dims=("cc",), coords=co())},
                               {"_build_sparse_dilation_matrix": lambda: built.append(1)})
                    mi = sym_int("max_iter")
                    r, ex = attempt(lambda: slf._setup_unstructured_grid(td, nb, area, mi))
                    lab = f"{dims}, scratch {td!r}"
                    bad = Or(z3.BoolVal(not td), z3.BoolVal(dims != ("nv", "cc")), zi(sz[dims[0]]) != 3)
                    if ex is not None:
                        c.require(f"only unusable input is refused ({lab})", bad)
                        c.require(f"refusals are library errors ({lab})", z3.BoolVal(is_repo_error(ex)))
                        return
                    c.require(f"unusable input is refused ({lab})", Not(bad))
                    if dims != ("nv", "cc") or not td:
                        return
                    i, k, t0 = z3.Ints("i k t")
                    E.assume(And(inb(i, nv), inb(k, n), inb(t0, nt)))
                    c.require(f"neighbours are numbered from zero ({lab})", zi(slf.neighbours_int.arr.get(i, k)) == zi(N.get(i, k)) - 1)
                    c.require(f"the data are unchanged ({lab})", And(zb(slf.data_bin.arr.get(t0, k)) == zb(D.get(t0, k)), zb(slf.mask.arr.get(k)) == zb(K.get(k)),
                                                                    zr(slf.lat.arr.get(k)) == zr(la.get(k)), zr(slf.lon.arr.get(k)) == zr(lo.get(k))))
                    c.require(f"the cell graph is built ({lab})", z3.BoolVal(len(built) == 1))
                    c.require(f"the iteration limit is stored ({lab})", zi(slf.max_iteration) == mi.e)
                    c.require(f"only the temporary store is removed ({lab})", z3.BoolVal(all(str(p).startswith("scratch/") and str(p).rstrip("/") != "scratch" for p in log)))
                c.run(t)
