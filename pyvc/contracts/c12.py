"""P12 (and P16): partition kernels."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, same
from ..core import sym_int, sym_real, sym_bool, Unsupported
from ..arr import Arr, sym_arr, inb, comp_of
from ..loop import Spec
from .c07 import _plan
T = "marEx.track"


def rp_dist(tier):
    return [["trk", "case_dist_kernel", {"seed": s, "wrap": w, "nx": 4 + s % 6}] for s in range(20) for w in (True, False)]


def circ2(dx, nx):
    """Square of the shortest x-distance on a circle of nx columns."""
    a, b, c = dx * dx, (dx - nx) * (dx - nx), (dx + nx) * (dx + nx)
    m = z3.If(a <= b, a, b)
    return z3.If(m <= c, m, c)


@contract(["P12", "P16"], f"{T}.wrapped_euclidian_distance_points", rp_dist, title="point distance")
def point_distance(c):
    """res = Euclidean distance with the shortest way around iff wrap."""
    f = c.repo.fn(T, "wrapped_euclidian_distance_points")
    for wrap in (True, False):
        def t():
            E = c.E
            y1, x1, y2, x2 = [sym_real(n) for n in ("y1", "x1", "y2", "x2")]
            nx = sym_int("nx")
            E.assume(nx >= 1)
            for x in (x1, x2):
                E.assume(And(x.e >= 0, x.e < zr(nx)))
            r = f(y1, x1, y2, x2, nx, nx / 2, wrap)
            dx = x1.e - x2.e
            dx2 = circ2(dx, zr(nx)) if wrap else dx * dx
            dy = y1.e - y2.e
            rr = r * r
            c.require(f"square of the distance (wrap={wrap})", And(zr(r) >= 0, zr(rr) == dy * dy + dx2))
        c.run(t)


@contract(["P12", "P16"], f"{T}.wrapped_euclidian_distance_mask_parallel", rp_dist, title="mask distance")
def mask_distance(c):
    f = c.repo.fn(T, "wrapped_euclidian_distance_mask_parallel")
    for wrap in (True, False):
        def t():
            E = c.E
            ny, nx, npar = sym_int("ny"), sym_int("nx"), sym_int("npar")
            E.assume(And(ny.e >= 1, nx.e >= 1, npar.e >= 1))
            mask = sym_arr("mask", (ny, nx), "b")
            cen = sym_arr("cen", (npar, 2), "f")
            p, y, x = z3.Ints("p y x")
            E.assume(And(p >= 0, p < npar.e, y >= 0, y < ny.e, x >= 0, x < nx.e, mask.get(y, x).e))
            cx, cy = cen.get(p, 1).e, cen.get(p, 0).e
            E.assume(And(cx >= 0, cx < zr(nx)))
            r = f(mask, cen, nx, wrap)
            # the row of cell (y, x) is its position in row-major order of the mask
            from ..npm import np as N
            ys, xs = N.nonzero(mask)
            k = ys.comp[0].rank(y, x)
            d = r.get(k, p)
            dx = z3.ToReal(x) - cx
            dy = z3.ToReal(y) - cy
            c.require(f"one row per cell, one column per parent (wrap={wrap})", And(zi(r.shape[0]) == ys.comp[0].n, zi(r.shape[1]) == npar.e))
            c.require(f"distance of every cell to every parent (wrap={wrap})", zr(d * d) == dy * dy + (circ2(dx, zr(nx)) if wrap else dx * dx))
        c.run(t)


HAV = dict


def rp_cent(tier):
    return [["trk", "case_centroid_mesh", {"seed": s, "np_": 2 + s % 3}] for s in range(30)]


def hav_dist(N, lat1, lon1, lat2, lon2):
    """Great-circle distance as the code base defines it (haversine), on symbolic degrees."""
    la1, lo1, la2, lo2 = [N.deg2rad(v) for v in (lat1, lon1, lat2, lon2)]
    dlat = la2 - la1
    dlon = lo2 - lo1
    a = N.sin(dlat / 2) ** 2 + N.cos(la1) * N.cos(la2) * N.sin(dlon / 2) ** 2
    return 2 * N.arctan2(N.sqrt(a), N.sqrt(1 - a))


@contract(["P12"], f"{T}.partition_centroid_unstructured", rp_cent, title="mesh centroid partition")
def centroid_mesh(c):
    """Every child cell gets the id of a parent whose centroid is nearest (first of ties); labels only from child_ids."""
    from ..npm import np as N
    f = c.repo.fn(T, "partition_centroid_unstructured")

    def t():
        E = c.E
        n, npar = sym_int("n"), sym_int("npar")
        E.assume(And(n.e >= 1, npar.e >= 1))
        mask = sym_arr("mask", (n,), "b")
        cen = sym_arr("cen", (npar, 2), "f")
        ids = sym_arr("ids", (npar,), "i")
        lat, lon = sym_arr("lat", (n,), "f"), sym_arr("lon", (n,), "f")
        DI = z3.Function("D", z3.IntSort(), z3.IntSort(), z3.RealSort())
        # haversine terms lie in [0, 1] (real arithmetic fact about sin/cos)
        E.ghost["total_sqrt"] = "haversine terms lie in [0, 1], so their square roots are real numbers"
        js, cell = z3.Ints("jstar cell")
        E.assume(And(js >= 0, js < npar.e, cell >= 0, cell < n.e, mask.get(cell).e))

        def dist(i, j):
            return zr(hav_dist(N, lat.get(i), lon.get(i), cen.get(j, 0), cen.get(j, 1)))
        E.loop_specs = {("partition_centroid_unstructured", 1): lambda env: Spec(
            mod=("min_dist", "closest_parent"), kinds={"min_dist": "x"},
            inv=lambda e, k: [
                ("a processed parent is held", z3.Implies(k > 0, And(lift(e["min_dist"]).inf == 0 if not isinstance(lift(e["min_dist"]).inf, int) else z3.BoolVal(lift(e["min_dist"]).inf == 0),
                                                                    zi(e["closest_parent"]) >= 0, zi(e["closest_parent"]) < k, lift(e["min_dist"]).e == dist(e["i"].e, zi(e["closest_parent"]))))),
                ("nothing processed yet", z3.Implies(k == 0, lift(e["min_dist"]).inf == 1 if not isinstance(lift(e["min_dist"]).inf, int) else z3.BoolVal(lift(e["min_dist"]).inf == 1))),
                ("no processed parent is nearer, ties keep the first", z3.Implies(js < k, And(lift(e["min_dist"]).e <= dist(e["i"].e, js),
                                                                                         z3.Implies(js < zi(e["closest_parent"]), lift(e["min_dist"]).e < dist(e["i"].e, js))))),
            ])}
        r = f(mask, cen, ids, lat, lon)
        k = r.comp[0].rank(cell)
        lab = r.get(k)
        best = E.fresh("best", z3.IntSort())
        c.require("one label per child cell", zi(r.shape[0]) == r.comp[0].n)
        E.ghost["q"] = 1
        gi = find_best(E, lab)
        c.require("label of a nearest parent", gi(dist, cell, js, ids))
    c.run(t)


def find_best(E, lab):
    """The label term is ids(best): best is read off the term."""
    def g(dist, cell, js, ids):
        e = z3.simplify(lab.e)
        best = None
        st = [e]
        while st:
            x = st.pop()
            if z3.is_app(x) and x.decl().name() == "ids":
                best = x.arg(0)
                break
            st.extend(x.children())
        if best is None:
            raise Unsupported("the label is not taken from child_ids")
        return And(lab.e == ids.get(best).e, best >= 0, dist(cell, best) <= dist(cell, js), z3.Implies(js < best, dist(cell, best) < dist(cell, js)))
    return g


def rp_nn(tier): return _plan("P12")


@contract(["P12"], f"{T}.partition_nn_unstructured_optimised", rp_nn, title="mesh nearest-cell partition")
def nn_mesh(c):
    """A merged cell within reach gets a parent whose cells are the fewest neighbour hops away (hop = graph distance along the neighbour table), provided each nearer ring
    holds a merged cell; a cell no parent can reach gets the parent with the nearest centroid."""
    def t():
        E = c.E
        n, maxd, npc = sym_int("ncells"), sym_int("max_distance"), sym_int("n_centroids")
        I = z3.IntSort()
        hop = z3.Function("hop", I, I, I)            # hops from parent p's cells to a cell
        near = z3.Function("near", I, I)             # least over the parents
        parg = z3.Function("nearest", I, I)
        pred, via = z3.Function("pred", I, I), z3.Function("via", I, I)
        ring = z3.Function("ring", I, I)             # some merged cell at each level
        INF = z3.Int("unreachable")
        cs, js = z3.Ints("cell jstar")
        E.assume(And(n.e >= 1, npc.e >= 1, maxd.e < INF, INF > 0))
        child = sym_arr("child", (n,), "b")
        F0 = sym_arr("front", (n,), "i", lambda v: And(v >= 0, v <= 255))
        nb = sym_arr("nb", (3, n), "i", lambda v: And(v >= -1, v < n.e))
        lat, lon = sym_arr("lat", (n,), "f"), sym_arr("lon", (n,), "f")
        cen = sym_arr("cen", (npc, 2), "f")
        f0, nbf = F0.snapshot(), nb.snapshot()
        c0 = z3.Int("some_parent_cell")
        E.assume(And(inb(c0, n), F0.get(c0).e < 255, inb(cs, n), child.get(cs).e, inb(js, npc)))
        for q in (c0, cs):
            E.point(q, dom=(n,))

        def axioms(q, v=None):
            """Graph distance along the neighbour table, at cell q (and, for a parent v, out of q)."""
            q1, p1 = pred(q), parg(q)
            F = [near(q) == hop(p1, q), near(q) >= 0, near(q) <= INF, (near(q) == 0) == (f0(q).e != 255), z3.Implies(f0(q).e != 255, hop(f0(q).e, q) == 0),
                 z3.Implies(And(near(q) > 0, near(q) < INF), And(inb(q1, n), via(q) >= 0, via(q) < 3, Or(*[And(via(q) == i, nbf(z3.IntVal(i), q1).e == q) for i in range(3)]),
                                                                 hop(p1, q1) == near(q) - 1, near(q1) <= hop(p1, q1)))]
            if v is not None:
                F += [z3.Implies(v != 255, near(q) <= hop(v, q))]
                for i in range(3):
                    o = nbf(z3.IntVal(i), q).e
                    F += [z3.Implies(And(o >= 0, v != 255), And(hop(v, o) <= hop(v, q) + 1, near(o) <= hop(v, o)))]
            E.assume(z3.Implies(inb(q, n), And(*F)))
        lev = lambda L: z3.Implies(And(L >= 1, L <= near(cs)), And(inb(ring(L), n), child.get(ring(L)).e, near(ring(L)) == L))
        reach = And(near(cs) <= maxd.e, near(cs) < INF)
        fn = "partition_nn_unstructured_optimised"

        def main(q):
            """The cells the argument is about (the facts at their neighbours are looked up, not those of every cell met on the way)."""
            return z3.is_app(q) and (q.decl().name()[:2] in ("?m", "?e") or q.decl().name() in ("cell", "ring"))

        def outer(env):
            def cont(e, k, i):
                q = i[0]
                if main(q):
                    E.point(q, dom=(n,))
                v, d, P = e["parent_frontiers_working"].get(q).e, zi(e["current_distance"]), zi(e["n_parents"])
                axioms(q, v)
                return And(Or(v == 255, And(v >= 0, v < P)), (v != 255) == (near(q) <= d), z3.Implies(v != 255, hop(v, q) == near(q)))

            def inv(e, k):
                d = zi(e["current_distance"])
                return [("the distance stays within the search", And(d >= 0, Or(d == 0, d <= maxd.e))),
                        ("a merged cell without parent is noticed", z3.Implies(e["parent_frontiers_working"].get(cs).e == 255, zb(e["any_unassigned"])))]
            return Spec(arrays=["parent_frontiers_working"], mod=["current_distance", "any_unassigned"], arr_inv={"parent_frontiers_working": cont}, inv=inv)

        def round_(env, reached):
            """One round of spreading: reached(k, parent, direction) says which neighbours have been looked at."""
            d, pe = this["round"]
            E.assume(lev(d))
            E.point(ring(d), dom=(n,))

            def cont(e, k, i):
                q = i[0]
                v = e["parent_frontiers_working"].get(q).e
                axioms(q)
                q1 = pred(q)
                if main(q):
                    E.point(q1, dom=(n,))
                fp, f1 = pe(q).e, pe(q1).e
                return And(z3.Implies(fp != 255, v == fp),
                           z3.Implies(fp == 255, And(Or(v == 255, And(reached(k, v, z3.IntVal(-1)), v >= 0, hop(v, q) == near(q), near(q) == d)),
                                                     z3.Implies(And(near(q) == d, inb(q1, n), f1 != 255, reached(k, f1, via(q))), v != 255))))

            def inv(e, k):
                r = ring(d)
                return [("a merged cell reached in this round is noticed", z3.Implies(And(d <= near(cs), pe(r).e == 255, e["parent_frontiers_working"].get(r).e != 255), zb(e["updates_made"])))]
            return Spec(arrays=["parent_frontiers_working"], mod=["updates_made"], arr_inv={"parent_frontiers_working": cont}, inv=inv)

        this = {}

        def spread(env):
            this["round"] = zi(env["current_distance"]), env["parent_frontiers_previous"].snapshot()
            return round_(env, lambda k, p, i: p < k)

        def directions(env):
            p0 = zi(env["parent_idx"])
            return round_(env, lambda k, p, i: Or(p < p0, And(p == p0, i < k)))
        E.ghost["total_sqrt"] = "haversine terms lie in [0, 1], so their square roots are real numbers"
        E.ghost["plain_index"] = True
        E.ghost["hit_points"] = lambda j: z3.is_app(j) and j.decl().name() == "ring"
        E.loop_specs = {(fn, 0): outer, (fn, 1): spread, (fn, 2): directions}
        axioms(cs)
        r = c.repo.fn(T, fn)(child, F0, cen, nb, lat, lon, max_distance=maxd)
        cc = comp_of(child)[0]
        k = cc.rank(cs)
        v = r.get(k).e
        c.require("one label per merged cell", zi(r.shape[0]) == cc.n)
        with c.under(reach):
            c.require("a merged cell within reach goes to a parent fewest hops away", hop(v, cs) == near(cs))
    c.run(t)
