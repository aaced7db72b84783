"""P11: overlap links."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, same
from ..core import sym_int, sym_real, sym_bool, Unsupported, mk_sum
from ..arr import Arr, sym_arr, inb
from ..load import Self
from ..npm import member
T = "marEx.track"


def rp_slice(tier):
    return [["trk", "case_overlap_slice", {"seed": s, "nid": 2 + s % 5, "gap": 1 + s % 3}] for s in range(40)] + \
           [["trk", "case_overlap_slice", {"seed": s, "nid": 2 + s % 4, "grid": "mesh"}] for s in range(40)]


def rp_thr(tier):
    return [["trk", "case_threshold", {"seed": s, "thr": (0.5, 0.25, 0.0, 1.0)[s % 4]}] for s in range(40)] + \
           [["trk", "case_threshold", {"seed": s, "grid": "mesh", "thr": (0.5, 0.3)[s % 2], "integral": bool(s % 2)}] for s in range(30)]


@contract(["P11"], f"{T}.tracker.check_overlap_slice", rp_slice, title="overlap of two frames")
def overlap_slice(c):
    """Rows = exactly the pairs of objects sharing cells, each once, with the number (mesh: area) of shared cells."""
    for mesh in (False, True):
        def t():
            E = c.E
            if mesh:
                n = sym_int("n")
                E.assume(n.e >= 1)
                sh = (n,)
                area = sym_arr("area", sh, "f", lambda v: v > 0)
            else:
                ny, nx = sym_int("ny"), sym_int("nx")
                E.assume(And(ny.e >= 1, nx.e >= 1))
                sh = (ny, nx)
                area = None
            a = sym_arr("id0", sh, "i", lambda v: v >= 0)
            b = sym_arr("id1", sh, "i", lambda v: v >= 0)
            d = [z3.Int(f"d{i}") for i in range(len(sh))]
            E.assume(And(*[inb(x, s) for x, s in zip(d, sh)]))
            E.assume(And(a.get(*d).e >= 0, b.get(*d).e >= 0))
            E.point(*d)
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "cell_area": area})
            r = slf.check_overlap_slice(a, b)
            g = "mesh" if mesh else "grid"
            both = And(a.get(*d).e > 0, b.get(*d).e > 0)
            c.require(f"three columns ({g})", zi(r.shape[1]) == 3)
            n = zi(r.shape[0])
            k, k2 = z3.Ints("k k2")
            with c.under(And(inb(k, Sym(n)), inb(k2, Sym(n)))):
                i0, i1, ar = zi_(r.get(k, 0)), zi_(r.get(k, 1)), r.get(k, 2)
                c.require(f"listed ids are objects ({g})", And(i0 > 0, i1 > 0))
                want = mk_sum(sh, lambda *q: Sym(z3.If(And(a.get(*q).e == i0, b.get(*q).e == i1), area.get(*q).e if mesh else z3.RealVal(1), z3.RealVal(0))))
                c.require(f"area is the sum over exactly the shared cells ({g})", zr(ar) == want)
                j0, j1 = zi_(r.get(k2, 0)), zi_(r.get(k2, 1))
                c.require(f"no pair is listed twice ({g})", z3.Implies(And(i0 == j0, i1 == j1), k == k2))
        c.run(t)

    # every shared cell's pair is listed: separate run, so that the early return is covered too
    for mesh in (False, True):
        def t2():
            E = c.E
            if mesh:
                n = sym_int("n")
                E.assume(n.e >= 1)
                sh = (n,)
                area = sym_arr("area", sh, "f", lambda v: v > 0)
            else:
                ny, nx = sym_int("ny"), sym_int("nx")
                E.assume(And(ny.e >= 1, nx.e >= 1))
                sh = (ny, nx)
                area = None
            a = sym_arr("id0", sh, "i", lambda v: v >= 0)
            b = sym_arr("id1", sh, "i", lambda v: v >= 0)
            d = [z3.Int(f"d{i}") for i in range(len(sh))]
            E.assume(And(*[inb(x, s) for x, s in zip(d, sh)]))
            E.assume(And(a.get(*d).e > 0, b.get(*d).e > 0))
            E.point(*d)
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "cell_area": area})
            r = slf.check_overlap_slice(a, b)
            # position of the pair: where np.unique puts it
            pos = [v for k_, v in E.ghost.get("reductions", {}).items() if k_[0] == "unique"]
            if not pos:
                c.require(f"a shared cell is never lost ({'mesh' if mesh else 'grid'})", z3.BoolVal(False))
                return
            (nn, el, upos, fact), _ = pos[-1]
            mx = None
            for s_, fac, y in E.ghost.get("lin", {}).values():
                if any(y.eq(w.get(*d).e) for w in (a, b)):
                    mx = s_
            if mx is None:
                raise Unsupported("the pair code is not of the expected form")
            k = upos(mx)
            E.assume(fact(*d))
            c.require(f"a shared cell is never lost ({'mesh' if mesh else 'grid'})",
                      And(inb(k, Sym(zi(r.shape[0]))), zi_(r.get(k, 0)) == a.get(*d).e, zi_(r.get(k, 1)) == b.get(*d).e))
        c.run(t2)


def mentions_all(e, ds):
    s = str(e)
    return all(str(x) in s for x in ds)


def zi_(v):
    v = lift(v)
    return v.e if v.kind == "i" else z3.ToInt(v.e)


class _Sel:
    def __init__(self, ids, fn):
        self.ids, self.fn = ids, fn

    def sel(self, ID=None):
        return _V(ID.map(lambda v: Sym(self.fn(zr(v))), "f"))


class _V:
    def __init__(self, values):
        self.values = values


class Props:
    """Dataset of object properties: ID coordinate and area(ID).  Assumed contract of .sel: the value stored for that ID."""

    def __init__(self, ids, area):
        self._ids, self._area = ids, area
        self.ID = _V(ids)
        self.area = _Sel(ids, area)

    def __getitem__(self, k):
        if k == "area":
            return self.area
        if k == "ID":
            return self.ID
        raise Unsupported(f"property {k}")


@contract(["P11"], f"{T}.tracker.enforce_overlap_threshold", rp_thr, title="overlap threshold")
def threshold(c):
    """Kept rows = exactly the rows whose overlap is at least the threshold fraction of the smaller of the two areas, unchanged and in order."""
    def t():
        E = c.E
        n, m = sym_int("n"), sym_int("m")
        E.assume(And(n.e >= 0, m.e >= 0))
        rows = sym_arr("rows", (n, 3), "f")
        ids = sym_arr("ids", (m,), "f")
        thr = sym_real("thr")
        E.ghost["loose_ext"] = True          # the maximum is only used in a log message
        E.assume(And(thr.e >= 0, thr.e <= 1))
        A = z3.Function("areaOf", z3.RealSort(), z3.RealSort())
        E.dep("Dataset['area'].sel(ID=...) returns the area stored for each ID")
        pos_area = lambda v: A(v) > 0
        mesh = sym_bool("mesh")
        slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "overlap_threshold": thr})
        r0 = z3.Int("r")
        E.point(r0)
        E.assume(inb(r0, n))
        isid = member(ids)
        i0, i1, ov = rows.get(r0, 0), rows.get(r0, 1), rows.get(r0, 2)
        E.assume(And(pos_area(i0.e), pos_area(i1.e), ov.e >= 0))
        known = And(isid(i0), isid(i1))
        mn = z3.If(A(i0.e) <= A(i1.e), A(i0.e), A(i1.e))
        keep = And(known, ov.e >= thr.e * mn)
        res = slf.enforce_overlap_threshold(rows, Props(ids, A))
        N = zi(res.shape[0])
        c.require("three columns", zi(res.shape[1]) == 3)
        # completeness: a qualifying row appears
        cands = [And(inb(k, Sym(N)), *[zr(res.get(k, j)) == rows.get(r0, j).e for j in range(3)]) for k in chains(E, n, r0)]
        c.require("a link at or above the threshold is kept", z3.Implies(keep, Or(*cands)))
        # soundness: every listed row qualifies
        k = z3.Int("k")
        with c.under(inb(k, Sym(N))):
            o = [res.get(k, j) for j in range(3)]
            E.assume(And(pos_area(zr(o[0])), pos_area(zr(o[1])), zr(o[2]) >= 0))
            mn2 = z3.If(A(zr(o[0])) <= A(zr(o[1])), A(zr(o[0])), A(zr(o[1])))
            c.require("a kept link is at or above the threshold", And(isid(o[0]), isid(o[1]), zr(o[2]) >= thr.e * mn2))
            src = [p for p in sources(E, n, k)]
            c.require("a kept link is one of the given ones", Or(*[And(inb(s, n), *[zr(o[j]) == rows.get(s, j).e for j in range(3)]) for s in src]))
    c.run(t)


def chains(E, n, r):
    """Candidate positions of source row r after the selections made (compositions of selections)."""
    comps = [v[0] for v in E.ghost.get("comps", {}).values() if len(v[0].dom) == 1]
    out = [r]
    front = [r]
    for cc in comps:
        new = [cc.rank(x) for x in front]
        out += new
        front = front + new
        if len(front) > 16:
            break
    return out


def sources(E, n, k):
    comps = [v[0] for v in E.ghost.get("comps", {}).values() if len(v[0].dom) == 1]
    out = [k]
    front = [k]
    for cc in reversed(comps):
        new = [cc.pos(x)[0] for x in front]
        out += new
        front = front + new
        if len(front) > 16:
            break
    return out


def rp_all(tier):
    from .c07 import _plan
    return _plan("P11")


@contract(["P11"], f"{T}.tracker.find_overlapping_objects", rp_all, title="overlaps through time")
def overlaps(c):
    """Each frame is compared with the next one (nothing after the last); the table lists every pair found by any comparison exactly once, with the sum of what all comparisons found for it.
    Callee contract of check_overlap_slice: rows(t) = the table of frame t against frame t+1 (proved in "overlap of two frames")."""
    from ..xrm import DA
    for mesh in (False, True):
        def t():
            E = c.E
            g = "mesh" if mesh else "grid"
            nt = sym_int("nt")
            E.assume(nt.e >= 1)
            if mesh:
                n = sym_int("n")
                E.assume(n.e >= 1)
                dims, sh = ("tt", "cc"), (nt, n)
            else:
                ny, nx = sym_int("ny"), sym_int("nx")
                E.assume(And(ny.e >= 1, nx.e >= 1))
                dims, sh = ("tt", "yy", "xx"), (nt, ny, nx)
            F = sym_arr("ids", sh, "i", lambda v: v >= 0)
            kind = z3.RealSort() if mesh else z3.IntSort()
            cnt = z3.Function("rows", z3.IntSort(), z3.IntSort())
            col = [z3.Function(f"row{j}", z3.IntSort(), z3.IntSort(), kind) for j in range(3)]
            seen = []

            def rows(slf, a, b):
                t_ = E.ghost["ufunc_at"]["tt"]
                if not seen:                      # the comparison made at an arbitrary time
                    seen.append(1)
                    d = [z3.Int(f"d{i}") for i in range(len(sh) - 1)]
                    with c.under(And(*[inb(x, s) for x, s in zip(d, sh[1:])])):
                        c.require(f"the frame compared is this time's ({g})", zi(a.get(*d)) == zi(F.get(t_, *d)))
                        c.require(f"it is compared with the next frame, nothing after the last ({g})",
                                  zi(b.get(*d)) == z3.If(t_ + 1 < nt.e, zi(F.get(t_ + 1, *d)), 0))
                E.assume(cnt(t_) >= 0)
                E.assume(z3.Implies(t_ == nt.e - 1, cnt(t_) == 0))       # nothing can overlap an empty frame ("listed ids are objects")

                def el(r, j):
                    from ..arr import conc
                    j = conc(j)
                    if j is None:
                        raise Unsupported("column chosen symbolically")
                    return Sym(col[j](t_, r))
                return Arr((Sym(cnt(t_)), 3), el, "f" if mesh else "i")
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "timedim": "tt", "xdim": dims[-1], "ydim": None if mesh else "yy"}, {"check_overlap_slice": lambda a, b: rows(None, a, b)})
            r = slf.find_overlapping_objects(DA(F, dims=dims))
            c.require(f"the comparison is made by check_overlap_slice ({g})", z3.BoolVal(bool(seen)))
            n_ = zi(r.shape[0])
            c.require(f"three columns ({g})", zi(r.shape[1]) == 3)
            cat, uq = E.ghost["last_concat"], E.ghost["last_unique_rows"]
            N = cat.shape[0]
            k, k2, tt, rr = z3.Ints("k k2 t r")
            with c.under(And(inb(k, Sym(n_)), inb(k2, Sym(n_)))):
                i0, i1, ar = zr(r.get(k, 0)), zr(r.get(k, 1)), zr(r.get(k, 2))
                j0, j1 = zr(r.get(k2, 0)), zr(r.get(k2, 1))
                c.require(f"no pair is listed twice ({g})", z3.Implies(And(i0 == j0, i1 == j1), k == k2))
                want = mk_sum((N,), lambda q: Sym(z3.If(And(zr(cat.get(q, 0)) == i0, zr(cat.get(q, 1)) == i1), zr(cat.get(q, 2)), z3.RealVal(0))))
                c.require(f"the sum of everything found for the pair ({g})", ar == want)
            with c.under(And(inb(tt, nt), inb(rr, Sym(cnt(tt))))):
                E.assume(cnt(nt.e - 1) == 0)
                q = cat.where_row(tt, rr)
                E.assume(uq.row_fact(q))
                p = uq.row_pos(*[col[j](tt, rr) for j in range(2)])
                cat.get(q, 0)
                c.require(f"every pair found is listed ({g})", And(inb(p, Sym(n_)), zr(r.get(p, 0)) == zr(Sym(col[0](tt, rr))), zr(r.get(p, 1)) == zr(Sym(col[1](tt, rr)))))
        c.run(t)
