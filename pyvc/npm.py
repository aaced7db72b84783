"""Assumed contracts of numpy (the part the code under contract uses), over arr.Arr."""
import math, types
import z3
from . import core, arr
from .core import Sym, Unsupported, And, Or, Not, lift, zi, zr, zb, ite, cast, kind_of, mk_sum, same
from .arr import Arr, to_arr, conc, inb, const_arr, comp_of, hits, DType
E = core.E

UF = {}


def uf(name, *a):
    E.dep(f"{name} is a function of its arguments (uninterpreted)")
    E.inexact.add(name)
    f = UF.setdefault((name, len(a)), z3.Function(name, *[z3.RealSort()] * len(a), z3.RealSort()))
    return Sym(f(*[z3.simplify(zr(x)) for x in a]))


def domain(A):
    if A.comp is not None:
        cc, g = A.comp
        return cc.dom, cc.mask, g
    e = A.snapshot()
    return A.shape, (lambda *d: z3.BoolVal(True)), e


def box(d, dom):
    return And(*[inb(x, n) for x, n in zip(d, dom)])


def mentions(e, b):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b):
            return True
        st.extend(x.children())
    return False


def keyed(kind, dom, fn, make):
    """The same reduction of the same expression is the same value."""
    with core.probing("r", dom) as pr:
        v = fn(*pr)
    v = [z3.simplify(x) for x in v]
    E.keep.extend(v)
    ren = [(zi(p), z3.Int(f"?key{j}")) for j, p in enumerate(pr)]        # the bound positions by number, whatever the probes are called here
    v = [z3.substitute(x, *ren) if ren else x for x in v]
    E.keep.extend(v)
    ds = [z3.simplify(zi(n)) for n in dom]
    E.keep.extend(ds)
    key = (kind, tuple(x.get_id() for x in v), tuple(x.get_id() for x in ds), tuple(b.get_id() for b in E.binders))
    tab = E.ghost.setdefault("reductions", {})
    if E.binders and key not in tab:            # a reduction that does not depend on the enclosing binders may be known without them
        names = {str(b) for b in E.binders if any(mentions(x, b) for x in v + ds)}
        less = key[:3] + (tuple(b.get_id() for b in E.binders if str(b) in names),)
        if less in tab:
            key = less
    if key not in tab:
        tab[key] = make()
        tab[key][1]()
    else:
        tab[key][1]()
    return tab[key][0]


def _sizes_concrete(dom, limit=6):
    c = [conc(n) for n in dom]
    if all(x is not None for x in c):
        t = 1
        for x in c:
            t *= x
        if t <= limit:
            import itertools
            return list(itertools.product(*[range(x) for x in c]))
    return None


class AddAt:
    @staticmethod
    def at(target, idx, vals):
        idx = to_arr(idx)
        dom, mask, g = domain(idx)
        if isinstance(vals, Arr) and vals.ndim:
            if idx.comp is not None:
                if vals.comp is None or vals.comp[0] is not idx.comp[0]:
                    raise Unsupported("add.at of unrelated arrays")
                vg = vals.comp[1]
            else:
                vg = vals.snapshot()
        else:
            vg = lambda *d: lift(vals)
        old = target.snapshot()
        integral = target._kind == "i"

        def el(j):
            j = arr.ix(j)
            s = mk_sum(dom, lambda *d: Sym(z3.If(And(mask(*d), zi(g(*d)) == j), zr(vg(*d)), z3.RealVal(0))))
            if integral and (not isinstance(vals, Arr) or vals._kind in "ib"):
                E.sumfact(z3.IsInt(s))               # a sum of whole numbers
            return Sym(zr(old(j)) + s) if not integral else Sym(z3.ToInt(zr(old(j)) + s))
        target.write(lambda b: (z3.BoolVal(True), (b,)), lambda o: el(*o), None)


class Ragged:
    """1-D object array: element t is the (n_t, c) array f(t)."""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __len__(self): raise Unsupported("length of an object array")

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
            n = zi(self.n)
            lim = lambda v, dflt: dflt if v is None else (z3.If(n + v < 0, 0, n + v) if v < 0 else z3.If(n < v, n, v))
            a, b = lim(k.start, z3.IntVal(0)), lim(k.stop, n)
            return Ragged(Sym(z3.If(b > a, b - a, 0)), lambda t: self.f(t + a))
        raise Unsupported("element of an object array")

    def concat(self):
        E.dep("np.concatenate of a list of arrays: every row of every array once, in order")
        n = E.fresh("nconcat", z3.IntSort())
        T, R = [E.fresh_fun(x, [z3.IntSort()], z3.IntSort()) for x in ("cat_t", "cat_r")]
        K = E.fresh_fun("cat_pos", [z3.IntSort(), z3.IntSort()], z3.IntSort())
        E.assume(n >= 0)
        t0 = E.fresh("cat_any", z3.IntSort())
        m = E.mark()
        E.assume(And(t0 >= 0, t0 < zi(self.n)))
        probe = self.f(t0)
        E.rollback(m)
        if not isinstance(probe, Arr) or probe.ndim != 2 or conc(probe.shape[1]) is None:
            raise Unsupported("concatenation of these objects")

        def el(k, j):
            k = arr.ix(k)
            a = self.f(T(k))
            E.assume(z3.Implies(And(k >= 0, k < n), And(T(k) >= 0, T(k) < zi(self.n), R(k) >= 0, R(k) < zi(a.shape[0]), K(T(k), R(k)) == k)))
            return a.get(R(k), j)

        def where(t, r):
            """Position of row r of array t."""
            a = self.f(t)
            k = K(t, r)
            E.assume(z3.Implies(And(t >= 0, t < zi(self.n), r >= 0, r < zi(a.shape[0])), And(k >= 0, k < n, T(k) == t, R(k) == r)))
            return k
        out = Arr((Sym(n), probe.shape[1]), el, probe._kind)
        out.where_row = where
        E.ghost["last_concat"] = out
        return out


class NDArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class ndarray(metaclass=NDArrayMeta):
    pass


class _Scalar:
    def __init__(self, name, kind):
        self.__name__ = name
        self.kind = kind
        self.name = name

    def __call__(self, x=0):
        if isinstance(x, Arr):
            return x.astype(self.kind)
        return cast(x, self.kind)

    def __repr__(self):
        return self.__name__


class _OGrid:
    def __getitem__(self, key):
        out = []
        for a, k in enumerate(key):
            lo, hi = zi(k.start if k.start is not None else 0), zi(k.stop)
            n = arr._pyint(hi - lo)
            sh = [1] * len(key)
            sh[a] = n
            out.append(Arr(sh, (lambda a, lo: lambda *i: Sym(z3.simplify(lo + i[a])))(a, lo), "i"))
        return out


class NP:
    inf = math.inf
    nan = math.nan
    pi = math.pi

    def savez(self, path, **kw):
        from . import xrm
        xrm.DISK.savez(path, **kw)

    def load(self, path, **kw):
        from . import xrm
        return xrm.DISK.load(path, **kw)
    newaxis = None
    ndarray = ndarray
    add = AddAt
    ogrid = _OGrid()
    bool_ = _Scalar("bool_", "b")
    int8 = int16 = int32 = _Scalar("int32", "i")
    int64 = _Scalar("int64", "i")
    intp = int64
    uint8 = uint16 = uint32 = _Scalar("uint8", "i")
    float32 = _Scalar("float32", "f")
    float64 = _Scalar("float64", "f")
    floating = float64
    integer = int64
    number = float64
    generic = _Scalar("generic", "f")

    def __getattr__(self, a):
        if a in E.ghost.get("np", {}):
            return E.ghost["np"][a]
        raise Unsupported(f"np.{a}")

    # ---- creation
    def zeros(self, shape, dtype=float, **k): return const_arr(_sh(shape), 0, _kd(dtype))
    def ones(self, shape, dtype=float, **k): return const_arr(_sh(shape), 1, _kd(dtype))
    def full(self, shape, v, dtype=None, **k):
        return const_arr(_sh(shape), v, _kd(dtype) if dtype is not None else None)
    def empty(self, shape, dtype=float, **k):
        k_ = _kd(dtype)
        sh = _sh(shape)
        f = E.fresh_fun("uninit", [z3.IntSort()] * len(sh), {"b": z3.BoolSort(), "i": z3.IntSort(), "f": z3.RealSort()}[k_])
        return Arr(sh, lambda *i: Sym(f(*i)), k_)
    def zeros_like(self, a, dtype=None, **k): return const_arr(to_arr(a).shape, 0, _kd(dtype) if dtype is not None else to_arr(a)._kind)
    def ones_like(self, a, dtype=None, **k): return const_arr(to_arr(a).shape, 1, _kd(dtype) if dtype is not None else to_arr(a)._kind)
    def full_like(self, a, v, dtype=None, **k): return const_arr(to_arr(a).shape, v, _kd(dtype) if dtype is not None else to_arr(a)._kind)
    def empty_like(self, a, dtype=None, **k): return self.empty(to_arr(a).shape, dtype if dtype is not None else to_arr(a)._kind)
    def arange(self, a, b=None, step=None, dtype=None):
        if b is None:
            a, b = 0, a
        lo = lift(a)
        if step is not None and not (isinstance(step, int) and step == 1):
            st = lift(step)
            hi = lift(b)
            if not E.provable(zr(st) > 0):
                raise Unsupported("arange with a step that may be negative")
            n = E.fresh("narange", z3.IntSort())
            E.dep("np.arange(a, b, s) has the ceil((b - a) / s) elements a + i s (exact arithmetic)")
            E.assume(And(n >= 0, z3.Implies(zr(hi) > zr(lo), And(n >= 1, zr(lo) + z3.ToReal(n - 1) * zr(st) < zr(hi))), zr(lo) + z3.ToReal(n) * zr(st) >= zr(hi)))
            return Arr((Sym(n),), lambda i: Sym(zr(lo) + z3.ToReal(i) * zr(st)), "f")
        n = lift(b) - lo
        return Arr((arr._pyint(zi(n)),), lambda i: lo + Sym(i), "i").astype(dtype or "i")
    def array(self, x, dtype=None, **k):
        if isinstance(x, arr.SymList):
            r = x.rows() if x.is_rows() else x.array()
        else:
            r = to_arr(x)
        if isinstance(x, Arr):
            r = r.copy()
        return r.astype(dtype) if dtype is not None else r
    def asarray(self, x, dtype=None, **k):
        r = to_arr(x)
        return r.astype(dtype) if dtype is not None else r
    def ascontiguousarray(self, x, **k): return to_arr(x)
    def atleast_1d(self, x):
        a = to_arr(x)
        return a if a.ndim else a[None]
    def copy(self, x): return to_arr(x).copy()

    # ---- elementwise
    def _el(self, x, f, kind=None):
        if getattr(x, '_is_da', False):
            return x._map(f, kind)
        if isinstance(x, (list, tuple)):
            x = to_arr(x)
        if isinstance(x, Arr):
            return x.map(f, kind)
        return lift(f(lift(x)))
    def sqrt(self, x): return self._el(x, core.sqrt, "f")
    def abs(self, x): return self._el(x, core.absv)
    absolute = abs
    def sin(self, x): return self._el(x, lambda v: uf("sin", v), "f")
    def cos(self, x): return self._el(x, lambda v: uf("cos", v), "f")
    def arcsin(self, x): return self._el(x, lambda v: uf("arcsin", v), "f")
    def arctan2(self, a, b): return _bin(a, b, lambda x, y: uf("arctan2", x, y))
    def deg2rad(self, x): return self._el(x, _deg2rad, "f")
    radians = deg2rad
    def rad2deg(self, x): return self._el(x, _rad2deg, "f")
    degrees = rad2deg
    def isnan(self, x): return self._el(x, lambda v: Sym(core.nanb(v)), "b")
    def isinf(self, x): return self._el(x, lambda v: Sym(And(Not(core.nanb(v)), core.infi(v) != 0)), "b")
    def isfinite(self, x): return self._el(x, lambda v: Sym(And(Not(core.nanb(v)), core.infi(v) == 0)), "b")
    def logical_not(self, x): return ~x
    def logical_and(self, a, b): return a & b
    def logical_or(self, a, b): return a | b
    def bitwise_or(self, a, b): return a | b
    def minimum(self, a, b): return _bin(a, b, lambda x, y: ite(_le_or_nan(x, y), x, y))
    def maximum(self, a, b): return _bin(a, b, lambda x, y: ite(_le_or_nan(y, x), x, y))
    def round(self, x, n=0):
        if n != 0:
            raise Unsupported("round to digits")
        def r(v):
            e = zr(v)
            f = z3.ToInt(e)
            h = e - z3.ToReal(f)
            return Sym(z3.ToReal(z3.If(Or(h < z3.RealVal("1/2"), And(h == z3.RealVal("1/2"), f % 2 == 0)), f, f + 1)))
        return self._el(x, r, "f")
    rint = round
    def interp(self, v, xp, fp, **k):
        """Linear interpolation on the points 0, 1, .., n-1 (clamped at both ends)."""
        xp, fp = to_arr(xp), to_arr(fp)
        i = E.fresh("?xp", z3.IntSort())
        n = zi(xp.shape[0])
        if k or not E.provable(z3.Implies(And(i >= 0, i < n), zr(xp.get(i)) == z3.ToReal(i))) or not E.provable(And(n >= 1, n == zi(fp.shape[0]))):
            raise Unsupported("interpolation on other points")
        E.dep("np.interp: linear between neighbouring points, constant beyond the ends")
        fe = fp.snapshot()

        def at(q):
            q = zr(q)
            f = z3.ToInt(q)
            lo, hi = zr(fe(f)), zr(fe(f + 1))
            return Sym(z3.If(q <= 0, zr(fe(z3.IntVal(0))), z3.If(q >= z3.ToReal(n - 1), zr(fe(n - 1)), lo + (q - z3.ToReal(f)) * (hi - lo))))
        return self._el(v, at, "f")
    def floor(self, x): return self._el(x, lambda v: Sym(z3.ToReal(z3.ToInt(zr(v)))), "f")
    def ceil(self, x): return self._el(x, lambda v: Sym(z3.ToReal(-z3.ToInt(-zr(v)))), "f")
    def mod(self, a, b): return a % b
    def clip(self, x, lo, hi): return self.minimum(self.maximum(x, lo), hi)
    def where(self, c, a=None, b=None):
        if a is None:
            return self.nonzero(c)
        c = to_arr(c) if not isinstance(c, Sym) else c
        if isinstance(c, Sym):
            c = to_arr(c)
        aa, bb = to_arr(a), to_arr(b)
        sh = arr.bshape([c.shape, aa.shape, bb.shape])
        ce, ae, be = [arr.broadcast_to(x, sh)._elem for x in (c, aa, bb)]
        k = lift(ite(Sym(z3.Bool("?w")), core.sample(aa._kind), core.sample(bb._kind))).kind
        comps = [x for x in (c, aa, bb) if x.ndim]
        comp = None
        if all(x.comp is not None and x.comp[0] is comps[0].comp[0] for x in comps):
            gs = [(x.comp[1] if x.ndim else (lambda x: lambda *d: x.get())(x)) for x in (c, aa, bb)]
            comp = (comps[0].comp[0], lambda *d: ite(gs[0](*d), cast(gs[1](*d), k), cast(gs[2](*d), k)))
        r = Arr(sh, lambda *i: ite(ce(*i), cast(ae(*i), k), cast(be(*i), k)), k, comp)
        return r if sh else r.get()
    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        return _bin(a, b, lambda x, y: core.absv(x - y) <= atol + rtol * core.absv(y))

    # ---- selections
    def nonzero(self, m):
        m = to_arr(m)
        if m._kind != "b":
            m = m != 0
        if m.comp is not None:
            cc, _ = comp_of(m)
            base = m.comp[0]
            return (Arr((Sym(cc.n),), lambda k: Sym(base.rank(*cc.pos(k))), "i", (cc, lambda *d: Sym(base.rank(*d)))),)
        cc, _ = comp_of(m)
        out = []
        for a in range(m.ndim):
            out.append(Arr((Sym(cc.n),), (lambda a: lambda k: Sym(cc.pos(k)[a]))(a), "i", (cc, (lambda a: lambda *d: Sym(d[a]))(a))))
        return tuple(out)
    def flatnonzero(self, m): return self.nonzero(m)[0]
    def argwhere(self, m):
        p = self.nonzero(m)
        return arr.stack(list(p), axis=1)
    def compress(self, c, a): return to_arr(a)[to_arr(c)]
    def extract(self, c, a): return to_arr(a)[to_arr(c)]

    # ---- reductions
    def any(self, a, axis=None, **kw):
        if isinstance(a, (Sym, bool)):
            return lift(a)
        a = to_arr(a)
        if a._kind != "b":
            a = a != 0
        if axis is not None:
            return _axis(a, axis, self.any, "b")
        dom, mask, g = domain(a)
        pts = _sizes_concrete(dom)
        if pts is not None:
            return Sym(Or(*[And(mask(*[z3.IntVal(x) for x in p]), g(*[z3.IntVal(x) for x in p]).e) for p in pts]))

        def make():
            B = E.fresh("any", z3.BoolSort())
            w = [E.fresh("anyw", z3.IntSort()) for _ in dom]

            def facts():
                if not E.ghost.get("any_no_witness"):         # (a contract may do without: B is then only bounded below)
                    E.assume(z3.Implies(B, And(box(w, dom), mask(*w), g(*w).e)))
                E.universal(len(dom), lambda *d: z3.Implies(And(box(d, dom), mask(*d), g(*d).e), B), dom=dom)
            return Sym(B), facts
        return keyed("any", dom, lambda *d: [mask(*d), g(*d).e], make)
    def all(self, a, axis=None, **kw):
        if isinstance(a, (Sym, bool)):
            return lift(a)
        a = to_arr(a)
        if axis is not None:
            return _axis(a, axis, self.all, "b")
        return ~self.any(~a)
    def sum(self, a, axis=None, dtype=None, **kw):
        if isinstance(a, Sym):
            return a.num()
        a = to_arr(a)
        if axis is not None:
            return _axis(a, axis, self.sum, "f" if a._kind == "f" else "i")
        dom, mask, g = domain(a)
        pts = _sizes_concrete(dom)
        if pts is not None:
            r = lift(0)
            for p in pts:
                q = [z3.IntVal(x) for x in p]
                r = r + ite(Sym(mask(*q)), g(*q).num(), 0)
            return r

        def term(*d):
            v = g(*d)
            if not core.finite_plain(v):
                raise Unsupported("sum of possibly non-finite values")
            return Sym(z3.If(mask(*d), zr(v), z3.RealVal(0)))
        t = mk_sum(dom, term)
        if a._kind in "bi":
            return Sym(z3.ToInt(t)) if not E.sumfact(z3.IsInt(t)) else None
        return Sym(t)
    def count_nonzero(self, a, axis=None): return self.sum(to_arr(a) != 0 if to_arr(a)._kind != "b" else a, axis=axis)
    def mean(self, a, axis=None, **kw):
        a = to_arr(a)
        if axis is not None:
            return _axis(a, axis, self.mean, "f")
        if a.comp is not None:
            cc = a.comp[0]
            cnt = mk_sum(cc.dom, lambda *d: Sym(z3.If(cc.mask(*d), z3.RealVal(1), z3.RealVal(0))))
            E.assume(z3.ToReal(cc.n) == cnt)
        return self.sum(a.astype("f")) / Sym(z3.ToReal(zi(a.size)))
    def repeat(self, a, repeats, axis=None, **k):
        a = to_arr(a)
        n = conc(repeats)
        if n is None or axis not in (None, 0) or a.ndim != 1:
            raise Unsupported("np.repeat of this kind")
        e = a.snapshot()
        return Arr((a.shape[0] * n if not isinstance(a.shape[0], int) else a.shape[0] * n,), lambda k: e(k / n), a._kind)

    def _ext(self, a, sign, name):
        a = to_arr(a)
        if E.ghost.get('loose_ext') and a._kind == 'f':
            return Sym(E.fresh(name, z3.RealSort()))
        dom, mask, g = domain(a)
        integral = a._kind != "f"
        n = conc(a.shape[0]) if a.ndim == 1 and a.comp is None else None
        if n is not None and 1 <= n <= 4 and not integral:
            vs = [a.get(i) for i in range(n)]
            if not all(core.finite_plain(v) for v in vs):
                r = vs[0].num().e
                for v in vs[1:]:
                    x = v.num().e
                    r = z3.If(x > r if sign > 0 else x < r, x, r)
                if any(not z3.is_true(z3.simplify(core.infi(v) == 0)) for v in vs):
                    raise Unsupported(f"{name} of possibly infinite values")
                return Sym(r, nan=Or(*[core.nanb(v) for v in vs]))

        def num(v):
            if not core.finite_plain(v):
                raise Unsupported(f"{name} of possibly non-finite values")
            return v.num().e

        def make():
            M = E.fresh(name, z3.IntSort() if integral else z3.RealSort())
            w = [E.fresh(name + "w", z3.IntSort()) for _ in dom]
            ne = self.size_pos(a)

            def facts():
                E.assume(z3.Implies(ne, And(box(w, dom), mask(*w), num(g(*w)) == M)))
                E.point(*w, dom=dom)
                E.universal(len(dom), lambda *d: z3.Implies(And(box(d, dom), mask(*d)), num(g(*d)) <= M if sign > 0 else num(g(*d)) >= M), dom=dom)
                if E.ghost.get("nonneg_sums") and sign > 0 and E.provable(M >= 0, 500):
                    E.assume(M >= 0)
                    E.keep.append(M)
                    E.ghost.setdefault("nonneg_terms", set()).add(M.get_id())
            return Sym(M), facts
        return keyed(name, dom, lambda *d: [mask(*d), num(g(*d))], make)
    def size_pos(self, a):
        return zi(a.size) > 0
    def max(self, a, axis=None, **kw):
        if axis is not None:
            return _axis(to_arr(a), axis, self.max, to_arr(a)._kind)
        return self._ext(a, 1, "max")
    def min(self, a, axis=None, **kw):
        if axis is not None:
            return _axis(to_arr(a), axis, self.min, to_arr(a)._kind)
        return self._ext(a, -1, "min")
    amax, amin = max, min
    def _arg(self, a, sign, name):
        """First position of the extreme value of a 1-d array."""
        a = to_arr(a)
        if a.ndim != 1:
            raise Unsupported(f"{name} of several axes")
        e = a.snapshot()
        n = a.shape[0]
        c = conc(n)
        better = (lambda x, y: x < y) if sign < 0 else (lambda x, y: x > y)
        if c is not None and c <= 6:
            bi, bv = lift(0), e(z3.IntVal(0))
            for t in range(1, c):
                v = e(z3.IntVal(t))
                cnd = better(v, bv)
                bi, bv = ite(cnd, lift(t), bi), ite(cnd, v, bv)
            return bi

        def make():
            w = E.fresh(name, z3.IntSort())

            def facts():
                E.assume(z3.Implies(zi(n) > 0, inb(w, n)))
                E.universal(1, lambda d: z3.Implies(inb(d, n), And(Not(better(e(d), e(w)).e), z3.Implies(d < w, better(e(w), e(d)).e))), dom=(n,))
            return Sym(w), facts
        return keyed(name, (n,), lambda d: [x for x in (e(d).e,) ], make)
    def argmin(self, a, axis=None, **kw):
        if axis is not None and to_arr(a).ndim > 1:
            return _axis(to_arr(a), axis, self.argmin, "i")
        return self._arg(a, -1, "argmin")
    def argmax(self, a, axis=None, **kw):
        if axis is not None and to_arr(a).ndim > 1:
            return _axis(to_arr(a), axis, self.argmax, "i")
        a = to_arr(a)
        return self._arg(a.astype("i") if a._kind == "b" else a, 1, "argmax")

    # ---- sets
    def unique(self, a, return_counts=False, return_inverse=False, return_index=False, axis=None):
        a = to_arr(a)
        if axis == 0 and a.ndim == 2 and conc(a.shape[1]) is not None and not (return_counts or return_index):
            return self._unique_rows(a, return_inverse)
        if axis is not None or return_index:
            raise Unsupported("np.unique with axis")
        if getattr(a, "cat_parts", None) and a._kind == "i" and not (return_counts or return_inverse):
            return self._unique_union(a.cat_parts)
        E.dep("np.unique: strictly increasing, exactly the occurring values, counts = number of occurrences, inverse = position of each element's value")
        dom, mask, g = domain(a)
        so = z3.RealSort() if a._kind == "f" else z3.IntSort()
        val = lambda *d: g(*d).num().e if a._kind != "f" else zr(g(*d))

        def make():
            n = E.fresh("nuniq", z3.IntSort())
            U = E.fresh_fun("uniq", [z3.IntSort()], so)
            pos = E.fresh_fun("upos", [so], z3.IntSort())
            W = [E.fresh_fun("uwit", [z3.IntSort()], z3.IntSort()) for _ in dom]

            def at(k):
                w = [f(k) for f in W]
                if E.pdepth <= 1 and not core.probe(k):
                    E.point(*w, dom=dom)
                E.assume(z3.Implies(And(k >= 0, k < n), And(box(w, dom), mask(*w), val(*w) == U(k), pos(U(k)) == k)))
                return U(k)
            ks = []

            def el(k):
                k = arr.ix(k)
                v = at(k)
                for k2 in ks if not E.ghost.get("no_order") else ():
                    if not k2.eq(k):
                        E.assume(z3.Implies(And(0 <= k, k < k2, k2 < n), v < U(k2)))
                        E.assume(z3.Implies(And(0 <= k2, k2 < k, k < n), U(k2) < v))
                if not any(k2.eq(k) for k2 in ks):
                    ks.append(k)
                return Sym(v)

            def fact(*d):
                v = val(*d)
                p = pos(v)
                if E.pdepth <= 1 and not core.probe(p):
                    E.point(p, dom=(n,))
                return z3.Implies(And(box(d, dom), mask(*d)), And(p >= 0, p < n, U(p) == v))

            def facts():
                E.assume(n >= 0)
                E.universal(len(dom), fact, dom=dom)
                if so == z3.IntSort() and E.ghost.get("distinct_bound"):
                    E.assume(z3.Implies(n >= 1, at(n - 1) - at(z3.IntVal(0)) >= n - 1))     # strictly increasing integers
            return (n, el, pos, fact), facts
        n, el, pos, fact = keyed("unique", dom, lambda *d: [mask(*d), val(*d)], make)
        U = Arr((Sym(n),), el, a._kind)
        U.sorted_unique = True
        U.upos = pos
        E.keep.append(n)
        E.ghost.setdefault("unique_by_size", {})[z3.simplify(n).get_id()] = U
        out = [U]
        if return_inverse:
            def inv(*d):
                m = E.mark()
                E.assume(fact(*d))
                return Sym(pos(val(*d)))
            if a.comp is not None:
                cc = a.comp[0]
                ge = a.snapshot()
                out.append(Arr(a.shape, lambda k: inv(*cc.pos(k)), "i", (cc, lambda *d: inv(*d))))
            else:
                out.append(Arr(a.shape, lambda *i: inv(*i), "i"))
        if return_counts:
            def cnt(k):
                k = arr.ix(k)
                u = el(k).e
                s = mk_sum(dom, lambda *d: Sym(z3.If(And(mask(*d), val(*d) == u), z3.RealVal(1), z3.RealVal(0))))
                E.sumfact(z3.IsInt(s))
                E.assume(z3.Implies(And(k >= 0, k < n), s >= 1))
                return Sym(z3.ToInt(s))
            out.append(Arr((Sym(n),), cnt, "i"))
        return out[0] if len(out) == 1 else tuple(out)
    def _unique_union(self, parts):
        """Distinct values of several integer sequences taken together."""
        E.dep("np.unique: strictly increasing, exactly the occurring values")
        I = z3.IntSort()
        n = E.fresh("nuniq", I)
        U, pos, src = E.fresh_fun("uniq", [I], I), E.fresh_fun("upos", [I], I), E.fresh_fun("usrc", [I], I)
        doms = [domain(p) for p in parts]
        W = [[E.fresh_fun("uwit", [I], I) for _ in d[0]] for d in doms]
        E.assume(n >= 0)
        ks = []

        def el(k):
            k = arr.ix(k)
            v = U(k)
            if not any(k2.eq(k) for k2 in ks) and not core.probe(k, ("?p", "?r")):
                for k2 in ks if not E.ghost.get("no_order") else ():
                    E.assume(z3.Implies(And(0 <= k, k < k2, k2 < n), v < U(k2)))
                    E.assume(z3.Implies(And(0 <= k2, k2 < k, k < n), U(k2) < v))
                ks.append(k)
            alts = []
            for q, ((dom, mask, g), w) in enumerate(zip(doms, W)):
                w = [f(k) for f in w]
                if E.pdepth <= 1 and not core.probe(k):
                    E.point(*w, dom=dom)
                alts.append(And(src(k) == q, box(w, dom), mask(*w), g(*w).num().e == v))
            E.assume(z3.Implies(And(k >= 0, k < n), And(Or(*alts), pos(v) == k)))
            return Sym(v)

        def part(dom, mask, g):
            def fact(*d):
                v = g(*d).num().e
                p = pos(v)
                if E.pdepth <= 1 and not core.probe(p):
                    E.point(p, dom=(n,))
                return z3.Implies(And(box(d, dom), mask(*d)), And(p >= 0, p < n, U(p) == v))
            E.universal(len(dom), fact, dom=dom)
        for dom, mask, g in doms:
            part(dom, mask, g)
        R = Arr((Sym(n),), el, "i")
        R.sorted_unique = True
        R.upos = pos
        E.keep.append(n)
        E.ghost.setdefault("unique_by_size", {})[z3.simplify(n).get_id()] = R
        return R

    def _unique_rows(self, a, inverse=False):
        """Distinct rows of an (m, c) array, in lexicographic order."""
        E.dep("np.unique(axis=0): exactly the occurring rows, once each, in lexicographic order")
        c = conc(a.shape[1])
        cols = [a[:, j] for j in range(c)]
        rc = getattr(a, "row_comp", None)
        dom, mask, g = domain(rc[0]) if rc else domain(cols[0])
        if rc:
            gs = [domain(x)[2] for x in rc]
        else:
            gs = [(lambda x: lambda d: x.get(d))(x) for x in cols]
            mask = lambda d: z3.BoolVal(True)
        row = lambda d: [(core.zr(h(*d)) if a._kind == "f" else h(*d).num().e) for h in gs]
        so = z3.RealSort() if a._kind == "f" else z3.IntSort()
        n = E.fresh("nrows", z3.IntSort())
        U = [E.fresh_fun("urow", [z3.IntSort()], so) for _ in range(c)]
        pos = E.fresh_fun("urpos", [so] * c, z3.IntSort())
        W = [E.fresh_fun("urwit", [z3.IntSort()], z3.IntSort()) for _ in dom]
        E.assume(n >= 0)
        ks = []

        def el(k, j):
            k = arr.ix(k)
            w = [f(k) for f in W]
            v = [u(k) for u in U]
            if not any(x.eq(k) for x in ks):
                for k2 in ks:
                    v2 = [u(k2) for u in U]
                    E.assume(z3.Implies(And(0 <= k, k < k2, k2 < n), arr.lex_lt(v, v2)))
                    E.assume(z3.Implies(And(0 <= k2, k2 < k, k < n), arr.lex_lt(v2, v)))
                ks.append(k)
            if E.pdepth <= 1 and not core.probe(k):
                E.point(*w, dom=dom)
            E.assume(z3.Implies(And(k >= 0, k < n), And(box(w, dom), mask(*w), pos(*v) == k, *[x == y for x, y in zip(row(w), v)])))
            j = conc(j)
            if j is None:
                raise Unsupported("a row column chosen symbolically")
            return Sym(v[j])

        def fact(*d):
            v = row(d)
            p = pos(*v)
            if E.pdepth <= 1 and not core.probe(p):
                E.point(p, dom=(n,))
            return z3.Implies(And(box(d, dom), mask(*d)), And(p >= 0, p < n, *[u(p) == x for u, x in zip(U, v)]))
        E.universal(len(dom), fact, dom=dom)
        R = Arr((Sym(n), c), el, a._kind)
        R.row_pos = lambda *v: pos(*v)
        R.row_fact = fact
        E.ghost["last_unique_rows"] = R
        if not inverse:
            return R
        if rc:
            raise Unsupported("np.unique(axis=0, return_inverse) of a selection")

        def inv(d):
            E.assume(fact(d))
            return Sym(pos(*row([d])))
        return R, Arr((a.shape[0],), inv, "i")

    def _searchsorted_left(self, a, v, side="left", sorter=None):
        a = to_arr(a)
        if side != "left" or sorter is not None or not getattr(a, "sorted_unique", False):
            raise Unsupported("np.searchsorted of this")
        E.dep("np.searchsorted in an increasing array: the first position whose value is not below")
        n = zi(a.shape[0])
        so = z3.RealSort() if a._kind == "f" else z3.IntSort()
        ss = E.fresh_fun("ss", [so], z3.IntSort())
        val = lambda x: zr(x) if a._kind == "f" else lift(x).num().e

        def one(x):
            x = val(x)
            r, q = ss(x), a.upos(x)
            E.assume(And(r >= 0, r <= n, z3.Implies(r < n, val(a.get(r)) >= x), z3.Implies(r > 0, val(a.get(r - 1)) < x),
                         z3.Implies(And(q >= 0, q < n, val(a.get(q)) == x), r == q)))
            return Sym(r)
        if not isinstance(v, Arr):
            return one(v)
        if v.comp is not None:
            cc, g = v.comp
            e = v.snapshot()
            return Arr(v.shape, lambda k: one(e(k)), "i", (cc, lambda *d: one(g(*d))))
        e = v.snapshot()
        return Arr(v.shape, lambda *i: one(e(*i)), "i")

    def isin(self, a, b, **kw):
        b = to_arr(b)
        h = member(b)
        if isinstance(a, Arr):
            return a.map(lambda v: Sym(h(v)), "b")
        return Sym(h(lift(a)))
    in1d = isin

    # ---- joining
    def column_stack(self, parts):
        parts = [to_arr(p) for p in parts]
        if any(p.ndim == 2 for p in parts):
            flat = []
            for p in parts:
                if p.ndim == 2 and conc(p.shape[1]) is None:
                    raise Unsupported("column_stack of arrays of unknown width")
                flat += [p] if p.ndim == 1 else [p[:, j] for j in range(conc(p.shape[1]))]
            parts = flat
        r = arr.stack(parts, axis=1)
        if all(p.comp is not None and p.comp[0] is parts[0].comp[0] for p in parts):
            r.row_comp = parts
        return r
    def stack(self, parts, axis=0): return arr.stack([to_arr(p) for p in parts], axis)
    def concatenate(self, parts, axis=0, dtype=None, **kw):
        if isinstance(parts, Ragged):
            return parts.concat()
        parts = [to_arr(p) for p in parts]
        if axis != 0:
            raise Unsupported("concatenate along another axis")
        es = [p.snapshot() for p in parts]
        k = parts[0]._kind
        offs = [z3.IntVal(0)]
        for p in parts:
            k = arr._kind_join(k, p._kind)
            offs.append(z3.simplify(offs[-1] + zi(p.shape[0])))

        def el(i, *r):
            out = cast(es[-1](z3.simplify(i - offs[len(es) - 1]), *r), k)
            for t in range(len(es) - 2, -1, -1):
                c = z3.simplify(i < offs[t + 1])
                if z3.is_true(c):
                    out = cast(es[t](z3.simplify(i - offs[t]), *r), k)
                elif not z3.is_false(c):
                    out = ite(Sym(c), cast(es[t](z3.simplify(i - offs[t]), *r), k), out)
            return out
        R = Arr((arr._pyint(offs[-1]),) + tuple(parts[0].shape[1:]), el, k)
        if all(p.ndim == 1 for p in parts):
            R.cat_parts = [Arr(p.shape, p.snapshot(), p._kind, p.comp) for p in parts]
        return R
    def append(self, a, b):
        b = to_arr(b)
        return self.concatenate([to_arr(a), b if b.ndim else b[None]])
    def diff(self, a):
        a = to_arr(a)
        e = a.snapshot()
        return Arr((arr._pyint(zi(a.shape[0]) - 1),), lambda i: e(z3.simplify(i + 1)) - e(i), a._kind)
    def expand_dims(self, a, ax):
        a = to_arr(a)
        key = [slice(None)] * a.ndim
        key.insert(ax % (a.ndim + 1), None)
        return a[tuple(key)]
    def errstate(self, **k):
        from .load import Silent
        return Silent()
    def ndim(self, a): return to_arr(a).ndim
    def shape(self, a): return to_arr(a).shape
    def issubdtype(self, a, b):
        return kind_of(a.kind if isinstance(a, DType) else a) == kind_of(b)
    def isscalar(self, x): return not isinstance(x, Arr)
    def prod(self, a, **k):
        if isinstance(a, (list, tuple)):
            r = lift(1)
            for x in a:
                r = r * x
            return r
        raise Unsupported("np.prod")
    def nanpercentile(self, a, q, **k):
        from . import xrm
        if isinstance(q, (list, tuple)):
            return self.array([self.nanpercentile(a, x, **k) for x in q])
        return xrm.functional("nanpercentile", [zr(lift(q))], to_arr(a))
    def nanquantile(self, a, q, **k):
        from . import xrm
        return xrm.functional("nanpercentile", [zr(lift(q)) * 100], to_arr(a))
    def nanmax(self, a, **k):
        from . import xrm
        return xrm.functional("max", [], to_arr(a))
    def nanmin(self, a, **k):
        from . import xrm
        return xrm.functional("min", [], to_arr(a))
    def cumsum(self, a, axis=None, dtype=None, **k):
        a = to_arr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("cumsum of a flattened array")
            axis = 0
        axis = axis % a.ndim
        e = a.snapshot()
        kd = "f" if a._kind == "f" else "i"
        E.dep("cumsum is the running sum")

        def el(*i):
            n = z3.simplify(i[axis] + 1)
            s = core.mk_sum((Sym(n),), lambda t: e(*i[:axis], t, *i[axis + 1:]).num())
            if kd == "i":
                E.sumfact(z3.IsInt(s))
                return Sym(z3.ToInt(s))
            return Sym(s)
        return Arr(a.shape, el, kd)
    def searchsorted(self, a, v, side="left", **k):
        if side == "left" and getattr(to_arr(a), "sorted_unique", False):
            return self._searchsorted_left(a, v, side, **k)
        """First index whose element is > v (right) or >= v (left); a must be sorted (obligation of the caller is not checked: binary search = linear search on sorted input)."""
        a = to_arr(a)
        if a.ndim != 1 or isinstance(v, Arr) and v.ndim:
            raise Unsupported("np.searchsorted")
        n = zi(a.shape[0])
        e = a.snapshot()
        v = lift(v) if not isinstance(v, Arr) else v.get()
        past = (lambda x: (x > v).e) if side == "right" else (lambda x: (x >= v).e)
        E.dep("np.searchsorted on a sorted array finds the first position past the value")

        def make():
            r = E.fresh("ss", z3.IntSort())

            def facts():
                E.assume(And(r >= 0, r <= n, z3.Implies(r < n, past(e(r))), z3.Implies(r > 0, Not(past(e(r - 1))))))
                E.point(r, dom=(a.shape[0],))
                E.universal(1, lambda d: z3.Implies(And(d >= 0, d < r), Not(past(e(d)))), dom=(a.shape[0],))
            return Sym(r), facts
        return keyed("ss" + side, [a.shape[0]], lambda d: [past(e(d))], make)
    def digitize(self, x, bins, right=False):
        """Number of bin edges <= x (x >= edge), bins increasing; NaN sorts after every edge."""
        b = to_arr(bins)
        if right:
            raise Unsupported("digitize(right=True)")
        E.dep("np.digitize(x, edges): edges[r-1] <= x < edges[r] (edges increasing), NaN gives len(edges)")
        return self._el(x, lambda v: digit(v, b), "i")
    def percentile(self, a, q, **k):
        a = to_arr(a)
        dom, mask, g = domain(a)
        E.dep("np.percentile(a, q) is a value determined by a and q, between min and max")
        E.inexact.add("percentile")
        qv = zr(q)

        def make():
            P = E.fresh("percentile", z3.RealSort())
            return Sym(P), (lambda: None)
        return keyed("percentile", dom, lambda *d: [mask(*d), zr(g(*d)), qv], make)


def sliding_window_view(a, w, axis=None, **k):
    a = to_arr(a)
    axis = axis % a.ndim
    w = zi(lift(w))
    e = a.snapshot()
    sh = list(a.shape)
    sh[axis] = arr._pyint(zi(sh[axis]) - w + 1)
    return Arr(sh + [arr._pyint(w)], lambda *i: e(*i[:axis], i[axis] + i[-1], *i[axis + 1:-1]), a._kind)


def edge_points(n, *js):
    """Positions at which the order of a value and a bin edge is wanted (postconditions about bins)."""
    E.ghost.setdefault("edgepts", []).extend(js)


def digit(v, b):
    n = zi(b.shape[0])
    D = E.ghost.setdefault("digit", {})
    v = lift(v)
    key = (z3.simplify(v.e).get_id(), z3.simplify(core.nanb(v)).get_id(), id(b))
    E.keep.extend([z3.simplify(v.e), z3.simplify(core.nanb(v)), b])
    if key not in D:
        D[key] = E.fresh("digit", z3.IntSort())
    r = D[key]
    nb = core.nanb(v)
    E.assume(And(r >= 0, r <= n, z3.Implies(nb, r == n), z3.Implies(And(Not(nb), r > 0), (b.get(r - 1) <= v).e), z3.Implies(And(Not(nb), r < n), (b.get(r) > v).e)))
    for d in E.ghost.get("edgepts", ()):
        E.assume(z3.Implies(And(d >= 0, d < n, Not(nb)), (d < r) == (b.get(d) <= v).e))
    return Sym(D[key])


def member(b):
    """x occurs in array b (numeric)."""
    dom, mask, g = domain(b)
    c = conc(b.shape[0]) if b.ndim == 1 else None
    e = b.snapshot()
    if c is not None and c <= 5 and b.ndim == 1:
        return lambda v: Or(*[(v == e(z3.IntVal(t))).e for t in range(c)])
    so = z3.RealSort() if b._kind == "f" else z3.IntSort()
    val = (lambda *d: zr(g(*d))) if b._kind == "f" else (lambda *d: g(*d).num().e)

    def make():
        M = E.fresh_fun("member", [so], z3.BoolSort())
        W = [E.fresh_fun("memw", [so], z3.IntSort()) for _ in dom]

        def facts():
            E.universal(len(dom), lambda *d: z3.Implies(And(box(d, dom), mask(*d)), M(val(*d))), dom=dom)

        def test(v):
            v = lift(v).num()
            x = zr(v) if b._kind == "f" else (v.e if v.kind == "i" else None)
            if x is None:
                # a real is a member of an integer array only if integral
                x = z3.ToInt(v.e)
                w = [f(x) for f in W]
                E.assume(z3.Implies(M(x), And(box(w, dom), mask(*w), val(*w) == x)))
                return And(z3.IsInt(v.e), M(x))
            w = [f(x) for f in W]
            E.assume(z3.Implies(M(x), And(box(w, dom), mask(*w), val(*w) == x)))
            return M(x)
        return test, facts
    return keyed("member", dom, lambda *d: [mask(*d), val(*d)], make)


def _le_or_nan(x, y):
    return Sym(Or((x <= y).e, core.nanb(lift(x))))


def _sh(s):
    if isinstance(s, (tuple, list)):
        return tuple(_one(x) for x in s)
    return (_one(s),)


def _one(x):
    c = conc(x)
    return c if c is not None else lift(x)


def _kd(t):
    if isinstance(t, DType):
        return t.kind
    if isinstance(t, _Scalar):
        return t.kind
    return kind_of(t)


def _bin(a, b, f):
    if getattr(a, '_is_da', False):
        return a._bin(b, f)
    if getattr(b, '_is_da', False):
        return b._bin(a, lambda x, y: f(y, x))
    if isinstance(a, Arr):
        return arr.broadcast2(a, b, f)
    if isinstance(b, Arr):
        return arr.broadcast2(b, a, lambda x, y: f(y, x))
    return lift(f(lift(a), lift(b)))


PI = z3.Real("pi")


def _deg2rad(v):
    E.assume(And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
    return Sym(zr(v) * PI / 180)


def _rad2deg(v):
    E.assume(And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
    return Sym(zr(v) * 180 / PI)


def _axis(a, axis, f, kind):
    axs = tuple(x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
    keep = [x for x in range(a.ndim) if x not in axs]
    e = a.snapshot()
    if not keep:
        return f(Arr(a.shape, e, a._kind))
    sub_shape = [a.shape[x] for x in axs]

    def el(*i):
        def se(*r):
            full = [None] * a.ndim
            for x, v in zip(keep, i):
                full[x] = v
            for x, v in zip(axs, r):
                full[x] = v
            return e(*full)
        return lift(f(Arr(sub_shape, se, a._kind)))
    return Arr([a.shape[x] for x in keep], el, kind)


np = NP()


# ------------------------------------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, Arr):
        c = conc(x.shape[0])
        return c if c is not None else x.shape[0]
    if isinstance(x, arr.SymList):
        return x.n
    if hasattr(x, "_sym_len"):
        return x._sym_len()
    return len(x)


def b_int(x=0, *a):
    if isinstance(x, Arr):
        x = x.item()
    if getattr(x, "_is_da", False):
        x = x.item()
    return cast(x, "i") if isinstance(x, Sym) else int(x, *a)


def b_float(x=0.0):
    if isinstance(x, Arr) or getattr(x, "_is_da", False):
        x = x.item()
    return cast(x, "f") if isinstance(x, Sym) else float(x)


def b_bool(x=False):
    if isinstance(x, Arr) or getattr(x, "_is_da", False):
        x = x.item()
    if isinstance(x, Sym):
        return x if x.kind == "b" else x != 0
    return bool(x)


def b_abs(x):
    return abs(x)


def _mm(args, key, le):
    if len(args) == 1:
        args = list(args[0])
    if key is not None:
        if any(isinstance(key(x), (Sym, Arr)) for x in args):
            raise Unsupported("min/max with a symbolic key")
        r = args[0]
        for x in args[1:]:
            r = r if le(key(r), key(x)) else x
        return r
    r = args[0]
    for x in args[1:]:
        if isinstance(r, (Sym,)) or isinstance(x, Sym):
            r = ite(le(lift(r), lift(x)), r, x)
        else:
            r = r if bool(le(r, x)) else x
    return r


def b_min(*a, key=None, **k):
    return _mm(a, key, lambda r, x: r <= x)


def b_max(*a, key=None, **k):
    return _mm(a, key, lambda r, x: r >= x)


def b_sum(x, start=0):
    r = start
    if isinstance(x, (core.RepList, core.RepThen)):
        r = r + lift(x.v) * x.n
        x = getattr(x, "more", ())
    for v in x:
        r = r + v
    return r


def b_round(x, n=None):
    if isinstance(x, Sym):
        return cast(np.round(x), "i") if n is None else np.round(x, n)
    return round(x, n) if n is not None else round(x)


def b_any(it):
    out = [x for x in it]
    if any(isinstance(x, Sym) for x in out):
        return Sym(Or(*[lift(x).e for x in out]))
    return any(out)


def b_all(it):
    out = [x for x in it]
    if any(isinstance(x, Sym) for x in out):
        return Sym(And(*[lift(x).e for x in out]))
    return all(out)


def b_in(x, seq):
    if hasattr(seq, "_member"):
        return seq._member(x)
    if isinstance(seq, Arr):
        return np.isin(x, seq)
    if isinstance(seq, dict) or isinstance(seq, str):
        if isinstance(x, core.SymStr):
            return Sym(Or(*[(x == k).e for k in seq])) if isinstance(seq, dict) else x in seq
        return x in seq
    if isinstance(seq, (list, tuple, set, frozenset)) or type(seq).__name__ in ("dict_keys", "dict_values"):
        r = []
        for y in seq:
            q = x == y
            if isinstance(q, Sym):
                r.append(q.e)
            elif q is True:
                return True
        return Sym(Or(*r)) if r else False
    return x in seq


class SymSet:
    """set(symbolic array)"""

    def __init__(self, a):
        self.m = member(to_arr(a))

    def _member(self, x):
        return Sym(self.m(lift(x)))


def b_set(x=()):
    if isinstance(x, Arr) and conc(x.shape[0]) is None:
        return SymSet(x)
    x = list(x)
    if any(isinstance(v, Sym) for v in x):
        out = SmallSet()
        for v in x:
            if not any(bool(lift(v) == w) for w in out):
                out.append(v)
        return out
    return set(x)


class SmallSet(list):
    """A set of a few symbolic values: its distinct elements (decided on each path)."""


def nth(x, k):
    """The k-th element of an iteration over an array."""
    k = zi(k)
    if x.ndim == 1:
        return x.get(k)
    m = E.mark()
    try:
        E.assume(k >= 0)
        return x[Sym(k)]
    finally:
        E.rollback(m)


def b_comp(f, it):
    from . import loop
    if isinstance(it, loop.Range):
        return arr.SymList(Sym(it.b - it.a), lambda k: f(Sym(it.a + zi(k))))
    if isinstance(it, Arr) and conc(it.shape[0]) is None:
        return arr.SymList(it.shape[0], lambda k: f(nth(it, k)))
    if isinstance(it, loop.Zip):
        return arr.SymList(it.n, lambda k: f(it.at(zi(k))))
    if isinstance(it, arr.SymList):
        return arr.SymList(it.n, lambda k: f(it.f(zi(k))))
    if isinstance(it, arr.RecList) and it.long is not None:
        return arr.SymList(*it.long.comp(f))
    return [f(x) for x in it]


def b_enumerate(x, start=0):
    from . import loop
    if isinstance(x, Arr) and conc(x.shape[0]) is None:
        return loop.Zip(x.shape[0], lambda k: (Sym(k) + start, nth(x, k)))
    if isinstance(x, loop.Zip):
        return loop.Zip(x.n, lambda k: (Sym(k) + start, x.at(k)))
    if isinstance(x, loop.Range):
        return loop.Zip(Sym(x.b - x.a), lambda k: (Sym(k) + start, Sym(x.a + zi(k))))
    return enumerate(x, start)


def b_zip(*xs):
    from . import loop
    if any(isinstance(x, Arr) and conc(x.shape[0]) is None for x in xs):
        return loop.Zip(xs[0].shape[0], lambda k: tuple(nth(x, k) for x in xs))
    if xs and all(hasattr(x, "isel") and len(x.dims) == 1 for x in xs) and conc(xs[0].sizes[xs[0].dims[0]]) is None:
        return loop.Zip(xs[0].sizes[xs[0].dims[0]], lambda k: tuple(x.isel({x.dims[0]: Sym(zi(k))}) for x in xs))
    return zip(*xs)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if c in (int, b_int) or getattr(c, "__name__", "") in ("int64", "integer", "int32"):
            if isinstance(x, Sym) and x.kind == "i":
                return True
            if isinstance(x, int):
                return True
        elif c in (float, b_float) or getattr(c, "__name__", "") in ("float64", "float32", "floating"):
            if isinstance(x, Sym) and x.kind == "f":
                return True
            if isinstance(x, float):
                return True
        elif c is bool or c is b_bool:
            if isinstance(x, Sym) and x.kind == "b" or isinstance(x, bool):
                return True
        elif c is str:
            if isinstance(x, (str, core.SymStr)):
                return True
        elif c is b_set:
            if isinstance(x, (set, SymSet)):
                return True
        elif isinstance(c, _Scalar):
            if isinstance(x, Sym) and x.kind == c.kind:
                return True
        elif hasattr(c, "_instance_of"):
            if c._instance_of(x):
                return True
        else:
            try:
                if isinstance(x, c):
                    return True
            except TypeError:
                raise Unsupported(f"isinstance(.., {c})")
    return False


def b_str(x=""):
    return x if isinstance(x, core.SymStr) else str(x)


def b_list(x=()):
    if x == ():
        return arr.RecList()
    if isinstance(x, arr.SymList):
        return x
    from . import loop
    if isinstance(x, loop.Zip):
        return arr.SymList(x.n, lambda k: x.at(zi(k)))
    return list(x)


def b_hasattr(x, a):
    try:
        getattr(x, a)
        return True
    except AttributeError:
        return False
    except Unsupported:
        raise


def _symb(x):
    return isinstance(x, Sym) and x.kind == "b"


def b_and(a, f):
    if _symb(a):
        if E.provable(a.e):
            return f()
        if E.provable(Not(a.e)):
            return a
        b = f()
        if _symb(b) or isinstance(b, bool):
            return Sym(And(a.e, lift(b).e))
        return b if a else a
    return a if not a else f()


def b_or(a, f):
    if _symb(a):
        if E.provable(Not(a.e)):
            return f()
        if E.provable(a.e):
            return a
        b = f()
        if _symb(b) or isinstance(b, bool):
            return Sym(Or(a.e, lift(b).e))
        return a if a else b
    return a if a else f()


def b_not(a):
    return Sym(Not(a.e)) if _symb(a) else (not a)


def b_ifexp(c, f, g):
    if _symb(c):
        if E.provable(c.e):
            return f()
        if E.provable(Not(c.e)):
            return g()
        num = lambda v: isinstance(v, (Sym, int, float)) and not isinstance(v, str)
        a, b = f(), g()
        if num(a) and num(b):
            return ite(c, a, b)
        return a if c else b
    return f() if c else g()


def _maps():
    from . import maps
    return maps


SHADOW = {"_pv_list": arr.RecList, "_pv_and": b_and, "_pv_or": b_or, "_pv_not": b_not, "_pv_ifexp": b_ifexp, "len": b_len, "int": b_int, "float": b_float, "bool": b_bool, "abs": b_abs, "min": b_min, "max": b_max, "sum": b_sum, "round": b_round, "any": b_any, "all": b_all,
          "_pv_in": b_in, "_pv_comp": b_comp, "_pv_dict": lambda *a, **k: _maps().PvDict(*a, **k), "_pv_dictcomp": lambda f, it: _maps().dictcomp(f, it), "_pv_compif": lambda f, c, it: _maps().compif(f, c, it), "set": b_set, "enumerate": b_enumerate, "zip": b_zip, "isinstance": b_isinstance, "list": b_list, "print": lambda *a, **k: None}
