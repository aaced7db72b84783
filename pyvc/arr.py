"""Symbolic n-d arrays: symbolic shape, element closure, views, boolean compression."""
import z3
from . import core
from .core import Sym, Unsupported, And, Or, Not, If, lift, zi, zr, zb, ite, cast, kind_of, compare, arith, logic, same
E = core.E


def ix(x):
    return z3.simplify(zi(x))


def inb(i, n):
    return And(0 <= zi(i), zi(i) < zi(n))


def conc(n):
    """Python int of a concrete size, else None."""
    if isinstance(n, int):
        return n
    s = z3.simplify(zi(n))
    return s.as_long() if z3.is_int_value(s) else None


def same_size(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    rs = E.ghost.get("ranges")
    if rs:                                  # inside a function mapped over slices: for slices that exist
        return E.provable(z3.Implies(And(*rs), zi(a) == zi(b)))
    return E.provable(zi(a) == zi(b))


def _kind_join(a, b):
    return "f" if "f" in (a, b) else ("i" if "i" in (a, b) else "b")


class DType:
    def __init__(self, kind):
        self.kind = kind
        self.name = {"b": "bool", "i": "int64", "f": "float64", "o": "object"}[kind]
        self.__name__ = self.name

    def __eq__(self, o):
        try:
            if isinstance(o, DType):
                return self.kind == o.kind
            return kind_of(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return self.name


class Comp:
    """A boolean selection of a domain: positions p(k), number n, rank r(d)."""
    cache = {}

    def __init__(self, dom, mask):
        self.dom = tuple(dom)              # sizes
        self.mask = mask                   # fn(*d) -> z3 Bool   (in-domain d)
        nd = len(self.dom)
        self.n = E.fresh("nsel", z3.IntSort())
        self.pf = [E.fresh_fun(f"sel{i}", [z3.IntSort()], z3.IntSort()) for i in range(nd)]
        self.rf = E.fresh_fun("rank", [z3.IntSort()] * nd, z3.IntSort())
        E.assume(self.n >= 0)
        self.seen_k, self.seen_d = [], []
        E.dep("np.nonzero / boolean indexing enumerate exactly the selected positions, once each, in row-major order")
        # a selection inside the domain of known length
        if nd == 1:
            E.assume(self.n <= zi(self.dom[0]))

    def pos(self, k):
        k = ix(k)
        d = tuple(f(k) for f in self.pf)
        key = k.get_id()
        if not any(x[0].get_id() == key for x in self.seen_k):
            self.seen_k.append((k, d))
        g = And(k >= 0, k < self.n)
        E.assume(z3.Implies(g, And(*[inb(a, s) for a, s in zip(d, self.dom)], self.mask(*d), self.rf(*d) == k)))
        for k2, d2 in self.seen_k:
            if k2.get_id() == key:
                continue
            g2 = And(g, k2 >= 0, k2 < self.n)
            E.assume(z3.Implies(And(g2, k < k2), lex_lt(d, d2)))
            E.assume(z3.Implies(And(g2, k2 < k), lex_lt(d2, d)))
        return d

    def rank(self, *d):
        d = tuple(ix(x) for x in d)
        r = self.rf(*d)
        g = And(*[inb(a, s) for a, s in zip(d, self.dom)], self.mask(*d))
        E.assume(z3.Implies(g, And(r >= 0, r < self.n, *[f(r) == a for f, a in zip(self.pf, d)])))
        return r


def lex_lt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(x == y, r))
    return r


def state():
    """Where the engine's fact lists end now; holds() says whether all those facts are still there."""
    return [(L, len(L), L[-1] if L else None) for L in [E.hh, E.univ, *E.points.values()]]


def holds(st):
    return all(len(L) >= n and (n == 0 or L[n - 1] is x or (isinstance(x, int) and L[n - 1] == x)) for L, n, x in st)


def memo(e):
    """Element closure that is not evaluated again while the facts its evaluation stated still hold."""
    tab = {}

    def el(*i):
        if E.writes is not None:
            return e(*i)
        i = [ix(x) for x in i]
        k = (id(E), tuple(x.get_id() for x in i), tuple(b.get_id() for b in E.binders), len(E.points))
        m = tab.get(k)
        if m is not None and holds(m[2]):
            return m[1]
        v = e(*i)
        k = k[:3] + (len(E.points),)
        tab[k] = (i, v, state())
        return v
    return el


class Arr:
    _pyvc_array = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, elem, kind, comp=None, name=None):
        self.shape = tuple(shape)
        self._elem = elem
        self._kind = kind
        self.base = None           # for views: (base Arr, map idx->base idx, inverse base idx -> (cond, idx))
        self.comp = comp           # (Comp, value fn over the domain) for 1-d compressed arrays
        self.attrs_ = {}
        self.sorted_unique = None
        self.name_ = name
        E.serial += 1
        self.serial = E.serial

    # ---- basic facts
    ndim = property(lambda self: len(self.shape))
    dtype = property(lambda self: DType(self._kind))
    kind = property(lambda self: self._kind)
    T = property(lambda self: self.transpose())
    values = property(lambda self: self)
    data = property(lambda self: self)

    @property
    def size(self):
        r = lift(1)
        for s in self.shape:
            r = r * s
        c = conc(r)
        return c if c is not None else r

    def __len__(self):
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported("len() of a symbolic array reached CPython")
        return c

    def get(self, *idx):
        assert len(idx) == self.ndim, (idx, self.shape)
        if E.writes is not None:
            E.reads.append((self.root(), self.to_root(idx)))
        return lift(self._elem(*[ix(i) for i in idx]))

    def root(self):
        return self if self.base is None else self.base[0].root()

    def to_root(self, idx):
        if self.base is None:
            return tuple(idx)
        return self.base[0].to_root(self.base[1](*idx))

    def __bool__(self):
        if self.ndim == 0 or all(conc(s) == 1 for s in self.shape):
            return bool(self.get(*[0] * self.ndim))
        raise Unsupported("truth of an array")

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"Arr{self.shape}:{self._kind}"

    def item(self):
        if all(conc(s) == 1 for s in self.shape):
            return self.get(*[0] * self.ndim)
        raise Unsupported("item() of an array")

    def snapshot(self):
        """Element closure fixed at the current content."""
        if self.base is not None:
            b, m, _ = self.base
            e = b.snapshot()
            return lambda *i: e(*m(*i))
        return self._elem

    def copy(self, *a, **k):
        r = Arr(self.shape, self.snapshot(), self._kind, self.comp)
        r.sorted_unique = self.sorted_unique
        return r

    compute = persist = load = lambda self, *a, **k: self

    def tolist(self):
        n = conc(self.shape[0])
        if n is None:
            return SymList(self.shape[0], lambda i: self[Sym(i)], self)
        return [self[i] for i in range(n)]

    def __iter__(self):
        n = conc(self.shape[0])
        if n is None:
            raise Unsupported("CPython iteration over a symbolic array")
        return iter([self[i] for i in range(n)])

    # ---- elementwise
    def map(self, f, kind=None, keep=True):
        e = self.snapshot()
        c = None
        if self.comp is not None:
            cc, g = self.comp
            c = (cc, lambda *d: lift(f(g(*d))))
        k = kind or lift(f(core.sample(self._kind))).kind
        return Arr(self.shape, lambda *i: lift(f(e(*i))), k, c)

    def astype(self, t, copy=True, **kw):
        k = kind_of(t)
        if k == "o":
            return self
        r = self.map(lambda v: cast(v, k), k)
        if k == self._kind or (self._kind == "i" and k == "f"):
            r.sorted_unique = self.sorted_unique
        return r

    def _bin(self, o, f):
        return broadcast2(self, o, f)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: b // a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._bin(o, lambda a, b: b % a)
    def __pow__(self, o): return self.map(lambda a: a ** o)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(core.absv)
    def __invert__(self):
        if self._kind != "b":
            raise Unsupported("~ on numbers")
        return self.map(lambda a: ~a, "b")
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None:
            return False
        return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o):
        if o is None:
            return True
        return self._bin(o, lambda a, b: a != b)
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)

    def _iop(self, o, op):
        r = op(self, o)
        self[tuple(slice(None) for _ in self.shape)] = r
        return self
    def __iadd__(self, o): return self._iop(o, lambda a, b: a + b)
    def __isub__(self, o): return self._iop(o, lambda a, b: a - b)
    def __imul__(self, o): return self._iop(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._iop(o, lambda a, b: a / b)
    def __ior__(self, o): return self._iop(o, lambda a, b: a | b)
    def __iand__(self, o): return self._iop(o, lambda a, b: a & b)

    # ---- shape
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        ax = ax or tuple(reversed(range(self.ndim)))
        inv = [ax.index(i) for i in range(self.ndim)]
        to = lambda *i: tuple(i[inv[j]] for j in range(self.ndim))
        fr = lambda *b: (z3.BoolVal(True), tuple(b[a] for a in ax))
        return view(self, [self.shape[a] for a in ax], to, fr)

    def ravel(self):
        if self.ndim == 1:
            return self
        try:
            return self.reshape(-1)
        except Unsupported:
            pass
        e = self.snapshot()
        tail = [conc(s) for s in self.shape[1:]]
        if all(t is not None and t > 0 for t in tail):
            def at(k):
                ix = []
                for t in reversed(tail):
                    ix.append(k % t)
                    k = k / t
                return e(k, *reversed(ix))
            w = 1
            for t in tail:
                w *= t
            return Arr((Sym(z3.simplify(zi(self.shape[0]) * w)),), at, self._kind)
        # every cell, in row-major order
        cc, _ = comp_of(const_arr(self.shape, True, "b"))
        n = z3.IntVal(1)
        for s in self.shape:
            n = n * zi(s)
        E.assume(cc.n == z3.simplify(n))
        return Arr((Sym(cc.n),), lambda k: e(*cc.pos(k)), self._kind, (cc, lambda *d: e(*d)))

    flatten = ravel

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        # only insertion/removal of unit axes, or full flattening of one axis
        src = [s for s in self.shape if conc(s) != 1]
        if list(sh).count(-1) <= 1:
            core_t = [s for s in sh if conc(s) != 1]
            if len(core_t) == len(src) and all(conc(t) == -1 or same_size(t, s) for t, s in zip(core_t, src)):
                keep = [j for j, s in enumerate(self.shape) if conc(s) != 1]
                tgt = [j for j, t in enumerate(sh) if conc(t) != 1]
                shape = [1] * len(sh)
                for a, b in zip(tgt, keep):
                    shape[a] = self.shape[b]

                def to(*i):
                    o = [z3.IntVal(0)] * self.ndim
                    for a, b in zip(tgt, keep):
                        o[b] = i[a]
                    return tuple(o)

                def fr(*b):
                    o = [z3.IntVal(0)] * len(sh)
                    for a, bb in zip(tgt, keep):
                        o[a] = b[bb]
                    return z3.BoolVal(True), tuple(o)
                return view(self, shape, to, fr)
        raise Unsupported("reshape")

    def squeeze(self, *a, **k):
        return self.reshape(*[s for s in self.shape if conc(s) != 1])

    # ---- reading
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, Arr) and k._kind == "b" and k.ndim > 1))
        n += sum(k.ndim for k in key if isinstance(k, Arr) and k._kind == "b" and k.ndim > 1)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
                n = self.ndim
            else:
                out.append(k)
        out += [slice(None)] * (self.ndim - n)
        return out

    def __getitem__(self, key):
        key = self._norm(key)
        key = [to_arr(k) if isinstance(k, list) else k.arr if type(k).__name__ == "DA" else k for k in key]
        fancy = [k for k in key if isinstance(k, Arr) and k.ndim > 0]
        key = [k.item() if isinstance(k, Arr) and k.ndim == 0 else k for k in key]
        if not fancy:
            return self._basic(key)
        if len(fancy) > 1:
            return self._multi_fancy(key)
        j = next(i for i, k in enumerate(key) if isinstance(k, Arr))
        f = key[j]
        # apply the other parts first
        span = f.ndim if f._kind == "b" else 1
        rest = list(key)
        rest[j:j + 1] = [slice(None)] * span
        basic = self._basic(rest)
        ax = sum(1 for k in key[:j] if k is None or isinstance(k, slice))
        if f._kind == "b":
            return basic._compress(f, ax)
        return basic._take(f, ax)

    def _multi_fancy(self, key):
        if all(isinstance(k, Arr) and k.ndim == 1 and k._kind != "b" for k in key):
            e = self.snapshot()
            ks = [k.snapshot() for k in key]
            n = key[0].shape[0]
            comp = None
            if all(k.comp is not None and k.comp[0] is key[0].comp[0] for k in key):
                gs = [k.comp[1] for k in key]
                comp = (key[0].comp[0], lambda *d: e(*[zi(g(*d)) for g in gs]))
            return Arr((n,), lambda i: e(*[zi(k(i)) for k in ks]), self._kind, comp)
        raise Unsupported("several index arrays")

    def _basic(self, key):
        if all(not isinstance(k, slice) and k is not None for k in key) and len(key) == self.ndim:
            return self.get(*[self._index(k, s) for k, s in zip(key, self.shape)])
        shape, plan, d = [], [], 0      # plan per base axis: ('i', const) | ('s', out axis, start, step)
        for k in key:
            if k is None:
                shape.append(1)
                continue
            s = self.shape[d]
            if isinstance(k, slice):
                st, n, step = slice_of(k, s)
                plan.append(("s", len(shape), st, step))
                shape.append(n)
            else:
                plan.append(("i", self._index(k, s)))
            d += 1
        tgt_shape = tuple(shape)

        def to(*i):
            return tuple(p[1] if p[0] == "i" else z3.simplify(p[2] + p[3] * i[p[1]]) for p in plan)

        def fr(*b):
            c = []
            out = [z3.IntVal(0)] * len(tgt_shape)
            for p, x in zip(plan, b):
                if p[0] == "i":
                    c.append(x == p[1])
                else:
                    o = x - p[2] if p[3] == 1 else (p[2] - x if p[3] == -1 else None)
                    if o is None:
                        o = (x - p[2]) / z3.IntVal(p[3])
                        c.append((x - p[2]) % p[3] == 0)
                    o = z3.simplify(o)
                    c.append(inb(o, tgt_shape[p[1]]))
                    out[p[1]] = o
            return And(*c), tuple(out)
        r = view(self, tgt_shape, to, fr)
        if self.comp is not None and self.ndim == 1 and len(tgt_shape) == 1 and plan[0][3] == 1 and z3.is_int_value(plan[0][2]) and plan[0][2].as_long() == 0 \
                and same_size(tgt_shape[0], self.shape[0]):
            r.comp = self.comp
        return r

    def _index(self, k, s):
        e = ix(k)
        if z3.is_int_value(e) and e.as_long() < 0:
            return z3.simplify(e + zi(s))
        if z3.is_int_value(e):
            return e
        if E.ghost.get("plain_index"):
            return e if e.get_id() in self._seen_nonneg(e) else z3.If(e < 0, e + zi(s), e)
        if E.provable(e >= 0):
            return e
        if E.provable(e < 0):
            return z3.simplify(e + zi(s))
        return z3.If(e < 0, e + zi(s), e)

    def _seen_nonneg(self, e):
        """Terms known to be positions without asking the solver: a hypothesis says so."""
        return {e.get_id()} if z3.simplify(e >= 0).get_id() in E.hset else ()

    def _compress(self, mask, ax):
        if mask.ndim != 1 and not (mask.ndim == self.ndim):
            raise Unsupported("boolean index of several axes")
        cc, mg = comp_of(mask)
        e = self.snapshot()
        if mask.ndim == self.ndim:
            if self.comp is not None:
                g0 = self.comp[1]
                return Arr((Sym(cc.n),), lambda k: e(*self_positions(self, mask, cc, k)), self._kind, (cc, lambda *d: g0(*d)))
            return Arr((Sym(cc.n),), lambda k: e(*cc.pos(k)), self._kind, (cc, lambda *d: e(*d)))
        sh = list(self.shape)
        sh[ax] = Sym(cc.n)
        if mask.comp is not None:
            raise Unsupported("nested compression of one axis of several")
        return Arr(sh, lambda *i: e(*(i[:ax] + tuple(cc.pos(i[ax])) + i[ax + 1:])), self._kind)

    def _take(self, f, ax):
        e = self.snapshot()
        fe = f.snapshot()
        sh = list(self.shape)
        sh[ax:ax + 1] = list(f.shape)
        nf = f.ndim

        def el(*i):
            k = self._index(fe(*i[ax:ax + nf]), self.shape[ax])
            return e(*(i[:ax] + (k,) + i[ax + nf:]))
        comp = None
        if self.ndim == 1 and f.comp is not None:
            g = f.comp[1]
            comp = (f.comp[0], lambda *d: e(self._index(g(*d), self.shape[0])))
        return Arr(sh, el, self._kind, comp)

    # ---- writing
    def __setitem__(self, key, v):
        key = self._norm(key)
        key = [to_arr(k) if isinstance(k, list) else k for k in key]
        fancy = [k for k in key if isinstance(k, Arr) and k.ndim > 0]
        if not fancy:
            if all(not isinstance(k, slice) for k in key):
                idx = tuple(self._index(k, s) for k, s in zip(key, self.shape))
                self.write(lambda *b: (And(*[x == y for x, y in zip(b, idx)]), None), lambda o: lift(v) if not isinstance(v, Arr) else v.item(), idx)
                return
            tgt = self._basic(key)
            if isinstance(v, (list, tuple)):
                v = to_arr(v)
            if isinstance(v, Arr):
                v = Arr(v.shape, v.snapshot(), v._kind)
                vb = broadcast_to(v, tgt.shape)
                ve = vb._elem
                val = lambda o: ve(*o)
            else:
                val = lambda o: lift(v)
            probe = None
            if all(isinstance(k, slice) and k == slice(None) or not isinstance(k, slice) for k in key):
                probe = tuple(None if isinstance(k, slice) else self._index(k, s) for k, s in zip(key, self.shape))
            self.write(tgt.base[2], val, probe)
            return
        if len(fancy) > 1:
            raise Unsupported("write through several index arrays")
        j = next(i for i, k in enumerate(key) if isinstance(k, Arr))
        f = key[j]
        if f._kind == "b":
            if f.ndim == self.ndim and len(key) == 1:
                fe = f.snapshot()
                if f.comp is not None:
                    raise Unsupported("write through a compressed mask")
                if isinstance(v, Arr) and v.ndim > 0:
                    if v.comp is None:
                        raise Unsupported("masked write of an unrelated array")
                    cc, g = comp_of(f)
                    if v.comp[0] is not cc:
                        raise Unsupported("masked write of an array selected otherwise")
                    vg = v.comp[1]
                    self.write(lambda *b: (fe(*b).e, b), lambda o: vg(*o), None)
                else:
                    self.write(lambda *b: (fe(*b).e, b), lambda o: lift(v), None)
                return
            if f.ndim == 1 and not isinstance(v, Arr):
                fe = f.snapshot()
                rest = []
                for a, k in enumerate(key):
                    if a == j:
                        rest.append(None)
                    elif isinstance(k, slice):
                        if k != slice(None):
                            raise Unsupported("masked write to a slice")
                        rest.append(None)
                    else:
                        rest.append(self._index(k, self.shape[a]))
                self.write(lambda *b: (And(fe(b[j]).e, *[b[a] == r for a, r in enumerate(rest) if r is not None]), b), lambda o: lift(v), None)
                return
            raise Unsupported("masked write")
        # scatter through an integer index array
        rest = [self._index(k, self.shape[a]) if not isinstance(k, (slice, Arr)) else None for a, k in enumerate(key)]
        if any(isinstance(k, slice) and k != slice(None) for k in key):
            raise Unsupported("scatter to a slice")
        if isinstance(v, Arr) and v.ndim > 0:
            if conc(f.shape[0]) is None:
                q = z3.Int("?h")
                if f.comp is not None and len(f.comp[0].dom) == 1 and z3.simplify(zi(f.comp[1](q))).eq(q) and v.ndim == 1 and E.provable(zi(v.shape[0]) == f.comp[0].n):
                    # the positions of a mask, in order: one value each
                    cc, ve = f.comp[0], v.snapshot()
                    self.write(lambda *b: (And(inb(b[j], cc.dom[0]), cc.mask(b[j]), *[b[a] == r for a, r in enumerate(rest) if r is not None]), b), lambda o: ve(cc.rank(o[j])), tuple(rest))
                    return
                raise Unsupported("scatter of an array")
            for t in range(conc(f.shape[0])):
                kk = list(key)
                kk[j] = f[t]
                self[tuple(kk)] = v[t] if conc(v.shape[0]) != 1 else v[0]
            return
        hit = hits(f)
        self.write(lambda *b: (And(hit(b[j]), *[b[a] == r for a, r in enumerate(rest) if r is not None]), b), lambda o: lift(v), None)

    def write(self, fr, val, probe):
        """fr(base idx) -> (condition, target idx); val(target idx) -> value."""
        if self.base is not None:
            b, to, inv = self.base

            def fr2(*bi):
                c, i = inv(*bi)
                c2, o = fr(*i)
                return And(c, c2), o
            pr = None
            if probe is not None and all(p is not None for p in probe):
                pr = to(*probe)
            b.write(fr2, val, pr)
            return
        if E.writes is not None:
            E.writes.append((self, probe, self._elem))
        self.comp = None
        self.sorted_unique = None
        old = self._elem
        k = self._kind

        def el(*i):
            c, o = fr(*i)
            c = z3.simplify(zb(c))
            if z3.is_false(c):
                return old(*i)
            nv = cast(val(o), k) if k in "bif" else val(o)
            if z3.is_true(c):
                return nv
            return ite(Sym(c), nv, old(*i))
        self._elem = el

    # ---- reductions (see npm)
    def any(self, axis=None, **k): return _np().any(self, axis=axis)
    def all(self, axis=None, **k): return _np().all(self, axis=axis)
    def sum(self, axis=None, **k): return _np().sum(self, axis=axis)
    def mean(self, axis=None, **k): return _np().mean(self, axis=axis)
    def max(self, axis=None, **k): return _np().max(self, axis=axis)
    def min(self, axis=None, **k): return _np().min(self, axis=axis)
    def argmin(self, axis=None, **k): return _np().argmin(self, axis=axis)
    def argmax(self, axis=None, **k): return _np().argmax(self, axis=axis)
    def nonzero(self): return _np().nonzero(self)


def _np():
    from . import npm
    return npm.np


def self_positions(a, mask, cc, k):
    """Position in a (compressed) array of the k-th element of a further selection."""
    d = cc.pos(k)
    return (a.comp[0].rank(*d),)


def comp_of(mask):
    """Comp of a boolean array (shared by all uses of the same selection)."""
    if mask.comp is not None:
        c0, g = mask.comp
        m = lambda *d: And(c0.mask(*d), g(*d).e)
        dom = c0.dom
    else:
        e = mask.snapshot()
        m = lambda *d: e(*d).e
        dom = mask.shape
    probe = [z3.Int(f"?p{i}") for i in range(len(dom))]
    mk = E.mark()
    E.assume(And(*[inb(a, s) for a, s in zip(probe, dom)]))
    key = z3.simplify(m(*probe))
    E.rollback(mk)
    E.keep.append(key)
    tab = E.ghost.setdefault("comps", {})
    kk = (key.get_id(), tuple(z3.simplify(zi(s)).get_id() for s in dom))
    if kk not in tab:
        E.keep.extend(z3.simplify(zi(s)) for s in dom)
        same = None
        for (oid, odom), (oc, okey) in list(tab.items()):
            # the same selection written differently: equal at an arbitrary element
            if odom != kk[1]:
                continue
            mk = E.mark()
            E.assume(And(*[inb(a, s) for a, s in zip(probe, dom)]))
            if E.provable(key == okey, 300):
                same = (oc, okey)
            E.rollback(mk)
            if same:
                return same[0], None    # (not recorded: may hold only under the present hypotheses)
        tab[kk] = (Comp(dom, m), key)
    cc = tab[kk][0]
    return cc, None


def hits(f):
    """Condition 'j occurs in the index array f'."""
    fe = f.snapshot()
    n = f.shape[0]
    c = conc(n)
    if c is not None and c <= 4:
        return lambda j: Or(*[zi(fe(z3.IntVal(t))) == j for t in range(c)])
    if f.comp is not None and len(f.comp[0].dom) == 1:
        cc, g = f.comp
        p = z3.Int("?h")
        if z3.simplify(zi(g(p))).eq(p):
            return lambda j: And(inb(j, cc.dom[0]), cc.mask(j))
    h = E.fresh_fun("hit", [z3.IntSort()], z3.BoolSort())
    w = E.fresh_fun("hitw", [z3.IntSort()], z3.IntSort())
    cc, g = f.comp if f.comp is not None else (None, None)
    seen = set()

    def hit(j):
        j = ix(j)
        if True:
            if cc is not None and len(cc.dom) == 1:
                d = w(j)
                E.assume(z3.Implies(h(j), And(inb(d, cc.dom[0]), cc.mask(d), zi(g(d)) == j)))
                wanted = E.ghost.get("hit_points")
                if wanted is not None and d.get_id() not in seen and wanted(j):
                    seen.add(d.get_id())
                    E.keep.append(d)
                    E.point(d, dom=cc.dom)
            else:
                E.assume(z3.Implies(h(j), And(inb(w(j), n), zi(fe(w(j))) == j)))
        return h(j)

    def fact(d):                       # every source position hits
        if cc is not None and len(cc.dom) == 1:
            return z3.Implies(And(inb(d, cc.dom[0]), cc.mask(d)), hit(zi(g(d))))
        return z3.Implies(inb(d, n), hit(zi(fe(d))))
    E.universal(1, fact)
    return hit


def view(base, shape, to, fr):
    r = Arr(shape, None, base._kind)
    r.base = (base, to, fr)
    r._elem = lambda *i: base._elem(*to(*i)) if base.base is None else base._elem(*to(*i))
    return r


def slice_of(k, s):
    """(start, length, step) of a slice of an axis of size s."""
    step = 1 if k.step is None else int(k.step)
    n = zi(s)

    def clamp(v, dflt):
        if v is None:
            return dflt
        e = ix(v)
        if z3.is_int_value(e) and e.as_long() < 0:
            e = e + n
            lo = z3.If(e < 0, 0, e)
            return lo if not E.provable(e >= 0) else e
        if not z3.is_int_value(e) and E.provable(e < 0):
            e = e + n
            return e if E.provable(e >= 0) else z3.If(e < 0, 0, e)
        if not z3.is_int_value(e) and not E.provable(e >= 0):
            e = z3.If(e < 0, e + n, e)
            e = z3.If(e < 0, 0, e)
        return e if E.provable(e <= n) else z3.If(e > n, n, e)
    if step == 1:
        a = clamp(k.start, z3.IntVal(0))
        b = clamp(k.stop, n)
        L = z3.simplify(b - a)
        if not (z3.is_int_value(L) and L.as_long() >= 0) and not E.provable(L >= 0):
            L = z3.If(L < 0, 0, L)
        return z3.simplify(a), _pyint(L), 1
    if step == -1 and k.start is None and k.stop is None:
        return z3.simplify(n - 1), _pyint(n), -1
    if step > 1 and k.stop is None:
        a = clamp(k.start, z3.IntVal(0))
        L = (n - a + step - 1) / z3.IntVal(step)
        return z3.simplify(a), _pyint(z3.simplify(L)), step
    raise Unsupported("slice with a step")


def _pyint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else Sym(e)


def const_arr(shape, v, kind=None):
    v = lift(v)
    if kind in ("b", "i", "f"):
        v = cast(v, kind)
    return Arr(shape, lambda *i: v, v.kind)


def to_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Long):
        return x
    if isinstance(x, RecList) and x.long is not None:
        return x.long
    if getattr(x, "_is_da", False):
        return x.arr
    if isinstance(x, (list, tuple)):
        items = [to_arr(y) if isinstance(y, (list, tuple, Arr)) or (getattr(y, "_is_da", False) and y.ndim > 0) else lift(y) for y in x]
        if not items:
            return Arr((0,), lambda i: lift(0.0), "f")
        if all(isinstance(y, Sym) for y in items):
            k = "b"
            for y in items:
                k = _kind_join(k, y.kind)
            items = [cast(y, k) for y in items]

            def el(i):
                r = items[-1]
                for t in range(len(items) - 2, -1, -1):
                    r = ite(Sym(z3.simplify(zi(i) == t)), items[t], r)
                return r
            return Arr((len(items),), el, k)
        if all(isinstance(y, Arr) for y in items):
            return stack(items)
        raise Unsupported("array from a mixed list")
    if type(x).__name__ == "ndarray":
        return to_arr(x.tolist()) if x.ndim else lift(x.item())
    if isinstance(x, (Sym, int, float, bool)) or hasattr(x, "item"):
        v = lift(x)
        return Arr((), lambda: v, v.kind)
    if isinstance(x, SymList):
        return x.array()
    raise Unsupported(f"array from {type(x).__name__}")


def stack(items, axis=0):
    es = [a.snapshot() for a in items]
    k = items[0]._kind
    for a in items:
        k = _kind_join(k, a._kind)
    axis = axis % (items[0].ndim + 1)

    def el(*i):
        t = i[axis]
        rest = i[:axis] + i[axis + 1:]
        r = cast(es[-1](*rest), k)
        for q in range(len(es) - 2, -1, -1):
            r = ite(Sym(z3.simplify(t == q)), cast(es[q](*rest), k), r)
        return r
    sh = list(items[0].shape)
    sh.insert(axis, len(items))
    return Arr(sh, el, k)


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for p in range(nd):
        cur = 1
        for s in shapes:
            q = p - (nd - len(s))
            if q < 0:
                continue
            if conc(s[q]) == 1:
                continue
            if conc(cur) == 1:
                cur = s[q]
            elif not same_size(cur, s[q]):
                # 1-sized at run time is not modelled: sizes must agree
                raise Unsupported(f"broadcast of sizes {cur} and {s[q]}")
        out.append(cur)
    return tuple(out)


def broadcast_to(a, shape):
    a = to_arr(a)
    off = len(shape) - a.ndim
    if off < 0:
        if all(conc(s) == 1 for s in a.shape[:-off]):
            a = a.reshape(*a.shape[-off:])
            off = 0
        else:
            raise Unsupported("broadcast")
    ones = [conc(s) == 1 and conc(t) != 1 for s, t in zip(a.shape, shape[off:])]
    for s, t, o in zip(a.shape, shape[off:], ones):
        if not o and not same_size(s, t):
            raise Unsupported("broadcast of different sizes: " + f"{str(s)[:200]} | {str(t)[:400]}")
    e = a.snapshot()
    return Arr(shape, lambda *i: e(*[z3.IntVal(0) if o else x for x, o in zip(i[off:], ones)]), a._kind, a.comp if off == 0 and not any(ones) else None)


def broadcast2(a, b, f):
    if getattr(b, "_is_da", False) or getattr(a, "_is_da", False):
        return NotImplemented
    if isinstance(b, str):
        return NotImplemented
    if not isinstance(b, Arr) and (isinstance(b, (list, tuple)) or type(b).__name__ == "ndarray"):
        b = to_arr(b)
    if not isinstance(b, Arr) or b.ndim == 0:
        bv = lift(b) if not isinstance(b, Arr) else b.get()
        return a.map(lambda v: f(v, bv), f(core.sample(a._kind), core.sample(bv.kind)).kind)
    sh = bshape([a.shape, b.shape])
    comp = None
    if a.comp is not None and b.comp is not None and a.comp[0] is b.comp[0]:
        ga, gb = a.comp[1], b.comp[1]
        comp = (a.comp[0], lambda *d: lift(f(ga(*d), gb(*d))))
    ae, be = broadcast_to(a, sh)._elem, broadcast_to(b, sh)._elem
    k = lift(f(core.sample(a._kind), core.sample(b._kind))).kind
    return Arr(sh, lambda *i: lift(f(ae(*i), be(*i))), k, comp)


class RecList(list):
    """A list display of the repository: grown by a symbolic loop it becomes a Long."""
    long = None

    def __init__(self, *a):
        super().__init__(*a)
        E.serial += 1
        self.serial = E.serial

    def _rec(self, kind, v):
        if E.rec is not None and self.serial <= E.rec[0]:
            E.rec[1].append((self, kind, v))
            return True
        if self.long is not None:
            raise Unsupported("growing a list after a symbolic loop")
        return False

    def _sym_len(self):
        if self.long is None:
            return len(self)
        if getattr(self.long.layout, "n", None) is None:
            self.long.layout.n = E.fresh("len", z3.IntSort())
        E.assume(self.long.layout.n >= 0)
        return Sym(self.long.layout.n)

    def append(self, v):
        if not self._rec("one", v):
            list.append(self, v)

    def extend(self, v):
        if isinstance(v, (core.RepList, SymList)) or E.rec is not None and self.serial <= E.rec[0]:
            if not self._rec("seq", v):
                raise Unsupported("symbolic list extension outside a loop")
        else:
            self._rec("no", v) if self.long is not None else None
            list.extend(self, v)

    def __iadd__(self, v):
        self.extend(v)
        return self

    def _plain(name):
        g = getattr(list, name)

        def f(self, *a, **k):
            if self.long is not None or E.rec is not None and self.serial <= E.rec[0]:
                raise Unsupported("use of a list grown by a symbolic loop")
            return g(self, *a, **k)
        return f
    for _n in ("__iter__", "__len__", "__getitem__", "__setitem__", "__contains__", "pop", "insert", "remove", "clear", "sort", "index", "__add__", "__eq__"):
        locals()[_n] = _plain(_n)
    __hash__ = None


class Layout:
    """Index set of a long-form list: (t, *d) with t in [a, b), d in dom(t), guard(t, *d)."""

    def __init__(self, a, b, dom, guard, key):
        self.a, self.b, self.dom, self.guard, self.key = a, b, dom, guard, key


class Long:
    """One value per element of a Layout."""
    _pyvc_long = True
    ndim = 1

    def __init__(self, layout, value, kind, distinct=False):
        self.layout, self.value, self._kind = layout, value, kind

    def astype(self, *a, **k): return self
    copy = astype

    @property
    def shape(self):
        raise Unsupported("length of a long-form list")


class SymList:
    """Result of [f(x) for x in symbolic sequence]."""

    def __init__(self, n, f, src=None):
        self.n, self.f, self.src = n, f, src

    def __getitem__(self, k):
        if isinstance(k, (slice, tuple)):
            raise Unsupported("slice of a computed list")
        k = zi(lift(k))
        if not E.provable(And(k >= 0, k < zi(self.n))):
            raise Unsupported("element of a computed list, position not known to exist")
        return self.f(k)

    def is_rows(self):
        m = E.mark()
        try:
            v = self.f(E.fresh("?l", z3.IntSort()))
        finally:
            E.rollback(m)
        return isinstance(v, (list, tuple))

    def rows(self):
        """[[f0(x), f1(x)] for x in ...] as a two-dimensional array."""
        m = E.mark()
        try:
            v = self.f(E.fresh("?l", z3.IntSort()))
        finally:
            E.rollback(m)
        ks = {lift(x).kind for x in v}
        k = "f" if "f" in ks else "i" if "i" in ks else "b"

        def el(i, j):
            j = conc(j)
            if j is None:
                raise Unsupported("a row column chosen symbolically")
            return lift(self.f(i)[j])
        return Arr((self.n, len(v)), el, k)

    def array(self):
        v = self.f(E.fresh("?l", z3.IntSort()))
        k = lift(v).kind
        return Arr((self.n,), lambda i: lift(self.f(i)), k)


def sym_arr(name, shape, kind, rng=None):
    """Arbitrary array; kind b/i/f or x (extended reals)."""
    so = {"b": z3.BoolSort(), "i": z3.IntSort(), "f": z3.RealSort(), "x": z3.RealSort()}[kind]
    f = z3.Function(name, *[z3.IntSort()] * len(shape), so) if len(shape) else None
    if kind == "x":
        fn = z3.Function(name + ".nan", *[z3.IntSort()] * len(shape), z3.BoolSort())
        fi = z3.Function(name + ".inf", *[z3.IntSort()] * len(shape), z3.IntSort())

        def el(*i):
            E.assume(And(fi(*i) >= -1, fi(*i) <= 1))
            return Sym(f(*i), nan=fn(*i), inf=fi(*i))
        return Arr(shape, el, "f", name=name)

    def el(*i):
        if rng is not None:
            E.assume(z3.Implies(And(*[inb(a, s) for a, s in zip(i, shape)]), rng(f(*i))))
        return Sym(f(*i))
    return Arr(shape, el, kind, name=name)
