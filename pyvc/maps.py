"""Dictionaries with symbolic contents, graphs and their connected components."""
import z3
from . import core, arr
from .core import Sym, Unsupported, And, Or, Not, lift, zi, zb, ite
from .arr import Arr
E = core.E


def _np():
    from . import npm
    return npm


class SymMap:
    """{key(k): val(k)} for k in [0, n), guard(k); later entries replace earlier ones."""

    def __init__(self, n, key, val, guard=None):
        self.n, self.key, self.val, self.guard = zi(n), key, val, guard
        self.H = E.fresh_fun("has", [z3.IntSort()], z3.BoolSort())
        self.W = E.fresh_fun("ent", [z3.IntSort()], z3.IntSort())
        self.inj = None
        m = E.mark()
        i = E.fresh("?id", z3.IntSort())
        try:
            ident = guard is None and z3.simplify(zi(key(i))).eq(i)
        finally:
            E.rollback(m)
        if ident:                         # keys 0, 1, .., n-1
            self.inj = True
            self.H, self.W = lambda x: And(x >= 0, x < self.n), lambda x: x
            return
        E.dep("dict: one entry per key, the last one written")

        def fact(k):
            x = zi(self.key(k))
            return z3.Implies(self.inr(k), And(self.H(x), self.W(x) >= k))
        E.universal(1, fact, dom=(self.n,))

    def inr(self, k):
        return And(k >= 0, k < self.n, *([zb(self.guard(k))] if self.guard is not None else []))

    def _member(self, x):
        x = zi(lift(x))
        w = self.W(x)
        if w is x:
            return Sym(z3.simplify(self.H(x)))
        E.assume(z3.Implies(self.H(x), And(self.inr(w), zi(self.key(w)) == x)))
        if E.pdepth <= 1 and not core.probe(w):
            E.point(w, dom=(self.n,))
        return Sym(self.H(x))

    def get(self, x, d=None):
        if d is None:
            return self[x]
        m = self._member(x)
        return ite(m, lift(self.val(self.W(zi(lift(x))))), lift(d))

    def __getitem__(self, x):
        m = self._member(x)
        if not m:
            raise KeyError(str(x)[:60])
        return self.val(self.W(zi(lift(x))))

    def _distinct(self):
        if self.inj is None:
            i, j = E.fresh("?i", z3.IntSort()), E.fresh("?j", z3.IntSort())
            g = z3.Implies(And(self.inr(i), self.inr(j), i < j), zi(self.key(i)) != zi(self.key(j)))
            from .loop import mentions
            near = [h for h in E.hyps if mentions(h, i) or mentions(h, j)]
            self.inj = core.ground(near, g, E.inexact) is not None or core.ground(list(E.hyps), g, E.inexact, 8000) is not None
        if not self.inj or self.guard is not None:
            raise Unsupported("iteration over a dictionary whose keys may coincide")

    def _sym_len(self):
        self._distinct()
        return Sym(self.n)

    def items(self):
        from . import loop
        self._distinct()
        return loop.Zip(Sym(self.n), lambda k: (self.key(k), self.val(k)))

    def keys(self):
        from . import loop
        self._distinct()
        return loop.Zip(Sym(self.n), lambda k: self.key(k))

    def values(self):
        from . import loop
        self._distinct()
        return loop.Zip(Sym(self.n), lambda k: self.val(k))


class PvDict(dict):
    """A dictionary display of the repository: filled by a symbolic loop it becomes a SymMap."""
    sym = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        E.serial += 1
        self.serial = E.serial

    def __setitem__(self, k, v):
        if E.rec is not None and self.serial <= E.rec[0]:
            E.rec[1].append((self, "set", (k, v)))
            return
        if self.sym is not None:
            raise Unsupported("writing a dictionary after a symbolic loop")
        dict.__setitem__(self, k, v)

    def _plain(name):
        g = getattr(dict, name)

        def f(self, *a, **k):
            if E.rec is not None and any(r[0] is self for r in E.rec[1]):
                raise Unsupported("a dictionary read in the loop that fills it")
            if self.sym is not None:
                return getattr(self.sym, name)(*a, **k)
            return g(self, *a, **k)
        return f
    for _n in ("__getitem__", "items", "keys", "values", "get"):
        locals()[_n] = _plain(_n)

    def _member(self, x):
        if E.rec is not None and any(r[0] is self for r in E.rec[1]):
            raise Unsupported("a dictionary read in the loop that fills it")
        if self.sym is not None:
            return self.sym._member(x)
        if isinstance(x, (Sym, core.SymStr)) and dict.__len__(self):
            return Sym(Or(*[zb(x == k) for k in dict.keys(self)]))
        return dict.__contains__(self, x)

    def _sym_len(self):
        if self.sym is not None:
            return self.sym._sym_len()
        return dict.__len__(self)


def dictcomp(f, it):
    from . import loop
    if isinstance(it, loop.Range):
        return SymMap(it.b - it.a, lambda k: f(Sym(it.a + zi(k)))[0], lambda k: f(Sym(it.a + zi(k)))[1])
    if isinstance(it, Arr) and arr.conc(it.shape[0]) is None:
        return SymMap(it.shape[0], lambda k: f(_np().nth(it, k))[0], lambda k: f(_np().nth(it, k))[1])
    if isinstance(it, loop.Zip):
        return SymMap(it.n, lambda k: f(it.at(zi(k)))[0], lambda k: f(it.at(zi(k)))[1])
    r = PvDict()
    for x in it:
        k, v = f(x)
        dict.__setitem__(r, k, v)
    return r


def compif(f, c, it):
    """[f(x) for x in it if c(x)]"""
    from . import loop
    if isinstance(it, loop.Range):
        n, at = it.b - it.a, lambda k: Sym(it.a + zi(k))
    elif isinstance(it, Arr) and arr.conc(it.shape[0]) is None:
        n, at = zi(it.shape[0]), lambda k: _np().nth(it, k)
    elif isinstance(it, loop.Zip):
        n, at = zi(it.n), lambda k: it.at(zi(k))
    else:
        out = []
        for x in it:
            if c(x):
                out.append(f(x))
        return out

    def cond(k):
        return lift(c(at(k)))
    mask = Arr((Sym(n),), lambda k: cond(k), "b")
    cc, _ = arr.comp_of(mask)

    def fact(j):
        g = And(j >= 0, j < n, zb(cond(j)))
        if E.pdepth <= 1 and not core.probe(j):
            E.point(cc.rf(j), dom=(cc.n,))
        return z3.Implies(g, And(cc.rf(j) >= 0, cc.rf(j) < cc.n, cc.pf[0](cc.rf(j)) == j))
    E.universal(1, fact, dom=(n,))

    def g(j):
        """f at a selected element (it was evaluated only there)."""
        return given(And(j >= 0, j < n, zb(cond(j))), lambda: f(at(j)))
    out = arr.SymList(Sym(cc.n), lambda k: g(cc.pos(k)[0]))
    out.sel = (cc, g)
    return out


def given(cond, thunk):
    """thunk evaluated where cond holds; what it assumes is kept under that condition."""
    m = E.mark()
    try:
        E.assume(cond)
        m1 = E.mark()
        v = thunk()
        new = list(E.since(m1))
    finally:
        E.rollback(m)
    for h in new:
        E.assume(z3.Implies(cond, h))
    return v


class Graph:
    """Sparse boolean matrix given by its entries: rows(e), cols(e), e in [0, m), where nonzero(e)."""
    _sparse = True

    def __init__(self, n, m, row, col, on=None):
        self.n, self.m, self.row, self.col, self.on = zi(n), zi(m), row, col, on or (lambda e: z3.BoolVal(True))
        self.shape = (Sym(self.n), Sym(self.n))


def csr_matrix(x, shape=None, dtype=None, **k):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
        data, (r, c) = x
        data, r, c = arr.to_arr(data), arr.to_arr(r), arr.to_arr(c)
        if not E.provable(zi(shape[0]) == zi(shape[1])):
            raise Unsupported("a rectangular sparse matrix")
        on = lambda e: zb(lift(data.get(e)).num().e != 0) if data._kind != "b" else zb(data.get(e).e)
        return Graph(shape[0], r.shape[0], lambda e: zi(r.get(e)), lambda e: zi(c.get(e)), on)
    if isinstance(x, tuple) and len(x) == 2:
        return Graph(x[0], 0, lambda e: z3.IntVal(0), lambda e: z3.IntVal(0))
    raise Unsupported("sparse matrix from this argument")


def connected_components(csgraph=None, directed=True, connection="weak", return_labels=True, **k):
    G = csgraph
    if not isinstance(G, Graph) or not return_labels:
        raise Unsupported("connected components of this graph")
    if directed and connection != "weak":
        raise Unsupported("strong components")
    E.dep("scipy connected_components: labels 0..n-1, all used; equal on every edge; any node labelling constant on edges is constant on components")
    nc = E.fresh("ncomp", z3.IntSort())
    lab = E.fresh_fun("complab", [z3.IntSort()], z3.IntSort())
    wit = E.fresh_fun("compwit", [z3.IntSort()], z3.IntSort())
    E.assume(And(nc >= 0, nc <= G.n))
    E.assume(z3.Implies(G.n >= 1, nc >= 1))
    ed = lambda e: And(e >= 0, e < G.m, G.on(e))

    def rng(i):
        return z3.Implies(And(i >= 0, i < G.n), And(lab(i) >= 0, lab(i) < nc))
    E.universal(1, rng, dom=(G.n,))

    def edge(e):
        return z3.Implies(ed(e), lab(G.row(e)) == lab(G.col(e)))
    E.universal(1, edge, dom=(G.m,))

    def used(c):
        w = wit(c)
        if E.pdepth <= 1:
            E.point(w, dom=(G.n,))
        return z3.Implies(And(c >= 0, c < nc), And(w >= 0, w < G.n, lab(w) == c))
    E.universal(1, used, dom=(nc,))
    e = E.fresh("?edge", z3.IntSort())
    E.require("every entry of the link graph names two nodes", z3.Implies(ed(e), And(*[And(x >= 0, x < G.n) for x in (G.row(e), G.col(e))])))
    inv = E.ghost.get("node_value")
    ids = E.ghost.get("unique_by_size", {}).get(z3.simplify(G.n).get_id())
    if inv is not None and ids is not None:
        f = lambda i: inv(zi(ids.get(i)))
        e = E.fresh("?link", z3.IntSort())
        E.point(e, dom=(G.m,))
        E.require("every entry of the link graph is one of the links found", z3.Implies(ed(e), f(G.row(e)) == f(G.col(e))))
        rep = E.fresh_fun("compval", [z3.IntSort()], f(z3.IntVal(0)).sort())

        def finest(i):
            return z3.Implies(And(i >= 0, i < G.n), f(i) == rep(lab(i)))
        E.universal(1, finest, dom=(G.n,))
    E.ghost["components"] = (nc, lab, wit, G)
    labels = Arr((Sym(G.n),), lambda i: (E.assume(rng(i)), Sym(lab(i)))[1], "i")
    return Sym(nc), labels
