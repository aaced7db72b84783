"""pyvc core: symbolic values, path exploration, obligations.

The code under contract is the repository's own function, compiled from its current AST (load.py) and executed by CPython with symbolic
arguments; `if`/`while`/`and`/`or` on a symbolic condition fork (re-execution with a decision script), loops over symbolic ranges go
through loop.py (invariants or exact summaries).  Integers are mathematical integers, floats are extended reals (nan/inf flags).
"""
import math, os, subprocess, tempfile, time
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """The construct is outside the modelled subset: the contract is undecided, never refuted."""


class PathDone(BaseException):
    """This path ends here (its obligations have been recorded)."""


class Infeasible(BaseException):
    pass


class Refuted(Exception):
    """A definite failure found while executing (e.g. the real code raises where the contract forbids it)."""


# ------------------------------------------------------------------------------------------------ engine
class Engine:
    def __init__(self, quick_ms=1500):
        self.hyps = []
        self.hset = set()
        self.script = []
        self.pos = 0
        self.obls = []
        self.binders = []          # (z3 const) of the enclosing summarised iterations
        self.nfresh = 0
        self.sums = {}             # key -> SumTerm
        self.quick_ms = quick_ms
        self.ghost = {}
        self.solver_s = 0.0
        self.queries = 0
        self.assumed = set()       # dependency contracts used
        self.writes = None         # write log of the running summarisation
        self.loop_specs = {}
        self.fn_stack = []
        self.deadline = None
        self.prov_cache = {}
        self.keep = []             # expressions whose ids are used as keys stay alive
        self.hh = []               # running hash of the hypothesis list
        self.isdec = []            # is hypothesis i a branch decision?
        self.univ_at = {}
        self.univ = []             # (arity, fact fn): universally quantified facts
        self.points = {}           # arity -> [index tuples] at which universal facts are instantiated
        self.reads = []
        self.serial = 0
        self.pdepth = 0
        self.rec = None            # (start serial, records): list growth of the running summarisation
        self.pseen, self.plog = {}, []
        self.inexact = set()       # under-axiomatised functions used: a model is then only a candidate

    # ---- assumptions
    def assume(self, e, dec=False):
        e = zb(e)
        if z3.is_true(e):
            return
        i = e.get_id()
        if i in self.hset:
            return
        self.keep.append(e)
        self.hyps.append(e)
        self.hset.add(i)
        self.hh.append(hash((self.hh[-1] if self.hh else 0, i)))
        self.isdec.append(dec)

    def mark(self):
        return (len(self.hyps), len(self.univ), len(self.ghost.get('lin', ())), len(self.ghost.get('divs', ())), {a: len(v) for a, v in self.points.items()}, len(self.plog))

    def rollback(self, m):
        m, u, nl, nd, pts, pl = m
        while len(self.plog) > pl:
            k, old = self.plog.pop()
            if old is None:
                self.pseen.pop(k, None)
            else:
                self.pseen[k] = old
        for a, v in self.points.items():
            del v[pts.get(a, 0):]
        for k, n in (('lin', nl), ('divs', nd)):
            t = self.ghost.get(k)
            if t and len(t) > n:
                for x in list(t)[n:]:
                    del t[x]
        for e in self.hyps[m:]:
            self.hset.discard(e.get_id())
        del self.hyps[m:], self.hh[m:], self.isdec[m:]
        del self.univ[u:]

    def since(self, m):
        return self.hyps[m[0]:]

    def tag(self, dom):
        """The index space of a point or fact: facts are instantiated at points of their own space (or of none)."""
        if dom is None:
            return None
        out = []
        for d in dom:
            e = z3.simplify(zi(d))
            self.keep.append(e)
            out.append(e.get_id())
        return tuple(out)

    def universal(self, arity, fact, dom=None, tag=None):
        """fact(*idx) holds for all integer idx: instantiated at the declared points, quantified only when needed."""
        key = (fact.__code__, tuple(id(c.cell_contents) for c in (fact.__closure__ or ())))
        tag = tag or self.tag(dom)
        for a, f, _ in self.univ:
            if a == arity and f.__code__ is fact.__code__ and (f.__code__, tuple(id(c.cell_contents) for c in (f.__closure__ or ()))) == key:
                fact = f
                break
        else:
            self.univ.append((arity, fact, tag))
            self.univ_at[id(fact)] = len(self.hyps)
        self.pdepth += 1
        try:
            for p, t in list(self.points.get(arity, [])):
                if t is None or tag is None or t == tag:
                    self.assume(fact(*p))
        finally:
            self.pdepth -= 1

    def point(self, *idx, dom=None, tag=None):
        idx = tuple(zi(i) for i in idx)
        if self.pdepth >= 3:
            return
        tag = tag or self.tag(dom)
        key = tuple(i.get_id() for i in idx) + ((tag,) if tag else ())
        self.keep.append(idx)
        old = self.pseen.get(key)
        if old is None:
            self.points.setdefault(len(idx), []).append((idx, tag))
        elif old <= self.pdepth:
            return                       # already instantiated, at least as deep
        self.plog.append((key, old))
        self.pseen[key] = self.pdepth
        self.pdepth += 1
        try:
            for a, f, t in list(self.univ):
                if a == len(idx) and (t is None or tag is None or t == tag):
                    self.assume(f(*idx))
        finally:
            self.pdepth -= 1

    def quantified(self):
        out = []
        for n, (a, f, _) in enumerate(self.univ):
            v = [z3.Int(f"?u{n}_{i}") for i in range(a)]
            m = self.mark()
            ob = self.binders
            self.binders = list(ob) + v          # symbols born under the quantifier are functions of its variables
            try:
                b = f(*v)
                extra = [h for h in self.since(m)]
            finally:
                self.binders = ob
                self.rollback(m)
            out.append(z3.ForAll(v, And(b, *extra)))
        return out

    def dep(self, what):
        self.assumed.add(what)

    # ---- fresh symbols (skolem functions of the enclosing binders)
    def fresh(self, name, sort, extra=()):
        self.nfresh += 1
        n = f"{name}!{self.nfresh}"
        args = [b for b in self.binders] + list(extra)
        if not args:
            return z3.Const(n, sort)
        return z3.Function(n, *[a.sort() for a in args], sort)(*args)

    def fresh_fun(self, name, doms, sort):
        """A fresh function of `doms` (and of the enclosing binders)."""
        self.nfresh += 1
        bs = list(self.binders)
        f = z3.Function(f"{name}!{self.nfresh}", *[b.sort() for b in bs], *doms, sort)
        return lambda *a: f(*bs, *a)

    # ---- deciding
    def _check(self, extra, ms):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract exhausted")
        s = z3.Solver()
        limit(s, ms)
        t = time.time()
        if self.inexact:
            s.add(*abstract_uf(list(self.hyps) + [extra]))
        else:
            for h in self.hyps:
                s.add(h)
            s.add(extra)
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def provable(self, e, ms=None):
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if e.get_id() in self.hset:
            return True
        self.keep.append(e)
        key = (e.get_id(), len(self.hyps), self.hh[-1] if self.hh else 0)
        if key not in self.prov_cache:
            self.prov_cache[key] = self._check(z3.Not(e), ms or self.quick_ms) == z3.unsat
        return self.prov_cache[key]

    def local(self, e):
        """Provable from the hypotheses that speak about nothing but e's own symbols (a quick first try)."""
        if not self.ghost.get("nonneg_sums"):
            return False
        e = z3.simplify(zb(e))
        names = self.symbols(e)
        cache = self.ghost.setdefault("local", {})
        hs = [h for h in self.hyps if self.symbols(h) <= names]
        key = (e.get_id(), tuple(h.get_id() for h in hs))
        if key not in cache:
            self.keep.append(e)
            s = z3.Solver()
            limit(s, 200)
            s.add(*hs, z3.Not(e))
            cache[key] = s.check() == z3.unsat
        return cache[key]

    def decide(self, e):
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if e.get_id() in self.hset:
            return True
        if self.pos < len(self.script):
            d = self.script[self.pos][0]
            self.pos += 1
            self.assume(e if d else z3.Not(e), True)
            return d
        can_t = self._check(e, self.quick_ms) != z3.unsat
        can_f = self._check(z3.Not(e), self.quick_ms) != z3.unsat
        if not can_t and not can_f:
            raise Infeasible()
        if can_t and can_f:
            self.script.append([True, True])
            self.pos += 1
            self.assume(e, True)
            return True
        # only one outcome is possible: no decision, but the script must stay aligned with re-execution
        self.script.append([can_t, False])
        self.pos += 1
        self.assume(e if can_t else z3.Not(e), True)
        return can_t

    def choose(self, label=""):
        """Non-deterministic choice explored both ways (loop modes)."""
        if self.pos < len(self.script):
            d = self.script[self.pos][0]
            self.pos += 1
            return d
        self.script.append([True, True])
        self.pos += 1
        return True

    # ---- exploring
    def explore(self, thunk, max_paths=400, keep_sums=False):
        """Run thunk on every path. Returns [(hyps added on the path, 'ret'|'exc', value)]. State of the engine is restored."""
        out = []
        saved = (self.script, self.pos)
        base = self.mark()
        ghost0 = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        script = []
        n = 0
        while True:
            n += 1
            if n > max_paths:
                raise Unsupported("too many paths")
            self.script, self.pos = script, 0
            self.ghost = {k: (dict(v) if isinstance(v, dict) else v) for k, v in ghost0.items()}
            try:
                try:
                    v = ("ret", thunk())
                except (PathDone, Infeasible):
                    v = None
                except Unsupported:
                    raise
                except Refuted:
                    raise
                except Exception as ex:
                    v = ("exc", ex)
                if v is not None:
                    out.append((Path(self.hyps[base[0]:], self.isdec[base[0]:]), v[0], v[1]))
                script = self.script
                if keep_sums:                # sums are definitions: the same expression is the same sum on every path of a loop body
                    ghost0.setdefault("sums", {}).update(self.ghost.get("sums", {}))
            finally:
                self.rollback(base)
                self.script, self.pos = saved
            while script and not (script[-1][0] is True and script[-1][1]):
                script.pop()
            if not script:
                break
            script = [list(s) for s in script[:-1]] + [[False, False]]
        if keep_sums:
            self.ghost.setdefault("sums", {}).update(ghost0.get("sums", {}))
        return out

    # ---- obligations
    def require(self, name, goal, hyps=(), hints=()):
        goal = zb(goal)
        hs = [zb(h) for h in hyps]
        has = bool(self.ghost.get("sums") or self.ghost.get("reds"))
        for stage, ms in (((self.positive_sums, 1500), (self.relate_sums, 4000)) if has else ((None, 4000),)):
            if stage is not None:
                stage(goal, hs)
            hy = list(self.hyps) + hs
            done = ground(hy, goal, self.inexact, ms)
            if done is not None:
                break
        if done is not None:
            self.obls.append((name, [], goal, [], [], done))
        else:
            self.obls.append((name, hy, goal, self.quantified(), sorted(self.inexact), None))

    def symbols(self, e):
        """Fresh symbols occurring in e (cached)."""
        c = self.ghost.setdefault("symcache", {})
        k = e.get_id()
        if k not in c:
            self.keep.append(e)
            out, st, seen = set(), [e], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    n = x.decl().name()
                    if "!" in n:
                        out.add(n)
                    st.extend(x.children())
                elif z3.is_quantifier(x):
                    st.append(x.body())
            c[k] = frozenset(out)
        return c[k]

    def live(self, goal, hints):
        out = set(self.symbols(goal))
        skip = self.ghost.get("sumfacts", {})
        for h in list(self.hyps) + list(hints):
            if h.get_id() not in skip:
                out |= self.symbols(h)
        return out

    def saturate_sums(self, goal=None, hints=()):
        """Sums of pointwise equal (ordered, non-negative) summands are equal (ordered, non-negative); only for sums that occur in the goal or a hypothesis."""
        goal = zb(goal) if goal is not None else z3.BoolVal(True)
        self.positive_sums(goal, hints)
        self.relate_sums(goal, hints)

    def positive_sums(self, goal, hints=()):
        for rnd in range(2):
            live = self.live(goal, hints)
            new = False
            name = lambda t: t.decl().name()
            for s in list(self.ghost.get("sums", {}).values()):
                if s.ind and name(s.term) in live and not self.fresh_mark(self.ghost.setdefault("sumdone", {}), ("pos", s.key)):
                    new = True
                    s.positive(self)
            if not new:
                break

    def fresh_mark(self, done, key):
        """Was this derived before, under hypotheses that still hold?"""
        n, h = done.get(key, (-1, 0))
        if n >= 0 and len(self.hyps) >= n and (n == 0 or self.hh[n - 1] == h):
            return True
        done[key] = (len(self.hyps), self.hh[-1] if self.hh else 0)
        return False

    def relate_sums(self, goal, hints=()):
        name = lambda t: t.decl().name()
        live = self.live(goal, hints)
        R = [r for r in self.ghost.get("reds", {}).values() if name(r.val) in live]
        rd = self.ghost.setdefault("reddone", {})
        for i, s in enumerate(R):
            for t in R[:i]:
                k = (id(s), id(t), len(self.hyps))
                if k not in rd:
                    rd[k] = 1
                    r = s.relate(self, t)
                    if r is not None:
                        self.assume(r)
        bound = {b.get_id() for b in self.binders}
        stale = self.ghost.get("stale", {})
        L = [s for s in self.ghost.get("sums", {}).values() if name(s.term) in live and not any(c.get_id() in stale and c.get_id() not in bound for c in s.term.children())]
        if not L:
            return
        done = self.ghost.setdefault("sumdone", {})
        for rnd in range(3):
            n0 = len(self.hyps)
            for i, s in enumerate(L):
                if not rnd and not self.fresh_mark(done, ("nn", s.key)):
                    if not s.ind and not getattr(s, "nn", False) and s.nonneg(self):
                        self.assume(s.term >= 0)
                        if self.ghost.get("positive_sums"):
                            s.positive(self)
                for t in L[:i]:
                    k = ("eq", s.key, t.key)
                    if len(s.dom) == len(t.dom) and not self.fresh_mark(done, k):
                        if self.ghost.get("prefix_sums"):
                            self.prefix(s, t)
                            continue
                        r = s.relate(self, t) if s.compatible(t) else None
                        if r is not None:
                            self.assume(r)
                        elif not s.compatible(t) and rnd < 2:
                            done.pop(k, None)          # sizes may become provably equal once other sums are related
            if len(self.hyps) == n0:
                break

    def prefix(self, s, t):
        """Two prefixes of one series of non-negative terms: the longer is the larger."""
        if not (len(s.dom) == len(t.dom) == 1 and getattr(s, "nn", False) and getattr(t, "nn", False)):
            return False
        d = z3.Int("?prefix")
        if not z3.simplify(z3.substitute(s.v, (s.pr[0], d))).eq(z3.simplify(z3.substitute(t.v, (t.pr[0], d)))):
            return False
        a, b = zi(s.dom[0]), zi(t.dom[0])
        self.assume(And(z3.Implies(a <= b, s.term <= t.term), z3.Implies(b <= a, t.term <= s.term)))
        at = lambda k: zr(s.fn(k))
        # the longer one also holds the first term the shorter one lacks
        self.assume(And(z3.Implies(And(a >= 0, a < b), s.term + at(a) <= t.term), z3.Implies(And(b >= 0, b < a), t.term + at(b) <= s.term)))
        return True

    def sumfact(self, e):
        """A fact about a sum that does not by itself make the sum relevant."""
        e = zb(e)
        self.ghost.setdefault("sumfacts", {})[e.get_id()] = e
        self.assume(e)


class Path(list):
    def __init__(self, hyps, isdec):
        super().__init__(hyps)
        self.isdec = isdec

    @property
    def decisions(self):
        return [h for h, d in zip(self, self.isdec) if d]

    @property
    def guarded_facts(self):
        out, ds = [], []
        for h, d in zip(self, self.isdec):
            if d:
                ds.append(h)
            else:
                out.append((list(ds), h))
        return out


class SumTerm:
    def __init__(self, key, dom, fn, term):
        self.key, self.dom, self.fn, self.term = key, dom, fn, term
        self.w, self.ind, self.pos, self.isint = None, False, False, False

    def compatible(self, o):
        return all(z3.simplify(zi(a) == zi(b)).eq(z3.BoolVal(True)) or E.provable(zi(a) == zi(b)) for a, b in zip(self.dom, o.dom))

    def _at(self):
        d = [z3.FreshConst(z3.IntSort(), "?s") for _ in self.dom]
        return d, And(*[And(x >= 0, x < zi(n)) for x, n in zip(d, self.dom)])

    def nonneg(self, eng):
        d, g = self._at()
        m = eng.mark()
        try:
            eng.assume(g)
            v = zr(self.fn(*d))
            return eng.provable(v >= 0, 1000)
        finally:
            eng.rollback(m)

    def positive(self, eng):
        """A sum of non-negative terms: at least each term, and positive only through some term."""
        if self.w is None:
            self.w = [eng.fresh("sumw", z3.IntSort()) for _ in self.dom]
        w = self.w
        eng.assume(self.term >= 0)
        eng.point(*w, dom=self.dom)
        eng.assume(z3.Implies(self.term > 0, And(*[And(x >= 0, x < zi(n)) for x, n in zip(w, self.dom)], zr(self.fn(*w)) > 0)))
        eng.universal(len(self.dom), lambda *d: z3.Implies(And(*[And(x >= 0, x < zi(n)) for x, n in zip(d, self.dom)]), zr(self.fn(*d)) <= self.term), dom=self.dom)

    def relate(self, eng, o, level=0):
        d, g = self._at()
        m = eng.mark()
        try:
            eng.assume(g)
            eng.point(*d, dom=self.dom)
            a, b = zr(self.fn(*d)), zr(o.fn(*d))
            relink()
            if eng.provable(a == b, 2000):
                return self.term == o.term
            if inner_sums(eng, a, b, level) and eng.provable(a == b, 2000):
                return self.term == o.term
            if eng.provable(a <= b, 1000):
                return self.term <= o.term
            if eng.provable(a >= b, 1000):
                return self.term >= o.term
        finally:
            eng.rollback(m)
        return None


def sum_terms(eng, e):
    """The sums occurring in an expression."""
    tab = {t.term.get_id(): t for t in eng.ghost.get("sums", {}).values()}
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in tab:
            out.append(tab[i])
        else:
            st.extend(x.children())
    return out


def inner_sums(eng, a, b, level):
    """Relates the sums occurring inside two summands."""
    if level >= 3:
        return False
    A, B = sum_terms(eng, a), sum_terms(eng, b)
    new = False
    for s in A[:6]:
        for t in B[:6]:
            if s is not t and len(s.dom) == len(t.dom) and s.compatible(t):
                r = s.relate(eng, t, level + 1)
                if r is not None:
                    eng.assume(r)
                    new = True
    return new


def no_inf(v):
    v = lift(v)
    return isinstance(v.inf, int) and v.inf == 0 or (not isinstance(v.inf, int) and z3.is_int_value(z3.simplify(v.inf)) and z3.simplify(v.inf).as_long() == 0)


class RedTerm:
    """Some statistic of the values fn takes where its mask holds: equal for pointwise equal inputs."""

    def __init__(self, kind, params, dom, fn, val, nan):
        self.kind, self.params, self.dom, self.fn, self.val, self.nan = kind, params, dom, fn, val, nan

    def relate(self, eng, o):
        if self.kind != o.kind or len(self.dom) != len(o.dom) or len(self.params) != len(o.params):
            return None
        if not all(eng.provable(zi(a) == zi(b), 500) for a, b in zip(self.dom, o.dom)) or not all(eng.provable(a == b, 500) for a, b in zip(self.params, o.params)):
            return None
        d = [z3.FreshConst(z3.IntSort(), "?s") for _ in self.dom]
        m = eng.mark()
        try:
            eng.assume(And(*[And(x >= 0, x < zi(n)) for x, n in zip(d, self.dom)]))
            eng.point(*d, dom=self.dom)
            (m1, v1), (m2, v2) = self.fn(*d), o.fn(*d)
            skip = self.kind.startswith("nan")
            if skip:
                m1, m2 = And(m1, Not(nanb(v1))), And(m2, Not(nanb(v2)))
            relink()
            g = And(m1 == m2, z3.Implies(m1, same(lift(v1), lift(v2))))
            if eng.provable(g, 2000) or inner_sums(eng, And(m1, zr(lift(v1)) == 0), And(m2, zr(lift(v2)) == 0), 0) and eng.provable(g, 2000):
                return And(self.val == o.val, self.nan == o.nan)
        finally:
            eng.rollback(m)
        return None


RATE = 4000


def limit(s, ms):
    """Deterministic budget (z3 resource units), with wall-clock only as a backstop: the outcome does not depend on the load of the machine."""
    s.set("rlimit", int(ms * RATE))
    s.set("timeout", int(ms * 8))


class probing:
    """Evaluate a summand at a probe point: assumptions made meanwhile are dropped, nested probes get their own names."""
    depth = 0

    def __init__(self, tag, dom):
        self.tag, self.n, self.dom = tag, len(dom), dom

    def __enter__(self):
        d = probing.depth
        probing.depth += 1
        self.m = E.mark()
        pr = [z3.Int(f"?{self.tag}{d or ''}_{i}" if d else f"?{self.tag}{i}") for i in range(self.n)]
        E.assume(And(*[And(p >= 0, p < zi(s)) for p, s in zip(pr, self.dom)]))
        return pr

    def __exit__(self, *a):
        probing.depth -= 1
        E.rollback(self.m)


def mk_red(kind, params, dom, fn):
    tab = E.ghost.setdefault("reds", {})
    with probing("red", dom) as pr:
        mk, v = fn(*pr)
    v = lift(v)
    ex = [z3.simplify(x) for x in (mk, v.e, nanb(v))] + [z3.simplify(p) for p in params] + [z3.simplify(zi(n)) for n in dom]
    E.keep.extend(ex)
    key = (kind, tuple(x.get_id() for x in ex), tuple(b.get_id() for b in E.binders))
    if key not in tab:
        E.inexact.add(kind)
        tab[key] = RedTerm(kind, params, tuple(dom), fn, E.fresh(kind, z3.RealSort()), E.fresh(kind + "_nan", z3.BoolSort()))
    r = tab[key]
    return Sym(r.val, nan=r.nan)


def indicator(v):
    """If(c, 1, 0), possibly nested."""
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction() >= 0
    if z3.is_int_value(v):
        return v.as_long() >= 0
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return indicator(v.arg(0))
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return indicator(v.arg(1)) and indicator(v.arg(2))
    return False


def mentions(e, xs):
    ids = {x.get_id() for x in xs}
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            st.extend(x.children())
    return False


def mk_sum(dom, fn):
    """Sum over the box dom of fn(*d) (finite real summand)."""
    if E.ghost.get("expand_sums") and len(dom) == 1:
        n = z3.simplify(zi(dom[0]))
        if z3.is_int_value(n) and n.as_long() <= E.ghost["expand_sums"]:
            r = z3.RealVal(0)
            for k in range(n.as_long()):
                r = r + zr(fn(z3.IntVal(k)))
            return z3.simplify(r)
    with probing("sum", dom) as pr:
        v = z3.simplify(zr(fn(*pr)))
        fac = v.children()[1] if E.ghost.get("factor_sums") and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(v.children()[1]) else None
        if fac is not None and mentions(fac, pr):
            fac = None
    if fac is not None and E.provable(fac != 0, 500):
        E.dep("a constant divisor is taken out of a sum")

        def num(*d):
            x = z3.simplify(zr(fn(*d)))
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and x.children()[1].eq(fac):
                return Sym(x.children()[0])
            return Sym(x * fac)
        return mk_sum(dom, num) / fac
    cv = z3.simplify(z3.substitute(v, *[(x, z3.Int(f"?c{i}")) for i, x in enumerate(pr)]))     # the same summand at another nesting depth is the same sum
    E.keep.append(cv)
    key = (cv.get_id(), tuple(z3.simplify(zi(n)).get_id() for n in dom))
    E.keep.extend(z3.simplify(zi(n)) for n in dom)
    tab = E.ghost.setdefault("sums", {})
    if key not in tab:
        t = E.fresh("sum", z3.RealSort())
        E.inexact.add("sum")
        tab[key] = SumTerm(key, tuple(dom), fn, t)
        E.dep("sums are exact (real) and equal when their terms are; no rounding")
        tab[key].ind = indicator(v)
        tab[key].isint = z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL
        if z3.is_rational_value(v) and v.numerator_as_long() == 0:
            E.assume(t == 0)
        if E.ghost.get("nonneg_sums"):
            u = v.arg(0) if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL else v
            tab[key].nn, tab[key].v, tab[key].pr = u.get_id() in E.ghost.get("nonneg_terms", ()) or E.local(v >= 0), v, pr
        if z3.is_rational_value(v) and len(dom) == 1:
            E.assume(t == v * z3.ToReal(zi(dom[0])))
    if getattr(tab[key], "nn", False):
        E.assume(tab[key].term >= 0)
    return tab[key].term


def sample(kind):
    return {"b": Sym(z3.BoolVal(True)), "i": Sym(z3.IntVal(1)), "f": Sym(z3.RealVal(1)), "o": Sym(z3.IntVal(1))}[kind]


E = Engine()


_PROBE = {}


def probe(e, pre=("?",)):
    """Does the term mention a probe variable (an index that stands for no particular element)?"""
    k = (e.get_id(), pre)
    if k not in _PROBE:
        r, st, seen = False, [e], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(pre):
                    r = True
                    break
                st.extend(x.children())
        _PROBE[k] = (r, e)
    return _PROBE[k][0]


def use(engine):
    global E
    _PROBE.clear()
    E = engine
    import sys
    for m in ("arr", "loop", "npm", "xrm", "load", "spec", "maps"):
        mod = sys.modules.get("pyvc." + m) or sys.modules.get(m)
        if mod is not None:
            mod.E = engine
    return engine


# ------------------------------------------------------------------------------------------------ symbolic scalars
def real(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return z3.RealVal(repr(float(x)) if not float(x).is_integer() else str(int(x)))


def zb(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool) or type(x).__name__ == "bool_" or type(x).__name__ == "bool":
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    raise Unsupported(f"not a condition: {type(x)}")


def And(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else (a[0] if len(a) == 1 else z3.And(*a))


def Or(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else (a[0] if len(a) == 1 else z3.Or(*a))


def Not(a):
    a = zb(a)
    return z3.BoolVal(not z3.is_true(a)) if z3.is_true(a) or z3.is_false(a) else z3.Not(a)


def If(c, a, b):
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


class Sym:
    """Integer, (extended) real or Boolean symbolic value."""
    __slots__ = ("e", "nan", "inf", "sq", "tag")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e, nan=False, inf=0, sq=None, tag=None):
        self.e = e
        self.nan = nan
        self.inf = inf
        self.sq = sq
        self.tag = tag

    # kinds
    @property
    def kind(self):
        s = self.e.sort()
        return "b" if s == z3.BoolSort() else ("i" if s == z3.IntSort() else "f")

    def num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) if self.kind == "b" else self

    def __bool__(self):
        if self.kind == "b":
            return E.decide(self.e)
        return E.decide((self != 0).e)

    def __index__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic integer where CPython needs a concrete one")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(Fraction(s.as_string()))
        raise Unsupported("symbolic number where CPython needs a concrete float")

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"Sym({self.e})"

    __str__ = __repr__

    def item(self, *a):
        return self

    def compute(self, **k):
        return self

    persist = load = compute
    values = property(lambda self: self)
    dtype = property(lambda self: self.kind)

    def astype(self, t, **k):
        return cast(self, t)

    def is_integer(self):
        return Sym(z3.IsInt(zr(self)))

    # arithmetic
    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o) if not isinstance(o, (list, tuple)) else rep_list(o, self)
    def __rmul__(self, o): return arith("*", o, self) if not isinstance(o, (list, tuple)) else rep_list(o, self)
    def __truediv__(self, o): return arith("/", self, o)
    def __rtruediv__(self, o): return arith("/", o, self)
    def __floordiv__(self, o): return arith("//", self, o)
    def __rfloordiv__(self, o): return arith("//", o, self)
    def __mod__(self, o): return arith("%", self, o)
    def __rmod__(self, o): return arith("%", o, self)
    def __neg__(self): return arith("-", 0, self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = lift(1)
            for _ in range(o):
                r = r * self
            if o == 2 and self.sq is not None:
                return Sym(self.sq)
            return r
        if o == 0.5:
            return sqrt(self)
        raise Unsupported("power")
    def __rpow__(self, o):
        raise Unsupported("power")
    # comparison
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare("<", o, self)
    def __ge__(self, o): return compare("<=", o, self)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return logic_not(compare("==", self, o))
    # logic
    def __and__(self, o): return logic("&", self, o)
    def __rand__(self, o): return logic("&", o, self)
    def __or__(self, o): return logic("|", self, o)
    def __ror__(self, o): return logic("|", o, self)
    def __xor__(self, o): return logic("^", self, o)
    def __rxor__(self, o): return logic("^", o, self)
    def __invert__(self):
        if self.kind == "b":
            return Sym(Not(self.e))
        raise Unsupported("bitwise not")


class RepList:
    """[v] * n with a symbolic n."""

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __add__(self, o):
        if not isinstance(o, (list, tuple)):
            raise Unsupported("a repeated list plus this")
        return RepThen(self.v, self.n, tuple(o))


class RepThen:
    """[v] * n + [more, ...]."""

    def __init__(self, v, n, more):
        self.v, self.n, self.more = v, n, more


def rep_list(o, n):
    if len(o) != 1:
        raise Unsupported("repetition of a longer list")
    return RepList(o[0], n)


def is_arraylike(x):
    return hasattr(x, "_pyvc_array")


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymStr):
        return x
    if z3.is_expr(x):
        return Sym(x)
    if hasattr(x, "dtype") and hasattr(x, "item") and not is_arraylike(x):
        x = x.item()
    if isinstance(x, bool):
        return Sym(z3.BoolVal(x))
    if isinstance(x, int):
        return Sym(z3.IntVal(x))
    if isinstance(x, (float, Fraction)):
        if isinstance(x, float) and math.isnan(x):
            return Sym(z3.RealVal(0), nan=True)
        if isinstance(x, float) and math.isinf(x):
            return Sym(z3.RealVal(0), inf=1 if x > 0 else -1)
        return Sym(real(x))
    raise Unsupported(f"cannot lift {type(x).__name__}")


def zi(x):
    """z3 Int of an index-like value."""
    x = lift(x)
    if x.kind == "i":
        return x.e
    if x.kind == "b":
        return x.num().e
    s = z3.simplify(x.e)
    if z3.is_rational_value(s) and s.denominator_as_long() == 1:
        return z3.IntVal(s.numerator_as_long())
    raise Unsupported("real used as an index")


def zr(x):
    x = lift(x).num()
    return x.e if x.kind == "f" else z3.ToReal(x.e)


def nanb(x):
    return z3.BoolVal(x.nan) if isinstance(x.nan, bool) else x.nan


def infi(x):
    return z3.IntVal(x.inf) if isinstance(x.inf, int) else x.inf


def finite_plain(x):
    return x.nan is False and isinstance(x.inf, int) and x.inf == 0


def _flags_or(a, b):
    if a is False and b is False:
        return False
    r = Or(z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)
    r = z3.simplify(r)
    return False if z3.is_false(r) else (True if z3.is_true(r) else r)


def arith(op, a, b):
    if is_arraylike(a) or is_arraylike(b):
        return NotImplemented
    if isinstance(a, SymStr) or isinstance(b, SymStr) or isinstance(a, str) or isinstance(b, str):
        return NotImplemented
    try:
        a, b = lift(a).num(), lift(b).num()
    except Unsupported:
        return NotImplemented
    if finite_plain(a) and finite_plain(b):
        if a.kind == "i" and b.kind == "i":
            if op == "+":
                for x, y in ((a, b), (b, a)):
                    if z3.is_mul(x.e) and len(x.e.children()) == 2 and not any(z3.is_int_value(c) for c in x.e.children()):
                        r = z3.simplify(a.e + b.e)
                        E.keep.append(r)
                        E.ghost.setdefault("lin", {})[r.get_id()] = (r, x.e.children(), y.e)
                        return Sym(r)
                return Sym(z3.simplify(a.e + b.e))
            if op == "-":
                return Sym(z3.simplify(a.e - b.e))
            if op == "*":
                return Sym(z3.simplify(a.e * b.e))
            if op in ("//", "%"):
                if not E.provable(b.e > 0):
                    raise Unsupported("integer division by a possibly non-positive value")
                if z3.is_int_value(z3.simplify(b.e)):
                    return Sym(z3.simplify(a.e / b.e) if op == "//" else z3.simplify(a.e % b.e))
                return Sym(divmod_sym(a.e, b.e)[0 if op == "//" else 1])
        x, y = zr(a), zr(b)
        if op == "+":
            return Sym(x + y)
        if op == "-":
            return Sym(x - y)
        if op == "*":
            if a.sq is not None and b.sq is not None and a.e.eq(b.e):
                return Sym(a.sq)
            return Sym(x * y)
        if op == "/":
            yz = z3.simplify(y)
            if z3.is_rational_value(yz) and yz.numerator_as_long() != 0:
                return Sym(x / y)
            if E.local(y != 0) or E.provable(y != 0):
                return Sym(x / y)
            zero = y == 0
            return Sym(If(zero, z3.RealVal(0), x / y), nan=And(zero, x == 0), inf=z3.If(And(zero, x != 0), z3.If(x > 0, 1, -1), 0))
        if op == "//":
            if not E.provable(y > 0):
                raise Unsupported("floor division")
            return Sym(z3.ToReal(z3.ToInt(x / y)))
        if op == "%":
            if not E.provable(y > 0):
                raise Unsupported("modulo")
            return Sym(x - y * z3.ToReal(z3.ToInt(x / y)))
    x, y = zr(a), zr(b)
    nan = _flags_or(a.nan, b.nan)
    ia, ib = infi(a), infi(b)
    if op in ("+", "-"):
        jb = ib if op == "+" else -ib
        n2 = z3.simplify(And(ia != 0, jb != 0, ia != jb))
        inf = z3.simplify(z3.If(ia != 0, ia, jb))
        nan = _flags_or(nan, False if z3.is_false(n2) else n2)
        return Sym(x + y if op == "+" else x - y, nan=nan, inf=inf)
    if op == "*":
        sg = lambda v, i: z3.If(i != 0, i, z3.If(v > 0, 1, z3.If(v < 0, -1, 0)))
        isinf = Or(ia != 0, ib != 0)
        pr = sg(x, ia) * sg(y, ib)
        n2 = And(isinf, pr == 0)
        return Sym(x * y, nan=_flags_or(nan, z3.simplify(n2)), inf=z3.simplify(z3.If(isinf, pr, 0)))
    if op == "/":
        if z3.is_true(z3.simplify(And(ia == 0, ib == 0))) or True:
            zero = And(y == 0, ib == 0)
            n2 = Or(And(zero, x == 0, ia == 0), And(ia != 0, ib != 0))
            sgb = z3.If(ib != 0, ib, z3.If(y >= 0, 1, -1))
            inf = z3.If(And(ia != 0, ib == 0), ia * sgb, z3.If(And(zero, x != 0), z3.If(x > 0, 1, -1), 0))
            return Sym(z3.If(Or(zero, ib != 0), z3.RealVal(0), x / y), nan=_flags_or(nan, z3.simplify(n2)), inf=z3.simplify(inf))
    raise Unsupported(f"{op} on extended reals")


IDIV = z3.Function("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function("imod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def divmod_sym(a, b):
    """Quotient and remainder by a symbolic positive divisor, with the facts that determine them."""
    a, b = z3.simplify(a), z3.simplify(b)
    q, r = IDIV(a, b), IMOD(a, b)
    E.assume(And(r >= 0, r < b))
    if E.ghost.get("divfact"):
        E.assume(a == q * b + r)
    else:
        E.inexact.add("idiv")
    E.assume(z3.Implies(And(a >= 0, a < b), And(q == 0, r == a)))
    E.assume(z3.Implies(And(a >= b, a < 2 * b), And(q == 1, r == a - b)))
    E.assume(z3.Implies(And(a >= -b, a < 0), And(q == -1, r == a + b)))
    E.ghost.setdefault("divs", {})[(a.get_id(), b.get_id())] = (a, b)
    E.keep.extend([a, b])
    relink()
    return q, r


def relink():
    """(x*m + y) // m == x and % m == y for 0 <= y < m, for the products and divisions met so far."""
    for a, b in list(E.ghost.get("divs", {}).values()):
        for s, fac, y in list(E.ghost.get("lin", {}).values()):
            for x, m in (fac, fac[::-1]):
                if z3.simplify(m).eq(b):
                    E.assume(z3.Implies(And(a == s, y >= 0, y < b), And(IDIV(a, b) == x, IMOD(a, b) == y)))
    L = list(E.ghost.get("lin", {}).values())[-8:]
    for i, (s, f, y) in enumerate(L):
        for s2, f2, y2 in L[:i]:
            for (x, m), (x2, m2) in ((f, f2), (f[::-1], f2[::-1])):
                if m.eq(m2):
                    E.assume(z3.Implies(And(x == x2, y == y2), s == s2))


def compare(op, a, b):
    if is_arraylike(a) or is_arraylike(b):
        return NotImplemented
    if a is None or b is None:
        return op == "==" and a is b
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if op != "==":
            return NotImplemented
        if isinstance(a, SymStr):
            return a == b
        if isinstance(b, SymStr):
            return b == a
        return False
    if isinstance(a, (list, tuple, dict, set)) or isinstance(b, (list, tuple, dict, set)):
        return False if op == "==" else NotImplemented
    try:
        a, b = lift(a), lift(b)
    except Unsupported:
        return NotImplemented
    if op == "==" and a.kind == "b" and b.kind == "b":
        return Sym(z3.simplify(a.e == b.e))
    a, b = a.num(), b.num()
    # square roots compare through their squares
    if a.sq is not None or b.sq is not None:
        def sqv(v):
            if v.sq is not None:
                return v.sq
            if finite_plain(v) and E.provable(zr(v) >= 0):
                return zr(v) * zr(v)
            return None
        if finite_plain(a) and finite_plain(b):
            sa, sb = sqv(a), sqv(b)
            if sa is not None and sb is not None:
                return Sym({"<": sa < sb, "<=": sa <= sb, "==": sa == sb}[op])
    if a.kind == "i" and b.kind == "i":
        x, y = a.e, b.e
    else:
        x, y = zr(a), zr(b)
    core = {"<": x < y, "<=": x <= y, "==": x == y}[op]
    if finite_plain(a) and finite_plain(b):
        return Sym(core)
    ia, ib = infi(a), infi(b)
    both = And(ia == 0, ib == 0)
    if op == "==":
        c = Or(And(both, core), And(ia == ib, ia != 0))
    elif op == "<":
        c = Or(ia < ib, And(both, core))
    else:
        c = Or(ia < ib, And(both, core), And(ia == ib, ia != 0))
    return Sym(z3.simplify(And(Not(nanb(a)), Not(nanb(b)), c)))


def logic_not(x):
    if isinstance(x, bool):
        return not x
    if x is NotImplemented:
        return x
    return Sym(Not(x.e))


def logic(op, a, b):
    if is_arraylike(a) or is_arraylike(b):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a.kind != "b" or b.kind != "b":
        raise Unsupported("bitwise operation on integers")
    if op == "&":
        return Sym(And(a.e, b.e))
    if op == "|":
        return Sym(Or(a.e, b.e))
    return Sym(z3.Xor(a.e, b.e))


def ite(c, a, b):
    """If-then-else on Sym values (kinds unified, flags merged)."""
    c = lift(c).e
    if z3.is_true(c):
        return lift(a)
    if z3.is_false(c):
        return lift(b)
    a, b = lift(a), lift(b)
    if a.kind == "b" and b.kind == "b":
        return Sym(z3.If(c, a.e, b.e))
    a, b = a.num(), b.num()
    if a.kind == "i" and b.kind == "i" and finite_plain(a) and finite_plain(b):
        return Sym(a.e if a.e.eq(b.e) else z3.If(c, a.e, b.e))
    e = z3.If(c, zr(a), zr(b))
    if finite_plain(a) and finite_plain(b):
        sq = None
        if a.sq is not None and b.sq is not None:
            sq = z3.If(c, a.sq, b.sq)
        return Sym(e, sq=sq)
    nan = z3.simplify(z3.If(c, nanb(a), nanb(b)))
    nan = False if z3.is_false(nan) else (True if z3.is_true(nan) else nan)
    inf = z3.simplify(z3.If(c, infi(a), infi(b)))
    inf = inf.as_long() if z3.is_int_value(inf) else inf
    return Sym(e, nan=nan, inf=inf)


def same(a, b):
    """Formula: identical values (nan equals nan)."""
    a, b = lift(a), lift(b)
    if a.kind == "b" or b.kind == "b":
        if a.kind == "b" and b.kind == "b":
            return a.e == b.e
        a, b = a.num(), b.num()
    if finite_plain(a) and finite_plain(b):
        if a.kind == "i" and b.kind == "i":
            return a.e == b.e
        return zr(a) == zr(b)
    return And(nanb(a) == nanb(b), Or(nanb(a), And(infi(a) == infi(b), Or(infi(a) != 0, zr(a) == zr(b)))))


def absv(a):
    a = lift(a)
    if finite_plain(a):
        z = z3.IntVal(0) if a.kind == "i" else z3.RealVal(0)
        return Sym(z3.If(a.e >= z, a.e, -a.e))
    return Sym(z3.If(zr(a) >= 0, zr(a), -zr(a)), nan=a.nan, inf=z3.If(infi(a) < 0, -infi(a), infi(a)))


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def sqrt(a):
    a = lift(a)
    if not finite_plain(a):
        if E.ghost.get("total_sqrt") and z3.is_false(z3.simplify(infi(a) != 0)):
            E.dep(E.ghost["total_sqrt"])
            x = z3.simplify(zr(a))
            r = SQRT(x)
            E.assume(z3.Implies(x >= 0, And(r >= 0, r * r == x)))
            return Sym(r, nan=z3.simplify(Or(nanb(a), x < 0)))
        raise Unsupported("sqrt of an extended real")
    x = z3.simplify(zr(a))
    if z3.is_rational_value(x):
        f = Fraction(x.as_fraction()) if hasattr(x, "as_fraction") else None
        r = math.isqrt(f.numerator) if f is not None and f >= 0 else None
        d = math.isqrt(f.denominator) if f is not None else None
        if r is not None and r * r == f.numerator and d * d == f.denominator:
            return Sym(z3.RealVal(str(Fraction(r, d))))
    if not E.provable(x >= 0):
        if E.ghost.get("total_sqrt"):
            E.dep(E.ghost["total_sqrt"])
            s = SQRT(x)
            E.assume(z3.Implies(x >= 0, And(s >= 0, s * s == x)))
            return Sym(s)
        raise Unsupported("sqrt of a possibly negative value")
    s = SQRT(x)
    E.assume(And(s >= 0, s * s == x))
    E.dep("sqrt(x) is the non-negative real with square x")
    return Sym(s, sq=x)


def cast(a, t):
    a = lift(a)
    k = kind_of(t)
    if k == "b":
        return a if a.kind == "b" else Sym((a != 0).e)
    if k == "i":
        if a.kind == "b":
            return a.num()
        if a.kind == "i":
            return a
        if not finite_plain(a):
            if not E.provable(And(Not(nanb(a)), infi(a) == 0)):
                # numpy leaves the value unspecified
                return Sym(E.fresh("cast", z3.IntSort()))
        x = zr(a)
        return Sym(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
    if k == "f":
        return Sym(zr(a), nan=a.nan, inf=a.inf, sq=a.sq)
    return a


def kind_of(t):
    n = t if isinstance(t, str) else getattr(t, "__name__", None) or str(t)
    n = n.lower()
    if "bool" in n or n == "b":
        return "b"
    if "uint" in n or "int" in n or n == "i":
        return "i"
    if "float" in n or n == "f" or "double" in n:
        return "f"
    if "datetime" in n or n == "dt":
        return "i"
    if "object" in n or n == "o" or "str" in n:
        return "o"
    raise Unsupported(f"dtype {t}")


# ------------------------------------------------------------------------------------------------ symbolic strings
_STR = {}


def strcode(s):
    return z3.IntVal(_STR.setdefault(s, len(_STR) + 1))


class SymStr:
    """An arbitrary string, compared only for equality with literals."""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return Sym(self.e == o.e)
        if isinstance(o, str):
            return Sym(self.e == strcode(o))
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else Sym(Not(r.e))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        return bool(Sym(self.e != strcode("")))

    def __format__(self, spec):
        return "<symstr>"

    __str__ = __repr__ = lambda self: "<symstr>"

    def __contains__(self, x):
        raise Unsupported("substring of a symbolic string")

    def lower(self):
        raise Unsupported("symbolic string method")

    upper = strip = lower


def sym_int(name):
    return Sym(z3.Int(name))


def sym_real(name):
    return Sym(z3.Real(name))


def sym_xreal(name):
    """Arbitrary extended real, possibly nan or infinite."""
    i = z3.Int(name + ".inf")
    E.assume(And(i >= -1, i <= 1))
    return Sym(z3.Real(name), nan=z3.Bool(name + ".nan"), inf=i)


def sym_bool(name):
    return Sym(z3.Bool(name))


def sym_str(name):
    c = z3.Int(name)
    E.assume(c >= 1)
    return SymStr(c)


# ------------------------------------------------------------------------------------------------ discharging
def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def cvc5_check(smt2, seconds):
    exe = "/usr/bin/cvc5"
    for c in ("/usr/local/bin/cvc5", "/usr/bin/cvc5", "/opt/veriftools/bin/cvc5"):
        if os.path.exists(c):
            exe = c
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        p = f.name
    try:
        o = subprocess.run([exe, "--tlimit=%d" % (seconds * 1000), p], capture_output=True, text=True, timeout=seconds + 5)
        return (o.stdout.strip().splitlines() or ["unknown"])[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


def relevant(hyps, goal):
    """Cone of influence: hypotheses sharing an uninterpreted symbol with the goal (transitively)."""
    def syms(e, cache={}):
        k = e.get_id()
        if k in cache:
            return cache[k][0]
        out = set()
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(d.get_id())
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        cache[k] = (out, e)
        return out
    want = set(syms(goal))
    rest = [(h, syms(h)) for h in hyps]
    keep = []
    changed = True
    while changed:
        changed = False
        nr = []
        for h, s in rest:
            if s & want or not s:
                keep.append(h)
                if not s <= want:
                    want |= s
                    changed = True
            else:
                nr.append((h, s))
        rest = nr
    return keep


_ABS = ("arctan2", "arcsin", "sin", "cos", "sqrt")


_HAS = {}


def has_abs(e):
    """Does e contain one of the abstracted functions?  (cached for good: the expression is kept alive)"""
    st = [e]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _HAS:
            st.pop()
            continue
        if z3.is_quantifier(x) or not z3.is_app(x):
            _HAS[i] = (False, x)
            continue
        ch = x.children()
        todo = [y for y in ch if y.get_id() not in _HAS]
        if todo:
            st.extend(todo)
            continue
        d = x.decl()
        _HAS[i] = (any(_HAS[y.get_id()][0] for y in ch) or (bool(ch) and d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in _ABS), x)
    return _HAS[e.get_id()][0]


def abstract_uf(exprs):
    """Outermost applications of uninterpreted real functions become constants (same term, same constant): a sound generalisation."""
    memo = {}
    cache = {}

    def go(e):
        i = e.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_quantifier(e) or not z3.is_app(e) or not e.children():
            r = e
        elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in _ABS:
            leaves = []

            def sk(x):
                if x.sort() == z3.IntSort():
                    leaves.append(x)
                    return "#"
                return x.decl().name() + (str(x) if not x.children() else "(" + ",".join(sk(y) for y in x.children()) + ")")
            key = sk(e)
            if key not in memo:
                memo[key] = z3.Function(f"abs!{len(memo)}", *[z3.IntSort()] * len(leaves), e.sort()) if leaves else z3.FreshConst(e.sort(), "abs")
            r = memo[key](*leaves) if leaves else memo[key]
        else:
            r = e.decl()(*[go(x) for x in e.children()])
        cache[i] = (r, e)
        return r
    return [go(e) if has_abs(e) else e for e in exprs]


def abstract_nl(exprs):
    """Non-linear products and quotients become constants (same term, same constant): a sound generalisation. None if there are none."""
    memo, cache = {}, {}
    num = lambda x: z3.is_rational_value(x) or z3.is_int_value(x)

    def go(e):
        i = e.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_quantifier(e) or not z3.is_app(e) or not e.children():
            r = e
        else:
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_MUL and sum(not num(x) for x in ch) > 1 or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not num(ch[1]):
                r = memo.setdefault(i, z3.FreshConst(e.sort(), "nl"))
            else:
                n = [go(x) for x in ch]
                r = e if all(a is b for a, b in zip(n, ch)) else e.decl()(*n)
        cache[i] = (r, e)
        return r
    out = [go(z3.simplify(e)) for e in exprs]
    return out if memo else None


def ground(hyps, goal, inexact, ms=4000):
    """Proved from the ground hypotheses of the goal's cone: (status, backend, seconds, None), else None."""
    t = time.time()
    if z3.is_true(z3.simplify(goal)):
        return "proved", "z3-simplify", 0.0, None
    rel = relevant(hyps, goal) if not z3.is_false(z3.simplify(goal)) else list(hyps)
    for fs in ([abstract_uf([z3.Not(goal)] + rel)] if inexact else []) + [rel + [z3.Not(goal)], None]:
        if fs is None:
            fs = abstract_nl(rel + [z3.Not(goal)])
            if fs is None:
                break
        s = z3.Solver()
        limit(s, ms)
        s.add(*fs)
        if s.check() == z3.unsat:
            return "proved", "z3", time.time() - t, None
    return None


def discharge(hyps, goal, quant=(), inexact=(), ms=8000, use_cvc5=True):
    """-> (status, backend, seconds, model text).  failed only if a model of everything known exists and nothing used is under-axiomatised."""
    t = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return "proved", "z3-simplify", 0.0, None
    rel = relevant(hyps, goal)
    if inexact:
        ab = abstract_uf([z3.Not(goal)] + rel)
        s = z3.Solver()
        limit(s, min(ms, 4000))
        s.add(*ab)
        if s.check() == z3.unsat:
            return "proved", "z3", time.time() - t, None
    s = z3.Solver()
    limit(s, ms)
    for h in rel:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", time.time() - t, None
    model = cone = None
    if r == z3.sat:
        cone = "(of the quantifier-free facts) " + str(s.model())[:2000]
        # a model of the cone is a model only if the rest is consistent with it: ask again with everything
        s = z3.Solver()
        limit(s, ms)
        for h in hyps:
            s.add(h)
        for q in quant:
            s.add(q)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3-quantified" if quant else "z3", time.time() - t, None
        if r == z3.sat:
            model = str(s.model())[:2500]
            return ("failed" if not inexact else "candidate"), "z3", time.time() - t, model
    if use_cvc5:
        c = cvc5_check(s.to_smt2(), max(3, ms // 1000))
        if c == "unsat":
            return "proved", "cvc5", time.time() - t, None
    if cone is not None:
        return "candidate", "z3", time.time() - t, cone
    return "unknown", "z3", time.time() - t, model
