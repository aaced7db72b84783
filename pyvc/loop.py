"""Loops over symbolic ranges.

* a loop whose iterations write only their own cells and carry no scalar state is summarised exactly (body executed once at a symbolic index);
* any other loop needs a specification: invariant over the carried variables, checked at entry and for one arbitrary iteration, assumed at exit.
"""
import z3
from . import core, arr
from .core import Sym, Unsupported, PathDone, And, Or, Not, lift, zi, zb, ite, same
from .arr import Arr, conc
E = core.E


class Range:
    def __init__(self, a, b):
        self.a, self.b = zi(a), zi(b)


def mk_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    vals = [conc(x) for x in a]
    if all(v is not None for v in vals):
        return range(*vals)
    if len(a) == 1:
        return Range(0, a[0])
    if len(a) == 2:
        return Range(a[0], a[1])
    if conc(a[2]) == 1:
        return Range(a[0], a[1])
    if E.provable(zi(a[2]) > 0):
        return SRange(*a)
    raise Unsupported("range with a step")


class SRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = zi(a), zi(b), zi(s)


class Zip:
    """zip/enumerate over symbolic sequences of equal length n; at(k) -> Python tuple."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class Spec:
    """mod: names of carried scalars; arrays: names of carried arrays; inv(env, k) -> list of (label, formula);
    arr_inv: {name: fn(env, k, idx) -> formula on the array's content at idx}; ghost: {name: sort}; ghost_step(env, k, g) -> candidates."""

    def __init__(self, mod=(), arrays=(), inv=None, arr_inv=None, ghost=None, ghost_init=None, ghost_step=None, kinds=None, on_exit=None, rebind=()):
        self.rebind = tuple(rebind)         # arrays the body replaces by another array (never writes into)
        self.mod, self.arrays, self.inv = tuple(mod), tuple(arrays), inv or (lambda env, k: [])
        self.arr_inv = arr_inv or {}
        self.ghost = ghost or {}
        self.ghost_init = ghost_init
        self.ghost_step = ghost_step
        self.kinds = kinds or {}
        self.on_exit = on_exit


class Loop:
    def is_sym(self, it, key=None):
        if isinstance(it, range) and it.step == 1 and key in E.loop_specs:
            return True                     # a loop of known length cut at an invariant all the same
        if isinstance(it, (Range, SRange, Zip)):
            return True
        if isinstance(it, Arr):
            return conc(it.shape[0]) is None
        return False

    def no_else(self):
        raise Unsupported("for/else over a symbolic range")

    def has_spec(self, key):
        return key in E.loop_specs

    # ------------------------------------------------------------------ for
    def for_loop(self, key, it, body, get, set_, env0, names):
        if isinstance(it, Range):
            a, b = it.a, it.b
            item = lambda k: Sym(k)
        elif isinstance(it, range):
            a, b = z3.IntVal(it.start), z3.IntVal(it.stop)
            item = lambda k: Sym(k)
        elif isinstance(it, Arr):
            a, b = z3.IntVal(0), zi(it.shape[0])
            from . import npm
            item = lambda k: npm.nth(it, k)
            if key not in E.loop_specs and it.comp is not None and it.ndim == 1 and len(it.comp[0].dom) == 1:
                # one iteration per selected position, in order
                cc, g = it.comp
                return self.summarise(key, z3.IntVal(0), zi(cc.dom[0]), lambda d: g(d), body, get, set_, env0, names, sel=cc.mask)
        elif isinstance(it, Zip):
            a, b = z3.IntVal(0), zi(it.n)
            item = it.at
        else:
            raise Unsupported("loop over this iterable")
        if key in E.loop_specs:
            return self.invariant(key, a, b, item, body, get, set_, env0, names)
        return self.summarise(key, a, b, item, body, get, set_, env0, names)

    def while_loop(self, key, cond, body, get, set_, env0, names):
        """Invariant rule for `while`; termination is not claimed."""
        n = E.fresh("nwhile", z3.IntSort())
        E.assume(n >= 0)
        return self.invariant(key, z3.IntVal(0), n, lambda k: None, body, get, set_, env0, names, guard=cond)

    def invariant(self, key, a, b, item, body, get, set_, env0, names, guard=None):
        nm = f"{key[0]}#loop{key[1]}"
        env = {n: v for n, v in env0.items() if not n.startswith("__")}
        env.update(get())
        spec = E.loop_specs[key]
        if not isinstance(spec, Spec):
            spec = spec(env)
        for n in list(spec.arrays) + list(spec.mod):
            if n not in env:
                raise Unsupported(f"{nm}: the specification names {n}, which the code does not have here")
        for n in spec.rebind:
            if not isinstance(env.get(n), Arr):
                raise Unsupported(f"{nm}: {n} is not an array")
            env[n] = Arr(env[n].shape, env[n].snapshot(), env[n]._kind)
            set_({n: env[n]})
        arrays = {n: env[n] for n in spec.arrays}
        for n, A in arrays.items():
            if not isinstance(A, Arr) or A.base is not None:
                raise Unsupported(f"{nm}: {n} is not an array of its own")
        g0 = spec.ghost_init(env) if spec.ghost_init else {}
        b_ = b if guard is not None or E.provable(a <= b) else z3.If(b < a, a, b)
        local = {n: Dead(nm, n) for n in names if n not in spec.mod and n not in spec.arrays}
        ent = dict(env, **g0)
        for lab, f in spec.inv(ent, a):
            E.require(f"{nm}: {lab} (on entry)", f)
        for n, fn in spec.arr_inv.items():
            idx = [E.fresh("?e", z3.IntSort()) for _ in arrays[n].shape]
            f = fn(ent, a, idx)
            E.require(f"{nm}: content of {n} (on entry)", z3.Implies(And(*[arr.inb(i, s) for i, s in zip(idx, arrays[n].shape)]), f))

        def havoc(k):
            new = {}
            for n in spec.mod:
                kd = spec.kinds.get(n) or lift(env[n]).kind
                if kd == "x":
                    new[n] = Sym(E.fresh(n, z3.RealSort()), inf=E.fresh(n + ".inf", z3.IntSort()))
                    E.assume(And(new[n].inf >= 0, new[n].inf <= 1))
                else:
                    new[n] = Sym(E.fresh(n, SORT[kd]))
            gh = {n: E.fresh(n, s) for n, s in spec.ghost.items()}
            st = dict(env, **new, **gh)
            for n, A in arrays.items():
                if E.writes is not None:
                    E.writes.append((A, None, A._elem))
                kd = spec.kinds.get(n) or A._kind
                I = [z3.IntSort()] * A.ndim
                if kd == "x":
                    f, fi = E.fresh_fun(n, I, z3.RealSort()), E.fresh_fun(n + ".inf", I, z3.IntSort())
                    A._elem = lambda *i, f=f, fi=fi: (E.assume(And(fi(*i) >= 0, fi(*i) <= 1)), Sym(f(*i), inf=fi(*i)))[1]
                else:
                    f = E.fresh_fun(n, I, SORT[kd])
                    A._elem = lambda *i, f=f: Sym(f(*i))
                A.comp = None
                A.sorted_unique = None
            snap = {n: A._elem for n, A in arrays.items()}
            frozen = dict(st)
            for n, A in arrays.items():
                frozen[n] = Arr(A.shape, snap[n], A._kind)
            for n, fn in spec.arr_inv.items():
                A = arrays[n]

                def el(*i, n=n, fn=fn, A=A):
                    E.assume(z3.Implies(And(*[arr.inb(x, s) for x, s in zip(i, A.shape)]), fn(frozen, k, list(i))))
                    return snap[n](*i)
                A._elem = el
            for lab, f in spec.inv(frozen, k):
                E.assume(f)
            return new, gh, frozen

        if E.choose(nm):
            k = E.fresh("it", z3.IntSort())
            E.assume(a <= k if guard is not None else And(a <= k, k < b_))
            new, gh, frozen = havoc(k)
            set_(dict(local, **new))
            if guard is not None and not guard():
                raise PathDone()
            start = E.serial
            outer = E.writes
            saved_reads = E.reads
            E.writes, E.reads = [], []
            try:
                r = body(item(k))
                wr = E.writes
            finally:
                E.writes, E.reads = outer, saved_reads
            for n in spec.rebind:
                if any(A is arrays[n] for A, _, _ in wr):
                    raise Unsupported(f"{nm}: the body writes into {n}")
            for A, probe, old in wr:
                if A.serial <= start and not any(A is x for x in arrays.values()):
                    raise Unsupported(f"{nm}: the loop also writes an array the specification does not carry")
                if outer is not None:
                    outer.append((A, None, old))
            if r[0] == "r":
                return r
            if r[0] == "b":
                return ("n", None)
            cur = dict(env)
            cur.update({n: v for n, v in get().items() if not isinstance(v, Dead)})
            for n, A in arrays.items():
                if n in spec.rebind:
                    A = get().get(n)
                    if not isinstance(A, Arr) or A.ndim != arrays[n].ndim:
                        raise Unsupported(f"{nm}: {n} is not replaced by an array of its kind")
                    for p, q in zip(A.shape, arrays[n].shape):
                        E.require(f"{nm}: {n} keeps its shape", zi(p) == zi(q))
                    arrays[n] = A
                cur[n] = A
            cands = [gh] if not spec.ghost_step else [dict(gh, **c) for c in spec.ghost_step(dict(cur, **gh), k, gh)]
            allf = [spec.inv(dict(cur, **c), k + 1) for c in cands]
            if len(cands) == 1:
                for lab, f in allf[0]:
                    E.require(f"{nm}: {lab} (kept by an iteration)", f)
            else:
                E.require(f"{nm}: invariant (kept by an iteration, for some ghost value)", Or(*[And(*[zb(f) for _, f in fs]) for fs in allf]))
            for n, fn in spec.arr_inv.items():
                A = arrays[n]
                idx = [E.fresh("?m", z3.IntSort()) for _ in A.shape]
                f = fn(dict(cur, **cands[0]), k + 1, idx)
                E.require(f"{nm}: content of {n} (kept by an iteration)", z3.Implies(And(*[arr.inb(i, s) for i, s in zip(idx, A.shape)]), f))
            raise PathDone()
        new, gh, frozen = havoc(b_)
        set_(dict(local, **new))
        if guard is not None and guard():
            raise PathDone()
        E.ghost.setdefault("loops", {})[key] = gh
        return ("n", None)

    # ------------------------------------------------------------------ exact summary
    def summarise(self, key, a, b, item, body, get, set_, env0, names, sel=None):
        inside = lambda t: And(a <= t, t < b, *([zb(sel(t))] if sel is not None else []))
        nm = f"{key[0]}#loop{key[1]}"
        before = get()
        k = E.fresh("k", z3.IntSort())
        start = E.serial
        outer, outer_reads, outer_rec = E.writes, E.reads, E.rec
        local = {n: Dead(nm, n) for n in names if n in before}

        def once():
            E.writes, E.reads = [], []
            E.rec = (start, [])
            E.binders.append(k)
            try:
                E.assume(inside(k))
                set_(dict(before, **local))
                nu, nh = len(E.univ), len(E.hyps)
                np_ = {a_: len(l) for a_, l in E.points.items()}
                r = body(item(k))
                decs = lambda f: [h for h, d in zip(E.hyps[nh:E.univ_at.get(id(f), len(E.hyps))], E.isdec[nh:]) if d]
                once.univ.append(([(ar, f, tag, decs(f)) for ar, f, tag in E.univ[nu:]], [q for a_, l in E.points.items() for q in l[np_.get(a_, 0):]]))
                if r[0] in ("b", "r"):
                    raise Unsupported(f"{nm}: early exit from a loop without a specification")
                res = {}
                for A, probe, old in E.writes:
                    if A.serial <= start:
                        res[id(A)] = (A, A._elem)
                once.recs.append(list(E.rec[1]))
                return res, list(E.writes), list(E.reads)
            finally:
                E.binders.pop()
                for A, probe, old in reversed(E.writes):
                    A._elem = old
        once.recs, once.univ = [], []
        try:
            paths = E.explore(once, keep_sums=True)
        finally:
            E.writes, E.reads, E.rec = outer, outer_reads, outer_rec
        if any(once.recs):
            if outer_rec is not None and any(x[0].serial <= outer_rec[0] for r in once.recs for x in r):
                raise Unsupported(f"{nm}: lists grown in nested symbolic loops")
            if len(once.recs) != len(paths):
                raise Unsupported(f"{nm}: list growth on abandoned paths")
            fams = [(p[0], r) for p, r in zip(paths, once.recs) if r]
            if any(x[1] == "set" for _, r in fams for x in r):
                if sel is not None or any(x[1] != "set" for _, r in fams for x in r):
                    raise Unsupported(f"{nm}: lists and dictionaries grown together")
                long_dicts(nm, k, a, b, fams)
            elif sel is not None:
                raise Unsupported(f"{nm}: lists grown over a selection")
            else:
                long_lists(nm, k, a, b, fams)
        E.ghost.setdefault("stale", {})[k.get_id()] = k
        touched = {}
        axes = {}
        for hy, kind, val in paths:
            if kind == "exc":
                raise Unsupported(f"{nm}: the body may raise {type(val).__name__}: {val}")
            res, wl, rl = val
            for A, probe, old in wl:
                if A.serial > start:
                    continue
                touched[id(A)] = A
                s = set() if probe is None else {p for p, x in enumerate(probe) if x is not None and z3.simplify(x).eq(k)}
                axes[id(A)] = s if id(A) not in axes else axes[id(A)] & s
        scat = {}
        for i, s in axes.items():
            if not s:
                fam = []
                for hy, kind, (res, wl, rl) in paths:
                    ws = [probe for A, probe, old in wl if A is touched[i]]
                    if len(ws) > 1 or any(pr is None or any(x is None for x in pr) for pr in ws):
                        raise Unsupported(f"{nm}: a write whose cell is not the iteration's own")
                    if any(A is touched[i] for A, _ in rl):
                        raise Unsupported(f"{nm}: an iteration reads an array the loop scatters into")
                    fam.append((hy, ws[0] if ws else None, res[i][1] if ws else None))
                if outer is not None:
                    raise Unsupported(f"{nm}: a scatter inside another loop")
                scat[i] = fam
        for i, fam in scat.items():
            scatter(k, inside, b, touched[i], fam)
            del touched[i]
        for hy, kind, (res, wl, rl) in paths:
            for A, idx in rl:
                if id(A) in touched and not any(z3.simplify(zi(idx[p])).eq(k) for p in axes[id(A)]):
                    raise Unsupported(f"{nm}: an iteration reads cells written by another")
                if outer is not None:
                    outer_reads.append((A, idx))
        for i, A in touched.items():
            p = min(axes[i])
            old = A._elem
            if outer is not None:
                pr = None
                for _, _, (_, wl, _) in paths:
                    for B, probe, _o in wl:
                        if B is A:
                            q = [None if x is None or mentions(x, k) else x for x in probe]
                            pr = q if pr is None else [x if x is not None and y is not None and x.eq(y) else None for x, y in zip(pr, q)]
                outer.append((A, tuple(pr), old))
            un = once.univ if len(once.univ) == len(paths) else [([], [])] * len(paths)
            branches = [(hy, val[0][i][1] if i in val[0] else None, u) for (hy, kind, val), u in zip(paths, un)]

            def el(*idx, branches=branches, p=p, old=old):
                kk = idx[p]
                sub = (k, kk)
                inr = z3.simplify(inside(kk))
                cur = old(*idx)
                for hy, f, un in reversed(branches):
                    if f is None:
                        continue
                    j = list(idx)
                    j[p] = k
                    E.binders.append(k)
                    m = E.mark()
                    try:
                        for h in hy:
                            E.assume(h)
                        m1 = E.mark()
                        v = f(*j)
                        new = list(E.since(m1))
                    finally:
                        E.rollback(m)
                        E.binders.pop()
                    dec = subst(And(*hy.decisions), sub)
                    for ds, h in hy.guarded_facts:
                        E.assume(z3.Implies(And(inr, *[subst(d, sub) for d in ds]), subst(h, sub)))
                    for h in new:
                        E.assume(z3.Implies(And(inr, dec), subst(h, sub)))
                    cur = ite(Sym(z3.simplify(And(inr, dec))), subst_sym(v, sub), cur)
                    inst_sums(k, kk, z3.simplify(And(inr, dec)))
                    inst_univ(k, kk, inr, un)
                return cur
            A._elem = el
            A.comp = None
            A.sorted_unique = None
        set_({n: Dead(nm, n) for n in names})
        return ("n", None)


def under_binder(k, kk, guard, thunk):
    """thunk evaluated with the iteration variable k, its value and the facts it needs taken at k = kk."""
    sub = (k, kk)
    E.binders.append(k)
    m = E.mark()
    try:
        m1 = E.mark()
        v = thunk()
        new = list(E.since(m1))
    finally:
        E.rollback(m)
        E.binders.pop()
    for h in new:
        E.assume(z3.Implies(guard, subst(h, sub)))
    return v


def inst_sums(k, kk, guard):
    """Sums formed in the body as functions of the iteration, at iteration kk."""
    if kk.eq(k):
        return
    tab = E.ghost.setdefault("sums", {})
    for key, t in list(tab.items()):
        if not any(c.eq(k) for c in t.term.children()):
            continue
        nk = ("inst", key, kk.get_id())
        if nk in tab:
            if t.isint:
                E.sumfact(z3.IsInt(tab[nk].term))
            continue
        E.keep.append(kk)
        dom = tuple(Sym(z3.simplify(subst(zi(n), (k, kk)))) for n in t.dom)
        def fn(*d, t=t):
            v = Sym(subst(core.zr(under_binder(k, kk, guard, lambda: t.fn(*d))), (k, kk)))
            inst_sums(k, kk, guard)
            return v
        s = core.SumTerm(nk, dom, fn, subst(t.term, (k, kk)))
        s.ind, s.isint = t.ind, t.isint
        if t.isint:
            E.sumfact(z3.IsInt(s.term))
        tab[nk] = s


def inst_univ(k, kk, guard, un):
    if kk.eq(k):
        return
    tab = E.ghost.setdefault("instuniv", {})
    un, pts = un
    for n, (ar, f, tag, decs) in enumerate(un):
        key = (id(f), kk.get_id())
        gd = z3.simplify(And(guard, *[subst(d, (k, kk)) for d in decs]))
        if key in tab and any(g is tab[key] for _, g, _ in E.univ):
            continue
        E.keep.append(kk)

        def mk(f, gd):
            return lambda *d: z3.Implies(gd, subst(under_binder(k, kk, gd, lambda: f(*d)), (k, kk)))
        g = mk(f, gd)
        tab[key] = g
        E.universal(ar, g, tag=tag)
    for idx, tag in pts:
        if any(mentions(x, k) for x in idx):
            E.point(*[subst(x, (k, kk)) for x in idx], tag=tag)


def at_iter(k, hy, inside, t, fn):
    """fn evaluated in iteration t of a path with hypotheses hy."""
    sub = (k, t)
    E.binders.append(k)
    m = E.mark()
    try:
        for h in hy:
            E.assume(h)
        m1 = E.mark()
        v = fn()
        new = list(E.since(m1))
    finally:
        E.rollback(m)
        E.binders.pop()
    dec = subst(And(*hy.decisions), sub)
    for ds, h in hy.guarded_facts:
        E.assume(z3.Implies(And(inside(t), *[subst(d, sub) for d in ds]), subst(h, sub)))
    for h in new:
        E.assume(z3.Implies(And(inside(t), dec), subst(h, sub)))
    if isinstance(v, (list, tuple)):
        return dec, [subst(x, sub) for x in v]
    return dec, subst_sym(v, sub)


def scatter(k, inside, b, A, fam):
    """A[t(k)] = v(k) for every iteration; where cells coincide the last iteration stays."""
    I = [z3.IntSort()] * A.ndim
    H, W = E.fresh_fun("hit", I, z3.BoolSort()), E.fresh_fun("lastit", I, z3.IntSort())
    old = A._elem
    fam = [(hy, tuple(zi(x) for x in pr), f) for hy, pr, f in fam if pr is not None]

    def fact(t):
        out = []
        for hy, pr, f in fam:
            dec, tt = at_iter(k, hy, inside, t, lambda: list(pr))
            out.append(z3.Implies(And(inside(t), dec), And(H(*tt), W(*tt) >= t)))
        return And(*out)
    E.universal(1, fact, dom=(b,))

    def el(*idx):
        w = W(*idx)
        h = H(*idx)
        if E.pdepth <= 1 and not any(core.probe(x) for x in idx):
            E.point(w, dom=(b,))
        cur = old(*idx)
        why = []
        for hy, pr, f in fam:
            dec, tt = at_iter(k, hy, inside, w, lambda: list(pr))
            why.append(And(inside(w), dec, *[x == y for x, y in zip(tt, idx)]))
            _, v = at_iter(k, hy, inside, w, lambda: f(*pr))
            cur = ite(Sym(And(h, dec)), v, cur)
        E.assume(z3.Implies(h, Or(*why)))
        return cur
    A._elem = el
    A.comp = None
    A.sorted_unique = None


def long_dicts(nm, k, a, b, fams):
    """Dictionaries filled with one entry per iteration."""
    from . import maps
    if len(fams) != 1 or len({id(r[0]) for r in fams[0][1]}) != len(fams[0][1]):
        raise Unsupported(f"{nm}: a dictionary filled on several paths")
    hy, recs = fams[0]
    inside = lambda t: And(a <= t, t < b)
    kk = E.fresh("?k", z3.IntSort())
    triv = core.ground([], z3.Implies(inside(kk), subst(And(*hy.decisions), (k, kk))), ()) is not None
    for D, kind, (x, v) in recs:
        if dict.__len__(D) or D.sym is not None:
            raise Unsupported(f"{nm}: a dictionary that was not empty")
        key = lambda j, x=x: at_iter(k, hy, inside, zi(j) + a, lambda: lift(x))[1]
        val = lambda j, v=v: at_iter(k, hy, inside, zi(j) + a, lambda: lift(v))[1]
        guard = None if triv else (lambda j: subst(And(*hy.decisions), (k, zi(j) + a)))
        D.sym = maps.SymMap(z3.simplify(b - a), key, val, guard)


def long_lists(nm, k, a, b, fams):
    """Lists grown by exactly one family of elements per iteration."""
    if len(fams) != 1:
        raise Unsupported(f"{nm}: lists grown on several paths")
    hy, recs = fams[0]
    if len({id(r[0]) for r in recs}) != len(recs):
        raise Unsupported(f"{nm}: a list grown twice per iteration")
    comp = None
    for L, kind, v in recs:
        if list.__len__(L):
            raise Unsupported(f"{nm}: a list that was not empty")
        if isinstance(v, arr.SymList) and v.src is not None and v.src.comp is not None:
            comp = v.src.comp[0]
    seq = [r for r in recs if r[1] == "seq"]
    if seq and len(seq) != len(recs):
        raise Unsupported(f"{nm}: lists of different lengths")
    if seq and comp is None:
        raise Unsupported(f"{nm}: list growth of unknown length")
    dec = And(*hy.decisions)

    def at(t, fn):
        """fn evaluated in iteration t."""
        sub = (k, t)
        E.binders.append(k)
        m = E.mark()
        try:
            for h in hy:
                E.assume(h)
            m1 = E.mark()
            v = fn()
            new = list(E.since(m1))
        finally:
            E.rollback(m)
            E.binders.pop()
        g = And(a <= t, t < b, subst(dec, sub))
        for ds, h in hy.guarded_facts:
            E.assume(z3.Implies(And(a <= t, t < b, *[subst(d, sub) for d in ds]), subst(h, sub)))
        for h in new:
            E.assume(z3.Implies(g, subst(h, sub)))
        return subst(v, sub) if z3.is_expr(v) else subst_sym(v, sub)
    dom = comp.dom if comp is not None else ()
    guard = lambda t, *d: And(a <= t, t < b, subst(dec, (k, t)), *([*[arr.inb(x, s) for x, s in zip(d, dom)], at(t, lambda: comp.mask(*d))] if comp is not None else []))
    lay = arr.Layout(a, b, dom, guard, object())
    for L, kind, v in recs:
        if kind == "one":
            tup = isinstance(v, tuple)
            L.long = arr.Long(lay, lambda t, *d, v=v: at(t, lambda: lift(v)), "tuple" if tup else lift(v).kind)

            def seq_of(f, v=v, tup=tup):
                kk = E.fresh("?k", z3.IntSort())
                if core.ground([], z3.Implies(And(a <= kk, kk < b), subst(dec, (k, kk))), ()) is None:
                    raise Unsupported(f"{nm}: a list grown in some iterations only")
                val = lambda j: tuple(at(zi(j) + a, lambda x=x: lift(x)) for x in v) if tup else at(zi(j) + a, lambda: lift(v))
                return Sym(z3.simplify(b - a)), lambda j: f(val(j))
            L.long.comp = seq_of
        elif isinstance(v, core.RepList):
            if not z3.simplify(zi(v.n)).eq(z3.simplify(comp.n)) :
                raise Unsupported(f"{nm}: repetition count differs from the selection")
            L.long = arr.Long(lay, lambda t, *d, v=v: at(t, lambda: lift(v.v)), lift(v.v).kind)
        else:
            if v.src.comp is None or v.src.comp[0] is not comp:
                raise Unsupported(f"{nm}: lists of different lengths")
            g = v.src.comp[1]
            L.long = arr.Long(lay, lambda t, *d, g=g: at(t, lambda: g(*d)), v.src._kind)


SORT = {"b": z3.BoolSort(), "i": z3.IntSort(), "f": z3.RealSort()}


def mentions(e, k):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        st.extend(x.children())
    return False


class Dead:
    """A variable whose value after (or before) an iteration is not tracked: any use is outside the subset."""
    def __init__(self, nm, n):
        object.__setattr__(self, "_m", f"{nm}: variable {n} is carried between iterations")

    def _no(self, *a, **k):
        raise Unsupported(self._m)
    __getattr__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
    __getitem__ = __setitem__ = __len__ = __iter__ = __call__ = __index__ = __and__ = __or__ = __invert__ = __neg__ = __iadd__ = __truediv__ = __format__ = _no
    __hash__ = _no


def subst(e, sub):
    return z3.substitute(e, sub)


def subst_sym(v, sub):
    v = lift(v)
    f = lambda x: z3.substitute(x, sub) if z3.is_expr(x) else x
    return Sym(f(v.e), nan=f(v.nan), inf=f(v.inf), sq=f(v.sq) if v.sq is not None else None)
