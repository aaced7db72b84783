"""P10, P13, P15, P18: the tracking run (run, run_tracking, track_objects) as a composition of its steps."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb, is_repo_error
from ..core import sym_int, sym_real, sym_bool, Unsupported
from .. import core, npm, xrm, arr
from ..arr import Arr, sym_arr, inb, comp_of
from ..load import Self
from ..loop import Spec
from .c17 import grid
from .c01 import attempt
from .c05 import _Ctx
from .c07 import _plan
T = "marEx.track"


def rp_run(tier): return _plan("P13", "P15", "P19")
def rp_trk(tier): return _plan("P13", "P10")


class Tok:
    """An opaque result: only its identity can be observed."""
    _tok = True

    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    dims = property(lambda s: {})
    sizes = dims
    def __format__(self, s): return self.name


def nop(*a, **k): return None


QUIET = {(T, "log_timing"): lambda *a, **k: _Ctx(), (T, "log_memory_usage"): nop, (T, "log_dask_info"): nop, (T, "configure_logging"): nop}


@contract(["P13", "P15", "P19"], f"{T}.tracker.run", rp_run, title="the whole run")
def run(c):
    """One preprocessing with the caller's checkpoint, one tracking of its field, one set of attributes from its statistics and the tracking's ledger and count; the ledger is
    returned exactly when it was asked for and merging is on."""
    for merging in (False, True):
        for ret in (False, True, None):
            for ck in (None, "save"):
                def t():
                    log = []
                    field, stats, ev, mg, n, out = [Tok(x) for x in ("field", "stats", "events", "merges", "count", "final")]

                    def m(name, res):
                        sig = c.repo.sig(T, "tracker." + name)

                        def f(*a, **k):
                            b = sig.bind(None, *a, **k)
                            b.apply_defaults()
                            log.append((name, dict(b.arguments)))
                            return res
                        return f
                    c.new_repo({"dask.distributed.wait": nop}, QUIET)
                    ms = {"run_preprocess": m("run_preprocess", (field, stats)), "run_tracking": m("run_tracking", (ev, mg, n)), "run_stats_attributes": m("run_stats_attributes", out)}
                    slf = Self(c.repo, T, "tracker", {"allow_merging": merging, "unstructured_grid": False, "verbose": None, "quiet": None, "data_bin": Tok("data"), "checkpoint": None,
                                                     "T_fill": 2, "R_fill": 2, "area_filter_quartile": 0.5, "area_filter_absolute": None, "overlap_threshold": 0.5, "nn_partitioning": True,
                                                     "_use_absolute_filtering": False, "regional_mode": False}, ms)
                    r = slf.run(**dict({} if ret is None else {"return_merges": ret}, **({} if ck is None else {"checkpoint": ck})))
                    tag = f"merging {'on' if merging else 'off'}, ledger {'asked for' if ret else 'by default' if ret is None else 'not asked for'}, checkpoint {ck}"
                    names = [x for x, _ in log]
                    ok = names == ["run_preprocess", "run_tracking", "run_stats_attributes"]
                    c.require(f"three steps, in order, once each ({tag})", z3.BoolVal(ok))
                    if not ok:
                        return
                    a, b, s = [d for _, d in log]
                    v = lambda d: [x for k, x in d.items() if k != "self"]
                    c.require(f"the checkpoint option reaches the preprocessing ({tag})", z3.BoolVal(v(a) == [ck]))
                    c.require(f"the preprocessed field is tracked ({tag})", z3.BoolVal(len(v(b)) == 1 and v(b)[0] is field))
                    c.require(f"attributes of these events, merges, statistics and count ({tag})", z3.BoolVal([x for x in v(s)] == [ev, mg, stats, n]))
                    if merging and ret:
                        c.require(f"events and ledger returned ({tag})", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[0] is out and r[1] is mg))
                    else:
                        c.require(f"events returned ({tag})", z3.BoolVal(r is out))
                c.run(t)


@contract(["P13", "P10"], f"{T}.tracker.run_tracking", rp_trk, title="tracking route")
def route(c):
    """Meshes and runs with merging go through the tracking of objects, other runs are one space-time labelling; the field returned holds the positive labels and 0 elsewhere."""
    for mesh in (False, True):
        for merging in (False, True):
            for renamed in (False, True):
                def t():
                    E = c.E
                    log = []
                    c.new_repo(None, QUIET)
                    da, sz = grid(E, mesh)
                    ids = xrm.DA(sym_arr("ids", sz, "i"), dims=da.dims, coords=dict(da.coords))
                    mg, N = Tok("merges"), sym_int("N")

                    def trk(x):
                        log.append(("track", x, None))
                        return xrm.DS({"ID_field": ids}), mg, N

                    def ident(data_bin, time_connectivity):
                        log.append(("label", data_bin, time_connectivity))
                        return ids, None, N
                    slf = Self(c.repo, T, "tracker", {"allow_merging": merging, "unstructured_grid": mesh, "timedim": "time", "timecoord": "datum" if renamed else "time"},
                               {"track_objects": trk, "identify_objects": ident})
                    ev, m2, n2 = slf.run_tracking(da)
                    tag = f"{'mesh' if mesh else 'grid'}, merging {'on' if merging else 'off'}{', time coordinate of another name' if renamed else ''}"
                    want = "track" if mesh or merging else "label"
                    ok = len(log) == 1 and log[0][0] == want and log[0][1] is da
                    c.require(f"one {'tracking of objects' if want == 'track' else 'space-time labelling'} of the given field ({tag})", z3.BoolVal(ok and (want == "track" or log[0][2] is True)))
                    ix = {k: z3.Int("p_" + k) for k in da.dims}
                    E.assume(And(*[inb(ix[k], s) for k, s in zip(da.dims, sz)]))
                    f = ev["ID_field"]
                    v = ids.get(**ix).e
                    c.require(f"positive labels kept, everything else 0 ({tag})", And(z3.BoolVal(set(f.dims) == set(da.dims)), zr(f.get(**ix)) == z3.ToReal(z3.If(v > 0, v, 0))))
                    c.require(f"count of events ({tag})", zi(lift(n2)) == N.e)
                    if want == "track":
                        c.require(f"the ledger of the tracking ({tag})", z3.BoolVal(m2 is mg))
                    if renamed:
                        c.require(f"time coordinate under the caller's name ({tag})", z3.BoolVal("datum" in ev.coords and "time" not in ev.coords))
                        if "datum" in ev.coords:
                            c.require(f"time labels unchanged ({tag})", zi(ev.coords["datum"].arr.get(ix["time"])) == zi(da.coords["time"].arr.get(ix["time"])))
                c.run(t)


@contract(["P13", "P10", "P14"], f"{T}.tracker.track_objects", rp_trk, title="tracking of objects")
def track(c):
    """Objects of each time are labelled, made distinct over time, measured, divided and joined, and clustered into events: each step takes the previous one's result."""
    for mesh in (False, True):
        def t():
            E = c.E
            log = []
            E.ghost["nonneg_sums"] = E.ghost["prefix_sums"] = True
            c.new_repo({"dask.persist": lambda *a, **k: a, "dask.distributed.wait": nop, "dask.base.persist": lambda *a, **k: a}, QUIET)
            da, sz = grid(E, mesh)
            ids = xrm.DA(sym_arr("ids", sz, "i", lambda v: v >= 0), dims=da.dims, coords=dict(da.coords))
            fid = xrm.DA(sym_arr("events", sz, "i", lambda v: v >= 0), dims=da.dims, coords=dict(da.coords))
            props, p2, ov, mg, f2 = Tok("props"), Tok("props2"), Tok("overlaps"), Tok("ledger"), Tok("field2")
            for x in (props, p2):
                x.persist = lambda x=x: x
            ev = xrm.DS({"ID_field": fid})

            def ident(data_bin, time_connectivity):
                log.append(("label", data_bin, time_connectivity))
                return ids, None, sym_int("n")

            def cprops(object_id_field, properties=None):
                log.append(("props", object_id_field, properties))
                return props

            def div(kind):
                def f(a, b):
                    log.append((kind, a, b))
                    return f2, p2, ov, mg
                return f

            def clus(*a):
                log.append(("cluster", a))
                return ev
            slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "timedim": "time", "xdim": "lon", "ydim": "lat", "timechunks": 4, "allow_merging": True},
                       {"identify_objects": ident, "calculate_object_properties": cprops, "split_and_merge_objects": div("serial"), "split_and_merge_objects_parallel": div("parallel"),
                        "cluster_rename_objects_and_props": clus, "refresh_dask_graph": lambda x: x})
            if mesh:
                a = [z3.Ints("t1 x1"), z3.Ints("t2 x2")]
                for q in a:
                    E.assume(And(*[inb(v, s) for v, s in zip(q, sz)]))
                    E.point(q[1], dom=(sz[1],))
            r, m2, n = slf.track_objects(da)
            g = "mesh" if mesh else "grid"
            names = [x[0] for x in log]
            ok = names == ["label", "props", "parallel" if mesh else "serial", "cluster"]
            c.require(f"labelling, measurement, division, clustering, once each ({g})", z3.BoolVal(ok))
            if not ok:
                return
            c.require(f"objects of each time alone, of the given field ({g})", z3.BoolVal(log[0][1] is da and log[0][2] is False))
            fld = log[1][1]
            c.require(f"areas and centroids are measured ({g})", z3.BoolVal(log[1][2] is None or set(log[1][2]) >= {"area", "centroid"}))
            c.require(f"the measured field is the one divided, with its properties ({g})", z3.BoolVal(log[2][1] is fld and log[2][2] is props))
            c.require(f"clustering takes the divided field, its properties, overlaps and ledger ({g})", z3.BoolVal(tuple(log[3][1]) == (f2, p2, ov, mg)))
            c.require(f"events and ledger returned ({g})", z3.BoolVal(r is ev and m2 is mg))
            if not mesh:
                ix = z3.Ints("t y x")
                E.assume(And(*[inb(a, s) for a, s in zip(ix, sz)]))
                c.require("labels are passed on unchanged (grid)", zi(fld.arr.get(*ix)) == zi(ids.arr.get(*ix)))
                return
            (t1, x1), (t2, x2) = a
            A = [zr(fld.get(time=q[0], lon=q[1])) for q in a]
            O = [ids.arr.get(*q).e for q in a]
            c.require("an object stays an object, background stays background (mesh)", And((A[0] > 0) == (O[0] > 0), A[0] >= 0))
            c.require("within one time labels coincide exactly where they did (mesh)", z3.Implies(And(t1 == t2, O[0] > 0, O[1] > 0), (A[0] == A[1]) == (O[0] == O[1])))
            c.require("objects of different times have different labels (mesh)", z3.Implies(And(t1 < t2, O[0] > 0, O[1] > 0), A[0] < A[1]))
        c.run(t)


def rp_led(tier): return _plan("P15")


class Block(Arr):
    """One time block of the ledger, (sibling, time, event), addressed by labels."""

    def __init__(self, shape, elem, times):
        super().__init__(shape, elem, "i")
        self.times = times
        self.coords = {"time": times}
        self.dims = ("sibling_ID", "time", "ID")

    def __getitem__(self, k):
        return self.times if isinstance(k, str) and k == "time" else Arr.__getitem__(self, k)

    @property
    def loc(self):
        blk = self

        class Loc:
            def __setitem__(self, key, v):
                if not isinstance(key, dict) or set(key) != {"time", "ID"} or not isinstance(v, Arr) or v.ndim != 2 or arr.conc(v.shape[1]) != 1:
                    raise Unsupported("this assignment by label")
                tv, ids = lift(key["time"]), arr.to_arr(key["ID"])
                h = npm.member(ids)
                el, tm = v.snapshot(), blk.times
                core.E.require("one sibling per row is written", zi(v.shape[0]) == zi(blk.shape[0]))
                blk.write(lambda s, t, i: (And(tm.get(t).e == tv.e, h(Sym(i + 1))), (s, z3.IntVal(0))), lambda o: el(*o), None)
        return Loc()


class XRB:
    def __getattr__(self, a): return getattr(xrm.xr, a)

    def full_like(self, b, fill_value=None, **k):
        return Block(b.shape, lambda *i: lift(fill_value), b.times)


@contract(["P15"], f"{T}.tracker.cluster_rename_objects_and_props.process_time_group", rp_led, title="ledger of a time block")
def ledger(c):
    """At the time of a merge the entry of each event that took part lists the participants of that merge; every other entry is empty (-1)."""
    for took_part in (False, True):
        def t():
            E = c.E
            nt, N, K, nm = sym_int("n_times"), sym_int("n_events"), sym_int("max_parents"), sym_int("n_merges")
            E.assume(And(nt.e >= 1, N.e >= 1, K.e >= 2, nm.e >= 0))
            tm = sym_arr("time", (nt,), "i")
            mt = sym_arr("merge_time", (nm,), "i")
            pf = z3.Function("participant", z3.IntSort(), z3.IntSort(), z3.IntSort())
            s, ti, j, m0, k0 = z3.Ints("s ti j m0 k0")
            E.assume(And(inb(s, K), inb(ti, nt), inb(j, N)))
            E.point(ti, dom=(nt,))
            T0 = tm.get(ti).e
            if took_part:
                E.assume(And(inb(m0, nm), inb(k0, K), mt.get(m0).e == T0, pf(m0, k0) == j + 1))
                E.point(m0, dom=(nm,))
                E.point(k0, dom=(K,))
            else:
                m0 = z3.IntVal(-1)

            def part(m, k):
                mt_m = mt.get(m).e
                E.assume(z3.Implies(And(inb(m, nm), inb(k, K)), And(pf(m, k) >= 0, pf(m, k) <= N.e, z3.Implies(And(mt_m == T0, pf(m, k) == j + 1), m == m0))))
                return Sym(pf(m, k))
            P = Arr((nm, K), part, "i")
            want = z3.If(pf(m0, s) > 0, pf(m0, s), -1) if took_part else z3.IntVal(-1)
            if took_part:
                P.get(m0, s)
                P.get(m0, k0)
            u = npm.np.unique(tm)
            E.point(u.upos(T0), dom=u.shape)
            at = lambda i: And(i[0] == s, i[1] == ti, i[2] == j)

            def outer(env):
                pos = zi(u.upos(T0))
                return Spec(arrays=["result"], arr_inv={"result": lambda e, k, i: z3.Implies(at(i), e["result"].get(*i).e == z3.If(pos < k, want, -1))})

            def inner(env):
                here = zi(env["time_val"]) == T0
                done = comp_of(mt == env["time_val"])[0].rank(m0) if took_part else z3.IntVal(0)
                ent = env["result"].snapshot()
                return Spec(arrays=["result"], arr_inv={"result": lambda e, k, i: z3.Implies(at(i), e["result"].get(*i).e == z3.If(And(here, z3.BoolVal(took_part)), z3.If(zi(done) < k, want, -1), ent(*i).e))})
            c.new_repo({"xarray": XRB()})
            fn = "tracker.cluster_rename_objects_and_props.process_time_group"
            E.loop_specs = {(fn, 0): outer, (fn, 1): inner}
            f = c.repo.fn_nested(T, "tracker.cluster_rename_objects_and_props", "process_time_group", {"self": Self(c.repo, T, "tracker", {"timedim": "time", "timecoord": "time"})})
            r = f(Block((K, nt, N), lambda *i: Sym(E.fresh("old", z3.IntSort())), tm), P, {"merge_time": mt})
            if not isinstance(r, Block):
                raise Unsupported("another kind of result")
            lab = "a participant's entry lists the merge's participants" if took_part else "an event in no merge at that time has an empty entry"
            c.require(lab, r.get(s, ti, j).e == want)
        c.run(t)


def rp_time(tier): return _plan("P13", "P15")


@contract(["P13", "P15"], f"{T}.tracker.compute_id_time_dict", rp_time, title="when an object occurs")
def when(c):
    """Every searched ID is listed with the first time at which the field contains it (objects are numbered so that each lives at one time)."""
    for mesh in (False, True):
        for every in (True, False):
            def t():
                E = c.E
                da, sz = grid(E, mesh, kind="i")
                E.ghost["ufunc_points"] = True
                slf = Self(c.repo, T, "tracker", {"unstructured_grid": mesh, "timedim": "time", "ydim": None if mesh else "lat", "xdim": da.dims[-1], "timecoord": "time"})
                n, k, tt = sym_int("nsearch"), sym_int("k"), sym_int("t")
                E.assume(And(n.e >= 1, k.e >= 0, k.e < n.e, tt.e >= 0, tt.e < zi(sz[0])))
                ch = sym_arr("children", (n,), "i")
                r = slf.compute_id_time_dict(da, ch, n, all_objects=every)
                ident = k if every else ch.get(k)
                x = [sym_int(f"x{i}") for i in range(len(sz) - 1)]
                for a, b in zip(x, sz[1:]):
                    E.assume(And(a.e >= 0, a.e < zi(b)))
                E.point(tt.e, *[a.e for a in x], dom=sz)
                E.point(tt.e, dom=sz[:1])
                E.point(*[a.e for a in x], dom=sz[1:])
                E.point(k.e, dom=(n,))
                at = da.arr.snapshot()
                dist = lambda w: npm.np.unique(Arr(sz[1:], lambda *q: at(w, *q), "i"))
                most = npm.np.max(Arr(sz[:1], lambda w: dist(w).size, "i"))
                E.point(dist(tt.e).upos(zi(ident)), dom=(most,))          # where the ID stands among the values of that time
                got = r[ident]
                tag = f"{'mesh' if mesh else 'grid'}, {'all' if every else 'chosen'} IDs"
                here = zi(da.arr.get(tt, *x)) == zi(ident)
                c.require(f"not later than any occurrence ({tag})", z3.Implies(And(here, zi(ident) > 0), And(zi(got) >= 0, zi(got) <= tt.e)))
                there = npm.np.any(Arr(sz[1:], lambda *q: at(zi(got), *q) == ident, "b"))
                u = dist(zi(got))
                c.require(f"the ID occurs at that time ({tag})", z3.Implies(And(here, zi(ident) > 0), zb(there)))
            c.run(t)
