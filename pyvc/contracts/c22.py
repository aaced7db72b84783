"""P22: plot limits, seam handling, event colours."""
import z3
from ..spec import contract, And, Or, Not, Sym, lift, zi, zr, zb
from ..core import sym_int, sym_real, sym_bool, Unsupported, nanb
from .. import core, npm, xrm, arr
from ..arr import Arr, sym_arr, inb
from ..load import Self
B, G = "marEx.plotX.base", "marEx.plotX.gridded"


def rp(tier):
    return [["misc", "case_clim", dict(seed=s, issym=i, perc=p)] for s in range(2) for i in (False, True) for p in (None, (2, 98), (0, 95), (10, 60), (0, 100))] + \
           [["misc", "case_wrap_lon", dict(nx=n, lon0=l, span=sp)] for n in (4, 12, 90) for l in (0.0, -180.0, 15.5) for sp in ("global", "regional")] + \
           [["misc", "case_id_plot", dict(ids=i)] for i in ((1,), (1, 2, 5), (3, 7))]


def field(E, name="v"):
    n = sym_int(name + ".n")
    E.assume(n.e >= 1)
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    m = z3.Function(name + ".nan", z3.IntSort(), z3.BoolSort())
    return Arr((n,), lambda i: Sym(f(i), nan=m(i)), "f")


@contract(["P22"], f"{B}.PlotterBase.clim_robust", rp, title="robust colour limits")
def clim(c):
    """limits = percentiles of the non-missing values; issym: symmetric about 0 with the larger magnitude; lower percentile 0: from 0."""
    for default in (False, True):
        for sym in (False, True):
            def t():
                E = c.E
                c.new_repo()
                v = field(E)
                q = [2, 98] if default else [sym_real("q0"), sym_real("q1")]
                if not default:
                    E.assume(And(q[0].e >= 0, q[0].e < q[1].e, q[1].e <= 100))
                P = [zr(xrm.functional("nanpercentile", [zr(lift(x))], v)) for x in q]
                s = Self(c.repo, B, "PlotterBase", {})
                r = s.clim_robust(v, sym, None if default else list(q)) if not default else s.clim_robust(v, sym)
                r = npm.to_arr(r)
                tag = f"{'default' if default else 'given'} percentiles, {'symmetric' if sym else 'plain'}"
                c.require(f"two limits ({tag})", zi(r.shape[0]) == 2)
                lo, hi = zr(r.get(0)), zr(r.get(1))
                ab = lambda x: z3.If(x < 0, -x, x)
                if sym:
                    m = z3.If(ab(P[0]) >= ab(P[1]), ab(P[0]), ab(P[1]))
                    c.require(f"symmetric about zero, larger magnitude ({tag})", And(lo == -m, hi == m))
                else:
                    c.require(f"upper limit is the upper percentile ({tag})", hi == P[1])
                    c.require(f"lower limit is the lower percentile, or zero for percentile 0 ({tag})", lo == z3.If(zr(lift(q[0])) == 0, z3.RealVal(0), P[0]))
            c.run(t)


@contract(["P22"], f"{G}.GriddedPlotter.wrap_lon", rp, title="longitude seam column")
def wrap(c):
    """Evenly spaced global longitudes: one column more, equal to the first, one period later, all other columns and longitudes unchanged; a field at least two columns short of global: returned as is."""
    for names in (("lat", "lon"), ("y", "x")):
        for kind in ("global", "regional"):
            def t():
                E = c.E
                c.new_repo()
                ny, nx = sym_int("ny"), sym_int("nx")
                E.assume(And(ny.e >= 1, nx.e >= 2))
                E.ghost["plain_ext"] = True
                l0, d = sym_real("lon0"), sym_real("dlon")
                E.assume(d.e > 0)
                last = l0.e + z3.ToReal(nx.e - 1) * d.e
                E.assume(d.e * z3.ToReal(nx.e) == 360 if kind == "global" else z3.ToReal(nx.e + 1) * d.e <= 360)
                lon = Arr((nx,), lambda i: Sym(l0.e + z3.ToReal(i) * d.e), "f")
                # the extremes of an ascending sequence are its ends
                E.dep("min and max of evenly spaced ascending longitudes are the first and the last")
                latf = z3.Function("latv", z3.IntSort(), z3.RealSort())
                f = z3.Function("field", z3.IntSort(), z3.IntSort(), z3.RealSort())
                m = z3.Function("field.nan", z3.IntSort(), z3.IntSort(), z3.BoolSort())
                londa = xrm.DA(lon, dims=(names[1],), name=names[1])
                da = xrm.DA(Arr((ny, nx), lambda i, j: Sym(f(i, j), nan=m(i, j)), "f"), dims=names,
                            coords={names[0]: xrm.DA(Arr((ny,), lambda i: Sym(latf(i)), "f"), dims=(names[0],), name=names[0]), names[1]: londa})
                E.assume(And(z3.ToReal(nx.e - 1) >= 1, last >= l0.e))
                ext = {"max": Sym(last), "min": l0}
                old = npm.np._ext

                def hooked(a, sign, name):
                    a_ = npm.to_arr(a)
                    if a_.ndim == 1 and same_arr(a_, lon):
                        return ext["max" if sign > 0 else "min"]
                    return old(a, sign, name)
                npm.np._ext = hooked
                try:
                    s = Self(c.repo, G, "GriddedPlotter", {"dimensions": {"time": "time", "y": names[0], "x": names[1]}})
                    r = s.wrap_lon(da)
                finally:
                    del npm.np._ext
                tag = f"{kind}, {'/'.join(names)}"
                c.require(f"dimensions kept ({tag})", z3.BoolVal(set(r.dims) == set(names)))
                n2 = zi(r.sizes[names[1]])
                c.require(f"number of columns ({tag})", n2 == (nx.e + 1 if kind == "global" else nx.e))
                c.require(f"number of rows ({tag})", zi(r.sizes[names[0]]) == ny.e)
                i, j = sym_int("i").e, sym_int("j").e
                E.assume(And(inb(i, ny), inb(j, nx)))
                E.point(i, j, dom=(ny, nx))

                def eq(a, b):
                    return And(nanb(a) == nanb(b), zr(a) == zr(b))
                at = lambda k: r.get(**{names[0]: i, names[1]: k})
                c.require(f"columns unchanged ({tag})", eq(at(j), da.arr.get(i, j)))
                L = r.coords[names[1]].arr
                c.require(f"longitudes unchanged ({tag})", zr(L.get(j)) == l0.e + z3.ToReal(j) * d.e)
                c.require(f"one longitude per column ({tag})", zi(L.shape[0]) == n2)
                if kind == "global":
                    c.require(f"added column repeats the first ({tag})", eq(at(nx.e), da.arr.get(i, z3.IntVal(0))))
                    c.require(f"added column is one period later ({tag})", zr(L.get(nx.e)) == l0.e + 360)
                c.require(f"latitudes unchanged ({tag})", zr(r.coords[names[0]].arr.get(i)) == latf(i))
            c.run(t)


def same_arr(a, b):
    k = z3.Int("cmp.k")
    x, y = a.get(k), b.get(k)
    return z3.eq(z3.simplify(zr(x)), z3.simplify(zr(y))) and z3.eq(z3.simplify(zi(a.shape[0])), z3.simplify(zi(b.shape[0])))


class CMap:
    def __init__(self, colors=None, N=None, **k):
        self.N = N if N is not None else npm.to_arr(colors).shape[0]


class Norm:
    def __init__(self, bounds, n, **k):
        self.bounds, self.n = npm.to_arr(bounds), n


class Rand:
    def seed(self, *a):
        pass

    def random(self, size=None):
        f = z3.Function("rand", z3.IntSort(), z3.IntSort(), z3.RealSort())
        return Arr(tuple(size), lambda i, j: Sym(f(i, j)), "f")
    rand = lambda self, *s: self.random(s)


@contract(["P22"], f"{B}.PlotterBase.setup_id_plot_params", rp, title="one colour per event")
def ids(c):
    """Every two IDs of the field lie in different bins of the norm, every ID lies inside it, and there are exactly as many colours as bins."""
    for own in (False, True):
        def t():
            E = c.E
            c.new_repo({"matplotlib.colors.ListedColormap": CMap, "matplotlib.colors.BoundaryNorm": Norm})
            E.ghost["np"] = {"random": Rand()}
            n = sym_int("n")
            E.assume(n.e >= 1)
            f = z3.Function("ids", z3.IntSort(), z3.IntSort())
            E.universal(1, lambda i: z3.Implies(inb(i, n), f(i) >= 0), dom=(n,))
            da = xrm.DA(Arr((n,), lambda i: Sym(f(i)), "i"), dims=("c",), coords={})
            k = sym_int("k").e
            E.assume(inb(k, n))
            E.point(k, dom=(n,))
            E.assume(f(k) >= 1)
            s = Self(c.repo, B, "PlotterBase", {"da": da})
            mine = CMap(N=sym_int("N"))
            cm, norm, unit = s.setup_id_plot_params(mine if own else None)
            b = norm.bounds
            M = zi(npm.np.max(da.arr))
            tag = "own colour map" if own else "default"
            j = sym_int("j").e
            with c.under(And(j >= 0, j <= M)):
                E.point(j)
                c.require(f"a bin edge between consecutive IDs ({tag})", And(zr(b.get(j)) > z3.ToReal(j), zr(b.get(j)) < z3.ToReal(j) + 1))
            c.require(f"one bin per ID up to the largest ({tag})", zi(b.shape[0]) == M + 1)
            c.require(f"every ID inside the norm ({tag})", And(zr(b.get(0)) < z3.ToReal(f(k)), z3.ToReal(f(k)) < zr(b.get(M))))
            if own:
                c.require("norm spans the given colours", zi(lift(norm.n)) == mine.N.e)
            else:
                c.require("as many colours as bins", And(zi(lift(norm.n)) == M, zi(lift(cm.N)) == M))
        c.run(t)
