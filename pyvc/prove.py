#!/usr/bin/env python3-vt
"""prove.py <property> --tier T --repo R --budget S : decide the contracts of one property; last line of stdout is a JSON object."""
import argparse, importlib, json, multiprocessing as mp, os, pkgutil, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)


def load_contracts():
    from pyvc import spec, arr, loop, npm, xrm, core, load  # noqa
    import pyvc.contracts as C
    for m in sorted(x.name for x in pkgutil.iter_modules(C.__path__)):
        importlib.import_module("pyvc.contracts." + m)
    return spec.REG


def one(args):
    k, root, tier, budget = args
    from pyvc import core, spec
    c = load_contracts()[k]
    t0 = time.time()
    res = {"contract": c.title, "name": c.name, "obligations": [], "functions": {}, "assumed": [], "by_backend": {}, "solver_s": 0.0, "vacuity": 0, "error": None}
    ctx = None
    try:
        ctx = spec.Ctx(root, tier=tier)
        ctx.E.deadline = t0 + budget
        ctx.label = c.title
        c.fn(ctx)
    except core.Unsupported as ex:
        res["error"] = ("unsupported", str(ex)[:300])
    except core.Refuted as ex:
        res["obligations"].append({"name": f"{c.title}: {ex}", "status": "failed", "why": str(ex)})
    except RecursionError:
        res["error"] = ("unsupported", "recursion limit")
    except Exception as ex:
        res["error"] = ("unsupported", f"{type(ex).__name__}: {ex} [{spec.where(ex)}]"[:400])
    if ctx is None:
        return res
    res["functions"] = {**ctx.used, **ctx.repo.used}
    res["assumed"] = sorted(ctx.E.assumed)
    res["vacuity"] = ctx.sat_ok
    seen = {}
    for name, hyps, goal, quant, inexact, done in ctx.E.obls:
        if time.time() > t0 + budget:
            res["obligations"].append({"name": name, "status": "unknown", "why": "time budget"})
            continue
        try:
            st, be, sec, model = done or core.discharge(hyps, goal, quant, inexact, ms=8000 if tier == "quick" else 40000)
        except Exception as ex:
            st, be, sec, model = "unknown", "error", 0.0, str(ex)[:200]
        res["solver_s"] += sec
        if st == "proved":
            res["by_backend"][be] = res["by_backend"].get(be, 0) + 1
        o = {"name": name, "status": st}
        if st in ("failed", "candidate"):
            o["why"] = "verifier model: " + (model or "")[:1500]
            if st == "candidate":
                o["status"] = "unknown"
                o["candidate"] = True
            elif not c.strict:
                o["status"] = "unknown"
                o["candidate"] = True
        res["obligations"].append(o)
    agg = {}
    rank = {"failed": 3, "unknown": 2, "unsupported": 1, "proved": 0}
    for o in res["obligations"]:                      # one obligation per name: it holds when it holds on every path
        p = agg.get(o["name"])
        if p is None or rank[o["status"]] > rank[p["status"]]:
            o["paths"] = (p or {}).get("paths", 0) + 1
            agg[o["name"]] = o
        else:
            p["paths"] += 1
    res["obligations"] = list(agg.values())
    res["solver_s"] += ctx.E.solver_s
    if res["error"]:
        res["obligations"].append({"name": f"{c.title}", "status": "unsupported", "why": res["error"][1]})
    elif not res["obligations"]:
        res["obligations"].append({"name": f"{c.title}", "status": "unsupported", "why": "no obligation was generated"})
    if c.replay:
        cases = c.replay(tier)
        for o in res["obligations"]:
            if o["status"] != "proved":
                o["replay_cases"] = cases
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--budget", type=int, default=300)
    ap.add_argument("--only", default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    reg = load_contracts()
    idx = [k for k, c in enumerate(reg) if (a.property in c.pids or a.property == "ALL") and (a.only is None or a.only in c.title) and (c.tier == "quick" or a.tier == "thorough")]
    out = {"functions": [], "obligations": [], "assumptions": [], "by_backend": {}, "solver_s": 0.0, "vacuity": {}, "error": None, "contracts": len(idx),
           "trusted_base": ["z3 (python bindings)", "cvc5", "pyvc (symbolic execution of the repository's AST by CPython, models of numpy/xarray in pyvc/npm.py, xrm.py)", "CPython 3.12"]}
    per = min(a.budget, 240 if a.tier == "quick" else 900)
    res = []
    if idx:
        with mp.get_context("fork").Pool(min(4, len(idx)), maxtasksperchild=1) as pool:
            jobs = [pool.apply_async(one, ((k, a.repo, a.tier, per),)) for k in idx]
            dl = time.time() + a.budget
            for k, j in zip(idx, jobs):
                try:
                    res.append(j.get(max(1, dl - time.time())))
                except mp.TimeoutError:
                    res.append({"contract": reg[k].title, "obligations": [{"name": reg[k].title, "status": "unknown", "why": "time budget",
                                                                          **({"replay_cases": reg[k].replay(a.tier)} if reg[k].replay else {})}], "functions": {}, "assumed": [], "by_backend": {},
                                "solver_s": 0, "vacuity": 0})
                except Exception as ex:
                    res.append({"contract": reg[k].title, "obligations": [{"name": reg[k].title, "status": "unsupported", "why": repr(ex)[:300]}], "functions": {}, "assumed": [],
                                "by_backend": {}, "solver_s": 0, "vacuity": 0})
    fns, ass = {}, set()
    for r in res:
        fns.update(r["functions"])
        ass |= set(r["assumed"])
        out["obligations"] += r["obligations"]
        out["solver_s"] = round(out["solver_s"] + r["solver_s"], 2)
        out["vacuity"][r["contract"]] = r["vacuity"]
        for b, n in r["by_backend"].items():
            out["by_backend"][b] = out["by_backend"].get(b, 0) + n
        if a.verbose:
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("   ", o["status"], o["name"], "|", (o.get("why") or "")[:700], file=sys.stderr)
            print(r["contract"], {s: sum(o["status"] == s for o in r["obligations"]) for s in ("proved", "failed", "unknown", "unsupported")}, r.get("wall_s"), "vac", r["vacuity"], file=sys.stderr)
    out["functions"] = [f"{k} ({v['file']}:{v['line']})" + (f" dropped {','.join(v['decorators_dropped'])}" if v["decorators_dropped"] else "") for k, v in sorted(fns.items())]
    out["assumptions"] = sorted(ass)
    print(json.dumps(out))


if __name__ == "__main__":
    main()
