"""Worker: read JSON lines [k, module, case, params] on stdin, write JSON lines on stdout. One process = one slice of the plan."""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)


def main():
    t0 = time.time()
    import common, sigs
    try:
        import det, trk, misc
    except Exception as ex:
        OUT.write(json.dumps({"k": -1, "status": "import-error", "msg": traceback.format_exc()[-1500:]}) + "\n"); OUT.flush()
        return
    if os.environ.get("RT_JIT", "0") != "1":
        common.unjit(common.track)
        common.unjit(common.detect)
    mods = {"det": det, "trk": trk, "misc": misc}
    OUT.write(json.dumps({"k": -2, "status": "ready", "s": round(time.time() - t0, 2)}) + "\n"); OUT.flush()
    for line in sys.stdin:
        if not line.strip():
            continue
        k, m, c, kw = json.loads(line)
        kw = {a: (tuple(tuple(x) if isinstance(x, list) else x for x in b) if isinstance(b, list) else b) for a, b in kw.items()}
        common.KNOWN.clear()
        t = time.time()
        r = {"k": k, "module": m, "case": c}
        bad = sigs.mismatch(common, c)
        if bad:
            OUT.write(json.dumps({**r, "status": "skipped", "msg": bad, "s": 0, "known": []}) + "\n"); OUT.flush()
            continue
        try:
            r["result"] = getattr(mods[m], c)(**kw) or {}
            r["status"] = "ok"
        except common.ContractViolation as ex:
            r["status"] = "violated"; r["msg"] = str(ex)[:600]
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            inrepo = any(os.path.abspath(f.filename).startswith(os.path.abspath(common.REPO) + os.sep) for f in tb)
            r["status"] = "crash" if inrepo else "error"
            r["msg"] = f"{type(ex).__name__}: {str(ex)[:300]}"
            r["tb"] = traceback.format_exc()[-1200:]
            r["innermost"] = f"{tb[-1].filename}:{tb[-1].name}" if tb else ""
        r["known"] = list(common.KNOWN)
        r["s"] = round(time.time() - t, 3)
        OUT.write(json.dumps(r, default=str) + "\n"); OUT.flush()


main()
