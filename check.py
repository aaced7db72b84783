#!/usr/bin/env python3
"""Entry point of every check:  check.py <property> [--tier quick|thorough]

1. proof layer   pyvc/prove.py (python3-vt): contracts on the functions of /repo, verification conditions from the current source, z3/cvc5.
2. bounded layer rt/run.py (repository interpreter): the same contracts evaluated at run time on concrete inputs (bounded stand-in and replay).
Decision: a refuted obligation or a violated run-time contract is a violation; anything undecided is left to the bounded layer.
"""
import argparse, hashlib, json, os, queue, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rt"))
REPO = os.environ.get("MAREX_REPO", "/repo")
PY = os.environ.get("MAREX_PY", "/opt/venv/bin/python")
PYVT = os.environ.get("VT_PY", "python3-vt")
CASE_TIMEOUT = {"quick": 240, "thorough": 900}


class Worker:
    """One interpreter running cases one by one."""

    def __init__(self, env):
        self.env = env
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, "rt", "run.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, bufsize=1, env=self.env, cwd=HERE)
        self.q = queue.Queue()
        threading.Thread(target=self._read, args=(self.p, self.q), daemon=True).start()

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def ask(self, line, timeout):
        """Result dict, or {'status': 'died'|'timeout'|'import-error'}."""
        fresh = self.p is None
        if fresh:
            self.start()
            r = self._get(180)
            if r.get("status") != "ready":
                self.stop()
                return r
        try:
            self.p.stdin.write(line + "\n"); self.p.stdin.flush()
        except OSError:
            self.stop()
            return {"status": "died"}
        r = self._get(timeout)
        if r.get("status") in ("timeout", "died"):
            self.stop()
        return r

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return {"status": "timeout"}
        return {"status": "died"} if line is None else json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
        self.p = None


def run_cases(cases, tier, deadline, nworkers, stop_on_violation=True):
    env = dict(os.environ, MAREX_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
               PYTHONHASHSEED="0")
    todo = queue.Queue()
    for k, c in enumerate(cases):
        todo.put((k, c))
    results = [None] * len(cases)
    stop = threading.Event()

    def loop():
        w = Worker(env)
        while not stop.is_set() and time.time() < deadline:
            try:
                k, c = todo.get_nowait()
            except queue.Empty:
                break
            r = w.ask(json.dumps([k, *c]), min(CASE_TIMEOUT[tier], max(5, deadline - time.time())))
            results[k] = r
            if r.get("status") == "import-error":
                stop.set()
            if r.get("status") in ("violated", "crash") and stop_on_violation and not is_known(c, r):
                stop.set()
        w.stop()
    th = [threading.Thread(target=loop) for _ in range(min(nworkers, len(cases)))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return results


_FINDINGS = None


def findings():
    global _FINDINGS
    if _FINDINGS is None:
        _FINDINGS = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    return _FINDINGS


def is_known(case, r):
    """The finding (if any) whose listed history is exactly this one."""
    for f in findings():
        m = f.get("case")
        if m and m["case"] == case[1] and {k: _norm(v) for k, v in m["params"].items()} == {k: _norm(v) for k, v in case[2].items()} \
                and r.get("status") == "violated" and m.get("message", "") in r.get("msg", ""):
            return f
    return None


def _norm(v):
    return [_norm(x) for x in v] if isinstance(v, (list, tuple)) else v


def prove(pid, tier, budget):
    out = {"functions": [], "obligations": [], "assumptions": [], "error": None}
    script = os.path.join(HERE, "pyvc", "prove.py")
    if not os.path.exists(script):
        return out
    try:
        p = subprocess.run([PYVT, script, pid, "--tier", tier, "--repo", REPO, "--budget", str(budget)], capture_output=True, text=True, timeout=budget + 60,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), cwd=HERE)
        lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
        out = json.loads(lines[-1]) if lines else dict(out, error="no answer: " + p.stderr[-800:])
    except subprocess.TimeoutExpired:
        out["error"] = "timeout"
    except Exception as ex:                                       # the proof layer never decides by crashing
        out["error"] = f"{type(ex).__name__}: {ex}"
    return out


def write_replay(pid, content):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(content, indent=1, default=str)
    p = os.path.join(d, f"{pid}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    open(p, "w").write(s)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import plan as planmod
    cases = planmod.plan(pid, tier, 1 + (seed - 1) % 3)
    budget = 300 if tier == "quick" else 3000
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    pr = {}
    th = threading.Thread(target=lambda: pr.update(prove(pid, tier, budget)))
    th.start()
    res = run_cases(cases, tier, deadline, 7)
    th.join()

    viol = []            # (description, replay content, found input)
    seen_known = set()
    count = {}
    for c, r in zip(cases, res):
        st = (r or {"status": "not-run"})["status"]
        count[st] = count.get(st, 0) + 1
        for f in (r or {}).get("known") or []:
            seen_known.add(f)
        if st in ("violated", "crash"):
            f = is_known(c, r)
            if f:
                seen_known.add(f["id"])
                continue
            viol.append((r["msg"], {"property": pid, "kind": "run-time contract", "module": c[0], "case": c[1], "params": c[2], "status": st, "message": r["msg"],
                                    "traceback": r.get("tb"), "replay_cmd": "python3 /verif/replay.py <this file>"}, True))
        elif st == "import-error":
            viol.append(("the package cannot be imported", {"property": pid, "kind": "import", "message": r["msg"]}, True))

    obl = pr.get("obligations", [])
    # refuted: the solver has a model of the negated obligation; "candidate": a model in which sums or statistics are related only as far as the engine derived it
    failed = [o for o in obl if o["status"] == "failed" or o.get("candidate")]
    open_obl = failed or [o for o in obl if o["status"] != "proved"]
    if open_obl and not viol:
        # look for a failing input on the real code: verifier's counterexample first, then the contract's own run-time cases
        hunt = []
        for o in open_obl:
            hunt += o.get("replay_cases") or []
        hunt = [tuple(h) for h in {json.dumps(h, sort_keys=True): h for h in hunt}.values()][:400]
        waves = [(hunt, 150)]
        if failed:
            waves += [(planmod.plan(pid, "quick", k), 120) for k in (101, 201, 301)]   # then the property's own cases, on inputs the quick plan did not use
        for w, cap in waves:
            if not w or viol:
                continue
            rr = run_cases(w, tier, min(deadline, time.time() + cap), 7)
            for c, r in zip(w, rr):
                if r and r.get("status") in ("violated", "crash") and not is_known(c, r):
                    viol.append((r["msg"], {"property": pid, "kind": "failed obligation, replayed on the real code", "obligations": open_obl[:5], "module": c[0], "case": c[1],
                                            "params": c[2], "status": r["status"], "message": r["msg"], "traceback": r.get("tb"),
                                            "replay_cmd": "python3 /verif/replay.py <this file>"}, True))
                    break
        if failed and not viol:
            viol.append((failed[0]["name"], {"property": pid, "kind": "failed obligation", "obligations": failed, "note": "no failing input found"}, False))
    elif failed:
        viol[0][1]["failed_obligations"] = failed[:5]

    for f in findings():
        if f["property"] == pid and f["id"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
    discharged = sum(o["status"] == "proved" for o in obl)
    undecided = [o["name"] + ": " + o["status"] + (" " + o["why"] if o.get("why") else "") for o in obl if o["status"] not in ("proved", "failed") and not o.get("candidate")]
    ok = count.get("ok", 0)
    level = "exploration" if pid == "P20" else "proof" if obl else "other"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(obl), "discharged": discharged,
            "checker_cmd": f"python3-vt pyvc/prove.py {pid} --tier {tier} --repo {REPO}",
            "trusted_base": pr.get("trusted_base") or ["CPython/numpy/xarray/dask of the sandbox"],
            "functions_under_contract": pr.get("functions", []),
            "obligations_by_backend": pr.get("by_backend", {}), "solver_s": pr.get("solver_s", 0), "vacuity_checks": pr.get("vacuity", {}),
            "undecided_obligations": undecided[:60], "proof_layer_error": pr.get("error"),
            "bounded_cases": {"planned": len(cases), **count}, "bounded_label": "bounded stand-in: concrete inputs of the listed sizes, never counted as proved",
            "bounded_samples": [list(c) for c in cases[:3]],
            "explanation": "Obligations are generated from /repo's current source on this run; what they do not decide is covered by run-time contracts on bounded inputs.",
        },
        "assumptions": pr.get("assumptions", []) + ["bounded layer: dask runs synchronously, numba kernels run as the Python they are written in"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    for msg, content, found in viol[:1]:
        p = write_replay(pid, content)
        print(f"# {msg}"[:500])
        print(f"VIOLATION property={pid} replay={p}" + ("" if found else " no-failing-input-found"))
        ev["coverage"]["violation"] = msg[:500]
        rc = 1
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print(f"{pid} {tier}: obligations {discharged}/{len(obl)} discharged, {len(undecided)} undecided, {len(failed)} refuted; bounded cases {ok} ok of {len(cases)} {count}; "
          f"{ev['wall_s']} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
