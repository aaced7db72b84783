#!/usr/bin/env python3
"""replay.py <replay.json>: run the recorded input against /repo again (exit 1 when it still fails)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
if "case" not in d:
    print(json.dumps(d, indent=1)); sys.exit(1)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
o = subprocess.run([os.environ.get("MAREX_PY", "/opt/venv/bin/python"), os.path.join(HERE, "rt", "run.py")], input=json.dumps([0, d["module"], d["case"], d["params"]]) + "\n",
                   capture_output=True, text=True, env=env)
r = json.loads(o.stdout.splitlines()[-1])
print(json.dumps(r, indent=1))
sys.exit(0 if r["status"] in ("ok", "skipped") else 1)
