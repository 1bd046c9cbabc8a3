#!/opt/venv/bin/python
"""Replay a violation on the real code: replay.py <evidence/replay/....json>."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

r = json.load(open(sys.argv[1]))
if not r.get("input"):
    print("no failing input found; failed obligations:")
    print(json.dumps(r, indent=1)[:4000])
    sys.exit(1)
E = common.load()
s = E.SCENARIOS[r["contract"]]
params = next(p for p in s.params if json.loads(json.dumps(p, default=str)) == r["params"])
st, env = E.run_concrete(s, params, r["input"]["seed"], r["input"]["hints"])
print(r["contract"], params, "inputs", env.used)
for f in env.failures:
    print("FAILED", *f)
sys.exit(1 if st == "fail" else 0)
