#!/usr/bin/env python3
"""plant.py [-t] [-c] ID...: confirm /verif/seeded/ID in scratch copies of /repo.

Applies the patch, runs the demo on both trees, with -t the stable tests, with -c the
checks of the property against the patched copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
IGN = " ".join(f"--ignore=test/optim/test_{x}.py" for x in "autocast checkpointing gradient_accumulation kfac_like lin2023simplifying lin2023simplifying_ddp param_groups scaler".split())
def one(i):
    d, w = f"{S}/{i}", f"/tmp/plant-{i}"
    for x in (w, w + "-demo"): shutil.rmtree(x, ignore_errors=True)
    sh(f"cp -a /repo {w}; cp -a {d} {w}-demo")
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    r0 = sh(f"bash {w}-demo/demo.sh", cwd=w, env=env)
    a = sh(f"git apply {d}/patch.diff", cwd=w)
    r1 = sh(f"bash {w}-demo/demo.sh", cwd=w, env=env)
    out = f"{i}: clean {r0.returncode} apply {a.returncode} {a.stderr[:200]} planted {r1.returncode}"
    if r0.returncode: out += " CLEAN-OUT " + (r0.stdout + r0.stderr)[-400:]
    if "-t" in sys.argv:
        t = sh(f"timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --run-optional-tests=expensive --doctest-modules {IGN} -o junit_family=xunit2 --junitxml={w}-rep/pytest.xml test singd", cwd=w, env=env)
        sh(f"/usr/bin/python3 /opt/vp/results.py {w}-out.json 'junit:{w}-rep/*.xml'")
        p = set(json.load(open(f"{w}-out.json"))["passed"])
        out += f" tests-broken {len(base - p)}" + (" " + str(sorted(base - p)[:2]) if base - p else "")
        shutil.rmtree(w + "-rep", ignore_errors=True)
    if "-c" in sys.argv:
        m = json.load(open(f"{d}/meta.json"))
        c = sh(f"/opt/venv/bin/python /verif/checks/run.py {m['property']}", cwd="/verif", env=dict(env, VERIF_REPO=w, VERIF_EVID=f"{w}-ev"))
        out += f" check rc {c.returncode}: " + " | ".join(c.stdout.strip().splitlines()[-6:])[:700]
        shutil.rmtree(w + "-ev", ignore_errors=True)
    for x in (w, w + "-demo"): shutil.rmtree(x, ignore_errors=True)
    return out
ids = [x for x in sys.argv[1:] if not x.startswith("-")] or sorted(os.listdir(S))
with ThreadPoolExecutor(1 if "-c" in sys.argv else 6) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
