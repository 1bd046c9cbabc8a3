#!/opt/venv/bin/python
"""Decide one property: discharge every obligation of its contracts on /repo's current source.

Usage: run.py <property> [--tier quick|thorough]
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
from common import REPO, VERIF  # noqa: E402

T0 = time.time()
EVID = os.environ.get("VERIF_EVID", VERIF + "/evidence")
LIMITS = {  # per tier: prove seconds per contract, hard seconds per contract, total seconds
    "quick": (120, 260, 640),
    "thorough": (400, 700, 840),
}


def short(model):
    return {k: v for k, v in (model or {}).items()}


def watch_repo(seen):
    """Record which functions of /repo run (sys.monitoring: once per code object)."""
    mon = sys.monitoring
    root = os.path.realpath(REPO) + "/singd"

    def start(code, offset):
        if code.co_filename.startswith(root):
            seen.add(f"{code.co_filename[len(root) + 1:]}:{code.co_qualname}")
        return mon.DISABLE

    mon.use_tool_id(3, "vcgen")
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def job(conn, name, k, tier, seed, only):
    """One contract instance: concrete cross-runs, proof, replay of refutations."""
    from vcgen import ctx
    from vcgen import env as E
    from vcgen import ops, patches

    scn = E.SCENARIOS[name]
    params = scn.params[k]
    out = dict(concrete=[], fails=[], obs=[], paths=0, dead=0, funcs=[], trusted=[], stats={})
    n_conc = scn.n_conc * (1 if tier == "quick" else 10)
    limit, _, _ = LIMITS[tier]

    def conc(s, hints=None, tag="random"):
        st, env = E.run_concrete(scn, params, s, hints)
        out["concrete"].append((st, env.checked))
        if st == "fail":
            out["fails"].append(
                dict(seed=s, hints=hints, used=env.used, failures=env.failures[:5], how=tag)
            )
        elif st == "ok" and len(out.setdefault("samples", [])) < 1:
            out["samples"].append(dict(contract=name, params=params, seed=s, used=env.used))
        return st

    for i in range(n_conc):
        conc(seed * 100003 + i)
        if len(out["fails"]) >= 2:
            break
    conn.send(("partial", out))
    if scn.level == "proof":
        seen = set()
        watch_repo(seen)
        ctx.KEEP_SMT = tier == "thorough"
        r = E.prove(scn, params, time_limit=limit)
        sys.monitoring.set_events(3, 0)
        out["obs"] = [o.as_dict() for o in r["obs"]]
        out["paths"], out["dead"], out["prove_s"] = r["paths"], r["dead"], r["time"]
        out["funcs"] = sorted(seen)
        out["trusted"] = sorted(map(str, set(ops.CALLS) | set(patches.USED)))
        st = ctx.STATS
        out["stats"] = dict(
            z3_queries=st.z3_queries, z3_time=st.z3_time, z3_unsat=st.z3_unsat,
            syntactic=st.syntactic,
        )
        if tier == "thorough" and st.queries:
            out["stats"]["cvc5"] = recheck(st.queries)
        bad = [o for o in out["obs"] if o["status"] == "refuted"]
        unk = [o for o in out["obs"] if o["status"] == "unknown"]
        out["exact"] = {}
        if bad and not out["fails"]:
            conn.send(("partial", out))
            done = set()
            t = time.time()
            for o in bad:
                h = dict(o["model"] or {})
                key = json.dumps(h, sort_keys=True, default=str)
                if key in done or len(done) >= 12 or time.time() - t > 60:
                    continue
                done.add(key)
                sts = []
                for i in range(6):
                    sts.append(conc(seed * 100003 + i, h, "counterexample of: " + o["label"]))
                    if sts[-1] in ("fail", "large"):
                        break
                if sts[-1] == "fail":
                    break
                out["exact"][key] = sts
        if (bad or unk) and not out["fails"]:
            conn.send(("partial", out))
            t = time.time()
            i = n_conc
            while i < 400 and time.time() - t < (25 if tier == "quick" else 60) and not out["fails"]:
                conc(seed * 100003 + i, None, "random search")
                i += 1
        if out["fails"]:
            out["failing_obligations"] = sorted({o["label"] for o in bad})
    conn.send(("done", out))
    conn.close()


def recheck(queries):
    """Second back end: cvc5 re-checks the queries z3 found unsatisfiable."""
    import subprocess
    import tempfile

    res = dict(checked=0, unsat=0, unknown=0, sat=0)
    t = time.time()
    for q in queries:
        if time.time() - t > 60:
            break
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
            f.write("(set-logic ALL)\n" + q)
            f.flush()
            try:
                p = subprocess.run(
                    ["cvc5", "--tlimit=3000", f.name], capture_output=True, text=True, timeout=8
                )
                a = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "unknown"
            except Exception:
                a = "unknown"
        res["checked"] += 1
        res[a if a in ("unsat", "sat") else "unknown"] += 1
    return res


def child(conn, *a):
    try:
        os.setpgrp()
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
        job(conn, *a)
    except BaseException as e:  # noqa: BLE001
        try:
            conn.send(("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
        except Exception:
            pass
    os._exit(0)


def schedule(jobs, tier, seed, only):
    """Run every job in its own process; returns {job: result}."""
    _, hard, total = LIMITS[tier]
    ctx_ = mp.get_context("fork")
    todo, running, res = list(jobs), {}, {}
    width = min(8, os.cpu_count() or 8)
    while todo or running:
        while todo and len(running) < width and time.time() - T0 < total:
            j = todo.pop(0)
            a, b = ctx_.Pipe(duplex=False)
            p = ctx_.Process(target=child, args=(b, *j, tier, seed, only), daemon=True)
            p.start()
            b.close()
            running[j] = (p, a, time.time())
            res[j] = None
        if todo and time.time() - T0 >= total and not running:
            for j in todo:
                res[j] = dict(timeout=True, why="not started: total time limit")
            break
        ready = mp.connection.wait([x[1] for x in running.values()], timeout=0.5)
        for j, (p, a, t) in list(running.items()):
            end = False
            if a in ready:
                try:
                    tag, val = a.recv()
                    if tag == "crash":
                        res[j] = dict(res[j] or {}, crash=val)
                        end = True
                    else:
                        res[j] = val
                        res[j]["finished"] = tag == "done"
                        end = tag == "done"
                except EOFError:
                    res[j] = dict(res[j] or {}, crash="process ended (memory?)")
                    end = True
            if not end and (time.time() - t > hard or time.time() - T0 > total + 60):
                res[j] = dict(res[j] or {}, timeout=True, why="time limit")
                end = True
            if end:
                if p.is_alive():
                    p.kill()
                p.join(5)
                a.close()
                del running[j]
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier if args.tier in LIMITS else "quick"
    pid = args.pid
    os.makedirs(f"{EVID}/replay", exist_ok=True)
    try:
        E = common.load()
    except BaseException as e:  # the code under test cannot even be imported
        f = f"{EVID}/replay/{pid}-import.json"
        json.dump(dict(property=pid, obligation="import singd", output=traceback.format_exc()),
                  open(f, "w"), indent=1)
        print(f"import failed: {e}")
        write(pid, tier, seed, {}, [], [], [dict(import_error=str(e))], 1)
        print(f"VIOLATION property={pid} replay={f} no-failing-input-found")
        return 1
    jobs = [
        (n, k)
        for n, s in E.SCENARIOS.items()
        if pid in s.props and args.only in n
        for k in range(len(s.params))
    ]
    if not jobs:
        print(f"no contracts for {pid}")
        return 2
    # long ones first
    jobs.sort(key=lambda j: -getattr(E.SCENARIOS[j[0]], "weight", 0))
    res = schedule(jobs, tier, seed, args.only)
    known = [f for f in common.findings() if f["property"] == pid and f["kind"] == "finding"]
    violations, weak, hits = [], [], []
    for (n, k), r in res.items():
        s = E.SCENARIOS[n]
        params = s.params[k]
        r = r or {}
        if r.get("crash"):
            weak.append(dict(contract=n, params=params, what="verifier crashed", detail=r["crash"][:600]))
        if r.get("timeout"):
            weak.append(dict(contract=n, params=params, what=r.get("why", "time limit")))

        def is_known(label):
            for f in known:
                if (
                    f["contract"] == n
                    and all(params.get(a) == b for a, b in f.get("params", {}).items())
                    and re.fullmatch(f["label"], label)
                ):
                    if f not in hits:
                        hits.append(f)
                    return True
            return False

        fails = r.get("fails") or []
        if fails:
            new = None
            for fl in fails:
                labels = [x[0] for x in fl["failures"]]
                if [x for x in labels if not is_known(x)]:
                    new = fl
                    break
            if new:
                violations.append(dict(contract=n, params=params, input=new,
                                       obligations=[x[0] for x in new["failures"]],
                                       failing_obligations=r.get("failing_obligations", [])))
                continue
        bad = [o for o in r.get("obs", []) if o["status"] == "refuted" and not is_known(o["label"])]
        unk = [o for o in r.get("obs", []) if o["status"] == "unknown"]
        if bad:
            sts = [x for v in r.get("exact", {}).values() for x in v]
            inexact = [
                o for o in bad
                if "ok" not in r.get("exact", {}).get(
                    json.dumps(dict(o["model"] or {}), sort_keys=True, default=str), [])
                or "large" in r["exact"][json.dumps(dict(o["model"] or {}), sort_keys=True, default=str)]
            ]
            if inexact and not fails:
                violations.append(dict(contract=n, params=params, input=None,
                                       obligations=[o["label"] for o in inexact],
                                       output=inexact[:5], tried=len(sts)))
            elif not fails:
                weak.append(dict(contract=n, params=params, what="counterexample does not replay",
                                 detail=[(o["label"], o["why"]) for o in bad[:4]]))
        if unk:
            weak.append(dict(contract=n, params=params, what="not decided by the verifier",
                             detail=sorted({(o["label"], o["why"][:160]) for o in unk})[:4]))
    # a contract in which nothing was obliged decides nothing
    for (n, k), r in res.items():
        s = E.SCENARIOS[n]
        if s.level == "proof" and r and r.get("finished") and not r.get("obs"):
            weak.append(dict(contract=n, params=s.params[k], what="vacuous: no feasible path"))
    for f in known:
        if f in hits:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    code = 0
    for i, v in enumerate(violations):
        f = f"{EVID}/replay/{pid}-{i}.json"
        json.dump(
            dict(property=pid, replay_cmd=f"/opt/venv/bin/python {VERIF}/checks/replay.py {f}", **v),
            open(f, "w"), indent=1, default=str)
        if i < 5:
            print(f"{v['contract']} {v['params']}: failed obligations {v['obligations'][:4]}")
            tail = "" if v["input"] else " no-failing-input-found"
            if v["input"]:
                print(f"   on the real code: {v['input']['failures'][:2]} with {v['input']['used']}"[:600])
    if violations:
        v = sorted(range(len(violations)), key=lambda i: violations[i]["input"] is None)[0]
        tail = "" if violations[v]["input"] else " no-failing-input-found"
        f = f"{EVID}/replay/{pid}-{v}.json"
        code = 1
    write(pid, tier, seed, res, violations, hits, weak, code)
    if code:
        print(f"VIOLATION property={pid} replay={f}{tail}")
    return code


ASSUMED = [
    "torch, einops, einconv, torch.distributed: the contracts in vcgen/ops.py and vcgen/patches.py "
    "(the operations used in this run are listed under trusted_operations); checked against the real "
    "libraries on random inputs by checks/selftest.py, not proved",
    "CPython executes the code as the language defines; a contract observes /repo's functions "
    "through Python calls only",
    "machine arithmetic is treated as real arithmetic: no rounding, overflow or underflow; "
    "integers are unbounded",
    "the reference views in contracts/ (class documentation and paper) say what is meant",
    "z3 4.8+/5 (python) is sound; the normaliser in vcgen/term.py and vcgen/ctx.py is sound",
]


def write(pid, tier, seed, res, violations, hits, weak, code):
    from collections import Counter

    try:
        from vcgen import env as E

        scn = E.SCENARIOS
    except Exception:
        scn = {}
    obs = proved = paths = conc = 0
    backends, funcs, trusted, samples = Counter(), set(), set(), []
    z3t = z3q = syn = 0.0
    bounded = []
    status = Counter()
    per, cv = [], Counter()
    for (n, k), r in res.items():
        r = r or {}
        o = r.get("obs", [])
        ok = [x for x in o if x["status"] == "proved"]
        obs += len(o)
        proved += len(ok)
        for x in ok:
            backends[x["backend"] or "z3"] += 1
        paths += r.get("paths", 0)
        conc += len(r.get("concrete", []))
        for st, _ in r.get("concrete", []):
            status[st] += 1
        funcs |= set(r.get("funcs", []))
        trusted |= set(r.get("trusted", []))
        st = r.get("stats", {})
        z3t += st.get("z3_time", 0)
        z3q += st.get("z3_queries", 0)
        syn += st.get("syntactic", 0)
        cv.update(st.get("cvc5", {}))
        if len(samples) < 3:
            samples += r.get("samples", [])
        if scn[n].level != "proof":
            bounded.append(f"{n} {scn[n].params[k]}: bounded ({len(r.get('concrete', []))} concrete runs), not proved")
        else:
            per.append([n, scn[n].params[k], len(ok), len(o), round(r.get("prove_s", 0), 2)])
    level = "proof" if obs else "exploration"
    cov = dict(
        obligations=obs,
        discharged=proved,
        checker_cmd=f"/opt/venv/bin/python checks/run.py {pid} --tier {tier}",
        trusted_base=ASSUMED + [f"operation contract: {t}" for t in sorted(trusted)],
        contracts=per,
        feasible_paths=paths,
        discharged_by=dict(backends),
        solver_time_s=round(z3t, 2),
        solver_queries=int(z3q),
        syntactic_identities=int(syn),
        second_back_end_cvc5=dict(cv),
        functions_under_contract=sorted(funcs),
        evaluations=conc,
        distinct_nontrivial=status["ok"] + status["fail"],
        concrete_runs=dict(status),
        rule="concrete cross-runs of the same contracts on the unpatched code with random sizes and values; "
        "non-trivial: the precondition held and every check was evaluated",
        samples=samples or ["none"],
        bounded_not_proved=bounded,
        undecided=weak,
        known_findings=[f["what"] for f in hits],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUMED, wall_s=round(time.time() - T0, 2), violations=len(violations))
    with open(f"{EVID}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{tier}] {len(res)} contract instances, {proved}/{obs} obligations discharged on {paths} paths, "
          f"{conc} concrete runs, {len(weak)} undecided, {len(violations)} violations, "
          f"{time.time() - T0:.0f}s")
    for w in weak[:6]:
        print("   undecided:", str(w)[:300])


if __name__ == "__main__":
    sys.exit(main())
