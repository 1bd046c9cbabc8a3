#!/opt/venv/bin/python
"""Setup: the engine proves a right contract and refutes a wrong one, and the assumed
operation contracts agree with the real libraries on sampled sizes and values."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

E = common.load()


def right(env):
    n = env.int("n", 1)
    A = env.tensor("A", (n, n))
    env.eq("T", A.T.T, A)


def wrong(env):
    n = env.int("n", 1)
    A = env.tensor("A", (n, n))
    env.eq("T", A.T, A)


def run(f):
    s = E.Scenario(("X",), f, [{}], [], "proof", (), 1, "")
    return {o.status for o in E.prove(s, {})["obs"]}


assert run(right) == {"proved"}, run(right)
assert "refuted" in run(wrong), run(wrong)
os.makedirs(common.VERIF + "/evidence/replay", exist_ok=True)

# ---- the assumed contracts of torch, einops and einconv against the real operations
import opcases  # noqa: E402
from vcgen import ops, patches, validate  # noqa: E402

patches.EXTRA.append(opcases)


def check_case(k):
    return validate.validate(
        opcases.CASES[k], seed=k, rounds=3, max_paths=40, time_limit=15
    )


if __name__ == "__main__":
    import multiprocessing as mp

    calls, values, names, bad = 0, 0, {}, []
    with mp.get_context("fork").Pool(8) as pool:
        for k, (st, mism) in enumerate(pool.imap(check_case, range(len(opcases.CASES)), 4)):
            calls += st["calls"]
            values += st["values"]
            for n, c in st["ops"].items():
                names[n] = names.get(n, 0) + c
            bad += [f"case {k}: {m}" for m in mism]
    print(
        f"operation contracts: {len(names)} operations, {calls} calls, {values} values compared"
        f" with the real libraries, {len(bad)} mismatches"
    )
    for m in bad[:20]:
        print("  " + m)
    assert not bad
    assert len(names) > 100 and calls > 3000, (len(names), calls)
    print("self-test passed")
