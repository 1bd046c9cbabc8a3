"""Shared set-up of the check scripts: paths, contracts, known findings."""
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load():
    """Import the real code and every contract."""
    import importlib

    import torch

    torch.set_num_threads(1)
    import singd

    assert os.path.realpath(singd.__file__).startswith(os.path.realpath(REPO)), singd.__file__
    for m in ("structures", "kfac", "optim"):
        if os.path.exists(f"{VERIF}/contracts/{m}.py"):
            importlib.import_module("contracts." + m)
    from vcgen import env

    return env


def findings():
    out = []
    f = f"{VERIF}/known_findings.jsonl"
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def properties():
    return {
        p["id"]: p
        for p in map(json.loads, open(f"{VERIF}/properties.jsonl"))
    }
