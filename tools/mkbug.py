"""Helper: write a seeded bug folder from an edit of /repo's HEAD."""
import json, os, subprocess, shutil
def bug(id, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mk-{id}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        s = open(f"{w}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    p = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(p)
    open(f"{d}/demo.py", "w").write(demo.lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w)
