#!/usr/bin/env python3-vt
"""Turns the table in seeds.py into seeded/<id>/ and confirms each entry in a scratch copy.

usage: seed.py [id ...]      (re)create and confirm the named entries (default: those not there yet)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from seeds import SEEDS

HEAD = '''import os, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import stub; stub.install()
import io, contextlib
import numpy as np
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
SCRATCH = tempfile.TemporaryDirectory()
T = SCRATCH.name
'''
SH = '''#!/bin/bash
# exit 0: the property's example holds, 1: broken
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(*a, cwd=None):
    return subprocess.run(a, cwd=cwd, capture_output=True, text=True, timeout=300)


def run(ids):
    for sid, s in SEEDS.items():
        d = os.path.join(VERIF, "seeded", sid)
        if ids and sid not in ids or not ids and os.path.exists(os.path.join(d, "patch.diff")):
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            w = os.path.join(tmp, "repo")
            sh("cp", "-a", "/repo", w)
            sh("git", "checkout", "-q", "--", ".", cwd=w)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write(HEAD + s["demo"].strip("\n") + "\n")
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            shutil.copy(os.path.join(HERE, "stub.py"), os.path.join(d, "stub.py"))
            a = sh("bash", os.path.join(d, "demo.sh"), cwd=w)
            for path, old, new in s["edits"]:
                p = os.path.join(w, path)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit(f"{sid}: {t.count(old)} matches of {old!r} in {path}")
                open(p, "w").write(t.replace(old, new))
            with open(os.path.join(d, "patch.diff"), "w") as f:
                f.write(sh("git", "diff", cwd=w).stdout)
            b = sh("bash", os.path.join(d, "demo.sh"), cwd=w)
            t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test/test_particle.py", cwd=w)
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
            good = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
            print(sid, "confirmed" if good else f"NOT CONFIRMED clean={a.returncode} patched={b.returncode} tests={t.returncode}")
            if not good:
                print((a.stderr or a.stdout)[-600:], "\n---\n", (b.stderr or b.stdout)[-600:], t.stdout[-300:])
            elif "-v" in sys.argv:
                print(b.stderr[-300:])
        finally:
            shutil.rmtree(tmp)


run([x for x in sys.argv[1:] if x[0] != "-"])
