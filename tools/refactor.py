"""Run the checks on scratch copies with edits that keep the behaviour.

usage: refactor.py [-j N] [name ...]; prints every check that is not quiet"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from refactorings import R  # noqa: E402

PIDS = ["C%02d" % k for k in range(1, 32)]


def relevant(pid, mods):
    """does the check look at functions of the modules (according to its last evidence)"""
    try:
        with open(os.path.join(os.environ.get("EVIDENCE", VERIF + "/evidence"), pid + ".json")) as f:
            fs = json.load(f)["coverage"]["functions"]
    except (OSError, KeyError):
        return True
    return any(x.startswith(m + ".") for x in fs for m in mods)


def one(job):
    name, pid, d = job
    r = subprocess.run(["python3-vt", os.path.join(VERIF, "run_check.py"), pid, "--root", d], capture_output=True, text=True)
    line = [x for x in r.stdout.split("\n") if x.startswith("property ")]
    open_ = [x.strip() for x in r.stdout.split("\n") if x.startswith("  open")]
    bad = [x.strip() for x in r.stdout.split("\n") if x.startswith("  violated")]
    return name, pid, r.returncode, line[0] if line else r.stderr[-300:], bad, open_


def main():
    a = sys.argv[1:]
    n = 8
    if a[:1] == ["-j"]:
        n = int(a[1])
        a = a[2:]
    pids = [x for x in a if x in PIDS] or PIDS
    a = [x for x in a if x not in PIDS]
    names = a or list(R)
    base = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
    try:
        jobs = []
        for name in names:
            d = os.path.join(base, name)
            shutil.copytree("/repo/bdld", os.path.join(d, "bdld"))
            files = set()
            for f, old, new in R[name]:
                p = os.path.join(d, f)
                s = open(p).read()
                if s.count(old) < 1:
                    print("DOES NOT APPLY", name, f, old[:80])
                    continue
                s = s.replace(old, new, 1)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(s, p, "exec", dont_inherit=True)
                open(p, "w").write(s)
            mods = {f[:-3].replace("/", ".") for f, _, _ in R[name]}
            jobs += [(name, pid, d) for pid in pids if relevant(pid, mods)]
        with ThreadPoolExecutor(n) as ex:
            for name, pid, rc, line, bad, open_ in ex.map(one, jobs):
                if rc or " 0 undecided" not in line:
                    print("ALARM" if rc == 1 else "NO ANSWER" if rc else "open", name, pid, line.split(";")[0])
                    for x in bad[:3]:
                        print("    ", x[:400])
                    for x in open_[:2]:
                        print("    ", x[:300])
                    sys.stdout.flush()
        print("done", len(jobs))
    finally:
        shutil.rmtree(base)


main()
