#!/usr/bin/env python3-vt
"""Decide one property of bpampel/bdld by static analysis of /repo's current source.

usage: run_check.py PROPERTY [--tier quick|thorough] [--root DIR]
exit 0: every decided obligation holds; 1: VIOLATION; 2: nothing could be decided"""
import argparse
import os
import resource
import signal
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    from sa.check import Check, AnchorMissing
    from sa import props
    c = Check(a.pid, a.root, a.tier)
    current.append(c)
    try:
        props.PROPS[a.pid](c)
    except AnchorMissing as e:
        print(f"anchor missing: {e}")
        c.record(f"anchor {e}", "undecided", "anchors", "", "the construct this property is anchored in was not found")
    sys.stdout.flush()
    return c.finish()


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    threading.stack_size(512 << 20)
    out = []
    current = []
    t = threading.Thread(target=lambda: out.append(main()), daemon=True)
    t.start()
    t.join(8000 if "thorough" in " ".join(sys.argv) else 800)
    if t.is_alive() and current:
        # an obligation that does not end stays open; what was decided until here counts
        current[0].record("remaining obligations", "undecided", "time limit", "", "the time limit of the check was reached")
        out.append(current[0].finish())
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
