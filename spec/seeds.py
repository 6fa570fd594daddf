"""Where random numbers come from."""
import numpy as np
from vspec import sym, psym, isym, claim, state, calls, rows, headers, sources, seedset, written
from spec_cfg import FILES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from spec_opts import base_sections
from bdld import main


def sections(kind, scheme, with_bd, seeds, n):
    """seeds: one value or symbol per generator"""
    s = base_sections(1, kind)
    s["ld"]["n_steps"] = i(n)
    s["ld"]["seed"] = Num(seeds[0], True)
    s["particles"] = {"number": i(2), "initial-distribution": scheme, "seed": Num(seeds[1], True)}
    if scheme != "random-global":
        s["particles"]["pos1"] = part("pos1.", 1)
        s["particles"]["pos2"] = part("pos2.", 1)
    if scheme == "fractions-pos":
        s["particles"]["fractions"] = floats(1, 1)
    if with_bd:
        s["birth-death"] = {"stride": i(1), "kernel-bandwidth": p("bw"), "seed": Num(seeds[2], True)}
    return s


def run(s):
    FILES["input"] = s
    return main.main()


def seeded(kind, scheme, with_bd, zero):
    if zero:
        seeds = [0, 0, 0]
    else:
        seeds = [isym("ld.seed", 0, 99), isym("part.seed", 0, 99), isym("bd.seed", 0, 99)]
    s = sections(kind, scheme, with_bd, seeds, 1)
    s["trajectories"] = {"filename": "traj", "momentum": Flag(True)}
    run(s)
    want = [seeds[0]]
    if scheme != "fractions-pos":
        want.append(seeds[1])
    if with_bd:
        want.append(seeds[2] + 1000)
    names = written()
    claim("files", len(names), 2)
    claim("seeds behind the positions", sources([rows(n) for n in names]), seedset(want))


def repeated(kind, scheme, with_bd, two=False):
    """the same input again in the same process"""
    seeds = [isym("ld.seed", 0, 99), isym("part.seed", 0, 99), isym("bd.seed", 0, 99)]
    s = sections(kind, scheme, with_bd, seeds, 1)
    s["trajectories"] = {"filename": "traj", "momentum": Flag(True)}
    s["histogram"] = {"min": Num(0), "max": Num(2), "bins": i(2), "filename": "histo"}
    if two:
        s["potential"] = {"type": "mueller-brown", "scaling-factor": p("scale")}
        s.pop("histogram")
    run(s)
    names = written()
    first = [rows(n) for n in names]
    claim("files", len(names), 2 if two else 3)
    run(s)
    claim("same output again", [rows(n) for n in names], first)
