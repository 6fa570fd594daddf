"""Runs with and without output and analysis."""
import numpy as np
from vspec import sym, psym, isym, claim, instances, written, generators
from spec_cfg import FILES, TABLES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from spec_opts import base_sections
from bdld import main


def sections(n_dim, kind, scheme, with_bd, n_steps):
    s = base_sections(1, kind)
    if n_dim == 2:
        s["potential"] = {"type": "polynomial", "n_dim": i(2), "coeffs-file": "coeffs", "min": Many([f("pot.min0"), f("pot.min1")]), "max": Many([f("pot.max0"), f("pot.max1")])}
        TABLES["coeffs"] = [[0, 0, sym("q0")], [1, 0, sym("q1")], [0, 1, sym("q2")]]
    s["ld"]["n_steps"] = i(n_steps)
    s["ld"]["seed"] = i(11)
    s["particles"] = {"number": i(2), "initial-distribution": scheme, "seed": i(22)}
    if scheme == "fractions-pos":
        s["particles"]["pos1"] = part("pos1.", n_dim)
        s["particles"]["pos2"] = part("pos2.", n_dim)
        s["particles"]["fractions"] = floats(1, 1)
    if with_bd:
        s["birth-death"] = {"stride": i(1), "kernel-bandwidth": p("bw") if n_dim == 1 else Many([p("bw0"), p("bw1")]), "seed": i(33)}
    return s


def add(s, n_dim, what):
    def lim(*v):
        return Num(v[0]) if n_dim == 1 else floats(*[v[0]] * n_dim)
    if what == "statistics":
        s["birth-death"]["stats-stride"] = i(1)
        s["birth-death"]["stats-filename"] = "stats"
        return
    if what == "populations":
        s["particle-distribution"] = {"filename": "pop", "stride": i(1)}
        q = "particle-distribution"
    else:
        s["trajectories"] = {"filename": "traj", "momentum": Flag(True), "stride": i(1), "write-stride": i(1)}
        if what == "trajectories":
            return
        s["histogram"] = {"filename": "histo", "min": lim(0), "max": lim(2), "bins": i(2) if n_dim == 1 else ints(2, 2), "stride": i(1), "write-stride": i(1)}
        if what == "reset":
            s["histogram"]["reset"] = i(1)
        if what in ("histogram", "reset"):
            return
        s["fes"] = {"kt": p("fes.kt"), "stride": i(1), "filename": "fes", "write-stride": i(1)}
        if what == "fes":
            return
        s["delta-f"] = {"filename": "delta", "stride": i(1), "write-stride": i(1)}
        q = "delta-f"
    for k in (1, 2):
        s[q]["state" + str(k) + "-min"] = floats(*[k - 1] * n_dim)
        s[q]["state" + str(k) + "-max"] = floats(*[k] * n_dim)


def run(s):
    FILES["input"] = s
    main.main()
    ld = instances("BussiParinelloLD|OverdampedLD")[-1]
    return [[q.pos, q.mom, q.mass, q.energy, q.forces] for q in ld.particles]


def same(n_dim, kind, scheme, with_bd, n_steps, what):
    plain = run(sections(n_dim, kind, scheme, with_bd, n_steps))
    used = generators()
    s = sections(n_dim, kind, scheme, with_bd, n_steps)
    for w in what:
        add(s, n_dim, w)
    watched = run(s)
    claim("files", len(written()) > 0, True)
    for k in range(2):
        for m in range(5):
            claim(["position", "momentum", "mass", "energy", "force"][m] + " of walker " + str(k), watched[k][m], plain[k][m])
    now = generators()[len(used):]
    claim("generators", len(now) >= len(used) and len(used) > 0, True)
    for g in used:
        claim("random numbers drawn", [h[1] for h in now if h[0] == g[0]], [g[1]])
