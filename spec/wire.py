"""From the input file to the parameters of the actions."""
import numpy as np
from vspec import sym, psym, isym, claim, raises, rows, headers, written, clobbered, same_object, ssym
from spec_cfg import FILES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from bdld.inputparser import Input
from bdld import main


def ld_section(kind):
    s = {"type": kind, "timestep": p("ld.dt"), "n_steps": i(3), "seed": Num(isym("ld.seed", 0, 99), True)}
    if kind == "bussi-parinello":
        s["kt"] = p("ld.kt")
        s["friction"] = p("ld.friction")
    return s


def poly1():
    return {"type": "polynomial", "n_dim": i(1), "coeffs": part("q", 3), "min": f("pot.min"), "max": f("pot.max")}


def parts():
    return {"number": i(2), "mass": p("part.mass"), "seed": Num(isym("part.seed", 0, 99), True), "initial-distribution": "random-global"}


def ld(kind):
    FILES["input"] = {"ld": ld_section(kind), "potential": poly1(), "particles": parts()}
    c = Input("input")
    pot = main.setup_potential(c.potential)
    l = main.setup_ld(c.ld, pot)
    claim("time step", l.dt, psym("ld.dt"))
    if kind == "bussi-parinello":
        claim("thermal energy", l.kt, psym("ld.kt"))
        claim("friction", l.friction, psym("ld.friction"))
    claim("potential", same_object(l.pot, pot), True)


def order(with_bd, level, with_pop, n, kind="bussi-parinello"):
    """every action once per step, in order, then every final part once"""
    from vspec import calls
    sections = {"ld": ld_section(kind), "potential": poly1(), "particles": parts()}
    sections["ld"]["n_steps"] = i(n)
    names = ["BussiParinelloLD" if kind == "bussi-parinello" else "OverdampedLD"]
    if with_bd:
        sections["birth-death"] = {"stride": i(2), "kernel-bandwidth": p("bw"), "stats-stride": i(2)}
        names.append("BirthDeath")
    if level > 0:
        sections["trajectories"] = {"write-stride": i(2)}
        names.append("TrajectoryAction")
    if level > 1:
        sections["histogram"] = {"min": Num(0), "max": Num(4), "bins": i(4)}
        names.append("HistogramAction")
    if level > 2:
        sections["fes"] = {"kt": p("fes.kt"), "stride": i(2)}
        names.append("FesAction")
    if level > 3:
        sections["delta-f"] = {"state1-min": Num(0), "state1-max": Num(2), "state2-min": Num(2), "state2-max": Num(4)}
        names.append("DeltaFAction")
    pop = "ParticleDistributionAction"
    if with_pop:
        sections["particle-distribution"] = {"state1-min": Num(0), "state1-max": Num(2), "stride": i(2)}
    FILES["input"] = sections
    main.main()
    done = [[c[0], c[1], c[3]] for c in calls()]
    steps = list(range(1, n + 1))
    claim("calls in every step", [c for c in done if c[0] != pop and c[1] == "run"], [[m, "run", s] for s in steps for m in names])
    claim("final calls", [c for c in done if c[0] != pop and c[0] != names[0] and c[1] == "final_run"], [[m, "final_run", n] for m in names[1:]])
    kinds = [c[1] for c in done]
    claim("final calls after all steps", kinds == sorted(kinds, reverse=True), True)
    want = [[pop, "run", s] for s in steps] + [[pop, "final_run", n]] if with_pop else []
    claim("calls of the state populations", [c for c in done if c[0] == pop], want)
    last = names[1] if with_bd else names[0]
    for s in steps:
        now = [c[0] for c in done if c[1] == "run" and c[2] == s]
        if with_pop:
            claim("state populations after the moves of the step", now.index(last) < now.index(pop), True)
