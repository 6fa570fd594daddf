"""Input that must be refused."""
import numpy as np
from vspec import sym, psym, isym, claim, raises
from spec_cfg import FILES, TABLES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from bdld.inputparser import Input, OptionError, SectionError, min_max_to_ranges
from bdld import main


def full(n_dim, kind="bussi-parinello", pot="polynomial", scheme="fractions-pos"):
    """a valid input file with every option"""
    s = {}
    s["ld"] = {"type": kind, "timestep": p("ld.dt"), "n_steps": i(1), "seed": i(7)}
    if kind == "bussi-parinello":
        s["ld"]["kt"] = p("ld.kt")
        s["ld"]["friction"] = p("ld.friction")
    if pot == "polynomial" and n_dim == 1:
        s["potential"] = {"type": pot, "n_dim": i(1), "coeffs": part("q", 3), "min": f("pot.min"), "max": f("pot.max"), "boundary-condition": "periodic"}
    elif pot == "polynomial":
        s["potential"] = {"type": pot, "n_dim": i(n_dim), "coeffs-file": "coeffs", "min": part("pot.min", n_dim), "max": part("pot.max", n_dim), "boundary-condition": "reflective"}
        TABLES["coeffs"] = [[0] * n_dim + [sym("q0")], [1] * n_dim + [sym("q1")]]
    else:
        s["potential"] = {"type": pot, "scaling-factor": p("scale"), "boundary-condition": "periodic"}
    s["particles"] = {"number": i(2), "mass": p("part.mass"), "seed": i(8), "initial-distribution": scheme}
    if scheme != "random-global":
        s["particles"]["pos1"] = part("pos", n_dim)
        s["particles"]["pos2"] = part("pos", n_dim)
    if scheme == "fractions-pos":
        s["particles"]["fractions"] = floats(1, 1)
    s["birth-death"] = {"stride": i(2), "kernel-bandwidth": p("bw") if n_dim == 1 else Many([p("bw" + str(d)) for d in range(n_dim)]),
                        "recalculate-probabilities": Flag(True), "approximation-variant": "orig", "exponential-factor": p("fac"), "seed": i(9),
                        "stats-stride": i(2), "stats-filename": "stats"}
    s["trajectories"] = {"filename": "traj", "stride": i(1), "momentum": Flag(True), "write-stride": i(10), "fmt": "%8.3f"}
    lo = Num(0) if n_dim == 1 else floats(*[0] * n_dim)
    hi = Num(4) if n_dim == 1 else floats(*[4] * n_dim)
    s["histogram"] = {"min": lo, "max": hi, "bins": i(4) if n_dim == 1 else ints(*[2] * n_dim), "stride": i(1), "reset": ints(3, 5), "filename": "histo",
                      "write-stride": i(4), "fmt": "%8.3f"}
    s["fes"] = {"kt": p("fes.kt"), "stride": i(2), "filename": "fes", "write-stride": i(4), "fmt": "%8.3f", "plot-stride": i(4), "plot-filename": "plot",
                "plot-domain": floats(0, 8), "plot-title": "Title"}
    states = {}
    for k in (1, 2):
        states["state" + str(k) + "-min"] = floats(*[2 * k - 2] * n_dim)
        states["state" + str(k) + "-max"] = floats(*[2 * k] * n_dim)
    s["delta-f"] = {"stride": i(2), "filename": "delta", "write-stride": i(4), "fmt": "%8.3f"}
    s["delta-f"].update(states)
    s["particle-distribution"] = {"stride": i(2), "filename": "pop", "write-stride": i(4), "fmt": "%8.3f"}
    s["particle-distribution"].update(states)
    return s


def read(s):
    FILES["input"] = s
    return Input("input")


def start(s):
    FILES["input"] = s
    main.main()


def valid(n_dim, kind, pot, scheme):
    s = full(n_dim, kind, pot, scheme)
    claim("accepted", raises("", read, s), False)
    claim("runs", raises("", start, s), False)


def no_section(name, n_dim):
    s = full(n_dim)
    s.pop(name)
    bad = name in ("ld", "potential", "particles", "histogram", "fes")
    claim("missing section is reported", raises("SectionError", read, s), bad)
    claim("program stops", raises("SystemExit", start, s), bad or name == "trajectories")


def report(s):
    """text of the error"""
    try:
        read(s)
    except OptionError as e:
        return e.args[0]
    return ""


def missing(n_dim, section, option, required, kind, pot, scheme):
    s = full(n_dim, kind, pot, scheme)
    s[section].pop(option)
    claim("missing option is reported", raises("OptionError", read, s), required)
    if required:
        claim("program stops", raises("SystemExit", start, s), True)
        text = report(s)
        claim("error names the option", option in text and section in text, True)


def wrong(n_dim, section, option, what, kind, pot, scheme):
    """text that does not convert to the type of the option"""
    s = full(n_dim, kind, pot, scheme)
    texts = {"text": Bad(), "real": Num(1.5), "list": floats(1, 2), "texts": Many([Num(1), Bad()]), "reals": Many([Num(1, True), Num(1.5)]), "flag": Flag(True),
             "empty": "", "gap": Many([Num(1, True), "", Num(2, True)])}
    s[section][option] = texts[what]
    claim("wrong value is reported", raises("OptionError", read, s), True)
    text = report(s)
    claim("error names the option", option in text and section in text, True)
    claim("program stops", raises("SystemExit", start, s), True)


def limit(n_dim, section, option, cond, whole, kind, pot, scheme):
    """values are accepted exactly under the condition of the option"""
    s = full(n_dim, kind, pot, scheme)
    x = sym("x")
    if whole == "list":
        s[section][option] = Many([Num(psym("y"), True), Num(x, True)])
    else:
        s[section][option] = Num(x, whole)
    bad = x <= 0 if cond == "positive" else x < 0
    claim("condition of the option", raises("OptionError", read, s), bad)


def unknown(n_dim, section, option, kind, pot, scheme):
    """text that is none of the known names"""
    s = full(n_dim, kind, pot, scheme)
    s[section][option] = "something"
    claim("program stops", raises("SystemExit", start, s), True)


def dimension(n):
    s = full(n if n > 0 else 2)
    s["potential"]["n_dim"] = i(n)
    claim("number of dimensions", raises("OptionError", read, s), n < 1 or n > 3)


def borders(ns, ms):
    """corners of states with the given numbers of values"""
    lo = [[sym(f"lo{j}_{k}") for k in range(n)] for j, n in enumerate(ns)]
    hi = [[sym(f"hi{j}_{k}") for k in range(n)] for j, n in enumerate(ms)]
    bad = len(ns) != len(ms) or any([n != ns[0] for n in ns + ms])
    claim("borders of states", raises("ValueError", min_max_to_ranges, lo, hi), bad)
    if not bad:
        claim("states", [[[x[0], x[1]] for x in r] for r in min_max_to_ranges(lo, hi)], [[[lo[j][k], hi[j][k]] for k in range(n)] for j, n in enumerate(ns)])


def bandwidth(n_dim, n):
    s = full(n_dim)
    s["birth-death"]["kernel-bandwidth"] = Many([p("bw" + str(d)) for d in range(n)])
    claim("number of bandwidths", raises("SystemExit", start, s), n != n_dim)


def negative_bandwidth(n_dim, at):
    s = full(n_dim)
    x = sym("x")
    if n_dim == 1:
        s["birth-death"]["kernel-bandwidth"] = Num(x)
    else:
        s["birth-death"]["kernel-bandwidth"] = Many([Num(x) if d == at else p("bw" + str(d)) for d in range(n_dim)])
    claim("positive bandwidths", raises("OptionError", read, s), x <= 0)


def states(section, n_dim, what):
    s = full(n_dim)
    q = s[section]
    for k in (1, 2):
        for m in ("-min", "-max"):
            q.pop("state" + str(k) + m)
    lo = part("lo", n_dim)
    hi = part("hi", n_dim)
    if what == "no maximum":
        q.update({"state1-min": lo, "state1-max": hi, "state2-min": lo})
    elif what == "no minimum":
        q.update({"state1-min": lo, "state1-max": hi, "state2-max": hi})
    elif what == "unpaired":
        q.update({"state1-min": lo, "state1-max": hi, "state2-min": lo, "state2-max": hi, "state3-max": hi})
    elif what == "longer minimum":
        q.update({"state1-min": part("lo", n_dim + 1), "state1-max": hi, "state2-min": lo, "state2-max": hi})
    elif what == "longer maximum":
        q.update({"state1-min": lo, "state1-max": hi, "state2-min": lo, "state2-max": part("hi", n_dim + 1)})
    elif what == "one state" :
        q.update({"state1-min": lo, "state1-max": hi})
    elif what == "wrong dimension":
        q.update({"state1-min": part("lo", n_dim + 1), "state1-max": part("hi", n_dim + 1), "state2-min": part("lo", n_dim + 1), "state2-max": part("hi", n_dim + 1)})
    elif what == "text":
        q.update({"state1-min": lo, "state1-max": Bad(), "state2-min": lo, "state2-max": hi})
    want = True
    if what == "one state":
        want = section == "delta-f"
    claim("program stops", raises("", start, s), want)


def mismatch(what):
    """options that do not fit together"""
    s = full(2)
    h = s["histogram"]
    if what == "few bins":
        h["bins"] = ints(3)
    elif what == "many bins":
        h["bins"] = ints(3, 3, 3)
    elif what == "few minima":
        h["min"] = floats(0)
    elif what == "few maxima":
        h["max"] = floats(4)
    elif what == "file stride without file":
        h.pop("filename")
    elif what == "surface stride without file":
        s["fes"].pop("filename")
    elif what == "plot stride without file":
        s["fes"].pop("plot-filename")
    elif what == "surface file without stride":
        s["fes"].pop("stride")
    elif what == "start in wrong dimension":
        s["particles"]["pos1"] = part("pos", 3)
    elif what == "more fractions":
        s["particles"]["fractions"] = floats(1, 1, 1)
    elif what == "fewer fractions":
        s["particles"]["fractions"] = floats(1)
    elif what == "many minima":
        h["min"] = floats(0, 0, 0)
    elif what == "many maxima":
        h["max"] = floats(4, 4, 4)
    elif what == "many ranges":
        s["potential"]["max"] = part("pot.max", 3)
    elif what == "few ranges":
        s["potential"]["min"] = part("pot.min", 1)
    claim("program stops", raises("", start, s), True)
