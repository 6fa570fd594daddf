"""Options of the input file against the parameters of the actions they document."""
import numpy as np
from vspec import sym, psym, isym, claim, raises, state, calls, headers, written, same_object
from spec_cfg import FILES, TABLES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from bdld import main
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.mueller_brown import MuellerBrownPotential
from bdld.potential.potential import BoundaryCondition
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.actions.birth_death import BirthDeath, ApproxVariant
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.fes_action import FesAction
from bdld.actions.delta_f_action import DeltaFAction
from bdld.actions.particle_distribution import ParticleDistributionAction

NAMES = {"ld": "BussiParinelloLD|OverdampedLD", "birth-death": "BirthDeath", "trajectories": "TrajectoryAction", "histogram": "HistogramAction",
         "fes": "FesAction", "delta-f": "DeltaFAction", "particle-distribution": "ParticleDistributionAction"}


def seed(name):
    return Num(isym(name, 0, 99), True)


def seedv(name):
    return isym(name, 0, 99)


def run(sections):
    """the actions the program sets up for an input file"""
    FILES["input"] = sections
    main.main()
    made = {}
    for c in calls():
        for s, names in NAMES.items():
            if c[0] in names.split("|"):
                made[s] = c[2]
    return made


def compare(made, want):
    claim("configured actions", sorted(made.keys()), sorted(want.keys()))
    for s in want:
        claim(f"parameters of [{s}]", state(made[s]), state(want[s]))
    claim("shared objects", state([made[s] for s in want]), state([want[s] for s in want]))


def base_sections(n_dim, kind="bussi-parinello", mass=True, seeds=True):
    ld = {"type": kind, "timestep": p("ld.dt"), "n_steps": i(1)}
    if kind == "bussi-parinello":
        ld["kt"] = p("ld.kt")
        ld["friction"] = p("ld.friction")
    if seeds:
        ld["seed"] = seed("ld.seed")
    if n_dim == 1:
        pot = {"type": "polynomial", "n_dim": i(1), "coeffs": part("q", 3), "min": f("pot.min"), "max": f("pot.max")}
    else:
        pot = {"type": "mueller-brown"}
    parts = {"number": i(2), "initial-distribution": "fractions-pos", "pos1": part("pos", n_dim), "fractions": floats(1)}
    if mass:
        parts["mass"] = p("part.mass")
    return {"ld": ld, "potential": pot, "particles": parts}


def base_objects(n_dim, kind="bussi-parinello", mass=True, seeds=True, pot=None):
    if pot is None:
        if n_dim == 1:
            pot = PolynomialPotential([sym("q0"), sym("q1"), sym("q2")], [(sym("pot.min"), sym("pot.max"))])
        else:
            pot = MuellerBrownPotential()
    s = seedv("ld.seed") if seeds else None
    if kind == "bussi-parinello":
        ld = BussiParinelloLD(pot, psym("ld.dt"), psym("ld.friction"), psym("ld.kt"), s)
    else:
        ld = OverdampedLD(pot, psym("ld.dt"), s)
    for k in range(2):
        ld.add_particle([sym("pos" + str(d)) for d in range(n_dim)], psym("part.mass") if mass else 1.0)
    return {"ld": ld}


def dynamics(n_dim, kind, mass, seeds):
    made = run(base_sections(n_dim, kind, mass, seeds))
    compare(made, base_objects(n_dim, kind, mass, seeds))


def boundary(n_dim, bc):
    s = base_sections(n_dim)
    if bc:
        s["potential"]["boundary-condition"] = bc
    made = run(s)
    want = base_objects(n_dim)
    if bc == "periodic":
        want["ld"].pot.boundary_condition = BoundaryCondition.periodic
    if bc == "reflective":
        want["ld"].pot.boundary_condition = BoundaryCondition.reflective
    compare(made, want)


def scaling():
    s = base_sections(2)
    s["potential"]["scaling-factor"] = p("scale")
    compare(run(s), base_objects(2, pot=MuellerBrownPotential(psym("scale"))))


def direct(bd, o):
    claim("exponential factor", bd.rate_fac, psym("fac") if "exponential-factor" in o else 1)
    claim("recalculation", True if bd.recalc_probs else False, "recalculate-probabilities" in o)
    claim("strides", [bd.stride, bd.stats_stride], [7, 11 if "stats-stride" in o else None])


def birth_death(n_dim, variant, extra):
    s = base_sections(n_dim)
    o = {"stride": i(7), "kernel-bandwidth": p("bw") if n_dim == 1 else Many([p("bw0"), p("bw1")])}
    bw = [psym("bw")] if n_dim == 1 else [psym("bw0"), psym("bw1")]
    if variant:
        o["approximation-variant"] = variant
    a = {}
    if extra:
        o.update({"exponential-factor": p("fac"), "recalculate-probabilities": Flag(True), "seed": seed("bd.seed"), "stats-stride": i(11), "stats-filename": "out.stats"})
        a = {"rate_fac": psym("fac"), "recalc_probs": True, "seed": seedv("bd.seed") + 1000, "stats_stride": 11, "stats_filename": "out.stats"}
    s["birth-death"] = o
    made = run(s)
    want = base_objects(n_dim)
    ld = want["ld"]
    want["birth-death"] = BirthDeath(ld.particles, ld.dt, 7, bw, ld.kt, **a)
    compare(made, want)
    direct(made["birth-death"], o)


def birth_death_one(n_dim, option):
    s = base_sections(n_dim)
    o = {"stride": i(7), "kernel-bandwidth": p("bw") if n_dim == 1 else Many([p("bw0"), p("bw1")])}
    bw = [psym("bw")] if n_dim == 1 else [psym("bw0"), psym("bw1")]
    values = {"exponential-factor": p("fac"), "recalculate-probabilities": Flag(True), "seed": seed("bd.seed"), "stats-stride": i(11), "stats-filename": "out.stats"}
    args = {"exponential-factor": {"rate_fac": psym("fac")}, "recalculate-probabilities": {"recalc_probs": True}, "seed": {"seed": seedv("bd.seed") + 1000},
            "stats-stride": {"stats_stride": 11}, "stats-filename": {"stats_filename": "out.stats"}}
    o[option] = values[option]
    s["birth-death"] = o
    made = run(s)
    want = base_objects(n_dim)
    ld = want["ld"]
    want["birth-death"] = BirthDeath(ld.particles, ld.dt, 7, bw, ld.kt, **args[option])
    compare(made, want)
    direct(made["birth-death"], o)


class Arguments:
    """what birth-death is created with"""

    def __init__(self, particles, md_dt, stride, bw, kt, rate_fac=None, recalc_probs=False, approx_variant=None, eq_density=None, seed=None,
                 stats_stride=None, stats_filename=None):
        self.particles = particles
        self.kt = kt
        self.variant = approx_variant
        self.density = eq_density
        MADE.append(self)

    def run(self, step):
        pass

    def final_run(self, step):
        pass


class Density:
    def __init__(self, pot, kt, ranges, n_points):
        self.kt = kt
        self.pot = pot
        self.ranges = ranges


MADE = []


def variant(n_dim, values, want):
    """the approximation named by the options and the density it needs"""
    s = base_sections(n_dim)
    s["birth-death"] = {"stride": i(7), "kernel-bandwidth": Num(0.5) if n_dim == 1 else floats(0.5, 0.7)}
    s["potential"]["min"] = Num(-2)
    s["potential"]["max"] = Num(2)
    for k, v in values:
        s["birth-death"][k] = v
    made = run(s)
    names = {"orig": ApproxVariant.orig, "add": ApproxVariant.add, "mult": ApproxVariant.mult}
    a = MADE[0]
    claim("approximation", a.variant is names[want] or want == "orig" and a.variant is None, True)
    claim("walkers", same_object(a.particles, made["ld"].particles), True)
    if want != "orig":
        claim("thermal energy of the density", a.density.kt, psym("ld.kt"))
        claim("potential of the density", same_object(a.density.pot, made["ld"].pot), True)
        claim("range of the density", [[x for x in r] for r in a.density.ranges], [[x for x in r] for r in made["ld"].pot.ranges])


def trajectories(opt):
    s = base_sections(1)
    want = base_objects(1)
    values = {"stride": i(3), "filename": "out.traj", "momentum": Flag(True), "write-stride": i(7), "fmt": "%8.3f"}
    args = {"stride": 3, "filename": "out.traj", "momentum": True, "write-stride": 7, "fmt": "%8.3f"}
    a = {k: None for k in args}
    s["trajectories"] = {}
    for k in opt:
        s["trajectories"][k] = values[k]
        a[k] = args[k]
    made = run(s)
    want["trajectories"] = TrajectoryAction(want["ld"], a["stride"] or 1, a["filename"], a["momentum"] or False, a["write-stride"] or 100, a["fmt"] or "%14.9f")
    compare(made, want)


def histogram(n_dim, opt):
    s = base_sections(n_dim)
    want = base_objects(n_dim)
    s["trajectories"] = {"stride": i(2)}
    values = {"stride": i(4), "reset": ints(5, 9), "filename": "out.histo", "write-stride": i(8), "fmt": "%8.3f"}
    args = {"stride": 4, "reset": [5, 9], "filename": "out.histo", "write-stride": 8, "fmt": "%8.3f"}
    if n_dim == 1:
        h = {"min": Num(-3), "max": Num(5), "bins": i(4)}
        ranges, bins = [(-3, 5)], [4]
    else:
        h = {"min": floats(-1, -3), "max": floats(7, 5), "bins": ints(4, 2)}
        ranges, bins = [(-1, 7), (-3, 5)], [4, 2]
    a = {k: None for k in args}
    for k in opt:
        h[k] = values[k]
        a[k] = args[k]
    s["histogram"] = h
    made = run(s)
    want["trajectories"] = TrajectoryAction(want["ld"], 2)
    want["histogram"] = HistogramAction(want["trajectories"], bins, ranges, a["stride"], a["reset"], a["filename"], a["write-stride"], a["fmt"] or "%14.9f")
    compare(made, want)


def surface(n_dim, opt):
    s = base_sections(n_dim)
    want = base_objects(n_dim)
    s["trajectories"] = {}
    if n_dim == 1:
        s["histogram"] = {"min": Num(-3), "max": Num(5), "bins": i(4)}
        ranges, bins = [(-3, 5)], [4]
    else:
        s["histogram"] = {"min": floats(-1, -3), "max": floats(7, 5), "bins": ints(4, 2)}
        ranges, bins = [(-1, 7), (-3, 5)], [4, 2]
    values = {"stride": i(4), "filename": "out.fes", "write-stride": i(8), "fmt": "%8.3f", "plot-stride": i(12), "plot-filename": "out.png",
              "plot-domain": part("dom", 2), "plot-title": "Some title"}
    args = {"stride": 4, "filename": "out.fes", "write-stride": 8, "fmt": "%8.3f", "plot-stride": 12, "plot-filename": "out.png",
            "plot-domain": [sym("dom0"), sym("dom1")], "plot-title": "Some title"}
    a = {k: None for k in args}
    s["fes"] = {"kt": p("fes.kt")}
    for k in opt:
        s["fes"][k] = values[k]
        a[k] = args[k]
    made = run(s)
    want["trajectories"] = TrajectoryAction(want["ld"])
    h = HistogramAction(want["trajectories"], bins, ranges)
    want["histogram"] = h
    ref = want["ld"].pot.calculate_reference(h.histo.points())
    want["fes"] = FesAction(h, a["stride"], a["filename"], a["write-stride"], a["fmt"] or "%14.9f", a["plot-stride"], a["plot-filename"], a["plot-domain"],
                            a["plot-title"], ref, psym("fes.kt"))
    compare(made, want)


def states(n_dim):
    """three states as options, as boxes, and which points of the histogram grid they contain"""
    if n_dim == 1:
        return ({"state1-min": Num(-2), "state1-max": Num(0), "state2-min": Num(0), "state2-max": Num(2), "state3-min": Num(-3), "state3-max": Num(2.5)},
                [[(-2, 0)], [(0, 2)], [(-3, 2.5)]],
                [[True, False, False, False][k] for k in range(0)])
    return ({"state1-min": floats(-1, -2), "state1-max": floats(1, 0), "state2-min": floats(0, 0), "state2-max": floats(2, 3), "state3-min": floats(-1, -3), "state3-max": floats(7, 1)},
            [[(-1, 1), (-2, 0)], [(0, 2), (0, 3)], [(-1, 7), (-3, 1)]], None)


def differences(n_dim, opt):
    s = base_sections(n_dim)
    want = base_objects(n_dim)
    s["trajectories"] = {}
    if n_dim == 1:
        s["histogram"] = {"min": Num(-3), "max": Num(5), "bins": i(4)}
        ranges, bins = [(-3, 5)], [4]
        centres = [[-2], [0], [2], [4]]
    else:
        s["histogram"] = {"min": floats(-1, -3), "max": floats(7, 5), "bins": ints(4, 2)}
        ranges, bins = [(-1, 7), (-3, 5)], [4, 2]
        centres = [[x, y] for x in (0, 2, 4, 6) for y in (-1, 3)]
    s["fes"] = {"kt": p("fes.kt"), "stride": i(2)}
    o, boxes, _ = states(n_dim)
    values = {"stride": i(4), "filename": "out.delta", "write-stride": i(8), "fmt": "%8.3f"}
    args = {"stride": 4, "filename": "out.delta", "write-stride": 8, "fmt": "%8.3f"}
    a = {k: None for k in args}
    for k in opt:
        o[k] = values[k]
        a[k] = args[k]
    s["delta-f"] = o
    made = run(s)
    want["trajectories"] = TrajectoryAction(want["ld"])
    h = HistogramAction(want["trajectories"], bins, ranges)
    want["histogram"] = h
    ref = want["ld"].pot.calculate_reference(h.histo.points())
    want["fes"] = FesAction(h, 2, None, None, None, None, None, None, None, ref, psym("fes.kt"))
    masks = []
    for box in boxes:
        inside = [all([lo <= x <= hi for x, (lo, hi) in zip(c, box)]) for c in centres]
        masks.append(np.array(inside).reshape(bins))
    want["delta-f"] = DeltaFAction(want["fes"], masks, a["stride"], a["filename"], a["write-stride"], a["fmt"] or "%14.9f")
    compare(made, want)


def populations(n_dim, opt):
    s = base_sections(n_dim)
    want = base_objects(n_dim)
    o = {}
    boxes = []
    for k in range(3):
        n = str(k + 1)
        o["state" + n + "-min"] = part("lo" + n, n_dim)
        o["state" + n + "-max"] = part("hi" + n, n_dim)
        boxes.append([(sym("lo" + n + str(d)), sym("hi" + n + str(d))) for d in range(n_dim)])
    values = {"stride": i(4), "filename": "out.pop", "write-stride": i(8), "fmt": "%8.3f"}
    args = {"stride": 4, "filename": "out.pop", "write-stride": 8, "fmt": "%8.3f"}
    a = {k: None for k in args}
    for k in opt:
        o[k] = values[k]
        a[k] = args[k]
    s["particle-distribution"] = o
    made = run(s)
    want["particle-distribution"] = ParticleDistributionAction(want["ld"].particles, boxes, a["stride"], a["filename"], a["write-stride"], a["fmt"] or "%14.9f")
    compare(made, want)


def common():
    """options of the default section are shared"""
    s = base_sections(1)
    s["DEFAULT"] = {"kt": p("ld.kt"), "timestep": p("ld.dt"), "stride": i(3), "seed": seed("ld.seed")}
    for k in ("kt", "timestep", "seed"):
        s["ld"].pop(k)
    s["birth-death"] = {"kernel-bandwidth": p("bw")}
    s["trajectories"] = {}
    made = run(s)
    want = base_objects(1)
    ld = want["ld"]
    want["birth-death"] = BirthDeath(ld.particles, ld.dt, 3, [psym("bw")], ld.kt, seed=seedv("ld.seed") + 1000)
    want["trajectories"] = TrajectoryAction(ld, 3)
    compare(made, want)


def dimensions(n_dim, extra):
    """polynomial in several dimensions with coefficients from a file"""
    s = base_sections(1)
    s["potential"] = {"type": "polynomial", "n_dim": i(n_dim), "coeffs-file": "coeffs", "min": part("lo", n_dim), "max": part("hi", n_dim)}
    if n_dim == 1:
        s["potential"]["min"] = f("lo0")
        s["potential"]["max"] = f("hi0")
    s["particles"]["pos1"] = part("pos", n_dim)
    orders = {1: [[0], [3], [1]], 2: [[0, 1], [2, 0], [1, 1]], 3: [[0, 0, 1], [2, 0, 0], [1, 2, 1]]}[n_dim]
    TABLES["coeffs"] = [o + [sym("q" + str(k))] + ([k, 99] if extra else []) for k, o in enumerate(orders)]
    coeffs = np.zeros([max([o[d] for o in orders]) + 1 for d in range(n_dim)])
    for k, o in enumerate(orders):
        coeffs[tuple(o)] = sym("q" + str(k))
    made = run(s)
    pot = PolynomialPotential(coeffs, [(sym("lo" + str(d)), sym("hi" + str(d))) for d in range(n_dim)])
    compare(made, base_objects(n_dim, pot=pot))
