"""Equations of motion."""
import numpy as np
from vspec import sym, psym, isym, uf, vec, claim, claim_noise, symarray, psymarray, raises
from spec_base import AnyPotential, AnyBoundary, BoundaryCondition
from bdld.actions.bussi_parinello_ld import BussiParinelloLD, BpldParticle
from bdld.actions.overdamped_ld import OverdampedLD


def apply_bc(bc, pot, x, p):
    if bc == "reflective":
        for k in range(len(x)):
            lo, hi = pot.ranges[k]
            if x[k] < lo or x[k] > hi:
                p[k] = -p[k]
            x[k] = lo if x[k] < lo else (hi if x[k] > hi else x[k])
    if bc == "periodic":
        for k in range(len(x)):
            lo, hi = pot.ranges[k]
            if x[k] < lo:
                x[k] = x[k] + (hi - lo)
            elif x[k] > hi:
                x[k] = x[k] - (hi - lo)


def bussi(n, d, bc, steps, call="number", moving=True):
    pot = AnyBoundary(d) if bc == "any" else AnyPotential(d)
    if bc != "none" and bc != "any":
        pot.boundary_condition = BoundaryCondition[bc]
    dt, fr, kt, seed = psym("dt"), psym("friction"), psym("kt"), sym("seed")
    ld = BussiParinelloLD(pot, dt, fr, kt, seed)
    start = symarray("X", n, d)
    mass = psymarray("M", n)
    for i in range(n):
        ld.add_particle(start[i], mass[i])
    if moving:
        mom = symarray("P", n, d)
        for i in range(n):
            ld.particles[i].mom = np.array([mom[i][k] for k in range(d)])
    for s in range(steps):
        if call == "none":
            ld.run()
        else:
            ld.run(isym("step", 0, 10 ** 6) if call == "any" else s + 1)

    # reference: velocity Verlet enclosed by two half thermostat steps
    rng = np.random.default_rng(seed)
    xs, ps, es, fs = [], [], [], []
    for i in range(n):
        x = np.array([start[i][k] for k in range(d)])
        xs.append(x)
        ps.append(np.array([mom[i][k] for k in range(d)]) if moving else np.zeros(d))
        es.append(pot.energy(x))
        fs.append(pot.force(x))
    c1 = np.exp(-fr * dt / 2)
    for s in range(steps):
        for i in range(n):
            c2 = np.sqrt((1 - c1 ** 2) * mass[i] * kt)
            x = xs[i]
            p = c1 * ps[i] + c2 * rng.standard_normal(d)
            p = p + fs[i] * dt / 2
            x = x + p / mass[i] * dt
            if bc == "any":
                pot.any_boundary(x, p)
            else:
                apply_bc(bc, pot, x, p)
            f = pot.force(x)
            p = p + f * dt / 2
            p = c1 * p + c2 * rng.standard_normal(d)
            xs[i] = x
            ps[i] = p
            es[i] = pot.energy(x)
            fs[i] = f
    claim_noise("position", [p.pos for p in ld.particles], xs)
    claim_noise("momentum", [[p.pos, p.mom] for p in ld.particles], [[xs[i], ps[i]] for i in range(n)])
    claim_noise("stored energy", [p.energy for p in ld.particles], es)
    claim_noise("stored forces", [p.forces for p in ld.particles], fs)


def overdamped(n, d, bc, steps, call="number"):
    pot = AnyBoundary(d) if bc == "any" else AnyPotential(d)
    if bc != "none" and bc != "any":
        pot.boundary_condition = BoundaryCondition[bc]
    dt, seed = psym("dt"), sym("seed")
    ld = OverdampedLD(pot, dt, seed)
    start = symarray("X", n, d)
    mass = psymarray("M", n)
    for i in range(n):
        ld.add_particle(start[i], mass[i])  # the masses do not enter
    for s in range(steps):
        if call == "none":
            ld.run()
        else:
            ld.run(isym("step", 0, 10 ** 6) if call == "any" else s + 1)

    # reference: Euler-Maruyama with unit friction and thermal energy
    rng = np.random.default_rng(seed)
    xs, es, fs = [], [], []
    for i in range(n):
        x = np.array([start[i][k] for k in range(d)])
        xs.append(x)
        es.append(pot.energy(x))
        fs.append(pot.force(x))
    for s in range(steps):
        for i in range(n):
            x = xs[i] + dt * fs[i] + np.sqrt(2 * dt) * rng.standard_normal(d)
            if bc == "any":
                pot.any_boundary(x, np.zeros(d))
            else:
                apply_bc(bc, pot, x, np.zeros(d))
            xs[i] = x
            es[i] = pot.energy(x)
            fs[i] = pot.force(x)
    claim("thermal energy", ld.kt, 1)
    claim_noise("position", [p.pos for p in ld.particles], xs)
    claim_noise("stored energy", [p.energy for p in ld.particles], es)
    claim_noise("stored forces", [p.forces for p in ld.particles], fs)


def make(which, pot):
    if which == "bussi":
        return BussiParinelloLD(pot, psym("dt"), psym("friction"), psym("kt"), sym("seed"))
    return OverdampedLD(pot, psym("dt"), sym("seed"))


def add_remove(which, d):
    """the caches of every walker belong to its own position, however it entered the list"""
    pot = AnyPotential(d)
    ld = make(which, pot)
    pos = symarray("X", 5, d)
    given = np.array([pos[0][k] for k in range(d)])
    ld.add_particle(given, psym("m0"))
    ld.add_particle(pos[1], psym("m1"))
    ld.add_particle([pos[2][k] for k in range(d)], psym("m2"), 0)
    ld.add_particle(pos[3], psym("m3"), 1, True)
    claim("number of walkers", len(ld.particles), 3)
    claim("positions in list order", [[v for v in p.pos] for p in ld.particles],
          [[v for v in pos[i]] for i in (2, 3, 1)])
    claim("masses in list order", [p.mass for p in ld.particles], [psym("m2"), psym("m3"), psym("m1")])
    claim("energies belong to the positions", [p.energy for p in ld.particles], [pot.energy(pos[i]) for i in (2, 3, 1)])
    claim("forces belong to the positions", [[v for v in p.forces] for p in ld.particles],
          [[v for v in pot.force(pos[i])] for i in (2, 3, 1)])
    claim("momenta start at zero", [[v for v in p.mom] for p in ld.particles], [[0] * d] * 3)
    if which == "bussi":
        c1 = np.exp(-psym("friction") * psym("dt") / 2)
        claim("thermostat factor belongs to the mass", [p.c2 for p in ld.particles],
              [np.sqrt((1 - c1 ** 2) * psym(m) * psym("kt")) for m in ("m2", "m3", "m1")])
    ld.remove_particle(0)
    claim("removed the requested walker", [[v for v in p.pos] for p in ld.particles],
          [[v for v in pos[i]] for i in (3, 1)])
    ld.run(1)
    claim("the passed position is not changed", [v for v in pos[1]], [v for v in symarray("X", 5, d)[1]])
    claim("energies belong to the positions after a step", [p.energy for p in ld.particles],
          [pot.energy(p.pos) for p in ld.particles])
    claim("forces belong to the positions after a step", [[v for v in p.forces] for p in ld.particles],
          [[v for v in pot.force(p.pos)] for p in ld.particles])


def wrong_dimension(which, d, e):
    ld = make(which, AnyPotential(d))
    claim("position of wrong dimension is rejected", raises("ValueError", ld.add_particle, [sym(f"x{k}") for k in range(e)]), d != e)
    claim("walker list unchanged", len(ld.particles), 0)


def cached(which, n, d, bc):
    """energy and forces stored with a walker are those of its position after every step"""
    pot = AnyBoundary(d) if bc == "any" else AnyPotential(d)
    if bc != "none" and bc != "any":
        pot.boundary_condition = BoundaryCondition[bc]
    ld = make(which, pot)
    start = symarray("X", n, d)
    for i in range(n):
        ld.add_particle(start[i], 1.0)
    ld.run(1)
    claim("energy", [p.energy for p in ld.particles], [pot.energy(p.pos) for p in ld.particles])
    claim("forces", [[v for v in p.forces] for p in ld.particles], [[v for v in pot.force(p.pos)] for p in ld.particles])
    if bc != "any":
        return
    ld.run(2)
    claim("energy after two steps", [p.energy for p in ld.particles], [pot.energy(p.pos) for p in ld.particles])
    claim("forces after two steps", [[v for v in p.forces] for p in ld.particles],
          [[v for v in pot.force(p.pos)] for p in ld.particles])


def shared_start(which, n, d):
    """walkers started from one and the same array are independent of it and of each other"""
    pot = AnyPotential(d)
    x = np.array([sym(f"x{k}") for k in range(d)])
    one = make(which, pot)
    two = make(which, pot)
    for i in range(n):
        one.add_particle(x, 1.0)
        two.add_particle([sym(f"x{k}") for k in range(d)], 1.0)
    for s in range(2):
        one.run(s + 1)
        two.run(s + 1)
    claim("passed array unchanged", [v for v in x], [sym(f"x{k}") for k in range(d)])
    claim("positions as with separate arrays", [[v for v in p.pos] for p in one.particles], [[v for v in p.pos] for p in two.particles])
    claim("momenta as with separate arrays", [[v for v in p.mom] for p in one.particles], [[v for v in p.mom] for p in two.particles])
    x[0] += sym("shift")
    claim("walkers do not follow the passed array", [[v for v in p.pos] for p in one.particles], [[v for v in p.pos] for p in two.particles])


def particle(d):
    """a walker owns its data"""
    x = np.array([sym(f"x{k}") for k in range(d)])
    p = np.array([sym(f"p{k}") for k in range(d)])
    a = BpldParticle(x, p, psym("m"))
    b = BpldParticle(x, None)
    c = BpldParticle(x, None)
    claim("position", [v for v in a.pos], [sym(f"x{k}") for k in range(d)])
    claim("momentum", [v for v in a.mom], [sym(f"p{k}") for k in range(d)])
    claim("mass", a.mass, psym("m"))
    claim("default momentum", [v for v in b.mom], [0] * d)
    claim("default mass", b.mass, 1)
    a.pos[0] += sym("s")
    b.mom[0] += sym("s")
    b.pos[0] += sym("s")
    claim("passed position unchanged", [v for v in x], [sym(f"x{k}") for k in range(d)])
    claim("other walkers unchanged", [[v for v in c.pos], [v for v in c.mom]], [[sym(f"x{k}") for k in range(d)], [0] * d])


# ---------------------------------------------------------------- another simulation earlier in the process
def other(which, n, d):
    """the same masses, everything else different"""
    pot = AnyPotential(d)
    if which == "bussi":
        ld = BussiParinelloLD(pot, psym("other.dt"), psym("other.friction"), psym("other.kt"), sym("other.seed"))
    else:
        ld = OverdampedLD(pot, psym("other.dt"), sym("other.seed"))
    start, mass = symarray("O", n, d), psymarray("M", n)
    for i in range(n):
        ld.add_particle(start[i], mass[i])
    ld.add_particle([sym(f"o{k}") for k in range(d)], psym("m3"))
    ld.run(1)


def bussi_second(n, d):
    other("bussi", n, d)
    bussi(n, d, "none", 1, "any")


def overdamped_second(n, d):
    other("od", n, d)
    overdamped(n, d, "none", 1, "any")


def add_remove_second(which, d):
    other(which, 1, d)
    add_remove(which, d)
