"""Planted bugs: property, edits (path, old text, new text), demonstration."""
SEEDS = {}


def seed(sid, property, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


BDFILE = "bdld/actions/birth_death.py"
BP = "bdld/actions/bussi_parinello_ld.py"
OD = "bdld/actions/overdamped_ld.py"

seed("s01", "C03", [(BDFILE, "        if num >= excl:\n", "        if num > excl:\n")],
     "a partner draw that hits exactly the walker's own index", "a walker can be paired with itself, so that the event does nothing and the partner choice is not uniform over the others",
     '''
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
ps = [BpldParticle([float(i)]) for i in range(4)]
for p in ps: p.energy = 0.0
bd = quiet(BirthDeath, ps, 0.1, 1, [0.5], 1.0, seed=1)
seen = [[bd.random_other(4, i) for _ in range(400)] for i in range(4)]
for i in range(4):
    assert set(seen[i]) == set(range(4)) - {i}, (i, set(seen[i]))
''')

seed("s02", "C09", [(BP, "            # second part of velocity verlet with force evaluation\n            p.energy, p.forces = self.pot.evaluate(p.pos)\n",
                     "            # second part of velocity verlet with force evaluation\n"),
                    (BP, "            # apply boundary conditions if needed\n            self.pot.apply_boundary_condition(p.pos, p.mom)\n",
                     "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            # apply boundary conditions if needed\n            self.pot.apply_boundary_condition(p.pos, p.mom)\n")],
     "a boundary condition that moves the walker in that step", "the stored energy and forces are those before the boundary condition was applied",
     '''
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.potential import BoundaryCondition
pot = quiet(PolynomialPotential, [0, 1.0, 0, 1.0], [(-1.0, 1.0)])
pot.boundary_condition = BoundaryCondition.reflective
ld = quiet(BussiParinelloLD, pot, 0.5, 1.0, 1.0, 3)
ld.add_particle([0.9])
for s in range(50):
    ld.run(s)
    p = ld.particles[0]
    assert np.isclose(p.energy, pot.energy(p.pos)) and np.allclose(p.forces, pot.force(p.pos)), s
''')

seed("s03", "C07", [(BP, "            p.pos += (p.mom / p.mass) * self.dt\n", "            p.pos += p.mom * self.dt / max(p.mass, 1.0)\n")],
     "a walker lighter than 1", "walkers with mass below one move as if they had mass one",
     '''
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 1.0, 1.0], [(-10.0, 10.0)])
for m in (0.25, 1.0, 4.0):
    ld = quiet(BussiParinelloLD, pot, 0.01, 0.7, 1.5, 3)
    ld.add_particle([0.5], m)
    rng = np.random.default_rng(3)
    c1 = np.exp(-0.5 * 0.7 * 0.01); c2 = np.sqrt((1 - c1 ** 2) * m * 1.5)
    mom = c2 * rng.standard_normal(1) + 0.5 * pot.force([0.5]) * 0.01
    ld.run(1)
    assert np.allclose(ld.particles[0].pos, 0.5 + mom / m * 0.01), m
''')


POT = "bdld/potential/potential.py"
POLY = "bdld/potential/polynomial.py"
MB = "bdld/potential/mueller_brown.py"
MAIN = "bdld/main.py"
INP = "bdld/inputparser.py"
GRID = "bdld/grid.py"
HIST = "bdld/histogram.py"
HA = "bdld/actions/histogram_action.py"
TA = "bdld/actions/trajectory_action.py"
FES = "bdld/actions/fes_action.py"
DF = "bdld/actions/delta_f_action.py"
PD = "bdld/actions/particle_distribution.py"
ACT = "bdld/actions/action.py"
TOOLS = "bdld/tools.py"
PART = "bdld/particle.py"

MAINRUN = """
import bdld.main, inspect
def simulate(text, **extra):
    os.chdir(T)
    open("in.ini", "w").write(text)
    sys.argv = ["bdld", "in.ini"]
    quiet(bdld.main.main)
def parsed(text):
    from bdld.inputparser import Input
    open(T + "/p.ini", "w").write(text)
    return quiet(Input, T + "/p.ini")
BASE = "[ld]\\ntype: bussi-parinello\\ntimestep: 0.01\\nn_steps: %d\\nkt: 1\\nfriction: 5\\nseed: 3\\n[potential]\\ntype: polynomial\\nn_dim: 1\\ncoeffs: 0,0.2,-4,0,1\\nmin: -2.5\\nmax: 2.5\\n[particles]\\nnumber: 6\\ninitial-distribution: random-global\\nseed: 2\\n"
"""

seed("s04", "C01", [(BDFILE, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n",
                     "            clone = copy.copy(self.particles[dup])\n            clone.pos = clone.pos.copy()\n            self.particles[kill] = clone\n")],
     "overdamped dynamics, a reflective boundary hit after a birth-death event", "a duplicate shares the momentum array with its original, so that a reflection of one inverts both",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.potential import BoundaryCondition
pot = quiet(PolynomialPotential, [0, 0.0, 1.0], [(-1.0, 1.0)])
pot.boundary_condition = BoundaryCondition.reflective
ld = quiet(OverdampedLD, pot, 0.01, 3)
for x in (0.1, 0.5, -0.5): ld.add_particle([x])
bd = quiet(BirthDeath, ld.particles, 0.01, 1, [0.5], 1.0, seed=1)
bd.perform_moves([(0, 2)])
for n in ("pos", "mom", "forces"):
    assert not np.shares_memory(getattr(ld.particles[0], n), getattr(ld.particles[2], n)), n
""")

seed("s05", "C01", [(PART, "        self.pos = np.array(pos, dtype=float)\n", "        self.pos = np.asarray(pos, dtype=float).reshape(-1)\n")],
     "a starting position handed in as float array and used again", "walkers placed at the same given array share it, and the caller's array moves with them",
     """
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.0, 1.0], [(-1.0, 1.0)])
ld = quiet(OverdampedLD, pot, 0.01, 3)
start = np.array([0.25])
ld.add_particle(start); ld.add_particle(start)
for s in range(3): ld.run(s)
assert start[0] == 0.25 and ld.particles[0].pos[0] != ld.particles[1].pos[0]
""")

seed("s06", "C02", [(BDFILE, "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n",
                     "        moved = list(self.particles)\n        for dup, kill in event_list:\n            moved[kill] = copy.deepcopy(moved[dup])\n        if event_list:\n            self.particles = moved\n")],
     "an accepted event; the integrator then goes on with the old list", "birth-death replaces its own list, so that integrator and output no longer see the same population",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, -4, 0, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.01, 5, 1, 3)
for x in np.linspace(-2, 2, 8): ld.add_particle([x])
bd = quiet(BirthDeath, ld.particles, 5.0, 1, [0.5], 1.0, seed=1)
bd.do_birth_death()
assert bd.particles is ld.particles
xs = [float(p.pos[0]) for p in ld.particles]
assert len(set(xs)) < 8
""")

seed("s07", "C02", [(BDFILE, "                if i not in kill_list:  # the move was accepted from the old beta!\n                    rand_other = self.random_other(num_part, i)\n                    if beta[i] > 0:\n                        kill_list.append(i)\n                        dup_list.append(rand_other)\n",
                     "                if i not in kill_list:  # the move was accepted from the old beta!\n                    rand_other = self.random_other(num_part, i)\n                    if beta[i] > 0:\n                        kill_list.append(i)\n                        if rand_other not in kill_list:\n                            dup_list.append(rand_other)\n")],
     "a kill event whose partner was itself killed before in the same step", "the kill has no duplication, later events are paired wrongly or dropped",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
for seed in range(40):
    ps = [BpldParticle([float(i % 3)]) for i in range(8)]
    for i, p in enumerate(ps): p.energy = float(i)
    bd = quiet(BirthDeath, ps, 50.0, 1, [0.5], 1.0, seed=seed)
    ev = bd.do_birth_death()
    assert bd.stats.kill_count + bd.stats.dup_count == len(ev), seed
    beta_sign = [e for e in ev if e[0] == e[1]]
    assert not beta_sign
""")

seed("s08", "C03", [(BDFILE, "            prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n            event_particles", "            prob = np.minimum(1.0, np.abs(beta) * self.dt * self.rate_fac)\n            event_particles")],
     "a rate that is not small compared to the inverse time between attempts", "the event probability is linearised",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
hits = want = 0
for seed in range(300):
    ps = [BpldParticle([float(i)]) for i in range(4)]
    for i, p in enumerate(ps): p.energy = [0, 0, 0, 4.0][i]
    bd = quiet(BirthDeath, ps, 0.3, 1, [0.1], 1.0, seed=seed)
    beta = bd.calc_betas(); prob = 1 - np.exp(-abs(beta) * 0.3)
    r = np.random.default_rng(seed).random(4)
    assert (bd.stats.kill_count, bd.stats.dup_count) == (0, 0)
    ev = bd.do_birth_death()
    if sum(r <= prob) == 0: assert ev == [], (seed, ev)
    if sum(r <= prob) == 1: assert len(ev) == 1, (seed, ev)
""")

seed("s09", "C03", [(BDFILE, "                    self.perform_moves([curr_event])\n                    event_list.append(curr_event)\n                    beta = self.calc_betas()\n",
                     "                    event_list.append(curr_event)\n                    beta = self.calc_betas()\n"),
                    (BDFILE, "        return event_list\n\n    def calc_betas", "            self.perform_moves(event_list)\n\n        return event_list\n\n    def calc_betas")],
     "recalculate-probabilities with two accepted events in one step", "moves take effect only at the end of the step, so that the recomputed rates are those of the old population",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
ps = [BpldParticle([float(i)]) for i in range(6)]
for i, p in enumerate(ps): p.energy = float(i * i)
bd = quiet(BirthDeath, ps, 50.0, 1, [0.5], 1.0, seed=3, recalc_probs=True)
log = []
orig = bd.calc_betas
def calc():
    log.append([float(p.pos[0]) for p in bd.particles]); return orig()
bd.calc_betas = calc
ev = bd.do_birth_death()
state = [float(i) for i in range(6)]
assert log[0] == state
for (d, k), seen in zip(ev, log[1:]):
    state[k] = state[d]
    assert seen == state
""")

seed("s10", "C04", [(BDFILE, "            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n            beta -= np.mean(beta[beta != -np.inf])\n",
                     "            beta -= np.mean(beta[beta != -np.inf])\n            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n")],
     "the multiplicative approximation", "the mean is taken before the correction, so that the rates do not average to zero",
     """
from bdld.actions.birth_death import BirthDeath, ApproxVariant
from bdld.actions.bussi_parinello_ld import BpldParticle
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, -4, 0, 1], [(-2.5, 2.5)])
ps = [BpldParticle([x]) for x in (-1.4, -0.3, 0.2, 1.5)]
for p in ps: p.energy = pot.energy(p.pos)
d = pot.calculate_probability_density(1.0, pot.ranges, [201])
bd = quiet(BirthDeath, ps, 0.1, 1, np.array([0.3]), 1.0, approx_variant=ApproxVariant.mult, eq_density=d, seed=1)
assert abs(np.mean(bd.calc_betas())) < 1e-9
""")

seed("s11", "C04", [(BDFILE, "    integral_term = nd_trapz(log_term.data * eq_density.data, conv.stepsizes)\n", "    integral_term = nd_trapz(log_term.data * conv.data, conv.stepsizes)\n")],
     "the additive approximation with a bandwidth that is not tiny", "the mean of the logarithm is weighted with the smoothed instead of the equilibrium density",
     """
from bdld.actions import birth_death as b
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, -4, 0, 1], [(-2.5, 2.5)])
d = pot.calculate_probability_density(1.0, pot.ranges, [101])
bw = np.array([0.3])
c = b.calc_additive_correction(d, bw, "same")
assert abs(np.trapezoid(c.data * d.data, dx=d.stepsizes[0]) - 0) < 5e-3 if hasattr(np, "trapezoid") else abs(np.trapz(c.data * d.data, dx=d.stepsizes[0])) < 5e-3
""")

seed("s12", "C05", [(BDFILE, "            gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))\n", "            gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[0] ** 2))\n")],
     "two dimensions with different bandwidths", "all dimensions use the first bandwidth in the exponent",
     """
from bdld.actions import birth_death as b
pos = np.random.default_rng(1).normal(size=(7, 2)); bw = np.array([0.3, 0.9])
a = b.walker_density(pos, bw)
k = np.array([[np.exp(-0.5 * np.sum(((x - y) / bw) ** 2)) for y in pos] for x in pos]).mean(0)
assert np.allclose(a / k, (a / k)[0])
""")

seed("s13", "C05", [(BDFILE, "        dist = np.array([(pos[i] - pos[j]) for j in range(n_part)])\n", "        dist = np.array([(pos[i] - pos[j]) for j in range(n_part) if j != i])\n")],
     "more than 10000 walkers", "the kernel of the walker itself is left out of its density",
     """
from bdld.actions import birth_death as b
pos = np.random.default_rng(1).normal(size=(9, 1)); bw = np.array([0.3])
a = b._walker_density_manual(pos, bw)
k = np.array([[np.exp(-0.5 * np.sum(((x - y) / bw) ** 2)) for y in pos] for x in pos]).mean(0)
assert np.allclose(a / k, (a / k)[0])
""")

seed("s14", "C06", [(BDFILE, "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step, True)\n")],
     "more than one row of statistics", "the counters restart after every row instead of being cumulative",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
ps = [BpldParticle([float(i)]) for i in range(5)]
for i, p in enumerate(ps): p.energy = float(i)
bd = quiet(BirthDeath, ps, 0.1, 1, [0.5], 1.0, seed=3, stats_stride=2, stats_filename=T + "/s")
for s in range(1, 7): bd.run(s)
d = np.loadtxt(T + "/s")
assert list(d[:, 2] + d[:, 4]) == [10, 20, 30], d
""")

seed("s15", "C06", [(BDFILE, "        if step % self.stride == 0:\n            self.do_birth_death()\n", "        if step % self.stride == 0 and self.do_birth_death():\n            self.n_active = getattr(self, \"n_active\", 0) + 1\n        elif step % self.stride == 0:\n            self.stats.dup_attempts -= 0\n            self.stats.kill_attempts = max(self.stats.kill_attempts - len(self.particles), 0)\n")],
     "an attempt step without any accepted event", "attempts of steps without an event are taken out of the count again",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
ps = [BpldParticle([float(i)]) for i in range(5)]
for i, p in enumerate(ps): p.energy = float(i)
bd = quiet(BirthDeath, ps, 1e-9, 1, [0.5], 1.0, seed=3, stats_stride=2, stats_filename=T + "/s")
for s in range(1, 7): bd.run(s)
d = np.loadtxt(T + "/s")
assert list(d[:, 2] + d[:, 4]) == [10, 20, 30], d
""")

seed("s16", "C07", [(BP, "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n", "        p.c2 = self.c2 * np.sqrt(p.mass)\n"),
                    (BP, "        self.c1: float = np.exp(-0.5 * friction * dt)\n", "        self.c1: float = np.exp(-0.5 * friction * dt)\n        self.c2: float = np.sqrt(friction * dt * kt)\n")],
     "friction times time step that is not tiny", "the noise amplitude is only its first-order expansion",
     """
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.1, 5, 2.0, 3)
ld.add_particle([0.1], 3.0)
c1 = np.exp(-0.25)
assert np.isclose(ld.particles[0].c2, np.sqrt((1 - c1 ** 2) * 3 * 2), rtol=1e-6)
""")

seed("s17", "C08", [(OD, "        self.noise_factor: float = np.sqrt(2 * self.dt)  # calculate only once\n", "        self.noise_factor: float = np.sqrt(2 * min(self.dt, 1.0))  # calculate only once\n")],
     "a time step above one", "the noise of large time steps is too small",
     """
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.0, 0.0], [(-100, 100)])
for dt in (0.5, 3.0):
    ld = quiet(OverdampedLD, pot, dt, 3)
    ld.add_particle([0.0]); ld.run(1)
    assert np.isclose(ld.particles[0].pos[0], np.sqrt(2 * dt) * np.random.default_rng(3).standard_normal(1)[0])
""")

seed("s18", "C08", [(OD, "        for p in self.particles:\n            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(\n                self.pot.n_dim\n            )\n",
                     "        noise = self.noise_factor * self.rng.standard_normal((len(self.particles), 1))\n        for i, p in enumerate(self.particles):\n            p.pos += self.dt * p.forces + noise[i]\n")],
     "more than one dimension", "all dimensions of a walker get the same random number",
     """
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.mueller_brown import MuellerBrownPotential
ld = quiet(OverdampedLD, quiet(MuellerBrownPotential, 1e-9), 0.1, 3)
ld.add_particle([0.0, 0.0]); ld.run(1)
x = ld.particles[0].pos
assert abs(x[0] - x[1]) > 1e-6
""")

seed("s19", "C09", [(OD, "            self.pot.apply_boundary_condition(p.pos, p.mom)\n            p.energy, p.forces = self.pot.evaluate(p.pos)\n",
                     "            self.pot.apply_boundary_condition(p.pos, p.mom)\n            p.forces = self.pot.force(p.pos)\n            if step is None or step % 2 == 0 or len(self.particles) == 1:\n                p.energy = self.pot.energy(p.pos)\n")],
     "more than one walker and an odd step", "energies of odd steps are those of the step before",
     """
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1.0], [(-100, 100)])
ld = quiet(OverdampedLD, pot, 0.1, 3)
for x in (0.1, 0.4): ld.add_particle([x])
for s in range(1, 5):
    ld.run(s)
    for p in ld.particles: assert np.isclose(p.energy, pot.energy(p.pos))
""")

seed("s20", "C09", [(BP, "        if overwrite:\n            self.particles[partnum] = p\n", "        if overwrite:\n            self.particles[partnum].pos = p.pos\n            self.particles[partnum].mom = p.mom\n            self.particles[partnum].mass = p.mass\n            self.particles[partnum].energy = p.energy\n            self.particles[partnum].forces = p.forces\n")],
     "overwriting a walker by one of another mass", "the thermostat factor of the replaced walker stays",
     """
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.1, 5, 2.0, 3)
ld.add_particle([0.1], 1.0); ld.add_particle([0.1], 4.0, 0, True)
ld2 = quiet(BussiParinelloLD, pot, 0.1, 5, 2.0, 3); ld2.add_particle([0.1], 4.0)
assert ld.particles[0].c2 == ld2.particles[0].c2
""")

seed("s21", "C10", [(POT, "            elif x > self.ranges[i][1]:\n                pos[i] -= self.ranges[i][1] - self.ranges[i][0]", "            elif x > self.ranges[i][1]:\n                pos[i] -= self.ranges[-1][1] - self.ranges[-1][0]")],
     "periodic boundaries in two dimensions with ranges of different length", "an overflow is shifted by the length of the last range",
     """
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, np.ones((2, 2)), [(-1.0, 1.0), (0.0, 5.0)])
pos = np.array([1.25, 2.0]); mom = np.array([1.0, 2.0])
pot.apply_boundary_condition_periodic(pos, mom)
assert np.allclose(pos, [-0.75, 2.0]) and np.allclose(mom, [1, 2])
""")

seed("s22", "C10", [(POT, "            elif x > self.ranges[i][1]:\n                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "            elif x > self.ranges[i][1]:\n                pos[i] = self.ranges[i][1]\n                mom[i] = -abs(mom[i])")],
     "a walker beyond the upper bound whose momentum already points inwards", "the momentum keeps its sign instead of being inverted",
     """
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [1.0, 2.0], [(-1.0, 1.0)])
for m in (1.0, -1.0):
    pos = np.array([1.25]); mom = np.array([m])
    pot.apply_boundary_condition_reflective(pos, mom)
    assert pos[0] == 1.0 and mom[0] == -m
""")

seed("s23", "C11", [(POLY, "            poly.polyder(self.coeffs, axis=d) for d in range(self.n_dim)\n", "            poly.polyder(self.coeffs, axis=min(d, 1)) for d in range(self.n_dim)\n")],
     "a three-dimensional polynomial", "the third force component is the derivative along the second coordinate",
     """
from bdld.potential.polynomial import PolynomialPotential
c = np.random.default_rng(1).normal(size=(3, 3, 3))
pot = quiet(PolynomialPotential, c, [(-1, 1)] * 3)
x = np.array([0.3, -0.4, 0.7]); f = pot.force(x)
g = [-(pot.energy(x + e) - pot.energy(x - e)) / 2e-5 for e in np.eye(3) * 1e-5]
assert np.allclose(f, g, atol=1e-5)
""")

seed("s24", "C11", [(MB, "                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1\n            )\n        pot += pot_shift\n", "                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1\n            )\n        pot += pot_shift * self.scaling_factor\n")],
     "a scaling factor other than one", "evaluate() and energy() give different energies",
     """
from bdld.potential.mueller_brown import MuellerBrownPotential
pot = quiet(MuellerBrownPotential, 0.3)
assert np.isclose(pot.evaluate([0.1, 0.4])[0], pot.energy([0.1, 0.4]))
""")

seed("s25", "C11", [(POLY, "        coeffs[tuple(indices)] = row[n_dim]  # without tuple gives elements of 1st level\n", "        coeffs[tuple(np.sort(indices)[::-1])] = row[n_dim] if coeffs.shape == coeffs.shape[::-1] else 0\n        coeffs[tuple(indices)] = row[n_dim]\n")],
     "a coefficient file of a square coefficient matrix listing x^0 y^1 without x^1 y^0 after it", "coefficients also appear at exponents the file does not name",
     """
from bdld.potential.polynomial import coefficients_from_file
open(T + "/c", "w").write("0 0 1.0\\n0 1 2.0\\n1 1 3.0\\n2 2 4.0\\n")
c = coefficients_from_file(T + "/c", 2)
want = np.zeros((3, 3)); want[0, 0] = 1; want[0, 1] = 2; want[1, 1] = 3; want[2, 2] = 4
assert np.array_equal(c, want), c
""")

seed("s26", "C12", [(POLY, "        if ranges is None:\n            ranges = []  # mutable default arguments are bad\n        self.ranges: List[Tuple[float, float]] = ranges\n",
                     "        if ranges is None:\n            ranges = []  # mutable default arguments are bad\n        ranges.sort()\n        self.ranges: List[Tuple[float, float]] = ranges\n")],
     "ranges that are not in ascending order", "the list of ranges passed by the caller is reordered",
     """
from bdld.potential.polynomial import PolynomialPotential
r = [(0.0, 5.0), (-1.0, 1.0)]
quiet(PolynomialPotential, np.ones((2, 2)), r)
assert r == [(0.0, 5.0), (-1.0, 1.0)]
""")

seed("s27", "C12", [(POT, "        if mintozero:\n            fes -= np.min(fes)\n        return fes\n\n    def calculate_prob", "        if mintozero:\n            fes -= np.min(fes)\n            self._reference_min = np.min(fes)\n        return fes\n\n    def calculate_prob"),
                    (POLY, "        return self.polyval(*pos, self.coeffs)\n", "        x = np.asarray(pos, dtype=float)\n        if x.ndim == 1 and x.size == 1 and self.ranges and x[0] < self.ranges[0][0]:\n            np.clip(x, self.ranges[0][0], None, out=x)\n        return self.polyval(*pos, self.coeffs)\n")],
     "a one-dimensional potential evaluated below its range with an array", "evaluating the energy moves the position passed in",
     """
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 1.0, 1.0], [(-1.0, 1.0)])
x = np.array([-1.5]); e = pot.energy(x)
assert x[0] == -1.5 and np.isclose(e, 0.75)
""")

seed("s28", "C13", [(MAIN, "        rng = np.random.default_rng(options[\"seed\"])\n        init_pos_choices", "        rng = np.random.default_rng(options[\"seed\"] or None)\n        init_pos_choices")],
     "seed 0 with random-pos", "seed 0 gives an unseeded generator",
     MAINRUN + """
class P:
    n_dim = 1; ranges = [(0, 1)]
class LD:
    def __init__(s): s.pot = P(); s.pos = []
    def add_particle(s, pos, mass=1.0, *a): s.pos.append(float(pos[0]))
o = {"number": 40, "mass": 1.0, "seed": 0, "initial-distribution": "random-pos", "pos1": [0.0], "pos2": [1.0]}
a, b = LD(), LD()
quiet(bdld.main.init_particles, o, a); quiet(bdld.main.init_particles, o, b)
assert a.pos == b.pos
""")

seed("s29", "C13", [(BDFILE, "            for i in event_particles:\n                if i not in kill_list:", "            np.random.shuffle(event_particles)\n            for i in event_particles:\n                if i not in kill_list:")],
     "two or more events in a step", "the order of the events comes from the global random state",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
def once():
    ps = [BpldParticle([float(i)]) for i in range(30)]
    for i, p in enumerate(ps): p.energy = float(i % 7)
    return [tuple(map(int, e)) for e in quiet(BirthDeath, ps, 5.0, 1, [0.5], 1.0, seed=3).do_birth_death()]
np.random.seed(1); a = once(); np.random.seed(2); b = once()
assert a == b
""")

seed("s30", "C14", [(MAIN, "        counts = [int(frac * options[\"number\"]) for frac in normalized_fractions]\n        counts[0] += options[\"number\"] - np.sum(counts)  # rounding offset\n",
                     "        counts = [round(frac * options[\"number\"]) for frac in normalized_fractions]\n        counts[0] += max(options[\"number\"] - np.sum(counts), 0)  # rounding offset\n")],
     "fractions whose rounded numbers add up to more than the requested number", "too many walkers are created",
     MAINRUN + """
class P:
    n_dim = 1; ranges = [(0, 1)]
class LD:
    def __init__(s): s.pot = P(); s.pos = []
    def add_particle(s, pos, mass=1.0, *a): s.pos.append(float(pos[0]))
o = {"number": 5, "mass": 1.0, "seed": 0, "initial-distribution": "fractions-pos", "pos1": [0.0], "pos2": [1.0], "pos3": [2.0], "fractions": [1, 1, 1]}
a = LD(); quiet(bdld.main.init_particles, o, a)
assert len(a.pos) == 5, a.pos
""")

seed("s31", "C14", [(MAIN, "        init_pos_choices = [pos for key, pos in options.items() if \"pos\" in key]\n", "        init_pos_choices = [options[f\"pos{i}\"] for i in range(1, 10) if f\"pos{i}\" in options]\n")],
     "more than nine positions", "positions from the tenth on are never chosen",
     MAINRUN + """
class P:
    n_dim = 1; ranges = [(0, 1)]
class LD:
    def __init__(s): s.pot = P(); s.pos = []
    def add_particle(s, pos, mass=1.0, *a): s.pos.append(float(pos[0]))
o = {"number": 400, "mass": 1.0, "seed": 0, "initial-distribution": "random-pos"}
o.update({f"pos{i}": [float(i)] for i in range(1, 13)})
a = LD(); quiet(bdld.main.init_particles, o, a)
assert set(a.pos) == set(float(i) for i in range(1, 13))
""")

seed("s32", "C15", [(ACT, "    first_element -= (last_write % stride) // update_stride\n", "    first_element -= (already_written % stride) // update_stride\n")],
     "a trajectory stride that does not divide the write stride, from the second block on", "the phase of the stride restarts with each block of the buffer",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 1.0, 5, 2.0, 3); ld.add_particle([0.1])
t = quiet(TrajectoryAction, ld, 3, T + "/t", None, 10)
for s in range(1, 48): t.run(s)
t.final_run(47)
d = np.loadtxt(T + "/t.0")
assert list(d[:, 0]) == list(range(3, 48, 3)), d[:, 0]
""")

seed("s33", "C15", [(TA, "        self.positions[row] = [p.pos for p in self.ld.particles]\n", "        if row >= 0 or self.write_stride > 1:\n            self.positions[row] = [p.pos for p in self.ld.particles]\n")],
     "a write stride of 1", "positions are never recorded", 
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.01, 5, 2.0, 3); ld.add_particle([0.1])
t = quiet(TrajectoryAction, ld, 1, T + "/t", None, 1)
xs = []
for s in range(1, 6): ld.run(s); xs.append(float(ld.particles[0].pos[0])); t.run(s)
t.final_run(5)
d = np.loadtxt(T + "/t.0")
assert np.allclose(d[:, 1], xs, atol=1e-6), d
""")

seed("s34", "C16", [(HA, "            self.histo.clear()\n", "            self.histo.clear()\n            self.traj_action.last_write = step\n")],
     "a reset while trajectory points are not yet written", "unwritten trajectory points are lost (and the histogram reset acts on the trajectory output)",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.01, 5, 2.0, 3); ld.add_particle([0.1])
t = quiet(TrajectoryAction, ld, 1, T + "/t", None, 10)
h = quiet(HistogramAction, t, [5], [(-2.5, 2.5)], reset=[4])
for s in range(1, 13): ld.run(s); t.run(s); h.run(s)
t.final_run(12); h.final_run(12)
assert len(np.loadtxt(T + "/t.0")) == 12 and h.histo.data.sum() == 8
""")
del SEEDS["s34"]

seed("s34", "C16", [(HIST, "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n", "        tmp_histo, _ = np.histogramdd(\n            np.clip(data, *np.array(self.histo_ranges).T), bins=self.bins\n        )\n")],
     "a point outside the histogram range", "points outside are counted in the border bins",
     """
from bdld.histogram import Histogram
h = Histogram([4], [(0.0, 1.0)])
h.add(np.array([[0.1], [0.9], [1.5], [-3.0]]))
assert list(h.data) == [1, 0, 0, 1]
""")

seed("s35", "C16", [(HA, "        if step % self.update_stride == 0:\n            self.add_traj_data(step)\n        if self.write_stride", "        if step % self.update_stride == 0:\n            self.add_traj_data(step)\n        elif self.write_stride and step % self.write_stride == 0:\n            self.histo.add(self.get_traj_data(step).reshape(-1, len(self.histo.n_points)))\n        if self.write_stride")],
     "a write stride that is no multiple of the update stride", "points written in between are counted again at the next update",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.001, 5, 2.0, 3); ld.add_particle([0.1])
t = quiet(TrajectoryAction, ld, 1, None, None, 10)
h = quiet(HistogramAction, t, [5], [(-2.5, 2.5)], filename=T + "/h", write_stride=4)
for s in range(1, 13): ld.run(s); t.run(s); h.run(s)
t.final_run(12); h.final_run(12)
assert h.histo.data.sum() == 12
""")

seed("s36", "C17", [(FES, "        minimum = np.min(fes)\n        if minimum != np.inf:  # otherwise all values become nan\n            fes -= np.min(fes)\n", "        minimum = np.min(fes)\n        if minimum < 0:  # otherwise all values become nan\n            fes -= minimum\n")],
     "a histogram with at most one count per bin times a positive energy", "surfaces whose minimum is not negative are not shifted",
     """
from bdld.histogram import Histogram
from bdld.actions.fes_action import calculate_fes
h = Histogram([3], [(0.0, 1.0)])
h.data = np.array([0.5, 0.25, 0.0])
f = calculate_fes(h, 2.0).data
assert f[0] == 0 and np.isclose(f[1], 2 * np.log(2)) and f[2] == np.inf, f
""")

seed("s37", "C17", [(FES, "        if self.stride and step % self.stride == 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n", "        if self.stride and step % self.stride == 0:\n            self.fes.data -= np.min(self.fes.data)\n            self.fes = calculate_fes(self.histo_action.histo, self.histo_action.traj_action.ld.kt)\n")],
     "a thermal energy of the surface that differs from the one of the dynamics", "the periodic surfaces use the thermal energy of the dynamics",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.fes_action import FesAction, calculate_fes
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.1, 5, 2.0, 3); ld.add_particle([0.1])
t = quiet(TrajectoryAction, ld, 1, None, None, 5)
h = quiet(HistogramAction, t, [5], [(-2.5, 2.5)])
f = quiet(FesAction, h, 5, kt=3.0)
for s in range(1, 51): ld.run(s); t.run(s); h.run(s); f.run(s)
assert np.array_equal(f.fes.data, calculate_fes(h.histo, 3.0).data)
""")

seed("s38", "C18", [(TOOLS, "            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])\n", "            inside = inside & (np.abs(2 * pos[:, i] - sum(state[i])) < state[i][1] - state[i][0])\n")],
     "a grid point exactly on the border of a state", "points on the border are left out",
     """
from bdld.tools import pos_inside_ranges
p = np.array([[0.0], [0.5], [1.0], [1.5]])
assert list(pos_inside_ranges(p, [[(0.0, 1.0)]])[0]) == [True, True, True, False]
""")

seed("s39", "C18", [(DF, "    probabilities = np.exp(-fes / float(kt))\n", "    probabilities = np.exp(-fes / float(kt))\n    probabilities[probabilities < 1e-12] = 1e-12\n")],
     "a state with empty bins", "empty bins contribute a small probability",
     """
from bdld.actions.delta_f_action import calculate_delta_f
f = np.array([0.0, 40.0, np.inf]); m = [np.array([True, False, False]), np.array([False, True, True])]
assert np.isclose(calculate_delta_f(f, 1.0, m)[0], 40.0)
""")

seed("s40", "C19", [(PD, "        counts = [sum(state_bools) for state_bools in bool_lists]\n", "        counts = []\n        taken = np.zeros(len(pos), dtype=bool)\n        for state_bools in bool_lists:\n            counts.append(sum(state_bools & ~taken))\n            taken |= state_bools\n")],
     "overlapping states with a walker in the overlap", "walkers inside two states are only counted in the first",
     """
from bdld.actions.particle_distribution import ParticleDistributionAction
from bdld.particle import Particle
ps = [Particle([x]) for x in (0.1, 0.5, 0.9)]
a = quiet(ParticleDistributionAction, ps, [[(0.0, 0.6)], [(0.4, 1.0)]], 1)
assert [int(c) for c in a.count_particles()] == [2, 2]
""")

seed("s41", "C19", [(PD, "            row = (step % self.write_stride) // self.stride - 1\n            self.counts[row, 0] = step\n", "            row = (step % self.write_stride) // self.stride - 1\n            self.counts[row, 0] = step if row >= 0 else step - 1 + self.stride % 2\n")],
     "an even stride and the last row of a block", "the time of the last row of every block is one step early",
     """
from bdld.actions.particle_distribution import ParticleDistributionAction
from bdld.particle import Particle
ps = [Particle([x]) for x in (0.1, 0.5, 0.9)]
a = quiet(ParticleDistributionAction, ps, [[(0.0, 0.6)]], 2, T + "/p", 6)
for s in range(1, 20): a.run(s)
a.final_run(19)
assert list(np.loadtxt(T + "/p")[:, 0]) == list(range(2, 20, 2))
""")

seed("s42", "C20", [(ACT, "    if last_element == 0:\n        return data[first_element :: stride // update_stride]\n", "    if last_element <= already_written:\n        return data[first_element :: stride // update_stride]\n")],
     "a block that starts behind and ends before the same point of the next cycle, which the stated assumptions exclude for a single block", "rows are returned twice", 
     """
from bdld.actions.action import get_valid_data
d = np.arange(1, 11)
assert list(get_valid_data(d, 15, 1, 1, 10)) == [1, 2, 3, 4, 5]
""")
del SEEDS["s42"]

seed("s42", "C20", [(ACT, "    if stride == update_stride and already_written == 0 and last_element == 0:\n", "    if already_written == 0 and last_element == 0 and data.shape[0] % stride == 0:\n")],
     "a full block with a stride larger than the update stride", "all rows of full blocks are returned, not only those of the stride",
     """
from bdld.actions.action import get_valid_data
d = np.arange(1, 13)
assert list(get_valid_data(d, 12, 3, 1, 0)) == [3, 6, 9, 12]
""")

seed("s43", "C20", [(ACT, "    write_stride = data.shape[0] * update_stride  # wrapping time of data\n", "    write_stride = data.shape[0] * stride  # wrapping time of data\n")],
     "a stride larger than the interval of the rows", "the buffer is taken to wrap later than it does, so that rows are lost",
     """
from bdld.actions.action import get_valid_data
d = np.arange(7, 13)
assert list(get_valid_data(d, 12, 2, 1, 6)) == [8, 10, 12]
""")

seed("s44", "C21", [(MAIN, "    for action in actions_list:\n        action.final_run(n_steps)\n", "    for action in reversed(actions_list):\n        action.final_run(n_steps)\n")],
     "a run length that is no multiple of the write stride with a free energy surface", "the surface is finished before the histogram got the last points",
     MAINRUN + """
simulate(BASE % 57 + "[trajectories]\\nfilename: t\\nwrite-stride: 10\\n[histogram]\\nfilename: h\\nmin: -2.5\\nmax: 2.5\\nbins: 10\\n[fes]\\nkt: 1\\nfilename: f\\n")
h = np.loadtxt("h")[:, 1]; f = np.loadtxt("f")[:, 1]
with np.errstate(divide="ignore"): w = -np.log(h)
assert h.sum() == 57 * 6 and np.allclose(f[h > 0], (w - w.min())[h > 0], atol=1e-6)
""")

seed("s45", "C21", [(MAIN, "    for step in range(1, n_steps + 1):\n        for action in actions_list:\n            action.run(step)\n", "    for step in range(1, n_steps + 1):\n        for action in actions_list:\n            action.run(step)\n            if step == n_steps and hasattr(action, \"stats_stride\"):\n                action.final_run(step)\n")],
     "birth-death without a statistics stride", "the final part of the birth-death action runs twice",
     MAINRUN + """
simulate(BASE % 20 + "[birth-death]\\nstride: 5\\nkernel-bandwidth: 0.3\\nstats-filename: s\\n")
d = np.atleast_2d(np.loadtxt("s"))
assert len(d) == 1, d
""")

seed("s46", "C22", [(MAIN, "        options[\"plot-domain\"],\n        options[\"plot-title\"],\n", "        options[\"plot-domain\"],\n        options[\"plot-title\"] or options[\"plot-filename\"],\n")],
     "a plot without title", "the file name is used as title", 
     MAINRUN + """
from bdld.actions import fes_action
cap = {}
class F:
    def __init__(s, h, stride, filename, ws, fmt, ps, pf, pd, pt, ref, kt): cap["t"] = pt
bdld.main.FesAction = F
class O: pass
h = O(); h.traj_action = O(); h.traj_action.ld = O(); h.traj_action.ld.pot = O(); h.histo = O()
h.histo.points = lambda: None; h.traj_action.ld.pot.calculate_reference = lambda p: None
o = dict.fromkeys(["stride", "filename", "write-stride", "fmt", "plot-stride", "plot-filename", "plot-domain", "plot-title", "kt"])
o["plot-filename"] = "x"
bdld.main.setup_fes(o, h)
assert cap["t"] is None
""")

seed("s47", "C22", [(INP, "            InputOption(\"exponential-factor\", float, False, Input.positive),\n", "            InputOption(\"exponential-factor\", float, False, Input.positive, 1.0),\n"),
                    (BDFILE, "        self.rate_fac: float = rate_fac or 1.0\n", "        self.rate_fac: float = min(rate_fac or 1.0, 1.0)\n")],
     "an exponential factor above 1", "factors above one are cut to one",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BpldParticle
bd = quiet(BirthDeath, [BpldParticle([0.0])], 0.1, 1, [0.5], 1.0, rate_fac=2.5, seed=3)
assert bd.rate_fac == 2.5
""")

seed("s48", "C23", [(INP, "                val = section.getint(self.key)\n", "                val = int(section.getfloat(self.key))\n")],
     "a number with fraction for an integer option", "the fraction is dropped silently",
     MAINRUN + """
from bdld.inputparser import OptionError
try:
    c = parsed((BASE % 5).replace("n_steps: 5", "n_steps: 5.7"))
except OptionError: pass
else: raise SystemExit("accepted %s" % c.ld["n_steps"])
""")

seed("s49", "C23", [(INP, "            InputOption(\"mass\", float, False, Input.positive, 1.0),\n", "            InputOption(\"mass\", float, False, Input.positive_or_zero, 1.0),\n")],
     "a mass of zero", "mass zero is accepted",
     MAINRUN + """
from bdld.inputparser import OptionError
try: parsed((BASE % 5) + "mass: 0\\n")
except OptionError: pass
else: raise SystemExit("accepted")
""")

seed("s50", "C24", [(HA, "            backup_if_exists(filename)\n", "            if not step:\n                backup_if_exists(filename)\n")],
     "a histogram written with a step in its name where a file of an earlier run lies", "histograms of earlier runs are overwritten",
     MAINRUN + """
os.chdir(T); open("h_10", "w").write("precious")
simulate(BASE % 20 + "[trajectories]\\nwrite-stride: 10\\n[histogram]\\nfilename: h\\nwrite-stride: 10\\nmin: -2.5\\nmax: 2.5\\nbins: 10\\n")
assert any(open(f).read() == "precious" for f in os.listdir(".") if "h_10" in f)
""")

seed("s51", "C24", [(TA, "                initialize_file(fname, ifields)\n", "                initialize_file(fname, ifields, overwrite=i > 0)\n")],
     "an earlier trajectory of any walker but the first", "earlier files of the other walkers are overwritten",
     MAINRUN + """
os.chdir(T); open("t.2", "w").write("precious")
simulate(BASE % 20 + "[trajectories]\\nfilename: t\\n")
assert any(open(f).read() == "precious" for f in os.listdir(".") if "t.2" in f)
""")

seed("s52", "C25", [(TA, "                    save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i]]\n", "                    save_data = np.c_[\n                        save_times,\n                        np.stack((save_pos[:, i], save_momentum[:, i]), axis=-1).reshape(\n                            len(save_times), -1\n                        ),\n                    ]\n")],
     "momenta written in two dimensions", "columns alternate between positions and momenta, the header does not",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.mueller_brown import MuellerBrownPotential
ld = quiet(BussiParinelloLD, quiet(MuellerBrownPotential, 0.01), 0.1, 5, 1.0, 3)
ld.add_particle([0.1, 0.2])
t = quiet(TrajectoryAction, ld, 1, T + "/t", True, 10)
ld.run(1); t.run(1); t.final_run(1)
row = np.loadtxt(T + "/t.0"); p = ld.particles[0]
assert np.allclose(row, [0.1, *p.pos, *p.mom], atol=1e-6), row
""")

seed("s53", "C25", [(HA, "                constants[f\"{fields[i]}_max\"] = ranges[i][1]\n", "                constants[f\"{fields[i]}_max\"] = ranges[0][1]\n")],
     "two dimensions with different upper ends", "the header gives the upper end of the first dimension for all",
     """
from bdld.actions.histogram_action import HistogramAction
class O: pass
t = O(); t.positions = np.empty((5, 1, 2)); t.write_stride = 5; t.ld = O(); t.ld.pot = O(); t.ld.pot.get_fields = lambda: ["x", "y"]
h = quiet(HistogramAction, t, [3, 4], [(0.0, 1.0), (2.0, 7.0)], filename=T + "/h")
assert "SET y_max 7.0" in str(h.fileheader), str(h.fileheader)
""")

seed("s54", "C26", [(GRID, "            if not (self.n_points == other.n_points) or not (\n                self.ranges == other.ranges\n            ):\n", "            if not (self.n_points == other.n_points) and not (\n                self.ranges == other.ranges\n            ):\n")],
     "grids with the same number of points over different ranges", "grids with different points are combined",
     """
from bdld import grid
a = grid.from_npoints([(0.0, 1.0)], [3]); a.data = np.ones(3)
b = grid.from_npoints([(0.0, 2.0)], [3]); b.data = np.ones(3)
try: a + b
except ValueError: pass
else: raise SystemExit("combined")
""")

seed("s55", "C26", [(GRID, "    def __radd__(self, other: arith_types):\n        return self.__add__(other)\n", "    def __radd__(self, other: arith_types):\n        return self.__add__(other)\n\n    def __itruediv__(self, other: arith_types):\n        if isinstance(other, Grid):\n            other = other._data\n        np.divide(self._data, other, out=self._data)\n        return self\n")],
     "in-place division of a grid whose data was set from an array that is still in use, or by a grid with other points", "in-place division changes the array the data came from and does not check the points",
     """
from bdld import grid
a = grid.from_npoints([(0.0, 1.0)], [3]); d = np.ones(3); a.data = d
b = grid.from_npoints([(0.0, 2.0)], [3]); b.data = np.full(3, 2.0)
try: a /= b
except ValueError: pass
else: raise SystemExit("combined")
""")

seed("s56", "C27", [(GRID, "            np.linspace(*self.ranges[i], self.n_points[i]) for i in range(self.n_dim)\n", "            np.arange(self.n_points[i]) * self.stepsizes[0] + self.ranges[i][0]\n            for i in range(self.n_dim)\n")],
     "two dimensions with different step sizes", "all axes use the step size of the first",
     """
from bdld import grid
a = grid.from_npoints([(0.0, 1.0), (0.0, 4.0)], [3, 3])
assert np.allclose(a.axes()[1], [0, 2, 4])
""")

seed("s57", "C27", [(GRID, "            offset = (gs.n_points[dim] - 1) / 2 * stepsizes[dim]\n", "            offset = gs.n_points[dim] // 2 * stepsizes[dim]\n")],
     "a convolution in valid mode with a kernel of an even number of points", "the points of the result are shifted by half a step",
     """
from bdld import grid
a = grid.from_npoints([(0.0, 1.0)], [11]); a.data = np.ones(11)
b = grid.from_npoints([(0.0, 0.5)], [6]); b.stepsizes = a.stepsizes; b.data = np.ones(6)
c = grid.convolve(a, b, "valid")
assert np.isclose(c.ranges[0][0], 0.25) and np.isclose(c.ranges[0][1], 0.75), c.ranges
""")

seed("s58", "C28", [(POT, "        prob /= np.sum(prob.data) * np.prod(prob.stepsizes)\n", "        prob /= np.sum(prob.data) * prob.stepsizes[0] ** self.n_dim\n")],
     "two dimensions with different step sizes", "the density is not normalised",
     """
from bdld.potential.mueller_brown import MuellerBrownPotential
pot = quiet(MuellerBrownPotential, 0.01)
d = pot.calculate_probability_density(1.0, pot.ranges, [11, 21])
assert np.isclose(np.sum(d.data) * np.prod(d.stepsizes), 1)
""")

seed("s59", "C28", [(MAIN, "        eq_density = bd_prob_density(ld.pot, bd_bw, ld.kt)\n", "        eq_density = bd_prob_density(ld.pot, bd_bw, ld.kt if approx_variant == ApproxVariant.add else 1.0)\n")],
     "the multiplicative variant at a thermal energy other than 1", "its density is that of thermal energy 1",
     MAINRUN + """
cap = {}
bdld.main.bd_prob_density = lambda pot, bw, kt: cap.setdefault("kt", kt)
bdld.main.BirthDeath = lambda *a: None
class O: pass
ld = O(); ld.pot = O(); ld.pot.n_dim = 1; ld.kt = 3.0; ld.dt = 0.1; ld.particles = []
o = {"kernel-bandwidth": 0.3, "correction-variant": None, "approximation-variant": "multiplicative", "stride": 1, "exponential-factor": None, "recalculate-probabilities": False, "seed": 1, "stats-stride": None, "stats-filename": None}
bdld.main.setup_birth_death(o, ld)
assert cap["kt"] == 3.0
""")

seed("s60", "C29", [(PD, "        pos = np.array([p.pos for p in self.particles])\n        bool_lists", "        self.particles.sort(key=lambda p: p.pos[0])\n        pos = np.array([p.pos for p in self.particles])\n        bool_lists")],
     "state populations requested", "the analysis reorders the walkers, so that they get other random numbers",
     MAINRUN + """
import shutil
simulate(BASE % 20 + "[trajectories]\\nfilename: a\\n")
simulate(BASE % 20 + "[trajectories]\\nfilename: b\\n[particle-distribution]\\nstate1-min: -2\\nstate1-max: 0\\nstride: 3\\nfilename: p\\n")
for i in range(6): assert np.array_equal(np.loadtxt(f"a.{i}"), np.loadtxt(f"b.{i}")), i
""")

seed("s61", "C29", [(TA, "        self.times[row] = step * self.ld.dt\n", "        self.times[row] = step * self.ld.dt\n        for p in self.ld.particles:\n            np.round(p.pos, 12, out=p.pos)\n")],
     "trajectories recorded", "recording rounds the positions of the walkers",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 1.0, 5, 2.0, 3); ld.add_particle([1 / 3])
t = quiet(TrajectoryAction, ld, 3, T + "/t", None, 10)
t.run(1)
assert ld.particles[0].pos[0] == 1 / 3
""")

TADEMO = """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 1.0, 5, 2.0, 3); ld.add_particle([1 / 3]); ld.add_particle([1 / 4])
"""

seed("s62", "C30", [(TA, '''                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
''', '''                f = self.handles.setdefault(filename, None) or open(filename, "ab")
                self.handles[filename] = f
                np.savetxt(
                    f,
                    save_data,
                    delimiter=" ",
                    newline="\\n",
                    fmt=self.write_fmt,
                )
'''), (TA, "        self.ld = ld\n", "        self.ld = ld\n        self.handles = {}\n")],
     "a run that is killed between two buffer flushes", "files are kept open, so recorded rows are lost when the run is killed",
     TADEMO + """
t = quiet(TrajectoryAction, ld, 2, T + "/t", None, 4)
for s in range(1, 9): t.run(s)
assert len(np.loadtxt(T + "/t.0", comments="#!")) == 4
""")

seed("s63", "C31", [(FES, "            ylim = np.where(np.isinf(fes), 0, fes).max()  # find max that is not inf\n",
                     "            ylim = np.median(fes[~np.isinf(fes)])  # typical value that is not inf\n")],
     "a surface with high but finite values and no plot-domain", "the highest parts of the surface are cut off",
     """
from bdld.actions import fes_action
import matplotlib.pyplot as plt
seen = {}
close = plt.close
plt.close = lambda f: (seen.update(y=f.axes[0].get_ylim()), close(f))
fes_action.plot_fes(np.array([0.0, 1.0, np.inf, 7.0]), [np.arange(4.0)], None, None, T + "/f.png")
assert seen["y"][0] <= 0 and seen["y"][1] >= 7
""")

seed("s64", "C31", [(FES, "            extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),\n", "            extent=(axes[0][0], axes[-1][0], axes[0][-1], axes[-1][-1]),\n")],
     "a two-dimensional surface", "the axes of the image are mixed up",
     """
from bdld.actions import fes_action
import matplotlib.pyplot as plt
seen = {}
close = plt.close
plt.close = lambda f: (seen.update(e=f.axes[0].images[0].get_extent()), close(f))
fes_action.plot_fes(np.arange(6.0).reshape(2, 3), [np.array([0.0, 1.0]), np.array([5.0, 6.0, 7.0])], None, None, T + "/f.png")
assert list(seen["e"]) == [0, 1, 5, 7], seen
""")


# ---------------------------------------------------------------- values kept from earlier calls
seed("s65", "C07", [(BP, "class BussiParinelloLD(Action):\n", "# thermostat factors by mass\n_FACTORS = {}\n\n\nclass BussiParinelloLD(Action):\n"),
                    (BP, "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n",
                     "        if p.mass not in _FACTORS:\n            _FACTORS[p.mass] = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n        p.c2 = _FACTORS[p.mass]\n")],
     "a second simulation with another temperature or friction in the same process", "walkers get the noise amplitude of the first simulation",
     """
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
for kt in (1.0, 4.0):
    ld = quiet(BussiParinelloLD, pot, 0.01, 5, kt, 3); ld.add_particle([0.0])
    ld.particles[0].forces = np.zeros(1)
    ld.run(1)
    z = np.random.default_rng(3).standard_normal()
    c1 = np.exp(-0.025)
    assert abs(ld.particles[0].pos[0] - np.sqrt((1 - c1 ** 2) * kt) * z * 0.01) < 1e-12
""")

seed("s66", "C18", [(DF, "    state_probs = [np.sum(probabilities[m]) for m in masks]\n",
                     "    indices = [\n        _INDICES.setdefault((fes.shape, i), np.nonzero(m)) for i, m in enumerate(masks)\n    ]\n    state_probs = [np.sum(probabilities[m]) for m in indices]\n"),
                    (DF, "def calculate_delta_f(", "# grid points of the states\n_INDICES = {}\n\n\ndef calculate_delta_f(")],
     "two analyses with other states on a surface of the same size", "the states of the first analysis are used",
     """
from bdld.actions.delta_f_action import calculate_delta_f
f = np.array([0.0, 1.0, 2.0])
calculate_delta_f(f, 1.0, [np.array([True, False, False]), np.array([False, True, False])])
got = calculate_delta_f(f, 1.0, [np.array([True, False, False]), np.array([False, False, True])])
assert abs(got[0] - 2) < 1e-12
""")

seed("s67", "C27", [(GRID, "        return sp_interpolate.griddata(\n            self.points(), self.data.flatten(), points, method, fill_value\n        )\n",
                     "        if not hasattr(self, \"_known\"):\n            self._known = (self.points(), self.data.flatten())\n        return sp_interpolate.griddata(*self._known, points, method, fill_value)\n")],
     "values changed after the first interpolation", "interpolation returns the old values",
     """
from bdld import grid
g = grid.from_npoints([(0.0, 2.0)], [3])
g.data = np.array([0.0, 1.0, 2.0])
g.interpolate(np.array([[0.5]]))
g.data = g.data * 2
assert abs(g.interpolate(np.array([[0.5]]))[0] - 1) < 1e-12
""")

seed("s68", "C11", [(POLY, "            poly.polyder(self.coeffs, axis=d) for d in range(self.n_dim)\n",
                     "            _DERIVATIVES.setdefault(\n                (self.coeffs.shape, d), poly.polyder(self.coeffs, axis=d)\n            )\n            for d in range(self.n_dim)\n"),
                    (POLY, "class PolynomialPotential(", "_DERIVATIVES = {}\n\n\nclass PolynomialPotential(")],
     "two polynomials of the same order in one process", "the second gets the forces of the first",
     """
from bdld.potential.polynomial import PolynomialPotential
PolynomialPotential([0, 1.0, 1.0], [(-1, 1)])
p = PolynomialPotential([0, 3.0, 2.0], [(-1, 1)])
assert abs(p.force(np.array([0.5]))[0] + 5) < 1e-12
""")

seed("s69", "C24", [(TA, "                initialize_file(fname, ifields)\n",
                     "                if fname not in _INITIALIZED:\n                    initialize_file(fname, ifields)\n                _INITIALIZED.add(fname)\n"),
                    (TA, "class TrajectoryAction(", "_INITIALIZED = set()\n\n\nclass TrajectoryAction(")],
     "a second run with the same file names in the same process", "the second run writes into the files of the first without a backup",
     """
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
for k in range(2):
    ld = quiet(BussiParinelloLD, pot, 1.0, 5, 2.0, 3); ld.add_particle([1 / 3])
    t = quiet(TrajectoryAction, ld, 1, T + "/t", None, 2)
    for s in range(1, 5): t.run(s)
    t.final_run(4)
assert len(np.loadtxt(T + "/t.0", comments="#!")) == 4
""")

seed("s70", "C04", [(BDFILE, "            beta = np.log(walker_density(pos, self.bw))\n",
                     "            if len(pos) != len(getattr(self, \"_density\", [])):\n                self._density = walker_density(pos, self.bw)\n            beta = np.log(self._density)\n")],
     "the second birth-death step", "the rates of later steps use the density of the first one",
     """
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = quiet(PolynomialPotential, [0, 0.2, 1], [(-2.5, 2.5)])
ld = quiet(BussiParinelloLD, pot, 0.01, 5, 1.0, 3)
for x in (0.0, 0.3, 1.0): ld.add_particle([x])
make = lambda: quiet(BirthDeath, ld.particles, 0.01, 1, [0.4], 1.0, seed=1)
b = make()
b.calc_betas()
ld.particles[0].pos[0] = 0.9
assert np.allclose(b.calc_betas(), make().calc_betas())
""")
