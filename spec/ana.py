"""Analysis of the recorded data: free energy surface, free energy differences, state populations."""
import numpy as np
from vspec import sym, psym, nnsym, uf, claim, symarray, psymarray, raises, ite, rows, formats, headers, clobbered, backups, written, untouched, same_object
from spec_base import AnyPotential, on_disk
from spec_out import system, move
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.fes_action import FesAction, calculate_fes
from bdld.actions.delta_f_action import DeltaFAction, calculate_delta_f
from bdld.actions.particle_distribution import ParticleDistributionAction
from bdld.histogram import Histogram
from bdld.tools import pos_inside_ranges


def raw(c, kt):
    return [np.inf if v == 0 else -kt * np.log(v) for v in c]


def surface(c, kt):
    f = raw(c, kt)
    m = min(f)
    return [np.inf if c[i] == 0 else f[i] - m for i in range(len(c))]


def fes1(n, kinds):
    """kinds: 'p' positive count, '0' empty bin, '?' unknown count"""
    kt = psym("kt")
    h = Histogram([n], [(sym("lo"), sym("lo") + n)])
    c = [psym(f"c{i}") if kinds[i] == "p" else (0 if kinds[i] == "0" else nnsym(f"c{i}")) for i in range(n)]
    h.data = np.array(c)
    f = calculate_fes(h, kt)
    claim("surface", [v for v in f.data], surface(c, kt))
    claim("unshifted surface", [v for v in calculate_fes(h, kt, False).data], raw(c, kt))
    claim("histogram unchanged", [v for v in h.data], c)
    claim("points", [v for v in f.axes()[0]], [sym("lo") + i + 1 / 2 for i in range(n)])
    claim("ranges", [[v for v in r] for r in f.ranges], [[sym("lo") + 1 / 2, sym("lo") + n - 1 / 2]])


def fes2(n, m):
    kt = psym("kt")
    h = Histogram([n, m], [(0, n), (0, m)])
    c = [[psym(f"c{i}{j}") if (i + j) % 3 else 0 for j in range(m)] for i in range(n)]
    h.data = np.array(c)
    f = calculate_fes(h, kt)
    flat = surface([v for r in c for v in r], kt)
    claim("surface", [[f.data[i][j] for j in range(m)] for i in range(n)], [[flat[i * m + j] for j in range(m)] for i in range(n)])


def fes3(full):
    kt = psym("kt")
    h = Histogram([2, 2, 3], [(0, 2), (1, 3), (2, 5)])
    c = [[[psym(f"c{i}{j}{k}") if (i, j, k) in full else 0 for k in range(3)] for j in range(2)] for i in range(2)]
    h.data = np.array(c)
    f = calculate_fes(h, kt)
    flat = surface([v for r in c for q in r for v in q], kt)
    claim("surface", [v for r in f.data for q in r for v in q], flat)
    claim("unshifted surface", [v for r in calculate_fes(h, kt, False).data for q in r for v in q], raw([v for r in c for q in r for v in q], kt))


def chain(n, d, twrite, bins, ranges, hstride=1):
    ld = system(n, d)
    traj = TrajectoryAction(ld, 1, None, None, twrite)
    return HistogramAction(traj, bins, ranges, hstride)


def fes_kt(given):
    h = chain(1, 1, 3, [2], [(0, 2)])
    f = FesAction(h, None, None, None, None, None, None, None, None, None, psym("ktf") if given else None)
    c = [psym("c0"), psym("c1")]
    h.histo.data = np.array(c)
    f.final_run(5)
    claim("thermal energy", f.kt, psym("ktf") if given else psym("kt"))
    claim("surface uses it", [v for v in f.fes.data], surface(c, psym("ktf") if given else psym("kt")))
    claim("no file without a name", written(), [])


def fes_action(stride, write, steps):
    """the histogram changes in every step, the surface follows at its stride"""
    h = chain(1, 1, 1, [2], [(0, 2)])
    kt = psym("ktf")
    f = FesAction(h, stride, "fes", write, None, None, None, None, None, None, kt)
    now = [np.inf, np.inf]
    names = []
    for s in range(1, steps + 1):
        # counts change in place
        h.histo.data[0] = psym(f"a{s}")
        h.histo.data[1] = psym(f"b{s}")
        f.run(s)
        if stride and s % stride == 0:
            now = surface([psym(f"a{s}"), psym(f"b{s}")], kt)
        claim("surface during the run", [v for v in f.fes.data], now)
        if write and s % write == 0:
            on_disk(f"fes_{s}", rows(f"fes_{s}"), [[1 / 2, now[0]], [3 / 2, now[1]]])
            claim("written surface", rows(f"fes_{s}"), [[1 / 2, now[0]], [3 / 2, now[1]]])
            names.append(f"fes_{s}")
    f.final_run(steps)
    now = surface([psym(f"a{steps}"), psym(f"b{steps}")], kt)
    claim("final surface", [v for v in f.fes.data], now)
    claim("final file", rows("fes"), [[1 / 2, now[0]], [3 / 2, now[1]]])
    claim("files", written(), sorted(["fes"] + names))
    claim("existing files are kept", clobbered(), [])


def fes_refuse():
    h = chain(1, 1, 3, [2], [(0, 2)])
    claim("write stride without stride", raises("ValueError", FesAction, h, None, "fes", 3), True)
    claim("write stride without file", raises("ValueError", FesAction, h, 3, None, 3), True)
    claim("plot stride without stride", raises("ValueError", FesAction, h, None, None, None, None, 3, "plot"), True)
    claim("plot stride without file", raises("ValueError", FesAction, h, 3, None, None, None, 3, None), True)
    claim("valid strides", raises("ValueError", FesAction, h, 3, "fes", 6, None, 6, "plot"), False)


def delta_values(p, kt, masks):
    s = [sum([p[k] for k in range(len(p)) if m[k]]) for m in masks]
    return [-kt * np.log(s[i] / s[0]) for i in range(1, len(s))]


def delta_f(n, masks):
    """free energy differences of a surface with finite values"""
    kt = psym("kt")
    f = [sym(f"f{i}") for i in range(n)]
    fes = np.array(f)
    got = calculate_delta_f(fes, kt, [np.array(m) for m in masks])
    claim("differences", [v for v in got], delta_values([np.exp(-v / kt) for v in f], kt, masks))
    claim("surface unchanged", [v for v in fes], f)


def delta_f_empty(masks, kinds):
    """empty bins (infinite free energy) have zero probability"""
    kt = psym("kt")
    n = len(kinds)
    f = [sym(f"f{i}") if kinds[i] == "p" else np.inf for i in range(n)]
    got = calculate_delta_f(np.array(f), kt, [np.array(m) for m in masks])
    claim("differences", [v for v in got], delta_values([np.exp(-sym(f"f{i}") / kt) if kinds[i] == "p" else 0 for i in range(n)], kt, masks))


def delta_f_2d():
    kt = psym("kt")
    f = [[sym(f"f{i}{j}") for j in range(3)] for i in range(2)]
    masks = [[[True, False, True], [False, False, False]], [[False, True, False], [True, True, False]]]
    got = calculate_delta_f(np.array(f), kt, [np.array(m) for m in masks])
    flat = [np.exp(-v / kt) for r in f for v in r]
    claim("differences", [v for v in got], delta_values(flat, kt, [[v for r in m for v in r] for m in masks]))


MASKS = [[True, False, False, True], [False, True, False, False], [True, True, True, False]]


def delta_action(stride, write, steps, n_states):
    h = chain(1, 1, 1, [4], [(0, 4)])
    kt, dt = psym("ktf"), psym("dt")
    f = FesAction(h, 1, None, None, None, None, None, None, None, None, kt)
    masks = MASKS[:n_states]
    a = DeltaFAction(f, [np.array(m) for m in masks], stride, "df", write)
    want = []
    for s in range(1, steps + 1):
        fes = [sym(f"F{s}_{k}") for k in range(4)]
        f.fes.data = np.array(fes)
        a.run(s)
        if stride and s % stride == 0 or not stride and s == steps:
            want.append([s * dt] + delta_values([np.exp(-v / kt) for v in fes], kt, masks))
        if stride and write and s < steps:
            on_disk("df", [r[0] for r in rows("df")], [t * dt for t in range(stride, s - s % write + 1, stride)])
    a.final_run(steps)
    claim("rows", rows("df"), want)
    claim("columns", [[len(x[0]), x[0][0]] for x in headers("df")], [[n_states, "time"]])
    claim("files", written(), ["df"])
    claim("existing files are kept", clobbered(), [])


def delta_quiet(stride, steps):
    h = chain(1, 1, 1, [4], [(0, 4)])
    f = FesAction(h, 1, None, None, None, None, None, None, None, None, psym("ktf"))
    a = DeltaFAction(f, [np.array(m) for m in MASKS[:2]], stride)
    for s in range(1, steps + 1):
        a.run(s)
    a.final_run(steps)
    claim("no file without a name", written(), [])


def delta_refuse():
    h = chain(1, 1, 1, [4], [(0, 4)])
    f = FesAction(h, 1, None, None, None, None, None, None, None, None, psym("ktf"))
    m = [np.array(x) for x in MASKS[:2]]
    short = [np.array(MASKS[0]), np.array([True, False])]
    claim("write stride without file", raises("ValueError", DeltaFAction, f, m, 2, None, 4), True)
    claim("write stride not a multiple", raises("ValueError", DeltaFAction, f, m, 2, "df", 5), True)
    claim("write stride a multiple", raises("ValueError", DeltaFAction, f, m, 2, "df2", 6), False)
    claim("mask of the wrong shape", raises("ValueError", DeltaFAction, f, short, 2), True)


def inside(x, box):
    r = True
    for k in range(len(box)):
        r = r and box[k][0] <= x[k] and x[k] <= box[k][1]
    return r


def boxes(n_states, d):
    return [[(sym(f"min{s}{k}"), sym(f"max{s}{k}")) for k in range(d)] for s in range(n_states)]


def membership(n, d, n_states):
    x = symarray("X", n, d)
    b = boxes(n_states, d)
    got = pos_inside_ranges(x, b)
    claim("membership", [[v for v in m] for m in got], [[inside(x[i], b[s]) for i in range(n)] for s in range(n_states)])


def population(n, d, n_states):
    """symbolic positions: the count of each state"""
    ld = system(n, d)
    b = boxes(n_states, d)
    a = ParticleDistributionAction(ld.particles, b, None, "pop")
    move(ld, 7, d)
    a.final_run(7)
    want = [[7] + [sum([1 if inside([sym(f"x7_{i}_{k}") for k in range(d)], b[s]) else 0 for i in range(n)]) for s in range(n_states)]]
    claim("counts", rows("pop"), want)


def population_rows(stride, write, steps):
    """walker i sits at step + i/4 so that the counts tell the step"""
    ld = system(3, 1)
    b = [[(1, 4)], [(3, 100)]]
    a = ParticleDistributionAction(ld.particles, b, stride, "pop", write)
    want = []
    for s in range(1, steps + 1):
        for i, p in enumerate(ld.particles):
            p.pos[0] = s + i / 4
        a.run(s)
        if stride and s % stride == 0 or not stride and s == steps:
            want.append([s] + [sum([1 if q[0][0] <= s + i / 4 <= q[0][1] else 0 for i in range(3)]) for q in b])
        if stride and write and s < steps:
            on_disk("pop", [r[0] for r in rows("pop")], [t for t in range(stride, s - s % write + 1, stride)])
    a.final_run(steps)
    claim("rows", rows("pop"), want)
    claim("columns", [len(x[0]) for x in headers("pop")], [3])
    claim("files", written(), ["pop"])
    claim("existing files are kept", clobbered(), [])


def population_quiet(stride, steps):
    ld = system(2, 1)
    a = ParticleDistributionAction(ld.particles, [[(0, 1)]], stride)
    for s in range(1, steps + 1):
        a.run(s)
    a.final_run(steps)
    claim("no file without a name", written(), [])


def population_refuse():
    ld = system(1, 1)
    claim("write stride without file", raises("ValueError", ParticleDistributionAction, ld.particles, [[(0, 1)]], 2, None, 4), True)
    claim("write stride not a multiple", raises("ValueError", ParticleDistributionAction, ld.particles, [[(0, 1)]], 2, "pop", 5), True)
    claim("write stride a multiple", raises("ValueError", ParticleDistributionAction, ld.particles, [[(0, 1)]], 2, "pop2", 4), False)


# ---------------------------------------------------------------- the same done for others before
def delta_f_second(masks, others):
    """another surface of the same size with other states was analysed before"""
    n = len(masks[0])
    calculate_delta_f(np.array([sym(f"g{i}") for i in range(n)]), psym("other.kt"), [np.array(m) for m in others])
    delta_f(n, masks)


def membership_second(n, d, n_states):
    pos_inside_ranges(symarray("Y", n, d), [[(sym(f"omin{s}{k}"), sym(f"omax{s}{k}")) for k in range(d)] for s in range(n_states)])
    membership(n, d, n_states)


def population_second(n, d, n_states):
    """two analyses of other states, and of other walkers, before"""
    ld = system(n, d)
    b = [[(sym(f"omin{s}{k}"), sym(f"omax{s}{k}")) for k in range(d)] for s in range(n_states)]
    a = ParticleDistributionAction(ld.particles, b, None, "other")
    move(ld, 3, d)
    a.final_run(3)
    population(n, d, n_states)


def surface_second(n, kinds):
    """a surface of the same size at another temperature before"""
    h = Histogram([n], [(sym("lo"), sym("lo") + n)])
    h.data = np.array([psym(f"o{i}") for i in range(n)])
    calculate_fes(h, psym("other.kt"))
    fes1(n, kinds)
