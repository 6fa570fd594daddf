"""Recorded output: trajectories, histograms, surfaces, populations."""
import numpy as np
from vspec import sym, psym, uf, claim, symarray, psymarray, raises, ite, rows, formats, headers, clobbered, backups, written, untouched
from spec_base import AnyPotential, on_disk
from bdld.actions.action import get_valid_data
from bdld.actions.bussi_parinello_ld import BussiParinelloLD, BpldParticle
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.histogram import Histogram


def system(n, d):
    ld = BussiParinelloLD(AnyPotential(d), psym("dt"), psym("friction"), psym("kt"), sym("seed"))
    for i in range(n):
        ld.add_particle([sym(f"start{i}{k}") for k in range(d)])
    return ld


def move(ld, s, d):
    """the walkers are somewhere else after every step"""
    for i, p in enumerate(ld.particles):
        for k in range(d):
            p.pos[k] = sym(f"x{s}_{i}_{k}")
            p.mom[k] = sym(f"p{s}_{i}_{k}")


def trajectory(stride, write, steps, n, d, mom):
    ld = system(n, d)
    traj = TrajectoryAction(ld, stride, "traj", mom, write)
    for s in range(1, steps + 1):
        move(ld, s, d)
        traj.run(s)
        if steps < 20:
            done = s - s % (write or 100)
            for i in range(n):
                on_disk(f"traj.{i}", [r[0] for r in rows(f"traj.{i}")], [t * psym("dt") for t in range(stride or 1, done + 1, stride or 1)])
    traj.final_run(steps)
    dt = psym("dt")
    st = stride or 1
    for i in range(n):
        want = []
        for s in range(st, steps + 1, st):
            row = [s * dt] + [sym(f"x{s}_{i}_{k}") for k in range(d)]
            if mom:
                row = row + [sym(f"p{s}_{i}_{k}") for k in range(d)]
            want.append(row)
        claim("rows of the trajectory file", rows(f"traj.{i}"), want)
        claim("number of columns", [len(h[0]) for h in headers(f"traj.{i}")], [1 + d + (d if mom else 0)])
    claim("existing files are kept", clobbered(), [])
    claim("one file per walker", sorted(written()), sorted([f"traj.{i}" for i in range(n)]))
    move(ld, 99, d)


def no_trajectory(write, steps, n, d):
    ld = system(n, d)
    traj = TrajectoryAction(ld, 2, None, True, write)
    for s in range(1, steps + 1):
        move(ld, s, d)
        traj.run(s)
    traj.final_run(steps)
    claim("no file without a name", written(), [])


def valid_data(n, stride, rec, steps, resets):
    """blocks of a cyclic buffer of n rows, one row every `rec` steps, every `stride` steps wanted

    A block is taken whenever the buffer is full, at the given extra steps and at the end."""
    buf = np.empty((n, 1))
    last = 0
    got = []
    for s in range(1, steps + 1):
        if s % rec == 0:
            buf[(s % (n * rec)) // rec - 1] = sym(f"r{s}")
        if s % (n * rec) == 0 or s in resets or s == steps:
            block = get_valid_data(buf, s, stride, rec, last)
            for r in block:
                got.append([v for v in r])
            last = s
            again = get_valid_data(buf, s, stride, rec, last)
            claim("nothing new, nothing returned", len(again), 0)
    claim("series", got, [[sym(f"r{s}")] for s in range(stride, steps + 1, stride)])


def inside(x, edges, i):
    last = i == len(edges) - 2
    return edges[i] <= x and (x <= edges[i + 1] if last else x < edges[i + 1])


def bins1(bins, points):
    """1d histogram with symbolic data"""
    lo, w = sym("lo"), psym("w")
    h = Histogram([bins], [(lo, lo + w * bins)])
    edges = [lo + w * i for i in range(bins + 1)]
    claim("starts at zero", [v for v in h.data], [0] * bins)
    claim("bin edges", [v for v in h.bins[0]], edges)
    claim("points are the bin centres", [v for v in h.axes()[0]], [lo + w * (i + 1 / 2) for i in range(bins)])
    claim("step size", h.stepsizes[0], w)
    x = symarray("X", points, 1)
    h.add(x)
    want = [sum([1 if inside(x[k][0], edges, i) else 0 for k in range(points)]) for i in range(bins)]
    claim("counts", [v for v in h.data], want)
    claim("data unchanged", [v for v in x[:, 0]], [v for v in symarray("X", points, 1)[:, 0]])
    y = symarray("Y", 1, 1)
    h.add(y)
    want = [want[i] + (1 if inside(y[0][0], edges, i) else 0) for i in range(bins)]
    claim("counts accumulate", [v for v in h.data], want)
    h.clear()
    claim("clear", [v for v in h.data], [0] * bins)
    h.add(y)
    claim("counts after clear", [v for v in h.data], [1 if inside(y[0][0], edges, i) else 0 for i in range(bins)])


def bins2(n, m):
    lo = [sym("lo0"), sym("lo1")]
    w = [psym("w0"), psym("w1")]
    h = Histogram([n, m], [(lo[0], lo[0] + w[0] * n), (lo[1], lo[1] + w[1] * m)])
    e0 = [lo[0] + w[0] * i for i in range(n + 1)]
    e1 = [lo[1] + w[1] * i for i in range(m + 1)]
    x = symarray("X", 1, 2)
    h.add(x)
    claim("counts", [[h.data[i][j] for j in range(m)] for i in range(n)],
          [[1 if inside(x[0][0], e0, i) and inside(x[0][1], e1, j) else 0 for j in range(m)] for i in range(n)])
    claim("points", [[v for v in p] for p in h.points()],
          [[lo[0] + w[0] * (i + 1 / 2), lo[1] + w[1] * (j + 1 / 2)] for i in range(n) for j in range(m)])
    claim("grid ranges", [[v for v in r] for r in h.ranges],
          [[lo[0] + w[0] / 2, lo[0] + w[0] * (n - 1 / 2)], [lo[1] + w[1] / 2, lo[1] + w[1] * (m - 1 / 2)]])


def place(ld, s, n):
    for i, p in enumerate(ld.particles):
        p.pos[0] = s * n + i + 1 / 2


def hist_action(tstride, twrite, hstride, hwrite, resets, steps, n):
    """which recorded points are counted: the position tells step and walker"""
    ld = system(n, 1)
    bins = (steps + 1) * n
    traj = TrajectoryAction(ld, tstride, None, None, twrite)
    act = HistogramAction(traj, [bins], [(0, bins)], hstride, resets, "histo", hwrite)
    hs = hstride or 1
    seen, last = [], 0
    claim("starts at zero", [v for v in act.histo.data], [0] * bins)
    for s in range(1, steps + 1):
        place(ld, s, n)
        traj.run(s)
        act.run(s)
        if s % twrite == 0:
            seen = seen + [t for t in range(last + 1, s + 1) if t % hs == 0]
            last = s
        if hwrite and s % hwrite == 0:
            on_disk(f"histo_{s}", rows(f"histo_{s}"), [[b + 1 / 2, 1 if b // n in seen else 0] for b in range(bins)])
            claim("written counts", rows(f"histo_{s}"), [[b + 1 / 2, 1 if b // n in seen else 0] for b in range(bins)])
        if s in (resets or []):
            seen, last = [], s
        claim("counts during the run", [v for v in act.histo.data], [1 if b // n in seen else 0 for b in range(bins)])
    traj.final_run(steps)
    act.final_run(steps)
    seen = seen + [t for t in range(last + 1, steps + 1) if t % hs == 0]
    claim("final counts", [v for v in act.histo.data], [1 if b // n in seen else 0 for b in range(bins)])
    claim("final file", rows("histo"), [[b + 1 / 2, 1 if b // n in seen else 0] for b in range(bins)])
    claim("files", written(), sorted(["histo"] + [f"histo_{s}" for s in range(1, steps + 1) if hwrite and s % hwrite == 0]))
    claim("existing files are kept", clobbered(), [])


def hist_quiet(twrite, steps):
    ld = system(1, 1)
    traj = TrajectoryAction(ld, 1, None, None, twrite)
    act = HistogramAction(traj, [4], [(0, 4)], 1, [2])
    for s in range(1, steps + 1):
        place(ld, s, 1)
        traj.run(s)
        act.run(s)
    traj.final_run(steps)
    act.final_run(steps)
    claim("no file without a name", written(), [])


def hist_refuse(d):
    ld = system(1, d)
    traj = TrajectoryAction(ld, 1, None, None, 3)
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            claim("dimension mismatch is refused", raises("ValueError", HistogramAction, traj, [4] * a, [(0, 4)] * b), a != d or b != d)
    claim("write stride without file name is refused", raises("ValueError", HistogramAction, traj, [4] * d, [(0, 4)] * d, 1, None, None, 5), True)


def together(n, d, twrite, steps):
    """walkers at the same place count as often as there are walkers, those outside the range not at all"""
    ld = system(n, d)
    traj = TrajectoryAction(ld, 1, None, None, twrite)
    act = HistogramAction(traj, [3] * d, [(0, 3)] * d, None, None, "histo", None)
    for s in range(1, steps + 1):
        for i, p in enumerate(ld.particles):
            for k in range(d):
                p.pos[k] = (s * 8 if i == 0 and k == d - 1 else 2 - k / 2)
        traj.run(s)
        act.run(s)
    traj.final_run(steps)
    act.final_run(steps)
    at = tuple([int(2 - k / 2) for k in range(d)])
    got = act.histo.data
    claim("counts of walkers at one place", got[at], (n - 1) * steps)
    claim("no other counts", np.sum(got), (n - 1) * steps)
