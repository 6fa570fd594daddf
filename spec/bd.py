"""Birth-death moves."""
import numpy as np
from vspec import sym, psym, uf, claim, claim_noise, symarray, psymarray, raises, ite, bsym, rows, isym, written
from spec_base import on_disk
from bdld.particle import Particle
from bdld.actions.bussi_parinello_ld import BpldParticle
from bdld.actions import birth_death
from bdld.actions.birth_death import BirthDeath


def walkers(n, d, name="X"):
    out = []
    x = symarray(name, n, d)
    p = symarray(name + "p", n, d)
    f = symarray(name + "f", n, d)
    for i in range(n):
        w = BpldParticle([x[i][k] for k in range(d)], [p[i][k] for k in range(d)], psym(f"m{i}"))
        w.energy = sym(f"{name}e{i}")
        w.forces = np.array([f[i][k] for k in range(d)])
        w.c2 = psym(f"c2{i}")
        out.append(w)
    return out


def state(ws):
    return [[[v for v in w.pos], [v for v in w.mom], w.mass, w.energy, [v for v in w.forces], w.c2] for w in ws]


def separate(ws, n, d):
    """moving one walker in place leaves all others as they are"""
    for k in range(n):
        before = state(ws)
        for a in range(d):
            ws[k].pos[a] += sym("shift")
            ws[k].mom[a] += sym("shift")
            ws[k].forces[a] += sym("shift")
        after = state(ws)
        claim(f"others keep their state when one moves", [after[i] for i in range(n) if i != k], [before[i] for i in range(n) if i != k])


def duplicate(w):
    out = BpldParticle([v for v in w.pos], [v for v in w.mom], w.mass)
    out.energy = w.energy
    out.forces = np.array([v for v in w.forces])
    out.c2 = w.c2
    return out


def counts(bd):
    return [bd.stats.kill_count, bd.stats.dup_count, bd.stats.kill_attempts, bd.stats.dup_attempts]


def earlier(bd):
    """counts of earlier steps"""
    bd.stats.kill_count = isym("kills0", 0, 9)
    bd.stats.dup_count = isym("dups0", 0, 9)
    bd.stats.kill_attempts = isym("up0", 0, 90)
    bd.stats.dup_attempts = isym("down0", 0, 90)
    return counts(bd)


def make(ws, recalc, seed=None, **kw):
    return BirthDeath(ws, psym("dt"), 5, np.array([psym("bw")]), psym("kt"), rate_fac=psym("fac"),
                      recalc_probs=recalc, seed=sym("seed") if seed is None else seed, **kw)


def bulk(n, d):
    ws = walkers(n, d)
    bd = make(ws, False)
    claim("statistics start at zero", counts(bd), [0, 0, 0, 0])
    k0, d0, u0, n0 = earlier(bd)
    beta = bd.calc_betas()
    got = bd.do_birth_death()

    ref = walkers(n, d)
    rng = np.random.default_rng(sym("seed"))
    rand = rng.random(n)
    prob = 1 - np.exp(-np.abs(beta) * psym("dt") * 5 * psym("fac"))
    chosen = np.where(rand <= prob)[0]
    rng.shuffle(chosen)
    dead, moves = [], []
    kills, dups = 0, 0
    up = sum([1 if beta[i] > 0 else 0 for i in range(n)])
    for i in chosen:
        if i in dead:
            continue
        j = rng.integers(n - 1)
        if j >= i:
            j = j + 1
        if beta[i] > 0:
            dead.append(i)
            moves.append((j, i))
            kills = kills + 1
        else:
            dead.append(j)
            moves.append((i, j))
            dups = dups + 1
    claim("events", [(a, b) for a, b in got], moves)
    vals = state(ref)
    for a, b in moves:
        vals[b] = vals[a]
    claim("population after the moves", state(ws), vals)
    claim("number of walkers", len(bd.particles), n)
    claim("same list", bd.particles is ws, True)
    claim("statistics", counts(bd), [k0 + kills, d0 + dups, u0 + up, n0 + n - up])
    separate(ws, n, d)


def recalc(n, d):
    ws = walkers(n, d)
    bd = make(ws, True)
    claim("statistics start at zero", counts(bd), [0, 0, 0, 0])
    k0, d0, u0, n0 = earlier(bd)
    got = bd.do_birth_death()

    rw = walkers(n, d)
    rb = make(rw, True)
    rng = np.random.default_rng(sym("seed"))
    beta = rb.calc_betas()
    rand = rng.random(n)
    order = np.arange(n)
    rng.shuffle(order)
    moves = []
    kills, dups, up, down = 0, 0, 0, 0
    for i in order:
        up = up + (1 if beta[i] > 0 else 0)
        down = down + (1 if beta[i] < 0 else 0)
        prob = 1 - np.exp(-np.abs(beta[i]) * psym("dt") * 5 * psym("fac"))
        if rand[i] <= prob:
            j = rng.integers(n - 1)
            if j >= i:
                j = j + 1
            ev = (j, i) if beta[i] > 0 else (i, j)
            rb.particles[ev[1]] = duplicate(rb.particles[ev[0]])
            moves.append(ev)
            if beta[i] > 0:
                kills = kills + 1
            else:
                dups = dups + 1
            beta = rb.calc_betas()
    claim("events", [(a, b) for a, b in got], moves)
    claim("population after the moves", state(ws), state(rb.particles))
    claim("number of walkers", len(bd.particles), n)
    claim("same list", bd.particles is ws, True)
    claim("statistics", counts(bd), [k0 + kills, d0 + dups, u0 + up, n0 + down])
    separate(ws, n, d)


def schedule(stride, sstride, steps):
    """moves at the multiples of the stride only, statistics at theirs"""
    ws = walkers(2, 1)
    kw = {"stats_stride": sstride, "stats_filename": "stats"}
    bd = BirthDeath(ws, psym("dt"), stride, np.array([psym("bw")]), psym("kt"), seed=sym("seed"), **kw)
    rw = walkers(2, 1)
    rb = BirthDeath(rw, psym("dt"), stride, np.array([psym("bw")]), psym("kt"), seed=sym("seed"))
    for s in range(1, steps + 1):
        bd.run(s)
        if s % stride == 0:
            rb.do_birth_death()
        on_disk("stats", [r[0] for r in rows("stats")], [t for t in range(sstride, s + 1, sstride)])
        claim(f"population after step {s}", state(ws), state(rw))
    bd.final_run(steps)
    claim("population after the end", state(ws), state(rw))
    claim("rows of the statistics file", [r[0] for r in rows("stats")], [s for s in range(1, steps + 1) if s % sstride == 0])


def one_call(symbolic):
    """a call at any step performs moves exactly when the step is a multiple of the stride"""
    step = isym("step", 1, 60) if symbolic else 12
    for stride in (1, 2, 3, 5):
        ws = walkers(2, 1)
        bd = BirthDeath(ws, psym("dt"), stride, np.array([psym("bw")]), psym("kt"), seed=sym("seed"), stats_stride=4, stats_filename="stats")
        bd.run(step)
        rw = walkers(2, 1)
        rb = BirthDeath(rw, psym("dt"), stride, np.array([psym("bw")]), psym("kt"), seed=sym("seed"))
        if step % stride == 0:
            rb.do_birth_death()
        claim("population", state(ws), state(rw))
        claim("statistics", [bd.stats.kill_count, bd.stats.dup_count], [rb.stats.kill_count, rb.stats.dup_count])
        claim("statistics row", [r for r in rows("stats")],
              [[step, bd.stats.dup_count, bd.stats.dup_attempts, bd.stats.kill_count, bd.stats.kill_attempts]] if step % 4 == 0 else [])


def default_rate(given):
    """without a rate factor the rates count as they are"""
    ws = walkers(2, 1)
    bd = BirthDeath(ws, psym("dt"), 3, np.array([psym("bw")]), psym("kt"), rate_fac=given, seed=sym("seed"))
    bd.do_birth_death()
    rw = walkers(2, 1)
    rb = BirthDeath(rw, psym("dt"), 3, np.array([psym("bw")]), psym("kt"), rate_fac=1, seed=sym("seed"))
    rb.do_birth_death()
    claim("population", state(ws), state(rw))


def printed(stats_stride, steps):
    """without a file the statistics go to the screen and no file is written"""
    ws = walkers(2, 1)
    bd = BirthDeath(ws, psym("dt"), 50, np.array([psym("bw")]), psym("kt"), seed=sym("seed"), stats_stride=stats_stride)
    for s in range(1, steps + 1):
        bd.run(s)
    bd.final_run(steps)
    claim("no file", written(), [])


def reset():
    """printing with reset starts the counts anew"""
    ws = walkers(2, 1)
    bd = BirthDeath(ws, psym("dt"), 5, np.array([psym("bw")]), psym("kt"), seed=sym("seed"), stats_filename="stats")
    k0, d0, u0, n0 = earlier(bd)
    bd.stats.print(7)
    claim("statistics kept", counts(bd), [k0, d0, u0, n0])
    bd.stats.print(9, True)
    claim("statistics anew", counts(bd), [0, 0, 0, 0])
    claim("statistics rows", rows("stats"), [[7, d0, n0, k0, u0], [9, d0, n0, k0, u0]])


def wander(ws, d, t):
    """the dynamics moves all walkers between two birth-death steps"""
    for i, w in enumerate(ws):
        for k in range(d):
            w.pos[k] = sym(f"Y{t}_{i}_{k}")
        w.energy = sym(f"Ye{t}_{i}")


def reference(rb, rng, recalc):
    """one birth-death step: moves, performed moves and rates above and below zero"""
    ws = rb.particles
    n = len(ws)
    beta = rb.calc_betas()
    rand = rng.random(n)
    moves, dead = [], []
    c = [0, 0, 0, 0]
    order = np.arange(n)
    if recalc:
        rng.shuffle(order)
    else:
        c[2] = sum([1 if beta[i] > 0 else 0 for i in range(n)])
        c[3] = n - c[2]
        prob = 1 - np.exp(-np.abs(beta) * psym("dt") * 5 * psym("fac"))
        order = np.where(rand <= prob)[0]
        rng.shuffle(order)
    for i in order:
        if recalc:
            c[2] = c[2] + (1 if beta[i] > 0 else 0)
            c[3] = c[3] + (1 if beta[i] < 0 else 0)
            if rand[i] > 1 - np.exp(-np.abs(beta[i]) * psym("dt") * 5 * psym("fac")):
                continue
        elif i in dead:
            continue
        j = rng.integers(n - 1)
        if j >= i:
            j = j + 1
        if beta[i] > 0:
            moves.append((j, i))
            dead.append(i)
            c[0] = c[0] + 1
        else:
            moves.append((i, j))
            dead.append(j)
            c[1] = c[1] + 1
        if recalc:
            ws[moves[-1][1]] = duplicate(ws[moves[-1][0]])
            beta = rb.calc_betas()
    if not recalc:
        for a, b in moves:
            ws[b] = duplicate(ws[a])
    return moves, c


def again(n, recalc, grow, steps=2):
    """a later step does not depend on anything but the walkers and the generator"""
    ws, rw = walkers(n, 1), walkers(n, 1)
    bd, rb = make(ws, recalc), make(rw, recalc)
    rng = np.random.default_rng(sym("seed"))
    c = earlier(bd)
    for t in range(steps):
        if t:
            if grow:
                ws.append(walkers(1, 1, "Z")[0])
                rw.append(walkers(1, 1, "Z")[0])
            wander(ws, 1, t)
            wander(rw, 1, t)
        got = bd.do_birth_death()
        moves, more = reference(rb, rng, recalc)
        c = [x + y for x, y in zip(c, more)]
    claim("events of a later step", [(a, b) for a, b in got], moves)
    claim("population after the moves of a later step", state(ws), state(rw))
    claim("number of walkers after a later step", [len(bd.particles), bd.particles is ws], [n + 1 if grow else n, True])
    claim("statistics after a later step", counts(bd), c)
