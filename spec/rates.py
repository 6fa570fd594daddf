"""Walker density and birth-death rates."""
import numpy as np
from vspec import sym, psym, uf, claim, symarray, psymarray, raises, bsym, isym, huge, replace, replaced
from bdld import grid
from bdld.actions.bussi_parinello_ld import BpldParticle
from bdld.actions import birth_death
from bdld.actions.birth_death import BirthDeath, ApproxVariant


def gauss(x, y, bw, d):
    """normalised Gaussian product kernel"""
    k = 1.0
    for i in range(d):
        k = k * np.exp(-(x[i] - y[i]) ** 2 / (2 * bw[i] ** 2)) / (np.sqrt(2 * np.pi) * bw[i])
    return k


def density(n, d):
    pos = symarray("X", n, d)
    bw = np.array([psym(f"bw{i}") for i in range(d)])
    want = [sum([gauss(pos[i], pos[j], bw, d) for j in range(n)]) / n for i in range(n)]
    got = birth_death.walker_density(pos, bw)
    claim("density is the kernel average", [v for v in got], want)
    claim("positions unchanged", [[v for v in p] for p in pos], [[v for v in p] for p in symarray("X", n, d)])
    claim("bandwidths unchanged", [v for v in bw], [psym(f"bw{i}") for i in range(d)])


def density_of(name, n, d):
    pos = symarray("X", n, d)
    bw = np.array([psym(f"bw{i}") for i in range(d)])
    want = [sum([gauss(pos[i], pos[j], bw, d) for j in range(n)]) / n for i in range(n)]
    got = getattr(birth_death, name)(pos, bw)
    claim("density is the kernel average", [v for v in got], want)


def kernel(n, d):
    dist = symarray("D", n, d)
    bw = np.array([psym(f"bw{i}") for i in range(d)])
    got = birth_death.calc_kernel(dist, bw)
    zero = [0] * d
    claim("kernel is the normalised Gaussian", [v for v in got], [gauss(dist[i], zero, bw, d) for i in range(n)])
    claim("distances unchanged", [[v for v in p] for p in dist], [[v for v in p] for p in symarray("D", n, d)])


def population(n, d):
    ws = []
    x = symarray("X", n, d)
    e = symarray("E", n)
    for i in range(n):
        w = BpldParticle([x[i][k] for k in range(d)])
        w.energy = e[i]
        ws.append(w)
    return ws, x, e


def rates(n, d, variant):
    ws, x, e = population(n, d)
    bw = [psym(f"bw{i}") for i in range(d)]
    kt = psym("kt")
    bd = BirthDeath(ws, psym("dt"), 5, bw, kt, seed=1)
    if variant != "orig":
        bd.approx_variant = ApproxVariant[variant]
        bd.approx_grid = grid.from_npoints([(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)], [2] * d)
        bd.approx_grid.data = symarray("G", 2 ** d)
    got = bd.calc_betas()
    rho = birth_death.walker_density(x, np.array(bw))
    b = [np.log(rho[i]) for i in range(n)]
    if variant == "mult":
        c = bd.approx_grid.interpolate(x, "linear", 0.0).reshape(n)
        b = [b[i] + c[i] for i in range(n)]
    else:
        b = [b[i] + e[i] / kt for i in range(n)]
    mean = sum(b) / n
    b = [b[i] - mean for i in range(n)]
    if variant == "add":
        c = bd.approx_grid.interpolate(x, "linear", 0.0).reshape(n)
        b = [b[i] + c[i] for i in range(n)]
    claim("rates", [v for v in got], b)
    claim("positions unchanged", [[v for v in w.pos] for w in ws], [[v for v in p] for p in symarray("X", n, d)])
    claim("energies unchanged", [w.energy for w in ws], [v for v in symarray("E", n)])


def some_density(shape, h):
    d = len(shape)
    lo = [sym(f"lo{k}") for k in range(d)]
    g = grid.from_npoints([(lo[k], lo[k] + h[k] * (shape[k] - 1)) for k in range(d)], shape)
    n = 1
    for s in shape:
        n = n * s
    g.data = psymarray("P", n)
    return g


def smoothed(g, h, bw, d):
    """reference: discretised convolution of the density with the kernel cut at five bandwidths"""
    if d == 1:
        pts = [[-h[0]], [0], [h[0]]]
        k = np.array([gauss(p, [0], bw, 1) for p in pts])
        n = g.n_points[0]
        p = [g.data[i] for i in range(n)]
        return [((p[i - 1] * k[2] if i > 0 else 0) + p[i] * k[1] + (p[i + 1] * k[0] if i + 1 < n else 0)) * h[0] for i in range(n)]
    out = []
    n, m = g.n_points
    for i in range(n):
        for j in range(m):
            s = 0
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    if 0 <= i + a < n and 0 <= j + b < m:
                        s = s + g.data[i + a][j + b] * gauss([a * h[0], b * h[1]], [0, 0], bw, 2)
            out.append(s * h[0] * h[1])
    return out


def integral(v, shape, h):
    """trapezoidal rule"""
    if len(shape) == 1:
        return h[0] * sum([(v[i] + v[i + 1]) / 2 for i in range(shape[0] - 1)])
    n, m = shape
    rows = [h[1] * sum([(v[i * m + j] + v[i * m + j + 1]) / 2 for j in range(m - 1)]) for i in range(n)]
    return h[0] * sum([(rows[i] + rows[i + 1]) / 2 for i in range(n - 1)])


def correction(variant, shape):
    d = len(shape)
    h = [psym(f"h{k}") for k in range(d)]
    bw = [h[k] / 5 for k in range(d)]
    g = some_density(shape, h)
    before = [v for v in g.data.flatten()]
    bd = BirthDeath([], psym("dt"), 5, bw, psym("kt"), approx_variant=ApproxVariant[variant], eq_density=g, seed=1)
    s = smoothed(g, h, bw, d)
    if variant == "mult":
        want = [-np.log(x) for x in s]
    else:
        lg = [np.log(s[i] / before[i]) for i in range(len(s))]
        mean = integral([lg[i] * before[i] for i in range(len(s))], shape, h)
        want = [-x + mean for x in lg]
    claim("correction", [v for v in bd.approx_grid.data.flatten()], want)
    claim("same points as the density", [[v for v in p] for p in bd.approx_grid.points()], [[v for v in p] for p in g.points()])
    claim("density unchanged", [v for v in g.data.flatten()], before)


def no_density(variant):
    claim("missing density is refused", raises("ValueError", BirthDeath, [], psym("dt"), 5, [psym("bw")], psym("kt"), None, False, ApproxVariant[variant]),
          variant != "orig")


def trapz(shape):
    d = len(shape)
    h = [psym(f"h{k}") for k in range(d)]
    n = 1
    for s in shape:
        n = n * s
    v = symarray("V", *shape)
    got = birth_death.nd_trapz(v, h)
    claim("trapezoidal rule", got, integral([x for x in v.flatten()], shape, h))


def variants():
    for long, short in (("original", "orig"), ("additive", "add"), ("multiplicative", "mult")):
        claim(long, ApproxVariant.from_str(long) is ApproxVariant[short], True)
        claim(short, ApproxVariant.from_str(short) is ApproxVariant[short], True)
    claim("unknown variant is refused", raises("TypeError|ValueError|KeyError", ApproxVariant.from_str, "nothing"), True)


def empty_places(zeros, variant):
    """walkers whose estimated density vanishes: rate minus infinity, left out of the mean"""
    n = len(zeros)
    ws, x, e = population(n, 1)
    kt = psym("kt")
    bd = BirthDeath(ws, psym("dt"), 5, [psym("bw")], kt, seed=1)
    if variant != "orig":
        bd.approx_variant = ApproxVariant[variant]
        bd.approx_grid = grid.from_npoints([(sym("lo"), sym("lo") + psym("w"))], [2])
        bd.approx_grid.data = symarray("G", 2)
    rho = [0.0 if zeros[i] else psym(f"rho{i}") for i in range(n)]
    replace(birth_death.walker_density, lambda pos, bw: np.array(rho))
    got = bd.calc_betas()
    if not replaced():
        return
    c = [0.0] * n if variant == "orig" else bd.approx_grid.interpolate(x, "linear", 0.0).reshape(n)
    live = [i for i in range(n) if not zeros[i]]
    b = {i: np.log(rho[i]) + (c[i] if variant == "mult" else e[i] / kt) for i in live}
    mean = sum([b[i] for i in live]) / len(live)
    want = [-np.inf if zeros[i] else b[i] - mean + (c[i] if variant == "add" else 0) for i in range(n)]
    claim("rates", [v for v in got], want)


def many(d):
    """more walkers than the pairwise matrix is used for"""
    n = huge("N")
    pos = symarray("X", n, d)
    bw = np.array([psym(f"bw{i}") for i in range(d)])
    got = birth_death.walker_density(pos, bw)
    i = isym("i", 0, 1)
    claim("number of values", len(got), n)
    claim("density is the kernel average", got[i], sum([gauss(pos[i], pos[j], bw, d) for j in range(n)]) / n)


def density_again(n, d):
    """the density belongs to the positions it is called with, whatever it was called with before"""
    bw = np.array([psym(f"bw{i}") for i in range(d)])
    pos = symarray("X", n, d)
    for name in ("density of earlier positions", "density of later positions", "density with other bandwidths", "density of more walkers"):
        got = birth_death.walker_density(pos, bw)
        want = [sum([gauss(pos[i], pos[j], bw, d) for j in range(len(pos))]) / len(pos) for i in range(len(pos))]
        claim(name, [v for v in got], want)
        if name == "density of earlier positions":
            for i in range(n):
                for k in range(d):
                    pos[i][k] = sym(f"Y{i}_{k}")
        elif name == "density of later positions":
            for k in range(d):
                bw[k] = psym(f"bv{k}")
        else:
            pos = symarray("Z", n + 1, d)


def rates_again(n, d, variant):
    """rates belong to the current walkers"""
    def bd_of(name):
        ws = []
        for i in range(n):
            w = BpldParticle([sym(f"{name}{i}_{k}") for k in range(d)])
            w.energy = sym(f"{name}e{i}")
            ws.append(w)
        bd = BirthDeath(ws, psym("dt"), 5, [psym(f"bw{i}") for i in range(d)], psym("kt"), seed=1)
        if variant != "orig":
            bd.approx_variant = ApproxVariant[variant]
            bd.approx_grid = grid.from_npoints([(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)], [2] * d)
            bd.approx_grid.data = symarray("G", 2 ** d)
        return bd
    bd = bd_of("X")
    bd.calc_betas()
    for i, w in enumerate(bd.particles):
        for k in range(d):
            w.pos[k] = sym(f"Y{i}_{k}")
        w.energy = sym(f"Ye{i}")
    claim("rates of later walkers", [v for v in bd.calc_betas()], [v for v in bd_of("Y").calc_betas()])
    claim("rates of later walkers again", [v for v in bd.calc_betas()], [v for v in bd_of("Y").calc_betas()])
