"""Potential energy functions."""
import numpy as np
from vspec import sym, psym, uf, claim, symarray, diff, raises, ite
from bdld.potential.potential import Potential, BoundaryCondition
from bdld.potential import polynomial
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.mueller_brown import MuellerBrownPotential
from spec_base import AnyPotential


def conservative(pot, d, tag):
    """force is the negative gradient of the energy, evaluate gives both"""
    x = [sym(f"x{k}") for k in range(d)]
    e = pot.energy(np.array(x))
    f = pot.force(np.array(x))
    claim(f"{tag}: force is the negative gradient", [f[k] for k in range(d)], [-diff(e, x[k]) for k in range(d)])
    ee, ff = pot.evaluate(np.array(x))
    claim(f"{tag}: evaluate returns energy", ee, e)
    claim(f"{tag}: evaluate returns force", [ff[k] for k in range(d)], [f[k] for k in range(d)])
    claim(f"{tag}: one force per dimension", len(f), d)
    y = np.array(x)
    pot.energy(y)
    pot.force(y)
    pot.evaluate(y)
    claim(f"{tag}: position left unchanged", y, np.array(x))
    claim(f"{tag}: same energy when asked again", pot.energy(y), e)
    claim(f"{tag}: accepts a list", pot.energy([v for v in x]), e)
    return e


def poly1(n):
    c = [sym(f"c{i}") for i in range(n)]
    pot = PolynomialPotential(c, [(sym("lo"), sym("hi"))])
    e = conservative(pot, 1, "1d")
    x = sym("x0")
    claim("1d: energy", e, sum(c[i] * x ** i for i in range(n)))
    claim("1d: dimension", pot.n_dim, 1)
    claim("1d: ranges", pot.ranges, [(sym("lo"), sym("hi"))])


def poly2(n, m):
    c = symarray("C", n, m)
    pot = PolynomialPotential(c, [(sym("lo"), sym("hi")), (sym("lo1"), sym("hi1"))])
    e = conservative(pot, 2, "2d")
    x, y = sym("x0"), sym("x1")
    claim("2d: energy", e, sum(c[i][j] * x ** i * y ** j for i in range(n) for j in range(m)))
    claim("2d: dimension", pot.n_dim, 2)


def poly3(n, m, l):
    c = symarray("C", n, m, l)
    pot = PolynomialPotential(c, [(sym("lo"), sym("hi")) for i in range(3)])
    e = conservative(pot, 3, "3d")
    x, y, z = sym("x0"), sym("x1"), sym("x2")
    claim("3d: energy", e,
          sum(c[i][j][k] * x ** i * y ** j * z ** k for i in range(n) for j in range(m) for k in range(l)))
    claim("3d: dimension", pot.n_dim, 3)


def poly4():
    claim("more than 3 dimensions are rejected",
          raises("NotImplementedError|ValueError", PolynomialPotential, symarray("C", 2, 2, 2, 2)), True)


def poly_file(orders, extra):
    """coefficient file: one row per coefficient, its exponents first"""
    from spec_cfg import TABLES
    d = len(orders[0])
    TABLES["coeffs"] = [[k for k in o] + [sym(f"q{n}")] + ([n, 99] if extra else []) for n, o in enumerate(orders)]
    got = polynomial.coefficients_from_file("coeffs", d)
    want = np.zeros([max([o[k] for o in orders]) + 1 for k in range(d)])
    for n, o in enumerate(orders):
        want[tuple(o)] = sym(f"q{n}")
    claim("number of coefficients per dimension", [k for k in got.shape], [k for k in want.shape])
    claim("coefficients", [v for v in got.flatten()], [v for v in want.flatten()])
    x = [sym(f"x{k}") for k in range(d)]
    e = 0
    for n, o in enumerate(orders):
        t = sym(f"q{n}")
        for k in range(d):
            t = t * x[k] ** o[k]
        e = e + t
    claim("energy of the polynomial", PolynomialPotential(got, [(-1, 1)] * d).energy(np.array(x)), e)


AA = [-200.0, -100.0, -175.0, 15.0]
A_ = [-1.0, -1.0, -6.5, 0.7]
B_ = [0.0, 0.0, 11.0, 0.6]
C_ = [-10.0, -10.0, -6.5, 0.7]
X0 = [1.0, 0.0, -0.5, -1.0]
Y0 = [0.0, 0.5, 1.5, 1.0]


def mb_energy(x, y, s):
    e = 0.0
    for i in range(4):
        u, v = x - X0[i], y - Y0[i]
        e = e + s * AA[i] * np.exp(A_[i] * u * u + B_[i] * u * v + C_[i] * v * v)
    return e


def mueller():
    pot = MuellerBrownPotential()
    e = conservative(pot, 2, "Mueller-Brown")
    x, y = sym("x0"), sym("x1")
    ref = mb_energy(x, y, 1)
    at0 = pot.energy(np.array([0.0, 0.0])) - mb_energy(0.0, 0.0, 1)
    claim("Mueller-Brown: energy up to a constant", e - at0, ref)
    claim("Mueller-Brown: dimension", pot.n_dim, 2)
    claim("Mueller-Brown: ranges", [(float(a), float(b)) for a, b in pot.ranges], [(-1.5, 1.5), (-0.5, 2.5)])


def mueller_scaled():
    s = psym("s")
    x, y = sym("x0"), sym("x1")
    pot = MuellerBrownPotential(s)
    e = conservative(pot, 2, "scaled Mueller-Brown")
    at0 = pot.energy(np.array([0.0, 0.0])) - mb_energy(0.0, 0.0, s)
    claim("scaled Mueller-Brown: energy up to a constant", e - at0, mb_energy(x, y, s))


def independent():
    """creating further potentials never changes an existing one"""
    x = np.array([sym("x0"), sym("x1")])
    p1 = MuellerBrownPotential(psym("s1"))
    e1, f1 = p1.energy(x), p1.force(x)
    p2 = MuellerBrownPotential(psym("s2"))
    p3 = MuellerBrownPotential()
    p2.energy(x)
    p2.force(x)
    claim("energy unchanged by other instances", p1.energy(x), e1)
    claim("force unchanged by other instances", p1.force(x), f1)
    q = MuellerBrownPotential(psym("s1"))
    claim("same parameters, same energy", q.energy(x), e1)
    claim("default scaling does not depend on history", p3.energy(x) - p3.energy(np.array([0.0, 0.0])),
          mb_energy(sym("x0"), sym("x1"), 1) - mb_energy(0.0, 0.0, 1))
    p2.ranges[0] = (sym("l"), sym("h"))
    p2.boundary_condition = BoundaryCondition.periodic
    claim("ranges unchanged by other instances", [(float(a), float(b)) for a, b in p1.ranges], [(-1.5, 1.5), (-0.5, 2.5)])
    claim("boundary condition unchanged by other instances", p1.boundary_condition, None)


def independent_poly():
    c = np.array([sym("c0"), sym("c1"), sym("c2")])
    x = np.array([sym("x0")])
    p1 = PolynomialPotential(c)
    e1, f1 = p1.energy(x), p1.force(x)
    c[0] = sym("other")
    c[2] = sym("other2")
    claim("polynomial keeps its own coefficients", p1.energy(x), e1)
    claim("polynomial force keeps its own coefficients", p1.force(x), f1)
    p2 = PolynomialPotential([sym("d0"), sym("d1")])
    p2.ranges.append((sym("lo"), sym("hi")))
    p3 = PolynomialPotential([sym("d0"), sym("d1")])
    claim("default ranges are not shared", len(p3.ranges), 0)
    p2.energy(x)
    claim("polynomial energy unchanged by other instances", p1.energy(x), e1)


def arguments(d, n):
    """neither construction nor evaluation changes what was passed in, nor the potential"""
    c = symarray("C", *[n] * d)
    r = [(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)]
    back = [(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)]
    pot = PolynomialPotential(c, r)
    x = np.array([sym(f"x{k}") for k in range(d)])
    e, f = pot.energy(x), pot.force(x)
    e2, f2 = pot.evaluate(x)
    claim("position after evaluation", [v for v in x], [sym(f"x{k}") for k in range(d)])
    claim("evaluation", [e2, [v for v in f2]], [e, [v for v in f]])
    moved(pot, PolynomialPotential(symarray("C", *[n] * d), [(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)]), x, d)
    y = [sym(f"x{k}") for k in range(d)]
    pot.evaluate(y)
    claim("list after evaluation", y, [sym(f"x{k}") for k in range(d)])
    pts = symarray("P", 2, d)
    pot.calculate_reference(pts)
    pot.get_fields()
    g = pot.calculate_probability_density(psym("kt"), r, [2] * d)
    claim("points after the reference", [[v for v in q] for q in pts], [[v for v in q] for q in symarray("P", 2, d)])
    claim("ranges passed in", r, back)
    claim("ranges of the potential", pot.ranges, back)
    claim("coefficients passed in", [v for v in c.flatten()], [v for v in symarray("C", *[n] * d).flatten()])
    claim("energy again", pot.energy(x), e)
    claim("force again", [v for v in pot.force(x)], [v for v in f])
    claim("boundary condition", pot.boundary_condition, None)


def moved(pot, fresh, x, d):
    """the walker moves in place: values belong to the new position, values of before stay"""
    e1, f1 = pot.evaluate(x)
    f2 = pot.force(x)
    old = [v for v in f1]
    for k in range(d):
        x[k] = sym(f"z{k}")
    e3, f3 = pot.evaluate(x)
    z = [sym(f"z{k}") for k in range(d)]
    e4, f4 = fresh.evaluate(z)
    claim("evaluation after a move", [e3, [v for v in f3]], [e4, [v for v in f4]])
    claim("energy and force after a move", [pot.energy(x), [v for v in pot.force(x)]], [fresh.energy(z), [v for v in fresh.force(z)]])
    claim("forces of before stay", [[v for v in f1], [v for v in f2]], [old, old])
    for k in range(d):
        x[k] = sym(f"x{k}")


def arguments_mueller():
    pot = MuellerBrownPotential(psym("s"))
    x = np.array([sym("x0"), sym("x1")])
    e, f = pot.energy(x), pot.force(x)
    pot.evaluate(x)
    moved(pot, MuellerBrownPotential(psym("s")), x, 2)
    claim("position after evaluation", [v for v in x], [sym("x0"), sym("x1")])
    pot.calculate_reference(symarray("P", 2, 2))
    pot.calculate_probability_density(psym("kt"), pot.ranges, [2, 2])
    claim("energy again", pot.energy(x), e)
    claim("force again", [v for v in pot.force(x)], [v for v in f])
    claim("ranges", [(float(a), float(b)) for a, b in pot.ranges], [(-1.5, 1.5), (-0.5, 2.5)])


def reference(n, d):
    """reference values: energies at the given points, shifted to minimum zero on request"""
    pot = AnyPotential(d)
    pts = symarray("P", n, d)
    en = [pot.energy(pts[i]) for i in range(n)]
    claim("unshifted reference", [v for v in pot.calculate_reference(pts, False)], en)
    claim("shifted reference", [v for v in pot.calculate_reference(pts)], [e - min(en) for e in en])


def boundary(d, bc):
    pot = AnyPotential(d)
    pot.boundary_condition = BoundaryCondition[bc]
    x = np.array([sym(f"x{k}") for k in range(d)])
    p = np.array([sym(f"p{k}") for k in range(d)])
    x0, p0 = [v for v in x], [v for v in p]
    pot.apply_boundary_condition(x, p)
    wx, wp = [], []
    for k in range(d):
        lo, hi = pot.ranges[k]
        below, above = x0[k] < lo, x0[k] > hi
        if bc == "reflective":
            wx.append(lo if below else (hi if above else x0[k]))
            wp.append(-p0[k] if below or above else p0[k])
        else:
            wx.append(x0[k] + (hi - lo) if below else (x0[k] - (hi - lo) if above else x0[k]))
            wp.append(p0[k])
    claim(f"{bc}: position", [v for v in x], wx)
    claim(f"{bc}: momentum", [v for v in p], wp)


def boundary_none(d):
    pot = AnyPotential(d)
    claim("default: none", pot.boundary_condition, None)
    x = np.array([sym(f"x{k}") for k in range(d)])
    p = np.array([sym(f"p{k}") for k in range(d)])
    pot.apply_boundary_condition(x, p)
    claim("none: position", x, np.array([sym(f"x{k}") for k in range(d)]))
    claim("none: momentum", p, np.array([sym(f"p{k}") for k in range(d)]))
    pot.boundary_condition = BoundaryCondition.periodic
    pot.boundary_condition = None
    pot.apply_boundary_condition(x, p)
    claim("removed again: position", x, np.array([sym(f"x{k}") for k in range(d)]))
    pot.boundary_condition = BoundaryCondition.reflective
    claim("query", pot.boundary_condition, BoundaryCondition.reflective)


def fields(d):
    claim(f"names of {d} dimensions", AnyPotential(d).get_fields(), ["x", "y", "z"][:d])


def boltzmann(shape, d):
    """density on a grid = Boltzmann factor / integral (sum times volume element)"""
    pot = AnyPotential(d)
    kt = psym("kt")
    r = [(sym(f"a{k}"), sym(f"a{k}") + psym(f"b{k}")) for k in range(d)]
    g = pot.calculate_probability_density(kt, r, [s for s in shape])
    pts = [[]]
    vol = 1
    for k in range(d):
        pts = [p + [sym(f"a{k}") + psym(f"b{k}") * i / (shape[k] - 1)] for p in pts for i in range(shape[k])]
        vol = vol * psym(f"b{k}") / (shape[k] - 1)
    w = [np.exp(-pot.energy(p) / kt) for p in pts]
    z = sum(w) * vol
    claim("density", [v for v in g.data.flatten()], [v / z for v in w])
    claim("points", [[v for v in p] for p in g.points()], pts)
    first = [v for v in g.data.flatten()]
    g2 = pot.calculate_probability_density(psym("kt2"), r, [s for s in shape])
    w2 = [np.exp(-pot.energy(p) / psym("kt2")) for p in pts]
    claim("density at another temperature", [v for v in g2.data.flatten()], [v / (sum(w2) * vol) for v in w2])
    claim("earlier density", [v for v in g.data.flatten()], first)
    g3 = pot.calculate_probability_density(kt, [(a + 1, b + 1) for a, b in r], [s for s in shape])
    w3 = [np.exp(-pot.energy([x + 1 for x in p]) / kt) for p in pts]
    claim("density in another range", [v for v in g3.data.flatten()], [v / (sum(w3) * vol) for v in w3])
    claim("potential unchanged", [[v for v in x] for x in pot.ranges], [[v for v in x] for x in AnyPotential(d).ranges])


def boltzmann_refuse(d):
    pot = AnyPotential(d)
    for e in (1, 2, 3):
        r = [(0, 1)] * e
        claim("dimension of the ranges", raises("ValueError", pot.calculate_probability_density, psym("kt"), r, [3] * d), e != d)
        claim("dimension of the points", raises("ValueError", pot.calculate_probability_density, psym("kt"), [(0, 1)] * d, [3] * e), e != d)


class Recorder(AnyPotential):
    def calculate_probability_density(self, kt, ranges, grid_points):
        self.seen = [kt, [r for r in ranges], [n for n in grid_points]]
        return "density"


def for_birth_death(d, width, bw):
    """density used for the corrections: kT and full range of the potential, enough points for the kernel"""
    from bdld.main import bd_prob_density
    pot = Recorder(d)
    pot.ranges = [(sym(f"lo{k}"), sym(f"lo{k}") + width) for k in range(d)]
    r = bd_prob_density(pot, np.array([bw] * d), psym("kt"))
    claim("result", r, "density")
    claim("thermal energy", pot.seen[0], psym("kt"))
    claim("ranges", [[v for v in x] for x in pot.seen[1]], [[sym(f"lo{k}"), sym(f"lo{k}") + width] for k in range(d)])
    claim("odd number of points", [n % 2 for n in pot.seen[2]], [1] * d)
    claim("enough points", [n >= 501 and n >= 2 * width / bw for n in pot.seen[2]], [True] * d)


def poly_second(shape):
    """another polynomial of the same size was used before"""
    d = len(shape)
    first = PolynomialPotential(symarray("D", *shape), [(sym("lo"), sym("hi"))] * d)
    y = np.array([sym(f"x{k}") for k in range(d)])
    first.evaluate(y)
    first.energy(y)
    first.force(y)
    [poly1, poly2, poly3][d - 1](*shape)


def mueller_second():
    first = MuellerBrownPotential(psym("other"))
    first.evaluate(np.array([sym("x0"), sym("x1")]))
    mueller()
