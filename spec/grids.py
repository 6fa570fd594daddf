"""Grids: construction, arithmetic, interpolation, convolution, files."""
import numpy as np
from vspec import sym, psym, claim, symarray, psymarray, raises, rows, headers, same_object
from scipy.interpolate import griddata
from bdld import grid
from bdld.grid import Grid, from_npoints, from_stepsizes, sparsify, convolve


def ranges(d):
    return [(sym(f"lo{k}"), sym(f"lo{k}") + psym(f"w{k}")) for k in range(d)]


def flat(a):
    return [v for v in a.flatten()]


def count(shape):
    n = 1
    for s in shape:
        n = n * s
    return n


def make(name, shape):
    g = from_npoints(ranges(len(shape)), [s for s in shape])
    g.data = psymarray(name, *shape)
    return g


def axis(k, n):
    return [sym(f"lo{k}") + psym(f"w{k}") * i / (n - 1) for i in range(n)]


def same_points(label, g, shape):
    d = len(shape)
    claim(label + ": number of points", [v for v in g.n_points], [s for s in shape])
    claim(label + ": ranges", [[v for v in r] for r in g.ranges], [[v for v in r] for r in ranges(d)])
    claim(label + ": step sizes", [v for v in g.stepsizes], [psym(f"w{k}") / (shape[k] - 1) for k in range(d)])
    claim(label + ": dimension", g.n_dim, d)


def apply(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        return a / b
    if op == "pow":
        return a ** b
    if op == "mod":
        return a % b
    return a // b


def arithmetic(op, shape):
    a, b = make("A", shape), make("B", shape)
    va, vb = flat(a.data), flat(b.data)
    n = count(shape)
    r = apply(op, a, b)
    claim("grid and grid", flat(r.data), [apply(op, va[i], vb[i]) for i in range(n)])
    same_points("result", r, shape)
    claim("left operand", flat(a.data), va)
    claim("right operand", flat(b.data), vb)
    claim("result is a new grid", [same_object(r, a), same_object(r, b)], [False, False])
    s = apply(op, a, 3)
    claim("grid and number", flat(s.data), [apply(op, va[i], 3) for i in range(n)])
    same_points("number", s, shape)
    x = sym("number")
    if op != "pow" and op != "mod" and op != "floordiv":
        t = apply(op, a, x)
        claim("grid and float", flat(t.data), [apply(op, va[i], x) for i in range(n)])
    arr_ = psymarray("C", *shape)
    u = apply(op, a, arr_)
    claim("grid and array", flat(u.data), [apply(op, va[i], flat(psymarray("C", *shape))[i]) for i in range(n)])
    claim("array unchanged", flat(arr_), flat(psymarray("C", *shape)))
    # later changes of the result stay there
    zero = tuple([0] * len(shape))
    r[zero] = 5
    s[zero] = 6
    u[zero] = 7
    claim("left operand after changing the results", flat(a.data), va)
    claim("right operand after changing the results", flat(b.data), vb)
    claim("changed element", r[zero], 5)


def unary(shape):
    a = make("A", shape)
    va = flat(a.data)
    zero = tuple([0] * len(shape))
    r, s = -a, +a
    claim("negative", flat(r.data), [-v for v in va])
    claim("positive", flat(s.data), va)
    e, l = np.exp(a), np.log(a)
    claim("exp", flat(e.data), [np.exp(v) for v in va])
    claim("log", flat(l.data), [np.log(v) for v in va])
    for g in (r, s, e, l):
        same_points("result", g, shape)
        g[zero] = 1
    claim("operand", flat(a.data), va)
    for g in (r, s, e, l, a + a, a * 2, a - 1):
        loose(g)
    same_points("operand after changing the lists of the results", a, shape)
    for f in (rsub_, rdiv_, rpow_, rmod_):
        if not raises("TypeError", f, 2, a):
            x = f(2, a)
            claim("number on the left", flat(x.data), [f(2, v) for v in va])
    claim("right addition", flat((2 + a).data), [2 + v for v in va])
    claim("right multiplication", flat((2 * a).data), [2 * v for v in va])


def loose(g):
    """change what describes the points of a grid"""
    for x, v in ((g.n_points, 17), (g.ranges, (17, 19)), (g.stepsizes, 17)):
        if isinstance(x, list):
            x[0] = v


def rsub_(x, y):
    return x - y


def rdiv_(x, y):
    return x / y


def rpow_(x, y):
    return x ** y


def rmod_(x, y):
    return x % y


def inplace(op, shape):
    a, b = make("A", shape), make("B", shape)
    va, vb = flat(a.data), flat(b.data)
    n = count(shape)
    if op == "add":
        a += b
    elif op == "sub":
        a -= b
    elif op == "mul":
        a *= b
    else:
        a /= b
    claim("result", flat(a.data), [apply(op, va[i], vb[i]) for i in range(n)])
    claim("right operand", flat(b.data), vb)
    same_points("result", a, shape)
    c = make("A", shape)
    if op == "add":
        c += 3
    elif op == "sub":
        c -= 3
    elif op == "mul":
        c *= 3
    else:
        c /= 3
    claim("with number", flat(c.data), [apply(op, va[i], 3) for i in range(n)])


def add_(a, b):
    return a + b


def sub_(a, b):
    return a - b


def mul_(a, b):
    return a * b


def div_(a, b):
    return a / b


def iadd_(a, b):
    a += b


def isub_(a, b):
    a -= b


def imul_(a, b):
    a *= b


def idiv_(a, b):
    a /= b


def incompatible():
    a = make("A", [3])
    more = make("B", [4])
    shifted = from_npoints([(sym("lo0") + 1, sym("lo0") + psym("w0") + 1)], [3])
    shifted.data = symarray("C", 3)
    wider = from_npoints([(sym("lo0"), sym("lo0") + psym("w0") + 1)], [3])
    wider.data = symarray("D", 3)
    near = from_npoints([(sym("lo0") + psym("w0") / 100, sym("lo0") + psym("w0") + psym("w0") / 100)], [3])
    near.data = symarray("H", 3)
    one, nearly = from_npoints([(0.0, 1.0)], [3]), from_npoints([(0.0, 1.0000001)], [3])
    one.data, nearly.data = symarray("I", 3), symarray("J", 3)
    same = make("E", [3])
    two = make("F", [3, 2])
    swapped = make("G", [2, 3])
    for f in (add_, sub_, mul_, div_, iadd_, isub_, imul_, idiv_):
        claim("different number of points", raises("ValueError", f, a, more), True)
        claim("shifted", raises("ValueError", f, a, shifted), True)
        claim("shifted a little", raises("ValueError", f, a, near), True)
        claim("wider", raises("ValueError", f, a, wider), True)
        claim("a very little wider", raises("ValueError", f, one, nearly), True)
        claim("same points", raises("ValueError", f, a, same), False)
        claim("swapped dimensions", raises("ValueError", f, two, swapped), True)
        claim("text", raises("ValueError", f, a, "3"), True)
        claim("nothing", raises("ValueError", f, a, None), True)


def equality():
    a, b = make("A", [3]), make("A", [3])
    claim("equal", a == b, True)
    one, nearly = from_npoints([(0.0, 1.0)], [3]), from_npoints([(0.0, 1.0000001)], [3])
    one.data, nearly.data = symarray("I", 3), symarray("I", 3)
    claim("equal values at other points", one == nearly, False)
    b[1] = sym("other")
    claim("different value", a == b, flat(a.data)[1] == sym("other"))


# ---------------------------------------------------------------- construction
def construct(shape):
    d = len(shape)
    g = from_npoints(ranges(d), [s for s in shape])
    same_points("grid", g, shape)
    for k in range(d):
        claim("axis", [v for v in g.axes()[k]], axis(k, shape[k]))
    pts = [[]]
    for k in range(d):
        pts = [p + [v] for p in pts for v in axis(k, shape[k])]
    claim("points in row-major order", [[v for v in p] for p in g.points()], pts)
    g.set_from_func(energy)
    claim("values belong to their points", flat(g.data), [energy(p) for p in pts])
    claim("shape of the data", [v for v in g.data.shape], [s for s in shape])


def energy(p):
    r = 0
    for k in range(len(p)):
        r = 7 * r + sym(f"k{k}") * p[k] ** 2 + p[k]
    return r


def one_number(d, n):
    g = from_npoints(ranges(d), n)
    same_points("grid", g, [n] * d)


def wrong_sizes():
    g = make("A", [2, 3])
    for m in (1, 4, 5, 7, 12):
        claim("data of another size is refused", raises("ValueError", set_data, g, symarray("X", m)), True)
    claim("flat data of the right size", raises("ValueError", set_data, g, symarray("Y", 6)), False)
    claim("dimension mismatch is refused", raises("ValueError", from_npoints, ranges(2), [3]), True)
    claim("dimension mismatch is refused", raises("ValueError", from_npoints, ranges(1), [3, 3]), True)
    claim("matching dimension", raises("ValueError", from_npoints, ranges(2), [3, 4]), False)


def set_data(g, v):
    g.data = v


def own_lists():
    r, n = ranges(2), [2, 3]
    g = from_npoints(r, n)
    r.append((0, 1))
    n[0] = 17
    same_points("after changing the caller's lists", g, [2, 3])
    c = g.copy_empty()
    c.n_points[1] = 9
    c.ranges[0] = (0, 1)
    c.stepsizes[0] = 5
    same_points("after changing the copy", g, [2, 3])


def steps_exact(k, m):
    """steps fit exactly"""
    w = [psym("s0"), psym("s1")]
    lo = [sym("lo0"), sym("lo1")]
    g = from_stepsizes([(lo[0], lo[0] + k * w[0]), (lo[1], lo[1] + m * w[1])], [w[0], w[1]])
    claim("points", [v for v in g.n_points], [k + 1, m + 1])
    claim("ranges", [[v for v in r] for r in g.ranges], [[lo[0], lo[0] + k * w[0]], [lo[1], lo[1] + m * w[1]]])
    claim("axis", [v for v in g.axes()[0]], [lo[0] + i * w[0] for i in range(k + 1)])
    claim("step sizes", [v for v in g.stepsizes], w)
    claim("dimension", g.n_dim, 2)


def steps_extend(k, num, den):
    """the upper end is extended to the next full step, or shrunk if asked for"""
    w, lo = psym("s0"), sym("lo0")
    g = from_stepsizes([(lo, lo + (k + num / den) * w)], [w])
    claim("extended points", [v for v in g.n_points], [k + 2])
    claim("extended range", [[v for v in r] for r in g.ranges], [[lo, lo + (k + 1) * w]])
    claim("extended axis", [v for v in g.axes()[0]], [lo + i * w for i in range(k + 2)])
    h = from_stepsizes([(lo, lo + (k + num / den) * w)], [w], True)
    claim("shrunk points", [v for v in h.n_points], [k + 1])
    claim("shrunk range", [[v for v in r] for r in h.ranges], [[lo, lo + k * w]])


def steps_number(d, k):
    g = from_stepsizes([(0, k)] * d, 0.5)
    claim("points", [v for v in g.n_points], [2 * k + 1] * d)
    claim("step sizes", [v for v in g.stepsizes], [0.5] * d)


# ---------------------------------------------------------------- operations
def conv_valid(n, m):
    w = psym("s")
    a = from_npoints([(sym("lo0"), sym("lo0") + w * (n - 1))], [n])
    b = from_npoints([(sym("lo1"), sym("lo1") + w * (m - 1))], [m])
    a.data, b.data = symarray("A", n), symarray("B", m)
    x, y = flat(symarray("A", n)), flat(symarray("B", m))
    for l, s in ((a, b), (b, a)):
        r = convolve(l, s, "valid", "direct")
        claim("valid: values", flat(r.data), [w * sum([x[i + m - 1 - j] * y[j] for j in range(m)]) for i in range(n - m + 1)])
        claim("valid: points", [v for v in r.n_points], [n - m + 1])
        claim("valid: ranges", [[v for v in q] for q in r.ranges], [[sym("lo0") + w * (m - 1) / 2, sym("lo0") + w * (n - 1) - w * (m - 1) / 2]])
    claim("operand", flat(a.data), x)
    claim("operand", flat(b.data), y)


def conv_same(n, m):
    w = psym("s")
    a = from_npoints([(sym("lo0"), sym("lo0") + w * (n - 1))], [n])
    b = from_npoints([(sym("lo1"), sym("lo1") + w * (m - 1))], [m])
    a.data, b.data = symarray("A", n), symarray("B", m)
    x, y = flat(symarray("A", n)), flat(symarray("B", m))
    r = convolve(a, b, "same")
    c = (m - 1) // 2
    claim("same: values", flat(r.data), [w * sum([x[i + c - j] * y[j] for j in range(m) if 0 <= i + c - j < n]) for i in range(n)])
    claim("same: points", [[v for v in q] for q in r.ranges], [[v for v in q] for q in a.ranges])
    claim("operand", flat(a.data), x)


def conv_2d():
    w = [psym("s0"), psym("s1")]
    a = from_npoints([(0, 3 * w[0]), (1, 1 + 2 * w[1])], [4, 3])
    b = from_npoints([(0, w[0]), (0, w[1])], [2, 2])
    a.data, b.data = symarray("A", 4, 3), symarray("B", 2, 2)
    x, y = symarray("A", 4, 3), symarray("B", 2, 2)
    r = convolve(a, b)
    claim("2d: values", [[r.data[i][j] for j in range(2)] for i in range(3)],
          [[w[0] * w[1] * sum([x[i + 1 - p][j + 1 - q] * y[p][q] for p in range(2) for q in range(2)]) for j in range(2)] for i in range(3)])
    claim("2d: ranges", [[v for v in q] for q in r.ranges], [[w[0] / 2, 5 * w[0] / 2], [1 + w[1] / 2, 1 + 3 * w[1] / 2]])


def conv_refuse():
    a = from_npoints([(0, 4)], [5])
    b = from_npoints([(0, 2)], [5])
    c = from_npoints([(0, 2)], [3])
    a.data, b.data, c.data = symarray("A", 5), symarray("B", 5), symarray("C", 3)
    claim("different spacing", raises("ValueError", convolve, a, b), True)
    claim("same spacing", raises("ValueError", convolve, a, c), False)
    claim("full", raises("NotImplementedError", convolve, a, c, "full"), True)


def at_nodes(shape):
    g = make("A", shape)
    claim("interpolation reproduces the values", [v for v in g.interpolate(g.points())], flat(g.data))
    claim("unchanged", flat(g.data), flat(make("A", shape).data))
    g.data = symarray("Z", *shape)
    claim("values after setting others", [v for v in g.interpolate(g.points())], flat(symarray("Z", *shape)))
    g *= 2
    claim("values after changing them", [v for v in g.interpolate(g.points())], [2 * v for v in flat(symarray("Z", *shape))])


def sparse1(n, k):
    g = from_npoints([(0, n - 1)], [n])
    g.data = symarray("A", n)
    s = sparsify(g, [k])
    m = min(n, k)
    claim("points", [v for v in s.n_points], [m])
    claim("range", [[v for v in r] for r in s.ranges], [[0, n - 1]])
    if (n - 1) % (m - 1) == 0:
        f = (n - 1) // (m - 1)
        claim("values", flat(s.data), [flat(symarray("A", n))[f * i] for i in range(m)])
    claim("original", flat(g.data), flat(symarray("A", n)))
    s[0] = 99
    claim("original after changing the copy", flat(g.data), flat(symarray("A", n)))


def sparse2():
    g = from_npoints([(0, 4), (0, 2)], [5, 3])
    g.data = symarray("A", 5, 3)
    s = sparsify(g, [3, 7])
    a = symarray("A", 5, 3)
    claim("points", [v for v in s.n_points], [3, 3])
    claim("values", [[s.data[i][j] for j in range(3)] for i in range(3)], [[a[2 * i][j] for j in range(3)] for i in range(3)])


def to_file(shape):
    g = make("A", shape)
    g.write_to_file("out", "%.3f", "header")
    d = len(shape)
    pts = [[]]
    for k in range(d):
        pts = [p + [v] for p in pts for v in axis(k, shape[k])]
    v = flat(g.data)
    claim("rows", [r for r in rows("out")], [pts[i] + [v[i]] for i in range(len(pts))])


def between(shape, fewer, method):
    """values between the points come from the interpolation asked for"""
    d = len(shape)
    g = from_npoints([(0, 1 + k) for k in range(d)], shape)
    g.data = symarray("A", *shape)
    s = sparsify(g, fewer, method) if method else sparsify(g, fewer)
    pts = [[]]
    for k in range(d):
        pts = [p + [(1 + k) * i / (fewer[k] - 1)] for p in pts for i in range(fewer[k])]
    want = griddata(g.points(), np.array(flat(symarray("A", *shape))), np.array(pts), method or "linear")
    claim("values between the points", flat(s.data), [v for v in want])
    own = g.interpolate(np.array(pts), method) if method else g.interpolate(np.array(pts))
    claim("values of the interpolation", [v for v in own], [v for v in want])
    filled = g.interpolate(np.array(pts), "linear", 0.0)
    claim("values with a given value outside", [v for v in filled], [v for v in griddata(g.points(), np.array(flat(symarray("A", *shape))), np.array(pts), "linear", 0.0)])
