"""Free energy plots: what a figure shows when it is saved (stands in for matplotlib.pyplot)."""
import numpy as np
from vspec import sym, psym, claim, raises
from spec_ana import chain, surface
from bdld.actions.fes_action import FesAction, plot_fes

STATE = {"current": None, "saved": [], "asked": 0, "shown": 0}


class Nothing:
    """what is drawn besides the data"""

    def __call__(self, *a, **kw):
        return Nothing()

    def __getattr__(self, name):
        return Nothing()


class Axes:
    def __init__(self):
        self.curves = []
        self.images = []
        self.low = None
        self.high = None
        self.title = None
        self.transAxes = None

    def plot(self, *args, label=None, **kw):
        x = args[0]
        y = args[1]
        self.curves.append([label, x, y])
        return [Nothing()]

    def imshow(self, values, origin="upper", extent=None, vmin=None, vmax=None, **kw):
        """lines of an image are its rows"""
        v = [[x for x in row] for row in values]
        if origin == "upper":
            v = v[::-1]
        self.images.append([v, [x for x in extent], vmin, vmax])
        return Nothing()

    def set_ylim(self, bottom=None, top=None, ymin=None, ymax=None, **kw):
        if top is None and isinstance(bottom, (list, tuple)):
            self.low = bottom[0]
            self.high = bottom[1]
            return
        low = ymin if bottom is None else bottom
        high = ymax if top is None else top
        if low is not None:
            self.low = low
        if high is not None:
            self.high = high

    def set(self, ylim=None, **kw):
        if ylim is not None:
            self.set_ylim(ylim)

    def legend(self, *args, title=None, **kw):
        self.title = title
        return Nothing()

    def __getattr__(self, name):
        return Nothing()


class Figure:
    def __init__(self):
        self.axes = []
        self.dpi = 100

    def gca(self):
        if not self.axes:
            self.axes.append(Axes())
        return self.axes[-1]

    def add_subplot(self, *a, **kw):
        self.axes.append(Axes())
        return self.axes[-1]

    def add_axes(self, *a, **kw):
        self.axes.append(Axes())
        return self.axes[-1]

    def subplots(self, *a, **kw):
        return self.add_subplot()

    def savefig(self, name, **kw):
        """axes are frozen in their current state"""
        STATE["saved"].append([name, [[[c for c in a.curves], [i for i in a.images], a.low, a.high, a.title] for a in self.axes]])

    def show(self, *a, **kw):
        STATE["shown"] = STATE["shown"] + 1

    def __getattr__(self, name):
        return Nothing()


def figure(*a, **kw):
    f = Figure()
    STATE["current"] = f
    return f


def gcf():
    if STATE["current"] is None:
        return figure()
    return STATE["current"]


def gca():
    return gcf().gca()


def axes(*a, **kw):
    return gcf().add_subplot()


def subplot(*a, **kw):
    return gcf().add_subplot()


def subplots(*a, **kw):
    f = figure()
    return f, f.add_subplot()


def plot(*a, **kw):
    return gca().plot(*a, **kw)


def imshow(*a, **kw):
    return gca().imshow(*a, **kw)


def ylim(*a, **kw):
    return gca().set_ylim(*a, **kw)


def legend(*a, **kw):
    return gca().legend(*a, **kw)


def savefig(name, **kw):
    gcf().savefig(name)


def show(*a, **kw):
    gcf().show()


def close(which=None):
    if which is None or which is STATE["current"] or which == "all":
        STATE["current"] = None


def get_backend():
    return "agg"


def asked(*a):
    STATE["asked"] = STATE["asked"] + 1
    return ""


def named(curves, label):
    return [[[v for v in c[1]], [v for v in c[2]]] for c in curves if c[0] == label]


def saved(name):
    """what the last figure saved as a file shows"""
    r = [s[1] for s in STATE["saved"] if s[0] == name]
    return r[-1] if r else []


def files():
    return sorted([s[0] for s in STATE["saved"]])


def line(order, ref, domain, title, hole):
    """curves of a one-dimensional surface with energies of the given order"""
    n = len(order)
    x = [sym(f"x{i}") for i in range(n)]
    f = [sum([psym(f"f{j}") for j in range(i)]) for i in order]
    if hole:
        f[order.index(1)] = np.inf
    r = [sym(f"r{i}") for i in range(n)]
    dom = (sym("lo"), sym("hi")) if domain else None
    plot_fes(np.array(f), [np.array(x)], np.array(r) if ref else None, dom, "out.png", title)
    claim("file", files(), ["out.png"])
    claim("not interactive", [STATE["asked"], STATE["shown"]], [0, 0])
    a = saved("out.png")
    claim("one diagram", len(a), 1)
    curves, images, low, high, t = a[0]
    claim("surface", named(curves, "FES"), [[x, f]])
    claim("reference", named(curves, "ref"), [[x, r]] if ref else [])
    claim("nothing else", len(curves) + len(images), 2 if ref else 1)
    claim("title", t, title)
    if domain:
        claim("range of energies", [low, high], [sym("lo"), sym("hi")])
    else:
        claim("all finite energies are in range", [low <= v and v <= high for v in f if v != np.inf], [True for v in f if v != np.inf])


def image(n, m, domain, hole):
    """image of a two-dimensional surface: horizontal is the first coordinate"""
    x = [sym(f"x{i}") for i in range(n)]
    y = [sym(f"y{i}") for i in range(m)]
    f = [[psym(f"f{i}_{j}") for j in range(m)] for i in range(n)]
    if hole:
        f[0][1] = np.inf
    dom = (sym("lo"), sym("hi")) if domain else None
    plot_fes(np.array(f), [np.array(x), np.array(y)], None, dom, "out.png")
    claim("file", files(), ["out.png"])
    claim("not interactive", [STATE["asked"], STATE["shown"]], [0, 0])
    a = saved("out.png")
    claim("one image", [[len(d[0]), len(d[1])] for d in a], [[0, 1]])
    v, extent, low, high = a[0][1][0]
    claim("surface", v, [[f[i][j] for i in range(n)] for j in range(m)])
    claim("axes", extent, [x[0], x[-1], y[0], y[-1]])
    claim("range of energies", [low, high], [sym("lo"), sym("hi")] if domain else [None, None])


def space():
    """more dimensions are ignored"""
    f = np.array([[[sym(f"f{i}{j}{k}") for k in range(2)] for j in range(2)] for i in range(2)])
    x = np.array([sym("x0"), sym("x1")])
    claim("no error", raises("Exception", plot_fes, f, [x, x, x], None, None, "out.png"), False)
    claim("not interactive", [STATE["asked"], STATE["shown"]], [0, 0])


def action(stride, pstride, steps, name, parts, title, with_ref):
    """plots of the action show the surface at that time"""
    h = chain(1, 1, 1, [2], [(0, 2)])
    kt = psym("ktf")
    ref = [sym("r0"), sym("r1")]
    dom = [sym("lo"), sym("hi")]
    f = FesAction(h, stride, None, None, None, pstride, name, dom, title, np.array(ref) if with_ref else None, kt)
    names = []
    now = [np.inf, np.inf]
    for s in range(1, steps + 1):
        h.histo.data = np.array([psym(f"a{s}"), psym(f"b{s}")])
        f.run(s)
        if stride and s % stride == 0:
            now = surface([psym(f"a{s}"), psym(f"b{s}")], kt)
        if pstride and s % pstride == 0:
            p = f"{parts[0]}_{s}{parts[1]}"
            names.append(p)
            check(p, now, ref if with_ref else None, dom)
        claim("files during the run", files(), sorted(names))
    f.final_run(steps)
    check(name, surface([psym(f"a{steps}"), psym(f"b{steps}")], kt), ref if with_ref else None, dom)
    claim("files", files(), sorted(names + [name]))
    claim("not interactive", [STATE["asked"], STATE["shown"]], [0, 0])


def check(name, f, ref, dom):
    a = saved(name)
    claim("one diagram", len(a), 1)
    claim("surface", named(a[0][0], "FES"), [[[1 / 2, 3 / 2], f]])
    claim("reference", named(a[0][0], "ref"), [[[1 / 2, 3 / 2], ref]] if ref else [])
    claim("range of energies", [a[0][2], a[0][3]], dom)


def unnamed(stride):
    """no plot without a file name"""
    h = chain(1, 1, 1, [2], [(0, 2)])
    f = FesAction(h, stride, "fes", stride, None, None, None, None, None, None, psym("ktf"))
    for s in range(1, 4):
        h.histo.data = np.array([psym(f"a{s}"), psym(f"b{s}")])
        f.run(s)
    f.final_run(3)
    claim("no plot", [files(), STATE["asked"], STATE["shown"]], [[], 0, 0])
