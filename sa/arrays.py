"""Functional arrays: nested ``arr`` (known length) / ``map`` (symbolic length) of scalars.

Every numpy operation whose element-wise meaning is known is pushed to the elements, so
vectorised code, loops and comprehensions computing the same elements coincide.
"""
from .terms import *
from .terms import _sel
from . import terms as T


def rank(t):
    """number of axes if known (0 for scalars), else None"""
    o = t.op
    if o == "arr":
        return 1 + (rank(t.args[0][0]) or 0) if t.args[0] else 1 + (len(t.args[1].args[0]) if len(t.args) > 1 else 0)
    if o in ("map", "lmap"):
        r = rank(t.args[1])
        return None if r is None else 1 + r
    if o in ("fmap", "lfmap"):
        r = rank(t.args[2])
        return None if r is None else 1 + r
    if o == "cond2":
        return 1
    if o == "seq" or o == "tuple":
        e = elements(t)
        if e:
            r = rank(e[0])
            return None if r is None else 1 + r
        return 1
    if o == "reshape":
        e = elements(t.args[1])
        return None if e is None else len(e)
    if o == "empty":
        e = elements(t.args[0])
        return None if e is None else len(e)
    if o == "sel":
        rs = {rank(x) for x in t.args[1]}
        return rs.pop() if len(rs) == 1 else None
    if o in ("Force", "bcpos", "bcmom"):
        return 1
    if o in ("range", "repeat"):
        return 1
    if o == "store":
        return rank(t.args[0])
    if o == "shuffled":
        return rank(t.args[0])
    if o == "index" and t.args[1].op == "slice":
        return rank(t.args[0])
    if o in ("poly", "exp", "log", "abs", "powt"):
        rs = [rank(a) for a in leaves(t)]
        if any(r is None for r in rs):
            return None
        return max(rs or [0])
    if t in RANKS:
        return RANKS[t]
    k = kind(t)
    if k in ("array", "list"):
        return None
    return 0


RANKS = {}
STRUCT = ("arr", "map", "fmap", "cond2", "reshape", "empty")


def is_array(t):
    if t.op in STRUCT:
        return True
    if t.op == "sel":
        return any(is_array(x) for x in t.args[1])
    return kind(t) == "array"


def to_array(t):
    """value of np.array(t) for python nested lists (references already resolved)"""
    o = t.op
    if o in ("seq", "tuple"):
        e = elements(t)
        if e is not None:
            return arr(*[to_array(x) for x in e])
        if o == "seq":
            return mk("app", "np.array", (t,), ())
    if o == "lmap":
        n, (v,), (b,) = open_(t)
        return mapn("map", n, v, to_array(b))
    if o == "lfmap":
        n, (v,), (g, b) = open_(t)
        return fmapn("fmap", n, v, g, to_array(b))
    if o == "range":
        e = elements(t)
        if e is not None:
            return arr(*e)
        lo, hi, st = t.args
        v = fresh()
        return mapn("map", length(t), v, add(lo, mul(st, v)))
    if o == "repeat":
        e = elements(t)
        if e is not None:
            return arr(*[to_array(x) for x in e])
        e = elements(t.args[0])
        if e is not None and len(e) == 1:
            v = fresh()
            return mapn("map", t.args[1], v, to_array(e[0]))
    if o == "sel":
        return _sel(t.args[0], [to_array(x) for x in t.args[1]])
    if o == "flatmap":
        return mk("app", "np.array", (t,), ())
    if o == "shuffled":
        return mk("shuffled", to_array(t.args[0]), t.args[1])
    return t


def expand(t):
    """array terms of known concrete length that are not spelled out (Force, bcpos, ...)"""
    if t.op in ("Force", "bcpos", "bcmom"):
        n = T.LENGTH_OF.get(t)
        if n is not None and is_num(n):
            return arr(*[mk("index", t, num(i)) for i in range(int(n.args[0]))])
    return t


def ew(f, *xs):
    """apply the scalar function f elementwise with numpy broadcasting"""
    xs = [expand(x) for x in xs]
    if not any(is_array(x) for x in xs):
        return f(*xs)
    for k, x in enumerate(xs):
        if x.op == "sel" and is_array(x):
            # conditional arrays: distribute unless the condition itself varies per element
            return ite_any(x.args[0], [ew(f, *[b if j == k else y for j, y in enumerate(xs)])
                                       for b in x.args[1]])
        if x.op in ("seq", "tuple", "lmap", "range"):
            y = to_array(x)
            if y is not x:
                return ew(f, *[y if j == k else z for j, z in enumerate(xs)])
    sh = [x for x in xs if x.op == "reshape"]
    if sh:
        s0 = sh[0].args[1]
        if all(x.op == "reshape" and x.args[1] is s0 or rank(x) == 0 for x in xs):
            return reshape(ew(f, *[x.args[0] if x.op == "reshape" else x for x in xs]), s0)
        return mk("opaque", "broadcast of reshaped arrays", tuple(xs))
    rs = [rank(x) for x in xs]
    if any(r is None for r in rs):
        if all(not x.op in STRUCT for x in xs):
            return f(*xs)
        if all(r is None or r == 0 for r in rs):
            return f(*xs)
        return mk("opaque", "broadcast with array of unknown rank", tuple(xs))
    R = max(rs)
    lead = [x for x, r in zip(xs, rs) if r == R]
    n = None
    ops = {x.op for x in lead}
    if ops == {"cond2"}:
        if all(r == 0 or x.op == "cond2" for x, r in zip(xs, rs)) and len({x.args[0] for x in lead}) == 1:
            i, j = fresh(), fresh()
            args = [open_(x, [i, j])[2][0] if x.op == "cond2" else x for x in xs]
            return bind("cond2", lead[0].args[0], [i, j], ew(f, *args))
        return mk("opaque", "broadcast of condensed matrix", tuple(xs))
    lens = []
    for x in lead:
        if x.op not in ("arr", "map", "fmap"):
            return mk("opaque", "elementwise operation on " + x.op, tuple(xs))
    # unit-length broadcasting
    nonunit = [x for x in lead if not (length(x) is ONE)]
    use = nonunit or lead
    if any(x.op == "fmap" for x in use):
        if all(x.op == "fmap" for x in use):
            v = fresh()
            opened = [open_(x, [v])[2] for x in use]
            if len({x.args[0] for x in use}) == 1 and len({o[0] for o in opened}) == 1:
                it = iter(opened)
                args = [next(it)[1] if r == R and x in use else x for x, r in zip(xs, rs)]
                return fmapn("fmap", use[0].args[0], v, opened[0][0], ew(f, *args))
        return mk("opaque", "broadcast of filtered arrays", tuple(xs))

    def el(x, r, i):
        if r != R:
            return x
        if length(x) is ONE and nonunit:
            return index(x, ZERO)
        return index(x, i)
    if any(x.op == "arr" for x in use):
        k = [len(x.args[0]) for x in use if x.op == "arr"][0]
        if any(x.op == "arr" and len(x.args[0]) != k for x in use) or any(
                x.op == "map" and is_num(x.args[0]) and x.args[0].args[0] != k for x in use):
            return mk("opaque", "shape mismatch", tuple(xs))
        return arr(*[ew(f, *[el(x, r, num(i)) for x, r in zip(xs, rs)]) for i in range(k)])
    ns = {x.args[0] for x in use}
    if len(ns) != 1:
        return mk("opaque", "length mismatch", tuple(xs))
    v = fresh()
    return mapn("map", ns.pop(), v, ew(f, *[el(x, r, v) for x, r in zip(xs, rs)]))


def ite_any(atom, brs):
    return T.choose(atom, brs)


def where(c, a, b):
    return ew(lambda x, y, z: ite(x, y, z), c, a, b)


def shape_of(t):
    t = expand(t)
    if t.op == "reshape":
        return t.args[1]
    if t.op == "empty":
        return t.args[0]
    if t.op == "sel":
        return _sel(t.args[0], [shape_of(x) for x in t.args[1]])
    if t.op == "store":
        return shape_of(t.args[0])
    if t.op == "arr" and len(t.args) > 1:
        return tup(ZERO, *t.args[1].args[0])
    r = rank(t)
    if r is None:
        return mk("shape", t)
    dims = []
    x = t
    for _ in range(r):
        dims.append(length(x))
        if x.op in ("arr", "seq", "tuple") and elements(x):
            x = elements(x)[0]
        elif x.op in ("map", "lmap"):
            x = open_(x)[2][0]
        elif x.op in ("fmap", "lfmap"):
            x = open_(x)[2][1]
        elif x.op in SHAPES:
            return SHAPES[x.op](x)
        elif len(dims) < r:
            return mk("shape", t)
    return tup(*dims)


SHAPES = {}
REDUCE = {
    "sum": (lambda a, b: add(a, b), bigsum),
    "prod": (lambda a, b: mul(a, b), bigprod),
    "all": (lambda a, b: land(truth(a), truth(b)), bigall),
    "any": (lambda a, b: lor(truth(a), truth(b)), bigany),
    "min": (lambda a, b: ite(lt(b, a), b, a), lambda n, v, b: bigext("bigmin", n, v, b)),
    "max": (lambda a, b: ite(gt(b, a), b, a), lambda n, v, b: bigext("bigmax", n, v, b)),
}


def _scal(t):
    """booleans count as 0/1"""
    return ite(t, ONE, ZERO) if is_bool(t) and not is_const(t) else (
        ONE if t is TRUE else ZERO if t is FALSE else t)


def reduce_(kindname, t, axis=NONE):
    """sum / prod / all / any / min / max"""
    op2, big = REDUCE[kindname]
    t = to_array(expand(t))
    if t.op == "sel" and is_array(t):
        return ite_any(t.args[0], [reduce_(kindname, x, axis) for x in t.args[1]])
    if axis is NONE:
        if t.op == "reshape":
            return reduce_(kindname, t.args[0])
        r = rank(t)
        if r == 0:
            return _scal(t) if kindname in ("sum", "prod") else t
        if t.op == "arr":
            e = [reduce_(kindname, x) for x in t.args[0]]
            if not e:
                return {"sum": ZERO, "prod": ONE, "all": TRUE, "any": FALSE}.get(kindname, mk("opaque", "empty", ()))
            out = e[0]
            for x in e[1:]:
                out = op2(out, x)
            return out
        if t.op == "map":
            n, (v,), (b,) = open_(t)
            return big(n, v, reduce_(kindname, b))
        if t.op == "fmap":
            n, (v,), (g, b) = open_(t)
            b = reduce_(kindname, b)
            unit = {"sum": ZERO, "prod": ONE, "all": TRUE, "any": FALSE, "min": INF, "max": NINF}[kindname]
            return big(n, v, ite(g, b, unit))
        return mk("app", "np." + kindname, (t,), ())
    if is_num(axis):
        ax = int(axis.args[0])
        r = rank(t)
        if r is None:
            return mk("app", "np." + kindname, (t,), (("axis", axis),))
        if ax < 0:
            ax += r
        if t.op == "reshape":
            return mk("app", "np." + kindname, (t,), (("axis", num(ax)),))
        if ax == 0:
            if t.op == "arr":
                e = [_boolnum(kindname, x) for x in t.args[0]]
                out = e[0]
                for x in e[1:]:
                    out = ew(op2, out, x)
                return out
            if t.op == "map":
                n, (v,), (b,) = open_(t)
                return _push(n, v, b, kindname, big)
        elif t.op == "arr":
            return arr(*[reduce_(kindname, x, num(ax - 1)) for x in t.args[0]])
        elif t.op == "map":
            n, (v,), (b,) = open_(t)
            return mapn("map", n, v, reduce_(kindname, b, num(ax - 1)))
    return mk("app", "np." + kindname, (t,), (("axis", axis),))


def _boolnum(kindname, t):
    if kindname in ("sum", "prod"):
        return ew(_scal, t)
    return t


def _push(n, v, b, kindname, big):
    """big over v of an array-valued body -> array of bigs"""
    if b.op == "arr":
        return arr(*[_push(n, v, x, kindname, big) for x in b.args[0]])
    if b.op == "map":
        m, (w,), (bb,) = open_(b)
        if has_bv(m, v):
            return mk("opaque", "ragged", (b,))
        return mapn("map", m, w, _push(n, v, bb, kindname, big))
    if rank(b) == 0:
        return big(n, v, _scal(b) if kindname in ("sum", "prod") else b)
    return mk("opaque", "reduction", (n, b))


def count(t, axis=NONE):
    """number of elements"""
    if axis is NONE:
        if t.op == "reshape":
            return count(t.args[0])
        if t.op == "arr":
            return add(*[count(x) for x in t.args[0]]) if t.args[0] else ZERO
        if t.op == "map":
            n, (v,), (b,) = open_(t)
            return bigsum(n, v, count(b))
        if t.op == "fmap":
            n, (v,), (g, b) = open_(t)
            return bigsum(n, v, ite(g, count(b), ZERO))
        if rank(t) == 0:
            return ONE
        if t.op == "sel":
            return _sel(t.args[0], [count(x) for x in t.args[1]])
        return mk("size", t)
    s = elements(shape_of(t))
    if s is None:
        return mk("size", t, axis)
    return s[int(axis.args[0])]


def mean(t, axis=NONE):
    t = to_array(expand(t))
    if t.op == "sel" and is_array(t):
        return ite_any(t.args[0], [mean(x, axis) for x in t.args[1]])
    return ew(div, reduce_("sum", t, axis), count(t, axis))


# ---------------------------------------------------------------- shapes
def flat(t):
    """row-major flattened version"""
    if t.op == "reshape":
        return t.args[0]
    r = rank(t)
    if r == 1 or r == 0:
        return t
    if t.op == "arr" and all(x.op == "arr" for x in t.args[0]):
        return arr(*[y for x in t.args[0] for y in flat(x).args[0]]) if all(
            flat(x).op == "arr" for x in t.args[0]) else mk("flat", t)
    if t.op == "sel":
        return _sel(t.args[0], [flat(x) for x in t.args[1]])
    return mk("flat", t)


def reshape(t, shape):
    """t: array, shape: tuple/seq term or scalar term"""
    e = elements(shape)
    if e is None and rank(shape) == 0:
        e = [shape]
    if e is not None:
        shape = tup(*e)
    if t.op == "sel" and is_array(t):
        return ite_any(t.args[0], [reshape(x, shape) for x in t.args[1]])
    if t.op == "arr" and not t.args[0] and e is not None and all(is_num(x) for x in e):
        if len(e) > 1 and (e[0] is ZERO or e[0] is num(-1)):
            return mk("arr", (), tup(*e[1:]))
        return arr()
    cur = elements(shape_of(t))
    if cur is not None and e is not None and len(cur) == len(e):
        unknown = [k for k, x in enumerate(e) if x is num(-1)]
        if all(x is y for k, (x, y) in enumerate(zip(cur, e)) if k not in unknown) and len(unknown) <= 1:
            return t
    if e is not None and len(e) == 1:
        f = flat(t)
        if f.op == "flat" or rank(f) == 1:
            return f
    if e is not None and len(e) == 2 and rank(t) == 1 and cur is not None:
        # column / row vectors
        if e[1] is ONE and (e[0] is num(-1) or e[0] is cur[0]):
            if t.op == "arr":
                return arr(*[arr(x) for x in t.args[0]])
            if t.op == "map":
                n, (v,), (b,) = open_(t)
                return mapn("map", n, v, arr(b))
        if e[0] is ONE and (e[1] is num(-1) or e[1] is cur[0]):
            return arr(t)
    if e is not None and all(is_num(x) and x.args[0] > 0 for x in e):
        f = flat(t)
        if f.op == "arr":
            def build(xs, dims):
                if len(dims) == 1:
                    return arr(*xs)
                k = len(xs) // dims[0]
                return arr(*[build(xs[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])])
            dims = [int(x.args[0]) for x in e]
            p = 1
            for d in dims:
                p *= d
            if p == len(f.args[0]):
                return build(list(f.args[0]), dims)
    inner = t
    if t.op == "reshape":
        inner = t.args[0]
    elif t.op == "flat" :
        inner = t.args[0]
    elif rank(t) not in (None, 1):
        inner = t
    return mk("reshape", inner, shape)


T.REBUILD["reshape"] = lambda t, s: reshape(t, s)
T.REBUILD["flat"] = lambda t: flat(t)


def _tuple_index(t, i):
    """multi-axis indexing"""
    idx = list(i.args[0])
    if any(x.op == "c" and x.args[0] is Ellipsis for x in idx):
        r = rank(t)
        if r is None:
            return None
        k = [n for n, x in enumerate(idx) if x.op == "c" and x.args[0] is Ellipsis][0]
        fill = r - (len(idx) - 1)
        idx = idx[:k] + [mk("slice", NONE, NONE, NONE)] * fill + idx[k + 1:]
        return index(t, tup(*idx)) if len(idx) != 1 else index(t, idx[0])
    first, rest = idx[0], idx[1:]
    restt = rest[0] if len(rest) == 1 else tup(*rest)
    if t.op == "sel":
        return _sel(t.args[0], [index(x, i) for x in t.args[1]])
    if first.op == "slice":
        full = first.args[0] in (NONE, ZERO) and first.args[1] is NONE and first.args[2] in (NONE, ONE)
        if not full:
            base = index(t, first)
            if base.op == "index":
                # rows of a slice: select the columns first
                col = index(t, tup(mk("slice", NONE, NONE, NONE), *rest))
                if col.op != "index":
                    return index(col, first)
                return None
            t = base
        if t.op == "arr":
            return arr(*[index(x, restt) for x in t.args[0]])
        if t.op == "map":
            n, (v,), (b,) = open_(t)
            return mapn("map", n, v, index(b, restt))
        if t.op == "fmap":
            n, (v,), (g, b) = open_(t)
            return fmapn("fmap", n, v, g, index(b, restt))
        if t.op == "store" and t.args[1].op not in ("slice", "tuple") and full:
            return mk("store", index(t.args[0], i), t.args[1], index(t.args[2], restt))
        if t.op == "index" and t.args[1].op == "slice":
            col = index(t.args[0], i)
            if col.op != "index" or col.args[0] is not t.args[0]:
                return index(col, t.args[1])
        return None
    if first is NONE:  # newaxis
        return arr(index(t, restt))
    if t.op in ("arr", "map", "seq", "tuple", "lmap") and first.op not in ("tuple", "seq", "arr", "map"):
        return index(index(t, first), restt)
    return None


T.INDEX_HOOK["tuple"] = _tuple_index


def _any_index(t, i):
    # boolean masks
    if (i.op == "map" and is_bool(i.args[1])) and t.op == "map" and t.args[0] is i.args[0]:
        v = fresh()
        return fmapn("fmap", t.args[0], v, open_(i, [v])[2][0], open_(t, [v])[2][0])
    if i.op == "reshape" and t.op == "reshape":
        return index(t.args[0], i.args[0])
    if t.op == "reshape" and i.op == "map" and t.args[0].op == "map" and t.args[0].args[0] is i.args[0]:
        return index(t.args[0], i)
    if i.op == "arr" and t.op == "arr" and all(is_bool(x) for x in i.args[0]):
        if all(is_const(x) for x in i.args[0]):
            return arr(*[x for x, m in zip(t.args[0], i.args[0]) if m is TRUE])
        if len(t.args[0]) == len(i.args[0]):
            v = fresh()
            return fmapn("fmap", num(len(i.args[0])), v, index(i, v), index(t, v))
        return None
    if i.op == "arr" and i.args[0] and i.args[0][0].op == "arr":
        # nested masks select from the flattened leading axes
        r = rank(i)
        if t.op != "arr" or rank(t) is None or rank(t) < r:
            return None
        m, x = i, t
        for _ in range(r - 1):
            if any(y.op != "arr" for y in m.args[0] + x.args[0]) or len(m.args[0]) != len(x.args[0]):
                return None
            m = arr(*[z for y in m.args[0] for z in y.args[0]])
            x = arr(*[z for y in x.args[0] for z in y.args[0]])
        return _any_index(x, m) if all(is_bool(y) for y in m.args[0]) and len(m.args[0]) == len(x.args[0]) else None
    # integer fancy indexing
    if i.op in ("arr", "seq") and t.op in ("arr", "map") and not any(is_bool(x) for x in elements(i) or [TRUE]):
        return arr(*[index(t, x) for x in elements(i)])
    if i.op == "fmap" and t.op == "map" and rank(i) == 1:
        n, (v,), (g, b) = open_(i)
        if not is_bool(b):
            return fmapn("fmap", n, v, g, index(t, b))
    if i.op == "map" and t.op == "map" and not is_bool(i.args[1]) and rank(i) == 1:
        n, (v,), (b,) = open_(i)
        return mapn("map", n, v, index(t, b))
    if i is NONE:
        return arr(t)
    return None


T.INDEX_HOOK["any"] = (_any_index,)


def sel_map(t, f):
    """apply f to the leaves of a decision term"""
    if t.op == "sel":
        return T.choose(t.args[0], [sel_map(x, f) for x in t.args[1]])
    r = f(t)
    if r is None:
        raise T.Undecided("draw position")
    return r
