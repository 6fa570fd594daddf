"""Library semantics (builtins, numpy, scipy, copy, operator, ...) as term transformers."""
import ast
from fractions import Fraction

from . import terms as T
from .terms import *
from .terms import _sel
from . import arrays as A
from .arrays import ew, to_array, is_array, rank
from .lower import (UNDEF, Unsupported, is_ref, refkind, mk_store, mkfstr, opaque, EXC_BASES, _likeshape)

CLASS_OF = {}      # symbolic objects with a known class
ABSTRACT = set()   # references whose methods are replaced by overrides
UNINIT = mk("uninit")
IGNORED = {"builtins.print"}
IGNORED_PREFIX = ("logging.", "warnings.", "matplotlib.", "sys.stdout", "sys.stderr", "pprint.")
NONDET = ("time.", "random.", "datetime.", "os.urandom", "uuid.", "secrets.", "os.getpid", "platform.", "socket.")
E = lambda *xs: mk("app", *xs)


def canon_name(n):
    if n == "np" or n.startswith("np."):
        return "numpy" + n[2:]
    if n.startswith("numpy.polynomial.polynomial"):
        return n
    return n


CONSTS = {"numpy.pi": PI, "math.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.Inf": INF, "numpy.nan": NAN,
          "math.nan": NAN, "numpy.newaxis": NONE, "numpy.NINF": NINF, "scipy.pi": PI, "numpy.e": exp(ONE), "math.e": exp(ONE)}


def ext_attr(ev, base, name):
    full = canon_name(f"{base}.{name}")
    if full in CONSTS:
        return CONSTS[full]
    return mk("ext", full)


# ---------------------------------------------------------------- arrays
def mkempty(shape, fill=None):
    """array of the given shape (tuple term or scalar)"""
    e = elements(shape)
    if e is None:
        if rank(shape) == 0:
            e = [shape]
        else:
            return mk("empty", shape) if fill is None else opaque("full", shape)

    def rec(dims):
        if not dims:
            return UNINIT if fill is None else fill
        d = dims[0]
        if is_num(d) and d.args[0] <= 256:
            return arr(*[rec(dims[1:]) for _ in range(int(d.args[0]))])
        v = fresh()
        return bind("map", d, v, rec(dims[1:]))
    return rec(e)


def build(dims, f):
    """nested array with elements f(i, j, ...)"""
    def rec(ds, idx):
        if not ds:
            return f(*idx)
        d = ds[0]
        if is_num(d) and d.args[0] <= 256:
            return arr(*[rec(ds[1:], idx + (num(k),)) for k in range(int(d.args[0]))])
        v = fresh()
        return mapn("map", d, v, rec(ds[1:], idx + (v,)))
    return rec(list(dims), ())


def stackn(ts):
    """stack along a new last axis"""
    t0 = ts[0]
    if t0.op == "arr":
        return arr(*[stackn([index(t, num(k)) for t in ts]) for k in range(len(t0.args[0]))])
    if t0.op == "map":
        n, (v,), (b,) = open_(t0)
        return mapn("map", n, v, stackn([b] + [index(t, v) for t in ts[1:]]))
    if rank(t0) == 0:
        return arr(*ts)
    return mk("app", "np.stack", (arr(*ts),), (("axis", num(-1)),))


def array_store(ev, base, i, v):
    if base.op == "sel":
        return A.ite_any(base.args[0], [array_store(ev, x, i, v) for x in base.args[1]])
    if base.op == "empty":
        e = elements(base.args[0])
        if e is not None:
            base = mkempty(tup(*e))
    if i.op == "tuple" and len(i.args[0]) == 1:
        i = i.args[0][0]
    if i.op == "c" and i.args[0] is Ellipsis or (i.op == "slice" and i.args[0] in (NONE, ZERO) and i.args[1] is NONE and i.args[2] in (NONE, ONE)):
        return _fit(v, base)
    if i.op == "tuple":
        first, rest = i.args[0][0], i.args[0][1:]
        rest = rest[0] if len(rest) == 1 else tup(*rest)
        if first.op == "c" and first.args[0] is Ellipsis:
            r = rank(base)
            if r is not None:
                k = r - (len(i.args[0]) - 1)
                return array_store(ev, base, tup(*([mk("slice", NONE, NONE, NONE)] * k), *i.args[0][1:]), v)
        if first.op == "slice":
            full = first.args[0] in (NONE, ZERO) and first.args[1] is NONE and first.args[2] in (NONE, ONE)
            if full and base.op == "arr":
                vs = _rows(v, base, rest)
                return arr(*[array_store(ev, x, rest, index(v, num(k)) if vs else v) for k, x in enumerate(base.args[0])])
            if full and base.op == "map":
                n, (w,), (b,) = open_(base)
                vs = _rows(v, base, rest)
                return mapn("map", n, w, array_store(ev, b, rest, index(v, w) if vs else v))
            return opaque("slice store", base, i, v)
        if first.op not in ("arr", "map", "fmap", "seq"):
            return mk_store(base, first, array_store(ev, index(base, first), rest, v))
        return opaque("fancy store", base, i, v)
    if i.op == "seq":
        i = to_array(i)
    if i.op == "slice":
        e = elements(base)
        if e is not None and all(x is NONE or is_num(x) for x in i.args):
            ks = list(range(len(e)))[slice(*[None if x is NONE else int(x.args[0]) for x in i.args])]
            for p, k in enumerate(ks):
                e[k] = index(v, num(p)) if rank(v) not in (0,) and (rank(v) or 1) >= (rank(base) or 1) else v
            return arr(*e)
        return opaque("slice store", base, i, v)
    if i.op in ("arr", "map", "fmap") and A.is_array(i):
        b0 = _first_leaf(i)
        if b0 is not None and is_bool(b0):
            if rank(i) == 1 and (rank(base) or 1) > 1 and rank(v) == 0:
                e, k = elements(base), elements(i)
                if e is not None and k is not None and len(e) == len(k):
                    return arr(*[ew(lambda m, x, y: ite(m, x, y), m, v, b) for m, b in zip(k, e)])
                return opaque("mask store", base, i, v)
            return ew(lambda m, x, y: ite(m, x, y), i, v, base) if rank(v) == 0 else mask_store(base, i, v)
        e, k = elements(base), elements(i)
        if e is not None and k is not None and all(is_num(x) and -len(e) <= x.args[0] < len(e) for x in k):
            each = rank(v) not in (0, None) and rank(v) == rank(base)
            if rank(v) == 0 or each and length(v) is num(len(k)):
                for p, x in enumerate(k):
                    e[int(x.args[0])] = index(v, num(p)) if each else _likeshape(v, e[int(x.args[0])])
                return arr(*e)
        return opaque("fancy store", base, i, v)
    # scalar index
    el = index(base, i)
    r = rank(el)
    if r and rank(v) == 0:
        v = _likeshape(v, el)
    return mk_store(base, i, v)


def mask_store(base, m, v):
    """base[m] = v for a boolean mask and an array of values"""
    ri = rank(m)
    if ri and ri > 1 and rank(base) == ri:
        sh = A.shape_of(base)
        if sh is None or base.op != "arr" or m.op != "arr":
            return opaque("mask store", base, m, v)
        r = mask_store(flatten(base), flatten(m), v)
        return r if r.op == "opaque" else A.reshape(r, sh)
    e, k = elements(base), elements(m)
    if ri == 1 and e is not None and k is not None and len(e) == len(k):
        if all(is_const(x) for x in k):
            n = sum(x is TRUE for x in k)
            if rank(v) == rank(base) and length(v) is num(n):
                p = 0
                for j, x in enumerate(k):
                    if x is TRUE:
                        e[j] = index(v, num(p))
                        p += 1
                return arr(*e)
            if length(v) is ONE:
                return mask_store(base, m, arr(*[index(v, ZERO)] * n))
        if v.op == "fmap" and v.args[0] is num(len(k)):
            got = [open_(v, [num(j)])[2] for j in range(len(k))]
            if all(g is x for (g, _), x in zip(got, k)):
                return arr(*[ew(lambda c, a, b: ite(c, a, b), x, y, z) for x, (_, y), z in zip(k, got, e)])
    if ri == 1 and m.op == "map" and v.op == "fmap" and base.op == "map" and m.args[0] is v.args[0] is base.args[0]:
        w = fresh()
        g, b = open_(v, [w])[2]
        c = open_(m, [w])[2][0]
        if g is c:
            return mapn("map", m.args[0], w, ew(lambda c, a, b: ite(c, a, b), c, b, open_(base, [w])[2][0]))
    return opaque("mask store", base, m, v)


def _fit(v, base):
    return _likeshape(v, base)


def _rows(v, base, rest):
    """does the value have one entry per row of base?"""
    rv = rank(v)
    if rv in (0, None):
        return False
    rb = rank(base)
    nfix = 1 if rest.op not in ("tuple", "slice") else sum(1 for x in (rest.args[0] if rest.op == "tuple" else []) if x.op != "slice")
    return rv == (rb or 0) - nfix


def _first_leaf(t):
    while t.op in ("arr", "map"):
        if t.op == "arr":
            if not t.args[0]:
                return None
            t = t.args[0][0]
        else:
            t = open_(t)[2][0]
    return t


def _index_more(t, i):
    if t.op == "empty" and i.op not in ("slice", "tuple", "arr", "map"):
        e = elements(t.args[0])
        if e is not None and len(e) > 1:
            return mkempty(tup(*e[1:]))
        if e is not None:
            return UNINIT
    if t.op == "store" and i.op not in ("slice", "tuple", "arr", "map", "fmap", "seq", "c", "sel") and t.args[1].op not in (
            "slice", "tuple", "arr", "map", "fmap", "c"):
        j = t.args[1]
        if is_num(j) and j.args[0] < 0 or is_num(i) and i.args[0] < 0:
            return None
        return ite(eq(i, j), t.args[2], index(t.args[0], i))
    if t.op == "smap":
        n, (v,), (b0, ix, body) = open_(t)
        if ix is v and i is n:
            return index(b0, i)
    if t.op == "shape" and is_num(i):
        ln = T.LENGTH_OF.get(t.args[0])
        if i is ZERO:
            return length(t.args[0])
    if t.op == "dict" and i.op == "c":
        return None
    if t.op in ("mod", "poly", "exp", "log", "abs", "powt") and i.op not in ("c",) and kind(t) == "array":
        return None
    return None


T.INDEX_HOOK["any"] = T.INDEX_HOOK["any"] + (_index_more,)


def maplike(c):
    """a dictionary, possibly with entries whose keys may coincide"""
    while c.op == "store":
        c = c.args[0]
    return all(maplike(x) for x in c.args[1]) if c.op == "sel" else c.op == "dict"


def contains_val(c, x):
    """x in c for pure values"""
    if c.op == "sel":
        return A.ite_any(c.args[0], [contains_val(y, x) for y in c.args[1]])
    if c.op == "dict":
        return lor(*[eq(k, x) for k, _ in c.args[0]])
    if c.op == "store" and maplike(c):
        return lor(eq(c.args[1], x), contains_val(c.args[0], x))
    if c.op == "c" and isinstance(c.args[0], str):
        if x.op == "c":
            return const(x.args[0] in c.args[0])
        return batom(mk("in", x, c))
    if c.op == "fstr" and x.op == "c" and isinstance(x.args[0], str) and any(isinstance(y, str) and x.args[0] in y or isinstance(y, Term) and y.op == "c" and isinstance(y.args[0], str) and x.args[0] in y.args[0] for y in c.args[0]):
        return TRUE
    e = elements(c)
    if e is not None:
        return lor(*[eq(x, y) for y in e])
    if c.op == "seq":
        r = FALSE
        for k, y in c.args[0]:
            r = lor(r, eq(x, y) if k == "e" else contains_val(y, x))
        return r
    if c.op in ("lmap", "map"):
        n, (v,), (b,) = open_(c)
        return bigany(n, v, eq(x, b))
    if c.op in ("lfmap", "fmap"):
        n, (v,), (g, b) = open_(c)
        return bigany(n, v, land(g, eq(x, b)))
    if c.op == "shuffled":
        return contains_val(c.args[0], x)
    if c.op == "range" and c.args[2] is ONE:
        return land(ge(x, c.args[0]), lt(x, c.args[1]))
    return batom(mk("in", x, c))


T.ATOM_REBUILD["in"] = lambda x, c: contains_val(c, x)


def contains(ev, c, x):
    if c.op == "sel" and any(is_ref(y) for y in c.args[1]):
        return A.ite_any(c.args[0], [contains(ev, y, x) for y in c.args[1]])
    cl = ev.cls_of(c) if is_ref(c) else None
    if cl is not None:
        r = ev.class_lookup(cl, "__contains__")
        if r:
            return truth(ev.val(ev.call_func(r[1], [c, x], {}, r[2])))
    if c.op == "ext" or c.op == "cls":
        return ev.opaque("in")
    m = SPECIAL.get(c)
    if m is not None and hasattr(m, "contains"):
        return m.contains(ev, x)
    return contains_val(ev.val(c), ev.val(x))


def identical(ev, a, b):
    if a.op == "sel":
        return A.ite_any(a.args[0], [identical(ev, x, b) for x in a.args[1]])
    if b.op == "sel":
        return identical(ev, b, a)
    if a is b:
        return TRUE
    if NONE in (a, b):
        o = b if a is NONE else a
        if is_ref(o) or o.op in ("fn", "closure", "bound", "cls", "ext", "fnof", "partial"):
            return FALSE
        return eq(a, b)
    if is_ref(a) and is_ref(b):
        if a.op == "new" and b.op == "new" and (a.args[0] != b.args[0] or len(a.args) == 2):
            return FALSE
        return batom(mk("is", a, b))
    if a.op in ("c", "enum", "num") and b.op in ("c", "enum", "num"):
        return eq(a, b)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        o, k = (a, b) if b in (TRUE, FALSE) else (b, a)
        return truth(o) if k is TRUE and is_bool(o) else (lnot(o) if is_bool(o) else eq(a, b))
    return eq(a, b)


CMP = {"Eq": eq, "NotEq": lambda a, b: lnot(eq(a, b)), "Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}


def compare(ev, op, a, b):
    f = CMP[op]
    if ev.isarr(a) or ev.isarr(b):
        if (a is NONE or b is NONE):
            return const(op == "NotEq")
        return ev.box(ew(f, ev.aval(a) if ev.isarr(a) or is_ref(a) else a, ev.aval(b) if ev.isarr(b) or is_ref(b) else b))
    x, y = ev.val(a), ev.val(b)
    if op in ("Eq", "NotEq"):
        r = eqval(x, y)
        return r if op == "Eq" else lnot(r)
    ex, ey = elements(x) if x.op in ("tuple", "seq") else None, elements(y) if y.op in ("tuple", "seq") else None
    if ex is not None and ey is not None:
        return lexcmp(op, ex, ey)
    if x.op == "c" and y.op == "c" and isinstance(x.args[0], str) and isinstance(y.args[0], str):
        a, b = x.args[0], y.args[0]
        return const({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
    return f(x, y)


def lexcmp(op, a, b):
    if not a or not b:
        return {"Lt": const(len(a) < len(b)), "LtE": const(len(a) <= len(b)), "Gt": const(len(a) > len(b)),
                "GtE": const(len(a) >= len(b))}[op]
    return ite(eqval(a[0], b[0]), lexcmp(op, a[1:], b[1:]), CMP[op](a[0], b[0]))


def isnan_(x):
    if x is T.NAN:
        return TRUE
    if T._special(x) or T.finite(x):
        return FALSE
    return batom(mk("isnan", x))


def eqval(x, y):
    if x is y:
        return TRUE
    if x.op == "sel" and not is_bool(x) and not T._maybe_numeric(x):
        return A.ite_any(x.args[0], [eqval(z, y) for z in x.args[1]])
    ex = elements(x) if x.op in ("tuple", "seq", "lmap", "arr") else None
    ey = elements(y) if y.op in ("tuple", "seq", "lmap", "arr") else None
    if ex is not None and ey is not None:
        if len(ex) != len(ey) or (x.op == "tuple") != (y.op == "tuple"):
            return FALSE
        return land(*[eqval(p, q) for p, q in zip(ex, ey)])
    if ex is not None and y.op in ("num", "c", "ext", "cls", "fn", "enum") or ey is not None and x.op in ("num", "c", "ext", "cls", "fn", "enum"):
        return FALSE
    return eq(x, y)


def ceil_(x):
    if is_num(x):
        import math
        return num(math.ceil(x.args[0]))
    return x if isint(x) else mk("ceil", x)


def floor_(x):
    if is_num(x):
        import math
        return num(math.floor(x.args[0]))
    return x if isint(x) else mk("floor", x)


def intof(x):
    if is_num(x):
        return num(int(x.args[0]))
    if is_bool(x):
        return ite(x, ONE, ZERO)
    if isint(x) or x.op in ("ceil", "floor", "rint", "intof"):
        return x
    if x.op == "sel":
        return A.ite_any(x.args[0], [intof(y) for y in x.args[1]])
    t = mk("intof", x)
    T.INTEGERS.add(t)
    return t


T.REBUILD["intof"] = intof
T.REBUILD["ceil"] = ceil_
T.REBUILD["floor"] = floor_


def nb(x):
    """booleans as numbers"""
    return A._scal(x)


def arith(f):
    return lambda a, b: f(nb(a), nb(b))


def bitwise(op, a, b):
    """bits of whole numbers"""
    if is_num(a) and is_num(b) and a.args[0] == int(a.args[0]) and b.args[0] == int(b.args[0]):
        x, y = int(a.args[0]), int(b.args[0])
        return num(x & y if op == "and" else x | y if op == "or" else x ^ y)
    if ZERO in (a, b):
        return ZERO if op == "and" else b if a is ZERO else a
    return mk("app", "py." + op, (a, b), ())


BIN = {"add": arith(add), "sub": arith(sub), "mul": arith(mul), "truediv": arith(div), "floordiv": arith(floordiv),
       "mod": arith(mod), "pow": arith(power),
       "and_": lambda a, b: land(a, b) if is_bool(a) and is_bool(b) else bitwise("and", a, b),
       "or_": lambda a, b: lor(a, b) if is_bool(a) and is_bool(b) else bitwise("or", a, b),
       "xor": lambda a, b: ite(a, lnot(b), b) if is_bool(a) and is_bool(b) else bitwise("xor", a, b)}


def binop(ev, op, a, b):
    if op == "matmul":
        return call_ext(ev, "numpy.matmul", [a, b], {}, None)
    if a.op == "dict" or b.op == "dict":
        return ev.opaque("dict operator", a, b)
    if refkind(a) == "dict" and op == "or_":
        d = ev.content(a)
        for k, v in ev.content(b).args[0]:
            d = store(d, k, v)
        return ev.alloc("dict", d)
    if op in SETOPS.values() and refkind(a) == "set" and refkind(b) == "set" and a not in ev.rawsets and b not in ev.rawsets:
        return ev.alloc("set", set_operation(ev, op, ev.content(a), ev.content(b)))
    if ev.isarr(a) or ev.isarr(b):
        x = ev.aval(a) if is_ref(a) or ev.isarr(a) else a
        y = ev.aval(b) if is_ref(b) or ev.isarr(b) else b
        if x.op in ("seq", "tuple", "lmap"):
            x = to_array(x)
        if y.op in ("seq", "tuple", "lmap"):
            y = to_array(y)
        return ev.box(ew(BIN[op], x, y))
    if a.op == "sel" and not is_bool(a) and any(is_ref(z) for z in a.args[1]):
        return ev.branch_term(a, lambda z: binop(ev, op, z, b))
    la, lb = ev.islist(a), ev.islist(b)
    if op == "add" and (la or lb):
        ca = ev.content(a) if is_ref(a) else a
        cb = ev.content(b) if is_ref(b) else b
        return ev.lbox(seqof(ca, cb))
    if op == "mul" and (la or lb):
        l, k = (a, b) if la else (b, a)
        c = ev.content(l) if is_ref(l) else l
        k = ev.val(k)
        e = elements(c)
        if e is not None and is_num(k):
            return ev.lbox(lst(*(e * int(k.args[0]))))
        return ev.lbox(mk("repeat", c, k))
    x, y = ev.val(a), ev.val(b)
    if x.op == "tuple" and y.op == "tuple" and op == "add":
        return tup(*(elements(x) + elements(y)))
    if x.op == "tuple" and op == "mul" and is_num(y):
        return tup(*(elements(x) * int(y.args[0])))
    if op == "add" and ("str" in (kind(x), kind(y))):
        return mkfstr([x, y])
    if op == "mul" and x.op == "c" and isinstance(x.args[0], str) and is_num(y):
        return const(x.args[0] * int(y.args[0]))
    if op == "mod" and kind(x) == "str":
        return mk("strfmt", x, y)
    if x.op == "c" and x.args[0] is None or y.op == "c" and y.args[0] is None:
        ev.implicit("TypeError", TRUE, const("arithmetic with None"))
        return UNDEF
    if op in ("floordiv", "mod") and y is ZERO and T.isint(x):
        ev.implicit("ZeroDivisionError", TRUE)
        return UNDEF
    if op in ("truediv", "floordiv", "mod") and kind(x) != "str" and ev.handled("ZeroDivisionError"):
        ev.implicit("ZeroDivisionError", eq(y, ZERO))
    return BIN[op](x, y)


def seqof(a, b):
    r = seq(("s", a), ("s", b))
    if r.op != "seq" and r.op not in ("lmap", "lfmap", "flatmap", "range", "repeat"):
        r = mk("seq", (("s", r),))
    return r


# ---------------------------------------------------------------- subscripts
def getitem(ev, o, i):
    if o.op == "ext":
        if o.args[0] in ("numpy.c_",):
            xs = i.args[0] if i.op == "tuple" else [i]
            return ev.box(cstack([ev.aval(x) for x in xs]))
        return ev.opaque("subscript of " + o.args[0], i)
    m = SPECIAL.get(o)
    if m is not None:
        return m.getitem(ev, i)
    if ev.isarr(o):
        c = ev.content(o) if is_ref(o) else (ev.val(o) if o.op == "sel" else o)
        c = A.expand(c)
        i = ev.val(i)
        if i.op == "seq":
            i = to_array(i)
        if outside(c, i):
            ev.implicit("IndexError", TRUE)
            return UNDEF
        r = index(c, i)
        basic = all(x.op not in ("arr", "map", "fmap", "seq", "lmap") and not is_array(x) for x in (i.args[0] if i.op == "tuple" else [i]))
        rr = rank(r)
        if basic and is_ref(o) and (rr is None and kind(r) == "array" or rr not in (0, None) or i.op == "slice"):
            if o.op == "sel":
                return ev.box(r)
            return mk("view", o, i)
        if i.op == "slice" and not is_ref(r) and kind(r) != "scalar":
            return ev.alloc("array", r)
        return ev.box(r)
    k = refkind(o)
    if k == "list" or ev.islist(o):
        c = ev.content(o) if is_ref(o) else o
        i = ev.val(i)
        e = elements(c)
        if e is not None and is_num(i) and not (-len(e) <= i.args[0] < len(e)):
            ev.implicit("IndexError", TRUE)
            return UNDEF
        r = index(c, i)
        if i.op == "slice":
            return ev.lbox(r)
        return r
    if k == "dict":
        return dict_get(ev, ev.content(o), ev.val(i))
    if o.op == "tuple":
        i = ev.val(i)
        if is_num(i) and not -len(o.args[0]) <= i.args[0] < len(o.args[0]):
            ev.implicit("IndexError", TRUE)
            return UNDEF
        return index(o, i)
    if o is NONE or o in (TRUE, FALSE) or is_num(o):
        ev.implicit("TypeError", TRUE, const("subscript of a number"))
        return UNDEF
    x = ev.val(o)
    i = ev.val(i)
    if x.op == "c" and isinstance(x.args[0], str):
        try:
            if is_num(i):
                return const(x.args[0][int(i.args[0])])
            if i.op == "slice" and all(is_num(y) or y is NONE for y in i.args):
                return const(x.args[0][slice(*[None if y is NONE else int(y.args[0]) for y in i.args])])
        except IndexError:
            ev.implicit("IndexError", TRUE)
            return UNDEF
    if (is_num(x) or kind(x) == "scalar" and x.op == "sym") and rank(x) == 0:
        ev.implicit("TypeError", TRUE if ev.handled("TypeError") else FALSE)
    if x is NONE:
        ev.implicit("TypeError", TRUE)
        return UNDEF
    return index(x, i)


def dict_get(ev, c, i, default=None):
    if c.op == "sel":
        return ev.branch_term(c, lambda x: dict_get(ev, x, i, default))
    if c.op == "store" and maplike(c):
        # the last entry with this key; the older ones count where its key is another
        if eq(c.args[1], i) is TRUE:
            return c.args[2]
        if default is None:
            ev.implicit("KeyError", lnot(contains_val(c, i)), i)
            default = UNDEF
        d = eq(c.args[1], i)
        return c.args[2] if d is TRUE else ite(d, c.args[2], dict_get(ev, c.args[0], i, default))
    if c.op == "dict":
        for k, v in c.args[0]:
            if k is i:
                return v
        und = [(k, v) for k, v in c.args[0] if eq(k, i) is not FALSE]
        if not und:
            if default is not None:
                return default
            ev.implicit("KeyError", TRUE, i)
            return UNDEF
        # unknown key: decision over the candidates
        r = default if default is not None else UNDEF
        miss = TRUE
        for k, v in reversed(und):
            r = ite(eq(k, i), v, r)
            miss = land(miss, lnot(eq(k, i)))
        if default is None:
            ev.implicit("KeyError", miss, i)
        return r
    if c.op == "store":
        if c.args[1] is i:
            return c.args[2]
    return index(c, i)


def outside(c, i):
    """a constant index that is certainly out of bounds"""
    ks = i.args[0] if i.op == "tuple" else (i,)
    x = c
    for k in ks:
        if not is_num(k) or k.args[0].denominator != 1:
            return False
        e = elements(x) if x is not None else None
        if e is None:
            return False
        if not -len(e) <= k.args[0] < len(e):
            return True
        x = e[int(k.args[0])]
    return False


def setitem(ev, o, i, v):
    m = SPECIAL.get(o)
    if m is not None:
        return m.setitem(ev, i, v)
    i = ev.val(i)
    if ev.isarr(o):
        c = ev.content(o)
        x = ev.val(v)
        x = to_array(x)
        if outside(A.expand(c), i):
            ev.implicit("IndexError", TRUE)
            return
        ev.write(o, "", array_store(ev, c, i, x))
        ev.effect("inplace", o)
        return
    k = refkind(o)
    if k == "list":
        c = ev.content(o)
        if i.op == "slice":
            full = i.args[0] in (NONE, ZERO) and i.args[1] is NONE
            cv = ev.content(v) if is_ref(v) else v
            ev.write(o, "", cv if full else ev.opaque("list slice store", c, i, cv))
            ev.effect("list-mut", o, "slice")
            return
        e = elements(c)
        if outside(c, i):
            ev.implicit("IndexError", TRUE)
            return
        if e is not None and not is_num(i) and i.op != "sel":
            ev.write(o, "", lst(*[ite(eq(i, num(k_)), v, x) for k_, x in enumerate(e)]))
        else:
            ev.write(o, "", T.store(c, i, v))
        ev.effect("list-store", o, i, v)
        return
    if k == "dict":
        c = ev.content(o)

        def put(d):
            if d.op == "sel":
                return A.ite_any(d.args[0], [put(x) for x in d.args[1]])
            return store(d, i, v)
        ev.write(o, "", put(c))
        ev.effect("dict-store", o, i, v)
        if o in ev.fieldsof:
            if i.op == "c" and isinstance(i.args[0], str):
                ev.setattr(ev.fieldsof[o], i.args[0], v)
            else:
                ev.note("attribute of unknown name")
        return
    ev.effect("unknown-write", o, "[]")
    ev.note("item assignment on " + show(o)[:60])


def delete(ev, o, i):
    if refkind(o) == "list":
        c = ev.content(o)
        e = elements(c)
        if e is not None and is_num(i):
            del e[int(i.args[0])]
            ev.write(o, "", lst(*e))
        else:
            ev.write(o, "", mk("delitem", c, i))
        ev.effect("list-mut", o, "del")
    elif refkind(o) == "dict":
        c = ev.content(o)
        if c.op == "dict":
            ev.write(o, "", mk("dict", tuple((k, v) for k, v in c.args[0] if k is not i)))
        else:
            ev.write(o, "", ev.opaque("dict delete"))
    else:
        ev.note("delete")


# ---------------------------------------------------------------- iteration
SPECIAL = {}   # symbolic objects with python-side behaviour


def mkrange(lo, hi, st=ONE):
    return mk("range", lo, hi, st)


T.REBUILD["range"] = mkrange


def iterate(ev, it):
    """-> list of pieces ('conc', [thunk]) | ('sym', n, elem[, guard]); None if unsupported"""
    if it.op == "zip":
        return zipped(ev, it.args[0])
    if it.op == "enumerate":
        a, start = it.args
        ps = iterate(ev, a)
        if ps is None or isinstance(ps, tuple):
            if isinstance(ps, tuple):
                t = ps[1]
                return ("branch", A.ite_any(t.args[0], [mk("enumerate", x, start) for x in t.args[1]]))
            return None
        out = []
        off = start
        for p in ps:
            if p[0] == "conc":
                th = []
                for k, f in enumerate(p[1]):
                    th.append(lambda f=f, k=k, off=off: tup(add(off, num(k)), f()))
                out.append(("conc", th))
                off = add(off, num(len(p[1])))
            elif len(p) > 3:
                # filtered: position is the number of earlier hits
                g = p[3]

                def el(v, p=p, off=off, g=g):
                    w = fresh()
                    return tup(add(off, bigsum(v, w, ite(g(w), ONE, ZERO))), p[2](v))
                out.append(("sym", p[1], el, g))
                off = add(off, UNDEF)
            else:
                out.append(("sym", p[1], (lambda v, p=p, off=off: tup(add(off, v), p[2](v)))))
                off = add(off, p[1])
        return out
    m = SPECIAL.get(it)
    if m is not None and hasattr(m, "iterate"):
        return m.iterate(ev)
    if is_ref(it):
        k = refkind(it)
        if k and k.startswith("cls:"):
            c = ev.cls_of(it)
            t = ev.read(it, "$tuple")
            if t is not None:
                return iterate(ev, t)
            r = ev.class_lookup(c, "__iter__") if c else None
            if r:
                return iterate(ev, ev.call_func(r[1], [it], {}, r[2]))
            return None
        if k == "set":
            r = ordered(ev, it)
            return pieces(ev, r, None)
        c = ev.content(it)
        return pieces(ev, c, it)
    return pieces(ev, it, None)


def pieces(ev, c, ref):
    c = A.expand(c)
    if c.op == "sel":
        return ("branch", c)
    if c.op == "dict":
        return [("conc", [lambda k=k: k for k, _ in c.args[0]])]
    isarray = ref is not None and refkind(ref) == "array" or is_array(c)
    e = elements(c)
    if e is not None:
        if ref is not None and isarray:
            def rd(k):
                x = index(ev.content(ref), num(k))
                return mk("view", ref, num(k)) if rank(x) not in (0, None) else x
            return [("conc", [lambda k=k: rd(k) for k in range(len(e))])]
        if ref is not None:
            # python lists are iterated live
            def rl(k):
                cur = elements(ev.content(ref))
                return cur[k] if cur is not None and k < len(cur) else e[k]
            return [("conc", [lambda k=k: rl(k) for k in range(len(e))])]
        return [("conc", [lambda x=x: x for x in e])]
    if c.op == "range":
        lo, hi, st = c.args
        if st is ONE or is_num(st):
            return [("sym", length(c), lambda v: add(lo, mul(st, v)))]
        return None
    if c.op == "seq":
        out = []
        for k, x in c.args[0]:
            if k == "e":
                out.append(("conc", [lambda x=x: x]))
            else:
                p = pieces(ev, x, None)
                if p is None or isinstance(p, tuple):
                    return None
                out += p
        return out
    if c.op in ("lfmap", "fmap"):
        n = c.args[0]
        return [("sym", n, lambda v: open_(c, [v])[2][1], lambda v: open_(c, [v])[2][0])]
    if c.op == "repeat" or c.op in ("lmap", "map", "lc", "store", "shuffled", "flatmap", "index", "sym", "smap", "uf", "attr", "delitem", "cond2", "reshape"):
        if c.op == "sym" and kind(c) == "scalar":
            return None
        n = length(c)
        if isarray:
            def el(v):
                x = index(c, v)
                return mk("view", ref, v) if ref is not None and rank(x) not in (0, None) else x
            return [("sym", n, el)]
        return [("sym", n, lambda v: index(c, v))]
    if c.op == "c" or c.op == "num":
        ev.implicit("TypeError", TRUE if ev.handled("TypeError") else FALSE)
    return None


def zipped(ev, its):
    ps = [iterate(ev, x) for x in its]
    if any(isinstance(p, tuple) for p in ps):
        k = [i for i, p in enumerate(ps) if isinstance(p, tuple)][0]
        t = ps[k][1]
        return ("branch", A.ite_any(t.args[0], [mk("zip", tuple(its[:k]) + (x,) + tuple(its[k + 1:])) for x in t.args[1]]))
    if any(p is None for p in ps):
        return None
    if all(len(p) == 1 and p[0][0] == "conc" or all(q[0] == "conc" for q in p) for p in ps):
        ls = [[f for q in p for f in q[1]] for p in ps]
        m = min(len(l) for l in ls)
        return [("conc", [lambda k=k: tup(*[l[k]() for l in ls]) for k in range(m)])]
    if all(len(p) == 1 and p[0][0] == "sym" for p in ps):
        qs = [p[0] for p in ps]
        gs = [q[3] for q in qs if len(q) > 3]
        n = qs[0][1]
        if not gs:
            for q in qs[1:]:
                if q[1] is not n and sub(q[1], n) is not ZERO:
                    n = ite(lt(q[1], n), q[1], n)
            return [("sym", n, lambda v: tup(*[q[2](v) for q in qs]))]
        if len(gs) == len(qs) and all(q[1] is n for q in qs):
            w = fresh()
            if all(g(w) is gs[0](w) for g in gs):
                return [("sym", n, lambda v: tup(*[q[2](v) for q in qs]), gs[0])]
    # generic: positions
    cs = []
    for x in its:
        c = ev.content(x) if is_ref(x) else x
        if c.op in ("zip", "enumerate", "sel"):
            return None
        cs.append(c)
    n = length(cs[0])
    for c in cs[1:]:
        m = length(c)
        if m is not n:
            n = ite(lt(m, n), m, n)
    return [("sym", n, lambda v: tup(*[index(c, v) for c in cs]))]


def aslist(ev, x):
    """python list content of any iterable"""
    if x.op == "sel":
        return A.ite_any(x.args[0], [aslist(ev, y) for y in x.args[1]])
    if is_ref(x):
        k = refkind(x)
        if k in ("list", "set"):
            return ev.content(x)
        if k == "array":
            c = ev.content(x)
            return arr2list(c)
        if k == "dict":
            c = ev.content(x)
            return lst(*[k_ for k_, _ in c.args[0]]) if c.op == "dict" else ev.opaque("dict keys", c)
    if x.op == "tuple":
        return lst(*x.args[0])
    if x.op in ("seq", "lmap", "lfmap", "flatmap", "repeat"):
        return x
    if x.op == "range":
        e = elements(x)
        if e is not None:
            return lst(*e)
        v = fresh()
        return mapn("lmap", length(x), v, add(x.args[0], mul(x.args[2], v)))
    if x.op in ("zip", "enumerate") or x in SPECIAL:
        out = ev.alloc("list", seq())
        ev.loop(x, lambda y: ev.s.env.__setitem__(("$tmp", "x"), y), [], (),
                lambda: ev.write(out, "", seq(("s", ev.content(out)), ("e", ev.s.env[("$tmp", "x")]))))
        return ev.content(out)
    if x.op == "c" and isinstance(x.args[0], str):
        return lst(*elements(x))
    if is_array(x):
        return arr2list(x)
    return x


def fields(ev, o):
    """the attributes of an object as a dictionary"""
    if o.op != "new":
        return ev.opaque("__dict__")
    names = {}
    for u, f in list(ev.static) + list(ev.s.heap):
        if u == o.args[0] and f and not f.startswith("$"):
            names[f] = True
    r = ev.alloc("dict", mk("dict", tuple((const(f), ev.read(o, f)) for f in names if ev.read(o, f) is not None)))
    ev.fieldsof[r] = o
    return r


def newset(ev, c):
    r = distinct(c)
    o = ev.alloc("set", c if r is None else r)
    if r is None:
        ev.rawsets.add(o)
    return o


def distinct(c):
    """elements without their repetitions; None if not known"""
    if c.op == "sel":
        xs = [distinct(x) for x in c.args[1]]
        return None if None in xs else A.ite_any(c.args[0], xs)
    e = elements(c)
    if e is None:
        return None
    out = seq()
    for x in e:
        if contains_val(out, x) is not TRUE:
            out = ite(contains_val(out, x), out, seqof(out, lst(x)))
    return out


def ordered(ev, x):
    """python list of any iterable in the order of iteration"""
    if x.op == "sel":
        return A.ite_any(x.args[0], [ordered(ev, y) for y in x.args[1]])
    if refkind(x) == "set":
        r = None if x in ev.rawsets else setorder(ev.content(x))
        return ev.opaque("order of a set") if r is None else r
    return aslist(ev, x)


def setorder(c):
    if c.op == "sel":
        xs = [setorder(x) for x in c.args[1]]
        return None if None in xs else A.ite_any(c.args[0], xs)
    e = elements(c)
    if e is None:
        return None
    if len(e) < 2:
        return c
    if all(is_num(x) and x.args[0].denominator == 1 and 0 <= x.args[0] < 8 for x in e):
        return lst(*sorted(e, key=lambda x: x.args[0]))
    return None


def set_operation(ev, op, a, b):
    if a.op == "sel":
        return A.ite_any(a.args[0], [set_operation(ev, op, x, b) for x in a.args[1]])
    if b.op == "sel":
        return A.ite_any(b.args[0], [set_operation(ev, op, a, x) for x in b.args[1]])
    x, y = elements(a), elements(b)
    if x is None or y is None:
        return ev.opaque("set operation")
    if op == "or_":
        return distinct(lst(*x, *y))
    out = seq()
    for k, o in [(k, b) for k in x] + ([(k, a) for k in y] if op == "xor" else []):
        q = contains_val(o, k)
        out = ite(q if op == "and_" else lnot(q), seqof(out, lst(k)), out)
    return out


SETOPS = {"union": "or_", "intersection": "and_", "difference": "sub", "symmetric_difference": "xor"}


def arr2list(c):
    if c.op == "arr":
        return lst(*c.args[0])
    if c.op == "map":
        n, (v,), (b,) = open_(c)
        return mapn("lmap", n, v, b)
    if c.op == "fmap":
        n, (v,), (g, b) = open_(c)
        return fmapn("lfmap", n, v, g, b)
    return c


def list_extend(ev, v, w):
    c = aslist(ev, w)
    ev.write(v, "", seqof(ev.content(v), c) if c.op != "seq" or True else c)
    ev.effect("list-mut", v, "extend")


# ---------------------------------------------------------------- rng
def rng_new(ev, seed):
    seed = ev.val(seed)
    r = ev.alloc("rng")
    if seed is NONE:
        ev.effect("unseeded-rng")
        s = mk("entropy", r.args[0])
    elif seed.op == "sel":
        s = A.ite_any(seed.args[0], [mk("entropy", r.args[0]) if x is NONE else x for x in seed.args[1]])
    else:
        s = seed
    ev.write(r, "seed", s)
    ev.write(r, "", ZERO)
    ev.effect("new-rng", s)
    return r


def rv(method, seed, pos, *extra):
    return mk("rv", method, seed, pos, *extra)


def draw(ev, r, method, size, f=None, extra=()):
    """random variate(s); f maps the standard variate to the value"""
    f = f or (lambda x: x)
    seed, pos = ev.read(r, "seed"), ev.read(r, "")
    if seed is None or pos is None:
        ev.effect("unknown-rng", r)
        return ev.opaque("random numbers of unknown generator", r)
    size = ev.val(size) if size is not None else NONE
    if size is NONE:
        x = f(rv(method, seed, pos, *extra))
        ev.write(r, "", add(pos, ONE))
        ev.effect("draw", r, method)
        return x
    e = elements(size)
    dims = e if e is not None else [size]
    if any(rank(d) != 0 for d in dims):
        return ev.opaque("random size", size)
    total = mul(*dims) if dims else ONE

    def el(*idx):
        k = ZERO
        for d, i in zip(dims, idx):
            k = add(mul(k, d), i)
        return f(rv(method, seed, add(pos, k), *extra))
    x = build(dims, el)
    ev.write(r, "", add(pos, total))
    ev.effect("draw", r, method)
    return ev.box(x)


def rng_method(ev, r, name, args, kw):
    a = list(args)

    def arg(k, nm, default=NONE):
        if len(a) > k:
            return ev.val(a[k])
        return ev.val(kw[nm]) if nm in kw else default
    if name == "standard_normal":
        return draw(ev, r, "normal", arg(0, "size"))
    if name in ("random", "random_sample", "rand"):
        return draw(ev, r, "random", arg(0, "size"))
    if name == "normal":
        loc, sc = arg(0, "loc", ZERO), arg(1, "scale", ONE)
        if rank(loc) == 0 and rank(sc) == 0:
            return draw(ev, r, "normal", arg(2, "size"), lambda x: add(loc, mul(sc, x)))
    if name == "uniform":
        lo, hi = arg(0, "low", ZERO), arg(1, "high", ONE)
        lo, hi = to_array(lo), to_array(hi)
        if rank(lo) == 0 and rank(hi) == 0:
            return draw(ev, r, "random", arg(2, "size"), lambda x: add(lo, mul(sub(hi, lo), x)))
        e = elements(lo) or elements(hi)
        size = arg(2, "size")
        if e is not None and size is NONE:
            x = draw(ev, r, "random", num(len(e)))
            return ev.box(ew(lambda l, h, u: add(l, mul(sub(h, l), u)), lo, hi, ev.content(x)))
        if e is not None and elements(size) is not None and len(elements(size)) == 2:
            x = draw(ev, r, "random", size)
            return ev.box(ew(lambda l, h, u: add(l, mul(sub(h, l), u)), lo, hi, ev.content(x)))
    if name == "integers":
        lo, hi = arg(0, "low", ZERO), arg(1, "high")
        if hi is NONE:
            lo, hi = ZERO, lo
        if arg(4, "endpoint", FALSE) is TRUE:
            hi = add(hi, ONE)
        if ev.enumerate_draws and is_num(lo) and is_num(hi) and 0 < hi.args[0] - lo.args[0] <= 6 and arg(2, "size") is NONE:
            return enumerate_draw(ev, r, "integers", [add(lo, num(k)) for k in range(int(hi.args[0] - lo.args[0]))])
        if rank(lo) == 0 and rank(hi) == 0:
            return draw(ev, r, "integers", arg(2, "size"), lambda x: add(lo, x), (sub(hi, lo),))
    if name == "shuffle":
        seed, pos = ev.read(r, "seed"), ev.read(r, "")
        x = a[0]
        if not is_ref(x):
            ev.effect("unknown-write", x, "shuffle")
            return NONE
        ev.write(x, "", shuffled(ev, ev.content(x), seed, pos))
        ev.write(r, "", add(pos, ONE))
        ev.effect("draw", r, name)
        ev.effect("list-mut", x, "shuffle")
        return NONE
    if name == "permutation":
        seed, pos = ev.read(r, "seed"), ev.read(r, "")
        x = ev.val(a[0])
        if rank(x) == 0:
            v = fresh()
            x = mapn("map", x, v, v)
        ev.write(r, "", add(pos, ONE))
        ev.effect("draw", r, name)
        return ev.box(mk("shuffled", to_array(x), tup(seed, pos)))
    if name == "choice":
        x = a[0]
        c = ev.val(x)
        size = arg(1, "size")
        extra = {k: v for k, v in kw.items() if k in ("p",)}
        if not extra and size is NONE and (not kw or set(kw) <= {"axis", "shuffle", "replace"}):
            n = length(c) if rank(c) != 0 else c
            ax = ev.val(kw.get("axis", ZERO))
            if n is ZERO:
                ev.implicit("ValueError", TRUE)
                return UNDEF
            c = to_array(c)
            if ax is not ZERO and rank(c) != 0:
                if ax is not ONE or rank(c) != 2:
                    return ev.opaque("choice", c, ax)
                c = A.expand(call_ext(ev, "numpy.transpose", [c], {}, None) if not is_ref(c) else c)
                c = ev.val(c)
                n = length(c)
            k = draw(ev, r, "integers", None, None, (n,))
            if rank(c) == 0:
                return k
            el = index(to_array(c), k)
            return ev.box(el)
        if not extra and size is not NONE and rank(size) == 0 and arg(2, "replace", TRUE) is TRUE:
            n = length(c) if rank(c) != 0 else c
            k = draw(ev, r, "integers", size, None, (n,))
            return ev.box(ew(lambda i: index(to_array(c), i), ev.content(k)) if rank(c) == 1 else mk("app", "np.take", (to_array(c), ev.content(k)), (("axis", ZERO),)))
    if name in ("spawn", "bit_generator"):
        return ev.opaque("rng." + name)
    seed, pos = ev.read(r, "seed"), ev.read(r, "")
    ev.write(r, "", add(pos if pos is not None else ZERO, ONE))
    ev.effect("draw", r, name)
    return mk("rv", name, seed if seed is not None else NONE, pos if pos is not None else ZERO, *[ev.val(x) for x in a], *[ev.val(v) for _, v in sorted(kw.items())])


# ---------------------------------------------------------------- attributes and methods of values
def value_attr(ev, o, name):
    m = SPECIAL.get(o)
    if m is not None:
        r = m.getattr(ev, name)
        if r is not None:
            return r
    if o.op == "exc":
        if name == "args":
            return tup(*o.args[1])
        return mk("attr", o, name)
    if ev.isarr(o):
        c = ev.val(o)
        if name == "shape":
            return A.shape_of(c)
        if name == "ndim":
            r = rank(c)
            return num(r) if r is not None else mk("ndim", c)
        if name == "size":
            return A.count(c)
        if name == "flat" and is_ref(o):
            return reshape_ref(ev, o, tup(num(-1)))
        if name == "T":
            return ev.box(transpose(c))
        if name in ("dtype", "itemsize", "nbytes", "flags", "strides"):
            return mk("ext", "numpy.ndarray." + name)
        if name in ("real",):
            return o
        return mk("extmeth", "array", o, name)
    k = refkind(o)
    if k in ("list", "dict", "set", "rng", "file"):
        if k == "file" and name == "name":
            return ev.read(o, "name")
        return mk("extmeth", k, o, name)
    if o.op in ("tuple", "seq", "lmap", "range"):
        return mk("extmeth", "tuple", o, name)
    if kind(o) == "str":
        return mk("extmeth", "str", o, name)
    if o.op in ("fn", "closure", "bound"):
        if name in ("__name__", "__qualname__", "__doc__"):
            return const(str(o.args[0]))
    if kind(o) == "scalar" or o.op in ("num",):
        if name in ("shape",):
            return tup()
        if name == "ndim":
            return ZERO
        if name == "size":
            return ONE
        if name in ("real",):
            return o
        if ev.handled("AttributeError") and name in ("reshape", "copy", "append"):
            ev.implicit("AttributeError", TRUE)
            return UNDEF
        return mk("extmeth", "scalar", o, name)
    if o is NONE:
        ev.implicit("AttributeError", TRUE)
        return UNDEF
    v = ev.s.heap.get((o, name))
    if v is not None:
        return v
    if o.op in ("index", "sym", "attr", "lc", "uf"):
        if name in METHODLIKE:
            return mk("extmeth", "unknown", o, name)
        return mk("attr", o, name)
    return mk("extmeth", "unknown", o, name)


METHODLIKE = set("append extend insert pop remove copy items keys values get reshape sum mean flatten ravel astype fill sort "
                 "min max any all dot tolist format join split strip lower upper startswith endswith".split())


def transpose(c):
    r = rank(c)
    if r in (0, 1):
        return c
    if r == 2:
        s = A.shape_of(c)
        e = elements(s)
        if e is not None:
            return build([e[1], e[0]], lambda i, j: index(index(c, j), i))
    e = elements(A.shape_of(c)) if r is not None else None
    if e is not None and len(e) == r:
        return permute(c, list(range(r))[::-1])
    return mk("app", "np.transpose", (c,), ())


def permute(c, perm):
    """array with its dimensions in another order (dimension k of the result is perm[k] of c)"""
    e = elements(A.shape_of(c))

    def cell(*idx):
        x = c
        for k in range(len(perm)):
            x = index(x, idx[perm.index(k)])
        return x
    return build([e[k] for k in perm], cell)


def axes_of(ev, c, spec):
    """axis numbers of an array as Python integers"""
    r = rank(c)
    if r is None or elements(A.shape_of(c)) is None:
        return None
    out = []
    for x in spec:
        x = ev.val(x)
        if not is_num(x):
            return None
        out.append(int(x.args[0]) % r)
    return out


STRM = {"lower", "upper", "strip", "split", "replace", "startswith", "endswith", "title", "lstrip", "rstrip", "isdigit", "zfill",
        "capitalize", "count", "find", "splitlines", "isnumeric", "isalpha", "removeprefix", "removesuffix", "partition", "casefold"}


def call_method(ev, k, o, name, args, kw, node):
    if k == "rng":
        if o.op == "sel":
            return ev.branch_term(o, lambda x: rng_method(ev, x, name, args, kw))
        return rng_method(ev, o, name, args, kw)
    if k == "object":
        if name == "__init__":
            c = ev.cls_of(o)
            if c is not None and ev.is_exc(c):
                ev.write(o, "args", tup(*args))
            return NONE
        if name in ("__setattr__",) and args and args[0].op == "c":
            ev.write(o, args[0].args[0], args[1])
            return NONE
        return ev.opaque("object." + name, o)
    if k == "array":
        return array_method(ev, o, name, args, kw, node)
    if k in ("list", "set"):
        return list_method(ev, k, o, name, args, kw)
    if k == "dict":
        return dict_method(ev, o, name, args, kw)
    if k == "tuple":
        if name == "index" or name == "count":
            return mk("app", "py." + name, (ev.val(o), ev.val(args[0])), ())
        return ev.opaque("tuple." + name)
    if k == "str":
        x = ev.val(o)
        vs = [ev.val(a) for a in args]
        if name == "format":
            if not kw and x.op == "c":
                parts = x.args[0].split("{}")
                if len(parts) == len(vs) + 1 and "{" not in "".join(parts):
                    out = [parts[0]]
                    for a, p in zip(vs, parts[1:]):
                        out += [a, p]
                    return mkfstr(out)
            return mk("strfmt", x, tup(*vs, *[ev.val(v) for v in kw.values()]))
        if name == "join" and x.op == "c":
            c = ev.val(args[0]) if not is_ref(args[0]) else ev.val(args[0])
            e = elements(c)
            if e is not None:
                out = []
                for i, y in enumerate(e):
                    if i:
                        out.append(x.args[0])
                    out.append(y)
                return mkfstr(out) if out else const("")
        if x.op == "c" and all(v.op in ("c", "num") for v in vs) and name in STRM:
            try:
                r = getattr(x.args[0], name)(*[cval(v) for v in vs])
            except Exception:
                return ev.opaque("str." + name)
            if isinstance(r, list):
                return ev.lbox(lst(*[const(y) for y in r]))
            if isinstance(r, tuple):
                return tup(*[const(y) for y in r])
            return const(r)
        if x.op == "sel":
            return ev.branch_term(x, lambda y: call_method(ev, k, y, name, args, kw, node))
        t = mk("app", "str." + name, (x,) + tuple(vs), ())
        if name not in ("split", "splitlines", "startswith", "endswith", "isdigit", "count", "find"):
            T.KIND[t] = "str"
        return t
    if k == "file":
        if name in ("write", "writelines"):
            fwrite(ev, ev.read(o, "name"), [header_entry(ev.val(args[0]))], False)
        if name == "write":
            io(ev, "write", ev.read(o, "name"), ev.read(o, "mode"), ev.val(args[0]))
        elif name == "writelines":
            io(ev, "write", ev.read(o, "name"), ev.read(o, "mode"), ev.val(args[0]))
        if name in ("close", "flush", "__exit__"):
            ev.write(o, "pending", FALSE)
        elif name in ("write", "writelines"):
            pending(ev, o)
        elif name == "__enter__":
            return o
        return NONE
    if k == "scalar":
        x = ev.val(o)
        if name in ("item", "copy", "conjugate"):
            return x
        if name == "astype":
            return cast(ev, x, args[0])
        if name in ("sum", "mean", "min", "max", "prod"):
            return x
        if name == "reshape":
            return ev.box(arr(x))
        if name == "is_integer":
            return eq(x, intof(x))
        return ev.opaque("scalar." + name, x)
    if k == "unknown":
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "fill", "clear"):
            ev.effect("unknown-write", o, name)
        if name in ("reshape", "flatten", "ravel", "sum", "mean", "min", "max", "astype", "tolist", "copy"):
            return mk("app", "np." + name, (ev.val(o),) + tuple(ev.val(a) for a in args), tuple(sorted((a, ev.val(b)) for a, b in kw.items())))
        ev.effect("unknown-call", mk("extmeth", k, o, name))
        return ev.opaque(f"method {name}", o)
    ev.effect("unknown-call", mk("extmeth", k, o, name))
    return ev.opaque(f"method {k}.{name}", o)


def list_method(ev, k, o, name, args, kw):
    if o.op == "sel":
        return ev.branch_term(o, lambda x: list_method(ev, k, x, name, args, kw))
    c = ev.content(o)
    if name in ("append", "add"):
        if k == "set" and name == "add":
            ev.write(o, "", ite(contains_val(c, ev.val(args[0])), c, seq(("s", c), ("e", ev.val(args[0])))))
        else:
            ev.write(o, "", seq(("s", c), ("e", args[0])))
        ev.effect("list-mut", o, "append")
        return NONE
    if name in ("extend", "update"):
        list_extend(ev, o, args[0])
        return NONE
    if name == "copy":
        return ev.alloc(k, c)
    if name == "insert":
        i = ev.val(args[0])
        e = elements(c)
        ev.effect("list-mut", o, "insert")
        if i is ZERO:
            ev.write(o, "", seq(("e", args[1]), ("s", c)))
        elif e is not None and is_num(i):
            e.insert(int(i.args[0]), args[1])
            ev.write(o, "", lst(*e))
        elif i is length(c):
            ev.write(o, "", seq(("s", c), ("e", args[1])))
        else:
            ev.write(o, "", mk("insert", c, i, args[1]))
        return NONE
    if name == "clear":
        ev.write(o, "", seq())
        ev.effect("list-mut", o, "clear")
        return NONE
    if name == "pop":
        ev.effect("list-mut", o, "pop")
        i = ev.val(args[0]) if args else num(-1)
        e = elements(c)
        if e is not None and is_num(i) and e:
            x = e.pop(int(i.args[0]))
            ev.write(o, "", lst(*e))
            return x
        if i is num(-1) and c.op == "seq" and c.args[0][-1][0] == "e":
            ev.write(o, "", seq(*c.args[0][:-1]))
            return c.args[0][-1][1]
        ev.write(o, "", mk("delitem", c, i))
        return index(c, i)
    if name == "reverse":
        ev.effect("list-mut", o, "reverse")
        e = elements(c)
        ev.write(o, "", lst(*reversed(e)) if e is not None else mk("app", "py.reversed", (c,), ()))
        return NONE
    if name == "sort":
        ev.effect("list-mut", o, "sort")
        ev.write(o, "", sorted_(ev, c, kw.get("key"), kw.get("reverse")))
        return NONE
    if name in ("index", "count"):
        es = elements(c)
        if es is not None and len(args) == 1:
            same = [eqval(ev.val(x), ev.val(args[0])) for x in es]
            if name == "count":
                return add(*[ite(q, ONE, ZERO) for q in same]) if same else ZERO
            if all(q is TRUE or q is FALSE for q in same):
                if TRUE in same:
                    return num(same.index(TRUE))
                ev.implicit("ValueError", TRUE)
                return UNDEF
        return mk("app", "py." + name, (ev.val(o), ev.val(args[0])), ())
    if name in ("remove", "discard"):
        ev.effect("list-mut", o, name)
        ev.write(o, "", mk("removed", c, ev.val(args[0])))
        return NONE
    if name == "tolist":
        return o
    if name in ("__len__",):
        return length(c)
    if k == "set" and name in SETOPS and o not in ev.rawsets and len(args) == 1:
        return ev.alloc("set", set_operation(ev, SETOPS[name], c, aslist(ev, args[0])))
    if k == "set" and name == "update" and o not in ev.rawsets and len(args) == 1:
        ev.write(o, "", set_operation(ev, "or_", c, aslist(ev, args[0])))
        return NONE
    if k == "set" and name == "isdisjoint" and elements(c) is not None:
        return lnot(lor(*[contains_val(aslist(ev, args[0]), x) for x in elements(c)]))
    if k == "set" and name == "issubset" and elements(c) is not None:
        return land(*[contains_val(aslist(ev, args[0]), x) for x in elements(c)])
    return ev.opaque(f"{k}.{name}", o)


def dict_method(ev, o, name, args, kw):
    c = ev.content(o)
    if c.op == "sel" and name in ("items", "values", "keys", "copy", "pop"):
        return ev.branch_term(c, lambda x: dict_view(ev, o, x, name, args))
    if name == "get":
        return dict_get(ev, c, ev.val(args[0]), args[1] if len(args) > 1 else NONE)
    if name in ("items", "values", "keys", "copy", "pop"):
        return dict_view(ev, o, c, name, args)
    if name == "setdefault":
        i = ev.val(args[0])
        d = args[1] if len(args) > 1 else NONE
        r = dict_get(ev, c, i, d)
        setitem(ev, o, i, r)
        return r
    if name == "update":
        src = ev.content(args[0]) if args and is_ref(args[0]) else None
        if src is not None and src.op == "dict":
            for k, v in src.args[0]:
                setitem(ev, o, k, v)
        elif args:
            ev.write(o, "", ev.opaque("dict update"))
        for k, v in kw.items():
            setitem(ev, o, const(k), v)
        return NONE
    return ev.opaque("dict." + name, o)


def dict_view(ev, o, c, name, args):
    if c.op != "dict":
        if name == "copy":
            return ev.alloc("dict", c)
        return mk("app", "dict." + name, (c,), ())
    if name == "items":
        return ev.lbox(lst(*[tup(k, v) for k, v in c.args[0]]))
    if name == "values":
        return ev.lbox(lst(*[v for _, v in c.args[0]]))
    if name == "keys":
        return ev.lbox(lst(*[k for k, _ in c.args[0]]))
    if name == "copy":
        return ev.alloc("dict", c)
    if name == "pop":
        i = ev.val(args[0])
        r = dict_get(ev, c, i, args[1] if len(args) > 1 else None)
        ev.write(o, "", mk("dict", tuple((k, v) for k, v in c.args[0] if k is not i)))
        return r


def array_method(ev, o, name, args, kw, node):
    if name == "fill":
        c = ev.content(o)
        ev.write(o, "", ew(lambda x, y: y, c, ev.val(args[0])))
        ev.effect("inplace", o)
        return NONE
    if name in ("reshape",):
        shp = ev.val(args[0]) if len(args) == 1 else tup(*[ev.val(a) for a in args])
        if "order" in kw and ev.val(kw["order"]) is not const("C"):
            return ev.opaque("reshape order", o)
        return reshape_ref(ev, o, shp)
    if name in ("ravel", "flatten"):
        if kw or args and ev.val(args[0]) is not const("C"):
            return ev.opaque(name + " order", o)
        c = ev.content(o) if is_ref(o) else o
        return ev.box(flatten(c))
    if name in ("copy", "__copy__"):
        return ev.alloc("array", ev.val(o))
    if name == "astype":
        return ev.alloc("array", ew(lambda x: cast(ev, x, args[0]), ev.val(o)))
    if name == "tolist":
        c = ev.val(o)
        return ev.lbox(_deeplist(ev, c))
    if name == "item":
        c = ev.val(o)
        e = elements(c)
        return e[0] if e and len(e) == 1 and rank(c) == 1 else index(c, ev.val(args[0])) if args else ev.opaque("item", c)
    if name == "sort":
        ev.write(o, "", npsort(ev, ev.content(o)))
        return NONE
    if name in ("itemset", "resize", "put", "partition"):
        ev.effect("unknown-write", o, name)
        ev.write(o, "", ev.opaque(name))
        return NONE
    if name == "transpose":
        if not args:
            return ev.box(transpose(ev.val(o)))
        return call_ext(ev, "numpy.transpose", [o, tup(*args) if len(args) > 1 else args[0]], kw, node)
    if name in ("sum", "mean", "min", "max", "prod", "all", "any", "std", "var", "argmin", "argmax", "cumsum", "clip", "nonzero",
                "dot", "repeat", "round", "squeeze", "swapaxes", "take", "ptp", "argsort", "cumprod"):
        return call_ext(ev, "numpy." + name, [o] + list(args), kw, node)
    if name in ("__len__",):
        return length(ev.val(o))
    ev.effect("unknown-call", mk("extmeth", "array", o, name))
    return ev.opaque("array." + name, o)


def _deeplist(ev, c):
    if c.op == "arr":
        return lst(*[ev.lbox(_deeplist(ev, x)) if rank(x) not in (0, None) else x for x in c.args[0]])
    if c.op == "map" and rank(c) == 1:
        return arr2list(c)
    return c


def flatten(c):
    f = A.flat(c)
    return f


def reshape_ref(ev, o, shp):
    c = ev.content(o) if is_ref(o) else o
    c = A.expand(c)
    if shp.op in ("seq", "lmap"):
        e = elements(shp)
        if e is not None:
            shp = tup(*e)
    e = elements(shp) if rank(shp) != 0 else [shp]
    e = [ev.val(x) for x in e] if e is not None else None
    cnt = A.count(c)
    if e is not None and any(x is num(-1) for x in e) and is_num(cnt) and all(is_num(x) for x in e):
        p = 1
        for x in e:
            if x is not num(-1):
                p *= int(x.args[0])
        if p and int(cnt.args[0]) % p == 0:
            e = [num(int(cnt.args[0]) // p) if x is num(-1) else x for x in e]
            shp = tup(*e)
    if e is not None and not any(x is num(-1) for x in e):
        bad = lnot(eq(cnt, mul(*e) if e else ONE))
        if not any(x.op in ("size", "opaque") for x in walk(cnt)):
            ev.implicit("ValueError", bad)
            if ev.s.live is FALSE:
                return UNDEF
        elif ev.handled("ValueError"):
            ev.implicit("ValueError", batom(mk("truthy", mk("opaque", "reshape", (cnt, tup(*e))))))
    r = A.reshape(c, tup(*e) if e is not None else shp)
    if is_ref(o) and o.op != "sel":
        if r is c:
            return o
        base = o
        return mk("rview", base, tup(*e) if e is not None else shp)
    return ev.box(r)


def cast(ev, x, t):
    n = t.args[0].split(".")[-1] if t.op in ("ext", "cls") else (t.args[0] if t.op == "c" else "?")
    if n in ("int", "int64", "int32", "intp", "int_"):
        return intof(x)
    if n in ("float", "float64", "double", "float_", "longdouble"):
        return nb(x)
    if n in ("bool", "bool_"):
        return truth(x)
    if n in LOSSY:
        if x.op == "app" and x.args[0] == "np.lossy." + n or n[0] not in "iu" and x.op == "num" and float(x.args[0]).is_integer():
            return x
        return mk("app", "np.lossy." + n, (x,), ())
    return x


LOSSY = ("float32", "float16", "uint8", "int8", "int16", "uint16", "uint32", "half", "single")


# ---------------------------------------------------------------- files
def io(ev, what, *args):
    e = mk("io", what, tuple(x if isinstance(x, Term) else (const(x) if x is not None else NONE) for x in args))
    cur = ev.s.heap.get(("$io", ""), seq())
    ev.s.heap[("$io", "")] = seq(("s", cur), ("e", e))
    ev.effect("io", e)


def _fkey(name):
    return name.args[0] if name.op == "c" and isinstance(name.args[0], str) else show(name)


def fcontent(ev, name):
    k = ("$fs", _fkey(name))
    v = ev.s.heap.get(k)
    return mk("foreign", k[1]) if v is None else v


def fwrite(ev, name, entries, truncate):
    """entries (terms) go to the file; overwriting what was there before the run is recorded"""
    name = ev.val(name)
    if name.op == "sel":
        ev.branch_term(name, lambda x: (fwrite(ev, x, entries, truncate), NONE)[1])
        return
    k = ("$fs", _fkey(name))
    cur = fcontent(ev, name)

    def foreign(c):
        if c.op == "sel":
            return T._apply1(c, foreign)
        if c.op == "seq":
            return TRUE if any(x[0] == "s" and x[1].op == "foreign" for x in c.args[0]) else FALSE
        return const(c.op == "foreign")
    bad = foreign(cur)
    if bad is not FALSE:
        log_ = ev.s.heap.get(("$clobber", ""), seq())
        ev.s.heap[("$clobber", "")] = ite(bad, seq(("s", log_), ("e", name)), log_)
    new = seq() if truncate else T._apply1(cur, lambda c: seq() if foreign(c) is TRUE else c)
    ev.s.heap[k] = seq(("s", new), *[("s", e[1]) if isinstance(e, tuple) else ("e", e) for e in entries])


def fbackup(ev, name):
    name = ev.val(name)
    if name.op == "sel":
        ev.branch_term(name, lambda x: (fbackup(ev, x), NONE)[1])
        return
    log_ = ev.s.heap.get(("$backup", ""), seq())
    ev.s.heap[("$backup", "")] = seq(("s", log_), ("e", name))
    ev.s.heap[("$fs", _fkey(name))] = seq()


def header_entry(t):
    if t.op == "plumed":
        return tup(const("header"), *t.args)
    return tup(const("text"), t)


def table_entries(x, fmt):
    x = A.expand(x)
    if x.op == "sel":
        return [("s", T._apply1(x, lambda y: seq(*[("s", e[1]) if isinstance(e, tuple) else ("e", e) for e in table_entries(y, fmt)])))]
    es = elements(x)
    if es is not None:
        out = []
        for e in es:
            vals = elements(A.expand(e)) if is_array(e) else [e]
            out.append(tup(const("row"), fmt, tup(*vals) if vals is not None else e))
        return out
    return [tup(const("table"), fmt, x)]


def fname(ev, t):
    if is_ref(t) and refkind(t) == "file":
        return ev.read(t, "name"), ev.read(t, "mode")
    return ev.val(t), const("w")


def enter(ev, cm):
    if is_ref(cm) and refkind(cm) == "file":
        return cm
    c = ev.cls_of(cm) if is_ref(cm) else None
    if c is not None:
        r = ev.class_lookup(c, "__enter__")
        if r:
            return ev.call_func(r[1], [cm], {}, r[2])
    return cm


def pending(ev, f):
    """written lines stay in the buffer of the handle until it is flushed or closed"""
    if is_ref(f) and refkind(f) == "file" and ev.read(f, "direct") is None:
        ev.write(f, "pending", TRUE)


def buffered(ev, name):
    """is something written to the file still in the buffer of a handle that is kept"""
    out = FALSE
    for (uid, field), v in list(ev.s.heap.items()):
        if field == "pending" and v is not FALSE and ev.hget(uid, "name") is name:
            held = any(f not in ("name", "mode", "pending", "direct") and any(x.op == "new" and x.args[0] == uid for x in T.walk(w))
                       for (u, f), w in ev.s.heap.items() if u != uid and isinstance(w, T.Term))
            out = lor(out, v) if held else out
    return out


def exit(ev, cm):
    if is_ref(cm) and refkind(cm) == "file":
        ev.write(cm, "pending", FALSE)
    c = ev.cls_of(cm) if is_ref(cm) else None
    if c is not None:
        r = ev.class_lookup(c, "__exit__")
        if r:
            ev.call_func(r[1], [cm, NONE, NONE, NONE], {}, r[2])


# ---------------------------------------------------------------- functions
REG = {}


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


GLOBAL_METHODS = {"random": "random", "random_sample": "random", "rand": "random", "sample": "random", "ranf": "random",
                  "normal": "normal", "gauss": "normal", "randn": "standard_normal", "standard_normal": "standard_normal",
                  "uniform": "uniform", "randint": "integers", "integers": "integers", "randrange": "integers",
                  "shuffle": "shuffle", "permutation": "permutation", "choice": "choice"}


def global_draw(ev, name, args, kw):
    """a draw from the global state: a generator of its own that no seed option controls"""
    mod, _, short = name.rpartition(".")
    m = GLOBAL_METHODS.get(short)
    if m is None or mod == "random" and short == "sample":
        return mk("globalrv", name, mk("c", ev.uid))
    if getattr(ev, "global_rng", None) is None:
        ev.global_rng = rng_new(ev, mk("globalrv", mod, mk("c", 0)))
    a = list(args)
    if short in ("rand", "randn"):
        a = [ev.lbox(lst(*[ev.val(x) for x in a]))] if len(a) > 1 else a
    r = rng_method(ev, ev.global_rng, m, a, kw)
    return mk("globalrv", name, mk("c", ev.uid)) if r is None else r


def call_ext(ev, name, args, kw, node):
    name = canon_name(name)
    if name in IGNORED or name.startswith(IGNORED_PREFIX):
        ov = ev.overrides.get(name)
        if ov is None and name.startswith("matplotlib.pyplot."):
            ov = ev.overrides.get("matplotlib.pyplot.*")
        r = ov(ev, args, kw) if ov is not None else NotImplemented
        return mk("ext", name + "()") if r is NotImplemented else r
    short = name[9:] if name.startswith("builtins.") else None
    if short in EXC_BASES or (short and (short.endswith("Error") or short in ("Exception", "Warning", "SystemExit", "StopIteration"))):
        return mk("exc", short, tuple(ev.val(a) for a in args))
    if name.startswith("configparser.") and name.endswith("Error"):
        return mk("exc", name, tuple(ev.val(a) for a in args))
    ov = ev.overrides.get(name)
    if ov is not None:
        r = ov(ev, args, kw)
        if r is not NotImplemented:
            return r
    if name.startswith("numpy.random.") and name not in ("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64",
                                                          "numpy.random.SeedSequence", "numpy.random.RandomState"):
        ev.effect("global-rng", name)
        return global_draw(ev, name, args, kw)
    if name.startswith("random."):
        ev.effect("nondet", name)
        return global_draw(ev, name, args, kw)
    if name.startswith(NONDET):
        ev.effect("nondet", name)
        return mk("globalrv", name, mk("c", ev.uid))
    f = REG.get(name)
    if f is not None and name.startswith("numpy.") and kw.get("out") is not None and kw["out"] is not NONE and "where" not in kw:
        # the result goes into a given array
        out = kw["out"]
        r = call_ext(ev, name, args, {k: v for k, v in kw.items() if k != "out"}, node)
        if out.op == "tuple":
            out = elements(out)[0]
        if is_ref(out):
            ev.write(out, "", to_array(ev.val(r)))
        else:
            ev.effect("unknown-write", out, "out")
        return out
    if f is not None:
        if name.startswith(("numpy.", "math.")) and args and is_ref(args[0]) and ev.cls_of(args[0]) is not None:
            # numpy ufuncs on objects call the method of the same name
            mname = name.split(".")[-1]
            r = ev.class_lookup(ev.cls_of(args[0]), mname)
            if r:
                return ev.call_func(r[1], [args[0]], {}, r[2])
            if mname not in ("array", "asarray", "prod"):
                return ev.opaque(f"{name} on instance", args[0])
        if args and args[0].op == "sel" and any(is_ref(x) and refkind(x) not in ("array", "list") for x in args[0].args[1]) and name.startswith("numpy."):
            return ev.branch_term(args[0], lambda x: call_ext(ev, name, [x] + list(args[1:]), kw, node))
        return f(ev, args, kw)
    if name.endswith("()"):
        return NONE
    vals = tuple(ev.val(a) for a in args)
    kws = tuple(sorted((k, ev.val(v)) for k, v in kw.items()))
    if name.startswith("numpy."):
        t = mk("app", "np." + name[6:], vals, kws)
        T.KIND.setdefault(t, "array")
        if name.split(".")[-1] not in PURE_NP:
            ev.effect("unknown-call", mk("ext", name))
            return ev.opaque("call " + name, *vals)
        return ev.alloc("array", t)
    ev.effect("unknown-call", mk("ext", name))
    ev.note("call " + name)
    return mk("opaque", "call " + name, vals + tuple(v for _, v in kws))


from .interp import NPFUNCS  # noqa: E402
PURE_NP = {n.split(".")[-1] for n in NPFUNCS}


def U1(f):
    """unary ufunc"""
    def g(ev, args, kw):
        x = args[0]
        v = ev.aval(x) if ev.isarr(x) or is_ref(x) else to_array(ev.val(x))
        return ufunc(ev, f, [v], args[1] if len(args) > 1 else kw.get("out"), kw.get("where"))
    return g


def ufunc(ev, f, vs, out, where):
    """element by element, optionally into a given array and only at given places"""
    r = ew(f, *vs)
    known = out is not None and out is not NONE
    if where is not None and ev.val(where) is not TRUE:
        old = to_array(ev.val(out)) if known else mk("uninit", mk("c", "where"), mk("c", ev.uid))
        r = ew(lambda c, x, y: ite(truth(c), x, y), to_array(ev.val(where)), r, old)
    if known:
        if is_ref(out):
            ev.write(out, "", r)
        else:
            ev.effect("unknown-write", out, "out")
        return out
    return ev.box(r)


def U2(f):
    def g(ev, args, kw):
        vs = [to_array(ev.val(x)) for x in args[:2]]
        return ufunc(ev, f, vs, args[2] if len(args) > 2 else kw.get("out"), kw.get("where"))
    return g


for _n, _f in {
    "exp": exp, "log": log, "sqrt": sqrt, "abs": absval, "absolute": absval, "fabs": absval, "square": lambda x: power(x, TWO),
    "negative": neg, "positive": lambda x: x, "ceil": ceil_, "floor": floor_, "expm1": lambda x: sub(exp(x), ONE),
    "log1p": lambda x: log(add(ONE, x)), "reciprocal": lambda x: div(ONE, x), "log2": lambda x: div(log(x), log(TWO)),
    "log10": lambda x: div(log(x), log(num(10))), "logical_not": lambda x: lnot(truth(x)), "isinf": lambda x: lor(eq(x, INF), eq(x, NINF)),
    "isposinf": lambda x: eq(x, INF), "isneginf": lambda x: eq(x, NINF),
    "isnan": isnan_, "float64": lambda x: nb(x), "double": lambda x: nb(x), "int64": intof, "trunc": intof,
    "sign": lambda x: T.sgn_test(x, num(-1), ZERO, ONE), "cbrt": lambda x: power(x, num(Fraction(1, 3))),
    "isfinite": lambda x: land(lnot(eq(x, INF)), lnot(eq(x, NINF)), lnot(isnan_(x))),
}.items():
    REG["numpy." + _n] = U1(_f)
    if _n in ("exp", "log", "sqrt", "fabs", "ceil", "floor", "expm1", "log1p", "log2", "log10", "isinf", "isnan", "isfinite", "trunc"):
        REG["math." + _n] = U1(_f)


def mx(a, b): return ite(gt(b, a), b, a)
def mn(a, b): return ite(lt(b, a), b, a)


for _n, _f in {
    "add": BIN["add"], "subtract": BIN["sub"], "multiply": BIN["mul"], "divide": BIN["truediv"], "true_divide": BIN["truediv"],
    "power": BIN["pow"], "float_power": BIN["pow"], "mod": BIN["mod"], "remainder": BIN["mod"], "floor_divide": BIN["floordiv"],
    "maximum": mx, "minimum": mn, "fmax": mx, "fmin": mn,
    "logical_and": lambda a, b: land(truth(a), truth(b)), "logical_or": lambda a, b: lor(truth(a), truth(b)),
    "logical_xor": lambda a, b: ite(truth(a), lnot(truth(b)), truth(b)),
    "bitwise_and": BIN["and_"], "bitwise_or": BIN["or_"],
    "greater": gt, "greater_equal": ge, "less": lt, "less_equal": le, "equal": eq, "not_equal": lambda a, b: lnot(eq(a, b)),
    "hypot": lambda a, b: sqrt(add(power(a, TWO), power(b, TWO))),
}.items():
    REG["numpy." + _n] = U2(_f)
REG["math.pow"] = U2(BIN["pow"])


@reg("operator.add", "operator.sub", "operator.mul", "operator.truediv", "operator.floordiv", "operator.mod", "operator.pow",
     "operator.and_", "operator.or_", "operator.matmul", "operator.xor")
def _opfun(ev, args, kw):
    raise Unsupported


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and_", "or_", "xor"):
    REG["operator." + _n] = (lambda n: lambda ev, a, kw: ev.binop(n, a[0], a[1]))(_n)
    REG["operator.i" + _n.rstrip("_")] = (lambda n: lambda ev, a, kw: ev.augment(n, a[0], a[1]))(_n)
for _n, _m in (("neg", "neg"), ("pos", "pos"), ("invert", "invert")):
    REG["operator." + _n] = (lambda n: lambda ev, a, kw: ev.unary(n, a[0]))(_m)
for _n, _m in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    REG["operator." + _n] = (lambda n: lambda ev, a, kw: ev.compare(n, a[0], a[1]))(_m)
REG["operator.not_"] = lambda ev, a, kw: lnot(ev.truthof(a[0]))
REG["operator.itemgetter"] = lambda ev, a, kw: mk("partial", mk("ext", "$getitem"), tuple(a), ())
REG["$getitem"] = lambda ev, a, kw: ev.getitem(a[1], ev.val(a[0]))
REG["operator.attrgetter"] = lambda ev, a, kw: mk("partial", mk("ext", "$getattr"), tuple(a), ())
REG["$getattr"] = lambda ev, a, kw: ev.getattr(a[1], ev.val(a[0]).args[0])
REG["operator.methodcaller"] = lambda ev, a, kw: ev.opaque("methodcaller")


def reduction(name):
    def g(ev, args, kw):
        v = to_array(ev.val(args[0]))
        axis = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("axis", NONE))
        if kw.get("keepdims") is not None and ev.val(kw["keepdims"]) is TRUE:
            return ev.opaque("keepdims", v)
        if "where" in kw:
            w = to_array(ev.val(kw["where"]))
            unit = {"sum": ZERO, "prod": ONE, "all": TRUE, "any": FALSE}.get(name)
            if unit is None:
                return ev.opaque("reduction where", v)
            v = ew(lambda c, x: ite(c, x, unit), w, v)
        if axis.op == "tuple":
            for a in sorted([int(x.args[0]) for x in elements(axis)], reverse=True):
                v = A.reduce_(name, v, num(a))
            return ev.box(v)
        if rank(v) == 0 and v.op in ("sym", "index", "app") and kind(v) not in ("scalar",):
            pass
        return ev.box(A.reduce_(name, v, axis))
    return g


for _n in ("sum", "prod", "all", "any", "min", "max"):
    REG["numpy." + _n] = reduction(_n)
REG["numpy.amin"], REG["numpy.amax"], REG["numpy.alltrue"], REG["numpy.product"] = REG["numpy.min"], REG["numpy.max"], REG["numpy.all"], REG["numpy.prod"]
REG["math.prod"] = REG["numpy.prod"]
REG["math.fsum"] = REG["numpy.sum"]
REG["numpy.add.reduce"] = lambda ev, a, kw: reduction("sum")(ev, a, kw if "axis" in kw or len(a) > 1 else dict(kw, axis=ZERO))
REG["numpy.multiply.reduce"] = lambda ev, a, kw: reduction("prod")(ev, a, kw if "axis" in kw or len(a) > 1 else dict(kw, axis=ZERO))
REG["numpy.logical_and.reduce"] = lambda ev, a, kw: reduction("all")(ev, a, kw if "axis" in kw or len(a) > 1 else dict(kw, axis=ZERO))
REG["numpy.logical_or.reduce"] = lambda ev, a, kw: reduction("any")(ev, a, kw if "axis" in kw or len(a) > 1 else dict(kw, axis=ZERO))


@reg("numpy.mean")
def _mean(ev, args, kw):
    v = to_array(ev.val(args[0]))
    axis = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("axis", NONE))
    if "where" in kw:
        w = to_array(ev.val(kw["where"]))
        if axis is not NONE:
            return ev.opaque("mean where", v)
        s = A.reduce_("sum", ew(lambda c, x: ite(c, x, ZERO), w, v))
        return ev.box(div(s, A.reduce_("sum", ew(lambda c: ite(c, ONE, ZERO), w))))
    return ev.box(A.mean(v, axis))


@reg("numpy.average")
def _average(ev, args, kw):
    v = to_array(ev.val(args[0]))
    w = kw.get("weights")
    axis = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("axis", NONE))
    if w is None:
        return ev.box(A.mean(v, axis))
    w = to_array(ev.val(w))
    return ev.box(ew(div, A.reduce_("sum", ew(mul, v, w), axis), A.reduce_("sum", w, axis)))


@reg("numpy.count_nonzero")
def _cnz(ev, args, kw):
    v = to_array(ev.val(args[0]))
    return ev.box(A.reduce_("sum", ew(lambda x: ite(truth(x), ONE, ZERO), v), ev.val(kw.get("axis", NONE))))


@reg("numpy.where")
def _where(ev, args, kw):
    c = to_array(ev.val(args[0]))
    if len(args) == 1:
        return _nonzero(ev, args, kw)
    x, y = to_array(ev.val(args[1])), to_array(ev.val(args[2]))
    return ev.box(ew(lambda a, b, d: ite(truth(a), b, d), c, x, y))


def enumerate_draw(ev, r, name, values):
    """discrete draw as a decision between its possible values"""
    seed, pos = ev.read(r, "seed"), ev.read(r, "")
    ev.write(r, "", add(pos, ONE))
    ev.effect("draw", r, name)
    if ev.draw_ints is not None:
        # this case looks at one sequence of outcomes
        c = T._canon(pos, [3000])
        return A.sel_map(pos if c is None else c, lambda p: values[ev.draw_ints[int(p.args[0]) % len(ev.draw_ints)] % len(values)] if is_num(p) else None)
    out = values[-1]
    for k in range(len(values) - 2, -1, -1):
        out = ite(batom(mk("drawis", name, seed, pos, num(len(values)), num(k))), values[k], out)
    return out


def shuffled(ev, c, seed, pos):
    if ev.enumerate_draws:
        if c.op == "sel":
            return A.ite_any(c.args[0], [shuffled(ev, x, seed, pos) for x in c.args[1]])
        e = elements(c)
        if ev.draw_order is not None and e is not None and rank(c) == 1 and all(is_num(x) for x in e):
            # this case looks at one order of processing
            return arr(*sorted(e, key=lambda x: ev.draw_order.index(int(x.args[0]))))
        if e is not None and len(e) <= 3 and rank(c) == 1:
            import itertools
            ps = [arr(*p) for p in itertools.permutations(e)]
            out = ps[-1]
            for k in range(len(ps) - 2, -1, -1):
                out = ite(batom(mk("drawis", "shuffle", seed, pos, num(len(ps)), num(k))), ps[k], out)
            return out
    return mk("shuffled", c, tup(seed, pos))


def where_cases(cs):
    """indices of the true decisions: one list per combination"""
    def rec(i, sel_):
        if i == len(cs):
            return arr(*sel_)
        t = truth(cs[i])
        if t is TRUE:
            return rec(i + 1, sel_ + [num(i)])
        if t is FALSE:
            return rec(i + 1, sel_)
        return ite(t, rec(i + 1, sel_ + [num(i)]), rec(i + 1, sel_))
    return rec(0, [])


@reg("numpy.nonzero")
def _nonzero(ev, args, kw):
    return tup(_flatnonzero(ev, args, kw))


@reg("numpy.flatnonzero")
def _flatnonzero(ev, args, kw):
    c = to_array(ev.val(args[0]))
    if c.op == "map" and rank(c) == 1:
        n, (v,), (b,) = open_(c)
        return ev.alloc("array", fmapn("fmap", n, v, truth(b), v))
    if c.op == "arr" and rank(c) == 1 and all(truth(x) in (TRUE, FALSE) for x in c.args[0]):
        return ev.alloc("array", arr(*[num(i) for i, x in enumerate(c.args[0]) if truth(x) is TRUE]))
    if ev.enumerate_draws and c.op == "arr" and rank(c) == 1 and len(c.args[0]) <= 4:
        return ev.alloc("array", where_cases(c.args[0]))
    return ev.alloc("array", mk("app", "np.flatnonzero", (c,), ()))


@reg("numpy.argwhere")
def _argwhere(ev, args, kw):
    r = _flatnonzero(ev, args, kw)
    c = ev.content(r)
    if c.op == "fmap":
        n, (v,), (g, b) = open_(c)
        return ev.alloc("array", fmapn("fmap", n, v, g, arr(b)))
    return ev.opaque("argwhere")


@reg("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.atleast_1d", "numpy.copy", "numpy.asanyarray")
def _array(ev, args, kw):
    raise Unsupported


def _mkarray(copy):
    def g(ev, args, kw):
        x = args[0]
        if not copy and is_ref(x) and refkind(x) == "array":
            return x
        v = to_array(ev.val(x))
        dt = kw["dtype"] if "dtype" in kw else (args[1] if len(args) > 1 else None)
        if dt is not None and dt is not NONE:
            v = ew(lambda y: cast(ev, y, dt), v) if not (v.op == "sel" and rank(v) is None) else v
        if rank(v) == 0 and not is_array(v):
            return v if kind(v) in ("scalar", None) or is_num(v) else v
        return typed(ev, ev.alloc("array", v), dtname(dt))
    return g


for _n in ("array", "copy"):
    REG["numpy." + _n] = _mkarray(True)
for _n in ("asarray", "ascontiguousarray", "asfarray", "asanyarray"):
    REG["numpy." + _n] = _mkarray(False)


@reg("numpy.atleast_1d")
def _al1(ev, args, kw):
    x = args[0]
    if is_ref(x) and refkind(x) == "array":
        return x
    v = to_array(ev.val(x))
    return ev.alloc("array", arr(v) if rank(v) == 0 else v)


@reg("numpy.atleast_2d")
def _al2(ev, args, kw):
    x = args[0]
    v = to_array(ev.val(x))
    r = rank(v)
    if r == 2 and is_ref(x) and refkind(x) == "array":
        return x
    if r in (0, 1, 2) and (r or kind(v) == "scalar" or is_num(v)):
        return ev.alloc("array", v if r == 2 else arr(v) if r == 1 else arr(arr(v)))
    return ev.alloc("array", mk("app", "np.atleast_2d", (v,), ()))


@reg("numpy.fromiter")
def _fromiter(ev, args, kw):
    return ev.alloc("array", to_array(ev.val(ev.lbox(aslist(ev, args[0])))))


def _shape(ev, x):
    v = ev.val(x)
    return v


def dtname(t):
    """name of a type that does not hold every number, else None"""
    if t is None or t is NONE:
        return None
    n = t.args[0].split(".")[-1] if t.op in ("ext", "cls") else (t.args[0] if t.op == "c" else None)
    n = {"i": "int", "i8": "int", "i4": "int", "f4": "float32", "f": "float32", "f2": "float16", "?": "bool", "b": "int8"}.get(n, n)
    if isinstance(n, str) and (n in LOSSY or n in ("int", "int64", "int32", "intp", "int_", "bool", "bool_")):
        return n
    return None


def typed(ev, ref, n):
    """stores into the array convert to its type"""
    if n is not None and is_ref(ref) and ref.op == "new":
        ev.write(ref, "$dtype", const(n))
    return ref


def convert(ev, v, dt):
    return ew(lambda x: x if x is UNINIT or x is UNDEF or x.op == "uninit" else cast(ev, x, dt), v)


def _filled(k, default):
    def g(ev, args, kw):
        n = dtname(kw["dtype"] if "dtype" in kw else (args[k] if len(args) > k else None))
        v = ev.val(args[1] if len(args) > 1 else kw["fill_value"]) if k == 2 else default
        if n is not None and v is not None:
            v = cast(ev, v, const(n))
        x = _shape(ev, args[0] if args else kw["shape"])
        return typed(ev, ev.alloc("array", mkempty(x, v) if v is not None else mkempty(x)), n)
    return g


REG["numpy.empty"], REG["numpy.zeros"], REG["numpy.ones"], REG["numpy.full"] = _filled(1, None), _filled(1, ZERO), _filled(1, ONE), _filled(2, None)


def _like(fill):
    def g(ev, args, kw):
        c = to_array(ev.val(args[0]))
        f = fill if fill is not None else UNINIT
        return ev.box(ew(lambda x: f, c))
    return g


REG["numpy.zeros_like"], REG["numpy.ones_like"], REG["numpy.empty_like"] = _like(ZERO), _like(ONE), _like(None)
REG["numpy.full_like"] = lambda ev, a, kw: _like(ev.val(a[1] if len(a) > 1 else kw["fill_value"]))(ev, a, kw)


@reg("numpy.arange")
def _arange(ev, args, kw):
    a = [ev.val(x) for x in args]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
    if st is ONE or (is_num(st) and is_num(lo) and is_num(hi)):
        return ev.alloc("array", to_array(mkrange(lo, hi, st)))
    return ev.alloc("array", mk("app", "np.arange", (lo, hi, st), ()))


@reg("numpy.linspace")
def _linspace(ev, args, kw):
    a = [ev.val(x) for x in args]
    lo, hi = a[0], a[1]
    n = a[2] if len(a) > 2 else ev.val(kw.get("num", num(50)))
    ep = ev.val(kw.get("endpoint", TRUE))
    if rank(lo) != 0 or rank(hi) != 0:
        return ev.opaque("linspace", *a)
    den = sub(n, ONE) if ep is TRUE else n
    if is_num(n) and n is ONE:
        return ev.alloc("array", arr(lo))
    return ev.alloc("array", build([n], lambda k: add(lo, div(mul(sub(hi, lo), k), den))))


@reg("numpy.meshgrid")
def _meshgrid(ev, args, kw):
    axes = [to_array(ev.val(a)) for a in args]
    ij = ev.val(kw.get("indexing", const("xy"))) is const("ij")
    ns = [length(a) for a in axes]
    order = list(range(len(axes)))
    if not ij and len(axes) >= 2:
        order[0], order[1] = 1, 0
    out = []
    for k, a in enumerate(axes):
        pos = order.index(k)
        out.append(ev.alloc("array", build([ns[o] for o in order], lambda *idx, a=a, pos=pos: index(a, idx[pos]))))
    return ev.lbox(lst(*out))


@reg("numpy.stack")
def _stack(ev, args, kw):
    xs = elements(ev.val(args[0]))
    axis = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("axis", ZERO))
    if xs is None:
        return ev.alloc("array", to_array(ev.val(args[0]))) if axis is ZERO else ev.opaque("stack")
    xs = [to_array(x) for x in xs]
    if axis is ZERO:
        return ev.alloc("array", arr(*xs))
    r = rank(xs[0])
    if axis is num(-1) or r is not None and is_num(axis) and axis.args[0] == r:
        return ev.alloc("array", stackn(xs))
    if axis is ONE and r == 2:
        return ev.alloc("array", build(elements(A.shape_of(arr(*xs)))[1:2] + [num(len(xs))] + elements(A.shape_of(xs[0]))[1:],
                                       lambda i, k, j: index(index(index(arr(*xs), k), i), j)))
    return ev.opaque("stack axis", *xs)


def cstack(xs):
    """columns side by side (1d arrays become columns)"""
    rows = []
    r = {rank(x) for x in xs}
    if all(x.op == "arr" for x in xs):
        n = {len(x.args[0]) for x in xs}
        if len(n) == 1:
            out = []
            for k in range(n.pop()):
                row = []
                for x in xs:
                    el = x.args[0][k]
                    row += list(el.args[0]) if el.op == "arr" else [el]
                out.append(arr(*row))
            return arr(*out)
    if all(x.op == "map" for x in xs) and len({x.args[0] for x in xs}) == 1:
        v = fresh()
        row = []
        for x in xs:
            el = open_(x, [v])[2][0]
            if el.op == "arr":
                row += list(el.args[0])
            elif rank(el) == 0:
                row.append(el)
            else:
                return mk("app", "np.c_", tuple(xs), ())
        return mapn("map", xs[0].args[0], v, arr(*row))
    # rows selected by the same slice: stack first, slice afterwards
    if all(x.op == "index" and x.args[1].op == "slice" for x in xs) and len({x.args[1] for x in xs}) == 1:
        inner = cstack([x.args[0] for x in xs])
        if inner.op != "app":
            return index(inner, xs[0].args[1])
    if any(x.op == "sel" for x in xs):
        k = [i for i, x in enumerate(xs) if x.op == "sel"][0]
        x = xs[k]
        return A.ite_any(x.args[0], [cstack([T.decide(y, x.args[0], j) if m != k else b for m, y in enumerate(xs)])
                                     for j, b in enumerate(x.args[1])])
    return mk("app", "np.c_", tuple(xs), ())


@reg("numpy.column_stack")
def _colstack(ev, args, kw):
    e = elements(ev.val(args[0]))
    return ev.alloc("array", cstack([to_array(x) for x in e])) if e is not None else ev.opaque("column_stack")


@reg("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.append")
def _concat(ev, args, kw):
    raise Unsupported


def concat(ev, xs, axis):
    if xs and all(x.op == "arr" and not x.args[0] for x in xs):
        return arr()
    if axis is ONE or axis is num(-1) and all(rank(x) == 2 for x in xs):
        if all(rank(x) == 2 for x in xs):
            return cstack(xs)
    if axis is ZERO:
        if all(x.op == "arr" for x in xs):
            return arr(*[y for x in xs for y in x.args[0]])
    return mk("app", "np.concatenate", (tup(*xs),), (("axis", axis),))


def _concat_g(ev, args, kw):
    e = elements(ev.val(args[0]))
    axis = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("axis", ZERO))
    if e is None:
        return ev.alloc("array", mk("app", "np.concatenate", (ev.val(args[0]),), (("axis", axis),)))
    return ev.alloc("array", concat(ev, [to_array(x) for x in e], axis))


REG["numpy.concatenate"] = _concat_g


def _hstack(ev, args, kw):
    e = elements(ev.val(args[0]))
    if e is None:
        return ev.opaque("hstack")
    xs = [to_array(x) for x in e]
    return ev.alloc("array", concat(ev, xs, ZERO if rank(xs[0]) == 1 else ONE))


def _vstack(ev, args, kw):
    e = elements(ev.val(args[0]))
    if e is None:
        v = to_array(ev.val(args[0]))
        return ev.alloc("array", v) if rank(v) == 2 else ev.opaque("vstack")
    xs = [to_array(x) for x in e]
    xs = [arr(x) if rank(x) == 1 else x for x in xs]
    return ev.alloc("array", concat(ev, xs, ZERO))


REG["numpy.hstack"], REG["numpy.vstack"], REG["numpy.row_stack"] = _hstack, _vstack, _vstack
REG["numpy.append"] = lambda ev, a, kw: ev.alloc("array", concat(ev, [flatten(to_array(ev.val(a[0]))), flatten(
    to_array(ev.val(a[1])) if rank(to_array(ev.val(a[1]))) != 0 else arr(ev.val(a[1])))], ZERO))


@reg("numpy.reshape")
def _np_reshape(ev, args, kw):
    x = args[0]
    if not (is_ref(x) and refkind(x) == "array"):
        x = ev.alloc("array", to_array(ev.val(x)))
    return array_method(ev, x, "reshape", list(args[1:]) or [kw["shape"] if "shape" in kw else kw.get("newshape")], {k: v for k, v in kw.items() if k == "order"}, None)


@reg("numpy.ravel")
def _np_ravel(ev, args, kw):
    return ev.alloc("array", flatten(to_array(ev.val(args[0]))))


@reg("numpy.transpose")
def _np_T(ev, args, kw):
    c = to_array(ev.val(args[0]))
    ax = ev.val(args[1] if len(args) > 1 else kw.get("axes", NONE))
    if ax is not NONE:
        e = elements(ax)
        p = axes_of(ev, c, e) if e is not None else None
        if p is None or sorted(p) != list(range(rank(c))):
            return ev.opaque("transpose axes")
        return ev.alloc("array", permute(c, p))
    return ev.alloc("array", transpose(c))


def _np_swap(ev, args, kw, move):
    c = to_array(ev.val(args[0]))
    names = ("axis1", "axis2")
    ab = [args[k + 1] if len(args) > k + 1 else kw.get(names[k], kw.get(("source", "destination")[k])) for k in range(2)]
    p = axes_of(ev, c, ab) if None not in ab else None
    if p is None:
        return ev.opaque("swapaxes", c)
    order = list(range(rank(c)))
    if move:
        order.remove(p[0])
        order.insert(p[1], p[0])
    else:
        order[p[0]], order[p[1]] = order[p[1]], order[p[0]]
    return ev.alloc("array", permute(c, order))


REG["numpy.swapaxes"] = lambda ev, a, kw: _np_swap(ev, a, kw, False)
REG["numpy.moveaxis"] = lambda ev, a, kw: _np_swap(ev, a, kw, True)


@reg("numpy.shape")
def _np_shape(ev, args, kw):
    return A.shape_of(to_array(ev.val(args[0])))


@reg("numpy.ndim")
def _np_ndim(ev, args, kw):
    r = rank(to_array(ev.val(args[0])))
    return num(r) if r is not None else mk("ndim", ev.val(args[0]))


@reg("numpy.size")
def _np_size(ev, args, kw):
    return A.count(to_array(ev.val(args[0])))


@reg("numpy.fill_diagonal")
def _filldiag(ev, args, kw):
    o, h = args[0], ev.val(args[1])
    c = ev.content(o) if is_ref(o) else o
    if c.op == "map" and rank(c) == 2:
        n, (i,), (b,) = open_(c)
        if b.op == "map":
            m, (j,), (bb,) = open_(b)
            ev.write(o, "", mapn("map", n, i, mapn("map", m, j, ite(eq(i, j), h, bb))))
            ev.effect("inplace", o)
            return NONE
    if c.op == "arr":
        ev.write(o, "", arr(*[array_store(ev, row, num(k), h) for k, row in enumerate(c.args[0])]))
        return NONE
    ev.write(o, "", mk("app", "np.fill_diagonal", (c, h), ()))
    return NONE


@reg("numpy.array_equal")
def _array_equal(ev, args, kw):
    a, b = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    if a is b:
        return TRUE
    sa, sb = A.shape_of(a), A.shape_of(b)
    return land(eqval(sa, sb), A.reduce_("all", ew(eq, a, b))) if eqval(sa, sb) is not FALSE else FALSE


@reg("numpy.clip")
def _clip(ev, args, kw):
    x = to_array(ev.val(args[0]))
    lo = to_array(ev.val(args[1] if len(args) > 1 else kw.get("a_min", NONE)))
    hi = to_array(ev.val(args[2] if len(args) > 2 else kw.get("a_max", NONE)))
    r = x
    if lo is not NONE:
        r = ew(lambda a, b: ite(lt(a, b), b, a), r, lo)
    if hi is not NONE:
        r = ew(lambda a, b: ite(gt(a, b), b, a), r, hi)
    out = kw.get("out")
    if out is not None and is_ref(out):
        ev.write(out, "", r)
        return out
    return ev.box(r)


@reg("numpy.trapz", "numpy.trapezoid", "scipy.integrate.trapezoid", "scipy.integrate.trapz")
def _trapz(ev, args, kw):
    y = to_array(ev.val(args[0]))
    dx = ev.val(kw.get("dx", ONE))
    axis = ev.val(kw.get("axis", num(-1)))
    if len(args) > 1 and args[1] is not NONE or "x" in kw:
        xs = to_array(ev.val(args[1] if len(args) > 1 else kw["x"]))
        e, f = elements(y), elements(xs)
        if e is not None and f is not None and rank(y) == 1:
            return add(*[mul(HALF, add(e[k], e[k + 1]), sub(f[k + 1], f[k])) for k in range(len(e) - 1)])
        return ev.opaque("trapz", y)

    def last(t):
        if rank(t) == 1:
            e = elements(t)
            if e is None:
                return mk("app", "np.trapz", (t,), (("dx", dx),))
            return mul(dx, add(*[mul(HALF, add(e[k], e[k + 1])) for k in range(len(e) - 1)])) if len(e) > 1 else ZERO
        if t.op == "arr":
            return arr(*[last(x) for x in t.args[0]])
        if t.op == "map":
            n, (v,), (b,) = open_(t)
            return mapn("map", n, v, last(b))
        return mk("app", "np.trapz", (t,), (("dx", dx),))
    r = rank(y)
    if axis is num(-1) or r is not None and is_num(axis) and axis.args[0] == r - 1:
        return ev.box(last(y))
    if axis is ZERO and y.op == "arr":
        e = y.args[0]
        out = ew(lambda a, b: add(a, b), *[e[0], e[1]]) if len(e) > 1 else e[0]
        tot = None
        for k in range(len(e) - 1):
            s = ew(lambda a, b: mul(HALF, add(a, b), dx), e[k], e[k + 1])
            tot = s if tot is None else ew(add, tot, s)
        return ev.box(tot)
    return ev.opaque("trapz", y)


# polynomials
def pdim(c):
    return rank(c)


def polyeval(c, xs):
    """sum c[i,j,..] x^i y^j ..  (coefficients are a nested array of known shape)"""
    if not xs:
        return c
    e = elements(c)
    return add(*[mul(polyeval(a, xs[1:]), power(xs[0], num(k))) for k, a in enumerate(e)]) if e else ZERO


for _d, _n in ((1, "polyval"), (2, "polyval2d"), (3, "polyval3d")):
    def _pv(ev, args, kw, d=_d):
        xs = [to_array(ev.val(a)) for a in args[:d]]
        c = to_array(ev.val(args[d]))
        if elements(c) is None or rank(c) is None:
            return ev.opaque("polyval", *xs, c)
        if rank(c) != d:
            return ev.opaque("polyval dimension", *xs, c)
        return ev.box(ew(lambda *p: polyeval(c, list(p)), *xs))
    REG["numpy.polynomial.polynomial." + _n] = _pv


@reg("numpy.polynomial.polynomial.polyder")
def _polyder(ev, args, kw):
    c = to_array(ev.val(args[0]))
    m = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("m", ONE))
    axis = ev.val(kw.get("axis", ZERO))
    scl = ev.val(kw.get("scl", ONE))

    def der(t, ax):
        if ax == 0:
            e = elements(t)
            if len(e) == 1:
                return arr(ew(lambda x: ZERO, e[0]))
            return arr(*[ew(lambda x, k=k: mul(num(k), scl, x), x_) for k, x_ in enumerate(e) if k > 0])
        return arr(*[der(x, ax - 1) for x in elements(t)])
    if rank(c) is None or not is_num(axis) or not is_num(m):
        return ev.opaque("polyder", c)
    ax = int(axis.args[0])
    if ax < 0:
        ax += rank(c)
    for _ in range(int(m.args[0])):
        c = der(c, ax)
    return ev.alloc("array", c)


@reg("numpy.random.default_rng", "numpy.random.RandomState")
def _drng(ev, args, kw):
    s = args[0] if args else kw.get("seed", NONE)
    if is_ref(s) and refkind(s) == "rng":
        return s
    return rng_new(ev, s)


REG["numpy.random.Generator"] = lambda ev, a, kw: rng_new(ev, a[0])
REG["numpy.random.PCG64"] = lambda ev, a, kw: ev.val(a[0]) if a else NONE
REG["numpy.random.SeedSequence"] = lambda ev, a, kw: ev.val(a[0]) if a else NONE


@reg("numpy.histogramdd")
def _histdd(ev, args, kw):
    data = to_array(ev.val(args[0] if args else kw["sample"]))
    bins = args[1] if len(args) > 1 else kw.get("bins", num(10))
    rng = args[2] if len(args) > 2 else kw.get("range", NONE)
    b = ev.val(bins)
    e = elements(b)
    if e is None:
        return ev.opaque("histogramdd", data, b)
    edges = []
    r = ev.val(rng)
    for k, x in enumerate(e):
        if rank(x) == 0:
            if r is NONE or not is_num(x):
                return ev.opaque("histogramdd bins", data, b)
            rk = index(r, num(k))
            lo, hi = index(rk, ZERO), index(rk, ONE)
            n = int(x.args[0])
            edges.append(arr(*[add(lo, mul(sub(hi, lo), num(Fraction(j, n)))) for j in range(n + 1)]))
        else:
            edges.append(to_array(x))
    et = tup(*edges)
    ns = [sub(length(x), ONE) for x in edges]
    extra = tuple(sorted((k, ev.val(v)) for k, v in kw.items() if k in ("weights", "density", "normed")))
    pts = elements(A.expand(data)) if not extra else None
    es_ = [elements(x) for x in edges]

    def inside(p, idx):
        c = TRUE
        for k, i in enumerate(idx):
            i = int(i.args[0])
            x = index(p, num(k))
            c = land(c, le(es_[k][i], x), (le if i == len(es_[k]) - 2 else lt)(x, es_[k][i + 1]))
        return ite(c, ONE, ZERO)

    def cell(*idx):
        if None not in es_ and all(is_num(i) for i in idx):
            if pts is not None and all(rank(p) == 1 for p in pts):
                return add(*[inside(p, idx) for p in pts]) if pts else ZERO
            if data.op == "map" and not extra:
                n, (v,), (p,) = open_(data)
                if rank(p) == 1:
                    return T.bigsum(n, v, inside(p, idx))
        return mk("histc", data, et, tup(*idx), tup(*[v for _, v in extra]))
    h = build(ns, cell)
    return tup(ev.alloc("array", h), ev.lbox(lst(*[ev.alloc("array", x) for x in edges])))


@reg("numpy.savetxt")
def _savetxt(ev, args, kw):
    f, mode = fname(ev, args[0])
    names = ["fname", "X", "fmt", "delimiter", "newline", "header", "footer", "comments"]
    opts = {"fmt": const("%.18e"), "delimiter": const(" "), "newline": const("\n"), "header": const(""), "footer": const(""),
            "comments": const("# ")}
    for n, a in zip(names[2:], args[2:]):
        opts[n] = ev.val(a)
    for k, v in kw.items():
        opts[k] = ev.val(v)
    x = to_array(ev.val(args[1] if len(args) > 1 else kw["X"]))
    es = table_entries(x, opts["fmt"])
    if opts["header"] is not const(""):
        h = opts["header"]
        if h.op != "plumed" or opts["comments"] is not const(""):
            h = mkfstr([opts["comments"], h]) if h.op != "plumed" else mk("uf", "commented", opts["comments"], h)
        es = [header_entry(h)] + es
    fwrite(ev, f, es, not (is_ref(args[0]) and refkind(args[0]) == "file"))
    pending(ev, args[0])
    io(ev, "savetxt", f, mode, x, *[opts[k] for k in ("fmt", "header", "comments", "delimiter")])
    return NONE


@reg("numpy.genfromtxt", "numpy.loadtxt")
def _genfromtxt(ev, args, kw):
    return ev.alloc("array", mk("uf", "genfromtxt", ev.val(args[0])))


@reg("numpy.errstate", "numpy.seterr", "numpy.set_printoptions", "contextlib.suppress", "contextlib.nullcontext")
def _errstate(ev, args, kw):
    return mk("ext", "errstate")


@reg("builtins.open", "io.open")
def _open(ev, args, kw):
    name = ev.val(args[0] if args else kw["file"])
    mode = ev.val(args[1] if len(args) > 1 else kw.get("mode", const("r")))
    r = ev.alloc("file")
    ev.write(r, "name", name)
    ev.write(r, "mode", mode)
    b = args[2] if len(args) > 2 else kw.get("buffering")
    if b is not None and ev.val(b) in (ZERO, ONE):
        ev.write(r, "direct", TRUE)
    if ev.handled("FileNotFoundError") and mode.op == "c" and mode.args[0].startswith("r"):
        ev.implicit("FileNotFoundError", batom(mk("truthy", mk("uf", "nofile", name))))
    if mode.op == "c" and mode.args[0][:1] in ("w", "x"):
        fwrite(ev, name, [], True)
    elif mode.op == "c" and mode.args[0][:1] == "a":
        fwrite(ev, name, [], False)
    io(ev, "open", name, mode)
    return r


@reg("scipy.spatial.distance.pdist")
def _pdist(ev, args, kw):
    x = to_array(ev.val(args[0]))
    m = ev.val(args[1]) if len(args) > 1 else ev.val(kw.get("metric", const("euclidean")))
    if x.op == "map" and m.op == "c" and m.args[0] in ("sqeuclidean", "euclidean"):
        i, j = fresh(), fresh()
        a, b = open_(x, [i])[2][0], open_(x, [j])[2][0]
        d = A.reduce_("sum", ew(lambda p, q: power(sub(p, q), TWO), a, b))
        if m.args[0] == "euclidean":
            d = sqrt(d)
        return ev.alloc("array", bind("cond2", x.args[0], [i, j], d))
    es = elements(A.expand(x)) if rank(x) == 2 else None
    if es is not None and m.op == "c" and m.args[0] in ("sqeuclidean", "euclidean"):
        out = []
        for i in range(len(es)):
            for j in range(i + 1, len(es)):
                d = A.reduce_("sum", ew(lambda p, q: power(sub(p, q), TWO), es[i], es[j]))
                out.append(sqrt(d) if m.args[0] == "euclidean" else d)
        return ev.alloc("array", arr(*out))
    return ev.alloc("array", mk("app", "scipy.spatial.distance.pdist", (x, m), ()))


@reg("scipy.spatial.distance.cdist")
def _cdist(ev, args, kw):
    x, y = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    m = ev.val(args[2]) if len(args) > 2 else ev.val(kw.get("metric", const("euclidean")))
    if m.op == "c" and m.args[0] in ("sqeuclidean", "euclidean") and rank(x) == 2 and rank(y) == 2:
        def el(i, j):
            d = A.reduce_("sum", ew(lambda p, q: power(sub(p, q), TWO), index(x, i), index(y, j)))
            return d if m.args[0] == "sqeuclidean" else sqrt(d)
        return ev.alloc("array", build([length(x), length(y)], el))
    return ev.opaque("cdist", x, y)


@reg("scipy.spatial.distance.squareform")
def _squareform(ev, args, kw):
    x = to_array(ev.val(args[0]))
    if x.op == "cond2":
        i, j = fresh(), fresh()
        n = x.args[0]
        a, b = open_(x, [i, j])[2][0], open_(x, [j, i])[2][0]
        if a is b:
            body = ite(eq(i, j), ZERO, a)
        else:
            body = ite(lt(i, j), a, ite(lt(j, i), b, ZERO))
        return ev.alloc("array", mapn("map", n, i, mapn("map", n, j, body)))
    es = elements(A.expand(x)) if rank(x) == 1 else None
    if es is not None:
        n = 1
        while n * (n - 1) // 2 < len(es):
            n += 1
        if n * (n - 1) // 2 == len(es):
            it = iter(es)
            m = {(i, j): next(it) for i in range(n) for j in range(i + 1, n)}
            return ev.alloc("array", arr(*[arr(*[ZERO if i == j else m[min(i, j), max(i, j)] for j in range(n)]) for i in range(n)]))
    t = mk("app", "scipy.spatial.distance.squareform", (x,), ())
    T.KIND[t] = "array"
    return ev.alloc("array", t)


def _nest(t):
    """explicit nested elements -> (shape, {index: term}) or None"""
    es = elements(A.expand(t)) if t.op in ("arr", "map") else None
    if t.op not in ("arr", "map"):
        return ((), {(): t}) if A.rank(t) == 0 else None
    if es is None or not es:
        return None
    out, shp = {}, None
    for i, e in enumerate(es):
        r = _nest(e)
        if r is None or shp is not None and r[0] != shp:
            return None
        shp = r[0]
        for k, v in r[1].items():
            out[(i,) + k] = v
    return (len(es),) + shp, out


def _unnest(shape, f, idx=()):
    if len(idx) == len(shape):
        return f(idx)
    return arr(*[_unnest(shape, f, idx + (i,)) for i in range(shape[len(idx)])])


def convolution(a, b, mode):
    """explicit discrete convolution of small arrays, cropped as scipy.signal.convolve does"""
    import itertools
    (sa, ea), (sb, eb) = a, b
    if len(sa) != len(sb) or not sa or len(ea) * len(eb) > 4000:
        return None
    full = {}
    for i, x in ea.items():
        for j, y in eb.items():
            full.setdefault(tuple(p + q for p, q in zip(i, j)), []).append(mul(x, y))
    if mode == "full":
        off, shp = [0] * len(sa), [p + q - 1 for p, q in zip(sa, sb)]
    elif mode == "same":
        off, shp = [(q - 1) // 2 for q in sb], list(sa)
    elif mode == "valid":
        if not (all(p >= q for p, q in zip(sa, sb)) or all(p <= q for p, q in zip(sa, sb))):
            return None
        off, shp = [min(p, q) - 1 for p, q in zip(sa, sb)], [abs(p - q) + 1 for p, q in zip(sa, sb)]
    else:
        return None
    return _unnest(shp, lambda i: add(*full[tuple(p + q for p, q in zip(i, off))]))


@reg("scipy.signal.convolve", "scipy.signal.fftconvolve", "scipy.signal.oaconvolve")
def _convolve(ev, args, kw):
    names = ["in1", "in2", "mode", "method"]
    d = {"mode": const("full")}
    alias = {"a": "in1", "v": "in2"}
    for n, a in zip(names, args):
        d[n] = ev.val(a)
    for k, v in kw.items():
        d[alias.get(k, k)] = ev.val(v)
    x, y = to_array(d["in1"]), to_array(d["in2"])
    a, b = _nest(x), _nest(y)
    if a is not None and b is not None and d["mode"].op == "c":
        r = convolution(a, b, d["mode"].args[0])
        if r is not None:
            return ev.alloc("array", r)
    t = mk("uf", "convolve", x, y, d["mode"])
    T.KIND[t] = "array"
    return ev.alloc("array", t)


@reg("numpy.convolve")
def _npconvolve(ev, args, kw):
    a = list(args)
    if len(a) >= 2:
        x, y = _nest(to_array(ev.val(a[0]))), _nest(to_array(ev.val(a[1])))
        if x is not None and y is not None:
            if x[0] < y[0]:
                a[0], a[1] = a[1], a[0]
            return _convolve(ev, a, kw)
    return ev.opaque("call numpy.convolve", *[ev.val(x) for x in args])


def interp_at(base, x):
    """interpolation reproduces the data at the data points"""
    ps, vs = elements(base.args[1]), elements(base.args[2])
    if ps is not None and vs is not None and len(ps) == len(vs) and is_array(x):
        for p, v in zip(ps, vs):
            if p is x:
                return v
    return mk("interp", base, x)


@reg("scipy.interpolate.griddata")
def _griddata(ev, args, kw):
    names = ["points", "values", "xi", "method", "fill_value", "rescale"]
    d = {"method": const("linear"), "fill_value": NAN, "rescale": FALSE}
    for n, a in zip(names, args):
        d[n] = ev.val(a)
    for k, v in kw.items():
        d[k] = ev.val(v)
    xi = to_array(d["xi"])
    base = mk("uf", "griddata", to_array(d["points"]), to_array(d["values"]), d["method"], d["fill_value"], d["rescale"])
    if rank(xi) == 2:
        def el(k):
            return interp_at(base, index(xi, k))
        return ev.alloc("array", build([length(xi)], el))
    if rank(xi) == 1 and xi.op == "arr":
        return ev.alloc("array", arr(interp_at(base, xi)))
    t = mk("uf", "griddata_at", base, xi)
    T.KIND[t] = "array"
    return ev.alloc("array", t)


# ---- copy
def deepcopy(ev, x, memo=None):
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    if x.op == "sel" and ev._has_ref(x):
        return A.ite_any(x.args[0], [deepcopy(ev, y, memo) for y in x.args[1]])
    if x.op == "new":
        k = x.args[1]
        if k in ("array",):
            r = ev.alloc("array", ev.content(x))
        elif k in ("list", "dict", "set"):
            r = ev.alloc(k)
            memo[x] = r
            ev.write(r, "", deepcopy(ev, ev.content(x), memo))
        elif k.startswith("cls:") or k == "rng":
            r = ev.alloc(k)
            memo[x] = r
            ev.write(r, "$copyof", x)
            fields = {f for (u, f) in list(ev.s.heap) + list(ev.static) if u == x.args[0]}
            for f in sorted(fields):
                v = ev.read(x, f)
                if v is not None and not f.startswith("$copy"):
                    ev.write(r, f, deepcopy(ev, v, memo))
        else:
            return x
        memo[x] = r
        return r
    if x.op in ("view", "rview"):
        r = ev.alloc("array", ev.content(x))
        memo[x] = r
        return r
    if x.op in ("index", "lc", "attr", "dcopy", "scopy") and kind(x) != "scalar":
        ev.uid += 1
        return mk("dcopy", x, str(ev.uid), *ev.loopvars)
    if not ev._has_ref(x):
        return x
    if x.op == "tuple":
        return tup(*[deepcopy(ev, y, memo) for y in x.args[0]])
    if x.op == "seq":
        return seq(*[(k, deepcopy(ev, y, memo)) for k, y in x.args[0]])
    if x.op == "dict":
        return mk("dict", tuple((k, deepcopy(ev, y, memo)) for k, y in x.args[0]))
    if x.op == "bound" and x.args[0] in memo:
        return mk("bound", memo[x.args[0]], *x.args[1:])
    if x.op == "lmap":
        n, (v,), (b,) = open_(x)
        if b.op == "new" and b.args[2:] and b.args[-1] is v:
            # a family of objects is copied as a family
            k = b.args[1]
            ev.loopvars.append(v)
            r = deepcopy(ev, b, {})
            ev.loopvars.pop()
            for key, t in list(ev.s.heap.items()):
                if t.op == "store" and t.args[0] is UNDEF and t.args[1] is v:
                    ev.s.heap[key] = mapn("lmap", n, v, t.args[2])
            return mapn("lmap", n, v, r)
    return x


@reg("copy.deepcopy")
def _deepcopy(ev, args, kw):
    return deepcopy(ev, args[0])


@reg("copy.copy")
def _copy(ev, args, kw):
    x = args[0]
    if x.op == "sel" and ev._has_ref(x):
        return A.ite_any(x.args[0], [_copy(ev, [y], kw) for y in x.args[1]])
    k = refkind(x)
    if k in ("array", "list", "dict", "set"):
        return ev.alloc(k, ev.content(x))
    if k and k.startswith("cls:"):
        r = ev.alloc(k)
        for f in sorted({f for (u, f) in list(ev.s.heap) + list(ev.static) if u == x.args[0]}):
            v = ev.read(x, f)
            if v is not None:
                ev.write(r, f, v)
        ev.write(r, "$shallowcopyof", x)
        return r
    if x.op in ("index", "lc", "attr", "dcopy", "scopy") and kind(x) != "scalar":
        ev.uid += 1
        return mk("scopy", x, str(ev.uid), *ev.loopvars)
    return x


# ---- builtins
@reg("builtins.len")
def _len(ev, args, kw):
    x = args[0]
    if x.op == "sel":
        return ev.branch_term(x, lambda y: _len(ev, [y], kw))
    c = ev.cls_of(x) if is_ref(x) else None
    if c is not None:
        r = ev.class_lookup(c, "__len__")
        if r:
            return ev.call_func(r[1], [x], {}, r[2])
        t = ev.read(x, "$tuple")
        if t is not None:
            return length(t)
    if x in ev.rawsets:
        return ev.opaque("size of a set")
    m = SPECIAL.get(x)
    if m is not None and hasattr(m, "len"):
        return m.len(ev)
    v = ev.content(x) if is_ref(x) else A.expand(x)
    if v.op == "sel":
        return length(v)
    if (is_num(v) or v is NONE or (kind(v) == "scalar")) and v.op not in ("index",):
        ev.implicit("TypeError", TRUE)
        return UNDEF
    if v.op in ("zip", "enumerate"):
        return length(aslist(ev, x))
    return length(v)


@reg("builtins.range")
def _range(ev, args, kw):
    a = [ev.val(x) for x in args]
    if len(a) == 1:
        return mkrange(ZERO, a[0], ONE)
    return mkrange(a[0], a[1], a[2] if len(a) > 2 else ONE)


REG["builtins.enumerate"] = lambda ev, a, kw: mk("enumerate", a[0], ev.val(a[1] if len(a) > 1 else kw.get("start", ZERO)))
REG["builtins.zip"] = lambda ev, a, kw: mk("zip", tuple(a))
REG["itertools.zip_longest"] = lambda ev, a, kw: ev.opaque("zip_longest")
REG["builtins.list"] = lambda ev, a, kw: ev.lbox(ordered(ev, a[0]) if a else seq())
REG["builtins.set"] = lambda ev, a, kw: newset(ev, aslist(ev, a[0]) if a else seq())
REG["builtins.frozenset"] = REG["builtins.set"]
REG["builtins.iter"] = lambda ev, a, kw: a[0]
REG["builtins.callable"] = lambda ev, a, kw: const(a[0].op in ("fn", "closure", "bound", "cls", "ext", "partial", "fnof"))
REG["builtins.id"] = lambda ev, a, kw: mk("uf", "id", a[0])
REG["typing.cast"] = lambda ev, a, kw: a[1]
REG["builtins.repr"] = lambda ev, a, kw: mk("fmtval", ev.val(a[0]), "r")
REG["builtins.object"] = lambda ev, a, kw: ev.alloc("object")


def _args(names, defaults, a, kw):
    d = dict(defaults)
    d.update(zip(names, a))
    d.update(kw)
    return d


@reg("bdld.helpers.misc.initialize_file")
def _initialize(ev, a, kw):
    d = _args(("filename", "fields", "constants", "comment_delim", "overwrite"), {"fields": NONE, "constants": NONE, "overwrite": FALSE}, a, kw)
    name = d["filename"]
    over = truth(ev.val(d["overwrite"]))
    if over is FALSE:
        fbackup(ev, name)
    elif over is not TRUE:
        ev.branch_term(choose(over.args[0], list(over.args[1])) if over.op == "sel" else ite(over, TRUE, FALSE),
                       lambda x: (NONE if x is TRUE else (fbackup(ev, name), NONE)[1]))
    f = ev.val(d["fields"])
    fwrite(ev, name, [tup(const("header"), deepval(ev, f), deepval(ev, d["constants"]))], True)
    io(ev, "initialize_file", ev.val(name), f, ev.val(d["constants"]))
    return NONE


@reg("bdld.helpers.misc.backup_if_exists")
def _backup(ev, a, kw):
    name = a[0] if a else next(iter(kw.values()))
    fbackup(ev, name)
    io(ev, "backup", ev.val(name))
    return NONE


@reg("bdld.helpers.misc.make_ordinal")
def _ordinal(ev, a, kw):
    t = mk("uf", "ordinal", ev.val(a[0]))
    T.KIND[t] = "str"
    return t


@reg("bdld.helpers.misc.write_2d_sliced_to_file")
def _write2d(ev, a, kw):
    d = _args(("filename", "data", "n_bins", "fmt", "header"), {"fmt": const("%.18e"), "header": NONE}, a, kw)
    x = to_array(ev.val(d["data"]))
    es = table_entries(x, ev.val(d["fmt"]))
    h = ev.val(d["header"])
    if h is not NONE and h is not const(""):
        es = [header_entry(h)] + es
    es.append(tup(const("sliced"), deepval(ev, d["n_bins"])))
    fwrite(ev, d["filename"], es, True)
    io(ev, "write_2d", ev.val(d["filename"]), x)
    return NONE


@reg("bdld.helpers.plumed_header.PlumedHeader")
def _plumed(ev, a, kw):
    d = _args(("fields", "constants", "comment_delim"), {"fields": NONE, "constants": NONE}, a, kw)
    t = mk("plumed", deepval(ev, d["fields"]), deepval(ev, d["constants"]))
    T.KIND[t] = "str"
    return t


def deepval(ev, t):
    """value with nested containers resolved"""
    return ev.val(t)


REG["functools.partial"] = lambda ev, a, kw: mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())))
REG["sys.exit"] = lambda ev, a, kw: (ev.raise_("SystemExit", tuple(ev.val(x) for x in a)), UNDEF)[1]
REG["builtins.exit"] = REG["sys.exit"]
REG["builtins.quit"] = REG["sys.exit"]
REG["builtins.input"] = lambda ev, a, kw: (ev.effect("nondet", "input"), mk("globalrv", "input", mk("c", ev.uid)))[1]
def _splitext(ev, a, kw):
    import os.path
    v = ev.val(a[0])
    if v.op == "c" and isinstance(v.args[0], str):
        return tup(*[const(x) for x in os.path.splitext(v.args[0])])
    return ev.opaque("splitext", v)


REG["os.path.splitext"] = _splitext
REG["os.path.exists"] = lambda ev, a, kw: batom(mk("truthy", mk("uf", "exists", ev.val(a[0]))))
REG["os.path.isfile"] = lambda ev, a, kw: batom(mk("truthy", mk("uf", "exists", ev.val(a[0]))))
REG["os.path.join"] = lambda ev, a, kw: mkfstr([x for k, y in enumerate(a) for x in ([const("/")] if k else []) + [ev.val(y)]])
for _n in ("os.remove", "os.rename", "os.replace", "os.unlink", "shutil.move", "shutil.copy", "shutil.rmtree", "os.makedirs", "os.mkdir"):
    REG[_n] = (lambda n: lambda ev, a, kw: (io(ev, n, *[ev.val(x) for x in a]), NONE)[1])(_n)


@reg("numpy.isclose")
def _isclose(ev, args, kw):
    a, b = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    rt = ev.val(args[2] if len(args) > 2 else kw.get("rtol", num(Fraction(1, 10 ** 5))))
    at = ev.val(args[3] if len(args) > 3 else kw.get("atol", num(Fraction(1, 10 ** 8))))
    if set(kw) - {"rtol", "atol"}:
        return ev.opaque("isclose")
    one = lambda x, y: le(absval(sub(x, y)), add(at, mul(rt, absval(y))))
    if rank(a) == 0 and rank(b) == 0:
        return one(a, b)
    return ew(one, a, b)


@reg("numpy.allclose")
def _allclose(ev, args, kw):
    r = _isclose(ev, args, kw)
    return r if rank(r) == 0 else REG["numpy.all"](ev, [ev.box(r)], {})


@reg("numpy.unique")
def _unique(ev, args, kw):
    x = to_array(ev.val(args[0]))
    extra = {k: v for k, v in kw.items() if k != "axis"}
    ax = ev.val(kw["axis"]) if "axis" in kw else NONE
    if x.op == "sel" and not extra:
        return ev.branch_term(x, lambda y: _unique(ev, [y], kw))
    rows = elements(x)
    if extra or len(args) > 1 or rows is None or ax not in (NONE, ZERO):
        return ev.opaque("np.unique")
    if ax is NONE:
        flat = A.flatten_elements(x) if hasattr(A, "flatten_elements") else None
        if flat is None:
            flat = rows if rank(x) == 1 else None
        if flat is None or not all(is_num(y) for y in flat):
            return ev.opaque("np.unique")
        return ev.box(arr(*sorted(set(flat), key=lambda y: y.args[0])))
    keys = [[y] if rank(y) == 0 else elements(y) for y in rows]
    if not all(k is not None and all(is_num(y) for y in k) for k in keys):
        return ev.opaque("np.unique")
    best = {}
    for k, y in zip(keys, rows):
        best[tuple(z.args[0] for z in k)] = y
    return ev.box(arr(*[best[k] for k in sorted(best)]))


@reg("builtins.vars")
def _vars(ev, args, kw):
    return ev.getattr(args[0], "__dict__") if args else ev.opaque("vars()")


@reg("builtins.tuple")
def _tuple(ev, args, kw):
    if not args:
        return tup()
    c = ordered(ev, args[0])
    e = elements(c)
    return tup(*e) if e is not None else (A.ite_any(c.args[0], [_tuple(ev, [x], {}) for x in c.args[1]]) if c.op == "sel" else c)


@reg("builtins.dict", "collections.OrderedDict")
def _dict(ev, args, kw):
    d = mk("dict", ())
    if args:
        x = args[0]
        c = ev.content(x) if is_ref(x) else x
        if c.op == "dict":
            d = c
        elif c.op in ("zip", "enumerate"):
            c = aslist(ev, x)
        if c.op != "dict":
            def build(c):
                if c.op == "sel":
                    return A.ite_any(c.args[0], [build(y) for y in c.args[1]])
                e = elements(c)
                if e is None:
                    return ev.opaque("dict()", c)
                d = mk("dict", ())
                for p in e:
                    kv = ev.unpack(p, 2)
                    d = store(d, ev.val(kv[0]), kv[1])
                return d
            d = build(c)
    for k, v in kw.items():
        d = store(d, const(k), v) if d.op == "dict" else ev.opaque("dict()")
    return ev.alloc("dict", d)


@reg("collections.defaultdict")
def _ddict(ev, args, kw):
    return ev.alloc("dict", mk("dict", ()))


def sorted_(ev, c, key=None, reverse=None):
    e = elements(c)
    if e is None:
        if key is None and reverse is None:
            return mk("app", "py.sorted", (ev.val(c),), ())
        return ev.opaque("sorted", c)
    ks = [ev.val(ev.call(key, [x], {})) if key is not None and key is not NONE else ev.val(x) for x in e]
    rev = reverse is not None and ev.val(reverse) is TRUE
    items = list(zip(ks, e))
    if all(k.op == "num" for k in ks) or all(k.op == "c" and isinstance(k.args[0], str) for k in ks):
        return lst(*[x for _, x in sorted(items, key=lambda kx: kx[0].args[0], reverse=rev)])
    if len(e) > 4:
        return ev.opaque("sorted", c)
    # insertion sort network (stable)
    for i in range(1, len(items)):
        for j in range(i, 0, -1):
            (ka, a), (kb, b) = items[j - 1], items[j]
            sw = compare(ev, "Gt" if rev else "Lt", kb, ka)
            items[j - 1] = (ite(sw, kb, ka), ite(sw, b, a))
            items[j] = (ite(sw, ka, kb), ite(sw, a, b))
    return lst(*[x for _, x in items])


def npsort(ev, c):
    if rank(c) == 1 and elements(c) is not None:
        r = sorted_(ev, c)
        e = elements(r)
        if e is not None:
            return arr(*e)
    return mk("app", "np.sort", (c,), ())


@reg("numpy.sort")
def _npsort(ev, args, kw):
    return ev.box(npsort(ev, to_array(ev.val(args[0]))))


@reg("builtins.sorted")
def _sorted(ev, args, kw):
    return ev.lbox(sorted_(ev, aslist(ev, args[0]), kw.get("key"), kw.get("reverse")))


@reg("builtins.reversed")
def _reversed(ev, args, kw):
    c = aslist(ev, args[0])
    e = elements(c)
    if e is not None:
        return ev.lbox(lst(*reversed(e)))
    n = length(c)
    v = fresh()
    return ev.lbox(mapn("lmap", n, v, index(c, sub(sub(n, ONE), v))))


def pyred(name):
    def g(ev, args, kw):
        if len(args) > 1 and name in ("min", "max"):
            xs = [ev.val(a) for a in args]
            r = xs[0]
            for x in xs[1:]:
                r = (mn if name == "min" else mx)(r, x)
            return r
        if "key" in kw:
            return ev.opaque(name + " key")
        c = to_array(ev.val(ev.lbox(aslist(ev, args[0]))))
        if c.op == "sel":
            return A.ite_any(c.args[0], [pyred(name)(ev, [x], kw) for x in c.args[1]])
        if name in ("any", "all"):
            if rank(c) == 1 or rank(c) is None:
                return truth(A.reduce_(name, ew(truth, c) if rank(c) == 1 else c))
            return ev.opaque(name, c)
        if c.op == "arr" and not c.args[0]:
            if name in ("min", "max") and "default" in kw:
                return ev.val(kw["default"])
            if name in ("min", "max"):
                ev.implicit("ValueError", TRUE)
                return UNDEF
        start = ev.val(args[1]) if len(args) > 1 and name == "sum" else ZERO
        if name == "sum" and rank(c) not in (None, 0, 1):
            r = A.reduce_("sum", c, ZERO)
            return ev.box(ew(add, r, start))
        if name in ("min", "max") and rank(c) not in (None, 1):
            return ev.opaque(name, c)
        r = A.reduce_(name, c)
        return add(r, start) if name == "sum" else r
    return g


for _n in ("sum", "min", "max", "any", "all"):
    REG["builtins." + _n] = pyred(_n)
REG["builtins.abs"] = lambda ev, a, kw: REG["numpy.abs"](ev, a, kw)
REG["builtins.divmod"] = lambda ev, a, kw: tup(floordiv(ev.val(a[0]), ev.val(a[1])), mod(ev.val(a[0]), ev.val(a[1])))
REG["builtins.pow"] = lambda ev, a, kw: ev.binop("pow", a[0], a[1]) if len(a) == 2 else ev.opaque("pow")
REG["math.floor"] = lambda ev, a, kw: floor_(ev.val(a[0]))
REG["math.ceil"] = lambda ev, a, kw: ceil_(ev.val(a[0]))


@reg("builtins.round", "numpy.round", "numpy.rint", "numpy.around")
def _round(ev, args, kw):
    if len(args) == 1:
        return ev.box(ew(lambda x: x if isint(x) else mk("rint", x), to_array(ev.val(args[0]))))
    return ev.box(ew(lambda x: mk("roundn", x, ev.val(args[1])), to_array(ev.val(args[0]))))


def convertible(ev, x, kind_):
    """condition under which int()/float() raises ValueError"""
    if is_num(x) or isint(x) or is_bool(x):
        return FALSE
    if x.op == "c":
        if isinstance(x.args[0], str):
            try:
                (int if kind_ == "int" else float)(x.args[0])
                return FALSE
            except ValueError:
                return TRUE
        return FALSE
    if kind(x) == "str" or kind(x) is None:
        return batom(mk("truthy", mk("convfail", kind_, x)))
    return FALSE


def _conv(kind_):
    def g(ev, args, kw):
        if not args:
            return ZERO
        cl = ev.cls_of(args[0]) if is_ref(args[0]) else None
        if cl is not None:
            r = ev.class_lookup(cl, "__%s__" % kind_)
            if r:
                return ev.val(ev.call_func(r[1], [args[0]], {}, r[2]))
        x = ev.val(args[0])
        if x.op == "sel" and not is_bool(x):
            return ev.branch_term(x, lambda y: g(ev, [y], kw))
        if x is NONE or x.op in ("tuple", "seq", "dict"):
            ev.implicit("TypeError", TRUE)
            return UNDEF
        if is_array(x) and rank(x) == 1:
            e = elements(x)
            if e is not None and len(e) == 1:
                x = e[0]
            elif e is not None:
                ev.implicit("TypeError", TRUE)
                return UNDEF
        bad = convertible(ev, x, kind_)
        if bad is TRUE or ev.handled("ValueError"):
            ev.implicit("ValueError", bad)
            if ev.s.live is FALSE:
                return UNDEF
        if x.op == "c" and isinstance(x.args[0], str):
            return const(float(x.args[0]) if kind_ == "float" else int(x.args[0])) if bad is FALSE else UNDEF
        if kind(x) == "str" or (kind(x) is None and x.op in ("sym", "index", "app", "raw", "uf")):
            t = mk("conv", kind_, x)
            T.KIND[t] = "scalar"
            if kind_ == "int":
                T.INTEGERS.add(t)
            return t
        return intof(x) if kind_ == "int" else nb(x)
    return g


REG["builtins.int"] = _conv("int")
REG["builtins.float"] = _conv("float")
REG["builtins.bool"] = lambda ev, a, kw: ev.truthof(a[0]) if a else FALSE


@reg("builtins.str")
def _str(ev, args, kw):
    if not args:
        return const("")
    x = args[0]
    c = ev.cls_of(x) if is_ref(x) else None
    if c is not None:
        r = ev.class_lookup(c, "__str__")
        if r:
            return ev.call_func(r[1], [x], {}, r[2])
        return mk("fmtval", x, "s")
    v = ev.val(x)
    if kind(v) == "str":
        return v
    if is_num(v) and v.args[0].denominator == 1:
        return const(str(v.args[0]))
    t = mkfstr([v])
    return t


def typename(ev, t):
    """names of the classes of a type expression"""
    if t.op == "tuple":
        return [n for x in t.args[0] for n in typename(ev, x)]
    if t.op == "ext":
        return [t.args[0].replace("builtins.", "")]
    if t.op == "cls":
        return [t.args[0]]
    return ["?"]


def isinstance_(ev, x, names):
    if x.op == "sel" and not is_bool(x) and not (x.op == "sel" and all(kind(y) == "scalar" for y in x.args[1])):
        return A.ite_any(x.args[0], [isinstance_(ev, y, names) for y in x.args[1]])
    if "?" in names:
        return batom(mk("isinst", x, tuple(names)))
    k = refkind(x)
    if x.op == "dcopy":
        return isinstance_(ev, x.args[0], names)
    if k == "array" or is_array(x):
        return const(any(n in ("numpy.ndarray", "collections.abc.Sequence_") for n in names))
    if k == "list" or x.op in ("seq", "lmap", "lfmap"):
        return const(any(n in ("list", "collections.abc.Sequence", "collections.abc.Iterable", "typing.List", "typing.Sequence") for n in names))
    if k == "dict":
        return const(any(n in ("dict", "collections.OrderedDict", "typing.Dict") for n in names))
    if k == "set":
        return const("set" in names)
    if k and k.startswith("cls:"):
        c = ev.find_class(k[4:])
        quals = [m.qual for m in ev.mro(c)] if c else [k[4:]]
        return const(any(n in quals or n in ("object",) for n in names))
    if x.op == "tuple":
        return const(any(n in ("tuple", "collections.abc.Sequence", "collections.abc.Iterable") for n in names))
    if x is NONE:
        return const("NoneType" in names)
    if kind(x) == "str":
        return const("str" in names)
    if is_bool(x):
        return const(any(n in ("bool", "int", "numbers.Number") for n in names))
    if x.op in ("fn", "closure", "bound", "ext", "cls"):
        return const("type" in names and x.op in ("cls", "ext") or "collections.abc.Callable" in names)
    if x.op == "enum":
        return const(x.args[0] in names)
    if kind(x) == "scalar" or is_num(x) or isint(x):
        if any(n in ("float", "numpy.floating", "numbers.Real", "numbers.Number", "numpy.float64", "numpy.number") for n in names):
            if any(n in ("int", "numbers.Real", "numbers.Number", "numpy.number") for n in names) or not isint(x):
                return TRUE
            return FALSE if x.op != "num" else batom(mk("isinst", x, tuple(names)))
        if any(n in ("int", "numpy.integer", "numbers.Integral") for n in names):
            return const(isint(x))
        return FALSE
    return batom(mk("isinst", x, tuple(names)))


@reg("builtins.isinstance")
def _isinstance(ev, args, kw):
    return isinstance_(ev, args[0], typename(ev, ev.val(args[1])))


@reg("builtins.issubclass")
def _issub(ev, args, kw):
    a, b = typename(ev, args[0])[0], typename(ev, ev.val(args[1]))
    return const(any(ev.subclass(a, x) for x in b))


@reg("builtins.type")
def _type(ev, args, kw):
    x = args[0]
    c = ev.cls_of(x) if is_ref(x) else None
    if c is not None:
        return mk("cls", c.qual)
    if refkind(x) in ("list", "dict", "set"):
        return mk("ext", "builtins." + refkind(x))
    if ev.isarr(x):
        return mk("ext", "numpy.ndarray")
    if kind(x) == "str":
        return mk("ext", "builtins.str")
    if x is NONE:
        return mk("ext", "NoneType")
    return mk("ext", "builtins." + ("bool" if is_bool(x) else "int" if isint(x) else "float" if kind(x) == "scalar" else "object"))


@reg("builtins.getattr")
def _getattr(ev, args, kw):
    n = ev.val(args[1])
    if n.op == "sel":
        return ev.branch_term(n, lambda y: _getattr(ev, [args[0], y] + list(args[2:]), kw))
    if n.op != "c":
        return ev.opaque("getattr")
    if len(args) > 2:
        x = args[0]
        if x.op == "sel" and ev.cls_of(x) is not None:
            return ev.branch_term(x, lambda y: _getattr(ev, [y] + list(args[1:]), kw))
        if is_ref(x) and ev.cls_of(x) is not None and not ev.class_lookup(ev.cls_of(x), n.args[0]):
            v = ev.read(x, n.args[0])
            if v is None:
                if not ev.class_lookup(ev.cls_of(x), "__getattr__"):
                    return args[2]
            elif any(y is UNDEF for y in walk(v)):
                return T._apply1(v, lambda y: args[2] if y is UNDEF else y)
    r = ev.getattr(args[0], n.args[0])
    if r.op == "noattr" and len(args) > 2:
        return args[2]
    return r


@reg("builtins.setattr")
def _setattr(ev, args, kw):
    n = ev.val(args[1])
    if n.op == "c":
        ev.setattr(args[0], n.args[0], args[2])
    else:
        ev.effect("unknown-write", args[0], "?")
    return NONE


@reg("builtins.hasattr")
def _hasattr(ev, args, kw):
    n = ev.val(args[1]).args[0]
    x = args[0]
    c = ev.cls_of(x) if is_ref(x) else None
    if c is not None:
        if ev.class_lookup(c, n):
            return TRUE
        if x.op == "sel":
            return ev.branch_term(x, lambda y: _hasattr(ev, [y] + list(args[1:]), kw))
        v = ev.read(x, n)
        if v is None:
            return FALSE
        return T._apply1(v, lambda y: FALSE if y is UNDEF else TRUE)
    if ev.isarr(x):
        import numpy
        return const(hasattr(numpy.ndarray, n))
    if kind(x) == "scalar" or refkind(x) == "list":
        return const(hasattr(list if refkind(x) == "list" else float, n))
    return batom(mk("truthy", mk("uf", "hasattr", x, n)))


@reg("builtins.map")
def _map(ev, args, kw):
    out = ev.alloc("list", seq())
    it = args[1] if len(args) == 2 else mk("zip", tuple(args[1:]))
    key = ("$map", out.args[0])

    def body():
        x = ev.s.env[key]
        a = [x] if len(args) == 2 else ev.unpack(x, len(args) - 1)
        r = ev.call(args[0], a, {})
        ev.write(out, "", seq(("s", ev.content(out)), ("e", r)))
    ev.loop(it, lambda y: ev.s.env.__setitem__(key, y), [], (), body)
    return out


@reg("builtins.filter")
def _filter(ev, args, kw):
    out = ev.alloc("list", seq())
    key = ("$map", out.args[0])

    def body():
        x = ev.s.env[key]
        c = ev.truthof(ev.call(args[0], [x], {}) if args[0] is not NONE else x)
        ev.fork(c, lambda: (ev.write(out, "", seq(("s", ev.content(out)), ("e", x))), UNDEF)[1], lambda: UNDEF)
    ev.loop(args[1], lambda y: ev.s.env.__setitem__(key, y), [], (), body)
    return out


@reg("functools.reduce")
def _reduce(ev, args, kw):
    c = aslist(ev, args[1])
    e = elements(c)
    if e is not None:
        xs = ([args[2]] if len(args) > 2 else []) + e
        r = xs[0]
        for x in xs[1:]:
            r = ev.call(args[0], [r, x], {})
        return r
    if len(args) > 2:
        key = ("$red", str(ev.uid))
        ev.uid += 1
        ev.s.env[(key, "acc")] = args[2]

        def body():
            ev.s.env[(key, "acc")] = ev.call(args[0], [ev.s.env[(key, "acc")], ev.s.env[(key, "x")]], {})
        ev.loop(ev.lbox(c), lambda y: ev.s.env.__setitem__((key, "x"), y), [], (), body)
        return ev.s.env[(key, "acc")]
    return ev.opaque("reduce", c)


@reg("itertools.product")
def _product(ev, args, kw):
    import itertools
    ls = [elements(aslist(ev, a)) for a in args]
    rep = ev.val(kw["repeat"]) if "repeat" in kw else ONE
    if any(l is None for l in ls) or not is_num(rep):
        # nested loops with symbolic lengths
        return ev.opaque("itertools.product")
    return ev.lbox(lst(*[tup(*p) for p in itertools.product(*(ls * int(rep.args[0])))]))


@reg("itertools.chain")
def _chain(ev, args, kw):
    r = seq()
    for a in args:
        r = seqof(r, aslist(ev, a))
    return ev.lbox(r)


@reg("itertools.chain.from_iterable")
def _chainfi(ev, args, kw):
    e = elements(aslist(ev, args[0]))
    return _chain(ev, e, {}) if e is not None else ev.opaque("chain")


@reg("itertools.repeat")
def _repeat(ev, args, kw):
    if len(args) > 1:
        n = ev.val(args[1])
        if is_num(n):
            return ev.lbox(lst(*[args[0]] * int(n.args[0])))
        return ev.lbox(mk("repeat", lst(args[0]), n))
    return ev.opaque("repeat")


@reg("itertools.count")
def _count(ev, args, kw):
    lo = ev.val(args[0]) if args else ZERO
    return mk("range", lo, add(lo, num(60)), ONE) if is_num(lo) else ev.opaque("count")


@reg("builtins.next")
def _next(ev, args, kw):
    c = aslist(ev, args[0])
    e = elements(c)
    if e:
        return e[0]
    if c.op == "lfmap" and len(args) > 1:
        n, (v,), (g, b) = open_(c)
        return ite(bigany(n, v, g), mk("index", c, ZERO), ev.val(args[1]))
    return index(c, ZERO) if len(args) == 1 else ev.opaque("next", c)


@reg("numpy.ndindex")
def _ndindex(ev, args, kw):
    a = [ev.val(x) for x in args]
    if len(a) == 1 and elements(a[0]) is not None:
        a = elements(a[0])
    import itertools
    if all(is_num(x) for x in a):
        return ev.lbox(lst(*[tup(*[num(i) for i in p]) for p in itertools.product(*[range(int(x.args[0])) for x in a])]))
    return ev.opaque("ndindex")


@reg("numpy.ndenumerate")
def _nde(ev, args, kw):
    return ev.opaque("ndenumerate")


@reg("numpy.outer", "numpy.multiply.outer")
def _outer(ev, args, kw):
    a, b = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    if rank(a) == 1 and rank(b) == 1:
        return ev.alloc("array", build([length(a), length(b)], lambda i, j: mul(index(a, i), index(b, j))))
    return ev.opaque("outer")


@reg("numpy.subtract.outer")
def _souter(ev, args, kw):
    a, b = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    if rank(a) == 1 and rank(b) == 1:
        return ev.alloc("array", build([length(a), length(b)], lambda i, j: sub(index(a, i), index(b, j))))
    return ev.opaque("outer")


@reg("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot")
def _dot(ev, args, kw):
    a, b = to_array(ev.val(args[0])), to_array(ev.val(args[1]))
    if rank(a) == 1 and rank(b) == 1:
        return A.reduce_("sum", ew(mul, a, b))
    if rank(a) == 0 or rank(b) == 0:
        return ev.box(ew(mul, a, b))
    if rank(a) == 2 and rank(b) == 1:
        return ev.box(build([length(a)], lambda i: A.reduce_("sum", ew(mul, index(a, i), b))))
    return ev.alloc("array", mk("app", "np.dot", (a, b), ()))


@reg("numpy.linalg.norm")
def _norm(ev, args, kw):
    a = to_array(ev.val(args[0]))
    axis = ev.val(args[2] if len(args) > 2 else kw.get("axis", NONE))
    if len(args) > 1 or "ord" in kw:
        return ev.opaque("norm ord")
    return ev.box(ew(sqrt, A.reduce_("sum", ew(lambda x: power(x, TWO), a), axis)))


@reg("numpy.diff")
def _diff(ev, args, kw):
    a = to_array(ev.val(args[0]))
    e = elements(a)
    if e is not None and rank(a) == 1:
        return ev.alloc("array", arr(*[sub(e[k + 1], e[k]) for k in range(len(e) - 1)]))
    if e is not None and rank(a) == 2 and kw.get("axis") is not None and ev.val(kw["axis"]) in (ONE, num(-1)):
        return ev.alloc("array", arr(*[arr(*[sub(r.args[0][k + 1], r.args[0][k]) for k in range(len(r.args[0]) - 1)]) for r in e]))
    return ev.alloc("array", mk("app", "np.diff", (a,), tuple((k, ev.val(v)) for k, v in kw.items())))


@reg("numpy.isin", "numpy.in1d")
def _isin(ev, args, kw):
    a, b = to_array(ev.val(args[0])), ev.val(args[1])
    return ev.box(ew(lambda x: contains_val(b, x), a))


@reg("numpy.expand_dims")
def _expdims(ev, args, kw):
    a = to_array(ev.val(args[0]))
    axis = ev.val(args[1] if len(args) > 1 else kw["axis"])
    if axis is ZERO:
        return ev.alloc("array", arr(a))
    if rank(a) == 1 and axis in (ONE, num(-1)):
        return ev.alloc("array", build([length(a)], lambda i: arr(index(a, i))))
    return ev.opaque("expand_dims")


@reg("numpy.tile")
def _tile(ev, args, kw):
    a, n = to_array(ev.val(args[0])), ev.val(args[1])
    e = elements(n)
    if e is not None and len(e) == 2 and e[1] is ONE and rank(a) == 1:
        return ev.alloc("array", build([e[0]], lambda i: a))
    return ev.opaque("tile")


@reg("numpy.broadcast_to")
def _bto(ev, args, kw):
    a, s = to_array(ev.val(args[0])), ev.val(args[1])
    return ev.alloc("array", ew(lambda x, y: y, mkempty(s), a))


@reg("numpy.squeeze")
def _squeeze(ev, args, kw):
    a = to_array(ev.val(args[0]))
    s = elements(A.shape_of(a))
    if s is not None and len(s) == 2 and s[1] is ONE:
        return ev.alloc("array", build([s[0]], lambda i: index(index(a, i), ZERO)))
    if s is not None and s and s[0] is ONE:
        return ev.box(index(a, ZERO))
    if s is not None and all(is_num(x) and x is not ONE for x in s):
        return ev.alloc("array", a)
    return ev.opaque("squeeze")
