"""Vocabulary of the specification modules (``from vspec import ...``), evaluated abstractly."""
from . import terms as T
from . import arrays as A
from . import models
from .terms import *
from .models import reg
from .lower import is_ref, refkind, UNDEF, State


class Claim:
    def __init__(self, label, got, want, cond, kind_="eq", where=""):
        self.label, self.got, self.want, self.cond, self.kind, self.where = label, got, want, cond, kind_, where


def _s(ev, t):
    return ev.val(t).args[0]


def _decl(ev, t, signs, sampler):
    if signs is not None:
        ev.signs[t] = signs
    if sampler is not None:
        ev.samplers[t] = sampler
    return t


@reg("vspec.sym")
def _sym(ev, a, kw):
    return sym(_s(ev, a[0]), "scalar")


@reg("vspec.psym")
def _psym(ev, a, kw):
    """positive real"""
    t = sym(_s(ev, a[0]), "pos")
    return _decl(ev, t, {1}, lambda r: round(abs(r.gauss(0.6, 0.7)) + 0.05, 3))


@reg("vspec.nnsym")
def _nnsym(ev, a, kw):
    """non-negative real"""
    t = sym(_s(ev, a[0]), "scalar")
    return _decl(ev, t, {0, 1}, lambda r: r.choice([0.0, 0.25, 0.5, 1.0, round(abs(r.gauss(0.6, 0.9)), 3)]))


@reg("vspec.isym")
def _isym(ev, a, kw):
    """integer in [lo, hi] (hi only bounds the sampled interpretations)"""
    lo, hi = int(cval(a[1])), int(cval(a[2]))
    t = sym(_s(ev, a[0]), "posint" if lo > 0 else "int")
    INTEGERS.add(t)
    p = t
    if lo == 1:
        ev.signs[t] = {1}
    elif lo == 0:
        ev.signs[t] = {0, 1}
    else:
        ev.signs[sub(t, num(lo))] = {0, 1}
        if lo > 0:
            ev.signs[t] = {1}
    ev.samplers[t] = lambda r: r.randint(lo, hi)
    return t


@reg("vspec.bsym")
def _bsym(ev, a, kw):
    return batom(mk("truthy", sym(_s(ev, a[0]))))


@reg("vspec.ssym")
def _ssym(ev, a, kw):
    """unknown string"""
    t = sym(_s(ev, a[0]), "str")
    return t


@reg("vspec.vec")
def _vec(ev, a, kw):
    """list of d scalars"""
    b = sym(_s(ev, a[0]), "array")
    return ev.lbox(lst(*[index(b, num(k)) for k in range(int(cval(a[1])))]))


@reg("vspec.symarray")
def _symarray(ev, a, kw):
    """array with the given shape of independent scalars"""
    b = sym(_s(ev, a[0]), "array")
    dims = [ev.val(x) for x in a[1:]]

    def el(*idx):
        r = b
        for i in idx:
            r = index(r, i)
        T.KIND.setdefault(r, "scalar")
        return r
    return ev.alloc("array", models.build(dims, el))


@reg("vspec.psymarray")
def _psymarray(ev, a, kw):
    """array of independent positive scalars (the square of real ones)"""
    r = _symarray(ev, a, kw)
    ev.write(r, "", A.ew(lambda x: exp(x), ev.content(r)))
    return r


@reg("vspec.uf")
def _uf(ev, a, kw):
    """uninterpreted real function"""
    xs = []
    for x in a[1:]:
        v = ev.val(x)
        e = elements(A.expand(v)) if v.op not in ("sym", "num", "poly") else None
        xs += e if e is not None else [v]
    t = mk("uf", "spec:" + str(_s(ev, a[0])), *xs)
    T.KIND.setdefault(t, "scalar")
    return t


@reg("vspec.claim")
def _claim(ev, a, kw):
    ev.claims.append(Claim(str(_s(ev, a[0])), snap(ev, a[1]), snap(ev, a[2]), ev.s.rel(0)))
    return NONE


@reg("vspec.claim_noise")
def _claim_noise(ev, a, kw):
    """like claim, but up to a one-to-one renaming of independent random numbers"""
    ev.claims.append(Claim(str(_s(ev, a[0])), snap(ev, a[1]), snap(ev, a[2]), ev.s.rel(0), "noise"))
    return NONE


@reg("vspec.assume")
def _assume(ev, a, kw):
    c = truth(ev.val(a[0]))
    ev.assumed.append(c)
    if c.op == "sel" and c.args[0].op == "sgn":
        al = {k - 1 for k, b in enumerate(c.args[1]) if b is TRUE}
        if al and all(b in (TRUE, FALSE) for b in c.args[1]):
            p = c.args[0].args[0]
            ev.signs[p] = ev.signs.get(p, {-1, 0, 1}) & al
    ev.s.live = land(ev.s.live, c)
    return NONE


@reg("vspec.probe")
def _probe(ev, a, kw):
    """hand a named value to the rule"""
    ev.probes.append((str(_s(ev, a[0])), [x for x in a[1:]], ev.s.copy()))
    return NONE


@reg("vspec.raises")
def _raises(ev, a, kw):
    """condition under which calling f(*args) raises one of the named exceptions ('' = any)"""
    names = [x.strip() for x in _s(ev, a[0]).split("|")]
    f = a[1]
    s0 = ev.s
    ev.s = s0.copy()
    ev.s.conds.append(TRUE)
    ev.raises.append([])
    ev.handlers.append(["Exception"])
    n = len(ev.s.conds) - 1
    ev.call(f, list(a[2:]), kw)
    ev.handlers.pop()
    xs = ev.raises.pop()
    end = ev.s
    c = FALSE
    for x in xs:
        short = x.cls.split(".")[-1]
        if names == [""] or short in names or any(ev.subclass(x.cls, m) for m in names):
            c = lor(c, x.state.rel(n))
    ev.s = s0
    return c


@reg("vspec.diff")
def _diff(ev, a, kw):
    """partial derivative of the value graph"""
    return deriv(ev.val(a[0]), ev.val(a[1]))


def deriv(t, x, memo=None):
    memo = {} if memo is None else memo
    if t is x:
        return ONE
    if t in memo:
        return memo[t]
    if not contains(t, x):
        r = ZERO
    elif t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            for j, (b, e) in enumerate(m):
                db = deriv(b, x, memo)
                if db is ZERO:
                    continue
                rest = [power(b2, num(e2)) for i2, (b2, e2) in enumerate(m) if i2 != j]
                r = add(r, mul(num(c), num(e), power(b, num(e - 1)), db, *rest))
    elif t.op == "exp":
        r = mul(t, deriv(t.args[0], x, memo))
    elif t.op == "log":
        r = div(deriv(t.args[0], x, memo), t.args[0])
    elif t.op == "powt":
        b, e = t.args
        r = mul(t, add(mul(deriv(e, x, memo), log(b)), mul(e, div(deriv(b, x, memo), b))))
    elif t.op == "sel":
        ch = [deriv(y, x, memo) for y in t.args[1]]
        r = T.sgn_dec(t.args[0].args[0], ch) if t.args[0].op == "sgn" else ite(batom(t.args[0]), *ch)
    elif t.op == "bigsum":
        n, (v,), (b,) = open_(t)
        r = bigsum(n, v, deriv(b, x, memo))
    else:
        r = mk("uf", "spec:diff", t, x)
        T.KIND.setdefault(r, "scalar")
    memo[t] = r
    return r


@reg("vspec.iotrace")
def _iotrace(ev, a, kw):
    c = ev.s.heap.get(("$io", ""))
    return ev.lbox(ev.val(c) if c is not None else seq())


@reg("vspec.forall")
def _forall(ev, a, kw):
    """forall(n, f): f holds for every index"""
    v = fresh()
    n = ev.val(a[0])
    return bigall(n, v, truth(ev.val(ev.call(a[1], [v]))))


@reg("vspec.ite")
def _ite(ev, a, kw):
    return ite(truth(ev.val(a[0])), ev.val(a[1]), ev.val(a[2]))


@reg("vspec.value")
def _value(ev, a, kw):
    return snap(ev, a[0])


@reg("vspec.same_object")
def _same(ev, a, kw):
    return models.identical(ev, a[0], a[1])


def snap(ev, t, depth=0):
    """current value, arrays / lists / tuples resolved"""
    return ev.val(t)


def _entries(ev, t, tag):
    """entries of a file with the given tag, as a list (decisions distributed)"""
    def leaf(c):
        if c.op == "foreign":
            return lst(c)
        es = elements(c)
        if es is None:
            return mk("opaque", "entries of a file", (c,))
        if tag == "row" and any(x.op != "tuple" or x.args[0][0] is const("table") for x in es):
            return mk("opaque", "rows of a table", (c,))
        return lst(*[x for x in es if x.op == "tuple" and x.args[0][0] is const(tag)])
    return T._apply1(t, leaf)


def _each(t, f):
    def leaf(c):
        es = elements(c)
        if es is None:
            return c
        return lst(*[f(x.args[0]) if x.op == "tuple" else x for x in es])
    return T._apply1(t, leaf)


@reg("vspec.rows")
def _rows(ev, a, kw):
    """rows of numbers written to the file so far"""
    t = _entries(ev, models.fcontent(ev, ev.val(a[0])), "row")
    return ev.lbox(_each(t, lambda a: lst(*a[2].args[0]) if a[2].op == "tuple" else a[2]))


@reg("vspec.buffered")
def _buffered(ev, a, kw):
    """is a part of the file not written to disk yet"""
    return models.buffered(ev, ev.val(a[0]))


@reg("vspec.formats")
def _formats(ev, a, kw):
    t = _entries(ev, models.fcontent(ev, ev.val(a[0])), "row")
    return ev.lbox(_each(t, lambda a: a[1]))


@reg("vspec.headers")
def _headers(ev, a, kw):
    """[(fields, constants), ...] of the header lines of the file"""
    t = _entries(ev, models.fcontent(ev, ev.val(a[0])), "header")
    return ev.lbox(_each(t, lambda a: tup(*a[1:])))


@reg("vspec.untouched")
def _untouched(ev, a, kw):
    c = models.fcontent(ev, ev.val(a[0]))
    return T._apply1(c, lambda x: const(x.op == "foreign"))


@reg("vspec.clobbered")
def _clobbered(ev, a, kw):
    """names of files that were overwritten or appended to although they existed before the run"""
    return ev.lbox(ev.s.heap.get(("$clobber", ""), seq()))


@reg("vspec.backups")
def _backups(ev, a, kw):
    return ev.lbox(ev.s.heap.get(("$backup", ""), seq()))


@reg("vspec.written")
def _written(ev, a, kw):
    """sorted names of all files written to on some path"""
    names = sorted(k[1] for k, v in ev.s.heap.items() if k[0] == "$fs" and v.op != "foreign")
    return ev.lbox(lst(*[const(x) for x in names]))


@reg("vspec.calls")
def _calls(ev, a, kw):
    """recorded calls of action methods: (class, method, object, arguments...)"""
    return ev.lbox(ev.s.heap.get(("$calls", ""), seq()))


def _state(ev, t, seen):
    import ast
    if t.op == "sel":
        return A.ite_any(t.args[0], [_state(ev, x, dict(seen)) for x in t.args[1]])
    if t.op == "tuple":
        return tup(*[_state(ev, x, seen) for x in t.args[0]])
    if t.op == "bound":
        return tup(const("method"), const(t.args[1]), _state(ev, t.args[0], seen))
    if t.op == "closure":
        return const(ast.dump(ev.closures[t.args[0]][0]))
    if t.op == "partial":
        return tup(const("partial"), _state(ev, t.args[0], seen), *[_state(ev, x, seen) for x in t.args[1]], *[tup(const(k), _state(ev, x, seen)) for k, x in t.args[2]])
    if not models.is_ref(t):
        t = ev.val(t)
        return NONE if t is FALSE else t
    if t in seen:
        return tup(const("again"), num(seen[t]))
    c = ev.cls_of(t)
    if c is not None:
        seen[t] = len(seen)
        fields = sorted({k[1] for k in ev.s.heap if k[0] is t.args[0] or k[0] == t.args[0]})
        return tup(const(c.qual), *[tup(const(n), _state(ev, ev.s.heap[(t.args[0], n)], seen)) for n in fields if n[:1] != "$"])
    k = models.refkind(t)
    if k == "rng":
        seen[t] = len(seen)
        seed = ev.read(t, "seed")
        seed = T.subst(seed, {x: const("entropy") for x in T.walk(seed) if x.op == "entropy"})
        return tup(const("generator"), seed, ev.read(t, ""))
    if k in ("list", "dict"):
        x = ev.content(t)
        if x.op == "dict":
            return tup(const("dict"), *[tup(_state(ev, p, seen), _state(ev, q, seen)) for p, q in x.args[0]])
        if x.op == "sel":
            return _state(ev, x, seen)
        es = elements(x)
        if es is None:
            return ev.val(t)
        if any(models.is_ref(y) and ev.cls_of(y) is not None for y in es):
            seen[t] = len(seen)
        return tup(const("list"), *[_state(ev, y, seen) for y in es])
    return ev.val(t)


@reg("vspec.state")
def _statef(ev, a, kw):
    """everything reachable from an object: classes, attributes, values and which objects are shared"""
    return _state(ev, a[0], {})


@reg("vspec.sources")
def _sources(ev, a, kw):
    """seeds of the generators (and other sources of chance) an object or value depends on"""
    t = _state(ev, a[0], {})
    out, dark = set(), False
    for x in T.walk(t):
        if x.op == "rv":
            s = x.args[1]
            leaves = [s]
            if s.op == "sel":
                leaves = [y for y in T.walk(s) if y.op == "entropy"] or [s]
            for y in leaves:
                out.add(const("no seed") if y.op == "entropy" else y)
        elif x.op == "entropy":
            out.add(const("no seed"))
        elif x.op == "globalrv":
            out.add(const(str(x.args[0])))
        elif x.op in ("opaque", "undef"):
            dark = True
    if dark:
        return ev.opaque("sources of an unknown value", t)
    return tup(*sorted(out, key=T.show))


@reg("vspec.seedset")
def _seedset(ev, a, kw):
    return tup(*sorted({ev.val(x) for x in elements(ev.content(a[0]))}, key=T.show))


@reg("vspec.instances")
def _instances(ev, a, kw):
    """all objects of the named classes, oldest first"""
    names = set(_s(ev, a[0]).split("|"))
    out = []
    for k, v in list(ev.s.heap.items()):
        if k[1] == "$cls" and v.args[0].split(".")[-1] in names:
            out.append((k[0], mk("new", k[0], "cls:" + v.args[0])))
    return ev.lbox(lst(*[r for _, r in sorted(out, key=lambda x: x[0])]))


@reg("vspec.generators")
def _generators(ev, a, kw):
    """(seed, position) of all random number generators, oldest first"""
    out = []
    for k, v in list(ev.s.heap.items()):
        if k[1] == "seed" and (k[0], "$cls") not in ev.s.heap:
            out.append((k[0], tup(v, ev.s.heap.get((k[0], ""), num(0)))))
    return ev.lbox(lst(*[r for _, r in sorted(out, key=lambda x: x[0])]))


@reg("vspec.show")
def _show(ev, a, kw):
    """development aid"""
    print(_s(ev, a[0]), T.show(ev.val(a[1])))
    return NONE


@reg("vspec.huge")
def _huge(ev, a, kw):
    """size above every constant it is compared with (sampled small: the terms left have no decision on it)"""
    t = sym(_s(ev, a[0]), "posint")
    INTEGERS.add(t)
    T.LARGE.add(t)
    ev.signs[t] = {1}
    ev.samplers[t] = lambda r: r.randint(2, 4)
    return t


@reg("vspec.replace")
def _replace(ev, a, kw):
    """replace(function, by): analyse calls of the function as calls of the other one"""
    f, g = a[0], a[1]
    if f.op != "fn":
        return ev.opaque("replaced function", f)

    def ov(ev, args, kw):
        ev.replaced += 1
        return ev.call(g, args, kw)
    ev.overrides[f.args[0]] = ov
    return NONE


@reg("vspec.replaced")
def _replaced(ev, a, kw):
    """number of calls that were replaced"""
    return num(ev.replaced)
