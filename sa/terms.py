"""Hash-consed value terms with algebraic normal forms.

A term is the value-dependence-graph node computed for an expression of the
analysed program.  Two expressions that denote the same real-number / sequence /
boolean function of the same inputs get the *same* node, whatever the source
spelling was:

* sums, products, quotients and powers -> multivariate (Laurent/radical) polynomials
  with rational coefficients over non-arithmetic atoms,
* comparisons -> three-way sign decisions ``sgn(a-b)`` in {-,0,+},
* and/or/not/conditional expressions -> ordered decision diagrams over these atoms.

Floating point rounding is not modelled: values are compared as real numbers.
"""
from __future__ import annotations

import hashlib
import time
from fractions import Fraction

_TABLE = {}


class Term:
    __slots__ = ("op", "args", "key", "_free", "_sels", "__weakref__")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError

    # operator sugar, used when writing specifications
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, o)
    def __mod__(self, o): return mod(self, o)
    def __floordiv__(self, o): return floordiv(self, o)
    def __getitem__(self, i): return index(self, lift(i))
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return gt(self, o)
    def __ge__(self, o): return ge(self, o)
    def __bool__(self): raise TypeError("truth value of a term")
    def __iter__(self): raise TypeError("iteration over a term")


def _enc(a, h):
    if isinstance(a, Term):
        h.update(b"T"); h.update(a.key)
    elif isinstance(a, tuple):
        h.update(b"("); [ _enc(x, h) for x in a ]; h.update(b")")
    else:
        r = f"{type(a).__name__}:{a!r};".encode()
        h.update(r)


def mk(op, *args):
    k = (op, args)
    # True == 1 == 1.0 in tuples: disambiguate constants by type
    if op == "c":
        k = (op, type(args[0]).__name__, args[0])
    t = _TABLE.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        h = hashlib.blake2b(op.encode(), digest_size=12)
        for a in args:
            _enc(a, h)
        t.key = h.digest()
        t._free = None
        t._sels = None
        _TABLE[k] = t
    return t


# ---------------------------------------------------------------- constants
def num(v):
    return mk("num", Fraction(v))


ZERO, ONE, TWO, HALF = num(0), num(1), num(2), num(Fraction(1, 2))
TRUE, FALSE, NONE = mk("c", True), mk("c", False), mk("c", None)
INF = mk("inf")
NAN = mk("nan")
NINF = None  # set below: -INF
PI = mk("pi")


def const(v):
    if isinstance(v, bool) or v is None:
        return mk("c", v)
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return num(Fraction(repr(v)))  # decimal meaning of the literal
    return mk("c", v)


def lift(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, tuple):
        return tup(*[lift(x) for x in v])
    return const(v)


def is_num(t):
    return t.op == "num"


def is_const(t):
    return t.op in ("num", "c")


def cval(t):
    """python value of constant term"""
    if t.op == "num":
        v = t.args[0]
        return int(v) if v.denominator == 1 else v
    return t.args[0]


def sym(name, kind=None):
    """free input; kind in {None,'scalar','array','int'}"""
    return mk("sym", name, kind)


def tup(*xs):
    return mk("tuple", tuple(lift(x) for x in xs))


# ---------------------------------------------------------------- polynomials
def _polydict(t):
    """term -> {mono: coeff};  mono = sorted tuple of (atom, Fraction exponent)"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "c":
        if t.args[0] is True:
            return {(): Fraction(1)}
        if t.args[0] is False:
            return {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def _frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    r = mk("poly", tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0]))))
    if len(d) <= 4 and all(a.op == "sel" and e > 0 and _numleaves(a) for m in d for a, e in m):
        # arithmetic of decisions between numbers is a decision between numbers
        c = canon(r)
        if c.op == "sel":
            return c
    return r


_NUML = {}


def _numleaves(t):
    if t.op != "sel":
        return t.op == "num"
    r = _NUML.get(t)
    if r is None:
        r = _NUML[t] = all(_numleaves(x) for x in t.args[1])
    return r


def _padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
        if not r[m]:
            del r[m]
    return r


def _mono_mul(m1, m2):
    """product of two monomials -> polynomial dict (expansion may be needed)"""
    ex = {}
    for a, e in m1 + m2:
        ex[a] = ex.get(a, Fraction(0)) + e
    return _mono_norm(ex)


def _mono_norm(ex):
    """{atom: exponent} -> polynomial dict"""
    expo = None
    pows = {}
    out = {}
    expand = []
    coeff = Fraction(1)
    for a, e in ex.items():
        if e == 0:
            continue
        if a.op == "exp":
            x = mul(num(e), a.args[0])
            expo = x if expo is None else add(expo, x)
        elif a.op == "powt":  # symbolic exponent
            b, x = a.args
            x = mul(num(e), x)
            pows[b] = add(pows[b], x) if b in pows else x
        elif a.op == "num":
            # rational power of a number
            if e.denominator == 1:
                coeff *= a.args[0] ** int(e)
            else:
                fl = e.numerator // e.denominator
                coeff *= a.args[0] ** fl
                out[a] = out.get(a, Fraction(0)) + (e - fl)
        elif a.op == "poly" and e > 0 and e.denominator == 1:
            expand.append((a, int(e)))
        elif a.op == "abs" and e.denominator == 1 and e % 2 == 0:
            expand.append((a.args[0], int(e)))
        else:
            out[a] = out.get(a, Fraction(0)) + e
    if expo is not None and expo is not ZERO:
        out[mk("exp", expo)] = Fraction(1)
    for b, x in pows.items():
        # a base that also occurs with a numeric exponent
        if b in out and b.op != "num":
            x = add(x, num(out.pop(b)))
        if is_num(x):
            sub_ = _polydict(power(b, x))
            if len(sub_) == 1:
                (m, c), = sub_.items()
                coeff *= c
                for aa, ee in m:
                    out[aa] = out.get(aa, Fraction(0)) + ee
            else:
                expand.append((_frompoly(sub_), 1))
        else:
            out[mk("powt", b, x)] = Fraction(1)
    out = {a: e for a, e in out.items() if e}
    res = {tuple(sorted(out.items(), key=lambda kv: (kv[0].key, kv[1]))): coeff}
    for p, n in expand:
        pd = _polydict(p)
        for _ in range(n):
            res = _pmul(res, pd)
    return res


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                p = {m2: Fraction(1)}
            elif not m2:
                p = {m1: Fraction(1)}
            else:
                tick()
                p = _mono_mul(m1, m2)
            for m, c in p.items():
                r[m] = r.get(m, 0) + c * c1 * c2
                if not r[m]:
                    del r[m]
    return r


def _infinite_sum(xs):
    """sums with infinite or undefined operands -> term, or None if there is no such operand (or nothing is known)"""
    pos = sum(x is INF for x in xs)
    neg_ = sum(x is NINF for x in xs)
    if any(x is NAN for x in xs) or pos and neg_:
        return NAN
    if all(x is INF or x is NINF or finite(x) for x in xs):
        return INF if pos else NINF
    return None


def _special(x):
    return x is INF or x is NINF or x is NAN


def add(*xs):
    d = {}
    xs = [lift(x) for x in xs]
    if any(_special(x) for x in xs):
        r = _infinite_sum(xs)
        if r is not None:
            return r
    for x in xs:
        d = _padd(d, _polydict(x))
    return _frompoly(d)


def sub(a, b):
    a, b = lift(a), lift(b)
    if NINF is not None and (_special(a) or _special(b)):
        return add(a, neg(b))
    return _frompoly(_padd(_polydict(lift(a)), _polydict(lift(b)), -1))


def neg(a):
    return mul(num(-1), a)


def _negative(x):
    if x.op == "num":
        return x.args[0] < 0
    return x.op == "poly" and all(c < 0 and all(positive(a) for a, _ in m) for m, c in x.args[0])


def mul(*xs):
    xs = [lift(x) for x in xs]
    if NINF is not None and any(_special(x) for x in xs):
        if any(x is NAN or x is ZERO for x in xs):
            return NAN
        sg = 1
        for x in xs:
            if x is NINF or _negative(x) and finite(x):
                sg = -sg
            elif not (x is INF or positive(x) and finite(x)):
                sg = 0
                break
        if sg:
            return INF if sg > 0 else NINF
    ds = [_polydict(x) for x in xs]
    if any(not d for d in ds):
        return ZERO
    multi = [d for d in ds if len(d) > 1]
    if multi and any(e < 0 and a.op == "poly" for d in ds for m in d for a, e in m):
        # factor sums into content * primitive part so that equal factors cancel
        coeff = Fraction(1)
        ex = {}
        rest = []
        for d in ds:
            if len(d) == 1:
                (m, c), = d.items()
                coeff *= c
                for a_, e in m:
                    ex[a_] = ex.get(a_, Fraction(0)) + e
            else:
                c0, common, prim = _content(d)
                lead = sorted(prim.items(), key=lambda kv: _mono_key(kv[0]))[0][1]
                if lead < 0:
                    prim = {m: -c for m, c in prim.items()}
                    c0 = -c0
                coeff *= c0
                for a_, e in common.items():
                    ex[a_] = ex.get(a_, Fraction(0)) + e
                p = _frompoly(prim)
                ex[p] = ex.get(p, Fraction(0)) + 1
        return _frompoly(_pmul({(): coeff}, _mono_norm(ex)))
    d = {(): Fraction(1)}
    for x in ds:
        d = _pmul(d, x)
    return _frompoly(d)


def div(a, b):
    return mul(a, power(b, num(-1)))


def _content(d):
    """split polynomial dict into (numeric content>0, monomial content, primitive)"""
    from math import gcd
    nums = [abs(c.numerator) for c in d.values()]
    dens = [c.denominator for c in d.values()]
    g = 0
    for n in nums:
        g = gcd(g, n)
    l = 1
    for n in dens:
        l = l * n // gcd(l, n)
    c0 = Fraction(g, l)
    common = None
    for m in d:
        e = {a: x for a, x in m}
        common = e if common is None else {
            a: min(x, e[a]) for a, x in common.items() if a in e and (x > 0) == (e[a] > 0)
        }
    common = {a: x for a, x in (common or {}).items() if a.op not in ("exp", "powt")}
    prim = {}
    for m, c in d.items():
        e = {a: x for a, x in m}
        for a, x in common.items():
            e[a] -= x
        mm = tuple(sorted(((a, x) for a, x in e.items() if x), key=lambda kv: (kv[0].key, kv[1])))
        prim[mm] = c / c0
    return c0, common, prim


def power(b, e):
    b, e = lift(b), lift(e)
    if is_num(e):
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if is_num(b):
            bv = b.args[0]
            if ev.denominator == 1 and (bv != 0 or ev > 0):
                return num(bv ** int(ev))
            if bv == 0 and ev > 0:
                return ZERO
            if bv == 1:
                return ONE
            if bv == 0:
                return mk("divzero")
        d = _polydict(b)
        if len(d) == 1:
            (m, c), = d.items()
            ex = {}
            for a, x in m:
                n = x * ev
                if (ev.denominator != 1 and x.denominator == 1 and x % 2 == 0
                        and not (n.denominator == 1 and n % 2 == 0)):
                    a = absval(a)
                    ad = _polydict(a)
                    if len(ad) == 1 and list(ad.values()) == [1]:
                        for aa, xx in next(iter(ad)):
                            ex[aa] = ex.get(aa, Fraction(0)) + xx * n
                        continue
                ex[a] = ex.get(a, Fraction(0)) + n
            res = _mono_norm(ex)
            if c != 1:
                if ev.denominator == 1:
                    cd = {(): c ** int(ev)}
                elif c > 0:
                    cd = _mono_norm({num(c): ev})
                else:  # root of a negative multiple: keep as an atom
                    return mk("powt", b, e)
                res = _pmul(res, cd)
            return _frompoly(res)
        if ev.denominator == 1 and ev > 0:
            return _frompoly(_mono_norm({b: ev}))
        c0, common, prim = _content(d)
        sign = 1
        if ev.denominator == 1:
            lead = sorted(prim.items(), key=lambda kv: _mono_key(kv[0]))[0][1]
            if lead < 0:
                prim = {m: -c for m, c in prim.items()}
                sign = -1 if int(ev) % 2 else 1
        ex = {a: x * ev for a, x in common.items()}
        pt = _frompoly(prim)
        ex[pt] = ex.get(pt, Fraction(0)) + ev
        res = _mono_norm(ex)
        cd = _mono_norm({num(c0): ev}) if c0 != 1 else {(): Fraction(1)}
        res = _pmul(res, cd)
        return mul(num(sign), _frompoly(res))
    if b is ONE:
        return ONE
    # symbolic exponent: distribute over monomials
    d = _polydict(b)
    if len(d) == 1:
        (m, c), = d.items()
        parts = []
        if c != 1:
            if c < 0:
                return mk("powt", b, e)
            parts.append(mk("powt", num(c), e))
        if not (len(m) == 1 and m[0][1] == 1 and c == 1):
            for a, x in m:
                parts.append(power(a, mul(num(x), e)) if x != 1 else powt(a, e))
            return mul(*parts)
    return powt(b, e)


def powt(b, e):
    if is_num(e):
        return power(b, e)
    if b.op == "exp":
        return exp(mul(b.args[0], e))
    if b.op == "powt":
        return powt(b.args[0], mul(b.args[1], e))
    if b.op == "num" and b.args[0].denominator != 1 and b.args[0] > 0:
        return mul(mk("powt", num(b.args[0].numerator), e) if b.args[0].numerator != 1 else ONE,
                   mk("powt", num(b.args[0].denominator), neg(e)))
    return mk("powt", b, e)


def sqrt(x):
    return power(x, HALF)


def exp(x):
    x = lift(x)
    if x is ZERO:
        return ONE
    if _special(x):
        return ZERO if x is NINF else x
    if x.op == "log":
        return x.args[0]
    return _frompoly(_mono_norm({mk("exp", x): Fraction(1)}))


def _factors(c):
    """prime powers of a positive rational (large cofactors stay as they are)"""
    out = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while p * p <= n and p < 2000:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                out.append((p, s * k))
            p += 1
        if n > 1:
            out.append((n, s))
    return out


def log(x):
    x = lift(x)
    if x is ONE:
        return ZERO
    if x is ZERO:
        return NINF
    if _special(x):
        return NAN if x is NINF else x
    d = _polydict(x)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and not (len(m) == 1 and m[0][1] == 1 and c == 1):
            parts = []
            if c != 1:
                for p, e in _factors(c):
                    parts.append(mul(num(e), mk("log", num(p))))
            for a, e in m:
                parts.append(mul(num(e), log(a)))
            return add(*parts) if parts else ZERO
    if x.op == "exp":
        return x.args[0]
    if len(d) > 1:
        parts, prim = _log_content(d)
        if parts:
            return add(*parts, mk("log", prim))
    return mk("log", x)


def _log_content(d):
    """logarithms of the positive factors of a sum, and what remains of the sum"""
    c0, common, _ = _content(d)
    common = {a: e for a, e in common.items() if positive(a)}
    shift = None
    for m in d:
        p = next((_polydict(a.args[0]) for a, e in m if a.op == "exp"), {})
        if shift is None:
            shift = dict(p)
        else:
            shift = {k: min(shift.get(k, 0), p.get(k, 0)) for k in set(shift) | set(p)}
    shift = _frompoly(shift)
    parts = [mul(num(e), log(a)) for a, e in common.items()]
    if c0 != 1:
        parts.append(log(num(c0)))
    if shift is not ZERO:
        parts.append(shift)
    if not parts:
        return parts, None
    f = {(): 1 / c0}
    r = {}
    for m, c in d.items():
        e = {a: x for a, x in m}
        for a, x in common.items():
            e[a] -= x
        if shift is not ZERO:
            g = next((a for a in e if a.op == "exp"), None)
            x = sub(g.args[0], shift) if g is not None else neg(shift)
            if g is not None:
                del e[g]
            if x is not ZERO:
                e[mk("exp", x)] = Fraction(1)
        for k, v in _mono_norm(e).items():
            r[k] = r.get(k, 0) + v * c / c0
    return parts, _frompoly(r)


def absval(x):
    x = lift(x)
    if is_num(x):
        return num(abs(x.args[0]))
    if x.op in ("abs", "exp", "pi") or positive(x):
        return x
    d = _polydict(x)
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1 or len(m) > 1 or m[0][1] != 1:
            out = [num(abs(c))]
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0:
                    out.append(power(a, num(e)))
                else:
                    out.append(power(absval(a), num(e)))
            return mul(*out)
        return mk("abs", x)
    lead = sorted(d.items(), key=lambda kv: _mono_key(kv[0]))[0][1]
    if lead < 0:
        x = neg(x)
    return mk("abs", x)


def floordiv(a, b):
    a, b = lift(a), lift(b)
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] // b.args[0])
    if b is ONE and isint(a):
        return a
    if a is b:
        return ONE
    if a is ZERO:
        return ZERO
    q = div(a, b)
    if isint(q):  # exact quotient (b divides a symbolically)
        return q
    if a.op == "mod" and a.args[1] is b:
        return ZERO
    # pull integer multiples of b out of the numerator
    d = _polydict(a)
    out = ZERO
    rest = {}
    for m, c in d.items():
        t = _frompoly({m: c})
        qq = div(t, b)
        if len(d) > 1 and isint(qq):
            out = add(out, qq)
        else:
            rest[m] = c
    if out is not ZERO:
        return add(out, floordiv(_frompoly(rest), b))
    return mk("floordiv", a, b)


def mod(a, b):
    a, b = lift(a), lift(b)
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] % b.args[0])
    if a.op == "c" and isinstance(a.args[0], str):
        return mk("strfmt", a, b)
    if b is ONE and isint(a):
        return ZERO
    if a is b:
        return ZERO
    # drop integer multiples of b, open inner "mod b"
    d = _polydict(a)
    out = {}
    changed = False
    for m, c in d.items():
        t = _frompoly({m: c})
        if isint(div(t, b)):
            changed = True
            continue
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" \
                and m[0][0].args[1] is b:
            if len(d) > 1 or c != 1:
                changed = True
                out = _padd(out, _polydict(mul(num(c), m[0][0].args[0])))
                continue
            return a
        out = _padd(out, {m: c})
    if changed:
        return mod(_frompoly(out), b)
    if a.op == "mod" and a.args[1] is b:
        return a
    return mk("mod", a, b)


_INTOPS = {"len", "floordiv", "bv", "mod", "shape", "ndim", "size", "count"}


def isint(t):
    """known to be an integer (for // and % simplification)"""
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return t.args[1] in ("int", "posint")
    if t.op in ("len", "bv", "shape"):
        return True
    if t.op in ("floordiv", "mod"):
        return isint(t.args[0]) and isint(t.args[1])
    if t.op == "poly":
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and isint(a) for a, e in m)
                   for m, c in t.args[0])
    if t.op == "sel":
        return all(isint(x) for x in t.args[1])
    return t in INTEGERS


INTEGERS = set()  # atoms declared integer valued by a rule


# ---------------------------------------------------------------- decisions
def positive(t):
    """known to be positive whatever the interpretation"""
    if t.op in ("exp", "pi", "len1"):
        return True
    if t.op == "sym":
        return t.args[1] in ("pos", "posint")
    if t.op == "num":
        return t.args[0] > 0
    if t.op == "poly":
        # all terms at least zero, one of them more
        return all(c > 0 and all(positive(a) or (a.op == "abs" or e.denominator == 1 and e % 2 == 0) and e > 0 and kind(a) not in ("str", "list") for a, e in m) for m, c in t.args[0]) and any(
            all(positive(a) for a, _ in m) for m, _c in t.args[0])
    if t.op == "powt":
        return positive(t.args[0])
    if t.op == "rv" and RV_POSITIVE[0]:
        return t.args[0] == "random"
    if t.op == "bigsum":
        return positive(t.args[0]) and positive(t.args[1])
    return False


_FINITE = {}


def finite(t):
    """known to be a finite number whatever the (finite) inputs are"""
    if t.op in ("num", "pi"):
        return True
    if t.op == "sym":
        return t.args[1] in ("pos", "posint", "int", "scalar", "array")
    if t.op in ("bv", "rv"):
        return True
    r = _FINITE.get(t)
    if r is None:
        if t.op == "poly":
            r = all(finite(a) and (e > 0 or positive(a)) and (e.denominator == 1 or positive(a)) for m, c in t.args[0] for a, e in m)
        elif t.op in ("exp", "abs", "floor", "ceil"):
            r = finite(t.args[0])
        elif t.op == "log":
            r = positive(t.args[0]) and finite(t.args[0])
        elif t.op == "index":
            r = finite(t.args[0])
        elif t.op == "bigsum":
            r = finite(t.args[1])
        elif t.op == "uf":
            r = isinstance(t.args[0], str) and t.args[0].startswith("spec:")
        elif t.op == "interp":
            r = finite(t.args[0].args[4]) and all(finite(x) for x in elements(t.args[0].args[2]) or [INF])
        elif t.op == "sel":
            r = all(finite(x) for x in t.args[1])
        else:
            r = False
        _FINITE[t] = r
    return r


RV_POSITIVE = [False]   # ignore the null event of a uniform variate being exactly zero


LARGE = set()   # formal sizes beyond every threshold of the code


def sgn_atom(p):
    """canonical sign atom of a numeric term -> (atom or None, flip, const sign)"""
    if is_num(p):
        v = p.args[0]
        return None, 0, (v > 0) - (v < 0)
    if p is INF:
        return None, 0, 1
    d = _polydict(p)
    if LARGE and len(d) == 2 and () in d:
        (m, c), = [(m, c) for m, c in d.items() if m]
        if len(m) == 1 and m[0][0] in LARGE and m[0][1] == 1 and abs(d[()]) < 10 ** 5 * abs(c):
            return None, 0, 1 if c > 0 else -1
    # +-inf dominates finite offsets
    c0, common, prim = _content(d)
    full = {}
    pos = {a for a in (common or {}) if positive(a)}
    for m, c in d.items():
        if pos:
            m = tuple((a, x - common[a]) if a in pos else (a, x) for a, x in m)
            m = tuple((a, x) for a, x in m if x)
        full[m] = c / c0
    if all(positive(a) for m in full for a, _ in m):
        cs = {c > 0 for c in full.values()}
        if len(cs) == 1:
            return None, 0, 1 if cs.pop() else -1
    lead = sorted(full.items(), key=lambda kv: _mono_key(kv[0]))[0][1]
    flip = 1
    if lead < 0:
        full = {m: -c for m, c in full.items()}
        flip = -1
    t = _frompoly(full)
    if t.op in ("exp", "pi", "len1"):
        return None, 0, flip
    return mk("sgn", t), flip, 0


def _sel(atom, branches):
    b0 = branches[0]
    if all(b is b0 for b in branches):
        return b0
    if atom.op == "sgn" and not (is_const(branches[1]) and branches[0] is not branches[2]):
        s = solve_for(atom.args[0])
        if s:
            z = subst(branches[1], s)
            # x if p != 0 else y  with  y == x at p == 0
            if branches[0] is branches[2] and subst(branches[0], s) is z:
                return branches[0]
            branches = (branches[0], z, branches[2])
    return mk("sel", atom, tuple(branches))


def choose(atom, branches):
    """decision with the given branches, in canonical order"""
    if atom.op == "sgn":
        return _sgn_ordered(atom, list(branches))
    return ite(batom(atom), branches[0], branches[1])


def _lifted(p):
    """p with its inner decisions outside, if it has some (and not too many)"""
    if p.op in ("poly", "exp", "abs", "sel") and _inner_atom(p) is not None:
        c = canon(p)
        if c.op == "sel":
            return c
    return None


def sgn_test(p, neg_, zero, pos):
    """decision on the sign of p"""
    c = _lifted(p)
    if c is not None:
        return choose(c.args[0], [sgn_test(x, neg_, zero, pos) for x in c.args[1]])
    at, flip, s = sgn_atom(p)
    if at is None:
        return {-1: neg_, 0: zero, 1: pos}[s]
    br = (neg_, zero, pos) if flip > 0 else (pos, zero, neg_)
    return _sgn_ordered(at, list(br))


def _infcmp(a, b):
    """comparison with an infinite constant -> decision terms (lt, eq, gt) or None"""
    if a is NAN or b is NAN:
        return (FALSE, FALSE, FALSE)
    if b is INF or b is NINF:
        if a is INF or a is NINF:
            return (const(a is NINF and b is INF), const(a is b), const(a is INF and b is NINF))
        if is_num(a):
            return (TRUE, FALSE, FALSE) if b is INF else (FALSE, FALSE, TRUE)
        if finite(a):
            return (TRUE, FALSE, FALSE) if b is INF else (FALSE, FALSE, TRUE)
        e = batom(mk("isinf", a, 1 if b is INF else -1))
        return (lnot(e), e, FALSE) if b is INF else (FALSE, e, lnot(e))
    if a is INF or a is NINF:
        l, e, g = _infcmp(b, a)
        return (g, e, l)
    return None


def _cmp(a, b, n, z, p):
    a, b = lift(a), lift(b)
    r = _infcmp(a, b)
    if r:
        return lor(*[x for x, w in zip(r, (n, z, p)) if w is TRUE])
    return sgn_test(sub(a, b), n, z, p)


def lt(a, b): return _cmp(a, b, TRUE, FALSE, FALSE)
def le(a, b): return _cmp(a, b, TRUE, TRUE, FALSE)
def gt(a, b): return _cmp(a, b, FALSE, FALSE, TRUE)
def ge(a, b): return _cmp(a, b, FALSE, TRUE, TRUE)


_NONNUM = ("c", "tuple", "seq", "map", "enum", "strcat", "fstr", "cls", "type", "new", "obj",
           "fn", "mod_", "dict", "ext", "bool")


def _maybe_numeric(t):
    if t.op == "c":
        return isinstance(t.args[0], bool)
    return t.op not in _NONNUM


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b)) if type(cval(a)) == type(cval(b)) or (
            is_num(a) and is_num(b)) else FALSE
    if a.op == "sel" and all(is_const(x) or x.op == "enum" for x in a.args[1]):
        return _sel(a.args[0], [eq(x, b) for x in a.args[1]])
    if b.op == "sel" and all(is_const(x) or x.op == "enum" for x in b.args[1]):
        return eq(b, a)
    if a.op == "enum" and b.op == "enum":
        return FALSE
    if a.op == "ext" and b.op == "ext" and all(isinstance(x.args[0], str) and x.args[0].startswith("builtins.") for x in (a, b)):
        return FALSE
    if {a.op, b.op} <= {"cls", "ext", "fn"} and a.op != b.op or a.op == b.op and a.op in ("cls", "fn"):
        return FALSE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if o.op in ("num", "poly", "tuple", "seq", "map", "enum", "fstr", "new", "fn", "cls", "exp", "ext", "closure", "bound", "fnof") or o.op == "sym" and o.args[1]:
            return FALSE
        if o.op == "sel":
            return _sel(o.args[0], [eq(x, NONE) for x in o.args[1]])
    if a.op == b.op and a.op in ("tuple", "seq"):
        ea, eb = elements(a), elements(b)
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return FALSE
            r = TRUE
            for x, y in zip(ea, eb):
                r = land(r, eq(x, y))
            return r
    if _maybe_numeric(a) and _maybe_numeric(b):
        r = _infcmp(a, b)
        if r:
            return r[1]
        return sgn_test(sub(a, b), FALSE, TRUE, FALSE)
    if b.key < a.key:
        a, b = b, a
    return batom(mk("eq", a, b))


def batom(a):
    """boolean atom -> decision term"""
    return mk("sel", a, (TRUE, FALSE))


_ISBOOL = {}


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op != "sel":
        return False
    r = _ISBOOL.get(t)
    if r is None:
        r = _ISBOOL[t] = all(is_bool(x) for x in t.args[1])
    return r


TRUTHY_IS_NOTNONE = set()  # option values that are None or truthy (set by rules)


def truth(t):
    """truth value of an arbitrary term as decision term"""
    if is_bool(t):
        return t
    if t.op == "num":
        return const(t.args[0] != 0)
    if t.op == "c":
        return const(bool(t.args[0]))
    if t.op == "sel":
        return _apply1(t, truth)
    if t.op == "tuple":
        return const(len(t.args[0]) > 0)
    if t.op == "seq":
        if any(p[0] == "e" for p in t.args[0]):
            return TRUE
        if not t.args[0]:
            return FALSE
    if t.op in ("enum", "fn", "cls", "new"):
        return TRUE
    if t in TRUTHY_IS_NOTNONE:
        return lnot(eq(t, NONE))
    if t.op in ("poly", "mod", "floordiv", "len", "abs", "exp", "bv") or (
            t.op == "sym" and kind(t) == "scalar"):
        return sgn_test(t, TRUE, FALSE, TRUE)
    return batom(mk("truthy", t))


def _apply1(t, f, memo=None):
    """map the leaves of a decision term (they must not introduce new decisions)"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = _sel(t.args[0], [_apply1(x, f, memo) for x in t.args[1]]) if t.op == "sel" else f(t)
        memo[t] = r
    return r


_ITE = {}


def _nb(atom):
    return 3 if atom.op == "sgn" else 2


def _cof(t, atom, k):
    if t.op == "sel" and t.args[0] is atom:
        return t.args[1][k]
    return t


def ite(c, a, b):
    tick()
    c = truth(lift(c))
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ITE.get(k)
    if r is not None:
        return r
    tops = [t.args[0] for t in (c, a, b) if t.op == "sel"]
    atom = min(tops, key=lambda x: x.key)
    r = _sel(atom, [ite(_cof(c, atom, i), _cof(a, atom, i), _cof(b, atom, i))
                    for i in range(_nb(atom))])
    _ITE[k] = r
    return r


def lnot(a): return ite(a, FALSE, TRUE)
def land(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, truth(lift(x)), FALSE)
    return r


def lor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, truth(lift(x)))
    return r


NINF = neg(INF)


# ---------------------------------------------------------------- binders
# Bound variables are named by the height of their binder (1 + the highest binder
# inside), so alpha-equivalent terms are the same node.  While a body is being built,
# the variable is a fresh open one, ``bv(("o", k))``.
_OPEN = [0]
BINDERS = {"map": 1, "lmap": 1, "fmap": 1, "lfmap": 1, "bigsum": 1, "bigprod": 1, "bigall": 1,
           "bigany": 1, "bigmin": 1, "bigmax": 1, "cond2": 2, "lastval": 1, "dmap": 1, "smap": 1,
           "flatmap": 1}
# layout of the arguments: args[0] = n (outside the scope), the remaining ones are bodies


def bv(level):
    return mk("bv", level)


def fresh(tag="o"):
    _OPEN[0] += 1
    return bv((tag, _OPEN[0]))


_HEIGHT = {}


def height(t):
    """largest binder number used inside t"""
    r = _HEIGHT.get(t)
    if r is None:
        r = 0
        for x in children(t):
            r = max(r, height(x))
        if t.op in BINDERS:
            # number of this binder's own variable(s)
            r = max(r, _ownheight(t))
        _HEIGHT[t] = r
    return r


def _ownheight(t):
    h = 0
    for b in t.args[1:]:
        for x in _ch(b):
            h = max(h, height(x))
    return h + BINDERS[t.op]


def bind(op, n, vars_, *bodies):
    """close the bodies over the open variables"""
    k = BINDERS[op]
    vars_ = vars_ if isinstance(vars_, (list, tuple)) else [vars_]
    assert len(vars_) == k
    bodies = [canon(b) if isinstance(b, Term) else b for b in bodies]
    h = 0
    for b in bodies:
        for x in _ch(b):
            h = max(h, height(x))
    mp = {v: bv(h + 1 + i) for i, v in enumerate(vars_)}
    closed = [_sub_any(b, mp, {}) for b in bodies]
    # renaming can renormalise: recompute until stable
    h2 = 0
    for b in closed:
        for x in _ch(b):
            h2 = max(h2, height(x))
    if h2 != h:
        return bind(op, n, list(mp.values()), *closed)
    r = mk(op, n, *closed)
    for v in vars_:
        if v in _free_any(tuple(closed)):
            raise AssertionError('leak')
    return r


def open_(t, args=None):
    """-> (n, [vars], bodies) with fresh (or the given) variables"""
    k = BINDERS[t.op]
    h = _ownheight(t)
    own = [bv(h - k + 1 + i) for i in range(k)]
    if args is None:
        args = [fresh() for _ in range(k)]
    mp = dict(zip(own, args))
    return t.args[0], args, [_sub_any(b, mp, {}) for b in t.args[1:]]


def free_bvs(t):
    if t._free is not None:
        return t._free
    if t.op == "bv":
        r = frozenset([t])
    elif t.op in BINDERS:
        h = _ownheight(t)
        own = {bv(h - i) for i in range(BINDERS[t.op])}
        inner = frozenset()
        for b in t.args[1:]:
            inner |= _free_any(b)
        r = (inner - own) | _free_any(t.args[0])
    else:
        r = frozenset()
        for a in t.args:
            r |= _free_any(a)
    t._free = r
    return r


def _free_any(a):
    if isinstance(a, Term):
        return free_bvs(a)
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            r |= _free_any(x)
        return r
    return frozenset()


def has_bv(t, v):
    return v in _free_any(t)


_CANON = {}


def canon(t, budget=48):
    """lift decisions of an arithmetic term to the top (ordered decision tree of leaves)"""
    r = _CANON.get(t)
    if r is not None:
        return r
    r = _canon(t, [budget])
    if r is None:
        r = t
    _CANON[t] = r
    return r


def _canon(t, budget):
    a = _inner_atom(t)
    if a is None:
        return t
    budget[0] -= 1
    if budget[0] < 0:
        return None
    brs = []
    for k in range(_nb(a)):
        b = _canon(decide(t, a, k), budget)
        if b is None:
            return None
        brs.append(b)
    return _sel(a, brs)


def _inner_atom(t):
    """smallest decision atom below elementwise operators of t"""
    best = [None]
    seen = set()

    def rec(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "sel":
            if best[0] is None or x.args[0].key < best[0].key:
                best[0] = x.args[0]
            for b in x.args[1]:
                rec(b)
        elif x.op == "poly":
            for m, _ in x.args[0]:
                for a, _e in m:
                    rec(a)
        elif x.op in ("exp", "log", "abs", "powt", "tuple", "arr"):
            for c in children(x):
                rec(c)
        elif x.op == "seq" and all(k == "e" for k, _ in x.args[0]):
            for _, c in x.args[0]:
                rec(c)
    if t.op in ("sel", "poly", "exp", "log", "abs", "powt", "tuple", "arr"):
        rec(t)
    return best[0]


def decide(t, atom, k):
    """t under the decision atom == branch k"""
    return _subst(t, {}, {}, {atom: k})


# ---------------------------------------------------------------- sequences
def seq(*parts):
    """python list: parts are ('e', term) elements or ('s', term) spliced sequences"""
    out = []
    for k, t in parts:
        if k == "s" and t.op == "seq":
            out.extend(t.args[0])
        elif k == "s" and t.op in ("tuple", "arr"):
            out.extend(("e", x) for x in t.args[0])
        else:
            out.append((k, t))
    if len(out) == 1 and out[0][0] == "s":
        return out[0][1]
    for i, (k, t) in enumerate(out):
        if k == "s":
            if t.op == "sel" and _conc_leaves(t) and all(q == "e" or (y.op == "sel" and _conc_leaves(y)) for q, y in out):
                # conditional pieces of otherwise explicit lists: decide outside
                ch = [seq(*out[:i], ("s", x), *out[i + 1:]) for x in t.args[1]]
                return sgn_dec(t.args[0].args[0], ch) if t.args[0].op == "sgn" else ite(batom(t.args[0]), *ch)
            break
    return mk("seq", tuple(out))


def _leafset(t, out=None):
    out = set() if out is None else out
    if t.op == "sel":
        for x in t.args[1]:
            _leafset(x, out)
    else:
        out.add(t)
    return out


def _conc_leaves(t):
    if t.op == "sel":
        return all(_conc_leaves(x) for x in t.args[1])
    return t.op in ("tuple", "arr") or (t.op == "seq" and all(k == "e" for k, _ in t.args[0]))


def lst(*xs):
    return seq(*[("e", lift(x)) for x in xs])


def arr(*xs):
    return mk("arr", tuple(lift(x) for x in xs))


def no_rows(row):
    """array without rows, each of the shape of ``row``"""
    dims = []
    while row.op == "arr":
        dims.append(num(len(row.args[0])))
        if not row.args[0]:
            break
        row = row.args[0][0]
    return mk("arr", (), tup(*dims))


def elements(t):
    """list of the element terms if t is a sequence of known length, else None"""
    if t.op in ("tuple", "arr"):
        return list(t.args[0])
    if t.op == "seq" and all(k == "e" for k, _ in t.args[0]):
        return [x for _, x in t.args[0]]
    if t.op == "range" and all(is_num(x) for x in t.args):
        r = range(*[int(x.args[0]) for x in t.args])
        if len(r) <= 256:
            return [num(i) for i in r]
    if t.op in ("map", "lmap") and is_num(t.args[0]) and t.args[0].args[0] <= 256:
        return [open_(t, [num(i)])[2][0] for i in range(int(t.args[0].args[0]))]
    if t.op == "repeat" and is_num(t.args[1]):
        e = elements(t.args[0])
        if e is not None:
            return e * int(t.args[1].args[0])
    if t.op == "c" and isinstance(t.args[0], str):
        return [const(ch) for ch in t.args[0]]
    if t.op == "dict":
        return [k for k, _ in t.args[0]]
    return None


def elements_in_cases(t):
    """as elements(), also if the value is decided by conditions as long as all cases have the same length"""
    e = elements(t)
    if e is not None or t.op != "sel":
        return e
    cs = [elements_in_cases(x) for x in t.args[1]]
    if any(c is None for c in cs) or len({len(c) for c in cs}) != 1:
        return None
    return [choose(t.args[0], [c[k] for c in cs]) for k in range(len(cs[0]))]


def length(t):
    t = lift(t)
    e = elements(t)
    if e is not None:
        return num(len(e))
    if t.op == "seq":
        r = ZERO
        for k, x in t.args[0]:
            r = add(r, ONE if k == "e" else length(x))
        return r
    if t.op in ("map", "lmap", "smap"):
        return t.args[0]
    if t.op in ("fmap", "lfmap"):
        n, (v,), (g, b) = open_(t)
        return bigsum(n, v, ite(g, ONE, ZERO))
    if t.op == "sel":
        return _sel(t.args[0], [length(x) for x in t.args[1]])
    if t.op == "repeat":
        return mul(length(t.args[0]), t.args[1])
    if t.op == "range":
        lo, hi, st = t.args
        if st is ONE:
            return sub(hi, lo)
    if t.op in ("shuffled", "store"):
        return length(t.args[0])
    if t.op == "reshape":
        return index(t.args[1], ZERO)
    if t.op == "empty":
        return index(t.args[0], ZERO)
    if t.op in LENGTHS:
        return LENGTHS[t.op](t)
    if t in LENGTH_OF:
        return LENGTH_OF[t]
    if t.op == "index" and t.args[1].op == "slice":
        a, b, s = t.args[1].args
        if is_num(a) and a.args[0] >= 0 and b is NONE and s is NONE:
            return sub(length(t.args[0]), a)
        if a is NONE and s is NONE and is_num(b) and b.args[0] < 0:
            return add(length(t.args[0]), b)
    return mk("len", t)


LENGTHS = {}
LENGTH_OF = {}


def mapn(op, n, v, body):
    """array ('map') or list ('lmap') of n elements; eta-contracted"""
    b = body
    if b.op == "index" and b.args[1] is v and not has_bv(b.args[0], v) and op == "lmap" \
            and length(b.args[0]) is n and kind(b.args[0]) == "list":
        return b.args[0]
    return bind(op, n, v, body)


def bigsum(n, v, body):
    n, body = lift(n), lift(body)
    if not has_bv(body, v):
        return mul(n, body)
    if is_num(n) and n.args[0] <= 16:
        return add(*[subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    if is_bool(body):
        body = ite(body, ONE, ZERO)
    body = canon(body)
    d = _polydict(body)
    out = {}
    rest = {}
    for m, c in d.items():
        inv = tuple((a, e) for a, e in m if not has_bv(a, v))
        dep = tuple((a, e) for a, e in m if has_bv(a, v))
        if not dep:
            out = _padd(out, _polydict(mul(n, _frompoly({inv: c}))))
        else:
            rest.setdefault(dep, {})
            rest[dep][inv] = rest[dep].get(inv, 0) + c
    res = _frompoly(out)
    for dep, invd in rest.items():
        res = add(res, mul(_frompoly(invd), bind("bigsum", n, v, _frompoly({dep: Fraction(1)}))))
    return res


def bigprod(n, v, body):
    n, body = lift(n), lift(body)
    if is_num(n) and n.args[0] <= 16:
        return mul(*[subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    d = _polydict(body)
    if len(d) == 1:
        (m, c), = d.items()
        out = [power(num(c), n)] if c != 1 else []
        for a, e in m:
            if not has_bv(a, v):
                out.append(power(power(a, num(e)), n))
            elif a.op == "exp":
                out.append(exp(mul(num(e), bigsum(n, v, a.args[0]))))
            else:
                out.append(power(bind("bigprod", n, v, a), num(e)))
        return mul(*out) if out else ONE
    return bind("bigprod", n, v, body)


def bigall(n, v, body):
    body = truth(lift(body))
    if not has_bv(body, v):
        return lor(le(n, ZERO), body)
    if is_num(n) and n.args[0] <= 16:
        return land(*[subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    return lnot(bigany(n, v, lnot(body)))


def bigany(n, v, body):
    body = truth(lift(body))
    if body is FALSE:
        return FALSE
    if not has_bv(body, v):
        return land(gt(n, ZERO), body)
    if is_num(n) and n.args[0] <= 16:
        return lor(*[subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    return batom(bind("bigany", n, v, body))


def bigext(op, n, v, body):
    """bigmin / bigmax"""
    if is_num(n) and 0 < n.args[0] <= 16:
        xs = [subst(body, {v: num(i)}) for i in range(int(n.args[0]))]
        r = xs[0]
        for x in xs[1:]:
            r = ite(lt(x, r), x, r) if op == "bigmin" else ite(gt(x, r), x, r)
        return r
    if not has_bv(body, v):
        return body
    return bind(op, n, v, body)


_SCALARIDX = ("slice", "tuple", "arr", "map", "fmap", "seq", "lmap", "lfmap", "sel")


def index(t, i):
    t, i = lift(t), lift(i)
    if i.op == "poly":
        c = _lifted(i)
        i = i if c is None else c
    if i.op == "tuple" and len(i.args[0]) == 1:
        i = i.args[0][0]
    if i.op == "tuple":
        f = INDEX_HOOK.get("tuple")
        if f:
            r = f(t, i)
            if r is not None:
                return r
    els = None
    if is_num(i) and i.args[0].denominator == 1:
        k = int(i.args[0])
        els = elements(t)
        if els is not None:
            if -len(els) <= k < len(els):
                return els[k]
            return mk("oob", t, i)
        if t.op == "seq":
            ps = list(t.args[0])
            if k >= 0 and len(ps) > k and all(p[0] == "e" for p in ps[:k + 1]):
                return ps[k][1]
            if k < 0 and len(ps) >= -k and all(p[0] == "e" for p in ps[k:]):
                return ps[k][1]
    if t.op == "sel":
        return choose(t.args[0], [index(x, i) for x in t.args[1]])
    if i.op == "sel" and not is_bool(i) and t.op in ("arr", "seq", "tuple"):
        return choose(i.args[0], [index(t, x) for x in i.args[1]])
    if i.op not in _SCALARIDX and i.op != "c":
        if t.op in ("map", "lmap"):
            j = add(t.args[0], i) if is_num(i) and i.args[0] < 0 else i
            return open_(t, [j])[2][0]
        if t.op == "range":
            lo, hi, st = t.args
            j = add(length(t), i) if is_num(i) and i.args[0] < 0 else i
            return add(lo, mul(st, j))
        if t.op == "repeat":
            e = elements(t.args[0])
            if e is not None and len(e) == 1:
                return e[0]
        if t.op == "seq" and not is_num(i):
            e = elements(t)
            if e is not None and e and all(x is e[0] for x in e):
                return e[0]
    if i.op == "rv" and t.op in ("arr", "seq", "tuple"):
        e = elements(t)
        if e and all(x.op in ("arr", "seq", "tuple") for x in e):
            rows_ = [elements(x) for x in e]
            if all(r is not None and len(r) == len(rows_[0]) for r in rows_):
                cols = [index(arr(*[r[d] for r in rows_]), i) for d in range(len(rows_[0]))]
                return arr(*cols) if t.op == "arr" else lst(*cols) if e[0].op == "seq" else tup(*cols)
        if e and all(x is e[0] for x in e):
            return e[0]
    if i.op == "slice":
        a, b, s = i.args
        if a in (NONE, ZERO) and b is NONE and s in (NONE, ONE):
            return t
        els = elements(t)
        if els is not None and all(x is NONE or is_num(x) for x in i.args):
            sl = slice(*[None if x is NONE else int(x.args[0]) for x in i.args])
            sub_ = els[sl]
            if not sub_ and els and t.op == "arr" and els[0].op == "arr":
                return no_rows(els[0])
            return tup(*sub_) if t.op == "tuple" else (arr(*sub_) if t.op == "arr" else lst(*sub_))
    if t.op == "store" and t.args[1] is i:
        return t.args[2]
    if t.op == "store" and is_num(i) and is_num(t.args[1]):
        return index(t.args[0], i)
    if t.op == "dict":
        for k, v in t.args[0]:
            if k is i:
                return v
    for f in INDEX_HOOK.get("any", ()):
        r = f(t, i)
        if r is not None:
            return r
    return mk("index", t, i)


INDEX_HOOK = {}


def store(t, i, v):
    if i.op == "poly":
        c = _lifted(i)
        i = i if c is None else c
    if t.op == "store" and t.args[1] is i:
        t = t.args[0]
    if t.op == "sel" and _conc_leaves(t):
        return choose(t.args[0], [store(x, i, v) for x in t.args[1]])
    if t.op in ("arr", "seq", "tuple") and not is_num(i) and i.op != "tuple" and _conc_leaves(t) and len(t.args[0]) <= 12:
        e = elements(t)
        if i.op == "sel" and all(is_num(x) for x in _leafset(i)):
            return choose(i.args[0], [store(t, x, v) for x in i.args[1]])
    if is_num(i) and t.op in ("arr", "seq", "tuple"):
        e = elements(t)
        k = int(i.args[0])
        if e is not None and -len(e) <= k < len(e):
            e[k] = v
            return arr(*e) if t.op == "arr" else lst(*e)
    if t.op == "dict":
        items = [(k, x) for k, x in t.args[0]]
        for n, (k, x) in enumerate(items):
            if k is i:
                items[n] = (k, v)
                break
        else:
            if is_const(i) or i.op == "fstr" or all(eq(k, i) is FALSE for k, _ in items):
                items.append((i, v))
            else:
                return mk("store", t, i, v)
        return mk("dict", tuple(items))
    return mk("store", t, i, v)


# ---------------------------------------------------------------- kinds
KIND = {}


def kind(t):
    """'scalar' | 'array' | 'list' | 'str' | None (unknown)"""
    k = KIND.get(t)
    if k:
        return k
    o = t.op
    if o == "sym":
        k = t.args[1]
        return "scalar" if k in ("int", "pos", "posint") else k
    if o in ("num", "pi", "inf", "nan", "len", "bv", "mod", "floordiv", "bigsum", "bigprod", "Energy",
             "bigmin", "bigmax", "rint", "intof"):
        return "scalar"
    if o == "c":
        return "str" if isinstance(t.args[0], str) else "scalar"
    if o in ("fstr", "strfmt"):
        return "str"
    if o in ("map", "fmap", "arr", "cond2", "Force", "bcpos", "bcmom", "reshape", "empty"):
        return "array"
    if o in ("seq", "lmap", "lfmap", "repeat", "flatmap", "range", "tuple", "dict"):
        return "list"
    if o in ("init", "shuffled"):
        return kind(t.args[0])
    if o == "store":
        return kind(t.args[0])
    if o in ("poly", "exp", "log", "abs", "powt"):
        ks = {kind(a) for a in leaves(t)}
        if "array" in ks:
            return "array"
        if ks <= {"scalar"}:
            return "scalar"
        return None
    if o == "sel":
        ks = {kind(x) for x in t.args[1]}
        if len(ks) == 1:
            return ks.pop()
        if "array" in ks:
            return "array"
        return None
    return None


def leaves(t):
    out = []

    def rec(x):
        if x.op == "poly":
            for m, _ in x.args[0]:
                for a, _e in m:
                    rec(a)
        elif x.op in ("exp", "log", "abs"):
            rec(x.args[0])
        elif x.op == "powt":
            rec(x.args[0]); rec(x.args[1])
        elif x.op == "sel":
            for b in x.args[1]:
                rec(b)
        else:
            out.append(x)
    rec(t)
    return out


# ---------------------------------------------------------------- generic traversal
def children(t):
    for a in t.args:
        yield from _ch(a)


def _ch(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _ch(x)


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, sub_):
    return any(x is sub_ for x in walk(t))


def contains_any(t, subs):
    return any(x in subs for x in walk(t))


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def subst(t, mp):
    """replace terms by terms, renormalising"""
    return _subst(t, mp, {}, None)


class Budget(Exception):
    """the time for one case is used up: the obligation stays open"""


DEADLINE = [None]
_TICK = [0]


def tick():
    _TICK[0] += 1
    if not _TICK[0] & 1023 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget("time budget of the case used up")


def _subst(t, mp, memo, dec=None):
    tick()
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or all(not isinstance(a, (Term, tuple)) for a in t.args):
        memo[t] = t
        return t
    if t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            r = add(r, mul(num(c), *[power(_subst(a, mp, memo, dec), num(e)) for a, e in m]))
    elif t.op == "sel":
        a = t.args[0]
        if dec is not None and a in dec:
            r = _subst(t.args[1][dec[a]], mp, memo, dec)
        else:
            brs = [_subst(x, mp, memo, dec) for x in t.args[1]]
            if a.op == "sgn":
                r = sgn_dec(_subst(a.args[0], mp, memo, dec), brs)
            else:
                na = rebuild_atom(a.op, [_sub_any(x, mp, memo, dec) for x in a.args])
                if dec and na.op == "sel" and na.args[0] in dec and len(na.args[1]) == 2:
                    r = ite(na.args[1][dec[na.args[0]]], brs[0], brs[1])
                else:
                    r = ite(na, brs[0], brs[1])
    elif t.op in BINDERS:
        n, vs, bodies = open_(t)
        n2 = _subst(n, mp, memo, dec)
        b2 = [_sub_any(b, mp, {}, dec) for b in bodies]
        if n2 is n and all(x is y or x == y for x, y in zip(b2, bodies)):
            r = t
        else:
            r = rebind(t.op, n2, vs, b2)
    else:
        args = [_sub_any(x, mp, memo, dec) for x in t.args]
        if all(x is y or x == y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t.op, args)
    memo[t] = r
    return r


def rebind(op, n, vs, bodies):
    v = vs[0]
    if op == "bigsum":
        return bigsum(n, v, bodies[0])
    if op == "bigprod":
        return bigprod(n, v, bodies[0])
    if op == "bigany":
        return bind("bigany", n, v, bodies[0])  # is an atom: see rebuild_atom
    if op in ("bigmin", "bigmax"):
        return bigext(op, n, v, bodies[0])
    if op in ("map", "lmap"):
        return mapn(op, n, v, bodies[0])
    if op in ("fmap", "lfmap"):
        return fmapn(op, n, v, *bodies)
    return bind(op, n, vs, *bodies)


def fmapn(op, n, v, guard, body):
    guard = truth(guard)
    if guard is TRUE:
        return mapn("map" if op == "fmap" else "lmap", n, v, body)
    return bind(op, n, v, guard, body)


def sgn_dec(p, brs):
    """ordered version of sgn_test (branches may contain smaller atoms)"""
    c = _lifted(p)
    if c is not None:
        return choose(c.args[0], [sgn_dec(x, brs) for x in c.args[1]])
    at_, flip, s = sgn_atom(p)
    if at_ is None:
        return {-1: brs[0], 0: brs[1], 1: brs[2]}[s]
    b = list(brs) if flip > 0 else [brs[2], brs[1], brs[0]]
    return _sgn_ordered(at_, b)


def _sgn_ordered(at_, b):
    b = [_cof(x, at_, k) for k, x in enumerate(b)]
    small = [x.args[0] for x in b if x.op == "sel" and x.args[0].key < at_.key]
    if not small:
        return _sel(at_, b)
    m = min(small, key=lambda x: x.key)
    return _sel(m, [_sgn_ordered(at_, [_cof(x, m, k) for x in b]) for k in range(_nb(m))])


def rebuild_atom(op, args):
    if op == "eq":
        return eq(*args)
    if op == "truthy":
        return truth(args[0])
    if op == "isinf":
        return _infcmp(args[0], INF if args[1] > 0 else NINF)[1]
    if op == "bigany":
        # args: n, closed body -> renormalise
        t = mk("bigany", *args)
        n, (v,), (b,) = open_(t)
        return bigany(n, v, b)
    if op in ATOM_REBUILD:
        return ATOM_REBUILD[op](*args)
    f = REBUILD.get(op)
    if f:
        return truth(f(*args))
    return batom(mk(op, *args))


ATOM_REBUILD = {}


def _sub_any(a, mp, memo, dec=None):
    if isinstance(a, Term):
        return _subst(a, mp, memo, dec)
    if isinstance(a, tuple):
        return tuple(_sub_any(x, mp, memo, dec) for x in a)
    return a


REBUILD.update({
    "exp": exp, "log": log, "abs": absval, "powt": power,
    "mod": mod, "floordiv": floordiv, "index": index, "len": length,
    "seq": lambda parts: seq(*parts), "store": store,
})


# ---------------------------------------------------------------- comparison
def first_atom(t):
    """a decision atom occurring anywhere in t (outermost first) without bound variables"""
    seen = set()
    st = [t]
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sel" and not any(isinstance(v.args[0], int) for v in free_bvs(x.args[0])):
            return x.args[0]
        st.extend(children(x))
    return None


_PAIRS = {}
_NEG = {}


def _pair(p, q):
    r = _PAIRS.get((p, q))
    if r is None:
        a, b = add(p, q), sub(p, q)
        r = _PAIRS[(p, q)] = ((a, neg(a), 1), (b, neg(b), -1))
    return r


class Facts:
    """Assumptions for a comparison: known signs and impossible combinations."""

    def __init__(self, signs=None, rules=(), sampler=None, assumed=()):
        self.assumed = list(assumed)
        self.signs = []
        for p, allowed in (signs or {}).items():
            self.signs.append((p, set(allowed)))
        self.rules = list(rules)  # functions(assignment dict atom->branch) -> feasible?
        self.sampler = sampler    # function(random) -> {term: value}

    def feasible(self, asg):
        sg = [(p, frozenset(a)) for p, a in self.signs]
        for a, k in asg.items():
            if a.op == "sgn":
                sg.append((a.args[0], frozenset([k - 1])))
        none = {x for a, k in asg.items() if a.op == "eq" and k == 0
                for x in a.args if NONE in a.args and x is not NONE}
        for a, k in asg.items():
            if a.op == "truthy" and k == 0 and a.args[0] in none:
                return False
        eqs = {}
        for a, k in asg.items():
            if a.op == "eq" and k == 0:
                cs = [x for x in a.args if x.op in ("c", "enum", "num")]
                vs = [x for x in a.args if x.op not in ("c", "enum", "num")]
                if len(cs) == 1 and len(vs) == 1:
                    if eqs.setdefault(vs[0], cs[0]) is not cs[0]:
                        return False
        d = {}
        for p, s in sg:
            d[p] = d.get(p, frozenset([-1, 0, 1])) & s
            if not d[p]:
                return False
        items = list(d.items())
        for i, (p, sp) in enumerate(items):
            np_ = _NEG.get(p)
            if np_ is None:
                np_ = _NEG[p] = neg(p)
            if np_ in d and not ({-x for x in sp} & d[np_]):
                return False
            for q, sq in items[i + 1:]:
                for r, nr, fq in _pair(p, q):
                    sr = d.get(r)
                    if sr is None:
                        sr = frozenset(-x for x in d[nr]) if nr in d else None
                    if sr is None and is_num(r):
                        v = r.args[0]
                        sr = frozenset([(v > 0) - (v < 0)])
                    if sr is None:
                        continue
                    poss = set()
                    for x in sp:
                        for y0 in sq:
                            y = y0 * fq
                            if x == 0 or y == 0 or x == y:
                                poss.add(x + y if x == 0 or y == 0 else x)
                            else:
                                poss |= {-1, 0, 1}
                    if not (poss & sr):
                        return False
        return all(r(asg) for r in self.rules)


NOFACTS = Facts()


class Undecided(Exception):
    pass


def differences(a, b, facts=None, budget=4000):
    """Decide a == b for all assignments of the decision atoms.

    Yields (assignment, equations, leaf_a, leaf_b) for every case that normal forms do
    not prove; nothing is yielded when a == b is proved."""
    facts = facts or NOFACTS
    left = [budget]

    def rec(a, b, asg, eqs):
        if a is b:
            return
        parts = _parts(a, b)
        if parts is not None:
            for x, y in parts:
                yield from rec(x, y, asg, eqs)
            return
        at_ = first_atom(a)
        if at_ is None:
            at_ = first_atom(b)
        if at_ is None:
            if not _ratzero(a, b):
                yield asg, eqs, a, b
            return
        left[0] -= 1
        if left[0] < 0:
            raise Undecided("decision table too large")
        for k in range(_nb(at_)):
            n = dict(asg)
            n[at_] = k
            if not facts.feasible(n):
                continue
            a2, b2 = decide(a, at_, k), decide(b, at_, k)
            e2 = eqs
            if at_.op == "sgn" and k == 1:
                s = solve_for(at_.args[0])
                if s:
                    a2, b2 = subst(a2, s), subst(b2, s)
                    e2 = eqs + [s]
            if at_.op == "eq" and k == 0:
                x, y = at_.args
                if y.op in ("c", "enum"):
                    x, y = y, x
                if x.op in ("c", "enum") and y.op not in ("c", "enum"):
                    a2, b2 = subst(a2, {y: x}), subst(b2, {y: x})
                    e2 = eqs + [{y: x}]
            yield from rec(a2, b2, n, e2)

    yield from rec(a, b, {}, [])


def _parts(a, b):
    """componentwise comparison of structures of the same shape"""
    if a.op != b.op:
        return None
    if a.op in ("arr", "tuple") and len(a.args[0]) == len(b.args[0]):
        return list(zip(a.args[0], b.args[0]))
    if a.op == "seq" and len(a.args[0]) == len(b.args[0]) and all(k == "e" for k, _ in a.args[0] + b.args[0]):
        return [(x, y) for (_, x), (_, y) in zip(a.args[0], b.args[0])]
    if a.op in ("map", "lmap") and a.args[0] is b.args[0]:
        v = fresh()
        return [(open_(a, [v])[2][0], open_(b, [v])[2][0])]
    return None


def equal(a, b, facts=None):
    for d in differences(a, b, facts):
        return False, d
    return True, None


def _ratzero(a, b):
    """a - b == 0 after clearing denominators"""
    if kind(a) in ("list", "str") or kind(b) in ("list", "str") or not (
            _maybe_numeric(a) and _maybe_numeric(b)):
        return False
    d = sub(a, b)
    for _ in range(6):
        if d is ZERO:
            return True
        dens = {}
        for m, _c in _polydict(d).items():
            for x, e in m:
                if e < 0:
                    dens[x] = max(dens.get(x, 0), -e)
        if not dens:
            return False
        pd = _polydict(d)
        out = ZERO
        for m, c in pd.items():
            ex = dict(m)
            for x, e in dens.items():
                ex[x] = ex.get(x, Fraction(0)) + e
            out = add(out, mul(num(c), _frompoly(_mono_norm({k: v for k, v in ex.items() if v}))))
        d = out
    return d is ZERO


def solve_for(p):
    """p == 0: express one plain atom through the others"""
    d = _polydict(p)
    cands = []
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("bv", "sym", "init", "index", "mod", "floordiv"):
            a = m[0][0]
            others = _frompoly({k: v for k, v in d.items() if k != m})
            if not contains(others, a):
                cands.append(({"bv": 0, "sym": 1}.get(a.op, 2), a.key, a, div(neg(others), num(c))))
    if not cands and len(d) == 2:
        (m1, c1), (m2, c2) = d.items()
        if c1 == -c2 and all(len(m) == 1 and m[0][0].op == "exp" for m in (m1, m2)) and m1[0][1] == m2[0][1]:
            return solve_for(sub(m1[0][0].args[0], m2[0][0].args[0]))   # exp is injective
    if not cands:
        return None
    cands.sort(key=lambda x: (x[0], x[1]))
    _, _, a, v = cands[0]
    return {a: v}


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, Term) else (
        "(" + ", ".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    o = t.op
    if o == "num":
        return str(t.args[0])
    if o == "c":
        return repr(t.args[0])
    if o == "sym":
        return str(t.args[0])
    if o == "init":
        return s(t.args[0])
    if o == "obj":
        return s(t.args[0]) + "." + str(t.args[1])
    if o == "poly":
        out = []
        for m, c in t.args[0]:
            fs = [] if c == 1 and m else [str(c)]
            for a, e in m:
                fs.append(s(a) if e == 1 else f"{s(a)}^({e})")
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "sel":
        a, br = t.args
        if a.op == "sgn":
            return f"[sgn {s(a.args[0])} ? -:{s(br[0])} 0:{s(br[1])} +:{s(br[2])}]"
        return f"[{s(a)} ? {s(br[0])} : {s(br[1])}]"
    if o == "index":
        return f"{s(t.args[0])}[{s(t.args[1])}]"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in t.args[0]) + ",)"
    if o == "arr":
        return "<" + ", ".join(s(x) for x in t.args[0]) + ">"
    if o == "seq":
        return "[" + ", ".join(("*" if k == "s" else "") + s(x) for k, x in t.args[0]) + "]"
    if o == "app":
        f, a, kw = t.args
        return f"{f}(" + ", ".join([s(x) for x in a] + [f"{k}={s(v)}" for k, v in kw]) + ")"
    if o == "bv":
        return f"#{t.args[0]}" if isinstance(t.args[0], int) else f"#{t.args[0][0]}{t.args[0][1]}"
    if o == "new":
        return f"<{t.args[1]}#{t.args[0]}>"
    if o == "enum":
        return f"{t.args[0].split('.')[-1]}.{t.args[1]}"
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in t.args)
    return f"{o}(" + ", ".join(s(x) for x in t.args) + ")"
