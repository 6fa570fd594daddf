"""Random interpretation of value graphs (refutation only).

Two graphs that normal forms do not identify are interpreted at random points, every
input symbol and uninterpreted operation being a random function.  A point where they
differ is a witness that the code really computes something else; without a witness no
violation is reported.  No code of the analysed program is executed.
"""
import hashlib
import itertools
import math
import random
import warnings

import numpy as np

from . import terms as T
from .terms import Term, cval

warnings.filterwarnings("ignore")


class CantEval(Exception):
    pass


class U:
    """value of an uninterpreted term"""
    __slots__ = ("h", "ctx")

    def __init__(self, h, ctx):
        self.h = h
        self.ctx = ctx

    def num(self):
        return self.ctx.hashnum(self.h)

    def __eq__(self, o):
        return isinstance(o, U) and o.h == self.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return f"U{self.num():.3g}"


def magnitude(r):
    return 10 ** r.uniform(-3.5, 3.5) if r.random() < 0.3 else 1.0


DISCRETE = [-1.0, -0.5, 0.0, 0.5, 1.0, 2.0]


def _h(*xs):
    m = hashlib.blake2b(digest_size=8)
    for x in xs:
        m.update(repr(x).encode())
        m.update(b"|")
    return m.hexdigest()


COARSE = [False]    # arguments of unknown functions are told apart with few digits (loss of precision)


def _key(v):
    if isinstance(v, U):
        return v.h
    if isinstance(v, np.ndarray):
        return ("a", tuple(_key(x) for x in v.tolist())) if v.ndim else _key(v.item())
    if isinstance(v, (list, tuple)):
        return ("l", tuple(_key(x) for x in v))
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        f = float(v)
        if math.isfinite(f):
            return (float(f"{round(f, 4):.5g}") if COARSE[0] else float(f"{f:.9g}")) + 0.0
        return repr(f)
    if isinstance(v, dict):
        return ("d", tuple((_key(a), _key(b)) for a, b in v.items()))
    return v


def tonum(v):
    if isinstance(v, U):
        return v.num()
    if isinstance(v, (list, tuple)):
        return np.array([tonum(x) for x in v], dtype=float) if v else np.array([])
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return v
    if isinstance(v, slice) or isinstance(v, str) or v is None:
        raise CantEval(f"not numeric: {v!r}")
    raise CantEval(f"not numeric: {type(v)}")


# pure library functions that can be interpreted by the library itself
NPFUNCS = set("""abs absolute add all allclose alltrue amax amin any append arange argmax argmin argsort array
array_equal asarray atleast_1d atleast_2d average bincount broadcast_to ceil clip column_stack concatenate copy
count_nonzero cross cumprod cumsum diag diff digitize divide dot dstack einsum equal exp expand_dims expm1 exp2
eye fabs fill_diagonal flatnonzero flip float_power float64 floor floor_divide full full_like gradient greater
greater_equal hstack hypot identity indices inner int64 isclose isfinite isin isinf isnan less less_equal linalg.norm linspace log log10
log1p log2 logical_and logical_not logical_or logical_xor matmul max maximum mean median meshgrid min minimum mod moveaxis
multiply nan_to_num nanmax nanmean nanmin nansum ndim negative newaxis nonzero not_equal ones ones_like outer
power prod product ptp ravel reciprocal remainder repeat reshape roll rollaxis rot90 round searchsorted shape sign size sort split
sqrt square squeeze stack std subtract sum swapaxes take tensordot tile trace transpose trapz trapezoid true_divide
unique var vstack where zeros zeros_like histogramdd histogram ix_ unravel_index ravel_multi_index rint trunc fmax fmin
add.reduce multiply.reduce logical_and.reduce logical_or.reduce minimum.reduce maximum.reduce subtract.outer ndindex
polynomial.polynomial.polyval polynomial.polynomial.polyval2d polynomial.polynomial.polyval3d
polynomial.polynomial.polyder polynomial.polynomial.polygrid2d c_ r_ atleast_3d interp""".split())
PYFUNCS = {"len": len, "sum": lambda x, s=0: sum(list(x), s), "min": min, "max": max, "sorted": sorted, "abs": abs,
           "list": list, "tuple": tuple, "zip": lambda *a: list(zip(*a)), "enumerate": lambda x, s=0: list(enumerate(x, s)),
           "reversed": lambda x: list(reversed(x)), "any": any, "all": all, "round": round, "int": int, "float": float,
           "str": str, "bool": bool, "range": lambda *a: list(range(*map(int, a))), "set": lambda x=(): sorted(set(x)),
           "divmod": divmod}


class Ctx:
    def __init__(self, seed, discrete=False, assign=None, wide=False):
        self.seed = seed
        self.discrete = discrete
        self.wide = wide        # numbers of very different magnitude
        self.mag = 1.0          # largest number met: bounds the loss of precision
        self.assign = dict(assign or {})
        self.memo = {}
        self.steps = 0

    # ---- random values
    def hashnum(self, h):
        r = random.Random(f"{self.seed}:{h}")
        if self.discrete:
            return r.choice(DISCRETE)
        x = r.gauss(0.3, 1.2)
        return x * magnitude(r) if self.wide else x

    def hashint(self, h, n):
        if n <= 0:
            return 0
        return random.Random(f"{self.seed}:{h}").randrange(n)

    def un(self, t, env, *vals):
        return U(_h(t.op, *[_key(v) for v in vals]), self)

    # ---- evaluation
    def ev(self, t, env=()):
        fb = T.free_bvs(t)
        if fb:
            key = (t, tuple((k, v) for k, v in env if k in fb))
        else:
            key = t
        try:
            return self.memo[key]
        except KeyError:
            pass
        self.steps += 1
        if self.steps > 400000:
            raise CantEval("too large")
        if t in self.assign:
            v = self.assign[t]
            if isinstance(v, Term):
                v = self.ev(v, env)
        else:
            v = self._ev(t, env)
        self.memo[key] = v
        return v

    def n(self, t, env):
        return tonum(self.ev(t, env))

    def i(self, t, env):
        v = self.n(t, env)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise CantEval("int of array")
            v = v.item()
        if not float(v).is_integer():
            raise CantEval(f"non-integer size {v}")
        return int(v)

    def branch(self, atom, env):
        """index of the branch of a decision atom (or array of indices)"""
        if atom in self.assign:
            return self.assign[atom]
        if atom.op == "sgn":
            v = self.n(atom.args[0], env)
            if isinstance(v, np.ndarray) and v.ndim:
                return (np.sign(np.where(np.abs(v) < 1e-11, 0, v)).astype(int) + 1)
            if v != v:
                raise CantEval("nan comparison")
            v = 0 if abs(v) < 1e-11 else v
            return int(v > 0) - int(v < 0) + 1
        if atom.op == "eq":
            a, b = self.ev(atom.args[0], env), self.ev(atom.args[1], env)
            return 0 if _key(a) == _key(b) else 1
        if atom.op == "isinf":
            v = self.n(atom.args[0], env)
            tgt = math.inf * atom.args[1]
            if isinstance(v, np.ndarray) and v.ndim:
                return np.where(v == tgt, 0, 1)
            return 0 if v == tgt else 1
        if atom.op == "bigany":
            n = self.i(atom.args[0], env)
            for k in range(n):
                b = self.body(atom, env, [k])[0]
                if self.truthval(self.ev(b[0], b[1])):
                    return 0
            return 1
        if atom.op == "truthy":
            return 0 if self.truthval(self.ev(atom.args[0], env)) else 1
        if atom.op == "in":
            x, c = self.ev(atom.args[0], env), self.ev(atom.args[1], env)
            if isinstance(c, U):
                return 0 if int(_h(_key(x), c.h, self.seed), 16) % 2 else 1
            if isinstance(c, dict):
                return 0 if _key(x) in c else 1
            return 0 if _key(x) in [_key(y) for y in c] else 1
        if atom.op == "drawis":
            return 0 if int(_h("drawis", *[_key(self.ev(x, env)) if isinstance(x, Term) else x for x in atom.args], self.seed), 16) % int(
                cval(atom.args[3])) == 0 else 1
        if atom.op in ("opaque",):
            raise CantEval(T.show(atom))
        v = self.ev(atom, env)
        return 0 if self.truthval(v) else 1

    def truthval(self, v):
        if isinstance(v, U):
            return int(_h(v.h, self.seed, "t"), 16) % 2 == 0
        if isinstance(v, np.ndarray):
            return bool(v.all()) if v.size else False
        return bool(v)

    def body(self, t, env, ks):
        """bodies of a binder with the environment extended by the bound values"""
        k = T.BINDERS[t.op]
        h = T._ownheight(t)
        e = tuple((a, b) for a, b in env if a not in [T.bv(h - k + 1 + i) for i in range(k)])
        e = e + tuple((T.bv(h - k + 1 + i), ks[i]) for i in range(k))
        return [(b, e) for b in t.args[1:]]

    def _ev(self, t, env):
        o = t.op
        f = getattr(self, "op_" + o, None)
        if f:
            return f(t, env)
        if o == "opaque":
            raise CantEval(str(t.args[0]))
        raise CantEval("operation " + o)

    def op_num(self, t, env):
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)

    def op_c(self, t, env): return t.args[0]
    def op_pi(self, t, env): return math.pi
    def op_inf(self, t, env): return math.inf
    def op_nan(self, t, env): return math.nan
    def op_enum(self, t, env): return ("enum",) + t.args
    def op_sym(self, t, env):
        if t.args[1] in ("int", "posint"):
            return 1 + self.hashint(t.args[0], 9)
        return U(_h("sym", t.args[0]), self)

    def op_bv(self, t, env):
        for k, v in env:
            if k is t:
                return v.v if isinstance(v, _Frozen) else v
        return U(_h("bv", t.args), self)

    def op_poly(self, t, env):
        r = 0
        for m, c in t.args[0]:
            x = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                b = self.n(a, env)
                try:
                    if e == 1:
                        x = x * b
                    elif e.denominator == 1:
                        if e > 0:
                            x = x * b ** int(e)
                        else:
                            x = x / (b ** int(-e)) if not (np.ndim(b) == 0 and b == 0) else np.float64(x) / np.float64(0.0)
                    else:
                        x = x * np.power(np.asarray(b, dtype=float), float(e))
                except (ZeroDivisionError, OverflowError) as err:
                    raise CantEval(str(err))
            if self.wide:
                self.note(x)
            r = r + x
        return r

    def note(self, x):
        m = float(np.max(np.abs(x))) if np.size(x) else 0.0
        if not m < 1e6:
            raise CantEval("magnitude")
        self.mag = max(self.mag, m)

    def op_exp(self, t, env):
        x = self.n(t.args[0], env)
        if self.wide and np.size(x) and np.max(np.abs(x)) > 40:
            raise CantEval("magnitude")
        return np.exp(np.clip(x, -700, 700))

    def op_log(self, t, env): return np.log(np.asarray(self.n(t.args[0], env), dtype=float))
    def op_abs(self, t, env): return np.abs(self.n(t.args[0], env))
    def op_powt(self, t, env):
        return np.power(np.asarray(self.n(t.args[0], env), dtype=float), self.n(t.args[1], env))

    def op_floordiv(self, t, env):
        a, b = self.n(t.args[0], env), self.n(t.args[1], env)
        if np.ndim(b) == 0 and b == 0:
            raise CantEval("division by zero")
        return a // b

    def op_mod(self, t, env):
        a, b = self.n(t.args[0], env), self.n(t.args[1], env)
        if np.ndim(b) == 0 and b == 0:
            raise CantEval("division by zero")
        return a % b

    def op_sel(self, t, env):
        b = self.branch(t.args[0], env)
        if isinstance(b, np.ndarray):
            vals = [self.ev(x, env) for x in t.args[1]]
            return np.choose(b, [tonum(v) for v in vals])
        return self.ev(t.args[1][b], env)

    def op_tuple(self, t, env): return tuple(self.ev(x, env) for x in t.args[0])
    def op_slice(self, t, env):
        return slice(*[None if x is T.NONE else self.i(x, env) for x in t.args])

    def op_arr(self, t, env):
        return self.stack([self.ev(x, env) for x in t.args[0]])

    def stack(self, vs):
        try:
            return np.array([tonum(v) for v in vs])
        except ValueError as e:
            raise CantEval(str(e))

    def op_seq(self, t, env):
        out = []
        for k, x in t.args[0]:
            v = self.ev(x, env)
            if k == "e":
                out.append(v)
            else:
                if isinstance(v, U):
                    raise CantEval("splice of unknown list")
                out.extend(list(v))
        return out

    def op_dict(self, t, env):
        return {_key(self.ev(k, env)): self.ev(v, env) for k, v in t.args[0]}

    def op_range(self, t, env):
        return list(range(*[self.i(x, env) for x in t.args]))

    def op_repeat(self, t, env):
        return list(self.ev(t.args[0], env)) * self.i(t.args[1], env)

    def size(self, n, env):
        k = self.i(n, env)
        if k > 4000:
            raise CantEval("size too large")
        return max(k, 0)

    def op_map(self, t, env):
        return self.stack(self.op_lmap(t, env))

    def op_lmap(self, t, env):
        out = []
        for k in range(self.size(t.args[0], env)):
            (b, e), = self.body(t, env, [k])
            out.append(self.ev(b, e))
        return out

    def op_lfmap(self, t, env):
        out = []
        for k in range(self.size(t.args[0], env)):
            (g, e), (b, _) = self.body(t, env, [k])
            if self.truthval(self.ev(g, e)):
                out.append(self.ev(b, e))
        return out

    def op_fmap(self, t, env):
        return self.stack(self.op_lfmap(t, env))

    def op_flatmap(self, t, env):
        out = []
        for k in range(self.size(t.args[0], env)):
            (b, e), = self.body(t, env, [k])
            out.extend(list(self.ev(b, e)))
        return out

    def op_cond2(self, t, env):
        out = []
        n = self.size(t.args[0], env)
        for i in range(n):
            for j in range(i + 1, n):
                (b, e), = self.body(t, env, [i, j])
                out.append(self.ev(b, e))
        return self.stack(out)

    def _big(self, t, env):
        for k in range(self.size(t.args[0], env)):
            (b, e), = self.body(t, env, [k])
            yield self.n(b, e)

    def op_bigsum(self, t, env): return sum(self._big(t, env))
    def op_bigprod(self, t, env): return math.prod(self._big(t, env))
    def op_bigmin(self, t, env): return min(list(self._big(t, env)) or [math.inf])
    def op_bigmax(self, t, env): return max(list(self._big(t, env)) or [-math.inf])
    def op_bigany(self, t, env): return self.branch(t, env) == 0
    def op_in(self, t, env): return self.branch(t, env) == 0

    def op_lastval(self, t, env):
        n = self.size(t.args[0], env)
        if n == 0:
            return self.ev(t.args[1], env)
        (_, _), (b, e) = self.body(t, env, [n - 1])
        return self.ev(b, e)

    def op_smap(self, t, env):
        """stores base[idx(k)] = v(k) for k in range(n)"""
        base = self.ev(t.args[1], env)
        base = np.array(tonum(base), dtype=float) if not isinstance(base, list) else list(base)
        for k in range(self.size(t.args[0], env)):
            _, (ix, e), (b, _) = self.body(t, env, [k])
            base[self.ev(ix, e)] = self.ev(b, e) if isinstance(base, list) else self.n(b, e)
        return base

    def op_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, U):
            return 1 + self.hashint(v.h + "len", 5)
        return len(v)

    def op_shape(self, t, env): return np.shape(self.n(t.args[0], env))
    def op_size(self, t, env):
        return np.size(self.n(t.args[0], env)) if len(t.args) == 1 else np.shape(self.n(t.args[0], env))[self.i(t.args[1], env)]
    def op_flat(self, t, env): return np.ravel(self.n(t.args[0], env))

    def op_reshape(self, t, env):
        s = self.ev(t.args[1], env)
        s = [int(tonum(x)) for x in s]
        try:
            return np.reshape(self.n(t.args[0], env), s)
        except ValueError as e:
            raise CantEval(str(e))

    def op_empty(self, t, env):
        s = [int(tonum(x)) for x in self.ev(t.args[0], env)]
        if np.prod(s) > 10000:
            raise CantEval("size")
        a = np.empty(s)
        a.fill(7.5e5)
        return a

    def op_index(self, t, env):
        b = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        if isinstance(b, U):
            if isinstance(i, tuple) and len(i) > 0 and not any(isinstance(x, slice) for x in i):
                r = b
                for x in i:
                    r = U(_h("index", r.h, _key(x)), self)
                return r
            return U(_h("index", b.h, _key(i)), self)
        if isinstance(b, dict):
            k = _key(i)
            if k not in b:
                raise CantEval("missing key")
            return b[k]
        if isinstance(i, U):
            i = tonum(i)
        if isinstance(i, tuple):
            i = tuple(int(x) if isinstance(x, float) else x for x in i)
            b = tonum(b)
        if isinstance(i, float):
            if not i.is_integer():
                raise CantEval("index")
            i = int(i)
        try:
            if isinstance(i, list):
                b = tonum(b)
                i = np.array(i)
            if isinstance(i, np.ndarray) and i.dtype == float:
                i = i.astype(int)
            if isinstance(i, np.ndarray) and isinstance(b, (list, tuple)):
                b = tonum(b)
            return b[i]
        except (IndexError, TypeError) as e:
            raise CantEval("index " + str(e))

    def op_store(self, t, env):
        b, i, v = (self.ev(x, env) for x in t.args)
        if isinstance(b, U):
            raise CantEval("store into unknown")
        if isinstance(b, dict):
            b = dict(b)
            b[_key(i)] = v
            return b
        if isinstance(b, (list, tuple)):
            b = list(b)
        else:
            b = np.array(b, dtype=float)
            v = tonum(v)
        if isinstance(i, U):
            i = int(tonum(i))
        if isinstance(i, tuple):
            i = tuple(int(x) if isinstance(x, float) else x for x in i)
        try:
            b[i] = v
        except (IndexError, ValueError, TypeError) as e:
            raise CantEval("store " + str(e))
        return b

    def op_fstr(self, t, env):
        out = ""
        for p in t.args[0]:
            v = self.ev(p, env) if isinstance(p, Term) else p
            if isinstance(v, float) and v.is_integer():
                v = int(v)
            out += str(v if not isinstance(v, U) else v.h)
        return out

    def op_fmtval(self, t, env): return str(_key(self.ev(t.args[0], env))) + str(t.args[1])
    def op_intof(self, t, env):
        v = self.n(t.args[0], env)
        try:
            return np.trunc(v) if np.ndim(v) else int(v)
        except (ValueError, OverflowError) as e:
            raise CantEval(str(e))
    def op_ceil(self, t, env): return np.ceil(self.n(t.args[0], env))
    def op_floor(self, t, env): return np.floor(self.n(t.args[0], env))

    def op_draw(self, t, env):
        st, method, args, kw = t.args
        vals = [self.ev(a, env) for a in args]
        h = _h("draw", _key(self.ev(st, env)), method, *[_key(v) for v in vals])
        if method == "integers" and len(args) == 1:
            try:
                return self.hashint(h, int(tonum(vals[0])))
            except CantEval:
                pass
        if method == "random":
            r = random.Random(f"{self.seed}:{h}")
            return r.random() if not self.discrete else r.choice([0.0, 0.25, 0.5, 0.75])
        return U(h, self)

    def op_shuffled(self, t, env):
        x = self.ev(t.args[0], env)
        if isinstance(x, U):
            return U(_h("shuf", x.h), self)
        idx = list(range(len(x)))
        random.Random(f"{self.seed}:shuf:{_key(self.ev(t.args[1], env))}").shuffle(idx)
        return np.array([x[i] for i in idx]) if isinstance(x, np.ndarray) else [x[i] for i in idx]

    def op_dcopy(self, t, env): return self.ev(t.args[0], env)

    def op_strfmt(self, t, env): return ("fmt", _key(self.ev(t.args[0], env)), _key(self.ev(t.args[1], env)))

    def op_app(self, t, env):
        f, args, kw = t.args
        if f.startswith("np."):
            name = f[3:]
            if name.startswith("lossy."):
                x = self.n(args[0], env)
                if name[6:] in ("float32", "float16", "half", "single"):
                    return np.round(x, 3)
                return np.array(np.trunc(x)).astype("int64").astype(name[6:]) + 0.0
            if name not in NPFUNCS:
                raise CantEval(f)
            vals = [self.npval(a, env) for a in args]
            kws = {k: self.npval(v, env) for k, v in kw}
            fn = np
            if name in ("trapz", "trapezoid"):
                fn = np.trapezoid if hasattr(np, "trapezoid") else np.trapz
            else:
                for part in name.split("."):
                    fn = getattr(fn, part)
            if name in ("c_", "r_"):
                return fn[tuple(vals)]
            if name == "fill_diagonal":
                a = np.array(vals[0], dtype=float)
                np.fill_diagonal(a, *vals[1:])
                return a
            try:
                return fn(*vals, **kws)
            except Exception as e:
                raise CantEval(f"{f}: {e}")
        if f.startswith("py."):
            name = f[3:]
            if name in PYFUNCS:
                try:
                    vals = [self.ev(a, env) for a in args]
                    vals = [tonum(v) if isinstance(v, U) else v for v in vals]
                    return PYFUNCS[name](*vals)
                except CantEval:
                    raise
                except Exception as e:
                    raise CantEval(f"{f}: {e}")
        if f in ("scipy.spatial.distance.pdist", "scipy.spatial.distance.squareform", "scipy.spatial.distance.cdist"):
            import scipy.spatial.distance as d
            try:
                return getattr(d, f.rsplit(".", 1)[1])(*[self.npval(a, env) for a in args],
                                                       **{k: self.npval(v, env) for k, v in kw})
            except Exception as e:
                raise CantEval(f"{f}: {e}")
        if f in ("scipy.signal.convolve", "scipy.interpolate.griddata"):
            # interpreted as an uninterpreted function of its arguments
            return U(_h(f, *[_key(self.ev(a, env)) for a in args],
                        *[(k, _key(self.ev(v, env))) for k, v in kw]), self)
        raise CantEval(f)

    def npval(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, U):
            return v.num()
        if isinstance(v, (list, tuple)):
            def conv(x):
                if isinstance(x, U):
                    return x.num()
                if isinstance(x, list):
                    return [conv(y) for y in x]
                if isinstance(x, tuple):
                    return tuple(conv(y) for y in x)
                return x
            return conv(v)
        return v


def _ops():
    def op_fold(self, t, env):
        n = self.size(t.args[0], env)
        st = self.ev(t.args[1], env)
        for k in range(n):
            _, (b, e) = self.body(t, env, [k, _Frozen(st)])
            st = self.ev(b, e)
        return st

    def op_rv(self, t, env):
        method, seed, pos = t.args[:3]
        h = _h("rv", method, _key(self.ev(seed, env)), _key(self.ev(pos, env)))
        r = random.Random(f"{self.seed}:{h}")
        if method == "integers" and len(t.args) == 4:
            n = self.n(t.args[3], env)
            return self.hashint(h, int(n))
        if method == "random":
            return r.random() if not self.discrete else r.choice([0.0, 0.25, 0.5, 0.75])
        if method == "normal" or method == "standard_normal":
            return r.gauss(0, 1) if not self.discrete else r.choice(DISCRETE)
        return U(_h(h, *[_key(self.ev(x, env)) for x in t.args[3:] if isinstance(x, Term)]), self)

    def op_histc(self, t, env):
        data, edges, idx, extra = t.args
        if extra.op != "tuple" or extra.args[0]:
            raise CantEval("histogram options")
        d = np.asarray(tonum(self.ev(data, env)), dtype=float)
        es = [np.asarray(tonum(x), dtype=float) for x in self.ev(edges, env)]
        ix = tuple(int(tonum(x)) for x in self.ev(idx, env))
        if d.ndim == 1:
            d = d.reshape(-1, 1)
        try:
            return float(np.histogramdd(d, es)[0][ix])
        except (ValueError, IndexError) as e:
            raise CantEval(str(e))

    def op_uninit(self, t, env): return 7.5e5
    def op_scopy(self, t, env): return self.ev(t.args[0], env)
    def op_attr(self, t, env): return U(_h("attr", _key(self.ev(t.args[0], env)), t.args[1]), self)
    def op_rint(self, t, env): return np.rint(self.n(t.args[0], env))
    def op_roundn(self, t, env):
        # the result of rounding is another number: seen with few digits, as numbers are compared with a tolerance
        return np.round(self.n(t.args[0], env), min(self.i(t.args[1], env), 3))

    def op_io(self, t, env): return ("io", t.args[0]) + tuple(self.ev(x, env) for x in t.args[1])
    def op_delitem(self, t, env):
        x = list(self.ev(t.args[0], env))
        del x[self.i(t.args[1], env)]
        return x

    def op_insert(self, t, env):
        x = list(self.ev(t.args[0], env))
        x.insert(self.i(t.args[1], env), self.ev(t.args[2], env))
        return x

    def op_removed(self, t, env):
        x = list(self.ev(t.args[0], env))
        k = _key(self.ev(t.args[1], env))
        for i, y in enumerate(x):
            if _key(y) == k:
                del x[i]
                break
        return x

    def op_isnan(self, t, env):
        v = self.n(t.args[0], env)
        return bool(v != v) if np.ndim(v) == 0 else np.isnan(v)

    def op_is(self, t, env): return _key(self.ev(t.args[0], env)) == _key(self.ev(t.args[1], env))
    def op_zip(self, t, env): return list(zip(*[self.ev(x, env) for x in t.args[0]]))
    def op_strcat(self, t, env): return "".join(str(_key(self.ev(x, env))) for x in t.args[0])
    return {k: v for k, v in locals().items() if k.startswith("op_")}


class _Frozen:
    """loop state bound to a variable"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v, self.k = v, _h(_key(v))

    def __eq__(self, o):
        return isinstance(o, _Frozen) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


for _k, _f in _ops().items():
    setattr(Ctx, _k, _f)


def _uninterpreted(name):
    def f(self, t, env):
        vals = []
        for a in t.args:
            vals.append(self._any(a, env))
        return U(_h(name, *vals), self)
    return f


def _any(self, a, env):
    if isinstance(a, Term):
        return _key(self.ev(a, env))
    if isinstance(a, tuple):
        return tuple(self._any(x, env) for x in a)
    return a


Ctx._any = _any
for _n in ("init", "obj", "new", "Energy", "Force", "bcpos", "bcmom", "rng0", "adv", "lc", "static", "symobj",
           "cls", "fn", "ext", "mod_", "closure", "bound", "dens", "interp", "exc", "undef", "oob", "types", "loopst",
           "isinst", "convfail", "raises", "lenfail", "haskey", "opt", "numbered", "hasattr", "uf", "noattr", "entropy", "globalrv", "conv", "enumval", "fnof", "classattr", "view", "partial"):
    setattr(Ctx, "op_" + _n, _uninterpreted(_n))


def same(x, y, tol=1e-7):
    if isinstance(x, U) and isinstance(y, U):
        return x.h == y.h
    if isinstance(x, U):
        x = x.num()
    if isinstance(y, U):
        y = y.num()
    if isinstance(x, (str, type(None), dict, slice)) or isinstance(y, (str, type(None), dict, slice)):
        if isinstance(x, dict) and isinstance(y, dict):
            return x.keys() == y.keys() and all(same(x[k], y[k], tol) for k in x)
        return type(x) == type(y) and x == y
    if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
        if not isinstance(x, (list, tuple)) and np.ndim(x) == 0 or not isinstance(y, (list, tuple)) and np.ndim(y) == 0:
            return np.size(x) == 1 and np.size(y) == 1 and same(np.ravel(x)[0], np.ravel(y)[0], tol)
        if len(x) != len(y):
            return False
        return all(same(a, b, tol) for a, b in zip(x, y))
    try:
        fx, fy = float(x), float(y)
    except (TypeError, ValueError):
        return _key(x) == _key(y)
    if fx != fx and fy != fy:
        return True
    if fx == fy:
        return True
    if math.isinf(fx) or math.isinf(fy):
        return tol > 1e-7  # never the same, unless overflow may be the reason
    return abs(fx - fy) <= tol * max(1.0, abs(fx), abs(fy))


def refute(a, b, facts=None, tries=40, seed=1, cases=24, blind=False):
    """Search a witness that a != b.  -> (witness description | None, number of interpretations)"""
    facts = facts or T.NOFACTS
    n_int = 0
    try:
        diffs = [({}, [], a, b)] if blind else list(itertools.islice(T.differences(a, b, facts), cases))
    except T.Undecided:
        diffs = [({}, [], a, b)]
    last = None
    if not blind:
        # the differing cases may be too narrow to be met by chance: look everywhere as well
        diffs.append(({}, [], a, b))
    for nth, (asg, eqs, la, lb) in enumerate(diffs):
        for k in range(tries if asg or eqs or blind else 4 * tries):
            rnd = random.Random(f"{seed}:{k}")
            assign = dict(facts.sampler(rnd)) if facts.sampler else {}
            wide = k % 3 == 1 and k > 3
            if wide:
                for y, x in assign.items():
                    if isinstance(x, float):
                        assign[y] = x * magnitude(rnd)
            COARSE[0] = wide
            ctx = Ctx(f"{seed}.{k}", discrete=(k % 3 == 2), assign=assign, wide=wide)
            try:
                # equations of this case, last one first
                for s in reversed(eqs):
                    for y, x in s.items():
                        ctx.memo.clear()
                        ctx.assign[y] = ctx.ev(x)
                ctx.memo.clear()
                ok = True
                for at, br in asg.items():
                    if at.op == "sgn" or at.op in ("isinf", "bigany", "in"):
                        if ctx.branch(at, ()) != br:
                            ok = False
                            break
                    elif at.op == "eq":
                        if ctx.branch(at, ()) != br:
                            ok = False
                            break
                    elif any(x.op in ("opaque", "undef") for x in T.walk(at)):
                        last = "a condition is not understood"
                        ok = False
                        break
                    else:
                        # a condition nothing is known about may be chosen freely,
                        # one with a value has to have that value
                        v = ctx.ev(at.args[0] if at.op == "truthy" else at)
                        if isinstance(v, U):
                            ctx.assign[at] = br
                        elif (0 if ctx.truthval(v) else 1) != br:
                            ok = False
                            break
                if not ok:
                    continue
                ctx.memo.clear()
                for p, allowed in facts.signs:
                    x = ctx.n(p, ())
                    x = 0 if abs(x) < 1e-11 else (1 if x > 0 else -1)
                    if x not in allowed:
                        ok = False
                        break
                if not ok or not all(ctx.truthval(ctx.ev(c)) for c in facts.assumed):
                    continue
                va, vb = ctx.ev(a), ctx.ev(b)
                n_int += 1
            except CantEval as e:
                last = str(e)
                continue
            except (OverflowError, FloatingPointError, ValueError, TypeError, ZeroDivisionError) as e:
                last = repr(e)
                continue
            if not same(va, vb) and not (wide and same(va, vb, max(1e-4, 1e-9 * ctx.mag))):
                pt = {T.show(k): v for k, v in list(ctx.assign.items())[:8] if not isinstance(v, Term)}
                case = "; ".join(f"{T.show(at)}={'-0+'[br] if at.op == 'sgn' else br == 0}" for at, br in list(asg.items())[:6])
                return (f"at [{case}] {pt} computed {_short(va)} expected {_short(vb)}"), n_int
    return None, (n_int if n_int else -1 if last is None else last)


def _short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."
