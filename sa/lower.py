"""Value-graph construction: abstract evaluation of project functions over terms.

The evaluator walks the syntax tree once per function and call site.  Control flow is
never enumerated path by path: both arms of a branch are analysed and joined with gating
terms (``ite``), loops with unknown trip count are analysed for one generic iteration
and closed to sums, maps, folds, ... .  Mutable objects live in an abstract heap, so
aliasing and in-place changes are tracked.
"""
import ast
import builtins

from . import terms as T
from .terms import *
from .terms import _sel
from . import arrays as A
from .arrays import ew, to_array, is_array, rank

T.BINDERS["fold"] = 2
T.BINDERS["first"] = 1

UNDEF = mk("undef")
OPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor",
    ast.MatMult: "matmul", ast.LShift: "lshift", ast.RShift: "rshift",
}
DUNDER = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "truediv", "floordiv": "floordiv", "mod": "mod",
          "pow": "pow", "and_": "and", "or_": "or", "xor": "xor", "matmul": "matmul"}
EXC_BASES = {
    "KeyError": ["LookupError"], "IndexError": ["LookupError"], "LookupError": ["Exception"],
    "ValueError": ["Exception"], "TypeError": ["Exception"], "ZeroDivisionError": ["ArithmeticError"],
    "ArithmeticError": ["Exception"], "OverflowError": ["ArithmeticError"], "OSError": ["Exception"],
    "FileNotFoundError": ["OSError"], "FileExistsError": ["OSError"], "PermissionError": ["OSError"],
    "IsADirectoryError": ["OSError"], "IOError": ["OSError"],
    "AttributeError": ["Exception"], "NotImplementedError": ["RuntimeError"], "RuntimeError": ["Exception"],
    "StopIteration": ["Exception"], "AssertionError": ["Exception"], "UnicodeDecodeError": ["ValueError"],
    "Exception": ["BaseException"], "SystemExit": ["BaseException"], "KeyboardInterrupt": ["BaseException"],
    "Warning": ["Exception"], "NameError": ["Exception"], "RecursionError": ["RuntimeError"],
    "configparser.Error": ["Exception"], "configparser.ParsingError": ["configparser.Error"], "configparser.InterpolationError": ["configparser.Error"],
    "configparser.NoSectionError": ["configparser.Error"], "configparser.NoOptionError": ["configparser.Error"],
    "configparser.DuplicateSectionError": ["configparser.Error"], "configparser.DuplicateOptionError": ["configparser.Error"],
}


class Unsupported(Exception):
    pass


def opaque(reason, *args):
    return mk("opaque", reason, tuple(a for a in args if isinstance(a, Term)))


def is_ref(t):
    return t.op in ("new", "view", "rview", "scopy", "dcopy")


def refkind(t):
    if t.op == "new":
        return t.args[1]
    if t.op in ("view", "rview"):
        return "array"
    return None


class State:
    __slots__ = ("env", "heap", "conds")

    def __init__(self, env=None, heap=None, conds=None):
        self.env, self.heap, self.conds = env or {}, heap or {}, conds or [TRUE]

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.conds))

    @property
    def live(self):
        return self.conds[-1]

    @live.setter
    def live(self, v):
        self.conds[-1] = v

    def rel(self, depth):
        return land(*self.conds[depth:])


def unwritten(k):
    """content of a log or file nothing was written to yet"""
    return mk("foreign", k[1]) if k[0] == "$fs" else seq()


def merge(c, s1, s2):
    """state that is s1 where c holds and s2 elsewhere"""
    if c is TRUE or s2.live is FALSE:
        r = s1.copy()
        r.live = lor(s1.live, s2.live) if s2.live is not FALSE else s1.live
        return r
    if c is FALSE or s1.live is FALSE:
        return s2.copy()
    r = State({}, {}, list(s1.conds))
    r.live = lor(s1.live, s2.live)
    for d1, d2, d in ((s1.env, s2.env, r.env), (s1.heap, s2.heap, r.heap)):
        d.update(d2)
        if d is r.heap:
            for k in d2:
                if k not in d1 and isinstance(k[0], str) and k[0][:1] == "$":
                    d[k] = ite(c, unwritten(k), d2[k])
        for k, v in d1.items():
            w = d2.get(k)
            if w is None and d is r.heap and isinstance(k[0], str) and k[0][:1] == "$":
                w = unwritten(k)
            if w is None or w is UNDEF:
                d[k] = v
            elif v is w or v is UNDEF:
                d[k] = w
            else:
                d[k] = ite(c, v, w)
    return r


class Frame:
    _n = [0]

    def __init__(self, func, module, parent=None, cls=None, selfref=None, name="?"):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.func, self.module, self.parent, self.cls, self.selfref = func, module, parent, cls, selfref
        self.returns = []
        self.globals_ = set()
        self.nonlocals = set()
        self.depth = 0
        self.yields = None
        self.name = name
        self.locals_ = None


class Effect:
    def __init__(self, kind, data, cond, node, func, loops):
        self.kind, self.data, self.cond, self.node, self.func, self.loops = kind, data, cond, node, func, loops

    @property
    def where(self):
        f = self.func
        return f"{f.module.rel}:{getattr(self.node, 'lineno', 0)} ({f.qual})" if f else "?"

    def __repr__(self):
        return f"Effect({self.kind}, {self.data}, {self.where})"


class Exc:
    def __init__(self, cls, args, ref, state, node, func, frame):
        self.cls, self.args, self.ref, self.state, self.node, self.func = cls, args, ref, state, node, func
        self.frame = frame
        self.tainted = 0

    @property
    def where(self):
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', 0)} ({self.func.qual})" if self.func else "?"


HARMLESS = ("matplotlib", "logging", "warnings", "time", "sys", "os.path", "argparse", "datetime", "textwrap", "typing")


def harmless(data):
    """calls into libraries that do not change arguments of ours"""
    x = data[0]
    if isinstance(x, Term) and x.op == "ext":
        return x.args[0].startswith(HARMLESS)
    if isinstance(x, Term) and x.op == "extmeth":
        return any(y.op == "ext" and y.args[0].startswith(HARMLESS) for y in T.walk(x)) or any(
            y.op == "opaque" and str(y.args[0]).split(" ")[-1].startswith(HARMLESS) for y in T.walk(x))
    return False


class Ev:
    def __init__(self, project, overrides=None):
        from . import models
        self.p = project
        self.models = models
        self.s = State()
        self.static = {}          # heap of module level objects
        self.statics_done = {}
        self.overrides = overrides or {}
        self.rawsets = set()
        self.fieldsof = {}
        self.replaced = 0
        self.draw_order = None
        self.draw_ints = None
        self.enumerate_draws = False   # small discrete random draws as decisions
        self.effects = []
        self.notes = []
        self.raises = [[]]        # stack of lists of Exc
        self.handlers = []        # stack of lists of class names
        self.closures = {}
        self.uid = 0
        self.loopvars = []
        self.frames = []
        self.depth = 0
        self.node = None
        self.loops = []           # loop records
        self.breaks = []
        self.quiet = 0
        self.visited = set()      # qualified names of analysed functions
        self.visited_ids = set()
        self.tainted = 0
        self.claims = []
        self.signs = {}
        self.samplers = {}
        self.assumed = []
        self.probes = []

    # ------------------------------------------------------------ utilities
    @property
    def frame(self):
        return self.frames[-1]

    def taint(self):
        if self.s.live is not FALSE:
            self.tainted += 1

    def note(self, why):
        f = self.frames[-1].func if self.frames else None
        loc = f"{f.qual}:{getattr(self.node, 'lineno', 0)}" if f else "?"
        self.notes.append(f"{loc}: {why}")

    def opaque(self, reason, *args):
        self.note(reason)
        return opaque(reason, *args)

    def effect(self, kind, *data):
        if self.quiet:
            return
        if kind in ("unknown-write", "unknown-call") and not harmless(data):
            # what was written, or what the callee did to its arguments, is not known
            self.taint()
            self.note(f"{kind} " + " ".join(show(x)[:80] if isinstance(x, Term) else str(x) for x in data))
        f = None
        for fr in reversed(self.frames):
            if fr.func is not None:
                f = fr.func
                break
        self.effects.append(Effect(kind, data, self.s.rel(0), self.node, f, tuple(self.loopvars)))

    # ------------------------------------------------------------ heap
    def alloc(self, kind, content=None):
        self.uid += 1
        r = mk("new", f"{self.uid}", kind, *self.loopvars)
        if content is not None:
            if kind == "array" and content.op == "app":
                T.KIND.setdefault(content, "array")
            self.write(r, "", content)
        return r

    def hget(self, uid, field):
        v = self.s.heap.get((uid, field))
        if v is None:
            v = self.static.get((uid, field))
        return v

    def read(self, ref, field=""):
        """field of a heap object (None if it does not exist)"""
        if ref.op == "sel":
            rs = [self.read(x, field) for x in ref.args[1]]
            if all(r is None for r in rs):
                return None
            rs = [UNDEF if r is None else r for r in rs]
            return A.ite_any(ref.args[0], rs)
        if ref.op == "new":
            v = self.hget(ref.args[0], field)
            if v is None:
                return None
            for i in ref.args[2:]:
                v = index(v, i)
            return v
        if ref.op == "view":
            base = self.content(ref.args[0])
            return index(base, ref.args[1])
        if ref.op == "rview":
            return A.reshape(self.content(ref.args[0]), ref.args[1])
        if ref.op in ("dcopy", "scopy"):
            v = self.s.heap.get((ref, field))
            if v is not None:
                return v
            v = self.read(ref.args[0], field)
            if v is not None and ref.op == "dcopy" and field != "" and is_ref(v):
                return mk("dcopy", v, *ref.args[1:])
            return v
        if ref.op in ("index", "sym", "attr", "lc") and field:
            return mk("attr", ref, field)
        return None

    def write(self, ref, field, val):
        if ref.op == "sel":
            a = ref.args[0]
            n = 3 if a.op == "sgn" else 2
            for k, r in enumerate(ref.args[1]):
                old = self.read(r, field)
                brs = [old if old is not None else UNDEF] * n
                brs[k] = val
                if not is_ref(r) and r.op != "sel":
                    continue
                self.write(r, field, A.ite_any(a, brs))
            return
        if ref.op == "new":
            uid, idx = ref.args[0], ref.args[2:]
            if str(uid).startswith("static:"):
                self.effect("static-write", ref, field)
            old = self.hget(uid, field)
            if field == "" and val is not old:
                dt = self.hget(uid, "$dtype")
                if dt is not None and dt.op == "c":
                    val = self.models.convert(self, val, dt)
            self.s.heap[(uid, field)] = self._nstore(old, idx, val)
            return
        if ref.op == "view":
            base = ref.args[0]
            self.write(base, "", self.store(self.content(base), ref.args[1], val))
            return
        if ref.op == "rview":
            base = ref.args[0]
            self.write(base, "", A.reshape(val, A.shape_of(self.content(base))))
            return
        if ref.op in ("dcopy", "scopy"):
            self.s.heap[(ref, field)] = val
            return
        self.effect("unknown-write", ref, field)
        self.note(f"write through unresolved reference {show(ref)[:80]}")

    def _nstore(self, old, idx, val):
        if not idx:
            return val
        old = UNDEF if old is None else old
        inner = index(old, idx[0]) if old is not UNDEF else None
        return mk_store(old, idx[0], self._nstore(inner, idx[1:], val))

    def content(self, ref):
        v = self.read(ref, "")
        if v is None:
            return self.opaque("unknown content", ref)
        return v

    def box(self, v):
        """give array values an identity"""
        if v.op == "sel" and is_array(v):
            return self.alloc("array", v)
        if is_array(v) and not is_ref(v):
            return self.alloc("array", v)
        return v

    def lbox(self, v):
        return self.alloc("list", v)

    def isarr(self, t):
        """term denotes a numpy array (boxed or not)"""
        if t.op == "sel":
            return any(self.isarr(x) for x in t.args[1])
        return refkind(t) == "array" or (not is_ref(t) and is_array(t))

    def islist(self, t):
        if t.op == "sel":
            return all(self.islist(x) for x in t.args[1])
        return refkind(t) == "list" or t.op in ("seq", "lmap", "lfmap", "flatmap", "repeat")

    def val(self, t):
        """pure value of a term: contents of arrays and lists instead of references"""
        if t.op == "sel" and self._has_ref(t):
            outer = self._valmemo is None
            if outer:
                self._valmemo = {}
            try:
                r = self._valmemo.get(t)
                if r is None:
                    r = self._valmemo[t] = self._val(t)
                return r
            finally:
                if outer:
                    self._valmemo = None
        return self._val(t)

    _valmemo = None

    def _val(self, t):
        o = t.op
        if o in ("new", "view", "rview"):
            k = refkind(t)
            if k in ("array", "list", "dict", "set"):
                return self.val(self.content(t))
            return t
        if o == "dcopy":
            v = self.read(t, "")
            return self.val(v) if v is not None else t
        if o in ("num", "c", "sym", "bv", "enum", "cls", "fn", "closure", "bound", "ext"):
            return t
        if not self._has_ref(t):
            return t
        if o == "tuple":
            return tup(*[self.val(x) for x in t.args[0]])
        if o == "arr":
            return arr(*[self.val(x) for x in t.args[0]])
        if o == "seq":
            return seq(*[(k, self.val(x)) for k, x in t.args[0]])
        if o == "sel":
            return A.ite_any(t.args[0], [self.val(x) for x in t.args[1]])
        if o in ("lmap", "map"):
            n, (v,), (b,) = open_(t)
            return mapn(o, n, v, self.val(b))
        if o in ("lfmap", "fmap"):
            n, (v,), (g, b) = open_(t)
            return fmapn(o, n, v, g, self.val(b))
        if o == "flatmap":
            n, (v,), (b,) = open_(t)
            return bind("flatmap", n, v, self.val(b))
        if o == "dict":
            return mk("dict", tuple((k, self.val(x)) for k, x in t.args[0]))
        if o == "repeat":
            return mk("repeat", self.val(t.args[0]), t.args[1])
        if o == "shuffled":
            return mk("shuffled", self.val(t.args[0]), t.args[1])
        if o == "store":
            return mk_store(self.val(t.args[0]), t.args[1], self.val(t.args[2]))
        return t

    _refmemo = {}

    def _has_ref(self, t):
        r = self._refmemo.get(t)
        if r is None:
            r = any(x.op in ("new", "view", "rview", "dcopy") for x in walk(t))
            self._refmemo[t] = r
        return r

    def aval(self, t):
        """array value (np.asarray)"""
        return to_array(self.val(t))

    def store(self, base, i, v):
        """functional update used for subscript assignment on arrays and lists"""
        return self.models.array_store(self, base, i, v)

    # ------------------------------------------------------------ exceptions
    def handled(self, name):
        return any(self.subclass(name, h) for hs in self.handlers for h in hs)

    def subclass(self, name, base):
        if name == base:
            return True
        if base in ("BaseException",):
            return True
        c = self.p.cls(name) if "." in name else None
        if c is not None:
            for b in self.bases(c):
                if isinstance(b, str):
                    if self.subclass(b, base):
                        return True
                elif self.subclass(b.qual, base):
                    return True
            return False
        return any(self.subclass(b, base) for b in EXC_BASES.get(name, ["Exception"] if name not in ("Exception", "BaseException") else []))

    def raise_(self, cls, args=(), cond=TRUE, ref=None):
        """exception under cond; execution continues where cond does not hold"""
        cond = truth(cond)
        if cond is FALSE or self.s.live is FALSE:
            return
        snap = self.s.copy()
        snap.live = land(snap.live, cond)
        if snap.live is FALSE:
            return
        self.raises[-1].append(Exc(cls, args, ref, snap, self.node, self._curfunc(), self.frames[-1] if self.frames else None))
        self.raises[-1][-1].tainted = self.tainted
        self.s.live = land(self.s.live, lnot(cond))

    def _curfunc(self):
        for fr in reversed(self.frames):
            if fr.func is not None:
                return fr.func
        return None

    def implicit(self, cls, cond, *args):
        """exception of a library / builtin operation: only tracked when it can be caught"""
        if cond is FALSE:
            return
        if self.handled(cls) or cond is TRUE:
            self.raise_(cls, args, cond)

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frame
        if name in fr.globals_:
            return self.global_(fr.module, name)
        f = fr
        while f is not None:
            v = self.s.env.get((f.id, name))
            if v is not None:
                return v
            f = f.parent
        return self.global_(fr.module, name)

    def global_(self, module, name):
        r = self.p.find(module.name, name) if module else None
        if r is not None:
            return self.resolved(r, f"{module.name}.{name}")
        if hasattr(builtins, name):
            return mk("ext", f"builtins.{name}")
        if name == "__name__":
            return const(module.name)
        if name == "__file__":
            return const(module.path)
        return self.opaque(f"unknown name {name}")

    def resolved(self, r, key):
        if r[0] == "fn":
            return mk("fn", r[1].qual)
        if r[0] == "cls":
            return mk("cls", r[1].qual)
        if r[0] == "mod":
            return mk("mod_", r[1])
        if r[0] == "ext":
            return mk("ext", self.models.canon_name(r[1]))
        if r[0] == "val":
            return self.static_value(f"{r[2].name}.{key.rsplit('.', 1)[-1]}", r[1], r[2])
        return self.opaque("name")

    def static_value(self, key, expr, module, cls=None):
        if key in self.statics_done:
            return self.statics_done[key]
        self.statics_done[key] = opaque(f"cyclic global {key}")
        saved = (self.s, self.loopvars, self.raises, self.handlers, self.node, self.uid)
        self.s = State()
        self.loopvars, self.raises, self.handlers = [], [[]], []
        fr = Frame(None, module, None, None, name=key)
        if cls is not None:
            fr.cls = cls
            for n, e in list(cls.attrs.items()):
                if n != key.rsplit(".", 1)[-1]:
                    self.s.env.setdefault((fr.id, n), mk("classattr", cls.qual, n))
        self.frames.append(fr)
        self.quiet += 1
        try:
            v = self.expr(expr)
        except Unsupported as e:
            v = self.opaque(f"global {key}: {e}")
        finally:
            self.quiet -= 1
            self.frames.pop()
        heap = self.s.heap
        self.s, self.loopvars, self.raises, self.handlers, self.node, u = saved
        # rename allocations to static ids
        ren = {}
        for (uid, f), t in heap.items():
            if not str(uid).startswith("static:") and isinstance(uid, str):
                ren[uid] = f"static:{key}:{uid}"
        mp = {}
        for t in [v] + list(heap.values()):
            for x in walk(t):
                if x.op == "new" and x.args[0] in ren:
                    mp[x] = mk("new", ren[x.args[0]], *x.args[1:])
        for (uid, f), t in heap.items():
            self.static[(ren.get(uid, uid), f)] = subst(t, mp)
        v = subst(v, mp)
        self.statics_done[key] = v
        return v

    # ------------------------------------------------------------ classes
    def bases(self, c):
        """base classes: Class objects or external dotted names"""
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            q = None
            if isinstance(b, ast.Name):
                r = self.p.find(c.module.name, b.id)
                if r is None and c.outer and b.id in c.outer.classes:
                    q = c.outer.classes[b.id]
                elif r and r[0] == "cls":
                    q = r[1]
                elif r and r[0] == "ext":
                    q = r[1]
                else:
                    q = b.id
            elif isinstance(b, ast.Attribute):
                q = self._attr_cls(c.module, b)
            if q is not None:
                out.append(q)
        return out

    def _attr_cls(self, module, node):
        parts = ast.unparse(node).split(".")
        r = self.p.find(module.name, parts[0])
        for x in parts[1:]:
            if r is None:
                break
            if r[0] == "mod":
                r = self.p.find(r[1], x)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + x)
            elif r[0] == "cls":
                r = ("cls", r[1].classes[x]) if x in r[1].classes else None
        if r and r[0] == "cls":
            return r[1]
        if r and r[0] == "ext":
            return r[1]
        return ast.unparse(node)

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if not isinstance(b, str):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def extbases(self, c):
        out = []
        for k in self.mro(c):
            out += [b for b in self.bases(k) if isinstance(b, str)]
        return out

    def is_enum(self, c):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum") for b in self.extbases(c))

    def is_exc(self, c):
        return any(b in EXC_BASES or b in ("BaseException", "Exception") for b in self.extbases(c))

    def find_class(self, qual):
        mod, _, name = qual.rpartition(".")
        c = self.p.cls(qual)
        if c is None:
            o = self.find_class(mod) if mod and mod not in self.p.modules else None
            if o is not None:
                c = o.classes.get(name)
        return c

    def cls_of(self, ref):
        """Class of an instance reference or None"""
        k = refkind(ref)
        if k and k.startswith("cls:"):
            return self.find_class(k[4:])
        if ref.op in ("dcopy", "scopy"):
            return self.cls_of(ref.args[0])
        if ref.op == "sel":
            cs = {self.cls_of(x) for x in ref.args[1]}
            return cs.pop() if len(cs) == 1 else None
        if ref in self.models.CLASS_OF:
            return self.find_class(self.models.CLASS_OF[ref])
        return None

    def class_lookup(self, c, name, after=None):
        """(kind, Func|expr, class)"""
        m = self.mro(c)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if name in k.getters:
                return "getter", k.getters[name], k
            if name in k.methods:
                return "method", k.methods[name], k
            if name in k.classes:
                return "class", k.classes[name], k
            if name in k.attrs:
                return "attr", k.attrs[name], k
        return None

    def class_attr(self, c, name):
        r = self.class_lookup(c, name)
        if r is None:
            return None
        kind_, f, k = r
        if kind_ == "attr":
            if self.is_enum(c):
                return mk("enum", c.qual, name)
            return self.static_value(f"{k.qual}.{name}", f, k.module, k)
        if kind_ == "class":
            return mk("cls", f.qual)
        if "staticmethod" in f.decorators:
            return mk("fnof", f.qual, k.qual)
        if "classmethod" in f.decorators:
            return mk("bound", mk("cls", c.qual), f.qual, k.qual)
        return mk("fnof", f.qual, k.qual)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if o.op == "sel" and not self.isarr(o):
            return self.branch_term(o, lambda x: self.getattr(x, name))
        if o.op == "c" and o.args[0] in (None, True, False) and not hasattr(o.args[0], name):
            self.implicit("AttributeError", TRUE, const(f"{o.args[0]} has no {name}"))
            return UNDEF
        if o.op == "mod_":
            r = self.p.find(o.args[0], name)
            if r is not None:
                return self.resolved(r, f"{o.args[0]}.{name}")
            if f"{o.args[0]}.{name}" in self.p.modules:
                return mk("mod_", f"{o.args[0]}.{name}")
            return self.opaque(f"module attribute {o.args[0]}.{name}")
        if o.op == "ext":
            return self.models.ext_attr(self, o.args[0], name)
        if o.op == "cls":
            c = self.find_class(o.args[0])
            if c is not None:
                v = self.class_attr(c, name)
                if v is not None:
                    return v
                if name == "__name__":
                    return const(c.name)
                if name in ("__members__",):
                    pass
            return mk("ext", f"{o.args[0]}.{name}")
        if o.op == "enum":
            if name == "name":
                return const(o.args[1])
            if name == "value":
                c = self.find_class(o.args[0])
                e = c.attrs.get(o.args[1])
                if isinstance(e, ast.Constant):
                    return const(e.value)
                return mk("enumval", o)
            c = self.find_class(o.args[0])
            r = self.class_lookup(c, name) if c else None
            if r and r[0] == "method":
                return mk("bound", o, r[1].qual, r[2].qual)
            if r and r[0] == "getter":
                return self.call_func(r[1], [o], {}, r[2])
        if o.op == "super":
            c = self.find_class(o.args[0])
            r = self.class_lookup(self.cls_of(o.args[1]) if o.args[1].op != "cls" else self.find_class(o.args[1].args[0]), name, c)
            if r and r[0] == "method":
                return mk("bound", o.args[1], r[1].qual, r[2].qual)
            if r and r[0] == "getter":
                return self.call_func(r[1], [o.args[1]], {}, r[2])
            return mk("extmeth", "object", o.args[1], name)
        if o.op == "dcopy" or (o.op == "new" and str(o.args[1]).startswith("cls:")) or o in self.models.CLASS_OF or o.op == "scopy":
            c = self.cls_of(o)
            if c is not None:
                r = self.class_lookup(c, name)
                if r and r[0] == "getter":
                    return self.call_func(r[1], [o], {}, r[2])
                v = self.read(o, name)
                if v is not None and v.op != "attr":
                    return v
                if r:
                    if r[0] == "method":
                        f = r[1]
                        if "staticmethod" in f.decorators:
                            return mk("fnof", f.qual, r[2].qual)
                        if "classmethod" in f.decorators:
                            return mk("bound", mk("cls", c.qual), f.qual, r[2].qual)
                        return mk("bound", o, f.qual, r[2].qual)
                    return self.class_attr(c, name)
                if name == "__class__":
                    return mk("cls", c.qual)
                if name == "__dict__":
                    return self.models.fields(self, o)
                if v is not None:
                    return v
                if self.is_exc(c) and name == "args":
                    return tup()
                ga = self.class_lookup(c, "__getattr__")
                if ga:
                    return self.call_func(ga[1], [o, const(name)], {}, ga[2])
                self.implicit("AttributeError", TRUE, const(name))
                return mk("noattr", o, name)
        return self.models.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if o.op == "sel":
            c = self.cls_of(o)
            r = None
            if c is not None:
                for k in self.mro(c):
                    if name in k.setters:
                        r = (k.setters[name], k)
                        break
            if r is None:
                self.write(o, name, v)
                self.effect("setattr", o, name)
                return
        c = self.cls_of(o)
        if c is not None:
            for k in self.mro(c):
                if name in k.setters:
                    self.call_func(k.setters[name], [o, v], {}, k)
                    return
        if o.op == "cls":
            self.effect("static-write", o, name)
            self.statics_done[f"{o.args[0]}.{name}"] = v
            return
        if o.op == "mod_":
            self.effect("static-write", o, name)
            return
        if refkind(o) == "array" and name == "shape":
            self.write(o, "", A.reshape(self.content(o), self.val(v)))
            return
        if o.op == "index" or o.op == "attr":
            self.s.heap[(o, name)] = v
        self.write(o, name, v)
        self.effect("setattr", o, name)

    def branch_term(self, t, f):
        """evaluate f on every alternative of a decision term and join"""
        if t.op != "sel":
            return f(t)
        alts = []
        seen = set()

        def collect(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == "sel":
                for y in x.args[1]:
                    collect(y)
            elif x not in alts:
                alts.append(x)
        collect(t)
        if len(alts) == 1:
            return f(alts[0])
        s0 = self.s
        out = []
        for x in alts:
            c = T._apply1(t, lambda y, x=x: TRUE if y is x else FALSE)
            self.s = s0.copy()
            self.s.live = land(self.s.live, c)
            if self.s.live is FALSE:
                continue
            v = f(x)
            out.append((v, self.s, c))
        if not out:
            return UNDEF
        val, st, _ = out[-1]
        for v, s, c in reversed(out[:-1]):
            st = merge(c, s, st)
            if val is UNDEF or val is None:
                val = v
            elif v is not UNDEF and v is not None:
                val = ite(c, v, val)
        self.s = st
        return val

    _impure = True

    def fork(self, cond, then, other):
        """run two continuations under cond / not cond and join; returns joined value"""
        cond = truth(cond)
        if cond is TRUE:
            return then()
        if cond is FALSE:
            return other()
        s0 = self.s
        self.s = s0.copy()
        self.s.live = land(s0.live, cond)
        v1 = then() if self.s.live is not FALSE else UNDEF
        s1 = self.s
        self.s = s0.copy()
        self.s.live = land(s0.live, lnot(cond))
        v2 = other() if self.s.live is not FALSE else UNDEF
        s2 = self.s
        self.s = merge(cond, s1, s2)
        if v1 is None:
            return None
        if v1 is UNDEF or s1.live is FALSE:
            return v2
        if v2 is UNDEF or s2.live is FALSE:
            return v1
        return ite(cond, v1, v2)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, node=None):
        kw = dict(kw or {})
        o = f.op
        if o == "sel":
            return self.branch_term(f, lambda x: self.call(x, args, kw, node))
        if o in ("fn", "fnof"):
            fu = self.func_by_qual(f.args[0])
            if fu is None:
                return self.opaque(f"function {f.args[0]}")
            cls = self.find_class(f.args[1]) if o == "fnof" else None
            return self.call_func(fu, args, kw, cls)
        if o == "bound":
            fu = self.func_by_qual(f.args[1])
            return self.call_func(fu, [f.args[0]] + list(args), kw, self.find_class(f.args[2]))
        if o == "closure":
            return self.call_closure(f, args, kw)
        if o == "partial":
            fn, a0, k0 = f.args
            k = dict(k0)
            k.update(kw)
            return self.call(fn, list(a0) + list(args), k, node)
        if o == "cls":
            return self.instantiate(f.args[0], args, kw)
        if o == "classattr":
            c = self.find_class(f.args[0])
            return self.call(self.class_attr(c, f.args[1]), args, kw, node)
        if o == "ext":
            return self.models.call_ext(self, f.args[0], list(args), kw, node)
        if o == "extmeth":
            return self.models.call_method(self, f.args[0], f.args[1], f.args[2], list(args), kw, node)
        c = self.cls_of(f) if is_ref(f) else None
        if c is not None:
            r = self.class_lookup(c, "__call__")
            if r:
                return self.call_func(r[1], [f] + list(args), kw, r[2])
        if o in ("num", "c", "tuple", "poly", "arr", "seq", "fstr") or o == "new" and f.args[1] in ("list", "dict", "array", "set"):
            self.implicit("TypeError", TRUE, const("not callable"))
            return UNDEF
        self.effect("unknown-call", f)
        return self.opaque(f"call of {show(f)[:60]}", *args)

    def func_by_qual(self, qual):
        f = self.p.func(qual)
        if f is not None:
            return f
        cq, _, name = qual.rpartition(".")
        c = self.find_class(cq)
        if c is None:
            return None
        return c.methods.get(name) or c.getters.get(name) or c.setters.get(name)

    trace = None    # names of action methods whose calls are recorded instead of analysed

    def traced(self, fu, args, kw):
        c = self.cls_of(args[0]) if args and is_ref(args[0]) else None
        if c is None or not any(k.qual.endswith(".Action") for k in self.mro(c)):
            return False
        rest = list(args[1:]) + [v for _, v in sorted(kw.items())]
        log_ = self.s.heap.get(("$calls", ""), seq())
        self.s.heap[("$calls", "")] = seq(("s", log_), ("e", tup(const(c.qual.split(".")[-1]), const(fu.node.name), args[0], *rest)))
        return True

    def call_func(self, fu, args, kw, cls=None):
        if self.trace and fu.node.name in self.trace and self.traced(fu, args, kw):
            return NONE
        ov = self.overrides.get(fu.qual)
        if ov is None and cls is not None and args and is_ref(args[0]):
            ov = self.overrides.get("*." + fu.node.name) if self._abstract(args[0]) else None
        if ov is not None:
            r = ov(self, list(args), kw)
            if r is not NotImplemented:
                return r
        bad = [d for d in fu.decorators if not any(d == x or d.endswith(x) for x in (
            "staticmethod", "classmethod", "property", ".setter", "abstractmethod", "override", "typing.no_type_check"))
            and not d.startswith(("functools.lru_cache", "lru_cache", "functools.cache", "functools.wraps", "overload"))]
        if bad:
            r = self.decorated(fu, bad, args, kw, cls)
            if r is not None:
                return r
        self.visited.add(fu.qual)
        return self.run_function(fu.node, fu, fu.module, None, cls, args, kw, fu.qual)

    def decorated(self, fu, bad, args, kw, cls):
        if any("contextmanager" in d for d in bad):
            return None
        # apply project decorators from the innermost outwards
        f = mk("closure", self._mkclosure(fu.node, None, fu.module, cls, fu))
        for d in reversed(fu.node.decorator_list):
            fr = Frame(None, fu.module, None, cls, name="decorator")
            self.frames.append(fr)
            dv = self.expr(d)
            self.frames.pop()
            if dv.op == "ext":
                if dv.args[0].endswith(("lru_cache", "cache", "njit", "jit", "vectorize")):
                    continue
                return self.opaque(f"decorator {dv.args[0]}", *args)
            f = self.call(dv, [f], {})
        return self.call(f, args, kw)

    def _abstract(self, ref):
        return ref in self.models.ABSTRACT

    def call_closure(self, f, args, kw):
        node, frame, module, cls, fu = self.closures[f.args[0]]
        return self.run_function(node, fu, module, frame, cls, args, kw, getattr(node, "name", "<lambda>"), closure=f)

    def _mkclosure(self, node, frame, module, cls, fu):
        i = len(self.closures) + 1
        self.closures[i] = (node, frame, module, cls, fu)
        return i

    def run_function(self, node, fu, module, parent, cls, args, kw, name, closure=None):
        if self.depth > 45:
            return self.opaque(f"recursion in {name}", *args)
        fr = Frame(fu if fu is not None else (parent.func if parent else None), module, parent, cls, name=name)
        if parent is not None and cls is None:
            fr.cls = parent.cls
        is_lambda = isinstance(node, ast.Lambda)
        self.depth += 1
        self.frames.append(fr)
        saved_node = self.node
        self.s.conds.append(TRUE)
        fr.depth = len(self.s.conds)
        try:
            self.bind_args(fr, node.args, args, kw, closure)
            if args and cls is not None:
                fr.selfref = args[0]
            if is_lambda:
                v = self.expr(node.body)
                out = [(self.s.live, v, self.s)]
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(node)):
                    fr.yields = self.alloc("list", seq())
                fr.locals_ = _assigned(node)
                self.block(node.body)
                if self.s.live is not FALSE:
                    fr.returns.append((self.s.live, fr.yields if fr.yields is not None else NONE, self.s))
                out = fr.returns
                if fr.yields is not None:
                    out = [(c, fr.yields, s) for c, v, s in out]
        finally:
            self.frames.pop()
            self.depth -= 1
            self.node = saved_node
        if not out:
            # every path raises
            self.s.conds.pop()
            self.s.live = FALSE
            return UNDEF
        c, v, s = out[-1]
        for c1, v1, s1 in reversed(out[:-1]):
            s = merge(c1, s1, s)
            v = v1 if v is v1 else ite(c1, v1, v)
        self.s = s.copy()
        live = self.s.conds.pop()
        self.s.live = land(self.s.live, live)
        return v

    def bind_args(self, fr, a, args, kw, closure=None):
        names = [x.arg for x in a.posonlyargs + a.args]
        env = self.s.env
        args = list(args)
        kw = dict(kw)
        dmap = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        vals = {}
        for n in names:
            if args:
                vals[n] = args.pop(0)
            elif n in kw:
                vals[n] = kw.pop(n)
            elif n in dmap:
                vals[n] = self.default(fr, dmap[n], n)
            else:
                vals[n] = UNDEF
                self.implicit("TypeError", TRUE, const(f"missing argument {n}"))
        if a.vararg:
            vals[a.vararg.arg] = tup(*args)
        elif args:
            self.implicit("TypeError", TRUE, const("too many arguments"))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vals[x.arg] = self.default(fr, d, x.arg)
            else:
                vals[x.arg] = UNDEF
                self.implicit("TypeError", TRUE, const(f"missing argument {x.arg}"))
        if kw and not a.kwarg:
            self.implicit("TypeError", TRUE, const("unexpected argument " + ", ".join(kw)))
        if a.kwarg:
            vals[a.kwarg.arg] = self.alloc("dict", mk("dict", tuple((const(k), v) for k, v in kw.items())))
        for n, v in vals.items():
            env[(fr.id, n)] = v

    def default(self, fr, node, name):
        if isinstance(node, ast.Constant):
            return const(node.value)
        # evaluated once at definition: an object shared by all calls
        key = f"default:{fr.name}:{name}:{id(node)}"
        return self.static_value(key, node, fr.module)

    def instantiate(self, qual, args, kw):
        c = self.find_class(qual)
        ov = self.overrides.get(qual)
        if ov is not None:
            r = ov(self, list(args), kw)
            if r is not NotImplemented:
                return r
        if c is None:
            return self.models.call_ext(self, qual, list(args), kw, None)
        if self.is_enum(c):
            v = self.val(args[0])
            for n, e in c.attrs.items():
                if isinstance(e, ast.Constant) and const(e.value) is v:
                    return mk("enum", c.qual, n)
            return self.opaque("enum lookup", v)
        ext = [b.split(".")[-1] for b in self.extbases(c)]
        if "NamedTuple" in ext:
            vals = list(args)
            for n, d in c.fields[len(vals):]:
                vals.append(kw[n] if n in kw else self.static_value(f"{c.qual}.{n}", d, c.module, c) if d is not None else UNDEF)
            r = self.alloc("cls:" + c.qual)
            for (n, _), v in zip(c.fields, vals):
                self.write(r, n, v)
            self.write(r, "$tuple", tup(*vals))
            return r
        r = self.alloc("cls:" + c.qual)
        self.s.heap.setdefault((r.args[0], "$cls"), const(c.qual))
        init = self.class_lookup(c, "__init__")
        if init:
            self.call_func(init[1], [r] + list(args), kw, init[2])
        elif any("dataclass" in d for k in self.mro(c) for d in k.decorators):
            fields = []
            for k in reversed(self.mro(c)):
                for n, d in k.fields:
                    fields = [x for x in fields if x[0] != n] + [(n, d, k)]
            a = list(args)
            for n, d, k in fields:
                if a:
                    v = a.pop(0)
                elif n in kw:
                    v = kw[n]
                elif d is not None:
                    v = self.dc_default(d, k, n)
                else:
                    v = UNDEF
                self.write(r, n, v)
            pi = self.class_lookup(c, "__post_init__")
            if pi:
                self.call_func(pi[1], [r], {}, pi[2])
        elif self.is_exc(c):
            self.write(r, "args", tup(*args))
        return r

    def dc_default(self, d, k, n):
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            for w in d.keywords:
                if w.arg == "default":
                    return self.static_value(f"{k.qual}.{n}", w.value, k.module, k)
                if w.arg == "default_factory":
                    fr = Frame(None, k.module)
                    self.frames.append(fr)
                    f = self.expr(w.value)
                    self.frames.pop()
                    return self.call(f, [], {})
        return self.static_value(f"{k.qual}.{n}", d, k.module, k)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.s.live is FALSE:
                return
            self.node = st
            m = getattr(self, "st_" + type(st).__name__, None)
            if m is None:
                self.note(f"statement {type(st).__name__}")
                self.havoc(st)
                continue
            m(st)

    def havoc(self, node):
        for n in _assigned_in(node):
            self.s.env[(self.frame.id, n)] = self.opaque(f"value after unsupported statement: {n}")
        self.effect("unsupported", type(node).__name__)

    def st_Pass(self, st): pass
    def st_Import(self, st):
        for a in st.names:
            if a.asname:
                self.s.env[(self.frame.id, a.asname)] = self.modref(a.name)
            else:
                self.s.env[(self.frame.id, a.name.split(".")[0])] = self.modref(a.name.split(".")[0])

    def modref(self, name):
        return mk("mod_", name) if name in self.p.modules else mk("ext", self.models.canon_name(name))

    def st_ImportFrom(self, st):
        src = self.frame.module.absolute(st)
        for a in st.names:
            if src in self.p.modules:
                r = self.p.find(src, a.name)
                v = self.resolved(r, f"{src}.{a.name}") if r else (
                    mk("mod_", f"{src}.{a.name}") if f"{src}.{a.name}" in self.p.modules else mk("ext", f"{src}.{a.name}"))
            else:
                v = mk("ext", self.models.canon_name(f"{src}.{a.name}"))
            self.s.env[(self.frame.id, a.asname or a.name)] = v

    def st_Global(self, st):
        self.frame.globals_ |= set(st.names)

    def st_Nonlocal(self, st):
        self.frame.nonlocals |= set(st.names)

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value)

    def st_Assert(self, st):
        c = truth(self.val(self.expr(st.test)))
        self.implicit("AssertionError", lnot(c))
        if not self.handled("AssertionError"):
            self.raise_("AssertionError", (), lnot(c))

    def st_FunctionDef(self, st):
        i = self._mkclosure(st, self.frame, self.frame.module, None, self.frame.func)
        f = mk("closure", i)
        for d in reversed(st.decorator_list):
            dv = self.expr(d)
            if dv.op == "ext" and dv.args[0].endswith(("wraps", "lru_cache", "cache")):
                continue
            if dv.op == "extmeth" or dv.op == "partial" or (dv.op == "opaque"):
                continue
            f = self.call(dv, [f], {})
        self.s.env[(self.frame.id, st.name)] = f

    def st_ClassDef(self, st):
        self.havoc(st)

    def st_Return(self, st):
        v = self.expr(st.value) if st.value is not None else NONE
        self.do_return(v)

    def do_return(self, v):
        fr = self.frame
        if self.s.live is FALSE:
            return
        if fr.depth == len(self.s.conds):
            fr.returns.append((self.s.live, v, self.s.copy()))
            self.s.live = FALSE
        else:
            # inside a loop / try region: handled by the region
            self.breaks[-1].append(("return", v, self.s.copy()))
            self.s.live = FALSE

    def st_Raise(self, st):
        if st.exc is None:
            cur = getattr(self.frame, "handling", None)
            if cur:
                self.raise_(cur.cls, cur.args, ref=cur.ref)
            else:
                self.raise_("Exception")
            return
        e = self.expr(st.exc)
        if st.cause is not None:
            self.expr(st.cause)
        self.raise_value(e)

    def raise_value(self, e):
        if e.op == "sel":
            self.branch_term(e, lambda x: (self.raise_value(x), UNDEF)[1])
            return
        if e.op == "exc":
            self.raise_(e.args[0], e.args[1], ref=e)
        elif e.op == "ext":
            self.raise_(e.args[0].split(".")[-1])
        elif e.op == "cls":
            self.raise_(e.args[0])
        elif is_ref(e) and self.cls_of(e) is not None:
            a = self.read(e, "args")
            self.raise_(self.cls_of(e).qual, (a,) if a is not None else (), ref=e)
        else:
            self.raise_("Exception")

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                i = self.subscript(t.slice)
                self.models.delete(self, o, i)
            elif isinstance(t, ast.Name):
                self.s.env.pop((self.frame.id, t.id), None)

    def st_If(self, st):
        c = truth(self.cond(st.test))
        if c is TRUE:
            self.block(st.body)
            return
        if c is FALSE:
            self.block(st.orelse)
            return
        s0 = self.s
        s1 = s0.copy()
        s1.live = land(s0.live, c)
        s2 = s0.copy()
        s2.live = land(s0.live, lnot(c))
        self.s = s1
        self.block(st.body)
        s1 = self.s
        self.s = s2
        self.block(st.orelse)
        s2 = self.s
        self.s = merge(c, s1, s2)

    def cond(self, node):
        v = self.expr(node)
        return self.truthof(v)

    def truthof(self, v):
        if v.op == "sel" and not is_bool(v):
            return A.ite_any(v.args[0], [self.truthof(x) for x in v.args[1]])
        k = refkind(v)
        if k in ("list", "dict", "set"):
            c = self.content(v)
            if c.op == "sel":
                return self.truthof_content(c)
            return self.truthof_content(c)
        if k == "array":
            c = self.content(v)
            if rank(c) == 0:
                return truth(c)
            e = elements(c)
            if e is not None and len(e) == 1 and rank(c) == 1:
                return truth(e[0])
            return batom(mk("truthy", c))
        if k and k.startswith("cls:"):
            cl = self.find_class(k[4:])
            for m in ("__bool__", "__len__"):
                r = self.class_lookup(cl, m) if cl else None
                if r:
                    return truth(self.call_func(r[1], [v], {}, r[2]))
            return TRUE
        if is_ref(v) or v.op in ("closure", "bound", "fnof"):
            return TRUE
        return truth(v)

    def truthof_content(self, c):
        if c.op == "sel":
            return A.ite_any(c.args[0], [self.truthof_content(x) for x in c.args[1]])
        if c.op == "dict":
            return const(len(c.args[0]) > 0)
        if c.op == "seq" and any(k == "e" for k, _ in c.args[0]):
            return TRUE
        return lnot(eq(length(c), ZERO))

    def st_Assign(self, st):
        v = self.expr(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value))

    def st_AugAssign(self, st):
        op = OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            v = self.lookup(t.id)
            self.assign(t, self.augment(op, v, self.expr(st.value)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            v = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augment(op, v, self.expr(st.value)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            i = self.subscript(t.slice)
            v = self.getitem(o, i)
            w = self.expr(st.value)
            if is_ref(v) and refkind(v) == "array" and v.op == "view":
                r = self.val(self.binop(op, self.val(v), w))
                self.write(v, "", _likeshape(r, self.content(v)))
            else:
                self.setitem(o, i, self.augment(op, v, w))

    def augment(self, op, v, w):
        if v.op == "sel" and any(is_ref(x) for x in v.args[1]):
            return self.branch_term(v, lambda x: self.augment(op, x, w))
        k = refkind(v)
        if k == "array":
            c = self.content(v)
            r = self.val(self.binop(op, v, w))
            if is_ref(r):
                r = self.content(r)
            self.write(v, "", _likeshape(r, c))
            self.effect("inplace", v)
            return v
        if k == "list" and op == "add":
            self.models.list_extend(self, v, w)
            return v
        c = self.cls_of(v) if is_ref(v) else None
        if c is not None:
            r = self.class_lookup(c, f"__i{DUNDER.get(op, op)}__")
            if r:
                return self.call_func(r[1], [v, w], {}, r[2])
        return self.binop(op, v, w)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frame
            if t.id in fr.globals_:
                self.effect("static-write", const(fr.module.name), t.id)
                self.statics_done[f"{fr.module.name}.{t.id}"] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if (f.id, t.id) in self.s.env:
                        self.s.env[(f.id, t.id)] = v
                        return
                    f = f.parent
            self.s.env[(fr.id, t.id)] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            self.float_index(o, t.slice)
            self.setitem(o, self.subscript(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            xs = self.unpack(v, n, bool(star))
            if star:
                k = star[0]
                m = len(xs) - (n - 1)
                xs = xs[:k] + [self.lbox(lst(*xs[k:k + m]))] + xs[k + m:]
            for e, x in zip(t.elts, xs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        else:
            self.note("assignment target")

    def unpack(self, v, n, star=False):
        if v.op == "sel":
            cols = [self.unpack(x, n, star) for x in v.args[1]]
            return [A.ite_any(v.args[0], [c[k] for c in cols]) for k in range(len(cols[0]))]
        c = v
        if is_ref(v):
            if refkind(v) and refkind(v).startswith("cls:"):
                t = self.read(v, "$tuple")
                if t is not None:
                    return elements(t)
            c = self.content(v)
        c = A.expand(c)
        e = elements(c)
        if e is not None:
            if len(e) == n or star:
                if refkind(v) == "array":
                    return [self.box(x) for x in e]
                return e
            self.implicit("ValueError", TRUE)
            return [UNDEF] * n
        if v is NONE:
            self.implicit("TypeError", TRUE)
            return [UNDEF] * n
        if c.op == "sel":
            return self.unpack(c, n, star)
        return [self.elem(c, num(k)) for k in range(n)]

    def elem(self, c, i):
        return index(c, i)

    def st_With(self, st):
        exits = []
        for it in st.items:
            cm = self.expr(it.context_expr)
            v = self.models.enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            exits.append(cm)
        self.block(st.body)
        for cm in reversed(exits):
            self.models.exit(self, cm)

    def st_Try(self, st):
        names = []
        for h in st.handlers:
            names.append(self.handler_names(h))
        s0 = self.s
        base_depth = len(self.s.conds)
        self.s.conds.append(TRUE)
        self.raises.append([])
        self.breaks.append([])
        self.handlers.append([n for ns in names for n in ns])
        self.block(st.body)
        self.handlers.pop()
        brk = self.breaks.pop()
        outs = self.raises.pop()
        if self.s.live is not FALSE and st.orelse:
            self.block(st.orelse)
        ends = [(self.s.rel(base_depth), self._popto(self.s, base_depth + 1))]
        for x in outs:
            done = FALSE
            for h, ns in zip(st.handlers, names):
                if any(self.subclass(x.cls, n) for n in ns) or x.cls == "?":
                    self.s = self._popto(x.state, base_depth + 1)
                    rel = self.s.live
                    if h.name:
                        self.s.env[(self.frame.id, h.name)] = x.ref if x.ref is not None else mk("exc", x.cls, tuple(
                            a for a in x.args if isinstance(a, Term)))
                    old = getattr(self.frame, "handling", None)
                    self.frame.handling = x
                    self.breaks.append([])
                    self.block(h.body)
                    brk += self.breaks.pop()
                    self.frame.handling = old
                    ends.append((rel, self.s))
                    done = TRUE
                    break
            if done is FALSE:
                x.state = self._pop1(x.state, base_depth)
                self.raises[-1].append(x)
        # join normal end and handlers
        c, s = ends[0]
        for c1, s1 in ends[1:]:
            s = merge(c1, s1, s)
        self.s = s
        self.s.conds = list(s.conds)
        live = self.s.conds.pop()
        self.s.live = land(self.s.live, live)
        if st.finalbody:
            self.block(st.finalbody)
        for kind_, v, bs in brk:
            bs = self._popto(bs, base_depth + 1)
            l = bs.conds.pop()
            bs.live = land(bs.live, l)
            cur = self.s
            self.s = bs
            if st.finalbody:
                self.block(st.finalbody)
            if kind_ == "return":
                self.do_return(v)
            else:
                self.breaks[-1].append((kind_, v, self.s))
            self.s = cur

    st_TryStar = st_Try

    def _popto(self, s, depth):
        """fold inner region conditions into the region at the given depth"""
        s = s.copy()
        while len(s.conds) > depth:
            l = s.conds.pop()
            s.live = land(s.live, l)
        return s

    def _pop1(self, s, depth):
        return self._popto(s, depth)

    def handler_names(self, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.expr(t)
            for x in ([v] if v.op != "tuple" else v.args[0]):
                if x.op == "cls":
                    out.append(x.args[0])
                elif x.op == "ext":
                    out.append(x.args[0].replace("builtins.", ""))
                else:
                    out.append("Exception")
        return out

    # ------------------------------------------------------------ loops
    def st_For(self, st):
        it = self.expr(st.iter)
        tgt = st.target
        self.loop(it, lambda x: self.assign(tgt, x), st.body, st.orelse)

    def loop(self, it, bindfn, body, orelse=(), runbody=None):
        run = runbody or (lambda: self.block(body))
        if it.op == "sel" and not is_bool(it):
            self.branch_term(it, lambda x: (self.loop(x, bindfn, body, orelse, runbody), UNDEF)[1])
            return
        its = self.models.iterate(self, it)
        if its is None and (it is NONE or is_num(it) or it in (TRUE, FALSE) or it.op in ("poly", "exp", "log", "bigsum") and kind(it) == "scalar"
                            and A.rank(it) == 0):
            self.implicit("TypeError", TRUE, const("iteration over a number"))
            return
        if its is None:
            self.note("iteration over " + show(it)[:60])
            self.taint()
            self.effect("unsupported", "loop")
            for n in sorted(set().union(*[_assigned_in(b) for b in body])) if body else []:
                self.s.env[(self.frame.id, n)] = opaque("loop over unknown", it)
            return
        if isinstance(its, tuple) and its[0] == "branch":
            self.branch_term(its[1], lambda x: (self.loop(x, bindfn, body, orelse, runbody), UNDEF)[1])
            return
        broke = FALSE
        for piece in its:
            if self.s.live is FALSE:
                break
            if piece[0] == "conc":
                b = self.conc_loop(piece[1], bindfn, run)
            else:
                b = self.sym_loop(piece[1], piece[2], bindfn, run, piece[3] if len(piece) > 3 else TRUE)
            broke = lor(broke, b)
            if broke is not FALSE and len(its) > 1:
                self.note("break in composite loop")
        if orelse:
            if broke is FALSE:
                self.block(orelse)
            else:
                s0 = self.s
                s1 = s0.copy()
                s1.live = land(s0.live, lnot(broke))
                self.s = s1
                self.block(orelse)
                self.s = merge(lnot(broke), self.s, s0)

    def conc_loop(self, elems, bindfn, run):
        """elems: list of thunks giving the element values"""
        base = len(self.s.conds)
        broke = FALSE
        exits = []
        for th in elems:
            if self.s.live is FALSE:
                break
            entry_live = self.s.live
            self.s.conds.append(TRUE)
            self.breaks.append([])
            bindfn(th())
            run()
            brk = self.breaks.pop()
            s = self._popto(self.s, base)
            conts = [b for b in brk if b[0] == "continue"]
            for _, _, bs in conts:
                bs = self._popto(bs, base)
                s = merge(bs.live, bs, s)
            self.s = s
            for b in brk:
                if b[0] != "continue":
                    exits.append((b[0], b[1], self._popto(b[2], base)))
        # breaks rejoin after the loop
        for k, v, bs in exits:
            if k == "break":
                broke = lor(broke, bs.live)
                self.s = merge(bs.live, bs, self.s)
        for k, v, bs in exits:
            if k == "return":
                cur = self.s
                self.s = bs
                self.do_return(v)
                self.s = cur
        return broke

    def st_Break(self, st):
        if self.s.live is not FALSE:
            self.breaks[-1].append(("break", None, self.s.copy()))
            self.s.live = FALSE

    def st_Continue(self, st):
        if self.s.live is not FALSE:
            self.breaks[-1].append(("continue", None, self.s.copy()))
            self.s.live = FALSE

    def st_While(self, st):
        c0 = None
        r = self.while_as_range(st)
        if r is not None:
            return
        for k in range(200):
            if self.s.live is FALSE:
                return
            c = truth(self.cond(st.test))
            if c is FALSE:
                self.block(st.orelse)
                return
            if c is not TRUE:
                break
            base = len(self.s.conds)
            self.s.conds.append(TRUE)
            self.breaks.append([])
            self.block(st.body)
            brk = self.breaks.pop()
            s = self._popto(self.s, base)
            if any(b[0] == "break" for b in brk) and s.live is not FALSE:
                # a conditional break: unknown number of iterations
                self.s = s
                break
            if not brk and k > 100:
                self.s = s
                break
            for kind_, v, bs in brk:
                bs = self._popto(bs, base)
                if kind_ == "continue":
                    s = merge(bs.live, bs, s)
            for kind_, v, bs in brk:
                bs = self._popto(bs, base)
                if kind_ == "return":
                    self.s = bs
                    self.do_return(v)
            done = [b for b in brk if b[0] == "break"]
            if done:
                s = self._popto(done[-1][2], base)
                for b in done[:-1]:
                    x = self._popto(b[2], base)
                    s = merge(x.live, x, s)
                self.s = s
                return
            self.s = s
        self.note("while loop")
        self.taint()
        self.effect("unsupported", "while")
        for n in _assigned_in(st):
            self.s.env[(self.frame.id, n)] = opaque("while loop", const(n))

    def while_as_range(self, st):
        """while i < n: ...; i += 1   ->   for i in range(i, n)"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE))
                and isinstance(t.left, ast.Name) and not st.orelse):
            return None
        v = t.left.id
        if not st.body:
            return None
        last = st.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for b in st.body[:-1]:
            if v in _assigned_in(b) or any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(b)):
                return None
        lo = self.lookup(v)
        hi = self.val(self.expr(t.comparators[0]))
        if isinstance(t.ops[0], ast.LtE):
            hi = add(hi, ONE)
        assigned = set().union(*[_assigned_in(b) for b in st.body])
        if any(isinstance(x, ast.Name) and x.id in assigned for x in ast.walk(t.comparators[0])):
            return None
        r = self.models.mkrange(lo, hi, ONE)
        fid = self.frame.id
        self.loop(r, lambda x: self.s.env.__setitem__((fid, v), x), st.body[:-1])
        self.s.env[(fid, v)] = ite(lt(lo, hi), hi, lo)
        return True

    # generic iteration ------------------------------------------------
    def sym_loop(self, n, elemf, bindfn, run, guard=TRUE):
        """loop with symbolic trip count n; elemf(v) -> element term (evaluated in the current state)"""
        n = lift(n)
        v = fresh()
        self.loop_id = getattr(self, "loop_id", 0) + 1
        lid = self.loop_id
        s0 = self.s
        carried = []          # keys ('e', envkey) / ('h', heapkey)
        lcs = {}
        pess = set()          # families that are not updated cell by cell
        for it in range(16):
            self.s = s0.copy()
            for key in carried:
                d = self.s.env if key[0] == "e" else self.s.heap
                d[key[1]] = lcs[key]
            ne, nn, nr = len(self.effects), len(self.notes), len(self.raises[-1])
            nl = len(self.loops)
            self.quiet += 0
            self.s.conds.append(TRUE)
            base = len(s0.conds)
            self.loopvars.append(v)
            self.breaks.append([])
            entry = self.s.copy()
            if guard is not TRUE:
                g = guard(v)
                self.s.live = land(self.s.live, g)
            bindfn(elemf(v))
            run()
            self.loopvars.pop()
            brk = self.breaks.pop()
            end = self.s
            for k, _, bs in brk:
                if k == "continue":
                    end = merge(bs.rel(base), self._popto(bs, base + 1), self._popto(end, base + 1))
            if guard is not TRUE:
                if end.live is FALSE:
                    end = entry
                else:
                    end = merge(g, self._popto(end, base + 1), self._popto(entry, base + 1))
            exits = [b for b in brk if b[0] != "continue"]
            raised = self.raises[-1][nr:]
            hard = [b for b in exits if b[0] == "break" or (b[0] == "return" and self._varying(b[1], v, lcs))]
            flag = ("e", ("$exit", lid))
            if hard:
                # guard the iteration by a 'left the loop' flag carried around
                if flag not in carried:
                    s0.env[flag[1]] = FALSE
                    s0.env[("$ret", lid)] = NONE
                    carried.append(flag)
                    lcs[flag] = batom(mk("lc", lid, len(carried)))
                    self._undo(ne, nn, nr, nl)
                    continue
                fl = lcs[flag]
                stop = FALSE
                st = self._popto(end, base + 1)
                for k, val_, bs in exits:
                    bs = self._popto(bs, base + 1)
                    stop = lor(stop, bs.live)
                    bs.env[flag[1]] = TRUE
                    if k == "return":
                        bs.env[("$ret", lid)] = tup(TRUE, val_)
                    st = merge(bs.live, bs, st)
                st.env[flag[1]] = ite(stop, TRUE, FALSE)
                st = merge(lnot(fl), st, entry)
                end = st
                end.env[flag[1]] = lor(fl, stop)
            new = [k for k in self._changed(s0, end, carried, lcs)]
            bad = [k for k in carried if _iscell(lcs[k], v) and not self._cell_ok(
                (end.env if k[0] == "e" else end.heap).get(k[1], UNDEF), lcs[k], v, end, carried, lcs)]
            if bad:
                for k in bad:
                    pess.add(k)
                    lcs[k] = self._lcsym(lid, carried.index(k) + 1, (s0.env if k[0] == "e" else s0.heap).get(k[1]))
                self._undo(ne, nn, nr, nl)
                continue
            if not new:
                break
            for k in new:
                old = (s0.env if k[0] == "e" else s0.heap).get(k[1])
                if old is None and k[0] == "h":
                    old = self.static.get(k[1])
                    if old is not None:
                        s0.heap[k[1]] = old
                carried.append(k)
                lcs[k] = self._lcsym(lid, len(carried), old, v if k not in pess else None)
            self._undo(ne, nn, nr, nl)
        else:
            self.note("loop did not stabilise")
            self.taint()
        # ---- close the carried locations
        r = {}
        e0 = {}
        for k in carried:
            d = end.env if k[0] == "e" else end.heap
            r[k] = d.get(k[1], UNDEF)
            e0[k] = (s0.env if k[0] == "e" else s0.heap).get(k[1], UNDEF)
        closed, at = self.close(n, v, carried, lcs, r, e0, lid)
        self.loops.append(dict(n=n, v=v, carried=[(k, e0[k], lcs[k], r[k]) for k in carried], func=self._curfunc(),
                               node=self.node, at=at))
        sub_at = lambda t: subst(t, at) if at else t
        out = s0.copy()
        for k in carried:
            d = out.env if k[0] == "e" else out.heap
            d[k[1]] = closed[k]
        # objects and variables created by the iterations
        for key, t in end.heap.items():
            if key in out.heap:
                continue
            out.heap[key] = self._close_new(n, v, sub_at(t), key)
        for key, t in end.env.items():
            if key not in s0.env and key[0] == self.frame.id:
                t = sub_at(t)
                out.env[key] = self._lastval(n, v, UNDEF, t)
        # effects / exceptions / returns of the iterations
        for ef in self.effects[ne:]:
            ef.cond = sub_at(ef.cond)
            ef.data = tuple(sub_at(x) if isinstance(x, Term) else x for x in ef.data)
        self.s = out
        self.s.conds = list(s0.conds)
        for x in raised:
            g = sub_at(x.state.rel(base))
            self.raises[-1].remove(x)
            gg = bigany(n, v, g)
            self.node = x.node or self.node
            snap = x.state
            x.state = out.copy()
            x.state.live = land(x.state.live, gg)
            x.args = tuple(a for a in x.args if isinstance(a, Term) and not has_bv(a, v))
            self.raises[-1].append(x)
            self.s.live = land(self.s.live, lnot(gg))
        broke = FALSE
        if hard:
            broke = out.env[flag[1]]
            rv = out.env.get(("$ret", lid), NONE)
            if any(k == "return" for k, _, _ in exits):
                isret = lnot(eq(rv, NONE)) if rv is not NONE else FALSE
                isret = truth(isret)
                cur = self.s
                self.s = cur.copy()
                self.s.live = land(cur.live, isret)
                self.do_return(index(index_opt(rv), ONE))
                self.s = cur
                self.s.live = land(cur.live, lnot(isret))
                broke = land(broke, lnot(isret))
        else:
            for k, val_, bs in exits:
                g = bigany(n, v, sub_at(bs.rel(base)))
                cur = self.s
                self.s = cur.copy()
                self.s.live = land(cur.live, g)
                self.do_return(val_)
                self.s = cur
                self.s.live = land(cur.live, lnot(g))
        return broke

    def _undo(self, ne, nn, nr, nl):
        del self.effects[ne:]
        del self.notes[nn:]
        del self.raises[-1][nr:]
        del self.loops[nl:]

    def _varying(self, t, v, lcs):
        if t is None:
            return False
        syms = set(free_bvs(t))
        if v in syms:
            return True
        return any(x.op == "lc" for x in walk(t))

    def _changed(self, s0, end, carried, lcs):
        out = []
        cs = set(carried)
        for tag, d0, d1 in (("e", s0.env, end.env), ("h", s0.heap, end.heap)):
            for k, t in d1.items():
                if (tag, k) in cs:
                    continue
                o = d0.get(k)
                if o is None and tag == "h":
                    o = self.static.get(k)
                if o is not None and o is not t:
                    out.append((tag, k))
        return out

    def _cell_ok(self, r, lc, v, end, carried, lcs):
        """only the cell of the current iteration changes and nothing reads another cell"""
        raw = lc.args[0]
        g, x = _cond_store(r, raw, v)
        if x is None or contains(x, raw) or contains(g, raw):
            return False
        for k in carried:
            if lcs[k] is lc:
                continue
            t = (end.env if k[0] == "e" else end.heap).get(k[1], UNDEF)
            if contains(t, raw):
                return False
        return True

    def _lcsym(self, lid, k, old, v=None):
        """symbol for the value at the start of an iteration, structured like the entry value"""
        if old is None:
            return mk("lc", lid, k)
        if old.op == "store" and old.args[1] in self.loopvars:
            # cell of an object family that belongs to the current iteration of an outer loop
            return T.store(old.args[0], old.args[1], self._lcsym(lid, k, old.args[2]))
        if v is not None and old.op == "lmap":
            raw = mk("lc", lid, k)
            T.KIND[raw] = "list"
            T.LENGTH_OF[raw] = old.args[0]
            return T.store(raw, v, index(old, v))
        if old.op in ("arr", "tuple") and len(old.args[0]) <= 12:
            xs = [self._lcsym(lid, (k, i) if not isinstance(k, tuple) else k + (i,), x) for i, x in enumerate(old.args[0])]
            return arr(*xs) if old.op == "arr" else tup(*xs)
        if is_bool(old):
            return batom(mk("lc", lid, k))
        t = mk("lc", lid, k)
        if kind(old):
            T.KIND[t] = kind(old)
        if isint(old):
            T.INTEGERS.add(t)
        if old.op == "map":
            ln = old.args[0]
            T.LENGTH_OF[t] = ln
            w = fresh()
            inner = open_(old, [w])[2][0]
            if rank(inner) == 0:
                return bind("map", ln, w, mk("index", t, w))
            if inner.op == "arr" and all(rank(x) == 0 for x in inner.args[0]):
                return bind("map", ln, w, arr(*[mk("index", mk("index", t, w), num(i)) for i in range(len(inner.args[0]))]))
        return t

    # ---- closed forms
    def close(self, n, v, carried, lcs, r, e0, lid):
        """closed forms of carried values.  -> ({key: final}, {lc term: value at iteration v})"""
        at = {}
        final = {}
        # split structured carried values into scalar components
        comp = []      # (key, path, lc, r, e0)
        for k in carried:
            comp += self._components(k, (), lcs[k], r[k], e0[k])
        todo = list(comp)
        res = {}
        progress = True
        while progress and todo:
            progress = False
            for c in list(todo):
                key, path, lc, rr, ee = c
                rr = subst(rr, at) if at else rr
                others = {_lcof(x[2]) for x in todo}
                cf = self._closed_form(n, v, lc, rr, ee, others)
                if cf is None:
                    continue
                fin, atv = cf
                res[(key, path)] = fin
                self._at(at, lc, atv)
                todo.remove(c)
                progress = True
        if todo:
            # mutually dependent: one fold over the tuple of all of them
            st = fresh("s")
            mp = {}
            for i, c in enumerate(todo):
                self._at(mp, c[2], index(st, num(i)))
            bodies = []
            for c in todo:
                rr = subst(c[3], at) if at else c[3]
                bodies.append(subst(rr, mp))
            init = tup(*[c[4] for c in todo])
            f = lambda m: bind("fold", m, [v, st], init, tup(*bodies))
            whole = f(n)
            part = bind("fold", v, [fresh_like(v, bodies, st)[0], st], init, fresh_like(v, bodies, st)[1]) if False else None
            w = fresh()
            bw = [subst(b, {v: w}) for b in bodies]
            part = bind("fold", v, [w, st], init, tup(*bw))
            for i, c in enumerate(todo):
                res[(c[0], c[1])] = index(whole, num(i)) if not is_bool(c[4]) else truth(index(whole, num(i)))
            atf = {}
            for i, c in enumerate(todo):
                self._at(atf, c[2], index(part, num(i)))
            at = {k_: subst(x, atf) for k_, x in at.items()}
            at.update(atf)
        for k in carried:
            final[k] = self._assemble(k, lcs[k], (), res)
        return final, at

    def _at(self, at, lc, value):
        if lc.op == "lc":
            at[lc] = value
        elif lc.op == "sel" and lc.args[0].op == "lc":
            at[lc] = truth(value)
            at[lc.args[0]] = value
        elif lc.op in ("map", "store"):
            at[_lcof(lc)] = value

    def _components(self, key, path, lc, r, e0):
        if lc.op == "store" and lc.args[0].op == "lc":
            return [(key, path, lc, r, e0)]
        if lc.op == "store":
            c = _cell(r, lc.args[0], lc.args[1])
            if c is None:
                self.note("loop writes other members of an object family")
                c = opaque("family write", r)
            return self._components(key, path + ("s",), lc.args[2], c, _cell(e0, lc.args[0], lc.args[1]))
        if lc.op in ("arr", "tuple"):
            k = len(lc.args[0])
            rr = elements(A.expand(r)) if r.op in ("arr", "tuple", "seq") else None
            if r.op == "sel":
                es = [index(r, num(i)) for i in range(k)]
                rr = es if all(x.op != "index" or x.args[0] is not r for x in es) else None
            if rr is None or len(rr) != k:
                rr = [index(r, num(i)) for i in range(k)]
            out = []
            for i, x in enumerate(lc.args[0]):
                out += self._components(key, path + (i,), x, rr[i], index(e0, num(i)))
            return out
        return [(key, path, lc, r, e0)]

    def _assemble(self, key, lc, path, res):
        if lc.op == "store" and lc.args[0].op != "lc":
            return T.store(lc.args[0], lc.args[1], self._assemble(key, lc.args[2], path + ("s",), res))
        if lc.op in ("arr", "tuple"):
            xs = [self._assemble(key, x, path + (i,), res) for i, x in enumerate(lc.args[0])]
            return arr(*xs) if lc.op == "arr" else tup(*xs)
        return res[(key, path)]

    def _closed_form(self, n, v, lc, r, e0, others):
        """(final value, value at iteration v) or None.  ``others``: lc symbols still open"""
        base = lc if lc.op == "lc" else (lc.args[0] if lc.op == "sel" else _lcof(lc))

        def dep(t, excl=None):
            return any(x in others and x is not excl for x in walk(t))

        if r is lc:
            return e0, e0
        if lc.op == "store":
            lc = base
        if not dep(r):
            # recomputed every iteration
            prev = ite(eq(v, ZERO), e0, subst(r, {v: sub(v, ONE)}))
            return self._lastval(n, v, e0, r), prev
        if dep(r, base):
            return None
        # accumulation
        if lc.op == "lc" and _maybe_num(e0):
            d = sub(r, lc) if _maybe_num(r) else None
            if d is not None:
                d = canon(d)
                if not dep(d):
                    w = fresh()
                    dw = subst(d, {v: w})
                    return add(e0, bigsum(n, v, d)), add(e0, bigsum(v, w, dw))
                q = div(r, lc)
                q = canon(q)
                if not dep(q):
                    w = fresh()
                    return mul(e0, bigprod(n, v, q)), mul(e0, bigprod(v, w, subst(q, {v: w})))
            if r.op == "sel":
                # conditional accumulation / extremum
                x = self._extremum(n, v, lc, r, e0, dep)
                if x is not None:
                    return x
        if lc.op == "sel":
            # boolean flag: becomes true / false under a condition
            t1, t0 = decide(r, lc.args[0], 0), decide(r, lc.args[0], 1)
            w = fresh()
            if not dep(t1) and not dep(t0):
                if t1 is TRUE:
                    return (lor(e0, bigany(n, v, t0)), lor(e0, bigany(v, w, subst(t0, {v: w}))))
                if t0 is FALSE:
                    return (land(e0, bigall(n, v, t1)), land(e0, bigall(v, w, subst(t1, {v: w}))))
        # lists
        ap = _append_form(r, lc)
        if ap is not None and not any(dep(x) for _, xs in ap for x in xs):
            w = fresh()

            def mkl(m, vv):
                pieces = [(subst(g, {v: vv}), [subst(x, {v: vv}) for x in xs]) for g, xs in ap]
                return _list_close(m, vv, pieces)
            return seq(("s", e0), ("s", mkl(n, v))), seq(("s", e0), ("s", mkl(v, w)))
        # element stores
        sf = self._store_form(n, v, lc, base, r, e0, dep)
        if sf is not None:
            return sf
        return None

    def _extremum(self, n, v, lc, r, e0, dep):
        for op, cmp_ in (("bigmin", lt), ("bigmax", gt)):
            # r == ite(x < lc, x, lc)
            cands = {x for x in _selleaves(r) if x is not lc}
            if len(cands) == 1:
                x = cands.pop()
                if not dep(x) and (r is ite(cmp_(x, lc), x, lc) or r is ite(cmp_(lc, x), lc, x)):
                    w = fresh()
                    b = lambda m, vv: bigext(op, m, vv, subst(x, {v: vv}))
                    f = b(n, v)
                    inf = INF if op == "bigmin" else NINF
                    if e0 is inf:
                        return f, b(v, w)
                    return ite(cmp_(f, e0), f, e0), ite(cmp_(b(v, w), e0), b(v, w), e0)
        return None

    def _store_form(self, n, v, lc, base, r, e0, dep):
        """r == store(lc, v, x) (possibly conditional), x using only lc[v]"""
        g, x = _cond_store(r, lc, v)
        if x is None:
            return None
        old = index(lc, v)
        fresh0 = mk("lc0", base)
        x2 = subst(x, {old: fresh0})
        if dep(x2) or dep(g):
            return None
        oe = index(e0, v) if e0 is not UNDEF else UNDEF
        x2 = subst(x2, {fresh0: oe})
        body = ite(g, x2, oe) if g is not TRUE else x2
        if e0 is UNDEF:
            f = mapn("lmap", n, v, x2)
            return f, UNDEF
        ln = length(e0)
        isa = kind(e0) != "list"
        if ln is n or sub(ln, n) is ZERO or e0.op == "empty":
            f = mapn("map" if isa else "lmap", n, v, body)
        else:
            f = bind("smap", n, v, e0, v, body)
        w = fresh()
        atv = bind("smap", v, w, e0, w, subst(body, {v: w}))
        return f, _Prefix(e0, atv)

    def _close_new(self, n, v, t, key):
        """field of objects allocated in the loop body: family indexed by the loop variable"""
        if t.op == "store" and t.args[1] is v and t.args[0] is UNDEF:
            return mapn("lmap", n, v, t.args[2])
        if t.op == "store" and t.args[1] in self.loopvars:
            return T.store(t.args[0], t.args[1], self._close_new(n, v, t.args[2], key))
        if t.op == "sel":
            fam = _sel_family(t, v)
            if fam is not None:
                return mapn("lmap", n, v, fam)
            if not has_bv(t.args[0], v):
                return A.ite_any(t.args[0], [self._close_new(n, v, x, key) for x in t.args[1]])
        if not has_bv(t, v):
            return t
        return self._lastval(n, v, UNDEF, t)

    def _lastval(self, n, v, e0, t):
        if not has_bv(t, v):
            if e0 is UNDEF or t is e0:
                return t
            return ite(le(n, ZERO), e0, t)
        last = subst(t, {v: sub(n, ONE)})
        if e0 is UNDEF:
            return last
        return ite(le(n, ZERO), e0, last)

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return self.opaque(f"expression {type(e).__name__}")
        return m(e)

    def ex_Constant(self, e):
        if e.value is Ellipsis:
            return mk("c", Ellipsis)
        if isinstance(e.value, (bytes, complex)):
            return mk("c", e.value)
        return const(e.value)

    def ex_Name(self, e): return self.lookup(e.id)
    def ex_Attribute(self, e):
        saved = self.node
        r = self.getattr(self.expr(e.value), e.attr)
        self.node = saved
        return r

    def ex_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def ex_Tuple(self, e): return self._display(e.elts, "tuple")
    def ex_List(self, e): return self.lbox(self._display(e.elts, "list"))
    def ex_Set(self, e): return self.models.newset(self, self._display(e.elts, "list"))

    def _display(self, elts, k):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                c = self.content(v) if is_ref(v) else A.expand(v)
                parts.append(("s", c))
            else:
                parts.append(("e", self.expr(x)))
        s = seq(*parts)
        if k == "tuple":
            el = elements(s)
            return tup(*el) if el is not None else s
        if s.op != "seq":
            return mk("seq", (("s", s),)) if s.op not in ("lmap", "lfmap", "flatmap", "range", "repeat") else s
        return s

    def ex_Dict(self, e):
        d = mk("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.content(self.expr(v))
                if c.op == "dict":
                    for a, b in c.args[0]:
                        d = store(d, a, b)
                else:
                    return self.alloc("dict", self.opaque("dict display"))
            else:
                kk = self.val(self.expr(k))
                d = store(d, kk, self.expr(v))
        return self.alloc("dict", d)

    def ex_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self._fmt(x))
        return mkfstr(parts)

    def _fmt(self, x):
        v = self.val(self.expr(x.value))
        spec = ""
        if x.format_spec is not None:
            spec = "".join(str(p.value) if isinstance(p, ast.Constant) else "?" for p in x.format_spec.values)
        if x.conversion not in (-1, 115) or spec:
            return mk("fmtval", v, spec + (chr(x.conversion) if x.conversion > 0 else ""))
        return v

    def ex_FormattedValue(self, e): return self._fmt(e)

    def ex_BoolOp(self, e):
        return self._boolop(e.values, isinstance(e.op, ast.And))

    def _boolop(self, values, is_and):
        v = self.expr(values[0])
        if len(values) == 1:
            return v
        c = self.truthof(v)
        rest = lambda: self._boolop(values[1:], is_and)
        if is_and:
            return self.fork(c, rest, lambda: v) if not is_bool(v) else self.fork(c, rest, lambda: FALSE)
        return self.fork(c, lambda: v if not is_bool(v) else TRUE, rest)

    def ex_IfExp(self, e):
        c = truth(self.cond(e.test))
        return self.fork(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))

    def ex_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return lnot(self.truthof(v))
        return self.unary({"USub": "neg", "UAdd": "pos", "Invert": "invert"}[type(e.op).__name__], v)

    def unary(self, op, v):
        if v.op == "sel" and any(is_ref(x) and refkind(x) != "array" for x in v.args[1]):
            return self.branch_term(v, lambda x: self.unary(op, x))
        c = self.cls_of(v) if is_ref(v) else None
        if c is not None:
            r = self.class_lookup(c, f"__{op}__")
            if r:
                return self.call_func(r[1], [v], {}, r[2])
            return self.opaque(f"unary {op}", v)
        x = self.aval(v) if self.isarr(v) else self.val(v)
        if op == "neg":
            return self.box(ew(neg, x))
        if op == "invert":
            return self.box(ew(lambda y: lnot(y) if is_bool(y) else sub(num(-1), y), x))
        return self.box(x) if self.isarr(v) else x

    def ex_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        return self.binop(OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        for x, o, flip in ((a, b, False), (b, a, True)):
            if x.op == "sel" and any(is_ref(y) and refkind(y) != "array" for y in x.args[1]):
                return self.branch_term(x, lambda y: self.binop(op, o, y) if flip else self.binop(op, y, o))
        ca = self.cls_of(a) if is_ref(a) else None
        cb = self.cls_of(b) if is_ref(b) else None
        if ca is not None:
            r = self.class_lookup(ca, f"__{DUNDER[op]}__")
            if r:
                x = self.call_func(r[1], [a, b], {}, r[2])
                if not (x.op == "ext" and x.args[0].endswith("NotImplemented")):
                    return x
        if cb is not None:
            r = self.class_lookup(cb, f"__r{DUNDER[op]}__")
            if r:
                x = self.call_func(r[1], [b, a], {}, r[2])
                if not (x.op == "ext" and x.args[0].endswith("NotImplemented")):
                    return x
        if (ca is not None or cb is not None) and all(c is not None and not [x for x in self.extbases(c) if x.split(".")[-1] not in ("object", "ABC", "Generic")]
                                                      or c is None and (is_num(y) or y.op in ("c", "poly", "sym"))
                                                      for c, y in ((ca, a), (cb, b))):
            self.implicit("TypeError", TRUE, const(f"operator {op}"))
            return UNDEF
        if ca is not None or cb is not None:
            return self.opaque(f"operator {op} on instance", a, b)
        return self.models.binop(self, op, a, b)

    def ex_Compare(self, e):
        left = self.expr(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                res = land(truth(self.val(res)), truth(self.val(r)))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("In", "NotIn"):
            r = self.models.contains(self, b, a)
            return lnot(r) if op == "NotIn" else r
        if op in ("Is", "IsNot"):
            r = self.models.identical(self, a, b)
            return lnot(r) if op == "IsNot" else r
        for x, o, flip in ((a, b, False), (b, a, True)):
            if x.op == "sel" and any(is_ref(y) and refkind(y) != "array" for y in x.args[1]):
                return self.branch_term(x, lambda y: self.compare(op, o, y) if flip else self.compare(op, y, o))
        names = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
        ca = self.cls_of(a) if is_ref(a) else None
        if ca is not None:
            r = self.class_lookup(ca, f"__{names[op]}__")
            if r is None and op == "NotEq":
                r = self.class_lookup(ca, "__eq__")
                if r:
                    return lnot(truth(self.call_func(r[1], [a, b], {}, r[2])))
            if r:
                return self.call_func(r[1], [a, b], {}, r[2])
            if op in ("Eq", "NotEq"):
                r = self.models.identical(self, a, b)
                return lnot(r) if op == "NotEq" else r
        return self.models.compare(self, op, a, b)

    def ex_Subscript(self, e):
        o = self.expr(e.value)
        if o.op in ("cls", "ext", "fn") and not (o.op == "cls" or o.args[0] in ("numpy.c_", "numpy.r_", "numpy.s_", "numpy.index_exp")):
            return o  # typing generics
        self.float_index(o, e.slice)
        return self.getitem(o, self.subscript(e.slice))

    def float_index(self, o, s):
        """list and array indices have to be integers: the value of a division is none"""
        if self.s.live is FALSE or not (self.isarr(o) or self.islist(o) or o.op == "tuple"):
            return
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        for p in parts:
            for x in (p.lower, p.upper, p.step) if isinstance(p, ast.Slice) else (p,):
                if x is not None and self.floaty(x):
                    self.implicit("TypeError", TRUE, const("index is no integer"))
                    return

    def floaty(self, e, seen=()):
        """is the expression a float by its form"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, float)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Div):
                return True
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)) and (
                self.floaty(e.left, seen) or self.floaty(e.right, seen))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return self.floaty(e.operand, seen)
        if isinstance(e, ast.Name) and e.id not in seen:
            f = self.frame.func
            if f is None or any(a.arg == e.id for a in ast.walk(f.node) if isinstance(a, ast.arg)):
                return False
            vals, other = [], 0
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                    other += 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                    vals.append(n.value)
            return bool(vals) and other == len(vals) and all(self.floaty(v, seen + (e.id,)) for v in vals)
        return False

    def subscript(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.val(self.expr(x))
            return mk("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            xs = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    v = self.val(self.expr(x.value))
                    xs += elements(v) or [self.opaque("starred index")]
                else:
                    xs.append(self.subscript(x))
            return tup(*xs)
        v = self.expr(s)
        return self.val(v) if not (is_ref(v) and self.cls_of(v) is not None) else v

    def getitem(self, o, i):
        if o.op == "sel" and not self.isarr(o):
            return self.branch_term(o, lambda x: self.getitem(x, i))
        c = self.cls_of(o) if is_ref(o) else None
        if c is not None:
            r = self.class_lookup(c, "__getitem__")
            if r:
                return self.call_func(r[1], [o, i], {}, r[2])
            t = self.read(o, "$tuple")
            if t is not None:
                return index(t, i)
        if o.op == "cls":
            k = self.find_class(o.args[0])
            if k is not None and self.is_enum(k) and i.op == "c":
                return mk("enum", o.args[0], i.args[0])
            return o
        return self.models.getitem(self, o, i)

    def setitem(self, o, i, v):
        if o.op == "sel":
            self.branch_term(o, lambda x: (self.setitem(x, i, v), UNDEF)[1])
            return
        c = self.cls_of(o) if is_ref(o) else None
        if c is not None:
            r = self.class_lookup(c, "__setitem__")
            if r:
                self.call_func(r[1], [o, i, v], {}, r[2])
                return
        self.models.setitem(self, o, i, v)

    def ex_Call(self, e):
        saved = self.node
        self.node = e
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frame
            c = fr.cls
            f = fr
            while c is None and f.parent is not None:
                f = f.parent
                c = f.cls
            slf = f.selfref
            return mk("super", c.qual, slf)
        f = self.expr(e.func)
        if f.op == "ext" and f.args[0] in self.models.IGNORED:
            return NONE
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                v = self.content(v) if is_ref(v) else A.expand(v)
                if v.op == "sel":
                    v = self.branch_term(v, lambda x: self.content(x) if is_ref(x) else A.expand(x))
                el = T.elements_in_cases(v)
                if el is None:
                    self.taint()
                    args.append(self.opaque("star argument"))
                else:
                    args += el
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value)
                d = self.content(d) if is_ref(d) else d
                if d.op == "dict" and all(x.op == "c" for x, _ in d.args[0]):
                    for x, y in d.args[0]:
                        kw[x.args[0]] = y
                else:
                    self.taint()
                    self.note("** argument")
                    kw["**"] = self.opaque("** argument")
            else:
                kw[k.arg] = self.expr(k.value)
        self.node = e
        if self.s.live is FALSE:
            self.node = saved
            return UNDEF
        r = self.call(f, args, kw, e)
        self.node = saved
        return r

    def ex_Lambda(self, e):
        return mk("closure", self._mkclosure(e, self.frame, self.frame.module, None, self.frame.func))

    def ex_ListComp(self, e): return self.comp(e.generators, lambda: self.expr(e.elt))
    def ex_GeneratorExp(self, e): return self.comp(e.generators, lambda: self.expr(e.elt))
    def ex_SetComp(self, e):
        r = self.comp(e.generators, lambda: self.expr(e.elt))
        return self.models.newset(self, self.content(r))

    def ex_DictComp(self, e):
        d = self.alloc("dict", mk("dict", ()))
        self._comp(e.generators, lambda: self.models.setitem(self, d, self.val(self.expr(e.key)), self.expr(e.value)))
        return d

    def comp(self, gens, elt):
        out = self.alloc("list", seq())
        self._comp(gens, lambda: self.write(out, "", seq(("s", self.content(out)), ("e", elt()))))
        return out

    def _comp(self, gens, body):
        fr = Frame(self.frame.func, self.frame.module, self.frame, None, self.frame.selfref, name="comp")
        fr.cls = None
        fr.depth = -1

        def level(k):
            if k == len(gens):
                body()
                return
            g = gens[k]
            it = self.expr(g.iter)

            def run():
                conds = TRUE
                s_stack = []
                c = TRUE
                for i in g.ifs:
                    c = land(c, truth(self.cond(i)))
                if c is FALSE:
                    return
                self.fork(c, lambda: (level(k + 1), UNDEF)[1], lambda: UNDEF)
            self.loop(it, lambda x: self.assign(g.target, x), [], (), run)
        self.frames.append(fr)
        try:
            level(0)
        finally:
            self.frames.pop()

    def ex_Starred(self, e): return self.opaque("starred")

    def ex_Yield(self, e):
        v = self.expr(e.value) if e.value else NONE
        y = self.frame.yields
        if y is None:
            return self.opaque("yield")
        self.write(y, "", seq(("s", self.content(y)), ("e", v)))
        return NONE

    def ex_YieldFrom(self, e):
        v = self.expr(e.value)
        y = self.frame.yields
        self.models.list_extend(self, y, v)
        return NONE


def fresh_like(*a):
    return (None, None)


def _Prefix(e0, t):
    return t


def _sel_family(t, v):
    """decision tree over members of a new object family -> the member as decision tree"""
    if t.op == "store" and t.args[1] is v and t.args[0] is UNDEF:
        return t.args[2]
    if t.op == "sel":
        xs = [_sel_family(x, v) for x in t.args[1]]
        if any(x is None for x in xs):
            return None
        if t.args[0].op == "sgn":
            return T.sgn_dec(t.args[0].args[0], xs)
        return ite(mk("sel", t.args[0], (TRUE, FALSE)), xs[0], xs[1])
    return None


def _iscell(lc, v):
    return lc.op == "store" and lc.args[0].op == "lc" and lc.args[1] is v


def index_opt(t):
    """the tuple alternative of an optional tuple"""
    if t.op == "sel":
        xs = [index_opt(x) for x in t.args[1]]
        good = [x for x in xs if x is not NONE]
        if len(good) == 1:
            return good[0]
        return A.ite_any(t.args[0], [good[0] if x is NONE else x for x in xs]) if good else t
    return t


def _lcof(m):
    for x in walk(m):
        if x.op == "lc":
            return x


def _maybe_num(t):
    if t.op in ("seq", "lmap", "lfmap", "tuple", "dict", "arr", "map", "fmap", "flatmap", "new", "fstr", "undef", "enum", "cls",
                "store", "smap", "range", "repeat", "empty", "view", "closure", "bound", "exc"):
        return False
    if t.op == "c":
        return isinstance(t.args[0], bool)
    if t.op == "sel":
        return all(_maybe_num(x) for x in t.args[1])
    return kind(t) not in ("list", "str", "array")


def mk_store(t, i, v):
    if t.op == "store" and t.args[1] is i:
        t = t.args[0]
    return T.store(t, i, v)


def _likeshape(r, c):
    """in-place results keep the shape of the target (broadcast scalars)"""
    if rank(r) == 0 and rank(c) not in (0, None):
        return ew(lambda x, y: y, c, r)
    return r


def _selleaves(t):
    if t.op == "sel":
        for x in t.args[1]:
            yield from _selleaves(x)
    else:
        yield t


def _append_form(r, lc):
    """r as appends to lc -> [(guard, [items])] or None.  items of one guard are consecutive"""
    if r is lc:
        return []
    if r.op == "seq":
        ps = r.args[0]
        if ps and ps[0] == ("s", lc) and all(k == "e" for k, _ in ps[1:]):
            return [(TRUE, [x for _, x in ps[1:]])]
        if ps and ps[0] == ("s", lc):
            return [(TRUE, [mk("splice", x) if k == "s" else x for k, x in ps[1:]])]
        return None
    if r.op == "sel":
        out = []
        n = len(r.args[1])
        for k, x in enumerate(r.args[1]):
            a = _append_form(x, lc)
            if a is None:
                return None
            brs = [FALSE] * n
            brs[k] = TRUE
            g = A.ite_any(r.args[0], brs)
            for g2, xs in a:
                out.append((land(g, g2), xs))
        return out
    return None


def _list_close(n, v, pieces):
    """list built by appending, per iteration, the items of the piece whose guard holds"""
    if len(pieces) == 1:
        g, xs = pieces[0]
        if len(xs) == 1 and xs[0].op != "splice":
            return fmapn("lfmap", n, v, g, xs[0]) if g is not TRUE else mapn("lmap", n, v, xs[0])
    if pieces and all(len(xs) == 1 and xs[0].op != "splice" for _, xs in pieces):
        # disjoint guards
        g = FALSE
        body = pieces[-1][1][0]
        for gi, xs in reversed(pieces):
            body = ite(gi, xs[0], body) if xs[0] is not body else body
            g = lor(g, gi)
        return fmapn("lfmap", n, v, g, body)
    body = seq()
    for gi, xs in reversed(pieces):
        s = seq(*[("s", x.args[0]) if x.op == "splice" else ("e", x) for x in xs])
        body = ite(gi, s, body)
    return bind("flatmap", n, v, body)


def _cell(r, x, w):
    """y with r == store(x, w, y)"""
    if r.op == "store" and r.args[0] is x and r.args[1] is w:
        return r.args[2]
    if r.op == "sel":
        ys = [_cell(b, x, w) for b in r.args[1]]
        if all(y is not None for y in ys):
            return A.ite_any(r.args[0], ys)
    return None


def _cond_store(r, lc, v):
    """(guard, x) such that r == store(lc, v, x) if guard else lc"""
    if r.op == "store" and r.args[0] is lc and r.args[1] is v:
        return TRUE, r.args[2]
    if r.op == "sel":
        n = len(r.args[1])
        g = FALSE
        x = None
        for k, b in enumerate(r.args[1]):
            if b is lc:
                continue
            gk, xk = _cond_store(b, lc, v)
            if xk is None:
                return TRUE, None
            brs = [FALSE] * n
            brs[k] = TRUE
            c = land(A.ite_any(r.args[0], brs), gk)
            x = xk if x is None or x is xk else ite(c, xk, x)
            g = lor(g, c)
        return g, x
    return TRUE, None


def mkfstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == "c" and isinstance(p.args[0], str):
            p = p.args[0]
        if isinstance(p, Term) and p.op == "num" and p.args[0].denominator == 1:
            p = str(p.args[0])
        if isinstance(p, Term) and p.op == "c" and p.args[0] is None:
            p = "None"
        if isinstance(p, Term) and p.op == "fstr":
            for q in p.args[0]:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    out = [p for p in out if p != ""] if any(isinstance(p, str) for p in out) else out
    if all(isinstance(p, str) for p in out):
        return const("".join(out))
    # decisions inside strings are lifted
    for k, p in enumerate(out):
        if isinstance(p, Term) and p.op == "sel":
            return A.ite_any(p.args[0], [mkfstr(out[:k] + [b] + out[k + 1:]) for b in p.args[1]])
    return mk("fstr", tuple(out))


T.REBUILD["fstr"] = lambda ps: mkfstr(list(ps))


def _assigned(fn):
    out = set()
    for x in _own_nodes(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


def _assigned_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def _own_nodes(fn):
    """nodes of a function without nested functions"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
