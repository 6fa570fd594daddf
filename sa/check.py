"""Obligations, verdicts, evidence and the command line behind every check."""
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(60000)

from . import terms as T
from . import arrays as A
from .terms import *
from .project import Project
from .lower import Ev, UNDEF, is_ref, refkind
from . import models, intrinsics
from .interp import refute

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {"proved": 3, "undecided": 1, "violated": 0}


CLAIM_TIME = [15]


class AnchorMissing(Exception):
    pass


def _place(t, k):
    first = t.args[0][0]
    if first.op == "c" and isinstance(first.args[0], str):
        return f"{first.args[0].rsplit('.', 1)[-1]}{'.' if k else ': '}"
    return f"[{k}]: "


def decide_eq(got, want, facts, seed, tries):
    """-> (proved | violated | undecided, detail)"""
    if got is want:
        return "proved", ""
    for t in (got, want):
        if t is UNDEF:
            return "undecided", "no value"
    if got.op == "tuple" and want.op == "tuple" and len(got.args[0]) == len(want.args[0]):
        worst = ("proved", "")
        for k, (x, y) in enumerate(zip(got.args[0], want.args[0])):
            r, d = decide_eq(x, y, facts, seed, tries)
            if r == "violated":
                return r, f"{_place(got, k)}{d}"
            if r == "undecided" and worst[0] == "proved":
                worst = (r, f"{_place(got, k)}{d}")
        return worst
    blind = False
    saved = T.DEADLINE[0]
    try:
        T.DEADLINE[0] = time.time() + CLAIM_TIME[0]
        same_, _ = T.equal(got, want, facts)
        if same_:
            return "proved", ""
    except T.Budget:
        blind = True
    except (T.Undecided, RecursionError):
        pass
    finally:
        T.DEADLINE[0] = saved
    try:
        T.DEADLINE[0] = time.time() + CLAIM_TIME[0]
        w, n = refute(got, want, facts, tries=tries, seed=seed, blind=blind)
    except (T.Undecided, T.Budget, RecursionError, MemoryError, ValueError) as e:
        w, n = None, repr(e)
    finally:
        T.DEADLINE[0] = saved
    if w is not None:
        return "violated", w
    return "undecided", f"normal forms differ, no witness ({n}): {show(got)[:400]} <> {show(want)[:400]}"


def scalars(t):
    e = elements(A.expand(t)) if t.op in ("arr", "tuple", "seq", "map", "lmap") else None
    if e is None:
        return [t]
    out = []
    for x in e:
        out += scalars(x)
    return out


def rename_noise(t):
    """replace random variates by their order of first use; distinct variates stay distinct"""
    mp = {}
    for x in scalars(t):
        new = [y for y in walk(x) if y.op == "rv" and y not in mp]
        new.sort(key=lambda y: (str(y.args[0]), y.args[2].key if isinstance(y.args[2], Term) else 0))
        for y in new:
            mp[y] = mk("rv", y.args[0], const("noise"), num(len(mp)), *y.args[3:])
    return subst(t, mp) if mp else t


class Check:
    def __init__(self, pid, root="/repo", tier="quick"):
        self.pid, self.root, self.tier = pid, root, tier
        self.p = Project(root)
        self.t0 = time.time()
        self.results = []
        self.visited = {}
        self.notes = []
        self.neffects = self.nloops = 0
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cases_run = []
        self.rules = set()

    @property
    def tries(self):
        return 40 if self.tier == "quick" else 250

    @property
    def case_time(self):
        return 40 if self.tier == "quick" else 240

    @property
    def total_time(self):
        return 420 if self.tier == "quick" else 7200

    # ------------------------------------------------------------ anchors
    def cls(self, qual):
        c = self.p.cls(qual) or self.p.locate("cls", qual.rsplit(".", 1)[-1])
        if c is None:
            raise AnchorMissing(f"class {qual}")
        return c

    def func(self, qual):
        f = self.p.func(qual) or self.p.locate("fn", qual.rsplit(".", 1)[-1])
        if f is None:
            raise AnchorMissing(f"function {qual}")
        return f

    def method(self, qual, name):
        c = self.cls(qual)
        ev = Ev(self.p)
        r = ev.class_lookup(c, name)
        if r is None or r[0] not in ("method", "getter"):
            raise AnchorMissing(f"method {qual}.{name}")
        return r[1]

    # ------------------------------------------------------------ recording
    def record(self, label, status, rule, where="", detail=""):
        self.rules.add(rule)
        self.results.append(dict(label=label, status=status, rule=rule, where=where, detail=detail))
        return status

    def eq(self, label, got, want, rule, where="", facts=None):
        st, d = decide_eq(got, want, facts, self.seed, self.tries)
        return self.record(label, st, rule, where, d)

    def ok(self, label, good, rule, where="", detail=""):
        """structural obligation: good is True / False / None (undecided)"""
        st = "proved" if good else ("undecided" if good is None else "violated")
        return self.record(label, st, rule, where, "" if good else detail)

    def absorb(self, ev):
        for q in ev.visited:
            if not q.startswith("spec_"):
                self.visited[q] = self.visited.get(q, 0) + 1
        self.notes += ev.notes
        self.nloops += len(ev.loops)
        self.neffects += len(ev.effects)

    # ------------------------------------------------------------ specification cases
    def spec(self, name):
        return self.p.add_file("spec_" + name, os.path.join(VERIF, "spec", name + ".py"))

    def evaluate(self, case, args, setup=None):
        ev = Ev(self.p)
        if setup:
            setup(ev)
        def arg(x):
            if isinstance(x, Term):
                return x
            if isinstance(x, list):
                return ev.lbox(lst(*[arg(y) for y in x]))
            if isinstance(x, tuple):
                return tup(*[arg(y) for y in x])
            return lift(x)
        ev.call(mk("fn", case), [arg(x) for x in args])
        self.absorb(ev)
        return ev

    def facts(self, ev):
        sm = dict(ev.samplers)

        def sampler(r):
            return {t: f(r) for t, f in sm.items()}
        return Facts(signs=dict(ev.signs), sampler=sampler, assumed=list(ev.assumed))

    def _claims(self, case, args, noise, setup, labels=None):
        """label -> (status, detail, where)"""
        out = {}
        ev = self.evaluate(case, args, setup)
        facts = self.facts(ev)
        for c in ev.claims:
            got, want = c.got, c.want
            if not any(c.label.startswith(x) for x in labels) if labels is not None else c.label == "on disk":
                continue
            if c.kind == "noise" and noise:
                got, want = rename_noise(got), rename_noise(want)
            if c.cond is not TRUE:
                got, want = ite(c.cond, got, NONE), ite(c.cond, want, NONE)
            st, d = decide_eq(got, want, facts, self.seed, self.tries)
            if st == "violated" and c.kind == "noise" and not noise:
                r1, r2 = rename_noise(got), rename_noise(want)
                if r1 is not got or r2 is not want:
                    st, d = decide_eq(r1, r2, facts, self.seed, self.tries)
                if st == "violated":
                    st = "undecided" if any(x.op in T.BINDERS for x in walk(got)) else st
            if ev.tainted and st != "undecided":
                st, d = "undecided", f"parts of the code are not understood: {ev.notes[:2]}"
            old = out.get(c.label)
            if old is None or LEVEL[st] < LEVEL[old[0]]:
                out[c.label] = (st, d)
        for x in ev.raises[0]:
            cond = x.state.rel(0)
            st, d = decide_eq(cond, FALSE, facts, self.seed, self.tries)
            lab = f"no exception ({x.cls.split('.')[-1]})"
            if x.tainted and st == "violated":
                st = "undecided"
            if st == "violated":
                out[lab] = (st, f"raises {x.cls} at {x.where}: {d}")
            elif st == "undecided":
                out.setdefault(lab, (st, f"may raise {x.cls} at {x.where} if {show(cond)[:300]}"))
        return out, ev

    def case(self, case, *args, sizes=None, rule="", where="", labels=None, setup=None, tag=""):
        """decide the claims of a specification case.

        args may contain the marker SIZE, replaced by a symbolic size first and by the
        concrete ``sizes`` for claims the size-generic analysis leaves open."""
        name = case + "(" + ", ".join("n" if a is SIZE else str(a) for a in args) + ")" + tag
        spent = time.time() - self.t0
        if spent > self.total_time or spent > 60 and any(r["status"] == "violated" for r in self.results):
            self.record(name, "undecided", rule, where, "not analysed: time budget used, or a violation was found already")
            return {}
        self.cases_run.append(name)
        if SIZE in args:
            n = sym("N", "posint")
            INTEGERS.add(n)

            def setup2(ev, setup=setup):
                if setup:
                    setup(ev)
                ev.signs[n] = {1}
                ev.samplers[n] = lambda r: r.randint(1, 4)
            res = self._try(case, [n if a is SIZE else a for a in args], False, setup2, labels)
            if os.environ.get("VERIF_DEBUG"):
                for k, v in (res or {}).items():
                    if v[0] != "proved":
                        print("  generic:", k, v[0], v[1][:1200])
            open_ = {k for k, v in (res or {}).items() if v[0] == "undecided"}
            if res is None or open_ or not res:
                allres = None
                for m in (sizes or (1, 2, 3)):
                    r = self._try(case, [m if a is SIZE else a for a in args], True, setup, labels)
                    if r is None:
                        continue
                    if allres is None:
                        allres = {}
                    for k, v in r.items():
                        if k not in allres or LEVEL[v[0]] < LEVEL[allres[k][0]]:
                            allres[k] = v
                if allres is not None:
                    final = dict(res or {})
                    for k, v in allres.items():
                        if k not in final or final[k][0] == "undecided":
                            final[k] = (v[0], v[1] or f"(sizes {sizes or (1, 2, 3)})")
                    # an exception only the generic analysis could not exclude
                    for k in list(final):
                        if k.startswith("no exception") and k not in allres and final[k][0] == "undecided":
                            del final[k]
                    res = final
        else:
            res = self._try(case, list(args), True, setup, labels)
        if not res:
            self.record(name, "undecided", rule, where, self._why or "no claims reached")
            return {}
        for lab, (st, d) in res.items():
            self.record(f"{name}: {lab}", st, rule, where, d)
        return res

    _why = ""

    def _try(self, case, args, noise, setup, labels=None):
        T.DEADLINE[0] = time.time() + self.case_time
        try:
            return self._claims(case, args, noise, setup, labels)[0]
        except AnchorMissing:
            raise
        except Exception as e:
            self._why = f"analysis failed: {type(e).__name__} {e}"
            if os.environ.get("VERIF_DEBUG"):
                short_tb()
            return None
        finally:
            T.DEADLINE[0] = None

    def guard(self, label, rule, fn):
        """run a hand-written rule; an analysis failure leaves the obligation open"""
        try:
            fn()
        except AnchorMissing:
            raise
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                short_tb()
            self.record(label, "undecided", rule, "", f"analysis failed: {type(e).__name__} {e}")

    # ------------------------------------------------------------ verdict
    def finish(self):
        known = load_known(self.pid)
        viol, kn = [], []
        for r in self.results:
            if r["status"] == "violated":
                k = next((x for x in known if x == r["label"]), None)
                (kn if k else viol).append(r)
        und = [r for r in self.results if r["status"] == "undecided"]
        prv = [r for r in self.results if r["status"] == "proved"]
        for r in self.results:
            mark = {"proved": "ok  ", "violated": "FAIL", "undecided": "open"}[r["status"]]
            print(f"  {mark} {r['label']}" + (f"   -- {r['detail'][:400]}" if r["detail"] and r["status"] != "proved" else ""))
        print(f"property {self.pid}: {len(self.results)} obligations, {len(prv)} decided to hold, {len(viol)} violated, "
              f"{len(und)} undecided; {len(self.visited)} functions analysed, {self.nloops} loops summarised")
        for r in kn:
            print(f"KNOWN-FINDING: property={self.pid} {r['label']}")
        code = 0
        if viol:
            code = 1
        elif not prv:
            code = 2
        replay = os.path.join(VERIF, "evidence", f"{self.pid}.replay.txt")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        if viol:
            with open(replay, "w") as f:
                f.write(f"property {self.pid}; rerun: python3-vt run_check.py {self.pid}\n\n")
                for r in viol:
                    f.write(f"obligation: {r['label']}\nrule: {r['rule']}\nconstruct: {r['where']}\n{r['detail']}\n\n")
            for r in viol[:8]:
                print(f"  violated at {r['where'] or '?'}: {r['label']}: {r['detail'][:500]}")
            print(f"VIOLATION property={self.pid} replay={replay}")
        self.evidence(code, viol, und, prv, kn)
        return code

    def evidence(self, code, viol, und, prv, kn):
        ev = evidence_record(self, code, viol, und, prv, kn)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def short_tb(seen=set()):
    lines = traceback.format_exc().splitlines()
    tail = [x for x in lines if "^^^" not in x][-9:]
    if tail[-2:] and tuple(tail[-3:]) not in seen:
        seen.add(tuple(tail[-3:]))
        print("\n".join(tail))


SIZE = object()


def evidence_record(chk, code, viol, und, prv, kn):
    return dict(
        property=chk.pid, tier=chk.tier, seed=chk.seed, level="other",
        coverage=dict(
            explanation="static analysis of the current source: obligations decided on value graphs / effect sets of the functions listed; "
                        "nothing of the analysed package is executed",
            obligations=len(chk.results), discharged=len(prv), undecided=len(und),
            functions_analysed=len(chk.visited), functions=sorted(chk.visited), loops_summarised=chk.nloops,
            effects_inspected=chk.neffects, cases=chk.cases_run, rule="; ".join(sorted(chk.rules)),
            source_digest=chk.p.digest(),
            samples=[dict(obligation=r["label"], status=r["status"], rule=r["rule"], where=r["where"]) for r in chk.results[:40]],
            open=[dict(obligation=r["label"], why=r["detail"][:300]) for r in und[:20]]),
        assumptions=["real arithmetic (floating point round-off is not modelled)", "documented semantics of numpy/scipy operations",
                     "no code outside the package monkey-patches it"],
        violations=len(viol), wall_s=round(time.time() - chk.t0, 3))


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                out.append(line.split(f"property={pid} ", 1)[1].split("::")[0].strip())
    return out
