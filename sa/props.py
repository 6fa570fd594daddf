"""The properties: which specification cases and rules decide each of them."""
from .check import SIZE

PROPS = {}


def prop(f):
    PROPS[f.__name__.upper()] = f
    return f


LD_RULE = "value-graph equivalence with the reference integrator (loops summarised, noise variates matched by order of use)"


def whole(ev):
    """input files, command line and opened files come from the specification"""
    from .terms import mk, const
    from .lower import UNDEF
    ev.overrides["configparser.ConfigParser"] = lambda ev, a, kw: ev.instantiate("spec_cfg.Parser", [], {})
    ev.overrides["configparser.RawConfigParser"] = ev.overrides["configparser.ConfigParser"]
    ev.overrides["argparse.ArgumentParser"] = lambda ev, a, kw: ev.instantiate("spec_cfg.Args", [], {})

    def open_(ev, a, kw):
        mode = ev.val(a[1]) if len(a) > 1 else ev.val(kw["mode"]) if "mode" in kw else const("r")
        if mode.op == "c" and isinstance(mode.args[0], str) and mode.args[0].strip("t") == "r":
            return ev.instantiate("spec_cfg.File", [a[0]], {})
        return NotImplemented
    ev.overrides["builtins.open"] = open_

    def table(ev, a, kw):
        return ev.call(mk("fn", "spec_cfg.table"), [a[0]], {k: v for k, v in kw.items() if k == "usecols"}, None)
    ev.overrides["numpy.genfromtxt"] = ev.overrides["numpy.loadtxt"] = table


def traced(ev):
    whole(ev)
    ev.trace = {"run", "final_run"}


def whole_bd(ev):
    whole(ev)
    abstract_betas(ev)


def given(ev):
    """the arguments birth-death is created with, and the density it is given"""
    traced(ev)
    ev.overrides["bdld.actions.birth_death.BirthDeath"] = lambda ev, a, kw: ev.instantiate("spec_opts.Arguments", a, kw)
    ev.overrides["bdld.potential.potential.Potential.calculate_probability_density"] = lambda ev, a, kw: ev.instantiate("spec_opts.Density", list(a), kw)


@prop
def c07(c):
    c.spec("base")
    c.spec("ld")
    w = "bdld/actions/bussi_parinello_ld.py"
    for d, bc in ((1, "none"), (1, "any"), (2, "any"), (3, "any"), (1, "reflective"), (1, "periodic")):
        c.case("spec_ld.bussi", SIZE, d, bc, 1, "any", rule=LD_RULE, where=w)
    c.case("spec_ld.bussi", SIZE, 1, "none", 1, "none", False, rule=LD_RULE, where=w)
    c.case("spec_ld.bussi", 2, 1, "none", 2, "number", False, rule=LD_RULE, where=w)
    for n, d in ((1, 1), (2, 1), (1, 2)):
        c.case("spec_ld.bussi_second", n, d, rule=LD_RULE, where=w)


def abstract_betas(ev, single=False, order=None, ints=None, script=None):
    """birth-death rates as unknown functions of all positions and energies (they are decided separately)"""
    from .terms import mk, num, sub, arr, index
    from . import terms as T
    from . import arrays as A
    ev.enumerate_draws = True
    T.RV_POSITIVE[0] = bool(single) or script is not None
    ev.draw_order, ev.draw_ints = order, ints

    first = {}

    def betas(ev, args, kw):
        ps = ev.val(ev.getattr(args[0], "particles"))
        bad = []
        memo = {}
        if single is True and first.setdefault(args[0], ps) is not ps:
            # at most one event in this case: all rates vanish once the population changed
            return ev.alloc("array", arr(*[T.ZERO for _ in T.elements(first[args[0]])]))

        def per(ps):
            if ps not in memo:
                memo[ps] = per1(ps)
            return memo[ps]

        def per1(ps):
            if ps.op == "sel":
                return A.ite_any(ps.args[0], [per(x) for x in ps.args[1]])
            xs = T.elements(ps)
            if xs is None:
                bad.append(ps)
                return T.ZERO
            st = []
            for p in xs:
                st += T.elements(ev.val(ev.getattr(p, "pos"))) or [ev.val(ev.getattr(p, "pos"))]
                st.append(ev.val(ev.getattr(p, "energy")))

            def leaf(t):
                es = T.elements(t)
                if script is not None and not any(x.op == "sym" and str(x.args[0]).startswith("Y") for e in es for x in T.walk(e)):
                    # rates of the first populations are known
                    return arr(*[T.ZERO if k == 0 else T.INF if k > 0 else T.neg(T.INF) for k in script[:len(xs)]])
                out = [mk("uf", "spec:beta", num(i), *es) for i in range(len(xs))]
                if isinstance(single, tuple):
                    # at most two events in this case: of the first of these walkers in the initial population,
                    # of the second in any other
                    one = single[0] if first.setdefault(args[0], es) == es else single[1]
                    out = [x if i == one else T.ZERO for i, x in enumerate(out)]
                for x in out:
                    T.KIND.setdefault(x, "scalar")
                return arr(*out)
            c = T._canon(T.tup(*st), [3000])
            return T._apply1(T.tup(*st) if c is None else c, leaf)
        r = per(ps)
        return NotImplemented if bad else ev.alloc("array", r)
    ev.overrides["bdld.actions.birth_death.BirthDeath.calc_betas"] = betas


def orders(n):
    import itertools
    return list(itertools.permutations(range(n)))


POT = "bdld/potential/"
BCS = ((1, "none"), (1, "any"), (2, "any"), (3, "any"), (1, "reflective"), (1, "periodic"))


BD = "bdld/actions/birth_death.py"
BD_RULE = "value-graph equivalence with the reference birth-death step, rates unknown functions of the population, draws enumerated"


def bd_cases(c, labels, rule=BD_RULE, full=True):
    """every processing order (and partner draw) of two and three walkers, both modes"""
    c.spec("base")
    c.spec("bd")
    quick = c.tier == "quick"
    ints = ([0, 0, 0], [1, 1, 1]) if quick else ([0, 0, 0], [0, 1, 0], [1, 0, 1], [1, 1, 1], [0, 0, 1], [1, 1, 0])
    for o in orders(2):
        for name in ("bulk", "recalc"):
            c.case("spec_bd." + name, 2, 1, rule=rule, where=BD, labels=labels, setup=lambda ev, o=o: abstract_betas(ev, False, list(o), [0, 0, 0]), tag=str(o))
    c.case("spec_bd.bulk", 2, 2, rule=rule, where=BD, labels=labels, setup=lambda ev: abstract_betas(ev, False, [0, 1], [0, 0, 0]), tag="(0, 1)")
    for k, o in enumerate(orders(3)):
        for i in ints if full else ints[:1]:
            if not full and quick and k % 2:
                continue
            c.case("spec_bd.bulk", 3, 1, rule=rule, where=BD, labels=labels, setup=lambda ev, o=o, i=i: abstract_betas(ev, False, list(o), list(i)), tag=f"{o}{i}")
            c.case("spec_bd.recalc", 3, 1, rule=rule, where=BD, labels=labels, setup=lambda ev, o=o, i=i: abstract_betas(ev, True, list(o), list(i)), tag=f"{o}{i}")
    for k, o in enumerate(orders(3)):
        if quick and (k % 2 or not full and k):
            continue
        for a, b in ((0, 1), (0, 2), (1, 2)):
            for i in ([0, 1, 0], [1, 0, 1]):
                c.case("spec_bd.recalc", 3, 1, rule=rule, where=BD, labels=labels, setup=lambda ev, o=o, i=i, a=a, b=b: abstract_betas(ev, (o[a], o[b]), list(o), list(i)), tag=f"{o}{i}, events of {o[a]} and {o[b]}")
    for k, script in enumerate(([0, 0, 0], [1, 0, 0], [0, -1, 0])):
        for recalc in (False, True):
            # in the last of these the orders of both steps are unknown, too
            for grow, order in ((False, [0, 1]), (True, [2, 0, 1]), (False, None)):
                if recalc and (grow or order is None and k) or quick and not full and order is None:
                    continue
                c.case("spec_bd.again", 2, recalc, grow, rule=rule, where=BD, labels=labels, tag=f"{script}{order}",
                       setup=lambda ev, s=script, o=order: abstract_betas(ev, False, o, [1, 0] * 9 if o and len(o) > 2 else [0] * 9, s))


@prop
def c01(c):
    bd_cases(c, ["others keep", "population after"], "heap separation: in-place updates of one walker leave the value graphs of all others unchanged", False)
    c.spec("ld")
    r = "heap separation: positions evolve as with separately allocated arrays"
    for d in (1, 2):
        for which in ("bussi", "od"):
            c.case("spec_ld.shared_start", which, SIZE, d, rule=r, where="bdld/particle.py")
            c.case("spec_ld.add_remove", which, d, rule=r, where="bdld/particle.py", labels=["the passed position", "positions in list"])
        c.case("spec_ld.particle", d, rule=r, where="bdld/particle.py")


@prop
def c02(c):
    bd_cases(c, ["number of", "same list", "population after", "events"], BD_RULE, False)
    c.spec("cfg")
    c.spec("opts")
    r = "object identity of the walker lists all parts of a run are given"
    w = "bdld/main.py"
    for d in (1, 2):
        for v in ([], [["approximation-variant", "mult"]]):
            c.case("spec_opts.variant", d, v, "mult" if v else "orig", rule=r, where=w, setup=given, labels=["walkers"])
        c.case("spec_opts.birth_death", d, None, True, rule=r, where=w, setup=traced, labels=["shared objects"])
        c.case("spec_opts.populations", d, ["filename"], rule=r, where=w, setup=traced, labels=["shared objects"])
    c.case("spec_opts.trajectories", ["filename"], rule=r, where=w, setup=traced, labels=["shared objects"])


@prop
def c03(c):
    bd_cases(c, ["events", "population", "number"])
    c.case("spec_bd.default_rate", None, rule=BD_RULE, where=BD, setup=lambda ev: abstract_betas(ev, False, [0, 1], [0] * 9))


@prop
def c04(c):
    c.spec("base")
    c.spec("rates")
    r = "value-graph equivalence with the reference rates, population size symbolic"
    for d in (1, 2):
        for v in ("orig", "add", "mult"):
            c.case("spec_rates.rates", SIZE, d, v, rule=r, where=BD)
        for n, v in ((2, "orig"), (3, "orig"), (2, "add"), (2, "mult")):
            c.case("spec_rates.rates_again", n, d, v, rule=r, where=BD)
    for v in ("orig", "add", "mult"):
        for z in ([True, False], [False, True, False], [True, False, True], [False, False]):
            c.case("spec_rates.empty_places", z, v, rule=r, where=BD)
    for shape in ([4], [6], [2, 3], [3, 3]):
        for v in ("add", "mult"):
            c.case("spec_rates.correction", v, shape, rule="value-graph equivalence with the discretised correction", where=BD)
    for v in ("orig", "add", "mult"):
        c.case("spec_rates.no_density", v, rule="condition of the exception", where=BD)
    for shape in ([2], [4], [3, 4], [2, 2]):
        c.case("spec_rates.trapz", shape, rule="value-graph equivalence with the trapezoidal rule", where=BD)
    c.case("spec_rates.variants", rule="constant propagation", where=BD)


@prop
def c05(c):
    c.spec("base")
    c.spec("rates")
    r = "value-graph equivalence with the Gaussian kernel average, population size symbolic"
    for d in (1, 2, 3):
        c.case("spec_rates.density", SIZE, d, rule=r, where=BD)
        c.case("spec_rates.many", d, rule=r, where=BD)
        c.case("spec_rates.density_again", 2, d, rule=r, where=BD)
        c.case("spec_rates.kernel", SIZE, d, rule=r, where=BD)
    p = "bdld.actions.birth_death."
    for f in ("_walker_density_manual", "_walker_density_pdist"):
        if c.p.func(p + f):
            for d in (1, 2, 3):
                c.case("spec_rates.density_of", f, SIZE, d, rule=r, where=BD)


@prop
def c06(c):
    bd_cases(c, ["statistics"], "value-graph equivalence of the counters with the reference counts", False)
    su = lambda ev: abstract_betas(ev, False, [0, 1], [0] * 20)
    r = "value-graph equivalence with moves guarded by divisibility of the step, files as abstract row sequences"
    for a in ((2, 3, 3), (3, 2, 3), (1, 1, 1), (4, 1, 5), (5, 2, 7)):
        c.case("spec_bd.schedule", *a, rule=r, where=BD, setup=su)
    for a in (True, False):
        c.case("spec_bd.one_call", a, rule=r, where=BD, setup=su)
    for a in ((2, 4), (None, 2)):
        c.case("spec_bd.printed", *a, rule=r, where=BD, setup=su)
    c.case("spec_bd.reset", rule=r, where=BD)


@prop
def c08(c):
    c.spec("base")
    c.spec("ld")
    for d, bc in BCS:
        c.case("spec_ld.overdamped", SIZE, d, bc, 1, "any", rule=LD_RULE, where="bdld/actions/overdamped_ld.py")
    c.case("spec_ld.overdamped", SIZE, 1, "none", 1, "none", rule=LD_RULE, where="bdld/actions/overdamped_ld.py")
    for n, d in ((1, 1), (2, 2)):
        c.case("spec_ld.overdamped_second", n, d, rule=LD_RULE, where="bdld/actions/overdamped_ld.py")


@prop
def c09(c):
    c.spec("base")
    c.spec("ld")
    for which, w in (("bussi", "bdld/actions/bussi_parinello_ld.py"), ("od", "bdld/actions/overdamped_ld.py")):
        for d, bc in BCS:
            c.case("spec_ld.cached", which, SIZE, d, bc, rule="cached fields equal the potential's value graph at the final position", where=w)
        for d in (1, 2, 3):
            c.case("spec_ld.add_remove", which, d, rule="cached fields equal the potential's value graph at the final position", where=w)
            c.case("spec_ld.add_remove_second", which, d, rule="cached fields equal the potential's value graph at the final position", where=w)
            for e in (1, 2, 3, 4):
                c.case("spec_ld.wrong_dimension", which, d, e, rule="condition of the exception equals the dimension mismatch", where=w)


@prop
def c10(c):
    c.spec("base")
    c.spec("pot")
    w = POT + "potential.py"
    for d in (1, 2, 3):
        for bc in ("reflective", "periodic"):
            c.case("spec_pot.boundary", d, bc, rule="value-graph equivalence with the reference boundary condition", where=w)
        c.case("spec_pot.boundary_none", d, rule="value-graph equivalence with the reference boundary condition", where=w)


@prop
def c11(c):
    c.spec("base")
    c.spec("pot")
    r = "the force graph equals minus the symbolic derivative of the energy graph"
    w = POT + "polynomial.py"
    for n in (1, 2, 4, 5):
        c.case("spec_pot.poly1", n, rule=r, where=w)
    for n in ((2, 3), (3, 2), (5, 4)):
        c.case("spec_pot.poly2", *n, rule=r, where=w)
    for n in ((2, 2, 3), (3, 2, 2), (3, 3, 2)):
        c.case("spec_pot.poly3", *n, rule=r, where=w)
    c.case("spec_pot.poly4", rule=r, where=w)
    for n in ([3], [3, 2], [2, 2], [2, 2, 2]):
        c.case("spec_pot.poly_second", n, rule=r, where=w)
    c.case("spec_pot.mueller_second", rule=r, where=POT + "mueller_brown.py")
    c.spec("cfg")
    for orders in ([[0], [1], [2]], [[4], [0], [2]], [[0, 0], [0, 1], [1, 1], [2, 2]], [[1, 0], [0, 2], [2, 1]], [[0, 3], [1, 1]], [[2, 0], [0, 1], [1, 1]],
                   [[0, 0, 0], [0, 1, 2], [2, 0, 1], [1, 2, 0]], [[0, 2, 1], [1, 1, 0]]):
        c.case("spec_pot.poly_file", orders, len(orders) % 2 == 0, rule="value-graph equality of the coefficient array with the rows of an abstract file", where=w, setup=whole)
    c.case("spec_pot.mueller", rule=r, where=POT + "mueller_brown.py")
    c.case("spec_pot.mueller_scaled", rule=r, where=POT + "mueller_brown.py")


@prop
def c12(c):
    c.spec("base")
    c.spec("pot")
    r = "value graphs before and after other evaluations and constructions are identical"
    for case in ("independent", "independent_poly", "arguments_mueller"):
        c.case("spec_pot." + case, rule=r, where=POT)
    for d, n in ((1, 3), (2, 2), (3, 2)):
        c.case("spec_pot.arguments", d, n, rule=r, where=POT)


ROWS = "value-graph equivalence of the abstract file contents with the reference series"
ACT = "bdld/actions/"


@prop
def c15(c):
    c.spec("base")
    c.spec("out")
    w = ACT + "trajectory_action.py"
    full = c.tier != "quick"
    for write in (1, 2, 3, 4, 5) + ((6, 7) if full else ()):
        for stride in (1, 2, 3, 4, 5, 7):
            for steps in {write - 1, write, 2 * write - 1, 2 * write, 2 * write + 1, 3 * write + 2} if full else {write - 1, 2 * write, 2 * write + 1}:
                if steps > 0:
                    c.case("spec_out.trajectory", stride, write, steps, 2, 1, stride % 2 == 0, rule=ROWS, where=w)
    for d in (1, 2, 3):
        for mom in (True, False, None):
            c.case("spec_out.trajectory", 2, 3, 8, 3, d, mom, rule=ROWS, where=w)
    c.case("spec_out.trajectory", 1, 2, 3, 12, 1, False, rule=ROWS, where=w)
    c.case("spec_out.trajectory", None, 3, 7, 1, 1, None, rule=ROWS, where=w)
    c.case("spec_out.trajectory", None, None, 103, 1, 1, True, rule=ROWS, where=w)
    c.case("spec_out.trajectory", 7, None, 205, 1, 2, None, rule=ROWS, where=w)
    for wr in (1, 3):
        c.case("spec_out.no_trajectory", wr, 7, 2, 1, rule=ROWS, where=w)


@prop
def c16(c):
    c.spec("base")
    c.spec("out")
    r = "value-graph equivalence of the bin counts with indicator sums over half-open bins (last one closed)"
    w = "bdld/histogram.py"
    for bins in (1, 2, 3, 5):
        for pts in (0, 1, 2):
            if bins > 1:
                c.case("spec_out.bins1", bins, pts, rule=r, where=w)
    for n in ((2, 2), (2, 3), (3, 2)):
        c.case("spec_out.bins2", *n, rule=r, where=w)
    r = "value-graph equivalence: each recorded point is counted once, files as abstract row sequences"
    w = ACT + "histogram_action.py"
    for twrite in (1, 2, 3, 4, 5):
        for hstride in (1, 2, 3, 4, 6):
            for k, (hwrite, resets, steps) in enumerate(((None, None, 2 * twrite + 1), (2, [3], 9), (twrite, [twrite, twrite + 1], 2 * twrite), (3, [1, 2, 7], 8))):
                if c.tier != "quick" or k == (twrite + hstride) % 4 or k == 1:
                    c.case("spec_out.hist_action", 1 + hstride % 3, twrite, hstride, hwrite, resets, steps, 1 + hstride % 2, rule=r, where=w)
    c.case("spec_out.hist_action", None, 3, None, None, None, 7, 2, rule=r, where=w)
    for d in (1, 2, 3):
        c.case("spec_out.together", 4, d, 2, 5, rule=r, where=w)
    for a in ((2, 5), (3, 6)):
        c.case("spec_out.hist_quiet", *a, rule=r, where=w)
    for d in (1, 2, 3):
        c.case("spec_out.hist_refuse", d, rule="condition of the exception", where=w)


@prop
def c20(c):
    c.spec("base")
    c.spec("out")
    w = ACT + "action.py"
    top = 4 if c.tier == "quick" else 6
    for n in range(1, top + 1):
        for rec in (1, 2, 3):
            for m in (1, 2, 3, 5):
                for steps, resets in ((2 * n * rec + rec + 1, []), (n * rec * 2, [n * rec + 1]), (3 * n * rec - 1, [1, rec, n * rec - 1, n * rec + rec])):
                    c.case("spec_out.valid_data", n, rec * m, rec, steps, resets, rule="value-graph equivalence of the concatenated blocks with the complete series", where=w)


@prop
def c17(c):
    import itertools
    c.spec("base")
    c.spec("out")
    c.spec("ana")
    w = ACT + "fes_action.py"
    r = "value-graph equivalence with -kT log(count), each bin empty or positive"
    for n in (2, 3, 4):
        for k in itertools.product("p0", repeat=n):
            c.case("spec_ana.fes1", n, "".join(k), rule=r, where=w)
    for n in ((2, 2), (2, 3), (3, 2)):
        c.case("spec_ana.fes2", *n, rule=r, where=w)
    for full in ([(0, 0, 0)], [(1, 0, 2), (0, 1, 1)], [(0, 0, 1), (1, 1, 0), (1, 1, 2)]):
        c.case("spec_ana.fes3", full, rule=r, where=w)
    for g in (True, False):
        c.case("spec_ana.fes_kt", g, rule="value flow of the thermal energy", where=w)
    for a in ((1, 1, 3), (2, 4, 7), (2, 2, 4), (3, 3, 8), (2, 3, 6), (4, None, 9), (None, None, 3)):
        c.case("spec_ana.fes_action", *a, rule=ROWS, where=w)
    c.case("spec_ana.fes_refuse", rule="condition of the exception", where=w)
    for k in ("pp", "p0p"):
        c.case("spec_ana.surface_second", len(k), k, rule=r, where=w)


@prop
def c18(c):
    c.spec("base")
    c.spec("out")
    c.spec("ana")
    w = ACT + "delta_f_action.py"
    r = "value-graph equivalence with -kT log of the ratio of summed probabilities"
    t, f = True, False
    for masks in ([[t, f, f, t], [f, t, f, f]], [[f, f, t, t], [t, t, f, f], [t, t, t, t]], [[t, f, f, f], [f, t, t, t], [f, f, t, f], [t, f, f, t]]):
        c.case("spec_ana.delta_f", 4, masks, rule=r, where=w)
        for k in ("p0pp", "pp0p", "pppp", "p0p0"):
            c.case("spec_ana.delta_f_empty", masks, k, rule=r, where=w)
        c.case("spec_ana.delta_f_second", masks, masks[::-1], rule=r, where=w)
    c.case("spec_ana.delta_f_2d", rule=r, where=w)
    for a in ((1, 1, 3, 2), (1, 3, 7, 3), (2, 4, 7, 3), (2, 2, 5, 2), (3, 6, 11, 2), (2, 6, 13, 2), (4, 4, 3, 2), (None, None, 7, 2), (None, None, 4, 3), (2, None, 5, 2), (1, None, 203, 2)):
        c.case("spec_ana.delta_action", *a, rule=ROWS, where=w)
    for a in ((2, 5), (None, 5)):
        c.case("spec_ana.delta_quiet", *a, rule=ROWS, where=w)
    c.case("spec_ana.delta_refuse", rule="condition of the exception", where=w)
    for a in ((1, 1, 1), (3, 1, 2), (2, 2, 2), (1, 3, 2)):
        c.case("spec_ana.membership", *a, rule="value-graph equivalence with closed-box membership in all dimensions", where="bdld/tools.py")
    c.spec("cfg")
    c.spec("opts")
    for d in (1, 2):
        c.case("spec_opts.differences", d, ["filename"], rule="value flow from the borders of the states to the masks", where="bdld/main.py", setup=traced)


@prop
def c19(c):
    c.spec("base")
    c.spec("out")
    c.spec("ana")
    w = ACT + "particle_distribution.py"
    r = "value-graph equivalence with closed-box membership in all dimensions"
    for a in ((1, 1, 1), (3, 1, 2), (2, 2, 2), (1, 3, 2), (2, 3, 1)):
        c.case("spec_ana.membership", *a, rule=r, where="bdld/tools.py")
    for a in ((1, 1, 1), (2, 1, 2), (3, 1, 1), (2, 2, 2), (1, 3, 2)):
        c.case("spec_ana.population", *a, rule=r, where=w)
    for a in ((2, 1, 2), (1, 2, 1)):
        c.case("spec_ana.membership_second", *a, rule=r, where="bdld/tools.py")
        c.case("spec_ana.population_second", *a, rule=r, where=w)
    for a in ((1, 1, 4), (1, 3, 7), (2, 4, 9), (2, 2, 5), (3, 6, 13), (2, 6, 11), (4, 4, 3), (None, None, 3), (2, None, 7), (1, None, 203)):
        c.case("spec_ana.population_rows", *a, rule=ROWS, where=w)
    for a in ((2, 5), (None, 5)):
        c.case("spec_ana.population_quiet", *a, rule=ROWS, where=w)
    c.case("spec_ana.population_refuse", rule="condition of the exception", where=w)


@prop
def c26(c):
    c.spec("base")
    c.spec("grids")
    r = "value-graph equivalence of results and operands, heap separation of their data"
    w = "bdld/grid.py"
    for op in ("add", "sub", "mul", "div", "pow", "mod", "floordiv"):
        for shape in ([3], [2, 3], [2, 2, 2]):
            c.case("spec_grids.arithmetic", op, shape, rule=r, where=w)
    for op in ("add", "sub", "mul", "div"):
        for shape in ([3], [2, 3]):
            c.case("spec_grids.inplace", op, shape, rule=r, where=w)
    for shape in ([3], [2, 3], [2, 2, 2]):
        c.case("spec_grids.unary", shape, rule=r, where=w)
    c.case("spec_grids.incompatible", rule="condition of the exception", where=w)
    c.case("spec_grids.equality", rule=r, where=w)


@prop
def c27(c):
    c.spec("base")
    c.spec("grids")
    r = "value-graph equivalence with the equidistant reference grid"
    w = "bdld/grid.py"
    for shape in ([2], [3], [5], [2, 3], [3, 2], [4, 3], [2, 2, 3], [3, 2, 2]):
        c.case("spec_grids.construct", shape, rule=r, where=w)
        c.case("spec_grids.to_file", shape, rule=ROWS, where=w)
        c.case("spec_grids.at_nodes", shape, rule=r, where=w)
    for a in ((1, 4), (2, 3), (3, 2)):
        c.case("spec_grids.one_number", *a, rule=r, where=w)
    c.case("spec_grids.wrong_sizes", rule="condition of the exception", where=w)
    c.case("spec_grids.own_lists", rule="heap separation of the lists of the caller", where=w)
    for a in ((1, 1), (3, 2), (4, 7)):
        c.case("spec_grids.steps_exact", *a, rule=r, where=w)
    for a in ((1, 1, 2), (3, 1, 4), (5, 7, 8), (0, 1, 2)):
        c.case("spec_grids.steps_extend", *a, rule=r, where=w)
    for a in ((1, 2), (2, 3), (3, 1)):
        c.case("spec_grids.steps_number", *a, rule=r, where=w)
    r = "value-graph equivalence with the discrete convolution and the points it belongs to"
    for a in ((5, 3), (6, 3), (5, 2), (7, 4)):
        c.case("spec_grids.conv_valid", *a, rule=r, where=w)
        c.case("spec_grids.conv_same", *a, rule=r, where=w)
    c.case("spec_grids.conv_2d", rule=r, where=w)
    c.case("spec_grids.conv_refuse", rule="condition of the exception", where=w)
    r = "value-graph equivalence at shared grid points"
    for a in ((5, 3), (7, 4), (5, 2), (3, 5), (4, 4), (6, 4)):
        c.case("spec_grids.sparse1", *a, rule=r, where=w)
    c.case("spec_grids.sparse2", rule=r, where=w)
    for shape, fewer in (([6], [4]), ([5, 4], [3, 3]), ([3, 3, 3], [2, 3, 2])):
        for m in (None, "linear", "nearest"):
            c.case("spec_grids.between", shape, fewer, m, rule=r + ", interpolation an unknown function of points, values and method", where=w)


@prop
def c28(c):
    c.spec("base")
    c.spec("pot")
    r = "value-graph equivalence with the normalised Boltzmann factor"
    w = POT + "potential.py"
    for shape in ([2], [3], [5], [2, 3], [3, 2], [2, 2, 2]):
        c.case("spec_pot.boltzmann", shape, len(shape), rule=r, where=w)
    for d in (1, 2, 3):
        c.case("spec_pot.boltzmann_refuse", d, rule="condition of the exception", where=w)
        for a in ((10, 1), (1000, 0.1), (600, 1.5)):
            c.case("spec_pot.for_birth_death", d, *a, rule="value flow of the arguments", where="bdld/main.py")
        for n in (1, 2, 3):
            c.case("spec_pot.reference", n, d, rule="value-graph equivalence with the shifted energies", where=w)
    c.spec("cfg")
    c.spec("opts")
    for d in (1, 2):
        for v in ("add", "additive", "mult", "multiplicative"):
            c.case("spec_opts.variant", d, [["approximation-variant", v]], v[:3] if v[0] == "a" else "mult", rule="value flow of the arguments", where="bdld/main.py", setup=given)


@prop
def c21(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("wire")
    r = "sequence of calls on the evaluated main program"
    for kind in ("bussi-parinello", "overdamped"):
        for bd in (False, True):
            for level in range(5):
                for pop in (False, True):
                    for n in (1, 2, 5):
                        c.case("spec_wire.order", bd, level, pop, n, kind, rule=r, where="bdld/main.py", setup=traced)
    c.case("spec_wire.order", True, 4, True, 40, rule=r, where="bdld/main.py", setup=traced)


@prop
def c22(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("opts")
    r = "value flow from every option to the objects of the run, compared with directly built ones"
    w = "bdld/main.py"

    def case(*a, setup=traced):
        c.case("spec_opts." + a[0], *a[1:], rule=r, where=w, setup=setup)
    for d in (1, 2):
        for kind in ("bussi-parinello", "overdamped"):
            for mass in (True, False):
                for seeds in (True, False):
                    case("dynamics", d, kind, mass, seeds)
        for bc in (None, "periodic", "reflective"):
            case("boundary", d, bc)
        for v in (None, "orig", "original"):
            for extra in (False, True):
                case("birth_death", d, v, extra)
        for o in BD_OPTIONS:
            case("birth_death_one", d, o)
        av, cv = "approximation-variant", "correction-variant"
        for vals, want in (([], "orig"), ([[av, "orig"]], "orig"), ([[cv, "original"]], "orig"), ([[av, "add"]], "add"), ([[av, "additive"]], "add"),
                           ([[av, "mult"]], "mult"), ([[av, "multiplicative"]], "mult"), ([[cv, "add"]], "add"), ([[cv, "multiplicative"]], "mult"),
                           ([[av, "orig"], [cv, "mult"]], "orig"), ([[av, "mult"], [cv, "add"]], "mult"), ([[cv, "mult"], [av, "additive"]], "add")):
            case("variant", d, vals, want, setup=given)
        for n, opts in (("histogram", ["stride", "reset", "filename", "write-stride", "fmt"]),
                        ("surface", ["stride", "filename", "write-stride", "fmt", "plot-stride", "plot-filename", "plot-domain", "plot-title"]),
                        ("differences", ["stride", "filename", "write-stride", "fmt"]),
                        ("populations", ["stride", "filename", "write-stride", "fmt"])):
            if d == 2 and n in ("surface", "differences"):
                case(n, d, opts)
                continue
            for o in [[], opts] + [[x] for x in opts]:
                if "write-stride" in o:
                    o = sorted(set(o) | {"filename"})
                if "plot-stride" in o:
                    o = sorted(set(o) | {"plot-filename", "stride"})
                if "write-stride" in o and n == "surface":
                    o = sorted(set(o) | {"stride"})
                case(n, d, o)
    opts = ["stride", "filename", "momentum", "write-stride", "fmt"]
    for o in [[], opts] + [[x] for x in opts]:
        case("trajectories", o)
    for d in (1, 2, 3):
        for extra in (False, True):
            case("dimensions", d, extra)
    case("scaling")
    case("common")


BD_OPTIONS = ("exponential-factor", "recalculate-probabilities", "seed", "stats-stride", "stats-filename")


@prop
def c13(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("opts")
    c.spec("seeds")
    r = "dependence of all written numbers on the seeds of generators"
    w = "bdld/main.py"
    for kind in ("bussi-parinello", "overdamped"):
        for scheme in ("random-global", "random-pos", "fractions-pos"):
            for zero in (False, True):
                c.case("spec_seeds.seeded", kind, scheme, False, zero, rule=r, where=w, setup=whole)
                c.case("spec_seeds.seeded", kind, scheme, True, zero, rule=r, where=w, setup=whole_bd)
    r = "value-graph equality of the output of two runs in one process"
    for scheme in ("random-global", "random-pos"):
        for kind in ("bussi-parinello", "overdamped"):
            c.case("spec_seeds.repeated", kind, scheme, False, rule=r, where=w, setup=whole)
        c.case("spec_seeds.repeated", "overdamped", scheme, True, rule=r, where=w, setup=whole_bd)
    c.case("spec_seeds.repeated", "overdamped", "random-global", False, True, rule=r, where=w, setup=whole)


@prop
def c14(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("opts")
    c.spec("init")
    r = "value-graph equivalence of the walkers with the reference placement"
    w = "bdld/main.py"

    def case(*a):
        c.case("spec_init." + a[0], *a[1:], rule=r, where=w, setup=traced)
    for n in (1, 2, 5):
        for d in (1, 2):
            for kind in ("bussi-parinello", "overdamped"):
                case("everywhere", d, n, kind)
            for k in (1, 2, 3):
                case("chosen", d, n, k)
            if n < 3:
                case("chosen", d, n, 12)
            case("alone", d, n)
    for d in (1, 2):
        for a in ((7, [0.3, 0.4, 0.3], [3, 2, 2]), (10, [0.3, 0.4, 0.3], [3, 4, 3]), (8, [1, 2, 1], [2, 4, 2]), (1, [1, 1], [1, 0]), (3, [0, 1], [0, 3]),
                  (5, [0.5, 0.25, 0.25], [3, 1, 1]), (5, [0.2, 0.2], [3, 2]), (6, [1, 0, 2], [2, 0, 4]), (2, [1], [2]), (11, [3, 3, 3, 2], [3, 3, 3, 2]),
                  (13, [1] * 11 + [2], [1] * 11 + [2])):
            case("shared", d, *a)
    for what in ("unknown", "missing", "no fractions", "too few fractions", "too many fractions", "no positions", "no places", "no number"):
        c.case("spec_init.refused", what, rule="condition of the exception", where=w, setup=traced)


BP = ("bussi-parinello", "polynomial", "fractions-pos")
# section, option, type, required, condition
OPTIONS = (("ld", "timestep", "float", True, "nonnegative"), ("ld", "n_steps", "int", True, "positive"), ("ld", "seed", "int", False, None),
           ("ld", "kt", "float", True, "positive"), ("ld", "friction", "float", True, "nonnegative"), ("ld", "type", "str", True, None),
           ("potential", "type", "str", True, None), ("potential", "n_dim", "int", True, None), ("potential", "min", "range", True, None),
           ("potential", "max", "range", True, None), ("potential", "boundary-condition", "str", False, None),
           ("particles", "number", "int", True, "positive"), ("particles", "mass", "float", False, "positive"), ("particles", "seed", "int", False, None),
           ("particles", "initial-distribution", "str", True, None), ("particles", "pos1", "floats", None, None), ("particles", "pos2", "floats", None, None),
           ("particles", "fractions", "floats", True, None),
           ("birth-death", "stride", "int", True, "positive"), ("birth-death", "kernel-bandwidth", "range", True, None),
           ("birth-death", "recalculate-probabilities", "bool", False, None), ("birth-death", "exponential-factor", "float", False, "positive"),
           ("birth-death", "approximation-variant", "str", False, None), ("birth-death", "seed", "int", False, None),
           ("birth-death", "stats-stride", "int", False, "positive"), ("birth-death", "stats-filename", "str", False, None),
           ("trajectories", "filename", "str", False, None), ("trajectories", "stride", "int", False, "positive"), ("trajectories", "momentum", "bool", False, None),
           ("trajectories", "write-stride", "int", False, "positive"), ("trajectories", "fmt", "str", False, None),
           ("histogram", "min", "range", True, None), ("histogram", "max", "range", True, None), ("histogram", "bins", "counts", True, None),
           ("histogram", "stride", "int", False, "positive"), ("histogram", "reset", "ints", False, "positive"), ("histogram", "filename", "str", False, None),
           ("histogram", "write-stride", "int", False, "positive"),
           ("fes", "kt", "float", True, "positive"), ("fes", "stride", "int", False, "positive"), ("fes", "write-stride", "int", False, "positive"),
           ("fes", "plot-stride", "int", False, None), ("fes", "plot-domain", "floats", False, None),
           ("delta-f", "stride", "int", False, "positive"), ("delta-f", "write-stride", "int", False, "positive"),
           ("delta-f", "state1-min", "floats", None, None), ("delta-f", "state2-max", "floats", None, None),
           ("particle-distribution", "stride", "int", False, "positive"), ("particle-distribution", "write-stride", "int", False, "positive"),
           ("particle-distribution", "state1-max", "floats", None, None), ("particle-distribution", "state2-min", "floats", None, None))


@prop
def c23(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("bad")
    r = "condition of the exception on the evaluated parser and main program"
    w = "bdld/inputparser.py"

    def case(*a):
        c.case("spec_bad." + a[0], *a[1:], rule=r, where=w, setup=traced)
    for d, pot in ((1, "polynomial"), (2, "polynomial"), (3, "polynomial"), (2, "mueller-brown")):
        for kind in ("bussi-parinello", "overdamped"):
            for scheme in ("random-global", "random-pos", "fractions-pos"):
                if d < 3:
                    case("valid", d, kind, pot, scheme)
    for d in (1, 2):
        for s in ("ld", "potential", "particles", "histogram", "fes", "trajectories", "birth-death", "delta-f", "particle-distribution"):
            case("no_section", s, d)
        for s, o, t, req, cond in OPTIONS:
            if req is not None:
                case("missing", d, s, o, req, *BP)
            bad = {"float": ("text", "list"), "int": ("text", "real", "list"), "bool": ("text",), "str": (), "floats": ("text", "texts"),
                   "ints": ("text", "real", "reals", "texts")}
            if d == 1:
                bad.update(range=("text", "list"), counts=("text", "real", "list"))
            else:
                bad.update(range=("text", "texts"), counts=("text", "texts", "reals"))
            if t in ("floats", "ints") or d > 1 and t in ("range", "counts"):
                bad[t] += ("gap",)
            elif t != "str" and d == 1:
                bad[t] += ("empty",)
            for what in bad[t]:
                case("wrong", d, s, o, what, *BP)
            if cond:
                case("limit", d, s, o, cond, "list" if t == "ints" else t == "int", *BP)
        for k in range(1, 4):
            case("bandwidth", d, k) if d > 1 else None
        for k in range(d):
            case("negative_bandwidth", d, k)
        for s in ("delta-f", "particle-distribution"):
            for what in ("no maximum", "no minimum", "unpaired", "longer minimum", "longer maximum", "one state", "wrong dimension", "text", "none"):
                case("states", s, d, what)
        for s, o in (("ld", "type"), ("potential", "type"), ("potential", "boundary-condition"), ("particles", "initial-distribution"),
                     ("birth-death", "approximation-variant"), ("birth-death", "correction-variant")):
            case("unknown", d, s, o, *BP)
    for n in (-1, 0, 1, 2, 3, 4, 5, 8):
        case("dimension", n)
    for ns, ms in (([1], [1]), ([2, 2], [2, 2]), ([3], [3]), ([1], [2]), ([2], [1]), ([1, 1], [1, 2]), ([2, 2], [3, 2]), ([1, 2], [1, 2]), ([2, 2], [2]), ([2], [2, 2]), ([2, 3], [3, 2])):
        case("borders", ns, ms)
    for what in ("few bins", "many bins", "few minima", "few maxima", "many minima", "many maxima", "file stride without file", "surface stride without file",
                 "plot stride without file", "surface file without stride", "start in wrong dimension", "more fractions", "fewer fractions", "few ranges", "many ranges"):
        case("mismatch", what)


FILE_OPTIONS = {"birth-death": ("stats-stride", "stats-filename"), "trajectories": ("filename", "stride", "momentum", "write-stride", "fmt"),
                "histogram": ("filename", "stride", "write-stride", "fmt"), "fes": ("filename", "stride", "write-stride", "fmt"),
                "delta-f": ("filename", "stride", "write-stride", "fmt"), "particle-distribution": ("filename", "stride", "write-stride", "fmt")}


def file_cases(d):
    """sections with their options, together with the sections they need"""
    for s, opts in FILE_OPTIONS.items():
        if s in ("histogram", "fes"):
            sets = [[], ["filename"], ["filename", "stride"], ["filename", "fmt"], ["filename", "stride", "write-stride"], list(opts)]
            if s == "fes":
                sets = [o for o in sets if "filename" not in o or "stride" in o] + [["stride"], ["fmt"]]
        else:
            sets = [[], list(opts)] + [[o] for o in opts] + [[opts[0], o] for o in opts[1:]] + [[o for o in opts if o != "write-stride"]]
        seen = []
        for o in sets:
            if s != "birth-death" and "write-stride" in o and "filename" not in o:
                continue
            if s == "birth-death" and len(o) == 1:
                continue
            if sorted(o) in seen:
                continue
            seen.append(sorted(o))
            needs = {"histogram": ["trajectories"], "fes": ["trajectories", "histogram"], "delta-f": ["trajectories", "histogram", "fes"]}
            yield [[n, []] for n in needs.get(s, [])] + [[s, o]]
    yield [[s, list(o)] for s, o in FILE_OPTIONS.items()]
    yield [["trajectories", []], ["histogram", ["filename"]], ["fes", ["filename", "stride"]]]
    yield []


@prop
def c24(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("files")
    c.spec("out")
    c.case("spec_out.trajectory", 1, 2, 3, 12, 1, False, rule=ROWS, where=ACT + "trajectory_action.py", labels=["existing files", "one file per walker"])
    r = "file effects of the evaluated main program (backup before truncation)"
    w = "bdld/main.py"
    for d in (1, 2, 3):
        for kind in ("bussi-parinello", "overdamped"):
            for ch in file_cases(d):
                if (d == 3 or kind == "overdamped") and 0 < len(ch) < 6 and c.tier == "quick":
                    continue
                for n in (1, 5) if len(ch) == 6 and d < 3 else (3,):
                    c.case("spec_files.kept", d, n, ch, kind, rule=r, where=w, setup=whole)
                if d == 1 and ch:
                    c.case("spec_files.kept_again", d, 2, ch, kind, rule=r, where=w, setup=whole)


@prop
def c25(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("files")
    r = "value-graph equality of headers with the meaning of the columns"
    w = "bdld/main.py"
    for d in (1, 2, 3):
        for kind in ("bussi-parinello", "overdamped"):
            for m in (False, True):
                for n in (2, 3, 4):
                    if (n == 2 or d == 2) or c.tier == "thorough":
                        c.case("spec_files.columns", d, 3 if d < 3 else 2, m, n, kind, rule=r, where=w, setup=whole)
        for n in (1, 2, 3, 5):
            c.case("spec_files.population_states", d, n, rule=r, where=w, setup=whole)
        for g in (False, True):
            c.case("spec_files.number_format", d, 2, g, rule=r, where=w, setup=whole)
    for s in (1, 5, 100):
        c.case("spec_files.step_length", s, rule=r, where=w, setup=whole)


@prop
def c29(c):
    c.spec("base")
    c.spec("cfg")
    c.spec("opts")
    c.spec("passive")
    r = "value-graph equality of the walkers of a run with and a run without the output"
    w = "bdld/main.py"
    parts = ("trajectories", "histogram", "reset", "fes", "delta", "populations")
    for kind in ("bussi-parinello", "overdamped"):
        for what in parts:
            c.case("spec_passive.same", 1, kind, "fractions-pos", False, 2, [what], rule=r, where=w, setup=whole_bd)
        for what in ("trajectories", "histogram", "populations"):
            c.case("spec_passive.same", 2, kind, "fractions-pos", False, 2, [what], rule=r, where=w, setup=whole_bd)
        if kind == "overdamped" or c.tier == "thorough":
            c.case("spec_passive.same", 1, kind, "random-global", False, 3, ["delta", "populations"], rule=r, where=w, setup=whole_bd)
        for what in ("statistics",) + parts:
            c.case("spec_passive.same", 1, kind, "random-global", True, 1, [what], rule=r, where=w, setup=whole_bd)
    if c.tier == "thorough":
        for kind in ("bussi-parinello", "overdamped"):
            c.case("spec_passive.same", 2, kind, "fractions-pos", False, 2, ["delta", "populations"], rule=r, where=w, setup=whole_bd)
            c.case("spec_passive.same", 1, kind, "random-global", True, 2, ["delta", "populations", "statistics"], rule=r, where=w, setup=whole_bd)


@prop
def c30(c):
    for s in ("base", "out", "ana", "bd"):
        c.spec(s)
    r = "value-graph equality of the rows in the files after every step, files as abstract row sequences"
    full = c.tier != "quick"

    def case(name, *a, where, **kw):
        c.case(name, *a, rule=r, where=where, labels=["on disk"], **kw)
    w = ACT + "trajectory_action.py"
    for write in (1, 2, 3, 4, 5) + ((6, 7) if full else ()):
        for stride in (1, 2, 3, 4, 5, 7):
            if stride < 4 or full or (write + stride) % 3 == 0:
                case("spec_out.trajectory", stride, write, 2 * write + 3, 2, 1, stride % 2 == 0, where=w)
    for d in (1, 2, 3):
        case("spec_out.trajectory", 2, 3, 8, 3, d, d == 2, where=w)
    w = ACT + "histogram_action.py"
    for twrite in (1, 2, 3, 5):
        for hwrite in (1, 2, 3, 4):
            case("spec_out.hist_action", 1 + twrite % 2, twrite, 1 + hwrite % 2, hwrite, [hwrite + 1] if twrite % 2 else None, 9, 2, where=w)
    w = ACT + "fes_action.py"
    for a in ((1, 1, 3), (2, 4, 9), (2, 2, 4), (3, 3, 8), (2, 3, 6), (1, 4, 9)):
        case("spec_ana.fes_action", *a, where=w)
    w = ACT + "delta_f_action.py"
    for a in ((1, 1, 3, 2), (1, 3, 7, 3), (2, 4, 9, 3), (2, 2, 5, 2), (3, 6, 14, 2), (2, 6, 13, 2)):
        case("spec_ana.delta_action", *a, where=w)
    w = ACT + "particle_distribution.py"
    for a in ((1, 1, 4), (1, 3, 7), (2, 4, 9), (2, 2, 5), (3, 6, 14), (2, 6, 13)):
        case("spec_ana.population_rows", *a, where=w)
    su = lambda ev: abstract_betas(ev, False, [0, 1], [0] * 20)
    for a in ((2, 3, 3), (3, 2, 5), (1, 1, 1), (4, 1, 5), (5, 2, 7)):
        case("spec_bd.schedule", *a, where=BD, setup=su)


PYPLOT = ("figure", "gcf", "gca", "axes", "subplot", "subplots", "plot", "imshow", "ylim", "legend", "savefig", "show", "close", "get_backend")


def plots(ev):
    """figures are recorded by the specification"""
    from .terms import mk

    def via(name):
        return lambda ev, a, kw: ev.call(mk("fn", "spec_plots." + name), a, kw, None)
    for n in PYPLOT:
        ev.overrides["matplotlib.pyplot." + n] = via(n)
    ev.overrides["matplotlib.pyplot.*"] = lambda ev, a, kw: ev.instantiate("spec_plots.Nothing", [], {})
    ev.overrides["matplotlib.get_backend"] = via("get_backend")
    ev.overrides["builtins.input"] = via("asked")


@prop
def c31(c):
    c.spec("base")
    c.spec("out")
    c.spec("ana")
    c.spec("plots")
    w = ACT + "fes_action.py"
    r = "value-graph equality of what the saved figure shows with the surface"

    def case(*a):
        c.case("spec_plots." + a[0], *a[1:], rule=r, where=w, setup=plots)
    for ref in (False, True):
        for dom in (False, True):
            for title in (None, "t"):
                for o in ([0, 1], [1, 0], [0, 1, 2], [2, 0, 1], [1, 2, 0], [1, 3, 0, 2], [3, 2, 1, 0]):
                    case("line", o, ref, dom, title, len(o) == 3 or ref)
    for n in ((2, 2), (2, 3), (3, 2)):
        for dom in (False, True):
            for hole in (False, True):
                case("image", *n, dom, hole)
    case("space")
    for st, ps, steps in ((1, 1, 3), (2, 4, 9), (2, 2, 5), (3, 6, 13), (2, 3, 6), (2, None, 4), (None, None, 3)):
        for name, parts in (("fes.png", ("fes", ".png")), ("out/my.fes.pdf", ("out/my.fes", ".pdf")), ("fes", ("fes", ""))):
            case("action", st, ps, steps, name, parts, "t" if st == 2 else None, ps is not None and st != 3)
    for st in (1, 2):
        case("unnamed", st)
