"""Initial walkers."""
import numpy as np
from vspec import sym, psym, isym, claim, claim_noise, raises, same_object
from spec_cfg import FILES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from spec_opts import run, base_sections, seed, seedv
from bdld import main


def sections(n_dim, number, scheme, kind="bussi-parinello"):
    s = base_sections(1, kind)
    if n_dim != 1:
        s["potential"] = {"type": "mueller-brown"}
    s["particles"] = {"number": i(number), "initial-distribution": scheme, "mass": p("part.mass"), "seed": seed("part.seed")}
    return s


def places(made):
    return [list(q.pos) for q in made["ld"].particles]


def common(made, number):
    ps = made["ld"].particles
    claim("number of walkers", len(ps), number)
    claim("masses", [q.mass for q in ps], [psym("part.mass")] * number)
    claim("separate walkers", [[same_object(a, b) for b in ps] for a in ps], [[k == m for m in range(number)] for k in range(number)])
    claim("separate positions", [[same_object(a.pos, b.pos) for b in ps] for a in ps], [[k == m for m in range(number)] for k in range(number)])


def everywhere(n_dim, number, kind):
    made = run(sections(n_dim, number, "random-global", kind))
    ranges = [(sym("pot.min"), sym("pot.max"))] if n_dim == 1 else [(-1.5, 1.5), (-0.5, 2.5)]
    rng = np.random.default_rng(seedv("part.seed"))
    common(made, number)
    claim_noise("positions", places(made), [[rng.uniform(lo, hi) for lo, hi in ranges] for k in range(number)])


def chosen(n_dim, number, n_pos):
    s = sections(n_dim, number, "random-pos")
    for k in range(n_pos):
        s["particles"]["pos" + str(k + 1)] = part("pos" + str(k) + ".", n_dim)
    made = run(s)
    rng = np.random.default_rng(seedv("part.seed"))
    given = np.array([[sym("pos" + str(k) + "." + str(d)) for d in range(n_dim)] for k in range(n_pos)])
    common(made, number)
    claim_noise("positions", places(made), [list(rng.choice(given)) for k in range(number)])


def shared(n_dim, number, fractions, counts):
    s = sections(n_dim, number, "fractions-pos")
    given = []
    for k in range(len(fractions)):
        v = [10 * k + d + 0.5 for d in range(n_dim)]
        given.append(v)
        s["particles"]["pos" + str(k + 1)] = floats(*v)
    s["particles"]["fractions"] = floats(*fractions)
    made = run(s)
    common(made, number)
    got = places(made)
    claim("walkers per position", [len([g for g in got if g == v]) for v in given], counts)


def alone(n_dim, number):
    """one position for all"""
    s = sections(n_dim, number, "fractions-pos")
    s["particles"]["pos1"] = part("pos", n_dim)
    s["particles"]["fractions"] = Many([p("weight")])
    made = run(s)
    common(made, number)
    claim("positions", places(made), [[sym("pos" + str(d)) for d in range(n_dim)]] * number)


def start(s):
    FILES["input"] = s
    main.main()


def refused(what):
    s = sections(1, 3, "fractions-pos")
    q = s["particles"]
    if what == "unknown":
        q["initial-distribution"] = "somewhere"
    elif what == "missing":
        q.pop("initial-distribution")
    elif what == "no fractions":
        q["pos1"] = floats(1)
        q["pos2"] = floats(2)
    elif what == "too few fractions":
        q["pos1"] = floats(1)
        q["pos2"] = floats(2)
        q["fractions"] = floats(1)
    elif what == "too many fractions":
        q["pos1"] = floats(1)
        q["fractions"] = floats(1, 2)
    elif what == "no positions":
        q["fractions"] = floats(1, 2)
    elif what == "no places":
        q["initial-distribution"] = "random-pos"
    elif what == "no number":
        q.pop("number")
        q["pos1"] = floats(1)
        q["fractions"] = floats(1)
    claim("refused", raises("", start, s), True)
