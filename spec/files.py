"""Output files of complete runs."""
import numpy as np
from vspec import sym, psym, isym, claim, raises, rows, headers, written, clobbered, backups, formats, instances
from spec_cfg import FILES, TABLES, Num, Many, Flag, Bad, f, p, i, ints, floats, part
from bdld import main


def frozen(n_dim, n_steps, kind="bussi-parinello"):
    """a run in which walkers stay where they are"""
    s = {"ld": {"type": kind, "timestep": Num(0), "n_steps": i(n_steps), "seed": i(7)}}
    if kind == "bussi-parinello":
        s["ld"]["kt"] = p("ld.kt")
        s["ld"]["friction"] = p("ld.friction")
    if n_dim == 1:
        s["potential"] = {"type": "polynomial", "n_dim": i(1), "coeffs": part("q", 2), "min": Num(0), "max": Num(4)}
    else:
        s["potential"] = {"type": "polynomial", "n_dim": i(n_dim), "coeffs-file": "coeffs", "min": floats(*[0] * n_dim), "max": floats(*[4] * n_dim)}
        TABLES["coeffs"] = [[0] * n_dim + [sym("q0")], [1] * n_dim + [sym("q1")]]
    s["particles"] = {"number": i(2), "seed": i(8), "initial-distribution": "fractions-pos", "pos1": floats(*[0.5] * n_dim), "pos2": floats(*[2.5] * n_dim), "fractions": floats(1, 1)}
    return s


def box(n_dim):
    """limits and bins of the histogram, different in every dimension"""
    return [-d for d in range(n_dim)], [4 + 2 * d for d in range(n_dim)], [2 + d for d in range(n_dim)]


def add(s, n_dim, section, options):
    """section with the given options"""
    if section == "birth-death":
        o = {"stride": i(50), "kernel-bandwidth": p("bw") if n_dim == 1 else Many([p("bw" + str(d)) for d in range(n_dim)])}
        v = {"stats-stride": i(2), "stats-filename": "stats"}
    elif section == "trajectories":
        o = {}
        v = {"filename": "traj", "stride": i(1), "momentum": Flag(True), "write-stride": i(3), "fmt": "%8.3f"}
    elif section == "histogram":
        lo, hi, n = box(n_dim)
        o = {"min": Num(lo[0]), "max": Num(hi[0]), "bins": i(n[0])} if n_dim == 1 else {"min": floats(*lo), "max": floats(*hi), "bins": ints(*n)}
        v = {"filename": "histo", "stride": i(1), "write-stride": i(2), "fmt": "%8.3f"}
    elif section == "fes":
        o = {"kt": p("fes.kt")}
        v = {"filename": "fes", "stride": i(1), "write-stride": i(2), "fmt": "%8.3f"}
    else:
        o = {}
        for k in (1, 2):
            o["state" + str(k) + "-min"] = floats(*[2 * k - 2] * n_dim)
            o["state" + str(k) + "-max"] = floats(*[2 * k - 0.25] * n_dim)
        v = {"filename": "delta" if section == "delta-f" else "pop", "stride": i(2), "write-stride": i(4), "fmt": "%8.3f"}
    for k in options:
        o[k] = v[k]
    s[section] = o


def run(s):
    FILES["input"] = s
    main.main()


def names(section, options, n_steps):
    if section == "birth-death":
        return ["stats"] if "stats-stride" in options and "stats-filename" in options else []
    if "filename" not in options:
        return []
    if section == "trajectories":
        return ["traj.0", "traj.1"]
    if section in ("histogram", "fes"):
        n = "histo" if section == "histogram" else "fes"
        return [n] + [n + "_" + str(t) for t in range(1, n_steps + 1) if "write-stride" in options and t % 2 == 0]
    return ["delta" if section == "delta-f" else "pop"]


def kept(n_dim, n_steps, chosen, kind="bussi-parinello"):
    """chosen: [section, options] pairs; other files stay, existing ones are backed up before"""
    s = frozen(n_dim, n_steps, kind)
    want = []
    for section, options in chosen:
        add(s, n_dim, section, options)
        want = want + names(section, options, n_steps)
    run(s)
    claim("existing files are kept", clobbered(), [])
    claim("files", written(), sorted(want))
    claim("backups", sorted(set(backups())), sorted(want))


def kept_again(n_dim, n_steps, chosen, kind="bussi-parinello"):
    """a second run with the same input finds the files of the first"""
    for k in range(2):
        s = frozen(n_dim, n_steps, kind)
        for section, options in chosen:
            add(s, n_dim, section, options)
        if k == 1:
            before = [x for x in backups()]
        run(s)
    claim("existing files are kept", clobbered(), [])
    claim("backups of the second run", sorted(backups()[len(before):]), sorted(before))


def refused_before(n_dim, what):
    """nothing is written for input that is refused by the parser"""
    s = frozen(n_dim, 2)
    add(s, n_dim, "trajectories", ["filename"])
    add(s, n_dim, "histogram", ["filename"])
    s["histogram"].pop(what)
    claim("refused", raises("SystemExit", run, s), True)



def grid(n_dim):
    """centres of the bins, the last coordinate changes fastest"""
    lo, hi, n = box(n_dim)
    pts = [[]]
    for d in range(n_dim):
        pts = [q + [lo[d] + (hi[d] - lo[d]) / n[d] * (k + 1 / 2)] for q in pts for k in range(n[d])]
    return pts


def columns(n_dim, n_steps, momentum, n_states, kind="bussi-parinello"):
    """names and constants in the headers of all files against the rows below"""
    s = frozen(n_dim, n_steps, kind)
    s["particles"]["pos2"] = floats(*[2.5 + d for d in range(n_dim)])
    add(s, n_dim, "birth-death", ["stats-stride", "stats-filename"])
    add(s, n_dim, "trajectories", ["filename", "momentum"] if momentum else ["filename"])
    add(s, n_dim, "histogram", ["filename", "write-stride"])
    add(s, n_dim, "fes", ["filename", "write-stride", "stride"])
    add(s, n_dim, "delta-f", ["filename", "stride"])
    add(s, n_dim, "particle-distribution", ["filename", "stride"])
    for k in range(3, n_states + 1):
        for q in ("delta-f", "particle-distribution"):
            s[q]["state" + str(k) + "-min"] = floats(*[-k - d for d in range(n_dim)])
            s[q]["state" + str(k) + "-max"] = floats(*[k + d for d in range(n_dim)])
    run(s)
    for n in written():
        h = headers(n)
        claim("one header in " + n, len(h), 1)
        claim("columns of " + n, [len(r) for r in rows(n)], [len(h[0][0])] * len(rows(n)))
    x = ["x", "y", "z"][:n_dim]
    for w in range(2):
        want = ["time"] + ["pos_" + d + "." + str(w) for d in x]
        if momentum:
            want = want + ["mom_" + d + "." + str(w) for d in x]
        claim("trajectory columns", headers("traj." + str(w))[0][0], want)
        q = instances("BussiParinelloLD|OverdampedLD")[-1].particles[w]
        for r in rows("traj." + str(w)):
            claim("values in the trajectory columns", r[1:], [v for v in q.pos] + ([v for v in q.mom] if momentum else []))
    lo, hi, n = box(n_dim)
    for name in ["histo"] + ["histo_" + str(t) for t in range(2, n_steps + 1, 2)]:
        h = headers(name)[0]
        claim("histogram columns", [q for q in h[0]], x + ["histo_count"])
        claim("points of the histogram", [r[:n_dim] for r in rows(name)], grid(n_dim))
        claim("histogram limits", [[h[1][v + "_min"], h[1][v + "_max"], h[1][v + "_n_bins"]] for v in x], [[lo[d], hi[d], n[d]] for d in range(n_dim)])
    for name in ["fes"] + ["fes_" + str(t) for t in range(2, n_steps + 1, 2)]:
        h = headers(name)[0]
        claim("surface columns", [q for q in h[0]], x + ["fes"])
        claim("points of the surface", [r[:n_dim] for r in rows(name)], grid(n_dim))
        got = [[h[1][v + "_min"], h[1][v + "_max"], h[1][v + "_n_bins"]] for v in x]
        half = [(hi[d] - lo[d]) / n[d] / 2 for d in range(n_dim)]
        edges = [[lo[d], hi[d], n[d]] for d in range(n_dim)]
        centres = [[lo[d] + half[d], hi[d] - half[d], n[d]] for d in range(n_dim)]
        claim("surface limits", got == edges or got == centres, True)
    h = headers("delta")[0]
    claim("difference columns", [q for q in h[0]], ["time"] + ["delta_f.1-" + str(k) for k in range(2, n_states + 1)])
    claim("thermal energy of the differences", h[1]["kt"], psym("fes.kt"))
    h = headers("pop")[0]
    claim("population columns", [q for q in h[0]][1:], ["n_particles_" + str(k) for k in range(n_states)])
    claim("time of the populations", "time" in h[0][0], True)
    h = headers("stats")[0]
    claim("statistics columns", [q for q in h[0]][1:], ["dup_succ", "dup_attempts", "kill_succ", "kill_attempts"])
    claim("statistics constants", [h[1]["kt"], [b for b in h[1]["kernel_bandwidth"]]], [psym("ld.kt") if kind == "bussi-parinello" else 1, [psym("bw")] if n_dim == 1 else [psym("bw" + str(d)) for d in range(n_dim)]])


def number_format(n_dim, n_steps, given):
    """requested or default format of every row"""
    s = frozen(n_dim, n_steps)
    add(s, n_dim, "trajectories", ["filename"])
    add(s, n_dim, "histogram", ["filename", "write-stride"])
    add(s, n_dim, "fes", ["filename", "write-stride", "stride"])
    add(s, n_dim, "delta-f", ["filename", "stride"])
    add(s, n_dim, "particle-distribution", ["filename", "stride"])
    chosen = {"traj.0": "%9.1f", "traj.1": "%9.1f", "histo": "%9.2f", "histo_2": "%9.2f", "fes": "%9.3f", "fes_2": "%9.3f", "delta": "%9.4f", "pop": "%9.5f"}
    if given:
        for section, name in (("trajectories", "traj.0"), ("histogram", "histo"), ("fes", "fes"), ("delta-f", "delta"), ("particle-distribution", "pop")):
            s[section]["fmt"] = chosen[name]
    run(s)
    for n in sorted(chosen):
        f = formats(n)
        claim("format of " + n, f, [chosen[n] if given else "%14.9f"] * len(f))


def population_states(n_dim, n_states):
    s = frozen(n_dim, 2)
    q = {"filename": "pop"}
    for k in range(1, n_states + 1):
        q["state" + str(k) + "-min"] = floats(*[-k - d for d in range(n_dim)])
        q["state" + str(k) + "-max"] = floats(*[k + 2 * d for d in range(n_dim)])
    s["particle-distribution"] = q
    run(s)
    c = headers("pop")[0][1]
    claim("states in the header", [c["state_" + str(k)] for k in range(n_states)],
          [str([(-k - d, k + 2 * d) for d in range(n_dim)]) for k in range(1, n_states + 1)])


def step_length(stride):
    """time between birth-death steps in the header of the statistics"""
    s = frozen(1, 1)
    s["ld"]["timestep"] = p("ld.dt")
    s["birth-death"] = {"stride": i(stride), "kernel-bandwidth": p("bw"), "stats-stride": i(5), "stats-filename": "stats"}
    run(s)
    claim("time step", headers("stats")[0][1]["timestep"], psym("ld.dt") * stride)
