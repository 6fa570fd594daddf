#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

LOW = "The two stable tests construct a particle; nothing in the suite that can run here touches this code, and any test would sample "
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), _t=technique, _n=note))


VG = "gated value-graph analysis (value numbering with loop summaries) against a reference specification"

prop("C01", "Walkers never share mutable state",
     "After any sequence of walkers being added, removed, moved, killed or duplicated, every walker owns its position, momentum and force data: changing one walker never changes another. "
     "A duplicate starts with exactly the state (position, momentum, mass, energy, forces, thermostat factor) of its original and evolves independently from then on, and arrays handed in by a caller as starting positions are never modified by the simulation.",
     ["histories", "inputs"], "all histories of add / remove / birth-death / integration steps, all positions and dimensions 1-3",
     LOW + "a few histories; sharing only shows when one of the sharers is moved in place later.",
     ["bdld/actions/birth_death.py", "bdld/particle.py", "bdld/actions/bussi_parinello_ld.py", "bdld/actions/overdamped_ld.py"],
     [("copying of walkers in birth-death moves", "bdld/actions/birth_death.py: do_birth_death / perform_moves"), ("copying of the passed position", "bdld/particle.py: Particle.__init__")],
     ["positions of all walkers after each step", "arrays passed by the caller"])

prop("C02", "Birth-death keeps the population size, in the one shared walker list",
     "Every birth-death event pairs exactly one kill with exactly one duplication of another, existing walker, so the number of walkers never changes and every slot keeps holding a complete walker. "
     "Integrator, birth-death and output actions see the same population at all times: the moves act on the very list the integrator propagates.",
     ["histories", "inputs"], "all rates, random numbers, processing orders and population sizes; all sequences of steps",
     LOW + "a few random sequences.",
     ["bdld/actions/birth_death.py", "bdld/main.py"],
     [("pairing of kill and duplicate", "bdld/actions/birth_death.py: do_birth_death"), ("one list object shared", "bdld/main.py: setup_birth_death")],
     ["walker list of the integrator after birth-death steps"])

prop("C03", "Birth-death events: who dies, who is copied, with which probability",
     "In a birth-death step each walker triggers an event with probability 1 - exp(-|rate| * time between attempts), where the time between attempts includes stride, time step and rate factor. "
     "A walker with positive excess rate is replaced by a copy of a uniformly chosen other walker, one with negative rate replaces a uniformly chosen other walker; walkers are processed in random order. "
     "With bulk processing all rates are those from before the step, walkers already killed in the step are skipped and the chosen moves are then carried out one after another in the order of their choice; with recalculation, each event takes effect (and rates are recomputed) before the next walker is considered.",
     ["inputs", "histories"], "all rates, all random numbers, all population sizes and both modes",
     LOW + "a few random streams; a swapped comparison or a biased partner choice is statistically invisible in short runs.",
     ["bdld/actions/birth_death.py"],
     [("event probability", "bdld/actions/birth_death.py: BirthDeath.calc_prob / run"), ("event selection", "bdld/actions/birth_death.py: do_birth_death"), ("partner choice", "bdld/actions/birth_death.py: random_other")],
     ["list of duplicate/kill pairs of a step", "population after the step"])

prop("C04", "Birth-death rates follow the chosen approximation",
     "For each walker the rate is: (original) the log of the kernel density estimate plus energy over kT, minus the mean of this over all walkers; (additive) the same plus a correction interpolated linearly at the walker position; (multiplicative) the log of the density plus the interpolated correction, minus the mean of this over all walkers. "
     "The additive correction is minus the log of the ratio of the kernel-smoothed to the plain equilibrium density plus the density-weighted integral of that log; the multiplicative one is minus the log of the kernel-smoothed density; outside the grid the correction is zero.",
     ["inputs", "configurations"], "all walker positions and energies, population sizes, bandwidths, temperatures, densities and the three variants",
     LOW + "single populations; a wrong term only biases sampled statistics.",
     ["bdld/actions/birth_death.py"],
     [("rates", "bdld/actions/birth_death.py: calc_betas"), ("corrections", "bdld/actions/birth_death.py: calc_additive_correction, calc_multiplicative_correction")],
     ["rates of all walkers"])

prop("C05", "Walker density is the Gaussian kernel density estimate",
     "The density at each walker is the average over all walkers (itself included) of a normalised Gaussian product kernel with the given per-dimension bandwidths, up to a normalisation common to all walkers, independently of which internal algorithm computes it. "
     "The kernel used on grids is the same normalised Gaussian, centred.",
     ["inputs", "configurations"], "all positions, population sizes, dimensions and bandwidths, both density algorithms",
     LOW + "single populations, and the two algorithms switch on population size.",
     ["bdld/actions/birth_death.py"],
     [("kernel density estimate", "bdld/actions/birth_death.py: walker_density_pdist, walker_density_manual, walker_density"), ("kernel", "bdld/actions/birth_death.py: calc_kernel")],
     ["densities at the walkers", "kernel values"])

prop("C06", "Birth-death runs exactly on its stride and its statistics count every event",
     "Birth-death moves are attempted exactly at the steps divisible by its stride and never in between. "
     "Attempt and success counts of births and deaths are cumulative over all steps: every walker considered counts once as an attempt of its sign, every event performed counts once as a success, and the statistics file gets one row with time and these numbers per statistics stride.",
     ["histories", "configurations"], "all step counts, strides, rates and random numbers",
     LOW + "few strides.",
     ["bdld/actions/birth_death.py"],
     [("stride", "bdld/actions/birth_death.py: BirthDeath.run"), ("counters", "bdld/actions/birth_death.py: BirthDeathStats, do_birth_death")],
     ["statistics file", "population between strides"])

prop("C07", "Langevin step is the Bussi-Parrinello scheme",
     "One Langevin step advances every walker by: half thermostat step, half momentum kick, full position drift with the walker's own mass, boundary condition, half kick with the new force, half thermostat step. "
     "The thermostat uses exp(-friction*dt/2) and a noise amplitude sqrt((1-c1^2)*mass*kT) with fresh independent normal variates per half step, walker and dimension.",
     ["inputs", "configurations", "histories"], "all potentials, positions, momenta, masses, time steps, frictions, temperatures, any number of walkers, dimensions 1-3",
     LOW + "a few trajectories; errors in the thermostat show only as slightly wrong statistics.",
     ["bdld/actions/bussi_parinello_ld.py"], [("integration step", "bdld/actions/bussi_parinello_ld.py: BussiParinelloLD.run / step")], ["position and momentum of every walker after a step"])

prop("C08", "Overdamped step is Euler-Maruyama",
     "One overdamped step moves every walker by force*dt plus sqrt(2*dt) times fresh independent standard normal noise per walker and dimension, then applies the boundary condition; the thermal energy of this dynamics is 1.",
     ["inputs", "configurations", "histories"], "all potentials, positions, time steps, any number of walkers, dimensions 1-3",
     LOW + "a few trajectories.",
     ["bdld/actions/overdamped_ld.py"], [("integration step", "bdld/actions/overdamped_ld.py: OverdampedLD.run")], ["position of every walker after a step"])

prop("C09", "Stored energies and forces belong to the walker's current position",
     "Whenever other parts look at a walker (after insertion, after a step including boundary conditions, after birth-death), its stored energy and forces are those of the potential at its current position, and its thermostat factor matches its mass. "
     "Positions of the wrong dimension are refused and leave the population unchanged.",
     ["histories", "inputs"], "all potentials, positions, boundary conditions, histories of insertion, removal, steps and birth-death moves",
     LOW + "a few histories; stale forces only cause drift.",
     ["bdld/actions/bussi_parinello_ld.py", "bdld/actions/overdamped_ld.py", "bdld/actions/birth_death.py"],
     [("refresh after the move", "run / step of the integrators"), ("initial evaluation", "add_particle")], ["energy and forces of each walker"])

prop("C10", "Boundary conditions act per dimension and leave inner walkers alone",
     "Reflective: a coordinate outside its range is put on the nearest bound and its momentum component is inverted; periodic: a coordinate outside its range is shifted by one range length back towards the range and momenta stay. "
     "Coordinates inside the range, other dimensions, and everything when no condition is set remain untouched.",
     ["inputs", "configurations"], "all positions, momenta, ranges and dimensions 1-3",
     LOW + "a few positions.",
     ["bdld/potential/potential.py"], [("boundary conditions", "bdld/potential/potential.py: Potential boundary methods")], ["positions and momenta after applying the condition"])

prop("C11", "Forces are the negative gradient of the energy",
     "For every built-in potential (polynomial in 1 to 3 dimensions, Mueller-Brown, with any coefficients) the force at any point is exactly minus the gradient of the energy at that point, and evaluating a point returns the pair (energy, force). "
     "The polynomial energy is the sum of coefficient times powers of the coordinates, with each coefficient belonging to its documented exponents.",
     ["inputs", "configurations"], "all points and all coefficients",
     LOW + "a few points and coefficients.",
     ["bdld/potential/polynomial.py", "bdld/potential/mueller_brown.py", "bdld/potential/potential.py"],
     [("energy and force", "energy / force / evaluate of the potentials")], ["energy and force values"])

prop("C12", "Potentials are pure and instances independent",
     "Evaluating energy, force or density never changes the potential or the position passed in, so repeated evaluation gives the same value. "
     "Creating or evaluating one potential object never changes another one, including potentials with different scaling or coefficients created earlier in the same process, and does not change the arrays passed to create it.",
     ["histories", "inputs"], "all histories of creating and evaluating potentials",
     LOW + "single instances.",
     ["bdld/potential/polynomial.py", "bdld/potential/mueller_brown.py", "bdld/potential/potential.py"],
     [("instance state", "constructors of the potentials")], ["values of earlier potentials after creating later ones"])

prop("C13", "All randomness comes from generators seeded by the input",
     "Every random number that influences initial positions, dynamics, birth-death moves or output is drawn from a generator seeded by the seed options of the input, any integer seed including 0. "
     "No global random state, time, process identity, hash order or unseeded generator enters, so the same input with seeds gives the same run.",
     ["configurations", "histories"], "all inputs with seeds and all executions",
     "A rerun test samples one input; unseeded sources on rarely used branches stay hidden.",
     ["bdld/main.py", "bdld/actions/birth_death.py", "bdld/actions/bussi_parinello_ld.py", "bdld/actions/overdamped_ld.py"],
     [("seeded generators", "constructors of the actions, init_particles")], ["generator construction and every draw"])

prop("C14", "Initial population is placed as requested",
     "Exactly the requested number of walkers is created, all with the requested mass, at positions according to the chosen scheme: uniform random draws over the full potential range in every dimension, a random choice among all given positions for each walker, or the given fractions of the walkers at the given positions (fractions are normalised, walkers left over by rounding start at the first position). "
     "Schemes that are unknown or incomplete are refused instead of silently placing nothing.",
     ["inputs", "configurations"], "all particle numbers, ranges, positions, fractions and dimensions",
     LOW + "one scheme and number.",
     ["bdld/main.py"], [("placement", "bdld/main.py: init_particles")], ["positions of all walkers before the first step"])

prop("C15", "Trajectory output is complete, in order and without duplicates",
     "For every walker the trajectory output contains each recorded point exactly once, in time order, with the time of that step and the position and momentum the walker had then, for every combination of output stride, write stride and run length. "
     "Later moves of the walkers never change points already recorded.",
     ["histories", "configurations"], "all strides, write strides, run lengths, population sizes",
     LOW + "one combination; off-by-one at the last partial block needs a specific run length.",
     ["bdld/actions/trajectory_action.py"],
     [("buffer and flush", "bdld/actions/trajectory_action.py: TrajectoryAction.run / final_run / write")], ["trajectory files"])

prop("C16", "The histogram counts every recorded point exactly once",
     "The histogram starts at zero and accumulates every point of every walker that was recorded since the last update exactly once, in the bin whose half-open interval contains it, no matter how histogram, trajectory and write strides combine. "
     "Resetting zeroes all counts without losing later points, and points outside the range are not counted.",
     ["histories", "configurations"], "all strides, run lengths, population sizes, positions and bin layouts",
     LOW + "one stride combination.",
     ["bdld/histogram.py", "bdld/actions/histogram_action.py", "bdld/actions/trajectory_action.py"],
     [("accumulation", "bdld/histogram.py: Histogram.add, HistogramAction.run")], ["histogram counts and files"])

prop("C17", "The free energy surface is -kT log of the histogram, shifted to zero minimum",
     "The free energy of a bin is minus kT times the log of its count, shifted such that the smallest value is zero when the shift is requested; empty bins give infinity and never the minimum. "
     "kT is the one given for the surface, or otherwise the one of the dynamics.",
     ["inputs", "configurations"], "all histograms and temperatures",
     LOW + "one histogram.",
     ["bdld/histogram.py", "bdld/actions/fes_action.py"],
     [("conversion", "bdld/histogram.py: calculate_fes; FesAction")], ["free energy values and files"])

prop("C18", "Free energy differences compare the configured state regions",
     "The free energy difference of a state is minus kT times the log of the ratio of its summed probabilities exp(-F/kT) to those of the first state, over exactly the grid points inside each state's closed box in every dimension. "
     "The file has one row per calculated time, each exactly once and in order.",
     ["inputs", "configurations", "histories"], "all surfaces, temperatures, state boxes, strides",
     LOW + "one surface.",
     ["bdld/actions/delta_f_action.py"],
     [("masks and sums", "bdld/actions/delta_f_action.py: DeltaFAction.run, get_state_mask")], ["delta-F rows"])

prop("C19", "State populations count exactly the walkers inside each state box",
     "The number reported for a state is the number of walkers whose position is inside the closed box in all dimensions at that time. "
     "One row per stride is written, each exactly once, in order and with the right time.",
     ["inputs", "configurations", "histories"], "all walker positions, state boxes, dimensions and strides",
     LOW + "one population.",
     ["bdld/actions/particle_distribution.py", "bdld/tools.py"],
     [("membership", "bdld/tools.py: pos_inside_ranges"), ("rows", "bdld/actions/particle_distribution.py")], ["state population rows"])

prop("C20", "Buffered time series are written without loss or repetition",
     "For each buffered output the blocks taken out of the buffer over the whole run, including the final partial block, concatenate to the complete series: every recorded row once, in order, none from an earlier cycle of the buffer. "
     "Asking for data when nothing new was recorded yields nothing.",
     ["histories", "configurations"], "all steps, strides and buffer lengths",
     LOW + "few step numbers.",
     ["bdld/actions/action.py"], [("block extraction", "bdld/actions/action.py: get_valid_data")], ["blocks returned at each call"])

prop("C21", "Every action runs once per step, in order, and finishes once",
     "The simulation performs exactly the configured number of steps; in each step every configured action runs once in the fixed order integrator, birth-death, trajectory, histogram, surface and analysis, with the step number counting from 1. "
     "After the last step every action's final part runs exactly once, also when the last step coincides with a stride.",
     ["histories", "configurations"], "all step numbers and all combinations of configured actions",
     "main cannot be run by the existing tests; only one configuration would be sampled.",
     ["bdld/main.py"], [("main loop", "bdld/main.py: main"), ("action list", "bdld/main.py: setup")], ["sequence of action calls"])

prop("C22", "Every input option reaches the parameter it documents",
     "Each documented option of each input section is read with its documented type and default and determines exactly the quantity it documents; no option is ignored, swapped with another or taken from another section. "
     "Quantities shared between actions (time step, thermal energy, potential, walkers) are the same for all of them.",
     ["configurations", "inputs"], "all option values and combinations of sections",
     "A test sets a few values, often the default; a dropped or swapped option is invisible then.",
     ["bdld/main.py", "bdld/inputparser.py"], [("wiring", "bdld/main.py: setup_*"), ("option table", "bdld/inputparser.py")], ["parameters of the created actions"])

prop("C23", "Invalid input is rejected with an error, never silently misread",
     "Missing mandatory sections or options, values of the wrong type, values violating a documented condition, unknown kinds and mutually inconsistent options stop the program with the parser's error naming the option; they are never ignored or replaced by a default. "
     "Valid values are converted exactly.",
     ["inputs", "configurations"], "all option values and presence combinations",
     "The existing parser tests sample a few values.",
     ["bdld/inputparser.py", "bdld/main.py"], [("conversion and conditions", "bdld/inputparser.py: InputOption, Input")], ["exceptions raised", "parsed values"])

prop("C24", "Existing output files are never overwritten",
     "Before any data file (trajectories, histograms, free energies, free energy differences, populations, birth-death statistics) is first written, an existing file of that name is moved out of the way as a backup, for every kind of output and every walker's file; within one run data is only appended to files that the run itself initialised. "
     "Output that was not requested creates no file.",
     ["configurations", "histories"], "all combinations of outputs and existing files",
     "Tests would need every output kind with existing files; the helper package is not even available here.",
     ["bdld/actions/*.py", "bdld/main.py", "bdld/histogram.py"], [("initialisation with backup", "constructors of the actions")], ["file operations of a run"])

prop("C25", "File headers name exactly the columns that follow",
     "For every output file the header lists as many column names as each data row has values, in the same order, and the values recorded as constants in the header are the parameters of the run. "
     "Rows of trajectories, histograms, free energies, differences and populations are written in the requested number format (14 digits wide with 9 decimals if none is given).",
     ["configurations", "inputs"], "all dimensions, numbers of states, momenta on/off",
     "Tests would compare one configuration.",
     ["bdld/actions/*.py", "bdld/main.py"], [("headers", "constructors of the actions")], ["header and rows of each file"])

prop("C26", "Grid arithmetic is elementwise, non-destructive and checks compatibility",
     "Adding, subtracting, multiplying, dividing or raising grids gives a new grid with the same points and the elementwise result in the written operand order, leaving both operands unchanged; in-place forms change only the left grid's data. "
     "Combining grids that do not have the same points is refused.",
     ["inputs", "histories"], "all grids, numbers and arrays",
     LOW + "one pair of grids.",
     ["bdld/grid.py"], [("operators", "bdld/grid.py: Grid.__add__ ...")], ["results and operands"])

prop("C27", "Grids cover their ranges with equidistant points matching their data",
     "A grid built from ranges and point numbers or step sizes has equidistant points per dimension including both range ends, point list and data in the same order, and setting data of another shape is refused. "
     "Interpolation, convolution and sparsification return values belonging to the grid points they claim, leaving the original unchanged.",
     ["inputs", "configurations"], "all ranges, numbers of points, step sizes, dimensions 1-3",
     LOW + "one grid.",
     ["bdld/grid.py"], [("construction", "bdld/grid.py: from_npoints, from_stepsizes, Grid"), ("operations", "bdld/grid.py: convolve, sparsify, interpolate")], ["points, axes and data"])

prop("C28", "Equilibrium density is the normalised Boltzmann density",
     "The equilibrium density on a grid is exp(-energy/kT) divided by its integral over the grid, for the given kT. "
     "The density handed to the birth-death approximation variants covers the full range of the potential in every dimension at the temperature of the dynamics.",
     ["inputs", "configurations"], "all potentials, temperatures and grids",
     LOW + "one potential.",
     ["bdld/potential/potential.py", "bdld/main.py"], [("density", "bdld/potential/potential.py: calculate_probability_density")], ["density values"])

prop("C29", "Output and analysis never influence the dynamics",
     "Recording trajectories, histograms, free energies, free energy differences or state populations never changes a walker, the potential or a random number generator used by the dynamics. "
     "A run with and without any of these outputs therefore gives the same walkers.",
     ["histories", "configurations"], "all combinations of analysis actions and all histories",
     "Tests would compare one configuration.",
     ["bdld/actions/trajectory_action.py", "bdld/actions/histogram_action.py", "bdld/actions/fes_action.py", "bdld/actions/delta_f_action.py", "bdld/actions/particle_distribution.py"],
     [("read-only analysis", "run / final_run of the analysis actions")], ["walker state before and after analysis"])

prop("C30", "Output files are complete up to the last write step at any moment",
     "If a run is interrupted after any step, the files on disk already hold every row due up to the last multiple of the write stride: recorded walker positions in the trajectories, free energy differences and state populations; "
     "histogram and free energy files of all earlier write strides and one birth-death statistics row per multiple of its stride are there too. Nothing of this waits for the end of the run or sits in the buffer of a file that is kept open.",
     ["crash_points", "histories"], "interruption after every step, all strides and write strides, all numbers of walkers",
     "A test would have to stop a run after every step of every combination of strides.",
     ["bdld/actions/trajectory_action.py", "bdld/actions/delta_f_action.py", "bdld/actions/particle_distribution.py", "bdld/actions/histogram_action.py", "bdld/actions/fes_action.py", "bdld/actions/birth_death.py"],
     [("periodic writing", "run / write of the output actions")], ["rows of the files after each step"])

prop("C31", "Free energy plots show the calculated surface",
     "A plot of a one-dimensional surface shows the calculated free energies (labelled FES) and, if given, the reference (labelled ref) over the grid points; a plot of a two-dimensional one shows the first coordinate horizontally and the second vertically with the matching ranges. "
     "The shown energies are those of plot-domain if given; without it no finite value of a one-dimensional surface is cut off. Plots are saved under plot-filename at the end and, with plot-stride, under the same name with _step before the extension at its multiples, "
     "always with the surface of that time; a run with a plot file name never waits for input, and without one nothing is plotted.",
     ["inputs", "configurations", "histories"], "all surfaces including infinite values, references, domains, file names and strides; dimensions 1-3",
     "Tests can hardly judge pictures, and none plots.",
     ["bdld/actions/fes_action.py"], [("drawing", "bdld/actions/fes_action.py: plot_fes"), ("file names and times", "bdld/actions/fes_action.py: FesAction.run, plot")],
     ["curves, images and limits of the saved figures", "names of the saved figures"])

prop("C32", "Sampling converges to the equilibrium distribution",
     "In the limit of long runs and small time steps the walkers sample the Boltzmann distribution of the potential, with and without birth-death moves.",
     ["inputs", "histories"], "all potentials, time steps, temperatures, population sizes and run lengths",
     "A test samples finite runs and can only compare statistics within error bars.",
     ["bdld/actions/bussi_parinello_ld.py", "bdld/actions/overdamped_ld.py", "bdld/actions/birth_death.py"], [("dynamics", "step functions of the integrators")], ["histograms of long runs"])

prop("C33", "Birth-death moves speed up equilibration",
     "Populations in separated wells reach their equilibrium ratio faster with birth-death moves than by the dynamics alone.",
     ["inputs", "histories"], "all potentials with barriers, populations and rate factors",
     "A statement about relaxation times.",
     ["bdld/actions/birth_death.py"], [("moves", "bdld/actions/birth_death.py: do_birth_death")], ["populations over time"])

prop("C34", "Results are stable under floating point rounding",
     "Energies, forces, densities, rates and free energies computed in double precision stay close to their exact values for all inputs of reasonable size, and no intermediate overflows or underflows.",
     ["inputs"], "all positions, population sizes, bandwidths and temperatures",
     "Rounding depends on every operand.",
     ["bdld/potential/polynomial.py", "bdld/actions/birth_death.py", "bdld/actions/fes_action.py"], [("arithmetic", "all numerical code")], ["computed values"])

NA = {
    "C32": "a limit statement about stochastic processes: neither the time step error nor ergodicity can be bounded from the source; what the source does decide (each step is the documented integrator with the right "
           "noise amplitude, the rates and event probabilities are the documented ones) is C03-C08",
    "C33": "a statement about relaxation times of a stochastic process, which depend on the potential and the run; no property of the source decides it",
    "C34": "the analysis works in real arithmetic; the values are sums and exponentials over unboundedly many walkers with unbounded inputs, so no rounding error bound is in reach of a static argument here",
}


def main():
    from sa.props import PROPS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd=f"python3-vt run_check.py {i} --tier quick", thorough_cmd=f"python3-vt run_check.py {i} --tier thorough",
                               technique=p["_t"] or VG, level="other",
                               level_note=p["_n"] or "static analysis: every claim is decided on the value graph of the current source for all values of the quantified inputs "
                               "(real arithmetic, documented numpy semantics); obligations the analysis cannot decide are reported as open and never as violations"))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd="python3-vt -c 'import sys'", checks=checks, not_applicable=na)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
