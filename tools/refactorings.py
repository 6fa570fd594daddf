"""Edits that keep the behaviour: the checks have to stay quiet on them."""
LD = "bdld/actions/bussi_parinello_ld.py"
OD = "bdld/actions/overdamped_ld.py"
BD = "bdld/actions/birth_death.py"
TR = "bdld/actions/trajectory_action.py"
HI = "bdld/actions/histogram_action.py"
FE = "bdld/actions/fes_action.py"
DF = "bdld/actions/delta_f_action.py"
PD = "bdld/actions/particle_distribution.py"
AC = "bdld/actions/action.py"
HG = "bdld/histogram.py"
PA = "bdld/particle.py"
PO = "bdld/potential/potential.py"
PP = "bdld/potential/polynomial.py"
MB = "bdld/potential/mueller_brown.py"
GR = "bdld/grid.py"
MA = "bdld/main.py"
IN = "bdld/inputparser.py"
TO = "bdld/tools.py"

R = {}

R["ld_helpers"] = [(LD, '''            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
            # first part of velocity verlet
            p.mom += 0.5 * p.forces * self.dt
            p.pos += (p.mom / p.mass) * self.dt
            # apply boundary conditions if needed
            self.pot.apply_boundary_condition(p.pos, p.mom)
            # second part of velocity verlet with force evaluation
            p.energy, p.forces = self.pot.evaluate(p.pos)
            p.mom += 0.5 * p.forces * self.dt
            # second part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
''', '''            self._thermostat(p)
            self._half_kick(p)
            p.pos += (p.mom / p.mass) * self.dt
            self.pot.apply_boundary_condition(p.pos, p.mom)
            p.energy, p.forces = self.pot.evaluate(p.pos)
            self._half_kick(p)
            self._thermostat(p)

    def _thermostat(self, p) -> None:
        """half step of the thermostat"""
        noise = self.rng.standard_normal(self.pot.n_dim)
        p.mom = self.c1 * p.mom + p.c2 * noise

    def _half_kick(self, p) -> None:
        """half step of the momentum"""
        p.mom += 0.5 * p.forces * self.dt
''')]

R["ld_while"] = [(LD, '''        for p in self.particles:
            # first part of thermostat
''', '''        n_dim = self.pot.n_dim
        i = 0
        while i < len(self.particles):
            p = self.particles[i]
            i += 1
'''), (LD, '''            p.pos += (p.mom / p.mass) * self.dt
''', '''            velocity = p.mom / p.mass
            p.pos += velocity * self.dt
''')]

R["ld_split_evaluate"] = [(LD, '''            p.energy, p.forces = self.pot.evaluate(p.pos)
            p.mom += 0.5 * p.forces * self.dt
''', '''            p.energy = self.pot.energy(p.pos)
            p.forces = self.pot.force(p.pos)
            p.mom += 0.5 * self.dt * p.forces
''')]

R["ld_normal"] = [(LD, '''            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
            # first part of velocity verlet
''', '''            p.mom = p.c2 * self.rng.standard_normal(size=self.pot.n_dim) + p.mom * self.c1
            # first part of velocity verlet
''')]

R["ld_add_particle_guard"] = [(LD, '''        if overwrite:
            self.particles[partnum] = p
        else:
            if partnum == -1:
                self.particles.append(p)
            else:
                self.particles.insert(partnum, p)
''', '''        if overwrite:
            self.particles[partnum] = p
            return
        if partnum == -1:
            partnum = len(self.particles)
        self.particles.insert(partnum, p)
'''), (LD, '''        p = BpldParticle(pos, None, mass)
        p.energy, p.forces = self.pot.evaluate(p.pos)
        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)
''', '''        p = BpldParticle(pos, mass=mass)
        p.c2 = np.sqrt((1 - self.c1**2) * mass * self.kt)
        p.energy, p.forces = self.pot.evaluate(p.pos)
'''), (LD, '''    def __init__(self, *args) -> None:
        """Creates particle from base class with additional attributes"""
        super().__init__(*args)
''', '''    def __init__(self, *args, **kwargs) -> None:
        """Creates particle from base class with additional attributes"""
        super().__init__(*args, **kwargs)
''')]

R["od_locals"] = [(OD, '''            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(
                self.pot.n_dim
            )
            self.pot.apply_boundary_condition(p.pos, p.mom)
''', '''            drift = p.forces * self.dt
            noise = self.rng.standard_normal(self.pot.n_dim) * self.noise_factor
            p.pos = p.pos + (drift + noise)
            self.pot.apply_boundary_condition(p.pos, p.mom)
''')]

R["od_noise_property"] = [(OD, '''        self.noise_factor: float = np.sqrt(2 * self.dt)  # calculate only once
''', ''''''), (OD, '''    def run(self, step: int = None) -> None:
''', '''    @property
    def noise_factor(self) -> float:
        """prefactor of the noise"""
        return np.sqrt(2 * self.dt)

    def run(self, step: int = None) -> None:
''')]

R["bd_run_split"] = [(BD, '''        if step % self.stride == 0:
            self.do_birth_death()
        if self.stats_stride and step % self.stats_stride == 0:
            self.stats.print(step)
''', '''        due = not step % self.stride
        if due:
            self.do_birth_death()
        if not self.stats_stride:
            return
        if step % self.stats_stride == 0:
            self.stats.print(step)
''')]

R["bd_prob_helper"] = [(BD, '''            prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)
            event_particles''', '''            prob = self._event_probability(beta)
            event_particles'''), (BD, '''                prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)
''', '''                prob = self._event_probability(beta[i])
'''), (BD, '''    def calc_betas(self) -> np.ndarray:
''', '''    def _event_probability(self, beta):
        """probability that something happens during one step"""
        tau = self.dt * self.rate_fac
        return 1 - np.exp(-np.abs(beta) * tau)

    def calc_betas(self) -> np.ndarray:
''')]

R["bd_split_modes"] = [(BD, '''        num_part = len(self.particles)

        beta = self.calc_betas()  # initial calculation of betas
        rand = self.rng.random(num_part)  # rng for all at once

        # although this duplicates code, the "in bulk" version is faster this way
        if not self.recalc_probs:
            curr_kill_attempts''', '''        num_part = len(self.particles)

        beta = self.calc_betas()  # initial calculation of betas
        rand = self.rng.random(num_part)  # rng for all at once
        if self.recalc_probs:
            return self._events_one_by_one(num_part, beta, rand)
        return self._events_in_bulk(num_part, beta, rand)

    def _events_in_bulk(self, num_part, beta, rand):
        """all events with the same rates"""
        if True:
            curr_kill_attempts'''), (BD, '''            self.perform_moves(event_list)

        else:  # perform each accepted event directly and recalculate probs
            particle_indices''', '''            self.perform_moves(event_list)
            return event_list

    def _events_one_by_one(self, num_part, beta, rand):
        """perform each accepted event directly and recalculate probs"""
        if True:
            particle_indices''')]

R["bd_bulk_events_list"] = [(BD, '''            # lists with particles to be killed and duplicated (in order)
            dup_list: List[int] = []
            kill_list: List[int] = []

''', '''            event_list: List[Tuple[int, int]] = []
            killed = set()

'''), (BD, '''                if i not in kill_list:  # the move was accepted from the old beta!
                    rand_other = self.random_other(num_part, i)
                    if beta[i] > 0:
                        kill_list.append(i)
                        dup_list.append(rand_other)
                        self.stats.kill_count += 1
                    else:  # beta[i] < 0
                        kill_list.append(rand_other)
                        dup_list.append(i)
                        self.stats.dup_count += 1

            # perform all events in bulk
            event_list = list(zip(dup_list, kill_list))
            self.perform_moves(event_list)
''', '''                if i in killed:
                    continue
                rand_other = self.random_other(num_part, i)
                if beta[i] > 0:
                    dup, kill = rand_other, i
                    self.stats.kill_count += 1
                else:
                    dup, kill = i, rand_other
                    self.stats.dup_count += 1
                event_list.append((dup, kill))
                killed.add(kill)

            # perform all events in bulk
            self.perform_moves(event_list)
''')]

R["bd_bulk_continue"] = [(BD, '''                if i not in kill_list:  # the move was accepted from the old beta!
                    rand_other = self.random_other(num_part, i)
                    if beta[i] > 0:
                        kill_list.append(i)
                        dup_list.append(rand_other)
                        self.stats.kill_count += 1
                    else:  # beta[i] < 0
                        kill_list.append(rand_other)
                        dup_list.append(i)
                        self.stats.dup_count += 1
''', '''                if i in kill_list:
                    continue
                rand_other = self.random_other(num_part, i)
                is_death = beta[i] > 0
                kill_list.append(i if is_death else rand_other)
                dup_list.append(rand_other if is_death else i)
                if is_death:
                    self.stats.kill_count += 1
                else:
                    self.stats.dup_count += 1
''')]

R["bd_attempts_sum"] = [(BD, '''            curr_kill_attempts = np.count_nonzero(beta > 0)
''', '''            curr_kill_attempts = np.sum(beta > 0)
'''), (BD, '''            event_particles = np.where(rand <= prob)[0]
''', '''            event_particles = np.flatnonzero(prob >= rand)
''')]

R["bd_random_other"] = [(BD, '''        num = self.rng.integers(num_part - 1)
        if num >= excl:
            num += 1
        return num
''', '''        num = self.rng.integers(0, num_part - 1)
        return num if num < excl else num + 1
''')]

R["bd_betas_helpers"] = [(BD, '''        if self.approx_variant in [ApproxVariant.orig, ApproxVariant.add]:
            # add the energies and subtract the mean energy
            ene = np.array([p.energy for p in self.particles])
            beta += ene * self.inv_kt
            beta -= np.mean(beta[beta != -np.inf])
            if self.approx_variant == ApproxVariant.add:
                # if outside of approx_grid: doesn't throw error but sets correction to 0
                beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(
                    len(pos)
                )
        elif self.approx_variant == ApproxVariant.mult:
            # do not use actual energies, just add the smoothed density
            beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(len(pos))
            beta -= np.mean(beta[beta != -np.inf])
        return beta
''', '''        if self.approx_variant == ApproxVariant.mult:
            # do not use actual energies, just add the smoothed density
            return self._centered(beta + self._correction(pos))
        energies = np.array([p.energy for p in self.particles])
        beta = self._centered(beta + energies / self.kt)
        if self.approx_variant == ApproxVariant.add:
            beta = beta + self._correction(pos)
        return beta

    @staticmethod
    def _centered(beta):
        """subtract the average of the finite values"""
        return beta - np.mean(beta[beta != -np.inf])

    def _correction(self, pos):
        """correction at positions, 0 outside of the grid"""
        values = self.approx_grid.interpolate(pos, "linear", fill_value=0.0)
        return values.reshape(len(pos))
''')]

R["bd_moves_index"] = [(BD, '''        for dup, kill in event_list:
            self.particles[kill] = copy.deepcopy(self.particles[dup])
''', '''        for event in event_list:
            source = self.particles[event[0]]
            clone = copy.deepcopy(source)
            self.particles[event[1]] = clone
''')]

R["bd_kernel"] = [(BD, '''    return (
        1
        / ((2 * np.pi) ** (len(bw) / 2) * np.prod(bw))
        * np.exp(-np.sum(dist**2 / (2 * bw**2), axis=1))
    )
''', '''    norm = np.prod(np.sqrt(2 * np.pi) * bw)
    exponent = -0.5 * ((dist / bw) ** 2).sum(axis=1)
    return np.exp(exponent) / norm
''')]

R["bd_density_1d_generic"] = [(BD, '''    n_dim = pos.shape[1]
    if n_dim == 1:  # faster version for 1d, otherwise identical
        dist = pdist(pos, "sqeuclidean")
        height = 1 / (np.sqrt(2 * np.pi) * bw[0])
        gauss = height * np.exp(-dist / (2 * bw[0] ** 2))
        gauss = squareform(gauss)  # sparse representation into full matrix
        np.fill_diagonal(gauss, height)  # diagonal is 0, fill with correct value
    else:
        n_part''', '''    n_dim = pos.shape[1]
    if True:
        n_part''')]

R["bd_density_scaled"] = [(BD, '''        n_part = pos.shape[0]
        gauss_per_dim = np.empty((n_dim, (n_part * (n_part - 1)) // 2), dtype=np.double)
        heights = 1 / (np.sqrt(2 * np.pi) * bw)
        for i in range(n_dim):
            # significantly faster variant than calling the kernel function
            dist = pdist(pos[:, i].reshape(-1, 1), "sqeuclidean")
            gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))
        # multiply directions and convert to full matrix
        gauss = squareform(np.prod(gauss_per_dim, axis=0))
        np.fill_diagonal(gauss, np.prod(heights))  # diagonal is 0 from squareform
''', '''        heights = 1 / (np.sqrt(2 * np.pi) * bw)
        height = np.prod(heights)
        dist = pdist(pos / bw, "sqeuclidean")
        gauss = squareform(height * np.exp(-0.5 * dist))
        np.fill_diagonal(gauss, height)
''')]

R["bd_stats_loop"] = [(BD, '''            self.dup_count = 0
            self.dup_attempts = 0
            self.kill_count = 0
            self.kill_attempts = 0

        def print''', '''            for name in ("dup_count", "dup_attempts", "kill_count", "kill_attempts"):
                setattr(self, name, 0)

        def print'''), (BD, '''                stats = np.array(
                    [
                        step,
                        self.dup_count,
                        self.dup_attempts,
                        self.kill_count,
                        self.kill_attempts,
                    ]
                ).reshape(1, 5)
''', '''                row = [step, self.dup_count, self.dup_attempts]
                row += [self.kill_count, self.kill_attempts]
                stats = np.array([row])
''')]

R["traj_write"] = [(TR, '''        if self.filenames:
            save_times = get_valid_data(
                self.times, step, self.stride, 1, self.last_write
            )
            save_pos = get_valid_data(
                self.positions, step, self.stride, 1, self.last_write
            )
            if self.store_momentum:
                save_momentum = get_valid_data(
                    self.momentum, step, self.stride, 1, self.last_write
                )
            for i, filename in enumerate(self.filenames):
                # 3d (times, walkers, pot_dims) to 2d array (times, pot_dims) for saving
                if self.store_momentum:
                    save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i]]
                else:
                    save_data = np.c_[save_times, save_pos[:, i]]
                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
                self.last_write = step
''', '''        if not self.filenames:
            return

        def new_rows(data):
            return get_valid_data(data, step, self.stride, 1, self.last_write)

        columns = [new_rows(self.positions)]
        times = new_rows(self.times)
        if self.store_momentum:
            columns.append(new_rows(self.momentum))
        for i in range(len(self.filenames)):
            rows = np.hstack([times] + [c[:, i] for c in columns])
            with open(self.filenames[i], "ab") as out:
                np.savetxt(out, rows, fmt=self.write_fmt)
        self.last_write = step
''')]

R["traj_run"] = [(TR, '''        row = (step % self.write_stride) - 1  # saving starts at step 1
        self.times[row] = step * self.ld.dt
        self.positions[row] = [p.pos for p in self.ld.particles]
        if self.store_momentum:
            self.momentum[row] = [p.mom for p in self.ld.particles]

        if step % self.write_stride == 0:
            self.write(step)
''', '''        row = (step - 1) % self.write_stride
        self.times[row, 0] = self.ld.dt * step
        for i, p in enumerate(self.ld.particles):
            self.positions[row, i] = p.pos
            if self.store_momentum:
                self.momentum[row, i, :] = p.mom
        if row == self.write_stride - 1:
            self.write(step)
''')]

R["hist_run"] = [(HI, '''        data = self.get_traj_data(step)
        # flatten the first 2 dimensions (combine all times)
        self.histo.add(data.reshape(-1, data.shape[-1]))
        self.last_update = step
''', '''        data = self.get_traj_data(step)
        n_times, n_walkers, n_dim = data.shape
        self.histo.add(data.reshape(n_times * n_walkers, n_dim))
        self.last_update = step
'''), (HI, '''        if self.filename:
            if step:
                filename = f"{self.filename}_{step}"
            else:
                filename = self.filename
            backup_if_exists(filename)
''', '''        if self.filename:
            filename = self.filename
            if step:
                filename += "_" + str(step)
            backup_if_exists(filename)
'''), (HI, '''        if step in self.reset:
''', '''        if any(step == r for r in self.reset):
''')]

R["hist_loop_walkers"] = [(HI, '''        # flatten the first 2 dimensions (combine all times)
        self.histo.add(data.reshape(-1, data.shape[-1]))
''', '''        for positions in data:  # one time after the other
            self.histo.add(positions)
''')]

R["histogram_edges"] = [(HG, '''        return [
            np.array(
                [(bins_x[i] + bins_x[i + 1]) / 2 for i in range(0, len(bins_x) - 1)]
            )
            for bins_x in self.bins
        ]
''', '''        return [0.5 * (edges[1:] + edges[:-1]) for edges in self.bins]
'''), (HG, '''        tmp_histo, _ = np.histogramdd(data, bins=self.bins)
        self.data += tmp_histo
''', '''        counts = np.histogramdd(data, bins=self.bins)[0]
        self.data = self.data + counts
'''), (HG, '''        self.data.fill(0)
''', '''        self.data = np.zeros(self.n_points)
''')]

R["fes_masked"] = [(FE, '''    fes = np.where(
        histo.data == 0, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))
    )
    if mintozero:
        minimum = np.min(fes)
        if minimum != np.inf:  # otherwise all values become nan
            fes -= np.min(fes)
''', '''    fes = np.full(histo.data.shape, np.inf)
    visited = histo.data != 0
    fes[visited] = -kt * np.log(histo.data[visited])
    if mintozero:
        minimum = fes.min()
        if np.isfinite(minimum):  # otherwise all values become nan
            fes = fes - minimum
''')]

R["fes_errstate"] = [(FE, '''    fes = np.where(
        histo.data == 0, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))
    )
    if mintozero:
        minimum = np.min(fes)
        if minimum != np.inf:  # otherwise all values become nan
            fes -= np.min(fes)
''', '''    with np.errstate(divide="ignore"):
        fes = -kt * np.log(histo.data)
    if mintozero and np.min(fes) < np.inf:
        fes -= np.min(fes)
''')]

R["fes_run"] = [(FE, '''        if self.stride and step % self.stride == 0:
            self.fes = calculate_fes(self.histo_action.histo, self.kt)
        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
        if self.plot_stride and step % self.plot_stride == 0:
            self.plot(step)
''', '''        if self._due(self.stride, step):
            self._update()
        if self._due(self.write_stride, step):
            self.write(step)
        if self._due(self.plot_stride, step):
            self.plot(step)

    @staticmethod
    def _due(stride, step):
        return bool(stride) and step % stride == 0

    def _update(self):
        self.fes = calculate_fes(self.histo_action.histo, self.kt)
'''), (FE, '''        """Same as run() but without stride checks and passing the step number"""
        self.fes = calculate_fes(self.histo_action.histo, self.kt)
''', '''        """Same as run() but without stride checks and passing the step number"""
        self._update()
''')]

R["df_loops"] = [(DF, '''    probabilities = np.exp(-fes / float(kt))
    state_probs = [np.sum(probabilities[m]) for m in masks]
    delta_f = [
        -kt * np.log(state_probs[i] / state_probs[0])
        for i in range(1, len(state_probs))
    ]
    return delta_f
''', '''    beta = 1 / float(kt)
    state_probs = []
    for mask in masks:
        state_probs.append(np.exp(-beta * fes[mask]).sum())
    reference = state_probs[0]
    return [kt * np.log(reference / prob) for prob in state_probs[1:]]
''')]

R["df_logs"] = [(DF, '''    delta_f = [
        -kt * np.log(state_probs[i] / state_probs[0])
        for i in range(1, len(state_probs))
    ]
    return delta_f
''', '''    free = -kt * np.log(np.array(state_probs))
    return list(free[1:] - free[0])
''')]

R["df_run"] = [(DF, '''        if self.stride and step % self.stride == 0:
            row = (step % self.write_stride) // self.stride - 1
            self.delta_f[row, 0] = step * self.dt
            self.delta_f[row, 1:] = calculate_delta_f(
                self.fes_action.fes.data, self.kt, self.masks
            )
        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
''', '''        if not self.stride:
            return
        if step % self.stride == 0:
            row = (step // self.stride - 1) % len(self.delta_f)
            self.delta_f[row] = self._evaluate(step)
        if step % self.write_stride == 0:
            self.write(step)

    def _evaluate(self, step):
        """time and free energy differences"""
        values = calculate_delta_f(self.fes_action.fes.data, self.kt, self.masks)
        return np.array([step * self.dt] + list(values))
'''), (DF, '''            self.delta_f[0] = step * self.dt
            self.delta_f[1:] = calculate_delta_f(
                self.fes_action.fes.data, self.kt, self.masks
            )
        self.write(step)
''', '''            self.delta_f = self._evaluate(step)
        self.write(step)
''')]

R["pd_count"] = [(PD, '''        pos = np.array([p.pos for p in self.particles])
        bool_lists = pos_inside_ranges(pos, self.states)
        counts = [sum(state_bools) for state_bools in bool_lists]
        return counts
''', '''        counts = [0] * len(self.states)
        for p in self.particles:
            for i, state in enumerate(self.states):
                if all(low <= x <= high for x, (low, high) in zip(p.pos, state)):
                    counts[i] += 1
        return counts
''')]

R["pd_sum"] = [(PD, '''        bool_lists = pos_inside_ranges(pos, self.states)
        counts = [sum(state_bools) for state_bools in bool_lists]
        return counts
''', '''        inside = pos_inside_ranges(pos, self.states)
        return [np.count_nonzero(flags) for flags in inside]
''')]

R["valid_data"] = [(AC, '''    # omit already written points
    first_element = already_written
    # stride: also omit first n-1 elements of data
    first_element += (stride // update_stride) - 1
    # but shift back by the number that was cut off at the last write
    first_element -= (last_write % stride) // update_stride
    if last_element == 0:
        return data[first_element :: stride // update_stride]
    return data[first_element : last_element : stride // update_stride]
''', '''    every = stride // update_stride
    cut_off = (last_write % stride) // update_stride
    first_element = already_written + every - 1 - cut_off
    stop = last_element if last_element != 0 else len(data)
    return data[first_element:stop:every]
''')]

R["valid_data_steps"] = [(AC, '''    # manual check for no new points because already_written is 0 due to modulo
    if step // update_stride == last_write // update_stride:
        return data[:0]  # empty view

    write_stride = data.shape[0] * update_stride  # wrapping time of data
    already_written = (last_write % write_stride) // update_stride
    last_element = (step % write_stride) // update_stride
    # shortcut for basic case
    if stride == update_stride and already_written == 0 and last_element == 0:
        return data
    # omit already written points
    first_element = already_written
    # stride: also omit first n-1 elements of data
    first_element += (stride // update_stride) - 1
    # but shift back by the number that was cut off at the last write
    first_element -= (last_write % stride) // update_stride
    if last_element == 0:
        return data[first_element :: stride // update_stride]
    return data[first_element : last_element : stride // update_stride]
''', '''    steps = range((last_write // stride + 1) * stride, step + 1, stride)
    rows = [(s // update_stride - 1) % len(data) for s in steps]
    return data[rows]
''')]

R["particle"] = [(PA, '''        if not isinstance(pos, (list, np.ndarray)):  # single float
            pos = [pos]
        self.pos = np.array(pos, dtype=float)
        self.mom = np.empty(0)
        self.mass = mass
        self.init_momentum(mom)
''', '''        self.mass = mass
        self.pos = self._as_array(pos)
        self.init_momentum(mom)

    @staticmethod
    def _as_array(values):
        """new array from single numbers or lists"""
        if not isinstance(values, (list, np.ndarray)):  # single float
            values = [values]
        return np.array(values, dtype=float)
'''), (PA, '''            self.mom = np.array([0.0] * len(self.pos))
        else:
            if not isinstance(mom, (list, np.ndarray)):  # single float
                mom = [mom]
            self.mom = np.array(mom, dtype=float)
''', '''            self.mom = np.zeros_like(self.pos)
        else:
            self.mom = self._as_array(mom)
''')]

R["bc_unpack"] = [(PO, '''        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] = self.ranges[i][0]
                mom[i] = -mom[i]
            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
''', '''        for i in range(len(pos)):
            low, high = self.ranges[i]
            if low <= pos[i] <= high:
                continue
            pos[i] = low if pos[i] < low else high
            mom[i] *= -1
'''), (PO, '''        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] += self.ranges[i][1] - self.ranges[i][0]
            elif x > self.ranges[i][1]:
                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
''', '''        for i, (low, high) in enumerate(self.ranges):
            length = high - low
            if pos[i] < low:
                pos[i] = pos[i] + length
            if pos[i] > high:
                pos[i] = pos[i] - length
''')]
del R["bc_unpack"][1]  # a walker shifted over a whole range by round-off would be shifted back: not the same

R["bc_vector"] = [(PO, '''        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] = self.ranges[i][0]
                mom[i] = -mom[i]
            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
''', '''        low = np.array([r[0] for r in self.ranges])
        high = np.array([r[1] for r in self.ranges])
        outside = (pos < low) | (pos > high)
        pos[:] = np.clip(pos, low, high)
        mom[outside] *= -1
''')]

R["bc_dict"] = [(PO, '''        if self.boundary_condition is None:
            func = lambda pos, force: None  # do nothing
        elif self.boundary_condition == BoundaryCondition.reflective:
            func = self.apply_boundary_condition_reflective
        elif self.boundary_condition == BoundaryCondition.periodic:
            func = self.apply_boundary_condition_periodic
        else:
            raise ValueError("Unknown boundary condition set")
        self.apply_boundary_condition = func
''', '''        functions = {
            None: self._no_boundary_condition,
            BoundaryCondition.reflective: self.apply_boundary_condition_reflective,
            BoundaryCondition.periodic: self.apply_boundary_condition_periodic,
        }
        if self.boundary_condition not in functions:
            raise ValueError("Unknown boundary condition set")
        self.apply_boundary_condition = functions[self.boundary_condition]

    @staticmethod
    def _no_boundary_condition(pos, mom) -> None:
        """do nothing"""
''')]

R["fields_slice"] = [(PO, '''        if self.n_dim == 1:
            return ["x"]
        elif self.n_dim == 2:
            return ["x", "y"]
        elif self.n_dim == 3:
            return ["x", "y", "z"]
        else:
            raise ValueError("Class can't be used for more than 3 dimensions")
''', '''        names = ["x", "y", "z"]
        if not 1 <= self.n_dim <= len(names):
            raise ValueError("Class can't be used for more than 3 dimensions")
        return names[: self.n_dim]
''')]

R["poly_horner"] = [(PP, '''        return self.polyval(*pos, self.coeffs)
''', '''        value = self.polyval(*pos, self.coeffs)
        return value
'''), (PP, '''        return np.array([-self.polyval(*pos, self.der[d]) for d in range(self.n_dim)])
''', '''        force = np.empty(self.n_dim)
        for d, der in enumerate(self.der):
            force[d] = -1.0 * self.polyval(*pos, der)
        return force
'''), (PP, '''        if self.n_dim == 1:
            return poly.polyval
        elif self.n_dim == 2:
            return poly.polyval2d
        elif self.n_dim == 3:
            return poly.polyval3d
        else:
            raise ValueError("No polyval function for more than 3 dimensions")
''', '''        functions = [poly.polyval, poly.polyval2d, poly.polyval3d]
        if self.n_dim > 3 or self.n_dim < 1:
            raise ValueError("No polyval function for more than 3 dimensions")
        return functions[self.n_dim - 1]
''')]

R["mb_helper"] = [(MB, '''        pot = 0.0
        A = self.A
        x = pos[0]
        y = pos[1]
        for i in range(4):
            pot += A[i] * np.exp(
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
        pot += pot_shift
        return pot
''', '''        return sum(self._terms(pos)) + pot_shift

    def _terms(self, pos):
        """the four Gaussians"""
        x, y = pos[0], pos[1]
        terms = []
        for Ai, ai, bi, ci, xi, yi in zip(self.A, a, b, c, x0, y0):
            dx, dy = x - xi, y - yi
            terms.append(Ai * np.exp(ai * dx * dx + bi * dx * dy + ci * dy * dy))
        return terms
''')]

R["mb_evaluate_delegates"] = [(MB, '''        # from Omar's bdls-code
        pot = 0.0
        force = np.array([0.0, 0.0])
        A = self.A
        x = pos[0]
        y = pos[1]
        for i in range(4):
            exp_tmp1 = np.exp(
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
            pot += A[i] * exp_tmp1
            force[0] += (
                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
            )
            force[1] += (
                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
            )
        pot += pot_shift
        return (pot, force)
''', '''        return (self.energy(pos), self.force(pos))
''')]

R["grid_ops"] = [(GR, '''        new_grid = self.copy_empty()
        if isinstance(other, (float, int, np.ndarray)):
            new_grid.data = oper(self.data, other)
        elif isinstance(other, self.__class__):
            if not (self.n_points == other.n_points) or not (
                self.ranges == other.ranges
            ):
                raise ValueError(
                    "Performing math operations on grids with different points is ambiguous"
                )
            new_grid.data = oper(self.data, other.data)
        else:
            raise ValueError(
                f"Performing math operations with grid and {type(other)} is not supported"
            )
        return new_grid
''', '''        if isinstance(other, self.__class__):
            if not self._same_points(other):
                raise ValueError(
                    "Performing math operations on grids with different points is ambiguous"
                )
            operand = other.data
        elif isinstance(other, (float, int, np.ndarray)):
            operand = other
        else:
            raise ValueError(
                f"Performing math operations with grid and {type(other)} is not supported"
            )
        result = self.copy_empty()
        result.data = oper(self.data, operand)
        return result
''')]

R["grid_points"] = [(GR, '''        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
            np.prod(self.n_points), self.n_dim
        )
''', '''        mesh = np.meshgrid(*self.axes(), indexing="ij")
        return np.column_stack([m.ravel() for m in mesh])
'''), (GR, '''        return [
            np.linspace(*self.ranges[i], self.n_points[i]) for i in range(self.n_dim)
        ]
''', '''        return [np.linspace(r[0], r[1], n) for r, n in zip(self.ranges, self.n_points)]
''')]

R["grid_steps"] = [(GR, '''    return [(r[1] - r[0]) / (n_points[i] - 1) for i, r in enumerate(ranges)]
''', '''    stepsizes = []
    for (start, end), n in zip(ranges, n_points):
        stepsizes.append((end - start) / (n - 1))
    return stepsizes
'''), (GR, '''    sparse_n_points = [
        n if n <= max_points[i] else max_points[i] for i, n in enumerate(g.n_points)
    ]
''', '''    sparse_n_points = [min(n, m) for n, m in zip(g.n_points, max_points)]
''')]

R["grid_convolve"] = [(GR, '''    if mode == "same":  # easiest case, mirrors grid of first argument
        grid = g1.copy_empty()
    if mode == "valid":  # need''', '''    if mode == "full":
        raise NotImplementedError
    if mode == "same":  # easiest case, mirrors grid of first argument
        grid = g1.copy_empty()
    elif mode == "valid":  # need'''), (GR, '''    if mode == "full":
        raise NotImplementedError
    grid.data = conv
''', '''    grid.data = conv
''')]

R["density_steps"] = [(PO, '''        prob = np.exp(-fes / kt)
        # normalize with volume element from stepsizes
        prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
        return prob
''', '''        prob = np.exp(fes * (-1 / kt))
        volume = 1.0
        for s in prob.stepsizes:
            volume *= s
        norm = np.sum(prob.data) * volume
        return prob / norm
''')]

R["main_loop"] = [(MA, '''    for step in range(1, n_steps + 1):
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        action.final_run(n_steps)

    print("Finished without errors")
''', '''    run_actions(actions_list, n_steps)
    print("Finished without errors")


def run_actions(actions_list, n_steps: int) -> None:
    """Main loop and final actions"""
    step = 0
    while step < n_steps:
        step += 1
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        action.final_run(step)
''')]

R["main_fractions"] = [(MA, '''        counts = [int(frac * options["number"]) for frac in normalized_fractions]
        counts[0] += options["number"] - np.sum(counts)  # rounding offset
''', '''        number = options["number"]
        counts = []
        for frac in normalized_fractions:
            counts.append(int(frac * number))
        counts[0] += number - sum(counts)  # rounding offset
'''), (MA, '''        for i, pos in enumerate(init_pos_choices):
            for _ in range(counts[i]):
                ld.add_particle(pos, mass)
''', '''        for pos, count in zip(init_pos_choices, counts):
            for _ in range(count):
                ld.add_particle(pos, mass)
''')]

R["main_setup_table"] = [(MA, '''    if options["type"] == "bussi-parinello":
        return BussiParinelloLD(
            pot,
            options["timestep"],
            options["friction"],
            options["kt"],
            options["seed"],
        )
    elif options["type"] == "overdamped":
''', '''    if options["type"] == "bussi-parinello":
        return BussiParinelloLD(
            pot=pot,
            dt=options["timestep"],
            kt=options["kt"],
            friction=options["friction"],
            seed=options["seed"],
        )
    elif options["type"] == "overdamped":
'''), (MA, '''    bc = options["boundary-condition"]
    if bc == "reflective":
        pot.boundary_condition = potential.potential.BoundaryCondition.reflective
    elif bc == "periodic":
        pot.boundary_condition = potential.potential.BoundaryCondition.periodic
    return pot
''', '''    conditions = {
        "reflective": potential.potential.BoundaryCondition.reflective,
        "periodic": potential.potential.BoundaryCondition.periodic,
    }
    if options["boundary-condition"] in conditions:
        pot.boundary_condition = conditions[options["boundary-condition"]]
    return pot
''')]

R["main_bd_dims"] = [(MA, '''    if ld.pot.n_dim == 1:
        bd_bw = np.array([options["kernel-bandwidth"]])
    else:
        bd_bw = np.array(options["kernel-bandwidth"])
''', '''    bd_bw = np.atleast_1d(options["kernel-bandwidth"])
'''), (MA, '''        min_points_gaussian = int(np.ceil((r[1] - r[0]) / (0.5 * bd_bw[dim])))
        # the large number of points is only used to calculate the correction once
        tmp_grid_points = max(501, min_points_gaussian)
        if tmp_grid_points % 2 == 0:
            tmp_grid_points += 1  # odd number is better for convolution
        n_grid_points.append(tmp_grid_points)
''', '''        length = r[1] - r[0]
        points = max(501, int(np.ceil(2 * length / bd_bw[dim])))
        n_grid_points.append(points + 1 if points % 2 == 0 else points)
''')]

R["parser_parse"] = [(IN, '''        if self.keytype == str:
            val = section.get(self.key)
        try:
            if self.keytype == float:
                val = section.getfloat(self.key)
            if self.keytype == int:
                val = section.getint(self.key)
            if self.keytype == bool:
                val = section.getboolean(self.key)
        except ValueError as e:
            raise OptionError(
                f"could not be converted to {self.keytype.__name__}",
                self.key,
                section.name,
            ) from e
        # parsing of lists is a bit more complicated
        if isinstance(self.keytype, list):
            val = section.get(self.key)
            try:
                val = [self.keytype[0](x) for x in val.split(",")]
            except ValueError as e:
                raise OptionError(
                    f"could not be converted to list of {self.keytype[0].__name__}",
                    self.key,
                    section.name,
                ) from e
        if self.condition:
            if not self.condition.function(val):
                raise OptionError(self.condition.desc, self.key, section.name)
        return val
''', '''        val = self._convert(section)
        if self.condition and not self.condition.function(val):
            raise OptionError(self.condition.desc, self.key, section.name)
        return val

    def _convert(self, section):
        """value of the option in the requested type"""
        if isinstance(self.keytype, list):
            name = f"list of {self.keytype[0].__name__}"
        else:
            name = self.keytype.__name__
        try:
            if isinstance(self.keytype, list):
                return [self.keytype[0](x) for x in section.get(self.key).split(",")]
            elif self.keytype == float:
                return section.getfloat(self.key)
            elif self.keytype == int:
                return section.getint(self.key)
            elif self.keytype == bool:
                return section.getboolean(self.key)
            return section.get(self.key)
        except ValueError as e:
            raise OptionError(
                f"could not be converted to {name}", self.key, section.name
            ) from e
''')]

R["parser_optional_loop"] = [(IN, '''        if infile.has_section("birth-death"):
            self.parse_birth_death(infile["birth-death"])
        if infile.has_section("trajectories"):
            self.parse_trajectories(infile["trajectories"])
        if infile.has_section("histogram"):
            self.parse_histogram(infile["histogram"])
        if infile.has_section("fes"):
            self.parse_fes(infile["fes"])
        if infile.has_section("delta-f"):
            self.parse_delta_f(infile["delta-f"])
        if infile.has_section("particle-distribution"):
            self.parse_particle_distribution(infile["particle-distribution"])
''', '''        optional = {
            "birth-death": self.parse_birth_death,
            "trajectories": self.parse_trajectories,
            "histogram": self.parse_histogram,
            "fes": self.parse_fes,
            "delta-f": self.parse_delta_f,
            "particle-distribution": self.parse_particle_distribution,
        }
        for name, parse in optional.items():
            if infile.has_section(name):
                parse(infile[name])
''')]

R["parser_missing_first"] = [(IN, '''        val = self.default
        if self.key not in section.keys():
            if self.compulsory:
                e = "Option not found, but it is required"
                raise OptionError(e, self.key, section.name)
            return val
''', '''        val: OptionType = None
        found = self.key in section
        if not found and self.compulsory:
            raise OptionError(
                "Option not found, but it is required", self.key, section.name
            )
        if not found:
            return self.default
''')]

R["parser_sections"] = [(IN, '''        for required_sec in ["ld", "potential", "particles"]:
            if required_sec not in infile.sections():
                raise SectionError(required_sec)
''', '''        missing = [s for s in ("ld", "potential", "particles") if not infile.has_section(s)]
        if missing:
            raise SectionError(missing[0])
'''), (IN, '''        if self.potential["n_dim"] == 1:
            options.append(InputOption("kernel-bandwidth", float, True, Input.positive))
        else:
            options.append(
                InputOption("kernel-bandwidth", [float], True, Input.all_positive)
            )
''', '''        one_dim = self.potential["n_dim"] == 1
        options.append(
            InputOption(
                "kernel-bandwidth",
                float if one_dim else [float],
                True,
                Input.positive if one_dim else Input.all_positive,
            )
        )
''')]

R["tools_all"] = [(TO, '''    n_dim = pos.shape[-1]
    inside_list: List[np.ndarray] = []
    for state in ranges:
        inside = True
        for i in range(n_dim):  # 'bitwise and' over all dimensions
            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])
        inside_list.append(inside)
    return inside_list
''', '''    inside_list: List[np.ndarray] = []
    for state in ranges:
        low = np.array([r[0] for r in state])
        high = np.array([r[1] for r in state])
        inside_list.append(np.all((pos >= low) & (pos <= high), axis=1))
    return inside_list
''')]

R["main_states_helper"] = [(MA, '''    min_list = inputparser.get_all_numbered_values(options, "state", "-min")
    max_list = inputparser.get_all_numbered_values(options, "state", "-max")
    state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
    if len(state_ranges) < 2:
''', '''    state_ranges = get_state_ranges(options)
    if not len(state_ranges) >= 2:
'''), (MA, '''    min_list = inputparser.get_all_numbered_values(options, "state", "-min")
    max_list = inputparser.get_all_numbered_values(options, "state", "-max")
    state_ranges = inputparser.min_max_to_ranges(min_list, max_list)

    return ParticleDistributionAction(
''', '''    state_ranges = get_state_ranges(options)

    return ParticleDistributionAction(
'''), (MA, '''def setup_delta_f(options''', '''def get_state_ranges(options: Dict):
    """ranges of the states given in the options"""
    limits = [
        inputparser.get_all_numbered_values(options, "state", suffix)
        for suffix in ("-min", "-max")
    ]
    return inputparser.min_max_to_ranges(*limits)


def setup_delta_f(options''')]

R["main_optional"] = [(MA, '''        if config.birth_death:
            actions_dict["birth-death"] = setup_birth_death(config.birth_death, ld)
        if config.trajectories:
            actions_dict["trajectories"] = setup_trajectories(config.trajectories, ld)
        if config.histogram:
            actions_dict["histogram"] = setup_histogram(
                config.histogram, actions_dict["trajectories"]  # type: ignore
            )
        if config.fes:
            actions_dict["fes"] = setup_fes(config.fes, actions_dict["histogram"])  # type: ignore
        if config.delta_f:
            actions_dict["delta-f"] = setup_delta_f(config.delta_f, actions_dict["fes"])  # type: ignore
        if config.particle_distribution:
            actions_dict["particle-distribution"] = setup_particle_distribution(
                config.particle_distribution, actions_dict["ld"]  # type: ignore
            )
''', '''        chain = [
            ("birth-death", config.birth_death, setup_birth_death, "ld"),
            ("trajectories", config.trajectories, setup_trajectories, "ld"),
            ("histogram", config.histogram, setup_histogram, "trajectories"),
            ("fes", config.fes, setup_fes, "histogram"),
            ("delta-f", config.delta_f, setup_delta_f, "fes"),
            (
                "particle-distribution",
                config.particle_distribution,
                setup_particle_distribution,
                "ld",
            ),
        ]
        for name, options, setup, needed in chain:
            if options:
                actions_dict[name] = setup(options, actions_dict[needed])
''')]

R["main_reference"] = [(MA, '''    ref = histo_action.traj_action.ld.pot.calculate_reference(
        histo_action.histo.points()
    )
    return FesAction(
        histo_action,
        options["stride"],
        options["filename"],
        options["write-stride"],
        options["fmt"],
        options["plot-stride"],
        options["plot-filename"],
        options["plot-domain"],
        options["plot-title"],
        ref,
        options["kt"],
    )
''', '''    pot = histo_action.traj_action.ld.pot
    ref = pot.calculate_reference(histo_action.histo.points())
    names = {
        "stride": "stride",
        "filename": "filename",
        "write_stride": "write-stride",
        "write_fmt": "fmt",
        "plot_stride": "plot-stride",
        "plot_filename": "plot-filename",
        "plot_domain": "plot-domain",
        "plot_title": "plot-title",
        "kt": "kt",
    }
    kwargs = {arg: options[key] for arg, key in names.items()}
    return FesAction(histo_action, ref=ref, **kwargs)
''')]

R["main_random"] = [(MA, '''        for _ in range(options["number"]):
            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]
            ld.add_particle(pos, mass)
''', '''        for _ in range(options["number"]):
            pos = []
            for limits in ld.pot.ranges:
                pos.append(rng.uniform(low=limits[0], high=limits[1]))
            ld.add_particle(pos=pos, mass=mass)
''')]

R["reference_array"] = [(PO, '''        fes = np.fromiter((self.energy(p) for p in pos), np.float64, len(pos))
        if mintozero:
            fes -= np.min(fes)
        return fes
''', '''        fes = np.array([self.energy(p) for p in pos])
        if not mintozero:
            return fes
        return fes - fes.min()
''')]

R["periodic_locals"] = [(PO, '''        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] += self.ranges[i][1] - self.ranges[i][0]
            elif x > self.ranges[i][1]:
                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
''', '''        for i, (low, high) in enumerate(self.ranges):
            length = high - low
            x = pos[i]
            if x < low:
                pos[i] = x + length
            elif x > high:
                pos[i] = x - length
''')]

R["periodic_where"] = [(PO, '''        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] += self.ranges[i][1] - self.ranges[i][0]
            elif x > self.ranges[i][1]:
                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
''', '''        low, high = np.array(self.ranges).T
        length = high - low
        pos += length * (pos < low) - length * (pos > high)
''')]

R["pd_run"] = [(PD, '''        if self.stride and step % self.stride == 0:
            row = (step % self.write_stride) // self.stride - 1
            self.counts[row, 0] = step
            self.counts[row, 1:] = self.count_particles()
''', '''        if self.stride and step % self.stride == 0:
            row = (step % self.write_stride) // self.stride - 1
            self.counts[row] = [step, *self.count_particles()]
'''), (PD, '''        if self.filename:
            if self.stride:
                save_data = get_valid_data(
                    self.counts, step, self.stride, self.stride, self.last_write
                )
                self.last_write = step
            else:  # reshape to rows to save as single line
                save_data = self.counts.reshape((1, -1))
            with open(self.filename, "ab") as f:
                np.savetxt(
                    f,
                    save_data,
                    delimiter=" ",
                    newline="\\n",
                    fmt=self.write_fmt,
                )
''', '''        if not self.filename:
            return
        if self.stride:
            rows = get_valid_data(
                self.counts, step, self.stride, self.stride, self.last_write
            )
        else:
            rows = np.atleast_2d(self.counts)
        self.last_write = step
        with open(self.filename, "ab") as f:
            np.savetxt(f, rows, fmt=self.write_fmt)
''')]

R["bd_set_killed"] = [(BD, '''            kill_list: List[int] = []
''', '''            kill_list: List[int] = []
            killed = set()
'''), (BD, '''                if i not in kill_list:  # the move was accepted from the old beta!
''', '''                if i not in killed:  # the move was accepted from the old beta!
'''), (BD, '''                    if beta[i] > 0:
                        kill_list.append(i)
''', '''                    killed |= {i if beta[i] > 0 else rand_other}
                    if beta[i] > 0:
                        kill_list.append(i)
''')]

R["bd_moves_fields"] = [(BD, '''            self.particles[kill] = copy.deepcopy(self.particles[dup])
''', '''            twin = copy.copy(self.particles[dup])
            for name, value in vars(twin).items():
                setattr(twin, name, copy.deepcopy(value))
            self.particles[kill] = twin
''')]

R["ld_init_order"] = [(LD, '''            p.energy, p.forces = self.pot.evaluate(p.pos)
            p.mom += 0.5 * p.forces * self.dt
            # second part of thermostat
''', '''            energy, forces = self.pot.evaluate(p.pos)
            p.forces = forces
            p.mom = p.mom + forces * (0.5 * self.dt)
            p.energy = energy
            # second part of thermostat
''')]

R["bd_recalc_signs"] = [(BD, '''                if beta[i] > 0:
                    self.stats.kill_attempts += 1
                if beta[i] < 0:
                    self.stats.dup_attempts += 1

''', '''                excess = beta[i]
                self.stats.kill_attempts += int(excess > 0)
                self.stats.dup_attempts += int(excess < 0)

''')]
