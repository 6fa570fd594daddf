From be5adbf4f80f925d6566c8d73d681d7a9835b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 01/22] fix: kill overpopulated walkers when recalculating
 probabilities

Events are (duplicated, killed) pairs. With recalculate-probabilities the
two were swapped, so walkers with positive rate were duplicated and walkers
with negative rate killed.
---
 bdld/actions/birth_death.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..67a0428 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
-                        self.stats.kill_count += 1
-                    elif beta[i] < 0:
                         curr_event = (rand_other, i)
+                        self.stats.kill_count += 1
+                    else:  # beta[i] < 0
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From 6f75c3128afaa3fc3a9d89f7966559d97ac00160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 02/22] fix: start histograms without the count used to create
 the bins

---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..4cc257d 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # remove the count of the arbitrary value
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 5b297afe74b0244dd3170c7eca5370152858ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 03/22] fix: add every trajectory point exactly once to the
 histogram

The last write of the trajectories was used to select the new points. It is
not updated if no trajectories are written, and the final write happens before
the histogram is finalized: the last points were either counted twice (number
of steps is a multiple of the write-stride) or lost (otherwise). Points
from before a reset were also counted after it.
---
 bdld/actions/histogram_action.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..619674e 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0  # step of the last position that was handled
         print()
 
     def run(self, step: int):
@@ -103,43 +104,44 @@ class HistogramAction(Action):
         :param step: current simulation step
         """
         if step % self.update_stride == 0:
-            data = self.get_traj_data(step)
-            # flatten the first 2 dimensions (combine all times)
-            self.histo.add(data.reshape(-1, data.shape[-1]))
+            self.add_traj_data(step)
         if self.write_stride and step % self.write_stride == 0:
             self.write(step)
         if step in self.reset:
             logging.info("Reset of histogram at step %s", step)
             self.histo.clear()
+            self.last_update = step
 
     def final_run(self, step: int):
         """Same as run without stride checks
 
+        :param step: current simulation step
+        """
+        self.add_traj_data(step)
+        if self.filename:
+            self.write()
+
+    def add_traj_data(self, step: int) -> None:
+        """Add the trajectory data since the last update to the histogram
+
         :param step: current simulation step
         """
         data = self.get_traj_data(step)
         # flatten the first 2 dimensions (combine all times)
         self.histo.add(data.reshape(-1, data.shape[-1]))
-        if self.filename:
-            self.write()
+        self.last_update = step
 
     def get_traj_data(self, step: int) -> np.ndarray:
         """Get the right data from the trajectory array
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
         return get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
 
     def write(self, step: int = None):
-- 
2.43.0


From a1aebac827e3ccef083eae8d876968020cc16959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 04/22] fix: use seed 0 for the birth-death rng if specified

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..0c881f4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From 8574f0bfa7008d761636212c538bc9bbbfee3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 05/22] fix: do not scale the Mueller-Brown coefficients of all
 instances

The scaling was applied to the module level coefficients, so every
further instance changed the potential of all existing ones.
---
 bdld/potential/mueller_brown.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..0b4c102 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor  # do not change the values of other instances
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -64,6 +62,7 @@ class MuellerBrownPotential(Potential):
         # from Omar's bdls-code
         pot = 0.0
         force = np.array([0.0, 0.0])
+        A = self.A
         x = pos[0]
         y = pos[1]
         for i in range(4):
@@ -89,6 +88,7 @@ class MuellerBrownPotential(Potential):
         :return: energy
         """
         pot = 0.0
+        A = self.A
         x = pos[0]
         y = pos[1]
         for i in range(4):
@@ -107,6 +107,7 @@ class MuellerBrownPotential(Potential):
         :return force: array with force per direction
         """
         force = np.array([0.0, 0.0])
+        A = self.A
         x = pos[0]
         y = pos[1]
         for i in range(4):
-- 
2.43.0


From 56930317653f1a9fc8d8a4f091b3e01391c4552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 06/22] fix: reject potentials with more than 3 dimensions in
 input

0 & x binds stronger than the comparisons, so the upper bound was never checked.
---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From a2460e184a46b190fa347e5fb9290ff4e92dab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 07/22] fix: reject states with inconsistent dimensions

The chained comparison only raised if both parts were unequal, other mismatches
were silently truncated to the shorter of min and max.
---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..6a32403 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -468,7 +468,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From 2dd163e72fcb70447e98e72017aad0af1539a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 08/22] fix: report list options that can not be converted as
 option errors

---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 6a32403..84abdc6 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -100,7 +100,14 @@ class InputOption:
         # parsing of lists is a bit more complicated
         if isinstance(self.keytype, list):
             val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
+            try:
+                val = [self.keytype[0](x) for x in val.split(",")]
+            except ValueError as e:
+                raise OptionError(
+                    f"could not be converted to list of {self.keytype[0].__name__}",
+                    self.key,
+                    section.name,
+                ) from e
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 308d4421c3e16b241cade27982525758eda0942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 09/22] fix: allow delta-f calculations in more than one
 dimension

The masks were flat while the FES has one axis per dimension, so the
shape check rejected every system with more than one dimension.
---
 bdld/actions/delta_f_action.py | 2 +-
 bdld/main.py                   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..c9c1d9a 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -157,7 +157,7 @@ def calculate_delta_f(fes: np.ndarray, kt: float, masks: List[np.ndarray]):
     :return delta_F: a list of doubles containing the free energy difference to the first state
     :raises IndexError: if the dimensions of the FES and any of the masks do not match
     """
-    probabilities = np.exp(-fes / float(kt)).reshape((-1))
+    probabilities = np.exp(-fes / float(kt))
     state_probs = [np.sum(probabilities[m]) for m in masks]
     delta_f = [
         -kt * np.log(state_probs[i] / state_probs[0])
diff --git a/bdld/main.py b/bdld/main.py
index 0c881f4..d37e10f 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -359,7 +359,10 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
         raise ValueError(e_msg)
 
     fes_points = fes_action.histo_action.histo.points()
-    masks = pos_inside_ranges(fes_points, state_ranges)
+    masks = [
+        mask.reshape(fes_action.fes.data.shape)
+        for mask in pos_inside_ranges(fes_points, state_ranges)
+    ]
 
     return DeltaFAction(
         fes_action,
-- 
2.43.0


From 9b5cae0915f1ad335cebcfc8a485d482ea6893ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 10/22] fix: name the time column in delta-f and
 particle-distribution headers

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index c9c1d9a..5278e16 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..3029dcc 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -71,7 +71,7 @@ class ParticleDistributionAction(Action):
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["timestep"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
-- 
2.43.0


From ab8e94fa94a89ccbb7a8afac740dc3b2ccfe72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 11/22] fix: report unknown birth-death approximation variants
 as option error

---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index d37e10f..69a3215 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -241,9 +241,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From 5572472bc865414f0117d272005694684c3aeda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 12/22] fix: reject unknown boundary conditions instead of
 ignoring them

---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 84abdc6..6285083 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -244,7 +244,14 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["reflective", "periodic"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions,
+            f"must be one of {boundary_conditions}",
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From c173605b15a0d6245b366834e7f9dfb9357cd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 13/22] fix: return grid points in row-major order also in 3
 dimensions

The transposed xy-indexed meshgrid is only row-major for 1 and 2 dimensions,
in 3 dimensions the points did not match the order of the data.
---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From 036bd8f154937f8f6229dc676257d32e58a06270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 14/22] fix: report missing sections required by fes and
 delta-f as section error

---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 6285083..32b4902 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -348,7 +348,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -365,7 +365,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From 700b7c0ca059596af40806531f6f980acae12f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 15/22] fix: return no data if no point was stored since the
 last write

If the last write was at the end of the array and less than one update_stride
ago, the whole (already written or not yet initialized) array was returned.
---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..c98ad1c 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check for no new points because already_written is 0 due to modulo
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From acc8e21fe8d80bf6e7aa2135ad7bd473653b23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 16/22] fix: use the thermal energy given in the fes section

The option was required and documented but never used.
---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 5278e16..0bdea0d 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..dcbe5de 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy in units of kT, defaults to the one of the LD
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 69a3215..cdcc4fe 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -346,6 +346,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From d40dfdc1d447d5d10b2e0cd436b9079a863a2ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 17/22] fix: accept coefficient files for 1d polynomial
 potentials

This was documented, but the file was ignored in one dimension and the
missing coefficients resulted in a potential without dimensions.
---
 bdld/inputparser.py | 3 ++-
 bdld/main.py        | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 32b4902..92f58aa 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -220,7 +220,8 @@ class Input:
                 options = [
                     type_option,
                     n_dim_option,
-                    InputOption("coeffs", [float], False),
+                    InputOption("coeffs", [float], "coeffs-file" not in section),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index cdcc4fe..7af68f3 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], options["n_dim"]
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 35498b8b554940106338c913ed129dacda7e106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 18/22] fix: write grids with more than 2 dimensions to file

Histogram and FES files were silently not written for 3d systems.
---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..7412a0a 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -210,6 +210,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.flatten()],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From 0a48543054e03d6db08a051405ad8a0bbd774f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:38 +0000
Subject: [PATCH 19/22] fix: reject potential and histogram ranges that do not
 match the dimensions

Lists of minimum and maximum values with missing or surplus entries were
silently truncated to the shorter one.
---
 bdld/inputparser.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 92f58aa..38618c7 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -130,9 +130,12 @@ class Input:
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
     at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
-    # @staticmethod
-    # def match_dimensions(n_dim: int) -> Condition:
-    # return Condition(lambda x: x == n_dim, f"wrong dimensions (must be {n_dim})")
+    @staticmethod
+    def match_dimensions(n_dim: int) -> Condition:
+        """Condition for lists that need exactly one value per dimension"""
+        return Condition(
+            lambda lst: len(lst) == n_dim, f"wrong dimensions (must have {n_dim} values)"
+        )
 
     def __init__(self, filename: str) -> None:
         self.filename = filename
@@ -230,8 +233,8 @@ class Input:
                     type_option,
                     n_dim_option,
                     InputOption("coeffs-file", str, True),
-                    InputOption("min", [float], True),
-                    InputOption("max", [float], True),
+                    InputOption("min", [float], True, Input.match_dimensions(n_dim)),
+                    InputOption("max", [float], True, Input.match_dimensions(n_dim)),
                 ]
         elif pot_type == "mueller-brown":
             options = [
@@ -339,9 +342,10 @@ class Input:
                 InputOption("bins", int, True, Input.positive),
             ]
         else:
+            match_potential = Input.match_dimensions(self.potential["n_dim"])
             options += [
-                InputOption("min", [float], True),
-                InputOption("max", [float], True),
+                InputOption("min", [float], True, match_potential),
+                InputOption("max", [float], True, match_potential),
                 InputOption("bins", [int], True, Input.all_positive),
             ]
         self.histogram = self.parse_section(section, options)
-- 
2.43.0


From f3de8da6e385b544d89e5b7d1afa5ef9e016c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:38 +0000
Subject: [PATCH 20/22] fix: reject states that do not match the dimensions of
 the potential

Surplus values were ignored and missing ones only noticed when the states were
first used.
---
 bdld/inputparser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 38618c7..16b400c 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -376,7 +376,7 @@ class Input:
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
             InputOption("fmt", str, False),
-        ] + numbered_state_options(section)
+        ] + numbered_state_options(section, self.potential["n_dim"])
 
         self.delta_f = self.parse_section(section, options)
 
@@ -387,7 +387,7 @@ class Input:
             InputOption("filename", str, False),
             InputOption("write-stride", int, False, Input.positive),
             InputOption("fmt", str, False),
-        ] + numbered_state_options(section)
+        ] + numbered_state_options(section, self.potential["n_dim"])
         self.particle_distribution = self.parse_section(section, options)
 
     @staticmethod
@@ -429,13 +429,16 @@ def get_all_numbered_values(
         counter += 1
 
 
-def numbered_state_options(section: configparser.SectionProxy) -> List[InputOption]:
+def numbered_state_options(
+    section: configparser.SectionProxy, n_dim: int
+) -> List[InputOption]:
     """Return list with 'state{i}_min' & 'state{i}_max' InputOptions in section
 
     This reads the keys of a section and adds two new options for each found state
     The state InputOptions are lists regardless of dimensions
 
     :param section: section of configparser to search through
+    :param n_dim: number of values each option must have
     :raises OptionError: if number of min and max options don't match
     :raises OptionError: if no min and max actions were found
     """
@@ -449,8 +452,12 @@ def numbered_state_options(section: configparser.SectionProxy) -> List[InputOpti
     options = []
     for i in range(n_states):
         options += [
-            InputOption(f"state{i+1}-min", [float], True),
-            InputOption(f"state{i+1}-max", [float], True),
+            InputOption(
+                f"state{i+1}-min", [float], True, Input.match_dimensions(n_dim)
+            ),
+            InputOption(
+                f"state{i+1}-max", [float], True, Input.match_dimensions(n_dim)
+            ),
         ]
     if not options:
         raise OptionError(
-- 
2.43.0


From e8cca33569110d2e4854c2dd6a5100301462e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:59 +0000
Subject: [PATCH 21/22] fix: insert the step before the extension of FES plot
 file names

With plot-stride the step was appended after the extension, which matplotlib
refuses as unknown format, so the simulation stopped at an interactive prompt.
---
 bdld/actions/fes_action.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index dcbe5de..a49ef8a 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -163,14 +164,15 @@ class FesAction(Action):
     def plot(self, step: int = None) -> None:
         """Plot fes with reference and optionally save to file
 
-        If a step is specified it will be appended to the filename, i.e. it is written
-        to a new file. It will also be used for the plot title
+        If a step is specified it will be added to the filename (before the extension),
+        i.e. it is written to a new file. It will also be used for the plot title
 
         :param step: current simulation step, optional
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                root, extension = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{extension}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From d9130d0d1cafadc9ea3f2bb6a5a1c01d70f06b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:59 +0000
Subject: [PATCH 22/22] fix: transpose 2D FES for plotting

imshow draws the first array dimension vertically, while the extent has the
first coordinate on the horizontal axis
---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index a49ef8a..84af6ad 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -255,7 +255,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # rows of an image are the vertical axis
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0

