From db64d43c8270ce5b9106adda6a6bb7ebf55b6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:54 +0000
Subject: [PATCH 01/13] fix: give every parallel routing process its own random
 stream

Workers are forked with a copy of the parent's numpy random state, so every
core routed exactly the same particles and the combined result held num_cores
copies of the same walks.
---
 dorado/parallel_routing.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..d25ac13 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -37,6 +37,10 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # worker processes inherit the parent's random state, so without this
+    # every core would route exactly the same particles
+    np.random.seed(pobj.random_seed)
+
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -90,6 +94,7 @@ class parallel_obj:
         parallel_obj.Np_tracer = None
         parallel_obj.seed_xloc = None
         parallel_obj.seed_yloc = None
+        parallel_obj.random_seed = None
 
 
 def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
@@ -129,16 +134,19 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
             and travel times for each particle computed by that process/core
 
     """
-    # make parallel object to assign to function
-    pobj = parallel_obj()
-    pobj.particles = particles
-    pobj.num_iter = num_iter
-    pobj.Np_tracer = Np_tracer
-    pobj.seed_xloc = seed_xloc
-    pobj.seed_yloc = seed_yloc
-
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    # with one parallel object, and a different random seed, per process
+    base_seed = np.random.randint(0, 2**31 - 1)
+    p_list = []
+    for core in range(0, num_cores):
+        pobj = parallel_obj()
+        pobj.particles = particles
+        pobj.num_iter = num_iter
+        pobj.Np_tracer = Np_tracer
+        pobj.seed_xloc = seed_xloc
+        pobj.seed_yloc = seed_yloc
+        pobj.random_seed = base_seed + core
+        p_list.append(pobj)
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 65742d7052ad779ad6c75c9ea052851dd06ecaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:13 +0000
Subject: [PATCH 02/13] fix: accept walk data with or without optional
 variables in the routines

get_state and get_time_state return a fourth value only when the walk data
holds more than locations and travel times, but every caller unpacked a fixed
number of values: plot_exposure_time failed on plain walk data, and the other
plotting routines failed as soon as an optional variable was tracked.
---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From 142ba92f0ca052ba1b19557ec5cb0c15da6f8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 03/13] fix: report every particle that exceeded the iteration
 limit, not only the last

---
 dorado/particle_track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..790692a 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,10 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +735,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[all_xinds[ii][-1]-1:
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From 916337b905906149e2d240bd8873ba99c0a68fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 04/13] fix: distribute the seeding remainder for column-shaped
 discharge arrays

---
 dorado/particle_track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 790692a..c34e213 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1386,8 +1386,8 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 782c99cb984d4505ecebf2ebee03f070922bdc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:35 +0000
Subject: [PATCH 05/13] fix: keep a particle in place when none of its
 neighbors has any weight

---
 dorado/lagrangian_walker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..74d763c 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -426,6 +426,9 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is no valid neighbor to move to, stay put
+    if cutoffs[-1] == 0:
+        return 4
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -462,6 +465,9 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is no valid neighbor to move to, stay put
+    if cutoffs[-1] == 0:
+        return 4
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
     return idx
-- 
2.43.0


From 953a1e6eaab331b7a9cf218bba80d203eee67e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:40 +0000
Subject: [PATCH 06/13] fix: do not overwrite the routing weights during
 steepest descent

---
 dorado/lagrangian_walker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 74d763c..4a30f8a 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -453,6 +453,8 @@ def steep_descent(probs):
             1-8 value chosen by greatest probs
 
     """
+    # work on a copy, the routing weights themselves must not change
+    probs = np.array(probs)
     max_val = np.nanmax(probs)
     # remove initial location (index 4) from consideration
     probs[4] = 0
-- 
2.43.0


From 29d049d7e6e8f1be7da6c3e56c51e877c9991aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 07/13] fix: keep optional variable histories aligned with walk
 data that lacks them

---
 dorado/particle_track.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index c34e213..ec00a36 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,7 +588,9 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -608,7 +610,9 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
@@ -686,7 +690,7 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    optional_vars[var] = [[None]*len(x) for x in all_xinds]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
@@ -784,8 +788,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From b9b84f2238257a9024eeb70937ca478eb3ff0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:19 +0000
Subject: [PATCH 08/13] fix: do not append to the caller's list of particle
 variables

---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ec00a36..dc48e03 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -429,7 +429,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From 20ab0f604f5c228fa8bd50e4cae10efc481eccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:22 +0000
Subject: [PATCH 09/13] fix: attach a handler passed to setup_logging after
 logging was set up

---
 dorado/logging_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..27cce6f 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -46,7 +46,8 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if not logger.handlers:
+    if (handler is not None and handler not in logger.handlers) \
+       or not logger.handlers:
         h = handler or logging.StreamHandler()
         h.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
-- 
2.43.0


From 5587b2aef8cffd7f2e29ec1b24343b5eb8eaeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:26 +0000
Subject: [PATCH 10/13] fix: return the map axes from plot_spatial

---
 dorado/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dorado/spatial.py b/dorado/spatial.py
index cd5d69b..68e9a6b 100644
--- a/dorado/spatial.py
+++ b/dorado/spatial.py
@@ -335,6 +335,7 @@ def plot_spatial(exposure_maps,
         full_rows, full_cols = elevation.shape
         extent = [0, full_cols, full_rows, 0]  
         ax = fig.add_subplot(gs[0, i + 1])
+        axes.append(ax)
         ax.imshow(elevation, cmap='bone', aspect='auto', alpha=0.75,
                   extent=extent, origin='upper')
         ax.imshow(data, cmap=cmap, norm=norm, aspect='auto',
-- 
2.43.0


From 80bd4abed858a97d23646166c57507af890b0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 11/13] fix: return the walk data as it stands when zero
 iterations are requested

---
 dorado/parallel_routing.py | 1 +
 dorado/routines.py         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index d25ac13..cfc6d5b 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -43,6 +43,7 @@ def run_iter(pobj):
 
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
+    all_walk = pobj.particles.walk_data
     # do iterations
     for i in list(range(0, pobj.num_iter)):
         all_walk = pobj.particles.run_iteration()
diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..d5937bc 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -78,6 +78,7 @@ def steady_plots(particle, num_iter,
         if not os.path.exists(folder_name+os.sep+'data'):
             os.makedirs(folder_name+os.sep+'data')
 
+    walk_data = particle.walk_data
     # Iterate and save results
     for i in tqdm(list(range(0, num_iter)), ascii=True):
         # Do particle iterations
@@ -340,6 +341,7 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
     if not os.path.exists(folder_name+os.sep+'data'):
         os.makedirs(folder_name+os.sep+'data')
 
+    walk_data = particle.walk_data
     # Iterate and save results
     for i in tqdm(list(range(0, num_iter)), ascii=True):
         # Do particle iterations
-- 
2.43.0


From 9e3e2dcaae489c30bff023d4f95218d0d0049bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:59 +0000
Subject: [PATCH 12/13] fix: report thresholds the exposure time distribution
 never reaches instead of failing

---
 dorado/routines.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index d5937bc..6fb0e0a 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -874,18 +874,14 @@ def plot_exposure_time_thresholds(walk_data,
     ax1.set_ylim([0, 1])
 
     # Percentile markers
-    E50_idx = np.searchsorted(smooth_CDF, 0.50)
-    E75_idx = np.searchsorted(smooth_CDF, 0.75)
-    E90_idx = np.searchsorted(smooth_CDF, 0.90)
-
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for name, level in (('E50', 0.50), ('E75', 0.75), ('E90', 0.90)):
+        idx = np.searchsorted(smooth_CDF, level)
+        if idx < len(smooth_time_vect):
+            etime = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'{name}: {etime} {timeunit}')
+        else:
+            logger.info(f'{name}: not reached')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From ca709f1308782c42aa569517bb823d60085377ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 13/13] fix: record variables as plain floats so that walks can
 be saved as JSON

---
 dorado/lagrangian_walker.py | 2 +-
 dorado/particle_track.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 4a30f8a..018038b 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -550,6 +550,6 @@ def particle_stepper(Particles, current_inds, travel_times, start_optional):
         if var not in updated_optional:
             if var in Particles.available_particle_vars:
                 grid = Particles.available_particle_vars[var]
-                updated_optional[var] = [grid[x, y] for x, y in new_inds]
+                updated_optional[var] = [float(grid[x, y]) for x, y in new_inds]
 
     return new_inds, travel_times, updated_optional
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index dc48e03..9c7ec50 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -566,7 +566,7 @@ class Particles():
                                                 for x, y in zip(new_start_xindices, new_start_yindices)]
                 elif var in self.available_particle_vars:
                     grid_values = self.available_particle_vars[var]
-                    optional_start_vars[var] = [[grid_values[x, y]] for x, y in zip(new_start_xindices, new_start_yindices)]
+                    optional_start_vars[var] = [[float(grid_values[x, y])] for x, y in zip(new_start_xindices, new_start_yindices)]
                 else:
                     raise ValueError(f"Variable {var} is not a recognized variable to track. Available variables are: {list(self.available_particle_vars.keys())} and 'roi_flag' (if roi_grid is provided).")
 
-- 
2.43.0

