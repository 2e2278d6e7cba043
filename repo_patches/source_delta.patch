From 8c19212d984d54ced3888173262e35e686566311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 01/17] fix: Pyramid and Random topologies crash on neighbour
 lists of unequal length

---
 pyswarms/backend/topology/pyramid.py | 11 +++++------
 pyswarms/backend/topology/random.py  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..7afebf2 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,11 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    # (the number of neighbors differs between particles)
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..7a5e62e 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,11 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                # The number of neighbors differs between particles
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From 7acc1f4c350d23635c1e0e49777b1821d79513d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 02/17] fix: static Ring with k=1 grows its neighbour matrix on
 every call until it crashes

---
 pyswarms/backend/topology/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..369d510 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -66,13 +66,14 @@ class Ring(Topology):
                 # Obtain the nearest-neighbors for each particle
                 tree = cKDTree(swarm.position)
                 _, self.neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                if k == 1:
+                    self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From 5ed588f728fbbbb41f04638a26e7bb2d50bf1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 03/17] fix: Ring best cost misses a particle that is in no
 neighbourhood

---
 pyswarms/backend/topology/ring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 369d510..6c2db68 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -80,8 +80,9 @@ class Ring(Topology):
                 best_neighbor = self.neighbor_idx[
                     np.arange(len(self.neighbor_idx)), idx_min
                 ]
-            # Obtain best cost and position
-            best_cost = np.min(swarm.pbest_cost[best_neighbor])
+            # Obtain best cost and position. Coinciding particles may leave a
+            # particle out of every neighborhood, so look at the whole swarm
+            best_cost = np.min(swarm.pbest_cost)
             best_pos = swarm.pbest_pos[best_neighbor]
         except AttributeError:
             self.rep.logger.exception(
-- 
2.43.0


From c074f9b38d4ecbe32313506ba5a40ad64aada510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 04/17] fix: Pyramid topology crashes in qhull when there are
 exactly dimensions + 1 particles

---
 pyswarms/backend/topology/pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 7afebf2..10e2b63 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -61,8 +61,8 @@ class Pyramid(Topology):
             Best cost
         """
         try:
-            # If there are less than (swarm.dimensions + 1) particles they are all connected
-            if swarm.n_particles < swarm.dimensions + 1:
+            # Up to (swarm.dimensions + 1) particles span a single simplex, so they are all connected
+            if swarm.n_particles <= swarm.dimensions + 1:
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-- 
2.43.0


From 2aeb502dd7598e7c8fff6d6ed95f3c985492e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 05/17] fix: second optimize() call returns the best cost of
 the first call with a position of the second

---
 pyswarms/single/general_optimizer.py | 2 ++
 pyswarms/single/global_best.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..29a69d0 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -239,7 +239,9 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        # Forget the bests of a previous call, they may stem from another objective
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..b33464f 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -201,7 +201,9 @@ class GlobalBestPSO(SwarmOptimizer):
         # Setup Pool of processes for parallel evaluation
         pool = None if n_processes is None else mp.Pool(n_processes)
 
+        # Forget the bests of a previous call, they may stem from another objective
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From d98233309563f2dd1dc2be3120170ad0d0f6fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 06/17] fix: options strategy 'random' raises KeyError when no
 end_opts are given, as in every optimizer

---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..6f2e227 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -715,7 +715,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
+        if opt in kwargs.get("end_opts", {}):
             end = kwargs["end_opts"][opt]
         else:
             end = start + 1
-- 
2.43.0


From a50ae91c8fde86a3ea670cba42ac435b39da9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 07/17] fix: velocity strategies 'zero' and (first call)
 'adjust' ignore the velocity clamp

---
 pyswarms/backend/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 6f2e227..9d1ca7c 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -488,8 +488,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
@@ -539,6 +539,8 @@ class VelocityHandler(HandlerMixin):
             new_vel = velocity
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' or 'bounds' missing")
             raise
-- 
2.43.0


From 0ad44163b9cd0fc9eb83c752c61a66db4434298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 08/17] fix: boundary strategy 'shrink' leaves particles
 outside the bounds by rounding

---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 9d1ca7c..5fb38da 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -279,6 +279,8 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # Rounding may leave a particle just beyond the bound
+            new_pos = np.clip(new_pos, lb, ub)
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From 80fc779b30f4693e1d5f4bc28bf453ea46bf52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 09/17] fix: Star topology has no best position when all first
 costs are infinite or NaN

---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..637be49 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                np.min(swarm.pbest_cost) < swarm.best_cost
+                or swarm.best_pos.size == 0
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From 6d306da013315ea343b4791c2d27ee5ff898b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 10/17] fix: BinaryPSO compares every particle with the same
 random vector instead of a random matrix

---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..357c486 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -262,7 +262,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.position.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From 17342c48bd3023e19abd191c7da0b311c5664a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 11/17] fix: second optimize() call with only infinite costs
 crashes on the best position of the first call

---
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 29a69d0..e3885d9 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -242,6 +242,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Forget the bests of a previous call, they may stem from another objective
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index b33464f..332a549 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -204,6 +204,7 @@ class GlobalBestPSO(SwarmOptimizer):
         # Forget the bests of a previous call, they may stem from another objective
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
         self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From 01c030207b4c139d384b09c9c6d700d34220a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 12/17] fix: velocity strategy 'invert' inverts twice for
 particles below one bound and above another

---
 pyswarms/backend/handlers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 5fb38da..b6e99c1 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -520,10 +520,11 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            # A particle may be below one bound and above another at once
+            out_of_bounds = np.zeros(velocity.shape[0], dtype=bool)
+            out_of_bounds[lower_than_bound[0]] = True
+            out_of_bounds[greater_than_bound[0]] = True
+            new_vel[out_of_bounds] = (-z) * new_vel[out_of_bounds]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From dad2cd47b41737308003c52c0b2b780501bccda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 13/17] fix: eggholder documents a point that does not attain
 the documented minimum

The minimizer is (512, 404.2319), two digits were swapped.
---
 pyswarms/utils/functions/single_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/utils/functions/single_obj.py b/pyswarms/utils/functions/single_obj.py
index aa34a2c..7541904 100644
--- a/pyswarms/utils/functions/single_obj.py
+++ b/pyswarms/utils/functions/single_obj.py
@@ -311,7 +311,7 @@ def eggholder(x):
     """Eggholder objective function.
 
     Only takes two dimensions and has a global minimum of
-    `-959.6407` at :code:`f([512, 404.3219])`.
+    `-959.6407` at :code:`f([512, 404.2319])`.
     Its coordinates are bounded within :code:`[-512, 512]`.
 
     Best visualized in the full domain and a range of :code:`[-1000, 1000]`.
-- 
2.43.0


From a3569238666c4604d8aa5cd2004b067e9cde5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 14/17] fix: positions of integer or single precision type
 cannot be moved by their velocity

---
 pyswarms/backend/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..da27d5d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From 1a152e864711185202e1cfd87cc6cd1d41fe3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 15/17] fix: pyramid topology depends on the scale of the swarm
 and crashes far from the origin

---
 pyswarms/backend/topology/pyramid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 10e2b63..dbe1931 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -73,8 +73,15 @@ class Pyramid(Topology):
                 if (
                     self.static and self.neighbor_idx is None
                 ) or not self.static:
+                    # Location and scale do not matter for the triangulation,
+                    # but the joggle (QJ) has to be small compared to the
+                    # swarm and must not vanish in the rounding errors
+                    positions = swarm.position - np.min(swarm.position, axis=0)
+                    extent = np.max(positions)
+                    if extent > 0:
+                        positions = 1000 * (positions / extent)
                     pyramid = Delaunay(
-                        swarm.position, qhull_options="QJ0.001 Qbb Qc Qx"
+                        positions, qhull_options="QJ0.001 Qbb Qc Qx"
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-- 
2.43.0


From fe9f64c9f5e018465fa9f86ced6ddac74554d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 16/17] fix: reflective boundary strategy never ends for
 positions far from the bounds

Every reflection brings a coordinate closer by the width of the search
space only, and beyond about 1e16 widths not at all, so that a swarm
whose velocities grow made the loop run forever. Whole cycles of
reflections are taken off first.
---
 pyswarms/backend/handlers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index b6e99c1..af44764 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -199,6 +199,20 @@ class BoundaryHandler(HandlerMixin):
             position, bounds
         )
         new_pos = position
+        # A full cycle of reflections does not move a coordinate, so that only
+        # the rest has to be reflected, no matter how far it is from the bounds
+        cycle = 2 * (ub - lb)
+        new_pos[lower_than_bound] = lb[lower_than_bound[1]] - np.mod(
+            lb[lower_than_bound[1]] - new_pos[lower_than_bound],
+            cycle[lower_than_bound[1]],
+        )
+        new_pos[greater_than_bound] = ub[greater_than_bound[1]] + np.mod(
+            new_pos[greater_than_bound] - ub[greater_than_bound[1]],
+            cycle[greater_than_bound[1]],
+        )
+        lower_than_bound, greater_than_bound = self._out_of_bounds(
+            new_pos, bounds
+        )
         while lower_than_bound[0].size != 0 or greater_than_bound[0].size != 0:
             if lower_than_bound[0].size > 0:
                 new_pos[lower_than_bound] = (
-- 
2.43.0


From 5fba1dc6e0443be86d6626862b5fa81d656a560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 17/17] fix: boundary strategies round the positions of a swarm
 of integers

The sum of integer positions and velocities stayed an integer array, so
that repaired coordinates were rounded and could leave the bounds.
---
 pyswarms/backend/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index da27d5d..ed325e4 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,7 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position + swarm.velocity
+        temp_position = (swarm.position + swarm.velocity).astype(float)
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0

