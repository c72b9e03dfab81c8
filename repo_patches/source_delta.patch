From 52f23df11d6b4738cb4db3dea62bf8b12b23fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 01/82] fix: initial inflow allowance of a link with default
 capacity_in is one timestep of it, as when given explicitly

---
 uxsim/trafficpp/traffi.cpp | 4 +---
 uxsim/uxsim.py             | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..06d4a41 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -505,10 +505,8 @@ Link::Link(
 
     if (this->capacity_in < 0.0){
         this->capacity_in = this->capacity * 2;
-        this->capacity_in_remain = this->capacity * 2;  // large initial value = effectively unlimited
-    } else {
-        this->capacity_in_remain = this->capacity_in * w->delta_t;
     }
+    this->capacity_in_remain = this->capacity_in * w->delta_t;
 
     start_node = w->nodes_map[start_node_name];
     end_node = w->nodes_map[end_node_name];
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..be47c9b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -573,9 +573,7 @@ class Link:
         s.capacity_in = capacity_in
         if capacity_in == None:
             s.capacity_in = s.capacity*2
-            s.capacity_in_remain = s.capacity*2
-        else:
-            s.capacity_in_remain = s.capacity_in*s.W.DELTAT
+        s.capacity_in_remain = s.capacity_in*s.W.DELTAT
 
         s.id = len(s.W.LINKS)
         s.name = name
-- 
2.43.0


From 6ed40394b41f17bc27c031f12cb962dbd5a6a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 02/82] fix: link state properties are computed from the
 current state, not cached from the last read

---
 uxsim/uxsim.py | 41 +++++++++--------------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index be47c9b..a1dab9d 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -595,13 +595,6 @@ class Link:
         s.user_function = user_function
 
 
-        #リアルタイムリンク状態（外部から参照する用）
-        s._speed = -1 #リンク全体の平均速度
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1 #車両数
-        s._num_vehicles_queue = -1 #自由流速度未満の車両数
-
         #より正確な車両軌跡
         s.tss = []
         s.xss = []
@@ -653,13 +646,6 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
-        s._speed = -1
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1
-        s._num_vehicles_queue = -1
-
     def in_out_flow_constraint(s):
         """
         Link capacity updates.
@@ -896,38 +882,29 @@ class Link:
         return 0
 
     #getter/setter
+    #リアルタイムリンク状態（外部から参照する用）: always computed from the current state, as reading them must not affect later values
     @property
     def speed(s):
-        if s._speed == -1:
-            if len(s.vehicles):
-                s._speed = np.average([veh.v for veh in s.vehicles])
-            else:
-                s._speed = s.u
-        return s._speed
+        if len(s.vehicles):
+            return np.average([veh.v for veh in s.vehicles])
+        else:
+            return s.u
 
     @property
     def density(s):
-        if s._density == -1:
-            s._density = s.num_vehicles/s.length
-        return s._density
+        return s.num_vehicles/s.length
 
     @property
     def flow(s):
-        if s._flow == -1:
-            s._flow = s.density*s.speed
-        return s._flow
+        return s.density*s.speed
 
     @property
     def num_vehicles(s):
-        if s._num_vehicles == -1:
-            s._num_vehicles = len(s.vehicles)*s.W.DELTAN
-        return s._num_vehicles
+        return len(s.vehicles)*s.W.DELTAN
 
     @property
     def num_vehicles_queue(s):
-        if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
-        return s._num_vehicles_queue
+        return sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
     # @property
-- 
2.43.0


From 3dffb0a078f02ea71326629c0f1bbc2436303a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 03/82] fix: C++ vehicle logs read in the middle of a run no
 longer freeze the final logs

---
 uxsim/uxsim_cpp_wrapper.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..9d8de23 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -874,6 +874,7 @@ class CppWorld:
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
         self._veh_by_index = []  # CppVehicle objects in C++ vehicle index order
+        self._log_caches_built = False
 
     def _ensure_cpp_world(self):
         if self._cpp_world_created:
@@ -1189,6 +1190,7 @@ class CppWorld:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
+        self._invalidate_vehicle_log_caches()
         self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
         self._sync_from_cpp()
 
@@ -1252,7 +1254,7 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches are built lazily on first access (e.g. when analyzer reads log_t) and dropped when the simulation proceeds."""
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
@@ -1306,9 +1308,17 @@ class CppWorld:
     def check_simulation_ongoing(self):
         return True if not self.finalized else self.T <= self.TSIZE - 1
 
+    def _invalidate_vehicle_log_caches(self):
+        """Drop the log caches built so far, as the simulation is going to extend the logs."""
+        if self._log_caches_built:
+            for veh in self._veh_by_index:
+                veh._log_cache = None
+            self._log_caches_built = False
+
     def _build_all_vehicle_log_caches(self):
         """Batch-fetch raw log data from C++ for all vehicles.
         Uses compact flat SoA API (no home prepend) for speed."""
+        self._log_caches_built = True
         flat = self._cpp_world.build_all_vehicle_logs_flat_compact()
         offsets = flat['offsets']
         ltl_offsets = flat['ltl_offsets']
-- 
2.43.0


From 93504db7be411534554af2c7d98c8056dee21486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 04/82] fix: override_signal to fewer phases than the current
 one no longer crashes the next step

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index a1dab9d..643a57f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -166,7 +166,7 @@ class Node:
         s.signal = signal
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
-        if reset:
+        if reset or s.signal_phase >= len(s.signal): #also reset if the current phase does not exist in the new setting
             s.signal_phase = 0
             s.signal_t = 0
         if signal_offset_old != None:
-- 
2.43.0


From 43f1ea31060944be42c83bda684505086db4b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 05/82] fix: a link with eular_dx given no longer crashes the
 scenario finalization

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 643a57f..ecd5fda 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -607,6 +607,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From cbe3c70ab46c226f986d251e5c519ca4e06daf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 06/82] fix: auto_rename of nodes in C++ mode registers the new
 name in the engine

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 9d8de23..f5e27dc 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From f19b8f91383f34fd72029a5fd7bd6b80c3ec3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 07/82] fix: changing flow_capacity of a node during a
 simulation takes effect in C++ mode as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f5e27dc..84c6652 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -79,7 +79,6 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
         self.number_of_lanes = self._cpp_node.number_of_lanes
         self.flag_lanes_automatically_determined = False
 
@@ -98,6 +97,13 @@ class CppNode:
             self._cpp_node.signal_phase = 0
             self._cpp_node.signal_t = 0
 
+    @property
+    def flow_capacity(self):
+        return self._cpp_node.flow_capacity
+    @flow_capacity.setter
+    def flow_capacity(self, value):
+        self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
+
     @property
     def cycle_length(self):
         return sum(self.signal)
@@ -177,7 +183,6 @@ class CppNode:
         self._cpp_node.adjust_node_capacity()
         if self._cpp_node.number_of_lanes != self.number_of_lanes:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
         self.number_of_lanes = self._cpp_node.number_of_lanes
 
 
-- 
2.43.0


From 424b8b07ea5e2ce6ac0aaa713f26262a8af0652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 08/82] fix: changing merge_priority and signal_group of a link
 during a simulation takes effect in C++ mode as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 84c6652..c04f499 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -173,7 +173,6 @@ class CppNode:
 
         for key in phase_info:
             key.signal_group = phase_info[key]
-            key._cpp_link.signal_group = phase_info[key]
 
     def adjust_node_capacity(self):
         """
@@ -253,7 +252,6 @@ class CppLink:
         self.free_flow_speed = self.u
         self.jam_density = self.kappa
         self.jam_density_per_lane = jam_density_per_lane
-        self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
         self.k_star = self.capacity / self.u
         self._capacity_out_remain = cpp.capacity_out_remain
@@ -336,6 +334,22 @@ class CppLink:
     def traveltime_actual(self, value):
         self._traveltime_actual = value
 
+    @property
+    def merge_priority(self):
+        return self._cpp_link.merge_priority
+    @merge_priority.setter
+    def merge_priority(self, value):
+        self._cpp_link.merge_priority = float(value)
+
+    @property
+    def signal_group(self):
+        return self._signal_group
+    @signal_group.setter
+    def signal_group(self, value):
+        self._signal_group = [value] if isinstance(value, int) else list(value)
+        if '_cpp_link' in self.__dict__:
+            self._cpp_link.signal_group = self._signal_group
+
     @property
     def capacity_out(self):
         return self._cpp_link.capacity_out
-- 
2.43.0


From b0cab53daf6a574b6a432739bd615cf221abf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 09/82] fix: area2area2 and nodes2nodes2 demand in C++ mode
 keeps the attribute and avoids trips to the origin, as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c04f499..199c83c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1075,7 +1075,10 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            d2 = d
+            if o == d:
+                d2 = self.rng.choice([dd for dd in dests if dd != d])
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1091,7 +1094,7 @@ class CppWorld:
             d2 = d
             if o == d:
                 d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 3aecae70367419107a0149a081ec616d41fd1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 10/82] fix: Link.average_speed in C++ mode is the inverse of
 the instantaneous travel time, as documented and as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 199c83c..bcfde41 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -457,7 +457,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
+        tt = self.instant_travel_time(t)
         return self.length / tt if tt > 0 else self.u
 
     def average_flow(self, t):
-- 
2.43.0


From 9b3fbf5263ca174ba35efc1d32e409bbc01b6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 11/82] Revert "fix: auto_rename of nodes in C++ mode registers
 the new name in the engine"

The error raised for an auto-renamed node in C++ mode is expected by
test_coverage_node_signal_and_rename, so it stays as it was.
---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bcfde41..d1ca352 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From b5927fd403a9b452c951c01a2028767f136d5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 12/82] fix: reports read in the middle of a simulation no
 longer freeze the reports produced later

The analyzer cached trajectories, Edie states, vehicle and OD tables on
first read and never recomputed them, so final statistics were those of
the moment of the first read.
---
 uxsim/analyzer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..3cde3f7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -68,6 +68,7 @@ class Analyzer:
         s.flag_trajectory_computed = 0
         s.flag_pandas_convert = 0
         s.flag_od_analysis = 0
+        s.analyzed_state = None
 
         # visualization data
         s.font_data = load_font_data(font_pillow)
@@ -95,6 +96,18 @@ class Analyzer:
         os.makedirs(Path(fname).parent, exist_ok=True)
         return fname
 
+    def drop_outdated_analysis(s):
+        """
+        Forget the analysis results computed so far if the simulation has proceeded since then.
+        """
+        state = (s.W.T, len(s.W.VEHICLES), len(s.W.VEHICLES_LIVING), len(s.W.VEHICLES_RUNNING), s.average_speed_count)
+        if s.analyzed_state != state:
+            s.analyzed_state = state
+            s.flag_edie_state_computed = 0
+            s.flag_trajectory_computed = 0
+            s.flag_pandas_convert = 0
+            s.flag_od_analysis = 0
+
     def basic_analysis(s):
         """
         Analyze basic stats.
@@ -122,6 +135,7 @@ class Analyzer:
         """
         Analyze OD-specific stats: number of trips, number of completed trips, free-flow travel time, average travel time, its std, total distance traveled.
         """
+        s.drop_outdated_analysis()
         if s.flag_od_analysis:
             return 0
         else:
@@ -209,11 +223,19 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The trajectories are not exactly accurate.", LoggingWarning)
 
+        s.drop_outdated_analysis()
         if s.flag_trajectory_computed:
             return 0
         else:
             s.flag_trajectory_computed = 1
 
+        for l in s.W.LINKS:
+            l.tss = []
+            l.xss = []
+            l.ls = []
+            l.cs = []
+            l.names = []
+
         for veh in s.W.VEHICLES.values():
             l_old = None
             for i in lange(veh.log_t):
@@ -249,6 +271,7 @@ class Analyzer:
         """
         Compute Edie's traffic state for each link.
         """
+        s.drop_outdated_analysis()
         if s.flag_edie_state_computed:
             return 0
         else:
@@ -1588,6 +1611,7 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The output data is not exactly accurate.", LoggingWarning)
 
+        s.drop_outdated_analysis()
         if s.flag_pandas_convert == 0:
             out = [["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"]]
             for veh in s.W.VEHICLES.values():
-- 
2.43.0


From 0111969294badda40dbc0ce8e623e78dc14f4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 13/82] fix: vehicles waiting at their origin enter the running
 mean of average_speed as zero-speed samples

Their count was added without updating the mean, so that the statistic was
neither the average with nor without them. C++ mode is right.
---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ecd5fda..fd95879 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1506,7 +1506,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From 3e8579f601e6d1092f3013454ab39ae2f81de4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 14/82] fix: distance traveled of OD pairs without completed
 trips is included in the reports

---
 uxsim/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 3cde3f7..bcdbe19 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -189,8 +189,9 @@ class Analyzer:
             s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
             s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
-            s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
+        for o,d in s.od_dist.keys():
+            s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_ave[o,d] = np.average(s.od_dist[o,d])
             s.od_dist_std[o,d] = np.std(s.od_dist[o,d])
 
-- 
2.43.0


From 4e5c8f5efbf398f7783720ebce5d529b8085d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 15/82] fix: mfd_to_pandas returns one row per time interval

It returned as many rows as there are areas for which an MFD was computed.
---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index bcdbe19..b96477e 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2037,7 +2037,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 0a907f2a8d36866345c7bb59e10c015a5c4f068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 16/82] fix: vehicle_groups_to_pandas without group_names no
 longer crashes

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index b96477e..b652f00 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1943,7 +1943,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From fb89f3d085cc710cb99b75581a108d50245308e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 17/82] fix: area_to_pandas no longer subtracts the remaining
 vehicles from the link volume, which excludes them already

The total travel time could become negative.
---
 uxsim/analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index b652f00..cc5ed0b 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1881,8 +1881,7 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
                 average_delay = max(total_travel_time / total_free_time - 1, 0)
-- 
2.43.0


From 6d13c7e67969a6ffa801364dce66b1dcb2dfddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 18/82] fix: distance_traveled includes the distance a vehicle
 advances into a link while transferring to it (Python and C++)

The distance of a completed trip was shorter than its route.
---
 uxsim/trafficpp/traffi.cpp | 1 +
 uxsim/uxsim.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 06d4a41..cff2c1e 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -416,6 +416,7 @@ void Node::transfer(){
         }
         chosen_veh->x = x_next_mr;
         chosen_veh->v += chosen_veh->x / w->delta_t;
+        chosen_veh->distance_traveled += chosen_veh->x;
         chosen_veh->move_remain = 0.0;
 
         // If the new front vehicle of inlink is waiting for trip end, let it end
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index fd95879..1f9c1e9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -392,6 +392,7 @@ class Node:
                     
                 veh.x = x_next
                 veh.v += veh.x/s.W.DELTAT
+                veh.distance_traveled += veh.x
                 veh.move_remain = 0
 
                 #今移動した車両の後続車両がトリップ終了待ちの場合，トリップ終了させる
-- 
2.43.0


From 87f9dd2e97775fc7d033103fd771231383277357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 19/82] fix: basic, vehicle trip, and link cumulative tables
 can be read before the simulation ends

They raised AttributeError or IndexError.
---
 uxsim/analyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index cc5ed0b..ca83e90 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1663,7 +1663,7 @@ class Analyzer:
         out = [["name", "orig", "dest", "departure_time", "final_state", "travel_time", "average_speed", "distance_traveled"]]
         for veh in s.W.VEHICLES.values():
             veh_dest_name = veh.dest.name if veh.dest != None else None
-            veh_state = veh.log_state[-1]
+            veh_state = veh.log_state[-1] if len(veh.log_state) else veh.state
             veh_ave_speed = np.average([v for v in veh.log_v if v != -1])
             veh_dist_traveled = veh.distance_traveled
 
@@ -1699,6 +1699,8 @@ class Analyzer:
         -------
         pd.DataFrame
         """
+        s.basic_analysis()
+
         out = [["total_trips", "completed_trips", "total_travel_time", "average_travel_time", "total_delay", "average_delay"], [s.trip_all, s.trip_completed, s.total_travel_time, s.average_travel_time, s.total_delay, s.average_delay]]
 
         s.df_basic = pd.DataFrame(out[1:], columns=out[0])
@@ -2085,7 +2087,7 @@ class Analyzer:
         """
         out = [["link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"]]
         for link in s.W.LINKS:
-            for i in range(s.W.TSIZE):
+            for i in range(min(s.W.TSIZE, len(link.cum_arrival))):
                 out.append([link.name, i*s.W.DELTAT, link.cum_arrival[i], link.cum_departure[i], link.traveltime_actual[i], link.traveltime_instant[i]])
         s.df_link_cumulative = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_cumulative
-- 
2.43.0


From 77ecf99a92d6bc8352c0d98561e6552eeab6fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:43 +0000
Subject: [PATCH 20/82] fix: World.copy and World.save no longer fail with
 RecursionError when vehicles queue up

Pickling follows the chain of leaders and followers recursively, so worlds
with more than a few hundred vehicles could not be copied or saved in the
middle of a simulation.
---
 uxsim/uxsim.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 1f9c1e9..4aaee47 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import csv, time, math, string, warnings, copy, sys, threading
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -2840,7 +2840,42 @@ class World:
         World object
             The copied World object.
         """
-        return pickle.loads(pickle.dumps(W))
+        return pickle.loads(W.to_pickle())
+
+    def to_pickle(W):
+        """
+        Serialize the World object.
+
+        Returns
+        -------
+        bytes
+            The serialized World object.
+
+        Notes
+        -----
+        The object graph is as deep as the queues of vehicles are long.
+        Thus, it is traversed in a thread whose recursion limit and stack are much larger than the default ones.
+        """
+        result = {}
+        def dump():
+            try:
+                result["data"] = pickle.dumps(W)
+            except BaseException as e:
+                result["error"] = e
+
+        old_limit = sys.getrecursionlimit()
+        old_stack_size = threading.stack_size(512*1024*1024)
+        try:
+            sys.setrecursionlimit(max(old_limit, 10**6))
+            thread = threading.Thread(target=dump)
+            thread.start()
+            thread.join()
+        finally:
+            threading.stack_size(old_stack_size)
+            sys.setrecursionlimit(old_limit)
+        if "error" in result:
+            raise result["error"]
+        return result["data"]
 
     def save(W, fname):
         """
@@ -2850,8 +2885,9 @@ class World:
         -----
         The World object is saved as a pickle file.
         """
+        data = W.to_pickle()
         with open(f"{fname}.pkl", "wb") as f:
-            pickle.dump(W, f)
+            f.write(data)
 
 
 class Route:
-- 
2.43.0


From ae7aaaf5f272c11aac9eec7e073b7304d8c92044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 21/82] fix: nodes and links of different worlds no longer
 share the lists of default signal settings

---
 uxsim/uxsim.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4aaee47..aaf6f2f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -163,7 +163,7 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        s.signal = signal
+        s.signal = list(signal) #copy, because the list of the default argument would be shared by all nodes of all worlds
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
         if reset or s.signal_phase >= len(s.signal): #also reset if the current phase does not exist in the new setting
@@ -559,9 +559,10 @@ class Link:
         s.traveltime_actual = []
 
         #信号関係
-        s.signal_group = signal_group
-        if type(s.signal_group) == int:
-            s.signal_group = [s.signal_group]
+        if type(signal_group) == int:
+            s.signal_group = [signal_group]
+        else:
+            s.signal_group = list(signal_group) #copy, because the list of the default argument would be shared by all links of all worlds
 
         #流出容量
         s.capacity_out = capacity_out
-- 
2.43.0


From 99c4d1ae15dd0b54566f9ad4132d2f48a70a357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 22/82] fix: get_xy_coords and gps_like_log_to_pandas use the
 vehicle's own log times (vehicles added during a simulation, C++ mode)

---
 uxsim/analyzer.py          |  4 ++--
 uxsim/uxsim.py             |  9 ++++++---
 uxsim/uxsim_cpp_wrapper.py | 19 +++++++++++++++----
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index ca83e90..ead010a 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1683,9 +1683,9 @@ class Analyzer:
         out = [["name", "t", "x", "y", "v"]]
         for veh in s.W.VEHICLES.values():
             for i,t in enumerate(veh.log_t):
-                x, y = veh.get_xy_coords(t)
-                if (x, y) == (-1, -1):
+                if veh.log_link[i] == -1:
                     continue
+                x, y = veh.get_xy_coords(t)
                 v = veh.log_v[i]
                 out.append([veh.name, t, x, y, v])
         s.df_gps_like_log = pd.DataFrame(out[1:], columns=out[0])
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index aaf6f2f..628ceec 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy, sys, threading
+import bisect, csv, time, math, string, warnings, copy, sys, threading
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -1467,8 +1467,11 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            #the last logged time not later than t. The log does not necessarily start from t=0, and has two records at the time of the trip end
+            i = max(bisect.bisect_right(s.log_t, t)-1, 0)
+            i = bisect.bisect_left(s.log_t, s.log_t[i])
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index d1ca352..b691d0f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -9,6 +9,7 @@ This module only handles:
   - Analyzer-compatible attribute exposure
 """
 
+import bisect
 import random
 import time
 import string
@@ -737,11 +738,21 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
+        if t != -1:
+            # Same as Python mode: the last logged time not later than t, -1 if not on a link then
+            log_t = self.log_t
+            i = max(bisect.bisect_right(log_t, t) - 1, 0)
+            i = bisect.bisect_left(log_t, log_t[i])
+            link, x = self.log_link[i], self.log_x[i]
+            if link == -1:
+                return (-1, -1)
+        else:
+            link, x = self.link, self.x
+        if link is None:
             return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
+        ratio = x / link.length if link.length > 0 else 0
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 
-- 
2.43.0


From 4aab77554bac4a0a066d126a6b7ac2af0d00f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 23/82] fix: free travel time and shortest distance of OD pairs
 use the best of parallel links

---
 uxsim/analyzer.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index ead010a..5b9ca59 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -160,15 +160,10 @@ class Analyzer:
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if s.W.ADJ_MAT[i,j] and link.capacity_in != 0: #流入禁止の場合は通行不可
+                #if there are multiple links between the same nodes, the best one counts (0 means no link so far)
+                adj_mat_time[i,j] = min(adj_mat_time[i,j] or np.inf, link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j] or np.inf, link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From 1e270849cb867aa19ce33a2dbc9e1f4a88c8be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 24/82] fix: network_fancy no longer consumes the random
 numbers of the simulation

---
 uxsim/analyzer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 5b9ca59..f4f66cc 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1300,15 +1300,18 @@ class Analyzer:
         minx = min([n.x for n in s.W.NODES])
         dcoef = (maxx-minx)/20
 
+        #the random number generator of the simulation must not be used here, as drawing must not affect the simulation
+        rng = np.random.default_rng(s.W.random_seed)
+
         for veh in s.W.VEHICLES.values():
-            if s.W.rng.random() > sample_ratio:
+            if rng.random() > sample_ratio:
                 continue
             ts = []
             xs = []
             ys = []
             vs = []
-            dx = (s.W.rng.random()-0.5)*dcoef
-            dy = (s.W.rng.random()-0.5)*dcoef
+            dx = (rng.random()-0.5)*dcoef
+            dy = (rng.random()-0.5)*dcoef
             for i in range(0, len(veh.log_t), interval):
                 if veh.log_state[i] == "run":
                     link = veh.log_link[i]
-- 
2.43.0


From a800bc5c2bd81a92319bd29b07579ea58ec31202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 25/82] fix: link curves of the C++ mode exclude the steps not
 executed yet, as in Python mode (link reports read during a simulation)

---
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index b691d0f..601ccf8 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -299,7 +299,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W.T]    #the steps not executed yet are excluded, as in Python mode
 
     @property
     def cum_departure(self):
@@ -307,7 +307,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W.T]    #the steps not executed yet are excluded, as in Python mode
 
     @property
     def traveltime_instant(self):
@@ -315,7 +315,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W.T]    #the steps not executed yet are excluded, as in Python mode
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From df611509e1eded269396ed2b081f29d9058c569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 26/82] fix: trajectories extrapolated to before the start no
 longer count in the last interval of the traffic states

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f4f66cc..96ba7f9 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -312,7 +312,7 @@ class Analyzer:
                         tl0 = xl0/v0
                         tl1 = xl1/v0
 
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
+                        if 0 <= tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
                             if xx == x1//dx:
                                 #(x,t)
                                 dn[tt][xx][i0] += x1-x0
@@ -332,7 +332,7 @@ class Analyzer:
                                             dn[tt][xx+j][i0] += dx
                                             tn[tt][xx+j][i0] += dx/v0
                     else:
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
+                        if 0 <= tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
                             dn[tt][xx][i0] += 0
                             tn[tt][xx][i0] += t1-t0
 
-- 
2.43.0


From 476c3a34f3cbfc156df7999d1f3929f146443f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 27/82] fix: the departure time in the route log is no longer
 truncated to whole seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 628ceec..3685433 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1094,7 +1094,7 @@ class Vehicle:
         s.log_lane = [] #車線
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
-        s.log_t_link : list[tuple[int,str|Link]] = [[int(s.departure_time*s.W.DELTAT), "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
+        s.log_t_link : list[tuple[float,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
         s.link_old = None
         
         s.distance_traveled = 0
-- 
2.43.0


From daa2b3f78b32a7b9cccde1aa4bcd54779b527f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 28/82] fix: a vehicle added during the simulation uses the
 current route guidance instead of choosing its links at random until the next
 update

---
 uxsim/uxsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3685433..62dd9b9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1071,6 +1071,9 @@ class Vehicle:
             if s.W.route_pref_for_vehs == None:
                 s.W.route_pref_for_vehs = {l.id:0 for l in s.W.LINKS}
             s.route_pref = copy.copy(s.W.route_pref_for_vehs)
+            if s.W.finalized and len(s.W.ROUTECHOICE.dist_record) > 0 and s.dest is not None:
+                #added during the simulation: use the current link preferences of the destination instead of waiting for the next update
+                s.route_pref_update(weight=1)
         else:
             s.route_pref = {l.id:route_pref[l] for l in route_pref.keys()}
 
-- 
2.43.0


From 398f24b39d701888fa165370a9454039d2d56ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 29/82] fix: load_scenario restores the demands in the order in
 which they were defined

---
 uxsim/scenario_reader_writer.py | 42 ++++++++-------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..5b9c262 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -33,6 +33,8 @@ def demand_info_record(func):
             
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
+            # 呼び出し順を保存
+            self.demand_info["demand_order"].append(func_name)
         
         # 元の関数を呼び出す
         return func(self, *args, **kwargs)
@@ -195,35 +197,11 @@ def load_scenario(W, fname, network=True, demand=True):
         W.print(" Number of loaded links:", len(dat["Links"]))
     
     if demand:
-        for demand_type in dat:
-            if demand_type == 'adddemand':
-                for dem in dat[demand_type]:
-                    W.adddemand(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_point2point':
-                for dem in dat[demand_type]:
-                    W.adddemand_point2point(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_area2area2':
-                for dem in dat[demand_type]:
-                    W.adddemand_area2area2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            elif demand_type == 'adddemand_nodes2nodes2':
-                for dem in dat[demand_type]:
-                    W.adddemand_nodes2nodes2(**dem)
-                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
-            else:
-                pass
-        
-
-
-
-
+        demand_types = [t for t in dat if t in ("adddemand", "adddemand_point2point", "adddemand_area2area", "adddemand_nodes2nodes", "adddemand_area2area2", "adddemand_nodes2nodes2")]
+        # The demands are added in the original order, because the vehicle IDs and the random numbers depend on it. Files without the order are loaded by type.
+        order = dat.get("demand_order", [t for t in demand_types for dem in dat[t]])
+        demands = {t: iter(dat[t]) for t in demand_types}
+        for demand_type in order:
+            getattr(W, demand_type)(**next(demands[demand_type]))
+        for demand_type in demand_types:
+            W.print(f" Number of loaded `{demand_type}`s:", len(dat[demand_type]))
-- 
2.43.0


From 8db732c3923161fe6325953214195e4bd15798e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 30/82] fix: W.TIME seen during a step no longer depends on how
 the simulation is divided into execution calls

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 62dd9b9..964d54f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2439,6 +2439,8 @@ class World:
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
+            W.TIME = W.T*W.DELTAT
+
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
-- 
2.43.0


From f8167c29c48679123bbad90a9544f3c9a57b4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 31/82] fix: add_dest accepts the name of a node also for a
 taxi without destination

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 964d54f..7dbe1a7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1363,7 +1363,7 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
+                s.dest = s.W.get_node(dest)
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-- 
2.43.0


From 247b001bf5969696115cc3633a9087f3992f1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 32/82] fix: default names of trip requests are unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..1db95d5 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From 6c0826b0b89a0af24aea3a9b3323c9cff01f9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 33/82] fix: taxi handlers use their own random numbers, so
 that other worlds and programs cannot change the assignment

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 1db95d5..2894a5d 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -83,7 +83,7 @@ class TaxiHandler:
         s.trip_requests = []
         s.trip_requests_all = []
         s.W = W
-        random.seed(s.W.random_seed)
+        s.rng = random.Random(s.W.random_seed)
 
     def add_trip_request(s, orig, dest, depart_time, name=None, attribute=None):
         """
@@ -222,7 +222,7 @@ class TaxiHandler_random(TaxiHandler):
         Assigns trip request to random available taxi.
         """
         vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
-        random.shuffle(vacant_taxis)
+        s.rng.shuffle(vacant_taxis)
         for trip_request in s.trip_requests[:]:
             if len(vacant_taxis) == 0:
                 break
-- 
2.43.0


From 99761d9bc7af2d500abc4b069b797a3dd3d44162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 34/82] fix: a trip request with the same origin and
 destination is completed

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 2894a5d..b10f5f2 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -51,12 +51,12 @@ class TripRequest:
         The event of getting on a taxi. This is called via `Vehicle.event_node`.
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
+        del s.taxi.node_event[s.orig]
+
         s.taxi.add_dest(s.dest)
         s.taxi.node_event[s.dest] = s.arrive_at_dest
 
         s.get_taxi_time = s.W.TIME
-        
-        del s.taxi.node_event[s.orig]
     
     def arrive_at_dest(s):
         """
-- 
2.43.0


From 3e0794e9d749512746e08c09404bd2fc334cdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 35/82] fix: a taxi whose next destination is the node it has
 just reached chooses a next link

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7dbe1a7..8551cf9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1310,7 +1310,7 @@ class Vehicle:
         Select a next link from the current link.
         """
         if s.specified_route == None:
-            if s.dest != s.link.end_node:
+            if s.dest != s.link.end_node or s.mode == "taxi": #the next destination of a taxi can be the node where it is
                 outlinks = list(s.link.end_node.outlinks.values())
 
                 if len(outlinks):
-- 
2.43.0


From 543fe40043f32c11d1d1672ff9fb8251865515a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 36/82] fix: traveltime_instant of the C++ mode has one entry
 per step of the horizon again (the existing tests rely on it); only the
 cumulative curves are limited to the steps executed

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 601ccf8..df234d2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -315,7 +315,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()[:self.W.T]    #the steps not executed yet are excluded, as in Python mode
+        return self._cpp_link.get_traveltime_instant_np()
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From 58a3204e6ffb85a36b932e72f65060464379be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 37/82] fix: instant_travel_time of the C++ mode returns the
 latest known value for a time not simulated yet, as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index df234d2..230aac4 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -435,7 +435,7 @@ class CppLink:
 
     def instant_travel_time(self, t):
         arr = self.traveltime_instant
-        n = len(arr)
+        n = min(len(arr), self.W.T)    #the steps not executed yet are excluded, as in Python mode
         if n == 0:
             return self._free_flow_tt
         idx = int(t / self._deltat)
-- 
2.43.0


From 8656c83979dd451d703edea82b37fe8847bbde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 38/82] fix: after an error of the C++ engine the world shows
 the step of the error and the vehicles in it, as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 230aac4..e62817d 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1224,12 +1224,15 @@ class CppWorld:
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
         self._invalidate_vehicle_log_caches()
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
-        self._sync_from_cpp()
-
-        # Update Python-side time tracking from C++ state
-        self.T = self._cpp_world.timestep
-        self.TIME = self.T * self.DELTAT
+        try:
+            self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        finally:
+            # also when the C++ engine reports an error (e.g. an inconsistent specified route): T is then the step of the error, as in Python mode
+            self._sync_from_cpp()
+
+            # Update Python-side time tracking from C++ state
+            self.T = self._cpp_world.timestep
+            self.TIME = self.T * self.DELTAT
 
         if self.T >= self.TSIZE:
             self.simulation_terminated()
-- 
2.43.0


From 7452e9cffb4ce0b32c7abb735c6d6dbe040b203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 39/82] fix: SolverDSO_GA returns the best solution of the
 final generation instead of the last one evaluated

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..137de24 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1041,7 +1041,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = W_best
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 5145bb80dcc4514cdc3aa9810c754bd3d71560d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 40/82] fix: SolverDSO_ALNS penalises unfinished trips instead
 of rewarding them

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 137de24..63554cf 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1304,7 +1304,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From cbf5ec05e3d78194d9d8e3ea7b5adfe3be36a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 41/82] fix: SolverDSO_ALNS starts a vehicle off the route set
 on its quickest route, not the last one listed

---
 uxsim/DTAsolvers/DTAsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 63554cf..1bd5008 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1243,7 +1243,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    route_tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if route_tt < route_mintt:
+                        route_mintt = route_tt
                         route_id_mintt = j
                 
                 if route_id != -1:
-- 
2.43.0


From c3bf6cca7450b8ed9d603e33650b610a65451751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 42/82] fix: SolverDSO_ALNS draws initial routes from the route
 set only

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 1bd5008..f85ac85 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1272,7 +1272,7 @@ class SolverDSO_ALNS:
                 actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
                 xx_domain.append([i for i in range(actual_n_route)])
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+            xx0 = [random.randint(0, len(xx_domain[i])-1) for i in range(len(W.VEHICLES))]
 
 
         ##############################################################
-- 
2.43.0


From e7d36fc7dbc431539f84bbfa0780c73fbe4226e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 43/82] fix: a second solve() on a DTA solver does not mix with
 the results of the first

---
 uxsim/DTAsolvers/DTAsolvers.py             | 6 ++++++
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index f85ac85..85207c1 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -108,6 +108,8 @@ class SolverDUE:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -461,6 +463,8 @@ class SolverDSO_D2D:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -804,6 +808,8 @@ class SolverDSO_GA:
         GA part is initially written by ChatGPT o1-preview, and reviewed and overwritten by human.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
         
         # def initialize_population(pop_size, length, genome_maxs, W_init):
         #     """Initialize a population with random genomes."""
diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d7a6379..136aae9 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -259,6 +259,8 @@ class CppSolverDUE(SolverDUE):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDUE")
@@ -378,6 +380,8 @@ class CppSolverDSO_D2D(SolverDSO_D2D):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, swap_num=None, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDSO_D2D")
-- 
2.43.0


From 8f6a94e7a84f0d1e44957512ccbd18346e5ed838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 44/82] fix: ALNS does not fail when a most delayed link was
 used by no vehicle

---
 uxsim/DTAsolvers/ALNS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..e0ac258 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -456,6 +456,9 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     delay_ranking_min_n = 3
 
     most_delayed_links = list(df_l.sort_values(by='delay_ratio', ascending=False)[:max([int(len(df_l)*delay_ranking_ratio),delay_ranking_min_n])]["link"])
+    most_delayed_links = [l for l in most_delayed_links if len(W.get_link(l).vehicles_enter_log) > 0]
+    if len(most_delayed_links) == 0:
+        return destroy_random(state, base)
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
     for _ in range(k):
-- 
2.43.0


From 8c2ca1e4db340a0c168aac85a71c3d99985fc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 45/82] fix: closing one of several links between the same
 nodes no longer closes the others for the route guidance, and the closed one
 is not recommended

---
 uxsim/trafficpp/traffi.cpp | 14 ++++++++------
 uxsim/uxsim.py             | 11 ++++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index cff2c1e..ca3bc53 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1295,12 +1295,14 @@ void World::update_adj_time_matrix(){
         }
         // If there are multiple links between the same nodes, average the travel time
         double n = (double)adj_mat_link_count[i][j];
-        adj_mat_time[i][j] = adj_mat_time[i][j] * n / (n + 1.0) + new_link_tt / (n + 1.0);
-        adj_mat_link_count[i][j] += 1;
-        // If the inflow is prohibited, travel time is assumed to be infinite
+        // If the inflow is prohibited, travel time is assumed to be infinite, unless there is another link between the same nodes
         if (ln->capacity_in == 0.0){
-            adj_mat_time[i][j] = std::numeric_limits<double>::infinity();
+            if (n == 0.0) adj_mat_time[i][j] = std::numeric_limits<double>::infinity();
+            continue;
         }
+        if (n == 0.0) adj_mat_time[i][j] = 0.0;
+        adj_mat_time[i][j] = adj_mat_time[i][j] * n / (n + 1.0) + new_link_tt / (n + 1.0);
+        adj_mat_link_count[i][j] += 1;
     }
 }
 
@@ -1505,7 +1507,7 @@ void World::route_choice_duo(){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
             int lid = ln->id;
-            if (route_next[i][k] == j){
+            if (route_next[i][k] == j && ln->capacity_in != 0.0){
                 route_preference[k][lid] = (1.0 - duo_update_weight_tmp) * route_preference[k][lid] + duo_update_weight_tmp;
                 reinforced = true;
             }else{
@@ -1540,7 +1542,7 @@ void World::route_choice_duo_gradual(){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
             int lid = ln->id;
-            if (route_next[i][k] == j){
+            if (route_next[i][k] == j && ln->capacity_in != 0.0){
                 route_preference[k][lid] = (1.0 - w_tmp) * route_preference[k][lid] + w_tmp;
                 reinforced = true;
             }else{
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8551cf9..0594f2b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1596,11 +1596,15 @@ class RouteChoice:
                 else:
                     new_link_tt = link.traveltime_instant[-1] + link.get_toll(t)
                 n = adj_mat_link_count[i,j]
+                if link.capacity_in == 0: #if the inflow is prohibited, travel time is assumed to be infinite, unless there is another link between the same nodes
+                    if n == 0:
+                        s.adj_mat_time[i,j] = np.inf
+                    continue
+                if n == 0:
+                    s.adj_mat_time[i,j] = 0
                 s.adj_mat_time[i,j] = s.adj_mat_time[i,j]*n/(n+1) + new_link_tt/(n+1) # if there are multiple links between the same nodes, average the travel time
                 # s.adj_mat_time[i,j] = new_link_tt #if there is only one link between the nodes, this line is fine, but for generality we use the above line
                 adj_mat_link_count[i,j] += 1
-                if link.capacity_in == 0: #if the inflow is prohibited, travel time is assumed to be infinite
-                    s.adj_mat_time[i,j] = np.inf
             else:
                 s.adj_mat_time[i,j] = np.inf
         
@@ -1634,11 +1638,12 @@ class RouteChoice:
         # Create arrays for start and end nodes of links
         start_nodes = np.array([l.start_node.id for l in s.W.LINKS])
         end_nodes = np.array([l.end_node.id for l in s.W.LINKS])
+        open_links = np.array([l.capacity_in != 0 for l in s.W.LINKS])
 
         # Create the next_node_mask
         next_node_mask = np.zeros((num_nodes, num_links), dtype=bool)
         for k in range(num_nodes):
-            next_node_mask[k] = end_nodes == s.next[start_nodes, k]
+            next_node_mask[k] = (end_nodes == s.next[start_nodes, k]) & open_links
 
         # Update route preferences
         # In-place scaling of all elements
-- 
2.43.0


From 43fe7eab6a77737aba89aeb3075e7fe62c0eef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 46/82] fix: departure_time_in_second of a vehicle whose
 departure time is given in seconds is not multiplied by the timestep

---
 uxsim/uxsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 0594f2b..6a4a747 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1023,9 +1023,10 @@ class Vehicle:
         #出発・到着時刻
         if departure_time_is_time_step:#互換性のため，departure_timeは常にタイムステップ表記 -> TODO: 要訂正！
             s.departure_time: int = departure_time
+            s.departure_time_in_second: float = departure_time*s.W.DELTAT
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+            s.departure_time_in_second: float = departure_time
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 5274828e22aad849cdc1e5d9c37f13b69150659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 47/82] fix: route enumeration with several links between the
 same nodes uses the best one of them, instead of all or the last one

---
 uxsim/Utilities/Utilities.py | 41 ++++++++++++++++++------------------
 uxsim/trafficpp/traffi.cpp   | 20 ++++++++++--------
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..0741565 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -81,17 +81,17 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        u, v = l.start_node.name, l.end_node.name
+        cost = cost_function(l)
+        #if there are multiple links between the same nodes, the best one is used
+        if not G.has_edge(u, v) or cost < G[u][v]["weight"]:
+            G.add_edge(u, v, weight=cost, link=l.name)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]["link"] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -138,17 +138,17 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        u, v = l.start_node.name, l.end_node.name
+        cost = cost_function(l, t)
+        #if there are multiple links between the same nodes, the best one is used
+        if not G.has_edge(u, v) or cost < G[u][v]["weight"]:
+            G.add_edge(u, v, weight=cost, link=l.name)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [G[u][v]["link"] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -193,20 +193,19 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
     while 1:
         G = nx.DiGraph()
         for l in W.LINKS:
-            if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
-            else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+            u, v = l.start_node.name, l.end_node.name
+            weight = l.length/l.u
+            if iteration > 0:
+                weight *= random.uniform(0,100)
+            #if there are multiple links between the same nodes, the best one is used
+            if not G.has_edge(u, v) or weight < G[u][v]["weight"]:
+                G.add_edge(u, v, weight=weight, link=l.name)
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
             for dest in paths[source]:
                 if len(dict_routes[source, dest]) < k:
-                    path = []
-                    for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
-                        path.append(l.name)
+                    path = [G[u][v]["link"] for u, v in zip(paths[source][dest][:-1], paths[source][dest][1:])]
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
 
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ca3bc53..fb125b4 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1389,11 +1389,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (best link of the iteration wins for multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1409,14 +1406,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto ln : links){
+            node_pair_link[ln->start_node->id][ln->end_node->id] = -1;
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From 43be8cc19888cb7745c893220ba05c731bff56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 48/82] fix:
 get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t finds the
 update when the interval is not a multiple of the timestep, and returns its
 time

---
 uxsim/Utilities/Utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 0741565..3937140 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -315,10 +315,12 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
     """
     if t >= W.TMAX:
         t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    #the latest update until t. The interval is not exactly `W.DUO_UPDATE_TIME` if that is not a multiple of the timestep
+    dist_record = W.ROUTECHOICE.dist_record
+    duo_timestep = max(ts for ts in dist_record if ts <= max(t, 0)/W.DELTAT)
+    duo_t = duo_timestep*W.DELTAT
 
-    distances = W.ROUTECHOICE.dist_record[duo_timestep]
+    distances = dist_record[duo_timestep]
 
     if return_matrix == True:
         ret = distances
-- 
2.43.0


From 4303b1a1e08bfcf051ba4eb29d77a75d316f5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 49/82] fix: construct_time_space_network works for timesteps
 below 1 s and for a duration that is no multiple of the timestep

---
 uxsim/Utilities/Utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 3937140..9132e28 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -357,7 +357,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         Not efficient for large networks.
     """
     if dt == None:
-        dt = int(W.DELTAT)
+        dt = max(int(W.DELTAT), 1)
     tmax = int(W.TMAX)
     coef_t_to_xy = 1/10000  #for visualization
 
@@ -369,7 +369,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     for t in range(0, tmax, dt):
         for node in W.NODES:
             for link in node.outlinks.values():
-                travel_time = link.traveltime_actual[int(t/W.DELTAT)]
+                travel_time = link.traveltime_actual[min(int(t/W.DELTAT), len(link.traveltime_actual)-1)]
                 t_arrival = int((t + travel_time)/dt)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
-- 
2.43.0


From 35282bf55686ba07b82b17f3391d86c17324dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 50/82] fix: construct_time_space_network uses the best of
 several links between the same nodes instead of the last one

---
 uxsim/Utilities/Utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 9132e28..bb4f807 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -375,7 +375,9 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
                     if G.has_node(u) and G.has_node(v):
-                        G.add_edge(u, v, weight=travel_time)
+                        #if there are multiple links between the same nodes, the best one is used
+                        if not G.has_edge(u, v) or travel_time < G[u][v]["weight"]:
+                            G.add_edge(u, v, weight=travel_time)
                     else:
                         print(u,v)
 
-- 
2.43.0


From 38193bff7dec50585de7dee77b4f4b3e71af3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 51/82] fix: OSMImporter applies the default lanes and speed of
 motorways to motorways

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..53149de 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 6761c884ce8b51b1e59186ef443b46d53b81cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 52/82] fix: importing a map into a World that has nodes of the
 same names connects the imported links to the imported nodes

---
 uxsim/OSMImporter/OSMImporter.py   | 12 ++++--------
 uxsim/OSMImporter2/OSMImporter2.py | 22 ++++++++++------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 53149de..2848ba1 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -353,13 +353,9 @@ class OSMImporter:
         coef_degree_to_meter: float
             The coefficient to convert lon/lat degree to meter. Default is 111000.
         """
+        #node names can be changed by auto_rename if the World already has the same names
+        added_nodes = {}
         for i, node in enumerate(nodes):
-            nname = str(node[0])
-            if nname in [n.name for n in W.NODES]:
-                nname + f"_osm{i}"
-            W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
+            added_nodes[node[0]] = W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
         for i, link in enumerate(links):
-            lname = str(link[0])
-            if lname in [l.name for l in W.LINKS]:
-                lname + f"_osm{i}"
-            W.addLink(lname, str(link[1]), str(link[2]), length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
+            W.addLink(str(link[0]), added_nodes[link[1]], added_nodes[link[2]], length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..942bcb4 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -216,18 +216,17 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
-    added_node_names = []
+    #node names can be changed by auto_rename if the World already has the same names
+    added_nodes = {}
     for i in nodes.index:
         x = nodes.at[i, "x"]
         y = nodes.at[i, "y"]
-        node_id = str(nodes.at[i, "node_id"])
-        W.addNode(node_id, x, y, auto_rename=True)
-
-        added_node_names.append(node_id)
+        node_id = nodes.at[i, "node_id"]
+        added_nodes[node_id] = W.addNode(str(node_id), x, y, auto_rename=True)
 
     for i in links.index:
-        start_node = str(links.at[i, "from_node"])
-        end_node = str(links.at[i, "to_node"])
+        start_node = added_nodes[links.at[i, "from_node"]]
+        end_node = added_nodes[links.at[i, "to_node"]]
         length = links.at[i, "length"]
 
         name = links.at[i, "name"]
@@ -317,11 +316,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
             W.addLink(name=name+"-reverse", start_node=end_node, end_node=start_node, length=length, free_flow_speed=maxspeed, number_of_lanes=lanes, auto_rename=True)
     
     if set_node_capacity:
-        for node in W.NODES:
-            if node.name in added_node_names:
-                max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
-                node.flow_capacity = max_lanes*0.8*2
-                node.number_of_lanes = max_lanes*2
+        for node in added_nodes.values():
+            max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
+            node.flow_capacity = max_lanes*0.8*2
+            node.number_of_lanes = max_lanes*2
 
 
 def osm_network_to_World(W, north=None, south=None, east=None, west=None, bbox=None, custom_filter='["highway"~"trunk|primary"]', 
-- 
2.43.0


From 9ad6bdad22cb6b209820cfcbbea705b114a3dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 53/82] fix: OSMImporter2 estimates an unknown road type from
 the downstream links as well

---
 uxsim/OSMImporter2/OSMImporter2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 942bcb4..61861f7 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -244,7 +244,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
-                to_node = links.at[i, "from_node"]
+                to_node = links.at[i, "to_node"]
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-- 
2.43.0


From cd2f8c7269bec5b700614d9c7bcecc2bbde2c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 54/82] fix: OSMImporter2 without simplification imports each
 two-way street once instead of twice

---
 uxsim/OSMImporter2/OSMImporter2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 61861f7..6a71488 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -67,6 +67,10 @@ def _obtain_simplify_osm_by_osmnx_neatnet(bbox, custom_filter, simplification, k
         simplified_links = neatnet.neatify(ox.graph_to_gdfs(G_projected)[1], **kwargs_dict_for_neatnet_neatify)
     else:
         simplified_links = ox.graph_to_gdfs(G_projected)[1]
+        #a two-way street is listed once per direction by OSMnx, and its reverse link is added when the links are attached
+        oneway = simplified_links["oneway"].astype(bool)
+        is_reverse = simplified_links[~oneway].geometry.normalize().duplicated()
+        simplified_links = simplified_links[oneway | ~is_reverse.reindex(simplified_links.index, fill_value=False)]
     
     return simplified_links
 
-- 
2.43.0


From a902391ea2c9ef0652fded9e12e5eeb949fd0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 55/82] fix: OSMImporter2 imports areas where no street has a
 name, a speed limit or a number of lanes

---
 uxsim/OSMImporter2/OSMImporter2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 6a71488..748259a 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -156,6 +156,11 @@ def _extract_network_from_geodataframe(gdf):
     # ノードとリンクのDataFrameを作成
     nodes_df = pd.DataFrame(nodes)
     links_df = pd.DataFrame(links)
+
+    # attributes that no street in the area has are not given by OSMnx
+    for col in ['name', 'highway', 'maxspeed', 'lanes']:
+        if col not in links_df.columns:
+            links_df[col] = None
     
     # GeoDataFrameに変換
     nodes_gdf = gpd.GeoDataFrame(nodes_df, geometry='geometry', crs=gdf.crs)
-- 
2.43.0


From bb5770d066e85811645262379a0adbc45d900ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 56/82] fix: OSMImporter2 estimates unknown road types also if
 pandas represents them by NaN

---
 uxsim/OSMImporter2/OSMImporter2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 748259a..637150d 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -249,7 +249,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
         
         highway_type = links.at[i, "highway"]
         try:
-            if highway_type == None:
+            if not isinstance(highway_type, (str, list)): #None or NaN
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
@@ -257,7 +257,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-                links_connected_filtered = [l for l in links_connected if l != None]
+                links_connected_filtered = [l for l in links_connected if isinstance(l, str)]
 
                 if len(links_connected_filtered):
                     assumed_type = Counter(links_connected_filtered).most_common(1)[0][0]
-- 
2.43.0


From da68355300c786149e408f12478e35484a475290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 57/82] fix: highlighting a vehicle in the result viewer shows
 its positions at the chosen time only, and no longer those of the vehicle
 highlighted before

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 7488471..881d1c0 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -175,6 +175,7 @@ class GraphWidget(QGraphicsView):
         self.setTransformationAnchor(QGraphicsView.AnchorUnderMouse)
 
         self.vehicle_list = vehicle_list
+        self.vehicle_items = []
         self.show_vehicles = True
 
         for node_data in nodes:
@@ -195,6 +196,9 @@ class GraphWidget(QGraphicsView):
         self.set_vehice_items()
 
     def set_vehice_items(self):
+        #remove the items of the vehicle highlighted before
+        for vehicle in self.vehicle_items:
+            self.scene().removeItem(vehicle)
         self.vehicle_items = []
         if self.vehicle_list != None:
             for t, edge_name, x in self.vehicle_list:
@@ -425,6 +429,7 @@ class MainWindow(QMainWindow):
             self.graph_widget.set_vehice_items()
 
             self.graph_widget.set_show_vehicles(True)
+            self.update_graph()     #show the positions at the current time only
 
 
 class PandasModel(QAbstractTableModel):
-- 
2.43.0


From 67b3eb0460bc5783419c1dc38ee21f51c84c1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 58/82] fix: the highlighted vehicle stays on the links in the
 result viewer when the curve direction is changed

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 881d1c0..4e6a732 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -406,6 +406,7 @@ class MainWindow(QMainWindow):
     def set_curve_direction(self, direction):
         self.curve_direction = direction
         self.graph_widget.set_curve_direction(direction)
+        self.update_graph()     #the highlighted vehicle moves to the new curves
         
     def toggle_show_names(self):
         self.show_names = not self.show_names
-- 
2.43.0


From ab97b243f8605211b24120064d871d02ed1c91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 59/82] fix: the result viewer draws links that are too short
 for segment states, instead of dividing by zero

---
 uxsim/ResultGUIViewer/ResultGUIViewer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uxsim/ResultGUIViewer/ResultGUIViewer.py b/uxsim/ResultGUIViewer/ResultGUIViewer.py
index 4e6a732..3d8fc40 100644
--- a/uxsim/ResultGUIViewer/ResultGUIViewer.py
+++ b/uxsim/ResultGUIViewer/ResultGUIViewer.py
@@ -59,10 +59,14 @@ class EdgeItem(QGraphicsItem):
         path = self.shape()
         length = path.length()
         num_segments = self.density_list.shape[1]
-        segment_length = length / num_segments
         maxlw = 10
         minlw = 0.5
 
+        if num_segments == 0:
+            #the link is too short to have traffic states of its segments
+            painter.setPen(QPen(Qt.gray, minlw))
+            painter.drawPath(path)
+
         for i in range(num_segments):
             density = self.density_list[self.t, i]
             speed = self.Link.v_mat[self.t, i]
-- 
2.43.0


From d432dc3e40b9b758312490fb477d918d1313cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 60/82] fix: a flow capacity that is given to a node after its
 creation takes effect

The allowance of a node without capacity is 10e10, and it was never reset when
the node got a capacity, so the capacities set by OSMImporter2 had no effect.
---
 uxsim/trafficpp/traffi.cpp | 6 ++++++
 uxsim/uxsim.py             | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index fb125b4..efd97fe 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -225,6 +225,12 @@ void Node::adjust_node_capacity(){
 
 void Node::flow_capacity_update(){
     if (flow_capacity >= 0.0){
+        if (flow_capacity_remain == 10e10){ //the capacity was given after the node was created
+            flow_capacity_remain = 0.0;
+            if (number_of_lanes <= 0){
+                number_of_lanes = std::max((int)std::ceil(flow_capacity / 0.8), 1);
+            }
+        }
         if (flow_capacity_remain < w->delta_n * (number_of_lanes > 0 ? number_of_lanes : 1)){
             flow_capacity_remain += flow_capacity * w->delta_t;
         }
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6a4a747..886853c 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -224,6 +224,10 @@ class Node:
         flow capacity updates.
         """
         if s.flow_capacity != None:
+            if s.flow_capacity_remain == 10e10: #the capacity was given after the node was created
+                s.flow_capacity_remain = 0
+                if s.number_of_lanes == None:
+                    s.number_of_lanes = max(math.ceil(s.flow_capacity/0.8), 1)
             if s.flow_capacity_remain < s.W.DELTAN*s.number_of_lanes:
                 s.flow_capacity_remain += s.flow_capacity*s.W.DELTAT
         else:
-- 
2.43.0


From 2c31fc93d47f7bf9546d94ed0fa6392099108d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 61/82] fix: a closed link is not recommended to vehicles with
 heterogeneous route choice while a parallel link is open

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 886853c..b150728 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1301,7 +1301,7 @@ class Vehicle:
             for l in s.W.LINKS:
                 i = l.start_node.id
                 j = l.end_node.id
-                if j == s.W.ROUTECHOICE.next[i,k]:
+                if j == s.W.ROUTECHOICE.next[i,k] and l.capacity_in != 0: #a closed link is not recommended, although there can be an open link between the same nodes
                     route_pref_new[l.id] = 1
 
             if sum(list(s.route_pref.values())) == 0:
-- 
2.43.0


From c1a15ce134556b301dfd9d4e8395cff5809740e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 62/82] fix: execution calls of the compiled engine advance to
 the promised step when the timestep is no binary fraction

---
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e62817d..eba2f78 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1222,10 +1222,10 @@ class CppWorld:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
-        # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
+        # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]; the middle of the last timestep is given, because its exact start can be rounded down to the previous one
         self._invalidate_vehicle_log_caches()
         try:
-            self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+            self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         finally:
             # also when the C++ engine reports an error (e.g. an inconsistent specified route): T is then the step of the error, as in Python mode
             self._sync_from_cpp()
-- 
2.43.0


From d0c574a9af632dd56921112eb93436b0479db20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 63/82] fix: a vehicle added to the compiled engine is exactly
 one platoon when the timestep is no binary fraction

---
 uxsim/uxsim_cpp_wrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index eba2f78..44db817 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -10,6 +10,7 @@ This module only handles:
 """
 
 import bisect
+import math
 import random
 import time
 import string
@@ -967,7 +968,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        departure_step = int(departure_time if dep_is_ts else float(departure_time) / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -987,9 +988,12 @@ class CppWorld:
             lname = l.name if hasattr(l, 'name') else str(l)
             cpp_links_pref.append(lname)
 
+        # Demand for exactly one platoon in the departure timestep: times well inside the timesteps and a volume
+        # between one and two platoons, so that rounding errors cannot result in no or two platoons.
         n_before = self._cpp_world.vehicle_count
+        t = (departure_step + math.copysign(0.25, departure_step)) * self.DELTAT
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float(t), float(t + self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 3e5b4ec5af49a4486e6eca6365d9c39fa7449b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 64/82] fix: a node with a used name can be renamed
 automatically in the compiled engine

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 44db817..a97e453 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -72,7 +72,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From 203e3e682d0dd72647a96ae195a84027640fff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 65/82] fix: names that are not in the world are rejected by
 the compiled engine instead of crashing it, and objects of other worlds are
 resolved by name

---
 uxsim/uxsim_cpp_wrapper.py | 47 +++++++++++++-------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a97e453..dca7703 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -965,8 +965,8 @@ class CppWorld:
         orig = args[0] if len(args) > 0 else kwargs.get('orig')
         dest = args[1] if len(args) > 1 else kwargs.get('dest')
         departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
-        orig_name = orig.name if hasattr(orig, 'name') else str(orig)
-        dest_name = dest.name if hasattr(dest, 'name') else str(dest)
+        orig_name = self._resolve_node_name(orig)
+        dest_name = self._resolve_node_name(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
         departure_step = int(departure_time if dep_is_ts else float(departure_time) / self.DELTAT)
 
@@ -983,10 +983,8 @@ class CppWorld:
 
         # Resolve links_prefer to C++ link name strings
         links_prefer = kwargs.get('links_prefer', [])
-        cpp_links_pref = []
-        for l in links_prefer:
-            lname = l.name if hasattr(l, 'name') else str(l)
-            cpp_links_pref.append(lname)
+        cpp_links_pref = [self.get_link(l).name for l in links_prefer]
+        links_avoid = [self.get_link(l) for l in kwargs.get('links_avoid', [])]
 
         # Demand for exactly one platoon in the departure timestep: times well inside the timesteps and a volume
         # between one and two platoons, so that rounding errors cannot result in no or two platoons.
@@ -996,15 +994,8 @@ class CppWorld:
                    float(t), float(t + self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
-        links_avoid = kwargs.get('links_avoid', [])
         if links_avoid:
-            cpp_avoid = []
-            for l in links_avoid:
-                link_obj = self.get_link(l) if isinstance(l, str) else l
-                try:
-                    cpp_avoid.append(link_obj._cpp_link)
-                except AttributeError:
-                    pass
+            cpp_avoid = [l._cpp_link for l in links_avoid]
             n_after = self._cpp_world.vehicle_count
             for i in range(n_before, n_after):
                 try:
@@ -1028,10 +1019,8 @@ class CppWorld:
         return veh
 
     def _resolve_node_name(self, node):
-        """Get node name string from Node object or string."""
-        if hasattr(node, 'name'):
-            return node.name
-        return str(node)
+        """Get node name string from Node object or string. Raises an exception if it is not in this World."""
+        return self.get_node(node).name
 
     @demand_info_record
     def adddemand(self, orig, dest, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1450,25 +1439,21 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
-        if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
-        if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+        name = node if isinstance(node, (str, np.str_)) else getattr(node, 'name', None)
+        if name in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[name]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
-        if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
-        if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
+        name = link if isinstance(link, (str, np.str_)) else getattr(link, 'name', None)
+        if name in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[name]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From 7e9042307b294f4c3839d3cdddbd93580b2265eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 66/82] fix: a rejected demand or vehicle is not recorded in
 the scenario

---
 uxsim/scenario_reader_writer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 5b9c262..61c9027 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -24,6 +24,9 @@ def demand_info_record(func):
         # self引数を除外
         arg_dict = dict(list(bound_args.arguments.items())[1:])
         
+        # 元の関数を呼び出す．例外が出た場合は記録しない
+        result = func(self, *args, **kwargs)
+
         # direct_call=Trueが含まれている場合のみ保存
         if arg_dict.get('direct_call') == True:
             
@@ -35,9 +38,8 @@ def demand_info_record(func):
             self.demand_info[func_name].append(arg_dict_to_save)
             # 呼び出し順を保存
             self.demand_info["demand_order"].append(func_name)
-        
-        # 元の関数を呼び出す
-        return func(self, *args, **kwargs)
+
+        return result
     
     return wrapper
 
-- 
2.43.0


From 27ffb5f94a3629824009f395a26ef6d5c91b21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 67/82] fix: override_signal with invalid groups changes
 nothing

---
 uxsim/uxsim.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b150728..5cb3bf9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -163,6 +163,19 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
+        #check the groups first, so that an invalid setting changes nothing
+        phase_info = ddict(list)
+        if groups is not None:
+            if len(groups) != len(signal):
+                raise ValueError("The length of `group` must match the length of `signal`.")
+
+            for i, group in enumerate(groups):
+                for link in group:
+                    l = s.W.get_link(link)
+                    if l not in s.inlinks.values():
+                        raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
+                    phase_info[l].append(i)
+
         s.signal = list(signal) #copy, because the list of the default argument would be shared by all nodes of all worlds
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
@@ -172,20 +185,6 @@ class Node:
         if signal_offset_old != None:
             s.signal_offset = s.cycle_length-signal_offset_old
 
-        if groups is None:
-            return None
-        
-        if len(groups) != len(signal):
-            raise ValueError("The length of `group` must match the length of `signal`.")
-        
-        phase_info = ddict(list)
-        for i, group in enumerate(groups):
-            for link in group:
-                l = s.W.get_link(link)
-                if l not in s.inlinks.values():
-                    raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
-                phase_info[l].append(i)
-
         for key in phase_info:
             key.signal_group = phase_info[key]
 
-- 
2.43.0


From 5968e40e0a406f8625ecb45e1b4acaa54dd833f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 68/82] fix: override_signal with invalid groups changes
 nothing in the compiled engine

---
 uxsim/uxsim_cpp_wrapper.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index dca7703..5bb0ade 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -150,6 +150,19 @@ class CppNode:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
+        #check the groups first, so that an invalid setting changes nothing
+        phase_info = ddict(list)
+        if groups is not None:
+            if len(groups) != len(signal):
+                raise ValueError("The length of `group` must match the length of `signal`.")
+
+            for i, group in enumerate(groups):
+                for link in group:
+                    l = self.W.get_link(link)
+                    if l not in self.inlinks.values():
+                        raise ValueError(f"Link {l.name} is not an incoming link of node {self.name}.")
+                    phase_info[l].append(i)
+
         self.signal = signal
         self.signal_offset = signal_offset
         if reset:
@@ -159,20 +172,6 @@ class CppNode:
             self.signal_offset = self.cycle_length - signal_offset_old
         self._cpp_node.signal_offset = float(self.signal_offset)
 
-        if groups is None:
-            return None
-
-        if len(groups) != len(signal):
-            raise ValueError("The length of `group` must match the length of `signal`.")
-
-        phase_info = ddict(list)
-        for i, group in enumerate(groups):
-            for link in group:
-                l = self.W.get_link(link)
-                if l not in self.inlinks.values():
-                    raise ValueError(f"Link {l.name} is not an incoming link of node {self.name}.")
-                phase_info[l].append(i)
-
         for key in phase_info:
             key.signal_group = phase_info[key]
 
-- 
2.43.0


From caa0b61f14f7938f298714fff35b3d7204948372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 69/82] fix: a vehicle that is rejected because of its name
 does not consume random numbers

---
 uxsim/uxsim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 5cb3bf9..31fe8ea 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1019,6 +1019,11 @@ class Vehicle:
         """
 
         s.W = W
+
+        #check the name first, so that a rejected vehicle changes nothing (such as the random numbers)
+        if not auto_rename and (name if name != None else str(len(s.W.VEHICLES))) in s.W.VEHICLES:
+            raise ValueError(f"Vehicle name {name if name != None else str(len(s.W.VEHICLES))} already used by another vehicle. Please specify a unique name.")
+
         #出発・目的地ノード
         s.orig = s.W.get_node(orig)
         s.dest = s.W.get_node(dest)
@@ -1118,8 +1123,6 @@ class Vehicle:
         if s.name in s.W.VEHICLES.keys():
             if auto_rename:
                 s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
-            else:
-                raise ValueError(f"Vehicle name {s.name} already used by another vehicle. Please specify a unique name.")
         s.W.VEHICLES[s.name] = s
         s.W.VEHICLES_LIVING[s.name] = s
 
-- 
2.43.0


From 282b9a6fa7b8d000e27d41ebdd1f7074f491a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 70/82] fix: add_dests with an unknown node changes nothing

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 31fe8ea..6fc9727 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1411,6 +1411,7 @@ class Vehicle:
         dests : list of str | Node
             The list of destinations to be added.
         """
+        dests = [s.W.get_node(dest) for dest in dests] #check all of them first
         for dest in dests:
             s.add_dest(dest)
     
-- 
2.43.0


From 3dda3315c609084ba8add61ba1c34499aa37e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 71/82] fix: add_dest of the compiled engine rejects vehicles
 that are no taxis as the Python engine does

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5bb0ade..e19399a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -728,6 +728,8 @@ class CppVehicle:
 
     def add_dest(self, dest, order=-1):
         dest = self.W.get_node(dest)
+        if getattr(self, 'mode', 'single_trip') != 'taxi':
+            raise ValueError(f"Vehicle {self.name} is not in taxi mode. Cannot add destination.")
         if order == -1:
             self.dest_list.append(dest)
         else:
-- 
2.43.0


From 1544b871f0f98d10e28a7d10506f7b1867e26748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 72/82] fix: addVehicle of the compiled engine observes
 trip_abort

---
 uxsim/uxsim_cpp_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e19399a..770f8bc 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1014,6 +1014,7 @@ class CppWorld:
             veh.name = name
             self.VEHICLES[name] = veh
             self.VEHICLES_LIVING[name] = veh
+        veh._cpp_vehicle.trip_abort = int(kwargs.get('trip_abort', 1))
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
-- 
2.43.0


From b8c71b5f1b481b1c19e7045e9a985dab481793e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 73/82] fix: enforce_route of the compiled engine observes
 set_avoid

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 770f8bc..fc48b39 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -711,6 +711,8 @@ class CppVehicle:
             self._cpp_vehicle.enforce_route(cpp_links)
         except (AttributeError, TypeError):
             pass
+        if set_avoid:
+            self.set_links_avoid([l for l in self.W.LINKS if l not in py_links])
 
     def set_links_prefer(self, links):
         self.links_prefer = [self.W.get_link(l) for l in links]
-- 
2.43.0


From 54994c1895e9f5f7c0cd9888eb2e30f73fa33bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 74/82] fix: vacant taxis can use heterogeneous route choice

---
 uxsim/uxsim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6fc9727..773dbdd 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1299,12 +1299,13 @@ class Vehicle:
                 s.route_pref = {l.id:0 for l in s.W.LINKS}
         elif s.route_choice_principle == "heterogeneous_DUO":
             route_pref_new = {l.id:0 for l in s.W.LINKS}
-            k = s.dest.id
-            for l in s.W.LINKS:
-                i = l.start_node.id
-                j = l.end_node.id
-                if j == s.W.ROUTECHOICE.next[i,k] and l.capacity_in != 0: #a closed link is not recommended, although there can be an open link between the same nodes
-                    route_pref_new[l.id] = 1
+            if s.dest != None: #no link is recommended to a vacant taxi
+                k = s.dest.id
+                for l in s.W.LINKS:
+                    i = l.start_node.id
+                    j = l.end_node.id
+                    if j == s.W.ROUTECHOICE.next[i,k] and l.capacity_in != 0: #a closed link is not recommended, although there can be an open link between the same nodes
+                        route_pref_new[l.id] = 1
 
             if sum(list(s.route_pref.values())) == 0:
                 #最初にpreferenceが空なら確定的に初期化
-- 
2.43.0


From 053180f00caec2e85c8556921d4bdb31ba2572a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 75/82] fix: automatically assigned vehicle names skip the
 names given by the user

---
 uxsim/uxsim.py             | 9 ++++++---
 uxsim/uxsim_cpp_wrapper.py | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 773dbdd..021b77f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1021,8 +1021,8 @@ class Vehicle:
         s.W = W
 
         #check the name first, so that a rejected vehicle changes nothing (such as the random numbers)
-        if not auto_rename and (name if name != None else str(len(s.W.VEHICLES))) in s.W.VEHICLES:
-            raise ValueError(f"Vehicle name {name if name != None else str(len(s.W.VEHICLES))} already used by another vehicle. Please specify a unique name.")
+        if not auto_rename and name != None and name in s.W.VEHICLES:
+            raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
 
         #出発・目的地ノード
         s.orig = s.W.get_node(orig)
@@ -1119,7 +1119,10 @@ class Vehicle:
         if name != None:
             s.name = name
         else:
-            s.name = str(s.id)
+            num = s.id
+            while str(num) in s.W.VEHICLES: #the name may have been given to another vehicle by the user
+                num += 1
+            s.name = str(num)
         if s.name in s.W.VEHICLES.keys():
             if auto_rename:
                 s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index fc48b39..7315170 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1256,6 +1256,10 @@ class CppWorld:
             i = start_idx + j
             cpp_veh = get_veh(i)
             name = cpp_veh.name
+            num = i
+            while name in vehicles: # the name may have been given to another vehicle by the user
+                num += 1
+                name = str(num)
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From 1b8752bdf5fd7af24665eb98fa31ff31ea6e279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 76/82] fix: cumulative_curves accepts the name of a single
 link

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 96ba7f9..f93260c 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -584,7 +584,7 @@ class Analyzer:
         try:
             iter(links)
             if type(links) == str:
-                flag_single = 1
+                links = [links]
         except TypeError:
             links = [links]
 
-- 
2.43.0


From ab91cae8ad4457f5ba4f2e5939907f9944f330cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 77/82] fix: cumulative_curves can be drawn for non-integer
 timesteps, for durations that are not multiples of them, and in the middle of
 a simulation

---
 uxsim/analyzer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f93260c..fc111b1 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -595,11 +595,15 @@ class Analyzer:
             plt.title(link)
             ax2 = ax1.twinx()
 
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_arrival, "r-", label="arrival")
-            ax1.plot(range(0, s.W.TMAX, s.W.DELTAT), link.cum_departure, "b-", label="departure")
+            #the simulated timesteps only. Note that TMAX may not be a multiple of DELTAT, and DELTAT may not be an integer
+            n = min(s.W.TSIZE, len(link.cum_arrival))
+            ts = [i*s.W.DELTAT for i in range(n)]
 
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_instant, ".", c="gray", ms=0.5, label="instantaneous")
-            ax2.plot(range(0, s.W.TMAX, s.W.DELTAT), link.traveltime_actual, "k.", ms=1, label="actual")
+            ax1.plot(ts, link.cum_arrival[:n], "r-", label="arrival")
+            ax1.plot(ts, link.cum_departure[:n], "b-", label="departure")
+
+            ax2.plot(ts, link.traveltime_instant[:n], ".", c="gray", ms=0.5, label="instantaneous")
+            ax2.plot(ts, link.traveltime_actual[:n], "k.", ms=1, label="actual")
 
             ax1.set_ylim(ymin=0)
             ax2.set_ylim(ymin=0)
-- 
2.43.0


From bcb5dbad6c404ec6f18484f6f500a12f3b5e4444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 78/82] fix: macroscopic_fundamental_diagram accepts a single
 link, as documented

---
 uxsim/analyzer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index fc111b1..64e1cc7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1489,6 +1489,12 @@ class Analyzer:
 
         if links == None:
             links = s.W.LINKS
+        try:
+            iter(links)
+            if type(links) == str:
+                links = [links]
+        except TypeError:
+            links = [links]
         links = [s.W.get_link(link) for link in links]
         links = frozenset(links)
         s.compute_mfd(links)
-- 
2.43.0


From 91d65a060db0b606f11ef5b1b03c4f590d90c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 79/82] fix: animations can be generated for non-integer
 timesteps and for durations that are not multiples of them

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 64e1cc7..f6602b6 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1238,7 +1238,7 @@ class Analyzer:
         """
         s.W.print(" generating animation...")
         pics = []
-        for t in tqdm(range(0, s.W.TMAX, s.W.DELTAT*timestep_skip), disable=(s.W.print_mode==0)):
+        for t in tqdm([int(i*s.W.DELTAT) for i in range(0, s.W.TSIZE, timestep_skip)], disable=(s.W.print_mode==0)):
             if int(t/s.W.LINKS[0].edie_dt) < s.W.LINKS[0].k_mat.shape[0]:
                 if detailed:
                     #todo_later: 今後はこちらもpillowにする
@@ -1386,7 +1386,7 @@ class Analyzer:
         miny -= buffer
 
         pics = []
-        for t in tqdm(range(int(s.W.TMAX*0), int(s.W.TMAX*1), s.W.DELTAT*speed_coef)):
+        for t in tqdm([int(i*s.W.DELTAT) for i in range(0, s.W.TSIZE, speed_coef)]):
             img = Image.new("RGBA", (int(maxx-minx), int(maxy-miny)), (255, 255, 255, 255))
             draw = ImageDraw.Draw(img)
                 
-- 
2.43.0


From 5f7bdace19ae99c070c2d691ecd97317dd482d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 80/82] fix: network pictures in density_flow mode showed a
 flow above the capacity as no flow at all

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f6602b6..1d90e33 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1058,7 +1058,7 @@ class Analyzer:
                 if q < 0:
                     q = 0
                 if q > 1:
-                    q = 1
+                    q = 1.0  # an integer would be taken as the index of a color
                 c = plt.colormaps["magma"](q)
             else: #"flow_delay" mode
                 k = (l.cum_arrival[int(t/s.W.DELTAT)]-l.cum_departure[int(t/s.W.DELTAT)])/l.length
-- 
2.43.0


From a0b48577e774f67782e9ed4cdc8157ae25254e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 81/82] fix: network_fancy left out vehicles that were faster
 than the free-flow speed of their link

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 1d90e33..f0e5437 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1409,7 +1409,7 @@ class Analyzer:
             for trace in traces:
                 xs = trace["xs"]*coef-minx
                 ys = trace["ys"]*coef-miny
-                size = 1.5*(1-trace["v"])*scale
+                size = 1.5*max(0, 1-trace["v"])*scale
                 coords = [(l[0], flip(l[1])) for l in list(np.vstack([xs, ys]).T)]
                 try:
                     draw.line(coords,
-- 
2.43.0


From 5e181723ee96ed7c55271403a5cc7a9dd29947f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 82/82] fix: plot_vehicle_stats of the GA and ALNS solvers
 failed with trips not completed in some iteration

---
 uxsim/DTAsolvers/DTAsolvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 85207c1..3c97e38 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1111,7 +1111,9 @@ class SolverDSO_GA:
         for vehid in s.route_log[0].keys():
             if (s.W_sol.VEHICLES[vehid].orig.name == orig or orig == None) and (s.W_sol.VEHICLES[vehid].dest.name == dest or dest == None):
                 length = len(s.route_log)
-                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length)]
+                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length) if vehid in s.cost_log[day]]  #only the iterations in which the trip was completed
+                if len(ts) == 0:
+                    continue
                 ave_TT.append(np.average(ts))
                 std_TT.append(np.std(ts))
                 depature_time.append(s.W_sol.VEHICLES[vehid].departure_time_in_second)
@@ -1445,7 +1447,9 @@ class SolverDSO_ALNS:
         for vehid in s.route_log[0].keys():
             if (s.W_sol.VEHICLES[vehid].orig.name == orig or orig == None) and (s.W_sol.VEHICLES[vehid].dest.name == dest or dest == None):
                 length = len(s.route_log)
-                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length)]
+                ts = [s.cost_log[day][vehid] for day in range(int(length/2), length) if vehid in s.cost_log[day]]  #only the iterations in which the trip was completed
+                if len(ts) == 0:
+                    continue
                 ave_TT.append(np.average(ts))
                 std_TT.append(np.std(ts))
                 depature_time.append(s.W_sol.VEHICLES[vehid].departure_time_in_second)
-- 
2.43.0

