From 52b367ee653aa3e45236daf4ab0eac6e0e834c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 01/77] fix: Link state properties are computed from the
 current state; a cached value read in mid-step was reused in the next step

---
 uxsim/uxsim.py | 39 +++++++--------------------------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..4b1c966 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -597,13 +597,6 @@ class Link:
         s.user_function = user_function
 
 
-        #リアルタイムリンク状態（外部から参照する用）
-        s._speed = -1 #リンク全体の平均速度
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1 #車両数
-        s._num_vehicles_queue = -1 #自由流速度未満の車両数
-
         #より正確な車両軌跡
         s.tss = []
         s.xss = []
@@ -655,13 +648,6 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
-        s._speed = -1
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1
-        s._num_vehicles_queue = -1
-
     def in_out_flow_constraint(s):
         """
         Link capacity updates.
@@ -900,36 +886,25 @@ class Link:
     #getter/setter
     @property
     def speed(s):
-        if s._speed == -1:
-            if len(s.vehicles):
-                s._speed = np.average([veh.v for veh in s.vehicles])
-            else:
-                s._speed = s.u
-        return s._speed
+        if len(s.vehicles):
+            return np.average([veh.v for veh in s.vehicles])
+        return s.u
 
     @property
     def density(s):
-        if s._density == -1:
-            s._density = s.num_vehicles/s.length
-        return s._density
+        return s.num_vehicles/s.length
 
     @property
     def flow(s):
-        if s._flow == -1:
-            s._flow = s.density*s.speed
-        return s._flow
+        return s.density*s.speed
 
     @property
     def num_vehicles(s):
-        if s._num_vehicles == -1:
-            s._num_vehicles = len(s.vehicles)*s.W.DELTAN
-        return s._num_vehicles
+        return len(s.vehicles)*s.W.DELTAN
 
     @property
     def num_vehicles_queue(s):
-        if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
-        return s._num_vehicles_queue
+        return sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
     # @property
-- 
2.43.0


From 8a8304f09455e501ea31d77cfbb856b1b555086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:24 +0000
Subject: [PATCH 02/77] fix: C++ mode executes the last timestep of a partial
 run also when timestep*DELTAT is rounded down

---
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..c39355a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1188,8 +1188,8 @@ class CppWorld:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
-        # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]. The middle of the last timestep is given, as its start may be rounded down to the preceding timestep.
+        self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From bfa23aa8f7f71912d9fc20c26f968d12e49c6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 03/77] fix: addVehicle in C++ mode creates exactly one platoon
 at the given timestep for any step width

---
 uxsim/uxsim_cpp_wrapper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c39355a..c9445eb 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -520,7 +520,7 @@ class CppVehicle:
 
     @property
     def departure_time(self):
-        return int(self._cpp_vehicle.departure_time / self.W.DELTAT)
+        return int(round(self._cpp_vehicle.departure_time / self.W.DELTAT))
 
     @property
     def departure_time_in_second(self):
@@ -533,7 +533,7 @@ class CppVehicle:
         if at >= 0:
             if self.state == "abort":
                 return -1
-            return int(at / self.W.DELTAT)
+            return int(round(at / self.W.DELTAT))
         return -1
 
     @property
@@ -936,7 +936,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -957,8 +957,9 @@ class CppWorld:
             cpp_links_pref.append(lname)
 
         n_before = self._cpp_world.vehicle_count
+        # exactly one platoon in exactly one timestep: the values are chosen apart from the rounding thresholds
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float((ts + 0.5) * self.DELTAT), float((ts + 1.5) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 7ea21ab2d547604a7e967ba623f92d6d91e1ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 04/77] fix: adddemand_area2area2 and adddemand_nodes2nodes2 in
 C++ mode pass the attribute on and never generate trips from a node to itself

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c9445eb..8cb6bc2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1056,7 +1056,10 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            d2 = d
+            if o == d:
+                d2 = self.rng.choice([dd for dd in dests if dd != d])
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1072,7 +1075,7 @@ class CppWorld:
             d2 = d
             if o == d:
                 d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From fe9d82c7942c62a75bc551052596243fa54619ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 05/77] fix: get_nearest_node finds the nearest node at any
 distance

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4b1c966..31e3c0e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2575,7 +2575,7 @@ class World:
         object
             The nearest Node object.
         """
-        min_dist = 1e10
+        min_dist = float("inf")
         nearest_node = None
         for node in W.NODES:
             dist = (node.x-x)**2 + (node.y-y)**2
-- 
2.43.0


From 1ab4409a5eb924f428cfb66445991b42f5a01930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 06/77] fix: in C++ mode a renamed node is registered under its
 new name and no vehicle replaces another one of the same name

---
 uxsim/uxsim_cpp_wrapper.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8cb6bc2..22b1e2c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
@@ -978,16 +978,9 @@ class CppWorld:
                 except (AttributeError, TypeError):
                     pass
 
-        self._register_new_cpp_vehicles()
+        self._register_new_cpp_vehicles(name)
 
         veh = self._veh_by_index[n_before]
-        if name is not None:
-            # The new vehicle is the last entry, so pop+reinsert keeps VEHICLES in C++ index order.
-            self.VEHICLES.pop(veh.name, None)
-            self.VEHICLES_LIVING.pop(veh.name, None)
-            veh.name = name
-            self.VEHICLES[name] = veh
-            self.VEHICLES_LIVING[name] = veh
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
@@ -1205,8 +1198,8 @@ class CppWorld:
             return 1
         return 0
 
-    def _register_new_cpp_vehicles(self):
-        """Register any new C++ vehicles into Python VEHICLES dict.
+    def _register_new_cpp_vehicles(self, custom_name=None):
+        """Register any new C++ vehicles into Python VEHICLES dict, under the C++ name or the given one (for a single vehicle).
         Creates lightweight proxy objects — most attributes are read from C++ on demand."""
         start_idx = self._cpp_veh_registered_count
         total = self._cpp_world.vehicle_count
@@ -1224,7 +1217,9 @@ class CppWorld:
         for j in range(n_new):
             i = start_idx + j
             cpp_veh = get_veh(i)
-            name = cpp_veh.name
+            name = cpp_veh.name if custom_name is None else custom_name
+            if name in vehicles:
+                raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From 6250f85f589b35f09ad4230d4e9a9fcc7c699150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 07/77] fix: unknown nodes and links are rejected in C++ mode
 as in Python mode

---
 uxsim/trafficpp/traffi.cpp | 17 ++++++++------
 uxsim/uxsim_cpp_wrapper.py | 47 +++++++++++++-------------------------
 2 files changed, 26 insertions(+), 38 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..cabb045 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -510,8 +510,8 @@ Link::Link(
         this->capacity_in_remain = this->capacity_in * w->delta_t;
     }
 
-    start_node = w->nodes_map[start_node_name];
-    end_node = w->nodes_map[end_node_name];
+    start_node = w->get_node(start_node_name);
+    end_node = w->get_node(end_node_name);
 
     arrival_curve.resize(w->total_timesteps, 0.0);
     departure_curve.resize(w->total_timesteps, 0.0);
@@ -754,8 +754,8 @@ Vehicle::Vehicle(
       flag_trip_aborted(0),
       trip_abort(1),
       distance_traveled(0.0){
-    orig = w->nodes_map[orig_name];
-    dest = w->nodes_map[dest_name];
+    orig = w->get_node(orig_name);
+    dest = w->get_node(dest_name);
 
     // Initialize link preference (vector indexed by link_id)
     route_preference.assign(w->links.size(), 0.0);
@@ -1917,6 +1917,11 @@ inline void add_demand(
         vector<string> links_preferred_str = {}){
     // Iterate over integer timesteps, mirroring Python's adddemand: `for t in range(int(t_start/DELTAT), int(t_end/DELTAT))`.
     // This keeps the iteration count and the timestep-quantized departure times identical to Python even when t_start/t_end are not multiples of delta_t.
+    vector<Link *> links_preferred;
+    for (auto &ln_str : links_preferred_str){
+        links_preferred.push_back(w->get_link(ln_str));
+    }
+
     int ts_start = (int)(start_t / w->delta_t);
     int ts_end = (int)(end_t / w->delta_t);
     double demand = 0.0;
@@ -1931,9 +1936,7 @@ inline void add_demand(
                 orig_name,
                 dest_name);
 
-            for (auto ln_str : links_preferred_str){
-                v->links_preferred.push_back(w->links_map[ln_str]);
-            }
+            v->links_preferred = links_preferred;
 
             demand -= (double)w->delta_n;
         }
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 22b1e2c..429ac55 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -933,8 +933,8 @@ class CppWorld:
         orig = args[0] if len(args) > 0 else kwargs.get('orig')
         dest = args[1] if len(args) > 1 else kwargs.get('dest')
         departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
-        orig_name = orig.name if hasattr(orig, 'name') else str(orig)
-        dest_name = dest.name if hasattr(dest, 'name') else str(dest)
+        orig_name = self._resolve_node_name(orig)
+        dest_name = self._resolve_node_name(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
         ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
@@ -953,8 +953,8 @@ class CppWorld:
         links_prefer = kwargs.get('links_prefer', [])
         cpp_links_pref = []
         for l in links_prefer:
-            lname = l.name if hasattr(l, 'name') else str(l)
-            cpp_links_pref.append(lname)
+            cpp_links_pref.append(self.get_link(l).name)
+        cpp_avoid = [self.get_link(l)._cpp_link for l in kwargs.get('links_avoid', [])]
 
         n_before = self._cpp_world.vehicle_count
         # exactly one platoon in exactly one timestep: the values are chosen apart from the rounding thresholds
@@ -962,17 +962,8 @@ class CppWorld:
                    float((ts + 0.5) * self.DELTAT), float((ts + 1.5) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
-        links_avoid = kwargs.get('links_avoid', [])
-        if links_avoid:
-            cpp_avoid = []
-            for l in links_avoid:
-                link_obj = self.get_link(l) if isinstance(l, str) else l
-                try:
-                    cpp_avoid.append(link_obj._cpp_link)
-                except AttributeError:
-                    pass
-            n_after = self._cpp_world.vehicle_count
-            for i in range(n_before, n_after):
+        if cpp_avoid:
+            for i in range(n_before, self._cpp_world.vehicle_count):
                 try:
                     self._cpp_world.get_vehicle_by_index(i).links_avoid = cpp_avoid
                 except (AttributeError, TypeError):
@@ -988,9 +979,7 @@ class CppWorld:
 
     def _resolve_node_name(self, node):
         """Get node name string from Node object or string."""
-        if hasattr(node, 'name'):
-            return node.name
-        return str(node)
+        return self.get_node(node).name
 
     @demand_info_record
     def adddemand(self, orig, dest, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1399,25 +1388,21 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
-        if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
-        if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+        name = node if isinstance(node, (str, np.str_)) else getattr(node, 'name', None)
+        if isinstance(name, str) and name in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[name]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
-        if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
-        if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
+        name = link if isinstance(link, (str, np.str_)) else getattr(link, 'name', None)
+        if isinstance(name, str) and name in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[name]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From 4e4052b7598df1fc241d46cc15ec26b0c880bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 08/77] fix: a destination given by name to an idle taxi is
 resolved to the node

---
 uxsim/uxsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 31e3c0e..723ca82 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1355,14 +1355,15 @@ class Vehicle:
             The order of the destination in the list. Default is -1, which appends the destination to the end of the list.
         """
         if s.mode == "taxi":
+            dest = s.W.get_node(dest)
             if s.dest == None:
                 s.dest = dest
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-                    s.dest_list.append(s.W.get_node(dest))
+                    s.dest_list.append(dest)
                 else:
-                    s.dest_list.insert(order, s.W.get_node(dest))
+                    s.dest_list.insert(order, dest)
         else:
             raise ValueError(f"Vehicle {s.name} is not in taxi mode. Cannot add destination.")
     
-- 
2.43.0


From d81a4c9cb8102528f5773fc22493e65cd3298424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 09/77] fix: add_dest in C++ mode reports that taxi mode is not
 available instead of storing a destination nobody serves

---
 uxsim/uxsim_cpp_wrapper.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 429ac55..8796b83 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -707,11 +707,7 @@ class CppVehicle:
             pass
 
     def add_dest(self, dest, order=-1):
-        dest = self.W.get_node(dest)
-        if order == -1:
-            self.dest_list.append(dest)
-        else:
-            self.dest_list.insert(order, dest)
+        raise ValueError(f"Vehicle {self.name} is not in taxi mode. Cannot add destination.")
 
     def add_dests(self, dests):
         for d in dests:
-- 
2.43.0


From 4a7bd591c1b070f10972d7b3c99b9d1e8cf6f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 10/77] fix: a link with a given eular_dx can be simulated

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 723ca82..29a8b1a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -609,6 +609,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From 51dabd06c3cb38b4185d425c2c5cb5e5a7cc4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 11/77] fix: a non-integer number of lanes is rejected in C++
 mode as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8796b83..1698f40 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -195,6 +195,8 @@ class CppLink:
         self.start_node = self.W.get_node(start_node)
         self.end_node = self.W.get_node(end_node)
         self.number_of_lanes = int(number_of_lanes)
+        if self.number_of_lanes != number_of_lanes:
+            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {name}.")
 
         # Signal
         self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
-- 
2.43.0


From 6f47a146c4691fd16514d4f19c810903141bb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 12/77] fix: departure_time_in_second is in seconds also when
 the departure time was given in seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 29a8b1a..06bd727 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1023,7 +1023,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 3136d54d4e5f62908d66241753176eea7f94be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 13/77] fix: vehicle logs read in the middle of a run in C++
 mode are updated when the run is continued

---
 uxsim/uxsim_cpp_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1698f40..29346ff 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1238,7 +1238,9 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches of the preceding part of the run are dropped; they are built lazily on first access (e.g. when analyzer reads log_t)."""
+        for veh in self._veh_by_index:
+            veh._log_cache = None
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
-- 
2.43.0


From e21a98bef592cd42be9d921b456edec51c8a6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 14/77] fix: flow capacity and critical density q_star, k_star
 follow changes of free-flow speed and jam density

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 06bd727..6cb81e1 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -944,6 +944,8 @@ class Link:
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
@@ -955,6 +957,8 @@ class Link:
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative jam_density at {s}", UserWarning)
 
-- 
2.43.0


From ae1ca917d8341f294c9d1801096959dca830d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 15/77] fix: signal plans, signal groups and meta data are not
 shared between objects through default arguments

---
 uxsim/uxsim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6cb81e1..e306c9e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -163,7 +163,7 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        s.signal = signal
+        s.signal = list(signal)
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
         if reset:
@@ -561,6 +561,8 @@ class Link:
         s.signal_group = signal_group
         if type(s.signal_group) == int:
             s.signal_group = [s.signal_group]
+        else:
+            s.signal_group = list(s.signal_group)
 
         #流出容量
         s.capacity_out = capacity_out
@@ -1667,7 +1669,7 @@ class World:
                  vehicle_logging_timestep_interval: int=1,
                  reduce_memory_delete_vehicle_route_pref: bool=False,
                  hard_deterministic_mode: bool=False,
-                 meta_data: dict={}, user_attribute=None, user_function=None,
+                 meta_data: dict|None=None, user_attribute=None, user_function=None,
                  threads: int=1,
                  cpp: bool=False):
         """
@@ -1807,7 +1809,7 @@ class World:
 
         W.hard_deterministic_mode = hard_deterministic_mode
 
-        W.meta_data = meta_data
+        W.meta_data = meta_data if meta_data is not None else {}
         W.network_info = ddict(list)
         W.demand_info = ddict(list)
 
-- 
2.43.0


From d48ddd392f53d4e62bb2a3979d34235c5b0800c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 16/77] fix: a signal plan with fewer phases can be set while a
 later phase is shown; the signal restarts with the first phase as in C++ mode

---
 uxsim/uxsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e306c9e..fc03816 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -169,6 +169,9 @@ class Node:
         if reset:
             s.signal_phase = 0
             s.signal_t = 0
+        elif s.signal_phase >= len(s.signal):
+            s.signal_phase = 0
+            s.signal_t = 0
         if signal_offset_old != None:
             s.signal_offset = s.cycle_length-signal_offset_old
 
-- 
2.43.0


From 0ca732ce32842702021d1dcaf1742809bc2897eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:22 +0000
Subject: [PATCH 17/77] fix: a signal offset longer than the cycle or negative
 no longer prolongs the first phase

---
 uxsim/trafficpp/traffi.cpp | 3 ++-
 uxsim/uxsim.py             | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index cabb045..6273ff5 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -68,7 +68,8 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
     for (auto s : this->signal_intervals) cycle_length += s;
 
     if (this->signal_intervals.size() > 1 || (this->signal_intervals.size() == 1 && this->signal_intervals[0] != 0)){
-        double offset = cycle_length - this->signal_offset;
+        double offset = fmod(cycle_length - this->signal_offset, cycle_length);
+        if (offset < 0) offset += cycle_length;
         int i = 0;
         while (true){
             if (offset < this->signal_intervals[i]){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index fc03816..be74947 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -100,6 +100,7 @@ class Node:
         offset = s.cycle_length-s.signal_offset
 
         if s.signal != [0]:
+            offset %= s.cycle_length
             i = 0
             while 1:
                 if offset < s.signal[i]:
-- 
2.43.0


From 4ce6bfd2ac0d4a0500e3552c4cfe6fabd0996ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 18/77] fix: get_xy_coords and average_speed give in C++ mode
 what they give in Python mode; positions of vehicles that are on no link and
 of times after the trip do not fail

---
 uxsim/uxsim.py             |  7 ++++---
 uxsim/uxsim_cpp_wrapper.py | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index be74947..7366523 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1476,12 +1476,13 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            i = min(max(int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval), 0), len(s.log_link)-1)
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
-        if link == -1:
+        if link is None or link == -1:
             return (-1, -1)
         link = s.W.get_link(link)
         x0 = link.start_node.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 29346ff..8fcb73b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -440,8 +440,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
-        return self.length / tt if tt > 0 else self.u
+        return float(self.length / self.instant_travel_time(t))
 
     def average_flow(self, t):
         return self.average_density(t) * self.average_speed(t)
@@ -716,11 +715,16 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
-            return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
+        if t != -1:
+            idx = min(max(int(t / self.W.DELTAT), 0), len(self.log_link) - 1)
+            link, x = self.log_link[idx], self.log_x[idx]
+        else:
+            link, x = self.link, self.x
+        if link is None or link == -1:
+            return (-1, -1)
+        ratio = x / link.length
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 
-- 
2.43.0


From 89aca7b668df65e8f780abadf1f2e30d03baa5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 19/77] fix: addVehicle in C++ mode takes all arguments of
 Python mode, also by position, and reports those it cannot honour

---
 uxsim/uxsim_cpp_wrapper.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 8fcb73b..e7d270e 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -926,37 +926,37 @@ class CppWorld:
                        attribute=attribute, user_attribute=user_attribute,
                        user_function=user_function, auto_rename=auto_rename)
 
-    def addVehicle(self, *args, direct_call=True, **kwargs):
+    def addVehicle(self, orig, dest, departure_time, name=None, route_pref=None, route_choice_principle=None, mode="single_trip",
+                   links_prefer=[], links_avoid=[], trip_abort=1, departure_time_is_time_step=0,
+                   attribute=None, user_attribute=None, user_function=None, auto_rename=False, direct_call=True):
         """Add a single vehicle by forwarding to C++ as a one-platoon demand."""
-        mode = kwargs.get('mode', 'single_trip')
         if mode == 'taxi':
             raise NotImplementedError("taxi mode is not supported in C++ mode")
+        if route_pref is not None:
+            warnings.warn("route_pref of a vehicle is not supported in C++ mode. It is ignored.", UserWarning, stacklevel=2)
+        if route_choice_principle is not None and route_choice_principle != "homogeneous_DUO":
+            warnings.warn("route_choice_principle other than homogeneous_DUO is not supported in C++ mode. It is ignored.", UserWarning, stacklevel=2)
+        self._warn_user_function(user_function)
         self._ensure_cpp_world()
-        orig = args[0] if len(args) > 0 else kwargs.get('orig')
-        dest = args[1] if len(args) > 1 else kwargs.get('dest')
-        departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
         orig_name = self._resolve_node_name(orig)
         dest_name = self._resolve_node_name(dest)
-        dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
+        ts = int(departure_time) if departure_time_is_time_step else int(departure_time / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
-        name = kwargs.get('name')
         if name is not None:
             name = str(name)
             if name in self.VEHICLES:
-                if kwargs.get('auto_rename', False):
+                if auto_rename:
                     name = name + "_renamed" + "".join(
                         self.rng.choice(list(string.ascii_letters + string.digits), size=8))
                 else:
                     raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
 
         # Resolve links_prefer to C++ link name strings
-        links_prefer = kwargs.get('links_prefer', [])
         cpp_links_pref = []
         for l in links_prefer:
             cpp_links_pref.append(self.get_link(l).name)
-        cpp_avoid = [self.get_link(l)._cpp_link for l in kwargs.get('links_avoid', [])]
+        cpp_avoid = [self.get_link(l)._cpp_link for l in links_avoid]
 
         n_before = self._cpp_world.vehicle_count
         # exactly one platoon in exactly one timestep: the values are chosen apart from the rounding thresholds
@@ -974,11 +974,17 @@ class CppWorld:
         self._register_new_cpp_vehicles(name)
 
         veh = self._veh_by_index[n_before]
-        veh.attribute = kwargs.get('attribute')
-        veh.user_attribute = kwargs.get('user_attribute')
-        veh.user_function = kwargs.get('user_function')
+        veh._cpp_vehicle.trip_abort = int(trip_abort)
+        veh.attribute = attribute
+        veh.user_attribute = user_attribute
+        veh.user_function = user_function
         return veh
 
+    def _warn_user_function(self, user_function):
+        """Tell the user that Python callbacks are not called in C++ mode."""
+        if user_function is not None:
+            warnings.warn("user_function is not supported in C++ mode. It is never called.", UserWarning, stacklevel=3)
+
     def _resolve_node_name(self, node):
         """Get node name string from Node object or string."""
         return self.get_node(node).name
-- 
2.43.0


From ca1039f050610f6dc6f1918f4114290cffec1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 20/77] fix: user functions and route choice principles, which
 C++ mode does not support, are reported instead of silently ignored

---
 uxsim/uxsim_cpp_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e7d270e..cc2a3fb 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -865,6 +865,9 @@ class CppWorld:
         self.show_mode = show_mode
         self.user_attribute = user_attribute
         self.user_function = user_function
+        self._warn_user_function(user_function)
+        if route_choice_principle != "homogeneous_DUO":
+            warnings.warn("route_choice_principle other than homogeneous_DUO is not supported in C++ mode. It is ignored.", UserWarning, stacklevel=2)
 
         self._cpp_world = None
         self._cpp_world_created = False
@@ -905,6 +908,7 @@ class CppWorld:
                 flow_capacity=None, number_of_lanes=None, auto_rename=False,
                 attribute=None, user_attribute=None, user_function=None):
         self._ensure_cpp_world()
+        self._warn_user_function(user_function)
         return CppNode(self, name, x, y, signal=signal, signal_offset=signal_offset,
                        signal_offset_old=signal_offset_old, flow_capacity=flow_capacity,
                        number_of_lanes=number_of_lanes, auto_rename=auto_rename,
@@ -917,6 +921,7 @@ class CppWorld:
                 congestion_pricing=None, eular_dx=None,
                 attribute=None, user_attribute=None, user_function=None, auto_rename=False):
         self._ensure_cpp_world()
+        self._warn_user_function(user_function)
         return CppLink(self, name, start_node, end_node, length,
                        free_flow_speed=free_flow_speed, jam_density=jam_density,
                        jam_density_per_lane=jam_density_per_lane, number_of_lanes=number_of_lanes,
-- 
2.43.0


From 91fe060160a3e0a41351e1f4cf3bb38940dd2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:32 +0000
Subject: [PATCH 21/77] fix: a node to be renamed is rejected in C++ mode
 before anything is registered (it was registered by halves before)

---
 uxsim/uxsim_cpp_wrapper.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index cc2a3fb..fd0d064 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -61,11 +61,7 @@ class CppNode:
         self.id = len(self.W.NODES)
         self.name = name
         if self.name in self.W.NODES_NAME_DICT:
-            if auto_rename:
-                self.name = self.name + "_renamed" + "".join(
-                    self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
-            else:
-                raise ValueError(f"Node name {self.name} already used by another node.")
+            raise ValueError(f"Node name {self.name} already used by another node." + (" auto_rename of nodes is not supported in C++ mode." if auto_rename else ""))
         self.W.NODES.append(self)
         self.W.NODES_NAME_DICT[self.name] = self
 
-- 
2.43.0


From e835b9901e8e5e45d9a4679aac43c1442436709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 22/77] fix: analysis results computed in the middle of a run
 are recomputed when the simulation has been continued

---
 uxsim/analyzer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..8976b05 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -68,6 +68,7 @@ class Analyzer:
         s.flag_trajectory_computed = 0
         s.flag_pandas_convert = 0
         s.flag_od_analysis = 0
+        s.analyzed_progress = None
 
         # visualization data
         s.font_data = load_font_data(font_pillow)
@@ -95,6 +96,25 @@ class Analyzer:
         os.makedirs(Path(fname).parent, exist_ok=True)
         return fname
 
+    def discard_outdated_results(s):
+        """
+        Discard the results computed earlier in a run if the simulation was continued or vehicles were added since then.
+        """
+        progress = (s.W.T, len(s.W.VEHICLES))
+        if s.analyzed_progress == progress:
+            return
+        s.analyzed_progress = progress
+        s.flag_edie_state_computed = 0
+        s.flag_trajectory_computed = 0
+        s.flag_pandas_convert = 0
+        s.flag_od_analysis = 0
+        for l in s.W.LINKS:
+            l.tss = []
+            l.xss = []
+            l.cs = []
+            l.ls = []
+            l.names = []
+
     def basic_analysis(s):
         """
         Analyze basic stats.
@@ -122,6 +142,7 @@ class Analyzer:
         """
         Analyze OD-specific stats: number of trips, number of completed trips, free-flow travel time, average travel time, its std, total distance traveled.
         """
+        s.discard_outdated_results()
         if s.flag_od_analysis:
             return 0
         else:
@@ -209,6 +230,7 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The trajectories are not exactly accurate.", LoggingWarning)
 
+        s.discard_outdated_results()
         if s.flag_trajectory_computed:
             return 0
         else:
@@ -249,6 +271,7 @@ class Analyzer:
         """
         Compute Edie's traffic state for each link.
         """
+        s.discard_outdated_results()
         if s.flag_edie_state_computed:
             return 0
         else:
@@ -1588,6 +1611,7 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The output data is not exactly accurate.", LoggingWarning)
 
+        s.discard_outdated_results()
         if s.flag_pandas_convert == 0:
             out = [["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"]]
             for veh in s.W.VEHICLES.values():
-- 
2.43.0


From 5924a2fea163591674d4601196f89144f670eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 23/77] fix: taxi handlers and unseeded C++ worlds do not touch
 the process-wide random generator

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 uxsim/uxsim_cpp_wrapper.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..d7220ee 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -83,7 +83,7 @@ class TaxiHandler:
         s.trip_requests = []
         s.trip_requests_all = []
         s.W = W
-        random.seed(s.W.random_seed)
+        s.rng = random.Random(s.W.random_seed)
 
     def add_trip_request(s, orig, dest, depart_time, name=None, attribute=None):
         """
@@ -222,7 +222,7 @@ class TaxiHandler_random(TaxiHandler):
         Assigns trip request to random available taxi.
         """
         vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
-        random.shuffle(vacant_taxis)
+        s.rng.shuffle(vacant_taxis)
         for trip_request in s.trip_requests[:]:
             if len(vacant_taxis) == 0:
                 break
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index fd0d064..bacfc56 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -880,7 +880,7 @@ class CppWorld:
         if self._cpp_world_created:
             return
         tmax = self.TMAX if self.TMAX is not None else 7200
-        seed = self.random_seed if self.random_seed is not None else random.getrandbits(32)
+        seed = self.random_seed if self.random_seed is not None else int(self.rng.integers(2**32))
         try:
             self._cpp_world = _create_world(self.name, float(tmax), float(self.DELTAN), float(self.REACTION_TIME),
                 float(self.DUO_UPDATE_TIME), float(self.DUO_UPDATE_WEIGHT), float(self.DUO_NOISE), int(self.print_mode), int(seed),
-- 
2.43.0


From ef90d4708211730ec3f24de4c7c520779e125abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 24/77] fix: mfd_to_pandas returns a row per time interval
 instead of one per set of links

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 8976b05..834f5c0 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2036,7 +2036,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 40e455902502368a724530f2332a6410a3504e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 25/77] fix: drawing an animation does not advance the random
 generator of the simulation

---
 uxsim/analyzer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 834f5c0..a1327e6 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1304,15 +1304,17 @@ class Analyzer:
         minx = min([n.x for n in s.W.NODES])
         dcoef = (maxx-minx)/20
 
+        # an own generator: drawing must not advance the generator of the simulation
+        rng = np.random.default_rng(seed=s.W.random_seed)
         for veh in s.W.VEHICLES.values():
-            if s.W.rng.random() > sample_ratio:
+            if rng.random() > sample_ratio:
                 continue
             ts = []
             xs = []
             ys = []
             vs = []
-            dx = (s.W.rng.random()-0.5)*dcoef
-            dy = (s.W.rng.random()-0.5)*dcoef
+            dx = (rng.random()-0.5)*dcoef
+            dy = (rng.random()-0.5)*dcoef
             for i in range(0, len(veh.log_t), interval):
                 if veh.log_state[i] == "run":
                     link = veh.log_link[i]
-- 
2.43.0


From 039c4ecc8ae4ad270162aa0c6bfa2b708852c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 26/77] fix: change_jam_density keeps jam_density_per_lane in
 step

---
 uxsim/uxsim.py             | 2 ++
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7366523..844751f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -958,6 +958,8 @@ class Link:
     def change_jam_density(s, new_value):
         if new_value >= 0:
             s.jam_density = new_value
+            if s.jam_density_per_lane != None:
+                s.jam_density_per_lane = new_value/s.number_of_lanes
             s.kappa = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bacfc56..0e7267a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -462,6 +462,8 @@ class CppLink:
         """Forward to C++ Link.change_jam_density()."""
         self._cpp_link.change_jam_density(float(new_value))
         self._read_from_cpp()
+        if self.jam_density_per_lane is not None:
+            self.jam_density_per_lane = self.kappa / self.number_of_lanes
 
     def _read_from_cpp(self):
         """Read all flow parameters from C++ link."""
-- 
2.43.0


From bd7d66da548a9f74e289e9444db5f1f1f2b28551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 27/77] fix: scenarios are saved and loaded with the vehicles
 added by addVehicle

---
 uxsim/scenario_reader_writer.py | 4 ++++
 uxsim/uxsim.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..247056b 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -220,6 +220,10 @@ def load_scenario(W, fname, network=True, demand=True):
                 for dem in dat[demand_type]:
                     W.adddemand_nodes2nodes2(**dem)
                 W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
+            elif demand_type == 'addVehicle':
+                for dem in dat[demand_type]:
+                    W.addVehicle(*dem["args"], **dem["kwargs"])
+                W.print(f" Number of loaded `{demand_type}`s:", len( dat[demand_type]))
             else:
                 pass
         
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 844751f..f1ed013 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2007,7 +2007,10 @@ class World:
         This function acts as a wrapper for creating a Vehicle object and adding it to the network.
         It passes all given arguments and keyword arguments to the Vehicle class initialization.
         """
-        return Vehicle(W, *args, **kwargs)
+        veh = Vehicle(W, *args, **kwargs)
+        if direct_call:
+            W.demand_info["addVehicle"].append({"args": args, "kwargs": kwargs})
+        return veh
 
     @demand_info_record
     def adddemand(W, orig: str|Node, dest: str|Node, t_start: float, t_end: float, flow: float =-1, volume: float =-1, attribute=None, direct_call=True):
-- 
2.43.0


From 82a4b44bf589902c5adb24a0888528f6e2353e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 28/77] fix: scenarios whose attributes are arrays can be saved

---
 uxsim/scenario_reader_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 247056b..6f7392f 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -82,7 +82,9 @@ def instance_to_arg_dict(instance):
         
         value = instance_vars.get(param_name, param.default)
       
-        if value == param.default:
+        # comparison of arrays gives arrays, which are neither equal nor unequal to a default value
+        is_default = value == param.default
+        if isinstance(is_default, bool) and is_default:
             continue
         
         args[param_name] = value
-- 
2.43.0


From 270b345b6b607da5376ca22129dee5d87b693a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 29/77] fix: basic statistics are available and up to date
 before the end of the simulation

---
 uxsim/analyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index a1327e6..56635a9 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -362,6 +362,7 @@ class Analyzer:
         force_print : bool, optional
             print the stats regardless of the value of `print_mode`
         """
+        s.basic_analysis()
         s.W.print("results:")
         s.W.print(f" average speed:\t {s.average_speed:.1f} m/s")
         s.W.print(" number of completed trips:\t", s.trip_completed, "/", s.trip_all)
@@ -1700,6 +1701,8 @@ class Analyzer:
         -------
         pd.DataFrame
         """
+        s.basic_analysis()
+
         out = [["total_trips", "completed_trips", "total_travel_time", "average_travel_time", "total_delay", "average_delay"], [s.trip_all, s.trip_completed, s.total_travel_time, s.average_travel_time, s.total_delay, s.average_delay]]
 
         s.df_basic = pd.DataFrame(out[1:], columns=out[0])
-- 
2.43.0


From 7dcaa50a38515079192e336fb4c5030fb04f424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 30/77] fix: link_cumulative_to_pandas no longer fails before
 the end of the simulation

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 56635a9..966c928 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2090,7 +2090,7 @@ class Analyzer:
         """
         out = [["link", "t", "arrival_count", "departure_count", "actual_travel_time", "instantanious_travel_time"]]
         for link in s.W.LINKS:
-            for i in range(s.W.TSIZE):
+            for i in range(min(s.W.TSIZE, len(link.cum_arrival))):
                 out.append([link.name, i*s.W.DELTAT, link.cum_arrival[i], link.cum_departure[i], link.traveltime_actual[i], link.traveltime_instant[i]])
         s.df_link_cumulative = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_cumulative
-- 
2.43.0


From 5a1598657d575dfebb299b92df35e62e2c59cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 31/77] fix: time series of links in C++ mode end at the
 current time as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0e7267a..4e8be48 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -293,7 +293,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W.T]
 
     @property
     def cum_departure(self):
@@ -301,7 +301,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W.T]
 
     @property
     def traveltime_instant(self):
@@ -309,7 +309,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W.T]
 
     @property
     def traveltime_actual(self):
@@ -873,6 +873,7 @@ class CppWorld:
         if vehicle_logging_timestep_interval not in (0, 1, -1):
             warnings.warn("vehicle_logging_timestep_interval is not 0, 1, or -1. C++ mode only supports 0 (no logging) and 1 (full logging). The value will be treated as 1 (logging enabled).", stacklevel=2)
         self._simulation_done = False
+        self.T = 0
         self._skip_log_on_terminate = False
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
-- 
2.43.0


From cfce94d76bd004977d64fa2bca68592a81ecc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 32/77] fix: vehicles_enter_log of links in C++ mode is filled
 before the end of the simulation

---
 uxsim/uxsim_cpp_wrapper.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 4e8be48..b224b1e 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -254,7 +254,7 @@ class CppLink:
 
         # Containers for analyzer compatibility
         self.vehicles = deque()
-        self.vehicles_enter_log = {}
+        self._vehicles_enter_log = {}
         self._traveltime_actual = []
         self.congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
@@ -287,6 +287,12 @@ class CppLink:
         self._free_flow_tt = self.length / self.u
         self._deltat = self.W.DELTAT
 
+    @property
+    def vehicles_enter_log(self):
+        if self.W._enter_log_timestep != self.W.T:
+            self.W._build_vehicles_enter_log()
+        return self._vehicles_enter_log
+
     @property
     def cum_arrival(self):
         if self.W._simulation_done:
@@ -875,6 +881,7 @@ class CppWorld:
         self._simulation_done = False
         self.T = 0
         self._skip_log_on_terminate = False
+        self._enter_log_timestep = 0
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
         self._veh_by_index = []  # CppVehicle objects in C++ vehicle index order
@@ -1378,8 +1385,9 @@ class CppWorld:
 
     def _build_vehicles_enter_log(self):
         """Reconstruct each link's vehicles_enter_log from C++ bulk data."""
+        self._enter_log_timestep = self.T
         for link in self.LINKS:
-            link.vehicles_enter_log = {}
+            link._vehicles_enter_log = {}
         try:
             data = self._cpp_world.build_enter_log_data()
             link_ids = data['link_id']
@@ -1391,13 +1399,13 @@ class CppWorld:
             for i in range(len(link_ids)):
                 lid = int(link_ids[i])
                 if 0 <= lid < n_links:
-                    links_list[lid].vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
+                    links_list[lid]._vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
         except AttributeError:
             # Fallback for older C++ builds without build_enter_log_data
             for veh in self.VEHICLES.values():
                 for t, l in veh.log_t_link:
                     if isinstance(l, CppLink):
-                        l.vehicles_enter_log[t] = veh
+                        l._vehicles_enter_log[t] = veh
 
     def get_node(self, node):
         if node is None:
-- 
2.43.0


From 5690bc032efc79e844529e98a3a6fdcce9b403be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 33/77] fix: vehicle_trip_to_pandas reports the state of
 vehicles without log entries

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 966c928..6ecca5b 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1665,7 +1665,7 @@ class Analyzer:
         out = [["name", "orig", "dest", "departure_time", "final_state", "travel_time", "average_speed", "distance_traveled"]]
         for veh in s.W.VEHICLES.values():
             veh_dest_name = veh.dest.name if veh.dest != None else None
-            veh_state = veh.log_state[-1]
+            veh_state = veh.state
             veh_ave_speed = np.average([v for v in veh.log_v if v != -1])
             veh_dist_traveled = veh.distance_traveled
 
-- 
2.43.0


From 1fb1ab3416023301e83deb600b3de43fb5145547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 34/77] fix: free-flow travel time and shortest distance of OD
 pairs consider the best of parallel links

---
 uxsim/analyzer.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 6ecca5b..cdd4983 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -162,20 +162,14 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if s.W.ADJ_MAT[i,j] and link.capacity_in != 0: #流入禁止の場合は通行不可
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From ae4bfc77993b482568c06b983b17a5e8063aa6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 35/77] fix: distances of OD pairs without completed trips are
 counted

---
 uxsim/analyzer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index cdd4983..0d8262a 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -186,10 +186,11 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
-            s.od_tt_free[o,d] = dist_time[o.id, d.id]
+        for o,d in s.od_trips.keys():
+            if s.od_trips_comp[o,d]:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+                s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
             s.od_dist_ave[o,d] = np.average(s.od_dist[o,d])
-- 
2.43.0


From 0f8ce5ad53271e98a91e178f4efa717872f56f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 36/77] fix: default names of vehicle groups

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 0d8262a..00fed54 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1942,7 +1942,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From 91bb2a34b02d46b4beb5b0151ff5cf084c4b76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 37/77] fix: trips of vehicle groups are counted with the
 platoon size as all other trip numbers

---
 uxsim/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 00fed54..695e694 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1966,9 +1966,9 @@ class Analyzer:
 
             for veh in group:
 
-                total_trips += 1
+                total_trips += s.W.DELTAN
                 if veh.state == "end":
-                    completed_trips += 1
+                    completed_trips += s.W.DELTAN
                     travel_times.append(veh.travel_time)
                     traveled_distances.append(veh.distance_traveled)
                     
-- 
2.43.0


From b41184ce2adceb8a7a20752d66dd4d011b07f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 38/77] fix: travel times between areas without completed trips
 are marked without a division by zero

---
 uxsim/analyzer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 695e694..98ea00a 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1784,9 +1784,9 @@ class Analyzer:
                 completed_trips = completed_tripss.sum()
 
                 if total_trips:
-                    average_travel_time = (completed_tripss*average_travel_times).sum()/completed_trips
-                    var_travel_time = (completed_tripss*var_travel_times).sum()/completed_trips    #wrong! there is a correct formula. TODO: implement
-                    stddiv_travel_time = np.sqrt(var_travel_time)
+                    average_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips
+                    var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
+                    stddiv_distance_traveled = np.sqrt(var_distance_traveled)
 
                     average_shortest_distance = (total_tripss*shortest_distances).sum()/total_trips
                 else:
@@ -1797,15 +1797,15 @@ class Analyzer:
                     # average_shortest_distance = np.nan
 
                 if completed_trips:
-                    average_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips
-                    var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
-                    stddiv_distance_traveled = np.sqrt(var_distance_traveled)
+                    average_travel_time = (completed_tripss*average_travel_times).sum()/completed_trips
+                    var_travel_time = (completed_tripss*var_travel_times).sum()/completed_trips    #wrong! there is a correct formula. TODO: implement
+                    stddiv_travel_time = np.sqrt(var_travel_time)
 
                     average_free_travel_time = (completed_tripss*free_travel_time_times).sum()/completed_trips
                 else:
-                    average_distance_traveled = np.nan
-                    var_distance_traveled = np.nan
-                    stddiv_distance_traveled = np.nan
+                    average_travel_time = np.nan
+                    var_travel_time = np.nan
+                    stddiv_travel_time = np.nan
                     average_free_travel_time = np.nan
 
                 # print(f"{total_trips = }")
-- 
2.43.0


From 302f2a55f80f2c7be63b094d3bd8179da0d8de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 39/77] fix: cumulative counts and instantaneous travel time of
 links can be asked before the first step

---
 uxsim/uxsim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f1ed013..bb1b9cf 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -696,6 +696,8 @@ class Link:
         float
             The cumulative arrival vehicle count.
         """
+        if len(s.cum_arrival) == 0:
+            return 0
         tt = int(t//s.W.DELTAT)
         if tt >= len(s.cum_arrival):
             return s.cum_arrival[-1]
@@ -717,6 +719,8 @@ class Link:
         float
             The cumulative departure vehicle count.
         """
+        if len(s.cum_departure) == 0:
+            return 0
         tt = int(t//s.W.DELTAT)
         if tt >= len(s.cum_departure):
             return s.cum_departure[-1]
@@ -809,6 +813,8 @@ class Link:
         float
             The instantaneous travel time.
         """
+        if len(s.traveltime_instant) == 0:
+            return s.length/s.u
         tt = int(t//s.W.DELTAT)
         if tt >= len(s.traveltime_instant):
             return s.traveltime_instant[-1]
-- 
2.43.0


From 7000753f1f09741badd9ea484167a3cca636208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 40/77] fix: inflow between two equal times is zero instead of
 a division by zero

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index bb1b9cf..8d339e6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -744,6 +744,8 @@ class Link:
         float
             The inflow.
         """
+        if t1 == t0:
+            return 0
         return (s.arrival_count(t1)-s.arrival_count(t0))/(t1-t0)
     
     def average_travel_time_between(s, t0: float, t1: float) -> float:
-- 
2.43.0


From cb4260484ee06efb7b3054e1e73e882890c1d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 41/77] fix: coordinates of vehicles at a time are found by the
 time of the log entries, also without log

---
 uxsim/uxsim.py             | 6 ++++--
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8d339e6..93f2a5a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import bisect, csv, time, math, string, warnings, copy
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -1486,7 +1486,9 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            i = min(max(int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval), 0), len(s.log_link)-1)
+            i = bisect.bisect_right(s.log_t, t)-1
+            if i < 0:
+                return (-1, -1)
             link = s.log_link[i]
             xx = s.log_x[i]
         else:
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index b224b1e..5a8f335 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -720,6 +720,8 @@ class CppVehicle:
 
     def get_xy_coords(self, t=-1):
         if t != -1:
+            if len(self.log_link) == 0:
+                return (-1, -1)
             idx = min(max(int(t / self.W.DELTAT), 0), len(self.log_link) - 1)
             link, x = self.log_link[idx], self.log_x[idx]
         else:
-- 
2.43.0


From cb2e1744a61471b02cf58fe12c33f67b07a1b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 42/77] fix: congestion externality of a link before time zero
 does not read out of bounds in C++ mode

---
 uxsim/trafficpp/traffi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 6273ff5..b7d0267 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -651,6 +651,7 @@ void Link::ensure_traveltime_real() const {
 double Link::estimate_congestion_externality(int ts){
     ensure_traveltime_real();
     int n = (int)traveltime_real.size();
+    if (ts < 0) ts = 0;
     double dt = w->delta_t;
     double free_flow_tt = length / vmax * 1.01;
 
-- 
2.43.0


From 327539ab0898f5f2c48ea926254eb63786e131ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 43/77] fix: vehicles that have not departed have home log
 entries in C++ mode as in Python mode

---
 uxsim/trafficpp/traffi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index b7d0267..3e80f58 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -2007,6 +2007,9 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         int n_missing = 0;
         if (v->log_size > 0 && v->log_t_at(0) > 0) {
             n_missing = static_cast<int>(v->log_t_at(0) / delta_t);
+        } else if (v->log_size == 0 && v->state == vsHOME && vehicle_log_mode) {
+            // not departed yet: only home entries so far
+            n_missing = static_cast<int>(timestep);
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
-- 
2.43.0


From 3639dd4f10e3765f5e023fc4ee42fb2c26999698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 44/77] fix: waiting vehicles count as zero speed in the
 average speed statistic

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 93f2a5a..f646b6a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1530,7 +1530,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From bb64764992902cfdafa08523e4b1ee5b1905d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 45/77] fix: instantaneous travel times in C++ mode keep one
 entry per step of the whole run

---
 uxsim/uxsim_cpp_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5a8f335..0beeb29 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -315,7 +315,10 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()[:self.W.T]
+        arr = self._cpp_link.get_traveltime_instant_np()
+        # steps that are not simulated yet hold the latest value
+        arr[self.W.T:] = arr[self.W.T-1] if self.W.T > 0 else self._free_flow_tt
+        return arr
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From 81ea48d8dde70413889731bed3609e652cc5e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 46/77] fix: progress interval shorter than the time step no
 longer stops the simulation with ZeroDivisionError

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f646b6a..3f6f4ce 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1816,7 +1816,7 @@ class World:
 
         ## progress print setting
         W.show_progress = show_progress
-        W.show_progress_deltat_timestep = int(show_progress_deltat/W.DELTAT)
+        W.show_progress_deltat_timestep = max(int(show_progress_deltat/W.DELTAT), 1)
 
         ## memory setting
         W.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
-- 
2.43.0


From 43ec820cef1ec7cc38d130c1be776dc74b672d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 47/77] fix: network_fancy prints no progress bar with
 print_mode off

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 98ea00a..fc8dbe7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1381,7 +1381,7 @@ class Analyzer:
         miny -= buffer
 
         pics = []
-        for t in tqdm(range(int(s.W.TMAX*0), int(s.W.TMAX*1), s.W.DELTAT*speed_coef)):
+        for t in tqdm(range(int(s.W.TMAX*0), int(s.W.TMAX*1), s.W.DELTAT*speed_coef), disable=(s.W.print_mode==0)):
             img = Image.new("RGBA", (int(maxx-minx), int(maxy-miny)), (255, 255, 255, 255))
             draw = ImageDraw.Draw(img)
                 
-- 
2.43.0


From a8c5e1e04a3b70c79089b5e67a7f792780bdb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 48/77] fix: change_print_mode in C++ mode applies to the
 output of the engine

---
 uxsim/trafficpp/bindings.cpp | 1 +
 uxsim/uxsim_cpp_wrapper.py   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index ed4f075..d9a2dee 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -536,6 +536,7 @@ NB_MODULE(uxsim_cpp, m) {
         .def_ro("TMAX", &World::t_max)
         .def_ro("name", &World::name)
         .def_ro("deltan", &World::delta_n)
+        .def_rw("print_mode", &World::print_mode)
         .def_rw("show_progress", &World::show_progress)
         .def_rw("show_progress_deltat_timestep", &World::show_progress_deltat_timestep)
         .def_rw("hard_deterministic_mode", &World::hard_deterministic_mode)
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0beeb29..b1b550b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1503,6 +1503,8 @@ class CppWorld:
     def change_print_mode(self, print_mode):
         self.print_mode = print_mode
         self.print = print if print_mode else (lambda *a, **k: None)
+        if self._cpp_world_created:
+            self._cpp_world.print_mode = int(bool(print_mode))
 
     @catch_exceptions_and_warn()
     def show_network(self, width=1, left_handed=1, figsize=(6, 6), network_font_size=10, node_size=6, show_id=True):
-- 
2.43.0


From a2e4f9474f068500321c6230657aa61e52f2e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 49/77] fix: construct_time_space_network prints nothing with
 print_mode off

---
 uxsim/Utilities/Utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..0dc439e 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -376,7 +376,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
                     if G.has_node(u) and G.has_node(v):
                         G.add_edge(u, v, weight=travel_time)
                     else:
-                        print(u,v)
+                        W.print(u, v)
 
     for t in range(0, tmax, dt):
         for node in W.NODES:
@@ -399,7 +399,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
             if G.has_node(u):
                 sources[u] = True
             else:
-                print(u)
+                W.print(u)
         for source in sources.keys():
             costs[source], paths[source] = nx.single_source_dijkstra(G, source)
     else:
-- 
2.43.0


From bc30effe87975d148c0b56842bbbd66adb0224a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 50/77] fix: the C++ World takes its positional arguments in
 the order of World

---
 uxsim/uxsim_cpp_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index b1b550b..ad2890d 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -815,6 +815,7 @@ class CppWorld:
                  duo_update_time=600, duo_update_weight=0.5, duo_noise=0.01,
                  route_choice_principle="homogeneous_DUO", route_choice_update_gradual=False,
                  instantaneous_TT_timestep_interval=5,
+                 no_cyclic_routing=False, adjust_node_capacity=False,
                  eular_dt=120, eular_dx=100,
                  random_seed=None,
                  print_mode=1, save_mode=1, show_mode=0, show_progress=1, show_progress_deltat=600,
@@ -822,8 +823,6 @@ class CppWorld:
                  vehicle_logging_timestep_interval=1,
                  reduce_memory_delete_vehicle_route_pref=False,
                  hard_deterministic_mode=False,
-                 no_cyclic_routing=False,
-                 adjust_node_capacity=False,
                  meta_data=None, user_attribute=None, user_function=None,
                  threads=1):
 
-- 
2.43.0


From 350371848a0e7e9df271ea67dbdf66a359289526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 51/77] fix: on_time of the C++ World accepts the keyword time

---
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index ad2890d..ec9b8a6 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1496,8 +1496,8 @@ class CppWorld:
         print(" number of nodes:\t", len(self.NODES))
         print(" setup time:\t\t", f"{time.time() - self.world_start_time:.2f}", "s")
 
-    def on_time(self, time_val):
-        return self.T == int(time_val / self.DELTAT)
+    def on_time(self, time):
+        return self.T == int(time / self.DELTAT)
 
     def change_print_mode(self, print_mode):
         self.print_mode = print_mode
-- 
2.43.0


From 2ecb1f63fc62bfc7ec348aacc76d923bb1e1a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 52/77] fix: enforce_route in C++ mode honours set_avoid

---
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index ec9b8a6..5352428 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -699,6 +699,8 @@ class CppVehicle:
             self._cpp_vehicle.enforce_route(cpp_links)
         except (AttributeError, TypeError):
             pass
+        if set_avoid:
+            self.set_links_avoid([l for l in self.W.LINKS if l not in py_links])
 
     def set_links_prefer(self, links):
         self.links_prefer = [self.W.get_link(l) for l in links]
-- 
2.43.0


From 7668e1c472452c37fdb9407ee1ffe8d0c3336d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 53/77] fix: a node without flow capacity has flow_capacity
 None in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5352428..700b585 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -75,8 +75,8 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
+        self.flow_capacity = self._cpp_node.flow_capacity if self._cpp_node.flow_capacity >= 0 else None
+        self.number_of_lanes = self._cpp_node.number_of_lanes if self._cpp_node.number_of_lanes >= 0 else None
         self.flag_lanes_automatically_determined = False
 
     def __repr__(self):
@@ -171,10 +171,10 @@ class CppNode:
         This calculation is based on an assumption that the node is an intersection with two major roads and two minor roads or similar types. In this case, the node capacity should be the same to that of major roads.
         """
         self._cpp_node.adjust_node_capacity()
-        if self._cpp_node.number_of_lanes != self.number_of_lanes:
+        if self.number_of_lanes is None and self._cpp_node.number_of_lanes >= 0:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
+        self.flow_capacity = self._cpp_node.flow_capacity if self._cpp_node.flow_capacity >= 0 else None
+        self.number_of_lanes = self._cpp_node.number_of_lanes if self._cpp_node.number_of_lanes >= 0 else None
 
 
 class CppLink:
-- 
2.43.0


From eb5b647ca5997aa64b3a546f295fb4dcf68ce72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 54/77] fix: leader, follower and route_next_link of a C++ mode
 vehicle are elements of the World

---
 uxsim/uxsim_cpp_wrapper.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 700b585..5bad830 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -569,6 +569,21 @@ class CppVehicle:
                 return links[link_id]
         return None
 
+    @property
+    def route_next_link(self):
+        cpp_link = self._cpp_vehicle.route_next_link
+        return self.W.LINKS[cpp_link.id] if cpp_link is not None else None
+
+    @property
+    def leader(self):
+        cpp_veh = self._cpp_vehicle.leader
+        return self.W._veh_by_index[cpp_veh.id] if cpp_veh is not None else None
+
+    @property
+    def follower(self):
+        cpp_veh = self._cpp_vehicle.follower
+        return self.W._veh_by_index[cpp_veh.id] if cpp_veh is not None else None
+
     @property
     def link_arrival_time(self):
         return self._cpp_vehicle.arrival_time_link
-- 
2.43.0


From 39ce9f1cf27a9503057ff1ecd3081bfdb5302543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 55/77] fix: number_of_lanes of a node survives until
 adjust_node_capacity

---
 uxsim/uxsim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3f6f4ce..e73f72f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -129,7 +129,6 @@ class Node:
         else:
             s.flow_capacity = None
             s.flow_capacity_remain = 10e10
-            s.number_of_lanes = None
 
         s.id = len(s.W.NODES)
         s.name = name
-- 
2.43.0


From 6d5eb016effd8df1b789704641b8918672bdb1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 56/77] fix: signal_log of a C++ mode node can be assigned

---
 uxsim/trafficpp/bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index d9a2dee..ae1fe8c 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -725,7 +725,7 @@ NB_MODULE(uxsim_cpp, m) {
         .def_rw("signal_offset", &Node::signal_offset)
         .def_rw("signal_t", &Node::signal_t)
         .def_rw("signal_phase", &Node::signal_phase)
-        .def_ro("signal_log", &Node::signal_log)
+        .def_rw("signal_log", &Node::signal_log)
         .def_rw("flow_capacity", &Node::flow_capacity)
         .def_rw("flow_capacity_remain", &Node::flow_capacity_remain)
         .def_rw("number_of_lanes", &Node::number_of_lanes)
-- 
2.43.0


From e979f9fb29fb91c268e11cd75807da4fd22ed785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 57/77] fix: assigning merge_priority or signal_group of a C++
 mode link takes effect

---
 uxsim/uxsim_cpp_wrapper.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5bad830..c0639c7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -163,7 +163,6 @@ class CppNode:
 
         for key in phase_info:
             key.signal_group = phase_info[key]
-            key._cpp_link.signal_group = phase_info[key]
 
     def adjust_node_capacity(self):
         """
@@ -195,7 +194,7 @@ class CppLink:
             raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {name}.")
 
         # Signal
-        self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
+        self._signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
 
         # ID and name registration
         self.id = len(self.W.LINKS)
@@ -223,7 +222,7 @@ class CppLink:
             kappa = jam_density_per_lane * number_of_lanes
         cpp_capacity_out = capacity_out if capacity_out is not None else -1
         cpp_capacity_in = capacity_in if capacity_in is not None else -1
-        cpp_signal_group = list(self.signal_group)
+        cpp_signal_group = list(self._signal_group)
         try:
             _add_link(self.W._cpp_world, self.name, self.start_node.name, self.end_node.name,
                       float(free_flow_speed), float(kappa), float(length), int(self.number_of_lanes),
@@ -246,7 +245,6 @@ class CppLink:
         self.free_flow_speed = self.u
         self.jam_density = self.kappa
         self.jam_density_per_lane = jam_density_per_lane
-        self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
         self.k_star = self.capacity / self.u
         self._capacity_out_remain = cpp.capacity_out_remain
@@ -450,6 +448,21 @@ class CppLink:
     def average_flow(self, t):
         return self.average_density(t) * self.average_speed(t)
 
+    @property
+    def merge_priority(self):
+        return self._cpp_link.merge_priority
+    @merge_priority.setter
+    def merge_priority(self, value):
+        self._cpp_link.merge_priority = float(value)
+
+    @property
+    def signal_group(self):
+        return self._signal_group
+    @signal_group.setter
+    def signal_group(self, value):
+        self._signal_group = value
+        self._cpp_link.signal_group = list(value)
+
     @property
     def route_choice_penalty(self):
         return self._route_choice_penalty
-- 
2.43.0


From ea2e2b39ebfc04a02a3d5c5ab2b4a0d6fffcf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 58/77] fix: assigning trip_abort of a C++ mode vehicle takes
 effect

---
 uxsim/uxsim_cpp_wrapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c0639c7..ba084bb 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -587,6 +587,13 @@ class CppVehicle:
         cpp_link = self._cpp_vehicle.route_next_link
         return self.W.LINKS[cpp_link.id] if cpp_link is not None else None
 
+    @property
+    def trip_abort(self):
+        return self._cpp_vehicle.trip_abort
+    @trip_abort.setter
+    def trip_abort(self, value):
+        self._cpp_vehicle.trip_abort = int(value)
+
     @property
     def leader(self):
         cpp_veh = self._cpp_vehicle.leader
@@ -1019,7 +1026,7 @@ class CppWorld:
         self._register_new_cpp_vehicles(name)
 
         veh = self._veh_by_index[n_before]
-        veh._cpp_vehicle.trip_abort = int(trip_abort)
+        veh.trip_abort = trip_abort
         veh.attribute = attribute
         veh.user_attribute = user_attribute
         veh.user_function = user_function
-- 
2.43.0


From be07dcb20c14df6ae8f04808c70678737e05efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 59/77] fix: k shortest routes on a network with parallel links

---
 uxsim/Utilities/Utilities.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 0dc439e..507f547 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -80,18 +80,18 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
         A list of costs of the routes if return_cost is True.
     """
     G = nx.DiGraph()
+    links = dict() #the cheapest link between each pair of nodes
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        u, v, cost = l.start_node.name, l.end_node.name, cost_function(l)
+        if (u, v) not in links or cost < G[u][v]['weight']:
+            G.add_edge(u, v, weight=cost)
+            links[u, v] = l.name
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [links[u, v] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
@@ -137,18 +137,18 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
         A list of costs of the routes if return_cost is True.
     """
     G = nx.DiGraph()
+    links = dict() #the cheapest link between each pair of nodes
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        u, v, cost = l.start_node.name, l.end_node.name, cost_function(l, t)
+        if (u, v) not in links or cost < G[u][v]['weight']:
+            G.add_edge(u, v, weight=cost)
+            links[u, v] = l.name
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
+        route = [links[u, v] for u, v in zip(path[:-1], path[1:])]
 
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
-- 
2.43.0


From eb78862c30752f29097be8525dafcdf6aff9f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 60/77] fix: random routes use the cheapest of parallel links,
 so that the shortest path is included

---
 uxsim/Utilities/Utilities.py | 15 ++++++++-------
 uxsim/trafficpp/traffi.cpp   | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 507f547..51d2989 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -192,11 +192,14 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
     average_n_routes_old = 0
     while 1:
         G = nx.DiGraph()
+        links = dict() #the cheapest link between each pair of nodes
         for l in W.LINKS:
-            if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
-            else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+            u, v, cost = l.start_node.name, l.end_node.name, l.length/l.u
+            if iteration > 0:
+                cost *= random.uniform(0,100)
+            if (u, v) not in links or cost < G[u][v]['weight']:
+                G.add_edge(u, v, weight=cost)
+                links[u, v] = l.name
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
@@ -204,9 +207,7 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
-                        path.append(l.name)
+                        path.append(links[paths[source][dest][i], paths[source][dest][i+1]])
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
 
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 3e80f58..1840b60 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1390,11 +1390,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (the cheapest link wins for multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1410,14 +1407,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto &row : node_pair_link){
+            std::fill(row.begin(), row.end(), -1);
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From 554fdc1de99490d5d4e40ac753e993aa77cac33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 61/77] fix: the externality of a route in C++ mode advances by
 the actual travel time also after the end of the simulation

---
 uxsim/trafficpp/traffi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 1840b60..56c9e21 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -699,8 +699,8 @@ double World::estimate_congestion_externality_route(const vector<Link*> &route,
         exts += ln->estimate_congestion_externality(ts);
         // Advance t by the actual travel time on this link
         int n = (int)ln->traveltime_real.size();
-        if (ts >= 0 && ts < n){
-            t += ln->traveltime_real[ts];
+        if (n > 0){
+            t += ln->traveltime_real[std::min(std::max(ts, 0), n - 1)];
         } else {
             t += ln->length / ln->vmax;
         }
-- 
2.43.0


From 2ab729f613d70a792b89db0334c4a3fe5cc9dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 62/77] fix: the ALNS objective penalizes unfinished trips as
 documented

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..2b41175 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1304,7 +1304,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From b279b8f7b913f7ee7397b6199306841d175d9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 63/77] fix: ALNS assigns a vehicle without a known route to
 its fastest route

---
 uxsim/DTAsolvers/DTAsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 2b41175..eb01523 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1243,7 +1243,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    route_tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if route_tt < route_mintt: 
+                        route_mintt = route_tt
                         route_id_mintt = j
                 
                 if route_id != -1:
-- 
2.43.0


From d9c27235712940b6e9f536c504ff6da80660ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 64/77] fix: the random initial solution of ALNS lies in the
 domains of the vehicles

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index eb01523..73eb9f8 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1272,7 +1272,7 @@ class SolverDSO_ALNS:
                 actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
                 xx_domain.append([i for i in range(actual_n_route)])
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+            xx0 = [random.choice(xx_domain[i]) for i in range(len(W.VEHICLES))]
 
 
         ##############################################################
-- 
2.43.0


From 4fe9aa9b2261374e454c3a88a01e21ec550b0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 65/77] fix: SolverDSO_GA returns the best solution of the last
 generation instead of the world evaluated last

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 73eb9f8..c3bced5 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1041,7 +1041,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = s.W_intermid_solution
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 2b0743e186f6304da54722d94df6d180a6a7c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 66/77] fix: a second solve() of an assignment solver starts
 without the solution and the records of the first

---
 uxsim/DTAsolvers/DTAsolvers.py             | 6 ++++++
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index c3bced5..3ca1a57 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -108,6 +108,8 @@ class SolverDUE:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -461,6 +463,8 @@ class SolverDSO_D2D:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -804,6 +808,8 @@ class SolverDSO_GA:
         GA part is initially written by ChatGPT o1-preview, and reviewed and overwritten by human.
         """
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
         
         # def initialize_population(pop_size, length, genome_maxs, W_init):
         #     """Initialize a population with random genomes."""
diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d7a6379..136aae9 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -259,6 +259,8 @@ class CppSolverDUE(SolverDUE):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDUE")
@@ -378,6 +380,8 @@ class CppSolverDSO_D2D(SolverDSO_D2D):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, swap_num=None, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDSO_D2D")
-- 
2.43.0


From 39c0f8bb89aa40d3b7bdbba7da3804e85fe337a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 67/77] fix: worlds of earlier iterations of the C++ assignment
 solvers keep their analyzer

---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index 136aae9..1fec25c 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -73,8 +73,8 @@ def _lightweight_finalize(W, cached_analyzer=None):
     W.ROUTECHOICE = CppRouteChoice(W)
 
     if cached_analyzer is not None:
-        # Reuse existing Analyzer, just rebind to new World and reset stats
-        analyzer = cached_analyzer
+        # Reuse the fonts of the existing Analyzer, but leave it to its own World: bind a copy to the new World and reset stats
+        analyzer = copy.copy(cached_analyzer)
         analyzer.W = W
         analyzer.average_speed = 0
         analyzer.average_speed_count = 0
-- 
2.43.0


From 932fa8da2fe465792fb4d56d00259d1acaa65743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 68/77] fix: node capacities of the worlds of the C++
 assignment solvers are those of finalize_scenario

---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index 1fec25c..85f0115 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -50,6 +50,9 @@ def _lightweight_finalize(W, cached_analyzer=None):
     W._ensure_cpp_world()
     W._cpp_world.set_t_max(float(W.TMAX))
     W._cpp_world.initialize_adj_matrix()
+    if W.adjust_node_capacity:
+        for node in W.NODES:
+            node.adjust_node_capacity()
 
     # Minimal _setup_analyzer equivalent
     W.T = 0
-- 
2.43.0


From 397ca7ea5e4391d15f815a5a7d24f319c5508c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 69/77] fix: worlds of the C++ assignment solvers respect
 show_progress

---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index 85f0115..0a69787 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -49,6 +49,8 @@ def _lightweight_finalize(W, cached_analyzer=None):
         W.TMAX = W._compute_auto_tmax()
     W._ensure_cpp_world()
     W._cpp_world.set_t_max(float(W.TMAX))
+    W._cpp_world.show_progress = int(W.show_progress)
+    W._cpp_world.show_progress_deltat_timestep = max(int(W.show_progress_deltat_timestep), 0)
     W._cpp_world.initialize_adj_matrix()
     if W.adjust_node_capacity:
         for node in W.NODES:
-- 
2.43.0


From 2f1f469dadb1c9e57bcc4eb9b737a8c953de30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 70/77] fix: ALNS does not select a vehicle from a link no
 vehicle has used

---
 uxsim/DTAsolvers/ALNS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..23bc016 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -451,6 +451,7 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     #混雑リンクを選択
     W = state.additional_info.get("W")
     df_l = W.analyzer.link_to_pandas()
+    df_l = df_l[[len(W.get_link(name).vehicles_enter_log) > 0 for name in df_l["link"]]]
     
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
-- 
2.43.0


From 94f06bcec933d71c6d96fb98323da5d587f29757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 71/77] fix: trip requests assigned to the same taxi do not
 overwrite the events of each other at a node

---
 uxsim/TaxiHandler/TaxiHandler.py | 39 +++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index d7220ee..7e1ae66 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -52,11 +52,9 @@ class TripRequest:
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
         s.taxi.add_dest(s.dest)
-        s.taxi.node_event[s.dest] = s.arrive_at_dest
+        add_node_event(s.taxi, s.dest, s.arrive_at_dest)
 
         s.get_taxi_time = s.W.TIME
-        
-        del s.taxi.node_event[s.orig]
     
     def arrive_at_dest(s):
         """
@@ -64,8 +62,37 @@ class TripRequest:
         """
         #print(f"{s.W.TIME}: {s} arrived at the destination {s.dest}")
         s.arrival_time = s.W.TIME
-        
-        del s.taxi.node_event[s.dest]
+
+class TaxiNodeEvents:
+    """
+    The events that a taxi triggers once at its next visit to a node. There can be more than one (e.g., for multiple trip requests assigned to the taxi).
+    """
+    def __init__(s, taxi, node):
+        s.taxi = taxi
+        s.node = node
+        s.events = []
+
+    def __call__(s):
+        del s.taxi.node_event[s.node]
+        for event in s.events:
+            event()
+
+def add_node_event(taxi, node, event):
+    """
+    Adds an event that the taxi triggers at its next visit to the node.
+
+    Parameters
+    ----------
+    taxi : Vehicle
+        The taxi.
+    node : Node
+        The node.
+    event : function
+        The event.
+    """
+    if not isinstance(taxi.node_event.get(node), TaxiNodeEvents):
+        taxi.node_event[node] = TaxiNodeEvents(taxi, node)
+    taxi.node_event[node].events.append(event)
 
 class TaxiHandler:
     """
@@ -122,7 +149,7 @@ class TaxiHandler:
             raise ValueError("Travel request not found in the list of trip requests")
 
         vehicle.add_dest(trip_request.orig)
-        vehicle.node_event[trip_request.orig] = trip_request.get_on_taxi
+        add_node_event(vehicle, trip_request.orig, trip_request.get_on_taxi)
         trip_request.taxi = vehicle
         s.trip_requests.remove(trip_request)
     
-- 
2.43.0


From bd97f8a8974cfe572408209b8ee0365681b02e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 72/77] fix: default names of trip requests are unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 7e1ae66..26467b2 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -130,7 +130,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From fe4c0620a003bf509c39215ca9026b2bc66de18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 73/77] fix: a taxi whose next destination is the node it has
 just reached does not enter its current link again

---
 uxsim/uxsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e73f72f..2a7a6c7 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1191,8 +1191,9 @@ class Vehicle:
                             s.dest = None
                             s.dest_list = []
                         s.route_pref_update(weight=1)
-                        s.route_next_link_choice()
-                        s.link.end_node.incoming_vehicles.append(s)
+                        if s.dest != s.link.end_node: #otherwise, the vehicle stays here, because this node is the next destination again
+                            s.route_next_link_choice()
+                            s.link.end_node.incoming_vehicles.append(s)
 
                 elif len(s.link.end_node.outlinks.values()) == 0 and s.trip_abort == 1:
                     #prepare for trip abort due to dead end
-- 
2.43.0


From f8dcee2f79ec651cdca986fc28440000f45fd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 74/77] fix: a destination can be added to a taxi without
 destination before the simulation

---
 uxsim/uxsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 2a7a6c7..b3920ed 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1380,7 +1380,8 @@ class Vehicle:
             dest = s.W.get_node(dest)
             if s.dest == None:
                 s.dest = dest
-                s.route_pref_update(weight=1)
+                if s.W.finalized: #otherwise, the preference is set at the beginning of the simulation
+                    s.route_pref_update(weight=1)
             else:
                 if order == -1:
                     s.dest_list.append(dest)
-- 
2.43.0


From 265aa1646c9c98fb2a17e05d798543686903f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 75/77] fix: a C++ world has its time, as it has its timestep,
 before it is finalized

---
 uxsim/uxsim_cpp_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index ba084bb..1c188be 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -921,6 +921,7 @@ class CppWorld:
             warnings.warn("vehicle_logging_timestep_interval is not 0, 1, or -1. C++ mode only supports 0 (no logging) and 1 (full logging). The value will be treated as 1 (logging enabled).", stacklevel=2)
         self._simulation_done = False
         self.T = 0
+        self.TIME = 0
         self._skip_log_on_terminate = False
         self._enter_log_timestep = 0
         self._skip_analyzer_setup = False
-- 
2.43.0


From 8a150c4140aa0295976fe2e13f0886126ee0144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 76/77] fix: a link with jam_density_per_lane reports its jam
 density, not the ignored default

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b3920ed..17d307c 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -535,7 +535,7 @@ class Link:
         s.k_star = s.capacity/s.u   #critical density
         
         s.free_flow_speed = free_flow_speed
-        s.jam_density = jam_density
+        s.jam_density = s.kappa
         s.jam_density_per_lane = jam_density_per_lane
 
 
-- 
2.43.0


From 8dda06bf054c143832f8e63e8fa1f6aa5919eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 77/77] fix: C++ mode flags the lanes of a node determined from
 its flow capacity, as the Python mode does

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1c188be..b5fbe57 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -77,7 +77,7 @@ class CppNode:
         self.signal_offset = self._cpp_node.signal_offset
         self.flow_capacity = self._cpp_node.flow_capacity if self._cpp_node.flow_capacity >= 0 else None
         self.number_of_lanes = self._cpp_node.number_of_lanes if self._cpp_node.number_of_lanes >= 0 else None
-        self.flag_lanes_automatically_determined = False
+        self.flag_lanes_automatically_determined = number_of_lanes is None and self.number_of_lanes is not None
 
     def __repr__(self):
         return f"<Node {self.name}>"
-- 
2.43.0

