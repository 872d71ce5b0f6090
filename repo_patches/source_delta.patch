From b01dc7bba019e85132dd625d95f15b6ade90a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 01/32] fix: simultaneous transfers could overfill or overdraw
 a container with several slots

The content of the origin and the room in the destination were checked at the
start of a transfer without regard for transfers that were already under way.
---
 src/openclsim/core/events_container.py       | 20 ++++++++++++++++++++
 src/openclsim/core/processor.py              |  5 +++--
 src/openclsim/model/shift_amount_activity.py | 15 +++++++++++++--
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/core/events_container.py b/src/openclsim/core/events_container.py
index b748dff..a6e90ad 100644
--- a/src/openclsim/core/events_container.py
+++ b/src/openclsim/core/events_container.py
@@ -22,6 +22,7 @@ class EventsContainer(simpy.FilterStore):
         super().__init__(env, capacity=store_capacity * 2)
         self._env = env
         self._container_events: dict = {}
+        self._claims: dict = {}
 
     def initialize_container(self, initials):
         """Initialize method used for MultiContainers."""
@@ -110,6 +111,25 @@ class EventsContainer(simpy.FilterStore):
             if event_status and not event.triggered:
                 event.succeed()
 
+    def claim(self, activity, amount, id_="default"):
+        """Claim content ("get") or room ("put") for a transfer that will take place."""
+        claims = self._claims.setdefault((activity, id_), {})
+        claims[self._env.active_process] = amount
+
+    def release_claim(self, activity, id_="default"):
+        """Give back the claim of the active process, as its transfer takes place."""
+        self._claims.get((activity, id_), {}).pop(self._env.active_process, None)
+
+    def get_available_content(self, id_="default"):
+        """Content that is not claimed by a transfer."""
+        claimed = sum(self._claims.get(("get", id_), {}).values())
+        return self.get_level(id_) - claimed
+
+    def get_available_room(self, id_="default"):
+        """Room that is not claimed by a transfer."""
+        claimed = sum(self._claims.get(("put", id_), {}).values())
+        return self.get_capacity(id_) - self.get_level(id_) - claimed
+
     def put(self, amount, id_="default"):
         store_status = super().get(lambda state: state["id"] == id_).value
         store_status["level"] = store_status["level"] + amount
diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..eb91b62 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -104,6 +104,7 @@ class Processor(SimpyObject):
         method = getattr(obj.container, activity)
 
         start_time = self.env.now
+        obj.container.release_claim(activity, id_)
         # Shift amounts in containers
         yield method(
             amount,
@@ -146,7 +147,7 @@ class Processor(SimpyObject):
     ):
         """Determine the maximum amount that can be carried."""
         dest_cont = destination.container
-        destination_max_amount = dest_cont.get_capacity(id_) - dest_cont.get_level(id_)
+        destination_max_amount = dest_cont.get_available_room(id_)
         if destination_max_amount <= 0:
             raise ValueError(
                 "Attempting to shift content to a full destination "
@@ -156,7 +157,7 @@ class Processor(SimpyObject):
             )
 
         org_cont = origin.container
-        origin_max_amount = org_cont.get_level(id_)
+        origin_max_amount = org_cont.get_available_content(id_)
         if origin_max_amount <= 0:
             raise ValueError(
                 "Attempting to shift content from an empty origin "
diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..17dd758 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -111,7 +111,7 @@ class ShiftAmountActivity(GenericActivity):
             yield from self._request_resource(
                 self.requested_resources, self.processor.resource
             )
-            if self.origin.container.get_level(self.id_) < amount:
+            if not self._is_available(amount):
                 # someone removed / added content while we were requesting the
                 # processor, so abort and wait for available
                 # space/content again
@@ -124,7 +124,7 @@ class ShiftAmountActivity(GenericActivity):
             yield from self._request_resource(
                 self.requested_resources, self.origin.resource
             )
-            if self.origin.container.get_level(self.id_) < amount:
+            if not self._is_available(amount):
                 self._release_resource(
                     self.requested_resources,
                     self.processor.resource,
@@ -136,6 +136,10 @@ class ShiftAmountActivity(GenericActivity):
                 continue
             all_available = True
 
+        # others may want to use the same content or room before we are done
+        self.origin.container.claim("get", amount, self.id_)
+        self.destination.container.claim("put", amount, self.id_)
+
         start_time = env.now
         args_data = {
             "env": env,
@@ -179,6 +183,13 @@ class ShiftAmountActivity(GenericActivity):
                 self.requested_resources, self.processor.resource, self.keep_resources
             )
 
+    def _is_available(self, amount):
+        """Check for enough unclaimed content in origin and room in destination."""
+        return (
+            self.origin.container.get_available_content(self.id_) >= amount
+            and self.destination.container.get_available_room(self.id_) >= amount
+        )
+
     def _shift_amount(
         self,
         env,
-- 
2.43.0


From f1b2b518a741b873891710d04cb472a17a2c4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 02/32] fix: transfer of a fractional amount that fills the
 destination could wait forever

Rounding made capacity - amount smaller than the level the destination had.
---
 src/openclsim/model/shift_amount_activity.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 17dd758..7d497e4 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -100,8 +100,11 @@ class ShiftAmountActivity(GenericActivity):
                         id_=self.id_,
                     ),
                     self.destination.container.get_container_event(
-                        level=self.destination.container.get_capacity(self.id_)
-                        - amount,
+                        # rounding: capacity - amount can be just below the level
+                        level=max(
+                            self.destination.container.get_capacity(self.id_) - amount,
+                            self.destination.container.get_level(self.id_),
+                        ),
                         operator="le",
                         id_=self.id_,
                     ),
-- 
2.43.0


From bd1a053be8123847e231821ebae665b213a0c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 03/32] fix: loops that end at the same moment could miss that
 their condition is met

A level condition was only noticed once its event had been processed, so a
second vessel that finished its round in the same instant made a trip too many.
---
 src/openclsim/model/while_activity.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/model/while_activity.py b/src/openclsim/model/while_activity.py
index 31e81d4..59fdf8d 100644
--- a/src/openclsim/model/while_activity.py
+++ b/src/openclsim/model/while_activity.py
@@ -1,5 +1,7 @@
 """While activity for the simulation."""
 
+import simpy
+
 import openclsim.core as core
 
 from .base_activities import GenericActivity, RegisterSubProcesses
@@ -69,7 +71,7 @@ class ConditionProcessMixin:
             if (
                 repetitions >= self.max_iterations
                 or static_condition_event.processed is True
-                or self.parse_expression(self.condition_event).processed is True
+                or self._is_met(self.condition_event)
             ):
                 break
             else:
@@ -90,6 +92,19 @@ class ConditionProcessMixin:
         args_data["start_activity"] = start_while
         yield from self.post_process(**args_data)
 
+    def _is_met(self, expr):
+        """Check if the condition is met, even if its event is yet to be processed."""
+        if isinstance(expr, dict) and "or" in expr:
+            return any(self._is_met(item) for item in expr["or"])
+        if isinstance(expr, dict) and "and" in expr:
+            expr = expr["and"]
+        if isinstance(expr, list):
+            return all(self._is_met(item) for item in expr)
+
+        event = self.parse_expression(expr)
+        # A timeout is triggered from the start.
+        return event.processed if isinstance(event, simpy.Timeout) else event.triggered
+
 
 class WhileActivity(GenericActivity, ConditionProcessMixin, RegisterSubProcesses):
     """
-- 
2.43.0


From c969b8d7a81e73a9cf521e3db07d96265815a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 04/32] fix: simultaneous transfers of one processor were
 logged under the wrong activity

---
 src/openclsim/core/processor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index eb91b62..d60304d 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,14 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # The processor can start another process before this one has finished.
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -70,7 +73,7 @@ class Processor(SimpyObject):
             reserved_amount=reserved_amount,
             id_=id_,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -85,7 +88,7 @@ class Processor(SimpyObject):
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
-- 
2.43.0


From caa1f39146ff3f3f634de7c31933b5fe2b3f2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 05/32] fix: speed of a multi container vessel depended on its
 last product only

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..994c6f7 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From fdde7f80e6b4ea4f09aee3ee8bbe1b6bbd45e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 06/32] fix: engine order was ignored by vessels with a load
 dependent speed and as initial value

---
 src/openclsim/core/movable.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 994c6f7..65c2983 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -191,9 +191,8 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
-            self.container.get_level() / self.container.get_capacity()
-        )
+        fill_degree = self.container.get_level() / self.container.get_capacity()
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class MultiContainerDependentMovable(Movable, HasMultiContainer):
@@ -225,7 +224,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From 8afc10cafa59938b26c9aecd7acb3bc1e1df7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 07/32] fix: sailing edge by edge over a route failed and took
 the wrong time

---
 src/openclsim/core/movable.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 65c2983..ec5151a 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -333,7 +333,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
@@ -353,7 +353,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
@@ -393,16 +393,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -411,7 +411,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From 1bf6ccef50cefd874f7d385d42b6a0a26f089db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 08/32] fix: start of a wait was recorded in additional logs
 with the state at its end

---
 src/openclsim/model/base_activities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..615fc68 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -243,6 +243,7 @@ class GenericActivity(PluginActivity):
             yield self.parse_expression(self.start_event_parent)
 
         start_time = env.now
+        start_states = [log.get_state() for log in additional_logs]
         if start_event is not None:
             yield start_event
 
@@ -253,11 +254,12 @@ class GenericActivity(PluginActivity):
                 activity_id=activity_log.id,
                 activity_state=core.LogState.WAIT_START,
             )
-            for log in additional_logs:
+            for log, start_state in zip(additional_logs, start_states):
                 log.log_entry_v1(
                     t=start_time,
                     activity_id=activity_log.id,
                     activity_state=core.LogState.WAIT_START,
+                    additional_state=start_state,
                     activity_label={
                         "type": "additional log",
                         "ref": self.id,
-- 
2.43.0


From ed17dbff900a4d2934c463c8aeb2464632cb6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 09/32] fix: level dependent unloading rate was evaluated above
 the actual levels

The rate function is evaluated before the content is removed.
---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index d60304d..986a6c4 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -268,8 +268,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From 42df420c3611d0f3745270ba72431a39b65844db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 10/32] fix: level dependent rates ignored which product of a
 multi container is shifted

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 7d497e4..06ffd30 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -216,9 +216,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From 895e129611f84047193207913b730a12b6d0ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 11/32] fix: exported activities had the top level activity as
 parent instead of the one they are nested in

---
 src/openclsim/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..6b6e273 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,12 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # the direct children have no parent in the list of the subtree
+            ParentName += [
+                act.name if parent is None else name
+                for parent, name in zip(d["ParentId"], d["ParentName"])
+            ]
+            ParentId += [act.id if p is None else p for p in d["ParentId"]]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From e060ff3a9dc1dc98b0b84ce30a763d4f03b6a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 12/32] fix: exported intervals of composite activities paired
 their own log entries with those of their steps

---
 src/openclsim/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 6b6e273..b8ff2ae 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -167,8 +167,16 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     # each intervals has START STOP
     # at most 1 interval may be without STOP, the last one
 
-    for ActivityID in set(log[idkey]):
+    # the steps of a composite activity are logged with its ActivityID too,
+    # labelled with the sub activity: these are intervals of their own
+
+    if "ref" not in log.columns:
+        log["ref"] = None
+    log["ref"] = log["ref"].astype(object).where(log["ref"].notna(), None)
+
+    for ActivityID, ref in dict.fromkeys(zip(log[idkey], log["ref"])):
         log1 = log[log[idkey] == ActivityID]
+        log1 = log1[log1["ref"].isna() if ref is None else log1["ref"] == ref]
 
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
-- 
2.43.0


From 8162577c2b5dbad6128b1d4ae27f1dab0ec0a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 13/32] fix: exporting activities that did not run or finish,
 or have no roles, raised an exception

---
 src/openclsim/io.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index b8ff2ae..ecee7d2 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -121,16 +121,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
@@ -205,8 +205,8 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
+            )
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
             raise Exception("At most 1 range may be without STOP")
@@ -218,6 +218,20 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:
+        # nothing is logged (yet)
+        li = [
+            pd.DataFrame(
+                {
+                    "TimestampStart": pd.Series(dtype="datetime64[ns]"),
+                    "trip": pd.Series(dtype=int),
+                    "TimestampStop": pd.Series(dtype="datetime64[ns]"),
+                    idkey: pd.Series(dtype=object),
+                    "TimestampDt": pd.Series(dtype=float),
+                }
+            )
+        ]
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From c59ddbfd1414726636f34e7d30a05823b5111bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 14/32] fix: manual id_map of labels for log tables raised an
 exception

---
 src/openclsim/plot/log_dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..1b58f32 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not all(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
-- 
2.43.0


From 5b7f2eb706199a115b9e4e387a4333791da17cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 15/32] fix: a move that overlaps another use of the vessel was
 logged under the wrong activity

---
 src/openclsim/core/movable.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index ec5151a..a85cefa 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -93,10 +93,13 @@ class Movable(Locatable, PerformsActivity, Log):
         if engine_order is not None:
             self.engine_order = engine_order
 
+        # The mover can be used by another activity before this move has finished.
+        activity_id = self.activity_id
+
         # Log the start event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.START,
         )
 
@@ -105,7 +108,7 @@ class Movable(Locatable, PerformsActivity, Log):
             duration = self.compute_duration(self.geometry, destination.geometry)
 
         # Check out the time based on duration of sailing event
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
 
         # Set mover geometry to destination geometry
         self.geometry = shapely.geometry.shape(destination.geometry)
@@ -113,7 +116,7 @@ class Movable(Locatable, PerformsActivity, Log):
         # Log the stop event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.STOP,
         )
 
-- 
2.43.0


From ef5454b15f116059aba28d0ae6cc1de8e2947587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 16/32] fix: weather limits were ignored or raised an exception
 once no window was left in the dataset

---
 src/openclsim/plugins/weather.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..abb83f0 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -114,10 +114,11 @@ class WeatherPluginActivity(model.AbstractPluginClass):
 
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 0
-        while len(filter_windows) < 1 and i < 10:
-            dt = i * (ts_stop - ts_start)
-            filter_windows = windows[windows[:, 1] >= start_time - dt]
+        # no window is left: the dataset repeats itself
+        while len(filter_windows) < 1 and ts_stop > ts_start:
             i = i + 1
+            next_windows = windows + i * (ts_stop - ts_start)
+            filter_windows = next_windows[next_windows[:, 1] >= start_time]
 
         return list(filter_windows[0])
 
-- 
2.43.0


From c8d7db44301a7003dd0cc421afc191b8f7ec433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 17/32] fix: weather that just touches the limit raised an
 exception

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index abb83f0..74f1de3 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -138,7 +138,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -152,7 +152,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 5f3bccc45cfa8d67ceacba208ed77a8d8bcc957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 18/32] fix: weather that exceeds the limit until the end of
 the dataset was not waited for

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 74f1de3..d664f84 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -182,12 +182,12 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
+        if data.iloc[-1]["type"] == "start":
+            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
         if data.iloc[0]["type"] == "end":
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
-            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
 
-- 
2.43.0


From 5672669e601038f901ff5284e0098611af636513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 19/32] fix: critical activities were missed or the search for
 them ran out of recursion depth

---
 .../critical_path/simulation_graph.py         | 189 +++++-------------
 1 file changed, 50 insertions(+), 139 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..5bd17f0 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -277,148 +276,60 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
-
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
-
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
+        Create a list of all activity edges on a longest path in the graph.
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
+        An edge is on a longest path if the longest path towards it, the edge itself
+        and the longest path from it add up to the maximum duration. If longest paths
+        end at different moments, only those count which end at the same moment as
+        the first one found.
+        """
+        graph = self.simulation_graph
+
+        # get an initial longest path, and its end time
+        longest_path = nx.dag_longest_path(graph, weight="duration")
+        logging.debug(f"Found initial longest path {longest_path}.")
+        if not longest_path:
+            return []
+        t_max_end = graph.nodes[longest_path[-1]]["time"]
+
+        order = list(nx.topological_sort(graph))
+        # duration of the longest path that ends in a node
+        before = {}
+        for node in order:
+            before[node] = max(
+                (
+                    before[previous] + graph.edges[previous, node]["duration"]
+                    for previous in graph.predecessors(node)
+                ),
+                default=0,
             )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
+        # duration of the longest path from a node to the end time
+        after = {}
+        for node in reversed(order):
+            at_end = 0 if graph.nodes[node]["time"] == t_max_end else -float("inf")
+            after[node] = max(
+                (
+                    after[following] + graph.edges[node, following]["duration"]
+                    for following in graph.successors(node)
+                ),
+                default=at_end,
             )
-
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+            after[node] = max(after[node], at_end)
+
+        list_critical = []
+        for start, end in graph.edges:
+            edge = graph.edges[start, end]
+            duration = before[start] + edge["duration"] + after[end]
+            if edge["edge_type"] == "activity" and (
+                duration != -float("inf")
+                and round(duration, 2) == round(self.max_duration, 2)
+            ):
+                edge[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From 4b460a1caf9458eeb9a9d05dd849d097a77159f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 20/32] fix: dependencies of long simulations could not be
 found within the recursion depth

---
 .../dependencies_from_simpy_step.py           | 102 +++++++-----------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..88eef2a 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -7,7 +7,6 @@ are to be found with method 'simpy step':
 """
 
 import copy
-import logging
 
 import pandas as pd
 import simpy
@@ -58,68 +57,49 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
-        (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
-        which are a timeout event. Then we translate the IDs of these dependencies from
-        the original simpy e_id values to our openclsim cp_activity_id values.
+        This method walks through the simpy dependencies (as the 'monkey-patched' step
+        function recorded these) and keeps only those dependencies which are a timeout event.
+        Then we translate the IDs of these dependencies from the original simpy e_id values
+        to our openclsim cp_activity_id values.
+
+        The simpy dependencies are a list of tuples (e.g. [(1, 2), (2, 3), (2, 4))]).
+        Each tuple contains two eids (event-IDs) and can be seen a dependency with a cause
+        (first element tuple) and effect (second and last element tuple).
+        CriticalPathEnvironment registers all events, but we are only interested in events
+        which are OpenClSim activities with duration, i.e. we are only interested in Timeout
+        event with a _delay attribute > 0. Hence we search which Timeout causes which timeout.
         """
-        # Define some globals to which the recursive functions/while loop can append
         DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
-
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
-            """
-            Extract the relevant (OpenCLSim) dependencies from the complete list
-            of all Simpy dependencies.
-
-            This function will walk through a dependency tree which is represented by
-            list of tuples (e.g. [(1, 2), (2, 3), (2, 4))]). Each tuple contains two
-            eids (event-IDs) and can be seen a dependency with a cause (first element
-            tuple) and effect (second and last element tuple).
-            CriticalPathEnvironment registers all events, but we are only
-            interested in events which are OpenClSim activities with duration,
-            i.e. we are only interested in Timeout event with a _delay attribute > 0.
-            This function extracts such dependencies (which Timeout causes which timeout)
-            from the original tree_input.
-            """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
-                )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
-
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
-
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
-                )
-
-            return None
-
-        # get all relevant dependencies from the simpy dependencies,
-        # that is find how the timeouts depend on one another.
-        tree = copy.deepcopy(self.__cause_effect_list)
-        while len(tree) > 0:
-            __extract_openclsim_dependencies(tree)
-            tree = [tup for tup in tree if tup[0] not in SEEN]
+        SEEN = set()
+
+        effects = {}
+        for cause, effect in self.__cause_effect_list:
+            effects.setdefault(cause, []).append(effect)
+
+        event_objects = self.step_logging_dataframe["event_object"].to_dict()
+
+        # walk through the trees of dependencies, in order of simulation
+        for root in effects:
+            to_visit = [(root, None)] if root not in SEEN else []
+            while to_visit:
+                elem, last_seen = to_visit.pop()
+                # note that we have seen this one
+                SEEN.add(elem)
+
+                # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
+                # (because these events take time)
+                event_object = event_objects[elem]
+                if (
+                    isinstance(event_object, simpy.events.Timeout)
+                    and event_object._delay > 0
+                ):
+                    # relevant to SAVE
+                    if last_seen is not None:
+                        DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
+                    last_seen = elem
+
+                for effect in reversed(effects.get(elem, [])):
+                    to_visit.append((effect, last_seen))
 
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
-- 
2.43.0


From b27a8ce1d1df801da42f97e16c42097281622ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 21/32] fix: dependencies could not be found if an interval
 without duration ends at the same time

---
 src/openclsim/critical_path/dependencies_from_simpy_step.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 88eef2a..78b040a 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -136,6 +136,8 @@ class DependenciesFromSimpy(BaseCP):
             (
                 (recorded_activities_df.ActivityID == activity_id)
                 & (recorded_activities_df.end_time == end_time)
+                # timeouts take time, unlike other activities that can end simultaneously
+                & (recorded_activities_df.start_time < end_time)
             ),
             "cp_activity_id",
         ]
-- 
2.43.0


From 111bdc8d6f2ecaad5b142185a23c49a203532180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 22/32] fix: recorded activities without duration were paired
 with those of other objects

---
 src/openclsim/critical_path/base_cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..b0e11c8 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -182,7 +182,7 @@ class BaseCP(ABC):
         """
 
         df_log = df_log.sort_values(
-            by=["ActivityID", "Timestamp", "ActivityState"]
+            by=["ActivityID", "SimulationObject", "Timestamp", "ActivityState"]
         ).reset_index()
 
         df_starts = (
-- 
2.43.0


From 0dac771ce34106e29abcbb3b79cea03ce5305d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 23/32] fix: dependencies on activities without duration raised
 an exception

---
 .../critical_path/simulation_graph.py         | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 5bd17f0..f45d721 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -138,9 +138,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
-        recorded_activities_df = recorded_activities_df.loc[
-            recorded_activities_df.duration != 0, :
-        ]
+        has_duration = recorded_activities_df.duration != 0
+        self.__ids_without_duration = set(
+            recorded_activities_df.loc[~has_duration, "cp_activity_id"]
+        )
+        recorded_activities_df = recorded_activities_df.loc[has_duration, :]
         # make sure all durations are positive
         if not all(recorded_activities_df["duration"] > 0):
             raise ValueError("Negative durations encountered in activities.")
@@ -159,10 +161,39 @@ class SimulationGraph:
 
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
-            for end, start in dependency_list
+            for end, start in self.__skip_activities_without_duration(dependency_list)
         ]
         return dependency_list
 
+    def __skip_activities_without_duration(self, dependency_list):
+        """
+        Link the activities before and after (dropped) activities with zero time directly.
+
+        Parameters
+        ----------
+        dependency_list : list
+        """
+        effects = {}
+        for cause, effect in dependency_list:
+            effects.setdefault(cause, []).append(effect)
+
+        new_list = []
+        for cause in effects:
+            if cause in self.__ids_without_duration:
+                continue
+            seen = []
+            to_visit = list(effects[cause])
+            while to_visit:
+                effect = to_visit.pop(0)
+                if effect in seen:
+                    continue
+                seen.append(effect)
+                if effect in self.__ids_without_duration:
+                    to_visit.extend(effects.get(effect, []))
+                else:
+                    new_list.append((cause, effect))
+        return new_list
+
     def __construct_graph(self):
         """
         Construct and return simulation graph (self.simulation_graph),
-- 
2.43.0


From 240949ba4226fb06df5ad340fe72f634842a4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 24/32] fix: rounding of durations hid critical activities

---
 src/openclsim/critical_path/simulation_graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index f45d721..131cd6b 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -128,9 +128,9 @@ class SimulationGraph:
         )
         if is_timedelta64_dtype(recorded_activities_df["duration"]):
             logging.debug("Converting duration to seconds (float)")
-            recorded_activities_df["duration"] = round(
-                recorded_activities_df["duration"].dt.total_seconds(), 3
-            )
+            recorded_activities_df["duration"] = recorded_activities_df[
+                "duration"
+            ].dt.total_seconds()
         if not is_numeric_dtype(recorded_activities_df["duration"]):
             raise TypeError(
                 f"Duration computed as type {type(recorded_activities_df['duration'][0])} "
@@ -354,8 +354,7 @@ class SimulationGraph:
             edge = graph.edges[start, end]
             duration = before[start] + edge["duration"] + after[end]
             if edge["edge_type"] == "activity" and (
-                duration != -float("inf")
-                and round(duration, 2) == round(self.max_duration, 2)
+                abs(duration - self.max_duration) < 0.001
             ):
                 edge[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
                 list_critical.append((start, end))
-- 
2.43.0


From 80249ff502240331cd8b7afd9328bf38ee221064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 25/32] fix: dependencies between activities less than a second
 apart were not refused

---
 src/openclsim/critical_path/simulation_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 131cd6b..8be8812 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -280,7 +280,7 @@ class SimulationGraph:
             duration = end_time - start_time
 
             if isinstance(duration, dt.timedelta):
-                duration = int(duration.total_seconds())
+                duration = duration.total_seconds()
             if not isinstance(duration, (float, int)):
                 raise TypeError(
                     f"Duration computed as type {duration} " "is not supported!"
-- 
2.43.0


From d9bd275afa5abb042cfb21c77a89e3266928f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 26/32] fix: dependencies were not found if times are about to
 be rounded differently

---
 .../critical_path/dependencies_from_simpy_step.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 78b040a..c4d9fe5 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -103,11 +103,11 @@ class DependenciesFromSimpy(BaseCP):
 
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
-        recorded_activities_df.start_time = round(
-            recorded_activities_df.start_time.astype("int64") / 10**9, 4
+        recorded_activities_df.start_time = (
+            recorded_activities_df.start_time.astype("int64") / 10**9
         )
-        recorded_activities_df.end_time = round(
-            recorded_activities_df.end_time.astype("int64") / 10**9, 4
+        recorded_activities_df.end_time = (
+            recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
@@ -131,13 +131,14 @@ class DependenciesFromSimpy(BaseCP):
             From self.get_recorded_activity_df().
         """
         activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
-        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
         matching_ids = recorded_activities_df.loc[
             (
                 (recorded_activities_df.ActivityID == activity_id)
-                & (recorded_activities_df.end_time == end_time)
+                # recorded times are rounded (to microseconds)
+                & (abs(recorded_activities_df.end_time - end_time) < 1e-5)
                 # timeouts take time, unlike other activities that can end simultaneously
-                & (recorded_activities_df.start_time < end_time)
+                & (recorded_activities_df.start_time < recorded_activities_df.end_time)
             ),
             "cp_activity_id",
         ]
-- 
2.43.0


From be77091d29561b8393431445565436b3315ed6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 27/32] fix: manual id_map of labels for gantt charts raised an
 exception

---
 src/openclsim/plot/vessel_planning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..f8664c7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not all(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From 5031d3067ad5a8965c1edf728e108b696725353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 28/32] fix: bars of steps of activities were missing in gantt
 charts of their vessels

---
 src/openclsim/plot/vessel_planning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index f8664c7..80150d7 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -89,7 +89,7 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    act_map = {act.id: act.name for act in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
-- 
2.43.0


From e8dcc8d85af032e3cdb1c6e8316ba6b84799068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 29/32] fix: log entries of the same time could be listed in
 another order

---
 src/openclsim/plot/log_dataframe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 1b58f32..8d8983a 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -33,10 +33,8 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From d876f932751e9f6cac89117f6da073720302a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 30/32] fix: moments of conditions and start events without
 consequences raised an exception in dependency tracking

---
 .../dependencies_from_simpy_step.py           | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index c4d9fe5..9edd2cd 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -110,6 +110,16 @@ class DependenciesFromSimpy(BaseCP):
             recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
+        # a moment in time (of a condition or start event) that has no consequences is not
+        # necessarily the end of an activity
+        causes = {dependency[0] for dependency in DEPENDENCIES_OPENCLSIM}
+        DEPENDENCIES_OPENCLSIM = [
+            dependency
+            for dependency in DEPENDENCIES_OPENCLSIM
+            if dependency[1] in causes
+            or len(self._match_cp_act(dependency[1], recorded_activities_df)) > 0
+        ]
+
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
         self.dependency_list = [
             (
@@ -119,9 +129,9 @@ class DependenciesFromSimpy(BaseCP):
             for dependency in DEPENDENCIES_OPENCLSIM
         ]
 
-    def _find_cp_act(self, e_id, recorded_activities_df):
+    def _match_cp_act(self, e_id, recorded_activities_df):
         """
-        Get cp activity ID given a time-window and an activity ID.
+        Get all matching cp activity IDs given a time-window and an activity ID.
 
         Parameters
         ----------
@@ -142,9 +152,25 @@ class DependenciesFromSimpy(BaseCP):
             ),
             "cp_activity_id",
         ]
-        if len(set(matching_ids)) == 1:
-            cp_activity_id = matching_ids.iloc[0]
+        return set(matching_ids)
+
+    def _find_cp_act(self, e_id, recorded_activities_df):
+        """
+        Get cp activity ID given a time-window and an activity ID.
+
+        Parameters
+        ----------
+        e_id : int
+            Execution id from simpy.
+        recorded_activities_df : pd.DataFrame
+            From self.get_recorded_activity_df().
+        """
+        matching_ids = self._match_cp_act(e_id, recorded_activities_df)
+        if len(matching_ids) == 1:
+            cp_activity_id = matching_ids.pop()
         else:
+            activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
+            end_time = self.step_logging_dataframe.loc[e_id, "t1"]
             raise ValueError(
                 f"No recorded activity found for"
                 f" activityID {activity_id} at (end)time {end_time}"
-- 
2.43.0


From 71a644e1e22da1b48e2d0792709d225d1c440d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 31/32] fix: elapsed times in combined stop conditions were not
 noticed by loops that end at the same moment

---
 src/openclsim/model/while_activity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openclsim/model/while_activity.py b/src/openclsim/model/while_activity.py
index 59fdf8d..cc3e82a 100644
--- a/src/openclsim/model/while_activity.py
+++ b/src/openclsim/model/while_activity.py
@@ -100,6 +100,8 @@ class ConditionProcessMixin:
             expr = expr["and"]
         if isinstance(expr, list):
             return all(self._is_met(item) for item in expr)
+        if isinstance(expr, dict) and expr.get("type") == "time":
+            return expr["start_time"] <= self.env.now
 
         event = self.parse_expression(expr)
         # A timeout is triggered from the start.
-- 
2.43.0


From da54151061ae7836dabaecfe6e73e66795243835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 32/32] fix: waits shorter than the recorded precision were
 paired with the end of the activity

---
 src/openclsim/critical_path/base_cp.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index b0e11c8..d00e087 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -181,9 +181,22 @@ class BaseCP(ABC):
             The reformatted and reshaped log.
         """
 
-        df_log = df_log.sort_values(
-            by=["ActivityID", "SimulationObject", "Timestamp", "ActivityState"]
-        ).reset_index()
+        # waiting and activity itself can start at the same (recorded) time
+        df_log = (
+            df_log.assign(
+                is_waiting=df_log["ActivityState"].isin(["WAIT_START", "WAIT_STOP"])
+            )
+            .sort_values(
+                by=[
+                    "ActivityID",
+                    "SimulationObject",
+                    "is_waiting",
+                    "Timestamp",
+                    "ActivityState",
+                ]
+            )
+            .reset_index()
+        )
 
         df_starts = (
             df_log[df_log.ActivityState.isin(["START", "WAIT_START"])]
-- 
2.43.0

