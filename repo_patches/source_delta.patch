From 954d52c7da49870e3249f08e23e82c6880b1cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 01/92] fix: cancelling a multi-event whose condition was just
 met no longer raises

An interrupt at the same time as, but ahead of, the resumption from a
completed Any/All made MultiEvent.cancel fail an already triggered event.
---
 src/upstage_des/events.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..55c6ae9 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -426,7 +426,10 @@ class MultiEvent(BaseEvent):
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        # The condition may have been met at this same time, but before the
+        # task holding the event could be resumed.
+        if not self._simpy_event.triggered:
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
-- 
2.43.0


From cf14cf26c8709797f004fea2a95011a913292332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 02/92] fix: give back what a cancelled request was granted at
 the same instant

A get or resource hold granted at the very time its task is interrupted (or
its window closes) took the item, amount or slot from its resource although
no task ever received it.
---
 src/upstage_des/events.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 55c6ae9..b12cd93 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -276,12 +276,23 @@ class BaseRequestEvent(BaseEvent):
         self._request_event: SIM_REQ_EVTS | None = None
 
     def cancel(self) -> None:
-        """Cancel the Request."""
-        if self._request_event is None:
+        """Cancel the Request.
+
+        A request granted at this same time, but not yet seen by the task that made
+        it, has already been taken from its resource. In that case, it's given back.
+        """
+        if self._request_event is None or self.is_complete():
             return
-        if not self.is_complete():
+        if self._request_event.triggered:
+            self._give_back()
+        else:
             self._request_event.cancel()
-        # TODO: Do we put it back?
+
+    def _give_back(self) -> None:
+        """Undo a granted request that will never be seen.
+
+        Puts have nothing to give back, the resource already has the object.
+        """
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -616,6 +627,14 @@ class Get(BaseRequestEvent):
                 "complete and use the amount you requested."
             )
 
+    def _give_back(self) -> None:
+        """Return the item or amount to where it came from."""
+        assert self._request_event is not None
+        if isinstance(self._request_event, ContainerGet):
+            self.get_location.put(self._request_event.amount)
+        else:
+            self.get_location.put(self._request_event.value)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Mock the event to test if it is feasible.
 
@@ -713,6 +732,11 @@ class ResourceHold(BaseRequestEvent):
             return self._request_event
         raise UpstageError(f"Bad stage for Resource Hold: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Release the resource if it was just requested."""
+        if isinstance(self._request_event, Request):
+            self.resource.release(self._request_event)
+
 
 class FilterGet(Get):
     """A Get for a FilterStore."""
-- 
2.43.0


From 01245833f291c574d21ebcc03313e80d2bff7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 03/92] fix: routines get the values of their own events and
 none of their task's

A routine yielded right after an event that returned a value was sent that
value on start-up (TypeError), never got the values of the events it yields,
and one without a return value passed its last event's value to the task.
---
 src/upstage_des/routines.py | 5 +++--
 src/upstage_des/task.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..67061ec 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -45,11 +45,12 @@ class Routine(SettableEnv):
     def _run(self) -> ROUTINE_GEN:
         try:
             gen = self.run()
+            value = None
             while True:
-                evt = next(gen)
+                evt = gen.send(value)
                 if not isinstance(evt, BaseEvent):
                     raise SimulationError("Routines only support BaseEvent subclasses.")
-                yield evt
+                value = yield evt
         except StopIteration as e:
             return e.value
         except GeneratorExit:
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..af8f6b0 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -493,8 +493,7 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -505,6 +504,8 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            # The value of the last event isn't for the routine.
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From 43951168cc74a99909724d66a1dc6501ad8137dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/92] fix: an interrupt while a routine cleans up no longer
 abandons the clean up

The second interrupt escaped from the task's process, which crashed the
simulation and left the rest of the routine's items unreturned.
---
 src/upstage_des/routines.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 67061ec..90c4709 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -62,8 +62,14 @@ class Routine(SettableEnv):
         # Cancel can yield upstage events, so this pushes those through.
         # This can be very unsafe - if a store/container can't handle a put
         # or a get of some kind, it will hold forever.
+        # The task is already stopping, so another interrupt doesn't stop the clean up.
         for evt in self.cancel():
-            yield evt.as_event()
+            simpy_event = evt.as_event()
+            while not simpy_event.processed:
+                try:
+                    yield simpy_event
+                except SIM.Interrupt:
+                    continue
 
     def rehearse(self) -> tuple[float, Any | None]:
         """Rehearse the Routine.
-- 
2.43.0


From 7314626608cd882a656f42471a9c1e0d6e2d46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 05/92] fix: interrupting a task as the process it waits on
 finishes no longer raises

---
 src/upstage_des/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index af8f6b0..bd5fbb2 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -454,7 +454,9 @@ class Task(SettableEnv):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-                next_event.interrupt(cause=interrupt.cause)
+                # It could have finished at this same time.
+                if next_event.is_alive:
+                    next_event.interrupt(cause=interrupt.cause)
             else:
                 raise SimulationError(f"Bad event passed: {next_event}")
         elif _interrupt_action != InterruptStates.IGNORE:
-- 
2.43.0


From a982c73e1a896e040777ec913cdc490ab830f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/92] fix: cancelling an event that succeeded at the same
 time no longer raises

---
 src/upstage_des/events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index b12cd93..3dbbd43 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -882,6 +882,9 @@ class Event(BaseEvent):
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
         """
+        if self._event.triggered and not self._event.defused:
+            # It was succeeded already, possibly at this same time.
+            return
         try:
             self._event.defused = True
             self._event.succeed()
-- 
2.43.0


From 4e1ea563030d76e48635b2f69be426b48ff15b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 07/92] fix: assigning an active linear state continues from
 the assigned value

---
 src/upstage_des/state_sharing.py | 14 ++++++++++++++
 src/upstage_des/states.py        | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..8906b28 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -50,6 +50,20 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: float) -> None:
+        """Set the state's value.
+
+        When the state is active, it continues from the new value.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance._active_states.get(self.name, None)
+        if data is not None:
+            data["_last_time"] = instance.env.now
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..7a79ed6 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -477,6 +477,20 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: float) -> None:
+        """Set the state's value.
+
+        When the state is active, it continues from the new value.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        data = instance._active_states.get(self.name, None)
+        if data is not None:
+            data["started_at"] = instance.env.now
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From c89122a9cc430da84771b6d226f25e1015e23d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 08/92] fix: ending a task only stops the mimicking states that
 task started

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..c37729c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -531,7 +531,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in list(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 6a247d7afdfa57e4a44723a17ae3c2a16cb72578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 09/92] fix: WGS84 destination points agree with WGS84
 distances and bearings

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..306e983 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From 051237e6c04ecc0fdca63ccb28cf28b4ca1b3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 10/92] fix: WGS84 distance between points too close to tell
 apart is zero

---
 src/upstage_des/geography/wgs84.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 306e983..cea666a 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -112,6 +112,9 @@ class WGS84(WGS84Conversions):
 
             cos_sigma = sin_u1 * sin_u2 + cos_u1 * cos_u2 * cos_lambda
             sigma = atan2(sin_sigma, cos_sigma)
+            if sigma == 0.0:
+                # The points are too close to tell apart
+                return 0.0, 0.0
             sin_alpha = cos_u1 * cos_u2 * sin_lambda / sin_sigma
             cos_sq_alpha = 1 - sin_alpha**2
             try:
-- 
2.43.0


From 02d50ed9b49a0c1fa40bf7abd7862e6029092e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 11/92] fix: moving locations follow their path across legs,
 arrivals and clock rounding

---
 src/upstage_des/states.py | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 7a79ed6..047a915 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -10,6 +10,7 @@ from collections.abc import Callable, Iterable
 from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
@@ -600,12 +601,16 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, clock_rounding: float = 0.0
+    ) -> tuple[int, float]:
         """Find out how far along waypoints the state is.
 
         Args:
             path_data (dict[str, Any]): Data about the movement path
             time_elapsed (float): Time spent moving
+            clock_rounding (float, optional): Rounding error allowed in the elapsed time.
+                Defaults to 0.0.
 
         Returns:
             int: index in waypoints
@@ -615,8 +620,11 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= sum_t:
                 return i, sum_t - t
+        # The elapsed time carries the rounding of the clock it came from.
+        if path_data["times"] and time_elapsed <= (sum_t + 1e-12 + clock_rounding):
+            return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
             f"elapsed: {time_elapsed}, maximum: {sum_t}"
@@ -635,7 +643,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, 4 * ulp(current_time))
         return list(data["waypoints"][idx:])
 
     def _active(self, instance: "Actor") -> CartesianLocation | None:
@@ -668,12 +676,15 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             return_value: CartesianLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(
+                path_data, elapsed, 4 * ulp(current_time)
+            )
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
             path_vector: list[float] = path_data["vectors"][wypt_index]
-            time_frac = time_along / path_time
+            # A leg without length is over as soon as it starts
+            time_frac = min(1.0, time_along / path_time) if path_time else 1.0
             direction_amount = [time_frac * v for v in path_vector]
             new_point = _vector_add(path_start._as_array(), direction_amount)
 
@@ -799,12 +810,16 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, clock_rounding: float = 0.0
+    ) -> tuple[int, float]:
         """Get the index of the waypoint the path is on.
 
         Args:
             path_data (dict[str, Any]): Data about the motion
             time_elapsed (float): Time spent on motion
+            clock_rounding (float, optional): Rounding error allowed in the elapsed time.
+                Defaults to 0.0.
 
         Returns:
             int: Index of the waypoint
@@ -814,11 +829,14 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-4):  # near one second allowed
+            if time_elapsed <= sum_t:
                 return i, sum_t - t
+        # near one second allowed after the end of the path
+        if path_data["times"] and time_elapsed <= (sum_t + 1e-4 + clock_rounding):
+            return i, sum_t - t
         raise SimulationError(
             f"GeodeticLocation active state exceeded travel time: Elapsed: {time_elapsed}, "
-            "Actual: {sum_t}"
+            f"Actual: {sum_t}"
         )
 
     def _get_remaining_waypoints(self, instance: "Actor") -> list[GeodeticLocation]:
@@ -834,7 +852,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, 4 * ulp(current_time))
         wypts: list[GeodeticLocation] = data["waypoints"]
         return wypts[idx:]
 
@@ -872,13 +890,17 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             return_value: GeodeticLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(
+                path_data, elapsed, 4 * ulp(current_time)
+            )
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            # A leg without length is over as soon as it starts
+            time_frac = min(1.0, time_along / path_time) if path_time else 1.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 (path_start.lat, path_start.lon),
                 path_bearing,
@@ -888,7 +910,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From a30f33a5b18f678ef5ccf9ed6978e242f465b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 12/92] fix: a finished task of a network is no longer reported
 as running

---
 src/upstage_des/actor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c37729c..1606c90 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -844,9 +844,9 @@ Args:
         if network_name not in self._task_networks:
             raise SimulationError(f"{self} does not have a task networked named {network_name}")
         net = self._task_networks[network_name]
-        if net._current_task_proc is not None:
+        # A finished task isn't running, even if the network has yet to start the next one.
+        if net._current_task_proc is not None and net._current_task_proc.is_alive:
             assert net._current_task_name is not None
-            assert net._current_task_proc is not None
             task_data = TaskData(name=net._current_task_name, process=net._current_task_proc)
             return task_data
         return None
@@ -859,10 +859,10 @@ Args:
                 Keyed on network name, then {"name": Name, "process": ...}
         """
         tasks: dict[str, TaskData] = {}
-        for name, net in self._task_networks.items():
-            if net._current_task_proc is not None:
-                assert net._current_task_name is not None
-                tasks[name] = TaskData(name=net._current_task_name, process=net._current_task_proc)
+        for name in self._task_networks:
+            task_data = self.get_running_task(name)
+            if task_data is not None:
+                tasks[name] = task_data
         return tasks
 
     def interrupt_network(self, network_name: str, **interrupt_kwargs: Any) -> None:
-- 
2.43.0


From b8adeb080a55b57165abffe05bd155e48463db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 13/92] fix: interrupting a held decision task asks its handler
 instead of stopping the network

---
 src/upstage_des/task.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index bd5fbb2..be3c2b5 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -21,7 +21,7 @@ if TYPE_CHECKING:
 
 from .base import ENV_CONTEXT_VAR, MockEnvironment, SettableEnv, SimulationError
 from .constants import PLANNING_FACTOR_OBJECT
-from .events import BaseEvent, Event
+from .events import BaseEvent, Event, Wait
 from .routines import Routine
 
 __all__ = ("DecisionTask", "Task", "process", "TerminalTask", "InterruptStates")
@@ -617,9 +617,19 @@ class DecisionTask(Task):
         Yields:
             Generator[SimpyEvent, None, None]: Generator for SimPy event queue.
         """
-        self.make_decision(actor=actor)
         assert isinstance(self.env, SimpyEnv)
-        yield self.env.timeout(0.0)
+        action = InterruptStates.RESTART
+        while action == InterruptStates.RESTART:
+            self.make_decision(actor=actor)
+            hold = Wait(0.0)
+            event = hold.as_event()
+            action = InterruptStates.IGNORE
+            while action == InterruptStates.IGNORE:
+                try:
+                    yield event
+                    return
+                except Interrupt as interrupt:
+                    action = self._handle_interruption(actor, interrupt, hold)
 
     def run_skip(self, *, actor: "Actor") -> None:
         """Run the decision task with no clock reference.
-- 
2.43.0


From 1258de448284a72be0320651653b20792b91a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 14/92] fix: a watched state change as a task finishes no
 longer raises

---
 src/upstage_des/nucleus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..e3c1d4f 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,8 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            # A task that finished at this same time has nothing left to interrupt.
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From 7629bedf71643b9332ccf0d4022a83532cdafd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 15/92] fix: rehearsing nested multi-events completes their
 members

---
 src/upstage_des/events.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 3dbbd43..1b86fbf 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -389,6 +389,7 @@ class MultiEvent(BaseEvent):
                 )
         self.events = events
         self._simpy_event = None
+        self._rehearsal_times: dict[BaseEvent, float] = {}
 
     @staticmethod
     def aggregation_function(times: list[float]) -> float:
@@ -458,13 +459,7 @@ class MultiEvent(BaseEvent):
             return_sub_events (bool, Optional): Whether to return all times or not.
                 Defaults to False.
         """
-        event_times = {
-            event: event.calculate_time_to_complete()
-            for event in self.events
-            if isinstance(event, BaseEvent)
-        }
-
-        time_to_complete = self.aggregation_function(list(event_times.values()))
+        time_to_complete, _ = self.calc_time_to_complete_with_sub()
 
         return time_to_complete
 
@@ -480,6 +475,7 @@ class MultiEvent(BaseEvent):
             if isinstance(event, BaseEvent)
         }
         time_to_complete = self.aggregation_function(list(event_times.values()))
+        self._rehearsal_times = event_times
 
         return time_to_complete, event_times
 
@@ -496,6 +492,17 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _finish_sub_events(self, time: float) -> None:
+        """Finish rehearsing all the sub-events, including nested ones.
+
+        Args:
+            time (float): Time the rehearsed event took, the sub-events done by then are complete.
+        """
+        for event, event_end_time in self._rehearsal_times.items():
+            event._finish_rehearsal(complete=event_end_time <= time)
+            if isinstance(event, MultiEvent):
+                event._finish_sub_events(time)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -508,11 +515,9 @@ class MultiEvent(BaseEvent):
         self._start_rehearsal()
 
         event_response = None
-        time_to_finish, event_times = self.calc_time_to_complete_with_sub()
-
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        time_to_finish, _ = self.calc_time_to_complete_with_sub()
 
+        self._finish_sub_events(time_to_finish)
         self._finish_rehearsal(complete=True)
 
         return time_to_finish, event_response
-- 
2.43.0


From 2a90009f40a77445675e676fab89c28d208d5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 16/92] fix: rehearsed events report their rehearsed completion
 and cancel without touching the schedule

---
 src/upstage_des/events.py   | 28 ++++++++++-
 src/upstage_des/routines.py | 12 +++--
 src/upstage_des/task.py     | 92 +++++++++++++++++++++----------------
 3 files changed, 88 insertions(+), 44 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 1b86fbf..ab19b6e 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -130,6 +130,12 @@ class BaseEvent(UpstageBase):
             )
         self._done_rehearsing = complete
 
+    def _end_rehearsal(self) -> None:
+        """Leave rehearsal once the rehearsed task is over.
+
+        Events that last longer than a task need to forget about the rehearsal.
+        """
+
     def rehearse(self) -> tuple[float, tyAny | None]:
         """Run the event in 'rehearsal' mode without changing the real environment.
 
@@ -252,6 +258,8 @@ class Wait(BaseEvent):
 
         There's no real meaning to cancelling a timeout. It sits in simpy's queue either way.
         """
+        if self._rehearsing and self._simpy_event is None:
+            return
         assert self._simpy_event is not None
         try:
             self._simpy_event.defused = True
@@ -436,6 +444,8 @@ class MultiEvent(BaseEvent):
     def cancel(self) -> None:
         """Cancel the multi event and propagate it to the sub-events."""
         if self._simpy_event is None:
+            if self._rehearsing:
+                return
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
         # The condition may have been met at this same time, but before the
@@ -503,6 +513,11 @@ class MultiEvent(BaseEvent):
             if isinstance(event, MultiEvent):
                 event._finish_sub_events(time)
 
+    def _end_rehearsal(self) -> None:
+        """Leave rehearsal for all the sub-events."""
+        for event in self._rehearsal_times:
+            event._end_rehearsal()
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -843,7 +858,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._event.processed:
             if self._auto_reset:
                 self.reset()
             else:
@@ -856,7 +871,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self._event.processed:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
@@ -867,8 +882,15 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self._rehearsing:
+            return self._done_rehearsing
         return self._event.processed
 
+    def _end_rehearsal(self) -> None:
+        """Leave rehearsal, the real event is not affected by it."""
+        self._rehearsing = False
+        self._done_rehearsing = False
+
     def get_payload(self) -> dict[str, tyAny]:
         """Get any payload from the call to succeed().
 
@@ -887,6 +909,8 @@ class Event(BaseEvent):
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
         """
+        if self._rehearsing:
+            return
         if self._event.triggered and not self._event.defused:
             # It was succeeded already, possibly at this same time.
             return
diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 90c4709..65d4091 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -87,9 +87,15 @@ class Routine(SettableEnv):
             tuple[float, Any | None]: Time and value of rehearsal.
         """
         time = 0.0
-        for evt in self._run():
-            t, _ = evt.rehearse()
-            time += t
+        rehearsed: list[BaseEvent] = []
+        try:
+            for evt in self._run():
+                rehearsed.append(evt)
+                t, _ = evt.rehearse()
+                time += t
+        finally:
+            for evt in rehearsed:
+                evt._end_rehearsal()
         return time, None
 
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index be3c2b5..1bae7a9 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -5,7 +5,8 @@
 
 """Tasks constitute the actions that Actors can perform."""
 
-from collections.abc import Callable, Generator, Iterable
+from collections.abc import Callable, Generator, Iterable, Iterator
+from contextlib import contextmanager
 from enum import IntFlag
 from functools import wraps
 from typing import TYPE_CHECKING, Any, TypeVar
@@ -365,6 +366,20 @@ class Task(SettableEnv):
         )
         return understudy
 
+    @contextmanager
+    def _rehearsal(self) -> Iterator[None]:
+        """Put the task in rehearsal, and leave it as it was however the rehearsal ends."""
+        _old_env = self._new_env
+        _old_rehearsing = self._rehearsing
+        _old_marker = (self._marker, self._marked_time, self._interrupt_action)
+        self._rehearsing = True
+        try:
+            yield
+        finally:
+            self._new_env = _old_env
+            self._rehearsing = _old_rehearsing
+            self._marker, self._marked_time, self._interrupt_action = _old_marker
+
     def rehearse(
         self,
         *,
@@ -385,41 +400,44 @@ class Task(SettableEnv):
             Actor: The cloned actor with a state reflecting the task flow.
         """
         knowledge = {} if knowledge is None else knowledge
-        _old_env = self.env
-        understudy = actor
-        if not cloned_actor:
-            understudy = self._clone_actor(actor, knowledge)
-        if not isinstance(understudy.env, MockEnvironment):
-            raise SimulationError("Bad actor cloning.")
-        self.env = understudy.env
-        mocked_env: MockEnvironment = understudy.env
-
-        self._rehearsing = True
-        generator = self.task(actor=understudy, **kwargs)
-        returned_item = None
-        while True:
+        rehearsed: list[BaseEvent] = []
+        with self._rehearsal():
+            understudy = actor
+            if not cloned_actor:
+                understudy = self._clone_actor(actor, knowledge)
+            if not isinstance(understudy.env, MockEnvironment):
+                raise SimulationError("Bad actor cloning.")
+            self.env = understudy.env
+            mocked_env: MockEnvironment = understudy.env
+
+            generator = self.task(actor=understudy, **kwargs)
+            returned_item = None
             try:
-                if returned_item is None:
-                    next_event = next(generator)
-                else:
-                    next_event = generator.send(returned_item)
-                    returned_item = None
-                if not issubclass(next_event.__class__, BaseEvent | Routine):
-                    msg = f"Task {self} event {next_event}"
-                    if isinstance(next_event, Process):
-                        raise SimulationError(msg + " cannot be a process during rehearsal.")
-                    raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
-                time_advance, returned_item = next_event.rehearse()
-                mocked_env.now += time_advance
+                while True:
+                    if returned_item is None:
+                        next_event = next(generator)
+                    else:
+                        next_event = generator.send(returned_item)
+                        returned_item = None
+                    if not issubclass(next_event.__class__, BaseEvent | Routine):
+                        msg = f"Task {self} event {next_event}"
+                        if isinstance(next_event, Process):
+                            raise SimulationError(msg + " cannot be a process during rehearsal.")
+                        raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
+                    if isinstance(next_event, BaseEvent):
+                        rehearsed.append(next_event)
+                    time_advance, returned_item = next_event.rehearse()
+                    mocked_env.now += time_advance
 
             except StopIteration:
                 # warn(f"Stopping rehearsal of task '{self.__class__.__name__}' "
                 #      f"for actor '{actor}'! [Rehearsal duration: "
                 #      f"{self.env.now - _old_env.now:.3g}]")
-                break
+                pass
+            finally:
+                for event in rehearsed:
+                    event._end_rehearsal()
 
-        self.env = _old_env
-        self._rehearsing = False
         return understudy
 
     def _handle_interruption(
@@ -594,17 +612,13 @@ class DecisionTask(Task):
             Actor: Cloned actor after rehearsing this task.
         """
         knowledge = {} if knowledge is None else knowledge
-        _old_env = self.env
-        understudy = actor
-        if not cloned_actor:
-            understudy = self._clone_actor(actor, knowledge)
-        self.env = understudy.env
-
-        self._rehearsing = True
+        with self._rehearsal():
+            understudy = actor
+            if not cloned_actor:
+                understudy = self._clone_actor(actor, knowledge)
+            self.env = understudy.env
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+            self.rehearse_decision(actor=understudy)
         return understudy
 
     @process
-- 
2.43.0


From b9e1ed710400d9efbb83bb503e2e0d9b126223aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 17/92] fix: a failing rehearsal leaves the task network as it
 was

---
 src/upstage_des/task_network.py | 60 +++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..ea60045 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -164,35 +164,37 @@ class TaskNetwork:
         # pre-clone the actor to get a hold of the new environment
         new_actor = actor.clone(knowledge=knowledge)
         task_idx = 0
-        while True:
-            if task_idx < num_tasks:
-                task_name = task_name_list[task_idx]
-            elif end_task is None:
-                break
-            else:
-                # Grab the default or one from the queue, clearing the queue to prevent loops
-                task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
-            if end_task is not None and end_task == task_name:
-                break  # pragma: no cover
-            self._current_task_name = task_name
-            self._current_task_inst = self.task_classes[task_name]()
-            self._current_task_inst._set_network_name(self.name)
-            new_actor = self._current_task_inst.rehearse(
-                actor=new_actor,
-                cloned_actor=True,
-            )
-            # The next name should be feasible
-            if task_idx < num_tasks - 1:
-                follow_on = task_name_list[task_idx + 1]
-                if not self.is_feasible(task_name, follow_on):
-                    raise SimulationError(  # pragma: no cover
-                        f"Task {follow_on} not allowed after '{task_name}' in network"
-                    )
-            task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
+        try:
+            while True:
+                if task_idx < num_tasks:
+                    task_name = task_name_list[task_idx]
+                elif end_task is None:
+                    break
+                else:
+                    # Grab the default or one from the queue, clearing the queue to prevent loops
+                    task_name = self._next_task_name(task_name, new_actor, clear_queue=True)
+                if end_task is not None and end_task == task_name:
+                    break  # pragma: no cover
+                self._current_task_name = task_name
+                self._current_task_inst = self.task_classes[task_name]()
+                self._current_task_inst._set_network_name(self.name)
+                new_actor = self._current_task_inst.rehearse(
+                    actor=new_actor,
+                    cloned_actor=True,
+                )
+                # The next name should be feasible
+                if task_idx < num_tasks - 1:
+                    follow_on = task_name_list[task_idx + 1]
+                    if not self.is_feasible(task_name, follow_on):
+                        raise SimulationError(  # pragma: no cover
+                            f"Task {follow_on} not allowed after '{task_name}' in network"
+                        )
+                task_idx += 1
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From 9b69a376de1c6517c2d38b34782e8c88369bbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 18/92] fix: rehearsing a network no longer takes tasks from
 the real queue

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 1606c90..693c911 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1030,7 +1030,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(tasks) for name, tasks in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From 4d0f9a4ea84259286931424d81884d84fefb4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 19/92] fix: cloning an actor doesn't notify its nucleus

---
 src/upstage_des/actor.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 693c911..faf5d95 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -986,14 +986,19 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
-        for state in self.states:
-            state_obj = self._state_defs[state]
-            if isinstance(state_obj, ResourceState):
-                states[state] = state_obj._make_clone(self, getattr(self, state))
-            elif isinstance(state_obj, _KeyValueBase):
-                states[state] = state_obj._make_clone(self)
-            else:
-                states[state] = copy(getattr(self, state))
+        # Reading active states sets them, which is not a change for a nucleus to know.
+        listener, self._state_listener = self._state_listener, None
+        try:
+            for state in self.states:
+                state_obj = self._state_defs[state]
+                if isinstance(state_obj, ResourceState):
+                    states[state] = state_obj._make_clone(self, getattr(self, state))
+                elif isinstance(state_obj, _KeyValueBase):
+                    states[state] = state_obj._make_clone(self)
+                else:
+                    states[state] = copy(getattr(self, state))
+        finally:
+            self._state_listener = listener
         states.update(new_states)
 
         self._num_clones += 1
-- 
2.43.0


From e327450aabe3ff09992f45c0ebc8a43b71cec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 20/92] fix: actors with no_init or unset states or properties
 can be cloned

---
 src/upstage_des/actor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index faf5d95..5f270b5 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -995,7 +995,7 @@ Args:
                     states[state] = state_obj._make_clone(self, getattr(self, state))
                 elif isinstance(state_obj, _KeyValueBase):
                     states[state] = state_obj._make_clone(self)
-                else:
+                elif state in self.__dict__ or state in self._mimic_states:
                     states[state] = copy(getattr(self, state))
         finally:
             self._state_listener = listener
@@ -1007,9 +1007,12 @@ Args:
             name=self.name + f" [CLONE {self._num_clones}]",
             debug_log=self._debug_logging,
             debug_log_time=self._debug_log_time,
-            **states,
+            **{k: v for k, v in states.items() if not self._state_defs[k]._no_init},
         )
         clone.env = new_env
+        for state, value in states.items():
+            if self._state_defs[state]._no_init:
+                clone.__dict__[state] = value
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
 
@@ -1019,6 +1022,8 @@ Args:
                     attribute_name in ignored_attributes,
                     attribute_name.startswith("_"),
                     callable(attribute),
+                    # properties and the like already work on the clone
+                    hasattr(attribute, "__get__"),
                 )
             ):
                 setattr(clone, attribute_name, attribute)
-- 
2.43.0


From 91c8b5fa5971bf55811c804d55c002d4c71e9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 21/92] fix: knowledge events of a rehearsing actor are not the
 real ones

---
 src/upstage_des/actor.py  | 9 +++++----
 src/upstage_des/events.py | 5 +++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 5f270b5..df66426 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1034,11 +1034,10 @@ Args:
                 clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
 
         clone._knowledge = {}
-        for name, data in self._knowledge.items():
-            clone._knowledge[name] = copy(data)
-
-        for name, data in knowledge.items():
+        for name, data in (self._knowledge | knowledge).items():
             clone._knowledge[name] = copy(data)
+            if isinstance(data, Event):
+                clone._knowledge[name]._detach()
 
         clone._task_queue = {name: list(tasks) for name, tasks in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
@@ -1191,6 +1190,8 @@ Args:
         event = Event(rehearsal_time_to_complete=rehearsal_time_to_complete)
         # Rehearsals on this method won't clear the event, so save the user some trouble.
         overwrite = True if self._is_rehearsing else False
+        if self._is_rehearsing:
+            event._detach()
         self.set_knowledge(name, event, overwrite=overwrite)
         return event
 
diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index ab19b6e..ff9c8d2 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -899,6 +899,11 @@ class Event(BaseEvent):
         """
         return self._payload
 
+    def _detach(self) -> None:
+        """Detach from the real simulation, for events of rehearsing actors."""
+        if not self._event.triggered:
+            self._event = SIM.Event(SIM.Environment())
+
     def reset(self) -> None:
         """Reset the event to allow it to be held again."""
         assert isinstance(self.env, SIM.Environment)
-- 
2.43.0


From 476c856104d7e22c35c72e627e3506160a5f2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 22/92] fix: clones are not registered as entities of the
 simulation

---
 src/upstage_des/actor.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index df66426..192adb2 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -17,11 +17,13 @@ from simpy import Process
 from upstage_des.events import Event
 
 from .base import (
+    ENTITY_CONTEXT_VAR,
     SPECIAL_ENTITY_CONTEXT_VAR,
     MockEnvironment,
     NamedUpstageEntity,
     SettableEnv,
     SimulationError,
+    SpecialContexts,
     UpstageError,
 )
 from .data_types import CartesianLocation, GeodeticLocation
@@ -986,8 +988,12 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
+        no_init = {name for name, state_obj in self._state_defs.items() if state_obj._no_init}
         # Reading active states sets them, which is not a change for a nucleus to know.
         listener, self._state_listener = self._state_listener, None
+        # Clones, and their resources, are not entities of the simulation.
+        special = SPECIAL_ENTITY_CONTEXT_VAR.set(SpecialContexts())
+        entities = ENTITY_CONTEXT_VAR.set({})
         try:
             for state in self.states:
                 state_obj = self._state_defs[state]
@@ -997,22 +1003,23 @@ Args:
                     states[state] = state_obj._make_clone(self)
                 elif state in self.__dict__ or state in self._mimic_states:
                     states[state] = copy(getattr(self, state))
-        finally:
-            self._state_listener = listener
-        states.update(new_states)
+            states.update(new_states)
 
-        self._num_clones += 1
+            self._num_clones += 1
 
-        clone = self.__class__(
-            name=self.name + f" [CLONE {self._num_clones}]",
-            debug_log=self._debug_logging,
-            debug_log_time=self._debug_log_time,
-            **{k: v for k, v in states.items() if not self._state_defs[k]._no_init},
-        )
+            clone = self.__class__(
+                name=self.name + f" [CLONE {self._num_clones}]",
+                debug_log=self._debug_logging,
+                debug_log_time=self._debug_log_time,
+                **{k: v for k, v in states.items() if k not in no_init},
+            )
+        finally:
+            self._state_listener = listener
+            SPECIAL_ENTITY_CONTEXT_VAR.reset(special)
+            ENTITY_CONTEXT_VAR.reset(entities)
         clone.env = new_env
-        for state, value in states.items():
-            if self._state_defs[state]._no_init:
-                clone.__dict__[state] = value
+        for state in no_init & states.keys():
+            clone.__dict__[state] = states[state]
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
 
-- 
2.43.0


From d89d80ad61c741fbe133e3dcb8a6e0cddd09685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 23/92] fix: resource states given as objects, with own modes,
 or by key are cloned

---
 src/upstage_des/states.py | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 047a915..8c86ba8 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -7,13 +7,14 @@
 
 from abc import abstractmethod
 from collections.abc import Callable, Iterable
-from copy import deepcopy
+from copy import copy, deepcopy
 from dataclasses import fields, replace
 from enum import Enum
 from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
+from simpy.core import BoundClass
 
 from upstage_des.base import SimulationError, UpstageError
 from upstage_des.data_types import CartesianLocation, GeodeticLocation
@@ -952,6 +953,27 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _copy_resource(resource: T) -> T:
+    """Copy a store or container, without the requests waiting on it.
+
+    Args:
+        resource (T): The store or container to copy
+
+    Returns:
+        T: The copied store or container
+    """
+    new = copy(resource)
+    new.put_queue = new.PutQueue()
+    new.get_queue = new.GetQueue()
+    # Requests are bound to the resource they were made for
+    BoundClass.bind_early(new)
+    if isinstance(new, Store):
+        new.items = list(new.items)
+    if hasattr(new, "_quantities"):
+        new._quantities = list(new._quantities)
+    return new
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1116,7 +1138,10 @@ class ResourceState(State, Generic[T]):
             T: The copied store or container
         """
         base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
+        memory: dict[str, Any] | None = instance.__dict__.get(f"_memory_for_{self.name}", None)
+        if memory is None:
+            # It was given as an object, so how it was made isn't known
+            return _copy_resource(copy)
         new = base_class(instance.env, **memory)  # type: ignore [arg-type]
         if isinstance(copy, Store) and isinstance(new, Store):
             new.items = list(copy.items)
@@ -1190,7 +1215,7 @@ class CommunicationStore(ResourceState[Store]):
 
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         # See if the instance has any specific mode data to find.
-        modes: str | list[str] | None = self._modes
+        modes: str | list[str] | None = getattr(value, "_clone_modes", self._modes)
         if isinstance(value, dict) and "modes" in value:
             modes = value.pop("modes")
         super().__set__(instance, value)
@@ -1205,6 +1230,12 @@ class CommunicationStore(ResourceState[Store]):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Store:
+        new = super()._make_clone(instance, copy)
+        # The modes may be specific to the instance
+        setattr(new, "_clone_modes", sorted(instance.__dict__[self._modename]))
+        return new
+
 
 class _KeyValueBase(State):
     """A base state for holding key/value pairs.
@@ -1558,6 +1589,9 @@ class MultiStoreState(DictionaryState[T]):
 
         super().__set__(instance, use)
 
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        return {k: _copy_resource(v) for k, v in instance.__dict__[self.name].items()}
+
     def has_default(self) -> bool:
         # Force the state to be defined.
         return False
-- 
2.43.0


From 6dd67bf221fe0fea630c31663e18d6debf69d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 24/92] fix: rehearsing a change of detectability doesn't reach
 the motion manager

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 8c86ba8..752fa76 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -376,6 +376,8 @@ class DetectabilityState(State[bool]):
             was_set = False
         super().__set__(instance, value)
         if hasattr(instance.stage, "motion_manager") and was_set:
+            if getattr(instance, "_is_rehearsing", False):
+                return
             mgr = instance.stage.motion_manager
             if not value:
                 mgr._mover_not_detectable(instance)
-- 
2.43.0


From 3389ae836f69e48a4a260a8640e055ddadbea711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:59 +0000
Subject: [PATCH 25/92] fix: tables can be made while a state has not been
 given a value

---
 src/upstage_des/data_utils/data_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..562295d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,7 +101,8 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
-        _value = actor.__dict__[state_name]
+        # A state without a default may not have been given a value yet.
+        _value = actor.__dict__.get(state_name, None)
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
         if state_name in actor._state_histories:
@@ -122,7 +123,7 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
-        elif save_static:
+        elif save_static and state_name in actor.__dict__:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DictionaryProxy):
                 data.extend(
-- 
2.43.0


From e3ef0cd04e345a9520ab42bcaf35457199730dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 26/92] fix: a composite inside a completed composite reports
 its completion

---
 src/upstage_des/events.py | 54 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index ff9c8d2..6690181 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -5,7 +5,7 @@
 
 """Classes for UPSTAGE events that feed to simpy."""
 
-from collections.abc import Callable
+from collections.abc import Callable, Iterable
 from typing import Any as tyAny
 from warnings import warn
 
@@ -424,6 +424,34 @@ class MultiEvent(BaseEvent):
         """
         raise NotImplementedError("Implement in subclass")
 
+    @staticmethod
+    def completion_function(completed: Iterable[bool]) -> bool:
+        """Decide if the completion of the sub-events is enough.
+
+        Args:
+            completed (Iterable[bool]): Which sub-events are complete
+
+        Returns:
+            bool: If the multi-event is complete
+        """
+        raise NotImplementedError("Implement in subclass")
+
+    def is_complete(self) -> bool:
+        """Is the event complete?
+
+        Returns:
+            bool: If it's complete or not.
+        """
+        if super().is_complete():
+            return True
+        if self._rehearsing:
+            return False
+        # SimPy no longer follows an event nested in another one that is complete.
+        return self.completion_function(
+            event.processed if isinstance(event, SIM.Process) else event.is_complete()
+            for event in self.events
+        )
+
     def _make_event(self, event: BaseEvent | SIM.Process) -> SIM.Event:
         # handle a process in the MultiEvent for non-rehearsal uses
         if isinstance(event, SIM.Process):
@@ -553,6 +581,18 @@ class Any(MultiEvent):
         """
         return min(times)
 
+    @staticmethod
+    def completion_function(completed: Iterable[bool]) -> bool:
+        """Completion test for sub-events.
+
+        Args:
+            completed (Iterable[bool]): Which sub-events are complete
+
+        Returns:
+            bool: If any is complete
+        """
+        return any(completed)
+
     @staticmethod
     def simpy_equivalent(env: SIM.Environment, events: list[SIM.Event]) -> SIM.Event:
         """Return the SimPy version of the UPSTAGE Any event.
@@ -798,6 +838,18 @@ class All(MultiEvent):
         """
         return max(times)
 
+    @staticmethod
+    def completion_function(completed: Iterable[bool]) -> bool:
+        """Completion test for sub-events.
+
+        Args:
+            completed (Iterable[bool]): Which sub-events are complete
+
+        Returns:
+            bool: If all are complete
+        """
+        return all(completed)
+
     @staticmethod
     def simpy_equivalent(env: SIM.Environment, events: list[SIM.Event]) -> SIM.Event:
         """Return the SimPy version of the UPSTAGE All event.
-- 
2.43.0


From f5ec362988dd8ea206b9785db28eb97cf1f152ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 27/92] fix: a windowed get interrupted as an item arrives puts
 it back

---
 src/upstage_des/routines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 65d4091..b1e0a79 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -170,10 +170,15 @@ class WindowedGet(Routine):
             need_wait = True
             obj = incoming.get_value()
             self.result.append(obj)
+            self._evt = None
         return self.result
 
     def cancel(self) -> ROUTINE_GEN:
         """Return all the items to the store and cancel the get."""
+        # The last get may be complete, but interrupted before the routine could see it.
+        if self._evt is not None and self._evt.is_complete():
+            self.result.append(self._evt.get_value())
+            self._evt = None
         while self.result:
             yield Put(self.store, self.result.pop(0))
 
-- 
2.43.0


From 31395e7763f8d4fa27046e3eae217ab039050c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 28/92] fix: waits can be given in days and weeks whatever the
 stage's time unit

---
 src/upstage_des/units/convert.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..10831b9 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -24,11 +24,29 @@ CONVERSIONS: dict[str, dict[str, float]] = {
         "nmi": 1.0,
         "m": 1 / 0.539957 * 1000,
     },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "s": {
+        "week": 1 / (7.0 * 24 * 3600),
+        "day": 1 / (24 * 3600.0),
+        "hr": 1.0 / (60.0 * 60.0),
+        "min": 1.0 / 60.0,
+        "s": 1.0,
+    },
+    "min": {
+        "week": 1 / (7.0 * 24 * 60),
+        "day": 1 / (24 * 60.0),
+        "hr": 1.0 / 60.0,
+        "min": 1.0,
+        "s": 60.0,
+    },
+    "hr": {
+        "week": 1 / (7.0 * 24),
+        "day": 1 / 24.0,
+        "hr": 1.0,
+        "min": 60.0,
+        "s": (60.0 * 60.0),
+    },
+    "day": {"week": 1 / 7.0, "day": 1.0, "hr": 24.0, "min": 24 * 60.0, "s": 24 * 3600},
+    "week": {"week": 1.0, "day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
-- 
2.43.0


From 6b63ee0f00036252b58c069947caf79614e709d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 29/92] fix: get_value works for falsy None items and
 unfinished gets raise as documented

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 6690181..abcc1d9 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -677,7 +677,7 @@ class Get(BaseRequestEvent):
         if self.__is_store:
             if self.rehearsing and self.done_rehearsing:
                 return PLANNING_FACTOR_OBJECT
-            if self._request_event is not None and self._request_event.value is not None:
+            if self._request_event is not None and self._request_event.triggered:
                 return self._request_event.value
             else:
                 raise SimulationError("Requested item from an unfinished Get request.")
-- 
2.43.0


From 57bc1315e3d192ecd45aeb4f745ce6ab3540c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 30/92] fix: a refused second success leaves the payload of an
 event alone

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index abcc1d9..d08cd1d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -923,7 +923,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self._event.processed:
+        if self._event.triggered:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
-- 
2.43.0


From dc80ca248575d10256a2341bfaa941ffb26fd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:08 +0000
Subject: [PATCH 31/92] fix: interrupting a wait for nested multi-events that
 share an event no longer raises

---
 src/upstage_des/events.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index d08cd1d..b93b790 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -475,15 +475,30 @@ class MultiEvent(BaseEvent):
             if self._rehearsing:
                 return
             raise UpstageError("Can't cancel a nonexistent event.")
+        self._cancel_with_sub_events(set())
+
+    def _cancel_with_sub_events(self, cancelled: set[int]) -> None:
+        """Cancel the multi event and each of its sub-events once.
+
+        Args:
+            cancelled (set[int]): The ids of sub-events that are already cancelled.
+        """
+        if self._simpy_event is None:
+            raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
         # The condition may have been met at this same time, but before the
         # task holding the event could be resumed.
         if not self._simpy_event.triggered:
             self._simpy_event.fail(Exception("defused"))
         for event in self.events:
-            if isinstance(event, BaseEvent):
+            # An event can be in several of the nested multi events
+            if isinstance(event, BaseEvent) and id(event) not in cancelled:
+                cancelled.add(id(event))
                 try:
-                    event.cancel()
+                    if isinstance(event, MultiEvent):
+                        event._cancel_with_sub_events(cancelled)
+                    else:
+                        event.cancel()
                 except Exception as e:
                     msg = f"Event {event} in {self} failed to cancel\n\t:{e}"
                     raise SimulationError(msg)
-- 
2.43.0


From f21ddcf305b4a6a15cc3dbcbe1e585aa4948175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 32/92] fix: time until a level of a continuous container
 counts from now

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..18fe115 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From ca508347317a4d038ba731dee4986ffc871280f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 33/92] fix: continuous containers stop their users exactly at
 the limits

Rounding errors left the level beyond or short of a limit, which raised the wrong
errors, stopped nothing, or interrupted processes that were over. Rates that don't
sum to zero in floating point kept a container filling without any user.
---
 src/upstage_des/resources/container.py | 108 +++++++++++--------------
 1 file changed, 46 insertions(+), 62 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 18fe115..d52dbae 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -4,7 +4,8 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """This file contains a ContinuousContainer."""
 
-from collections.abc import Callable, Generator
+from collections.abc import Callable, Generator, Sequence
+from fractions import Fraction
 from typing import TYPE_CHECKING, Any
 
 from simpy import Environment, Event, Interrupt, Process
@@ -178,6 +179,7 @@ class ContinuousContainer:
         self.error_full = error_full
 
         self._rate: float = 0.0
+        self._exact_rate = Fraction(0)
         self._env: Environment = env
         self._last: float = self._env.now
         self._active_users: list[_ContinuousEvent] = []
@@ -291,78 +293,59 @@ class ContinuousContainer:
         Returns:
             float: The current level.
         """
-        now = self._env.now
-        if now > self._last:
-            self._level += self._rate * (now - self._last)
-            self._last = now
+        self._level = self.level
+        self._last = self._env.now
         return self._level
 
-    def _check_empty(self) -> tuple[list[ContinuousGet], float]:
-        level = self._level
-        to_rem: list[ContinuousGet] = []
-        rate = 0.0
-        if level > 0:
-            return to_rem, rate
-        for get in tuple(self._active_gets):
-            get.process.interrupt(EMPTY_STATUS)
-            to_rem.append(get)
-            rate += -get.rate
-        if level == 0 and self.error_empty:
-            raise ContainerEmptyError("Container is empty!")
-        elif level < 0.0:
-            raise ContainerError(f"Container level is less than 0 ({level:.3f})!")
-        return to_rem, rate
-
-    def _check_full(self) -> tuple[list[ContinuousPut], float]:
-        level = self._level
-        to_rem: list[ContinuousPut] = []
-        rate: float = 0.0
-        if level < self.capacity:
-            return to_rem, rate
-        for put in tuple(self._active_puts):
-            put.process.interrupt(FULL_STATUS)
-            to_rem.append(put)
-            rate += -put.rate
-        if level == self.capacity and self.error_full:
-            raise ContainerFullError("Container is full!")
-        elif level > self.capacity:
-            msg = "Container level exceeds capacity by {:.3f}!"
-            raise ContainerError(msg.format(level - self._capacity))
-        return to_rem, rate
+    def _stop_users(self, users: Sequence[_ContinuousEvent], cause: str) -> None:
+        """Stop users that push against a limit of the container.
 
-    def _check(self) -> Generator[Event, None, None]:
-        if not self._rate or self._rate == 0:
-            return  # pragma: no coverd
-
-        level = self.level
-
-        check_wait = ((self._capacity if self._rate > 0 else 0.0) - level) / self._rate
+        Args:
+            users (Sequence[_ContinuousEvent]): The users to stop.
+            cause (str): The limit they reached.
+        """
+        for user in users:
+            user.process.interrupt(cause)
+            self._active_users.remove(user)
+        if users:
+            self._add_rate(*(-user.rate for user in users), interrupt=False)
 
+    def _check(self) -> Generator[Event, None, None]:
+        if self._rate == 0:
+            return
+        filling = self._rate > 0
+        limit = self._capacity if filling else 0.0
         try:
-            yield self._env.timeout(check_wait)
+            yield self._env.timeout((limit - self.level) / self._rate)
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-        finally:
-            to_rem: list[ContinuousGet] | list[ContinuousPut] = []
-            rate: float
-            self._set_level()
-            if self._rate < 0:
-                to_rem, rate = self._check_empty()
-            elif self._rate > 0:
-                to_rem, rate = self._check_full()
-            if to_rem:
-                for req in to_rem:
-                    self._active_users.remove(req)
-                self._add_rate(rate, interrupt=False)
-
-    def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
-        """Add a new rate to the existing rate."""
+            # Another check has replaced this one.
+            return
+
+        self._checking = None
+        # Start from the limit itself, adding up rates over time has rounding errors
+        self._level = limit
+        self._last = self._env.now
+        self._set_level()
+        if filling:
+            self._stop_users(self._active_puts, FULL_STATUS)
+            if self.error_full:
+                raise ContainerFullError("Container is full!")
+        else:
+            self._stop_users(self._active_gets, EMPTY_STATUS)
+            if self.error_empty:
+                raise ContainerEmptyError("Container is empty!")
+
+    def _add_rate(self, *rate_changes: float | int, interrupt: bool = True) -> None:
+        """Add new rates to the existing rate."""
         if self._checking is not None and interrupt:
             self._checking.interrupt("updated")
 
         self._set_level()
-        self._rate += rate_change
+        # The sum is exact, so that rates that are removed again leave nothing behind.
+        self._exact_rate += sum(Fraction(rate) for rate in rate_changes)
+        self._rate = float(self._exact_rate)
 
         if self._rate == 0.0:
             self._checking = None
@@ -405,4 +388,5 @@ class ContinuousContainer:
         Returns:
             float: The current amount remaining.
         """
-        return self._level + self._rate * (self._env.now - self._last)
+        level = self._level + self._rate * (self._env.now - self._last)
+        return min(max(level, 0.0), self._capacity)
-- 
2.43.0


From 9d08b7e03c49579dfc1faa16e5a6ed20998fc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 34/92] fix: reservations by equal requesters can be cancelled
 like they can be taken

---
 src/upstage_des/resources/reserve.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..eed186b 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -103,11 +103,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
-            self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            amt, _ = self._queued.pop(requester)
+            self._level += amt
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From 49ca94f16a584593a1f1752bc7b8b70e610c64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 35/92] fix: the expiration of an old reservation leaves a
 newer one alone

---
 src/upstage_des/resources/reserve.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index eed186b..f285d80 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,18 +72,20 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
-        """Expire the request after an expiration period or at a specific time.
-
-        :param request: the Request namedtuple object
-        :param expiration: the expiration Event object
-
-        :type request:
-        :type expiration:
+    def _expire_request(
+        self, requester: Any, request: tuple[float, float], time: float
+    ) -> Generator[Event, None, None]:
+        """Expire the request after an expiration period.
 
+        Args:
+            requester (Any): The entity that made the request.
+            request (tuple[float, float]): The request as it was queued.
+            time (float): The expiration period.
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may have taken or cancelled it, and then reserved again.
+        if self._queued.get(requester) is request:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +93,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            request = (quantity, self._env.now)
+            self._queued[requester] = request
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, request, expiration)
             return True
         else:
             return False
-- 
2.43.0


From 12f8afd7cab5cca59b63ab14d1be8d004cc0da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 36/92] fix: reserved amounts count towards the capacity of a
 reserve container

---
 src/upstage_des/resources/reserve.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index f285d80..18a332c 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -121,9 +121,10 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
-        if new > self.capacity and not capacity_increase:
-            raise ValueError("Adding too much.")
-        else:
-            self._level = new
-            self._real_level += amount
+        new = self._real_level + amount
+        if new > self.capacity:
+            if not capacity_increase:
+                raise ValueError("Adding too much.")
+            self.capacity = new
+        self._level += amount
+        self._real_level = new
-- 
2.43.0


From 8f34c985bdfe73c96aded15c08c5094e880ebea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 37/92] fix: sorted filter stores give falsy items, and remove
 the very item they give

---
 src/upstage_des/resources/sorted.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..aa0f6ce 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,22 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        # Items are found by their position, they may be falsy or equal to each other
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
-        min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        min_val: Any = None
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
-                    if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                    if min_idx is None or (val > min_val if event.reverse else val < min_val):
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From c58def6336dbfdb511820bf1db097a4858a198e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 38/92] fix: stop routing to a destination that was dropped
 after its retries failed

RoutingTableCommsManager.select_hop returned a directly connected
destination even when it was among the nodes to ignore, so a message to a
blocked neighbour was tried forever (at one instant without retry time)
and no other documented outcome - another route, or no route - was
possible.
---
 src/upstage_des/communications/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..ec77943 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
-        if v in self._network[u]:
-            return dest
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in self._network[u] and v not in ignore_names:
+            return dest
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From dd89b2ae491da2031eee542371745db0a7990aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 39/92] fix: crossings of legs that miss a range, have no
 length, or start or end on its edge

The intersection models reported a wrong travel time for a leg without
crossings, which shifted every later crossing of the path, and failed on
legs without length and on paths that start or end on the edge of the
range (as after an interrupt by the sensor's own notification).
---
 src/upstage_des/motion/cartesian_model.py    | 49 +++++++++++---------
 src/upstage_des/motion/geodetic_model.py     | 27 ++++++++---
 src/upstage_des/motion/great_circle_calcs.py | 12 +++--
 3 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..c58c307 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -117,34 +117,39 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
+    # a leg without length that is not inside never crosses the range
+    if path_dist == 0:
+        return [], [], ["BAD", "BAD"], path_time
+
     sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
-    intersections, times = ray_intersection(
+    _, times = ray_intersection(
         start_tup,
         finish_tup,
         sensor_location_tup,
         sensor_radius,
         speed,
     )
-    if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
-
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
+    passes_by = not times or (len(times) == 2 and times[0] > path_time)
+    if passes_by and not (start_inside or finish_inside):
+        # The leg still takes its time
+        return [], [], ["BAD", "BAD"], path_time
+
+    # Start or finish may be on the edge of the range, where rounding decides if
+    # the matching intersection is found, so limit both crossings to the path.
+    enter = 0.0
+    if not start_inside and len(times) != 1:
+        enter = min(times[0], path_time) if times else path_time
+    leave = path_time
+    if not finish_inside:
+        leave = min(times[-1], path_time) if times else enter
+
+    inters: list[CartesianLocation] = []
+    for t, at_end, end in [(enter, start_inside, start), (leave, finish_inside, finish)]:
+        if at_end:
+            inters.append(end)
+            continue
+        frac = t / path_time
+        inters.append(CartesianLocation(*[a + frac * (b - a) for a, b in zip(start_tup, finish_tup)]))
     type_start = "START_INSIDE" if start_inside else "ENTER"
     type_end = "END_INSIDE" if finish_inside else "EXIT"
-    if start_inside:
-        inters = [start] + inters
-        times = [0] + times
-    if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
-        )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
-
-    return inters, times, [type_start, type_end], path_time
+    return inters, [enter, leave], [type_start, type_end], path_time
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..6b80b28 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,8 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        # The leg still takes its time
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -149,20 +150,32 @@ def analytical_intersection(
     path_dist = get_dist_rad(start_rad, finish_rad)
     path_time = (path_dist * earth_rad) / speed
 
+    start_inside = dist_start < sensor_radius_rad
+    finish_inside = dist_finish < sensor_radius_rad
+
     # no intersection
-    if point_results is None:
+    if point_results is None and not (start_inside or finish_inside):
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
-    points, distances = point_results
+    if point_results is None:
+        # rounding lost the crossing at the end of the path that is on the edge
+        edge = start_rad if start_inside else finish_rad
+        distances = [0.0, 0.0] if start_inside else [path_dist, path_dist]
+        points = [(edge.lat, edge.lon)] * 2
+    else:
+        points, distances = point_results
+    # an end on the edge of the range can put its crossing just off the path
+    distances = [max(0.0, min(path_dist, d)) for d in distances]
     # get points, times, and types
     intersections = []
     times = []
     types = []
-    alt_change_per_dist = (finish.alt - start.alt) / path_dist  # altitude change per radian
+    # altitude change per radian
+    alt_change_per_dist = (finish.alt - start.alt) / path_dist if path_dist else 0.0
 
     # check for start in the sensor range
-    if dist_start < sensor_radius_rad:
+    if start_inside:
         types.append("START_INSIDE")
         intersections.append(start)
         times.append(0.0)
@@ -186,7 +199,7 @@ def analytical_intersection(
         times.append(d1_m / speed)
 
     # check for end in the sensor range
-    if dist_finish < sensor_radius_rad:
+    if finish_inside:
         types.append("END_INSIDE")
         intersections.append(finish)
         d_end = path_dist * earth_rad
diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..6b32414 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -47,13 +47,17 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     tcl: float
 
     d = get_dist_rad(point1, point2)
+    if d == 0:
+        # Every course leads to the same point
+        return 0.0
 
+    cos_course = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
+    # Rounding can leave the range of a cosine when heading along a meridian
+    cos_course = max(-1.0, min(1.0, cos_course))
     if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
+        tcl = acos(cos_course)
     else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+        tcl = 2.0 * pi - acos(cos_course)
 
     return tcl
 
-- 
2.43.0


From e60b54873dad965d05c03eb26644b96c720d629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:04 +0000
Subject: [PATCH 40/92] fix: stopping a mover that lost and regained
 detectability on its way

The stop at the end of its path raised "wasn't moving yet".
---
 src/upstage_des/motion/motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..0581729 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -144,6 +144,9 @@ class SensorMotionManager(UpstageBase):
 
         # clear the mover references
         del self._movers[mover]
+        if from_not_detectable:
+            # It is still moving, as far as the following stop is concerned
+            self._movers[mover] = (0.0, [], 0.0)
         return None
 
     def _mover_not_detectable(self, mover: Actor) -> None:
-- 
2.43.0


From c9b7293ab16162275fe576b8be2159663a0f73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:04 +0000
Subject: [PATCH 41/92] fix: sensor notifications that stop the mover,
 instantaneous visits and movers resuming at the edge

A sensor that made the mover undetectable from its notification crashed
the run or was notified twice; a mover made undetectable in the instant
it started inside was reported; a path touching a range raised an error;
a mover stopped by its entry or exit notification and moving on from the
edge was reported entering twice or never leaving.
---
 src/upstage_des/motion/motion.py | 56 +++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 0581729..f36796d 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -138,7 +138,8 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A notification can be what stops the mover
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -158,16 +159,14 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
+        for sensor in self._in_view.pop(mover, set()):
+            # This will cause some old data to stick around, but that's
+            # instead of making new events to clear it out and then having
+            # to end those clearing events if this happens
+            sensor.entity_exited_range(mover)
 
     def _mover_became_detectable(self, mover: Actor) -> None:
         """Called via DetectabilityState when a mover becomes detectable.
@@ -325,13 +324,12 @@ class SensorMotionManager(UpstageBase):
             second_kind (str): Kind of the second
         """
         # times are absolute on input to this method
-        notify_time_from_now = first_time - self.env.now
+        # with room for rounding between the legs of a path
+        if second_kind == "EXIT" and second_time - first_time < -1e-9:
+            raise MotionAndDetectionError("Detection end time is less than detection start")
 
-        if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
-            was_in = self._add_to_view(mover, sensor)
-            if not was_in:
-                sensor.entity_entered_range(mover)
-        else:
+        notify_time_from_now = first_time - self.env.now
+        if first_kind != "START_INSIDE" and notify_time_from_now > 0:
             assert first_kind == "ENTER"
             try:
                 yield self.env.timeout(notify_time_from_now)
@@ -339,26 +337,35 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
+        if not self._is_scheduled(mover):
+            # stopped in the same instant
+            return None
+        was_in = self._add_to_view(mover, sensor)
+        if not was_in:
             sensor.entity_entered_range(mover)
-            self._add_to_view(mover, sensor)
 
-        if second_kind != "EXIT":
+        # The sensor may have stopped the mover
+        if second_kind != "EXIT" or not self._is_scheduled(mover):
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
-            raise MotionAndDetectionError("Detection end time is less than detection start")
-
         try:
-            yield self.env.timeout(end_time_from_now)
+            yield self.env.timeout(max(0.0, second_time - self.env.now))
         except Interrupt:
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
+    def _is_scheduled(self, mover: Actor) -> bool:
+        """If the active notification still belongs to the mover's current path.
+
+        Args:
+            mover (Actor): The mover
+        """
+        return any(proc is self.env.active_process for _, proc in self._events.get(mover, []))
+
     def _schedule(
         self,
         mover: Actor,
@@ -433,6 +440,11 @@ class SensorMotionManager(UpstageBase):
         for m in movers:
             for s in sensors:
                 inter_pairs = self._process_mover_sensor_pair(m, s)
+                first_time = inter_pairs[0][0][1] if inter_pairs else float("inf")
+                if s in self._in_view.get(m, ()) and first_time - self.env.now > 1e-9:
+                    # It was left in view, but isn't in range when it moves on
+                    now = (self.env.now, self._movers[m][1][0])
+                    self._schedule(m, s, (("START_INSIDE", *now), ("EXIT", *now)))
                 for pair in inter_pairs:
                     self._schedule(m, s, pair)
 
-- 
2.43.0


From 3307855f29cd7a4918ce459387e7a24d248c43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 42/92] fix: altitude at the crossings of a great circle path

The linear change of altitude was divided by the path length twice, which
also failed for paths without length.
---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index 6b80b28..c62dcab 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -183,7 +183,7 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d1_m = distances[0] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
@@ -208,7 +208,7 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d2_m = distances[1] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-- 
2.43.0


From 3e0b61947b9f55012eb0a5751c39e927e3104b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:11 +0000
Subject: [PATCH 43/92] fix: crossing times of great circle paths above the
 ground

The time of a crossing counted the altitude into the distance while the
duration of the path, and the motion itself, go by the distance along the
ground, so sensors were notified late.
---
 src/upstage_des/motion/geodetic_model.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index c62dcab..8a0dd70 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -184,10 +184,8 @@ def analytical_intersection(
 
         # estimate intersection altitude assuming linear change
         alt_1 = start.alt + distances[0] * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d1_m = distances[0] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
-        )
+        # speed is along the ground, as for the whole path
+        d1_m = distances[0] * earth_rad
 
         intersections.append(
             GeodeticLocation(
@@ -209,10 +207,8 @@ def analytical_intersection(
 
         # estimate intersection altitude assuming linear change
         alt_2 = start.alt + distances[1] * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d2_m = distances[1] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-        )
+        # speed is along the ground, as for the whole path
+        d2_m = distances[1] * earth_rad
 
         intersections.append(GeodeticLocation(*points[1], alt=alt_2, in_radians=True).to_degrees())
         times.append(d2_m / speed)
-- 
2.43.0


From 45a9f92a4f1617a47e2cb32a39273e00c544d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 44/92] fix: paths whose legs meet at the edge of a range

Leaving and entering in the same instant could leave the sensor without
the mover it sees, or raise an error.
---
 src/upstage_des/motion/motion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index f36796d..14451e2 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -245,6 +245,11 @@ class SensorMotionManager(UpstageBase):
 
                     inter_data.pop()
                     continue
+                at_time = start_time + elapsed_time + t
+                if typ == "ENTER" and inter_data and at_time - inter_data[-1][1] <= 1e-9:
+                    # left and entered where two legs meet at the edge
+                    inter_data.pop()
+                    continue
                 inter_data.append((typ, start_time + elapsed_time + t, inter))
             elapsed_time += path_time
 
-- 
2.43.0


From 1b6a5523fd6f37019cc1244eb19408b05749764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 45/92] fix: points of short great circle segments could run
 the wrong way

Choosing between two roots by comparing points to 1e-8 failed for
short segments, so that the subdivided intersections were found behind
the mover. Use the angle between the end points directly.
---
 src/upstage_des/geography/spherical.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..332ceb4 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -202,28 +202,14 @@ class Spherical(SphericalConversions):
         # We keep the earth radius to be 1 since we're interpolating along radians only
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
-        # solve for the parameter value that equals the end point
+        # the end point is at the angle between the points, toward W
         d = _vector_dot(v1, v2)
         common = sqrt(-1 / ((d - 1) * (d + 1)))
         alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
         W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
         assert len(W) == 3
         W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        t = 2 * asin(min(1.0, _vector_norm(_vector_subtract(v2, v1)) / 2))
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From 0a4971c55f3c4e3c49650c775f86538e8a7ce639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 46/92] fix: detectability of movers the stepped motion manager
 does not know

An actor that became detectable while it was not moving, or that stopped
while it was sampled at its own rate, raised a KeyError.
---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..81d6b00 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -159,6 +159,8 @@ class SteppedMotionManager(UpstageBase):
         sensor_locs = [self._sensors[s][1]() for s in sensor_req]
 
         detectable_req = list(self._detectables) if detectable_req is None else detectable_req
+        # Some may have stopped moving, or never started
+        detectable_req = [d for d in detectable_req if d in self._detectables]
         detectable_req = [d for d in detectable_req if self._test_detect(d)]
         detect_locs = [self._detectables[d]() for d in detectable_req]
 
-- 
2.43.0


From 272a691952b975ed791e1d76bb4b87423493f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 47/92] fix: sample again when movers start after the stepped
 motion manager stopped

---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 81d6b00..d7daf57 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -199,6 +199,8 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    # Movers that start later have to start this again
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 2596cc51bc36631274d41fb5188ce647df52521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:12 +0000
Subject: [PATCH 48/92] fix: detectability changed from a notification of the
 stepped motion manager

A sensor that made the mover undetectable was told again by the same
sampling, other sensors were told of the undetectable mover, and changing
another mover raised an error. The order of the exits did also depend on
memory addresses.
---
 src/upstage_des/motion/stepped_motion.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index d7daf57..be45641 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -73,7 +73,7 @@ class SteppedMotionManager(UpstageBase):
         super().__init__()
         self._sensors: dict[SensorType, tuple[Callable[[], float], Callable[[], LOC_TYPES]]] = {}
         self._detectables: dict[Actor, Callable[[], LOC_TYPES]] = {}
-        self._in_view: set[tuple[SensorType, Actor]] = set()
+        self._in_view: dict[tuple[SensorType, Actor], None] = {}
         self._timestep = timestep
         self._max_empty_events = max_empty_events
         self._debug = debug
@@ -99,11 +99,11 @@ class SteppedMotionManager(UpstageBase):
         """
         if visible:
             if (sensor, object) not in self._in_view:
-                self._in_view.add((sensor, object))
+                self._in_view[(sensor, object)] = None
                 sensor.entity_entered_range(object)
         else:
             if (sensor, object) in self._in_view:
-                self._in_view.remove((sensor, object))
+                del self._in_view[(sensor, object)]
                 sensor.entity_exited_range(object)
 
     def _test_detect(self, detectable: Actor) -> bool:
@@ -168,7 +168,9 @@ class SteppedMotionManager(UpstageBase):
             for detectable, d_loc in zip(detectable_req, detect_locs):
                 if detectable is sensor:
                     continue
-                visible = self._detect_dist(loc, radius, d_loc, sensor)
+                # A sensor may have changed the detectability just now
+                visible = self._test_detect(detectable)
+                visible = visible and self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
 
@@ -286,12 +288,9 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = set()
-        for sensor, detect in self._in_view:
+        for sensor, detect in list(self._in_view):
             if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+                self._update_awareness(sensor, detect, False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From b9b40e6d39b84f33d339071b2a7c893aff77cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 49/92] fix: columns of the location table when an actor has no
 location

---
 src/upstage_des/data_utils/data_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 562295d..0a7226b 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -256,7 +256,11 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
         data.extend(_data)
+        if _data:
+            # Actors without a location say nothing about the columns
+            cols = _cols
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From e5ef6cf514821169f74bf53134b5135952372f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 50/92] fix: plain states with locations are locations in the
 tables

---
 src/upstage_des/data_utils/data_utils.py | 25 ++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 0a7226b..3bc72a7 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -68,6 +68,24 @@ def _state_history_to_table(
     return data
 
 
+def _is_location(actor: Actor, state_name: str, state: Any) -> bool:
+    """Find if a state holds locations.
+
+    Args:
+        actor (Actor): The actor.
+        state_name (str): The name of the state.
+        state (Any): The state's definition.
+
+    Returns:
+        bool: If it is a location state, or a plain state with locations.
+    """
+    if isinstance(state, GeodeticLocationChangingState | CartesianLocationChangingState):
+        return True
+    values = [v for _, v in actor._state_histories.get(state_name, [])]
+    values.append(actor.__dict__.get(state_name, None))
+    return any(isinstance(v, ACTUAL_LOCATION) for v in values)
+
+
 def _key_list(obj: Any) -> list[str]:
     if isinstance(obj, dict):
         return [str(x) for x in obj.keys()]
@@ -99,7 +117,7 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
-        if skip_locations and isinstance(state, LOCATION_TYPES):
+        if skip_locations and _is_location(actor, state_name, state):
             continue
         # A state without a default may not have been given a value yet.
         _value = actor.__dict__.get(state_name, None)
@@ -157,7 +175,7 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
-        if not isinstance(_state, LOCATION_TYPES):
+        if _state is None or not _is_location(actor, state_name, _state):
             continue
         value: ACTUAL_LOCATION | ActiveStatus
         is_active = isinstance(_state, ActiveState)
@@ -172,6 +190,9 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+            else:
+                # A plain state may hold something else at times
+                continue
             data.append(cast(LOCATION_DATA_ROW, row))
     cols = ["X", "Y", "Z"] if is_xyz else ["Lat", "Lon", "Alt"]
     return data, cols
-- 
2.43.0


From 6910e7e8c1e5e5ff994f6b295560e334aead13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 51/92] fix: table of key/value states whose keys changed
 without being recorded

---
 src/upstage_des/data_utils/data_utils.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 3bc72a7..b0fdd40 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -1,6 +1,6 @@
 """Utilities for gathering all recorded simulation data."""
 
-from dataclasses import asdict, fields, is_dataclass
+from dataclasses import asdict, is_dataclass
 from typing import Any, cast
 
 from upstage_des.actor import Actor
@@ -86,14 +86,6 @@ def _is_location(actor: Actor, state_name: str, state: Any) -> bool:
     return any(isinstance(v, ACTUAL_LOCATION) for v in values)
 
 
-def _key_list(obj: Any) -> list[str]:
-    if isinstance(obj, dict):
-        return [str(x) for x in obj.keys()]
-    if is_dataclass(obj):
-        return [f.name for f in fields(obj)]
-    raise ValueError(f"Unexpected data type for state history: {obj}")
-
-
 def _actor_state_data(
     actor: Actor,
     skip_locations: bool = True,
@@ -130,14 +122,11 @@ def _actor_state_data(
                 )
             )
         elif is_prefilled:
-            for key in _key_list(_value):
-                sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
-                data.extend(
-                    _state_history_to_table(
-                        name, kind, sname, is_active, actor._state_histories[sname]
-                    )
-                )
+            # The current keys may not be the recorded ones
+            for sname, hist in actor._state_histories.items():
+                if not sname.startswith(f"{state_name}."):
+                    continue
+                data.extend(_state_history_to_table(name, kind, sname, is_active, hist))
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
-- 
2.43.0


From 5934c078a123692b940a6d5715910cd8aaf2d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 52/92] fix: recording functions were given the activation
 marker as a value

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 752fa76..987230f 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -208,7 +208,9 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        if override is None:
+            # Being activated or deactivated isn't a value
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From bc45046805e056b7cb63958333b132e56e6bcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 53/92] fix: record where a location is when it starts or stops
 changing

---
 src/upstage_des/states.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 987230f..5cceeb8 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -443,6 +443,21 @@ class ActiveState(State, Generic[ST]):
         res["value"] = instance.__dict__[self.name]
         return res
 
+    def _record_switch(self, instance: "Actor", status: ActiveStatus) -> None:
+        """Record an activation or deactivation, after the value it happens at.
+
+        Args:
+            instance (Actor): The actor holding the state
+            status (ActiveStatus): What happens
+        """
+        if not self._recording:
+            return
+        history = instance._state_histories.get(self.name, [])
+        last_time, last = history[-1] if history else (None, None)
+        if last_time != instance.env.now or isinstance(last, ActiveStatus):
+            self._do_record(instance, instance.__dict__[self.name])
+        self._do_record(instance, None, override=status)
+
     def activate(self, instance: "Actor", task: Task | None = None) -> None:
         """Method to run when a state is activated.
 
@@ -451,7 +466,7 @@ class ActiveState(State, Generic[ST]):
         Use this with __super__ for motion states to deactivate their motion from
         the motion manager.
         """
-        self._do_record(instance, None, override=ActiveStatus.activating)
+        self._record_switch(instance, ActiveStatus.activating)
 
     def deactivate(self, instance: "Actor", task: Task | None = None) -> bool:
         """Optional method to override that is called when a state is deactivated.
@@ -463,7 +478,7 @@ class ActiveState(State, Generic[ST]):
         """
         # Returns if the state should be ignored
         # A False means the state is completely deactivated
-        self._do_record(instance, None, override=ActiveStatus.deactivating)
+        self._record_switch(instance, ActiveStatus.deactivating)
         return False
 
 
-- 
2.43.0


From 34168c801f36872c5d4b687b638bf99c3a55c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 54/92] fix: record that a shared linear state is deactivated

---
 src/upstage_des/state_sharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 8906b28..46b2847 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -139,4 +139,4 @@ class SharedLinearChangingState(ActiveState[float]):
         getattr(instance, self.name)
         if rate_tasks:
             return True
-        return False
+        return super().deactivate(instance, task)
-- 
2.43.0


From 5dd47487abad318447ee97005b8e427b6f4e2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 55/92] fix: duplicates of key/value states can be recorded

---
 src/upstage_des/states.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 5cceeb8..5eed75b 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1274,18 +1274,17 @@ class _KeyValueBase(State):
         record_duplicates: bool = False,
         recording_functions: list[RECORD_TUPLES] | None = None,
     ) -> None:
-        # Frozen, recording, and record duplicates are set so
+        # Frozen and recording are set so
         # that the overall state's value (a dictionary) is
         # never touched, and only its members are accessed.
         super().__init__(
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-        self._record_indiv_dupe = record_duplicates
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-- 
2.43.0


From 77e89897367dd5691cad53955ec987754019df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 56/92] fix: recording classes were shared by every actor and
 environment

---
 src/upstage_des/states.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 5eed75b..ab3fd98 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -153,15 +153,12 @@ class State(Generic[ST]):
         self._record_duplicates = record_duplicates
         self._change_callbacks: dict[Any, CALLBACK_FUNC] = {}
         self._allow_none_default = allow_none_default
-        self._recording_functions: list[tuple[RECORD_FUNC, str]] = []
+        self._recording_functions: list[RECORD_TUPLES] = []
         if recording_functions is not None:
             for thing, name in recording_functions:
                 if isinstance(thing, type):
-                    use = thing()
-                    assert isinstance(use, RecordClass)
-                    self._recording_functions.append((use, name))
-                else:
-                    self._recording_functions.append((thing, name))
+                    assert issubclass(thing, RecordClass)
+                self._recording_functions.append((thing, name))
 
         self._types: tuple[type, ...]
 
@@ -173,8 +170,22 @@ class State(Generic[ST]):
             self._types = valid_types
         self.IGNORE_LOCK: bool = False
 
+    def _get_record_funcs(self, instance: "Actor") -> list[tuple[RECORD_FUNC, str]]:
+        """Get the recording functions, with objects of the classes for one actor.
+
+        Args:
+            instance (Actor): The actor holding the state
+        """
+        key = f"_recorders_for_{self.name}"
+        if key not in instance.__dict__:
+            instance.__dict__[key] = [
+                (thing() if isinstance(thing, type) else thing, name)
+                for thing, name in self._recording_functions
+            ]
+        return cast(list[tuple[RECORD_FUNC, str]], instance.__dict__[key])
+
     def _do_record_funcs(self, instance: "Actor", now: float, value: ST) -> None:
-        for func, name in self._recording_functions:
+        for func, name in self._get_record_funcs(instance):
             result = func(now, value)
             new_append = (now, result)
             if name not in instance._state_histories:
-- 
2.43.0


From cc56c030eac3f5716a2557015557872d02dc4e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 57/92] fix: monitored resources of a multi-store state belong
 to the actor in the table

---
 src/upstage_des/data_utils/data_utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b0fdd40..f7ded5d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    MultiStoreState,
     _DictionaryProxy,
 )
 
@@ -130,6 +131,16 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
+        elif isinstance(state, MultiStoreState):
+            for key, resource in (_value or {}).items():
+                sname = f"{state_name}.{key}"
+                if hasattr(resource, "_quantities"):
+                    resources.append(resource)
+                    data.extend(
+                        _state_history_to_table(name, kind, sname, False, resource._quantities)
+                    )
+                elif save_static:
+                    data.append((name, kind, sname, 0.0, resource, STATIC_STATE))
         elif save_static and state_name in actor.__dict__:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DictionaryProxy):
-- 
2.43.0


From 484220978b152d2b7039c1df924a009349e014af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 58/92] fix: get_stage_variable of a variable named like a dict
 method

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..aa412fb 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -607,7 +607,7 @@ def get_stage_variable(varname: str) -> Any:
         raise ValueError("Stage should have been set.")
     if varname not in stage:
         raise UpstageError(f"Variable '{varname}' does not exist in the stage")
-    return getattr(stage, varname)
+    return stage[varname]
 
 
 def get_stage() -> StageProtocol:
-- 
2.43.0


From d982bfbd79cb404263816159199dc3e7f9c4f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 59/92] fix: a stage variable could be silently replaced by
 item assignment

---
 src/upstage_des/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index aa412fb..7a82cd8 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -53,6 +53,17 @@ class DotDict(dict):
             raise AttributeError(f"No key `{key}` found in stage. Use `UP.add_stage_variable`")
         return self.get(key)
 
+    def __setitem__(self, key: str, value: Any) -> None:
+        """Set the item, which can't be changed once set.
+
+        Args:
+            key (str): Key
+            value (Any): Value
+        """
+        if key in self:
+            raise AttributeError(f"Key {key} is already set.")
+        super().__setitem__(key, value)
+
     def __setattr__(self, key: str, value: Any) -> None:
         """Set the attribute.
 
@@ -62,8 +73,6 @@ class DotDict(dict):
             key (str): Key
             value (Any): Value
         """
-        if key in self:
-            raise AttributeError(f"Key {key} is already set.")
         self.__setitem__(key, value)
 
     def __delattr__(self, key: str) -> None:
-- 
2.43.0


From 6d7395fb6fdc36e2ba13bd4c7eba676bcbc2d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 60/92] fix: a refused random seed left the new context entered

---
 src/upstage_des/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 7a82cd8..15b42e2 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -561,17 +561,18 @@ class EnvironmentContext:
         Returns:
             SimpyEnv: Simpy Environment
         """
-        self._env = SimpyEnv(initial_time=self._initial_time)
-        self.env_token = self.env_ctx.set(self._env)
-        self.special_token = self.special_ctx.set(SpecialContexts())
-        self.entity_token = self.entity_ctx.set(defaultdict(list))
+        # Anything that can fail goes before the context is changed.
         stage = DotDict()
-        self.stage_token = self.stage_ctx.set(stage)
         if self._random_gen is None:
             random = Random(self._random_seed)
             stage.random = random
         else:
             stage.random = self._random_gen
+        self._env = SimpyEnv(initial_time=self._initial_time)
+        self.env_token = self.env_ctx.set(self._env)
+        self.special_token = self.special_ctx.set(SpecialContexts())
+        self.entity_token = self.entity_ctx.set(defaultdict(list))
+        self.stage_token = self.stage_ctx.set(stage)
         return self._env
 
     def __exit__(self, *_: Any) -> None:
-- 
2.43.0


From 8344aa3896cefe0d19e527c50c54c86089841bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 61/92] fix: mimic callbacks of another context's actors
 changed while being called

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index ab3fd98..ea6830e 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -230,7 +230,9 @@ class State(Generic[ST]):
             instance (Actor): The actor holding the state
             value (Any): The value of the state
         """
-        for _, callback in self._change_callbacks.items():
+        # The callbacks are shared by every actor of the class, including those of
+        # contexts in other threads, which may add or remove theirs meanwhile.
+        for callback in list(self._change_callbacks.values()):
             callback(instance, value)
 
     def _broadcast_change(self, instance: "Actor", name: str, value: ST) -> None:
-- 
2.43.0


From ad1e8fe31b82f6ecdf21ba0e21eadfa70be7f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:53 +0000
Subject: [PATCH 62/92] fix: a refused success of a knowledge event removed it
 from knowledge

---
 src/upstage_des/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 192adb2..933ace0 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1216,8 +1216,9 @@ Args:
             raise SimulationError(f"No knowledge named {name} to succeed")
         if not isinstance(event, Event):
             raise SimulationError(f"Knowledge {name} is not an Event.")
-        self.clear_knowledge(name, "actor.succeed_knowledge_event")
+        # A refused success leaves the knowledge as it is.
         event.succeed(**kwargs)
+        self.clear_knowledge(name, "actor.succeed_knowledge_event")
 
     def get_remaining_waypoints(
         self, location_state: str
-- 
2.43.0


From d0b7eab32a54b6c4603027e1bd52a6717087dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:52 +0000
Subject: [PATCH 63/92] fix: interrupt of a task holding an event that another
 task cancelled earlier

---
 src/upstage_des/events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index b93b790..ee3dd27 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -983,8 +983,9 @@ class Event(BaseEvent):
         """
         if self._rehearsing:
             return
-        if self._event.triggered and not self._event.defused:
-            # It was succeeded already, possibly at this same time.
+        if self._event.processed or (self._event.triggered and not self._event.defused):
+            # It was succeeded already, possibly at this same time, or cancelled
+            # earlier by another holder.
             return
         try:
             self._event.defused = True
-- 
2.43.0


From 9e161b95ae03288a64784338bff87cf588ae31e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 64/92] fix: a frozen state holding None could be changed

---
 src/upstage_des/states.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index ea6830e..fdd7ed1 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -266,13 +266,12 @@ class State(Generic[ST]):
             instance (Actor): The actor holding the state
             value (Any): The state's value
         """
-        if self._frozen:
-            old_value = instance.__dict__.get(self.name, None)
-            if old_value is not None:
-                raise SimulationError(
-                    f"State '{self}' on '{instance}' has already been frozen "
-                    f"to value of {old_value}. It cannot be changed once set!"
-                )
+        if self._frozen and self.name in instance.__dict__:
+            old_value = instance.__dict__[self.name]
+            raise SimulationError(
+                f"State '{self}' on '{instance}' has already been frozen "
+                f"to value of {old_value}. It cannot be changed once set!"
+            )
 
         self._type_check(value, throw=True)
 
-- 
2.43.0


From bea029aa610b759aad72c8d7d19d3c35940172f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 65/92] fix: a dictionary state kept the value it refused

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From 39ef2ee0f192a72964287f98216a256416ab1dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 66/92] fix: a communication store took the modes out of the
 user's dictionary

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index fdd7ed1..c64e1b7 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1248,6 +1248,8 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = getattr(value, "_clone_modes", self._modes)
         if isinstance(value, dict) and "modes" in value:
+            # The dictionary is the user's, and may be used for several actors
+            value = dict(value)
             modes = value.pop("modes")
         super().__set__(instance, value)
         if modes is None:
-- 
2.43.0


From ef7a961211e2b6f4f05b0b92362b003c30957c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 67/92] fix: communication store modes in a list were not
 checked

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index c64e1b7..3b4de22 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1259,7 +1259,7 @@ class CommunicationStore(ResourceState[Store]):
             )
         if isinstance(modes, str):
             modes = [modes]
-        if not isinstance(modes, list) and not all(isinstance(x, str) for x in modes):
+        if not all(isinstance(x, str) for x in modes):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
-- 
2.43.0


From 56f0069ccd099daa35ef9ffbfed5569b0cc998e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 68/92] fix: a multi-store state without valid_types accepted
 anything as a store

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 3b4de22..4d43de0 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1559,7 +1559,7 @@ class MultiStoreState(DictionaryState[T]):
         default: type[Store] | type[Container] | None = None,
         default_kwargs: dict[str, Any] | None = None,
     ) -> None:
-        super().__init__(valid_types=valid_types)
+        super().__init__(valid_types=(Store, Container) if valid_types is None else valid_types)
         self._default = default
         self._default_kwargs = {} if default_kwargs is None else default_kwargs.copy()
 
-- 
2.43.0


From 1fcfac118c61cfbf5d4769a9cb2df40656fa4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 69/92] fix: inherited fields and string annotations of
 dataclass states could not be set

---
 src/upstage_des/state_proxies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..f95f5f9 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -2,7 +2,7 @@
 
 from collections.abc import ItemsView, Iterable, KeysView, ValuesView
 from dataclasses import is_dataclass
-from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
+from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast, get_type_hints
 
 VTD = TypeVar("VTD")
 TDC = TypeVar("TDC")
@@ -107,7 +107,7 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
+        field_type = get_type_hints(type(self._wrapped))[name]
         if not isinstance(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
-- 
2.43.0


From 7521134593373d664d08d61140523b71d24d45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 70/92] fix: setting an unknown attribute of a dataclass state
 was silently ignored

---
 src/upstage_des/state_proxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index f95f5f9..6b3ce6d 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -134,6 +134,8 @@ class _DataclassProxy(Generic[TDC]):
                 self._typecheck(name, value)
                 setattr(self._wrapped, name, value)
                 self._descr._record_state(self._inst, name, all=False)
+            else:
+                raise AttributeError(f"{type(self._wrapped)} has no attribute '{name}' to set.")
 
     def __eq__(self, other: Any) -> bool:
         if not is_dataclass(other):
-- 
2.43.0


From 367e87e11fe75e308474aee0b575318a322c07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 71/92] fix: a dataclass state accepted values that are not
 dataclasses

---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 4d43de0..b68f331 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -8,7 +8,7 @@
 from abc import abstractmethod
 from collections.abc import Callable, Iterable
 from copy import copy, deepcopy
-from dataclasses import fields, replace
+from dataclasses import fields, is_dataclass, replace
 from enum import Enum
 from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
@@ -1486,6 +1486,8 @@ class DataclassState(_KeyValueBase, Generic[DCT]):
             raise SimulationError(f"State {self.name} already set on {instance}.")
 
         self._type_check(value, throw=True)
+        if not is_dataclass(value) or isinstance(value, type):
+            raise TypeError(f"State {self.name} needs a dataclass instance, not {value}.")
         instance.__dict__[self.name] = value
 
         self._record_state(instance, all=True)
-- 
2.43.0


From c593640bbecee683b5b6a4a63015a67667483ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 72/92] fix: order of a nucleus's interrupts depended on the
 hash seed

---
 src/upstage_des/nucleus.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index e3c1d4f..efde391 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,8 +50,9 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
-        self._network_map: dict[str, set[str]] = defaultdict(set)
+        # Dictionaries keep the order in which networks and states were added
+        self._state_map: dict[str, dict[str, None]] = defaultdict(dict)
+        self._network_map: dict[str, dict[str, None]] = defaultdict(dict)
         self._attach()
 
     def add_network(
@@ -70,8 +71,8 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
-            self._network_map[network_name].add(state)
+            self._state_map[state][network_name] = None
+            self._network_map[network_name][state] = None
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
 
@@ -89,7 +90,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in self._network_map[network_name]:
-            self._state_map[state].remove(network_name)
+            del self._state_map[state][network_name]
         del self._network_map[network_name]
 
     def send_change(self, state_name: str, state_value: Any) -> None:
-- 
2.43.0


From 4415d357fe54f58306cf2d6d8593f02d89b8d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 73/92] fix: order of deactivating all states depended on the
 hash seed

---
 src/upstage_des/actor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 933ace0..3edb725 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -132,9 +132,10 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._state_defs: dict[str, State] = getattr(self.__class__, "_state_defs", {})
 
         self._mimic_states: dict[str, tuple[Actor, str]] = {}  # has to be before other calls
-        self._mimic_states_by_task: dict[Task, set[str]] = defaultdict(set)
+        self._mimic_states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
 
-        self._states_by_task: dict[Task, set[str]] = defaultdict(set)
+        # Dictionaries keep the order in which states were activated
+        self._states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
         self._tasks_by_state: dict[str, set[Task]] = defaultdict(set)
 
         self._task_networks: dict[str, TaskNetwork] = {}
@@ -289,7 +290,7 @@ Args:
                     f"State '{state}' already locked by '{task}'. "
                     "Did you forget to unlock/deactivate it?"
                 )
-        self._states_by_task[task].add(state)
+        self._states_by_task[task][state] = None
         self._tasks_by_state[state].add(task)
 
     def _set_active_state_data(
@@ -386,10 +387,10 @@ Args:
                 raise SimulationError(
                     f"State `{state}` isn't locked by '{task}', but it's trying to be unlocked."
                 )
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         elif task in self._tasks_by_state[state]:
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         else:
             raise UpstageError(f"State '{state}' was not activated by '{task}', cannot deactivate")
@@ -500,7 +501,7 @@ Args:
             )
 
         self._mimic_states[self_state] = (mimic_actor, mimic_state)
-        self._mimic_states_by_task[task].add(self_state)
+        self._mimic_states_by_task[task][self_state] = None
 
         self_state_name = self._mimic_state_name(self_state)
         if state.is_recording:
@@ -525,7 +526,7 @@ Args:
         if state.is_recording:
             mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
-        self._mimic_states_by_task[task].remove(self_state)
+        del self._mimic_states_by_task[task][self_state]
 
     def deactivate_all_mimic_states(self, *, task: Task) -> None:
         """Deactivate all mimicking states in the actor for a given task.
-- 
2.43.0


From e3bf0d52da4c6707cde7d4f06c39150badebb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 74/92] fix: order of making state defaults depended on the
 hash seed

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 3edb725..5ebe996 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -78,7 +78,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        unseen = [state_name for state_name in self._state_defs if state_name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
-- 
2.43.0


From e6b793ee5749fc3df53266c5737c11bb61e78aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 75/92] fix: order of an entity's groups depended on the hash
 seed

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 15b42e2..669c10e 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -424,7 +424,7 @@ class NamedUpstageEntity(UpstageBase):
         Args:
             group_names (list[str]): Group names to add to
         """
-        for group_name in group_names:
+        for group_name in sorted(group_names):
             if group_name in SKIP_GROUPS:
                 continue
             self._add_to_group(group_name)
-- 
2.43.0


From 44f0a12dfb888da4d055f3db174da93d4cc9d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 76/92] fix: choice between equally long routes depended on the
 hash seed

---
 src/upstage_des/communications/routing.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index ec77943..f33e0d0 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -14,14 +14,14 @@ from upstage_des.task import process
 from upstage_des.type_help import SIMPY_GEN
 
 
-def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[str]:
+def _shortest_path(network: dict[str, list[str]], start: str, goal: str) -> list[str]:
     """Dijkstra for network path."""
     queue = deque([(start, [start])])
     visited = {start}
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        for neighbor in network.get(node, []):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
@@ -224,7 +224,8 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             debug_logging=debug_logging,
         )
         self._nodes: dict[str, Actor] = {}
-        self._network: dict[str, set[str]] = defaultdict(set)
+        # Dictionaries keep the order in which nodes were connected
+        self._network: dict[str, dict[str, None]] = defaultdict(dict)
 
     def connect_nodes(self, u: Actor, v: Actor, two_way: bool = False) -> None:
         """Connect node u to v (one-way).
@@ -243,9 +244,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
 
         self._nodes[u.name] = u
         self._nodes[v.name] = v
-        self._network[u.name].add(v.name)
+        self._network[u.name][v.name] = None
         if two_way:
-            self._network[v.name].add(u.name)
+            self._network[v.name][u.name] = None
 
     def select_hop(
         self, source: Actor, dest: Actor, ignore_nodes: list[Actor] | None = None
@@ -268,7 +269,11 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
         if v in self._network[u] and v not in ignore_names:
             return dest
-        net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
+        net = {
+            k: [n for n in v if n not in ignore_names]
+            for k, v in self._network.items()
+            if k not in ignore_names
+        }
         path = _shortest_path(net, u, v)
         if not path:
             return None
-- 
2.43.0


From 61348dd242057a7db442d6a086e398221171ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 77/92] fix: order of exits of an undetectable mover depended
 on addresses

---
 src/upstage_des/motion/motion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 14451e2..40ee34c 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -102,7 +102,7 @@ class SensorMotionManager(UpstageBase):
         self._sensors: dict[SensorType, tuple[str, str]] = {}
         self._movers: dict[Actor, tuple[float, LOC_LIST, float]] = {}
         self._events: dict[Actor, list[tuple[SensorType, Process]]] = {}
-        self._in_view: dict[Actor, set[SensorType]] = {}
+        self._in_view: dict[Actor, dict[SensorType, None]] = {}
         self._debug: bool = debug
         self._debug_data: dict[Actor, list[Any]] = {}
         self._debug_log: list[Any] = []
@@ -162,7 +162,7 @@ class SensorMotionManager(UpstageBase):
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
-        for sensor in self._in_view.pop(mover, set()):
+        for sensor in self._in_view.pop(mover, {}):
             # This will cause some old data to stick around, but that's
             # instead of making new events to clear it out and then having
             # to end those clearing events if this happens
@@ -272,9 +272,9 @@ class SensorMotionManager(UpstageBase):
             bool: If it was already in view.
         """
         if mover not in self._in_view:
-            self._in_view[mover] = set()
+            self._in_view[mover] = {}
         was_in = sensor in self._in_view[mover]
-        self._in_view[mover].add(sensor)
+        self._in_view[mover][sensor] = None
         return was_in
 
     def _remove_from_view(self, mover: Actor, sensor: SensorType) -> None:
@@ -288,7 +288,7 @@ class SensorMotionManager(UpstageBase):
             raise MotionAndDetectionError(f"{mover} isn't in view of anything to remove.")
         if sensor not in self._in_view[mover]:
             raise MotionAndDetectionError(f"{mover} isn't in view of {sensor} to allow clearing.")
-        self._in_view[mover].remove(sensor)
+        del self._in_view[mover][sensor]
 
     def _end_notify(self, mover: Actor, sensor: SensorType, event: str) -> None:
         """End notification and give a reason.
-- 
2.43.0


From 18f838ab8717e84155fd355f57a2031b060d4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 78/92] fix: the actors' logs contained memory addresses

---
 src/upstage_des/events.py  | 3 +++
 src/upstage_des/nucleus.py | 3 +++
 src/upstage_des/task.py    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index ee3dd27..be3cc4c 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -52,6 +52,9 @@ class BaseEvent(UpstageBase):
         self.created_at: float = self.now
         self.rehearsal_time_to_complete = rehearsal_time_to_complete
 
+    def __repr__(self) -> str:
+        return f"{self.__class__.__name__} created at {self.created_at}"
+
     @property
     def now(self) -> float:
         """Current sim time.
diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index efde391..38a76a7 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -32,6 +32,9 @@ class NucleusInterrupt:
 class TaskNetworkNucleus:
     """The nucleus, for state-based task network signaling."""
 
+    def __repr__(self) -> str:
+        return f"{self.__class__.__name__}: {self._actor}"
+
     def _attach(self) -> None:
         """Attach the nucleus to an actor."""
         self._actor.log(f"Attaching {self} as a state listener!")
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 1bae7a9..6493f72 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -112,6 +112,9 @@ class Task(SettableEnv):
         self._interrupt_action: InterruptStates = InterruptStates.END
         self._rehearsing: bool = False
 
+    def __repr__(self) -> str:
+        return f"Task: {self.__class__.__name__}"
+
     def task(self, *, actor: Any) -> TASK_GEN:
         """Define the process this task follows."""
         raise NotImplementedError(NOT_IMPLEMENTED_MSG)
-- 
2.43.0


From 7934abb4e44a359e64a1ed339d0a10db609bfeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 79/92] fix: requests to a cloned store went to the original

---
 src/upstage_des/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index b68f331..f01a22d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -996,7 +996,10 @@ def _copy_resource(resource: T) -> T:
     new = copy(resource)
     new.put_queue = new.PutQueue()
     new.get_queue = new.GetQueue()
-    # Requests are bound to the resource they were made for
+    # Requests were bound to the resource they were made for
+    for name, value in list(vars(new).items()):
+        if getattr(value, "__self__", None) is resource:
+            delattr(new, name)
     BoundClass.bind_early(new)
     if isinstance(new, Store):
         new.items = list(new.items)
-- 
2.43.0


From 4e14d4bf5e18ffb17e32c8715d47b968a749e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 80/92] fix: locations in radians were taken as degrees when
 moving

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index f01a22d..8a2335d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -807,8 +807,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -934,7 +934,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             time_frac = min(1.0, time_along / path_time) if path_time else 1.0
             moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From 48fcce6200d7165ae598cd23aec5dc65fb8ddede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 81/92] fix: location tables mixed radians and degrees

---
 src/upstage_des/data_utils/data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index f7ded5d..1744bac 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -186,7 +186,9 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 row = tuple(list(_row[:-1]) + [value.name])
                 active_value = "active" if value.name == "activating" else "inactive"
             elif isinstance(value, GeodeticLocation):
-                row = (name, kind, state_name, time, value.lat, value.lon, value.alt, active_value)
+                # One unit for the column, as moving states record degrees
+                lat, lon = value.latlon()
+                row = (name, kind, state_name, time, lat, lon, value.alt, active_value)
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
-- 
2.43.0


From 00fd1e9545c19966960abece000ba8b51193c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 82/92] fix: changing the given list of waypoints afterwards
 broke the movement

---
 src/upstage_des/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 8a2335d..67e1b31 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -595,7 +595,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         data = self.get_activity_data(instance)
         current: CartesianLocation = data["value"]
         speed: float = data["speed"]
-        waypoints: list[CartesianLocation] = data["waypoints"]
+        waypoints: list[CartesianLocation] = list(data["waypoints"])
         # get the times, distances, and bearings from the waypoints
         times: list[float] = []
         distances: list[float] = []
@@ -799,7 +799,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         data = self.get_activity_data(instance)
         current: GeodeticLocation = data["value"]
         speed: float = data["speed"]
-        waypoints: list[GeodeticLocation] = data["waypoints"]
+        waypoints: list[GeodeticLocation] = list(data["waypoints"])
         # get the times, distances, and bearings from the waypoints
         times: list[float] = []
         distances: list[float] = []
-- 
2.43.0


From 0e5aa21355b7a0f82f4fd95a4164406754656380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:33 +0000
Subject: [PATCH 83/92] fix: routing tables tell actors of the same name apart

Nodes and links were kept by actor name, so a second actor of a name
replaced the first and messages went to the wrong one.
---
 src/upstage_des/communications/routing.py | 26 ++++++++++-------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index f33e0d0..86ba23d 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -14,7 +14,7 @@ from upstage_des.task import process
 from upstage_des.type_help import SIMPY_GEN
 
 
-def _shortest_path(network: dict[str, list[str]], start: str, goal: str) -> list[str]:
+def _shortest_path(network: dict[Actor, list[Actor]], start: Actor, goal: Actor) -> list[Actor]:
     """Dijkstra for network path."""
     queue = deque([(start, [start])])
     visited = {start}
@@ -223,9 +223,8 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             global_ignore=global_ignore,
             debug_logging=debug_logging,
         )
-        self._nodes: dict[str, Actor] = {}
         # Dictionaries keep the order in which nodes were connected
-        self._network: dict[str, dict[str, None]] = defaultdict(dict)
+        self._network: dict[Actor, dict[Actor, None]] = defaultdict(dict)
 
     def connect_nodes(self, u: Actor, v: Actor, two_way: bool = False) -> None:
         """Connect node u to v (one-way).
@@ -242,11 +241,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             if self._get_state(act) is None:
                 raise SimulationError(f"Actor {act} has no comms store on mode {self.mode}")
 
-        self._nodes[u.name] = u
-        self._nodes[v.name] = v
-        self._network[u.name][v.name] = None
+        self._network[u][v] = None
         if two_way:
-            self._network[v.name][u.name] = None
+            self._network[v][u] = None
 
     def select_hop(
         self, source: Actor, dest: Actor, ignore_nodes: list[Actor] | None = None
@@ -263,19 +260,18 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         Returns:
             Actor | None: The next place to go or None if no route.
         """
-        u, v = source.name, dest.name
-        if u not in self._network:
+        if source not in self._network:
             return None
-        ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
-        if v in self._network[u] and v not in ignore_names:
+        ignore = ignore_nodes if ignore_nodes is not None else []
+        if dest in self._network[source] and dest not in ignore:
             return dest
         net = {
-            k: [n for n in v if n not in ignore_names]
+            k: [n for n in v if n not in ignore]
             for k, v in self._network.items()
-            if k not in ignore_names
+            if k not in ignore
         }
-        path = _shortest_path(net, u, v)
+        path = _shortest_path(net, source, dest)
         if not path:
             return None
         # return the next step
-        return self._nodes[path[1]]
+        return path[1]
-- 
2.43.0


From aca3a5305b1433a2568b981d1520e5fd79cbf751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:37 +0000
Subject: [PATCH 84/92] fix: a task cannot stop a mimic state that another task
 activated

The mimicking was stopped before the missing entry of the task raised a
KeyError.
---
 src/upstage_des/actor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 5ebe996..daa6622 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -519,6 +519,8 @@ Args:
             self_state (str): State name
             task (Task): Task it's running in.
         """
+        if self_state not in self._mimic_states_by_task[task]:
+            raise SimulationError(f"State '{self_state}' is not a mimic activated by '{task}'.")
         getattr(self, self_state)
         mimic_actor, mimic_state = self._mimic_states[self_state]
         state = self._state_defs[self_state]
-- 
2.43.0


From 327bb4a02389d0bfb8e2fed22a4a428160eae450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 85/92] fix: a mover above an analytical intersection's range
 raised a math domain error

---
 src/upstage_des/motion/geodetic_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index 8a0dd70..f818b38 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -138,6 +138,10 @@ def analytical_intersection(
     # modify the sensor's radius to account for the altitude of the mover
     average_path_height = (start.alt + finish.alt) / 2.0
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    if abs(average_path_height_dist_units) > sensor_radius:
+        # passing above (or below) the sensor's range
+        path_time = (get_dist_rad(start_rad, finish_rad) * earth_rad) / speed
+        return [], [], ["Bad", "Bad"], path_time
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
-- 
2.43.0


From 4ed01eb1e6300bcfea3b84ef906c6f6b5dae92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:47 +0000
Subject: [PATCH 86/92] fix: the analytical intersection ignored the altitude
 of the sensor

---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index f818b38..24f382f 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -135,8 +135,8 @@ def analytical_intersection(
     finish_rad = finish.to_radians()
     sensor_location_rad = sensor_location.to_radians()
 
-    # modify the sensor's radius to account for the altitude of the mover
-    average_path_height = (start.alt + finish.alt) / 2.0
+    # modify the sensor's radius to account for the altitude of the mover above the sensor
+    average_path_height = (start.alt + finish.alt) / 2.0 - sensor_location.alt
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
     if abs(average_path_height_dist_units) > sensor_radius:
         # passing above (or below) the sensor's range
-- 
2.43.0


From 42a0cbab191b1401f500921532558ee1509eb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:58 +0000
Subject: [PATCH 87/92] fix: pretty times could be a second early from rounding
 in the unit conversion

---
 src/upstage_des/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 669c10e..a775a87 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -362,11 +362,11 @@ class UpstageBase:
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
-            ts = f"[Day {day:4.0f} - {hms:s}]"
+            # Rounding in the conversion must not drop a second
+            seconds = floor(round(unit_convert(now, time_unit, "s"), 6))
+            day, rem_seconds = divmod(seconds, 24 * 3600)
+            hms = strftime("%H:%M:%S", gmtime(rem_seconds))
+            ts = f"[Day {day:4d} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
             if day_unit_count is None:
-- 
2.43.0


From 18065496a7a1fd6da607a6fddcf15b38b438b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:01 +0000
Subject: [PATCH 88/92] fix: capitalised time units were not recognised when
 formatting the time

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index a775a87..cc313be 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -358,7 +358,7 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-- 
2.43.0


From 0d28d968c5dc88ff52e1f00263329b93ffa18c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:56 +0000
Subject: [PATCH 89/92] fix: cloning an actor that mimics another told the
 other's nucleus of a change

---
 src/upstage_des/actor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index daa6622..682e9c6 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -993,7 +993,15 @@ Args:
         states: dict[str, Any] = {}
         no_init = {name for name, state_obj in self._state_defs.items() if state_obj._no_init}
         # Reading active states sets them, which is not a change for a nucleus to know.
-        listener, self._state_listener = self._state_listener, None
+        # Mimic states are read from the actors they mimic.
+        read: list[Actor] = [self]
+        for actor in read:
+            for mimicked, _ in actor._mimic_states.values():
+                if all(mimicked is not a for a in read):
+                    read.append(mimicked)
+        listeners = [actor._state_listener for actor in read]
+        for actor in read:
+            actor._state_listener = None
         # Clones, and their resources, are not entities of the simulation.
         special = SPECIAL_ENTITY_CONTEXT_VAR.set(SpecialContexts())
         entities = ENTITY_CONTEXT_VAR.set({})
@@ -1017,7 +1025,8 @@ Args:
                 **{k: v for k, v in states.items() if k not in no_init},
             )
         finally:
-            self._state_listener = listener
+            for actor, listener in zip(read, listeners):
+                actor._state_listener = listener
             SPECIAL_ENTITY_CONTEXT_VAR.reset(special)
             ENTITY_CONTEXT_VAR.reset(entities)
         clone.env = new_env
-- 
2.43.0


From 2c4979191dcf3ef9cf4fb67e8df6c41a1b772428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:58 +0000
Subject: [PATCH 90/92] fix: an interrupted task's finally blocks ran late, and
 their errors were lost

---
 src/upstage_des/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 6493f72..544c258 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -563,8 +563,8 @@ class Task(SettableEnv):
                     while generators:
                         gen = generators.pop()
                         gen_obj = gen_objs.pop()
+                        gen.close()
                         if isinstance(gen_obj, Routine):
-                            gen.close()
                             yield from gen_obj._run_cancel()
                     if action == InterruptStates.RESTART:
                         generators = [
-- 
2.43.0


From 5a2c6b0fcd15468b5901710ba63f51b7c8121895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:57 +0000
Subject: [PATCH 91/92] fix: errors in the finally blocks of an interrupted
 routine were lost

---
 src/upstage_des/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index b1e0a79..a1689ac 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -56,7 +56,7 @@ class Routine(SettableEnv):
         except GeneratorExit:
             # The parent task will close this generator and handle everything
             # else.
-            ...
+            gen.close()
 
     def _run_cancel(self) -> SIMPY_GEN:
         # Cancel can yield upstage events, so this pushes those through.
-- 
2.43.0


From 822a00c873f4e7337cfe6acedd2e8e6aee8b19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:43 +0000
Subject: [PATCH 92/92] fix: a rehearsal of an actor being rehearsed started at
 the real clock

---
 src/upstage_des/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 544c258..4e3a357 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -361,7 +361,7 @@ class Task(SettableEnv):
         Returns:
             Actor: Cloned actor
         """
-        mocked_env = MockEnvironment.mock(self.env)
+        mocked_env = MockEnvironment.mock(actor.env)
         self.env = mocked_env
         understudy = actor.clone(
             new_env=mocked_env,
-- 
2.43.0

