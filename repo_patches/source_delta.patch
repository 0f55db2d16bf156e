From b2c9209d62913af8fc2df50d63baa21801e2ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 01/44] fix: interrupted work stays suspended until all
 overlapping breakdowns are repaired

---
 prodsys/simulation/state.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..2f6c4fe 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -268,6 +268,19 @@ class State(ABC, BaseModel):
         """
         pass
 
+    def wait_until_active(self) -> Generator:
+        """
+        Waits until the state and its resource are both active. Activity is checked again after waiting,
+        because a further breakdown can start before a previous one has been repaired.
+
+        Yields:
+            Generator: The generator yields when the state and its resource are active.
+        """
+        while True:
+            yield events.AllOf(self.env, [self.active, self.resource.active])
+            if self.active.triggered and self.resource.active.triggered:
+                return
+
     def activate_state(self):
         """
         Activates the state and at start of the simulation.
@@ -318,7 +331,7 @@ class ProductionState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
                 yield events.AllOf(self.env, [self.resource.active, self.active])
@@ -334,7 +347,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -430,7 +443,7 @@ class TransportState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
                 yield events.AllOf(self.env, [self.resource.active, self.active])
@@ -446,7 +459,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -629,7 +642,7 @@ class SetupState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
                 yield events.AllOf(self.env, [self.resource.active, self.active])
@@ -652,7 +665,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -729,7 +742,7 @@ class ChargingState(State):
             try:
                 if self.interrupted:
                     debug_logging(self, f"interrupted while waiting for activation or activation of resource")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
                 yield events.AllOf(self.env, [self.resource.active, self.active])
@@ -745,7 +758,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From 186387e98c48a397a34ed13be8f80b436948d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 02/44] fix: overlapping process breakdowns no longer crash or
 re-enable states that are still broken

---
 prodsys/simulation/state.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 2f6c4fe..d079f2a 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -557,6 +557,7 @@ class ProcessBreakDownState(State):
     state_data: ProcessBreakDownStateData
     production_states: List[State] = None
     repair_time_model: time_model.TimeModel
+    active_breakdown: bool = False
 
     @model_validator(mode="before")
     def post_init(cls, values):
@@ -583,8 +584,10 @@ class ProcessBreakDownState(State):
                 self.env, [state.active for state in self.production_states]
             )
             debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
+            self.active_breakdown = True
             for state in self.production_states + self.resource.setup_states:
-                state.deactivate()
+                if state.active.triggered:
+                    state.deactivate()
             for state in self.production_states + self.resource.setup_states:
                 if state.process and state.process.is_alive and not state.interrupted:
                     state.interrupt_process()
@@ -596,8 +599,21 @@ class ProcessBreakDownState(State):
             yield self.env.timeout(repair_time)
             self.state_info.log_end_state(self.env.now, StateTypeEnum.process_breakdown)
             debug_logging(self, f"breakdown finished, reactivating states")
+            self.active_breakdown = False
             for state in self.production_states + self.resource.setup_states:
-                state.activate()
+                if not self.is_blocked_by_other_breakdown(state):
+                    state.activate()
+
+    def is_blocked_by_other_breakdown(self, state: State) -> bool:
+        """
+        Returns whether another active process breakdown of the resource still blocks a state.
+        """
+        return any(
+            affected is state
+            for breakdown in self.resource.states
+            if isinstance(breakdown, ProcessBreakDownState) and breakdown.active_breakdown
+            for affected in breakdown.production_states + self.resource.setup_states
+        )
 
     def wait_for_breakdown(self):
         yield self.env.timeout(self.time_model.get_next_time())
-- 
2.43.0


From ee160c73d4a409dddfe5bebe6903a8f649dd2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 03/44] fix: nearest-origin transport policies raised TypeError
 on every dispatch

---
 prodsys/simulation/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..2d7ff79 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -993,7 +993,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1009,7 +1009,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
-- 
2.43.0


From 0db43de7931526d6c497b5b8f793c3891f20a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 04/44] fix: transport resources with capacity above one
 dispatched the same request twice

---
 prodsys/simulation/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 2d7ff79..02342a5 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -730,10 +730,11 @@ class TransportController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or not self.requests:
+            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
+            self.reserved_requests_count += 1
             running_process = self.env.process(self.start_process())
             self.running_processes.append(running_process)
             if not self.resource.full:
@@ -774,6 +775,7 @@ class TransportController(Controller):
         """
         yield self.env.timeout(0)
         process_request = self.requests.pop(0)
+        self.reserved_requests_count -= 1
 
         resource = process_request.get_resource()
         process = process_request.get_process()
-- 
2.43.0


From fa61d2ffef3ff4a14a72568d6d848711d87c9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 05/44] fix: LIFO control policy alternated between latest and
 earliest request

---
 prodsys/simulation/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 02342a5..4071c55 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -947,12 +947,12 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Sort the requests according to the LIFO principle (move the latest request to the front, the others keep their order of arrival).
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From c8850e7941ad6e6fb904e90d7d904f9c805aa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 06/44] fix: work started at time zero lost its progress when
 interrupted

---
 prodsys/simulation/state.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index d079f2a..758f7ea 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -370,8 +370,6 @@ class ProductionState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
@@ -797,8 +795,6 @@ class ChargingState(State):
         self.finished_process.succeed()
 
     def update_done_in(self):
-        if self.start == 0:
-            return
         self.done_in -= (self.env.now - self.start)  # How much time left?
         if self.done_in < 0:
             self.done_in = 0
-- 
2.43.0


From d217e0ad76bcf0ac378eb330bcd3a19f3aa161cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 07/44] fix: two products could be started in the same
 production state after a setup

---
 prodsys/simulation/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 4071c55..f1534ec 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -280,9 +280,10 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
 
-            production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            # waiting and starting must not be separated by other events, otherwise the same state is used for two products
+            production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
-            yield self.env.process(self.run_process(production_state, product, process))
+            yield from self.run_process(production_state, product, process)
             production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
-- 
2.43.0


From 870ac913a90ef1157e633bc14704de8c2682a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 08/44] fix: two loads of one transport resource could share a
 transport state

---
 prodsys/simulation/control.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index f1534ec..49b49bd 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -792,18 +792,19 @@ class TransportController(Controller):
             if origin.data.ID != self._current_locatable.data.ID:
                 route_to_origin = self.find_route_to_origin(process_request)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Empty transport needed for {product.product_data.ID} from {origin.data.ID} to {target.data.ID}"})
-                transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+                # waiting and starting must not be separated by other events, otherwise the same state is used for two transports
+                transport_state: state.State = yield from self.wait_for_free_process(resource, process)
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport to pick up {product.product_data.ID} for transport"})
-                yield self.env.process(self.run_transport(transport_state, product, route_to_origin, empty_transport=True))
+                yield from self.run_transport(transport_state, product, route_to_origin, empty_transport=True)
 
             product_retrieval_events = self.get_next_product_for_process(origin, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
             product.update_location(self.resource)
 
-            transport_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            transport_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting transport of {product.product_data.ID}"})
-            yield self.env.process(self.run_transport(transport_state, product, route_to_target, empty_transport=False))
+            yield from self.run_transport(transport_state, product, route_to_target, empty_transport=False)
 
             product_put_events = self.put_product_to_input_queue(target, product)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
@@ -838,7 +839,7 @@ class TransportController(Controller):
             else:
                 last_transport_step = False
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Moving from {location.data.ID} to {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
-            yield self.env.process(self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step))
+            yield from self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             transport_state.process = None
 
-- 
2.43.0


From ff4615cf3117d24d37f35bb6d2e38d94e107580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 09/44] fix: euclidean distance metric crashed every transport

---
 prodsys/models/time_model_data.py | 4 ++--
 prodsys/simulation/time_model.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..1e07967 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -299,7 +299,7 @@ class DistanceTimeModelData(CoreAsset):
         description (str): Description of the time model.
         speed (float): Speed of the transport.
         reaction_time (float): Reaction time of the transport.
-        metric (Literal["manhattan", "euclidian"]): Metric to calculate the distance. Default is "manhattan".
+        metric (Literal["manhattan", "euclidian", "euclidean"]): Metric to calculate the distance. Default is "manhattan".
 
     Examples:
         Distance time model with speed 180 m/min = 3 m/s and reaction time 0.15 minutes:
@@ -316,7 +316,7 @@ class DistanceTimeModelData(CoreAsset):
 
     speed: float
     reaction_time: float
-    metric: Literal["manhattan", "euclidian"] = "manhattan"
+    metric: Literal["manhattan", "euclidian", "euclidean"] = "manhattan"
 
     def hash(self) -> str:
         """
diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..20460c3 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -233,7 +233,7 @@ class DistanceTimeModel(TimeModel):
         Returns:
             float: The distance between the two points.
         """
-        if self.time_model_data.metric == "euclidean":
+        if self.time_model_data.metric in ("euclidian", "euclidean"):
             return np.linalg.norm(np.array(origin) - np.array(target))
         elif self.time_model_data.metric == "manhattan":
             return np.sum(np.abs(np.array(origin) - np.array(target)))
-- 
2.43.0


From a170d4d96e63e45705b820f8944e46a2980bac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 10/44] fix: setups of machines with several slots overlapped
 with other setups and processes

---
 prodsys/simulation/control.py   | 6 ++++++
 prodsys/simulation/resources.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 49b49bd..755782b 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -273,6 +273,10 @@ class ProductionController(Controller):
         product = process_request.get_product()
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID}"})
 
+        if resource.setup_states:
+            # a setup must not be decided while another process is between its setup and its start
+            preparation = resource.preparation.request()
+            yield preparation
         yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
@@ -283,6 +287,8 @@ class ProductionController(Controller):
             # waiting and starting must not be separated by other events, otherwise the same state is used for two products
             production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
+            if resource.setup_states:
+                resource.preparation.release(preparation)
             yield from self.run_process(production_state, product, process)
             production_state.process = None
 
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..cd05195 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -201,6 +201,7 @@ class Resource(BaseModel, ABC, resource.Resource):
         resource.Resource.__init__(self, self.env, capacity=self.data.capacity)
         self.active = events.Event(self.env).succeed()
         self.got_free = events.Event(self.env)
+        self.preparation = resource.Resource(self.env, capacity=1)
         for actual_state in self.states + self.production_states + self.setup_states + self.charging_states:
             actual_state.activate_state()
         for actual_state in self.states:
-- 
2.43.0


From 35fabbcd35f2e1c5a716be734e77bd3c87255468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 11/44] fix: nearest-origin transport policies crashed on
 orders to stores

---
 prodsys/simulation/store.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index d1cb786..e3b05d1 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -117,4 +117,16 @@ class Store(Queue):
     
     def get_output_location(self):
         return self.data.output_location
+
+    def get_input_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that use the target locations queues for request ordering.
+        """
+        return len(self.items)
+
+    def get_output_queue_length(self) -> int:
+        """
+        Returns the number of items in the store. Needed for transport control policies that use the target locations queues for request ordering.
+        """
+        return len(self.items)
     
-- 
2.43.0


From 23cca3eee0e0ee54a308b4c16075bbf837b21da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 12/44] fix: batches do not share states, products of another
 process or requests

---
 prodsys/simulation/control.py | 52 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 755782b..8163fcb 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -386,11 +386,20 @@ class BatchController(Controller):
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
+            product_factory = process_request.get_product().product_router.product_factory
+            product_type = process_request.get_product().product_data.product_type
+            process_ID = process_request.process.process_data.ID
+
+            def belongs_to_batch(item) -> bool:
+                # products of the same type can wait for another process of the resource
+                return (
+                    item.product_type == product_type
+                    and product_factory.get_product(item.ID).next_prodution_process.process_data.ID == process_ID
+                )
+
             for queue in internal_input_queues:
                 while len(events) < batch_size:
-                    event = queue.get(
-                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
-                    )
+                    event = queue.get(filter=belongs_to_batch)
                     if not event:
                         break
                     events.append(event)
@@ -446,20 +455,18 @@ class BatchController(Controller):
         Yields:
             Generator: The generator yields lists of free states.
         """
-        possible_states = resource.get_processes(process)
+        batch_size = min(self.get_batch_size(resource), len(resource.get_processes(process)))
         while True:
-            free_states = resource.get_free_processes(process)
-            if free_states:
-                return free_states
+            free_states = resource.get_free_processes(process) or []
+            running_states = [
+                state
+                for state in resource.production_states
+                if state.process is not None and state.process.is_alive
+            ]
+            if len(free_states) >= batch_size and len(running_states) + batch_size <= resource.data.capacity:
+                return free_states[:batch_size]
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
-            yield events.AnyOf(
-                self.env,
-                [
-                    state.process
-                    for state in possible_states
-                    if state.process is not None and state.process.is_alive
-                ],
-            )
+            yield events.AnyOf(self.env, [state.process for state in running_states])
 
     def control_loop(self) -> Generator:
         """
@@ -488,7 +495,7 @@ class BatchController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
+            if self.resource.full or len(self.requests) < batch_size or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
@@ -535,13 +542,14 @@ class BatchController(Controller):
                 simulation_product = product.product_router.product_factory.get_product(product_data.ID)
                 products.append(simulation_product)
 
-            for simulation_product in products:
-                production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
-
+            # waiting and starting must not be separated by other events, otherwise the same states are used for two batches
+            production_states: List[state.State] = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
-            yield self.env.process(self.run_process(production_states, products, process))
-            for state in production_states:
-                state.process = None
+            yield from self.run_process(production_states, products, process)
+            for production_state in production_states:
+                # the state can already be used by the next batch
+                if production_state.process is not None and not production_state.process.is_alive:
+                    production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From 35161d42b584cb2ac4f1cfd44e06ca9bf2975fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 13/44] fix: resources charge between processes, not while
 working or after starting another one

---
 prodsys/simulation/control.py | 38 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 8163fcb..d510795 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -230,17 +230,19 @@ class ProductionController(Controller):
         """
         while True:
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
-            if self.resource.requires_charging:
-                yield self.env.process(self.resource.charge())
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.requested.triggered:
-                self.requested = events.Event(self.env)
-            for process in self.running_processes:
+            for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
+            charging_required = self.resource.requires_charging
+            if charging_required and not self.running_processes:
+                yield self.env.process(self.resource.charge())
+                charging_required = False
+            if self.requested.triggered:
+                self.requested = events.Event(self.env)
+            if self.resource.full or charging_required or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full}) or all requests reserved ({self.reserved_requests_count == len(self.requests)})"})
                 continue
             self.control_policy(self.requests)
@@ -490,12 +492,16 @@ class BatchController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.requested.triggered:
-                self.requested = events.Event(self.env)
-            for process in self.running_processes:
+            for process in list(self.running_processes):
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or len(self.requests) < batch_size or self.reserved_requests_count == len(self.requests):
+            charging_required = self.resource.requires_charging
+            if charging_required and not self.running_processes:
+                yield self.env.process(self.resource.charge())
+                charging_required = False
+            if self.requested.triggered:
+                self.requested = events.Event(self.env)
+            if self.resource.full or charging_required or len(self.requests) < batch_size or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
@@ -738,14 +744,16 @@ class TransportController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.resource.requires_charging:
+            for process in list(self.running_processes):
+                if not process.is_alive:
+                    self.running_processes.remove(process)
+            charging_required = self.resource.requires_charging
+            if charging_required and not self.running_processes:
                 yield self.env.process(self.resource.charge())
+                charging_required = False
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
-            for process in self.running_processes:
-                if not process.is_alive:
-                    self.running_processes.remove(process)
-            if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
+            if self.resource.full or charging_required or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-- 
2.43.0


From e054881fd77dd734c199e5421aa95f6005898e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 14/44] fix: batch machines kept orders they had performed and
 waited for products of another type

---
 prodsys/simulation/control.py | 74 +++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index d510795..e9a6e19 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from collections.abc import Callable
 from pydantic import BaseModel, ConfigDict, Field, field_validator, ValidationInfo
-from typing import List, Generator, TYPE_CHECKING, Literal, Optional, Union
+from typing import Dict, List, Generator, TYPE_CHECKING, Literal, Optional, Tuple, Union
 import numpy as np
 import random
 
@@ -367,45 +367,54 @@ class BatchController(Controller):
         else:
             raise ValueError("Resource is not a ProductionResource")
 
+    def get_next_batch(self) -> List[request_module.Request]:
+        """
+        Get the requests of the next batch, i.e. the first requests (in the order of the control policy) of
+        products of the same type for the same process that fill a batch.
+
+        Returns:
+            List[request_module.Request]: The requests of the batch, empty if no batch can be filled.
+        """
+        batch_size = self.get_batch_size(self.resource)
+        batches: Dict[Tuple[str, str], List[request_module.Request]] = {}
+        for process_request in self.requests:
+            key = (
+                process_request.get_product().product_data.product_type,
+                process_request.get_process().process_data.ID,
+            )
+            batch = batches.setdefault(key, [])
+            batch.append(process_request)
+            if len(batch) == batch_size:
+                return batch
+        return []
+
     def get_next_product_for_process(
-        self, resource: resources.Resource, process_request: request_module.Request
+        self, resource: resources.Resource, process_requests: List[request_module.Request]
     ) -> List[events.Event]:
         """
         Get the next batch of products for a process. The products are removed (get) from the input queues of the resource.
 
         Args:
             resource (resources.Resource): The resource to take the products from.
-            process_request (request_module.Request): The request that is requesting the products.
+            process_requests (List[request_module.Request]): The requests of the batch.
 
         Returns:
             List[events.Event]: The events that are triggered when the products are taken from the queue.
         """
         events = []
         if isinstance(resource, resources.ProductionResource):
-            batch_size = self.get_batch_size(resource)
             internal_input_queues = [
                 queue
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
-            product_factory = process_request.get_product().product_router.product_factory
-            product_type = process_request.get_product().product_data.product_type
-            process_ID = process_request.process.process_data.ID
-
-            def belongs_to_batch(item) -> bool:
-                # products of the same type can wait for another process of the resource
-                return (
-                    item.product_type == product_type
-                    and product_factory.get_product(item.ID).next_prodution_process.process_data.ID == process_ID
-                )
-
-            for queue in internal_input_queues:
-                while len(events) < batch_size:
-                    event = queue.get(filter=belongs_to_batch)
-                    if not event:
+            for process_request in process_requests:
+                product_data = process_request.get_product().product_data
+                for queue in internal_input_queues:
+                    if product_data in queue.items:
+                        events.append(queue.get(filter=lambda item, product_data=product_data: item is product_data))
                         break
-                    events.append(event)
-            if not events:
+            if len(events) < len(process_requests):
                 raise ValueError("No products available in the queue to fulfill the batch size requirement")
             return events
         else:
@@ -501,18 +510,23 @@ class BatchController(Controller):
                 charging_required = False
             if self.requested.triggered:
                 self.requested = events.Event(self.env)
-            if self.resource.full or charging_required or len(self.requests) < batch_size or self.reserved_requests_count == len(self.requests):
+            if self.resource.full or charging_required or len(self.requests) < batch_size:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-            self.reserved_requests_count += 1
-            running_process = self.env.process(self.start_process())
+            batch = self.get_next_batch()
+            if not batch:
+                logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests for the same process and product type ({len(self.requests)})"})
+                continue
+            for process_request in batch:
+                self.requests.remove(process_request)
+            running_process = self.env.process(self.start_process(batch))
             self.running_processes.append(running_process)
-            if not self.resource.full:
+            if self.requests:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Triggered requested event after process"})
                 self.requested.succeed()
 
-    def start_process(self) -> Generator:
+    def start_process(self, process_requests: List[request_module.Request]) -> Generator:
         """
         Start the next process with the following logic:
 
@@ -522,14 +536,16 @@ class BatchController(Controller):
         4. Run the process and wait until finished.
         5. Place the product in the output queue.
 
+        Args:
+            process_requests (List[request_module.Request]): The requests of the batch.
+
         Yields:
             Generator: The generator yields when the process is finished.
         """
         batch_size = self.get_batch_size(self.resource)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
         yield self.env.timeout(0)
-        process_request = self.requests.pop(0)
-        self.reserved_requests_count -= 1
+        process_request = process_requests[0]
         resource = process_request.get_resource()
         process = process_request.get_process()
         product = process_request.get_product()
@@ -540,7 +556,7 @@ class BatchController(Controller):
         yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
-            product_retrieval_events = self.get_next_product_for_process(resource, process_request)
+            product_retrieval_events = self.get_next_product_for_process(resource, process_requests)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve products for batch from queue"})
             product_data_list = yield events.AllOf(resource.env, product_retrieval_events)
 
-- 
2.43.0


From 93b117341dc442c4b3ade9ee7ff12d99e6b92e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 15/44] fix: machines counted dispatched orders twice and left
 free capacity idle

---
 prodsys/simulation/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index cd05195..1265ad5 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -122,7 +122,7 @@ class Resource(BaseModel, ABC, resource.Resource):
             return True
         return (
             self.capacity_current_setup
-            - (len(self.controller.running_processes) + self.controller.reserved_requests_count)
+            - len(self.controller.running_processes)
         ) <= 0
     
     @property
-- 
2.43.0


From d3904e5c7296c13d475ef55227ce55ec56148fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 16/44] fix: capacity of machines without setups was limited by
 their first process

---
 prodsys/simulation/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 1265ad5..2c1a6c6 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -66,7 +66,7 @@ class Resource(BaseModel, ABC, resource.Resource):
         Returns:
             int: The capacity of the resource for the current setup.
         """
-        if not self.current_setup and not self.reserved_setup:
+        if not self.setup_states or (not self.current_setup and not self.reserved_setup):
             return self.capacity
         elif (
             self.reserved_setup
-- 
2.43.0


From 876a61d74eb6302ea2a9e72263052e3e36864a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 17/44] fix: a transport state taken over by another load was
 released and used twice

---
 prodsys/simulation/control.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index e9a6e19..fb24fb7 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -879,7 +879,12 @@ class TransportController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Moving from {location.data.ID} to {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
             yield from self.run_process(transport_state, product, target=next_location, empty_transport=empty_transport, initial_transport_step=initial_transport_step, last_transport_step=last_transport_step)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Arrived at {next_location.data.ID}", "empty_transport": True, "initial_transport_step": initial_transport_step, "last_transport_step": last_transport_step})
-            transport_state.process = None
+            # another load of the resource can have taken the state at the end of this movement
+            if transport_state.process is None or not transport_state.process.is_alive:
+                transport_state.process = None
+            elif not last_transport_step:
+                process = next(p for p in self.resource.processes if p.process_data.ID == transport_state.state_data.ID)
+                transport_state = yield from self.wait_for_free_process(self.resource, process)
 
     
     def get_target_location(self, target: product.Locatable, empty_transport: bool, last_transport_step: bool) -> list[float]:
-- 
2.43.0


From 0e820cb0de7bd9880e8a822f7307cc2ee5051791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 18/44] fix: sources that use the same schedule shared one
 position in it

---
 prodsys/factories/source_factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prodsys/factories/source_factory.py b/prodsys/factories/source_factory.py
index 52dd669..912b4c1 100644
--- a/prodsys/factories/source_factory.py
+++ b/prodsys/factories/source_factory.py
@@ -6,7 +6,7 @@ from typing import Dict, List, TYPE_CHECKING
 from pydantic import BaseModel, ConfigDict, Field
 
 
-from prodsys.simulation import router, sim, source
+from prodsys.simulation import router, sim, source, time_model as time_models
 from prodsys.models.product_data import ProductData
 from prodsys.models.source_data import SourceData
 
@@ -77,6 +77,9 @@ class SourceFactory(BaseModel):
         router = self.get_router(source_data.routing_heuristic)
 
         time_model = self.time_model_factory.get_time_model(source_data.time_model_id)
+        if isinstance(time_model, time_models.ScheduledTimeModel):
+            # the position in the schedule belongs to the source, also if several sources use the time model
+            time_model = time_models.ScheduledTimeModel(time_model_data=time_model.time_model_data)
 
         source_object = source.Source(
             env=self.env,
-- 
2.43.0


From 8dfba347209967ca66086fae25dcbfa0d75761ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 19/44] fix: a source stopped at an arrival at time zero or at
 simultaneous arrivals of a schedule

---
 prodsys/simulation/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/source.py b/prodsys/simulation/source.py
index 8992630..0880504 100644
--- a/prodsys/simulation/source.py
+++ b/prodsys/simulation/source.py
@@ -79,7 +79,8 @@ class Source(BaseModel):
         """
         while True:
             inter_arrival_time = self.time_model.get_next_time()
-            if inter_arrival_time <= 0:
+            # products of a schedule can arrive at the same time or at the start of the simulation
+            if inter_arrival_time < 0 or (inter_arrival_time == 0 and not isinstance(self.time_model, time_model.ScheduledTimeModel)):
                 logger.debug({"ID": self.data.ID, "sim_time": self.env.now, "resource": self.data.ID, "event": f"Inter arrival time is less than or equal to 0. Stopping source."})
                 break
             yield self.env.timeout(
-- 
2.43.0


From 7d6e071be7d3dab26c7a125e6c2f02ac6e578750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 20/44] fix: states without duration logged their end but no
 start

---
 prodsys/simulation/state.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 758f7ea..971cb1b 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -339,6 +339,8 @@ class ProductionState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(self.env.now, self.env.now, StateTypeEnum.production)
         while self.done_in:
             try:
                 if self.interrupted:
@@ -449,6 +451,8 @@ class TransportState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(self.env.now, self.env.now, StateTypeEnum.transport)
         while self.done_in:
             try:
                 if self.interrupted:
@@ -671,6 +675,8 @@ class SetupState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(self.env.now, self.env.now, StateTypeEnum.setup)
         while self.done_in:
             try:
                 if self.interrupted:
@@ -764,6 +770,8 @@ class ChargingState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(self.env.now, self.env.now, StateTypeEnum.charging)
         while self.done_in:
             try:
                 if self.interrupted:
-- 
2.43.0


From b5683810dbdd2d8a9d766d44c026413fdde3023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 21/44] fix: time of resources was attributed to wrong states

---
 prodsys/util/post_processing.py | 80 +++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..116f65d 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -6,7 +6,7 @@ from functools import cached_property
 from prodsys.simulation import state
 from prodsys.models import performance_indicators
 
-from typing import List, Literal
+from typing import List, Literal, Optional, Tuple
 
 import pandas as pd
 
@@ -433,6 +433,42 @@ class PostProcessor:
 
         return df_tp
 
+    def get_active_states(self, df: pd.DataFrame) -> Tuple[List[int], List[Optional[str]]]:
+        """
+        Determines for every event which states of the resource are active after all events of this time.
+
+        Args:
+            df (pd.DataFrame): Prepared data frame (df_prepared), whose index is the order of the events in the log.
+
+        Returns:
+            Tuple[List[int], List[Optional[str]]]: Number of running processes and the time type of the active breakdown, charging or setup, if there is one.
+        """
+        active = {}
+        result = {}
+        df_log = df.sort_index()
+        for time, resource, state_type, activity, state_id, product in zip(
+            df_log["Time"], df_log["Resource"], df_log["State Type"], df_log["Activity"], df_log["State"], df_log["Product"]
+        ):
+            states = active.setdefault(resource, {"UD": set(), "CR": set(), "ST": set(), "PR": set()})
+            entry, entries = state_id, None
+            if state_type == state.StateTypeEnum.breakdown:
+                entries = states["UD"]
+            elif state_type == state.StateTypeEnum.charging:
+                entries = states["CR"]
+            elif state_type == state.StateTypeEnum.setup:
+                entries = states["ST"]
+            elif state_type in (state.StateTypeEnum.production, state.StateTypeEnum.transport):
+                entry, entries = (state_id, product), states["PR"]
+            if entries is not None and activity == "start state":
+                entries.add(entry)
+            elif entries is not None and activity == "end state":
+                entries.discard(entry)
+            result[resource, time] = (
+                len(states["PR"]), next((key for key in ("UD", "CR", "ST") if states[key]), None)
+            )
+        result = [result[key] for key in zip(df["Resource"], df["Time"])]
+        return [used for used, _ in result], [time_type for _, time_type in result]
+
     @cached_property
     def df_resource_states(self) -> pd.DataFrame:
         """
@@ -448,44 +484,19 @@ class PostProcessor:
             pd.DataFrame: Data frame with the machine states and the time spent in each state.
         """
         df = self.df_prepared.copy()
-        positive_condition = (
-            (df["State_type"] == "Process State")
-            & (df["Activity"] == "start state")
-            & (df["State Type"] != state.StateTypeEnum.setup)
-            & (df["State Type"] != state.StateTypeEnum.breakdown)
-            & (df["State Type"] != state.StateTypeEnum.charging)
-        )
-        negative_condition = (
-            (df["State_type"] == "Process State")
-            & (df["Activity"] == "end state")
-            & (df["State Type"] != state.StateTypeEnum.setup)
-            & (df["State Type"] != state.StateTypeEnum.breakdown)
-            & (df["State Type"] != state.StateTypeEnum.charging)
-        )
-
-        df["Increment"] = 0
-        df.loc[positive_condition, "Increment"] = 1
-        df.loc[negative_condition, "Increment"] = -1
-
-        df["Used_Capacity"] = df.groupby(by="Resource")["Increment"].cumsum()
+        df["Used_Capacity"], interface_time_type = self.get_active_states(df)
 
         df_resource_types = df[["Resource", "State Type"]].drop_duplicates().copy()
         resource_types_dict = pd.Series(df_resource_types["State Type"].values, index=df_resource_types["Resource"].values).to_dict()
         for resource in df["Resource"].unique():
             if resource_types_dict[resource] in {state.StateTypeEnum.source, state.StateTypeEnum.sink}:
                 continue
-            example_row = (
-                df.loc[
-                    (df["Resource"] == resource)
-                    & (
-                        ((df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0))
-                        | (df["State_sorting_Index"] == 3)
-                    )
-                ]
-                .copy()
-                .head(1)
-            )
+            example_row = df.loc[df["Resource"] == resource].copy().head(1)
             example_row["Time"] = 0.0
+            example_row["Activity"] = None
+            example_row["State_sorting_Index"] = 3
+            example_row["Used_Capacity"] = 0
+            interface_time_type = [None] + interface_time_type
             df = pd.concat([example_row, df]).reset_index(drop=True)
 
         df["next_Time"] = df.groupby("Resource")["Time"].shift(-1)
@@ -493,10 +504,10 @@ class PostProcessor:
         df["time_increment"] = df["next_Time"] - df["Time"]
 
         STANDBY_CONDITION = (
-            (df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0)
+            df["State_sorting_Index"].isin([5, 6]) & (df["Used_Capacity"] == 0)
         ) | (df["State_sorting_Index"] == 3)
         PRODUCTIVE_CONDITION = (
-            (df["State_sorting_Index"] == 6)
+            ((df["State_sorting_Index"] == 6) & (df["Used_Capacity"] != 0))
             | (df["State_sorting_Index"] == 4)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
@@ -515,6 +526,7 @@ class PostProcessor:
         df.loc[DOWN_CONDITION, "Time_type"] = "UD"
         df.loc[SETUP_CONDITION, "Time_type"] = "ST"
         df.loc[CHARGING_CONDITION, "Time_type"] = "CR"
+        df["Time_type"] = pd.Series(interface_time_type, index=df.index).fillna(df["Time_type"])
 
         return df
 
-- 
2.43.0


From 339846dbbdd69a251862cba3ee6f1909c43199c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 22/44] fix: dynamic throughput time and WIP KPIs raised errors

---
 prodsys/util/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 116f65d..4985347 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -320,7 +320,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
@@ -1173,7 +1173,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From 4e43b62bcffaef6d866971c2ccc339cee3ebe7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 23/44] fix: hashes of auxiliaries depended on the order of
 queues and processes and not on the order of their storages

---
 prodsys/models/auxiliary_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/models/auxiliary_data.py b/prodsys/models/auxiliary_data.py
index aebe15e..19580af 100644
--- a/prodsys/models/auxiliary_data.py
+++ b/prodsys/models/auxiliary_data.py
@@ -55,9 +55,11 @@ class AuxiliaryData(CoreAsset):
         relevant_processes_hashes = []
         relevant_transport_processes_hashes = []
 
-        for queue in adapter.queue_data:
-            if queue.ID in self.storages:
-                storages_hashes.append(queue.hash())
+        for storage_id in self.storages:
+            for queue in adapter.queue_data:
+                if queue.ID == storage_id:
+                    storages_hashes.append(queue.hash())
+                    break
         for process in adapter.process_data:
             if process.ID in self.relevant_processes:
                 relevant_processes_hashes.append(process.hash(adapter))
@@ -66,4 +68,4 @@ class AuxiliaryData(CoreAsset):
             if process.ID == self.transport_process:
                 transport_processes_hash = process.hash(adapter)
         
-        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *relevant_processes_hashes, *relevant_transport_processes_hashes])]).encode("utf-8")).hexdigest()
\ No newline at end of file
+        return md5("".join([*map(str, [self.auxiliary_type, self.quantity_in_storages, transport_processes_hash, *storages_hashes, *self.quantity_in_storages, *sorted(relevant_processes_hashes), *sorted(relevant_transport_processes_hashes)])]).encode("utf-8")).hexdigest()
\ No newline at end of file
-- 
2.43.0


From 8fe11c17abc61ff4ffcd61a3a7fbc32fb39f3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 24/44] fix: transport processes with only loading and with
 only unloading had the same hash

---
 prodsys/models/processes_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodsys/models/processes_data.py b/prodsys/models/processes_data.py
index 17a4637..61809c1 100644
--- a/prodsys/models/processes_data.py
+++ b/prodsys/models/processes_data.py
@@ -269,6 +269,9 @@ class TransportProcessData(ProcessData):
                 if time_model.ID == self.unloading_time_model_id:
                     unloading_time_model_hash = time_model.hash()
                     break
+        if unloading_time_model_hash and not loading_time_model_hash:
+            # only unloading takes time, which is different from only loading
+            loading_time_model_hash = "no loading time model"
         input_data = (
             base_class_hash + loading_time_model_hash + unloading_time_model_hash
         )
-- 
2.43.0


From 9a4ca63a493561ee6ebf796f37fb534ad839e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 25/44] fix: resources whose processes exchanged their
 capacities had the same hash

---
 prodsys/models/resource_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..4d681b4 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -135,14 +135,16 @@ class ResourceData(CoreAsset, Locatable):
             else:
                 raise ValueError(f"Process with ID {process_id} not found for resource {self.ID}.")
 
+        hashes_with_capacities = sorted(zip(process_hashes, self.process_capacities))
+
         return md5((
             "".join(
                 [
                     base_class_hash,
                     str(self.capacity), 
                     self.controller, 
-                    *sorted(process_hashes), 
-                    *map(str, self.process_capacities), 
+                    *[process_hash for process_hash, _ in hashes_with_capacities], 
+                    *[str(process_capacity) for _, process_capacity in hashes_with_capacities], 
                     *sorted(state_hashes)
                 ]
             )
-- 
2.43.0


From 804454d22b340300c54b485f32a5cead1698f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 26/44] fix: processes were found by a part of their ID, e.g.
 P1 instead of TP1

---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From e6bcf9befee9d184b7521e7ba4473a29d4399e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 27/44] fix: converting an express production system raised
 UnboundLocalError on Python 3.12

---
 prodsys/express/production_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..29db355 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [state_instance.time_model for state_instance in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -137,8 +137,8 @@ class ProductionSystem(core.ExpressObject):
         time_models = remove_duplicate_items(time_models)
 
         time_model_data = [time_model.to_model() for time_model in time_models]
-        process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        process_data = [process_instance.to_model() for process_instance in processes]
+        state_data = [state_instance.to_model() for state_instance in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 67cb509144c38fb7457ecf2539cc0868839ce62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 28/44] fix: stores lost their locations when a configuration
 was written or made from data

---
 prodsys/adapters/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..023c1df 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -293,7 +293,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From 4114095793c55ef91999efc6b99c5edf633cdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 29/44] fix: configurations with dangling references raised
 KeyError or TypeError instead of a validation error

---
 prodsys/adapters/adapter.py | 47 ++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 023c1df..1691d33 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -72,6 +72,25 @@ def get_set_of_IDs(list_of_objects: List[Any]) -> Set[str]:
     return set([obj.ID for obj in list_of_objects])
 
 
+def get_validated_data(values: dict, field: str) -> List[Any]:
+    """
+    Returns the already validated data of a field that other fields reference. If the field itself is invalid, it is missing from the validated values.
+
+    Args:
+        values (dict): Validated values of the adapter
+        field (str): Name of the referenced field
+
+    Raises:
+        ValueError: If the field is missing or faulty.
+
+    Returns:
+        List[Any]: Validated data of the field
+    """
+    if field not in values:
+        raise ValueError(f"{field} is missing or faulty.")
+    return values[field]
+
+
 def get_default_queues_for_resource(
     resource: resource_data_module.ProductionResourceData,
     queue_capacity: Union[float, int] = 0.0,
@@ -716,7 +735,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_states(cls, states: List[state_data_module.STATE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for state in states:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if state.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {state.time_model_id} of state {state.ID} is not a valid time model of {time_models}."
@@ -729,7 +748,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         for process in processes:
             if isinstance(process, processes_data_module.CompoundProcessData) or isinstance(process, processes_data_module.RequiredCapabilityProcessData):
                 continue
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if process.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {process.time_model_id} of process {process.ID} is not a valid time model of {time_models}."
@@ -740,20 +759,20 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_resources(cls, resources: List[resource_data_module.RESOURCE_DATA_UNION], info: ValidationInfo):
         values = info.data
         for resource in resources:
-            processes = get_set_of_IDs(values["process_data"])
+            processes = get_set_of_IDs(get_validated_data(values, "process_data"))
             for process in resource.process_ids:
                 if process not in processes:
                     raise ValueError(
                         f"The process {process} of resource {resource.ID} is not a valid process of {processes}."
                     )
-            states = get_set_of_IDs(values["state_data"])
+            states = get_set_of_IDs(get_validated_data(values, "state_data"))
             for state in resource.state_ids:
                 if state not in states:
                     raise ValueError(
                         f"The state {state} of resource {resource.ID} is not a valid state of {states}."
                     )
             if isinstance(resource, resource_data_module.ProductionResourceData):
-                queues = get_set_of_IDs(values["queue_data"])
+                queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
                 if resource.input_queues and resource.output_queues:
                     for queue in resource.input_queues + resource.output_queues:
                         if queue not in queues:
@@ -764,7 +783,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
                     input_queues, output_queues = get_default_queues_for_resource(resource)
                     resource.input_queues = list(get_set_of_IDs(input_queues))
                     resource.output_queues = list(get_set_of_IDs(output_queues))
-                    values["queue_data"] += input_queues + output_queues
+                    get_validated_data(values, "queue_data").extend(input_queues + output_queues)
 
         return resources
 
@@ -772,9 +791,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_products(cls, products: List[product_data_module.ProductData], info: ValidationInfo):
         values = info.data
         for product in products:
-            all_processes = get_set_of_IDs(values["process_data"])
+            all_processes = get_set_of_IDs(get_validated_data(values, "process_data"))
             if product.transport_process not in all_processes:
-                raise ValidationError(
+                raise ValueError(
                     f"The transport process {product.transport_process} of product {product.ID} is not a valid process of {all_processes}."
                 )
             required_processes = set()
@@ -810,15 +829,15 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not sink.input_queues:
                 input_queue = get_default_queue_for_sink(sink)
                 sink.input_queues = list(get_set_of_IDs([input_queue]))
-                values["queue_data"] += [input_queue]
+                get_validated_data(values, "queue_data").extend([input_queue])
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
             for q in sink.input_queues:
                 if q not in queues:
                     raise ValueError(
                         f"The queue {q} of sink {sink.ID} is not a valid queue of {queues}."
                     )
-                for queue in values["queue_data"]:
+                for queue in get_validated_data(values, "queue_data"):
                     if queue.ID == q:
                         if queue.capacity != 0:
                             logger.warning(
@@ -831,7 +850,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     def check_sources(cls, sources: List[source_data_module.SourceData], info: ValidationInfo):
         values = info.data
         for source in sources:
-            time_models = get_set_of_IDs(values["time_model_data"])
+            time_models = get_set_of_IDs(get_validated_data(values, "time_model_data"))
             if source.time_model_id not in time_models:
                 raise ValueError(
                     f"The time model {source.time_model_id} of source {source.ID} is not a valid time model of {time_models}."
@@ -847,9 +866,9 @@ class ProductionSystemAdapter(ABC, BaseModel):
             if not source.output_queues:
                 output_queue = get_default_queue_for_source(source)
                 source.output_queues = list(get_set_of_IDs([output_queue]))
-                values["queue_data"] += [output_queue]
+                get_validated_data(values, "queue_data").extend([output_queue])
                 continue
-            queues = get_set_of_IDs(values["queue_data"])
+            queues = get_set_of_IDs(get_validated_data(values, "queue_data"))
             for q in source.output_queues:
                 if q not in queues:
                     raise ValueError(
-- 
2.43.0


From 8b3265b37b708d266a980497c3915c15aae23b46 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 30/44] fix: moves of auxiliaries raised IndexError when no
 product requires an auxiliary

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..927398c 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -333,6 +333,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -357,6 +359,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
-- 
2.43.0


From 52ffe48703192cee88e30b3312ba01ce2af4c7c5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 31/44] fix: changing a policy raised ValueError when the
 current policy is not among the options

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 927398c..4759b2a 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -393,7 +393,8 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
 
     if len(possible_control_policies) < 2:
         return False
-    possible_control_policies.remove(resource.control_policy)
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -412,7 +413,8 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     )
     if len(possible_routing_policies) < 2:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From fa758d08e79662f7d1cebc844e102d8dfba69297 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 32/44] fix: moving a process module gave a machine the same
 process twice

---
 prodsys/optimization/adapter_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 4759b2a..1fc89a0 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -268,7 +268,8 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
         from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From 9438f154288b781446a6e4916f0551f5536d24a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 33/44] fix: partial crossover lost or duplicated the machines
 by which one parent is larger

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 1fc89a0..71ebe0a 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            remaining_machines_1 = machines_1[min_length:]
+            remaining_machines_2 = machines_2[min_length:]
+            machines_1 = machines_1[:min_length] + remaining_machines_2
+            machines_2 = machines_2[:min_length] + remaining_machines_1
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 7e134b1b5af4b49b47d7d680ec9accede22f37bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 34/44] fix: cleaning out breakdown states also removed setup
 and charging states of resources

---
 prodsys/optimization/util.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..2331d67 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -342,7 +342,20 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
+    breakdown_state_ids = set(
+        [
+            state.ID
+            for state in adapter_object.state_data
+            if isinstance(state, state_data.BreakDownStateData)
+            or isinstance(state, state_data.ProcessBreakDownStateData)
+        ]
+    )
     for resource in adapter_object.resource_data:
+        other_state_ids = [
+            state_id
+            for state_id in resource.state_ids
+            if state_id not in breakdown_state_ids
+        ]
         if isinstance(resource, resource_data.ProductionResourceData) and any(
             True
             for state in adapter_object.state_data
@@ -350,8 +363,11 @@ def clean_out_breakdown_states_of_resources(
             or BreakdownStateNamingConvention.PROCESS_MODULE_BREAKDOWN_STATE.value
             in state.ID
         ):
-            resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
-                resource.process_ids, adapter_object
+            resource.state_ids = (
+                get_breakdown_state_ids_of_machine_with_processes(
+                    resource.process_ids, adapter_object
+                )
+                + other_state_ids
             )
         elif isinstance(resource, resource_data.TransportResourceData) and any(
             True
@@ -361,7 +377,7 @@ def clean_out_breakdown_states_of_resources(
         ):
             resource.state_ids = [
                 BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
-            ]
+            ] + other_state_ids
 
 
 def get_weights(
-- 
2.43.0


From dec11ab83ee5cbcdf6acc12a5833f2350559b7d5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 35/44] fix: mutation kept the ID when only queues, states or
 process capacities changed

---
 prodsys/optimization/adapter_manipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 71ebe0a..19b6835 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -453,8 +453,8 @@ def get_mutation_operations(
 def mutation(individual):
     mutation_operation = random.choice(get_mutation_operations(individual[0]))
     adapter_object = individual[0]
-    if mutation_operation(adapter_object):
-        individual[0].ID = str(uuid1())
+    mutation_operation(adapter_object)
+    individual[0].ID = str(uuid1())
     add_default_queues_to_resources(adapter_object)
     clean_out_breakdown_states_of_resources(adapter_object)
     adjust_process_capacities(adapter_object)
-- 
2.43.0


From 0be19e6134b75c0bb1c14d7dc87683cf2040f587 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 36/44] fix: partial crossover could give two machines of a
 configuration the same ID

---
 prodsys/optimization/adapter_manipulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 19b6835..69e39a0 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -46,6 +46,11 @@ def crossover(ind1, ind2):
             remaining_machines_2 = machines_2[min_length:]
             machines_1 = machines_1[:min_length] + remaining_machines_2
             machines_2 = machines_2[:min_length] + remaining_machines_1
+            for machines in (machines_1, machines_2):
+                kept_ids = [machine.ID for machine in machines[:min_length]]
+                for machine in machines[min_length:]:
+                    if machine.ID in kept_ids:
+                        machine.ID = str(uuid1())
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 927e6e8728928310ab0a5db21bc66a396072c2b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 37/44] fix: adding auxiliaries ignored other auxiliaries in a
 storage and refused unlimited storages

---
 prodsys/optimization/adapter_manipulation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 69e39a0..0dd3f17 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -350,7 +350,15 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         for queue in adapter_object.queue_data
         if queue.ID == auxiliary.storages[storage_index]
     ][0]
-    if queue.capacity == auxiliary.quantity_in_storages[storage_index]:
+    number_of_stored_auxiliaries = sum(
+        quantity
+        for stored_auxiliary in adapter_object.auxiliary_data
+        for storage, quantity in zip(
+            stored_auxiliary.storages, stored_auxiliary.quantity_in_storages
+        )
+        if storage == queue.ID
+    )
+    if queue.capacity and number_of_stored_auxiliaries >= queue.capacity:
         return False
     auxiliary.quantity_in_storages[storage_index] += 1
     return True
-- 
2.43.0


From f3ab09602ae318a6af13f933f7bcc7dcffdc0b93 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 38/44] fix: reconfiguration costs raised TypeError without
 optional auxiliary or process module costs

---
 prodsys/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..2bb2413 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -30,7 +30,7 @@ def get_process_module_cost(
         if isinstance(process_module_cost, dict):
             process_cost = process_module_cost.get(process, 0)
         else:
-            process_cost = process_module_cost
+            process_cost = process_module_cost or 0
         sum_process_module_cost += max(
             0,
             (
@@ -99,7 +99,7 @@ def get_auxiliary_cost(
             auxiliary_cost += max(
                 0,
                 (storage - storage_before)
-                * adapter_object.scenario_data.info.auxiliary_cost,
+                * (adapter_object.scenario_data.info.auxiliary_cost or 0),
             )
     return auxiliary_cost
 
-- 
2.43.0


From 98e87059801b3ab681630706ccc3c6e4e3a67ae8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 39/44] fix: random auxiliary capacities could exceed the
 capacity of a shared storage

---
 prodsys/optimization/adapter_manipulation.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 0dd3f17..4ea434d 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -538,15 +538,28 @@ def get_random_auxiliary_capacity(
     available_storage_capacities = {
         queue.ID: queue.capacity for queue in adapter_object.queue_data
     }
+    unlimited_storages = [
+        queue_id
+        for queue_id, capacity in available_storage_capacities.items()
+        if capacity == 0
+    ]
+    for auxiliary in adapter_object.auxiliary_data:
+        if auxiliary in required_auxiliaries:
+            continue
+        for storage, quantity in zip(
+            auxiliary.storages, auxiliary.quantity_in_storages
+        ):
+            available_storage_capacities[storage] -= quantity
     for auxiliary in required_auxiliaries:
         for storage_index, storage in enumerate(auxiliary.storages):
-            if available_storage_capacities[storage] == 0:
+            if storage in unlimited_storages:
+                continue
+            if available_storage_capacities[storage] <= 0:
+                auxiliary.quantity_in_storages[storage_index] = 0
                 continue
             random_capacity = random.choice(
                 range(1, available_storage_capacities[storage] + 1)
             )
-            if available_storage_capacities[storage] - random_capacity < 0:
-                random_capacity = available_storage_capacities[storage]
             auxiliary.quantity_in_storages[storage_index] = random_capacity
             available_storage_capacities[storage] -= random_capacity
     return adapter_object
-- 
2.43.0


From bece25c09a691c1d69e46e461088a01d4bfd15be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 40/44] fix: positions of machines with an input location of
 their own were always refused

---
 prodsys/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2bb2413..e80a4c2 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -143,7 +143,7 @@ def valid_positions(configuration: adapters.ProductionSystemAdapter) -> bool:
         return False
 
     positions = [
-        machine.input_location
+        machine.location
         for machine in adapters.get_production_resources(configuration)
     ]
     possible_positions = configuration.scenario_data.options.positions
-- 
2.43.0


From 55a8274ac454a0a767520d3db878eb17fc6633c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 41/44] fix: resources without processes, as chosen by
 optimizers, could be written but not read

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 4d681b4..80483cd 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From 1e699dc6a32d2dc0e8b40c1315658afeab441858 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 42/44] fix: batches of a last-come machine were not the latest
 requests

---
 prodsys/simulation/control.py | 7 +++++--
 prodsys/simulation/request.py | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index fb24fb7..5181fc3 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -52,6 +52,7 @@ class Controller(ABC, BaseModel):
     requests: List[request_module.Request] = Field(init=False, default_factory=list)
     running_processes: List[events.Process] = []
     reserved_requests_count: int = 0
+    received_requests_count: int = 0
 
     @field_validator("requested", mode="before")
     def init_requested(cls, v, info: ValidationInfo):
@@ -71,6 +72,8 @@ class Controller(ABC, BaseModel):
         Args:
             process_request (Request): The request to be processed.
         """
+        process_request.arrival_index = self.received_requests_count
+        self.received_requests_count += 1
         self.requests.append(process_request)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Got requested by {process_request.product.product_data.ID}"})
         if not self.requested.triggered:
@@ -992,12 +995,12 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (move the latest request to the front, the others keep their order of arrival).
+    Sort the requests according to the LIFO principle (latest request first).
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.insert(0, requests.pop())
+    requests.sort(key=lambda x: x.arrival_index, reverse=True)
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
diff --git a/prodsys/simulation/request.py b/prodsys/simulation/request.py
index 52fe139..57ac8a0 100644
--- a/prodsys/simulation/request.py
+++ b/prodsys/simulation/request.py
@@ -26,8 +26,13 @@ class Request:
         process (process.PROCESS_UNION): The process.
         product (product.Product): The product.
         resource (resources.Resource): The resource.
+
+    Attributes:
+        arrival_index (int): Position of the request in the order in which its controller received them.
     """
 
+    arrival_index: int = 0
+
     def __init__(self, process: PROCESS_UNION, product: Product, resource: Resource):
         self.process = process
         self.product = product
-- 
2.43.0


From c6db39cbfe8d79bc443600335588a94606009c35 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 43/44] fix: auxiliary types with an underscore in their name
 were counted as product types

---
 prodsys/util/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 4985347..a0575e5 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -953,7 +953,7 @@ class PostProcessor:
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
+        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.rsplit("_", 1)[0])
         auxiliary_types = self.get_auxiliary_types()
         df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
 
@@ -1089,7 +1089,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.rsplit("_", 1)[0]).drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From 40170a27bbec63df93bec0f7aa83fbcf6c926079 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:48:21 +0000
Subject: [PATCH 44/44] fix: machines with several input or output queues
 stalled or failed

---
 prodsys/simulation/control.py   | 11 ++++++++---
 prodsys/simulation/resources.py |  8 +++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 5181fc3..26727eb 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -300,7 +300,7 @@ class ProductionController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues() # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for next_product in [product]:
                 if not resource.got_free.triggered:
@@ -579,7 +579,7 @@ class BatchController(Controller):
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
             yield events.AllOf(resource.env, product_put_events)
-            resource.adjust_pending_put_of_output_queues(batch_size) # output queues do not get reserved, so the pending put has to be adjusted manually
+            resource.adjust_pending_put_of_output_queues(product_put_events) # output queues do not get reserved, so the pending put has to be adjusted manually
 
             for product in products:
                 for next_product in [product]:
@@ -671,7 +671,9 @@ class TransportController(Controller):
         if (isinstance(resource, resources.ProductionResource) or isinstance(resource, source.Source)):
             internal_queues = [queue for queue in resource.output_queues if not isinstance(queue, store.Store)]
             for queue in internal_queues:
-                events.append(queue.get(filter=lambda x: x is product.product_data))
+                # a machine puts a product only to one of its queues
+                if any(item is product.product_data for item in queue.items):
+                    events.append(queue.get(filter=lambda x: x is product.product_data))
             if not events:
                 raise ValueError(f"No product in internal queue {resource.data.ID}")
         elif isinstance(resource, store.Store):
@@ -716,6 +718,9 @@ class TransportController(Controller):
             # TODO: handle the case where multiple internal queues are used....
             selected_queue = internal_queues[0]
             events.append(selected_queue.put(product.product_data))
+            # room is reserved in all queues, but only one is used
+            for queue in internal_queues[1:]:
+                queue.unreserve()
 
             logger.debug({
                 "ID": "controller: put_product_to_input_queue", 
diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 2c1a6c6..c3c7d2f 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -492,11 +492,9 @@ class ProductionResource(Resource):
         for internal_queue in internal_queues:
             internal_queue.reserve()
 
-    def adjust_pending_put_of_output_queues(self, batch_size: int = 1):
-        internal_queues = [q for q in self.output_queues if not isinstance(q, store.Store)]
-        for output_queue in internal_queues:
-            for i in range(batch_size):
-                output_queue.reserve()
+    def adjust_pending_put_of_output_queues(self, put_events: list):
+        for put_event in put_events:
+            put_event.resource.reserve()
 
 class TransportResource(Resource):
     """
-- 
2.43.0

