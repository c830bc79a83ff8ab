From 3f0ba273eeeb82340e839ef5efedece6828f5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 01/15] fix: flush the cached feasibility of a stop together
 with its other cached values

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From 30244f39f123fd53048a680f927089a76e041a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 02/15] fix: forget the cached feasibility of a route when a
 stop is inserted or removed

---
 jinete/models/routes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..1c019d2 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,6 +251,7 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From 307fa53a80aa9b7b0c17c783178fd3a09cce6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 03/15] fix: return the inserted stop instead of the last one
 of the route

---
 jinete/models/routes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 1c019d2..bd21c18 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -252,8 +252,8 @@ class Route(Model):
         self.stops.insert(idx, stop)
 
         self.__dict__.pop("feasible", None)
-        for stop in self.stops[idx:]:
-            stop.flush()
+        for outdated_stop in self.stops[idx:]:
+            outdated_stop.flush()
 
         return stop
 
-- 
2.43.0


From c67ea0ca52f30e5fada67c7104e8afb71972ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 04/15] fix: forget every cached value of a route after
 flipping two of its stops

---
 .../heuristics/local_search/strategies/routes/one_shift.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From ec2855933f9ab9805e0ea32130c04a9b19dd90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 05/15] fix: keep a single improved route for each vehicle on
 the 2-opt strategy

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..1ac1cdf 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 820f7aa2623d03d9919b59f1b69f14045176962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 06/15] fix: compute the attractive routes from the current
 state of the iterator instead of outdated routes

---
 .../heuristics/insertion/iterators/abc.py          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..a1631de 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,7 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
+        self.__attractive_vehicles = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +92,16 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
+        if self.__attractive_vehicles is None:
+            self.__attractive_vehicles = set(route.vehicle for route in self._routes if any(route.planned_trips))
 
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
+        attractive_routes = set(self.routes_container[vehicle] for vehicle in self.__attractive_vehicles)
+        if all(any(route.planned_trips) for route in attractive_routes):
             empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
             if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+                self.__attractive_vehicles.add(empty_route.vehicle)
+                attractive_routes.add(empty_route)
+        return attractive_routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From 55e71a3f430a20bbe6418dcac827805f66490f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 07/15] fix: give the candidates as an iterable to the
 criterion on the best stateless iterator

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From e868ed503f9fc195336b80722ccce3eaf3226192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 08/15] fix: support the feasibility of plannings without
 routes

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From f32799fa781d7eaacce98b823dfa0c9d63819bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 09/15] fix: tighten the origin time window with the duration
 of the origin service

---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 2f3412c0cd1eebd1e2491cab329182bd314a69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 10/15] fix: compare services by value instead of by hash

---
 jinete/models/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..336d242 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,7 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        return isinstance(other, Service) and tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From 4a5d61a373c6b77c7363117ffda70dffdf4cd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 11/15] fix: limit the destination service of HashCode trips by
 the latest finish time

---
 jinete/loaders/formatters/hashcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..f5dd62f 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -71,7 +71,7 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         latest: float,
     ) -> Trip:
         origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest,)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From 00ae02bef4456f969b7a32884f70b416862f4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 12/15] fix: do not delay the first stop of a candidate when it
 is shared with the original route

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..c347053 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -68,7 +68,7 @@ class InsertionStrategy(object):
         return route
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
-        if route.stops[1].waiting_time != 0:
+        if idx == 0 and route.stops[1].waiting_time != 0:
             route.stops[0].starting_time = route.stops[1].waiting_time
             route.stops[0].flush(), route.stops[1].flush()
 
-- 
2.43.0


From 2d63e802c4728feafc1416d973c4cf3533384b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 13/15] fix: round the binary variables of the linear model
 instead of truncating them

---
 jinete/algorithms/exacts/models/three_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..04eaaf5 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -422,7 +422,7 @@ class ThreeIndexLinearModel(LinearModel):
 
         positions = list()
         for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
+            if not round(self._x[k][i][j].varValue) == 1:
                 continue
             positions.append(self._positions[i])
         return positions
-- 
2.43.0


From f5d46732e30b16ea93d5a97a2eb7263ec8bdefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 14/15] fix: use the destination duration as the load time of
 delivery nodes on the linear model

---
 jinete/algorithms/exacts/models/three_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 04eaaf5..0de5123 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -218,6 +218,8 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
+        if not idx < len(self._positions) / 2:
+            return trip.destination_duration
         return trip.origin_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
-- 
2.43.0


From 36cc2cc2e1c125dbfcfa67ebc88ae47fc7aa3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 15/15] fix: do not penalise unused vehicles on the linear
 model's cost

---
 jinete/algorithms/exacts/models/three_index.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 0de5123..15aff67 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -151,10 +151,11 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
+        unused = (0, len(self._positions) - 1)
+        for i, origin in enumerate(self._positions):
             origin_costs = list()
-            for destination in self._positions:
-                if origin == destination:
+            for j, destination in enumerate(self._positions):
+                if origin == destination and (i, j) != unused:
                     cost = BIG
                 else:
                     cost = origin.distance_to(destination)
-- 
2.43.0

