From e571d26a0614a606648956eb0e2a8eb68622a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 01/11] fix: keep the fixed vehicle cost when pickling a Route

---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..baf67ea 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..f11cbc9 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -974,6 +974,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -998,9 +999,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed veh cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From 3be7f38d79374017c738f04b27d1c9e53ce4c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 02/11] fix: keep the unplanned activities when pickling a
 Solution

---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index f11cbc9..e71d5cb 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,10 +1133,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1155,7 +1157,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From fdc4ad46111fb902e36e006b8ce9ac1df6945c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 03/11] fix: raise IndexError for out-of-range groups, vehicle
 types and profiles

---
 pyvrp/cpp/bindings.cpp | 68 +++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index e71d5cb..0837ad2 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -752,11 +752,18 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("depot"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, depot))
-        .def("group",
-             &ProblemData::group,
-             py::arg("group"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, group))
+        .def(
+            "group",
+            [](ProblemData const &data, size_t group) -> ClientGroup const &
+            {
+                if (group >= data.numGroups())
+                    throw py::index_error();
+
+                return data.group(group);
+            },
+            py::arg("group"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
             [](ProblemData const &data, size_t shipment)
@@ -769,21 +776,42 @@ PYBIND11_MODULE(_pyvrp, m)
             py::arg("shipment"),
             py::return_value_policy::reference_internal,
             DOC(pyvrp, ProblemData, shipment))
-        .def("vehicle_type",
-             &ProblemData::vehicleType,
-             py::arg("vehicle_type"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, vehicleType))
-        .def("distance_matrix",
-             &ProblemData::distanceMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, distanceMatrix))
-        .def("duration_matrix",
-             &ProblemData::durationMatrix,
-             py::arg("profile"),
-             py::return_value_policy::reference_internal,
-             DOC(pyvrp, ProblemData, durationMatrix))
+        .def(
+            "vehicle_type",
+            [](ProblemData const &data, size_t vehicleType) -> VehicleType const &
+            {
+                if (vehicleType >= data.numVehicleTypes())
+                    throw py::index_error();
+
+                return data.vehicleType(vehicleType);
+            },
+            py::arg("vehicle_type"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, vehicleType))
+        .def(
+            "distance_matrix",
+            [](ProblemData const &data, size_t profile) -> pyvrp::Matrix<pyvrp::Distance> const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.distanceMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, distanceMatrix))
+        .def(
+            "duration_matrix",
+            [](ProblemData const &data, size_t profile) -> pyvrp::Matrix<pyvrp::Duration> const &
+            {
+                if (profile >= data.numProfiles())
+                    throw py::index_error();
+
+                return data.durationMatrix(profile);
+            },
+            py::arg("profile"),
+            py::return_value_policy::reference_internal,
+            DOC(pyvrp, ProblemData, durationMatrix))
         .def("has_time_windows",
              &ProblemData::hasTimeWindows,
              DOC(pyvrp, ProblemData, hasTimeWindows))
-- 
2.43.0


From 59a987db07a435265fb69ab963bcc29f9746b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 04/11] fix: reject a Route with an unknown vehicle type

---
 pyvrp/cpp/Route.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index baf67ea..078c737 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -52,6 +52,13 @@ Duration Route::ScheduledActivity::timeWarp() const { return timeWarp_; }
 void Route::validate(ProblemData const &data,
                      Activities const &activities) const
 {
+    if (vehicleType_ >= data.numVehicleTypes())
+    {
+        std::ostringstream msg;
+        msg << "Vehicle type " << vehicleType_ << " is not understood.";
+        throw std::invalid_argument(msg.str());
+    }
+
     auto const &vehData = data.vehicleType(vehicleType_);
 
     size_t numTrips = 1;
-- 
2.43.0


From de337b535fdfa0927a023d548ab56a3fc85183ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 05/11] fix: raise ValueError for randint() without a positive
 bound

---
 pyvrp/cpp/bindings.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 0837ad2..3aa34dc 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1336,6 +1336,15 @@ PYBIND11_MODULE(_pyvrp, m)
         .def("max", &RandomNumberGenerator::max)
         .def("__call__", &RandomNumberGenerator::operator())
         .def("rand", &RandomNumberGenerator::rand)
-        .def("randint", &RandomNumberGenerator::randint<int>, py::arg("high"))
+        .def(
+            "randint",
+            [](RandomNumberGenerator &rng, int high)
+            {
+                if (high <= 0)
+                    throw py::value_error("high must be positive.");
+
+                return rng.randint(high);
+            },
+            py::arg("high"))
         .def("state", &RandomNumberGenerator::state);
 }
-- 
2.43.0


From d2a08da312ecb7ec97a8c9d189fc348f2d823f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:28 +0000
Subject: [PATCH 06/11] fix: leave the search route as it was when a reload
 depot is refused

---
 pyvrp/cpp/search/Route.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..2ab9633 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -91,6 +91,9 @@ void Route::insert(size_t idx, Node *node)
 {
     assert(0 < idx && idx < nodes.size());
 
+    if (node->isDepot() && numTrips() >= maxTrips())
+        throw std::invalid_argument("Vehicle cannot perform this many trips.");
+
     switch (node->type())
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
@@ -110,9 +113,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 59da7d470afb8debc8a4db7ecd908273d8037910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:05 +0000
Subject: [PATCH 07/11] fix: keep at least one vehicle when minimising the
 fleet

---
 pyvrp/minimise_fleet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..0982869 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -57,7 +57,7 @@ def minimise_fleet(
         raise ValueError(msg)
 
     feas_fleet = data.vehicle_type(0)
-    lower_bound = _lower_bound(data)
+    lower_bound = max(_lower_bound(data), 1)  # fleets cannot be empty
 
     while feas_fleet.num_available > lower_bound:
         # Reduce feasible fleet by one vehicle, and retry solving.
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_available = max(best.num_routes(), 1)
+            feas_fleet = fleet.replace(num_available=num_available)
 
     return feas_fleet
 
-- 
2.43.0


From 69ac2dcdde192563020d9ea0813cd736655a9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 08/11] fix: keep the iterated object alive for as long as its
 iterator

---
 pyvrp/cpp/bindings.cpp        | 6 ++++--
 pyvrp/cpp/search/bindings.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 3aa34dc..1f06c92 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,7 +477,8 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep group alive while iterating
         .def(
             "__str__",
             [](ClientGroup const &group) { return group.name; },
@@ -972,7 +973,8 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep route alive while iterating
         .def(
             "__getitem__",
             [](Route const &route, int idx)
diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..04bee6b 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,7 +685,8 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::return_value_policy::reference_internal,
+            py::keep_alive<0, 1>())  // keep route alive while iterating
         .def("__len__", &Route::size)
         .def("__str__",
              [](Route const &route)
-- 
2.43.0


From a31057069e3e5146f9eed69ccc7f6aa89282f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 09/11] fix: keep the solution alive that an operator was
 initialised with

---
 pyvrp/cpp/search/bindings.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index 04bee6b..22aa91e 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -173,7 +173,10 @@ PYBIND11_MODULE(_search, m)
              py::arg("U"),
              py::arg("cost_evaluator"))
         .def("apply", &ReplaceGroup::apply, py::arg("U"))
-        .def("init", &ReplaceGroup::init, py::arg("solution"))
+        .def("init",
+             &ReplaceGroup::init,
+             py::arg("solution"),
+             py::keep_alive<1, 2>())  // keep solution alive
         .def_static("supports", &ReplaceGroup::supports, py::arg("data"));
 
     py::class_<RelocateAlternative, BinaryOperator>(
@@ -191,7 +194,10 @@ PYBIND11_MODULE(_search, m)
              py::arg("V"),
              py::arg("cost_evaluator"))
         .def("apply", &RelocateAlternative::apply, py::arg("U"), py::arg("V"))
-        .def("init", &RelocateAlternative::init, py::arg("solution"))
+        .def("init",
+             &RelocateAlternative::init,
+             py::arg("solution"),
+             py::keep_alive<1, 2>())  // keep solution alive
         .def_static(
             "supports", &RelocateAlternative::supports, py::arg("data"));
 
@@ -227,7 +233,10 @@ PYBIND11_MODULE(_search, m)
              py::arg("V"),
              py::arg("cost_evaluator"))
         .def("apply", &InsertOptionalClient::apply, py::arg("U"), py::arg("V"))
-        .def("init", &InsertOptionalClient::init, py::arg("solution"))
+        .def("init",
+             &InsertOptionalClient::init,
+             py::arg("solution"),
+             py::keep_alive<1, 2>())  // keep solution alive
         .def_static(
             "supports", &InsertOptionalClient::supports, py::arg("data"));
 
-- 
2.43.0


From 555a4ec45c58ad76bf6df09960d6a4d65bd2bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 10/11] fix: hand out an instance's client groups by value

---
 pyvrp/cpp/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 1f06c92..db589d1 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -699,7 +699,7 @@ PYBIND11_MODULE(_pyvrp, m)
              DOC(pyvrp, ProblemData, depots))
         .def("groups",
              &ProblemData::groups,
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // groups can be modified
              DOC(pyvrp, ProblemData, groups))
         .def("shipments",
              &ProblemData::shipments,
@@ -763,7 +763,7 @@ PYBIND11_MODULE(_pyvrp, m)
                 return data.group(group);
             },
             py::arg("group"),
-            py::return_value_policy::reference_internal,
+            py::return_value_policy::copy,  // groups can be modified
             DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
-- 
2.43.0


From 36a98dcd6a0b0c491a0b63cbc765441d297dc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 11/11] fix: raise IndexError for load penalties of unknown
 dimensions

---
 pyvrp/cpp/CostEvaluator.h | 10 ++++++++++
 pyvrp/cpp/bindings.cpp    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/CostEvaluator.h b/pyvrp/cpp/CostEvaluator.h
index b6ab46e..1a0619f 100644
--- a/pyvrp/cpp/CostEvaluator.h
+++ b/pyvrp/cpp/CostEvaluator.h
@@ -69,6 +69,11 @@ public:
                   double twPenalty,
                   double distPenalty);
 
+    /**
+     * Number of load dimensions that this evaluator has penalties for.
+     */
+    [[nodiscard]] inline size_t numLoadDimensions() const;
+
     /**
      * Computes the total excess load penalty for the given load and vehicle
      * capacity, and dimension.
@@ -184,6 +189,11 @@ Cost CostEvaluator::excessLoadPenalties(
     return cost;
 }
 
+size_t CostEvaluator::numLoadDimensions() const
+{
+    return loadPenalties_.size();
+}
+
 Cost CostEvaluator::loadPenalty(Load load,
                                 Load capacity,
                                 size_t dimension) const
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index db589d1..bbabb71 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1206,7 +1206,16 @@ PYBIND11_MODULE(_pyvrp, m)
              py::arg("tw_penalty"),
              py::arg("dist_penalty"))
         .def("load_penalty",
-             &CostEvaluator::loadPenalty,
+             [](CostEvaluator const &costEvaluator,
+                pyvrp::Load load,
+                pyvrp::Load capacity,
+                size_t dimension)
+             {
+                 if (dimension >= costEvaluator.numLoadDimensions())
+                     throw py::index_error();
+
+                 return costEvaluator.loadPenalty(load, capacity, dimension);
+             },
              py::arg("load"),
              py::arg("capacity"),
              py::arg("dimension"),
-- 
2.43.0

