From 80d494fea06f841b66f0cd550e4ac3e79f295005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 01/37] fix: keep BY_PRIORITY order when an interrupted tick is
 sorted again

---
 src/repast4py/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..e95b6fa 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,11 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # when an interrupted group is sorted again, any remaining RANDOM events are in prioritized, and
+        # must not take part in the sort by priority
+        self.random.extend([evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM])
+        self.prioritized[:] = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From 40d4a177cba9eb08e383c481064a15fb05132330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 02/37] fix: do not lose events scheduled at the current tick
 between executions

---
 src/repast4py/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index e95b6fa..ae3ae72 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -308,7 +308,7 @@ class Schedule:
         if at >= self.tick:
             self.last_count = next(self.counter)
             evt.order_idx = self.last_count
-            if at == self.tick:
+            if at == self.tick and self.executing_group.executing:
                 self.executing_group.add_evt(evt)
             else:
                 heapq.heappush(self.queue, (at, self.last_count, evt))
-- 
2.43.0


From 716213e2190c8936d8369f95a598c3cd02bf8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 03/37] fix: a rank with nothing scheduled no longer stalls the
 shared schedule

---
 src/repast4py/schedule.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index ae3ae72..0059bf9 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -620,10 +620,17 @@ class SharedScheduleRunner:
         executing them.
         """
         while self.go:
-            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
-            if self.next_tick == global_next_tick:
-                self.schedule.execute()
             self.next_tick = self.schedule.next_tick()
+            # a rank with nothing scheduled (-1) must not hold the other ranks back
+            local_next_tick = float('inf') if self.next_tick == -1 else self.next_tick
+            global_next_tick = self.comm.allreduce(local_next_tick, op=MPI.MIN)
+            if global_next_tick == float('inf'):
+                # nothing is scheduled on any rank
+                break
+            if local_next_tick == global_next_tick:
+                self.schedule.execute()
+
+        self.next_tick = self.schedule.next_tick()
 
         for evt in self.end_evts:
             evt()
-- 
2.43.0


From 35a32c10f2e86e4bf2c20007631bbadff8d5ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 04/37] fix: synchronizing without ghosts no longer sends
 buffered ghosts to their owners as moved agents

---
 src/repast4py/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..9d8d981 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -143,6 +143,10 @@ class SharedContext:
         # gather agents to send from the out of bounds (oob) sequence
         for pid, proj in self.bounded_projs.items():
             for agent_id, ngh_rank, pt in proj._get_oob():
+                if agent_id in self._agent_manager._ghost_agents:
+                    # a buffered ghost is always out of the local bounds, and is not this rank's to move
+                    continue
+
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
                     # already removed
-- 
2.43.0


From ab0f5ff708ad2ba658423098b01e53040b14ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 05/37] fix: periodic borders keep inner points as they are and
 never return the excluded maximum or stale coordinates

---
 src/repast4py/borders.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..ff28f9e 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,13 +90,24 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// a coordinate inside the bounds is not changed; any other is moved by a multiple of the extent
+template<typename CoordType>
+CoordType wrap(CoordType coord, long_t min, long_t max, long_t extent) {
+    if (coord >= min && coord < max) return coord;
+    CoordType nc = fmod(coord - min, extent);
+    nc = nc < 0 ? max + nc : min + nc;
+    // max + nc may have been rounded up to the excluded max
+    return nc < max ? nc : min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -104,11 +115,9 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.x = wrap(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -116,14 +125,9 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
-
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.x = wrap(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = wrap(data[2], bounds.zmin_, bounds.zmax_, bounds.z_extent_);
 }
 
 template<typename PointType>
-- 
2.43.0


From ddc24ea97b88658117b46497bd5dd7b935416090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 06/37] fix: sticky borders of very large continuous spaces
 stay below the excluded maximum

---
 src/repast4py/borders.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index ff28f9e..c578561 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,9 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <cmath>
+#include <limits>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -42,11 +45,23 @@ struct Offset {
 template<>
 struct Offset<R4Py_DiscretePoint> {
     constexpr static long_t value = 1;
+
+    // the largest coordinate inside bounds with the (excluded) max
+    static long_t max_inside(long_t max) {
+        return max - value;
+    }
 };
 
 template<>
 struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
+
+    // the largest coordinate inside bounds with the (excluded) max: max - value,
+    // unless value is too small to make a difference to max
+    static double max_inside(long_t max) {
+        double coord = (double)max - value;
+        return coord < max ? coord : std::nextafter((double)max, -std::numeric_limits<double>::infinity());
+    }
 };
 
 template <typename PointType>
@@ -64,9 +79,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::max_inside(bounds_.xmax_), data[0]));
+    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::max_inside(bounds_.ymax_), data[1]));
+    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::max_inside(bounds_.zmax_), data[2]));
 }
 
 template<typename PointType>
@@ -82,9 +97,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::max_inside(bounds_.xmax_), data[0]));
+    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::max_inside(bounds_.ymax_), data[1]));
+    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::max_inside(bounds_.zmax_), data[2]));
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0


From 32de0a1681db96cfe1e57b3c70db8ae2bd317931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 07/37] fix: the spatial tree keeps every agent at a shared
 location when one of them moves or a node splits

---
 src/repast4py/SpatialTree.h | 62 ++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..a60cc02 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -90,8 +90,9 @@ template<typename PointType>
 class MOItems {
 
 private:
-    size_t sum;
-    std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
+    // the points of the items at each distinct location. The key is a copy: the points
+    // are those of the agents and change when an agent moves
+    std::map<Point<PointType>, std::set<PointType*>, PointComp<PointType>> points;
 
 public:
     MOItems();
@@ -108,49 +109,49 @@ public:
 };
 
 template<typename PointType>
-MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
+MOItems<PointType>::MOItems() : points{} {}
 template<typename PointType>
 MOItems<PointType>::~MOItems() {}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
-    auto iter = point_counts.find(pt);
-    if (iter == point_counts.end()) {
-        ++sum;
+    Point<PointType> loc;
+    extract_coords(pt, loc);
+    if (points[loc].insert(pt).second) {
         Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
-    } else {
-        ++(iter->second);
     }
 }
 
 template<typename PointType>
 bool MOItems<PointType>::remove(PointType* pt) {
-    auto kv = point_counts.find(pt);
-    if (kv != point_counts.end()) {
-        --(kv->second);
-        // size_t val = --point_counts[item->pt];
-        if (kv->second == 0) {
-            Py_DECREF(kv->first);
-            point_counts.erase(kv);
-            --sum;
+    Point<PointType> loc;
+    extract_coords(pt, loc);
+    auto kv = points.find(loc);
+    if (kv != points.end() && kv->second.erase(pt) > 0) {
+        Py_DECREF(pt);
+        if (kv->second.empty()) {
+            points.erase(kv);
         }
         return true;
-    } 
+    }
     return false;
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
@@ -158,11 +159,9 @@ template<typename PointType>
 void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
-    Point<R4Py_ContinuousPoint> ppt;
-    for (auto& kv : point_counts) {
+    for (auto& kv : points) {
         if (box.contains(kv.first)) {
-            extract_coords(kv.first, ppt);
-            auto& agent_lst = (*loc_map)[ppt];
+            auto& agent_lst = (*loc_map)[kv.first];
             agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());
         }
     }
@@ -182,16 +181,17 @@ void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc
 
 template<typename PointType>
 size_t MOItems<PointType>::size() const {
-    return sum;
+    return points.size();
 }
 
 template<typename PointType>
 void MOItems<PointType>::clear() {
-    for (auto& kv: point_counts) {
-        Py_DECREF(kv.first);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            Py_DECREF(pt);
+        }
     }
-    point_counts.clear();
-    sum = 0;
+    points.clear();
 }
 
 
-- 
2.43.0


From b1c3d3983c9683a7b9f72098d7fd24094ea37959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 08/37] fix: a 1D continuous space, which has no spatial tree,
 no longer crashes when an agent is located or queried

---
 src/repast4py/cspace.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..046c655 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -66,7 +66,16 @@ template<typename AccessorType, typename BorderType>
 void BaseCSpace<AccessorType, BorderType>::getAgentsWithin(const BoundingBox& bounds, 
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) 
 {
-    spatial_tree->getObjectsWithin(bounds, agents);
+    if (spatial_tree) {
+        spatial_tree->getObjectsWithin(bounds, agents);
+    } else {
+        // no tree in a 1D space
+        for (auto& kv : agent_map) {
+            if (kv.second->pt && bounds.contains(kv.second->pt)) {
+                agents->push_back(kv.second->agent);
+            }
+        }
+    }
 }
 
 template<typename AccessorType, typename BorderType>
@@ -77,7 +86,7 @@ bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_Agent* agent) {
 template<typename AccessorType, typename BorderType>
 bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_AgentID* aid) {
     auto iter = agent_map.find(aid);
-    if (iter != agent_map.end() && iter->second->pt) {
+    if (iter != agent_map.end() && iter->second->pt && spatial_tree) {
         spatial_tree->removeItem(iter->second);
     }
     return BaseSpace<R4Py_ContinuousPoint, AccessorType, BorderType>::remove(aid);
@@ -93,17 +102,17 @@ R4Py_ContinuousPoint* BaseCSpace<AccessorType, BorderType>::move(R4Py_Agent* age
         if (!point_equals(iter->second->pt, wpt)) {
             if (accessor.put(agent, location_map, wpt)) {
                 if (iter->second->pt) {
-                    spatial_tree->removeItem(iter->second);
+                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                     // if successful put, and agent is already located 
                     // so need to remove
                     Point<R4Py_ContinuousPoint> ppt;
                     extract_coords(iter->second->pt, ppt);
                     accessor.remove(agent, location_map, ppt);
                     update_point(iter->second->pt, wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }  else {
                     iter->second->pt = create_point(Py_TYPE(pt), wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }
             } else {
                 return nullptr;
-- 
2.43.0


From 5e498a5fb64cc4e03fe6b2d336284a67ee0d9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 09/37] fix: adding an agent that is already in a space leaves
 no second entry for it at its location

---
 src/repast4py/distributed_space.h |  2 ++
 src/repast4py/space.h             | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..0523528 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -214,6 +214,8 @@ void DistributedCartesianSpace<BaseSpaceType>::getAllBounds(MPI_Comm comm) {
 
 template<typename BaseSpaceType>
 bool DistributedCartesianSpace<BaseSpaceType>::add(R4Py_Agent* agent) {
+    // a replaced agent with the same id is not out of bounds any more
+    if (!base_space->holds(agent)) eraseOOB(agent->aid);
     return base_space->add(agent);
 }
 
diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..7af5151 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -61,6 +61,8 @@ public:
     virtual ~BaseSpace();
 
     bool add(R4Py_Agent* agent);
+    // whether this very agent, not merely one with its id, is in this space
+    bool holds(R4Py_Agent* agent) const;
     virtual bool remove(R4Py_Agent* agent);
     virtual bool remove(R4Py_AgentID* aid);
     R4Py_Agent* getAgentAt(PointType* pt);
@@ -94,6 +96,9 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    if (holds(agent)) return true;
+    // an agent with the same id is replaced
+    remove(agent->aid);
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
@@ -150,6 +155,12 @@ bool BaseSpace<PointType, AccessorType, BorderType>::contains(R4Py_Agent* agent)
     return agent_map.find(agent->aid) != agent_map.end();
 }
 
+template<typename PointType, typename AccessorType, typename BorderType>
+bool BaseSpace<PointType, AccessorType, BorderType>::holds(R4Py_Agent* agent) const {
+    auto iter = agent_map.find(agent->aid);
+    return iter != agent_map.end() && iter->second->agent == agent;
+}
+
 template<typename PointType, typename AccessorType, typename BorderType>
 const std::string BaseSpace<PointType, AccessorType, BorderType>::name() const {
     return name_;
-- 
2.43.0


From e8aa858aeb3545ea62a2e4c3f257852984b42bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 10/37] fix: buffers of neighbours that adjoin a rank on
 several sides of a periodic space are on the side they face

---
 src/repast4py/distributed_space.cpp | 151 +++-------------------------
 src/repast4py/distributed_space.h   |   2 +
 2 files changed, 17 insertions(+), 136 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..cd99336 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -40,28 +40,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +77,11 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    // a rank may be a neighbor more than once in a periodic space, so the side
+    // a neighbor is on can't be inferred from its coordinates.
+    for (auto& ngh : nghs) {
+        int offsets[3] = {ngh.offset_x, ngh.offset_y, ngh.offset_z};
+        compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -274,7 +153,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
@@ -351,7 +230,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, xd, 0, 0, nullptr,
                 {0, 0, 0, 0}});
         }
 
@@ -386,7 +265,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                     if (n_rank != rank) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
-                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
+                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, xd, yd, 0, nullptr,
                             {0, 0, 0, 0}});
                     }
                 }
@@ -434,7 +313,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         // }
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
-                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
+                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], xd, yd, zd, nullptr,
                             {0, 0, 0, 0}});
                     }
                 }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 0523528..4e464f2 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -23,6 +23,8 @@ namespace repast4py {
 struct CTNeighbor {
     int rank;
     int cart_coord_x, cart_coord_y, cart_coord_z;
+    // where this neighbor is relative to me: -1, 0, or 1 in each dimension.
+    int offset_x, offset_y, offset_z;
     // Py Tuple with info for who and what range to cover when sending 
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
-- 
2.43.0


From 425e21e05c8476d7266cc6260327dc2581d12b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 11/37] fix: the only rank of a periodic 1D space is not its
 own neighbour

---
 src/repast4py/distributed_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index cd99336..d302f41 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -230,8 +230,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, xd, 0, 0, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, xd, 0, 0, nullptr,
+                    {0, 0, 0, 0}});
+            }
         }
 
     } else if (num_dims_ == 2) {
-- 
2.43.0


From 00a285876a219ba6e47c0dce8d123cc8d689051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 12/37] fix: an agent that moves to another rank is removed
 from all the spaces of its old rank

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 9d8d981..93a2593 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -168,6 +168,11 @@ class SharedContext:
 
             proj._clear_oob()
 
+        # the agents have left this rank and so every space on it
+        for agent, _ in oob_agents:
+            for proj in self.bounded_projs.values():
+                proj.remove(agent)
+
         return send_data
 
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
-- 
2.43.0


From 9f5fbb7439b169ca53bc94c6a155acdb097f458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 13/37] fix: requesting an agent that is already a ghost
 registers the request with its owner

---
 src/repast4py/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 93a2593..abce670 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -428,13 +428,15 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            if not self._agent_manager.is_requested(request[0]):
+                # a ghost that exists but wasn't requested is requested too, so that its owner
+                # knows to keep it up to date.
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
                 else:
                     requests[request[1]].append(request[0])
-            else:
+            if agent is not None:
                 existing_ghosts.append(agent)
                 self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
@@ -472,6 +474,9 @@ class SharedContext:
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
+                if self._agent_manager.get_ghost(agent_data[0], 0) is not None:
+                    # already a ghost here
+                    continue
                 agent = create_agent(agent_data)
                 ghosts.append(agent)
                 self._add_ghost(rank, agent)
-- 
2.43.0


From adf142a7bcc66f8abe79201bb1b9c8bf71d5d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 14/37] fix: an agent that stops being a ghost is no longer a
 requested ghost

---
 src/repast4py/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..05dbfb4 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,8 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        # no longer a ghost and so not a requested one either
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From 4f586820aab7743ef08e51346b1c93434de7c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 15/37] fix: a buffered ghost whose agent moves to this rank is
 not removed with the buffer

---
 src/repast4py/space.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..b434526 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -263,7 +263,9 @@ class SharedGrid(_SharedGrid, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # buffered agents that have moved to this rank are now local to it
+        moved_here = {uid for uid, dest in moved_agents if dest == self.rank}
+        self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in moved_here]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
@@ -306,6 +308,7 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         super().__init__(name, bounds, borders, occupancy, buffer_size, comm, tree_threshold)
         self.buffered_agents = []
         self.do_synch = buffer_size > 0
+        self.rank = comm.Get_rank()
 
         local_bounds = self.get_local_bounds()
         self.random_pt = self._create_random_pt_func(local_bounds)
@@ -428,7 +431,9 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         self.remove(moving_agent)
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
-        pass
+        # buffered agents that have moved to this rank are now local to it
+        moved_here = {uid for uid, dest in moved_agents if dest == self.rank}
+        self.buffered_agents = [agent for agent in self.buffered_agents if agent.uid not in moved_here]
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         pass
-- 
2.43.0


From 39735e8e031b824c04d9d1fa804df153b7f766a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 16/37] fix: the ghosts of an agent that moves know its new
 rank

---
 src/repast4py/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index abce670..5bf08dd 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -495,6 +495,11 @@ class SharedContext:
         if any_moved:
             for proj in projs:
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
+            # a ghost of a moved agent is now a ghost from the agent's new rank
+            for uid, dest in itertools.chain(*all_moved_agents):
+                ghost = self._agent_manager.get_ghost(uid, 0)
+                if ghost is not None:
+                    ghost.local_rank = dest
         return any_moved
 
     def move_agents(self, agents_to_move: List, create_agent: Callable):
-- 
2.43.0


From 6f3ae59cb18defdfe82cb538ab16696e398f88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 17/37] fix: CTNeighbor keeps its original fields first

---
 src/repast4py/distributed_space.cpp | 12 ++++++------
 src/repast4py/distributed_space.h   |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index d302f41..b316b7e 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -231,8 +231,8 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
             if (n_rank != rank) {
-                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, xd, 0, 0, nullptr,
-                    {0, 0, 0, 0}});
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, xd, 0, 0});
             }
         }
 
@@ -267,8 +267,8 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                     if (n_rank != rank) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
-                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, xd, yd, 0, nullptr,
-                            {0, 0, 0, 0}});
+                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
+                            {0, 0, 0, 0}, xd, yd, 0});
                     }
                 }
             }
@@ -315,8 +315,8 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         // }
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
-                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], xd, yd, zd, nullptr,
-                            {0, 0, 0, 0}});
+                        neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
+                            {0, 0, 0, 0}, xd, yd, zd});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 4e464f2..a16abd7 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -23,12 +23,12 @@ namespace repast4py {
 struct CTNeighbor {
     int rank;
     int cart_coord_x, cart_coord_y, cart_coord_z;
-    // where this neighbor is relative to me: -1, 0, or 1 in each dimension.
-    int offset_x, offset_y, offset_z;
     // Py Tuple with info for who and what range to cover when sending 
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // where this neighbor is relative to me: -1, 0, or 1 in each dimension.
+    int offset_x, offset_y, offset_z;
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From 75bc87a1ac66f12c1ced0815ed968ee5b3261f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 18/37] fix: buffers of a shared value layer sent to the same
 rank do not overwrite one another

---
 src/repast4py/value_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..edfdb81 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -964,17 +964,19 @@ class SharedValueLayer(ValueLayer):
 
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
+        # copy: several slices may be sent to the same rank, one after the other
+        send_displs = np.copy(send_msg[1][1])
         send_buf = send_msg[0]
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            send_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
         recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
+        recv_displs = np.copy(recv_msg[1][1])
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
             for ngh_rank, size, shape, tslice in items:
@@ -982,6 +984,7 @@ class SharedValueLayer(ValueLayer):
                     disp = recv_displs[ngh_rank]
                     self.grid[tslice] = torch.as_tensor(
                         recv_buf[disp: disp + size].reshape(shape))
+                    recv_displs[ngh_rank] += size
 
                 except Exception:
                     print(self.rank, ngh_rank, size, shape, tslice)
-- 
2.43.0


From b6ad6fdd41a66af605570b4630db2d0e0cf228e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:28 +0000
Subject: [PATCH 19/37] fix: received buffers of a shared value layer are
 placed where the cells they hold are, whatever the number of ranks

---
 src/repast4py/value_layer.py | 152 +++++++++--------------------------
 1 file changed, 39 insertions(+), 113 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index edfdb81..bcef579 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -426,34 +426,8 @@ def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
     of the metadata (data used to synchronize among ranks) arrays is different. This
     computes the size of the arrays.
     """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
+    slices = meta_data.reshape(meta_data.shape[0], num_slices, offset)
+    return np.sum(np.prod(slices[:, :, :num_dims], axis=2), axis=1)
 
 
 class SharedValueLayer(ValueLayer):
@@ -572,20 +546,15 @@ class SharedValueLayer(ValueLayer):
         for func in self.buffer_self:
             func()
 
-    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
-        if procs_per_dim > 1:
-            if start_val < 0:
-                start_val += full_extent
-                end_val += full_extent
-            elif start_val >= full_extent:
-                start_val -= full_extent
-                end_val -= full_extent
-
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
-
-        return (start_val, end_val)
+    def _find_slices(self, start_val, end_val, full_extent, grid_extent):
+        """Finds the slices of this layer's grid, along one dimension, that hold the cells between
+        the specified start and end index. When the layer is periodic those cells may be repeated
+        in the buffers.
+        """
+        if not self.periodic:
+            return [slice(start_val, end_val)]
+        return [slice(start_val + shift, end_val + shift) for shift in (-full_extent, 0, full_extent)
+                if start_val + shift >= 0 and end_val + shift <= grid_extent]
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
         xmin, xextent = 0, 0
@@ -685,7 +654,8 @@ class SharedValueLayer(ValueLayer):
         ngh_buffers.sort(key=lambda data: data[0])
         buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
 
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
+        # in a periodic layer, a rank can be a neighbor on both sides
+        data_size = 6
 
         num_procs = self.cart_comm.Get_size()
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -719,25 +689,14 @@ class SharedValueLayer(ValueLayer):
 
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             slice_data = []
-            if data[0] != 0:
-                row = data[1] + r_trans
-                # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
-                    else:
-                        break
+            for i in range(num_sent_slices):
+                idx = offset * i
+                if data[idx] == 0:
+                    break
+                slices = [(row_slice,) for row_slice in
+                          self._find_slices(data[idx + 1] + r_trans, data[idx + 2] + r_trans,
+                                            self.full_bounds.xextent, self.grid.shape[0])]
+                slice_data.append((ngh_rank, data[idx], data[idx], slices))
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
 
@@ -769,15 +728,8 @@ class SharedValueLayer(ValueLayer):
         num_procs = self.cart_comm.Get_size()
 
         offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
+        # in a periodic layer, a rank can be a neighbor on several sides and corners
+        data_size = offset * 8
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -807,46 +759,19 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
             slice_data = []
-            if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
-                # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
-                    else:
-                        break
+            for i in range(num_sent_slices):
+                idx = offset * i
+                if data[idx] == 0:
+                    break
+                rows = self._find_slices(data[idx + 2] + r_trans, data[idx + 3] + r_trans,
+                                         self.full_bounds.yextent, self.grid.shape[0])
+                cols = self._find_slices(data[idx + 4] + c_trans, data[idx + 5] + c_trans,
+                                         self.full_bounds.xextent, self.grid.shape[1])
+                slices = [(row_slice, col_slice) for row_slice in rows for col_slice in cols]
+                slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2], slices))
 
             if len(slice_data) > 0:
                 recv_buf_data.append(slice_data)
@@ -960,7 +885,7 @@ class SharedValueLayer(ValueLayer):
         # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
         # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
-        # recv_buf_data: (ngh_rank, shape, slice_tuple)
+        # recv_buf_data: (ngh_rank, size, shape, [slice_tuple, ...])
 
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
@@ -979,15 +904,16 @@ class SharedValueLayer(ValueLayer):
         recv_displs = np.copy(recv_msg[1][1])
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
-            for ngh_rank, size, shape, tslice in items:
+            for ngh_rank, size, shape, tslices in items:
                 try:
                     disp = recv_displs[ngh_rank]
-                    self.grid[tslice] = torch.as_tensor(
-                        recv_buf[disp: disp + size].reshape(shape))
+                    vals = torch.as_tensor(recv_buf[disp: disp + size].reshape(shape))
+                    for tslice in tslices:
+                        self.grid[tslice] = vals
                     recv_displs[ngh_rank] += size
 
                 except Exception:
-                    print(self.rank, ngh_rank, size, shape, tslice)
+                    print(self.rank, ngh_rank, size, shape, tslices)
                     raise
         self._buffer_self()
 
-- 
2.43.0


From eec87d2a326036d5f6af88dc2430999a6f391483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 20/37] fix: points of a shared value layer map to its cells
 and buffers, also on a single rank and for bounds that do not start at 0

---
 src/repast4py/value_layer.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index bcef579..0223371 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -478,22 +478,16 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        super().__init__(self._compute_grid_bounds(comm.Get_size()), borders, 'random', dtype)
+        self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
         self.buffer_self = []
-        if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
-            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
-                self.buffer_self.append(self._buffer_self_X)
-
+        # a layer on a single rank has no buffers
+        if self.periodic and comm.Get_size() > 1:
             if len(self.procs_per_dim) == 2:
                 if self.procs_per_dim[0] == 1:
                     self.buffer_self.append(self._buffer_self_X)
@@ -556,6 +550,17 @@ class SharedValueLayer(ValueLayer):
         return [slice(start_val + shift, end_val + shift) for shift in (-full_extent, 0, full_extent)
                 if start_val + shift >= 0 and end_val + shift <= grid_extent]
 
+    def _compute_grid_bounds(self, num_ranks):
+        """Computes the area that this layer's grid covers, in global coordinates: the local bounds
+        together with the buffers.
+        """
+        if num_ranks == 1 or not self.periodic:
+            return self.buffered_bounds
+        lb, bb, size = self.local_bounds, self.buffered_bounds, self.buffer_size
+        return BoundingBox(lb.xmin - size, bb.xextent,
+                           lb.ymin - size if bb.yextent > 0 else lb.ymin, bb.yextent,
+                           lb.zmin - size if bb.zextent > 0 else lb.zmin, bb.zextent)
+
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
         xmin, xextent = 0, 0
         ymin, yextent = 0, 0
@@ -584,6 +589,7 @@ class SharedValueLayer(ValueLayer):
                 zextent = self.local_bounds.zextent + (buffer_size * 2)
 
         else:
+            xmin, ymin, zmin = self.local_bounds.xmin, self.local_bounds.ymin, self.local_bounds.zmin
             xmax = bounds.xmin + bounds.xextent
             if self.local_bounds.xmin > bounds.xmin:
                 xmin = self.local_bounds.xmin - buffer_size
@@ -887,6 +893,9 @@ class SharedValueLayer(ValueLayer):
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
         # recv_buf_data: (ngh_rank, size, shape, [slice_tuple, ...])
 
+        if self.cart_comm.Get_size() == 1:
+            return
+
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
         # copy: several slices may be sent to the same rank, one after the other
-- 
2.43.0


From 1f5e98d1d76bf98db74c85a0b63b649eb024f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 21/37] fix: a shared value layer can have an integer type

---
 src/repast4py/value_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 0223371..3cddab5 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -478,7 +478,8 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self._compute_grid_bounds(comm.Get_size()), borders, 'random', dtype)
+        super().__init__(self._compute_grid_bounds(comm.Get_size()), borders,
+                         'random' if init_value == 'random' else 0, dtype)
         self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
-- 
2.43.0


From f714c0accb43b0254bdc50ab69a65add38e08e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 22/37] fix: a read write value layer can be synchronized by a
 context and queried for neighbors

---
 src/repast4py/value_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 3cddab5..73039b6 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -1025,7 +1025,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1036,13 +1036,13 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-            agent_manager: this rank's AgentManager
+            agent_manager: this rank's AgentManager. This is not used.
             create_agent: a callable that can create an agent instance from
-            an agent id and data.
+            an agent id and data. This is not used.
         """
         self.write_layer._synch_ghosts()
         self.read_layer._synch_ghosts()
-- 
2.43.0


From f98734c4a7c5ac15f51e2ab8aec30e13ebd4321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 23/37] fix: agents of a type that was never added are counted
 and iterated as none

---
 src/repast4py/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 5bf08dd..f894e87 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -352,7 +352,7 @@ class SharedContext:
             if agent_type is None:
                 lst = list(self._agent_manager._local_agents.values())
             else:
-                lst = list(self._agents_by_type[agent_type].values())
+                lst = list(self._agents_by_type.get(agent_type, {}).values())
 
             if shuffle:
                 random.default_rng.shuffle(lst)
@@ -364,7 +364,7 @@ class SharedContext:
             if agent_type is None:
                 return self._agent_manager._local_agents.values().__iter__()
             else:
-                return self._agents_by_type[agent_type].values().__iter__()
+                return self._agents_by_type.get(agent_type, {}).values().__iter__()
 
     def agent(self, agent_id) -> Agent:
         """Gets the specified agent from the collection of local
@@ -409,7 +409,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, {}))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From 9c9c30389694e121dcfc45b241ab36afac0b9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 24/37] fix: removing an agent fails on ranks where its ghost
 is not in every projection

_update_removed_ghosts removed the ghost from every projection, and so raised
when the ghost was not in one of them or was no longer a ghost.
---
 src/repast4py/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index f894e87..936cfa3 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -226,8 +226,13 @@ class SharedContext:
         for updates in recv_data:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
+                if ghost is None:
+                    # no longer a ghost here
+                    continue
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    # a ghost need not be in all the projections
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
-- 
2.43.0


From 9840af7543d25361ec2b5f12b35c6746155c10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 25/37] fix: changes to a shared edge reach the other rank
 exactly once

Removing an edge before it was synchronized raised KeyError, removing or
clearing edges left pending entries in the edge tables, an edge received from
the other rank could be neither updated nor removed there, re-added edges were
lost, and agents were untagged as ghosted while their ghosts were still in use.
---
 src/repast4py/network.py | 197 ++++++++++++++++++++++++++++-----------
 1 file changed, 143 insertions(+), 54 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..c6fb692 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -216,8 +216,28 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for u, v in list(self._edges(agent)): # type: ignore
+                self._forget_edge(u, v)
+        for edge_key in [k for k in self.edges_to_remove if agent in k]:
+            # the agent's ghosts are removed together with their edges
+            del self.edges_to_remove[edge_key]
         self.graph.remove_node(agent)
 
+    def _forget_edge(self, u_agent: Agent, v_agent: Agent):
+        """Removes the edge between u_agent and v_agent from the collections
+        used to share that edge with another rank.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+        """
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        self.ghosted_edges.pop(edge_key, None)
+        self.new_edges.pop(edge_key, None)
+        self.edges_to_update.discard(edge_key)
+        self._remove_edge_key(u_agent, v_agent)
+
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Updates the edge between u_agent and v_agent with the specified
         attributes.
@@ -256,8 +276,9 @@ class SharedNetwork(SharedProjection, ABC):
             edge_key = self._get_edge_key((u_agent, v_agent))
             # edge key order might be different than remove edge args
             # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
+            # an edge that has not been synchronized yet is not on the other rank
+            if self.ghosted_edges.pop(edge_key, None) is not None:
+                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
             # if removed before update sync or removed before new edge sync
             # then remove it here
             self.edges_to_update.discard(edge_key)
@@ -268,14 +289,12 @@ class SharedNetwork(SharedProjection, ABC):
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
+        edges = list(self.graph.edges())
+        for edge_key in self.ghosted_edges:
             self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
-
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        for u, v in edges:
+            self._forget_edge(u, v)
+        self.graph.clear_edges()
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -297,37 +316,38 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_edges = [[] for i in range(self.comm.size)]
         for edge, ghost_idx in self.edges_to_remove.items():
-            ghost = edge[ghost_idx]
-            sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
+            sync_edges[edge[ghost_idx].local_rank].append((edge[0].uid, edge[1].uid))
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
+        dropped = [[] for i in range(self.comm.size)]
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
+                u_agent = agent_manager.get_ghost(u_id, incr=0)
                 if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
+                    u_agent = agent_manager.get_local(u_id)
+                    v_agent = ghost = agent_manager.get_ghost(v_id, incr=0)
                 else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    v_agent = agent_manager.get_local(v_id)
+                    ghost = u_agent
+                if u_agent is None or v_agent is None or not self.graph.has_edge(u_agent, v_agent):
+                    # also removed here
+                    continue
+
+                self.graph.remove_edge(u_agent, v_agent)
+                self._forget_edge(u_agent, v_agent)
+                # if ghost not participating in network, then remove
+                # Note that remove_ghost will check for inclusion in requested
+                if not self._has_edge(ghost):
+                    if not agent_manager.is_requested(ghost.uid):
+                        dropped[ghost.local_rank].append(ghost.uid)
+                    agent_manager.remove_ghost(ghost)
+                    self.graph.remove_node(ghost)
 
-                self._remove_edge_key(u_agent, v_agent)
+        # the agents are ghosted as long as their ghosts participate in an edge
+        for rank, ids in enumerate(self.comm.alltoall(dropped)):
+            for uid in ids:
+                agent_manager.untag_as_ghosted(rank, uid)
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -362,18 +382,18 @@ class SharedNetwork(SharedProjection, ABC):
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
         self.new_edges.clear()
 
-        for edge_key in self.edges_to_update:
-            ghosted_edge = self.ghosted_edges[edge_key]
-            other_rank = ghosted_edge.ghost_agent.local_rank
-            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
-        self.edges_to_update.clear()
-
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
+                # get will increment ref count if ghost exists, e.g. as a buffered ghost
+                agent = agent_manager.get_ghost(agent_data[0])
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    # 1 because added to network
+                    agent_manager.add_ghost(rank, agent, 1)
+                elif agent in self.ghosts_to_ref:
+                    # counted now
+                    self.ghosts_to_ref.remove(agent)
                 self.add(agent)
 
         return sync_edges
@@ -405,8 +425,15 @@ class SharedNetwork(SharedProjection, ABC):
                     u_agent = u_agent.agent
                     v_agent = agent_manager._local_agents[v_id]
 
+                # track the edge so that it can be updated and removed from this rank too
+                local, ghost = (u_agent, v_agent) if u_agent.local_rank == self.rank else (v_agent, u_agent)
+                if not self.graph.has_node(ghost):
+                    # a ghost because of something else than this network
+                    self.ghosts_to_ref.append(ghost)
                 self.graph.add_edge(u_agent, v_agent, **edge_attr)
                 self._add_edge_key(u_agent, v_agent)
+                edge_key = self._get_edge_key((u_agent, v_agent))
+                self.ghosted_edges[edge_key] = GhostedEdge(local, ghost, self.graph.edges[edge_key])
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
@@ -417,6 +444,7 @@ class SharedNetwork(SharedProjection, ABC):
                 an agent id and data.
         """
         self._sync_removed(agent_manager)
+        self._sync_updated(agent_manager)
         sync_edges = self._sync_vertices(agent_manager, create_agent)
         self._sync_edges(sync_edges, agent_manager)
 
@@ -427,6 +455,41 @@ class SharedNetwork(SharedProjection, ABC):
         This synchronizes any necessary proj reference count updates to
         ranks that ghost to this rank.
 
+        Args:
+            agent_manager: this rank's AgentManager
+        """
+        self._sync_ghost_refs(agent_manager)
+        # before any movement so that the agents are still where the edges are
+        self._sync_removed(agent_manager)
+        self._sync_updated(agent_manager)
+
+    def _sync_updated(self, agent_manager: AgentManager):
+        """Synchronizes the attributes of the updated edges across processes.
+
+        Args:
+            agent_manager: this rank's AgentManager
+        """
+        sync_edges = [[] for i in range(self.comm.size)]
+        for edge_key in self.edges_to_update:
+            # a new edge is sent together with its attributes
+            if edge_key not in self.new_edges:
+                ghosted_edge = self.ghosted_edges[edge_key]
+                other_rank = ghosted_edge.ghost_agent.local_rank
+                sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
+        self.edges_to_update.clear()
+
+        for edges in self.comm.alltoall(sync_edges):
+            for u_id, v_id, edge_attr in edges:
+                u_agent = agent_manager.get_local(u_id) or agent_manager.get_ghost(u_id, incr=0)
+                v_agent = agent_manager.get_local(v_id) or agent_manager.get_ghost(v_id, incr=0)
+                # not if removed here
+                if u_agent is not None and v_agent is not None and self.graph.has_edge(u_agent, v_agent):
+                    self.graph.edges[u_agent, v_agent].update(edge_attr)
+
+    def _sync_ghost_refs(self, agent_manager: AgentManager):
+        """Synchronizes the reference counts of the ghosts that have become nodes of
+        this network with the ranks that ghost them to this rank.
+
         Args:
             agent_manager: this rank's AgentManager
         """
@@ -443,9 +506,20 @@ class SharedNetwork(SharedProjection, ABC):
         self.ghosts_to_ref.clear()
 
         recv_msg = self.comm.alltoall(send_msg)
+        removed = [[] for i in range(self.comm.size)]
         for rank, agents in enumerate(recv_msg):
             for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+                if agent_manager.get_local(agent) is None:
+                    # removed from the simulation before this rank knew it was ghosted
+                    removed[rank].append(agent)
+                else:
+                    agent_manager.tag_as_ghosted(rank, agent)
+
+        for agents in self.comm.alltoall(removed):
+            for agent in agents:
+                ghost = agent_manager.get_ghost(agent, incr=0)
+                self.remove(ghost)
+                agent_manager.remove_ghost(ghost)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
@@ -664,6 +738,9 @@ class UndirectedSharedNetwork(SharedNetwork):
             v_agent: the v node agent
         """
         edge_key = (u_agent, v_agent)
+        if edge_key in self.canonical_edge_keys:
+            # an existing edge keeps its key
+            return self.canonical_edge_keys[edge_key]
         self.canonical_edge_keys[edge_key] = edge_key
         self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
         return edge_key
@@ -702,18 +779,24 @@ class UndirectedSharedNetwork(SharedNetwork):
                 self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
-            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if edge_key in self.ghosted_edges:
+                # an existing edge: only its attributes have changed
+                self.edges_to_update.add(edge_key)
+            else:
+                ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
+                self.new_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
                 self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = self._add_edge_key(u_agent, v_agent)
-            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if edge_key in self.ghosted_edges:
+                # an existing edge: only its attributes have changed
+                self.edges_to_update.add(edge_key)
+            else:
+                ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
+                self.new_edges[edge_key] = ge
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -843,18 +926,24 @@ class DirectedSharedNetwork(SharedNetwork):
                 self.ghosts_to_ref.append(v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
-            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if edge_key in self.ghosted_edges:
+                # an existing edge: only its attributes have changed
+                self.edges_to_update.add(edge_key)
+            else:
+                ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
+                self.new_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
                 self.ghosts_to_ref.append(u_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
             edge_key = (u_agent, v_agent)
-            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
-            self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if edge_key in self.ghosted_edges:
+                # an existing edge: only its attributes have changed
+                self.edges_to_update.add(edge_key)
+            else:
+                ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
+                self.new_edges[edge_key] = ge
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From 1d26d0c808123c28ad29670feb10967f104b43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 26/37] fix: edges survive agents moving rank in any
 combination

Edges were lost or left on only one rank when several connected agents moved
in the same synchronization, or when edges were added, updated or removed
before the move.
---
 src/repast4py/context.py |   2 +-
 src/repast4py/network.py | 157 +++++++++++++++++++++------------------
 2 files changed, 86 insertions(+), 73 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 936cfa3..9931bf2 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -524,6 +524,7 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._pre_synch_ghosts()
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -562,7 +563,6 @@ class SharedContext:
         for gh_uid in ghosts_to_remove:
             self._agent_manager.delete_ghost(gh_uid)
 
-        self._pre_synch_ghosts()
         send_data = self._gather_oob_data([])
         recv_data = self.comm.alltoall(send_data)
         ghosts_to_remove = []
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index c6fb692..7790680 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -72,14 +72,21 @@ class SharedNetwork(SharedProjection, ABC):
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
+        # the agents that are moving off of this rank: key is uid, val
+        # is the destination rank
+        self._moving_agents = {}
+        # list of the edges of the agents that are moving off of this
+        # rank: (moving agent, other agent, u.uid, v.uid, attributes, whether the
+        # other agent's rank has still to be sent the edge)
+        self._moving_edges = []
+        # list of edges that need to be recreated on this rank when an
+        # agent moves: (moved agent data, its rank, u.uid, v.uid, attributes)
         self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
+        # list of ghosts that should not be ghosted to this
         # rank after an agent move. The identification of
         # these agents and communicating to the ghosting rank
         # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
+        self._no_longer_ghosts = []
         # list of ghosts agents that need to have their
         # ref count incremented. This can occur when an agent
         # in a buffer zone is added via an edge, but has not
@@ -530,21 +537,28 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
+        for agent_data, rank, u_id, v_id, edge_attr in self._agent_moved_edges:
+            uid = agent_data[0]
+            other = agent_manager.get_local(v_id if u_id == uid else u_id)
+            if other is None:
+                # removed from the simulation
+                continue
+
+            agent = agent_manager.get_local(uid)
+            if agent is None:
+                # incr 0 because the reference is counted when the edge is added
+                agent = agent_manager.get_ghost(uid, incr=0)
+            if agent is None:
+                agent = create_agent(agent_data)
+                agent_manager.add_ghost(rank, agent, 0)
+
+            if u_id == uid:
+                self.add_edge(agent, other, **edge_attr)
+            else:
+                self.add_edge(other, agent, **edge_attr)
 
         self._agent_moved_edges.clear()
+        self._sync_ghost_refs(agent_manager)
         self._synch_ghosts(agent_manager, create_agent)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
@@ -567,54 +581,26 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
-        #
-        # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
-        # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
+        # The edges of the moving agent are removed from this rank, and recreated
+        # once it is known which agents have moved where (see _agents_moved_rank).
+        # A ghost that is only here because of such an edge is removed as well.
+        self._moving_agents[moving_agent.uid] = dest_rank
+        for u, v, attr in list(self._edges(moving_agent, data=True)): # type: ignore
             other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
+            edge_key = self._get_edge_key((u, v))
+            unsent = edge_key in self.new_edges or edge_key in self.edges_to_update
+            self._moving_edges.append((moving_agent, other, u.uid, v.uid, attr, unsent))
+            self.graph.remove_edge(u, v)
+            self._forget_edge(u, v)
+            if other.local_rank != self.rank and self.num_edges(other) == 0:
+                if other in self.ghosts_to_ref:
+                    self.ghosts_to_ref.remove(other)
+                elif not agent_manager.is_requested(other.uid):
                     agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
-                # this should tell destination rank to ghost the moved
-                # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
+                    self._no_longer_ghosts.append(other)
                 else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
-                    else:
-                        moving_agent_data[1][self.rank] = 1
-
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
-                self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
+                    continue
+                self.graph.remove_node(other)
 
         self.graph.remove_node(moving_agent)
 
@@ -632,28 +618,55 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
+        moved = dict(moved_agents)
+        ranks = {**moved, **self._moving_agents}
+
+        stop_ghosting = [[] for _ in range(self.comm.size)]
+        for ghost in self._no_longer_ghosts:
+            rank = ranks.get(ghost.uid, ghost.local_rank)
+            if rank != self.rank:
+                stop_ghosting[rank].append(ghost.uid)
+        self._no_longer_ghosts.clear()
 
-        for uid, dest in moved_agents:
+        for ghost_rank, ids in enumerate(self.comm.alltoall(stop_ghosting)):
+            for id in ids:
+                # not if it was removed from the simulation
+                if agent_manager.is_ghosted_to(ghost_rank, id):
+                    agent_manager.untag_as_ghosted(ghost_rank, id)
+
+        # An edge of an agent that has moved is recreated on the rank of the other
+        # agent, and shared with the moved agent's rank from there. If the other
+        # agent is on another rank, then that rank usually has the edge.
+        send_edges = [[] for _ in range(self.comm.size)]
+        for agent, other, u_id, v_id, attr, unsent in self._moving_edges:
+            from_here = other.local_rank == self.rank or other.uid in self._moving_agents
+            # when both have moved then one of their former ranks sends the edge
+            if unsent or from_here or (other.uid in ranks and agent.uid < other.uid):
+                rank = ranks.get(other.uid, other.local_rank)
+                send_edges[rank].append((agent.save(), ranks[agent.uid], u_id, v_id, attr))
+        self._moving_edges.clear()
+        self._moving_agents.clear()
+
+        for edges in self.comm.alltoall(send_edges):
+            self._agent_moved_edges.extend(edges)
+
+        for uid, dest in moved.items():
             if dest == self.rank:
                 # Check if moved agent was formerly a ghost on this rank
                 # and if so, then copy the edges the ghost participated in
                 # to new edges created with the now local agent, and remove
                 # the old ghost
                 ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
+                if ghost is not None and self.graph.has_node(ghost):
                     agent = agent_manager.get_local(uid)
                     edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
                     for u, v, attr in edge_list:
                         self.graph.remove_edge(u, v)
+                        self._forget_edge(u, v)
                         if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
+                            self.add_edge(agent, v, **attr)
                         else:
-                            self.graph.add_edge(u, agent, **attr)
+                            self.add_edge(u, agent, **attr)
                     self.graph.remove_node(ghost)
             else:
                 # check if moved agent is a ghost on this rank,
@@ -664,7 +677,7 @@ class SharedNetwork(SharedProjection, ABC):
                 # the new edges, so it will be ghosted to new rank
                 # during next sync.
                 agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
+                if agent is not None and self.graph.has_node(agent):
                     for edge in self._edges(agent): # type: ignore
                         edge_key = self._get_edge_key(edge)
                         ge = self.ghosted_edges.get(edge_key, None)
-- 
2.43.0


From c449e5608a29b7b4ea8e7cef3ea18aa5a66c4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 27/37] fix: node and edge attributes in a network file can be
 nested, empty or contain braces

---
 src/repast4py/network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 7790680..4a1c24d 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -1006,13 +1005,13 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        # the attributes are everything following the first 3 elements
+        vals = line.split(maxsplit=3)
         n_vals = len(vals)
         if n_vals < 3 or n_vals > 4:
             raise ValueError
@@ -1045,7 +1044,8 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        # the attributes are everything following the first 2 elements
+        vals = line.split(maxsplit=2)
         n_vals = len(vals)
         if n_vals < 2 or n_vals > 3:
             raise ValueError
-- 
2.43.0


From ebffd793ca9a1262eef7b42040edc031456da384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 28/37] fix: an edge between two undescribed nodes of a network
 file is rejected

---
 src/repast4py/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 4a1c24d..3afd8fe 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -1085,6 +1085,10 @@ def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
                 graph_data.edges.append((u_uid, v_uid, vals[2]))
             else:
                 graph_data.edges.append((u_uid, v_uid))
+        else:
+            # neither is on this rank, but both must be described by the file
+            graph_data.remote_agents[u_id]
+            graph_data.remote_agents[v_id]
 
     except KeyError:
         raise ValueError(f'Error reading graph description file on line {line_num}. Agent with {u_id} or {v_id} cannot be found') # pyright: ignore[reportPossiblyUnboundVariable]
-- 
2.43.0


From cb5eec5f5825457ed3a31c37011b4b035083e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 29/37] fix: events scheduled between two restore_schedule
 calls keep their place in the schedule

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..6a47619 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -236,6 +236,9 @@ class Checkpoint:
         else:
             runner = schedule.runner()
 
+        # events may have been scheduled since the runner was initialized
+        last_count = max(schedule_state['last_count'], runner.schedule.last_count)
+
         for evt_data in schedule_state['evts']:
             metadata = evt_data.metadata
             evt_tag = metadata.get('tag', DEFAULT_TAG)
@@ -255,7 +258,6 @@ class Checkpoint:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
 
-        last_count = schedule_state['last_count']
         runner.schedule.counter = itertools.count(last_count + 1)
         runner.schedule.last_count = last_count
 
-- 
2.43.0


From 0c79743a209141a42f3042d515d0fe8ad5e7cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 30/37] fix: stops are restored only if restore_stop_at is true

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 6a47619..60d2a9a 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -253,7 +253,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From 4ea25e944adee85e7a6b201d618a1e40d659717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 31/37] fix: a schedule saved during a tick keeps the events of
 that tick that have not executed yet

---
 src/repast4py/checkpoint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 60d2a9a..92a7fdc 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -164,6 +164,11 @@ class Checkpoint:
         ss['last_count'] = runner.schedule.last_count
         ss['tick'] = runner.schedule.tick
         evts = [self._to_evt_data(evt) for evt in runner.end_evts if evt.metadata['__type'] != schedule.EvtType.VOID]
+        # if saving during a tick, the events of that tick that have not executed yet
+        group = runner.schedule.executing_group
+        group_evts = group.first + group.prioritized + group.last
+        group_evts = group_evts[len(group_evts) - group.size:] + group.evts_added_during_execution
+        evts += [self._to_evt_data(evt) for evt in group_evts if evt.metadata['__type'] != schedule.EvtType.VOID]
         # item: (at, count, evt) tuple
         evts += [self._to_evt_data(item[2]) for item in runner.schedule.queue if item[2].metadata['__type'] != schedule.EvtType.VOID]
         ss['evts'] = evts
-- 
2.43.0


From 84b8835efef4278ffced3266c6ba67b5bb178b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 32/37] fix: edges from an agent on another rank are restored
 from a checkpoint

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 92a7fdc..13270e5 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -437,7 +437,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From b5f2d2ba9a3ed409a5aeeba8900e851028f98ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 33/37] fix: locations saved in a checkpoint do not follow the
 agents as they move on

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 13270e5..647858e 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -321,7 +321,7 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            locations[agent.uid] = space.get_location(agent).coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
-- 
2.43.0


From 6966b7469112d29f6f28744a00f4e3c3c4cd2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 34/37] fix: edge attributes saved in a checkpoint do not
 follow the network as it changes

---
 src/repast4py/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 647858e..8d8fb2f 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -356,13 +356,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From ea7c9fafed5cbfd6f90fbf3b1ccbefe795fe9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 35/37] fix: data can be logged to a file in the current
 directory

---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From c0b833098d51fb49901e12d67fa248f60325f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 36/37] fix: the parameters file can be empty

---
 src/repast4py/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/parameters.py b/src/repast4py/parameters.py
index c6917ff..4d5c563 100644
--- a/src/repast4py/parameters.py
+++ b/src/repast4py/parameters.py
@@ -64,7 +64,8 @@ def init_params(parameters_file: str, parameters: str, dump_file: str = None) ->
     """
     global params
     with open(parameters_file) as f_in:
-        params = yaml.load(f_in, Loader=yaml.SafeLoader)
+        # None if the file is empty
+        params = yaml.load(f_in, Loader=yaml.SafeLoader) or {}
     if parameters != '':
         params.update(json.loads(parameters))
 
-- 
2.43.0


From dcb51f60d5489d988bc1c46859b2cedc788e0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 37/37] fix: removing a loop from an undirected network raised
 KeyError

---
 src/repast4py/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 3afd8fe..f3a3456 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -766,7 +766,8 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        # the edge may be a loop
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
-- 
2.43.0

