From 8cf53ec1005ddefaa8e6fc13537de62b07a87d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 01/18] fix: TreeModelVolumes::getCollision reads the collision
 cache under the collision cache's own mutex

Writers insert into collision_cache_ while holding critical_collision_cache_; the reader held critical_avoidance_cache_, so a lookup could run while the table was being rehashed.
---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 920ef52..4a7d8fa 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -346,7 +346,7 @@ const Shape& TreeModelVolumes::getCollision(coord_t radius, LayerIndex layer_idx
     RadiusLayerPair key{ radius, layer_idx };
 
     {
-        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_avoidance_cache_);
+        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_collision_cache_);
         result = getArea(collision_cache_, key);
     }
     if (result)
-- 
2.43.0


From 6e4e41503981d0bb10b9de7fab96732b03cc0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 02/18] fix: do not overwrite a published accumulated-placeable
 area

getAccumulatedPlaceable0 hands out references that are read without the lock. Two threads that both miss the entry used to assign to it twice, the second time while the first may already be reading it.
---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 4a7d8fa..3b3f988 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -810,7 +810,7 @@ void TreeModelVolumes::calculateAccumulatedPlaceable0(const LayerIndex max_layer
         // the placeable on model areas do not exist on layer 0, as there can not be model below it. As such it may be possible that layer 1 is available, but layer 0 does not
         // exist.
         std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_accumulated_placeables_cache_radius_0_);
-        accumulated_placeables_cache_radius_0_[max_layer] = Shape();
+        accumulated_placeables_cache_radius_0_.emplace(max_layer, Shape());
         return;
     }
 
-- 
2.43.0


From d7836c0c81ad284da30b05ffb8edb69cec26fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 03/18] fix: keep the sign of the distance in
 TreeModelVolumes::safeOffset

sign(distance) was stored in an unsigned 8 bit variable, so -1 became 255: the step distance got the wrong sign and size, and a negative offset was made in one unsafe step. A zero distance divided by zero.
---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 3b3f988..443b392 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -911,7 +911,7 @@ void TreeModelVolumes::calculateCollisionAvoidance(const std::deque<RadiusLayerP
 Shape TreeModelVolumes::safeOffset(const Shape& me, coord_t distance, ClipperLib::JoinType jt, coord_t max_safe_step_distance, const Shape& collision) const
 {
     assert(distance * max_safe_step_distance >= 0); // Make sure they are the same sign (or one of them is null)
-    const uint8_t offset_sign = sign(distance);
+    const coord_t offset_sign = distance < 0 ? -1 : 1;
     const coord_t step_distance = offset_sign * std::max(min_offset_per_step_, std::abs(max_safe_step_distance));
     const size_t steps = std::abs(distance / step_distance);
     Shape ret = me;
-- 
2.43.0


From 844e25f8a7241ed6156e1818f347e6d93909a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 04/18] fix: RedistributeBeadingStrategy::toString called
 itself without end

---
 src/BeadingStrategy/RedistributeBeadingStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
index ebceddf..63b6cb9 100644
--- a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
+++ b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
@@ -63,7 +63,7 @@ double RedistributeBeadingStrategy::getTransitionAnchorPos(coord_t lower_bead_co
 
 std::string RedistributeBeadingStrategy::toString() const
 {
-    return toString() + parent_->toString();
+    return std::string("RedistributeBeadingStrategy+") + parent_->toString();
 }
 
 BeadingStrategy::Beading RedistributeBeadingStrategy::compute(coord_t thickness, coord_t bead_count) const
-- 
2.43.0


From 897da8f75a72ca7748ff2d4e66e7a7694b1ef2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 05/18] fix: WideningBeadingStrategy reports no left-over for a
 widened bead instead of an uninitialised value

---
 src/BeadingStrategy/WideningBeadingStrategy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BeadingStrategy/WideningBeadingStrategy.cpp b/src/BeadingStrategy/WideningBeadingStrategy.cpp
index fbabea5..5e26c46 100644
--- a/src/BeadingStrategy/WideningBeadingStrategy.cpp
+++ b/src/BeadingStrategy/WideningBeadingStrategy.cpp
@@ -29,6 +29,7 @@ WideningBeadingStrategy::Beading WideningBeadingStrategy::compute(coord_t thickn
         {
             ret.bead_widths.emplace_back(std::max(thickness, min_output_width_));
             ret.toolpath_locations.emplace_back(thickness / 2);
+            ret.left_over = 0;
         }
         else
         {
-- 
2.43.0


From d039e525ff08b008eeaf11515ed11913ce3c02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 06/18] fix: wait for all workers of an ordered
 producer/consumer run even after a spurious wake-up

---
 include/utils/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index ed8db06..1e81159 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -296,7 +296,7 @@ public:
         // Run a worker on the main thread
         worker(lock);
         // Wait for completion of all workers
-        if (workers_count_ > 0)
+        while (workers_count_ > 0)
         {
             work_done_cond_.wait(lock);
         }
-- 
2.43.0


From 0f176a0dbe991ccb6472634ca3fd3ad1d6ce95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 07/18] fix: looking up a limited setting that its extruder
 does not have no longer recurses without end

---
 src/settings/Settings.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 0ddf81b..32596af 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -880,7 +880,14 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     const std::unordered_map<std::string, ExtruderTrain*>& limit_to_extruder = Application::getInstance().current_slice_->scene.limit_to_extruder;
     if (limit_to_extruder.find(key) != limit_to_extruder.end())
     {
-        return limit_to_extruder.at(key)->settings_.has(key, parent_lookup);
+        for (const Settings* limited = &limit_to_extruder.at(key)->settings_; limited != nullptr; limited = limited->parent)
+        {
+            if (limited->settings.contains(key))
+            {
+                return true;
+            }
+        }
+        return false;
     }
 
     if (parent)
@@ -904,7 +911,7 @@ std::string Settings::getWithoutLimiting(const std::string& key) const
     }
     else if (parent)
     {
-        return parent->get<std::string>(key);
+        return parent->getWithoutLimiting(key);
     }
     else
     {
-- 
2.43.0


From 9091a777528164f67ed78ea7210d94879d6b2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 08/18] fix: make the ordering of possible stitches consistent

A stitch that is in order and one that is not could each precede the other when their
distances are equal, because only one direction of that comparison returned.
---
 src/slicer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/slicer.cpp b/src/slicer.cpp
index cf34305..dacf8e4 100644
--- a/src/slicer.cpp
+++ b/src/slicer.cpp
@@ -165,6 +165,10 @@ bool SlicerLayer::PossibleStitch::operator<(const PossibleStitch& other) const
     {
         return true;
     }
+    else if (in_order() && ! other.in_order())
+    {
+        return false;
+    }
 
     // better if lower Terminus::Index for terminus_0
     // This just defines a more total order and isn't strictly necessary.
-- 
2.43.0


From 79be171000908fc62d73d959d0cc767c2fe77a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 09/18] fix: read support wall thickness as a length and other
 settings as what they are

support_wall_thickness was read as an integer when support infill is printed, so
anything below 1 mm counted as no wall and the gradual infill overlapped the walls.
The area deviation, the minimal line widths and the prime tower volume were read as
other quantities than elsewhere.
---
 include/TreeSupportSettings.h | 4 ++--
 src/FffGcodeWriter.cpp        | 2 +-
 src/PrimeTower/PrimeTower.cpp | 2 +-
 src/TreeModelVolumes.cpp      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/TreeSupportSettings.h b/include/TreeSupportSettings.h
index 263e057..082069d 100644
--- a/include/TreeSupportSettings.h
+++ b/include/TreeSupportSettings.h
@@ -445,8 +445,8 @@ public:
                     && settings.get<coord_t>("min_bead_width") == other.settings.get<coord_t>("min_bead_width")
                     && settings.get<AngleRadians>("wall_transition_angle") == other.settings.get<AngleRadians>("wall_transition_angle")
                     && settings.get<coord_t>("wall_transition_length") == other.settings.get<coord_t>("wall_transition_length")
-                    && settings.get<Ratio>("min_odd_wall_line_width") == other.settings.get<Ratio>("min_odd_wall_line_width")
-                    && settings.get<Ratio>("min_even_wall_line_width") == other.settings.get<Ratio>("min_even_wall_line_width")
+                    && settings.get<coord_t>("min_odd_wall_line_width") == other.settings.get<coord_t>("min_odd_wall_line_width")
+                    && settings.get<coord_t>("min_even_wall_line_width") == other.settings.get<coord_t>("min_even_wall_line_width")
                     && settings.get<int>("wall_distribution_count") == other.settings.get<int>("wall_distribution_count")
                     && settings.get<coord_t>("wall_transition_filter_distance") == other.settings.get<coord_t>("wall_transition_filter_distance")
                     && settings.get<coord_t>("wall_transition_filter_deviation") == other.settings.get<coord_t>("wall_transition_filter_deviation")
diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cbb065a..d33ebfa 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -3644,7 +3644,7 @@ bool FffGcodeWriter::processSupportInfill(const SliceDataStorage& storage, Layer
         infill_density_multiplier = infill_extruder.settings_.get<size_t>("support_infill_density_multiplier_initial_layer");
     }
 
-    const size_t wall_thickness = infill_extruder.settings_.get<size_t>("support_wall_thickness");
+    const coord_t wall_thickness = infill_extruder.settings_.get<coord_t>("support_wall_thickness");
     const coord_t max_resolution = infill_extruder.settings_.get<coord_t>("meshfix_maximum_resolution");
     const coord_t max_deviation = infill_extruder.settings_.get<coord_t>("meshfix_maximum_deviation");
     coord_t default_support_line_width = infill_extruder.settings_.get<coord_t>("support_line_width");
diff --git a/src/PrimeTower/PrimeTower.cpp b/src/PrimeTower/PrimeTower.cpp
index 2ca3cfb..14d4bb4 100644
--- a/src/PrimeTower/PrimeTower.cpp
+++ b/src/PrimeTower/PrimeTower.cpp
@@ -328,7 +328,7 @@ PrimeTower* PrimeTower::createPrimeTower(SliceDataStorage& storage)
         }
     }
 
-    if (used_extruders_nrs.size() > 1 && settings.get<bool>("prime_tower_enable") && settings.get<coord_t>("prime_tower_min_volume") > 10
+    if (used_extruders_nrs.size() > 1 && settings.get<bool>("prime_tower_enable") && settings.get<double>("prime_tower_min_volume") > 0.01
         && settings.get<coord_t>("prime_tower_size") > 10 && storage.max_print_height_second_to_last_extruder >= -static_cast<int>(raft_total_extra_layers))
     {
         const PrimeTowerMode method = settings.get<PrimeTowerMode>("prime_tower_mode");
diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 443b392..338bc21 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -73,7 +73,7 @@ TreeModelVolumes::TreeModelVolumes(
         support_rests_on_model_ |= data_pair.first.get<ESupportType>("support_type") == ESupportType::EVERYWHERE;
         min_maximum_deviation = std::min(min_maximum_deviation, data_pair.first.get<coord_t>("meshfix_maximum_deviation"));
         min_maximum_resolution = std::min(min_maximum_resolution, data_pair.first.get<coord_t>("meshfix_maximum_resolution"));
-        min_maximum_area_deviation = std::min(min_maximum_area_deviation, data_pair.first.get<coord_t>("meshfix_maximum_extrusion_area_deviation"));
+        min_maximum_area_deviation = std::min(min_maximum_area_deviation, coord_t(data_pair.first.get<int>("meshfix_maximum_extrusion_area_deviation")));
     }
 
     // Figure out the rest of the setting(-like variable)s relevant to the class a whole.
@@ -589,7 +589,7 @@ Shape TreeModelVolumes::extractOutlineFromMesh(const SliceMeshStorage& mesh, Lay
     }
     const coord_t maximum_resolution = mesh.settings.get<coord_t>("meshfix_maximum_resolution");
     const coord_t maximum_deviation = mesh.settings.get<coord_t>("meshfix_maximum_deviation");
-    const coord_t maximum_area_deviation = mesh.settings.get<coord_t>("meshfix_maximum_extrusion_area_deviation");
+    const coord_t maximum_area_deviation = mesh.settings.get<int>("meshfix_maximum_extrusion_area_deviation");
     return Simplify(maximum_resolution, maximum_deviation, maximum_area_deviation).polygon(total);
 }
 
-- 
2.43.0


From 6363ab19e2c2314c65beb067fbfefccacbf5da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 10/18] fix: products of squared lengths overflowed in
 barycentric coordinates of large triangles

---
 src/utils/MeshUtils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils/MeshUtils.cpp b/src/utils/MeshUtils.cpp
index 969358b..5579bc1 100644
--- a/src/utils/MeshUtils.cpp
+++ b/src/utils/MeshUtils.cpp
@@ -30,15 +30,15 @@ std::optional<Point3D> getBarycentricCoordinates(const Point3LL& point, const Tr
     const Point3LL v1(triangle[2] - triangle[0]);
     const Point3LL v2(point - triangle[0]);
 
-    // Compute dot products
-    const coord_t d00 = v0.dot(v0);
-    const coord_t d01 = v0.dot(v1);
-    const coord_t d11 = v1.dot(v1);
-    const coord_t d20 = v2.dot(v0);
-    const coord_t d21 = v2.dot(v1);
+    // Compute dot products. Their products do not fit in a coord_t for triangles larger than some 50 mm.
+    const double d00 = static_cast<double>(v0.dot(v0));
+    const double d01 = static_cast<double>(v0.dot(v1));
+    const double d11 = static_cast<double>(v1.dot(v1));
+    const double d20 = static_cast<double>(v2.dot(v0));
+    const double d21 = static_cast<double>(v2.dot(v1));
 
     // Calculate denominator for barycentric coordinates
-    const coord_t denom = d00 * d11 - d01 * d01;
+    const double denom = d00 * d11 - d01 * d01;
 
     // Check if triangle is degenerate
     if (denom == 0)
@@ -47,8 +47,8 @@ std::optional<Point3D> getBarycentricCoordinates(const Point3LL& point, const Tr
     }
 
     // Calculate barycentric coordinates
-    const double v = static_cast<double>(d11 * d20 - d01 * d21) / denom;
-    const double w = static_cast<double>(d00 * d21 - d01 * d20) / denom;
+    const double v = (d11 * d20 - d01 * d21) / denom;
+    const double w = (d00 * d21 - d01 * d20) / denom;
     const double u = 1.0 - v - w;
 
     // Return as a Point3D where x/y/z represent the barycentric coordinates u/v/w
-- 
2.43.0


From b8d31f0c814c534ac658d34466a5eec59b172cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 11/18] fix: squared length of a pillar's outline overflowed an
 int

---
 src/support.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support.cpp b/src/support.cpp
index 282d789..f8f07f9 100644
--- a/src/support.cpp
+++ b/src/support.cpp
@@ -1844,10 +1844,10 @@ void AreaSupport::handleWallStruts(const Settings& settings, Shape& supportLayer
         if (poly.size() < 6) // might be a single wall
         {
             int best = -1;
-            int best_length2 = -1;
+            coord_t best_length2 = -1;
             for (unsigned int i = 0; i < poly.size(); i++)
             {
-                int length2 = vSize2(poly[i] - poly[(i + 1) % poly.size()]);
+                const coord_t length2 = vSize2(poly[i] - poly[(i + 1) % poly.size()]);
                 if (length2 > best_length2)
                 {
                     best = i;
-- 
2.43.0


From 0036b1e91929f6ebdff1b94e13667f260cc1f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 12/18] fix: squared distances overflowed an int in
 PolygonUtils::moveInside and Shape::remove

---
 src/geometry/Shape.cpp     | 4 ++--
 src/utils/polygonUtils.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/Shape.cpp b/src/geometry/Shape.cpp
index cd67a67..674f063 100644
--- a/src/geometry/Shape.cpp
+++ b/src/geometry/Shape.cpp
@@ -566,14 +566,14 @@ Shape Shape::removePolygon(const Shape& to_be_removed, int same_distance) const
                 }
                 bool poly_rem_is_poly_keep = true;
                 // compare the two polygons on all points
-                if (smallest_dist2 > static_cast<cura::coord_t>(same_distance * same_distance))
+                if (smallest_dist2 > static_cast<cura::coord_t>(same_distance) * same_distance)
                 {
                     continue;
                 }
                 for (size_t point_idx = 0; point_idx < poly_rem.size(); point_idx++)
                 {
                     coord_t dist2 = vSize2(poly_rem[(closest_point_idx + point_idx) % poly_rem.size()] - poly_keep[point_idx]);
-                    if (dist2 > static_cast<cura::coord_t>(same_distance * same_distance))
+                    if (dist2 > static_cast<cura::coord_t>(same_distance) * same_distance)
                     {
                         poly_rem_is_poly_keep = false;
                         break;
diff --git a/src/utils/polygonUtils.cpp b/src/utils/polygonUtils.cpp
index e2bcc8b..e21a729 100644
--- a/src/utils/polygonUtils.cpp
+++ b/src/utils/polygonUtils.cpp
@@ -221,7 +221,7 @@ ClosestPointPolygon PolygonUtils::_moveInside2(const ClosestPointPolygon& closes
     const Point2LL v_boundary_result = result - closest_polygon_point.location_;
     if (dot(v_boundary_result, v_boundary_from) > 0)
     { // point was already on the correct side of the polygon
-        if (vSize2(v_boundary_from) > distance * distance)
+        if (vSize2(v_boundary_from) > static_cast<coord_t>(distance) * distance)
         { // [from] was already on the correct side of the boudary by enough distance
             // don't change [from]
             return closest_polygon_point;
@@ -350,7 +350,7 @@ size_t PolygonUtils::moveInside(const Shape& polygons, Point2LL& from, int dista
     }
     if (is_already_on_correct_side_of_boundary) // when the best point is already inside and we're moving inside, or when the best point is already outside and we're moving outside
     {
-        if (bestDist2 < distance * distance)
+        if (bestDist2 < static_cast<coord_t>(distance) * distance)
         {
             from = ret;
         }
@@ -475,7 +475,7 @@ unsigned int PolygonUtils::moveInside(const ClosedPolyline& polygon, Point2LL& f
 
     if (is_already_on_correct_side_of_boundary) // when the best point is already inside and we're moving inside, or when the best point is already outside and we're moving outside
     {
-        if (bestDist2 < distance * distance)
+        if (bestDist2 < static_cast<coord_t>(distance) * distance)
         {
             from = ret;
         }
-- 
2.43.0


From afacee17b20d3b3299a61cb7e5ef914719673b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 13/18] fix: uniting two items of larger sets left part of a
 set behind

---
 include/utils/UnionFind.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/UnionFind.h b/include/utils/UnionFind.h
index e2d42cc..c6824b4 100644
--- a/include/utils/UnionFind.h
+++ b/include/utils/UnionFind.h
@@ -104,15 +104,15 @@ public:
         //The tree with the greatest rank becomes the parent. This creates shallower trees.
         if (rank[first_root] < rank[second_root])
         {
-            parent_index[first] = second;
+            parent_index[first_root] = second_root;
             rank[second_root] += rank[first_root];
-            return second;
+            return second_root;
         }
         else
         {
-            parent_index[second] = first;
+            parent_index[second_root] = first_root;
             rank[first_root] += rank[second_root];
-            return first;
+            return first_root;
         }
     }
 
-- 
2.43.0


From 97316a869586a676b8c710639acb67723289c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 14/18] fix: length of a polyline was summed up in an int

---
 src/geometry/Polyline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Polyline.cpp b/src/geometry/Polyline.cpp
index fcbab0f..4a6ff18 100644
--- a/src/geometry/Polyline.cpp
+++ b/src/geometry/Polyline.cpp
@@ -137,7 +137,7 @@ coord_t Polyline::length() const
     return std::accumulate(
         beginSegments(),
         endSegments(),
-        0,
+        coord_t(0),
         [](coord_t total, const const_segments_iterator::value_type& segment)
         {
             return total + vSize(segment.end - segment.start);
-- 
2.43.0


From cbcde5311565b6ae322d57c5098d1427c7c2ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 15/18] fix: candidates of a start point were compared with
 another score than the best one

---
 src/utils/scoring/BestElementFinder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/scoring/BestElementFinder.cpp b/src/utils/scoring/BestElementFinder.cpp
index c0f79cd..d8f6bac 100644
--- a/src/utils/scoring/BestElementFinder.cpp
+++ b/src/utils/scoring/BestElementFinder.cpp
@@ -68,13 +68,15 @@ std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t cand
         }
 
         // Skip candidates that have a score too far from the actual best one
+        // (the best score is copied because the candidate it belongs to may be moved while removing others)
+        const double best_score = best_candidate_iterator->score;
         const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
         end = std::remove_if(
             begin,
             end,
-            [&best_candidate_iterator, &delta_threshold](const Candidate& candidate)
+            [&best_score, &delta_threshold](const Candidate& candidate)
             {
-                return best_candidate_iterator->score - candidate.score > delta_threshold;
+                return best_score - candidate.score > delta_threshold;
             });
 
         if (std::distance(begin, end) == 1)
-- 
2.43.0


From b09ee7b1d471b8d8177d9dab5c2d8b234adc4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 16/18] fix: second layer was taken from the raft of the first
 slice of a process

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index a717a5f..a0a079a 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3382,7 +3382,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
         mesh_group_settings.get<double>("flow_rate_max_extrusion_offset"),
         mesh_group_settings.get<Ratio>("flow_rate_extrusion_offset_factor")); // Offset is in mm.
 
-    static LayerIndex layer_1{ 1 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()) };
+    const LayerIndex layer_1{ 1 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()) };
     if (layer_nr_ == layer_1 && mesh_group_settings.get<bool>("machine_heated_bed"))
     {
         constexpr bool wait = false;
-- 
2.43.0


From 62a49fc46bc6bee36b736612ec6f03031b3e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:31 +0000
Subject: [PATCH 17/18] fix: items before the first layer got a slot in front
 of the ring buffer

---
 include/utils/ThreadPool.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index 1e81159..21768fc 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -323,11 +323,17 @@ protected:
         }
     }
 
+    //! The slot of the ring buffer that holds an item. Indices may be negative, for instance those of raft layers.
+    item_t& slotOf(const ptrdiff_t idx) const
+    {
+        return queue_[(idx % max_pending_ + max_pending_) % max_pending_];
+    }
+
     //! Produces an item and store in in the ring buffer. Assumes that there is items to produce and free space in the ring
     ptrdiff_t produce(lock_t& lock)
     {
         ptrdiff_t produced_idx = write_idx_++;
-        item_t* slot = &queue_[(produced_idx + max_pending_) % max_pending_];
+        item_t* slot = &slotOf(produced_idx);
         assert(produced_idx < last_idx_);
 
         // Unlocks global mutex while producing an item
@@ -346,7 +352,7 @@ protected:
     void consume_many(lock_t& lock)
     {
         assert(read_idx_ < write_idx_);
-        for (item_t* slot = &queue_[(read_idx_ + max_pending_) % max_pending_]; *slot; slot = &queue_[(read_idx_ + max_pending_) % max_pending_])
+        for (item_t* slot = &slotOf(read_idx_); *slot; slot = &slotOf(read_idx_))
         {
             // Unlocks global mutex while consuming an item
             lock.unlock();
-- 
2.43.0


From adf4d4f05a27c8dd6c6cb38be94acf3b7c0cf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 18/18] fix: no closing tag for an empty set of lines in SVG
 output

---
 src/utils/SVG.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/SVG.cpp b/src/utils/SVG.cpp
index df2705c..292d199 100644
--- a/src/utils/SVG.cpp
+++ b/src/utils/SVG.cpp
@@ -291,7 +291,10 @@ void SVG::write(const LinesSet<LineType>& lines, const VisualAttributes& visual_
                 writePathPoints(line);
             }
 
-            fprintf(out_, "\" />\n"); // Write the end of the tag.
+            if (! first_path)
+            {
+                fprintf(out_, "\" />\n"); // Write the end of the tag.
+            }
         }
     }
 
-- 
2.43.0

