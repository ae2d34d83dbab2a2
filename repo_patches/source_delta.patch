From 9accce39e97b579614eb9b4183cbe0442f67e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/41] fix: keep grown plain map content when an allocation
 fails

UnboundedPlainGridMap::ensure_inside moved cells of the current map into a
partially allocated new one, so a bad_alloc raised while allocating later
rows left null cells behind.
---
 src/core/maps/plain_grid_map.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/plain_grid_map.h b/src/core/maps/plain_grid_map.h
index 88a11d2..68430f2 100644
--- a/src/core/maps/plain_grid_map.h
+++ b/src/core/maps/plain_grid_map.h
@@ -157,10 +157,11 @@ protected: // methods
     for (size_t y = 0; y != new_h; ++y) {
       std::generate_n(std::back_inserter(new_cells[y]), new_w,
                       [this](){ return this->cell_prototype()->clone(); });
-      if (y < prep_y || prep_y + h <= y) { continue; }
-
-      std::move(_cells[y - prep_y].begin(), _cells[y - prep_y].end(),
-                &new_cells[y][prep_x]);
+    }
+    // NB: existing cells are moved only when nothing can fail anymore
+    for (size_t y = 0; y != h; ++y) {
+      std::move(_cells[y].begin(), _cells[y].end(),
+                &new_cells[prep_y + y][prep_x]);
     }
 
     std::swap(_cells, new_cells);
-- 
2.43.0


From e929baa7afb71f8a2c408ad05b05ba2f7ce378b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 02/41] fix: give each gmapping particle its own map

All particles (and resampled duplicates) wrote to one shared map object.
A sampled particle now gets a copy-on-write copy of its map.
---
 src/slams/gmapping/gmapping_world.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..75b04ec 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -109,7 +109,11 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // a sampled particle maintains its own map (tiles are copied on write)
+    _map = std::make_shared<MapType>(dynamic_cast<const MapType&>(*_map));
+  }
 
 private:
 
-- 
2.43.0


From cb2bca96d52254857bd9c9f2dc921572a0d853cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 03/41] fix: recognize the unknown scan probability

NaN never compares equal, so is_prob_unknown always returned false.
---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..f5bb096 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability); // NB: NaN is not equal to itself
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From e0154b95d19653e57d3e6da1156c3a944f4c381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 04/41] fix: keep angle histogram bins in range for flat
 segments

acos of an almost flat segment may be rounded to M_PI (or its quotient to the
number of bins), which tripped an assertion on an ordinary scan.
---
 src/core/features/angle_histogram.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..5b65a26 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,13 +84,16 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    // NB: acos of an almost flat segment may be rounded to 180
+    return angle < M_PI ? angle : 0;
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
-    auto hist_i = std::size_t(std::floor(angle / angle_step()));
+    // NB: the quotient is rounded up to the size if the angle is close to 180
+    auto hist_i = std::min(std::size_t(std::floor(angle / angle_step())),
+                           _hist.size() - 1);
     assert(hist_i < _hist.size());
     return hist_i;
   }
-- 
2.43.0


From 3d7edb84e18d18418a6ba4ae13dd4f041a8ef1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 05/41] fix: normalize particle weights when all hypotheses are
 rejected

Division by a zero total turned all weights to NaN and disabled the filter.
---
 src/core/particle_filter.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..251039b 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -108,6 +108,11 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (!(0 < total_weight)) {
+      // all hypotheses are rejected, so there is nothing to prefer
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From 83a26fb9f763d1ba3eb831284bf3be29d80f31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 06/41] fix: keep gmapping particles usable after uninformative
 scans

The first scan is matched against an empty map and a scan without usable
points has unknown probability; neither may zero or poison the weights, and a
particle that has not mapped anything yet must not skip scans.
---
 src/slams/gmapping/gmapping_world.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 75b04ec..1740bd0 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -71,7 +71,9 @@ public:
   }
 
   void handle_observation(TransformedLaserScan &scan) override {
-    if (_delta_since_last_sm.sq_dist() < _next_sm_delta.sq_dist() &&
+    // NB: each particle starts with an empty map, so it needs the first scan
+    if (!_scan_is_first &&
+        _delta_since_last_sm.sq_dist() < _next_sm_delta.sq_dist() &&
         std::fabs(_delta_since_last_sm.theta) < _next_sm_delta.theta) {
       return;
     }
@@ -93,10 +95,16 @@ public:
     if (0.0 < scan_prob || _scan_is_first) {
       // map update accordig to original gmapping code (ref?)
       scan_adder()->append_scan(map(), pose(), scan.scan, scan.quality, 0);
-      _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
+    // NB: a scan without usable points or matched against an empty map
+    //     says nothing about the hypothesis
+    if (!ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      if (!_scan_is_first) {
+        Particle::set_weight(scan_prob * Particle::weight());
+      }
+      _scan_is_first = false;
+    }
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From fcbdf0d28db0bfe1a35dbce1ce49f8078efb889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 07/41] fix: give a consistent TBM cell without any evidence a
 finite occupancy

A zero-quality observation or a total conflict made the occupancy NaN.
---
 src/core/maps/tbm_grid_cells.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..1d9125a 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,8 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    // NB: nothing is known (e.g. the evidence is in a total conflict)
+    if (qual == 0) { return Occupancy{0.5, 0}; }
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From 0c9bcca086fee7b48154abdc9b3c8fbcc934a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 08/41] fix: compute the gmapping point probability for every
 observation

---
 .../gmapping/gmapping_occupancy_observation_pe.h      | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..72dd1d9 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,16 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
-
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
       for (int d_y = -Window_Sz; d_y <= Window_Sz; ++d_y) {
@@ -33,15 +29,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From 9e2914d3a94a1098c9a79134c290dec0c02d718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 09/41] fix: centre the brute force window at the current pose

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From e1774f30161de5719d7847bd1bdc5f3b8c730708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 10/41] fix: account mapped areas in added M3RSM map scales

---
 src/core/maps/rescalable_caching_grid_map.h |  4 ++
 src/core/scan_matchers/m3rsm_engine.h       | 62 ++++++++++++++-------
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..636bcdf 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,9 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // fills an added coarser map with the content of the next finer one
+  virtual void init_coarser_map(const GridMap &/*finer*/,
+                                GridMap &/*coarser*/) const {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -189,6 +192,7 @@ protected:
 
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
+      init_coarser_map(this->map(_map_cache->size() - 2), *map);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
     }
   }
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..7a70f44 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -95,34 +95,56 @@ protected:
 
     // TODO: implement coarcer maps update on impact decrease
     // assert(less_or_equal(_prev_fine_impact, fine_impact));
-    update_coarser_maps(area_id, fine_impact);
+    update_coarser_maps(area_id);
   }
 
-  void update_coarser_maps(const AreaId &area_id, const double impact) {
+  void init_coarser_map(const GridMap &finer, GridMap &coarser) const override {
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer.height(); ++raw_crd.y) {
+        auto area_id = finer.internal2external(raw_crd);
+        const auto &area = finer[area_id];
+        if (area.is_unknown()) { continue; }
+        update_coarser_map(coarser, finer.world_cell_bounds(area_id), area);
+      }
+    }
+  }
+
+  // returns whether the coarser map has been changed
+  bool update_coarser_map(GridMap &coarser_map, const Rectangle &modified_space,
+                          const GridCell &modified_area) const {
+    auto impact = estimate_spe_obstacle_impact(modified_area);
+    bool is_updated = false;
+    auto cm_coords = GridRasterizedRectangle{coarser_map, modified_space,
+                                             false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, modified_area);
+      is_updated = true;
+    }
+    return is_updated;
+  }
+
+  void update_coarser_maps(const AreaId &area_id) {
     const auto &modified_area = active_map()[area_id];
     auto modified_space = active_map().world_cell_bounds(area_id);
 
     for (unsigned coarser_scale_id = scale_id() + 1;
-         coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
-      }
+         coarser_scale_id < coarsest_scale_id(); ++coarser_scale_id) {
+      auto coarser_area_is_updated = update_coarser_map(
+        map(coarser_scale_id), modified_space, modified_area);
       if (!coarser_area_is_updated) { break; }
     }
+    // NB: a just added map may take the area into account before the coarsest
+    update_coarser_map(map(coarsest_scale_id()), modified_space, modified_area);
   }
 
 private:
-- 
2.43.0


From 872481e682889adfba09f479330d57b4669c760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 11/41] fix: keep evidence of coarser M3RSM areas on unknown
 area updates

---
 src/core/scan_matchers/m3rsm_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index 7a70f44..c320de8 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -95,6 +95,8 @@ protected:
 
     // TODO: implement coarcer maps update on impact decrease
     // assert(less_or_equal(_prev_fine_impact, fine_impact));
+    // NB: a coarser area with evidence must not become unknown
+    if (modified_area.is_unknown()) { return; }
     update_coarser_maps(area_id);
   }
 
-- 
2.43.0


From 8ab759e75f956e246897dae5c0bc0e1f6732dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 12/41] fix: weigh scan points in the scanner frame

---
 .../weighted_mean_point_probability_spe.h     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/weighted_mean_point_probability_spe.h b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
index 409a4aa..48bf93a 100644
--- a/src/core/scan_matchers/weighted_mean_point_probability_spe.h
+++ b/src/core/scan_matchers/weighted_mean_point_probability_spe.h
@@ -46,8 +46,22 @@ private:
 
 class VinySlamSPW : public ScanPointWeighting {
 public:
-  double weight(const LaserScan2D::Points &pts, PointId id) const override {
-    const auto &sp = pts[id];
+  // NB: the weights are related to the scanner frame, so they are estimated
+  //     before the scan is (possibly) rotated by a scan matcher.
+  void reset(const LaserScan2D &scan) override {
+    _weights.clear();
+    _weights.reserve(scan.points().size());
+    for (const auto &sp : scan.points()) {
+      _weights.push_back(point_weight(sp));
+    }
+  }
+
+  double weight(const LaserScan2D::Points &, PointId id) const override {
+    return _weights[id];
+  }
+
+private:
+  static double point_weight(const ScanPoint2D &sp) {
     auto angle = sp.angle();
     auto weight = std::abs(std::sin(angle)) + std::abs(std::cos(angle));
     if (0.9 < std::abs(std::cos(angle))) {
@@ -57,6 +71,9 @@ public:
     }
     return weight * std::sqrt(sp.range());
   }
+
+private:
+  std::vector<double> _weights;
 };
 
 //============================================================================//
-- 
2.43.0


From 052ef44ebc0114c4faf8b747565313c637922fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 13/41] fix: don't abort multi-resolution matching of a scan
 without usable points

---
 src/core/scan_matchers/bf_multi_res_scan_matcher.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..15994fa 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,7 +43,17 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
+      if (!best_match.is_valid()) {
+        // the scan doesn't have points that can be used for the matching
+        result_pose_delta = RobotPoseDelta{0, 0, 0};
+        auto no_match_prob = ScanProbabilityEstimator::unknown_probability();
+        do_for_each_observer(
+          [&result_pose_delta, &raw_scan, &no_match_prob](ObsPtr obs) {
+            obs->on_matching_end(result_pose_delta, raw_scan.scan,
+                                 no_match_prob);
+        });
+        return no_match_prob;
+      }
       if (best_match.is_finest()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
-- 
2.43.0


From 24acb362122dbe4679fab4aa2884cee2b193ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 14/41] fix: bound M3RSM probabilities of partially unknown
 areas

---
 src/core/maps/grid_map.h                                   | 3 +++
 src/core/maps/rescalable_caching_grid_map.h                | 4 ++++
 src/core/scan_matchers/occupancy_observation_probability.h | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/src/core/maps/grid_map.h b/src/core/maps/grid_map.h
index fbd2ebb..5d9c4cc 100644
--- a/src/core/maps/grid_map.h
+++ b/src/core/maps/grid_map.h
@@ -60,6 +60,9 @@ public:
   }
 
   virtual const GridCell &operator[](const Coord& coord) const = 0;
+  // whether a known cell may approximate an area that is partially unknown
+  virtual bool is_approximate() const { return false; }
+  const GridCell &unknown_cell() const { return *_cell_prototype; }
   virtual bool validate() const { return true; }
   virtual void load_state(const std::vector<char>&) {}
   virtual std::vector<char> save_state() const {
diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index 636bcdf..eb01066 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -97,6 +97,10 @@ public:
     return active_map()[coord];
   }
 
+  bool is_approximate() const override {
+    return scale_id() != finest_scale_id();
+  }
+
   void update(const Coord &area_id,
               const AreaOccupancyObservation &aoo) override {
     pre_area_update(area_id);
diff --git a/src/core/scan_matchers/occupancy_observation_probability.h b/src/core/scan_matchers/occupancy_observation_probability.h
index 423ed0b..d4dc292 100644
--- a/src/core/scan_matchers/occupancy_observation_probability.h
+++ b/src/core/scan_matchers/occupancy_observation_probability.h
@@ -37,6 +37,11 @@ public:
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto max_probability = double{0};
+    if (map.is_approximate()) {
+      // NB: unknown areas aren't accounted by cells of coarser maps
+      max_probability = std::max(observation_impact(map.unknown_cell(), aoo),
+                                 max_probability);
+    }
     auto area_ids = GridRasterizedRectangle{map, area};
 
     while (area_ids.has_next()) {
-- 
2.43.0


From 8599e869405d1238b618994e0e23c1ce41f4013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 15/41] fix: derive the area estimator's edge shift from the
 actual cell

The shift was computed once per process, so every estimator used the
quality and cell size of the first one.
---
 src/core/maps/area_occupancy_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..31a1226 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-- 
2.43.0


From f541aacc341370aa33c7a5e787d99bed333840bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 16/41] fix: don't read outside of scans shorter than the
 margin

---
 src/core/maps/grid_map_scan_adders.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..490fe02 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -55,7 +55,8 @@ public:
                        const LaserScan2D &scan,
                        double scan_quality,
                        double scan_margin = 0.0) const {
-    if (scan.points().empty()) { return map; }
+    // nothing to add if margins cover the entire scan
+    if (scan.points().size() <= 2 * scan_margin) { return map; }
 
     const auto rp = pose.point();
     scan.trig_provider->set_base_angle(pose.theta);
-- 
2.43.0


From 783ce485fa65337e8c2cf299460497a05c53d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 17/41] fix: let world observers subscribe others during a
 notification

The list of observers was modified while being walked.
---
 src/core/states/world.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/states/world.h b/src/core/states/world.h
index 09e95e9..3b85d22 100644
--- a/src/core/states/world.h
+++ b/src/core/states/world.h
@@ -41,8 +41,10 @@ public:
 
 protected: // methods
 
+  // NB: an observer may subscribe other ones while it's being notified
 #define NOTIFY_EACH_WOBSERVER(var)                     \
-  for (auto &raw_obs : _world_##var##_observers) {     \
+  auto observers = _world_##var##_observers;           \
+  for (auto &raw_obs : observers) {                    \
     auto obs_ptr = raw_obs.lock();                     \
     if (obs_ptr) {                                     \
       obs_ptr->on_##var##_update(var);                 \
-- 
2.43.0


From 20ce6292b01bd362ba7c7cabb7eeda9c81eb3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 18/41] fix: let observers of a scan matcher (un)subscribe
 during a notification

The list of observers was modified while being walked, so dangling
elements were used, observers were skipped or called when unsubscribed.
---
 src/core/scan_matchers/grid_scan_matcher.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index f5bb096..31adae1 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -210,8 +210,11 @@ protected:
   }
 
   void do_for_each_observer(std::function<void(ObsPtr)> op) {
-    for (auto &obs : observers()) {
-      if (auto obs_ptr = obs.lock()) {
+    // NB: an observer may (un)subscribe observers while it's being notified
+    auto notified_observers = observers();
+    for (auto &obs : notified_observers) {
+      auto obs_ptr = obs.lock();
+      if (obs_ptr && is_subscribed(obs_ptr)) {
         op(obs_ptr);
       }
     }
@@ -221,6 +224,15 @@ protected:
   double max_y_error() { return _max_y_error; }
   double max_th_error() { return _max_th_error; }
 
+private:
+
+  bool is_subscribed(const ObsPtr &obs) const {
+    return std::any_of(_observers.begin(), _observers.end(),
+      [&obs](const std::weak_ptr<GridScanMatcherObserver> &raw_obs) {
+        return raw_obs.lock() == obs;
+    });
+  }
+
 private:
   std::vector<std::weak_ptr<GridScanMatcherObserver>> _observers;
   SPE _scan_prob_estimator;
-- 
2.43.0


From 679a8ad1bf0197cfea8fb7201e60bf4c02e3609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 19/41] fix: don't report the initial pose to an observer gone
 during its test

The test and the update were reported at once, hence an observer that
unsubscribed on the former still got the latter.
---
 src/core/scan_matchers/pose_enumeration_scan_matcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/pose_enumeration_scan_matcher.h b/src/core/scan_matchers/pose_enumeration_scan_matcher.h
index b04b4b0..2b4718b 100644
--- a/src/core/scan_matchers/pose_enumeration_scan_matcher.h
+++ b/src/core/scan_matchers/pose_enumeration_scan_matcher.h
@@ -41,6 +41,8 @@ public:
 
     do_for_each_observer([best_pose, scan, best_pose_prob](ObsPtr obs) {
       obs->on_scan_test(best_pose, scan, best_pose_prob);
+    });
+    do_for_each_observer([best_pose, scan, best_pose_prob](ObsPtr obs) {
       obs->on_pose_update(best_pose, scan, best_pose_prob);
     });
 
-- 
2.43.0


From 23cb124279f3f48d0d1373329b118aea35ac8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 20/41] fix: keep track of a beam's cells after it passes a
 grid node

The error was dropped when a beam went through a common corner of cells,
so unless the slope was 1 the remaining cells were those of another line.
Each beam that leaves the origin for the third quadrant suffers.
---
 src/core/maps/regular_squares_grid.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..90c37cd 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,9 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e += e_x_inc + e_y_inc; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0


From fc429438ee34124699a203fdb8d5b52632258797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 21/41] fix: don't abort on a zero-length beam at a border of a
 cell

A point scanned at the sensor itself was shifted along one axis only, so
it could stay on another edge, which is considered a bug.
---
 src/core/maps/area_occupancy_estimator.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 31a1226..5b8107e 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -71,13 +71,14 @@ private: // methods
     const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
-    Point2D shift;
+    assert((s.is_horiz() || s.is_vert()) &&
+           "BUG: non-axis aligned segment is on rectange edge");
+    Point2D shift{0, 0}; // NB: a zero-length segment is moved along both axes
     if (s.is_horiz()) {
-      shift = {0, (are_equal(s.beg().y, cell.top()) ? -1 : 1) * Shift_Amount};
-    } else if (s.is_vert()) {
-      shift = {(are_equal(s.beg().x, cell.right()) ? -1 : 1) * Shift_Amount, 0};
-    } else {
-      assert(false && "BUG: non-axis aligned segment is on rectange edge");
+      shift.y = (are_equal(s.beg().y, cell.top()) ? -1 : 1) * Shift_Amount;
+    }
+    if (s.is_vert()) {
+      shift.x = (are_equal(s.beg().x, cell.right()) ? -1 : 1) * Shift_Amount;
     }
 
     Segment2D shifted_s{s.beg() + shift, s.end() + shift};
-- 
2.43.0


From 8717824757bf3f7b09f336ae80fdc01f6c1a03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 22/41] fix: save the hidden state of mean and gmapping cells

---
 src/core/maps/naive_grid_cells.h        | 13 +++++++++++++
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From c96c0af7df4b17cd31371d3102d64bc77ee7601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 23/41] fix: refuse truncated saved maps and keep the previous
 content

---
 src/core/maps/plain_grid_map.h              | 18 +++++++++++-------
 src/core/maps/rescalable_caching_grid_map.h | 16 +++++++++++++---
 src/core/serialization.h                    |  4 ++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/core/maps/plain_grid_map.h b/src/core/maps/plain_grid_map.h
index 68430f2..98b2127 100644
--- a/src/core/maps/plain_grid_map.h
+++ b/src/core/maps/plain_grid_map.h
@@ -100,13 +100,11 @@ public: // methods
   void load_state(const std::vector<char>& data) override {
     decltype(width()) w, h;
     decltype(scale()) s;
+    Coord origin;
 
     Deserializer d(data);
-    d >> h >> w >> s >> _origin.x >> _origin.y;
+    d >> h >> w >> s >> origin.x >> origin.y;
 
-    set_width(w);
-    set_height(h);
-    set_scale(s);
   #ifdef COMPRESSED_SERIALIZATION
     std::vector<char> map_data = Deserializer::decompress(
         data.data() + d.pos(), data.size() - d.pos(),
@@ -116,9 +114,8 @@ public: // methods
     const std::vector<char> &map_data = data;
     size_t pos = d.pos();
   #endif
-    _cells.clear();
-    _cells.resize(h);
-    for (auto &row : _cells) {
+    decltype(_cells) cells(h);
+    for (auto &row : cells) {
       row.reserve(w);
       for (int i = 0; i < w; ++i) {
         auto cell = new_cell();
@@ -126,6 +123,13 @@ public: // methods
         row.push_back(std::move(cell));
       }
     }
+
+    // NB: the map is changed only when the whole state is loaded
+    std::swap(_cells, cells);
+    _origin = origin;
+    set_width(w);
+    set_height(h);
+    set_scale(s);
   }
 
 protected: // methods
diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index eb01066..b0fde73 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -1,9 +1,11 @@
 #ifndef SLAM_CTOR_CORE_RESCALABLE_CACHING_GRID_MAP_H
 #define SLAM_CTOR_CORE_RESCALABLE_CACHING_GRID_MAP_H
 
+#include <cmath>
 #include <memory>
 #include <cassert>
 #include <limits>
+#include <stdexcept>
 #include <utility>
 #include <iterator>
 #include <algorithm>
@@ -130,20 +132,28 @@ public:
 
   void load_state(const std::vector<char>& data) override {
     auto map_d = Deserializer{data};
-    _map_cache->clear();
+    auto map_cache = MapCache{};
     while (map_d.pos() != data.size()) {
       decltype(data.size()) chunk_size;
       map_d >> chunk_size;
+      if (data.size() - map_d.pos() < chunk_size) {
+        throw std::out_of_range{"Unable to load map: incomplete scale"};
+      }
       auto ptr = data.begin() + map_d.pos();
-      assert(ptr + chunk_size <= data.end() && "Unable to load map");
       auto map_chunk = std::vector<char>{};
       std::copy(ptr, ptr + chunk_size, std::back_inserter(map_chunk));
       map_d.inc_pose(chunk_size);
 
       BackGridMap curr_map{cell_prototype(), {0, 0, 0}};
       curr_map.load_state(map_chunk);
-      _map_cache->push_back(std::make_unique<BackGridMap>(std::move(curr_map)));
+      map_cache.push_back(std::make_unique<BackGridMap>(std::move(curr_map)));
+    }
+    if (map_cache.size() < 2 || !std::isinf(map_cache.back()->scale())) {
+      throw std::out_of_range{"Unable to load map: missing scales"};
     }
+
+    // NB: the map is changed only when the whole state is loaded
+    std::swap(*_map_cache, map_cache);
     ensure_map_cache_is_continuous();
     set_scale_id(finest_scale_id());
   }
diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..d788c08 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -2,6 +2,7 @@
 #define __SERIALIZATION_H_INCLUDED
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 #include <stdint.h>
 #include <iostream>
@@ -80,6 +81,9 @@ public:
 
     template<typename Type>
     Type read_value() {
+        if (data.size() < ptr || data.size() - ptr < sizeof(Type)) {
+            throw std::out_of_range{"Deserializer: unexpected end of data"};
+        }
         Type value = *reinterpret_cast<const Type*>(data.data() + ptr);
         ptr += sizeof(Type);
         return value;
-- 
2.43.0


From 62aa217547ef495bd5b34f30a27f6ca198a7847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 24/41] fix: refuse incomplete scans, poses and maps

---
 src/core/states/sensor_data.h |  2 +-
 src/utils/sm_runner.cpp       | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/core/states/sensor_data.h b/src/core/states/sensor_data.h
index c35c101..4973642 100644
--- a/src/core/states/sensor_data.h
+++ b/src/core/states/sensor_data.h
@@ -193,7 +193,7 @@ std::istream& operator>>(std::istream &ism, LaserScan2D &scan) {
   for (sp_nm_t sp_i = 0; sp_i < sp_nm; sp_i++) {
     double range = 0, angle = 0;
     bool is_occupied;
-    ism >> range >> angle >> is_occupied;
+    if (!(ism >> range >> angle >> is_occupied)) { break; }
     scan.points().push_back(ScanPoint2D::make_polar(range, angle, is_occupied));
   }
 
diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 7f68dd6..b79c481 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <string>
 #include <cstdlib>
+#include <exception>
 #include <algorithm>
 #include <iterator>
 
@@ -27,7 +28,10 @@ decltype(auto) setup_pose2D(const std::string &fname) {
     std::exit(-1);
   }
   double x = 0, y = 0, theta = 0;
-  pose_fstrm >> x >> y >> theta;
+  if (!(pose_fstrm >> x >> y >> theta)) {
+    std::cout << "Invalid pose in " << fname << std::endl;
+    std::exit(-1);
+  }
   auto pose = RobotPose{x, y, theta};
   pose_fstrm.close();
   return pose;
@@ -43,9 +47,15 @@ decltype(auto) setup_map(const PropertiesProvider &props,
 
   auto map = init_grid_map(props);
   auto buf = std::vector<char>{};
-  std::copy(std::istreambuf_iterator<char>(map_fstrm),
-            std::istreambuf_iterator<char>(), std::back_inserter(buf));
-  map->load_state(buf);
+  try {
+    std::copy(std::istreambuf_iterator<char>(map_fstrm),
+              std::istreambuf_iterator<char>(), std::back_inserter(buf));
+    map->load_state(buf);
+  } catch (const std::exception &e) {
+    std::cout << "Invalid map in " << map_fname << ": " << e.what()
+              << std::endl;
+    std::exit(-1);
+  }
   return map;
 }
 
@@ -56,7 +66,10 @@ decltype(auto) setup_laser_scan2D(const std::string &fname) {
     std::exit(-1);
   }
   auto scan = LaserScan2D{};
-  scan_fstrm >> scan;
+  if (!(scan_fstrm >> scan)) {
+    std::cout << "Invalid scan in " << fname << std::endl;
+    std::exit(-1);
+  }
   scan_fstrm.close();
   return scan;
 }
-- 
2.43.0


From cbd07a47179ea4ced95313e4e864ad16558fa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 25/41] fix: circular includes recursed without end and read
 errors of configuration files were silent

---
 src/utils/properties_providers.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/utils/properties_providers.h b/src/utils/properties_providers.h
index 7ff7ac7..7e343a8 100644
--- a/src/utils/properties_providers.h
+++ b/src/utils/properties_providers.h
@@ -11,6 +11,7 @@
 // TODO: replace with filesystem on standard update
 #include <libgen.h>
 #include <cstring>
+#include <cstdlib>
 #include <memory>
 /* #include <experimental/filesystem> */
 
@@ -94,7 +95,7 @@ public:
   }
 
   decltype(auto) append_file_content(const std::string &path) {
-    _props += parse_file(path);
+    _props += parse_file(path, {});
     return *this;
   }
 
@@ -124,8 +125,26 @@ public:
 
 private:
 
-  MapPropertiesProvider parse_file(const std::string &path) {
+  // the path without symbolic links, "." and ".."
+  static std::string canonical_path(const std::string &path) {
+    auto canonical = std::unique_ptr<char, decltype(&std::free)>{
+      realpath(path.c_str(), nullptr), &std::free
+    };
+    return canonical ? std::string{canonical.get()} : path;
+  }
+
+  // parents - (canonical) files which are being read
+  MapPropertiesProvider parse_file(const std::string &path,
+                                   std::vector<std::string> parents) {
     auto props = MapPropertiesProvider{};
+    auto id_path = canonical_path(path);
+    if (std::find(parents.begin(), parents.end(), id_path) != parents.end()) {
+      std::cout << "[WARN][FilePropertiesProvider] Circular include of file "
+                << path << " is skipped." << std::endl;
+      return props;
+    }
+    parents.push_back(id_path);
+
     auto file = std::ifstream{path};
     if (!file) {
       std::cout << "[WARN][FilePropertiesProvider] File " << path
@@ -143,7 +162,6 @@ private:
       if (buf.empty()) { continue; }
       if (buf.front() == Comment_Marker) { continue; }
       if (buf.front() == Include_Open_Marker) {
-        // TODO: circular includes detection
         if (buf.back() == Include_Close_Marker) {
           // NB: portability - unix specific; use <filesystem> when available
           auto path_copy = std::unique_ptr<char[]>{
@@ -160,7 +178,7 @@ private:
 
           auto included_path = fname_dir + std::string{std::next(buf.begin()),
                                                        std::prev(buf.end())};
-          append_file_content(included_path);
+          _props += parse_file(included_path, parents);
         } else {
           std::cout << "[Warn][FilePropertiesProvider] Line: " << line
                     << ". Include error: last char is not '>'" << std::endl;
@@ -187,6 +205,11 @@ private:
       }
       props.set_property(id, value);
     }
+    if (file.bad()) {
+      std::cout << "[WARN][FilePropertiesProvider] Unable to read file " << path
+                << " to its end, properties after line " << line
+                << " are lost." << std::endl;
+    }
     return props;
   }
 
-- 
2.43.0


From 2698d5d03079f9d25fc16eb73e51b536e0f69f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 26/41] fix: invalid (NaN) laser ranges entered the scan as
 obstacles

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..062f571 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 #define SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 
+#include <cmath>
 #include <utility>
 #include <memory>
 #include <sensor_msgs/LaserScan.h>
@@ -51,7 +52,7 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
+      if (std::isnan(sp_range) || sp_range < msg->range_min) {
         continue;
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
-- 
2.43.0


From 2e1e518c3c3d252c1867185bfa5ee3deb86691af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 27/41] fix: a laser scan message without ranges aborted the
 node

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 062f571..95558c1 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -66,7 +66,8 @@ public: //methods
       transformed_scan.scan.points().emplace_back(sp_range, sp_angle,
                                                   sp_is_occupied);
     }
-    assert(are_equal<double>(sp_angle, msg->angle_max, deg2rad(0.001)));
+    assert(msg->ranges.empty() ||
+           are_equal<double>(sp_angle, msg->angle_max, deg2rad(0.001)));
     return transformed_scan;
   }
 
-- 
2.43.0


From 5e41cdd4adcd8026b1d34db311459ff8cbfbae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 28/41] fix: cached trigonometry missed the last angle and
 clockwise or single beam scans

---
 src/core/trigonometry_utils.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/trigonometry_utils.h b/src/core/trigonometry_utils.h
index 7ef06fc..d8772ee 100644
--- a/src/core/trigonometry_utils.h
+++ b/src/core/trigonometry_utils.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_TRIGONOMETRY_UTILS_H
 #define SLAM_CTOR_CORE_TRIGONOMETRY_UTILS_H
 
+#include <algorithm>
 #include <vector>
 #include <cmath>
 
@@ -43,14 +44,12 @@ public:
   }
 
   double sin(double angle_rad) const override {
-    // std::round is crucial to deal with inaccurate fp values
-    int angle_idx = std::round((angle_rad - _angle_min) / _angle_delta);
+    int angle_idx = angle_index(angle_rad);
     return _sin_base * _cos[angle_idx] + _cos_base * _sin[angle_idx];
   }
 
   double cos(double angle_rad) const override {
-    // std::round is crucial to deal with inaccurate fp values
-    int angle_idx = std::round((angle_rad - _angle_min) / _angle_delta);
+    int angle_idx = angle_index(angle_rad);
     return _cos_base * _cos[angle_idx] - _sin_base * _sin[angle_idx];
   }
 
@@ -60,7 +59,8 @@ public:
   }
 
   void update(double a_min, double a_max, double a_inc) {
-    if (a_min == _angle_min && a_max == _angle_max && a_inc == _angle_delta)
+    if (!_sin.empty() && a_min == _angle_min && a_max == _angle_max &&
+        a_inc == _angle_delta)
       return;
     _sin.clear();
     _cos.clear();
@@ -68,15 +68,25 @@ public:
     _angle_max = a_max;
     _angle_delta = a_inc;
 
-    int angles_nm = (_angle_max - _angle_min) / _angle_delta + 1;
+    // the max angle is cached as well; the increment may be negative
+    int angles_nm = std::max(angle_index(_angle_max) + 1, 0);
     _sin.reserve(angles_nm);
     _cos.reserve(angles_nm);
-    for(double angle = _angle_min; angle < _angle_max; angle += _angle_delta) {
+    double angle = _angle_min;
+    for (int i = 0; i < angles_nm; ++i, angle += _angle_delta) {
       _sin.push_back(std::sin(angle));
       _cos.push_back(std::cos(angle));
     }
   }
 
+private:
+  int angle_index(double angle_rad) const {
+    // a single beam
+    if (_angle_delta == 0) { return 0; }
+    // std::round is crucial to deal with inaccurate fp values
+    return std::round((angle_rad - _angle_min) / _angle_delta);
+  }
+
 private:
   std::vector<double> _sin, _cos;
   double _sin_base, _cos_base;
-- 
2.43.0


From 5db39e8aefcde2abbeb03e4d870174192ca3f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 29/41] fix: the first occupancy grid was withheld while the
 simulated clock was below the publishing interval

---
 src/ros/occupancy_grid_publisher.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ros/occupancy_grid_publisher.h b/src/ros/occupancy_grid_publisher.h
index 7733f6f..8ab359e 100644
--- a/src/ros/occupancy_grid_publisher.h
+++ b/src/ros/occupancy_grid_publisher.h
@@ -17,7 +17,9 @@ public: // method
     _publishing_interval{publ_interval_secs} {}
 
   void on_map_update(const GridMapType &map) override {
-    if ((ros::Time::now() - _last_pub_time) < _publishing_interval) {
+    // NB: simulated time may start close to zero
+    if (_is_published &&
+        (ros::Time::now() - _last_pub_time) < _publishing_interval) {
       return;
     }
 
@@ -47,11 +49,13 @@ public: // method
 
     _map_pub.publish(map_msg);
     _last_pub_time = ros::Time::now();
+    _is_published = true;
   }
 
 private: // fields
   ros::Publisher _map_pub;
   std::string _tf_map_frame_id;
+  bool _is_published = false;
   ros::Time _last_pub_time;
   ros::Duration _publishing_interval;
 };
-- 
2.43.0


From c8e5091f849c7e51df2f8ab7c722c9586a158fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 30/41] fix: a scan recorded before the transforms of its frame
 aborted the bag runner

---
 src/ros/bag_topic_with_transform.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..baae1a7 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -96,6 +96,12 @@ private:
     tf::StampedTransform transform;
     try {
       _tf_cache.lookupTransform(_target_frame, frame_id, time, transform);
+    } catch (const tf::LookupException &) {
+      // ok, frames may be introduced by next transforms
+      return false;
+    } catch (const tf::ConnectivityException &) {
+      // ok, frames may be connected by next transforms
+      return false;
     } catch (const tf::ExtrapolationException &e) {
       auto reason = std::string{e.what()};
       if (reason.find("extrapolation into the future") != std::string::npos) {
-- 
2.43.0


From 72a0ee82c3bbd9b1c5e346ab948c1fb5b2aa42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 31/41] fix: scans behind an unresolvable one were lost at the
 end of a bag

---
 src/ros/bag_topic_with_transform.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index baae1a7..0a183f2 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -65,7 +65,14 @@ public:
       if (has_synced_msg()) { return true; }
     }
 
-    return has_synced_msg();
+    // the rest of messages which can be synced
+    while (!_msg_cache.empty()) {
+      if (has_synced_msg()) { return true; }
+      if (_msg_cache.empty()) { break; }
+      _msg_cache.pop();
+      std::cout << "[WARN][BagTopic] Scan dropped. No transform." << std::endl;
+    }
+    return false;
   }
 
   const auto &msg() const { return _msg;}
@@ -86,8 +93,16 @@ private:
   }
 
   bool has_synced_msg() {
-    if (_msg_cache.empty()) { return false;}
+    // NB: a dropped message must not block the next ones
+    while (!_msg_cache.empty()) {
+      auto msgs_nm = _msg_cache.size();
+      if (try_sync_first_msg()) { return true; }
+      if (msgs_nm == _msg_cache.size()) { break; }
+    }
+    return false;
+  }
 
+  bool try_sync_first_msg() {
     auto msg = _msg_cache.front();
 
     using namespace ros::message_traits;
-- 
2.43.0


From ffdd8745c4bb6dcd8105b6783e514b1d327f817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 32/41] fix: ignored transforms without a leading slash in
 frame ids were used

---
 src/ros/bag_topic_with_transform.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index 0a183f2..c957d60 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -83,8 +83,14 @@ public:
 
 private:
 
+  // NB: a leading slash of frame ids is optional in tf
+  static std::string with_slash(const std::string &frame_id) {
+    return frame_id.find('/') == 0 ? frame_id : "/" + frame_id;
+  }
+
   bool should_skip_tf_transform(const geometry_msgs::TransformStamped &t) {
-    auto from = t.header.frame_id, to = t.child_frame_id;
+    auto from = with_slash(t.header.frame_id);
+    auto to = with_slash(t.child_frame_id);
     if (_tf_ignores.find(from) == _tf_ignores.end()) {
       return false;
     }
-- 
2.43.0


From 619d0ec6038df0d71abc50509e0fbbfe9b7f6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 33/41] fix: time stamps of trajectory dumps lost the leading
 zeros of nanoseconds

---
 src/ros/robot_pose_observers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..663ab74 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,8 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.'
+             << std::setw(9) << std::setfill('0') << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From 5344fb4c977067136e91a7870c1f925c4b1529a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 34/41] fix: scans resolved by the same transform waited for
 more messages and could be lost

---
 src/ros/bag_topic_with_transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c957d60..8f7930f 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -46,6 +46,8 @@ public:
   }
 
   bool extract_next_msg() {
+    // NB: a transform can resolve several messages
+    if (has_synced_msg()) { return true; }
     while (_view_iter != _view.end()) {
       auto ros_msg = *(_view_iter++);
       auto msg_topic = ros_msg.getTopic();
-- 
2.43.0


From 62420abae177ba02e1a79aedab44b2b1e43b93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 35/41] fix: shutting down with asynchronous corrections
 terminated the process

A publishing thread was neither asked to stop nor joined on destruction of
PoseCorrectionTfPublisher: std::terminate() was called and the thread could
have outlived the object it works on.
---
 src/ros/pose_correction_tf_publisher.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ros/pose_correction_tf_publisher.h b/src/ros/pose_correction_tf_publisher.h
index 799bda5..f6457b3 100644
--- a/src/ros/pose_correction_tf_publisher.h
+++ b/src/ros/pose_correction_tf_publisher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 #define SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 
+#include <atomic>
 #include <thread>
 #include <mutex>
 #include <utility>
@@ -28,6 +29,13 @@ public: //methods
     _transform_publisher = std::move(std::thread{loop_f, this});
   }
 
+  ~PoseCorrectionTfPublisher() {
+    _is_stopped = true;
+    if (_transform_publisher.joinable()) {
+      _transform_publisher.join();
+    }
+  }
+
   virtual void handle_transformed_msg(
     const boost::shared_ptr<ObservationType>,
     const tf::StampedTransform& t) override {
@@ -51,7 +59,7 @@ private: //methods
 
   void publishing_loop() {
     ros::Rate rate(1.0 / 0.05);
-    while (ros::ok()) {
+    while (ros::ok() && !_is_stopped) {
       publish_map_to_odom();
       rate.sleep();
     }
@@ -70,6 +78,7 @@ private: // fields
   tf::Transform _last_odom2base;
   tf::Transform _map2odom;
   std::mutex _map2odom_mutex;
+  std::atomic<bool> _is_stopped{false};
   std::thread _transform_publisher;
 };
 
-- 
2.43.0


From d015e071502e8ff6113356f07a70a6dd0d7c675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 36/41] fix: path_publisher publishes poses with the robot's
 heading instead of an all-zero quaternion

---
 src/ros/path_publisher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ros/path_publisher.cpp b/src/ros/path_publisher.cpp
index efd8fe6..20a9a44 100644
--- a/src/ros/path_publisher.cpp
+++ b/src/ros/path_publisher.cpp
@@ -62,6 +62,8 @@ static geometry_msgs::PoseStamped get_current_pose() {
       pose_stamped.header.stamp = stamped_transform.stamp_;
       pose_stamped.pose.position.x = stamped_transform.getOrigin().x();
       pose_stamped.pose.position.y = stamped_transform.getOrigin().y();
+      tf::quaternionTFToMsg(stamped_transform.getRotation(),
+                            pose_stamped.pose.orientation);
 
       return pose_stamped;
     }
-- 
2.43.0


From 71602149db9b5fc17492fc4bb4494936cacdcd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 37/41] fix: wg_pr2_bag_adapter recognises a recorded
 correction whose frames have no leading slash

---
 src/ros/wg_pr2_bag_adapter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ros/wg_pr2_bag_adapter.cpp b/src/ros/wg_pr2_bag_adapter.cpp
index 1addd78..fd6a0fe 100644
--- a/src/ros/wg_pr2_bag_adapter.cpp
+++ b/src/ros/wg_pr2_bag_adapter.cpp
@@ -21,15 +21,21 @@ void on_gt_grid(boost::shared_ptr<nav_msgs::OccupancyGrid> msg) {
   provided_grid.header.frame_id = "provided_map";
 }
 
+// "map" and "/map" name the same frame
+static std::string absolute_frame_id(const std::string &frame_id) {
+  return !frame_id.empty() && frame_id[0] == '/' ? frame_id : "/" + frame_id;
+}
+
 void on_tf_msg(boost::shared_ptr<tf::tfMessage> msg) {
   auto props = LaunchPropertiesProvider{};
   static tf::TransformBroadcaster br;
-  static std::string map_frame_id = "/" + tf_map_frame_id();
-  static std::string odom_frame_id = "/" + tf_odom_frame_id(props);
+  static std::string map_frame_id = absolute_frame_id(tf_map_frame_id());
+  static std::string odom_frame_id =
+    absolute_frame_id(tf_odom_frame_id(props));
 
   for (auto &t : msg->transforms) {
-    if (t.header.frame_id != map_frame_id ||
-        t.child_frame_id != odom_frame_id) {
+    if (absolute_frame_id(t.header.frame_id) != map_frame_id ||
+        absolute_frame_id(t.child_frame_id) != odom_frame_id) {
       br.sendTransform(t);
       continue;
     }
-- 
2.43.0


From 6cba34f0819de38a618c406f01dab5cf329c3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 38/41] fix: wg_pr2_bag_adapter stamps the initial correction
 with the time of the one it replaces

---
 src/ros/wg_pr2_bag_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ros/wg_pr2_bag_adapter.cpp b/src/ros/wg_pr2_bag_adapter.cpp
index fd6a0fe..b277b9f 100644
--- a/src/ros/wg_pr2_bag_adapter.cpp
+++ b/src/ros/wg_pr2_bag_adapter.cpp
@@ -41,12 +41,14 @@ void on_tf_msg(boost::shared_ptr<tf::tfMessage> msg) {
     }
     // handle pose correction provided by bag:
     // - the correction is ignored, initial map->odom is sent instead
+    auto stamp = t.header.stamp;
     if (!gt2map_is_initialized) {
       gt2map_transform = std::move(t);
       gt2map_transform.header.frame_id = "/provided_map";
       gt2map_transform.child_frame_id = "/map";
       gt2map_is_initialized = true;
     }
+    gt2map_transform.header.stamp = stamp;
     br.sendTransform(gt2map_transform);
   }
 }
-- 
2.43.0


From d31499a133e6936541dc2751c719524a4e17a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 39/41] fix: wg_pr2_bag_adapter keeps the transforms that
 arrive between two spins

---
 src/ros/wg_pr2_bag_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ros/wg_pr2_bag_adapter.cpp b/src/ros/wg_pr2_bag_adapter.cpp
index b277b9f..caefd25 100644
--- a/src/ros/wg_pr2_bag_adapter.cpp
+++ b/src/ros/wg_pr2_bag_adapter.cpp
@@ -61,7 +61,7 @@ int main(int argc, char **argv) {
   auto provided_grid_pub = nh.advertise<OccGridMsg>("provided_grid", 10);
   auto provided_grid_sub = nh.subscribe("provided_grid_orig", 10, on_gt_grid);
 
-  auto tf_sub = nh.subscribe("tf_in", 10, on_tf_msg);
+  auto tf_sub = nh.subscribe("tf_in", 1000, on_tf_msg);
 
   ros::Rate rate{7};
   while (ros::ok()) {
-- 
2.43.0


From 66c87944efc783c659029e0bce025a4b273a6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:33 +0000
Subject: [PATCH 40/41] fix: resampled gmapping particles repeated the noise of
 their originals or got none

---
 src/slams/gmapping/gmapping_world.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 1740bd0..b154601 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -80,7 +80,8 @@ public:
 
     // TODO: consider super::handle_observation
 
-    if (!_scan_is_first) {
+    // NB: master is corrected on each step without noise
+    if (!_scan_is_first && !_is_master) {
       // add "noise" to guess extra cost function peak
       auto noise = _pose_guess_rv.sample(_rnd_engine);
       LaserScanGridWorld::update_robot_pose(noise);
@@ -108,17 +109,12 @@ public:
     reset_scan_matching_delta();
   }
 
-  void mark_master() {
-    _is_master = true;
-    // master is corrected on each step without noise
-    _pose_guess_rv = RobotPoseDeltaRV<RandomEngine>{
-      GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
-    _next_sm_delta_rv = RobotPoseDeltaRV<RandomEngine>{
-      GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
-  }
+  void mark_master() { _is_master = true; }
   bool is_master() { return _is_master; }
   void sample() override {
     _is_master = false;
+    // a sampled particle explores on its own, so it must not repeat the noise
+    _rnd_engine.seed(std::random_device{}());
     // a sampled particle maintains its own map (tiles are copied on write)
     _map = std::make_shared<MapType>(dynamic_cast<const MapType&>(*_map));
   }
@@ -127,7 +123,11 @@ private:
 
   void reset_scan_matching_delta() {
     _delta_since_last_sm.reset();
-    _next_sm_delta = _next_sm_delta_rv.sample(_rnd_engine);
+    if (_is_master) {
+      _next_sm_delta.reset();
+    } else {
+      _next_sm_delta = _next_sm_delta_rv.sample(_rnd_engine);
+    }
   }
 
 private:
-- 
2.43.0


From 58da7c08461e4be83fdec50d5351948e6b7a5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:59 +0000
Subject: [PATCH 41/41] fix: occupied share of a wall cell depended on the
 position of the origin

---
 src/core/maps/area_occupancy_estimator.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 5b8107e..95815ba 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -208,19 +208,20 @@ private: // methods
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
-    if (is_occ &&
-        are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
+    if (is_occ && is_before_wall(beam, bnds, {corner_x, corner_y})) {
       area = bnds.area() - area;
     }
     return area;
   }
 
-  bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
-                            const Point2D &p1, const Point2D &p2) {
-    double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+  // The wall crosses the beam at its end; a corner is "before" it if the beam
+  // goes away from the corner towards the rest of the cell.
+  bool is_before_wall(const Segment2D &beam, const Rectangle &bnds,
+                      const Point2D &corner) {
+    double center_x = (bnds.left() + bnds.right()) / 2;
+    double center_y = (bnds.bot() + bnds.top()) / 2;
+    return 0 < (beam.end().x - beam.beg().x) * (center_x - corner.x) +
+               (beam.end().y - beam.beg().y) * (center_y - corner.y);
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0

