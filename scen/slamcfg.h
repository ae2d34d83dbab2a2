// Draws a configuration a user could write and builds the SLAM from it.
#ifndef VERIF_SLAMCFG_H
#define VERIF_SLAMCFG_H
#include "../sim/sim.h"
#include <iostream>
#include <tuple>
#include "utils/properties_providers.h"
#include "utils/init_slam.h"
#include "slams/credibilist/init_slam.h"
#include "slams/gmapping/init_gmapping.h"

enum SlamKind { SLAM_1H, SLAM_CREDIBILIST, SLAM_GMAPPING };
struct SlamCfg { int kind; std::map<std::string, std::string> kv; std::string title;
  template <typename P> void apply(P &p) const { for (auto &e : kv) p.set_property(e.first, e.second); } };
struct SlamCfgOpts { bool bounded_maps = true; bool m3rsm = true; bool gmapping = true; bool heavy = true; double min_scale = 0.1; };

inline std::string cfg_num(double v) { char b[40]; snprintf(b, sizeof b, "%.6f", v); return b; }
inline SlamCfg gen_slam_cfg(const SlamCfgOpts &o) {
  SlamCfg c; auto &kv = c.kv; using V = std::vector<std::string>;
  c.kind = o.gmapping ? sim::weighted({5, 1, 2}) : sim::weighted({5, 1});
  V sms{"HC", "MC", "BF", "BF_M3RSM", "idle", "HC_FIXED"}; if (!o.m3rsm) sms.erase(sms.begin() + 3);
  std::string sm = sim::pick(sms); bool m3 = sm == "BF_M3RSM" && c.kind != SLAM_GMAPPING;
  kv["slam/scmtch/type"] = sm;
  if (sm != "idle" && sm != "BF_M3RSM" && sim::chance(1, 6)) kv["slam/scmtch/use_amb_drift_detector"] = "true";
  kv["slam/scmtch/spe/type"] = "wmpp"; kv["slam/scmtch/spe/wmpp/weighting/type"] = sim::pick(V{"even", "viny", "ahr"});
  if (sim::chance(1, 4)) kv["slam/scmtch/spe/wmpp/sp_skip_rate"] = std::to_string(sim::draw(4));
  if (sim::chance(1, 4)) kv["slam/scmtch/spe/wmpp/sp_max_usable_range"] = cfg_num(sim::real(2, 9));
  if (c.kind == SLAM_GMAPPING) {
    kv["slam/scmtch/oope/type"] = "custom";
    if (sim::chance(1, 3)) kv["slam/scmtch/oope/custom/fullness_threshold"] = cfg_num(sim::real(0.02, 0.6));
    if (sim::chance(1, 3)) kv["slam/scmtch/oope/cutrom/window_size"] = std::to_string(sim::draw(3));
    kv["slam/particles/number"] = std::to_string(1 + sim::draw(5));
    if (sim::chance(1, 2)) kv["slam/particles/sample/xy/sigma"] = cfg_num(sim::real(0.001, 0.2));
    double lo = sim::real(0.02, 0.5); kv["slam/particles/sm_delta_lim/xy/min"] = cfg_num(lo); kv["slam/particles/sm_delta_lim/xy/max"] = cfg_num(lo + sim::real(0.01, 0.3));
    lo = sim::real(0.02, 0.4); kv["slam/particles/sm_delta_lim/theta/min"] = cfg_num(lo); kv["slam/particles/sm_delta_lim/theta/max"] = cfg_num(lo + sim::real(0.01, 0.3));
  } else kv["slam/scmtch/oope/type"] = m3 ? "max" : sim::pick(V{"obstacle", "max", "mean", "overlap"});
  kv["slam/scmtch/oie/type"] = sim::pick(V{"discrepancy", "occupancy"});
  kv["slam/scmtch/MC/seed"] = std::to_string(sim::draw(1000)); kv["slam/scmtch/MC/attempts_limit"] = std::to_string(5 + sim::draw(o.heavy ? 60 : 20)); kv["slam/scmtch/MC/dispersion/failed_attempts_limit"] = std::to_string(1 + sim::draw(10));
  if (sim::chance(1, 2)) kv["slam/scmtch/HC/distortion/failed_attempts_limit"] = std::to_string(1 + sim::draw(5));
  for (auto d : {"x", "y"}) { double l = sim::real(0.05, 0.2); kv[std::string("slam/scmtch/BF/") + d + "/from"] = cfg_num(-l); kv[std::string("slam/scmtch/BF/") + d + "/to"] = cfg_num(l); kv[std::string("slam/scmtch/BF/") + d + "/step"] = "0.1"; }
  kv["slam/scmtch/BF/t/from"] = "-0.05"; kv["slam/scmtch/BF/t/to"] = "0.05"; kv["slam/scmtch/BF/t/step"] = "0.05";
  kv["slam/scmtch/BF_M3RSM/limits/x_translation"] = cfg_num(sim::real(0.1, 0.3)); kv["slam/scmtch/BF_M3RSM/limits/y_translation"] = "0.2"; kv["slam/scmtch/BF_M3RSM/limits/rotation"] = "0.03";
  kv["slam/scmtch/BF_M3RSM/accuracy/rotation"] = "0.015"; kv["slam/scmtch/BF_M3RSM/accuracy/translation"] = "0.08";
  std::string mt = sim::pick(o.bounded_maps ? V{"unbounded_plain", "unbounded_lazy_tiled", "plain", "lazy_tiled"} : V{"unbounded_plain", "unbounded_lazy_tiled"});
  kv["slam/mapping/grid/type"] = mt;
  kv["slam/mapping/grid/area/type"] = sim::pick(V{"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"});
  kv["slam/mapping/corrected_pose_quality"] = cfg_num(sim::real(0.3, 1)); kv["slam/mapping/raw_pose_quality"] = cfg_num(sim::real(0.05, 0.9));
  if (sim::chance(1, 3)) kv["slam/mapping/blur"] = cfg_num(sim::real(0.1, 0.5));
  if (sim::chance(1, 4)) kv["slam/mapping/max_range"] = cfg_num(sim::real(1, 5));
  kv["slam/mapping/observation_quality_estimator/typetype"] = sim::pick(V{"idle", "ahr"});
  kv["slam/occupancy_estimator/type"] = sim::pick(V{"const", "area"});
  if (sim::chance(1, 3)) { kv["slam/occupancy_estimator/base_occupied/prob"] = cfg_num(sim::real(0.6, 0.99)); kv["slam/occupancy_estimator/base_empty/prob"] = cfg_num(sim::real(0.005, 0.4)); kv["slam/occupancy_estimator/base_empty/qual"] = cfg_num(sim::real(0.2, 1)); }
  bool bounded = mt == "plain" || mt == "lazy_tiled";
  double lo = bounded ? 34 : 0.5, hi = bounded ? 40 : 12;
  kv["slam/map/height_in_meters"] = cfg_num(sim::real(lo, hi)); kv["slam/map/width_in_meters"] = cfg_num(sim::real(lo, hi));
  kv["slam/map/meters_per_cell"] = cfg_num(sim::real(bounded ? std::max(0.2, o.min_scale) : o.min_scale, 0.35));
  c.title = std::string(c.kind == SLAM_1H ? "1h " : c.kind == SLAM_GMAPPING ? "gmapping " : "credibilist ") + sm + " " + kv["slam/scmtch/oope/type"] + " " + kv["slam/scmtch/spe/wmpp/weighting/type"] + " " + mt + " " + kv["slam/mapping/grid/area/type"] + " " + kv["slam/occupancy_estimator/type"] + (kv.count("slam/scmtch/use_amb_drift_detector") ? " add" : "");
  return c;
}
inline void silence() { for (auto s : {&std::cout, &std::clog, &std::cerr}) s->setstate(std::ios::failbit); }
#endif
