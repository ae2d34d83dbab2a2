// C20: tracking through sensor faults, recovery, and agreement of the map.
#include "common.h"
#include "env.h"
#include "slamcfg.h"
#include <fstream>

namespace {

using AnyWorld = World<TransformedLaserScan, GridMap>;

// Shipped configurations; the viny weighting hardly constrains lateral shifts, so
// only its heading is bounded.  The bounds are about twice the largest error seen in
// thousands of calibration runs; a dead or misled matcher leaves them because
// the odometry drifts by several of them during a drive.
struct Setup {
  const char *name; int kind; std::vector<const char *> files;   // earlier files win
  double blur, drift, drift_rot;   // mapping blur; largest relative odometry drift
  double xy, th;             // bound of the error while the scans are fine
  double free_bad, wall_bad; // shares of the map that may disagree
};
const Setup &setup(int i) {
  static const std::vector<Setup> all{
    {"tiny", SLAM_1H, {"slams/tiny_slam_base.properties"}, 0.5, 0.03, 0.03, 2.0, 0.45, 0.25, 0.70},
    {"tiny-orig", SLAM_1H, {"slams/tiny_original_cell.properties", "slams/tiny_slam_base.properties"}, 0.5, 0.03, 0.03, 2.0, 0.45, 0.25, 0.70},
    {"viny", SLAM_1H, {"slams/viny_slam_base.properties"}, 0.3, 0.02, 0.04, 1e9, 0.35, 0.30, 0.80},
    {"credibilist", SLAM_CREDIBILIST, {"slams/viny_slam_base.properties"}, 0.3, 0.02, 0.04, 1e9, 0.35, 0.30, 0.80},
    {"tiny-hc", SLAM_1H, {"common/hill_climbing_scan_matching.properties", "slams/tiny_slam_base.properties"}, 0.5, 0.04, 0.04, 0.80, 0.15, 0.03, 0.10},
    {"m3rsm", SLAM_1H, {"common/bf_m3rsm.properties", "slams/tiny_slam_base.properties"}, 0.5, 0.04, 0.04, 1.00, 0.15, 0.03, 0.10},
    {"gmapping", SLAM_GMAPPING, {"slams/gmapping_base.properties"}, 0, 0.04, 0.04, 0.45, 0.20, 0.03, 0.70},
  };
  return all[i];
}

struct Err { double xy, th; };
Err error(const RobotPose &p, const RobotPose &t) { return {std::hypot(p.x - t.x, p.y - t.y), std::fabs(std::remainder(p.theta - t.theta, 2 * M_PI))}; }

std::shared_ptr<AnyWorld> build(const Setup &s, unsigned seed, unsigned particles) {
  FilePropertiesProvider props;
  for (auto f : s.files) props.append_file_content(std::string("/repo/config/") + f);
  auto set = [&](const char *k, const std::string &v) { props.set_property(k, v); };
  set("slam/map/height_in_meters", "14"); set("slam/map/width_in_meters", "14");   // maps grow on demand
  set("slam/scmtch/MC/seed", std::to_string(seed));
  // the shipped 100 attempts leave rare heavy-tailed errors no sharp bound could cover
  set("slam/scmtch/MC/attempts_limit", "400"); set("slam/scmtch/MC/dispersion/failed_attempts_limit", "60");
  if (!strcmp(s.name, "m3rsm")) {
    set("slam/scmtch/BF_M3RSM/limits/x_translation", "0.3"); set("slam/scmtch/BF_M3RSM/limits/y_translation", "0.3");
    set("slam/scmtch/BF_M3RSM/limits/rotation", "0.1"); set("slam/scmtch/BF_M3RSM/accuracy/rotation", "0.01");
  }
  if (s.kind == SLAM_GMAPPING) {
    set("slam/scmtch/spe/type", "wmpp"); set("slam/scmtch/spe/wmpp/weighting/type", "even"); set("slam/scmtch/oope/type", "custom");
    set("slam/particles/number", std::to_string(particles)); set("slam/map/meters_per_cell", "0.1");
    return init_gmapping(props);
  }
  if (s.kind == SLAM_CREDIBILIST) return init_credibilist_slam(props);
  return init_1h_slam(props);
}

enum Fault { LOST, EMPTY, DUPLICATED, NOISY, BLOCKED, SLIP };
const char *fault_name[] = {"lost_scan", "empty_scan", "duplicated_scan", "noisy_scan", "blocked_scan", "odometry_slip"};
const int RECOVERY = 12;     // good scans after which the error must be normal again

}  // namespace

SCENARIO(track, "c20.track") {
  const char *only = getenv("C20_ONLY");   // calibration aid
  const Setup *sp = &setup(sim::weighted({2, 1, 2, 1, 5, 1, 1}));
  if (only) for (int i = 0; i < 7; ++i) if (!strcmp(setup(i).name, only)) sp = &setup(i);
  Env env = gen_env(4);
  Lidar lidar; lidar.beams = (sp->th < 0.25 ? 160 : 360) + (int)sim::draw(100); lidar.max_range = 18; lidar.noise = sim::chance(1, 2) ? 0 : 0.02;
  sim::set_entropy(sim::draw(1 << 20));
  silence();
  auto slam = build(*sp, sim::draw(1000), 8 + sim::draw(8));
  Drive dr; dr.drift_trans = sim::sreal(sp->drift); dr.drift_rot = (sim::chance(1, 2) ? 1 : -1) * sim::real(sp->drift_rot / 2, sp->drift_rot);
  int total = 70 + (int)sim::draw(70), burst = 0, kind = 0, since = RECOVERY, bursts = 0; double turn = 0, width = 0, dir = 0;
  double mx[3] = {0, 0, 0}, mt[3] = {0, 0, 0};
  RobotPose used{0, 0, 0}, odom{0, 0, 0};
  sim::log("%s room %.2f x %.2f boxes %zu beams %d noise %.2f drift %.3f %.3f", sp->name, env.hx, env.hy, env.boxes.size(), lidar.beams, lidar.noise, dr.drift_trans, dr.drift_rot);
  for (int s = 0; s < total; ++s) {
    sim::Span span; sim::step(); sim::advance(0.1);
    if (s % 8 == 0) turn = sim::sreal(0.15);
    auto d = s == 0 ? RobotPoseDelta{0, 0, 0} : dr.step(env, sim::real(0.04, 0.16), turn);
    odom = RobotPose{odom.x + d.x, odom.y + d.y, odom.theta + d.theta};
    if (burst == 0 && s > 15 && s < total - RECOVERY - 6 && since > RECOVERY && sim::chance(1, 6)) {
      kind = (int)sim::draw(6); burst = kind == SLIP ? 1 : 1 + (int)sim::draw(4); ++bursts;
      dir = sim::sreal(2); width = sim::real(0.1, 0.6);
    }
    bool good = burst == 0, deliver = true;
    LaserScan2D scan = make_scan(env, lidar, dr.truth);
    if (!good) {
      --burst; sim::fault(fault_name[kind]);
      LaserScan2D bad;
      if (kind == LOST) deliver = false;
      else if (kind == EMPTY) scan = bad;
      else if (kind == NOISY) { for (auto &q : scan.points()) bad.points().push_back(ScanPoint2D::make_polar(std::max(0.2, q.range() + sim::sreal(0.15)), q.angle(), q.is_occupied())); scan = bad; }
      else if (kind == BLOCKED) { for (auto &q : scan.points()) bad.points().push_back(std::fabs(q.angle() - dir) < width ? ScanPoint2D::make_polar(std::min(0.6, q.range()), q.angle(), true) : q); scan = bad; }
      else if (kind == SLIP) odom = RobotPose{odom.x + sim::sreal(0.1), odom.y + sim::sreal(0.1), odom.theta + sim::sreal(0.06)};
    }
    if (deliver) {
      TransformedLaserScan ts; ts.quality = 1; ts.scan = scan; ts.pose_delta = odom - used; used = odom;
      slam->handle_sensor_data(ts);
      if (!good && kind == DUPLICATED) { ts.pose_delta = RobotPoseDelta{0, 0, 0}; slam->handle_sensor_data(ts); }
    }
    since = good ? since + 1 : 0;
    const auto p = slam->pose(); auto e = error(p, dr.truth);
    sim::log("%d %s pose %.3f %.3f %.3f truth %.3f %.3f %.3f err %.3f %.3f", s, good ? "good" : fault_name[kind], p.x, p.y, p.theta, dr.truth.x, dr.truth.y, dr.truth.theta, e.xy, e.th);
    int cls = !good ? 0 : since < RECOVERY ? 1 : 2;
    mx[cls] = std::max(mx[cls], e.xy); mt[cls] = std::max(mt[cls], e.th);
    if (cls == 2) {
      EXPECT(e.xy <= sp->xy, bursts ? "not-recovered" : "tracking-lost", "%s: position error %.2f m (bound %.2f) at scan %d, %d good scans after the last fault, odometry is %.2f m off", sp->name, e.xy, sp->xy, s, since, error(odom, dr.truth).xy);
      EXPECT(e.th <= sp->th, bursts ? "not-recovered" : "tracking-lost", "%s: heading error %.3f rad (bound %.3f) at scan %d, %d good scans after the last fault, odometry is %.3f rad off", sp->name, e.th, sp->th, s, since, error(odom, dr.truth).th);
    }
    sim::hashd(p.x); sim::hashd(p.theta);
    sim::state((uint64_t)(sp - &setup(0)) * 100000 + (uint64_t)(good ? 9 : kind) * 10000 + std::min(20, since) * 100 + (uint64_t)std::min(20.0, e.xy * 20));
  }
  // the map against the environment
  const GridMap &m = slam->map(); const auto p = slam->pose(); double cs = m.scale();
  long fr = 0, frbad = 0, wl = 0, wlbad = 0;
  for (double x = -env.hx; x < env.hx; x += 0.15) for (double y = -env.hy; y < env.hy; y += 0.15) {
    if (env.clearance(x, y) < sp->blur + 0.35) continue;
    auto c = m.world_to_cell(x, y); if (!m.has_cell(c) || m[c].is_unknown()) continue;
    ++fr; if (m[c].occupancy().prob_occ > 0.5) ++frbad;
  }
  for (auto &q : make_scan(env, lidar, dr.truth).points()) if (q.is_occupied()) {
    auto c = m.world_to_cell(q.move_origin(p.x, p.y, p.theta));
    int r = (int)std::ceil((sp->th > 0.25 ? 0.6 : 0.25) / cs); bool ok = false;
    for (int dx = -r; dx <= r; ++dx) for (int dy = -r; dy <= r; ++dy) { Coord cc{c.x + dx, c.y + dy}; if (m.has_cell(cc) && !m[cc].is_unknown() && m[cc].occupancy().prob_occ > 0.5) ok = true; }
    ++wl; if (!ok) ++wlbad;
  }
  sim::log("map: %ld of %ld free points occupied, %ld of %ld wall returns unmapped", frbad, fr, wlbad, wl);
  if (const char *f = getenv("C20_DUMP")) {
    FILE *dump = fopen(f, "a"); auto oe = error(odom, dr.truth);
    fprintf(dump, "%s bad %.3f %.3f rec %.3f %.3f good %.3f %.3f odom %.3f %.3f free %ld/%ld wall %ld/%ld\n", sp->name, mx[0], mt[0], mx[1], mt[1], mx[2], mt[2], oe.xy, oe.th, frbad, fr, wlbad, wl); fclose(dump);
  }
  EXPECT(fr > 50, "map-missing", "%s: only %ld free points of the room are known after %d scans", sp->name, fr, total);
  EXPECT(frbad <= sp->free_bad * fr, "map-free", "%s: %ld of %ld known points well inside free space are occupied in the map", sp->name, frbad, fr);
  EXPECT(wlbad <= sp->wall_bad * wl, "map-wall", "%s: %ld of %ld wall returns are not near anything occupied in the map", sp->name, wlbad, wl);
  if (bursts) sim::nontrivial();
}

// The bounds of c20.track cover the worst of thousands of drives.  The typical
// error is far smaller and hardly varies: the median of several drives.
SCENARIO(typical, "c20.typical") {
  struct T { int setup; double xy, th; };   // bounds of the medians
  // bounds: ~1.7x the worst of 64..228 calibration runs per set-up (DESIGN, C20)
  static const T ts[] = {{0, 0.30, 0.09}, {4, 0.36, 0.04}, {5, 0.38, 0.02}, {6, 0.07, 0.05}, {1, 0.40, 0.09}, {2, 0.40, 0.09}, {3, 0.40, 0.10}};
  const char *only = getenv("C20_ONLY");
  const T *t = &ts[sim::weighted({2, 4, 1, 2, 1, 1, 1})];
  if (only) for (auto &x : ts) if (!strcmp(setup(x.setup).name, only)) t = &x;
  const Setup &sp = setup(t->setup);
  silence();
  int drives = 7, burst_kind = sim::chance(1, 2) ? (int)sim::draw(6) : -1;
  std::vector<double> exy, eth, oxy, oth;
  for (int k = 0; k < drives; ++k) {
    Env env = gen_env(4);
    Lidar lidar; lidar.beams = sp.th < 0.25 ? 160 : 300; lidar.max_range = 18; lidar.noise = 0.01;
    sim::set_entropy(sim::draw(1 << 20));
    auto slam = build(sp, sim::draw(1000), 8);
    Drive dr; dr.drift_trans = sim::chance(1, 2) ? sp.drift : -sp.drift; dr.drift_rot = sim::chance(1, 2) ? sp.drift_rot : -sp.drift_rot;
    int total = 55, at = 20 + (int)sim::draw(8), n = 0; double turn = 0, sxy = 0, sth = 0;
    RobotPose used{0, 0, 0}, odom{0, 0, 0};
    for (int s = 0; s < total; ++s) {
      sim::step(); sim::advance(0.1);
      if (s % 8 == 0) turn = sim::sreal(0.15);
      auto d = s == 0 ? RobotPoseDelta{0, 0, 0} : dr.step(env, 0.1, turn);
      odom = RobotPose{odom.x + d.x, odom.y + d.y, odom.theta + d.theta};
      bool bad = burst_kind >= 0 && s >= at && s < at + (burst_kind == SLIP ? 1 : 3);
      LaserScan2D scan = make_scan(env, lidar, dr.truth);
      if (bad) {
        sim::fault(fault_name[burst_kind]);
        LaserScan2D b; double dir = sim::sreal(2);
        if (burst_kind == LOST) continue;
        if (burst_kind == EMPTY) scan = b;
        else if (burst_kind == NOISY) { for (auto &q : scan.points()) b.points().push_back(ScanPoint2D::make_polar(std::max(0.2, q.range() + sim::sreal(0.1)), q.angle(), q.is_occupied())); scan = b; }
        else if (burst_kind == BLOCKED) { for (auto &q : scan.points()) b.points().push_back(std::fabs(q.angle() - dir) < 0.3 ? ScanPoint2D::make_polar(std::min(0.6, q.range()), q.angle(), true) : q); scan = b; }
        else if (burst_kind == SLIP) odom = RobotPose{odom.x + sim::sreal(0.08), odom.y + sim::sreal(0.08), odom.theta + sim::sreal(0.04)};
      }
      TransformedLaserScan ts2; ts2.quality = 1; ts2.scan = scan; ts2.pose_delta = odom - used; used = odom;
      slam->handle_sensor_data(ts2);
      if (bad && burst_kind == DUPLICATED) { ts2.pose_delta = RobotPoseDelta{0, 0, 0}; slam->handle_sensor_data(ts2); }
      auto e = error(slam->pose(), dr.truth);
      if (s >= total - 15) { sxy += e.xy; sth += e.th; ++n; }
      sim::hashd(e.xy);
    }
    exy.push_back(sxy / n); eth.push_back(sth / n); auto oe = error(odom, dr.truth); oxy.push_back(oe.xy); oth.push_back(oe.th);
    sim::log("drive %d: mean error %.3f m %.4f rad over the last scans, odometry is %.3f m %.3f rad off", k, exy.back(), eth.back(), oe.xy, oe.th);
  }
  auto med = [](std::vector<double> v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; };
  if (const char *f = getenv("C20_DUMP")) { FILE *dump = fopen(f, "a"); fprintf(dump, "%s burst %d med %.4f %.4f odom %.4f %.4f\n", sp.name, burst_kind, med(exy), med(eth), med(oxy), med(oth)); fclose(dump); }
  EXPECT(med(exy) <= t->xy, "tracking-degraded", "%s: half of %d drives end with a position error above %.3f m (bound %.3f)", sp.name, drives, med(exy), t->xy);
  EXPECT(med(eth) <= t->th, "tracking-degraded", "%s: half of %d drives end with a heading error above %.4f rad (bound %.4f)", sp.name, drives, med(eth), t->th);
  sim::state((uint64_t)t->setup * 1000 + (uint64_t)(med(exy) * 200)); sim::nontrivial();
}
