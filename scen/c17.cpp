// C17: map and trajectory dumps are complete or detectably incomplete.
// Real: map and trajectory dumpers, whole SLAMs, the bag runner, libstdc++ streams.  The disk and ROS are simulated.
#include "scen/common.h"
#include "scen/bags.h"
#include "sim/fileio.h"
#include "scen/slamcfg.h"
#include <sys/mman.h>
#define main bag_runner_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main

namespace {
struct Image { std::string head; std::vector<double> v; size_t size() const { return head.size() + v.size(); } };
template <typename M> Image image_of(const M &m) {
  Image i; int w = m.width(), h = m.height(); auto o = m.origin(); i.head = "P5\n" + std::to_string(w) + "\n" + std::to_string(h) + "\n255\n";
  for (int y = h - 1 - o.y; y >= -o.y; --y) for (int x = -o.x; x < w - o.x; ++x) { double occ = m.occupancy({x, y}); i.v.push_back(255 * (occ == -1 ? 0.5 : 1 - std::max(0.0, std::min(1.0, occ)))); }
  return i;
}
bool is_prefix(const Image &i, const std::string &d, std::string &why) {
  if (d.size() > i.size()) { why = "is longer than the " + std::to_string(i.size()) + " bytes of the correct file"; return false; }
  for (size_t k = 0; k < d.size(); ++k) {
    if (k < i.head.size() ? d[k] != i.head[k] : std::fabs((unsigned char)d[k] - i.v[k - i.head.size()]) > 1.01) {
      why = "differs at byte " + std::to_string(k) + " of " + std::to_string(i.size()) + ": " + std::to_string((unsigned char)d[k]) + (k < i.head.size() ? " in the header" : ", should be about " + std::to_string(i.v[k - i.head.size()])); return false; } }
  return true;
}
struct Line { unsigned sec, nsec; RobotPose p; };
// compares the complete lines on disk; returns how many there are
size_t check_lines(const std::string &d, const std::vector<Line> &want, bool complete) {
  size_t pos = 0, k = 0;
  while (pos < d.size()) {
    size_t e = d.find('\n', pos); bool whole = e != std::string::npos; std::string l = d.substr(pos, whole ? e - pos : std::string::npos); pos = whole ? e + 1 : d.size();
    EXPECT(k < want.size(), "trajectory-extra", "the trajectory has more than the %zu logged poses: '%s'", want.size(), l.c_str());
    const auto &w = want[k]; char st[64]; snprintf(st, sizeof st, "%u.%09u ", w.sec, w.nsec); std::string stamp = st;
    if (!whole) { EXPECT(!complete, "trajectory-cut", "the last line is not terminated: '%s'", l.c_str()); size_t n = std::min(l.size(), stamp.size()); EXPECT(l.compare(0, n, stamp, 0, n) == 0, "trajectory-not-a-prefix", "the unfinished line '%s' should begin with '%s'", l.c_str(), st); break; }
    EXPECT(l.compare(0, stamp.size(), stamp) == 0, "trajectory-stamp", "line %zu '%s' should carry the time %s", k, l.c_str(), st);
    double x, y, z, a, b, c, q; char rest; int n = sscanf(l.c_str() + stamp.size(), "%lf %lf %lf %lf %lf %lf %lf%c", &x, &y, &z, &a, &b, &c, &q, &rest);
    EXPECT(n == 7, "trajectory-format", "line %zu is '%s'", k, l.c_str());
    auto near = [](double v, double r) { return std::fabs(v - r) <= 6e-6 * std::fabs(r) + 1e-12; };
    double dt = std::remainder(2 * std::atan2(c, q) - w.p.theta, 2 * M_PI);
    EXPECT(near(x, w.p.x) && near(y, w.p.y) && z == 0 && std::fabs(a) < 1e-12 && std::fabs(b) < 1e-12 && std::fabs(dt) < 1e-5, "trajectory-pose", "line %zu '%s' is for the pose (%.9g, %.9g, %.9g)", k, l.c_str(), w.p.x, w.p.y, w.p.theta);
    ++k;
  }
  if (complete) EXPECT(k == want.size(), "trajectory-line-lost", "%zu lines for %zu logged poses on a healthy disk", k, want.size());
  return k;
}
struct Progress { int dumps[2], logged; bool open; };
Progress *progress() { static Progress *p = (Progress *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p; }
RobotPose gen_pose() { double s = sim::pick(std::vector<double>{0.001, 1, 30, 30, 5000}); return RobotPose{sim::chance(1, 10) ? 0 : sim::sreal(s), sim::chance(1, 10) ? 0 : sim::sreal(s), sim::chance(1, 10) ? (sim::chance(1, 2) ? M_PI : 0) : sim::sreal(sim::chance(1, 4) ? 40 : 3.2)}; }
void gen_faults(sim::IoPlan &pl, int &crash, int64_t total) {
  pl.on = true; crash = 0;
  if (sim::chance(1, 2)) pl.eintr = (int)sim::draw(40);
  int k = sim::weighted({2, 3, 3, 3, 2}); int64_t at = total > 0 ? sim::draw((uint32_t)std::min<int64_t>(total + 10, 2000000000)) : 0;
  bool sw = k != 4 && sim::chance(1, 2); if (sw) pl.short_write = 1 + (int)sim::draw(60);
  if (k == 1) pl.disk_bytes = at;
  if (k == 2) { pl.crash_at = std::max<int64_t>(1, at); crash = 1; }
  if (k == 3) pl.write_fail_at = 1 + (int)sim::draw(20);
  if (k == 4) { pl.write_fail_at = 1 + (int)sim::draw(20); pl.write_fail_len = 1 + (int)sim::draw(4); }
}
}  // namespace

SCENARIO(dump, "c17.dump") {
  silence(); rossim::reset_world(); ros::Time::init(); auto &w = rossim::w(); w.now_ns = sim::chance(1, 3) ? 0 : sim::chance(1, 2) ? rosnet::ns(sim::real(0, 100)) : rosnet::ns(1.5e9);
  std::string d = sim::scratch() + "/"; int ND = 1 + (int)sim::draw(2);
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 12; ++i) std::remove((d + "m" + std::to_string(k) + "_" + std::to_string(i) + ".pgm").c_str());
  std::remove((d + "traj").c_str());
  int mk = (int)sim::draw(MAP_KINDS), ck = (int)sim::draw(CELL_KINDS); bool unb = map_unbounded(mk);
  GridMapParams p{1 + (int)sim::draw(sim::chance(1, 6) ? 110 : 12), 1 + (int)sim::draw(sim::chance(1, 6) ? 110 : 12), sim::real(0.02, 1)};
  // the history, its correct files
  struct Op { int kind; std::vector<std::pair<Coord, AreaOccupancyObservation>> upd; RobotPose pose; unsigned sec, nsec; int64_t clock; };
  std::vector<Op> ops; std::vector<Image> img[2]; std::vector<Line> lines; int64_t total = 0;
  { auto m = make_map(mk, make_cell(ck), p); int n = 2 + (int)sim::draw(14);
    for (int i = 0; i < n; ++i) {
      sim::Span sp; Op o; o.kind = sim::weighted({3, 2, ND == 2 ? 2 : 0, 3, 2}); if ((o.kind == 1 && img[0].size() == 10) || (o.kind == 2 && img[1].size() == 10)) o.kind = 3;
      if (o.kind == 0) { int u = 1 + (int)sim::draw(8); for (int k = 0; k < u; ++k) { auto og = m->origin(); Coord c{(int)sim::draw(m->width()) - og.x, (int)sim::draw(m->height()) - og.y}; if (unb && sim::chance(1, 6) && m->width() * m->height() < 3000) c = Coord{c.x + sim::around(9), c.y + sim::around(9)}; auto a = gen_aoo(ck != CELL_BASE); m->update(c, a); o.upd.push_back({c, a}); } }
      if (o.kind == 1 || o.kind == 2) { img[o.kind - 1].push_back(image_of(*m)); total += img[o.kind - 1].back().size(); }
      if (o.kind >= 3) { o.pose = gen_pose(); w.now_ns += sim::draw(4) * (int64_t)sim::draw(1500000000); o.clock = w.now_ns; ros::Time t = ros::Time::now(); if (o.kind == 3) { t.sec = sim::chance(1, 4) ? sim::draw(5) : 1300000000 + sim::draw(400000000); t.nsec = sim::chance(1, 3) ? sim::draw(1000) : sim::draw(1000000000); } o.sec = t.sec; o.nsec = t.nsec; lines.push_back({t.sec, t.nsec, o.pose}); total += 60; }
      ops.push_back(o);
    } }
  bool flush = sim::chance(1, 2); sim::IoPlan pl; int crash = 0; bool faulty = sim::chance(3, 4); if (faulty) gen_faults(pl, crash, total);
  if (faulty && sim::chance(1, 8)) pl.open_fail = d + (sim::chance(1, 3) ? "traj" : "m0_" + std::to_string(sim::draw(3)) + ".pgm");
  bool hard = faulty && (pl.disk_bytes >= 0 || pl.write_fail_at || crash || !pl.open_fail.empty());
  *progress() = Progress{};
  auto work = [&] {
    auto m = make_map(mk, make_cell(ck), p); std::vector<std::unique_ptr<GridMapToPgmDumber>> du; for (int k = 0; k < ND; ++k) du.push_back(std::make_unique<GridMapToPgmDumber>(d + "m" + std::to_string(k)));
    auto tr = std::make_unique<RobotPoseTumTrajectoryDumper>(d + "traj", flush);
    for (auto &o : ops) {
      sim::step();
      if (o.kind == 0) for (auto &u : o.upd) m->update(u.first, u.second);
      else if (o.kind < 3) { du[o.kind - 1]->on_map_update(*m); ++progress()->dumps[o.kind - 1]; }
      else if (o.kind == 3) { tr->log_robot_pose(ros::Time{o.sec, o.nsec}, o.pose); ++progress()->logged; }
      else { w.now_ns = o.clock; tr->on_pose_update(o.pose); ++progress()->logged; }
    }
    // files of finished dumps are complete while the dumpers are still alive
    if (!crash) for (int k = 0; k < ND; ++k) for (size_t i = 0; i < img[k].size(); ++i) {
      std::string f = d + "m" + std::to_string(k) + "_" + std::to_string(i) + ".pgm", data, why;
      if (!sim::get_file(f, data)) { EXPECT(hard, "dump-missing", "dump %zu of dumper %d has no file", i, k); continue; }
      EXPECT(is_prefix(img[k][i], data, why), "dump-not-a-prefix", "the file of dump %zu %s", i, why.c_str());
      if (!hard) EXPECT(data.size() == img[k][i].size(), "dump-incomplete", "dump %zu has %zu of %zu bytes on a healthy disk", i, data.size(), img[k][i].size());
    }
    std::string data; if (flush && !hard) { sim::get_file(d + "traj", data); EXPECT(check_lines(data, lines, true) == lines.size(), "flushed-line-lost", "not all flushed lines are on disk"); }
    tr.reset(); return 7; };
  sim::io_reset(pl); int rc = 7; if (crash) rc = sim::subprocess(work); else rc = work();
  bool failed = sim::io_failed(); sim::io_reset({});
  bool crashed = rc == sim::Crash_Code; EXPECT(crashed || rc == 7, "slam-affected", "the program ends with status %d instead of carrying on", rc);
  sim::log("%s %s, %zu operations, %zu+%zu dumps, %zu lines, flush %d, %s %s", map_name(mk), cell_name(ck), ops.size(), img[0].size(), img[1].size(), lines.size(), flush, faulty ? "faulty disk" : "healthy disk", crashed ? "crash" : "");
  sim::hash(progress()->logged);
  for (int k = 0; k < ND; ++k) for (size_t i = 0; i < img[k].size(); ++i) {
    std::string f = d + "m" + std::to_string(k) + "_" + std::to_string(i) + ".pgm", data, why; bool there = sim::get_file(f, data); bool done = (int)i < progress()->dumps[k];
    sim::hash(data.size());
    if (!there) { EXPECT(f == pl.open_fail || (crashed ? !done : hard), "dump-missing", "dump %zu of dumper %d has no file", i, k); continue; }
    EXPECT(is_prefix(img[k][i], data, why), "dump-not-a-prefix", "the file of dump %zu %s", i, why.c_str());
    if (!failed && done) EXPECT(data.size() == img[k][i].size(), "dump-incomplete", "finished dump %zu has %zu of %zu bytes, the disk did not fail%s", i, data.size(), img[k][i].size(), crashed ? " before the crash" : "");
  }
  std::string data; if (sim::get_file(d + "traj", data)) {
    size_t n = check_lines(data, lines, !failed && !crashed);
    if (crashed && flush && !failed) EXPECT((int)n >= progress()->logged, "flushed-line-lost", "%d lines were flushed before the crash, %zu are on disk", progress()->logged, n);
  } else EXPECT(failed || crashed, "no-trajectory", "there is no trajectory file");
  if (img[0].size() + img[1].size() + lines.size() > 1) sim::nontrivial();
  sim::state(((uint64_t)mk * 8 + ck) * 4096 + img[0].size() * 256 + lines.size() * 8 + faulty * 4 + crash * 2 + failed); rossim::reset_world();
}

SCENARIO(slam, "c17.slam") {
  silence(); rossim::reset_world(); ros::Time::init(); auto &w = rossim::w(); w.now_ns = rosnet::ns(1.2e9);
  SlamCfgOpts o; o.heavy = false; o.min_scale = 0.2; SlamCfg c = gen_slam_cfg(o); uint64_t ent = sim::draw(1000);
  std::string d = sim::scratch() + "/"; for (int i = 0; i < 8; ++i) std::remove((d + "map_" + std::to_string(i) + ".pgm").c_str()); std::remove((d + "traj").c_str());
  Env e = gen_env(3); Lidar l; l.beams = 10 + (int)sim::draw(50); l.max_range = sim::real(3, 9); ::Drive dr; dr.drift_rot = sim::sreal(0.1);
  std::vector<TransformedLaserScan> scans; int n = 2 + (int)sim::draw(5);
  for (int i = 0; i < n; ++i) { sim::Span sp; TransformedLaserScan s; s.pose_delta = i ? dr.step(e, sim::real(0, 0.4), sim::sreal(0.3)) : RobotPoseDelta{0, 0, 0}; s.quality = 1; s.scan = make_scan(e, l, dr.truth); scans.push_back(s); }
  std::vector<RobotPose> ref; std::vector<Image> img; std::vector<Line> lines; int64_t total = 0;
  struct TrajObs : WorldPoseObserver { std::vector<RobotPose> p; void on_pose_update(const RobotPose &q) override { p.push_back(q); } };
  struct MapObs : WorldMapObserver<GridMap> { std::vector<Image> i; void on_map_update(const GridMap &m) override { i.push_back(image_of(m)); } };
  MapPropertiesProvider props; c.apply(props);
  auto feed = [&](auto slam, auto &poses) { for (auto &s : scans) { sim::step(); auto t = s; w.now_ns += 123456789; slam->handle_sensor_data(t); poses.push_back(slam->pose()); } };
  bool grid = c.kind != SLAM_GMAPPING;
  auto run = [&](std::shared_ptr<WorldPoseObserver> po, std::shared_ptr<WorldMapObserver<GridMap>> mo, auto &poses) {
    sim::set_entropy(ent); w.now_ns = rosnet::ns(1.2e9);
    if (c.kind == SLAM_GMAPPING) { auto s = init_gmapping(props); s->subscribe_pose(po); feed(s, poses); }
    else { auto s = c.kind == SLAM_1H ? init_1h_slam(props) : init_credibilist_slam(props); s->subscribe_pose(po); s->subscribe_map(mo); feed(s, poses); } };
  auto to = std::make_shared<TrajObs>(); auto mo = std::make_shared<MapObs>(); run(to, mo, ref); img = mo->i;
  { int64_t t = rosnet::ns(1.2e9); size_t per = ref.size() ? to->p.size() / ref.size() : 0; EXPECT(per * ref.size() == to->p.size(), "pose-notifications", "%zu pose notifications for %zu scans", to->p.size(), ref.size()); for (size_t i = 0; i < to->p.size(); ++i) { if (i % per == 0) t += 123456789; lines.push_back({(unsigned)(t / 1000000000), (unsigned)(t % 1000000000), to->p[i]}); } }
  for (auto &i : img) total += i.size(); total += 60 * lines.size();
  sim::IoPlan pl; int crash; gen_faults(pl, crash, total); if (crash) { pl.crash_at = -1; pl.disk_bytes = sim::draw((uint32_t)total + 1); } bool flush = sim::chance(1, 2);
  sim::io_reset(pl); std::vector<RobotPose> got;
  { auto td = std::make_shared<RobotPoseTumTrajectoryDumper>(d + "traj", flush); auto md = std::make_shared<GridMapToPgmDumber>(d + "map"); run(td, md, got); }
  bool failed = sim::io_failed(); sim::io_reset({});
  sim::log("%s, %d scans, %s", c.title.c_str(), n, failed ? "disk fails" : "disk works");
  for (int i = 0; i < n; ++i) { EXPECT(std::memcmp(&ref[i], &got[i], sizeof(RobotPose)) == 0, "slam-affected", "pose after scan %d is (%.9g, %.9g, %.9g), without dumps (%.9g, %.9g, %.9g)", i, got[i].x, got[i].y, got[i].theta, ref[i].x, ref[i].y, ref[i].theta); sim::hashd(got[i].x); }
  for (size_t i = 0; grid && i < img.size() && i < 8; ++i) {
    std::string data, why; bool there = sim::get_file(d + "map_" + std::to_string(i) + ".pgm", data); EXPECT(there, "dump-missing", "map dump %zu has no file", i);
    EXPECT(is_prefix(img[i], data, why), "dump-not-a-prefix", "the file of map dump %zu %s", i, why.c_str()); if (!failed) EXPECT(data.size() == img[i].size(), "dump-incomplete", "map dump %zu has %zu of %zu bytes", i, data.size(), img[i].size());
  }
  std::string data; EXPECT(sim::get_file(d + "traj", data), "no-trajectory", "there is no trajectory file"); check_lines(data, lines, !failed);
  if (failed) sim::nontrivial();
  sim::state((uint64_t)data.size() * 8 + c.kind * 2 + failed); rossim::reset_world();
}

SCENARIO(runner, "c17.runner") {
  silence(); rossim::reset_world(); rossim::w().now_ns = rosnet::ns(sim::real(0.1, 50));
  Env e = gen_env(3); bags::Opts o; o.env = &e; o.junk = o.gaps = o.bad_ranges = false; o.faulty = sim::chance(1, 3); o.len_hi = 4; o.sc_lo = 0.2; o.sc_hi = 0.8; o.beams_lo = 20; o.beams_hi = 60;
  bags::Rec r = bags::record(o); rossim::w().bags["drive.bag"] = r.entries;
  SlamCfgOpts so; so.heavy = false; so.min_scale = 0.2; SlamCfg c = gen_slam_cfg(so); bool gm = c.kind == SLAM_GMAPPING; auto &kv = c.kv;
  kv["in/lscan2D/ros/topic/enabled"] = "true"; kv["in/odometry/ros/tf/enabled"] = "true"; kv["in/lscan2D/ros/topic/name"] = r.scan_topic; kv["in/odometry/ros/tf/name"] = r.tf_topic; kv["in/odometry/ros/tf/odom_frame_id"] = r.odom;
  std::string d = sim::scratch() + "/", text; for (auto &p : kv) text += p.first + "=" + p.second + "\n"; sim::put_file(d + "cfg", text);
  uint64_t ent = sim::draw(1000); std::string traj[2], map[2]; bool had[2][2];
  std::vector<std::string> a{"bag_runner", gm ? "gmapping" : "viny", "drive.bag", "-p", d + "cfg", "-t", d + "traj", "-m", d + "map.pgm", "-v"};
  sim::IoPlan pl; int crash = 0, rc[2]; bool failed = false; size_t handled[2];
  for (int k = 0; k < 2; ++k) {
    std::remove((d + "traj").c_str()); std::remove((d + "map.pgm").c_str());
    if (k) { gen_faults(pl, crash, (int64_t)traj[0].size() + map[0].size()); if (sim::chance(1, 10)) pl.open_fail = d + (sim::chance(1, 2) ? "traj" : "map.pgm"); }
    sim::io_reset(pl); std::string out;
    rc[k] = sim::subprocess([&] { sim::set_entropy(ent); std::vector<char *> av; for (auto &s : a) av.push_back(&s[0]); av.push_back(nullptr); return bag_runner_main((int)a.size(), av.data()); }, &out);
    failed = sim::io_failed(); sim::io_reset({}); had[k][0] = sim::get_file(d + "traj", traj[k]); had[k][1] = sim::get_file(d + "map.pgm", map[k]);
    handled[k] = 0; size_t p = 0; while ((p = out.find("Handled scan #", p)) != std::string::npos) { ++handled[k]; ++p; }
  }
  sim::log("%s%s: status %d, %zu scans; then status %d, %zu scans, trajectory %zu of %zu, map %zu of %zu bytes", gm ? "gmapping " : "", c.title.c_str(), rc[0], handled[0], rc[1], handled[1], traj[1].size(), traj[0].size(), map[1].size(), map[0].size());
  EXPECT(rc[0] == 0 && had[0][0] && had[0][1], "runner-fails", "the bag runner ends with status %d on a healthy disk", rc[0]);
  EXPECT(rc[1] == 0 || (crash && rc[1] == sim::Crash_Code), "slam-affected", "the bag runner ends with status %d on a failing disk", rc[1]);
  if (rc[1] == 0) EXPECT(handled[1] == handled[0], "slam-affected", "%zu scans are handled on a failing disk, %zu on a healthy one", handled[1], handled[0]);
  EXPECT(traj[1].size() <= traj[0].size() && traj[0].compare(0, traj[1].size(), traj[1]) == 0, "trajectory-not-a-prefix", "the trajectory on the failing disk (%zu bytes) is no prefix of the correct one (%zu bytes)", traj[1].size(), traj[0].size());
  EXPECT(map[1].size() <= map[0].size() && map[0].compare(0, map[1].size(), map[1]) == 0, "dump-not-a-prefix", "the map on the failing disk (%zu bytes) is no prefix of the correct one (%zu bytes)", map[1].size(), map[0].size());
  if (!failed && rc[1] == 0) EXPECT(traj[1] == traj[0] && map[1] == map[0], "dump-incomplete", "interrupted and partial writes change the files: trajectory %zu of %zu, map %zu of %zu bytes", traj[1].size(), traj[0].size(), map[1].size(), map[0].size());
  sim::hash(traj[1].size()); sim::hash(map[1].size()); if (rc[1] || failed) sim::nontrivial();
  sim::state((uint64_t)traj[1].size() * 65536 + map[1].size()); rossim::reset_world();
}

// a long run: every dump keeps its own file
SCENARIO(lng, "c17.long") {
  silence(); rossim::reset_world(); std::string d = sim::scratch() + "/";
  GridMapParams p{1 + (int)sim::draw(3), 1 + (int)sim::draw(3), 0.1}; auto m = make_map(MAP_UPLAIN, make_cell(CELL_MEAN), p);
  int n = sim::pick(std::vector<int>{130, 260, 300, 520}) + (int)sim::draw(20); std::vector<Image> img;
  { GridMapToPgmDumber du(d + "long"); for (int i = 0; i < n; ++i) { sim::step(); m->update(Coord{(int)sim::draw(2) - 1, (int)sim::draw(2) - 1}, gen_aoo()); img.push_back(image_of(*m)); du.on_map_update(*m); } }
  sim::log("%d dumps", n);
  for (int i = 0; i < n; ++i) { std::string f = d + "long_" + std::to_string(i) + ".pgm", data, why; EXPECT(sim::get_file(f, data), "dump-missing", "dump %d of %d has no file", i, n); EXPECT(data.size() == img[i].size() && is_prefix(img[i], data, why), "dump-overwritten", "the file of dump %d of %d (%zu bytes) %s", i, n, data.size(), why.c_str()); std::remove(f.c_str()); }
  sim::nontrivial(); sim::state(n); rossim::reset_world();
}
