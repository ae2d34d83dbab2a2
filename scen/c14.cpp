// C14: the published map->odom correction closes the transform chain.
// Real: PoseCorrectionTfPublisher and its thread, RobotPoseTfPublisher, the three node
// mains with everything they build.  ROS, the clock and the thread scheduler are simulated.
#include "scen/rosnet.h"
#include "scen/env.h"
#include "scen/slamcfg.h"
#include "sim/threads.h"
#include "sim/fileio.h"
#include <cstring>
#include <new>
#include <ros/ros.h>
// only a function called main may end without a return statement: these become void
#pragma GCC diagnostic ignored "-fpermissive"
#define main(...) main_1h_unused; void main_1h(__VA_ARGS__)
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main(...) main_credibilist_unused; void main_credibilist(__VA_ARGS__)
#include "slams/credibilist/slam.cpp"
#undef main
#define main(...) main_gmapping_unused; void main_gmapping(__VA_ARGS__)
#include "slams/gmapping/gmapping.cpp"
#undef main

using Scan = sensor_msgs::LaserScan;
namespace {
struct Rigid { double r[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, o[3] = {0, 0, 0}; };
Rigid rigid(const tf::Transform &t) { Rigid a; for (int i = 0; i < 9; ++i) a.r[i] = t.getBasis().at(i / 3, i % 3); a.o[0] = t.getOrigin().x(); a.o[1] = t.getOrigin().y(); a.o[2] = t.getOrigin().z(); return a; }
Rigid mul(const Rigid &a, const Rigid &b) { Rigid c; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { c.r[i * 3 + j] = 0; for (int k = 0; k < 3; ++k) c.r[i * 3 + j] += a.r[i * 3 + k] * b.r[k * 3 + j]; } c.o[i] = a.o[i]; for (int k = 0; k < 3; ++k) c.o[i] += a.r[i * 3 + k] * b.o[k]; } return c; }
Rigid planar(double x, double y, double th) { Rigid a; a.r[0] = a.r[4] = std::cos(th); a.r[3] = std::sin(th); a.r[1] = -a.r[3]; a.o[0] = x; a.o[1] = y; return a; }
double diff(const Rigid &a, const Rigid &b) { double m = 0; for (int i = 0; i < 9; ++i) m = std::max(m, std::fabs(a.r[i] - b.r[i])); for (int i = 0; i < 3; ++i) m = std::max(m, std::fabs(a.o[i] - b.o[i]) / (1 + std::fabs(b.o[i]))); return m; }
const double Tol = 1e-9;
struct Correction { Rigid odom; RobotPose pose{0, 0, 0}; Rigid expected() const { return planar(pose.x, pose.y, pose.theta); } };
bool closes(const Rigid &b, const Correction &c) { double big = std::max({1.0, std::fabs(c.odom.o[0]), std::fabs(c.odom.o[1]), std::fabs(c.pose.x), std::fabs(c.pose.y)}); return diff(mul(b, c.odom), c.expected()) < Tol * big; }
bool is_identity(const Rigid &b) { return diff(b, Rigid()) < Tol; }
struct Bc { Rigid t; int64_t stamp, at; std::string parent, child; int thread; size_t started; };
std::vector<Bc> *g_log; size_t g_started; bool g_gone;
void listen(std::vector<Bc> &log) {
  g_log = &log; g_started = 0; g_gone = false;
  rossim::w().on_broadcast = [](const tf::StampedTransform &t) {
    if (g_gone) sim::fail("broadcast-after-shutdown", "a transform is broadcast after its publisher is gone");
    g_log->push_back({rigid(t), (int64_t)t.stamp_.toNSec(), rossim::w().now_ns, t.frame_id_, t.child_frame_id_, thr::self(), g_started}); };
}
std::string text(const Rigid &b) { char c[120]; snprintf(c, sizeof c, "(%.6f, %.6f, %.6f | %.4f rad)", b.o[0], b.o[1], b.o[2], std::atan2(b.r[3], b.r[0])); return c; }

// every broadcast is one of the corrections started so far, whole
void judge_whole(const std::vector<Bc> &log, size_t from, const std::vector<Correction> &cs, bool async) {
  for (size_t i = from; i < log.size(); ++i) {
    const Bc &b = log[i]; bool ok = false; size_t known = std::min(b.started, cs.size());
    if (async && known == 0) ok = true; // before the first correction there is nothing to judge but wholeness
    if (known == 0 || async) ok = ok && is_identity(b.t);
    if (async && is_identity(b.t) && b.thread != 0) ok = true;   // read before the first correction, sent after it
    for (size_t k = known; k-- > 0 && !ok;) ok = closes(b.t, cs[k]);
    EXPECT(ok, "not-a-correction", "broadcast %zu (thread %d, %zu corrections so far) %s is none of them: composed with the latest odometry it gives %s, the pose is %s", i, b.thread, known, text(b.t).c_str(),
           known ? text(mul(b.t, cs[known - 1].odom)).c_str() : "-", known ? text(cs[known - 1].expected()).c_str() : "-");
    EXPECT(b.stamp <= b.at, "stamp", "a transform broadcast at %.9f is stamped %.9f", b.at * 1e-9, b.stamp * 1e-9);
  }
}
RobotPose gen_pose(double s) { return RobotPose{sim::sreal(s), sim::sreal(s), sim::chance(1, 10) ? (sim::chance(1, 2) ? M_PI : 0) : sim::sreal(3.1)}; }
}  // namespace

SCENARIO(publisher, "c14.publisher") {
  silence(); rossim::reset_world(); ros::Time::init(); auto &w = rossim::w();
  w.now_ns = rosnet::ns(sim::real(0.01, 100)); if (sim::chance(1, 4)) w.now_ns += 1500000000ll * 1000000000ll;
  bool async = sim::chance(3, 4);
  thr::Opts busy; busy.switch_pct = sim::chance(1, 3) ? 2 : sim::chance(1, 2) ? 10 : 35; busy.slow_pct = sim::chance(1, 2) ? 0 : 1;
  thr::begin(&w.now_ns, busy); w.sleep_hook = [](int64_t ns) { thr::sleep(ns); }; w.yield_hook = [](const char *s) { thr::point(s); };
  std::vector<Bc> log; std::vector<Correction> cs; listen(log);
  using Pub = PoseCorrectionTfPublisher<Scan>; using Stamped = ObservationStampedRoboPoseTfPublisher<Scan>;
  alignas(Pub) static unsigned char room[sizeof(Pub)]; std::memset(room, 0xa5, sizeof room);
  std::string map = sim::chance(1, 2) ? "map" : "world", odom = sim::chance(1, 2) ? "odom" : "odom_combined", rob = "robot";
  Pub *p = new (room) Pub{map, odom, async};
  RobotPoseTfPublisher rp{map, rob}; Stamped sp{map, rob};
  int n = (int)sim::draw(sim::chance(1, 6) ? 2 : 9); size_t judged = 0; bool killed = false; int rebroadcasts = 0;
  sim::log("%s, %d corrections, preemption %d%%", async ? "async" : "sync", n, busy.switch_pct);
  for (int i = 0; i < n && !killed; ++i) {
    sim::Span span; sim::step(); thr::set(busy);
    if (sim::chance(1, 2)) thr::sleep(rosnet::ns(sim::real(0, 0.2)));
    auto msg = boost::make_shared<Scan>(); int64_t st = std::max<int64_t>(1, w.now_ns - rosnet::ns(sim::real(0, 0.5))); msg->header.stamp.fromNSec(st);
    RobotPose po = gen_pose(sim::chance(1, 5) ? 500 : 10); double z = sim::chance(1, 2) ? 0 : sim::sreal(1), ro = sim::chance(1, 3) ? sim::sreal(0.2) : 0, pi = sim::chance(1, 3) ? sim::sreal(0.2) : 0;
    tf::StampedTransform t(tf::Transform(tf::createQuaternionFromRPY(ro, pi, po.theta), tf::Vector3(po.x, po.y, z)), msg->header.stamp, odom, "laser");
    int updates = sim::chance(1, 8) ? 0 : sim::chance(1, 8) ? 2 : 1;     // the SLAM may skip a scan or report twice
    p->handle_transformed_msg(msg, t); sp.handle_transformed_msg(msg, t);
    for (int u = 0; u < updates; ++u) {
      Correction c; c.odom = rigid(t); c.odom.o[2] = 0; c.pose = gen_pose(sim::chance(1, 5) ? 500 : 10);
      if (sim::chance(1, 6)) { c.pose = cs.empty() ? RobotPose{0, 0, 0} : cs.back().pose; sim::probe("pose_repeated"); }     // the SLAM believes the robot stands still, its odometry need not
      if (sim::chance(1, 12) && async) { w.ok = false; killed = true; sim::fault("shutdown_in_callback"); }
      cs.push_back(c); g_started = cs.size(); size_t before = log.size();
      p->on_pose_update(c.pose);
      bool sent = false; for (size_t k = before; k < log.size(); ++k) sent = sent || closes(log[k].t, c);
      if (!async) EXPECT(sent && log.size() == before + 1, "correction-not-broadcast", "%zu transforms broadcast on a pose update, the new correction %s", log.size() - before, sent ? "among them" : "is not");
      // robot pose
      for (int q = 0; q < 2; ++q) {
        size_t b0 = log.size(); int64_t t0 = w.now_ns; thr::Opts still; still.switch_pct = 0; still.slow_pct = 0; thr::set(still);
        if (q) sp.on_pose_update(c.pose); else rp.on_pose_update(c.pose);
        EXPECT(log.size() == b0 + 1, "robot-pose-broadcasts", "%zu robot poses are broadcast on one update", log.size() - b0);
        Bc b = log.back(); log.pop_back(); thr::set(busy);
        EXPECT(b.parent == map && b.child == rob, "robot-pose-frames", "robot pose is broadcast as %s -> %s", b.parent.c_str(), b.child.c_str());
        EXPECT(diff(b.t, c.expected()) < Tol, "robot-pose", "robot pose is broadcast as %s, it is %s", text(b.t).c_str(), text(c.expected()).c_str());
        EXPECT(b.stamp == (q ? st : t0), "robot-pose-stamp", "robot pose is stamped %.9f, %s is at %.9f", b.stamp * 1e-9, q ? "its scan" : "now", (q ? st : t0) * 1e-9);
      }
    }
    judge_whole(log, judged, cs, async); judged = log.size();
    if (async && !killed && sim::chance(1, 3)) {     // no scans for a while, nobody is slow
      thr::Opts quiet = busy; quiet.slow_pct = 0; thr::set(quiet);
      double len = sim::real(0.2, 1.5); int64_t t0 = w.now_ns; size_t b0 = log.size(); thr::sleep(rosnet::ns(len)); int count = 0, gap = 0; int64_t prev = t0;
      for (size_t k = b0; k < log.size(); ++k) {
        const Bc &b = log[k]; ++count; gap = std::max<int>(gap, (int)((b.at - prev) / 1000000)); prev = b.at;
        if (b.at - t0 > 100000000) EXPECT(cs.empty() ? is_identity(b.t) : closes(b.t, cs.back()), "stale-correction", "%.3f s after the last scan %s is broadcast, the last correction composed gives %s", (b.at - t0) * 1e-9, text(b.t).c_str(), cs.empty() ? "identity" : text(cs.back().expected()).c_str());
        if (b.at - t0 > 100000000) EXPECT(b.at - b.stamp < 20000000, "stale-stamp", "a transform broadcast at %.3f is stamped %.3f", b.at * 1e-9, b.stamp * 1e-9);
      }
      EXPECT(count >= (int)(len / 0.05) - 2 && gap <= 110, "rebroadcast-stops", "%d broadcasts in %.2f s without scans, the longest pause before one is %d ms", count, len, gap);
      rebroadcasts += count; judge_whole(log, judged, cs, async); judged = log.size();
    }
  }
  for (auto &b : log) EXPECT(b.parent == map && b.child == odom, "frames", "the correction is broadcast as %s -> %s", b.parent.c_str(), b.child.c_str());
  judge_whole(log, judged, cs, async);
  // shutdown, at any moment
  if (sim::chance(1, 2)) thr::sleep(rosnet::ns(sim::real(0, 0.2)));
  int how = (int)sim::draw(3); if (how != 2) { w.ok = false; sim::fault("shutdown"); } else sim::fault("publisher_destroyed_while_running");
  if (how == 1) thr::sleep(rosnet::ns(sim::real(0, 0.12)));
  int64_t t0 = w.now_ns; p->~PoseCorrectionTfPublisher(); g_gone = true; std::memset(room, 0x5a, sizeof room);
  EXPECT(w.now_ns - t0 < 5000000000ll, "slow-shutdown", "shutting down takes %.3f s", (w.now_ns - t0) * 1e-9);
  judge_whole(log, judged, cs, async);
  uint64_t order = thr::order_hash(), sw = thr::switches(); w.ok = false; thr::end();
  sim::hash(order); sim::hash(log.size()); sim::state(order);
  if (sw > 4 || (!async && n > 1)) sim::nontrivial();
  if (rebroadcasts) sim::probe("rebroadcasts", rebroadcasts);
  w.sleep_hook = nullptr; w.yield_hook = nullptr; rossim::reset_world();
}

// ---- the nodes ---------------------------------------------------------------
namespace {
struct Twin {
  message_filters::Subscriber<Scan> sub; tf::TransformListener tfl; tf::MessageFilter<Scan> flt; std::string target;
  struct Rec { boost::shared_ptr<Scan> m; tf::StampedTransform t; int64_t at; };
  std::vector<Rec> rec;
  Twin(const std::string &topic, const std::string &tgt, double buf, uint32_t fq, uint32_t sq) : sub(ros::NodeHandle(), topic, sq), tfl(ros::Duration(buf)), flt(sub, tfl, tgt, fq), target(tgt) {
    flt.registerCallback([this](const boost::shared_ptr<Scan> &m) {
      tf::StampedTransform t;
      try { tfl.lookupTransform(target, m->header.frame_id, m->header.stamp, t); } catch (tf::TransformException &) { return; }
      rec.push_back({m, t, rossim::w().now_ns}); g_started = rec.size(); });
  }
};
struct PoseRec : WorldPoseObserver { std::vector<RobotPose> got; void on_pose_update(const RobotPose &p) override { got.push_back(p); } };
struct ScanIn { double a0, inc, rmin, rmax; };
}  // namespace

static void run_node() {
  silence(); rossim::reset_world(); auto &w = rossim::w(); rosnet::Net net;
  w.now_ns = rosnet::ns(sim::real(0.1, 50)); int64_t t0 = w.now_ns;
  SlamCfgOpts o; o.bounded_maps = false; o.heavy = false; o.min_scale = 0.15; SlamCfg cfg = gen_slam_cfg(o);
  for (auto k : {"slam/map/height_in_meters", "slam/map/width_in_meters"}) cfg.kv[k] = "10";
  bool async = sim::chance(2, 3), from_file = cfg.kind == SLAM_1H && sim::chance(1, 2);
  std::string topic = "/base_scan", odom = "odom_combined", map = "map", rob = "robot_pose";
  if (sim::chance(1, 3)) { cfg.kv["in/lscan2D/ros/topic/name"] = topic = "/scan"; }
  if (sim::chance(1, 3)) { cfg.kv["in/odometry/ros/tf/odom_frame_id"] = odom = "odom"; }
  if (sim::chance(1, 3)) cfg.kv["in/lscan2D/skip_exceeding_vals"] = "true";
  if (sim::chance(1, 3)) cfg.kv["slam/performance/use_trig_cache"] = "true";
  bool skip = cfg.kv.count("in/lscan2D/skip_exceeding_vals"), cached = cfg.kv.count("slam/performance/use_trig_cache");
  if (sim::chance(1, 3)) { map = "world"; ros::param::set("~ros/tf/map_frame_id", map); }
  if (sim::chance(1, 3)) { rob = "base"; ros::param::set("~ros/tf/robot_pose_frame_id", rob); }
  ros::param::set("~ros/tf/async_correction", async);
  double buf = 5; int fq = 1000, sq = 1000;
  if (sim::chance(1, 4)) ros::param::set("~ros/tf/buffer_duration", buf = sim::chance(1, 2) ? sim::real(0.3, 2) : 10);
  if (sim::chance(1, 4)) ros::param::set("~ros/filter_queue_size", fq = 1 + (int)sim::draw(6));
  if (sim::chance(1, 4)) ros::param::set("~ros/subscribers_queue_size", sq = 1 + (int)sim::draw(6));
  if (from_file) { std::string path = sim::scratch() + "/slam.properties", s; for (auto &e : cfg.kv) s += e.first + "=" + e.second + "\n"; sim::put_file(path, s); ros::param::set("~slam/config", path); }
  else for (auto &e : cfg.kv) ros::param::set("~" + e.first, e.second);
  sim::log("%s%s%s", cfg.title.c_str(), async ? ", async" : "", from_file ? ", from file" : "");
  unsigned entropy = sim::draw(1 << 20);
  thr::Opts busy; busy.switch_pct = sim::chance(1, 2) ? 1 : 5; busy.slow_pct = sim::chance(1, 3) ? 0 : 1; busy.slow_of = sim::chance(1, 2) ? 300 : 2000; thr::begin(&w.now_ns, busy);
  w.sleep_hook = [](int64_t ns) { thr::sleep(ns); }; w.yield_hook = [](const char *s) { thr::point(s); };
  std::vector<Bc> log; listen(log);
  auto twin = std::make_unique<Twin>(topic, odom, buf, fq, sq);
  Env env = gen_env(2); Lidar lidar; rosnet::Link lt = rosnet::Link::gen(sim::chance(1, 3)), ls = rosnet::Link::gen(sim::chance(1, 2));
  for (auto l : {&lt, &ls}) if (l->cut_from >= 0) { l->cut_from += t0 * 1e-9; l->cut_to += t0 * 1e-9; }
  rosnet::Drive d; d.gen(false); d.x = d.y = d.th = 0; d.v = sim::sreal(0.4); d.om = sim::sreal(0.6); double ox = sim::sreal(20), oy = sim::sreal(20), oth = sim::sreal(3), oz = sim::chance(1, 3) ? sim::sreal(1) : 0;
  double tf_dt = sim::real(0.05, 0.2), sc_dt = sim::real(0.1, 0.5), len = sim::real(0.3, 3), last = t0 * 1e-9; uint32_t seq = 0; int beams = 10 + (int)sim::draw(20);
  if (sim::chance(1, 3)) rosnet::stalls(net, t0, len);
  if (sim::chance(1, 8)) { sc_dt = sim::real(0.02, 0.05); len = std::min(len, 1.5); if (sim::chance(2, 3)) { lt.cut_from = t0 * 1e-9 + sim::real(0, 0.3); lt.cut_to = lt.cut_from + sim::real(0.4, 1); lt.hold = true; } }
  std::function<void()> send_tf = [&] {
    double t = w.now_ns * 1e-9; d.move(t - last); last = t; Rigid b = mul(planar(ox, oy, oth), planar(d.x, d.y, d.th));
    auto m = std::make_shared<tf::tfMessage>();
    m->transforms.push_back(rosnet::stamped(odom, "base_link", w.now_ns, b.o[0], b.o[1], oz, 0, 0, std::atan2(b.r[3], b.r[0])));
    m->transforms.push_back(rosnet::stamped("base_link", "laser", w.now_ns, 0.1, 0, 0.2, 0, 0, 0));
    lt.send(net, [m] { rossim::w().deliver_tf(*m); }, "tf");
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(tf_dt), send_tf);
  };
  std::function<void()> send_scan = [&] {
    auto m = boost::make_shared<Scan>(); m->header.seq = seq++; m->header.frame_id = "laser"; m->header.stamp.fromNSec(w.now_ns);
    m->angle_min = -2.0f; m->angle_increment = 4.0f / (beams - 1); m->angle_max = (float)((double)m->angle_min + (double)m->angle_increment * (beams - 1)); m->range_min = 0.1f; m->range_max = 9;
    for (int i = 0; i < beams; ++i) { double r = env.cast(d.x, d.y, d.th + m->angle_min + m->angle_increment * i, 9); m->ranges.push_back(std::isinf(r) ? 9.5f : (float)r); }
    ls.send(net, [m, topic] { rossim::w().deliver<Scan>(topic, m); }, "scan");
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(sc_dt), send_scan);
  };
  net.at(t0, send_tf); net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_scan);
  double stop = sim::chance(1, 3) ? sim::real(0, len) : len + 2; int64_t end = t0 + rosnet::ns(stop);
  int64_t last_scan = 0;
  w.spin = [&] {
    while (net.step(end)) {}
    thr::Opts calm = busy; calm.slow_pct = 0; thr::set(calm); last_scan = std::max(last_scan, w.now_ns);
    if (end > w.now_ns) thr::sleep(end - w.now_ns);
    end = w.now_ns; w.ok = false; sim::fault("shutdown"); };
  sim::set_entropy(entropy); char arg0[] = "node"; char *argv[] = {arg0, nullptr};
  if (cfg.kind == SLAM_1H) main_1h(1, argv); else if (cfg.kind == SLAM_CREDIBILIST) main_credibilist(1, argv); else main_gmapping(1, argv);
  if (w.overflown) sim::fault("queue_overflow", w.overflown);
  g_gone = true; uint64_t order = thr::order_hash(); thr::end(); w.yield_hook = nullptr; w.sleep_hook = nullptr;
  // what the SLAM alone makes of the scans that arrived
  MapPropertiesProvider props; cfg.apply(props); sim::set_entropy(entropy);
  std::vector<Correction> cs; std::vector<size_t> scan_of; auto rec = std::make_shared<PoseRec>();
  auto replay = [&](auto slam) {
    slam->subscribe_pose(rec); LaserScanObserver obs{slam, skip, cached};
    for (size_t i = 0; i < twin->rec.size(); ++i) {
      size_t b = rec->got.size(); obs.handle_transformed_msg(twin->rec[i].m, twin->rec[i].t); Rigid od = rigid(twin->rec[i].t); od.o[2] = 0;
      for (; b < rec->got.size(); ++b) { cs.push_back({od, rec->got[b]}); scan_of.push_back(i); }
    } };
  if (cfg.kind == SLAM_1H) replay(init_1h_slam(props)); else if (cfg.kind == SLAM_CREDIBILIST) replay(init_credibilist_slam(props)); else replay(init_gmapping(props));
  size_t k = 0, r = 0;
  for (size_t i = 0; i < log.size(); ++i) {
    auto &b = log[i]; EXPECT(b.parent == map, "frames", "a transform is broadcast as %s -> %s", b.parent.c_str(), b.child.c_str());
    EXPECT(b.stamp <= b.at, "stamp", "a transform broadcast at %.9f is stamped %.9f", b.at * 1e-9, b.stamp * 1e-9);
    if (b.child == rob) {
      EXPECT(r < cs.size(), "robot-pose-broadcasts", "more robot poses are broadcast than the SLAM reports (%zu)", cs.size());
      EXPECT(diff(b.t, cs[r].expected()) < Tol, "robot-pose", "robot pose %zu is broadcast as %s, the SLAM alone arrives at %s", r, text(b.t).c_str(), text(cs[r].expected()).c_str());
      int64_t st = (int64_t)twin->rec[scan_of[r]].m->header.stamp.toNSec();
      EXPECT(cfg.kind == SLAM_GMAPPING ? b.stamp == st : b.stamp >= twin->rec[scan_of[r]].at, "robot-pose-stamp", "robot pose %zu broadcast at %.9f is stamped %.9f, its scan %.9f", r, b.at * 1e-9, b.stamp * 1e-9, st * 1e-9);
      ++r; continue;
    }
    EXPECT(b.child == odom, "frames", "a transform is broadcast as %s -> %s", b.parent.c_str(), b.child.c_str());
    if (!async) {
      EXPECT(k < cs.size() && closes(b.t, cs[k]), "not-the-correction", "correction %zu of %zu: %s composed with the odometry gives %s, the SLAM alone arrives at %s", k, cs.size(), text(b.t).c_str(), k < cs.size() ? text(mul(b.t, cs[k].odom)).c_str() : "-", k < cs.size() ? text(cs[k].expected()).c_str() : "-");
      ++k; continue;
    }
    bool ok = is_identity(b.t) && (b.thread != 0 || b.started == 0); for (size_t q = cs.size(); q-- > 0 && !ok;) ok = scan_of[q] < b.started && closes(b.t, cs[q]);
    EXPECT(ok, "not-a-correction", "broadcast %zu (thread %d, %zu scans so far) is no correction: %s", i, b.thread, b.started, text(b.t).c_str());
    if (!cs.empty() && b.at > last_scan + 100000000) EXPECT(closes(b.t, cs.back()), "stale-correction", "%.3f s after the last scan %s is broadcast, composed it gives %s, the last pose is %s", (b.at - last_scan) * 1e-9, text(b.t).c_str(), text(mul(b.t, cs.back().odom)).c_str(), text(cs.back().expected()).c_str());
  }
  if (!async) EXPECT(k == cs.size(), "correction-not-broadcast", "%zu corrections are broadcast, the SLAM reports %zu poses", k, cs.size());
  EXPECT(r == cs.size(), "robot-pose-broadcasts", "%zu robot poses are broadcast, the SLAM reports %zu", r, cs.size());
  if (async && end - last_scan > 300000000) {
    int64_t from = last_scan + 100000000, prev = from; int64_t gap = 0; for (auto &b : log) if (b.child == odom && b.at >= from && b.at <= end) { gap = std::max(gap, b.at - prev); prev = b.at; }
    gap = std::max(gap, end - prev); EXPECT(gap <= 110000000, "rebroadcast-stops", "no broadcast for %.3f s while no scans arrive", gap * 1e-9); sim::probe("quiet_phase");
  }
  sim::log("%zu scans, %zu poses, %zu broadcasts", twin->rec.size(), cs.size(), log.size());
  sim::hash(order); sim::hash(log.size()); for (auto &c : cs) { sim::hashd(c.pose.x); sim::hashd(c.pose.theta); }
  sim::state(order); if (cs.size() > 1) sim::nontrivial(); sim::advance(0);
  twin.reset(); rossim::reset_world();
}
SCENARIO(node, "c14.node") { run_node(); }
