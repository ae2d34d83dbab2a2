// C16: offline bag processing handles every resolvable scan once, in order.
// Real: BagTopicWithTransform, the whole bag runner with its SLAMs.  ROS and bags are simulated.
#include "scen/bags.h"
#include "sim/fileio.h"
#include "scen/slamcfg.h"
#define main bag_runner_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main

SCENARIO(bag, "c16.bag") {
  silence(); rossim::reset_world(); ros::Time::init();
  rossim::w().now_ns = sim::chance(1, 4) ? rosnet::ns(1.5e9) : rosnet::ns(sim::real(0.1, 50));
  bags::Opts o; bags::Rec r = bags::record(o); rossim::w().bags["drive.bag"] = r.entries; bags::Model m(r);
  MapPropertiesProvider props; if (!r.ignore.empty()) props.set_property("in/odometry/ros/tf/ignore", r.ignore);
  BagTopicWithTransform<sensor_msgs::LaserScan> b{"drive.bag", r.scan_topic, r.tf_topic, r.odom};
  b.set_tf_ignores(tf_ignored_transforms(props));
  sim::log("%d scans, %d transform messages, %zu handled, %d begin earlier than all transforms, %d unresolvable, ignored '%s'", r.scans, r.tfs, m.handled.size(), m.dropped_past, m.dropped_end, r.ignore.c_str());
  for (size_t i = 0; i < m.handled.size(); ++i) {
    sim::step(); const auto &h = m.handled[i];
    EXPECT(b.extract_next_msg(), "scan-lost", "the reader ends after %zu scans, %zu of the recorded ones can be resolved", i, m.handled.size());
    EXPECT(b.msg()->header.seq == h.m->header.seq, "wrong-scan", "scan number %zu handed on is recorded scan %u, should be %u", i, b.msg()->header.seq, h.m->header.seq);
    EXPECT(b.msg()->ranges.size() == h.m->ranges.size() && b.msg()->header.stamp == h.m->header.stamp && b.timestamp() == h.m->header.stamp, "scan-content", "scan %u differs from the recorded one", h.m->header.seq);
    const auto &t = b.transform(); auto dq = h.t.getRotation().inverse() * t.getRotation();
    EXPECT((t.getOrigin() - h.t.getOrigin()).length() < 1e-9 && std::fabs(std::fabs(dq.w()) - 1) < 1e-9, "wrong-transform", "scan %u is handed on with the transform (%g, %g, yaw %g), the recording gives (%g, %g, yaw %g)", h.m->header.seq,
           t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation()), h.t.getOrigin().x(), h.t.getOrigin().y(), tf::getYaw(h.t.getRotation()));
    sim::hash(h.m->header.seq); sim::hashd(t.getOrigin().x());
  }
  for (int i = 0; i < 2; ++i) EXPECT(!b.extract_next_msg(), "invented-scan", "the reader hands on another scan (%u) after the last resolvable one", b.msg() ? b.msg()->header.seq : 0);
  if (m.dropped_past) sim::probe("scans_older_than_transforms", m.dropped_past);
  if (m.dropped_end) sim::probe("unresolvable_scans", m.dropped_end);
  if (m.max_queue > 3) sim::probe("scans_waited_for_transforms");
  if (m.handled.size() > 1 && (m.dropped_past || m.dropped_end || m.max_queue > 2)) sim::nontrivial();
  sim::state(((uint64_t)m.handled.size() * 64 + m.dropped_past) * 64 + m.dropped_end); sim::state(m.max_queue + (r.ignored.size() << 20));
  rossim::reset_world();
}

SCENARIO(runner, "c16.runner") {
  silence(); rossim::reset_world();
  rossim::w().now_ns = sim::chance(1, 4) ? rosnet::ns(1.5e9) : rosnet::ns(sim::real(0.1, 50));
  Env e = gen_env(3); bags::Opts o; o.env = &e; o.len_hi = 4; o.sc_lo = 0.2; o.sc_hi = 0.8; o.beams_lo = 20; o.beams_hi = 60; o.gaps = sim::chance(1, 4);
  bags::Rec r = bags::record(o); rossim::w().bags["drive.bag"] = r.entries; bags::Model m(r);
  SlamCfgOpts so; so.heavy = false; so.min_scale = 0.15; SlamCfg c = gen_slam_cfg(so); bool gm = c.kind == SLAM_GMAPPING;
  auto &kv = c.kv; kv["in/lscan2D/ros/topic/enabled"] = "true"; kv["in/odometry/ros/tf/enabled"] = "true";
  bool skip = sim::chance(1, 2), trig = sim::chance(1, 2);
  if (r.scan_topic != "/base_scan" || sim::chance(1, 2)) kv["in/lscan2D/ros/topic/name"] = r.scan_topic;
  if (r.tf_topic != "/tf" || sim::chance(1, 2)) kv["in/odometry/ros/tf/name"] = r.tf_topic;
  if (r.odom != "odom_combined" || sim::chance(1, 2)) kv["in/odometry/ros/tf/odom_frame_id"] = r.odom;
  if (!r.ignore.empty()) kv["in/odometry/ros/tf/ignore"] = r.ignore;
  if (skip || sim::chance(1, 2)) kv["in/lscan2D/skip_exceeding_vals"] = skip ? "true" : "false";
  if (trig || sim::chance(1, 2)) kv["slam/performance/use_trig_cache"] = trig ? "true" : "false";
  std::string d = sim::scratch() + "/", text; for (auto &p : kv) text += p.first + "=" + p.second + "\n"; sim::put_file(d + "cfg", text);
  uint64_t ent = sim::draw(1000); bool verbose = sim::chance(1, 2), has_traj = !sim::chance(1, 6), has_map = !sim::chance(1, 3);
  sim::log("%s%s, %d scans, %zu handled", gm ? "gmapping " : "", c.title.c_str(), r.scans, m.handled.size());
  std::vector<std::string> a{"bag_runner", gm ? "gmapping" : sim::chance(1, 2) ? "viny" : "tiny", "drive.bag", "-p", d + "cfg"};
  if (has_traj) { a.push_back("-t"); a.push_back(d + "traj"); } if (has_map) { a.push_back("-m"); a.push_back(d + "map.pgm"); } if (verbose) a.insert(a.begin() + 1 + (int)sim::draw(2), "-v");
  std::string out; std::remove((d + "traj").c_str()); std::remove((d + "map.pgm").c_str());
  sim::io_reset({});
  int rc = sim::subprocess([&] { std::cout.clear(); sim::set_entropy(ent); std::vector<char *> av; for (auto &s : a) av.push_back(&s[0]); av.push_back(nullptr); return bag_runner_main((int)a.size(), av.data()); }, &out);
  sim::log("exit status %d", rc);
  EXPECT(rc == 0, "runner-fails", "the bag runner ends with status %d: %s", rc, out.substr(out.size() < 300 ? 0 : out.size() - 300).c_str());
  // the SLAM, given the scans that can be resolved
  sim::set_entropy(ent); MapPropertiesProvider props; c.apply(props); std::shared_ptr<LaserScanGridWorld> slam; if (gm) slam = init_gmapping(props); else slam = init_1h_slam(props);
  std::vector<RobotPose> poses; RobotPose prev{0, 0, 0}; LaserScanObserver conv{slam, skip, trig};
  for (auto &h : m.handled) { sim::step(); auto s = conv.msg2scan(h.m); RobotPose now{h.t.getOrigin().x(), h.t.getOrigin().y(), tf::getYaw(h.t.getRotation())}; s.pose_delta = now - prev; prev = now; slam->handle_sensor_data(s); poses.push_back(slam->pose()); sim::hashd(slam->pose().x); }
  if (has_traj) {
    std::string t; EXPECT(sim::get_file(d + "traj", t), "no-trajectory", "no trajectory file is written"); std::istringstream is(t); std::string line; size_t k = 0;
    while (std::getline(is, line)) {
      EXPECT(k < poses.size(), "extra-trajectory-line", "the trajectory has more than the %zu lines of the handled scans: %s", poses.size(), line.c_str());
      unsigned sec, nsec; char ns[12]; double x, y, z, qx, qy, qz, qw; int n = sscanf(line.c_str(), "%u.%9[0-9] %lf %lf %lf %lf %lf %lf %lf", &sec, ns, &x, &y, &z, &qx, &qy, &qz, &qw);
      EXPECT(n == 9 && strlen(ns) == 9, "trajectory-format", "trajectory line %zu is '%s'", k, line.c_str()); nsec = (unsigned)strtoul(ns, nullptr, 10);
      auto st = m.handled[k].m->header.stamp; const auto &p = poses[k]; double dt = std::remainder(2 * std::atan2(qz, qw) - p.theta, 2 * M_PI);
      EXPECT(sec == st.sec && nsec == st.nsec, "trajectory-stamp", "line %zu carries the time %u.%09u, the scan's is %u.%09u", k, sec, nsec, st.sec, st.nsec);
      EXPECT(std::fabs(x - p.x) < 1e-5 * (1 + std::fabs(p.x)) && std::fabs(y - p.y) < 1e-5 * (1 + std::fabs(p.y)) && std::fabs(dt) < 1e-4, "trajectory-pose", "line %zu has the pose (%g, %g, %g), after that scan it is (%g, %g, %g)", k, x, y, 2 * std::atan2(qz, qw), p.x, p.y, p.theta);
      ++k;
    }
    EXPECT(k == poses.size(), "trajectory-line-lost", "the trajectory has %zu lines, %zu scans are handled", k, poses.size());
  }
  if (has_map) {
    std::string g; EXPECT(sim::get_file(d + "map.pgm", g), "no-map", "no map image is written");
    const GridMap &gmap = slam->map(); int W = gmap.width(), H = gmap.height(); std::string head = "P5\n" + std::to_string(W) + "\n" + std::to_string(H) + "\n255\n";
    EXPECT(g.size() == head.size() + (size_t)W * H && g.compare(0, head.size(), head) == 0, "map-shape", "the map image has %zu bytes, a %dx%d map needs %zu", g.size(), W, H, head.size() + (size_t)W * H);
    size_t k = head.size(); auto og = gmap.origin();
    for (int y = H - 1 - og.y; y >= -og.y; --y) for (int x = -og.x; x < W - og.x; ++x, ++k) { double occ = gmap.occupancy({x, y}); double v = 255 * (occ == -1 ? 0.5 : 1 - std::max(0.0, std::min(1.0, occ))); EXPECT(std::fabs((unsigned char)g[k] - v) < 1.01, "map-content", "cell (%d, %d) has occupancy %g and intensity %d", x, y, occ, (int)(unsigned char)g[k]); }
  }
  if (verbose) { size_t n = 0, p = 0; while ((p = out.find("Handled scan #", p)) != std::string::npos) { ++n; ++p; } EXPECT(n == poses.size(), "progress-report", "%zu scans are reported as handled, %zu are", n, poses.size()); }
  if (m.handled.size() > 1) sim::nontrivial();
  sim::state((uint64_t)m.handled.size() * 8 + c.kind * 2 + has_map); rossim::reset_world();
}
