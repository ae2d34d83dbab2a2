// C21: the helper nodes relay transforms faithfully.
// Real: path_publisher and wg_pr2_bag_adapter, whole node mains.  ROS, tf, the clock and the network are simulated.
#include "scen/rosnet.h"
#include "scen/env.h"
#include "scen/slamcfg.h"
#include <ros/ros.h>
#include <cstring>
#pragma GCC diagnostic ignored "-fpermissive"
#define main(...) main_path_unused; void main_path(__VA_ARGS__)
#include "ros/path_publisher.cpp"
#undef main
#define main(...) main_adapter_unused; void main_adapter(__VA_ARGS__)
#include "ros/wg_pr2_bag_adapter.cpp"
#undef main

using rosnet::ns;
namespace {
rosnet::Net *g_net; int64_t g_limit, g_stopped;
// the node sleeps: the world goes on meanwhile
void pump(int64_t len) {
  auto &w = rossim::w(); int64_t end = w.now_ns + len; w.sleep_hook = nullptr;
  while (g_net->step(end)) {}
  if (w.now_ns < end) w.now_ns = end;
  w.sleep_hook = pump; sim::step();
  if (g_stopped) EXPECT(w.now_ns <= g_limit, "does-not-end", "%.3f s after the shutdown the node still runs", (w.now_ns - g_stopped) * 1e-9);
}
void stop_at(int64_t t, double grace) { g_net->at(t, [grace] { auto &w = rossim::w(); w.ok = false; g_stopped = w.now_ns; g_limit = w.now_ns + ns(grace); sim::fault("shutdown"); }); }
std::string bare(const std::string &s) { return tf::strip_slash(s); }
std::string slashed(const std::string &s) { return sim::chance(1, 3) ? "/" + s : s; }
template <typename F> void run_main(F f) { char name[] = "node"; char *argv[] = {name, nullptr}; f(1, argv); }
}  // namespace

// ---- path_publisher -----------------------------------------------------------
namespace {
struct Motion {   // linear in time: interpolated samples lie on it exactly
  double x = 0, y = 0, th = 0, vx = 0, vy = 0, om = 0; int64_t t0 = 0;
  void gen(double speed, double turn) { x = sim::sreal(20); y = sim::sreal(20); th = sim::sreal(3.1); vx = sim::sreal(speed); vy = sim::sreal(speed); om = sim::sreal(turn); }
  void at(int64_t t, double &ox, double &oy, double &oth) const { double d = (t - t0) * 1e-9; ox = x + vx * d; oy = y + vy * d; oth = th + om * d; }
};
struct TfSource { std::string parent, child; Motion m; double period; rosnet::Link link, clean; bool missing = false; std::vector<std::pair<int64_t, int64_t>> got; /* arrival, stamp */ };
}

static void path_run(bool soak = false) {
  silence(); rossim::reset_world(); auto &w = rossim::w(); rosnet::Net net; g_net = &net; g_stopped = 0;
  w.now_ns = ns(sim::real(0.5, 50)); if (sim::chance(1, 4)) w.now_ns += 1400000000ll * 1000000000ll;
  const int64_t t0 = w.now_ns; bool faulty = !soak && sim::chance(2, 3);
  std::string map = sim::chance(2, 3) ? "map" : "world", base = sim::chance(2, 3) ? "base_link" : "base_footprint", topic = sim::chance(1, 2) ? "path" : "trajectory";
  if (map != "map" || sim::chance(1, 3)) ros::param::set("~ros/tf/map_frame_id", slashed(map));
  if (base != "base_link" || sim::chance(1, 3)) ros::param::set("base_link_frame_id", slashed(base));
  if (topic != "path") ros::param::set("path_topic_name", topic);
  double rate = 5, wait = 3; if (soak) ros::param::set("publishing_rate", rate = sim::real(100, 300)); else if (sim::chance(2, 3)) { rate = sim::real(0.5, 20); ros::param::set("publishing_rate", rate); }
  if (sim::chance(1, 2)) { wait = sim::real(faulty ? 0.1 : 1, 4); ros::param::set("wait_for_transform_duration", wait); }
  double cycle = 1 / rate;
  int links = sim::chance(1, 3) ? 3 : sim::chance(1, 6) ? 1 : 2; std::vector<TfSource> src(links); double slowest = 0;
  for (int i = 0; i < links; ++i) {
    auto &s = src[i]; s.parent = i == 0 ? map : i == 1 ? "odom" : "torso"; s.child = i + 1 == links ? base : i == 0 ? "odom" : "torso";
    if (links == 3 ? i == 1 : i + 1 == links) s.m.gen(1, 0.8);             // one link turns, the others slide
    else s.m.gen(sim::chance(1, 2) ? 0.2 : 0, 0);
    s.m.t0 = t0; s.period = soak ? sim::real(0.002, 0.004) : sim::real(0.005, 0.1); slowest = std::max(slowest, s.period);
    s.clean = rosnet::Link::gen(false); s.link = faulty ? rosnet::Link::gen(true) : s.clean; s.missing = faulty && sim::chance(1, 12);
  }
  bool never = false; for (auto &s : src) never = never || s.missing;
  double noisy = faulty ? sim::real(0.5, 5) : 0, calm = (soak ? sim::real(8, 40) : sim::real(1, 4)) + 3 * cycle, len = noisy + (faulty ? 4.5 : 0) + calm;
  sim::log("%d links, %.2f Hz, waits %.2f s, %s%s, %.1f s", links, rate, wait, faulty ? "faults" : "no faults", never ? ", a link never comes" : "", len);
  for (auto &s : src) if (!s.missing) {
    static std::vector<std::function<void()>> ticks; ticks.reserve(8); size_t k = ticks.size(); ticks.push_back(nullptr);
    TfSource *p = &s; int64_t quiet_from = t0 + ns(noisy);
    ticks[k] = [&net, p, k, quiet_from, t0] {
      auto &w = rossim::w(); double x, y, th; p->m.at(w.now_ns, x, y, th); int64_t st = w.now_ns;
      auto m = boost::make_shared<tf::tfMessage>(); m->transforms.push_back(rosnet::stamped(p->parent, p->child, st, x, y, 0, 0, 0, th));
      rosnet::Link l = w.now_ns < quiet_from ? p->link : p->clean;
      if (l.cut_from >= 0 && l.cut_to < 1000) { l.cut_from += t0 * 1e-9; l.cut_to += t0 * 1e-9; if (l.cut_to > quiet_from * 1e-9) l.cut_to = quiet_from * 1e-9; }
      l.send(net, [p, m, st] { p->got.emplace_back(rossim::w().now_ns, st); rossim::w().deliver_tf(*m); }, "tf");
      net.at(w.now_ns + ns(p->period), ticks[k]); };
    net.at(t0 + ns(sim::real(0, s.period)), ticks[k]);
  }
  w.sleep_hook = pump; stop_at(t0 + ns(len), 1.2 + 2 * cycle);
  std::vector<geometry_msgs::PoseStamped> told; std::vector<int64_t> when;
  w.on_publish = [&](const std::string &tp, const std::type_info &ti, const void *m) {
    sim::phase("publication"); EXPECT(ti == typeid(nav_msgs::Path) && tp == topic, "topic", "something is published on %s", tp.c_str());
    EXPECT(!g_stopped, "published-after-shutdown", "a path is published after the shutdown");
    const nav_msgs::Path &p = *(const nav_msgs::Path *)m; size_t n = told.size();
    EXPECT(p.poses.size() == n + 1, "path-length", "publication %zu has %zu poses", n + 1, p.poses.size());
    EXPECT(bare(p.header.frame_id) == map, "path-frame", "the path is in frame '%s'", p.header.frame_id.c_str());
    for (size_t i = 0; i < n; ++i) EXPECT(!std::memcmp(&p.poses[i].pose, &told[i].pose, sizeof told[i].pose) && p.poses[i].header.stamp == told[i].header.stamp && p.poses[i].header.frame_id == told[i].header.frame_id, "history-changed", "pose %zu is not what it was when it was first published", i);
    auto &q = p.poses.back(); int64_t st = (int64_t)q.header.stamp.toNSec(), now = w.now_ns;
    EXPECT(bare(q.header.frame_id) == map, "pose-frame", "pose %zu is in frame '%s'", n, q.header.frame_id.c_str());
    EXPECT(st >= t0 && st <= now, "pose-stamp", "pose %zu published at %.6f is stamped %.6f", n, (now - t0) * 1e-9, (st - t0) * 1e-9);
    EXPECT(p.header.stamp == q.header.stamp, "path-stamp", "the path is stamped %.6f, its newest pose %.6f", p.header.stamp.toSec(), q.header.stamp.toSec());
    // where the robot was then
    double X = 0, Y = 0, T = 0; for (auto &s : src) { double x, y, th; s.m.at(st, x, y, th); X += std::cos(T) * x - std::sin(T) * y; Y += std::sin(T) * x + std::cos(T) * y; T += th; }
    EXPECT(std::fabs(q.pose.position.x - X) < 1e-6 && std::fabs(q.pose.position.y - Y) < 1e-6 && std::fabs(q.pose.position.z) < 1e-6, "pose-position", "pose %zu is (%.6f, %.6f, %.6f), the robot was at (%.6f, %.6f)", n, q.pose.position.x, q.pose.position.y, q.pose.position.z, X, Y);
    auto &o = q.pose.orientation; double c = std::cos(T / 2), d = std::sin(T / 2), same = std::fabs(o.w * c + o.z * d);
    EXPECT(std::fabs(same - 1) < 1e-9 && std::fabs(o.x) < 1e-6 && std::fabs(o.y) < 1e-6, "pose-heading", "pose %zu has orientation (%.6f, %.6f, %.6f, %.6f), the heading was %.6f", n, o.x, o.y, o.z, o.w, T);
    // as fresh as what arrived while it was being looked for
    int64_t from = n ? when.back() + ns(cycle) + 1 : t0, bound = now; bool all = true;
    for (auto &s : src) { int64_t best = -1; for (auto &g : s.got) if (g.first >= from && g.first <= now) best = std::max(best, g.second); if (best < 0) all = false; bound = std::min(bound, best); }
    if (all) { EXPECT(st >= bound, "pose-stale", "pose %zu is of %.6f, transforms up to %.6f had arrived by %.6f", n, (st - t0) * 1e-9, (bound - t0) * 1e-9, (now - t0) * 1e-9); sim::probe("freshness_judged"); }
    sim::hashd(X); sim::hash(st - t0); sim::state((uint64_t)(st - t0) / 1000000);
    told.push_back(q); when.push_back(now); };
  run_main(main_path);
  EXPECT(g_stopped, "ends-early", "the node ends at %.3f s without a shutdown", (w.now_ns - t0) * 1e-9);
  // progress once the faults are over
  if (!never) {
    int64_t calm0 = faulty ? t0 + ns(noisy + 4.5) : t0, prev = calm0; double most = cycle + 4 * slowest + 0.2, first; if (wait < 4 * slowest + 0.1) most += wait + 1; first = most + (faulty ? 1.0 : 0.05);
    size_t in = 0; auto judge = [&](int64_t at) { double g = (at - prev) * 1e-9; EXPECT(g <= (in ? most : first), "no-progress", "no pose is published for %.3f s while every transform arrives (%.2f Hz asked for, transforms every %.3f s)", g, rate, slowest); };
    for (auto t : when) if (t >= calm0) { judge(t); prev = t; ++in; }
    if ((g_stopped - prev) * 1e-9 > (in ? most : first)) judge(g_stopped);
    for (size_t i = 1; i < when.size(); ++i) if (when[i - 1] > t0) { size_t k = i >= 20 ? i - 20 : 0; double n = (double)(i - k); EXPECT((when[i] - when[k]) * 1e-9 > (n - 2) * cycle - 1e-6, "too-fast", "%.0f poses in %.3f s, asked for %.2f Hz", n, (when[i] - when[k]) * 1e-9, rate); }
    if (in > 2) sim::nontrivial();
  } else EXPECT(told.empty(), "pose-from-nothing", "%zu poses although a transform never came", told.size());
  sim::probe("poses", told.size()); sim::advance((w.now_ns - t0) * 1e-9);
  w.sleep_hook = nullptr; w.on_publish = nullptr; rossim::reset_world();
}
SCENARIO(path, "c21.path") { path_run(); }
SCENARIO(longpath, "c21.longpath") { path_run(true); }

// ---- wg_pr2_bag_adapter -------------------------------------------------------
namespace {
struct Sent { tf::StampedTransform t; int64_t at; };
double tdiff(const tf::Transform &a, const tf::Transform &b) { double m = (a.getOrigin() - b.getOrigin()).length(); for (int i = 0; i < 9; ++i) m = std::max(m, std::fabs(a.getBasis().at(i / 3, i % 3) - b.getBasis().at(i / 3, i % 3))); return m; }
bool same_grid(const nav_msgs::OccupancyGrid &a, const nav_msgs::OccupancyGrid &b) {
  return a.data == b.data && a.info.width == b.info.width && a.info.height == b.info.height && a.info.resolution == b.info.resolution && a.header.stamp == b.header.stamp && a.info.map_load_time == b.info.map_load_time &&
         !std::memcmp(&a.info.origin, &b.info.origin, sizeof a.info.origin); }
}

SCENARIO(adapter, "c21.adapter") {
  silence(); rossim::reset_world(); auto &w = rossim::w(); rosnet::Net net; g_net = &net; g_stopped = 0;
  w.now_ns = ns(sim::real(0.5, 50)); if (sim::chance(1, 4)) w.now_ns += 1300000000ll * 1000000000ll;
  const int64_t t0 = w.now_ns; bool faulty = sim::chance(2, 3);
  std::string map = "map", odom = "odom_combined";
  if (sim::chance(1, 6)) map = "world"; if (sim::chance(1, 3)) odom = "odom";
  if (map != "map" || sim::chance(1, 3)) ros::param::set("~ros/tf/map_frame_id", map);
  if (odom != "odom_combined" || sim::chance(1, 3)) ros::param::set("~in/odometry/ros/tf/odom_frame_id", odom);
  double len = sim::real(0.5, 5), tf_rate = sim::weighted({2, 2, 1}) == 0 ? sim::real(1, 20) : sim::real(20, 300);
  rosnet::Link tfl = rosnet::Link::gen(faulty), gl = rosnet::Link::gen(faulty); if (tfl.stall_len > 1) tfl.stall_len = 1;   // a longer pause held back whole would outgrow any queue
  if (tfl.hold && tfl.cut_to - tfl.cut_from > 1) tfl.cut_to = tfl.cut_from + 1;
  auto shift = [&](rosnet::Link &l) { if (l.cut_from >= 0) { l.cut_from += t0 * 1e-9; l.cut_to += t0 * 1e-9; } }; shift(tfl); shift(gl);
  int slash = (int)sim::draw(3);       // the bag writes frames with, without, or with mixed leading slashes
  auto frame = [&](const std::string &f) { return slash == 0 || (slash == 2 && sim::chance(1, 2)) ? "/" + f : f; };
  struct Want { geometry_msgs::TransformStamped m; int64_t arrived; bool correction; };
  std::vector<Want> want; bool have_first = false; geometry_msgs::TransformStamped first; std::vector<Sent> sent; size_t corrections = 0;
  auto arrive = [&](boost::shared_ptr<tf::tfMessage> m) {
    for (auto &t : m->transforms) {
      bool corr = bare(t.header.frame_id) == map && bare(t.child_frame_id) == odom; Want e{t, w.now_ns, corr};
      if (corr) { if (!have_first) { first = t; have_first = true; } e.m = first; e.m.header.stamp = t.header.stamp; e.m.header.frame_id = "provided_map"; e.m.child_frame_id = "map"; ++corrections; }
      want.push_back(e); }
    w.deliver("tf_in", m); };
  w.on_broadcast = [&](const tf::StampedTransform &t) { sent.push_back({t, w.now_ns}); };
  std::string others[] = {"base_link", "base_footprint", "laser", "torso", "map2", "provided_map", "odom_combined2", "", "gripper"};
  std::function<void()> tick = [&] {
    sim::Span span; auto m = boost::make_shared<tf::tfMessage>(); int n = (int)sim::draw(4) + (sim::chance(1, 10) ? 0 : 1);
    for (int i = 0; i < n; ++i) {
      std::string p, c; int k = sim::weighted({3, 5, 1, 1});
      if (k == 0) { p = map; c = odom; } else if (k == 1) { p = odom; c = "base_footprint"; } else if (k == 2) { p = sim::chance(1, 2) ? map : others[sim::draw(9)]; c = others[sim::draw(9)]; } else { p = sim::chance(1, 2) ? odom : others[sim::draw(9)]; c = sim::chance(1, 2) ? map : odom; }
      if (bare(p) == map && k == 2 && c == odom) c = "laser";
      int64_t st = std::max<int64_t>(1, w.now_ns - ns(sim::chance(1, 3) ? sim::real(0, 0.5) : 0)); if (sim::chance(1, 15)) st = 0;   // not stamped
      m->transforms.push_back(rosnet::stamped(frame(p), frame(c), st, sim::sreal(30), sim::sreal(30), sim::chance(1, 2) ? 0 : sim::sreal(1), 0, sim::chance(1, 2) ? 0 : sim::sreal(0.3), sim::sreal(3.1))); }
    tfl.send(net, [&, m] { arrive(m); }, "tf");
    double gap = 1 / tf_rate; if (sim::chance(1, 20)) gap = 0; if (sim::chance(1, 40)) gap += 0.5;
    net.at(w.now_ns + ns(gap), tick); };
  net.at(t0 + ns(sim::real(0, 0.1)), tick);
  struct Grid { nav_msgs::OccupancyGrid g; int64_t at; }; std::vector<Grid> grids;
  std::function<void()> gtick = [&] {
    sim::Span span; auto g = boost::make_shared<nav_msgs::OccupancyGrid>(); g->header.stamp.fromNSec(w.now_ns); g->header.frame_id = frame(map); g->header.seq = (uint32_t)sim::draw(100);
    g->info.resolution = (float)sim::real(0.01, 1); g->info.width = (uint32_t)sim::draw(6) + 1; g->info.height = (uint32_t)sim::draw(6) + 1; g->info.origin.position.x = sim::sreal(20); g->info.origin.position.y = sim::sreal(20); g->info.origin.orientation.w = 1;
    for (unsigned i = 0; i < g->info.width * g->info.height; ++i) g->data.push_back((int8_t)((int)sim::draw(102) - 1));
    gl.send(net, [&, g] { grids.push_back({*g, w.now_ns}); w.deliver("provided_grid_orig", g); }, "grid");
    net.at(w.now_ns + ns(sim::chance(1, 6) ? 0.001 : sim::real(0.05, 2)), gtick); };
  if (!sim::chance(1, 8)) net.at(t0 + ns(sim::real(0, 1)), gtick);
  size_t cur = 0; bool any = false; std::vector<int64_t> pubs;
  w.on_publish = [&](const std::string &tp, const std::type_info &ti, const void *m) {
    EXPECT(ti == typeid(nav_msgs::OccupancyGrid) && tp == "provided_grid", "topic", "something is published on %s", tp.c_str());
    const auto &g = *(const nav_msgs::OccupancyGrid *)m; int64_t now = w.now_ns; pubs.push_back(now); sim::phase("grid");
    size_t due = any ? cur : 0; bool must = false; for (size_t i = 0; i < grids.size(); ++i) if (now - grids[i].at > 400000000ll) { due = std::max(due, i); must = true; }
    bool ok = false; for (size_t i = grids.size(); i-- > due && !ok;) if (same_grid(g, grids[i].g)) { ok = true; cur = i; any = true; }
    if (must || any) { EXPECT(ok, "grid", "the grid published at %.3f s is none of those received lately (%zu so far)", (now - t0) * 1e-9, grids.size());
      EXPECT(bare(g.header.frame_id) == "provided_map", "grid-frame", "a recorded grid is republished in frame '%s'", g.header.frame_id.c_str()); sim::probe("grids_judged"); }
  };
  w.sleep_hook = pump; stop_at(t0 + ns(len), 0.5);
  run_main(main_adapter);
  EXPECT(g_stopped, "ends-early", "the node ends at %.3f s without a shutdown", (w.now_ns - t0) * 1e-9);
  // the relayed stream
  for (size_t i = 0; i < sent.size(); ++i) {
    EXPECT(i < want.size(), "broadcast-from-nothing", "%zu transforms are broadcast, %zu arrived", sent.size(), want.size());
    tf::StampedTransform e; tf::transformStampedMsgToTF(want[i].m, e); auto &t = sent[i].t; bool frames = bare(t.frame_id_) == bare(e.frame_id_) && (bare(t.child_frame_id_) == bare(e.child_frame_id_) || (want[i].correction && bare(t.child_frame_id_) == map));
    EXPECT(frames, "frames", "transform %zu is broadcast as %s -> %s, not as %s -> %s (the %s)", i, t.frame_id_.c_str(), t.child_frame_id_.c_str(), e.frame_id_.c_str(), e.child_frame_id_.c_str(), want[i].correction ? "recorded correction" : "recorded transform");
    EXPECT(tdiff(t, e) < 1e-9, "transform", "transform %zu (%s -> %s) is broadcast as (%.4f, %.4f), not (%.4f, %.4f)", i, e.frame_id_.c_str(), e.child_frame_id_.c_str(), t.getOrigin().x(), t.getOrigin().y(), e.getOrigin().x(), e.getOrigin().y());
    EXPECT(t.stamp_ == e.stamp_, "stamp", "transform %zu (%s -> %s) is stamped %.6f, not %.6f", i, e.frame_id_.c_str(), e.child_frame_id_.c_str(), (t.stamp_.toNSec() - (double)t0) * 1e-9, (e.stamp_.toNSec() - (double)t0) * 1e-9);
    EXPECT(sent[i].at - want[i].arrived <= 300000000ll, "late", "transform %zu is broadcast %.3f s after it arrived", i, (sent[i].at - want[i].arrived) * 1e-9);
    sim::hashd(t.getOrigin().x()); }
  for (size_t i = sent.size(); i < want.size(); ++i) EXPECT(g_stopped - want[i].arrived <= 300000000ll, "lost", "transform %zu, arrived %.3f s before the shutdown, is never broadcast", i, (g_stopped - want[i].arrived) * 1e-9);
  int64_t prev = t0; for (auto p : pubs) { EXPECT(p - prev <= 250000000ll, "grid-pause", "no grid is republished for %.3f s", (p - prev) * 1e-9); prev = p; }
  EXPECT(g_stopped - prev <= 250000000ll, "grid-pause", "no grid is republished for the last %.3f s", (g_stopped - prev) * 1e-9);
  if (corrections > 1 && sent.size() > 3) sim::nontrivial();
  sim::state(want.size() * 1000 + grids.size()); sim::probe("corrections", corrections); sim::probe("relayed", sent.size()); sim::advance((w.now_ns - t0) * 1e-9);
  w.sleep_hook = nullptr; w.on_publish = nullptr; w.on_broadcast = nullptr; rossim::reset_world();
}
