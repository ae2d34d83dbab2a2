// C15: published occupancy grids mirror the map at a bounded rate.
// Real: OccupancyGridPublisher and its set-up, maps, cells, whole SLAMs.  ROS is simulated.
#include "scen/common.h"
#include "scen/env.h"
#include "scen/slamcfg.h"
#include "scen/rosnet.h"
#include "ros/init_utils.h"
// only a function called main may end without a return statement: these become void
#pragma GCC diagnostic ignored "-fpermissive"
#define main(...) main_1h_unused; void main_1h(__VA_ARGS__)
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main(...) main_credibilist_unused; void main_credibilist(__VA_ARGS__)
#include "slams/credibilist/slam.cpp"
#undef main
#define main(...) main_gmapping_unused; void main_gmapping(__VA_ARGS__)
#include "slams/gmapping/gmapping.cpp"
#undef main

namespace {
struct Grids {
  std::vector<nav_msgs::OccupancyGrid> g; std::string topic;
  Grids() { rossim::w().on_publish = [this](const std::string &t, const std::type_info &ti, const void *m) { if (ti == typeid(nav_msgs::OccupancyGrid)) { g.push_back(*(const nav_msgs::OccupancyGrid *)m); topic = t; } }; }
};
template <typename M> void mirror(const nav_msgs::OccupancyGrid &g, const M &map) {
  int w = map.width(), h = map.height(); auto o = map.origin(); double s = map.scale();
  EXPECT((int)g.info.width == w && (int)g.info.height == h, "extent", "published grid is %ux%u, the map %dx%d", g.info.width, g.info.height, w, h);
  EXPECT(g.data.size() == (size_t)w * h, "data-size", "published grid of %ux%u carries %zu cells", g.info.width, g.info.height, g.data.size());
  EXPECT(std::fabs(g.info.resolution - s) < 1e-6 * s, "resolution", "published resolution %g, the map has %g", (double)g.info.resolution, s);
  EXPECT(std::fabs(g.info.origin.position.x + s * o.x) < 1e-5 * (1 + std::abs(s * o.x)) && std::fabs(g.info.origin.position.y + s * o.y) < 1e-5 * (1 + std::abs(s * o.y)), "origin",
         "published origin (%g, %g), the map's lower left corner is at (%g, %g)", g.info.origin.position.x, g.info.origin.position.y, -s * o.x, -s * o.y);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    Coord c{x - o.x, y - o.y}; double occ = map.occupancy(c); int v = g.data[(size_t)y * w + x];
    if (occ == -1) { EXPECT(v == -1, "unknown-cell", "cell (%d, %d) is unknown and published as %d", c.x, c.y, v); continue; }
    EXPECT(v >= 0 && v <= 100 && std::fabs(v - occ * 100) < 1.0001, "cell-value", "cell (%d, %d) has occupancy %g and is published as %d", c.x, c.y, occ, v);
  }
}
// the publisher's clock contract
struct Rate {
  bool any = false; int64_t last = 0; int64_t interval;
  void judge(bool published, size_t count) {
    int64_t now = rossim::w().now_ns, d = now - last;
    EXPECT(count <= 1, "published-twice", "%zu grids are published on one map update", count);
    if (!any) EXPECT(published, "first-update-withheld", "the first map update at %.3f s of the node's clock is not published", now * 1e-9);
    else if (d >= 0) {
      if (d > interval + 1000) EXPECT(published, "update-withheld", "map update %.6f s after the last publication is not published, interval %.6f s", d * 1e-9, interval * 1e-9);
      if (d < interval - 1000) EXPECT(!published, "published-too-often", "map is published %.6f s after the last publication, interval %.6f s", d * 1e-9, interval * 1e-9);
    }
    if (published) { any = true; last = now; }
  }
};
void tick() {   // the node's clock between two updates
  auto &w = rossim::w(); int k = sim::weighted({8, 3, 2, 1, 1});
  double d = k == 0 ? sim::real(0, 0.3) : k == 1 ? sim::real(0.3, 3) : k == 2 ? 0 : sim::real(3, 40);
  if (k == 4) { int64_t b = std::min<int64_t>(w.now_ns, (int64_t)(d * 1e9)); w.now_ns -= b; sim::fault("clock_jump_back"); return; }
  if (k == 3) sim::fault("clock_jump_forward");
  w.now_ns += (int64_t)(d * 1e9); sim::advance(d);
}
}  // namespace

SCENARIO(grid, "c15.grid") {
  silence(); rossim::reset_world(); ros::Time::init();
  rossim::w().now_ns = sim::chance(1, 3) ? 0 : sim::chance(1, 2) ? (int64_t)(sim::real(0, 10) * 1e9) : (int64_t)1500000000 * 1000000000;
  Grids out; double interval = sim::chance(1, 4) ? 0 : sim::chance(1, 2) ? 5.0 : sim::real(0.05, 8);
  int kinds = MAP_KINDS, mk = (int)sim::draw(kinds), ck = (int)sim::draw(CELL_KINDS);
  GridMapParams p{1 + (int)sim::draw(14), 1 + (int)sim::draw(14), sim::real(0.02, 1)};
  auto map = make_map(mk, make_cell(ck), p);
  OccupancyGridPublisher<GridMap> pub{ros::NodeHandle().advertise<nav_msgs::OccupancyGrid>("map", 5), "map", interval};
  Rate r; r.interval = ros::Duration(interval).toNSec(); size_t seen = 0; int grown = 0, pubs = 0; bool unb = mk != MAP_PLAIN && mk != MAP_LAZY;
  sim::log("%s %s interval %g", map_name(mk), cell_name(ck), interval);
  int n = 2 + (int)sim::draw(10);
  for (int i = 0; i < n; ++i) {
    sim::Span sp; sim::step(); tick();
    int u = (int)sim::draw(8); int w0 = map->width(), h0 = map->height();
    for (int k = 0; k < u; ++k) {
      auto o = map->origin(); Coord c{(int)sim::draw(map->width()) - o.x, (int)sim::draw(map->height()) - o.y};
      if (unb && sim::chance(1, 6) && map->width() * map->height() < 4000) c = Coord{c.x + sim::around(9), c.y + sim::around(9)};
      map->update(c, gen_aoo(ck != CELL_BASE));
    }
    grown += (w0 != map->width() || h0 != map->height());
    pub.on_map_update(*map);
    size_t k = out.g.size() - seen; seen = out.g.size();
    r.judge(k > 0, k);
    if (k) { mirror(out.g.back(), *map); ++pubs; EXPECT(out.g.back().header.frame_id == "map", "frame", "grid is published in frame '%s'", out.g.back().header.frame_id.c_str()); EXPECT(out.topic == "map", "topic", "grid is published on '%s'", out.topic.c_str()); }
    sim::log("update %d at %.3f s: %dx%d %s", i, rossim::w().now_ns * 1e-9, map->width(), map->height(), k ? "published" : "-"); sim::hash(k);
    if (k) for (auto v : out.g.back().data) sim::hash(v);
  }
  if (grown) sim::probe("growth_between_publications", grown);
  if (pubs && pubs < n) sim::nontrivial();
  sim::state(((uint64_t)mk * 8 + ck) * 1024 + pubs * 32 + std::min(grown, 7));
  rossim::reset_world();
}

SCENARIO(slam, "c15.slam") {
  silence(); rossim::reset_world(); ros::Time::init();
  rossim::w().now_ns = sim::chance(1, 2) ? (int64_t)(sim::real(0, 3) * 1e9) : (int64_t)1500000000 * 1000000000;
  SlamCfgOpts o; o.heavy = false; o.min_scale = 0.15; SlamCfg c = gen_slam_cfg(o);
  MapPropertiesProvider props; c.apply(props); sim::set_entropy(sim::draw(1000));
  Grids out; double interval = sim::chance(1, 3) ? 0 : sim::real(0.1, 3);
  Env e = gen_env(3); Lidar l; l.beams = 10 + (int)sim::draw(50); l.max_range = sim::real(3, 9); Drive d; d.drift_rot = sim::sreal(0.1);
  Rate r; r.interval = ros::Duration(interval).toNSec(); size_t seen = 0; int pubs = 0, n = 2 + (int)sim::draw(5);
  sim::log("%s", c.title.c_str());
  auto drive = [&](auto &slam, auto pin) {
    for (int i = 0; i < n; ++i) {
      sim::Span sp; sim::step(); tick();
      TransformedLaserScan s; s.pose_delta = i ? d.step(e, sim::real(0, 0.4), sim::sreal(0.3)) : RobotPoseDelta{0, 0, 0}; s.quality = 1;
      s.scan = make_scan(e, l, d.truth);
      if (sim::chance(1, 8)) { s.scan.points().clear(); sim::fault("empty_scan"); }
      slam->handle_sensor_data(s);
      size_t k = out.g.size() - seen; seen = out.g.size();
      r.judge(k > 0, k); if (k) { mirror(out.g.back(), slam->map()); ++pubs; }
      sim::log("scan %d at %.3f s: %s", i, rossim::w().now_ns * 1e-9, k ? "published" : "-"); sim::hash(k ? out.g.back().data.size() : 0);
    } };
  if (c.kind == SLAM_GMAPPING) { auto s = init_gmapping(props); drive(s, create_occupancy_grid_publisher(s.get(), ros::NodeHandle(), interval)); }
  else { auto s = c.kind == SLAM_1H ? init_1h_slam(props) : init_credibilist_slam(props); drive(s, create_occupancy_grid_publisher<GridMap>(s.get(), ros::NodeHandle(), interval)); }
  if (pubs) sim::nontrivial();
  sim::state((uint64_t)pubs * 64 + n * 8 + c.kind);
  rossim::reset_world();
}

// ---- the nodes: what reaches the map topic of a running node ----------------------
namespace {
using Scan = sensor_msgs::LaserScan;
struct Arrived {
  message_filters::Subscriber<Scan> sub; tf::TransformListener tfl; tf::MessageFilter<Scan> flt;
  struct Rec { boost::shared_ptr<Scan> m; tf::StampedTransform t; int64_t at; };
  std::vector<Rec> rec;
  Arrived(const std::string &topic, const std::string &target) : sub(ros::NodeHandle(), topic, 1000), tfl(ros::Duration(5)), flt(sub, tfl, target, 1000) {
    flt.registerCallback([this, target](const boost::shared_ptr<Scan> &m) {
      tf::StampedTransform t;
      try { tfl.lookupTransform(target, m->header.frame_id, m->header.stamp, t); } catch (tf::TransformException &) { return; }
      rec.push_back({m, t, rossim::w().now_ns}); });
  }
};
template <typename M> struct OnMap : WorldMapObserver<M> { std::function<void(const M &)> f; void on_map_update(const M &m) override { f(m); } };
}  // namespace

SCENARIO(node, "c15.node") {
  silence(); rossim::reset_world(); auto &w = rossim::w(); rosnet::Net net;
  w.now_ns = rosnet::ns(sim::chance(1, 2) ? sim::real(0.1, 50) : sim::real(1.4e9, 1.5e9)); int64_t t0 = w.now_ns;
  SlamCfgOpts o; o.bounded_maps = false; o.heavy = false; o.min_scale = 0.15; SlamCfg cfg = gen_slam_cfg(o);
  for (auto k : {"slam/map/height_in_meters", "slam/map/width_in_meters"}) cfg.kv[k] = "10";
  std::string topic = "/base_scan", odom = "odom_combined", map = "map"; double interval = 5;
  if (sim::chance(1, 3)) ros::param::set("~ros/tf/map_frame_id", map = "world");
  if (sim::chance(3, 4)) ros::param::set("~ros/rviz/map_publishing_rate", interval = sim::chance(1, 6) ? 0 : sim::real(0.03, 3));
  ros::param::set("~ros/tf/async_correction", false);
  if (cfg.kind == SLAM_1H && sim::chance(1, 2)) { std::string path = sim::scratch() + "/slam.properties", s; for (auto &e : cfg.kv) s += e.first + "=" + e.second + "\n"; { std::ofstream f(path); f << s; } ros::param::set("~slam/config", path); }
  else for (auto &e : cfg.kv) ros::param::set("~" + e.first, e.second);
  sim::log("%s, interval %g", cfg.title.c_str(), interval);
  unsigned entropy = sim::draw(1 << 20); Grids out; int64_t iv = ros::Duration(interval).toNSec();
  auto arrived = std::make_unique<Arrived>(topic, odom);
  Env env = gen_env(2); Lidar lidar; rosnet::Link lt = rosnet::Link::gen(sim::chance(1, 3)), ls = rosnet::Link::gen(sim::chance(1, 3));
  for (auto l : {&lt, &ls}) if (l->cut_from >= 0) { l->cut_from += t0 * 1e-9; l->cut_to += t0 * 1e-9; }
  rosnet::Drive d; d.gen(false); d.x = d.y = d.th = 0; d.v = sim::sreal(0.4); d.om = sim::sreal(0.6); double ox = sim::sreal(20), oy = sim::sreal(20), oth = sim::sreal(3);
  double tf_dt = sim::real(0.05, 0.2), sc_dt = sim::real(0.1, 0.6), len = sim::real(0.5, 4), last = t0 * 1e-9; uint32_t seq = 0; int beams = 10 + (int)sim::draw(20);
  std::function<void()> send_tf = [&] {
    double t = w.now_ns * 1e-9; d.move(t - last); last = t; double c = std::cos(oth), s = std::sin(oth);
    auto m = std::make_shared<tf::tfMessage>();
    m->transforms.push_back(rosnet::stamped(odom, "base_link", w.now_ns, ox + c * d.x - s * d.y, oy + s * d.x + c * d.y, 0, 0, 0, oth + d.th));
    m->transforms.push_back(rosnet::stamped("base_link", "laser", w.now_ns, 0.1, 0, 0.2, 0, 0, 0));
    lt.send(net, [m] { rossim::w().deliver_tf(*m); }, "tf");
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(tf_dt), send_tf);
  };
  std::function<void()> send_scan = [&] {
    auto m = boost::make_shared<Scan>(); m->header.seq = seq++; m->header.frame_id = "laser"; m->header.stamp.fromNSec(w.now_ns);
    m->angle_min = -2.0f; m->angle_increment = 4.0f / (beams - 1); m->angle_max = (float)((double)m->angle_min + (double)m->angle_increment * (beams - 1)); m->range_min = 0.1f; m->range_max = 9;
    for (int i = 0; i < beams; ++i) { double r = env.cast(d.x, d.y, d.th + m->angle_min + m->angle_increment * i, 9); m->ranges.push_back(std::isinf(r) ? 9.5f : (float)r); }
    ls.send(net, [m, topic] { rossim::w().deliver<Scan>(topic, m); }, "scan");
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(sc_dt), send_scan);
  };
  net.at(t0, send_tf); net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_scan);
  int64_t end = t0 + rosnet::ns(sim::chance(1, 3) ? sim::real(0, len) : len + 2);
  w.spin = [&] { while (net.step(end)) {} w.ok = false; sim::fault("shutdown"); };
  sim::set_entropy(entropy); char arg0[] = "node"; char *argv[] = {arg0, nullptr};
  if (cfg.kind == SLAM_1H) main_1h(1, argv); else if (cfg.kind == SLAM_CREDIBILIST) main_credibilist(1, argv); else main_gmapping(1, argv);
  // a SLAM alone, given the scans that arrived, says which maps are due
  MapPropertiesProvider props; cfg.apply(props); sim::set_entropy(entropy);
  size_t p = 0, updates = 0; int64_t now = 0, prev = 0; bool edge = false;
  auto due = [&](const auto &m) {
    ++updates; bool first = p == 0; int64_t gap = now - prev;
    if (!first && std::llabs(gap - iv) < 2000) { edge = true; return; }
    if (edge || (!first && gap < iv)) return;
    EXPECT(p < out.g.size(), "map-not-published", "map update %zu, %.6f s after the last published one, does not reach the map topic (%zu grids do), interval %g s", updates, gap * 1e-9, out.g.size(), interval);
    EXPECT(out.g[p].header.frame_id == map, "frame", "grid is published in frame '%s'", out.g[p].header.frame_id.c_str());
    mirror(out.g[p], m); ++p; prev = now; };
  auto replay = [&](auto slam, auto on) {
    on->f = due; slam->subscribe_map(on); LaserScanObserver obs{slam, false, false};
    for (auto &r : arrived->rec) { now = r.at; obs.handle_transformed_msg(r.m, r.t); } };
  if (cfg.kind == SLAM_1H) replay(init_1h_slam(props), std::make_shared<OnMap<GridMap>>()); else if (cfg.kind == SLAM_CREDIBILIST) replay(init_credibilist_slam(props), std::make_shared<OnMap<GridMap>>());
  else { auto s = init_gmapping(props); replay(s, std::make_shared<OnMap<std::decay_t<decltype(s->map())>>>()); }
  if (!edge) EXPECT(p == out.g.size(), "published-too-often", "%zu grids are published, %zu of %zu map updates are due, interval %g s", out.g.size(), p, updates, interval);
  if (p) EXPECT(out.topic == "map", "topic", "grid is published on '%s'", out.topic.c_str());
  sim::log("%zu scans, %zu updates, %zu grids", arrived->rec.size(), updates, out.g.size());
  for (auto &g : out.g) { sim::hash(g.data.size()); for (auto v : g.data) sim::hash(v); }
  if (p > 1) sim::nontrivial(); sim::state(((uint64_t)cfg.kind * 64 + std::min<size_t>(p, 31)) * 64 + std::min<size_t>(updates, 63));
  arrived.reset(); rossim::reset_world();
}
