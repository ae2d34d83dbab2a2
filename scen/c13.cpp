// C13: odometry and scans reach the SLAM once each, whatever the transport does.
// Real: TopicWithTransform, LaserScanObserver, trigonometry providers.  ROS is simulated.
#include "scen/rosnet.h"
#include "ros/topic_with_transform.h"
#include "ros/laser_scan_observer.h"
#include "scen/env.h"
#include <cstring>
#include <set>

using Scan = sensor_msgs::LaserScan;
namespace {
struct Recorder : SensorDataObserver<TransformedLaserScan> {
  std::vector<TransformedLaserScan> got;
  void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); }
};
struct Bystander : TopicObserver<Scan> {
  std::function<void()> act; int calls = 0;
  void handle_transformed_msg(const boost::shared_ptr<Scan>, const tf::StampedTransform &) override { ++calls; if (act) act(); }
};
// what the same network hands to a listener of its own
struct Twin {
  message_filters::Subscriber<Scan> sub; tf::TransformListener tfl; tf::MessageFilter<Scan> flt; std::string target;
  struct Rec { boost::shared_ptr<Scan> m; tf::StampedTransform t; };
  std::vector<Rec> rec; int unusable = 0;
  Twin(const std::string &topic, const std::string &tgt, double buf, uint32_t fq, uint32_t sq) : sub(ros::NodeHandle(), topic, sq), tfl(ros::Duration(buf)), flt(sub, tfl, tgt, fq), target(tgt) {
    flt.registerCallback([this](const boost::shared_ptr<Scan> &m) {
      tf::StampedTransform t;
      try { tfl.lookupTransform(target, m->header.frame_id, m->header.stamp, t); } catch (tf::TransformException &) { ++unusable; return; }
      rec.push_back({m, t}); });
  }
};

float special(float lo, float hi) {
  switch (sim::draw(12)) {
    case 0: return std::numeric_limits<float>::quiet_NaN();
    case 1: return std::numeric_limits<float>::infinity();
    case 2: return -std::numeric_limits<float>::infinity();
    case 3: return 0; case 4: return lo; case 5: return hi;
    case 6: return std::nextafterf(lo, 0); case 7: return std::nextafterf(hi, 1e9f); case 8: return std::nextafterf(hi, 0);
    case 9: return -1; case 10: return hi * 3; default: return -std::numeric_limits<float>::quiet_NaN();
  }
}
void fill_scan(Scan &m, int beams, bool cw) {
  double inc = beams > 1 ? sim::real(0.001, std::min(0.5, 6.2 / beams)) : (sim::chance(1, 2) ? 0 : sim::real(0.01, 0.5));
  if (cw) inc = -inc;
  m.angle_increment = (float)inc;
  m.angle_min = (float)(cw ? sim::real(0, 3.1) : -sim::real(0, 3.1));
  m.angle_max = (float)((double)m.angle_min + (double)m.angle_increment * (beams - 1));
  m.range_min = (float)sim::real(0, 0.5); m.range_max = (float)sim::real(3, 30);
}
void check_points(const Scan &m, const TransformedLaserScan &s, bool skip) {
  size_t k = 0; const auto &pts = s.scan.points();
  for (size_t i = 0; i < m.ranges.size(); ++i) {
    double r = m.ranges[i]; bool occ = true;
    if (std::isnan(r) || r < m.range_min) continue;
    if (r >= m.range_max) { if (skip) continue; occ = false; r = m.range_max; }
    double a = (double)m.angle_min + (double)m.angle_increment * (double)i;
    EXPECT(k < pts.size(), "lost-point", "range %zu (%g) of the message is not in the scan of %zu points", i, (double)m.ranges[i], pts.size());
    const auto &p = pts[k++];
    EXPECT(p.is_occupied() == occ, "point-occupancy", "range %g in [%g, %g] becomes %s point", (double)m.ranges[i], (double)m.range_min, (double)m.range_max, p.is_occupied() ? "an obstacle" : "a free");
    EXPECT(p.range() == r, "point-range", "range %g becomes %g", r, p.range());
    EXPECT(std::fabs(p.angle() - a) < 2e-6, "point-bearing", "bearing of range %zu is %.9f, should be %.9f", i, p.angle(), a);
    for (int q = 0; q < 2; ++q) {
      double base = q ? 2.5 * std::sin(i * 1.7 + k) : 0;
      s.scan.trig_provider->set_base_angle(base);
      double c = s.scan.trig_provider->cos(p.angle()), n = s.scan.trig_provider->sin(p.angle());
      EXPECT(std::fabs(c - std::cos(base + a)) < 3e-6 && std::fabs(n - std::sin(base + a)) < 3e-6, "cached-trigonometry", "beam %zu of %zu, base angle %g: (cos, sin) = (%.9f, %.9f), should be (%.9f, %.9f)", i, m.ranges.size(), base, c, n, std::cos(base + a), std::sin(base + a));
    }
  }
  EXPECT(k == pts.size(), "invented-point", "the scan has %zu points, the message yields %zu", pts.size(), k);
}
}  // namespace

SCENARIO(topic, "c13.topic") {
  std::cout.setstate(std::ios::failbit);
  rossim::reset_world(); rosnet::Net net;
  rossim::w().now_ns = sim::chance(1, 4) ? rosnet::ns(1.5e9) : rosnet::ns(sim::real(0.1, 50));
  int64_t t0 = rossim::w().now_ns;
  const std::string topic = "/base_scan", target = sim::chance(1, 3) ? "/odom_combined" : "odom_combined";
  double buf = sim::chance(1, 3) ? sim::real(0.3, 2) : 5.0;
  uint32_t fq = sim::chance(1, 3) ? 1 + sim::draw(5) : 1000, sq = sim::chance(1, 3) ? 1 + sim::draw(sim::chance(1, 2) ? 3 : 12) : 1000;
  bool skip = sim::chance(1, 2), cached = sim::chance(1, 2);
  auto twin = std::make_unique<Twin>(topic, target, buf, fq, sq);
  auto prov = buf == 5.0 && fq == 1000 && sq == 1000 ? std::make_unique<TopicWithTransform<Scan>>(ros::NodeHandle(), topic, target) : std::make_unique<TopicWithTransform<Scan>>(ros::NodeHandle(), topic, target, buf, fq, sq);
  auto slam = std::make_shared<Recorder>();
  auto obs = std::make_shared<LaserScanObserver>(slam, skip, cached);
  std::vector<std::shared_ptr<Bystander>> by;
  int nb = (int)sim::draw(4), pos = nb ? (int)sim::draw(nb + 1) : 0;
  for (int i = 0; i <= nb; ++i) {
    if (i == pos) prov->subscribe(obs);
    if (i == nb) break;
    by.push_back(std::make_shared<Bystander>()); prov->subscribe(by.back());
    int at = 1 + (int)sim::draw(6), whom = (int)sim::draw(nb); Bystander *me = by.back().get(); auto &r = by;
    if (sim::chance(1, 2)) me->act = [me, at, whom, &r] { if (me->calls == at && whom < (int)r.size()) r[whom].reset(); };
  }
  rosnet::Link lt = rosnet::Link::gen(sim::chance(2, 3)), ls = rosnet::Link::gen(sim::chance(2, 3));
  auto shift = [&](rosnet::Link &l) { if (l.cut_from >= 0) { l.cut_from += t0 * 1e-9; l.cut_to += t0 * 1e-9; } }; shift(lt); shift(ls);
  rosnet::Drive d; d.gen(sim::chance(1, 3));
  double mount[6] = {sim::sreal(0.3), sim::sreal(0.2), sim::sreal(0.4), sim::chance(1, 5) ? M_PI : 0, 0, sim::sreal(3)};
  double tf_dt = sim::real(0.02, 0.2), sc_dt = sim::real(0.05, 0.4); int mount_every = 1 + (int)sim::draw(4); double len = sim::real(0.5, 4);
  if (sim::chance(1, 3)) rosnet::stalls(net, t0, len);
  if (sim::chance(1, 8)) { sc_dt = sim::real(0.01, 0.03); len = std::min(len, 2.0); if (sim::chance(1, 2)) { lt.cut_from = t0 * 1e-9 + sim::real(0, 0.5); lt.cut_to = lt.cut_from + sim::real(0.5, 1.5); lt.hold = true; } }
  bool extra_frames = sim::chance(1, 3); double clk_skew = sim::chance(1, 4) ? sim::sreal(0.3) : 0;   // of the scanner's clock
  int ntf = 0, nsc = 0; double last = t0 * 1e-9;
  std::function<void()> send_tf = [&] {
    sim::Span sp; double t = rossim::w().now_ns * 1e-9; d.move(t - last); last = t;
    if (sim::chance(1, 6)) { d.v = sim::sreal(1); d.om = sim::sreal(2); }
    auto m = std::make_shared<tf::tfMessage>(); int64_t st = rossim::w().now_ns;
    m->transforms.push_back(rosnet::stamped(sim::chance(1, 2) ? "/odom_combined" : "odom_combined", "base", st, d.x, d.y, d.z, d.roll, d.pitch, d.th));
    if (ntf++ % mount_every == 0) m->transforms.push_back(rosnet::stamped("base", "laser", st, mount[0], mount[1], mount[2], mount[3], mount[4], mount[5]));
    if (extra_frames && sim::chance(1, 3)) m->transforms.push_back(rosnet::stamped("map", "odom_combined", st, 1, 2, 0, 0, 0, 0.5));
    lt.send(net, [m] { rossim::w().deliver_tf(*m); }, "tf");
    if (rossim::w().now_ns - t0 < rosnet::ns(len)) net.at(rossim::w().now_ns + rosnet::ns(tf_dt), send_tf);
  };
  std::function<void()> send_scan = [&] {
    sim::Span sp; auto m = boost::make_shared<Scan>();
    m->header.seq = nsc++; m->header.frame_id = extra_frames && sim::chance(1, 8) ? "other_laser" : "laser";
    int64_t st = rossim::w().now_ns + rosnet::ns(clk_skew); if (st < 1) st = 1;
    m->header.stamp.fromNSec(st);
    int beams = sim::chance(1, 8) ? (int)sim::draw(2) : 1 + (int)sim::draw(24);
    if (sim::chance(1, 40)) beams = 300 + (int)sim::draw(800);
    if (beams == 0) { fill_scan(*m, 2 + (int)sim::draw(20), sim::chance(1, 4)); sim::fault("empty_scan"); }
    else fill_scan(*m, beams, sim::chance(1, 4));
    for (int i = 0; i < beams; ++i) {
      if (beams < 40 ? sim::chance(1, 4) : i % 13 == 5) { m->ranges.push_back(beams < 40 ? special(m->range_min, m->range_max) : std::numeric_limits<float>::quiet_NaN()); if (i == 0) sim::fault("bad_range"); }
      else m->ranges.push_back((float)(beams < 40 ? sim::real(m->range_min, m->range_max) : m->range_min + 0.5 + (i % 7) * 0.3));
    }
    ls.send(net, [m, topic] { rossim::w().deliver<Scan>(topic, m); }, "scan");
    if (rossim::w().now_ns - t0 < rosnet::ns(len)) net.at(rossim::w().now_ns + rosnet::ns(sc_dt), send_scan);
  };
  net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_tf); net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_scan);
  size_t done = 0; RobotPose prev{0, 0, 0}; double total_x = 0, total_y = 0, total_t = 0; int late = 0; uint32_t maxseq = 0;
  while (net.step(t0 + rosnet::ns(len + 20))) {
    sim::advance(0);
    auto &rec = twin->rec;
    EXPECT(slam->got.size() <= rec.size(), "handed-twice", "%zu scans handed to the SLAM, %zu messages arrived with a usable transform", slam->got.size(), rec.size());
    EXPECT(slam->got.size() == rec.size(), "scan-lost", "%zu messages arrived with a usable transform, only %zu handed to the SLAM", rec.size(), slam->got.size());
    for (; done < rec.size(); ++done) {
      const auto &r = rec[done]; const auto &g = slam->got[done];
      RobotPose now{r.t.getOrigin().x(), r.t.getOrigin().y(), tf::getYaw(r.t.getRotation())};
      double dt = std::remainder(g.pose_delta.theta - (now.theta - prev.theta), 2 * M_PI);
      EXPECT(std::fabs(g.pose_delta.x - (now.x - prev.x)) < 1e-9 && std::fabs(g.pose_delta.y - (now.y - prev.y)) < 1e-9 && std::fabs(dt) < 1e-9, "odometry-increment",
             "scan %u: increment (%g, %g, %g), odometry moved by (%g, %g, %g) since the previous scan", r.m->header.seq, g.pose_delta.x, g.pose_delta.y, g.pose_delta.theta, now.x - prev.x, now.y - prev.y, now.theta - prev.theta);
      total_x += g.pose_delta.x; total_y += g.pose_delta.y; total_t += g.pose_delta.theta;
      EXPECT(std::fabs(total_x - now.x) < 1e-7 && std::fabs(total_y - now.y) < 1e-7 && std::fabs(std::remainder(total_t - now.theta, 2 * M_PI)) < 1e-7, "odometry-sum", "increments add up to (%g, %g, %g), odometry is at (%g, %g, %g)", total_x, total_y, total_t, now.x, now.y, now.theta);
      prev = now; check_points(*r.m, g, skip);
      if (r.m->header.seq < maxseq) ++late; maxseq = std::max(maxseq, r.m->header.seq);
      sim::log("scan %u handed, %zu points", r.m->header.seq, g.scan.points().size()); sim::hashd(now.x);
    }
  }
  EXPECT(!rossim::w().stalled, "harness", "still stalled");
  if (rossim::w().overflown) sim::fault("queue_overflow", rossim::w().overflown);
  if (late) sim::probe("delivered_out_of_order", late);
  if (twin->unusable) sim::probe("transform_gone_at_callback", twin->unusable);
  if (twin->flt.queued()) sim::probe("never_transformable", twin->flt.queued());
  sim::log("%d scans sent, %zu handed", nsc, done);
  if (done > 1) sim::nontrivial();
  sim::state((uint64_t)std::min<size_t>(done, 20) * 64 + std::min(nsc, 20) + (late > 0) * 4096 + cached * 8192 + skip * 16384);
  sim::advance(rossim::w().now_ns * 1e-9 - t0 * 1e-9);
  prov.reset(); twin.reset(); rossim::reset_world();
}

// the cache in other hands: reused for scans of other geometry
SCENARIO(trig, "c13.trig") {
  auto cache = std::make_shared<CachedTrigonometryProvider>(); auto raw = std::make_shared<RawTrigonometryProvider>();
  int rounds = 1 + (int)sim::draw(5); double mn = 0, inc = 0, lmx = 0; int n = 1; bool lmx_known = false;
  for (int k = 0; k < rounds; ++k) {
    sim::Span sp; sim::step();
    if (k == 0 || !sim::chance(1, 4)) {
      double om = mn, ox = mn + inc * (n - 1), linc = inc; n = 1 + (int)sim::draw(sim::chance(1, 10) ? 1500 : 40); mn = k && sim::chance(1, 3) ? om : sim::sreal(3.2); inc = (n == 1 && sim::chance(1, 2)) ? 0 : sim::real(0.0005, 6.28 / (n + 1));
      if (sim::chance(1, 3)) inc = -inc; if (sim::chance(1, 3)) inc = (float)inc;
      if (k && sim::chance(1, 3)) {   // another resolution of the same sector, or one that ends at the same bearing
        n = 2 + (int)sim::draw(40); bool same = sim::chance(1, 2), step = sim::chance(1, 2) && linc != 0; if (step) inc = linc;
        if (step) { if (same) mn = om; else mn = ox - inc * (n - 1); }   // the same resolution, a narrower or wider sector
        else if (same && om != ox) { mn = om; inc = (ox - om) / (n - 1); } else mn = ox - inc * (n - 1);
        sim::probe("same_end");
      }
    }
    { double mx = mn + inc * (n - 1); if (lmx_known && std::fabs(mx - lmx) < 1e-9) mx = lmx; lmx = mx; lmx_known = true; cache->update(mn, mx, inc); }
    for (int b = 0; b < 3; ++b) {
      double base = b ? sim::sreal(10) : 0; cache->set_base_angle(base); raw->set_base_angle(base);
      LaserScan2D s; s.trig_provider = cache;
      for (int i = 0; i < n; ++i) {
        double a = mn + inc * i; ScanPoint2D p{1 + i * 0.01, a, true};
        auto w = p.move_origin(0.3, -0.7, cache), v = p.move_origin(0.3, -0.7, raw);
        EXPECT(std::hypot(w.x - v.x, w.y - v.y) < 1e-6, "cached-trigonometry", "beam %d of %d at %g, base %g: cached world point (%g, %g), direct (%g, %g)", i, n, a, base, w.x, w.y, v.x, v.y);
      }
    }
    sim::log("min %g inc %g n %d", mn, inc, n);
  }
  if (rounds > 1) sim::nontrivial();
  sim::state((uint64_t)n * 8 + rounds);
}
