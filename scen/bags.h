// Recordings of a simulated drive: what a recorder at the end of faulty links
// gets, and the model of which scans of it can be resolved, when and how.
#ifndef VERIF_BAGS_H
#define VERIF_BAGS_H
#include "scen/rosnet.h"
#include <rosbag/bag.h>
#include <rosbag/view.h>
#include <deque>
#include <set>
#include "scen/env.h"

namespace bags {
using Scan = sensor_msgs::LaserScan;
struct Opts { bool faulty = true, junk = true, gaps = true; double len_lo = 0.5, len_hi = 5, sc_lo = 0.05, sc_hi = 0.5; int beams_lo = 1, beams_hi = 8; const Env *env = nullptr; double max_range = 8; bool bad_ranges = true; };
struct Rec {
  std::string scan_topic = "/base_scan", tf_topic = "/tf", odom = "odom_combined", ignore;
  std::set<std::pair<std::string, std::string>> ignored;   // without slashes
  std::vector<rossim::BagEntry> entries; int scans = 0, tfs = 0;
  std::vector<boost::shared_ptr<Scan>> scan_msgs;           // as recorded
};
inline std::string slash(const std::string &f) { return sim::chance(1, 3) ? "/" + f : f; }

inline Rec record(const Opts &o) {
  Rec r; rosnet::Net net; auto &w = rossim::w(); int64_t t0 = w.now_ns;
  if (sim::chance(1, 3)) r.scan_topic = "/scan"; if (sim::chance(1, 3)) r.tf_topic = "/tf_old"; if (sim::chance(1, 2)) r.odom = "odom";
  // which transforms the user asks to ignore
  bool other_odom = o.junk && sim::chance(1, 2), reversed = o.junk && sim::chance(1, 3), map_tf = o.junk && sim::chance(1, 3);
  std::vector<std::pair<std::string, std::string>> ig;
  if (other_odom) ig.push_back({r.odom, "base_link"});
  if (reversed) ig.push_back({"laser", "base_link"});
  if (map_tf && sim::chance(1, 2)) ig.push_back({"map", r.odom});
  if (o.junk && sim::chance(1, 4)) ig.push_back({r.odom, "nowhere"});
  if (o.junk && sim::chance(1, 4)) {     // names that only resemble recorded ones: nothing is to be ignored because of them
    static const std::vector<std::pair<std::string, std::string>> like{{"", "base"}, {"", "base_footprin"}, {"", "base_footprint_2"}, {"base_link", "las"}, {"base_link", "laser2"}, {"base", "laser"}, {"base_footprint", "base"}, {"base_foot", "base_link"}, {"base_footprint", "link"}};
    auto p = like[sim::draw(like.size())]; if (p.first.empty()) p.first = sim::chance(3, 4) ? r.odom : r.odom.substr(0, r.odom.size() - 1); ig.push_back(p); }
  for (size_t i = ig.size(); i > 1; --i) std::swap(ig[i - 1], ig[sim::draw(i)]);
  bool sloppy = o.junk && sim::chance(1, 5); auto typo = [&] { if (sloppy && sim::chance(1, 2)) r.ignore += sim::chance(1, 3) ? ":" : sim::chance(1, 2) ? "base_footprint:" : "laser_base_link:"; };   // entries that name no pair
  for (auto &p : ig) { typo(); r.ignored.insert(p); r.ignore += p.first + "-" + p.second; if (&p != &ig.back()) r.ignore += ":"; }
  if (sloppy && sim::chance(1, 2)) r.ignore += r.ignore.empty() ? "laser" : ":laser";
  auto put = [&r](const std::string &topic, const std::type_info &ti, std::shared_ptr<void> m) { rossim::BagEntry e; e.topic = topic; e.time.fromNSec(rossim::w().now_ns); e.type = &ti; e.msg = m; r.entries.push_back(e); };
  rosnet::Link lt = rosnet::Link::gen(o.faulty && sim::chance(2, 3)), ls = rosnet::Link::gen(o.faulty && sim::chance(2, 3));
  auto shift = [&](rosnet::Link &l) { if (l.cut_from >= 0) { l.cut_from += t0 * 1e-9; l.cut_to += t0 * 1e-9; } if (o.faulty && sim::chance(1, 8)) l.stall_len = sim::real(3, 40); }; shift(lt); shift(ls);
  rosnet::Drive d; d.gen(sim::chance(1, 3)); if (o.env) { d.x = d.y = d.z = d.roll = d.pitch = 0; d.v = sim::sreal(0.5); d.om = sim::sreal(0.7); }
  ::Drive walk; double px = d.x, py = d.y, pt = d.th;       // in a room, odometry follows a walk that keeps clear of walls
  double mount[6] = {sim::sreal(0.3), sim::sreal(0.2), sim::sreal(0.4), 0, 0, sim::sreal(o.env ? 0.3 : 3)};
  double tf_dt = sim::real(0.02, 0.25), sc_dt = sim::real(o.sc_lo, o.sc_hi), len = sim::real(o.len_lo, o.len_hi);
  int mount_every = 1 + (int)sim::draw(3), link_shift = sim::chance(1, 2) ? (int)sim::draw(3) : 0; bool split = sim::chance(1, 3), badframe = o.junk && sim::chance(1, 3); double skew = o.junk && sim::chance(1, 4) ? sim::sreal(0.5) : 0;
  double gap_at = o.gaps && sim::chance(1, 6) ? sim::real(0, len) : -1, gap = sim::chance(1, 2) ? sim::real(900, 2500) : sim::real(5, 60); bool gapped = false;
  int ntf = 0, nsc = 0; double last = t0 * 1e-9;
  std::function<void()> send_tf = [&] {
    sim::Span sp; double t = w.now_ns * 1e-9, dt = t - last; last = t;
    if (o.env) { auto dl = walk.step(*o.env, std::min(0.3, std::fabs(d.v) * dt), d.om * dt); (void)dl; d.x = walk.odom.x + px; d.y = walk.odom.y + py; d.th = walk.odom.theta + pt; }
    else d.move(dt);
    if (sim::chance(1, 6)) { d.v = sim::sreal(o.env ? 0.5 : 1); d.om = sim::sreal(o.env ? 0.7 : 2); }
    auto m = std::make_shared<tf::tfMessage>(); int64_t st = w.now_ns; bool link = (ntf + mount_every - link_shift % mount_every) % mount_every == 0, mnt = ntf++ % mount_every == 0;
    m->transforms.push_back(rosnet::stamped(slash(r.odom), slash("base_footprint"), st, d.x, d.y, d.z, d.roll, d.pitch, d.th));
    auto rest = split ? std::make_shared<tf::tfMessage>() : m;
    if (other_odom && sim::chance(1, 2)) rest->transforms.push_back(rosnet::stamped(slash(r.odom), slash("base_link"), st, sim::sreal(3), sim::sreal(3), 0, 0, 0, 1));
    if (link) { rest->transforms.push_back(rosnet::stamped(slash("base_footprint"), slash("base_link"), st, 0.01, 0, 0.1, 0, 0, 0)); }
    if (reversed && sim::chance(1, 3)) rest->transforms.push_back(rosnet::stamped(slash("laser"), slash("base_link"), st, 9, 9, 0, 0, 0, 2));
    if (mnt) rest->transforms.push_back(rosnet::stamped(slash("base_link"), slash("laser"), st, mount[0], mount[1], mount[2], mount[3], mount[4], mount[5]));
    if (map_tf && sim::chance(1, 2)) m->transforms.push_back(rosnet::stamped(slash("map"), slash(r.odom), st, 1, 2, 0, 0, 0, 0.5));
    auto dl = [&, m] { ++r.tfs; put(r.tf_topic, typeid(tf::tfMessage), m); }; lt.send(net, dl, "tf");
    if (split && !rest->transforms.empty()) lt.send(net, [&, rest] { ++r.tfs; put(r.tf_topic, typeid(tf::tfMessage), rest); }, "tf");
    if (!gapped && gap_at >= 0 && t - t0 * 1e-9 > gap_at) { gapped = true; w.now_ns += rosnet::ns(gap); t0 += rosnet::ns(gap); last += gap; sim::fault("recording_gap"); }
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(tf_dt), send_tf);
  };
  std::function<void()> send_scan = [&] {
    sim::Span sp; auto m = std::make_shared<Scan>(); m->header.seq = nsc++; m->header.frame_id = badframe && sim::chance(1, 5) ? "other_laser" : slash("laser");
    int64_t st = w.now_ns + rosnet::ns(skew); m->header.stamp.fromNSec(std::max<int64_t>(st, 1));
    int beams = o.beams_lo + (int)sim::draw(o.beams_hi - o.beams_lo + 1); double fov = o.env ? 4.0 : 2.0;
    m->angle_increment = (float)(fov / beams); m->angle_min = (float)(-fov / 2); m->angle_max = (float)((double)m->angle_min + (double)m->angle_increment * (beams - 1)); m->range_min = 0.05f; m->range_max = (float)o.max_range;
    double lx = walk.truth.x + mount[0] * std::cos(walk.truth.theta) - mount[1] * std::sin(walk.truth.theta), ly = walk.truth.y + mount[0] * std::sin(walk.truth.theta) + mount[1] * std::cos(walk.truth.theta);
    for (int i = 0; i < beams; ++i) {
      if (o.env) { double a = walk.truth.theta + mount[5] + m->angle_min + (double)m->angle_increment * i; double q = o.env->cast(lx, ly, a, o.max_range); m->ranges.push_back(std::isinf(q) ? m->range_max : (float)q); }
      else m->ranges.push_back((float)sim::real(0.1, o.max_range));
      if (o.bad_ranges && i % 7 == 3 && sim::chance(1, 6)) { m->ranges.back() = sim::chance(1, 2) ? std::numeric_limits<float>::quiet_NaN() : 0.01f; sim::fault("bad_range"); }
    }
    if (o.bad_ranges && sim::chance(1, 12)) { int how = (int)sim::draw(4); sim::fault("blinded_scan"); if (how == 3) m->ranges.clear(); for (auto &q : m->ranges) q = how == 0 ? std::numeric_limits<float>::quiet_NaN() : how == 1 ? 0.01f : m->range_max + 1; }
    ls.send(net, [&, m] { ++r.scans; put(r.scan_topic, typeid(Scan), m); r.scan_msgs.push_back(boost::make_shared<Scan>(*m)); }, "scan");
    if (w.now_ns - t0 < rosnet::ns(len)) net.at(w.now_ns + rosnet::ns(sc_dt), send_scan);
  };
  net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_tf); net.at(t0 + rosnet::ns(sim::real(0, 0.3)), send_scan);
  if (o.junk && sim::chance(1, 3)) for (int i = 0; i < 5; ++i) { auto m = std::make_shared<Scan>(); m->header.seq = 100000 + i; m->header.frame_id = "laser"; net.at(t0 + rosnet::ns(sim::real(0, len)), [&, m] { put("/other_scan", typeid(Scan), m); }); }
  int64_t begin = w.now_ns; while (net.step(std::numeric_limits<int64_t>::max())) {} sim::advance((w.now_ns - begin) * 1e-9);
  return r;
}

// the scans a reader that works through the recording in order can hand on
struct Handled { boost::shared_ptr<Scan> m; tf::StampedTransform t; };
struct Model {
  std::vector<Handled> handled; int dropped_past = 0, dropped_end = 0; size_t max_queue = 0;
  explicit Model(const Rec &r) {
    tf::Transformer tfb(true, ros::Duration(1000.0)); std::deque<boost::shared_ptr<Scan>> q;
    enum R { DONE, PAST, WAIT };
    auto attempt = [&](tf::StampedTransform &t) {
      try { tfb.lookupTransform(r.odom, q.front()->header.frame_id, q.front()->header.stamp, t); return DONE; }
      catch (const tf::ExtrapolationException &e) { return std::string(e.what()).find("into the past") != std::string::npos ? PAST : WAIT; }
      catch (const tf::TransformException &) { return WAIT; } };
    auto drain = [&] { while (!q.empty()) { tf::StampedTransform t; R k = attempt(t); if (k == WAIT) return; if (k == DONE) handled.push_back({q.front(), t}); else ++dropped_past; q.pop_front(); } };
    for (auto &e : r.entries) {
      if (e.topic == r.scan_topic) q.push_back(boost::make_shared<Scan>(*(Scan *)e.msg.get()));
      else if (e.topic == r.tf_topic) { for (auto &t : ((tf::tfMessage *)e.msg.get())->transforms) { if (r.ignored.count({tf::strip_slash(t.header.frame_id), tf::strip_slash(t.child_frame_id)})) continue; tf::StampedTransform st; tf::transformStampedMsgToTF(t, st); tfb.setTransform(st); } }
      else continue;
      max_queue = std::max(max_queue, q.size()); drain();
    }
    while (drain(), !q.empty()) { q.pop_front(); ++dropped_end; }
  }
};
}  // namespace bags
#endif
