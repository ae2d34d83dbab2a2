// Simulated network and robot for the ROS scenarios: timed events, links that
// lose, duplicate, delay, reorder and hold back messages, a driving robot that
// sends transforms and scans.
#ifndef VERIF_ROSNET_H
#define VERIF_ROSNET_H
#include "../sim/sim.h"
#include "ros/ros.h"
#include <sensor_msgs/LaserScan.h>
#include <tf/tfMessage.h>
#include <tf/transform_datatypes.h>
#include <map>

namespace rosnet {
inline int64_t ns(double s) { return (int64_t)std::llround(s * 1e9); }

struct Net {
  std::multimap<int64_t, std::function<void()>> ev;
  void at(int64_t t, std::function<void()> f) { ev.emplace(std::max(t, rossim::w().now_ns), f); }
  // runs the next event; false when there is none before the end
  bool step(int64_t end) {
    if (ev.empty() || ev.begin()->first > end) return false;
    auto i = ev.begin(); int64_t t = i->first; auto f = i->second; ev.erase(i);
    if (t > rossim::w().now_ns) { int64_t d = t - rossim::w().now_ns; rossim::sleep_ns(d); }
    sim::step(); f(); return true;
  }
};

struct Link {
  int loss = 0, dup = 0; double delay = 0.002, jitter = 0; int stall = 0; double stall_len = 0;
  double cut_from = -1, cut_to = -1; bool hold = false;   // partition; held messages arrive after it heals
  static Link gen(bool faulty) {
    Link l; l.delay = sim::real(0, 0.02);
    if (!faulty) return l;
    if (sim::chance(1, 2)) l.loss = (int)sim::draw(40);
    if (sim::chance(1, 3)) l.dup = (int)sim::draw(40);
    if (sim::chance(1, 2)) l.jitter = sim::real(0, 0.4);
    if (sim::chance(1, 3)) { l.stall = (int)sim::draw(20); l.stall_len = sim::real(0.1, 3); }
    if (sim::chance(1, 4)) { l.cut_from = sim::real(0, 3); l.cut_to = l.cut_from + sim::real(0.1, 2); l.hold = sim::chance(1, 2); }
    return l;
  }
  void send(Net &n, std::function<void()> deliver, const char *what) const {
    double t = rossim::w().now_ns * 1e-9;
    double d = delay;
    if (cut_from <= t && t < cut_to) {
      if (!hold) { sim::fault("partition_drop"); return; }
      sim::fault("partition_hold"); d += cut_to - t;
    }
    if (loss && sim::chance(loss, 100)) { sim::fault("message_loss"); return; }
    int copies = 1;
    if (dup && sim::chance(dup, 100)) { copies = 2; sim::fault("message_duplicate"); }
    for (int i = 0; i < copies; ++i) {
      double e = d;
      if (jitter > 0) { e += sim::real(0, jitter); sim::fault("message_jitter"); }
      if (stall && sim::chance(stall, 100)) { e += stall_len; sim::fault("message_stall"); }
      n.at(rossim::w().now_ns + ns(e), deliver);
    }
    (void)what;
  }
};

inline geometry_msgs::TransformStamped stamped(const std::string &parent, const std::string &child, int64_t t, double x, double y, double z, double roll, double pitch, double yaw) {
  geometry_msgs::TransformStamped m; m.header.stamp.fromNSec(t); m.header.frame_id = parent; m.child_frame_id = child;
  tf::Quaternion q; q.setRPY(roll, pitch, yaw);
  m.transform.translation.x = x; m.transform.translation.y = y; m.transform.translation.z = z;
  m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); m.transform.rotation.w = q.w();
  return m;
}

// the node takes no callbacks for a while, now and then
inline void stalls(Net &n, int64_t t0, double len) {
  int k = 1 + (int)sim::draw(3);
  for (int i = 0; i < k; ++i) {
    sim::Span sp; int64_t at = t0 + ns(sim::real(0, len)), d = ns(sim::chance(1, 3) ? sim::real(0.5, 3) : sim::real(0.05, 0.6));
    n.at(at, [] { rossim::w().stalled = true; sim::fault("node_stall"); }); n.at(at + d, [] { if (rossim::w().stalled) rossim::w().resume(); });
  }
}

struct Drive {   // odometry of the base
  double x = 0, y = 0, th = 0, v = 0, om = 0, roll = 0, pitch = 0, z = 0;
  void gen(bool tilt) { x = sim::sreal(5); y = sim::sreal(5); th = sim::sreal(3); v = sim::sreal(1.0); om = sim::sreal(2.0); if (tilt) { roll = sim::sreal(0.05); pitch = sim::sreal(0.05); z = sim::sreal(0.3); } }
  void move(double dt) { th += om * dt; x += v * dt * std::cos(th); y += v * dt * std::sin(th); if (th > M_PI) th -= 2 * M_PI; if (th < -M_PI) th += 2 * M_PI; }
};
}  // namespace rosnet
#endif
