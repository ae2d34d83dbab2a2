// A simulated planar environment, drive and laser scanner (no oracle inside).
#ifndef VERIF_ENV_H
#define VERIF_ENV_H
#include "../sim/sim.h"
#include "core/states/sensor_data.h"
#include "utils/properties_providers.h"
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>

struct Env {
  struct Box { double x0, y0, x1, y1; };
  double hx = 6, hy = 5;              // room [-hx, hx] x [-hy, hy]
  std::vector<Box> boxes;             // solid obstacles
  // distance to the first wall along the ray, inf if beyond lim
  double cast(double x, double y, double a, double lim) const {
    double c = std::cos(a), s = std::sin(a), best = lim;
    bool hit = false;
    auto upd = [&](double t) { if (1e-9 < t && t < best) { best = t; hit = true; } };
    if (c > 1e-12) upd((hx - x) / c); else if (c < -1e-12) upd((-hx - x) / c);
    if (s > 1e-12) upd((hy - y) / s); else if (s < -1e-12) upd((-hy - y) / s);
    for (auto &b : boxes) {
      double t0 = 0, t1 = best;
      double o[2] = {x, y}, d[2] = {c, s}, lo[2] = {b.x0, b.y0}, hi[2] = {b.x1, b.y1};
      bool ok = true;
      for (int k = 0; k < 2 && ok; ++k) {
        if (std::fabs(d[k]) < 1e-12) { if (o[k] < lo[k] || hi[k] < o[k]) ok = false; continue; }
        double a0 = (lo[k] - o[k]) / d[k], a1 = (hi[k] - o[k]) / d[k];
        if (a0 > a1) std::swap(a0, a1);
        t0 = std::max(t0, a0); t1 = std::min(t1, a1);
        if (t0 > t1) ok = false;
      }
      if (ok && t0 > 0) upd(t0);
    }
    return hit ? best : std::numeric_limits<double>::infinity();
  }
  // clearance of a point from every obstacle
  double clearance(double x, double y) const {
    double d = std::min(std::min(hx - x, hx + x), std::min(hy - y, hy + y));
    for (auto &b : boxes) {
      double dx = std::max({b.x0 - x, 0.0, x - b.x1}), dy = std::max({b.y0 - y, 0.0, y - b.y1});
      d = std::min(d, std::hypot(dx, dy));
    }
    return d;
  }
};

struct Lidar { int beams = 180; double fov = 4.7, max_range = 10, noise = 0; bool misses = true; };

inline Env gen_env(int max_boxes = 4) {
  Env e;
  e.hx = sim::real(3.5, 7); e.hy = sim::real(3.5, 6);
  int nb = (int)sim::draw((uint32_t)max_boxes + 1);
  for (int i = 0; i < nb; ++i) {
    double w = sim::real(0.4, 1.4), h = sim::real(0.4, 1.4);
    double x = sim::sreal(e.hx - 1.0), y = sim::sreal(e.hy - 1.0);
    Env::Box b{x - w / 2, y - h / 2, x + w / 2, y + h / 2};
    if (std::hypot(x, y) < 2.2) continue;   // keep the start area clear
    e.boxes.push_back(b);
  }
  return e;
}

inline LaserScan2D make_scan(const Env &e, const Lidar &l, const RobotPose &p) {
  LaserScan2D s;
  for (int i = 0; i < l.beams; ++i) {
    double a = -l.fov / 2 + l.fov * (i + 0.5) / l.beams;
    double r = e.cast(p.x, p.y, p.theta + a, l.max_range);
    if (std::isinf(r)) { if (l.misses) s.points().push_back(ScanPoint2D::make_polar(l.max_range, a, false)); continue; }
    if (l.noise > 0) r += sim::sreal(l.noise);
    s.points().push_back(ScanPoint2D::make_polar(r, a, true));
  }
  return s;
}

// True trajectory and the odometry a wheel encoder would report for it.
struct Drive {
  RobotPose truth{0, 0, 0}, odom{0, 0, 0};
  double drift_trans = 0, drift_rot = 0;    // relative errors per step
  double dir = 0;
  // one step: keeps clear of obstacles, turns when blocked; returns the odometry increment
  RobotPoseDelta step(const Env &e, double len, double turn, double margin = 0.7) {
    double th = truth.theta + turn;
    for (int k = 0; k < 16; ++k) {
      double nx = truth.x + len * std::cos(th), ny = truth.y + len * std::sin(th);
      if (e.clearance(nx, ny) > margin) break;
      turn += 0.35; th = truth.theta + turn;
      if (k == 15) len = 0;
    }
    // limit rotation per step, do not move while turning hard
    if (std::fabs(turn) > 0.35) { turn = turn > 0 ? 0.35 : -0.35; len = 0; th = truth.theta + turn; }
    truth = RobotPose{truth.x + len * std::cos(th), truth.y + len * std::sin(th), th};
    double l2 = len * (1 + drift_trans), t2 = turn + (std::fabs(turn) + len) * drift_rot;
    RobotPose next{odom.x + l2 * std::cos(odom.theta + t2), odom.y + l2 * std::sin(odom.theta + t2), odom.theta + t2};
    RobotPoseDelta d = next - odom;
    odom = next;
    return d;
  }
};

#endif
