// Shared by the scan matching scenarios: random maps, scans, estimators and an
// independent recomputation of a scan's score.
#ifndef VERIF_MATCHING_H
#define VERIF_MATCHING_H
#include "common.h"
#include "env.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"

struct Injected : std::runtime_error { Injected() : std::runtime_error{"injected"} {} };

// The reciprocal of how many points of the scan lie on walls of the same direction (20 bins over half a turn, a point's
// wall leads from the point before it); of the scan's size for the first.  NaN: too close to the border of a bin.
inline std::vector<double> angle_histogram_weights(const LaserScan2D &scan) {
  const auto &p = scan.points(); const double step = M_PI / 20; std::vector<int> bin(p.size(), -1); std::vector<int> n(20, 0); std::vector<bool> vague(20, false);
  for (size_t i = 1; i < p.size(); ++i) {
    double dx = p[i].x() - p[i - 1].x(), dy = p[i].y() - p[i - 1].y();
    if (dy == 0) { bin[i] = 0; ++n[0]; continue; }
    double q = std::atan2(dy, dx) / step; if (q < 0) q += 20;
    int b = (int)std::floor(q); if (std::fabs(q - std::round(q)) < 1e-5) { int r = (int)std::round(q); vague[r % 20] = vague[(r + 19) % 20] = true; continue; }
    bin[i] = b; ++n[b];
  }
  std::vector<double> w(p.size(), std::nan(""));
  for (size_t i = 0; i < p.size(); ++i) if (i == 0) w[i] = 1.0 / p.size(); else if (bin[i] >= 0 && !vague[bin[i]]) w[i] = 1.0 / n[bin[i]];
  return w;
}

struct SpeCfg {
  int oope = 0, oie = 0, swp = 0; unsigned skip = 0; double max_range = -1;
  std::shared_ptr<ObservationImpactEstimator> make_impact() const { return make_oie(oie == 0); }
  std::shared_ptr<OccupancyObservationProbabilityEstimator> make_oope() const {
    switch (oope) {
    case 0: return std::make_shared<ObstacleBasedOccupancyObservationPE>(make_impact());
    case 1: return std::make_shared<MaxOccupancyObservationPE>(make_impact());
    case 2: return std::make_shared<MeanOccupancyObservationPE>(make_impact());
    case 3: return std::make_shared<OverlapWeightedOccupancyObservationPE>(make_impact());
    default: return std::make_shared<GmappingOccupancyObservationPE>(0.1, 1);
    }
  }
  std::shared_ptr<ScanPointWeighting> make_spw() const {
    switch (swp) {
    case 0: return std::make_shared<EvenSPW>();
    case 1: return std::make_shared<VinySlamSPW>();
    default: return std::make_shared<AngleHistogramReciprocalSPW>();
    }
  }
  std::string str() const {
    static const char *o[] = {"obstacle", "max", "mean", "overlap", "gmapping"}, *w[] = {"even", "viny", "ahr"};
    char b[120]; snprintf(b, sizeof b, "oope %s oie %s swp %s skip %u range %.2f", o[oope], oie ? "occupancy" : "discrepancy", w[swp], skip, max_range); return b;
  }
};
inline SpeCfg gen_spe(bool gmapping) {
  SpeCfg c; c.oope = gmapping ? 4 : (int)sim::draw(4); c.oie = (int)sim::draw(2); c.swp = (int)sim::draw(3);
  if (sim::chance(1, 5)) c.skip = 1 + sim::draw(4);
  if (sim::chance(1, 4)) c.max_range = sim::real(1, 6);
  return c;
}

// the estimator under test, with injectable failures
struct FaultySPE : WeightedMeanPointProbabilitySPE {
  using Base = WeightedMeanPointProbabilitySPE;
  mutable long calls = 0; long fail_at = 0;
  FaultySPE(const SpeCfg &c) : Base{c.make_oope(), c.make_spw(), c.skip, c.max_range} {}
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &prm) const override {
    ++calls;
    if (fail_at && calls == fail_at) { sim::fault("estimator_exception"); throw Injected{}; }
    return Base::estimate_scan_probability(s, p, m, prm);
  }
};

// Recomputes the score of a pose from its definition.
struct RefScore {
  SpeCfg cfg; const GridMap &map; LaserScan2D scan;   // filtered
  std::vector<double> w; double wsum = 0;
  RefScore(const SpeCfg &c, const LaserScan2D &raw, const RobotPose &init, const GridMap &m) : cfg(c), map(m) {
    for (size_t i = 0; i < raw.points().size(); ++i) {
      auto &sp = raw.points()[i];
      if (c.skip && i % c.skip) continue;
      if (!sp.is_occupied()) continue;
      if (0 < c.max_range && c.max_range < sp.range()) continue;
      Coord cell = m.world_to_cell(init.x + sp.range() * std::cos(init.theta + sp.angle()), init.y + sp.range() * std::sin(init.theta + sp.angle()));
      if (!m.has_cell(cell)) continue;
      scan.points().push_back(sp);
    }
    auto spw = c.make_spw(); spw->reset(scan); std::vector<double> ah; if (c.swp == 2) ah = angle_histogram_weights(scan);
    for (size_t i = 0; i < scan.points().size(); ++i) {
      auto &sp = scan.points()[i];
      double ac = std::fabs(std::cos(sp.angle())), as = std::fabs(std::sin(sp.angle()));
      if (c.swp == 0) w.push_back(1.0 / scan.points().size());
      else if (c.swp == 1) w.push_back((ac > 0.9 ? 3 : ac > 0.8 ? 2 : ac + as) * std::sqrt(sp.range()));
      else w.push_back(std::isnan(ah[i]) ? spw->weight(scan.points(), i) : ah[i]);
      wsum += w.back();
    }
  }
  bool usable() const { return wsum != 0; }
  double impact(const GridCell &c, const AreaOccupancyObservation &o) const { return cfg.oie == 0 ? 1.0 - c.discrepancy(o) : c.occupancy().prob_occ; }
  double point(const AreaOccupancyObservation &o) const {
    Coord c = map.world_to_cell(o.obstacle);
    if (cfg.oope != 4) return impact(map[c], o);
    double best = 0;
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) {
      const GridCell &n = map[Coord{c.x + dx, c.y + dy}];
      if (n.occupancy().prob_occ >= 0.1) best = std::max(best, 1.0 - n.discrepancy(o));
    }
    return best;
  }
  double at(double x, double y, double th) const {
    double t = 0;
    for (size_t i = 0; i < scan.points().size(); ++i) {
      auto &sp = scan.points()[i];
      AreaOccupancyObservation obs{true, {1.0, 1.0}, {x + sp.range() * std::cos(th + sp.angle()), y + sp.range() * std::sin(th + sp.angle())}, 1.0};
      t += point(obs) * w[i] * sp.factor();
    }
    return t / wsum;
  }
  // scores in the immediate neighbourhood: a reported score must lie between
  // them even if a point sits on a cell border
  std::pair<double, double> around(const RobotPose &p) const {
    static const double E = 1e-9;
    double lo = at(p.x, p.y, p.theta), hi = lo;
    for (int k = 0; k < 6; ++k) {
      double s = at(p.x + (k == 0 ? E : k == 1 ? -E : 0), p.y + (k == 2 ? E : k == 3 ? -E : 0), p.theta + (k == 4 ? E : k == 5 ? -E : 0));
      lo = std::min(lo, s); hi = std::max(hi, s);
    }
    for (int k = 0; k < 4; ++k) { double s = at(p.x + (k & 1 ? E : -E), p.y + (k & 2 ? E : -E), p.theta); lo = std::min(lo, s); hi = std::max(hi, s); }
    return {lo, hi};
  }
  // is v the score of p (up to borders and rounding)?
  bool is_score_of(double v, const RobotPose &p, double tol = 1e-9) const {
    if (!usable()) return std::isnan(v);
    if (std::fabs(v - at(p.x, p.y, p.theta)) <= tol) return true;
    auto r = around(p);
    return r.first - tol <= v && v <= r.second + tol;
  }
};

inline int gen_cell_kind(bool gmapping) {
  return gmapping ? CELL_GMAPPING : sim::pick(std::vector<int>{CELL_AFFINE, CELL_MEAN, CELL_TBM_CONS, CELL_TBM_EVEN, CELL_CREDIBILIST});
}

// what the robot has mapped so far: a few scans of a simulated room plus noise cells
struct World0 {
  Env env; Lidar lidar; double scale;
  std::shared_ptr<GridMapScanAdder> adder;
};
inline World0 gen_world() {
  World0 w; w.env = gen_env(2); w.env.hx *= 0.5; w.env.hy *= 0.5;
  for (auto &b : w.env.boxes) { b.x0 *= 0.5; b.x1 *= 0.5; b.y0 *= 0.5; b.y1 *= 0.5; }
  std::vector<Env::Box> keep; for (auto &b : w.env.boxes) { double dx = std::max({b.x0, 0.0, -b.x1}), dy = std::max({b.y0, 0.0, -b.y1}); if (std::hypot(dx, dy) > 0.8) keep.push_back(b); }
  w.env.boxes = keep;
  w.lidar.beams = 6 + (int)sim::draw(30); w.lidar.max_range = sim::real(3, 8);
  w.scale = sim::pick(std::vector<double>{0.1, 0.13, 0.25, 0.5, 0.07});
  w.adder = WallDistanceBlurringScanAdder::builder()
      .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1.0}, Occupancy{0.01, 1.0}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
  return w;
}
inline RobotPose near_pose(double r, double th) { return RobotPose{sim::sreal(r), sim::sreal(r), sim::sreal(th)}; }
inline void fill_map(GridMap &m, const World0 &w, int scans) {
  for (int i = 0; i < scans; ++i) {
    RobotPose p = i == 0 ? RobotPose{0, 0, 0} : near_pose(0.4, 0.5);
    auto s = make_scan(w.env, w.lidar, p);
    w.adder->append_scan(m, p, s, sim::chance(1, 2) ? 1.0 : 0.7, 0);
  }
  int noise = (int)sim::draw(12);
  for (int i = 0; i < noise; ++i) {
    sim::Span sp; auto a = gen_aoo();
    Coord c{sim::around((int)(w.env.hx / w.scale)), sim::around((int)(w.env.hy / w.scale))};
    m.update(c, a);
  }
}
// a scan as a faulty sensor delivers it
inline LaserScan2D gen_scan(const World0 &w, const RobotPose &truth, bool allow_faults = true) {
  auto s = make_scan(w.env, w.lidar, truth);
  if (!allow_faults) return s;
  switch (sim::weighted({6, 1, 1, 1, 1, 1})) {
  case 1: s.points().clear(); sim::fault("empty_scan"); break;
  case 2: for (auto &p : s.points()) if (sim::chance(1, 3)) p = ScanPoint2D::make_polar(sim::real(0.2, 7), p.angle(), true); sim::fault("outliers"); break;
  case 3: { LaserScan2D d; for (auto &p : s.points()) if (sim::chance(1, 2)) d.points().push_back(p); s.points() = d.points(); sim::fault("dropped_beams"); break; }
  case 4: for (auto &p : s.points()) p = ScanPoint2D::make_polar(p.range(), p.angle(), false); sim::fault("no_returns"); break;
  case 5: if (!s.points().empty()) s.points().push_back(s.points().back()); sim::fault("duplicated_point"); break;
  }
  return s;
}

// digest of a map's extent and content at its active scale
inline uint64_t map_digest(const GridMap &m) {
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; };
  auto o = m.origin(); mix(m.width()); mix(m.height()); mix(o.x); mix(o.y);
  double sc = m.scale(); uint64_t u; std::memcpy(&u, &sc, 8); mix(u);
  for (int y = 0; y < m.height(); ++y) for (int x = 0; x < m.width(); ++x) {
    const GridCell &c = m[Coord{x - o.x, y - o.y}];
    double p = c.occupancy().prob_occ, q = c.occupancy().estimation_quality;
    std::memcpy(&u, &p, 8); mix(u); std::memcpy(&u, &q, 8); mix(u); mix(c.is_unknown());
  }
  return h;
}
inline uint64_t scan_digest(const LaserScan2D &s) {
  uint64_t h = 7; for (auto &p : s.points()) { double r = p.range(), a = p.angle(); uint64_t u; std::memcpy(&u, &r, 8); h = h * 31 + u; std::memcpy(&u, &a, 8); h = h * 31 + u; h = h * 31 + p.is_occupied(); }
  return h;
}
#endif
