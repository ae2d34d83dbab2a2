// C09: scan integration marks exactly the observed space.
#include <array>
#include "matching.h"
#include "core/maps/area_occupancy_estimator.h"
#include <algorithm>

namespace {

// a cell that remembers the (valid) observations it was given
struct RecCell : GridCell {
  std::vector<AreaOccupancyObservation> log; int nans = 0;
  RecCell() : GridCell{Occupancy{0.5, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<RecCell>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override {
    if (!a.occupancy.is_valid()) return;
    log.push_back(a); _occupancy = a.occupancy; on_update();
  }
  double discrepancy(const AreaOccupancyObservation &) const override { return 0; }
};

struct AdderCfg {
  bool area; double po, qo, pe, qe, blur, range; bool ahr; double low_qual, unk_qual;
  std::shared_ptr<CellOccupancyEstimator> est() const {
    Occupancy o{po, qo}, e{pe, qe};
    if (area) return std::make_shared<AreaOccupancyEstimator>(o, e, low_qual, unk_qual);
    return std::make_shared<ConstOccupancyEstimator>(o, e);
  }
  std::shared_ptr<ObservationMappingQualityEstimator> omqe() const {
    if (ahr) return std::make_shared<AngleHistogramResiprocalOMQE>();
    return std::make_shared<IdleOMQE>();
  }
  std::shared_ptr<GridMapScanAdder> build() const {
    return WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(est()).set_observation_quality_estimator(omqe()).set_blur_distance(blur).set_max_usable_range(range).build();
  }
};

struct Model {
  double scale; AdderCfg cfg;
  std::map<Coord, std::vector<AreaOccupancyObservation>, CoordLess> cells; std::set<Coord, CoordLess> fuzzy;
  mutable long judged = 0; long weighed = 0; long must = 0, doubtful = 0; int xmax = 0, ymax = 0;

  // does segment a-b meet the square of the cell grown by g on each side?
  bool meets(const Point2D &a, const Point2D &b, const Coord &c, double g) const {
    long double lo[2] = {(long double)scale * c.x - g, (long double)scale * c.y - g}, hi[2] = {(long double)scale * (c.x + 1) + g, (long double)scale * (c.y + 1) + g};
    long double p[2] = {a.x, a.y}, d[2] = {(long double)b.x - a.x, (long double)b.y - a.y}, t0 = 0, t1 = 1;
    for (int k = 0; k < 2; ++k) {
      if (std::fabs((double)d[k]) < 1e-15) { if (p[k] < lo[k] || hi[k] < p[k]) return false; continue; }
      long double u = (lo[k] - p[k]) / d[k], v = (hi[k] - p[k]) / d[k]; if (u > v) std::swap(u, v);
      t0 = std::max(t0, u); t1 = std::min(t1, v); if (t0 > t1) return false;
    }
    return true;
  }
  double edge_dist(double v) const { double r = v / scale; return std::fabs(r - std::round(r)) * scale; }

  // What the area estimator has to say about a beam and a cell, by polygon clipping: an end is the wall, across the beam,
  // and the share of the cell behind it is occupied; a beam that passes tells the more about the cell the more evenly it
  // splits it; a beam that starts or ends within says little.  False: too close to a corner or border to be judged.
  bool area_estimate(const Point2D &a, const Point2D &b, const Coord &c, bool occ, Occupancy &out) const {
    double e = 1e-5 * scale, lo[2] = {scale * c.x, scale * c.y}, hi[2] = {scale * (c.x + 1), scale * (c.y + 1)};
    for (auto &p : {a, b}) for (double v : {p.x - lo[0], p.x - hi[0], p.y - lo[1], p.y - hi[1]}) if (std::fabs(v) < e) return false;
    double dx = b.x - a.x, dy = b.y - a.y, len = std::sqrt(dx * dx + dy * dy); if (len < 1e-3 * scale) return false;
    dx /= len; dy /= len;
    auto inside = [&](const Point2D &p) { return lo[0] < p.x && p.x < hi[0] && lo[1] < p.y && p.y < hi[1]; };
    bool ai = inside(a), bi = inside(b);
    // share of the cell on the positive side of the line through p with normal (nx, ny)
    auto share = [&](const Point2D &p, double nx, double ny, bool &near) {
      std::vector<std::array<double, 2>> v{{lo[0], lo[1]}, {hi[0], lo[1]}, {hi[0], hi[1]}, {lo[0], hi[1]}}, k;
      auto d = [&](const std::array<double, 2> &q) { return (q[0] - p.x) * nx + (q[1] - p.y) * ny; };
      for (auto &q : v) if (std::fabs(d(q)) < e) near = true;
      for (size_t i = 0; i < 4; ++i) {
        auto &q = v[i], &r = v[(i + 1) % 4]; double s = d(q), t = d(r);
        if (0 <= s) k.push_back(q);
        if ((0 <= s) != (0 <= t)) k.push_back({q[0] + (r[0] - q[0]) * s / (s - t), q[1] + (r[1] - q[1]) * s / (s - t)});
      }
      double ar = 0; for (size_t i = 0; i < k.size(); ++i) { auto &q = k[i], &r = k[(i + 1) % k.size()]; ar += (q[0] - p.x) * (r[1] - p.y) - (r[0] - p.x) * (q[1] - p.y); }
      return std::fabs(ar) / 2 / (scale * scale); };
    bool near = false; double side = share(a, -dy, dx, near); if (near) return false;
    if (occ) { if (ai || !bi) { out = Occupancy::invalid(); return true; } double r = share(b, dx, dy, near); if (near) return false; out = Occupancy{std::max(r, cfg.pe), cfg.qo}; return true; }
    if (ai || bi) { out = Occupancy{cfg.pe, cfg.unk_qual}; return true; }
    if (!meets(a, b, c, 0)) { out = Occupancy::invalid(); return true; }
    out = Occupancy{cfg.pe, cfg.qe * std::min(side, 1 - side)}; return true;
  }

  void beam(const Point2D &a, const Point2D &b, bool occ, double q) {
    double dx = b.x - a.x, dy = b.y - a.y, len = std::sqrt(dx * dx + dy * dy);
    if (std::isfinite(cfg.range)) { if (std::fabs(len - cfg.range) < 1e-9) sim::finish_ok(); if (cfg.range < len) return; }
    double tau = 1e-9 * (1 + len) + 1e-7 / std::max(len, 1e-3);
    auto fl = [&](double v) { return (int)std::floor(v / scale); };
    Coord ca{fl(a.x), fl(a.y)}, cb{fl(b.x), fl(b.y)};
    // the end is too close to a cell border: nothing can be said about which cell it is in
    bool vague = edge_dist(b.x) < 1e-9 * (1 + std::fabs(b.x)) || edge_dist(b.y) < 1e-9 * (1 + std::fabs(b.y));
    int x0 = std::min(ca.x, cb.x) - 1, x1 = std::max(ca.x, cb.x) + 1, y0 = std::min(ca.y, cb.y) - 1, y1 = std::max(ca.y, cb.y) + 1;
    xmax = std::max({xmax, std::abs(x0), std::abs(x1)}); ymax = std::max({ymax, std::abs(y0), std::abs(y1)});
    double blur = occ ? cfg.blur / scale : 0; if (blur < 0) blur *= -(len * len);
    double hole = blur * blur, full = std::pow((double)ca.x - cb.x, 2) + std::pow((double)ca.y - cb.y, 2);
    if (blur && std::fabs(hole - full) < 1e-9 * (1 + full)) vague = true;
    Segment2D seg{a, b};
    auto estimate = [&](const Coord &c, bool o) {
      if (!cfg.area) return o ? Occupancy{cfg.po, cfg.qo} : Occupancy{cfg.pe, cfg.qe};
      Occupancy r = Occupancy::invalid(); if (area_estimate(a, b, c, o, r)) { ++judged; return r; }
      return cfg.est()->estimate_occupancy(seg, Rectangle{scale * c.y, scale * (c.y + 1), scale * c.x, scale * (c.x + 1)}, o);
    };
    // columns of the band around the beam only
    for (int x = x0; x <= x1; ++x) for (int y = y0; y <= y1; ++y) {
      Coord c{x, y};
      if (!meets(a, b, c, 2 * tau)) continue;
      if (vague) { fuzzy.insert(c); ++doubtful; continue; }
      bool end = x == cb.x && y == cb.y;
      if (!end && !meets(a, b, c, -2 * tau)) { fuzzy.insert(c); ++doubtful; continue; }
      ++must;
      AreaOccupancyObservation o{false, {0, 0}, b, q};
      if (end) { o.is_occupied = occ; o.occupancy = estimate(c, occ); }
      else {
        o.occupancy = estimate(c, false);
        double d2 = std::pow((double)x - cb.x, 2) + std::pow((double)y - cb.y, 2);
        if (blur && std::fabs(d2 - hole) < 1e-9 * (1 + hole)) { fuzzy.insert(c); continue; }
        if (d2 < hole && hole < full) { o.is_occupied = true; o.occupancy.prob_occ = estimate(cb, occ).prob_occ * (1 - d2 / hole); }
      }
      if (o.occupancy.is_valid()) cells[c].push_back(o);
    }
  }
};

double pi() { return std::acos(-1.0); }
// integration that runs out of memory half-way, into a map nobody looks at
void crashed_integration(GridMapScanAdder &adder, const LaserScan2D &scan, double scale) {
  UnboundedPlainGridMap victim{make_cell(CELL_AFFINE), GridMapParams{1, 1, scale * 1.7}};
  try { sim::AllocFault af(1 + sim::draw(60)); adder.append_scan(victim, near_pose(1, 2), scan, 0.5, 0); if (af.fired()) sim::fault("integration_aborted"); }
  catch (std::bad_alloc &) { sim::fault("integration_aborted"); }
}

void run(bool area) {
  AdderCfg cfg; cfg.area = area;
  cfg.po = sim::real(0.55, 0.99); cfg.qo = sim::real(0.2, 1); cfg.pe = sim::real(0.005, 0.4); cfg.qe = sim::real(0.2, 1);
  cfg.low_qual = sim::real(0.005, 0.05); cfg.unk_qual = sim::real(0.1, 0.9);
  cfg.blur = sim::chance(1, 2) ? 0 : sim::chance(1, 3) ? -sim::real(0.002, 0.1) : sim::real(0.05, 0.9);
  cfg.range = sim::chance(1, 3) ? sim::real(0.6, 6) : std::numeric_limits<double>::infinity();
  cfg.ahr = sim::chance(1, 3);
  World0 w = gen_world(); w.scale = sim::pick(std::vector<double>{0.25, 0.5, 0.1, 0.13, 1.0, 0.07});
  w.lidar.beams = 2 + (int)sim::draw(w.scale < 0.2 ? 14 : 30);
  Model ref; ref.scale = w.scale; ref.cfg = cfg;
  auto adder = cfg.build();
  struct Target { int kind; std::unique_ptr<GridMap> m; int w0; };
  std::vector<Target> maps;
  for (int k : {MAP_UPLAIN, MAP_ULAZY, MAP_PLAIN, MAP_LAZY}) {
    if (k != MAP_UPLAIN && !sim::chance(1, 2)) continue;
    int side = map_unbounded(k) ? 1 + (int)sim::draw(30) : (int)(24 / w.scale) + 40;
    if (!map_unbounded(k) && side > 140) continue;
    maps.push_back({k, make_map(k, std::make_shared<RecCell>(), GridMapParams{side, map_unbounded(k) ? 1 + (int)sim::draw(30) : side, w.scale}), side});
  }
  if (!area && sim::chance(1, 3)) {
    int k = sim::chance(1, 2) ? MAP_M3_PLAIN : MAP_M3_LAZY;
    maps.push_back({k, make_map(k, std::make_shared<RecCell>(), GridMapParams{1 + (int)sim::draw(30), 1 + (int)sim::draw(30), w.scale}), 0});
  }
  bool bounded = false; for (auto &m : maps) bounded |= !map_unbounded(m.kind);
  sim::log("%s estimator, scale %.2f blur %.3f range %.2f %s, %zu maps", area ? "area" : "const", w.scale, cfg.blur, cfg.range, cfg.ahr ? "ahr" : "idle", maps.size());
  int scans = 1 + (int)sim::draw(6), growth = 0, odd = 0;
  RobotPose truth{0, 0, 0};
  LaserScan2D last; bool have_last = false;
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    if (s) truth = near_pose(0.8, 3);
    RobotPose pose = truth;
    bool special = false;
    if (!area || s == 0) switch (sim::draw(6)) {   // poses on grid lines, corners and cell centres; square headings
      case 1: pose.x = w.scale * sim::around(3); special = true; break;
      case 2: pose.x = w.scale * sim::around(3); pose.y = w.scale * sim::around(3); special = true; break;
      case 3: pose.x = w.scale * (sim::around(3) + 0.5); pose.y = w.scale * (sim::around(3) + 0.5); special = true; break;
      case 4: pose.theta = pi() / 4 * sim::around(4); special = true; break;
      case 5: pose = RobotPose{0, 0, 0}; special = true; break;
    }
    if (area && special) { pose = RobotPose{0.013 * w.scale, 0.017 * w.scale, pose.theta + 0.01}; }   // borders are the estimator's own business (C90)
    LaserScan2D scan = gen_scan(w, pose);
    if (have_last && sim::chance(1, 6)) { scan.points() = last.points(); sim::fault("scan_replayed"); ++odd; }
    if (sim::chance(1, 6)) {   // round bearings and ranges: beams along grid lines and through corners
      for (auto &p : scan.points()) p = ScanPoint2D::make_polar(w.scale * (1 + sim::draw(12)), (area ? 0.011 : 0) + pi() / 4 * sim::around(4), p.is_occupied()); ++odd;
    }
    if (sim::chance(1, 10)) for (auto &p : scan.points()) if (sim::chance(1, 6)) { p = ScanPoint2D::make_polar(sim::chance(1, 2) ? sim::real(0.0001, 0.02) : 0, p.angle(), sim::chance(1, 2)); sim::fault("degenerate_beam"); ++odd; }
    if (sim::chance(1, 6)) { LaserScan2D c; for (auto &p : scan.points()) c.points().push_back(ScanPoint2D::make_cartesian(Point2D{p.range() * std::cos(p.angle()), p.range() * std::sin(p.angle())}, p.is_occupied())); scan.points() = c.points(); }
    if (!bounded && sim::chance(1, 8) && !scan.points().empty()) {   // a far outlier: the map must grow mid-scan
      size_t i = sim::draw((uint32_t)scan.points().size()); scan.points()[i] = ScanPoint2D::make_polar(sim::real(8, w.scale < 0.2 ? 15 : 30), scan.points()[i].angle(), sim::chance(2, 3)); sim::fault("far_outlier"); ++odd;
    }
    last.points() = scan.points(); have_last = true;
    double q = sim::chance(1, 4) ? 1.0 : sim::real(0.05, 0.99);
    size_t n = scan.points().size(), mg = sim::chance(1, 2) ? 0 : sim::draw(sim::chance(1, 4) ? 30 : 4);
    if (sim::chance(1, 5)) { crashed_integration(*adder, scan, w.scale); ++odd; }
    uint64_t sd = scan_digest(scan);
    // reference
    if (n > 2 * mg) {
      auto om = cfg.omqe(); om->reset(scan); auto ah = angle_histogram_weights(scan); auto quality = [&](size_t i) { if (!cfg.ahr || std::isnan(ah[i])) return om->quality(scan.points(), i); ++ref.weighed; return ah[i]; };
      for (size_t i = mg; i < n - mg; ++i) {
        auto &p = scan.points()[i];
        Point2D a{pose.x, pose.y}, b{pose.x + p.range() * std::cos(pose.theta + p.angle()), pose.y + p.range() * std::sin(pose.theta + p.angle())};
        ref.beam(a, b, p.is_occupied(), q * quality(i));
      }
    }
    for (auto &t : maps) {
      int gw = t.m->width(), gh = t.m->height();
      if (sim::chance(1, 8)) { auto other = cfg.build(); other->append_scan(*t.m, pose, scan, q, mg); } else adder->append_scan(*t.m, pose, scan, q, mg);
      if (t.m->width() != gw || t.m->height() != gh) ++growth;
    }
    EXPECT(scan_digest(scan) == sd, "scan-changed", "integration altered the scan");
    sim::log("scan %d: %zu points margin %zu quality %.3f at (%.4f,%.4f,%.4f)%s", s, n, mg, q, pose.x, pose.y, pose.theta, special ? " special" : "");
    sim::state(ref.cells.size() * 8 + maps.size());
  }
  for (auto &t : maps) {
    auto o = t.m->origin(); int seen = 0;
    // everything the reference marked lies in the map
    for (auto &kv : ref.cells) if (!kv.second.empty() && !ref.fuzzy.count(kv.first)) EXPECT(in_extent(*t.m, kv.first) || !map_unbounded(t.kind), "not-marked", "%s: cell (%d,%d) is outside of the map", map_name(t.kind), kv.first.x, kv.first.y);
    for (int y = 0; y < t.m->height(); ++y) for (int x = 0; x < t.m->width(); ++x) {
      Coord c{x - o.x, y - o.y};
      auto *rc = dynamic_cast<const RecCell *>(&(*t.m)[c]);
      if (!rc) sim::fail("harness", "cell of another type");
      if (ref.fuzzy.count(c)) continue;
      auto it = ref.cells.find(c);
      static const std::vector<AreaOccupancyObservation> none;
      auto &want = it == ref.cells.end() ? none : it->second;
      sim::checked();
      if (want.empty() && rc->log.empty()) continue;
      ++seen;
      EXPECT(!(want.empty()), "invented", "%s: cell (%d,%d) got %zu observations, but no beam crosses it", map_name(t.kind), c.x, c.y, rc->log.size());
      EXPECT(rc->log.size() == want.size(), rc->log.size() < want.size() ? "not-marked" : "invented", "%s: cell (%d,%d) got %zu observations, %zu beams cross it", map_name(t.kind), c.x, c.y, rc->log.size(), want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        auto &g = rc->log[i]; auto &e = want[i];
        EXPECT(g.is_occupied == e.is_occupied && std::fabs(g.occupancy.prob_occ - e.occupancy.prob_occ) < 1e-6 && std::fabs(g.occupancy.estimation_quality - e.occupancy.estimation_quality) < 1e-6, "wrong-estimate",
               "%s: cell (%d,%d) observation %zu is {%d %.9g q %.9g}, expected {%d %.9g q %.9g}", map_name(t.kind), c.x, c.y, i, g.is_occupied, g.occupancy.prob_occ, g.occupancy.estimation_quality, e.is_occupied, e.occupancy.prob_occ, e.occupancy.estimation_quality);
        EXPECT(std::fabs(g.quality - e.quality) < 1e-9, "wrong-quality", "%s: cell (%d,%d) observation %zu has quality %.9g, expected %.9g", map_name(t.kind), c.x, c.y, i, g.quality, e.quality);
        EXPECT(std::hypot(g.obstacle.x - e.obstacle.x, g.obstacle.y - e.obstacle.y) < 1e-9, "wrong-obstacle", "%s: cell (%d,%d) observation %zu names obstacle (%g,%g), expected (%g,%g)", map_name(t.kind), c.x, c.y, i, g.obstacle.x, g.obstacle.y, e.obstacle.x, e.obstacle.y);
      }
      sim::hash(want.size() * 1000003 + (uint64_t)(c.x * 1009 + c.y));
    }
  }
  sim::probe("cells_certain", (uint64_t)ref.must); sim::probe("cells_doubtful", (uint64_t)ref.doubtful); sim::probe("area_estimates", (uint64_t)ref.judged); sim::probe("points_weighed", (uint64_t)ref.weighed);
  if (ref.must > 3 && (growth || odd || maps.size() > 1)) sim::nontrivial();
}

}  // namespace

SCENARIO(cst, "c09.const") { run(false); }
SCENARIO(ar, "c09.area") { run(true); }
