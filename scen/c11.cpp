// C11: the particle filter stays healthy under any sensor stream.
#include "common.h"
#include "env.h"
#include "core/scan_matchers/grid_scan_matcher.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_map_scan_adders.h"
#include "slams/gmapping/init_gmapping.h"

namespace {

// ---- the filter itself, with particles that carry a payload -----------------
struct P : Particle {
  uint64_t payload = 0; int samplings = 0;
  void sample() override { ++samplings; }
};
struct PFactory : ParticleFactory<P> {
  int made = 0;
  std::shared_ptr<P> create_particle() override { ++made; return std::make_shared<P>(); }
};

double neff(const std::vector<double> &w) { double s = 0; for (double x : w) s += x * x; return 1 / s; }

std::vector<double> gen_weights(unsigned n, int pattern) {
  std::vector<double> w(n);
  size_t hero = sim::draw(n);
  for (unsigned i = 0; i < n; ++i)
    switch (pattern) {
    case 0: w[i] = sim::real(0.2, 0.9); break;                        // similar
    case 1: w[i] = i == hero ? 1.0 : 0.0; break;                      // one hot
    case 2: w[i] = sim::chance(1, 2) || i == hero ? sim::real(0.01, 1) : 0.0; break;
    case 3: w[i] = 0; break;                                          // everything rejected
    case 4: w[i] = std::pow(10.0, -sim::real(0, 12)); break;          // widely spread
    case 5: w[i] = 1e-300 * sim::real(0.1, 1); break;                 // tiny
    default: w[i] = i == hero ? 0.9 : 0.9 * sim::real(0.2, 0.5); break;
    }
  return w;
}

template <typename F> void check_weights(F &pf, unsigned n, const char *when) {
  EXPECT(pf.particles().size() == n, "particle-count", "%s: %zu particles, %u configured", when, pf.particles().size(), n);
  double sum = 0;
  for (auto &p : pf.particles()) {
    EXPECT(std::isfinite(p->weight()) && 0 <= p->weight(), "weight-domain", "%s: weight %g", when, p->weight());
    sum += p->weight();
  }
  EXPECT(std::fabs(sum - 1) < 1e-9, "weight-sum", "%s: weights sum to %.17g", when, sum);
}

}  // namespace

SCENARIO(filter, "c11.filter") {
  unsigned n = 1 + sim::draw(40);
  auto ftry = std::make_shared<PFactory>();
  ParticleFilter<P> pf{ftry, n};
  for (unsigned i = 0; i < n; ++i) pf.particles()[i]->payload = 1000 + i;
  sim::set_entropy(sim::draw(1 << 24));
  check_weights(pf, n, "at start");
  int rounds = 1 + (int)sim::draw(12), resampled = 0;
  sim::log("filter of %u", n);
  for (int r = 0; r < rounds; ++r) {
    sim::Span sp; sim::step();
    int pattern = (int)sim::draw(7);
    auto f = gen_weights(n, pattern);
    std::vector<double> raw(n); double tot = 0;
    for (unsigned i = 0; i < n; ++i) { raw[i] = pf.particles()[i]->weight() * f[i]; pf.particles()[i]->set_weight(raw[i]); tot += raw[i]; }
    pf.normalize_weights();
    if (pattern == 3) sim::fault("all_hypotheses_rejected");
    check_weights(pf, n, "after normalization");
    std::vector<double> w(n);
    for (unsigned i = 0; i < n; ++i) w[i] = pf.particles()[i]->weight();
    if (tot > 1e-290)
      for (unsigned i = 0; i < n; ++i) EXPECT(std::fabs(w[i] * tot - raw[i]) <= 1e-9 * tot, "weight-ratio", "weight %u: %g of total %g became %g", i, raw[i], tot, w[i]);
    else for (unsigned i = 0; i + 1 < n && tot == 0; ++i) EXPECT(std::isfinite(w[i]), "weight-domain", "weight %g", w[i]);
    double mx = *std::max_element(w.begin(), w.end());
    EXPECT(pf.heaviest_particle().weight() == mx, "heaviest", "heaviest_particle has weight %g, maximum is %g", pf.heaviest_particle().weight(), mx);
    // resampling
    std::vector<uint64_t> before(n); std::vector<P *> objs(n);
    std::map<uint64_t, double> wt;
    for (unsigned i = 0; i < n; ++i) { before[i] = pf.particles()[i]->payload; objs[i] = pf.particles()[i].get(); wt[before[i]] = std::max(wt[before[i]], w[i]); }
    double ne = neff(w);
    bool did = pf.try_resample();
    sim::log("round %d pattern %d Neff %.4f resampled %d", r, pattern, ne, did);
    if (std::fabs(2 * ne - n) > 1e-6 * n) EXPECT(did == (2 * ne < n), "resampling-decision", "Neff %.9g of %u particles, resampled: %d", ne, n, did);
    check_weights(pf, n, "after resampling");
    std::set<P *> distinct;
    for (auto &p : pf.particles()) {
      distinct.insert(p.get());
      auto i = wt.find(p->payload);
      EXPECT(i != wt.end(), "resampled-invention", "particle with payload %llu was never there", (unsigned long long)p->payload);
      EXPECT(!did || i->second > 0, "zero-weight-drawn", "a particle of weight zero was drawn");
    }
    EXPECT(distinct.size() == n, "shared-particle", "%zu distinct particles of %u", distinct.size(), n);
    if (!did) for (unsigned i = 0; i < n; ++i) EXPECT(pf.particles()[i].get() == objs[i] && pf.particles()[i]->weight() == w[i], "changed-without-resampling", "particle %u", i);
    if (did) {
      ++resampled; sim::probe("resampled");
      // duplicates must be independent objects from now on
      for (unsigned i = 0; i < n; ++i) pf.particles()[i]->payload = 1000 * (r + 2) + i;
      std::set<uint64_t> ids; for (auto &p : pf.particles()) ids.insert(p->payload);
      EXPECT(ids.size() == n, "shared-particle", "writing to a particle changed another one");
    }
    uint64_t h = n; for (auto x : w) h = h * 31 + (uint64_t)(x * 64); sim::state(h);
  }
  if (n > 2 && resampled) sim::nontrivial();
}

// Draw frequencies: every source's expected count is n*w; the bound is beyond
// seven standard deviations, so a correct sampler practically never misses it.
SCENARIO(freq, "c11.frequencies") {
  unsigned n = 6 + sim::draw(30);
  auto w = gen_weights(n, sim::pick(std::vector<int>{2, 4, 1, 2}));
  // make Neff small enough that resampling is due
  size_t hero = sim::draw(n); double t = 0; for (double x : w) t += x; w[hero] += 2 * t; t *= 3;
  for (auto &x : w) x /= t;
  sim::set_entropy(sim::draw(1u << 30));
  int rounds = 150 + (int)sim::draw(150);
  std::vector<double> got(n, 0); double total = 0;
  if (neff(w) * 2 >= n * 0.99) return;
  std::vector<int> first_slot(n, 0);
  for (int r = 0; r < rounds; ++r) {
    sim::step();
    auto ftry = std::make_shared<PFactory>();
    ParticleFilter<P> pf{ftry, n};
    for (unsigned i = 0; i < n; ++i) { pf.particles()[i]->payload = i; pf.particles()[i]->set_weight(w[i]); }
    EXPECT(pf.try_resample(), "resampling-decision", "Neff %.3f of %u did not resample", neff(w), n);
    EXPECT(pf.particles().size() == n, "particle-count", "%zu of %u", pf.particles().size(), n);
    for (auto &p : pf.particles()) { ++got[p->payload]; ++total; }
  }
  for (unsigned i = 0; i < n; ++i) {
    double mean = total * w[i], bound = 7 * std::sqrt(mean * (1 - w[i])) + 8;
    if (w[i] == 0) EXPECT(got[i] == 0, "zero-weight-drawn", "source %u of weight 0 drawn %g times", i, got[i]);
    EXPECT(std::fabs(got[i] - mean) <= bound, "draw-frequency", "source %u of weight %.6f drawn %.0f times of %.0f, expected %.1f +- %.1f", i, w[i], got[i], total, mean, bound);
    sim::hash((uint64_t)got[i]);
  }
  sim::log("n %u rounds %d draws %.0f", n, rounds, total);
  sim::nontrivial();
}

// ---- gmapping with scripted matching results ------------------------------
namespace {
struct ScriptedMatcher : GridScanMatcher {
  size_t calls = 0;
  std::function<double(size_t, const RobotPose &, const GridMap &, RobotPoseDelta &)> script;
  ScriptedMatcher() : GridScanMatcher{nullptr} {}
  double process_scan(const TransformedLaserScan &, const RobotPose &pose, const GridMap &map, RobotPoseDelta &d) override {
    return script(calls++, pose, map, d);
  }
};
struct Model { std::vector<double> w; };   // normalized weights, one candidate semantics
void normalize(std::vector<double> &w) { double t = 0; for (double x : w) t += x; for (double &x : w) x /= t; }
}  // namespace

SCENARIO(gmapping, "c11.gmapping") {
  unsigned n = 2 + sim::draw(14);
  auto map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{20, 20, 0.2});
  auto sm = std::make_shared<ScriptedMatcher>();
  auto adder = WallDistanceBlurringScanAdder::builder()
      .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1.0}, Occupancy{0.01, 1.0}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
  SingleStateHypothesisLSGWProperties props{1.0, 1.0, 0, map, sm, adder};
  GMappingParams gprms{0, 0, 0, 0, 0, 0, 0, 0};
  sim::set_entropy(sim::draw(1 << 20));
  GmappingParticleFilter pf{props, gprms, n};
  sim::log("particles %u", n);
  std::vector<RobotPose> poses(n, RobotPose{0, 0, 0});
  std::vector<Model> models{Model{std::vector<double>(n, 1.0 / n)}};
  double must_travel = 0, all_x = 0, all_y = 0; bool back_and_forth = sim::chance(1, 2), turning = sim::chance(1, 2), standing = turning && sim::chance(1, 2);
  double all_th = 0, must_turn = 0, th = 0, last_th = 0;   // the heading is the odometry's: the corrections do not turn
  bool must_resample = false, got_known = false;
  // the obstacle the last good scan put into every surviving particle's map
  bool have_obst = false; double obst_r = 0;
  int scans = 2 + (int)sim::draw(14), resamplings = 0, bad = 0;
  static const char *mode_name[] = {"good", "one-hot", "some-zero", "all-zero", "unknown", "empty", "tiny"};
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    int mode = standing ? (int)sim::weighted({3, 8, 3, 1, 1, 1, 1}) : (int)sim::weighted({6, 3, 3, 2, 2, 2, 1});
    TransformedLaserScan scan;
    double r = sim::real(0.5, 1.4);
    if (mode != 5) { scan.scan.points().push_back(ScanPoint2D::make_polar(r, 0, true)); if (sim::chance(1, 2)) scan.scan.points().push_back(ScanPoint2D::make_polar(r, 1, true)); }
    scan.pose_delta = RobotPoseDelta{sim::chance(2, 3) ? sim::real(0.8, 2.0) : sim::real(0.0, 0.1), sim::sreal(0.3), 0};
    if (standing && sim::chance(3, 4)) scan.pose_delta = RobotPoseDelta{sim::sreal(0.02), sim::sreal(0.02), 0};
    if (turning && sim::chance(1, 3)) scan.pose_delta.theta = sim::sreal(0.7);
    if (back_and_forth && s % 2) scan.pose_delta.x = -scan.pose_delta.x;
    last_th = th; th += scan.pose_delta.theta;
    scan.quality = 1.0;
    std::vector<double> score(n); std::vector<RobotPoseDelta> delta(n);
    size_t hero = sim::draw(n); double common = sim::real(0.3, 0.9);
    bool first_known = !got_known && mode != 4 && mode != 5;
    for (unsigned i = 0; i < n; ++i) {
      switch (mode) {
      case 0: score[i] = sim::real(0.4, 0.6); break;
      case 1: score[i] = i == hero ? 0.9 : 1e-7; break;
      case 2: score[i] = i == hero || sim::chance(1, 2) ? sim::real(0.3, 0.9) : 0; break;
      case 3: score[i] = 0; break;
      case 6: score[i] = 1e-200 * sim::real(0.5, 1); break;
      default: score[i] = ScanProbabilityEstimator::unknown_probability(); break;
      }
      if (first_known) score[i] = mode == 3 ? 0.0 : common;   // the first map is empty for everybody
      delta[i] = RobotPoseDelta{sim::sreal(0.02), s == 0 ? (int(i) - int(n) / 2) * 6.0 + sim::real(0, 1) : sim::sreal(0.02), 0};
    }
    if (mode >= 3 && mode <= 5) { ++bad; sim::fault(mode == 3 ? "contradicting_scan" : mode == 4 ? "unknown_scan" : "empty_scan"); }
    std::vector<int> src(n, -1); std::vector<RobotPose> cur(n);
    bool dup = false; std::vector<bool> used(n, false);
    sm->calls = 0;
    sm->script = [&](size_t i, const RobotPose &pose, const GridMap &m, RobotPoseDelta &d) {
      if (i >= n) sim::fail("particle-count", "more than %u particles matched a scan", n);
      RobotPose before{pose.x - scan.pose_delta.x, pose.y - scan.pose_delta.y, 0};
      if (s == 0) src[i] = (int)i;
      else {
        double bd = 1e18;
        for (unsigned k = 0; k < n; ++k) { double dd = std::hypot(poses[k].x - before.x, poses[k].y - before.y); if (dd < bd) { bd = dd; src[i] = (int)k; } }
        EXPECT(bd < 1e-6, "resampled-invention", "scan %d: particle %zu comes from no previous particle", s, i);
        if (used[src[i]]) dup = true; used[src[i]] = true;
      }
      if (have_obst) {
        Coord c = m.world_to_cell(before.x + obst_r * std::cos(last_th), before.y + obst_r * std::sin(last_th));
        EXPECT(!m[c].is_unknown() && m[c].occupancy().prob_occ > 0.05, "good-scan-not-mapped", "scan %d: particle at (%.3f,%.3f) lacks the obstacle of the previous good scan: %s", s, before.x, before.y, str(m[c]).c_str());
      }
      d = delta[i];
      cur[i] = RobotPose{pose.x + d.x, pose.y + d.y, 0};
      return score[i];
    };
    sim::log("scan %d %s dx %.3f", s, mode_name[mode], scan.pose_delta.x);
    pf.handle_sensor_data(scan);
    EXPECT(sm->calls == n, "particle-count", "scan %d: %zu particles matched, %u configured", s, sm->calls, n);
    // resampling after the previous scan, visible now
    if (s > 0) {
      std::vector<Model> next;
      std::string why;
      bool maybe = false;   // a resampling that draws everybody once goes unnoticed
      for (auto &m : models) {
        double ne = neff(m.w); if (ne * 2 <= n * (1 + 1e-6)) maybe = true;
        bool permuted = false; for (unsigned i = 0; i < n; ++i) if (src[i] != (int)i) permuted = true;
        bool resampled = dup || permuted;
        if (resampled && ne * 2 > n * (1 + 1e-6)) { why = "resampled although Neff is high"; continue; }
        if (resampled) { bool zero = false; for (unsigned i = 0; i < n; ++i) if (m.w[src[i]] == 0) zero = true; if (zero) { why = "drew a particle of weight zero"; continue; } }
        if (must_resample && !dup) { why = "did not resample"; continue; }
        Model a; a.w.resize(n); for (unsigned i = 0; i < n; ++i) a.w[i] = m.w[src[i]]; normalize(a.w); next.push_back(a);
        if (resampled) { Model u; u.w.assign(n, 1.0 / n); next.push_back(u); }
      }
      EXPECT(!next.empty(), "resampling", "scan %d: %s", s, why.c_str());
      models = next;
      if (dup) { ++resamplings; sim::probe("resampled"); }
      if (dup) EXPECT(all_x * all_x + all_y * all_y > 0.45 || all_th > 0.19, "resampled-too-early", "scan %d: resampled again after (%.3f, %.3f) m and a turn by %.3f", s, all_x, all_y, all_th);
      if (dup && all_x * all_x + all_y * all_y <= 0.45) sim::probe("resampled_after_turn");
      if (dup || maybe) must_travel = must_turn = 0;
      if (dup) all_x = all_y = all_th = 0;
    }
    must_travel += std::fabs(scan.pose_delta.x); all_x += std::fabs(scan.pose_delta.x); all_y += std::fabs(scan.pose_delta.y); all_th += std::fabs(scan.pose_delta.theta); must_turn += std::fabs(scan.pose_delta.theta);
    // weight update
    std::vector<Model> next;
    bool known = mode != 4 && mode != 5;
    for (auto &m : models) {
      Model a = m;
      if (known && !first_known) for (unsigned i = 0; i < n; ++i) a.w[i] *= score[i];
      double t = 0; for (double x : a.w) t += x;
      if (t > 0) { normalize(a.w); next.push_back(a); }
      else { next.push_back(m); Model u; u.w.assign(n, 1.0 / n); next.push_back(u); }
    }
    if (known) got_known = true;
    // reported state must fit at least one candidate
    const Particle &rep = dynamic_cast<const Particle &>(pf.world());
    double rw = rep.weight();
    EXPECT(std::isfinite(rw) && rw >= 1.0 / n - 1e-9 && rw <= 1 + 1e-9, "weight-domain", "scan %d: heaviest weight %g of %u particles", s, rw, n);
    const RobotPose rp = pf.pose();
    EXPECT(&pf.map() == &pf.world().map() && rp.x == pf.world().pose().x, "reported-state", "reported pose/map are not the world's");
    int ri = -1; for (unsigned i = 0; i < n; ++i) if (std::hypot(cur[i].x - rp.x, cur[i].y - rp.y) < 1e-6) ri = (int)i;
    EXPECT(ri >= 0, "reported-state", "scan %d: reported pose is no particle's pose", s);
    // keep candidates the observation allows: either nothing was resampled and the heaviest weight matches, or resampling followed
    std::vector<Model> fit;
    must_resample = !models.empty();
    for (auto &m : next) {
      double mx = *std::max_element(m.w.begin(), m.w.end());
      bool plain = m.w[ri] >= mx * (1 - 1e-9) && std::fabs(rw - mx) < 1e-9;
      bool due = neff(m.w) * 2 <= n * (1 + 1e-6);
      if (plain || (due && m.w[ri] > 0)) { fit.push_back(m); }
      if (!(n >= 6 && neff(m.w) < 1.05 && (must_travel > 0.8 || must_turn > 0.25))) must_resample = false;
    }
    EXPECT(!fit.empty(), "reported-state", "scan %d (%s): reported particle %d with weight %.9f is not a heaviest one (expected maximum %.9f at weight of reported %.9f)", s, mode_name[mode], ri, rw,
           *std::max_element(next[0].w.begin(), next[0].w.end()), next[0].w[ri]);
    models = fit;
    if (models.size() > 64) models.resize(64);
    have_obst = known && (mode == 0 || mode == 1 || mode == 6 || (mode == 2 && first_known));
    if (mode == 3 && first_known) have_obst = false;
    obst_r = r; poses = cur;
    sim::hashd(rp.x); sim::hashd(rw);
    sim::state(n * 1000 + mode * 100 + (uint64_t)(rw * 50));
  }
  if (scans > 3 && (bad || resamplings)) sim::nontrivial();
}

// Resampled hypotheses go separate ways: every scan the matching spreads the
// particles over slots 6 m apart, so the next scan tells where each came from
// and which noise it got.
SCENARIO(diversity, "c11.diversity") {
  unsigned n = 6 + sim::draw(14);
  double sxy = sim::real(0.01, 0.2), sth = sim::real(0.005, 0.05), mxy = sim::chance(1, 4) ? sim::sreal(0.1) : 0, mth = sim::chance(1, 4) ? sim::sreal(0.02) : 0;
  bool lim = sim::chance(1, 2);
  auto map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{20, 20, 0.2});
  auto sm = std::make_shared<ScriptedMatcher>();
  auto adder = WallDistanceBlurringScanAdder::builder()
      .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1.0}, Occupancy{0.01, 1.0}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
  SingleStateHypothesisLSGWProperties props{1.0, 1.0, 0, map, sm, adder};
  GMappingParams gprms{mxy, sxy, mth, sth, lim ? 0.05 : 0, lim ? 0.3 : 0, lim ? 0.05 : 0, lim ? 0.1 : 0};
  sim::set_entropy(sim::draw(1 << 24));
  GmappingParticleFilter pf{props, gprms, n};
  sim::log("particles %u noise %.4f %.4f mean %.4f %.4f limits %d", n, sxy, sth, mxy, mth, lim);
  std::vector<RobotPose> poses; RobotPose raw{0, 0, 0};
  std::set<std::array<double, 3>> seen;           // no noise is ever repeated
  double sum[3] = {0, 0, 0}, sq[3] = {0, 0, 0}; size_t noises = 0; int duplicates = 0, master = -1;
  int scans = 4 + (int)sim::draw(14);
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.2);
    int mode = (int)sim::weighted({2, 4, 3});
    TransformedLaserScan scan; scan.quality = 1;
    scan.scan.points().push_back(ScanPoint2D::make_polar(sim::real(0.5, 1.4), 0, true));
    scan.pose_delta = RobotPoseDelta{sim::real(0.9, 1.5), sim::sreal(0.2), sim::sreal(0.3)};
    std::vector<double> score(n); size_t hero = sim::draw(n);
    for (unsigned i = 0; i < n; ++i) score[i] = s == 0 || mode == 0 ? sim::real(0.5, 0.6) : mode == 1 ? (i == hero ? 0.9 : 0.9 * sim::real(0.01, 0.1)) : i == hero || sim::chance(1, 3) ? sim::real(0.5, 0.9) : 0;
    std::vector<RobotPose> cur(n), noise(n); std::vector<int> src(n, -1);
    sm->calls = 0;
    sm->script = [&](size_t i, const RobotPose &pose, const GridMap &, RobotPoseDelta &d) {
      if (i >= n) sim::fail("particle-count", "more than %u particles matched a scan", n);
      if (s > 0) {
        double bd = 1e18;
        for (unsigned k = 0; k < n; ++k) {
          double a = poses[k].theta - raw.theta, dx = scan.pose_delta.x, dy = scan.pose_delta.y;
          RobotPose e{poses[k].x + std::cos(a) * dx - std::sin(a) * dy, poses[k].y + std::sin(a) * dx + std::cos(a) * dy, poses[k].theta + scan.pose_delta.theta};
          double dd = std::hypot(e.x - pose.x, e.y - pose.y);
          if (dd < bd) { bd = dd; src[i] = (int)k; noise[i] = RobotPose{pose.x - e.x, pose.y - e.y, pose.theta - e.theta}; }
        }
        EXPECT(bd < 9 * (sxy + std::fabs(mxy)) + 1e-6, "resampled-invention", "scan %d: particle %zu is %.3f m from every previous particle", s, i, bd);
      }
      // next slot; the heading stays near the odometry's
      d = RobotPoseDelta{-pose.x + sim::sreal(0.5), i * 6.0 + sim::real(0, 1) - pose.y, raw.theta + scan.pose_delta.theta - pose.theta + sim::sreal(0.3)};
      cur[i] = RobotPose{pose.x + d.x, pose.y + d.y, pose.theta + d.theta};
      return score[i];
    };
    pf.handle_sensor_data(scan);
    EXPECT(sm->calls == n, "particle-count", "scan %d: %zu particles matched, %u configured", s, sm->calls, n);
    if (s > 0) {
      int still = -1, stills = 0; bool dup = false, master_drawn = false;
      std::set<int> used;
      for (unsigned i = 0; i < n; ++i) {
        if (!used.insert(src[i]).second) dup = true;
        if (src[i] == master) master_drawn = true;
        if (std::fabs(noise[i].x) + std::fabs(noise[i].y) + std::fabs(noise[i].theta) < 1e-9) { ++stills; still = (int)i; continue; }
        EXPECT(std::fabs(noise[i].x - mxy) < 8 * sxy && std::fabs(noise[i].y - mxy) < 8 * sxy && std::fabs(noise[i].theta - mth) < 8 * sth, "noise-size", "scan %d: particle %u was shifted by (%g,%g,%g), noise is N(%g,%g), N(%g,%g)", s, i, noise[i].x, noise[i].y, noise[i].theta, mxy, sxy, mth, sth);
        // rounding: poses are at most 200 m away
        std::array<double, 3> key{std::round(noise[i].x * 1e9), std::round(noise[i].y * 1e9), std::round(noise[i].theta * 1e9)};
        for (auto &o : seen) if (std::fabs(o[0] - key[0]) < 3 && std::fabs(o[1] - key[1]) < 3) sim::fail("repeated-noise", "scan %d: particle %u (from %d) repeats the noise (%g,%g,%g) of another hypothesis", s, i, src[i], noise[i].x, noise[i].y, noise[i].theta);
        seen.insert(key);
        double v[3] = {noise[i].x - mxy, noise[i].y - mxy, noise[i].theta - mth};
        for (int k = 0; k < 3; ++k) { sum[k] += v[k]; sq[k] += v[k] * v[k]; }
        ++noises;
      }
      if (dup) { ++duplicates; sim::probe("duplicated"); }
      EXPECT(stills >= 1, "no-master", "scan %d: no hypothesis moved without noise", s);
      EXPECT(stills <= 1, "clones", "scan %d: %d hypotheses moved without noise, so copies of one never diverge", s, stills);
      EXPECT(s < 2 || !master_drawn || src[still] == master, "no-master", "scan %d: the noiseless hypothesis %d was dropped although it was drawn", s, master);
      master = still;
      sim::hashd(noise[0].x); sim::state(n * 100 + used.size());
    }
    raw = RobotPose{raw.x, raw.y, raw.theta + scan.pose_delta.theta}; poses = cur;
  }
  if (noises > 100)
    for (int k = 0; k < 3; ++k) {
      double sd = std::sqrt(sq[k] / noises), want = k < 2 ? sxy : sth, mean = sum[k] / noises;
      EXPECT(sd > 0.6 * want && sd < 1.5 * want, "noise-size", "deviation of %zu noises of component %d is %g, configured %g", noises, k, sd, want);
      EXPECT(std::fabs(mean) < 7 * want / std::sqrt((double)noises), "noise-size", "mean of %zu noises of component %d is off by %g, deviation %g", noises, k, mean, want);
    }
  if (duplicates) sim::nontrivial();
}

// (the limit of the way applies to x and y, so it is sqrt(2) times the configured one)
// Hypotheses are matched again only after they moved or turned by their limits,
// one of them at once; whatever happens in between only moves them.
SCENARIO(limits, "c11.limits") {
  unsigned n = 2 + sim::draw(6);
  double lo = sim::real(0, 0.5), hi = sim::chance(1, 2) ? lo : lo + sim::real(0, 0.4), tlo = sim::real(0, 0.4), thi = sim::chance(1, 2) ? tlo : tlo + sim::real(0, 0.3);
  auto map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{20, 20, 0.2});
  auto sm = std::make_shared<ScriptedMatcher>();
  auto adder = WallDistanceBlurringScanAdder::builder()
      .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1.0}, Occupancy{0.01, 1.0}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
  SingleStateHypothesisLSGWProperties props{1.0, 1.0, 0, map, sm, adder};
  GMappingParams gprms{0, 0, 0, 0, lo, hi, tlo, thi};
  sim::set_entropy(sim::draw(1 << 24));
  GmappingParticleFilter pf{props, gprms, n};
  sim::log("particles %u limits [%.3f %.3f] [%.3f %.3f]", n, lo, hi, tlo, thi);
  std::vector<RobotPose> pose(n); std::vector<std::array<double, 3>> acc(n, {0, 0, 0}); int exact = -1, known = 0, skipped = 0;
  std::set<unsigned> may;            // candidates for the one that is always matched
  int scans = 3 + (int)sim::draw(16);
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    TransformedLaserScan scan; scan.quality = 1;
    scan.scan.points().push_back(ScanPoint2D::make_polar(sim::real(0.5, 1.4), 0, true));
    scan.pose_delta = RobotPoseDelta{sim::sreal(0.3), sim::chance(1, 2) ? sim::sreal(0.3) : 0, sim::chance(1, 2) ? sim::sreal(0.2) : 0};
    if (sim::chance(1, 5)) scan.pose_delta = RobotPoseDelta{0, 0, 0};
    bool unknown = sim::chance(1, 6); if (unknown) sim::fault("unknown_scan");
    std::vector<bool> matched(n, false);
    for (unsigned i = 0; i < n; ++i) {
      pose[i] = RobotPose{pose[i].x + scan.pose_delta.x, pose[i].y + scan.pose_delta.y, 0};
      acc[i] = {acc[i][0] + std::fabs(scan.pose_delta.x), acc[i][1] + std::fabs(scan.pose_delta.y), acc[i][2] + std::fabs(scan.pose_delta.theta)};
    }
    sm->calls = 0;
    sm->script = [&](size_t c, const RobotPose &p, const GridMap &, RobotPoseDelta &d) {
      int who = -1;
      if (s == 0) who = (int)c; else for (unsigned i = 0; i < n; ++i) if (std::hypot(p.x - pose[i].x, p.y - pose[i].y) < 1e-6) who = (int)i;
      EXPECT(who >= 0 && who < (int)n && !matched[who], "odometry-ignored", "scan %d: matched at (%.3f,%.3f), where no hypothesis should be", s, p.x, p.y);
      matched[who] = true;
      if (s == 0) { d = RobotPoseDelta{0, who * 6.0, 0}; pose[who].y += who * 6.0; }
      return unknown ? ScanProbabilityEstimator::unknown_probability() : 1.0;   // keeps the weights equal: no resampling
    };
    pf.handle_sensor_data(scan);
    std::set<unsigned> now;
    for (unsigned i = 0; i < n; ++i) {
      double l2 = acc[i][0] * acc[i][0] + acc[i][1] * acc[i][1], t = acc[i][2];
      bool must = known == 0 || l2 > 2 * hi * hi * (1 + 1e-9) + 1e-12 || t > thi + 1e-9, must_not = known > 0 && l2 < 2 * lo * lo * (1 - 1e-9) - 1e-12 && t < tlo - 1e-9;
      EXPECT(!must || matched[i], "good-scan-ignored", "scan %d: hypothesis %u moved %.3f m and turned %.3f since its last matching, limits %.3f and %.3f, and was not matched", s, i, std::sqrt(l2), t, hi * M_SQRT2, thi);
      if (must_not && matched[i]) now.insert(i);
      if (must_not && !matched[i]) ++skipped;
      if (known > 0 && !matched[i]) may.erase(i);
    }
    EXPECT(now.size() <= 1, "matched-too-early", "scan %d: %zu hypotheses were matched before they moved by their limits", s, now.size());
    for (unsigned i : now) { EXPECT(exact < 0 || exact == (int)i, "matched-too-early", "scan %d: hypothesis %u was matched before it moved by its limits, and %d before it", s, i, exact); exact = (int)i; }
    if (known == 0) { may.clear(); for (unsigned i = 0; i < n; ++i) may.insert(i); }
    EXPECT(!may.empty(), "no-master", "scan %d: no hypothesis is matched on each scan", s);
    if (!unknown) ++known;
    for (unsigned i = 0; i < n; ++i) if (matched[i]) acc[i] = {0, 0, 0};
    const auto p = pf.pose(); bool found = false;
    for (unsigned i = 0; i < n; ++i) if (std::hypot(p.x - pose[i].x, p.y - pose[i].y) < 1e-6) found = true;
    EXPECT(found, "odometry-ignored", "scan %d: the reported pose (%.3f,%.3f) is that of no hypothesis", s, p.x, p.y);
    sim::state(n * 100 + std::count(matched.begin(), matched.end(), true)); sim::hashd(p.x);
  }
  if (skipped) sim::nontrivial();
}

// ---- the shipped gmapping, end to end -------------------------------------
SCENARIO(e2e, "c11.e2e") {
  Env env = gen_env(2);
  Lidar lidar; lidar.beams = 40 + (int)sim::draw(60); lidar.noise = sim::chance(1, 2) ? 0 : 0.02;
  MapPropertiesProvider props;
  unsigned n = 2 + sim::draw(9);
  props.set_property("slam/particles/number", std::to_string(n));
  props.set_property("slam/scmtch/spe/type", "wmpp");
  props.set_property("slam/scmtch/spe/wmpp/weighting/type", sim::pick(std::vector<std::string>{"even", "viny", "ahr"}));
  props.set_property("slam/scmtch/oope/type", "custom");
  props.set_property("slam/map/height_in_meters", "12"); props.set_property("slam/map/width_in_meters", "12"); props.set_property("slam/map/meters_per_cell", "0.1");
  bool quiet = sim::chance(1, 2);
  if (quiet) { props.set_property("slam/particles/sample/xy/sigma", "0.02"); props.set_property("slam/particles/sample/theta/sigma", "0.005"); }
  std::cout.setstate(std::ios::failbit); std::clog.setstate(std::ios::failbit);
  sim::set_entropy(sim::draw(1 << 20));
  auto slam = init_gmapping(props);
  Drive dr; dr.drift_trans = sim::sreal(0.01); dr.drift_rot = sim::sreal(0.01);
  int scans = 12 + (int)sim::draw(20), prefix = sim::chance(1, 2) ? (int)sim::draw(5) : 0, burst = 0, bkind = 0, good = 0, bad = 0;
  sim::log("room %.2fx%.2f particles %u beams %d bad prefix %d", env.hx, env.hy, n, lidar.beams, prefix);
  RobotPoseDelta pending{0, 0, 0};
  int streak = 0;
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.2);
    auto d = s == 0 ? RobotPoseDelta{0, 0, 0} : dr.step(env, sim::real(0.05, 0.25), sim::sreal(0.15));
    if (s < prefix || burst > 0 || sim::chance(1, 14)) {
      if (s < prefix) bkind = (int)sim::draw(2); else if (burst == 0) { burst = 1 + (int)sim::draw(4); bkind = (int)sim::draw(good ? 3 : 2); }
      if (burst > 0) --burst;
      TransformedLaserScan ts; ts.pose_delta = d; ts.quality = 1;
      if (bkind == 0) { sim::fault("empty_scan"); }
      else if (bkind == 1) { for (int i = 0; i < 30; ++i) ts.scan.points().push_back(ScanPoint2D::make_polar(lidar.max_range, -2.3 + i * 0.15, false)); sim::fault("no_return_scan"); }
      else { for (int i = 0; i < 12; ++i) ts.scan.points().push_back(ScanPoint2D::make_polar(sim::real(0.3, 9), -2.3 + i * 0.35, true)); sim::fault("garbage_scan"); }
      sim::log("scan %d bad kind %d", s, bkind);
      slam->handle_sensor_data(ts);
      ++bad; streak = 0;
    } else {
      TransformedLaserScan ts; ts.pose_delta = d; ts.quality = 1; ts.scan = make_scan(env, lidar, dr.truth);
      slam->handle_sensor_data(ts);
      ++good; ++streak;
    }
    double w = dynamic_cast<const Particle &>(slam->world()).weight();
    const auto &p = slam->pose();
    sim::log("pose %.3f %.3f %.3f truth %.3f %.3f %.3f w %.4f", p.x, p.y, p.theta, dr.truth.x, dr.truth.y, dr.truth.theta, w);
    EXPECT(std::isfinite(w) && w >= 1.0 / n - 1e-9 && w <= 1 + 1e-9, "weight-domain", "scan %d: heaviest weight %g of %u", s, w, n);
    EXPECT(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), "pose-domain", "scan %d: pose (%g,%g,%g)", s, p.x, p.y, p.theta);
    sim::hashd(p.x); sim::hashd(w);
  }
  // a map exists as soon as good scans were delivered
  if (good >= 3) {
    const auto &m = slam->map(); const auto &p = slam->pose();
    auto rc = m.world_to_cell(p.x, p.y); bool seen = false;
    for (int dx = -8; dx <= 8; ++dx) for (int dy = -8; dy <= 8; ++dy) if (!m[Coord{rc.x + dx, rc.y + dy}].is_unknown()) seen = true;
    EXPECT(seen, "good-scan-not-mapped", "after %d good scans nothing within 0.8 m of the robot is known", good);
    int walls = 0; auto sc = make_scan(env, lidar, dr.truth); int hits = 0;
    for (auto &sp : sc.points()) if (sp.is_occupied()) {
      auto wp = sp.move_origin(p.x, p.y, p.theta); auto c = m.world_to_cell(wp);
      bool any = false; for (int dx = -6; dx <= 6; ++dx) for (int dy = -6; dy <= 6; ++dy) if (m[Coord{c.x + dx, c.y + dy}].occupancy().prob_occ > 0.3 && !m[Coord{c.x + dx, c.y + dy}].is_unknown()) any = true;
      walls += any; ++hits;
    }
    EXPECT(walls * 10 > hits, "good-scan-not-mapped", "after %d good scans only %d of %d wall returns are near mapped obstacles", good, walls, hits);
    if (bad) sim::nontrivial();
  }
}
