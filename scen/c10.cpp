// C10: scan matchers never worsen the pose, report true scores and keep no history.
#include "matching.h"
#include <iostream>
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"

namespace {

struct Counter : GridScanMatcherObserver {
  long tests = 0, accepted = 0, starts = 0, ends = 0, fail_at = 0, last_accept = 0; RobotPose first{0, 0, 0}; bool have_first = false;
  void on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &) override { ++starts; }
  void on_scan_test(const RobotPose &p, const LaserScan2D &, double) override {
    ++tests;
    if (tests == 2) { first = p; have_first = true; }
    if (fail_at && tests == fail_at) { sim::fault("observer_exception"); throw Injected{}; }
  }
  void on_pose_update(const RobotPose &, const LaserScan2D &, double) override { ++accepted; last_accept = tests; }
  void on_matching_end(const RobotPoseDelta &, const LaserScan2D &, double) { ++ends; }
};

struct Cfg {
  int kind; SpeCfg spe; unsigned seed;
  double fx, tx, sx, fy, ty, sy, ft, tt, st;          // brute force
  unsigned fal; double td, rd;                          // hill climbing
  double disp_t, disp_r; unsigned dfal, attempts;       // monte carlo
  bool frame, detector;
};
const char *kinds[] = {"brute-force", "hill-climbing", "monte-carlo", "hill-climbing-fixed"};

std::unique_ptr<GridScanMatcher> make(const Cfg &c, std::shared_ptr<FaultySPE> spe, std::shared_ptr<GridScanMatcherObserver> obs = nullptr) {
  if (c.detector) { Cfg in = c; in.detector = false; std::shared_ptr<GridScanMatcher> sm = make(in, spe); if (obs) sm->subscribe(obs); return std::make_unique<ConnectTheDotsAmbiguousDriftDetector>(sm); }
  auto made = [&](std::unique_ptr<GridScanMatcher> m) { if (obs) m->subscribe(obs); return m; };
  switch (c.kind) {
  case 0: return made(std::make_unique<BruteForceScanMatcher>(spe, c.fx, c.tx, c.sx, c.fy, c.ty, c.sy, c.ft, c.tt, c.st));
  case 1: return made(std::make_unique<HillClimbingScanMatcher>(spe, c.fal, c.td, c.rd, c.frame));
  case 2: return made(std::make_unique<MonteCarloScanMatcher>(spe, c.seed, c.disp_t, c.disp_r, c.dfal, c.attempts));
  default: return made(std::make_unique<HillClimbingSMFixed>(spe));
  }
}

Cfg gen_cfg(bool gmapping) {
  Cfg c; c.kind = (int)sim::draw(4); c.spe = gen_spe(gmapping); c.seed = sim::draw(1 << 16);
  bool dyadic = sim::chance(1, 3);    // windows whose ends are reached exactly
  auto dim = [dyadic](double &f, double &t, double &s, double mag) { if (dyadic) { double u = mag / 0.4 / 32; u = std::ldexp(1, std::ilogb(u)); f = -u * (1 + (int)sim::draw(12)); s = u * (3 + (int)sim::draw(6)); t = f + s * (2 + (int)sim::draw(3)); return; } f = -sim::real(0.1, 1) * mag; t = sim::real(0.1, 1) * mag; s = sim::real(0.25, 0.9) * mag; };
  dim(c.fx, c.tx, c.sx, 0.4); dim(c.fy, c.ty, c.sy, 0.4); dim(c.ft, c.tt, c.st, 0.15);
  c.fal = 1 + sim::draw(6); c.td = sim::real(0.02, 0.2); c.rd = sim::real(0.01, 0.2);
  c.disp_t = sim::real(0.02, 0.4); c.disp_r = sim::real(0.01, 0.2); c.dfal = 1 + sim::draw(20); c.attempts = 1 + sim::draw(80);
  c.frame = sim::chance(1, 5); c.detector = sim::chance(1, 5);
  return c;
}

void run(bool faults) {
  bool gm = sim::chance(1, 4);
  Cfg cfg = gen_cfg(gm);
  World0 w = gen_world();
  int ck = gen_cell_kind(gm);
  int mk = sim::pick(std::vector<int>{MAP_UPLAIN, MAP_ULAZY, MAP_PLAIN, MAP_LAZY});
  if (!map_unbounded(mk) && w.scale < 0.2) w.scale = 0.2;   // bounded maps must hold every scan
  int side = map_unbounded(mk) ? 1 + (int)sim::draw(60) : (int)((cfg.kind == 2 ? 34 : 20) / w.scale);   // a random walk may stray
  auto map = make_map(mk, make_cell(ck), GridMapParams{side, side, w.scale});
  fill_map(*map, w, 1 + (int)sim::draw(3));
  auto spe = std::make_shared<FaultySPE>(cfg.spe);
  auto obs = std::make_shared<Counter>(); auto sm = make(cfg, spe, obs);
  for (auto o : {&std::cout, &std::clog, &std::cerr}) o->setstate(std::ios::failbit);
  sim::log("%s%s, %s, cell %s, map %s scale %.2f", kinds[cfg.kind], cfg.detector ? " with drift detector" : "", cfg.spe.str().c_str(), cell_name(ck), map_name(mk), w.scale);
  int rounds = 1 + (int)sim::draw(6), improved = 0, aborted = 0; bool stream_used = false;
  for (int r = 0; r < rounds; ++r) {
    sim::Span sp; sim::step();
    RobotPose truth = near_pose(0.5, 0.6), init{truth.x + sim::sreal(0.25), truth.y + sim::sreal(0.25), truth.theta + sim::sreal(0.15)};
    TransformedLaserScan ts; ts.pose_delta = RobotPoseDelta{0, 0, 0}; ts.quality = 1; ts.scan = gen_scan(w, truth);
    if (sim::chance(1, 6)) fill_map(*map, w, 1);
    uint64_t md = map_digest(*map), sd = scan_digest(ts.scan);
    // an aborted matching before the real one
    if (faults && sim::chance(1, 2)) {
      int how = (int)sim::draw(3);
      RobotPoseDelta junk{7, 7, 7}; bool threw = false;
      TransformedLaserScan other = ts; RobotPose oinit = sim::chance(1, 2) ? init : near_pose(1, 1);
      if (sim::chance(1, 2)) other.scan = gen_scan(w, near_pose(0.5, 0.5));
      long at = 1 + (long)sim::draw(30);
      if (how == 0) spe->fail_at = spe->calls + at; else if (how == 1) obs->fail_at = obs->tests + at;
      try { sim::AllocFault af(how == 2 ? 1 + sim::draw(400) : 0); sm->process_scan(other, oinit, *map, junk); } catch (Injected &) { threw = true; } catch (std::bad_alloc &) { threw = true; }
      spe->fail_at = 0; obs->fail_at = 0;
      sim::log("interrupted matching (kind %d): %s", how, threw ? "aborted" : "completed");
      if (threw) ++aborted;
      stream_used = true;
      EXPECT(map_digest(*map) == md, "map-changed", "an aborted matching changed the map");
    }
    obs->tests = obs->accepted = 0;
    RobotPoseDelta d{9, 9, 9};
    if (sim::chance(1, 2)) sm->reset_state();
    double score = sm->process_scan(ts, init, *map, d);
    RobotPose got{init.x + d.x, init.y + d.y, init.theta + d.theta};
    sim::log("round %d init %.4f %.4f %.4f -> delta %.5f %.5f %.5f score %.6f tests %ld", r, init.x, init.y, init.theta, d.x, d.y, d.theta, score, obs->tests);
    sim::hashd(d.x); sim::hashd(d.y); sim::hashd(d.theta); sim::hashd(score);
    EXPECT(map_digest(*map) == md, "map-changed", "matching changed the map");
    EXPECT(scan_digest(ts.scan) == sd, "scan-changed", "matching changed the scan");
    RefScore ref(cfg.spe, ts.scan, init, *map);
    EXPECT(ref.is_score_of(score, got), "wrong-score", "%s: reported score %.12g, the returned pose scores %.12g", kinds[cfg.kind], score, ref.usable() ? ref.at(got.x, got.y, got.theta) : NAN);
    if (ref.usable()) {
      double i0 = ref.at(init.x, init.y, init.theta);
      if (!cfg.detector && score < i0 - 1e-9) { auto lo = ref.around(init).first; EXPECT(score >= lo - 1e-9, "worse-than-initial", "%s: score %.12g of the result, %.12g of the initial pose", kinds[cfg.kind], score, i0); }
      sim::checked();
      if (score > i0 + 1e-9) ++improved;
      if (cfg.kind == 0 && !cfg.detector)
        for (double t = cfg.ft; t <= cfg.tt; t += cfg.st) for (double y = cfg.fy; y <= cfg.ty; y += cfg.sy) for (double x = cfg.fx; x <= cfg.tx; x += cfg.sx) {
          RobotPose c{init.x + x, init.y + y, init.theta + t};
          sim::checked();
          if (ref.at(c.x, c.y, c.theta) > score + 1e-9 && ref.around(c).first > score + 1e-9)
            sim::fail("exhaustive-search-beaten", "candidate (%.4f,%.4f,%.4f) of the window scores %.9f, the matcher returned %.9f", x, y, t, ref.at(c.x, c.y, c.theta), score);
        }
      if (cfg.kind == 1 && !cfg.detector) {      // hill climbing: no single step from the start beats the result, nor does one of the final size from the result
        auto top = [&](const RobotPose &from, double td, double rd, const char *what) {
          for (int k = 0; k < 6; ++k) {
            double s = k & 1 ? -1 : 1; RobotPose c{from.x + (k / 2 == 0 ? s * td : 0), from.y + (k / 2 == 1 ? s * td : 0), from.theta + (k / 2 == 2 ? s * rd : 0)};
            sim::checked();
            if (ref.at(c.x, c.y, c.theta) > score + 1e-9 && ref.around(c).first > score + 1e-9)
              sim::fail("hill-climbing-beaten", "the pose one step (%.4f, %.4f) from the %s in direction %d scores %.9f, the matcher returned %.9f", td, rd, what, k, ref.at(c.x, c.y, c.theta), score); } };
        top(init, cfg.td, cfg.rd, "initial pose");
        if (obs->last_accept < obs->tests) top(got, std::ldexp(cfg.td, 1 - (int)cfg.fal), std::ldexp(cfg.rd, 1 - (int)cfg.fal), "result");
      }
    } else EXPECT(d.x == 0 && d.y == 0 && d.theta == 0, "moved-without-evidence", "no usable point, but correction (%g,%g,%g)", d.x, d.y, d.theta);
    // attempts
    if (cfg.kind == 0) {
      auto cnt = [](double f, double t, double s) { return std::floor((t - f) / s) + 2; };
      EXPECT(obs->tests <= 1 + cnt(cfg.fx, cfg.tx, cfg.sx) * cnt(cfg.fy, cfg.ty, cfg.sy) * cnt(cfg.ft, cfg.tt, cfg.st), "attempts", "brute force tested %ld candidates", obs->tests);
    } else if (cfg.kind == 1) EXPECT(obs->tests <= 1 + 6 * ((long)cfg.fal + obs->accepted + 1), "attempts", "hill climbing tested %ld candidates, %ld accepted, limit of failed rounds %u", obs->tests, obs->accepted, cfg.fal);
    else if (cfg.kind == 2) EXPECT(obs->tests <= 1 + (long)cfg.attempts, "attempts", "Monte-Carlo tested %ld candidates, limit %u", obs->tests, cfg.attempts);
    if (cfg.kind == 2) EXPECT(obs->tests >= 1 + (long)std::min(cfg.attempts, cfg.dfal), "gives-up-early", "Monte-Carlo tested %ld candidates, attempts limit %u, failed attempts limit %u", obs->tests, cfg.attempts, cfg.dfal);
    // a fresh matcher must agree: nothing is remembered
    if (cfg.kind != 2 || !stream_used) {   // the randomised matcher continues its random stream
      auto fspe = std::make_shared<FaultySPE>(cfg.spe); auto fresh = make(cfg, fspe); RobotPoseDelta fd{5, 5, 5};
      TransformedLaserScan fts; fts.pose_delta = ts.pose_delta; fts.quality = 1; fts.scan.points() = ts.scan.points();
      double fs = fresh->process_scan(fts, init, *map, fd);
      EXPECT(same_bits(fs, score) && fd.x == d.x && fd.y == d.y && fd.theta == d.theta, "history-dependent", "%s round %d: (%.9g,%.9g,%.9g) score %.12g, a fresh matcher returns (%.9g,%.9g,%.9g) score %.12g", kinds[cfg.kind], r,
             d.x, d.y, d.theta, score, fd.x, fd.y, fd.theta, fs);
    }
    stream_used = true;
    sim::state(cfg.kind * 1000 + cfg.spe.oope * 100 + (uint64_t)(std::isnan(score) ? 99 : score * 40));
  }
  if (improved && (rounds > 1 || aborted)) sim::nontrivial();
}

}  // namespace

SCENARIO(seq, "c10.sequences") { run(false); }
SCENARIO(abort, "c10.aborts") { run(true); }

// The randomised matcher restarts every matching from its configured
// dispersion: the first candidate of each matching is a normal deviate.
SCENARIO(mc, "c10.randomised") {
  World0 w = gen_world(); SpeCfg sc = gen_spe(false);
  Cfg cfg = gen_cfg(false); cfg.kind = 2; cfg.detector = false; cfg.spe = sc; cfg.attempts = 5 + sim::draw(40); cfg.dfal = 2 + sim::draw(10);
  UnboundedPlainGridMap map{make_cell(CELL_AFFINE), GridMapParams{20, 20, w.scale}};
  fill_map(map, w, 2);
  auto spe = std::make_shared<FaultySPE>(cfg.spe); auto sm = make(cfg, spe); auto twin = make(cfg, std::make_shared<FaultySPE>(cfg.spe));
  auto obs = std::make_shared<Counter>(); sm->subscribe(obs);
  const int N = 100; double st = 0, sr = 0; int n = 0;
  for (int i = 0; i < N; ++i) {
    sim::step();
    RobotPose truth = near_pose(0.5, 0.6), init{truth.x + sim::sreal(0.25), truth.y + sim::sreal(0.25), truth.theta + sim::sreal(0.15)};
    TransformedLaserScan ts; ts.quality = 1; ts.scan = gen_scan(w, truth, i % 5 == 0);
    obs->tests = obs->accepted = 0; obs->have_first = false;
    RobotPoseDelta d{0, 0, 0}, d2{0, 0, 0};
    double s = sm->process_scan(ts, init, map, d), s2 = twin->process_scan(ts, init, map, d2);
    EXPECT(same_bits(s, s2) && d.x == d2.x && d.y == d2.y && d.theta == d2.theta, "seed-dependence", "matching %d: two matchers of one seed return %.12g and %.12g", i, s, s2);
    EXPECT(obs->tests <= 1 + (long)cfg.attempts, "attempts", "tested %ld of %u", obs->tests, cfg.attempts);
    if (obs->have_first) {
      st += std::pow((obs->first.x - init.x) / cfg.disp_t, 2) + std::pow((obs->first.y - init.y) / cfg.disp_t, 2);
      sr += std::pow((obs->first.theta - init.theta) / cfg.disp_r, 2); ++n;
    }
    sim::hashd(s);
  }
  if (n >= 80) {
    double vt = st / (2 * n), vr = sr / n;    // expected 1, standard errors 0.071 and 0.16 at n = 80
    sim::log("n %d normalised variances %.3f %.3f", n, vt, vr);
    EXPECT(0.35 < vt && vt < 1.8 && 0.15 < vr && vr < 2.5, "history-dependent", "first candidates of %d matchings deviate by %.3f (translation) and %.3f (rotation) times the configured variance", n, vt, vr);
    sim::nontrivial();
  }
}
