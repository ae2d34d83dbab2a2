// C07: pose accounting of the single-hypothesis SLAM: every delivered scan
// moves the pose by odometry plus correction and is mapped exactly once.
#include "matching.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "slams/credibilist/init_slam.h"
#include "utils/init_slam.h"
#include <iostream>

namespace {

using WorldT = SingleStateHypothesisLaserScanGridWorld;
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }

// plays a scripted outcome or wraps a real matcher; watches the map meanwhile
struct SpyMatcher : GridScanMatcher {
  std::shared_ptr<GridScanMatcher> real;
  RobotPoseDelta script{0, 0, 0}; bool silent = false; double prob = 0.5; bool fail_before = false, fail_after = false;
  uint64_t map_before = 0; RobotPose init{0, 0, 0}; RobotPoseDelta returned{0, 0, 0};
  int calls = 0, resets = 0; uint64_t scan = 0;
  SpyMatcher(std::shared_ptr<GridScanMatcher> r, SPE spe) : GridScanMatcher{spe}, real{r} {}
  void reset_state() override { ++resets; if (real) real->reset_state(); }
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    ++calls; init = p; map_before = map_digest(m); scan = scan_digest(s.scan);
    if (fail_before) { sim::fault("matcher_exception"); throw Injected{}; }
    double r = prob;
    if (real) r = real->process_scan(s, p, m, d); else if (!silent) d = script;
    returned = silent && !real ? RobotPoseDelta{0, 0, 0} : d;   // a matcher that found nothing may leave the correction alone
    EXPECT(map_digest(m) == map_before, "mapped-before-matched", "the map changed during matching");
    if (fail_after) { sim::fault("matcher_exception"); throw Injected{}; }
    return r;
  }
};

// the sensor side: true scans of a room, sent through a lossy network
struct Feed {
  struct Msg { RobotPoseDelta d; LaserScan2D s; };
  std::vector<Msg> queue;
};

LaserScan2D deep(const LaserScan2D &s, size_t from, size_t to) {   // own trigonometry provider
  LaserScan2D r; for (size_t i = from; i < to; ++i) r.points().push_back(s.points()[i]); return r;
}

}  // namespace

SCENARIO(ledger, "c07.ledger") {
  World0 w = gen_world();
  int ck = sim::pick(std::vector<int>{CELL_MEAN, CELL_AFFINE, CELL_TBM_CONS, CELL_GMAPPING, CELL_CREDIBILIST});
  int mk = sim::pick(std::vector<int>{MAP_UPLAIN, MAP_ULAZY, MAP_M3_PLAIN, MAP_M3_LAZY});
  GridMapParams gp{1 + (int)sim::draw(60), 1 + (int)sim::draw(60), w.scale};
  auto map = make_map(mk, make_cell(ck), gp), twin = make_map(mk, make_cell(ck), gp);
  SpeCfg sc = gen_spe(ck == CELL_GMAPPING); auto spe = std::make_shared<FaultySPE>(sc);
  std::shared_ptr<GridScanMatcher> real;
  switch (sim::draw(5)) {
  case 1: real = std::make_shared<HillClimbingScanMatcher>(spe, 3, 0.1, 0.05); break;
  case 2: real = std::make_shared<MonteCarloScanMatcher>(spe, sim::draw(1000), 0.2, 0.1, 5, 30); break;
  case 3: real = std::make_shared<BruteForceScanMatcher>(spe, -0.15, 0.15, 0.1, -0.15, 0.15, 0.1, -0.04, 0.04, 0.03); break;
  case 4: real = std::make_shared<NoActionScanMatcher>(spe); break;
  }
  auto spy = std::make_shared<SpyMatcher>(real, spe);
  double blur = sim::chance(1, 3) ? sim::real(0.1, 0.6) : 0, range = sim::chance(1, 4) ? sim::real(1, 5) : 1e9;
  auto adder = [&] { return WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 0.9}, Occupancy{0.05, 0.8}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(blur).set_max_usable_range(range).build(); };
  WorldT::Properties pr; pr.localized_scan_quality = sim::real(0.3, 1); pr.raw_scan_quality = sim::chance(1, 8) ? 0 : sim::real(0.05, 0.9);
  pr.scan_margin = sim::chance(1, 2) ? 0 : sim::draw(sim::chance(1, 4) ? 40 : 6);
  pr.grid_map = std::move(map); pr.gsm = spy; pr.gmsa = adder();
  auto world = std::make_shared<WorldT>(pr);
  auto twin_adder = adder();
  sim::log("map %s cell %s matcher %s margin %zu quality %.3f/%.3f blur %.2f", map_name(mk), cell_name(ck), real ? "real" : "scripted", pr.scan_margin, pr.localized_scan_quality, pr.raw_scan_quality, blur);
  // network: what the robot sends is delivered late, twice, never or out of order
  RobotPose truth{0, 0, 0}, expect = world->pose();
  EXPECT(expect.x == 0 && expect.y == 0 && expect.theta == 0, "pose", "initial pose is not the origin");
  std::vector<Feed::Msg> inflight; RobotPoseDelta unsent{0, 0, 0};
  int sends = 2 + (int)sim::draw(9), delivered = 0, failures = 0, odd = 0;
  auto deliver = [&](const Feed::Msg &m) {
    sim::Span sp; sim::step(); ++delivered;
    TransformedLaserScan ts; ts.pose_delta = m.d; ts.quality = sim::real(0, 1); ts.scan = deep(m.s, 0, m.s.points().size());
    const size_t n = ts.scan.points().size();
    spy->silent = !real && sim::chance(1, 6); spy->prob = sim::pick(std::vector<double>{0.5, 0, 1, NAN, sim::real(0, 1)});   // the score is no part of the accounting
    switch (real ? 0 : sim::draw(4)) {
    case 0: spy->script = RobotPoseDelta{0, 0, 0}; break;
    case 1: spy->script = RobotPoseDelta{sim::sreal(0.3) + 0.4, sim::sreal(0.3), sim::sreal(0.1)}; break;
    case 2: spy->script = RobotPoseDelta{0, 0, sim::sreal(0.1) + 0.12}; break;   // rotation only
    case 3: spy->script = RobotPoseDelta{0, sim::real(0.01, 0.2), 0}; break;
    }
    spy->fail_before = sim::chance(1, 9); spy->fail_after = sim::chance(1, 9);
    bool alloc_fault = real && sim::chance(1, 9);
    int calls = spy->calls; RobotPose before = world->pose();
    uint64_t sd = scan_digest(ts.scan); bool threw = false; double old_q = ts.quality;
    uint64_t tmap = map_digest(*twin);
    RobotPose mid{before.x + m.d.x, before.y + m.d.y, before.theta + m.d.theta};
    if (alloc_fault) { spe->fail_at = spe->calls + 1 + (long)sim::draw(6); }
    try { world->handle_sensor_data(ts); } catch (Injected &) { threw = true; }
    spe->fail_at = 0;
    EXPECT(spy->calls == calls + 1, "matched-once", "the matcher ran %d times for one scan", spy->calls - calls);
    EXPECT(spy->scan == sd && scan_digest(ts.scan) == sd, "scan-changed", "the scan was altered");
    EXPECT(near(spy->init.x, mid.x) && near(spy->init.y, mid.y) && near(spy->init.theta, mid.theta), "pose",
           "matching started from (%.9g,%.9g,%.9g), previous pose plus odometry is (%.9g,%.9g,%.9g)", spy->init.x, spy->init.y, spy->init.theta, mid.x, mid.y, mid.theta);
    EXPECT(spy->map_before == tmap, "mapped-before-matched", "the map changed before matching");
    RobotPoseDelta c = threw ? RobotPoseDelta{0, 0, 0} : spy->returned;
    const RobotPose &p = world->pose();
    sim::log("scan %d: %zu points odom (%.3f,%.3f,%.3f) corr (%.4f,%.4f,%.4f)%s -> (%.6f,%.6f,%.6f)", delivered, n, m.d.x, m.d.y, m.d.theta, c.x, c.y, c.theta, threw ? " FAILED" : "", p.x, p.y, p.theta);
    EXPECT(near(p.x, mid.x + c.x) && near(p.y, mid.y + c.y) && near(p.theta, mid.theta + c.theta), "pose",
           "pose (%.9g,%.9g,%.9g), expected previous + odometry + correction = (%.9g,%.9g,%.9g)", p.x, p.y, p.theta, mid.x + c.x, mid.y + c.y, mid.theta + c.theta);
    expect += m.d; expect += c;
    EXPECT(near(p.x, expect.x) && near(p.y, expect.y) && near(p.theta, expect.theta), "drift", "pose (%.12g,%.12g,%.12g), sum of all increments (%.12g,%.12g,%.12g)", p.x, p.y, p.theta, expect.x, expect.y, expect.theta);
    if (threw) { ++failures; }
    else {
      bool corrected = c.x != 0 || c.y != 0 || c.theta != 0;
      // corrections below the comparison tolerance of the library count as none
      if (corrected && std::fabs(c.x) < 1e-6 && std::fabs(c.y) < 1e-6 && std::fabs(c.theta) < 1e-6) sim::finish_ok();
      double q = corrected ? pr.localized_scan_quality : pr.raw_scan_quality;
      size_t mg = pr.scan_margin;
      EXPECT(ts.quality == q, "quality", "scan quality %.9g, configured %.9g for %s scans", ts.quality, q, corrected ? "corrected" : "uncorrected");
      if (n > 2 * mg) { auto part = deep(ts.scan, mg, n - mg); twin_adder->append_scan(*twin, p, part, q, 0); }
    }
    (void)old_q;
    EXPECT(world->map().width() == twin->width() && world->map().height() == twin->height(), "map", "scan %d: map is %dx%d, expected %dx%d", delivered, world->map().width(), world->map().height(), twin->width(), twin->height());
    EXPECT(map_digest(world->map()) == map_digest(*twin), "map", "scan %d (%s): the map is not the one with each scan added once at its corrected pose with its quality and margin", delivered, threw ? "failed" : "processed");
    sim::hashd(p.x); sim::hashd(p.y); sim::hashd(p.theta);
    sim::state((uint64_t)(mk * 7 + ck) * 100 + (threw ? 50 : 0) + (size_t)delivered);
  };
  for (int i = 0; i < sends; ++i) {
    sim::Span sp; sim::advance(0.1);
    RobotPose next{truth.x + sim::sreal(0.3), truth.y + sim::sreal(0.3), truth.theta + sim::sreal(0.4)};
    if (std::fabs(next.x) > 0.8 || std::fabs(next.y) > 0.8) next = RobotPose{truth.x * 0.5, truth.y * 0.5, next.theta};
    RobotPoseDelta d = next - truth; truth = next;
    if (sim::chance(1, 12)) { d.x += sim::sreal(4); d.y += sim::sreal(4); d.theta += sim::sreal(7); sim::fault("odometry_jump"); ++odd; }
    if (sim::chance(1, 16)) { d.theta += sim::sreal(sim::chance(1, 2) ? 1500 : 60); sim::probe("many_turns"); }
    if (sim::chance(1, 10)) d = RobotPoseDelta{0, 0, 0};
    Feed::Msg m{d, gen_scan(w, truth)};
    switch (sim::weighted({10, 2, 2, 2})) {
    case 1: sim::fault("scan_lost"); ++odd; unsent = d; break;
    case 2: sim::fault("scan_duplicated"); ++odd; inflight.push_back(m); inflight.push_back(m); break;
    case 3: sim::fault("scan_delayed"); ++odd; inflight.insert(inflight.begin(), m); break;
    default: inflight.push_back(m);
    }
    while (!inflight.empty() && sim::chance(2, 3)) { auto k = inflight.back(); inflight.pop_back(); deliver(k); }
  }
  while (!inflight.empty()) { auto k = inflight.front(); inflight.erase(inflight.begin()); deliver(k); }
  if (delivered >= 2 && (odd || failures)) sim::nontrivial();
}

// the same ledger for SLAMs built from a configuration
SCENARIO(shipped, "c07.shipped") {
  std::cout.setstate(std::ios::failbit); std::clog.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  World0 w = gen_world();
  MapPropertiesProvider props;
  auto set = [&](const char *k, const std::string &v) { props.set_property(k, v); };
  auto num = [](double v) { char b[40]; snprintf(b, sizeof b, "%.6f", v); return std::string(b); };
  std::string sm = sim::pick(std::vector<std::string>{"HC", "MC", "BF", "BF_M3RSM"});
  bool m3 = sm == "BF_M3RSM", cred = sim::chance(1, 4);
  set("slam/scmtch/type", sm);
  set("slam/scmtch/spe/type", "wmpp"); set("slam/scmtch/spe/wmpp/weighting/type", sim::pick(std::vector<std::string>{"even", "viny", "ahr"}));
  set("slam/scmtch/oope/type", m3 ? "max" : sim::pick(std::vector<std::string>{"obstacle", "max", "mean"}));
  set("slam/scmtch/oie/type", sim::pick(std::vector<std::string>{"discrepancy", "occupancy"}));
  set("slam/scmtch/MC/seed", std::to_string(sim::draw(1000)));
  set("slam/scmtch/MC/attempts_limit", "40");
  set("slam/scmtch/BF/x/from", "-0.15"); set("slam/scmtch/BF/x/to", "0.15"); set("slam/scmtch/BF/y/from", "-0.15"); set("slam/scmtch/BF/y/to", "0.15");
  set("slam/scmtch/BF_M3RSM/limits/x_translation", "0.2"); set("slam/scmtch/BF_M3RSM/limits/y_translation", "0.2"); set("slam/scmtch/BF_M3RSM/limits/rotation", "0.03");
  set("slam/scmtch/BF_M3RSM/accuracy/rotation", "0.01"); set("slam/scmtch/BF_M3RSM/accuracy/translation", "0.08");
  set("slam/mapping/grid/type", sim::pick(std::vector<std::string>{"unbounded_plain", "unbounded_lazy_tiled"}));
  set("slam/mapping/grid/area/type", sim::pick(std::vector<std::string>{"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"}));
  double loc = sim::real(0.3, 1), raw = sim::real(0.05, 0.9);
  set("slam/mapping/corrected_pose_quality", num(loc)); set("slam/mapping/raw_pose_quality", num(raw));
  loc = std::atof(num(loc).c_str()); raw = std::atof(num(raw).c_str());
  if (cred) { loc = 0.9; raw = 0.6; }
  if (sim::chance(1, 3)) set("slam/mapping/blur", num(sim::real(0.1, 0.5)));
  if (sim::chance(1, 4)) set("slam/mapping/max_range", num(sim::real(1, 5)));
  set("slam/map/height_in_meters", num(sim::real(0.5, 12))); set("slam/map/width_in_meters", num(sim::real(0.5, 12))); set("slam/map/meters_per_cell", num(std::max(0.1, w.scale)));
  auto world = cred ? init_credibilist_slam(props) : init_1h_slam(props);
  auto twin = cred ? init_grid_map(props, std::make_shared<CredibilistCell>()) : init_grid_map(props);
  auto twin_adder = init_scan_adder(props);
  struct Obs : GridScanMatcherObserver {
    RobotPose init{0, 0, 0}; RobotPoseDelta d{0, 0, 0}; uint64_t map = 0; int n = 0;
    void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &m) override { init = p; map = map_digest(m); }
    void on_matching_end(const RobotPose &p, const LaserScan2D &, double) override { d = RobotPoseDelta{p.x, p.y, p.theta}; ++n; }
  };
  auto obs = std::make_shared<Obs>(); world->add_sm_observer(obs);
  sim::log("matcher %s %s", sm.c_str(), cred ? "credibilist" : "1h");
  RobotPose truth{0, 0, 0}, ex{0, 0, 0};
  int scans = 2 + (int)sim::draw(5), corrected = 0, odd = 0;
  std::unique_ptr<TransformedLaserScan> last;
  for (int i = 0; i < scans; ++i) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    RobotPose next{truth.x + sim::sreal(0.25), truth.y + sim::sreal(0.25), truth.theta + sim::sreal(0.3)};
    if (std::fabs(next.x) > 0.8 || std::fabs(next.y) > 0.8) next = RobotPose{truth.x * 0.5, truth.y * 0.5, next.theta};
    TransformedLaserScan ts; ts.quality = 1; ts.pose_delta = next - truth; truth = next;
    ts.scan = gen_scan(w, truth);
    if (sim::chance(1, 5)) { ts.pose_delta += RobotPoseDelta{sim::sreal(0.15), sim::sreal(0.15), sim::sreal(0.05)}; ++odd; sim::fault("odometry_slip"); }
    if (last && sim::chance(1, 5)) { ts = *last; ts.scan = deep(last->scan, 0, last->scan.points().size()); ++odd; sim::fault("scan_duplicated"); }
    last = std::make_unique<TransformedLaserScan>(ts); last->scan = deep(ts.scan, 0, ts.scan.points().size());
    int n0 = obs->n; uint64_t tm = map_digest(*twin);
    world->handle_sensor_data(ts);
    EXPECT(obs->n == n0 + 1, "matched-once", "%d matchings for one scan", obs->n - n0);
    EXPECT(obs->map == tm, "mapped-before-matched", "the map changed before matching");
    ex += last->pose_delta;
    EXPECT(near(obs->init.x, ex.x) && near(obs->init.y, ex.y) && near(obs->init.theta, ex.theta), "pose", "matching of scan %d started from (%.9g,%.9g,%.9g), expected (%.9g,%.9g,%.9g)", i, obs->init.x, obs->init.y, obs->init.theta, ex.x, ex.y, ex.theta);
    ex += obs->d;
    const RobotPose &p = world->pose();
    EXPECT(near(p.x, ex.x) && near(p.y, ex.y) && near(p.theta, ex.theta), "pose", "pose (%.9g,%.9g,%.9g) after scan %d, expected (%.9g,%.9g,%.9g)", p.x, p.y, p.theta, i, ex.x, ex.y, ex.theta);
    double m = std::max({std::fabs(obs->d.x), std::fabs(obs->d.y), std::fabs(obs->d.theta)});
    if (0 < m && m < 1e-6) sim::finish_ok();
    double q = m > 0 ? loc : raw; corrected += m > 0;
    EXPECT(near(ts.quality, q), "quality", "scan quality %.9g, configured %.9g", ts.quality, q);
    twin_adder->append_scan(*twin, p, last->scan, ts.quality, 0);
    EXPECT(map_digest(world->map()) == map_digest(*twin), "map", "scan %d: the map is not the one with each scan added once at its corrected pose with its quality", i);
    sim::log("scan %d corr (%.4f,%.4f,%.4f) q %.3f", i, obs->d.x, obs->d.y, obs->d.theta, ts.quality);
    sim::hashd(p.x); sim::hashd(p.theta);
    sim::state((uint64_t)i * 100 + corrected);
  }
  if (corrected && scans > 2) sim::nontrivial();
}
