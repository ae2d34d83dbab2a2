// C06: multi-resolution matching finds the optimum and leaves the map alone.
#include "matching.h"

namespace {

struct Watch : GridScanMatcherObserver {
  int starts = 0, ends = 0; bool throw_start = false, throw_end = false;
  void on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &) override { ++starts; if (throw_start) { sim::fault("observer_exception"); throw Injected{}; } }
  void on_matching_end(const RobotPose &, const LaserScan2D &, double) override { ++ends; if (throw_end) { sim::fault("observer_exception"); throw Injected{}; } }
};

struct Cfg { SpeCfg spe; double xe, ye, te, astep, tstep; };

// offsets the search may end at in one dimension: corners and centres of the leaves
std::vector<double> lattice(double e, int halvings) {
  std::vector<double> r; int n = 1 << halvings;
  for (int i = 0; i <= 2 * n; ++i) r.push_back(-e + e * i / n);
  return r;
}
int halvings(double e, double step) { int n = 0; double len = 2 * e; while (step < len + 1e-15) { len /= 2; ++n; } return n; }

enum Space { EXPLORED, PARTIAL };

void run(Space space, bool faults) {
  Cfg c; c.spe = gen_spe(false); c.spe.oope = 1;   // the maximum estimator supplies upper bounds
  c.xe = sim::real(0.05, 0.7); c.ye = sim::chance(1, 2) ? c.xe : sim::real(0.05, 0.7); c.te = sim::real(0.01, 0.2);
  c.tstep = sim::real(0.15, 0.9) * std::min(c.xe, c.ye); c.astep = c.te * sim::real(0.3, 1.1);
  if (sim::chance(1, 3)) c.astep = c.te / (1 + (int)sim::draw(4));   // the ends of the sector are on the lattice
  bool wide = sim::chance(1, 6); if (wide) { c.te = sim::real(0.15, 0.4); c.astep = c.te / (1 + (int)sim::draw(3)); }
  World0 w = gen_world(); w.scale = sim::pick(std::vector<double>{0.25, 0.5, 0.3, 0.13, 0.1}); if (space == EXPLORED && w.scale < 0.2) w.scale = 0.2;
  int mk = sim::pick(std::vector<int>{MAP_M3_PLAIN, MAP_M3_LAZY, MAP_UPLAIN});
  int ck = gen_cell_kind(false);
  auto map = make_map(mk, make_cell(ck), GridMapParams{1 + (int)sim::draw(40), 1 + (int)sim::draw(40), w.scale}, c.spe.oie == 0);
  if (space == EXPLORED) {   // every cell a candidate can touch has been seen
    int r = (int)(10 / w.scale);
    AreaOccupancyObservation free{false, {0.1, 1.0}, {0, 0}, 1.0};
    for (int y = -r; y <= r; ++y) for (int x = -r; x <= r; ++x) map->update(Coord{x, y}, free);
  }
  fill_map(*map, w, 1 + (int)sim::draw(3));
  auto spe = std::make_shared<FaultySPE>(c.spe);
  auto mk_matcher = [&](std::shared_ptr<FaultySPE> s) { return std::make_unique<BruteForceMultiResolutionScanMatcher>(s, c.xe, c.ye, c.te, c.astep, c.tstep); };
  auto sm = mk_matcher(spe);
  auto obs = std::make_shared<Watch>(); sm->subscribe(obs);
  sim::log("%s, cell %s, map %s scale %.2f window %.3f %.3f %.3f steps %.3f %.3f", c.spe.str().c_str(), cell_name(ck), map_name(mk), w.scale, c.xe, c.ye, c.te, c.tstep, c.astep);
  int rounds = 1 + (int)sim::draw(3), moved = 0, aborted = 0;
  for (int r = 0; r < rounds; ++r) {
    sim::Span sp; sim::step();
    RobotPose truth = near_pose(0.5, 0.6), init{truth.x + sim::sreal(c.xe), truth.y + sim::sreal(c.ye), truth.theta + sim::sreal(c.te)};
    if (wide) init.theta = truth.theta + (sim::chance(1, 2) ? c.te : -c.te); else
    if (sim::chance(1, 3)) init.theta = truth.theta + (sim::chance(1, 2) ? c.te : -c.te) * sim::real(0.9, 1.2);    // the truth is at an end of the sector
    TransformedLaserScan ts; ts.pose_delta = RobotPoseDelta{0, 0, 0}; ts.quality = 1; ts.scan = gen_scan(w, truth);
    if (sim::chance(1, 5)) fill_map(*map, w, 1);
    uint64_t fine = map_digest(*map);
    if (sim::chance(1, 3)) { map->rescale(sim::real(0, 4)); sim::log("level of scale %.3f active", map->scale()); }
    uint64_t md = map_digest(*map), sd = scan_digest(ts.scan); double sc = map->scale();
    if (faults && sim::chance(2, 3)) {
      int how = (int)sim::draw(4); RobotPoseDelta junk{7, 7, 7}; bool threw = false;
      if (how == 0) spe->fail_at = spe->calls + 1 + (long)sim::draw(60);
      if (how == 1) obs->throw_start = true;
      if (how == 2) obs->throw_end = true;
      TransformedLaserScan other = ts; if (sim::chance(1, 2)) other.scan = gen_scan(w, near_pose(0.5, 0.5));
      try { sim::AllocFault af(how == 3 ? 1 + sim::draw(600) : 0); sm->process_scan(other, sim::chance(1, 2) ? init : near_pose(1, 1), *map, junk); }
      catch (Injected &) { threw = true; } catch (std::bad_alloc &) { threw = true; }
      spe->fail_at = 0; obs->throw_start = obs->throw_end = false;
      sim::log("interrupted matching (kind %d): %s", how, threw ? "aborted" : "completed"); aborted += threw;
      EXPECT(map->scale() == sc, "scale-leak", "an interrupted matching left scale %g active, was %g", map->scale(), sc);
      EXPECT(map_digest(*map) == md, "map-changed", "an interrupted matching changed the map");
    }
    RobotPoseDelta d{9, 9, 9};
    double score = sm->process_scan(ts, init, *map, d);
    RobotPose got{init.x + d.x, init.y + d.y, init.theta + d.theta};
    sim::log("round %d init %.4f %.4f %.4f -> delta %.5f %.5f %.5f score %.6f", r, init.x, init.y, init.theta, d.x, d.y, d.theta, score);
    sim::hashd(d.x); sim::hashd(d.y); sim::hashd(d.theta); sim::hashd(score);
    if (std::fabs(d.theta) > c.te - 1e-9) sim::probe("at_sector_end");
    EXPECT(map->scale() == sc, "scale-leak", "matching left scale %g active, was %g", map->scale(), sc);
    EXPECT(map_digest(*map) == md, "map-changed", "matching changed the map");
    EXPECT(scan_digest(ts.scan) == sd, "scan-changed", "matching changed the scan");
    EXPECT(std::fabs(d.x) <= c.xe + 1e-9 && std::fabs(d.y) <= c.ye + 1e-9 && std::fabs(d.theta) <= c.te + 1e-6, "outside-window", "correction (%g,%g,%g) for a window of (%g,%g,%g)", d.x, d.y, d.theta, c.xe, c.ye, c.te);
    map->rescale(0);
    EXPECT(map_digest(*map) == fine, "map-changed", "matching changed the finest level of the map");
    RefScore ref(c.spe, ts.scan, init, *map);
    EXPECT(ref.is_score_of(score, got), "wrong-score", "reported %.12g, the returned pose scores %.12g", score, ref.usable() ? ref.at(got.x, got.y, got.theta) : NAN);
    if (ref.usable()) {
      auto beats = [&](double x, double y, double t) {
        sim::checked();
        return ref.at(x, y, t) > score + 1e-5 && ref.around({x, y, t}).first > score + 1e-5;
      };
      if (beats(init.x, init.y, init.theta)) sim::fail("worse-than-initial", "score %.9f, the initial pose has %.9f", score, ref.at(init.x, init.y, init.theta));
      int hx = halvings(c.xe, c.tstep), hy = halvings(c.ye, c.tstep);
      auto lx = lattice(c.xe, hx), ly = lattice(c.ye, hy);
      for (double t = 0; t <= c.te + 1e-10; t += c.astep) for (int s = t == 0 ? 1 : -1; s <= 1; s += 2)
        for (size_t i = 0; i < lx.size(); ++i) for (size_t j = 0; j < ly.size(); ++j) {
          if ((i & 1) != (j & 1)) continue;   // corners have even, centres odd indices in both dimensions
          if (beats(init.x + lx[i], init.y + ly[j], init.theta + s * t))
            sim::fail("optimum-missed", "candidate (%.4f,%.4f,%.4f) has probability %.9f, the matcher returned %.9f", lx[i], ly[j], s * t, ref.at(init.x + lx[i], init.y + ly[j], init.theta + s * t), score);
        }
      if (score > ref.at(init.x, init.y, init.theta) + 1e-6) ++moved;
    } else EXPECT(d.x == 0 && d.y == 0 && d.theta == 0, "moved-without-evidence", "no usable point, but correction (%g,%g,%g)", d.x, d.y, d.theta);
    auto fspe = std::make_shared<FaultySPE>(c.spe); auto fresh = mk_matcher(fspe); RobotPoseDelta fd{5, 5, 5};
    TransformedLaserScan fts; fts.pose_delta = ts.pose_delta; fts.quality = 1; fts.scan.points() = ts.scan.points();
    double fs = fresh->process_scan(fts, init, *map, fd);
    EXPECT(same_bits(fs, score) && fd.x == d.x && fd.y == d.y && fd.theta == d.theta, "history-dependent", "(%.9g,%.9g,%.9g) score %.12g, a fresh matcher returns (%.9g,%.9g,%.9g) score %.12g",
           d.x, d.y, d.theta, score, fd.x, fd.y, fd.theta, fs);
    sim::state(mk * 1000 + (uint64_t)(std::isnan(score) ? 99 : score * 60));
  }
  if (moved && (faults ? aborted : rounds > 1 || moved)) sim::nontrivial();
}
}  // namespace

SCENARIO(search, "c06.search") { run(EXPLORED, false); }
SCENARIO(abort, "c06.aborts") { run(EXPLORED, true); }
SCENARIO(partial, "c06.partial") { run(PARTIAL, false); }
