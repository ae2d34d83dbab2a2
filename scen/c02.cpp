// C02: copies of a tiled map and particles never see each other's changes.
#include "common.h"
#include "core/scan_matchers/grid_scan_matcher.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_map_scan_adders.h"
#include "slams/gmapping/gmapping_particle_filter.h"

namespace {

struct Ref {
  std::map<Coord, std::shared_ptr<GridCell>, CoordLess> cells;   // cells are replaced, never mutated
};
const GridCell &ref_get(const Ref &r, const Coord &c, const GridCell &proto) {
  auto i = r.cells.find(c); return i == r.cells.end() ? proto : *i->second;
}

template <typename M> struct Copies {
  struct Item { std::unique_ptr<M> map; Ref ref; int id; };
  std::shared_ptr<GridCell> proto;
  std::vector<Item> items;
  int next_id = 0;

  void check_at(const Coord &c, const char *when) {
    for (auto &it : items) {
      const GridCell &a = (*it.map)[c], &b = ref_get(it.ref, c, *proto);
      sim::checked();
      if (!same_cell(a, b)) sim::fail("leak-between-copies", "copy %d cell (%d,%d) %s: has %s, its own history wrote %s", it.id, c.x, c.y, when, str(a).c_str(), str(b).c_str());
    }
  }
  void check_full(const char *when) {
    std::set<Coord, CoordLess> all;
    for (auto &it : items) for (auto &kv : it.ref.cells) all.insert(kv.first);
    for (auto &c : all) check_at(c, when);
  }
};

template <typename M> void copies_run(bool unbounded, bool faults) {
  int ck = (int)sim::draw(CELL_KINDS);
  Copies<M> s; s.proto = make_cell(ck);
  static const std::vector<int> sizes{1, 10, 128, 129, 200, 300, 513};
  GridMapParams p{sim::pick(sizes), sim::pick(sizes), 0.1};
  auto shared_proto = make_cell(ck);
  { typename Copies<M>::Item it; it.map = std::make_unique<M>(shared_proto, p); it.id = s.next_id++; s.items.push_back(std::move(it)); }
  sim::log("%s %dx%d cell %s", unbounded ? "unbounded" : "bounded", p.width_cells, p.height_cells, cell_name(ck));
  int ops = 5 + (int)sim::draw(60), copies = 0, writes = 0;
  int reach = sim::pick(std::vector<int>{3, 60, 200, 600});
  for (int i = 0; i < ops; ++i) {
    sim::Span sp; sim::step();
    size_t a = sim::draw((uint32_t)s.items.size());
    int op = sim::weighted({60, 14, 8, 6, 4, 4});
    if (op == 0) {
      auto &it = s.items[a];
      Coord c;
      if (!unbounded) { Coord o = it.map->origin(); c = Coord{(int)sim::draw(it.map->width()) - o.x, (int)sim::draw(it.map->height()) - o.y}; }
      else c = Coord{sim::around(reach), sim::around(reach)};
      if (!it.ref.cells.empty() && sim::chance(1, 3)) { auto q = it.ref.cells.begin(); std::advance(q, sim::draw((uint32_t)it.ref.cells.size())); c = q->first; }
      else if (sim::chance(1, 3)) {   // a cell some other copy has written
        size_t b = sim::draw((uint32_t)s.items.size());
        if (!s.items[b].ref.cells.empty()) { auto q = s.items[b].ref.cells.begin(); std::advance(q, sim::draw((uint32_t)s.items[b].ref.cells.size())); c = q->first; }
      }
      bool is_reset = sim::chance(1, 5);
      auto aoo = gen_aoo(true);
      std::unique_ptr<GridCell> fresh = make_cell(ck)->clone();
      if (is_reset) *fresh += aoo;
      std::shared_ptr<GridCell> before = ref_get(it.ref, c, *s.proto).clone(), after = before->clone();
      if (is_reset) after = fresh->clone(); else *after += aoo;
      uint64_t kth = faults && sim::chance(1, 3) ? 1 + sim::draw(6) : 0;
      bool threw = false;
      { sim::AllocFault af(kth);
        try { if (is_reset) it.map->reset(c, *fresh); else it.map->update(c, aoo); } catch (std::bad_alloc &) { threw = true; } }
      sim::log("%s copy %d (%d,%d) p=%.5f%s", is_reset ? "reset" : "update", it.id, c.x, c.y, aoo.occupancy.prob_occ, threw ? " -> bad_alloc" : "");
      ++writes;
      if (threw) {
        const GridCell &now = (*it.map)[c];
        if (same_cell(*before, *after)) { s.check_full("after a failed write"); break; }
        if (same_cell(now, *after)) it.ref.cells[c] = after;
        else if (!same_cell(now, *before)) sim::fail("torn-write", "failed write left %s", str(now).c_str());
        s.check_full("after a failed write");
      } else {
        it.ref.cells[c] = after;
        s.check_at(c, "after a write");
      }
    } else if (op == 1 && s.items.size() < 7) {
      typename Copies<M>::Item it;
      uint64_t kth = faults && sim::chance(1, 4) ? 1 + sim::draw(3) : 0;
      bool threw = false;
      { sim::AllocFault af(kth);
        try { it.map = std::make_unique<M>(*s.items[a].map); } catch (std::bad_alloc &) { threw = true; } }
      sim::log("copy %d -> %d%s", s.items[a].id, s.next_id, threw ? " bad_alloc" : "");
      if (!threw) { it.ref = s.items[a].ref; it.id = s.next_id++; s.items.push_back(std::move(it)); ++copies; sim::probe("copy"); }
      s.check_full("after copying");
    } else if (op == 2) {
      size_t b = sim::draw((uint32_t)s.items.size());
      sim::log("assign %d = %d", s.items[b].id, s.items[a].id);
      *s.items[b].map = *s.items[a].map;
      s.items[b].ref = s.items[a].ref;
      ++copies; sim::probe(a == b ? "self_assign" : "assign");
      s.check_full("after assignment");
    } else if (op == 3 && s.items.size() > 1) {
      sim::log("destroy %d", s.items[a].id);
      s.items.erase(s.items.begin() + a);
      s.check_full("after destruction");
    } else if (op == 4) {
      sim::log("move-construct %d", s.items[a].id);
      auto m = std::make_unique<M>(std::move(*s.items[a].map));
      s.items[a].map = std::move(m);
      s.check_full("after a move");
    } else if (op == 5 && s.items.size() > 1) {
      size_t b = sim::draw((uint32_t)s.items.size());
      if (a == b) continue;
      sim::log("move-assign %d = %d", s.items[b].id, s.items[a].id);
      *s.items[b].map = std::move(*s.items[a].map);
      s.items[b].ref = s.items[a].ref;
      s.items.erase(s.items.begin() + a);
      s.check_full("after a move");
    }
    uint64_t h = unbounded; for (auto &it : s.items) h = h * 1000003 + it.ref.cells.size(); sim::state(h);
  }
  s.check_full("at the end");
  // a never written window around the origin stays unknown in every copy
  for (auto &it : s.items) {
    Coord o = it.map->origin();
    for (int k = 0; k < 3000; ++k) {
      Coord c{(int)((k * 7919LL) % it.map->width()) - o.x, (int)((k * 104729LL) % it.map->height()) - o.y};
      if (!it.ref.cells.count(c)) EXPECT((*it.map)[c].is_unknown(), "invented-content", "copy %d: never written (%d,%d) is known", it.id, c.x, c.y);
    }
    for (auto &kv : it.ref.cells) hash_cell(*kv.second);
  }
  if (copies && writes > 3) sim::nontrivial();
}

}  // namespace

SCENARIO(copies, "c02.copies") { if (sim::chance(1, 3)) copies_run<LazyTiledGridMap>(false, false); else copies_run<UnboundedLazyTiledGridMap>(true, false); }
SCENARIO(copies_oom, "c02.copies_oom") { if (sim::chance(1, 3)) copies_run<LazyTiledGridMap>(false, true); else copies_run<UnboundedLazyTiledGridMap>(true, true); }

// ---------------------------------------------------------------------------
// Particles: a scripted scan matcher decides every particle's correction and
// score, so lineages are known; maps are rebuilt from each lineage's history.
namespace {

struct ScriptedMatcher : GridScanMatcher {
  struct Call { RobotPose pose; const GridMap *map; };
  std::vector<Call> calls;                       // of the current scan, in particle order
  std::function<double(size_t, const RobotPose &, const GridMap &, RobotPoseDelta &)> script;
  ScriptedMatcher() : GridScanMatcher{nullptr} {}
  double process_scan(const TransformedLaserScan &, const RobotPose &pose, const GridMap &map, RobotPoseDelta &d) override {
    calls.push_back({pose, &map});
    return script(calls.size() - 1, pose, map, d);
  }
};

struct Obs { RobotPose pose; std::shared_ptr<LaserScan2D> scan; double quality; };
struct Lineage { RobotPose pose; std::vector<Obs> obs; };

std::shared_ptr<GridMapScanAdder> make_adder() {
  return WallDistanceBlurringScanAdder::builder()
      .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1.0}, Occupancy{0.01, 1.0}))
      .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
}

}  // namespace

SCENARIO(particles, "c02.particles") {
  unsigned n = 2 + sim::draw(7);
  GridMapParams gp{1 + (int)sim::draw(60), 1 + (int)sim::draw(60), 0.2};
  auto map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), gp);
  auto sm = std::make_shared<ScriptedMatcher>();
  auto adder = make_adder();
  SingleStateHypothesisLSGWProperties props{1.0, 1.0, 0, map, sm, adder};
  GMappingParams gprms{0, 0, 0, 0, 0, 0, 0, 0};   // no noise, every scan is matched
  sim::set_entropy(sim::draw(1 << 20));
  auto pf = std::make_unique<GmappingParticleFilter>(props, gprms, n);
  std::vector<Lineage> lin(n);   // by particle order of the last scan
  sim::log("particles %u", n);
  int scans = 2 + (int)sim::draw(10), resamples = 0;
  double odo_th_total = 0;
  std::vector<Lineage> prev;
  auto verify_map = [&](const GridMap &m, const Lineage &l, const char *when) {
    UnboundedLazyTiledGridMap fresh{std::make_shared<GmappingBaseCell>(), gp};
    for (auto &o : l.obs) adder->append_scan(fresh, o.pose, *o.scan, o.quality, 0);
    for (auto &p : lin) for (auto &o : p.obs) {
      Coord c0 = fresh.world_to_cell(o.pose.x, o.pose.y);
      for (int dx = -8; dx <= 8; dx += 1) for (int dy = -8; dy <= 8; dy += 1) {
        Coord c{c0.x + dx, c0.y + dy};
        sim::checked();
        if (!same_cell(m[c], fresh[c]))
          sim::fail("particle-map-leak", "%s: particle at (%.2f,%.2f) cell (%d,%d) has %s, its own history gives %s", when, l.pose.x, l.pose.y, c.x, c.y,
                    str(m[c]).c_str(), str(fresh[c]).c_str());
      }
    }
  };
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    TransformedLaserScan scan;
    int npts = 1 + (int)sim::draw(4);
    for (int i = 0; i < npts; ++i)
      scan.scan.points().push_back(ScanPoint2D::make_polar(sim::real(0.3, 1.4), sim::real(-3, 3), sim::chance(3, 4)));
    // translation large enough that the filter considers resampling
    scan.pose_delta = RobotPoseDelta{sim::chance(2, 3) ? sim::real(0.8, 2.0) : sim::real(0.0, 0.1), sim::sreal(0.3), 0};
    scan.quality = sim::chance(1, 2) ? 1.0 : sim::real(0.2, 0.9);
    int mode = (int)sim::draw(3);    // even / one dominates / some zero
    size_t hero = sim::draw(n);
    sm->calls.clear();
    std::vector<Lineage> cur(n);
    std::vector<bool> used(lin.size(), false);
    std::vector<double> score(n); std::vector<RobotPoseDelta> delta(n);
    for (unsigned i = 0; i < n; ++i) {
      score[i] = mode == 0 ? sim::real(0.4, 0.6) : mode == 1 ? (i == hero ? 0.9 : sim::real(0.001, 0.01)) : (sim::chance(1, 2) || i == hero ? sim::real(0.3, 0.9) : 0.0);
      // unique corrections: particles get well separated identities
      delta[i] = RobotPoseDelta{s == 0 ? 0.0 : sim::sreal(0.02), s == 0 ? (int(i) - int(n) / 2) * 6.0 + sim::real(0, 1) : sim::sreal(0.02), 0};
    }
    auto sc = std::make_shared<LaserScan2D>(); sc->points() = scan.scan.points();
    sm->script = [&](size_t i, const RobotPose &pose, const GridMap &m, RobotPoseDelta &d) {
      if (i >= n) sim::fail("too-many-matchings", "more matchings than particles in one scan");
      // which ancestor? pose before odometry identifies it
      RobotPose before{pose.x - scan.pose_delta.x, pose.y - scan.pose_delta.y, pose.theta - scan.pose_delta.theta};
      size_t best = 0; double bd = 1e18;
      for (size_t k = 0; k < lin.size(); ++k) {
        double dd = std::hypot(lin[k].pose.x - before.x, lin[k].pose.y - before.y);
        if (dd < bd) { bd = dd; best = k; }
      }
      EXPECT(bd < 1e-6, "duplicate-pose", "scan %d: particle %zu starts at (%.4f,%.4f), which is no particle's previous pose", s, i, before.x, before.y);
      if (s > 0 && used[best]) { ++resamples; sim::probe("duplicate_particle"); }
      used[best] = true;
      cur[i] = lin[best];
      verify_map(m, lin[best], "before integration");
      d = delta[i];
      cur[i].pose = RobotPose{pose.x + d.x, pose.y + d.y, pose.theta + d.theta};
      // zero-score scans are not integrated except the very first
      if (score[i] > 0 || lin[best].obs.empty()) cur[i].obs.push_back({cur[i].pose, sc, scan.quality});
      return score[i];
    };
    sim::log("scan %d mode %d hero %zu pts %d dx %.3f", s, mode, hero, npts, scan.pose_delta.x);
    pf->handle_sensor_data(scan);
    EXPECT(sm->calls.size() == n, "particle-count", "scan %d: %zu particles matched, %u configured", s, sm->calls.size(), n);
    lin = cur;
    sim::hash(resamples);
    // reported map belongs to the reported pose
    const RobotPose &rp = pf->pose();
    bool found = false;
    for (auto &l : lin) if (std::hypot(l.pose.x - rp.x, l.pose.y - rp.y) < 1e-6) { verify_map(pf->map(), l, "reported map"); found = true; break; }
    EXPECT(found, "reported-pose", "scan %d: reported pose (%.4f,%.4f) is no particle's pose", s, rp.x, rp.y);
    uint64_t h = n; for (auto &l : lin) h = h * 31 + l.obs.size(); sim::state(h * 7 + resamples);
  }
  if (scans >= 3 && resamples) sim::nontrivial();
  if (sim::chance(1, 2)) { auto keep = pf->world().pose(); pf.reset(); sim::hashd(keep.x); }
}

// The resampling step itself, with particles carrying an observable payload.
namespace {
struct Payload : Particle { std::shared_ptr<int> own = std::make_shared<int>(0); int value = 0, samplings = 0;
  void sample() override { ++samplings; own = std::make_shared<int>(*own); } };
struct PayloadFactory : ParticleFactory<Payload> { std::shared_ptr<Payload> create_particle() override { return std::make_shared<Payload>(); } };
}  // namespace

SCENARIO(filter, "c02.filter") {
  unsigned n = 2 + sim::draw(30);
  ParticleFilter<Payload> pf{std::make_shared<PayloadFactory>(), n};
  sim::set_entropy(sim::draw(1 << 24));
  int next = 1, dups = 0, rounds = 1 + (int)sim::draw(10);
  for (auto &p : pf.particles()) { p->value = next++; *p->own = p->value; }
  for (int r = 0; r < rounds; ++r) {
    sim::Span sp; sim::step();
    size_t hero = sim::draw(n);
    double tot = 0;
    for (unsigned i = 0; i < n; ++i) { auto &p = pf.particles()[i]; p->set_weight(i == hero ? 1.0 : sim::chance(1, 3) ? 0.0 : sim::real(0, 0.2)); tot += p->weight(); }
    std::map<int, double> w; for (auto &p : pf.particles()) w[p->value] = p->weight();
    pf.normalize_weights();
    bool did = pf.try_resample();
    double sum = 0; for (auto &p : pf.particles()) sum += w[p->value];
    sim::log("round %d n %u resampled %d", r, n, did); for (auto &kv : w) sim::hashd(kv.second);
    std::map<int, int> seen; std::set<int *> boxes;
    for (auto &p : pf.particles()) {
      EXPECT(w.count(p->value) && *p->own == p->value, "duplicate-state", "particle holds value %d/%d after resampling", p->value, *p->own);
      double want = did ? w[p->value] / sum : w[p->value] / tot;
      EXPECT(std::fabs(p->weight() - want) < 1e-9, "duplicate-weight", "round %d: particle %d has weight %.12f, its source's share is %.12f", r, p->value, p->weight(), want);
      if (seen[p->value]++) { ++dups; sim::probe("duplicate_particle"); }
      EXPECT(boxes.insert(p->own.get()).second, "shared-state", "two particles share the state of %d", p->value);
    }
    // from now on they are independent
    for (auto &p : pf.particles()) { p->value = next++; *p->own = p->value; }
    for (auto &p : pf.particles()) EXPECT(*p->own == p->value, "shared-state", "writing one particle changed another: %d vs %d", *p->own, p->value);
    uint64_t h = n; for (auto &kv : seen) h = h * 31 + kv.second; sim::state(h);
  }
  if (dups) sim::nontrivial();
}
