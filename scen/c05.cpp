// C05: coarse levels of a multi-resolution map never under-estimate the finest
// level.  Real: M3RSMRescalableGridMap over both unbounded back maps, all cell
// models, both impact estimators, serialization.  Simulated: the observation
// history, growth pattern, scale switches of concurrent readers, restarts.
#include "common.h"

namespace {

struct Multi {   // uniform access to the two instantiations
  std::unique_ptr<M3RSMRescalableGridMap<UnboundedPlainGridMap>> p;
  std::unique_ptr<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>> l;
  GridMap &m() { return p ? (GridMap &)*p : (GridMap &)*l; }
  unsigned levels() { return p ? p->scales_nm() : l->scales_nm(); }
  unsigned id() { return p ? p->scale_id() : l->scale_id(); }
  void level(unsigned k) { if (p) p->set_scale_id(k); else l->set_scale_id(k); }
  bool validate() { return p ? p->validate() : l->validate(); }
};
Multi make_multi(bool lazy, int ck, bool disc, const GridMapParams &prm) {
  Multi r;
  if (lazy) r.l = std::make_unique<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(make_oie(disc), make_cell(ck), prm);
  else r.p = std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(make_oie(disc), make_cell(ck), prm);
  return r;
}

using Known = std::set<Coord, CoordLess>;

struct Spec {
  std::shared_ptr<ObservationImpactEstimator> oie;
  double impact(const GridCell &c) const { return oie->estimate_obstacle_impact(c); }
  // the structural half: scales double up to one level covering the plane
  void levels(Multi &mm, double fine_scale) const {
    unsigned n = mm.levels();
    EXPECT(n >= 2, "no-coarsest-level", "%u levels", n);
    double prev = 0;
    for (unsigned k = 0; k < n; ++k) {
      mm.level(k); double s = mm.m().scale();
      EXPECT(s > prev, "level-order", "level %u has scale %g after %g", k, s, prev);
      if (k == 0) EXPECT(s == fine_scale, "finest-scale", "finest scale %g, configured %g", s, fine_scale);
      prev = s;
    }
    EXPECT(std::isinf(prev), "no-coarsest-level", "the coarsest level has scale %g and does not cover the plane", prev);
    auto a = mm.m().world_to_cell(1e5, -1e5), b = mm.m().world_to_cell(-1e5, 1e5);
    EXPECT(a.x == b.x && a.y == b.y && mm.m().width() == 1 && mm.m().height() == 1, "no-coarsest-level", "several coarsest cells");
    mm.level(0);
  }
  void cell(Multi &mm, const Coord &c, const char *when) const {
    mm.level(0);
    const GridCell &f = mm.m()[c];
    if (f.is_unknown()) return;
    double fi = impact(f); auto w = mm.m().cell_to_world(c);
    for (unsigned k = 1, n = mm.levels(); k < n; ++k) {
      mm.level(k);
      Coord cc = mm.m().world_to_cell(w);
      double ci = impact(mm.m()[cc]);   // impacts closer than 1e-7 count as equal, once per level
      sim::checked();
      if (!(ci >= fi - 2e-6)) {
        bool blank = mm.m()[cc].is_unknown(); mm.level(0);
        sim::fail(blank ? "bound-lost-level" : "bound-violated", "%s: cell (%d,%d) has impact %.9f, level %u of %u area (%d,%d) only %.9f", when, c.x, c.y, fi, k, n, cc.x, cc.y, ci);
      }
    }
    mm.level(0);
  }
};

}  // namespace

SCENARIO(levels, "c05.levels") {
  bool lazy = sim::chance(1, 2), disc = sim::chance(1, 2);
  int ck = (int)sim::draw(CELL_KINDS);
  static const std::vector<int> sizes{1, 2, 3, 5, 8, 13, 16, 17, 33, 64, 100};
  GridMapParams prm{sim::pick(sizes), sim::pick(sizes), sim::chance(1, 2) ? 0.1 : sim::real(0.02, 1.0)};
  Multi mm = make_multi(lazy, ck, disc, prm);
  std::unique_ptr<GridMap> twin;   // the finest level alone
  if (lazy) twin = std::make_unique<UnboundedLazyTiledGridMap>(make_cell(ck), prm); else twin = std::make_unique<UnboundedPlainGridMap>(make_cell(ck), prm);
  Spec spec{make_oie(disc)};
  sim::log("m3rsm over %s %dx%d scale %.4f cell %s impact %s", lazy ? "lazy" : "plain", prm.width_cells, prm.height_cells, prm.meters_per_cell, cell_name(ck), disc ? "discrepancy" : "occupancy");
  Known known; int growths = 0, restarts = 0, inserted = 0;
  int ops = 3 + (int)sim::draw(40); int reach = sim::pick(std::vector<int>{3, 12, 30, 70, lazy ? 400 : 90});
  spec.levels(mm, prm.meters_per_cell);
  for (int i = 0; i < ops; ++i) {
    sim::Span sp; sim::step();
    unsigned l0 = mm.levels(); int w0 = mm.m().width(), h0 = mm.m().height();
    int op = lazy ? sim::weighted({20, 3, 3}) : sim::weighted({20, 3, 3, 2});   // tiled maps do not support saving
    bool all = false;
    if (op <= 1) {
      Coord c;
      if (sim::chance(1, 3)) {
        Coord o = mm.m().origin();
        c = sim::chance(1, 2) ? Coord{sim::chance(1, 2) ? -o.x - 1 - (int)sim::draw(3) : w0 - o.x + (int)sim::draw(3), sim::around(6)}
                              : Coord{sim::around(6), sim::chance(1, 2) ? -o.y - 1 - (int)sim::draw(3) : h0 - o.y + (int)sim::draw(3)};
        if (!lazy && (std::abs(c.x) > 110 || std::abs(c.y) > 110)) c = Coord{sim::around(20), sim::around(20)};
      } else if (!known.empty() && sim::chance(1, 3)) { auto it = known.begin(); std::advance(it, sim::draw((uint32_t)known.size())); c = Coord{it->x + (int)sim::draw(2), it->y}; }
      else c = Coord{sim::around(reach), sim::around(reach)};
      auto aoo = gen_aoo(ck != CELL_BASE);
      if (op == 0) { mm.m().update(c, aoo); twin->update(c, aoo); sim::log("update (%d,%d) %.4f q %.3f", c.x, c.y, aoo.occupancy.prob_occ, aoo.quality); }
      else {
        auto cell = make_cell(ck)->clone(); *cell += aoo;
        mm.m().reset(c, *cell); twin->reset(c, *cell); sim::log("reset (%d,%d) %.4f", c.x, c.y, cell->occupancy().prob_occ);
      }
      known.insert(c);
      spec.cell(mm, c, "right after its write");
    } else if (op == 2) {   // a reader works on some other level and comes back
      unsigned k = sim::draw(mm.levels()); mm.level(k);
      double target = sim::real(0, 40) * prm.meters_per_cell;
      { SafeRescalableMap g{mm.m()}; GridMap &r = g; r.rescale(target); EXPECT(r.scale() >= target, "rescale", "asked for a cell of %g, got %g", target, r.scale()); if (sim::chance(1, 2)) r.rescale(sim::real(0, 5)); }
      EXPECT(mm.id() == k, "scale-leak", "a reader left level %u active, found %u", mm.id(), k);
      mm.level(0); sim::log("reader on level %u, rescale %.3f", k, target);
    } else {   // crash after a completed save, restart from it
      unsigned k = sim::draw(mm.levels()); mm.level(k);
      auto data = mm.m().save_state(); auto td = twin->save_state();
      Multi nm = make_multi(lazy, ck, disc, GridMapParams{1 + (int)sim::draw(20), 1 + (int)sim::draw(20), sim::real(0.02, 1)});
      if (sim::chance(1, 2)) nm.m().update(Coord{sim::around(15), sim::around(15)}, gen_aoo());   // state of a previous life
      nm.m().load_state(data); mm = std::move(nm); twin->load_state(td); mm.level(0);
      sim::fault("crash_restart"); ++restarts; all = true; sim::log("restart from %zu bytes", data.size());
    }
    bool grew = w0 != mm.m().width() || h0 != mm.m().height();
    growths += grew; if (mm.levels() > l0) { ++inserted; sim::probe("levels_inserted"); }
    if (grew || all || i + 1 == ops) {
      spec.levels(mm, prm.meters_per_cell);
      for (auto &c : known) spec.cell(mm, c, grew ? "after growth" : all ? "after restart" : "at the end");
    } else { int k = 0; for (auto &c : known) if ((++k + i) % 4 == 0) spec.cell(mm, c, "later"); }
    if (i % 8 == 0 || i + 1 == ops) {
      EXPECT(mm.m().width() == twin->width() && mm.m().height() == twin->height() && mm.m().scale() == twin->scale(), "finest-extent", "finest level is %dx%d, the observations alone give %dx%d", mm.m().width(), mm.m().height(), twin->width(), twin->height());
      for (auto &c : known) EXPECT(same_cell(mm.m()[c], (*twin)[c]), "finest-content", "cell (%d,%d): %s, the observations made %s", c.x, c.y, str(mm.m()[c]).c_str(), str((*twin)[c]).c_str());
    }
    sim::state(mm.levels() * 1000 + mm.m().width() * 31 + mm.m().height());
    sim::hash(mm.levels());
  }
  if (known.size() >= 3 && (inserted || restarts)) sim::nontrivial();
}
