// C03: saved maps restore exactly and continue as if never interrupted.
// Real: both map kinds that support saving, all cell models, serialization.
// Simulated: the history, the crash and restart instants, the shape of the map
// the fresh process starts with.
#include "common.h"

namespace {

using PlainM3 = M3RSMRescalableGridMap<UnboundedPlainGridMap>;

struct Op { bool reset; Coord c; AreaOccupancyObservation aoo; int touches, reps; };

struct Sys {   // one life of the map owner
  std::unique_ptr<UnboundedPlainGridMap> u;
  std::unique_ptr<PlainM3> p;
  GridMap &m() { return u ? (GridMap &)*u : (GridMap &)*p; }
  unsigned levels() { return u ? 1 : p->scales_nm(); }
  void level(unsigned k) { if (p) p->set_scale_id(k); }
};
struct Cfg { bool multi, disc; int ck; GridMapParams prm; };
Sys make(const Cfg &c, const GridMapParams &prm) {
  Sys s;
  if (c.multi) s.p = std::make_unique<PlainM3>(make_oie(c.disc), make_cell(c.ck), prm);
  else s.u = std::make_unique<UnboundedPlainGridMap>(make_cell(c.ck), prm);
  return s;
}
std::unique_ptr<GridCell> op_cell(const Cfg &cf, const Op &o) {
  auto c = make_cell(cf.ck)->clone();
  for (int i = 0; i < o.touches; ++i) *c += o.aoo;
  return c;
}
void apply(const Cfg &cf, Sys &s, const Op &o) {
  if (o.reset) s.m().reset(o.c, *op_cell(cf, o));
  else for (int i = 0; i < o.reps; ++i) s.m().update(o.c, o.aoo);
}

struct Probe { std::vector<AreaOccupancyObservation> obs; };

// the hidden evidence of a cell, as far as it can be observed
bool same_hidden(const GridCell &a, const GridCell &b, const Probe &pr, std::string &why) {
  for (auto &o : pr.obs) {
    double x = a.discrepancy(o), y = b.discrepancy(o);
    if (!same_bits(x, y)) { char t[120]; snprintf(t, sizeof t, "discrepancy to an observation %.12g, uninterrupted %.12g", x, y); why = t; return false; }
  }
  auto ca = a.clone(), cb = b.clone();
  for (auto &o : pr.obs) {
    *ca += o; *cb += o;
    if (!same_cell(*ca, *cb)) { why = "one more observation gives " + str(*ca) + ", uninterrupted " + str(*cb); return false; }
  }
  return true;
}

void compare(const Cfg &cf, Sys &got, Sys &ref, const Probe &pr, bool deep, const char *when) {
  EXPECT(got.levels() == ref.levels(), "levels-differ", "%s: %u levels, uninterrupted %u", when, got.levels(), ref.levels());
  for (unsigned k = 0; k < ref.levels(); ++k) {
    got.level(k); ref.level(k);
    GridMap &a = got.m(), &b = ref.m();
    EXPECT(a.width() == b.width() && a.height() == b.height(), "extent-differs", "%s: level %u is %dx%d, uninterrupted %dx%d", when, k, a.width(), a.height(), b.width(), b.height());
    EXPECT(a.origin().x == b.origin().x && a.origin().y == b.origin().y, "origin-differs", "%s: level %u origin (%d,%d), uninterrupted (%d,%d)", when, k, a.origin().x, a.origin().y, b.origin().x, b.origin().y);
    EXPECT(same_bits(a.scale(), b.scale()), "scale-differs", "%s: level %u scale %.17g, uninterrupted %.17g", when, k, a.scale(), b.scale());
    Coord o = b.origin(); long n = 0;
    for (int y = -1; y <= b.height(); ++y) for (int x = -1; x <= b.width(); ++x) {
      Coord c{x - o.x, y - o.y};
      const GridCell &ca = a[c], &cb = b[c];
      sim::checked();
      if (!same_cell(ca, cb)) sim::fail("content-differs", "%s: %s level %u cell (%d,%d) %s, uninterrupted %s", when, cell_name(cf.ck), k, c.x, c.y, str(ca).c_str(), str(cb).c_str());
      if (cb.is_unknown() && (++n % 64 || !deep)) continue;
      std::string why;
      if (deep && !same_hidden(ca, cb, pr, why)) sim::fail("hidden-state-differs", "%s: %s level %u cell (%d,%d): %s", when, cell_name(cf.ck), k, c.x, c.y, why.c_str());
    }
    // the world <-> cell transformation follows from origin and scale
    if (std::isfinite(b.scale())) { Point2D q{3.3 * b.scale(), -1.7 * b.scale()}; EXPECT(a.world_to_cell(q.x, q.y) == b.world_to_cell(q.x, q.y), "scale-differs", "%s: level %u maps a point to another cell", when, k); }
  }
  got.level(0); ref.level(0);
}

}  // namespace

SCENARIO(restart, "c03.restart") {
  Cfg cf; cf.multi = sim::chance(1, 2); cf.disc = sim::chance(1, 2); cf.ck = (int)sim::draw(CELL_KINDS);
  static const std::vector<int> sizes{1, 2, 3, 5, 7, 10, 16, 17, 30, 64};
  cf.prm = GridMapParams{sim::pick(sizes), sim::pick(sizes), sim::chance(1, 2) ? 0.1 : sim::real(0.02, 1.5)};
  if (sim::chance(1, 30)) { cf.prm.width_cells = 200 + (int)sim::draw(100); cf.prm.height_cells = 200 + (int)sim::draw(100); sim::probe("large_map"); }
  sim::log("%s %dx%d scale %.4f cell %s", cf.multi ? "m3rsm" : "plain", cf.prm.width_cells, cf.prm.height_cells, cf.prm.meters_per_cell, cell_name(cf.ck));
  Sys cur = make(cf, cf.prm), ref = make(cf, cf.prm);
  Probe pr; for (int i = 0; i < 3; ++i) pr.obs.push_back(gen_aoo());
  std::vector<Op> hist;
  std::vector<char> disk; size_t disk_ops = 0; bool saved = false;
  int ops = 2 + (int)sim::draw(36), reach = sim::pick(std::vector<int>{2, 6, 15, 40, 80}), restarts = 0, writes = 0, after = 0;
  std::vector<Coord> used;
  for (int i = 0; i < ops; ++i) {
    sim::Span sp; sim::step();
    int what = sim::weighted({18, 3, 5});
    if (what == 0) {
      Op o; o.reset = sim::chance(1, 6); o.touches = (int)sim::draw(3); o.reps = 1;
      if (sim::chance(1, 14)) { o.reps = o.touches = sim::pick(std::vector<int>{9, 30, 110, 300}); sim::probe("cell_seen_many_times"); }  // a wall watched for long
      Coord og = cur.m().origin();
      switch (sim::weighted({4, 4, 2})) {
      case 0: o.c = Coord{sim::around(reach), sim::around(reach)}; break;
      case 1: o.c = used.empty() ? Coord{0, 0} : used[sim::draw((uint32_t)used.size())]; break;
      default: o.c = Coord{sim::chance(1, 2) ? -og.x - 1 - (int)sim::draw(3) : cur.m().width() - og.x + (int)sim::draw(3), sim::around(6)}; break;
      }
      if (std::abs(o.c.x) > 100 || std::abs(o.c.y) > 100) o.c = Coord{sim::around(20), sim::around(20)};
      o.aoo = gen_aoo(cf.ck != CELL_BASE);
      apply(cf, cur, o); apply(cf, ref, o); hist.push_back(o); used.push_back(o.c); ++writes; after += restarts > 0;
      sim::log("%s (%d,%d) %.4f q %.3f", o.reset ? "reset" : "update", o.c.x, o.c.y, o.aoo.occupancy.prob_occ, o.aoo.quality);
    } else if (what == 1 || !saved) {
      unsigned k = sim::draw(cur.levels()); cur.level(k);   // also while a reader works on another level
      auto a = cur.m().save_state(), b = cur.m().save_state();
      EXPECT(a == b, "unstable-save", "two saves in a row differ");
      cur.level(0);
      compare(cf, cur, ref, pr, false, "after saving");
      disk = a; disk_ops = hist.size(); saved = true; sim::log("save: %zu bytes", a.size());
    } else {
      // crash: everything since the last completed save is gone
      if (disk_ops < hist.size()) {
        hist.resize(disk_ops); sim::fault("lost_tail");
        ref = make(cf, cf.prm); for (auto &o : hist) apply(cf, ref, o);
      }
      Sys nm = make(cf, GridMapParams{1 + (int)sim::draw(40), 1 + (int)sim::draw(40), sim::real(0.02, 2.0)});
      if (sim::chance(1, 2)) { int n = 1 + (int)sim::draw(3); for (int j = 0; j < n; ++j) nm.m().update(Coord{sim::around(25), sim::around(25)}, gen_aoo()); }
      if (sim::chance(1, 3)) nm.level(sim::draw(nm.levels()));
      nm.m().load_state(disk);
      EXPECT(same_bits(nm.m().scale(), ref.m().scale()), "scale-differs", "scale %.17g right after loading, saved %.17g", nm.m().scale(), ref.m().scale());
      nm.level(0);
      cur = std::move(nm); ++restarts; sim::fault("crash_restart"); sim::log("crash, restart with %zu operations", hist.size());
      compare(cf, cur, ref, pr, true, "after a restart");
      EXPECT(cur.m().save_state() == disk, "resave-differs", "saving the restored map gives other bytes");
    }
    sim::state(((uint64_t)cf.ck << 48) ^ ((uint64_t)restarts << 40) ^ ((uint64_t)hist.size() << 32) ^ (uint64_t)(cur.m().width() * 1000 + cur.m().height()));
  }
  compare(cf, cur, ref, pr, true, "at the end");
  if (restarts && writes >= 2 && !hist.empty()) sim::nontrivial();
  if (after) sim::probe("continued_after_restart");
  for (auto &c : used) hash_cell(cur.m()[c]);
}

// a few cells are watched for hours before and after the restart
SCENARIO(soak, "c03.soak") {
  Cfg cf; cf.multi = sim::chance(1, 4); cf.disc = sim::chance(1, 2); cf.ck = (int)sim::draw(CELL_KINDS);
  cf.prm = GridMapParams{4 + (int)sim::draw(8), 4 + (int)sim::draw(8), 0.1};
  Sys cur = make(cf, cf.prm), ref = make(cf, cf.prm);
  Probe pr; for (int i = 0; i < 3; ++i) pr.obs.push_back(gen_aoo());
  std::vector<Coord> cells; int n = 1 + (int)sim::draw(2); for (int i = 0; i < n; ++i) cells.push_back(Coord{sim::around(3), sim::around(3)});
  int phases = 2 + (int)sim::draw(3), restarts = 0;
  for (int k = 0; k < phases; ++k) {
    sim::Span sp; sim::step();
    for (auto &c : cells) {
      AreaOccupancyObservation pool[4]; for (auto &a : pool) a = gen_aoo(cf.ck != CELL_BASE);
      int reps = sim::pick(std::vector<int>{100, 300, 5000, 33000, 33000, 66000});
      for (int i = 0; i < reps; ++i) { cur.m().update(c, pool[i % 4]); ref.m().update(c, pool[i % 4]); }
      sim::log("%s %d observations of (%d,%d)", cell_name(cf.ck), reps, c.x, c.y); sim::advance(reps * 0.1);
    }
    if (k + 1 < phases || sim::chance(1, 2)) {
      auto disk = cur.m().save_state();
      Sys nm = make(cf, GridMapParams{1 + (int)sim::draw(9), 1 + (int)sim::draw(9), 0.3});
      nm.m().load_state(disk); cur = std::move(nm); ++restarts; sim::fault("crash_restart"); sim::log("restart");
    }
    compare(cf, cur, ref, pr, true, "after hours of observations");
    sim::state(((uint64_t)cf.ck << 32) ^ (uint64_t)k ^ (uint64_t)(double(cur.m()[cells[0]]) * 1000) << 8);
  }
  if (restarts) sim::nontrivial();
  for (auto &c : cells) hash_cell(cur.m()[c]);
}
