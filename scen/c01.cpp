// C01: map writes survive growth.  Real code: every grid map and cell class.
// Simulated: the write history, the growth order and the allocator.
#include "common.h"

struct Ref {   // reference model: a dictionary of cells
  std::shared_ptr<GridCell> proto;
  std::map<Coord, std::unique_ptr<GridCell>, CoordLess> cells;
  const GridCell &get(const Coord &c) const { auto i = cells.find(c); return i == cells.end() ? *proto : *i->second; }
  GridCell &mut(const Coord &c) { auto &p = cells[c]; if (!p) p = proto->clone(); return *p; }
};

static void check_cell(const GridMap &m, const Ref &r, const Coord &c, const char *when) {
  const GridCell &a = at(m, c), &b = r.get(c);
  bool written = r.cells.count(c);
  sim::checked();
  if (!same_cell(a, b))
    sim::fail(written ? (a.is_unknown() && !b.is_unknown() ? "lost-write" : "wrong-content") : "invented-content",
              "cell (%d,%d) %s: map has %s, history wrote %s", c.x, c.y, when, str(a).c_str(), str(b).c_str());
  if (written) EXPECT(in_extent(m, c), "outside-extent", "written cell (%d,%d) is outside the reported extent (%s)", c.x, c.y, when);
}
static void check_all(const GridMap &m, const Ref &r, const char *when) {
  for (auto &kv : r.cells) check_cell(m, r, kv.first, when);
}
static void check_window(const GridMap &m, const Ref &r) {
  Coord o = m.origin();
  long area = (long)m.width() * m.height();
  long known = 0, expect_known = 0;
  for (auto &kv : r.cells) expect_known += !kv.second->is_unknown();
  bool complete = area <= 700000;
  int sy = complete ? 1 : 1 + (int)(area / 400000);
  for (int y = 0; y < m.height(); y += sy)
    for (int x = 0; x < m.width(); ++x) {
      Coord c{x - o.x, y - o.y};
      const GridCell &a = at(m, c);
      if (!a.is_unknown()) {
        ++known;
        if (!r.cells.count(c)) sim::fail("invented-content", "never written cell (%d,%d) reads %s", c.x, c.y, str(a).c_str());
      }
    }
  if (complete) EXPECT(known == expect_known, "lost-write", "map shows %ld known cells, history made %ld", known, expect_known);
}

static void growth(bool faults) {
  int kind = (int)sim::draw(MAP_KINDS);
  int ck = (int)sim::draw(CELL_KINDS);
  bool lazy = kind == MAP_LAZY || kind == MAP_ULAZY || kind == MAP_M3_LAZY;
  bool bounded = !map_unbounded(kind);
  GridMapParams p;
  static const std::vector<int> sizes{1, 2, 3, 7, 10, 50, 100, 127, 128, 129, 200, 256, 300};
  int nsz = lazy ? (int)sizes.size() : 7;
  p.width_cells = sizes[sim::draw(nsz)];
  p.height_cells = sizes[sim::draw(nsz)];
  p.meters_per_cell = sim::real(0.02, 1.5);
  Ref ref{make_cell(ck), {}};
  auto map = make_map(kind, make_cell(ck), p, sim::chance(1, 2));
  sim::log("map %s %dx%d scale %.4f cell %s", map_name(kind), p.width_cells, p.height_cells, p.meters_per_cell, cell_name(ck));
  int reach = bounded ? 0 : lazy ? sim::pick(std::vector<int>{5, 40, 140, 300, 1000}) : sim::pick(std::vector<int>{5, 20, 60, 120, 200});
  int ops = 3 + (int)sim::draw(40);
  int growths = 0;
  for (int i = 0; i < ops; ++i) {
    sim::Span sp; sim::step();
    Coord c;
    if (bounded) {
      Coord o = map->origin();
      c = Coord{(int)sim::draw(map->width()) - o.x, (int)sim::draw(map->height()) - o.y};
    } else if (sim::chance(1, 3)) {   // next to the current border: forces small growth steps
      Coord o = map->origin(); int w = map->width(), h = map->height();
      switch (sim::draw(4)) {
      case 0: c = Coord{-o.x - 1 - (int)sim::draw(3), sim::around(10)}; break;
      case 1: c = Coord{w - o.x + (int)sim::draw(3), sim::around(10)}; break;
      case 2: c = Coord{sim::around(10), -o.y - 1 - (int)sim::draw(3)}; break;
      default: c = Coord{sim::around(10), h - o.y + (int)sim::draw(3)}; break;
      }
    } else if (!ref.cells.empty() && sim::chance(1, 3)) {
      auto it = ref.cells.begin(); std::advance(it, sim::draw((uint32_t)ref.cells.size())); c = it->first;
    } else {
      c = Coord{sim::around(reach), sim::around(reach)};
    }
    if (!lazy && !bounded) {   // keep the simulated heap small
      if (std::abs(c.x) > 260 || std::abs(c.y) > 260) { sim::probe("skipped_too_far"); continue; }
    } else if (!bounded && (std::abs(c.x) > 3000 || std::abs(c.y) > 3000)) { sim::probe("skipped_too_far"); continue; }
    bool is_reset = sim::chance(1, 5);
    AreaOccupancyObservation aoo = gen_aoo(true);
    std::unique_ptr<GridCell> fresh;
    if (is_reset) { fresh = make_cell(ck)->clone(); if (sim::chance(3, 4)) *fresh += aoo; }
    int w0 = map->width(), h0 = map->height();
    // reference outcome
    std::unique_ptr<GridCell> before = ref.get(c).clone(), after = before->clone();
    if (is_reset) after = fresh->clone(); else *after += aoo;
    uint64_t kth = 0;
    if (faults && sim::chance(1, 3)) {
      static const std::vector<uint32_t> mag{1, 2, 4, 16, 64, 512, 4096, 32768};
      kth = 1 + sim::draw(sim::pick(mag));
    }
    bool threw = false;
    { sim::AllocFault af(kth);
      try { if (is_reset) map->reset(c, *fresh); else map->update(c, aoo); }
      catch (std::bad_alloc &) { threw = true; }
      if (threw && !af.fired()) sim::fail("spurious-bad-alloc", "bad_alloc without an allocation failure");
    }
    bool grew = map->width() != w0 || map->height() != h0;
    sim::log("%s (%d,%d) p=%.6f q=%.4f%s%s", is_reset ? "reset" : "update", c.x, c.y, aoo.occupancy.prob_occ, aoo.quality,
             threw ? " -> bad_alloc" : "", grew ? " grew" : "");
    bool applied = true;
    if (threw) {
      sim::probe(grew ? "alloc_failed_after_growth" : "alloc_failed_before_growth");
      const GridCell &now = at(*map, c);
      if (same_cell(now, *after)) applied = true;
      else if (same_cell(now, *before)) applied = false;
      else sim::fail("torn-write", "cell (%d,%d) after a failed write: %s, before %s, intended %s", c.x, c.y,
                     str(now).c_str(), str(*before).c_str(), str(*after).c_str());
    }
    bool ambiguous = threw && same_cell(*before, *after);   // hidden evidence may or may not have been merged
    if (applied && !ambiguous) ref.cells[c] = std::move(after);
    if (grew) {
      ++growths; sim::probe("growth");
      check_all(*map, ref, "after growth");
      if (kind == MAP_UPLAIN && map->width() * map->height() < 30000) check_window(*map, ref);
    } else if (threw) check_all(*map, ref, "after a failed write");
    else {
      check_cell(*map, ref, c, "after its write");
      int n = (int)ref.cells.size(), k = 0;
      for (auto &kv : ref.cells) if (n < 12 || (++k % 5) == i % 5) check_cell(*map, ref, kv.first, "later");
    }
    // never written neighbours
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) {
      Coord q{c.x + dx, c.y + dy};
      if (!bounded || in_extent(*map, q)) check_cell(*map, ref, q, "neighbour");
    }
    if (ambiguous) { sim::probe("ambiguous_failed_write"); break; }
    sim::state(((uint64_t)kind << 56) ^ ((uint64_t)(unsigned)map->width() << 36) ^ ((uint64_t)(unsigned)map->height() << 16) ^ ((uint64_t)(unsigned)(map->origin().x * 31 + map->origin().y) & 0xffff));
  }
  check_all(*map, ref, "at the end");
  check_window(*map, ref);
  if (ref.cells.size() >= 3 && (growths || bounded)) sim::nontrivial();
  for (auto &kv : ref.cells) hash_cell(*kv.second);
}
SCENARIO(growth, "c01.growth") { growth(false); }
SCENARIO(growth_oom, "c01.growth_oom") { growth(true); }

// all map kinds give the same answers for the same history
SCENARIO(agree, "c01.agree") {
  int ck = (int)sim::draw(CELL_KINDS);
  GridMapParams p{1 + (int)sim::draw(40), 1 + (int)sim::draw(40), sim::real(0.05, 1.0)};
  GridMapParams big{301, 297, p.meters_per_cell};
  std::vector<std::unique_ptr<GridMap>> maps;
  for (int k = 0; k < MAP_KINDS; ++k) maps.push_back(make_map(k, make_cell(ck), map_unbounded(k) ? p : big, false));
  Ref ref{make_cell(ck), {}};
  int ops = 5 + (int)sim::draw(40);
  int reach = sim::pick(std::vector<int>{3, 20, 60, 120});
  for (int i = 0; i < ops; ++i) {
    sim::Span sp; sim::step();
    Coord c{sim::around(reach), sim::around(reach)};
    bool is_reset = sim::chance(1, 6);
    auto aoo = gen_aoo(true);
    sim::log("%s (%d,%d) %.6f", is_reset ? "reset" : "update", c.x, c.y, aoo.occupancy.prob_occ);
    std::unique_ptr<GridCell> fresh = make_cell(ck)->clone();
    *fresh += aoo;
    for (auto &m : maps) { if (is_reset) m->reset(c, *fresh); else m->update(c, aoo); }
    if (is_reset) ref.cells[c] = fresh->clone(); else ref.mut(c) += aoo;
    for (size_t k = 0; k < maps.size(); ++k) check_cell(*maps[k], ref, c, map_name((int)k));
  }
  for (int y = -reach - 2; y <= reach + 2; ++y)
    for (int x = -reach - 2; x <= reach + 2; ++x)
      for (size_t k = 0; k < maps.size(); ++k) check_cell(*maps[k], ref, {x, y}, map_name((int)k));
  sim::nontrivial();
  for (auto &kv : ref.cells) hash_cell(*kv.second);
}
