// C12: cell evidence equals its fusion rule whatever the delivery did to the observations.
#include "common.h"

namespace {

AreaOccupancyObservation gen(bool extremes) {
  AreaOccupancyObservation a;
  double p;
  switch (extremes ? sim::weighted({6, 1, 1, 1}) : 0) {
  case 1: p = 1.0; break;
  case 2: p = 0.0; break;
  case 3: p = 0.5; break;
  default: p = sim::chance(1, 2) ? sim::real(0.51, 0.99) : sim::real(0.01, 0.49);
  }
  double eq = sim::chance(1, 2) ? 1.0 : extremes && sim::chance(1, 6) ? 0.0 : extremes && sim::chance(1, 8) ? sim::real(1e-5, 5e-3) : sim::real(0.05, 0.99);
  double q = sim::chance(1, 2) ? 1.0 : extremes && sim::chance(1, 6) ? 0.0 : extremes && sim::chance(1, 8) ? sim::real(1e-5, 5e-3) : sim::real(0.05, 0.99);
  a.occupancy = Occupancy{p, eq}; a.quality = q; a.is_occupied = p > 0.5;
  a.obstacle = Point2D{sim::sreal(0.3), sim::sreal(0.3)};
  return a;
}
AreaOccupancyObservation corrupt(AreaOccupancyObservation a) {
  switch (sim::draw(3)) {
  case 0: a.occupancy = Occupancy::invalid(); break;
  case 1: a.occupancy.prob_occ = std::numeric_limits<double>::quiet_NaN(); break;
  default: a.occupancy.estimation_quality = std::numeric_limits<double>::quiet_NaN(); break;
  }
  return a;
}

using LD = long double;
// Reference fusion rules, in closed form over the delivered valid observations.
struct Reference {
  LD affine = 0.5L, mean_sum = 0; int n = 0;
  LD u = 1, eu = 1, ou = 1;         // products of masses (unknown, empty+unknown, occupied+unknown)
  LD hit_sum = 0, ox = 0, oy = 0; int hits = 0;
  bool conflict_reset = false, saturated = false;   // saturated: masses near the smallest double
  void add(const AreaOccupancyObservation &a) {
    LD p = a.occupancy.prob_occ, q = a.quality, m = (LD)(a.occupancy.estimation_quality * a.quality);
    affine = (1 - q) * affine + q * p;
    mean_sum += 0.5L + (p - 0.5L) * q; ++n;
    u *= 1 - m; eu *= 1 - p * m; ou *= 1 - (1 - p) * m;
    if (eu + ou - u <= 0) { u = eu = ou = 1; conflict_reset = true; sim::probe("total_conflict"); }
    LD s = eu + ou - u; u /= s; eu /= s; ou /= s;     // keep in range
    for (LD v : {u, eu, ou}) if (0 < v && v < 1e-250L) saturated = true;
    bool free = a.occupancy.prob_occ <= 0.5;
    hit_sum += free ? 0 : p;
    if (!free) { ++hits; ox += a.obstacle.x; oy += a.obstacle.y; }
  }
  LD occupied() const { return (ou - u) / (eu + ou - u); }
  LD empty() const { return (eu - u) / (eu + ou - u); }
  LD unknown() const { return u / (eu + ou - u); }
};

static const int Kinds[] = {CELL_AFFINE, CELL_MEAN, CELL_TBM_CONS, CELL_TBM_EVEN, CELL_GMAPPING, CELL_CREDIBILIST};

void verify(const GridCell &c, int kind, const Reference &r, const char *when) {
  const char *nm = cell_name(kind);
  double p = c.occupancy().prob_occ, q = c.occupancy().estimation_quality;
  EXPECT(c.is_unknown() == (r.n == 0), "known-flag", "%s cell %s: %d observations, is_unknown %d", nm, when, r.n, c.is_unknown());
  if (r.n == 0) return;
  EXPECT(std::isfinite(p) && std::isfinite(q) && -1e-12 <= p && p <= 1 + 1e-12, "occupancy-domain", "%s cell %s after %d observations: occupancy %.17g quality %g", nm, when, r.n, p, q);
  if (r.saturated && kind != CELL_AFFINE && kind != CELL_MEAN && kind != CELL_GMAPPING) return;
  LD want = 0; bool have = true;
  switch (kind) {
  case CELL_AFFINE: want = r.affine; break;
  case CELL_MEAN: want = r.mean_sum / r.n; break;
  case CELL_GMAPPING: want = r.hit_sum / r.n; break;
  case CELL_TBM_CONS: { LD k = r.occupied() + r.empty(); have = k > 1e-9L; if (have) want = r.occupied() / k;
    EXPECT(std::fabs((LD)q - k) < 1e-9L, "fusion-rule", "%s cell %s: quality %.12g, combined belief gives %.12Lg", nm, when, q, k); break; }
  default: want = r.occupied() + r.unknown() / 2; break;
  }
  if (have) EXPECT(std::fabs((LD)p - want) < 1e-9L, "fusion-rule", "%s cell %s after %d observations: occupancy %.15g, its rule gives %.15Lg", nm, when, r.n, p, want);
}

double dis(const GridCell &c, const AreaOccupancyObservation &a, int kind, const Reference &r, const char *when) {
  double d = c.discrepancy(a); LD want = -1, p = a.occupancy.prob_occ, m = (LD)(a.occupancy.estimation_quality * a.quality);
  if (r.n && a.occupancy.is_valid() && !(r.saturated && kind != CELL_AFFINE && kind != CELL_MEAN && kind != CELL_GMAPPING)) switch (kind) {
  case CELL_AFFINE: want = std::fabs(r.affine - p); break;
  case CELL_MEAN: want = std::fabs(r.mean_sum / r.n - p); break;
  case CELL_TBM_CONS: case CELL_TBM_EVEN: { LD un = (1 - m + r.unknown()) / 2; want = un / 2 + (1 - un) * (r.occupied() * (1 - p) * m + r.empty() * p * m + std::fabs(r.occupied() - p * m)) / 2; break; }
  case CELL_CREDIBILIST: want = 1 - r.occupied() * p * m; break;
  }
  if (want >= 0) EXPECT(std::fabs(d - want) < 1e-9L, "discrepancy-rule", "%s cell %s: discrepancy %.15g, its rule gives %.15Lg", cell_name(kind), when, d, want);
  EXPECT(std::isfinite(d) && -1e-12 <= d && d <= 1 + 1e-12, "discrepancy-domain", "%s cell %s: discrepancy %.17g", cell_name(kind), when, d);
  return d;
}

// where gmapping believes its obstacle is: at the mean of the hits
void mean_obstacle(const GridCell &c, const Reference &ref) {
  if (!ref.hits) return;
  AreaOccupancyObservation a = gen(false), b = a; a.obstacle = Point2D{(double)(ref.ox / ref.hits), (double)(ref.oy / ref.hits)}; b.obstacle = Point2D{a.obstacle.x + sim::sreal(0.3), a.obstacle.y + 0.1};
  double da = c.discrepancy(a), db = c.discrepancy(b);
  EXPECT(da < 1e-9 && da < db, "fusion-rule", "gmapping cell after %d hits: discrepancy %.12g of an observation at the mean obstacle, %.12g of one beside it", (int)ref.hits, da, db);
}

}  // namespace

// several sensors observe one area; a faulty network delivers to the cell
SCENARIO(fusion, "c12.fusion") {
  bool extremes = sim::chance(1, 2);
  int sent = 1 + (int)sim::draw(40);
  std::vector<std::shared_ptr<GridCell>> cells; for (int k : Kinds) cells.push_back(make_cell(k));
  Reference ref;
  struct Msg { double due; int id; AreaOccupancyObservation a; };
  std::vector<Msg> net;
  double t = 0; int lost = 0;
  for (int i = 0; i < sent; ++i) {
    sim::Span sp;
    t += 0.1;
    auto a = gen(extremes);
    if (sim::chance(1, 10)) { ++lost; sim::fault("lost"); continue; }
    double due = t;
    if (sim::chance(1, 5)) { due += sim::real(0.1, 1.0); sim::fault("delayed_reordered"); }
    net.push_back({due, i, sim::chance(1, 10) ? (sim::fault("corrupted"), corrupt(a)) : a});
    if (sim::chance(1, 8)) { net.push_back({due + sim::real(0, 0.6), i, a}); sim::fault("duplicated"); }
  }
  std::stable_sort(net.begin(), net.end(), [](const Msg &x, const Msg &y) { return x.due < y.due; });
  for (size_t k = 0; k < cells.size(); ++k) verify(*cells[k], Kinds[k], ref, "unobserved");
  for (auto &m : net) {
    sim::step(); sim::advance(0.1);
    bool ok = m.a.occupancy.is_valid();
    sim::log("deliver %d p %.6f eq %.4f q %.4f obst %.3f %.3f", m.id, m.a.occupancy.prob_occ, m.a.occupancy.estimation_quality, m.a.quality, m.a.obstacle.x, m.a.obstacle.y);
    auto probe_aoo = gen(extremes);
    for (size_t k = 0; k < cells.size(); ++k) if (ref.n || Kinds[k] != CELL_GMAPPING) dis(*cells[k], probe_aoo, Kinds[k], ref, "before an observation");
    std::vector<std::unique_ptr<GridCell>> before;
    for (auto &c : cells) before.push_back(c->clone());
    for (auto &c : cells) *c += m.a;
    if (ok) ref.add(m.a);
    else for (size_t k = 0; k < cells.size(); ++k) {
      EXPECT(same_cell(*before[k], *cells[k]) && same_bits(before[k]->discrepancy(probe_aoo), cells[k]->discrepancy(probe_aoo)), "invalid-observation-applied", "%s cell changed from %s to %s", cell_name(Kinds[k]), str(*before[k]).c_str(), str(*cells[k]).c_str());
    }
    for (size_t k = 0; k < cells.size(); ++k) {
      verify(*cells[k], Kinds[k], ref, "");
      if (ref.n) dis(*cells[k], probe_aoo, Kinds[k], ref, "after an observation");
      hash_cell(*cells[k]);
    }
    // the clone taken before must be an equal, independent cell
    if (ok) for (size_t k = 0; k < cells.size(); ++k) { *before[k] += m.a; EXPECT(same_cell(*before[k], *cells[k]), "clone-differs", "%s: clone %s, original %s", cell_name(Kinds[k]), str(*before[k]).c_str(), str(*cells[k]).c_str()); }
    sim::state((uint64_t)(double(*cells[0]) * 20) * 1000000 + (uint64_t)(double(*cells[2]) * 20) * 1000 + std::min(ref.n, 20));
  }
  if (sim::chance(1, 2)) mean_obstacle(*cells[4], ref);
  if (ref.n >= 3) sim::nontrivial();
}

// the same observations in another order
SCENARIO(order, "c12.order") {
  int n = 2 + (int)sim::draw(20);
  // total conflicts forget the past by design, so orders are compared without them
  std::vector<AreaOccupancyObservation> obs; for (int i = 0; i < n; ++i) { sim::Span sp; obs.push_back(gen(false)); if (sim::chance(1, 10)) { obs.back() = corrupt(obs.back()); sim::fault("corrupted"); } }
  auto perm = obs; int swaps = 0;
  for (int i = n - 1; i > 0; --i) { int j = i - (int)sim::draw(i + 1); if (i != j) { std::swap(perm[i], perm[j]); ++swaps; } }
  if (swaps) sim::fault("reordered", swaps);
  for (int k : {CELL_MEAN, CELL_TBM_CONS, CELL_TBM_EVEN, CELL_GMAPPING, CELL_CREDIBILIST}) {
    auto a = make_cell(k), b = make_cell(k);
    for (auto &o : obs) *a += o; for (auto &o : perm) *b += o;
    sim::step(2 * n);
    auto pr = gen(false);
    EXPECT(a->is_unknown() == b->is_unknown() && std::fabs(double(*a) - double(*b)) < 1e-9 && std::fabs(a->occupancy().estimation_quality - b->occupancy().estimation_quality) < 1e-9,
           "order-dependent", "%s: %s against %s in another order", cell_name(k), str(*a).c_str(), str(*b).c_str());
    EXPECT(std::fabs(a->discrepancy(pr) - b->discrepancy(pr)) < 1e-7, "order-dependent", "%s: discrepancy %.12g against %.12g", cell_name(k), a->discrepancy(pr), b->discrepancy(pr));
    hash_cell(*a); sim::log("%s %.9f", cell_name(k), double(*a));
    sim::state((uint64_t)(double(*a) * 50) * 10 + k);
  }
  if (swaps > 1) sim::nontrivial();
}

// many hours of observations: no drift
SCENARIO(soak, "c12.soak") {
  int n = 3000 + (int)sim::draw(20000);
  if (sim::chance(1, 4)) n += 50000;
  bool extremes = sim::chance(1, 2);
  std::vector<AreaOccupancyObservation> pool; int ps = 1 + (int)sim::draw(12);
  for (int i = 0; i < ps; ++i) pool.push_back(gen(extremes));
  std::vector<std::shared_ptr<GridCell>> cells; for (int k : Kinds) cells.push_back(make_cell(k));
  Reference ref; uint64_t lcg = sim::draw(1u << 30); int mode = (int)sim::draw(3);
  sim::log("%d observations from a pool of %d, mode %d", n, ps, mode);
  for (int i = 0; i < n; ++i) {
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    auto &a = pool[mode == 0 ? (lcg >> 33) % ps : mode == 1 ? i % ps : std::min(ps - 1, i * ps / n)];
    for (auto &c : cells) *c += a;
    ref.add(a);
    if (i % 977 == 0) for (size_t k = 0; k < cells.size(); ++k) verify(*cells[k], Kinds[k], ref, "in a long run");
  }
  sim::step(n); sim::advance(n * 0.1);
  for (size_t k = 0; k < cells.size(); ++k) { verify(*cells[k], Kinds[k], ref, "after a long run"); hash_cell(*cells[k]); }
  mean_obstacle(*cells[4], ref);
  sim::nontrivial();
}
