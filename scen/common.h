// Shared by the scenarios: generators and comparisons over the public API of
// the code under test.  Contains no oracle of its own.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "../sim/sim.h"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "core/maps/grid_cell.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"

using Coord = RegularSquaresGrid::Coord;
struct CoordLess {
  bool operator()(const Coord &a, const Coord &b) const { return a.x != b.x ? a.x < b.x : a.y < b.y; }
};

// ---- cells ---------------------------------------------------------------
enum CellKind { CELL_BASE, CELL_AFFINE, CELL_MEAN, CELL_TBM_CONS, CELL_TBM_EVEN, CELL_GMAPPING, CELL_CREDIBILIST, CELL_KINDS };
inline const char *cell_name(int k) {
  static const char *n[] = {"base", "affine", "mean", "tbm-consistent", "tbm-even", "gmapping", "credibilist"};
  return n[k];
}
inline std::shared_ptr<GridCell> make_cell(int k) {
  switch (k) {
  case CELL_BASE: return std::make_shared<GridCell>(Occupancy{0.5, 1});
  case CELL_AFFINE: return std::make_shared<AffineQualityMergeCell>();
  case CELL_MEAN: return std::make_shared<MeanProbabilityCell>();
  case CELL_TBM_CONS: return std::make_shared<TbmOccConsistentCell>();
  case CELL_TBM_EVEN: return std::make_shared<TbmUnknownEvenOccCell>();
  case CELL_GMAPPING: return std::make_shared<GmappingBaseCell>();
  default: return std::make_shared<CredibilistCell>();
  }
}

struct Content { double prob, qual; bool unknown; };
inline Content content(const GridCell &c) {
  return {c.occupancy().prob_occ, c.occupancy().estimation_quality, c.is_unknown()};
}
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const Content &a, const Content &b) {
  return same_bits(a.prob, b.prob) && same_bits(a.qual, b.qual) && a.unknown == b.unknown;
}
inline bool same_cell(const GridCell &a, const GridCell &b) { return same(content(a), content(b)); }
inline std::string str(const GridCell &c) {
  char b[96]; snprintf(b, sizeof b, "{occ %.9g q %.9g %s}", c.occupancy().prob_occ, c.occupancy().estimation_quality, c.is_unknown() ? "unknown" : "known");
  return b;
}
inline void hash_cell(const GridCell &c) { sim::hashd(c.occupancy().prob_occ); sim::hashd(c.occupancy().estimation_quality); sim::hash(c.is_unknown()); }

// a valid observation with (almost surely) unique values
inline AreaOccupancyObservation gen_aoo(bool allow_invalid = false) {
  AreaOccupancyObservation a;
  a.is_occupied = sim::chance(1, 2);
  double p = a.is_occupied ? sim::real(0.55, 0.999) : sim::real(0.001, 0.45);
  double eq = sim::chance(1, 4) ? 1.0 : sim::real(0.05, 0.99);
  a.occupancy = Occupancy{p, eq};
  a.obstacle = Point2D{sim::sreal(0.2), sim::sreal(0.2)};
  a.quality = sim::chance(1, 4) ? 1.0 : sim::real(0.05, 0.99);
  if (allow_invalid && sim::chance(1, 12)) { a.occupancy = Occupancy::invalid(); sim::fault("invalid_observation"); }
  return a;
}

// ---- maps ----------------------------------------------------------------
enum MapKind { MAP_PLAIN, MAP_UPLAIN, MAP_LAZY, MAP_ULAZY, MAP_M3_PLAIN, MAP_M3_LAZY, MAP_KINDS };
inline const char *map_name(int k) {
  static const char *n[] = {"plain", "unbounded-plain", "lazy-tiled", "unbounded-lazy-tiled", "m3rsm-plain", "m3rsm-lazy"};
  return n[k];
}
inline bool map_unbounded(int k) { return k != MAP_PLAIN && k != MAP_LAZY; }
inline std::shared_ptr<ObservationImpactEstimator> make_oie(bool discrepancy) {
  if (discrepancy) return std::make_shared<DiscrepancyOIE>();
  return std::make_shared<OccupancyOIE>();
}
inline std::unique_ptr<GridMap> make_map(int kind, std::shared_ptr<GridCell> proto, const GridMapParams &p, bool discrepancy = false) {
  switch (kind) {
  case MAP_PLAIN: return std::make_unique<PlainGridMap>(proto, p);
  case MAP_UPLAIN: return std::make_unique<UnboundedPlainGridMap>(proto, p);
  case MAP_LAZY: return std::make_unique<LazyTiledGridMap>(proto, p);
  case MAP_ULAZY: return std::make_unique<UnboundedLazyTiledGridMap>(proto, p);
  case MAP_M3_PLAIN: return std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(make_oie(discrepancy), proto, p);
  default: return std::make_unique<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(make_oie(discrepancy), proto, p);
  }
}
inline const GridCell &at(const GridMap &m, const Coord &c) { return m[c]; }
inline bool in_extent(const GridMap &m, const Coord &c) {
  Coord o = m.origin();
  return 0 <= c.x + o.x && c.x + o.x < m.width() && 0 <= c.y + o.y && c.y + o.y < m.height();
}
#endif
