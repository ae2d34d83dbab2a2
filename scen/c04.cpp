// C04: truncated or unreadable input files never become invented data.
// Real: map (de)serialization, scan/pose text readers, the whole sm_runner tool.
// Simulated: the disk (cuts at any byte, read errors, short and interrupted
// reads, failing opens), the allocator, crashes while a file is written.
#include "common.h"
#include "../sim/fileio.h"
#include "env.h"
#define main sm_runner_main
#include "utils/sm_runner.cpp"
#undef main

namespace {

using PlainM3 = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
struct Owner {
  std::unique_ptr<GridMap> g; PlainM3 *m3 = nullptr;
  Owner(bool multi, bool disc, int ck, const GridMapParams &p) {
    if (multi) { auto x = std::make_unique<PlainM3>(make_oie(disc), make_cell(ck), p); m3 = x.get(); g = std::move(x); }
    else g = std::make_unique<UnboundedPlainGridMap>(make_cell(ck), p);
  }
};
std::string digest(Owner &o) {
  std::string d; char b[128];
  unsigned n = o.m3 ? o.m3->scales_nm() : 1, act = o.m3 ? o.m3->scale_id() : 0;
  snprintf(b, sizeof b, "%u/%u;", n, act); d += b;
  for (unsigned k = 0; k < n; ++k) {
    if (o.m3) o.m3->set_scale_id(k);
    GridMap &m = *o.g; Coord og = m.origin();
    snprintf(b, sizeof b, "%dx%d@%d,%d*%.17g;", m.width(), m.height(), og.x, og.y, m.scale()); d += b;
    for (int y = -1; y <= m.height(); ++y) for (int x = -1; x <= m.width(); ++x) {
      Content c = content(m[Coord{x - og.x, y - og.y}]);
      if (std::isnan(c.prob)) c.prob = 7; if (std::isnan(c.qual)) c.qual = 7;
      d.append((char *)&c.prob, 8); d.append((char *)&c.qual, 8); d += (char)c.unknown;
    }
  }
  if (o.m3) o.m3->set_scale_id(act);
  return d;
}
void fill(Owner &o, int ck, int n, int reach) {
  for (int i = 0; i < n; ++i) { sim::Span sp; o.g->update(Coord{sim::around(reach), sim::around(reach)}, gen_aoo(ck != CELL_BASE)); }
}

}  // namespace

SCENARIO(map_cut, "c04.map") {
  bool multi = sim::chance(1, 2), disc = sim::chance(1, 2); int ck = (int)sim::draw(CELL_KINDS);
  GridMapParams p{1 + (int)sim::draw(12), 1 + (int)sim::draw(12), sim::real(0.02, 1)};
  Owner src{multi, disc, ck, p}; fill(src, ck, (int)sim::draw(12), 12);
  auto full = src.g->save_state();
  Owner whole{multi, disc, ck, p}; whole.g->load_state(full);
  std::string want = digest(whole);
  Owner dst{multi, disc, ck, GridMapParams{1 + (int)sim::draw(9), 1 + (int)sim::draw(9), sim::real(0.02, 1)}};
  fill(dst, ck, 1 + (int)sim::draw(6), 9);
  std::string before = digest(dst);
  sim::log("%s cell %s, saved %zu bytes", multi ? "m3rsm" : "plain", cell_name(ck), full.size());
  // where chunks of a multi-resolution state end
  std::vector<size_t> marks{0, 4, 8, 16, 20, 24};
  if (multi) for (size_t q = 0; q + 8 <= full.size();) { size_t len; memcpy(&len, &full[q], 8); marks.push_back(q); marks.push_back(q + 8); q += 8 + len; }
  marks.push_back(full.size());
  int tries = 4 + (int)sim::draw(16);
  for (int i = 0; i < tries; ++i) {
    sim::Span sp; sim::step();
    int what = sim::weighted({8, 4, 3});
    if (what <= 1) {   // the file ends early
      size_t cut = what == 0 ? sim::draw((uint32_t)full.size()) : std::min(full.size() - 1, sim::pick(marks) + (size_t)sim::draw(3));
      std::vector<char> data(full.begin(), full.begin() + cut);
      sim::log("cut at %zu", cut); sim::fault("truncated_file");
      sim::phase("load-truncated");
      bool refused = false;
      sim::set_live_cap(sim::live_bytes() + (64u << 20));
      try { dst.g->load_state(data); } catch (std::exception &) { refused = true; }
      sim::set_live_cap(0); sim::phase("");
      std::string now = digest(dst);
      if (refused) EXPECT(now == before, "content-lost", "%s map: refusing the %zu of %zu bytes changed the previous content", multi ? "m3rsm" : "plain", cut, full.size());
      else EXPECT(now == want, "invented-data", "%s map accepted %zu of %zu bytes but does not hold the saved content", multi ? "m3rsm" : "plain", cut, full.size());
      if (!refused) before = now; else sim::probe("refused");
    } else {           // memory runs out while a complete state is loaded
      uint64_t kth = 1 + sim::draw(sim::pick(std::vector<uint32_t>{3, 20, 200, 1500}));
      bool refused = false;
      { sim::AllocFault af(kth); try { dst.g->load_state(full); } catch (std::bad_alloc &) { refused = true; } }
      std::string now = digest(dst);
      sim::log("load with allocation %llu failing: %s", (unsigned long long)kth, refused ? "refused" : "loaded");
      if (refused) EXPECT(now == before, "content-lost", "%s map: a load that ran out of memory changed the previous content", multi ? "m3rsm" : "plain");
      else { EXPECT(now == want, "wrong-load", "a completed load does not hold the saved content"); before = now; }
    }
    // still a usable map
    if (sim::chance(1, 4)) {
      Coord c{sim::around(14), sim::around(14)}; auto aoo = gen_aoo();
      auto ref = dst.g->operator[](c).clone(); *ref += aoo;
      dst.g->update(c, aoo);
      EXPECT(same_cell((*dst.g)[c], *ref), "unusable", "the map does not take observations after the load");
      before = digest(dst);
    }
    sim::state((multi ? 1u << 20 : 0) ^ (ck << 16) ^ (uint32_t)(before.size() & 0xffff));
  }
  sim::nontrivial(); sim::hash(std::hash<std::string>{}(before));
}

// text scans in a stream that fails
SCENARIO(scan_cut, "c04.scan") {
  int n = (int)sim::draw(12);
  LaserScan2D s;
  for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(sim::chance(1, 3) ? (double)sim::draw(30) : sim::real(0, 12), sim::sreal(3.1), sim::chance(1, 2)));
  std::ostringstream os; os << s; std::string text = os.str();
  LaserScan2D full; { std::istringstream is(text); is >> full; EXPECT(!is.fail() && full.points().size() == (size_t)n, "wrong-load", "a complete scan of %d points reads as %zu", n, full.points().size()); }
  for (size_t i = 0; i < (size_t)n; ++i) { auto &a = full.points()[i]; auto &b = s.points()[i];
    EXPECT(std::fabs(a.range() - b.range()) < 2e-5 * (1 + b.range()) && std::fabs(a.angle() - b.angle()) < 2e-5 * 4 && a.is_occupied() == b.is_occupied(), "wrong-load", "point %zu reads as %g %g %d, wrote %g %g %d", i, a.range(), a.angle(), a.is_occupied(), b.range(), b.angle(), b.is_occupied()); }
  for (int t = 0; t < 24; ++t) {
    sim::Span sp; sim::step();
    size_t cut = sim::draw((uint32_t)text.size());
    std::istringstream is(text.substr(0, cut)); LaserScan2D got;
    got.points().resize(sim::draw(3), ScanPoint2D::make_polar(1, 1, true));   // an object that was used before
    sim::set_live_cap(sim::live_bytes() + (64u << 20));
    bool ok; try { ok = !(is >> got).fail(); } catch (std::bad_alloc &) { sim::fail("invented-data", "%zu of %zu bytes: the reader keeps adding points that are not in the file", cut, text.size()); }
    sim::set_live_cap(0); sim::fault("truncated_file");
    bool complete = text.find_first_not_of(" \n", cut) == std::string::npos;
    sim::log("cut %zu: %s, %zu points", cut, ok ? "accepted" : "refused", got.points().size());
    if (ok) EXPECT(got.points().size() == (size_t)n, "invented-data", "%zu of %zu bytes accepted as a scan of %zu points, the full file has %d", cut, text.size(), got.points().size(), n);
    else EXPECT(!complete, "refused-complete", "the complete content is refused");
    EXPECT(got.points().size() <= (size_t)n, "invented-data", "%zu points from a file with %d", got.points().size(), n);
    for (size_t i = 0; i < got.points().size(); ++i) { auto &a = got.points()[i]; auto &b = full.points()[i];
      EXPECT(a.range() == b.range() && a.angle() == b.angle() && a.is_occupied() == b.is_occupied(), "invented-data", "point %zu of %zu is r %g a %g occ %d, the file says r %g a %g occ %d (%zu of %zu bytes)", i, got.points().size(), a.range(), a.angle(), a.is_occupied(), b.range(), b.angle(), b.is_occupied(), cut, text.size()); }
  }
  sim::hash(std::hash<std::string>{}(text)); if (n) sim::nontrivial();
}

// the offline scan matching tool over a failing disk
SCENARIO(tool, "c04.tool") {
  std::string d = sim::scratch() + "/";
  // a real run's files: a mapped room and a scan taken nearby
  Env e = gen_env(3); Lidar l; l.beams = 12 + (int)sim::draw(30); l.max_range = 8;
  static const std::vector<const char *> sms{"HC", "MC", "BF", "BF_M3RSM"};
  std::string sm = sms[sim::draw(4)]; bool m3 = sm == "BF_M3RSM";
  static const std::vector<const char *> cells{"affine_quality_merge", "mean_probability", "tbm_consistent", "tbm_unknown_even_occ"};
  std::string cell = cells[sim::draw(4)];
  std::ostringstream cf;
  cf << "slam/mapping/grid/type=" << (m3 ? "unbounded_plain" : "unbounded_plain") << "\nslam/mapping/grid/area/type=" << cell << "\n"
     << "slam/mapping/grid/height_in_meters=2\nslam/mapping/grid/width_in_meters=2\nslam/mapping/grid/meters_per_cell=0.25\n"
     << "slam/scmtch/oope/type=" << (m3 ? "max" : "obstacle") << "\nslam/scmtch/type=" << sm << "\nslam/scmtch/spe/type=wmpp\nslam/scmtch/spe/wmpp/weighting/type=even\n"
     << "slam/scmtch/MC/seed=7\nslam/scmtch/MC/dispersion/failed_attempts_limit=5\nslam/scmtch/MC/attempts_limit=20\n"
     << "slam/scmtch/BF/x/from=-0.1\nslam/scmtch/BF/x/to=0.1\nslam/scmtch/BF/x/step=0.1\nslam/scmtch/BF/y/from=-0.1\nslam/scmtch/BF/y/to=0.1\nslam/scmtch/BF/y/step=0.1\n"
     << "slam/scmtch/BF/t/from=-0.1\nslam/scmtch/BF/t/to=0.1\nslam/scmtch/BF/t/step=0.1\n"
     << "slam/scmtch/BF_M3RSM/accuracy/rotation=0.05\nslam/scmtch/BF_M3RSM/accuracy/translation=0.1\nslam/scmtch/BF_M3RSM/limits/x_translation=0.2\nslam/scmtch/BF_M3RSM/limits/y_translation=0.2\n";
  std::cout.setstate(std::ios::failbit);
  std::string cfg = cf.str(); sim::put_file(d + "c", cfg);
  FilePropertiesProvider props; props.append_file_content(d + "c");
  auto map = init_grid_map(props);
  { LaserScan2D s = make_scan(e, l, RobotPose{0, 0, 0});
    auto w = map->world_to_cell(0, 0); (void)w;
    for (auto &p : s.points()) if (p.is_occupied()) { AreaOccupancyObservation o{true, Occupancy{0.9, 1}, Point2D{0, 0}, 1}; map->update(map->world_to_cell(p.move_origin(0, 0, 0)), o); } }
  auto state = map->save_state();
  RobotPose at{sim::sreal(0.3), sim::sreal(0.3), sim::sreal(0.2)};
  std::ostringstream ps, ss;
  if (sim::chance(1, 2)) ps.precision(17);
  ps << at.x << " " << at.y << " " << at.theta; if (sim::chance(1, 2)) ps << "\n";
  LaserScan2D sc; do { l.noise = 0.01; sc = make_scan(e, l, at); } while (0);
  ss << sc;
  std::map<std::string, std::string> files{{"pose", ps.str()}, {"map", std::string(state.begin(), state.end())}, {"scan", ss.str()}};
  std::string name[4] = {"pose", "map", "scan", "c"};
  for (auto &f : files) sim::put_file(d + f.first, f.second);
  sim::log("%s %s, pose %zu map %zu scan %zu bytes", sm.c_str(), cell.c_str(), files["pose"].size(), files["map"].size(), files["scan"].size());
  auto run = [&](std::string &out) {
    int rc = sim::subprocess([&] {
      std::string a[5] = {"sm_runner", d + "c", d + "pose", d + "map", d + "scan"}; char *av[6]; for (int i = 0; i < 5; ++i) av[i] = &a[i][0]; av[5] = nullptr;
      sim::set_live_cap(512u << 20);
      return sm_runner_main(5, av); }, &out);
    return rc;
  };
  auto reported = [](const std::string &out, std::string &line) {
    size_t k = out.find("Pose delta:"); if (k == std::string::npos) return false;
    line = out.substr(k, out.find('\n', k) - k); return true; };
  std::string out0, line0; sim::io_reset({});
  int rc0 = run(out0);
  EXPECT(rc0 == 0 && reported(out0, line0), "tool-fails", "sm_runner ends with %d and no match on healthy files: %s", rc0, out0.substr(out0.size() < 300 ? 0 : out0.size() - 300).c_str());
  sim::log("healthy: %s", line0.c_str());
  // how many bytes of a file carry all its tokens
  auto needed = [&](const std::string &f) { const std::string &t = files[f]; return f == "map" ? t.size() : t.find_last_not_of(" \n") + 1; };
  int tries = 3 + (int)sim::draw(5);
  for (int i = 0; i < tries; ++i) {
    sim::Span sp; sim::step();
    sim::IoPlan pl; pl.on = true;
    int what = sim::weighted({6, 4, 3, 2});
    std::string f = name[sim::draw(3)], path = d + f; size_t cut = files[f].size();
    bool must_refuse = false, must_equal = false, unjudged = false;
    if (what == 0) {
      cut = sim::chance(1, 3) ? files[f].size() - 1 - sim::draw((uint32_t)std::min<size_t>(files[f].size(), 30)) : sim::draw((uint32_t)files[f].size());
      sim::put_file(path, files[f].substr(0, cut)); sim::fault("truncated_file");
      must_refuse = cut < needed(f); must_equal = !must_refuse;
      if (f == "pose" && must_refuse) { size_t b = files[f].find_last_of(" "); if (cut > b + 1) { must_refuse = false; unjudged = true; sim::probe("cut_in_last_number"); } }
      if (sim::chance(1, 3)) { pl.short_read = 50; pl.eintr = 20; }
      sim::log("%s cut at %zu of %zu", f.c_str(), cut, files[f].size());
    } else if (what == 1) {   // the file comes in pieces
      pl.short_read = 20 + (int)sim::draw(80); pl.eintr = (int)sim::draw(60); must_equal = true; sim::log("short %d%% interrupted %d%%", pl.short_read, pl.eintr);
    } else if (what == 2) {
      pl.read_fail = path; pl.read_fail_at = 1 + (int)sim::draw(sim::chance(1, 2) ? 2 : 6); if (sim::chance(1, 2)) pl.short_read = 70;
      sim::log("%s read %d fails", f.c_str(), pl.read_fail_at);
    } else { pl.open_fail = path; must_refuse = true; sim::log("%s cannot be opened", f.c_str()); }
    sim::io_reset(pl);
    std::string out, line; int rc; int64_t got = -1; bool errd = false;
    rc = run(out); got = sim::io_delivered(path); errd = sim::io_failed();
    sim::io_reset({});
    bool rep = reported(out, line);
    if (what == 2) { if (!errd) must_equal = true; else must_refuse = got >= 0 && (size_t)got < needed(f); }
    sim::log("-> rc %d %s", rc, rep ? line.c_str() : "no match reported");
    if (rep && rc == 0) {
      sim::probe("reported");
      EXPECT(!must_refuse, "match-from-partial-data", "sm_runner reports \"%s\" although only %zu of the %zu bytes of the %s file could be read", line.c_str(), what == 2 ? (size_t)got : what == 3 ? (size_t)0 : cut, files[f].size(), f.c_str());
      if (!unjudged) EXPECT(line == line0, "other-match", "sm_runner reports \"%s\", on healthy files \"%s\" (%s)", line.c_str(), line0.c_str(), f.c_str());
    } else {
      sim::probe("refused");
      EXPECT(!must_equal, "refused-complete", "sm_runner refuses (status %d) although all data could be read: %s", rc, out.substr(0, 160).c_str());
      EXPECT(!rep || unjudged, "match-from-partial-data", "sm_runner prints \"%s\" and fails with %d", line.c_str(), rc);
    }
    sim::put_file(path, files[f]);
    sim::state((uint64_t)what << 40 ^ (uint64_t)(f[0]) << 32 ^ (uint64_t)cut);
  }
  sim::nontrivial();
}
