// C08: observers hear of every update exactly once, in order, while alive -
// also when observers come, go and die inside notifications.
#include "matching.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "slams/gmapping/gmapping_particle_filter.h"
#include <iostream>

namespace {

enum Kind { POSE, MAP, SM };
enum Ev { E_POSE, E_MAP, E_START, E_TEST, E_UPDATE, E_END };
const char *ev_name[] = {"pose", "map", "start", "test", "accept", "end"};

struct Note { Ev e; int id; double x, y, th, score; const void *map; };
struct Bus;

// one observer of any kind; runs the scripted re-entrant actions
struct Probe : WorldPoseObserver, WorldMapObserver<GridMap>, GridScanMatcherObserver {
  int id; Bus *bus;
  Probe(int i, Bus *b) : id(i), bus(b) {}
  void on_pose_update(const RobotPose &p) override;
  void on_map_update(const GridMap &m) override;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &m) override;
  void on_scan_test(const RobotPose &p, const LaserScan2D &, double s) override;
  void on_pose_update(const RobotPose &p, const LaserScan2D &, double s) override;
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double s) override;
};

struct Entry {
  std::shared_ptr<Probe> obj; bool pose = false, map = false, sm = false; long pose_seq = 0, map_seq = 0, sm_seq = 0;
  bool stable_pose = false, stable_map = false, stable_sm = false;   // subscribed through the whole scan
  bool was_sm = false;
};

struct Bus {
  LaserScanGridWorld *world = nullptr; std::shared_ptr<GridScanMatcher> sm;
  std::vector<Entry> obs; std::vector<Note> notes; long seq = 0; int budget = 0; bool reentrant = false; long changes = 0;
  int create(const char *where) {
    int id = (int)obs.size(); obs.emplace_back(); Entry &e = obs.back();
    e.obj = std::make_shared<Probe>(id, this);
    int kinds = 1 + (int)sim::draw(7);
    if (kinds & 1) { world->subscribe_pose(e.obj); e.pose = true; e.pose_seq = ++seq; }
    if (kinds & 2) { world->subscribe_map(e.obj); e.map = true; e.map_seq = ++seq; }
    if (kinds & 4) { sm->subscribe(e.obj); e.sm = e.was_sm = true; e.sm_seq = ++seq; }
    sim::log("%s: observer %d subscribes to%s%s%s", where, id, kinds & 1 ? " pose" : "", kinds & 2 ? " map" : "", kinds & 4 ? " matcher" : "");
    ++changes; return id;
  }
  void act(int self, const char *where) {
    switch (sim::draw(4)) {
    case 0: if (obs.size() < 14) create(where); break;
    case 1: {   // somebody dies
      int v = self >= 0 && sim::chance(1, 3) ? self : (int)sim::draw((uint32_t)obs.size());
      if (!obs[v].obj) break;
      sim::log("%s: observer %d dies", where, v); sim::fault(self < 0 ? "observer_dies" : v == self ? "observer_dies_in_own_callback" : "observer_dies_in_callback");
      Entry &e = obs[v]; e.pose = e.map = e.sm = false; e.stable_pose = e.stable_map = e.stable_sm = false; auto dying = std::move(e.obj); e.obj.reset();
      std::weak_ptr<Probe> wp = dying; dying.reset(); ++changes;
      break;
    }
    case 2: {   // unsubscribe from the matcher
      int v = self >= 0 && sim::chance(1, 3) ? self : (int)sim::draw((uint32_t)obs.size());
      if (!obs[v].obj || !obs[v].sm) break;
      sim::log("%s: observer %d unsubscribes from the matcher", where, v); sim::fault(self < 0 ? "unsubscription" : "unsubscription_in_callback");
      sm->unsubscribe(obs[v].obj); obs[v].sm = false; obs[v].stable_sm = false; ++changes;
      break;
    }
    case 3: {   // unsubscribing a stranger or re-subscribing
      int v = (int)sim::draw((uint32_t)obs.size());
      if (!obs[v].obj) break;
      if (!obs[v].was_sm) { sm->unsubscribe(obs[v].obj); break; }
      if (obs[v].sm) break;
      sm->subscribe(obs[v].obj); obs[v].sm = true; obs[v].sm_seq = ++seq; sim::log("%s: observer %d subscribes to the matcher again", where, v); ++changes;
      break;
    }
    }
  }
  void note(Ev e, int id, double x, double y, double th, double score, const void *m) {
    Entry &o = obs[id];
    EXPECT((bool)o.obj, "called-after-death", "released observer %d was called (%s)", id, ev_name[e]);
    bool sub = e == E_POSE ? o.pose : e == E_MAP ? o.map : o.sm;
    EXPECT(sub, "called-without-subscription", "observer %d was called (%s) without being subscribed", id, ev_name[e]);
    notes.push_back({e, id, x, y, th, score, m});
    if (reentrant && budget > 0 && sim::chance(1, e == E_TEST ? 25 : 4)) { --budget; act(id, ev_name[e]); }
  }
};

void Probe::on_pose_update(const RobotPose &p) { bus->note(E_POSE, id, p.x, p.y, p.theta, 0, nullptr); }
void Probe::on_map_update(const GridMap &m) { bus->note(E_MAP, id, 0, 0, 0, 0, &m); }
void Probe::on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &m) { bus->note(E_START, id, p.x, p.y, p.theta, 0, &m); }
void Probe::on_scan_test(const RobotPose &p, const LaserScan2D &, double s) { bus->note(E_TEST, id, p.x, p.y, p.theta, s, nullptr); }
void Probe::on_pose_update(const RobotPose &p, const LaserScan2D &, double s) { bus->note(E_UPDATE, id, p.x, p.y, p.theta, s, nullptr); }
void Probe::on_matching_end(const RobotPose &p, const LaserScan2D &, double s) { bus->note(E_END, id, p.x, p.y, p.theta, s, nullptr); }

// records what the estimator was asked
struct LogSPE : FaultySPE {
  struct Call { double x, y, th, s; }; mutable std::vector<Call> asked; bool shake = false; mutable long serial = 0;
  LogSPE(const SpeCfg &c) : FaultySPE{c} {}
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &prm) const override {
    double r = FaultySPE::estimate_scan_probability(s, p, m, prm);
    asked.push_back({p.x, p.y, p.theta, r}); return r;
  }
};
// passes through to a real matcher, recording its results
struct Tap : GridScanMatcher {
  std::shared_ptr<GridScanMatcher> real; struct Res { RobotPose init; RobotPoseDelta d; double s; size_t note_from, note_to, ask_from, ask_to; const void *map; }; std::vector<Res> res;
  Bus *bus; LogSPE *spe;
  Tap(std::shared_ptr<GridScanMatcher> r, Bus *b, LogSPE *l) : GridScanMatcher{r->scan_probability_estimator()}, real{r}, bus(b), spe(l) {}
  void reset_state() override { real->reset_state(); }
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    size_t nf = bus->notes.size(), af = spe->asked.size(); RobotPose init = p;
    double r = real->process_scan(s, p, m, d);
    res.push_back({init, d, r, nf, bus->notes.size(), af, spe->asked.size(), &m}); return r;
  }
};
bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void run(bool gmapping) {
  std::cout.setstate(std::ios::failbit); std::clog.setstate(std::ios::failbit);
  World0 w = gen_world();
  SpeCfg sc = gen_spe(gmapping); int mkind = gmapping ? (int)sim::draw(2) : (int)sim::draw(4);
  bool m3 = mkind == 3; if (m3) sc.oope = 1;
  auto spe = std::make_shared<LogSPE>(sc);
  std::shared_ptr<GridScanMatcher> real;
  if (mkind == 0) real = std::make_shared<HillClimbingScanMatcher>(spe, 2, 0.1, 0.05);
  else if (mkind == 1) real = std::make_shared<MonteCarloScanMatcher>(spe, sim::draw(1000), 0.2, 0.1, 5, 25);
  else if (mkind == 2) real = std::make_shared<BruteForceScanMatcher>(spe, -0.1, 0.1, 0.08, -0.1, 0.1, 0.08, -0.04, 0.04, 0.03);
  else real = std::make_shared<BruteForceMultiResolutionScanMatcher>(spe, 0.2, 0.2, 0.03, 0.02, 0.09);
  Bus bus; bus.sm = real; bus.reentrant = sim::chance(3, 4);
  auto tap = std::make_shared<Tap>(real, &bus, spe.get());
  SingleStateHypothesisLSGWProperties pr; pr.gsm = tap; pr.gmsa = w.adder;
  if (sim::chance(1, 2)) { pr.localized_scan_quality = sim::chance(1, 3) ? 0 : sim::real(0, 1); pr.raw_scan_quality = sim::chance(1, 3) ? 0 : sim::real(0, 1); }
  std::shared_ptr<LaserScanGridWorld> world;
  sim::set_entropy(sim::draw(1 << 20));
  if (gmapping) {
    pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(make_cell(CELL_GMAPPING), GridMapParams{30, 30, w.scale});
    GMappingParams gp{0, 0.05, 0, 0.02, 0.05, 0.15, 0.05, 0.1};
    world = std::make_shared<GmappingParticleFilter>(pr, gp, 1 + sim::draw(5));
  } else {
    int mk = m3 ? (sim::chance(1, 2) ? MAP_M3_PLAIN : MAP_M3_LAZY) : (sim::chance(1, 2) ? MAP_UPLAIN : MAP_ULAZY);
    pr.grid_map = make_map(mk, make_cell(gen_cell_kind(false)), GridMapParams{1 + (int)sim::draw(60), 1 + (int)sim::draw(60), w.scale}, sc.oie == 0);
    world = std::make_shared<SingleStateHypothesisLaserScanGridWorld>(pr);
  }
  bus.world = world.get();
  static const char *mn[] = {"HC", "MC", "BF", "BF_M3RSM"};
  sim::log("%s with %s, %s", gmapping ? "particle filter" : "single hypothesis", mn[mkind], sc.str().c_str());
  int n0 = 1 + (int)sim::draw(5); for (int i = 0; i < n0; ++i) bus.create("start");
  int scans = 2 + (int)sim::draw(6); RobotPose truth{0, 0, 0}; int reent = 0;
  for (int s = 0; s < scans; ++s) {
    sim::Span sp; sim::step(); sim::advance(0.1);
    for (int k = (int)sim::draw(3); k > 0; --k) { sim::Span sp2; bus.act(-1, "between scans"); }
    RobotPose next = near_pose(0.5, 0.6); if (sim::chance(1, 4)) next = truth;    // it stands still
    TransformedLaserScan ts; ts.quality = sim::chance(1, 8) ? 0 : 0.9; ts.pose_delta = next - truth; truth = next; ts.scan = gen_scan(w, truth);
    bus.notes.clear(); spe->asked.clear(); tap->res.clear(); bus.budget = (int)sim::draw(4);
    for (auto &e : bus.obs) { e.stable_pose = e.pose; e.stable_map = e.map; e.stable_sm = e.sm; }
    size_t before = bus.obs.size(); long ch = bus.changes;
    world->handle_sensor_data(ts);
    reent += bus.changes != ch;
    // --- world observers
    std::vector<int> pc(bus.obs.size(), 0), mc(bus.obs.size(), 0); long lastp = 0, lastm = 0; bool map_seen = false;
    for (auto &n : bus.notes) {
      if (n.e == E_POSE) {
        EXPECT(!map_seen, "order", "scan %d: observer %d got the pose after the map was notified", s, n.id);
        EXPECT(++pc[n.id] == 1, "notified-twice", "scan %d: observer %d got the pose twice", s, n.id);
        EXPECT(bus.obs[n.id].pose_seq > lastp, "order", "scan %d: observer %d got the pose out of subscription order", s, n.id);
        lastp = bus.obs[n.id].pose_seq;
        EXPECT(n.x == world->pose().x && n.y == world->pose().y && n.th == world->pose().theta, "wrong-pose", "scan %d: observer %d got (%g,%g,%g), the pose is (%g,%g,%g)", s, n.id, n.x, n.y, n.th, world->pose().x, world->pose().y, world->pose().theta);
      } else if (n.e == E_MAP) {
        map_seen = true;
        EXPECT(++mc[n.id] == 1, "notified-twice", "scan %d: observer %d got the map twice", s, n.id);
        EXPECT(bus.obs[n.id].map_seq > lastm, "order", "scan %d: observer %d got the map out of subscription order", s, n.id);
        lastm = bus.obs[n.id].map_seq;
        const LaserScanGridWorld *cw = world.get();
        EXPECT(n.map == &cw->map(), "wrong-map", "scan %d: observer %d got another map", s, n.id);
      } else EXPECT(!map_seen && lastp == 0, "order", "scan %d: matching was reported after the results", s);
    }
    for (size_t i = 0; i < before; ++i) {
      if (bus.obs[i].stable_pose) EXPECT(pc[i] == 1, "notification-lost", "scan %d: observer %zu did not get the pose", s, i);
      if (bus.obs[i].stable_map) EXPECT(mc[i] == 1, "notification-lost", "scan %d: observer %zu did not get the map", s, i);
    }
    // --- matcher observers, per matching
    for (auto &r : tap->res) {
      for (size_t i = 0; i < before; ++i) {
        if (!bus.obs[i].stable_sm) continue;
        std::vector<Note> mine; for (size_t k = r.note_from; k < r.note_to; ++k) if (bus.notes[k].id == (int)i && bus.notes[k].e >= E_START) mine.push_back(bus.notes[k]);
        EXPECT(mine.size() >= 2 && mine[0].e == E_START && mine.back().e == E_END, "matching-protocol", "scan %d: observer %zu got %zu events, first %s, last %s", s, i, mine.size(), mine.empty() ? "-" : ev_name[mine[0].e], mine.empty() ? "-" : ev_name[mine.back().e]);
        EXPECT(mine[0].x == r.init.x && mine[0].y == r.init.y && mine[0].th == r.init.theta && mine[0].map == r.map, "matching-protocol", "scan %d: start reported with another pose or map", s);
        EXPECT(eq(mine.back().x, r.d.x) && eq(mine.back().y, r.d.y) && eq(mine.back().th, r.d.theta) && eq(mine.back().score, r.s), "end-disagrees",
               "scan %d: end reported (%g,%g,%g) score %.12g, returned (%g,%g,%g) score %.12g", s, mine.back().x, mine.back().y, mine.back().th, mine.back().score, r.d.x, r.d.y, r.d.theta, r.s);
        size_t tests = 0, accepted = 0; double best = 0; RobotPose bp = r.init;
        for (size_t k = 1; k + 1 < mine.size(); ++k) {
          EXPECT(mine[k].e == E_TEST || mine[k].e == E_UPDATE, "matching-protocol", "scan %d: observer %zu got %s inside a matching", s, i, ev_name[mine[k].e]);
          if (m3) continue;
          if (mine[k].e == E_TEST) {
            EXPECT(tests < r.ask_to - r.ask_from, "tests", "scan %d: more tests reported than made", s);
            auto &a = spe->asked[r.ask_from + tests++];
            EXPECT(a.x == mine[k].x && a.y == mine[k].y && a.th == mine[k].th && eq(a.s, mine[k].score), "tests", "scan %d: test %zu reported (%g,%g,%g) %.9g, made (%g,%g,%g) %.9g", s, tests, mine[k].x, mine[k].y, mine[k].th, mine[k].score, a.x, a.y, a.th, a.s);
            bool acc = tests == 1 || mine[k].score > best;
            bool told = k + 1 < mine.size() && mine[k + 1].e == E_UPDATE;
            EXPECT(acc == told, "accepted", "scan %d: candidate %zu with score %.9g (best before %.9g) was %sreported as accepted", s, tests, mine[k].score, best, told ? "" : "not ");
            if (acc) { best = mine[k].score; bp = RobotPose{mine[k].x, mine[k].y, mine[k].th}; ++accepted; }
          } else {
            EXPECT(mine[k - 1].e == E_TEST && mine[k].x == mine[k - 1].x && mine[k].y == mine[k - 1].y && mine[k].th == mine[k - 1].th && eq(mine[k].score, mine[k - 1].score), "accepted", "scan %d: acceptance without its test", s);
          }
        }
        if (!m3) {
          EXPECT(tests == r.ask_to - r.ask_from, "tests", "scan %d: %zu tests reported, %zu made", s, tests, r.ask_to - r.ask_from);
          EXPECT(eq(best, r.s) && std::fabs(bp.x - r.init.x - r.d.x) < 1e-9 && std::fabs(bp.y - r.init.y - r.d.y) < 1e-9 && std::fabs(bp.theta - r.init.theta - r.d.theta) < 1e-9, "end-disagrees", "scan %d: last accepted candidate is not the result", s);
        }
        sim::probe("matching_observed");
      }
      // relative order of all observers for every event
      for (size_t k = r.note_from + 1; k < r.note_to; ++k) {
        auto &a = bus.notes[k - 1], &b = bus.notes[k];
        if (a.e == b.e && a.e != E_TEST && a.e != E_UPDATE && a.id != b.id && bus.obs[a.id].stable_sm && bus.obs[b.id].stable_sm)
          EXPECT(bus.obs[a.id].sm_seq < bus.obs[b.id].sm_seq, "order", "scan %d: matcher observers %d and %d notified out of order", s, a.id, b.id);
      }
    }
    sim::log("scan %d: %zu notifications, %zu matchings", s, bus.notes.size(), tap->res.size());
    for (auto &n : bus.notes) sim::hash((uint64_t)n.id * 8 + n.e);
    uint64_t st = 0; for (auto &e : bus.obs) st = st * 9 + e.pose + 2 * e.map + 4 * e.sm; sim::state(st);
  }
  bus.obs.clear();
  if (scans > 2 && bus.changes > n0 && (reent || !bus.reentrant)) sim::nontrivial();
}

}  // namespace

SCENARIO(single, "c08.single") { run(false); }
SCENARIO(gm, "c08.gmapping") { run(true); }
