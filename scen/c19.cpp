// C19: SLAM instances are independent and repeatable.
// Real: whole SLAMs in every configuration.  What else happens in the process is simulated.
#include "scen/common.h"
#include "scen/env.h"
#include "scen/slamcfg.h"
#include "sim/threads.h"
#include <new>

namespace {
struct Spec { SlamCfg cfg; unsigned entropy; std::vector<RobotPoseDelta> moves; std::vector<LaserScan2D> scans; std::vector<uint64_t> alone; };
struct H { uint64_t v = 1469598103934665603ull; void u(uint64_t x) { for (int i = 0; i < 8; ++i) { v ^= (x >> (8 * i)) & 255; v *= 1099511628211ull; } } void d(double x) { if (x == 0) x = 0; if (std::isnan(x)) { u(1); return; } uint64_t b; std::memcpy(&b, &x, 8); u(b); } };
struct Scores : GridScanMatcherObserver { H h; int n = 0;
  void on_scan_test(const RobotPose &p, const LaserScan2D &, double s) override { ++n; h.d(p.x); h.d(s); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &, double s) override { h.d(p.y); h.d(p.theta); h.d(s); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double s) override { h.d(p.x); h.d(p.y); h.d(p.theta); h.d(s); } };

struct Instance {
  const Spec *spec; size_t done = 0; std::shared_ptr<SingleStateHypothesisLaserScanGridWorld> one; std::shared_ptr<GmappingParticleFilter> many; std::shared_ptr<Scores> scores = std::make_shared<Scores>();
  explicit Instance(const Spec &s, bool spoil) : spec(&s) {
    auto props = std::make_unique<MapPropertiesProvider>(); s.cfg.apply(*props); sim::set_entropy(s.entropy);
    if (s.cfg.kind == SLAM_GMAPPING) many = init_gmapping(*props); else one = s.cfg.kind == SLAM_1H ? init_1h_slam(*props) : init_credibilist_slam(*props);
    if (one) one->add_sm_observer(scores);
    if (spoil) for (auto &e : s.cfg.kv) props->set_property(e.first, "-1");     // the configuration may change or go once the SLAM is set up
  }
  bool finished() const { return done == spec->scans.size(); }
  const GridMap &map() const { return one ? const_cast<const SingleStateHypothesisLaserScanGridWorld &>(*one).map() : many->map(); }
  void feed(bool shared_scan) {
    TransformedLaserScan ts; ts.pose_delta = spec->moves[done]; ts.quality = 1;
    if (shared_scan) ts.scan = spec->scans[done]; else for (auto &p : spec->scans[done].points()) ts.scan.points().push_back(p);
    sim::set_entropy(spec->entropy + 1000003u * (unsigned)(done + 1));
    if (one) one->handle_sensor_data(ts); else many->handle_sensor_data(ts);
    ++done;
  }
  uint64_t digest() const {
    H h; RobotPose p = one ? one->pose() : many->pose(); h.d(p.x); h.d(p.y); h.d(p.theta); const GridMap &m = map();
    h.u(m.width()); h.u(m.height()); h.u(m.origin().x); h.u(m.origin().y); if (many) h.d(dynamic_cast<const Particle &>(many->world()).weight()); h.u(scores->h.v); h.u(scores->n);
    auto c0 = m.world_to_cell(p.x, p.y); int r = finished() ? std::max(m.width(), m.height()) : 12; auto o = m.origin();
    int x0 = std::max(c0.x - r, -o.x), x1 = std::min(c0.x + r, m.width() - o.x - 1), y0 = std::max(c0.y - r, -o.y), y1 = std::min(c0.y + r, m.height() - o.y - 1);
    for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { const GridCell &g = m[Coord{x, y}]; h.d(g.occupancy().prob_occ); h.d(g.occupancy().estimation_quality); }
    return h.v;
  }
};
void check(const Instance &i, const char *where, int id) {
  uint64_t d = i.digest(); sim::hash(d);
  EXPECT(d == i.spec->alone[i.done], "depends-on-others", "instance %d (%s) %s: after %zu scans poses, scores or map are not what they are when it runs alone", id, i.spec->cfg.title.c_str(), where, i.done);
}
Spec gen_spec(bool small) {
  Spec s; SlamCfgOpts o; o.heavy = false; o.min_scale = small ? 0.25 : 0.12; o.bounded_maps = !small || sim::chance(1, 3); s.cfg = gen_slam_cfg(o); s.entropy = sim::draw(1 << 20);
  if (s.cfg.kind == SLAM_GMAPPING && small) s.cfg.kv["slam/particles/number"] = "2";
  Env env = gen_env(2); Lidar l; l.beams = small ? 6 + (int)sim::draw(10) : 8 + (int)sim::draw(40); l.noise = 0.01; ::Drive d; d.drift_trans = sim::sreal(0.05);
  int n = small ? 1 + (int)sim::draw(4) : 1 + (int)sim::draw(7);
  for (int i = 0; i < n; ++i) {
    sim::Span sp; s.moves.push_back(i ? d.step(env, sim::real(0, 0.4), sim::sreal(0.3)) : RobotPoseDelta{0, 0, 0});
    int k = sim::weighted({8, 1, 1}); LaserScan2D sc; if (k == 0) sc = make_scan(env, l, d.truth); else if (k == 2) { for (int q = 0; q < 6; ++q) sc.points().push_back(ScanPoint2D::make_polar(sim::real(0.2, 8), -2 + 0.6 * q, sim::chance(1, 2))); sim::fault("garbage_scan"); } else sim::fault("empty_scan");
    s.scans.push_back(sc);
  }
  return s;
}
// each spec in a process of its own, in its own memory
void run_alone(std::vector<Spec> &specs) {
  for (auto &s : specs) {
    if (!s.alone.empty()) continue;
    auto out = sim::isolated([&](std::vector<uint8_t> &o) { Instance i{s, false}; uint64_t d = i.digest(); auto put = [&] { o.insert(o.end(), (uint8_t *)&d, (uint8_t *)&d + 8); }; put(); while (!i.finished()) { i.feed(false); d = i.digest(); put(); } });
    s.alone.resize(out.size() / 8); std::memcpy(s.alone.data(), out.data(), out.size());
    EXPECT(s.alone.size() == s.scans.size() + 1, "alone", "a SLAM running alone gives %zu digests for %zu scans", s.alone.size(), s.scans.size());
  }
}
std::vector<Spec> gen_specs(bool small) {
  std::vector<Spec> v; int n = 2 + (int)sim::draw(small ? 2 : 3);
  for (int i = 0; i < n; ++i) { sim::Span sp; v.push_back(gen_spec(small)); if (i && sim::chance(1, 3)) { v[i].cfg = v[i - 1].cfg; if (sim::chance(1, 2)) { v[i].scans = v[i - 1].scans; v[i].moves = v[i - 1].moves; } } if (i && sim::chance(1, 3)) { auto m = v[i].cfg.kind; v[i].cfg = v[i - 1].cfg; (void)m; auto o = gen_slam_cfg(SlamCfgOpts{}); if (o.kind == v[i].cfg.kind && o.kind != SLAM_GMAPPING) for (auto k : {"slam/scmtch/oope/type", "slam/occupancy_estimator/type", "slam/scmtch/spe/wmpp/weighting/type", "slam/scmtch/MC/seed", "slam/mapping/blur"}) if (o.kv.count(k) && v[i].cfg.kv["slam/scmtch/type"] != "BF_M3RSM") v[i].cfg.kv[k] = o.kv[k]; } }
  run_alone(v); return v;
}
}  // namespace

// others come, work, fail and go between the scans of an instance
SCENARIO(history, "c19.history") {
  silence(); auto specs = gen_specs(false); struct Slot { const Spec *s; std::unique_ptr<Instance> i; }; std::vector<Slot> live; int ops = 6 + (int)sim::draw(24), checks = 0, kinds = 0; std::set<const Spec *> seen;
  for (int k = 0; k < ops; ++k) {
    sim::Span sp; sim::step(); int op = live.empty() ? 0 : sim::weighted({3, 10, 1, 2});
    if (op == 0) {
      const Spec &s = specs[sim::draw((uint32_t)specs.size())]; bool spoil = sim::chance(1, 2); std::unique_ptr<Instance> i;
      if (sim::chance(1, 8)) { uint64_t kth = 1 + sim::draw(200); bool fired = false; try { sim::AllocFault f(kth); try { i.reset(new Instance(s, spoil)); } catch (...) { fired = f.fired(); throw; } if (f.fired()) fired = true; } catch (std::bad_alloc &) { } if (fired) { i.reset(); continue; } }
      else i.reset(new Instance(s, spoil));
      if (!i) continue;
      sim::log("construct %s", s.cfg.title.c_str()); check(*i, "freshly constructed", (int)live.size()); ++checks; seen.insert(&s); live.push_back({&s, std::move(i)}); continue;
    }
    size_t w = sim::draw((uint32_t)live.size()); auto &sl = live[w];
    if (op == 2 || sl.i->finished()) { sim::log("destroy %zu", w); sim::fault("instance_destroyed"); live.erase(live.begin() + w); continue; }
    if (op == 3) {     // the instance runs out of memory in the middle of a scan and is thrown away
      uint64_t kth = 1 + sim::draw(sim::chance(1, 2) ? 40 : 4000); bool fired = false; { sim::AllocFault f(kth); try { sl.i->feed(false); } catch (std::bad_alloc &) {} fired = f.fired(); }
      sim::log("feed %zu with allocation %llu failing%s", w, (unsigned long long)kth, fired ? "" : " (not reached)");
      if (fired) { live.erase(live.begin() + w); continue; }
    } else { sim::log("feed %zu", w); sl.i->feed(sim::chance(1, 3)); }
    check(*sl.i, "among others", (int)w); ++checks;
  }
  kinds = (int)seen.size(); if (checks > 3 && kinds > 1) sim::nontrivial(); sim::state(sim::log_hash()); sim::probe("scans_checked", checks);
}

// every instance in a thread of its own, preempted inside any function
SCENARIO(threads, "c19.threads") {
  silence(); auto specs = gen_specs(true); int64_t clock = 0; thr::Opts o; o.switch_pct = 20; o.slow_pct = 0;
  struct Job { const Spec *s; int id; bool spoil; pthread_t t; }; std::vector<Job> jobs; for (size_t i = 0; i < specs.size(); ++i) jobs.push_back({&specs[i], (int)i, sim::chance(1, 2), {}});
  int fine = 8 + (int)sim::draw(12);
  thr::begin(&clock, o); thr::quantum(fine);
  for (auto &j : jobs) pthread_create(&j.t, nullptr, [](void *p) -> void * {
    Job &j = *(Job *)p; auto i = std::make_unique<Instance>(*j.s, j.spoil); check(*i, "freshly constructed, in parallel", j.id);
    while (!i->finished()) { i->feed(false); check(*i, "in parallel", j.id); } return nullptr; }, &j);
  for (auto &j : jobs) pthread_join(j.t, nullptr);
  uint64_t sw = thr::switches(), order = thr::order_hash(); thr::quantum(0); thr::end(); sim::hash(order);
  sim::log("%zu instances, %llu switches", specs.size(), (unsigned long long)sw); for (auto &s : specs) sim::log("%s, %zu scans", s.cfg.title.c_str(), s.scans.size());
  if (sw > 8) sim::nontrivial(); sim::state(order);
}
