#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <new>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <dirent.h>
#include <ftw.h>
#include <malloc.h>

namespace sim {

static const uint32_t MAX_TRACE = 600000;
static const uint32_t MAX_STATES = 8192;
static const uint32_t LOG_TEXT = 1u << 20;
enum : uint32_t { K_BEGIN = 0xffffffffu, K_END = 0xfffffffeu };

struct Entry { uint32_t v, n; };   // n = K_BEGIN / K_END for span marks
struct Counter { char name[56]; uint64_t count; };

struct Shared {
  uint32_t trace_len, overflow;
  uint64_t rng; uint64_t replay_pos;   // shared with forked parts of a run
  uint64_t log_hash, steps, checks, logs;
  double sim_seconds;
  uint32_t done, failed, nontrivial_;
  char cls[160], msg[4096];
  uint32_t nstates;
  uint64_t states[MAX_STATES];
  uint32_t nfaults, nprobes;
  Counter faults[96], probes[160];
  uint32_t text_len;
  Entry trace[MAX_TRACE];
  char text[LOG_TEXT];
};

static Shared *S = nullptr;
static bool g_verbose = false, g_echo = false;
static bool g_replay = false;
static const std::vector<uint32_t> *g_replay_vals = nullptr;
static char g_phase[96] = "";
static std::string g_scratch_root, g_scratch;
static bool g_in_fail = false;
static bool g_sub = false;   // inside isolated()

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}

uint32_t draw(uint32_t n) {
  if (n <= 1) n = 1;
  uint32_t v;
  if (g_replay) {
    v = S->replay_pos < g_replay_vals->size() ? (*g_replay_vals)[S->replay_pos] : 0;
    ++S->replay_pos;
    if (v >= n) v = n - 1;
  } else {
    v = (uint32_t)(splitmix(S->rng) >> 11) % n;
  }
  if (S->trace_len < MAX_TRACE) S->trace[S->trace_len++] = {v, n};
  else { S->overflow = 1; finish_ok(); }   // bounded run length
  return v;
}
int weighted(const std::vector<int> &w) {
  int sum = 0;
  for (int x : w) sum += x;
  int r = (int)draw((uint32_t)sum);
  for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return (int)i; r -= w[i]; }
  return (int)w.size() - 1;
}
static void mark(uint32_t k) {
  if (S->trace_len < MAX_TRACE) S->trace[S->trace_len++] = {0, k};
}
Span::Span() { mark(K_BEGIN); }
Span::~Span() { mark(K_END); }

static void append_text(const char *s, size_t n) {
  if (!g_verbose) return;
  if (S->text_len + n + 2 < LOG_TEXT) {
    memcpy(S->text + S->text_len, s, n);
    S->text_len += n;
    S->text[S->text_len++] = '\n';
    S->text[S->text_len] = 0;
  }
  if (g_echo) { (void)!::syscall(SYS_write, 2, s, n); (void)!::syscall(SYS_write, 2, "\n", 1); }
}
void log(const char *fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  S->log_hash = fnv(S->log_hash, b, n);
  ++S->logs;
  append_text(b, n);
}
void hash(uint64_t v) { S->log_hash = fnv(S->log_hash, &v, 8); }
uint64_t log_hash() { return S->log_hash; }
void state(uint64_t h) { if (S->nstates < MAX_STATES) S->states[S->nstates++] = h; }
static void bump(Counter *c, uint32_t &n, uint32_t max, const char *name, uint64_t k) {
  for (uint32_t i = 0; i < n; ++i)
    if (!strncmp(c[i].name, name, sizeof(c[i].name) - 1)) { c[i].count += k; return; }
  if (n >= max) return;
  strncpy(c[n].name, name, sizeof(c[n].name) - 1);
  c[n].count = k; ++n;
}
void fault(const char *k, uint64_t n) { bump(S->faults, S->nfaults, 96, k, n); }
void probe(const char *k, uint64_t n) { bump(S->probes, S->nprobes, 160, k, n); }
void step(uint64_t n) { S->steps += n; }
void advance(double s) { S->sim_seconds += s; }
double now() { return S->sim_seconds; }
void nontrivial() { S->nontrivial_ = 1; }
void checked(uint64_t n) { S->checks += n; }
void phase(const char *name) { snprintf(g_phase, sizeof g_phase, "%s", name); }

[[noreturn]] static void die(const char *cls, const char *msg) {
  if (!S->failed) {
    S->failed = 1;
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg);
    append_text(msg, strlen(msg));
  }
  _exit(9);
}
void fail(const char *cls, const char *fmt, ...) {
  g_in_fail = true;
  char b[4000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  die(cls, b);
}
static bool g_quiet_death = false;
void set_quiet_death() { g_quiet_death = true; }
void die_if_failed() { if (S->failed) _exit(9); }
[[noreturn]] static void crash(const char *kind, const char *detail) {
  if (g_quiet_death && strncmp(kind, "asan", 4) && strcmp(kind, "hang") && strcmp(kind, "signal-11")) {
    char b[300]; int n = snprintf(b, sizeof b, "\n<died: %s: %.200s>\n", kind, detail);
    (void)!::syscall(SYS_write, 1, b, n); _exit(134);
  }
  char c[160];
  snprintf(c, sizeof c, "%s%s%s", g_phase, *g_phase ? ":" : "", kind);
  die(c, detail);
}
void finish_ok() { S->done = 1; _exit(0); }
AssertHook assert_hook = nullptr;

std::string scratch() {
  if (g_scratch.empty()) { fprintf(stderr, "no scratch\n"); abort(); }
  mkdir(g_scratch.c_str(), 0700);
  return g_scratch;
}

std::vector<uint8_t> isolated(const std::function<void(std::vector<uint8_t> &)> &fn) {
  int p[2];
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) crash("fork-failed", "fork");
  if (!pid) {
    close(p[0]); g_sub = true;
    std::vector<uint8_t> out;
    fn(out);
    size_t off = 0;
    while (off < out.size()) {
      ssize_t r = ::syscall(SYS_write, p[1], out.data() + off, out.size() - off);
      if (r <= 0) break;
      off += r;
    }
    _exit(0);
  }
  close(p[1]);
  std::vector<uint8_t> res; uint8_t buf[65536];
  for (;;) {
    ssize_t r = ::syscall(SYS_read, p[0], buf, sizeof buf);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    res.insert(res.end(), buf, buf + r);
  }
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (S->failed) _exit(9);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crash("isolated-child-died", "a forked sub-run died");
  return res;
}

// ---- allocation ----------------------------------------------------------
static bool a_on = false, a_fired = false;
static uint64_t a_count = 0, a_kth = 0;
static size_t a_live = 0, a_cap = 0;
AllocFault::AllocFault(uint64_t k) { a_on = true; a_fired = false; a_count = 0; a_kth = k; }
AllocFault::~AllocFault() { a_on = false; a_kth = 0; }
bool AllocFault::fired() const { return a_fired; }
uint64_t AllocFault::count() const { return a_count; }
void AllocFault::disarm() { a_on = false; a_kth = 0; }
void set_live_cap(size_t b) { a_cap = b; }
size_t live_bytes() { return a_live; }

static thread_local uint32_t g_entropy = 12345; static thread_local uint64_t g_entropy_reads = 0;   // every simulated thread has its own
void set_entropy(uint32_t b) { g_entropy = b; g_entropy_reads = 0; }
uint64_t entropy_reads() { return g_entropy_reads; }
uint32_t next_entropy() { uint64_t x = ((uint64_t)g_entropy << 20) + ++g_entropy_reads; return (uint32_t)splitmix(x); }

static void *do_new(size_t n, bool nothrow) {
  if (a_on) {
    ++a_count;
    if (a_kth && a_count == a_kth) {
      a_fired = true;
      fault("alloc_failure");
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (a_cap && (a_live + n > a_cap)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void *p = malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  a_live += malloc_usable_size(p);
  return p;
}
static void do_delete(void *p) {
  if (!p) return;
  a_live -= malloc_usable_size(p);
  free(p);
}

// ---- registry ------------------------------------------------------------
static Scenario *g_head = nullptr;
Scenario::Scenario(const char *n, void (*f)()) : name{n}, fn{f}, next{g_head} { g_head = this; }
static Scenario *find(const std::string &n) {
  for (Scenario *s = g_head; s; s = s->next) if (n == s->name) return s;
  return nullptr;
}

}  // namespace sim

// ---- interposed runtime functions ---------------------------------------
void *operator new(size_t n) { return sim::do_new(n, false); }
void *operator new[](size_t n) { return sim::do_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, true); }
void operator delete(void *p) noexcept { sim::do_delete(p); }
void operator delete[](void *p) noexcept { sim::do_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::do_delete(p); }

extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept(false) {
  if (sim::assert_hook) sim::assert_hook(e, f, l);
  const char *b = strrchr(f, '/'); b = b ? b + 1 : f;
  char c[140], m[1024];
  snprintf(c, sizeof c, "assert(%s@%.60s)", e, b);
  snprintf(m, sizeof m, "assertion failed: %s at %s:%u", e, f, l);
  sim::crash(c, m);
}
namespace std {
void __glibcxx_assert_fail(const char *file, int line, const char *fn, const char *cond) noexcept {
  char m[1500];
  snprintf(m, sizeof m, "libstdc++ assertion '%s' in %.300s (%s:%d)", cond ? cond : "", fn ? fn : "", file ? file : "", line);
  sim::crash("glibcxx-assert", m);
}
// std::random_device is a seam: entropy comes from the simulator
void random_device::_M_init(const std::string &) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sim::next_entropy(); }
random_device::result_type random_device::_M_getval_pretr1() { return sim::next_entropy(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}
extern "C" {
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=2:handle_abort=0:print_legend=0:quarantine_size_mb=32";
}
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
const char *__asan_get_report_description() __attribute__((weak));
}

namespace sim {

static void on_asan(const char *rep) {
  char c[100];
  snprintf(c, sizeof c, "asan-%s", __asan_get_report_description ? __asan_get_report_description() : "error");
  crash(c, rep);
}
static void on_terminate() {
  const char *what = "std::terminate";
  std::string w;
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (std::exception &x) { w = std::string("uncaught exception: ") + x.what(); what = w.c_str(); }
    catch (...) { what = "uncaught exception"; }
  }
  crash("terminate", what);
}
static void on_signal(int s) {
  if (s == SIGXCPU) crash("hang", "run exceeded its CPU budget");
  char b[40]; snprintf(b, sizeof b, "signal-%d", s);
  crash(b, b);
}

// ---- driver --------------------------------------------------------------
struct Job { bool replay = false; uint64_t seed = 0, idx = 0; std::vector<uint32_t> vals; bool verbose = false; };
struct Result {
  bool ok = false; std::string cls, msg; uint64_t hash = 0; uint32_t len = 0;
};
static int g_cpu_limit = 30;
static Shared *g_slots[64];

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { ::remove(p); return 0; }
static void wipe(const std::string &d) { nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static uint64_t mix_seed(uint64_t seed, const char *scen, uint64_t idx) {
  uint64_t x = fnv(1469598103934665603ull, scen, strlen(scen));
  x ^= seed * 0x9e3779b97f4a7c15ull; splitmix(x);
  x += idx * 0xd1342543de82ef95ull;
  splitmix(x);
  return x;
}

static pid_t launch(int slot, Scenario *sc, const Job &j) {
  Shared *sh = g_slots[slot];
  memset(sh, 0, offsetof(Shared, trace));
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid) return pid;
  S = sh;
  S->log_hash = 1469598103934665603ull;
  g_scratch = g_scratch_root + "/s" + std::to_string(slot);
  g_verbose = j.verbose;
  g_replay = j.replay; g_replay_vals = &j.vals; S->replay_pos = 0;
  S->rng = mix_seed(j.seed, sc->name, j.idx);
  int dn = open("/dev/null", O_RDWR);
  if (!getenv("SIM_STDOUT")) { dup2(dn, 1); if (!g_echo) dup2(dn, 2); }
  dup2(dn, 0); close(dn);
  struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 3};
  setrlimit(RLIMIT_CPU, &rl);
  struct rlimit nc = {0, 0};
  setrlimit(RLIMIT_CORE, &nc);
  signal(SIGXCPU, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGPIPE, SIG_IGN);
  if (!__asan_get_report_description) { signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); }
  else __asan_set_error_report_callback(on_asan);
  std::set_terminate(on_terminate);
  set_entropy(0x51ab);
  try { sc->fn(); }
  catch (std::exception &e) { crash("exception", e.what()); }
  catch (...) { crash("exception", "unknown exception"); }
  S->done = 1;
  _exit(0);
}

static Result harvest(int slot, int status) {
  Shared *sh = g_slots[slot];
  Result r; r.hash = sh->log_hash; r.len = sh->trace_len;
  if (sh->failed) { r.cls = sh->cls; r.msg = sh->msg; return r; }
  if (sh->done && WIFEXITED(status)) { r.ok = true; return r; }
  if (WIFSIGNALED(status)) {
    r.cls = WTERMSIG(status) == SIGKILL ? "hang" : "signal-" + std::to_string(WTERMSIG(status));
    r.msg = r.cls;
  } else { r.cls = "exit-" + std::to_string(WEXITSTATUS(status)); r.msg = "run ended without a verdict"; }
  return r;
}

static std::vector<Result> run_jobs(Scenario *sc, const std::vector<Job> &jobs, int J,
                                    const std::function<bool(size_t, const Result &, Shared *)> &sink) {
  std::vector<Result> res(jobs.size());
  std::map<pid_t, std::pair<int, size_t>> live;
  std::vector<int> freeslots;
  for (int i = J - 1; i >= 0; --i) freeslots.push_back(i);
  size_t next = 0; bool stop = false;
  while (live.size() || (!stop && next < jobs.size())) {
    while (!stop && next < jobs.size() && !freeslots.empty()) {
      int s = freeslots.back(); freeslots.pop_back();
      live[launch(s, sc, jobs[next])] = {s, next};
      ++next;
    }
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    auto it = live.find(p);
    if (it == live.end()) continue;
    int s = it->second.first; size_t ji = it->second.second;
    live.erase(it);
    res[ji] = harvest(s, st);
    if (!sink(ji, res[ji], g_slots[s])) stop = true;
    std::string d = g_scratch_root + "/s" + std::to_string(s);
    if (access(d.c_str(), F_OK) == 0) wipe(d);
    freeslots.push_back(s);
  }
  return res;
}

struct TraceCopy { std::vector<Entry> e; std::vector<uint32_t> vals() const {
  std::vector<uint32_t> v; for (auto &x : e) if (x.n < K_END) v.push_back(x.v); return v; } };
static TraceCopy copy_trace(Shared *s) { TraceCopy t; t.e.assign(s->trace, s->trace + s->trace_len); return t; }

static bool simpler(const TraceCopy &a, const TraceCopy &b) {
  auto x = a.vals(), y = b.vals();
  if (x.size() != y.size()) return x.size() < y.size();
  return x < y;
}

static double wall() {
  struct timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Shrinker {
  Scenario *sc; int J; std::string cls; TraceCopy best; Result best_res; double deadline; size_t tried = 0;
  // tries candidates in parallel; adopts the first (lowest index) that is
  // simpler and fails in the same class
  bool attempt(const std::vector<std::vector<uint32_t>> &cands) {
    for (size_t off = 0; off < cands.size(); off += J) {
      if (wall() > deadline) return false;
      std::vector<Job> jobs;
      for (size_t i = off; i < std::min(cands.size(), off + J); ++i) { Job j; j.replay = true; j.vals = cands[i]; jobs.push_back(j); }
      std::vector<TraceCopy> tr(jobs.size());
      auto rs = run_jobs(sc, jobs, J, [&](size_t i, const Result &r, Shared *s) {
        if (!r.ok && r.cls == cls) tr[i] = copy_trace(s);
        return true; });
      tried += jobs.size();
      for (size_t i = 0; i < jobs.size(); ++i)
        if (!rs[i].ok && rs[i].cls == cls && simpler(tr[i], best)) { best = tr[i]; best_res = rs[i]; return true; }
    }
    return false;
  }
  void run() {
    bool progress = true;
    while (progress && wall() < deadline) {
      progress = false;
      // 1. delete spans, large first
      for (bool again = true; again && wall() < deadline;) {
        again = false;
        std::vector<std::pair<size_t, size_t>> spans;  // value index ranges
        std::vector<size_t> st; size_t vi = 0;
        for (auto &x : best.e) {
          if (x.n == K_BEGIN) st.push_back(vi);
          else if (x.n == K_END) { if (!st.empty()) { if (vi > st.back()) spans.push_back({st.back(), vi}); st.pop_back(); } }
          else ++vi;
        }
        while (!st.empty()) { if (vi > st.back()) spans.push_back({st.back(), vi}); st.pop_back(); }
        auto vals = best.vals();
        // groups of consecutive spans first (halves, quarters), then single ones
        std::vector<std::pair<size_t, size_t>> cand;
        std::vector<std::pair<size_t, size_t>> top = spans;
        std::sort(top.begin(), top.end(), [](std::pair<size_t, size_t> a, std::pair<size_t, size_t> b) {
          return a.second - a.first > b.second - b.first; });
        for (size_t n = spans.size(); n >= 2; n /= 2)
          for (size_t i = 0; i + n / 2 <= spans.size(); i += std::max<size_t>(1, n / 2)) {
            size_t e = std::min(spans.size(), i + n / 2) - 1;
            if (spans[e].second > spans[i].first) cand.push_back({spans[i].first, spans[e].second});
          }
        cand.insert(cand.end(), top.begin(), top.end());
        std::vector<std::vector<uint32_t>> cs;
        for (auto &c : cand) {
          std::vector<uint32_t> v(vals.begin(), vals.begin() + c.first);
          v.insert(v.end(), vals.begin() + c.second, vals.end());
          cs.push_back(v);
          // also: delete the span and decrement the preceding draw (a count)
          if (cs.size() > 4000) break;
        }
        if (attempt(cs)) { again = true; progress = true; }
      }
      // 2. cut the tail
      { auto v = best.vals(); std::vector<std::vector<uint32_t>> cs;
        for (size_t k = v.size() / 2; k >= 1; k /= 2) cs.push_back(std::vector<uint32_t>(v.begin(), v.end() - k));
        if (attempt(cs)) progress = true; }
      // 3. delete small chunks of draws
      for (size_t k : {8u, 4u, 2u, 1u}) {
        if (best.vals().size() > 3000) break;
        for (size_t i = 0; wall() < deadline && i < best.vals().size();) {
          auto v = best.vals(); std::vector<std::vector<uint32_t>> cs; 
          for (size_t t = i; t < v.size() && cs.size() < (size_t)J; t += k) {
            auto w = v; w.erase(w.begin() + t, w.begin() + std::min(v.size(), t + k)); cs.push_back(w); }
          if (attempt(cs)) progress = true; else i += k * J;
        }
      }
      // 4. zero, then halve, then decrement values
      if (best.vals().size() <= 3000)
      for (int mode = 0; mode < 3; ++mode)
        for (size_t i = 0; wall() < deadline && i < best.vals().size();) {
          auto v = best.vals(); std::vector<std::vector<uint32_t>> cs; size_t t = i;
          for (; t < v.size() && cs.size() < (size_t)J; ++t) {
            if (!v[t]) continue;
            auto w = v; w[t] = mode == 0 ? 0 : mode == 1 ? v[t] / 2 : v[t] - 1; 
            if (mode == 1 && v[t] < 2) continue;
            cs.push_back(w); }
          if (!cs.empty() && attempt(cs)) { progress = true; if (mode == 2) i = i; } else i = std::max(t, i + 1);
        }
    }
  }
};

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static bool read_replay(const char *path, std::string &scen, std::string &cls, uint64_t &h, std::vector<uint32_t> &vals) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    std::string l(line, n); while (!l.empty() && (l.back() == '\n')) l.pop_back();
    if (l.compare(0, 9, "scenario ") == 0) scen = l.substr(9);
    else if (l.compare(0, 6, "class ") == 0) cls = l.substr(6);
    else if (l.compare(0, 5, "hash ") == 0) h = strtoull(l.c_str() + 5, nullptr, 16);
    else if (l.compare(0, 6, "trace ") == 0) { std::istringstream is(l.substr(6)); uint32_t v; while (is >> v) vals.push_back(v); }
  }
  free(line); fclose(f);
  return !scen.empty();
}

static int driver(int argc, char **argv) {
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  if (mode == "list") { for (Scenario *s = g_head; s; s = s->next) puts(s->name); return 0; }
  int J = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
  if (J > 60) J = 60;
  if (o.count("--cpu")) g_cpu_limit = atoi(o["--cpu"].c_str());
  for (int i = 0; i < J; ++i) {
    g_slots[i] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_slots[i] == MAP_FAILED) { perror("mmap"); return 3; }
  }
  { char tmpl[] = "/tmp/vsim.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } g_scratch_root = tmpl; }
  struct Cleaner { ~Cleaner() { wipe(g_scratch_root); } } cleaner;

  if (mode == "replay") {
    std::string scen, cls; uint64_t h = 0; Job j; j.replay = true; j.verbose = true;
    if (!read_replay(o["--file"].c_str(), scen, cls, h, j.vals)) { fprintf(stderr, "bad replay file\n"); return 3; }
    Scenario *sc = find(scen); if (!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
    g_echo = o.count("--echo");
    Result rr;
    run_jobs(sc, {j}, 1, [&](size_t, const Result &r, Shared *s) { rr = r; if (!g_echo) fwrite(s->text, 1, s->text_len, stdout); return true; });
    printf("RESULT class=%s hash=%016llx expected_class=%s expected_hash=%016llx\n%s\n", rr.ok ? "none" : rr.cls.c_str(),
           (unsigned long long)rr.hash, cls.c_str(), (unsigned long long)h, rr.msg.c_str());
    if (rr.ok) return 0;
    return (rr.cls == cls && rr.hash == h) ? 1 : 4;
  }
  if (mode == "one") {   // debugging: run one seed/index verbosely
    Scenario *sc = find(o["--scenario"]); if (!sc) return 3;
    Job j; j.seed = strtoull(o["--seed"].c_str(), nullptr, 10); j.idx = strtoull(o["--idx"].c_str(), nullptr, 10); j.verbose = true;
    g_echo = true;
    Result rr = run_jobs(sc, {j}, 1, [&](size_t, const Result &, Shared *s) {
      for (uint32_t i = 0; i < s->nfaults; ++i) printf("fault %s %llu\n", s->faults[i].name, (unsigned long long)s->faults[i].count);
      for (uint32_t i = 0; i < s->nprobes; ++i) printf("probe %s %llu\n", s->probes[i].name, (unsigned long long)s->probes[i].count);
      printf("draws %u checks %llu steps %llu\n", s->trace_len, (unsigned long long)s->checks, (unsigned long long)s->steps);
      return true; })[0];
    printf("%s %s\n", rr.ok ? "ok" : rr.cls.c_str(), rr.msg.c_str());
    return rr.ok ? 0 : 1;
  }
  if (mode != "run") { fprintf(stderr, "usage: list|run|replay|one\n"); return 3; }

  Scenario *sc = find(o["--scenario"]);
  if (!sc) { fprintf(stderr, "unknown scenario %s\n", o["--scenario"].c_str()); return 3; }
  uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 10);
  uint64_t runs = strtoull(o["--runs"].c_str(), nullptr, 10);
  uint64_t gate = o.count("--gate") ? strtoull(o["--gate"].c_str(), nullptr, 10) : 24;
  double shrink_s = o.count("--shrink") ? atof(o["--shrink"].c_str()) : 45;
  double t0 = wall();

  std::map<std::string, uint64_t> faults, probes, fault_runs;
  std::unordered_set<uint64_t> hashes, nt_hashes, states;
  uint64_t checks = 0, steps = 0, done = 0, draws = 0, overflow = 0, nontriv = 0; double simt = 0;
  std::map<size_t, Result> failures; std::map<size_t, TraceCopy> ftr;
  std::vector<uint64_t> rhash(std::min(gate, runs), 0);
  std::vector<uint32_t> rlen(std::min(gate, runs), 0);
  std::vector<Job> jobs(runs);
  for (uint64_t i = 0; i < runs; ++i) { jobs[i].seed = seed; jobs[i].idx = i; }
  std::vector<std::string> samples;
  run_jobs(sc, jobs, J, [&](size_t i, const Result &r, Shared *s) {
    ++done; hashes.insert(r.hash); checks += s->checks; steps += s->steps; simt += s->sim_seconds; draws += s->trace_len; overflow += s->overflow;
    for (uint32_t k = 0; k < s->nstates; ++k) states.insert(s->states[k]);
    if (s->nontrivial_) { ++nontriv; nt_hashes.insert(r.hash); }
    for (uint32_t k = 0; k < s->nfaults; ++k) { faults[s->faults[k].name] += s->faults[k].count; ++fault_runs[s->faults[k].name]; }
    for (uint32_t k = 0; k < s->nprobes; ++k) probes[s->probes[k].name] += s->probes[k].count;
    if (i < rhash.size()) { rhash[i] = r.hash; rlen[i] = r.len; }
    if (!r.ok) { failures[i] = r; ftr[i] = copy_trace(s); return failures.size() < 8; }
    return true; });
  double t_run = wall() - t0;

  // determinism gate: the same seeds again, another worker count
  bool nondet = false; std::string ndmsg;
  { size_t n = std::min<uint64_t>(rhash.size(), done);
    std::vector<Job> again; std::vector<size_t> idx;
    for (size_t i = 0; i < n; ++i) if (rlen[i] && !failures.count(i)) { again.push_back(jobs[i]); idx.push_back(i); }
    run_jobs(sc, again, std::max(1, J / 2), [&](size_t k, const Result &r, Shared *) {
      if (!r.ok || r.hash != rhash[idx[k]]) { nondet = true; ndmsg = "run " + std::to_string(idx[k]) + " did not repeat (" + (r.ok ? "hash" : r.cls) + ")"; }
      return true; });
  }
  { Job j; j.seed = seed; j.idx = 0; j.verbose = true;
    run_jobs(sc, {j}, 1, [&](size_t, const Result &, Shared *s) {
      std::string t(s->text, std::min<uint32_t>(s->text_len, 700)); samples.push_back(t); return true; }); }

  std::string viol = "null"; int rc = 0;
  for (auto &f : failures) {
    // same trace twice must fail identically, otherwise try the next one
    Job j; j.replay = true; j.vals = ftr[f.first].vals();
    auto r2 = run_jobs(sc, {j, j}, 2, [](size_t, const Result &, Shared *) { return true; });
    if (r2[0].ok || r2[1].ok || r2[0].cls != f.second.cls || r2[1].cls != f.second.cls || r2[0].hash != r2[1].hash) {
      nondet = true; ndmsg = "failing run " + std::to_string(f.first) + " (" + f.second.cls + ") did not repeat";
      continue;
    }
    Shrinker sh{sc, J, f.second.cls, ftr[f.first], r2[0], wall() + shrink_s};
    if (shrink_s > 0) sh.run();
    Job fin; fin.replay = true; fin.vals = sh.best.vals(); fin.verbose = true;
    std::string text; Result fr;
    run_jobs(sc, {fin}, 1, [&](size_t, const Result &r, Shared *s) { fr = r; text.assign(s->text, s->text_len); return true; });
    if (fr.ok || fr.cls != f.second.cls) { nondet = true; ndmsg = "minimised run did not repeat"; continue; }
    std::string path = o["--replay-out"];
    FILE *fo = fopen(path.c_str(), "w");
    if (!fo) { perror(path.c_str()); return 3; }
    fprintf(fo, "# minimised schedule and fault trace; replay: python3 /verif/check.py --replay %s\n", path.c_str());
    fprintf(fo, "scenario %s\nseed %llu\nrun %llu\nclass %s\nhash %016llx\noriginal_draws %zu\nminimised_draws %zu\nshrink_attempts %zu\ntrace", sc->name,
            (unsigned long long)seed, (unsigned long long)f.first, fr.cls.c_str(), (unsigned long long)fr.hash,
            ftr[f.first].vals().size(), fin.vals.size(), sh.tried);
    for (uint32_t v : fin.vals) fprintf(fo, " %u", v);
    fprintf(fo, "\n# event log of the minimised run\n");
    std::istringstream is(text); std::string ln;
    while (std::getline(is, ln)) fprintf(fo, "# %s\n", ln.c_str());
    fclose(fo);
    viol = "{\"class\":" + jstr(fr.cls) + ",\"message\":" + jstr(fr.msg) + ",\"run\":" + std::to_string(f.first) + ",\"replay\":" + jstr(path) +
           ",\"original_draws\":" + std::to_string(ftr[f.first].vals().size()) + ",\"minimised_draws\":" + std::to_string(fin.vals.size()) + "}";
    rc = 1;
    break;
  }
  std::ostringstream js;
  js << "{\"scenario\":" << jstr(sc->name) << ",\"seed\":" << seed << ",\"runs\":" << done << ",\"wall_s\":" << (wall() - t0)
     << ",\"run_wall_s\":" << t_run << ",\"checks\":" << checks << ",\"steps\":" << steps << ",\"sim_seconds\":" << simt << ",\"draws\":" << draws
     << ",\"overflow\":" << overflow << ",\"distinct_histories\":" << hashes.size() << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << nt_hashes.size()
     << ",\"distinct_states\":" << states.size() << ",\"gate_runs\":" << rhash.size() << ",\"nondeterministic\":" << (nondet ? "true" : "false")
     << ",\"nondet_message\":" << jstr(ndmsg) << ",\"failures\":" << failures.size() << ",\"failure_classes\":[";
  { std::set<std::string> cl; for (auto &f : failures) cl.insert(f.second.cls); bool first = true; for (auto &c : cl) { js << (first ? "" : ",") << jstr(c); first = false; } }
  js << "],\"faults\":{";
  bool first = true;
  for (auto &f : faults) { js << (first ? "" : ",") << jstr(f.first) << ":{\"injected\":" << f.second << ",\"runs\":" << fault_runs[f.first] << "}"; first = false; }
  js << "},\"probes\":{"; first = true;
  for (auto &f : probes) { js << (first ? "" : ",") << jstr(f.first) << ":" << f.second; first = false; }
  js << "},\"sample\":" << jstr(samples.empty() ? "" : samples[0]) << ",\"violation\":" << viol << "}\n";
  FILE *fo = fopen(o["--out"].c_str(), "w");
  if (!fo) { perror("out"); return 3; }
  fputs(js.str().c_str(), fo); fclose(fo);
  if (rc == 0 && nondet) { fprintf(stderr, "NONDETERMINISM %s: %s\n", sc->name, ndmsg.c_str()); return 5; }
  return rc;
}

}  // namespace sim

#undef main
int main(int argc, char **argv) {
  // C locale, UTC: nothing of the environment reaches the code under test
  setenv("TZ", "UTC", 1);
  return sim::driver(argc, argv);
}
