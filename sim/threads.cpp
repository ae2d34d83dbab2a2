#include "threads.h"
#include "sim.h"
#include <cerrno>
#include <climits>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace thr {
namespace {
enum St { RUN, MUTEX, COND, SLEEP, JOIN, DONE };
struct T {
  St st = RUN; const void *on = nullptr; int64_t until = -1; bool timed_out = false; bool detached = false;
  int join = -1; pthread_t real{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; int go = 0;
};
struct Mx { int owner = -1, depth = 0; std::vector<int> readers; };
struct World { std::vector<T *> t; std::map<const void *, Mx> mx; int64_t *clock = nullptr; Opts o; uint64_t points = 0, switches = 0, h = 1469598103934665603ull; bool ending = false; uint64_t limit = 0; };
World *W = nullptr;
int q_max = 0; int64_t q_left = 0;
thread_local int me = -1;

void futex_wait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) ::syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
void futex_post(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); ::syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void note(int id, const char *w) { for (const char *c = w; *c; ++c) { W->h ^= (unsigned char)*c; W->h *= 1099511628211ull; } W->h ^= id; W->h *= 1099511628211ull; }
int64_t now() { return *W->clock; }
void wake_due() { for (auto t : W->t) if ((t->st == SLEEP || t->st == COND || t->st == MUTEX || t->st == JOIN) && t->until >= 0 && t->until <= now()) { t->timed_out = true; t->until = -1; t->st = RUN; } }
bool pass_time() {   // to the next moment somebody waits for
  int64_t best = -1; for (auto t : W->t) if (t->st != RUN && t->st != DONE && t->until >= 0 && (best < 0 || t->until < best)) best = t->until;
  if (best < 0) return false;
  if (best > now()) { sim::advance((best - now()) * 1e-9); *W->clock = best; }
  wake_due(); return true;
}
void hand_to(int id) {
  if (id == me) return;
  ++W->switches; T *mine = W->t[me]; bool gone = mine->st == DONE; int *g = &mine->go;
  futex_post(&W->t[id]->go); if (!gone) futex_wait(g);
}
// picks who runs next; the caller may or may not be runnable
void reschedule(const char *where) {
  ++W->points; note(me, where); sim::step();
  if (W->ending && W->points > W->limit) sim::fail("thread-does-not-end", "a thread still runs %llu scheduling points after the end", (unsigned long long)(W->points));
  wake_due();
  std::vector<int> r; bool mine = W->t[me]->st == RUN;
  if (mine && W->o.slow_pct && sim::chance(W->o.slow_pct, W->o.slow_of)) { if (pass_time()) sim::fault("slow_thread"); }
  for (;;) {
    r.clear(); if (mine) r.push_back(me); for (int i = 0; i < (int)W->t.size(); ++i) if (i != me && W->t[i]->st == RUN) r.push_back(i);
    if (!r.empty()) break;
    if (!pass_time()) { std::string s; for (size_t i = 0; i < W->t.size(); ++i) { char b[64]; snprintf(b, sizeof b, " thread %zu: %s", i, W->t[i]->st == MUTEX ? "lock" : W->t[i]->st == COND ? "condition" : W->t[i]->st == JOIN ? "join" : "ended"); s += b; } sim::fail("deadlock", "all threads wait forever:%s", s.c_str()); }
    mine = W->t[me]->st == RUN;
  }
  int k = 0;
  if (r.size() > 1) { if (!mine) k = sim::draw((uint32_t)r.size()); else if (sim::chance(W->o.switch_pct, 100)) { k = sim::draw((uint32_t)r.size()); if (k) sim::fault("preemption"); } }
  hand_to(r[k]);
}
void block(St s, const void *on, int64_t until, const char *where) { T *t = W->t[me]; t->st = s; t->on = on; t->until = until; t->timed_out = false; reschedule(where); }
bool sim_thread() { return W && me >= 0; }

void release_all(St s, const void *on, int n = INT_MAX) { for (auto t : W->t) if (n > 0 && t->st == s && t->on == on) { t->st = RUN; t->until = -1; t->on = nullptr; --n; } }
int lock(const void *m, int64_t until, bool try_only, bool recursive) {
  reschedule("lock"); auto *x = &W->mx[m];
  for (;;) {
    if (x->owner < 0 && x->readers.empty()) { x->owner = me; x->depth = 1; return 0; }
    if (x->owner == me && recursive) { ++x->depth; return 0; }
    if (try_only) return EBUSY;
    block(MUTEX, m, until, "wait for lock"); x = &W->mx[m];
    if (W->t[me]->timed_out) { W->t[me]->timed_out = false; return ETIMEDOUT; }
  }
}
bool unlock(const void *m) {
  auto i = W->mx.find(m); if (i == W->mx.end() || (i->second.owner < 0 && i->second.readers.empty())) return false;
  auto &x = i->second;
  if (x.owner >= 0) { if (--x.depth) return true; x.owner = -1; }
  else { for (size_t k = 0; k < x.readers.size(); ++k) if (x.readers[k] == me) { x.readers.erase(x.readers.begin() + k); break; } }
  release_all(MUTEX, m); reschedule("unlock"); return true;
}
int rdlock(const void *m, bool try_only) {
  reschedule("rdlock"); auto *x = &W->mx[m];
  for (;;) { if (x->owner < 0) { x->readers.push_back(me); return 0; } if (try_only) return EBUSY; block(MUTEX, m, -1, "wait for rdlock"); x = &W->mx[m]; }
}
void *trampoline(void *p) {
  T *t = (T *)p; for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i] == t) me = (int)i;
  futex_wait(&t->go);
  void *r = t->fn(t->arg);
  t->st = DONE; release_all(JOIN, t); reschedule("end of thread");   // hands the token on for good
  me = -1; return r;
}
int64_t until_of(const struct timespec *ts) { return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec; }
template <typename F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}  // namespace

void begin(int64_t *c, const Opts &o) { W = new World; W->clock = c; W->o = o; me = 0; T *t = new T; t->real = pthread_self(); W->t.push_back(t); }
void set(const Opts &o) { if (W) W->o = o; }
void end(uint64_t max_points) {
  W->ending = true; W->limit = W->points + max_points; W->o.slow_pct = 0;
  for (;;) { int n = alive(); if (!n) break; T *t = W->t[0]; t->st = SLEEP; t->until = now() + 1000000; reschedule("end"); }
  World *w = W; W = nullptr; me = -1; for (auto t : w->t) delete t; delete w;
}
bool on() { return W != nullptr; }
void quantum(int m) { q_max = m; if (!m) { q_left = 0; return; } int k = m - (int)sim::draw(m); q_left = (2ll << k) - sim::draw(2u << k); }   // draws of 0 mean long ones
void point(const char *w) { if (sim_thread()) reschedule(w); }
void sleep_until(int64_t t) { if (t <= now()) { reschedule("sleep"); return; } block(SLEEP, nullptr, t, "sleep"); }
void sleep(int64_t ns) { sleep_until(now() + ns); }
int alive() { int n = 0; for (size_t i = 1; i < W->t.size(); ++i) n += W->t[i]->st != DONE; return n; }
int self() { return me; }
uint64_t points() { return W ? W->points : 0; }
uint64_t switches() { return W ? W->switches : 0; }
uint64_t order_hash() { return W ? W->h : 0; }
}  // namespace thr

using namespace thr;
#define NOINSTR __attribute__((no_instrument_function))
extern "C" NOINSTR void __cyg_profile_func_enter(void *, void *);
extern "C" NOINSTR void __cyg_profile_func_exit(void *, void *) ;
extern "C" void __cyg_profile_func_enter(void *, void *) {
  if (!q_left || --q_left) return;
  if (!sim_thread()) { q_left = 1; return; }
  quantum(q_max);
  ++W->points; note(me, "call"); std::vector<int> r; for (int i = 0; i < (int)W->t.size(); ++i) if (i != me && W->t[i]->st == RUN) r.push_back(i);
  if (!r.empty()) { sim::fault("preemption"); sim::step(); hand_to(r[sim::draw((uint32_t)r.size())]); }
}
extern "C" void __cyg_profile_func_exit(void *, void *) {}
// initialisation of function-local statics: waiting for it must not block the token
extern "C" int __cxa_guard_acquire(uint64_t *g) {
  auto b = (volatile unsigned char *)g; if (b[0]) return 0;
  while (b[1]) { if (!sim_thread()) return 0; block(MUTEX, g, -1, "wait for static"); if (b[0]) return 0; }
  b[1] = 1; return 1;
}
extern "C" void __cxa_guard_release(uint64_t *g) { auto b = (volatile unsigned char *)g; b[0] = 1; b[1] = 0; if (sim_thread()) release_all(MUTEX, g); }
extern "C" void __cxa_guard_abort(uint64_t *g) { auto b = (volatile unsigned char *)g; b[1] = 0; if (sim_thread()) release_all(MUTEX, g); }
extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!sim_thread()) return f(out, a, fn, arg);
  T *t = new T; t->fn = fn; t->arg = arg; W->t.push_back(t);
  int r = f(&t->real, a, trampoline, t); if (r) { W->t.pop_back(); delete t; return r; }
  *out = t->real; reschedule("create thread"); return 0;
}
int pthread_join(pthread_t p, void **ret) {
  static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
  if (sim_thread()) { T *t = nullptr; for (auto x : W->t) if (x->fn && pthread_equal(x->real, p)) t = x; if (t) { if (t == W->t[me]) return EDEADLK; reschedule("join"); while (t->st != DONE) block(JOIN, t, -1, "join"); } }
  return f(p, ret);
}
int pthread_detach(pthread_t p) {
  static auto f = real<int (*)(pthread_t)>("pthread_detach");
  int r = f(p); if (sim_thread()) { for (auto x : W->t) if (pthread_equal(x->real, p)) x->detached = true; reschedule("detach"); } return r;
}
int pthread_mutex_lock(pthread_mutex_t *m) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return sim_thread() ? lock(m, -1, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : f(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return sim_thread() ? lock(m, -1, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : f(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { static auto f = real<int (*)(pthread_mutex_t *, const struct timespec *)>("pthread_mutex_timedlock"); return sim_thread() ? lock(m, until_of(ts), false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : f(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { static auto f = real<int (*)(pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_mutex_clocklock"); return sim_thread() ? lock(m, until_of(ts), false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) : f(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) { static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); if (sim_thread() && unlock(m)) return 0; return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); return sim_thread() ? lock(m, -1, false, false) : f(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock"); return sim_thread() ? lock(m, -1, true, false) : f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); return sim_thread() ? rdlock(m, false) : f(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock"); return sim_thread() ? rdlock(m, true) : f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); if (sim_thread() && unlock(m)) return 0; return f(m); }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t until) {
  reschedule("wait"); auto &x = W->mx[m]; int depth = x.depth; x.owner = -1; x.depth = 0; release_all(MUTEX, m);
  block(COND, c, until, "wait"); bool to = W->t[me]->timed_out; W->t[me]->timed_out = false;
  lock(m, -1, false, false); W->mx[m].depth = depth; return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return sim_thread() ? cond_wait(c, m, -1) : f(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return sim_thread() ? cond_wait(c, m, until_of(ts)) : f(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return sim_thread() ? cond_wait(c, m, until_of(ts)) : f(c, m, k, ts); }
int pthread_cond_signal(pthread_cond_t *c) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); if (!sim_thread()) return f(c);
  std::vector<int> w; for (size_t i = 0; i < W->t.size(); ++i) if (W->t[i]->st == COND && W->t[i]->on == c) w.push_back((int)i);
  if (!w.empty()) { T *t = W->t[w[sim::draw((uint32_t)w.size())]]; t->st = RUN; t->until = -1; }
  reschedule("signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); if (!sim_thread()) return f(c); release_all(COND, c); reschedule("broadcast"); return 0; }

int nanosleep(const struct timespec *ts, struct timespec *rem) { static auto f = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); if (!sim_thread()) return f(ts, rem); thr::sleep(until_of(ts)); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0; }
int clock_nanosleep(clockid_t k, int flags, const struct timespec *ts, struct timespec *rem) { static auto f = real<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep"); if (!sim_thread()) return f(k, flags, ts, rem); if (flags & TIMER_ABSTIME) thr::sleep_until(until_of(ts)); else thr::sleep(until_of(ts)); return 0; }
int usleep(useconds_t us) { static auto f = real<int (*)(useconds_t)>("usleep"); if (!sim_thread()) return f(us); thr::sleep((int64_t)us * 1000); return 0; }
int sched_yield() { static auto f = real<int (*)()>("sched_yield"); if (!sim_thread()) return f(); reschedule("yield"); return 0; }
int clock_gettime(clockid_t k, struct timespec *ts) { if (!sim_thread()) return (int)::syscall(SYS_clock_gettime, k, ts); reschedule("clock"); int64_t n = *W->clock; ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll; return 0; }
}
