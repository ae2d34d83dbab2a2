// Simulated threads: every thread of a run is a real one, but only the holder
// of a single token executes; at each lock, unlock, wait, sleep, clock reading
// and explicit yield the seeded scheduler decides who goes on.  Time is the
// simulator's: it moves when everybody waits, or when the scheduler lets the
// running thread be slow.
#ifndef VERIF_THREADS_H
#define VERIF_THREADS_H
#include <cstdint>

namespace thr {
struct Opts { int switch_pct = 25;      // percent of the scheduling points that may preempt
              int slow_pct = 3;         // of slow_of scheduling points, at how many time passes for the others
              int slow_of = 100;
              bool log = false; };
// the calling thread becomes thread 0; clock is the simulated clock
void begin(int64_t *clock_ns, const Opts &o = Opts());
// lets every other thread run until it ends; fails the run if one does not
// within the given number of scheduling points.  Then threads are real again.
void end(uint64_t max_points = 20000);
bool on();
void point(const char *where);          // scheduling point
void sleep(int64_t ns);
void sleep_until(int64_t t);
int alive();                            // threads that have not ended, besides thread 0
int self();
uint64_t points(); uint64_t switches(); uint64_t order_hash();
void set(const Opts &o);
// preemption inside code compiled with -finstrument-functions: at a function entry,
// after a drawn number of them, at most 2^max_log2 (0: never)
void quantum(int max_log2);
}
#endif
