// A scheduler that runs the threads of a program one at a time and decides at every synchronization operation which of
// them goes on. The standard library's primitives are replaced by ones that use it (sched_shim.h).
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vsched {

// Runs `main` as thread 0 under the scheduler. Returns false if the threads got stuck; the process must exit then.
struct strategy {
  // Random if limit < 0, otherwise systematic: at most `limit` deviations from the default.
  int limit = -1;
  uint64_t seed = 0;
  int switch_den = 4;      // random: switch with probability 1 / switch_den
  int burn_den = 4;        // random: spin to exhaustion with probability 1 / burn_den
  int spurious_den = 0;    // random: wake up spuriously with probability 1 / spurious_den
  long max_steps = 2000000;
  std::vector<std::pair<int, int>> prefix;   // systematic: (choice, number of choices) so far
};

extern bool active;
extern void (*on_stuck)(const char* why);
extern void (*on_thread)();   // called by every thread that starts
void run(const strategy& s, const std::function<void()>& main);
std::vector<std::pair<int, int>> choices();   // the choices of the last run (systematic)
bool next_prefix(std::vector<std::pair<int, int>>& p);   // the next schedule, false if there is none
long steps();

int self();               // the thread's number
void point();             // other threads may run
void progress();          // something changed: spinning threads may look again
void yield();
// Happens-before: every thread has a vector clock; releasing operations publish it, acquiring ones join what was published.
constexpr int max_clock = 16;
struct vclock { uint32_t c[max_clock] = {}; };
vclock clock();           // the clock of this thread; its own component is advanced, so that events can be told apart
void join_clock(const vclock&);
void fence(bool acquire, bool release);
// An atomic's operation: how it reads and writes.
extern void (*on_atomic)(const void* at);   // called for every operation on an atomic
void atomic_gone(const void* at);
void atomic_op(const void* at, bool reads, bool acquire, bool writes, bool release);
struct mutex_state { int owner = -1; vclock at; };
void lock(mutex_state*);
bool try_lock(mutex_state*);
void unlock(mutex_state*);
void cv_wait(void* cv, mutex_state*);
void cv_notify(void* cv, bool all);
int spawn(std::function<void()> f);
void join(int t);
bool blocked(int t);      // the thread waits for a notification, a lock or another thread

}  // namespace vsched
#endif
