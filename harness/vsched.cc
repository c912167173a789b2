#include "vsched.h"

#include <semaphore.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>
#include <unordered_map>

namespace vsched {

bool active = false;
void (*on_stuck)(const char* why) = nullptr;
void (*on_thread)() = nullptr;
void (*on_atomic)(const void* at) = nullptr;

namespace {

enum st { RUN, MUTEX, CV, JOIN, DONE };

struct thr {
  int id;
  sem_t sem;
  st s = RUN;
  void* on = nullptr;
  bool yielded = false, burn = false;
  vclock vc, pending, released;   // the clock; what relaxed loads have seen; the clock at the last release fence
  std::thread real;
};

std::vector<std::unique_ptr<thr>> T;
thread_local int me = 0;
strategy S;
uint64_t rs;
long n_steps;
std::vector<std::pair<int, int>> taken;
int cost_left;

uint64_t rnd() {
  rs += 0x9e3779b97f4a7c15ull;
  uint64_t z = rs;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
bool chance(int den) { return den > 0 && rnd() % den == 0; }

void stuck(const char* why) {
  if (on_stuck) on_stuck(why);
  fprintf(stderr, "stuck: %s\n", why);
  _exit(9);
}

// Systematic: choice among n, all but the first cost one deviation (if costs). Random is decided by the caller.
int choose(int n, bool costs) {
  if (n <= 1) return 0;
  if (costs && cost_left <= 0) return 0;
  int c = 0;
  if (taken.size() < S.prefix.size()) c = S.prefix[taken.size()].first;
  if (c >= n) c = n - 1;
  taken.push_back({c, n});
  if (costs && c > 0) --cost_left;
  return c;
}

void to(int t) {
  if (t == me) return;
  int m = me;
  sem_post(&T[t]->sem);
  while (sem_wait(&T[m]->sem) != 0) {}
}

std::vector<int> others(bool with_yielded) {
  std::vector<int> r;
  int n = T.size();
  for (int k = 1; k < n; ++k) {
    int i = (me + k) % n;
    if (T[i]->s == RUN && (with_yielded || !T[i]->yielded)) r.push_back(i);
  }
  return r;
}

// The current thread cannot go on.
int pick() {
  std::vector<int> o = others(false);
  if (o.empty()) o = others(true);
  if (o.empty()) stuck("deadlock");
  return S.limit < 0 ? o[rnd() % o.size()] : o[choose(o.size(), true)];
}

void block(st s, void* on) {
  thr& t = *T[me];
  t.s = s; t.on = on;
  t.burn = false; t.yielded = false;
  to(pick());
}

void preempt() {
  std::vector<int> o = others(false);
  if (o.empty()) return;
  if (S.limit < 0) {
    if (chance(S.switch_den)) to(o[rnd() % o.size()]);
  } else {
    int c = choose(o.size() + 1, true);
    if (c) to(o[c - 1]);
  }
}

void finish() {
  T[me]->s = DONE;
  for (auto& t : T) if (t->s == JOIN && t->on == T[me].get()) t->s = RUN;
  sem_post(&T[pick()]->sem);
}

void join_to(vclock& a, const vclock& b) {
  for (int i = 0; i < max_clock; ++i) a.c[i] = std::max(a.c[i], b.c[i]);
}
void tick() { if (me < max_clock) ++T[me]->vc.c[me]; }
void acquire_mutex(mutex_state* m) { join_to(T[me]->vc, m->at); }
void release_mutex(mutex_state* m) { m->at = T[me]->vc; tick(); }

}  // namespace

vclock clock() {
  if (!active) return {};
  vclock r = T[me]->vc;
  tick();
  return r;
}
void join_clock(const vclock& c) { if (active) join_to(T[me]->vc, c); }
void fence(bool acquire, bool release) {
  if (!active) return;
  point();
  thr& t = *T[me];
  if (acquire) join_to(t.vc, t.pending);
  if (release) { t.released = t.vc; tick(); }
}
// By address, because some atomics are used without being constructed.
static std::unordered_map<const void*, vclock> published;
void atomic_gone(const void* at) { if (active) published.erase(at); }
void atomic_op(const void* at, bool reads, bool acquire, bool writes, bool release) {
  if (!active) return;
  if (on_atomic) on_atomic(at);
  thr& t = *T[me];
  if (reads) {
    auto i = published.find(at);
    if (i != published.end()) {
      join_to(t.pending, i->second);
      if (acquire) join_to(t.vc, i->second);
    }
  }
  if (writes) {
    vclock& p = published[at];
    // A read-modify-write continues the release sequence, a store begins a new one.
    if (!reads) p = vclock();
    join_to(p, release ? t.vc : t.released);
    tick();
  }
}

int self() { return me; }
long steps() { return n_steps; }

void point() {
  if (!active) return;
  if (++n_steps > S.max_steps) stuck("too many steps");
  if (T[me]->burn && !(S.limit < 0 && chance(3000))) return;
  preempt();
}

void progress() {
  if (!active) return;
  T[me]->burn = false;
  for (auto& t : T) if (t->id != me) t->yielded = false;
}

void yield() {
  if (!active) return;
  if (++n_steps > S.max_steps) stuck("too many steps");
  thr& t = *T[me];
  t.yielded = true;
  if (t.burn) return;
  std::vector<int> o = others(false);
  if (o.empty()) return;
  if (S.limit < 0) {
    if (chance(S.burn_den)) t.burn = true;
    else to(o[rnd() % o.size()]);
  } else {
    int c = choose(o.size() + 1, true);
    if (c == (int)o.size()) t.burn = true;
    else to(o[c]);
  }
}

void lock(mutex_state* m) {
  if (!active) { m->owner = me; return; }
  point();
  while (m->owner >= 0) {
    if (m->owner == me) stuck("a thread locks a mutex it holds");
    block(MUTEX, m);
  }
  m->owner = me;
  acquire_mutex(m);
}

bool try_lock(mutex_state* m) {
  point();
  if (m->owner >= 0) return false;
  m->owner = me;
  if (active) acquire_mutex(m);
  return true;
}

void unlock(mutex_state* m) {
  if (!active) { m->owner = -1; return; }
  if (m->owner != me) stuck("a thread unlocks a mutex it does not hold");
  release_mutex(m);
  m->owner = -1;
  for (auto& t : T) if (t->s == MUTEX && t->on == m) t->s = RUN;
  point();
}

void cv_wait(void* cv, mutex_state* m) {
  if (!active) abort();
  if (++n_steps > S.max_steps) stuck("too many steps");
  preempt();
  release_mutex(m);
  m->owner = -1;
  for (auto& t : T) if (t->s == MUTEX && t->on == m) t->s = RUN;
  if (S.limit < 0 && chance(S.spurious_den)) { T[me]->yielded = true; T[me]->burn = false; std::vector<int> o = others(false); if (!o.empty()) to(o[rnd() % o.size()]); }
  else block(CV, cv);
  while (m->owner >= 0) block(MUTEX, m);
  m->owner = me;
  acquire_mutex(m);
}

void cv_notify(void* cv, bool all) {
  if (!active) return;
  point();
  std::vector<thr*> w;
  for (auto& t : T) if (t->s == CV && t->on == cv) w.push_back(t.get());
  if (w.empty()) return;
  progress();
  if (all) { for (thr* t : w) t->s = RUN; }
  else w[S.limit < 0 ? rnd() % w.size() : choose(w.size(), true)]->s = RUN;
}

int spawn(std::function<void()> f) {
  if (!active) abort();
  int id = T.size();
  T.push_back(std::make_unique<thr>());
  thr* t = T.back().get();
  t->id = id;
  t->vc = T[me]->vc;
  if (id < max_clock) t->vc.c[id] = 1;
  tick();
  sem_init(&t->sem, 0, 0);
  t->real = std::thread([id, t, f = std::move(f)]() {
    me = id;
    while (sem_wait(&t->sem) != 0) {}
    if (on_thread) on_thread();
    f();
    finish();
  });
  point();
  return id;
}

void join(int i) {
  point();
  while (T[i]->s != DONE) block(JOIN, T[i].get());
  join_to(T[me]->vc, T[i]->vc);
}

bool blocked(int t) { return T[t]->s == MUTEX || T[t]->s == CV || T[t]->s == JOIN; }

void run(const strategy& s, const std::function<void()>& main) {
  S = s;
  rs = s.seed * 2654435761u + 99;
  n_steps = 0;
  taken.clear();
  cost_left = s.limit;
  T.clear();
  published.clear();
  T.push_back(std::make_unique<thr>());
  T[0]->id = 0;
  T[0]->vc.c[0] = 1;
  T.reserve(64);
  sem_init(&T[0]->sem, 0, 0);
  me = 0;
  active = true;
  main();
  for (size_t i = 1; i < T.size(); ++i) join(i);
  active = false;
  for (size_t i = 1; i < T.size(); ++i) T[i]->real.join();
}

std::vector<std::pair<int, int>> choices() { return taken; }

bool next_prefix(std::vector<std::pair<int, int>>& p) {
  p = taken;
  while (!p.empty()) {
    if (p.back().first + 1 < p.back().second) { ++p.back().first; return true; }
    p.pop_back();
  }
  return false;
}

}  // namespace vsched
