// Included before every source (-include): the synchronization primitives of the standard library become ones that are
// scheduled by vsched.cc.
#ifndef VF_SCHED_SHIM_H
#define VF_SCHED_SHIM_H
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "vsched.h"

namespace std {

struct vfs_mutex {
  vsched::mutex_state s;
  vfs_mutex() = default;
  vfs_mutex(const vfs_mutex&) = delete;
  void lock() { vsched::lock(&s); }
  bool try_lock() { return vsched::try_lock(&s); }
  void unlock() { vsched::unlock(&s); }
};

struct vfs_condition_variable {
  vfs_condition_variable() = default;
  vfs_condition_variable(const vfs_condition_variable&) = delete;
  void notify_one() { vsched::cv_notify(this, false); }
  void notify_all() { vsched::cv_notify(this, true); }
  template <class L> void wait(L& l) { vsched::cv_wait(this, &l.mutex()->s); }
  template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
  template <class L, class D> cv_status wait_for(L& l, const D&) {
    l.unlock(); vsched::yield(); l.lock();
    return cv_status::timeout;
  }
  template <class L, class D, class P> bool wait_for(L& l, const D& d, P p) {
    for (int i = 0; i < 50 && !p(); ++i) wait_for(l, d);
    return p();
  }
  template <class L, class D> cv_status wait_until(L& l, const D& d) { return wait_for(l, d); }
  template <class L, class D, class P> bool wait_until(L& l, const D& d, P p) { return wait_for(l, d, p); }
};

constexpr bool vfs_acq(memory_order o) { return o != memory_order_relaxed && o != memory_order_release; }
constexpr bool vfs_rel(memory_order o) { return o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst; }
inline void vfs_atomic_thread_fence(memory_order o) { vsched::fence(vfs_acq(o), vfs_rel(o)); }

template <class T>
struct vfs_atomic {
  T v;
  vfs_atomic() noexcept : v() {}
  constexpr vfs_atomic(T x) noexcept : v(x) {}
  ~vfs_atomic() { vsched::atomic_gone(this); }
  vfs_atomic(const vfs_atomic&) = delete;
  vfs_atomic& operator=(const vfs_atomic&) = delete;
  bool is_lock_free() const { return true; }
  void rmw(memory_order o) { vsched::atomic_op(this, true, vfs_acq(o), true, vfs_rel(o)); }
  T load(memory_order o = memory_order_seq_cst) const { vsched::point(); vsched::atomic_op(this, true, vfs_acq(o), false, false); return v; }
  void store(T x, memory_order o = memory_order_seq_cst) { vsched::point(); vsched::atomic_op(this, false, false, true, vfs_rel(o)); v = x; vsched::progress(); }
  T exchange(T x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = x; vsched::progress(); return o; }
  bool compare_exchange_strong(T& e, T x, memory_order m, memory_order f) {
    vsched::point();
    if (v == e) { rmw(m); v = x; vsched::progress(); return true; }
    vsched::atomic_op(this, true, vfs_acq(f), false, false);
    e = v;
    return false;
  }
  bool compare_exchange_strong(T& e, T x, memory_order m = memory_order_seq_cst) {
    return compare_exchange_strong(e, x, m, m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m);
  }
  template <class... M> bool compare_exchange_weak(T& e, T x, M... m) { return compare_exchange_strong(e, x, m...); }
  template <class U> T fetch_add(U x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = v + x; vsched::progress(); return o; }
  template <class U> T fetch_sub(U x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = v - x; vsched::progress(); return o; }
  template <class U> T fetch_and(U x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = v & x; vsched::progress(); return o; }
  template <class U> T fetch_or(U x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = v | x; vsched::progress(); return o; }
  template <class U> T fetch_xor(U x, memory_order m = memory_order_seq_cst) { vsched::point(); rmw(m); T o = v; v = v ^ x; vsched::progress(); return o; }
  operator T() const { return load(); }
  T operator=(T x) { store(x); return x; }
  T operator++() { return fetch_add(1) + 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return fetch_sub(1) - 1; }
  T operator--(int) { return fetch_sub(1); }
  template <class U> T operator+=(U x) { return fetch_add(x) + x; }
  template <class U> T operator-=(U x) { return fetch_sub(x) - x; }
  template <class U> T operator|=(U x) { return fetch_or(x) | x; }
  template <class U> T operator&=(U x) { return fetch_and(x) & x; }
  template <class U> T operator^=(U x) { return fetch_xor(x) ^ x; }
};

struct vfs_atomic_flag {
  vfs_atomic<bool> b{false};
  bool test_and_set(memory_order o = memory_order_seq_cst) { return b.exchange(true, o); }
  void clear(memory_order o = memory_order_seq_cst) { b.store(false, o); }
};

struct vfs_thread {
  struct id { int n; bool operator==(id o) const { return n == o.n; } bool operator!=(id o) const { return n != o.n; } bool operator<(id o) const { return n < o.n; } };
  int n = -1;
  vfs_thread() = default;
  template <class F, class... A>
  explicit vfs_thread(F&& f, A&&... a) {
    n = vsched::spawn([f = std::decay_t<F>(std::forward<F>(f)), t = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable { std::apply(f, t); });
  }
  vfs_thread(vfs_thread&& o) noexcept : n(o.n) { o.n = -1; }
  vfs_thread& operator=(vfs_thread&& o) noexcept { if (n >= 0) abort(); n = o.n; o.n = -1; return *this; }
  ~vfs_thread() { if (n >= 0) abort(); }
  bool joinable() const { return n >= 0; }
  void join() { vsched::join(n); n = -1; }
  void detach() { n = -1; }
  id get_id() const { return {n}; }
  void swap(vfs_thread& o) { std::swap(n, o.n); }
  static unsigned hardware_concurrency() { return 8; }
};

namespace this_thread {
inline void vfs_yield() { vsched::yield(); }
template <class D> void vfs_sleep_for(const D&) { vsched::yield(); }
template <class D> void vfs_sleep_until(const D&) { vsched::yield(); }
inline vfs_thread::id vfs_get_id() { return {vsched::self()}; }
}  // namespace this_thread

}  // namespace std

#define mutex vfs_mutex_or_fn
#define condition_variable vfs_condition_variable
#define condition_variable_any vfs_condition_variable
#define recursive_mutex not_supported_by_the_shim
#define atomic vfs_atomic
#define atomic_thread_fence vfs_atomic_thread_fence
#define atomic_bool vfs_atomic<bool>
#define atomic_int vfs_atomic<int>
#define atomic_size_t vfs_atomic<std::size_t>
#define atomic_flag vfs_atomic_flag
#define thread vfs_thread
#define yield vfs_yield
#define sleep_for vfs_sleep_for
#define sleep_until vfs_sleep_until
#define get_id vfs_get_id
namespace std { using vfs_mutex_or_fn = vfs_mutex; }
#endif
