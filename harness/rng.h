#ifndef VERIF_RNG_H
#define VERIF_RNG_H
#include <cstdint>
#include <vector>
namespace vf {
// splitmix64: every random choice of a driver comes from one of these.
struct rng {
  uint64_t s;
  explicit rng(uint64_t seed) : s(seed ^ 0x1234567) {
    // Two rounds of mixing, so that the sequences of consecutive seeds are unrelated.
    s = next() * 0xD6E8FEB86659FD93ull;
    s = next();
  }
  int64_t flip = -1;   // this draw is another one than it would be
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (z ^ (z >> 31)) + (flip >= 0 && flip-- == 0);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t lo, int64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};
}  // namespace vf
#endif
