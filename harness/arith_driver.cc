// Records results of the integer helpers (base/arithmetic.h, base/modulus_remainder.h) for spec/ArithCheck.tla.
// arith_driver SEED N OUT: complete 8-bit rows, small 32- and 64-bit rows, N random "big" cases of each kind.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <vector>

#include "rng.h"
#include "slinky/base/arithmetic.h"
#include "slinky/base/modulus_remainder.h"

using namespace slinky;
typedef __int128 i128;
typedef int64_t i64;

static FILE* out;
static char now[512];
static long counts[8];

static void on_signal(int sig) {
  char buf[700];
  int n = snprintf(buf, sizeof(buf), "\n{\"k\":\"crash\",\"sig\":%d,\"what\":\"%s\"}\n", sig, now);
  fflush(out);
  if (write(fileno(out), buf, n)) {}
  _exit(77);
}

static std::string big(i128 x) {
  if (x == 0) return "[0]";
  std::string s = x < 0 ? "[-1" : "[1";
  unsigned __int128 u = x < 0 ? -(unsigned __int128)x : (unsigned __int128)x;
  while (u) {
    s += "," + std::to_string((int)(u % 10000));
    u /= 10000;
  }
  return s + "]";
}

static i128 xdiv(i128 a, i128 b) {
  if (b == 0) return 0;
  i128 q = a / b, r = a % b;
  if (r < 0) q += b < 0 ? 1 : -1;
  return q;
}
static i128 xmod(i128 a, i128 b) { return b == 0 ? 0 : a - xdiv(a, b) * b; }
static i128 xgcd(i128 a, i128 b, i128& u, i128& v) {
  if (b == 0) {
    u = 1, v = 0;
    return a;
  }
  i128 u1, v1, g = xgcd(b, a % b, u1, v1);
  u = v1;
  v = u1 - (a / b) * v1;
  return g;
}

// The functions that are defined for every width.
static const char* fns[] = {"div", "mod", "divp", "modp", "add_sat", "sub_sat", "mul_sat", "div_sat", "add_of", "sub_of",
    "mul_of", "add_wo", "sub_wo", "mul_wo", "gcd", "lcm", "sign", "pow2"};
// Those that need (at least) int.
static const char* fns_int[] = {"floor_div", "ceil_div", "round_div", "align_up", "align_down"};

template <typename T>
bool call(const char* f, T a, T b, T& r) {
  const T lo = std::numeric_limits<T>::min();
  std::string s = f;
  bool minover = a == lo && b == -1;  // a / b and a % b are not defined by C++
  if (s == "div") { if (minover) return false; r = euclidean_div(a, b); }
  else if (s == "mod") { if (minover) return false; r = euclidean_mod(a, b); }
  else if (s == "divp") { if (b <= 0) return false; r = euclidean_div_positive_divisor(a, b); }
  else if (s == "modp") { if (b <= 0) return false; r = euclidean_mod_positive_modulus(a, b); }
  else if (s == "add_sat") r = add_sat(a, b);
  else if (s == "sub_sat") r = sub_sat(a, b);
  else if (s == "mul_sat") r = mul_sat(a, b);
  else if (s == "div_sat") r = div_sat(a, b);
  else if (s == "add_of") r = add_overflows(a, b);
  else if (s == "sub_of") r = sub_overflows(a, b);
  else if (s == "mul_of") r = mul_overflows(a, b);
  else if (s == "add_wo" || s == "sub_wo" || s == "mul_wo") {
    T x = 17;
    bool o = s[0] == 'a' ? add_with_overflow(a, b, x) : s[0] == 's' ? sub_with_overflow(a, b, x) : mul_with_overflow(a, b, x);
    // The flag must agree; -1 and +1 never are results that overflow gives.
    i128 e = s[0] == 'a' ? (i128)a + b : s[0] == 's' ? (i128)a - b : (i128)a * b;
    if (o != (e != (i128)(T)e)) x = x == 5 ? 6 : 5;
    r = x;
  }
  else if (s == "gcd") { if (a < 0 || b < 0) return false; r = gcd(a, b); }
  else if (s == "lcm") { if (a < 0 || b < 0) return false; 
    i128 u, v, g = xgcd(a, b, u, v), l = g == 0 ? 0 : a / g * (i128)b;
    if (l > std::numeric_limits<T>::max()) return false;
    r = lcm(a, b); }
  else if (s == "sign") r = sign(b);
  else if (s == "pow2") r = is_power_of_two(b);
  else return false;
  return true;
}
template <typename T>
bool call_int(const char* f, T a, T b, T& r) {
  std::string s = f;
  const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  if (b <= 0) return false;
  if (s == "floor_div") r = floor_div(a, b);
  else if (s == "ceil_div") { if ((i128)a + b - 1 > hi) return false; r = ceil_div(a, b); }
  else if (s == "round_div") { if ((i128)a + b > hi) return false; r = round_div(a, b); }
  else if (s == "align_up") { if ((i128)a + b - 1 > hi) return false; r = align_up(a, b); }
  else if (s == "align_down") { if ((i128)a - b < lo) return false; r = align_down(a, b); }
  else return false;
  return true;
}

// A result for operands that have none: what the specification wants of them is nothing.
template <typename T>
void row(const char* f, T a, int b0, int n, i64 lo, i64 hi, bool wide) {
  // Split into runs of defined results.
  int start = 0;
  std::string r;
  auto flush = [&](int end) {
    if (end > start)
      fprintf(out, "{\"k\":\"row\",\"f\":\"%s\",\"a\":%d,\"b0\":%d,\"lo\":%lld,\"hi\":%lld,\"r\":[%s]}\n", f, (int)a, b0 + start,
          (long long)lo, (long long)hi, r.c_str());
    counts[0] += end - start;
    r.clear();
  };
  for (int i = 0; i < n; ++i) {
    T x;
    snprintf(now, sizeof(now), "%s(%d, %d) %d bits", f, (int)a, b0 + i, (int)sizeof(T) * 8);
    bool d;
    if constexpr (sizeof(T) >= 4) d = wide ? call_int<T>(f, a, (T)(b0 + i), x) : call<T>(f, a, (T)(b0 + i), x);
    else d = call<T>(f, a, (T)(b0 + i), x);
    if (d) {
      if (!r.empty()) r += ",";
      r += std::to_string((i64)x);
    } else {
      flush(i);
      start = i + 1;
    }
  }
  flush(n);
}

template <typename T>
modulus_remainder<T> mr(const char* o, modulus_remainder<T> a, modulus_remainder<T> b) {
  switch (*o) {
  case '+': return a + b;
  case '-': return a - b;
  case '*': return a * b;
  case '/': return a / b;
  case '%': return a % b;
  case '|': return a | b;
  }
  return {};
}

template <typename T>
T special(vf::rng& g) {
  const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  switch (g.below(8)) {
  case 0: return (T)(lo + g.below(4));
  case 1: return (T)(hi - g.below(4));
  case 2: return (T)g.range(-4, 4);
  case 3: return (T)g.range(-1000, 1000);
  case 4: {
    int k = (int)g.below(sizeof(T) * 8 - 1);
    T x = (T)((T)1 << k);
    x = (T)(x + g.range(-1, 1));
    return g.chance(1, 2) ? x : (T)(0 - (typename std::make_unsigned<T>::type)x);
  }
  case 5: return (T)(lo / 2 + g.range(-2, 2));
  case 6: return (T)(hi / (T)g.range(1, 9) + g.range(-1, 1) * (T)g.below(2));
  }
  return (T)g.next();
}

template <typename T>
void big_case(vf::rng& g, long n) {
  const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  for (long k = 0; k < n; ++k) {
    bool wide = g.chance(5, 26);
    const char* f = wide ? fns_int[g.below(5)] : fns[std::min<int>(g.below(21), 18) == 18 ? 15 : g.below(18)];
    T a = special<T>(g), b = special<T>(g), r;
    if (f[0] == 'g' || f[0] == 'l') {
      if (a < 0) a = (T)~a;
      if (b < 0) b = (T)~b;
      if (g.chance(1, 2)) {
        // A large common divisor.
        T d = (T)(((T)1 << g.range(sizeof(T) * 2, sizeof(T) * 8 - 8)) + g.below(3));
        a = (T)(d * g.range(0, 15)), b = (T)(d * g.range(0, 15));
        if (a < 0 || b < 0) a = b = d;
      }
    }
    snprintf(now, sizeof(now), "%s(%lld, %lld) %d bits", f, (long long)a, (long long)b, (int)sizeof(T) * 8);
    if (!(wide ? call_int<T>(f, a, b, r) : call<T>(f, a, b, r))) continue;
    std::string w = big(xdiv(a, b)) + "," + big(b > 0 ? xdiv((i128)a + b - 1, b) : 0);
    if (f[0] == 'g' || f[0] == 'l') {
      i128 u, v, d = xgcd(a, b, u, v);
      w = big(d ? a / d : 0) + "," + big(d ? b / d : 0) + "," + big(u) + "," + big(v) + "," + big(d);
    }
    fprintf(out, "{\"k\":\"big\",\"f\":\"%s\",\"a\":%s,\"b\":%s,\"r\":%s,\"w\":[%s],\"lo\":%s,\"hi\":%s}\n", f, big(a).c_str(),
        big(b).c_str(), big(r).c_str(), w.c_str(), big(lo).c_str(), big(hi).c_str());
    counts[1]++;
  }
}

template <typename T>
T class_modulus(vf::rng& g) {
  T m = g.chance(1, 3) ? (T)g.below(40) : g.chance(1, 2) ? (T)((T)1 << g.below(sizeof(T) * 8 - 1)) : special<T>(g);
  return m < 0 ? (T)~m : m;
}

template <typename T>
void big_class(vf::rng& g, long n) {
  for (long k = 0; k < n; ++k) {
    const char* o = g.pick({"+", "-", "*", "/", "%", "|", "&", "&", "*", "%"});
    modulus_remainder<T> a{class_modulus<T>(g), special<T>(g)}, b{class_modulus<T>(g), special<T>(g)};
    // min % -1 is not defined by C++, and remainders this large make it appear in gcd.
    a.remainder = a.remainder / 2 + (a.remainder & 1), b.remainder = b.remainder / 2 + (b.remainder & 1);
    if (g.chance(1, 3)) a.remainder = 0;
    if (g.chance(1, 3)) b.remainder = 0;
    if (*o == '&' && g.chance(2, 3)) {
      // Moduli with a large common divisor, such that the least common multiple fits, or not.
      int k = (int)g.range(sizeof(T) * 2, sizeof(T) * 8 - 8);
      a.modulus = (T)(((T)1 << k) * g.range(1, 60)), b.modulus = (T)(((T)1 << k) * g.range(1, 60));
      if (a.modulus < 0) a.modulus = (T)1 << k;
      if (b.modulus < 0) b.modulus = (T)1 << k;
      if (g.chance(1, 3)) a.modulus = (T)(a.modulus + 1);
      if (g.chance(3, 4)) a.remainder = b.remainder = 0;
    }
    if (g.chance(1, 4)) b.modulus = 0;
    if (g.chance(1, 8)) a.modulus = 0;
    if ((o[0] == '/' ) && b.remainder == -1) continue;  // -min is not defined by C++
    snprintf(now, sizeof(now), "(%lld, %lld) %s (%lld, %lld) %d bits", (long long)a.modulus, (long long)a.remainder, o,
        (long long)b.modulus, (long long)b.remainder, (int)sizeof(T) * 8);
    modulus_remainder<T> r;
    if constexpr (sizeof(T) >= 4) r = *o == '&' ? (a & b) : mr<T>(o, a, b);
    else if (*o == '&') continue;
    else r = mr<T>(o, a, b);
    std::string v;
    int got = 0;
    for (int t = 0; t < 40 && got < 8; ++t) {
      i128 i = t < 4 ? t - 1 : g.range(-20, 20), j = t < 4 ? (t & 1) : g.range(-20, 20);
      i128 x = (i128)a.modulus * i + a.remainder, z = (i128)b.modulus * j + b.remainder, e = 0, q = 0;
      if (a.modulus == 0 && b.modulus == 0 && t > 0) break;
      switch (*o) {
      case '+': e = x + z; break;
      case '-': e = x - z; break;
      case '*': {
        // The product must fit 128 bits.
        if (x > ((i128)1 << 62) || x < -((i128)1 << 62) || z > ((i128)1 << 62) || z < -((i128)1 << 62)) continue;
        e = x * z;
        break;
      }
      case '/': e = xdiv(x, z); break;
      case '%': q = xdiv(x, z), e = xmod(x, z); break;
      case '|': e = t & 1 ? x : z; break;
      case '&': {
        // A common member: x = a.m * i + a.r and x = b.m * j + b.r. Make one if there is one.
        i128 u, w, d = xgcd(a.modulus, b.modulus, u, w), diff = (i128)b.remainder - a.remainder;
        if (d == 0) { if (diff != 0) continue; i = j = 0; }
        else {
          if (diff % d != 0) continue;
          // i = u * diff / d (mod b.m / d)
          i128 m2 = b.modulus / d, c = diff / d;
          if (m2 == 0) i = c * u;
          else i = xmod(xmod(c, m2) * xmod(u, m2), m2) + m2 * (t - 2);
          i128 lim = (i128)1 << 62;
          if (i > lim || i < -lim) continue;
          x = (i128)a.modulus * i + a.remainder;
          if (b.modulus == 0) { if (x != b.remainder) continue; j = 0; }
          else j = xdiv(x - b.remainder, b.modulus);
          z = (i128)b.modulus * j + b.remainder;
          if (z != x) continue;
        }
        e = x;
        break;
      }
      }
      i128 kk = r.modulus == 0 ? 0 : xdiv(e - r.remainder, r.modulus);
      if (!v.empty()) v += ",";
      v += "[" + big(x) + "," + big(i) + "," + big(z) + "," + big(j) + "," + big(e) + "," + big(kk) + "," + big(q) + "]";
      ++got;
    }
    if (!got) continue;
    fprintf(out, "{\"k\":\"bigclass\",\"o\":\"%s\",\"a\":[%s,%s],\"b\":[%s,%s],\"r\":[%s,%s],\"v\":[%s]}\n", o, big(a.modulus).c_str(),
        big(a.remainder).c_str(), big(b.modulus).c_str(), big(b.remainder).c_str(), big(r.modulus).c_str(), big(r.remainder).c_str(), v.c_str());
    counts[2]++;
  }
}

static std::string opt(const std::optional<int>& x) { return x ? "[" + std::to_string(*x) + "]" : "[]"; }
static std::string optb(const std::optional<int>& x) { return x ? "[" + big(*x) + "]" : "[]"; }

static i64 stair_const(vf::rng& g, int small) { return g.range(-small, small); }

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  uint64_t seed = strtoull(argv[1], 0, 10);
  long n = atol(argv[2]);
  out = fopen(argv[3], "w");
  signal(SIGFPE, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGABRT, on_signal);
  signal(SIGALRM, on_signal);
  alarm(120);
  vf::rng g(seed);
  int shard = (int)(seed % 8);

  // 8 bits, completely: the rows of one eighth of the first operands.
  for (const char* f : fns)
    for (int a = -128 + shard; a < 128; a += 8) row<int8_t>(f, (int8_t)a, -128, 256, -128, 127, false);
  const i64 lo = INT32_MIN, hi = INT32_MAX;
  for (int a = -48 + shard; a <= 48; a += 8) {
    for (const char* f : fns) {
      row<int>(f, a, -48, 97, lo, hi, false);
      row<i64>(f, a, -48, 97, lo, hi, false);
    }
    for (const char* f : fns_int) {
      row<int>(f, a, 1, 48, lo, hi, true);
      row<i64>(f, a, 1, 48, lo, hi, true);
    }
    snprintf(now, sizeof(now), "euclidean_div/mod(%d, 0, define)", a);
    for (int d = -3; d < 3; ++d) {
      fprintf(out, "{\"k\":\"row\",\"f\":\"div0\",\"a\":%d,\"b0\":%d,\"lo\":-99,\"hi\":99,\"r\":[%d]}\n", a, d, euclidean_div(a, 0, d));
      fprintf(out, "{\"k\":\"row\",\"f\":\"mod0\",\"a\":%d,\"b0\":%d,\"lo\":-99,\"hi\":99,\"r\":[%d]}\n", a, d, euclidean_mod(a, 0, d));
    }
  }
  // Residue classes of 8 bits (with the overflows of 8 bits) and of 64 bits (without).
  const int ms[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, -6, 12, 16, 30, 64, -4, 127};
  const int rs[] = {0, 1, -1, 2, 3, -3, 4, 5, 7, 8, 12, -12, 63, -64, 100, 127, -128};
  for (const char* o : {"+", "-", "*", "/", "%", "|", "&"}) {
    for (int t = 0; t < 20; ++t) {
      int m1 = ms[g.below(16)], r1 = rs[g.below(17)];
      for (int wide = *o == '&' ? 1 : 0; wide < 2; ++wide) {
        std::string s;
        for (int m2 : ms) {
          for (int r2 : rs) {
            if (*o == '/' && r2 == -1) continue;
            if (!g.chance(1, 2)) continue;
            snprintf(now, sizeof(now), "class (%d, %d) %s (%d, %d) %s", m1, r1, o, m2, r2, wide ? "64 bits" : "8 bits");
            i64 m, r;
            if (wide) {
              modulus_remainder<i64> a{m1, r1}, b{m2, r2}, x = *o == '&' ? (a & b) : mr<i64>(o, a, b);
              m = x.modulus, r = x.remainder;
            } else {
              modulus_remainder<int8_t> a{(int8_t)m1, (int8_t)r1}, b{(int8_t)m2, (int8_t)r2}, x = mr<int8_t>(o, a, b);
              m = x.modulus, r = x.remainder;
            }
            if (!s.empty()) s += ",";
            s += "[" + std::to_string(m2) + "," + std::to_string(r2) + "," + std::to_string(m) + "," + std::to_string(r) + "]";
            counts[3]++;
          }
        }
        fprintf(out, "{\"k\":\"class\",\"o\":\"%s\",\"a\":[%d,%d],\"K\":%d,\"rs\":[%s]}\n", o, m1, r1, 3, s.c_str());
      }
    }
  }
  // Staircases.
  for (long k = 0; k < n / 2 + 50; ++k) {
    i64 a = stair_const(g, 9), b = stair_const(g, 6), c = stair_const(g, 5);
    std::string s;
    for (int x = -12; x <= 12; ++x) s += (x > -12 ? "," : "") + std::to_string(staircase<i64>(x, a, b, c));
    fprintf(out, "{\"k\":\"stairs\",\"p\":[%lld,%lld,%lld],\"x0\":-12,\"r\":[%s]}\n", (long long)a, (long long)b, (long long)c, s.c_str());
    i64 p[6] = {stair_const(g, 20), stair_const(g, 12), stair_const(g, 6), stair_const(g, 20), stair_const(g, 12), stair_const(g, 6)};
    if (g.chance(1, 40)) p[1] = stair_const(g, 70), p[4] = stair_const(g, 70);
    if (g.chance(4, 5)) {
      // slopes that cancel: c1 / b1 = -c2 / b2
      i64 q = g.range(1, 4), e = g.range(1, 4), z = g.range(1, 3), y = g.range(-4, 4);
      p[1] = q * z * (g.chance(1, 2) ? 1 : -1), p[4] = e * z * (g.chance(1, 2) ? 1 : -1);
      p[2] = p[1] / z * y, p[5] = -p[4] / z * y;
    }
    snprintf(now, sizeof(now), "staircase_sum_bounds(%lld,%lld,%lld,%lld,%lld,%lld)", (long long)p[0], (long long)p[1], (long long)p[2],
        (long long)p[3], (long long)p[4], (long long)p[5]);
    interval<int> r = staircase_sum_bounds(p[0], p[1], p[2], p[3], p[4], p[5]);
    fprintf(out, "{\"k\":\"stair\",\"p\":[%lld,%lld,%lld,%lld,%lld,%lld],\"r\":[%s,%s]}\n", (long long)p[0], (long long)p[1],
        (long long)p[2], (long long)p[3], (long long)p[4], (long long)p[5], opt(r.min).c_str(), opt(r.max).c_str());
    counts[4]++;
  }
  for (long k = 0; k < n / 4 + 20; ++k) {
    auto bigc = [&]() -> i64 { return g.chance(1, 2) ? stair_const(g, 2000) : special<i64>(g); };
    i64 p[6] = {bigc(), stair_const(g, 1100), g.chance(1, 2) ? stair_const(g, 2000) : special<i64>(g) / 4, bigc(), stair_const(g, 1100), bigc()};
    if (g.chance(1, 4)) p[1] = special<i64>(g) / 8;
    if (g.chance(7, 8) && p[1] != 0) {
      i64 z = g.range(1, 200), q = g.range(1, 5), e = g.range(1, 5), y = g.chance(1, 2) ? g.range(-1000, 1000) : special<int>(g) / 8;
      p[1] = q * z * (g.chance(1, 2) ? 1 : -1), p[4] = e * z * (g.chance(1, 2) ? 1 : -1);
      p[2] = p[1] / z * y, p[5] = -p[4] / z * y;
    }
    if (g.chance(1, 4)) {
      // Products that are close to 0 when they wrap.
      int i = (int)g.range(20, 50), j = (int)g.range(14, 44), d = (int)g.range(0, 6);
      p[1] = p[4] = (i64)1 << d;
      p[0] = ((i64)1 << i) * g.range(-3, 3) + g.range(-4, 4), p[3] = g.range(-20, 20);
      p[2] = ((i64)1 << j) * g.range(-2, 2), p[5] = -p[2];
      if (g.chance(1, 2)) p[4] *= 2, p[5] *= 2;
    }
    snprintf(now, sizeof(now), "staircase_sum_bounds(%lld,%lld,%lld,%lld,%lld,%lld)", (long long)p[0], (long long)p[1], (long long)p[2],
        (long long)p[3], (long long)p[4], (long long)p[5]);
    interval<int> r = staircase_sum_bounds(p[0], p[1], p[2], p[3], p[4], p[5]);
    auto val = [&](i128 x) { return xdiv(x + p[0], p[1]) * p[2] + xdiv(x + p[3], p[4]) * p[5]; };
    i128 bestl = 0, besth = 0, u, v;
    if (p[1] && p[4] && llabs(p[1]) < 3000 && llabs(p[4]) < 3000) {
      i64 period = llabs(p[1]) / (i64)xgcd(llabs(p[1]), llabs(p[4]), u, v) * llabs(p[4]);
      for (i64 x = 0; x < period; ++x) {
        if (val(x) < val(bestl)) bestl = x;
        if (val(x) > val(besth)) besth = x;
      }
    }
    std::string s;
    auto add = [&](i128 x) {
      s += (s.empty() ? "[" : ",[") + big(x) + "," + big(xdiv(x + p[0], p[1])) + "," + big(xdiv(x + p[3], p[4])) + "]";
    };
    add(bestl), add(besth);
    for (int t = 0; t < 4; ++t) add(special<i64>(g));
    fprintf(out, "{\"k\":\"bigstair\",\"p\":[%s,%s,%s,%s,%s,%s],\"r\":[%s,%s],\"v\":[%s]}\n", big(p[0]).c_str(), big(p[1]).c_str(),
        big(p[2]).c_str(), big(p[3]).c_str(), big(p[4]).c_str(), big(p[5]).c_str(), optb(r.min).c_str(), optb(r.max).c_str(), s.c_str());
    counts[5]++;
  }
  big_case<i64>(g, n);
  big_case<int>(g, n);
  big_class<i64>(g, n / 2);
  big_class<int>(g, n / 4);
  fclose(out);
  printf("{\"evaluations\":%ld,\"big\":%ld,\"bigclass\":%ld,\"class\":%ld,\"stair\":%ld,\"bigstair\":%ld}\n", counts[0], counts[1], counts[2],
      counts[3], counts[4], counts[5]);
}
