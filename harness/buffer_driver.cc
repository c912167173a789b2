// Records what the buffer operations of runtime/buffer.h, runtime/buffer.cc (and the evaluator's buffer declarations)
// do, for spec/BufferCheck.tla.
// buffer_driver MODE SEED N OUT, MODE one of view, opt, stride, iter, copy.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>

#include "rng.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"

using namespace slinky;
using vf::rng;

static FILE* out;
static std::string now;
static std::map<std::string, long> counts;

static void on_signal(int sig) {
  char buf[4000];
  int n = snprintf(buf, sizeof(buf), "\n{\"k\":\"crash\",\"sig\":%d,\"case\":%s}\n", sig, now.size() < 3500 ? now.c_str() : "\"\"");
  fflush(out);
  if (write(fileno(out), buf, n)) {}
  _exit(77);
}

// malloc as the library sees it.
static bool watch = false;
static uintptr_t last_alloc = 0, last_size = 0;
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) {
  void* r = __real_malloc(n);
  if (watch) {
    last_alloc = (uintptr_t)r;
    last_size = n;
  }
  return r;
}

static const index_t NUL = -1000000;
static char* fake = (char*)(uintptr_t)(1ll << 30);

struct B {
  raw_buffer b;
  dim d[16];
  B() {
    b.base = nullptr;
    b.elem_size = 1;
    b.rank = 0;
    b.dims = d;
  }
  B(const B& o) { *this = o; }
  B& operator=(const B& o) {
    b = o.b;
    for (size_t i = 0; i < o.b.rank; ++i) d[i] = o.b.dims[i];
    b.dims = d;
    return *this;
  }
};

static std::string num(index_t x) { return std::to_string((long long)x); }
static std::string js(const dim& d) {
  return "[" + num(d.min()) + "," + num(d.max()) + "," + num(d.stride()) + "," + num(d.fold_factor()) + "]";
}
static std::string js(const raw_buffer& b, const char* origin = fake) {
  std::string s = "{\"base\":" + num(b.base ? (index_t)((char*)b.base - origin) : NUL) + ",\"es\":" + num(b.elem_size) + ",\"dims\":[";
  for (size_t i = 0; i < b.rank; ++i) s += (i ? "," : "") + js(b.dims[i]);
  return s + "]}";
}
template <typename T>
static std::string list(const T& v) {
  std::string s = "[";
  bool first = true;
  for (auto i : v) {
    s += (first ? "" : ",") + num(i);
    first = false;
  }
  return s + "]";
}

static index_t off(const dim& d, index_t x) {
  if (d.stride() == 0 || d.fold_factor() <= 0) return (x - d.min()) * d.stride();
  index_t m = x % d.fold_factor();
  return (m < 0 ? m + d.fold_factor() : m) * d.stride();
}

// A random shape. `packed`: distinct positions do not overlap.
static void shape(rng& r, B& b, int rank, int es, bool packed, bool folds, bool bcasts, bool negative, int max_extent = 5, int max_total = 150) {
  b.b.elem_size = es;
  b.b.rank = rank;
  long total = 1;
  std::vector<int> order;
  for (int i = 0; i < rank; ++i) order.insert(order.begin() + r.below(i + 1), i);
  for (int i = 0; i < rank; ++i) {
    index_t e = r.chance(1, 14) ? 0 : r.range(1, max_extent);
    if (total * std::max<index_t>(e, 1) > max_total) e = 1;
    total *= std::max<index_t>(e, 1);
    index_t mn = r.chance(1, 3) ? 0 : r.range(-3, 4);
    b.d[i].set_bounds(mn, mn + e - 1);
    b.d[i].set_fold_factor(dim::unfolded);
    b.d[i].set_stride(0);
  }
  index_t span = es;
  if (r.chance(1, 6)) span += r.range(1, 3) * (packed ? 1 : es);
  if (r.chance(1, 2)) std::sort(order.begin(), order.end());
  for (int i : order) {
    dim& d = b.d[i];
    if (bcasts && r.chance(1, 6)) {
      if (r.chance(1, 2)) d.set_bounds(0, 0);
      continue;
    }
    index_t ext = d.extent();
    if (folds && r.chance(1, 5)) {
      index_t f = packed ? std::max<index_t>(1, ext) + r.below(3) : r.range(1, 6);
      if (r.chance(1, 3)) f = std::max<index_t>(1, ext);
      d.set_fold_factor(f);
      ext = f;
    }
    index_t s = packed || r.chance(4, 5) ? span : r.range(1, 3) * es;
    d.set_stride(negative && r.chance(1, 8) ? -s : s);
    span = std::max(span, s * std::max<index_t>(ext, 1));
    if (r.chance(1, 5)) span += r.range(0, 2) * es;
  }
}
// The smallest and the largest byte offset.
static void spans(const raw_buffer& b, index_t& lo, index_t& hi) {
  lo = hi = 0;
  for (size_t i = 0; i < b.rank; ++i) {
    index_t e = b.dims[i].fold_factor() > 0 ? b.dims[i].fold_factor() : b.dims[i].extent();
    index_t s = (std::max<index_t>(e, 1) - 1) * b.dims[i].stride();
    (s < 0 ? lo : hi) += s;
  }
  hi += b.elem_size;
}

static void put(const std::string& s) { fprintf(out, "%s\n", s.c_str()); }

// ---------------------------------------------------------------------------------------------------------------- view

static eval_context& context() {
  static eval_config* cfg = [] {
    auto* c = new eval_config();
    c->call_failed = [](const call_stmt*) {};
    return c;
  }();
  static eval_context* ctx = nullptr;
  if (!ctx) ctx = new eval_context();
  ctx->config = cfg;
  return *ctx;
}

static std::string at_result(const raw_buffer& b, const std::vector<index_t>& x, int variant) {
  bool c;
  void* a = nullptr;
  span<const index_t> s(x.data(), x.size());
  switch (variant && x.size() >= 1 && x.size() <= 4 ? (int)x.size() : 0) {
  case 1: c = b.contains(x[0]); if (c) a = b.address_at(x[0]); break;
  case 2: c = b.contains(x[0], x[1]); if (c) a = b.address_at(x[0], x[1]); break;
  case 3: c = b.contains(x[0], x[1], x[2]); if (c) a = b.address_at(x[0], x[1], x[2]); break;
  case 4: c = b.contains(x[0], x[1], x[2], x[3]); if (c) a = b.address_at(x[0], x[1], x[2], x[3]); break;
  default: c = b.contains(s); if (c) a = b.address_at(s);
  }
  return std::string("[\"at\",") + list(x) + "," + (c ? "1" : "0") + "," + num(a ? (char*)a - fake : NUL) + "]";
}

static void one_view(rng& r) {
  buffer<char, 6> b;
  B init;
  shape(r, init, r.range(0, 4), r.pick({1, 2, 3, 4, 8}), r.chance(1, 2), true, true, true);
  init.b.base = r.chance(1, 12) ? nullptr : fake + r.range(0, 50);
  b.elem_size = init.b.elem_size;
  b.rank = init.b.rank;
  b.dims = nullptr;
  b = init.b;
  std::string s = "{\"k\":\"view\",\"b\":" + js(b) + ",\"ops\":[";
  int n = r.range(1, 6), sliced = -1;
  dim sliced_dim;
  bool first = true;
  for (int i = 0; i < n; ++i) {
    std::string op;
    now = s + "]}";
    int rank = b.rank;
    switch (r.below(8)) {
    case 0:
    case 1: {
      int d = r.below(rank + (r.chance(1, 6) ? 2 : 0));
      index_t m = b.dim(d).min(), x = b.dim(d).max();
      index_t lo = r.range(m - 1, x + 1), hi = r.range(r.chance(1, 8) ? lo - 2 : lo, x + 2);
      if (r.chance(1, 6)) lo = std::numeric_limits<int>::min() / 2;
      if (r.chance(1, 6)) hi = std::numeric_limits<int>::max() / 2;
      b.crop(d, lo, hi);
      op = "[\"crop\"," + num(d + 1) + "," + num(lo) + "," + num(hi) + "," + js(b) + "]";
      sliced = -1;
      break;
    }
    case 2: {
      int d = r.below(rank + (r.chance(1, 6) ? 2 : 0));
      index_t at = b.dim(d).empty() ? r.range(-2, 2) : r.range(b.dim(d).min() - (r.chance(1, 6) ? 1 : 0), b.dim(d).max() + (r.chance(1, 6) ? 1 : 0));
      bool inb = b.raw_buffer::base && b.dim(d).contains(at);
      if (inb && r.chance(1, 3)) b.slice(d, in_bounds{at});
      else b.slice(d, at);
      op = "[\"slice\"," + num(d + 1) + "," + num(at) + "," + js(b) + "]";
      sliced = -1;
      break;
    }
    case 3: {
      // Slices that do not move the base; only at the min of unfolded dimensions.
      std::vector<size_t> ds;
      std::vector<index_t> ds1;
      for (int d = 0; d < rank + 1; ++d) {
        if (d < rank && (b.dim(d).fold_factor() > 0 || b.dim(d).empty())) continue;
        if (d >= rank && !r.chance(1, 8)) continue;
        if (r.chance(1, 3)) {
          ds.push_back(d);
          ds1.push_back(d + 1);
        }
      }
      if (ds.empty()) continue;
      for (size_t d : ds) if (d >= (size_t)rank && ds.size() > 1) { ds.pop_back(); ds1.pop_back(); break; }
      if (ds.size() == 1 && r.chance(1, 2)) {
        sliced = ds[0];
        sliced_dim = b.dim(sliced);
        if (sliced >= rank) sliced = -1;
        b.slice(ds[0]);
      } else {
        b.slice(span<const size_t>(ds.data(), ds.size()));
        sliced = -1;
      }
      op = "[\"drop\"," + list(ds1) + "," + js(b) + "]";
      break;
    }
    case 4: {
      if (rank == 0) continue;
      std::vector<index_t> os;
      int m = r.range(1, rank);
      for (int d = 0; d < m; ++d) {
        index_t o = r.range(-4, 4);
        if (b.dim(d).fold_factor() > 0) o *= b.dim(d).fold_factor();
        os.push_back(o);
      }
      if (m == 1 && r.chance(1, 2)) b.translate(os[0]);
      else if (m == 2 && r.chance(1, 2)) b.translate(os[0], os[1]);
      else if (m == 3 && r.chance(1, 2)) b.translate(os[0], os[1], os[2]);
      else b.translate(span<const index_t>(os.data(), os.size()));
      op = "[\"translate\"," + list(os) + "," + js(b) + "]";
      sliced = -1;
      break;
    }
    case 5: {
      if (rank < 2) continue;
      int in = r.below(rank - 1), o = in + 1;
      if (r.chance(1, 5)) o = r.range(in + 1, rank - 1);
      if (!can_fuse(b.dim(in), b.dim(o))) {
        // Make it possible.
        if (b.dim(in).empty() || b.dim(o).empty() || b.dim(in).fold_factor() > 0 || r.chance(1, 2)) continue;
        // This is another buffer now: record it as a new start.
        b.dims[o].set_stride(b.dim(in).stride() * b.dim(in).extent());
        if (!can_fuse(b.dim(in), b.dim(o))) continue;
        op = "[\"new\"," + js(b) + "]";
        s += (first ? "" : ",") + op;
        first = false;
      }
      bool keep = r.chance(1, 2);
      if (keep) fuse<fuse_type::keep>(in, o, b);
      else fuse<fuse_type::remove>(in, o, b);
      op = std::string("[\"") + (keep ? "fusek" : "fuser") + "\"," + num(in + 1) + "," + num(o + 1) + "," + js(b) + "]";
      sliced = -1;
      break;
    }
    case 6: {
      if (sliced < 0) continue;
      b.unslice(sliced, sliced_dim);
      op = "[\"unslice\"," + num(sliced + 1) + "," + js(sliced_dim) + "," + js(b) + "]";
      sliced = -1;
      break;
    }
    case 7: {
      std::vector<index_t> x;
      int m = r.chance(1, 4) ? r.range(0, rank) : rank + r.below(2);
      for (int d = 0; d < m; ++d)
        x.push_back(b.dim(d).empty() ? r.range(-1, 1) : r.range(b.dim(d).min() - (r.chance(1, 8) ? 1 : 0), b.dim(d).max() + (r.chance(1, 8) ? 1 : 0)));
      op = at_result(b, x, r.below(2));
      break;
    }
    }
    counts[op.substr(2, op.find('"', 2) - 2)]++;
    s += (first ? "" : ",") + op;
    first = false;
  }
  put(s + "]}");
}

// The evaluator's declarations of views: nested, shadowed or not; the innermost call records the view, and after it the
// original must be as it was.
static void one_eval(rng& r) {
  B init;
  shape(r, init, r.range(0, 4), r.pick({1, 2, 3, 4, 8}), r.chance(1, 2), true, true, true);
  init.b.base = r.chance(1, 12) ? nullptr : fake + r.range(0, 50);
  const int n = r.range(1, 5);
  // What each level does; bounds are chosen with regard to the original's bounds, they need not be in range.
  std::vector<std::string> ops;
  std::vector<std::function<stmt(stmt)>> levels;
  var cur(0);
  int next = 1;
  B sim = init;  // only to choose sensible arguments; ranks are followed
  int rank = init.b.rank;
  std::vector<dim> ds(init.d, init.d + rank);
  auto bound = [&](index_t x) { return expr(x); };
  for (int i = 0; i < n; ++i) {
    var src = cur, sym = r.chance(1, 2) ? cur : var(next++);
    auto dimof = [&](int d) { return d < (int)ds.size() ? ds[d] : dim::broadcast(); };
    switch (r.below(7)) {
    case 0: {  // crop_dim
      int d = r.below(ds.size() + (r.chance(1, 6) ? 2 : 0));
      index_t lo = r.range(dimof(d).min() - 1, dimof(d).max() + 1), hi = r.range(lo, dimof(d).max() + 2);
        if (dimof(d).is_broadcast()) lo = r.range(-2, 0), hi = r.range(0, 2);  // a crop of a broadcast is ignored
      interval_expr iv;
      bool nlo = r.chance(1, 4), nhi = r.chance(1, 4);
      if (!nlo) iv.min = bound(lo);
      if (!nhi) iv.max = bound(hi);
      if (!nlo && !dimof(d).is_broadcast() && r.chance(1, 5)) iv = point(bound(lo)), hi = lo, nhi = false;
      levels.push_back([=](stmt b) { return crop_dim::make(sym, src, d, iv, b); });
      ops.push_back("[\"crop\"," + num(d + 1) + "," + num(nlo ? -100000 : lo) + "," + num(nhi ? 100000 : hi) + "]");
      counts["crop_dim"]++;
      break;
    }
    case 1: {  // crop_buffer
      std::vector<interval_expr> ivs;
      int m = r.range(1, ds.size() + 1);
      for (int d = 0; d < m; ++d) {
        index_t lo = r.range(dimof(d).min() - 1, dimof(d).max() + 1), hi = r.range(lo, dimof(d).max() + 2);
        if (dimof(d).is_broadcast()) lo = r.range(-2, 0), hi = r.range(0, 2);  // a crop of a broadcast is ignored
        interval_expr iv;
        bool nlo = r.chance(1, 3), nhi = r.chance(1, 3);
        if (!nlo) iv.min = bound(lo);
        if (!nhi) iv.max = bound(hi);
        ivs.push_back(iv);
        ops.push_back("[\"crop\"," + num(d + 1) + "," + num(nlo ? -100000 : lo) + "," + num(nhi ? 100000 : hi) + "]");
      }
      levels.push_back([=](stmt b) { return crop_buffer::make(sym, src, ivs, b); });
      counts["crop_buffer"]++;
      break;
    }
    case 2: {  // slice_dim
      int d = r.below(ds.size() + (r.chance(1, 6) ? 2 : 0));
      index_t at = dimof(d).empty() ? r.range(-2, 2) : r.range(dimof(d).min() - (r.chance(1, 6) ? 1 : 0), dimof(d).max() + (r.chance(1, 6) ? 1 : 0));
      levels.push_back([=](stmt b) { return slice_dim::make(sym, src, d, bound(at), b); });
      ops.push_back("[\"slice\"," + num(d + 1) + "," + num(at) + "]");
      if (d < (int)ds.size()) ds.erase(ds.begin() + d);
      counts["slice_dim"]++;
      break;
    }
    case 3: {  // slice_buffer
      std::vector<expr> at;
      std::vector<std::string> os;
      int m = r.range(1, ds.size() + 1);
      std::vector<dim> rest;
      for (int d = 0; d < std::max<int>(m, ds.size()); ++d) {
        if (d < m && r.chance(1, 2)) {
          index_t x = dimof(d).empty() ? r.range(-2, 2) : r.range(dimof(d).min() - (r.chance(1, 8) ? 1 : 0), dimof(d).max() + (r.chance(1, 8) ? 1 : 0));
          at.push_back(bound(x));
          // Later dimensions first, so that the numbers stay right.
          os.insert(os.begin(), "[\"slice\"," + num(d + 1) + "," + num(x) + "]");
        } else {
          if (d < m) at.push_back(expr());
          if (d < (int)ds.size()) rest.push_back(ds[d]);
        }
      }
      ds = rest;
      for (auto& o : os) ops.push_back(o);
      levels.push_back([=](stmt b) { return slice_buffer::make(sym, src, at, b); });
      counts["slice_buffer"]++;
      break;
    }
    case 4: {  // transpose
      std::vector<int> perm;
      std::vector<int> p1;
      int m = ds.size() + (r.chance(1, 4) ? 1 : 0);
      for (int d = 0; d < m; ++d) perm.insert(perm.begin() + r.below(d + 1), d);
      if (r.chance(1, 3)) {  // truncate: drops dimensions, only unfolded ones
        std::sort(perm.begin(), perm.end());
        while (!perm.empty() && r.chance(1, 2) && (perm.back() >= (int)ds.size() || (ds[perm.back()].fold_factor() <= 0 && !ds[perm.back()].empty()))) perm.pop_back();
      } else if (!perm.empty() && r.chance(1, 4) && (perm.back() >= (int)ds.size() || (ds[perm.back()].fold_factor() <= 0 && !ds[perm.back()].empty()))) {
        perm.pop_back();
      }
      std::vector<dim> nd;
      for (int d : perm) {
        p1.push_back(d + 1);
        nd.push_back(dimof(d));
      }
      ds = nd;
      if (r.chance(1, 2) || perm.size() > 4) levels.push_back([=](stmt b) { return transpose::make(sym, src, perm, b); });
      else levels.push_back([=](stmt b) { return transpose::make(sym, src, perm, b); });
      ops.push_back("[\"transpose\"," + list(p1) + "]");
      counts["transpose"]++;
      break;
    }
    case 5: {  // clone
      var s2(next++);
      levels.push_back([=](stmt b) { return clone_buffer::make(s2, src, b); });
      ops.push_back("[\"clone\"]");
      sym = s2;
      counts["clone_buffer"]++;
      break;
    }
    case 6: {  // make_buffer over (a part of) the source
      std::vector<expr> args = {src};
      std::vector<index_t> at;
      int m = r.range(0, ds.size() + 1);
      for (int d = 0; d < m; ++d) {
        if (r.chance(1, 3)) {
          args.push_back(expr());
          at.push_back(-99);
        } else {
          index_t x = dimof(d).empty() ? 0 : r.range(dimof(d).min() - (r.chance(1, 10) ? 1 : 0), dimof(d).max() + (r.chance(1, 10) ? 1 : 0));
          args.push_back(x);
          at.push_back(x);
        }
      }
      expr base = call::make(intrinsic::buffer_at, args);
      std::vector<dim_expr> dims;
      std::vector<dim> nd;
      std::string dj = "[";
      int k = r.range(0, 3);
      for (int d = 0; d < k; ++d) {
        dim x(r.range(-2, 2), 0, r.pick({0, 0, 1, 4, 8, -4}), dim::unfolded);
        if (x.stride() == 0 && r.chance(1, 2)) x.set_bounds(0, 0);
        else x.set_extent(r.range(r.chance(1, 8) ? 0 : 1, 4));
        if (x.stride() > 0 && r.chance(1, 5)) x.set_fold_factor(r.range(1, 4));
        dim_expr e;
        e.bounds = {expr(x.min()), expr(x.max())};
        if (x.is_point() && r.chance(1, 2)) e.bounds = point(expr(x.min()));
        e.stride = x.stride();
        if (x.fold_factor() > 0) e.fold_factor = x.fold_factor();
        dims.push_back(e);
        nd.push_back(x);
        dj += (d ? "," : "") + js(x);
      }
      while (!nd.empty() && nd.back().is_broadcast()) nd.pop_back();
      ds = nd;
      index_t es = r.pick({1, 2, 4});
      levels.push_back([=](stmt b) { return make_buffer::make(sym, base, expr(es), dims, b); });
      ops.push_back("[\"make\"," + list(at) + "," + num(es) + "," + dj + "]]");
      counts["make_buffer"]++;
      break;
    }
    }
    cur = sym;
  }
  std::string s = "{\"k\":\"eval\",\"b\":" + js(init.b) + ",\"ops\":[";
  for (size_t i = 0; i < ops.size(); ++i) s += (i ? "," : "") + ops[i];
  s += "]";
  now = s + "}";
  std::string seen = "{\"base\":0,\"es\":0,\"dims\":[]}";
  index_t rc = r.chance(1, 6) ? r.range(1, 5) : 0;
  stmt body = call_stmt::make(
      [&](const call_stmt*, eval_context& ctx) -> index_t {
        seen = js(*ctx.lookup_buffer(cur));
        return rc;
      },
      {cur}, {}, {}, {});
  for (size_t i = levels.size(); i-- > 0;) body = levels[i](body);
  eval_context& ctx = context();
  B work = init;
  ctx.reserve(16);
  for (int i = 0; i < 12; ++i) ctx[var(i)] = 0;
  ctx[var(0)] = reinterpret_cast<index_t>(&work.b);
  index_t got = evaluate(body, ctx);
  bool restored = ctx.lookup(var(0)) == reinterpret_cast<index_t>(&work.b);
  for (int i = 1; i < 12; ++i) restored = restored && ctx.lookup(var(i)) == 0;
  s += ",\"ran\":" + num(seen.find("\"es\":0,") == std::string::npos) + ",\"seen\":" + seen + ",\"after\":" + js(work.b) + ",\"ctx\":" + (restored ? "1" : "0") + ",\"rc\":" + num(rc) + ",\"got\":" + num(got) + "}";
  put(s);
}

// ----------------------------------------------------------------------------------------------------------------- opt

// Buffers that are iterated together.
static std::vector<B> family(rng& r, int n, int max_total, bool bcast0) {
  std::vector<B> bs(n);
  static const int es[] = {1, 2, 4, 8, 3};
  int e0 = es[r.below(5)];
  bool same = r.chance(1, 2);
  shape(r, bs[0], r.range(0, 4), e0, r.chance(9, 10), r.chance(1, 2), bcast0, r.chance(1, 2), 5, max_total);
  bs[0].b.base = fake + r.range(0, 50);
  bool dense = r.chance(1, 3);  // all of them dense in the same order: fusable
  for (int i = 1; i < n; ++i) {
    int rank = r.chance(2, 3) ? bs[0].b.rank : r.range(0, bs[0].b.rank + (r.chance(1, 4) ? 1 : 0));
    shape(r, bs[i], rank, same ? e0 : es[r.below(5)], r.chance(1, 2), r.chance(1, 2), true, r.chance(1, 3));
    for (int d = 0; d < rank; ++d) {
      const dim& d0 = bs[0].b.dim(d);
      dim& x = bs[i].d[d];
      if (x.is_broadcast()) continue;
      index_t lo = d0.min(), hi = d0.max();
      if (r.chance(1, 3)) {
        lo += r.range(-2, 2);
        hi += r.range(-2, 2);
        if (r.chance(1, 10)) lo += 6, hi += 6;
      }
      x.set_bounds(lo, std::max(hi, lo - 1));
    }
    bs[i].b.base = r.chance(1, 12) ? nullptr : fake + 100000 * i + r.range(0, 50);
  }
  if (dense) {
    for (B& b : bs) {
      index_t s = b.b.elem_size;
      // As dense as the first buffer, although the bounds may be larger: its elements overlap.
      const bool like0 = &b != &bs[0] && r.chance(1, 4);
      for (size_t d = 0; d < b.b.rank; ++d) {
        if (b.d[d].stride() == 0 && r.chance(3, 4)) continue;
        b.d[d].set_stride(s);
        if (r.chance(5, 6)) b.d[d].set_fold_factor(dim::unfolded);
        index_t e = b.d[d].fold_factor() > 0 ? b.d[d].fold_factor() : b.d[d].extent();
        if (like0 && d < bs[0].b.rank) e = bs[0].d[d].extent();
        s *= std::max<index_t>(1, e);
      }
    }
  }
  return bs;
}
static std::string js(const std::vector<B>& bs) {
  std::string s = "[";
  for (size_t i = 0; i < bs.size(); ++i) s += (i ? "," : "") + js(bs[i].b);
  return s + "]";
}

template <typename F>
static void apply(F f, std::vector<B>& bs) {
  switch (bs.size()) {
  case 1: f(bs[0].b); break;
  case 2: f(bs[0].b, bs[1].b); break;
  case 3: f(bs[0].b, bs[1].b, bs[2].b); break;
  case 4: f(bs[0].b, bs[1].b, bs[2].b, bs[3].b); break;
  default: f(bs[0].b, bs[1].b, bs[2].b, bs[3].b, bs[4].b); break;
  }
}

static void one_opt(rng& r) {
  std::vector<B> bs = family(r, r.range(1, 3), 60, true);
  // Fusing with a broadcast loses the extent of the other broadcasts: not in the buffer that gives the extents.
  bool bc = false;
  for (size_t i = 0; i < bs[0].b.rank; ++i) bc |= bs[0].d[i].is_broadcast();
  for (size_t i = 1; i < bs.size(); ++i) bc |= bs[i].b.rank > bs[0].b.rank;
  for (size_t i = 0; bc && i < bs[0].b.rank; ++i) if (bs[0].d[i].stride() == 0) bs[0].d[i].set_bounds(0, 0);
  std::vector<int> sets;
  if (r.chance(1, 3)) for (int i = 0; i < 5; ++i) sets.push_back(r.below(2));
  std::string s = "{\"k\":\"opt\",\"bufs\":" + js(bs);
  now = s + "}";
  int which = r.below(3);
  span<const int> ss(sets.data(), sets.size());
  apply([&](auto&... b) {
    if (which == 0) sets.empty() ? optimize_dims(b...) : optimize_dims(ss, b...);
    else if (which == 1) sets.empty() ? sort_dims(b...) : sort_dims(ss, b...);
    else sets.empty() ? fuse_contiguous_dims(b...) : fuse_contiguous_dims(ss, b...);
  }, bs);
  static const char* names[] = {"optimize_dims", "sort_dims", "fuse_contiguous_dims"};
  counts[names[which]]++;
  put(s + ",\"fn\":\"" + names[which] + "\",\"sets\":" + list(sets) + ",\"after\":" + js(bs) + "}");
}

// -------------------------------------------------------------------------------------------------------------- stride

static void one_stride(rng& r) {
  B b;
  int rank = r.range(0, 4), es = r.pick({1, 1, 2, 3, 4, 8, 12});
  b.b.elem_size = es;
  b.b.rank = rank;
  long total = 1;
  for (int i = 0; i < rank; ++i) {
    index_t e = r.chance(1, 16) ? 0 : r.chance(1, 5) ? 1 : r.range(1, 5);
    if (r.chance(1, 40)) e = -2;
    index_t mn = r.range(-3, 3);
    b.d[i] = dim(mn, mn + e - 1);
    if (r.chance(1, 6)) b.d[i].set_fold_factor(r.range(1, 5));
    index_t n = b.d[i].fold_factor() > 0 ? b.d[i].fold_factor() : std::max<index_t>(e, 1);
    if (total * n > 200) {
      b.d[i] = dim(mn, mn);
      n = 1;
    }
    total *= n;
    if (r.chance(2, 5)) {
      switch (r.below(4)) {
      case 0: b.d[i].set_stride(0); break;
      case 1: b.d[i].set_stride(es * r.range(1, 40)); break;
      case 2: b.d[i].set_stride(r.range(1, 100)); break;
      default: b.d[i].set_stride(es * r.pick({1, 1, 2, 4, 8, 16})); break;
      }
      if (r.chance(1, 10)) b.d[i].set_stride(-b.d[i].stride());
    }
  }
  index_t align = r.pick({1, 1, 1, 2, 4, 8, 16, 32, 64});
  index_t base_align = r.pick({1, 1, 4, 16, 64, 128});
  auto djs = [](const B& b) {
    std::string s = "[";
    for (size_t i = 0; i < b.b.rank; ++i) {
      dim d = b.d[i];
      if (d.stride() == dim::auto_stride) d.set_stride(77777777);
      s += (i ? "," : "") + js(d);
    }
    return s + "]";
  };
  std::string s = "{\"k\":\"stride\",\"es\":" + num(es) + ",\"align\":" + num(align) + ",\"balign\":" + num(base_align) + ",\"dims\":" + djs(b);
  now = s + "}";
  B w = b;
  auto size = w.b.init_strides(align);
  s += ",\"size\":" + num(size ? (index_t)*size : -1) + ",\"after\":" + djs(w) + ",\"bytes\":" + num(w.b.size_bytes()) + ",\"count\":" + num(w.b.elem_count());
  counts["init_strides"]++;
  // Memory: [where the smallest address the allocation covers is relative to base, one past the largest]
  auto mem = [&](void* base) { return "[" + num((index_t)last_alloc - (index_t)base) + "," + num((index_t)(last_alloc + last_size) - (index_t)base) + "," + num((uintptr_t)base % 4096) + "]"; };
  if (size && total < 5000) {
    B a = b;
    watch = true;
    void* p = a.b.allocate(base_align, align);
    watch = false;
    s += ",\"alloc\":" + mem(a.b.base) + ",\"adims\":" + djs(a);
    free(p);
    counts["allocate"]++;
    watch = true;
    raw_buffer_ptr m = raw_buffer::make(rank, es, w.d, base_align);
    watch = false;
    if (m->base) s += ",\"make\":" + mem(m->base);
    else s += ",\"make\":[]";
    s += ",\"mdims\":" + djs([&] { B x; x.b.rank = m->rank; for (size_t i = 0; i < m->rank; ++i) x.d[i] = m->dims[i]; return x; }());
    // The header and the dims must not overlap with the elements.
    s += ",\"head\":" + num(m->base ? (char*)m->base - (char*)(rank ? (void*)(m->dims + rank) : (void*)(m.get() + 1)) : 0);
    counts["make"]++;
  }
  put(s + "}");
}

// Numbers near the limits, as lists of base 10000 digits [sign, least significant, ...].
static std::string big(__int128 x) {
  if (x == 0) return "[0]";
  std::string s = x < 0 ? "[-1" : "[1";
  unsigned __int128 u = x < 0 ? -(unsigned __int128)x : (unsigned __int128)x;
  while (u) {
    s += "," + std::to_string((int)(u % 10000));
    u /= 10000;
  }
  return s + "]";
}
static void one_big_stride(rng& r) {
  B b;
  int rank = r.range(1, 4);
  b.b.rank = rank;
  size_t es = r.pick({1, 4, 8});
  if (r.chance(1, 12)) es = (size_t)1 << r.range(40, 63);
  if (r.chance(1, 30)) es = ~(size_t)0 - r.below(3);
  b.b.elem_size = es;
  for (int i = 0; i < rank; ++i) {
    index_t e = r.chance(1, 3) ? r.range(1, 9) : ((index_t)1 << r.range(8, 61)) + r.range(-2, 2);
    index_t mn = r.chance(1, 2) ? 0 : r.chance(1, 3) ? -((index_t)1 << r.range(1, 60)) : r.range(-5, 5);
    b.d[i] = dim(mn, mn + e - 1);
    if (r.chance(1, 4)) b.d[i].set_stride(r.chance(1, 2) ? ((index_t)1 << r.range(0, 62)) : r.range(0, 100));
    if (r.chance(1, 10)) b.d[i].set_fold_factor((index_t)1 << r.range(1, 50));
  }
  index_t align = (index_t)1 << r.below(r.chance(1, 4) ? 40 : 8);
  B w = b;
  now = "\"init_strides with big numbers\"";
  auto size = w.b.init_strides(align);
  std::string s = "{\"k\":\"bigstride\",\"es\":" + big((__int128)es) + ",\"align\":" + big(align) + ",\"ok\":" + (size ? "1" : "0");
  s += ",\"size\":" + big(size ? (__int128)*size : 0) + ",\"dims\":[";
  for (int i = 0; i < rank; ++i) {
    const dim& d = b.d[i];
    __int128 n = d.fold_factor() > 0 ? (__int128)d.fold_factor() : (__int128)d.max() - d.min() + 1;
    // [extent in memory, stride before (or []), stride after]
    s += std::string(i ? "," : "") + "[" + big(n) + "," + (d.stride() == dim::auto_stride ? "[]" : big(d.stride())) + "," +
         (w.d[i].stride() == dim::auto_stride ? "[]" : big(w.d[i].stride())) + "]";
  }
  s += "],\"valid\":" + std::string(size && validate_buffer(w.b) ? "1" : "0") + ",\"bytes\":" + big(size ? (__int128)w.b.size_bytes() : 0);
  counts["init_strides_big"]++;
  put(s + "}");
}

// ---------------------------------------------------------------------------------------------------------------- iter

static void one_iter(rng& r) {
  std::vector<B> bs = family(r, r.chance(1, 10) ? 5 : r.range(1, 4), 48, true);
  bool slices = r.chance(1, 2);
  std::string s = std::string("{\"k\":\"iter\",\"fn\":\"") + (slices ? "slice" : "element") + "\",\"bufs\":" + js(bs) + ",\"log\":[";
  now = s + "]}";
  std::string log;
  long n = 0;
  auto entry = [&](std::initializer_list<void*> ps, index_t extent) {
    if (++n > 3000) return;
    log += (log.empty() ? "[" : ",[") + num(extent);
    for (void* p : ps) log += "," + num(p ? (char*)p - fake : NUL);
    log += "]";
  };
  auto f = [&](auto... p) { entry({(void*)p...}, 1); };
  auto g = [&](index_t e, auto... p) { entry({(void*)p...}, e); };
  apply([&](auto& b0, auto&... b) {
    if (slices) for_each_contiguous_slice(b0, g, b...);
    else for_each_element(f, b0, b...);
  }, bs);
  if (n > 3000) {
    put("{\"k\":\"crash\",\"sig\":0,\"case\":" + now + "}");
    return;
  }
  counts[slices ? "for_each_contiguous_slice" : "for_each_element"]++;
  put(s + log + "]}");
}

// ---------------------------------------------------------------------------------------------------------------- copy

struct arena {
  std::vector<unsigned char> m;
  void fit(rng& r, raw_buffer& b, int guard) {
    index_t lo, hi;
    spans(b, lo, hi);
    m.resize(hi - lo + 2 * guard);
    bool flat = r.chance(1, 8);
    for (auto& i : m) i = flat ? 7 : r.below(256);
    b.base = m.data() + guard - lo;
  }
};
static void one_copy(rng& r) {
  int es = r.pick({1, 1, 2, 3, 4, 8, 12, 16, 24});
  if (r.chance(1, 40)) es = 80;
  int rank = r.range(0, 4);
  B dst, src, pd;
  arena md, ms, mp;
  shape(r, dst, rank, es, true, r.chance(1, 3), false, r.chance(1, 4), 6, es > 8 ? 24 : 60);
  if (r.chance(1, 3)) {
    // dense
    index_t s = es;
    for (int d = 0; d < rank; ++d) {
      dst.d[d].set_fold_factor(dim::unfolded);
      dst.d[d].set_stride(s);
      s *= std::max<index_t>(1, dst.d[d].extent());
    }
  }
  md.fit(r, dst.b, 3);
  int what = r.below(5);  // 0, 1: padded copy; 2: copy; 3: pad; 4: in place padded copy
  bool padded = what != 2;
  bool inplace = what == 4;
  std::vector<dim> bounds;
  if (what == 3) {
    for (int d = 0; d < rank; ++d) {
      index_t lo = dst.d[d].min() + r.range(-2, 3), hi = dst.d[d].max() + r.range(-3, 2);
      if (r.chance(1, 12)) lo = hi = 0;
      bounds.push_back(dim(lo, hi, r.pick({0, 1, es}), dim::unfolded));
    }
  } else if (inplace) {
    src = dst;
    for (int d = 0; d < rank; ++d) {
      index_t lo = dst.d[d].min() + r.range(0, 2), hi = dst.d[d].max() - r.range(0, 2);
      if (r.chance(1, 2)) continue;
      src.b.crop(d, lo, hi);
    }
  } else {
    int srank = r.chance(2, 3) ? rank : r.range(0, rank);
    shape(r, src, srank, es, r.chance(2, 3), r.chance(1, 3), true, r.chance(1, 4), 6);
    for (int d = 0; d < srank; ++d) {
      dim& x = src.d[d];
      if (x.stride() == 0) {
        // Everything is in bounds of a broadcast.
        if (!x.is_broadcast()) x.set_bounds(dst.d[d].min() - r.below(2), dst.d[d].max() + r.below(2));
        continue;
      }
      index_t lo = dst.d[d].min(), hi = dst.d[d].max();
      if (padded) {
        lo += r.chance(1, 3) ? r.range(-2, 3) : 0;
        hi += r.chance(1, 3) ? r.range(-3, 2) : 0;
        if (r.chance(1, 30)) lo += 9, hi += 9;
      } else {
        lo -= r.chance(1, 3) ? r.range(0, 2) : 0;
        hi += r.chance(1, 3) ? r.range(0, 2) : 0;
      }
      x.set_bounds(lo, std::max(hi, lo - 1));
      if (x.fold_factor() > 0 && r.chance(4, 5)) x.set_fold_factor(std::max<index_t>(1, x.extent()) + r.below(3));
    }
    if (r.chance(1, 3)) {
      index_t s = es;
      for (int d = 0; d < srank; ++d) {
        if (src.d[d].stride() == 0) continue;
        src.d[d].set_fold_factor(dim::unfolded);
        src.d[d].set_stride(s);
        s *= std::max<index_t>(1, src.d[d].extent());
      }
    }
    ms.fit(r, src.b, 0);
    bool empty = false;
    for (int d = 0; d < srank; ++d) empty = empty || src.d[d].empty();
    if (padded && (empty || r.chance(1, 25))) src.b.base = nullptr;
  }
  if (padded) {
    int prank = r.chance(1, 2) ? 0 : r.range(0, rank);
    shape(r, pd, prank, es, r.chance(2, 3), r.chance(1, 4), true, false, 6);
    for (int d = 0; d < prank; ++d) {
      dim& x = pd.d[d];
      if (x.is_broadcast()) continue;
      x.set_bounds(dst.d[d].min() - r.below(2), dst.d[d].max() + r.below(2));
      if (x.fold_factor() > 0) x.set_fold_factor(std::max<index_t>(1, x.extent()) + r.below(3));
    }
    mp.fit(r, pd.b, 0);
    if (r.chance(1, 5)) for (auto& i : mp.m) i = 0;
  }
  std::string s = "{\"k\":\"copy\",\"what\":" + num(what) + ",\"es\":" + num(es) + ",\"dst\":" + js(dst.b, (char*)md.m.data());
  s += ",\"src\":" + js(src.b, inplace ? (char*)md.m.data() : (char*)ms.m.data()) + ",\"pad\":" + js(pd.b, (char*)mp.m.data());
  s += ",\"bounds\":[";
  for (size_t d = 0; d < bounds.size(); ++d) s += (d ? "," : "") + js(bounds[d]);
  s += "],\"ms\":" + list(ms.m) + ",\"mp\":" + list(mp.m) + ",\"m0\":" + list(md.m);
  now = "{\"what\":" + num(what) + ",\"dst\":" + js(dst.b, (char*)md.m.data()) + ",\"src\":" + js(src.b, inplace ? (char*)md.m.data() : (char*)ms.m.data()) + ",\"pad\":" + js(pd.b, (char*)mp.m.data()) + "}";
  auto s0 = ms.m, p0 = mp.m;
  B d0 = dst, src0 = src, p00 = pd;
  if (what == 3) pad(bounds.data(), dst.b, pd.b);
  else if (padded) copy(src.b, dst.b, pd.b);
  else copy(src.b, dst.b);
  bool ro = s0 == ms.m && p0 == mp.m && js(d0.b) == js(dst.b) && js(src0.b) == js(src.b) && js(p00.b) == js(pd.b);
  static const char* names[] = {"copy_padded", "copy_padded", "copy", "pad", "copy_in_place"};
  counts[names[what]]++;
  put(s + ",\"m1\":" + list(md.m) + ",\"ro\":" + (ro ? "1" : "0") + "}");
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  out = fopen(argv[4], "w");
  signal(SIGABRT, on_signal);
  signal(SIGSEGV, on_signal);
  signal(SIGFPE, on_signal);
  signal(SIGBUS, on_signal);
  signal(SIGALRM, on_signal);
  for (int i = 0; i < n; ++i) {
    rng r(seed * 1000003 + i);
    alarm(20);
    if (mode == "view") i % 2 ? one_view(r) : one_eval(r);
    else if (mode == "opt") one_opt(r);
    else if (mode == "stride") i % 3 ? one_stride(r) : one_big_stride(r);
    else if (mode == "iter") one_iter(r);
    else if (mode == "copy") one_copy(r);
  }
  fclose(out);
  printf("{");
  bool first = true;
  for (auto& i : counts) {
    printf("%s\"%s\":%ld", first ? "" : ",", i.first.c_str(), i.second);
    first = false;
  }
  printf("}\n");
  return 0;
}
