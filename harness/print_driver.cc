// print_driver SEED N OUT [compare]: groups of expressions and statements, alike but for details, and how they are
// printed, or how they compare.
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

#include "slinky/builder/substitute.h"
#include "slinky/runtime/print.h"
#include "stmt_ast.h"
#include "rng.h"
#include "gen_expr.h"
#include "gen_stmt.h"

using namespace slinky;
using namespace vf;

static std::string quote(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else r += c;
  }
  return r + "\"";
}

static node_context names;

template <typename T>
static std::string texts(const T& x) {
  std::ostringstream a, b, c;
  a << x;
  print(b, x);
  print(c, x, &names);
  return "[" + quote(a.str()) + "," + quote(b.str()) + "," + quote(c.str()) + "]";
}

struct group {
  std::string items;
  int n = 0;
  void add(const std::string& ast, const std::string& t, const std::string& again) {
    if (n++) items += ",";
    items += "[" + ast + "," + t + "," + again + "]";
  }
};

// The nodes of a group, built twice, and how each compares to each.
template <typename T>
struct compared {
  std::vector<T> a, b;
  std::vector<std::string> ast;
  void add(const std::string& s, const T& x, const T& y) {
    ast.push_back(s);
    a.push_back(x);
    b.push_back(y);
  }
  std::string json() const {
    auto sgn = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    std::string s;
    for (size_t i = 0; i < a.size(); ++i) {
      s += std::string(i ? "," : "") + "[" + ast[i] + ",[";
      for (size_t k = 0; k < a.size(); ++k) s += (k ? "," : "") + std::to_string(sgn(compare(a[i], b[k])));
      s += "],[";
      for (size_t k = 0; k < a.size(); ++k) s += std::string(k ? "," : "") + (match(a[i], b[k]) ? "1" : "0");
      s += "]]";
    }
    return s;
  }
};

// A few leaves and all operations, so that many pairs differ in one place only.
static expr small(rng& r, int depth) {
  if (depth <= 0 || r.chance(1, 4)) {
    switch (r.below(9)) {
    case 0: return expr(r.range(-1, 1));
    case 1: return expr(r.pick<int64_t>({10, 11, 16, -16, 1000000, 2147483647}));
    case 2: case 3: case 4: return expr(var(r.below(2)));
    case 5: return buffer_min(var(r.below(2)), r.below(2));
    case 6: return buffer_max(var(r.below(2)), r.below(2));
    case 7: return r.chance(1, 2) ? buffer_stride(var(0), r.below(2)) : buffer_fold_factor(var(0), r.below(2));
    default: return r.chance(1, 3) ? expr(buffer_rank(var(0))) : r.chance(1, 2) ? buffer_elem_size(var(0))
                    : r.chance(1, 2) ? variable::make(var(0), buffer_field::size_bytes) : expr();
    }
  }
  auto s = [&]() { return small(r, depth - 1); };
  switch (r.below(24)) {
  case 0: return add::make(s(), s());
  case 1: return sub::make(s(), s());
  case 2: return mul::make(s(), s());
  case 3: return div::make(s(), s());
  case 4: return mod::make(s(), s());
  case 5: return slinky::min::make(s(), s());
  case 6: return slinky::max::make(s(), s());
  case 7: return equal::make(s(), s());
  case 8: return not_equal::make(s(), s());
  case 9: return less::make(s(), s());
  case 10: return less_equal::make(s(), s());
  case 11: return logical_and::make(s(), s());
  case 12: return logical_or::make(s(), s());
  case 13: case 14: return logical_not::make(s());
  case 15: return slinky::select::make(s(), s(), s());
  case 16: return let::make(var(2 + r.below(2)), s(), s());
  case 17: {
    std::vector<std::pair<var, expr>> l;
    l.push_back({var(2), s()});
    if (r.chance(1, 2)) l.push_back({var(3), s()});
    return let::make(l, s());
  }
  case 18: return call::make(intrinsic::abs, {s()});
  case 19: return call::make(r.chance(1, 2) ? intrinsic::and_then : intrinsic::or_else, {s(), s()});
  case 20: return call::make(intrinsic::buffer_at, {expr(var(0)), s()});
  case 21: return call::make(intrinsic::buffer_at, {expr(var(0)), s(), s()});
  case 22: return call::make(r.pick({intrinsic::positive_infinity, intrinsic::negative_infinity, intrinsic::indeterminate}), {});
  default: {
    std::vector<expr> a;
    for (int n = r.range(0, 2); n > 0; --n) a.push_back(s());
    return call::make(r.pick({intrinsic::semaphore_init, intrinsic::semaphore_signal, intrinsic::semaphore_wait,
        intrinsic::trace_begin, intrinsic::trace_end, intrinsic::free, intrinsic::validate_buffer}), a);
  }
  }
}

static stmt a_stmt(uint64_t seed, int64_t flip, bool targets = true) {
  rng r(seed);
  r.flip = flip;
  stmt_gen g(r);
  // Functions cannot be compared.
  if (targets) g.target = [](const call_stmt*, eval_context&) -> index_t { return 0; };
  g.constants = false;
  g.sibling = [](const stmt& s, const stmt&) { return s; };
  stmt_gen::scope sc;
  sc.scalars = {0, 1, 2, 3};
  for (int i = 0; i < 3; ++i) sc.bufs.push_back({40 + i, true, true, (int)i});
  g.budget = r.range(2, 6);
  return g.body(sc, r.range(1, 4));
}

// Small declarations that differ in a field or two.
static stmt a_decl(rng& r) {
  auto f = [&]() { return r.chance(1, 3) ? expr() : expr(r.below(2)); };
  std::vector<dim_expr> ds;
  for (int d = r.range(1, 2); d > 0; --d) {
    expr lo = r.chance(3, 4) ? expr(0) : f(), hi = r.chance(3, 4) ? expr(0) : f(), st = r.chance(3, 4) ? expr(0) : f();
    ds.push_back({{lo, hi}, st, f()});
  }
  var b(40), c(41);
  stmt body = call_stmt::make(nullptr, {b}, {c}, {}, {});
  switch (r.below(3)) {
  case 0: return make_buffer::make(b, buffer_at(c), expr(4), ds, body);
  case 1: return allocate::make(b, r.pick({memory_type::automatic, memory_type::stack, memory_type::heap}), expr(4), ds, body);
  default: return r.chance(1, 2) ? crop_dim::make(b, c, r.below(2), ds[0].bounds, body)
                                 : stmt(loop::make(var(0), f(), ds[0].bounds, ds[0].stride, body));
  }
}

int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int n = atoi(argv[2]);
  std::ofstream out(argv[3]);
  for (int i = 0; i < 700; ++i) var(names, "s" + num(i));
  long printed = 0;
  if (argc > 4) {
    for (int i = 0; i < n; ++i) {
      uint64_t s0 = (seed * 1000003 + i) * 1000;
      out << "{\"k\":\"compare\",\"i\":" << i << ",\"items\":[";
      if (i % 2 == 0) {
        compared<expr> g;
        int depth = 1 + i / 2 % 3;
        for (int k = 0; k < 16; ++k) {
          rng r(s0 + (k % 4)), r2(s0 + (k % 4));
          if (k >= 4) r.flip = r2.flip = k;
          expr e = small(r, depth), e2 = small(r2, depth);
          g.add(dump(e), e, e2);
        }
        out << g.json();
      } else {
        compared<stmt> g;
        for (int k = 0; k < 12; ++k) {
          int64_t flip = k ? (int64_t)(rng(s0 + k).below(150)) + 2 : -1;
          stmt a = a_stmt(s0, flip, false), b = a_stmt(s0, flip, false);
          if (i % 4 == 3) {
            rng ra(s0 + k), rb(s0 + k);
            a = a_decl(ra);
            b = a_decl(rb);
          }
          if (k >= 10) {
            // Closures
            a = let_stmt::make({{var(0), expr(var(0))}}, a_stmt(s0, -1, false), k == 10);
            b = let_stmt::make({{var(0), expr(var(0))}}, a_stmt(s0, -1, false), k == 10);
          }
          stmt_dumper d;
          d.exact = true;
          d.s(a);
          g.add(d.out, a, b);
        }
        out << g.json();
      }
      out << "]}\n";
    }
    return 0;
  }
  for (int i = 0; i < n; ++i) {
    uint64_t s0 = (seed * 1000003 + i) * 1000;
    group g;
    if (i % 2 == 0) {
      int depth = 1 + i / 2 % 3;
      for (int k = 0; k < 40; ++k) {
        // Half of them are another one of the group, but for one choice.
        rng r(s0 + (k % 8)), r2(s0 + (k % 8));
        if (k >= 8) r.flip = r2.flip = k;
        expr e = small(r, depth), e2 = small(r2, depth);
        g.add(dump(e), texts(e), texts(e2));
      }
    } else {
      for (int k = 0; k < 12; ++k) {
        int64_t flip = k ? (int64_t)(rng(s0 + k).below(150)) + 2 : -1;
        stmt a = a_stmt(s0, flip), b = a_stmt(s0, flip);
        stmt_dumper d;
        if (i % 4 == 3) {
          rng ra(s0 + k), rb(s0 + k);
          a = a_decl(ra);
          b = a_decl(rb);
          d.exact = true;
        }
        d.s(a);
        g.add(d.out, texts(a), texts(b));
      }
    }
    printed += g.n;
    out << "{\"k\":\"print\",\"i\":" << i << ",\"items\":[" << g.items << "]}\n";
  }
  printf("{\"printed\": %ld}\n", printed);
}
