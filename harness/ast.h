// Dumps slinky expressions and statements as JSON arrays (the abstract syntax the TLA+ modules interpret).
#ifndef VERIF_AST_H
#define VERIF_AST_H
#include <cstdint>
#include <limits>
#include <set>
#include <string>
#include <vector>

#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"

namespace vf {
using namespace slinky;

inline std::string num(int64_t v) { return std::to_string(v); }

struct ast_dumper {
  std::string out;
  bool ok = true;  // false: contains something the specification's integers cannot represent
  int nodes = 0;
  int64_t big = 1000000000;

  // Sentinels that appear in dims are written symbolically.
  void constant_value(int64_t v) {
    if (v == dim::auto_stride) { out += "[\"auto\"]"; return; }
    if (v == std::numeric_limits<int>::max()) { out += "[\"c\",2147483647]"; return; }
    if (v > big || v < -big) { ok = false; out += "[\"big\",\"" + num(v) + "\"]"; return; }
    out += "[\"c\"," + num(v) + "]";
  }
  void bin(const char* op, const expr& a, const expr& b) {
    out += std::string("[\"") + op + "\",";
    e(a); out += ","; e(b); out += "]";
  }
  static const char* field_name(buffer_field f) {
    switch (f) {
    case buffer_field::rank: return "rank";
    case buffer_field::elem_size: return "elem_size";
    case buffer_field::size_bytes: return "size_bytes";
    case buffer_field::min: return "min";
    case buffer_field::max: return "max";
    case buffer_field::stride: return "stride";
    case buffer_field::fold_factor: return "fold";
    default: return "none";
    }
  }
  static const char* intrinsic_name(intrinsic i) {
    switch (i) {
    case intrinsic::none: return "user";
    case intrinsic::negative_infinity: return "-inf";
    case intrinsic::positive_infinity: return "+inf";
    case intrinsic::indeterminate: return "indet";
    case intrinsic::abs: return "abs";
    case intrinsic::and_then: return "and_then";
    case intrinsic::or_else: return "or_else";
    case intrinsic::buffer_at: return "buffer_at";
    case intrinsic::semaphore_init: return "semaphore_init";
    case intrinsic::semaphore_signal: return "semaphore_signal";
    case intrinsic::semaphore_wait: return "semaphore_wait";
    case intrinsic::wait_for: return "wait_for";
    case intrinsic::trace_begin: return "trace_begin";
    case intrinsic::trace_end: return "trace_end";
    case intrinsic::free: return "free";
    case intrinsic::validate_buffer: return "validate_buffer";
    }
    return "?";
  }
  virtual std::string v(var x) { return x.defined() ? num(x.id) : std::string("-1"); }
  virtual ~ast_dumper() = default;

  void e(const expr& x) {
    ++nodes;
    if (!x.defined()) { out += "[\"undef\"]"; return; }
    switch (x.type()) {
    case expr_node_type::variable: {
      auto* o = x.as<variable>();
      if (o->field == buffer_field::none) out += "[\"v\"," + v(o->sym) + "]";
      else out += "[\"bf\"," + v(o->sym) + ",\"" + field_name(o->field) + "\"," + num(o->dim) + "]";
      return;
    }
    case expr_node_type::constant: constant_value(x.as<constant>()->value); return;
    case expr_node_type::let: {
      auto* o = x.as<let>();
      out += "[\"let\",[";
      for (size_t i = 0; i < o->lets.size(); ++i) {
        if (i) out += ",";
        out += "[" + v(o->lets[i].first) + ","; e(o->lets[i].second); out += "]";
      }
      out += "],"; e(o->body); out += "]";
      return;
    }
#define B(T, S) case expr_node_type::T: bin(S, x.as<class T>()->a, x.as<class T>()->b); return;
    B(add, "+") B(sub, "-") B(mul, "*") B(div, "/") B(mod, "%") B(min, "min") B(max, "max") B(equal, "==")
    B(not_equal, "!=") B(less, "<") B(less_equal, "<=") B(logical_and, "&&") B(logical_or, "||")
#undef B
    case expr_node_type::logical_not: out += "[\"!\","; e(x.as<logical_not>()->a); out += "]"; return;
    case expr_node_type::select: {
      auto* o = x.as<class select>();
      out += "[\"sel\","; e(o->condition); out += ","; e(o->true_value); out += ","; e(o->false_value); out += "]";
      return;
    }
    case expr_node_type::call: {
      auto* o = x.as<call>();
      out += std::string("[\"call\",\"") + intrinsic_name(o->intrinsic) + "\",[";
      for (size_t i = 0; i < o->args.size(); ++i) { if (i) out += ","; e(o->args[i]); }
      out += "]]";
      return;
    }
    default: out += "[\"?\"]"; ok = false; return;
    }
  }
};

inline std::string dump(const expr& x, bool* ok = nullptr) {
  ast_dumper d;
  d.e(x);
  if (ok) *ok = *ok && d.ok;
  return d.out;
}

inline int node_count(const expr& x) { ast_dumper d; d.e(x); return d.nodes; }

// Upper bound of the absolute value of every subexpression, if |variables| <= m. Returns -1 if it may exceed `lim`.
struct magnitude {
  int64_t m, lim;
  std::vector<std::pair<size_t, int64_t>> lets;
  int64_t fail = -1;
  int64_t get(const expr& x) {
    if (!x.defined()) return -1;
    switch (x.type()) {
    case expr_node_type::variable: {
      auto* o = x.as<variable>();
      for (auto i = lets.rbegin(); i != lets.rend(); ++i) if (i->first == o->sym.id) return i->second;
      return m;
    }
    case expr_node_type::constant: {
      int64_t c = x.as<constant>()->value;
      if (c == std::numeric_limits<int64_t>::min()) return -1;
      c = c < 0 ? -c : c;
      return c > lim ? -1 : c;
    }
    case expr_node_type::let: {
      auto* o = x.as<let>();
      size_t n = lets.size();
      for (auto& l : o->lets) {
        int64_t r = get(l.second);
        if (r < 0) { lets.resize(n); return -1; }
        lets.push_back({l.first.id, r});
      }
      int64_t r = get(o->body);
      lets.resize(n);
      return r;
    }
    case expr_node_type::add: case expr_node_type::sub: case expr_node_type::mul: case expr_node_type::div:
    case expr_node_type::mod: case expr_node_type::min: case expr_node_type::max: case expr_node_type::equal:
    case expr_node_type::not_equal: case expr_node_type::less: case expr_node_type::less_equal:
    case expr_node_type::logical_and: case expr_node_type::logical_or: {
      auto* o = reinterpret_cast<const binary_op*>(x.get());
      int64_t a = get(o->a), b = get(o->b);
      if (a < 0 || b < 0) return -1;
      __int128 r;
      switch (x.type()) {
      case expr_node_type::add: case expr_node_type::sub: r = (__int128)a + b; break;
      case expr_node_type::mul: r = (__int128)a * b; break;
      case expr_node_type::div: r = a + 1; break;
      case expr_node_type::mod: r = b; break;
      case expr_node_type::min: case expr_node_type::max: r = std::max(a, b); break;
      default: r = 1; break;
      }
      return r > lim ? -1 : (int64_t)r;
    }
    case expr_node_type::logical_not: return get(x.as<logical_not>()->a) < 0 ? -1 : 1;
    case expr_node_type::select: {
      auto* o = x.as<class select>();
      int64_t c = get(o->condition), t = get(o->true_value), f = get(o->false_value);
      return c < 0 || t < 0 || f < 0 ? -1 : std::max(t, f);
    }
    case expr_node_type::call: {
      auto* o = x.as<call>();
      int64_t r = 1;
      for (auto& a : o->args) { int64_t i = get(a); if (i < 0) return -1; r = std::max(r, i); }
      switch (o->intrinsic) {
      case intrinsic::abs: case intrinsic::and_then: case intrinsic::or_else: return r;
      default: return -1;
      }
    }
    default: return -1;
    }
  }
};
inline bool fits(const expr& x, int64_t m, int64_t lim = 1 << 29) {
  magnitude g{m, lim};
  return g.get(x) >= 0;
}

}  // namespace vf
#endif
