// One-off tool (not used by any check): lists the shapes that the simplifier's rewrite rules are about, as the prefix
// expressions of harness/rule_shapes.txt, with their side conditions. Used only to pick inputs.
//   g++ -std=c++17 -fno-rtti -I/repo dump_rules.cc
#include <iostream>
#include <sstream>
#include "slinky/builder/rewrite.h"
#include "slinky/builder/simplify_rules.h"
using namespace slinky;
using namespace slinky::rewrite;
using std::string;
static string P(bool b) { return std::to_string((int)b); }
static string P(int b) { return std::to_string(b); }
static string P(long b) { return b == INT64_MAX ? "maxint" : b == INT64_MIN ? "minint" : std::to_string(b); }
static string P(const pattern_expr&) { return "?"; }
template <int N> string P(const pattern_wildcard<N>&) { return string(1, "xyzwuvt"[N]); }
template <int N> string P(const pattern_constant<N>&) { return "c" + std::to_string(N); }
template <typename A, index_t D> string P(const pattern_optional<A, D>& p);
template <typename T, typename A, typename B> string P(const pattern_binary<T, A, B>& p);
template <typename T, typename A> string P(const pattern_unary<T, A>& p);
template <typename C, typename T, typename F> string P(const pattern_select<C, T, F>& p);
template <typename... A> string P(const pattern_call<A...>& p);
template <typename X, typename A, typename B, typename C> string P(const pattern_staircase<X, A, B, C>& p);
template <typename T, typename Fn> string P(const replacement_predicate<T, Fn>&) { return "?"; }
template <typename T> string P(const replacement_eval<T>& p) { return P(p.a); }
template <typename T> string P(const replacement_boolean<T>& p) { return P(p.a); }
template <typename... A> string P(const replacement_staircase_sum_bound<A...>&) { return "?"; }
template <typename A, index_t D> string P(const pattern_optional<A, D>& p) { return "opt " + std::to_string(D) + " " + P(p.a); }
template <typename T, typename A, typename B> string P(const pattern_binary<T, A, B>& p) {
  string op;
  switch (T::static_type) {
  case expr_node_type::add: op = "+"; break;
  case expr_node_type::sub: op = "-"; break;
  case expr_node_type::mul: op = "*"; break;
  case expr_node_type::div: op = "/"; break;
  case expr_node_type::mod: op = "%"; break;
  case expr_node_type::min: op = "min"; break;
  case expr_node_type::max: op = "max"; break;
  case expr_node_type::equal: op = "=="; break;
  case expr_node_type::not_equal: op = "!="; break;
  case expr_node_type::less: op = "<"; break;
  case expr_node_type::less_equal: op = "<="; break;
  case expr_node_type::logical_and: op = "&&"; break;
  case expr_node_type::logical_or: op = "||"; break;
  default: op = "BAD";
  }
  return op + " " + P(p.a) + " " + P(p.b);
}
template <typename T, typename A> string P(const pattern_unary<T, A>& p) { return "! " + P(p.a); }
template <typename C, typename T, typename F> string P(const pattern_select<C, T, F>& p) {
  return "select " + P(p.c) + " " + P(p.t) + " " + P(p.f);
}
template <typename... A> string P(const pattern_call<A...>& p) {
  std::stringstream s; s << p.fn;
  string r = s.str();
  std::apply([&](auto&... a) { ((r += " " + P(a)), ...); }, p.args);
  return r;
}
template <typename X, typename A, typename B, typename C> string P(const pattern_staircase<X, A, B, C>& p) {
  return "stair " + P(p.x) + " " + P(p.a) + " " + P(p.b) + " " + P(p.c);
}
struct dumper {
  template <typename R> void preds(const R&) {}
  void preds() {}
  template <typename R, typename Pr, typename... More> void preds(const R&, const Pr& p, const More&... m) {
    std::cout << " ; " << P(p);
    preds(m...);
  }
  template <typename L, typename... M> bool operator()(const L& l, const M&... m) {
    std::cout << P(l);
    preds(m...);
    std::cout << "\n";
    return false;
  }
};
int main() {
  dumper d;
  apply_min_rules(d); apply_max_rules(d); apply_add_rules(d); apply_sub_rules(d); apply_mul_rules(d);
  apply_div_rules(d); apply_mod_rules(d); apply_less_rules(d); apply_equal_rules(d); apply_logical_and_rules(d);
  apply_logical_or_rules(d); apply_logical_not_rules(d); apply_select_rules(d); apply_call_rules(d);
}
