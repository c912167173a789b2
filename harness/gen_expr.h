// Random expressions with shared subterms, biased to the shapes that bounds inference and buffer arithmetic produce.
#ifndef VERIF_GEN_EXPR_H
#define VERIF_GEN_EXPR_H
#include <cstring>
#include <string>
#include <vector>
#include "rng.h"
#include "slinky/runtime/expr.h"

namespace vf {
using namespace slinky;

struct expr_gen {
  rng& r;
  int nv;                  // variables 0..nv-1
  int let_base = 20;       // let-bound symbols
  int max_const = 12;
  bool lets = true;
  int shadow = -1;         // if >= 0: lets may redeclare this symbol
  std::vector<expr> extra; // additional leaves (e.g. buffer fields)
  std::vector<expr> pool;

  expr_gen(rng& r, int nv) : r(r), nv(nv) {}

  int64_t constant() {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return r.pick({2, 3, 4, 8, 16});
    case 4: return r.pick({-2, -3, -4, -8});
    default: return r.range(-max_const, max_const);
    }
  }
  expr var_() { return expr(var(r.below(nv))); }
  expr leaf() {
    if (!extra.empty() && r.chance(1, 3)) return r.pick(extra);
    if (!pool.empty() && r.chance(1, 5)) return r.pick(pool);
    return r.chance(2, 3) ? var_() : expr(constant());
  }
  // affine in one variable
  expr affine() {
    expr e = r.chance(1, 4) && !pool.empty() ? r.pick(pool) : var_();
    if (r.chance(1, 2)) e = e * expr(constant());
    if (r.chance(2, 3)) e = e + expr(constant());
    if (r.chance(1, 6)) e = expr(constant()) - e;
    return e;
  }
  expr stair() {
    expr e = affine();
    int64_t d = constant();
    switch (r.below(5)) {
    case 0: return e / expr(d);
    case 1: return (e / expr(d)) * expr(r.chance(1, 2) ? d : constant());
    case 2: return e % expr(d);
    case 3: return (e / expr(d)) * expr(d) + e % expr(d);
    default: return align_up(e, expr(d));
    }
  }
  expr cond(int depth) {
    switch (r.below(9)) {
    case 0: return term(depth - 1) == term(depth - 1);
    case 1: case 2: return term(depth - 1) < term(depth - 1);
    case 3: case 4: return term(depth - 1) <= term(depth - 1);
    case 5: return term(depth - 1) != term(depth - 1);
    case 6: return depth > 0 ? (r.chance(1, 6) ? and_then(cond(depth - 1), cond(depth - 1)) : cond(depth - 1) && cond(depth - 1)) : var_() < expr(constant());
    case 7: return depth > 0 ? (r.chance(1, 6) ? or_else(cond(depth - 1), cond(depth - 1)) : cond(depth - 1) || cond(depth - 1)) : var_() <= expr(constant());
    default: return !(depth > 0 ? cond(depth - 1) : leaf());
    }
  }
  expr term(int depth) {
    expr e = term_(depth);
    if (pool.size() < 12 && r.chance(1, 3)) pool.push_back(e);
    return e;
  }
  expr term_(int depth) {
    if (depth <= 0) return r.chance(1, 4) ? affine() : leaf();
    int d = depth - 1;
    switch (r.below(lets ? 24 : 23)) {
    case 0: case 1: return term(d) + term(d);
    case 2: case 3: return term(d) - term(d);
    case 4: return term(d) * (r.chance(3, 4) ? expr(constant()) : term(d));
    case 5: case 6: return term(d) / (r.chance(3, 4) ? expr(constant()) : term(d));
    case 7: case 8: return term(d) % (r.chance(3, 4) ? expr(constant()) : term(d));
    case 9: case 10: return min(term(d), term(d));
    case 11: case 12: return max(term(d), term(d));
    case 13: case 14: return select(cond(d), term(d), term(d));
    case 15: return cond(d);
    case 16: return stair();
    case 17: { expr t = term(d); return min(max(t, affine()), affine()); }
    case 18: { expr a = stair(), b = stair(); return r.chance(1, 2) ? a + b : a - b; }
    case 19: return abs(term(d));
    case 20: { expr a = term(d); int64_t c0 = constant(), c1 = constant(); return min(a + expr(c0), affine()) + expr(c1); }
    case 21: { expr a = term(d), b = affine(); return max(min(a, b), b - expr(constant())); }
    case 22: { expr c = cond(d); expr t = term(d); return select(c, t, t + expr(constant())); }
    default: {
      expr v = term(d);
      var s(shadow >= 0 && r.chance(1, 2) ? shadow : let_base++);
      pool.push_back(expr(s));
      size_t keep = pool.size();
      expr body = term(d);
      // the bound variable is not in scope outside of the body
      std::vector<expr> keepers;
      (void)keep;
      pool.clear();
      return let::make(s, v, r.chance(1, 2) ? body + expr(s) : min(body, expr(s) * 2));
    }
    }
  }
  // Small expressions of the shapes that algebraic identities are about: few distinct variables, constants that divide
  // each other, every operator.
  int64_t tk = 2;
  int64_t tconst() {
    switch (r.below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: case 4: return tk;
    case 5: return -tk;
    case 6: return 2 * tk * (r.chance(1, 3) ? -1 : 1);
    case 7: return tk * r.range(-3, 3) + r.range(-1, 1);
    case 8: return r.pick({2, 3, 4, 6, 8, 12});
    default: return r.range(-9, 9);
    }
  }
  expr tleaf() { return r.chance(1, 5) ? expr(tconst()) : var_(); }
  expr tcmp(int d) {
    expr a = tshape(d), b = r.chance(1, 3) ? expr(tconst()) : tshape(d);
    switch (r.below(4)) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return a == b;
    default: return a != b;
    }
  }
  expr tcond(int d) {
    switch (r.below(6)) {
    case 0: return tcmp(d) && tcmp(d);
    case 1: return tcmp(d) || tcmp(d);
    case 2: return !tcmp(d);
    case 3: return var_();
    default: return tcmp(d);
    }
  }
  expr tshape(int d) {
    if (d <= 0) return tleaf();
    int i = d - (r.chance(1, 3) ? 1 : r.below(2) + 1);
    switch (r.below(26)) {
    case 0: case 1: return tshape(i) + tshape(d - 1);
    case 2: return tshape(d - 1) - tshape(i);
    case 3: return tshape(i) - tshape(d - 1);
    case 4: case 5: return tshape(d - 1) + expr(tconst());
    case 6: return expr(tconst()) - tshape(d - 1);
    case 7: case 8: case 9: return tshape(d - 1) * expr(tconst());
    case 10: case 11: case 12: return tshape(d - 1) / expr(tconst());
    case 13: case 14: return tshape(d - 1) % expr(tconst());
    case 15: case 16: return min(tshape(d - 1), tshape(i));
    case 17: case 18: return max(tshape(d - 1), tshape(i));
    case 19: return select(tcond(i), tshape(d - 1), tshape(i));
    case 20: return select(tcond(d - 1), expr(tconst()), expr(tconst()));
    case 21: return abs(tshape(d - 1));
    case 22: return tcond(d - 1);
    case 23: return tshape(d - 1) / tshape(i);
    case 24: return tshape(d - 1) * tshape(i);
    default: return expr(tconst()) / tshape(d - 1);
    }
  }
  expr gen_template() {
    pool.clear();
    tk = r.pick({1, 2, 2, 3, 4, 5});
    return r.chance(1, 4) ? tcond(2) : tshape(r.pick({2, 3, 3}));
  }
  // An instance of one of the shapes in rule_shapes.inc: expressions that algebraic identities with side conditions on
  // constants are about. Mostly with constants that satisfy one of the conditions, also with ones that just miss it.
  std::vector<std::string> tok;
  size_t tp = 0;
  int64_t cs[8];
  expr ws[8];
  struct cval { bool known; int64_t v; };
  cval pred() {
    const std::string& t = tok[tp++];
    if (t == "?") return {false, 0};
    if (t[0] == 'c' && t.size() == 2) return {true, cs[t[1] - '0']};
    if (isdigit(t[0]) || (t[0] == '-' && t.size() > 1)) return {true, (int64_t)atoll(t.c_str())};
    if (t.size() == 1 && strchr("xyzwuvt", t[0])) return {false, 0};
    if (t == "opt") { ++tp; return pred(); }
    if (t == "!" || t == "abs") { cval a = pred(); return {a.known, t == "!" ? !a.v : std::abs(a.v)}; }
    if (t == "select") { cval a = pred(), b = pred(), c = pred(); return {a.known && b.known && c.known, a.v ? b.v : c.v}; }
    cval a = pred(), b = pred();
    if (t == "&&") return a.known && b.known ? cval{true, a.v && b.v} : (a.known && !a.v) || (b.known && !b.v) ? cval{true, 0} : cval{false, 0};
    if (t == "||") return a.known && b.known ? cval{true, a.v || b.v} : (a.known && a.v) || (b.known && b.v) ? cval{true, 1} : cval{false, 0};
    if (!a.known || !b.known) return {false, 0};
    int64_t x = a.v, y = b.v;
    auto fd = [](int64_t x, int64_t y) -> int64_t { if (!y) return 0; int64_t q = x / y, m = x % y; return m < 0 ? (y < 0 ? q + 1 : q - 1) : q; };
    if (t == "+") return {true, x + y};
    if (t == "-") return {true, x - y};
    if (t == "*") return {true, x * y};
    if (t == "/") return {true, fd(x, y)};
    if (t == "%") return {true, y ? x - fd(x, y) * y : 0};
    if (t == "min") return {true, std::min(x, y)};
    if (t == "max") return {true, std::max(x, y)};
    if (t == "==") return {true, x == y};
    if (t == "!=") return {true, x != y};
    if (t == "<") return {true, x < y};
    if (t == "<=") return {true, x <= y};
    return {false, 0};
  }
  expr build() {
    const std::string t = tok[tp++];
    if (t[0] == 'c' && t.size() == 2) return expr(cs[t[1] - '0']);
    if (isdigit(t[0]) || (t[0] == '-' && t.size() > 1)) return expr((int64_t)atoll(t.c_str()));
    if (t.size() == 1 && strchr("xyzwuvt", t[0])) return ws[strchr("xyzwuvt", t[0]) - "xyzwuvt"];
    if (t == "opt") { ++tp; return build(); }
    if (t == "!") return !build();
    if (t == "abs") return abs(build());
    if (t == "select") { expr a = build(), b = build(), c = build(); return select(a, b, c); }
    if (t == "stair") {
      expr x = build(), a = build(), b = build(), c = build();
      if (*as_constant(a) != 0) x = x + a;
      if (*as_constant(b) != 1) x = x / b;
      if (*as_constant(c) != 1) x = x * c;
      return x;
    }
    expr ab[2];
    for (int i = 0; i < 2; ++i) {
      bool opt = tok[tp] == "opt";
      if (opt) {
        int64_t d = atoll(tok[tp + 1].c_str());
        tp += 2;
        ab[i] = build();
        if (as_constant(ab[i]) && *as_constant(ab[i]) == d && d == (t == "*" || t == "/" ? 1 : 0) && r.chance(7, 8)) {
          // the operand is left out
          if (i == 1) return ab[0];
          tp += tok[tp] == "opt" ? 2 : 0;
          expr o = build();
          return t == "-" ? expr(0) - o : o;
        }
      } else {
        ab[i] = build();
      }
    }
    expr a = ab[0], b = ab[1];
    bool sw = r.chance(1, 5);
    auto S = [&](auto f) { return sw ? f(b, a) : f(a, b); };
    if (t == "+") return S([](expr a, expr b) { return a + b; });
    if (t == "-") return a - b;
    if (t == "*") return S([](expr a, expr b) { return a * b; });
    if (t == "/") return a / b;
    if (t == "%") return a % b;
    if (t == "min") return S([](expr a, expr b) { return min(a, b); });
    if (t == "max") return S([](expr a, expr b) { return max(a, b); });
    if (t == "==") return S([](expr a, expr b) { return a == b; });
    if (t == "!=") return S([](expr a, expr b) { return a != b; });
    if (t == "<") return a < b;
    if (t == "<=") return a <= b;
    if (t == "&&") return S([](expr a, expr b) { return a && b; });
    if (t == "||") return S([](expr a, expr b) { return a || b; });
    if (t == "and_then") return and_then(a, b);
    if (t == "or_else") return or_else(a, b);
    abort();
  }
  expr gen_rule() {
    static const char* shapes[] = {
#include "rule_shapes.inc"
    };
    std::string line = shapes[r.below(sizeof(shapes) / sizeof(shapes[0]))];
    tok.clear();
    std::vector<size_t> preds;
    for (size_t i = 0; i < line.size();) {
      size_t j = line.find(' ', i);
      if (j == std::string::npos) j = line.size();
      tok.push_back(line.substr(i, j - i));
      if (tok.back() == ";") preds.push_back(tok.size());
      i = j + 1;
    }
    bool want = !r.chance(1, 4);
    for (int t = 0; t < 200; ++t) {
      tk = r.pick({1, 2, 2, 3, 4, 5});
      for (auto& c : cs) c = tconst();
      if (r.chance(1, 3)) for (auto& c : cs) if (r.chance(1, 2)) c = cs[r.below(8)] * r.pick({1, 1, 1, -1, 2}) + r.pick({0, 0, 1, -1});
      if (!want || preds.empty()) break;
      size_t which = r.below(preds.size());
      tp = preds[which];
      cval v = pred();
      if (!v.known || v.v) break;
    }
    bool same = r.chance(1, 4);
    for (int i = 0; i < 8; ++i) {
      switch (r.below(12)) {
      case 0: ws[i] = affine(); break;
      case 1: ws[i] = tcmp(0); break;
      case 2: ws[i] = tshape(1); break;
      case 3: ws[i] = i && same ? ws[r.below(i)] : expr(tconst()); break;
      default: ws[i] = r.chance(1, 2) ? expr(var(i % nv)) : var_(); break;
      }
    }
    tp = 0;
    expr e = build();
    switch (r.below(10)) {
    case 0: return e + expr(tconst());
    case 1: return e * expr(tconst());
    case 2: return r.chance(1, 2) ? min(e, tleaf()) : max(e, tleaf());
    case 3: return tcond(0) && e;
    default: return e;
    }
  }
  expr gen(int depth) {
    pool.clear();
    let_base = 20;
    return term(depth);
  }
  expr gen_cond(int depth) {
    pool.clear();
    let_base = 20;
    return cond(depth);
  }
};

}  // namespace vf
#endif
