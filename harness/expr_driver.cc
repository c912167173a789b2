// Generates expressions, runs the library's simplifier / bounds / prover / evaluator on them and records the results
// as JSON cases that spec/ExprCheck.tla decides. The screening below only chooses which cases are worth sending.
//   expr_driver <mode> <seed> <n-screened> <n-kept> <out>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>

#include "ast.h"
#include "gen_expr.h"
#include "hooks.h"
#include "slinky/builder/node_mutator.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/builder/optimizations.h"
#include "slinky/runtime/depends_on.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

using namespace slinky;
using namespace vf;

static const int64_t INF = 1000000;
static std::string progress_path;
static void progress(const std::string& s) {  // survives a crash of the code under test
  FILE* f = fopen(progress_path.c_str(), "w");
  if (f) { fputs(s.c_str(), f); fclose(f); }
}

struct assume {
  int nv;
  std::vector<interval_expr> b;      // bounds of each var (may be undefined ends)
  std::vector<alignment_type> al;    // modulus 1 = nothing
  bounds_map bm; alignment_map am;
  std::string json() const {
    std::string s = "\"b\":[";
    for (int i = 0; i < nv; ++i) {
      if (i) s += ",";
      s += "[" + (b[i].min.defined() ? dump(b[i].min) : "[\"c\"," + num(-INF) + "]") + "," +
           (b[i].max.defined() ? dump(b[i].max) : "[\"c\"," + num(INF) + "]") + "]";
    }
    s += "],\"al\":[";
    for (int i = 0; i < nv; ++i) {
      if (i) s += ",";
      s += "[" + num(al[i].modulus) + "," + num(al[i].remainder) + "]";
    }
    return s + "]";
  }
};

struct gen_all {
  rng r;
  expr_gen g;
  int nv;
  gen_all(uint64_t seed, int nv) : r(seed), g(r, nv), nv(nv) {}

  assume assumptions(bool allow) {
    assume a;
    a.nv = nv;
    a.b.resize(nv);
    a.al.resize(nv);
    bool use_b = allow && r.chance(3, 4), use_a = allow && r.chance(1, 3);
    for (int i = 0; i < nv; ++i) {
      if (use_b && r.chance(3, 4)) {
        int64_t lo = r.range(-8, 8), hi = lo + r.below(r.pick({1, 3, 8, 16}));
        a.b[i].min = expr(lo);
        a.b[i].max = expr(hi);
        if (r.chance(1, 5)) a.b[i].max = expr();
        else if (r.chance(1, 6)) a.b[i].min = expr();
        if (i > 0 && r.chance(1, 5)) {
          // symbolic bounds relative to an earlier variable
          a.b[i].min = expr(var(i - 1)) + expr(r.range(-3, 3));
          a.b[i].max = a.b[i].min + expr(r.below(6));
        }
        a.bm[var(i)] = a.b[i];
      }
      if (use_a && r.chance(1, 2)) {
        int64_t m = r.pick({2, 3, 4, 8, 0});
        int64_t rem = m == 0 ? r.range(-6, 6) : r.below(m);
        a.al[i] = alignment_type(m, rem);
        a.am[var(i)] = a.al[i];
      }
    }
    return a;
  }

  // An environment that satisfies the assumptions (or false).
  bool env(const assume& a, std::vector<int64_t>& v) {
    v.assign(nv, 0);
    eval_context ctx;
    for (int i = 0; i < 32; ++i) ctx[var(i)] = 0;
    for (int i = 0; i < nv; ++i) {
      int64_t lo = a.b[i].min.defined() ? evaluate(a.b[i].min, ctx) : -INF;
      int64_t hi = a.b[i].max.defined() ? evaluate(a.b[i].max, ctx) : INF;
      int64_t L, H;
      if (lo == -INF && hi == INF) {
        int64_t w = r.pick({2, 6, 12, 12, 40});
        L = -w; H = w;
      } else if (lo == -INF) { L = hi - r.pick({3, 20}); H = hi; }
      else if (hi == INF) { L = lo; H = lo + r.pick({3, 20}); }
      else { L = lo; H = hi; }
      if (L > H) return false;
      int64_t x = r.chance(1, 6) ? L : r.chance(1, 6) ? H : r.range(L, H);
      auto& m = a.al[i];
      if (m.modulus == 0) {
        x = m.remainder;
      } else if (m.modulus != 1) {
        x = x - euclidean_mod<int64_t>(x - m.remainder, m.modulus);
        if (x < L) x += m.modulus;
      }
      if (x < lo || x > hi) return false;
      v[i] = x;
      ctx[var(i)] = x;
    }
    return true;
  }
};

static void set_ctx(eval_context& ctx, const std::vector<int64_t>& v) {
  for (size_t i = 0; i < v.size(); ++i) ctx[var(i)] = v[i];
}
static std::string vec(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + num(v[i]);
  return s + "]";
}
static std::string vecs(const std::vector<std::vector<int64_t>>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + vec(v[i]);
  return s + "]";
}

static const int64_t M = 60, LIM_E = 1 << 22, LIM_S = 1 << 29;

static bool has_inf(const expr& e) {
  return dump(e).find("inf\"") != std::string::npos || dump(e).find("indet") != std::string::npos;
}

struct outcome {
  bool usable = true, bad = false, nontrivial = false;
  std::string json;                       // the results, as JSON members
  std::vector<size_t> order;              // the environments, those that look wrong first
};

static int64_t val(const expr& x, int64_t d, eval_context& ctx) {
  return !x.defined() || is_infinity(x) ? d : evaluate(x, ctx);
}

static outcome try_case(const std::string& mode, const expr& e, const expr& c, const assume& a,
    const std::vector<std::vector<int64_t>>& envs) {
  outcome r;
  eval_context ctx;
  for (int i = 0; i < 64; ++i) ctx[var(i)] = 0;
  std::vector<int64_t> ev, sv;
  std::vector<char> wrong(envs.size(), 0);
  alarm(20);
  if (mode == "simp") {
    expr s = simplify(e, a.bm, a.am);
    alarm(0);
    bool sok = true;
    std::string sj = dump(s, &sok);
    bool inf = has_inf(s);
    if (!inf && (!sok || !fits(s, M, LIM_S))) { r.usable = false; return r; }
    r.nontrivial = !s.same_as(e);
    for (size_t j = 0; j < envs.size(); ++j) {
      set_ctx(ctx, envs[j]);
      ev.push_back(evaluate(e, ctx));
      sv.push_back(inf ? 0 : evaluate(s, ctx));
      wrong[j] = inf || ev[j] != sv[j];
    }
    expr ss = simplify(s, a.bm, a.am);
    bool ssok = true;
    std::string ssj = dump(ss, &ssok);
    if (!has_inf(ss) && (!ssok || !fits(ss, M, LIM_S))) { ss = s; ssj = sj; }
    for (size_t j = 0; j < envs.size(); ++j) {
      set_ctx(ctx, envs[j]);
      wrong[j] = wrong[j] || has_inf(ss) || ev[j] != evaluate(ss, ctx);
    }
    r.json = ",\"s\":" + sj + ",\"ss\":" + ssj;
  } else if (mode == "bounds") {
    interval_expr bo = bounds_of(e, a.bm, a.am);
    expr cl = constant_lower_bound(e), cu = constant_upper_bound(e);
    std::optional<index_t> ecl = evaluate_constant_lower_bound(e), ecu = evaluate_constant_upper_bound(e);
    std::optional<bool> pr = attempt_to_prove(c, a.bm, a.am);
    bool pt = prove_true(c, a.bm, a.am), pf = prove_false(c, a.bm, a.am);
    // The interval of an interval of expressions.
    interval_expr bo2 = bounds_of(interval_expr(e, e + 3), a.bm, a.am);
    alarm(0);
    bool sok = true;
    auto usable = [&](const expr& x) {
      return !x.defined() || is_infinity(x) || (!has_inf(x) && fits(x, M, LIM_S));
    };
    for (const expr& x : {bo.min, bo.max, cl, cu, bo2.min, bo2.max}) sok = sok && usable(x);
    if (!sok) { r.usable = false; return r; }
    std::string j1 = dump(bo.min, &sok), j2 = dump(bo.max, &sok), j3 = dump(cl, &sok), j4 = dump(cu, &sok),
                j5 = dump(bo2.min, &sok), j6 = dump(bo2.max, &sok);
    if (ecl && std::abs(*ecl) > LIM_S) sok = false;
    if (ecu && std::abs(*ecu) > LIM_S) sok = false;
    if (!sok) { r.usable = false; return r; }
    r.nontrivial = (bo.min.defined() && !is_infinity(bo.min)) || (bo.max.defined() && !is_infinity(bo.max)) || pt || pf || ecl || ecu;
    for (size_t j = 0; j < envs.size(); ++j) {
      set_ctx(ctx, envs[j]);
      int64_t x = evaluate(e, ctx), y = evaluate(c, ctx);
      ev.push_back(x);
      sv.push_back(y);
      wrong[j] = x < val(bo.min, x, ctx) || x > val(bo.max, x, ctx) || x < val(bo2.min, x, ctx) || x + 3 > val(bo2.max, x + 3, ctx) ||
                 (pt && !y) || (pf && y) || (pr && *pr != (y != 0)) || x < val(cl, x, ctx) || x > val(cu, x, ctx) ||
                 (ecl && x < *ecl) || (ecu && x > *ecu);
    }
    auto tri = [](int t) { return std::string(t < 0 ? "\"?\"" : t ? "\"T\"" : "\"F\""); };
    r.json = ",\"lo\":" + j1 + ",\"hi\":" + j2 + ",\"cl\":" + j3 + ",\"cu\":" + j4 + ",\"lo2\":" + j5 + ",\"hi2\":" + j6 +
             ",\"ecl\":" + (ecl ? "[" + num(*ecl) + "]" : "[]") + ",\"ecu\":" + (ecu ? "[" + num(*ecu) + "]" : "[]") +
             ",\"pr\":" + tri(pr ? (int)*pr : -1) + ",\"pt\":" + tri(pt) + ",\"pf\":" + tri(pf);
  }
  for (size_t j = 0; j < envs.size(); ++j) if (wrong[j]) r.order.push_back(j);
  r.bad = !r.order.empty();
  for (size_t j = 0; j < envs.size(); ++j) if (!wrong[j]) r.order.push_back(j);
  if (r.order.size() > 6) r.order.resize(6);
  std::vector<int64_t> ev2, sv2;
  std::vector<std::vector<int64_t>> envs2;
  for (size_t j : r.order) { ev2.push_back(ev[j]); sv2.push_back(sv[j]); envs2.push_back(envs[j]); }
  r.json += ",\"envs\":" + vecs(envs2) + ",\"ev\":" + vec(ev2) + (mode == "simp" ? ",\"sv\":" : ",\"cv\":") + vec(sv2);
  return r;
}

static std::string record(const std::string& mode, int nv, const std::string& ej, const std::string& cj, const assume& a,
    const std::vector<std::vector<int64_t>>&, const outcome& o, const std::string& twin) {
  return "{\"k\":\"" + mode + "\",\"tw\":\"" + twin + "\",\"n\":" + num(nv) + ",\"e\":" + ej + (cj.empty() ? "" : ",\"c\":" + cj) + "," +
         a.json() + o.json + "}\n";
}

static std::string iv(const interval_expr& i, bool* ok) { return "[" + dump(i.min, ok) + "," + dump(i.max, ok) + "]"; }

// The truth of containment for screening.
static bool lower_ok(const expr& b, int64_t x, eval_context& ctx) {
  if (!b.defined()) return true;
  if (is_infinity(b)) return is_negative_infinity(b);
  return evaluate(b, ctx) <= x;
}
static bool upper_ok(const expr& b, int64_t x, eval_context& ctx) {
  if (!b.defined()) return true;
  if (is_infinity(b)) return is_positive_infinity(b);
  return evaluate(b, ctx) >= x;
}
static bool in(const interval_expr& i, int64_t x, eval_context& ctx) { return lower_ok(i.min, x, ctx) && upper_ok(i.max, x, ctx); }

static void interval_case(gen_all& G, const assume& a, std::ostream& out, long& generated, long& kept, long keep, long& suspicious) {
  rng& r = G.r;
  auto end = [&](int which) -> expr {
    switch (r.below(8)) {
    case 0: return expr();
    case 1: return which < 0 ? negative_infinity() : positive_infinity();
    case 2: case 3: return G.g.affine();
    default: return expr(r.range(-12, 12));
    }
  };
  auto interval = [&]() -> interval_expr {
    if (r.chance(1, 10)) { int64_t lo = r.below(2); return {expr(lo), expr(lo + r.below(2 - lo))}; }   // a boolean
    if (r.chance(1, 6)) return point(r.chance(1, 2) ? expr(r.range(-12, 12)) : G.g.affine());
    if (r.chance(1, 3)) { int64_t lo = r.range(-12, 12); return {expr(lo), expr(lo + r.below(10))}; }
    return {end(-1), end(1)};
  };
  G.g.pool.clear();
  interval_expr A = interval(), B = interval();
  if (r.chance(1, 2)) {
    // operands of the kind the simplifier passes are simplified
    A = {A.min.defined() ? simplify(A.min) : expr(), A.max.defined() ? simplify(A.max) : expr()};
    B = {B.min.defined() ? simplify(B.min) : expr(), B.max.defined() ? simplify(B.max) : expr()};
  }
  expr scale = r.chance(2, 3) ? expr(G.g.constant()) : expr(var(r.below(G.nv)));
  bool simple = true;
  for (const expr& x : {A.min, A.max, B.min, B.max}) simple = simple && x.defined() && !is_infinity(x);
  bool fin = A.min.defined() && A.max.defined() && !is_infinity(A.min) && !is_infinity(A.max);
  int64_t m = fin ? r.pick({1, 2, 3, 4, 8}) : 0;
  ++generated;
  progress("{\"interval\":true}");
  struct named { const char* n; interval_expr i; };
  std::vector<named> ops;
  auto skip_inf = [&](const interval_expr& x) {   // +-inf as an arithmetic operand of * / is only meaningful through bounds_of
    return x;
  };
  (void)skip_inf;
#define OP(T, S) ops.push_back({S, bounds_of(static_cast<const class T*>(nullptr), A, B)});
  OP(min, "min") OP(max, "max") OP(add, "+") OP(sub, "-") OP(mul, "*") OP(div, "/") OP(mod, "%") OP(less, "<")
  OP(less_equal, "<=") OP(equal, "==") OP(not_equal, "!=") OP(logical_and, "&&") OP(logical_or, "||")
#undef OP
  interval_expr un = A | B, is = A & B, sis = simplify_intersection(A, B), ad = A + scale, su = A - scale, mu, di, ne, al;
  auto no_inf = [&](interval_expr x) {
    if (x.min.defined() && is_infinity(x.min)) x.min = expr();
    if (x.max.defined() && is_infinity(x.max)) x.max = expr();
    return x;
  };
  interval_expr A2 = no_inf(A);
  ad = A2 + scale; su = A2 - scale; mu = A2 * scale; di = A2 / scale; ne = -A2;
  if (r.chance(1, 2)) { un = A2 | no_inf(B); is = A2 & no_inf(B); }
  if (m) al = align(A, expr(m));
  bool ok = true;
  std::vector<interval_expr*> all = {&un, &is, &sis, &ad, &su, &mu, &di, &ne};
  if (m) all.push_back(&al);
  for (auto& o : ops) all.push_back(&o.i);
  for (interval_expr* i : all) {
    for (expr* x : {&i->min, &i->max}) {
      if (!x->defined() || is_infinity(*x)) continue;
      expr y = *x;
      if (has_inf(y)) { y = simplify(y); *x = y; }   // e.g. min(+inf, 3)
      if (is_infinity(y)) continue;
      if (has_inf(y) || !fits(y, M, LIM_S)) return;
    }
  }
  std::vector<std::vector<int64_t>> envs, pts;
  std::vector<int64_t> v;
  eval_context ctx;
  for (int i = 0; i < 64; ++i) ctx[var(i)] = 0;
  bool bad = false;
  for (int j = 0; j < 24; ++j) {
    if (!G.env(a, v)) continue;
    set_ctx(ctx, v);
    auto pick = [&](const interval_expr& i) {
      int64_t lo = i.min.defined() && !is_infinity(i.min) ? evaluate(i.min, ctx) : -40, hi = i.max.defined() && !is_infinity(i.max) ? evaluate(i.max, ctx) : 40;
      if (r.chance(1, 8) || lo > hi) return r.range(-20, 20);
      return r.chance(1, 3) ? lo : r.chance(1, 2) ? hi : r.range(lo, hi);
    };
    int64_t p = pick(A), q = pick(B), s = evaluate(scale, ctx);
    if (std::abs(p) > 2000 || std::abs(q) > 2000) continue;
    bool ia = in(A, p, ctx), ib = in(B, q, ctx), w = false;
    w = (ia && !in(un, p, ctx)) || (ib && !in(un, q, ctx)) || ((ia && in(B, p, ctx)) != in(is, p, ctx)) || ((ia && in(B, p, ctx)) != in(sis, p, ctx)) ||
        (ia && (!in(ad, p + s, ctx) || !in(su, p - s, ctx) || !in(mu, p * s, ctx) || !in(di, euclidean_div<int64_t>(p, s), ctx) || !in(ne, -p, ctx)));
    if (m && ia) w = w || !in(al, p, ctx);
    if (ia && ib) {
      int64_t res[] = {std::min(p, q), std::max(p, q), p + q, p - q, p * q, euclidean_div<int64_t>(p, q), euclidean_mod<int64_t>(p, q), p < q, p <= q, p == q, p != q, p && q, p || q};
      auto boolean = [&](const interval_expr& i) {
        return i.min.defined() && !is_infinity(i.min) && i.max.defined() && !is_infinity(i.max) && evaluate(i.min, ctx) >= 0 && evaluate(i.max, ctx) <= 1;
      };
      bool bools = boolean(A) && boolean(B);
      // The logical operators' intervals are only used for, and only meant for, boolean operands.
      for (size_t k = 0; k < ops.size(); ++k) w = w || ((k < 11 || bools) && !in(ops[k].i, res[k], ctx));
    }
    if (w && !bad) { envs.insert(envs.begin(), v); pts.insert(pts.begin(), {p, q}); }
    else { envs.push_back(v); pts.push_back({p, q}); }
    bad = bad || w;
  }
  if (envs.empty()) return;
  if (bad) ++suspicious;
  if (!(bad && suspicious < 60) && kept >= keep) return;
  if (envs.size() > 6) { envs.resize(6); pts.resize(6); }
  std::string o;
  for (auto& i : ops) o += std::string(o.empty() ? "" : ",") + "[\"" + i.n + "\"," + iv(i.i, &ok) + "]";
  std::string j = "{\"k\":\"interval\",\"tw\":\"\",\"n\":" + num(G.nv) + "," + a.json() + ",\"a\":" + iv(A, &ok) + ",\"bb\":" + iv(B, &ok) + ",\"scale\":" +
      dump(scale, &ok) + ",\"m\":" + num(m) + ",\"un\":" + iv(un, &ok) + ",\"isect\":" + iv(is, &ok) + ",\"sisect\":" + iv(sis, &ok) + ",\"addc\":" +
      iv(ad, &ok) + ",\"subc\":" + iv(su, &ok) + ",\"mulc\":" + iv(mu, &ok) + ",\"divc\":" + iv(di, &ok) + ",\"neg\":" + iv(ne, &ok) + ",\"algn\":" +
      iv(al, &ok) + ",\"ops\":[" + o + "],\"envs\":" + vecs(envs) + ",\"pts\":" + vecs(pts) + "}\n";
  if (!ok) return;
  out << j;
  if (!bad) ++kept;
}

// Changes what lets declare, but not what uses it.
struct let_changer : public node_mutator {
  rng& r;
  std::vector<int> names;
  let_changer(rng& r, std::vector<int> names) : r(r), names(names) {}
  void visit(const let* op) override {
    std::vector<std::pair<var, expr>> lets = op->lets;
    for (auto& i : lets) {
      if (r.chance(1, 2)) i.first = var(names[r.below(names.size())]);
      else i.second = mutate(i.second);
    }
    set_result(let::make(lets, r.chance(1, 2) ? mutate(op->body) : op->body));
  }
};

static void subst_case(gen_all& G, int depth, std::ostream& out, long& generated, long& kept, long keep, long& suspicious) {
  rng& r = G.r;
  int x = r.below(G.nv);
  uint64_t st = r.s;
  G.g.shadow = x;
  int lb = G.g.let_base;
  auto pool = G.g.pool;
  expr e = G.g.gen(depth);
  expr f;
  if (r.chance(1, 2)) {
    // The same expression built again, or one that differs in one choice.
    uint64_t st2 = r.s;
    int lb2 = G.g.let_base;
    if (r.chance(1, 3)) r.flip = r.range(1, 30);
    r.s = st;
    G.g.let_base = lb;
    std::swap(G.g.pool, pool);
    f = G.g.gen(depth);
    r.s = st2;
    std::swap(G.g.pool, pool);
    r.flip = -1;
    G.g.let_base = std::max(lb2, G.g.let_base);
  } else if (r.chance(1, 3)) {
    // Other names, or another order of the values of lets, that are used the same way.
    f = let_changer(r, {x, (int)r.below(G.nv), G.g.let_base++}).mutate(e);
  } else {
    f = r.chance(1, 2) ? G.g.gen(depth) : substitute(e, var(r.below(G.nv)), expr(r.range(-3, 3)));
  }
  G.g.shadow = -1;
  G.g.lets = false;
  expr rep = r.chance(1, 4) ? expr(G.g.constant()) : G.g.gen(1);
  G.g.lets = true;
  bool ok = true;
  std::string ej = dump(e, &ok);
  if (!ok || !fits(e, M, LIM_E) || !fits(rep, M, 4000) || !fits(f, M, LIM_S)) return;
  ++generated;
  progress("{\"e\":" + ej + ",\"x\":" + num(x) + "}");
  alarm(20);
  expr sub = substitute(e, var(x), rep);
  bool dep = depends_on(e, var(x)).any();
  auto sgn = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
  int cmp = sgn(compare(e, f)), rcmp = sgn(compare(f, e)), self = sgn(compare(e, e));
  bool mt = match(e, f);
  alarm(0);
  if (!fits(sub, M, LIM_S)) return;
  std::vector<expr> es = {e, f, sub, rep, G.g.gen(1), G.g.gen(2)};
  std::string ord;
  for (size_t i = 0; i < es.size(); ++i) {
    ord += i ? ",[" : "[";
    for (size_t k = 0; k < es.size(); ++k) ord += (k ? "," : "") + num(sgn(compare(es[i], es[k])));
    ord += "]";
  }
  std::vector<std::vector<int64_t>> envs;
  std::vector<int64_t> v;
  assume none = G.assumptions(false);
  eval_context ctx;
  for (int i = 0; i < 64; ++i) ctx[var(i)] = 0;
  bool bad = cmp != -rcmp || self || (cmp == 0) != mt || (cmp == 0) != (ej == dump(f));
  for (int j = 0; j < 8; ++j) {
    if (!G.env(none, v)) continue;
    set_ctx(ctx, v);
    int64_t s = evaluate(sub, ctx), fv = evaluate(f, ctx), ev = evaluate(e, ctx), rv = evaluate(rep, ctx);
    ctx[var(x)] = rv;
    int64_t ex = evaluate(e, ctx);
    bool w = s != ex || (cmp == 0 && fv != ev);
    if (w && !bad) envs.insert(envs.begin(), v); else envs.push_back(v);
    bad = bad || w;
  }
  if (bad) ++suspicious;
  if (!(bad && suspicious < 60) && (kept >= keep || ej.size() > 700)) return;
  if (envs.size() > 4) envs.resize(4);
  auto tf = [](bool b) { return std::string(b ? "true" : "false"); };
  std::string j = "{\"k\":\"subst\",\"tw\":\"\",\"n\":" + num(G.nv) + ",\"e\":" + ej + ",\"f\":" + dump(f, &ok) + ",\"x\":" + num(x) + ",\"r\":" +
      dump(rep, &ok) + ",\"sub\":" + dump(sub, &ok) + ",\"dep\":" + tf(dep) + ",\"cmp\":" + num(cmp) + ",\"rcmp\":" + num(rcmp) + ",\"self\":" + num(self) +
      ",\"match\":" + tf(mt) + ",\"ord\":[" + ord + "],\"envs\":" + vecs(envs) + "}\n";
  if (!ok) return;
  out << j;
  if (!bad) ++kept;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  long n = atol(argv[3]), keep = atol(argv[4]);
  std::ofstream out(argv[5]);
  progress_path = std::string(argv[5]) + ".progress";
  long generated = 0, skipped = 0, kept = 0, suspicious = 0, changed = 0, hung = 0;
  (void)hung;

  for (long it = 0; it < n; ++it) {
    gen_all G(seed * 1000003 + it, 1 + (seed * 31 + it) % 4);
    rng& r = G.r;
    G.g.max_const = r.pick({4, 12, 12, 40});
    int depth = r.pick({1, 2, 2, 3, 3, 4});
    assume a = G.assumptions(r.chance(2, 3));

    if (mode == "interval") {
      interval_case(G, a, out, generated, kept, keep, suspicious);
      continue;
    }
    if (mode == "subst") {
      subst_case(G, depth, out, generated, kept, keep, suspicious);
      continue;
    }
    bool tmpl = mode == "simp" ? r.chance(3, 4) : r.chance(1, 3);
    bool rule = r.chance(2, 3);
    expr e = !tmpl ? G.g.gen(depth) : rule ? G.g.gen_rule() : G.g.gen_template();
    bool ok = true;
    std::string ej = dump(e, &ok);
    if (!ok || !fits(e, M, LIM_E)) { ++skipped; continue; }
    expr c;
    std::string cj;
    if (mode == "bounds") {
      c = tmpl ? G.g.tcond(2) : G.g.gen_cond(std::max(1, depth - 1));
      cj = dump(c, &ok);
      if (!ok || !fits(c, M, LIM_E)) { ++skipped; continue; }
    }
    ++generated;
    std::vector<std::vector<int64_t>> envs;
    std::vector<int64_t> v;
    for (int j = 0; j < 24; ++j) {
      if (G.env(a, v)) envs.push_back(v);
    }
    if (envs.empty()) { ++skipped; continue; }
    progress("{\"e\":" + ej + (cj.empty() ? "" : ",\"c\":" + cj) + "," + a.json() + "}");
    vf_skip_learn_min_max = false;
    vf_hit_learn_min_max = 0;
    outcome o = try_case(mode, e, c, a, envs);
    if (!o.usable) { ++skipped; continue; }
    if (o.nontrivial) ++changed;
    if (o.bad) ++suspicious;
    bool keep_bad = o.bad && suspicious < 60;
    if (!keep_bad && !(kept < keep && o.nontrivial && ej.size() < 700)) continue;
    std::string twin;
    if (o.bad && vf_hit_learn_min_max) {
      // The same case with the inference that is a known finding switched off: tells whether that is what goes wrong.
      vf_skip_learn_min_max = true;
      outcome o2 = try_case(mode, e, c, a, envs);
      vf_skip_learn_min_max = false;
      if (!o2.usable) { ++skipped; continue; }   // the result cannot be represented: cannot tell
      twin = record(mode, G.nv, ej, cj, a, envs, o2, "learn_min_max");
    }
    out << record(mode, G.nv, ej, cj, a, envs, o, "") << twin;
    if (!o.bad) ++kept;
  }
  progress("{\"done\":true}");
  printf("{\"generated\":%ld,\"skipped\":%ld,\"kept\":%ld,\"suspicious\":%ld,\"nontrivial\":%ld}\n", generated, skipped, kept, suspicious, changed);
  return 0;
}
