// A model of a pipeline (functions, index expressions, schedule) from which both the real pipeline and the record for
// the specification are made, and a generator of such models.
#ifndef VERIF_PIPE_MODEL_H
#define VERIF_PIPE_MODEL_H
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "ast.h"
#include "rng.h"
#include "slinky/builder/pipeline.h"

namespace vf {

// Index expressions over the dimension variables.
struct ix {
  enum kind { K, V, ADD, MUL, DIV, MOD, SUB } k = K;
  int64_t c = 0;
  std::shared_ptr<ix> a, b;
  static ix C(int64_t c) { ix r; r.c = c; return r; }
  static ix X(int v) { ix r; r.k = V; r.c = v; return r; }
  static ix mk(kind k, const ix& a, const ix& b) {
    ix r; r.k = k; r.a = std::make_shared<ix>(a); r.b = std::make_shared<ix>(b); return r;
  }
};
inline ix operator+(const ix& a, const ix& b) {
  if (b.k == ix::K && b.c == 0) return a;
  return ix::mk(ix::ADD, a, b);
}
inline ix operator-(const ix& a, const ix& b) { return ix::mk(ix::SUB, a, b); }
inline ix operator*(const ix& a, int64_t c) { return ix::mk(ix::MUL, a, ix::C(c)); }
inline ix operator/(const ix& a, int64_t c) { return ix::mk(ix::DIV, a, ix::C(c)); }
inline ix operator%(const ix& a, int64_t c) { return ix::mk(ix::MOD, a, ix::C(c)); }
inline int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
inline int64_t eval_ix(const ix& e, const std::vector<int64_t>& env) {
  switch (e.k) {
  case ix::K: return e.c;
  case ix::V: return env[e.c];
  case ix::ADD: return eval_ix(*e.a, env) + eval_ix(*e.b, env);
  case ix::SUB: return eval_ix(*e.a, env) - eval_ix(*e.b, env);
  case ix::MUL: return eval_ix(*e.a, env) * e.b->c;
  case ix::DIV: return fdiv(eval_ix(*e.a, env), e.b->c);
  case ix::MOD: { int64_t x = eval_ix(*e.a, env); return x - fdiv(x, e.b->c) * e.b->c; }
  }
  return 0;
}
struct iv64 { int64_t lo, hi; };
// Interval arithmetic, the way "the pipeline's requirements" are defined: on boxes.
inline iv64 range_ix(const ix& e, const std::vector<iv64>& env) {
  switch (e.k) {
  case ix::K: return {e.c, e.c};
  case ix::V: return env[e.c];
  case ix::ADD: { iv64 a = range_ix(*e.a, env), b = range_ix(*e.b, env); return {a.lo + b.lo, a.hi + b.hi}; }
  case ix::SUB: { iv64 a = range_ix(*e.a, env), b = range_ix(*e.b, env); return {a.lo - b.hi, a.hi - b.lo}; }
  case ix::MUL: { iv64 a = range_ix(*e.a, env); int64_t c = e.b->c; return c >= 0 ? iv64{a.lo * c, a.hi * c} : iv64{a.hi * c, a.lo * c}; }
  case ix::DIV: { iv64 a = range_ix(*e.a, env); return {fdiv(a.lo, e.b->c), fdiv(a.hi, e.b->c)}; }
  case ix::MOD: { return {0, e.b->c - 1}; }
  }
  return {0, 0};
}
inline std::string json_ix(const ix& e) {
  switch (e.k) {
  case ix::K: return "[\"c\"," + num(e.c) + "]";
  case ix::V: return "[\"v\"," + num(e.c) + "]";
  default: break;
  }
  const char* ops[] = {"", "", "+", "*", "/", "%", "-"};
  return std::string("[\"") + ops[e.k] + "\"," + json_ix(*e.a) + "," + json_ix(*e.b) + "]";
}

struct ival { ix lo, hi; };
inline ival pt(const ix& x) { return {x, x}; }

struct minput {
  int buf = -1;
  std::vector<ival> bounds;
  // Only copies. For each dimension: has, lo, hi.
  struct crop { bool has = false; iv64 c; int from = -1; };   // from: the bounds of this pipeline input
  std::vector<crop> icrop, ocrop;
  std::vector<std::array<int64_t, 2>> oslice;  // [dim, at]
};
struct moutput { int buf = -1; std::vector<int> dims; };
struct mloc { bool set = false; int func = -1; int var = -1; };  // func < 0: root; var < 0: innermost
struct mloop { int var; int64_t step; int64_t workers; };
struct mfunc {
  bool copy = false;
  int pad = -1;       // the buffer of the padding, an additional input of a copy
  bool slinky_copy = false;  // use slinky::copy itself as implementation
  std::vector<minput> ins;
  std::vector<moutput> outs;
  int in_place = 0;
  std::vector<mloop> loops;
  mloc compute_at;
};
enum bkind { B_INPUT, B_INTM, B_OUTPUT, B_CONST };
struct mbuf {
  int rank = 0;
  int kind = B_INTM;
  int es = 4;
  int producer = -1;
  bool consumed = false;
  mloc store_at;
  int storage = 0;       // 0 automatic 1 stack 2 heap
  std::vector<iv64> box; // what is required of it
  // Constraints on the dims of intermediates: align the bounds in dimension d to a multiple.
  std::vector<int64_t> align;
  std::vector<int> bcast;  // inputs, constants: dimensions with stride 0
  // layout of inputs, outputs
  std::vector<int64_t> lo, hi;   // actual bounds
  std::vector<int> order;        // dimension order, innermost first
  std::vector<int64_t> gap;      // extra elements between rows
  std::vector<int> neg;          // negative stride
};

constexpr int64_t CO = 60, CK = 160;
inline int64_t code(int buf, const std::vector<int64_t>& x) {
  int64_t r = buf + 1;
  for (int d = 0; d < 3; ++d) r = r * CK + (d < (int)x.size() ? x[d] + CO : 0);
  return r;
}
constexpr int64_t ANY = -2;

// A constraint that the user declares: the min (0), max (1) or stride (2) of a dimension of an external buffer is value,
// plus the same of dimension odim of another external buffer.
struct mcons { int buf, dim, what, other, odim; int64_t value; };

struct model {
  std::vector<mcons> cons;
  std::vector<mbuf> bufs;
  std::vector<mfunc> funcs;   // producers before consumers
  int nvars = 4;
  bool no_alias = false, no_checks = false, trace = false, parallel = false;
  int64_t stack_threshold = 0;

  // The value an element must have; ANY: not defined.
  int64_t canon(int b, const std::vector<int64_t>& x) const {
    const mbuf& B = bufs[b];
    if (B.producer < 0) {
      std::vector<int64_t> y = x;
      for (int d : B.bcast) y[d] = 0;
      return code(b, y);
    }
    const mfunc& f = funcs[B.producer];
    if (!f.copy) return code(b, x);
    int64_t result = ANY;
    for (const minput& i : f.ins) {
      std::vector<int64_t> env(nvars, 0), s;
      bool in = true;
      std::vector<int64_t> rest;
      for (int d = 0; d < (int)x.size(); ++d) {
        bool sliced = false;
        for (auto& sl : i.oslice) if (sl[0] == d) { sliced = true; in = in && sl[1] == x[d]; }
        if (!sliced) rest.push_back(x[d]);
        if (d < (int)i.ocrop.size() && i.ocrop[d].has) in = in && i.ocrop[d].c.lo <= x[d] && x[d] <= i.ocrop[d].c.hi;
      }
      const std::vector<int>& dims = f.outs[0].dims;
      for (size_t d = 0; d < dims.size(); ++d) env[dims[d]] = rest[d];
      for (size_t d = 0; d < i.bounds.size(); ++d) {
        s.push_back(eval_ix(i.bounds[d].lo, env));
        if (d < i.icrop.size() && i.icrop[d].has) in = in && i.icrop[d].c.lo <= s[d] && s[d] <= i.icrop[d].c.hi;
      }
      if (in) result = canon(i.buf, s);
      else if (f.pad >= 0) {
        std::vector<int64_t> p(x.begin(), x.begin() + bufs[f.pad].rank);
        result = canon(f.pad, p);
      }
    }
    return result;
  }

  std::string json() const {
    std::string o = "\"bufs\":[";
    for (size_t b = 0; b < bufs.size(); ++b) {
      const mbuf& B = bufs[b];
      o += (b ? "," : "") + std::string("{\"rank\":") + num(B.rank) + ",\"kind\":" + num(B.kind) + ",\"es\":" + num(B.es) + ",\"bc\":[";
      for (size_t i = 0; i < B.bcast.size(); ++i) o += (i ? "," : "") + num(B.bcast[i]);
      o += "],\"producer\":" + num(B.producer) + ",\"store\":[" + num(B.store_at.set) + "," + num(B.store_at.func) + "," + num(B.store_at.var) +
           "," + num(B.storage) + "],\"box\":[";
      for (size_t d = 0; d < B.box.size(); ++d) o += (d ? ",[" : "[") + num(B.box[d].lo) + "," + num(B.box[d].hi) + "]";
      o += "],\"algn\":[";
      for (size_t d = 0; d < B.align.size(); ++d) o += (d ? "," : "") + num(B.align[d]);
      auto nums = [&](const char* k, const auto& v) {
        o += std::string("],\"") + k + "\":[";
        for (size_t d = 0; d < v.size(); ++d) o += (d ? "," : "") + num(v[d]);
      };
      nums("lo", B.lo); nums("hi", B.hi); nums("order", B.order); nums("gap", B.gap); nums("neg", B.neg);
      o += "]}";
    }
    o += "],\"funcs\":[";
    for (size_t i = 0; i < funcs.size(); ++i) {
      const mfunc& f = funcs[i];
      o += (i ? "," : "") + std::string("{\"copy\":") + (f.copy ? "true" : "false") + ",\"pad\":" + num(f.pad) + ",\"sc\":" + num(f.slinky_copy) +
           ",\"inplace\":" + num(f.in_place) + ",\"at\":[" + num(f.compute_at.set) + "," + num(f.compute_at.func) + "," + num(f.compute_at.var) + "],\"loops\":[";
      for (size_t l = 0; l < f.loops.size(); ++l) {
        o += (l ? ",[" : "[") + num(f.loops[l].var) + "," + num(f.loops[l].step) + "," + num(std::min<int64_t>(f.loops[l].workers, 1000)) + "]";
      }
      o += "],\"outs\":[";
      for (size_t k = 0; k < f.outs.size(); ++k) {
        o += (k ? "," : "") + std::string("{\"buf\":") + num(f.outs[k].buf) + ",\"dims\":[";
        for (size_t d = 0; d < f.outs[k].dims.size(); ++d) o += (d ? "," : "") + num(f.outs[k].dims[d]);
        o += "]}";
      }
      o += "],\"ins\":[";
      for (size_t k = 0; k < f.ins.size(); ++k) {
        const minput& in = f.ins[k];
        o += (k ? "," : "") + std::string("{\"buf\":") + num(in.buf) + ",\"bounds\":[";
        for (size_t d = 0; d < in.bounds.size(); ++d) o += (d ? ",[" : "[") + json_ix(in.bounds[d].lo) + "," + json_ix(in.bounds[d].hi) + "]";
        auto crops = [](const std::vector<minput::crop>& c) {
          std::string r;
          for (size_t d = 0; d < c.size(); ++d) if (c[d].has) r += (r.empty() ? "[" : ",[") + num(d) + "," + num(c[d].c.lo) + "," + num(c[d].c.hi) + "," + num(c[d].from) + "]";
          return r;
        };
        o += "],\"icrop\":[" + crops(in.icrop) + "],\"ocrop\":[" + crops(in.ocrop) + "],\"oslice\":[";
        for (size_t s = 0; s < in.oslice.size(); ++s) o += (s ? ",[" : "[") + num(in.oslice[s][0]) + "," + num(in.oslice[s][1]) + "]";
        o += "]}";
      }
      o += "]}";
    }
    o += "],\"cons\":[";
    for (size_t i = 0; i < cons.size(); ++i)
      o += (i ? ",[" : "[") + num(cons[i].buf) + "," + num(cons[i].dim) + "," + num(cons[i].what) + "," + num(cons[i].other) + "," +
           num(cons[i].odim) + "," + num(cons[i].value) + "]";
    o += "],\"nvars\":" + num(nvars) + ",\"no_alias\":" + num(no_alias) + ",\"stackthr\":" + num(stack_threshold) + ",\"nochecks\":" + num(no_checks) + ",\"trace\":" + num(trace);
    return o;
  }
};


// ------------------------------------------------------------------------------------------------------- JSON input

struct jval {
  enum { NUL, NUM, STR, ARR, OBJ } t = NUL;
  int64_t n = 0;
  std::string s;
  std::vector<jval> a;
  std::vector<std::pair<std::string, jval>> o;
  template <size_t N> const jval& operator[](const char (&k)[N]) const { return get(k); }
  const jval& get(const char* k) const {
    static jval none;
    for (auto& i : o) if (i.first == k) return i.second;
    return none;
  }
  const jval& operator[](int i) const { return a[i]; }
  size_t size() const { return a.size(); }
};
struct jparser {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
  jval value() {
    ws();
    jval v;
    if (*p == '{') {
      v.t = jval::OBJ; ++p; ws();
      while (*p && *p != '}') { jval k = value(); ws(); ++p; v.o.push_back({k.s, value()}); ws(); if (*p == ',') ++p; ws(); }
      ++p;
    } else if (*p == '[') {
      v.t = jval::ARR; ++p; ws();
      while (*p && *p != ']') { v.a.push_back(value()); ws(); if (*p == ',') ++p; ws(); }
      ++p;
    } else if (*p == '"') {
      v.t = jval::STR; ++p;
      while (*p && *p != '"') v.s += *p++;
      ++p;
    } else if (*p == 't') { p += 4; v.t = jval::NUM; v.n = 1; }
    else if (*p == 'f') { p += 5; v.t = jval::NUM; }
    else { v.t = jval::NUM; char* e; v.n = strtoll(p, &e, 10); if (e == p) ++e; p = e; }
    return v;
  }
};
inline ix ix_of(const jval& j) {
  char c = j[0].s[0];
  if (c == 'c') return ix::C(j[1].n);
  if (c == 'v') return ix::X(j[1].n);
  ix a = ix_of(j[1]), b = ix_of(j[2]);
  return ix::mk(c == '+' ? ix::ADD : c == '*' ? ix::MUL : c == '/' ? ix::DIV : c == '%' ? ix::MOD : ix::SUB, a, b);
}
// The layouts of the buffers may be left out.
inline model model_of(const jval& j) {
  model m;
  auto ints = [](const jval& v) { std::vector<int> r; for (auto& i : v.a) r.push_back(i.n); return r; };
  auto longs = [](const jval& v) { std::vector<int64_t> r; for (auto& i : v.a) r.push_back(i.n); return r; };
  for (auto& b : j["bufs"].a) {
    mbuf B;
    B.rank = b["rank"].n; B.kind = b["kind"].n; B.es = b["es"].t ? b["es"].n : 4;
    B.producer = -1;
    B.bcast = ints(b["bc"]);
    if (b["store"].size() == 4) { B.store_at.set = b["store"][0].n; B.store_at.func = b["store"][1].n; B.store_at.var = b["store"][2].n; B.storage = b["store"][3].n; }
    for (auto& d : b["box"].a) B.box.push_back({d[0].n, d[1].n});
    B.align = longs(b["algn"]);
    B.lo = longs(b["lo"]); B.hi = longs(b["hi"]); B.gap = longs(b["gap"]);
    B.order = ints(b["order"]); B.neg = ints(b["neg"]);
    if (B.lo.empty()) for (auto& d : B.box) { B.lo.push_back(d.lo); B.hi.push_back(std::max(d.hi, B.kind == B_OUTPUT ? d.hi : d.lo)); }
    if (B.order.empty()) for (int d = 0; d < B.rank; ++d) B.order.push_back(d);
    B.gap.resize(B.rank, 0); B.neg.resize(B.rank, 0);
    m.bufs.push_back(B);
  }
  for (auto& f : j["funcs"].a) {
    mfunc F;
    F.copy = f["copy"].n; F.pad = f["pad"].t ? f["pad"].n : -1; F.slinky_copy = f["sc"].n; F.in_place = f["inplace"].n;
    if (f["at"].size() == 3) { F.compute_at.set = f["at"][0].n; F.compute_at.func = f["at"][1].n; F.compute_at.var = f["at"][2].n; }
    for (auto& l : f["loops"].a) F.loops.push_back({(int)l[0].n, l[1].n, l[2].n >= 1000 ? (int64_t)slinky::loop::parallel : l[2].n});
    for (auto& o : f["outs"].a) {
      m.bufs[o["buf"].n].producer = m.funcs.size();
      F.outs.push_back({(int)o["buf"].n, ints(o["dims"])});
    }
    for (auto& i : f["ins"].a) {
      minput I;
      I.buf = i["buf"].n;
      m.bufs[I.buf].consumed = true;
      for (auto& b : i["bounds"].a) I.bounds.push_back({ix_of(b[0]), ix_of(b[1])});
      auto crops = [](const jval& v, std::vector<minput::crop>& c) {
        for (auto& q : v.a) {
          if ((int)c.size() <= q[0].n) c.resize(q[0].n + 1);
          c[q[0].n].has = true;
          c[q[0].n].c = {q[1].n, q[2].n};
          c[q[0].n].from = q.size() > 3 ? q[3].n : -1;
        }
      };
      crops(i["icrop"], I.icrop);
      crops(i["ocrop"], I.ocrop);
      for (auto& s : i["oslice"].a) I.oslice.push_back({s[0].n, s[1].n});
      F.ins.push_back(I);
    }
    if (F.pad >= 0) m.bufs[F.pad].consumed = true;
    m.funcs.push_back(F);
  }
  m.nvars = 4;
  for (auto& q : j["cons"].a) m.cons.push_back({(int)q[0].n, (int)q[1].n, (int)q[2].n, (int)q[3].n, (int)q[4].n, q[5].n});
  m.no_alias = j["no_alias"].n; m.stack_threshold = j["stackthr"].n; m.no_checks = j["nochecks"].n; m.trace = j["trace"].n;
  return m;
}

// ------------------------------------------------------------------------------------------------------- generation

struct gen_options {
  bool copies = true;       // allow copies
  int copy_bias = 1;        // of 4
  bool parallel = false;    // allow parallel loops
  int max_funcs = 5;
  bool multi_out = true;
  bool exotic = true;       // index expressions other than shifts and scales
};

struct pipe_gen {
  rng& r;
  gen_options o;
  model m;
  pipe_gen(rng& r, gen_options o) : r(r), o(o) {}

  int add_buf(int rank, int kind, int es) {
    mbuf b;
    b.rank = rank; b.kind = kind; b.es = es;
    m.bufs.push_back(b);
    return m.bufs.size() - 1;
  }

  std::vector<int> vars(int n) {
    std::vector<int> all = {0, 1, 2, 3};
    std::vector<int> res;
    if (!r.chance(1, 4)) { for (int i = 0; i < n; ++i) res.push_back(i); return res; }
    for (int i = 0; i < n; ++i) { int k = r.below(all.size()); res.push_back(all[k]); all.erase(all.begin() + k); }
    return res;
  }

  // The region of src needed by an element of a function with dimensions dims, as a callback may declare.
  std::vector<ival> access(int src, const std::vector<int>& dims, bool* identity) {
    int sr = m.bufs[src].rank;
    std::vector<ival> res;
    *identity = false;
    if (sr == (int)dims.size() && r.chance(2, 5)) {
      for (int d = 0; d < sr; ++d) res.push_back(pt(ix::X(dims[d])));
      *identity = true;
      return res;
    }
    std::vector<int> perm = dims;
    if (r.chance(1, 6)) for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    bool simple = r.chance(1, 2);
    for (int d = 0; d < sr; ++d) {
      if (d >= (int)perm.size()) {  // a reduction
        int64_t lo = r.range(-2, 2);
        res.push_back({ix::C(lo), ix::C(lo + r.below(4))});
        continue;
      }
      ix x = ix::X(perm[d]);
      int k = r.below(simple ? 10 : (o.exotic ? 20 : 13));
      if (k < 4) res.push_back(pt(x));
      else if (k < 8) { int64_t a = r.below(3), b = r.below(3); res.push_back({x + ix::C(-a), x + ix::C(b)}); }
      else if (k < 9) res.push_back(pt(x + ix::C(r.range(-4, 4))));
      else if (k < 10) { int64_t a = r.range(-4, 3); res.push_back({x + ix::C(a), x + ix::C(a + r.below(3))}); }
      else if (k < 12) { int64_t a = r.range(-1, 0), b = r.range(0, 1); res.push_back({x * 2 + ix::C(a), x * 2 + ix::C(b)}); }
      else if (k < 13) res.push_back({x * 3 + ix::C(-1), x * 3 + ix::C(1)});
      else if (k < 15) { int64_t b = r.below(2); res.push_back({x / 2, x / 2 + ix::C(b)}); }
      else if (k < 16 && m.bufs[src].kind == B_INPUT) { int64_t c = r.range(0, 9); res.push_back({ix::C(c) - x, ix::C(c + r.below(2)) - x}); }
      else if (k < 17) { int64_t lo = r.range(-2, 2); res.push_back({ix::C(lo), ix::C(lo + r.below(4))}); }
      else if (k < 18) res.push_back(pt(ix::C(r.range(-2, 3))));
      else if (k < 19 && dims.size() > 1 && m.bufs[src].kind == B_INPUT) { int j = r.below(dims.size()); res.push_back(perm[d] == dims[j] ? pt(x) : pt(x + ix::X(dims[j]))); }
      else if (k == 19) { int64_t mo = r.range(2, 4); res.push_back(pt(x % mo)); }
      else res.push_back(pt(x));
    }
    return res;
  }

  // A single index per dimension of src, for copies.
  std::vector<ival> copy_index(int src, const std::vector<int>& dims) {
    int sr = m.bufs[src].rank;
    std::vector<ival> res;
    std::vector<int> perm = dims;
    if (r.chance(1, 3)) for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    bool simple = r.chance(2, 3);
    for (int d = 0; d < sr; ++d) {
      if (d >= (int)perm.size()) { res.push_back(pt(ix::C(r.range(-1, 2)))); continue; }
      ix x = ix::X(perm[d]);
      int k = r.below(simple ? 8 : 16);
      // KNOWN_FINDINGS (alias_copy_const): a copy of a slice of an intermediate.
      if (m.bufs[src].producer >= 0 && k >= 8 && k < 10) k = 4;
      if (k < 4) res.push_back(pt(x));
      else if (k < 8) res.push_back(pt(x + ix::C(r.range(-4, 4))));
      else if (k < 10) res.push_back(pt(ix::C(r.range(-2, 2))));
      else if (k < 11) res.push_back(pt(x * 2 + ix::C(r.range(-1, 1))));
      else if (k < 12) res.push_back(pt(x / 2));
      else if (k < 13 && m.bufs[src].kind == B_INPUT) res.push_back(pt(ix::C(r.range(0, 6)) - x));
      else if (k < 14 && m.bufs[src].kind == B_INPUT) res.push_back(pt(x % r.range(2, 4)));
      else if (dims.size() > 1 && m.bufs[src].kind == B_INPUT) {
        int j = r.below(dims.size());
        res.push_back(perm[d] == dims[j] ? pt(x) : pt(x + ix::X(dims[j]) * r.range(1, 4)));
      } else res.push_back(pt(x));
    }
    return res;
  }

  int pick_src(std::vector<int>& cands) {
    // Prefer what is not consumed yet.
    std::vector<int> fresh;
    for (int b : cands) if (!m.bufs[b].consumed && m.bufs[b].producer >= 0) fresh.push_back(b);
    int b = !fresh.empty() && r.chance(3, 4) ? fresh[r.below(fresh.size())] : cands[r.below(cands.size())];
    return b;
  }

  void use(int b) { m.bufs[b].consumed = true; }

  // KNOWN_FINDINGS (lost_crop): the crop of the input of a copy is lost when the source is an intermediate that has other
  // consumers.
  std::vector<int> avail;
  bool croppable(int b) { return m.bufs[b].producer < 0 || !m.bufs[b].consumed; }
  void use_cropped(int b) {
    use(b);
    if (m.bufs[b].producer >= 0) avail.erase(std::remove(avail.begin(), avail.end(), b), avail.end());
  }
  static bool uses(const ix& e, ix::kind k) { return e.k == k || (e.a && uses(*e.a, k)) || (e.b && uses(*e.b, k)); }

  bool generate() {
    m = model();
    int es = r.pick({4, 4, 4, 8, 12});
    int ni = 1 + r.below(2);
    avail.clear();
    for (int i = 0; i < ni; ++i) avail.push_back(add_buf(r.pick({1, 2, 2, 2, 3}), B_INPUT, es));
    if (r.chance(1, 6)) avail.push_back(add_buf(r.below(3), B_CONST, es));
    int nf = 1 + r.below(o.max_funcs);
    for (int k = 0; k < nf; ++k) {
      mfunc f;
      bool last = k + 1 == nf;
      (void)last;
      bool copy = o.copies && r.below(4) < o.copy_bias;
      if (copy) {
        f.copy = true;
        f.slinky_copy = r.chance(1, 4);
        int kind = r.below(8);
        if (kind < 3 || kind == 7) {  // plain
          int rank = r.pick({1, 2, 2, 3});
          int s = pick_src(avail);
          std::vector<int> dims = vars(rank);
          minput in; in.buf = s; in.bounds = copy_index(s, dims);
          use(s);
          f.ins.push_back(in);
          int b = add_buf(rank, B_INTM, es);
          f.outs.push_back({b, dims});
        } else if (kind < 5) {  // padded
          int s = pick_src(avail);
          int rank = m.bufs[s].rank;
          if (rank == 0 || !croppable(s)) { --k; continue; }
          std::vector<int> dims = vars(rank);
          minput in; in.buf = s;
          use_cropped(s);
          in.bounds = copy_index(s, dims);
          in.icrop.resize(rank);
          int from = -1;
          for (int b : avail) if (m.bufs[b].kind == B_INPUT && m.bufs[b].rank == rank && r.chance(1, 2)) from = b;
          if (m.bufs[s].kind == B_INPUT && r.chance(1, 2)) from = s;
          if (m.bufs[s].kind == B_CONST) from = -1;
          for (int d = 0; d < rank; ++d) {
            if (r.chance(1, 5)) continue;
            in.icrop[d].has = true;
            if (from >= 0) in.icrop[d].from = from;
            else { int64_t lo = r.range(-2, 4); in.icrop[d].c = {lo, lo + r.below(7)}; }
          }
          f.ins.push_back(in);
          if (r.chance(2, 3)) {
            f.pad = add_buf(0, B_CONST, es);
          } else {
            std::vector<int> same;
            for (int b : avail) if (m.bufs[b].rank == rank && b != s && m.bufs[b].producer < 0) same.push_back(b);
            if (same.empty()) f.pad = add_buf(0, B_CONST, es);
            else { f.pad = same[r.below(same.size())]; use(f.pad); }
          }
          int b = add_buf(rank, B_INTM, es);
          f.outs.push_back({b, dims});
        } else if (kind == 5) {  // concat
          int n = 2 + r.below(2);
          int s0 = pick_src(avail);
          int rank = m.bufs[s0].rank;
          if (rank == 0 || !croppable(s0)) { --k; continue; }
          std::vector<int> dims = vars(rank);
          int cd = r.below(rank);
          int64_t at = r.chance(1, 2) ? 0 : r.range(-3, 3);
          for (int i = 0; i < n; ++i) {
            int s = s0;
            if (i > 0) {
              std::vector<int> same;
              for (int b : avail) if (m.bufs[b].rank == rank && croppable(b)) same.push_back(b);
              if (same.empty()) {   // concat with a pipeline input
                same.push_back(add_buf(rank, B_INPUT, es));
                avail.push_back(same[0]);
              }
              s = same[r.below(same.size())];
            }
            use_cropped(s);
            int64_t ext = 1 + r.below(4);
            minput in; in.buf = s;
            for (int d = 0; d < rank; ++d) in.bounds.push_back(pt(d == cd ? ix::X(dims[d]) + ix::C(-at) : ix::X(dims[d])));
            in.icrop.resize(cd + 1); in.ocrop.resize(cd + 1);
            in.icrop[cd].has = in.ocrop[cd].has = true;
            in.icrop[cd].c = {0, ext - 1};
            in.ocrop[cd].c = {at, at + ext - 1};
            at += ext;
            f.ins.push_back(in);
          }
          int b = add_buf(rank, B_INTM, es);
          f.outs.push_back({b, dims});
        } else {  // stack
          int n = 2 + r.below(2);
          int s0 = pick_src(avail);
          int rank = m.bufs[s0].rank;
          if (rank > 2) { --k; continue; }
          if (!croppable(s0)) { --k; continue; }
          std::vector<int> dims = vars(rank);
          int sd = r.below(rank + 1);
          for (int i = 0; i < n; ++i) {
            int s = s0;
            if (i > 0) {
              std::vector<int> same;
              for (int b : avail) if (m.bufs[b].rank == rank && croppable(b)) same.push_back(b);
              if (same.empty()) {   // stack with a pipeline input
                same.push_back(add_buf(rank, B_INPUT, es));
                avail.push_back(same[0]);
              }
              s = same[r.below(same.size())];
            }
            use_cropped(s);
            minput in; in.buf = s;
            for (int d = 0; d < rank; ++d) in.bounds.push_back(pt(ix::X(dims[d])));
            in.oslice.push_back({sd, i});
            f.ins.push_back(in);
          }
          int b = add_buf(rank + 1, B_INTM, es);
          f.outs.push_back({b, dims});
        }
      } else {
        int rank = r.pick({1, 2, 2, 2, 3});
        if (r.chance(1, 12)) rank = 0;
        int no = o.multi_out && r.chance(1, 6) ? 2 : 1;
        std::vector<int> dims = vars(rank);
        int nin = r.chance(1, 12) ? 0 : r.pick({1, 1, 2, 2, 3});
        for (int i = 0; i < nin; ++i) {
          int s = pick_src(avail);
          if (rank == 0 && m.bufs[s].rank > 2) continue;
          minput in; in.buf = s;
          use(s);
          bool id;
          in.bounds = access(s, dims, &id);
          f.ins.push_back(in);
          if (id && r.chance(1, 2)) f.in_place |= 1 << (int)(f.ins.size() - 1);
        }
        // KNOWN_FINDINGS (alias_outputs): computing in place into one of several outputs.
        if (no == 2) f.in_place = 0;
        for (int i = 0; i < no; ++i) {
          int b = add_buf(rank, B_INTM, es);
          f.outs.push_back({b, dims});
        }
      }
      int fi = m.funcs.size();
      for (auto& ou : f.outs) m.bufs[ou.buf].producer = fi;
      m.funcs.push_back(f);
      // KNOWN_FINDINGS (concat_intermediate): what consumes a concatenation.
      bool concat = !f.ins.empty() && !f.ins[0].ocrop.empty();
      if (!concat) for (auto& ou : f.outs) avail.push_back(ou.buf);
    }
    // What nothing consumes is an output.
    int nouts = 0;
    for (auto& f : m.funcs) {
      bool any = false;
      for (auto& ou : f.outs) any = any || m.bufs[ou.buf].consumed;
      for (size_t i = 0; i < f.outs.size(); ++i) {
        mbuf& B = m.bufs[f.outs[i].buf];
        if (B.consumed) continue;
        // an unused second output of a function that is needed may stay an intermediate
        if ((any || i > 0) && r.chance(1, 3)) { continue; }
        B.kind = B_OUTPUT; ++nouts;
      }
    }
    if (nouts == 0) return false;
    // drop unused inputs
    for (auto& B : m.bufs) if (B.kind == B_INPUT && !B.consumed) B.kind = B_INPUT;
    m.no_alias = r.chance(1, 5);
    // KNOWN_FINDINGS (alias_copy_of_copy)
    for (auto& f : m.funcs) {
      if (!f.copy) continue;
      for (auto& in : f.ins) {
        int p = m.bufs[in.buf].producer, users = 0;
        if (p >= 0 && m.funcs[p].copy) m.no_alias = true;
        for (auto& g : m.funcs) for (auto& j : g.ins) users += j.buf == in.buf;
        if (p >= 0 && users > 1) m.no_alias = true;
        for (auto& b : in.bounds) if (p >= 0 && b.lo.k == ix::K) m.no_alias = true;
      }
    }
    m.no_checks = r.chance(1, 10);
    m.stack_threshold = r.pick({0, 0, 0, 4096, 100});
    return sizes() && schedule();
  }

  bool copied(int b) {
    for (auto& f : m.funcs) for (auto& in : f.ins) if (f.copy && in.buf == b && !in.icrop.empty()) return true;
    return false;
  }

  // Choose the bounds of the outputs, infer what is needed of the rest, choose the layouts.
  bool sizes() {
    for (auto& B : m.bufs) {
      B.box.clear();
      if (B.kind == B_OUTPUT) {
        int64_t budget = 60;
        for (int d = 0; d < B.rank; ++d) {
          int64_t ext = r.chance(1, 10) ? 1 : 1 + r.below(std::min<int64_t>(budget, B.rank == 1 ? 20 : B.rank == 2 ? 10 : 5));
          budget = std::max<int64_t>(1, budget / ext);
          int64_t lo = r.chance(1, 2) ? 0 : r.range(-4, 6);
          B.box.push_back({lo, lo + ext - 1});
        }
      }
    }
    // KNOWN_FINDINGS (alias_outputs): the outputs of one function that the caller asks for have the same bounds.
    for (auto& f : m.funcs) {
      mbuf* first = nullptr;
      for (auto& ou : f.outs) {
        mbuf& B = m.bufs[ou.buf];
        if (B.kind != B_OUTPUT) continue;
        if (first) B.box = first->box; else first = &B;
      }
    }
    // Keep concats and stacks within what is defined (other elements are undefined, which is legal but uninteresting).
    for (auto& f : m.funcs) {
      if (!f.copy || m.bufs[f.outs[0].buf].kind != B_OUTPUT) continue;
      mbuf& B = m.bufs[f.outs[0].buf];
      if (!f.ins[0].oslice.empty()) {
        int d = f.ins[0].oslice[0][0];
        B.box[d] = {0, (int64_t)f.ins.size() - 1};
        if (r.chance(1, 6)) B.box[d].hi -= 1;
      }
      for (size_t d = 0; d < f.ins[0].ocrop.size(); ++d) {
        if (!f.ins[0].ocrop[d].has) continue;
        B.box[d] = {f.ins[0].ocrop[d].c.lo, f.ins.back().ocrop[d].c.hi};
        if (r.chance(1, 6)) B.box[d].hi -= 1;
      }
    }
    // Crops with the bounds of an input need those first: choose them at random.
    for (auto& f : m.funcs) for (auto& in : f.ins) for (size_t d = 0; d < in.icrop.size(); ++d) {
      auto& c = in.icrop[d];
      if (!c.has || c.from < 0) continue;
      mbuf& B = m.bufs[c.from];
      if (B.lo.empty()) {
        for (int k = 0; k < B.rank; ++k) { int64_t lo = r.range(-2, 3); B.lo.push_back(lo); B.hi.push_back(lo + r.below(8)); }
      }
      c.c = {B.lo[d], B.hi[d]};
    }
    // Required regions.
    for (int fi = (int)m.funcs.size() - 1; fi >= 0; --fi) {
      mfunc& f = m.funcs[fi];
      for (auto& ou : f.outs) {
        mbuf& B = m.bufs[ou.buf];
        if (B.box.empty() && B.rank > 0) {
          if (B.consumed) return false;
          for (int d = 0; d < B.rank; ++d) B.box.push_back({1, 0});   // nobody wants it
        }
        for (int d = 0; d < (int)B.align.size(); ++d) if (B.align[d] > 1) {
          B.box[d].lo = fdiv(B.box[d].lo, B.align[d]) * B.align[d];
          B.box[d].hi = fdiv(B.box[d].hi + B.align[d], B.align[d]) * B.align[d] - 1;
        }
      }
      auto need = [&](const minput& in) -> bool {
        // the ranges of the variables
        std::vector<iv64> env(m.nvars, {0, 0});
        std::vector<bool> seen(m.nvars, false);
        for (auto& ou : f.outs) {
          size_t k = 0;
          for (int d = 0; d < m.bufs[ou.buf].rank; ++d) {
            bool sliced = false;
            for (auto& sl : in.oslice) sliced = sliced || sl[0] == d;
            if (sliced) continue;
            int v = ou.dims[k++];
            iv64 bx = m.bufs[ou.buf].box[d];
            env[v] = seen[v] ? iv64{std::min(env[v].lo, bx.lo), std::max(env[v].hi, bx.hi)} : bx;
            seen[v] = true;
          }
        }
        mbuf& S = m.bufs[in.buf];
        std::vector<iv64> res;
        for (size_t d = 0; d < in.bounds.size(); ++d) {
          iv64 q = {range_ix(in.bounds[d].lo, env).lo, range_ix(in.bounds[d].hi, env).hi};
          if (d < in.icrop.size() && in.icrop[d].has) q = {std::max(q.lo, in.icrop[d].c.lo), std::min(q.hi, in.icrop[d].c.hi)};
          // KNOWN_FINDINGS (all_padding): a copy of an intermediate none of which is needed.
          if (q.hi < q.lo && S.producer >= 0 && f.copy) return false;
          res.push_back(q);
        }
        if (S.box.empty()) S.box = res;
        else for (size_t d = 0; d < res.size(); ++d) S.box[d] = {std::min(S.box[d].lo, res[d].lo), std::max(S.box[d].hi, res[d].hi)};
        return true;
      };
      for (auto& in : f.ins) if (!need(in)) return false;
      if (f.pad >= 0) {
        minput in; in.buf = f.pad;
        for (int d = 0; d < m.bufs[f.pad].rank; ++d) in.bounds.push_back(pt(ix::X(f.outs[0].dims[d])));
        if (!need(in)) return false;
      }
    }
    for (auto& B : m.bufs) {
      int64_t n = 1;
      for (auto& d : B.box) {
        if (d.lo < -CO || d.hi > CK - CO - 1 || d.hi < -CO || d.lo > CK - CO - 1) return false;
        n *= std::max<int64_t>(1, d.hi - d.lo + 1);
      }
      if (n > 400) return false;
    }
    // Layouts of what comes from outside.
    for (auto& B : m.bufs) {
      if (B.kind == B_INTM) continue;
      if (B.box.empty() && B.rank > 0) { for (int d = 0; d < B.rank; ++d) B.box.push_back({0, 0}); }
      bool chosen = !B.lo.empty();
      for (int d = 0; d < B.rank; ++d) {
        int64_t lo = B.box[d].lo, hi = B.box[d].hi;
        if (B.kind == B_INPUT || B.kind == B_CONST) {
          if (hi < lo) hi = lo;
          if (r.chance(1, 3)) lo -= r.below(3);
          if (r.chance(1, 3)) hi += r.below(3);
        }
        if (chosen) {
          // used as a crop: what is required must be inside of it
          if (lo < B.lo[d] || hi > B.hi[d]) { if (B.box[d].lo < B.lo[d] || B.box[d].hi > B.hi[d]) return false; }
        } else { B.lo.push_back(lo); B.hi.push_back(hi); }
        B.order.push_back(d);
        B.gap.push_back(r.chance(1, 4) ? r.range(1, 3) : 0);
        B.neg.push_back(0);
      }
      if (r.chance(1, 4)) for (size_t i = B.order.size(); i > 1; --i) std::swap(B.order[i - 1], B.order[r.below(i)]);
      if (B.kind == B_INPUT && !chosen && !copied(&B - &m.bufs[0]) && r.chance(1, 8) && B.rank > 0) B.bcast.push_back(r.below(B.rank));
      if (r.chance(1, 12) && B.rank > 0 && B.kind != B_CONST) B.neg[r.below(B.rank)] = 1;
    }
    return true;
  }

  // A random legal schedule.
  bool schedule() {
    struct node { int parent; int func; int var; };
    std::vector<node> tree = {{-1, -1, -1}};
    std::vector<int> at(m.funcs.size(), 0);
    bool any_parallel = false;
    for (int fi = (int)m.funcs.size() - 1; fi >= 0; --fi) {
      mfunc& f = m.funcs[fi];
      std::vector<int> cons;
      for (int g = 0; g < (int)m.funcs.size(); ++g) {
        bool c = false;
        for (auto& in : m.funcs[g].ins) c = c || m.bufs[in.buf].producer == fi;
        c = c || (m.funcs[g].pad >= 0 && m.bufs[m.funcs[g].pad].producer == fi);
        if (c) cons.push_back(at[g]);
      }
      auto path = [&](int n) { std::vector<int> p; for (; n >= 0; n = tree[n].parent) p.insert(p.begin(), n); return p; };
      int parent = 0;
      std::vector<int> p = {0};
      // KNOWN_FINDINGS (output_in_loop): a function that computes an output of the pipeline and has consumers too.
      bool out_too = false;
      for (auto& ou : f.outs) out_too = out_too || m.bufs[ou.buf].kind == B_OUTPUT;
      // KNOWN_FINDINGS (all_padding): padding an intermediate in the loops of its consumers.
      bool padded = f.pad >= 0 && m.bufs[f.ins[0].buf].producer >= 0;
      for (auto& g : m.funcs) if (g.pad >= 0 && m.bufs[g.ins[0].buf].producer == fi) padded = true;
      if (padded) m.no_alias = true;
      if (!cons.empty() && (out_too || padded)) {
        f.compute_at.set = true;
      } else if (!cons.empty()) {
        p = path(cons[0]);
        for (int c : cons) {
          std::vector<int> q = path(c);
          size_t k = 0;
          while (k < p.size() && k < q.size() && p[k] == q[k]) ++k;
          p.resize(k);
        }
        parent = p.back();
        if (r.chance(1, 2)) {
          parent = p[r.below(p.size())];
          f.compute_at.set = true;
          f.compute_at.func = tree[parent].func;
          f.compute_at.var = tree[parent].var;
        }
        p = path(parent);
      } else if (r.chance(1, 4)) {
        f.compute_at.set = true;
      }
      for (auto& ou : f.outs) {
        mbuf& B = m.bufs[ou.buf];
        B.storage = r.pick({0, 0, 2, 2, 2, 1});
        if (B.kind != B_INTM) continue;
        int k = r.below(4);
        if (k == 0) {}
        else if (k == 1) { B.store_at.set = true; B.store_at.func = fi; B.store_at.var = -1; }
        else { int n = p[r.below(p.size())]; B.store_at.set = true; B.store_at.func = tree[n].func; B.store_at.var = tree[n].var; }
      }
      // loops, innermost first
      std::vector<int> vs;
      for (int v : f.outs[0].dims) vs.push_back(v);
      for (size_t i = vs.size(); i > 1; --i) if (r.chance(1, 3)) std::swap(vs[i - 1], vs[r.below(i)]);
      for (int v : vs) {
        if (!r.chance(cons.empty() ? 3 : 2, 5)) continue;
        // KNOWN_FINDINGS (concat_intermediate, all_padding): loops over the result of a concatenation or of padding an
        // intermediate.
        if (f.copy && !f.ins[0].ocrop.empty()) continue;
        if (f.pad >= 0 && m.bufs[f.ins[0].buf].producer >= 0) continue;
        int64_t w = 1;
        if (o.parallel && r.chance(1, 2)) { w = r.chance(1, 2) ? (int64_t)slinky::loop::parallel : r.range(2, 3); any_parallel = true; }
        f.loops.push_back({v, r.pick({1, 1, 2, 3, 4, 5}), w});
      }
      for (auto l = f.loops.rbegin(); l != f.loops.rend(); ++l) { tree.push_back({parent, fi, l->var}); parent = tree.size() - 1; }
      at[fi] = parent;
    }
    // KNOWN_FINDINGS (loop_alignment): x / n, x % n in loops with steps.
    bool div = false;
    for (auto& f : m.funcs) for (auto& in : f.ins) for (auto& b : in.bounds)
      div = div || uses(b.lo, ix::DIV) || uses(b.hi, ix::DIV) || uses(b.lo, ix::MOD) || uses(b.hi, ix::MOD);
    if (div) for (auto& f : m.funcs) for (auto& l : f.loops) l.step = 1;
    if (o.parallel && r.chance(1, 2)) {
      // One loop with a few workers and all others serial, preferably with something computed in it.
      std::vector<std::pair<int, int>> all;
      for (size_t g = 0; g < m.funcs.size(); ++g) for (size_t k = 0; k < m.funcs[g].loops.size(); ++k) {
        m.funcs[g].loops[k].workers = 1;
        int w = 1;
        for (auto& f : m.funcs) if (f.compute_at.set && f.compute_at.func == (int)g && f.compute_at.var == m.funcs[g].loops[k].var) w += 3;
        for (int i = 0; i < w; ++i) all.push_back({g, k});
      }
      any_parallel = !all.empty();
      if (any_parallel) { auto q = all[r.below(all.size())]; m.funcs[q.first].loops[q.second].workers = r.range(2, 4); }
    }
    m.parallel = any_parallel;
    return !o.parallel || any_parallel;
  }
};

}  // namespace vf
#endif
