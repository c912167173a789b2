// Builds the real pipeline of a model, runs it with recording callbacks and hooks, and keeps the trace.
#ifndef VERIF_PIPE_RUN_H
#define VERIF_PIPE_RUN_H
#include <pthread.h>
#include <sys/mman.h>

#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <mutex>
#include <sstream>

#include "pipe_model.h"
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

namespace vf {
using namespace slinky;

// Set by whatever runs the threads.
extern int tid();              // the number of this thread
extern const uint32_t* last_clock();
extern std::string clocks();   // "" or "," and the vector clock of this thread
extern thread_local char* g_stack_lo;
extern thread_local char* g_stack_hi;

void init_thread_stack();

constexpr int32_t UNINIT = 0x7f7f7f7f, FREED = 0x6e6e6e6e, GUARD = 0x5c5c5c5c;
constexpr size_t PADB = 64;

struct region {
  char* raw = nullptr;
  char* base = nullptr;
  size_t size = 0, total = 0;
  int kind = 0;   // 0 allocated by the pipeline, 1 input, 2 output, 3 constant
  bool alive = true;
};

struct desc {
  int64_t reg = -1, off = 0, es = 0;
  std::vector<std::array<int64_t, 4>> dims;
  const char* base = nullptr;
  std::string json() const {
    std::string o = "[" + num(reg) + "," + num(off) + "," + num(es) + ",[";
    for (size_t d = 0; d < dims.size(); ++d)
      o += (d ? ",[" : "[") + num(dims[d][0]) + "," + num(dims[d][1]) + "," + num(dims[d][2]) + "," + num(dims[d][3]) + "]";
    return o + "]]";
  }
  bool contains(const std::vector<int64_t>& x) const {
    for (size_t d = 0; d < x.size() && d < dims.size(); ++d)
      if (dims[d][2] != 0 && (x[d] < dims[d][0] || x[d] > dims[d][1])) return false;
    return true;
  }
  int64_t offset(const std::vector<int64_t>& x) const {
    int64_t o = 0;
    for (size_t d = 0; d < x.size() && d < dims.size(); ++d) {
      if (dims[d][2] == 0) continue;
      if (dims[d][3] > 0) {
        int64_t f = dims[d][3];
        o += (((x[d] % f) + f) % f) * dims[d][2];
      } else o += (x[d] - dims[d][0]) * dims[d][2];
    }
    return o;
  }
};

template <typename F>
void each(const std::vector<iv64>& box, F f) {
  for (auto& b : box) if (b.hi < b.lo) return;
  std::vector<int64_t> x;
  for (auto& b : box) x.push_back(b.lo);
  for (;;) {
    f(x);
    size_t d = 0;
    for (; d < box.size(); ++d) {
      if (++x[d] <= box[d].hi) break;
      x[d] = box[d].lo;
    }
    if (d == box.size()) return;
  }
}

struct run_options {
  slinky::thread_pool* pool = nullptr;
  int fail_at = -1;          // the callback to fail (counting from 0)
  int fail_at2 = -1;
  bool record = true;
  std::function<void()> yield;  // called inside callbacks (a scheduling point)
  // How the buffers given to the pipeline differ from what the model says.
  const model* layout = nullptr;   // bounds and layouts are those of this model
  struct damage { int buf; bool null; int rank, es; };
  std::vector<damage> damages;
  bool expect_ok() const { return fail_at < 0 && damages.empty() && !layout && fail_alloc_at < 0; }
  int fail_alloc_at = -1;
};

struct runner {
  const model& m;
  node_context ctx;
  std::vector<buffer_expr_ptr> be;
  std::deque<func> fs;
  std::vector<var> vars_;
  std::vector<const_raw_buffer_ptr> consts;
  pipeline p;
  std::vector<int> in_bufs, out_bufs;

  // run state
#ifdef VF_PAR
  // Threads run one at a time and switch only at scheduling points; a lock would order what the library must order.
  struct no_mutex { void lock() {} void unlock() {} bool try_lock() { return true; } } mu;
  typedef no_mutex mutex_t;
#else
  std::mutex mu;
  typedef std::mutex mutex_t;
#endif
  std::deque<region> regions;
  std::string extra_json;
  std::map<const void*, int> tokens;
  std::vector<std::string> ev;
  std::string problem;        // the first thing that looked wrong
  long work = 0;
  int calls = 0, copies = 0, allocs = 0, calls_failed = 0, checks_failed = 0;
  run_options opt;
  bool unrecordable = false;
  bool alloc_refused = false, alloc_failed = false;
  std::map<std::string, index_t> open_traces;
  int64_t next_token = 1;
  std::vector<std::pair<char*, char*>> stacks;

  runner(const model& m) : m(m) {}
  ~runner() { release(); }

  void suspect(const std::string& s) { if (problem.empty()) problem = s; }

  expr ex(const ix& e) {
    switch (e.k) {
    case ix::K: return expr(e.c);
    case ix::V: return expr(vars_[e.c]);
    case ix::ADD: return ex(*e.a) + ex(*e.b);
    case ix::SUB: return ex(*e.a) - ex(*e.b);
    case ix::MUL: return ex(*e.a) * ex(*e.b);
    case ix::DIV: return ex(*e.a) / ex(*e.b);
    case ix::MOD: return ex(*e.a) % ex(*e.b);
    }
    return expr();
  }
  interval_expr iv(const ival& i) {
    if (json_ix(i.lo) == json_ix(i.hi)) return point(ex(i.lo));
    return bounds(ex(i.lo), ex(i.hi));
  }

  // -------------------------------------------------------------------------------------------------- memory

  int new_region(size_t size, int kind, size_t align = 64) {
    region g;
    g.size = size; g.kind = kind;
    g.total = size + 2 * PADB + align + 64;
    g.raw = (char*)malloc(g.total);
    g.base = g.raw + PADB;
    g.base += (align - (uintptr_t)g.base % align) % align;
    memset(g.raw, 0x5c, g.total);
    memset(g.base, 0x7f, size);
    regions.push_back(g);
    return regions.size() - 1;
  }
  bool guards_ok(const region& g) const {
    for (const char* c = g.raw; c < g.base; ++c) if (*c != 0x5c) return false;
    for (const char* c = g.base + g.size; c < g.raw + g.total; ++c) if (*c != 0x5c) return false;
    return true;
  }
  void release() {
    for (auto& g : regions) if (g.kind != 3) free(g.raw);
    regions.clear();
    tokens.clear();
  }
  // Which region an address is in: regions are numbered from 1; stacks from 1000; -1 null, -2 unknown.
  int find(const char* a, int64_t* off) {
    if (!a) { *off = 0; return -1; }
    for (size_t i = 0; i < regions.size(); ++i) {
      const region& g = regions[i];
      if (a >= g.raw && a < g.raw + g.total) { *off = a - g.base; return i + 1; }
    }
    if (g_stack_lo <= a && a < g_stack_hi) { note_stack(); }
    for (size_t i = 0; i < stacks.size(); ++i)
      if (stacks[i].first <= a && a < stacks[i].second) { *off = a - stacks[i].first; return 1000 + i; }
    *off = 0;
    return -2;
  }
  void note_stack() {
    if (!g_stack_lo) init_thread_stack();
    for (auto& s : stacks) if (s.first == g_stack_lo) return;
    stacks.push_back({g_stack_lo, g_stack_hi});
  }
  desc describe(const raw_buffer& b, int rank) {
    desc d;
    d.base = (const char*)b.base;
    d.reg = find(d.base, &d.off);
    d.es = b.elem_size;
    for (size_t k = 0; k < b.rank; ++k) {
      const slinky::dim& q = b.dim(k);
      std::array<int64_t, 4> a = {q.min(), q.max(), q.stride(), q.fold_factor()};
      for (int64_t& v : a) if (v > 1000000000 || v < -1000000000) { v = v > 0 ? 1000000000 : -1000000000; }
      d.dims.push_back(a);
    }
    while ((int)d.dims.size() < rank) d.dims.push_back({0, 0, 0, -1});
    return d;
  }
  void store(char* a, int64_t v, int es) {
    int32_t w = (int32_t)v;
    for (int k = 0; k + 4 <= es; k += 4) { int32_t q = w ^ (k * 0x01010101); memcpy(a + k, &q, 4); }
  }
  int64_t load(const char* a, int es) {
    int32_t w;
    memcpy(&w, a, 4);
    for (int k = 4; k + 4 <= es; k += 4) {
      int32_t q; memcpy(&q, a + k, 4);
      if (q != (w ^ (k * 0x01010101)) && w != UNINIT && w != FREED) return -3;
    }
    if (w < 0) return -3;
    return w;
  }
  // Is [a, a+es) memory we know?
  bool known(const char* a, int es) {
    int64_t off;
    int g = find(a, &off);
    if (g >= 1000) return true;
    if (g < 1) return false;
    return off >= 0 && off + es <= (int64_t)regions[g - 1].size;
  }
  int64_t observe(const desc& d, const std::vector<int64_t>& x) {
    if (!d.base || !d.contains(x)) return -1;
    const char* a = d.base + d.offset(x);
    if (!known(a, d.es)) return -4;
    return load(a, d.es);
  }

  // ------------------------------------------------------------------------------------------------ callbacks

  void log(std::string s) { if (opt.record) ev.push_back(std::move(s)); }

  std::string fname(int f) const { return "f" + num(f); }

#ifdef VF_PAR
  // Happens-before: which value is there, who wrote it, who read it, and who did anything with the values before.
  // A second write of the value that is there already is not in conflict with anything that uses this value.
  typedef std::map<int, uint32_t> epochs;
  struct cell { int32_t val = 0; epochs first, ws, rs, prior; };   // first, ws: the first and last writes of val
  std::map<const char*, cell> shadow;
  static bool happened_before(const epochs& e) {
    const uint32_t* v = last_clock();
    for (auto& i : e) if (i.second > v[i.first]) return false;
    return true;
  }
  static void join(epochs& a, const epochs& b) { for (auto& i : b) a[i.first] = std::max(a[i.first], i.second); }
  void reads(const std::set<const char*>& rd) {
    for (const char* a : rd) {
      auto i = shadow.find(a);
      if (i == shadow.end()) { shadow[a].val = load(a, 4); shadow[a].rs[tid()] = last_clock()[tid()]; continue; }
      cell& q = i->second;
      bool ok = q.ws.empty() && happened_before(q.prior);
      for (auto& w : q.first) ok = ok || w.second <= last_clock()[w.first];
      if (!ok) suspect("race");
      q.rs[tid()] = last_clock()[tid()];
    }
  }
  void writes(const std::set<const char*>& wr) {   // the values are there now
    for (const char* a : wr) {
      int32_t v = load(a, 4);
      auto i = shadow.find(a);
      cell& q = shadow[a];
      if (i == shadow.end() || v != q.val) {
        join(q.prior, q.ws); join(q.prior, q.rs);
        q.first.clear(); q.ws.clear(); q.rs.clear(); q.val = v;
      }
      if (!happened_before(q.prior)) suspect("race");
      q.ws[tid()] = last_clock()[tid()];
      q.first.insert({tid(), last_clock()[tid()]});
    }
  }
#endif

  // Do outputs share memory with each other or with what is needed of the inputs?
  void screen_sharing(int fi, const std::vector<desc>& ins, const std::vector<desc>& outs) {
    const mfunc& f = m.funcs[fi];
    std::map<const char*, std::pair<int, std::vector<int64_t>>> wr;
    for (size_t k = 0; k < outs.size(); ++k) {
      if (!outs[k].base) continue;
      std::vector<iv64> ob;
      for (int d = 0; d < m.bufs[f.outs[k].buf].rank; ++d) ob.push_back({outs[k].dims[d][0], outs[k].dims[d][1]});
      each(ob, [&](const std::vector<int64_t>& x) {
        if (!wr.insert({outs[k].base + outs[k].offset(x), {(int)k, x}}).second) suspect("f" + num(fi) + ": elements of outputs share memory");
      });
    }
    for (size_t k = 0; k < outs.size(); ++k) {
      std::vector<iv64> ob;
      for (int d = 0; d < m.bufs[f.outs[k].buf].rank; ++d) ob.push_back({outs[k].dims[d][0], outs[k].dims[d][1]});
      each(ob, [&](const std::vector<int64_t>& x) {
        std::vector<int64_t> env(m.nvars, 0);
        for (size_t d = 0; d < x.size(); ++d) env[f.outs[k].dims[d]] = x[d];
        for (size_t i = 0; i < ins.size(); ++i) {
          if (!ins[i].base || (ins[i].reg >= 1 && ins[i].reg < 1000 && regions[ins[i].reg - 1].kind % 2 == 1)) continue;
          std::vector<iv64> q;
          for (auto& b : f.ins[i].bounds) q.push_back({eval_ix(b.lo, env), eval_ix(b.hi, env)});
          each(q, [&](const std::vector<int64_t>& y) {
            if (!ins[i].contains(y)) return;
            auto w = wr.find(ins[i].base + ins[i].offset(y));
            if (w == wr.end()) return;
            if (!((f.in_place >> (w->second.first * (int)ins.size() + (int)i)) & 1) || w->second.second != y)
              suspect("f" + num(fi) + ": an output shares memory with input " + num(i));
          });
        }
      });
    }
  }

  static void addrs(const desc& d, const std::vector<iv64>& box, std::set<const char*>& s) {
    if (d.base) each(box, [&](const std::vector<int64_t>& x) { if (d.contains(x)) s.insert(d.base + d.offset(x)); });
  }

  index_t on_call(int fi, const call_stmt* op, eval_context& c) {
    const mfunc& f = m.funcs[fi];
    std::unique_lock<mutex_t> l(mu);
    int me = calls++;
    note_stack();
    std::vector<desc> ins, outs;
    std::string e = "[\"b\"," + num(tid()) + "," + num(fi) + ",[";
    for (size_t i = 0; i < op->inputs.size(); ++i) {
      const raw_buffer* b = c.lookup_buffer(op->inputs[i]);
      ins.push_back(describe(*b, m.bufs[f.ins[i].buf].rank));
      e += (i ? "," : "") + ins.back().json();
    }
    e += "],[";
    for (size_t i = 0; i < op->outputs.size(); ++i) {
      const raw_buffer* b = c.lookup_buffer(op->outputs[i]);
      outs.push_back(describe(*b, m.bufs[f.outs[i].buf].rank));
      e += (i ? "," : "") + outs.back().json();
    }
    e += "],[";
    // What is needed of each input for the outputs' regions.
    std::set<const char*> rda, wra;
    for (size_t i = 0; i < f.ins.size(); ++i) {
      const minput& in = f.ins[i];
      std::vector<iv64> hull;
      std::vector<std::vector<iv64>> boxes;
      for (size_t k = 0; k < f.outs.size(); ++k) {
        std::vector<iv64> ob;
        for (int d = 0; d < m.bufs[f.outs[k].buf].rank; ++d) ob.push_back({outs[k].dims[d][0], outs[k].dims[d][1]});
        for (auto& b : ob) if (b.hi - b.lo > 1000) { suspect("huge region"); unrecordable = true; return 1; }
        each(ob, [&](const std::vector<int64_t>& x) {
          std::vector<int64_t> env(m.nvars, 0);
          for (size_t d = 0; d < x.size(); ++d) env[f.outs[k].dims[d]] = x[d];
          std::vector<iv64> q;
          bool empty = false;
          for (auto& b : in.bounds) { q.push_back({eval_ix(b.lo, env), eval_ix(b.hi, env)}); empty = empty || q.back().hi < q.back().lo; }
          if (empty) return;
          boxes.push_back(q);
          if (hull.empty()) hull = q;
          for (size_t d = 0; d < q.size(); ++d) hull[d] = {std::min(hull[d].lo, q[d].lo), std::max(hull[d].hi, q[d].hi)};
        });
      }
      bool none = boxes.empty();
      e += (i ? ",[[" : "[[");
      if (!none) for (size_t d = 0; d < hull.size(); ++d) e += (d ? ",[" : "[") + num(hull[d].lo) + "," + num(hull[d].hi) + "]";
      e += "],[";
      std::map<std::vector<int64_t>, int64_t> seen;
      if (!none) {
        bool first = true;
        long n = 0;
        each(hull, [&](const std::vector<int64_t>& x) {
          if (++n > 20000) { unrecordable = true; return; }
          int64_t v = observe(ins[i], x);
          seen[x] = v;
          e += (first ? "" : ",") + num(v);
          first = false;
        });
        for (auto& q : boxes) addrs(ins[i], q, rda);
        for (auto& q : boxes) each(q, [&](const std::vector<int64_t>& x) {
          ++work;
          int64_t want = m.canon(in.buf, x), got = seen[x];
          if (want == ANY ? got < 0 && got != -3 : got != want) {
            std::string s = "f" + num(fi) + " input " + num(i) + " (buffer " + num(in.buf) + ") at (";
            for (int64_t v : x) s += num(v) + ",";
            suspect(s + "): got " + num(got) + " want " + num(want));
          }
        });
      }
      e += "]]";
    }
    e += "]" + clocks() + "]";
    log(e);
#ifdef VF_PAR
    for (size_t k = 0; k < f.outs.size(); ++k) {
      std::vector<iv64> ob;
      for (int d = 0; d < m.bufs[f.outs[k].buf].rank; ++d) ob.push_back({outs[k].dims[d][0], outs[k].dims[d][1]});
      addrs(outs[k], ob, wra);
    }
    reads(rda);
#endif
    screen_sharing(fi, ins, outs);
    bool fail = me == opt.fail_at || me == opt.fail_at2;
    if (opt.yield) { l.unlock(); opt.yield(); l.lock(); }
    if (!fail) {
      for (size_t k = 0; k < f.outs.size(); ++k) {
        std::vector<iv64> ob;
        for (int d = 0; d < m.bufs[f.outs[k].buf].rank; ++d) ob.push_back({outs[k].dims[d][0], outs[k].dims[d][1]});
        each(ob, [&](const std::vector<int64_t>& x) {
          ++work;
          if (!outs[k].base) return;   // nothing of it is wanted
          char* a = (char*)outs[k].base + outs[k].offset(x);
          if (!known(a, outs[k].es)) { suspect("f" + num(fi) + " writes unknown memory"); return; }
          if (outs[k].reg < 1000 && (!regions[outs[k].reg - 1].alive || regions[outs[k].reg - 1].kind % 2 == 1)) {
            suspect("f" + num(fi) + " writes freed or constant memory");
            return;
          }
          store(a, code(f.outs[k].buf, x), outs[k].es);
        });
      }
    }
    if (opt.yield) { l.unlock(); opt.yield(); l.lock(); }
    log("[\"e\"," + num(tid()) + "," + num(fi) + "," + num(fail ? 100 + me : 0) + clocks() + "]");
#ifdef VF_PAR
    if (!fail) writes(wra);
    reads(rda);
#endif
    return fail ? 100 + me : 0;
  }

  void on_copy(int fi, const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad) {
    std::unique_lock<mutex_t> l(mu);
    ++copies;
    note_stack();
    int rank = dst.rank;
    desc s = describe(src, 0), d = describe(dst, 0), q = describe(pad, 0);
    log("[\"c\"," + num(tid()) + "," + num(fi) + "," + s.json() + "," + d.json() + "," + q.json() + clocks() + "]");
    (void)rank;
#ifdef VF_PAR
    std::set<const char*> rda, wra;
    std::vector<iv64> box;
    for (auto& b : d.dims) box.push_back({b[0], b[1]});
    addrs(d, box, wra);
    if (d.base) each(box, [&](const std::vector<int64_t>& x) {
      if (s.base && s.contains(x)) rda.insert(s.base + s.offset(x));
      else if (q.base && q.contains(x)) rda.insert(q.base + q.offset(x));
    });
    reads(rda);
#endif
    work += dst.elem_count();
    if (opt.yield) { l.unlock(); opt.yield(); l.lock(); }
    slinky::copy(src, dst, pad);
    if (opt.yield) { l.unlock(); opt.yield(); l.lock(); }
    log("[\"d\"," + num(tid()) + "," + num(fi) + clocks() + "]");
#ifdef VF_PAR
    writes(wra);
    reads(rda);
#endif
  }

  // ------------------------------------------------------------------------------------------------- building

  loop_id loc(const mloc& l) {
    if (l.func < 0) return loop_id();
    return loop_id{&fs[l.func], l.var < 0 ? var() : vars_[l.var]};
  }

  void build() {
    const char* vn[] = {"x", "y", "z", "w"};
    for (int i = 0; i < m.nvars; ++i) vars_.push_back(var(ctx, vn[i]));
    consts.resize(m.bufs.size());
    for (size_t b = 0; b < m.bufs.size(); ++b) {
      const mbuf& B = m.bufs[b];
      std::string name = (B.kind == B_INPUT ? "in" : B.kind == B_OUTPUT ? "out" : B.kind == B_CONST ? "const" : "intm") + num(b);
      if (B.kind == B_CONST) {
        std::vector<slinky::dim> dims;
        int64_t stride = B.es;
        for (int d = 0; d < B.rank; ++d) {
          dims.push_back(slinky::dim(B.lo[d], B.hi[d], stride));
          stride *= B.hi[d] - B.lo[d] + 1;
        }
        raw_buffer_ptr c = raw_buffer::make(B.rank, B.es, dims.data());
        desc q;
        q.base = (char*)c->base;
        for (int d = 0; d < B.rank; ++d) q.dims.push_back({B.lo[d], B.hi[d], c->dim(d).stride(), -1});
        std::vector<iv64> box;
        for (int d = 0; d < B.rank; ++d) box.push_back({B.lo[d], B.hi[d]});
        each(box, [&](const std::vector<int64_t>& x) { store((char*)q.base + q.offset(x), m.canon(b, x), B.es); });
        consts[b] = c;
        be.push_back(buffer_expr::make_constant(ctx, name, consts[b]));
      } else {
        be.push_back(buffer_expr::make(ctx, name, B.rank, expr(B.es)));
      }
      for (int d = 0; d < (int)B.align.size(); ++d)
        if (B.align[d] > 1) be.back()->dim(d).bounds = slinky::align(be.back()->dim(d).bounds, expr(B.align[d]));
      be.back()->store_in(B.storage == 0 ? memory_type::automatic : B.storage == 1 ? memory_type::stack : memory_type::heap);
    }
    for (size_t fi = 0; fi < m.funcs.size(); ++fi) {
      const mfunc& f = m.funcs[fi];
      auto dims = [&](const std::vector<int>& d) { std::vector<var> r; for (int v : d) r.push_back(vars_[v]); return r; };
      if (!f.copy) {
        std::vector<func::input> ins;
        for (auto& in : f.ins) {
          box_expr bx;
          for (auto& b : in.bounds) bx.push_back(iv(b));
          ins.push_back({be[in.buf], bx});
        }
        std::vector<func::output> outs;
        for (auto& ou : f.outs) outs.push_back({be[ou.buf], dims(ou.dims)});
        call_stmt::attributes at;
        at.name = fname(fi);
        at.allow_in_place = f.in_place;
        fs.emplace_back([this, fi](const call_stmt* op, eval_context& c) -> index_t { return on_call(fi, op, c); }, ins, outs,
            std::vector<expr>{}, at);
      } else {
        copy_stmt::callable impl = [this, fi](const raw_buffer& s, const raw_buffer& d, const raw_buffer& q) { on_copy(fi, s, d, q); };
        if (f.slinky_copy) impl = slinky::copy;
        func::output dst = {be[f.outs[0].buf], dims(f.outs[0].dims)};
        int b = f.outs[0].buf;
        auto mk = [&](const minput& in) {
          func::input i;
          i.buffer = be[in.buf];
          for (auto& q : in.bounds) i.bounds.push_back(iv(q));
          if (!in.icrop.empty()) {
            i.input_crop.resize(in.icrop.size());
            for (size_t d = 0; d < in.icrop.size(); ++d) if (in.icrop[d].has) {
              i.input_crop[d] = in.icrop[d].from >= 0 ? be[in.icrop[d].from]->dim(d).bounds : bounds(in.icrop[d].c.lo, in.icrop[d].c.hi);
            }
          }
          return i;
        };
        if (!f.ins[0].oslice.empty()) {
          std::vector<buffer_expr_ptr> src;
          for (auto& in : f.ins) src.push_back(be[in.buf]);
          int sd = f.ins[0].oslice[0][0];
          int free_var = 0;
          while (std::count(f.outs[0].dims.begin(), f.outs[0].dims.end(), free_var)) ++free_var;
          dst.dims.insert(dst.dims.begin() + sd, vars_[free_var]);
          fs.push_back(func::make_stack(src, dst, sd, impl));
        } else if (!f.ins[0].ocrop.empty()) {
          std::vector<buffer_expr_ptr> src;
          std::vector<expr> bs;
          int cd = f.ins[0].ocrop.size() - 1;
          bs.push_back(expr(f.ins[0].ocrop[cd].c.lo));
          for (auto& in : f.ins) { src.push_back(be[in.buf]); bs.push_back(expr(in.ocrop[cd].c.hi + 1)); }
          fs.push_back(func::make_concat(src, dst, cd, bs, impl));
        } else if (f.pad >= 0) {
          func::input pad;
          pad.buffer = be[f.pad];
          for (int d = 0; d < m.bufs[f.pad].rank; ++d) pad.bounds.push_back(point(vars_[f.outs[0].dims[d]]));
          fs.push_back(func::make_copy(mk(f.ins[0]), dst, pad, impl));
        } else {
          fs.push_back(func::make_copy(mk(f.ins[0]), dst, impl));
        }
        (void)b;
      }
    }
    for (size_t fi = 0; fi < m.funcs.size(); ++fi) {
      const mfunc& f = m.funcs[fi];
      std::vector<func::loop_info> ls;
      for (auto& l : f.loops) ls.push_back(func::loop_info(vars_[l.var], expr(l.step), expr(l.workers)));
      fs[fi].loops(ls);
    }
    for (size_t fi = 0; fi < m.funcs.size(); ++fi) {
      if (m.funcs[fi].compute_at.set) fs[fi].compute_at(loc(m.funcs[fi].compute_at));
    }
    std::vector<buffer_expr_ptr> inputs, outputs;
    for (size_t b = 0; b < m.bufs.size(); ++b) {
      if (m.bufs[b].store_at.set) be[b]->store_at(loc(m.bufs[b].store_at));
      if (m.bufs[b].kind == B_INPUT) { inputs.push_back(be[b]); in_bufs.push_back(b); }
      if (m.bufs[b].kind == B_OUTPUT) { outputs.push_back(be[b]); out_bufs.push_back(b); }
    }
    for (const mcons& q : m.cons) {
      auto part = [](slinky::dim_expr& d, int what) -> expr& { return what == 0 ? d.bounds.min : what == 1 ? d.bounds.max : d.stride; };
      expr v = q.value;
      if (q.other >= 0) v = part(be[q.other]->dim(q.odim), q.what) + v;
      part(be[q.buf]->dim(q.dim), q.what) = v;
    }
    build_options bo;
    bo.no_alias_buffers = m.no_alias;
    bo.no_checks = m.no_checks;
    bo.trace = m.trace;
    p = build_pipeline(ctx, inputs, outputs, bo);
  }

  // -------------------------------------------------------------------------------------------------- running

  struct ext { raw_buffer buf; std::vector<slinky::dim> dims; int reg; bool null = false; };
  std::deque<ext> exts;
  index_t result = 0;
  bool intact = true;

  void make_ext(int b) {
    const mbuf& B = opt.layout ? opt.layout->bufs[b] : m.bufs[b];
    exts.emplace_back();
    ext& e = exts.back();
    e.dims.resize(B.rank);
    int64_t stride = B.es, lowest = 0;
    for (int d : B.order) {
      bool bc = std::count(B.bcast.begin(), B.bcast.end(), d);
      int64_t ext_ = std::max<int64_t>(0, B.hi[d] - B.lo[d] + 1);
      int64_t s = bc ? 0 : B.neg[d] ? -stride : stride;
      e.dims[d] = slinky::dim(B.lo[d], B.hi[d], s);
      if (bc) continue;
      if (s < 0) lowest += s * (ext_ - 1);
      stride *= std::max<int64_t>(1, ext_);
      stride += B.gap[d] * B.es;
    }
    e.reg = new_region(stride, B.kind == B_INPUT ? 1 : 2);
    e.buf.base = regions[e.reg].base - lowest;
    e.buf.elem_size = B.es;
    e.buf.rank = B.rank;
    e.buf.dims = e.dims.data();
    if (B.kind == B_INPUT) {
      desc q = describe(e.buf, B.rank);
      std::vector<iv64> box;
      for (int d = 0; d < B.rank; ++d) box.push_back({B.lo[d], B.hi[d]});
      each(box, [&](const std::vector<int64_t>& x) { store((char*)q.base + q.offset(x), m.canon(b, x), B.es); });
    }
  }

  std::vector<std::string> init_json, given_json;

  void run(const run_options& o) {
    opt = o;
    ev.clear(); problem.clear(); alloc_failed = false;
#ifndef VF_PAR
    stacks.clear();
#endif
    note_stack();
#ifdef VF_PAR
    shadow.clear();
#endif
    calls = copies = allocs = calls_failed = checks_failed = 0;
    exts.clear(); release();
    std::vector<int> owner;
    std::vector<int> order = in_bufs;
    order.insert(order.end(), out_bufs.begin(), out_bufs.end());
    for (int b : order) { make_ext(b); owner.push_back(b); }
    // Constants are memory of their own.
    for (size_t b = 0; b < m.bufs.size(); ++b) {
      if (m.bufs[b].kind != B_CONST) continue;
      region g;
      g.kind = 3; g.base = (char*)consts[b]->base; g.size = consts[b]->size_bytes();
      g.raw = g.base; g.total = g.size;
      regions.push_back(g);
    }
    // So are the constants that the library made of them.
    extra_json.clear();
    {
      struct finder : public recursive_node_visitor {
        std::vector<const raw_buffer*> found;
        void visit(const constant_buffer* op) override {
          if (op->value) found.push_back(&*op->value);
          recursive_node_visitor::visit(op);
        }
      } fd;
      if (p.body.defined()) p.body.accept(&fd);
      for (const raw_buffer* c : fd.found) {
        int64_t off;
        if (!c->base || find((const char*)c->base, &off) != -2) continue;
        region g;
        g.kind = 3; g.base = (char*)c->base; g.size = c->size_bytes();
        g.raw = g.base; g.total = g.size;
        regions.push_back(g);
        std::string vals;
        for (size_t o = 0; o + c->elem_size <= g.size; o += c->elem_size)
          vals += (vals.empty() ? "[" : ",[") + num((int64_t)o) + "," + num(load(g.base + o, c->elem_size)) + "]";
        extra_json += (extra_json.empty() ? "[" : ",[") + num((int64_t)regions.size()) + "," + num((int64_t)g.size) + ",[" + vals + "]]";
      }
    }
    for (const auto& dm : opt.damages) for (size_t i = 0; i < order.size(); ++i) {
      if (order[i] != dm.buf) continue;
      ext& e = exts[i];
      e.null = e.null || dm.null;
      while ((int)e.dims.size() < (int)e.buf.rank + dm.rank) e.dims.push_back(slinky::dim(0, 0, e.buf.elem_size));
      e.buf.dims = e.dims.data();
      e.buf.rank += dm.rank;
      e.buf.elem_size += dm.es;
    }
    given_json.clear();
    for (size_t i = 0; i < order.size(); ++i)
      given_json.push_back("[" + num(order[i]) + "," + num(exts[i].null) + "," + num(exts[i].buf.rank) + "," + num(exts[i].buf.elem_size) + "]");
    std::vector<std::vector<char>> before;
    for (auto& g : regions) before.push_back(std::vector<char>(g.raw, g.raw + g.total));
    // What the memory holds at the beginning, for the specification: [buffer, region, descriptor]
    init_json.clear();
    std::vector<std::string> inj;
    for (size_t i = 0; i < order.size(); ++i) {
      if (exts[i].null) continue;
      desc q = describe(exts[i].buf, m.bufs[order[i]].rank);
      init_json.push_back("[" + num(order[i]) + "," + q.json() + "," + num(regions[exts[i].reg].size) + "]");
    }
    for (size_t b = 0; b < m.bufs.size(); ++b)
      if (m.bufs[b].kind == B_CONST) {
        desc q = describe(*consts[b], m.bufs[b].rank);
        init_json.push_back("[" + num(b) + "," + q.json() + "," + num(consts[b]->size_bytes()) + "]");
      }

    eval_config cfg;
    cfg.thread_pool = opt.pool;
    cfg.auto_stack_threshold = m.stack_threshold;
    cfg.check_failed = [&](const expr& e) {
      std::lock_guard<mutex_t> l(mu);
      ++checks_failed;
      if (last_check.empty()) { std::ostringstream ss; ss << std::tie(e, ctx); last_check = ss.str(); for (char& ch : last_check) if (ch == 34 || ch == 92) ch = 39; }
      log("[\"k\"," + num(tid()) + "]");
    };
    cfg.call_failed = [&](const call_stmt* op) {
      std::lock_guard<mutex_t> l(mu);
      ++calls_failed;
      log("[\"l\"," + num(tid()) + "," + (op->attrs.name.size() > 1 && op->attrs.name[0] == 'f' ? op->attrs.name.substr(1) : "-1") + "]");
    };
    cfg.allocate = [&](var, raw_buffer* b) -> void* {
      std::lock_guard<mutex_t> l(mu);
      note_stack();
      if (allocs == opt.fail_alloc_at && b->elem_count() > 0) {
        ++allocs;
        alloc_failed = true;
        log("[\"x\"," + num(tid()) + "]");
        return nullptr;
      }
      auto size = b->init_strides(1);
      if (!size || *size > 1000000) { suspect("allocation of a buffer with overflowing or huge size"); alloc_refused = true; return nullptr; }
      int64_t lowest = 0;
      for (size_t d = 0; d < b->rank; ++d) {
        int64_t n = b->dim(d).fold_factor() > 0 ? b->dim(d).fold_factor() : b->dim(d).extent();
        if (b->dim(d).stride() < 0 && n > 0) lowest += b->dim(d).stride() * (n - 1);
      }
      int g = new_region(std::max<size_t>(*size, 1), 0);
      b->base = regions[g].base - lowest;
      regions[g].size = *size;
      void* token = regions[g].raw;
      tokens[token] = g;
      ++allocs;
      log("[\"a\"," + num(tid()) + "," + num(g + 1) + "," + num(*size) + clocks() + "]");
      return token;
    };
    cfg.free = [&](var, raw_buffer* b, void* t) {
      std::lock_guard<mutex_t> l(mu);
      auto i = tokens.find(t);
      int g = i == tokens.end() ? -1 : i->second;
      log("[\"f\"," + num(tid()) + "," + num(g + 1) + clocks() + "]");
      if (g < 0) { suspect("free of an unknown allocation"); return; }
      if (!regions[g].alive) { suspect("allocation freed twice"); return; }
#ifdef VF_PAR
      for (auto i = shadow.lower_bound(regions[g].raw); i != shadow.end() && i->first < regions[g].raw + regions[g].total; ++i) {
        if (!happened_before(i->second.ws) || !happened_before(i->second.rs) || !happened_before(i->second.prior)) suspect("race");
      }
      shadow.erase(shadow.lower_bound(regions[g].raw), shadow.lower_bound(regions[g].raw + regions[g].total));
#endif
      if (!guards_ok(regions[g])) { suspect("write outside of an allocation"); intact = false; }
      regions[g].alive = false;
      memset(regions[g].base, 0x6e, regions[g].size);
    };
    if (m.trace) {
      cfg.trace_begin = [&](const char* name) -> index_t {
        std::lock_guard<mutex_t> l(mu);
        int64_t t = next_token++;
        log(std::string("[\"tb\",") + num(tid()) + ",\"" + name + "\"," + num(t) + "]");
        return t;
      };
      cfg.trace_end = [&](index_t t) {
        std::lock_guard<mutex_t> l(mu);
        log("[\"te\"," + num(tid()) + "," + num(t) + "]");
      };
    }
    std::vector<const raw_buffer*> ib, ob;
    for (size_t i = 0; i < order.size(); ++i) (i < in_bufs.size() ? ib : ob).push_back(exts[i].null ? nullptr : &exts[i].buf);
    eval_context c;
    c.config = &cfg;
    intact = true;
    last_check.clear();
    result = p.evaluate(pipeline::scalars(), pipeline::buffers(ib.data(), ib.size()), pipeline::buffers(ob.data(), ob.size()), c);
    // Afterwards
    for (size_t gi = 0; gi < regions.size(); ++gi) {
      region& g = regions[gi];
      if (g.kind == 0) {
        if (g.alive) suspect("allocation never freed");
        else for (size_t k = 0; k < g.size; ++k) if (g.base[k] != 0x6e) { suspect("write after free"); intact = false; break; }
        if (!guards_ok(g)) { suspect("write outside of an allocation"); intact = false; }
      } else if (g.kind == 1 || g.kind == 3) {
        if (memcmp(before[gi].data(), g.raw, g.total) != 0) { suspect("an input or constant was modified"); intact = false; }
      }
    }
    if (checks_failed && calls == 0 && copies == 0) {
      for (size_t gi = 0; gi < before.size(); ++gi)
        if (memcmp(before[gi].data(), regions[gi].raw, regions[gi].total) != 0) { suspect("memory changed although a check failed"); intact = false; }
    }
    std::string vals = "[";
    for (size_t i = in_bufs.size(); i < order.size(); ++i) {
      int b = order[i];
      vals += (i > in_bufs.size() ? ",[" : "[");
      if (!exts[i].null) {
        desc q = describe(exts[i].buf, m.bufs[b].rank);
        std::vector<iv64> box;
        for (size_t d = 0; d < q.dims.size(); ++d) box.push_back({q.dims[d][0], q.dims[d][1]});
        bool first = true;
        std::vector<char>& old = before[exts[i].reg];
        region& g = regions[exts[i].reg];
        std::vector<bool> elem(g.total, false);
        each(box, [&](const std::vector<int64_t>& x) {
          int64_t v = observe(q, x), want = m.canon(b, x);
          vals += (first ? "" : ",") + num(v);
          first = false;
          if ((opt.expect_ok() || (opt.layout && opt.damages.empty() && result == 0)) && want != ANY && v != want) suspect("output " + num(b) + " has " + num(v) + " instead of " + num(want));
          int64_t at = q.base + q.offset(x) - g.raw;
          for (int k = 0; k < q.es; ++k) if (at + k >= 0 && at + k < (int64_t)g.total) elem[at + k] = true;
        });
        for (size_t k = 0; k < g.total; ++k) if (!elem[k] && old[k] != g.raw[k]) { suspect("write outside of an output"); intact = false; break; }
      }
      vals += "]";
    }
    vals += "]";
    if (opt.expect_ok()) {
      if (result != 0) suspect("evaluation failed: " + num(result) + " " + last_check);
      if (checks_failed) suspect("check failed " + last_check);
    }
    if (opt.fail_at >= 0 || opt.fail_alloc_at >= 0) {
      bool reached = opt.fail_at >= 0 ? calls > opt.fail_at : alloc_failed;
      index_t want = opt.fail_at >= 0 ? 100 + opt.fail_at : -1;
      if (reached && result != want) suspect("the result is " + num(result) + " instead of " + num(want));
      if (reached && !opt.pool && opt.fail_at >= 0 && calls != opt.fail_at + 1) suspect("calls after a failure");
      if (reached && opt.fail_at >= 0 && calls_failed != 1) suspect("call_failed called " + num(calls_failed) + " times");
    }
    if (!opt.damages.empty() && result == 0) suspect("damaged buffers were accepted");
    if (opt.layout && result != 0) {
      bool outside = false;
      for (int b : order) for (int d = 0; d < m.bufs[b].rank; ++d) {
        const mbuf& L = opt.layout->bufs[b];
        const iv64& box = m.bufs[b].box[d];
        outside = outside || (m.bufs[b].kind == B_OUTPUT ? L.lo[d] < box.lo || L.hi[d] > box.hi : L.lo[d] > box.lo || L.hi[d] < box.hi);
      }
      if (!outside && opt.damages.empty() && m.cons.empty()) suspect("rejected suitable buffers " + last_check);
      if (calls || copies) suspect("failed after it began");
    }
    if (result == 0) {
      auto part = [&](int b, int d, int what) -> index_t {
        for (size_t i = 0; i < order.size(); ++i)
          if (order[i] == b) return what == 0 ? exts[i].dims[d].min() : what == 1 ? exts[i].dims[d].max() : exts[i].dims[d].stride();
        return 0;
      };
      for (auto& q : m.cons)
        if (part(q.buf, q.dim, q.what) != q.value + (q.other < 0 ? 0 : part(q.other, q.odim, q.what)) &&
            !(q.what == 2 && part(q.buf, q.dim, 0) == part(q.buf, q.dim, 1)))
          suspect("a violated constraint was accepted");
    }
    log("[\"r\"," + num(result) + "," + vals + "," + (intact ? "true" : "false") + clocks() + "]");
  }
  std::string last_check;

  std::string inputs_json() const {
    std::string o = "[";
    for (size_t i = 0; i < init_json.size(); ++i) o += (i ? "," : "") + init_json[i];
    return o + "]";
  }
  std::string givens_json() const {
    std::string o = "[";
    for (size_t i = 0; i < given_json.size(); ++i) o += (i ? "," : "") + given_json[i];
    return o + "]";
  }
  std::string events_json() const {
    std::string o = "[";
    for (size_t i = 0; i < ev.size(); ++i) o += (i ? "," : "") + ev[i];
    return o + "]";
  }
};

inline void init_thread_stack() {
  pthread_attr_t a;
  pthread_getattr_np(pthread_self(), &a);
  void* lo; size_t n;
  pthread_attr_getstack(&a, &lo, &n);
  pthread_attr_destroy(&a);
  g_stack_lo = (char*)lo;
  g_stack_hi = (char*)lo + n;
}

}  // namespace vf
#endif
