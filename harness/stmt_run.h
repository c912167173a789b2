// Evaluates statements with calls that record what they are given; virtual addresses; a deterministic thread pool.
#ifndef VERIF_STMT_RUN_H
#define VERIF_STMT_RUN_H

using namespace slinky;
using namespace vf;

static FILE* out;
static std::string now;
static int idx = 0;
static std::map<std::string, long> counts;

static void on_signal(int sig) {
  static char buf[20000];
  int n = snprintf(buf, sizeof(buf), "\n{\"k\":\"crash\",\"sig\":%d,\"case\":%s}\n", sig, now.size() < 19000 ? now.c_str() : "\"\"");
  fflush(out);
  if (write(fileno(out), buf, n)) {}
  _exit(77);
}
static void put(const std::string& s) { fputs(s.c_str(), out); fputc('\n', out); }
static void open_out(const char* path) {
  out = fopen(path, "w");
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM}) signal(s, on_signal);
}
static void close_out() {
  fclose(out);
  printf("{");
  bool first = true;
  for (auto& i : counts) {
    printf("%s\"%s\":%ld", first ? "" : ",", i.first.c_str(), i.second);
    first = false;
  }
  printf("}\n");
}

// The value of an expression with calls of functions surely fits 32 bits.
static bool small_with_calls(const expr& e) {
  std::string d = dump(e);
  auto count = [&](const char* w) {
    int n = 0;
    for (size_t p = 0; (p = d.find(w, p)) != std::string::npos; ++p) ++n;
    return n;
  };
  int muls = count("\"*\""), adds = count("\"+\"") + count("\"-\"") + 4 * count("\"let\"");
  return muls == 0 ? adds <= 14 : muls <= 1 && adds <= 4;
}

static const index_t NUL = -1000000;
static char* const fake = (char*)(uintptr_t)(1ll << 30);

// Runs tasks on the calling thread, at once or when they are waited for.
class fake_pool : public thread_pool {
public:
  bool eager = true, reverse = false;
  struct fake_task : task {
    std::size_t n;
    task_body body;
    bool ran = false;
    bool done() const override { return ran; }
  };
  void run(fake_task* t, bool rev) {
    if (t->ran) return;
    t->ran = true;
    // Two workers share the iterations.
    task_body a = t->body, b = t->body;
    for (std::size_t i = 0; i < t->n; ++i) {
      std::size_t j = rev ? t->n - 1 - i : i;
      (i % 3 == 1 ? b : a)(j);
    }
  }
  int thread_count() const override { return 3; }
  ref_count<task> enqueue(std::size_t n, task_body t, int max_workers) override {
    fake_task* f = new fake_task();
    f->n = n;
    f->body = std::move(t);
    ref_count<task> result(f);
    if (eager && n == 1) run(f, reverse);
    return result;
  }
  void wait_for(task* t) override { run(static_cast<fake_task*>(t), reverse); }
  void wait_for(predicate_ref condition) override {
    if (!condition()) abort();
  }
  void atomic_call(function_ref<void()> t) override { t(); }
};

struct stmt_world {
  rng& r;
  eval_config config;
  fake_pool pool;
  eval_context ctx;
  struct b_t {
    raw_buffer b;
    dim d[4];
  };
  b_t in[3];
  std::vector<const_raw_buffer_ptr> consts;
  stmt_gen::scope top;
  std::vector<index_t> vals;

  struct region { uintptr_t begin, size; int id; };
  std::vector<region> regions;
  int nalloc = 0, first_decl = 0;
  std::vector<std::string> log;
  std::set<int> decls;                   // calls that are the first of the body of an allocation
  std::map<int, int> runs;
  int fail_id = -1, fail_run = 0, fail_result = 1, fail_alloc = -1, allocs = 0;
  bool af = true;

  stmt_world(rng& r) : r(r) {}

  static std::string js(const dim& d) {
    return "[" + num(d.min()) + "," + num(d.max()) + "," + num(d.stride()) + "," + num(d.fold_factor()) + "]";
  }
  index_t address(const void* p) {
    if (!p) return NUL;
    uintptr_t x = (uintptr_t)p;
    if (x >= (uintptr_t)fake && x < (uintptr_t)fake + (400 << 20)) return x - (uintptr_t)fake;
    for (size_t i = regions.size(); i-- > 0;)
      if (x >= regions[i].begin && x < regions[i].begin + std::max<uintptr_t>(1, regions[i].size))
        return 500000000 + regions[i].id * 100000 + (x - regions[i].begin);
    return 499999999;
  }
  std::string js(const raw_buffer* b) {
    if (!b) return "[-1,0,[]]";
    std::string s = "[" + num(address(b->base)) + "," + num(b->elem_size) + ",[";
    for (size_t d = 0; d < b->rank && d < 8; ++d) s += (d ? "," : "") + js(b->dims[d]);
    return s + "]]";
  }

  void shape(raw_buffer& b, dim* d, int rank, index_t es) {
    b.elem_size = es;
    b.rank = rank;
    b.dims = d;
    std::vector<int> order;
    for (int i = 0; i < rank; ++i) order.push_back(i);
    for (int i = rank; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    index_t s = es;
    for (int i : order) {
      index_t lo = r.range(-3, 4), ext = r.chance(1, 20) ? 0 : r.range(1, 6);
      d[i].set_bounds(lo, lo + ext - 1);
      d[i].set_fold_factor(dim::unfolded);
      if (r.chance(1, 8)) {
        d[i].set_stride(0);
      } else {
        d[i].set_stride(r.chance(1, 10) ? -s : s);
        s *= std::max<index_t>(1, ext) + r.below(2);
      }
      if (folded && d[i].stride() > 0 && r.chance(1, 12)) d[i].set_fold_factor(r.range(1, 6));
    }
  }
  bool folded = true;
  void make_inputs(stmt_gen& g) {
    vals = {r.range(-4, 6), r.range(-4, 6), r.range(0, 8), r.range(-20, 40)};
    ctx.reserve(300);
    for (int i = 0; i < 300; ++i) ctx[var(i)] = 0;
    for (int i = 0; i < 4; ++i) ctx[var(i)] = vals[i];
    for (int i = 0; i < 3; ++i) {
      int rank = r.range(0, 3);
      shape(in[i].b, in[i].d, rank, r.pick({1, 2, 4}));
      bool null = r.chance(1, 25);
      for (int d = 0; d < rank; ++d) null = null || in[i].d[d].empty();
      in[i].b.base = null ? nullptr : fake + (i + 1) * (10 << 20);
      ctx[var(40 + i)] = reinterpret_cast<index_t>(&in[i].b);
      top.bufs.push_back({40 + i, true, true, rank});
    }
    if (g.constants) {
      for (int i = 0; i < 2; ++i) {
        dim d[4];
        raw_buffer b;
        int rank = r.below(3);
        bool f = folded;
        folded = false;
        shape(b, d, rank, 4);
        folded = f;
        for (int k = 0; k < rank; ++k) if (d[k].stride() < 0) d[k].set_stride(-d[k].stride());
        auto p = raw_buffer::make(rank, 4, d);
        p->base = fake + (i + 8) * (10 << 20);
        bool empty = false;
        for (int k = 0; k < rank; ++k) empty = empty || d[k].empty();
        if (empty) p->base = nullptr;
        consts.push_back(p);
      }
      g.consts = consts;
    }
  }
  // Which calls fail, how memory is allocated and tasks are run.
  void choose(int calls) {
    if (r.chance(1, 3)) {
      fail_id = r.range(1, calls);
      fail_run = r.below(r.pick({1, 1, 3}));
      fail_result = r.pick({1, 2, -1, 7});
    }
    if (r.chance(1, 10)) fail_alloc = r.below(3);
    config.auto_stack_threshold = r.chance(1, 2) ? 0 : 1 << 24;
    pool.eager = r.chance(1, 2);
    pool.reverse = r.chance(1, 2);
    config.thread_pool = &pool;
  }
  struct decl_finder : recursive_node_visitor {
    std::set<int> found;
    void visit(const allocate* o) override {
      stmt b = o->body;
      while (const block* k = b.as<block>()) b = k->stmts[0];
      if (auto* c = b.as<call_stmt>()) found.insert(atoi(c->attrs.name.c_str() + 1));
      recursive_node_visitor::visit(o);
    }
  };
  call_stmt::callable target() {
    return [this](const call_stmt* op, eval_context& c) -> index_t {
      int id = atoi(op->attrs.name.c_str() + 1);
      if (decls.count(id)) {
        const raw_buffer* b = c.lookup_buffer(op->inputs[0]);
        ++nalloc;
        if (b->base) regions.push_back({(uintptr_t)b->base, (uintptr_t)b->size_bytes(), nalloc_of(id)});
      }
      int run = runs[id]++;
      index_t result = id == fail_id && run == fail_run ? fail_result : 0;
      std::string s = "[\"call\"," + num(id) + ",[";
      for (size_t i = 0; i < op->scalars.size(); ++i) s += (i ? "," : "") + num(evaluate(op->scalars[i], c));
      s += "],[";
      bool first = true;
      for (auto* l : {&op->inputs, &op->outputs})
        for (var i : *l) {
          if (!first) s += ",";
          first = false;
          s += js(c.lookup_buffer(i));
        }
      log.push_back(s + "]," + num(result) + "]");
      return result;
    };
  }
  int nalloc_of(int) { return nalloc - 1 + failed_allocs; }
  int failed_allocs = 0;

  std::string inputs_json() {
    std::string s = "\"vals\":[";
    for (size_t i = 0; i < vals.size(); ++i) s += (i ? "," : "") + num(vals[i]);
    s += "],\"bufs\":[";
    for (int i = 0; i < 3; ++i) s += (i ? "," : "") + js(&in[i].b);
    s += "],\"consts\":[";
    for (size_t i = 0; i < consts.size(); ++i) s += (i ? "," : "") + js(&*consts[i]);
    return s + "]";
  }
  void progress(const std::string& s) { now = "{" + inputs_json() + "," + s + "}"; }

  void find_decls(const stmt& s) {
    decl_finder f;
    s.accept(&f);
    decls = f.found;
  }
  // vals0: the values of the variables the specification starts with (if not those the evaluation does).
  void evaluate_and_record(const stmt& s, const std::string& ast, bool record_allocations, const std::string& more = "",
      const std::vector<index_t>* vals0 = nullptr) {
    af = record_allocations;
    config.allocate = [this](var sym, raw_buffer* b) -> void* {
      bool ok = allocs++ != fail_alloc;
      void* a = nullptr;
      if (ok) a = b->allocate();
      else { b->init_strides(); b->base = nullptr; }
      if (!ok && b->elem_count() > 0) ++failed_allocs;
      if (af) log.push_back("[\"alloc\"," + num(sym.id) + "," + num(ok && a ? 1 : 0) + "]");
      return a;
    };
    config.free = [this](var sym, raw_buffer*, void* a) {
      // Nothing may use this memory any more.
      size_t freed = regions.size();
      for (size_t i = regions.size(); i-- > 0;)
        if (a && regions[i].begin >= (uintptr_t)a && regions[i].begin < (uintptr_t)a + 256 && (freed == regions.size() || regions[i].begin < regions[freed].begin)) freed = i;
      if (freed < regions.size()) regions.erase(regions.begin() + freed);
      ::free(a);
      if (af) log.push_back("[\"free\"," + num(sym.id) + "]");
    };
    config.check_failed = [this](const expr&) { log.push_back("[\"chk\"]"); };
    config.call_failed = [this](const call_stmt*) { log.push_back("[\"callfail\"]"); };
    ctx.config = &config;
    std::string in1 = inputs_json();
    if (vals0) vals = *vals0;
    std::string in0 = inputs_json();
    std::vector<index_t> c0;
    for (int i = 0; i < 300; ++i) c0.push_back(ctx[var(i)]);
    progress("\"k\":\"run\",\"i\":" + num(idx) + ",\"s\":" + ast + more);
    index_t res = evaluate(s, ctx);
    bool restored = in0 == inputs_json();
    for (int i = 0; i < 300; ++i) restored = restored && c0[i] == ctx[var(i)];
    std::string j = "{\"k\":\"run\",\"i\":" + num(idx) + "," + in0 + ",\"s\":" + ast + more + ",\"thr\":" + (config.auto_stack_threshold ? "1" : "0");
    j += ",\"af\":" + num(af) + ",\"eager\":" + num(pool.eager) + ",\"rev\":" + num(pool.reverse);
    j += ",\"res\":" + num(res) + ",\"restored\":" + num(restored) + ",\"log\":[";
    for (size_t i = 0; i < log.size(); ++i) j += (i ? "," : "") + log[i];
    j += "]}";
    put(j);
    counts["statements"]++;
    counts["events"] += log.size();
    if (res) counts["failed"]++;
  }
};
#endif
