// replica_driver SEED N OUT.nd OUT.cc: random graphs; OUT.nd gets what they are, OUT.cc a program which defines the
// replicas from the text the library generates, and prints what they are.
#include <deque>

#include "replica_dump.h"
#include "rng.h"

using namespace slinky;
using namespace vf;

struct gen {
  rng r;
  node_context ctx;
  std::vector<var> vars;
  std::vector<buffer_expr_ptr> bufs;    // in the order they are made
  std::vector<buffer_expr_ptr> inputs, outputs;
  std::vector<int> used;
  std::deque<func> funcs;
  std::vector<var> args;
  std::vector<std::pair<var, expr>> lets;
  explicit gen(uint64_t seed) : r(seed) {}

  std::string text, orig;

  expr leaf(const std::vector<var>& in, bool fields) {
    switch (r.below(fields ? 4 : 3)) {
    case 0: return expr(r.chance(1, 8) ? r.range(-5000000000, 5000000000) / 7 : r.range(-9, 9));
    case 3:
      if (!inputs.empty()) {
        const buffer_expr_ptr& b = inputs[r.below(inputs.size())];
        if (b->rank() > 0) {
          int d = r.below(b->rank());
          switch (r.below(5)) {
          case 0: case 1: return buffer_min(b->sym(), d);
          case 2: case 3: return buffer_max(b->sym(), d);
          default: return buffer_stride(b->sym(), d);
          }
        }
        return buffer_elem_size(b->sym());
      }
    default: if (in.empty()) return expr(r.range(0, 9)); return expr(r.pick(in));
    }
  }
  // Not both operands constant: such expressions do not survive in C++.
  expr any(const std::vector<var>& in, int depth, bool fields) {
    if (depth <= 0 || r.chance(1, 3)) return leaf(in, fields);
    expr a = any(in, depth - 1, fields);
    if (as_constant(a)) {
      if (in.empty()) return a;
      a = expr(r.pick(in));
    }
    if (r.chance(1, 16)) return abs(a);
    if (r.chance(1, 16)) return !a;
    expr b = any(in, depth - 1, fields);
    if (r.chance(1, 4)) std::swap(a, b);
    switch (r.below(15)) {
    case 0: case 1: case 2: return a + b;
    case 3: return a - b;
    case 4: return a * b;
    case 5: return a / b;
    case 6: return a % b;
    case 7: return min(a, b);
    case 8: return max(a, b);
    case 9: return a == b;
    case 10: return a != b;
    case 11: return a < b;
    case 12: return a <= b;
    case 13: return r.chance(1, 2) ? a && b : a || b;
    default: return select(any(in, depth - 1, fields), a, b);
    }
  }
  interval_expr interval(const std::vector<var>& in) {
    if (r.chance(1, 3)) return point(any(in, 2, true));
    if (r.chance(1, 3)) {
      expr c = leaf(in, true);
      int lo = r.range(0, 3), hi = r.range(0, 3);
      if (auto k = as_constant(c)) return {expr(*k - lo), expr(*k + hi)};
      return {c - lo, c + hi};
    }
    expr a = any(in, 2, true);
    return {a, any(in, 2, true)};
  }

  void dims(buffer_expr_ptr b, bool is_input) {
    for (size_t d = 0; d < b->rank(); ++d) {
      // Only fields of this buffer and of inputs
      std::vector<var> none;
      auto e = [&]() -> expr {
        switch (r.below(4)) {
        case 0: return expr(r.range(-20, 20));
        case 1: return buffer_min(b->sym(), d) + r.range(0, 9);
        case 2: return align_up(buffer_max(b->sym(), d) + 1, r.range(2, 8)) - 1;
        default: return is_input ? buffer_max(b->sym(), d) * 2 : any(none, 2, true);
        }
      };
      if (r.chance(1, 5)) b->dim(d).bounds.min = e();
      if (r.chance(1, 5)) b->dim(d).bounds.max = e();
      if (r.chance(1, 5)) b->dim(d).stride = r.chance(1, 2) ? expr(r.range(1, 64)) : e();
      if (r.chance(1, 8)) b->dim(d).fold_factor = r.chance(1, 2) ? expr(dim::unfolded) : expr(r.range(1, 16));
    }
  }

  buffer_expr_ptr make(const std::string& name, int rank, bool is_input) {
    expr es = expr(r.pick({1, 2, 4, 8}));
    buffer_expr_ptr b = buffer_expr::make(ctx, name, rank, es);
    dims(b, is_input);
    return b;
  }
  buffer_expr_ptr make_constant(const std::string& name) {
    int rank = r.range(0, 3);
    std::vector<slinky::dim> ds;
    int es = r.pick({1, 2, 4, 8});
    index_t stride = es;
    for (int d = 0; d < rank; ++d) {
      int lo = r.range(-3, 3), ext = r.range(1, 4);
      ds.push_back(slinky::dim(lo, lo + ext - 1, stride, r.chance(1, 6) ? ext : slinky::dim::unfolded));
      stride *= ext + (r.chance(1, 4) ? 1 : 0);
    }
    raw_buffer_ptr c = raw_buffer::make(rank, es, ds.data());
    return buffer_expr::make_constant(ctx, name, c);
  }

  void run(int index) {
    // Names are interned in different orders.
    int nv = r.range(1, 4);
    for (int i = 0; i < nv; ++i) vars.push_back(var(ctx, std::string(1, "xyzw"[i])));
    int ni = r.range(1, 3);
    for (int i = 0; i < ni; ++i) {
      inputs.push_back(make("in" + num(i), r.range(0, 3), true));
      bufs.push_back(inputs.back());
      used.push_back(1);
    }
    if (r.chance(1, 3)) { bufs.push_back(make_constant("k0")); used.push_back(0); }
    if (r.chance(1, 3)) args.push_back(var(ctx, "a0"));
    if (r.chance(1, 6)) args.push_back(var(ctx, "a1"));
    if (r.chance(1, 4)) lets.push_back({var(ctx, "l0"), any(args, 2, true)});
    if (!lets.empty() && r.chance(1, 2)) lets.push_back({var(ctx, "l1"), any({lets[0].first}, 2, true)});
    int nf = r.range(1, 5), next = 0;
    for (int f = 0; f < nf; ++f) {
      int nin = r.range(1, std::min<int>(3, bufs.size()));
      std::vector<var> ds;
      std::vector<var> pool = vars;
      for (int d = r.range(0, nv); d > 0; --d) { int k = r.below(pool.size()); ds.push_back(pool[k]); pool.erase(pool.begin() + k); }
      std::vector<var> free = ds;
      for (auto& i : args) free.push_back(i);
      for (auto& i : lets) free.push_back(i.first);
      auto in = [&](int k) {
        func::input i;
        i.buffer = bufs[k];
        used[k] = 1;
        for (size_t d = 0; d < bufs[k]->rank(); ++d) i.bounds.push_back(interval(free));
        return i;
      };
      auto prefer = [&]() {   // most of the time something nobody consumes yet
        for (int t = 0; t < 4; ++t) { int k = r.below(bufs.size()); if (!used[k]) return k; }
        return (int)r.below(bufs.size());
      };
      auto points = [&](func::input& i) { for (auto& b : i.bounds) b = point(any(free, 2, true)); };
      int nout = r.chance(1, 4) ? 2 : 1;
      int kind = r.below(6);
      if (kind >= 3) nout = 1;
      std::vector<func::output> outs;
      for (int o = 0; o < nout; ++o) {
        std::vector<var> od = ds;
        if (o && r.chance(1, 2) && !od.empty()) od.pop_back();
        outs.push_back({make("b" + num(next++), od.size(), false), od});
      }
      if (kind < 3) {
        std::vector<func::input> ins;
        for (int i = 0; i < nin; ++i) ins.push_back(in(prefer()));
        call_stmt::attributes at;
        if (r.chance(1, 3)) at.name = "f" + num(f);
        if (r.chance(1, 3)) at.allow_in_place = r.range(1, 7);
        funcs.emplace_back([](const call_stmt*, eval_context&) -> index_t { return 0; }, ins, outs, std::vector<expr>{}, at);
      } else if (kind == 3) {   // a copy, maybe with a crop of its input
        func::input i = in(prefer());
        points(i);
        if (r.chance(1, 2)) {
          i.input_crop.resize(r.range(0, i.bounds.size()));
          for (auto& c : i.input_crop) if (r.chance(2, 3)) c = interval({});
        }
        if (r.chance(1, 2)) {
          funcs.push_back(func::make_copy(i, outs[0]));
        } else {
          func::input pad = in(prefer());
          points(pad);
          funcs.push_back(func::make_copy(i, outs[0], pad));
        }
      } else {   // a copy of several inputs with crops and slices of the output
        std::vector<func::input> ins;
        for (int i = 0; i < nin; ++i) {
          ins.push_back(in(prefer()));
          points(ins.back());
          if (r.chance(1, 2)) {
            ins.back().output_crop.resize(r.range(0, ds.size()));
            for (auto& c : ins.back().output_crop) if (r.chance(2, 3)) c = interval({});
          } else if (r.chance(1, 2)) {
            ins.back().output_slice.resize(r.range(0, ds.size()));
            for (auto& c : ins.back().output_slice) if (r.chance(2, 3)) c = expr(r.range(-3, 9));
          }
          if (r.chance(1, 4)) {
            ins.back().input_crop.resize(ins.back().bounds.size());
            for (auto& c : ins.back().input_crop) if (r.chance(2, 3)) c = interval({});
          }
        }
        funcs.push_back(func::make_copy(ins, outs[0]));
      }
      if (r.chance(1, 2)) {
        std::vector<func::loop_info> ls;
        for (auto& d : ds) if (r.chance(1, 2)) {
          expr step = r.chance(2, 3) || args.empty() ? expr(r.range(1, 8)) : expr(args[0]);
          expr workers = r.chance(1, 2) ? expr(loop::serial) : r.chance(1, 2) ? expr(loop::parallel)
                         : r.chance(1, 2) || args.empty() ? expr(r.range(1, 5)) : expr(args[0]) + 1;
          ls.push_back(func::loop_info(d, step, workers));
        }
        funcs.back().loops(ls);
      }
      for (auto& o : outs) { bufs.push_back(o.buffer); used.push_back(0); }
    }
    // Locations: a loop of a later function, or the root.
    for (size_t f = 0; f < funcs.size(); ++f) {
      if (r.chance(1, 3)) funcs[f].compute_root();
      else if (r.chance(1, 2)) {
        size_t g = r.range(f, funcs.size() - 1);
        if (g > f && !funcs[g].loops().empty()) {
          funcs[f].compute_at(loop_id{&funcs[g], funcs[g].loops()[r.below(funcs[g].loops().size())].var});
        }
      }
    }
    for (size_t b = 0; b < bufs.size(); ++b) if (bufs[b]->producer() && (!used[b] || r.chance(1, 6))) outputs.push_back(bufs[b]);
    build_options o;
    o.no_checks = r.chance(1, 4);
    o.no_alias_buffers = r.chance(1, 4);
    graph_dumper d(ctx);
    orig = d.graph(args, inputs, outputs, lets, o);
    text = define_replica_pipeline(ctx, args, inputs, outputs, lets, o, "p" + num(index));
  }
};

int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int n = atoi(argv[2]);
  std::ofstream nd(argv[3]), cc(argv[4]);
  int only = argc > 5 ? atoi(argv[5]) : -1;
  cc << "#include \"replica_dump.h\"\n#define build_pipeline captured_build_pipeline\nnamespace slinky {\n";
  for (int i = 0; i < n; ++i) {
    if (only >= 0 && i != only) continue;
    gen g(seed * 1000003 + i);
    g.run(i);
    std::string again;
    nd << "{\"k\":\"graph\",\"i\":" << i << ",\"g\":" << g.orig << "}\n";
    cc << "#line 1 \"replica" << i << "\"\nvoid r" << i << "() {\n" << g.text << "p" << i << "();\n}\n";
  }
  cc << "}\n#line 1 \"main\"\nint main(int argc, char** argv) {\n  std::ofstream out(argv[1]);\n";
  for (int i = 0; i < n; ++i) {
    if (only >= 0 && i != only) continue;
    cc << "  slinky::r" << i << "(); out << \"{\\\"k\\\":\\\"replica\\\",\\\"i\\\":" << i << ",\\\"g\\\":\" << vf::captured() << \"}\\n\";\n";
  }
  cc << "}\n";
  return 0;
}
