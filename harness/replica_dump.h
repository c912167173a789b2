// Records the arguments of build_pipeline() as a graph, in JSON: what a pipeline is defined by, before it is built.
// Included by the driver which makes the original graphs, and by the source file generated from them.
#ifndef VERIF_REPLICA_DUMP_H
#define VERIF_REPLICA_DUMP_H
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include "slinky/builder/pipeline.h"
#include "slinky/builder/replica_pipeline.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/pipeline.h"
#include "slinky/runtime/print.h"
#include "ast.h"

namespace vf {
using namespace slinky;

struct graph_dumper : ast_dumper {
  node_context& ctx;
  std::vector<buffer_expr_ptr> bufs;
  std::vector<const func*> funcs;
  explicit graph_dumper(node_context& ctx) : ctx(ctx) {}

  std::string v(var x) override { return x.defined() ? "\"" + ctx.name(x) + "\"" : std::string("\"\""); }
  std::string ex(const expr& x) { out.clear(); e(x); return out; }
  std::string iv(const interval_expr& i) { std::string a = ex(i.min), b = ex(i.max); return "[" + a + "," + b + "]"; }
  template <typename T, typename F> static std::string list(const T& t, F f) {
    std::string r = "[";
    bool first = true;
    for (auto& i : t) { if (!first) r += ","; first = false; r += f(i); }
    return r + "]";
  }
  std::string box(const box_expr& b) { return list(b, [&](auto& i) { return iv(i); }); }
  std::string vars(const std::vector<var>& b) { return list(b, [&](auto& i) { return v(i); }); }
  static std::string flag(bool b) { return b ? "true" : "false"; }

  void reach(const buffer_expr_ptr& b) {
    for (auto& i : bufs) if (i == b) return;
    bufs.push_back(b);
    if (b->producer()) reach(b->producer());
  }
  void reach(const func* f) {
    for (auto& i : funcs) if (i == f) return;
    funcs.push_back(f);
    for (auto& i : f->outputs()) reach(i.buffer);
    for (auto& i : f->inputs()) reach(i.buffer);
  }
  // A function is named by its first output.
  std::string name(const func* f) { return f ? v(f->outputs()[0].sym()) : std::string("\"\""); }

  std::string graph(const std::vector<var>& args, const std::vector<buffer_expr_ptr>& inputs,
      const std::vector<buffer_expr_ptr>& outputs, const std::vector<std::pair<var, expr>>& lets, const build_options& o) {
    for (auto& i : inputs) reach(i);
    for (auto& i : outputs) reach(i);
    auto names = [&](auto& b) { return list(b, [&](auto& i) { return v(i->sym()); }); };
    std::string r = "{\"args\":" + vars(args) + ",\"inputs\":" + names(inputs) + ",\"outputs\":" + names(outputs);
    r += ",\"lets\":" + list(lets, [&](auto& l) { return "[" + v(l.first) + "," + ex(l.second) + "]"; });
    r += ",\"options\":[" + flag(o.no_checks) + "," + flag(o.no_alias_buffers) + "]";
    r += ",\"bufs\":{";
    bool first = true;
    for (auto& b : bufs) {
      if (!first) r += ",";
      first = false;
      r += v(b->sym()) + ":{\"es\":" + ex(b->elem_size()) + ",\"dims\":" + list(b->dims(), [&](auto& d) {
        std::string s = ex(d.bounds.min); s += "," + ex(d.bounds.max); s += "," + ex(d.stride); s += "," + ex(d.fold_factor);
        return "[" + s + "]";
      });
      r += ",\"producer\":" + name(b->producer()) + ",\"const\":";
      std::string c;
      if (auto k = b->constant()) {
        c = num(k->elem_size);
        for (size_t d = 0; d < k->rank; ++d) {
          const slinky::dim& q = k->dim(d);
          c += ",[" + num(q.min()) + "," + num(q.max()) + "," + num(q.stride()) + "," + num(q.fold_factor() == slinky::dim::unfolded ? -1 : q.fold_factor()) + "]";
        }
      }
      r += "[" + c + "]}";
    }
    r += "},\"funcs\":{";
    first = true;
    for (auto& f : funcs) {
      if (!first) r += ",";
      first = false;
      r += name(f) + ":{\"call\":" + flag(f->defined()) + ",\"padded\":" + flag(f->is_padded_copy());
      r += ",\"inputs\":" + list(f->inputs(), [&](auto& i) {
        std::string s = v(i.sym()); s += "," + box(i.bounds); s += "," + box(i.input_crop); s += "," + box(i.output_crop);
        s += "," + list(i.output_slice, [&](auto& q) { return ex(q); });
        return "[" + s + "]";
      });
      r += ",\"outputs\":" + list(f->outputs(), [&](auto& i) { return "[" + v(i.sym()) + "," + vars(i.dims) + "]"; });
      r += ",\"loops\":" + list(f->loops(), [&](auto& l) {
        std::string s = v(l.var); s += "," + ex(l.step); s += "," + ex(l.max_workers);
        return "[" + s + "]";
      });
      r += ",\"at\":[";
      if (f->compute_at()) r += name(f->compute_at()->func) + "," + v(f->compute_at()->var);
      r += "],\"attrs\":[" + num(f->attrs().allow_in_place) + ",\"" + f->attrs().name + "\"]}";
    }
    return r + "}}";
  }
};

inline std::string& captured() { static std::string s; return s; }
}  // namespace vf

namespace slinky {
inline pipeline captured_build_pipeline(node_context& ctx, const std::vector<var>& args, const std::vector<buffer_expr_ptr>& inputs,
    const std::vector<buffer_expr_ptr>& outputs, std::vector<std::pair<var, expr>> lets = {},
    const build_options& options = build_options()) {
  vf::graph_dumper d(ctx);
  vf::captured() = d.graph(args, inputs, outputs, lets, options);
  return pipeline();
}
}  // namespace slinky
#endif
