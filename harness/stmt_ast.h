// Dumps statements in the form spec/Stmt.tla interprets. Calls are identified by the number in attrs.name ("k12").
#ifndef VERIF_STMT_AST_H
#define VERIF_STMT_AST_H
#include <map>
#include "ast.h"

namespace vf {

struct stmt_dumper : ast_dumper {
  std::map<const raw_buffer*, int> consts;  // constant buffers, numbered from 1
  void sym(var x) { out += v(x); }
  bool exact = false;  // everything that distinguishes statements, even where it does not change what they do
  void iv(const interval_expr& b) { out += "["; e(b.min); out += ","; e(b.max); out += "]"; }
  void dims(const std::vector<dim_expr>& ds) {
    out += "[";
    for (size_t i = 0; i < ds.size(); ++i) {
      out += i ? ",[" : "[";
      e(ds[i].bounds.min); out += ","; e(ds[i].bounds.max); out += ","; e(ds[i].stride); out += ","; e(ds[i].fold_factor);
      out += "]";
    }
    out += "]";
  }
  void s(const stmt& x) {
    if (!x.defined()) { out += "[\"block\",[]]"; return; }
    switch (x.type()) {
    case stmt_node_type::call_stmt: {
      auto* o = x.as<call_stmt>();
      out += "[\"call\"," + num(atoi(o->attrs.name.c_str() + 1)) + ",[";
      bool first = true;
      for (auto* l : {&o->inputs, &o->outputs})
        for (var i : *l) { if (!first) out += ","; first = false; sym(i); }
      out += "],[";
      for (size_t i = 0; i < o->scalars.size(); ++i) { if (i) out += ","; e(o->scalars[i]); }
      out += "]," + num(o->inputs.size()) + "]";
      return;
    }
    case stmt_node_type::let_stmt: {
      auto* o = x.as<let_stmt>();
      out += "[\"let\",[";
      for (size_t i = 0; i < o->lets.size(); ++i) {
        if (i) out += ",";
        out += "[" + v(o->lets[i].first) + ","; e(o->lets[i].second); out += "]";
      }
      out += "],"; s(o->body); out += exact && o->is_closure ? ",1]" : "]";
      return;
    }
    case stmt_node_type::block: {
      auto* o = x.as<block>();
      out += "[\"block\",[";
      for (size_t i = 0; i < o->stmts.size(); ++i) { if (i) out += ","; s(o->stmts[i]); }
      out += "]]";
      return;
    }
    case stmt_node_type::loop: {
      auto* o = x.as<loop>();
      out += "[\"loop\"," + v(o->sym) + ",";
      e(o->max_workers); out += ","; e(o->bounds.min); out += ","; e(o->bounds.max); out += ",";
      e(o->step.defined() || exact ? o->step : expr(1)); out += ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::async: {
      auto* o = x.as<async>();
      out += "[\"async\"," + v(o->sym) + ","; s(o->task); out += ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::allocate: {
      auto* o = x.as<allocate>();
      static const char* st[] = {"auto", "stack", "heap"};
      out += "[\"alloc\"," + v(o->sym) + ",\"" + st[(int)o->storage] + "\","; e(o->elem_size); out += ",";
      dims(o->dims); out += ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::make_buffer: {
      auto* o = x.as<make_buffer>();
      out += "[\"make\"," + v(o->sym) + ","; e(o->base); out += ","; e(o->elem_size); out += ","; dims(o->dims);
      out += ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::constant_buffer: {
      auto* o = x.as<constant_buffer>();
      out += "[\"const\"," + v(o->sym) + "," + num(consts[&*o->value]) + ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::clone_buffer: {
      auto* o = x.as<clone_buffer>();
      out += "[\"clone\"," + v(o->sym) + "," + v(o->src) + ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::crop_buffer: {
      auto* o = x.as<crop_buffer>();
      out += "[\"cropb\"," + v(o->sym) + "," + v(o->src) + ",[";
      for (size_t i = 0; i < o->bounds.size(); ++i) { if (i) out += ","; iv(o->bounds[i]); }
      out += "],"; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::crop_dim: {
      auto* o = x.as<crop_dim>();
      out += "[\"cropd\"," + v(o->sym) + "," + v(o->src) + "," + num(o->dim) + ","; e(o->bounds.min); out += ",";
      e(o->bounds.max); out += ","; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::slice_buffer: {
      auto* o = x.as<slice_buffer>();
      out += "[\"sliceb\"," + v(o->sym) + "," + v(o->src) + ",[";
      for (size_t i = 0; i < o->at.size(); ++i) { if (i) out += ","; e(o->at[i]); }
      out += "],"; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::slice_dim: {
      auto* o = x.as<slice_dim>();
      out += "[\"sliced\"," + v(o->sym) + "," + v(o->src) + "," + num(o->dim) + ","; e(o->at); out += ",";
      s(o->body); out += "]";
      return;
    }
    case stmt_node_type::transpose: {
      auto* o = x.as<transpose>();
      out += "[\"trans\"," + v(o->sym) + "," + v(o->src) + ",[";
      for (size_t i = 0; i < o->dims.size(); ++i) out += (i ? "," : "") + num(std::min(o->dims[i], 90));
      out += "],"; s(o->body); out += "]";
      return;
    }
    case stmt_node_type::check: {
      out += "[\"check\","; e(x.as<check>()->condition); out += "]";
      return;
    }
    default: out += "[\"?\"]"; ok = false; return;
    }
  }
};

}  // namespace vf
#endif
