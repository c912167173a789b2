// Random statements, transformed by the library and then evaluated by it: what happens is recorded together with the
// statement as it was before, for spec/StmtCheck.tla.
// trans_driver MODE SEED N OUT
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>

#include "gen_stmt.h"
#include "stmt_ast.h"
#include "slinky/base/thread_pool.h"
#include "slinky/builder/node_mutator.h"
#include "slinky/builder/optimizations.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/depends_on.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

#include "stmt_run.h"

using namespace slinky;
using namespace vf;

static bool verbose = false;

// The variables declared anywhere.
struct declared_vars : recursive_node_visitor {
  std::set<size_t> found;
  void visit(const let* o) override { for (auto& i : o->lets) found.insert(i.first.id); recursive_node_visitor::visit(o); }
  void visit(const let_stmt* o) override { for (auto& i : o->lets) found.insert(i.first.id); recursive_node_visitor::visit(o); }
  void visit(const loop* o) override { found.insert(o->sym.id); recursive_node_visitor::visit(o); }
  void visit(const call_stmt* o) override { for (auto& i : o->scalars) i.accept(this); }
  using recursive_node_visitor::visit;
};

// The same declaration with another body.
static stmt other_body(const stmt& s, const stmt& body) {
  if (auto o = s.as<let_stmt>()) return let_stmt::make(o->lets, body);
  if (auto o = s.as<allocate>()) return clone_with(o, body);
  if (auto o = s.as<make_buffer>()) return clone_with(o, body);
  if (auto o = s.as<clone_buffer>()) return clone_with(o, body);
  if (auto o = s.as<crop_buffer>()) return clone_with(o, body);
  if (auto o = s.as<crop_dim>()) return clone_with(o, body);
  if (auto o = s.as<slice_buffer>()) return clone_with(o, body);
  if (auto o = s.as<slice_dim>()) return clone_with(o, body);
  if (auto o = s.as<transpose>()) return clone_with(o, body);
  return stmt();
}

static void one(const std::string& mode, rng& r) {
  stmt_world w(r);
  stmt_gen g(r);
  g.target = w.target();
  bool shadow = mode == "deshadow" || mode == "symbols" || mode == "canon" || mode == "all" || mode == "free" || mode == "subst" || mode == "depends";
  g.shadow = shadow && r.chance(2, 3);
  g.closures = false;  // only optimize_symbols makes closures
  g.constants = false;
  g.tasks = mode != "free" && mode != "symbols" && mode != "all";
  w.folded = false;
  g.new_dims = false;
  g.last_uses = true;
  g.repeats = mode == "simp" || mode == "all" || mode == "fuse";
  g.simplifiable = mode == "simp" || mode == "all";
  g.fresh_allocs = mode == "all";
  g.sibling = [](const stmt& s, const stmt& body) { return other_body(s, body); };
  w.make_inputs(g);
  g.budget = mode == "depends" ? r.range(1, 5) : r.range(4, 12);
  stmt s = g.body(w.top, r.range(2, 4));
  stmt_dumper d;
  d.s(s);
  if (!d.ok) return;
  w.choose(g.next_call);
  w.fail_alloc = -1;
  w.progress("\"mode\":\"" + mode + "\",\"s\":" + d.out);
  node_context nc;
  for (int i = 0; i < 400; ++i) nc.insert("s" + num(i));
  std::vector<var> ext;
  for (int i = 0; i < 4; ++i) ext.push_back(var(i));
  for (int i = 0; i < 3; ++i) ext.push_back(var(40 + i));
  stmt t = s;
  std::string more = ",\"mode\":\"" + mode + "\"";
  std::vector<index_t> vals = w.vals;
  if (mode == "simp") t = simplify(s);
  else if (mode == "deshadow") t = deshadow(s, ext, nc);
  else if (mode == "symbols") t = optimize_symbols(deshadow(s, ext, nc), nc);
  else if (mode == "canon") t = canonicalize_nodes(s);
  else if (mode == "free") t = insert_early_free(s);
  else if (mode == "fuse") t = fuse_siblings(s);
  else if (mode == "all") {
    t = deshadow(t, ext, nc);
    if (verbose) std::cerr << t << "\n--1--\n";
    t = simplify(t);
    t = cleanup_semaphores(t);
    t = fuse_siblings(t);
    t = simplify(t);
    t = insert_early_free(t);
    if (verbose) std::cerr << t << "\n";
    t = optimize_symbols(t, nc);
    t = canonicalize_nodes(t);
  } else if (mode == "subst") {
    var x(r.below(4));
    // Substitution stops where a symbol of the replacement is declared (see KNOWN_FINDINGS.jsonl).
    declared_vars dv;
    s.accept(&dv);
    std::vector<var> free;
    for (int i = 0; i < 4; ++i) if (!dv.found.count(i)) free.push_back(var(i));
    expr e = r.range(-5, 5);
    if (!free.empty() && r.chance(2, 3)) {
      e = free[r.below(free.size())];
      if (r.chance(1, 2)) e = e + expr(r.range(-3, 3));
    }
    if (dv.found.count(x.id)) counts["redeclared"]++;
    t = substitute(s, x, e);
    vals[x.id] = evaluate(e, w.ctx);
    more += ",\"x\":" + num(x.id) + ",\"e\":" + dump(e);
  } else if (mode == "depends") {
    // One of the symbols it does not depend on gets another value (or becomes another buffer).
    std::vector<var> ind;
    for (var i : {var(0), var(1), var(2), var(3), var(40), var(41), var(42)})
      if (!depends_on(s, i).any()) ind.push_back(i);
    if (!ind.empty()) {
      var x = ind[r.below(ind.size())];
      more += ",\"x\":" + num(x.id);
      if (x.id < 4) w.ctx[x] = r.range(-9, 60);
      else w.ctx[x] = w.ctx[var(x.id == 42 ? 40 : x.id + 1)];
      counts["independent"]++;
    }
  }
  if (!t.defined()) t = check::make(expr(1));  // nothing happens
  if (t.same_as(s)) counts["unchanged"]++;
  if (verbose) std::cerr << s << "\n-->\n" << t << "\n";
  std::stringstream text;
  text << t;
  std::string q;
  for (char c : text.str()) q += c == '\n' ? std::string("\\n") : c == '"' || c == '\\' ? std::string("'") : c == '\t' ? std::string(" ") : std::string(1, c);
  more += ",\"t\":\"" + q.substr(0, 6000) + "\"";
  w.find_decls(s);
  w.evaluate_and_record(t, d.out, false, more, &vals);
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  open_out(argv[4]);
  int only = argc > 5 ? atoi(argv[5]) : -1;
  verbose = only >= 0;
  for (int i = 0; i < n; ++i) {
    if (only >= 0 && i != only) continue;
    rng r(seed * 1000003 + i);
    idx = i;
    alarm(20);
    one(mode, r);
  }
  close_out();
  return 0;
}
