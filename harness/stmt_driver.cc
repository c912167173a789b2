// Random statements evaluated by the library; what happens is recorded for spec/StmtCheck.tla.
// stmt_driver MODE SEED N OUT, MODE: run (statements), expr (expressions).
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>

#include "gen_stmt.h"
#include "stmt_ast.h"
#include "slinky/base/thread_pool.h"
#include "slinky/runtime/buffer.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"

#include "stmt_run.h"

using namespace slinky;
using namespace vf;

static void one_run(rng& r) {
  stmt_world w(r);
  stmt_gen g(r);
  g.target = w.target();
  w.make_inputs(g);
  g.budget = r.range(4, 16);
  stmt s = g.body(w.top, r.range(2, 5));
  stmt_dumper d;
  for (size_t i = 0; i < w.consts.size(); ++i) d.consts[&*w.consts[i]] = i + 1;
  d.s(s);
  if (!d.ok) return;
  w.choose(g.next_call);
  w.find_decls(s);
  w.evaluate_and_record(s, d.out, true);
}

static void one_expr(rng& r) {
  stmt_world w(r);
  stmt_gen g(r);
  g.target = w.target();
  w.make_inputs(g);
  std::vector<int> calls;
  auto fn = [&](const call* c, eval_context& ctx) -> index_t {
    index_t v = evaluate(c->args[1], ctx);
    calls.push_back(*as_constant(c->args[0]));
    return *as_constant(c->args[0]) + v;
  };
  expr e;
  for (;;) {
    g.leaves(w.top);
    int n = r.below(5);
    for (int i = 0; i < n; ++i) g.g.extra.push_back(call::make(fn, {expr(i + 1), r.chance(1, 2) ? expr(var(r.below(4))) : expr(r.range(-3, 3))}));
    e = r.chance(1, 3) ? g.g.gen_cond(3) : g.g.gen(r.range(1, 4));
    if (dump(e).size() < 3000 && small_with_calls(e)) break;
  }
  std::string ej = dump(e);
  w.progress("\"k\":\"expr\",\"e\":" + ej);
  index_t v = evaluate(e, w.ctx);
  std::string s = "{\"k\":\"expr\"," + w.inputs_json() + ",\"e\":" + ej + ",\"value\":" + num(v) + ",\"calls\":[";
  for (size_t i = 0; i < calls.size(); ++i) s += (i ? "," : "") + num(calls[i]);
  put(s + "]}");
  counts["expressions"]++;
  counts["function_calls"] += calls.size();
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int n = atoi(argv[3]);
  open_out(argv[4]);
  for (int i = 0; i < n; ++i) {
    rng r(seed * 1000003 + i);
    idx = i;
    alarm(20);
    if (mode == "run") one_run(r);
    else one_expr(r);
  }
  close_out();
  return 0;
}
