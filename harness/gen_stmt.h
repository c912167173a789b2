// Random statements: every kind, nested, with and without shadowing, each with calls that look at what is in scope.
#ifndef VERIF_GEN_STMT_H
#define VERIF_GEN_STMT_H
#include <algorithm>
#include <functional>
#include <set>
#include "ast.h"
#include "gen_expr.h"
#include "slinky/runtime/stmt.h"

namespace vf {

struct stmt_gen {
  rng& r;
  expr_gen g;
  bool shadow = true;    // declarations may redeclare a symbol of an outer scope
  bool constants = true, tasks = true, parallel = true, makes = true, checks = true, short_circuit = true;
  bool closures = true;
  bool new_dims = true;  // transposes may add dimensions, or repeat them
  // No checks that are known to fail (the simplifier refuses them), and all calls depend on all loops (the simplifier
  // runs what does not depend on a loop once, and checks that do not depend on a loop before it).
  bool simplifiable = false;
  bool fresh_allocs = false;  // allocations do not redeclare symbols (deshadow does not rename them); no handles
  int next_loop = 80, next_alloc = 60;
  bool repeats = false;  // views with the bounds of an enclosing view, directly inside of it
  bool last_uses = false;  // allocations may be in scope for longer than they are used
  std::function<stmt(const stmt&, const stmt&)> sibling;  // makes the same declaration again, with another body
  int next_scalar = 4, next_buf = 43, next_handle = 60;
  int next_call = 1, budget = 14, work = 1;
  call_stmt::callable target;
  std::vector<const_raw_buffer_ptr> consts;

  struct buf { int sym; bool arena, own; int rank; };  // own: its object belongs to the innermost task
  struct scope {
    std::vector<int> scalars, loops;
    std::vector<buf> bufs;
    std::vector<int> handles;
    std::vector<interval_expr> last;  // the bounds of the innermost crop
  };
  // Only dimensions that exist are read.
  bool has_dims(const expr& e, const scope& sc) {
    if (!e.defined()) return true;
    struct v : recursive_node_visitor {
      const scope& sc; bool ok = true;
      v(const scope& sc) : sc(sc) {}
      void visit(const variable* o) override {
        bool found = !o->sym.defined() || o->sym.id < 4;
        for (int i : sc.scalars) found = found || i == (int)o->sym.id;
        for (auto& b : sc.bufs)
          if (b.sym == (int)o->sym.id) found = found || o->dim < b.rank;
        ok = ok && found;
      }
      void visit(const let*) override { ok = false; }
      using recursive_node_visitor::visit;
    } x(sc);
    e.accept(&x);
    return x.ok;
  }
  bool repeat(const scope& sc) {
    if (!repeats || sc.last.empty() || !r.chance(1, 2)) return false;
    for (auto& i : sc.last) if (!has_dims(i.min, sc) || !has_dims(i.max, sc)) return false;
    return true;
  }

  stmt_gen(rng& r) : r(r), g(r, 4) { g.lets = true; g.max_const = 6; }

  const buf& a_buf(const scope& sc) { return sc.bufs[r.below(sc.bufs.size())]; }
  expr field(const scope& sc) {
    const buf& b = a_buf(sc);
    if (simplifiable && b.rank == 0) return buffer_elem_size(var(b.sym));
    int d = r.below(b.rank + (!simplifiable && r.chance(1, 8) ? 1 : 0));
    switch (r.below(12)) {
    case 0: return buffer_stride(var(b.sym), d);
    case 1: return buffer_elem_size(var(b.sym));
    case 2: return simplifiable ? buffer_min(var(b.sym), d) : buffer_fold_factor(var(b.sym), d);
    case 3: return buffer_extent(var(b.sym), d);
    case 4: case 5: case 6: case 7: return buffer_min(var(b.sym), d);
    default: return buffer_max(var(b.sym), d);
    }
  }
  void leaves(const scope& sc) {
    g.extra.clear();
    for (int s : sc.scalars) g.extra.push_back(expr(var(s)));
    for (int i = 0; i < 3; ++i) g.extra.push_back(field(sc));
    g.shadow = shadow ? (int)r.below(4) : -1;
    g.let_base = 20;
  }
  // Strides and extents are bounded by 4000.
  bool small(const expr& e, int64_t m) { magnitude x{4000, 1 << 28}; int64_t v = x.get(e); return v >= 0 && v <= m; }
  expr scalar(const scope& sc, int64_t limit = 1 << 20) {
    for (int t = 0;; ++t) {
      leaves(sc);
      if (!shadow) g.lets = false;
      expr e = g.gen(t > 10 ? 0 : r.below(3));
      if (!small(e, 1 << 27)) continue;
      return small(e, limit) ? e : e % expr(23);
    }
  }
  // A coordinate: near the bounds of buffers.
  expr coord(const scope& sc, const buf& b, int d, bool hi) {
    switch (r.below(6)) {
    case 0: return expr(r.range(-4, 8));
    case 1: return scalar(sc, 60);
    case 2: return hi ? buffer_max(var(b.sym), d) - expr(r.range(-1, 3)) : buffer_min(var(b.sym), d) + expr(r.range(-1, 3));
    case 3: return sc.scalars.empty() ? expr(var(r.below(4))) : expr(var(sc.scalars[r.below(sc.scalars.size())])) + expr(r.range(-1, 2));
    case 4: return hi ? max(buffer_min(var(b.sym), d), expr(var(r.below(4)))) : min(buffer_max(var(b.sym), d), expr(var(r.below(4))));
    default: return expr(var(r.below(4))) + expr(r.range(-2, 2));
    }
  }
  interval_expr bounds(const scope& sc, const buf& b, int d) {
    if (simplifiable && r.chance(2, 3)) {
      // Mostly not empty.
      interval_expr i(buffer_min(var(b.sym), d) + expr(r.range(-1, 1)), buffer_max(var(b.sym), d) - expr(r.range(-1, 1)));
      if (r.chance(1, 4)) i.min = r.chance(1, 2) ? expr() : coord(sc, b, d, false);
      else if (r.chance(1, 3)) i.max = r.chance(1, 2) ? expr() : coord(sc, b, d, true);
      else if (r.chance(1, 6)) i = point(r.chance(1, 2) ? i.min : i.max);
      return i;
    }
    if (r.chance(1, 6)) return point(coord(sc, b, d, false));
    interval_expr i(coord(sc, b, d, false), coord(sc, b, d, true));
    if (r.chance(1, 5)) i.min = expr();
    if (r.chance(1, 5)) i.max = expr();
    return i;
  }
  stmt call(const scope& sc, int must = -1) {
    call_stmt::symbol_list in, out_;
    if (must >= 0) in.push_back(var(must));
    std::vector<buf> bs = sc.bufs;
    int n = r.below(3) + 1;
    // prefer the innermost declarations
    for (int i = 0; i < n; ++i) {
      const buf& b = bs[std::max<int64_t>(r.below(bs.size()), r.below(bs.size()))];
      if (b.sym == must) continue;
      (r.chance(2, 3) ? in : out_).push_back(var(b.sym));
    }
    std::vector<expr> scalars;
    for (int s : sc.scalars) if (r.chance(2, 3)) scalars.push_back(expr(var(s)));
    for (int s : sc.loops) scalars.push_back(expr(var(s)));
    for (int i = r.below(2); i >= 0; --i) scalars.push_back(r.chance(1, 2) ? expr(var(r.below(4))) : scalar(sc));
    call_stmt::attributes at;
    at.name = "k" + std::to_string(next_call++);
    return call_stmt::make(target, in, out_, scalars, at);
  }
  void add(std::vector<int>& v, int s) { if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
  int scalar_sym() { return shadow && r.chance(1, 2) ? (int)r.below(8) : next_scalar < 20 ? next_scalar++ : (int)(shadow ? r.below(8) : next_scalar_more++); }
  int next_scalar_more = 100;
  int buf_sym(const scope& sc, int src = -1) {
    if (!shadow) return next_buf++;
    if (src >= 0 && r.chance(2, 5)) return src;
    return 40 + r.below(8);
  }
  void declare(scope& sc, int sym, bool arena, int rank) {
    buf n{sym, arena, true, rank};
    for (auto& b : sc.bufs) if (b.sym == sym) { b = n; return; }
    sc.bufs.push_back(n);
  }
  std::vector<dim_expr> make_dims(const scope& sc, int rank, bool strides) {
    std::vector<dim_expr> ds;
    int64_t stride = 4;
    for (int d = 0; d < rank; ++d) {
      dim_expr x;
      const buf& b = a_buf(sc);
      int bd = r.below(std::max(1, b.rank));
      if (r.chance(1, 3)) {
        x.bounds = interval_expr(buffer_min(var(b.sym), bd), buffer_max(var(b.sym), bd));
        // not more than a few elements
        if (!strides) x.bounds.max = min(x.bounds.max, x.bounds.min + 5);
      } else {
        expr lo = r.chance(1, 2) ? expr(r.range(-3, 3)) : scalar(sc, 60);
        x.bounds = interval_expr(lo, lo + expr(!simplifiable && r.chance(1, 12) ? -1 : r.range(0, 4)));
      }
      if (strides) {
        x.stride = expr(r.chance(1, 8) ? 0 : stride);
        stride *= 6;
      }
      if (r.chance(1, 8)) x.fold_factor = expr(r.range(strides ? 1 : 2, 5));
      ds.push_back(x);
    }
    if (rank && r.chance(1, 10)) ds.back() = {point(expr(0)), expr(0), expr()};
    return ds;
  }
  // The scope of the declaration `one` made last.
  scope inner;
  bool inner_ok = false;
  int inner_must = -1;
  stmt inside(const scope& sc, int depth, int must = -1) {
    bool direct = repeats && must < 0 && depth > 0 && budget > 0 && r.chance(1, 4);
    if (direct) --budget;
    stmt b = direct ? one(sc, depth - 1) : body(sc, depth, must);
    inner = sc;
    inner_ok = true;
    inner_must = must;
    return b;
  }
  stmt body(scope sc, int depth, int must = -1) {
    std::vector<stmt> b;
    if (must >= 0) b.push_back(call(sc, must));
    else if (r.chance(1, 2)) b.push_back(call(sc));
    int n = depth > 0 ? 1 + r.below(2) : 0;
    for (int i = 0; i < n; ++i) {
      if (--budget < 0) break;
      inner_must = -1;
      inner_ok = false;
      b.push_back(one(sc, depth - 1));
      if (sibling && inner_ok && r.chance(1, 3)) {
        scope in = inner;
        stmt other = sibling(b.back(), body(in, 0, inner_must));
        if (other.defined()) b.push_back(other);
      }
    }
    if (r.chance(1, 2) || b.empty()) b.push_back(call(sc));
    return block::make(b);
  }
  stmt one(scope sc, int depth) {
    switch (r.below(20)) {
    case 0: case 1: {
      std::vector<std::pair<var, expr>> lets;
      int n = 1 + r.below(3);
      for (int i = 0; i < n; ++i) {
        expr v = scalar(sc, 60);
        int s = scalar_sym();
        lets.push_back({var(s), v});
        add(sc.scalars, s);
      }
      return let_stmt::make(lets, inside(sc, depth));
    }
    case 2: case 3: case 4: {
      if (work > 12) return call(sc);
      int s = scalar_sym(), n = r.range(0, 3), st = r.pick({1, 1, 1, 2, 3});
      int w0 = work;
      work *= std::max(1, n);
      expr lo = r.chance(1, 2) ? expr(r.range(-3, 3)) : scalar(sc, 60), hi;
      const buf& b = a_buf(sc);
      if (r.chance(1, 4) && b.rank > 0 && (!simplifiable || b.sym < 43)) {
        int d = r.below(b.rank);
        if (simplifiable && n < 1) n = 1;  // it runs such loops at least once
        lo = buffer_min(var(b.sym), d);
        hi = min(buffer_max(var(b.sym), d), lo + expr(n * st));
      } else {
        int extra = n * st + (r.chance(1, 4) ? r.range(-2, 1) : -1);
        if (simplifiable && extra < 0) extra = 0;
        hi = lo + expr(extra);
      }
      expr workers = expr(parallel && r.chance(1, 3) ? r.pick({loop::parallel, 2, 3}) : loop::serial);
      if (parallel && r.chance(1, 12)) workers = select(expr(var(r.below(4))) < 1, expr(1), expr(4));
      if (simplifiable) sc.loops.push_back(s = next_loop++);
      add(sc.scalars, s);
      stmt b0 = body(sc, depth);
      if (closures && !is_one(workers) && r.chance(1, 2)) {
        std::vector<std::pair<var, expr>> lets;
        for (int i = 0; i < 4; ++i) lets.push_back({var(i), expr(var(i))});
        for (int i : sc.scalars) if (i >= 4) lets.push_back({var(i), expr(var(i))});
        for (auto& i : sc.bufs) lets.push_back({var(i.sym), expr(var(i.sym))});
        for (int i : sc.handles) lets.push_back({var(i), expr(var(i))});
        b0 = let_stmt::make(lets, b0, /*is_closure=*/true);
      }
      stmt result = loop::make(var(s), workers, interval_expr(lo, hi), st == 1 && r.chance(1, 2) ? expr() : expr(st), b0);
      work = w0;
      return result;
    }
    case 5: {
      if (!tasks) return call(sc);
      int h = next_handle++;
      scope t = sc;
      for (auto& b : t.bufs) b.own = false;
      stmt task = body(t, depth);
      scope u = t;
      u.handles.push_back(h);
      stmt bd = body(u, depth);
      if (r.chance(1, 2)) bd = block::make({call(u), check::make(call::make(intrinsic::wait_for, {expr(var(h))})), bd});
      bool named = !depends_on_handle(bd, h) && r.chance(1, 4) ? false : true;
      return async::make(named ? var(h) : var(), task, bd);
    }
    case 6: case 7: {
      int s = fresh_allocs ? next_alloc++ : buf_sym(sc);
      int rank = r.below(4);
      std::vector<dim_expr> ds = make_dims(sc, rank, false);
      expr es = expr(r.pick({1, 2, 4}));
      memory_type st = r.pick({memory_type::automatic, memory_type::stack, memory_type::heap});
      declare(sc, s, false, rank);
      stmt bd = inside(sc, depth, s);
      if (last_uses && r.chance(1, 2)) {
        scope out = sc;
        out.bufs.erase(std::find_if(out.bufs.begin(), out.bufs.end(), [&](const buf& b) { return b.sym == s; }));
        bool ok = inner_ok;
        bd = block::make({bd, body(out, depth > 0 ? depth - 1 : 0)});
        inner = sc;
        inner_ok = ok;
        inner_must = s;
      }
      return allocate::make(var(s), st, es, ds, bd);
    }
    case 8: {
      std::vector<buf> bs;
      for (auto& b : sc.bufs) if (b.arena) bs.push_back(b);
      if (bs.empty() || !makes) return call(sc);
      const buf b = bs[r.below(bs.size())];
      int s = buf_sym(sc), rank = r.below(4);
      std::vector<expr> at;
      for (int d = 0; d < b.rank; ++d) at.push_back(r.chance(1, 3) ? expr() : r.chance(2, 3) ? buffer_min(var(b.sym), d) : coord(sc, b, d, false));
      std::vector<dim_expr> ds = make_dims(sc, rank, true);
      declare(sc, s, true, rank);
      return make_buffer::make(var(s), buffer_at(var(b.sym), at), r.chance(1, 2) ? buffer_elem_size(var(b.sym)) : expr(4), ds, inside(sc, depth, s));
    }
    case 9: {
      if (!constants || consts.empty()) return call(sc);
      int s = buf_sym(sc), i = r.below(consts.size());
      declare(sc, s, true, consts[i]->rank);
      for (auto& b : sc.bufs) if (b.sym == s) b.own = false;  // its object is not ours to change
      return constant_buffer::make(var(s), consts[i], body(sc, depth, s));
    }
    case 10: {
      if (!checks || (simplifiable && !sc.loops.empty())) return call(sc);
      leaves(sc);
      expr c = g.gen_cond(1);
      if (!small(c, 1 << 20)) c = expr(var(r.below(4))) < 3;
      return check::make(simplifiable || r.chance(2, 3) ? or_else(c, expr(var(r.below(4))) < expr(30)) : c);
    }
    default: break;
    }
    // Views.
    const buf b = a_buf(sc);
    if (repeats && r.chance(1, 4)) {
      // Two crops with the same bounds, one directly inside of the other.
      const buf b2 = r.chance(1, 2) ? b : a_buf(sc);
      if (b.rank == 0 || b2.rank == 0) return call(sc);
      int s1 = shadow ? 48 : next_buf++, s2 = shadow ? 49 : next_buf++;
      for (auto& i : sc.bufs) if (i.sym == s1 || i.sym == s2) return call(sc);
      std::vector<interval_expr> c1, c2;
      bool one_dim = r.chance(1, 2);
      for (int d = 0; d < b.rank; ++d) {
        expr lo = r.chance(1, 3) ? expr(var(r.below(4))) : expr(r.range(-4, 4));
        c1.push_back(r.chance(1, 4) ? interval_expr() : r.chance(1, 4) ? point(lo) : interval_expr(lo, lo + expr(r.range(1, 6))));
      }
      c2 = c1;
      int d1 = r.below(b.rank), d2 = r.chance(1, 2) && d1 < b2.rank ? d1 : r.below(b2.rank);
      if ((int)c2.size() > b2.rank) c2.resize(b2.rank);
      declare(sc, s1, b.arena, b.rank);
      declare(sc, s2, b2.arena, b2.rank);
      call_stmt::attributes at;
      at.name = "k" + std::to_string(next_call++);
      std::vector<expr> scalars;
      for (int i : sc.loops) scalars.push_back(expr(var(i)));
      std::vector<stmt> in = {call_stmt::make(target, {var(b.sym)}, {var(s1), var(s2)}, scalars, at)};
      if (depth > 0 && r.chance(1, 2)) in.push_back(body(sc, depth - 1));
      inner_ok = false;
      if (one_dim) return crop_dim::make(var(s1), var(b.sym), d1, c1[d1], crop_dim::make(var(s2), var(b2.sym), d2, c1[d1], block::make(in)));
      return crop_buffer::make(var(s1), var(b.sym), c1, crop_buffer::make(var(s2), var(b2.sym), c2, block::make(in)));
    }
    if (simplifiable && b.rank == 0) return call(sc);
    int s = buf_sym(sc, b.sym);
    if (s == b.sym && !b.own) s = 40 + (b.sym - 40 + 1 + r.below(7)) % 8;
    stmt bd;
    auto view = [&](int rank) {
      bool own = s == b.sym;
      (void)own;
      declare(sc, s, b.arena, rank);
      return inside(sc, depth, r.chance(1, 2) ? s : -1);
    };
    switch (r.below(9)) {
    case 0: return clone_buffer::make(var(s), var(b.sym), view(b.rank));
    case 1: case 2: {
      std::vector<interval_expr> bs;
      for (int d = 0; d < b.rank + (!simplifiable && r.chance(1, 8) ? 1 : 0); ++d)
        bs.push_back(r.chance(1, 4) ? interval_expr() : bounds(sc, b, d));
      if (repeat(sc)) for (size_t d = 0; d < bs.size() && d < sc.last.size(); ++d) bs[d] = sc.last[d];
      sc.last = bs;
      return crop_buffer::make(var(s), var(b.sym), bs, view(b.rank));
    }
    case 3: case 4: {
      int d = r.below(b.rank + (!simplifiable && r.chance(1, 8) ? 1 : 0));
      interval_expr bs = bounds(sc, b, d);
      if (repeat(sc)) for (auto& i : sc.last) if (i.min.defined() || i.max.defined()) { bs = i; break; }
      sc.last.assign(d + 1, interval_expr());
      sc.last[d] = bs;
      return crop_dim::make(var(s), var(b.sym), d, bs, view(b.rank));
    }
    case 5: {
      std::vector<expr> at;
      int left = b.rank;
      for (int d = 0; d < b.rank; ++d) {
        if (r.chance(1, 2)) { at.push_back(coord(sc, b, d, false)); --left; }
        else at.push_back(expr());
      }
      return slice_buffer::make(var(s), var(b.sym), at, view(left));
    }
    case 6: {
      int d = r.below(b.rank + (!simplifiable && r.chance(1, 8) ? 1 : 0));
      expr at = coord(sc, b, d, r.chance(1, 2));
      return slice_dim::make(var(s), var(b.sym), d, at, view(std::max(0, b.rank - (d < b.rank))));
    }
    default: {
      if (b.rank && r.chance(1, 2)) {
        // mostly in place: only the rank changes
        int k = r.below(b.rank + 1);
        return transpose::make_truncate(var(s), var(b.sym), k, view(k));
      }
      std::vector<int> ds;
      if (new_dims && r.chance(1, 3)) {
        for (int i = r.below(4); i > 0; --i) ds.push_back(r.chance(1, 5) ? transpose::new_dim : (int)r.below(b.rank + 1));
      } else {
        for (int i = 0; i < b.rank; ++i) ds.push_back(i);
        for (int i = b.rank; i > 1; --i) std::swap(ds[i - 1], ds[r.below(i)]);
        if (!ds.empty() && r.chance(1, 4)) ds.pop_back();
      }
      return transpose::make(var(s), var(b.sym), ds, view(ds.size()));
    }
    }
  }
  static bool depends_on_handle(const stmt& s, int h) {
    struct v : recursive_node_visitor {
      int h; bool found = false;
      void visit(const variable* o) override { if (o->sym.defined() && (int)o->sym.id == h) found = true; }
    } x;
    x.h = h;
    s.accept(&x);
    return x.found;
  }
};

}  // namespace vf
#endif
