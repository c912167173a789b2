From 9029e808dd91ed047d5e2c2cfe41fae1aad87687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 01/62] fix: simplifier could recurse forever when a cancelled
 constant was not used

constant_adder counted a cancellation in one branch of a select (or min/max) even
when the rewritten operand was discarded because the other branch could not absorb
the constant. The enclosing min/max then moved the constant back and forth forever.
---
 slinky/builder/simplify.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..9a49b3c 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -166,12 +166,15 @@ public:
       set_result(T::make(add::make(op->a, c), std::move(b)));
       cancelled--;
     } else {
+      // We aren't using the mutated operands, so nothing was cancelled.
+      cancelled = old_cancelled;
       set_result(expr());
     }
   }
   void visit(const class min* op) override { visit_min_max(op); }
   void visit(const class max* op) override { visit_min_max(op); }
   void visit(const class select* op) override {
+    int old_cancelled = cancelled;
     expr t = mutate(op->true_value);
     if (t.defined()) {
       expr f = mutate(op->false_value);
@@ -180,6 +183,8 @@ public:
         return;
       }
     }
+    // We aren't using the mutated operands, so nothing was cancelled.
+    cancelled = old_cancelled;
     set_result(expr());
   }
 
-- 
2.43.0


From a19c912cb29f120975d703cdb1d41aca44ebad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 02/62] fix: simplifier replaced non-boolean conditions by 1 in
 the branches they select

In select(!c, t, f) with c not a boolean, f was simplified with c replaced by 1, which
is wrong if c is neither 0 nor 1 and f uses its value.
---
 slinky/builder/simplify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 9a49b3c..9985f15 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -677,9 +677,9 @@ public:
         learn_from_less_equal(lt->a, lt->b);
       } else if (const equal* eq = c.as<equal>()) {
         learn_from_equal(eq->a, eq->b);
-      } else if (!as_constant(c) && !as_variable(c)) {
-        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or variable,
-        // which could rewrite the value from any x not zero to 1.
+      } else if (!as_constant(c) && is_boolean(c)) {
+        // We couldn't learn anything, just add the whole expression as a fact, if it is a boolean. If it isn't, this
+        // could rewrite the value from any x not zero to 1.
         facts.push_back({c, expr(true)});
       }
     }
-- 
2.43.0


From deb8c043dc6eb489497069758c3db64143c40999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 03/62] Hook: let the verification harness switch off one
 inference of the simplifier (SLINKY_VERIFY)

---
 slinky/builder/simplify.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 9985f15..a6bcdf5 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -28,6 +28,14 @@
 
 namespace slinky {
 
+#ifdef SLINKY_VERIFY
+// Provided by the verification harness: whether to skip the inference at a site that is known to be unsound, to be able
+// to tell its effects from those of anything else.
+bool verify_skip(const char* site);
+#else
+static constexpr bool verify_skip(const char*) { return false; }
+#endif
+
 namespace {
 
 expr strip_boolean(expr x) {
@@ -625,11 +633,11 @@ public:
     }
 
     void learn_from_less(const expr& a, const expr& b) {
-      if (const class max* r = b.as<class max>()) {
+      if (const class max* r = b.as<class max>(); r && !verify_skip("learn_min_max")) {
         // a < max(x, y) ==> a < x && a < y
         learn_from_less(a, r->a);
         learn_from_less(a, r->b);
-      } else if (const class min* l = a.as<class min>()) {
+      } else if (const class min* l = a.as<class min>(); l && !verify_skip("learn_min_max")) {
         // min(x, y) < b ==> x < b && y < b
         learn_from_less(l->a, b);
         learn_from_less(l->b, b);
@@ -645,11 +653,11 @@ public:
       }
     }
     void learn_from_less_equal(const expr& a, const expr& b) {
-      if (const class max* r = b.as<class max>()) {
+      if (const class max* r = b.as<class max>(); r && !verify_skip("learn_min_max")) {
         // a <= max(x, y) ==> a <= x && a <= y
         learn_from_less_equal(a, r->a);
         learn_from_less_equal(a, r->b);
-      } else if (const class min* l = a.as<class min>()) {
+      } else if (const class min* l = a.as<class min>(); l && !verify_skip("learn_min_max")) {
         // min(x, y) <= b ==> x <= b && y <= b
         learn_from_less_equal(l->a, b);
         learn_from_less_equal(l->b, b);
-- 
2.43.0


From 83f2706765e278031f8c5aac127ca44a366ec00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 04/62] fix: constant bounds of let expressions assumed that
 the body increases with the values

constant_lower_bound and constant_upper_bound replaced the values of a let by their
lower (upper) bounds even where the body decreases with them, e.g. the lower bound of
let x = y%8 in -x was 0.
---
 slinky/builder/simplify.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index a6bcdf5..36eeae0 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2544,6 +2544,20 @@ public:
 
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
+  void visit(const let* op) override {
+    // We don't know whether the body increases or decreases with the values, so we can't replace the values by bounds.
+    expr body = mutate(op->body);
+    if (!body.defined() || as_constant(body)) {
+      set_result(std::move(body));
+    } else if (constant_required) {
+      set_result(expr());
+    } else if (body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(let::make(op->lets, std::move(body)));
+    }
+  }
+
   template <typename T>
   void visit_min_max(const T* op, bool take_constant) {
     expr a = mutate(op->a);
-- 
2.43.0


From 6fcd246faabf2d4a7875b3325d1b42308e7af1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/62] fix: bounds of let expressions could refer to the
 variables of the let

The interval computed for a let expression could contain variables declared by the let,
which are undefined where the interval is used.
---
 slinky/builder/simplify.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 36eeae0..7c91d7b 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1193,6 +1193,22 @@ public:
     }
   }
 
+  // If `x` depends on any of `lets`, wrap `x` in a let that declares them.
+  static void close_over_lets(const std::vector<std::pair<var, expr>>& lets, expr& x) {
+    if (!x.defined()) return;
+    std::vector<std::pair<var, expr>> needed;
+    for (auto it = lets.rbegin(); it != lets.rend(); ++it) {
+      bool used = depends_on(x, it->first).any();
+      for (const auto& i : needed) {
+        used = used || depends_on(i.second, it->first).any();
+      }
+      if (used) needed.push_back(*it);
+    }
+    if (needed.empty()) return;
+    std::reverse(needed.begin(), needed.end());
+    x = let::make(std::move(needed), std::move(x));
+  }
+
   template <typename T>
   void visit_let(const T* op) {
     std::vector<std::pair<var, expr>> lets;
@@ -1232,6 +1248,11 @@ public:
     auto body = mutate(op->body, &body_info);
 
     scoped_values.clear();
+    if (std::is_same<T, let>::value) {
+      // The bounds of the body are used outside this let, so they need to declare any of its variables they refer to.
+      close_over_lets(lets, body_info.bounds.min);
+      close_over_lets(lets, body_info.bounds.max);
+    }
     for (auto it = lets.rbegin(); it != lets.rend();) {
       auto deps = depends_on(body, it->first);
       // Find any deps on this variable in the inner let values.
-- 
2.43.0


From 96c58a1308018a3f8b41638b924d543fb5faf5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 06/62] fix: do not copy to a slice of the dst that is out of
 bounds

A stack whose consumers do not need every slice sliced its dst out of bounds, and called copy with a null dst.
---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 209e2fc..fa3b98f 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1323,6 +1323,8 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         assert(src_buf);
         assert(dst_buf);
         assert(pad_buf);
+        // The dst may have been sliced (e.g. by a stack) where it is out of bounds, there is nothing to copy then.
+        if (!dst_buf->base) return 0;
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-- 
2.43.0


From e03a8eab2b79607bc707d8146d7655a1b54e79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 07/62] fix: do not fold a dimension inside of a loop that
 slides

If an outer loop reuses what its earlier iterations produced, the whole extent of the dimensions traversed by the inner
loops is live, and must not be folded.
---
 slinky/builder/slide_and_fold_storage.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c47b021..ea9d0f0 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -182,6 +182,9 @@ public:
 
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
+
+    // True if iterations of a loop reuse what earlier iterations produced in this dimension, folded or not.
+    bool slid = false;
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
@@ -347,6 +350,7 @@ public:
       for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
         expr fold = (*fold_factors[output])[d].factor;
         expr overlap = (*fold_factors[output])[d].overlap;
+        did_overlapped_fold = did_overlapped_fold || (*fold_factors[output])[d].slid;
         if (!is_finite(fold)) continue;
         // If fold is finite and bounds don't overlap the fold and overlap
         // will be set to the same expr.
@@ -386,10 +390,13 @@ public:
       interval_expr overlap = prev_bounds_d & cur_bounds_d;
       if (prove_true(overlap.empty(), expr_bounds, expr_alignment)) {
         // The bounds of each loop iteration do not overlap. We can't re-use work between loop iterations, but we
-        // can fold the storage.
-        expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
-        if (fold_factor.defined()) {
-          vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
+        // can fold the storage. If we slide in an outer loop, the whole extent of this dimension must be kept for the
+        // next iteration of that loop.
+        if (!did_overlapped_fold) {
+          expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
+          if (fold_factor.defined()) {
+            vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
+          }
         }
         continue;
       }
@@ -433,6 +440,7 @@ public:
           // effectively not slide while running before the original loop min.
           (*bounds)[d].min = select(loop_var <= loop.orig_min, old_min, new_min);
         }
+        if (fold_factors[output]) vector_at(fold_factors[output], d).slid = true;
 
         // This loop has a dependency between loop iterations, mark it as not data parallel.
         loop.data_parallel = false;
@@ -459,7 +467,9 @@ public:
             }
             if (!is_correct_fold) {
               // We found a consumer of a buffer outside the loop it was folded in, remove the folding.
+              bool slid = i.slid;
               i = dim_fold_info();
+              i.slid = slid;
             }
           }
         }
-- 
2.43.0


From 22db6c68132acbf96a7e6d8d4d73c0bde73d016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 08/62] fix: a copy from a null src with padding is all padding

If a padded copy slices the src (because the index is not linear), the src may be sliced out of bounds.
---
 slinky/runtime/buffer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 872279d..f3bd9bc 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -425,6 +425,12 @@ SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst
   assert(dst.elem_size == src.elem_size);
   assert(dst.base || dst.elem_count() == 0);
 
+  if (!src.base && pad.base) {
+    // The src is empty, or was sliced out of bounds, so everything is padding.
+    copy(pad, dst);
+    return;
+  }
+
   // Make (shallow) copies of the buffers, so we can optimize the dimensions.
   raw_buffer dst_opt = dst;
   dst_opt.dims = SLINKY_ALLOCA(dim, dst.rank);
-- 
2.43.0


From 6758c28c366f5c444d1585f22ee8914947d51beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 09/62] fix: sliding over a gap between iterations must not
 extend the required region

If the bounds of the previous iteration are clamped to be empty, its max + 1 may be less than the min required.
---
 slinky/builder/slide_and_fold_storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index ea9d0f0..8459c41 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -409,6 +409,10 @@ public:
         // so we can incrementally compute only the newly required bounds.
         expr old_min = cur_bounds_d.min;
         expr new_min = simplify(prev_bounds_d.max + 1, expr_bounds, expr_alignment);
+        if (!prove_true(old_min <= new_min, expr_bounds, expr_alignment)) {
+          // There may be a gap between iterations (e.g. if the previous iteration was clamped to be empty).
+          new_min = simplify(max(old_min, new_min), expr_bounds, expr_alignment);
+        }
 
         if (!did_overlapped_fold) {
           expr fold_factor =
-- 
2.43.0


From 702ae1000b7b7072cae81ae7f942d5717f592fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 10/62] fix: copies with a dimension of the src indexed by
 several dimensions of the dst

If one of those dimensions is a loop, the copy used the min of that dimension instead of the loop variable.
---
 slinky/builder/optimizations.cc | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index fa3b98f..cd22940 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -99,7 +99,7 @@ bool is_linear(const expr& y, var x, expr& a, expr& b) {
 }
 
 // Checks if the copy operands `src_x` and `dst_x[dst_d]` represent a simple copy that can be handled by slinky::copy.
-// dst_x dimensions other than `dst_d` are assumed to be handled by a different `is_copy` call.
+// dst_x dimensions other than `dst_d` are assumed to be handled by a different `is_copy` call, unless they are undefined.
 bool is_copy(var src, expr src_x, int src_d, var dst, span<const var> dst_x, int dst_d, expr& at, dim_expr& src_dim) {
   if (const class select* s = src_x.as<class select>()) {
     // The src is a select of two things that might both be copies.
@@ -126,7 +126,7 @@ bool is_copy(var src, expr src_x, int src_d, var dst, span<const var> dst_x, int
   } else {
     // If a src_x depends on multiple dst_x, only consider this dst dim for now.
     for (int i = 0; i < static_cast<int>(dst_x.size()); ++i) {
-      if (i != dst_d) {
+      if (i != dst_d && dst_x[i].defined()) {
         src_x = substitute(src_x, dst_x[i], buffer_min(dst, i));
       }
     }
@@ -165,10 +165,10 @@ bool is_copy(var src, expr src_x, int src_d, var dst, span<const var> dst_x, int
   }
 }
 
-bool is_copy(const copy_stmt* op, int src_d, int dst_d, expr& at, dim_expr& src_dim) {
+bool is_copy(const copy_stmt* op, span<const var> dst_x, int src_d, int dst_d, expr& at, dim_expr& src_dim) {
   // We might not have an src dim if we're trying to broadcast.
   expr src_x = src_d != transpose::new_dim ? op->src_x[src_d] : expr();
-  return is_copy(op->src, src_x, src_d, op->dst, op->dst_x, dst_d, at, src_dim);
+  return is_copy(op->src, src_x, src_d, op->dst, dst_x, dst_d, at, src_dim);
 }
 
 // `dst_d` may be a copy dim of `op` if it is used by exactly one src dim, where it might be a copy, or zero src dims,
@@ -725,7 +725,7 @@ public:
 
       dim_expr src_dim;
       expr at;
-      if (!is_copy(op, src_d, dst_d, at, src_dim)) {
+      if (!is_copy(op, op->dst_x, src_d, dst_d, at, src_dim)) {
         return;
       }
 
@@ -1334,6 +1334,23 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   std::vector<var> dst_x = op->dst_x;
   std::vector<dim_expr> src_dims;
 
+  // Find the dimensions that can't pass through to the copy. We need a loop over these dimensions, so the src_x of other
+  // dimensions may depend on them.
+  std::vector<var> copy_x = op->dst_x;
+  for (bool changed = true; changed;) {
+    changed = false;
+    for (int dst_d = 0; dst_d < static_cast<int>(copy_x.size()); ++dst_d) {
+      if (!copy_x[dst_d].defined()) continue;
+      int src_d;
+      dim_expr src_dim;
+      expr at;
+      if (!is_copy_dst_dim(op, dst_d, src_d) || !is_copy(op, copy_x, src_d, dst_d, at, src_dim)) {
+        copy_x[dst_d] = var();
+        changed = true;
+      }
+    }
+  }
+
   // If we just leave these two arrays alone, the copy will be correct, but slow.
   // We can speed it up by finding dimensions we can let pass through to the copy.
   for (int dst_d = 0; dst_d < static_cast<int>(dst_x.size()); ++dst_d) {
@@ -1344,7 +1361,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
 
     dim_expr src_dim;
     expr at;
-    if (is_copy(op, src_d, dst_d, at, src_dim)) {
+    if (copy_x[dst_d].defined() && is_copy(op, copy_x, src_d, dst_d, at, src_dim)) {
       src_dims.push_back(src_dim);
       if (at.defined()) {
         src_x[src_d] = at;
-- 
2.43.0


From 67395f0d24e9dbab6cd11c0da393cbb690320098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 11/62] fix: slice the padding of a copy along with the dst

---
 slinky/builder/optimizations.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index cd22940..ca4abdc 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1311,6 +1311,8 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
   var dst = ctx.insert_unique(ctx.name(op->dst) + ".sliced");
+  // The padding is indexed by the dimensions of dst, so it needs to be sliced too.
+  var pad = op->pad.defined() ? ctx.insert_unique(ctx.name(op->pad) + ".sliced") : var();
   call_stmt::attributes copy_attrs;
   copy_attrs.name = "copy";
   stmt result = call_stmt::make(
@@ -1328,7 +1330,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-      {}, {op->src, dst, op->pad}, {}, std::move(copy_attrs));
+      {}, {op->src, dst, pad}, {}, std::move(copy_attrs));
 
   std::vector<expr> src_x = op->src_x;
   std::vector<var> dst_x = op->dst_x;
@@ -1382,8 +1384,10 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   for (int d = 0; d < static_cast<index_t>(dst_x.size()); ++d) {
     if (!dst_x[d].defined()) continue;
     result = slice_dim::make(dst, dst, d, dst_x[d], result);
+    if (pad.defined()) result = slice_dim::make(pad, pad, d, dst_x[d], result);
     result = loop::make(dst_x[d], loop::serial, buffer_bounds(dst, d), 1, result);
   }
+  if (pad.defined()) result = clone_buffer::make(pad, op->pad, std::move(result));
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
-- 
2.43.0


From 28ef4feb9f0746e573a7a4aaffc7987da59a3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 12/62] fix: copies from a folded buffer

A copy that passes a folded dimension through must not offset the base, and a copy that translates or scales a dimension
can't be expressed as a buffer with the same fold factor, so the src must not be folded.
---
 slinky/builder/optimizations.cc          |  4 ++++
 slinky/builder/slide_and_fold_storage.cc | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index ca4abdc..ca40acd 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1368,6 +1368,10 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
       if (at.defined()) {
         src_x[src_d] = at;
       }
+      if (src_d != transpose::new_dim && is_variable(op->src_x[src_d], op->dst_x[dst_d])) {
+        // The dimension is unchanged, the base must not be offset in case the src is folded.
+        src_x[src_d] = expr();
+      }
       dst_x[dst_d] = var();
     }
   }
diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 8459c41..a2379b4 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -531,6 +531,24 @@ public:
   void visit(const copy_stmt* op) override {
     set_result(op);
     visit_call_or_copy({&op->src, 1}, {&op->dst, 1});
+
+    // A copy that changes the coordinates of a dimension can't be expressed as a buffer with the same fold factor, so we
+    // can't fold those dimensions of the src.
+    for (std::optional<var> a = op->src; a;) {
+      if (fold_factors[*a]) {
+        for (std::size_t d = 0; d < std::min(op->src_x.size(), fold_factors[*a]->size()); ++d) {
+          if (depends_on(op->src_x[d], op->dst_x).any() && !as_variable(op->src_x[d])) {
+            dim_fold_info& i = (*fold_factors[*a])[d];
+            bool slid = i.slid;
+            i = dim_fold_info();
+            i.slid = slid;
+          }
+        }
+      }
+      std::optional<var> next_a = aliases[*a];
+      if (next_a && *next_a == *a) break;
+      a = next_a;
+    }
   }
 
   // Resolve `bounds` (the merged required region for `sym`) against the currently-tracked buffer
-- 
2.43.0


From 4bccd3c4cbf3dab436e3905063df501b6b738361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 13/62] fix: do not slide when the previous iteration may not
 have computed the rest of the region

If the bounds of several dimensions vary in a loop, or depend on a buffer allocated in the loop, the new part of the
required region is not a crop of one dimension.
---
 slinky/builder/slide_and_fold_storage.cc | 43 ++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index a2379b4..5b624e2 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -1,5 +1,6 @@
 #include "slinky/builder/slide_and_fold_storage.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
@@ -136,6 +137,23 @@ public:
   void visit(const copy_stmt* op) override { found = found || (op->dst == v); }
 };
 
+// Find the buffers allocated in a statement.
+class find_allocations : public recursive_node_visitor {
+public:
+  std::vector<var> found;
+
+  void visit(const allocate* op) override {
+    found.push_back(op->sym);
+    recursive_node_visitor::visit(op);
+  }
+};
+
+std::vector<var> allocations_in(const stmt& body) {
+  find_allocations f;
+  if (body.defined()) body.accept(&f);
+  return std::move(f.found);
+}
+
 bool is_produced_by(var v, const stmt& body) {
   scoped_trace trace("is_produced_by");
   if (!body.defined()) return false;
@@ -209,6 +227,10 @@ public:
     expr max_workers = 0;
     bool data_parallel = true;
 
+    // The buffers allocated in the body of this loop. We don't know how the bounds of these vary from one iteration to
+    // the next.
+    std::vector<var> allocations;
+
     // The next few fields relate to implementing synchronization in pipelined loops. In a pipelined loop, we
     // treat a sequence of stmts as "stages" in the pipeline, where we add synchronization to cause the loop
     // to appear to be executed serially to the stages: a stage can assume the same stage for a previous iteration has
@@ -338,6 +360,10 @@ public:
     return expr();
   }
 
+  static bool depends_on_any(const interval_expr& e, const std::vector<var>& syms) {
+    return std::any_of(syms.begin(), syms.end(), [&](var i) { return depends_on(e, i).any(); });
+  }
+
   void slide_and_fold_buffer(const var& output, const stmt& body) {
     scoped_trace trace("slide_and_fold_buffer");
     // We only want to fold if we are inside of the loop and the cropped buffer
@@ -364,6 +390,12 @@ public:
 
     expr loop_var = variable::make(loop.sym);
 
+    // Find the dimensions with bounds that may vary from one iteration of the loop to the next.
+    std::vector<bool> varies(bounds->size());
+    for (std::size_t d = 0; d < bounds->size(); ++d) {
+      varies[d] = depends_on((*bounds)[d], loop.sym).any() || depends_on_any((*bounds)[d], loop.allocations);
+    }
+
     for (int d = 0; d < static_cast<int>(bounds->size()); ++d) {
       if (fold_factors[output] && (d < static_cast<int>(fold_factors[output]->size()))) {
         expr fold_factor = (*fold_factors[output])[d].factor;
@@ -377,6 +409,10 @@ public:
         // just compute it once.
         continue;
       }
+      if (depends_on_any(cur_bounds_d, loop.allocations)) {
+        // We can't get the bounds of the previous iteration.
+        continue;
+      }
 
       // Some expressions which involve loop bounds are difficult to simplify, so let's try to do that using the latest
       // loop bounds.;
@@ -401,6 +437,12 @@ public:
         continue;
       }
 
+      if (std::count(varies.begin(), varies.end(), true) > 1) {
+        // The newly required region is not a crop of one dimension of what is required, because the previous iteration
+        // may have required a different region of another dimension.
+        continue;
+      }
+
       // Allowing the leading edge to not change means that some calls may ask for empty buffers.
       expr is_monotonic_increasing = prev_bounds_d.min <= cur_bounds_d.min && prev_bounds_d.max <= cur_bounds_d.max;
       expr is_monotonic_decreasing = prev_bounds_d.min >= cur_bounds_d.min && prev_bounds_d.max >= cur_bounds_d.max;
@@ -742,6 +784,7 @@ public:
     substitute_bounds(loop_bounds, buffer_bounds);
 
     loops.emplace_back(ctx, op->sym, loop_counter++, orig_min, loop_bounds, op->step, op->max_workers);
+    loops.back().allocations = allocations_in(op->body);
 
     stmt body;
     {
-- 
2.43.0


From 7948df8edbb04fc6692457b147e92833523677e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 14/62] fix: the iterations added to warm up a sliding window
 must run the producer

If the producer is inside of another loop, that loop may have been empty in the added iterations.
---
 slinky/builder/slide_and_fold_storage.cc | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 5b624e2..bf7886a 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
+#include <functional>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -124,11 +125,16 @@ void substitute_bounds(symbol_map<box_expr>& buffers, var buffer_id, const box_e
 // Check if the given buffer is produced inside of the statement.
 class check_if_produced : public recursive_node_visitor {
   var v;
+  std::function<bool(const loop*)> visit_loop;
 
 public:
-  check_if_produced(var v) : v(v) {}
+  check_if_produced(var v, std::function<bool(const loop*)> visit_loop) : v(v), visit_loop(std::move(visit_loop)) {}
   bool found = false;
 
+  void visit(const loop* op) override {
+    if (!visit_loop || visit_loop(op)) recursive_node_visitor::visit(op);
+  }
+
   void visit(const call_stmt* op) override {
     for (const auto& o : op->outputs) {
       found = found || (o == v);
@@ -154,10 +160,10 @@ std::vector<var> allocations_in(const stmt& body) {
   return std::move(f.found);
 }
 
-bool is_produced_by(var v, const stmt& body) {
+bool is_produced_by(var v, const stmt& body, std::function<bool(const loop*)> visit_loop = nullptr) {
   scoped_trace trace("is_produced_by");
   if (!body.defined()) return false;
-  check_if_produced f(v);
+  check_if_produced f(v, std::move(visit_loop));
   body.accept(&f);
   return f.found;
 }
@@ -476,7 +482,10 @@ public:
         expr new_loop_min = where_true_upper_bound(
             new_min <= old_min_at_loop_min, loop.sym, loop.bounds.min, expr_bounds, expr_alignment);
 
-        if (!is_negative_infinity(new_loop_min)) {
+        // If the producer is in another loop inside this one, it may not run at all in the iterations we'd add to this
+        // loop, unless that loop only has one iteration (and so will not be a loop).
+        if (!is_negative_infinity(new_loop_min) && 
+            is_produced_by(output, body, [this](const class loop* i) { return is_one_iteration(i); })) {
           loop.bounds.min = new_loop_min;
 
           (*bounds)[d].min = new_min;
@@ -772,7 +781,19 @@ public:
         l.semaphores, memory_type::stack, sem_size, std::move(sem_dims), block::make({init_sems, result}));
   }
 
+  // Prove that a loop runs at most once. It's safe to run the body of such a loop even if it is empty.
+  bool is_one_iteration(const loop* op) const {
+    interval_expr loop_bounds = op->bounds;
+    substitute_bounds(loop_bounds, buffer_bounds);
+    return prove_true(loop_bounds.extent() <= op->step, expr_bounds, expr_alignment);
+  }
+
   void visit(const loop* op) override {
+    if (loops.size() > 1 && is_one_iteration(op)) {
+      set_result(mutate(substitute(op->body, op->sym, op->bounds.min)));
+      return;
+    }
+
     var orig_min(ctx, ctx.name(op->sym) + ".min_orig");
 
     interval_expr loop_bounds = op->bounds;
-- 
2.43.0


From 9bd9e340435ae320c3ad31c906f2528eb00f8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 15/62] fix: loops of one iteration may be empty in the
 iterations added to warm up a sliding window

Inlining them before sliding let a buffer slide in the wrong loop. Also forget loops that are not changed.
---
 slinky/builder/slide_and_fold_storage.cc | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index bf7886a..0772b1f 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -212,6 +212,9 @@ public:
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
+  // Loops with at most one iteration, that must run even if they are empty.
+  std::vector<const loop*> always_run;
+
   static std::vector<dim_fold_info> get_dim_fold_info(const std::vector<dim_expr>& dims) {
     std::vector<dim_fold_info> info(dims.size(), dim_fold_info());
     for (std::size_t d = 0; d < dims.size(); ++d) {
@@ -483,10 +486,16 @@ public:
             new_min <= old_min_at_loop_min, loop.sym, loop.bounds.min, expr_bounds, expr_alignment);
 
         // If the producer is in another loop inside this one, it may not run at all in the iterations we'd add to this
-        // loop, unless that loop only has one iteration (and so will not be a loop).
-        if (!is_negative_infinity(new_loop_min) && 
-            is_produced_by(output, body, [this](const class loop* i) { return is_one_iteration(i); })) {
+        // loop, unless that loop only has one iteration (we'll replace it with its body below).
+        std::vector<const class loop*> inner_loops;
+        auto visit_inner_loop = [&](const class loop* i) {
+          if (!is_one_iteration(i)) return false;
+          inner_loops.push_back(i);
+          return true;
+        };
+        if (!is_negative_infinity(new_loop_min) && is_produced_by(output, body, visit_inner_loop)) {
           loop.bounds.min = new_loop_min;
+          always_run.insert(always_run.end(), inner_loops.begin(), inner_loops.end());
 
           (*bounds)[d].min = new_min;
         } else {
@@ -789,11 +798,6 @@ public:
   }
 
   void visit(const loop* op) override {
-    if (loops.size() > 1 && is_one_iteration(op)) {
-      set_result(mutate(substitute(op->body, op->sym, op->bounds.min)));
-      return;
-    }
-
     var orig_min(ctx, ctx.name(op->sym) + ".min_orig");
 
     interval_expr loop_bounds = op->bounds;
@@ -825,15 +829,24 @@ public:
     scoped_trace trace("visit(const loop*)");
 
     loop_bounds.min = loops.back().bounds.min;
-    if (body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) && loop_bounds.max.same_as(op->bounds.max)) {
+    const bool must_run = std::count(always_run.begin(), always_run.end(), op) != 0;
+    if (!must_run && body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) &&
+        loop_bounds.max.same_as(op->bounds.max)) {
       set_result(op);
+      loops.pop_back();
       return;
     }
 
     const loop_info& l = loops.back();
     const int stage_count = l.sync_stages;
     expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
-    stmt result = loop::make(op->sym, max_workers, loop_bounds, op->step, std::move(body));
+    stmt result;
+    if (must_run) {
+      // This loop has at most one iteration, run it even if it is empty.
+      result = let_stmt::make(op->sym, loop_bounds.min, std::move(body));
+    } else {
+      result = loop::make(op->sym, max_workers, loop_bounds, op->step, std::move(body));
+    }
 
     result = resolve_worker_count(l, max_workers, std::move(result));
     result = add_synchronization_buffers(l, stage_count, loop_bounds, op->step, std::move(result));
-- 
2.43.0


From 727dd9b625fcba59cd6de2dbce07efdad71f13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 16/62] fix: do not lift a copy out of a loop before the
 producer of its src

---
 slinky/builder/simplify.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 7c91d7b..d7be6e9 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1490,6 +1490,8 @@ public:
           for (std::size_t j = lifted.size(); j > 0 && j <= lifted.size();) {
             std::set<var> consumed_by_j;
             buffers_accessed_via_aliases(lifted[j - 1].first, /*consumed=*/true, consumed_by_j);
+            // The src of a copy that has been implemented is an output of a call.
+            buffers_accessed_via_aliases(lifted[j - 1].first, /*consumed=*/false, consumed_by_j);
 
             if (empty_intersection(produced_by_i, consumed_by_j)) {
               // This loop invariant is independent of i.
-- 
2.43.0


From 6643fc2f362bf7d47eb4a10083a39dbafe3b9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 17/62] fix: bounds_of could return bounds that depend on the
 variables it bounds over

---
 slinky/builder/simplify_bounds.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/simplify_bounds.cc b/slinky/builder/simplify_bounds.cc
index 8b3ae2b..904b29b 100644
--- a/slinky/builder/simplify_bounds.cc
+++ b/slinky/builder/simplify_bounds.cc
@@ -95,10 +95,14 @@ void tighten_correlated_bounds_min_max(interval_expr& bounds, const expr& a, con
   expr aa_bb = min_a->a - max_b->b;
   expr ab_ba = min_a->b - max_b->a;
 
-  expr bounds_max = simplify(min(min(aa_ba, ab_bb), min(aa_bb, ab_ba)));
-
-  // TODO: This might be blowing expressions up ridiculously... we might only want to do this in `constant_upper_bound`.
-  bounds.max = simplify(static_cast<const class min*>(nullptr), bounds_max, bounds.max);
+  // The operands may depend on the variables we want the bounds over, so only differences that cancel to constants are
+  // bounds.
+  for (const expr& i : {aa_ba, ab_bb, aa_bb, ab_ba}) {
+    expr bounds_max = simplify(i);
+    if (as_constant(bounds_max)) {
+      bounds.max = simplify(static_cast<const class min*>(nullptr), bounds_max, bounds.max);
+    }
+  }
 }
 
 // Some correlated expressions are very hard to simplify, but we can get some bounds for them relatively easily.
-- 
2.43.0


From d529778952452570407beeb08c94d8ddae625ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 18/62] fix: buffer_at of an index 0 in a buffer known not to
 be folded is not its base

---
 slinky/builder/simplify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index d7be6e9..34a0920 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1161,10 +1161,11 @@ public:
         }
         for (int d = 0; d < static_cast<int>(std::min(info->dims.size(), args.size() - 1)); ++d) {
           dim_expr dim = info->dims[d].value();
-          if (!dim.fold_factor.defined() && prove_true(args[d + 1] == dim.bounds.min)) {
+          const bool folded = dim.fold_factor.defined() && !is_constant(dim.fold_factor, dim::unfolded);
+          if (!folded && prove_true(args[d + 1] == dim.bounds.min)) {
             // This argument is equal to the default value, and we know it is in bounds.
             args[d + 1] = expr();
-          } else if (dim.fold_factor.defined() && prove_true(args[d + 1] == 0)) {
+          } else if (folded && prove_true(args[d + 1] == 0)) {
             // This argument is equal to the default value, and we know it is in bounds.
             args[d + 1] = expr();
           } else if (prove_constant_true(dim.is_broadcast())) {
-- 
2.43.0


From a0c1ea718c7117e8e7942bfa9d0df1bfc567988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 19/62] fix: dimensions with fold factors cannot be fused
 because the outer one is a point

---
 slinky/runtime/buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index dd35b07..b35c818 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -763,7 +763,11 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0) return true;
+  if (outer.min() == outer.max() && outer.stride() != 0 && inner.fold_factor() == dim::unfolded &&
+      outer.fold_factor() == dim::unfolded) {
+    // The outer dimension has only one element, at the base.
+    return true;
+  }
 
   index_t next_stride = inner.stride() * (inner.max() - inner.min() + 1);
   if (next_stride != outer.stride()) return false;
-- 
2.43.0


From 6b4be5e17084c279c48ab22dd4589a0b5e64b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 20/62] fix: an alias of a folded buffer must use the base of
 the folded dimension

---
 slinky/builder/optimizations.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index ca40acd..060f7c7 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -542,6 +542,26 @@ public:
           i = substitute_buffer(i, op->sym, op->elem_size, op_dims_bounds);
         }
 
+        // The base of a folded dimension is the address of the element at 0, not the min. We can only alias it if the
+        // alias does not move the elements to different places in the fold.
+        bool fold_aligned = true;
+        std::vector<expr> base_at = alias.at;
+        for (std::size_t d = 0; d < alias.permutation.size(); ++d) {
+          const int target_d = alias.permutation[d];
+          if (target_d < 0 || target_d >= static_cast<int>(alias.at.size())) continue;
+          if (!alias.dims[d].fold_factor.defined()) continue;
+          expr fold_factor = substitute_buffer(alias.dims[d].fold_factor, target_var, target_info->dims);
+          if (!fold_factor.defined() || is_constant(fold_factor, dim::unfolded)) continue;
+          if (!alias.at[target_d].defined()) continue;
+          expr offset = alias.at[target_d] - info.dims[d].bounds.min;
+          if (!prove_true(substitute_buffer(offset, target_var, target_info->dims) % fold_factor == 0)) {
+            fold_aligned = false;
+            break;
+          }
+          base_at[target_d] = expr();
+        }
+        if (!fold_aligned) continue;
+
         var alloc_var = target_var;
         if (!alias.assume_in_bounds) {
           assert(!target_info->is_output);
@@ -599,7 +619,7 @@ public:
           alias_dims[d].bounds = info.dims[d].bounds;
         }
         stmt result =
-            make_buffer::make(sym, buffer_at(alloc_var, alias.at), elem_size, std::move(alias_dims), std::move(body));
+            make_buffer::make(sym, buffer_at(alloc_var, base_at), elem_size, std::move(alias_dims), std::move(body));
         // Wrap with the original buffer in case we want to use the metadata in the construction of the buffer.
         result = make_buffer::make(sym, expr(), elem_size, op->dims, std::move(result));
 
-- 
2.43.0


From 64edd3ae3b691246ab105c54affa1bac843abe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 21/62] fix: the alias of the dst of a copy with a scale
 started at the wrong element

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 060f7c7..a286db0 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -750,7 +750,12 @@ public:
       }
 
       if (at.defined()) {
-        a.at[src_d] = at - src_dim.bounds.min + buffer_min(op->dst, dst_d);
+        // The alias starts at the src element that is copied to the min of the dst.
+        expr src_min = op->src_x[src_d];
+        for (int i = 0; i < static_cast<int>(op->dst_x.size()); ++i) {
+          src_min = substitute(src_min, op->dst_x[i], buffer_min(op->dst, i));
+        }
+        a.at[src_d] = src_min;
       }
 
       if (dst_d >= static_cast<int>(a.dims.size())) {
-- 
2.43.0


From e6d87a7afa91ec4ee69d510a58c1f483dc004beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 22/62] fix: substituting variables skipped the number of
 workers of loops

---
 slinky/builder/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 0a02551..204b1e6 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -489,13 +489,15 @@ void substitutor::visit(const let_stmt* op) { set_result(mutate_let(this, op));
 void substitutor::visit(const loop* op) {
   interval_expr bounds = mutate(op->bounds);
   expr step = mutate(op->step);
+  expr max_workers = mutate(op->max_workers);
   var sym = enter_decl(op->sym);
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
-  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) && body.same_as(op->body)) {
+  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) &&
+      max_workers.same_as(op->max_workers) && body.same_as(op->body)) {
     set_result(op);
   } else {
-    set_result(loop::make(sym, op->max_workers, std::move(bounds), std::move(step), std::move(body)));
+    set_result(loop::make(sym, std::move(max_workers), std::move(bounds), std::move(step), std::move(body)));
   }
   exit_decls();
 }
-- 
2.43.0


From f346ad7b9c2e950d730544e9725e3386aec8a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 23/62] fix: lets that declare a symbol twice did not restore
 its old value

---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..942150d 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -175,7 +175,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Undo the lets in reverse, in case they declare the same symbol more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -406,7 +407,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Undo the lets in reverse, in case they declare the same symbol more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From 4f07916fa53a3164bd95652e3828d8be7ac30566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 24/62] fix: parallel loops with empty bounds could run
 (almost) forever

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 942150d..9c76400 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -452,7 +452,7 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    std::size_t n = bounds.min <= bounds.max ? ceil_div(bounds.max - bounds.min + 1, step) : 0;
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From 65432359f2a3a9764cd62c6fb3c94681c8566942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 25/62] fix: truncating a buffer in place could increase its
 rank

---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 9c76400..4dbba6b 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -867,7 +867,8 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      // Dimensions that are not there are broadcasts.
+      src_buf->rank = std::min(old_rank, op->dims.size());
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 2fc077fdec21791fb69846a657dde49b9248186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 26/62] fix: async did not restore the symbol it declares

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 4dbba6b..29f51c6 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -554,7 +554,7 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
     index_t result = eval_with_new_context(op->body);
 
-- 
2.43.0


From e54f6ddf988615a237f70e445f9b08666fdf7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 27/62] fix: the bounds of a crop could see the dimensions
 already cropped

---
 slinky/runtime/evaluate.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 29f51c6..e9f9c69 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -710,16 +710,17 @@ public:
     std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);
     interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
 
-    void* old_base = buffer->base;
+    // The bounds can depend on any of the dimensions of the buffer we are going to crop, evaluate them all first.
+    interval* bounds = SLINKY_ALLOCA(interval, crop_rank);
     for (std::size_t d = 0; d < crop_rank; ++d) {
-      slinky::dim& dim = buffer->dims[d];
-      index_t old_min = dim.min();
-      index_t old_max = dim.max();
-      old_bounds[d].min = old_min;
-      old_bounds[d].max = old_max;
+      const slinky::dim& dim = buffer->dims[d];
+      old_bounds[d] = {dim.min(), dim.max()};
+      bounds[d] = eval(op->bounds[d], old_bounds[d]);
+    }
 
-      interval bounds = eval(op->bounds[d], {old_min, old_max});
-      buffer->crop(d, bounds.min, bounds.max);
+    void* old_base = buffer->base;
+    for (std::size_t d = 0; d < crop_rank; ++d) {
+      buffer->crop(d, bounds[d].min, bounds[d].max);
     }
 
     index_t result = eval(op->body);
@@ -741,7 +742,7 @@ public:
     internal::copy_small_n(src_buf->dims, src_buf->rank, sym_buf.dims);
     // Dims beyond rank are broadcasts; cropping them is a no-op.
     for (std::size_t d = 0; d < std::min(op->bounds.size(), src_buf->rank); ++d) {
-      const slinky::dim& dim = static_cast<const raw_buffer&>(sym_buf).dims[d];
+      const slinky::dim& dim = src_buf->dims[d];
       interval bounds = eval(op->bounds[d], {dim.min(), dim.max()});
       sym_buf.crop(d, bounds.min, bounds.max);
     }
-- 
2.43.0


From fa02e8d01cbe3938d5ae4c2638b03e327a409a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 28/62] fix: bounds of sums of staircases overflowed for large
 constants

---
 slinky/base/arithmetic.cc | 27 +++++++++++++++++++--------
 slinky/base/arithmetic.h  |  4 +++-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/slinky/base/arithmetic.cc b/slinky/base/arithmetic.cc
index b4063d0..29031ae 100644
--- a/slinky/base/arithmetic.cc
+++ b/slinky/base/arithmetic.cc
@@ -1,11 +1,19 @@
 #include <algorithm>
+#include <cstdint>
+#include <cstdlib>
 #include <limits>
 
 #include "slinky/base/arithmetic.h"
 
 namespace slinky {
 
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2) {
+interval<int> staircase_sum_bounds(
+    std::int64_t a1, std::int64_t b1, std::int64_t c1, std::int64_t a2, std::int64_t b2, std::int64_t c2) {
+  // If the constants are too big, the computations below could overflow.
+  constexpr std::int64_t limit = std::int64_t(1) << 30;
+  for (std::int64_t i : {a1, b1, c1, a2, b2, c2}) {
+    if (i < -limit || i > limit) return {};
+  }
   if (b1 == 0 && b2 == 0) {
     return {0, 0};
   } else if (c1 * b2 != -c2 * b1) {
@@ -17,18 +25,21 @@ interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c
   // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
   // We need to search the period for the min and max.
   // If these constants get so big, we need to revisit this algorithm.
-  if (abs(b1) > 1024 || abs(b2) > 1024) {
+  if (std::abs(b1) > 1024 || std::abs(b2) > 1024) {
     return {};
   }
-  int min = std::numeric_limits<int>::max();
-  int max = std::numeric_limits<int>::min();
-  const int period = lcm(abs(b1), abs(b2));
-  for (int x = 0; x < period; ++x) {
-    const int y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
+  std::int64_t min = std::numeric_limits<std::int64_t>::max();
+  std::int64_t max = std::numeric_limits<std::int64_t>::min();
+  const std::int64_t period = lcm(std::abs(b1), std::abs(b2));
+  for (std::int64_t x = 0; x < period; ++x) {
+    const std::int64_t y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
     min = std::min(min, y);
     max = std::max(max, y);
   }
-  return {min, max};
+  if (min < std::numeric_limits<int>::min() || max > std::numeric_limits<int>::max()) {
+    return {};
+  }
+  return {static_cast<int>(min), static_cast<int>(max)};
 }
 
 }  // namespace slinky
diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index fe9ac1b..7592fc4 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <limits>
 #include <optional>
 #include <utility>
@@ -237,7 +238,8 @@ struct interval {
 
 // Returns the [min, max] interval over all x of ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2
 // Returns std::nullopt if unbounded.
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2);
+interval<int> staircase_sum_bounds(
+    std::int64_t a1, std::int64_t b1, std::int64_t c1, std::int64_t a2, std::int64_t b2, std::int64_t c2);
 
 }  // namespace slinky
 
-- 
2.43.0


From 0080d8183706ee5b3234cdb928e0da65771a8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 29/62] fix: lcm overflowed when the result is representable,
 and divided by 0

---
 slinky/base/arithmetic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index 7592fc4..5c53472 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -204,7 +204,8 @@ T gcd(T a, T b) {
 
 template <typename T>
 T lcm(T a, T b) {
-  return (a * b) / gcd(a, b);
+  // Divide first, the product could overflow even if the result does not.
+  return a == 0 ? 0 : (a / gcd(a, b)) * b;
 }
 
 template <typename T>
-- 
2.43.0


From 626f5c209439824e6395ef705e16bc40ac0a1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 30/62] fix: residue classes that overflow, or that include 0
 although the remainder is not 0

---
 slinky/base/modulus_remainder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..aa95172 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -155,7 +155,9 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  if (a.remainder == 0 && b.remainder == 0 && !mul_overflows(a.modulus / gcd(a.modulus, b.modulus), b.modulus)) {
+    return {lcm(a.modulus, b.modulus), 0};
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
@@ -191,7 +193,7 @@ modulus_remainder<T> operator%(const modulus_remainder<T>& a, const modulus_rema
   modulus = gcd(modulus, b.remainder);
   T remainder = euclidean_mod(a.remainder, modulus, a.remainder);
 
-  if (b.remainder == 0 && remainder != 0) {
+  if (euclidean_mod(b.remainder, b.modulus, b.remainder) == 0 && remainder != 0) {
     // b could be zero, so the result could also just be zero.
     if (modulus == 0) {
       remainder = 0;
-- 
2.43.0


From 86d9f2bfc3d5a9576945f6e6fbbbc9e872fb2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 31/62] fix: constant bounds of conditions assumed a bound of a
 non-boolean operand says whether it is 0

---
 slinky/builder/simplify.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 34a0920..277013b 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2566,6 +2566,9 @@ public:
     return result;
   }
 
+  // Find a bound of the truth value of `x`. If `x` is not boolean, a bound of `x` says nothing about whether it is 0.
+  expr mutate_condition(const expr& x, int sign) { return strip_boolean(mutate(x, is_boolean(x) ? sign : 0)); }
+
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
   void visit(const let* op) override {
@@ -2717,8 +2720,8 @@ public:
 
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_condition(op->a, new_sign);
+    expr b = mutate_condition(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2748,7 +2751,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_condition(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2801,8 +2804,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_condition(op->args[0], new_sign);
+      expr b = mutate_condition(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
-- 
2.43.0


From 537b1a6ddf8d933953f5b31ad32b0ab8b62ae30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 32/62] fix: an allocation that fails without assigning the
 base used whatever the base was

---
 slinky/runtime/evaluate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e9f9c69..6fa7e6e 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -591,6 +591,8 @@ public:
   // Not using SLINKY_NO_STACK_PROTECTOR here because this actually could allocate a lot of memory on the stack.
   index_t eval(const allocate* op) {
     allocated_buffer buffer;
+    // If the allocation fails, `base` might not be assigned.
+    buffer.base = nullptr;
     buffer.elem_size = eval(op->elem_size);
     std::size_t rank = op->dims.size();
     buffer.dims = SLINKY_ALLOCA(dim, rank);
-- 
2.43.0


From 579c74d4e0452ebe9dfa04f9b075cb2848333b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 33/62] fix: a wait for a task was not woken up when another
 wait for the task completed it

---
 slinky/base/thread_pool_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..3e84fbf 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -241,6 +241,11 @@ ref_count<thread_pool::task> thread_pool_impl::enqueue(std::size_t n, task_body
 void thread_pool_impl::wait_for(task* t) {
   task_impl* task = reinterpret_cast<task_impl*>(t);
   bool completed = work_on_task(task);
+  if (completed) {
+    // We completed the loop, notify the helper CV in case another thread is waiting for this loop to complete.
+    std::unique_lock l(mutex_);
+    cv_helper_.notify_all();
+  }
   if (!completed || !task->done()) {
     // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
     // need to lock the mutex.
-- 
2.43.0


From 1c2042be39e473ee1823accb32ccdd713bc2ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 34/62] fix: synchronize every stage of a pipelined loop

With fewer workers than stages, the last stages were not synchronized, though several workers could run them at once.
---
 slinky/builder/slide_and_fold_storage.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 0772b1f..df9f70a 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -257,9 +257,8 @@ public:
     int loop_id = -1;
 
     bool add_synchronization() {
-      if (prove_true(sync_stages + 1 >= max_workers)) {
-        // It's pointless to add more stages to the loop, because we can't run then in parallel anyways, it would just
-        // add more synchronization overhead.
+      if (prove_true(max_workers <= 1)) {
+        // The loop is serial, it doesn't need synchronization.
         return false;
       }
 
@@ -839,7 +838,7 @@ public:
 
     const loop_info& l = loops.back();
     const int stage_count = l.sync_stages;
-    expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
+    expr max_workers = l.data_parallel ? op->max_workers : simplify(min(op->max_workers, std::max(1, stage_count)));
     stmt result;
     if (must_run) {
       // This loop has at most one iteration, run it even if it is empty.
-- 
2.43.0


From 826e21fdf54dfff5b9fb624889b5b7d11a74d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 35/62] fix: concurrent iterations of a loop must not share
 storage folded in its body

---
 slinky/builder/slide_and_fold_storage.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index df9f70a..75d0494 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -747,6 +747,17 @@ public:
     return result;
   }
 
+  // Iterations of `l` may run concurrently, so they can't share storage folded by the loops in its body.
+  void remove_inner_folds(const loop_info& l, const expr& max_workers) {
+    if (prove_true(max_workers <= 1)) return;
+    for (std::optional<std::vector<dim_fold_info>>& i : fold_factors) {
+      if (!i) continue;
+      for (dim_fold_info& j : *i) {
+        if (j.loop_id > l.loop_id) j.factor = expr();
+      }
+    }
+  }
+
   // If the loop was pipelined (added synchronization stages), allocate and initialize the semaphore
   // buffer that implements it. Otherwise there are no semaphores and the placeholder is removed.
   stmt add_synchronization_buffers(
@@ -827,6 +838,11 @@ public:
 
     scoped_trace trace("visit(const loop*)");
 
+    const loop_info& l = loops.back();
+    const int stage_count = l.sync_stages;
+    expr max_workers = l.data_parallel ? op->max_workers : simplify(min(op->max_workers, std::max(1, stage_count)));
+    remove_inner_folds(l, max_workers);
+
     loop_bounds.min = loops.back().bounds.min;
     const bool must_run = std::count(always_run.begin(), always_run.end(), op) != 0;
     if (!must_run && body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) &&
@@ -836,9 +852,6 @@ public:
       return;
     }
 
-    const loop_info& l = loops.back();
-    const int stage_count = l.sync_stages;
-    expr max_workers = l.data_parallel ? op->max_workers : simplify(min(op->max_workers, std::max(1, stage_count)));
     stmt result;
     if (must_run) {
       // This loop has at most one iteration, run it even if it is empty.
-- 
2.43.0


From 31b92901e98356aaaca615ae0f63be9e32a152d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 36/62] fix: fold factors must not depend on loops inside the
 allocation

---
 slinky/builder/slide_and_fold_storage.cc | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 75d0494..ebd0370 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -358,14 +358,15 @@ public:
   }
 
   // Reduce a required-extent bound to a constant fold factor, or return undefined if it doesn't
-  // simplify to something finite and independent of the loop variable.
-  expr constant_fold_factor(expr extent_bound, const loop_info& loop) {
+  // simplify to something finite and independent of the loop variables, which are not defined at the allocation.
+  expr constant_fold_factor(expr extent_bound) {
     expr fold_factor = simplify(std::move(extent_bound), expr_bounds, expr_alignment);
     fold_factor = simplify(constant_upper_bound(fold_factor), expr_bounds, expr_alignment);
-    if (is_finite(fold_factor) && !depends_on(fold_factor, loop.sym).any()) {
-      return fold_factor;
+    if (!is_finite(fold_factor)) return expr();
+    for (const loop_info& loop : loops) {
+      if (loop.sym.defined() && depends_on(fold_factor, loop.sym).any()) return expr();
     }
-    return expr();
+    return fold_factor;
   }
 
   static bool depends_on_any(const interval_expr& e, const std::vector<var>& syms) {
@@ -437,7 +438,7 @@ public:
         // can fold the storage. If we slide in an outer loop, the whole extent of this dimension must be kept for the
         // next iteration of that loop.
         if (!did_overlapped_fold) {
-          expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
+          expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max);
           if (fold_factor.defined()) {
             vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
           }
@@ -466,12 +467,12 @@ public:
 
         if (!did_overlapped_fold) {
           expr fold_factor =
-              constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds, expr_alignment).max, loop);
-          if (fold_factor.defined()) {
-            // Align the fold factor to the loop step size, so it doesn't try to crop across a folding boundary.
-            expr overlap = simplify(
-                constant_upper_bound(bounds_of(cur_bounds_d.max - new_min + 1, expr_bounds, expr_alignment).max),
-                expr_bounds);
+              constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds, expr_alignment).max);
+          // Align the fold factor to the loop step size, so it doesn't try to crop across a folding boundary.
+          expr overlap =
+              constant_fold_factor(bounds_of(cur_bounds_d.max - new_min + 1, expr_bounds, expr_alignment).max);
+          if (!overlap.defined() && prove_true(loop.max_workers <= 1)) overlap = 0;
+          if (fold_factor.defined() && overlap.defined()) {
             vector_at(fold_factors[output], d) = {fold_factor, overlap, loop.loop_id};
             did_overlapped_fold = true;
           }
-- 
2.43.0


From 9a6774af5ccd357322f71bcb34a618b3cc57685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 37/62] fix: the extra folds of a pipelined loop must cover
 gaps between iterations

---
 slinky/builder/slide_and_fold_storage.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index ebd0370..77bf52e 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -439,8 +439,15 @@ public:
         // next iteration of that loop.
         if (!did_overlapped_fold) {
           expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max);
-          if (fold_factor.defined()) {
-            vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
+          expr advance = fold_factor;
+          if (!prove_true(loop.max_workers <= 1) &&
+              !prove_true(cur_bounds_d.min <= prev_bounds_d.max + 1 && prev_bounds_d.min <= cur_bounds_d.max + 1)) {
+            // There may be a gap between what consecutive iterations need.
+            advance = max(cur_bounds_d.max - prev_bounds_d.max, prev_bounds_d.min - cur_bounds_d.min);
+            advance = constant_fold_factor(bounds_of(advance, expr_bounds, expr_alignment).max);
+          }
+          if (fold_factor.defined() && advance.defined()) {
+            vector_at(fold_factors[output], d) = {fold_factor, simplify(max(fold_factor, advance)), loop.loop_id};
           }
         }
         continue;
-- 
2.43.0


From 0c88e7e6dda5db25b985314ec1e4b2d0a3111fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 38/62] fix: iterations of a pipelined loop must produce what
 later iterations reuse in order

---
 slinky/builder/slide_and_fold_storage.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 77bf52e..5fc7098 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -240,6 +240,9 @@ public:
     // the next.
     std::vector<var> allocations;
 
+    // The buffers of which iterations of this loop reuse what earlier iterations produced.
+    std::vector<var> slid;
+
     // The next few fields relate to implementing synchronization in pipelined loops. In a pipelined loop, we
     // treat a sequence of stmts as "stages" in the pipeline, where we add synchronization to cause the loop
     // to appear to be executed serially to the stages: a stage can assume the same stage for a previous iteration has
@@ -515,6 +518,7 @@ public:
 
         // This loop has a dependency between loop iterations, mark it as not data parallel.
         loop.data_parallel = false;
+        loop.slid.push_back(output);
       } else if (prove_true(is_monotonic_decreasing, expr_bounds, expr_alignment)) {
         // TODO: We could also try to slide when the bounds are monotonically
         // decreasing, but this is an unusual case.
@@ -551,6 +555,11 @@ public:
     }
 
     for (var output : outputs) {
+      // If iterations of a loop reuse what earlier iterations produced, they must be produced in order.
+      for (loop_info& loop : loops) {
+        if (std::count(loop.slid.begin(), loop.slid.end(), output)) loop.add_synchronization();
+      }
+
       if (!fold_factors[output]) continue;
 
       for (loop_info& loop : loops) {
-- 
2.43.0


From 7a89c65d5f47149031404e0187c1aa633434f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:15 +0000
Subject: [PATCH 39/62] fix: a failure in a pipelined loop left other
 iterations waiting forever

---
 slinky/runtime/evaluate.cc | 23 +++++++++++++++++++----
 slinky/runtime/evaluate.h  |  6 ++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 6fa7e6e..723cb65 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -259,7 +259,11 @@ public:
       sems[i] = reinterpret_cast<index_t*>(eval(op->args[i * 2 + 0]));
       counts[i] = eval(op->args[i * 2 + 1], 1);
     }
-    context.config->thread_pool->wait_for([=]() {
+    const std::atomic<index_t>* loop_result = context.loop_result;
+    bool acquired = false;
+    context.config->thread_pool->wait_for([=, &acquired]() {
+      // If another iteration of the loop failed, it may never signal these semaphores.
+      if (loop_result && *loop_result != 0) return true;
       // Check we can acquire all of the semaphores before acquiring any of them.
       for (std::size_t i = 0; i < sem_count; ++i) {
         if (*sems[i] < counts[i]) return false;
@@ -268,9 +272,10 @@ public:
       for (std::size_t i = 0; i < sem_count; ++i) {
         *sems[i] -= counts[i];
       }
+      acquired = true;
       return true;
     });
-    return 1;
+    return acquired;
   }
 
   index_t eval_trace_begin(const call* op) {
@@ -429,6 +434,7 @@ public:
       // The body is a closure, so we know exactly which symbols we need to copy to the new local context.
       context.reserve(parent_context.size());
       context.config = parent_context.config;
+      context.loop_result = parent_context.loop_result;
 
       // Assume that this let_stmt is a closure for this loop. We'll evaluate the values using the parent
       // context, but assign them to our local context.
@@ -487,14 +493,18 @@ public:
           // We store the context in the lambda so we can initialize it once per worker. This assumes that the thread
           // pool makes a copy of the worker function, which is perhaps sketchy, but it does do that.
           init_context(context, state.context, state.closure, state.sym);
+          context.loop_result = &state.result;
         }
 
         context.set(state.sym, i * state.step + state.min);
         // Evaluate the parallel loop body with our copy of the context.
         index_t result_i = evaluate(state.body, context);
         if (result_i != 0) {
-          index_t zero = 0;
-          state.result.compare_exchange_strong(zero, result_i);
+          // Other iterations might be waiting for this iteration to signal a semaphore, `atomic_call` wakes them up.
+          state.context.config->thread_pool->atomic_call([&]() {
+            index_t zero = 0;
+            state.result.compare_exchange_strong(zero, result_i);
+          });
         }
       };
 
@@ -911,6 +921,11 @@ public:
 
   index_t eval(const check* op) {
     if (!eval(op->condition)) {
+      const call* c = op->condition.as<call>();
+      if (c && c->intrinsic == intrinsic::semaphore_wait && context.loop_result && *context.loop_result != 0) {
+        // This wait was abandoned because another iteration of the loop failed, which has already been reported.
+        return *context.loop_result;
+      }
       return check_failed(op);
     } else {
       return 0;
diff --git a/slinky/runtime/evaluate.h b/slinky/runtime/evaluate.h
index a18ac71..cca871b 100644
--- a/slinky/runtime/evaluate.h
+++ b/slinky/runtime/evaluate.h
@@ -1,6 +1,8 @@
 #ifndef SLINKY_RUNTIME_EVALUATE_H
 #define SLINKY_RUNTIME_EVALUATE_H
 
+#include <atomic>
+
 #include "slinky/base/allocator.h"
 #include "slinky/base/util.h"
 #include "slinky/runtime/expr.h"
@@ -84,6 +86,10 @@ public:
   std::size_t size() const { return values_.size(); }
 
   const eval_config* config;
+
+  // If we are evaluating an iteration of a parallel loop, this points to the result of that loop so far. If this is not
+  // 0, an iteration has failed, and we can't wait for anything it might not have done.
+  const std::atomic<index_t>* loop_result = nullptr;
 };
 
 index_t evaluate(const expr& e, eval_context& context);
-- 
2.43.0


From 9126afbbb77781b3a4509b543e73f784764fa366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 40/62] fix: do not lift a copy out of a loop before the
 producer of a buffer it aliases

---
 slinky/builder/simplify.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 277013b..c76c0f4 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1315,6 +1315,10 @@ public:
   // Find all buffers accessed in `s`, adding them, and all the aliases of them, to `bufs`.
   void buffers_accessed_via_aliases(const stmt& s, bool consumed, std::set<var>& bufs) {
     std::vector<var> raw = find_buffer_dependencies(s, consumed, !consumed);
+    // If the base of a buffer is read, it could be accessed via another buffer made with that base.
+    for (var i : find_dependencies(s)) {
+      if (depends_on(s, i).buffer_base) raw.push_back(i);
+    }
     for (var i : raw) {
       while (i.defined()) {
         bufs.insert(i);
-- 
2.43.0


From 539646eed87eeaac6226e80898f0e706f201257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 41/62] fix: fusing a dimension of one element into a broadcast
 lost its bounds

---
 slinky/runtime/buffer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index b35c818..9c59cd5 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -763,9 +763,10 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0 && inner.fold_factor() == dim::unfolded &&
-      outer.fold_factor() == dim::unfolded) {
-    // The outer dimension has only one element, at the base.
+  if (outer.min() == outer.max() && outer.stride() != 0 && inner.stride() != 0 &&
+      inner.fold_factor() == dim::unfolded && outer.fold_factor() == dim::unfolded) {
+    // The outer dimension has only one element, at the base. If the inner dimension were a broadcast (which contains
+    // everything), fusing would lose the bounds of the outer dimension.
     return true;
   }
 
-- 
2.43.0


From 40d59d12e4f1f591f8726b0c04301b18c44d9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 42/62] fix: fusing with an implicit broadcast left bounds that
 no longer match the other buffers

---
 slinky/runtime/buffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 9c59cd5..45182bc 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -805,8 +805,10 @@ enum class fuse_type {
 template <fuse_type type>
 inline void fuse(index_t inner, index_t outer, raw_buffer& buf) {
   if (outer >= static_cast<index_t>(buf.rank)) {
-    // Fusing an implicit broadcast, nothing to do.
-    assert(inner >= static_cast<index_t>(buf.rank) || can_fuse(buf.dim(inner), dim::broadcast()));
+    // Fusing an implicit broadcast. If the inner dimension is not also implicit, it becomes a broadcast.
+    if (inner < static_cast<index_t>(buf.rank)) {
+      buf.dims[inner] = fuse(buf.dim(inner), dim::broadcast());
+    }
   } else if (inner >= static_cast<index_t>(buf.rank)) {
     // The inner dimension is an implicit broadcast.
     dim& od = buf.dims[outer];
-- 
2.43.0


From de8902d45ba09a0faf05eb49e6882eeb1bf0b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 43/62] fix: for_each_contiguous_slice treated two contiguous
 dimensions as one slice when elements overlap

---
 slinky/runtime/buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index f3bd9bc..cee428f 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -812,6 +812,8 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
 
   index_t slice_extent = 1;
   index_t extent = 1;
+  // Only one dimension can be the slice, but more than one can be contiguous, if the elements of `buf` overlap.
+  bool have_slice = false;
   for (int d = rank - 1; d >= 0; --d) {
     const dim& buf_dim = buf.dim(d);
 
@@ -820,7 +822,8 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
     } else if (buf_dim.max() < buf_dim.min() || use_nonlinear_loop(bufs, d)) {
       // extent > 1 and there is a folded dimension in one of the buffers, or we need to crop one of the buffers, or the
       // loops are empty.
-      if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+      if (SkipContiguous && !have_slice && is_contiguous_slice(bufs, d)) {
+        have_slice = true;
         loop->impl = for_each_impl_nonlinear<F, BufsSize, false, true>;
         inner_impl = for_each_impl_nonlinear<F, BufsSize, true, true>;
       } else {
@@ -875,8 +878,9 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
 
     if (extent == 1 || (d > 0 && can_fuse(bufs, d))) {
       // Let this fuse with the next dimension.
-    } else if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+    } else if (SkipContiguous && !have_slice && is_contiguous_slice(bufs, d)) {
       // This is the slice dimension.
+      have_slice = true;
       slice_extent *= extent;
       extent = 1;
     } else {
-- 
2.43.0


From a5c1cfbd6df000cd9cca91064a79f77556f1b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 44/62] fix: pad did not pad dimensions whose bounds are [0, 0]

---
 slinky/runtime/buffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index cee428f..b5c18db 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -475,7 +475,10 @@ void pad(const dim* in_bounds, const raw_buffer& dst, const raw_buffer& pad) {
 
   raw_buffer src = {nullptr, dst.elem_size, dst.rank, SLINKY_ALLOCA(dim, dst.rank)};
   for (std::size_t d = 0; d < dst.rank; ++d) {
-    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), 0, in_bounds[d].fold_factor()};
+    // The strides of this buffer are only used to indicate which dimensions are broadcasts.
+    index_t stride = dst.dims[d].stride() != 0 ? dst.dims[d].stride() : 1;
+    if (in_bounds[d].is_broadcast()) stride = 0;
+    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), stride, in_bounds[d].fold_factor()};
   }
 
   raw_buffer pad_opt = pad;
-- 
2.43.0


From 114d16276cc08779e510a578ec9662ab32501130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 45/62] fix: allocations with negative strides put elements
 before the memory

---
 slinky/runtime/buffer.cc   | 10 ++++++++--
 slinky/runtime/buffer.h    |  3 +++
 slinky/runtime/evaluate.cc |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index b5c18db..0f592ba 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -80,6 +80,12 @@ std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims)
 
 std::size_t raw_buffer::size_bytes() const { return alloc_size(rank, elem_size, dims); }
 
+index_t raw_buffer::base_offset_bytes() const {
+  index_t flat_min;
+  index_t flat_max;
+  return calculate_flat_bounds(rank, dims, flat_min, flat_max) ? -flat_min : 0;
+}
+
 std::size_t raw_buffer::elem_count() const {
   std::size_t result = 1;
   for (std::size_t i = 0; i < rank; ++i) {
@@ -105,7 +111,7 @@ raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const c
   } else {
     new (buf->dims) slinky::dim[buf->rank];
   }
-  buf->base = data_size > 0 ? mem : nullptr;
+  buf->base = data_size > 0 ? mem + buf->base_offset_bytes() : nullptr;
   buf->base = align_up(buf->base, alignment);
   return raw_buffer_ptr(buf, free);
 }
@@ -254,7 +260,7 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   std::optional<std::size_t> size = init_strides(stride_alignment);
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
-  base = align_up(allocation, base_alignment);
+  base = align_up(offset_bytes(allocation, base_offset_bytes()), base_alignment);
   return allocation;
 }
 
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 45182bc..0988e5e 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -417,6 +417,9 @@ public:
 
   std::size_t size_bytes() const;
 
+  // The offset of the base from the lowest address of any element. This is 0 unless there are negative strides.
+  index_t base_offset_bytes() const;
+
   std::size_t elem_count() const;
 
   // If any strides are `auto_stride`, replace them with automatically determined strides.
diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 723cb65..1aa21a4 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -637,7 +637,7 @@ public:
       if (op->storage == memory_type::stack || *size <= context.config->auto_stack_threshold) {
         std::size_t alignment = context.config->base_alignment;
         buffer.base = SLINKY_ALLOCA(char, *size + alignment - 1);
-        buffer.base = align_up(buffer.base, alignment);
+        buffer.base = align_up(offset_bytes(buffer.base, buffer.base_offset_bytes()), alignment);
         buffer.allocation = nullptr;
       } else {
         buffer.allocation = context.config->allocate(op->sym, &buffer);
-- 
2.43.0


From cdad679b6653be672176a8fa856e0ecfec723269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:10 +0000
Subject: [PATCH 46/62] fix: init_strides asserted instead of refusing a size
 that overflows

---
 slinky/runtime/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 0f592ba..2625ba8 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -244,7 +244,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
         break;
       }
     }
-    assert(dim_i.stride() != dim::auto_stride);
+    assert(overflow || dim_i.stride() != dim::auto_stride);
   }
 
   index_t size = 0;
-- 
2.43.0


From a4ae47ef771ad28123069df1049a6bc9c05fdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:32 +0000
Subject: [PATCH 47/62] fix: substitution did not enter tasks without a handle,
 and read out of bounds

---
 slinky/builder/substitute.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 204b1e6..aeb8cbc 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -653,16 +653,19 @@ void substitutor::visit(const crop_dim* op) {
 }
 
 void substitutor::visit(const async* op) {
-  var sym = enter_decl(op->sym);
-  stmt task = sym.defined() ? mutate(op->task) : op->task;
-  stmt body = sym.defined() ? mutate(op->body) : op->body;
+  // The handle of the task is optional, if there isn't one, there is nothing to declare.
+  const bool is_decl = op->sym.defined();
+  var sym = is_decl ? enter_decl(op->sym) : op->sym;
+  const bool enter = sym.defined() || !is_decl;
+  stmt task = enter ? mutate(op->task) : op->task;
+  stmt body = enter ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
   if (sym == op->sym && task.same_as(op->task) && body.same_as(op->body)) {
     set_result(op);
   } else {
     set_result(async::make(sym, std::move(task), std::move(body)));
   }
-  exit_decls();
+  if (is_decl) exit_decls();
 }
 
 void substitutor::visit(const call* op) {
-- 
2.43.0


From c0677297f96ce9d339563c036592ab8412941bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:32 +0000
Subject: [PATCH 48/62] fix: data race between an async task copying the
 context and its body

---
 slinky/runtime/evaluate.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 1aa21a4..ed96405 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -542,11 +542,13 @@ public:
     }
   }
 
-  index_t eval_with_new_context(stmt task) {
+  // Evaluates `task` in a copy of the context, where `sym` (if it is defined) is `value`.
+  index_t eval_with_new_context(stmt task, var sym = var(), index_t value = 0) {
     eval_context context;
     const let_stmt* closure = as_closure(task);
     if (closure) task = closure->body;
-    init_context(context, this->context, closure);
+    init_context(context, this->context, closure, sym);
+    if (sym.defined()) context[sym] = value;
 
     return evaluate(task, context);
   }
@@ -562,13 +564,8 @@ public:
       task_body();
     }
 
-    context.reserve(op->sym.id + 1);
-    index_t old_sym = 0;
-    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
-
-    index_t result = eval_with_new_context(op->body);
-
-    if (op->sym.defined()) context.set(op->sym, old_sym);
+    // The task may be running now, and may be making a copy of our context, so we can't modify it here.
+    index_t result = eval_with_new_context(op->body, op->sym, reinterpret_cast<index_t>(&*task));
 
     if (pool) {
       pool->wait_for(&*task);
-- 
2.43.0


From 299c3fa2b113fd1ee8c933c5a0f50b91dcfd8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:01 +0000
Subject: [PATCH 49/62] fix: a let list declaring a symbol twice was not undone
 in order by the deshadower

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index a286db0..aa8a97f 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1748,7 +1748,12 @@ public:
     return renamed;
   }
 
-  void exit_decls(int n) override { decls.erase(decls.begin() + decls.size() - n, decls.end()); }
+  void exit_decls(int n) override {
+    // The same symbol may be declared more than once, restore the values in the opposite order.
+    for (int i = 0; i < n; ++i) {
+      decls.pop_back();
+    }
+  }
 
   void visit(const loop* op) override {
     interval_expr bounds = mutate(op->bounds);
-- 
2.43.0


From aae09825c08f3749aa93749bb72e2bffb6d9acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:01 +0000
Subject: [PATCH 50/62] fix: simplify dropped the fold of a buffer not starting
 at the fold boundary

---
 slinky/builder/simplify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index c76c0f4..46e1e16 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1646,7 +1646,8 @@ public:
     }
   }
 
-  dim_info mutate_dim(const dim_expr& d) {
+  // `new_memory` indicates that the dimension is of memory that is not accessed via any other buffer.
+  dim_info mutate_dim(const dim_expr& d, bool new_memory) {
     // Mutate each field directly into `result`, capturing its bounds/alignment, then attach the (possibly
     // canonicalized) value.
     dim_info result;
@@ -1656,7 +1657,9 @@ public:
     if (is_constant(fold_factor, dim::unfolded)) fold_factor = expr();
     if (fold_factor.defined() && !is_constant(fold_factor, 0) && !is_constant(stride, 0) &&
         !(is_constant(bounds.min, 0) && is_constant(bounds.max, 0)) &&
-        prove_true(bounds.min / fold_factor == bounds.max / fold_factor))
+        prove_true(bounds.min / fold_factor == bounds.max / fold_factor) &&
+        // Without folding, the min is at the base.
+        (new_memory || prove_true(bounds.min % fold_factor == 0)))
       fold_factor = expr();
     if (is_constant(stride, dim::auto_stride)) stride = expr();
     result.min.set_value(bounds.min);
@@ -1675,7 +1678,7 @@ public:
     bool changed = !info.elem_size.value().same_as(op->elem_size);
     info.dims.reserve(op->dims.size());
     for (std::size_t d = 0; d < op->dims.size(); ++d) {
-      info.dims.push_back(mutate_dim(op->dims[d]));
+      info.dims.push_back(mutate_dim(op->dims[d], T::static_type == allocate::static_type));
       changed = changed || !info.dims.back().value().same_as(op->dims[d]);
     }
     // Remove trailing broadcast dimensions.
-- 
2.43.0


From 8ccb6af0e90fdb62069ee65419a775ae3ce50776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:01 +0000
Subject: [PATCH 51/62] fix: simplify rewrote a transpose of a transpose to a
 buffer that was replaced

---
 slinky/builder/simplify.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 46e1e16..6880066 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2430,7 +2430,8 @@ public:
           }
           // This is a transpose of another transpose. Rewrite this to directly transpose the parent.
           dims = permute(dims, t->dims, transpose::new_dim);
-          src = t->src;
+          // The parent may have been replaced by another buffer.
+          src = visit_symbol(t->src);
           src_info = &buffers[src];
           continue;
         }
-- 
2.43.0


From 8c038f73106cca76b486911d70011ff5364f2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:01 +0000
Subject: [PATCH 52/62] fix: simplify left async nodes with undefined tasks or
 bodies

---
 slinky/builder/simplify.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 6880066..cbe9fe3 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2514,6 +2514,23 @@ public:
     }
   }
 
+  void visit(const async* op) override {
+    stmt task = mutate(op->task);
+    stmt body = mutate(op->body);
+    if (!body.defined()) {
+      set_result(std::move(task));
+    } else if (!task.defined() && (!op->sym.defined() || !depends_on(body, op->sym).any())) {
+      set_result(std::move(body));
+    } else if (!task.defined()) {
+      // The task does nothing, but the body waits for it.
+      set_result(async::make(op->sym, check::make(true), std::move(body)));
+    } else if (task.same_as(op->task) && body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(async::make(op->sym, std::move(task), std::move(body)));
+    }
+  }
+
   using node_mutator::visit;
 };
 
-- 
2.43.0


From 055038b44582a4b680420bd521eb970d9e9f6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:20 +0000
Subject: [PATCH 53/62] fix: the simplifier lost truncates of shadowed buffers
 made by fuse_siblings

---
 slinky/builder/optimizations.cc | 3 ++-
 slinky/builder/simplify.cc      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index aa8a97f..fc86d2f 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1273,7 +1273,8 @@ class sibling_fuser : public stmt_mutator {
     if (!a || !b || !can_fuse(a, b)) return false;
 
     // We can't substitute here because it is possible that b declares a and uses it elsewhere.
-    stmt body = block::make({a->body, clone_buffer::make(b->sym, a->sym, b->body)});
+    stmt b_body = a->sym == b->sym ? b->body : clone_buffer::make(b->sym, a->sym, b->body);
+    stmt body = block::make({a->body, std::move(b_body)});
     result = clone_with(a, std::move(body));
     return true;
   }
diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index cbe9fe3..a98b448 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1296,7 +1296,8 @@ public:
       buffer->src = src;
     }
     auto set_buffer = set_value_in_scope(buffers, buf, std::move(buffer));
-    assert(!vars.contains(buf));
+    // A truncate may shadow a buffer that is being substituted.
+    auto set_var = set_value_in_scope(vars, buf, std::optional<expr_info>());
     return mutate(body);
   }
   // if `decl` is nullptr, the buffer will be substituted.
-- 
2.43.0


From 41746fce6c5b15c1ba9ef25e4f0de6db8a9eaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:20 +0000
Subject: [PATCH 54/62] fix: the simplifier assumed the remainder of loops with
 an unknown min

---
 slinky/builder/simplify.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index a98b448..cffc1ff 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1451,8 +1451,13 @@ public:
       if (i) ++i->loop_depth;
     }
     alignment_type alignment;
-    if (auto cstep = as_constant(step)) alignment.modulus = *cstep;
-    if (auto cmin = as_constant(bounds.min)) alignment.remainder = *cmin;
+    auto cstep = as_constant(step);
+    auto cmin = as_constant(bounds.min);
+    if (cstep && cmin && *cstep > 0) {
+      // We don't know anything about the remainder unless the min is known.
+      alignment.modulus = *cstep;
+      alignment.remainder = euclidean_mod(*cmin, *cstep);
+    }
     // If we're in the body of the loop, then we know that bounds.max >= bounds.min.
     stmt body = mutate_with_bounds(op->body, op->sym, {bounds.min, mutate(max(bounds.min, bounds.max))}, alignment);
     for (auto& i : buffers) {
-- 
2.43.0


From 3c1cb52f91d61194960de89f72b947ac7e0fda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:20 +0000
Subject: [PATCH 55/62] fix: make_buffer truncating a buffer of unknown rank
 lost the truncate

---
 slinky/builder/simplify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index cffc1ff..0573df1 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1832,7 +1832,7 @@ public:
       expr elem_size = info.elem_size.value();
 
       auto make_truncate = [&](var src, int rank, stmt body) {
-        if (src_info && src_info->rank <= rank) {
+        if (src_info && src_info->rank >= 0 && src_info->rank <= rank) {
           // We know all the dims, and the rank is already what we want to truncate to.
           return body;
         }
-- 
2.43.0


From ea4bd262eb90a587c422633dcad4cc6856dce250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:03 +0000
Subject: [PATCH 56/62] fix: a crop of a crop used the bounds of the outer crop
 as if it did not clamp them

---
 slinky/builder/simplify.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 0573df1..1089170 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2167,13 +2167,26 @@ public:
     return deps.buffer_output || deps.buffer_src || deps.buffer_dst || deps.buffer_bounds;
   }
 
+  // The bounds of a dimension of a crop of `src` are the bounds of the crop clamped to the bounds of `src`.
+  static interval_expr clamp_to_buffer(interval_expr bounds, var src, int dim) {
+    if (bounds.min.defined()) bounds.min = max(bounds.min, buffer_min(src, dim));
+    if (bounds.max.defined()) bounds.max = min(bounds.max, buffer_max(src, dim));
+    return bounds;
+  }
+  static box_expr clamp_to_buffer(box_expr bounds, var src) {
+    for (std::size_t d = 0; d < bounds.size(); ++d) {
+      bounds[d] = clamp_to_buffer(std::move(bounds[d]), src, d);
+    }
+    return bounds;
+  }
+
   void visit_crop(const base_stmt_node* op, var op_sym, var op_src, box_expr op_bounds, stmt op_body) {
     std::optional<buffer_info> info = get_buffer_info(op_src);
 
     while (info && info->decl.defined() && info->loop_depth == 0) {
       if (const crop_buffer* c = info->decl.as<crop_buffer>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->bounds);
+        auto c_dims = make_dims_from_bounds(clamp_to_buffer(c->bounds, c->src));
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
@@ -2185,7 +2198,7 @@ public:
         op = nullptr;
       } else if (const crop_dim* c = info->decl.as<crop_dim>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->dim, c->bounds);
+        auto c_dims = make_dims_from_bounds(c->dim, clamp_to_buffer(c->bounds, c->src, c->dim));
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
-- 
2.43.0


From 3775107916f91b73a9c2de86e046e18cce69a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:33 +0000
Subject: [PATCH 57/62] fix: substitution replaced the coordinate of the min of
 a folded buffer by its base

---
 slinky/builder/substitute.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index aeb8cbc..5d45024 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -690,9 +690,6 @@ void substitutor::visit(const call* op) {
           args[d + 1] = min;
           changed = true;
         }
-      } else if (d + 1 < args.size() && is_variable(args[d + 1], *buf, buffer_field::min, d)) {
-        args[d + 1] = expr();
-        changed = true;
       }
     }
 
-- 
2.43.0


From 6446f575417ef6a8511316610993ee1977b2b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:52 +0000
Subject: [PATCH 58/62] fix: the replica of a func computed at a loop of a
 consumer used the consumer before its declaration

---
 slinky/builder/replica_pipeline.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/replica_pipeline.cc b/slinky/builder/replica_pipeline.cc
index d513c8a..f38f978 100644
--- a/slinky/builder/replica_pipeline.cc
+++ b/slinky/builder/replica_pipeline.cc
@@ -362,11 +362,11 @@ public:
     }
     std::optional<loop_id> loopid = f.compute_at();
     if (loopid) {
-      std::string li = print(*loopid);
-      if (li == "<root>") {
+      if (!loopid->func && !loopid->var.defined()) {
         os_ << "  " << fn_name << ".compute_root();\n";
       } else {
-        os_ << "  " << fn_name << ".compute_at(" << li << ");\n";
+        // The func of this loop is a consumer of this func, which has not been declared yet.
+        compute_at_.emplace_back(fn_name, *loopid);
       }
     }
     // TODO padding?
@@ -409,6 +409,11 @@ public:
     std::string a = print(args);
     std::string i = print(inputs);
     std::string o = print(outputs);
+    for (std::size_t f = 0; f < compute_at_.size(); ++f) {
+      const std::pair<std::string, loop_id> at = compute_at_[f];
+      std::string li = print(at.second);
+      os_ << "  " << at.first << ".compute_at(" << li << ");\n";
+    }
     std::string l = print(lets);
     std::string bo = print(options);
     print_assignment_explicit("p", "build_pipeline(ctx, ", a, ", ", i, ", ", o, ", ", l, ", ", bo, ")");
@@ -432,6 +437,7 @@ private:
   std::map<var, std::string> buffer_variables_emitted_;
   std::map<var, std::string> vars_emitted_;
   std::map<const func*, std::string> funcs_emitted_;
+  std::vector<std::pair<std::string, loop_id>> compute_at_;
   bool exprs_inlined_ = false;
 
   std::string print_expr_inlined(const expr& e) {
-- 
2.43.0


From 9b9fda7760bb8f2d56138933d8f7b865ef4c5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:30 +0000
Subject: [PATCH 59/62] fix: the replica of a comparison, min or max of two
 vars was not an expression

---
 slinky/builder/replica_pipeline.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/replica_pipeline.cc b/slinky/builder/replica_pipeline.cc
index f38f978..365bb8d 100644
--- a/slinky/builder/replica_pipeline.cc
+++ b/slinky/builder/replica_pipeline.cc
@@ -518,16 +518,22 @@ private:
 
   std::string print_string_vector(const std::vector<std::string>& v) { return print_vector<std::string>(v); }
 
+  // Comparisons, min, and max of two vars are not exprs in C++.
+  std::string print_first_operand(const expr& a, const expr& b) {
+    std::string sa = print_expr_maybe_inlined(a);
+    return as_variable(a) && as_variable(b) ? str_cat("expr(", sa, ")") : sa;
+  }
+
   template <typename T>
   void visit_binary_op(const T* op, const std::string& binop) {
-    std::string sa = print_expr_maybe_inlined(op->a);
+    std::string sa = print_first_operand(op->a, op->b);
     std::string sb = print_expr_maybe_inlined(op->b);
     name_ = print_expr_maybe_inlined("(", sa, " ", binop, " ", sb, ")");
   }
 
   template <typename T>
   void visit_binary_call(const T* op, const std::string& call) {
-    std::string sa = print_expr_maybe_inlined(op->a);
+    std::string sa = print_first_operand(op->a, op->b);
     std::string sb = print_expr_maybe_inlined(op->b);
     name_ = print_expr_maybe_inlined(call, "(", sa, ", ", sb, ")");
   }
-- 
2.43.0


From 29f468246bb120f63f896be56fb9d7b4938000a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:29 +0000
Subject: [PATCH 60/62] fix: compare the workers of loops and the storage of
 allocations when comparing statements

---
 slinky/builder/substitute.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 5d45024..48db0f7 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -265,6 +265,7 @@ public:
     const loop* ls = static_cast<const loop*>(self);
 
     if (!try_match(ls->sym, op->sym)) return;
+    if (!try_match(ls->max_workers, op->max_workers)) return;
     if (!try_match(ls->bounds, op->bounds)) return;
     if (!try_match(ls->step, op->step)) return;
     if (!try_match(ls->body, op->body)) return;
@@ -308,6 +309,7 @@ public:
     assert(as);
 
     if (!try_match(as->sym, op->sym)) return;
+    if (!try_match(as->storage, op->storage)) return;
     if (!try_match(as->elem_size, op->elem_size)) return;
     if (!try_match(as->dims, op->dims)) return;
     if (!try_match(as->body, op->body)) return;
-- 
2.43.0


From 988b38551a157c813787a258eb70a4f86177e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:43 +0000
Subject: [PATCH 61/62] fix: buffer_at of the min of a folded buffer is not its
 base

---
 slinky/builder/simplify_exprs.cc | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/slinky/builder/simplify_exprs.cc b/slinky/builder/simplify_exprs.cc
index 853b310..e9b1e4a 100644
--- a/slinky/builder/simplify_exprs.cc
+++ b/slinky/builder/simplify_exprs.cc
@@ -348,15 +348,6 @@ expr simplify(const call* op, intrinsic fn, const call::callable& target, std::v
       return expr();
     }
   } else if (fn == intrinsic::buffer_at) {
-    for (index_t d = 1; d < static_cast<index_t>(args.size()); ++d) {
-      auto buf = as_variable(args[0]);
-      assert(buf);
-      // buffer_at(b, buffer_min(b, 0)) is equivalent to buffer_at(b, <>)
-      if (args[d].defined() && is_variable(args[d], *buf, buffer_field::min, d - 1)) {
-        args[d] = expr();
-        changed = true;
-      }
-    }
     // Trailing undefined args have no effect.
     while (args.size() > 1 && !args.back().defined()) {
       args.pop_back();
-- 
2.43.0


From 02a1016c7b8f69c445c5de9e8072df49934a8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:58 +0000
Subject: [PATCH 62/62] fix: compare whether lets are closures when comparing
 statements

---
 slinky/builder/substitute.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 48db0f7..1a20658 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -253,7 +253,10 @@ public:
     }
   }
 
-  void visit(const let_stmt* op) override { visit_let(static_cast<const let_stmt*>(op)); }
+  void visit(const let_stmt* op) override {
+    if (!try_match(static_cast<const let_stmt*>(self)->is_closure, op->is_closure)) return;
+    visit_let(static_cast<const let_stmt*>(op));
+  }
 
   void visit(const block* op) override {
     const block* bs = static_cast<const block*>(self);
-- 
2.43.0

