#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": ["slinky/" + f for f in files],
         "mechanism": [{"name": n, "where": "slinky/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "slinky/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A pipeline computes what its graph of functions denotes, under any schedule",
  "For every graph of functions and every legal schedule of it (explicit loops, loop step sizes, where each stage is computed, where each intermediate is stored and in which memory, aliasing on or off), evaluating the built pipeline on buffers that satisfy its requirements succeeds and leaves in every element of every output exactly the value obtained by composing the functions element by element. The schedule and the optimizations it enables are never observable in the outputs.",
  ["programs", "configurations", "inputs"],
  "all graphs of elementwise, stencil, strided, upsampling, reduction, multi-input and multi-output stages; all schedules; all output extents, mins and strides (including empty and partial outputs).",
  "The tests run a few dozen hand-written graphs with a handful of split factors and sizes; correctness quantifies over the product of graphs, schedules and sizes, and storage/sliding bugs need a particular combination of them.",
  ["builder/pipeline.cc", "builder/slide_and_fold_storage.cc", "builder/optimizations.cc", "builder/simplify.cc", "runtime/evaluate.cc", "runtime/pipeline.cc"],
  [("bounds inference and loop construction", "builder/pipeline.cc build_pipeline / pipeline_builder"),
   ("sliding window and fold factor inference", "builder/slide_and_fold_storage.cc slide_and_fold_storage"),
   ("statement simplification", "builder/simplify.cc"), ("execution", "runtime/evaluate.cc")],
  ["output buffers after pipeline::evaluate", "return value of pipeline::evaluate"])

p("C02", "Each stage reads only live memory holding the right producer's values",
  "Whenever a stage's callback runs, every input element it declared it needs for the output region it is given lies in memory that is currently allocated and holds the value its producer defines for that coordinate, and every output element it is given lies in live memory that is not part of a pipeline input or constant. Sliding windows, circular (folded) storage, shared or grown allocations, in-place computation and early frees never expose stale, overwritten, unproduced or freed data.",
  ["programs", "configurations", "histories"],
  "every callback invocation in every execution of every pipeline, for all graphs, schedules and sizes.",
  "The tests look at final outputs only, for sampled graphs; a stage that reads freed or stale memory, or produces data that happens to be right, passes them.",
  ["builder/slide_and_fold_storage.cc", "builder/optimizations.cc", "builder/pipeline.cc", "runtime/evaluate.cc", "runtime/buffer.cc"],
  [("fold factors and overlap", "builder/slide_and_fold_storage.cc"), ("alias_copies / alias_in_place", "builder/optimizations.cc"),
   ("early free insertion", "builder/optimizations.cc insert_early_free"), ("allocation lifetime", "runtime/evaluate.cc eval(const allocate*)")],
  ["buffers passed to callbacks", "eval_config::allocate / free"],
  [("memory", "address -> which (buffer, coordinate) value it holds", "runtime/buffer.h raw_buffer")])

p("C03", "Parallel and pipelined execution equals serial execution, race-free and live",
  "For every pipeline with parallel or limited-worker loops, under every thread interleaving the thread pool permits, evaluation terminates, returns the same result and outputs as the serial schedule, and no two callbacks that overlap in time touch a common memory element when one of them writes it (other than through storage private to each).",
  ["schedules", "programs", "configurations"],
  "all interleavings of loop iterations and tasks over any number of worker threads, all graphs and schedules with parallel loops, all worker limits.",
  "The tests run the parallel variants on whatever interleaving the OS gives, at a few sizes; races, missing ordering between pipelined stages and lost wakeups need particular interleavings.",
  ["builder/slide_and_fold_storage.cc", "builder/optimizations.cc", "runtime/evaluate.cc", "base/thread_pool_impl.cc"],
  [("semaphores between pipelined stages", "builder/slide_and_fold_storage.cc"), ("parallel loop evaluation", "runtime/evaluate.cc eval_loop_parallel"),
   ("async tasks", "runtime/evaluate.cc eval(const async*)"), ("closures", "builder/optimizations.cc optimize_symbols")],
  ["callback begin/end events", "outputs", "termination of pipeline::evaluate"])

p("C04", "Copies (crop, pad, concat, stack, broadcast, reindex) match their definition",
  "For every copy in a pipeline - with any index expressions, padding, concatenation, stacking, slicing, cropping, broadcasting or transposition - each element of the destination ends up holding the source element its index expression selects if that is inside the source, and the padding value otherwise (or is left alone where there is no padding). This is the same whether the copy is performed, replaced by a custom implementation, or eliminated by sharing memory between the source and the destination.",
  ["programs", "configurations", "inputs"],
  "all copy index expressions (translation, scaling, transposition, broadcast, diagonal, non-affine), paddings, chains of copies, neighbouring stages, buffer extents, aliasing on or off.",
  "The tests check selected copies with selected offsets; whether an alias is legal depends on the combination of offsets, extents, strides, padding and the other users of the same buffers.",
  ["builder/optimizations.cc", "builder/pipeline.cc", "runtime/buffer.cc"],
  [("copy lowering", "builder/optimizations.cc implement_copy"), ("copy aliasing", "builder/optimizations.cc copy_aliaser"),
   ("concat and stack construction", "builder/pipeline.cc func::make_concat / make_stack")],
  ["output buffers", "buffers passed to callbacks"])

p("C05", "Unsuitable buffers are rejected before any work, suitable ones never",
  "If a buffer given to a pipeline is missing, has the wrong rank or element size, does not cover the region the pipeline needs, or violates a declared constraint on its dimensions, evaluation reports a failed check and returns failure before any callback has run or any buffer has been written. If all buffers meet what the pipeline's definition requires, no check fails.",
  ["inputs", "programs", "configurations"],
  "all graphs and schedules, all input and output buffer shapes around the required region.",
  "checks.cc exercises a few fixed mismatches on fixed pipelines; the required region is a symbolic function of the graph, the schedule and the output shape.",
  ["builder/pipeline.cc", "runtime/evaluate.cc", "builder/simplify.cc", "runtime/pipeline.cc"],
  [("input/output checks", "builder/pipeline.cc add_input_checks / build_pipeline"), ("check evaluation", "runtime/evaluate.cc eval(const check*)"),
   ("check simplification", "builder/simplify.cc")],
  ["eval_config::check_failed", "return value", "callback log"])

p("C06", "A failing callback stops the run, its error is returned, memory is released",
  "If a callback returns an error, evaluation of the pipeline returns that error (or, with concurrent work, the error of one of the callbacks that failed), the failure is reported, and nothing that depends on the failed work - no later statement of the same block, no later iteration of a serial loop - runs. On success and failure alike, every memory block obtained through the allocation hook is released exactly once, with the token it was obtained with, and none is used after its release.",
  ["fault_sequences", "programs", "schedules"],
  "a failure injected at every callback invocation of every execution, serial and parallel, over all graphs and schedules.",
  "Two or three tests make one callback fail in fixed pipelines; the property quantifies over the failure point, the schedule, and the interleaving.",
  ["runtime/evaluate.cc", "runtime/pipeline.cc", "builder/optimizations.cc"],
  [("error propagation", "runtime/evaluate.cc eval(block/loop/call_stmt)"), ("allocation scope", "runtime/evaluate.cc eval(const allocate*)"),
   ("early free", "builder/optimizations.cc insert_early_free")],
  ["eval_config::call_failed", "eval_config::allocate / free", "return value of evaluate"])

p("C07", "Thread pool: each item runs exactly once, waits are barriers, limits hold",
  "Every item of every enqueued task runs exactly once, a wait for a task returns only after all of its items have finished, at most the requested number of threads work on a task, a thread never re-enters a task it is already working on, and items of a worker-limited task start in increasing order. Conditions and atomic calls never overlap each other in time, and a conditional wait returns only when its condition has just been observed true.",
  ["schedules", "histories"],
  "all interleavings of any number of worker and client threads, with nested tasks, waits inside tasks, conditional waits, atomic calls, and threads entering and leaving the pool.",
  "The stress test counts executions on OS-chosen interleavings of one or two shapes; violations need specific preemption points.",
  ["base/thread_pool_impl.cc", "base/thread_pool_impl.h", "base/thread_pool.cc", "base/thread_pool.h"],
  [("work stealing shards", "base/thread_pool_impl.cc task_impl::work"), ("dequeue and worker allocation", "base/thread_pool_impl.cc dequeue"),
   ("waiting", "base/thread_pool_impl.cc wait_for")],
  ["task bodies", "wait_for / atomic_call return"],
  [("task", "per item: not started, running, done", "base/thread_pool_impl.h task_impl")])

p("C08", "Thread pool: no lost wakeups, everything that can finish does",
  "If work is enqueued, some thread of the pool or waiting on the pool eventually runs it; if a task's items have all finished, every wait for that task returns; if an atomic call makes a condition true, every wait for that condition returns; and shutting the pool down returns. No interleaving leaves a thread asleep although what it waits for has happened.",
  ["schedules", "histories"],
  "all interleavings and all placements of waits, completions and notifications, including several waiters for one task and pools with no worker threads.",
  "A lost wakeup needs a thread to go to sleep at one particular point of another thread's execution; tests practically never hit it, and hang rather than fail when they do.",
  ["base/thread_pool_impl.cc", "base/thread_pool_impl.h"],
  [("notifications", "base/thread_pool_impl.cc wait_for / enqueue / atomic_call"), ("sleeping", "base/thread_pool_impl.cc wait_for(condition, cv)")],
  ["termination of wait_for and ~thread_pool_impl"])

p("C09", "Buffer views address the same elements as the buffer they come from",
  "Cropping, slicing, un-slicing, translating, transposing, truncating, sorting, fusing or optimizing the dimensions of a buffer gives a view in which every coordinate inside the view's bounds denotes exactly the memory element that the corresponding coordinate denotes in the original, and the view's bounds are exactly the intersection (crop), remainder (slice) or image (translate, transpose, fuse) of the original bounds. Circular dimensions, broadcast dimensions, and empty or out-of-range views are included.",
  ["inputs", "histories"],
  "all ranks, mins, extents, strides (zero and negative included), fold factors, and sequences of view operations.",
  "The tests apply single operations to a few shapes; combinations such as cropping a folded dimension across its wrap point or slicing after a transpose are sampled thinly or not at all.",
  ["runtime/buffer.h", "runtime/buffer.cc", "runtime/evaluate.cc"],
  [("addressing", "runtime/buffer.h dim::flat_offset_bytes, raw_buffer::address_at"), ("crop/slice/translate", "runtime/buffer.h raw_buffer"),
   ("dimension fusion", "runtime/buffer.h can_fuse / fuse, optimize_dims")],
  ["raw_buffer::address_at", "raw_buffer::contains"])

p("C10", "Computed strides and sizes give every element its own in-bounds storage",
  "When strides are computed for a buffer, required strides are kept, the rest are chosen so that no two elements (modulo folding and broadcasting) share storage, the computed size covers every element, and the requested alignments hold for the base and for the strides they apply to. When the size cannot be represented, the allocation is refused.",
  ["inputs", "configurations"],
  "all ranks, extents (empty, one, huge), element sizes, fold factors, and mixes of preset and automatic strides and alignments.",
  "The tests check a few stride patterns; overlap depends on the order and the relative magnitude of preset strides and extents.",
  ["runtime/buffer.cc", "runtime/buffer.h", "runtime/evaluate.cc"],
  [("init_strides", "runtime/buffer.cc raw_buffer::init_strides"), ("size_bytes", "runtime/buffer.cc raw_buffer::size_bytes"),
   ("allocate", "runtime/buffer.cc raw_buffer::allocate")],
  ["raw_buffer dims, size_bytes, base after init_strides / allocate"])

p("C11", "Element iteration, copy, pad and fill touch each element exactly once",
  "Iterating over a buffer visits each element of its bounds exactly once, with the corresponding element (or null when outside) of every other buffer; copying gives each destination element the source element with the same coordinates when inside the source and the padding element otherwise, writes nothing else, and padding writes exactly the elements outside the given bounds. The result does not depend on dimension order, folding, broadcasting, contiguity, or which fast path applies.",
  ["inputs"],
  "all combinations of ranks, bounds, strides, fold factors and element sizes of destination, source and padding buffers.",
  "The tests compare a few shapes against loops; the implementation has many fast paths whose choice depends on the combined shapes of all buffers.",
  ["runtime/buffer.cc", "runtime/buffer.h"],
  [("loop nest construction", "runtime/buffer.cc for_each_impl / make_for_each_loops"), ("copy", "runtime/buffer.cc copy"), ("pad", "runtime/buffer.cc pad"), ("fill", "runtime/buffer.cc fill")],
  ["memory after copy/pad/fill", "callback arguments of for_each_element and for_each_contiguous_slice"])

p("C12", "The evaluator gives statements and expressions their documented meaning",
  "Evaluating an expression or statement has exactly the effect its documentation defines: arithmetic is Euclidean and total, declarations shadow outer ones and are undone when left (also on failure), loops run the body for each value from min to max by step in order, buffer declarations give the body the described view without changing any other, and selections and short-circuit operators evaluate only the branch taken.",
  ["programs", "inputs"],
  "all well-formed expressions and statements, all environments, with a failing call at any point.",
  "evaluate.cc tests one construct at a time; scoping and restoration bugs need nesting, shadowing, in-place view changes and early exits in combination.",
  ["runtime/evaluate.cc", "runtime/evaluate.h", "runtime/expr.h", "runtime/expr_stmt.cc"],
  [("expression evaluation", "runtime/evaluate.cc evaluator"), ("scoping", "runtime/evaluate.cc set_value_in_scope / eval_with_value"), ("in-place crop and slice", "runtime/evaluate.cc eval(crop_dim/slice_dim/...)")],
  ["results of evaluate", "buffers seen by calls"])

p("C13", "Simplifying an expression never changes its value",
  "For every expression and every assignment of values to its variables that satisfies the bounds and alignments given to the simplifier, the simplified expression evaluates to the same value as the original (as long as no intermediate result overflows). This includes division and modulo by zero or negative values, min/max/select chains, logical operators, and re-simplifying the result.",
  ["programs", "inputs"],
  "all expressions over the expression language, all variable values, all bounds and alignment assumptions.",
  "A one-second random test with expressions of depth two and ten random environments each; wrong rules that need particular constants, signs or nesting are missed, and bounds or alignment assumptions are not fuzzed.",
  ["builder/simplify.cc", "builder/simplify_exprs.cc", "builder/simplify_rules.h", "builder/rewrite.h", "builder/simplify_bounds.cc"],
  [("rewrite rules", "builder/simplify_rules.h"), ("recursive simplifier", "builder/simplify.cc simplifier"), ("bounds driven rewriting", "builder/simplify.cc mutate_min_max / alignment")],
  ["evaluate(simplify(e))"])

p("C14", "Bounds and proofs about expressions are sound",
  "For every expression and every assignment of values within the given variable bounds and alignments, the computed interval contains the value, constant lower and upper bounds are bounds, anything reported as proven true (false) is non-zero (zero), and intervals combined by union, intersection, scaling or alignment contain what they should.",
  ["programs", "inputs"],
  "all expressions, bounds maps, alignment maps and variable values in range.",
  "The fuzz test uses fixed symmetric bounds and shallow expressions; an unsound bound silently shrinks a computed region only for particular sign or divisor combinations.",
  ["builder/simplify_bounds.cc", "builder/simplify.cc", "runtime/expr_stmt.cc", "base/arithmetic.cc"],
  [("interval rules", "builder/simplify_bounds.cc bounds_of"), ("provers", "builder/simplify.cc attempt_to_prove / prove_true"), ("constant bounds", "builder/simplify.cc constant_bounds"), ("correlated bounds", "base/arithmetic.cc staircase_sum_bounds")],
  ["results of bounds_of, constant_lower_bound, prove_true"])

p("C15", "Statement transformations never change observable behaviour",
  "For every well-formed statement, simplifying it, renaming away shadowing, reusing symbols, canonicalizing nodes, fusing neighbours, inserting early frees, or doing all of these one after another yields a statement that evaluates to the same result and makes the same calls in the same order with the same scalar arguments and the same buffers: the same rank modulo trailing broadcasts, bounds (of an input: at least these), strides and folding (as far as they determine where elements are), element size, and memory (the same part of an input, or of what the corresponding declaration allocated, with the same bounds). Checks that can fail are neither added nor removed, and memory is allocated and freed by the same declarations, never freed before its last use. Not observable: the memory and bounds of buffers without elements, and repeating what does not depend on a loop.",
  ["programs", "inputs"],
  "all well-formed statements built from loops, lets, blocks, checks, allocations and buffer views, all inputs. The simplifier and the symbol optimizer are given statements without shadowing (as the pipeline builder does), in which loops run at least once, checks are not inside loops and not statically false, and only dimensions that buffers have are cropped, sliced or asked about.",
  "The tests match the output text of each pass on chosen inputs; they never evaluate transformed programs in general.",
  ["builder/simplify.cc", "builder/optimizations.cc", "builder/node_mutator.cc", "builder/substitute.cc"],
  [("statement simplifier", "builder/simplify.cc"), ("passes", "builder/optimizations.cc"), ("mutator base", "builder/node_mutator.cc")],
  ["call log (buffers, scalars)", "allocation hooks", "result of evaluate"])

p("C16", "Substitution, dependency analysis and structural comparison are consistent",
  "Substituting a value for a variable and then evaluating equals evaluating with that variable set, never capturing or touching shadowed names; a node reported not to depend on a symbol evaluates the same whatever the symbol's value is; and structural comparison is a total order whose equality implies equal evaluation.",
  ["programs", "inputs"],
  "all expressions and statements, symbols, replacement expressions and environments, including shadowing declarations at every level.",
  "A few examples each; scoping mistakes need a particular nesting of declarations and uses, and order violations need triples.",
  ["builder/substitute.cc", "runtime/depends_on.cc", "builder/node_mutator.cc"],
  [("substitutor", "builder/substitute.cc substitutor"), ("dependency visitor", "runtime/depends_on.cc dependencies"), ("matcher / compare", "builder/substitute.cc matcher")],
  ["evaluate(substitute(e, x, r))", "depends_on", "compare"])

p("C17", "Integer helpers are exact: Euclidean division, overflow, gcd, residue classes",
  "Division and modulo are Euclidean for all operands with a defined result for zero divisors, saturating and overflow-reporting operations agree with exact integer arithmetic, alignment helpers return the nearest multiples, gcd and lcm are exact, every residue-class operation returns a class containing every possible result, and the bounds of a sum of two staircase functions are exact or admitted unknown.",
  ["inputs"],
  "all operand values of the integer types the helpers are instantiated with.",
  "The tests sample chosen or random operands; the corner cases are sign combinations, zero, and the ends of the range.",
  ["base/arithmetic.h", "base/arithmetic.cc", "base/modulus_remainder.h"],
  [("euclidean_div/mod", "base/arithmetic.h"), ("saturating ops", "base/arithmetic.h"), ("residue classes", "base/modulus_remainder.h"), ("staircases", "base/arithmetic.cc")],
  ["return values"])

p("C18", "Shared objects live exactly as long as they are referenced",
  "An object managed by shared reference counting is destroyed exactly once, when the last reference to it disappears, for every sequence of copies, moves, assignments (including to itself), swaps and releases, by any number of threads; at all times each reference refers to the object last assigned to it.",
  ["histories", "schedules"],
  "all finite sequences of handle operations over several objects and handles, and all interleavings of such sequences in several threads.",
  "There is no direct test of the reference counting type; other tests use it only along common paths.",
  ["base/ref_count.h"],
  [("ref_counted", "base/ref_count.h"), ("ref_count handle", "base/ref_count.h")],
  ["destruction callback", "handle target"],
  [("count", "number of live handles per object", "base/ref_count.h ref_counted")])

p("C19", "Tracing brackets every traced operation and changes nothing else",
  "In a successful run of a pipeline built with tracing, each trace begin is followed by exactly one matching end with the same token on the same thread, properly nested, with every call made inside the bracket of its own function; and the outputs and result are those of the same pipeline built without tracing.",
  ["programs", "configurations", "schedules"],
  "all graphs and schedules, serial and parallel, successful runs.",
  "The tests write trace files and never inspect them; pairing across parallel loops and transformed statements is not checked at all.",
  ["builder/pipeline.cc", "runtime/evaluate.cc", "base/chrome_trace.cc"],
  [("trace injection", "builder/pipeline.cc inject_traces"), ("trace intrinsics", "runtime/evaluate.cc eval_trace_begin / end")],
  ["eval_config::trace_begin / trace_end"])

p("C20", "Generated replica code and printed forms describe the same pipeline",
  "The source code generated for a pipeline compiles, and defines a pipeline with the same structure as the original: the same arguments, lets, inputs, outputs, and options; buffers with the same element sizes, dimensions and constant shapes; functions with the same inputs, bounds, crops, slices, padding, outputs, loops, locations (compute_at) and attributes. Printing an expression or a statement is deterministic and distinguishes nodes whose printed parts differ.",
  ["programs"],
  "all pipelines and expressions.",
  "The replica tests compare generated text with golden files for a handful of pipelines.",
  ["builder/replica_pipeline.cc", "runtime/print.cc"],
  [("code generator", "builder/replica_pipeline.cc"), ("printer", "runtime/print.cc")],
  ["generated text"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
