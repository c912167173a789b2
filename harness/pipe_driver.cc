// Generates pipelines, runs them, records traces.  pipe_driver MODE SEED N KEEP OUT [FIRST]
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>

#include "pipe_run.h"

using namespace slinky;
using namespace vf;

namespace vf {
int tid() { return 0; }
std::string clocks() { return ""; }
const uint32_t* last_clock() { return nullptr; }
thread_local char* g_stack_lo = nullptr;
thread_local char* g_stack_hi = nullptr;
}

struct shared {
  volatile long index, generated, built, runs, kept, suspicious, calls, copies, allocs;
  volatile int len;
  char current[1 << 16];
};
static shared* sh;

// Limits the processor time (seconds) until the next call.
static void limit(int s) {
  itimerval t = {};
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
}


static bool execute(const std::string& mode, const std::string& seed, const model& m, std::ostream& out, long keep);

// Constraints that the buffers of the model satisfy.
static void constrain(rng& r, model& m) {
  std::vector<int> ext;
  for (size_t b = 0; b < m.bufs.size(); ++b)
    if ((m.bufs[b].kind == B_INPUT || m.bufs[b].kind == B_OUTPUT) && m.bufs[b].rank > 0 && m.bufs[b].bcast.empty()) ext.push_back(b);
  if (ext.empty() || r.chance(1, 3)) return;
  auto get = [&](int b, int d, int what) -> int64_t {
    const mbuf& B = m.bufs[b];
    if (what == 0) return B.lo[d];
    if (what == 1) return B.hi[d];
    int64_t stride = B.es;
    for (int k : B.order) {
      if (k == d) return B.neg[d] ? -stride : stride;
      stride *= std::max<int64_t>(1, B.hi[k] - B.lo[k] + 1);
      stride += B.gap[k] * B.es;
    }
    return 0;
  };
  int n = 1 + r.below(3);
  for (int i = 0; i < n; ++i) {
    int b = ext[r.below(ext.size())], d = r.below(m.bufs[b].rank), what = r.below(3);
    bool dup = false;
    for (auto& q : m.cons) dup = dup || (q.buf == b && q.dim == d && q.what == what) || (q.other == b && q.odim == d && q.what == what);
    if (dup) continue;
    int other = -1, od = 0;
    if (r.chance(1, 2)) {
      other = ext[r.below(ext.size())];
      od = r.below(m.bufs[other].rank);
      if (other == b) other = -1;
      for (auto& q : m.cons) if (q.buf == other && q.dim == od && q.what == what) other = -1;
    }
    m.cons.push_back({b, d, what, other, od, get(b, d, what) - (other >= 0 ? get(other, od, what) : 0)});
  }
}

static bool one(const std::string& mode, uint64_t seed, std::ostream& out, long keep) {
  rng r(seed);
  gen_options go;
  if (mode == "copy") { go.copy_bias = 3; }
  if (mode == "mem") { go.copies = false; go.multi_out = false; }
  if (getenv("VF_NOCOPY")) go.copies = false;
  if (getenv("VF_NOEXOTIC")) go.exotic = false;
  pipe_gen g(r, go);
  if (!g.generate()) return false;
  if (mode == "bufs") { g.m.no_checks = false; constrain(r, g.m); }
  if (mode == "trace") g.m.trace = true;
  ++sh->generated;
  if (getenv("VF_NOALIAS")) g.m.no_alias = true;
  return execute(mode, std::to_string(seed), g.m, out, keep);
}

static void emit(const std::string& mode, const std::string& seed, const std::string& mj, const runner& R, bool bad, const std::string& how, std::ostream& out) {
  bool untracked = false;
  for (auto& f : R.m.funcs) untracked = untracked || f.slinky_copy;
  out << "{\"k\":\"" << mode << "\",\"seed\":\"" << seed << "\",\"hint\":\"" << R.problem << "\"," << mj << ",\"untracked\":" << untracked
      << ",\"how\":[" << how << "],\"given\":" << R.givens_json() << ",\"init\":" << R.inputs_json() << ",\"extra\":[" << R.extra_json << "]" << ",\"ev\":" << R.events_json() << "}\n";
  if (bad) ++sh->suspicious; else ++sh->kept;
}

static bool execute(const std::string& mode, const std::string& seed, const model& m, std::ostream& out, long keep) {
  std::string mj = m.json();
  sh->len = std::min<size_t>(mj.size(), sizeof(sh->current) - 1);
  memcpy(sh->current, mj.c_str(), sh->len);
  limit(20);
  runner R(m);
  R.build();
  ++sh->built;
  bool verbose = getenv("VERIF_VERBOSE");
  if (verbose) {
    std::cerr << mj << "\n";
    std::cerr << std::tie(R.p.body, R.ctx) << std::endl;
  }
  auto go = [&](const run_options& o, const std::string& sub, const std::string& how, bool small) {
    R.work = 0; R.unrecordable = false; R.alloc_refused = false;
    R.run(o);
    sh->runs = sh->runs + 1;
    sh->calls += R.calls; sh->copies += R.copies; sh->allocs += R.allocs;
    if (verbose) std::cerr << how << "\nproblem: " << R.problem << "\n" << R.events_json() << "\n";
    bool bad = !R.problem.empty();
    if (R.unrecordable && !bad) return;
    small = small && R.work < 1500 && R.ev.size() < 150;
    if ((bad && sh->suspicious < 40) || (small && sh->kept < keep)) emit(mode, seed + sub, mj, R, bad, how, out);
  };
  rng r(std::stoull(seed) * 77 + 5);
  if (mode == "trace") {
    model plain = m;
    plain.trace = false;
    runner P(plain);
    P.build();
    run_options o;
    o.record = false;
    P.run(o);
    if (!P.problem.empty()) { limit(0); return true; }   // C01 judges these
  }
  if (mode == "run" || mode == "copy" || mode == "mem" || mode == "trace") {
    go(run_options(), "", "", true);
  } else if (mode == "fail") {
    run_options o;
    o.record = false;
    R.run(o);
    if (!R.problem.empty()) return true;   // C01 judges these
    int n = R.calls, na = R.allocs;
    std::vector<int> at;
    if (n <= 5) for (int i = 0; i < n; ++i) at.push_back(i);
    else { at = {0, n - 1}; for (int i = 0; i < 3; ++i) at.push_back(r.below(n)); }
    int chosen = r.below(at.size() + 1);
    for (size_t i = 0; i < at.size(); ++i) {
      o = run_options();
      o.fail_at = at[i];
      go(o, "+f" + std::to_string(at[i]), "\"fail\"," + std::to_string(at[i]), (int)i == chosen);
    }
    if (na > 0) {
      o = run_options();
      o.fail_alloc_at = r.below(na);
      go(o, "+a" + std::to_string(o.fail_alloc_at), "\"alloc\"," + std::to_string(o.fail_alloc_at), chosen == (int)at.size());
    }
  } else if (mode == "bufs") {
    std::vector<int> ext;
    for (size_t b = 0; b < m.bufs.size(); ++b)
      if (m.bufs[b].kind == B_INPUT || m.bufs[b].kind == B_OUTPUT) ext.push_back(b);
    int chosen = r.below(6);
    {
      run_options o;
      o.record = false;
      R.run(o);
      if (!R.problem.empty() && !m.cons.empty()) {
        model plain = m;
        plain.cons.clear();
        runner P(plain);
        P.build();
        P.run(o);
        if (P.problem.empty()) { go(run_options(), "", "", true); return true; }
      }
      if (!R.problem.empty()) { limit(0); return true; }   // C01 judges these
    }
    for (int i = 0; i < 6; ++i) {
      run_options o;
      model lay = m;
      std::string how;
      int n = i == 0 ? 0 : r.chance(1, 4) ? 2 : 1;
      bool harmless = true, changed = false;
      for (int q = 0; q < n; ++q) {
        int b = ext[r.below(ext.size())];
        mbuf& B = lay.bufs[b];
        bool from = false;
        for (auto& f : m.funcs) for (auto& in : f.ins) for (auto& c : in.icrop) from = from || c.from == b;
        int k = r.below(9);
        int d = B.rank ? r.below(B.rank) : 0;
        how += (how.empty() ? "" : ",") + std::string("\"") + std::to_string(b) + ":" + std::to_string(k) + ":" + std::to_string(d) + "\"";
        // Nothing checks that constants are large enough: they are part of the pipeline.
        bool consts = false;
        for (auto& c : m.bufs) consts = consts || c.kind == B_CONST;
        if (consts && B.kind == B_OUTPUT && k >= 5 && k <= 7) continue;
        bool twice = false;
        for (auto& dm : o.damages) twice = twice || dm.buf == b;
        if (twice && k < 3) continue;
        if (k == 0) { o.damages.push_back({b, true, 0, 0}); harmless = false; }
        else if (k == 1) { o.damages.push_back({b, false, r.chance(1, 2) && B.rank > 0 ? -1 : 1, 0}); harmless = false; }
        else if (k == 2) { o.damages.push_back({b, false, 0, r.pick({-B.es / 2, B.es, 4})}); harmless = false; }
        else if (B.rank == 0 || from) continue;
        else if (k == 3) { B.lo[d] += 1; changed = true; }
        else if (k == 4) { B.hi[d] -= 1; changed = true; }
        else if (k == 5) { B.lo[d] -= r.range(1, 3); changed = true; }
        else if (k == 6) { B.hi[d] += r.range(1, 3); changed = true; }
        else if (k == 7) { int64_t s = r.range(-2, 2); B.lo[d] += s; B.hi[d] += s; changed = true; }
        else { B.gap[d] = r.range(0, 3); changed = true; }
      }
      for (auto& B : lay.bufs) {   // what is outside of the box is not known to fit
        int64_t e = 1;
        for (size_t d = 0; d < B.lo.size(); ++d) { e *= std::max<int64_t>(0, B.hi[d] - B.lo[d] + 1); if (B.lo[d] < -50 || B.hi[d] > 90) e = 100000; }
        if (e > 2000) { harmless = false; changed = true; how = "skip"; }
      }
      if (how == "skip") continue;
      if (changed) o.layout = &lay;
      go(o, "+" + std::to_string(i), how, i == chosen);
    }
  }
  limit(0);
  return true;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  long n = atol(argv[3]), keep = atol(argv[4]);
  std::string path = argv[5];
  sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  init_thread_stack();
  if (argc > 6) {   // replay one
    std::ofstream out(path);
    if (mode == "file") {   // a file of models, one per line
      std::ifstream in(argv[6]);
      std::string line;
      while (std::getline(in, line)) {
        if (line.empty()) continue;
        jparser ps{line.c_str()};
        jval j = ps.value();
        fflush(nullptr); out.flush();
        pid_t pid = fork();
        if (pid == 0) {
          init_thread_stack();
          execute("run", j["seed"].s, model_of(j), out, 1000000);
          out.flush();
          _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
          out << "\n{\"k\":\"crash\",\"sig\":" << (WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) << ",\"seed\":\"" << j["seed"].s << "\","
              << std::string(sh->current, sh->len) << "}" << std::endl;
      }
      return 0;
    }
    one(mode, strtoull(argv[6], nullptr, 10), out, 1000000);
    return 0;
  }
  { std::ofstream out(path); }
  double secs = getenv("VERIF_SECONDS") ? atof(getenv("VERIF_SECONDS")) : 1e9;
  time_t t0 = time(nullptr);
  long next = 0;
  int crashes = 0;
  while (next < n && crashes < 6) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      init_thread_stack();
      std::ofstream out(path, std::ios::app);
      for (long i = next; i < n; ++i) {
        sh->index = i;
        if (difftime(time(nullptr), t0) > secs) break;
        one(mode, seed * 1000003 + i, out, keep);
        out.flush();
        if (i - next > 300) { ++sh->index; _exit(7); }   // start afresh now and then
      }
      sh->index = n;
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7)) { next = sh->index; continue; }
    ++crashes;
    std::ofstream out(path, std::ios::app);
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
    out << "\n{\"k\":\"crash\",\"sig\":" << sig << ",\"seed\":\"" << (seed * 1000003 + sh->index) << "\","
        << std::string(sh->current, sh->len) << "}\n";
    next = sh->index + 1;
  }
  printf("{\"generated\":%ld,\"built\":%ld,\"runs\":%ld,\"kept\":%ld,\"suspicious\":%ld,\"calls\":%ld,\"copies\":%ld,\"allocs\":%ld,\"crashes\":%d}\n",
      sh->generated, sh->built, sh->runs, sh->kept, sh->suspicious, sh->calls, sh->copies, sh->allocs, crashes);
  return 0;
}
