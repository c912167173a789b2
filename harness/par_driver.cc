// Runs pipelines with parallel loops on the real thread pool, under a scheduler that controls every interleaving.
// par_driver MODE SEED MODELS SCHEDULES KEEP OUT [SEED_OF_ONE]
#include "pipe_run.h"
#include "slinky/base/thread_pool_impl.h"

using namespace slinky;
using namespace vf;

static vsched::vclock at_;
namespace vf {
int tid() { return vsched::self(); }
const uint32_t* last_clock() { return at_.c; }
std::string clocks() {
  at_ = vsched::clock();
  std::string o = ",[";
  for (int i = 0; i < 6; ++i) o += (i ? "," : "") + num(at_.c[i]);
  return o + "]";
}
thread_local char* g_stack_lo = nullptr;
thread_local char* g_stack_hi = nullptr;
}

struct shared {
  volatile long generated, built, semaphores, schedules, kept, calls, copies, steps, suspicious, threads, overlaps, abandoned, nested;
  volatile int sched, len;
  char current[1 << 16];
};
static shared* sh;
static std::string out_path, cur_json, cur_how, cur_mode, cur_seed;
static runner* cur;
static bool argv_one;

static void emit() {
  bool untracked = false;
  for (auto& f : cur->m.funcs) untracked = untracked || f.slinky_copy;
  std::ofstream o(out_path, std::ios::app);
  o << "{\"k\":\"" << cur_mode << "\",\"seed\":\"" << cur_seed << "\",\"parallel\":1,\"hint\":\"" << cur->problem << "\"," << cur_json
    << ",\"untracked\":" << untracked << ",\"how\":[" << cur_how << "],\"given\":" << cur->givens_json() << ",\"init\":" << cur->inputs_json()
    << ",\"extra\":[" << cur->extra_json << "]" << ",\"ev\":" << cur->events_json() << "}\n";
  o.flush();
}

static void stuck(const char* why) {
  if (!strcmp(why, "too many steps") && cur->calls + cur->copies > 200) { ++sh->abandoned; _exit(0); }   // it is just much
  cur->ev.push_back("[\"stuck\"," + num(tid()) + "]");
  cur->problem = why;
  emit();
  ++sh->suspicious;
  _exit(8);
}

struct counting : public recursive_node_visitor {
  int semaphores = 0, depth = 0;
  bool nested = false;    // a pipelined loop in the body of a loop that is not serial
  void visit(const loop* op) override {
    bool s = !is_constant(op->max_workers, loop::serial);
    if (s) ++depth;
    recursive_node_visitor::visit(op);
    if (s) --depth;
  }
  void visit(const call* op) override {
    if (op->intrinsic == intrinsic::semaphore_wait) { ++semaphores; nested = nested || depth > 1; }
    recursive_node_visitor::visit(op);
  }
};

// One call at a time has something in progress on more than one thread?
static bool overlapping(const runner& R) {
  std::map<std::string, int> open;
  for (auto& e : R.ev) {
    if (e.size() < 6) continue;
    size_t c = e.find(',', 5);
    std::string t = e.substr(5, c - 5);
    if (e.compare(0, 4, "[\"b\"") == 0 || e.compare(0, 4, "[\"c\"") == 0) {
      for (auto& i : open) if (i.first != t && i.second > 0) return true;
      ++open[t];
    } else if (e.compare(0, 4, "[\"e\"") == 0 || e.compare(0, 4, "[\"d\"") == 0) --open[t];
  }
  return false;
}

// Half of the models are chosen to have pipelined loops, which are rare otherwise.
static void one(const std::string& mode, uint64_t seed, long per, long keep, int attempt = 0) {
  rng r(seed + attempt * 0x9e3779b97f4a7c15ull);
  gen_options go;
  go.parallel = true;
  go.max_funcs = 4;
  if (r.chance(1, 3)) go.copies = false;
  pipe_gen g(r, go);
  if (!g.generate()) {
    if (seed % 2 && attempt < 12) one(mode, seed, per, keep, attempt + 1);
    return;
  }
  if (getenv("VF_NOALIAS")) g.m.no_alias = true;
  cur_mode = mode;
  cur_seed = std::to_string(seed);
  cur_json = g.m.json();
  sh->len = std::min<size_t>(cur_json.size(), sizeof(sh->current) - 1);
  memcpy(sh->current, cur_json.c_str(), sh->len);
  runner R(g.m);
  cur = &R;
  R.build();
  counting ct;
  if (R.p.body.defined()) R.p.body.accept(&ct);
  if (seed % 2 && !ct.semaphores && attempt < 12) return one(mode, seed, per, keep, attempt + 1);
  ++sh->generated;
  ++sh->built;
  if (ct.semaphores) ++sh->semaphores; else per = std::max<long>(1, per / 4);
  bool verbose = getenv("VERIF_VERBOSE");
  // KNOWN_FINDINGS (nested_pipelines): threads that help each other can end up waiting for each other.
  if (ct.nested && !argv_one) { ++sh->nested; return; }
  if (verbose) {
    std::cerr << cur_json << "\n";
    std::cerr << std::tie(R.p.body, R.ctx) << std::endl;
  }
  long kept = 0;
  std::string last;
  int calls = 0;
  for (long k = 0; k < per; ++k) {
    vsched::strategy s;
    s.seed = seed * 7919 + k;
    s.switch_den = r.pick({1, 2, 4, 4, 16});
    s.burn_den = r.pick({2, 4, 1});
    s.spurious_den = r.chance(1, 5) ? 4 : 0;
    int workers = r.pick({0, 1, 1, 2, 2, 3});
    run_options o;
    o.yield = []() { vsched::point(); vsched::point(); };
    if (mode == "parfail") {
      if (calls == 0 && k > 0) break;
      if (k > 0) o.fail_at = r.below(calls);
    }
    sh->sched = k;
    cur_how = num(k) + "," + num(workers) + "," + num(o.fail_at);
    R.stacks.clear();
    vsched::run(s, [&]() {
      thread_pool_impl pool(workers);
      o.pool = &pool;
      R.work = 0; R.unrecordable = false; R.alloc_refused = false;
      R.run(o);
    });
    if (verbose) std::cerr << cur_how << "\nproblem: " << R.problem << "\n" << R.events_json() << "\n";
    if (k == 0) calls = R.calls;
    ++sh->schedules;
    sh->threads += workers;
    sh->steps += vsched::steps();
    sh->calls += R.calls; sh->copies += R.copies;
    bool bad = !R.problem.empty();
    if (mode == "parfail" && k == 0) { if (bad) break; continue; }
    bool ov = overlapping(R);
    if (ov) ++sh->overlaps;
    bool small = R.work < 1500 && R.ev.size() < 150 && !R.unrecordable;
    if ((bad && sh->suspicious < 20) || (small && ov && kept < 2 && sh->kept < keep && R.events_json() != last)) {
      emit();
      if (bad) ++sh->suspicious; else { ++sh->kept; ++kept; }
    }
    if (bad) break;
    last = R.events_json();
  }
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  long n = atol(argv[3]), per = atol(argv[4]), keep = atol(argv[5]);
  out_path = argv[6];
  argv_one = argc > 7;
  double secs = getenv("VERIF_SECONDS") ? atof(getenv("VERIF_SECONDS")) : 1e9;
  time_t t0 = time(nullptr);
  sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  { std::ofstream o(out_path); }
  vsched::on_stuck = stuck;
  vsched::on_thread = []() { cur->note_stack(); };
  int bad = 0;
  for (long i = 0; i < n && bad < 8; ++i) {
    if (difftime(time(nullptr), t0) > secs) break;
    uint64_t id = argc > 7 ? strtoull(argv[7], nullptr, 10) : seed * 1000003 + i;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      init_thread_stack();
      one(mode, id, per, keep);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (argc > 7) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    ++bad;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 8) continue;
    std::ofstream o(out_path, std::ios::app);
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
    o << "\n{\"k\":\"crash\",\"sig\":" << (sig == 14 ? 27 : sig) << ",\"how\":[" << sh->sched << "],\"seed\":\"" << id << "\"," << std::string(sh->current, sh->len) << "}\n";
  }
  printf("{\"generated\":%ld,\"built\":%ld,\"semaphores\":%ld,\"schedules\":%ld,\"overlaps\":%ld,\"steps\":%ld,\"kept\":%ld,\"suspicious\":%ld,\"calls\":%ld,\"copies\":%ld,\"stuck\":%d,\"abandoned\":%ld,\"nested\":%ld}\n",
      sh->generated, sh->built, sh->semaphores, sh->schedules, sh->overlaps, sh->steps, sh->kept, sh->suspicious, sh->calls, sh->copies, bad, sh->abandoned, sh->nested);
  return 0;
}
