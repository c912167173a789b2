// Runs programs of threads that use the thread pool under a scheduler that controls every interleaving, and records what
// happens.  pool_driver SEED PROGRAMS SCHEDULES KEEP OUT
#include "slinky/base/thread_pool_impl.h"

#include "rng.h"

using namespace slinky;
using vf::rng;

// ------------------------------------------------------------------------------------------------------------ programs
enum { O_ENQ, O_WAIT, O_FOR, O_ATOMIC, O_COND, O_IDLE };

struct op {
  int kind;
  int task = -1;       // ENQ, WAIT, FOR
  int counter = 0, value = 0;   // ATOMIC: counter += value; COND: waits for counter >= value
};

struct task_def {
  int n, mw;           // mw 0: not limited
  int chain = -1;      // item i waits until counter `chain` >= i, then increments it: a pipeline
  std::vector<op> body;   // what every item does
};

struct program {
  int workers;
  int runners;         // user threads that enter the pool as workers (run_worker)
  bool init;
  int ncounters;
  std::vector<task_def> tasks;
  std::vector<std::vector<op>> threads;
};

static void print(std::ostream& o, const std::vector<op>& b) {
  o << "[";
  for (size_t i = 0; i < b.size(); ++i)
    o << (i ? "," : "") << "[" << b[i].kind << "," << b[i].task << "," << b[i].counter << "," << b[i].value << "]";
  o << "]";
}

static std::string json(const program& p) {
  std::ostringstream o;
  o << "\"workers\":" << p.workers << ",\"runners\":" << p.runners << ",\"nc\":" << p.ncounters << ",\"tasks\":[";
  for (size_t i = 0; i < p.tasks.size(); ++i) {
    o << (i ? "," : "") << "{\"n\":" << p.tasks[i].n << ",\"mw\":" << p.tasks[i].mw << ",\"chain\":" << p.tasks[i].chain << ",\"body\":";
    print(o, p.tasks[i].body);
    o << "}";
  }
  o << "],\"threads\":[";
  for (size_t i = 0; i < p.threads.size(); ++i) { if (i) o << ","; print(o, p.threads[i]); }
  o << "]";
  return o.str();
}

struct gen {
  rng& r;
  program p;
  bool chained = false;

  int new_task(int depth, bool may_chain) {
    task_def t;
    t.n = r.range(1, depth ? 3 : 5);
    t.mw = r.pick({0, 0, 0, 1, 2, 3});
    if (may_chain && !chained && r.chance(1, 3)) {
      chained = true;
      t.n = r.range(2, 5);
      t.mw = r.range(1, 3);
      t.chain = p.ncounters++;
    }
    int id = p.tasks.size();
    p.tasks.push_back(t);
    std::vector<op> b;
    if (depth < 2 && p.tasks.size() < 5) {
      int k = r.pick({0, 0, 0, 1, 1, 2});
      for (int i = 0; i < k; ++i) {
        op o;
        if (r.chance(1, 2)) { o.kind = O_ATOMIC; o.counter = 0; o.value = 1; }
        else { o.kind = O_FOR; o.task = new_task(depth + 1, false); p.tasks[o.task].n = std::min(p.tasks[o.task].n, 3); }
        b.push_back(o);
      }
    }
    p.tasks[id].body = b;
    return id;
  }

  // How many times an op, run once, increments counter 0.
  int increments(const op& o) {
    if (o.kind == O_ATOMIC) return o.counter == 0 ? o.value : 0;
    if (o.kind == O_FOR || o.kind == O_ENQ) {
      int s = 0;
      for (auto& q : p.tasks[o.task].body) s += increments(q);
      return s * p.tasks[o.task].n;
    }
    return 0;
  }

  void generate() {
    p.workers = r.pick({0, 1, 1, 2, 2, 3});
    p.runners = r.pick({0, 0, 0, 1});
    p.init = r.chance(1, 6);
    p.ncounters = 2;       // 0: incremented by anything, 1: only by threads
    int nt = r.range(1, 3);
    p.threads.resize(nt);
    int v1 = 0;
    int total = r.range(1, 2 + nt);
    std::vector<int> enq;
    // A timeline of operations: one never waits for what only a later one does.
    for (int i = 0; i < total; ++i) {
      int th = r.below(nt);
      op o;
      int k = r.below(10);
      if (k < 3) { o.kind = O_FOR; o.task = new_task(0, true); }
      else if (k < 5) { o.kind = O_ENQ; o.task = new_task(0, true); enq.push_back(o.task); }
      else if (k < 7 && !enq.empty()) { o.kind = O_WAIT; o.task = r.pick(enq); }
      else if (k < 8 && v1 > 0) { o.kind = O_COND; o.counter = 1; o.value = v1; }
      else if (k < 9) { o.kind = O_ATOMIC; o.counter = 1; o.value = 1; ++v1; }
      else { o.kind = O_IDLE; }
      p.threads[th].push_back(o);
    }
    // Everything enqueued is waited for in the end, by one or several threads, or through what it does.
    int c0 = 0;
    for (auto& b : p.threads) for (auto& o : b) c0 += increments(o);
    bool by_count = c0 > 0 && r.chance(1, 2);
    if (by_count)
      for (int th = 0, first = r.below(nt); th < nt; ++th)
        if (th == first || r.chance(1, 3)) p.threads[th].push_back({O_COND, -1, 0, c0});
    for (int t : enq) {
      if (by_count && increments({O_ENQ, t}) > 0 && p.tasks[t].body.back().kind == O_ATOMIC) continue;
      int first = r.below(nt);
      for (int th = 0; th < nt; ++th)
        if (th == first || r.chance(1, 3)) p.threads[th].push_back({O_WAIT, t});
    }
    if (v1 > 0)
      for (int th = 0; th < nt; ++th)
        if (r.chance(1, 3)) p.threads[th].push_back({O_COND, -1, 1, v1});
  }
};

// --------------------------------------------------------------------------------------------------------------- running
static std::string ev;
static int nev;
static std::string last1, last2, last3;   // repeated failures of a condition are recorded once
// The clocks of the events, and a look for what is not ordered by synchronization although it must be.
struct stamp { char kind; int tid, k; vsched::vclock v; };
static std::vector<stamp> stamps;
static bool race;
static bool before(const stamp& a, const stamp& b) { return a.tid == b.tid || b.v.c[a.tid] >= a.v.c[a.tid]; }
static void look_for_races() {
  for (size_t j = 0; j < stamps.size(); ++j) {
    const stamp& b = stamps[j];
    for (size_t i = 0; i < j; ++i) {
      const stamp& a = stamps[i];
      bool must = (a.kind == 'e' && ((b.kind == 'W' && a.k == b.k) || b.kind == 'X')) || (a.kind == 'q' && b.kind == 's' && a.k == b.k) ||
                  ((a.kind == 'A' || a.kind == 'P') && (b.kind == 'a' || b.kind == 'p'));
      race = race || (must && !before(a, b));
    }
  }
}
static std::string clocks() {
  std::string r;
  for (const stamp& s : stamps) {
    r += r.empty() ? "[" : ",[";
    if (strchr("eWqsAPapX", s.kind))
      for (int i = 0; i < 10; ++i) r += (i ? "," : "") + std::to_string(s.v.c[i]);
    r += "]";
  }
  return r;
}
static void event(const std::string& s, const vsched::vclock* at = nullptr) {
  stamp st{s[2], -1, -1, at ? *at : vsched::clock()};
  if (s[3] != '"') st.kind = '-';
  sscanf(s.c_str() + 5, "%d,%d", &st.tid, &st.k);
  if (st.tid < 0 || st.tid >= 10) st.kind = '-', st.tid = 0;
  stamps.push_back(st);
  if (nev++) ev += ",";
  ev += s;
  if (s[2] == 'P' && s[s.size() - 2] == '0' && s == last2 && last1 == last3) {
    ev.resize(ev.size() - s.size() - last1.size() - 2);
    nev -= 2;
    stamps.resize(stamps.size() - 2);
    last1 = last2;
    last2 = last3;
    last3 = "";
    return;
  }
  last3 = last2; last2 = last1; last1 = s;
}
static std::string num(int x) { return std::to_string(x); }

// A quick look at the events decides which runs the specification surely gets to see.
struct monitor {
  struct task { int n, mw; std::set<int> started, ended, workers; };
  std::map<int, task> tasks;
  std::map<int, std::vector<int>> stack;
  int region = -1;
  std::map<int, int> last;
  bool odd = false;
  void enqueue(int k, int n, int mw) { tasks[k] = {n, mw}; }
  void start(int t, int k, int i) {
    task& T = tasks[k];
    T.workers.insert(t);
    odd = odd || i < 0 || i >= T.n || !T.started.insert(i).second || (T.mw && (int)T.workers.size() > T.mw) || region == t;
    for (int q : stack[t]) odd = odd || q == k;
    stack[t].push_back(k);
    int before = 0;
    for (int j = 0; j < i; ++j) before += !T.started.count(j);
    odd = odd || (T.mw && before > T.mw - 1);
  }
  void end(int t, int k, int i) { tasks[k].ended.insert(i); if (!stack[t].empty()) stack[t].pop_back(); }
  void waited(int k) { odd = odd || (int)tasks[k].ended.size() != tasks[k].n; }
  void enter(int t) { odd = odd || region != -1; region = t; }
  void leave() { region = -1; }
  void finish() { for (auto& t : tasks) waited(t.first); }
};
static monitor mon;

static const program* P;
static thread_pool_impl* pool;
static std::vector<ref_count<thread_pool::task>> handles;
static std::vector<int> published;
static std::vector<int> counters;
static int instances;      // tasks are numbered as they are enqueued
static std::vector<int> instance_of;
static int conds, live_tags;

struct tag {      // counts the copies of a body that exist
  tag() { ++live_tags; }
  tag(const tag&) { ++live_tags; }
  ~tag() { --live_tags; }
};

static void run_ops(const std::vector<op>& b);

static thread_pool::task_body body_of(int t, int inst) {
  return [t, inst, guard = tag()](std::size_t i) {
    int me = vsched::self();
    mon.start(me, inst, (int)i);
    event("[\"s\"," + num(me) + "," + num(inst) + "," + num((int)i) + "]");
    vsched::point();
    const task_def& d = P->tasks[t];
    if (d.chain >= 0) {
      int c = conds++;
      event("[\"c\"," + num(me) + "," + num(c) + "," + num(d.chain) + "," + num((int)i) + "]");
      pool->wait_for([&]() {
        mon.enter(vsched::self());
        event("[\"p\"," + num(vsched::self()) + "," + num(c) + "]");
        vsched::point();
        bool b = counters[d.chain] >= (int)i;
        mon.last[c] = b;
        mon.leave();
        event("[\"P\"," + num(vsched::self()) + "," + num(c) + "," + num(b) + "]");
        return b;
      });
      mon.odd = mon.odd || !mon.last[c];
      event("[\"C\"," + num(me) + "," + num(c) + "]");
    }
    run_ops(d.body);
    if (d.chain >= 0) run_ops({{O_ATOMIC, -1, d.chain, 1}});
    mon.end(me, inst, (int)i);
    event("[\"e\"," + num(me) + "," + num(inst) + "," + num((int)i) + "]");
    vsched::point();
  };
}

static int mw_of(const task_def& d) { return d.mw ? d.mw : std::numeric_limits<int>::max(); }

static void run_ops(const std::vector<op>& b) {
  int me = vsched::self();
  for (const op& o : b) {
    switch (o.kind) {
    case O_ENQ: {
      int inst = instances++;
      const task_def& d = P->tasks[o.task];
      mon.enqueue(inst, d.n, d.mw);
      event("[\"q\"," + num(me) + "," + num(inst) + "," + num(d.n) + "," + num(d.mw) + "]");
      handles[o.task] = pool->enqueue(d.n, body_of(o.task, inst), mw_of(d));
      instance_of[o.task] = inst;
      int c = conds++;
      (void)c;
      pool->atomic_call([&]() { published[o.task] = 1; });
      break;
    }
    case O_WAIT: {
      if (!published[o.task]) {
        pool->wait_for([&]() { return published[o.task] != 0; });
      }
      int inst = instance_of[o.task];
      event("[\"w\"," + num(me) + "," + num(inst) + "]");
      pool->wait_for(&*handles[o.task]);
      mon.waited(inst);
      vsched::vclock at = vsched::clock();
      event("[\"W\"," + num(me) + "," + num(inst) + "," + num(handles[o.task]->done()) + "]", &at);
      break;
    }
    case O_FOR: {
      int inst = instances++;
      const task_def& d = P->tasks[o.task];
      mon.enqueue(inst, d.n, d.mw);
      event("[\"q\"," + num(me) + "," + num(inst) + "," + num(d.n) + "," + num(d.mw) + "]");
      event("[\"w\"," + num(me) + "," + num(inst) + "]");
      pool->parallel_for(d.n, body_of(o.task, inst), mw_of(d));
      mon.waited(inst);
      event("[\"W\"," + num(me) + "," + num(inst) + ",1]");
      break;
    }
    case O_ATOMIC: {
      event("[\"a0\"," + num(me) + "]");
      pool->atomic_call([&]() {
        mon.enter(vsched::self());
        event("[\"a\"," + num(vsched::self()) + "]");
        vsched::point();
        counters[o.counter] += o.value;
        mon.leave();
        event("[\"A\"," + num(vsched::self()) + "," + num(o.counter) + "," + num(o.value) + "]");
      });
      event("[\"A1\"," + num(me) + "]");
      break;
    }
    case O_COND: {
      int c = conds++;
      event("[\"c\"," + num(me) + "," + num(c) + "," + num(o.counter) + "," + num(o.value) + "]");
      pool->wait_for([&]() {
        mon.enter(vsched::self());
        event("[\"p\"," + num(vsched::self()) + "," + num(c) + "]");
        vsched::point();
        bool r = counters[o.counter] >= o.value;
        mon.last[c] = r;
        mon.leave();
        event("[\"P\"," + num(vsched::self()) + "," + num(c) + "," + num(r) + "]");
        return r;
      });
      mon.odd = mon.odd || !mon.last[c];
      event("[\"C\"," + num(me) + "," + num(c) + "]");
      break;
    }
    case O_IDLE:
      event("[\"i\"," + num(me) + "]");
      pool->work_until_idle();
      event("[\"I\"," + num(me) + "]");
      break;
    }
  }
}

static std::string problem;
static void run_program(const program& p) {
  P = &p;
  mon = monitor();
  last1 = last2 = last3 = "";
  ev.clear(); nev = 0; stamps.clear(); race = false; instances = 0; conds = 0; live_tags = 0;
  handles.clear();
  handles.resize(p.tasks.size());
  published.assign(p.tasks.size(), 0);
  instance_of.assign(p.tasks.size(), -1);
  counters.assign(p.ncounters, 0);
  int inits = 0;
  bool runners_stop = false;
  {
    thread_pool_impl tp(p.workers, p.init ? function_ref<void()>() : function_ref<void()>());
    pool = &tp;
    if (p.runners) tp.expect_workers(p.workers + p.runners);
    std::vector<std::thread> users;
    for (int i = 0; i < p.runners; ++i)
      users.push_back(std::thread([&, i]() {
        event("[\"r\"," + num(vsched::self()) + "]");
        tp.run_worker([&]() { return runners_stop; });
        event("[\"R\"," + num(vsched::self()) + "]");
      }));
    std::vector<std::thread> main_users;
    for (size_t i = 1; i < p.threads.size(); ++i) main_users.push_back(std::thread([&, i]() { run_ops(p.threads[i]); }));
    run_ops(p.threads[0]);
    for (auto& t : main_users) t.join();
    tp.atomic_call([&]() { runners_stop = true; });
    for (auto& t : users) t.join();
    event("[\"x\"," + num(vsched::self()) + "]");
    handles.clear();
  }
  pool = nullptr;
  event("[\"X\"," + num(vsched::self()) + "]");
  event("[\"end\"," + num(live_tags) + "]");
  (void)inits;
}

struct shared {
  volatile long programs, schedules, kept, steps, suspicious;
  volatile int sched;
  char current[1 << 14];
};
static shared* sh;
static std::string out_path, cur_json, cur_sched;

static void emit(const char* hint) {
  std::ofstream o(out_path, std::ios::app);
  o << "{\"k\":\"pool\"," << cur_json << ",\"sched\":" << cur_sched << ",\"hint\":\"" << hint << "\",\"ev\":[" << ev << "],\"vc\":[" << clocks() << "]}\n";
  o.flush();
}

static void stuck(const char* why) {
  event("[\"stuck\",\"" + std::string(why) + "\"]");
  emit(why);
  _exit(8);
}

// A quick look at the events: runs whose trace is certain to be bad are always given to the specification.
static bool strange() {
  mon.finish();
  look_for_races();
  return mon.odd || live_tags != 0 || race;
}

int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  long n = atol(argv[2]), per = atol(argv[3]), keep = atol(argv[4]);
  out_path = argv[5];
  bool systematic = argc > 6 && std::string(argv[6]) == "dfs";
  double secs = getenv("VERIF_SECONDS") ? atof(getenv("VERIF_SECONDS")) : 1e9;
  time_t t0 = time(nullptr);
  sh = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  { std::ofstream o(out_path); }
  vsched::on_stuck = stuck;
  int bad = 0;
  for (long i = 0; i < n && bad < 6; ++i) {
    if (difftime(time(nullptr), t0) > secs) break;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      rng r(seed * 1000003 + i);
      gen g{r};
      g.generate();
      cur_json = "\"seed\":\"" + std::to_string(seed * 1000003 + i) + "\"," + json(g.p);
      std::string last;
      long kept = 0;
      std::vector<std::pair<int, int>> prefix;
      for (long k = 0; k < per; ++k) {
        vsched::strategy s;
        if (systematic) { s.limit = 2; s.prefix = prefix; }
        else {
          s.seed = (seed * 1000003 + i) * 7919 + k;
          s.switch_den = r.pick({2, 4, 4, 16, 50});
          s.burn_den = r.pick({2, 4, 1});
          s.spurious_den = r.chance(1, 5) ? 4 : 0;
        }
        sh->sched = k;
        cur_sched = std::to_string(k);
        vsched::run(s, [&]() { run_program(g.p); });
        sh->steps += vsched::steps();
        ++sh->schedules;
        bool odd = strange();
        if ((odd && sh->suspicious < 20) || (ev != last && ev.size() < 12000 && kept < keep && (kept == 0 || k % 7 == 3))) {
          emit(odd ? "odd" : "");
          if (odd) ++sh->suspicious; else { ++kept; ++sh->kept; }
        }
        last = ev;
        if (systematic && !vsched::next_prefix(prefix)) break;
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    ++sh->programs;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    ++bad;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 8) continue;
    std::ofstream o(out_path, std::ios::app);
    o << "\n{\"k\":\"crash\",\"sig\":" << (WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)) << ",\"sched\":" << sh->sched << ",\"seed\":\"" << (seed * 1000003 + i) << "\"}\n";
  }
  printf("{\"generated\":%ld,\"schedules\":%ld,\"steps\":%ld,\"kept\":%ld,\"stuck\":%d}\n", sh->programs, sh->schedules, sh->steps, sh->kept, bad);
  return 0;
}
