// Reference counted objects (base/ref_count.h).
//   ref_driver replay FILE OUT        replays sequences of operations enumerated from spec/RefCount.tla
//   ref_driver threads SEED N PER KEEP OUT   random programs of several threads under the controlled scheduler; traces
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "rng.h"
#include "slinky/base/ref_count.h"
#include "vsched.h"

using namespace slinky;

struct base : public ref_counted<base> {
  static void destroy(base* p);
};
struct obj : public base {
  int id = 0;
  int payload = 0;
  slinky::ref_count<base> next;
  obj(int id) : id(id) {}
  obj(const obj& o) : base(o), payload(o.payload) {}
  obj& operator=(const obj& o) { base::operator=(o); payload = o.payload; return *this; }
};
typedef ref_count<base> ref;
static obj* as(base* p) { return static_cast<obj*>(p); }

// Objects live in memory that is never freed, so that what happens to them after their destruction can be seen.
constexpr int max_objs = 24;
alignas(64) static char pool[max_objs][256];
static int nobjs;
static int destroyed[max_objs + 1];
static bool poisoned[max_objs + 1];
static void (*on_destroy)(int id);
static obj* make(int id) {
  static_assert(sizeof(obj) <= 256, "");
  return new (pool[id - 1]) obj(id);
}
static obj* make() { return make(++nobjs); }
void base::destroy(base* p) {
  obj* o = as(p);
  int id = ((char*)o - pool[0]) / 256 + 1;
  ++destroyed[id];
  if (on_destroy) on_destroy(id);
  if (destroyed[id] > 1) return;
  vsched::point();
  o->~obj();
  memset((void*)o, 0xee, 256);
  poisoned[id] = true;
}
static bool touched() {
  for (int i = 1; i <= nobjs; ++i)
    if (destroyed[i])
      for (int k = 0; k < 256; ++k) if ((unsigned char)pool[i - 1][k] != 0xee) return true;
  return false;
}
static int id_of(const base* p) { return p ? (int)(((char*)p - pool[0]) / 256) + 1 : 0; }

constexpr int max_slots = 10;
alignas(16) static char slot_mem[max_slots][sizeof(ref)];
static bool has[max_slots];
static ref& slot(int i) { return *(ref*)slot_mem[i]; }
static base* raw;

static const char* names[] = {"new", "null", "copyc", "movec", "asg", "mvasg", "asgraw", "asgnew", "clear", "swap", "drop", "take", "assume",
    "setn", "mvn", "getn", "mgetn", "dup", "conv", "addrel", "clone"};
static void apply(const std::string& n, int s, int t, obj* fresh) {
  if (n == "new") { new (slot_mem[s]) ref(fresh); has[s] = true; }
  else if (n == "null") { new (slot_mem[s]) ref(); has[s] = true; }
  else if (n == "copyc") { new (slot_mem[s]) ref(slot(t)); has[s] = true; }
  else if (n == "movec") { new (slot_mem[s]) ref(std::move(slot(t))); has[s] = true; }
  else if (n == "asg") slot(s) = slot(t);
  else if (n == "mvasg") slot(s) = std::move(slot(t));
  else if (n == "asgraw") slot(s) = (base*)slot(t);
  else if (n == "asgnew") slot(s) = fresh;
  else if (n == "clear") slot(s) = nullptr;
  else if (n == "swap") std::swap(slot(s), slot(t));
  else if (n == "drop") { slot(s).~ref(); has[s] = false; }
  else if (n == "take") raw = slot(s).take();
  else if (n == "assume") { new (slot_mem[s]) ref(ref::assume(raw)); raw = nullptr; has[s] = true; }
  else if (n == "setn") as(slot(s))->next = slot(t);
  else if (n == "mvn") as(slot(s))->next = std::move(slot(t));
  else if (n == "getn") slot(s) = as(slot(t))->next;
  else if (n == "mgetn") slot(s) = std::move(as(slot(t))->next);
  else if (n == "dup") *as(slot(s)) = *as(slot(t));
  else if (n == "clone") { new (slot_mem[s]) ref(fresh); has[s] = true; }
  else if (n == "conv") { ref_count<const base> c = slot(s); if ((const base*)c != (const base*)slot(s)) ++destroyed[max_objs]; }
  else if (n == "addrel") { slot(s)->add_ref(); slot(s)->release(); }
}

static int replay(const char* in, const char* out) {
  std::ifstream f(in);
  std::ofstream o(out);
  long n = 0, bad = 0;
  int k;
  // nslots, number of ops, the ops, self, the slots, raw, number of objects, next.., count..
  int ns, nops;
  while (f >> ns >> nops) {
    nobjs = 0;
    raw = nullptr;
    memset(destroyed, 0, sizeof(destroyed));
  memset(poisoned, 0, sizeof(poisoned));
    memset(has, 0, sizeof(has));
    std::string did, last;
    for (int i = 0; i < nops; ++i) {
      std::string name;
      int s, t;
      f >> name >> s >> t;
      did += (i ? "; " : "") + name + " " + std::to_string(s) + " " + std::to_string(t);
      obj* fresh = name == "new" || name == "asgnew" ? make() : nullptr;
      if (name == "clone") ++nobjs, fresh = new (pool[nobjs - 1]) obj(*as(slot(t))), fresh->id = nobjs;
      last = name;
      apply(name, s, t, fresh);
    }
    int self;
    f >> self;
    std::string why;
    std::vector<int> want(ns);
    for (int i = 0; i < ns; ++i) f >> want[i];
    int wraw, no;
    f >> wraw >> no;
    std::vector<int> nx(no), c(no);
    for (int& x : nx) f >> x;
    for (int& x : c) f >> x;
    ++n;
    auto check = [&]() -> std::string {
      for (int i = 0; i < ns; ++i) {
        int h = has[i] ? id_of(slot(i)) : -2;
        if (h != want[i]) return "handle " + std::to_string(i) + " refers to " + std::to_string(h) + " instead of " + std::to_string(want[i]);
      }
      if (id_of(raw) != wraw) return "take() returned another object";
      if (destroyed[max_objs]) return "a converted handle refers to another object";
      for (int i = 0; i < no; ++i) {
        if (destroyed[i + 1] > 1) return "an object is destroyed twice";
        if (c[i] < 0 && !destroyed[i + 1]) return "an object without references is not destroyed";
        if (c[i] >= 0 && destroyed[i + 1]) return "an object is destroyed although it is referenced";
        if (c[i] >= 0 && ((obj*)pool[i])->ref_count() != c[i]) return "the number of references is wrong";
        if (c[i] >= 0 && id_of(((obj*)pool[i])->next) != nx[i]) return "a handle held by an object is wrong";
      }
      if (touched()) return "an object is used after its destruction";
      return "";
    };
    if (self) {
      // The handle may also be unchanged.
      int s = 0;
      sscanf(did.c_str() + did.rfind(' '), "%d", &s);
      if (has[s] && id_of(slot(s)) != 0) why = id_of(slot(s)) && destroyed[id_of(slot(s))] ? "an object is destroyed although it is referenced" : touched() ? "an object is used after its destruction" : "";
      else why = check();
    } else why = check();
    if (!why.empty()) {
      ++bad;
      if (bad < 200) o << "{\"k\":\"replay\",\"ops\":\"" << did << "\",\"why\":\"" << why << "\"}\n";
    }
  }
  printf("{\"replayed\":%ld,\"bad\":%ld}\n", n, bad);
  return 0;
}

// ---------------------------------------------------------------------------------------------------------------- threads
struct op { std::string n; int s, t; };
struct program { int nthreads = 2, per = 2; std::vector<std::vector<op>> ops; };   // thread i has the slots per*i .. per*i+per-1; the last slot is shared

static std::string ev, vcs;
static std::vector<vsched::vclock> uses[max_objs + 1];
static std::vector<int> users[max_objs + 1];
static bool odd;
static void event(const std::string& s, bool clock) {
  vsched::vclock v = vsched::clock();
  if (!ev.empty()) ev += ",", vcs += ",";
  ev += s;
  vcs += "[";
  if (clock) for (int i = 0; i < 5; ++i) vcs += (i ? "," : "") + std::to_string(v.c[i]);
  vcs += "]";
}
static std::string num(int x) { return std::to_string(x); }
static void destroy_event(int id) {
  vsched::vclock v = vsched::clock();
  odd = odd || destroyed[id] > 1;
  for (size_t i = 0; i < uses[id].size(); ++i) odd = odd || v.c[users[id][i]] < uses[id][i].c[users[id][i]];
  event("[\"d\"," + num(vsched::self()) + "," + num(id) + "]", true);
}

static void atomic_event(const void* at) {
  if ((char*)at < pool[0] || (char*)at >= pool[max_objs]) return;
  if (!poisoned[id_of((const base*)at)]) return;
  odd = true;
  event("[\"touched\",0]", false);
}

static void run_thread(const program& p, int th, std::mutex* m, int shared_slot) {
  int me = vsched::self();
  for (const op& o : p.ops[th]) {
    int s = th * p.per + o.s, t = th * p.per + o.t;
    auto ok = [&](int i) { return has[i]; };
    auto is = [&](int i) { return has[i] && (base*)slot(i); };
    if (o.n == "use") {
      if (!is(s)) continue;
      obj* x = as(slot(s));
      vsched::vclock v = vsched::clock();
      uses[id_of(x)].push_back(v);
      users[id_of(x)].push_back(me);
      event("[\"u\"," + num(me) + "," + num(s) + "," + num(id_of(x)) + "," + num(destroyed[id_of(x)]) + "]", true);
      vsched::point();
      continue;
    }
    if (o.n == "put" || o.n == "get") {
      // through a slot that all threads use, under a lock
      std::unique_lock<std::mutex> l(*m);
      if (!has[s]) continue;
      int a = o.n == "put" ? shared_slot : s, b = o.n == "put" ? s : shared_slot;
      event("[\"o\"," + num(me) + ",\"" + (o.t ? "mvasg" : "asg") + "\"," + num(a) + "," + num(b) + "]", false);
      apply(o.t ? "mvasg" : "asg", a, b, nullptr);
      event("[\"v\"," + num(me) + "," + num(id_of(slot(a))) + "," + num(id_of(slot(b))) + "]", false);
      continue;
    }
    for (const char* one : {"new", "null", "asgnew", "clear", "drop", "conv", "addrel"}) if (o.n == one) t = s;
    if (o.n == "swap" && t < s) std::swap(s, t);
    bool fresh = o.n == "new" || o.n == "asgnew";
    if (fresh && nobjs >= max_objs - 1) continue;
    if (o.n == "new" || o.n == "null" || o.n == "copyc" || o.n == "movec") { if (ok(s)) continue; }
    else if (!ok(s)) continue;
    if ((o.n == "copyc" || o.n == "movec" || o.n == "asg" || o.n == "mvasg" || o.n == "asgraw" || o.n == "swap") && !ok(t)) continue;
    if (o.n == "addrel" && !is(s)) continue;
    if (o.n == "mvasg" && s == t) continue;
    event("[\"o\"," + num(me) + ",\"" + o.n + "\"," + num(s) + "," + num(t) + "]", false);
    apply(o.n, s, t, fresh ? make() : nullptr);
    event("[\"v\"," + num(me) + "," + num(has[s] ? id_of(slot(s)) : -2) + "," + num(has[t] ? id_of(slot(t)) : -2) + "]", false);
  }
  for (int i = th * p.per; i < th * p.per + p.per; ++i) {
    if (!has[i]) continue;
    event("[\"o\"," + num(me) + ",\"drop\"," + num(i) + "," + num(i) + "]", false);
    apply("drop", i, i, nullptr);
    event("[\"v\"," + num(me) + ",-2,-2]", false);
  }
}

static void run_program(const program& p) {
  ev.clear(); vcs.clear(); odd = false;
  nobjs = 0;
  raw = nullptr;
  memset(destroyed, 0, sizeof(destroyed));
  memset(poisoned, 0, sizeof(poisoned));
  memset(has, 0, sizeof(has));
  for (auto& u : uses) u.clear();
  for (auto& u : users) u.clear();
  on_destroy = destroy_event;
  vsched::on_atomic = atomic_event;
  {
    std::mutex m;
    int shared_slot = p.nthreads * p.per;
    auto simple = [&](const char* n, int s, int t) {
      event("[\"o\",0,\"" + std::string(n) + "\"," + num(s) + "," + num(t) + "]", false);
      apply(n, s, t, !strcmp(n, "new") ? make() : nullptr);
      event("[\"v\",0," + num(has[s] ? id_of(slot(s)) : -2) + "," + num(has[t] ? id_of(slot(t)) : -2) + "]", false);
    };
    // The first slots of all threads refer to the same object, the second to another.
    simple("new", shared_slot, shared_slot);
    for (int i = 0; i < p.nthreads; ++i) simple("copyc", i * p.per, shared_slot);
    if (p.per > 1) {
      simple("new", 1, 1);
      for (int i = 1; i < p.nthreads; ++i) simple("copyc", i * p.per + 1, 1);
    }
    simple("clear", shared_slot, shared_slot);
    std::vector<std::thread> ts;
    for (int i = 1; i < p.nthreads; ++i) ts.push_back(std::thread([&, i]() { run_thread(p, i, &m, shared_slot); }));
    run_thread(p, 0, &m, shared_slot);
    for (auto& t : ts) t.join();
    simple("drop", shared_slot, shared_slot);
  }
  event("[\"end\",0]", false);
  for (int i = 1; i <= nobjs; ++i) odd = odd || destroyed[i] != 1;
  odd = odd || touched();
  if (touched()) event("[\"touched\",0]", false);
}

static std::string out_path;
static std::string cur;
static void emit(const char* hint) {
  std::ofstream o(out_path, std::ios::app);
  o << "{\"k\":\"ref\"," << cur << ",\"hint\":\"" << hint << "\",\"ev\":[" << ev << "],\"vc\":[" << vcs << "]}\n";
}
static void stuck(const char* why) {
  event("[\"stuck\",0]", false);
  emit(why);
  _exit(8);
}

static int threads(uint64_t seed, long n, long per, long keep, bool systematic) {
  vsched::on_stuck = stuck;
  long schedules = 0, kept = 0, suspicious = 0;
  { std::ofstream o(out_path); }
  for (long i = 0; i < n; ++i) {
    vf::rng r(seed * 1000003 + i);
    program p;
    p.nthreads = (int)r.range(2, systematic ? 2 : 4);
    p.per = (int)r.range(1, 2);
    for (int t = 0; t < p.nthreads; ++t) {
      std::vector<op> o;
      int k = (int)r.range(1, systematic ? 3 : 6);
      for (int j = 0; j < k; ++j) {
        const char* n = r.pick({"use", "use", "copyc", "movec", "asg", "asg", "mvasg", "asgraw", "asgnew", "clear", "swap", "drop", "drop", "new", "null", "conv", "addrel", "put", "put", "get", "get"});
        int s = (int)r.below(p.per), q = (int)r.below(p.per);
        if (!strcmp(n, "put") || !strcmp(n, "get")) q = (int)r.below(2);
        o.push_back({n, s, q});
      }
      p.ops.push_back(o);
    }
    std::string last;
    long kept1 = 0;
    std::vector<std::pair<int, int>> prefix;
    for (long k = 0; k < per; ++k) {
      vsched::strategy s;
      if (systematic) { s.limit = 3; s.prefix = prefix; }
      else {
        s.seed = (seed * 1000003 + i) * 7919 + k;
        s.switch_den = r.pick({1, 2, 2, 4, 8});
      }
      cur = "\"seed\":\"" + std::to_string(seed * 1000003 + i) + "\",\"sched\":" + std::to_string(k) + ",\"slots\":" + std::to_string(p.nthreads * p.per + 1) + ",\"threads\":" + std::to_string(p.nthreads);
      vsched::run(s, [&]() { run_program(p); });
      ++schedules;
      if ((odd && suspicious < 20) || (ev != last && kept1 < keep && (k % 5 == 0))) {
        emit(odd ? "odd" : "");
        if (odd) ++suspicious; else { ++kept1; ++kept; }
      }
      last = ev;
      if (systematic && !vsched::next_prefix(prefix)) break;
    }
  }
  printf("{\"programs\":%ld,\"schedules\":%ld,\"kept\":%ld,\"suspicious\":%ld}\n", n, schedules, kept, suspicious);
  return 0;
}

int main(int argc, char** argv) {
  if (!strcmp(argv[1], "replay")) return replay(argv[2], argv[3]);
  out_path = argv[6];
  return threads(strtoull(argv[2], 0, 10), atol(argv[3]), atol(argv[4]), atol(argv[5]), argc > 7);
}
