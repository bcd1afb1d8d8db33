// Simulated OpenMP runtime: threads are fibers; the seeded scheduler may switch before every instrumented memory access
// and at every runtime call.
#include "omprun.h"
#include <algorithm>
#include <deque>
#include <dlfcn.h>
#include <malloc.h>

extern "C" void _gfortran_flush_i4(int*);
namespace sim {

OmpRun* g_omprun = nullptr;
OmpSpec g_ompspec;

struct Task;
struct OThread {
  Fiber* f = nullptr;
  Team* team = nullptr;
  int tid = 0;
  u64 ws = 0;                 // work-sharing constructs met
  Task* task = nullptr;
  std::function<bool()> cond;
  bool blocked = false;
  const char* what = "";
  bool done = false;
  int nthr = 0;               // nthreads-var
  int nest = 0;
  int league = 0, nleague = 1;
  int region = 0;             // enclosing league run (for the end of it)
  bool hostreg = false;       // a device region that is executed by the host
  int limit = 0;              // thread limit of the team
};
struct WS {
  i64 start = 0, end = 0, incr = 1, chunk = 1, n = 0, next = 0;
  int kind = 1;
  std::vector<i64> pos;
  std::deque<std::pair<int, int>> order;
  std::vector<bool> has;
  int left = 0;
  bool single_taken = false, copy_set = false;
  void* copy = nullptr;
  void* mem = nullptr;
  int secs = 0, nextsec = 1;
};
struct TaskGroup { int live = 0; TaskGroup* up = nullptr; u64* reds = nullptr; };     // reds: task reductions, in the compiler's layout
struct Task {
  void (*fn)(void*) = nullptr;
  char* data = nullptr;
  Task* parent = nullptr;
  int children = 0;
  TaskGroup *group = nullptr, *owner = nullptr;     // innermost group of the code in this task; the group which waits for it
  int before = 0;              // unfinished tasks this one depends on
  std::vector<Task*> after;    // tasks which depend on this one
  std::vector<std::pair<void*, bool>> deps;
  bool done = false, queued = false;
};
struct Team {
  int n = 1;
  std::vector<OThread*> th;
  u64 gen = 0;
  int arrived = 0;
  int finished = 0;
  std::map<u64, WS*> ws;
  std::deque<Task*> ready;
  int ntasks = 0;
  std::vector<Task*> deptasks; // unfinished tasks with a depend clause
  u64 epoch = 0;
  WS* first = nullptr;
};
struct Pool {
  std::vector<OThread*> th;
  size_t live = 0;
};
static std::map<Proc*, Pool*> g_pools;
static std::map<const void*, std::pair<OThread*, int>> g_mutex;   // holder, depth
static u64 g_epochs = 0;
static double g_wtime = 0;

static Pool* pool() {
  Pool*& p = g_pools[g_cur->proc];
  if (!p) p = new Pool;
  return p;
}
static OThread* self() {
  OThread* t = (OThread*) g_cur->omp;
  if (!t) {
    t = new OThread;
    t->f = g_cur;
    t->nthr = g_ompspec.threads;
    g_cur->omp = t;
    Pool* p = pool();
    p->th.push_back(t);
    p->live++;
  }
  return t;
}
static bool runnable(OThread* t) {
  if (t->done) return false;
  return !t->blocked || t->cond();
}
static void go(OThread* t) {
  if (t->f == g_cur) return;
  schedhash((u64) (t->tid + 64 * t->league) + 4096);
  fiber_jump(t->f);
}
// the current thread cannot go on: run another one
static void forced_switch() {
  Pool* p = pool();
  std::vector<OThread*> r;
  for (auto t : p->th) if (runnable(t)) r.push_back(t);
  if (r.empty()) {
    std::string s;
    for (auto t : p->th) if (!t->done) s += fmt(" thread %d in %s;", t->tid, t->what);
    if (g_omprun) g_omprun->deadlock = true;
    proc_end(END_CRASH, 125, "threads are deadlocked:" + s);
  }
  u32 k = r.size() > 1 ? choose((u32) r.size(), g_ompspec.p_pick) : 0;
  go(r[k]);
}
void omp_block(const char* what, std::function<bool()> cond) {
  OThread* me = self();
  while (!cond()) {
    me->what = what;
    me->cond = cond;
    me->blocked = true;
    forced_switch();
    me->blocked = false;
  }
}
void omp_preempt(double p) {
  Pool* po = pool();
  if (po->live < 2) return;
  u32 k = choose((u32) po->live, p);
  if (!k) return;
  OThread* me = self();
  size_t n = po->th.size(), at = 0;
  for (size_t i = 0; i < n; ++i) if (po->th[i] == me) at = i;
  std::vector<OThread*> c;
  for (size_t i = 1; i < n; ++i) {
    OThread* t = po->th[(at + i) % n];
    if (runnable(t)) c.push_back(t);
  }
  if (c.empty()) return;
  count(CT_PREEMPT);
  go(c[(k - 1) % c.size()]);
}

static OThread* spawn(std::function<void(OThread*)> body) {
  OThread* t = new OThread;
  Proc* pr = g_cur->proc;
  Pool* p = pool();
  t->f = fiber_new([t, body, p] {
    g_user = 1;
    body(t);
    g_user = 0;
    t->done = true;
    t->f->done = true;
    p->live--;
    forced_switch();
  }, pr, 512 << 10);
  t->f->omp = t;
  p->th.push_back(t);
  p->live++;
  count(CT_THREADS);
  return t;
}
static void reap() {
  Pool* p = pool();
  size_t j = 0;
  for (size_t i = 0; i < p->th.size(); ++i) {
    if (p->th[i]->done && p->th[i]->f != g_cur) { fiber_free(p->th[i]->f); delete p->th[i]; }
    else p->th[j++] = p->th[i];
  }
  p->th.resize(j);
}

static void run_task(OThread* me, Task* t);
static bool task_ready(Team* tm) {
  return !tm->ready.empty();
}
static Task* take_task(Team* tm) {
  if (tm->ready.empty()) return nullptr;
  size_t n = tm->ready.size(), i = choose((u32) n, n > 1 ? g_ompspec.p_pick : 0);
  Task* t = tm->ready[i];
  if (n < 64) tm->ready.erase(tm->ready.begin() + (long) i);
  else { tm->ready[i] = tm->ready.front(); tm->ready.pop_front(); }
  return t;
}
static void barrier(OThread* me) {
  Team* tm = me->team;
  if (!tm) return;
  if (!me->region) dev_wait_all();
  omp_preempt(g_ompspec.p_pick * 0.5);
  if (tm->n == 1) {
    while (Task* t = take_task(tm)) run_task(me, t);
    return;
  }
  u64 g = tm->gen;
  tm->arrived++;
  for (;;) {
    if (tm->gen != g) break;
    if (tm->arrived == tm->n && tm->ntasks == 0) {
      tm->arrived = 0;
      tm->gen++;
      tm->epoch = ++g_epochs;
      break;
    }
    if (Task* t = take_task(tm)) { run_task(me, t); continue; }
    omp_block("barrier", [=] { return tm->gen != g || task_ready(tm) || (tm->arrived == tm->n && tm->ntasks == 0); });
  }
  omp_preempt(g_ompspec.p_pick * 0.5);
}
static void task_done(Team* tm, Task* t) {
  t->done = true;
  tm->ntasks--;
  if (t->owner) t->owner->live--;
  for (auto o : t->after)
    if (--o->before == 0 && o->queued) tm->ready.push_back(o);
  if (!t->deps.empty()) tm->deptasks.erase(std::find(tm->deptasks.begin(), tm->deptasks.end(), t));
  free(t->data);
  Task* p = t->parent;
  if (!t->children) delete t;
  if (p && --p->children == 0 && p->done) delete p;
}
static void run_task(OThread* me, Task* t) {
  Team* tm = me->team;
  Task* saved = me->task;
  me->task = t;
  int u = g_user;
  g_user = 1;
  t->fn(t->data);
  g_user = u;
  me->task = saved;
  task_done(tm, t);
}

static int team_size(OThread* me, unsigned want) {
  int n = want ? (int) want : me->nthr;
  if (me->nest >= 1 && me->league >= 0 && !me->region) n = 1;   // nested parallelism is off by default
  if (me->region && me->limit && n > me->limit) n = me->limit;
  int av = me->region ? (g_ompspec.devthreads ? g_ompspec.devthreads : n) : g_ompspec.avail;
  if (n > av) { n = av; count(CT_FEWER_THREADS); }
  if (n < 1) n = 1;
  if (n > 256) n = 256;
  return n;
}
static void parallel(void (*fn)(void*), void* data, unsigned want, WS* first, TaskGroup* tg = nullptr) {
  SimScope sc;
  OThread* me = self();
  Team* tm = new Team;
  tm->n = team_size(me, want);
  if (me->region && me->nest >= 1) tm->n = 1;
  tm->epoch = ++g_epochs;
  if (g_omprun) {
    g_omprun->teams.push_back(tm->n);
    g_omprun->maxteam = std::max(g_omprun->maxteam, tm->n);
  }
  if (first) {
    first->pos.assign(tm->n, 0);
    first->has.assign(tm->n, false);
    tm->ws[1] = first;
  }
  OThread save = *me;
  for (int i = 1; i < tm->n; ++i) {
    OThread* t = spawn([fn, data, tm](OThread* t) {
      fn(data);
      SimScope s;
      barrier(t);
      tm->finished++;
    });
    t->team = tm;
    t->tid = i;
    t->ws = first ? 1 : 0;
    t->nthr = me->nthr;
    t->nest = me->nest + 1;
    t->league = me->league;
    t->nleague = me->nleague;
    t->region = me->region;
    t->hostreg = me->hostreg;
    t->limit = me->limit;
    Task* it = new Task;
    it->group = tg;
    t->task = it;
    tm->th.push_back(t);
  }
  me->team = tm;
  me->tid = 0;
  me->ws = first ? 1 : 0;
  me->nest++;
  me->task = new Task;
  me->task->group = tg;
  omp_preempt(g_ompspec.p_pick);
  g_user = 1;
  fn(data);
  g_user = 0;
  barrier(me);
  omp_block("end of parallel", [=] { return tm->finished == tm->n - 1; });
  me->team = save.team;
  me->tid = save.tid;
  me->ws = save.ws;
  me->nest = save.nest;
  me->task = save.task;
  reap();
  for (auto& w : tm->ws) delete w.second;
  delete tm;
}

void omp_spawn(std::function<void()> body) {
  OThread* me = self();
  OThread* t = spawn([=](OThread*) { body(); });
  t->nthr = me->nthr;
}
void omp_run_league(int n, std::function<void(int)> body, bool host) {
  OThread* me = self();
  int* left = new int(n);
  u64 rid = ++g_epochs;
  for (int i = 0; i < n; ++i) {
    OThread* t = spawn([=](OThread*) {
      body(i);
      SimScope s;
      --*left;
    });
    t->league = i;
    t->nleague = n;
    t->nthr = me->nthr;
    t->region = (int) (1000000 + rid);
    t->hostreg = host;
  }
  omp_block("end of teams", [=] { return *left == 0; });
  delete left;
  reap();
}

// ------------------------------------------------------------ work sharing
static WS* enter_ws(OThread* me, bool& created) {
  Team* tm = me->team;
  static std::map<OThread*, WS*> serial;
  me->ws++;
  created = false;
  if (!tm) {
    WS*& w = serial[me];
    delete w;
    w = new WS;
    w->pos.assign(1, 0);
    w->has.assign(1, false);
    created = true;
    return w;
  }
  WS*& w = tm->ws[me->ws];
  if (!w) {
    w = new WS;
    w->pos.assign(tm->n, 0);
    w->has.assign(tm->n, false);
    created = true;
  }
  return w;
}
static std::map<OThread*, WS*> g_curws;
static WS* cur_ws(OThread* me) {
  if (me->team) {
    auto it = me->team->ws.find(me->ws);
    if (it != me->team->ws.end()) return it->second;
  }
  auto it = g_curws.find(me);
  return it == g_curws.end() ? nullptr : it->second;
}
static void loop_init(WS* w, i64 start, i64 end, i64 incr, i64 chunk, int kind) {
  w->start = start;
  w->end = end;
  w->incr = incr ? incr : 1;
  w->n = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (incr < 0 && start > end ? (start - end - incr - 1) / -incr : 0);
  if (kind == 9) kind = g_ompspec.rtsched;
  w->kind = kind;
  w->chunk = chunk;
}
static bool loop_next(OThread* me, WS* w, i64* is, i64* ie) {
  omp_preempt(g_ompspec.p_pick * 0.5);
  int T = me->team ? me->team->n : 1, k = me->team ? me->tid : 0;
  if (w->has[k]) {
    w->has[k] = false;
    for (size_t i = 0; i < w->order.size(); ++i) if (w->order[i].first == k) { w->order.erase(w->order.begin() + (long) i); break; }
  }
  i64 a, b;
  if (w->kind == 0) {
    i64 p = w->pos[k];
    if (w->chunk <= 0) {
      if (p) return false;
      i64 q = w->n / T, r = w->n % T;
      a = k * q + std::min<i64>(k, r);
      b = a + q + (k < r);
    } else {
      a = (p * T + k) * w->chunk;
      b = std::min(a + w->chunk, w->n);
    }
    w->pos[k]++;
    if (a >= w->n || a >= b) return false;
  } else {
    i64 c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) c = std::max<i64>(c, (w->n - w->next) / T);
    a = w->next;
    if (a >= w->n) return false;
    b = std::min(a + c, w->n);
    w->next = b;
  }
  *is = w->start + a * w->incr;
  *ie = w->start + b * w->incr;
  size_t at = w->order.size();
  while (at > 0 && w->order[at - 1].second > a) --at;
  w->order.insert(w->order.begin() + (long) at, {k, (int) a});
  w->has[k] = true;
  return true;
}
static bool loop_start(i64 start, i64 end, i64 incr, i64 chunk, int kind, i64* is, i64* ie) {
  SimScope s;
  OThread* me = self();
  bool fresh;
  WS* w = enter_ws(me, fresh);
  if (fresh) loop_init(w, start, end, incr, chunk, kind);
  g_curws[me] = w;
  return loop_next(me, w, is, ie);
}
static bool loop_cont(i64* is, i64* ie) {
  SimScope s;
  OThread* me = self();
  WS* w = cur_ws(me);
  return w ? loop_next(me, w, is, ie) : false;
}
static void loop_leave(OThread* me) {
  WS* w = cur_ws(me);
  int k = me->team ? me->tid : 0;
  if (w && w->has[k]) {
    w->has[k] = false;
    for (size_t i = 0; i < w->order.size(); ++i) if (w->order[i].first == k) { w->order.erase(w->order.begin() + (long) i); break; }
  }
}

// ------------------------------------------------------------ mutual exclusion
static void lock(const void* m, const char* what) {
  OThread* me = self();
  omp_preempt(g_ompspec.p_pick * 0.5);
  omp_block(what, [=] { auto it = g_mutex.find(m); return it == g_mutex.end(); });
  g_mutex[m] = {me, 1};
}
static void unlock(const void* m) {
  g_mutex.erase(m);
  omp_preempt(g_ompspec.p_pick * 0.5);
}

// ------------------------------------------------------------ memory accesses
struct Acc { u64 addr; u32 epoch; short tid; bool w; u32 pc; };
static const size_t SH = 1 << 17;
static Acc* g_shadow = nullptr;
static unsigned char* g_hot = nullptr;
static inline u32 pch(void* pc) { return (u32) (((u64) pc * 0x9E3779B97F4A7C15ull) >> 48); }
static void access(void* addr, bool w, void* pc) {
  OThread* t = (OThread*) g_cur->omp;
  if (!t || (!t->team && t->nleague < 2)) return;
  Pool* p = pool();
  if (p->live < 2) return;
  int u = g_user;
  g_user = 0;
  if (!g_shadow) {
    g_shadow = (Acc*) calloc(SH * 2, sizeof(Acc));
    g_hot = (unsigned char*) calloc(1, 65536);
  }
  count(CT_ACCESSES);
  u64 a = (u64) addr >> 3;
  u32 h = pch(pc), ep = t->region ? (u32) t->region : t->team ? (u32) t->team->epoch : 0;
  size_t i = (size_t) ((a * 0x9E3779B97F4A7C15ull) >> 47) & (SH - 1);
  short id = (short) (t->tid + 256 * t->league);
  for (int k = 0; k < 2; ++k) {
    Acc& e = g_shadow[i * 2 + k];   // 0: last write, 1: last read
    if (e.addr == a && e.epoch == ep && e.tid != id && (w || k == 0)) {
      if (!g_hot[h] || !g_hot[e.pc]) { if (g_omprun) g_omprun->races++; }
      g_hot[h] = 1;
      g_hot[e.pc] = 1;
    }
  }
  g_shadow[i * 2 + !w] = {a, ep, id, w, h};
  omp_preempt(g_hot[h] ? std::max(g_ompspec.p_hot, g_ompspec.p_pre) : g_ompspec.p_pre);
  g_user = u;
}

// ------------------------------------------------------------ run
void ompspec_draw(Rng& r, Cfg& c) {
  static const int pre[] = {0, 0, 1, 10, 100, 1000, 5000, 30000};   // per 10^5 accesses
  c.set("pre", pre[r.below(8)]);
  c.set("hot", r.chance(0.3) ? 0 : r.range(5, 60));
  c.set("pick", r.chance(0.2) ? 0 : r.range(10, 100));
  c.set("rtsched", r.range(0, 2));
  c.set("fill", r.range(0, 3));
  c.set("procs", r.chance(0.4) ? 0 : r.chance(0.7) ? r.range(1, 8) : r.range(9, 128));   // processors reported need not match the team
  c.set("tlimit", r.chance(0.5));
}
void ompspec_apply(const Cfg& c, OmpSpec& s) {
  s.p_pre = c.get("pre") * 1e-5;
  s.p_hot = c.get("hot") * 0.01;
  s.p_pick = c.get("pick") * 0.01;
  s.rtsched = (int) c.get("rtsched");
  s.procs = (int) c.get("procs");
  s.limit = c.get("tlimit");
}
int omp_spec_threads() { return g_ompspec.threads; }

static int g_fio_unit = -1;             // unit of the Fortran I/O statement in progress
void fortran_end() {                    // what libgfortran does when the process ends: flush all units
  if (g_fio_unit < 0) { _gfortran_flush_i4(nullptr); return; }
  for (int u : {0, 6}) if (u != g_fio_unit) _gfortran_flush_i4(&u);
}
static void g_conc_reset();
OmpRun* run_omp(const OmpSpec& s) {
  static Proc* keep = nullptr;
  g_ompspec = s;
  OmpRun* o = new OmpRun;
  g_omprun = o;
  g_pause = [](u64) { omp_preempt(0.9); };
  g_clock = [](bool) { return 1e5 + (g_wtime += 1e-6); };
  g_pools.clear();
  g_mutex.clear();
  g_curws.clear();
  g_conc_reset();
  dev_reset();
  g_on_proc_end = nullptr;
  count(CT_JOBS);
  Proc* p = proc_new(0);
  keep = p;
  (void) keep;
  o->proc = p;
  int argc = (int) s.args.size() + 1;
  char** argv = new char*[argc + 1];
  argv[0] = strdup(s.lib.c_str());
  for (int i = 1; i < argc; ++i) argv[i] = strdup(s.args[i - 1].c_str());
  argv[argc] = nullptr;
  int (*mainf)(int, char**) = s.entry ? nullptr : (int (*)(int, char**)) lib_main(s.lib, s.copy);
  const OmpSpec* sp = &g_ompspec;
  Fiber* f = fiber_new([=] {
    self();
    g_user = 1;
    int rc = 0;
    if (sp->entry) sp->entry(sp->entry_arg);
    else rc = mainf(argc, argv);
    fortran_end();
    g_user = 0;
    proc_end(rc == 0 ? END_RETURN : END_EXIT, rc, rc ? fmt("main returned %d", rc) : "");
  }, p, 8 << 20);
  p->fiber = f;
  fiber_run(f);
  if (p->end == END_RUNNING) harness_error("simulated program stopped without ending");
  o->heap = heap_check();
  return o;
}

bool omp_on_host_stack(u64 a) {
  for (auto t : pool()->th) if (!t->region && !t->done && a - (u64) t->f->stack < t->f->size) return true;
  return false;
}
bool dev_in_region() { OThread* t = g_cur ? (OThread*) g_cur->omp : nullptr; return t && t->region && !t->hostreg; }
static std::vector<std::vector<int>> g_conc;
static void g_conc_reset() { g_conc.clear(); }
}  // namespace sim
using namespace sim;

// ================================================================ tsan callbacks
#define ACC(NAME, W, N) EXPORT void NAME(void* a) { if (g_user && g_cur) { mem_access(a, N, W); if (g_dev_on) dev_access(a, W); access(a, W, __builtin_return_address(0)); } }
ACC(__tsan_read1, false, 1) ACC(__tsan_read2, false, 2) ACC(__tsan_read4, false, 4) ACC(__tsan_read8, false, 8) ACC(__tsan_read16, false, 16)
ACC(__tsan_write1, true, 1) ACC(__tsan_write2, true, 2) ACC(__tsan_write4, true, 4) ACC(__tsan_write8, true, 8) ACC(__tsan_write16, true, 16)
ACC(__tsan_unaligned_read2, false, 2) ACC(__tsan_unaligned_read4, false, 4) ACC(__tsan_unaligned_read8, false, 8) ACC(__tsan_unaligned_read16, false, 16)
ACC(__tsan_unaligned_write2, true, 2) ACC(__tsan_unaligned_write4, true, 4) ACC(__tsan_unaligned_write8, true, 8) ACC(__tsan_unaligned_write16, true, 16)
ACC(__tsan_volatile_read1, false, 1) ACC(__tsan_volatile_read2, false, 2) ACC(__tsan_volatile_read4, false, 4) ACC(__tsan_volatile_read8, false, 8) ACC(__tsan_volatile_read16, false, 16)
ACC(__tsan_volatile_write1, true, 1) ACC(__tsan_volatile_write2, true, 2) ACC(__tsan_volatile_write4, true, 4) ACC(__tsan_volatile_write8, true, 8) ACC(__tsan_volatile_write16, true, 16)
EXPORT void __tsan_read_range(void* a, unsigned long n) { if (g_user && g_cur) mem_access(a, n, false), g_dev_on ? dev_access(a, false) : (void) 0, access(a, false, __builtin_return_address(0)); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { if (g_user && g_cur) mem_access(a, n, true), g_dev_on ? dev_access(a, true) : (void) 0, access(a, true, __builtin_return_address(0)); }
EXPORT void __tsan_vptr_update(void**, void*) {}
EXPORT void __tsan_vptr_read(void**) {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
static inline void atom() { if (g_user && g_cur && g_cur->omp) { SimScope s; omp_preempt(std::max(g_ompspec.p_hot, g_ompspec.p_pre)); } }
#define ATOMIC(B, T) \
  EXPORT T __tsan_atomic##B##_load(const volatile T* a, int) { atom(); return *a; } \
  EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int) { atom(); *a = v; } \
  EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { atom(); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) (o + v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) (o - v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) (o & v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) (o | v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) (o ^ v); return o; } \
  EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { atom(); T o = *a; *a = (T) ~(o & v); return o; } \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atom(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atom(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atom(); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ================================================================ GOMP entry points
typedef void (*Fn)(void*);
EXPORT bool GOMP_teams4(unsigned lo, unsigned hi, unsigned limit, bool first) {
  SimScope s;
  OThread* me = self();
  if (!me->region) {                     // teams on the host: one after the other
    if (first) { me->league = 0; me->nleague = lo ? (int) lo : 1; return true; }
    if (me->league + 1 >= me->nleague) { me->league = 0; me->nleague = 1; return false; }
    me->league++;
    return true;
  }
  if (!first) return false;
  if (limit) me->limit = (int) limit;
  if (hi && me->nleague > (int) hi) me->nleague = (int) hi;
  return me->league < me->nleague;
}
EXPORT void GOMP_teams(unsigned, unsigned) {}
EXPORT void GOMP_parallel(Fn fn, void* d, unsigned n, unsigned) { parallel(fn, d, n, nullptr); }
// Task reductions. Layout of d: number of variables, size of one thread's block, alignment (then: blocks), -, next, table, end of the
// blocks, and per variable: original address, offset in the block.
static void red_register(u64* d, u64* old, int n) {
  for (;; d = (u64*) d[4]) {
    size_t sz = d[1] * (size_t) n;
    char* m = (char*) memalign(d[2] > 16 ? d[2] : 16, sz ? sz : 16);
    memset(m, 0, sz);
    d[2] = (u64) m;
    d[6] = (u64) m + sz;
    d[5] = 0;
    if (!d[4]) { d[4] = (u64) old; d[5] = 1; break; }      // 1: the last of this list
  }
}
EXPORT void GOMP_taskgroup_reduction_register(u64* d) {
  SimScope s;
  OThread* me = self();
  if (!me->task || !me->task->group) return;
  red_register(d, me->task->group->reds, me->team ? me->team->n : 1);
  me->task->group->reds = d;
}
EXPORT void GOMP_taskgroup_reduction_unregister(u64* d) {
  SimScope s;
  for (;; d = (u64*) d[4]) { free((void*) d[2]); if (d[5]) break; }
}
EXPORT void GOMP_task_reduction_remap(size_t cnt, size_t orig, void** ptrs) {
  SimScope s;
  OThread* me = self();
  u64 id = me->team ? (u64) me->tid : 0;
  for (size_t i = 0; i < cnt; ++i) {
    u64 a = (u64) ptrs[i], *d = me->task && me->task->group ? me->task->group->reds : nullptr;
    bool hit = false;
    for (; d && !hit; d = (u64*) d[4])
      for (size_t j = 0; j < d[0] && !hit; ++j) {
        u64* v = d + 7 + 3 * j;
        if (a != v[0] && !(a >= d[2] && a < d[6] && (a - d[2]) % d[1] == v[1])) continue;
        ptrs[i] = (void*) (d[2] + id * d[1] + v[1]);
        if (i < orig) ptrs[cnt + i] = (void*) v[0];
        hit = true;
      }
    if (!hit) proc_end(END_MPIABORT, 1, "task reduction without a matching reduction");
  }
}
EXPORT unsigned GOMP_parallel_reductions(Fn fn, void* d, unsigned n, unsigned) {
  TaskGroup* tg;
  {
    SimScope s;
    n = (unsigned) team_size(self(), n);
    tg = new TaskGroup;
    red_register(*(u64**) d, nullptr, (int) n);
    tg->reds = *(u64**) d;
  }
  parallel(fn, d, n, nullptr, tg);
  return n;
}
EXPORT void GOMP_teams_reg(Fn fn, void* d, unsigned n, unsigned limit, unsigned) {      // teams on the host
  OThread* me;
  int lim, l, nl;
  bool rev;
  {
    SimScope s;
    me = self();
    lim = me->limit, l = me->league, nl = me->nleague;
    if (!n) n = 1 + choose(4, g_ompspec.p_pick);
    rev = choose(2, g_ompspec.p_pick) == 1;
    if (limit) me->limit = (int) limit;
    me->nleague = (int) n;
  }
  for (unsigned i = 0; i < n; ++i) {
    me->league = (int) (rev ? n - 1 - i : i);
    fn(d);
  }
  me->limit = lim, me->league = l, me->nleague = nl;
}
EXPORT void GOMP_scope_start(u64* reds) { if (reds) GOMP_taskgroup_reduction_register(reds); }
static void ploop(Fn fn, void* d, unsigned n, long st, long en, long in, long ch, int kind) {
  WS* w;
  { SimScope s; w = new WS; loop_init(w, st, en, in, ch, kind); }
  parallel(fn, d, n, w);
}
#define PLOOP(NAME, K) EXPORT void GOMP_parallel_loop_##NAME(Fn f, void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(f, d, n, s, e, i, c, K); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
EXPORT void GOMP_parallel_loop_runtime(Fn f, void* d, unsigned n, long s, long e, long i, unsigned) { ploop(f, d, n, s, e, i, 0, 9); }
EXPORT void GOMP_parallel_loop_nonmonotonic_runtime(Fn f, void* d, unsigned n, long s, long e, long i, unsigned) { ploop(f, d, n, s, e, i, 0, 9); }
EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(Fn f, void* d, unsigned n, long s, long e, long i, unsigned) { ploop(f, d, n, s, e, i, 0, 9); }
#define LOOP(NAME, K) \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, K, a, b); } \
  EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_cont(a, b); } \
  EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { (void) up; return loop_start((i64) s, (i64) e, (i64) i, (i64) c, K, (i64*) a, (i64*) b); } \
  EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return loop_cont((i64*) a, (i64*) b); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
LOOP(ordered_static, 0) LOOP(ordered_dynamic, 1) LOOP(ordered_guided, 2)
#define LOOPR(NAME) \
  EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 0, 9, a, b); } \
  EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_cont(a, b); }
#define LOOPU(NAME) \
  EXPORT bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return loop_start((i64) s, (i64) e, (i64) i, 0, 9, (i64*) a, (i64*) b); } \
  EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return loop_cont((i64*) a, (i64*) b); }
LOOPU(runtime) LOOPU(nonmonotonic_runtime) LOOPU(maybe_nonmonotonic_runtime) LOOPU(ordered_runtime)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(ordered_runtime)
EXPORT void GOMP_barrier() { SimScope s; barrier(self()); }
EXPORT bool GOMP_barrier_cancel() { SimScope s; barrier(self()); return false; }
EXPORT void GOMP_loop_end() { SimScope s; OThread* me = self(); loop_leave(me); barrier(me); }
EXPORT bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXPORT void GOMP_loop_end_nowait() { SimScope s; loop_leave(self()); }
EXPORT bool GOMP_single_start() {
  SimScope s;
  OThread* me = self();
  omp_preempt(g_ompspec.p_pick * 0.5);
  bool fr;
  WS* w = enter_ws(me, fr);
  if (w->single_taken) return false;
  w->single_taken = true;
  return true;
}
EXPORT void* GOMP_single_copy_start() {
  SimScope s;
  OThread* me = self();
  bool fr;
  WS* w = enter_ws(me, fr);
  if (!w->single_taken) { w->single_taken = true; return nullptr; }
  omp_block("single copyprivate", [=] { return w->copy_set; });
  return w->copy;
}
EXPORT void GOMP_single_copy_end(void* d) { SimScope s; OThread* me = self(); WS* w = cur_ws(me); if (w) { w->copy = d; w->copy_set = true; } barrier(me); }
EXPORT unsigned GOMP_sections_next() {
  SimScope s;
  OThread* me = self();
  omp_preempt(g_ompspec.p_pick * 0.5);
  WS* w = cur_ws(me);
  if (!w) return 0;
  return w->nextsec <= w->secs ? (unsigned) w->nextsec++ : 0;
}
EXPORT unsigned GOMP_sections_start(unsigned n) {
  { SimScope s; OThread* me = self(); bool fr; WS* w = enter_ws(me, fr); if (fr) w->secs = (int) n; g_curws[me] = w; }
  return GOMP_sections_next();
}
EXPORT void GOMP_sections_end() { SimScope s; barrier(self()); }
EXPORT void GOMP_sections_end_nowait() {}
EXPORT void GOMP_parallel_sections(Fn f, void* d, unsigned n, unsigned cnt, unsigned) {
  WS* w;
  { SimScope s; w = new WS; w->secs = (int) cnt; }
  parallel(f, d, n, w);
}
EXPORT void GOMP_critical_start() { static char m; SimScope s; lock(&m, "critical"); }
EXPORT void GOMP_critical_end() { SimScope s; OThread* me = self(); for (auto it = g_mutex.begin(); it != g_mutex.end(); ++it) if (it->second.first == me && it->second.second == 1) { unlock(it->first); return; } }
EXPORT void GOMP_critical_name_start(void** p) { SimScope s; lock(p, "critical"); }
EXPORT void GOMP_critical_name_end(void** p) { SimScope s; unlock(p); }
static char g_atomic_mutex;
EXPORT void GOMP_atomic_start() { SimScope s; lock(&g_atomic_mutex, "atomic"); }
EXPORT void GOMP_atomic_end() { SimScope s; unlock(&g_atomic_mutex); }
EXPORT void GOMP_ordered_start() {
  SimScope s;
  OThread* me = self();
  WS* w = cur_ws(me);
  if (!w || !me->team) return;
  int k = me->tid;
  omp_block("ordered", [=] { return w->order.empty() || w->order.front().first == k; });
}
EXPORT void GOMP_ordered_end() {}
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }
EXPORT void GOMP_task(Fn fn, void* data, void (*cpy)(void*, void*), long size, long align, bool ifc, unsigned flags, void** depend, int, void*) {
  SimScope s;
  OThread* me = self();
  Team* tm = me->team;
  char* d = (char*) memalign((size_t) (align > 16 ? align : 16), (size_t) (size > 0 ? size : 16));
  g_user = 1;
  if (cpy) cpy(d, data);
  else memcpy(d, data, (size_t) size);
  g_user = 0;
  if (!tm) { g_user = 1; fn(d); g_user = 0; return; }
  Task* t = new Task;
  t->fn = fn;
  t->data = d;
  t->parent = me->task;
  if (me->task) { me->task->children++; t->group = t->owner = me->task->group; }
  if (t->owner) t->owner->live++;
  tm->ntasks++;
  if ((flags & 8) && depend) {
    size_t n = (size_t) depend[0], nout = (size_t) depend[1], off = 2;
    if (n == 0) { n = (size_t) depend[1]; nout = (size_t) depend[2]; off = 5; }
    for (size_t i = 0; i < n; ++i) {
      bool w = i < nout;
      for (auto o : tm->deptasks)
        if (o->parent == t->parent)
          for (auto& x : o->deps) if (x.first == depend[off + i] && (w || x.second)) { t->before++; o->after.push_back(t); }
      t->deps.push_back({depend[off + i], w});
    }
  }
  if (!t->deps.empty()) tm->deptasks.push_back(t);
  if (!ifc || tm->ntasks > 64 * tm->n) {
    while (t->before) {
      if (Task* o = take_task(tm)) run_task(me, o);
      else omp_block("task dependence", [=] { return !t->before || task_ready(tm); });
    }
    run_task(me, t);
    return;
  }
  t->queued = true;
  if (!t->before) tm->ready.push_back(t);
  omp_preempt(g_ompspec.p_pick * 0.5);
}
EXPORT void GOMP_taskwait() {
  SimScope s;
  OThread* me = self();
  Team* tm = me->team;
  if (!me->region) dev_wait_all();
  if (!tm || !me->task) return;
  Task* t = me->task;
  while (t->children > 0) {
    if (Task* o = take_task(tm)) { run_task(me, o); continue; }
    omp_block("taskwait", [=] { return t->children == 0 || task_ready(tm); });
  }
}
EXPORT void GOMP_taskyield() { SimScope s; omp_preempt(g_ompspec.p_pick); }
EXPORT void GOMP_taskgroup_start() { SimScope s; OThread* me = self(); if (!me->task) me->task = new Task; TaskGroup* g = new TaskGroup; g->up = me->task->group; if (g->up) g->reds = g->up->reds; me->task->group = g; }
EXPORT void GOMP_taskgroup_end() {
  SimScope s;
  OThread* me = self();
  Team* tm = me->team;
  if (!me->task || !me->task->group) return;
  TaskGroup* g = me->task->group;
  while (tm && g->live > 0) {
    if (Task* o = take_task(tm)) { run_task(me, o); continue; }
    omp_block("taskgroup", [=] { return !g->live || task_ready(tm); });
  }
  me->task->group = g->up;
}
template <class T> static void taskloop(Fn fn, void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, T start, T end, T step) {
  u64 n = step > 0 ? (end > start ? (u64) ((end - start + step - 1) / step) : 0) : (start > end ? (u64) ((start - end - step - 1) / -step) : 0);
  if (!n) return;
  bool grain = flags & (1 << 9);
  u64 tasks = grain ? std::max<u64>(1, n / std::max<u64>(1, num)) : (num ? num : (u64) std::max(1, g_ompspec.threads));
  tasks = std::min(tasks, n);
  if (!(flags & (1 << 11))) GOMP_taskgroup_start();
  if (flags & (1 << 12)) GOMP_taskgroup_reduction_register(((u64**) data)[2]);
  u64 at = 0;
  for (u64 k = 0; k < tasks; ++k) {
    u64 c = n / tasks + (k < n % tasks);
    char* d = (char*) memalign((size_t) (align > 16 ? align : 16), (size_t) size);
    if (cpy) cpy(d, data);
    else memcpy(d, data, (size_t) size);
    ((T*) d)[0] = start + (T) at * step;
    ((T*) d)[1] = start + (T) (at + c) * step;
    at += c;
    GOMP_task(fn, d, nullptr, size, align, true, 0, nullptr, 0, nullptr);
  }
  if (!(flags & (1 << 11))) GOMP_taskgroup_end();
}
EXPORT void GOMP_taskloop(Fn fn, void* d, void (*c)(void*, void*), long sz, long al, unsigned fl, unsigned long num, int, long s, long e, long st) { taskloop<long>(fn, d, c, sz, al, fl, num, s, e, st); }
EXPORT void GOMP_taskloop_ull(Fn fn, void* d, void (*c)(void*, void*), long sz, long al, unsigned fl, unsigned long num, int, unsigned long long s, unsigned long long e, unsigned long long st) { taskloop<long>(fn, d, c, sz, al, fl, num, (long) s, (long) e, (long) st); }

// ================================================================ omp_* routines
#define S_ SimScope s_; OThread* me = self(); (void) me;
EXPORT int omp_get_num_threads() { S_ return me->team ? me->team->n : 1; }
EXPORT int omp_get_thread_num() { S_ return me->team ? me->tid : 0; }
EXPORT int omp_get_max_threads() { S_ return me->nthr; }
EXPORT int omp_get_num_procs() { S_ return g_ompspec.procs > 0 ? g_ompspec.procs : g_ompspec.avail > 256 ? 64 : g_ompspec.avail; }
EXPORT int omp_get_thread_limit() { return g_ompspec.limit && g_ompspec.avail < 256 ? g_ompspec.avail : 256; }
EXPORT int omp_in_parallel() { S_ return me->team && me->team->n > 1; }
EXPORT int omp_get_level() { S_ return me->nest; }
EXPORT int omp_get_active_level() { S_ return me->team && me->team->n > 1 ? 1 : 0; }
EXPORT int omp_get_ancestor_thread_num(int l) { S_ return l == me->nest ? me->tid : 0; }
EXPORT int omp_get_team_size(int l) { S_ return l == me->nest && me->team ? me->team->n : 1; }
EXPORT void omp_set_num_threads(int n) { S_ if (n > 0) me->nthr = n; }
EXPORT int omp_get_dynamic() { return !g_ompspec.limit; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT void omp_set_schedule(int k, int) { g_ompspec.rtsched = k == 1 ? 0 : k == 2 ? 1 : k == 3 ? 2 : 0; }
EXPORT double omp_get_wtime() { return g_wtime += 1e-6; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT int omp_get_cancellation() { return 0; }
EXPORT int omp_get_num_teams() { S_ return me->nleague; }
EXPORT int omp_get_team_num() { S_ return me->league; }
EXPORT void omp_init_lock(void** l) { *l = nullptr; }
EXPORT void omp_destroy_lock(void**) {}
EXPORT void omp_set_lock(void** l) { S_ lock(l, "lock"); }
EXPORT void omp_unset_lock(void** l) { S_ unlock(l); }
EXPORT int omp_test_lock(void** l) { S_ if (g_mutex.count(l)) return 0; g_mutex[l] = {me, 1}; return 1; }
EXPORT void omp_init_nest_lock(void** l) { *l = nullptr; }
EXPORT void omp_destroy_nest_lock(void**) {}
EXPORT void omp_set_nest_lock(void** l) { S_ auto it = g_mutex.find(l); if (it != g_mutex.end() && it->second.first == me) { it->second.second++; return; } lock(l, "nest lock"); }
EXPORT void omp_unset_nest_lock(void** l) { S_ auto it = g_mutex.find(l); if (it != g_mutex.end() && --it->second.second <= 0) unlock(l); }
EXPORT int omp_test_nest_lock(void** l) { S_ auto it = g_mutex.find(l); if (it == g_mutex.end()) { g_mutex[l] = {me, 1}; return 1; } return it->second.first == me ? ++it->second.second : 0; }
EXPORT void omp_get_schedule(int* k, int* c) { *k = g_ompspec.rtsched == 0 ? 1 : g_ompspec.rtsched == 1 ? 2 : 3; *c = 1; }
EXPORT int omp_in_final() { return 0; }
EXPORT int omp_get_proc_bind() { return 0; }
EXPORT int omp_get_num_places() { return 0; }
EXPORT int omp_get_place_num() { return -1; }
EXPORT int omp_get_max_task_priority() { return 0; }
EXPORT int omp_get_supported_active_levels() { return 1; }
EXPORT void omp_display_env(int) {}
EXPORT void omp_display_affinity(const char*) {}
// Fortran bindings
EXPORT void omp_init_lock_(void** l) { omp_init_lock(l); }
EXPORT void omp_destroy_lock_(void**) {}
EXPORT void omp_set_lock_(void** l) { omp_set_lock(l); }
EXPORT void omp_unset_lock_(void** l) { omp_unset_lock(l); }
EXPORT int omp_test_lock_(void** l) { return omp_test_lock(l); }
EXPORT void omp_set_schedule_(const int* k, const int* c) { omp_set_schedule(*k, *c); }
EXPORT void omp_get_schedule_(int* k, int* c) { omp_get_schedule(k, c); }
EXPORT int omp_get_thread_limit_() { return omp_get_thread_limit(); }
EXPORT int omp_get_dynamic_() { return omp_get_dynamic(); }
EXPORT int omp_get_nested_() { return 0; }
EXPORT void omp_set_nested_(const int*) {}
EXPORT int omp_get_max_active_levels_() { return 1; }
EXPORT void omp_set_max_active_levels_(const int*) {}
EXPORT int omp_get_active_level_() { return omp_get_active_level(); }
EXPORT int omp_get_ancestor_thread_num_(const int* l) { return omp_get_ancestor_thread_num(*l); }
EXPORT int omp_get_team_size_(const int* l) { return omp_get_team_size(*l); }
EXPORT double omp_get_wtick_() { return omp_get_wtick(); }
EXPORT int omp_get_num_threads_() { return omp_get_num_threads(); }
EXPORT int omp_get_thread_num_() { return omp_get_thread_num(); }
EXPORT int omp_get_max_threads_() { return omp_get_max_threads(); }
EXPORT int omp_get_num_procs_() { return omp_get_num_procs(); }
EXPORT int omp_in_parallel_() { return omp_in_parallel(); }
EXPORT void omp_set_num_threads_(const int* n) { omp_set_num_threads(*n); }
EXPORT void omp_set_num_threads_8_(const i64* n) { omp_set_num_threads((int) *n); }
EXPORT void omp_set_dynamic_(const int*) {}
EXPORT double omp_get_wtime_() { return omp_get_wtime(); }
EXPORT int omp_get_num_teams_() { return omp_get_num_teams(); }
EXPORT int omp_get_team_num_() { return omp_get_team_num(); }
EXPORT int omp_get_level_() { return omp_get_level(); }

// ================================================================ Fortran run-time I/O: one statement at a time per process
static char g_fio;
static void fio_in() { if (g_user && g_cur) { SimScope s; lock(&g_fio, "Fortran I/O statement"); } }
static void fio_out() { if (g_cur && g_cur->omp) { SimScope s; if (g_mutex.count(&g_fio) && g_mutex[&g_fio].first == g_cur->omp) unlock(&g_fio); } }
#define FIO(NAME, IN, OUT) \
  EXPORT void _gfortran_##NAME(void* p) { \
    static void (*real)(void*) = (void (*)(void*)) dlsym(RTLD_NEXT, "_gfortran_" #NAME); \
    if (IN) { fio_in(); g_fio_unit = ((int*) p)[1]; } \
    real(p); \
    if (OUT) { g_fio_unit = -1; fio_out(); } \
  }
FIO(st_write, true, false) FIO(st_write_done, false, true) FIO(st_read, true, false) FIO(st_read_done, false, true)
FIO(st_open, true, true) FIO(st_close, true, true) FIO(st_inquire, true, true) FIO(st_flush, true, true) FIO(st_rewind, true, true)
FIO(st_endfile, true, true) FIO(st_backspace, true, true)

// ================================================================ concurrent loops (the build rewrites "do concurrent" to call these)
// Each loop gets an iteration order of its own: in order, reversed, rotated or random.
EXPORT void vsim_conc_(const int* n, int* id) {
  SimScope s;
  std::vector<int> o((size_t) std::max(0, *n));
  for (size_t i = 0; i < o.size(); ++i) o[i] = (int) i;
  u32 how = choose(4, g_ompspec.p_pick);
  if (how && o.size() > 1) {
    count(CT_ITERORDER);
    u32 key = choose(1u << 20, 1.0);
    if (how == 1) std::reverse(o.begin(), o.end());
    else if (how == 2) std::rotate(o.begin(), o.begin() + key % o.size(), o.end());
    else {
      Rng r(key);
      for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    }
    schedhash(how * 1048576ull + key);
  }
  *id = (int) g_conc.size();
  g_conc.push_back(o);
}
EXPORT void vsim_iter_(const int* id, const int* k, int* m) { *m = g_conc[*id][*k]; }
