// Simulated accelerator: memory of its own (fresh device memory holds garbage), mapping of host data into it, regions executed by a league of teams.
#include "omprun.h"
#include <algorithm>
#include <malloc.h>
namespace sim {

struct Map { u64 lo, hi; char* dev; int ref; bool back; };     // host range, device copy
static std::map<u64, Map> g_map;                               // by host start
static std::map<u64, u64> g_devblk;                            // live device blocks
static std::vector<std::vector<u64>> g_data;                   // structured data regions: host starts they hold a reference to
static std::set<u64> g_inregion;                               // heap blocks allocated by device code
int g_dev_on = 0;

void dev_async_reset();
void dev_reset() {
  g_map.clear();
  g_devblk.clear();
  g_data.clear();
  g_inregion.clear();
  g_dev_on = 0;
  dev_async_reset();
}
[[noreturn]] static void dev_error(const std::string& m) {
  if (g_omprun) g_omprun->error = m;
  proc_end(END_CRASH, 124, m);
}
static char* dalloc(u64 n) {
  char* p = (char*) user_alloc(n ? n : 1);
  g_devblk[(u64) p] = (u64) p + (n ? n : 1);
  return p;
}
static void dfree(char* p) {
  g_devblk.erase((u64) p);
  user_free(p);
}
static bool in_blocks(u64 a) {
  auto it = g_devblk.upper_bound(a);
  return it != g_devblk.begin() && a < (--it)->second;
}
bool dev_in_region();
static const u64 HEAP = 0x100000000000ull;
void dev_access(const void* p, bool w) {
  u64 a = (u64) p;
  bool reg = dev_in_region();
  if (a - HEAP < (4ull << 30)) {
    if (reg && !in_blocks(a)) {
      SimScope s;
      dev_error(fmt("code on the device %s host memory", w ? "writes" : "reads"));
    }
    if (!reg && in_blocks(a)) {
      SimScope s;
      dev_error(fmt("code on the host %s device memory", w ? "writes" : "reads"));
    }
  } else if (reg) {
    SimScope s;
    if (omp_on_host_stack(a)) dev_error(fmt("code on the device %s a local variable of the host", w ? "writes" : "reads"));
  }
}
static Map* find(u64 a, u64 n) {      // the mapping that holds [a, a+n)
  auto it = g_map.upper_bound(a);
  if (it == g_map.begin()) return nullptr;
  Map& m = (--it)->second;
  if (a >= m.hi || a + n > m.hi) return nullptr;
  return &m;
}
static bool overlaps(u64 a, u64 n) {
  auto it = g_map.lower_bound(a);
  if (it != g_map.end() && it->first < a + n) return true;
  if (it == g_map.begin()) return false;
  return (--it)->second.hi > a;
}
static u64 translate(u64 a) {
  Map* m = find(a, 0);
  if (!m) {      // one past the end of a mapping
    auto it = g_map.lower_bound(a);
    if (it != g_map.begin() && (--it)->second.hi == a) m = &it->second;
  }
  return m ? (u64) m->dev + (a - m->lo) : 0;
}
static Map* map_one(u64 a, u64 n, int kind, std::vector<u64>& held) {
  bool to = kind & 1, from = kind & 2, always = (kind & 16), force = false;
  (void) force;
  Map* m = find(a, n);
  if (!m) {
    if (n && overlaps(a, n)) dev_error("array section is mapped that is only partly present on the device");
    Map x = {a, a + (n ? n : 1), dalloc(n), 0, false};
    m = &(g_map[a] = x);
    count(CT_DEVICE_MAPS);
    if (to) memcpy(m->dev, (void*) a, n);
  } else if (always && to) {
    memcpy(m->dev + (a - m->lo), (void*) a, n);
  }
  m->ref++;
  if (from && (m->ref == 1 || always)) m->back = true;
  held.push_back(a);
  return m;
}
static void unmap_one(u64 a, bool back, bool forget) {
  Map* m = find(a, 0);
  if (!m) return;
  if (forget) m->ref = 0;
  else m->ref--;
  if (back) m->back = true;
  if (m->ref <= 0) {
    if (m->back) memcpy((void*) m->lo, m->dev, m->hi - m->lo);
    dfree(m->dev);
    g_map.erase(m->lo);
  }
}
static int kind(unsigned short k) { int x = k & 0xff; return (x & 96) == 96 ? x & ~96 : x; }   // 96: not written by the programmer
struct Entered { std::vector<u64> held; std::vector<char*> temp; std::vector<u64> dev; };

static void enter(size_t n, void** host, size_t* sizes, unsigned short* kinds, Entered& e, const std::vector<char*>* early = nullptr) {
  e.dev.assign(n, 0);
  std::vector<u64> psets(n, 0);
  for (size_t i = 0; i < n; ++i) {
    int k = kind(kinds[i]);
    u64 a = (u64) host[i], sz = sizes[i];
    if (k == 13) { e.dev[i] = a; continue; }                       // a value
    if (!a) continue;
    if (k == 12) {                                                 // firstprivate: a copy of its own
      char* p = g_ompspec.sepmem ? dalloc(sz) : (char*) user_alloc(sz ? sz : 1);
      memcpy(p, early && (*early)[i] ? (void*) (*early)[i] : (void*) a, sz);
      e.temp.push_back(p);
      e.dev[i] = (u64) p;
      continue;
    }
    if (!g_ompspec.sepmem) { e.dev[i] = a; continue; }
    switch (k) {
      case 14: case 19 + 256: e.dev[i] = translate(a); if (!e.dev[i]) dev_error("use_device_ptr of data that are not on the device"); host[i] = (void*) e.dev[i]; continue;
      case 15: case 30: { u64 d = translate(a); e.dev[i] = d ? d : a; continue; }
      case 6: { Map* m = find(a, sz); if (!m) dev_error("data are not present on the device"); e.dev[i] = (u64) m->dev + (a - m->lo); m->ref++; e.held.push_back(a); continue; }
      case 8: e.dev[i] = a; continue;                              // a device pointer already
      case 4: case 29: {                                           // pointer: the device copy points to the device copy of its target
        u64 t = *(u64*) a, d = 0;
        if (t) {
          Map* m = find(t + sz, 0);
          d = m ? (u64) m->dev + (t + sz - m->lo) - sz : 0;
          if (!m) d = translate(t);
        }
        u64 where = 0;
        for (size_t j = 0; j < i; ++j)
          if (psets[j] && a >= (u64) host[j] && a < (u64) host[j] + sizes[j]) where = psets[j] + (a - (u64) host[j]);
        if (!where) {
          Map* m = find(a, 8);
          if (!m) m = map_one(a, 8, 0, e.held);
          where = (u64) m->dev + (a - m->lo);
        }
        *(u64*) where = d;
        e.dev[i] = where;
        continue;
      }
      case 5: {                                                    // descriptor of a Fortran array
        Map* m = map_one(a, sz, 0, e.held);
        u64 d = (u64) m->dev + (a - m->lo);
        u64 keep = 0;
        bool had = m->ref > 1;
        if (had) keep = *(u64*) d;
        memcpy((void*) d, (void*) a, sz);
        if (had) *(u64*) d = keep;
        psets[i] = e.dev[i] = d;
        continue;
      }
      case 80: {                                                   // attach
        Map* m = find(a, 8);
        u64 t = *(u64*) a, d = t ? translate(t) : 0;
        if (m && d) *(u64*) (m->dev + (a - m->lo)) = d;
        continue;
      }
      case 81: case 81 + 128: case 31: case 7: continue;
      default:
        if ((k & ~(128 | 16)) <= 3) {
          Map* m = map_one(a, sz, k, e.held);
          e.dev[i] = (u64) m->dev + (a - m->lo);
          continue;
        }
        harness_error(fmt("mapping kind %d is not simulated", k));
    }
  }
}
static void leave(Entered& e) {
  for (size_t i = e.held.size(); i-- > 0;) unmap_one(e.held[i], false, false);
  for (char* p : e.temp) { if (g_ompspec.sepmem) dfree(p); else user_free(p); }
}
}  // namespace sim
using namespace sim;
typedef void (*Fn)(void*);

// ------------------------------------------------ regions that run while the host goes on ("nowait", "async")
struct Async { bool done = false; std::vector<std::pair<void*, bool>> deps; };
static std::vector<Async*> g_async;
static std::vector<std::pair<void*, bool>> deps_of(void** depend) {
  std::vector<std::pair<void*, bool>> r;
  if (!depend) return r;
  size_t n = (size_t) depend[0], nout = (size_t) depend[1], off = 2;
  if (n == 0) { n = (size_t) depend[1]; nout = (size_t) depend[2]; off = 5; }
  for (size_t i = 0; i < n; ++i) r.push_back({depend[off + i], i < nout});
  return r;
}
static void await_deps(const std::vector<std::pair<void*, bool>>& d) {
  std::vector<Async*> w;
  for (auto a : g_async)
    if (!a->done)
      for (auto& x : a->deps) for (auto& y : d) if (x.first == y.first && (x.second || y.second)) w.push_back(a);
  omp_block("dependence on a device region", [=] { for (auto a : w) if (!a->done) return false; return true; });
}
namespace sim {
void dev_wait_all() {
  if (g_async.empty()) return;
  std::vector<Async*> w = g_async;
  omp_block("device regions in progress", [=] { for (auto a : w) if (!a->done) return false; return true; });
}
void dev_async_reset() { g_async.clear(); }
}
// the host executes the region: "if" clause that is false, the host named as the device, or no device at all
static bool on_host(int dev) { return dev == -2 || g_ompspec.ndev == 0 || dev >= g_ompspec.ndev; }
static void host_side() { if (g_ompspec.sepmem) g_dev_on = 1; }

static void region(Fn fn, size_t n, void** host, size_t* sizes, unsigned short* kinds, int teams, const std::vector<char*>* early, bool hst) {
  host_side();
  if (hst) {
    std::vector<void*> h(host, host + n);
    std::vector<void*> temp;
    for (size_t i = 0; i < n; ++i)
      if (kind(kinds[i]) == 12 && h[i]) {
        void* p = user_alloc(sizes[i] ? sizes[i] : 1);
        memcpy(p, early && (*early)[i] ? (void*) (*early)[i] : h[i], sizes[i]);
        temp.push_back(h[i] = p);
      }
    u64* d = (u64*) user_alloc(8 * (n + 1));
    memcpy(d, h.data(), 8 * n);
    count(CT_HOST_REGIONS);
    omp_run_league(teams, [=](int) { g_user = 1; fn(d); }, true);
    user_free(d);
    for (void* p : temp) user_free(p);
    return;
  }
  Entered e;
  enter(n, host, sizes, kinds, e, early);
  u64* d = (u64*) (g_ompspec.sepmem ? dalloc(8 * (n + 1)) : (char*) user_alloc(8 * (n + 1)));
  for (size_t i = 0; i < n; ++i) d[i] = e.dev[i];
  omp_run_league(teams, [=](int) { g_user = 1; fn(d); });
  if (g_ompspec.sepmem) dfree((char*) d);
  else user_free(d);
  leave(e);
}
EXPORT void GOMP_target_ext(int dev, Fn fn, size_t n, void** host, size_t* sizes, unsigned short* kinds, unsigned flags, void** depend, void** args) {
  SimScope sc;
  i64 want = 1;
  for (size_t i = 0; args && args[i]; ++i) {
    u64 id = (u64) args[i];
    i64 val = (i64) id >> 16;
    if (id & 128) val = (i64) (u64) args[++i];
    if (((id >> 8) & 0xff) == 1) want = val == -2 ? 1 : val;   // -2: no teams construct inside
  }
  int teams = want == 1 ? 1 : g_ompspec.devteams > 0 ? g_ompspec.devteams : 4;
  if (want > 1 && teams > want) teams = (int) want;
  auto deps = deps_of(depend);
  if (!(flags & 1)) {
    await_deps(deps);
    region(fn, n, host, sizes, kinds, teams, nullptr, on_host(dev));
    return;
  }
  Async* a = new Async;
  std::vector<Async*> before;
  for (auto o : g_async)
    if (!o->done)
      for (auto& x : o->deps) for (auto& y : deps) if (x.first == y.first && (x.second || y.second)) before.push_back(o);
  a->deps = deps;
  g_async.push_back(a);
  auto* h = new std::vector<void*>(host, host + n);
  auto* z = new std::vector<size_t>(sizes, sizes + n);
  auto* k = new std::vector<unsigned short>(kinds, kinds + n);
  auto* early = new std::vector<char*>(n, nullptr);
  for (size_t i = 0; i < n; ++i)
    if (kind(kinds[i]) == 12 && host[i]) { (*early)[i] = (char*) malloc(sizes[i] + 1); memcpy((*early)[i], host[i], sizes[i]); }
  omp_spawn([=] {
    SimScope s;
    omp_block("dependence of a device region", [=] { for (auto o : before) if (!o->done) return false; return true; });
    region(fn, n, h->data(), z->data(), k->data(), teams, early, on_host(dev));
    a->done = true;
  });
  omp_preempt(g_ompspec.p_pick);
}
EXPORT void GOMP_taskwait_depend(void** depend) { SimScope s; await_deps(deps_of(depend)); }
EXPORT void GOMP_target_data_ext(int dev, size_t n, void** host, size_t* sizes, unsigned short* kinds) {
  SimScope sc;
  host_side();
  Entered e;
  if (on_host(dev)) { g_data.push_back(e.held); return; }
  enter(n, host, sizes, kinds, e);
  g_data.push_back(e.held);
}
EXPORT void GOMP_target_end_data() {
  SimScope sc;
  if (g_data.empty()) return;
  std::vector<u64> h = g_data.back();
  g_data.pop_back();
  for (size_t i = h.size(); i-- > 0;) unmap_one(h[i], false, false);
}
EXPORT void GOMP_target_update_ext(int dev, size_t n, void** host, size_t* sizes, unsigned short* kinds, unsigned, void** depend) {
  SimScope sc;
  await_deps(deps_of(depend));
  if (!g_ompspec.sepmem || on_host(dev)) return;
  for (size_t i = 0; i < n; ++i) {
    int k = kind(kinds[i]);
    u64 a = (u64) host[i];
    Map* m = find(a, sizes[i]);
    if (!m || k == 4 || k == 5) continue;
    if (k & 1) memcpy(m->dev + (a - m->lo), (void*) a, sizes[i]);
    if (k & 2) memcpy((void*) a, m->dev + (a - m->lo), sizes[i]);
  }
}
EXPORT void GOMP_target_enter_exit_data(int dev, size_t n, void** host, size_t* sizes, unsigned short* kinds, unsigned, void** depend) {
  SimScope sc;
  await_deps(deps_of(depend));
  host_side();
  if (!g_ompspec.sepmem || on_host(dev)) return;
  bool out = false, in = false;
  for (size_t i = 0; i < n; ++i) {
    int k = kind(kinds[i]);
    if (k == 7 || k == 23 || k == 31 || k == 2 || k == 130 || k == 18 || k == 81) out = true;
    if (k == 0 || k == 1 || k == 128 || k == 129 || k == 17 || k == 80) in = true;
  }
  if (in || !out) {
    Entered e;
    enter(n, host, sizes, kinds, e);
    return;
  }
  for (size_t i = 0; i < n; ++i) {
    int k = kind(kinds[i]);
    u64 a = (u64) host[i];
    if (!a || !find(a, 0)) continue;
    if (k == 4 || k == 5 || k == 29 || k == 81) { unmap_one(a, false, false); continue; }
    unmap_one(a, (k & 3) == 2, k == 7);
  }
}
EXPORT char vsim_q_[64] = {0};      // the queues of "async" clauses
EXPORT int omp_get_num_devices() { return g_ompspec.ndev; }
EXPORT int omp_get_num_devices_() { return g_ompspec.ndev; }
EXPORT int omp_get_default_device() { return 0; }
EXPORT int omp_get_default_device_() { return 0; }
EXPORT void omp_set_default_device(int) {}
EXPORT int omp_get_initial_device() { return g_ompspec.ndev; }
EXPORT int omp_get_initial_device_() { return g_ompspec.ndev; }
EXPORT int omp_get_device_num() { return dev_in_region() ? 0 : g_ompspec.ndev; }
EXPORT int omp_is_initial_device() { return !dev_in_region(); }
EXPORT int omp_is_initial_device_() { return !dev_in_region(); }
EXPORT void* omp_target_alloc(size_t n, int d) { SimScope s; return g_ompspec.sepmem && !on_host(d) ? dalloc(n) : user_alloc(n); }
EXPORT void omp_target_free(void* p, int) { SimScope s; if (!p) return; if (in_blocks((u64) p)) dfree((char*) p); else user_free(p); }
EXPORT int omp_target_is_present(const void* p, int d) { SimScope s; return !g_ompspec.sepmem || on_host(d) || find((u64) p, 0); }
EXPORT int omp_target_memcpy(void* d, const void* s, size_t n, size_t od, size_t os, int, int) { memcpy((char*) d + od, (const char*) s + os, n); return 0; }

// the OpenACC run-time library (C)
static void* acc_enter(void* a, size_t n, int k) {
  SimScope sc;
  host_side();
  if (!g_ompspec.sepmem) return a;
  std::vector<u64> held;
  Map* m = map_one((u64) a, n, k, held);
  return m->dev + ((u64) a - m->lo);
}
static void acc_leave(void* a, bool back) { SimScope sc; if (g_ompspec.sepmem) unmap_one((u64) a, back, false); }
static void acc_update(void* a, size_t n, bool to) {
  SimScope sc;
  if (!g_ompspec.sepmem) return;
  Map* m = find((u64) a, n);
  if (!m) dev_error("update of data that are not on the device");
  char* d = m->dev + ((u64) a - m->lo);
  if (to) memcpy(d, a, n); else memcpy(a, d, n);
}
EXPORT int acc_get_num_devices(int t) { return t == 2 ? 1 : g_ompspec.ndev; }
EXPORT int acc_get_device_type() { return g_ompspec.ndev ? 4 : 2; }
EXPORT void acc_set_device_type(int) {}
EXPORT void acc_set_device_num(int, int) {}
EXPORT int acc_get_device_num(int) { return 0; }
EXPORT void acc_init(int) {}
EXPORT void acc_shutdown(int) {}
EXPORT int acc_on_device(int t) { bool d = dev_in_region(); return d ? t == 4 || t == 5 : t == 2 || t == 0; }
EXPORT void* acc_malloc(size_t n) { return omp_target_alloc(n, 0); }
EXPORT void acc_free(void* p) { omp_target_free(p, 0); }
EXPORT int acc_is_present(void* a, size_t n) { SimScope s; return !g_ompspec.sepmem || find((u64) a, n); }
EXPORT void* acc_deviceptr(void* a) { SimScope s; return g_ompspec.sepmem ? (void*) translate((u64) a) : a; }
EXPORT void* acc_copyin(void* a, size_t n) { return acc_enter(a, n, 1); }
EXPORT void* acc_create(void* a, size_t n) { return acc_enter(a, n, 0); }
EXPORT void* acc_present_or_copyin(void* a, size_t n) { return acc_enter(a, n, 1); }
EXPORT void* acc_present_or_create(void* a, size_t n) { return acc_enter(a, n, 0); }
EXPORT void acc_copyout(void* a, size_t) { acc_leave(a, true); }
EXPORT void acc_delete(void* a, size_t) { acc_leave(a, false); }
EXPORT void acc_update_device(void* a, size_t n) { acc_update(a, n, true); }
EXPORT void acc_update_self(void* a, size_t n) { acc_update(a, n, false); }
EXPORT void acc_wait(int) { SimScope s; dev_wait_all(); }
EXPORT void acc_wait_all() { SimScope s; dev_wait_all(); }
