// Deterministic simulator core: seeded choices, explicit configuration, fibers,
// stream capture, heap and file-system seams, event log.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

namespace sim {

// ------------------------------------------------------------------ random
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64) below((u64)(b - a + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
inline u64 mix(u64 a, u64 b) { return Rng(a * 0x100000001B3ull ^ b).next(); }

// options of a command line: style 0 gives all in the order of the list, otherwise a seeded order with options that ask for their default now and then left out
struct OptArg { std::vector<std::string> words; bool isdefault; };
inline std::vector<std::string> arg_list(std::vector<OptArg> o, i64 style) {
  Rng r((u64) style + 77);
  if (style)
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
  std::vector<std::string> a;
  for (auto& x : o) {
    if (style && x.isdefault && r.chance(0.7)) continue;
    a.insert(a.end(), x.words.begin(), x.words.end());
  }
  return a;
}

// ------------------------------------------------------------ configuration
struct Cfg {
  std::map<std::string, i64> v;
  i64 get(const std::string& k, i64 d = 0) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
  void set(const std::string& k, i64 x) { v[k] = x; }
  std::string str() const;
};

// ------------------------------------------------------------------ choices
// Every decision of the scheduler and of the fault injector is one numbered choice; 0 is the benign default.
// Only non-zero ones are recorded, as (number, value).
struct Choices {
  bool replay = false;
  Rng rng{1};
  u32 n = 0;                                  // choices made so far
  std::map<u32, u32> given;
  u32 choose(u32 k, double p);                // 0..k-1, non-zero with probability p
};
extern Choices* g_choices;
inline u32 choose(u32 k, double p) { return g_choices->choose(k, p); }

// ---------------------------------------------------------------- run state
enum Counter {
  CT_EVENTS, CT_SWITCHES, CT_MPI_CALLS, CT_RMA_OPS, CT_RMA_SPLIT, CT_RMA_LATE, CT_DELAYS, CT_STALLS, CT_SLOWRANK, CT_CLOCKOFF,
  CT_FENCE_NOSYNC, CT_REDUCE_REORDER, CT_EARLY_RETURN, CT_CRASH, CT_MPIERR, CT_ALLOCFAIL, CT_IO_OPENFAIL, CT_IO_EINTR,
  CT_IO_SHORT, CT_IO_ENOSPC, CT_IO_EIO, CT_IO_CLOSEFAIL, CT_IO_WRITES, CT_THREADS, CT_PREEMPT, CT_ACCESSES, CT_FEWER_THREADS,
  CT_DEVICE_MAPS, CT_ITERORDER, CT_JOBS, CT_INVALID, CT_MSGS, CT_POISON, CT_LATE_KILL, CT_IO_RENAMEFAIL, CT_HOST_REGIONS, CT_N
};
extern const char* counter_names[CT_N];

struct Result {
  int status;  // 0 unfinished, 1 held, 2 violated, 3 harness error
  char cls[80];
  char msg[3000];
  char cfg[4000];
  char sample[1500];
  u64 hash, sched;
  u64 ctr[CT_N];
  double simtime;
  u32 nchoices, ntrace;
  struct { u32 i, v; } trace[400000];
};
extern Result* g_res;
inline void count(Counter c, u64 k = 1) { g_res->ctr[c] += k; }
extern u64 g_hash;
extern u64 g_sched;
inline void loghash(u64 x) { g_hash = (g_hash ^ x) * 0x100000001B3ull + (g_hash >> 47); }
inline void schedhash(u64 x) { g_sched = (g_sched ^ x) * 0x100000001B3ull + (g_sched >> 47); loghash(x + 77); }

struct Violation { std::string cls, msg; };
[[noreturn]] void violate(const std::string& cls, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);

// ------------------------------------------------------------------- fibers
struct Proc;  // a simulated process (MPI rank or the single process of a threaded program)
struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  size_t size = 0;
  std::function<void()> fn;
  bool done = false;
  Proc* proc = nullptr;
  u64 eh[2] = {0, 0};
  int user = 0;     // saved g_user
  int id = 0;
  void* omp = nullptr;
};
extern Fiber* g_cur;      // null: scheduler
extern int g_user;        // user code is running (heap and I/O seams are active)
Fiber* fiber_new(std::function<void()> fn, Proc* p, size_t stack = 0);
void fiber_run(Fiber* f);          // from the scheduler: run f until it gives control back
void fiber_yield();                // from a fiber: back to the scheduler
void fiber_jump(Fiber* to);        // from a fiber: straight to another one
void fiber_free(Fiber* f);

extern void (*g_pause)(u64 ns);
extern double (*g_clock)(bool cpu);      // the clock of the simulated process
struct SimScope {
  int saved;
  SimScope() : saved(g_user) { g_user = 0; }
  ~SimScope() { g_user = saved; }
};

// how a simulated process ended
enum EndKind { END_RUNNING, END_RETURN, END_EXIT, END_ABORT, END_CRASH, END_KILLED, END_FAULT, END_MPIABORT };
struct CapBuf;
struct Proc {
  int rank = 0;
  EndKind end = END_RUNNING;
  int code = 0;
  std::string why;
  std::string out, err;       // captured standard output and error
  CapBuf *bout = nullptr, *berr = nullptr;
  std::ios *fout = nullptr, *ferr = nullptr;
  int stout = 0, sterr = 0;
  FILE *cout = nullptr, *cerr = nullptr;
  Fiber* fiber = nullptr;
  u64 sines = 0;              // calls of sin() so far: the programs set up their initial field with it
  u64 allocs = 0;             // user allocations so far
  u64 alloc_fail_min = 0;     // only allocations of at least this size count
  bool alloc_fail_on = false; // and all later ones too
  u64 alloc_fail_at = 0;      // fail this allocation (1-based), 0: never
  bool alloc_failed = false;
  std::vector<std::string> obs;
  bool ok() const { return (end == END_RETURN || end == END_EXIT) && code == 0; }
};
extern Proc* g_proc;
Proc* proc_new(int rank);
void proc_enter(Proc* p);     // swap streams in
void proc_leave();
[[noreturn]] void proc_end(EndKind k, int code, const std::string& why);   // called on a fiber: never returns
extern void (*g_on_proc_end)(Proc*);
std::string end_str(const Proc* p);

// --------------------------------------------------------------------- heap
extern int g_fill;            // poison byte for fresh user memory
void* user_alloc(size_t n);   // allocate as user (used for MPI_Alloc_mem)
void user_free(void* p);
void mem_access_slow(const void* p, size_t n, bool write);
static inline void mem_access(const void* p, size_t n, bool write) {   // must lie inside of a live heap block, if it is in the heap
  unsigned long long a = (unsigned long long) p;
  if (a - 0x100000000000ull >= (4ull << 30) || n == 0) return;
  const unsigned char* s = (const unsigned char*) (a - 0x100000000000ull + 0x110000000000ull);
  if (n <= 16 && s[0] && s[n - 1]) return;
  mem_access_slow(p, n, write);
}
std::string heap_check();     // "" or description of a damaged block

// ------------------------------------------------------------------ file I/O
struct SimFile { int fd; std::string name; };
struct IoPlan {
  bool persist = false;     // what failed once goes on failing
  int open_fail = 0;        // n-th open for writing fails (1-based)
  int open_errno = 0;
  i64 capacity = -1;        // bytes the disk takes in all
  int eio_at = 0;           // n-th write fails with EIO
  int close_fail = 0;       // n-th close of a written file reports EIO
  int rename_fail = 0;      // n-th rename fails with EIO
  double p_eintr = 0, p_short = 0;
  // state
  int opens = 0, writes = 0, closes = 0, renames = 0;
  i64 used = 0;
  bool failed = false;      // a hard fault was really injected
};
extern IoPlan g_io;
std::map<std::string, std::string> io_files();   // every file created by user code, with its content
void io_put(const std::string& name, const std::string& content);
std::map<std::string, int> io_openers();         // file -> number of times opened for writing
void io_reset();
extern std::map<std::string, int> g_io_writer;   // file -> rank that opened it last

// --------------------------------------------------------------------- steps
extern u64 g_steps, g_step_budget;
void out_of_steps();

// ------------------------------------------------------------------ libraries
void* lib_main(const std::string& name, int copy);           // dlopen'd copy's main
void* lib_sym(const std::string& name, int copy, const char* sym);
void lib_preload(const std::string& name, int copies);
bool lib_have(const std::string& name);
extern std::string g_libdir;

// ------------------------------------------------------------------ scenarios
struct Scenario {
  std::string prop, name;
  int weight;
  std::vector<std::pair<std::string, int>> libs;
  std::function<void(Rng&, Cfg&)> draw;
  std::function<bool(const Cfg&)> valid;
  std::function<void(const Cfg&)> run;      // throws Violation
};
std::vector<Scenario>& scenarios();
struct Reg { Reg(const Scenario& s) { scenarios().push_back(s); } };
void set_sample(const std::string& s);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
#endif
