#include "core.h"
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <exception>

namespace sim {

const char* counter_names[CT_N] = {
  "events", "context_switches", "mpi_calls", "rma_ops", "rma_split_transfers", "rma_late_transfers", "random_delays", "rank_stalls",
  "slow_rank_runs", "clock_skew_runs", "fence_without_sync", "reduction_reordered", "collective_early_return", "rank_crash",
  "mpi_error", "alloc_failure", "open_failure", "write_eintr", "short_write", "disk_full", "write_eio", "close_failure",
  "file_writes", "threads", "preemptions", "memory_accesses", "fewer_threads_than_requested", "device_mappings",
  "iteration_order_permuted", "simulated_jobs", "invalid_decompositions", "messages", "poisoned_memory_runs", "survivors_run_on", "rename_failure", "device_regions_on_host"};

Choices* g_choices = nullptr;
Result* g_res = nullptr;
u64 g_hash = 14695981039346656037ull, g_sched = 14695981039346656037ull;
Fiber* g_cur = nullptr;
int g_user = 0;
double (*g_clock)(bool) = nullptr;
void (*g_pause)(u64) = nullptr;
Proc* g_proc = nullptr;
int g_fill = 0xFB;
IoPlan g_io;
u64 g_steps = 0, g_step_budget = 20000000ull;
void (*g_on_proc_end)(Proc*) = nullptr;
std::string g_libdir;
std::map<std::string, int> g_io_writer;

std::string Cfg::str() const {
  std::string s;
  for (auto& kv : v) s += (s.empty() ? "" : " ") + kv.first + "=" + std::to_string(kv.second);
  return s;
}

u32 Choices::choose(u32 k, double p) {
  u32 idx = n++;
  u32 v = 0;
  if (k > 1) {
    if (replay) {
      auto it = given.find(idx);
      if (it != given.end()) v = it->second % k;
    } else if (p > 0 && rng.unit() < p) {
      v = 1 + (u32) rng.below(k - 1);
    }
    if (v && g_res && g_res->ntrace < sizeof g_res->trace / sizeof g_res->trace[0]) {     // in shared memory: survives the process
      g_res->trace[g_res->ntrace].i = idx;
      g_res->trace[g_res->ntrace++].v = v;
    }
  }
  return v;
}

std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

void violate(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
void harness_error(const std::string& msg) {
  g_user = 0;
  g_res->status = 3;
  snprintf(g_res->msg, sizeof g_res->msg, "%s", msg.c_str());
  _Exit(3);
}
void set_sample(const std::string& s) { snprintf(g_res->sample, sizeof g_res->sample, "%s", s.c_str()); }

// ============================================================== fibers
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void* g_sched_sp = nullptr;
static u64 g_sched_eh[2];
static std::vector<std::pair<char*, size_t>> g_stack_pool;

static void eh_save(u64* e) { memcpy(e, abi::__cxa_get_globals(), 16); }
static void eh_load(const u64* e) { memcpy(abi::__cxa_get_globals(), e, 16); }

static void fiber_entry() {
  Fiber* f = g_cur;
  f->fn();
  g_user = 0;
  f->done = true;
  fiber_yield();
  abort();
}

Fiber* fiber_new(std::function<void()> fn, Proc* p, size_t size) {
  if (!size) size = 1 << 20;
  Fiber* f = new Fiber;
  f->fn = std::move(fn);
  f->proc = p;
  f->size = size;
  for (size_t i = 0; i < g_stack_pool.size(); ++i)
    if (g_stack_pool[i].second == size) {
      f->stack = g_stack_pool[i].first;
      g_stack_pool.erase(g_stack_pool.begin() + i);
      break;
    }
  if (!f->stack) {
    static char* place = (char*) 0x120000000000ull;      // always the same addresses
    f->stack = (char*) mmap(place, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    place += (size + 4096 + 65535) / 65536 * 65536;
    if (f->stack == MAP_FAILED) { perror("mmap"); _Exit(3); }
    mprotect(f->stack, 4096, PROT_NONE);
  }
  char* top = f->stack + size + 4096;
  memset(top - 32768, g_fill, 32768);     // uninitialised locals are visible and repeatable
  u64* sp = (u64*) top;
  *--sp = 0;                              // at entry the stack is as after a call
  *--sp = (u64) &fiber_entry;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  --sp;
  u32 mxcsr = 0x1f80;
  uint16_t cw = 0x37f;
  memcpy(sp, &mxcsr, 4);
  memcpy((char*) sp + 4, &cw, 2);
  f->sp = sp;
  static int ids = 0;
  f->id = ++ids;
  return f;
}

void fiber_free(Fiber* f) {
  g_stack_pool.push_back({f->stack, f->size});
  delete f;
}

static void save_cur() {
  if (g_cur) { eh_save(g_cur->eh); g_cur->user = g_user; }
  else eh_save(g_sched_eh);
}

void fiber_run(Fiber* f) {
  save_cur();
  g_cur = f;
  if (f->proc != g_proc) { if (g_proc) proc_leave(); if (f->proc) proc_enter(f->proc); }
  eh_load(f->eh);
  g_user = f->user;
  g_res->ctr[CT_SWITCHES]++;
  sim_switch(&g_sched_sp, f->sp);
  // back in the scheduler
  g_user = 0;
  eh_load(g_sched_eh);
  if (g_proc) proc_leave();
}

void fiber_yield() {
  Fiber* me = g_cur;
  save_cur();
  g_cur = nullptr;
  sim_switch(&me->sp, g_sched_sp);
}

void fiber_jump(Fiber* to) {
  Fiber* me = g_cur;
  if (to == me) return;
  save_cur();
  g_cur = to;
  eh_load(to->eh);
  g_user = to->user;
  g_res->ctr[CT_SWITCHES]++;
  sim_switch(&me->sp, to->sp);
}

// ============================================================== processes and streams
static void capped(size_t n) { if (n > (64u << 20)) out_of_steps(); }    // output without end
struct CapBuf : std::streambuf {
  std::string* dst;
  explicit CapBuf(std::string* d) : dst(d) {}
  int overflow(int c) override {
    SimScope s;
    if (c != EOF) dst->push_back((char) c);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    SimScope s;
    dst->append(p, (size_t) n);
    capped(dst->size());
    return n;
  }
};

static ssize_t cookie_write(void* c, const char* b, size_t n) {
  SimScope s;
  ((std::string*) c)->append(b, n);
  capped(((std::string*) c)->size());
  return (ssize_t) n;
}
static FILE* cap_file(std::string* d) {
  cookie_io_functions_t f = {nullptr, cookie_write, nullptr, nullptr};
  FILE* fp = fopencookie(d, "w", f);
  setvbuf(fp, nullptr, _IONBF, 0);
  return fp;
}

Proc* proc_new(int rank) {
  Proc* p = new Proc;
  p->rank = rank;
  p->bout = new CapBuf(&p->out);
  p->berr = new CapBuf(&p->err);
  p->fout = new std::ios(nullptr);
  p->ferr = new std::ios(nullptr);
  p->fout->copyfmt(std::cout);
  p->ferr->copyfmt(std::cerr);
  p->cout = cap_file(&p->out);
  p->cerr = cap_file(&p->err);
  return p;
}

static struct {
  bool init = false;
  std::streambuf *o, *e, *l;
  std::ios *fo, *fe;
  FILE *co, *ce;
} g_real;

void proc_enter(Proc* p) {
  if (!g_real.init) {
    g_real.init = true;
    g_real.fo = new std::ios(nullptr);
    g_real.fe = new std::ios(nullptr);
  }
  g_real.o = std::cout.rdbuf(p->bout);
  g_real.e = std::cerr.rdbuf(p->berr);
  g_real.l = std::clog.rdbuf(p->berr);
  g_real.fo->copyfmt(std::cout);
  g_real.fe->copyfmt(std::cerr);
  g_real.co = stdout;
  g_real.ce = stderr;
  std::cout.copyfmt(*p->fout);
  std::cerr.copyfmt(*p->ferr);
  std::cout.clear((std::ios::iostate) p->stout);
  std::cerr.clear((std::ios::iostate) p->sterr);
  stdout = p->cout;
  stderr = p->cerr;
  g_proc = p;
}
void proc_leave() {
  Proc* p = g_proc;
  p->fout->copyfmt(std::cout);
  p->ferr->copyfmt(std::cerr);
  p->stout = (int) std::cout.rdstate();
  p->sterr = (int) std::cerr.rdstate();
  std::cout.exceptions(std::ios::goodbit);
  std::cerr.exceptions(std::ios::goodbit);
  std::cout.rdbuf(g_real.o);
  std::cerr.rdbuf(g_real.e);
  std::clog.rdbuf(g_real.l);
  std::cout.copyfmt(*g_real.fo);
  std::cerr.copyfmt(*g_real.fe);
  stdout = g_real.co;
  stderr = g_real.ce;
  g_proc = nullptr;
}

std::string end_str(const Proc* p) {
  static const char* n[] = {"running", "returned", "exit", "abort", "crash", "killed", "injected-fault", "mpi-abort"};
  return fmt("%s(%d)%s%s", n[p->end], p->code, p->why.empty() ? "" : ": ", p->why.c_str());
}

void proc_end(EndKind k, int code, const std::string& why) {
  g_user = 0;
  Proc* p = g_cur->proc;
  if (p->end == END_RUNNING) {
    p->end = k;
    p->code = code;
    p->why = why;
    loghash(1000 + k * 7 + code);
    if (g_on_proc_end) g_on_proc_end(p);
  }
  g_cur->done = true;
  for (;;) fiber_yield();
}

void out_of_steps() {
  if (g_cur && g_cur->proc) {
    g_step_budget += 1000000;
    proc_end(END_CRASH, 124, "step budget exhausted: no progress (endless loop)");
  }
}

// ============================================================== heap
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
// User memory lives in an arena of its own at a fixed place, so that stray accesses behave the same in every run.
static const u64 HMAGIC = 0x5EED51A7C0FFEE11ull;
static const size_t HDR = 64, TAIL = 64;
struct Hdr { u64 canary[2]; size_t total, size; Hdr *prev, *next; u64 rank; u64 magic; };
static_assert(sizeof(Hdr) == 64, "hdr");
static Hdr g_head = {{0, 0}, 0, 0, &g_head, &g_head, 0, 0};
static std::string* g_heap_bad = nullptr;
static char* const ARENA = (char*) 0x100000000000ull;
static const size_t ARENA_SIZE = 1ull << 30, MAXBLOCK = 256ull << 20;
static unsigned char* const SHADOW = (unsigned char*) 0x110000000000ull;   // 1: byte belongs to a live block
static size_t g_arena_used = 0;
static const size_t NCLASS = 1024, DELAY = 128;
static struct { Hdr *head, *tail; size_t n; } g_class[NCLASS];

static bool in_arena(const void* p) { return (const char*) p >= ARENA && (const char*) p < ARENA + ARENA_SIZE; }
static void bad_heap(const std::string& m) { if (!g_heap_bad) g_heap_bad = new std::string(m); }
static bool hdr_damaged(Hdr* h) {
  if (h->canary[0] != 0xCACACACACACACACAull || h->canary[1] != 0xCACACACACACACACAull) return true;
  const unsigned char* t = (unsigned char*) (h + 1) + h->size;
  for (size_t i = 0; i < TAIL; ++i) if (t[i] != 0xCA) return true;
  return false;
}
static void* u_alloc(size_t n, size_t align, bool zero) {
  Proc* p = g_cur ? g_cur->proc : nullptr;
  if (p) {
    if (n >= p->alloc_fail_min) p->allocs++;
    if (p->alloc_fail_at && n >= p->alloc_fail_min && (p->allocs == p->alloc_fail_at || (p->alloc_fail_on && p->allocs > p->alloc_fail_at))) {
      count(CT_ALLOCFAIL);
      p->alloc_failed = true;
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > MAXBLOCK) { errno = ENOMEM; return nullptr; }
  if (!g_arena_used) {
    void* a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(SHADOW, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void*) ARENA || b != (void*) SHADOW) { int s = g_user; g_user = 0; harness_error("no arena"); g_user = s; }
    g_arena_used = 4096;
  }
  size_t total = (HDR + n + TAIL + 63) / 64 * 64, c = total / 64;
  Hdr* h = nullptr;
  if (align <= 64 && c < NCLASS && g_class[c].n > DELAY) {
    h = g_class[c].head;
    g_class[c].head = h->next;
    g_class[c].n--;
  } else {
    size_t at = g_arena_used + HDR;
    if (align > 64) at = (at + align - 1) / align * align;
    at -= HDR;
    if (at + total > ARENA_SIZE) { errno = ENOMEM; return nullptr; }
    g_arena_used = at + total;
    h = (Hdr*) (ARENA + at);
    h->total = total;
  }
  h->canary[0] = h->canary[1] = 0xCACACACACACACACAull;
  h->size = n;
  h->rank = p ? (u64) p->rank : ~0ull;
  h->magic = HMAGIC;
  h->next = g_head.next;
  h->prev = &g_head;
  g_head.next->prev = h;
  g_head.next = h;
  char* u = (char*) (h + 1);
  memset(u, zero ? 0 : g_fill, n);
  memset(u + n, 0xCA, TAIL);
  memset(SHADOW + (u - ARENA), 1, n);
  return u;
}
static Hdr* u_hdr(void* p) { return in_arena(p) ? (Hdr*) p - 1 : nullptr; }
static void u_free(Hdr* h) {
  SimScope sc;
  if (((u64) h & 15) || h->magic != HMAGIC) { bad_heap("invalid or repeated free"); return; }
  if (hdr_damaged(h)) bad_heap(fmt("heap block of %zu bytes (rank %d) overrun", h->size, (int) h->rank));
  h->prev->next = h->next;
  h->next->prev = h->prev;
  h->magic = 0;
  memset((void*) (h + 1), 0xDD, h->size);
  memset(SHADOW + ((char*) (h + 1) - ARENA), 0, h->size);
  size_t c = h->total / 64;
  if (c < NCLASS) {
    h->next = nullptr;
    if (g_class[c].n++) g_class[c].tail->next = h;
    else g_class[c].head = h;
    g_class[c].tail = h;
  }
}
void* user_alloc(size_t n) { return u_alloc(n, 16, false); }
void user_free(void* p) {
  Hdr* h = p ? u_hdr(p) : nullptr;
  if (h) u_free(h);
}
std::string heap_check() {
  if (g_heap_bad) return *g_heap_bad;
  for (Hdr* h = g_head.next; h != &g_head; h = h->next)
    if (hdr_damaged(h)) return fmt("heap block of %zu bytes (rank %d) overrun", h->size, (int) h->rank);
  return "";
}
// an access by the code under test (or on its behalf) to n bytes at p
void mem_access_slow(const void* p, size_t n, bool write) {
  size_t o = (const char*) p - ARENA;
  if (g_heap_bad) return;
  SimScope sc;
  if (o >= g_arena_used) { bad_heap(fmt("%s of %zu bytes through a wild pointer", write ? "write" : "read", n)); return; }
  size_t k = 0;
  while (k < n && SHADOW[o + k]) ++k;
  if (k == n) return;
  // the block in front of it
  size_t b = o, gap = 0;
  while (b > 4096 && !SHADOW[b - 1] && gap < 4096) { --b; ++gap; }
  size_t e = b;
  while (e > 4096 && SHADOW[e - 1]) --e;
  Hdr* h = b > 4096 ? (Hdr*) (ARENA + e) - 1 : nullptr;
  bool live = h && h->magic == HMAGIC;
  bad_heap(fmt("rank %d: invalid %s of %zu bytes, %zu bytes behind a block of %zu bytes", g_cur && g_cur->proc ? g_cur->proc->rank : 0, write ? "write" : "read", n,
               k ? k : gap, live ? h->size : 0));
}

}  // namespace sim
using namespace sim;

EXPORT void* malloc(size_t n) { return g_user ? u_alloc(n, 16, false) : __libc_malloc(n); }
EXPORT void* calloc(size_t a, size_t b) {
  if (!g_user) return __libc_calloc(a, b);
  if (b && a > ~0ull / b) { errno = ENOMEM; return nullptr; }
  return u_alloc(a * b, 16, true);
}
EXPORT void free(void* p) {
  if (!p) return;
  Hdr* h = u_hdr(p);
  if (h) u_free(h);
  else __libc_free(p);
}
EXPORT void* realloc(void* p, size_t n) {
  Hdr* h = p ? u_hdr(p) : nullptr;
  if (!g_user && !h) return __libc_realloc(p, n);
  if (!h && p) return __libc_realloc(p, n);     // allocated before the simulation started
  void* q = u_alloc(n, 16, false);
  if (!q) return nullptr;
  if (h) { memcpy(q, p, h->size < n ? h->size : n); u_free(h); }
  return q;
}
EXPORT void* memalign(size_t a, size_t n) { return g_user ? u_alloc(n, a, false) : __libc_memalign(a, n); }
EXPORT void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void** o, size_t a, size_t n) {
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}

// ============================================================== process end
namespace sim { void fortran_end(); }
EXPORT void exit(int c) {
  if (g_cur) {
    if (g_user) { std::cout.flush(); fflush(stdout); fortran_end(); }
    proc_end(END_EXIT, c, "");
  }
  static void (*real)(int) = (void (*)(int)) dlsym(RTLD_NEXT, "exit");
  real(c);
  _Exit(c);
}
EXPORT void _exit(int c) {
  if (g_cur) proc_end(END_EXIT, c, "_exit");
  syscall(SYS_exit_group, c);
  for (;;) {}
}
EXPORT void quick_exit(int c) { _exit(c); }
EXPORT void abort() {
  if (g_cur) proc_end(END_ABORT, 134, "abort");
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  syscall(SYS_exit_group, 134);
  for (;;) {}
}
namespace sim {
static void on_terminate() {
  if (g_cur) {
    g_user = 0;
    std::string why = "terminate";
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t) {
      why = std::string("uncaught ") + t->name();
      try { throw; } catch (std::exception& e) { why += std::string(": ") + e.what(); } catch (...) {}
    }
    proc_end(END_ABORT, 134, why);
  }
  if (g_res) harness_error("terminate in the simulator");
  syscall(SYS_exit_group, 3);
}
static void on_signal(int sig, siginfo_t*, void*) {
  if (g_cur && g_cur->proc) {
    // never returns: the altstack is simply left behind
    stack_t ss;
    static char alt[2][65536];
    static int k = 0;
    k ^= 1;
    ss.ss_sp = alt[k];
    ss.ss_size = sizeof alt[k];
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    g_user = 0;
    proc_end(END_CRASH, 128 + sig, fmt("signal %d", sig));
  }
  if (g_res && g_res->status == 0) {
    g_res->status = 3;
    snprintf(g_res->msg, sizeof g_res->msg, "signal %d in the simulator", sig);
  }
  syscall(SYS_exit_group, 3);
}
void install_handlers() {
  static char alt[65536];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}

// ============================================================== files
struct FileRec { int memfd; int opens; };
static std::map<std::string, FileRec>* g_files = new std::map<std::string, FileRec>;
struct FdRec { std::string name; bool wr; bool dirty, lost; };
static FdRec* g_fd[1024];
static u64 g_fdset[16];
inline bool is_simfd(int fd) { return fd >= 0 && fd < 1024 && (g_fdset[fd >> 6] >> (fd & 63) & 1); }

void io_reset() {
  g_io = IoPlan();
  g_io_writer.clear();
}
std::map<std::string, std::string> io_files() {
  std::map<std::string, std::string> r;
  for (auto& kv : *g_files) {
    std::string s;
    char b[65536];
    off_t o = 0;
    for (;;) {
      ssize_t n = pread(kv.second.memfd, b, sizeof b, o);
      if (n <= 0) break;
      s.append(b, (size_t) n);
      o += n;
    }
    r[kv.first] = s;
  }
  return r;
}
std::map<std::string, int> io_openers() {
  std::map<std::string, int> r;
  for (auto& kv : *g_files) r[kv.first] = kv.second.opens;
  return r;
}

u64 opens_hash(const std::string& s);
static std::string sim_name(const char* path) {
  std::string name = path;
  while (name.compare(0, 2, "./") == 0) name = name.substr(2);
  return name;
}
void io_put(const std::string& name, const std::string& content) {     // left behind by an earlier run
  int m = memfd_create("simfile", 0);
  if (m < 0) harness_error("memfd_create");
  m = fcntl(m, F_DUPFD, 300);
  if (syscall(SYS_write, m, content.data(), content.size()) != (long) content.size()) harness_error("io_put");
  (*g_files)[name] = FileRec{m, 0};
}
static int sim_stat(const char* path, struct stat* st, bool follow, int user = 1) {
  auto it = g_files->find(sim_name(path));
  if (it != g_files->end()) {
    int r = fstat(it->second.memfd, st);
    st->st_mode = S_IFREG | 0644;
    st->st_ino = 1000 + (ino_t) std::distance(g_files->begin(), it);
    st->st_dev = 77;
    return r;
  }
  if (user && path[0] != '/') { errno = ENOENT; return -1; }
  return (int) syscall(SYS_newfstatat, AT_FDCWD, path, st, follow ? 0 : AT_SYMLINK_NOFOLLOW);
}
static int sim_open(const char* path, int flags) {
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  std::string name = sim_name(path);
  auto it = g_files->find(name);
  if (it == g_files->end() && !(flags & O_CREAT)) {
    if (!wr && path[0] == '/') {
      // reading the machine (locale, /proc, ...): pass through
      return (int) syscall(SYS_openat, AT_FDCWD, path, flags, 0);
    }
    errno = ENOENT;
    return -1;
  }
  if (wr) {
    g_io.opens++;
    if (g_io.open_fail && (g_io.opens == g_io.open_fail || (g_io.persist && g_io.opens > g_io.open_fail))) {
      g_io.failed = true;
      count(CT_IO_OPENFAIL);
      errno = g_io.open_errno ? g_io.open_errno : EACCES;
      return -1;
    }
  }
  if (it != g_files->end() && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (it == g_files->end()) {
    int m = memfd_create("simfile", 0);
    if (m < 0) harness_error("memfd_create");
    m = fcntl(m, F_DUPFD, 300);
    it = g_files->insert({name, FileRec{m, 0}}).first;
  }
  if (wr) { it->second.opens++; g_io_writer[name] = g_cur->proc->rank; }
  if ((flags & O_TRUNC) && wr) (void) !ftruncate(it->second.memfd, 0);
  char pp[64];
  snprintf(pp, sizeof pp, "/proc/self/fd/%d", it->second.memfd);
  int fd = (int) syscall(SYS_openat, AT_FDCWD, pp, (flags & (O_ACCMODE | O_APPEND)), 0);
  if (fd < 0 || fd >= 1024) harness_error("sim_open");
  g_fd[fd] = new FdRec{name, wr, false, false};
  g_fdset[fd >> 6] |= 1ull << (fd & 63);
  loghash(fd + 31 * opens_hash(name));
  return fd;
}
u64 opens_hash(const std::string& s) {
  u64 h = 7;
  for (char c : s) h = h * 131 + (unsigned char) c;
  return h;
}

static ssize_t sim_write(int fd, const char* b, size_t n) {
  if (g_fd[fd]) g_fd[fd]->dirty = true;
  g_io.writes++;
  count(CT_IO_WRITES);
  if (n == 0) return 0;
  if (g_io.eio_at && (g_io.writes == g_io.eio_at || (g_io.persist && g_io.writes > g_io.eio_at))) {
    g_io.failed = true;
    count(CT_IO_EIO);
    errno = EIO;
    return -1;
  }
  if (g_io.p_eintr > 0 && choose(2, g_io.p_eintr)) {
    count(CT_IO_EINTR);
    errno = EINTR;
    return -1;
  }
  size_t k = n;
  if (g_io.p_short > 0 && n > 1) {
    u32 c = choose(16, g_io.p_short);
    if (c) {
      k = 1 + (n - 1) * (c - 1) / 15;
      if (k >= n) k = n - 1;
      count(CT_IO_SHORT);
    }
  }
  if (g_io.capacity >= 0) {
    if (g_io.used >= g_io.capacity) {
      g_io.failed = true;
      count(CT_IO_ENOSPC);
      errno = ENOSPC;
      return -1;
    }
    if (g_io.used + (i64) k > g_io.capacity) k = (size_t) (g_io.capacity - g_io.used);
  }
  ssize_t w = syscall(SYS_write, fd, b, k);
  if (w > 0) g_io.used += w;
  if (g_io.used > (64ll << 20)) out_of_steps();
  loghash((u64) w);
  return w;
}
// data the kernel had taken but could not store in the end
static void lose_tail(int fd) {
  struct stat st;
  if (fstat(fd, &st) == 0 && st.st_size > 0 && ftruncate(fd, st.st_size - std::max<off_t>(1, std::min<off_t>(4096, st.st_size / 2))) != 0) out_of_steps();
}
static bool close_fails_now(int nth) { return g_io.close_fail && (nth == g_io.close_fail || (g_io.persist && nth > g_io.close_fail)); }
static int sim_fsync(int fd) {
  FdRec* r = g_fd[fd];
  std::vector<FdRec*> same;      // all descriptors of the file
  bool dirty = false;
  for (auto q : g_fd) if (q && q->name == r->name) { same.push_back(q); dirty = dirty || q->dirty; }
  for (auto q : same) q->dirty = false;
  if (!dirty || r->lost || !close_fails_now(g_io.closes + 1)) return 0;
  lose_tail(fd);
  r->lost = true;      // reported once
  g_io.failed = true;
  count(CT_IO_CLOSEFAIL);
  errno = EIO;
  return -1;
}
static int sim_close(int fd) {
  FdRec* r = g_fd[fd];
  bool lost = r->lost;
  if (r->dirty && !lost && close_fails_now(g_io.closes + 1)) lose_tail(fd);
  g_fd[fd] = nullptr;
  g_fdset[fd >> 6] &= ~(1ull << (fd & 63));
  bool wr = r->wr;
  delete r;
  syscall(SYS_close, fd);
  if (wr) {
    g_io.closes++;
    if (close_fails_now(g_io.closes) && !lost) {
      g_io.failed = true;
      count(CT_IO_CLOSEFAIL);
      errno = EIO;
      return -1;
    }
  }
  return 0;
}
}  // namespace sim

EXPORT int open(const char* p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (g_user) { SimScope s; return sim_open(p, flags); }
  return (int) syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
EXPORT int open64(const char* p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (g_user) { SimScope s; return sim_open(p, flags); }
  return (int) syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
EXPORT int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (is_simfd(fd)) { SimScope s; return sim_write(fd, (const char*) b, n); }
  if (g_cur && g_proc && (fd == 1 || fd == 2)) {
    SimScope s;
    (fd == 1 ? g_proc->out : g_proc->err).append((const char*) b, n);
    capped((fd == 1 ? g_proc->out : g_proc->err).size());
    return (ssize_t) n;
  }
  return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int k) {
  if (is_simfd(fd)) {
    SimScope s;
    std::string all;
    for (int i = 0; i < k; ++i) all.append((const char*) v[i].iov_base, v[i].iov_len);
    return sim_write(fd, all.data(), all.size());
  }
  if (g_cur && g_proc && (fd == 1 || fd == 2)) {
    SimScope s;
    ssize_t n = 0;
    for (int i = 0; i < k; ++i) {
      (fd == 1 ? g_proc->out : g_proc->err).append((const char*) v[i].iov_base, v[i].iov_len);
      n += (ssize_t) v[i].iov_len;
    }
    return n;
  }
  return syscall(SYS_writev, fd, v, k);
}
EXPORT int close(int fd) {
  if (is_simfd(fd)) { SimScope s; return sim_close(fd); }
  return (int) syscall(SYS_close, fd);
}
static FILE* real_fopen(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*) = (FILE * (*) (const char*, const char*) ) dlsym(RTLD_NEXT, "fopen64");
  return real(p, m);
}
static std::map<FILE*, int>* g_cfiles = new std::map<FILE*, int>;
static ssize_t ck_write(void* c, const char* b, size_t n) {
  SimScope s;
  size_t done = 0;      // as libc does: go on after a short write, give up at an error (and, unlike it, not at an interruption no real program sees)
  while (done < n) {
    ssize_t w = sim_write((int) (long) c, b + done, n - done);
    if (w < 0 && errno == EINTR) continue;
    if (w < 0) break;
    done += (size_t) w;
  }
  return (ssize_t) done;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return syscall(SYS_read, (int) (long) c, b, n); }
static int ck_seek(void* c, off64_t* o, int w) {
  off_t r = lseek((int) (long) c, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void* c) {
  SimScope s;
  return sim_close((int) (long) c);
}
static FILE* sim_fopen(const char* p, const char* m) {
  int fl = 0;
  if (m[0] == 'r') fl = strchr(m, '+') ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') fl = (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = sim_open(p, fl);
  if (fd < 0) return nullptr;
  if (!is_simfd(fd)) return fdopen(fd, m);
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*) (long) fd, m, f);
  (*g_cfiles)[fp] = fd;
  return fp;
}
EXPORT int fileno(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fileno");
  if (!g_cfiles->empty()) {
    auto it = g_cfiles->find(f);
    if (it != g_cfiles->end()) return it->second;
  }
  return real(f);
}
EXPORT FILE* fopen(const char* p, const char* m) {
  if (g_user) { SimScope s; return sim_fopen(p, m); }
  return real_fopen(p, m);
}
EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
EXPORT int fclose(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fclose");
  SimScope s;
  g_cfiles->erase(f);
  return real(f);
}

extern "C" {
EXPORT int stat(const char* p, struct stat* st) { SimScope s; return sim_stat(p, st, true, s.saved); }
EXPORT int lstat(const char* p, struct stat* st) { SimScope s; return sim_stat(p, st, false, s.saved); }
EXPORT int stat64(const char* p, struct stat64* st) { SimScope s; return sim_stat(p, (struct stat*) st, true, s.saved); }
EXPORT int lstat64(const char* p, struct stat64* st) { SimScope s; return sim_stat(p, (struct stat*) st, false, s.saved); }
EXPORT int access(const char* p, int mode) {
  if (!g_user) return (int) syscall(SYS_access, p, mode);
  SimScope s;
  struct stat st;
  return sim_stat(p, &st, true) ? -1 : p[0] == '/' && !g_files->count(sim_name(p)) ? (int) syscall(SYS_access, p, mode) : 0;
}
EXPORT int unlink(const char* p) {
  if (!g_user) return (int) syscall(SYS_unlink, p);
  SimScope s;
  if (g_files->erase(sim_name(p))) return 0;
  errno = ENOENT;        // nothing of the real machine is ever removed
  return -1;
}
EXPORT int remove(const char* p) { return unlink(p); }
EXPORT int rename(const char* a, const char* b) {
  if (!g_user) return (int) syscall(SYS_rename, a, b);
  SimScope s;
  auto it = g_files->find(sim_name(a));
  if (it == g_files->end()) { errno = ENOENT; return -1; }
  if (g_io.rename_fail && ++g_io.renames == g_io.rename_fail) {
    g_io.failed = true;
    count(CT_IO_RENAMEFAIL);
    errno = EIO;
    return -1;
  }
  FileRec r = it->second;
  g_files->erase(it);
  g_io_writer[sim_name(b)] = g_io_writer[sim_name(a)];
  (*g_files)[sim_name(b)] = r;
  return 0;
}
EXPORT double sin(double x) {
  static double (*real)(double) = (double (*)(double)) dlsym(RTLD_NEXT, "sin");
  if (g_user && g_cur && g_cur->proc) g_cur->proc->sines++;
  return real(x);
}
static bool clocked() { return g_user && g_cur && g_cur->proc && g_clock; }
EXPORT int clock_gettime(clockid_t id, struct timespec* t) {
  if (!clocked()) return (int) syscall(SYS_clock_gettime, id, t);
  SimScope s;
  double v = g_clock(id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID);
  t->tv_sec = (time_t) v;
  t->tv_nsec = (long) ((v - (double) t->tv_sec) * 1e9);
  return 0;
}
EXPORT int gettimeofday(struct timeval* t, void* z) {
  if (!clocked()) return (int) syscall(SYS_gettimeofday, t, z);
  SimScope s;
  double v = g_clock(false);
  t->tv_sec = (time_t) v;
  t->tv_usec = (long) ((v - (double) t->tv_sec) * 1e6);
  return 0;
}
EXPORT time_t time(time_t* p) {
  time_t r;
  if (!clocked()) r = (time_t) syscall(SYS_time, nullptr);
  else { SimScope s; r = (time_t) g_clock(false); }
  if (p) *p = r;
  return r;
}
EXPORT clock_t clock() {
  if (clocked()) { SimScope s; return (clock_t) (g_clock(true) * CLOCKS_PER_SEC); }
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t);
  return (clock_t) (t.tv_sec * CLOCKS_PER_SEC + t.tv_nsec / 1000);
}
static bool paused(u64 ns) {
  if (!clocked() || !g_pause) return false;
  SimScope s;
  g_pause(ns);
  return true;
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem) { return paused((u64) t->tv_sec * 1000000000ull + (u64) t->tv_nsec) ? 0 : (int) syscall(SYS_nanosleep, t, rem); }
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem) {
  if (clocked()) {
    u64 ns = (u64) t->tv_sec * 1000000000ull + (u64) t->tv_nsec;
    if (flags & TIMER_ABSTIME) {
      struct timespec n;
      clock_gettime(id, &n);
      u64 now = (u64) n.tv_sec * 1000000000ull + (u64) n.tv_nsec;
      ns = ns > now ? ns - now : 0;
    }
    if (paused(ns)) return 0;
  }
  return syscall(SYS_clock_nanosleep, id, flags, t, rem) ? errno : 0;
}
EXPORT int usleep(useconds_t us) { struct timespec t = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned n) { struct timespec t = {(time_t) n, 0}; nanosleep(&t, nullptr); return 0; }
EXPORT int sched_yield() { return paused(1000) ? 0 : (int) syscall(SYS_sched_yield); }
EXPORT int fsync(int fd) { if (is_simfd(fd)) { SimScope s; return sim_fsync(fd); } return (int) syscall(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { if (is_simfd(fd)) { SimScope s; return sim_fsync(fd); } return (int) syscall(SYS_fdatasync, fd); }
}

// ============================================================== coverage callback = step counter
EXPORT void __sanitizer_cov_trace_pc() {
  if (++g_steps > g_step_budget) out_of_steps();
}

// ============================================================== libraries
namespace sim {
static std::map<std::pair<std::string, int>, void*> g_libs;
static void* lib_open(const std::string& name, int copy) {
  auto key = std::make_pair(name, copy);
  auto it = g_libs.find(key);
  if (it != g_libs.end()) return it->second;
  std::string p = g_libdir + "/" + name + "." + std::to_string(copy) + ".so";
  void* h = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "HARNESS: cannot load %s: %s\n", p.c_str(), dlerror());
    if (g_res) harness_error("cannot load " + p);
    _Exit(3);
  }
  g_libs[key] = h;
  return h;
}
void lib_preload(const std::string& name, int copies) {
  for (int i = 0; i < std::min(copies, 27); ++i) lib_open(name, i);   // the others when a job needs them
}
void* lib_sym(const std::string& name, int copy, const char* sym) {
  void* s = dlsym(lib_open(name, copy), sym);
  if (!s) harness_error(std::string("no symbol ") + sym + " in " + name);
  return s;
}
void* lib_main(const std::string& name, int copy) { return lib_sym(name, copy, "main"); }
bool lib_have(const std::string& name) { return access((g_libdir + "/" + name + ".0.so").c_str(), R_OK) == 0; }

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
}  // namespace sim
