// Simulated MPI: every rank is a fiber with its own copy of the program; every delay, transfer time, reduction order,
// error and crash is one seeded choice.
#include "core.h"
#include "job.h"
#include "omprun.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <deque>
#include <queue>
#define OMPI_SKIP_MPICXX 1
#pragma GCC visibility push(default)
#include <mpi.h>
#define DEFOBJ(T, N) struct T; extern "C" { extern struct T N; }
struct ompi_predefined_communicator_t { char c[64]; };
struct ompi_predefined_group_t { char c[64]; };
struct ompi_predefined_request_t { char c[64]; };
struct ompi_predefined_message_t { char c[64]; };
struct ompi_predefined_op_t { char c[64]; };
struct ompi_predefined_datatype_t { char c[64]; };
struct ompi_predefined_errhandler_t { char c[64]; };
struct ompi_predefined_win_t { char c[64]; };
struct ompi_predefined_info_t { char c[64]; };
struct ompi_predefined_file_t { char c[64]; };
extern "C" {
struct ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t ompi_mpi_group_empty, ompi_mpi_group_null;
struct ompi_predefined_request_t ompi_request_null;
struct ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
struct ompi_predefined_op_t ompi_mpi_op_null, ompi_mpi_op_min, ompi_mpi_op_max, ompi_mpi_op_sum, ompi_mpi_op_prod, ompi_mpi_op_land,
    ompi_mpi_op_band, ompi_mpi_op_lor, ompi_mpi_op_bor, ompi_mpi_op_lxor, ompi_mpi_op_bxor, ompi_mpi_op_maxloc, ompi_mpi_op_minloc,
    ompi_mpi_op_replace, ompi_mpi_op_no_op;
struct ompi_predefined_datatype_t ompi_mpi_datatype_null, ompi_mpi_char, ompi_mpi_signed_char, ompi_mpi_unsigned_char, ompi_mpi_byte,
    ompi_mpi_short, ompi_mpi_unsigned_short, ompi_mpi_int, ompi_mpi_unsigned, ompi_mpi_long, ompi_mpi_unsigned_long,
    ompi_mpi_long_long_int, ompi_mpi_unsigned_long_long, ompi_mpi_float, ompi_mpi_double, ompi_mpi_long_double, ompi_mpi_packed,
    ompi_mpi_cxx_bool, ompi_mpi_2int, ompi_mpi_double_int, ompi_mpi_int8_t, ompi_mpi_uint8_t, ompi_mpi_int16_t, ompi_mpi_uint16_t,
    ompi_mpi_int32_t, ompi_mpi_uint32_t, ompi_mpi_int64_t, ompi_mpi_uint64_t, ompi_mpi_aint, ompi_mpi_offset, ompi_mpi_count,
    ompi_mpi_c_bool, ompi_mpi_float_int, ompi_mpi_long_int, ompi_mpi_wchar;
struct ompi_predefined_errhandler_t ompi_mpi_errhandler_null, ompi_mpi_errors_are_fatal, ompi_mpi_errors_return;
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
struct ompi_predefined_file_t ompi_mpi_file_null;
}
#pragma GCC visibility pop

namespace sim {

Job* g_job = nullptr;
std::string g_script;

// -------------------------------------------------------------- datatypes
enum Basic { B_DOUBLE, B_FLOAT, B_LDOUBLE, B_I8, B_U8, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_BOOL, B_DINT, B_2INT, B_FINT, B_LINT };
static size_t bsize(Basic b) {
  static const size_t s[] = {8, 4, 16, 1, 1, 2, 2, 4, 4, 8, 8, 1, 16, 8, 8, 16};
  return s[b];
}
struct Type {
  std::vector<std::pair<i64, Basic>> map;
  i64 lb = 0, extent = 0;
  size_t size = 0;
};
static std::map<void*, Type*> g_types;
static void basic(void* h, Basic b) {
  Type* t = new Type;
  t->map.push_back({0, b});
  t->extent = (i64) bsize(b);
  t->size = bsize(b);
  g_types[h] = t;
}
static Type* type_of(MPI_Datatype d) {
  auto it = g_types.find((void*) d);
  return it == g_types.end() ? nullptr : it->second;
}
static std::string pack(const void* buf, i64 n, Type* t) {
  if (n > 0 && t->size) mem_access(buf, (size_t) ((n - 1) * t->extent + (i64) t->size), false);
  if (t->map.size() == 1 && t->extent == (i64) t->size) return n > 0 ? std::string((const char*) buf, (size_t) n * t->size) : std::string();
  std::string s;
  for (i64 i = 0; i < n; ++i)
    for (auto& m : t->map) s.append((const char*) buf + i * t->extent + m.first, bsize(m.second));
  return s;
}
static void unpack(const std::string& s, void* buf, i64 n, Type* t) {
  size_t o = 0;
  size_t items = t->size ? std::min((size_t) n, s.size() / t->size) : 0;
  if (n > 0 && items) mem_access(buf, (items - 1) * (size_t) t->extent + t->size, true);
  if (t->map.size() == 1 && t->extent == (i64) t->size) {
    memcpy(buf, s.data(), std::min(s.size(), (size_t) n * t->size));
    return;
  }
  for (i64 i = 0; i < n; ++i)
    for (auto& m : t->map) {
      size_t k = bsize(m.second);
      if (o + k > s.size()) return;
      memcpy((char*) buf + i * t->extent + m.first, s.data() + o, k);
      o += k;
    }
}

// -------------------------------------------------------------- reductions
struct UserOp { MPI_User_function* f; bool commute; };
static std::map<void*, UserOp> g_ops;
template <class T> static bool red_num(void* op, const T* in, T* io, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (op == &ompi_mpi_op_sum) io[i] = (T) (io[i] + in[i]);
    else if (op == &ompi_mpi_op_prod) io[i] = (T) (io[i] * in[i]);
    else if (op == &ompi_mpi_op_min) io[i] = in[i] < io[i] ? in[i] : io[i];
    else if (op == &ompi_mpi_op_max) io[i] = in[i] > io[i] ? in[i] : io[i];
    else if (op == &ompi_mpi_op_land) io[i] = (T) (io[i] && in[i]);
    else if (op == &ompi_mpi_op_lor) io[i] = (T) (io[i] || in[i]);
    else if (op == &ompi_mpi_op_lxor) io[i] = (T) (!io[i] != !in[i]);
    else if (op == &ompi_mpi_op_replace) io[i] = in[i];
    else if (op == &ompi_mpi_op_no_op) {}
    else return false;
  }
  return true;
}
template <class T> static bool red_int(void* op, const T* in, T* io, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (op == &ompi_mpi_op_band) io[i] = (T) (io[i] & in[i]);
    else if (op == &ompi_mpi_op_bor) io[i] = (T) (io[i] | in[i]);
    else if (op == &ompi_mpi_op_bxor) io[i] = (T) (io[i] ^ in[i]);
    else return red_num(op, in + i, io + i, n - i);
  }
  return true;
}
template <class A> static bool red_loc(void* op, const char* in, char* io, size_t n, size_t sz) {
  for (size_t i = 0; i < n; ++i) {
    A a, b;
    int ia, ib;
    memcpy(&a, in + i * sz, sizeof a);
    memcpy(&ia, in + i * sz + sizeof(A), 4);
    memcpy(&b, io + i * sz, sizeof b);
    memcpy(&ib, io + i * sz + sizeof(A), 4);
    bool take;
    if (op == &ompi_mpi_op_maxloc) take = a > b || (a == b && ia < ib);
    else if (op == &ompi_mpi_op_minloc) take = a < b || (a == b && ia < ib);
    else if (op == &ompi_mpi_op_replace) take = true;
    else return false;
    if (take) memcpy(io + i * sz, in + i * sz, sz);
  }
  return true;
}
// io = in op io, elementwise
static bool reduce_into(MPI_Op op, Type* t, MPI_Datatype d, const std::string& in, std::string& io) {
  auto u = g_ops.find((void*) op);
  if (u != g_ops.end()) {
    int n = (int) (in.size() / (t->size ? t->size : 1));
    std::string a = in;
    MPI_Datatype dd = d;
    u->second.f(&a[0], &io[0], &n, &dd);
    return true;
  }
  if (t->map.empty()) return true;
  Basic b = t->map[0].second;
  for (auto& m : t->map) if (m.second != b) return false;
  size_t n = std::min(in.size(), io.size()) / bsize(b);
  const char* p = in.data();
  char* q = &io[0];
  void* o = (void*) op;
  switch (b) {
    case B_DOUBLE: return red_num(o, (const double*) p, (double*) q, n);
    case B_FLOAT: return red_num(o, (const float*) p, (float*) q, n);
    case B_LDOUBLE: return red_num(o, (const long double*) p, (long double*) q, n);
    case B_I8: return red_int(o, (const int8_t*) p, (int8_t*) q, n);
    case B_U8: case B_BOOL: return red_int(o, (const uint8_t*) p, (uint8_t*) q, n);
    case B_I16: return red_int(o, (const int16_t*) p, (int16_t*) q, n);
    case B_U16: return red_int(o, (const uint16_t*) p, (uint16_t*) q, n);
    case B_I32: return red_int(o, (const int32_t*) p, (int32_t*) q, n);
    case B_U32: return red_int(o, (const uint32_t*) p, (uint32_t*) q, n);
    case B_I64: return red_int(o, (const int64_t*) p, (int64_t*) q, n);
    case B_U64: return red_int(o, (const uint64_t*) p, (uint64_t*) q, n);
    case B_DINT: return red_loc<double>(o, p, q, n, 16);
    case B_2INT: return red_loc<int>(o, p, q, n, 8);
    case B_FINT: return red_loc<float>(o, p, q, n, 8);
    case B_LINT: return red_loc<long>(o, p, q, n, 16);
  }
  return false;
}

// -------------------------------------------------------------- objects
struct Comm;
struct Group { std::vector<int> ranks; };  // world ranks
// a contribution of a non-blocking operation whose buffer the library reads only later
struct Late {
  std::function<void()> fn;
  void settle() { if (fn) { auto f = fn; fn = nullptr; f(); } }
};
struct CollArg { bool in = false; Late late; std::string data; int count = 0; std::vector<int> counts; std::vector<std::string> parts; i64 key = 0; i64 color = 0; u64 extra = 0; };
struct Coll {
  const char* kind = nullptr;
  int root = -1;
  int arrived = 0, left = 0;
  std::vector<CollArg> arg;
  bool computed = false;
  std::string result;
  std::vector<std::string> parts;
  void* obj = nullptr;
  std::vector<Comm*> comms;
};
struct Msg { int src, tag; std::string data; u64 arrive; bool* consumed; size_t bytes = 0; Late late; };
struct Req;
struct Comm;
struct Persist { bool send; Comm* c; void* b; int n; Type* t; int peer, tag; bool sync; Req* live; };
static std::map<void*, Persist*> g_persist;
static std::map<int, std::pair<void*, int>> g_bsend;
struct Matched { Msg* m; Comm* c; int k; };
static std::map<void*, Matched> g_matched;
struct Comm {
  Group g;
  std::vector<u64> seq;
  std::map<u64, Coll*> coll;
  MPI_Errhandler eh[256];
  std::vector<std::deque<Msg*>> inbox;
  std::vector<std::deque<Req*>> posted;
  std::vector<u64> lastarr;
  std::vector<int> dims, periods;   // cartesian
  std::vector<std::vector<int>> gin, gout;   // distributed graph: the sources and the destinations of every rank
  std::string name = "comm";
  int size() const { return (int) g.ranks.size(); }
  int rank_of(int w) const {
    for (size_t i = 0; i < g.ranks.size(); ++i) if (g.ranks[i] == w) return (int) i;
    return -1;
  }
};
struct Req {
  bool send = false, done = false, persistent = false;
  Comm* c = nullptr;
  int src = 0, tag = 0, rank = 0;
  void* buf = nullptr;
  int count = 0;
  Type* t = nullptr;
  MPI_Status st;
  std::function<bool()> poll;
  int err = 0;
};
struct RmaOp {
  int origin, target;
  u64 epoch;
  int kind;   // 0 get 1 put 2 accumulate
  char* obuf;
  size_t osz;
  int ocount;
  Type* ot;
  i64 disp;
  int tcount;
  Type* tt;
  MPI_Datatype tdt;
  MPI_Op op;
  int chunks_left;
  bool done = false, passive = false, forced = false, late = false;
  std::vector<std::pair<size_t, size_t>> pend;    // chunks (element ranges) not scheduled yet
  std::string data;    // packed origin data for put/accumulate
};
struct WinRank { char* base = nullptr; i64 size = 0; int unit = 1; u64 fences = 0; bool open = false; bool freed = false, noput = false;
  std::map<int, int> locks; bool lockall = false; std::vector<int> postg, startg; int completes = 0; bool allocd = false; u64 posts = 0; bool dyn = false; std::map<i64, i64> att; };
struct Win {
  Comm* c;
  int id;
  std::vector<WinRank> r;
  std::vector<RmaOp*> ops;
  MPI_Errhandler eh[256];
  bool freed = false;
  std::vector<std::map<int, int>> held;    // per target: holder -> type (1 exclusive, 2 shared)
  std::vector<std::set<int>> postedto;     // per origin: targets that posted
};

enum RState { R_READY, R_WAIT, R_SCHED, R_DONE };
struct Rank {
  Proc* p = nullptr;
  Fiber* f = nullptr;
  RState st = R_READY;
  std::function<bool()> cond;
  std::string waiting;
  bool inited = false, finalized = false;
  u64 ncalls = 0;
  std::vector<std::pair<const char*, u64>> kinds;   // the kinds of calls made, in order of first use, and how often
  double off = 0, rate = 1, cpu = 0;
  bool dead = false;
  u64 nalloc = 0;
  u32 failed_polls = 0;
};
struct Event { u64 t, seq; std::function<void()> fn; };
struct EvLater { bool operator()(const Event* a, const Event* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };

static struct World {
  u64 now = 0, seq = 0;
  std::priority_queue<Event*, std::vector<Event*>, EvLater> q;
  std::vector<Rank> rk;
  std::set<Win*> wins;
  int nwin = 0;
  std::map<void*, std::pair<int, size_t>> mem;
  Comm *world = nullptr;
  std::vector<Comm*> self;
  std::set<Comm*> comms;
  std::set<Group*> groups;
  std::set<Req*> reqs;
  std::set<Win*> allwins;
  bool aborting = false;
  u64 nevents = 0;
} W;

static const u64 US = 1000;
static const u64 delays[] = {0, 1 * US, 3 * US, 10 * US, 30 * US, 100 * US, 300 * US, 1000 * US, 3000 * US, 30000 * US, 300000 * US, 3000000 * US};

static void at(u64 t, std::function<void()> fn) {
  Event* e = new Event;
  e->t = t;
  e->seq = W.seq++;
  e->fn = std::move(fn);
  W.q.push(e);
}
static Rank& me() { return W.rk[g_cur->proc->rank]; }
static int myr() { return g_cur->proc->rank; }

static u64 draw_delay(double p) {
  u32 c = choose(9, p);
  u64 d = delays[c];
  if (c) count(CT_DELAYS);
  return d;
}
static void resume_at(Rank& r, u64 t) {
  r.st = R_SCHED;
  Rank* pr = &r;
  at(t, [pr] {
    if (pr->dead || pr->p->end != END_RUNNING) return;
    pr->st = R_READY;
    schedhash((u64) pr->p->rank);
    fiber_run(pr->f);
    if (pr->f->done && pr->p->end == END_RUNNING) { pr->p->end = END_RETURN; }
  });
}
static void advance(u64 d) {
  Rank& r = me();
  resume_at(r, W.now + d);
  fiber_yield();
}
// wait until cond holds (evaluated in the scheduler)
static void wait_for(const char* what, std::function<bool()> cond) {
  Rank& r = me();
  if (cond()) return;
  r.cond = std::move(cond);
  r.waiting = what;
  r.st = R_WAIT;
  fiber_yield();
  r.waiting.clear();
}

// A rank polls: the longer it has done so in vain, the longer until it looks again, so that polling costs no more simulated
// steps than waiting; one that polls without end is taken to be blocked.
static void polled(bool hit) {
  Rank& r = me();
  if (hit) { r.failed_polls = 0; return; }
  if (++r.failed_polls > 20000) wait_for("polling in vain", [] { return false; });
  advance(std::min<u64>(1 * US << std::min<u32>(r.failed_polls / 4, 20), 100000 * US));
}
static void kill_others(int except) {
  if (W.aborting) return;
  W.aborting = true;
  for (auto& r : W.rk) {
    if (r.p->rank == except || r.p->end != END_RUNNING) continue;
    u64 d = 500 * US + delays[choose(12, 0.7)];
    if (d > 2000 * US) count(CT_LATE_KILL);
    Rank* pr = &r;
    at(W.now + d, [pr] {
      if (pr->p->end == END_RUNNING) {
        pr->p->end = END_KILLED;
        pr->p->code = 137;
        pr->dead = true;
      }
    });
  }
}
static void on_end(Proc* p) {
  Rank& r = W.rk[p->rank];
  r.st = R_DONE;
  bool bad = !(p->end == END_RETURN || p->end == END_EXIT) || p->code != 0 || (r.inited && !r.finalized);
  if (bad) kill_others(p->rank);
}

static void usage_error(const std::string& m) {
  if (g_job->error.empty()) g_job->error = fmt("rank %d: ", myr()) + m;
}
// an MPI call fails: with the default handler the job is aborted
static int raise(MPI_Errhandler eh, int code, const std::string& what) {
  if (what.find("injected") == std::string::npos) usage_error(what);
  if (eh == MPI_ERRORS_RETURN) return code;
  proc_end(END_MPIABORT, code, what);
}
// handlers made by MPI_Comm_create_errhandler / MPI_Win_create_errhandler
typedef void UserHandler(void* handle, int* code, ...);
static std::map<void*, UserHandler*> g_handlers;
static int raise_on(MPI_Errhandler eh, void* handle, int code, const std::string& what) {
  auto it = g_handlers.find((void*) eh);
  if (it == g_handlers.end()) return raise(eh, code, what);
  if (what.find("injected") == std::string::npos) usage_error(what);
  void* h = handle;
  int cc = code;
  it->second(&h, &cc);
  return code;
}
static int raise(Comm* c, int code, const std::string& what) { if (!c) c = W.world; return raise_on(c->eh[myr()], c, code, what); }
static int raise(Win* w, int code, const std::string& what) { return raise_on(w->eh[myr()], w, code, what); }

struct Call {
  SimScope sc;
  size_t ev;
  int rank;
  const char* name;
  int inj = 0;     // injected error code
  Call(const char* n, bool delay = true, bool need = true) : name(n) {
    rank = myr();
    Rank& r = me();
    r.ncalls++;
    count(CT_MPI_CALLS);
    if (need && (!r.inited || r.finalized)) {
      if (g_job->error.empty()) g_job->error = fmt("rank %d: %s called %s", rank, n, r.finalized ? "after MPI_Finalize" : "before MPI_Init");
      proc_end(END_MPIABORT, 1, fmt("%s outside MPI_Init..MPI_Finalize", n));
    }
    MpiEv e;
    e.rank = rank;
    e.op = n;
    e.t0 = W.now;
    e.t1 = W.now;
    ev = g_job->log.size();
    g_job->log.push_back(e);
    loghash((u64) (unsigned char) n[4] * 131 + (unsigned char) n[5] + rank * 1009);
    const JobSpec& s = g_job->spec;
    u64 here = r.ncalls;
    if (s.fault_name) {
      size_t q = 0;
      while (q < r.kinds.size() && strcmp(r.kinds[q].first, n)) q++;
      if (q == r.kinds.size()) r.kinds.push_back({n, 0});
      r.kinds[q].second++;
      here = (int) q == s.fault_name - 1 ? r.kinds[q].second : 0;
    }
    if ((s.fault_rank == rank || (s.fault_wide && s.fault_kind == 2)) && (s.fault_at == here || (s.fault_kind == 2 && s.fault_at && s.fault_at < here && (s.fault_on || here - s.fault_at < s.fault_len))) &&
        (s.fault_kind == 1 || s.fault_kind == 2)) {
      g_job->fault_hit = true;
      if (s.fault_kind == 1) {
        count(CT_CRASH);
        proc_end(END_FAULT, 137, fmt("injected crash in %s", n));
      }
      count(CT_MPIERR);
      inj = MPI_ERR_OTHER;
    }
    if (delay) {
      u64 d = 1 * US + draw_delay(s.p_jit);
      if (choose(2, s.p_stall)) {
        d += delays[9 + choose(3, 0.6)];
        count(CT_STALLS);
      }
      if (s.slow == rank) d += s.slow_ns;
      me().cpu += (double) d * 1e-9;
      advance(d);
    }
  }
  void finish() {
    g_job->log[ev].t1 = W.now;
    g_job->log[ev].ret = true;
  }
  ~Call() { finish(); }
  MpiEv& log() { return g_job->log[ev]; }
};

// A rank may be held up at any point; reading a clock is the only way to notice it.
static double read_clock(Call& C) {
  if (choose(2, g_job->spec.p_stall * 0.5)) {
    u64 d = delays[9 + choose(3, 0.6)];
    count(CT_STALLS);
    me().cpu += (double) d * 1e-9;
    advance(d);
  }
  Rank& r = me();
  double v = (double) W.now * 1e-9 * r.rate + r.off + 100000.0;
  C.log().wt = v;
  C.log().a = (i64) r.p->sines;
  return v;
}
static double job_clock(bool cpu) {      // the other clocks of the operating system
  Call C(cpu ? "MPI_(cpu time)" : "MPI_(clock)", false, false);
  double v = read_clock(C);
  return cpu ? me().cpu : v;
}
static Comm* comm_of(MPI_Comm h) {
  if ((void*) h == &ompi_mpi_comm_world) return W.world;
  if ((void*) h == &ompi_mpi_comm_self) return W.self[myr()];
  Comm* c = (Comm*) h;
  return W.comms.count(c) ? c : nullptr;
}
static Win* win_of(MPI_Win h) {
  Win* w = (Win*) h;
  if (!W.wins.count(w)) return nullptr;
  if (w->c->rank_of(myr()) < 0 || w->r[w->c->rank_of(myr())].freed) return nullptr;
  return w;
}
static Comm* comm_new(const std::vector<int>& ranks) {
  Comm* c = new Comm;
  c->g.ranks = ranks;
  c->seq.assign(ranks.size(), 0);
  c->inbox.resize(ranks.size());
  c->posted.resize(ranks.size());
  c->lastarr.assign(ranks.size() * ranks.size(), 0);
  for (auto& e : c->eh) e = MPI_ERRORS_ARE_FATAL;
  W.comms.insert(c);
  return c;
}

// enter the next collective of this communicator
static Coll* coll_enter(Comm* c, const char* kind, int root, int& k, int& err) {
  k = c->rank_of(myr());
  err = 0;
  u64 s = c->seq[k]++;
  Coll*& p = c->coll[s];
  if (!p) {
    p = new Coll;
    p->kind = kind;
    p->root = root;
    p->arg.resize(c->size());
  } else if (strcmp(p->kind, kind) || p->root != root) {
    err = raise(c, MPI_ERR_OTHER, fmt("collective mismatch: this rank calls %s(root %d) while others call %s(root %d)", kind, root, p->kind, p->root));
    return nullptr;
  }
  p->arg[k].in = true;
  p->arrived++;
  return p;
}
static void wait_all(Coll* p, const char* what, int n) {
  wait_for(what, [p, n] { return p->arrived == n; });
}

static bool check_buf(Comm* c, int count, Type* t, int& err, const char* n) {
  if (count < 0 || !t) { err = raise(c, count < 0 ? MPI_ERR_COUNT : MPI_ERR_TYPE, fmt("%s: bad count or datatype", n)); return false; }
  return true;
}

static std::string do_reduce(Coll* p, MPI_Op op, Type* t, MPI_Datatype d, int n, int upto = -1) {
  int m = upto >= 0 ? upto + 1 : n;
  std::vector<int> o(m);
  for (int i = 0; i < m; ++i) o[i] = i;
  auto u = g_ops.find((void*) op);
  bool comm = u == g_ops.end() || u->second.commute;
  int mode = comm && m > 2 ? (int) choose(4, g_job->spec.p_reorder) : 0;
  if (mode) count(CT_REDUCE_REORDER);
  if (mode == 1) std::reverse(o.begin(), o.end());
  if (mode == 2) for (int i = m - 1; i > 0; --i) std::swap(o[i], o[choose((u32) i + 1, 0.9)]);
  if (mode == 3) {   // tree
    std::vector<std::string> v;
    for (int i = 0; i < m; ++i) v.push_back(p->arg[i].data);
    while (v.size() > 1) {
      std::vector<std::string> w;
      for (size_t i = 0; i + 1 < v.size(); i += 2) {
        std::string r = v[i + 1];
        reduce_into(op, t, d, v[i], r);
        w.push_back(r);
      }
      if (v.size() & 1) w.push_back(v.back());
      v = w;
    }
    return v[0];
  }
  std::string acc = p->arg[o[m - 1]].data;
  for (int i = m - 2; i >= 0; --i) {
    if (!reduce_into(op, t, d, p->arg[o[i]].data, acc)) { usage_error("reduction operation not valid for this datatype"); break; }
  }
  return acc;
}

// -------------------------------------------------------------- one-sided
static bool rma_open(Win* w, RmaOp* o) { return o->passive || w->r[o->target].fences >= o->epoch; }

static u64 xfer_delay() {
  return 500 + delays[choose(9, g_job->spec.rma == 0 ? 0.05 : 0.6)];
}
static void op_chunk_done(RmaOp* o) {
  if (--o->chunks_left == 0) o->done = true;
}
static void chunk_run(Win* w, RmaOp* o, size_t a, size_t b) {
  // a..b: element range of the packed stream, in units of the basic elements of the target type
  if (!rma_open(w, o)) {
    o->pend.push_back({a, b});
    return;
  }
  if (o->forced) count(CT_RMA_LATE);
  WinRank& t = w->r[o->target];
  char* base = t.base + o->disp * t.unit;
  schedhash(0x10000 + (u64) o->origin * 64 + o->target + a * 4096);
  if (o->kind == 0) {
    std::string data = pack(base, o->tcount, o->tt).substr(a, b - a);
    // delivery to the origin may happen later than the read at the target
    u64 d = choose(2, 0.5) ? 200 + delays[choose(8, 0.5)] : 0;
    auto deliver = [w, o, a, data] {
      std::string cur = pack(o->obuf, o->ocount, o->ot);
      if (a + data.size() <= cur.size()) cur.replace(a, data.size(), data);
      if (W.rk[w->c->g.ranks[o->origin]].p->end == END_RUNNING) unpack(cur, o->obuf, o->ocount, o->ot);
      op_chunk_done(o);
    };
    if (d) at(W.now + d, deliver);
    else deliver();
  } else if (o->kind == 3) {   // fetch and update, atomic for the elements of the chunk
    std::string cur = pack(base, o->tcount, o->tt);
    std::string old = cur.substr(a, b - a), part = old;
    if (o->op == MPI_REPLACE) part = o->data.substr(a, b - a);
    else if (o->op != MPI_NO_OP) reduce_into(o->op, o->tt, o->tdt, o->data.substr(a, b - a), part);
    cur.replace(a, b - a, part);
    unpack(cur, base, o->tcount, o->tt);
    std::string res = pack(o->obuf, o->ocount, o->ot);
    if (b <= res.size()) res.replace(a, b - a, old);
    if (W.rk[w->c->g.ranks[o->origin]].p->end == END_RUNNING) unpack(res, o->obuf, o->ocount, o->ot);
    op_chunk_done(o);
  } else {
    if (o->late) o->data = pack(o->obuf, o->ocount, o->ot);
    std::string cur = pack(base, o->tcount, o->tt);
    if (o->kind == 1) cur.replace(a, b - a, o->data.substr(a, b - a));
    else {
      std::string part = cur.substr(a, b - a);
      reduce_into(o->op, o->tt, o->tdt, o->data.substr(a, b - a), part);
      cur.replace(a, b - a, part);
    }
    unpack(cur, base, o->tcount, o->tt);
    op_chunk_done(o);
  }
}
static void force_ops(Win* w, std::function<bool(RmaOp*)> sel) {
  for (auto o : w->ops)
    if (!o->done && sel(o)) {
      o->forced = true;
      auto p = o->pend;
      o->pend.clear();
      for (auto& c : p) {
        auto cc = c;
        at(W.now + xfer_delay(), [w, o, cc] { chunk_run(w, o, cc.first, cc.second); });
      }
    }
}
static void prune(Win* w) {
  w->ops.erase(std::remove_if(w->ops.begin(), w->ops.end(), [](RmaOp* o) { return o->done; }), w->ops.end());
}

static int rma_issue(Win* w, int kind, void* obuf, int oc, MPI_Datatype od, int target, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, const char* name,
                     RmaOp** out = nullptr) {
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, fmt("%s: invalid window", name));
  int k = w->c->rank_of(myr());
  if (target == MPI_PROC_NULL) return MPI_SUCCESS;
  Type *ot = type_of(od), *tt = type_of(td);
  if (!ot || !tt || oc < 0 || tc < 0) return raise(w, MPI_ERR_TYPE, fmt("%s: bad count or datatype", name));
  if (target < 0 || target >= w->c->size()) return raise(w, MPI_ERR_RANK, fmt("%s: invalid target rank %d", name, target));
  WinRank& r = w->r[k];
  bool passive = r.lockall || r.locks.count(target) || std::count(r.startg.begin(), r.startg.end(), target);
  if (!passive && !r.open) return raise(w, MPI_ERR_RMA_SYNC, fmt("%s outside an access epoch", name));
  if (kind != 0 && r.noput && !passive) usage_error("put/accumulate in an epoch opened with MPI_MODE_NOPUT");
  WinRank& t = w->r[target];
  i64 lo = (i64) disp * t.unit, hi = lo;
  for (int i : {0, tc - 1}) if (i >= 0 && tc > 0)
    for (auto& m : tt->map) {
      i64 b = (i64) disp * t.unit + (i64) i * tt->extent + m.first;
      lo = std::min(lo, b);
      hi = std::max(hi, b + (i64) bsize(m.second));
    }
  if (t.dyn) {
    auto it = t.att.upper_bound(lo);
    if (it == t.att.begin() || hi > std::prev(it)->first + std::prev(it)->second) return raise(w, MPI_ERR_RMA_RANGE, fmt("%s: bytes that are not attached to the window at rank %d", name, target));
  } else if (lo < 0 || hi > t.size)
    return raise(w, MPI_ERR_RMA_RANGE, fmt("%s: bytes %lld..%lld outside the window of rank %d (%lld bytes)", name, (long long) lo, (long long) hi, target, (long long) t.size));
  if ((size_t) oc * ot->size < (size_t) tc * tt->size && kind == 0) return raise(w, MPI_ERR_TRUNCATE, fmt("%s: origin buffer too small", name));
  if ((size_t) oc * ot->size != (size_t) tc * tt->size) return raise(w, MPI_ERR_ARG, fmt("%s: origin and target sizes differ", name));
  count(CT_RMA_OPS);
  RmaOp* o = new RmaOp();
  o->origin = k;
  o->target = target;
  o->epoch = r.fences;
  o->kind = kind;
  o->obuf = (char*) obuf;
  o->ocount = oc;
  o->ot = ot;
  o->disp = disp;
  o->tcount = tc;
  o->tt = tt;
  o->tdt = td;
  o->op = op;
  o->passive = passive;
  if (kind != 0) {
    o->data = pack(obuf, oc, ot);
    o->late = kind != 3 && choose(2, 0.5);   // the origin buffer is read when the transfer is carried out
  }
  size_t tot = (size_t) tc * tt->size;
  if (kind == 0) {
    std::string probe = pack(obuf, oc, ot);   // touches the buffer: a bad address shows here
    if (g_job->spec.scribble && tot) {
      std::string garbage(probe.size(), (char) 0xFB);
      unpack(garbage, obuf, oc, ot);
    }
  }
  size_t es = tt->map.empty() ? 1 : bsize(tt->map[0].second);
  size_t ne = tot / es;
  size_t nch = 1;
  if (ne > 1 && choose(2, g_job->spec.p_split)) { nch = 2 + choose(3, 0.5); count(CT_RMA_SPLIT); }
  nch = std::max<size_t>(1, std::min(nch, ne));
  o->chunks_left = (int) nch;
  w->ops.push_back(o);
  if (tot == 0) { o->done = true; if (out) *out = o; return MPI_SUCCESS; }
  for (size_t c = 0; c < nch; ++c) {
    size_t a = ne * c / nch * es, b = ne * (c + 1) / nch * es;
    bool lazy = g_job->spec.rma == 1 || (g_job->spec.rma == 2 && choose(2, 0.4));
    if (lazy) o->pend.push_back({a, b});
    else at(W.now + xfer_delay(), [w, o, a, b] { chunk_run(w, o, a, b); });
  }
  if (out) *out = o;
  return MPI_SUCCESS;
}

// -------------------------------------------------------------- job
static void init_types() {
  static bool done = false;
  if (done) return;
  done = true;
  basic(&ompi_mpi_double, B_DOUBLE);
  basic(&ompi_mpi_float, B_FLOAT);
  basic(&ompi_mpi_long_double, B_LDOUBLE);
  basic(&ompi_mpi_char, B_I8);
  basic(&ompi_mpi_signed_char, B_I8);
  basic(&ompi_mpi_unsigned_char, B_U8);
  basic(&ompi_mpi_byte, B_U8);
  basic(&ompi_mpi_packed, B_U8);
  basic(&ompi_mpi_short, B_I16);
  basic(&ompi_mpi_unsigned_short, B_U16);
  basic(&ompi_mpi_int, B_I32);
  basic(&ompi_mpi_unsigned, B_U32);
  basic(&ompi_mpi_long, B_I64);
  basic(&ompi_mpi_unsigned_long, B_U64);
  basic(&ompi_mpi_long_long_int, B_I64);
  basic(&ompi_mpi_unsigned_long_long, B_U64);
  basic(&ompi_mpi_int8_t, B_I8);
  basic(&ompi_mpi_uint8_t, B_U8);
  basic(&ompi_mpi_int16_t, B_I16);
  basic(&ompi_mpi_uint16_t, B_U16);
  basic(&ompi_mpi_int32_t, B_I32);
  basic(&ompi_mpi_uint32_t, B_U32);
  basic(&ompi_mpi_int64_t, B_I64);
  basic(&ompi_mpi_uint64_t, B_U64);
  basic(&ompi_mpi_aint, B_I64);
  basic(&ompi_mpi_offset, B_I64);
  basic(&ompi_mpi_count, B_I64);
  basic(&ompi_mpi_c_bool, B_BOOL);
  basic(&ompi_mpi_cxx_bool, B_BOOL);
  basic(&ompi_mpi_double_int, B_DINT);
  g_types[&ompi_mpi_double_int]->size = 12;
  basic(&ompi_mpi_2int, B_2INT);
  basic(&ompi_mpi_float_int, B_FINT);
  basic(&ompi_mpi_long_int, B_LINT);
  g_types[&ompi_mpi_double_int]->size = 16;
}

bool Job::exit_ok() const {
  for (auto p : procs) if (!p->ok()) return false;
  for (size_t i = 0; i < procs.size(); ++i) if (inited[i] && !finalized[i]) return false;
  return !deadlock;
}
bool Job::ok() const { return exit_ok() && error.empty() && heap.empty(); }
std::string Job::status() const {
  std::string s;
  if (!error.empty()) s += "MPI error: " + error + "; ";
  if (deadlock) s += "deadlock: " + blocked + "; ";
  if (!heap.empty()) s += heap + "; ";
  for (auto p : procs) if (!p->ok()) s += fmt("rank %d %s; ", p->rank, end_str(p).c_str());
  for (size_t i = 0; i < procs.size(); ++i) if (inited[i] && !finalized[i] && procs[i]->ok()) s += fmt("rank %zu did not finalize; ", i);
  if (s.empty()) s = "all ranks finished";
  return s;
}

Job* run_job(const JobSpec& spec) {
  init_types();
  W = World();
  g_persist.clear();
  g_bsend.clear();
  g_matched.clear();
  Job* j = new Job;
  g_job = j;
  j->spec = spec;
  count(CT_JOBS);
  int n = spec.np;
  std::vector<int> all;
  for (int i = 0; i < n; ++i) all.push_back(i);
  W.world = comm_new(all);
  for (int i = 0; i < n; ++i) W.self.push_back(comm_new({i}));
  W.rk.resize(n);
  g_on_proc_end = on_end;
  g_clock = job_clock;
  g_pause = [](u64 ns) { Call C("MPI_(sleep)", false, false); advance(ns + 1000); };
  Rng sk(spec.skewseed + 99);
  if (spec.skew) count(CT_CLOCKOFF);
  if (spec.slow >= 0) count(CT_SLOWRANK);
  g_steps = 0;
  g_step_budget = 200000000ull;
  g_ompspec = OmpSpec();          // OpenMP regions inside a rank run on simulated threads
  g_ompspec.threads = spec.ompthr;
  g_ompspec.p_pre = 0.01;
  g_ompspec.p_hot = 0.3;
  for (int i = 0; i < n; ++i) {
    Rank& r = W.rk[i];
    r.p = proc_new(i);
    j->procs.push_back(r.p);
    j->finalized.push_back(0);
    j->inited.push_back(0);
    if (spec.skew) {
      r.off = (double) (sk.range(-4000, 4000));
      if (spec.drift) r.rate = 1.0 + sk.range(-200, 200) * 1e-4;
    }
    if (spec.fault_kind == 3 && spec.fault_rank == i) { r.p->alloc_fail_at = spec.fault_at; r.p->alloc_fail_min = spec.fault_min; r.p->alloc_fail_on = spec.fault_on; }
    std::vector<std::string> args;
    args.push_back("./" + spec.lib);
    for (auto& s : spec.args) args.push_back(s);
    int (*mainf)(int, char**) = (int (*)(int, char**)) lib_main(spec.lib, i % NCOPY);
    Proc* p = r.p;
    r.f = fiber_new([args, mainf, p] {
      std::vector<std::string>* a = new std::vector<std::string>(args);
      char** av = new char*[args.size() + 1];
      for (size_t k = 0; k < args.size(); ++k) av[k] = &(*a)[k][0];
      av[args.size()] = nullptr;
      g_user = 1;
      int rc = mainf((int) args.size(), av);
      std::cout.flush();
      fflush(stdout);
      g_user = 0;
      proc_end(END_RETURN, rc, "");
    }, p);
    r.p->fiber = r.f;
  }
  for (int i = 0; i < n; ++i) resume_at(W.rk[i], 1000 + delays[choose(10, 0.5)]);
  for (;;) {
    // wake whoever can go on
    for (auto& r : W.rk)
      if (r.st == R_WAIT && r.p->end == END_RUNNING && !r.dead && r.cond()) {
        r.cond = nullptr;
        resume_at(r, W.now + 300 + (choose(2, spec.p_jit) ? delays[choose(9, 0.7)] : 0));
      }
    if (W.q.empty()) break;
    Event* e = W.q.top();
    W.q.pop();
    W.now = e->t;
    if (++W.nevents > 20000000) { j->deadlock = true; j->blocked = "no progress: event budget exhausted"; delete e; break; }
    e->fn();
    delete e;
  }
  count(CT_EVENTS, W.nevents);
  for (auto& r : W.rk) {
    j->finalized[r.p->rank] = r.finalized;
    if (r.p->alloc_failed) j->fault_hit = true;
    j->inited[r.p->rank] = r.inited;
    if (r.p->end == END_RUNNING) {
      j->deadlock = true;
      j->blocked += fmt("rank %d in %s; ", r.p->rank, r.waiting.c_str());
    }
  }
  for (auto w : W.wins) if (!w->freed) j->live_windows++;
  j->live_mem = (int) W.mem.size();
  j->heap = heap_check();
  j->end_time = W.now;
  g_res->simtime += W.now * 1e-9;
  for (auto p : j->procs) { for (char c : p->out) loghash((u64) c); loghash((u64) p->end * 3 + p->code); }
  g_on_proc_end = nullptr;
  return j;
}

void jobspec_draw(Rng& r, Cfg& c) {
  c.set("jit", r.chance(0.15) ? 0 : r.range(5, 90));
  c.set("rma", r.range(0, 2));
  c.set("split", r.range(0, 80));
  c.set("weak", r.chance(0.2) ? 0 : r.range(10, 100));
  c.set("reorder", r.range(0, 100));
  c.set("stall", r.chance(0.5) ? 0 : r.range(1, 10));
  c.set("slow", r.chance(0.6) ? 0 : r.range(1, 16));       // slow rank + 1 (modulo the rank count)
  c.set("slowus", r.chance(0.5) ? r.range(5, 100) : r.range(1000, 50000));
  c.set("skew", r.range(0, 1));
  c.set("drift", r.chance(0.3));
  c.set("skewseed", r.range(0, 1000000));
  c.set("scrib", r.range(0, 1));
  c.set("ompthr", r.range(1, 4));
  c.set("fill", r.range(0, 3));
  c.set("nodes", r.chance(0.4) ? 1 : r.chance(0.8) ? r.range(2, 6) : 4096);
  c.set("cyclic", r.chance(0.4));
  c.set("place", r.range(0, 2));
}
void jobspec_apply(const Cfg& c, JobSpec& s) {
  s.p_jit = c.get("jit") * 0.01;
  s.rma = (int) c.get("rma");
  s.p_split = c.get("split") * 0.01;
  s.p_weak = c.get("weak") * 0.01;
  s.p_reorder = c.get("reorder") * 0.01;
  s.p_stall = c.get("stall") * 0.01;
  i64 sl = c.get("slow");
  s.slow = sl ? (int) ((sl - 1) % s.np) : -1;
  s.slow_ns = (u64) c.get("slowus") * 1000;
  s.skew = c.get("skew");
  s.drift = c.get("drift");
  s.skewseed = (u64) c.get("skewseed");
  s.scribble = c.get("scrib");
  s.ompthr = (int) std::max<i64>(1, c.get("ompthr", 1));
  s.nodes = (int) std::max<i64>(1, c.get("nodes", 1));
  s.cyclic = c.get("cyclic");
  s.place = (int) c.get("place");
}

}  // namespace sim
using namespace sim;

// ================================================================ the API
#define COMM(h) \
  Comm* c = comm_of(h); \
  if (!c || c->rank_of(myr()) < 0) return raise((Comm*) nullptr, MPI_ERR_COMM, fmt("%s: invalid communicator", C.name));
#define INJ(h) if (C.inj) return raise(h, C.inj, fmt("%s: injected failure", C.name));

extern "C" {

static int do_init(const char* n) {
  Call C(n, true, false);
  Rank& r = me();
  if (r.inited) return raise((Comm*) nullptr, MPI_ERR_OTHER, "MPI initialised twice");
  INJ((Comm*) nullptr)
  r.inited = true;
  if (choose(2, g_job->spec.p_weak)) {
    // MPI_Init need not synchronise
    count(CT_EARLY_RETURN);
    return MPI_SUCCESS;
  }
  return MPI_SUCCESS;
}
int MPI_Init(int*, char***) { return do_init("MPI_Init"); }
int MPI_Init_thread(int*, char***, int req, int* prov) { int e = do_init("MPI_Init_thread"); if (prov) *prov = req; return e; }
int MPI_Initialized(int* f) { *f = me().inited; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = me().finalized; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Is_thread_main(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalize(void) {
  Call C("MPI_Finalize");
  int k, err;
  Coll* p = coll_enter(W.world, "MPI_Finalize", -1, k, err);
  if (!p) return err;
  wait_all(p, "MPI_Finalize", W.world->size());
  me().finalized = true;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
  Call C("MPI_Abort", false);
  proc_end(END_MPIABORT, code ? code : 1, "MPI_Abort");
}
double MPI_Wtime(void) { Call C("MPI_Wtime", false); return read_clock(C); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Get_processor_name(char* s, int* n) { *n = sprintf(s, "node%d", g_job->spec.node_of(myr())); return 0; }

int MPI_Comm_rank(MPI_Comm h, int* r) { Call C("MPI_Comm_rank", false); COMM(h) INJ(c) *r = c->rank_of(myr()); return 0; }
int MPI_Comm_size(MPI_Comm h, int* n) { Call C("MPI_Comm_size", false); COMM(h) INJ(c) *n = c->size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm h, MPI_Errhandler e) { Call C("MPI_Comm_set_errhandler", false); COMM(h) c->eh[myr()] = e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm h, MPI_Errhandler* e) { Call C("MPI_Comm_get_errhandler", false); COMM(h) *e = c->eh[myr()]; return 0; }
static int eh_new(void* f, MPI_Errhandler* e) { SimScope s; char* h = new char[8]; g_handlers[h] = (UserHandler*) f; *e = (MPI_Errhandler) h; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function* f, MPI_Errhandler* e) { Call C("MPI_Comm_create_errhandler", false); return eh_new((void*) f, e); }
int MPI_Win_create_errhandler(MPI_Win_errhandler_function* f, MPI_Errhandler* e) { Call C("MPI_Win_create_errhandler", false); return eh_new((void*) f, e); }
int MPI_Errhandler_free(MPI_Errhandler* e) { *e = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char* s, int* n) { strcpy(s, "comm"); *n = 4; return 0; }
int MPI_Error_string(int code, char* s, int* n) { *n = sprintf(s, "MPI error %d", code); return 0; }
int MPI_Error_class(int code, int* k) { *k = code; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  Comm *x = comm_of(a), *y = comm_of(b);
  *r = x == y ? MPI_IDENT : (x && y && x->g.ranks == y->g.ranks ? MPI_CONGRUENT : MPI_UNEQUAL);
  return 0;
}

static int comm_split_impl(Call& C, Comm* c, i64 color, i64 key, MPI_Comm* out, const char* kind) {
  int k, err;
  Coll* p = coll_enter(c, kind, -1, k, err);
  if (!p) return err;
  p->arg[k].color = color;
  p->arg[k].key = key;
  wait_all(p, kind, c->size());
  if (p->comms.empty()) {
    p->comms.resize(c->size(), nullptr);
    std::map<i64, std::vector<std::pair<std::pair<i64, int>, int>>> by;
    for (int i = 0; i < c->size(); ++i)
      if (p->arg[i].color != MPI_UNDEFINED) by[p->arg[i].color].push_back({{p->arg[i].key, i}, c->g.ranks[i]});
    for (auto& kv : by) {
      std::sort(kv.second.begin(), kv.second.end());
      std::vector<int> r;
      for (auto& x : kv.second) r.push_back(x.second);
      Comm* nc = comm_new(r);
      nc->dims = c->dims;
      for (auto& x : kv.second) p->comms[x.first.second] = nc;
    }
  }
  Comm* nc = p->comms[k];
  if (nc) nc->eh[myr()] = c->eh[myr()];
  *out = nc ? (MPI_Comm) nc : MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_dup(MPI_Comm h, MPI_Comm* o) { Call C("MPI_Comm_dup"); COMM(h) INJ(c) int e = comm_split_impl(C, c, 0, c->rank_of(myr()), o, "MPI_Comm_dup"); if (!e) { Comm* x = (Comm*) *o; x->dims = c->dims; x->periods = c->periods; x->gin = c->gin; x->gout = c->gout; } return e; }
int MPI_Comm_split(MPI_Comm h, int col, int key, MPI_Comm* o) { Call C("MPI_Comm_split"); COMM(h) INJ(c) return comm_split_impl(C, c, col, key, o, "MPI_Comm_split"); }
int MPI_Comm_split_type(MPI_Comm h, int t, int key, MPI_Info, MPI_Comm* o) { Call C("MPI_Comm_split_type"); COMM(h) INJ(c) return comm_split_impl(C, c, t == MPI_UNDEFINED ? t : g_job->spec.node_of(myr()), key, o, "MPI_Comm_split_type"); }
int MPI_Comm_create(MPI_Comm h, MPI_Group g, MPI_Comm* o) {
  Call C("MPI_Comm_create"); COMM(h)
  Group* gr = (Group*) g;
  i64 col = MPI_UNDEFINED, key = 0;
  for (size_t i = 0; i < gr->ranks.size(); ++i) if (gr->ranks[i] == myr()) { col = 0; key = (i64) i; }
  return comm_split_impl(C, c, col, key, o, "MPI_Comm_create");
}
int MPI_Comm_free(MPI_Comm* h) {
  Call C("MPI_Comm_free");
  COMM(*h)
  *h = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_group(MPI_Comm h, MPI_Group* g) { Call C("MPI_Comm_group", false); COMM(h) Group* x = new Group(c->g); W.groups.insert(x); *g = (MPI_Group) x; return 0; }
int MPI_Win_get_group(MPI_Win h, MPI_Group* g) { Call C("MPI_Win_get_group", false); Win* w = win_of(h); if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "bad window"); Group* x = new Group(w->c->g); *g = (MPI_Group) x; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int* n) { *n = (int) ((Group*) g)->ranks.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* n) { *n = MPI_UNDEFINED; auto& r = ((Group*) g)->ranks; for (size_t i = 0; i < r.size(); ++i) if (r[i] == myr()) *n = (int) i; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { SimScope s; Group* x = new Group; for (int i = 0; i < n; ++i) x->ranks.push_back(((Group*) g)->ranks.at(r[i])); *o = (MPI_Group) x; return 0; }
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group* o) {
  SimScope s;
  Group* x = new Group;
  for (int i = 0; i < n; ++i) for (int q = r[i][0]; r[i][2] > 0 ? q <= r[i][1] : q >= r[i][1]; q += r[i][2]) x->ranks.push_back(((Group*) g)->ranks.at(q));
  *o = (MPI_Group) x;
  return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group* o) {
  SimScope s;
  Group* x = new Group(*(Group*) a);
  for (int q : ((Group*) b)->ranks) if (!std::count(x->ranks.begin(), x->ranks.end(), q)) x->ranks.push_back(q);
  *o = (MPI_Group) x;
  return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group* o) {
  SimScope s;
  Group* x = new Group;
  auto& v = ((Group*) b)->ranks;
  for (int q : ((Group*) a)->ranks) if (std::count(v.begin(), v.end(), q)) x->ranks.push_back(q);
  *o = (MPI_Group) x;
  return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group* o) {
  SimScope s;
  Group* x = new Group;
  auto& v = ((Group*) b)->ranks;
  for (int q : ((Group*) a)->ranks) if (!std::count(v.begin(), v.end(), q)) x->ranks.push_back(q);
  *o = (MPI_Group) x;
  return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o) {
  SimScope s;
  Group* x = new Group;
  auto& q = ((Group*) g)->ranks;
  for (size_t i = 0; i < q.size(); ++i) if (!std::count(r, r + n, (int) i)) x->ranks.push_back(q[i]);
  *o = (MPI_Group) x;
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o) {
  for (int i = 0; i < n; ++i) {
    int w = ((Group*) a)->ranks.at(r[i]);
    o[i] = MPI_UNDEFINED;
    auto& q = ((Group*) b)->ranks;
    for (size_t k = 0; k < q.size(); ++k) if (q[k] == w) o[i] = (int) k;
  }
  return 0;
}
// cartesian topologies
int MPI_Dims_create(int n, int nd, int* d) {
  int rest = n;
  std::vector<int> fr;
  for (int i = 0; i < nd; ++i) { if (d[i] > 0) rest /= d[i]; else { fr.push_back(i); d[i] = 1; } }
  for (int f = 2; rest > 1; ) {
    if (rest % f == 0) { rest /= f; int b = fr[0]; for (int i : fr) if (d[i] < d[b]) b = i; d[b] *= f; f = 2; }
    else ++f;
  }
  std::sort(fr.begin(), fr.end());
  std::vector<int> v;
  for (int i : fr) v.push_back(d[i]);
  std::sort(v.rbegin(), v.rend());
  for (size_t i = 0; i < fr.size(); ++i) d[fr[i]] = v[i];
  return 0;
}
int MPI_Cart_create(MPI_Comm h, int nd, const int* dims, const int* per, int reorder, MPI_Comm* o) {
  Call C("MPI_Cart_create"); COMM(h)
  int n = 1;
  for (int i = 0; i < nd; ++i) n *= dims[i];
  int k = c->rank_of(myr());
  int pl = reorder ? g_job->spec.place : 0;
  int e = comm_split_impl(C, c, k < n ? 0 : MPI_UNDEFINED, pl == 1 ? n - k : pl == 2 ? (k + 1) % n : k, o, "MPI_Cart_create");
  if (!e && *o != MPI_COMM_NULL) { Comm* x = (Comm*) *o; x->dims.assign(dims, dims + nd); x->periods.assign(per, per + nd); }
  return e;
}
int MPI_Cartdim_get(MPI_Comm h, int* n) { Call C("MPI_Cartdim_get", false); COMM(h) *n = (int) c->dims.size(); return 0; }
int MPI_Cart_get(MPI_Comm h, int nd, int* dims, int* per, int* co) {
  Call C("MPI_Cart_get", false); COMM(h)
  int k = c->rank_of(myr());
  for (int i = (int) c->dims.size() - 1; i >= 0; --i) {
    if (i < nd) { dims[i] = c->dims[i]; per[i] = c->periods[i]; co[i] = k % c->dims[i]; }
    k /= c->dims[i];
  }
  return 0;
}
int MPI_Cart_coords(MPI_Comm h, int r, int nd, int* co) {
  Call C("MPI_Cart_coords", false); COMM(h)
  for (int i = nd - 1; i >= 0; --i) { co[i] = r % c->dims[i]; r /= c->dims[i]; }
  return 0;
}
int MPI_Cart_rank(MPI_Comm h, const int* co, int* r) {
  Call C("MPI_Cart_rank", false); COMM(h)
  int x = 0;
  for (size_t i = 0; i < c->dims.size(); ++i) { int d = c->dims[i]; int v = co[i]; if (c->periods[i]) v = ((v % d) + d) % d; else if (v < 0 || v >= d) return raise(c, MPI_ERR_ARG, "Cart_rank"); x = x * d + v; }
  *r = x;
  return 0;
}
int MPI_Cart_shift(MPI_Comm h, int dir, int disp, int* src, int* dst) {
  Call C("MPI_Cart_shift", false); COMM(h)
  int nd = (int) c->dims.size(), r = c->rank_of(myr());
  std::vector<int> co(nd);
  for (int i = nd - 1, q = r; i >= 0; --i) { co[i] = q % c->dims[i]; q /= c->dims[i]; }
  auto get = [&](int d) {
    int v = co[dir] + d, n = c->dims[dir];
    if (!c->periods[dir] && (v < 0 || v >= n)) return MPI_PROC_NULL;
    v = ((v % n) + n) % n;
    int x = 0;
    for (int i = 0; i < nd; ++i) x = x * c->dims[i] + (i == dir ? v : co[i]);
    return x;
  };
  *src = get(-disp);
  *dst = get(disp);
  return 0;
}

// collectives
int MPI_Barrier(MPI_Comm h) {
  Call C("MPI_Barrier"); COMM(h) INJ(c)
  int k, err;
  Coll* p = coll_enter(c, "MPI_Barrier", -1, k, err);
  if (!p) return err;
  wait_all(p, "MPI_Barrier", c->size());
  return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm h) {
  Call C("MPI_Bcast"); COMM(h) INJ(c)
  int k, err = 0;
  Type* t = type_of(d);
  if (!check_buf(c, n, t, err, C.name)) return err;
  Coll* p = coll_enter(c, "MPI_Bcast", root, k, err);
  if (!p) return err;
  if (k == root) {
    p->result = pack(b, n, t);
    p->computed = true;
    if (choose(2, g_job->spec.p_weak)) { count(CT_EARLY_RETURN); return 0; }
    wait_all(p, "MPI_Bcast", c->size());
  } else {
    wait_for("MPI_Bcast", [p] { return p->computed; });
    if (p->result.size() > (size_t) n * t->size) return raise(c, MPI_ERR_TRUNCATE, "MPI_Bcast: message truncated");
    unpack(p->result, b, n, t);
  }
  return 0;
}
static int reduce_impl(Call& C, Comm* c, const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, const char* kind) {
  int k, err = 0;
  Type* t = type_of(d);
  C.log().a = op == MPI_SUM ? 1 : op == MPI_MIN ? 2 : op == MPI_MAX ? 3 : 9;
  if (!check_buf(c, n, t, err, C.name)) return err;
  if (root >= c->size() || (root < 0 && root != -1)) return raise(c, MPI_ERR_ROOT, fmt("%s: invalid root", kind));
  Coll* p = coll_enter(c, kind, root, k, err);
  if (!p) return err;
  p->arg[k].data = pack(s == MPI_IN_PLACE ? r : s, n, t);
  p->arg[k].count = n;
  for (int i = 0; i < c->size(); ++i)
    if (p->arg[i].in && p->arg[i].data.size() != p->arg[k].data.size()) return raise(c, MPI_ERR_COUNT, fmt("%s: counts differ between ranks", kind));
  if (root >= 0 && k != root) {
    if (choose(2, g_job->spec.p_weak)) { count(CT_EARLY_RETURN); return 0; }
    wait_all(p, kind, c->size());
    return 0;
  }
  wait_all(p, kind, c->size());
  if (!p->computed) { p->result = do_reduce(p, op, t, d, c->size()); p->computed = true; }
  unpack(p->result, r, n, t);
  return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm h) {
  Call C("MPI_Reduce"); COMM(h) INJ(c)
  if (root < 0) return raise(c, MPI_ERR_ROOT, "MPI_Reduce: invalid root");
  return reduce_impl(C, c, s, r, n, d, op, root, "MPI_Reduce");
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm h) {
  Call C("MPI_Allreduce"); COMM(h) INJ(c)
  return reduce_impl(C, c, s, r, n, d, op, -1, "MPI_Allreduce");
}
static int scan_impl(Call& C, Comm* c, const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, bool ex) {
  int k, err = 0;
  Type* t = type_of(d);
  if (!check_buf(c, n, t, err, C.name)) return err;
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  p->arg[k].data = pack(s == MPI_IN_PLACE ? r : s, n, t);
  wait_for(C.name, [p, k] { for (int i = 0; i <= k; ++i) if (!p->arg[i].in) return false; return true; });
  int up = ex ? k - 1 : k;
  if (up < 0) return 0;
  unpack(do_reduce(p, op, t, d, c->size(), up), r, n, t);
  return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm h) { Call C("MPI_Scan"); COMM(h) INJ(c) return scan_impl(C, c, s, r, n, d, op, false); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm h) { Call C("MPI_Exscan"); COMM(h) INJ(c) return scan_impl(C, c, s, r, n, d, op, true); }

// gather family: counts/displs null => uniform
static int gather_impl(Call& C, Comm* c, const void* s, int sn, MPI_Datatype sd, void* r, int rn, const int* rns, const int* dis, MPI_Datatype rd, int root,
                       const char* kind) {
  int k = c->rank_of(myr()), err = 0, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  bool all = root < 0;
  if (root >= n) return raise(c, MPI_ERR_ROOT, fmt("%s: invalid root", kind));
  if (s != MPI_IN_PLACE && !check_buf(c, sn, st, err, C.name)) return err;
  Coll* p = coll_enter(c, kind, root, k, err);
  if (!p) return err;
  bool inplace = s == MPI_IN_PLACE;
  if (inplace && (all || k == root)) {
    int cnt = rns ? rns[k] : rn;
    i64 off = rns ? dis[k] : (i64) k * rn;
    p->arg[k].data = pack((char*) r + off * rt->extent, cnt, rt);
  } else p->arg[k].data = pack(s, sn, st);
  if (!all && k != root) {
    if (choose(2, g_job->spec.p_weak)) { count(CT_EARLY_RETURN); return 0; }
    wait_all(p, kind, n);
    return 0;
  }
  wait_all(p, kind, n);
  if (!rt) return raise(c, MPI_ERR_TYPE, fmt("%s: bad datatype", kind));
  for (int i = 0; i < n; ++i) {
    int cnt = rns ? rns[i] : rn;
    i64 off = rns ? dis[i] : (i64) i * rn;
    if (p->arg[i].data.size() != (size_t) cnt * rt->size)
      return raise(c, MPI_ERR_TRUNCATE, fmt("%s: rank %d sent %zu bytes, %zu expected", kind, i, p->arg[i].data.size(), (size_t) cnt * rt->size));
    unpack(p->arg[i].data, (char*) r + off * rt->extent, cnt, rt);
  }
  return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, MPI_Comm h) { Call C("MPI_Gather"); COMM(h) INJ(c) if (root < 0) return raise(c, MPI_ERR_ROOT, "MPI_Gather: root"); return gather_impl(C, c, s, sn, sd, r, rn, nullptr, nullptr, rd, root, "MPI_Gather"); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype sd, void* r, const int* rn, const int* dis, MPI_Datatype rd, int root, MPI_Comm h) { Call C("MPI_Gatherv"); COMM(h) INJ(c) if (root < 0) return raise(c, MPI_ERR_ROOT, "MPI_Gatherv: root"); return gather_impl(C, c, s, sn, sd, r, 0, c->rank_of(myr()) == root ? rn : nullptr, dis, rd, root, "MPI_Gatherv"); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Allgather"); COMM(h) INJ(c) return gather_impl(C, c, s, sn, sd, r, rn, nullptr, nullptr, rd, -1, "MPI_Allgather"); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype sd, void* r, const int* rn, const int* dis, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Allgatherv"); COMM(h) INJ(c) return gather_impl(C, c, s, sn, sd, r, 0, rn, dis, rd, -1, "MPI_Allgatherv"); }
static int scatter_impl(Call& C, Comm* c, const void* s, int sn, const int* sns, const int* dis, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, const char* kind) {
  int k, err = 0, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  Coll* p = coll_enter(c, kind, root, k, err);
  if (!p) return err;
  if (k == root) {
    for (int i = 0; i < n; ++i) {
      int cnt = sns ? sns[i] : sn;
      i64 off = sns ? dis[i] : (i64) i * sn;
      p->parts.push_back(pack((const char*) s + off * st->extent, cnt, st));
    }
    p->computed = true;
    if (r != MPI_IN_PLACE) unpack(p->parts[k], r, rn, rt);
    if (choose(2, g_job->spec.p_weak)) { count(CT_EARLY_RETURN); return 0; }
    wait_all(p, kind, n);
    return 0;
  }
  wait_for(kind, [p] { return p->computed; });
  if (p->parts[k].size() > (size_t) rn * rt->size) return raise(c, MPI_ERR_TRUNCATE, fmt("%s: truncated", kind));
  unpack(p->parts[k], r, rn, rt);
  return 0;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, MPI_Comm h) { Call C("MPI_Scatter"); COMM(h) INJ(c) return scatter_impl(C, c, s, sn, nullptr, nullptr, sd, r, rn, rd, root, "MPI_Scatter"); }
int MPI_Scatterv(const void* s, const int* sn, const int* dis, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, MPI_Comm h) { Call C("MPI_Scatterv"); COMM(h) INJ(c) return scatter_impl(C, c, s, 0, sn, dis, sd, r, rn, rd, root, "MPI_Scatterv"); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h) {
  Call C("MPI_Alltoall"); COMM(h) INJ(c)
  int k, err = 0, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  Coll* p = coll_enter(c, "MPI_Alltoall", -1, k, err);
  if (!p) return err;
  for (int i = 0; i < n; ++i) p->arg[k].parts.push_back(pack((const char*) s + (i64) i * sn * st->extent, sn, st));
  wait_all(p, "MPI_Alltoall", n);
  for (int i = 0; i < n; ++i) unpack(p->arg[i].parts[k], (char*) r + (i64) i * rn * rt->extent, rn, rt);
  return 0;
}

// point to point
static void status_set(MPI_Status* s, int src, int tag, size_t bytes) {
  if (!s) return;
  s->MPI_SOURCE = src;
  s->MPI_TAG = tag;
  s->MPI_ERROR = 0;
  s->_cancelled = 0;
  s->_ucount = bytes;
}
static bool match(const Req* r, const Msg* m) { return (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void p2p_progress(Comm* c, int k) {
  auto& in = c->inbox[k];
  auto& po = c->posted[k];
  for (auto ri = po.begin(); ri != po.end();) {
    bool hit = false;
    for (auto mi = in.begin(); mi != in.end(); ++mi) {
      Msg* m = *mi;
      if (m->arrive > W.now || !match(*ri, m)) continue;
      Req* r = *ri;
      m->late.settle();
      if (m->data.size() > (size_t) r->count * r->t->size) r->err = MPI_ERR_TRUNCATE;
      if (W.rk[c->g.ranks[k]].p->end == END_RUNNING) unpack(m->data, r->buf, r->count, r->t);
      status_set(&r->st, m->src, m->tag, m->data.size());
      r->done = true;
      *m->consumed = true;
      in.erase(mi);
      ri = po.erase(ri);
      hit = true;
      break;
    }
    if (!hit) ++ri;
  }
}
static Req* send_start(Comm* c, const void* b, int n, Type* t, int dst, int tag, bool sync, bool now = false) {
  int k = c->rank_of(myr());
  Req* q = new Req;
  W.reqs.insert(q);
  q->send = true;
  q->rank = myr();
  status_set(&q->st, k, tag, 0);
  if (dst == MPI_PROC_NULL) { q->done = true; return q; }
  Msg* m = new Msg;
  m->src = k;
  m->tag = tag;
  m->data = pack(b, n, t);
  m->bytes = m->data.size();
  m->consumed = new bool(false);
  u64& last = c->lastarr[(size_t) k * c->size() + dst];
  u64 arr = W.now + 1000 + delays[choose(9, 0.4)];
  if (arr <= last) arr = last + 1;   // non-overtaking
  last = arr;
  m->arrive = arr;
  count(CT_MSGS);
  c->inbox[dst].push_back(m);
  at(arr, [c, dst] { p2p_progress(c, dst); });
  bool rendezvous = sync || choose(2, 0.5);
  if (rendezvous && !now) m->late.fn = [m, b, n, t] { m->data = pack(b, n, t); };
  if (rendezvous) { bool* f = m->consumed; q->poll = [f] { return *f; }; }
  else q->done = true;
  return q;
}
static Req* recv_start(Comm* c, void* b, int n, Type* t, int src, int tag) {
  Req* q = new Req;
  W.reqs.insert(q);
  q->c = c;
  q->src = src;
  q->tag = tag;
  q->buf = b;
  q->count = n;
  q->t = t;
  q->rank = myr();
  status_set(&q->st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  if (src == MPI_PROC_NULL) { q->done = true; status_set(&q->st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return q; }
  int k = c->rank_of(myr());
  c->posted[k].push_back(q);
  p2p_progress(c, k);
  return q;
}
static bool req_done(Req* q) { return q->done || (q->poll && (q->done = q->poll())); }
static int req_wait(Req* q, MPI_Status* s, const char* what) {
  wait_for(what, [q] { return req_done(q); });
  if (s) *s = q->st;
  int e = q->err;
  W.reqs.erase(q);
  delete q;
  return e ? raise((Comm*) nullptr, e, fmt("%s: message truncated", what)) : 0;
}
#define P2PCHK(peer, any) \
  Type* t = type_of(d); int err = 0; \
  if (!check_buf(c, n, t, err, C.name)) return err; \
  if (!((peer >= 0 && peer < c->size()) || peer == MPI_PROC_NULL || (any && peer == MPI_ANY_SOURCE))) return raise(c, MPI_ERR_RANK, fmt("%s: invalid rank %d", C.name, peer));
int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h) { Call C("MPI_Send"); COMM(h) INJ(c) P2PCHK(dst, false) return req_wait(send_start(c, b, n, t, dst, tag, false), nullptr, "MPI_Send"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h) { Call C("MPI_Ssend"); COMM(h) INJ(c) P2PCHK(dst, false) return req_wait(send_start(c, b, n, t, dst, tag, true), nullptr, "MPI_Ssend"); }
int MPI_Rsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h) { return MPI_Send(b, n, d, dst, tag, h); }
int MPI_Isend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Isend"); COMM(h) INJ(c) P2PCHK(dst, false) *r = (MPI_Request) send_start(c, b, n, t, dst, tag, false); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Issend"); COMM(h) INJ(c) P2PCHK(dst, false) *r = (MPI_Request) send_start(c, b, n, t, dst, tag, true); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm h, MPI_Status* s) { Call C("MPI_Recv"); COMM(h) INJ(c) P2PCHK(src, true) return req_wait(recv_start(c, b, n, t, src, tag), s, "MPI_Recv"); }
int MPI_Irecv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Irecv"); COMM(h) INJ(c) P2PCHK(src, true) *r = (MPI_Request) recv_start(c, b, n, t, src, tag); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype sd, int dst, int stag, void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm h, MPI_Status* s) {
  Call C("MPI_Sendrecv"); COMM(h) INJ(c) P2PCHK(src, true)
  Type* st = type_of(sd);
  if (!check_buf(c, sn, st, err, C.name)) return err;
  Req* q = send_start(c, sb, sn, st, dst, stag, false);
  Req* r = recv_start(c, b, n, t, src, tag);
  int e = req_wait(r, s, "MPI_Sendrecv");
  if (e) return e;
  return req_wait(q, nullptr, "MPI_Sendrecv");
}
static Msg* peek(Comm* c, int k, int src, int tag) {
  Req q;
  q.src = src;
  q.tag = tag;
  for (auto m : c->inbox[k]) if (m->arrive <= W.now && match(&q, m)) return m;
  return nullptr;
}
int MPI_Probe(int src, int tag, MPI_Comm h, MPI_Status* s) {
  Call C("MPI_Probe"); COMM(h) INJ(c)
  int k = c->rank_of(myr());
  wait_for("MPI_Probe", [=] { return peek(c, k, src, tag) != nullptr; });
  Msg* m = peek(c, k, src, tag);
  status_set(s, m->src, m->tag, m->bytes);
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm h, int* f, MPI_Status* s) {
  Call C("MPI_Iprobe"); COMM(h) INJ(c)
  Msg* m = peek(c, c->rank_of(myr()), src, tag);
  *f = m != nullptr;
  polled(*f);
  if (m) status_set(s, m->src, m->tag, m->bytes);
  return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype d, int* n) { Type* t = type_of(d); *n = t && t->size ? (int) (s->_ucount / t->size) : 0; return 0; }
// ---- non-blocking collectives. They complete in MPI_Wait/MPI_Test; what a rank contributes is read from its buffer at
// some moment between the call and the completion, as a library may.
static void contribute(Coll* p, int k, const void* b, i64 n, Type* t) {
  CollArg* a = &p->arg[k];
  a->count = (int) n;
  a->data = pack(b, n, t);
  if (choose(2, 0.6)) a->late.fn = [a, b, n, t] { a->data = pack(b, n, t); };
}
static void settle_all(Coll* p) { for (auto& a : p->arg) a.late.settle(); }
static void icoll(Coll* p, int k, MPI_Request* r, std::function<bool()> ready, std::function<void()> finish) {
  Req* q = new Req;
  W.reqs.insert(q);
  q->poll = [=] {
    if (!ready()) return false;
    p->arg[k].late.settle();
    if (finish) finish();
    return true;
  };
  *r = (MPI_Request) q;
}
int MPI_Ibarrier(MPI_Comm h, MPI_Request* r) {
  Call C("MPI_Ibarrier"); COMM(h) INJ(c)
  int k, err;
  Coll* p = coll_enter(c, "MPI_Ibarrier", -1, k, err);
  if (!p) return err;
  int n = c->size();
  icoll(p, k, r, [p, n] { return p->arrived == n; }, nullptr);
  return 0;
}
static int ireduce_impl(Call& C, Comm* c, const void* s, void* b, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Request* r) {
  int k, err;
  Type* t = type_of(d);
  if (!check_buf(c, n, t, err, C.name)) return err;
  Coll* p = coll_enter(c, C.name, root, k, err);
  if (!p) return err;
  contribute(p, k, s == MPI_IN_PLACE ? b : s, n, t);
  int sz = c->size();
  bool recv = root < 0 || k == root;
  icoll(p, k, r, [=] { return !recv || p->arrived == sz; }, [=] {
    if (!recv) return;
    if (!p->computed) { settle_all(p); p->result = do_reduce(p, op, t, d, sz); p->computed = true; }
    unpack(p->result, b, n, t);
  });
  return 0;
}
int MPI_Iallreduce(const void* s, void* b, int n, MPI_Datatype d, MPI_Op op, MPI_Comm h, MPI_Request* r) { Call C("MPI_Iallreduce"); COMM(h) INJ(c) return ireduce_impl(C, c, s, b, n, d, op, -1, r); }
int MPI_Ireduce(const void* s, void* b, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm h, MPI_Request* r) {
  Call C("MPI_Ireduce"); COMM(h) INJ(c)
  if (root < 0 || root >= c->size()) return raise(c, MPI_ERR_ROOT, "MPI_Ireduce: invalid root");
  return ireduce_impl(C, c, s, b, n, d, op, root, r);
}
int MPI_Ibcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm h, MPI_Request* r) {
  Call C("MPI_Ibcast"); COMM(h) INJ(c)
  int k, err;
  Type* t = type_of(d);
  if (!check_buf(c, n, t, err, C.name)) return err;
  if (root < 0 || root >= c->size()) return raise(c, MPI_ERR_ROOT, "MPI_Ibcast: invalid root");
  Coll* p = coll_enter(c, "MPI_Ibcast", root, k, err);
  if (!p) return err;
  if (k == root) contribute(p, k, b, n, t);
  icoll(p, k, r, [=] { return p->arg[root].in; }, [=] {
    if (k == root) return;
    p->arg[root].late.settle();
    if (p->arg[root].data.size() > (size_t) n * t->size) usage_error("MPI_Ibcast: message truncated");
    unpack(p->arg[root].data, b, n, t);
  });
  return 0;
}
static int igather_impl(Call& C, Comm* c, const void* s, int sn, MPI_Datatype sd, void* b, int rn, const int* rns, const int* dis, MPI_Datatype rd, int root, MPI_Request* r) {
  int k = c->rank_of(myr()), err = 0, n = c->size();
  if (root >= n) return raise(c, MPI_ERR_ROOT, fmt("%s: invalid root", C.name));
  bool recv = root < 0 || k == root, inplace = s == MPI_IN_PLACE;
  Type *st = type_of(sd), *rt = type_of(rd);
  if (!inplace && !check_buf(c, sn, st, err, C.name)) return err;
  if (recv && !rt) return raise(c, MPI_ERR_TYPE, fmt("%s: bad datatype", C.name));
  Coll* p = coll_enter(c, C.name, root, k, err);
  if (!p) return err;
  std::vector<int> cnt;
  std::vector<i64> off;
  if (recv) for (int i = 0; i < n; ++i) { cnt.push_back(rns ? rns[i] : rn); off.push_back(rns ? dis[i] : (i64) i * rn); }
  if (inplace && recv) contribute(p, k, (char*) b + off[k] * rt->extent, cnt[k], rt);
  else contribute(p, k, s, sn, st);
  icoll(p, k, r, [=] { return !recv || p->arrived == n; }, [=] {
    if (!recv) return;
    settle_all(p);
    for (int i = 0; i < n; ++i) {
      if (p->arg[i].data.size() != (size_t) cnt[i] * rt->size) { usage_error("non-blocking gather: message sizes differ from those expected"); return; }
      unpack(p->arg[i].data, (char*) b + off[i] * rt->extent, cnt[i], rt);
    }
  });
  return 0;
}
int MPI_Igather(const void* s, int sn, MPI_Datatype sd, void* b, int rn, MPI_Datatype rd, int root, MPI_Comm h, MPI_Request* r) { Call C("MPI_Igather"); COMM(h) INJ(c) if (root < 0) return raise(c, MPI_ERR_ROOT, "MPI_Igather: root"); return igather_impl(C, c, s, sn, sd, b, rn, nullptr, nullptr, rd, root, r); }
int MPI_Igatherv(const void* s, int sn, MPI_Datatype sd, void* b, const int* rn, const int* dis, MPI_Datatype rd, int root, MPI_Comm h, MPI_Request* r) { Call C("MPI_Igatherv"); COMM(h) INJ(c) if (root < 0) return raise(c, MPI_ERR_ROOT, "MPI_Igatherv: root"); return igather_impl(C, c, s, sn, sd, b, 0, c->rank_of(myr()) == root ? rn : nullptr, dis, rd, root, r); }
int MPI_Iallgather(const void* s, int sn, MPI_Datatype sd, void* b, int rn, MPI_Datatype rd, MPI_Comm h, MPI_Request* r) { Call C("MPI_Iallgather"); COMM(h) INJ(c) return igather_impl(C, c, s, sn, sd, b, rn, nullptr, nullptr, rd, -1, r); }
int MPI_Iallgatherv(const void* s, int sn, MPI_Datatype sd, void* b, const int* rn, const int* dis, MPI_Datatype rd, MPI_Comm h, MPI_Request* r) { Call C("MPI_Iallgatherv"); COMM(h) INJ(c) return igather_impl(C, c, s, sn, sd, b, 0, rn, dis, rd, -1, r); }
int MPI_Ialltoall(const void* s, int sn, MPI_Datatype sd, void* b, int rn, MPI_Datatype rd, MPI_Comm h, MPI_Request* r) {
  Call C("MPI_Ialltoall"); COMM(h) INJ(c)
  int k, err, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  if (!check_buf(c, sn, st, err, C.name) || !check_buf(c, rn, rt, err, C.name)) return err;
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  contribute(p, k, s, (i64) n * sn, st);
  icoll(p, k, r, [=] { return p->arrived == n; }, [=] {
    settle_all(p);
    for (int i = 0; i < n; ++i) {
      size_t z = (size_t) sn * st->size;
      if (p->arg[i].data.size() != z * n) { usage_error("MPI_Ialltoall: sizes differ between ranks"); return; }
      unpack(p->arg[i].data.substr(z * k, z), (char*) b + (i64) i * rn * rt->extent, rn, rt);
    }
  });
  return 0;
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sdis, MPI_Datatype sd, void* r, const int* rn, const int* rdis, MPI_Datatype rd, MPI_Comm h) {
  Call C("MPI_Alltoallv"); COMM(h) INJ(c)
  int k, err = 0, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  if (!check_buf(c, 0, st, err, C.name) || !check_buf(c, 0, rt, err, C.name)) return err;
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  for (int i = 0; i < n; ++i) p->arg[k].parts.push_back(pack((const char*) s + (i64) sdis[i] * st->extent, sn[i], st));
  wait_all(p, C.name, n);
  for (int i = 0; i < n; ++i) {
    if (p->arg[i].parts[k].size() != (size_t) rn[i] * rt->size) return raise(c, MPI_ERR_TRUNCATE, "MPI_Alltoallv: sizes differ");
    unpack(p->arg[i].parts[k], (char*) r + (i64) rdis[i] * rt->extent, rn[i], rt);
  }
  return 0;
}
int MPI_Reduce_scatter_block(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm h) {
  Call C("MPI_Reduce_scatter_block"); COMM(h) INJ(c)
  int k, err = 0, sz = c->size();
  Type* t = type_of(d);
  if (!check_buf(c, n, t, err, C.name)) return err;
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  p->arg[k].data = pack(s == MPI_IN_PLACE ? r : s, (i64) n * sz, t);
  wait_all(p, C.name, sz);
  if (!p->computed) { p->result = do_reduce(p, op, t, d, sz); p->computed = true; }
  unpack(p->result.substr((size_t) k * n * t->size, (size_t) n * t->size), r, n, t);
  return 0;
}
int MPI_Reduce_local(const void* s, void* io, int n, MPI_Datatype d, MPI_Op op) {
  Call C("MPI_Reduce_local", false);
  Type* t = type_of(d);
  if (!t || n < 0) return raise((Comm*) nullptr, MPI_ERR_TYPE, "MPI_Reduce_local: bad datatype");
  std::string a = pack(s, n, t), b = pack(io, n, t);
  if (!reduce_into(op, t, d, a, b)) usage_error("reduction operation not valid for this datatype");
  unpack(b, io, n, t);
  return 0;
}

// persistent requests
static int pers_new(Call& C, Comm* c, bool send, const void* b, int n, MPI_Datatype d, int peer, int tag, bool sync, MPI_Request* r) {
  Type* t = type_of(d);
  int err = 0;
  if (!check_buf(c, n, t, err, C.name)) return err;
  Persist* p = new Persist{send, c, (void*) b, n, t, peer, tag, sync, nullptr};
  g_persist[p] = p;
  *r = (MPI_Request) p;
  return 0;
}
int MPI_Send_init(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Send_init", false); COMM(h) INJ(c) return pers_new(C, c, true, b, n, d, dst, tag, false, r); }
int MPI_Ssend_init(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Ssend_init", false); COMM(h) INJ(c) return pers_new(C, c, true, b, n, d, dst, tag, true, r); }
int MPI_Recv_init(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm h, MPI_Request* r) { Call C("MPI_Recv_init", false); COMM(h) INJ(c) return pers_new(C, c, false, b, n, d, src, tag, false, r); }
static int pers_start(MPI_Request r) {
  auto it = g_persist.find((void*) r);
  if (it == g_persist.end()) return raise((Comm*) nullptr, MPI_ERR_REQUEST, "MPI_Start: not a persistent request");
  Persist* p = it->second;
  if (p->live) return raise((Comm*) nullptr, MPI_ERR_REQUEST, "MPI_Start: request already active");
  p->live = p->send ? send_start(p->c, p->b, p->n, p->t, p->peer, p->tag, p->sync) : recv_start(p->c, p->b, p->n, p->t, p->peer, p->tag);
  return 0;
}
int MPI_Start(MPI_Request* r) { Call C("MPI_Start"); INJ((Comm*) nullptr) return pers_start(*r); }
int MPI_Startall(int n, MPI_Request* r) { Call C("MPI_Startall"); INJ((Comm*) nullptr) for (int i = 0; i < n; ++i) { int e = pers_start(r[i]); if (e) return e; } return 0; }

static Req* live_req(MPI_Request r) {   // null: inactive
  if (r == MPI_REQUEST_NULL) return nullptr;
  auto it = g_persist.find((void*) r);
  if (it != g_persist.end()) return it->second->live;
  return (Req*) r;
}
static int wait_one(MPI_Request* r, MPI_Status* s, const char* what) {
  if (*r == MPI_REQUEST_NULL) { status_set(s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  auto it = g_persist.find((void*) *r);
  if (it != g_persist.end()) {
    Req* q = it->second->live;
    if (!q) { status_set(s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
    it->second->live = nullptr;
    return req_wait(q, s, what);
  }
  Req* q = (Req*) *r;
  if (!W.reqs.count(q)) return raise((Comm*) nullptr, MPI_ERR_REQUEST, fmt("%s: invalid request", what));
  *r = MPI_REQUEST_NULL;
  return req_wait(q, s, what);
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) { Call C("MPI_Wait"); INJ((Comm*) nullptr) return wait_one(r, s, "MPI_Wait"); }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) {
  Call C("MPI_Waitall"); INJ((Comm*) nullptr)
  for (int i = 0; i < n; ++i) { int e = wait_one(r + i, s ? s + i : nullptr, "MPI_Waitall"); if (e) return e; }
  return 0;
}
// the active requests among r[0..n) that are complete now
static std::vector<int> done_now(int n, MPI_Request* r, bool& any) {
  std::vector<int> v;
  any = false;
  for (int i = 0; i < n; ++i) {
    Req* q = live_req(r[i]);
    if (!q) continue;
    any = true;
    if (req_done(q)) v.push_back(i);
  }
  return v;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s) {
  Call C("MPI_Waitany"); INJ((Comm*) nullptr)
  bool any;
  done_now(n, r, any);
  if (!any) { *idx = MPI_UNDEFINED; return 0; }
  wait_for("MPI_Waitany", [n, r] { bool a; return !done_now(n, r, a).empty(); });
  std::vector<int> ready = done_now(n, r, any);
  *idx = ready[choose((u32) ready.size(), 0.5)];
  return wait_one(r + *idx, s, "MPI_Waitany");
}
static int take_some(std::vector<int> ready, MPI_Request* r, int* out, int* idx, MPI_Status* s, const char* what) {
  // any non-empty subset of the completed requests may be reported
  std::vector<int> v;
  for (int i : ready) if (!choose(2, 0.3)) v.push_back(i);
  if (v.empty() && !ready.empty()) v.push_back(ready[0]);
  *out = (int) v.size();
  for (size_t j = 0; j < v.size(); ++j) {
    idx[j] = v[j];
    int e = wait_one(r + v[j], s ? s + j : nullptr, what);
    if (e) return e;
  }
  return 0;
}
int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* s) {
  Call C("MPI_Waitsome"); INJ((Comm*) nullptr)
  bool any;
  done_now(n, r, any);
  if (!any) { *out = MPI_UNDEFINED; return 0; }
  wait_for("MPI_Waitsome", [n, r] { bool a; return !done_now(n, r, a).empty(); });
  return take_some(done_now(n, r, any), r, out, idx, s, "MPI_Waitsome");
}
int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* s) {
  Call C("MPI_Testsome"); INJ((Comm*) nullptr)
  bool any;
  auto v = done_now(n, r, any);
  if (!any) { *out = MPI_UNDEFINED; return 0; }
  polled(!v.empty());
  return take_some(v, r, out, idx, s, "MPI_Testsome");
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* s) {
  Call C("MPI_Testany"); INJ((Comm*) nullptr)
  bool any;
  auto v = done_now(n, r, any);
  *f = !any || !v.empty();
  polled(*f);
  *idx = MPI_UNDEFINED;
  if (v.empty()) return 0;
  *idx = v[choose((u32) v.size(), 0.5)];
  return wait_one(r + *idx, s, "MPI_Testany");
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) {
  Call C("MPI_Test"); INJ((Comm*) nullptr)
  *f = 1;
  Req* q = live_req(*r);
  if (!q) { status_set(s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  if (!req_done(q)) { *f = 0; polled(false); return 0; }
  polled(true);
  return wait_one(r, s, "MPI_Test");
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) {
  Call C("MPI_Testall"); INJ((Comm*) nullptr)
  *f = 1;
  for (int i = 0; i < n; ++i) { Req* q = live_req(r[i]); if (q && !req_done(q)) *f = 0; }
  polled(*f);
  if (*f) for (int i = 0; i < n; ++i) { int e = wait_one(r + i, s ? s + i : nullptr, "MPI_Testall"); if (e) return e; }
  return 0;
}
int MPI_Request_get_status(MPI_Request r, int* f, MPI_Status* s) { Call C("MPI_Request_get_status"); Req* q = live_req(r); *f = !q || req_done(q); polled(*f); if (*f && q && s) *s = q->st; return 0; }
int MPI_Request_free(MPI_Request* r) { *r = MPI_REQUEST_NULL; return 0; }
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype d, int dst, int stag, int src, int tag, MPI_Comm h, MPI_Status* s) {
  Call C("MPI_Sendrecv_replace"); COMM(h) INJ(c) P2PCHK(src, true)
  Req* q = send_start(c, b, n, t, dst, stag, false, true);
  Req* r = recv_start(c, b, n, t, src, tag);
  int e = req_wait(r, s, C.name);
  return e ? e : req_wait(q, nullptr, C.name);
}

// memory and windows
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* out) {
  Call C("MPI_Alloc_mem", false);
  INJ((Comm*) nullptr)
  Rank& r = me();
  r.nalloc++;
  const JobSpec& s = g_job->spec;
  if (s.fault_kind == 4 && s.fault_rank == C.rank && (s.fault_at == r.nalloc || (s.fault_on && s.fault_at && s.fault_at < (u64) r.nalloc))) {
    g_job->fault_hit = true;
    count(CT_ALLOCFAIL);
    return raise((Comm*) nullptr, MPI_ERR_NO_MEM, "MPI_Alloc_mem: no memory (injected)");
  }
  if (n < 0 || n > (1ll << 33)) return raise((Comm*) nullptr, MPI_ERR_NO_MEM, "MPI_Alloc_mem: bad size");
  u64 keep = r.p->alloc_fail_at;
  r.p->alloc_fail_at = 0;
  void* p = user_alloc((size_t) n);
  r.p->alloc_fail_at = keep;
  *(void**) out = p;
  W.mem[p] = {C.rank, (size_t) n};
  return 0;
}
int MPI_Free_mem(void* p) {
  Call C("MPI_Free_mem", false);
  INJ((Comm*) nullptr)
  auto it = W.mem.find(p);
  if (it == W.mem.end()) return raise((Comm*) nullptr, MPI_ERR_BASE, "MPI_Free_mem: not allocated by MPI_Alloc_mem or already freed");
  W.mem.erase(it);
  user_free(p);
  return 0;
}
static int win_new(Call& C, void* base, MPI_Aint size, int unit, Comm* c, MPI_Win* out, bool allocd) {
  int k, err;
  Coll* p = coll_enter(c, "MPI_Win_create", -1, k, err);
  if (!p) return err;
  if (!p->obj) {
    Win* w = new Win;
    w->c = c;
    w->id = W.nwin++;
    w->r.resize(c->size());
    w->held.resize(c->size());
    w->postedto.resize(c->size());
    for (auto& e : w->eh) e = MPI_ERRORS_ARE_FATAL;
    W.wins.insert(w);
    W.allwins.insert(w);
    p->obj = w;
  }
  Win* w = (Win*) p->obj;
  WinRank& r = w->r[k];
  r.base = (char*) base;
  r.size = size;
  r.unit = unit;
  r.allocd = allocd;
  r.open = false;
  C.log().a = w->id;
  wait_all(p, "MPI_Win_create", c->size());
  *out = (MPI_Win) w;
  return 0;
}
int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm h, MPI_Win* out) {
  Call C("MPI_Win_create"); COMM(h) INJ(c)
  if (size < 0 || unit <= 0) return raise(c, MPI_ERR_SIZE, "MPI_Win_create: bad size");
  return win_new(C, base, size, unit, c, out, false);
}
int MPI_Win_create_dynamic(MPI_Info, MPI_Comm h, MPI_Win* out) {
  Call C("MPI_Win_create_dynamic"); COMM(h) INJ(c)
  int e = win_new(C, nullptr, 0, 1, c, out, false);
  if (!e) ((Win*) *out)->r[c->rank_of(myr())].dyn = true;
  return e;
}
int MPI_Win_attach(MPI_Win h, void* b, MPI_Aint n) {
  Call C("MPI_Win_attach"); Win* w = win_of(h);
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "MPI_Win_attach: invalid window");
  INJ(w)
  w->r[w->c->rank_of(myr())].att[(i64) b] = n;
  return 0;
}
int MPI_Win_detach(MPI_Win h, const void* b) {
  Call C("MPI_Win_detach"); Win* w = win_of(h);
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "MPI_Win_detach: invalid window");
  int k = w->c->rank_of(myr());
  if (!w->r[k].att.erase((i64) b)) return raise(w, MPI_ERR_BASE, "MPI_Win_detach: not attached");
  return 0;
}
int MPI_Win_allocate(MPI_Aint size, int unit, MPI_Info, MPI_Comm h, void* bp, MPI_Win* out) {
  Call C("MPI_Win_allocate"); COMM(h) INJ(c)
  void* p = user_alloc((size_t) size);
  *(void**) bp = p;
  return win_new(C, p, size, unit, c, out, true);
}
int MPI_Win_free(MPI_Win* h) {
  Call C("MPI_Win_free");
  Win* w = win_of(*h);
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "MPI_Win_free: invalid window");
  INJ(w)
  C.log().a = w->id;
  int k, err;
  Coll* p = coll_enter(w->c, "MPI_Win_free", -1, k, err);
  if (!p) return err;
  for (auto o : w->ops) if (!o->done && o->origin == k) usage_error("MPI_Win_free with pending one-sided operations");
  p->arg[k].extra = (u64) w;
  for (auto& a : p->arg) if (a.in && a.extra != (u64) w) return raise(w, MPI_ERR_WIN, "MPI_Win_free: ranks free different windows");
  wait_all(p, "MPI_Win_free", w->c->size());
  if (w->r[k].allocd) user_free(w->r[k].base);
  w->r[k].freed = true;
  bool all = true;
  for (auto& r : w->r) all &= r.freed;
  w->freed = all;
  *h = MPI_WIN_NULL;
  return 0;
}
int MPI_Win_set_errhandler(MPI_Win h, MPI_Errhandler e) { Call C("MPI_Win_set_errhandler", false); Win* w = win_of(h); if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "bad window"); w->eh[myr()] = e; return 0; }
int MPI_Win_fence(int as, MPI_Win h) {
  Call C("MPI_Win_fence");
  Win* w = win_of(h);
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "MPI_Win_fence: invalid window");
  INJ(w)
  C.log().a = w->id;
  int k = w->c->rank_of(myr());
  WinRank& r = w->r[k];
  u64 f = ++r.fences;
  // operations that waited for this rank to open its exposure epoch
  for (auto o : w->ops)
    if (!o->done && o->target == k && !o->pend.empty() && o->forced) {
      auto p = o->pend;
      o->pend.clear();
      for (auto& cc : p) { auto x = cc; at(W.now + xfer_delay(), [w, o, x] { chunk_run(w, o, x.first, x.second); }); }
    } else if (!o->done && o->target == k && !o->pend.empty() && g_job->spec.rma != 1 && o->epoch <= f) {
      auto p = o->pend;
      o->pend.clear();
      for (auto& cc : p) {
        auto x = cc;
        if (choose(2, 0.4)) o->pend.push_back(x);
        else at(W.now + xfer_delay(), [w, o, x] { chunk_run(w, o, x.first, x.second); });
      }
    }
  r.open = !(as & MPI_MODE_NOSUCCEED);
  r.noput = as & MPI_MODE_NOPUT;
  if (as & MPI_MODE_NOPRECEDE) {
    bool pending = false;
    for (auto o : w->ops) pending |= !o->done && o->origin == k;
    if (pending) usage_error("fence asserted MODE_NOPRECEDE although one-sided operations precede it");
    // need not synchronise
    if (choose(2, g_job->spec.p_weak)) { count(CT_FENCE_NOSYNC); return 0; }
    wait_for("MPI_Win_fence", [w, f] { for (auto& x : w->r) if (x.fences < f) return false; return true; });
    return 0;
  }
  // complete everything this rank issued or exposed before this fence
  bool* started = new bool(false);
  wait_for("MPI_Win_fence", [w, f, k, started] {
    for (auto& x : w->r) if (x.fences < f) return false;
    bool left = false;
    for (auto o : w->ops) left |= !o->done && o->epoch < f && (o->origin == k || o->target == k);
    if (left && !*started) {
      *started = true;
      force_ops(w, [f](RmaOp* o) { return o->epoch < f; });
    }
    return !left;
  });
  delete started;
  prune(w);
  return 0;
}
#define WINCHK \
  Win* w = win_of(h); \
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, fmt("%s: invalid window", C.name)); \
  INJ(w) C.log().a = w->id; \
  int k = w->c->rank_of(myr()); (void) k;
int MPI_Get(void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win h) { Call C("MPI_Get"); WINCHK return rma_issue(w, 0, o, oc, od, t, disp, tc, td, MPI_REPLACE, "MPI_Get"); }
int MPI_Put(const void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win h) { Call C("MPI_Put"); WINCHK return rma_issue(w, 1, (void*) o, oc, od, t, disp, tc, td, MPI_REPLACE, "MPI_Put"); }
int MPI_Accumulate(const void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win h) { Call C("MPI_Accumulate"); WINCHK return rma_issue(w, 2, (void*) o, oc, od, t, disp, tc, td, op, "MPI_Accumulate"); }
static int rreq(Win* w, RmaOp* o, MPI_Request* r) {
  Req* q = new Req;
  W.reqs.insert(q);
  if (!o) q->done = true;
  else {
    bool* st = new bool(false);
    q->poll = [w, o, st] { if (o->done) return true; if (!*st) { *st = true; force_ops(w, [o](RmaOp* x) { return x == o; }); } return false; };
  }
  *r = (MPI_Request) q;
  return 0;
}
int MPI_Rget(void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win h, MPI_Request* r) { Call C("MPI_Rget"); WINCHK RmaOp* x = nullptr; int e = rma_issue(w, 0, o, oc, od, t, disp, tc, td, MPI_REPLACE, "MPI_Rget", &x); if (e) return e; return rreq(w, x, r); }
int MPI_Rput(const void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Win h, MPI_Request* r) { Call C("MPI_Rput"); WINCHK RmaOp* x = nullptr; int e = rma_issue(w, 1, (void*) o, oc, od, t, disp, tc, td, MPI_REPLACE, "MPI_Rput", &x); if (e) return e; return rreq(w, x, r); }
int MPI_Raccumulate(const void* o, int oc, MPI_Datatype od, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win h, MPI_Request* r) { Call C("MPI_Raccumulate"); WINCHK RmaOp* x = nullptr; int e = rma_issue(w, 2, (void*) o, oc, od, t, disp, tc, td, op, "MPI_Raccumulate", &x); if (e) return e; return rreq(w, x, r); }
int MPI_Get_accumulate(const void* o, int oc, MPI_Datatype od, void* res, int rc, MPI_Datatype rd, int t, MPI_Aint disp, int tc, MPI_Datatype td, MPI_Op op, MPI_Win h) {
  Call C("MPI_Get_accumulate"); WINCHK
  RmaOp* x = nullptr;
  int e = rma_issue(w, 3, res, rc, rd, t, disp, tc, td, op, "MPI_Get_accumulate", &x);
  if (e || !x) return e;
  if (op != MPI_NO_OP) { Type* ot = type_of(od); if (!ot) return raise(w, MPI_ERR_TYPE, "MPI_Get_accumulate: bad datatype"); x->data = pack(o, oc, ot); }
  return 0;
}
int MPI_Fetch_and_op(const void* o, void* res, MPI_Datatype d, int t, MPI_Aint disp, MPI_Op op, MPI_Win h) { return MPI_Get_accumulate(o, 1, d, res, 1, d, t, disp, 1, d, op, h); }
static void complete_to(Win* w, int k, int target, const char* what, bool local = false) {
  auto sel = [=](RmaOp* o) { return !o->done && o->passive && o->origin == k && (target < 0 || o->target == target) && !(local && (o->kind == 1 || o->kind == 2)); };
  bool* st = new bool(false);
  wait_for(what, [=] {
    bool left = false;
    for (auto o : w->ops) left |= sel(o);
    if (left && !*st) { *st = true; force_ops(w, sel); }
    return !left;
  });
  delete st;
  prune(w);
}
int MPI_Win_lock(int type, int t, int, MPI_Win h) {
  Call C("MPI_Win_lock"); WINCHK
  if (t < 0 || t >= w->c->size()) return raise(w, MPI_ERR_RANK, "MPI_Win_lock: rank");
  int ty = type == MPI_LOCK_EXCLUSIVE ? 1 : 2;
  wait_for("MPI_Win_lock", [=] { for (auto& x : w->held[t]) if (x.second == 1 || ty == 1) return false; return true; });
  w->held[t][k] = ty;
  w->r[k].locks[t] = ty;
  return 0;
}
int MPI_Win_unlock(int t, MPI_Win h) {
  Call C("MPI_Win_unlock"); WINCHK
  if (!w->r[k].locks.count(t)) return raise(w, MPI_ERR_RMA_SYNC, "MPI_Win_unlock without lock");
  complete_to(w, k, t, "MPI_Win_unlock");
  w->r[k].locks.erase(t);
  w->held[t].erase(k);
  return 0;
}
int MPI_Win_lock_all(int, MPI_Win h) {
  Call C("MPI_Win_lock_all"); WINCHK
  wait_for("MPI_Win_lock_all", [=] { for (auto& m : w->held) for (auto& x : m) if (x.second == 1) return false; return true; });
  for (auto& m : w->held) m[k] = 2;
  w->r[k].lockall = true;
  return 0;
}
int MPI_Win_unlock_all(MPI_Win h) {
  Call C("MPI_Win_unlock_all"); WINCHK
  complete_to(w, k, -1, "MPI_Win_unlock_all");
  for (auto& m : w->held) m.erase(k);
  w->r[k].lockall = false;
  return 0;
}
int MPI_Win_flush(int t, MPI_Win h) { Call C("MPI_Win_flush"); WINCHK complete_to(w, k, t, "MPI_Win_flush"); return 0; }
// completion at the origin only: a put may still be on its way, but its buffer can be reused
static void local_flush(Win* w, int k, int t, const char* what) {
  for (auto o : w->ops)
    if (!o->done && o->passive && o->origin == k && (t < 0 || o->target == t) && o->late && o->kind != 0) { o->data = pack(o->obuf, o->ocount, o->ot); o->late = false; }
  complete_to(w, k, t, what, true);
}
int MPI_Win_flush_local(int t, MPI_Win h) { Call C("MPI_Win_flush_local"); WINCHK local_flush(w, k, t, C.name); return 0; }
int MPI_Win_flush_all(MPI_Win h) { Call C("MPI_Win_flush_all"); WINCHK complete_to(w, k, -1, "MPI_Win_flush_all"); return 0; }
int MPI_Win_flush_local_all(MPI_Win h) { Call C("MPI_Win_flush_local_all"); WINCHK local_flush(w, k, -1, C.name); return 0; }
int MPI_Win_sync(MPI_Win h) { Call C("MPI_Win_sync"); WINCHK return 0; }
int MPI_Win_post(MPI_Group g, int, MPI_Win h) {
  Call C("MPI_Win_post"); WINCHK
  auto& r = ((Group*) g)->ranks;
  w->r[k].postg.clear();
  w->r[k].completes = 0;
  for (int x : r) { int q = w->c->rank_of(x); w->r[k].postg.push_back(q); w->postedto[q].insert(k); }
  return 0;
}
int MPI_Win_start(MPI_Group g, int, MPI_Win h) {
  Call C("MPI_Win_start"); WINCHK
  std::vector<int> t;
  for (int x : ((Group*) g)->ranks) t.push_back(w->c->rank_of(x));
  wait_for("MPI_Win_start", [=] { for (int x : t) if (!w->postedto[k].count(x)) return false; return true; });
  w->r[k].startg = t;
  return 0;
}
int MPI_Win_complete(MPI_Win h) {
  Call C("MPI_Win_complete"); WINCHK
  complete_to(w, k, -1, "MPI_Win_complete");
  for (int x : w->r[k].startg) { w->postedto[k].erase(x); w->r[x].completes++; }
  w->r[k].startg.clear();
  return 0;
}
int MPI_Win_test(MPI_Win h, int* f) {
  Call C("MPI_Win_test"); WINCHK
  *f = w->r[k].completes >= (int) w->r[k].postg.size();
  polled(*f);
  if (*f) w->r[k].postg.clear();
  return 0;
}
int MPI_Win_get_attr(MPI_Win h, int key, void* out, int* f) {
  Call C("MPI_Win_get_attr", false); WINCHK
  *f = 1;
  if (key == MPI_WIN_BASE) *(void**) out = w->r[k].base;
  else if (key == MPI_WIN_SIZE) { static MPI_Aint a[256]; a[myr()] = w->r[k].size; *(MPI_Aint**) out = &a[myr()]; }
  else if (key == MPI_WIN_DISP_UNIT) { static int a[256]; a[myr()] = w->r[k].unit; *(int**) out = &a[myr()]; }
  else *f = 0;
  return 0;
}
int MPI_Win_set_name(MPI_Win, const char*) { return 0; }
int MPI_Win_wait(MPI_Win h) {
  Call C("MPI_Win_wait"); WINCHK
  wait_for("MPI_Win_wait", [=] { return w->r[k].completes >= (int) w->r[k].postg.size(); });
  w->r[k].postg.clear();
  return 0;
}

// datatypes, ops, info
int MPI_Type_size(MPI_Datatype d, int* n) { Type* t = type_of(d); *n = t ? (int) t->size : MPI_UNDEFINED; return 0; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint* lb, MPI_Aint* ex) { Type* t = type_of(d); *lb = 0; *ex = t ? t->extent : 0; return 0; }
static int type_reg(Type* t, MPI_Datatype* o) { g_types[t] = t; *o = (MPI_Datatype) t; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype* o) {
  SimScope s;
  Type *b = type_of(d), *t = new Type;
  for (int i = 0; i < n; ++i) for (auto& m : b->map) t->map.push_back({i * b->extent + m.first, m.second});
  t->extent = n * b->extent;
  t->size = n * b->size;
  return type_reg(t, o);
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype d, MPI_Datatype* o) {
  SimScope s;
  Type *b = type_of(d), *t = new Type;
  for (int i = 0; i < n; ++i) for (int j = 0; j < bl; ++j) for (auto& m : b->map) t->map.push_back({((i64) i * stride + j) * b->extent + m.first, m.second});
  t->extent = n ? ((i64) (n - 1) * stride + bl) * b->extent : 0;
  t->size = (size_t) n * bl * b->size;
  return type_reg(t, o);
}
static int type_blocks(int n, const int* bl, const i64* off, MPI_Datatype d, MPI_Datatype* o) {   // off in bytes
  SimScope s;
  Type *b = type_of(d), *t = new Type;
  i64 ub = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < bl[i]; ++j) {
    for (auto& m : b->map) t->map.push_back({off[i] + j * b->extent + m.first, m.second});
    ub = std::max(ub, off[i] + (j + 1) * b->extent);
    t->size += b->size;
  }
  t->extent = ub;
  return type_reg(t, o);
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint stride, MPI_Datatype d, MPI_Datatype* o) { SimScope sc; std::vector<int> l(n, bl); std::vector<i64> f; for (int i = 0; i < n; ++i) f.push_back(i * (i64) stride); return type_blocks(n, l.data(), f.data(), d, o); }
int MPI_Type_indexed(int n, const int* bl, const int* dis, MPI_Datatype d, MPI_Datatype* o) { SimScope sc; std::vector<i64> f; for (int i = 0; i < n; ++i) f.push_back(dis[i] * type_of(d)->extent); return type_blocks(n, bl, f.data(), d, o); }
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* dis, MPI_Datatype d, MPI_Datatype* o) { SimScope sc; std::vector<i64> f(dis, dis + n); return type_blocks(n, bl, f.data(), d, o); }
int MPI_Type_create_indexed_block(int n, int bl, const int* dis, MPI_Datatype d, MPI_Datatype* o) { SimScope sc; std::vector<int> l(n, bl); return MPI_Type_indexed(n, l.data(), dis, d, o); }
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* dis, const MPI_Datatype* d, MPI_Datatype* o) {
  SimScope s;
  Type* t = new Type;
  for (int i = 0; i < n; ++i) {
    Type* b = type_of(d[i]);
    for (int j = 0; j < bl[i]; ++j) {
      for (auto& m : b->map) t->map.push_back({(i64) dis[i] + j * b->extent + m.first, m.second});
      t->extent = std::max(t->extent, (i64) dis[i] + (j + 1) * b->extent);
      t->size += b->size;
    }
  }
  return type_reg(t, o);
}
int MPI_Type_create_resized(MPI_Datatype d, MPI_Aint, MPI_Aint ex, MPI_Datatype* o) { SimScope s; Type* t = new Type(*type_of(d)); t->extent = ex; return type_reg(t, o); }
int MPI_Type_dup(MPI_Datatype d, MPI_Datatype* o) { SimScope s; return type_reg(new Type(*type_of(d)), o); }
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype d, MPI_Datatype* o) {
  SimScope s;
  Type *b = type_of(d), *t = new Type;
  i64 tot = 1, subtot = 1;
  for (int i = 0; i < nd; ++i) { tot *= sz[i]; subtot *= sub[i]; }
  for (i64 q = 0; q < subtot; ++q) {
    std::vector<i64> ix(nd);
    i64 x = q, off = 0, mul = 1;
    if (order == MPI_ORDER_C) { for (int i = nd - 1; i >= 0; --i) { ix[i] = x % sub[i] + st[i]; x /= sub[i]; } for (int i = nd - 1; i >= 0; --i) { off += ix[i] * mul; mul *= sz[i]; } }
    else { for (int i = 0; i < nd; ++i) { ix[i] = x % sub[i] + st[i]; x /= sub[i]; } for (int i = 0; i < nd; ++i) { off += ix[i] * mul; mul *= sz[i]; } }
    for (auto& m : b->map) t->map.push_back({off * b->extent + m.first, m.second});
  }
  t->extent = tot * b->extent;
  t->size = (size_t) subtot * b->size;
  return type_reg(t, o);
}
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* d) { *d = MPI_DATATYPE_NULL; return 0; }
int MPI_Op_create(MPI_User_function* f, int comm, MPI_Op* o) { SimScope s; char* h = new char[8]; g_ops[h] = UserOp{f, comm != 0}; *o = (MPI_Op) h; return 0; }
int MPI_Op_free(MPI_Op* o) { *o = MPI_OP_NULL; return 0; }
int MPI_Info_create(MPI_Info* i) { static char x[8]; *i = (MPI_Info) x; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint) p; return 0; }
int MPI_Pcontrol(const int, ...) { return 0; }

// less common calls
int MPI_Bsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h) {
  Call C("MPI_Bsend"); COMM(h) INJ(c) P2PCHK(dst, false)
  Req* q = send_start(c, b, n, t, dst, tag, false, true);
  q->poll = nullptr;
  q->done = true;
  return req_wait(q, nullptr, "MPI_Bsend");
}
int MPI_Ibsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) {
  Call C("MPI_Ibsend"); COMM(h) INJ(c) P2PCHK(dst, false)
  Req* q = send_start(c, b, n, t, dst, tag, false, true);
  q->poll = nullptr;
  q->done = true;
  *r = (MPI_Request) q;
  return 0;
}
int MPI_Buffer_attach(void* b, int n) { SimScope s; g_bsend[myr()] = {b, n}; return 0; }
int MPI_Buffer_detach(void* b, int* n) { SimScope s; auto x = g_bsend[myr()]; *(void**) b = x.first; *n = x.second; g_bsend.erase(myr()); return 0; }
int MPI_Irsend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm h, MPI_Request* r) { return MPI_Isend(b, n, d, dst, tag, h, r); }
static int take_msg(Comm* c, int k, Msg* m, MPI_Message* out, MPI_Status* s) {
  auto& in = c->inbox[k];
  in.erase(std::find(in.begin(), in.end(), m));
  status_set(s, m->src, m->tag, m->bytes);
  g_matched[m] = {m, c, k};
  *out = (MPI_Message) m;
  return 0;
}
int MPI_Mprobe(int src, int tag, MPI_Comm h, MPI_Message* out, MPI_Status* s) {
  Call C("MPI_Mprobe"); COMM(h) INJ(c)
  int k = c->rank_of(myr());
  wait_for("MPI_Mprobe", [=] { return peek(c, k, src, tag) != nullptr; });
  return take_msg(c, k, peek(c, k, src, tag), out, s);
}
int MPI_Improbe(int src, int tag, MPI_Comm h, int* f, MPI_Message* out, MPI_Status* s) {
  Call C("MPI_Improbe"); COMM(h) INJ(c)
  int k = c->rank_of(myr());
  Msg* m = peek(c, k, src, tag);
  *f = m != nullptr;
  polled(*f);
  return m ? take_msg(c, k, m, out, s) : 0;
}
static int mrecv(void* b, int n, MPI_Datatype d, MPI_Message* h, MPI_Status* s) {
  Type* t = type_of(d);
  auto it = g_matched.find((void*) *h);
  if (it == g_matched.end() || !t) return raise((Comm*) nullptr, MPI_ERR_ARG, "matched receive: bad message or datatype");
  Msg* m = it->second.m;
  g_matched.erase(it);
  *h = MPI_MESSAGE_NULL;
  m->late.settle();
  *m->consumed = true;
  if (m->data.size() > (size_t) n * t->size) return raise((Comm*) nullptr, MPI_ERR_TRUNCATE, "matched receive: message truncated");
  unpack(m->data, b, n, t);
  status_set(s, m->src, m->tag, m->data.size());
  return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype d, MPI_Message* h, MPI_Status* s) { Call C("MPI_Mrecv"); INJ((Comm*) nullptr) return mrecv(b, n, d, h, s); }
int MPI_Imrecv(void* b, int n, MPI_Datatype d, MPI_Message* h, MPI_Request* r) {
  Call C("MPI_Imrecv"); INJ((Comm*) nullptr)
  Req* q = new Req;
  W.reqs.insert(q);
  q->rank = myr();
  int e = mrecv(b, n, d, h, &q->st);
  q->done = true;
  *r = (MPI_Request) q;
  return e;
}
int MPI_Cancel(MPI_Request* r) {
  Call C("MPI_Cancel"); INJ((Comm*) nullptr)
  Req* q = live_req(*r);
  if (!q || q->send || q->done || !q->c) return 0;
  for (auto& po : q->c->posted) {
    auto it = std::find(po.begin(), po.end(), q);
    if (it != po.end()) { po.erase(it); q->done = true; q->st._cancelled = 1; break; }
  }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->_cancelled; return 0; }
int MPI_Reduce_scatter(const void* s, void* r, const int* ns, MPI_Datatype d, MPI_Op op, MPI_Comm h) {
  Call C("MPI_Reduce_scatter"); COMM(h) INJ(c)
  int k, err = 0, sz = c->size();
  Type* t = type_of(d);
  i64 all = 0, before = 0;
  for (int i = 0; i < sz; ++i) {
    if (!check_buf(c, ns[i], t, err, C.name)) return err;
    if (i < c->rank_of(myr())) before += ns[i];
    all += ns[i];
  }
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  p->arg[k].data = pack(s == MPI_IN_PLACE ? r : s, all, t);
  wait_all(p, C.name, sz);
  if (!p->computed) { p->result = do_reduce(p, op, t, d, sz); p->computed = true; }
  unpack(p->result.substr((size_t) before * t->size, (size_t) ns[k] * t->size), r, ns[k], t);
  return 0;
}
int MPI_Iscatter(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, MPI_Comm h, MPI_Request* q) {
  Call C("MPI_Iscatter"); COMM(h) INJ(c)
  int k, err = 0, n = c->size();
  Type *st = type_of(sd), *rt = type_of(rd);
  Coll* p = coll_enter(c, C.name, root, k, err);
  if (!p) return err;
  if (k == root)
    for (int i = 0; i < n; ++i) p->arg[k].parts.push_back(pack((const char*) s + (i64) i * sn * st->extent, sn, st));
  icoll(p, k, q, [p, root] { return p->arg[root].in; }, [p, root, k, r, rn, rt] { if (r != MPI_IN_PLACE) unpack(p->arg[root].parts[k], r, rn, rt); });
  return 0;
}
int MPI_Cart_sub(MPI_Comm h, const int* keep, MPI_Comm* o) {
  Call C("MPI_Cart_sub"); COMM(h) INJ(c)
  int nd = (int) c->dims.size(), color = 0, key = 0, q = c->rank_of(myr());
  std::vector<int> co(nd), kd, kp;
  for (int i = nd - 1; i >= 0; --i) { co[i] = q % c->dims[i]; q /= c->dims[i]; }
  for (int i = 0; i < nd; ++i) {
    if (keep[i]) { key = key * c->dims[i] + co[i]; kd.push_back(c->dims[i]); kp.push_back(c->periods[i]); }
    else color = color * c->dims[i] + co[i];
  }
  int e = comm_split_impl(C, c, color, key, o, "MPI_Cart_sub");
  if (!e) { Comm* x = (Comm*) *o; x->dims = kd; x->periods = kp; }
  return e;
}
int MPI_Topo_test(MPI_Comm h, int* s) { Call C("MPI_Topo_test", false); COMM(h) *s = c->dims.empty() ? c->gin.empty() ? MPI_UNDEFINED : MPI_DIST_GRAPH : MPI_CART; return 0; }
static std::vector<int> cart_neighbours(Comm* c, int r) {     // in the order of the standard: per dimension source, then destination of a shift by one
  int nd = (int) c->dims.size();
  std::vector<int> co(nd), out;
  for (int i = nd - 1, q = r; i >= 0; --i) { co[i] = q % c->dims[i]; q /= c->dims[i]; }
  for (int d = 0; d < nd; ++d)
    for (int s = -1; s <= 1; s += 2) {
      int v = co[d] + s, n = c->dims[d], x = 0;
      if (!c->periods[d] && (v < 0 || v >= n)) { out.push_back(MPI_PROC_NULL); continue; }
      v = (v + n) % n;
      for (int i = 0; i < nd; ++i) x = x * c->dims[i] + (i == d ? v : co[i]);
      out.push_back(x);
    }
  return out;
}
static std::vector<int> in_neighbours(Comm* c, int r) { return c->dims.empty() ? c->gin[r] : cart_neighbours(c, r); }
static std::vector<int> out_neighbours(Comm* c, int r) { return c->dims.empty() ? c->gout[r] : cart_neighbours(c, r); }
// what the i-th source of rank k sends to it: the index of k among the destinations of the source
static int neighbour_part(Comm* c, int k, const std::vector<int>& in, size_t i) {
  if (!c->dims.empty()) return (int) (i ^ 1);        // what the neighbour sends the other way
  size_t m = std::count(in.begin(), in.begin() + i, in[i]);
  auto& o = c->gout[in[i]];
  for (size_t q = 0; q < o.size(); ++q) if (o[q] == k && m-- == 0) return (int) q;
  return -1;
}
// part(i): where the data for the i-th destination are; a process waits for its sources only
static int neighbour_impl(Call& C, Comm* c, std::function<std::string(int)> part, std::function<int(int, const std::string&)> take, MPI_Request* r = nullptr) {
  if (c->dims.empty() && c->gin.empty()) return raise(c, MPI_ERR_TOPOLOGY, fmt("%s: no topology", C.name));
  int k, err = 0;
  Coll* p = coll_enter(c, C.name, -1, k, err);
  if (!p) return err;
  auto out = out_neighbours(c, k), in = in_neighbours(c, k);
  for (size_t i = 0; i < out.size(); ++i) p->arg[k].parts.push_back(part((int) i));
  auto ready = [p, in] { for (int x : in) if (x != MPI_PROC_NULL && !p->arg[x].in) return false; return true; };
  std::string nm = C.name;
  auto finish = [=]() -> int {
    for (size_t i = 0; i < in.size(); ++i) {
      if (in[i] == MPI_PROC_NULL) continue;
      int q = neighbour_part(c, k, in, i);
      if (q < 0) return raise(c, MPI_ERR_TOPOLOGY, fmt("%s: rank %d does not send to rank %d", nm.c_str(), in[i], k));
      int e = take((int) i, p->arg[in[i]].parts[q]);
      if (e) return e;
    }
    return 0;
  };
  if (r) { icoll(p, k, r, ready, [=] { finish(); }); return 0; }
  wait_for(C.name, ready);
  return finish();
}
int MPI_Dist_graph_create_adjacent(MPI_Comm h, int ni, const int* in, const int*, int no, const int* out, const int*, MPI_Info, int, MPI_Comm* o) {
  Call C("MPI_Dist_graph_create_adjacent"); COMM(h) INJ(c)
  int k = c->rank_of(myr());
  int e = comm_split_impl(C, c, 0, k, o, C.name);
  if (e) return e;
  Comm* x = (Comm*) *o;
  x->gin.resize(c->size());
  x->gout.resize(c->size());
  x->gin[k].assign(in, in + ni);
  x->gout[k].assign(out, out + no);
  return 0;
}
int MPI_Dist_graph_neighbors_count(MPI_Comm h, int* ni, int* no, int* weighted) {
  Call C("MPI_Dist_graph_neighbors_count", false); COMM(h)
  if (c->gin.empty()) return raise(c, MPI_ERR_TOPOLOGY, "no graph");
  int k = c->rank_of(myr());
  *ni = (int) c->gin[k].size();
  *no = (int) c->gout[k].size();
  *weighted = 0;
  return 0;
}
int MPI_Dist_graph_neighbors(MPI_Comm h, int ni, int* in, int*, int no, int* out, int*) {
  Call C("MPI_Dist_graph_neighbors", false); COMM(h)
  if (c->gin.empty()) return raise(c, MPI_ERR_TOPOLOGY, "no graph");
  int k = c->rank_of(myr());
  for (int i = 0; i < ni && i < (int) c->gin[k].size(); ++i) in[i] = c->gin[k][i];
  for (int i = 0; i < no && i < (int) c->gout[k].size(); ++i) out[i] = c->gout[k][i];
  return 0;
}
static int nb_allgather(Call& C, Comm* c, const void* s, int sn, MPI_Datatype sd, void* r, const int* rn, int n1, const int* dis, MPI_Datatype rd, MPI_Request* q = nullptr) {
  Type *st = type_of(sd), *rt = type_of(rd);
  std::vector<int> n, d;
  if (rn && !(c->dims.empty() && c->gin.empty())) { size_t m = in_neighbours(c, c->rank_of(myr())).size(); n.assign(rn, rn + m); d.assign(dis, dis + m); }
  return neighbour_impl(C, c, [=](int) { return pack(s, sn, st); }, [=](int i, const std::string& x) {
    int w = n.empty() ? n1 : n[i];
    if (x.size() != (size_t) w * rt->size) return raise(c, MPI_ERR_TRUNCATE, "neighbourhood collective: sizes differ");
    unpack(x, (char*) r + (i64) (n.empty() ? i * n1 : d[i]) * rt->extent, w, rt);
    return 0;
  }, q);
}
static int nb_alltoall(Call& C, Comm* c, const void* s, const int* sn, int sn1, const int* sdis, MPI_Datatype sd, void* r, const int* rn, int rn1, const int* rdis, MPI_Datatype rd, MPI_Request* q = nullptr) {
  Type *st = type_of(sd), *rt = type_of(rd);
  std::vector<int> n, d;
  if (rn && !(c->dims.empty() && c->gin.empty())) { size_t m = in_neighbours(c, c->rank_of(myr())).size(); n.assign(rn, rn + m); d.assign(rdis, rdis + m); }
  return neighbour_impl(C, c, [=](int i) { return pack((const char*) s + (i64) (sn ? sdis[i] : i * sn1) * st->extent, sn ? sn[i] : sn1, st); }, [=](int i, const std::string& x) {
    int w = n.empty() ? rn1 : n[i];
    if (x.size() != (size_t) w * rt->size) return raise(c, MPI_ERR_TRUNCATE, "neighbourhood collective: sizes differ");
    unpack(x, (char*) r + (i64) (n.empty() ? i * rn1 : d[i]) * rt->extent, w, rt);
    return 0;
  }, q);
}
int MPI_Neighbor_allgather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Neighbor_allgather"); COMM(h) INJ(c) return nb_allgather(C, c, s, sn, sd, r, nullptr, rn, nullptr, rd); }
int MPI_Neighbor_allgatherv(const void* s, int sn, MPI_Datatype sd, void* r, const int* rn, const int* dis, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Neighbor_allgatherv"); COMM(h) INJ(c) return nb_allgather(C, c, s, sn, sd, r, rn, 0, dis, rd); }
int MPI_Neighbor_alltoall(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Neighbor_alltoall"); COMM(h) INJ(c) return nb_alltoall(C, c, s, nullptr, sn, nullptr, sd, r, nullptr, rn, nullptr, rd); }
int MPI_Neighbor_alltoallv(const void* s, const int* sn, const int* sdis, MPI_Datatype sd, void* r, const int* rn, const int* rdis, MPI_Datatype rd, MPI_Comm h) { Call C("MPI_Neighbor_alltoallv"); COMM(h) INJ(c) return nb_alltoall(C, c, s, sn, 0, sdis, sd, r, rn, 0, rdis, rd); }
int MPI_Ineighbor_allgather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h, MPI_Request* q) { Call C("MPI_Ineighbor_allgather"); COMM(h) INJ(c) return nb_allgather(C, c, s, sn, sd, r, nullptr, rn, nullptr, rd, q); }
int MPI_Ineighbor_allgatherv(const void* s, int sn, MPI_Datatype sd, void* r, const int* rn, const int* dis, MPI_Datatype rd, MPI_Comm h, MPI_Request* q) { Call C("MPI_Ineighbor_allgatherv"); COMM(h) INJ(c) return nb_allgather(C, c, s, sn, sd, r, rn, 0, dis, rd, q); }
int MPI_Ineighbor_alltoall(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm h, MPI_Request* q) { Call C("MPI_Ineighbor_alltoall"); COMM(h) INJ(c) return nb_alltoall(C, c, s, nullptr, sn, nullptr, sd, r, nullptr, rn, nullptr, rd, q); }
int MPI_Ineighbor_alltoallv(const void* s, const int* sn, const int* sdis, MPI_Datatype sd, void* r, const int* rn, const int* rdis, MPI_Datatype rd, MPI_Comm h, MPI_Request* q) { Call C("MPI_Ineighbor_alltoallv"); COMM(h) INJ(c) return nb_alltoall(C, c, s, sn, 0, sdis, sd, r, rn, 0, rdis, rd, q); }
// packed messages: no conversion, no header
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int* size) { *size = (int) (n * type_of(d)->size); return 0; }
int MPI_Pack(const void* b, int n, MPI_Datatype d, void* out, int room, int* pos, MPI_Comm h) {
  Call C("MPI_Pack", false); COMM(h)
  std::string x = pack(b, n, type_of(d));
  if (*pos + (i64) x.size() > room) return raise(c, MPI_ERR_TRUNCATE, "MPI_Pack: the buffer is full");
  mem_access((char*) out + *pos, x.size(), true);
  memcpy((char*) out + *pos, x.data(), x.size());
  *pos += (int) x.size();
  return 0;
}
int MPI_Unpack(const void* in, int size, int* pos, void* b, int n, MPI_Datatype d, MPI_Comm h) {
  Call C("MPI_Unpack", false); COMM(h)
  Type* t = type_of(d);
  size_t z = (size_t) n * t->size;
  if (*pos + (i64) z > size) return raise(c, MPI_ERR_TRUNCATE, "MPI_Unpack: the buffer is too short");
  mem_access((char*) in + *pos, z, false);
  unpack(std::string((const char*) in + *pos, z), b, n, t);
  *pos += (int) z;
  return 0;
}
int MPI_Comm_get_attr(MPI_Comm h, int key, void* out, int* flag) {
  Call C("MPI_Comm_get_attr", false); COMM(h)
  static int tag_ub = 0x7fffffff, no = 0, universe, proc_null = MPI_PROC_NULL;
  universe = g_job->spec.np;
  *flag = 1;
  if (key == MPI_TAG_UB) *(int**) out = &tag_ub;
  else if (key == MPI_WTIME_IS_GLOBAL) *(int**) out = &no;
  else if (key == MPI_UNIVERSE_SIZE) *(int**) out = &universe;
  else if (key == MPI_HOST) *(int**) out = &proc_null;
  else *flag = 0;
  return 0;
}
int MPI_Attr_get(MPI_Comm h, int key, void* out, int* flag) { return MPI_Comm_get_attr(h, key, out, flag); }
int MPI_Win_allocate_shared(MPI_Aint size, int unit, MPI_Info i, MPI_Comm h, void* bp, MPI_Win* out) { return MPI_Win_allocate(size, unit, i, h, bp, out); }
int MPI_Win_shared_query(MPI_Win h, int r, MPI_Aint* size, int* unit, void* bp) {
  Call C("MPI_Win_shared_query", false);
  Win* w = win_of(h);
  if (!w) return raise((Comm*) nullptr, MPI_ERR_WIN, "bad window");
  if (r == MPI_PROC_NULL) r = 0;
  *size = w->r[r].size;
  *unit = w->r[r].unit;
  *(void**) bp = w->r[r].base;
  return 0;
}
int MPI_Type_get_true_extent(MPI_Datatype d, MPI_Aint* lb, MPI_Aint* ex) { return MPI_Type_get_extent(d, lb, ex); }
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype d, int* n) { return MPI_Get_count(s, d, n); }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return 0; }
int MPI_Comm_call_errhandler(MPI_Comm h, int code) { Call C("MPI_Comm_call_errhandler", false); COMM(h) return raise(c, code, "MPI_Comm_call_errhandler"), 0; }
int MPI_Comm_set_info(MPI_Comm, MPI_Info) { return 0; }
int MPI_Win_set_info(MPI_Win, MPI_Info) { return 0; }
}

// hooks for harness programs running inside a rank
EXPORT void sim_obs(const char* s) {
  SimScope sc;
  g_cur->proc->obs.push_back(s);
}
EXPORT const char* sim_script() { return g_script.c_str(); }
EXPORT void sim_pause() {  // lets a harness program drift
  Call C("sim_pause", true, false);
}
EXPORT const char* sim_err_take() {   // what this rank printed to standard error since the last call
  SimScope sc;
  Proc* p = g_cur->proc;
  static std::string s;
  fflush(stderr);
  s = p->err;
  p->err.clear();
  return s.c_str();
}
EXPORT void sim_out_clear() { SimScope sc; g_cur->proc->out.clear(); }
EXPORT int sim_resources(int which) { SimScope sc; int n = 0; if (which == 0) { for (auto w : W.wins) n += !w->freed; } else for (auto& m : W.mem) n += m.second.first == myr(); return n; }
