// Simulated MPI job: what the property scenarios see.
#ifndef SIM_JOB_H
#define SIM_JOB_H
#include "core.h"
namespace sim {

const int NCOPY = 72;           // loadable copies of every MPI program (static data is per copy)

struct MpiEv {
  int rank;
  const char* op;
  u64 t0, t1;        // global simulated time (ns) at entry and at return
  i64 a = 0;         // op-specific (reduction op, window number, ...)
  double wt = 0;     // value returned by MPI_Wtime
  bool ret = false;  // returned
};

struct JobSpec {
  std::string lib;
  int np = 1;
  std::vector<std::string> args;
  double p_jit = 0.3;          // probability of a random delay per MPI call
  int rma = 2;                 // 0 eager, 1 lazy, 2 random
  double p_split = 0.3;
  double p_weak = 0.5;         // NOPRECEDE fence does not synchronise / collectives return early
  double p_reorder = 0.5;      // reduction order
  double p_stall = 0.02;
  int slow = -1;               // slow rank
  u64 slow_ns = 0;
  bool skew = false;           // clock offsets and rates
  bool drift = false;
  u64 skewseed = 0;
  bool scribble = false;       // destination of a pending get holds garbage until delivery
  int ompthr = 1;              // OMP_NUM_THREADS of every rank
  int nodes = 1;               // nodes the ranks are spread over
  bool cyclic = false;         // ranks dealt out to the nodes one by one
  int place = 0;               // ranks of a Cartesian communicator that may be reordered: 0 as before, 1 reversed, 2 rotated
  int node_of(int r) const { int n = std::max(1, std::min(nodes, np)); return cyclic ? r % n : (int) ((i64) r * n / np); }
  // faults
  int fault_rank = -1;
  int fault_kind = 0;          // 1 crash at call, 2 MPI error at call, 3 allocation failure, 4 MPI_Alloc_mem failure
  u64 fault_at = 0;
  u64 fault_min = 0;           // allocation failure: count only blocks of this size and above
  bool fault_on = false;       // and let all later ones fail, too
  u64 fault_len = 1;           // number of calls in a row that fail (MPI errors)
  int fault_name = 0;          // > 0: fault_at counts the calls of the n-th kind of call the rank makes, so that rare calls are struck as often as common ones
  bool fault_wide = false;     // the call fails on every rank (MPI errors)
};

struct Job {
  JobSpec spec;
  std::vector<Proc*> procs;
  std::vector<MpiEv> log;
  std::vector<int> finalized;           // per rank: number of MPI_Finalize calls completed
  std::vector<int> inited;
  bool deadlock = false;
  bool fault_hit = false;
  std::string error;                    // first MPI usage error
  std::string blocked;                  // description of the blocked ranks on deadlock
  std::string heap;                     // damaged heap block
  int live_windows = 0, live_mem = 0;
  u64 end_time = 0;
  bool exit_ok() const;                 // the launcher would report success
  bool ok() const;                      // and no MPI misuse or memory damage was seen
  std::string status() const;
};
Job* run_job(const JobSpec& s);
void jobspec_draw(Rng& r, Cfg& c);                 // timing part of a job, into the configuration
void jobspec_apply(const Cfg& c, JobSpec& s);
extern Job* g_job;
extern std::string g_script;                       // for harness programs
}  // namespace sim
#endif
