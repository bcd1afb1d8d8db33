// Simulated OpenMP process: what the property scenarios see.
#ifndef SIM_OMPRUN_H
#define SIM_OMPRUN_H
#include "core.h"
namespace sim {
struct OmpSpec {
  std::string lib;
  int copy = 0;
  std::vector<std::string> args;
  int threads = 1;         // OMP_NUM_THREADS
  int avail = 1000;        // threads really available to a team
  int procs = 0;           // processors reported, 0: as many as threads are available
  bool limit = false;      // fewer threads because of a limit, rather than of a dynamic adjustment
  int rtsched = 0;         // schedule(runtime): 0 static 1 dynamic 2 guided
  int devteams = 0;        // teams/gangs on the device, 0: as many as asked for
  int devthreads = 0;
  double p_pre = 0;        // preemption before an instrumented memory access
  double p_hot = 0;        // same, at accesses already seen to conflict
  double p_pick = 0.5;     // non-default choice when a thread blocks or ends
  bool sepmem = true;      // device has its own memory
  int ndev = 1;            // devices, 0: everything runs on the host
  void (*entry)(void*) = nullptr;   // instead of main
  void* entry_arg = nullptr;
};
struct OmpRun {
  Proc* proc = nullptr;
  bool deadlock = false;
  std::string error;       // runtime misuse (unknown mapping, ...)
  std::string heap;
  int maxteam = 0;
  std::vector<int> teams;  // sizes of the teams formed, in order
  u64 races = 0;           // conflicting unsynchronised accesses seen (only used to steer the search)
};
extern OmpRun* g_omprun;
OmpRun* run_omp(const OmpSpec& s);
void ompspec_draw(Rng& r, Cfg& c);
void ompspec_apply(const Cfg& c, OmpSpec& s);
// used by the device simulation
struct OThread;
struct Team;
void omp_block(const char* what, std::function<bool()> cond);
void omp_preempt(double p);
void omp_run_league(int n, std::function<void(int)> body, bool host = false);   // n concurrent initial threads, returns when all are done
int omp_spec_threads();
extern OmpSpec g_ompspec;
void omp_spawn(std::function<void()> body);                   // another thread of the host
bool omp_on_host_stack(u64 a);
void dev_reset();
void dev_wait_all();
extern int g_dev_on;           // a device with separate memory is in use
void dev_access(const void* p, bool w);
}
#endif
