// Runner: seeded search over simulated runs, minimisation, replay, evidence.
#include "core.h"
#include <algorithm>
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>

namespace sim { void install_handlers(); }
using namespace sim;

static double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
template <class T> static T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*) p;
}

struct Outcome {
  int status = 0;
  std::string cls, msg, sample, cfgs;
  Cfg cfg;
  std::vector<std::pair<u32, u32>> trace;
  u64 hash = 0, sched = 0;
};

static void parse_cfg(const std::string& s, Cfg& c) {
  std::istringstream is(s);
  std::string w;
  while (is >> w) {
    size_t e = w.find('=');
    if (e != std::string::npos) c.v[w.substr(0, e)] = atoll(w.c_str() + e + 1);
  }
}

// Code that spins without reaching any instrumented block (a loop reduced to a jump onto itself) is found by the processor time
// it burns without a step, a context switch or a system call of the simulator.
static u64 g_spin_steps, g_spin_sw;
static int g_spins;
static void on_vtalrm(int) {
  if (!g_res) return;
  u64 st = g_steps, sw = g_res->ctr[CT_SWITCHES];
  if (st != g_spin_steps || sw != g_spin_sw || !g_user) { g_spin_steps = st; g_spin_sw = sw; g_spins = 0; return; }
  if (++g_spins < 6) return;
  g_res->hash = 2;
  g_res->sched = 2;
  strcpy((char*) g_res->cls, "endless loop");
  strcpy((char*) g_res->msg, "the program burns processor time without making any progress");
  g_res->status = 2;
  syscall(SYS_exit_group, 0);
}
static void watch_spinning() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_vtalrm;
  sa.sa_flags = SA_RESTART | SA_ONSTACK;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// One simulated run in a child of its own.
static Outcome run_once(const Scenario& sc, u64 seed, const Cfg* cfg, const std::vector<std::pair<u32, u32>>* trace, Result* res,
                        int wall_limit = 100) {
  memset((void*) res, 0, offsetof(Result, trace));
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    alarm(wall_limit);
    g_res = res;
    Cfg c;
    if (cfg) c = *cfg;
    else {
      Rng r(mix(seed, 0xC0FF));
      for (int k = 0;; ++k) {
        c = Cfg();
        sc.draw(r, c);
        if (!sc.valid || sc.valid(c)) break;
        if (k > 10000) harness_error("no valid configuration for " + sc.name);
      }
    }
    snprintf(res->cfg, sizeof res->cfg, "%s", c.str().c_str());
    Choices ch;
    ch.rng = Rng(mix(seed, 0xD1CE));
    if (trace) {
      ch.replay = true;
      for (auto& t : *trace) ch.given[t.first] = t.second;
    }
    g_choices = &ch;
    static const int fills[4] = {0xFB, 0xFB, 0x00, 0x7C};
    g_fill = c.v.count("fill") ? fills[c.get("fill") & 3] : 0xFB;
    if (g_fill) count(CT_POISON);
    install_handlers();
    watch_spinning();
    int st = 1;
    std::string cls, msg;
    try {
      sc.run(c);
    } catch (Violation& v) {
      st = 2;
      cls = v.cls;
      msg = v.msg;
    }
    res->hash = g_hash;
    res->sched = g_sched;
    res->nchoices = ch.n;
    snprintf(res->cls, sizeof res->cls, "%s", cls.c_str());
    snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
    res->status = st;
    _Exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.status = res->status;
  o.cls = res->cls;
  o.msg = res->msg;
  o.sample = res->sample;
  o.cfgs = res->cfg;
  parse_cfg(res->cfg, o.cfg);
  o.hash = res->hash;
  o.sched = res->sched;
  for (u32 i = 0; i < res->ntrace; ++i) o.trace.push_back({res->trace[i].i, res->trace[i].v});
  if (o.status == 0 && WIFSIGNALED(ws) && WTERMSIG(ws) != SIGALRM && WTERMSIG(ws) != SIGKILL) {
    // the code under test destroyed its own process
    o.status = 2;
    o.cls = "process destroyed";
    o.msg = fmt("the simulated process was destroyed by signal %d", WTERMSIG(ws));
    o.hash = 1;
  } else if (o.status == 0) {
    o.status = 3;
    o.msg = fmt("simulated run died (wait status %d%s)", ws, WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM ? ", wall-clock watchdog" : "");
  }
  return o;
}

static const Scenario* pick(const std::vector<const Scenario*>& s, u64 seed) {
  int w = 0;
  for (auto x : s) w += x->weight;
  i64 k = (i64) Rng(mix(seed, 0x5CE4)).below(w);
  for (auto x : s) { k -= x->weight; if (k < 0) return x; }
  return s[0];
}

static std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
    else r += (char) c;
  }
  return r + "\"";
}

static void write_replay(const std::string& path, const Scenario& sc, u64 seed, const Outcome& o) {
  std::ofstream f(path);
  f << "vsim-replay 1\nproperty " << sc.prop << "\nscenario " << sc.name << "\nseed " << seed << "\nclass " << o.cls << "\nhash "
    << std::hex << o.hash << std::dec << "\ncfg " << o.cfgs << "\ntrace";
  for (auto& t : o.trace) f << ' ' << t.first << ':' << t.second;
  f << "\nmessage " << o.msg << "\nsample " << o.sample << "\n";
}

static Outcome minimise(const Scenario& sc, u64 seed, Outcome best, Result* res, double budget, int& tried) {
  double end = now_s() + budget;
  auto attempt = [&](const Cfg& c, const std::vector<std::pair<u32, u32>>& t) {
    if (now_s() > end) return false;
    if (sc.valid && !sc.valid(c)) return false;
    ++tried;
    Outcome o = run_once(sc, seed, &c, &t, res);
    if (o.status == 2 && o.cls == best.cls) { best = o; return true; }
    return false;
  };
  auto shrink_trace = [&]() {
    bool any = false;
    if (best.trace.empty()) return false;
    if (attempt(best.cfg, {})) return true;
    size_t n = 2;
    while (best.trace.size() >= 1 && now_s() < end) {
      size_t len = best.trace.size(), chunk = (len + n - 1) / n;
      bool cut = false;
      for (size_t a = 0; a < len && !cut; a += chunk) {
        std::vector<std::pair<u32, u32>> t;
        for (size_t i = 0; i < len; ++i) if (i < a || i >= a + chunk) t.push_back(best.trace[i]);
        if (t.size() < len && attempt(best.cfg, t) ) { cut = any = true; }
      }
      if (cut) { n = std::max<size_t>(2, n - 1); if (best.trace.size() < 2) break; }
      else { if (chunk <= 1) break; n = std::min(len, n * 2); }
    }
    return any;
  };
  auto shrink_cfg = [&]() {
    bool any = false;
    std::vector<std::string> keys;
    for (auto& kv : best.cfg.v) keys.push_back(kv.first);
    for (auto& k : keys) {
      for (int rep = 0; rep < 6 && now_s() < end; ++rep) {
        i64 v = best.cfg.get(k);
        bool ok = false;
        for (i64 c : {(i64) 0, (i64) 1, (i64) 2, v / 2, v - 1}) {
          if (c >= v || c < 0) continue;
          Cfg n = best.cfg;
          n.set(k, c);
          if (attempt(n, best.trace)) { ok = any = true; break; }
        }
        if (!ok) break;
      }
    }
    return any;
  };
  for (int round = 0; round < 6 && now_s() < end; ++round) {
    bool a = shrink_trace();
    bool b = shrink_cfg();
    if (!a && !b) break;
  }
  return best;
}

struct Shared {
  std::atomic<int> nknown;
  char knownmsg[1600];
  std::atomic<i64> runs, held, viol_idx, dup_checked, known, stop;
  std::atomic<int> harness;
  char hmsg[3200];
  char vwhat[64][1600];          // the last violation each worker saw
  u64 ctr[CT_N];
  std::atomic<int> lock;
  double simtime;
  int nsamples;
  char samples[8][1800];
  char scen_names[32][64];
  i64 scen_runs[32];
};

int main(int argc, char** argv) {
  if (!getenv("VSIM_NOREEXEC")) {
    setenv("VSIM_NOREEXEC", "1", 1);
    unsetenv("OMP_NUM_THREADS");
    for (const char* v : {"GFORTRAN_UNBUFFERED_ALL", "GFORTRAN_UNBUFFERED_PRECONNECTED", "GFORTRAN_FORMATTED_BUFFER_SIZE", "GFORTRAN_STDOUT_UNIT"}) unsetenv(v);
    setenv("GFORTRAN_ERROR_BACKTRACE", "0", 1);
    if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  std::string file;
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i];
    else file = s;
  }
  g_libdir = a.count("libdir") ? a["libdir"] : ".";
  auto num = [&](const char* k, i64 d) { return a.count(k) ? atoll(a[k].c_str()) : d; };
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  Result* res0 = shared<Result>();
  if (mode == "list") {
    for (auto& s : scenarios()) printf("%s %s\n", s.prop.c_str(), s.name.c_str());
    return 0;
  }
  if (mode == "replay") {
    std::ifstream f(file);
    std::string line, prop, scen, hash, cls;
    u64 seed = 0;
    Cfg cfg;
    std::vector<std::pair<u32, u32>> tr;
    while (std::getline(f, line)) {
      size_t sp = line.find(' ');
      std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
      if (k == "property") prop = v;
      else if (k == "scenario") scen = v;
      else if (k == "seed") seed = strtoull(v.c_str(), nullptr, 10);
      else if (k == "class") cls = v;
      else if (k == "hash") hash = v;
      else if (k == "cfg") parse_cfg(v, cfg);
      else if (k == "trace") {
        std::istringstream is(v);
        u32 i, x;
        char c;
        while (is >> i >> c >> x) tr.push_back({i, x});
      }
    }
    for (auto& s : scenarios())
      if (s.prop == prop && s.name == scen) {
        for (auto& l : s.libs) lib_preload(l.first, l.second);
        Outcome o = run_once(s, seed, &cfg, &tr, res0);
        std::string h = fmt("%llx", (unsigned long long) o.hash);
        printf("replay property=%s scenario=%s status=%d class=%s hash=%s recorded=%s\n%s\n%s\n", prop.c_str(), scen.c_str(), o.status,
               o.cls.c_str(), h.c_str(), hash.c_str(), o.msg.c_str(), o.sample.c_str());
        if (o.status == 2 && o.cls == cls && h == hash) { printf("REPRODUCED exactly\n"); return 1; }
        if (o.status == 2) { printf("REPRODUCED a violation, but not bit for bit\n"); return 1; }
        if (o.status == 3) return 2;
        printf("property held\n");
        return 0;
      }
    fprintf(stderr, "HARNESS: unknown scenario\n");
    return 2;
  }
  if (mode != "run") { fprintf(stderr, "usage: vsim run|replay|list\n"); return 2; }

  std::string prop = a["prop"];
  u64 seed0 = (u64) num("seed", 1);
  i64 runs = num("runs", 100);
  int W = (int) num("workers", 8);
  double maxtime = (double) num("maxtime", 600);
  std::vector<const Scenario*> sc;
  for (auto& s : scenarios())
    if (s.prop == prop && (!a.count("scenario") || a["scenario"] == s.name)) {
      bool have = true;
      for (auto& l : s.libs) if (!lib_have(l.first)) { have = false; fprintf(stderr, "scenario %s left out: no library %s\n", s.name.c_str(), l.first.c_str()); }
      if (have) sc.push_back(&s);
    }
  if (sc.empty()) {
    fprintf(stderr, "no scenario for %s\n", prop.c_str());
    if (a.count("json")) std::ofstream(a["json"]) << "{\"runs\":0}\n";
    return 0;
  }
  for (auto s : sc) for (auto& l : s->libs) lib_preload(l.first, l.second);

  // known findings: "class;key=value;key=value"
  std::vector<std::pair<std::string, std::vector<std::pair<std::string, i64>>>> known;
  if (a.count("known")) {
    std::ifstream kf(a["known"]);
    std::string line;
    while (std::getline(kf, line)) {
      std::istringstream is(line);
      std::string tok, cls;
      std::vector<std::pair<std::string, i64>> kv;
      std::getline(is, cls, ';');
      while (std::getline(is, tok, ';')) {
        size_t e = tok.find('=');
        if (e != std::string::npos) kv.push_back({tok.substr(0, e), atoll(tok.c_str() + e + 1)});
      }
      if (!cls.empty()) known.push_back({cls, kv});
    }
  }
  auto is_known = [&](const Outcome& o) {
    for (auto& k : known) {
      if (k.first != o.cls) continue;
      bool all = true;
      for (auto& kv : k.second) if (o.cfg.get(kv.first, -999999) != kv.second) all = false;
      if (all) return true;
    }
    return false;
  };

  Shared* sh = shared<Shared>();
  new (sh) Shared();
  u64* H = shared<u64>(runs + 1);
  u64* S = shared<u64>(runs + 1);
  double t0 = now_s(), search = 0;
  int rc = 0;
  std::string replay, vmsg;
  int tried = 0;
  i64 start = 0;
  for (int attempt = 0; attempt < 6; ++attempt) {
    sh->viol_idx = runs;
    double ts = now_s();
    std::vector<pid_t> kids;
    for (int w = 0; w < W; ++w) {
      pid_t p = fork();
      if (p == 0) {
        Result* r = shared<Result>();
        for (i64 i = start + w; i < runs; i += W) {
          if (i > sh->viol_idx.load() || sh->harness.load() > 20) break;
          if (search + now_s() - ts > maxtime) { sh->stop = 1; break; }
          u64 seed = mix(seed0, (u64) i);
          const Scenario* s = pick(sc, seed);
          Outcome o = run_once(*s, seed, nullptr, nullptr, r);
          if (o.status != 3 && (i - start - w) / W % 10 == 0) {  // the same seed must give the same execution
            Result* r2 = shared<Result>();
            Outcome o2 = run_once(*s, seed, nullptr, nullptr, r2);
            munmap(r2, sizeof(Result));
            if (o2.hash != o.hash || o2.status != o.status) {
              o.status = 3;
              o.msg = fmt("run is not repeatable: scenario %s seed %llu hash %llx/%llx status %d/%d cfg %s", s->name.c_str(),
                          (unsigned long long) seed, (unsigned long long) o.hash, (unsigned long long) o2.hash, o.status, o2.status, o.cfgs.c_str());
            }
            sh->dup_checked++;
          }
          sh->runs++;
          if (o.status == 3) {
            if (sh->harness.fetch_add(1) == 0)
              snprintf(sh->hmsg, sizeof sh->hmsg, "scenario %s seed %llu index %lld: %s\ncfg %s", s->name.c_str(), (unsigned long long) seed,
                       (long long) i, o.msg.c_str(), o.cfgs.c_str());
            continue;
          }
          H[i] = o.hash ? o.hash : 1;
          S[i] = o.sched ? mix(o.sched, std::hash<std::string>()(s->name)) : 1;
          while (sh->lock.exchange(1)) usleep(10);
          for (int c = 0; c < CT_N; ++c) sh->ctr[c] += r->ctr[c];
          sh->simtime += r->simtime;
          for (int k = 0; k < 32; ++k) {
            if (!sh->scen_names[k][0]) snprintf(sh->scen_names[k], 64, "%s", s->name.c_str());
            if (s->name == sh->scen_names[k]) { sh->scen_runs[k]++; break; }
          }
          if (sh->nsamples < 4 && i < 40 && !o.sample.empty()) {
            snprintf(sh->samples[sh->nsamples++], 1800, "seed %llu scenario %s: %s", (unsigned long long) seed, s->name.c_str(), o.sample.c_str());
          }
          sh->lock = 0;
          if (o.status == 1) sh->held++;
          else if (is_known(o)) {
            sh->known++;
            if (sh->nknown.fetch_add(1) == 0) snprintf(sh->knownmsg, sizeof sh->knownmsg, "[%s] %s (%s)", o.cls.c_str(), o.msg.c_str(), o.cfgs.c_str());
          } else {
            snprintf(sh->vwhat[w % 64], sizeof sh->vwhat[0], "%s: %s (%s)", o.cls.c_str(), o.msg.c_str(), o.cfgs.c_str());
            i64 cur = sh->viol_idx.load();
            while (i < cur && !sh->viol_idx.compare_exchange_weak(cur, i)) {}
          }
        }
        _Exit(0);
      }
      kids.push_back(p);
    }
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
    search += now_s() - ts;
    if (sh->viol_idx.load() >= runs) break;

    i64 i = sh->viol_idx.load(), lo = start;
    start = i + 1;
    u64 seed = mix(seed0, (u64) i);
    const Scenario* s = pick(sc, seed);
    Outcome o = run_once(*s, seed, nullptr, nullptr, res0);
    if (o.status != 2) {
      if (sh->harness.fetch_add(1) == 0) snprintf(sh->hmsg, sizeof sh->hmsg, "violation of seed %llu did not come back: %.1200s", (unsigned long long) seed, sh->vwhat[(i - lo) % W % 64]);
      continue;
    }
    Outcome first = o;
    o = minimise(*s, seed, o, res0, (double) num("mintime", 25), tried);
    std::string dir = a.count("replay-dir") ? a["replay-dir"] : ".";
    mkdir(dir.c_str(), 0755);
    std::string file = dir + "/" + prop + "-" + std::to_string(seed) + ".replay";
    write_replay(file, *s, seed, o);
    // the file must give exactly the same execution in a fresh process
    std::string cmd = "exec '" + std::string(argv[0]) + "' replay '" + file + "' --libdir '" + g_libdir + "' >/dev/null 2>&1";
    unsetenv("VSIM_NOREEXEC");
    int st = system(cmd.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
      // fall back to the unminimised run before giving up
      write_replay(file, *s, seed, first);
      st = system(cmd.c_str());
      o = first;
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
      if (sh->harness.fetch_add(1) == 0) snprintf(sh->hmsg, sizeof sh->hmsg, "replay of %s does not reproduce", file.c_str());
      unlink(file.c_str());
      continue;
    }
    rc = 1;
    replay = file;
    vmsg = o.msg;
    printf("violated: [%s] scenario %s seed %llu\n  %s\n  cfg: %s\n  choices: %zu non-default (before minimising %zu, %d runs tried)\n  %s\n",
           o.cls.c_str(), s->name.c_str(), (unsigned long long) seed, o.msg.c_str(), o.cfgs.c_str(), o.trace.size(), first.trace.size(), tried,
           o.sample.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
    break;
  }
  if (!rc && sh->harness.load()) {
    fprintf(stderr, "HARNESS: %s\n", sh->hmsg);
    rc = 2;
  }
  if (sh->nknown.load()) printf("known finding: %s\n", sh->knownmsg);
  double t1 = t0 + search;
  std::set<u64> dh(H, H + runs), ds(S, S + runs);
  dh.erase(0);
  ds.erase(0);
  ds.erase(1);
  if (a.count("json")) {
    std::ofstream f(a["json"]);
    double wall = t1 - t0;
    f << "{\"runs\":" << sh->runs.load() << ",\"held\":" << sh->held.load() << ",\"known\":" << sh->known.load()
      << ",\"violations\":" << (rc == 1 ? 1 : 0) << ",\"distinct_executions\":" << dh.size() << ",\"distinct_schedules\":" << ds.size()
      << ",\"repeat_checked\":" << sh->dup_checked.load() << ",\"search_wall_s\":" << wall
      << ",\"runs_per_hour\":" << (wall > 0 ? (i64) (sh->runs.load() / wall * 3600) : 0) << ",\"simulated_seconds\":" << sh->simtime
      << ",\"stopped_by_time\":" << (sh->stop.load() ? "true" : "false") << ",\"counters\":{";
    bool first = true;
    for (int c = 0; c < CT_N; ++c)
      if (sh->ctr[c]) { f << (first ? "" : ",") << "\"" << counter_names[c] << "\":" << sh->ctr[c]; first = false; }
    f << "},\"scenario_runs\":{";
    first = true;
    for (int k = 0; k < 32 && sh->scen_names[k][0]; ++k) { f << (first ? "" : ",") << json_str(sh->scen_names[k]) << ":" << sh->scen_runs[k]; first = false; }
    f << "},\"samples\":[";
    for (int k = 0; k < sh->nsamples; ++k) f << (k ? "," : "") << json_str(sh->samples[k]);
    f << "],\"replay\":" << json_str(replay) << ",\"message\":" << json_str(vmsg) << "}\n";
  }
  return rc;
}
