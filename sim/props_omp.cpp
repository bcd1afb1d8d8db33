// Scenarios for the threaded programs: C09, C10, C12, C13 and the threaded part of C06.
#include "omprun.h"
#include "ref.h"
namespace sim {
void ioplan_draw(Rng& r, Cfg& c, i64 size);
void ioplan_apply(const Cfg& c);

enum { CXX = 1, FTN = 2 };
struct OProg {
  const char* lib;
  const char* what;
  int kind;
  bool banner;       // prints the thread banner
  const char* f0;    // file with the initial field
  const char* f1;    // file with the final field
  int dev = 0;       // accelerator program: 1 memory of the device is separate or shared, 2 always shared ("managed")
  bool nostd = false;
};
static const OProg PROGS[] = {
  {"upwindcxx", "upwind.cxx", CXX, true, "up0.vtk", "up1.vtk"},
  {"upwindtasks", "upwindOMPTasks.cxx", CXX, true, "up0.vtk", "up1.vtk"},
  {"upwindf90", "upwind.F90", FTN, true, nullptr, "up.vtk"},
  {"upwindf03", "upwindF03.F90", FTN, true, nullptr, "up.vtk"},
  {"upwindf08", "upwindF08.F90", FTN, false, nullptr, "up.vtk"},
  {"upwindf08gpu", "upwindF08Gpu.F90", FTN, true, nullptr, "up.vtk"},
  {"upwindacc", "upwindAcc.cxx", CXX, false, nullptr, "up.vtk", 1, true},
  {"upwindacc2", "upwindAcc2.cxx", CXX, false, nullptr, "up.vtk", 1},
  {"upwindomp5", "upwindOMP5.cxx", CXX, false, nullptr, "up.vtk", 1},
  {"upwindgpuomp", "upwindF08Gpu.F90 (OpenMP offload)", FTN, true, nullptr, "up.vtk", 1},
  {"upwindgpuacc", "upwindF08Gpu.F90 (OpenACC parallel)", FTN, false, nullptr, "up.vtk", 1},
  {"upwindgpuker", "upwindF08Gpu.F90 (OpenACC kernels)", FTN, false, nullptr, "up.vtk", 1},
  {"upwindf90acc", "upwind.F90 (OpenACC)", FTN, false, nullptr, "up.vtk", 2},
};
typedef std::vector<int> Set;

// "plain": the program compiled without optimisation, where a variable that is shared by mistake is not kept in a register
static std::vector<std::pair<std::string, int>> libs_of(const Set& s, bool plain = false) {
  std::vector<std::pair<std::string, int>> r;
  for (int i : s) r.push_back({std::string(PROGS[i].lib) + (plain ? "_o0" : ""), 1});
  return r;
}
static void thr_draw(Rng& r, Cfg& c) {
  static const int nice[] = {1, 2, 2, 2, 3, 3, 4, 4, 5, 7, 8, 8, 12, 16, 31, 64};
  c.set("thr", r.chance(0.85) ? nice[r.below(16)] : r.range(1, 64));
  c.set("avail", r.chance(0.75) ? 1000 : r.range(1, 8));
  ompspec_draw(r, c);
}
static void up_draw(Rng& r, Cfg& c, int nprog) {
  c.set("prog", r.range(0, nprog - 1));
  c.set("n", r.chance(0.1) ? 1 : r.range(2, 7));
  c.set("steps", r.chance(0.08) ? 0 : r.range(1, c.get("n") > 5 ? 4 : 8));
  if (r.chance(0.03)) {      // now and then something larger or longer
    if (r.chance(0.05)) { c.set("n", r.range(r.chance(0.5) ? 21 : 41, 48)); c.set("steps", 1); }
    else if (r.chance(0.5)) { c.set("n", r.range(8, 20)); c.set("steps", r.range(1, 2)); }
    else { c.set("n", r.range(1, 3)); c.set("steps", r.chance(0.3) ? 10 : r.range(9, 40)); if (r.chance(0.1)) { c.set("n", r.range(1, 2)); c.set("steps", r.chance(0.5) ? 100 : r.range(100, 300)); } }
  }
  c.set("vtk", r.chance(0.85));
  c.set("std", r.chance(0.6));
  c.set("stale", r.chance(0.15));
  c.set("style", r.chance(0.3) ? r.range(1, 9999) : 0);
  if (r.chance(0.003)) { c.set("n", r.range(1, 3)); c.set("steps", r.chance(0.7) ? 100 : 10); c.set("vtk", r.chance(0.2)); c.set("style", r.range(1, 9999)); }      // numbers of steps that may be left out
  thr_draw(r, c);
}
static bool up_valid(const Cfg& c) { return c.get("n") >= 1 && c.get("steps") >= 0 && c.get("thr") >= 1 && c.get("avail") >= 1; }

static OmpRun* launch(const OProg& p, const Cfg& c, std::vector<std::string> args) {
  OmpSpec s;
  s.lib = std::string(p.lib) + (c.get("plain") ? "_o0" : "");
  s.threads = (int) c.get("thr");
  s.avail = (int) c.get("avail");
  ompspec_apply(c, s);
  if (p.dev) {
    s.devteams = (int) c.get("teams");
    s.devthreads = (int) c.get("tthr");
    s.sepmem = p.dev == 1 && !c.get("shared");
    s.ndev = (int) (s.sepmem ? std::max<i64>(1, c.get("ndev", 1)) : c.get("ndev", 1));
  }
  s.args = args;
  io_reset();
  if (c.v.count("io")) ioplan_apply(c);
  if (c.get("stale") && c.get("vtk"))
    for (const char* n : {p.f0, p.f1})
      if (n) {
        std::string t = "# vtk DataFile Version 2.0\nupwind\nASCII\n";
        while (t.size() < 100000) t += "7.25 -3\n";
        io_put(n, t);      // a longer file left behind by an earlier run
      }
  return run_omp(s);
}
static OmpRun* launch_up(const OProg& p, const Cfg& c) {
  std::vector<std::string> a;
  std::string n = std::to_string(c.get("n")), st = std::to_string(c.get("steps"));
  if (p.kind == CXX) {
    std::vector<OptArg> o = {{{"-numCells", n}, false}, {{"-numSteps", st}, c.get("steps") == 10}};
    if (c.get("vtk")) o.push_back({{"-vtk"}, false});
    if (c.get("std") && !p.nostd) o.push_back({{"-std"}, false});
    a = arg_list(o, c.get("style"));
  } else {
    a = {n};
    if (c.get("vtk") || c.get("steps") != 100 || !c.get("style")) a.push_back(st);      // 100 steps are the default
    if (c.get("vtk")) a.push_back("vtk");
  }
  return launch(p, c, a);
}
static void rec(const char* what, const OmpRun* o, const Cfg& c) {
  std::string t;
  for (size_t i = 0; i < o->teams.size() && i < 6; ++i) t += fmt(" %d", o->teams[i]);
  set_sample(fmt("%s, %lld cells per axis, %lld steps, OMP_NUM_THREADS=%lld, teams formed:%s%s; %s; stdout: %s", what, (long long) c.get("n"), (long long) c.get("steps"), (long long) c.get("thr"),
                 t.c_str(), o->teams.size() > 6 ? " ..." : "", end_str(o->proc).c_str(), clip(o->proc->out, 300).c_str()));
}
static void require_ok(const OmpRun* o) {
  if (o->deadlock) violate("threads deadlocked", o->proc->why);
  if (!o->error.empty()) violate("run-time misuse", o->error);
  if (!o->proc->ok()) violate("program failed", end_str(o->proc) + "; stderr: " + clip(o->proc->err));
  if (!o->heap.empty()) violate("memory damaged", o->heap);
}
static double one_number(const std::string& out, const char* key) {
  auto l = lines_with(out, key);
  if (l.size() != 1) violate("printed result", fmt("'%s' was printed %zu times", key, l.size()));
  auto v = numbers_after(l[0], key);
  if (v.empty()) violate("printed result", "'" + l[0] + "'");
  return v[0];
}
std::string check_rect(const std::string& content, const RefUpwind& u) {
  Vtk v = read_vtk(content);
  if (!v.err.empty()) return v.err;
  if (v.kind != "RECTILINEAR_GRID") return "data set is " + v.kind;
  size_t nd = u.box.dims.size();
  Ix nodes(3, 1);
  std::vector<std::vector<double>> xyz(3, std::vector<double>(1, 0.0));
  for (size_t a = 0; a < nd; ++a) {      // the last axis varies fastest, so it comes first
    size_t q = nd < 3 ? 2 - a : nd - 1 - a;
    nodes[q] = u.box.dims[a] + 1;
    xyz[q].clear();
    for (i64 i = 0; i <= u.box.dims[a]; ++i) xyz[q].push_back(u.len[a] * (double) i / (double) u.box.dims[a]);
  }
  if (v.dims != nodes) return fmt("DIMENSIONS are %s instead of %s", ixs(v.dims).c_str(), ixs(nodes).c_str());
  const std::vector<double>* got[3] = {&v.x, &v.y, &v.z};
  static const char* nm[3] = {"X_COORDINATES", "Y_COORDINATES", "Z_COORDINATES"};
  for (int q = 0; q < 3; ++q) {
    std::string e = near_list(*got[q], xyz[q], 1e-12, nm[q]);
    if (!e.empty()) return e;
  }
  return near_list(v.field, u.f, 1e-13, "field");
}
static void check_up(const OProg& p, const Cfg& c, const OmpRun* o, bool prints, bool files) {
  RefUpwind u = upwind_cube(c.get("n"), c.get("steps"));
  const std::string& out = o->proc->out;
  if (prints) {
    double s = one_number(out, "check sum:");
    if (!near(s, u.sum(), 1.1e-5 * std::fabs(u.sum()))) violate("printed result", fmt("check sum is %.9g instead of %.9g", s, u.sum()));
    if (p.kind == CXX && c.get("std") && !p.nostd) {
      s = one_number(out, "std      :");
      if (!near(s, u.std(), 1.1e-5 * std::fabs(u.std()) + 1e-14)) violate("printed result", fmt("spread is %.9g instead of %.9g", s, u.std()));
    }
    s = one_number(out, "number of time steps:");
    if (s != (double) c.get("steps")) violate("printed result", fmt("number of time steps is printed as %g", s));
    for (auto& l : lines_with(out, "number of cells:"))
      for (double x : numbers_after(l, "number of cells:"))
        if (x != (double) c.get("n")) violate("printed result", "'" + l + fmt("', asked for %lld along each axis", (long long) c.get("n")));
  }
  if (files) {
    auto f = io_files();
    for (auto& kv : f)
      if (!c.get("vtk") || (kv.first != p.f1 && (!p.f0 || kv.first != p.f0))) violate("saved file", "unexpected file " + kv.first);
    if (c.get("vtk")) {
      if (!f.count(p.f1)) violate("saved file", fmt("%s was not written", p.f1));
      std::string e = check_rect(f[p.f1], u);
      if (!e.empty()) violate("saved file", fmt("%s: ", p.f1) + e);
      if (p.f0) {
        if (!f.count(p.f0)) violate("saved file", fmt("%s was not written", p.f0));
        e = check_rect(f[p.f0], upwind_cube(c.get("n"), 0));
        if (!e.empty()) violate("saved file", fmt("%s: ", p.f0) + e);
      }
    }
  }
}
static void up_run(const Set& set, const Cfg& c) {
  const OProg& p = PROGS[set[c.get("prog")]];
  OmpRun* o = launch_up(p, c);
  rec(p.what, o, c);
  require_ok(o);
  check_up(p, c, o, true, true);
}
static void plain_draw(Rng& r, Cfg& c) {
  c.set("plain", 1);
  c.set("n", std::min<i64>(c.get("n"), 4));
  c.set("steps", std::min<i64>(c.get("steps"), 3));
}
static Scenario up_scenario(const char* prop, const char* name, int w, const Set& set, bool plain = false) {
  return {prop, name, w, libs_of(set, plain), [=](Rng& r, Cfg& c) { up_draw(r, c, (int) set.size()); if (plain) plain_draw(r, c); }, [=](const Cfg& c) { return up_valid(c) && c.get("prog") < (i64) set.size(); }, [=](const Cfg& c) { up_run(set, c); }};
}
static Reg r_c09a(up_scenario("C09", "upwind.cxx", 2, {0}));
static Reg r_c09b(up_scenario("C09", "upwindOMPTasks.cxx", 2, {1}));
static Reg r_c10a(up_scenario("C10", "upwind.F90", 2, {2}));
static Reg r_c10b(up_scenario("C10", "upwindF03.F90", 2, {3}));
static Reg r_c10c(up_scenario("C10", "upwindF08.F90", 2, {4}));
static Reg r_c10d(up_scenario("C10", "upwindF08Gpu.F90", 2, {5}));
static Reg r_c09p(up_scenario("C09", "upwind.cxx-O0", 1, {0}, true));
static Reg r_c09q(up_scenario("C09", "upwindOMPTasks.cxx-O0", 1, {1}, true));
static Reg r_c10p(up_scenario("C10", "upwind.F90-O0", 1, {2}, true));
static Reg r_c10q(up_scenario("C10", "upwindF03.F90-O0", 1, {3}, true));
static Reg r_c10r(up_scenario("C10", "upwindF08.F90-O0", 1, {4}, true));
static Reg r_c10s(up_scenario("C10", "upwindF08Gpu.F90-O0", 1, {5}, true));

// ---------------------------------------------------- the solver class: unequal extents, velocity of either sign, 1 to 4 dimensions
static void class_run(const char* lib, const Cfg& c, bool dev, bool managed) {
  Rng r((u64) c.get("gseed"));
  size_t nd = (size_t) c.get("nd");
  Ix d(nd);
  std::vector<double> v(nd), l(nd);
  double dt = 1e9;
  bool longaxis = c.get("size") == 1, longrun = c.get("size") == 2, many = c.get("size") == 3;      // now and then an axis of hundreds of cells, hundreds of steps, or tens of thousands of cells
  size_t ax = (size_t) r.below(nd);
  std::vector<std::string> a = {std::to_string(nd)};
  for (size_t i = 0; i < nd; ++i) {
    d[i] = r.range(1, nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 6 : 4);
    if (longaxis) d[i] = i == ax ? r.range(60, 300) : std::min<i64>(d[i], 3);
    if (longrun) d[i] = std::min<i64>(d[i], nd == 1 ? 6 : 2);
    if (many) d[i] = nd == 1 ? r.range(2000, 70000) : nd == 2 ? r.range(40, 260) : nd == 3 ? r.range(12, 40) : r.range(6, 15);
    v[i] = (r.chance(0.5) ? -1 : 1) * (double) r.range(1, 8) * 0.25;
    if (r.chance(0.1)) v[i] = 0;
    l[i] = (double) r.range(1, 8) * 0.5;
    if (v[i] != 0) dt = std::min(dt, 0.2 * (l[i] / (double) d[i]) / std::fabs(v[i]));
  }
  if (dt > 1e8) dt = 0.1;
  for (i64 x : d) a.push_back(std::to_string(x));
  for (double x : v) a.push_back(fmt("%.17g", x));
  for (double x : l) a.push_back(fmt("%.17g", x));
  a.push_back(fmt("%.17g", dt));
  a.push_back(nd <= 3 && c.get("vtk") ? "1" : "0");
  std::vector<int> steps;
  for (int k = 0; k < c.get("calls"); ++k) { steps.push_back((int) (longrun && k == 0 ? r.range(100, 300) : many ? k == 0 : r.range(0, longaxis ? 2 : 4))); a.push_back(std::to_string(steps.back())); }
  OmpSpec s;
  s.lib = lib;
  s.threads = (int) c.get("thr");
  s.avail = (int) c.get("avail");
  ompspec_apply(c, s);
  s.args = a;
  if (dev) {
    s.devteams = (int) c.get("teams");
    s.devthreads = (int) c.get("tthr");
    s.sepmem = !managed && !c.get("shared");
    s.ndev = (int) (s.sepmem ? std::max<i64>(1, c.get("ndev", 1)) : c.get("ndev", 1));
  }
  io_reset();
  OmpRun* o = run_omp(s);
  std::string vs;
  for (double x : v) vs += fmt(" %g", x);
  set_sample(fmt("%s: Upwind<%zu> on %s cells, velocity%s, %zu advect calls, %lld threads; %s", lib, nd, ixs(d).c_str(), vs.c_str(), steps.size(), (long long) c.get("thr"), end_str(o->proc).c_str()));
  require_ok(o);
  RefUpwind u(d, v, l);
  auto lines = lines_of(o->proc->out);
  size_t at = 0;
  double grow = 1;      // rounding errors allowed for
  for (size_t k = 0; k < steps.size(); ++k) {
    for (int q = 0; q < steps[k]; ++q) u.step(dt);
    grow += steps[k] / 25.0;
    std::string where = fmt("%s cells, velocity%s, after call %zu: ", ixs(d).c_str(), vs.c_str(), k + 1);
    while (at < lines.size() && lines[at] != "PRINT") ++at;
    ++at;
    std::vector<double> got;
    for (i64 q = 0; q < u.box.n && at < lines.size(); ++q, ++at) {
      auto x = numbers_after(lines[at], "");
      if (x.size() != 2 || x[0] != (double) q) violate("field", where + "printed '" + lines[at] + "'");
      if (!near(x[1], u.f[q], 1e-13 * grow * (1 + std::fabs(u.f[q])))) violate("field", where + fmt("cell %lld is %.17g instead of %.17g", (long long) q, x[1], u.f[q]));
      got.push_back(x[1]);
    }
    if ((i64) got.size() != u.box.n) violate("field", where + fmt("only %zu cells were printed", got.size()));
    auto x = at < lines.size() ? numbers_after(lines[at++], "CHECKSUM") : std::vector<double>();
    if (x.size() != 1 || !near(x[0], u.sum(), 1e-12 * grow * (double) u.box.n)) violate("field", where + fmt("check sum is wrong, should be %.17g", u.sum()));
    x = at < lines.size() ? numbers_after(lines[at++], "STD") : std::vector<double>();
    if (at && lines[at - 1] == "STD none") continue;
    if (x.size() != 1 || !near(x[0], u.std(), 1e-7 * u.std() + 1e-8)) violate("field", where + fmt("spread is wrong, should be %.17g", u.std()));
  }
  if (nd <= 3 && c.get("vtk")) {
    auto f = io_files();
    std::string e = f.count("class.vtk") ? check_rect(f["class.vtk"], u) : "not written";
    if (!e.empty()) violate("saved file", "class.vtk: " + e);
  }
}
static void dev_draw(Rng& r, Cfg& c);
static Scenario class_scenario(const char* prop, const char* name, const char* lib, bool dev, bool anydim = false, bool managed = false) {      // anydim: the device version takes any dimension
  return {prop, name, dev ? 1 : 2, {{lib, 1}},
          [=](Rng& r, Cfg& c) {
            c.set("nd", dev && !anydim ? 3 : r.range(1, 4));
            c.set("gseed", r.range(0, 1000000000));
            c.set("calls", r.range(1, dev ? 2 : 3));
            c.set("vtk", r.chance(0.4));
            c.set("size", r.chance(0.97) ? 0 : r.range(1, 2));
            if (r.chance(dev ? 0.002 : 0.004)) { c.set("size", 3); c.set("calls", 1); }
            thr_draw(r, c);
            if (dev) dev_draw(r, c);
          },
          [=](const Cfg& c) { return c.get("nd") >= (dev && !anydim ? 3 : 1) && c.get("nd") <= 4 && c.get("thr") >= 1 && c.get("avail") >= 1 && c.get("calls") >= 1 && (!dev || (c.get("teams") >= 1 && c.get("tthr") >= 1)); },
          [=](const Cfg& c) { class_run(lib, c, dev, managed); }};
}
static Reg r_c09c(class_scenario("C09", "class-upwind", "upwindclass", false));
static Reg r_c10e(class_scenario("C10", "class-f90", "f90class", false));
static Reg r_c10f(class_scenario("C10", "class-f03", "f03class", false));
static Reg r_c10g(class_scenario("C10", "class-f08", "f08class", false));
static Reg r_c10h(class_scenario("C10", "class-gpu", "gpuclass", false));
static Reg r_c09d(class_scenario("C09", "class-tasks", "upwindclasst", false));

// ====================================================================== C11
static void dev_draw(Rng& r, Cfg& c) {
  static const int nice[] = {1, 1, 2, 2, 3, 4, 5, 8};
  c.set("teams", nice[r.below(8)]);
  c.set("tthr", nice[r.below(8)]);
  c.set("shared", r.chance(0.25));
  c.set("ndev", c.get("shared") && r.chance(0.5) ? 0 : r.range(1, 2));
  if (r.chance(0.5)) c.set("thr", 1);
}
static Scenario dev_scenario(const char* name, int w, int i, bool plain = false) {
  return {"C11", name, w, libs_of({i}, plain), [=](Rng& r, Cfg& c) { up_draw(r, c, 1); dev_draw(r, c); if (c.get("n") > 5) c.set("steps", r.range(0, 2)); if (c.get("n") > 10) c.set("n", 10); if (r.chance(0.002)) { c.set("n", r.range(41, 43)); c.set("steps", 1); } if (plain) plain_draw(r, c); },
          [=](const Cfg& c) { return up_valid(c) && c.get("teams") >= 1 && c.get("tthr") >= 1; }, [=](const Cfg& c) { up_run({i}, c); }};
}
static Reg r_c11a(dev_scenario("upwindAcc.cxx", 3, 6));
static Reg r_c11b(dev_scenario("upwindAcc2.cxx", 3, 7));
static Reg r_c11c(dev_scenario("upwindOMP5.cxx", 3, 8));
static Reg r_c11d(dev_scenario("upwindF08Gpu.F90-offload", 2, 9));
static Reg r_c11e(dev_scenario("upwindF08Gpu.F90-acc", 2, 10));
static Reg r_c11f(dev_scenario("upwindF08Gpu.F90-kernels", 1, 11));
static Reg r_c11g(dev_scenario("upwind.F90-acc", 1, 12));

static Reg r_c11p(dev_scenario("upwindAcc.cxx-O0", 1, 6, true));
static Reg r_c11q(dev_scenario("upwindAcc2.cxx-O0", 1, 7, true));
static Reg r_c11r(dev_scenario("upwindOMP5.cxx-O0", 1, 8, true));
static Reg r_c11s(dev_scenario("upwindF08Gpu.F90-offload-O0", 1, 9, true));
static Reg r_c11t(dev_scenario("upwindF08Gpu.F90-acc-O0", 1, 10, true));
static Reg r_c11u(dev_scenario("upwindF08Gpu.F90-kernels-O0", 1, 11, true));
static Reg r_c11v(dev_scenario("upwind.F90-acc-O0", 1, 12, true));

static Reg r_c11h(class_scenario("C11", "class-acc", "accclass", true));
static Reg r_c11i(class_scenario("C11", "class-acc2", "acc2class", true));
static Reg r_c11k(class_scenario("C11", "class-f90-acc", "f90accclass", true, true, true));
static Reg r_c11l(class_scenario("C11", "class-gpu-acc", "gpuaccclass", true, true));
static Reg r_c11m(class_scenario("C11", "class-gpu-kernels", "gpukerclass", true, true));
static Reg r_c11n(class_scenario("C11", "class-gpu-omp", "gpuompclass", true, true));
static Reg r_c11j(class_scenario("C11", "class-omp5", "omp5class", true));

// ====================================================================== C12
static void mm_run(const Cfg& c) {
  OProg p = {"matmult", "matmult.F90", FTN, false, nullptr, nullptr};
  i64 want[3] = {3, 4, 5};
  std::vector<std::string> a;
  for (int i = 0; i < c.get("given"); ++i) { want[i] = c.get(fmt("s%d", i)); a.push_back(std::to_string(want[i])); }
  OmpRun* o = launch(p, c, a);
  set_sample(fmt("matmult, sizes asked for: %lldx%lldx%lld, %lld threads; %s; stdout: %s", (long long) want[0], (long long) want[1], (long long) want[2], (long long) c.get("thr"), end_str(o->proc).c_str(), clip(o->proc->out).c_str()));
  require_ok(o);
  auto l = lines_with(o->proc->out, "matrix sizes:");
  if (l.size() != 1) violate("matrix product", fmt("sizes were printed %zu times", l.size()));
  auto v = numbers_after(l[0], "matrix sizes:");
  if (v.size() != 3 || v[0] != (double) want[0] || v[1] != (double) want[1] || v[2] != (double) want[2]) violate("matrix sizes", "'" + l[0] + fmt("', asked for %lld x %lld x %lld", (long long) want[0], (long long) want[1], (long long) want[2]));
  if (count_in(o->proc->out, "SUCCESS") != 1 || count_in(o->proc->out, "ERROR")) violate("matrix product", "printed: " + clip(o->proc->out));
}
static Scenario mm_scenario(const char* name, const char* lib, bool plain) {
  return {"C12", name, plain ? 1 : 2, {{lib, 1}},
  [=](Rng& r, Cfg& c) {
    if (plain) c.set("plain", 1);
    c.set("given", r.chance(0.15) ? r.range(0, 2) : 3);
    for (int i = 0; i < 3; ++i) c.set(fmt("s%d", i), r.chance(0.1) ? 1 : r.range(1, r.chance(0.2) ? (r.chance(0.1) ? 70 : 24) : 9));
    if (r.chance(0.01)) { i64 k = r.range(0, 2); c.set(fmt("s%lld", (long long) k), r.range(70, 700)); for (i64 i = 0; i < 3; ++i) if (i != k) c.set(fmt("s%lld", (long long) i), r.range(1, 6)); }
    thr_draw(r, c);
  },
  [](const Cfg& c) { return c.get("thr") >= 1 && c.get("avail") >= 1 && c.get("s0") >= 1 && c.get("s1") >= 1 && c.get("s2") >= 1 && c.get("given") >= 0; }, mm_run};
}
static Reg r_c12(mm_scenario("matmult", "matmult", false));
static Reg r_c12p(mm_scenario("matmult-O0", "matmult_o0", true));

// the concurrent product itself, on matrices of its own
static void mmclass_run(const Cfg& c) {
  OProg p = {"matmultlib", "matmult_mod", FTN, false, nullptr, nullptr};
  std::vector<std::string> a;
  Rng r((u64) c.get("gseed"));
  size_t calls = (size_t) c.get("calls");
  struct M { i64 n, m, el, seed; };
  std::vector<M> ms;
  for (size_t q = 0; q < calls; ++q) {
    i64 mx = r.chance(0.2) ? 20 : 6;
    M m = {r.range(1, mx), r.range(1, mx), r.range(1, mx), r.range(1, 100000)};
    ms.push_back(m);
    for (i64 x : {m.n, m.m, m.el, m.seed}) a.push_back(std::to_string(x));
  }
  OmpRun* o = launch(p, c, a);
  set_sample(fmt("matmult1 on %zu pairs of matrices, first %lldx%lldx%lld; %lld threads; %s", calls, (long long) ms[0].n, (long long) ms[0].m, (long long) ms[0].el, (long long) c.get("thr"), end_str(o->proc).c_str()));
  require_ok(o);
  auto lines = lines_of(o->proc->out);
  size_t at = 0;
  for (auto& m : ms) {
    auto val = [&](i64 i, i64 j, i64 w) { return (double) (((i * 7919 + j * 104729 + w * 31 + m.seed * 17) % 2003) - 1001) * 0.25; };
    for (i64 k = 1; k <= m.el; ++k)
      for (i64 i = 1; i <= m.n; ++i) {
        double want = 0;
        for (i64 j = 1; j <= m.m; ++j) want += val(i, j, 1) * val(j, k, 2);
        while (at < lines.size() && lines[at].compare(0, 2, "C ")) ++at;
        auto v = at < lines.size() ? numbers_after(lines[at], "C ") : std::vector<double>();
        ++at;
        if (v.size() != 1 || !near(v[0], want, 1e-9 * (1 + std::fabs(want))))
          violate("matrix product", fmt("%lldx%lldx%lld: element (%lld, %lld) is %s instead of %.17g", (long long) m.n, (long long) m.m, (long long) m.el, (long long) i, (long long) k, v.empty() ? "missing" : fmt("%.17g", v[0]).c_str(), want));
      }
  }
}
static Scenario mmclass_scenario(const char* name, const char* lib, bool plain) {
  return {"C12", name, plain ? 1 : 2, {{lib, 1}},
  [=](Rng& r, Cfg& c) { if (plain) c.set("plain", 1); c.set("calls", r.range(1, 3)); c.set("gseed", r.range(0, 1000000000)); thr_draw(r, c); },
  [](const Cfg& c) { return c.get("thr") >= 1 && c.get("avail") >= 1 && c.get("calls") >= 1; }, mmclass_run};
}
static Reg r_c12b(mmclass_scenario("matmult1", "matmultlib", false));
static Reg r_c12q(mmclass_scenario("matmult1-O0", "matmultlib_o0", true));

// ====================================================================== C13
static void banner_run(const Set& set, const Cfg& c) {
  const OProg& p = PROGS[set[c.get("prog")]];
  OmpRun* o = launch_up(p, c);
  rec(p.what, o, c);
  require_ok(o);
  const std::string& out = o->proc->out;
  std::string key = out.find("Number of OpenMP threads:") != std::string::npos ? "Number of OpenMP threads:" : "number of threads:";
  std::vector<std::string> l;
  for (auto& x : lines_of(out)) if (x.find("number of threads:") != std::string::npos || x.find("Number of OpenMP threads:") != std::string::npos) l.push_back(x);
  if (l.size() != 1) violate("thread banner", fmt("the number of threads was reported %zu times by %lld threads: %s", l.size(), (long long) c.get("thr"), clip(out, 500).c_str()));
  int run = count_in(out, "Running with OpenMP enabled");
  bool gpu = key[0] == 'N';
  if (run != (gpu ? 0 : 1)) violate("thread banner", fmt("'Running with OpenMP enabled' was printed %d times", run));
  int want = std::max(1, (int) std::min(c.get("thr"), c.get("avail")));
  auto v = numbers_after(l[0], key);
  if (v.size() != 2 || v[0] != want || v[1] != (double) c.get("thr"))
    violate("thread banner", fmt("'%s' printed by a team of %d threads, %lld configured", l[0].c_str(), want, (long long) c.get("thr")));
}
static Reg r_c13({"C13", "banner", 1, libs_of({0, 1, 2, 3, 5}),
  [](Rng& r, Cfg& c) {
    up_draw(r, c, 5);
    c.set("n", r.range(1, 3));
    c.set("steps", r.range(0, 1));
    c.set("vtk", 0);
    c.set("pre", r.chance(0.2) ? 0 : (i64) (1000 * r.range(1, 50)));
    c.set("hot", r.range(0, 90));
  },
  [](const Cfg& c) { return up_valid(c) && c.get("prog") < 5; }, [](const Cfg& c) { banner_run({0, 1, 2, 3, 5}, c); }});

// ====================================================================== C06 (threaded programs)
static void io_run(const Set& set, const Cfg& c) {
  const OProg& p = PROGS[set[c.get("prog")]];
  OmpRun* o = launch_up(p, c);
  bool hard = g_io.failed;
  rec(p.what, o, c);
  if (o->deadlock) violate("hang after an I/O failure", o->proc->why);
  if (!o->heap.empty()) violate("memory damaged", o->heap);
  if (o->proc->ok()) check_up(p, c, o, true, true);
  else if (!hard) violate("failure without a hard fault", fmt("%s: interrupted and short writes must not make the run fail: ", p.what) + end_str(o->proc) + "; stderr: " + clip(o->proc->err));
}
static Scenario io_scenario(const char* name, int w, const Set& set) {
  return {"C06", name, w, libs_of(set),
          [=](Rng& r, Cfg& c) {
            up_draw(r, c, (int) set.size());
            if (r.chance(0.25)) { c.set("n", r.range(8, 16)); c.set("steps", r.range(0, 2)); }
            c.set("vtk", 1);
            if (PROGS[set[0]].dev) dev_draw(r, c);
            i64 n = c.get("n");
            ioplan_draw(r, c, 300 + 20 * n + n * n * n * (PROGS[set[0]].kind == CXX ? 7 : 24));
          },
          [=](const Cfg& c) { return up_valid(c) && c.get("prog") < (i64) set.size() && (!PROGS[set[0]].dev || (c.get("teams") >= 1 && c.get("tthr") >= 1)); }, [=](const Cfg& c) { io_run(set, c); }};
}
static Reg r_c06b(io_scenario("threaded-cxx", 3, {0, 1}));
static Reg r_c06c(io_scenario("fortran", 3, {2, 3, 4, 5}));
static Reg r_c06d(io_scenario("upwindAcc.cxx", 1, {6}));
static Reg r_c06e(io_scenario("upwindAcc2.cxx", 1, {7}));
static Reg r_c06f(io_scenario("upwindOMP5.cxx", 1, {8}));
}  // namespace sim
