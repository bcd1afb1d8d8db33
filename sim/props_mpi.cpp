// Properties of the MPI programs and of the distributed filter: workloads and oracles.
#include "job.h"
#include "ref.h"
#include <algorithm>

namespace sim {

static std::string clean(const Job* j) {   // "" if the job finished and used MPI and memory properly
  return j->ok() ? "" : j->status();
}
static void require_clean(const Job* j, const char* cls = "job failed") {
  std::string s = clean(j);
  if (!s.empty()) violate(cls, s + " | stderr of rank 0: " + clip(j->procs[0]->err));
}
static std::string all_out(const Job* j) {
  std::string s;
  for (auto p : j->procs) s += p->out;
  return s;
}
static std::string argstr(const JobSpec& s) {
  std::string a = fmt("%d ranks %s", s.np, s.lib.c_str());
  for (auto& x : s.args) a += " " + x;
  return a;
}
static void rec_job(const Job* j) {
  std::string f;
  for (auto& kv : io_files()) f += fmt(" file %s (%zu bytes)", kv.first.c_str(), kv.second.size());
  set_sample(argstr(j->spec) + fmt("; %zu MPI calls, %.6f simulated s, %s;%s stdout: %s", j->log.size(), j->end_time * 1e-9, j->status().c_str(), f.c_str(), clip(all_out(j), 400).c_str()));
}

// a factorisation of np over nd axes, and local extents
static Ix random_factors(Rng& r, int np, int nd) {
  Ix f(nd, 1);
  for (int p = 2; np > 1; ) {
    if (np % p == 0) { f[r.below(nd)] *= p; np /= p; }
    else ++p;
  }
  return f;
}
static Ix random_dims(Rng& r, int np, int nd, int maxl, i64 cap) {
  Ix f = random_factors(r, np, nd), d(nd);
  int axis = maxl < 0 ? (int) r.range(0, nd - 1) : -1;      // maxl < 0: one long axis, the others short
  for (int i = 0; i < nd; ++i) d[i] = f[i] * (maxl > 0 ? r.range(1, maxl) : i == axis ? r.range(1, -maxl) : r.range(1, 3));
  for (;;) {
    i64 n = 1;
    for (i64 x : d) n *= x;
    if (n <= cap) return d;
    int k = 0;
    for (int i = 0; i < nd; ++i) if (d[i] / f[i] > d[k] / f[k]) k = i;
    if (d[k] == f[k]) return d;
    d[k] -= f[k];
  }
}
static Stencil random_stencil(Rng& r, const Ix& ext, int nst, int reach, int wkind) {
  std::map<std::vector<int>, double> m;
  size_t nd = ext.size();
  for (int k = 0; k < nst; ++k) {
    std::vector<int> o(nd, 0);
    if (!r.chance(0.12)) {
      size_t i = r.below(nd);
      i64 mx = std::min<i64>(reach, ext[i]);
      o[i] = (int) r.range(1, mx) * (r.chance(0.5) ? 1 : -1);
    }
    double w = wkind == 0 ? (double) r.range(-3, 3) : wkind == 1 ? (double) r.range(-8, 8) * 0.25 : r.unit() * 2 - 1;
    if (w == 0) w = 1;
    m[o] = w;
  }
  return Stencil(m.begin(), m.end());
}
static std::string new_op(int id, const RefFilter& f) {
  std::string s = fmt("NEW %d %zu", id, f.box.dims.size());
  for (i64 d : f.box.dims) s += fmt(" %lld", (long long) d);
  for (double x : f.lo) s += fmt(" %.17g", x);
  for (double x : f.hi) s += fmt(" %.17g", x);
  s += fmt(" %zu", f.st.size());
  for (auto& e : f.st) {
    for (int o : e.first) s += fmt(" %d", o);
    s += fmt(" %.17g", e.second);
  }
  return s + "\n";
}
static RefFilter random_filter(Rng& r, int np, int nd, int maxl, int nst, int reach, int wkind, i64 cap, bool symmetric_box) {
  Ix d = random_dims(r, np, nd, maxl, cap);
  std::vector<double> lo(nd, 0.0), hi(nd, 1.0);
  if (!symmetric_box)
    for (int i = 0; i < nd; ++i) { lo[i] = (double) r.range(-4, 4) * 0.5; hi[i] = lo[i] + (double) r.range(1, 12) * 0.25; }
  Ix ext = safe_extents(np, d);
  return RefFilter(d, lo, hi, random_stencil(r, ext, nst, reach, wkind));
}

// fields printed by the ranks: tag -> cell -> values
typedef std::map<int, std::map<Ix, std::vector<double>>> Fields;
static void read_fields(const Job* j, size_t nd, Fields& out, std::map<int, size_t>* ndof = nullptr) {
  for (auto p : j->procs)
    for (auto& o : p->obs) {
      if (o.compare(0, 6, "FIELD ") != 0) continue;
      int tag = atoi(o.c_str() + 6);
      size_t d = ndof ? (*ndof)[tag] : nd;
      auto& f = out[tag];
      for (auto& l : lines_with(o, "inds =")) {
        std::vector<double> v = numbers_after(l, "inds =");
        if (v.size() != d + 1) violate("field output", fmt("rank %d printed '%s'", p->rank, clip(l).c_str()));
        Ix ix(v.begin(), v.begin() + (long) d);
        f[ix].push_back(v[d]);
      }
    }
}
static void check_field(const char* cls, const RefFilter& r, bool input, const std::map<Ix, std::vector<double>>& got, const std::string& where, const Job* j, int steps) {
  i64 seen = 0;
  for (auto& kv : got) {
    for (size_t i = 0; i < kv.first.size(); ++i)
      if (kv.first[i] < 0 || kv.first[i] >= r.box.dims[i]) violate(cls, where + ": a rank holds cell " + ixs(kv.first) + " outside of the grid");
    if (kv.second.size() != 1) violate(cls, where + fmt(": cell %s is held %zu times", ixs(kv.first).c_str(), kv.second.size()));
    i64 k = r.box.of(kv.first);
    double want = input ? r.in[k] : r.out[k], mag = input ? r.inMag[k] : r.outMag[k];
    double tol = EPS * mag * 8 * (steps + 2) + 1e-15 * std::fabs(want) * 4;
    if (!near(kv.second[0], want, tol))
      violate(cls, where + fmt(": cell (%s) of a %s grid on %d ranks is %.17g instead of %.17g", [&] { std::string s; for (i64 x : kv.first) s += fmt("%lld ", (long long) x); return s; }().c_str(),
                               ixs(r.box.dims).c_str(), j->spec.np, kv.second[0], want));
    ++seen;
  }
  if (seen != r.box.n) violate(cls, where + fmt(": only %lld of %lld cells are held by some rank", (long long) seen, (long long) r.box.n));
}

static void faults_off(JobSpec& s) { s.fault_kind = 0; s.fault_rank = -1; }
static int draw_np(Rng& r, int mx) {
  static const int many[] = {28, 30, 32, 36, 40, 45, 48, 54, 60, 64, 72};
  if (mx >= 12 && r.chance(0.012)) return many[r.below(11)];
  static const int nice[] = {1, 2, 2, 3, 4, 4, 5, 6, 6, 8, 8, 9, 10, 12, 12, 16, 18, 24, 27, 36};
  for (;;) { int n = nice[r.below(20)]; if (n <= mx) return n; }
}

// a longer file of the same name, left behind by an earlier run
static void stale_put(const Cfg& c, const std::string& name) {
  if (!c.get("stale")) return;
  std::string s = "# vtk DataFile Version 2.0\nupwind\nASCII\n";
  while (s.size() < 100000) s += "7.25 -3\n";
  io_put(name, s);
}

// ====================================================================== C01
static void c01_run(const Cfg& c) {
  Rng r((u64) c.get("gseed"));
  int np = (int) c.get("np"), nd = (int) c.get("nd"), iters = (int) c.get("iters");
  RefFilter f = random_filter(r, np, nd, (int) c.get("maxl"), (int) c.get("nst"), (int) c.get("reach"), (int) c.get("wkind"), c.get("cap") ? c.get("cap") : 700, !c.get("box"));
  g_script = new_op(0, f);
  u64 ds = (u64) c.get("dseed");
  if (c.get("pos")) { f.setPos(ds); g_script += fmt("SETP 0 %llu\n", (unsigned long long) ds); }
  else { f.setIndex(ds); g_script += fmt("SETI 0 %llu\n", (unsigned long long) ds); }
  std::vector<RefFilter> snap;
  for (int k = 0; k < iters; ++k) {
    g_script += fmt("PAUSE\nAPPLY 0\nPRINT 0 output %d\n", k);
    f.apply();
    snap.push_back(f);
    if (k + 1 < iters) { g_script += "COPY 0\n"; f.copy(); }
  }
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  std::string st;
  for (auto& e : f.st) { st += " ("; for (int o : e.first) st += fmt("%d ", o); st += fmt(": %g)", e.second); }
  set_sample(fmt("filter on %d ranks, grid %s, stencil%s, %d applications; %zu MPI calls, %.6f simulated s; %s", np, ixs(f.box.dims).c_str(), st.c_str(), iters, j->log.size(), j->end_time * 1e-9, j->status().c_str()));
  require_clean(j);
  Fields got;
  read_fields(j, (size_t) nd, got);
  for (int k = 0; k < iters; ++k) check_field("stencil result", snap[k], false, got[k], fmt("after application %d, stencil%s", k + 1, st.c_str()), j, k + 1);
}
static void big_draw(Rng& r, Cfg& c) {      // now and then many cells, also many on one side of a sub-domain
  if (!r.chance(0.008)) return;
  i64 nd = c.get("nd");
  bool l = r.chance(0.5);
  c.set("cap", l ? 24000 : 12000);
  c.set("maxl", l ? -r.range(100, nd == 1 ? 9000 : 3000) : r.range(6, nd == 1 ? 400 : nd == 2 ? 40 : 8));
  if (r.chance(0.06)) {     // more cells in one sub-domain than a short integer counts
    c.set("np", r.chance(0.7) ? 1 : 2);
    c.set("nd", r.range(2, 3));
    c.set("cap", 110000);
    c.set("maxl", c.get("nd") == 2 ? 600 : 80);
    c.set("nst", r.range(1, 3));
    c.set("iters", 1);
  }
}
static void c01_draw(Rng& r, Cfg& c, bool wide) {
  c.set("np", draw_np(r, 18));
  c.set("nd", r.range(1, r.chance(0.2) ? 4 : 3));
  c.set("gseed", r.range(0, 1000000000));
  c.set("dseed", r.range(0, 1000000000));
  c.set("maxl", r.range(1, 5));
  c.set("nst", r.chance(0.9) ? r.range(1, 6) : r.range(7, 24));
  c.set("reach", wide ? r.range(2, 5) : 1);
  c.set("wkind", r.range(0, 2));
  c.set("iters", r.range(1, 3));
  c.set("pos", r.chance(0.3));
  c.set("box", r.chance(0.5));
  big_draw(r, c);
  if (c.get("cap") && wide) c.set("reach", r.range(2, 12));
  jobspec_draw(r, c);
}
static bool np_nd_ok(const Cfg& c) { return c.get("np") >= 1 && c.get("nd") >= 1 && c.get("maxl") != 0 && c.get("nst", 1) >= 1 && c.get("reach", 1) >= 1 && c.get("iters", 1) >= 1; }
static Reg r_c01a({"C01", "nearest-neighbour", 3, {{"filterops", NCOPY}}, [](Rng& r, Cfg& c) { c01_draw(r, c, false); }, np_nd_ok, c01_run});
static Reg r_c01b({"C01", "wide-stencil", 2, {{"filterops", NCOPY}}, [](Rng& r, Cfg& c) { c01_draw(r, c, true); }, np_nd_ok, c01_run});

// ====================================================================== C02
static std::string vtk_uniform(const std::string& content, const RefFilter& f, int steps, double extra_tol = 0);

struct HistOp { std::string kind; int id; u64 seed; bool input; int tag; };
static void c02_run(const Cfg& c) {
  int np = (int) c.get("np"), nf = (int) c.get("nf"), nops = (int) c.get("nops");
  std::vector<RefFilter> fs(nf);
  std::vector<bool> alive(nf, false);
  std::vector<int> napply(nf, 0);
  auto fresh = [&](int k) {
    Rng r(mix((u64) c.get("gseed"), (u64) k));
    int nd = (int) r.range(1, c.get("maxnd"));
    fs[k] = random_filter(r, np, nd, (int) c.get("maxl"), (int) r.range(1, 4), (int) c.get("reach"), (int) r.range(0, 2), c.get("cap") ? c.get("cap") : 300, r.chance(0.5));
    alive[k] = true;
    napply[k] = 0;
  };
  g_script.clear();
  struct Want { int tag, kind, id; RefFilter f; bool input; int steps; };   // kind 0 sum, 1 field, 2 file
  std::vector<Want> want;
  int tag = 0;
  std::set<std::string> files;
  std::map<std::string, Want> fileWant;
  for (int q = 0; q < nops; ++q) {
    Rng o(mix((u64) c.get("opseed"), (u64) q));
    int k = (int) o.below(nf);
    if (o.chance(0.25)) g_script += "PAUSE\n";
    if (!alive[k]) {
      fresh(k);
      g_script += new_op(k, fs[k]);
    }
    RefFilter& f = fs[k];
    int w = (int) o.below(100);
    if (!f.set) w = o.chance(0.85) ? (int) o.below(22) : 50;
    u64 ds = o.below(1000000);
    if (w < 12) { f.setIndex(ds); napply[k] = 0; g_script += fmt("SETI %d %llu\n", k, (unsigned long long) ds); }
    else if (w < 22) { f.setPos(ds); napply[k] = 0; g_script += fmt("SETP %d %llu\n", k, (unsigned long long) ds); }
    else if (w < 44) { if (napply[k] < 12) { f.apply(); napply[k]++; g_script += fmt("APPLY %d\n", k); } }
    else if (w < 58) { f.copy(); g_script += fmt("COPY %d\n", k); }
    else if (w < 76) { bool in = o.chance(0.5); g_script += fmt("SUM %d %s %d\n", k, in ? "input" : "output", tag); want.push_back({tag++, 0, k, f, in, napply[k]}); }
    else if (w < 80) {      // printing a halo window changes nothing
      std::vector<std::string> sides;
      for (auto& e : f.st) {
        std::string t;
        bool self = true;
        for (int x : e.first) { t += fmt(" %d", x > 0 ? -1 : x < 0 ? 1 : 0); self &= x == 0; }
        if (!self) sides.push_back(fmt("%zu", e.first.size()) + t);
      }
      if (!sides.empty()) g_script += fmt("WPRINT %d %s ", k, o.chance(0.5) ? "src" : "dst") + sides[o.below(sides.size())] + "\n";
    }
    else if (w < 90) { bool in = o.chance(0.5); g_script += fmt("PRINT %d %s %d\n", k, in ? "input" : "output", tag); want.push_back({tag++, 1, k, f, in, napply[k]}); }
    else if (w < 95) { std::string n = fmt("f%d.vtk", tag); g_script += fmt("VTK %d %s\n", k, n.c_str()); fileWant[n] = {tag++, 2, k, f, false, napply[k]}; }
    else { alive[k] = false; g_script += fmt("DEL %d\n", k); }
  }
  for (int k = 0; k < nf; ++k)
    if (alive[k]) {
      g_script += fmt("PRINT %d input %d\n", k, tag);
      want.push_back({tag++, 1, k, fs[k], true, napply[k]});
      g_script += fmt("PRINT %d output %d\n", k, tag);
      want.push_back({tag++, 1, k, fs[k], false, napply[k]});
    }
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  set_sample(fmt("%d ranks, history: ", np) + clip(g_script, 700) + fmt("; %zu MPI calls; %s", j->log.size(), j->status().c_str()));
  require_clean(j);
  std::map<int, size_t> nds;
  for (auto& w : want) nds[w.tag] = w.f.box.dims.size();
  Fields got;
  read_fields(j, 0, got, &nds);
  std::map<int, double> sums;
  for (auto& o : j->procs[0]->obs) { int t; double v; if (sscanf(o.c_str(), "SUM %d %la", &t, &v) == 2) sums[t] = v; }
  for (auto& w : want) {
    std::string where = fmt("filter %d, observation %d", w.id, w.tag);
    if (w.kind == 1) check_field("filter history", w.f, w.input, got[w.tag], where + (w.input ? " (input)" : " (output)"), j, w.steps + 1);
    else {
      if (!sums.count(w.tag)) violate("filter history", where + ": no check sum was returned");
      double tol = EPS * w.f.sumMag(w.input) * 16 * (w.steps + 3);
      if (!near(sums[w.tag], w.f.sum(w.input), tol))
        violate("filter history", where + fmt(": %s check sum is %.17g instead of %.17g", w.input ? "input" : "output", sums[w.tag], w.f.sum(w.input)));
    }
  }
  auto files_now = io_files();
  for (auto& kv : fileWant) {
    bool big = kv.second.f.box.dims.size() > 3;
    if (big) { if (files_now.count(kv.first) && !files_now[kv.first].empty()) violate("filter history", "a file was written for a 4-D field"); continue; }
    if (!files_now.count(kv.first)) violate("filter history", "file " + kv.first + " was not written");
    std::string e = vtk_uniform(files_now[kv.first], kv.second.f, kv.second.steps);
    if (!e.empty()) violate("filter history", "file " + kv.first + ": " + e);
  }
}
static Reg r_c02({"C02", "histories", 1, {{"filterops", NCOPY}},
  [](Rng& r, Cfg& c) {
    c.set("np", draw_np(r, 12));
    c.set("nf", r.range(1, 3));
    c.set("nops", r.range(4, 40));
    c.set("maxnd", r.range(1, r.chance(0.15) ? 4 : 3));
    c.set("maxl", r.range(1, 4));
    c.set("reach", r.chance(0.6) ? 1 : r.range(2, 3));
    if (r.chance(0.006)) { c.set("maxl", r.chance(0.3) ? -r.range(100, 3000) : r.range(5, 40)); c.set("cap", r.range(1000, 16000)); c.set("nops", r.range(4, 10)); c.set("nf", 1); }
    c.set("gseed", r.range(0, 1000000000));
    c.set("opseed", r.range(0, 1000000000));
    jobspec_draw(r, c);
  },
  [](const Cfg& c) { return c.get("np") >= 1 && c.get("nf") >= 1 && c.get("maxnd") >= 1 && c.get("maxl") != 0 && c.get("reach") >= 1; }, c02_run});

// ------------------------------------------------------------ programs
static std::vector<int> valid_nps(i64 n, int nd, int mx) {
  std::vector<int> r;
  for (int p = 1; p <= mx; ++p) if (has_decomp(p, Ix(nd, n))) r.push_back(p);
  return r;
}
static std::vector<int> invalid_nps(i64 n, int nd, int mx) {
  std::vector<int> r;
  for (int p = 1; p <= mx; ++p) if (!has_decomp(p, Ix(nd, n))) r.push_back(p);
  return r;
}
static double lap_init(const std::vector<double>& p) { double r = 1; for (double x : p) r *= std::sin(2.0 * M_PI * x); return r; }
static RefFilter ref_laplacian(i64 n, int nd, int iters = 10) {
  std::map<std::vector<int>, double> st;
  std::vector<int> o(nd, 0);
  st[o] = -2.0 * nd;
  for (int i = 0; i < nd; ++i) { o[i] = 1; st[o] = 1; o[i] = -1; st[o] = 1; o[i] = 0; }
  RefFilter f(Ix(nd, n), std::vector<double>(nd, 0.0), std::vector<double>(nd, 1.0), Stencil(st.begin(), st.end()));
  f.setFun([&](i64 k) { return lap_init(f.pos(k)); });
  for (auto& m : f.inMag) m = 4;
  for (int i = 0; i < iters; ++i) { f.apply(); f.copy(); }
  return f;
}
static RefFilter ref_upmpi(i64 n, int steps, std::vector<std::pair<double, double>>* sums = nullptr) {
  std::map<std::vector<int>, double> st;
  std::vector<int> o(3, 0);
  st[o] = 1.0 - 3 * 0.1;
  for (int i = 0; i < 3; ++i) { o[i] = -1; st[o] = 0.1; o[i] = 0; }
  RefFilter f(Ix(3, n), std::vector<double>(3, 0.0), std::vector<double>(3, 1.0), Stencil(st.begin(), st.end()));
  f.setFun([&](i64 k) { return k == 0 ? 1.0 : 0.0; });
  for (int i = 0; i < steps; ++i) {
    f.apply();
    if (sums) sums->push_back({f.sum(true), f.sum(false)});
    f.copy();
  }
  return f;
}
static RefFilter ref_stencil2d(i64 n) {
  std::map<std::vector<int>, double> st;
  st[{1, 0}] = 1;
  st[{0, -1}] = -1;
  RefFilter f(Ix(2, n), {0, 0}, {1, 1}, Stencil(st.begin(), st.end()));
  f.setFun([&](i64 k) { Ix v = f.box.at(k); return v[0] * v[1] == 0 ? 1.0 : 0.0; });
  f.apply();
  return f;
}
// a uniform-grid file against the output field of the model
static std::string vtk_uniform(const std::string& content, const RefFilter& f, int steps, double extra_tol) {
  Vtk v = read_vtk(content);
  if (!v.err.empty()) return v.err;
  size_t nd = f.box.dims.size();
  Ix cells = f.box.dims, nodes;
  while (cells.size() < 3) cells.push_back(1);
  for (i64 x : cells) nodes.push_back(x + 1);
  if (v.dims != nodes) return fmt("DIMENSIONS are %s instead of %s", ixs(v.dims).c_str(), ixs(nodes).c_str());
  auto coord = [&](size_t a, i64 i) {
    double lo = a < nd ? f.lo[a] : 0, hi = a < nd ? f.hi[a] : 1;
    return lo + (hi - lo) * (double) i / (double) cells[a];
  };
  std::vector<double> want;
  if (v.kind == "STRUCTURED_GRID") {
    for (i64 k = 0; k < nodes[2]; ++k)
      for (i64 jj = 0; jj < nodes[1]; ++jj)
        for (i64 i = 0; i < nodes[0]; ++i) { want.push_back(coord(0, i)); want.push_back(coord(1, jj)); want.push_back(coord(2, k)); }
    std::string e = near_list(v.pts, want, 1e-7, "POINTS");
    if (!e.empty()) return e;
  } else return "dataset is " + v.kind;
  if ((i64) v.field.size() != f.box.n) return fmt("the field has %zu values for %lld cells", v.field.size(), (long long) f.box.n);
  size_t q = 0;
  for (i64 k = 0; k < cells[2]; ++k)
    for (i64 jj = 0; jj < cells[1]; ++jj)
      for (i64 i = 0; i < cells[0]; ++i, ++q) {
        Ix ix = {i, jj, k};
        ix.resize(nd);
        i64 b = f.box.of(ix);
        double tol = EPS * f.outMag[b] * 8 * (steps + 2) + extra_tol + 6e-6 * std::fabs(f.out[b]);
        if (!near(v.field[q], f.out[b], tol)) return fmt("field value of cell (%lld,%lld,%lld) is %.9g instead of %.9g", (long long) i, (long long) jj, (long long) k, v.field[q], f.out[b]);
      }
  return "";
}

struct Prog { int kind; i64 n; int nd, steps; bool vtk; i64 style; };   // kind 0 laplacian, 1 upwindMpi, 2 testStencil2d
static void prog_spec(const Prog& p, JobSpec& s) {
  s.lib = p.kind == 0 ? "laplacian" : p.kind == 1 ? "upwindmpi" : "stencil2d";
  std::vector<OptArg> o = {{{"-numCells", fmt("%lld", (long long) p.n)}, p.kind == 2 && p.n == 8}};
  if (p.kind == 0) o.push_back({{"-numDims", fmt("%d", p.nd)}, p.nd == 2});
  if (p.kind == 1) o.push_back({{"-numSteps", fmt("%d", p.steps)}, p.steps == 10});
  if (p.vtk) o.push_back({{"-vtk"}, false});
  s.args = arg_list(o, p.style);
}
static Prog prog_of(const Cfg& c) {
  Prog p;
  p.kind = (int) c.get("prog");
  p.n = c.get("n");
  p.nd = p.kind == 0 ? (int) c.get("nd") : p.kind == 1 ? 3 : 2;
  p.steps = (int) c.get("steps");
  p.vtk = c.get("vtk");
  p.style = c.get("style");
  return p;
}
static const char* vtk_name(const Prog& p) { return p.kind == 0 ? "laplacian.vtk" : p.kind == 1 ? "upMpi.vtk" : "stencil2d.vtk"; }
static bool prog_valid(const Cfg& c) {
  Prog p = prog_of(c);
  if (p.n < 1 || p.nd < 1 || c.get("np") < 1 || p.steps < 1) return false;
  return has_decomp(c.get("np"), Ix(p.nd, p.n));
}
static void prog_draw(Rng& r, Cfg& c, int mxnp) {
  int kind = (int) c.get("prog");
  for (;;) {
    int nd = kind == 0 ? (int) r.range(1, r.chance(0.15) ? 4 : 3) : kind == 1 ? 3 : 2;
    i64 n = nd == 1 ? r.range(1, 16) : nd == 2 ? r.range(1, 12) : nd == 3 ? r.range(1, 7) : r.range(1, 3);
    bool large = r.chance(0.05);
    if (large) n = nd == 1 ? r.range(17, 100) : nd == 2 ? r.range(13, 36) : nd == 3 ? r.range(8, 13) : r.range(4, 6);
    if (mxnp >= 16 && r.chance(0.0008) && nd > 1) { large = true; mxnp = 12; n = nd == 2 ? r.range(60, 110) : nd == 3 ? r.range(16, 34) : r.range(7, 9); }
    // more cells in one sub-domain than a short integer counts
    bool huge = mxnp >= 16 && r.chance(0.0006) && (nd == 2 || nd == 3);
    if (huge) { large = true; mxnp = 2; n = nd == 2 ? r.range(257, 280) : r.range(41, 44); }
    bool many = mxnp >= 16 && r.chance(0.02);     // now and then a job of many ranks
    auto v = valid_nps(n, nd, many ? 72 : mxnp);
    if (many && v.back() <= mxnp) continue;
    if (many) v.erase(v.begin(), std::upper_bound(v.begin(), v.end(), mxnp));
    c.set("nd", nd);
    c.set("n", n);
    c.set("steps", !large && kind == 1 && r.chance(0.06) ? (r.chance(0.3) ? 10 : n <= 3 && r.chance(0.1) ? r.range(100, 300) : r.range(7, 40)) : r.range(1, 6));
    c.set("style", r.chance(0.3) ? r.range(1, 9999) : 0);
    c.set("np", v[r.below(v.size())]);
    if (huge) c.set("steps", 1);
    if (huge && r.chance(0.7)) c.set("np", 1);
    if (huge || c.get("np") > 1 || r.chance(0.2)) break;
  }
  jobspec_draw(r, c);
}
// the printed results of one program; partial: the run was cut short, what is there must still be right
static void check_prints(const char* cls, const Prog& p, const Job* j, bool partial) {
  std::string out = j->procs[0]->out;
  for (size_t k = 1; k < j->procs.size(); ++k) {
    const std::string& o = j->procs[k]->out;
    if (count_in(o, "heck sum") || count_in(o, "min/max/avg")) violate(cls, fmt("rank %zu printed a result line: %s", k, clip(o).c_str()));
  }
  if (partial && !out.empty() && out.back() != '\n') out.erase(out.find_last_of('\n') == std::string::npos ? 0 : out.find_last_of('\n') + 1);   // a cut-off last line says nothing
  for (auto& l : lines_with(out, "umber of procs:")) {
    auto v = numbers_after(l, "umber of procs:");
    if (v.size() == 1 && v[0] != j->spec.np) violate(cls, "'" + l + fmt("' printed by a job of %d ranks", j->spec.np));
  }
  for (auto& l : lines_with(out, "lobal dimensions:"))
    for (double x : numbers_after(l, "lobal dimensions:"))
      if (x != (double) p.n) violate(cls, "'" + l + fmt("', asked for %lld along each axis", (long long) p.n));
  for (auto& l : lines_with(out, "omain decomp")) {
    auto v = numbers_after(l, "omain decomp");
    double m = 1;
    for (double x : v) { m *= x; if (!(x >= 1) || std::fmod((double) p.n, x)) m = 0; }
    if ((int) v.size() == p.nd && m != j->spec.np) violate(cls, "'" + l + fmt("' for %lld cells along each of %d axes and %d ranks", (long long) p.n, p.nd, j->spec.np));
  }
  auto tl = lines_with(out, "min/max/avg");
  if (p.kind < 2 && (tl.size() > 1 || (!partial && tl.empty()))) violate(cls, fmt("%zu lines of timings: %s", tl.size(), clip(out).c_str()));
  if (p.kind == 0) {
    auto l = lines_with(out, "Check sums:");
    if (l.size() > 1 || (!partial && l.empty())) violate(cls, fmt("%zu lines of check sums: %s", l.size(), clip(out).c_str()));
    if (l.empty()) return;
    RefFilter f = ref_laplacian(p.n, p.nd);
    auto a = numbers_after(l[0], "input"), b = numbers_after(l[0], "output");
    if (a.size() != 2 || b.size() != 1) violate(cls, "check sum line is '" + l[0] + "'");
    double tol = EPS * f.sumMag(false) * 8 * 12 + 6e-6 * std::fabs(f.sum(false));
    if (!near(a[0], f.sum(true), tol) || !near(b[0], f.sum(false), tol))
      violate(cls, fmt("'%s' but the sums are %.9g and %.9g (tolerance %.2g)", l[0].c_str(), f.sum(true), f.sum(false), tol));
  } else if (p.kind == 1) {
    std::vector<std::pair<double, double>> want;
    RefFilter f = ref_upmpi(p.n, p.steps, &want);
    auto il = lines_with(out, "iter ");
    if (!partial && (int) il.size() != p.steps) violate(cls, fmt("%zu step lines for %d steps", il.size(), p.steps));
    if ((int) il.size() > p.steps) violate(cls, fmt("%zu step lines for %d steps", il.size(), p.steps));
    for (size_t k = 0; k < il.size(); ++k) {
      auto it = numbers_after(il[k], "iter"), v = numbers_after(il[k], "in/out");
      if (it.empty() || v.size() != 2) violate(cls, "step line is '" + il[k] + "'");
      if (it[0] != (double) k) violate(cls, fmt("step line %zu is '%s'", k, il[k].c_str()));
      if (!near(v[0], want[k].first, 1e-5) || !near(v[1], want[k].second, 1e-5)) violate(cls, fmt("'%s' but the sums are %.9g and %.9g", il[k].c_str(), want[k].first, want[k].second));
    }
    auto l = lines_with(out, "Check sum:");
    if (l.size() > 1 || (!partial && l.empty())) violate(cls, fmt("%zu lines with the final check sum", l.size()));
    if (!l.empty()) {
      auto v = numbers_after(l[0], "Check sum:");
      if (v.size() != 1 || !near(v[0], f.sum(false), 1e-5)) violate(cls, fmt("'%s' but the sum is %.9g", l[0].c_str(), f.sum(false)));
      if ((int) il.size() != p.steps) violate(cls, "the final check sum came before all steps were printed");
    }
  }
}
static void check_file(const char* cls, const Prog& p, bool must) {
  auto files = io_files();
  auto op = io_openers();
  for (auto& kv : files)
    if (kv.first != vtk_name(p) || !p.vtk) violate(cls, "unexpected file " + kv.first);
  if (!p.vtk) return;
  std::string n = vtk_name(p);
  if (p.nd > 3) { if (files.count(n) && !files[n].empty()) violate(cls, "a file was written for a 4-D field"); return; }
  if (!files.count(n)) { if (must) violate(cls, "file " + n + " was not written"); return; }
  if (op[n] != 1) violate(cls, fmt("file %s was opened for writing %d times", n.c_str(), op[n]));
  if (g_io_writer.count(n) && g_io_writer[n] != 0) violate(cls, fmt("file %s was written by rank %d", n.c_str(), g_io_writer[n]));
  RefFilter f = p.kind == 0 ? ref_laplacian(p.n, p.nd) : p.kind == 1 ? ref_upmpi(p.n, p.steps) : ref_stencil2d(p.n);
  std::string e = vtk_uniform(files[n], f, 12);
  if (!e.empty()) violate(cls, "file " + n + ": " + e);
}
static const std::vector<std::pair<std::string, int>> LIBS3 = {{"laplacian", NCOPY}, {"upwindmpi", NCOPY}, {"stencil2d", NCOPY}};

// ====================================================================== C01 (the test driver)
static void c01_prog_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  require_clean(j);
  RefFilter f = ref_stencil2d(p.n);
  std::map<Ix, std::vector<double>> got;
  for (auto q : j->procs)
    for (auto& l : lines_with(q->err + "\n" + q->out, "inds =")) {
      std::vector<double> v = numbers_after(l, "inds =");
      if (v.size() != 3) violate("field output", fmt("rank %d printed '%s'", q->rank, clip(l).c_str()));
      got[Ix(v.begin(), v.begin() + 2)].push_back(v[2]);
    }
  check_field("stencil result", f, false, got, "printed by the program", j, 1);
}
static Reg r_c01c({"C01", "testStencil2d", 1, {{"stencil2d", NCOPY}}, [](Rng& r, Cfg& c) { c.set("prog", 2); c.set("vtk", 0); prog_draw(r, c, 27); }, prog_valid, c01_prog_run});

// ====================================================================== C03
static void c03_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  require_clean(j);
  check_prints("printed results", p, j, false);
}
static Reg r_c03a({"C03", "laplacian", 1, {{"laplacian", NCOPY}}, [](Rng& r, Cfg& c) { c.set("prog", 0); c.set("vtk", r.chance(0.3)); prog_draw(r, c, 27); }, prog_valid, c03_run});
static Reg r_c03b({"C03", "upwindMpi", 1, {{"upwindmpi", NCOPY}}, [](Rng& r, Cfg& c) { c.set("prog", 1); c.set("vtk", r.chance(0.3)); prog_draw(r, c, 27); }, prog_valid, c03_run});

// ====================================================================== C04
static void c04_common(const Job* j) {
  require_clean(j, "unclean end");
  for (size_t k = 0; k < j->procs.size(); ++k) {
    int inits = 0, fins = 0;
    const char* last = "";
    for (auto& e : j->log)
      if (e.rank == (int) k) {
        if (!strncmp(e.op, "MPI_Init", 8) && strcmp(e.op, "MPI_Initialized")) ++inits;
        if (!strcmp(e.op, "MPI_Finalize")) ++fins;
        if (strcmp(e.op, "MPI_Finalized") && strcmp(e.op, "MPI_Initialized")) last = e.op;
      }
    if (inits != 1 || fins != 1 || strcmp(last, "MPI_Finalize")) violate("unclean end", fmt("rank %zu: %d MPI_Init, %d MPI_Finalize, last MPI action %s", k, inits, fins, last));
  }
  if (j->live_windows || j->live_mem) violate("resources not released", fmt("%d windows and %d MPI memory blocks are left at the end", j->live_windows, j->live_mem));
}
static void c04_valid_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  c04_common(j);
}
static void c04_invalid_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  count(CT_INVALID);
  Job* j = run_job(s);
  rec_job(j);
  c04_common(j);
  std::string said = j->procs[0]->out + j->procs[0]->err;
  std::string low = said;
  for (auto& ch : low) ch = (char) tolower(ch);
  if (low.find("decomp") == std::string::npos) violate("invalid decomposition", "rank 0 did not report it: " + clip(said));
  for (auto q : j->procs) {
    if (count_in(q->out, "heck sum") || count_in(q->out, "min/max/avg")) violate("invalid decomposition", fmt("rank %d printed a result: %s", q->rank, clip(q->out).c_str()));
    if (count_in(q->err, "inds =")) violate("invalid decomposition", fmt("rank %d printed a field", q->rank));
  }
  for (auto& kv : io_files()) violate("invalid decomposition", "file " + kv.first + " was produced");
}
static void c04_args_run(const Cfg& c) {
  JobSpec s;
  s.np = (int) c.get("np");
  int k = (int) c.get("prog");
  s.lib = k == 0 ? "laplacian" : k == 1 ? "upwindmpi" : "stencil2d";
  switch (c.get("how")) {
    case 0: s.args = {"-h"}; break;
    case 1: s.args = {"-nosuchoption"}; break;
    case 2: s.args = {"-numCells", "4", "-bogus", "3"}; break;
    case 3: s.args = {"-h", "-numCells", "4"}; break;
    case 4: s.args = {"-numCells", "4", "-h", "-vtk"}; break;
    default: {      // sizes that name no grid, or no end
      i64 bad = c.get("bad");
      std::vector<OptArg> o = {{{"-vtk"}, false}};
      bool second = c.get("second") && k < 2;
      if (second) o.push_back({{k == 0 ? "-numDims" : "-numSteps", std::to_string(k == 0 ? bad : std::min<i64>(bad, -1))}, false});
      if (!second || c.get("both")) o.push_back({{"-numCells", std::to_string(bad)}, false});
      else o.push_back({{"-numCells", "4"}, false});
      s.args = arg_list(o, c.get("style"));
    }
  }
  jobspec_apply(c, s);
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  c04_common(j);
  if (j->procs[0]->out.empty() && j->procs[0]->err.empty()) violate("bad arguments", "rank 0 printed nothing at all");
  for (auto q : j->procs)
    if (count_in(q->out, "heck sum") || count_in(q->out, "min/max/avg")) violate("bad arguments", fmt("rank %d printed a result: %s", q->rank, clip(q->out).c_str()));
  for (auto& kv : io_files()) violate("bad arguments", "file " + kv.first + " was produced");
}
static void c04_life_run(const Cfg& c) {   // filters come and go
  int np = (int) c.get("np"), n = (int) c.get("nops");
  g_script.clear();
  std::set<int> live;
  int next = 0;
  for (int q = 0; q < n; ++q) {
    Rng o(mix((u64) c.get("opseed"), (u64) q));
    if (o.chance(0.3)) g_script += "PAUSE\n";
    if (live.empty() || (live.size() < 3 && o.chance(0.5))) {
      int nd = (int) o.range(1, 3);
      if (o.chance(0.25) && np > 1) {     // cannot be decomposed: every extent is 1
        RefFilter f(Ix(nd, 1), std::vector<double>(nd, 0.0), std::vector<double>(nd, 1.0), random_stencil(o, Ix(nd, 1), 2, 1, 0));
        g_script += new_op(next, f) + fmt("DEL %d\n", next);
        ++next;
        count(CT_INVALID);
        continue;
      }
      RefFilter f = random_filter(o, np, nd, 3, (int) o.range(1, 5), (int) c.get("reach"), 0, 200, true);
      g_script += new_op(next, f) + fmt("SETI %d 5\n", next);
      live.insert(next++);
    } else {
      auto it = live.begin();
      std::advance(it, (long) o.below(live.size()));
      if (o.chance(0.4)) g_script += fmt("APPLY %d\n", *it);
      else { g_script += fmt("DEL %d\n", *it); live.erase(it); }
    }
  }
  for (int id : live) g_script += fmt("DEL %d\n", id);
  g_script += "RES 0\n";
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  set_sample(fmt("%d ranks, filters created and destroyed: ", np) + clip(g_script, 500) + "; " + j->status());
  c04_common(j);
  for (auto p : j->procs)
    for (auto& o : p->obs) {
      int id, w, m;
      if (sscanf(o.c_str(), "RES %d %d %d", &id, &w, &m) == 3 && m != 0)
        violate("resources not released", fmt("rank %d still holds %d MPI memory blocks after all its filters are destroyed", p->rank, m));
    }
}
static Reg r_c04a({"C04", "valid", 3, LIBS3, [](Rng& r, Cfg& c) { c.set("prog", r.range(0, 2)); c.set("vtk", r.chance(0.4)); prog_draw(r, c, 27); }, prog_valid, c04_valid_run});
static Reg r_c04b({"C04", "invalid-decomposition", 3, LIBS3,
  [](Rng& r, Cfg& c) {
    int kind = (int) r.range(0, 2);
    c.set("prog", kind);
    c.set("vtk", r.chance(0.4));
    int nd = kind == 0 ? (int) r.range(1, 4) : kind == 1 ? 3 : 2;
    i64 n = r.range(1, 12);
    c.set("nd", nd);
    c.set("n", n);
    c.set("steps", r.range(1, 4));
    auto v = invalid_nps(n, nd, 24);
    c.set("np", v.empty() ? 2 : v[r.below(v.size())]);
    jobspec_draw(r, c);
  },
  [](const Cfg& c) { Prog p = prog_of(c); return p.n >= 1 && p.nd >= 1 && p.steps >= 1 && c.get("np") >= 2 && !has_decomp(c.get("np"), Ix(p.nd, p.n)); }, c04_invalid_run});
static Reg r_c04c({"C04", "arguments", 1, LIBS3,
  [](Rng& r, Cfg& c) { c.set("prog", r.range(0, 2)); c.set("np", r.range(1, 9)); c.set("how", r.range(0, 7));
    if (c.get("how") >= 5) { static const i64 bads[] = {0, -1, -1, -2, -4, -100, -2147483647}; c.set("bad", bads[r.below(7)]); c.set("second", r.chance(0.5)); c.set("both", r.chance(0.2)); c.set("style", r.range(0, 99)); }
    jobspec_draw(r, c); },
  [](const Cfg& c) { return c.get("np") >= 1 && (c.get("how") < 5 || c.get("bad") < 1); }, c04_args_run});
static Reg r_c04d({"C04", "filter-lifetimes", 2, {{"filterops", NCOPY}},
  [](Rng& r, Cfg& c) { c.set("np", draw_np(r, 12)); c.set("nops", r.range(2, 16)); c.set("opseed", r.range(0, 1000000000)); c.set("reach", r.chance(0.6) ? 1 : r.range(2, 3)); jobspec_draw(r, c); },
  [](const Cfg& c) { return c.get("np") >= 1 && c.get("reach") >= 1; }, c04_life_run});

// ====================================================================== C05
static void c05_run(const Cfg& c) {
  Prog p = prog_of(c);
  p.vtk = true;
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  if (p.nd <= 3) stale_put(c, vtk_name(p));
  Job* j = run_job(s);
  rec_job(j);
  require_clean(j);
  check_file("saved file", p, true);
  if (p.nd > 3) {
    bool warned = false;
    for (auto q : j->procs) warned = warned || !q->err.empty() || q->out.find("WARN") != std::string::npos || q->out.find("arning") != std::string::npos || q->out.find("support") != std::string::npos;
    if (!warned) violate("no warning", "the field of 4 dimensions was not written, and nothing was said about it: " + clip(all_out(j)));
  }
}
static void c05_filter_run(const Cfg& c) {    // unequal extents, any stencil
  Rng r((u64) c.get("gseed"));
  int np = (int) c.get("np"), nd = (int) c.get("nd");
  RefFilter f = random_filter(r, np, nd, (int) c.get("maxl"), 2, 1, 1, c.get("cap") ? c.get("cap") : 600, false);
  u64 ds = (u64) c.get("dseed");
  f.setIndex(ds);
  f.apply();
  g_script = new_op(0, f) + fmt("SETI 0 %llu\nPAUSE\nAPPLY 0\nVTK 0 a.vtk\nPAUSE\n", (unsigned long long) ds);
  RefFilter g = f;
  bool twice = c.get("twice");
  if (twice) { g_script += "COPY 0\nAPPLY 0\nVTK 0 b.vtk\n"; g.copy(); g.apply(); }
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  io_reset();
  if (nd <= 3) stale_put(c, "a.vtk");
  Job* j = run_job(s);
  set_sample(fmt("%d ranks, grid %s saved %d times; %s", np, ixs(f.box.dims).c_str(), twice ? 2 : 1, j->status().c_str()));
  require_clean(j);
  auto files = io_files();
  auto op = io_openers();
  for (auto& kv : files) {
    if (kv.first != "a.vtk" && !(twice && kv.first == "b.vtk")) violate("saved file", "unexpected file " + kv.first);
    if (nd <= 3 && (op[kv.first] != 1 || g_io_writer[kv.first] != 0)) violate("saved file", fmt("%s was opened %d times, last by rank %d", kv.first.c_str(), op[kv.first], g_io_writer[kv.first]));
  }
  if (nd > 3) return;
  for (int k = 0; k < (twice ? 2 : 1); ++k) {
    std::string n = k ? "b.vtk" : "a.vtk";
    if (!files.count(n)) violate("saved file", n + " was not written");
    std::string e = vtk_uniform(files[n], k ? g : f, k + 1);
    if (!e.empty()) violate("saved file", n + ": " + e);
  }
}
static Reg r_c05a({"C05", "programs", 1, LIBS3, [](Rng& r, Cfg& c) { c.set("prog", r.range(0, 2)); prog_draw(r, c, 27); c.set("vtk", 1); c.set("stale", r.chance(0.2)); }, prog_valid, c05_run});
static Reg r_c05b({"C05", "filter", 1, {{"filterops", NCOPY}},
  [](Rng& r, Cfg& c) { c.set("np", draw_np(r, 18)); c.set("nd", r.range(1, r.chance(0.1) ? 4 : 3)); c.set("maxl", r.range(1, 5)); big_draw(r, c); c.set("gseed", r.range(0, 1000000000)); c.set("dseed", r.range(0, 1000000)); c.set("twice", r.chance(0.4)); c.set("stale", r.chance(0.2)); jobspec_draw(r, c); },
  np_nd_ok, c05_filter_run});

// ====================================================================== C06 (MPI programs)
void ioplan_draw(Rng& r, Cfg& c, i64 size) {     // size: about the length of the file
  c.set("io", r.range(1, 6));
  c.set("ioat", r.range(1, r.chance(0.5) ? 3 : 3 + size / 5000));
  c.set("iocap", r.chance(0.2) ? r.range(0, 40) : r.range(0, r.chance(0.3) ? 9000 : size + size / 10));
  c.set("ioerr", r.range(0, 3));
  c.set("iopersist", r.chance(0.5));
  c.set("eintr", r.chance(0.5) ? 0 : r.range(1, 60));
  c.set("short", r.chance(0.5) ? 0 : r.range(1, 80));
}
void ioplan_apply(const Cfg& c) {
  static const int errs[] = {ENOENT, EACCES, ENOSPC, EMFILE};
  g_io = IoPlan();
  switch (c.get("io")) {
    case 1: g_io.open_fail = (int) c.get("ioat"); g_io.open_errno = errs[c.get("ioerr") & 3]; break;
    case 2: g_io.capacity = c.get("iocap"); break;
    case 3: g_io.eio_at = (int) c.get("ioat"); break;
    case 4: g_io.close_fail = (int) c.get("ioat"); g_io.rename_fail = 1; break;
    default: break;    // interruptions and short writes only
  }
  g_io.persist = c.get("iopersist");
  g_io.p_eintr = c.get("eintr") * 0.01;
  g_io.p_short = c.get("short") * 0.01;
}
static void c06_run(const Cfg& c) {
  Prog p = prog_of(c);
  p.vtk = true;
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  ioplan_apply(c);
  if (p.nd <= 3) stale_put(c, vtk_name(p));
  Job* j = run_job(s);
  bool hard = g_io.failed;
  rec_job(j);
  if (!j->error.empty() || !j->heap.empty()) violate("job failed", j->status());
  if (j->deadlock) violate("hang after an I/O failure", j->status());
  if (j->exit_ok()) { if (p.nd <= 3) check_file("success reported with a bad file", p, true); }
  else if (!hard) violate("failure without a hard fault", "interrupted and short writes must not make the run fail: " + j->status());
  check_prints("printed results", p, j, !j->exit_ok());
}
static Reg r_c06a({"C06", "mpi-programs", 6, LIBS3,
  [](Rng& r, Cfg& c) {
    c.set("prog", r.range(0, 2));
    prog_draw(r, c, 9);
    c.set("vtk", 1);
    c.set("stale", r.chance(0.2));
    i64 nd = c.get("nd");
    if (r.chance(0.25) && nd < 4) {      // a file of many blocks
      i64 np = c.get("np");
      c.set("n", nd == 1 ? np * r.range(100 / np + 1, 1200 / np + 1) : nd == 2 ? np * r.range(12 / np + 1, 40 / np + 1) : np * (r.range(8, 13) / np + 1));
      c.set("steps", r.range(1, 3));
    }
    i64 nodes = 1, cells = 1;
    for (i64 i = 0; i < 3; ++i) { nodes *= i < nd ? c.get("n") + 1 : 2; if (i < nd) cells *= c.get("n"); }
    ioplan_draw(r, c, 250 + nodes * 11 + cells * 10);
  }, prog_valid, c06_run});

// ====================================================================== C07
static void c07_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  // where the fault-free run would be when the fault strikes
  int kind = (int) c.get("fkind");
  s.fault_kind = kind;
  s.fault_rank = (int) (c.get("frank") % s.np);
  s.fault_at = (u64) c.get("fat");
  s.fault_min = (u64) c.get("fmin");
  s.fault_on = c.get("fper");
  s.fault_wide = c.get("fwide");
  s.fault_len = (u64) c.get("flen", 1);
  s.fault_name = (int) c.get("fname");
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  if (!j->heap.empty()) violate("memory damaged", j->heap);
  if (!j->error.empty() && !j->fault_hit) violate("job failed", j->status());
  if (j->deadlock) violate("hang after a failure", j->status());
  bool ok = j->exit_ok();
  if (!ok && !j->fault_hit) violate("job failed", "no fault struck, but: " + j->status());
  if (ok) {
    if (p.kind < 2) check_prints("wrong result with success", p, j, false);
    check_file("wrong result with success", p, true);
    return;
  }
  check_prints("wrong result before failing", p, j, true);
  auto files = io_files();
  for (auto& kv : files) {
    if (kv.first != vtk_name(p) || !p.vtk) violate("wrong result before failing", "unexpected file " + kv.first);
    // whatever was written must be the beginning of the right file: compare every number that is complete
    std::string t = kv.second;
    Vtk v = read_vtk(t);
    if (v.field.empty()) continue;
    RefFilter f = p.kind == 0 ? ref_laplacian(p.n, p.nd) : p.kind == 1 ? ref_upmpi(p.n, p.steps) : ref_stencil2d(p.n);
    size_t m = v.err.empty() ? v.field.size() : v.field.size() - 1;
    Ix cells = f.box.dims;
    while (cells.size() < 3) cells.push_back(1);
    for (size_t q = 0; q < m; ++q) {
      Ix ix = {(i64) q % cells[0], (i64) q / cells[0] % cells[1], (i64) q / cells[0] / cells[1]};
      ix.resize(f.box.dims.size());
      i64 b = f.box.of(ix);
      if (!near(v.field[q], f.out[b], EPS * f.outMag[b] * 100 + 1.1e-5 * std::fabs(f.out[b]))) violate("wrong result before failing", fmt("file %s: value %zu is %.9g instead of %.9g", kv.first.c_str(), q, v.field[q], f.out[b]));
    }
  }
}
static Reg r_c07({"C07", "single-failure", 1, LIBS3,
  [](Rng& r, Cfg& c) {
    c.set("prog", r.chance(0.45) ? 0 : r.chance(0.8) ? 1 : 2);
    c.set("vtk", r.chance(0.4));
    prog_draw(r, c, 12);
    int k = (int) r.range(1, 4);
    c.set("fkind", k);
    c.set("frank", r.chance(0.4) ? 0 : r.range(0, 11));
    bool big = k == 3 && r.chance(0.5);      // a field, a buffer, a window: few allocations are that large
    if (big) { static const int m[] = {64, 200, 500, 1000, 3000}; c.set("fmin", m[r.below(5)]); if (c.get("vtk") == 0) c.set("vtk", r.chance(0.5)); }
    if (k != 1) c.set("fper", r.chance(0.25));
    if (k == 2) { c.set("fwide", r.chance(0.3)); c.set("flen", r.chance(0.5) ? 1 : r.range(2, 4)); }
    i64 per = c.get("prog") == 0 ? 10 * (2 * c.get("nd") * 3) + 20 : c.get("prog") == 1 ? c.get("steps") * 11 + 30 : 25;
    c.set("fat", big ? r.range(1, r.chance(0.6) ? 6 : 40) : k == 3 ? (r.chance(0.5) ? r.range(1, 300) : r.range(1, 30000)) : k == 4 ? r.range(1, 14) : r.chance(0.7) ? r.range(1, per) : r.range(1, 25));
    if (k <= 2 && r.chance(0.35)) { c.set("fname", r.range(1, 20)); c.set("fat", r.chance(0.6) ? 1 : r.chance(0.6) ? r.range(1, 4) : r.range(1, 30)); }
  },
  [](const Cfg& c) { return prog_valid(c) && c.get("fat") >= 1 && c.get("fkind") >= 1; }, c07_run});

// ====================================================================== C08
static bool is_clock(const MpiEv& e) { return !strcmp(e.op, "MPI_Wtime") || !strcmp(e.op, "MPI_(clock)"); }
static void c08_run(const Cfg& c) {
  Prog p = prog_of(c);
  JobSpec s;
  s.np = (int) c.get("np");
  prog_spec(p, s);
  jobspec_apply(c, s);
  io_reset();
  Job* j = run_job(s);
  rec_job(j);
  require_clean(j);
  auto l = lines_with(j->procs[0]->out, "min/max/avg");
  if (l.size() != 1) violate("timings", fmt("%zu lines of timings", l.size()));
  auto v = numbers_after(l[0], "avg");
  if (v.size() != 3) violate("timings", "'" + l[0] + "'");
  double mn = v[0], mx = v[1], av = v[2], slack = 2e-5;
  if (!(mn >= 0)) violate("timings", "negative or invalid minimum: '" + l[0] + "'");
  if (!(mn <= av * (1 + slack) + 1e-12) || !(av <= mx * (1 + slack) + 1e-12)) violate("timings", "not ordered: '" + l[0] + "'");
  // the readings of each rank's clock, and what they enclose
  int np = s.np;
  std::vector<std::vector<double>> wt(np);
  std::vector<std::vector<i64>> sines(np);
  std::vector<std::vector<int>> before(np), after(np);     // reading k is a possible start / end
  for (int k = 0; k < np; ++k) {
    std::vector<const MpiEv*> ev;
    for (auto& e : j->log) if (e.rank == k) ev.push_back(&e);
    int lastcreate = -1, firstfence = -1, lastfence = -1, firstred = -1;
    for (size_t i = 0; i < ev.size(); ++i) {
      std::string o = ev[i]->op;
      // one-sided transfers: point-to-point messages and collectives may as well set a job up, gather the times or write a file
      bool halo = o == "MPI_Win_fence" || o == "MPI_Get" || o == "MPI_Put" || o == "MPI_Rget" || o == "MPI_Rput" || o == "MPI_Win_lock" || o == "MPI_Win_unlock" || o == "MPI_Win_start" ||
                  o == "MPI_Win_complete" || o == "MPI_Win_post" || o == "MPI_Win_wait" || o == "MPI_Win_flush" || o == "MPI_Win_lock_all" || o == "MPI_Win_unlock_all";
      if (o == "MPI_Win_create" || o == "MPI_Win_allocate" || o == "MPI_Win_create_dynamic") lastcreate = firstfence < 0 && lastcreate > -2 ? (int) i : -2;   // -2: windows are made in the loop
      if (halo) { if (firstfence < 0) firstfence = (int) i; lastfence = (int) i; firstred = -1; }
      if (firstred < 0 && (o == "MPI_Gather" || o == "MPI_Gatherv" || ((o == "MPI_Reduce" || o == "MPI_Allreduce") && (ev[i]->a == 2 || ev[i]->a == 3)))) firstred = (int) i;
    }
    for (size_t i = 0; i < ev.size(); ++i)
      if (is_clock(*ev[i])) {
        wt[k].push_back(ev[i]->wt);
        sines[k].push_back(ev[i]->a);
        before[k].push_back((int) i > lastcreate && (firstfence < 0 || (int) i < firstfence));
        after[k].push_back((int) i > lastfence && (firstred < 0 || (int) i < firstred));
      }
  }
  // ranks that read the clock equally often use the same pair of readings
  std::vector<std::vector<int>> groups;
  std::map<size_t, size_t> of;
  for (int k = 0; k < np; ++k) {
    if (!of.count(wt[k].size())) { of[wt[k].size()] = groups.size(); groups.push_back({}); }
    groups[of[wt[k].size()]].push_back(k);
  }
  if (groups.size() > 2) violate("timings", "ranks read the clock a different number of times");
  double slop = 1e-15;
  for (auto& e : j->log) if (!strcmp(e.op, "MPI_(clock)")) slop = 2.1e-6;      // clocks of the operating system tell whole micro- or nanoseconds
  auto close = [&](double a, double b) { return std::fabs(a - b) <= 1.1e-5 * std::fabs(b) + slop; };
  std::string seen, why;
  struct Pair { size_t a, b; double lo, hi, sum; };
  std::vector<std::vector<Pair>> cand(groups.size());
  for (size_t g = 0; g < groups.size(); ++g) {
    size_t nw = wt[groups[g][0]].size();
    for (size_t a = 0; a < nw; ++a)
      for (size_t b = a + 1; b < nw; ++b) {
        Pair q = {a, b, 1e300, -1e300, 0};
        bool fit = true;
        for (int k : groups[g]) {
          fit = fit && before[k][a] && after[k][b];
          double d = wt[k][b] - wt[k][a];
          q.lo = std::min(q.lo, d);
          q.hi = std::max(q.hi, d);
          q.sum += d;
        }
        if (fit) cand[g].push_back(q);
      }
  }
  if (groups.size() == 1) cand.push_back({{0, 0, 1e300, -1e300, 0}});
  for (auto& q0 : cand[0])
    for (auto& q1 : cand[1]) {
      double lo = std::min(q0.lo, q1.lo), hi = std::max(q0.hi, q1.hi), sum = q0.sum + q1.sum;
      if (seen.size() < 1000) seen += fmt(" [%g %g %g]", lo, hi, sum / np);
      if (!(close(mn, lo) && close(mx, hi) && close(av, sum / np))) continue;
      bool pure = true;
      for (int k = 0; k < np; ++k) {     // waiting for the others in front of the loop or behind it is no part of the loop
        size_t a = of[wt[k].size()] ? q1.a : q0.a, b = of[wt[k].size()] ? q1.b : q0.b;
        bool in = false;
        int bar = 0, loopbar = 0, at = -1, firsthalo = -1, lasthalo = -1, w = 0, i = 0, a0 = -1, b0 = -1;
        for (auto& e : j->log) {
          if (e.rank != k) continue;
          if (is_clock(e)) { if (w == (int) a) { in = true; a0 = i; } if (w == (int) b) { in = false; b0 = i; } ++w; }
          if (in && (!strncmp(e.op, "MPI_Win_", 8) || !strcmp(e.op, "MPI_Get") || !strcmp(e.op, "MPI_Put"))) { if (firsthalo < 0) firsthalo = i; lasthalo = i; }
          ++i;
        }
        i = 0;
        for (auto& e : j->log) {
          if (e.rank != k) continue;
          if (i > a0 && i < b0 && firsthalo >= 0 && !strcmp(e.op, "MPI_Barrier")) { if (i > firsthalo && i < lasthalo) ++loopbar; else { ++bar; at = i; } }
          ++i;
        }
        // collective calls next to the loop: more of them than ever lie between two exchanges of it
        int run = 0, gap = 0, head = 0, tail = 0, seenhalo = 0;
        i = 0;
        for (auto& e : j->log) {
          if (e.rank != k) continue;
          if (i > a0 && i < b0) {
            if (!strncmp(e.op, "MPI_Win_", 8) || !strcmp(e.op, "MPI_Get") || !strcmp(e.op, "MPI_Put")) { if (seenhalo) gap = std::max(gap, run); else head = run; seenhalo = 1; run = 0; }
            else if (strstr(e.op, "educe") || strstr(e.op, "ather") || strstr(e.op, "Bcast") || strstr(e.op, "bcast") || strstr(e.op, "catter")) ++run;
          }
          ++i;
        }
        tail = run;
        if (seenhalo && head + tail > gap && (p.kind == 0 || p.steps > 2)) { pure = false; why = fmt("; the matching pair on rank %d encloses %d collective calls that are no part of the loop", k, head + tail - gap); }
        if (p.kind == 0 && sines[k][a] != sines[k][b]) { pure = false; why = fmt("; the matching pair on rank %d encloses the set-up of the initial field", k); }
        if (bar && !loopbar && (p.kind == 0 || p.steps > 2)) { pure = false; why = fmt("; the matching pair on rank %d encloses an MPI_Barrier (its MPI call %d) that is no part of the loop", k, at); }
      }
      if (pure) return;
    }
  violate("timings", "'" + l[0] + "' is not the minimum, maximum and mean of any pair of clock readings around the loop:" + (seen.empty() ? " no such pair" : seen) + why);
}
static Reg r_c08({"C08", "programs", 1, {{"laplacian", NCOPY}, {"upwindmpi", NCOPY}}, [](Rng& r, Cfg& c) { c.set("prog", r.range(0, 1)); c.set("vtk", r.chance(0.3)); prog_draw(r, c, 16); }, prog_valid, c08_run});

// ====================================================================== C15
// ans[k]: what was said about rank k
static void c15_check(const Ix& dims, int np, const std::vector<std::string>& ans) {
  int nd = (int) dims.size();
  auto all = decomps(np, dims);
  bool any = !all.empty();
  if (!any) count(CT_INVALID);
  Ix dec;
  std::vector<Ix> lo(np), hi(np);
  std::vector<std::vector<i64>> nb(np);
  for (int k = 0; k < np; ++k) {
    std::istringstream is(ans[k]);
    std::string w;
    int id;
    i64 ok;
    is >> w >> id >> ok;
    if ((bool) ok != any) violate("decomposition", fmt("rank %d %s a decomposition of %s over %d ranks, but %s exists", k, ok ? "found" : "did not find", ixs(dims).c_str(), np, any ? "one" : "none"));
    if (!ok) continue;
    auto rd = [&](int n) { Ix v; i64 x; for (int i = 0; i < n && is >> x; ++i) v.push_back(x); return v; };
    Ix d = rd(nd);
    if (k == 0) dec = d;
    if (d != dec) violate("decomposition", fmt("rank %d decomposes as %s, rank 0 as %s", k, ixs(d).c_str(), ixs(dec).c_str()));
    lo[k] = rd(nd);
    hi[k] = rd(nd);
    nb[k] = rd(2 * nd);
    if ((int) nb[k].size() != 2 * nd) violate("decomposition", fmt("rank %d: '%s'", k, ans[k].c_str()));
  }
  if (!any) return;
  i64 prod = 1;
  for (i64 x : dec) prod *= x;
  if (prod != np) violate("decomposition", fmt("decomposition %s for %d ranks", ixs(dec).c_str(), np));
  // equal, disjoint blocks that number as many as it takes to fill the grid: every cell has exactly one owner
  Ix e(nd);
  for (int i = 0; i < nd; ++i) e[i] = hi[0][i] - lo[0][i];
  std::map<Ix, int> at;
  for (int k = 0; k < np; ++k) {
    Ix key(nd);
    for (int i = 0; i < nd; ++i) {
      if (lo[k][i] < 0 || hi[k][i] > dims[i] || lo[k][i] >= hi[k][i]) violate("decomposition", fmt("rank %d holds [%s, %s) of %s", k, ixs(lo[k]).c_str(), ixs(hi[k]).c_str(), ixs(dims).c_str()));
      if (hi[k][i] - lo[k][i] != e[i]) violate("decomposition", fmt("sub-domains of rank 0 and rank %d differ in shape", k));
      if (e[i] * dec[i] != dims[i]) violate("decomposition", fmt("axis %d of %s has sub-domains of %lld cells, %lld of them", i, ixs(dims).c_str(), (long long) e[i], (long long) dec[i]));
      if (lo[k][i] % e[i]) violate("decomposition", fmt("rank %d starts at %s, sub-domains have the shape %s", k, ixs(lo[k]).c_str(), ixs(e).c_str()));
      key[i] = lo[k][i] / e[i];
    }
    auto ins = at.insert({key, k});
    if (!ins.second) violate("decomposition", fmt("the cells from %s of %s belong to ranks %d and %d", ixs(lo[k]).c_str(), ixs(dims).c_str(), ins.first->second, k));
  }
  for (int k = 0; k < np; ++k)
    for (int i = 0; i < nd; ++i)
      for (int sgn = 0; sgn < 2; ++sgn) {
        i64 o = nb[k][2 * i + sgn];
        if (o < 0 || o >= np) violate("decomposition", fmt("neighbour of rank %d is %lld", k, (long long) o));
        if (nb[o][2 * i + 1 - sgn] != k) violate("decomposition", fmt("rank %lld is the neighbour of rank %d along axis %d, but not the other way round", (long long) o, k, i));
        Ix v(nd);
        for (int q = 0; q < nd; ++q) v[q] = lo[k][q] / e[q];
        v[i] = (v[i] + (sgn ? 1 : dec[i] - 1)) % dec[i];
        if (!at.count(v)) violate("decomposition", fmt("the cells from block %s of %s belong to no rank", ixs(v).c_str(), ixs(dims).c_str()));
        if (at[v] != o) violate("decomposition", fmt("neighbour of rank %d along axis %d (%s) should be rank %d, not %lld", k, i, sgn ? "up" : "down", at[v], (long long) o));
      }
  double best = 1e300;
  Ix bd;
  for (auto& d : all) if (decomp_cost(dims, d) < best) { best = decomp_cost(dims, d); bd = d; }
  if (decomp_cost(dims, dec) > best * (1 + 1e-9))
    violate("not the best decomposition", fmt("grid %s over %d ranks: decomposition %s has surface/volume %.6g, %s has %.6g", ixs(dims).c_str(), np, ixs(dec).c_str(), decomp_cost(dims, dec), ixs(bd).c_str(), best));
}
static void c15_run(const Cfg& c) {
  int np = (int) c.get("np"), nd = (int) c.get("nd");
  Ix dims(nd);
  std::string op = fmt("DECOMP 1 %d %d", np, nd);
  for (int i = 0; i < nd; ++i) { dims[i] = c.get(fmt("d%d", i)); op += fmt(" %lld", (long long) dims[i]); }
  g_script = op + "\n";
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  std::string o0 = j->procs[0]->obs.empty() ? "" : j->procs[0]->obs[0];
  set_sample(fmt("grid %s on %d ranks: rank 0 sees '%s'; %s", ixs(dims).c_str(), np, o0.c_str(), j->status().c_str()));
  require_clean(j);
  std::vector<std::string> ans;
  for (auto p : j->procs) {
    if (p->obs.size() != 1) violate("decomposition", fmt("rank %d gave no answer", p->rank));
    ans.push_back(p->obs[0]);
  }
  c15_check(dims, np, ans);
}
// extents that can be divided in more ways
static void more_factors(Rng& r, int np, Ix& d) {
  if (!r.chance(0.4)) return;
  std::vector<int> f;
  for (int q = 2, m = np; m > 1; ) if (m % q == 0) { f.push_back(q); m /= q; } else ++q;
  for (auto& x : d) if (x && !f.empty() && r.chance(0.6)) { i64 y = x * f[r.below(f.size())]; if (y <= 2000) x = y; }
}
// a decomposition over more processes than the job has ranks: every rank tells what it knows about its share of them
static void c15_many_run(const Cfg& c) {
  int np = (int) c.get("np"), nd = (int) c.get("nd"), total = (int) c.get("total");
  Ix dims(nd);
  std::string op = fmt("DECOMPN 1 %d %d", total, nd);
  for (int i = 0; i < nd; ++i) { dims[i] = c.get(fmt("d%d", i)); op += fmt(" %lld", (long long) dims[i]); }
  g_script = op + "\n";
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  std::string o0 = j->procs[0]->obs.empty() ? "" : j->procs[0]->obs[0];
  set_sample(fmt("grid %s over %d processes, as seen by a job of %d ranks: '%s'; %s", ixs(dims).c_str(), total, np, o0.c_str(), j->status().c_str()));
  require_clean(j);
  std::vector<std::string> ans(total);
  for (auto p : j->procs) {
    size_t at = 0;
    for (int k = p->rank; k < total; k += np) {
      if (at >= p->obs.size()) violate("decomposition", fmt("rank %d said nothing about process %d", p->rank, k));
      ans[k] = p->obs[at++];
    }
  }
  c15_check(dims, total, ans);
}
// several grids in one job, asked again about any rank after others have been built
static void c15_hist_run(const Cfg& c) {
  int np = (int) c.get("np"), n = (int) c.get("nops");
  std::vector<Ix> grids;
  std::vector<std::pair<int, int>> ops;      // grid, shift
  g_script.clear();
  for (int q = 0; q < n; ++q) {
    Rng o(mix((u64) c.get("opseed"), (u64) q));
    if (grids.empty() || o.chance(0.5)) {
      Ix d;
      if (!grids.empty() && o.chance(0.5)) {      // the same cells in another shape
        d = grids[o.below(grids.size())];
        int i = (int) o.below(d.size()), k = (int) o.below(d.size());
        std::swap(d[i], d[k]);
        for (i64 f = 2; f < 6; ++f) if (d[i] % f == 0 && i != k && o.chance(0.6)) { d[i] /= f; d[k] *= f; break; }
      } else {
        int nd = (int) o.range(1, 4);
        d = o.chance(0.8) ? random_dims(o, np, nd, nd < 3 ? 8 : 4, 6000) : Ix();
        if (d.empty()) for (int i = 0; i < nd; ++i) d.push_back(o.range(1, 12));
      }
      ops.push_back({(int) grids.size(), 0});
      g_script += fmt("DECOMP %zu %d %zu", grids.size(), np, d.size());
      for (i64 x : d) g_script += fmt(" %lld", (long long) x);
      g_script += "\n";
      grids.push_back(d);
    } else {
      ops.push_back({(int) o.below(grids.size()), (int) o.below((u64) np)});
      g_script += fmt("DQUERY %d %d\n", ops.back().first, ops.back().second);
    }
  }
  JobSpec s;
  s.lib = "filterops";
  s.np = np;
  jobspec_apply(c, s);
  Job* j = run_job(s);
  set_sample(fmt("%zu grids in one job of %d ranks: ", grids.size(), np) + clip(g_script, 300) + "; " + j->status());
  require_clean(j);
  for (size_t q = 0; q < ops.size(); ++q) {
    std::vector<std::string> ans(np);
    for (auto p : j->procs) {
      if (p->obs.size() != ops.size()) violate("decomposition", fmt("rank %d gave no answer", p->rank));
      ans[(p->rank + ops[q].second) % np] = p->obs[q];
    }
    c15_check(grids[ops[q].first], np, ans);
  }
}
static bool c15_valid(const Cfg& c) {
  if (c.get("np") < 1 || c.get("nd") < 1 || c.get("nd") > 4) return false;
  i64 work = 0;
  double combos = 1;
  for (int i = 0; i < c.get("nd"); ++i) {
    i64 n = c.get(fmt("d%d", i)), k = 0;
    if (n < 1 || n > 2000000) return false;
    for (i64 q = 1; q * q <= n; ++q) if (n % q == 0) k += q * q == n ? 1 : 2;
    work += n;
    combos *= k + 1;
  }
  return (double) work * c.get("np") <= 8e6 && combos * c.get("np") <= 3e5;
}
// grids too large to hold, for which numbers of processes, cells and combinations of divisors exceed 32 bits
struct HugeGrid { int np; i64 d[4]; };
static const HugeGrid huge_grids[] = {   // no decomposition exists, but a product of divisors is np modulo 2^32
  {3, {69817, 123035}}, {6, {40522, 105991}}, {7, {61751, 69553}}, {9, {48145, 89209}}, {12, {81044, 105991}}, {14, {61751, 139106}}, {14, {69553, 123502}},
  {3, {1331, 2237, 2885}}, {6, {2237, 2662, 2885}}, {9, {2237, 2885, 3993}}, {19, {717, 3057, 3919}}};
static void c15_huge_draw(Rng& r, Cfg& c) {
  for (int attempt = 0;; ++attempt) {
    int nd, np;
    Ix d(4, 1);
    if (r.chance(0.4)) {
      const HugeGrid& h = huge_grids[r.range(0, (int) (sizeof huge_grids / sizeof *huge_grids) - 1)];
      np = h.np;
      for (nd = 0; nd < 4 && h.d[nd]; ++nd) d[nd] = h.d[nd];
      for (int i = 0; i < nd; ++i) { int k = (int) r.range(0, nd - 1); std::swap(d[i], d[k]); }
    } else {
      nd = (int) r.range(1, 4);
      np = draw_np(r, 24);
      i64 cap = nd == 1 ? 1000000 : nd == 2 ? 200000 : nd == 3 ? 20000 : 5000;
      i64 rest = np;
      for (int i = 0; i < nd; ++i) {
        i64 g = 1;
        for (i64 q = 2; q <= rest; ++q) while (rest % q == 0 && (i == nd - 1 || r.chance(0.5))) { g *= q; rest /= q; }
        d[i] = g * r.range(std::max<i64>(1, cap / g / (r.chance(0.5) ? 1 : 50)), cap / g);
      }
      if (r.chance(0.2)) d[r.range(0, nd - 1)] = r.range(1, cap);
    }
    Cfg t = c;
    t.set("nd", nd);
    t.set("np", np);
    for (int i = 0; i < 4; ++i) t.set(fmt("d%d", i), d[i]);
    if (!c15_valid(t) && attempt < 500) continue;
    c = t;
    break;
  }
  jobspec_draw(r, c);
}
static void c15_many_draw(Rng& r, Cfg& c) {
  for (int attempt = 0;; ++attempt) {
    int nd = (int) r.range(1, 4);
    int total = (int) (r.chance(0.6) ? r.range(30, 400) : r.chance(0.7) ? r.range(400, 2000) : r.range(2000, 6000));
    c.set("nd", nd);
    c.set("np", r.range(1, 6));
    c.set("total", total);
    Ix d = random_dims(r, total, nd, nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 6 : 4, 200000000000LL);
    more_factors(r, total, d);
    if (r.chance(0.15)) d[r.below(nd)] = r.range(1, 60);
    for (int i = 0; i < 4; ++i) c.set(fmt("d%d", i), i < nd ? d[i] : 1);
    if (c15_valid(c) || attempt > 500) break;
  }
  jobspec_draw(r, c);
}
static Reg r_c15m({"C15", "many processes", 1, {{"filterops", NCOPY}}, c15_many_draw, [](const Cfg& c) { return c15_valid(c) && c.get("total") >= 1; }, c15_many_run});
static Reg r_c15h({"C15", "huge grids", 1, {{"filterops", NCOPY}}, c15_huge_draw, c15_valid, c15_run});
static Reg r_c15i({"C15", "history", 2, {{"filterops", NCOPY}},
  [](Rng& r, Cfg& c) { c.set("np", draw_np(r, 24)); c.set("nops", r.range(2, 12)); c.set("opseed", r.range(0, 1000000000)); jobspec_draw(r, c); },
  [](const Cfg& c) { return c.get("np") >= 1 && c.get("nops") >= 1; }, c15_hist_run});
static Reg r_c15({"C15", "decompositions", 8, {{"filterops", NCOPY}},
  [](Rng& r, Cfg& c) {
    int nd = (int) r.range(1, 4);
    int np = r.chance(0.6) ? draw_np(r, 36) : (int) r.range(1, 32);
    c.set("nd", nd);
    c.set("np", np);
    Ix d = r.chance(0.75) ? random_dims(r, np, nd, nd < 3 ? 12 : 6, 30000) : Ix(nd);
    more_factors(r, np, d);
    for (int i = 0; i < 4; ++i) c.set(fmt("d%d", i), i < nd ? (d[i] ? d[i] : r.range(1, nd == 1 ? 300 : nd == 2 ? 60 : 14)) : 1);
    jobspec_draw(r, c);
  },
  [](const Cfg& c) { if (c.get("np") < 1 || c.get("nd") < 1 || c.get("nd") > 4) return false; for (int i = 0; i < c.get("nd"); ++i) if (c.get(fmt("d%d", i)) < 1) return false; return true; }, c15_run});

}  // namespace sim
