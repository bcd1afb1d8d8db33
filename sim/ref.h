// Small executable reference models used as oracles.
#ifndef SIM_REF_H
#define SIM_REF_H
#include "core.h"
#include "datafun.h"
#include <cmath>
namespace sim {

typedef std::vector<i64> Ix;
struct Box {                       // global index space; cells are numbered with the last index fastest
  Ix dims;
  i64 n = 1;
  Box() {}
  explicit Box(const Ix& d) : dims(d) { for (i64 x : d) n *= x; }
  Ix at(i64 k) const { Ix r(dims.size()); for (int i = (int) dims.size() - 1; i >= 0; --i) { r[i] = k % dims[i]; k /= dims[i]; } return r; }
  i64 of(const Ix& v) const { i64 k = 0; for (size_t i = 0; i < dims.size(); ++i) k = k * dims[i] + v[i]; return k; }
  i64 wrap(const Ix& v, const std::vector<int>& off) const {
    i64 k = 0;
    for (size_t i = 0; i < dims.size(); ++i) { i64 x = (v[i] + off[i]) % dims[i]; if (x < 0) x += dims[i]; k = k * dims[i] + x; }
    return k;
  }
};
typedef std::vector<std::pair<std::vector<int>, double>> Stencil;

struct RefFilter {
  Box box;
  Stencil st;
  std::vector<double> lo, hi, in, out, inMag, outMag;   // Mag: bound of the magnitudes added up, for rounding
  bool set = false;
  RefFilter() {}
  RefFilter(const Ix& d, const std::vector<double>& l, const std::vector<double>& h, const Stencil& s)
      : box(d), st(s), lo(l), hi(h), in(box.n, 0.0), out(box.n, 0.0), inMag(box.n, 0.0), outMag(box.n, 0.0) {}
  void put(i64 k, double v) { in[k] = v; inMag[k] = std::fabs(v) * 4; }
  void setIndex(u64 seed) { set = true; for (i64 k = 0; k < box.n; ++k) { Ix v = box.at(k); put(k, dataByIndex(seed, std::vector<long>(v.begin(), v.end()))); } }
  std::vector<double> pos(i64 k) const {
    Ix v = box.at(k);
    std::vector<double> p(v.size());
    for (size_t i = 0; i < v.size(); ++i) p[i] = lo[i] + (v[i] + 0.5) * ((hi[i] - lo[i]) / (double) box.dims[i]);
    return p;
  }
  void setPos(u64 seed) {
    set = true;
    for (i64 k = 0; k < box.n; ++k) {
      std::vector<double> p = pos(k), q(p);
      put(k, dataByPos(seed, p));
      for (auto& x : q) x = std::fabs(x) + 1;
      inMag[k] = 16 * (std::fabs(dataByPos(seed, q)) + 1);
    }
  }
  template <class F> void setFun(F f) { set = true; for (i64 k = 0; k < box.n; ++k) put(k, f(k)); }
  void apply() {
    for (i64 k = 0; k < box.n; ++k) {
      double s = 0, m = 0;
      Ix v = box.at(k);
      for (auto& e : st) {
        i64 j = box.wrap(v, e.first);
        s += e.second * in[j];
        m += std::fabs(e.second) * inMag[j];
      }
      out[k] = s;
      outMag[k] = m * 1.05 + std::fabs(s);
    }
  }
  void copy() { set = true; in = out; inMag = outMag; }
  double sum(bool input) const { double s = 0; for (double x : input ? in : out) s += x; return s; }
  double sumMag(bool input) const { double s = 0; for (double x : input ? inMag : outMag) s += x; return s * std::sqrt((double) box.n + 16); }
};
static const double EPS = 2.3e-16;
inline bool near(double got, double want, double tol) { return std::fabs(got - want) <= tol || got == want; }   // false on NaN

// ------------------------------------------------------------ decompositions
inline void decomps_rec(i64 np, const Ix& dims, size_t i, Ix& cur, std::vector<Ix>& out) {
  if (i == dims.size()) { if (np == 1) out.push_back(cur); return; }
  for (i64 f = 1; f <= dims[i] && f <= np; ++f)
    if (dims[i] % f == 0 && np % f == 0) { cur[i] = f; decomps_rec(np / f, dims, i + 1, cur, out); }
}
inline std::vector<Ix> decomps(i64 np, const Ix& dims) {
  std::vector<Ix> r;
  Ix c(dims.size());
  decomps_rec(np, dims, 0, c, r);
  return r;
}
inline double decomp_cost(const Ix& dims, const Ix& d) {   // surface over volume of a sub-domain = sum of 1/extent
  double s = 0;
  for (size_t i = 0; i < dims.size(); ++i) s += (double) d[i] / (double) dims[i];
  return s;
}
inline bool has_decomp(i64 np, const Ix& dims) { return !decomps(np, dims).empty(); }
// smallest sub-domain extents among all decompositions of least cost
inline Ix safe_extents(i64 np, const Ix& dims) {
  double best = 1e300;
  auto all = decomps(np, dims);
  for (auto& d : all) best = std::min(best, decomp_cost(dims, d));
  Ix e = dims;
  for (auto& d : all)
    if (decomp_cost(dims, d) <= best * (1 + 1e-9))
      for (size_t i = 0; i < dims.size(); ++i) e[i] = std::min(e[i], dims[i] / d[i]);
  return e;
}

// ------------------------------------------------------------ VTK files
struct Vtk {
  std::string kind, name;
  Ix dims;
  std::vector<double> pts, x, y, z, field;
  std::string err;
};
inline Vtk read_vtk(const std::string& s) {
  Vtk v;
  size_t p = 0;
  std::string line[3];
  for (int i = 0; i < 3; ++i) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) { v.err = "header is cut off"; return v; }
    line[i] = s.substr(p, e - p);
    p = e + 1;
  }
  if (line[0].find("# vtk DataFile Version") == std::string::npos) { v.err = "no VTK header"; return v; }
  if (line[2].find("ASCII") == std::string::npos) { v.err = "not ASCII"; return v; }
  std::istringstream is(s.substr(p));
  std::string w, t;
  auto nums = [&](i64 n, std::vector<double>& o, const char* what) {
    for (i64 i = 0; i < n; ++i) {
      if (!(is >> w)) { v.err = std::string("file is cut off in ") + what; return false; }
      char* e;
      double d = strtod(w.c_str(), &e);
      if (*e) { v.err = std::string("bad number '") + w + "' in " + what; return false; }
      o.push_back(d);
    }
    return true;
  };
  i64 n, cells = -1;
  bool scal = false;
  while (is >> w) {
    if (w == "DATASET") { is >> v.kind; }
    else if (w == "DIMENSIONS") { v.dims.resize(3); if (!(is >> v.dims[0] >> v.dims[1] >> v.dims[2])) { v.err = "bad DIMENSIONS"; return v; } }
    else if (w == "POINTS") { if (!(is >> n >> t) || n < 0 || n > 10000000) { v.err = "bad POINTS"; return v; } if (!nums(3 * n, v.pts, "POINTS")) return v; }
    else if (w == "X_COORDINATES" || w == "Y_COORDINATES" || w == "Z_COORDINATES") {
      std::string k = w;
      if (!(is >> n >> t) || n < 0 || n > 10000000) { v.err = "bad " + k; return v; }
      if (!nums(n, k[0] == 'X' ? v.x : k[0] == 'Y' ? v.y : v.z, k.c_str())) return v;
    }
    else if (w == "CELL_DATA") { if (!(is >> cells) || cells < 0) { v.err = "bad CELL_DATA"; return v; } }
    else if (w == "SCALARS") {
      std::string rest;
      std::getline(is, rest);
      std::istringstream rs(rest);
      rs >> v.name;
      if (!(is >> w) || w != "LOOKUP_TABLE" || !(is >> w)) { v.err = "no LOOKUP_TABLE"; return v; }
      if (cells < 0) { v.err = "SCALARS without CELL_DATA"; return v; }
      if (scal) { v.err = "two fields"; return v; }
      scal = true;
      if (!nums(cells, v.field, "the field")) return v;
    } else { v.err = "unexpected '" + w.substr(0, 40) + "'"; return v; }
  }
  if (v.dims.empty()) v.err = "no DIMENSIONS";
  else if (!scal) v.err = "no field";
  return v;
}
inline std::string near_list(const std::vector<double>& got, const std::vector<double>& want, double tol, const char* what) {
  if (got.size() != want.size()) return fmt("%s has %zu values instead of %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!near(got[i], want[i], tol + 1.1e-5 * std::fabs(want[i]))) return fmt("%s value %zu is %.9g instead of %.9g", what, i, got[i], want[i]);
  return "";
}

// ------------------------------------------------------------ upwind scheme (all programs solve it with speed +1 unless told otherwise)
struct RefUpwind {
  Box box;
  std::vector<double> v, len, f;
  RefUpwind(const Ix& d, const std::vector<double>& vel, const std::vector<double>& l) : box(d), v(vel), len(l), f(box.n, 0.0) { f[0] = 1; }
  void step(double dt) {
    std::vector<double> o = f;
    for (i64 k = 0; k < box.n; ++k) {
      Ix ix = box.at(k);
      for (size_t j = 0; j < box.dims.size(); ++j) {
        int up = v[j] < 0 ? 1 : -1;
        std::vector<int> off(box.dims.size(), 0);
        off[j] = up;
        double coeff = dt * v[j] * up / (len[j] / (double) box.dims[j]);
        f[k] -= coeff * (o[box.wrap(ix, off)] - o[k]);
      }
    }
  }
  double sum() const { double s = 0; for (double x : f) s += x; return s; }
  double std() const {
    double m = sum() / (double) box.n, r = 0;
    for (double x : f) r += (x - m) * (x - m);
    return std::sqrt(r / (double) box.n);
  }
};
// the field of the fixed problem: n^3 cells, unit velocity and domain, Courant number 0.1
inline RefUpwind upwind_cube(i64 n, i64 steps, size_t nd = 3) {
  RefUpwind u(Ix(nd, n), std::vector<double>(nd, 1.0), std::vector<double>(nd, 1.0));
  for (i64 i = 0; i < steps; ++i) u.step(0.1 * (1.0 / (double) n));
  return u;
}

// ------------------------------------------------------------ text
inline std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l)) r.push_back(l);
  return r;
}
inline int count_in(const std::string& s, const std::string& k) {
  int n = 0;
  for (size_t p = s.find(k); p != std::string::npos; p = s.find(k, p + k.size())) ++n;
  return n;
}
// the numbers on a line after the first place where the text occurs; anything else between them is skipped
inline std::vector<double> numbers_after(const std::string& l, const std::string& key) {
  std::vector<double> r;
  size_t p = l.find(key);
  if (p == std::string::npos) return r;
  p += key.size();
  while (p < l.size()) {
    const char* b = l.c_str() + p;
    char* e;
    bool start = isdigit((unsigned char) *b) || ((*b == '-' || *b == '+' || *b == '.') && (isdigit((unsigned char) b[1]) || b[1] == '.' || b[1] == 'n' || b[1] == 'i')) ||
                 (!strncasecmp(b, "nan", 3) && !isalpha((unsigned char) b[3]) && (p == 0 || !isalpha((unsigned char) b[-1]))) ||
                 (!strncasecmp(b, "inf", 3) && (p == 0 || !isalpha((unsigned char) b[-1])) && (!isalpha((unsigned char) b[3]) || !strncasecmp(b, "infinity", 8)));
    if (start) {
      double d = strtod(b, &e);
      if (e != b) { r.push_back(d); p = (size_t) (e - l.c_str()); continue; }
    }
    ++p;
  }
  return r;
}
inline std::vector<std::string> lines_with(const std::string& s, const std::string& k) {
  std::vector<std::string> r;
  for (auto& l : lines_of(s)) if (l.find(k) != std::string::npos) r.push_back(l);
  return r;
}
inline std::string clip(const std::string& s, size_t n = 300) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
inline std::string ixs(const Ix& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += fmt("%s%lld", i ? "x" : "", (long long) v[i]); return s; }
}  // namespace sim
#endif
