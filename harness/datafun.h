// Test data shared by the harness programs and the reference models.
#ifndef DATAFUN_H
#define DATAFUN_H
#include <vector>
static inline unsigned long dataHash(unsigned long s, unsigned long x) {
  unsigned long z = s * 0x9E3779B97F4A7C15ul + x * 0xC2B2AE3D27D4EB4Ful + 0x165667B19E3779F9ul;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ul;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBul;
  return z ^ (z >> 31);
}
static inline double dataByIndex(unsigned long seed, const std::vector<long>& v) {
  unsigned long h = seed;
  for (unsigned long i = 0; i < v.size(); ++i) h = dataHash(h, (unsigned long) v[i] + 1);
  return (double) ((long) (h % 101) - 50);
}
static inline double dataByPos(unsigned long seed, const std::vector<double>& pos) {
  double s = 0.25 + (double) (seed % 17), p = 1;
  for (unsigned long i = 0; i < pos.size(); ++i) {
    double c = 1.0 + (double) (dataHash(seed, i + 7) % 11);
    s += c * pos[i];
    p *= pos[i] + 0.375;
  }
  return s + p;
}
#endif
