// Drives the solver class of an upwind program directly: any dimension, unequal extents, any velocity.
// Arguments: nd n1.. v1.. l1.. dt save steps...    (one advect per entry of steps)
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#define main program_main
#include UPWIND_SRC
#undef main
#ifndef DIM_LO
#define DIM_LO 1
#define DIM_HI 4
#endif
struct Cells {      // the programs differ in the integer type of their extents
  std::vector<long> v;
  template <class T> operator std::vector<T>() const { return std::vector<T>(v.begin(), v.end()); }
};
template <class U> static auto run_steps(U& u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) { u.advect(n, dt); }
template <class U> static auto run_steps(U& u, int n, double dt, long) -> decltype(u.advect(dt), void()) { for (int i = 0; i < n; ++i) u.advect(dt); }
template <class U> static auto show_std(U& u, int) -> decltype(u.std(), void()) { std::cout << "STD " << u.std() << '\n'; }
template <class U> static void show_std(U&, long) { std::cout << "STD none\n"; }
template <size_t ND> static int drive(char** a, int n) {
  int k = 0;
  Cells cells;
  std::vector<double> v, l;
  for (size_t i = 0; i < ND; ++i) cells.v.push_back(atol(a[k++]));
  for (size_t i = 0; i < ND; ++i) v.push_back(atof(a[k++]));
  for (size_t i = 0; i < ND; ++i) l.push_back(atof(a[k++]));
  double dt = atof(a[k++]);
  int save = atoi(a[k++]);
  Upwind<ND> u(v, l, cells);
  std::cout.precision(17);
  for (; k < n; ++k) {
    run_steps(u, atoi(a[k]), dt, 0);
    std::cout << "PRINT\n";
    u.print();
    std::cout << "CHECKSUM " << u.checksum() << '\n';
    show_std(u, 0);
  }
  if (save) u.saveVTK("class.vtk");
  return 0;
}
int main(int argc, char** argv) {
  int nd = atoi(argv[1]);
#if DIM_LO == 3
  return drive<3>(argv + 2, argc - 2);
#else
  return nd == 1 ? drive<1>(argv + 2, argc - 2) : nd == 2 ? drive<2>(argv + 2, argc - 2) : nd == 3 ? drive<3>(argv + 2, argc - 2) : drive<4>(argv + 2, argc - 2);
#endif
}
