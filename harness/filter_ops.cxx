// Harness program run by every simulated rank: executes a script of public Filter operations.
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "Filter.h"
#include "CubeDecomp.h"

extern "C" void sim_obs(const char*);
extern "C" const char* sim_script();
extern "C" void sim_pause();
extern "C" const char* sim_err_take();
extern "C" int sim_resources(int);

#include "datafun.h"

static unsigned long gSeed;
static double fInds(const std::vector<size_t>& inds) {
  std::vector<long> v(inds.begin(), inds.end());
  return dataByIndex(gSeed, v);
}
static double fPos(const std::vector<double>& pos) { return dataByPos(gSeed, pos); }

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  std::map<int, CubeDecomp> dec;
  std::map<int, bool> decok;
  std::map<int, int> decnd;
  std::map<int, Filter*> fl;
  std::istringstream is(sim_script());
  std::string op;
  char buf[256];
  while (is >> op) {
    int id = 0;
    if (op == "PAUSE") { sim_pause(); continue; }
    is >> id;
    if (op == "NEW") {
      int nd, ns;
      is >> nd;
      std::vector<size_t> dims(nd);
      std::vector<double> lo(nd), hi(nd);
      for (int i = 0; i < nd; ++i) is >> dims[i];
      for (int i = 0; i < nd; ++i) is >> lo[i];
      for (int i = 0; i < nd; ++i) is >> hi[i];
      is >> ns;
      std::map<std::vector<int>, double> st;
      for (int k = 0; k < ns; ++k) {
        std::vector<int> off(nd);
        double w;
        for (int i = 0; i < nd; ++i) is >> off[i];
        is >> w;
        st[off] = w;
      }
      fl[id] = new Filter(dims, lo, hi, st);
      snprintf(buf, sizeof buf, "META %d %d %d %d", id, fl[id]->getRank(), fl[id]->getNumProcs(), (int) fl[id]->isDecompValid());
      sim_obs(buf);
    } else if (op == "DEL") {
      delete fl[id];
      fl.erase(id);
    } else if (op == "SETI") { is >> gSeed; fl[id]->setInDataByIndices(fInds); }
    else if (op == "SETP") { is >> gSeed; fl[id]->setInData(fPos); }
    else if (op == "APPLY") fl[id]->applyFilter();
    else if (op == "COPY") fl[id]->copyOutToIn();
    else if (op == "SUM") {
      std::string w;
      int tag;
      is >> w >> tag;
      double s = fl[id]->computeCheckSum(w);
      snprintf(buf, sizeof buf, "SUM %d %a", tag, s);
      sim_obs(buf);
    } else if (op == "VTK") {
      std::string f;
      is >> f;
      fl[id]->saveVTK(f);
    } else if (op == "PRINT") {
      std::string w;
      int tag;
      is >> w >> tag;
      sim_err_take();
      std::cerr.precision(17);
      if (w == "input") fl[id]->printInData();
      else fl[id]->printOutData();
      std::ostringstream o;
      o << "FIELD " << tag << "\n" << sim_err_take();
      sim_obs(o.str().c_str());
    } else if (op == "WPRINT") {      // show the halo data of one side, without looking at what is shown
      std::string w;
      int nd;
      is >> w >> nd;
      std::vector<int> side(nd);
      for (int i = 0; i < nd; ++i) is >> side[i];
      if (w == "src") fl[id]->printSrcDataWindow(side);
      else fl[id]->printDstDataWindow(side);
      sim_err_take();
    } else if (op == "RES") {
      snprintf(buf, sizeof buf, "RES %d %d %d", id, sim_resources(0), sim_resources(1));
      sim_obs(buf);
    } else if (op == "DECOMP" || op == "DECOMPN" || op == "DQUERY") {     // build a decomposition, or ask an old one about the rank `shift` places further
      int me, size, shift = 0;
      MPI_Comm_rank(MPI_COMM_WORLD, &me);
      MPI_Comm_size(MPI_COMM_WORLD, &size);
      CubeDecomp& d = dec[id];
      int first = -1, total = 0;
      if (op != "DQUERY") {
        int np, nd;
        is >> np >> nd;
        if (op == "DECOMPN") { first = me; total = np; }
        std::vector<size_t> dims(nd);
        for (int i = 0; i < nd; ++i) is >> dims[i];
        decok[id] = d.build(np, dims);
        decnd[id] = nd;
      } else {
        is >> shift;
        me = (me + shift) % size;
      }
      bool ok = decok[id];
      int nd = decnd[id];
      for (int k = first < 0 ? me : first; first < 0 ? k == me : k < total; k += first < 0 ? 1 : size) {
        std::ostringstream o;
        o << "DEC " << id << ' ' << ok;
        if (ok) {
          std::vector<size_t> v = d.getDecomp();
          for (int i = 0; i < nd; ++i) o << ' ' << v[i];
          v = d.getBegIndices(k);
          for (int i = 0; i < nd; ++i) o << ' ' << v[i];
          v = d.getEndIndices(k);
          for (int i = 0; i < nd; ++i) o << ' ' << v[i];
          for (int i = 0; i < nd; ++i)
            for (int s = -1; s <= 1; s += 2) {
              std::vector<int> dir(nd, 0);
              dir[i] = s;
              o << ' ' << d.getNeighborRank(k, dir);
            }
        } else {
          o << " | " << d.getDecomp().size();
        }
        sim_obs(o.str().c_str());
      }
    } else {
      sim_obs("BADOP");
    }
  }
  for (std::map<int, Filter*>::iterator it = fl.begin(); it != fl.end(); ++it) delete it->second;
  MPI_Finalize();
  return 0;
}
