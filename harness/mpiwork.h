// Workloads over an MPI library, shared by the simulated and the real one.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "vh.h"
#include <mpi.h>
namespace mw {
// What differs between the two: how processes come about.
struct Env {
  bool sim = true;
  virtual ~Env() { }
  virtual int world(vh::Rng& r, int most) = 0;         // number of processes in this case
  // communicators for sets of disjoint groups (world ranks in communicator order)
  virtual void open(vh::Rng& r, int W, const std::vector<std::vector<std::vector<int>>>& sets) = 0;
  virtual MPI_Comm comm(int set, int wr) = 0;
  virtual void run(const std::function<void(int wr)>& body) = 0;   // on every process
  virtual void host(const std::function<void()>& f) = 0;           // once, while all others wait
  virtual void everywhere(const std::function<void()>& f) = 0;     // once per operating system process
  virtual void collect(std::vector<int>& v) = 0;                   // fill in what other processes stored (default INT_MIN)
  virtual bool any(bool mine) = 0;
  virtual void close() = 0;
};
extern Env* E;
std::vector<vh::Mode> modes();
}
