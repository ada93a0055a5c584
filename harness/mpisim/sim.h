// Control of the simulated MPI.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include "mpi.h"
namespace sim {
struct Config {
  int ranks = 2;
  uint64_t seed = 1;
  unsigned p_eager = 50;       // percent of standard sends that are buffered
  unsigned p_late = 50;        // percent of transfers whose data moves as late as allowed
  unsigned p_sync = 50;        // percent of collectives that synchronise everybody
  unsigned p_switch = 60;      // percent of MPI calls at which another rank may run
};
struct Stats { uint64_t switches = 0, p2p = 0, bytes = 0, collectives = 0, rendezvous = 0, trace = 0; };
// runs body(rank) on every rank; an empty result means everybody came back cleanly,
// otherwise what went wrong (deadlock, leftover messages, mismatched calls ...).
// After a deadlock the threads cannot be recovered: fatal is set.
std::vector<std::string> run(const Config&, const std::function<void(int)>& body, bool* fatal);
extern Stats stats;
// a communicator over these world ranks, in this order (for ranks that are members)
MPI_Comm make_comm(const std::vector<int>& members);
void free_comms();
int my_rank();        // world rank of the calling thread, -1 outside
}
