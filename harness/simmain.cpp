// MPI workloads on the simulated MPI: processes are threads of this one.
#include "mpiwork.h"
#include "sim.h"
#include "wrap.h"
using namespace vh;
namespace {
struct SimEnv : mw::Env {
  int W = 1;
  Rng rr{1};
  std::vector<std::map<int, MPI_Comm>> comms;
  int world(Rng& r, int most) override { W = r.one_in(15) ? 1 : 1 + (int)r.below(most); return W; }
  void open(Rng& r, int w, const std::vector<std::vector<std::vector<int>>>& sets) override {
    W = w; rr = Rng(r.next());
    sim::free_comms();
    comms.clear();
    for (auto& s : sets) { comms.emplace_back(); for (auto& g : s) { MPI_Comm c = sim::make_comm(g); for (int x : g) comms.back()[x] = c; } }
  }
  MPI_Comm comm(int set, int wr) override { return comms[set].at(wr); }
  static unsigned some(Rng& r) { return r.pct(25) ? 0 : r.pct(33) ? 100 : (unsigned)r.below(101); }
  void run(const std::function<void(int)>& body) override {
    sim::Config c;
    c.ranks = W; c.seed = rr.next();
    c.p_eager = some(rr); c.p_late = some(rr); c.p_sync = some(rr); c.p_switch = some(rr);
    bool fatal = false;
    sim::stats = sim::Stats();
    auto problems = sim::run(c, body, &fatal);
    count("schedules_run");
    count("scheduling_decisions", sim::stats.switches); count("mpi_messages", sim::stats.p2p); count("mpi_collectives", sim::stats.collectives); count("rendezvous_sends", sim::stats.rendezvous); count("mpi_bytes", sim::stats.bytes);
    for (auto& p : problems) note_fail("%s", p.c_str());
    if (fatal) abort_run();
    evaluated();
    nontrivial(mix(sim::stats.trace, c.seed));
  }
  void host(const std::function<void()>& f) override { try { f(); } catch (CaseFail&) { case_failed = true; } }
  void everywhere(const std::function<void()>& f) override { f(); }
  void collect(std::vector<int>&) override { }
  bool any(bool mine) override { return mine; }
  void close() override { comms.clear(); sim::free_comms(); }
};
}
int main(int argc, char** argv) {
  mw::E = new SimEnv;
  mw::E->sim = true;
  return run_main(argc, argv, mw::modes());
}
