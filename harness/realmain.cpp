// MPI workloads on the installed MPI: one operating system process per rank.
#include "mpiwork.h"
#include "wrap.h"
#include <climits>
#include <ctime>
using namespace vh;
namespace {
MPI_Comm ctl = MPI_COMM_NULL;       // the harness's own, unseen by the library
bool sync_sends = false;
unsigned delay_pct = 0;
Rng jitter(1);
int me = 0, np = 1;
struct RealEnv : mw::Env {
  std::vector<MPI_Comm> comms;
  int world(Rng&, int) override { return np; }
  void open(Rng& r, int, const std::vector<std::vector<std::vector<int>>>& sets) override {
    for (auto& s : sets) {
      int color = MPI_UNDEFINED, key = 0;
      for (size_t g = 0; g < s.size(); g++) for (size_t k = 0; k < s[g].size(); k++) if (s[g][k] == me) { color = (int)g; key = (int)k; }
      MPI_Comm c; PMPI_Comm_split(ctl, color, key, &c);
      comms.push_back(c);
    }
    sync_sends = r.pct(50);
    delay_pct = r.pct(50) ? 0 : r.below(40);
    jitter = Rng(mix(r.next(), me));
  }
  MPI_Comm comm(int set, int) override { return comms[set]; }
  void run(const std::function<void(int)>& body) override {
    PMPI_Barrier(ctl);
    body(me);
    PMPI_Barrier(ctl);
    for (auto c : comms) if (c != MPI_COMM_NULL) {
      int flag = 0; MPI_Status st;
      PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, c, &flag, &st);
      if (flag) { note_fail("a message from rank %d was never received", st.MPI_SOURCE); abort_all(); }
    }
    count("schedules_run");
  }
  [[noreturn]] static void abort_all() { abort_run(); }
  void host(const std::function<void()>& f) override {
    PMPI_Barrier(ctl);
    if (me == 0) { try { f(); } catch (CaseFail&) { case_failed = true; } }
    PMPI_Barrier(ctl);
  }
  void everywhere(const std::function<void()>& f) override { f(); }
  void collect(std::vector<int>& v) override { std::vector<int> o(v.size()); PMPI_Allreduce(v.data(), o.data(), (int)v.size(), MPI_INT, MPI_MAX, ctl); v = o; }
  bool any(bool mine) override { int a = mine, b = 0; PMPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MAX, ctl); return b; }
  void close() override { for (auto& c : comms) if (c != MPI_COMM_NULL) PMPI_Comm_free(&c); comms.clear(); }
};
void pause_a_bit() {
  if (delay_pct && jitter.pct(delay_pct)) { struct timespec t = {0, (long)jitter.below(300000)}; nanosleep(&t, nullptr); }
}
}
// what the library calls: the same, at another time or more strictly
extern "C" {
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { pause_a_bit(); count("mpi_messages"); return sync_sends ? PMPI_Ssend(b, n, t, d, tag, c) : PMPI_Send(b, n, t, d, tag, c); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { pause_a_bit(); count("mpi_messages"); return sync_sends ? PMPI_Issend(b, n, t, d, tag, c, q) : PMPI_Isend(b, n, t, d, tag, c, q); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { pause_a_bit(); return PMPI_Recv(b, n, t, s, tag, c, st); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { pause_a_bit(); return PMPI_Irecv(b, n, t, s, tag, c, q); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c) { pause_a_bit(); return PMPI_Bcast(b, n, t, r, c); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { pause_a_bit(); return PMPI_Allreduce(s, r, n, t, o, c); }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) { pause_a_bit(); return PMPI_Waitall(n, q, st); }
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  PMPI_Comm_rank(MPI_COMM_WORLD, &me);
  PMPI_Comm_size(MPI_COMM_WORLD, &np);
  PMPI_Comm_dup(MPI_COMM_WORLD, &ctl);
  mw::E = new RealEnv;
  mw::E->sim = false;
  std::vector<std::string> a(argv, argv + argc);
  if (me) for (size_t i = 1; i + 1 < a.size(); i++) if (a[i] == "--report") a[i + 1] += ".r" + std::to_string(me);
  std::vector<char*> p; for (auto& s : a) p.push_back(&s[0]);
  agree_to_stop = [](bool mine) { int x = mine, y = 0; PMPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, ctl); return y != 0; };
  at_end = [] { PMPI_Barrier(ctl); PMPI_Finalize(); };
  return run_main((int)p.size(), p.data(), mw::modes());
}
