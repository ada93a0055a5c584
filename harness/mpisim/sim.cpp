#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <algorithm>
#include <time.h>
#include "vh.h"
#include "wrap.h"
using vh::Rng;
using std::string;
using std::vector;

struct Coll;
struct sim_comm {
  vector<int> members;                       // world ranks
  std::map<int, int> rank_of;
  vector<uint64_t> coll_seq;                 // collectives entered, per comm rank
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
  int id = 0;
};
enum SendMode { EAGER_NOW, EAGER_LATE, RENDEZVOUS };
struct sim_req;
struct Msg {
  sim_comm* c; int src, dst, tag; size_t n; string data; bool avail = false;
  const void* src_buf = nullptr; SendMode mode; bool late = false;
  sim_req *sreq = nullptr, *rreq = nullptr; bool matched = false;
};
struct sim_req {
  int owner; bool is_send; sim_comm* c; int peer, tag;
  void* rbuf = nullptr; size_t cap = 0; bool late = false, in_wait = false, done = false, held = false;
  std::shared_ptr<Msg> msg; MPI_Status st;
};
struct Coll {
  string sig; int entered = 0, left = 0; bool sync = false;
  vector<string> in; vector<char> here; vector<int> split_color, split_key; vector<sim_comm*> split_out; vector<vector<string>> in_v;
};

namespace sim {
Stats stats;
static Config cfg;
static Rng* rng = nullptr;
enum State { READY, BLOCKED, FINISHED };
struct RankS { sem_t sem; State st; bool polling = false; std::function<bool()> cond; string what; };
static vector<std::unique_ptr<RankS>> R;
static sem_t all_done;
static bool deadlocked = false;
static thread_local int me = -1;
static vector<string> problems;
static std::list<std::shared_ptr<Msg>> pending;          // sent, not matched; in order
static std::list<sim_req*> posted;                        // receives without a message; in order
static std::set<sim_req*> live_reqs;
static vector<std::unique_ptr<sim_comm>> comms;
static sim_comm* world = nullptr;
static std::map<int, sim_comm*> selfs;
static int comm_ids = 0;
static std::map<int, int> made;                           // communicators a rank created and did not free

static void problem(const string& s) { if (problems.size() < 10) problems.push_back(s); }
int my_rank() { return me; }
// derived types are only made of contiguous bytes here, so their size says it all
struct Derived { size_t size; bool committed; };
static vector<Derived> derived;
static std::map<int, int> made_types;                     // types a rank made and did not free
static const int DERIVED = 0x40000000;
static size_t tsz(MPI_Datatype t) {
  if (!(t & DERIVED)) return t & 0xff;
  size_t i = t & ~DERIVED;
  return i < derived.size() ? derived[i].size : 0;
}

// hands the baton to some runnable rank
static void dispatch() {
  vector<int> can;
  for (size_t i = 0; i < R.size(); i++) {
    if (R[i]->st == BLOCKED && R[i]->cond()) R[i]->st = READY;
    if (R[i]->st == READY) can.push_back(i);
  }
  if (can.empty()) {
    int f = 0;
    for (auto& x : R) if (x->st == FINISHED) f++;
    if (f != (int)R.size()) {
      deadlocked = true;
      string t = "deadlock:";
      int shown = 0;
      for (size_t i = 0; i < R.size() && shown < 8; i++) if (R[i]->st == BLOCKED) { t += " rank " + std::to_string(i) + " waits in " + R[i]->what + ";"; shown++; }
      problem(t + " " + std::to_string(f) + " of " + std::to_string(R.size()) + " ranks returned");
    }
    sem_post(&all_done);
    return;
  }
  int k = can[rng->below(can.size())];
  stats.switches++; stats.trace = vh::mix(stats.trace, k);
  sem_post(&R[k]->sem);
}
static void wait_turn(int i) { while (sem_wait(&R[i]->sem) != 0) { } }
[[noreturn]] static void stop_all(const string& why) {
  problem(why);
  deadlocked = true;
  sem_post(&all_done);
  for (;;) { struct timespec t = {1000, 0}; nanosleep(&t, nullptr); }
}
static void block_until(const std::function<bool()>& c, const string& what) {
  if (!rng->pct(cfg.p_switch) && c()) return;
  int i = me;
  R[i]->st = BLOCKED; R[i]->cond = c; R[i]->what = what;
  dispatch();
  wait_turn(i);
  R[i]->cond = nullptr;
}
static void maybe_switch() {
  if (!rng->pct(cfg.p_switch)) return;
  int i = me;
  R[i]->st = READY;
  dispatch();
  wait_turn(i);
}
// a rank that polls in vain lets others go on, or it could poll for ever
static void yield_turn() {
  int i = me;
  R[i]->st = READY; R[i]->polling = true;
  dispatch();
  wait_turn(i);
  R[i]->polling = false;
}
struct Polling { Polling() { R[me]->polling = true; } ~Polling() { R[me]->polling = false; } };
static void need(const char* f) { if (me < 0) { fprintf(stderr, "HARNESS-ERROR: %s outside a rank\n", f); _exit(70); } }

struct Arg { int rank; const std::function<void(int)>* body; };
static void* thread_main(void* a) {
  Arg* x = (Arg*)a;
  me = x->rank;
  wrap::set_owner(me + 1);
  wait_turn(me);
  (*x->body)(me);
  R[me]->st = FINISHED;
  dispatch();
  return nullptr;
}
MPI_Comm make_comm(const vector<int>& m) {
  auto c = std::unique_ptr<sim_comm>(new sim_comm);
  c->members = m; c->id = comm_ids++;
  for (size_t i = 0; i < m.size(); i++) c->rank_of[m[i]] = (int)i;
  c->coll_seq.assign(m.size(), 0);
  comms.push_back(std::move(c));
  return comms.back().get();
}
void free_comms() { comms.clear(); world = nullptr; selfs.clear(); }

vector<string> run(const Config& c, const std::function<void(int)>& body, bool* fatal) {
  cfg = c;
  Rng r(c.seed); rng = &r;
  problems.clear(); pending.clear(); posted.clear(); deadlocked = false;
  R.clear();
  sem_init(&all_done, 0, 0);
  if (!world) { vector<int> w; for (int i = 0; i < c.ranks; i++) w.push_back(i); world = make_comm(w); }
  vector<Arg> args(c.ranks);
  vector<pthread_t> th(c.ranks);
  for (int i = 0; i < c.ranks; i++) { R.emplace_back(new RankS); sem_init(&R[i]->sem, 0, 0); R[i]->st = READY; args[i] = {i, &body}; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (int i = 0; i < c.ranks; i++) if (pthread_create(&th[i], &at, thread_main, &args[i]) != 0) { fprintf(stderr, "HARNESS-ERROR: pthread_create\n"); _exit(70); }
  pthread_attr_destroy(&at);
  dispatch();
  while (sem_wait(&all_done) != 0) { }
  *fatal = deadlocked;
  if (!deadlocked) {
    for (int i = 0; i < c.ranks; i++) pthread_join(th[i], nullptr);
    for (auto& m : pending) problem("a message of " + std::to_string(m->n) + " bytes from rank " + std::to_string(m->src) + " to rank " + std::to_string(m->dst) + " was never received");
    for (auto* q : live_reqs) { problem("rank " + std::to_string(q->owner) + " never completed its " + (q->is_send ? "send to " : "receive from ") + std::to_string(q->peer)); delete q; }
    live_reqs.clear(); pending.clear(); posted.clear();
    for (auto& m : made) if (m.second) { problem("rank " + std::to_string(m.first) + " leaves " + std::to_string(m.second) + " communicators behind"); break; }
    made.clear();
    for (auto& m : made_types) if (m.second) { problem("rank " + std::to_string(m.first) + " leaves " + std::to_string(m.second) + " datatypes behind"); break; }
    made_types.clear(); derived.clear();
    for (auto& k : comms) for (auto& q : k->colls) problem("a collective (" + q.second->sig + ") was entered by only " + std::to_string(q.second->entered) + " of " + std::to_string(k->members.size()) + " ranks");
    for (auto& x : R) sem_destroy(&x->sem);
    R.clear();
    sem_destroy(&all_done);
  }
  rng = nullptr;
  return problems;
}

// ------------------------------------------------------------ point to point
static string rk(sim_comm* c, int r) { return r >= 0 && r < (int)c->members.size() ? std::to_string(c->members[r]) : std::to_string(r); }
static bool fits(const sim_req* q, const Msg* m) {
  return q->c == m->c && q->c->rank_of[q->owner] == m->dst && (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag);
}
static void advance(Msg* m) {
  if (!m->avail) {
    bool sender_idle = m->sreq && (m->sreq->in_wait || R[m->sreq->owner]->st == BLOCKED || R[m->sreq->owner]->polling);
    bool now = m->mode == RENDEZVOUS ? (m->matched && (!m->late || sender_idle)) : sender_idle;
    if (now) { m->data.assign((const char*)m->src_buf, m->n); m->avail = true; }
  }
  if (m->avail && m->matched && m->rreq && !m->rreq->done) {
    sim_req* q = m->rreq;
    if (!q->held && (!q->late || q->in_wait)) {
      size_t n = m->n;
      if (n > q->cap) { problem("rank " + rk(m->c, m->dst) + " receives " + std::to_string(n) + " bytes from rank " + rk(m->c, m->src) + " into a buffer of " + std::to_string(q->cap)); n = q->cap; }
      if (n) memcpy(q->rbuf, m->data.data(), n);
      q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = MPI_SUCCESS; q->st.sim_bytes = n;
      q->done = true;
      m->rreq = nullptr;
    }
  }
  if (m->sreq && !m->sreq->done && m->avail && (m->mode != RENDEZVOUS || m->matched)) { m->sreq->done = true; m->sreq = nullptr; }
}
static bool req_done(sim_req* q) { if (!q->done && q->msg) advance(q->msg.get()); return q->done; }
static void check_comm(MPI_Comm c, const char* f) {
  need(f);
  if (!c) stop_all(string(f) + " on a null communicator");
  if (!c->rank_of.count(me)) stop_all(string(f) + " by rank " + std::to_string(me) + ", which is not in the communicator");
}
static sim_req* post_send(const void* b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, int force, const char* f) {
  check_comm(c, f);
  auto* q = new sim_req(); q->owner = me; q->is_send = true; q->c = c; q->peer = dst; q->tag = tag;
  memset(&q->st, 0, sizeof q->st);
  live_reqs.insert(q);
  if (dst == MPI_PROC_NULL) { q->done = true; return q; }
  if (dst < 0 || dst >= (int)c->members.size() || count < 0) stop_all(string(f) + " by rank " + std::to_string(me) + ": invalid destination " + std::to_string(dst) + " or count " + std::to_string(count));
  auto m = std::make_shared<Msg>();
  m->c = c; m->src = c->rank_of[me]; m->dst = dst; m->tag = tag; m->n = (size_t)count * tsz(t); m->src_buf = b;
  m->mode = force >= 0 ? (SendMode)force : rng->pct(cfg.p_eager) ? (rng->pct(cfg.p_late) ? EAGER_LATE : EAGER_NOW) : RENDEZVOUS;
  m->late = rng->pct(cfg.p_late);
  m->sreq = q; q->msg = m;
  stats.p2p++; stats.bytes += m->n; if (m->mode == RENDEZVOUS) stats.rendezvous++;
  if (m->mode == EAGER_NOW) { m->data.assign((const char*)b, m->n); m->avail = true; }
  for (auto it = posted.begin(); it != posted.end(); ++it) if (fits(*it, m.get())) {
    sim_req* r = *it; posted.erase(it);
    m->matched = true; m->rreq = r; r->msg = m;
    advance(m.get());
    return q;
  }
  pending.push_back(m);
  advance(m.get());
  return q;
}
static sim_req* post_recv(void* b, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, const char* f, bool held = false) {
  check_comm(c, f);
  auto* q = new sim_req(); q->owner = me; q->is_send = false; q->c = c; q->peer = src; q->tag = tag; q->rbuf = b; q->cap = (size_t)count * tsz(t);
  q->held = held;
  q->late = rng->pct(cfg.p_late);
  memset(&q->st, 0, sizeof q->st);
  live_reqs.insert(q);
  if (src == MPI_PROC_NULL) { q->done = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; return q; }
  if ((src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) || count < 0) stop_all(string(f) + " by rank " + std::to_string(me) + ": invalid source " + std::to_string(src) + " or count " + std::to_string(count));
  // with a wildcard any sender's first message may be taken
  vector<std::list<std::shared_ptr<Msg>>::iterator> cand; std::set<int> srcs;
  for (auto it = pending.begin(); it != pending.end(); ++it) if (fits(q, it->get()) && srcs.insert((*it)->src).second) cand.push_back(it);
  if (!cand.empty()) {
    auto it = cand[rng->below(cand.size())];
    auto m = *it; pending.erase(it);
    m->matched = true; m->rreq = q; q->msg = m;
    advance(m.get());
    return q;
  }
  posted.push_back(q);
  return q;
}
static void retire(sim_req* q, MPI_Status* st) {
  if (st) *st = q->st;
  if (q->msg) { if (q->msg->sreq == q) q->msg->sreq = nullptr; if (q->msg->rreq == q) q->msg->rreq = nullptr; }
  live_reqs.erase(q);
  delete q;
}
static string req_text(sim_req* q) { return (q->is_send ? "a send to rank " : "a receive from rank ") + (q->peer == MPI_ANY_SOURCE ? string("any") : rk(q->c, q->peer)); }
static void wait_for(sim_req* q, MPI_Status* st, const char* f) {
  q->in_wait = true;
  block_until([q]() { return req_done(q); }, string(f) + " for " + req_text(q));
  retire(q, st);
}

// ------------------------------------------------------------ collectives
enum Need { N_ALL, N_ROOT, N_PREFIX, N_NONE };
static std::shared_ptr<Coll> enter(MPI_Comm c, const string& sig, const void* in, size_t n, uint64_t* seq) {
  int cr = c->rank_of[me];
  *seq = c->coll_seq[cr]++;
  auto& slot = c->colls[*seq];
  if (!slot) {
    slot = std::make_shared<Coll>();
    slot->sig = sig; slot->sync = rng->pct(cfg.p_sync);
    size_t k = c->members.size();
    slot->in.resize(k); slot->here.assign(k, 0); slot->split_color.resize(k); slot->split_key.resize(k); slot->split_out.assign(k, nullptr); slot->in_v.resize(k);
    stats.collectives++;
  }
  if (slot->sig != sig) stop_all("rank " + std::to_string(me) + " calls " + sig + " where others call " + slot->sig);
  if (in && n) slot->in[cr].assign((const char*)in, n);
  slot->here[cr] = 1; slot->entered++;
  return slot;
}
static void await(MPI_Comm c, const std::shared_ptr<Coll>& k, Need need, int root, const char* f) {
  int n = (int)c->members.size(), cr = c->rank_of[me];
  if (k->sync) need = N_ALL;
  block_until([=]() {
    switch (need) {
      case N_ALL: return k->entered == n;
      case N_ROOT: return k->here[root] != 0;
      case N_PREFIX: for (int i = 0; i < cr; i++) if (!k->here[i]) return false; return true;
      default: return true;
    }
  }, string(f) + " (" + k->sig + ", " + std::to_string(k->entered) + " of " + std::to_string(n) + " there when it came)");
}
static void leave(MPI_Comm c, const std::shared_ptr<Coll>& k, uint64_t seq) {
  k->left++;
  if (k->left == (int)c->members.size()) c->colls.erase(seq);
  maybe_switch();
}
template <class T> static void red1(MPI_Op op, T* a, const T* b) {
  switch (op) {
    case MPI_MAX: if (*b > *a) *a = *b; break;
    case MPI_MIN: if (*b < *a) *a = *b; break;
    case MPI_SUM: *a = (T)(*a + *b); break;
    case MPI_PROD: *a = (T)(*a * *b); break;
    case MPI_LAND: *a = (T)(*a && *b); break;
    case MPI_LOR: *a = (T)(*a || *b); break;
    case MPI_LXOR: *a = (T)(!*a != !*b); break;
  }
}
template <class T> static void redb(MPI_Op op, T* a, const T* b) {
  switch (op) {
    case MPI_BAND: *a &= *b; break;
    case MPI_BOR: *a |= *b; break;
    case MPI_BXOR: *a ^= *b; break;
    default: red1(op, a, b);
  }
}
static void reduce(MPI_Op op, MPI_Datatype t, size_t count, char* a, const char* b) {
  size_t sz = tsz(t); int kind = (t >> 8) & 0xff;
  for (size_t i = 0; i < count; i++, a += sz, b += sz) {
    if (kind == 4) {
      int x[2], y[2]; memcpy(x, a, 8); memcpy(y, b, 8);
      bool take = op == MPI_MAXLOC ? (y[0] > x[0] || (y[0] == x[0] && y[1] < x[1])) : (y[0] < x[0] || (y[0] == x[0] && y[1] < x[1]));
      if (take) memcpy(a, b, 8);
      continue;
    }
#define RED(T, f) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); f(op, &x, &y); memcpy(a, &x, sizeof x); }
    if (kind == 3) { if (sz == 4) RED(float, red1) else RED(double, red1) }
    else if (kind == 1) { if (sz == 1) RED(int8_t, redb) else if (sz == 2) RED(int16_t, redb) else if (sz == 4) RED(int32_t, redb) else RED(int64_t, redb) }
    else { if (sz == 1) RED(uint8_t, redb) else if (sz == 2) RED(uint16_t, redb) else if (sz == 4) RED(uint32_t, redb) else RED(uint64_t, redb) }
#undef RED
  }
}
static string sg(const char* n, std::initializer_list<long> v) { string s = n; for (long x : v) s += " " + std::to_string(x); return s; }
static void check_root(MPI_Comm c, int root, const char* f) { if (root < 0 || root >= (int)c->members.size()) stop_all(string(f) + " by rank " + std::to_string(me) + " with invalid root " + std::to_string(root)); }
}  // namespace sim
using namespace sim;

extern "C" {
MPI_Comm sim_world(void) { return world; }
MPI_Comm sim_self(void) { need("MPI_COMM_SELF"); auto& s = selfs[me]; if (!s) s = make_comm({me}); return s; }
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { if (p) *p = r; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { need("MPI_Abort"); stop_all("rank " + std::to_string(me) + " aborts all processes with code " + std::to_string(code)); }
double MPI_Wtime(void) { return vh::now_s(); }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { check_comm(c, "MPI_Comm_rank"); *r = c->rank_of[me]; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { check_comm(c, "MPI_Comm_size"); *n = (int)c->members.size(); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) { need("MPI_Type_contiguous"); derived.push_back({(size_t)n * tsz(t), false}); *o = DERIVED | (int)(derived.size() - 1); made_types[me]++; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { need("MPI_Type_free"); if (*t & DERIVED) made_types[me]--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  if (a == b) { *r = MPI_IDENT; return 0; }
  if (a->members == b->members) { *r = MPI_CONGRUENT; return 0; }
  vector<int> x = a->members, y = b->members;
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; return 0;
}
double MPI_Wtick(void) { return 1e-9; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)tsz(t); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { return MPI_Comm_split(c, 0, 0, o); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) {
  check_comm(c, "MPI_Comm_split");
  uint64_t seq; auto k = enter(c, "Comm_split", nullptr, 0, &seq);
  int cr = c->rank_of[me];
  k->split_color[cr] = color; k->split_key[cr] = key;
  await(c, k, N_ALL, 0, "MPI_Comm_split");
  if (!k->split_out[cr] && color != MPI_UNDEFINED) {
    vector<std::pair<int, int>> v;
    for (size_t i = 0; i < c->members.size(); i++) if (k->split_color[i] == color) v.push_back({k->split_key[i], (int)i});
    std::sort(v.begin(), v.end());
    vector<int> m; for (auto& x : v) m.push_back(c->members[x.second]);
    MPI_Comm n = make_comm(m);
    for (auto& x : v) k->split_out[x.second] = n;
  }
  *o = k->split_out[cr];
  if (*o) made[me]++;
  leave(c, k, seq);
  return 0;
}
int MPI_Comm_free(MPI_Comm* c) { if (*c) made[me]--; *c = MPI_COMM_NULL; return 0; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  need("MPI_Send"); maybe_switch();
  int mode = rng->pct(cfg.p_eager) ? EAGER_NOW : RENDEZVOUS;
  wait_for(post_send(b, n, t, d, tag, c, mode, "MPI_Send"), nullptr, "MPI_Send"); return 0;
}
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { need("MPI_Ssend"); maybe_switch(); wait_for(post_send(b, n, t, d, tag, c, RENDEZVOUS, "MPI_Ssend"), nullptr, "MPI_Ssend"); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { need("MPI_Recv"); maybe_switch(); wait_for(post_recv(b, n, t, s, tag, c, "MPI_Recv"), st, "MPI_Recv"); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { need("MPI_Isend"); maybe_switch(); *q = post_send(b, n, t, d, tag, c, -1, "MPI_Isend"); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { need("MPI_Issend"); maybe_switch(); *q = post_send(b, n, t, d, tag, c, RENDEZVOUS, "MPI_Issend"); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { need("MPI_Irecv"); maybe_switch(); *q = post_recv(b, n, t, s, tag, c, "MPI_Irecv"); return 0; }
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { return MPI_Isend(b, n, t, d, tag, c, q); }
int MPI_Wait(MPI_Request* q, MPI_Status* st) { need("MPI_Wait"); if (*q) wait_for(*q, st, "MPI_Wait"); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) {
  need("MPI_Waitall");
  string w = "MPI_Waitall for";
  for (int i = 0; i < n; i++) if (q[i]) {
    if (!live_reqs.count(q[i])) stop_all("rank " + std::to_string(me) + " waits for an invalid request");
    q[i]->in_wait = true; w += (i ? ", " : " ") + req_text(q[i]);
  }
  block_until([=]() { bool d = true; for (int i = 0; i < n; i++) if (q[i] && !req_done(q[i])) d = false; return d; }, w);
  for (int i = 0; i < n; i++) if (q[i]) { retire(q[i], st ? &st[i] : nullptr); q[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Waitany(int n, MPI_Request q[], int* idx, MPI_Status* st) {
  need("MPI_Waitany");
  bool any = false;
  for (int i = 0; i < n; i++) if (q[i]) { any = true; q[i]->in_wait = true; }
  *idx = MPI_UNDEFINED;
  if (!any) return 0;
  block_until([=]() { for (int i = 0; i < n; i++) if (q[i] && req_done(q[i])) return true; return false; }, "MPI_Waitany");
  vector<int> d; for (int i = 0; i < n; i++) if (q[i]) { if (req_done(q[i])) d.push_back(i); q[i]->in_wait = false; }
  int k = d[rng->below(d.size())];
  retire(q[k], st); q[k] = MPI_REQUEST_NULL; *idx = k;
  return 0;
}
int MPI_Waitsome(int n, MPI_Request q[], int* out, int idx[], MPI_Status st[]) {
  int k; MPI_Status x;
  MPI_Waitany(n, q, &k, &x);
  if (k == MPI_UNDEFINED) { *out = MPI_UNDEFINED; return 0; }
  *out = 1; idx[0] = k; if (st) st[0] = x;
  for (int i = 0; i < n; i++) if (q[i] && req_done(q[i])) { idx[*out] = i; retire(q[i], st ? &st[*out] : nullptr); q[i] = MPI_REQUEST_NULL; ++*out; }
  return 0;
}
int MPI_Testany(int n, MPI_Request q[], int* idx, int* f, MPI_Status* st) {
  need("MPI_Testany"); maybe_switch(); Polling polling;
  *idx = MPI_UNDEFINED; *f = 1;
  for (int i = 0; i < n; i++) if (q[i]) {
    *f = 0;
    q[i]->in_wait = true; bool d = req_done(q[i]); q[i]->in_wait = false;
    if (d) { retire(q[i], st); q[i] = MPI_REQUEST_NULL; *idx = i; *f = 1; return 0; }
  }
  if (!*f) yield_turn();
  return 0;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) {
  need("MPI_Test"); maybe_switch(); Polling polling;
  if (!*q) { *f = 1; return 0; }
  (*q)->in_wait = true; bool d = req_done(*q); *f = d;
  if (d) { retire(*q, st); *q = MPI_REQUEST_NULL; } else { (*q)->in_wait = false; yield_turn(); }
  return 0;
}
int MPI_Testall(int n, MPI_Request q[], int* f, MPI_Status st[]) {
  need("MPI_Testall"); maybe_switch(); Polling polling;
  bool d = true;
  for (int i = 0; i < n; i++) if (q[i]) { q[i]->in_wait = true; if (!req_done(q[i])) { d = false; q[i]->in_wait = false; } }
  *f = d;
  if (!d) yield_turn();
  if (d) for (int i = 0; i < n; i++) if (q[i]) { retire(q[i], st ? &st[i] : nullptr); q[i] = MPI_REQUEST_NULL; }
  return 0;
}
// cr: who asks, since the condition of a waiting rank is looked at by others
static Msg* probe(int cr, int s, int tag, MPI_Comm c) {
  for (auto& m : pending) if (m->c == c && m->dst == cr && (s == MPI_ANY_SOURCE || s == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m.get();
  return nullptr;
}
static void fill(Msg* m, MPI_Status* st) { if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->sim_bytes = m->n; } }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) { check_comm(c, "MPI_Probe"); int cr = c->rank_of[me]; block_until([=]() { return probe(cr, s, tag, c) != nullptr; }, "MPI_Probe"); fill(probe(cr, s, tag, c), st); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) { check_comm(c, "MPI_Iprobe"); maybe_switch(); Msg* m = probe(c->rank_of[me], s, tag, c); *f = m != nullptr; if (m) fill(m, st); else yield_turn(); return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { size_t sz = tsz(t); *n = sz && st->sim_bytes % sz == 0 ? (int)(st->sim_bytes / sz) : MPI_UNDEFINED; return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request q[2]; MPI_Status x[2];
  MPI_Irecv(rb, rn, rt, s, rtag, c, &q[0]); MPI_Isend(sb, sn, stt, d, stag, c, &q[1]); MPI_Waitall(2, q, x);
  if (st) *st = x[0];
  return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* st) {
  string copy((const char*)b, (size_t)n * tsz(t));
  return MPI_Sendrecv(copy.data(), n, t, d, stag, b, n, t, s, rtag, c, st);
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* msg, MPI_Status* st) {
  check_comm(c, "MPI_Mprobe"); int cr = c->rank_of[me]; block_until([=]() { return probe(cr, s, tag, c) != nullptr; }, "MPI_Mprobe");
  Msg* m = probe(cr, s, tag, c); fill(m, st);
  // a receive of unlimited size, given its buffer later
  auto* q = post_recv(nullptr, 0, MPI_BYTE, m->src, m->tag, c, "MPI_Mprobe", true);
  *msg = q; return 0;
}
int MPI_Imrecv(void* b, int n, MPI_Datatype t, MPI_Message* msg, MPI_Request* r) {
  need("MPI_Imrecv");
  sim_req* q = *msg;
  q->rbuf = b; q->cap = (size_t)n * tsz(t); q->held = false;
  advance(q->msg.get());
  *r = q; *msg = MPI_MESSAGE_NULL; return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* msg, MPI_Status* st) { MPI_Request q; MPI_Imrecv(b, n, t, msg, &q); return MPI_Wait(&q, st); }
int MPI_Barrier(MPI_Comm c) {
  check_comm(c, "MPI_Barrier"); maybe_switch();
  uint64_t seq; auto k = enter(c, "Barrier", nullptr, 0, &seq); await(c, k, N_ALL, 0, "MPI_Barrier"); leave(c, k, seq); return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  check_comm(c, "MPI_Bcast"); check_root(c, root, "MPI_Bcast"); maybe_switch();
  size_t z = (size_t)n * tsz(t); int cr = c->rank_of[me];
  uint64_t seq; auto k = enter(c, sg("Bcast root,bytes", {root, (long)z}), cr == root ? b : nullptr, z, &seq);
  await(c, k, cr == root ? N_NONE : N_ROOT, root, "MPI_Bcast");
  if (cr != root && z) memcpy(b, k->in[root].data(), z);
  stats.bytes += z;
  leave(c, k, seq); return 0;
}
static int reduction(const char* name, const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, int kind) {
  check_comm(c, name); maybe_switch();
  if (kind == 1) check_root(c, root, name);
  size_t z = (size_t)n * tsz(t); int cr = c->rank_of[me], sz = (int)c->members.size();
  uint64_t seq; auto k = enter(c, sg(name, {root, n, t, op}), sb == MPI_IN_PLACE ? rb : sb, z, &seq);
  await(c, k, kind == 0 ? N_ALL : kind == 1 ? (cr == root ? N_ALL : N_NONE) : N_PREFIX, root, name);
  int lo = 0, hi = kind <= 1 ? sz : kind == 2 ? cr + 1 : cr;
  if ((kind != 1 || cr == root) && hi > lo && z) {
    string a = k->in[lo];
    for (int i = lo + 1; i < hi; i++) reduce(op, t, n, &a[0], k->in[i].data());
    memcpy(rb, a.data(), z);
  }
  leave(c, k, seq); return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduction("MPI_Reduce", s, r, n, t, op, root, c, 1); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction("MPI_Allreduce", s, r, n, t, op, 0, c, 0); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction("MPI_Scan", s, r, n, t, op, 0, c, 2); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduction("MPI_Exscan", s, r, n, t, op, 0, c, 3); }
// gathers: every rank deposits its bytes; lengths may differ in the v variants
static std::shared_ptr<Coll> deposit(const char* name, const void* sb, size_t n, int root, MPI_Comm c, uint64_t* seq) {
  check_comm(c, name); maybe_switch();
  return enter(c, sg(name, {root}), sb, n, seq);
}
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int rn[], const int dis[], MPI_Datatype rt, int root, MPI_Comm c) {
  check_comm(c, "MPI_Gatherv"); check_root(c, root, "MPI_Gatherv");
  int cr = c->rank_of[me]; size_t rz = tsz(rt);
  const void* src = sb == MPI_IN_PLACE ? (char*)rb + (size_t)dis[cr] * rz : sb;
  size_t n = sb == MPI_IN_PLACE ? (size_t)rn[cr] * rz : (size_t)sn * tsz(st);
  uint64_t seq; auto k = deposit("MPI_Gather(v)", src, n, root, c, &seq);
  await(c, k, cr == root ? N_ALL : N_NONE, root, "MPI_Gatherv");
  if (cr == root) for (size_t i = 0; i < c->members.size(); i++) {
    if (k->in[i].size() > (size_t)rn[i] * rz) stop_all("MPI_Gather: more bytes than announced");
    if (k->in[i].size()) memmove((char*)rb + (size_t)dis[i] * rz, k->in[i].data(), k->in[i].size());
  }
  leave(c, k, seq); return 0;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  check_comm(c, "MPI_Gather");
  vector<int> n(c->members.size(), rn), d; for (size_t i = 0; i < n.size(); i++) d.push_back((int)i * rn);
  return MPI_Gatherv(sb, sn, st, rb, n.data(), d.data(), rt, root, c);
}
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int rn[], const int dis[], MPI_Datatype rt, MPI_Comm c) {
  check_comm(c, "MPI_Allgatherv");
  int cr = c->rank_of[me]; size_t rz = tsz(rt);
  const void* src = sb == MPI_IN_PLACE ? (char*)rb + (size_t)dis[cr] * rz : sb;
  size_t n = sb == MPI_IN_PLACE ? (size_t)rn[cr] * rz : (size_t)sn * tsz(st);
  uint64_t seq; auto k = deposit("MPI_Allgather(v)", src, n, 0, c, &seq);
  await(c, k, N_ALL, 0, "MPI_Allgatherv");
  for (size_t i = 0; i < c->members.size(); i++) {
    if (k->in[i].size() > (size_t)rn[i] * rz) stop_all("MPI_Allgather: more bytes than announced");
    if (k->in[i].size()) memmove((char*)rb + (size_t)dis[i] * rz, k->in[i].data(), k->in[i].size());
  }
  leave(c, k, seq); return 0;
}
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  check_comm(c, "MPI_Allgather");
  vector<int> n(c->members.size(), rn), d; for (size_t i = 0; i < n.size(); i++) d.push_back((int)i * rn);
  return MPI_Allgatherv(sb, sn, st, rb, n.data(), d.data(), rt, c);
}
int MPI_Scatterv(const void* sb, const int sn[], const int sd[], MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  check_comm(c, "MPI_Scatterv"); check_root(c, root, "MPI_Scatterv"); maybe_switch();
  int cr = c->rank_of[me], n = (int)c->members.size(); size_t sz = tsz(st);
  uint64_t seq; auto k = enter(c, sg("MPI_Scatterv", {root}), nullptr, 0, &seq);
  if (cr == root) for (int i = 0; i < n; i++) k->in_v[cr].push_back(string((const char*)sb + (size_t)sd[i] * sz, (size_t)sn[i] * sz));
  await(c, k, cr == root ? N_NONE : N_ROOT, root, "MPI_Scatterv");
  const string& x = k->in_v[root][cr];
  if (rb != MPI_IN_PLACE) { if (x.size() > (size_t)rn * tsz(rt)) stop_all("MPI_Scatterv: more bytes than announced"); if (!x.empty()) memcpy(rb, x.data(), x.size()); }
  leave(c, k, seq); return 0;
}
int MPI_Reduce_scatter_block(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  check_comm(c, "MPI_Reduce_scatter_block");
  int cr = c->rank_of[me], sz = (int)c->members.size(); size_t z = (size_t)n * tsz(t);
  string all(z * sz, 0);
  reduction("MPI_Reduce_scatter_block", sb == MPI_IN_PLACE ? rb : sb, &all[0], n * sz, t, op, 0, c, 0);
  if (z) memcpy(rb, all.data() + z * cr, z);
  return 0;
}
int MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  check_comm(c, "MPI_Scatter"); check_root(c, root, "MPI_Scatter");
  int cr = c->rank_of[me]; size_t sz = (size_t)sn * tsz(st);
  uint64_t seq; auto k = deposit("MPI_Scatter", cr == root ? sb : nullptr, cr == root ? sz * c->members.size() : 0, root, c, &seq);
  await(c, k, cr == root ? N_NONE : N_ROOT, root, "MPI_Scatter");
  size_t z = (size_t)rn * tsz(rt);
  if (rb != MPI_IN_PLACE && z) { if (k->in[root].size() < z * (cr + 1)) stop_all("MPI_Scatter: sizes differ"); memcpy(rb, k->in[root].data() + z * cr, z); }
  leave(c, k, seq); return 0;
}
int MPI_Alltoallv(const void* sb, const int sn[], const int sd[], MPI_Datatype st, void* rb, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c) {
  check_comm(c, "MPI_Alltoallv"); maybe_switch();
  int cr = c->rank_of[me], n = (int)c->members.size(); size_t sz = tsz(st), rz = tsz(rt);
  uint64_t seq; auto k = enter(c, "Alltoall(v)", nullptr, 0, &seq);
  for (int i = 0; i < n; i++) k->in_v[cr].push_back(sb == MPI_IN_PLACE ? string((char*)rb + (size_t)rd[i] * rz, (size_t)rn[i] * rz) : string((const char*)sb + (size_t)sd[i] * sz, (size_t)sn[i] * sz));
  await(c, k, N_ALL, 0, "MPI_Alltoallv");
  for (int i = 0; i < n; i++) {
    const string& x = k->in_v[i][cr];
    if (x.size() > (size_t)rn[i] * rz) stop_all("MPI_Alltoall: more bytes than announced");
    if (!x.empty()) memcpy((char*)rb + (size_t)rd[i] * rz, x.data(), x.size());
  }
  leave(c, k, seq); return 0;
}
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  check_comm(c, "MPI_Alltoall");
  vector<int> a(c->members.size(), sn), b(c->members.size(), rn), ad, bd;
  for (size_t i = 0; i < a.size(); i++) { ad.push_back((int)i * sn); bd.push_back((int)i * rn); }
  return MPI_Alltoallv(sb, a.data(), ad.data(), st, rb, b.data(), bd.data(), rt, c);
}
}
