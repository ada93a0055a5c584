// Several processes using the locked file operations on one file (C15, C16).
// Every operation is logged with its start and end in shared memory; the log is
// judged offline.
#include "vh.h"
#include "wrap.h"
extern "C" {
#include "kvtree_io.h"
}
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vh;
using std::string;
using std::vector;

static const int MAXP = 8, MAXOPS = 40, MAXSET = 320;
enum Kind { RD, WR, RMW };
static const char* kname[] = {"read_with_lock", "write_with_lock", "lock_open_read+write_close_unlock"};
struct Rec {
  int kind, proc, rc1, rc2, done;
  uint64_t inv, got, put, res;      // start; lock_open_read returned; write_close_unlock called; end
  int64_t val_read, val_written;    // -1: nothing in the file
  char bad[300];                    // what was wrong with what was read
  unsigned char set[MAXSET];        // C16: updates seen
  int nset;
};
static string istr(long long v) { return std::to_string(v); }
struct Shared {
  volatile int ready, go, stop;
  volatile uint64_t calls, lock_waits;
  int nops[MAXP];
  Rec ops[MAXP][MAXOPS];
};
static uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec; }

// ---- perturbation: short transfers and delays around every system call
struct Noise {
  Rng r; unsigned p_short, p_delay, max_us; bool yields; Shared* sh;
  wrap::Action operator()(const wrap::Call& c) {
    wrap::Action a;
    if ((c.op == wrap::READ || c.op == wrap::WRITE) && r.pct(p_short)) { a.kind = wrap::Action::SHORT; a.n = 1 + r.below(r.pct(50) ? 8 : std::max<size_t>(1, c.len)); }
    return a;
  }
  void delay(const wrap::Call& c, bool before) {
    (void)before;
    __sync_fetch_and_add(&sh->calls, 1);
    if (c.op == wrap::OTHER) return;
    if (yields && r.pct(50)) sched_yield();
    if (r.pct(p_delay)) { struct timespec t = {0, (long)(r.below(max_us * 1000) + 1)}; nanosleep(&t, nullptr); }
  }
};
static void arm(Noise& n) {
  wrap::begin();
  wrap::ep().plan = std::ref(n);
  wrap::ep().delay = [&n](const wrap::Call& c, bool b) { n.delay(c, b); };
}

// ---- values: the tree written for a number is a function of the number
static NodeP value_tree(uint64_t salt, int64_t id) {
  Rng r(mix(salt, id));
  NodeP n = gen_tree(r, Shape{1 + r.below(12), 3, 15, false, false});
  NodeP& x = n->kids["id"]; x = mk(); x->kids[std::to_string(id)] = mk();
  if (r.one_in(3)) n->kids[string(1 + r.below(r.one_in(6) ? 60000 : 3000), (char)('a' + id % 26))] = mk();
  return n;
}
static void judge_read(Rec& o, const kvtree* t, uint64_t salt) {
  o.val_read = -1;
  if (kvtree_size(t) == 0) return;
  const char* id = kvtree_get_val(t, "id");
  if (!id) { snprintf(o.bad, sizeof o.bad, "a tree without identification"); return; }
  o.val_read = strtoll(id, nullptr, 10);
  NodeP want = value_tree(salt, o.val_read), got;
  string why;
  try { got = read_back(t, "tree read"); } catch (CaseFail&) { snprintf(o.bad, sizeof o.bad, "a malformed tree"); return; }
  if (!same_tree(got.get(), want.get(), &why)) snprintf(o.bad, sizeof o.bad, "not the tree written as value %lld: %s", (long long)o.val_read, why.c_str());
}
static void nap(Rng& r, unsigned max_us) { if (max_us) { struct timespec t = {0, (long)r.below(max_us * 1000) + 1}; nanosleep(&t, nullptr); } }

struct Plan { int np, nops; unsigned w_read, w_write; unsigned p_short, p_delay, max_us, hold_us, gap_us; bool yields; bool initial; uint64_t salt; string path; uint64_t seed; };
static Plan make_plan(Rng& r, bool rmw_only) {
  Plan p;
  p.np = 2 + r.below(5); p.nops = 3 + r.below(10);
  p.w_read = rmw_only ? (r.pct(50) ? 15 : 0) : 20 + r.below(60);
  p.w_write = rmw_only ? 0 : r.below(100 - p.w_read);
  p.p_short = r.pct(30) ? 0 : r.below(60);
  p.p_delay = r.pct(20) ? 0 : r.below(60); p.max_us = 20 + r.below(r.pct(20) ? 1500 : 200);
  p.hold_us = r.pct(50) ? 0 : 20 + r.below(600); p.gap_us = r.pct(60) ? 0 : r.below(300);
  p.yields = r.pct(50); p.initial = r.pct(60); p.salt = r.next(); p.seed = r.next();
  p.path = path_in_scratch("locked");
  unlink(p.path.c_str());
  return p;
}
static void child_c15(const Plan& p, int me, Shared* sh) {
  Rng r(mix(p.seed, me));
  Noise n{Rng(r.next()), p.p_short, p.p_delay, p.max_us, p.yields, sh};
  for (int i = 0; i < p.nops; i++) {
    Rec& o = sh->ops[me][i];
    memset(&o, 0, sizeof o);
    o.proc = me; o.val_read = o.val_written = -1;
    unsigned k = r.below(100);
    o.kind = k < p.w_read ? RD : k < p.w_read + p.w_write ? WR : RMW;
    nap(r, p.gap_us);
    int64_t id = 1 + me * 1000 + i;
    sh->nops[me] = i + 1;
    if (o.kind == RD) {
      kvtree* t = kvtree_new();
      arm(n);
      o.inv = now_ns(); o.rc1 = kvtree_read_with_lock(p.path.c_str(), t); o.res = now_ns();
      wrap::end();
      if (o.rc1 == KVTREE_SUCCESS) judge_read(o, t, p.salt);
      kvtree_delete(&t);
    } else if (o.kind == WR) {
      NodeP m = value_tree(p.salt, id);
      kvtree* t = build(r, m.get());
      o.val_written = id;
      arm(n);
      o.inv = now_ns(); o.rc1 = kvtree_write_with_lock(p.path.c_str(), t); o.res = now_ns();
      wrap::end();
      kvtree_delete(&t);
    } else {
      NodeP m = value_tree(p.salt, id);
      kvtree *t = build(r, m.get()), *u = kvtree_new();
      int fd = -1;
      o.val_written = id;
      arm(n);
      o.inv = now_ns(); o.rc1 = kvtree_lock_open_read(p.path.c_str(), &fd, u); o.got = now_ns();
      wrap::end();
      if (o.rc1 == KVTREE_SUCCESS) {
        nap(r, p.hold_us);
        judge_read(o, u, p.salt);
        arm(n);
        o.put = now_ns(); o.rc2 = kvtree_write_close_unlock(p.path.c_str(), &fd, t); 
        wrap::end();
      }
      o.res = now_ns();
      kvtree_delete(&t); kvtree_delete(&u);
    }
    o.done = 1;
    if (o.rc1 != KVTREE_SUCCESS || o.rc2 != KVTREE_SUCCESS) break;
  }
}
static void child_c16(const Plan& p, int me, Shared* sh) {
  Rng r(mix(p.seed, me));
  Noise n{Rng(r.next()), p.p_short, p.p_delay, p.max_us, p.yields, sh};
  for (int i = 0; i < p.nops; i++) {
    Rec& o = sh->ops[me][i];
    memset(&o, 0, sizeof o);
    o.proc = me; o.kind = r.below(100) < p.w_read ? RD : RMW;
    nap(r, p.gap_us);
    sh->nops[me] = i + 1;
    int id = me * MAXOPS + i;
    kvtree* t = kvtree_new();
    int fd = -1;
    arm(n);
    o.inv = now_ns();
    if (o.kind == RD) { o.rc1 = kvtree_read_with_lock(p.path.c_str(), t); o.res = now_ns(); wrap::end(); }
    else {
      o.rc1 = kvtree_lock_open_read(p.path.c_str(), &fd, t); o.got = now_ns();
      wrap::end();
    }
    if (o.rc1 == KVTREE_SUCCESS) {
      kvtree* s = kvtree_get(t, "updates");
      for (kvtree_elem* e = kvtree_elem_first(s); e; e = kvtree_elem_next(e)) {
        int k = kvtree_elem_key_int(e);
        if (k < 0 || k >= MAXSET || o.set[k]) snprintf(o.bad, sizeof o.bad, "update %s twice or out of nowhere", kvtree_elem_key(e));
        else {
          o.set[k] = 1; o.nset++;
          const char* v = kvtree_elem_get_first_val(s, kvtree_elem_key(e));
          if (!v || (size_t)atoll(v) != strlen(kvtree_get_val(s ? kvtree_elem_hash(e) : nullptr, v) ? kvtree_get_val(kvtree_elem_hash(e), v) : "")) snprintf(o.bad, sizeof o.bad, "update %d is damaged", k);
        }
      }
      int total = 0;
      if (o.nset && (kvtree_util_get_int(t, "total", &total) != KVTREE_SUCCESS || total != o.nset)) snprintf(o.bad, sizeof o.bad, "a counter of %d with %d updates", total, o.nset);
    }
    if (o.kind == RMW && o.rc1 == KVTREE_SUCCESS) {
      nap(r, p.hold_us);
      // the update: one key with a payload whose length it names
      size_t len = r.below(r.one_in(10) ? 5000 : 60);
      kvtree* u = kvtree_set_kv_int(t, "updates", id);
      kvtree_set_kv(u, std::to_string(len).c_str(), string(len, 'x').c_str());
      kvtree_util_set_int(t, "total", o.nset + 1);
      // updates also shrink the file now and then
      if (r.pct(30)) { if (!kvtree_get(t, "ballast")) kvtree_set_kv(t, "ballast", string(r.below(20000), 'b').c_str()); else kvtree_unset(t, "ballast"); }
      arm(n);
      o.put = now_ns(); o.rc2 = kvtree_write_close_unlock(p.path.c_str(), &fd, t); o.res = now_ns();
      wrap::end();
      if (o.rc2 == KVTREE_SUCCESS && fd != -1) snprintf(o.bad, sizeof o.bad, "write_close_unlock left %d in the descriptor", fd);
    } else if (o.kind == RMW) o.res = now_ns();
    kvtree_delete(&t);
    o.done = 1;
    if (o.rc1 != KVTREE_SUCCESS || o.rc2 != KVTREE_SUCCESS) break;
  }
}
static Shared* shared() {
  static Shared* s = nullptr;
  if (!s) { s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (s == MAP_FAILED) die("mmap"); }
  memset((void*)s, 0, sizeof *s);
  return s;
}
// runs the processes; false if they did not finish
static void run_procs(const Plan& p, Shared* sh, void (*body)(const Plan&, int, Shared*)) {
  vector<pid_t> pids;
  fflush(stdout); fflush(stderr);
  for (int i = 0; i < p.np; i++) {
    pid_t c = fork();
    if (c < 0) die("fork: %s", strerror(errno));
    if (c == 0) {
      __sync_fetch_and_add(&sh->ready, 1);
      while (!sh->go) sched_yield();
      body(p, i, sh);
      fflush(stdout);
      _exit(0);
    }
    pids.push_back(c);
  }
  while (sh->ready < p.np) sched_yield();
  sh->go = 1;
  double t0 = now_s(), quiet = t0;
  uint64_t last = 0;
  size_t left = pids.size();
  string trouble;
  while (left) {
    bool any = false;
    for (auto& c : pids) if (c) {
      int st;
      pid_t w = waitpid(c, &st, WNOHANG);
      if (w == c) {
        any = true; left--; c = 0;
        if (WIFSIGNALED(st)) trouble = "a process ended by signal " + std::to_string(WTERMSIG(st));
        else if (WEXITSTATUS(st) == 86) trouble = "the library ended a process";
        else if (WEXITSTATUS(st)) trouble = "a process ended with code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report?)";
      }
    }
    uint64_t seen = sh->calls;
    if (any || seen != last) { last = seen; quiet = now_s(); }
    if (now_s() - quiet > 60) {
      string who;
      for (int i = 0; i < p.np; i++) if (pids[i]) { who += " " + std::to_string(i); int n = sh->nops[i]; if (n && !sh->ops[i][n - 1].done) who += string("(in ") + kname[sh->ops[i][n - 1].kind] + ")"; }
      for (auto c : pids) if (c) { kill(c, SIGKILL); waitpid(c, nullptr, 0); }
      fail("processes%s made no progress for 60 s", who.c_str());
    }
    if (!any) { struct timespec t = {0, 300000}; nanosleep(&t, nullptr); }
  }
  if (!trouble.empty()) fail("%s", trouble.c_str());
}
static string opstr(const Rec& o, uint64_t t0) {
  char b[200];
  snprintf(b, sizeof b, "%s of process %d [%.3f..%.3f ms]", kname[o.kind], o.proc, (o.inv - t0) / 1e6, (o.res - t0) / 1e6);
  return b;
}
static vector<Rec*> collect(const Plan& p, Shared* sh) {
  vector<Rec*> v;
  for (int i = 0; i < p.np; i++) for (int k = 0; k < sh->nops[i]; k++) v.push_back(&sh->ops[i][k]);
  for (auto* o : v) {
    if (!o->done) fail("%s of process %d did not finish", kname[o->kind], o->proc);
    if (o->rc1 != KVTREE_SUCCESS || o->rc2 != KVTREE_SUCCESS) fail("%s of process %d reports failure under contention", kname[o->kind], o->proc);
    if (o->bad[0]) fail("%s of process %d returned %s", kname[o->kind], o->proc, o->bad);
  }
  return v;
}
static void exclusion(const vector<Rec*>& v, uint64_t t0) {
  uint64_t overlaps = 0;
  for (auto* a : v) for (auto* b : v) {
    if (a == b) continue;
    if (a->inv < b->res && b->inv < a->res) overlaps++;
    if (a->kind == RMW && b->inv > a->got && b->res < a->put)
      fail("%s ran entirely while process %d held the file between its two calls [%.3f..%.3f ms]", opstr(*b, t0).c_str(), a->proc, (a->got - t0) / 1e6, (a->put - t0) / 1e6);
  }
  count("overlapping_pairs", overlaps / 2);
}
static uint64_t order_sig(vector<Rec*> v) {
  std::sort(v.begin(), v.end(), [](Rec* a, Rec* b) { return a->res < b->res; });
  uint64_t h = v.size();
  for (auto* o : v) h = mix(h, (uint64_t)o->proc * 4 + o->kind);
  return h;
}
static void note_contention(const Plan& p, Shared* sh, const vector<Rec*>& v) {
  count("operations", v.size()); count("system_calls", sh->calls);
  evaluated(v.size() > 0 ? v.size() - 1 : 0);
  for (auto* o : v) count(string("op ") + kname[o->kind]);
  set_max("processes", p.np);
}

// ---------------------------------------------------------------- one process holds the file, another wants it
struct HoldShared { volatile int waiting, done, rc1, rc2, stage; volatile long signals; volatile int64_t val_read; char bad[300]; };
static volatile long* sig_count;
static void on_sig(int) { if (sig_count) (*sig_count)++; }
static string read_through(int fd) {
  // through the holder's own descriptor: closing another one would drop a POSIX lock
  struct stat st; if (fstat(fd, &st)) die("fstat");
  string b(st.st_size, 0);
  size_t n = 0;
  while (n < b.size()) { ssize_t k = pread(fd, &b[n], b.size() - n, n); if (k <= 0) break; n += k; }
  b.resize(n);
  return b;
}
static void hold(Rng& r, bool update_only) {
  static HoldShared* sh = nullptr;
  if (!sh) { sh = (HoldShared*)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) die("mmap"); }
  memset((void*)sh, 0, sizeof *sh);
  string path = path_in_scratch("held");
  const char* f = path.c_str();
  uint64_t salt = r.next();
  enum { H_UPDATE, H_EXCL, H_SHARED };
  static const char* hname[] = {"lock_open_read", "open_with_lock for writing", "open_with_lock for reading"};
  enum { O_READ, O_WRITE, O_UPDATE, O_LOCKX, O_LOCKS, NO };
  static const char* oname[] = {"read_with_lock", "write_with_lock", "lock_open_read+write_close_unlock", "open_with_lock for writing", "open_with_lock for reading"};
  int h = update_only ? H_UPDATE : (int)r.below(3), o = r.below(NO);
  bool fresh = h != H_SHARED && r.one_in(5);     // the file does not exist before
  bool by_signal = r.pct(35), by_fault = !by_signal && r.pct(40);
  bool empty = r.pct(30);                        // the other one writes an empty tree
  bool write_back = h == H_UPDATE && r.pct(80);
  bool excl_other = o != O_READ && o != O_LOCKS;
  bool conflict = h != H_SHARED || excl_other;
  NodeP v0 = value_tree(salt, 0), v1 = value_tree(salt, 1), v2 = empty ? mk() : value_tree(salt, 2);
  unlink(f);
  if (!fresh) spew(path, r.one_in(8) ? "" : enc_file(v0.get(), true, &r));
  string what = string(oname[o]) + (excl_other && empty ? " of an empty tree" : "") + " while another process holds the file through " + hname[h];
  if (by_signal) what += ", signals arriving"; if (by_fault) what += ", the lock call interrupted";
  case_desc("%s", what.c_str());
  int fd = -1;
  kvtree* mine = kvtree_new();
  if (h == H_UPDATE) VCHECK(kvtree_lock_open_read(f, &fd, mine) == KVTREE_SUCCESS, "%s fails on an unused file", hname[h]);
  else { fd = kvtree_open_with_lock(f, O_RDWR | O_CREAT, 0644, h == H_EXCL); VCHECK(fd >= 0, "%s fails on an unused file", hname[h]); }
  string before = read_through(fd);
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c < 0) die("fork: %s", strerror(errno));
  if (c == 0) {
    vw_close(fd);
    int faults = by_fault ? 1 + (int)(salt % 3) : 0;
    sig_count = &sh->signals;
    if (by_signal) {
      struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_sig; sigaction(SIGALRM, &a, nullptr);
      struct itimerval it = {{0, 1500}, {0, 1500}}; setitimer(ITIMER_REAL, &it, nullptr);
    }
    wrap::begin();
    wrap::ep().plan = [&](const wrap::Call& k) { wrap::Action a; if (k.op == wrap::LOCK && faults > 0) { faults--; sh->signals++; a.kind = wrap::Action::ERR; a.err = EINTR; } return a; };
    wrap::ep().delay = [&](const wrap::Call& k, bool b) { if (b && k.op == wrap::LOCK) sh->waiting = 1; };
    kvtree *t = build(r, v2.get()), *u = kvtree_new();
    Rec rec; memset(&rec, 0, sizeof rec); rec.val_read = -2;
    int g = -1;
    if (o == O_READ) { sh->rc1 = kvtree_read_with_lock(f, u); if (sh->rc1 == KVTREE_SUCCESS) judge_read(rec, u, salt); }
    else if (o == O_WRITE) sh->rc1 = kvtree_write_with_lock(f, t);
    else if (o == O_UPDATE) {
      sh->rc1 = kvtree_lock_open_read(f, &g, u);
      sh->stage = 1;
      if (sh->rc1 == KVTREE_SUCCESS) { judge_read(rec, u, salt); sh->rc2 = kvtree_write_close_unlock(f, &g, t); }
    } else {
      g = kvtree_open_with_lock(f, O_RDWR | O_CREAT, 0644, o == O_LOCKX);
      sh->rc1 = g >= 0 ? KVTREE_SUCCESS : !KVTREE_SUCCESS;
      sh->stage = 1;
      if (g >= 0) sh->rc2 = kvtree_close_with_unlock(f, g);
    }
    wrap::end();
    sh->val_read = rec.val_read;
    memcpy(sh->bad, rec.bad, sizeof rec.bad);
    sh->done = 1;
    struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_REAL, &off, nullptr);
    kvtree_delete(&t); kvtree_delete(&u);
    fflush(stdout);
    _exit(wrap::open_fds() ? 70 : 0);
  }
  // let the other one get as far as it can
  double t0 = now_s();
  while (!sh->waiting && !sh->done && now_s() - t0 < 5) { struct timespec t = {0, 200000}; nanosleep(&t, nullptr); }
  // now and then for long, so that one who waits only for a while is seen to give up
  long hold_ms = r.one_in(opts.thorough() ? 60 : 100) ? 100 + (long)r.below(opts.thorough() ? 6000 : 1500) : 0;
  if (hold_ms) { count("held_for_long"); set_max("held_ms", hold_ms); }
  struct timespec w = {hold_ms / 1000, hold_ms % 1000 * 1000000}; 
  if (!hold_ms) w.tv_nsec = by_signal ? 6000000 : 1000000 + r.below(4000000);
  nanosleep(&w, nullptr);
  string trouble;
  string during = read_through(fd);
  bool early = sh->done && sh->rc1 == KVTREE_SUCCESS;
  bool got_early = early || (sh->stage == 1 && sh->rc1 == KVTREE_SUCCESS);
  if (conflict && got_early) trouble = "succeeds before the file is released";
  else if (during != before) trouble = "changes the file (" + istr(before.size()) + " to " + istr(during.size()) + " bytes)";
  // release
  string after = before;
  int rc = KVTREE_SUCCESS;
  if (h == H_UPDATE && write_back) {
    kvtree* t = build(r, v1.get());
    rc = kvtree_write_close_unlock(f, &fd, t);
    kvtree_delete(&t);
  } else rc = kvtree_close_with_unlock(f, fd);
  kvtree_delete(&mine);
  int st = 0;
  t0 = now_s();
  while (waitpid(c, &st, WNOHANG) == 0) {
    if (now_s() - t0 > 60) { kill(c, SIGKILL); waitpid(c, &st, 0); fail("%s: does not go on after the release", what.c_str()); }
    struct timespec t = {0, 200000}; nanosleep(&t, nullptr);
  }
  VCHECK(trouble.empty(), "%s: %s", what.c_str(), trouble.c_str());
  VCHECK(rc == KVTREE_SUCCESS, "%s: the holder's release reports failure", what.c_str());
  VCHECK(WIFEXITED(st) && WEXITSTATUS(st) != 86 && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 70), "%s: the process ended with status %#x", what.c_str(), st);
  VCHECK(WEXITSTATUS(st) != 70, "%s: a descriptor stays open", what.c_str());
  bool ok = sh->rc1 == KVTREE_SUCCESS && sh->rc2 == KVTREE_SUCCESS;
  VCHECK(ok || sh->signals > 0, "%s: reports failure", what.c_str());
  VCHECK(!(sh->rc1 == KVTREE_SUCCESS && sh->rc2 != KVTREE_SUCCESS), "%s: second call reports failure", what.c_str());
  VCHECK(!sh->bad[0], "%s: returned %s", what.c_str(), sh->bad);
  // what the other one read, and what is in the file now
  int64_t left = write_back ? 1 : before.empty() ? -1 : 0;
  if (ok && (o == O_READ || o == O_UPDATE)) {
    bool any = !conflict;   // a reader next to a reader
    VCHECK(sh->val_read == left || (any && sh->val_read == (before.empty() ? -1 : 0)), "%s: read value %lld although the holder left %lld", what.c_str(), (long long)sh->val_read, (long long)left);
  }
  bool wrote = ok && (o == O_WRITE || o == O_UPDATE);
  string now = slurp(path), err, why;
  if (!wrote && !write_back) VCHECK(now == before, "%s: the file changed though nobody wrote it", what.c_str());
  else {
    NodeP d = dec_file(now, err);
    VCHECK(err.empty(), "%s: the file is not one complete record afterwards: %s", what.c_str(), err.c_str());
    VCHECK(same_tree(d.get(), wrote ? v2.get() : v1.get(), &why), "%s: the file holds another tree afterwards: %s", what.c_str(), why.c_str());
  }
  unlink(f);
  count("held_file_cases"); count(string("held: ") + oname[o]);
  if (sh->signals) count("interrupted_lock_waits");
  if (!ok) count("reported_interruptions");
  nontrivial(mix(mix(h * NO + o, by_signal * 2 + by_fault), mix(empty * 4 + write_back * 2 + fresh, salt)));
}

// ---------------------------------------------------------------- C15
static void c15(Rng& r, uint64_t idx) {
  if (idx % 2) { hold(r, false); return; }
  Plan p = make_plan(r, false);
  Shared* sh = shared();
  if (p.initial) spew(p.path, enc_file(value_tree(p.salt, 0).get()));
  case_desc("C15 %d processes, %d operations each", p.np, p.nops);
  run_procs(p, sh, child_c15);
  vector<Rec*> v = collect(p, sh);
  uint64_t t0 = ~0ull;
  for (auto* o : v) t0 = std::min(t0, o->inv);
  // a last read when everybody is gone
  static Rec fin; memset(&fin, 0, sizeof fin); fin.proc = p.np; fin.kind = RD;
  { kvtree* t = kvtree_new(); fin.inv = now_ns(); fin.rc1 = kvtree_read_with_lock(p.path.c_str(), t); fin.res = now_ns(); if (fin.rc1 == KVTREE_SUCCESS) judge_read(fin, t, p.salt); kvtree_delete(&t); }
  bool exists = access(p.path.c_str(), F_OK) == 0;
  VCHECK(fin.rc1 == KVTREE_SUCCESS || !exists, "read_with_lock after everybody finished fails");
  VCHECK(!fin.bad[0], "read_with_lock after everybody finished returned %s", fin.bad);
  if (fin.rc1 == KVTREE_SUCCESS) v.push_back(&fin);
  // which value does each operation belong to; value 0 is there from the start, or stands for "nothing"
  struct Cl { uint64_t first_res = ~0ull, last_inv = 0; Rec* w = nullptr; const Rec *fr = nullptr, *li = nullptr; int next_rmw = 0; };
  std::map<int64_t, Cl> cl;
  auto val = [&](int64_t x) -> int64_t { return x < 0 ? 0 : x; };
  cl[0];
  for (auto* o : v) if (o->val_written > 0) cl[o->val_written].w = o;
  auto touch = [&](int64_t x, Rec* o) {
    Cl& c = cl[x];
    if (o->res < c.first_res) { c.first_res = o->res; c.fr = o; }
    if (o->inv >= c.last_inv) { c.last_inv = o->inv; c.li = o; }
  };
  size_t reads = 0, reads_of_others = 0;
  for (auto* o : v) {
    if (o->kind != WR) {
      int64_t x = o->val_read;
      reads++;
      VCHECK(!(x < 0 && p.initial), "%s found the file empty although it was written before", opstr(*o, t0).c_str());
      x = val(x);
      VCHECK(x == 0 || (cl.count(x) && cl[x].w), "%s returned value %lld nobody wrote", opstr(*o, t0).c_str(), (long long)x);
      if (x > 0) {
        VCHECK(cl[x].w->inv < o->res, "%s returned value %lld before its write started", opstr(*o, t0).c_str(), (long long)x);
        VCHECK(cl[x].w != o, "%s returned its own value", opstr(*o, t0).c_str());
        if (cl[x].w->proc != o->proc) reads_of_others++;
      }
      touch(x, o);
      if (o->kind == RMW) VCHECK(cl[x].next_rmw++ == 0, "two updates started from the same value %lld", (long long)x);
    }
    if (o->val_written > 0) touch(o->val_written, o);
  }
  // contract chains of updates, then require an acyclic real-time order between chains
  std::map<int64_t, int64_t> pred;      // value -> value its update started from
  for (auto* o : v) if (o->kind == RMW) pred[o->val_written] = val(o->val_read);
  std::map<int64_t, int64_t> head; std::map<int64_t, int> pos;
  for (auto& c : cl) {
    int64_t x = c.first; int n = 0;
    while (pred.count(x)) { x = pred[x]; VCHECK(++n <= (int)cl.size(), "updates form a cycle"); }
    head[c.first] = x; pos[c.first] = n;
  }
  std::map<int64_t, vector<int64_t>> chain;
  for (auto& c : cl) chain[head[c.first]].push_back(c.first);
  for (auto& c : chain) std::sort(c.second.begin(), c.second.end(), [&](int64_t a, int64_t b) { return pos[a] < pos[b]; });
  // inside a chain, an operation on a later value may not precede one on an earlier value
  for (auto& c : chain) for (size_t i = 0; i < c.second.size(); i++) for (size_t j = i + 1; j < c.second.size(); j++) {
    Cl &a = cl[c.second[i]], &b = cl[c.second[j]];
    if (a.li && b.fr && a.li != b.fr && b.first_res < a.last_inv) fail("%s saw value %lld although %s had already replaced it", opstr(*a.li, t0).c_str(), (long long)c.second[i], opstr(*b.fr, t0).c_str());
  }
  struct Z { uint64_t fr = ~0ull, li = 0; const Rec *f = nullptr, *l = nullptr; };
  std::map<int64_t, Z> z;
  for (auto& c : cl) { Z& q = z[head[c.first]]; if (c.second.first_res < q.fr) { q.fr = c.second.first_res; q.f = c.second.fr; } if (c.second.li && c.second.last_inv >= q.li) { q.li = c.second.last_inv; q.l = c.second.li; } }
  // edge a -> b when an operation of a ended before one of b began; the chain of value 0 comes first
  vector<int64_t> ids; for (auto& q : z) ids.push_back(q.first);
  size_t n = ids.size();
  auto edge = [&](size_t i, size_t j) { return i != j && z[ids[i]].fr < z[ids[j]].li; };
  for (size_t j = 0; j < n; j++) if (ids[j] != 0) for (size_t i = 0; i < n; i++)
    if (ids[i] == 0 && edge(j, i)) fail("%s saw the initial contents although %s had already replaced it", opstr(*z[0].l, t0).c_str(), opstr(*z[ids[j]].f, t0).c_str());
  vector<char> gone(n, 0);
  for (size_t k = 0; k < n; k++) {
    // remove a chain nothing must precede
    size_t pick = n;
    for (size_t i = 0; i < n && pick == n; i++) if (!gone[i]) {
      bool ok = true;
      for (size_t j = 0; j < n && ok; j++) if (!gone[j] && edge(j, i)) ok = false;
      if (ok) pick = i;
    }
    if (pick == n) {
      for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (!gone[i] && !gone[j] && edge(i, j) && edge(j, i))
        fail("no order explains what was read: %s and %s belong to value(s) after %lld, %s and %s to value(s) after %lld", opstr(*z[ids[i]].f, t0).c_str(), opstr(*z[ids[i]].l, t0).c_str(), (long long)ids[i], opstr(*z[ids[j]].f, t0).c_str(), opstr(*z[ids[j]].l, t0).c_str(), (long long)ids[j]);
      fail("no order consistent with real time explains the values read");
    }
    gone[pick] = 1;
  }
  if (fin.rc1 == KVTREE_SUCCESS) v.pop_back();
  exclusion(v, t0);
  note_contention(p, sh, v);
  count("reads_judged", reads); count("reads_of_another_process", reads_of_others);
  if (reads_of_others) nontrivial(order_sig(v));
  sample(std::to_string(p.np) + " processes x " + std::to_string(p.nops) + " operations, " + std::to_string(reads_of_others) + " reads saw another process's value, " + std::to_string((uint64_t)sh->calls) + " system calls");
  unlink(p.path.c_str());
}

// ---------------------------------------------------------------- C16
static void c16(Rng& r, uint64_t idx) {
  // exclusion also concerns plain locked reads and writes
  if (idx % 4 == 3) { c15(r, 0); return; }
  if (idx % 8 == 1) { hold(r, true); return; }
  Plan p = make_plan(r, true);
  Shared* sh = shared();
  case_desc("C16 %d processes, %d updates each", p.np, p.nops);
  if (p.initial) { kvtree* t = kvtree_new(); kvtree_write_file(p.path.c_str(), t); kvtree_delete(&t); }
  else if (r.pct(50)) spew(p.path, "");
  else if (p.w_read) spew(p.path, "");
  run_procs(p, sh, child_c16);
  vector<Rec*> v = collect(p, sh), u;
  uint64_t t0 = ~0ull;
  for (auto* o : v) { t0 = std::min(t0, o->inv); if (o->kind == RMW) u.push_back(o); }
  auto id = [&](const Rec* o) { return o->proc * MAXOPS + (int)(o - sh->ops[o->proc]); };
  std::sort(u.begin(), u.end(), [](Rec* a, Rec* b) { return a->nset < b->nset; });
  // each update starts from everything the previous one left
  std::set<int> have;
  for (size_t i = 0; i < u.size(); i++) {
    VCHECK(u[i]->nset == (int)i, "%s started from %d updates although %zu were already acknowledged in its history: an update was lost or duplicated", opstr(*u[i], t0).c_str(), u[i]->nset, i);
    for (int k = 0; k < MAXSET; k++) VCHECK((bool)u[i]->set[k] == (have.count(k) != 0), "%s started from a file %s update %d", opstr(*u[i], t0).c_str(), u[i]->set[k] ? "already holding" : "lacking", k);
    have.insert(id(u[i]));
    if (i) VCHECK(!(u[i]->res < u[i - 1]->inv), "%s comes after %s in the file but before it in time", opstr(*u[i], t0).c_str(), opstr(*u[i - 1], t0).c_str());
  }
  // locked readers see a prefix of that history, consistent with real time
  for (auto* o : v) if (o->kind == RD) {
    VCHECK(o->nset <= (int)u.size(), "a read saw too many updates");
    std::set<int> want;
    for (int i = 0; i < o->nset; i++) want.insert(id(u[i]));
    for (int k = 0; k < MAXSET; k++) VCHECK((bool)o->set[k] == (want.count(k) != 0), "%s saw %d updates that are not the first %d", opstr(*o, t0).c_str(), o->nset, o->nset);
    for (int i = 0; i < (int)u.size(); i++) {
      if (i < o->nset) VCHECK(u[i]->inv < o->res, "%s saw an update that began later", opstr(*o, t0).c_str());
      else VCHECK(!(u[i]->res < o->inv), "%s misses the earlier %s", opstr(*o, t0).c_str(), opstr(*u[i], t0).c_str());
    }
  }
  exclusion(v, t0);
  // the final file
  kvtree* t = kvtree_new();
  if (!u.empty()) {
    VCHECK(kvtree_read_file(p.path.c_str(), t) == KVTREE_SUCCESS, "the final file cannot be read");
    VCHECK(kvtree_size(kvtree_get(t, "updates")) == (int)u.size(), "the final file holds %d updates, %zu were acknowledged", kvtree_size(kvtree_get(t, "updates")), u.size());
    for (auto* o : u) VCHECK(kvtree_get_kv_int(t, "updates", id(o)), "the final file lacks an acknowledged update of process %d", o->proc);
  }
  kvtree_delete(&t);
  note_contention(p, sh, v);
  size_t handovers = 0;
  for (size_t i = 1; i < u.size(); i++) if (u[i]->proc != u[i - 1]->proc) handovers++;
  count("updates_serialised", u.size()); count("handovers_between_processes", handovers);
  uint64_t h = 1; for (auto* o : u) h = mix(h, o->proc);
  if (handovers) nontrivial(h);
  sample(std::to_string(p.np) + " processes, " + std::to_string(u.size()) + " updates, " + std::to_string(handovers) + " handovers");
  unlink(p.path.c_str());
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"c15", c15}, {"c16", c16}}); }
