// Threads working on their own trees and files, and threads reading one shared
// tree (C19). Built with ThreadSanitizer: races end the program; results are
// compared with the same work done alone.
#include "vh.h"
#include "kvtree_io.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/stat.h>
#include <atomic>
using namespace vh;
using std::string;
using std::vector;

typedef uint64_t H;
static H hs(H h, const string& s) { return mix(h, hash64(s)); }
static H hv(H h, uint64_t v) { return mix(h, v + 0x9e37); }
static string pack_bytes(const kvtree* t) { string b(kvtree_pack_size(t), 0); kvtree_pack(&b[0], t); return b; }
static H tree_hash(H h, const kvtree* t) {
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) { h = hs(h, kvtree_elem_key(e)); h = hv(h, 77); h = tree_hash(h, kvtree_elem_hash(e)); }
  return hv(h, kvtree_size(t));
}
struct Job {
  int kind; uint64_t seed; string path; kvtree* shared = nullptr; const Node* model = nullptr;
  H result = 0; string err; uint64_t calls = 0; bool jitter = false;
  vector<std::pair<string, mode_t>> files;
};
// one script on trees and files of its own; deterministic in the seed
static H own_work(Job& j) {
  Rng r(j.seed);
  Rng sched(j.seed ^ 0x5555);
  H h = 1;
  auto pause = [&]() { if (j.jitter && sched.pct(30)) sched_yield(); j.calls++; };
  kvtree* t = kvtree_new();
  NodeP m = gen_tree(r, Shape{25, 4, 15, true, r.pct(30)});
  build_into(r, t, m.get());
  int n = 8 + r.below(25);
  for (int i = 0; i < n; i++) {
    pause();
    char key[64]; snprintf(key, sizeof key, "k%d", (int)r.below(12));
    switch (r.below(17)) {
      case 0: { kvtree* x = kvtree_setf(t, kvtree_new(), "%s %d %s %lu", "fmt", (int)r.below(5), key, (unsigned long)r.next()); h = hv(h, x != nullptr); break; }
      case 1: { kvtree* x = kvtree_getf(t, "%s %d %s", "fmt", (int)r.below(5), key); h = tree_hash(h, x); break; }
      case 2: { kvtree_set_kv(t, key, "v"); kvtree_set_kv_int(t, key, (int)r.below(9)); h = hv(h, kvtree_size(kvtree_get(t, key))); break; }
      case 3: { kvtree_unset_kv(t, key, "v"); h = hv(h, kvtree_get_kv(t, key, "v") != nullptr); break; }
      case 4: { int dir = r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING; kvtree_sort(t, dir); h = tree_hash(h, t); break; }
      case 5: {
        kvtree* s = kvtree_new(); int c = r.below(20);
        for (int k = 0; k < c; k++) { char b[20]; snprintf(b, sizeof b, "%d", (int)r.range(-500, 500)); kvtree_set(s, b, kvtree_new()); }
        kvtree_sort_int(s, r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); h = tree_hash(h, s);
        int nn = 0; int* v = nullptr; kvtree_list_int(s, &nn, &v);
        h = hv(h, nn); for (int k = 0; k < nn; k++) h = hv(h, (uint64_t)v[k]);
        free(v); kvtree_delete(&s); break;
      }
      case 6: { string b = pack_bytes(t); kvtree* u = kvtree_new(); h = hv(h, kvtree_unpack(b.data(), u)); h = tree_hash(h, u); kvtree_delete(&u); break; }
      case 7: { kvtree* u = kvtree_new(); NodeP o = gen_tree(r, Shape{10, 3, 15, false, false}); build_into(r, u, o.get()); kvtree_merge(t, u); kvtree_delete(&u); h = hv(h, kvtree_size(t)); break; }
      case 8: { double d = (double)r.next() / 3.0; kvtree_util_set_double(t, key, d); double q = 0; h = hv(h, kvtree_util_get_double(t, key, &q)); h = hv(h, q == d); break; }
      case 9: { kvtree_util_set_bytecount(t, key, (unsigned long)r.next()); unsigned long q = 0; h = hv(h, kvtree_util_get_bytecount(t, key, &q)); h = hv(h, q); break; }
      case 10: { kvtree_util_set_int(t, key, (int)r.next()); int q = 0; h = hv(h, kvtree_util_get_int(t, key, &q)); h = hv(h, (unsigned)q); break; }
      case 11: { kvtree_util_set_crc32(t, key, (uLong)(r.next() & 0xffffffff)); uLong q = 0; h = hv(h, kvtree_util_get_crc32(t, key, &q)); h = hv(h, q); break; }
      case 12: { kvtree_util_set_str(t, key, "text"); char* q = nullptr; h = hv(h, kvtree_util_get_str(t, key, &q)); if (q) h = hs(h, q); break; }
      case 13: case 14: {
        kvtree* u = kvtree_new();
        if (r.pct(50)) { h = hv(h, kvtree_write_file(j.path.c_str(), t)); pause(); h = hv(h, kvtree_read_file(j.path.c_str(), u)); }
        else { h = hv(h, kvtree_write_with_lock(j.path.c_str(), t)); pause(); h = hv(h, kvtree_read_with_lock(j.path.c_str(), u)); }
        h = tree_hash(h, u); kvtree_delete(&u);
        struct stat st; if (stat(j.path.c_str(), &st) == 0) h = hv(h, st.st_mode);
        if (r.pct(60)) unlink(j.path.c_str());
        break;
      }
      case 15: {
        int fd = -1; kvtree* u = kvtree_new();
        h = hv(h, kvtree_lock_open_read(j.path.c_str(), &fd, u)); pause();
        kvtree_set_kv(u, "more", key);
        if (fd >= 0) h = hv(h, kvtree_write_close_unlock(j.path.c_str(), &fd, u));
        h = tree_hash(h, u); kvtree_delete(&u);
        if (r.pct(50)) unlink(j.path.c_str());
        break;
      }
      default: {
        // a rank-file set of its own
        kvtree* d = kvtree_new(); int c = 1 + r.below(4);
        for (int k = 0; k < c; k++) { char b[20]; snprintf(b, sizeof b, "%d", k); kvtree* x = kvtree_set(d, b, kvtree_new()); kvtree_set_kv(x, "r", b); }
        string p = j.path + ".set";
        h = hv(h, kvtree_write_to_gather(p.c_str(), d, c));
        kvtree* u = kvtree_new(); h = hv(h, kvtree_read_scatter_single(p.c_str(), u)); kvtree_sort_int(u, KVTREE_SORT_ASCENDING); h = tree_hash(h, u);
        kvtree_delete(&d); kvtree_delete(&u);
        break;
      }
    }
  }
  h = tree_hash(h, t);
  kvtree_delete(&t);
  unlink(j.path.c_str());
  return h;
}
// looking at a tree nobody changes
static H shared_work(Job& j) {
  Rng r(j.seed);
  Rng sched(j.seed ^ 0x7777);
  H h = 2;
  const kvtree* t = j.shared;
  vector<string> keys; for (auto& k : j.model->kids) keys.push_back(k.first);
  int n = 8 + r.below(30);
  for (int i = 0; i < n; i++) {
    if (j.jitter && sched.pct(30)) sched_yield();
    j.calls++;
    string key = keys.empty() || r.pct(15) ? "absent" : r.pick(keys);
    switch (r.below(10)) {
      case 0: h = tree_hash(h, t); break;
      case 1: h = tree_hash(h, kvtree_get(t, key.c_str())); break;
      case 2: if (key.size() < 900 && key.find(' ') == string::npos) h = tree_hash(h, kvtree_getf(t, "%s %s", key.c_str(), "a")); break;
      case 3: { kvtree_elem* e = kvtree_elem_get(t, key.c_str()); h = hv(h, e != nullptr); break; }
      case 4: { kvtree* u = kvtree_new(); kvtree_set_kv(u, "own", key.c_str()); kvtree_merge(u, t); h = tree_hash(h, u); kvtree_delete(&u); break; }
      case 5: h = hs(h, pack_bytes(t)); break;
      case 6: { int nn = 0; int* v = nullptr; kvtree_list_int(kvtree_get(t, "ints"), &nn, &v); h = hv(h, nn); for (int k = 0; k < nn; k++) h = hv(h, (uint64_t)v[k]); free(v); break; }
      case 7: { const char* v = kvtree_elem_get_first_val(t, key.c_str()); if (v) h = hs(h, v); h = hv(h, kvtree_size(t)); break; }
      case 8: { int q = 0; h = hv(h, kvtree_util_get_int(t, "number", &q)); h = hv(h, q); unsigned long b = 0; h = hv(h, kvtree_util_get_bytecount(t, "bytes", &b)); h = hv(h, b); double d = 0; h = hv(h, kvtree_util_get_double(t, "real", &d)); h = hv(h, (uint64_t)(d * 16)); break; }
      default: { kvtree* s = kvtree_get_kv_int(t, "ints", (int)r.range(-3, 30)); h = hv(h, s != nullptr); const char* v = kvtree_get_val(t, "number"); if (v) h = hs(h, v); break; }
    }
  }
  return h;
}
static pthread_barrier_t bar;
static void* thread_main(void* a) {
  Job* j = (Job*)a;
  pthread_barrier_wait(&bar);
  try { j->result = j->kind ? shared_work(*j) : own_work(*j); } catch (CaseFail&) { j->err = "malformed tree"; }
  return nullptr;
}
static void c19(Rng& r, uint64_t idx) {
  int n = 2 + r.below(5);
  int mixk = r.below(3);       // own trees, one shared tree, both
  kvtree* sh = nullptr; NodeP m;
  if (mixk) {
    m = gen_tree(r, Shape{20, 4, 15, true, false});
    m->kids["number"] = mk(); m->kids["number"]->kids["42"] = mk();
    m->kids["bytes"] = mk(); m->kids["bytes"]->kids["123456"] = mk();
    m->kids["real"] = mk(); m->kids["real"]->kids["2.5"] = mk();
    NodeP& x = m->kids["ints"]; x = mk(); for (int i = 0; i < 15; i++) x->kids[std::to_string(r.range(-3, 30))] = mk();
    for (auto it = m->kids.begin(); it != m->kids.end();) { if (it->first == "absent") it = m->kids.erase(it); else ++it; }
    sh = build(r, m.get());
  }
  static const mode_t masks[] = {022, 027, 077, 002, 0, 07, 070};
  mode_t mask = masks[r.below(7)];
  umask(mask);
  vector<Job> jobs(n);
  for (int i = 0; i < n; i++) {
    jobs[i].kind = mixk == 0 ? 0 : mixk == 1 ? 1 : i % 2;
    jobs[i].seed = r.next();
    jobs[i].path = path_in_scratch("t" + std::to_string(i));
    jobs[i].shared = sh; jobs[i].model = m.get();
  }
  // alone
  vector<H> want(n);
  string before = sh ? pack_bytes(sh) : "";
  for (int i = 0; i < n; i++) { Job j = jobs[i]; want[i] = j.kind ? shared_work(j) : own_work(j); unlink(jobs[i].path.c_str()); }
  case_desc("C19 %d threads, kind %d, mask %03o", n, mixk, (unsigned)mask);
  pthread_barrier_init(&bar, nullptr, n);
  vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) { jobs[i].jitter = true; if (pthread_create(&th[i], nullptr, thread_main, &jobs[i]) != 0) die("pthread_create"); }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
  pthread_barrier_destroy(&bar);
  mode_t now = umask(022);
  uint64_t calls = 0, h = mixk;
  for (int i = 0; i < n; i++) {
    VCHECK(jobs[i].err.empty(), "thread %d of %d: %s", i, n, jobs[i].err.c_str());
    VCHECK(jobs[i].result == want[i], "thread %d of %d (%s) got other results than alone", i, n, jobs[i].kind ? "reading the shared tree" : "own tree and file");
    calls += jobs[i].calls; h = mix(h, want[i]);
  }
  VCHECK(now == mask, "the file-creation mask is %03o after the threads finished, it was %03o", (unsigned)now, (unsigned)mask);
  if (sh) { VCHECK(pack_bytes(sh) == before, "the shared tree changed"); kvtree_delete(&sh); }
  evaluated(n - 1);
  count("operations_in_threads", calls); count("threads", n);
  nontrivial(h);
  sample(std::to_string(n) + (mixk == 0 ? " threads on own trees" : mixk == 1 ? " threads on one tree" : " threads, mixed") + ", " + std::to_string(calls) + " operations");
  (void)idx;
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c19", c19}}); }
