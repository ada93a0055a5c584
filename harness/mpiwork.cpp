// C20-C26 and the parallel parts of C13, C17, C25, and their mix for C02.
#include "mpiwork.h"
#include "wrap.h"
#include "sets.h"
#include "fsnap.h"
#include "kvtree_mpi.h"
#include <climits>
#include <list>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <csignal>

namespace mw {
Env* E = nullptr;
typedef vector<vector<int>> Groups;

// a check whose failure is recorded without leaving the process's program
template <class F> static void soft(F f) { try { f(); } catch (CaseFail&) { } }
#define SCHECK(c, ...) do { if (!(c)) ::vh::note_fail(__VA_ARGS__); } while (0)
static void expect_soft(const kvtree* t, const Node* m, const string& what) { soft([&] { expect_tree(t, m, what.c_str()); }); }
static void run(const std::function<void(int)>& f) {
  E->run([&](int wr) { soft([&] { f(wr); }); wrap::end(); });
  if (E->any(case_failed)) { case_failed = true; throw CaseFail(); }
}
static void host(const std::function<void()>& f) {
  E->host(f);
  if (E->any(case_failed)) { case_failed = true; throw CaseFail(); }
}
struct Session { ~Session() { E->close(); } };
static void wrapped(Rng& r, uint64_t idx, const CaseFn& f) {
  Session s;
  f(r, idx);
}

static void shuffle(Rng& r, vector<int>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
static Groups gen_groups(Rng& r, int W, bool all_usual = true) {
  Groups g;
  vector<int> p; for (int i = 0; i < W; i++) p.push_back(i);
  if (r.pct(50)) shuffle(r, p);
  if (all_usual && r.pct(65)) { g.push_back(p); return g; }
  int k = 1 + r.below(3);
  g.resize(k);
  for (int x : p) if (!r.one_in(9)) g[r.below(k)].push_back(x);
  Groups out; for (auto& x : g) if (!x.empty()) out.push_back(x);
  if (out.empty()) out.push_back(p);
  return out;
}
static int index_in(const vector<int>& g, int wr) { for (size_t i = 0; i < g.size(); i++) if (g[i] == wr) return (int)i; return -1; }

static NodeP filler(size_t want) {          // a tree of exactly this packed size, if at all possible
  NodeP n = mk();
  size_t base = packed_size(n.get());
  NodeP one = mk(); one->kids["x"] = mk();
  size_t over = packed_size(one.get()) - base - 1;     // per key, without its characters
  if (want <= base) return n;
  if (want < base + over) return n;
  string k(want - base - over, 'f');
  n->kids[k] = mk();
  return n;
}
// trees whose keys look like what the transport itself uses
static NodeP gen_msg1(Rng& r, bool big_ok) {
  if (r.one_in(12)) return mk();
  if (big_ok && r.one_in(14)) {
    if (r.one_in(60)) { NodeP n = filler((1u << 20) + r.below(40u << 20)); set_max("largest_message", packed_size(n.get())); return n; }
    if (r.pct(50)) return filler(1 + r.below(3u << 20));
    return gen_wide(r, 100 + r.below(1500), r.below(3));
  }
  NodeP n = r.one_in(8) ? gen_any(r, 0) : gen_tree(r, Shape{1 + (size_t)r.below(25), 6, 15, true, r.pct(30)});
  if (r.pct(40)) {
    static const char* k[] = {"D", "S", "RANK", "0", "1", "2", "LEVEL", "FILE", "OFFSET", "RANKS"};
    for (int i = 0; i < 3; i++) { NodeP& x = n->kids[k[r.below(10)]]; if (!x) x = mk(); if (r.pct(60)) { NodeP& y = x->kids[k[r.below(10)]]; if (r.pct(70)) { if (!y) y = mk(); y->kids[istr(r.below(9))] = mk(); } } }
  }
  return n;
}
static NodeP gen_msg(Rng& r, bool big_ok) {
  // one in some is like the one before, of the same size
  static NodeP last; static uint64_t in_case = ~0ull;
  if (in_case == case_serial && last && r.pct(12)) { NodeP n = alike(r, last.get()); count("messages_like_the_one_before"); return n; }
  NodeP n = gen_msg1(r, big_ok);
  if (count_nodes(n.get()) < 200 && packed_size(n.get()) < 100000) { last = clone(n.get()); in_case = case_serial; }
  return n;
}
static string where(int set, const vector<int>& g, int me) { return "rank " + istr(me) + " of " + istr(g.size()) + (set ? " (second communicator)" : ""); }

// ------------------------------------------------------------ C20
static void c20(Rng& r, uint64_t idx) {
  int W = E->world(r, 9);
  vector<Groups> sets = {gen_groups(r, W), gen_groups(r, W, false)};
  E->open(r, W, sets);
  struct Step { int set, grp; bool sr; int a = 0, b = 0; vector<int> dst, src; vector<char> in; vector<char> sndcur, rcvcur, nullarg, noout; vector<NodeP> out, pre; uint64_t seed; };
  vector<Step> plan;
  vector<NodeP> cur, first;
  for (int i = 0; i < W; i++) { cur.push_back(gen_msg(r, false)); first.push_back(clone(cur[i].get())); }
  int steps = 1 + r.below(12);
  uint64_t sig = 0;
  for (int q = 0; q < steps; q++) {
    int set = r.pct(70) ? 0 : 1;
    int grp = r.below(sets[set].size());
    auto& g = sets[set][grp];
    int n = (int)g.size();
    Step s; s.set = set; s.grp = grp; s.seed = r.next();
    s.sr = n < 2 || r.pct(55);
    s.dst.assign(n, -1); s.src.assign(n, -1); s.in.assign(n, 0); s.sndcur.assign(n, 0); s.rcvcur.assign(n, 0); s.nullarg.assign(n, 0); s.noout.assign(n, 0);
    s.out.resize(n); s.pre.resize(n);
    if (!s.sr) {
      s.a = r.below(n); do s.b = r.below(n); while (s.b == s.a);
      s.dst[s.a] = s.b; s.src[s.b] = s.a; s.in[s.a] = s.in[s.b] = 1;
    } else {
      int kind = r.below(5);
      if (kind == 0) { int k = r.below(n); for (int i = 0; i < n; i++) s.dst[i] = (i + k) % n; }
      else if (kind == 1) { for (int i = 0; i + 1 < n; i += 2) { s.dst[i] = i + 1; s.dst[i + 1] = i; } }
      else if (kind == 2) { vector<int> p; for (int i = 0; i < n; i++) p.push_back(i); shuffle(r, p); for (int i = 0; i < n; i++) if (r.pct(70)) s.dst[i] = p[i]; }
      else if (kind == 3) { for (int i = 0; i + 1 < n; i++) s.dst[i] = i + 1; if (r.pct(30)) s.dst[r.below(n)] = -1; }
      else { vector<int> p; for (int i = 0; i < n; i++) p.push_back(i); shuffle(r, p); for (int i = 0; i < n; i++) s.dst[i] = p[i]; }
      for (int i = 0; i < n; i++) if (s.dst[i] >= 0) s.src[s.dst[i]] = i;
      for (int i = 0; i < n; i++) s.in[i] = s.dst[i] >= 0 || s.src[i] >= 0 || r.pct(50);
    }
    for (int i = 0; i < n; i++) if (s.in[i]) {
      s.sndcur[i] = r.pct(35);
      s.rcvcur[i] = !(s.sr && s.sndcur[i]) && r.pct(50);
      s.nullarg[i] = r.pct(40);
      s.out[i] = s.sndcur[i] ? clone(cur[g[i]].get()) : s.dst[i] >= 0 ? gen_msg(r, true) : gen_msg(r, false);
      s.noout[i] = s.dst[i] >= 0 && !s.sndcur[i] && r.pct(8);     // no tree at all: received as an empty one
      if (s.noout[i]) { s.out[i] = mk(); count("absent_trees_sent"); }
      s.pre[i] = s.rcvcur[i] ? clone(cur[g[i]].get()) : r.pct(70) ? gen_msg(r, false) : mk();
    }
    for (int i = 0; i < n; i++) if (s.in[i] && s.rcvcur[i] && s.src[i] >= 0) cur[g[i]] = clone(s.out[s.src[i]].get());
    sig = mix(sig, s.seed);
    for (int i = 0; i < n; i++) if (s.in[i] && s.dst[i] >= 0) { count("messages"); if (s.dst[i] == i) count("messages_to_self"); set_max("message_bytes", packed_size(s.out[i].get())); }
    count(s.sr ? "sendrecv_rounds" : "sends");
    plan.push_back(std::move(s));
  }
  case_desc("C20 %d processes, %d steps", W, steps);
  run([&](int wr) {
    Rng rr(mix(sig, wr));
    kvtree* mine = build(rr, first[wr].get());
    for (auto& s : plan) {
      auto& g = sets[s.set][s.grp];
      int me = index_in(g, wr);
      if (me < 0 || !s.in[me]) continue;
      MPI_Comm c = E->comm(s.set, wr);
      string w = where(s.set, g, me);
      bool has_out = s.dst[me] >= 0, has_in = s.src[me] >= 0;
      kvtree *o = nullptr, *u = nullptr;
      bool want_o = (has_out && !s.noout[me]) || (!has_out && s.sr && !s.nullarg[me]), want_u = has_in || (s.sr && !s.nullarg[me]);
      if (want_o) o = s.sndcur[me] ? mine : build(rr, s.out[me].get());
      if (want_u) u = s.rcvcur[me] ? mine : build(rr, s.pre[me].get());
      int rc = KVTREE_SUCCESS;
      string what;
      if (s.sr) {
        what = w + ": sendrecv(to " + istr(s.dst[me]) + ", from " + istr(s.src[me]) + ")";
        rc = kvtree_sendrecv(o, has_out ? s.dst[me] : MPI_PROC_NULL, u, has_in ? s.src[me] : MPI_PROC_NULL, c);
      } else if (has_out) { what = w + ": send to " + istr(s.dst[me]); rc = kvtree_send(o, s.dst[me], c); }
      else { what = w + ": recv from " + istr(s.src[me]); rc = kvtree_recv(u, s.src[me], c); }
      SCHECK(rc == KVTREE_SUCCESS, "%s returned %d", what.c_str(), rc);
      if (o) expect_soft(o, s.out[me].get(), what + ", tree sent");
      if (u) expect_soft(u, has_in ? s.out[s.src[me]].get() : s.pre[me].get(), what + (has_in ? ", tree received" : ", tree of a receiver without a sender"));
      if (o && o != mine) kvtree_delete(&o);
      if (u && u != mine) kvtree_delete(&u);
    }
    expect_soft(mine, cur[wr].get(), "tree at the end");
    kvtree_delete(&mine);
  });
  set_max("processes", W);
  nontrivial(sig);
  sample(istr(W) + " processes, " + istr(steps) + " steps");
}

// ------------------------------------------------------------ C21
static void c21(Rng& r, uint64_t idx) {
  int W = E->world(r, r.one_in(5) ? 33 : 10);
  vector<Groups> sets = {gen_groups(r, W), gen_groups(r, W, false)};
  E->open(r, W, sets);
  struct Step { int set, grp, root; NodeP t; vector<char> use_cur; uint64_t seed; vector<NodeP> before; };
  vector<Step> plan;
  vector<NodeP> cur, first;
  for (int i = 0; i < W; i++) { cur.push_back(gen_msg(r, false)); first.push_back(clone(cur[i].get())); }
  int steps = 1 + r.below(6);
  uint64_t sig = r.next();
  for (int q = 0; q < steps; q++) {
    Step s; s.set = r.pct(70) ? 0 : 1; s.grp = r.below(sets[s.set].size()); s.seed = r.next();
    auto& g = sets[s.set][s.grp];
    int n = (int)g.size();
    s.root = r.below(n);
    s.use_cur.assign(n, 0);
    for (int i = 0; i < n; i++) s.use_cur[i] = r.pct(50);
    s.t = s.use_cur[s.root] ? clone(cur[g[s.root]].get()) : gen_msg(r, true);
    s.before.resize(n);
    for (int i = 0; i < n; i++) {
      if (i != s.root && !s.use_cur[i]) s.before[i] = r.pct(70) ? gen_msg(r, false) : mk();
      if (s.use_cur[i]) cur[g[i]] = clone(s.t.get());
    }
    set_max("broadcast_bytes", packed_size(s.t.get()));
    count("broadcasts");
    if (s.root) count("broadcasts_from_nonzero_root");
    plan.push_back(std::move(s));
  }
  case_desc("C21 %d processes, %d broadcasts", W, steps);
  run([&](int wr) {
    Rng rr(mix(sig, wr));
    kvtree* mine = build(rr, first[wr].get());
    for (auto& s : plan) {
      auto& g = sets[s.set][s.grp];
      int me = index_in(g, wr);
      if (me < 0) continue;
      kvtree* t = s.use_cur[me] ? mine : build(rr, me == s.root ? s.t.get() : s.before[me].get());
      int rc = kvtree_bcast(t, s.root, E->comm(s.set, wr));
      string what = where(s.set, g, me) + ": bcast from " + istr(s.root);
      SCHECK(rc == KVTREE_SUCCESS, "%s returned %d", what.c_str(), rc);
      expect_soft(t, s.t.get(), what);
      if (t != mine) kvtree_delete(&t);
    }
    // processes not in a broadcast keep what they have
    expect_soft(mine, cur[wr].get(), "tree at the end");
    kvtree_delete(&mine);
  });
  set_max("processes", W);
  nontrivial(sig);
  sample(istr(W) + " processes, " + istr(steps) + " broadcasts");
}

// ------------------------------------------------------------ C22
struct Xchg { vector<std::map<int, vector<NodeP>>> pieces; vector<NodeP> send, recv; vector<std::map<int, char>> direct; };
static Xchg gen_xchg(Rng& r, int n, bool big) {
  Xchg x;
  x.pieces.resize(n); x.direct.resize(n);
  for (int i = 0; i < n; i++) { x.send.push_back(mk()); x.recv.push_back(mk()); }
  int kind = r.below(8), hot = r.below(n);
  unsigned dens = kind == 0 ? 0 : r.pct(50) ? 10 + r.below(30) : 60 + r.below(41);
  size_t each = n > 20 ? 3 : 12;
  for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) {
    bool go;
    switch (kind) {
      case 0: go = false; break;
      case 1: go = true; break;
      case 2: go = s == hot; break;
      case 3: go = d == hot; break;
      case 4: go = d == (s + 1 + hot) % n || s == d; break;
      case 5: go = s == d; break;
      case 6: go = ((d - s + n) % n) == (int)((1u << r.below(7)) % n); break;
      default: go = r.pct(dens);
    }
    if (!go) continue;
    auto& ps = x.pieces[s][d];
    int k = r.pct(70) ? 1 : 2 + r.below(2);
    NodeP u = mk();
    for (int i = 0; i < k; i++) {
      NodeP p = r.one_in(8) ? mk() : big && r.one_in(30) ? filler(r.below(300000)) : n > 20 ? gen_tree(r, Shape{1 + each, 3, 15, false, true}) : gen_msg(r, false);
      if (n > 20 && packed_size(p.get()) > 3000) p = mk();
      merge_into(u.get(), p.get());
      ps.push_back(std::move(p));
    }
    // so that a misrouted tree is never equal to the right one
    if (r.pct(80)) { string id = "from" + istr(s) + "to" + istr(d); u->kids[id] = mk(); if (!ps[0]->kids.count(id)) ps[0]->kids[id] = mk(); }
    x.direct[s][d] = k == 1 ? r.below(3) : 0;
    x.recv[d]->kids[istr(s)] = clone(u.get());
    x.send[s]->kids[istr(d)] = std::move(u);
  }
  return x;
}
static void c22(Rng& r, uint64_t idx) {
  int most = r.one_in(12) ? 70 : r.one_in(4) ? 24 : 12;
  int W = E->world(r, most);
  vector<Groups> sets = {gen_groups(r, W), gen_groups(r, W, false)};
  E->open(r, W, sets);
  struct Step { int set, grp; Xchg x; vector<int> ops; };
  vector<Step> plan;
  int steps = W > 24 ? 1 : 1 + r.below(3);
  uint64_t sig = r.next();
  for (int q = 0; q < steps; q++) {
    Step s; s.set = r.pct(75) ? 0 : 1; s.grp = r.below(sets[s.set].size());
    int n = (int)sets[s.set][s.grp].size();
    s.x = gen_xchg(r, n, n < 10);
    if (r.pct(35) && n <= 24) s.ops = {0, 1, 2}; else s.ops = {(int)r.below(3)};
    size_t m = 0; for (auto& p : s.x.send) m += p->kids.size();
    for (size_t i = 0; i < s.ops.size(); i++) { count(s.ops[i] == 0 ? "exchanges_default" : s.ops[i] == 1 ? "exchanges_left" : "exchanges_right"); count("messages_exchanged", m); }
    set_max("communicator_size", n);
    plan.push_back(std::move(s));
  }
  case_desc("C22 %d processes, %d exchanges", W, steps);
  run([&](int wr) {
    Rng rr(mix(sig, wr));
    for (auto& s : plan) {
      auto& g = sets[s.set][s.grp];
      int me = index_in(g, wr);
      if (me < 0) continue;
      kvtree* send = kvtree_new();
      // pieces of different destinations in any order
      vector<std::pair<int, int>> order;
      for (auto& d : s.x.pieces[me]) for (size_t i = 0; i < d.second.size(); i++) order.push_back({d.first, (int)i});
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rr.below(i)]);
      for (auto& o : order) {
        const Node* p = s.x.pieces[me][o.first][o.second].get();
        kvtree* t = build(rr, p);
        switch (s.x.direct[me][o.first]) {
          case 1: kvtree_setf(send, t, "%d", o.first); break;
          case 2: { kvtree* k = kvtree_set(send, istr(o.first).c_str(), kvtree_new()); kvtree_merge(k, t); kvtree_delete(&t); break; }
          default: {
            int rc = kvtree_exchange_sendq(send, o.first, t);
            SCHECK(rc == KVTREE_SUCCESS, "exchange_sendq returned %d", rc);
            expect_soft(t, p, "message given to exchange_sendq");
            kvtree_delete(&t);
          }
        }
      }
      expect_soft(send, s.x.send[me].get(), "send tree after exchange_sendq");
      if (order.empty() && rr.pct(30)) { kvtree_delete(&send); count("exchanges_without_a_send_tree"); }
      for (int op : s.ops) {
        kvtree* recv = kvtree_new();
        MPI_Comm c = E->comm(s.set, wr);
        int rc = op == 0 ? kvtree_exchange(send, recv, c) : kvtree_exchange_direction(send, recv, c, op == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
        string what = where(s.set, g, me) + ": " + (op == 0 ? "exchange" : op == 1 ? "exchange leftward" : "exchange rightward");
        SCHECK(rc == KVTREE_SUCCESS, "%s returned %d", what.c_str(), rc);
        // same_tree() takes an absent key for no key only one level down, so count the entries
        SCHECK(kvtree_size(recv) == (int)s.x.recv[me]->kids.size(), "%s: %d entries arrived, %zu processes sent", what.c_str(), kvtree_size(recv), s.x.recv[me]->kids.size());
        expect_soft(recv, s.x.recv[me].get(), what + ", received");
        if (send) expect_soft(send, s.x.send[me].get(), what + ", send tree");
        kvtree_delete(&recv);
      }
      kvtree_delete(&send);
    }
  });
  set_max("processes", W);
  nontrivial(sig);
  sample(istr(W) + " processes, " + istr(steps) + " exchanges");
}

// ------------------------------------------------------------ file sets
struct SetInfo { vector<string> files; int levels = 0, leaves = 0; };
// decodes the whole set independently and compares it with what the processes wrote
static SetInfo check_gather(const string& prefix, const vector<NodeP>& trees, bool structure, bool share, unsigned long seg, const string& what) {
  SetInfo info;
  int n = (int)trees.size();
  vector<int> seen(n, 0);
  std::function<void(const string&, int, int)> walk = [&](const string& file, int want_level, int writer) {
    string err; bool ok;
    NodeP f = dec_file(slurp(file, &ok), err);
    info.files.push_back(file);
    VCHECK(ok && err.empty(), "%s: file %s: %s", what.c_str(), file.c_str(), ok ? err.c_str() : "missing");
    auto val = [&](const Node* x, const char* k) -> string { auto it = x->kids.find(k); if (it == x->kids.end() || !it->second || it->second->kids.size() != 1) return "?"; return it->second->kids.begin()->first; };
    string lv = val(f.get(), "LEVEL"), rs = val(f.get(), "RANKS");
    int level = atoi(lv.c_str());
    if (structure) {
      VCHECK(lv == istr(level) && (want_level < 0 ? level >= 1 : level == want_level), "%s: %s has LEVEL %s", what.c_str(), file.c_str(), lv.c_str());
      VCHECK(rs == istr(n), "%s: %s has RANKS %s", what.c_str(), file.c_str(), rs.c_str());
    }
    if (want_level < 0) info.levels = level;
    auto rk = f->kids.find("RANK");
    VCHECK(rk != f->kids.end() && rk->second && !rk->second->kids.empty(), "%s: %s has no RANK entries", what.c_str(), file.c_str());
    int lowest = INT_MAX;
    for (auto& e : rk->second->kids) { int k = atoi(e.first.c_str()); VCHECK(istr(k) == e.first && k >= 0 && k < n, "%s: %s has an entry for rank %s", what.c_str(), file.c_str(), e.first.c_str()); lowest = std::min(lowest, k); }
    size_t beyond = 0;
    for (auto& e : rk->second->kids) { int k = atoi(e.first.c_str()); if (k != lowest) { size_t z = e.second ? packed_size(e.second.get()) : 4; beyond += z; } }
    if (share) {
      VCHECK(writer <= lowest, "%s: %s is written by rank %d but holds rank %d", what.c_str(), file.c_str(), writer, lowest);
      VCHECK(beyond < seg, "%s: %s holds %zu bytes beyond the tree of the rank that starts it; the segment size is %lu", what.c_str(), file.c_str(), beyond, seg);
      set_max("percent_of_segment_beyond_first", beyond * 100 / seg);
    }
    if (level == 0) {
      info.leaves++;
      for (auto& e : rk->second->kids) {
        int k = atoi(e.first.c_str()); seen[k]++;
        string why;
        NodeP none = mk();
        if (structure) VCHECK(same_tree(e.second ? e.second.get() : none.get(), trees[k].get(), &why), "%s: %s holds another tree for rank %d: %s", what.c_str(), file.c_str(), k, why.c_str());
      }
    } else for (auto& e : rk->second->kids) {
      string fn = val(e.second.get(), "FILE");
      if (structure) VCHECK(val(e.second.get(), "OFFSET") == "0", "%s: %s refers to offset %s", what.c_str(), file.c_str(), val(e.second.get(), "OFFSET").c_str());
      VCHECK(info.files.size() < 20000, "%s: maps refer to each other in circles", what.c_str());
      walk(prefix + fn, level - 1, atoi(e.first.c_str()));
    }
  };
  walk(prefix, -1, 0);
  for (int i = 0; i < n; i++) VCHECK(seen[i] == 1, "%s: rank %d is in %d leaf files", what.c_str(), i, seen[i]);
  return info;
}
static unsigned long gen_seg(Rng& r) { return r.pct(15) ? 1048576 : r.pct(45) ? 90 + r.below(130) : r.pct(60) ? 150 + r.below(400) : 200 + r.below(6000); }
static void set_seg(unsigned long s) { E->everywhere([&] { if (s == 1048576) unsetenv("KVTREE_VERIF_SEGSIZE"); else setenv("KVTREE_VERIF_SEGSIZE", istr(s).c_str(), 1); }); }
static NodeP gen_data(Rng& r, unsigned long seg) {
  switch (r.below(8)) {
    case 0: return mk();
    case 1: return filler(r.below(2 * seg + 10));
    case 2: return filler(seg < 100000 ? seg + r.below(5) : r.below(5000));
    case 3: return gen_msg(r, false);
    default: {
      NodeP n = gen_tree(r, Shape{1 + (size_t)r.below(15), 4, 15, false, false});
      if (r.pct(30)) { NodeP& f = n->kids["FILE"]; f = mk(); f->kids["ckpt/r.ckpt"] = mk(); }
      return n;
    }
  }
}
static const char* set_names[] = {"rank2file", "a", "p.0", "x y", "%s%d", "p*", "[0-9]", "q.1.0", ".hid", "\xc3\xbc", "a+b", "(z)", "0", "dir/in", "n.kvtree", "?"};
static string gen_prefix(Rng& r, const string& dir, int i, bool allow_long) {
  string p = dir + "/" + istr(i) + set_names[r.below(16)];
  if (p.find("dir/in") != string::npos) p = dir + "/dir/in" + istr(i);
  if (allow_long && r.one_in(6)) {
    string d = dir;
    size_t want = 900 + r.below(r.pct(50) ? 200 : 2400);
    string mk1;
    while (d.size() + 120 < want) { d += "/" + string(100, 'a' + i); }
    p = d + "/" + string(want > d.size() + 2 ? std::min<size_t>(200, want - d.size() - 1) : 1, 'p');
  }
  return p;
}
static void make_dirs(const string& path) {      // the directories leading to path
  for (size_t i = 1; i < path.size(); i++) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
}
static void wipe(const string& dir) {            // only ever below the scratch directory
  if (dir.compare(0, opts.scratch.size(), opts.scratch) != 0 || dir.size() <= opts.scratch.size() + 1) die("will not remove %s", dir.c_str());
  nftw(dir.c_str(), [](const char* p, const struct stat*, int, struct FTW*) { return remove(p) == 0 || errno == ENOENT ? 0 : 0; }, 32, FTW_DEPTH | FTW_PHYS);
}
struct FileCase {
  string dir; vector<string> prefix; int W; vector<Groups> sets; unsigned long seg; vector<vector<NodeP>> data;   // per group, per member
  string rel; bool relative = false;
};
static FileCase gen_file_case(Rng& r, int most, bool allow_long, bool single_group) {
  FileCase f;
  f.W = E->world(r, most);
  if (single_group) { vector<int> p; for (int i = 0; i < f.W; i++) p.push_back(i); if (r.pct(40)) shuffle(r, p); f.sets = {{p}}; }
  else f.sets = {gen_groups(r, f.W)};
  E->open(r, f.W, f.sets);
  f.dir = path_in_scratch("m");
  f.seg = gen_seg(r);
  for (size_t i = 0; i < f.sets[0].size(); i++) {
    f.prefix.push_back(gen_prefix(r, f.dir, i, allow_long));
    f.data.emplace_back();
    bool few = r.one_in(5);
    for (size_t k = 0; k < f.sets[0][i].size(); k++) f.data[i].push_back(few && r.pct(70) ? mk() : gen_data(r, f.seg));
  }
  if (f.seg == 1048576 && r.pct(60)) for (auto& d : f.data) for (auto& x : d) if (r.pct(60)) x = filler(r.below(1600000));
  host([&] { wipe(f.dir); mkdir(f.dir.c_str(), 0755); for (auto& p : f.prefix) make_dirs(p); });
  set_seg(f.seg);
  return f;
}
static void end_file_case(const FileCase& f) { host([&] { wipe(f.dir); }); set_seg(1048576); }

static void c23(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, r.one_in(6) ? 40 : 14, true, false);
  auto& G = f.sets[0];
  // an earlier set under the same prefix, perhaps with other data or by all processes
  bool earlier = r.pct(40), noise = r.pct(20), nobarrier = r.pct(50), relative = r.pct(15);
  vector<NodeP> old; for (int i = 0; i < f.W; i++) old.push_back(earlier ? gen_data(r, f.seg) : mk());
  if (earlier && r.pct(30)) {   // the same data but for a byte here and there
    for (size_t i = 0; i < G.size(); i++) for (size_t k = 0; k < G[i].size(); k++) old[G[i][k]] = r.pct(50) ? alike(r, f.data[i][k].get()) : clone(f.data[i][k].get());
    count("earlier_sets_much_the_same");
  }
  vector<vector<NodeP>> mine(G.size());
  for (size_t i = 0; i < G.size(); i++) for (size_t k = 0; k < G[i].size(); k++) {
    NodeP m = r.pct(50) ? gen_msg(r, false) : mk();
    if (r.pct(30)) m->kids["RANK"] = mk();
    mine[i].push_back(std::move(m));
  }
  unsigned long seg0 = gen_seg(r); if (seg0 == 1048576) seg0 = 300;
  uint64_t sig = r.next();
  vector<string> prefix = f.prefix;
  if (relative) { for (auto& p : prefix) p = p.substr(f.dir.size() + 1); E->everywhere([&] { if (chdir(f.dir.c_str()) != 0) die("chdir"); }); }
  case_desc("C23 %d processes, %zu groups, segment %lu", f.W, G.size(), f.seg);
  auto group_of = [&](int wr, int* me) { for (size_t i = 0; i < G.size(); i++) { int k = index_in(G[i], wr); if (k >= 0) { *me = k; return (int)i; } } return -1; };
  if (earlier) {
    set_seg(seg0);
    run([&](int wr) {
      int me, g = group_of(wr, &me); if (g < 0) return;
      Rng rr(mix(sig, wr + 1000));
      kvtree* t = build(rr, old[wr].get());
      int rc = kvtree_write_gather(prefix[g].c_str(), t, E->comm(0, wr));
      SCHECK(rc == KVTREE_SUCCESS, "first write_gather returned %d on rank %d", rc, me);
      kvtree_delete(&t);
    });
    set_seg(f.seg);
    count("earlier_sets");
  }
  if (r.pct(25)) {
    // a set for another number of ranks, written by one process
    RankSet o = gen_ranks(r, 1 + r.below(f.W + 10), 4);
    uint64_t cs = r.next(); long e0 = 1 + r.below(3);
    host([&] { Rng cr(cs); set_epf(e0); for (auto& p : f.prefix) { kvtree* d = build(cr, o.ranks.get()); if (kvtree_write_to_gather(p.c_str(), d, o.n) != KVTREE_SUCCESS) note_fail("write_to_gather failed"); kvtree_delete(&d); } set_epf(0); });
    count("earlier_sets_of_another_size");
  }
  auto write = [&](int wr, int g, int me, Rng& rr) {
    kvtree* t = build(rr, f.data[g][me].get());
    Faults fl;
    if (noise) { fl.transient = true; fl.rng = Rng(rr.next()); fl.p_soft = 5 + rr.below(40); fl.hard_left = 2; }
    wrap::begin();
    if (noise) wrap::ep().plan = std::ref(fl);
    int rc = kvtree_write_gather(prefix[g].c_str(), t, E->comm(0, wr));
    wrap::end();
    if (noise) count("transient_faults", fl.hits);
    SCHECK(rc == KVTREE_SUCCESS, "rank %d of %zu: write_gather%s returned %d", me, G[g].size(), noise ? " with transient faults" : "", rc);
    expect_soft(t, f.data[g][me].get(), "tree given to write_gather");
    kvtree_delete(&t);
  };
  auto read = [&](int wr, int g, int me, Rng& rr) {
    for (int q = 0; q < (int)(sig % 3 == 0 ? 2 : 1); q++) {
      kvtree* u = build(rr, mine[g][me].get());
      Faults fl;
      if (noise) { fl.transient = true; fl.rng = Rng(rr.next()); fl.p_soft = 5 + rr.below(40); fl.hard_left = 2; }
      wrap::begin();
      if (noise) wrap::ep().plan = std::ref(fl);
      int rc = kvtree_read_scatter(prefix[g].c_str(), u, E->comm(0, wr));
      wrap::end();
      if (noise) count("transient_faults", fl.hits);
      string what = "rank " + istr(me) + " of " + istr(G[g].size()) + ": read_scatter";
      SCHECK(rc == KVTREE_SUCCESS, "%s returned %d", what.c_str(), rc);
      NodeP w = clone(mine[g][me].get()); merge_into(w.get(), f.data[g][me].get());
      expect_soft(u, w.get(), what);
      kvtree_delete(&u);
    }
  };
  if (nobarrier) {
    run([&](int wr) { int me, g = group_of(wr, &me); if (g < 0) return; Rng rr(mix(sig, wr)); write(wr, g, me, rr); read(wr, g, me, rr); });
  } else run([&](int wr) { int me, g = group_of(wr, &me); if (g < 0) return; Rng rr(mix(sig, wr)); write(wr, g, me, rr); });
  host([&] {
    for (size_t i = 0; i < G.size(); i++) {
      SetInfo s = check_gather(f.prefix[i], f.data[i], true, false, f.seg, "set written by " + istr(G[i].size()) + " processes");
      count("leaf_files", s.leaves); count("sets"); if (s.leaves > 1) count("sets_with_several_leaves"); if (s.levels > 1) count("sets_with_several_map_levels");
      set_max("map_levels", s.levels); set_max("leaf_files", s.leaves); set_max("prefix_length", f.prefix[i].size());
    }
  });
  if (!nobarrier) run([&](int wr) { int me, g = group_of(wr, &me); if (g < 0) return; Rng rr(mix(sig, wr + 77)); read(wr, g, me, rr); });
  if (relative) E->everywhere([&] { if (chdir("/") != 0) die("chdir"); });
  end_file_case(f);
  set_max("processes", f.W);
  nontrivial(sig);
  sample(istr(f.W) + " processes, segment " + istr(f.seg) + ", prefix of " + istr(prefix[0].size()) + " characters");
}

// ------------------------------------------------------------ C24
static void alike(const vector<int>& rc, const vector<int>& g, bool must_fail, const string& what) {
  int ok = 0;
  for (int wr : g) if (rc[wr] == KVTREE_SUCCESS) ok++;
  if (must_fail) { if (ok) note_fail("%s: %d of %zu processes got success", what.c_str(), ok, g.size()); }
  else if (ok && ok != (int)g.size()) note_fail("%s: %d of %zu processes got success, the others failure", what.c_str(), ok, g.size());
}
static void c24(Rng& r, uint64_t idx) {
  bool writing = r.pct(35);
  FileCase f = gen_file_case(r, r.one_in(8) ? 30 : 10, false, true);
  auto g = f.sets[0][0];
  int n = (int)g.size();
  string prefix = f.prefix[0];
  uint64_t sig = r.next();
  auto gather = [&](const vector<NodeP>& data, const string& pre, vector<int>& rc, int culprit, const Faults* fl, vector<uint64_t>* hits) {
    rc.assign(f.W, INT_MIN);
    vector<int> h(f.W, INT_MIN);
    run([&](int wr) {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr));
      kvtree* t = build(rr, data[me].get());
      Faults mine; if (fl) mine = *fl;
      wrap::begin();
      if (culprit == me) wrap::ep().plan = std::ref(mine);
      rc[wr] = kvtree_write_gather(pre.c_str(), t, E->comm(0, wr));
      wrap::end();
      h[wr] = (int)mine.phits;
      expect_soft(t, data[me].get(), "tree given to write_gather");
      kvtree_delete(&t);
    });
    E->collect(rc); E->collect(h);
    if (hits) { hits->assign(f.W, 0); for (int i = 0; i < f.W; i++) if (h[i] > 0) (*hits)[i] = h[i]; }
  };
  vector<int> rc;
  if (writing) {
    // which files would there be?
    gather(f.data[0], prefix, rc, -1, nullptr, nullptr);
    SetInfo info;
    if (E->any([&] { bool bad = false; for (int wr : g) bad |= rc[wr] != KVTREE_SUCCESS; return bad; }())) { note_fail("write_gather without faults failed"); throw CaseFail(); }
    host([&] { info = check_gather(prefix, f.data[0], false, false, f.seg, "set"); });
    for (int q = 0; q < 3; q++) {
      int how = r.below(4);
      uint64_t pick = r.next();
      if (how == 0) {
        // no directory, or one without that name
        string bad = r.pct(50) ? f.dir + "/nosuch/" + "p" : "/proc/self/nosuch/p";
        gather(f.data[0], bad, rc, -1, nullptr, nullptr);
        alike(rc, g, true, "write_gather into a missing directory");
        count("failed_gathers");
      } else if (how == 1) {
        // a directory sits where one of the files should go
        host([&] { string x = info.files[pick % info.files.size()]; unlink(x.c_str()); mkdir(x.c_str(), 0755); spew(f.dir + "/note", x); });
        gather(f.data[0], prefix, rc, -1, nullptr, nullptr);
        alike(rc, g, true, "write_gather with a directory in place of a file");
        host([&] { string x = slurp(f.dir + "/note"); rmdir(x.c_str()); });
        gather(f.data[0], prefix, rc, -1, nullptr, nullptr);
        alike(rc, g, false, "write_gather");
        count("failed_gathers");
      } else {
        Faults fl; fl.persistent = true; fl.from = r.below(2);
        static const wrap::Op ops[] = {wrap::OPEN, wrap::WRITE, wrap::CLOSE, wrap::FSYNC};
        static const int errs[] = {EIO, ENOSPC, EDQUOT, EACCES};
        fl.op = ops[r.below(4)]; fl.err = errs[fl.op == wrap::FSYNC ? r.below(2) : r.below(4)];
        if (fl.op == wrap::CLOSE) fl.once = true;
        fl.partial = r.pct(50); fl.rng = Rng(r.next());
        int culprit = r.pct(50) ? 0 : (int)r.below(n);
        vector<uint64_t> hits;
        gather(f.data[0], prefix, rc, culprit, &fl, &hits);
        bool hit = hits[g[culprit]] > 0;
        alike(rc, g, hit, "write_gather with " + string(wrap::op_names[fl.op]) + " failing on rank " + istr(culprit));
        count(hit ? "failed_gathers" : "faults_not_reached");
      }
      evaluated();
    }
    // afterwards everything works again
    gather(f.data[0], prefix, rc, -1, nullptr, nullptr);
    for (int wr : g) if (rc[wr] != KVTREE_SUCCESS) { note_fail("write_gather failed after an earlier failure was removed"); break; }
    if (E->any(case_failed)) throw CaseFail();
  }
  // reading: an intact set, perhaps by one process, then damage
  bool crafted = r.pct(25);
  RankSet cs; cs.n = n;
  string other = f.dir + "/other";
  int n2 = n;
  while (n2 == n) n2 = 1 + r.below(n + 4);
  RankSet cs2 = gen_ranks(r, n2, 4);
  vector<string> files;
  uint64_t cseed = r.next(), cseed2 = r.next();
  if (crafted) {
    cs.ranks = mk(); for (int i = 0; i < n; i++) cs.ranks->kids[istr(i)] = clone(f.data[0][i].get());
    host([&] { Rng cr(cseed); wipe(f.dir); mkdir(f.dir.c_str(), 0755); make_dirs(prefix); craft_set(cr, prefix, cs); });
  } else if (!writing) {
    gather(f.data[0], prefix, rc, -1, nullptr, nullptr);
    for (int wr : g) if (rc[wr] != KVTREE_SUCCESS) { note_fail("write_gather failed"); break; }
    if (E->any(case_failed)) throw CaseFail();
  }
  host([&] { Rng cr(cseed2); craft_set(cr, other, cs2); });
  vector<NodeP> mine; for (int i = 0; i < n; i++) mine.push_back(r.pct(60) ? gen_msg(r, false) : mk());
  auto scatter = [&](const string& pre, int culprit, const Faults* fl, vector<uint64_t>* hits, bool must_fail, const string& what) {
    rc.assign(f.W, INT_MIN);
    vector<int> h(f.W, INT_MIN);
    run([&](int wr) {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr + 500));
      kvtree* u = build(rr, mine[me].get());
      Faults my; if (fl) my = *fl;
      wrap::begin();
      if (culprit == me) wrap::ep().plan = std::ref(my);
      rc[wr] = kvtree_read_scatter(pre.c_str(), u, E->comm(0, wr));
      wrap::end();
      h[wr] = (int)my.phits;
      if (rc[wr] != KVTREE_SUCCESS) expect_soft(u, mine[me].get(), "tree after a failed read_scatter (" + what + ")");
      else { NodeP w = clone(mine[me].get()); merge_into(w.get(), f.data[0][me].get()); expect_soft(u, w.get(), "tree after a read_scatter that succeeds (" + what + ")"); }
      kvtree_delete(&u);
    });
    E->collect(rc); E->collect(h);
    bool hit = false; for (int i = 0; i < f.W; i++) hit |= h[i] > 0;
    if (hits && hit) must_fail = true;
    alike(rc, g, must_fail, "read_scatter, " + what);
    evaluated();
    if (must_fail) count("failed_scatters");
    if (E->any(case_failed)) throw CaseFail();
  };
  scatter(prefix, -1, nullptr, nullptr, false, "intact set");
  for (int wr : g) if (rc[wr] != KVTREE_SUCCESS) { note_fail("read_scatter of an intact set failed"); break; }
  if (E->any(case_failed)) throw CaseFail();
  scatter(other, -1, nullptr, nullptr, true, "a set of " + istr(n2) + " read by " + istr(n) + " processes");
  scatter(f.dir + "/nosuch", -1, nullptr, nullptr, true, "no set at all");
  int rounds = 3 + r.below(4);
  for (int q = 0; q < rounds; q++) {
    int kind = r.below(9);
    uint64_t pick = r.next(), pick2 = r.next();
    vector<int> info(f.W, INT_MIN);     // [0]: 0 harmless, 1 damaged
    if (kind == 8) {
      // a failing system call on one process
      Faults fl; fl.persistent = true; fl.from = r.below(2); fl.op = r.pct(50) ? wrap::OPEN : wrap::READ; fl.err = r.pct(50) ? EIO : EACCES;
      fl.partial = r.pct(50); fl.rng = Rng(r.next());
      vector<uint64_t> hits;
      int culprit = r.pct(40) ? 0 : (int)r.below(n);
      scatter(prefix, culprit, &fl, &hits, false, string(wrap::op_names[fl.op]) + " failing on rank " + istr(culprit));
      continue;
    }
    string what;
    static const char* kinds[] = {"missing", "empty", "truncated", "with a flipped bit", "replaced by garbage", "replaced by one of a set of another size", "replaced by a directory", "replaced by another map of the set"};
    what = string("a file ") + kinds[kind];
    host([&] {
      vector<string> fs = set_files(prefix);
      string x = fs[pick % fs.size()], keep = slurp(x);
      spew(f.dir + "/note", x); spew(f.dir + "/keep", keep);
      bool bad = true;
      Rng q2(pick2);
      string now;
      switch (kind) {
        case 0: unlink(x.c_str()); break;
        case 1: spew(x, ""); break;
        case 2: now = keep; now.resize(q2.below(now.size())); spew(x, now); break;
        case 3: now = keep; now[q2.below(now.size())] ^= (char)(1 << q2.below(8)); spew(x, now); break;
        case 4: now.resize(20 + q2.below(100)); for (char& c : now) c = (char)q2.next(); spew(x, now); break;
        case 5: {
          // the file of the same name in the other set
          string y = other + x.substr(prefix.size());
          vector<string> os = set_files(other);
          if (!std::count(os.begin(), os.end(), y)) { bad = false; break; }
          now = slurp(y); spew(x, now); break;
        }
        case 6: unlink(x.c_str()); mkdir(x.c_str(), 0755); break;
        default: {
          // a higher map over a lower file
          if (x == prefix) { bad = false; break; }
          now = slurp(prefix); spew(x, now); break;
        }
      }
      if (!now.empty()) {
        // damage that still reads as the same tree is harmless
        kvtree* probe = kvtree_new();
        if (kind <= 3 && kvtree_read_file(x.c_str(), probe) == KVTREE_SUCCESS) bad = false;
        kvtree_delete(&probe);
      }
      info[0] = bad;
    });
    E->collect(info);
    bool bad = info[0] == 1;
    if (bad) { scatter(prefix, -1, nullptr, nullptr, true, what); count(string("damage_") + (kind == 5 ? "other_size" : kind == 7 ? "wrong_level" : kind == 0 ? "missing" : kind == 6 ? "directory" : "content")); }
    host([&] { string x = slurp(f.dir + "/note"); rmdir(x.c_str()); spew(x, slurp(f.dir + "/keep")); });
    // the undamaged set is readable again
    if (!bad || q == rounds - 1) {
      scatter(prefix, -1, nullptr, nullptr, false, "set restored");
      for (int wr : g) if (rc[wr] != KVTREE_SUCCESS) { note_fail("read_scatter of a restored set failed"); break; }
      if (E->any(case_failed)) throw CaseFail();
    }
  }
  end_file_case(f);
  set_max("processes", f.W);
  nontrivial(sig);
  sample(istr(n) + " processes, segment " + istr(f.seg) + (writing ? ", failing writes" : ""));
}

// ------------------------------------------------------------ C25, parallel side
static void c25p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, r.one_in(6) ? 30 : 12, r.one_in(4), true);
  auto g = f.sets[0][0];
  int n = (int)g.size();
  string prefix = f.prefix[0];
  uint64_t sig = r.next();
  RankSet s; s.n = n; s.ranks = mk();
  for (int i = 0; i < n; i++) s.ranks->kids[istr(i)] = clone(f.data[0][i].get());
  int src = r.below(3);
  long epf = r.pct(30) ? 0 : 1 + (long)r.below(n + 2);
  uint64_t cseed = r.next();
  string how;
  if (r.pct(35)) {
    // an earlier set, of another size
    RankSet old = gen_ranks(r, 1 + r.below(2 * n + 3), 4);
    long e0 = 1 + r.below(3);
    host([&] { Rng cr(cseed + 1); set_epf(e0); kvtree* d = build(cr, old.ranks.get()); VCHECK(kvtree_write_to_gather(prefix.c_str(), d, old.n) == KVTREE_SUCCESS, "write_to_gather failed"); kvtree_delete(&d); set_epf(0); });
    count("earlier_sets");
  }
  if (src == 0) {
    how = "parallel gather";
    run([&](int wr) {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr));
      kvtree* t = build(rr, f.data[0][me].get());
      int rc = kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr));
      SCHECK(rc == KVTREE_SUCCESS, "write_gather returned %d", rc);
      kvtree_delete(&t);
    });
  } else if (src == 1) {
    how = "write_to_gather with " + istr(epf) + " entries per file";
    host([&] {
      Rng cr(cseed);
      set_epf(epf);
      kvtree* d = build(cr, s.ranks.get());
      int rc = kvtree_write_to_gather(prefix.c_str(), d, n);
      set_epf(0);
      VCHECK(rc == KVTREE_SUCCESS, "write_to_gather of %d ranks failed", n);
      expect_tree(d, s.ranks.get(), "tree given to write_to_gather");
      kvtree_delete(&d);
    });
  } else {
    how = "independently written set";
    host([&] { Rng cr(cseed); craft_set(cr, prefix, s); });
  }
  count("sets_by_" + string(src == 0 ? "gather" : src == 1 ? "write_to_gather" : "independent_writer"));
  NodeP mine = r.pct(50) ? gen_msg(r, false) : mk();
  host([&] {
    Rng cr(cseed + 2);
    kvtree* u = build(cr, mine.get());
    int rc = kvtree_read_scatter_single(prefix.c_str(), u);
    VCHECK(rc == KVTREE_SUCCESS, "read_scatter_single of a set of %d ranks (%s) failed", n, how.c_str());
    NodeP w = clone(mine.get()); merge_into(w.get(), s.ranks.get());
    expect_tree(u, w.get(), ("read_scatter_single after " + how).c_str());
    kvtree_delete(&u);
  });
  run([&](int wr) {
    int me = index_in(g, wr); if (me < 0) return;
    Rng rr(mix(sig, wr + 9));
    kvtree* u = build(rr, mine.get());
    int rc = kvtree_read_scatter(prefix.c_str(), u, E->comm(0, wr));
    SCHECK(rc == KVTREE_SUCCESS, "read_scatter on rank %d of %d after %s returned %d", me, n, how.c_str(), rc);
    NodeP w = clone(mine.get()); merge_into(w.get(), f.data[0][me].get());
    expect_soft(u, w.get(), "read_scatter after " + how);
    kvtree_delete(&u);
  });
  end_file_case(f);
  set_max("processes", n);
  nontrivial(sig);
  sample(istr(n) + " ranks, " + how);
}

// ------------------------------------------------------------ C31, parallel side
static void c31p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, r.one_in(6) ? 30 : 9, false, true);
  auto g = f.sets[0][0];
  int n = (int)g.size();
  string prefix = f.prefix[0];
  uint64_t sig = r.next(), cseed = r.next();
  OddSet o = odd_set(r, n, r.one_in(4) ? 2000 / n + 1 : 0);
  host([&] { Rng cr(cseed); write_odd(cr, prefix, o); });
  case_desc("%s (%d ranks)", o.how.substr(0, 400).c_str(), n);
  NodeP mine = r.pct(60) ? gen_msg(r, false) : mk();
  vector<int> rcs(f.W, INT_MIN);
  run([&](int wr) {
    int me = index_in(g, wr); if (me < 0) return;
    Rng rr(mix(sig, wr + 9));
    kvtree* u = build(rr, mine.get());
    int rc = kvtree_read_scatter(prefix.c_str(), u, E->comm(0, wr));
    rcs[wr] = rc;
    string what = "rank " + istr(me) + " of " + istr(n) + ", " + o.how.substr(0, 300);
    NodeP got = read_back(u, what.c_str());
    kvtree_delete(&u);
    if (rc != KVTREE_SUCCESS) {
      SCHECK(!o.sound, "%s: read_scatter of a sound set fails", what.c_str());
      SCHECK(same_tree(got.get(), mine.get()), "%s: a failed read_scatter changed the tree", what.c_str());
      count("odd_sets_refused");
    } else {
      NodeP most = clone(mine.get());
      for (auto& x : o.files) if (x.second && maybe_leaf(x.second.get())) {
        auto k = x.second->kids.find("RANK");
        if (k == x.second->kids.end() || !k->second) continue;
        for (auto& e : k->second->kids) if (e.second && for_rank(e.first, me)) merge_into(most.get(), e.second.get());
      }
      SCHECK(within(got.get(), most.get()), "%s: read_scatter delivers what the set does not hold for this process", what.c_str());
      SCHECK(within(mine.get(), got.get()), "%s: read_scatter lost what the tree held", what.c_str());
      if (o.sound) { SCHECK(same_tree(got.get(), most.get()), "%s: read_scatter of a sound set misses something", what.c_str()); count("sound_sets_read"); }
      else count("odd_sets_read");
    }
  });
  E->collect(rcs);
  alike(rcs, g, false, "read_scatter of " + o.how.substr(0, 300));
  end_file_case(f);
  set_max("processes", n);
  nontrivial(sig);
  sample(istr(n) + " ranks, " + o.how.substr(0, 100));
}

// ------------------------------------------------------------ C33, parallel side
static void c33p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, 10, false, true);
  auto g = f.sets[0][0];
  int n = (int)g.size();
  string prefix = f.prefix[0];
  uint64_t sig = r.next();
  int steps = 1 + r.below(8);
  run([&](int wr) {
    int me = index_in(g, wr); if (me < 0) return;
    Rng rr(mix(sig, wr)), plan(sig);        // plan is the same on every process
    MPI_Comm c = E->comm(0, wr);
    kvtree* t = build(rr, gen_msg(rr, false).get());
    vector<Held> held; hold(t, held);
    kvtree* out = kvtree_new();             // messages by destination
    vector<Held> hout;
    bool gathered = false;
    for (int q = 0; q < steps; q++) {
      string what; int rc = KVTREE_SUCCESS;
      kvtree* u = kvtree_new();
      int k = 1 + plan.below(n), root = plan.below(n), op = plan.below(7);
      switch (op) {
        case 0: what = "sendrecv"; rc = kvtree_sendrecv(t, (me + k) % n, u, (me + n - k % n) % n, c); break;
        case 1: what = "send and recv"; if (n < 2 || root == (root + k) % n) break; if (me == root) rc = kvtree_send(t, (root + k) % n, c); else if (me == (root + k) % n) rc = kvtree_recv(u, root, c); break;
        case 2: what = "bcast"; rc = kvtree_bcast(me == root ? t : u, root, c); break;
        case 3: { what = "exchange_sendq"; NodeP x = gen_msg(rr, false); kvtree* y = build(rr, x.get()); rc = kvtree_exchange_sendq(out, rr.below(n), y); kvtree_delete(&y); break; }
        case 4: what = "exchange"; if (plan.pct(50)) rc = kvtree_exchange(out, u, c); else rc = kvtree_exchange_direction(out, u, c, plan.pct(50) ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT); break;
        case 5: what = "write_gather"; rc = kvtree_write_gather(prefix.c_str(), t, c); gathered = true; break;
        default: if (!gathered) { what = "write_gather"; rc = kvtree_write_gather(prefix.c_str(), t, c); gathered = true; } else { what = "read_scatter"; rc = kvtree_read_scatter(prefix.c_str(), t, c); } break;
      }
      string w = "rank " + istr(me) + " of " + istr(n) + ", after " + what;
      SCHECK(rc == KVTREE_SUCCESS, "%s: returned %d", w.c_str(), rc);
      string bad = still_held(t, held); SCHECK(bad.empty(), "%s: %s", w.c_str(), bad.c_str());
      bad = still_held(out, hout); SCHECK(bad.empty(), "%s: messages to send: %s", w.c_str(), bad.c_str());
      count("handles_checked", held.size() + hout.size());
      hout.clear(); hold(out, hout);
      if (rr.pct(40)) { held.clear(); hold(t, held); }
      kvtree_delete(&u);
    }
    kvtree_delete(&t); kvtree_delete(&out);
  });
  end_file_case(f);
  set_max("processes", n);
  nontrivial(sig);
  sample(istr(n) + " processes, " + istr(steps) + " steps");
}

// ------------------------------------------------------------ C26
static void c26(Rng& r, uint64_t idx) {
  int W = E->world(r, r.one_in(5) ? 48 : 20);
  vector<int> p; for (int i = 0; i < W; i++) p.push_back(i);
  if (r.pct(30)) shuffle(r, p);
  vector<Groups> sets = {{p}};
  E->open(r, W, sets);
  unsigned long seg = r.one_in(12) && W <= 12 ? 1048576 : r.pct(40) ? 90 + r.below(130) : r.pct(60) ? 150 + r.below(300) : 500 + r.below(5000);
  vector<NodeP> data;
  int kind = r.below(7);
  size_t off = 0;
  string what;
  size_t same = seg / (1 + r.below(6)) + r.below(3);
  for (int i = 0; i < W; i++) {
    size_t want;
    size_t to_edge = seg - off % seg;
    switch (kind) {
      case 0: want = same; break;                                              // equal shares
      case 1: want = to_edge + r.below(3) - 1; break;                          // ends right at a boundary, or one off
      case 2: want = r.pct(50) ? 0 : r.pct(50) ? to_edge : r.below(seg); break;
      case 3: want = r.pct(20) ? seg * (1 + r.below(3)) + r.below(3) : r.below(30); break;     // giants among dwarfs
      case 4: want = r.pct(80) ? r.below(40) : to_edge + r.below(2); break;
      case 5: want = (i % 2) ? seg - 1 : r.below(20); break;
      default: want = r.below(seg + seg / 2); break;
    }
    NodeP n = filler(want);
    off += packed_size(n.get());
    if (r.one_in(10)) { off -= packed_size(n.get()); n = gen_msg(r, false); off += packed_size(n.get()); }
    data.push_back(std::move(n));
  }
  string dir = path_in_scratch("m"), prefix = dir + "/map";
  host([&] { wipe(dir); mkdir(dir.c_str(), 0755); });
  set_seg(seg);
  uint64_t sig = r.next();
  case_desc("C26 %d processes, segment %lu, kind %d", W, seg, kind);
  run([&](int wr) {
    int me = index_in(p, wr);
    Rng rr(mix(sig, wr));
    kvtree* t = build(rr, data[me].get());
    int rc = kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr));
    SCHECK(rc == KVTREE_SUCCESS, "write_gather returned %d", rc);
    kvtree_delete(&t);
  });
  host([&] {
    SetInfo s = check_gather(prefix, data, false, true, seg, "set of " + istr(W) + " processes with segment size " + istr(seg));
    count("leaf_files", s.leaves); count("sets"); if (s.leaves > 1) count("sets_with_several_leaves"); if (s.levels > 1) count("sets_with_several_map_levels");
    set_max("leaf_files", s.leaves); set_max("map_levels", s.levels);
    if (seg == 1048576) count("sets_with_the_real_segment_size");
    wipe(dir);
  });
  set_seg(1048576);
  set_max("processes", W);
  nontrivial(sig);
  sample(istr(W) + " processes, segment " + istr(seg) + ", size pattern " + istr(kind));
}

// ------------------------------------------------------------ C13, C17 of a parallel gather
static void c13p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, 12, false, true);
  auto g = f.sets[0][0];
  int n = (int)g.size();
  string prefix = f.prefix[0];
  uint64_t sig = r.next();
  for (int q = 0; q < 4; q++) {
    Faults fl; int culprit = -1;
    int how = q == 0 ? 0 : r.below(4);
    if (how == 1) { fl.transient = true; fl.rng = Rng(r.next()); fl.p_soft = 10 + r.below(50); fl.hard_left = 2; culprit = -2; }
    else if (how >= 2) { fl.persistent = true; fl.op = how == 2 ? wrap::FSYNC : r.pct(50) ? wrap::WRITE : wrap::CLOSE; static const int e[] = {EIO, ENOSPC}; fl.err = e[r.below(2)]; fl.from = r.below(2); fl.once = fl.op == wrap::CLOSE; fl.partial = r.pct(50); culprit = r.pct(50) ? 0 : (int)r.below(n); }
    vector<int> rc(f.W, INT_MIN), h(f.W, INT_MIN), dirty(f.W, INT_MIN);
    E->everywhere([&] { wrap::clear_dirty(); });
    run([&](int wr) {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr));
      kvtree* t = build(rr, f.data[0][me].get());
      Faults my = fl; my.rng = Rng(rr.next());
      wrap::begin();
      if (culprit == -2 || culprit == me) wrap::ep().plan = std::ref(my);
      rc[wr] = kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr));
      wrap::end();
      h[wr] = (int)my.phits; 
      if (rc[wr] == KVTREE_SUCCESS) SCHECK(wrap::dirty_files() == 0, "write_gather reports success but these files were modified after their last flush: %s", wrap::dirty_text().c_str());
      SCHECK(wrap::open_fds() == 0, "write_gather left open: %s", wrap::open_fds_text().c_str());
      for (auto& c : wrap::ep().complaints) note_fail("write_gather: %s", c.c_str());
      kvtree_delete(&t);
    });
    E->collect(rc); E->collect(h);
    bool hit = false; for (int x : h) hit |= x > 0;
    if (how == 0 || how == 1) { for (int wr : g) if (rc[wr] != KVTREE_SUCCESS) { note_fail("write_gather failed without a lasting fault"); break; } }
    if (hit && rc[g[culprit]] == KVTREE_SUCCESS) note_fail("rank %d: write_gather reports success although its %s failed with %s", culprit, wrap::op_names[fl.op], strerror(fl.err));
    bool all_ok = true; for (int wr : g) all_ok &= rc[wr] == KVTREE_SUCCESS;
    if (all_ok) { host([&] { check_gather(prefix, f.data[0], true, false, f.seg, "set after a successful write_gather"); }); count("successful_gathers_verified"); }
    if (hit) count("gathers_refused_after_faults");
    evaluated();
    if (E->any(case_failed)) throw CaseFail();
  }
  end_file_case(f);
  nontrivial(sig);
  sample(istr(n) + " processes");
}
static void c17p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, 10, false, true);
  auto g = f.sets[0][0];
  string prefix = f.prefix[0];
  static const int masks[] = {0, 022, 077, 027, 0777, 0177, 0111, 0222, 0444, 0666, 002, 0133};
  mode_t mask = r.pct(70) ? masks[r.below(12)] : r.below(01000);
  uint64_t sig = r.next();
  mode_t orig = 022;
  vector<int> after(f.W, INT_MIN);
  E->everywhere([&] { orig = umask(mask); });
  E->run([&](int wr) { soft([&] {
    int me = index_in(g, wr); if (me < 0) return;
    Rng rr(mix(sig, wr));
    kvtree* t = build(rr, f.data[0][me].get());
    int rc = kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr));
    SCHECK(rc == KVTREE_SUCCESS, "write_gather with umask %o returned %d", mask, rc);
    mode_t now = umask(mask); after[wr] = now;
    SCHECK(now == mask, "write_gather changed the file-creation mask from %o to %o", mask, now);
    kvtree_delete(&t);
  }); });
  E->everywhere([&] { umask(orig); });
  if (E->any(case_failed)) throw CaseFail();
  host([&] {
    for (auto& x : check_gather(prefix, f.data[0], false, false, f.seg, "set").files) {
      struct stat st; VCHECK(stat(x.c_str(), &st) == 0, "%s is missing", x.c_str());
      VCHECK((st.st_mode & 07777) == (0666 & ~mask), "write_gather with umask %o creates a file with mode %o", mask, st.st_mode & 07777);
      count("files_checked");
    }
  });
  end_file_case(f);
  nontrivial(mix(mask, sig));
  sample("mask " + istr(mask) + ", " + istr(g.size()) + " processes");
}

// ------------------------------------------------------------ C30: no side effects
static void c30p(Rng& r, uint64_t idx) {
  FileCase f = gen_file_case(r, 10, false, true);
  auto g = f.sets[0][0];
  string prefix = f.prefix[0], cwd = path_in_scratch("mw");
  int n = (int)g.size();
  uint64_t sig = r.next();
  auto part = [&](const string& x) {       // <prefix>.<level>.<writer>
    string p = prefix.substr(f.dir.size());
    if (x.compare(0, p.size(), p)) return false;
    string t = x.substr(p.size());
    if (t.empty()) return true;
    int l, w, k = 0;
    return sscanf(t.c_str(), ".%d.%d%n", &l, &w, &k) == 2 && k == (int)t.size() && l >= 0 && l < 10 && w >= 0 && w < n && t == "." + istr(l) + "." + istr(w);
  };
  bool relative = r.pct(40), scatter = r.pct(50), other = r.pct(30);
  int victim = r.pct(50) ? -1 : (int)r.below(n);
  string what = string(scatter ? "read_scatter" : "write_gather") + " of " + istr(n) + (relative ? ", relative path" : "");
  if (victim >= 0) what += " with faults on one process";
  case_desc("C30 %s", what.c_str());
  Snap a, b;
  char was[4096]; if (!getcwd(was, sizeof was)) die("getcwd");
  host([&] { remove_tree(cwd); mkdir(cwd.c_str(), 0755); });
  E->everywhere([&] { if (chdir(cwd.c_str())) die("chdir"); });
  string spelled = relative ? "../m" + prefix.substr(f.dir.size()) : prefix;
  if (scatter || other) {
    E->run([&](int wr) { soft([&] {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr));
      kvtree* t = build(rr, f.data[0][me].get());
      SCHECK(kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr)) == KVTREE_SUCCESS, "write_gather fails");
      kvtree_delete(&t);
    }); });
    if (other && !scatter) for (auto& d : f.data[0]) if (r.pct(50)) d = gen_data(r, f.seg);
  }
  host([&] {
    for (auto x : {".tmp", "~", ".lock", ".bak", ".0.x", ".0", ".1", ".0.99", ".1.77", ".crc", "2", ".0.0.tmp", ".0.0~"}) if ((mix(sig, hash64(string(x))) & 3) == 0) spew(prefix + x, "precious", 0640);
    spew(cwd + "/rank2file", "precious"); spew(f.dir + "/tmp", "precious"); spew(f.dir + "/rank2file.x", "precious");
    snap(f.dir, "", a);
  });
  static const wrap::Op ops[] = {wrap::OPEN, wrap::READ, wrap::WRITE, wrap::CLOSE, wrap::FSYNC};
  wrap::Op op = ops[r.below(5)]; uint64_t from = r.below(3); bool transient = r.pct(50), quietly = victim < 0;
  vector<int> rcs(f.W, INT_MIN);
  ProcState p0 = ProcState::now();
  quiet_fd(); p0 = ProcState::now();
  string said = printed([&] {
    E->run([&](int wr) { soft([&] {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr + 1000));
      Faults fl; fl.rng = Rng(rr.next());
      kvtree* t = scatter ? kvtree_new() : build(rr, f.data[0][me].get());
      if (me == victim) {
        if (transient) { fl.transient = true; fl.hard_left = 2; fl.p_soft = 30; } else { fl.persistent = true; fl.op = op; fl.from = from; }
        wrap::begin(false); wrap::ep().plan = std::ref(fl);
      }
      rcs[wr] = scatter ? kvtree_read_scatter(spelled.c_str(), t, E->comm(0, wr)) : kvtree_write_gather(spelled.c_str(), t, E->comm(0, wr));
      if (me == victim) wrap::end();
      if (rcs[wr] == KVTREE_SUCCESS) expect_tree(t, f.data[0][me].get(), what.c_str());
      if (quietly) SCHECK(rcs[wr] == KVTREE_SUCCESS, "%s fails", what.c_str());
      kvtree_delete(&t);
    }); });
  });
  wrap::forget_fds();
  soft([&] {
    ProcState p1 = ProcState::now();
    if (!E->sim) p0.fds = p1.fds;          // the MPI library opens its own as it goes
    p0.compare(p1, what);
    if (quietly && !case_failed) VCHECK(said.empty(), "%s succeeds, but prints: %s", what.c_str(), show(said, 200).c_str());
  });
  E->everywhere([&] { if (chdir(was)) die("chdir"); });
  host([&] { snap(f.dir, "", b); only_these(a, b, [&](const string& x) { return !scatter && part(x); }, [&](const string& x) { return !scatter && part(x); }, what); Snap w; snap(cwd, "", w); VCHECK(w.size() == 1 && w["/rank2file"].content == "precious", "%s: something appeared or changed in the working directory", what.c_str()); });
  wrap::clear_dirty();
  end_file_case(f);
  nontrivial(mix(sig, hash64(what)));
  sample(what);
}

// ------------------------------------------------------------ C27: absent trees and names among processes
static void c27p(Rng& r, uint64_t idx) {
  int W = E->world(r, 8);
  vector<Groups> sets = {gen_groups(r, W)};
  E->open(r, W, sets);
  auto& G = sets[0];
  string dir = path_in_scratch("m");
  host([&] { wipe(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/cwd").c_str(), 0755); });
  E->everywhere([&] { if (chdir((dir + "/cwd").c_str()) != 0) die("chdir"); });
  struct Step { int grp, op, root; vector<char> none; vector<NodeP> t, pre; string prefix; };
  vector<Step> plan;
  uint64_t sig = r.next();
  int steps = 2 + r.below(6);
  static const char* names[] = {"sendrecv", "bcast", "exchange", "exchange_leftward", "exchange_rightward", "write_gather_no_prefix", "write_gather_no_tree", "read_scatter_no_prefix", "read_scatter_no_tree", "sendq", "recv"};
  for (int q = 0; q < steps; q++) {
    Step s; s.grp = r.below(G.size()); s.op = r.below(11);
    int n = (int)G[s.grp].size();
    s.root = r.below(n);
    s.prefix = dir + "/p" + istr(q);
    for (int i = 0; i < n; i++) { s.none.push_back(r.pct(40)); s.t.push_back(gen_msg(r, false)); s.pre.push_back(r.pct(70) ? gen_msg(r, false) : mk()); }
    s.none[r.below(n)] = 1;
    count(string("steps_") + names[s.op]);
    plan.push_back(std::move(s));
  }
  case_desc("C27 %d processes, %d steps", W, steps);
  NodeP empty = mk();
  run([&](int wr) {
    Rng rr(mix(sig, wr));
    for (auto& s : plan) {
      auto& g = G[s.grp];
      int me = index_in(g, wr), n = (int)g.size();
      if (me < 0) continue;
      MPI_Comm c = E->comm(0, wr);
      string w = where(0, g, me) + ": " + names[s.op];
      bool no = s.none[me];
      kvtree* u = build(rr, s.pre[me].get());
      if (s.op == 0) {
        // round a ring, some sending no tree, others receiving into none
        kvtree* o = no ? nullptr : build(rr, s.t[me].get());
        bool nowhere = (mix(sig, s.root * 31 + me) & 3) == 0;
        int src = (me + n - 1) % n;
        kvtree_sendrecv(o, (me + 1) % n, nowhere ? nullptr : u, src, c);
        if (!nowhere) expect_soft(u, s.none[src] ? empty.get() : s.t[src].get(), w + ", tree received");
        else expect_soft(u, s.pre[me].get(), w + ", tree not involved");
        if (o) { expect_soft(o, s.t[me].get(), w + ", tree sent"); kvtree_delete(&o); }
      } else if (s.op == 1) {
        kvtree* o = me == s.root && !no ? build(rr, s.t[me].get()) : nullptr;
        bool nowhere = me != s.root && no;
        kvtree_bcast(me == s.root ? o : nowhere ? nullptr : u, s.root, c);
        if (me != s.root) expect_soft(u, nowhere ? s.pre[me].get() : s.none[s.root] ? empty.get() : s.t[s.root].get(), w);
        if (o) { expect_soft(o, s.t[me].get(), w + ", root's tree"); kvtree_delete(&o); }
      } else if (s.op <= 4) {
        // everybody with a tree sends it to its two neighbours; the others send nothing, or receive into no tree
        kvtree* send = nullptr; NodeP want_send = mk();
        if (!no) {
          send = kvtree_new();
          for (int d : {(me + 1) % n, (me + n - 1) % n}) {
            kvtree_exchange_sendq(send, d, nullptr);       // a message without a tree is an empty one
            kvtree* t = build(rr, s.t[me].get()); kvtree_exchange_sendq(send, d, t); kvtree_delete(&t);
            want_send->kids[istr(d)] = clone(s.t[me].get());
          }
          int self = me; kvtree_exchange_sendq(send, self, nullptr);
          if (!want_send->kids.count(istr(self))) want_send->kids[istr(self)] = mk();
          expect_soft(send, want_send.get(), w + ", send tree");
        }
        bool nowhere = (mix(sig, s.root * 31 + me) & 3) == 0;
        kvtree* recv = nowhere ? nullptr : kvtree_new();
        if (s.op == 2) kvtree_exchange(send, recv, c); else kvtree_exchange_direction(send, recv, c, s.op == 3 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
        if (recv) {
          NodeP want = mk();
          for (int f = 0; f < n; f++) if (!s.none[f]) {
            if (f == me) want->kids[istr(f)] = mk();
            if ((f + 1) % n == me || (f + n - 1) % n == me) want->kids[istr(f)] = clone(s.t[f].get());
          }
          SCHECK(kvtree_size(recv) == (int)want->kids.size(), "%s: %d entries arrived, %zu processes sent", w.c_str(), kvtree_size(recv), want->kids.size());
          expect_soft(recv, want.get(), w + ", received");
        }
        if (send) expect_soft(send, want_send.get(), w + ", send tree afterwards");
        kvtree_delete(&recv); kvtree_delete(&send);
      } else if (s.op == 5) {
        kvtree* t = build(rr, s.t[me].get());
        int rc = kvtree_write_gather(no ? nullptr : s.prefix.c_str(), t, c);
        SCHECK(rc != KVTREE_SUCCESS, "%s: returned success though some process gave no prefix", w.c_str());
        expect_soft(t, s.t[me].get(), w); kvtree_delete(&t);
      } else if (s.op == 6) {
        kvtree* t = no ? nullptr : build(rr, s.t[me].get());
        int rc = kvtree_write_gather(s.prefix.c_str(), t, c);
        SCHECK(rc == KVTREE_SUCCESS, "%s: returned %d", w.c_str(), rc);
        rc = kvtree_read_scatter(s.prefix.c_str(), u, c);
        SCHECK(rc == KVTREE_SUCCESS, "%s: read_scatter returned %d", w.c_str(), rc);
        NodeP want = clone(s.pre[me].get()); if (!no) merge_into(want.get(), s.t[me].get());
        expect_soft(u, want.get(), w + ", read back");
        kvtree_delete(&t);
      } else if (s.op <= 8) {
        kvtree* t = build(rr, s.t[me].get());
        int rc = kvtree_write_gather(s.prefix.c_str(), t, c);
        SCHECK(rc == KVTREE_SUCCESS, "%s: write_gather returned %d", w.c_str(), rc);
        kvtree_delete(&t);
        rc = s.op == 7 ? kvtree_read_scatter(no ? nullptr : s.prefix.c_str(), u, c) : kvtree_read_scatter(s.prefix.c_str(), no ? nullptr : u, c);
        SCHECK(rc != KVTREE_SUCCESS, "%s: returned success though some process gave no %s", w.c_str(), s.op == 7 ? "prefix" : "tree");
        expect_soft(u, s.pre[me].get(), w + ", tree of a failed read");
      } else if (s.op == 9) {
        kvtree* t = build(rr, s.t[me].get());
        int rc = kvtree_exchange_sendq(nullptr, s.root, t);
        SCHECK(rc != KVTREE_SUCCESS, "%s: reports success though there is no tree to queue in", w.c_str());
        expect_soft(t, s.t[me].get(), w); kvtree_delete(&t);
      } else {
        int rc = kvtree_recv(nullptr, (me + 1) % n, c);
        SCHECK(rc != KVTREE_SUCCESS, "%s: reports success though there is no tree to receive into", w.c_str());
      }
      kvtree_delete(&u);
    }
  });
  host([&] {
    int left = 0; string what;
    nftw((dir + "/cwd").c_str(), [](const char* p, const struct stat*, int t, struct FTW*) { return t == FTW_F ? 1 : 0; }, 8, FTW_PHYS) == 1 ? left++ : 0;
    VCHECK(!left, "operations without a prefix left files in the working directory");
  });
  E->everywhere([&] { if (chdir("/") != 0) die("chdir"); });
  host([&] { wipe(dir); });
  evaluated();
  nontrivial(sig);
  sample(istr(W) + " processes, " + istr(steps) + " steps");
}

// ------------------------------------------------------------ C28: running out of memory in parallel operations (simulated MPI only)
static void oom_exit(int code) { _exit((code & 255) ? 50 : 51); }
static void c28p(Rng& r, uint64_t idx) {
  static long* asked = nullptr;
  if (!asked) { asked = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (asked == MAP_FAILED) die("mmap"); }
  FileCase f = gen_file_case(r, 6, false, true);
  auto g = f.sets[0][0];
  int n = (int)g.size(), op = (int)(idx % 6), root = (int)r.below(n), dir = (int)r.below(3), shift = (int)r.below(n), shift2 = (int)r.below(n);
  static const char* names[] = {"send and recv", "sendrecv", "bcast", "exchange", "write_gather", "read_scatter"};
  string prefix = f.prefix[0];
  vector<NodeP> msg, had;
  for (int i = 0; i < n; i++) { msg.push_back(op >= 4 ? clone(f.data[0][i].get()) : gen_msg(r, false)); had.push_back(r.pct(60) ? gen_msg(r, false) : mk()); }
  uint64_t sig = r.next();
  case_desc("C28 %s, %d processes", names[op], n);
  if (op == 5) {
    ChildEnd e = in_child([&] { run([&](int wr) { int me = index_in(g, wr); if (me < 0) return; Rng rr(mix(sig, wr)); kvtree* t = build(rr, msg[me].get()); SCHECK(kvtree_write_gather(prefix.c_str(), t, E->comm(0, wr)) == KVTREE_SUCCESS, "write_gather fails"); kvtree_delete(&t); }); }, 100);
    if (e.kind != ChildEnd::OK) fail("writing a set: %s", e.msg.c_str());
  }
  auto body = [&](int culprit, long at, bool once) {
    run([&](int wr) {
      int me = index_in(g, wr); if (me < 0) return;
      Rng rr(mix(sig, wr));
      MPI_Comm c = E->comm(0, wr);
      kvtree* t = build(rr, msg[me].get());
      kvtree* u = build(rr, had[me].get());
      kvtree* q = nullptr;
      int rc = KVTREE_SUCCESS, rc2 = KVTREE_SUCCESS;
      NodeP want;           // what u holds after success
      auto arm = [&] { if (me == culprit) wrap::arm_allocs(at, once); };
      int to = (me + shift) % n, from = (me + n - shift) % n, to2 = (me + shift2) % n;
      switch (op) {
        case 0:
          arm();
          if (n > 1 && me == root) rc = kvtree_send(t, (root + 1) % n, c);
          if (n > 1 && me == (root + 1) % n) { rc = kvtree_recv(u, root, c); want = clone(msg[root].get()); }
          break;
        case 1: arm(); rc = kvtree_sendrecv(t, to, u, from, c); want = clone(msg[from].get()); break;
        case 2: arm(); rc = kvtree_bcast(t, root, c); break;
        case 3:
          q = kvtree_new();
          arm();
          rc = kvtree_exchange_sendq(q, to, t);
          if (to2 != to) rc2 = kvtree_exchange_sendq(q, to2, t);
          if (rc == KVTREE_SUCCESS && rc2 != KVTREE_SUCCESS) rc = rc2;
          kvtree_delete(&u); u = kvtree_new();
          { int e = dir == 0 ? kvtree_exchange(q, u, c) : kvtree_exchange_direction(q, u, c, dir == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT); if (rc == KVTREE_SUCCESS) rc = e; }
          want = mk();
          for (int s = 0; s < n; s++) if ((s + shift) % n == me || (s + shift2) % n == me) want->kids[istr(s)] = clone(msg[s].get());
          break;
        case 4: arm(); rc = kvtree_write_gather(prefix.c_str(), t, c); break;
        case 5: arm(); rc = kvtree_read_scatter(prefix.c_str(), u, c); want = clone(had[me].get()); merge_into(want.get(), msg[me].get()); break;
      }
      if (me == culprit) asked[0] = wrap::disarm_allocs();
      asked[1 + me] = rc == KVTREE_SUCCESS;
      string who = "rank " + istr(me) + " of " + istr(n) + (me == culprit ? ", which ran out of memory," : "");
      if (at < 0) SCHECK(rc == KVTREE_SUCCESS, "%s fails although memory was never short", who.c_str());
      if (op == 2) { if (rc == KVTREE_SUCCESS) expect_soft(t, msg[root].get(), who + " has another tree after a successful bcast"); }
      else {
        if (at < 0 || op != 4) expect_soft(t, msg[me].get(), who + ": the tree sent");
        if (rc == KVTREE_SUCCESS && want) expect_soft(u, want.get(), who + " has another tree after a reported success");
        if (rc != KVTREE_SUCCESS && op == 5) expect_soft(u, had[me].get(), who + " has another tree after a failed read_scatter");
      }
      kvtree_delete(&t); kvtree_delete(&u); kvtree_delete(&q);
    });
    if (op == 4) {
      bool all = true; for (int i = 0; i < n; i++) all &= asked[1 + i] != 0;
      if (all) check_gather(prefix, msg, true, false, f.seg, "set after a write_gather that reports success");
    }
  };
  int rounds = 1 + (n > 1);
  for (int q = 0; q < rounds; q++) {
    int culprit = q == 0 ? root : (int)r.below(n);
    uint64_t order = r.next();
    ChildEnd e = in_child([&] { body(culprit, -1, false); }, 100);
    if (e.kind == ChildEnd::FAILED) fail("%s: %s", names[op], e.msg.c_str());
    if (e.kind != ChildEnd::OK) fail("%s with enough memory: the process ends with %s %d", names[op], e.kind == ChildEnd::SIGNALLED ? "signal" : "status", e.code);
    long total = asked[0];
    set_max("allocations_in_one_call", total);
    vector<long> points; for (long i = 0; i < total; i++) points.push_back(i);
    Rng pr(order);
    while (points.size() > 8) points.erase(points.begin() + 1 + pr.below(points.size() - 1));
    for (long at : points) {
      bool once = r.pct(50);
      string what = string(names[op]) + ", rank " + istr(culprit) + ", allocation " + istr(at + 1) + " of " + istr(total) + (once ? "" : " and later ones") + " refused";
      e = in_child([&] { wrap::on_exit_call = oom_exit; body(culprit, at, once); }, 100);
      evaluated();
      count("refused_allocations"); count(string("refused: ") + names[op]);
      if (e.kind == ChildEnd::FAILED) fail("%s: %s", what.c_str(), e.msg.c_str());
      if (e.kind == ChildEnd::SIGNALLED) fail("%s: %s", what.c_str(), e.code == SIGALRM ? "does not return" : ("the process is ended by signal " + istr(e.code)).c_str());
      if (e.kind == ChildEnd::EXITED && e.code != 50) fail("%s: the process ends with status %d", what.c_str(), e.code == 51 ? 0 : e.code);
      count(e.kind == ChildEnd::OK ? "reported_to_the_caller" : "ended_by_the_library");
      nontrivial(mix(sig, mix(culprit * 2 + once, at)));
    }
  }
  end_file_case(f);
  sample(string(names[op]) + " on " + istr(n) + " processes");
}

// ------------------------------------------------------------ C20..C23: trees around and beyond what an int can count (simulated MPI only)
// A tree of any packed size in little memory: many keys over one shared subtree, whose one key is a MB long.
struct SharedTree {
  kvtree *top, *sub;
  size_t size;
  static const size_t L = (1 << 20) - 5;
  explicit SharedTree(size_t want) {
    string key(L, 's');
    sub = kvtree_new(); kvtree_set(sub, key.c_str(), nullptr);
    const size_t subsize = 4 + L + 1 + 4;
    top = kvtree_new(); size = 4;
    for (int i = 0; want > size + 12 + subsize + 4096; i++) { string k = "k" + istr(i); kvtree_set(top, k.c_str(), sub); size += k.size() + 1 + subsize; }
    for (int i = 0; size < want; i++) {                              // fill up with plain keys
      size_t left = want - size;
      size_t len = left > 600000 ? 500000 : left - 5;
      if (left < 5) die("SharedTree of %zu", want);
      string k = string(len ? len : 0, 'p'); if (len > 12) { string t = "p" + istr(i) + "."; k.replace(0, t.size(), t); }
      kvtree_set(top, k.c_str(), nullptr); size += len + 5;
    }
    if (size != want || kvtree_pack_size(top) != want) fail("a tree laid out to pack into %zu bytes is announced as %zu", want, kvtree_pack_size(top));
  }
  // does another tree, which shares nothing, equal this one?
  bool equals(const kvtree* t) const {
    if (kvtree_pack_size(t) != size || kvtree_size(t) != kvtree_size(top)) return false;
    for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
      kvtree_elem* f = kvtree_elem_get(top, kvtree_elem_key(e));
      if (!f) return false;
      kvtree *a = kvtree_elem_hash(e), *b = kvtree_elem_hash(f);
      if (kvtree_size(a) != kvtree_size(b)) return false;
      if (kvtree_size(b) && strcmp(kvtree_elem_key(kvtree_elem_first(a)), kvtree_elem_key(kvtree_elem_first(b)))) return false;
    }
    return true;
  }
  ~SharedTree() {
    for (kvtree_elem* e = kvtree_elem_first(top); e; ) { kvtree_elem* n = kvtree_elem_next(e); if (kvtree_elem_hash(e) == sub) kvtree_extract(top, string(kvtree_elem_key(e)).c_str()); e = n; }
    kvtree_delete(&top); kvtree_delete(&sub);
  }
};
static size_t free_memory() {
  FILE* f = fopen("/proc/meminfo", "r"); char b[200]; size_t kb = 0;
  while (f && fgets(b, sizeof b, f)) if (sscanf(b, "MemAvailable: %zu", &kb) == 1) break;
  if (f) fclose(f);
  return kb * 1024;
}
static void big(Rng& r, uint64_t idx, int what) {
  const size_t imax = 2147483647u;
  const bool may_copy = what == 2 || what == 3;           // exchanges and gathers copy the tree
  const bool fits = what == 3 || (opts.tier == "thorough" && r.pct(40));   // then it has to arrive
  if (free_memory() < ((size_t)(fits ? 22 : may_copy ? 12 : 4) << 30)) { count("skipped_for_lack_of_memory"); return; }
  size_t want;
  if (what == 3) want = imax + 1 + r.below(100000000);    // a process's own tree is not sent anywhere
  else if (fits) want = imax - (what == 2 ? 1000 : 0) - (r.pct(50) ? 0 : r.below(300));      // an exchange adds a few keys of its own
  else switch (may_copy ? r.below(3) : r.below(7)) {
    case 0: want = imax + 1 - (may_copy ? r.below(40) : 0); break;
    case 1: want = imax + 2 + r.below(5000); break;
    case 2: want = imax + 1 + r.below(200000000); break;
    case 3: want = 2 * imax + 1; break;                   // looks like -1
    case 4: want = 2 * imax + 2; break;                   // like 0
    case 5: want = 2 * imax + 2 + 4 + r.below(300); break;      // like a small tree
    default: want = 2 * imax + 2 + 5000 + r.below(60000000); break;
  }
  int W = 2 + r.below(3);
  vector<Groups> sets = {{{}}};
  for (int i = 0; i < W; i++) sets[0][0].push_back(i);
  E->open(r, W, sets);
  int a = r.below(W), b = (a + 1 + r.below(W - 1)) % W, kind = r.below(2);
  uint64_t sig = r.next();
  string dir = path_in_scratch("big"); wipe(dir); mkdir(dir.c_str(), 0755);
  string prefix = dir + "/set";
  static const char* names[] = {"send", "bcast", "exchange", "write_gather and read_scatter"};
  string name = string(what == 0 && kind ? "sendrecv" : names[what]) + " of a tree of " + std::to_string(want) + " bytes" + (fits ? "" : " (more than one message holds)");
  case_desc("C%d %s, %d processes", 20 + what, name.c_str(), W);
  wrap::fail_alloc_above(0);
  // in a child process, since the library may refuse by ending it
  ChildEnd e = in_child([&] {
    wrap::on_exit_call = oom_exit;
    SharedTree t(want);
    run([&](int me) {
      MPI_Comm c = E->comm(0, me);
      Rng rr(mix(sig, me));
      NodeP small = gen_msg(rr, false), had = gen_msg(rr, false);
      kvtree* s = build(rr, small.get());
      kvtree* u = build(rr, had.get());
      int rc = KVTREE_SUCCESS;
      bool sender = me == a;
      if (what == 0) {
        if (kind) rc = kvtree_sendrecv(sender ? t.top : s, sender ? b : MPI_PROC_NULL, u, me == b ? a : MPI_PROC_NULL, c);
        else if (sender) rc = kvtree_send(t.top, b, c);
        else if (me == b) rc = kvtree_recv(u, a, c);
        if (rc == KVTREE_SUCCESS && me == b) SCHECK(t.equals(u), "%s reports success, and what arrived is another tree, of %zu bytes", name.c_str(), kvtree_pack_size(u));
      } else if (what == 1) {
        rc = kvtree_bcast(sender ? t.top : u, a, c);
        if (rc == KVTREE_SUCCESS && !sender) SCHECK(t.equals(u), "%s reports success, and what arrived is another tree, of %zu bytes", name.c_str(), kvtree_pack_size(u));
      } else if (what == 2) {
        kvtree* q = kvtree_new();
        if (sender) kvtree_set(q, istr(b).c_str(), t.top);
        kvtree_unset_all(u);
        rc = kvtree_exchange(q, u, c);
        if (rc == KVTREE_SUCCESS && me == b) SCHECK(kvtree_get(u, istr(a).c_str()) && t.equals(kvtree_get(u, istr(a).c_str())), "%s reports success, and what arrived is another tree", name.c_str());
        if (sender) kvtree_extract(q, istr(b).c_str());
        kvtree_delete(&q);
      } else {
        rc = kvtree_write_gather(prefix.c_str(), sender ? t.top : s, c);
        if (rc == KVTREE_SUCCESS) {
          kvtree_unset_all(u);
          int rc2 = kvtree_read_scatter(prefix.c_str(), u, c);
          SCHECK(rc2 == KVTREE_SUCCESS, "%s: read_scatter fails", name.c_str());
          if (sender) SCHECK(t.equals(u), "%s: what is read back is another tree, of %zu bytes", name.c_str(), kvtree_pack_size(u)); else expect_soft(u, small.get(), name + ", rank " + istr(me));
        }
      }
      if (fits) SCHECK(rc == KVTREE_SUCCESS, "%s fails", name.c_str());
      kvtree_delete(&s); kvtree_delete(&u);
    });
    _exit(case_failed ? 60 : 0);       // without taking the tree apart
  }, 600);
  wipe(dir);
  evaluated();
  if (e.kind == ChildEnd::FAILED) fail("%s", e.msg.c_str());
  if (e.kind == ChildEnd::SIGNALLED) fail("%s: %s", name.c_str(), e.code == SIGALRM ? "does not return" : ("the process is ended by signal " + istr(e.code)).c_str());
  if (e.kind == ChildEnd::EXITED && e.code != 50) fail("%s: the process ends with status %d", name.c_str(), e.code == 51 ? 0 : e.code);
  if (e.kind == ChildEnd::EXITED && fits) fail("%s: the library ends the process", name.c_str());
  count(e.kind == ChildEnd::OK ? "larger_than_int_delivered" : "larger_than_int_refused");
  set_max("largest_tree", want);
  nontrivial(mix(sig, mix(want, what)));
  sample(name);
}
static void c20big(Rng& r, uint64_t i) { big(r, i, 0); }
static void c21big(Rng& r, uint64_t i) { big(r, i, 1); }
static void c22big(Rng& r, uint64_t i) { big(r, i, 2); }
static void c23big(Rng& r, uint64_t i) { big(r, i, 3); }

// ------------------------------------------------------------ C29: operations side by side, among the application's own messages
static void c29(Rng& r, uint64_t idx) {
  int W = E->world(r, r.one_in(6) ? 20 : 9);
  vector<Groups> sets = {gen_groups(r, W), gen_groups(r, W, false), gen_groups(r, W, false)};
  if (r.pct(30)) sets[1] = sets[0];       // the same processes, another communicator
  E->open(r, W, sets);
  string dir = path_in_scratch("m");
  unsigned long seg = gen_seg(r);
  host([&] { wipe(dir); mkdir(dir.c_str(), 0755); });
  set_seg(seg);
  enum Kind { P2P, SENDRECV, BCAST, EXCHANGE, GATHER, SCATTER, APP_POST, APP_COLL, APP_SEND };
  struct Act { int kind, set, grp, a = 0, b = 0, tag = 0, until = -1, opt = 0; uint64_t seed = 0; vector<NodeP> t, pre; vector<int> dst, src; Xchg x; string bytes, prefix; };
  vector<Act> plan;
  std::map<string, vector<const Node*>> stored;         // what lies under each prefix, by plan order
  std::map<string, std::pair<int, int>> home;
  int steps = 4 + r.below(14);
  uint64_t sig = r.next();
  size_t inflight = 0;
  for (int q = 0; q < steps; q++) {
    Act s;
    s.set = r.below(3); s.grp = r.below(sets[s.set].size()); s.seed = r.next();
    static const int mix_of[] = {P2P, SENDRECV, SENDRECV, BCAST, BCAST, EXCHANGE, EXCHANGE, GATHER, GATHER, SCATTER, SCATTER, APP_POST, APP_POST, APP_POST, APP_COLL, APP_SEND};
    s.kind = mix_of[r.below(16)];
    s.prefix = dir + "/" + istr(s.set) + "." + istr(s.grp) + (r.pct(50) ? "x" : "");
    if (s.kind == SCATTER && stored.empty()) s.kind = GATHER;
    if (s.kind == SCATTER) { auto it = stored.begin(); std::advance(it, r.below(stored.size())); s.prefix = it->first; s.set = home[it->first].first; s.grp = home[it->first].second; }
    if (s.kind == GATHER) home[s.prefix] = {s.set, s.grp};
    auto& g = sets[s.set][s.grp];
    int n = (int)g.size();
    if (n == 1 && (s.kind == P2P || s.kind == APP_POST || s.kind == APP_SEND)) s.kind = SENDRECV;
    s.a = r.below(n); s.b = n > 1 ? (s.a + 1 + r.below(n - 1)) % n : s.a;
    s.opt = r.below(3); if (s.kind == APP_POST && r.pct(35)) s.opt = 2;
    switch (s.kind) {
      case P2P: s.t.push_back(gen_msg(r, true)); s.pre.push_back(r.pct(60) ? gen_msg(r, false) : mk()); break;
      case BCAST: s.t.push_back(gen_msg(r, true)); s.pre.push_back(r.pct(60) ? gen_msg(r, false) : mk()); break;
      case SENDRECV: {
        vector<int> p; for (int i = 0; i < n; i++) p.push_back(i);
        if (r.pct(50)) shuffle(r, p); else { int k = r.below(n); for (int i = 0; i < n; i++) p[i] = (i + k) % n; }
        s.dst.assign(n, -1); s.src.assign(n, -1);
        for (int i = 0; i < n; i++) if (r.pct(85)) { s.dst[i] = p[i]; s.src[p[i]] = i; }
        for (int i = 0; i < n; i++) { s.t.push_back(gen_msg(r, n < 6)); s.pre.push_back(r.pct(60) ? gen_msg(r, false) : mk()); }
        break;
      }
      case EXCHANGE: s.x = gen_xchg(r, n, n < 7); break;
      case GATHER: for (int i = 0; i < n; i++) s.t.push_back(gen_data(r, seg > 100000 ? 3000 : seg)); break;
      case SCATTER: for (int i = 0; i < n; i++) s.pre.push_back(r.pct(60) ? gen_msg(r, false) : mk()); break;
      case APP_POST: case APP_SEND: {
        size_t z = r.pct(20) ? 4 : r.pct(20) ? 4 * (1 + r.below(4)) : r.pct(70) ? r.below(3000) : r.below(300000);
        s.bytes.resize(z); for (char& c : s.bytes) c = (char)r.next();
        s.tag = 1000 + q * 1000 + r.below(1000);
        s.until = q + 1 + r.below(8);
        if (s.kind == APP_POST) { inflight++; count("application_messages_pending"); if (s.opt == 2) count("application_messages_unexpected"); }
        break;
      }
      default: break;
    }
    static const char* names[] = {"sends", "sendrecvs", "broadcasts", "exchanges", "gathers", "scatters", "pending_application_messages", "application_collectives", "application_messages"};
    count(string("steps_") + names[s.kind]);
    plan.push_back(std::move(s));
    if (plan.back().kind == GATHER) { auto& v = stored[plan.back().prefix]; v.clear(); for (auto& x : plan.back().t) v.push_back(x.get()); }
    if (plan.back().kind == SCATTER) { auto& v = stored[plan.back().prefix]; for (size_t i = 0; i < v.size(); i++) plan.back().t.push_back(clone(v[i])); }
  }
  case_desc("C29 %d processes, %d steps", W, steps);
  run([&](int wr) {
    Rng rr(mix(sig, wr));
    struct Pending { MPI_Request q; int until; bool in; string buf; const string* want; string what; bool late = false; int from = 0, tag = 0; MPI_Comm c = MPI_COMM_NULL; };
    std::list<Pending> pend;
    auto finish = [&](int now) {
      for (auto& p : pend) if (p.late && p.until <= now) { p.late = false; MPI_Irecv(&p.buf[0], (int)p.buf.size(), MPI_BYTE, p.from, p.tag, p.c, &p.q); }
      for (auto it = pend.begin(); it != pend.end();) {
        if (it->until > now) { ++it; continue; }
        MPI_Status st;
        MPI_Wait(&it->q, &st);
        if (it->in) {
          int got = -1; MPI_Get_count(&st, MPI_BYTE, &got);
          SCHECK(got == (int)it->want->size(), "%s: the application's message arrives with %d bytes instead of %zu", it->what.c_str(), got, it->want->size());
          it->buf.resize(it->want->size());
          SCHECK(it->buf == *it->want, "%s: the application's message arrives changed", it->what.c_str());
        }
        it = pend.erase(it);
      }
    };
    for (size_t q = 0; q < plan.size(); q++) {
      Act& s = plan[q];
      finish((int)q);
      auto& g = sets[s.set][s.grp];
      int me = index_in(g, wr), n = (int)g.size();
      if (me < 0) continue;
      MPI_Comm c = E->comm(s.set, wr);
      string w = where(s.set, g, me);
      switch (s.kind) {
        case P2P: {
          if (me == s.a) { kvtree* t = build(rr, s.t[0].get()); int rc = kvtree_send(t, s.b, c); SCHECK(rc == KVTREE_SUCCESS, "%s: send returned %d", w.c_str(), rc); kvtree_delete(&t); }
          if (me == s.b) { kvtree* t = build(rr, s.pre[0].get()); int rc = kvtree_recv(t, s.a, c); SCHECK(rc == KVTREE_SUCCESS, "%s: recv returned %d", w.c_str(), rc); expect_soft(t, s.t[0].get(), w + ": tree received"); kvtree_delete(&t); }
          break;
        }
        case SENDRECV: {
          kvtree *o = build(rr, s.t[me].get()), *u = build(rr, s.pre[me].get());
          int rc = kvtree_sendrecv(o, s.dst[me] < 0 ? MPI_PROC_NULL : s.dst[me], u, s.src[me] < 0 ? MPI_PROC_NULL : s.src[me], c);
          SCHECK(rc == KVTREE_SUCCESS, "%s: sendrecv returned %d", w.c_str(), rc);
          expect_soft(o, s.t[me].get(), w + ": tree sent by sendrecv");
          expect_soft(u, s.src[me] < 0 ? s.pre[me].get() : s.t[s.src[me]].get(), w + ": tree received by sendrecv");
          kvtree_delete(&o); kvtree_delete(&u);
          break;
        }
        case BCAST: {
          kvtree* t = build(rr, me == s.a ? s.t[0].get() : s.pre[0].get());
          int rc = kvtree_bcast(t, s.a, c);
          SCHECK(rc == KVTREE_SUCCESS, "%s: bcast returned %d", w.c_str(), rc);
          expect_soft(t, s.t[0].get(), w + ": bcast from " + istr(s.a));
          kvtree_delete(&t);
          break;
        }
        case EXCHANGE: {
          kvtree *o = build(rr, s.x.send[me].get()), *u = kvtree_new();
          int rc = s.opt == 0 ? kvtree_exchange(o, u, c) : kvtree_exchange_direction(o, u, c, s.opt == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
          SCHECK(rc == KVTREE_SUCCESS, "%s: exchange returned %d", w.c_str(), rc);
          SCHECK(kvtree_size(u) == (int)s.x.recv[me]->kids.size(), "%s: exchange: %d entries arrived, %zu processes sent", w.c_str(), kvtree_size(u), s.x.recv[me]->kids.size());
          expect_soft(u, s.x.recv[me].get(), w + ": exchange, received");
          kvtree_delete(&o); kvtree_delete(&u);
          break;
        }
        case GATHER: {
          kvtree* t = build(rr, s.t[me].get());
          int rc = kvtree_write_gather(s.prefix.c_str(), t, c);
          SCHECK(rc == KVTREE_SUCCESS, "%s: write_gather returned %d", w.c_str(), rc);
          expect_soft(t, s.t[me].get(), w + ": tree given to write_gather");
          kvtree_delete(&t);
          break;
        }
        case SCATTER: {
          kvtree* u = build(rr, s.pre[me].get());
          int rc = kvtree_read_scatter(s.prefix.c_str(), u, c);
          SCHECK(rc == KVTREE_SUCCESS, "%s: read_scatter returned %d", w.c_str(), rc);
          NodeP want = clone(s.pre[me].get()); merge_into(want.get(), s.t[me].get());
          expect_soft(u, want.get(), w + ": read_scatter");
          kvtree_delete(&u);
          break;
        }
        case APP_POST: {
          if (me == s.a) {
            pend.push_back(Pending{MPI_REQUEST_NULL, s.until, false, s.bytes, nullptr, ""});
            MPI_Isend(&pend.back().buf[0], (int)s.bytes.size(), MPI_BYTE, s.b, s.tag, c, &pend.back().q);
          }
          if (me == s.b) {
            pend.push_back(Pending{MPI_REQUEST_NULL, s.until, true, string(s.bytes.size() + 64, '?'), &s.bytes, w + ", step " + istr(q)});
            Pending& p = pend.back();
            p.from = s.a; p.tag = s.tag; p.c = c; p.late = s.opt == 2;      // half-way: the message is there before anyone asks for it
            if (!p.late) MPI_Irecv(&p.buf[0], (int)p.buf.size(), MPI_BYTE, s.a, s.tag, c, &p.q);
          }
          break;
        }
        case APP_COLL: {
          if (s.opt == 0) MPI_Barrier(c);
          else { int v = me + 1, sum = 0; MPI_Allreduce(&v, &sum, 1, MPI_INT, MPI_SUM, c); SCHECK(sum == n * (n + 1) / 2, "%s: the application's reduction gives %d", w.c_str(), sum); }
          break;
        }
        case APP_SEND: {
          if (me == s.a) MPI_Send(s.bytes.data(), (int)s.bytes.size(), MPI_BYTE, s.b, s.tag, c);
          if (me == s.b) {
            string buf(s.bytes.size() + 64, '?'); MPI_Status st; int got = -1;
            MPI_Recv(&buf[0], (int)buf.size(), MPI_BYTE, s.a, s.tag, c, &st);
            MPI_Get_count(&st, MPI_BYTE, &got);
            SCHECK(got == (int)s.bytes.size(), "%s: the application's message arrives with %d bytes instead of %zu", w.c_str(), got, s.bytes.size());
            buf.resize(s.bytes.size());
            SCHECK(buf == s.bytes, "%s: the application's message arrives changed", w.c_str());
          }
          break;
        }
      }
    }
    finish(INT_MAX);
  });
  set_seg(1048576);
  host([&] { wipe(dir); });
  set_max("processes", W); set_max("application_messages_in_one_case", inflight);
  nontrivial(sig);
  sample(istr(W) + " processes, " + istr(steps) + " steps, " + istr(inflight) + " application messages pending");
}

// ------------------------------------------------------------ C02
static void c02p(Rng& r, uint64_t idx) {
  static const CaseFn fns[] = {c20, c21, c22, c23, c24, c25p, c26, c13p, c27p, c29};
  muted = true;
  wrap::forget_fds(); wrap::clear_dirty();
  uint64_t m = wrap::mark(), a0 = wrap::total_allocs();
  unsigned k = r.below(10);
  bool left = false;
  try { fns[k](r, idx + 1); } catch (CaseFail&) { left = true; }
  count("allocations_watched", wrap::total_allocs() - a0);
  if (left || case_failed) { count("cases_left_early"); wrap::forget_fds(); E->everywhere([] { unsetenv("KVTREE_VERIF_SEGSIZE"); set_epf(0); umask(022); }); return; }
  size_t live = wrap::live_since(m);
  if (live) mem_fail("%zu blocks allocated by the library remain after everything was released (%s) [mix %u]", live, wrap::live_text(m).c_str(), k);
  if (wrap::open_fds()) mem_fail("descriptors opened by the library remain: %s", wrap::open_fds_text().c_str());
}
#define W_(f) static void w_##f(Rng& r, uint64_t i) { try { wrapped(r, i, f); } catch (CaseFail&) { E->everywhere([] { unsetenv("KVTREE_VERIF_SEGSIZE"); unsetenv("KVTREE_ENTRIES_PER_FILE"); umask(022); if (chdir("/")) { } }); throw; } }
W_(c20) W_(c21) W_(c22) W_(c23) W_(c24) W_(c25p) W_(c26) W_(c13p) W_(c17p) W_(c27p) W_(c28p) W_(c29) W_(c30p) W_(c31p) W_(c33p) W_(c02p) W_(c20big) W_(c21big) W_(c22big) W_(c23big)
vector<Mode> modes() {
  return {{"c20", w_c20}, {"c21", w_c21}, {"c22", w_c22}, {"c23", w_c23}, {"c24", w_c24}, {"c25p", w_c25p}, {"c26", w_c26}, {"c13p", w_c13p}, {"c17p", w_c17p}, {"c27p", w_c27p}, {"c28p", w_c28p}, {"c29", w_c29}, {"c30p", w_c30p}, {"c31p", w_c31p}, {"c33p", w_c33p}, {"c02p", w_c02p}, {"c20big", w_c20big}, {"c21big", w_c21big}, {"c22big", w_c22big}, {"c23big", w_c23big}};
}
}
