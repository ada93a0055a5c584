// Rank-file sets and injected faults, shared by the sequential and the MPI workloads.
#pragma once
#include "vh.h"
#include "wrap.h"
#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
namespace {
using namespace vh;
using std::string;
using std::vector;
typedef wrap::Action Act;
inline string istr(long long v) { return std::to_string(v); }
struct RankSet { NodeP ranks; int n = 0; };
[[maybe_unused]] RankSet gen_ranks(Rng& r, int n, size_t each) {
  RankSet s; s.n = n; s.ranks = mk();
  for (int i = 0; i < n; i++) {
    NodeP& x = s.ranks->kids[istr(i)];
    if (r.one_in(10)) { x = r.pct(50) ? mk() : nullptr; continue; }
    x = gen_tree(r, Shape{1 + each, 4, 15, false, false});
    if (r.pct(30)) { NodeP& f = x->kids["FILE"]; f = mk(); f->kids["ckpt.1/rank_" + istr(i) + ".ckpt"] = mk(); }
  }
  return s;
}
[[maybe_unused]] void set_epf(long n) { if (n == 0) unsetenv("KVTREE_ENTRIES_PER_FILE"); else setenv("KVTREE_ENTRIES_PER_FILE", istr(n).c_str(), 1); }

// ------------------------------------------------------------ C12 / C13: faults
struct Faults {
  // transient
  bool transient = false; Rng rng{1}; int hard_left = 0, open_run = 0; unsigned p_soft = 35; uint64_t soft_total = 0;
  // persistent
  bool persistent = false; wrap::Op op = wrap::OTHER; uint64_t from = 0; string only_path; int err = EIO; bool zero = false; bool once = false; bool partial = false;   // partial: part of a transfer goes through first
  uint64_t hits = 0, phits = 0;   // all faults, persistent ones
  Act operator()(const wrap::Call& c) {
    Act a;
    if (persistent && c.op == op) {
      bool here = only_path.empty() ? c.opidx >= from : (c.op == wrap::OPEN ? c.path && only_path == c.path : wrap::fd_path(c.fd) == only_path);
      if (once && phits) here = false;
      if (here && partial && (op == wrap::READ || op == wrap::WRITE) && c.len > 1) { partial = false; hits++; a.kind = Act::SHORT; a.n = 1 + rng.below(c.len - 1); return a; }
      if (here) { hits++; phits++; if (zero) a.kind = Act::ZERO; else { a.kind = Act::ERR; a.err = err; } return a; }
    }
    if (transient) {
      if (c.op == wrap::READ || c.op == wrap::WRITE) {
        if (soft_total < 4000 && rng.below(100) < p_soft) {
          soft_total++;
          switch (rng.below(5)) {
            case 0: a.kind = Act::ERR; a.err = EINTR; break;
            case 1: a.kind = Act::ERR; a.err = EAGAIN; break;
            case 2: if (hard_left > 0) { hard_left--; a.kind = Act::ERR; a.err = rng.below(2) ? EIO : ENOMEM; break; } // fall through
            default: a.kind = Act::SHORT; a.n = 1 + rng.below(rng.below(2) ? 3 : std::max<size_t>(c.len, 1)); break;
          }
          hits++;
        }
      } else if (c.op == wrap::OPEN) {
        if (open_run < 3 && rng.below(100) < 40) { open_run++; a.kind = Act::ERR; static const int e[] = {EMFILE, ENFILE, EINTR, EACCES, ENOENT, ESTALE, EIO}; a.err = e[rng.below(7)]; hits++; }
        else open_run = 0;
      }
    }
    return a;
  }
};
[[maybe_unused]] void check_set_files(const string& prefix, const RankSet& s, const string& what) {
  // follow the map with the independent decoder
  string err; bool ok;
  NodeP root = dec_file(slurp(prefix, &ok), err);
  VCHECK(ok && err.empty(), "%s: root file: %s", what.c_str(), ok ? err.c_str() : "missing");
  NodeP all = mk();
  std::function<void(const Node*, int)> walk = [&](const Node* n, int lvl) {
    auto val = [&](const char* k) -> string { auto it = n->kids.find(k); if (it == n->kids.end() || !it->second || it->second->kids.size() != 1) return ""; return it->second->kids.begin()->first; };
    VCHECK(val("RANKS") == istr(s.n), "%s: RANKS is %s, not %d", what.c_str(), show(val("RANKS")).c_str(), s.n);
    auto rk = n->kids.find("RANK");
    if (val("LEVEL") == "0") { if (rk != n->kids.end()) for (auto& e : rk->second->kids) { VCHECK(!all->kids.count(e.first), "%s: rank %s appears in two files", what.c_str(), e.first.c_str()); all->kids[e.first] = clone(e.second.get()); } return; }
    VCHECK(lvl < 10 && rk != n->kids.end(), "%s: file map is malformed", what.c_str());
    for (auto& e : rk->second->kids) {
      VCHECK(e.second && e.second->kids.count("FILE") && e.second->kids["FILE"]->kids.size() == 1, "%s: map entry without FILE", what.c_str());
      string f = prefix + e.second->kids["FILE"]->kids.begin()->first;
      NodeP x = dec_file(slurp(f, &ok), err);
      VCHECK(ok && err.empty(), "%s: file %s: %s", what.c_str(), f.c_str(), ok ? err.c_str() : "missing");
      walk(x.get(), lvl + 1);
    }
  };
  walk(root.get(), 0);
  string why;
  VCHECK(same_tree(all.get(), s.ranks.get(), &why), "%s: the files hold other entries: %s", what.c_str(), why.c_str());
}
// the trees of a set, by the part of the file name after the prefix
typedef std::map<string, NodeP> SetTrees;
inline void kv1(Node* n, const string& k, const string& v) { NodeP& x = n->kids[k]; if (!x) x = mk(); x->kids[v] = mk(); }
[[maybe_unused]] SetTrees set_trees(Rng& r, const RankSet& s) {
  // the documented level/ranks/file structure, any number of levels
  struct F { string suffix; int writer; };
  SetTrees out;
  vector<F> files;
  int i = 0;
  while (i < s.n) {
    int c = 1 + r.below(4), first = i;
    NodeP f = mk(); kv1(f.get(), "LEVEL", "0"); kv1(f.get(), "RANKS", istr(s.n));
    NodeP& rk = f->kids["RANK"]; rk = mk();
    for (; c > 0 && i < s.n; c--, i++) { auto it = s.ranks->kids.find(istr(i)); rk->kids[istr(i)] = clone(it->second.get()); }
    string suf = ".0." + istr(first);
    out[suf] = std::move(f);
    files.push_back({suf, first});
  }
  int level = 1;
  for (;;) {
    vector<F> up;
    bool top = level >= 2 ? (files.size() <= 3 || level == 4) : files.size() <= 2 || r.pct(50);
    size_t j = 0;
    while (j < files.size()) {
      size_t c = top ? files.size() : 1 + r.below(3), first = j;
      NodeP f = mk(); kv1(f.get(), "LEVEL", istr(level)); kv1(f.get(), "RANKS", istr(s.n));
      NodeP& rk = f->kids["RANK"]; rk = mk();
      for (; c > 0 && j < files.size(); c--, j++) { NodeP& e = rk->kids[istr(files[j].writer)]; e = mk(); kv1(e.get(), "FILE", files[j].suffix); kv1(e.get(), "OFFSET", "0"); }
      string suf = top ? "" : "." + istr(level) + "." + istr(files[first].writer);
      out[suf] = std::move(f);
      up.push_back({suf, files[first].writer});
    }
    if (top) { set_max("map_levels", level); return out; }
    files = up; level++;
  }
}
[[maybe_unused]] void craft_set(Rng& r, const string& prefix, const RankSet& s) {
  // independent writer
  SetTrees t = set_trees(r, s);
  for (auto& f : t) spew(prefix + f.first, enc_file(f.second.get(), true, &r));
}

// ------------------------------------------------------------ C31: sets whose records contradict each other
struct OddSet { SetTrees files; int ranks = 0; string how; bool sound = false; bool deep = false; };
// one well-formed set with a few contradictions
[[maybe_unused]] OddSet odd_set(Rng& r, int n, int longest) {   // longest: of the chains
  OddSet o; o.ranks = n;
  string N = istr(n);
  auto leaf = [&](int a, int b, const string& mark) {
    NodeP f = mk(); kv1(f.get(), "LEVEL", "0"); kv1(f.get(), "RANKS", N);
    NodeP& k = f->kids["RANK"]; k = mk();
    for (int i = a; i < b; i++) { NodeP& x = k->kids[istr(i)]; x = mk(); x->kids[mark + istr(i)] = mk(); }
    return f;
  };
  auto map_of = [&](int level, const vector<std::pair<string, string>>& refs) {
    NodeP f = mk(); kv1(f.get(), "LEVEL", istr(level)); kv1(f.get(), "RANKS", N);
    NodeP& k = f->kids["RANK"]; k = mk();
    for (auto& e : refs) { NodeP& x = k->kids[e.first]; x = mk(); kv1(x.get(), "FILE", e.second); kv1(x.get(), "OFFSET", "0"); }
    return f;
  };
  int shape = r.below(10);
  if (shape == 0) {                                     // maps that share the maps below them
    int d = 2 + r.below(40), w = 2 + r.below(3);
    for (int l = d; l >= 1; l--) {
      vector<std::pair<string, string>> refs;
      for (int i = 0; i < w; i++) refs.push_back({istr(i), l > 1 ? "." + istr(l - 1) + ".0" : ".0.0"});
      o.files[l == d ? "" : "." + istr(l) + ".0"] = map_of(l, refs);
    }
    o.files[".0.0"] = leaf(0, n, "v");
    o.how = istr(d) + " levels of maps, each naming the next " + istr(w) + " times";
    return o;
  }
  if (shape == 1 && longest) {                           // one map after another
    int d = longest < 1500 || r.pct(75) ? 10 + r.below(std::min(200, longest)) : 1500 + r.below(longest - 1500 + 1);
    for (int l = d; l >= 1; l--) o.files[l == d ? "" : ".m." + istr(l)] = map_of(l, {{"0", l > 1 ? ".m." + istr(l - 1) : ".0.0"}});
    o.files[".0.0"] = leaf(0, n, "v");
    o.how = "a chain of " + istr(d) + " maps"; o.sound = n == 1; o.deep = true;
    return o;
  }
  if (shape == 2) {                                     // circles
    int len = 1 + r.below(4);
    bool same = r.pct(50);
    for (int i = 0; i < len; i++) {
      vector<std::pair<string, string>> refs = {{"0", i + 1 < len ? ".c." + istr(i + 1) : ""}};
      if (r.pct(50)) refs.push_back({istr(1 + r.below(n + 1)), ".0.0"});
      o.files[i ? ".c." + istr(i) : ""] = map_of(same ? 3 : 9 - i, refs);
    }
    o.files[".0.0"] = leaf(0, n, "v");
    o.how = "a circle of " + istr(len) + " maps";
    return o;
  }
  RankSet s; s.n = n; s.ranks = mk();
  for (int i = 0; i < n; i++) { NodeP& x = s.ranks->kids[istr(i)]; if (!r.one_in(8)) { x = mk(); x->kids["v" + istr(i)] = mk(); } }
  o.files = set_trees(r, s);
  if (shape == 3) {                                     // the same ranks in several leaves
    vector<string> ls; for (auto& f : o.files) if (f.first.compare(0, 3, ".0.") == 0) ls.push_back(f.first);
    for (auto& l : ls) if (r.pct(60)) { Node* k = o.files[l]->kids["RANK"].get(); NodeP& x = k->kids[istr(r.below(n))]; if (!x) x = mk(); x->kids["again"] = mk(); }
    o.how = "ranks in several files;";
  }
  static const char* odd[] = {"", "-1", "-2147483648", "2147483647", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999", "abc", "0x1", " 0", "+1", "1 ", "00", "1.5", "-0", "%s", "1e3", "3", "1"};
  auto any = [&]() -> string { return r.pct(10) ? istr(-(long long)n + r.range(-2, 2)) : r.pct(5) ? istr(2 * n + r.range(-1, 1)) : r.pct(15) ? N : r.pct(15) ? istr((long long)n + r.range(-2, 2)) : odd[r.below(sizeof odd / sizeof *odd)]; };
  vector<string> names; for (auto& f : o.files) names.push_back(f.first);
  auto any_file = [&]() -> string {
    switch (r.below(9)) {
      case 0: return "";
      case 1: return ".nosuch";
      case 2: return "/../" + string(r.below(2) ? "x" : "");
      case 3: return string(200 + r.below(6000), 'f');
      case 4: return ".dir";
      case 5: return "%s%n%d";
      default: return r.pick(names);
    }
  };
  int k = r.below(4);
  for (int q = 0; q < k; q++) {
    string fn = r.pick(names);
    Node* f = o.files[fn].get();
    NodeP& rk = f->kids["RANK"];
    string at = show(fn) + ": ";
    auto pick_rank = [&]() -> string { if (!rk || rk->kids.empty()) return ""; auto it = rk->kids.begin(); std::advance(it, r.below(rk->kids.size())); return it->first; };
    switch (r.below(12)) {
      case 0: case 1: {
        string key = r.pct(50) ? "LEVEL" : "RANKS"; NodeP& x = f->kids[key];
        switch (r.below(5)) {
          case 0: f->kids.erase(key); o.how += at + "no " + key + "; "; break;
          case 1: x = nullptr; o.how += at + key + " empty; "; break;
          case 2: { string v = any(); if (!x) x = mk(); x->kids[v] = mk(); o.how += at + key + " also " + show(v) + "; "; break; }
          default: { string v = any(); x = mk(); x->kids[v] = r.pct(50) ? nullptr : mk(); if (r.one_in(5) && x->kids[v]) x->kids[v]->kids["more"] = mk(); o.how += at + key + " " + show(v) + "; "; break; }
        }
        break;
      }
      case 2: if (r.pct(50)) f->kids.erase("RANK"); else rk = nullptr; o.how += at + "no RANK; "; break;
      case 3: { if (!rk) break; string a = pick_rank(), b = any(); auto it = rk->kids.find(a); if (it == rk->kids.end()) break; NodeP x = std::move(it->second); rk->kids.erase(it); rk->kids[b] = std::move(x); o.how += at + "rank " + a + " named " + show(b) + "; "; break; }
      case 4: case 11: { if (!rk) rk = mk(); string b = any(); NodeP& x = rk->kids[b]; x = mk(); x->kids["added" + istr(q)] = mk(); kv1(x.get(), "FILE", any_file()); kv1(x.get(), "OFFSET", r.pct(60) ? "0" : any()); o.how += at + "added rank " + show(b) + "; "; break; }
      case 5: { if (!rk) break; string a = pick_rank(); rk->kids.erase(a); o.how += at + "rank " + a + " removed; "; break; }
      case 6: case 7: { if (!rk) break; string a = pick_rank(); auto it = rk->kids.find(a); if (it == rk->kids.end()) break; NodeP& x = it->second; if (!x) x = mk(); string v = any_file();
        if (!r.one_in(5)) x->kids.erase("FILE");
        if (!r.one_in(5)) kv1(x.get(), "FILE", v);
        o.how += at + "rank " + a + " in " + show(v) + "; "; break; }
      case 8: { if (!rk) break; string a = pick_rank(); auto it = rk->kids.find(a); if (it == rk->kids.end()) break; NodeP& x = it->second; if (!x) x = mk(); string v = any();
        x->kids.erase("OFFSET"); if (!r.one_in(4)) kv1(x.get(), "OFFSET", v);
        o.how += at + "offset of rank " + a + " " + show(v) + "; "; break; }
      case 9: { string g = r.pick(names); if (fn == g) break; o.files[fn] = clone(o.files[g].get()); o.how += show(fn) + " is a copy of " + show(g) + "; "; break; }
      default: if (fn.empty()) break; o.files[fn] = nullptr; o.how += show(fn) + " missing; "; break;
    }
    names.clear(); for (auto& x : o.files) if (x.second) names.push_back(x.first);
  }
  o.sound = o.how.empty();
  if (o.how.empty()) o.how = "nothing odd";
  return o;
}
[[maybe_unused]] void write_odd(Rng& r, const string& prefix, const OddSet& o) {
  for (auto& f : o.files) if (f.second) spew(prefix + f.first, enc_file(f.second.get(), r.pct(80), &r));
  mkdir((prefix + ".dir").c_str(), 0755);
}
// whether an entry under this key can be meant for rank me (texts are read as C does, and may wrap)
[[maybe_unused]] bool for_rank(const string& key, int me) {
  errno = 0;
  long long a = strtoll(key.c_str(), nullptr, 10), b = strtoll(key.c_str(), nullptr, 0);
  return a == me || b == me || a > INT_MAX || a < INT_MIN || errno == ERANGE;
}
// everything that any file of the set that may be a leaf holds under RANK, whatever leads there
[[maybe_unused]] bool maybe_leaf(const Node* f) {
  auto l = f->kids.find("LEVEL");
  if (l == f->kids.end() || !l->second || l->second->kids.size() != 1) return true;
  const string& v = l->second->kids.begin()->first;
  return v.empty() || v.size() > 9 || v.find_first_not_of("0123456789") != string::npos || v[0] == '0';
}
[[maybe_unused]] NodeP all_entries(const OddSet& o) {
  NodeP all = mk();
  for (auto& f : o.files) if (f.second && maybe_leaf(f.second.get())) { auto k = f.second->kids.find("RANK"); if (k != f.second->kids.end() && k->second) merge_into(all.get(), k->second.get()); }
  return all;
}
[[maybe_unused]] bool within(const Node* small, const Node* big) { NodeP x = clone(big); merge_into(x.get(), small); return same_tree(x.get(), big); }
[[maybe_unused]] vector<string> set_files(const string& prefix) {
  // those the map refers to
  vector<string> v; string err; bool ok;
  std::function<void(const string&, int)> walk = [&](const string& f, int lvl) {
    v.push_back(f);
    NodeP n = dec_file(slurp(f, &ok), err);
    if (!n || lvl > 10) return;
    auto l = n->kids.find("LEVEL");
    if (l == n->kids.end() || l->second->kids.begin()->first == "0") return;
    auto k = n->kids.find("RANK"); if (k == n->kids.end() || !k->second) return;
    for (auto& e : k->second->kids) walk(prefix + e.second->kids["FILE"]->kids.begin()->first, lvl + 1);
  };
  walk(prefix, 0);
  return v;
}
// ------------------------------------------------------------ C33: what a caller holds on to
struct Held { vector<string> path; kvtree_elem* e; char* key; kvtree* sub; };
[[maybe_unused]] void hold(kvtree* t, vector<Held>& out, vector<string> path = {}, size_t most = 400) {
  for (kvtree_elem* e = kvtree_elem_first(t); e && out.size() < most; e = kvtree_elem_next(e)) {
    vector<string> p = path; p.push_back(kvtree_elem_key(e));
    out.push_back({p, e, kvtree_elem_key(e), kvtree_elem_hash(e)});
    if (kvtree_elem_hash(e)) hold(kvtree_elem_hash(e), out, p, most);
  }
}
// what no longer holds, or an empty string
[[maybe_unused]] string still_held(kvtree* root, const vector<Held>& hs) {
  for (auto& h : hs) {
    kvtree* t = root; kvtree_elem* e = nullptr; string at;
    for (auto& k : h.path) { e = t ? kvtree_elem_get(t, k.c_str()) : nullptr; at += "/" + show(k, 30); if (!e) return "the element at " + at + " is gone"; t = kvtree_elem_hash(e); }
    if (e != h.e) return "the element at " + at + " is another object";
    if (kvtree_elem_key(e) != h.key) return "the key text at " + at + " has moved";
    if (h.path.back() != h.key) return "the key text at " + at + " reads " + show(h.key);
    if (h.sub && t != h.sub) return "the subtree at " + at + " is another object";
  }
  return "";
}
[[maybe_unused]] void let_go(vector<Held>& hs, const vector<string>& path) {
  hs.erase(std::remove_if(hs.begin(), hs.end(), [&](const Held& h) { return h.path.size() >= path.size() && std::equal(path.begin(), path.end(), h.path.begin()); }), hs.end());
}
}
