// In-memory properties: C01-C08, C18, C27, and their mix for C02.
#include "vh.h"
#include "wrap.h"
#include <climits>
#include <cmath>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace vh;
using std::string;
using std::vector;

// C functions of the library that have no public prototype in kvtree.h
#define V(x) (void)(x)

#if defined(__SANITIZE_ADDRESS__) || defined(VH_ASAN)
enum { SLOW = 1 };
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
enum { SLOW = 1 };
#else
enum { SLOW = 0 };
#endif
#else
enum { SLOW = 0 };
#endif
static string istr(long long v) { return std::to_string(v); }
static bool canonical_int(const string& k, int* v = nullptr) {
  if (k.empty() || k.size() > 11) return false;
  char* e; errno = 0;
  long long x = strtoll(k.c_str(), &e, 10);
  if (*e || x < INT_MIN || x > INT_MAX || istr(x) != k) return false;
  if (v) *v = (int)x;
  return true;
}

// ------------------------------------------------------------ C01
// obj in the model is the object the real tree must hold
static void bind(Node* n, kvtree* t) {
  n->obj = t;
  std::unordered_map<string, kvtree*> wide;      // asking for every key of a wide level takes too long
  if (n->kids.size() > 3000) for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) wide[kvtree_elem_key(e)] = kvtree_elem_hash(e);
  for (auto& k : n->kids) {
    kvtree* s;
    if (wide.empty()) s = kvtree_get(t, k.first.c_str());
    else { auto it = wide.find(k.first); VCHECK(it != wide.end(), "iteration does not visit key %s, which was set", show(k.first).c_str()); s = it->second; }
    if (!k.second) { VCHECK(!s, "key %s was set without a subtree, but get finds one", show(k.first).c_str()); continue; }
    VCHECK(s, "get(%s) finds nothing although the key was set", show(k.first).c_str());
    bind(k.second.get(), s);
  }
}
static size_t verified_nodes;
static void verify(const Node* n, const char* after, size_t lvl = 0) {
  const kvtree* t = n->obj;
  std::set<string> seen;
  size_t c = 0, every = n->kids.size() < 80 ? 1 : std::max<size_t>(17, n->kids.size() / 60);
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    if (++c > n->kids.size() + 8) fail("after %s: iteration visits more elements than the %zu keys set", after, n->kids.size());
    const char* k = kvtree_elem_key(e);
    VCHECK(k, "after %s: element without key", after);
    auto it = n->kids.find(k);
    VCHECK(it != n->kids.end(), "after %s: unexpected key %s", after, show(k).c_str());
    VCHECK(seen.insert(k).second, "after %s: key %s visited twice", after, show(k).c_str());
    kvtree* want = it->second ? it->second->obj : nullptr;
    VCHECK(kvtree_elem_hash(e) == want, "after %s: key %s: elem_hash is not the object that was set", after, show(k).c_str());
    if (c % every == 0) {
      VCHECK(kvtree_get(t, k) == want, "after %s: key %s: get does not return the object that was set", after, show(k).c_str());
      VCHECK(kvtree_elem_get(t, k) == e, "after %s: key %s: elem_get returns another element", after, show(k).c_str());
    }
    int iv;
    if (canonical_int(k, &iv)) VCHECK(kvtree_elem_key_int(e) == iv, "after %s: key %s: key_int says %d", after, show(k).c_str(), kvtree_elem_key_int(e));
    // single-value accessors
    const Node* sub = it->second.get();
    if (c % every == 0) {
      const char* fv = kvtree_elem_get_first_val(t, k);
      if (!sub || sub->kids.empty()) VCHECK(!fv, "after %s: key %s has no value, first_val says %s", after, show(k).c_str(), show(fv).c_str());
      else {
        VCHECK(fv && sub->kids.count(fv), "after %s: key %s: first_val is not one of its values", after, show(k).c_str());
        kvtree_elem* f = kvtree_elem_first(want);
        VCHECK(!strcmp(fv, kvtree_elem_key(f)), "after %s: key %s: first_val %s is not the first key in iteration %s", after, show(k).c_str(), show(fv).c_str(), show(kvtree_elem_key(f)).c_str());
      }
      if (!sub || sub->kids.size() <= 1) {
        const char* gv = kvtree_get_val(t, k);
        if (!sub || sub->kids.empty()) VCHECK(!gv, "after %s: key %s has no value, get_val says %s", after, show(k).c_str(), show(gv).c_str());
        else VCHECK(gv && sub->kids.begin()->first == gv, "after %s: key %s: get_val says %s, not %s", after, show(k).c_str(), gv ? show(gv).c_str() : "(null)", show(sub->kids.begin()->first).c_str());
      }
    }
  }
  verified_nodes += c;
  for (auto& k : n->kids) VCHECK(seen.count(k.first), "after %s: key %s is not visited by iteration", after, show(k.first).c_str());
  int sz = kvtree_size(t);
  VCHECK(sz >= 0 && (size_t)sz == n->kids.size(), "after %s: size says %d, %zu keys were set", after, sz, n->kids.size());
  for (auto& k : n->kids) if (k.second) verify(k.second.get(), after, lvl + 1);
}
static Node* some_node(Rng& r, Node* root) {
  Node* n = root;
  while (r.pct(65) && !n->kids.empty()) {
    auto it = n->kids.begin();
    std::advance(it, r.below(std::min<size_t>(n->kids.size(), 50)));
    if (!it->second) break;
    n = it->second.get();
  }
  return n;
}
static string some_key(Rng& r, Node* n, const vector<string>& pool) {
  if (!n->kids.empty() && r.pct(55)) {
    auto it = n->kids.begin();
    std::advance(it, r.below(std::min<size_t>(n->kids.size(), 50)));
    return it->first;
  }
  return r.pick(pool);
}
static void check_missing(Rng& r, Node* n, const vector<string>& pool, const char* after) {
  for (int i = 0; i < 3; i++) {
    string k = r.pick(pool);
    if (r.pct(20)) k += "x";
    if (n->kids.count(k)) continue;
    VCHECK(!kvtree_get(n->obj, k.c_str()), "after %s: get finds missing key %s", after, show(k).c_str());
    VCHECK(!kvtree_elem_get(n->obj, k.c_str()), "after %s: elem_get finds missing key %s", after, show(k).c_str());
    VCHECK(!kvtree_elem_get_first_val(n->obj, k.c_str()), "after %s: first_val finds missing key %s", after, show(k).c_str());
    VCHECK(!kvtree_get_val(n->obj, k.c_str()), "after %s: get_val finds missing key %s", after, show(k).c_str());
  }
}
static void c01(Rng& r, uint64_t idx) {
  Shape s; s.int_keys = r.one_in(4);
  auto pool = gen_pool(r, 3 + r.below(14), s);
  for (int i = 0; i < 3; i++) pool.push_back(istr(r.range(-3, 12)));
  vector<NodeP> roots;
  for (size_t i = 0, k = 1 + r.below(3); i < k; i++) {
    NodeP m = (idx % 10007 == 9 && i == 0) ? gen_wide(r, r.pick(vector<int>{32767, 33000, 33000, SLOW ? 40000 : 66000}) + r.below(600), 0) : (idx % 40 == 7 && i == 0) ? gen_wide(r, 200 + r.below(opts.thorough() ? 3000 : 800), r.below(3)) : r.pct(40) ? gen_tree(r, s) : mk();
    kvtree* t = build(r, m.get());
    bind(m.get(), t);
    roots.push_back(std::move(m));
  }
  string trace;
  size_t big = 0;
  for (auto& m : roots) big += count_nodes(m.get());
  int nops = big > 9000 ? 14 : big > 300 ? 12 + r.below(20) : 10 + r.below(60);
  uint64_t sig = 0, mutations = 0;
  for (int o = 0; o < nops; o++) {
    size_t ri = r.below(roots.size());
    Node* root = roots[ri].get();
    Node* n = some_node(r, root);
    string k = some_key(r, n, pool);
    const char* kc = k.c_str();
    auto it = n->kids.find(k);
    bool have = it != n->kids.end();
    unsigned op = r.below(18);
    // the key as the caller has it: in a buffer of its own, or as found in the tree
    const char* ka = kc;
    if (have && r.pct(30)) { ka = kvtree_elem_key(kvtree_elem_get(n->obj, kc)); count("keys_of_the_tree_itself"); }
    string what;
    switch (op) {
      case 0: case 1: case 2: {   // set a subtree
        NodeP m = r.pct(50) ? mk() : gen_tree(r, Shape{8, 3, 15, false, false});
        kvtree* v = build(r, m.get());
        bind(m.get(), v);
        what = "set(" + show(k, 20) + ")";
        kvtree* ret = kvtree_set(n->obj, ka, v);
        VCHECK(ret == v, "%s does not return the object given", what.c_str());
        n->kids[k] = std::move(m);
        break;
      }
      case 3: {
        what = "set(" + show(k, 20) + ",NULL)";
        VCHECK(!kvtree_set(n->obj, ka, nullptr), "%s returned an object", what.c_str());
        n->kids[k] = nullptr;
        break;
      }
      case 4: {
        what = "unset(" + show(k, 20) + ")";
        VCHECK(kvtree_unset(n->obj, ka) == KVTREE_SUCCESS, "%s failed", what.c_str());
        n->kids.erase(k);
        break;
      }
      case 5: case 6: {      // extract, maybe graft elsewhere
        what = "extract(" + show(k, 20) + ")";
        kvtree* v = kvtree_extract(n->obj, ka);
        VCHECK(v == (have && it->second ? it->second->obj : nullptr), "%s does not return the object that was set", what.c_str());
        if (!have) break;
        NodeP m = std::move(it->second);
        n->kids.erase(it);
        if (!m) break;
        if (r.pct(50)) {     // into some tree (cannot be inside m any more)
          Node* d = some_node(r, roots[r.below(roots.size())].get());
          string k2 = some_key(r, d, pool);
          // replacing an entry may delete a subtree, never an ancestor of d
          VCHECK(kvtree_set(d->obj, k2.c_str(), v) == v, "set of an extracted tree does not return it");
          d->kids[k2] = std::move(m);
        } else if (roots.size() < 5 && r.pct(50)) roots.push_back(std::move(m));
        else { kvtree_delete(&v); VCHECK(!v, "delete did not clear the pointer"); }
        break;
      }
      case 7: case 8: {      // element extraction
        kvtree_elem* e;
        int iv;
        what = "elem_extract(" + show(k, 20) + ")";
        if (canonical_int(k, &iv) && r.pct(60)) { e = kvtree_elem_extract_int(n->obj, iv); what = "elem_extract_int(" + istr(iv) + ")"; }
        else if (have && r.pct(40)) {
          e = kvtree_elem_extract_by_addr(n->obj, kvtree_elem_get(n->obj, kc));
          what = "elem_extract_by_addr(" + show(k, 20) + ")";
        } else e = kvtree_elem_extract(n->obj, ka);
        VCHECK((e != nullptr) == have, "%s: element %s", what.c_str(), have ? "not found" : "found though absent");
        if (!have) break;
        VCHECK(!strcmp(kvtree_elem_key(e), kc), "%s: extracted element has key %s", what.c_str(), show(kvtree_elem_key(e)).c_str());
        kvtree* want = it->second ? it->second->obj : nullptr;
        VCHECK(kvtree_elem_hash(e) == want, "%s: extracted element has another subtree", what.c_str());
        NodeP m = std::move(it->second);
        n->kids.erase(it);
        if (m && roots.size() < 5 && r.pct(40)) { verify(m.get(), what.c_str()); roots.push_back(std::move(m)); }
        else kvtree_delete(&e->hash);
        vw_free(e->key);
        vw_free(e);
        break;
      }
      case 9: {
        if (!r.pct(25)) { what = "lookup"; break; }
        what = "unset_all";
        VCHECK(kvtree_unset_all(n->obj) == KVTREE_SUCCESS, "unset_all failed");
        n->kids.clear();
        break;
      }
      case 10: case 11: case 12: {   // set_kv
        string v = r.pick(pool);
        int iv;
        kvtree* outer = have && it->second ? it->second->obj : nullptr;
        kvtree* inner = outer && it->second->kids.count(v) && it->second->kids[v] ? it->second->kids[v]->obj : nullptr;
        kvtree* got;
        what = "set_kv(" + show(k, 20) + "," + show(v, 20) + ")";
        if (canonical_int(v, &iv) && r.pct(60)) { got = kvtree_set_kv_int(n->obj, ka, iv); what = "set_kv_int(" + show(k, 20) + "," + v + ")"; }
        else {
          const char* va = v.c_str();
          if (outer && it->second->kids.count(v) && r.pct(30)) va = kvtree_elem_key(kvtree_elem_get(outer, va));
          got = kvtree_set_kv(n->obj, ka, va);
        }
        VCHECK(got, "%s returned nothing", what.c_str());
        if (inner) VCHECK(got == inner, "%s replaced the subtree of an existing value", what.c_str());
        NodeP& a = n->kids[k];
        if (!a) { a = mk(); a->obj = kvtree_get(n->obj, kc); VCHECK(a->obj, "%s: outer key has no subtree", what.c_str()); }
        NodeP& b = a->kids[v];
        if (!b) { b = mk(); b->obj = kvtree_get(a->obj, v.c_str()); }
        VCHECK(b->obj == got, "%s: returned object is not the one stored", what.c_str());
        VCHECK(kvtree_get_kv(n->obj, kc, v.c_str()) == got, "%s: get_kv finds another object", what.c_str());
        if (canonical_int(v, &iv)) VCHECK(kvtree_get_kv_int(n->obj, kc, iv) == got, "%s: get_kv_int finds another object", what.c_str());
        break;
      }
      case 13: case 14: {    // unset_kv
        string v;
        if (have && it->second && !it->second->kids.empty() && r.pct(80)) { auto j = it->second->kids.begin(); std::advance(j, r.below(std::min<size_t>(it->second->kids.size(), 20))); v = j->first; }
        else v = r.pick(pool);
        int iv;
        what = "unset_kv(" + show(k, 20) + "," + show(v, 20) + ")";
        int rc;
        if (canonical_int(v, &iv) && r.pct(60)) { rc = kvtree_unset_kv_int(n->obj, ka, iv); what = "unset_kv_int(" + show(k, 20) + "," + v + ")"; }
        else {
          const char* va = v.c_str();
          if (have && it->second && it->second->kids.count(v) && r.pct(30)) va = kvtree_elem_key(kvtree_elem_get(it->second->obj, va));
          rc = kvtree_unset_kv(n->obj, ka, va);
        }
        VCHECK(rc == KVTREE_SUCCESS, "%s failed", what.c_str());
        if (have) {
          if (it->second) it->second->kids.erase(v);
          if (!it->second || it->second->kids.empty()) n->kids.erase(it);
        }
        break;
      }
      case 15: {             // get_kv lookups
        string v = r.pick(pool);
        what = "get_kv(" + show(k, 20) + "," + show(v, 20) + ")";
        kvtree* want = nullptr;
        if (have && it->second) { auto j = it->second->kids.find(v); if (j != it->second->kids.end() && j->second) want = j->second->obj; }
        VCHECK(kvtree_get_kv(n->obj, kc, v.c_str()) == want, "%s finds the wrong object", what.c_str());
        int iv;
        if (canonical_int(v, &iv)) VCHECK(kvtree_get_kv_int(n->obj, kc, iv) == want, "get_kv_int(%s,%d) finds the wrong object", show(k).c_str(), iv);
        break;
      }
      case 16: {             // path set
        string k2 = r.pick(pool);
        if (k.size() > 1023 || k2.size() > 1023) { what = "lookup"; break; }
        NodeP m = mk();
        kvtree* v = kvtree_new();
        m->obj = v;
        what = "setf(" + show(k, 20) + " " + show(k2, 20) + ")";
        VCHECK(kvtree_setf(n->obj, v, "%s %s", ka, k2.c_str()) == v, "%s does not return the object given", what.c_str());
        NodeP& a = n->kids[k];
        if (!a) { a = mk(); a->obj = kvtree_get(n->obj, kc); VCHECK(a->obj, "%s: no subtree at the intermediate key", what.c_str()); }
        a->kids[k2] = std::move(m);
        break;
      }
      default: {
        what = r.pct(50) ? "sort" : "sort_int";
        if (what == "sort") kvtree_sort(n->obj, r.below(2)); else kvtree_sort_int(n->obj, r.below(2));
        break;
      }
    }
    if (op != 15) mutations++;
    sig = mix(sig, op * 31 + have);
    count("ops");
    trace += what + "; ";
    if (trace.size() > 400) trace.erase(0, trace.size() - 400);
    if (big < 300 || o % 6 == 0 || o + 1 == nops) for (auto& m : roots) verify(m.get(), trace.c_str());
    // n may be gone (a graft can replace it)
    check_missing(r, some_node(r, roots[r.below(roots.size())].get()), pool, what.c_str());
    if (r.one_in(30) && roots.size() > 1) {
      size_t d = r.below(roots.size());
      kvtree* t = roots[d]->obj;
      VCHECK(kvtree_delete(&t) == KVTREE_SUCCESS && !t, "delete did not clear the pointer");
      roots.erase(roots.begin() + d);
    }
  }
  for (auto& m : roots) { sig = mix(sig, signature(m.get())); set_max("nodes_in_tree", count_nodes(m.get())); }
  for (auto& m : roots) { kvtree* t = m->obj; kvtree_delete(&t); VCHECK(!t, "delete did not clear the pointer"); }
  count("nodes_verified", verified_nodes); verified_nodes = 0;
  if (mutations > 3) nontrivial(sig);
  sample(trace.substr(0, 200));
}

// ------------------------------------------------------------ C03
static void collect(const kvtree* t, std::set<const void*>& objs) {
  if (!t) return;
  objs.insert(t);
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    objs.insert(e); objs.insert(kvtree_elem_key(e));
    collect(kvtree_elem_hash(e), objs);
  }
}
static void same_objects(const Node* before, const Node* after, const string& path) {
  for (auto& k : before->kids) {
    auto it = after->kids.find(k.first);
    VCHECK(it != after->kids.end(), "merge: destination lost key %s%s", path.c_str(), show(k.first).c_str());
    if (!k.second) continue;
    VCHECK(it->second && it->second->obj == k.second->obj, "merge: destination's subtree at %s%s is no longer the same object", path.c_str(), show(k.first).c_str());
    same_objects(k.second.get(), it->second.get(), path + show(k.first, 20) + "/");
  }
}
static string pack_bytes(const kvtree* t) {
  size_t n = kvtree_pack_size(t);
  string b(n + 16, '\x5a');
  size_t w = kvtree_pack(&b[0], t);
  if (w != n) fail("pack wrote %zu bytes, pack_size announced %zu", w, n);
  b.resize(n);
  return b;
}
static void mutate_all(Rng& r, kvtree* t, int lvl = 0) {
  // touches every level of a tree
  vector<string> ks = key_order(t);
  for (auto& k : ks) { kvtree* s = kvtree_get(t, k.c_str()); if (s && r.pct(70)) mutate_all(r, s, lvl + 1); }
  for (size_t i = 0; i < ks.size() && i < 50; i++) if (r.pct(40)) { if (r.pct(50)) kvtree_unset(t, ks[i].c_str()); else kvtree_set_kv(t, ks[i].c_str(), "mutated"); }
  kvtree_set_kv_int(t, "added-later", lvl);
}
static NodeP related_tree(Rng& r, const Node* base, const Shape& s) {
  // shares many paths with base
  NodeP n = mk();
  for (auto& k : base->kids) {
    if (r.pct(35)) continue;
    NodeP& x = n->kids[k.first];
    switch (r.below(5)) {
      case 0: break;
      case 1: x = mk(); break;
      case 2: if (k.second) x = clone(k.second.get()); else x = gen_tree(r, Shape{6, 3, 20, false, false}); break;
      default: if (k.second) x = related_tree(r, k.second.get(), s); else x = mk(); break;
    }
  }
  if (r.pct(60)) { NodeP e = gen_tree(r, Shape{6, 3, 20, true, false}); for (auto& k : e->kids) if (!n->kids.count(k.first)) n->kids[k.first] = std::move(k.second); }
  return n;
}
static void c03(Rng& r, uint64_t idx) {
  bool big = idx % 50 == 11;
  NodeP md, ms;
  if (idx % 19207 == 5) {    // tens of thousands of keys in one level, most of them new to the destination
    md = gen_wide(r, r.below(400), 1);
    ms = gen_wide(r, SLOW ? 9000 : r.pct(50) ? 21000 : 33000, r.below(2));
  } else if (idx % 300 == 6) { // one path of more than a thousand levels on both sides, leaving each other near the end
    md = gen_deep(r, 1001 + r.below(1500));
    ms = clone(md.get());
    Node* c = ms.get();
    for (size_t cut = r.below(2600); cut && c->kids.size() && c->kids.begin()->second; cut--) c = c->kids.begin()->second.get();
    c->kids["onlysrc"] = gen_deep(r, r.below(30));
    if (r.pct(30)) md = mk();
  } else {
    md = big ? gen_wide(r, 300 + r.below(1500), 2) : gen_any(r, false);
    ms = big ? related_tree(r, md.get(), Shape()) : r.pct(60) ? related_tree(r, md.get(), Shape()) : gen_any(r, false);
  }
  kvtree* d = build(r, md.get());
  kvtree* s = build(r, ms.get());
  NodeP d0 = read_back(d, "destination before merge"), s0 = read_back(s, "source before merge");
  string sb = pack_bytes(s);
  VCHECK(kvtree_merge(d, s) == KVTREE_SUCCESS, "merge reported failure");
  NodeP want = clone(md.get());
  merge_into(want.get(), ms.get());
  NodeP d1 = read_back(d, "destination after merge");
  string why;
  VCHECK(same_tree(d1.get(), want.get(), &why), "merge: destination is not the union (found vs expected): %s; dst %s src %s", why.c_str(), to_text(md.get(), 150).c_str(), to_text(ms.get(), 150).c_str());
  same_objects(d0.get(), d1.get(), "");
  // source untouched, order included
  expect_tree(s, ms.get(), "source after merge");
  VCHECK(pack_bytes(s) == sb, "merge changed the source");
  NodeP s1 = read_back(s, "source after merge");
  same_objects(s0.get(), s1.get(), "source:");
  std::set<const void*> od, os;
  collect(d, od); collect(s, os);
  for (auto p : od) VCHECK(!os.count(p), "merge: destination shares an object with the source");
  // repeating changes nothing
  VCHECK(kvtree_merge(d, s) == KVTREE_SUCCESS, "second merge reported failure");
  NodeP d2 = read_back(d, "destination after second merge");
  VCHECK(same_tree(d2.get(), want.get(), &why), "second merge changed the destination: %s", why.c_str());
  same_objects(d1.get(), d2.get(), "");
  same_objects(d2.get(), d1.get(), "second merge:");
  // independence
  if (r.pct(50)) {
    mutate_all(r, s);
    expect_tree(d, want.get(), "destination after the source was changed");
    if (r.pct(50)) { kvtree_delete(&s); expect_tree(d, want.get(), "destination after the source was deleted"); }
  } else {
    mutate_all(r, d);
    expect_tree(s, ms.get(), "source after the destination was changed");
    if (r.pct(50)) { kvtree_delete(&d); expect_tree(s, ms.get(), "source after the destination was deleted"); }
  }
  kvtree_delete(&d); kvtree_delete(&s);
  count("merges", 2); count("nodes_merged", count_nodes(ms.get()));
  if (count_nodes(ms.get()) > 0 && count_nodes(md.get()) > 0) nontrivial(mix(signature(md.get()), signature(ms.get())));
  sample("dst " + to_text(md.get(), 90) + " src " + to_text(ms.get(), 90));
}

// ------------------------------------------------------------ C04
struct Arg { string conv, text; uint64_t gp = 0; double fp = 0; bool is_fp = false; string hold; };
static string cfmt(const char* f, ...) {
  va_list ap; va_start(ap, f); va_list b; va_copy(b, ap);
  int n = vsnprintf(nullptr, 0, f, b); va_end(b);
  string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, ap); va_end(ap); s.resize(n); return s;
}
static const uint64_t edge64[] = {0, 1, 2, 9, 10, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 1000000007ull, 0xfffffffeull};
static Arg gen_arg(Rng& r, const Shape& s, int len_edge) {
  static const char* convs[] = {"%s", "%s", "%d", "%lld", "%lu", "%#x", "%#lx", "%llu", "%f", "%p"};
  Arg a;
  a.conv = convs[len_edge ? 0 : r.below(10)];
  uint64_t v = r.pct(50) ? edge64[r.below(sizeof edge64 / 8)] : r.pct(50) ? r.below(20) : r.next() >> r.below(64);
  if (a.conv == "%s") {
    if (len_edge) { size_t L[] = {1023, 1022, 1021, 1000, 512, 1023}; a.hold = string(L[r.below(6)], (char)('a' + r.below(2))); a.hold[a.hold.size() - 1] = (char)('a' + r.below(3)); }
    else do a.hold = gen_key(r, s); while (a.hold.size() > 1023);
    a.text = a.hold;
  }
  else if (a.conv == "%d") { a.gp = (r.next() << 32) | (uint32_t)v; a.text = cfmt("%d", (int)(uint32_t)v); }
  else if (a.conv == "%lld") { a.gp = v; a.text = cfmt("%lld", (long long)v); }
  else if (a.conv == "%lu") { a.gp = v; a.text = cfmt("%lu", (unsigned long)v); }
  else if (a.conv == "%#x") { a.gp = (r.next() << 32) | (uint32_t)v; a.text = cfmt("%#x", (unsigned)(uint32_t)v); }
  else if (a.conv == "%#lx") { a.gp = v; a.text = cfmt("%#lx", (unsigned long)v); }
  else if (a.conv == "%llu") { a.gp = v; a.text = cfmt("%llu", (unsigned long long)v); }
  else if (a.conv == "%p") { a.gp = v; a.text = cfmt("%p", (void*)v); }
  else { a.is_fp = true; double d[] = {0, -0.0, 1, -1.5, 3.14159265358979, 1e300, -1e308, 1e-10, 123456789.123456789, (double)(int64_t)v, INFINITY}; a.fp = d[r.below(11)]; a.text = cfmt("%f", a.fp); }
  return a;
}
static kvtree* call_f(bool set, kvtree* t, kvtree* v, const char* fmt, const vector<Arg>& args) {
  uint64_t g[24] = {0}; double f[8] = {0};
  size_t ng = 0, nf = 0;
  for (auto& a : args) { if (a.is_fp) f[nf++] = a.fp; else g[ng++] = a.conv == "%s" ? (uint64_t)a.hold.c_str() : a.gp; }
  // on this ABI general and floating arguments travel separately, so their relative order does not matter
  if (set) return kvtree_setf(t, v, fmt, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15], g[16], g[17], g[18], g[19], g[20], g[21], g[22], g[23], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
  return kvtree_getf(t, fmt, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15], g[16], g[17], g[18], g[19], g[20], g[21], g[22], g[23], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
}
static string path_text(const vector<Arg>& a) { string o; for (auto& x : a) o += x.conv + "=" + show(x.text, 30) + " "; return o; }
static void c04(Rng& r, uint64_t idx) {
  Shape s;
  if (idx % 40 == 19) {
    // key text beyond the limit: never truncated silently
    size_t L[] = {1024, 1025, 1026, 1100, 2047, 2048, 4096, 70000};
    size_t n = L[r.below(8)];
    bool set = r.pct(60), first = r.pct(50);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
      string longk(n, 'q'), cut(1023, 'q');
      kvtree* t = kvtree_new();
      if (!set) { kvtree_set_kv(t, cut.c_str(), "x"); kvtree_set_kv(t, "x", cut.c_str()); }
      if (set) {
        kvtree* v = kvtree_new();
        kvtree* g = first ? kvtree_setf(t, v, "%s %d", longk.c_str(), 7) : kvtree_setf(t, v, "%d %s", 7, longk.c_str());
        // the call returned: the full key must be there, or nothing at all
        kvtree* full = first ? kvtree_get_kv(t, longk.c_str(), "7") : kvtree_get_kv(t, "7", longk.c_str());
        bool nothing = first ? kvtree_size(t) == 0 : kvtree_size(kvtree_get(t, "7")) == 0;
        _exit(full && full == g ? 10 : (!g && nothing) ? 11 : 12);
      } else {
        kvtree* g = first ? kvtree_getf(t, "%s %s", longk.c_str(), "x") : kvtree_getf(t, "%s %s", "x", longk.c_str());
        _exit(g ? 12 : 10);
      }
    }
    int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128;
    VCHECK(code == 10 || code == 11 || code == 86, "%s with a key of %zu characters: %s", set ? "setf" : "getf", n, code == 12 ? "the key was silently truncated" : ("child ended with " + istr(code)).c_str());
    count("overlong_keys");
    nontrivial(mix(n, set * 2 + first));
    return;
  }
  NodeP m = gen_tree(r, Shape{20, 5, 15, true, r.pct(40)});
  kvtree* t = build(r, m.get());
  uint64_t sig = signature(m.get());
  int n = 4 + r.below(12);
  vector<vector<Arg>> used;
  for (int o = 0; o < n; o++) {
    vector<Arg> args;
    size_t w = 1 + r.below(r.one_in(8) ? 24 : 5);
    int edge = r.one_in(8);
    if (!used.empty() && r.pct(45)) {          // reuse a prefix of an earlier path
      const vector<Arg>& u = r.pick(used);
      size_t c = 1 + r.below(u.size());
      args.assign(u.begin(), u.begin() + c);
    } else if (r.pct(40)) {                    // walk an existing path with %s
      const Node* c = m.get();
      while (!c->kids.empty() && args.size() < w) {
        auto it = c->kids.begin(); std::advance(it, r.below(std::min<size_t>(c->kids.size(), 10)));
        if (it->first.size() > 1023) break;
        Arg a; int iv;
        a.text = a.hold = it->first; a.conv = "%s";
        if (canonical_int(it->first, &iv) && r.pct(60)) { a.conv = "%d"; a.gp = (uint64_t)(uint32_t)iv | (r.next() << 32); }
        args.push_back(a);
        if (!it->second) break;
        c = it->second.get();
      }
    }
    size_t nf = 0;
    for (auto& a : args) nf += a.is_fp;
    while (args.size() < w) { Arg a = gen_arg(r, s, edge && r.pct(50)); if (a.is_fp && nf >= 8) continue; nf += a.is_fp; args.push_back(a); }
    if (args.size() > 24) args.resize(24);
    used.push_back(args);
    string fmt;
    for (auto& a : args) { if (!fmt.empty()) fmt += " "; fmt += a.conv; }
    string keep = fmt;
    string pt = path_text(args);
    // expectation
    if (r.pct(55)) {
      kvtree* v = r.pct(75) ? kvtree_new() : nullptr;
      NodeP mv = v ? mk() : nullptr;
      if (v && r.pct(40)) { mv = gen_tree(r, Shape{5, 2, 15, false, false}); build_into(r, v, mv.get()); }
      // objects on the way keep their identity
      vector<kvtree*> objs; { kvtree* c = t; for (size_t i = 0; i + 1 < args.size() && c; i++) { c = kvtree_get(c, args[i].text.c_str()); if (c) objs.push_back(c); } }
      kvtree* got = call_f(true, t, v, fmt.c_str(), args);
      VCHECK(got == v, "setf(%s) does not return the value given", pt.c_str());
      VCHECK(fmt == keep, "setf changed its format string %s", keep.c_str());
      Node* c = m.get();
      for (size_t i = 0; i + 1 < args.size(); i++) { NodeP& x = c->kids[args[i].text]; if (!x) x = mk(); c = x.get(); }
      c->kids[args.back().text] = std::move(mv);
      kvtree* q = t;
      for (size_t i = 0; i + 1 < args.size(); i++) { q = kvtree_get(q, args[i].text.c_str()); VCHECK(q, "setf(%s): key %s is not at its place", pt.c_str(), show(args[i].text).c_str()); if (i < objs.size()) VCHECK(q == objs[i], "setf(%s) replaced the existing subtree of key %zu", pt.c_str(), i); }
      VCHECK(kvtree_elem_get(q, args.back().text.c_str()), "setf(%s): last key is missing", pt.c_str());
      VCHECK(kvtree_get(q, args.back().text.c_str()) == v, "setf(%s): value is not at the last key", pt.c_str());
      expect_tree(t, m.get(), ("after setf " + pt).c_str());
      count("setf");
    }
    {
      kvtree* got = call_f(false, t, nullptr, fmt.c_str(), args);
      kvtree* want = t;
      for (auto& a : args) { want = kvtree_get(want, a.text.c_str()); if (!want) break; }
      VCHECK(got == want, "getf(%s) finds %p, descending step by step finds %p", pt.c_str(), (void*)got, (void*)want);
      VCHECK(fmt == keep, "getf changed its format string %s", keep.c_str());
      if (r.pct(40)) expect_tree(t, m.get(), ("after getf " + pt).c_str());
      count("getf"); count(got ? "getf_found" : "getf_missing");
    }
    sig = mix(sig, hash64(pt));
    if (args.size() > 1) sample(pt.substr(0, 120));
    set_max("path_length", args.size());
    for (auto& a : args) set_max("key_text_length", a.text.size());
  }
  // literal typed calls, as users write them
  {
    kvtree* u = kvtree_new();
    int d = (int)r.next(); unsigned long lu = r.next(); long long lld = (long long)r.next(); unsigned x = (unsigned)r.next(); double f = (double)(int64_t)r.next() / 1024.0; void* p = (void*)r.next();
    unsigned long long llu = r.next();
    kvtree* v = kvtree_new();
    VCHECK(kvtree_setf(u, v, "%s %d %lu %lld %#x %f %p %llu %#lx", "top", d, lu, lld, x, f, p, llu, lu) == v, "mixed setf does not return its value");
    VCHECK(kvtree_getf(u, "%s %d %lu %lld %#x %f %p %llu %#lx", "top", d, lu, lld, x, f, p, llu, lu) == v, "mixed getf does not find the value");
    string ks[] = {"top", cfmt("%d", d), cfmt("%lu", lu), cfmt("%lld", lld), cfmt("%#x", x), cfmt("%f", f), cfmt("%p", p), cfmt("%llu", llu), cfmt("%#lx", lu)};
    kvtree* c = u;
    for (auto& k : ks) { VCHECK(kvtree_size(c) == 1, "mixed setf created %d keys on one level", kvtree_size(c)); c = kvtree_get(c, k.c_str()); VCHECK(c, "mixed setf: key %s not found", show(k).c_str()); }
    VCHECK(c == v, "mixed setf: value not at the end of the path");
    kvtree_delete(&u);
  }
  kvtree_delete(&t);
  nontrivial(sig);
}

// ------------------------------------------------------------ C05
enum Ty { TBYTES, TCRC, TINT, TUL, TSTR, TI64, TDBL, TPTR, NTY };
static const char* tyname[] = {"bytecount", "crc32", "int", "unsigned_long", "str", "int64", "double", "ptr"};
struct Val { Ty t; uint64_t u = 0; double d = 0; string s; };
static Val gen_val(Rng& r) {
  Val v; v.t = (Ty)r.below(NTY);
  uint64_t x = r.pct(45) ? edge64[r.below(sizeof edge64 / 8)] + r.below(3) - 1 : r.pct(30) ? 10000000000000ull + r.below(1000000) : r.next() >> r.below(64);
  if (r.pct(15)) x = 1ull << r.below(64);
  v.u = x;
  if (v.t == TCRC) v.u = (uint32_t)x;
  if (v.t == TINT) v.u = (uint64_t)(int64_t)(int32_t)x;
  if (v.t == TDBL) {
    switch (r.below(6)) {
      case 0: { double e[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 1e-7, 123456.789, 1e22, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, -4.9e-324, INFINITY, -INFINITY, NAN, 1e300, 0.5, 1e15 + 0.5, 3.141592653589793}; v.d = e[r.below(20)]; break; }
      case 1: { uint64_t b = r.next(); memcpy(&v.d, &b, 8); break; }
      case 2: v.d = (double)r.range(-1000000, 1000000) / 1000.0; break;
      case 3: v.d = (double)(int64_t)r.next(); break;
      case 4: { uint64_t b = r.next() >> 12; memcpy(&v.d, &b, 8); break; }   // subnormal
      default: v.d = (double)r.range(-100000, 100000); break;
    }
  }
  if (v.t == TSTR) { Shape s; v.s = gen_key(r, s); }
  return v;
}
static string val_text(const Val& v) { if (v.t == TDBL) return cfmt("double %.17g", v.d); if (v.t == TSTR) return "str " + show(v.s, 40); return cfmt("%s %#llx", tyname[v.t], (unsigned long long)v.u); }
static int set_val(kvtree* t, const char* k, const Val& v, const char* text = nullptr) {
  switch (v.t) {
    case TBYTES: return kvtree_util_set_bytecount(t, k, v.u);
    case TCRC: return kvtree_util_set_crc32(t, k, v.u);
    case TINT: return kvtree_util_set_int(t, k, (int)v.u);
    case TUL: return kvtree_util_set_unsigned_long(t, k, v.u);
    case TSTR: return kvtree_util_set_str(t, k, text ? text : v.s.c_str());
    case TI64: return kvtree_util_set_int64(t, k, (int64_t)v.u);
    case TDBL: return kvtree_util_set_double(t, k, v.d);
    default: return kvtree_util_set_ptr(t, k, (void*)v.u);
  }
}
static void get_val(const kvtree* t, const string& key, const Val& v, const char* where) {
  const char* k = key.c_str();
  string ctx = val_text(v) + " at key " + show(key, 30) + " " + where;
  auto U = [&](uint64_t got) { VCHECK(got == v.u, "%s: read back as %#llx", ctx.c_str(), (unsigned long long)got); };
  int rc = 0;
  static unsigned stale; static const int errs[] = {0, ERANGE, EINVAL, ENOMEM};
  errno = errs[stale++ % 4];       // whatever an earlier call left there
  switch (v.t) {
    case TBYTES: { unsigned long x = ~v.u; rc = kvtree_util_get_bytecount(t, k, &x); if (!rc) U(x); break; }
    case TCRC: { uLong x = ~v.u; rc = kvtree_util_get_crc32(t, k, &x); if (!rc) U(x); break; }
    case TINT: { int x = ~(int)v.u; rc = kvtree_util_get_int(t, k, &x); if (!rc) U((uint64_t)(int64_t)x); break; }
    case TUL: { unsigned long x = ~v.u; rc = kvtree_util_get_unsigned_long(t, k, &x); if (!rc) U(x); break; }
    case TI64: { int64_t x = (int64_t)~v.u; rc = kvtree_util_get_int64(t, k, &x); if (!rc) U((uint64_t)x); break; }
    case TPTR: { void* x = (void*)~v.u; rc = kvtree_util_get_ptr(t, k, &x); if (!rc) U((uint64_t)x); break; }
    case TSTR: { char* x = nullptr; rc = kvtree_util_get_str(t, k, &x); if (!rc) VCHECK(x && v.s == x, "%s: read back as %s", ctx.c_str(), x ? show(x).c_str() : "NULL"); break; }
    case TDBL: {
      double x = 42.4242; rc = kvtree_util_get_double(t, k, &x);
      if (!rc) { bool same = std::isnan(v.d) ? std::isnan(x) : (x == v.d && std::signbit(x) == std::signbit(v.d)); VCHECK(same, "%s: read back as %.17g", ctx.c_str(), x); }
      break;
    }
    default: break;
  }
  VCHECK(rc == KVTREE_SUCCESS, "%s: getter reports failure", ctx.c_str());
  count("values_read");
}
static void all_getters_fail(const kvtree* t, const char* k, const char* why) {
  unsigned long a = 0x5a5a5a5a5a5a5a5aul, b = a; uLong c = a; int i = 0x5a5a5a5a; int64_t l = 0x5a5a5a5a5a5a5a5all; double d = 1.25e77; void* p = (void*)a; char* s = (char*)a;
  VCHECK(kvtree_util_get_bytecount(t, k, &a) != KVTREE_SUCCESS && a == 0x5a5a5a5a5a5a5a5aul, "%s: get_bytecount succeeded or touched its output", why);
  VCHECK(kvtree_util_get_unsigned_long(t, k, &b) != KVTREE_SUCCESS && b == 0x5a5a5a5a5a5a5a5aul, "%s: get_unsigned_long succeeded or touched its output", why);
  VCHECK(kvtree_util_get_crc32(t, k, &c) != KVTREE_SUCCESS && c == 0x5a5a5a5a5a5a5a5aul, "%s: get_crc32 succeeded or touched its output", why);
  VCHECK(kvtree_util_get_int(t, k, &i) != KVTREE_SUCCESS && i == 0x5a5a5a5a, "%s: get_int succeeded or touched its output", why);
  VCHECK(kvtree_util_get_int64(t, k, &l) != KVTREE_SUCCESS && l == 0x5a5a5a5a5a5a5a5all, "%s: get_int64 succeeded or touched its output", why);
  VCHECK(kvtree_util_get_double(t, k, &d) != KVTREE_SUCCESS && d == 1.25e77, "%s: get_double succeeded or touched its output", why);
  VCHECK(kvtree_util_get_ptr(t, k, &p) != KVTREE_SUCCESS && p == (void*)0x5a5a5a5a5a5a5a5aul, "%s: get_ptr succeeded or touched its output", why);
  VCHECK(kvtree_util_get_str(t, k, &s) != KVTREE_SUCCESS && s == (char*)0x5a5a5a5a5a5a5a5aul, "%s: get_str succeeded or touched its output", why);
  count("failing_reads", 8);
}
// the calling thread's own locale, apart from that of the process
struct OwnLocale {
  locale_t mine = (locale_t)0, before;
  OwnLocale(Rng& r) {
    static const char* names[] = {"de_DE.utf8", "ps_AF.utf8", "C"};
    before = uselocale((locale_t)0);
    if (!r.pct(15)) return;
    mine = newlocale(LC_ALL_MASK, names[r.below(3)], (locale_t)0);
    if (mine) { uselocale(mine); count("thread_with_a_locale_of_its_own"); }
  }
  void kept(const string& what) const { VCHECK(uselocale((locale_t)0) == (mine ? mine : before), "%s: the thread's locale has changed", what.c_str()); }
  ~OwnLocale() { uselocale(before); if (mine) freelocale(mine); }
};
static void c05(Rng& r, uint64_t) {
  OwnLocale own(r);
  Shape s;
  NodeP base = gen_tree(r, Shape{12, 3, 15, false, false});
  kvtree* t = build(r, base.get());
  vector<string> pool;
  while (pool.size() < 5) { string k = gen_key(r, s); if (k.size() <= 1023) pool.push_back(k); }
  std::map<string, Val> vals;
  uint64_t sig = 0;
  int n = 3 + r.below(14);
  for (int i = 0; i < n; i++) {
    string k = r.pick(pool);
    Val v = gen_val(r);
    // untouched neighbours keep their objects
    std::map<string, kvtree*> before;
    for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) before[kvtree_elem_key(e)] = kvtree_elem_hash(e);
    // key and text may be those found in the tree
    const char *ka = k.c_str(), *text = nullptr;
    if (before.count(k) && r.pct(30)) { ka = kvtree_elem_key(kvtree_elem_get(t, ka)); count("keys_of_the_tree_itself"); }
    if (v.t == TSTR && r.pct(30)) {
      kvtree_elem* from = kvtree_elem_get(t, (r.pct(50) ? k : r.pick(pool)).c_str());
      kvtree_elem* val = kvtree_elem_first(kvtree_elem_hash(from));
      if (from && val) { text = kvtree_elem_key(val); v.s = text; count("values_of_the_tree_itself"); }
    }
    VCHECK(set_val(t, ka, v, text) == KVTREE_SUCCESS, "setter failed: %s", val_text(v).c_str());
    own.kept(val_text(v));
    base->kids.erase(k);
    vals[k] = v;
    kvtree* kt = kvtree_get(t, k.c_str());
    VCHECK(kt && kvtree_size(kt) == 1, "%s: key holds %d values after the setter", val_text(v).c_str(), kvtree_size(kt));
    size_t cnt = 0;
    for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
      string q = kvtree_elem_key(e); cnt++;
      if (q == k) continue;
      VCHECK(before.count(q) && before[q] == kvtree_elem_hash(e), "setting %s changed key %s", show(k).c_str(), show(q).c_str());
    }
    VCHECK(cnt == before.size() + (before.count(k) ? 0 : 1), "setting %s changed the number of keys from %zu to %zu", show(k).c_str(), before.size(), cnt);
    for (auto& x : vals) { get_val(t, x.first, x.second, "(same tree)"); own.kept("reading " + val_text(x.second)); }
    sig = mix(sig, hash64(val_text(v)) + hash64(k));
    sample(val_text(v) + " at " + show(k, 20));
  }
  // texts handed out belong to the tree: they stay while more are asked for
  {
    vector<std::pair<const char*, string>> held;
    auto ask = [&](const kvtree* from, const string& k, const string& want) {
      char* x = nullptr;
      VCHECK(kvtree_util_get_str(from, k.c_str(), &x) == KVTREE_SUCCESS && x, "get_str of %s fails", show(k).c_str());
      held.push_back({x, want});
    };
    kvtree* more = kvtree_new();
    std::map<string, string> texts;
    int nt = 2 + r.below(r.one_in(8) ? 60 : 10);
    for (int i = 0; i < nt; i++) { string k = gen_key(r, s), v = gen_key(r, s); if (k.size() > 1023) continue; VCHECK(kvtree_util_set_str(more, k.c_str(), v.c_str()) == KVTREE_SUCCESS, "set_str failed"); texts[k] = v; }
    for (int round = 0; round < 2; round++) {
      for (auto& x : texts) ask(more, x.first, x.second);
      for (auto& x : vals) if (x.second.t == TSTR) ask(t, x.first, x.second.s);
    }
    for (auto& x : held) VCHECK(x.second == x.first, "a text handed out by get_str has changed from %s to %s after reading others", show(x.second, 40).c_str(), show(x.first, 40).c_str());
    count("texts_held", held.size());
    kvtree_delete(&more);
  }
  // survive merge, pack and file, whatever locale the reader is in
  if (r.pct(25)) { some_locale(r, 70); count("read_in_another_locale"); }
  kvtree* m = kvtree_new();
  kvtree_set_kv(m, "other", "x");
  for (auto& x : vals) if (r.pct(20) && x.first != "other") kvtree_set(m, x.first.c_str(), nullptr);
  if (!vals.count("other")) { VCHECK(kvtree_merge(m, t) == KVTREE_SUCCESS, "merge failed"); for (auto& x : vals) get_val(m, x.first, x.second, "(after merge)"); }
  kvtree_delete(&m);
  { string b = pack_bytes(t); kvtree* u = kvtree_new(); kvtree_unpack(b.data(), u); for (auto& x : vals) get_val(u, x.first, x.second, "(after pack and unpack)"); kvtree_delete(&u); }
  if (r.pct(25)) {
    string f = path_in_scratch("c05");
    bool lock = r.pct(40);
    int rc = lock ? kvtree_write_with_lock(f.c_str(), t) : kvtree_write_file(f.c_str(), t);
    VCHECK(rc == KVTREE_SUCCESS, "write failed");
    kvtree* u = kvtree_new();
    rc = r.pct(40) ? kvtree_read_with_lock(f.c_str(), u) : kvtree_read_file(f.c_str(), u);
    VCHECK(rc == KVTREE_SUCCESS, "read failed");
    for (auto& x : vals) get_val(u, x.first, x.second, "(after file write and read)");
    kvtree_delete(&u); unlink(f.c_str()); count("file_trips");
  }
  kvtree_delete(&t);
  // getters that must fail
  kvtree* e = kvtree_new();
  string k = r.pick(pool);
  all_getters_fail(nullptr, k.c_str(), "absent tree");
  all_getters_fail(e, k.c_str(), "absent key in an empty tree");
  kvtree_util_set_int(e, (k + "z").c_str(), 5); kvtree_util_set_str(e, (k + "a").c_str(), "q");
  all_getters_fail(e, k.c_str(), "absent key");
  kvtree_set(e, k.c_str(), nullptr); all_getters_fail(e, k.c_str(), "key without a subtree");
  kvtree_set(e, k.c_str(), kvtree_new()); all_getters_fail(e, k.c_str(), "key with an empty subtree");
  double d = 1.25e77; void* p = (void*)0x77;
  kvtree_util_set_str(e, k.c_str(), r.pct(50) ? "1e999" : "-1e999");
  VCHECK(kvtree_util_get_double(e, k.c_str(), &d) != KVTREE_SUCCESS && d == 1.25e77, "get_double accepted a text out of range or touched its output (%g)", d);
  own.kept("reading a text out of range");
  kvtree_util_set_str(e, k.c_str(), "zzz");
  VCHECK(kvtree_util_get_ptr(e, k.c_str(), &p) != KVTREE_SUCCESS && p == (void*)0x77, "get_ptr accepted 'zzz' or touched its output");
  kvtree_delete(&e);
  nontrivial(sig);
}

// ------------------------------------------------------------ C06
static bool loose_int(const string& k, int* v) {   // integer keys incl. leading zeros, blanks and signs
  if (k.empty()) return false;
  char* e; errno = 0;
  long long x = strtoll(k.c_str(), &e, 10);
  if (*e || errno || x < INT_MIN || x > INT_MAX) return false;
  *v = (int)x; return true;
}
static void check_order(const kvtree* t, bool by_int, int dir, const char* when) {
  vector<string> o = key_order(t);
  for (size_t i = 1; i < o.size(); i++) {
    bool ok;
    if (by_int) { int a = 0, b = 0; loose_int(o[i - 1], &a); loose_int(o[i], &b); ok = dir == KVTREE_SORT_ASCENDING ? a <= b : a >= b; }
    else {
      int c = 0;   // bytes, unsigned
      const unsigned char *a = (const unsigned char*)o[i - 1].c_str(), *b = (const unsigned char*)o[i].c_str();
      while (*a && *a == *b) { a++; b++; }
      c = (int)*a - (int)*b;
      ok = dir == KVTREE_SORT_ASCENDING ? c <= 0 : c >= 0;
    }
    VCHECK(ok, "%s: %s order %s: %s comes before %s", when, by_int ? "integer" : "string", dir == KVTREE_SORT_ASCENDING ? "ascending" : "descending", show(o[i - 1]).c_str(), show(o[i]).c_str());
  }
}
static void c06(Rng& r, uint64_t idx) {
  NodeP m = mk();
  bool ints = r.pct(55);
  size_t n;
  if (idx % 5003 == 13) n = r.pct(40) ? 33000 + r.below(1000) : 9000 + r.below(4000);
  else if (idx % 60 == 13) n = 1000 + r.below(opts.thorough() ? 30000 : 4000); else n = r.below(r.pct(20) ? 300 : 30);
  if (ints) {
    unsigned style = r.below(5);
    while (m->kids.size() < n) {
      int v;
      switch (style) {
        case 0: v = (int)r.below(n * 3 + 2); break;
        case 1: v = (int)(uint32_t)r.next(); break;
        case 2: { int e[] = {INT_MIN, INT_MIN + 1, INT_MIN + 2, -2, -1, 0, 1, 2, INT_MAX - 2, INT_MAX - 1, INT_MAX}; v = r.pct(60) ? e[r.below(11)] : (int)(uint32_t)r.next(); break; }
        case 3: v = (int)r.range(-(int64_t)n - 5, (int64_t)n + 5); break;
        default: v = (int)(uint32_t)r.next() >> r.below(31); break;
      }
      string k = istr(v);
      if (r.one_in(40) && v >= 0) k = string(1 + r.below(3), '0') + k;
      m->kids[k] = r.pct(70) ? mk() : nullptr;
      if (style == 2 && r.one_in(20)) break;
    }
  } else {
    Shape s;
    auto pool = gen_pool(r, 40, s);
    while (m->kids.size() < n) {
      string k = r.pct(40) ? r.pick(pool) : gen_key(r, s);
      if (m->kids.count(k)) k += istr(r.below(100000));
      m->kids[k] = r.pct(70) ? mk() : nullptr;
    }
  }
  for (auto& k : m->kids) if (k.second && r.pct(n < 100 ? 40 : 3)) { NodeP e = gen_tree(r, Shape{5, 2, 20, false, r.pct(50)}); k.second = std::move(e); }
  kvtree* t = build(r, m.get());
  int rounds = n > 500 ? 1 : 1 + r.below(3);
  for (int q = 0; q < rounds; q++) {
    std::map<string, std::pair<kvtree_elem*, kvtree*>> before;
    for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) before[kvtree_elem_key(e)] = {e, kvtree_elem_hash(e)};
    bool by_int = ints && r.pct(70);
    int dir = r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING;
    vector<vector<string>> sub; if (n < 200) for (auto& b : before) sub.push_back(b.second.second ? key_order(b.second.second) : vector<string>());
    int rc = by_int ? kvtree_sort_int(t, dir) : kvtree_sort(t, dir);
    VCHECK(rc == KVTREE_SUCCESS, "sort reported failure");
    NodeP back = read_back(t, "after sort");
    string why;
    VCHECK(same_tree(back.get(), m.get(), &why), "sort changed the tree: %s", why.c_str());
    for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) VCHECK(before[kvtree_elem_key(e)].second == kvtree_elem_hash(e), "sort changed the subtree of key %s", show(kvtree_elem_key(e)).c_str());
    check_order(t, by_int, dir, "after sort");
    size_t si = 0; if (!sub.empty()) for (auto& b : before) { VCHECK((b.second.second ? key_order(b.second.second) : vector<string>()) == sub[si], "sort changed the order below key %s", show(b.first).c_str()); si++; }
    vector<string> order = key_order(t);
    // lookups, listing, packing leave the order alone
    for (int i = 0; i < 5 && !order.empty(); i++) V(kvtree_get(t, r.pick(order).c_str()));
    if (ints) {
      int num = -5; int* list = (int*)1;
      VCHECK(kvtree_list_int(t, &num, &list) == KVTREE_SUCCESS, "list_int reported failure");
      vector<int> want;
      for (auto& k : m->kids) { int v = 0; loose_int(k.first, &v); want.push_back(v); }
      std::sort(want.begin(), want.end());
      VCHECK(num == (int)want.size(), "list_int: %d entries for %zu keys", num, want.size());
      if (num == 0) VCHECK(!list || (vw_free(list), true), "list_int");
      else { for (int i = 0; i < num; i++) VCHECK(list[i] == want[i], "list_int: entry %d is %d, expected %d", i, list[i], want[i]); vw_free(list); }
      count("lists");
    }
    VCHECK(key_order(t) == order, "looking up or listing changed the order");
    // removing keeps the order of the rest
    if (order.size() > 2 && r.pct(60)) {
      string k = order[r.below(order.size())];
      kvtree_unset(t, k.c_str()); m->kids.erase(k);
      order.erase(std::find(order.begin(), order.end(), k));
      VCHECK(key_order(t) == order, "removing %s changed the order of the other keys", show(k).c_str());
    }
    count("sorts"); count("keys_sorted", order.size());
  }
  int num = -5; int* list = (int*)1;
  kvtree* e = kvtree_new();
  VCHECK(kvtree_list_int(r.pct(50) ? e : nullptr, &num, &list) == KVTREE_SUCCESS && num == 0, "list_int of an empty or absent tree: %d entries", num);
  if (list) vw_free(list);
  VCHECK(kvtree_sort(e, r.below(2)) == KVTREE_SUCCESS && kvtree_sort_int(e, r.below(2)) == KVTREE_SUCCESS, "sort of an empty tree failed");
  kvtree_delete(&e);
  kvtree_delete(&t);
  set_max("keys", n);
  if (n > 1) nontrivial(signature(m.get()));
  sample(to_text(m.get(), 120));
}

// ------------------------------------------------------------ C07
static void c07(Rng& r, uint64_t idx) {
  NodeP m = gen_any(r, idx % 50 == 3 ? (muted ? 1 : 2) : 0);
  kvtree* t = build(r, m.get());
  vector<string> order0 = key_order(t);
  size_t n = kvtree_pack_size(t);
  VCHECK(n == packed_size(m.get()), "pack_size says %zu, the format needs %zu", n, packed_size(m.get()));
  size_t off = r.below(9), guard = 64;
  string buf(off + n + guard, 0);
  for (size_t i = 0; i < buf.size(); i++) buf[i] = (char)(0xA5 ^ (i * 7));
  size_t w = kvtree_pack(&buf[off], t);
  VCHECK(w == n, "pack wrote %zu bytes, pack_size announced %zu", w, n);
  for (size_t i = 0; i < buf.size(); i++) if (i < off || i >= off + n) VCHECK(buf[i] == (char)(0xA5 ^ (i * 7)), "pack touched byte %zd relative to its buffer of %zu bytes", (ssize_t)i - (ssize_t)off, n);
  VCHECK(key_order(t) == order0, "pack changed the order of keys");
  if (idx % 3 == 0) expect_tree(t, m.get(), "packed tree");
  // every byte was written
  string b2(off + n, 0);
  for (size_t i = 0; i < b2.size(); i++) b2[i] = (char)(0x5A ^ (i * 11));
  kvtree_pack(&b2[off], t);
  VCHECK(!memcmp(&b2[off], &buf[off], n), "packing twice gives different bytes");
  // unpack from a block that ends exactly with the data, preceded by a random shift
  char* blk = (char*)malloc(off + n);
  memcpy(blk + off, &buf[off], n);
  kvtree* u = kvtree_new();
  size_t c = kvtree_unpack(blk + off, u);
  VCHECK(c == n, "unpack consumed %zu of %zu bytes", c, n);
  VCHECK(!memcmp(blk + off, &buf[off], n), "unpack changed its input");
  free(blk);
  expect_tree(u, m.get(), "unpacked tree");
  VCHECK(kvtree_pack_size(u) == n, "unpacked tree announces %zu bytes, the original %zu", kvtree_pack_size(u), n);
  if (r.pct(30)) {   // second generation
    string p2 = pack_bytes(u);
    kvtree* x = kvtree_new();
    VCHECK(kvtree_unpack(p2.data(), x) == n, "second unpack consumed a different amount");
    expect_tree(x, m.get(), "tree packed and unpacked twice");
    kvtree_delete(&x);
  }
  // keys found in unpacked trees
  int q = 0;
  for (auto& k : m->kids) { if (q++ > 20) break; VCHECK(kvtree_elem_get(u, k.first.c_str()), "unpacked tree: lookup of %s fails", show(k.first).c_str()); }
  kvtree_delete(&u); kvtree_delete(&t);
  if (n < 4000 && r.pct(25)) {   // a series of trees of the same size, one byte apart
    string b = b2.substr(off);
    for (int i = 0; i < 4; i++) {
      NodeP want; b = alike_bytes(r, b, &want);
      u = kvtree_new();
      VCHECK(kvtree_unpack(b.data(), u) == n, "unpack of a tree much like the one before consumed another amount");
      expect_tree(u, want.get(), "tree much like the one before, unpacked");
      string again = pack_bytes(u); size_t pos = 0; string err, why;
      NodeP got = dec_tree(again, pos, err);
      VCHECK(err.empty() && pos == again.size() && same_tree(got.get(), want.get(), &why), "tree much like the one before, packed: %s%s", err.c_str(), why.c_str());
      kvtree_delete(&u);
      count("series_of_similar_trees");
    }
  }
  if (r.pct(10)) {
    char z[8]; memset(z, 0x77, 8);
    VCHECK(kvtree_pack_size(nullptr) == 4 && kvtree_pack(z, nullptr) == 4 && !memcmp(z, "\0\0\0\0\x77\x77\x77\x77", 8), "an absent tree does not pack as an empty one");
    kvtree* x = kvtree_new();
    VCHECK(kvtree_unpack(z, x) == 4 && kvtree_size(x) == 0, "packed absent tree does not unpack as empty");
    kvtree_delete(&x);
  }
  count("bytes_packed", n); set_max("bytes", n); set_max("depth", depth(m.get())); set_max("top_keys", m->kids.size());
  if (count_nodes(m.get())) nontrivial(signature(m.get()));
  sample(to_text(m.get(), 120));
}

// ------------------------------------------------------------ C08
static void c08(Rng& r, uint64_t idx) {
  NodeP m = gen_any(r, idx % 50 == 5);
  string err, why;
  kvtree* t = build(r, m.get());
  string b = pack_bytes(t);
  size_t pos = 0;
  NodeP d = dec_tree(b, pos, err);
  VCHECK(err.empty() && pos == b.size(), "packed bytes do not decode: %s", err.c_str());
  VCHECK(same_tree(d.get(), m.get(), &why), "packed bytes decode to another tree: %s", why.c_str());
  void* pb = nullptr; size_t pn = 0;
  VCHECK(kvtree_write_persist(&pb, &pn, t) == KVTREE_SUCCESS && pb, "write_persist failed");
  string f((char*)pb, pn);
  vw_free(pb);
  d = dec_file(f, err);
  VCHECK(err.empty(), "persisted bytes are not in the documented format: %s", err.c_str());
  VCHECK(same_tree(d.get(), m.get(), &why), "persisted bytes decode to another tree: %s", why.c_str());
  string path = path_in_scratch("c08");
  if (idx % 2) {
    int rc;
    if (r.pct(50)) rc = kvtree_write_file(path.c_str(), t); else { unlink(path.c_str()); rc = kvtree_write_with_lock(path.c_str(), t); }
    VCHECK(rc == KVTREE_SUCCESS, "write failed");
    string fb = slurp(path);
    d = dec_file(fb, err);
    VCHECK(err.empty(), "written file is not in the documented format: %s", err.c_str());
    VCHECK(same_tree(d.get(), m.get(), &why), "written file decodes to another tree: %s", why.c_str());
    count("files_decoded");
  }
  if (b.size() < 4000 && r.pct(30)) for (int i = 0; i < 4; i++) {   // trees of the same size, one byte apart
    NodeP want; b = alike_bytes(r, b, &want);
    kvtree* x = kvtree_new();
    VCHECK(kvtree_unpack(b.data(), x) == b.size(), "unpack failed");
    VCHECK(kvtree_write_persist(&pb, &pn, x) == KVTREE_SUCCESS && pb, "write_persist failed");
    f.assign((char*)pb, pn);
    vw_free(pb);
    d = dec_file(f, err);
    VCHECK(err.empty(), "persisted bytes of a tree much like the one before are not in the documented format: %s", err.c_str());
    VCHECK(same_tree(d.get(), want.get(), &why), "persisted bytes of a tree much like the one before decode to another tree: %s", why.c_str());
    kvtree_delete(&x);
    count("series_of_similar_trees");
  }
  kvtree_delete(&t);
  // other direction
  string e = enc_tree(m.get(), &r);
  kvtree* u = kvtree_new();
  VCHECK(kvtree_unpack(e.data(), u) == e.size(), "unpack of independently encoded bytes consumed a different amount");
  expect_tree(u, m.get(), "independently encoded bytes");
  kvtree_delete(&u);
  bool crc = r.pct(60);
  spew(path, enc_file(m.get(), crc, &r));
  u = kvtree_new();
  unsigned how = r.below(3);
  int rc = -1;
  if (how == 0) rc = kvtree_read_file(path.c_str(), u);
  else if (how == 1) rc = kvtree_read_with_lock(path.c_str(), u);
  else {
    int fd = open(path.c_str(), O_RDONLY);
    wrap::adopt_fd(fd, path);
    ssize_t k = kvtree_read_fd(path.c_str(), fd, u);
    rc = k < 0 ? KVTREE_SUCCESS + 1 : KVTREE_SUCCESS;
    wrap::forget_fds();
    close(fd);
  }
  VCHECK(rc == KVTREE_SUCCESS, "a file laid out by an independent writer (%s checksum) is not read", crc ? "with" : "without");
  expect_tree(u, m.get(), crc ? "independently written file" : "independently written file without checksum");
  kvtree_delete(&u);
  {   // a record that announces another magic number, type or version is none of ours
    string b2 = enc_file(m.get(), false, &r);
    size_t at = r.below(8);
    b2[at] ^= (char)(1u << r.below(8));
    if (r.pct(30)) { b2[4 + r.below(4)] = (char)r.below(256); }
    if (b2.compare(0, 8, "\x95\x1f\xc3\xf5\0\1\0\1", 8)) {
      if (r.pct(60)) { b2[19] |= 1; uint64_t sz = b2.size() + 4; for (int i = 0; i < 8; i++) b2[8 + i] = (char)(sz >> (56 - 8 * i)); uint32_t c = crc32_ref(b2.data(), b2.size()); for (int i = 3; i >= 0; i--) b2 += (char)(c >> (8 * i)); }
      spew(path, b2);
      NodeP keep = r.pct(50) ? mk() : gen_tree(r, Shape{6, 3, 20, false, false});
      u = build(r, keep.get());
      rc = r.pct(50) ? kvtree_read_file(path.c_str(), u) : kvtree_read_with_lock(path.c_str(), u);
      VCHECK(rc != KVTREE_SUCCESS, "a file announcing another magic number, type or version (header %02x%02x%02x%02x %02x%02x %02x%02x) is read as a tree", (unsigned char)b2[0], (unsigned char)b2[1], (unsigned char)b2[2], (unsigned char)b2[3], (unsigned char)b2[4], (unsigned char)b2[5], (unsigned char)b2[6], (unsigned char)b2[7]);
      expect_tree(u, keep.get(), "after refusing a foreign header");
      kvtree_delete(&u);
      count("foreign_headers_refused");
    }
  }
  unlink(path.c_str());
  count("bytes", f.size()); count(crc ? "foreign_files_crc" : "foreign_files_nocrc");
  if (count_nodes(m.get())) nontrivial(signature(m.get()));
  sample(to_text(m.get(), 120));
}

// ------------------------------------------------------------ C18
struct Capture {
  int saved = -1, mem = -1;
  Capture() {
    fflush(stdout);
    saved = dup(1);
    mem = memfd_create("cap", 0);
    if (saved < 0 || mem < 0) die("capture");
    dup2(mem, 1);
  }
  string done() {
    fflush(stdout);
    dup2(saved, 1); close(saved);
    off_t n = lseek(mem, 0, SEEK_END);
    string o(n, 0);
    if (n && pread(mem, &o[0], n, 0) != n) die("capture read");
    close(mem);
    return o;
  }
};
// expected pieces in order; optional pieces may be left out
struct Piece { string s; bool optional; };
static void expect_print(const kvtree* t, int ind, int mode, vector<Piece>& out) {
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    const kvtree* sub = kvtree_elem_hash(e);
    string pad(ind + 2, ' ');
    if (mode == KVTREE_PRINT_KEYVAL && sub && kvtree_size(sub) == 1 && kvtree_size(kvtree_elem_hash(kvtree_elem_first(sub))) == 0) {
      out.push_back({pad + kvtree_elem_key(e) + " = " + kvtree_elem_key(kvtree_elem_first(sub)) + "\n", false});
      continue;
    }
    out.push_back({pad + kvtree_elem_key(e) + "\n", false});
    if (!sub) out.push_back({pad + "NULL LIST\n", true});
    else expect_print(sub, ind + 2, mode, out);
  }
}
static void match_print(const string& got, const vector<Piece>& want, const char* what) {
  std::set<size_t> at = {0};
  size_t furthest = 0;
  for (auto& p : want) {
    std::set<size_t> nx;
    for (size_t a : at) {
      if (got.compare(a, p.s.size(), p.s) == 0) nx.insert(a + p.s.size());
      if (p.optional) nx.insert(a);
    }
    if (nx.empty()) fail("%s: at byte %zu expected line %s, found %s", what, *at.rbegin(), show(p.s).c_str(), show(got.substr(*at.rbegin(), p.s.size() + 10)).c_str());
    furthest = std::max(furthest, *nx.rbegin());
    at.swap(nx);
  }
  VCHECK(at.count(got.size()), "%s: extra output after byte %zu: %s", what, furthest, show(got.substr(furthest)).c_str());
}
static string run_cli(const vector<string>& args, int* code) {
  int mem = memfd_create("cli", 0);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    dup2(mem, 1);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0);
    int er = open(path_in_scratch("cli.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(er, 2);
    vector<char*> av; av.push_back((char*)opts.cli.c_str());
    for (auto& a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1", 1);
    execv(opts.cli.c_str(), av.data());
    _exit(71);
  }
  int st; waitpid(p, &st, 0);
  *code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  if (*code == 71) die("cannot run %s", opts.cli.c_str());
  if (*code >= 90) mem_fail("kvtree_print ended with %d: %s", *code, slurp(path_in_scratch("cli.err")).substr(0, 800).c_str());
  off_t n = lseek(mem, 0, SEEK_END);
  string o(n, 0);
  if (n && pread(mem, &o[0], n, 0) != n) die("cli read");
  close(mem);
  return o;
}
static void c18(Rng& r, uint64_t idx) {
  NodeP m = idx % 40 == 9 ? gen_deep(r, 200 + r.below(1500)) : gen_any(r, false);
  if (r.pct(40)) { // more key = value shapes
    for (int i = 0; i < 6; i++) { NodeP& x = m->kids["kv" + istr(r.below(6))]; x = mk(); NodeP& y = x->kids[gen_key(r, Shape())]; if (r.pct(70)) y = r.pct(50) ? mk() : nullptr; else { y = mk(); y->kids["deep"] = r.pct(50) ? mk() : nullptr; } if (r.pct(15)) x->kids["second"] = mk(); }
  }
  kvtree* t = build(r, m.get());
  int ind = r.pct(50) ? 0 : (int)r.below(r.pct(20) ? 2000 : 40);
  unsigned how = r.below(3);
  int mode = how == 1 ? KVTREE_PRINT_KEYVAL : KVTREE_PRINT_TREE;
  string before = pack_bytes(t);
  vector<Piece> want;
  expect_print(t, ind, mode, want);
  Capture c;
  int rc = how == 2 ? kvtree_print(t, ind) : kvtree_print_mode(t, ind, mode);
  string out = c.done();
  VCHECK(rc == KVTREE_SUCCESS, "print reported failure");
  match_print(out, want, mode == KVTREE_PRINT_TREE ? "tree mode" : "key=value mode");
  VCHECK(pack_bytes(t) == before, "printing changed the tree");
  count("lines", want.size()); set_max("depth", depth(m.get()));
  if (idx % 4 == 0 && !opts.cli.empty()) {
    string f = path_in_scratch(r.pct(10) ? "c18 with space" : "c18");
    if (kvtree_write_file(f.c_str(), t) != KVTREE_SUCCESS) fail("write failed");
    bool readable = true;
    unsigned k = r.below(12);
    string target = f;
    if (k == 0) { target = path_in_scratch("c18-missing"); readable = false; }
    else if (k == 1) { string d = slurp(f); d[r.below(d.size())] ^= 1 << r.below(8); spew(f, d); readable = false; }
    else if (k == 2) { string d = slurp(f); d.resize(1 + r.below(d.size() - 1)); spew(f, d); readable = false; }
    else if (k == 3) spew(f, "");
    kvtree* u = kvtree_new();
    int rrc = kvtree_read_file(target.c_str(), u);
    // the crc flag bit may be cleared by the damage and still be told apart by length
    if (readable != (rrc == KVTREE_SUCCESS)) { if (readable) fail("read failed"); readable = true; }
    vector<string> args;
    bool valid = true; int pm = KVTREE_PRINT_TREE;
    switch (r.below(9)) {
      case 0: args = {target}; break;
      case 1: args = {"-m", "tree", target}; break;
      case 2: args = {"-m", "keyval", target}; pm = KVTREE_PRINT_KEYVAL; break;
      case 3: args = {"--mode=keyval", target}; pm = KVTREE_PRINT_KEYVAL; break;
      case 4: args = {"--mode", "keyval", target}; pm = KVTREE_PRINT_KEYVAL; break;
      case 5: args = {"-m", r.pct(50) ? "treee" : "", target}; valid = false; break;
      case 6: if (r.pct(50)) args = {}; else args = {target, target}; valid = false; break;
      case 7: args = {r.pct(50) ? "-z" : "--nope", target}; valid = false; break;
      default: args = {target}; break;
    }
    int code;
    string got = run_cli(args, &code);
    string al; for (auto& a : args) al += a + " ";
    if (valid && readable) {
      Capture cc; kvtree_print_mode(u, 0, pm); string same = cc.done();
      VCHECK(code == 0, "kvtree_print %s: exit %d for a readable file", al.c_str(), code);
      VCHECK(got == same, "kvtree_print %s: output differs from printing the tree read: %s vs %s", al.c_str(), show(got, 100).c_str(), show(same, 100).c_str());
    } else VCHECK(code != 0 && code < 90, "kvtree_print %s: exit %d though the %s", al.c_str(), code, valid ? "file cannot be read" : "arguments are wrong");
    kvtree_delete(&u);
    unlink(f.c_str());
    count("cli_runs"); count(valid && readable ? "cli_ok" : "cli_refused");
  }
  kvtree_delete(&t);
  if (count_nodes(m.get())) nontrivial(mix(signature(m.get()), ind * 4 + how));
  sample(to_text(m.get(), 100));
}

// ------------------------------------------------------------ C27
static void c27(Rng& r, uint64_t idx) {
  Shape s;
  string k, v;
  do k = gen_key(r, s); while (k.size() > 1000);
  do v = gen_key(r, s); while (v.size() > 1000);
  const char *kc = k.c_str(), *vc = v.c_str();
  int iv = (int)r.next();
  kvtree* none = nullptr;
  // reading and clearing
  VCHECK(kvtree_delete(&none) == KVTREE_SUCCESS && !none, "delete of an absent tree");
  VCHECK(kvtree_delete(nullptr) == KVTREE_SUCCESS, "delete(NULL)");
  VCHECK(kvtree_size(nullptr) == 0, "size of an absent tree");
  VCHECK(!kvtree_get(nullptr, kc), "get from an absent tree");
  VCHECK(!kvtree_extract(nullptr, kc), "extract from an absent tree");
  VCHECK(kvtree_unset(nullptr, kc) == KVTREE_SUCCESS, "unset in an absent tree");
  VCHECK(kvtree_unset_all(nullptr) == KVTREE_SUCCESS, "unset_all of an absent tree");
  VCHECK(kvtree_unset_kv(nullptr, kc, vc) == KVTREE_SUCCESS, "unset_kv in an absent tree");
  VCHECK(kvtree_unset_kv_int(nullptr, kc, iv) == KVTREE_SUCCESS, "unset_kv_int in an absent tree");
  VCHECK(!kvtree_get_kv(nullptr, kc, vc) && !kvtree_get_kv_int(nullptr, kc, iv), "get_kv from an absent tree");
  VCHECK(!kvtree_getf(nullptr, "%s %d", kc, iv), "getf from an absent tree");
  VCHECK(!kvtree_elem_first(nullptr) && !kvtree_elem_next(nullptr) && !kvtree_elem_key(nullptr) && !kvtree_elem_hash(nullptr) && kvtree_elem_key_int(nullptr) == 0, "element accessors without an element");
  VCHECK(!kvtree_elem_get(nullptr, kc) && !kvtree_elem_get_first_val(nullptr, kc) && !kvtree_get_val(nullptr, kc), "element lookups in an absent tree");
  VCHECK(!kvtree_elem_extract(nullptr, kc) && !kvtree_elem_extract_int(nullptr, iv), "element extraction from an absent tree");
  VCHECK(kvtree_sort(nullptr, r.below(2)) == KVTREE_SUCCESS && kvtree_sort_int(nullptr, r.below(2)) == KVTREE_SUCCESS, "sort of an absent tree");
  int n = 77; int* l = &n;
  VCHECK(kvtree_list_int(nullptr, &n, &l) == KVTREE_SUCCESS && n == 0, "list_int of an absent tree");
  if (l && l != &n) vw_free(l);
  all_getters_fail(nullptr, kc, "absent tree");
  // setting
  kvtree* val = kvtree_new();
  kvtree_set_kv(val, "inside", vc);
  VCHECK(!kvtree_set(nullptr, kc, val), "set into an absent tree returns something");
  VCHECK(!kvtree_setf(nullptr, val, "%s %s", kc, vc), "setf into an absent tree returns something");
  VCHECK(kvtree_get_kv(val, "inside", vc), "setting into an absent tree consumed the value");
  kvtree_delete(&val);
  VCHECK(!kvtree_set_kv(nullptr, kc, vc) && !kvtree_set_kv_int(nullptr, kc, iv), "set_kv into an absent tree returns something");
  kvtree_util_set_bytecount(nullptr, kc, 1); kvtree_util_set_crc32(nullptr, kc, 1); kvtree_util_set_int(nullptr, kc, iv); kvtree_util_set_unsigned_long(nullptr, kc, 1);
  kvtree_util_set_str(nullptr, kc, vc); kvtree_util_set_int64(nullptr, kc, iv); kvtree_util_set_double(nullptr, kc, 1.5); kvtree_util_set_ptr(nullptr, kc, &n);
  // merge, pack
  NodeP m = gen_tree(r, s);
  kvtree* t = build(r, m.get());
  string b = pack_bytes(t);
  VCHECK(kvtree_merge(t, nullptr) == KVTREE_SUCCESS && pack_bytes(t) == b, "merging an absent source");
  VCHECK(kvtree_merge(nullptr, t) != KVTREE_SUCCESS && pack_bytes(t) == b, "merging into an absent destination succeeds");
  char z[4] = {1, 1, 1, 1};
  VCHECK(kvtree_pack_size(nullptr) == 4 && kvtree_pack(z, nullptr) == 4 && !z[0] && !z[1] && !z[2] && !z[3], "absent tree does not pack as an empty one");
  kvtree* u = kvtree_new();
  VCHECK(kvtree_unpack(z, u) == 4 && kvtree_size(u) == 0, "packed absent tree");
  kvtree_delete(&u);
  VCHECK(kvtree_unpack(b.data(), nullptr) == 0, "unpack into an absent tree");
  // a missing subtree is an absent tree
  kvtree* h = kvtree_new();
  kvtree_set(h, kc, nullptr);
  VCHECK(kvtree_size(kvtree_get(h, kc)) == 0 && !kvtree_get_kv(h, kc, vc) && !kvtree_getf(h, "%s %s", kc, vc) && !kvtree_elem_first(kvtree_get(h, kc)), "key without a subtree");
  all_getters_fail(h, kc, "key without a subtree");
  if (r.pct(50)) VCHECK(kvtree_unset_kv(h, kc, vc) == KVTREE_SUCCESS, "unset_kv below a key without a subtree");
  else { kvtree* w = kvtree_set_kv(h, kc, vc); VCHECK(w && kvtree_get_kv(h, kc, vc) == w, "set_kv below a key without a subtree"); }
  kvtree_delete(&h);
  // file operations with something missing
  string f = path_in_scratch("c27");
  unlink(f.c_str());
  const char* fc = f.c_str();
  void* buf = nullptr; size_t bn = 0;
  VCHECK(kvtree_write_persist(&buf, &bn, nullptr) != KVTREE_SUCCESS && !buf, "write_persist of an absent tree succeeds");
  VCHECK(kvtree_write_persist(nullptr, &bn, t) != KVTREE_SUCCESS, "write_persist without a buffer succeeds");
  VCHECK(kvtree_write_file(fc, nullptr) != KVTREE_SUCCESS, "write_file of an absent tree succeeds");
  VCHECK(kvtree_write_file(nullptr, t) != KVTREE_SUCCESS, "write_file without a name succeeds");
  VCHECK(kvtree_read_file(fc, nullptr) != KVTREE_SUCCESS, "read_file without a tree succeeds");
  VCHECK(kvtree_read_file(nullptr, t) != KVTREE_SUCCESS, "read_file without a name succeeds");
  VCHECK(kvtree_read_with_lock(fc, nullptr) != KVTREE_SUCCESS, "read_with_lock without a tree succeeds");
  VCHECK(kvtree_read_with_lock(nullptr, t) != KVTREE_SUCCESS, "read_with_lock without a name succeeds");
  VCHECK(kvtree_write_with_lock(fc, nullptr) != KVTREE_SUCCESS, "write_with_lock of an absent tree succeeds");
  VCHECK(kvtree_write_with_lock(nullptr, t) != KVTREE_SUCCESS, "write_with_lock without a name succeeds");
  VCHECK(kvtree_lock_open_read(fc, nullptr, t) != KVTREE_SUCCESS, "lock_open_read without a descriptor succeeds");
  int fd = 12345;
  VCHECK(kvtree_lock_open_read(nullptr, &fd, t) != KVTREE_SUCCESS && fd < 0, "lock_open_read without a name: succeeds or leaves a descriptor");
  fd = 12345;
  VCHECK(kvtree_lock_open_read(fc, &fd, nullptr) != KVTREE_SUCCESS && fd < 0, "lock_open_read without a tree: succeeds or leaves a descriptor");
  VCHECK(kvtree_write_to_gather(fc, nullptr, 1) != KVTREE_SUCCESS && kvtree_write_to_gather(nullptr, t, 1) != KVTREE_SUCCESS, "write_to_gather without a tree or prefix succeeds");
  VCHECK(kvtree_write_fd(fc, -1, t) < 0 && kvtree_read_fd(fc, -1, t) < 0, "write_fd/read_fd without a descriptor succeed");
  VCHECK(kvtree_write_close_unlock(fc, nullptr, t) != KVTREE_SUCCESS, "write_close_unlock without a descriptor succeeds");
  fd = -1;
  VCHECK(kvtree_write_close_unlock(fc, &fd, t) != KVTREE_SUCCESS && fd == -1, "write_close_unlock on descriptor -1 succeeds");
  struct stat st;
  VCHECK(stat(fc, &st) != 0 && errno == ENOENT, "an operation that lacked an argument created the file");
  VCHECK(pack_bytes(t) == b, "an operation that lacked an argument changed the tree");
  VCHECK(wrap::open_fds() == 0, "an operation that lacked an argument left a descriptor open: %s", wrap::open_fds_text().c_str());
  // an existing file
  string content = enc_file(m.get());
  spew(f, content);
  VCHECK(kvtree_write_file(fc, nullptr) != KVTREE_SUCCESS && kvtree_write_with_lock(fc, nullptr) != KVTREE_SUCCESS && kvtree_read_file(fc, nullptr) != KVTREE_SUCCESS && kvtree_read_with_lock(fc, nullptr) != KVTREE_SUCCESS, "file operation without a tree succeeds");
  VCHECK(slurp(f) == content, "a write without a tree changed the file");
  {
    kvtree* x = kvtree_new(); kvtree_set_kv(x, "mine", "1");
    string xb = pack_bytes(x);
    int rf = open(fc, O_RDWR);
    wrap::adopt_fd(rf, f);
    VCHECK(kvtree_write_fd(nullptr, rf, t) < 0 && kvtree_write_fd(fc, rf, nullptr) < 0 && kvtree_read_fd(nullptr, rf, x) < 0 && kvtree_read_fd(fc, rf, nullptr) < 0, "write_fd/read_fd without a name or tree succeed");
    VCHECK(lseek(rf, 0, SEEK_CUR) == 0, "a failed call moved the file position");
    int keep = rf;
    VCHECK(kvtree_write_close_unlock(nullptr, &rf, t) != KVTREE_SUCCESS && rf == keep && kvtree_write_close_unlock(fc, &rf, nullptr) != KVTREE_SUCCESS && rf == keep, "write_close_unlock without a name or tree succeeds or drops the descriptor");
    VCHECK(fcntl(rf, F_GETFD) >= 0, "write_close_unlock without a name or tree closed the descriptor");
    close(rf); wrap::forget_fds();
    VCHECK(pack_bytes(x) == xb && slurp(f) == content, "a call that lacked an argument changed the tree or the file");
    VCHECK(kvtree_read_scatter_single(nullptr, x) != KVTREE_SUCCESS && pack_bytes(x) == xb, "read_scatter_single without a prefix");
    kvtree_delete(&x);
  }
  kvtree_delete(&t);
  unlink(fc);
  count("calls", 90);
  nontrivial(mix(hash64(k), hash64(v)));
  sample("key " + show(k, 20) + " value " + show(v, 20));
  (void)idx;
}

// ------------------------------------------------------------ C02: all of it, memory monitors only
static void extras(Rng& r) {
  NodeP m = gen_any(r, false);
  kvtree* t = build(r, m.get());
  kvtree_log(t, 1, r.below(5)); kvtree_log(nullptr, 1, 2);
  kvtree_print(nullptr, 3); kvtree_print_mode(nullptr, 3, KVTREE_PRINT_KEYVAL);
  for (auto& k : m->kids) { V(kvtree_get_val(t, k.first.c_str())); if (r.pct(20)) { int x; V(kvtree_util_get_int(t, k.first.c_str(), &x)); unsigned long u; V(kvtree_util_get_bytecount(t, k.first.c_str(), &u)); double d; V(kvtree_util_get_double(t, k.first.c_str(), &d)); } }
  kvtree_delete(&t);
  if (t) mem_fail("delete did not clear the caller's pointer");
}
static void c02(Rng& r, uint64_t idx) {
  static const CaseFn fns[] = {c01, c01, c03, c04, c05, c06, c07, c08, c18, c27};
  muted = true;
  uint64_t m = wrap::mark();
  uint64_t a0 = wrap::total_allocs();
  wrap::forget_fds();
  unsigned k = r.below(11);
  bool left = false;
  try { if (k < 10) fns[k](r, idx); else extras(r); } catch (CaseFail&) { left = true; }
  count("allocations_watched", wrap::total_allocs() - a0);
  if (left || case_failed) { count("cases_left_early"); wrap::forget_fds(); return; }
  size_t live = wrap::live_since(m);
  if (live) mem_fail("%zu blocks allocated by the library remain after everything was released (%s) [mix %u]", live, wrap::live_text(m).c_str(), k);
  if (wrap::open_fds()) mem_fail("descriptors opened by the library remain: %s", wrap::open_fds_text().c_str());
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"c01", c01}, {"c02", c02}, {"c03", c03}, {"c04", c04}, {"c05", c05}, {"c06", c06}, {"c07", c07}, {"c08", c08}, {"c18", c18}, {"c27", c27}});
}
