// Properties about files handled by one process: C09-C14, C17, C25, and their mix for C02.
#include "vh.h"
#include "wrap.h"
#include "sets.h"
#include "fsnap.h"
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/socket.h>
#include <thread>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <config.h>
using namespace vh;
using std::string;
using std::vector;

static string pack_bytes(const kvtree* t) {
  size_t n = kvtree_pack_size(t);
  string b(n, 0);
  kvtree_pack(&b[0], t);
  return b;
}

// ------------------------------------------------------------ operations
enum WKind { W_FILE, W_LOCK, W_BACK, NW };
enum RKind { R_FILE, R_LOCK, R_LOR, NR };
static const char* wname[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock"};
static const char* rname[] = {"read_file", "read_with_lock", "lock_open_read"};
static int do_write(int k, const string& path, kvtree* t) {
  if (k == W_FILE) return kvtree_write_file(path.c_str(), t);
  if (k == W_LOCK) return kvtree_write_with_lock(path.c_str(), t);
  int fd = 4711;
  kvtree* old = kvtree_new();
  int rc = kvtree_lock_open_read(path.c_str(), &fd, old);
  if (rc == KVTREE_SUCCESS) {
    if (fd < 0 || !wrap::is_open(fd)) { kvtree_delete(&old); fail("lock_open_read succeeded with descriptor %d", fd); }
    rc = kvtree_write_close_unlock(path.c_str(), &fd, t);
    if (fd >= 0) { kvtree_delete(&old); fail("write_close_unlock left descriptor %d in place", fd); }
  } else if (fd >= 0) { kvtree_delete(&old); fail("lock_open_read failed but handed out descriptor %d", fd); }
  kvtree_delete(&old);
  return rc;
}
// for lock_open_read the descriptor is closed after the episode, through *left
static int do_read(int k, const string& path, kvtree* t, int* left = nullptr) {
  if (left) *left = -1;
  if (k == R_FILE) return kvtree_read_file(path.c_str(), t);
  if (k == R_LOCK) return kvtree_read_with_lock(path.c_str(), t);
  int fd = 4711;
  int rc = kvtree_lock_open_read(path.c_str(), &fd, t);
  if (rc == KVTREE_SUCCESS) {
    if (fd < 0 || !wrap::is_open(fd)) fail("lock_open_read succeeded with descriptor %d", fd);
    if (left) *left = fd; else vw_close(fd);
  } else if (fd >= 0) fail("lock_open_read failed but handed out descriptor %d", fd);
  return rc;
}
static void no_fds(const char* what) {
  if (wrap::open_fds()) { string s = wrap::open_fds_text(); wrap::forget_fds(); mem_fail("%s: descriptors left open: %s", what, s.c_str()); throw CaseFail(); }
}
// bytes of a complete record of tree m
static void expect_file(const string& path, const Node* m, const string& what) {
  bool ok; string b = slurp(path, &ok), err, why;
  VCHECK(ok, "%s: file does not exist afterwards", what.c_str());
  NodeP d = dec_file(b, err);
  VCHECK(err.empty(), "%s: file is not one complete record: %s", what.c_str(), err.c_str());
  VCHECK(same_tree(d.get(), m, &why), "%s: file holds another tree: %s", what.c_str(), why.c_str());
}
static string file_name(Rng& r) {
  static const char* n[] = {"f", "file.kvtree", "with space", "%s%d", "a.b.c", "\xc3\xa9t\xc3\xa9", "-dash", "f~", "[x]*", ".hidden", "q'uote\"", "back\\slash", "tab\tx"};
  string p = path_in_scratch(r.one_in(12) ? string(200 + r.below(56), 'n') : string(n[r.below(sizeof n / sizeof *n)]));
  if (r.one_in(8)) {                           // up to the longest path there is
    static const size_t want[] = {255, 256, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095};
    size_t w = r.pct(50) ? want[r.below(10)] : r.below(4096), at = p.rfind('/');
    if (w > p.size()) { string fill; while (fill.size() + 2 <= w - p.size()) fill += "/."; if (fill.size() < w - p.size()) fill += "/"; p.insert(at, fill); }
    set_max("path_length", p.size());
  }
  return p;
}

// ------------------------------------------------------------ C09
// a process started without standard input, or one that holds many descriptors already: the library
// is handed descriptor 0, or one above 1023
struct FdWorld {
  int in = -1; vector<int> held;
  FdWorld(Rng& r) {
    if (r.pct(8)) { in = fcntl(0, F_DUPFD_CLOEXEC, 100); if (in >= 0) { close(0); count("without_standard_input"); } }
    else if (r.pct(2)) {
      struct rlimit l;
      if (getrlimit(RLIMIT_NOFILE, &l)) return;
      if (l.rlim_cur < 2000) { l.rlim_cur = l.rlim_max < 2000 ? l.rlim_max : 2000; setrlimit(RLIMIT_NOFILE, &l); }
      for (int i = 0; i < 1100; i++) { int f = open("/dev/null", O_RDONLY | O_CLOEXEC); if (f < 0) break; held.push_back(f); }
      count("many_descriptors_held");
    }
  }
  ~FdWorld() { if (in >= 0) { dup2(in, 0); close(in); } for (int f : held) close(f); }
};
static void c09(Rng& r, uint64_t idx) {
  string path = file_name(r);
  unlink(path.c_str());
  FdWorld world(r);
#ifdef VERIF_PLAIN
  const bool widest = opts.thorough() && idx == 17;    // merging is quadratic
#else
  const bool widest = false;
#endif
  NodeP m = widest ? gen_wide(r, 65530 + r.below(20), 1) : gen_any(r, idx % 60 == 17), old;
  unsigned prev = r.below(9);
  int wk = r.below(NW);
  string what = string(wname[wk]) + " over ";
  string before;
  switch (prev) {
    case 0: what += "nothing"; break;
    case 1: spew(path, ""); what += "an empty file"; break;
    case 2: case 3: old = gen_any(r, false); what += "another tree"; before = enc_file(old.get()); break;
    case 4: { old = gen_wide(r, 50 + count_nodes(m.get()), 2); old->kids[string(packed_size(m.get()) + r.below(5000), 'o')] = mk(); what += "a larger tree"; before = enc_file(old.get()); break; }
    case 5: old = clone(m.get()); old->kids["one more key"] = mk(); what += "a slightly larger tree"; before = enc_file(old.get()); break;
    case 6: case 7: what += "a record of the same tree"; break;       // below
    default: if (wk == W_BACK) { spew(path, ""); what += "an empty file"; prev = 1; } else { string g(r.below(3 * packed_size(m.get()) + 100), 0); for (char& c : g) c = (char)r.next(); before = g; what += "garbage"; } break;
  }
  if (!before.empty()) spew(path, before);
  if (r.pct(30) && old) { // previous version written by the library itself
    unlink(path.c_str());
    kvtree* o = build(r, old.get());
    int k2 = r.below(NW);
    VCHECK(do_write(k2, path, o) == KVTREE_SUCCESS, "%s failed", wname[k2]);
    kvtree_delete(&o);
    expect_file(path, old.get(), wname[k2]);
  }
  kvtree* t = build(r, m.get());
  string tb = pack_bytes(t);
  if (prev == 6 || prev == 7) {
    // the very same tree already, but its record has been damaged, or is not one this library writes
    VCHECK(do_write(r.below(2), path, t) == KVTREE_SUCCESS, "write failed");
    before = r.pct(70) ? slurp(path) : enc_file(m.get(), r.pct(50), &r);
    if (wk != W_BACK) {
      what += ", damaged";
      size_t at = r.pct(70) && before.size() > 30 ? 20 + r.below(before.size() - 24) : r.below(before.size());
      before[at] ^= (char)(1 << r.below(8));
      if (r.pct(20)) before += string(1 + r.below(40), 'x');
      else if (r.pct(20)) before.insert(0, before.substr(0, 20));
    }
    spew(path, before);
    wrap::clear_dirty();
  }
  wrap::begin();
  int rc = do_write(wk, path, t);
  wrap::end();
  VCHECK(rc == KVTREE_SUCCESS, "%s reported failure", what.c_str());
  VCHECK(pack_bytes(t) == tb, "%s changed the tree", what.c_str());
  no_fds(what.c_str());
  expect_file(path, m.get(), what);
  string fb = slurp(path);
  for (int rk = 0; rk < NR; rk++) {
    NodeP mine = r.pct(30) ? mk() : gen_tree(r, Shape{10, 4, 15, false, false});
    if (r.pct(30) && !m->kids.empty()) mine->kids[m->kids.begin()->first] = nullptr;
    kvtree* u = build(r, mine.get());
    std::map<string, kvtree*> kept;
    for (kvtree_elem* e = kvtree_elem_first(u); e; e = kvtree_elem_next(e)) if (kvtree_elem_hash(e)) kept[kvtree_elem_key(e)] = kvtree_elem_hash(e);
    string w2 = what + ", then " + rname[rk];
    wrap::begin();
    rc = do_read(rk, path, u);
    wrap::end();
    VCHECK(rc == KVTREE_SUCCESS, "%s: read failed", w2.c_str());
    no_fds(w2.c_str());
    merge_into(mine.get(), m.get());
    expect_tree(u, mine.get(), w2.c_str());
    for (auto& k : kept) VCHECK(kvtree_get(u, k.first.c_str()) == k.second, "%s: the read replaced what the caller's tree held at %s", w2.c_str(), show(k.first).c_str());
    kvtree_delete(&u);
  }
  VCHECK(slurp(path) == fb, "%s: reading changed the file", what.c_str());
  { // through a caller's descriptor
    int fd = open(path.c_str(), O_RDONLY);
    wrap::adopt_fd(fd, path);
    kvtree* u = kvtree_new();
    ssize_t n = kvtree_read_fd(path.c_str(), fd, u);
    VCHECK(n == (ssize_t)fb.size(), "read_fd returned %zd for a file of %zu bytes", n, fb.size());
    expect_tree(u, m.get(), "read_fd");
    wrap::forget_fds(); close(fd);
    kvtree_delete(&u);
    string p2 = path_in_scratch("other.fd");
    fd = open(p2.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    wrap::adopt_fd(fd, p2);
    n = kvtree_write_fd(p2.c_str(), fd, t);
    wrap::forget_fds(); close(fd);
    VCHECK(n == (ssize_t)fb.size(), "write_fd returned %zd, the record has %zu bytes", n, fb.size());
    expect_file(p2, m.get(), "write_fd");
    unlink(p2.c_str());
  }
  if (tb.size() < 4000 && r.pct(25)) {   // a series of trees of the same size, one byte apart
    string b = tb, p2 = r.pct(60) ? path : path_in_scratch("other.n");
    for (int i = 0; i < 4; i++) {
      NodeP want; b = alike_bytes(r, b, &want);
      kvtree* x = kvtree_new();
      VCHECK(kvtree_unpack(b.data(), x) == b.size(), "unpack failed");
      int k = r.below(NW), q = r.below(NR);
      if (k == W_BACK && p2 != path && i == 0) k = W_FILE;
      VCHECK(do_write(k, p2, x) == KVTREE_SUCCESS, "%s of a tree much like the one before failed", wname[k]);
      expect_file(p2, want.get(), string(wname[k]) + " of a tree much like the one before");
      kvtree_delete(&x);
      x = kvtree_new();
      VCHECK(do_read(q, p2, x) == KVTREE_SUCCESS, "%s of a tree much like the one before failed", rname[q]);
      expect_tree(x, want.get(), "tree much like the one before");
      kvtree_delete(&x);
      count("series_of_similar_trees");
    }
    if (p2 != path) unlink(p2.c_str());
  }
  kvtree_delete(&t);
  // empty and missing files
  if (r.pct(30)) {
    NodeP mine = gen_tree(r, Shape{10, 4, 15, false, false});
    kvtree* u = build(r, mine.get());
    string ub = pack_bytes(u);
    spew(path, "");
    for (int rk = 0; rk < NR; rk++) {
      VCHECK(do_read(rk, path, u) == KVTREE_SUCCESS, "%s of an empty file failed", rname[rk]);
      VCHECK(pack_bytes(u) == ub, "%s of an empty file changed the tree", rname[rk]);
      VCHECK(slurp(path).empty(), "%s of an empty file changed the file", rname[rk]);
    }
    unlink(path.c_str());
    VCHECK(do_read(R_FILE, path, u) != KVTREE_SUCCESS, "read_file of a missing file succeeded");
    VCHECK(pack_bytes(u) == ub, "read_file of a missing file changed the tree");
    struct stat st;
    VCHECK(stat(path.c_str(), &st) != 0, "read_file of a missing file created it");
    kvtree_delete(&u);
    no_fds("reads of empty and missing files");
    count("empty_and_missing");
  }
  unlink(path.c_str());
  count(wname[wk]); count("bytes", fb.size()); set_max("file_bytes", fb.size());
  if (count_nodes(m.get())) nontrivial(mix(signature(m.get()), prev * 8 + wk));
  sample(what + ": " + to_text(m.get(), 80));
}

// ------------------------------------------------------------ C10
static uint64_t damage_seen[8];
// beginning: tree whose bytes start the file; other: a version whose exact bytes may also stand there
static void read_damaged(Rng& r, const string& path, const string& bytes, const Node* orig, const string& desc, const string* other_bytes = nullptr, const Node* other = nullptr) {
  if (muted && !r.one_in(25)) return;    // C02 needs a sample only
  spew(path, bytes);
  int rk = r.below(NR);
  NodeP mine = mk();
  if (r.pct(50)) { mine->kids["mine"] = mk(); mine->kids["mine"]->kids["x"] = nullptr; }
  kvtree* u = build(r, mine.get());
  string ub = pack_bytes(u);
  int rc = do_read(rk, path, u);
  evaluated();
  if (rc != KVTREE_SUCCESS) {
    damage_seen[0]++;
    VCHECK(pack_bytes(u) == ub, "%s, %s failed but changed the caller's tree", desc.c_str(), rname[rk]);
  } else if (bytes.empty()) {
    VCHECK(pack_bytes(u) == ub, "%s: an empty file added something", desc.c_str());
  } else {
    damage_seen[1]++;
    NodeP got = read_back(u, desc.c_str());
    NodeP want = clone(mine.get()); merge_into(want.get(), orig);
    bool ok = same_tree(got.get(), want.get());
    if (!ok && other_bytes && *other_bytes == bytes) { want = clone(mine.get()); merge_into(want.get(), other); ok = same_tree(got.get(), want.get()); }
    VCHECK(ok, "%s: %s succeeds with a tree that was never written: %s instead of %s", desc.c_str(), rname[rk], to_text(got.get(), 150).c_str(), to_text(orig, 150).c_str());
  }
  kvtree_delete(&u);
  no_fds(desc.c_str());
}
static void c10(Rng& r, uint64_t idx) {
  string path = path_in_scratch("c10");
  NodeP m = r.pct(70) ? gen_tree(r, Shape{12, 4, 15, r.one_in(6), false}) : gen_any(r, false);
  kvtree* t = build(r, m.get());
  int wk = r.below(NW);
  unlink(path.c_str());
  VCHECK(do_write(wk, path, t) == KVTREE_SUCCESS, "write failed");
  string b = slurp(path);
  size_t n = b.size();
  if (n < 24) fail("file written has only %zu bytes", n);
  string ctx = "file of " + istr(n) + " bytes";
  bool small = n < 260;
  // truncations
  {
    vector<size_t> cuts;
    if (small) for (size_t i = 0; i < n; i++) cuts.push_back(i);
    else { for (size_t i = 0; i < 30; i++) cuts.push_back(i); for (int i = 0; i < 30; i++) cuts.push_back(r.below(n)); for (size_t i = 1; i < 12; i++) cuts.push_back(n - i); }
    for (size_t c : cuts) read_damaged(r, path, b.substr(0, c), m.get(), ctx + " truncated to " + istr(c));
    count("truncations", cuts.size());
  }
  // single bits, whole file
  {
    vector<size_t> bits;
    if (small && idx % 4 == 0) for (size_t i = 0; i < n * 8; i++) bits.push_back(i);
    else { for (size_t i = 0; i < 24 * 8; i++) bits.push_back(i); for (int i = 0; i < 60; i++) bits.push_back(r.below(n * 8)); for (size_t i = 1; i <= 40; i++) bits.push_back(n * 8 - i); }
    for (size_t i : bits) { string x = b; x[i / 8] ^= (char)(1 << (i % 8)); read_damaged(r, path, x, m.get(), ctx + " with bit " + istr(i) + " flipped"); }
    count("bit_flips", bits.size());
  }
  // bursts of 2..32 bits inside the checksummed bytes, in both bit orders
  for (int i = 0; i < 90; i++) {
    size_t total = (n - 4) * 8;
    size_t len = 2 + r.below(31);
    size_t at = r.pct(50) ? r.below(std::min<size_t>(total - len + 1, 24 * 8)) : r.below(total - len + 1);
    uint64_t pat = (r.next() & ((1ull << len) - 1)) | 1 | (1ull << (len - 1));
    bool msb = r.pct(50);
    string x = b;
    for (size_t k = 0; k < len; k++) if (pat >> k & 1) { size_t p = at + k; x[p / 8] ^= (char)(msb ? 0x80 >> (p % 8) : 1 << (p % 8)); }
    read_damaged(r, path, x, m.get(), ctx + " with a burst of " + istr(len) + " bits at bit " + istr(at));
    count("bursts");
  }
  // bursts that clear the checksum flag and make the root's key count another one
  {
    uint32_t cnt = ((uint32_t)(unsigned char)b[20] << 24) | ((uint32_t)(unsigned char)b[21] << 16) | ((uint32_t)(unsigned char)b[22] << 8) | (unsigned char)b[23];
    for (uint32_t c2 = 0; c2 < cnt + 3 && c2 < 12; c2++) {
      if (c2 == cnt) continue;
      string x = b; x[19] ^= 1;
      for (int i = 0; i < 4; i++) x[20 + i] = (char)(c2 >> (24 - 8 * i));
      uint32_t span = cnt ^ c2;
      // 32 bits at most from the flag on, bit 0 first: all but the topmost bit of the count's last byte; bit 7 first: 33 with its lowest
      if (span & 1) continue;                 // would be the 33rd bit, counted from the flag
      read_damaged(r, path, x, m.get(), ctx + " with the checksum flag cleared and the count " + istr(cnt) + " turned into " + istr(c2));
      count("bursts");
    }
  }
  // beginning of one version, ending of another
  for (int v = 0; v < 4; v++) {
    NodeP o;
    switch (r.below(4)) {
      case 0: o = gen_tree(r, Shape{12, 4, 15, false, false}); break;
      case 1: { o = clone(m.get()); string k = "v" + istr(r.below(9)); o->kids[k] = mk(); break; }
      case 2: { o = clone(m.get()); if (!o->kids.empty()) { auto it = o->kids.begin(); string k = it->first; if (!k.empty()) { k[0] = k[0] == 'Q' ? 'R' : 'Q'; NodeP sub = std::move(it->second); o->kids.erase(it); o->kids[k] = std::move(sub); } } break; }
      default: { o = clone(m.get()); NodeP& x = o->kids["same"]; x = mk(); x->kids[istr(r.below(10))] = mk(); break; }
    }
    kvtree* ot = build(r, o.get());
    string p2 = path + ".o";
    VCHECK(kvtree_write_file(p2.c_str(), ot) == KVTREE_SUCCESS, "write failed");
    kvtree_delete(&ot);
    string ob = slurp(p2);
    unlink(p2.c_str());
    for (int i = 0; i < 14; i++) {
      size_t cut = i == 0 ? n : r.below(std::max(n, ob.size()) + 1);
      // the new version stopped after cut bytes on top of the old one
      string x = b.substr(0, cut);
      if (ob.size() > cut) x += ob.substr(cut);
      read_damaged(r, path, x, m.get(), ctx + ", first " + istr(cut) + " bytes kept, rest from a version of " + istr(ob.size()) + " bytes", &ob, o.get());
      string y = ob.substr(0, cut);
      if (n > cut) y += b.substr(cut);
      read_damaged(r, path, y, o.get(), ctx + " tail after " + istr(cut) + " bytes of a version of " + istr(ob.size()) + " bytes", &b, m.get());
      count("splices", 2);
    }
  }
  // the checksum flag cleared together with nearby damage
  for (int i = 0; i < 20; i++) {
    string x = b; x[19] ^= 1;
    read_damaged(r, path, x, m.get(), ctx + " with the checksum flag cleared");
  }
  kvtree_delete(&t);
  unlink(path.c_str());
  count("damage_reported", damage_seen[0]); count("damage_harmless", damage_seen[1]); damage_seen[0] = damage_seen[1] = 0;
  nontrivial(mix(signature(m.get()), wk));
  sample(ctx + " " + to_text(m.get(), 90));
}

// ------------------------------------------------------------ C11
static void be32(string& o, uint32_t v) { for (int i = 3; i >= 0; i--) o += (char)(v >> (8 * i)); }
static void be64(string& o, uint64_t v) { be32(o, (uint32_t)(v >> 32)); be32(o, (uint32_t)v); }
static string data_bytes(Rng& r, int lvl) {
  // roughly a packed tree, with lies
  string o;
  static const uint32_t lies[] = {0, 1, 2, 3, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x01000000, 0x40000000, 1000000, 100000000};
  size_t real = lvl > 5 ? 0 : r.below(4);
  uint32_t cnt = r.pct(80) ? (uint32_t)real : r.pct(70) ? lies[r.below(16)] : (uint32_t)r.next();
  be32(o, cnt);
  for (size_t i = 0; i < real; i++) {
    unsigned k = r.below(20);
    if (k == 0) o += string(r.below(5000), 'k');             // no terminator
    else if (k == 1) o += '\0';
    else if (k == 2) { o += string(r.below(40), (char)(1 + r.below(255))); o += '\0'; }
    else { o += (char)('a' + r.below(3)); o += '\0'; }
    if (r.pct(3)) o += string(r.below(4), '\0');             // shift what follows
    o += data_bytes(r, lvl + 1);
    if (r.pct(2)) o.resize(o.size() - r.below(std::min<size_t>(o.size(), 5)));
  }
  return o;
}
static string header(uint32_t magic, uint16_t type, uint16_t ver, uint64_t size, uint32_t flags) {
  string o; be32(o, magic); o += (char)(type >> 8); o += (char)type; o += (char)(ver >> 8); o += (char)ver; be64(o, size); be32(o, flags); return o;
}
static string hostile(Rng& r, string& kind, string& whole) {
  static const uint64_t sizes[] = {0, 1, 4, 19, 20, 21, 22, 23, 24, 25, 28, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000014ull, 0x100000018ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xffffffffffffffecull, 1ull << 40, 1ull << 33, 3000000000ull};
  unsigned k = r.below(14);
  string o;
  if (k == 13) {
    // counts whose sum, in fewer bits, looks like what the data holds
    bool crc = r.pct(50);
    kind = crc ? "counts that add up to little, with a matching checksum" : "counts that add up to little";
    static const uint64_t mods[] = {1ull << 32, 1ull << 31, 1ull << 16, 1ull << 8, (1ull << 32) - 1};
    uint64_t m = mods[r.pct(60) ? 0 : r.below(5)];
    uint64_t c = 1 + r.below(6);                        // what the root claims
    uint64_t real = r.below((unsigned)c + 1);               // nodes that follow it in full
    string d; be32(d, (uint32_t)c);
    for (uint64_t i = 0; i < real; i++) { d += (char)('a' + i); d += '\0'; be32(d, i + 1 == real || r.one_in(4) ? (uint32_t)(m - (c - real) - r.below(2)) : 0); }
    if (r.one_in(3)) { for (unsigned i = r.below(4); i; i--) { d += (char)('a' + i); d += '\0'; be32(d, r.pct(50) ? 0 : (uint32_t)(m - i)); } }
    o = header(0x951fc3f5u, 1, 1, 20 + d.size() + (crc ? 4 : 0), crc) + d;
    if (crc) be32(o, crc32_ref(o.data(), o.size()));
    return o;
  }
  if (k == 12) {
    bool crc = r.pct(30);
    kind = crc ? "cut file" : "cut file without checksum";
    NodeP m = gen_tree(r, Shape{20, 5, 15, false, false});
    whole = enc_file(m.get(), crc, &r);
    o = whole.substr(0, r.pct(30) ? r.below(std::min<size_t>(whole.size(), 26)) : r.below(whole.size()));
    return o;
  }
  if (k == 0) { kind = "random bytes"; size_t n = r.below(400); for (size_t i = 0; i < n; i++) o += (char)r.next(); return o; }
  if (k == 1) { kind = "header with odd fields"; o = header(r.pct(90) ? 0x951fc3f5u : (uint32_t)r.next(), r.pct(85) ? 1 : (uint16_t)r.next(), r.pct(85) ? 1 : (uint16_t)r.next(), sizes[r.below(24)], r.pct(70) ? r.below(4) : (uint32_t)r.next()); o += data_bytes(r, 0); return o; }
  if (k == 2) { kind = "short file"; o = header(0x951fc3f5u, 1, 1, 20 + r.below(30), r.below(2)); o.resize(r.below(o.size() + 1)); return o; }
  if (k == 3) {
    kind = "nested chain"; size_t n = r.pct(50) ? r.below(200) : r.below(5000);
    string d;
    for (size_t i = 0; i < n; i++) { be32(d, 1); d += "d"; d += '\0'; }
    be32(d, r.pct(70) ? 0 : (uint32_t)r.below(3));
    bool crc = r.pct(50);
    o = header(0x951fc3f5u, 1, 1, 20 + d.size() + (crc ? 4 : 0), crc) + d;
    if (crc) be32(o, crc32_ref(o.data(), o.size()));
    return o;
  }
  if (k == 4) {
    kind = "many tiny elements"; uint32_t n = (uint32_t)r.below(3000);
    string d; be32(d, r.pct(70) ? n : n + (uint32_t)r.below(3) - 1);
    for (uint32_t i = 0; i < n; i++) { d += '\0'; be32(d, 0); }
    o = header(0x951fc3f5u, 1, 1, 20 + d.size(), 0) + d;
    return o;
  }
  if (k == 5 || k == 6) {
    kind = "mutated valid file";
    NodeP m = gen_tree(r, Shape{20, 5, 15, false, false});
    o = enc_file(m.get(), r.pct(50), &r);
    int c = 1 + r.below(6);
    for (int i = 0; i < c && !o.empty(); i++) {
      size_t p = r.pct(30) ? r.below(std::min<size_t>(o.size(), 24)) : r.below(o.size());
      switch (r.below(6)) {
        case 0: o[p] ^= (char)(1 << r.below(8)); break;
        case 1: o[p] = (char)r.next(); break;
        case 2: o.erase(p, 1 + r.below(8)); break;
        case 3: o.insert(p, string(1 + r.below(8), (char)r.below(3))); break;
        case 4: o[p] = (char)0xff; break;
        default: o[p] = 0; break;
      }
    }
    if (r.pct(50) && o.size() > 28) { // repair size and checksum
      string h = o.substr(0, 8), rest = o.substr(20);
      bool crc = r.pct(60);
      o = header(0x951fc3f5u, 1, 1, 20 + rest.size() + (crc ? 4 : 0), crc) + rest;
      if (crc) be32(o, crc32_ref(o.data(), o.size()));
      kind += " with repaired checksum";
    }
    return o;
  }
  // lying data with a correct checksum, or none
  string d = data_bytes(r, 0);
  bool crc = r.pct(60);
  uint64_t sz = 20 + d.size() + (crc ? 4 : 0);
  if (r.pct(15)) sz += r.below(9) - 4;
  o = header(0x951fc3f5u, 1, 1, sz, crc | (r.one_in(20) ? (uint32_t)r.next() & ~1u : 0)) + d;
  if (crc) { size_t upto = sz >= 4 && sz - 4 <= o.size() ? (size_t)sz - 4 : o.size(); uint32_t c = crc32_ref(o.data(), upto); o.resize(std::max<size_t>(upto, 20)); be32(o, c); }
  kind = crc ? "lying data with a matching checksum" : "lying data without checksum";
  if (r.one_in(6)) o += string(r.below(50), 't');
  return o;
}
static double cpu_s() { struct rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6; }
static void c11(Rng& r, uint64_t idx) {
  string path = path_in_scratch("c11");
  string kind;
  string whole;
  string b = hostile(r, kind, whole);
  spew(path, b);
  case_desc("C11 %s, %zu bytes", kind.c_str(), b.size());
  string err;
  for (int rk = 0; rk < NR; rk++) {
    NodeP mine = mk();
    mine->kids["mine"] = mk(); mine->kids["a"] = mk(); mine->kids["a"]->kids["y"] = mk();
    kvtree* u0 = build(r, mine.get());
    string ub0 = pack_bytes(u0);
    kvtree_delete(&u0);
    kvtree* u = kvtree_new();
    kvtree_unpack(ub0.data(), u);
    string ub = pack_bytes(u);
    uint64_t mark = wrap::mark();
    double c0 = cpu_s();
    int rc = do_read(rk, path, u);
    double dt = cpu_s() - c0;
    evaluated();
    VCHECK(dt < 60, "%s: %s of %zu bytes took %.0f s of CPU time", kind.c_str(), rname[rk], b.size(), dt);
    count(rc == KVTREE_SUCCESS ? "accepted" : "refused");
    if (rc != KVTREE_SUCCESS) {
      VCHECK(pack_bytes(u) == ub, "%s: %s failed but changed the caller's tree", kind.c_str(), rname[rk]);
      size_t live = wrap::live_since(mark);
      VCHECK(!live, "%s: %s failed and leaks %zu blocks (%s)", kind.c_str(), rname[rk], live, wrap::live_text(mark).c_str());
    } else {
      // what was there stays
      VCHECK(kvtree_get(u, "mine") && kvtree_getf(u, "%s %s", "a", "y"), "%s: %s succeeded but the caller's tree lost keys", kind.c_str(), rname[rk]);
    }
    VCHECK(slurp(path) == b, "%s: %s changed the file", kind.c_str(), rname[rk]);
    string first = pack_bytes(u);
    kvtree_delete(&u);
    // the outcome depends on the file alone, whatever fresh memory holds
    for (int f = 0; f < 2; f++) {
      string fill = f == 0 ? whole.empty() ? b : whole : string(1, r.pct(50) ? '\0' : (char)r.next());
      kvtree* v = kvtree_new();
      kvtree_unpack(ub0.data(), v);
      wrap::fill_allocs(&fill);
      int rc2 = do_read(rk, path, v);
      wrap::fill_allocs(nullptr);
      evaluated();
      string second = pack_bytes(v);
      kvtree_delete(&v);
      VCHECK(rc2 == rc, "%s: %s returns %d, but %d when fresh memory holds other data", kind.c_str(), rname[rk], rc, rc2);
      VCHECK(second == first, "%s: %s yields another tree when fresh memory holds other data", kind.c_str(), rname[rk]);
      count("reads_with_filled_memory");
    }
    no_fds(rname[rk]);
  }
  if (idx % 12 == 0 && !opts.cli.empty()) {
    fflush(stdout);
    string er = path_in_scratch("cli.err");
    const char* mode = r.pct(50) ? "tree" : "keyval";
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
      int e = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2);
      setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096", 1);
      alarm(300);
      execl(opts.cli.c_str(), opts.cli.c_str(), "-m", mode, path.c_str(), (char*)nullptr);
      _exit(71);
    }
    int st; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (code == 71) die("cannot run %s", opts.cli.c_str());
    VCHECK(code == 0 || code == 1, "%s: kvtree_print ended with %d: %s", kind.c_str(), code, slurp(er).substr(0, 700).c_str());
    count("cli_runs");
  }
  unlink(path.c_str());
  count("kind: " + kind);
  nontrivial(hash64(b));
  sample(kind + " " + show(b, 60));
}
// nesting so deep that recursion may run out of an ordinary stack (plain build only)
static void c11deep(Rng& r, uint64_t idx) {
  string path = path_in_scratch("c11deep");
  static const size_t depths[] = {500, 2000, 5000, 1000000};
  size_t n = depths[idx % 4];
  string d;
  for (size_t i = 0; i < n; i++) { be32(d, 1); d += "d"; d += '\0'; }
  be32(d, 0);
  bool crc = r.pct(50);
  string o = header(0x951fc3f5u, 1, 1, 20 + d.size() + (crc ? 4 : 0), crc) + d;
  if (crc) be32(o, crc32_ref(o.data(), o.size()));
  spew(path, o);
  int rk = r.below(NR);
  fflush(stdout);
  // the limit of the main stack counts from exec on, so run a fresh image
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {8u << 20, 8u << 20};
    setrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2);
    char self[4096]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
    if (k <= 0) _exit(71);
    self[k] = 0;
    execl(self, self, "--deep-child", istr(rk).c_str(), path.c_str(), (char*)nullptr);
    _exit(71);
  }
  int st; waitpid(p, &st, 0);
  unlink(path.c_str());
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 71)) die("cannot run the child");
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) <= 1;
  if (!ok && n == 1000000) finding("deep-nesting-1000000-levels", "%s of a file with 1000000 nested levels ends the process (%s %d): recursion exhausts the 8 MB stack", rname[rk], WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  else VCHECK(ok, "%s of a file with %zu nested levels ends the process (%s %d)", rname[rk], n, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  count("deep_files");
  nontrivial(mix(n, rk * 2 + crc));
}
static int deep_child(int rk, const char* path) {
  kvtree* t = kvtree_new();
  int rc = do_read(rk, path, t);
  kvtree_delete(&t);
  _exit(rc == KVTREE_SUCCESS ? 0 : 1);
}

// ------------------------------------------------------------ rank-file sets (single process)
enum OKind { O_WFILE, O_WLOCK, O_WBACK, O_RFILE, O_RLOCK, O_RLOR, O_WSET, O_RSET, NO };
static const char* oname[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock", "read_file", "read_with_lock", "lock_open_read", "write_to_gather", "read_scatter_single"};
static bool is_write(int k) { return k <= O_WBACK || k == O_WSET; }
struct Scene {
  int kind; string dir, path; NodeP m, prev; RankSet set; long epf = 0;
  kvtree* tree = nullptr;      // written tree, or the tree read into
  NodeP mine;                  // content of the tree read into
  void prepare(Rng& r) {       // file system state before the operation
    clean_dir(dir);
    if (kind == O_WSET || kind == O_RSET) set_epf(epf);
    if (kind == O_RSET) { kvtree* d = build(r, set.ranks.get()); if (kvtree_write_to_gather(path.c_str(), d, set.n) != KVTREE_SUCCESS) { kvtree_delete(&d); fail("write_to_gather failed"); } kvtree_delete(&d); }
    else if (!is_write(kind)) spew(path, enc_file(m.get()));
    else if (prev && kind != O_WSET) spew(path, enc_file(prev.get()));
    wrap::clear_dirty();
  }
  int run(int* left) {
    *left = -1;
    switch (kind) {
      case O_WFILE: case O_WLOCK: case O_WBACK: return do_write(kind, path, tree);
      case O_WSET: return kvtree_write_to_gather(path.c_str(), tree, set.n);
      case O_RSET: return kvtree_read_scatter_single(path.c_str(), tree);
      default: return do_read(kind - O_RFILE, path, tree, left);
    }
  }
  const Node* content() const { return kind == O_RSET || kind == O_WSET ? set.ranks.get() : m.get(); }
};
static bool lock_free(const string& path) {
  int fd = open(path.c_str(), O_RDWR);
  if (fd < 0) return true;
  bool free_;
#ifdef KVTREE_FILE_LOCK_USE_FLOCK
  free_ = flock(fd, LOCK_EX | LOCK_NB) == 0;
#else
  struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; l.l_whence = SEEK_SET;
  free_ = fcntl(fd, F_OFD_GETLK, &l) != 0 || l.l_type == F_UNLCK;
#endif
  close(fd);
  return free_;
}
static Scene make_scene(Rng& r, int kind) {
  Scene s;
  s.kind = kind;
  s.dir = path_in_scratch("d"); mkdir(s.dir.c_str(), 0755);
  s.path = s.dir + "/f";
  if (kind == O_WSET || kind == O_RSET) {
    s.set = gen_ranks(r, 1 + r.below(9), 6);
    s.epf = r.pct(30) ? 0 : 1 + r.below(4);
  } else {
    s.m = gen_tree(r, Shape{20, 4, 15, true, false});
    if (r.one_in(8)) s.m->kids[string(20000 + r.below(300000), 'L')] = mk();
    if (r.pct(60)) { s.prev = r.pct(50) ? gen_tree(r, Shape{8, 3, 15, false, false}) : clone(s.m.get()); if (r.pct(60)) s.prev->kids[string(r.below(4000), 'p')] = mk(); }
  }
  if (is_write(kind)) s.tree = build(r, s.content());
  else {
    s.mine = r.pct(50) ? mk() : gen_tree(r, Shape{6, 3, 15, false, false});
    s.tree = build(r, s.mine.get());
  }
  return s;
}
static void check_outcome(Scene& s, int rc, const string& what, bool must_succeed) {
  if (rc == KVTREE_SUCCESS) {
    if (s.kind == O_WSET) check_set_files(s.path, s.set, what);
    else if (is_write(s.kind)) expect_file(s.path, s.m.get(), what);
    else { NodeP w = clone(s.mine.get()); merge_into(w.get(), s.content()); expect_tree(s.tree, w.get(), what.c_str()); }
  } else {
    VCHECK(!must_succeed, "%s: reports failure", what.c_str());
    if (!is_write(s.kind)) {
      NodeP got = read_back(s.tree, what.c_str());
      NodeP w = clone(s.mine.get()); merge_into(w.get(), s.content());
      VCHECK(same_tree(got.get(), s.mine.get()) || same_tree(got.get(), w.get()), "%s: the failed read left part of the file in the caller's tree", what.c_str());
    }
  }
  if (is_write(s.kind)) expect_tree(s.tree, s.content(), (what + ": tree written").c_str());
  auto& c = wrap::ep().complaints;
  VCHECK(c.empty(), "%s: %s", what.c_str(), c.empty() ? "" : c[0].c_str());
}
static void c12(Rng& r, uint64_t idx) {
  // failures the file system itself produces
  if (idx % 25 == 3) {
    kvtree* t = kvtree_new(); kvtree_set_kv(t, "a", "b");
    string sub = path_in_scratch("sub"); mkdir(sub.c_str(), 0755);
    string plain = path_in_scratch("plain"); spew(plain, "x");
    vector<string> bad = {path_in_scratch("nodir") + "/f", sub, plain + "/f", path_in_scratch(string(300, 'n')), "/dev/full"};
    for (auto& b : bad) {
      for (int k = 0; k < NW; k++) {
        if (b == "/dev/full" && k != W_FILE) continue;
        VCHECK(do_write(k, b, t) != KVTREE_SUCCESS, "%s to %s reports success", wname[k], b.c_str());
        no_fds(wname[k]);
      }
      for (int k = 0; k < NR; k++) {
        if (b == "/dev/full") continue;
        string tb = pack_bytes(t);
        VCHECK(do_read(k, b, t) != KVTREE_SUCCESS, "%s of %s reports success", rname[k], b.c_str());
        VCHECK(pack_bytes(t) == tb, "%s of %s changed the tree", rname[k], b.c_str());
        no_fds(rname[k]);
      }
      count("real_failures", 6);
    }
    kvtree* d = kvtree_new(); kvtree_set_kv(d, "0", "x");
    VCHECK(kvtree_write_to_gather(bad[0].c_str(), d, 1) != KVTREE_SUCCESS, "write_to_gather into a missing directory reports success");
    VCHECK(kvtree_read_scatter_single(bad[0].c_str(), d) != KVTREE_SUCCESS, "read_scatter_single from a missing directory reports success");
    kvtree_delete(&d); kvtree_delete(&t);
    no_fds("real failures");
    rmdir(sub.c_str()); unlink(plain.c_str());
    nontrivial(idx);
    return;
  }
  int kind = r.below(NO);
  Scene s = make_scene(r, kind);
  // a run without faults tells what there is to break
  s.prepare(r);
  int left;
  wrap::begin(true);
  int rc = s.run(&left);
  wrap::end();
  vector<wrap::Rec> log = wrap::ep().log;
  if (left >= 0) vw_close(left);
  check_outcome(s, rc, string(oname[kind]) + " without faults", true);
  if (!is_write(kind)) { kvtree_delete(&s.tree); s.tree = build(r, s.mine.get()); }
  no_fds(oname[kind]);
  int rounds = 6;
  for (int q = 0; q < rounds; q++) {
    Faults f;
    f.rng = Rng(r.next());
    string what = oname[kind];
    bool must_fail = false, must_succeed = false;
    if (r.pct(40)) {
      f.transient = true; f.hard_left = r.below(4); f.p_soft = 5 + r.below(90);
      if (s.m && packed_size(s.m.get()) > 5000) f.p_soft = 5 + r.below(30);
      must_succeed = true;
      what += " with transient faults";
    } else {
      f.persistent = true;
      if (r.pct(25)) { f.transient = true; f.p_soft = 20; }
      const wrap::Rec& rec = log[r.below(log.size())];
      f.op = rec.op;
      static const int errs[] = {EIO, ENOSPC, EACCES, EDQUOT, EBADF, ENOMEM};
      f.err = errs[r.below(6)];
      uint64_t nth = 0, total = 0;
      for (auto& x : log) if (x.op == f.op) { if (&x == &rec) nth = total; total++; }
      f.from = nth;
      if (f.op == wrap::OPEN && r.pct(50)) f.only_path = rec.path;
      if (f.op == wrap::CLOSE) f.once = true;
      if (f.op == wrap::WRITE && r.one_in(8)) f.zero = true;
      f.partial = r.pct(35);
      must_fail = f.op == wrap::OPEN || f.op == wrap::LOCK || f.op == wrap::READ || f.op == wrap::WRITE || f.op == wrap::FTRUNC || f.op == wrap::CLOSE;
      what += " with " + string(wrap::op_names[f.op]) + " failing from the " + istr(nth + 1) + ". of " + istr(total) + " on (" + strerror(f.err) + ")" + (f.only_path.empty() ? "" : " for " + f.only_path);
    }
    s.prepare(r);
    case_desc("C12 %s", what.c_str());
    wrap::begin(true);
    wrap::ep().plan = std::ref(f);
    rc = s.run(&left);
    wrap::end();
    evaluated();
    // the read handed out its descriptor before the fault could matter
    if (must_fail && f.phits) VCHECK(rc != KVTREE_SUCCESS, "%s: reports success", what.c_str());
    if (left >= 0) vw_close(left);
    if (f.persistent && !f.phits) count("persistent_not_reached");
    check_outcome(s, rc, what, must_succeed);
    no_fds(what.c_str());
    count("faults_injected", f.hits);
    count(string(f.transient && !f.persistent ? "transient " : string("persistent ") + wrap::op_names[f.op] + " ") + oname[kind]);
    if (f.hits) nontrivial(mix(hash64(what), signature(s.content())));
    if (q == 0) sample(what);
    if (!is_write(kind)) { kvtree_delete(&s.tree); s.tree = build(r, s.mine.get()); }
    // a lock must not outlive the failed call
    VCHECK(lock_free(s.path), "%s: file is still locked", what.c_str());
  }
  kvtree_delete(&s.tree);
  clean_dir(s.dir);
  set_epf(0);
}
static void c13(Rng& r, uint64_t idx) {
  static const int kinds[] = {O_WFILE, O_WLOCK, O_WBACK, O_WSET};
  int kind = kinds[r.below(4)];
  Scene s = make_scene(r, kind);
  for (int q = 0; q < 5; q++) {
    Faults f; f.rng = Rng(r.next());
    string what = oname[kind];
    unsigned how = q == 0 ? 0 : r.below(4);
    if (how == 1) { f.transient = true; f.hard_left = r.below(4); f.p_soft = 5 + r.below(40); what += " with transient faults"; }
    if (how == 2) { f.persistent = true; f.op = wrap::FSYNC; static const int e[] = {EIO, ENOSPC, EDQUOT}; f.err = e[r.below(3)]; f.from = r.below(3); f.once = r.pct(50); what += " with fsync failing (" + string(strerror(f.err)) + ")"; }
    if (how == 3) { f.persistent = true; f.op = wrap::FSYNC; f.err = EINTR; f.once = true; f.from = r.below(2); what += " with fsync interrupted once"; }
    s.prepare(r);
    if (kind == O_WSET && r.pct(40)) { // an earlier set under the same prefix
      RankSet old = gen_ranks(r, 1 + r.below(12), 4);
      kvtree* d = build(r, old.ranks.get()); kvtree_write_to_gather(s.path.c_str(), d, old.n); kvtree_delete(&d); wrap::clear_dirty();
    }
    wrap::begin(true);
    wrap::ep().plan = std::ref(f);
    int left, rc = s.run(&left);
    wrap::end();
    evaluated();
    if (how == 2 && f.phits) VCHECK(rc != KVTREE_SUCCESS, "%s: reports success", what.c_str());
    if (how == 0) VCHECK(rc == KVTREE_SUCCESS, "%s: reports failure", what.c_str());
    if (rc == KVTREE_SUCCESS) {
      VCHECK(wrap::dirty_files() == 0, "%s: returned success with unflushed data in %s", what.c_str(), wrap::dirty_text().c_str());
      if (wrap::open_fds()) { string t = wrap::open_fds_text(); wrap::forget_fds(); fail("%s: returned success with %s still open", what.c_str(), t.c_str()); }
      check_outcome(s, rc, what, true);
      VCHECK(lock_free(s.path), "%s: returned success with the file still locked", what.c_str());
      uint64_t w = 0, fs = 0;
      for (auto& x : wrap::ep().log) { if (x.op == wrap::WRITE && x.ret > 0) w += x.ret; if (x.op == wrap::FSYNC && x.ret == 0) fs++; }
      count("bytes_written_and_flushed", w); count("flushes", fs);
      nontrivial(mix(signature(s.content()), how * 16 + kind));
    } else { wrap::forget_fds(); wrap::clear_dirty(); }
    count(rc == KVTREE_SUCCESS ? "successful_writes_checked" : "failed_writes");
    if (q == 0) sample(what);
  }
  kvtree_delete(&s.tree);
  clean_dir(s.dir); set_epf(0);
  (void)idx;
}

// ------------------------------------------------------------ C14
static void c14(Rng& r, uint64_t idx) {
  string dir = path_in_scratch("k"); mkdir(dir.c_str(), 0755);
  clean_dir(dir);
  string path = dir + "/f";
  int wk = r.below(NW);
  NodeP oldm, m = gen_tree(r, Shape{8, 3, 15, false, false});
  m->kids["new"] = mk(); m->kids["new"]->kids[istr(idx)] = mk();
  unsigned prev = r.below(6);
  bool large = r.one_in(12);
  if (large) { string n(70000 + r.below(200000), 'N'); for (size_t i = 0; i < n.size(); i += 1 + r.below(5000)) n[i] = 'a' + r.below(26); m->kids[n] = mk(); }
  if (prev == 5) {     // same layout, other contents: any mixture of the two reads like a tree
    std::function<NodeP(const Node*)> twin = [&](const Node* n) {
      if (!n) return NodeP();
      NodeP x = mk();
      for (auto& e : n->kids) {
        string k = e.first;
        for (size_t i = 0; i < k.size(); i++) if (isalnum((unsigned char)k[i]) && (i == 0 || r.pct(70))) k[i] ^= 1;
        if (x->kids.count(k)) k = e.first;
        if (!x->kids.count(k)) x->kids[k] = twin(e.second.get());
      }
      return x;
    };
    oldm = twin(m.get());
    if (same_tree(oldm.get(), m.get())) prev = 2; else count("old_trees_of_the_same_layout");
  }
  if (prev >= 2 && prev < 5) {
    oldm = prev == 2 ? gen_tree(r, Shape{8, 3, 15, false, false}) : clone(m.get());
    oldm->kids.erase("new");
    oldm->kids["old"] = mk(); oldm->kids["old"]->kids[istr(idx)] = mk();
    if (prev == 4) oldm->kids[string(40 + r.below(200), 'o')] = mk();
  }
  uint64_t order = r.next();
  Rng r1(order), r2(order);
  kvtree* t = build(r1, m.get());
  string oldbytes = prev == 5 ? string() : oldm ? enc_file(oldm.get(), true, &r) : string();
  if (prev == 5) {     // written by the library, so that both trees lie in the file in the same order
    kvtree* o = build(r2, oldm.get());
    VCHECK(kvtree_write_file(path.c_str(), o) == KVTREE_SUCCESS, "write_file fails");
    kvtree_delete(&o);
    oldbytes = slurp(path); wrap::clear_dirty();
  }
  auto prep = [&] { unlink(path.c_str()); if (prev >= 1) spew(path, oldbytes); };
  size_t split = r.pct(40) ? 1 + r.below(40) : 0;          // the OS takes the data in pieces
  // what happens without a kill
  prep();
  wrap::begin(true);
  if (split) wrap::ep().plan = [&](const wrap::Call& c) { Act a; if (c.op == wrap::WRITE && !large) { a.kind = Act::SHORT; a.n = split; } return a; };
  int rc = do_write(wk, path, t);
  wrap::end();
  VCHECK(rc == KVTREE_SUCCESS, "%s failed", wname[wk]);
  vector<wrap::Rec> log = wrap::ep().log;
  wrap::clear_dirty();
  struct Point { uint64_t idx; Act::Kind kind; size_t n; };
  vector<Point> pts;
  for (size_t i = 0; i < log.size(); i++) {
    if (log.size() > 60 && !r.one_in(log.size() / 30)) continue;
    pts.push_back({i, Act::KILL_BEFORE, 0}); pts.push_back({i, Act::KILL_AFTER, 0});
    if (log[i].op == wrap::WRITE) {
      size_t len = log[i].len;
      size_t lim = split ? std::min(split, len) : len;
      if (lim <= 220) for (size_t k = 1; k < lim; k++) { if (log.size() < 30 || r.one_in(4)) pts.push_back({i, Act::KILL_PARTIAL, k}); }
      else for (int k = 0; k < 40; k++) pts.push_back({i, Act::KILL_PARTIAL, k < 8 ? (size_t)(19 + k) : 1 + r.below(lim - 1)});
    }
  }
  if (pts.size() > 150) { for (size_t i = 0; i < 150; i++) std::swap(pts[i], pts[i + r.below(pts.size() - i)]); pts.resize(150); }
  for (auto& p : pts) {
    prep();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      wrap::begin();
      wrap::ep().plan = [&](const wrap::Call& c) {
        Act a;
        if (c.idx == p.idx) { a.kind = p.kind; a.n = p.n; }
        else if (split && c.op == wrap::WRITE && !large) { a.kind = Act::SHORT; a.n = split; }
        return a;
      };
      try { do_write(wk, path, t); } catch (CaseFail&) { _exit(41); }
      _exit(40);
    }
    int st; waitpid(pid, &st, 0);
    string what = string(wname[wk]) + (prev == 0 ? " over nothing" : prev == 1 ? " over an empty file" : " over an old tree") + ", killed " + (p.kind == Act::KILL_BEFORE ? "before" : p.kind == Act::KILL_AFTER ? "after" : "inside") + " call " + istr(p.idx) + " (" + wrap::op_names[log[p.idx].op] + (p.kind == Act::KILL_PARTIAL ? ", " + istr(p.n) + " bytes" : "") + ")";
    evaluated();
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) { count("not_killed"); continue; }
    count("kills");
    VCHECK(lock_free(path), "%s: file is still locked", what.c_str());
    string bytes = slurp(path);
    bool order_lor = r.pct(30);
    int outcome_sig = 0;
    for (int q = 0; q < NR; q++) {
      int rk = order_lor ? NR - 1 - q : q;
      kvtree* u = kvtree_new(); kvtree_set_kv(u, "mine", "1");
      int rrc = do_read(rk, path, u);
      if (rrc != KVTREE_SUCCESS) { VCHECK(kvtree_size(u) == 1 && kvtree_get_kv(u, "mine", "1"), "%s: failed %s changed the tree", what.c_str(), rname[rk]); count("outcome_failure"); outcome_sig |= 1; }
      else {
        NodeP got = read_back(u, what.c_str());
        NodeP e = mk(); e->kids["mine"] = mk(); e->kids["mine"]->kids["1"] = nullptr;
        NodeP wn = clone(e.get()), wo = clone(e.get());
        merge_into(wn.get(), m.get()); if (oldm) merge_into(wo.get(), oldm.get());
        if (same_tree(got.get(), wn.get())) { count("outcome_new"); outcome_sig |= 2; }
        else if (oldm && same_tree(got.get(), wo.get())) { count("outcome_old"); outcome_sig |= 4; }
        else if (same_tree(got.get(), e.get())) { count("outcome_nothing"); VCHECK(bytes.empty(), "%s: %s succeeds with nothing from a file of %zu bytes", what.c_str(), rname[rk], bytes.size()); outcome_sig |= 8; }
        else fail("%s: %s yields a tree that is neither old nor new: %s", what.c_str(), rname[rk], to_text(got.get(), 300).c_str());
      }
      kvtree_delete(&u);
    }
    nontrivial(mix(mix(hash64(what), signature(m.get())), outcome_sig));
    // life goes on
    if (r.one_in(4)) {
      NodeP m2 = gen_tree(r, Shape{6, 3, 15, false, false});
      kvtree* t2 = build(r, m2.get());
      int k2 = r.below(2);
      VCHECK(do_write(k2, path, t2) == KVTREE_SUCCESS, "%s: a later %s fails", what.c_str(), wname[k2]);
      expect_file(path, m2.get(), what + ", then " + wname[k2]);
      kvtree_delete(&t2);
    }
  }
  kvtree_delete(&t);
  wrap::clear_dirty();
  no_fds("kill");
  clean_dir(dir);
  sample(string(wname[wk]) + " with " + istr(log.size()) + " calls, " + istr(pts.size()) + " kill points");
}

// ------------------------------------------------------------ C17
static mode_t cur_umask() { mode_t m = umask(0); umask(m); return m; }
static void c17(Rng& r, uint64_t idx) {
  mode_t mask = idx % 512;
  mode_t want = 0666 & ~mask;
  string dir = path_in_scratch("u"); mkdir(dir.c_str(), 0755);
  mode_t orig = cur_umask();
  kvtree* t = kvtree_new(); kvtree_set_kv(t, "k", "v");
  kvtree* d = kvtree_new(); for (int i = 0; i < 3; i++) kvtree_set(d, istr(i).c_str(), kvtree_new());
  set_epf(1);
  string err;
  for (int op = 0; op < 6 && err.empty(); op++) {
    static const char* n[] = {"write_file", "write_with_lock", "read_with_lock", "lock_open_read", "write_to_gather", "write_close_unlock"};
    clean_dir(dir);
    string path = dir + "/f";
    vector<string> made = {path};
    mode_t pre = 0xffff;
    bool existing = r.pct(35);
    if (op == 4) for (int i = 0; i < 3; i++) made.push_back(path + ".0." + istr(i));
    if (existing) {
      pre = (mode_t)r.below(4096);
      kvtree* o = kvtree_new();
      for (auto& f : made) { spew(f, enc_file(mk().get())); chmod(f.c_str(), pre); }
      kvtree_delete(&o);
    }
    umask(mask);
    int fd = -1, rc = 0;
    kvtree* u = kvtree_new();
    int busy = r.pct(30) ? 1 + (int)r.below(3) : 0;   // the first attempts to open fail
    if (busy) count("created_after_a_failed_open");
    wrap::begin();
    wrap::ep().plan = [&](const wrap::Call& k) { wrap::Action a; if (k.op == wrap::OPEN && busy > 0) { busy--; static const int e[] = {EINTR, ENFILE, EIO, ESTALE}; a.kind = wrap::Action::ERR; a.err = e[(mask + busy) % 4]; } return a; };
    switch (op) {
      case 0: rc = kvtree_write_file(path.c_str(), t); break;
      case 1: rc = kvtree_write_with_lock(path.c_str(), t); break;
      case 2: rc = kvtree_read_with_lock(path.c_str(), u); break;
      case 3: rc = kvtree_lock_open_read(path.c_str(), &fd, u); break;
      case 4: rc = kvtree_write_to_gather(path.c_str(), d, 3); break;
      case 5: rc = kvtree_lock_open_read(path.c_str(), &fd, u); if (rc == KVTREE_SUCCESS) rc = kvtree_write_close_unlock(path.c_str(), &fd, t); break;
    }
    mode_t after = cur_umask();
    umask(orig);
    wrap::end();
    if (fd >= 0) vw_close(fd);
    kvtree_delete(&u);
    evaluated();
    if (after != mask) { err = string(n[op]) + " changed the file-creation mask from " + istr(mask) + " to " + istr(after); break; }
    if (rc != KVTREE_SUCCESS) { err = string(n[op]) + " failed under mask " + istr(mask); break; }
    for (auto& f : made) {
      struct stat st;
      if (stat(f.c_str(), &st) != 0) { err = string(n[op]) + " did not create " + f; break; }
      mode_t got = st.st_mode & 07777;
      char b[200];
      if (existing && got != pre && !(op != 2 && op != 3 && got == (pre & 01777))) { snprintf(b, sizeof b, "%s changed the permissions of an existing file from %04o to %04o (mask %03o)", n[op], pre, got, mask); err = b; break; }
      if (!existing && got != want) { snprintf(b, sizeof b, "%s created a file with permissions %04o under mask %03o, expected %04o", n[op], got, mask, want); err = b; break; }
      count(existing ? "existing_files" : "created_files");
    }
    // failing calls leave the mask alone too
    umask(mask);
    string bad = dir + "/none/f";
    switch (op) {
      case 0: kvtree_write_file(bad.c_str(), t); break;
      case 1: kvtree_write_with_lock(bad.c_str(), t); break;
      case 2: { kvtree* v = kvtree_new(); kvtree_read_with_lock(bad.c_str(), v); kvtree_read_file(bad.c_str(), v); kvtree_delete(&v); break; }
      case 3: { kvtree* v = kvtree_new(); int q; kvtree_lock_open_read(bad.c_str(), &q, v); kvtree_delete(&v); break; }
      case 4: kvtree_write_to_gather(bad.c_str(), d, 3); break;
    }
    after = cur_umask();
    umask(orig);
    if (after != mask && err.empty()) err = string("a failing ") + n[op] + " changed the file-creation mask";
  }
  umask(orig);
  set_epf(0);
  clean_dir(dir);
  kvtree_delete(&t); kvtree_delete(&d);
  if (!err.empty()) fail("%s", err.c_str());
  nontrivial(mix(mask, r.next()));
  sample("mask " + istr(mask));
}

// ------------------------------------------------------------ C25 (single process)
static void c25(Rng& r, uint64_t idx) {
  string dir = path_in_scratch("s"); mkdir(dir.c_str(), 0755);
  clean_dir(dir);
  static const char* names[] = {"rank2file", "a", "x.0", "p.0.1", "p[0-9]", "a b", "%d", "x*", "(p)", "a+b", "^p$", "p\\.q", ".hid", "r{2}", "p|q", "\xc3\xbc", "0", "p..", "$HOME", "q?"};
  string prefix = dir + "/" + names[r.below(20)];
  bool huge = idx == 0;
  if (!huge && r.one_in(10)) {                 // lengths around and beyond 1024 characters
    string d = dir;
    size_t want = 950 + r.below(r.pct(60) ? 150 : 2500);
    while (d.size() + 110 < want) { d += "/" + string(99, 'l'); mkdir(d.c_str(), 0755); }
    prefix = d + "/" + string(want > d.size() + 2 ? want - d.size() - 1 : 1, 'p');
    set_max("prefix_length", prefix.size());
  }
  int n = huge ? 8192 + (int)r.below(50) : r.one_in(20) ? 100 + (int)r.below(300) : 1 + (int)r.below(25);
  RankSet s;
  if (huge) { s.n = n; s.ranks = mk(); for (int i = 0; i < n; i++) { NodeP& x = s.ranks->kids[istr(i)]; x = mk(); x->kids["v" + istr(i)] = mk(); } }
  else s = gen_ranks(r, n, 8);
  // other files that look similar
  string decoys[] = {prefix + ".0.0.bak", prefix + "1", prefix + "1.0.0", prefix + ".0.", prefix + ".0.x", dir + "/zz.0.0", prefix + ".tmp.0.3", prefix + ".00.5", dir + "/z" + names[r.below(3)] + ".0.0"};
  std::map<string, string> decoy_bytes;
  NodeP dec = mk(); { NodeP& x = dec->kids["LEVEL"]; x = mk(); x->kids["0"] = mk(); NodeP& y = dec->kids["RANKS"]; y = mk(); y->kids[istr(n)] = mk(); NodeP& z = dec->kids["RANK"]; z = mk(); z->kids[istr(r.below(n))] = mk(); z->kids["0"] = mk(); z->kids["0"]->kids["decoy"] = mk(); }
  for (auto& d : decoys) if (r.pct(40)) { string b = r.pct(60) ? enc_file(dec.get()) : r.pct(50) ? string("junk") : string(); spew(d, b); decoy_bytes[d] = b; }
  // an earlier set
  long epf0 = 1 + r.below(5);
  if (r.pct(45)) {
    RankSet old = gen_ranks(r, 1 + r.below(40), 4);
    kvtree* d = build(r, old.ranks.get());
    set_epf(epf0);
    VCHECK(kvtree_write_to_gather(prefix.c_str(), d, old.n) == KVTREE_SUCCESS, "write_to_gather failed");
    kvtree_delete(&d);
    // extra leaf files of an even older set
    for (int i = 0; i < 3; i++) { string f = prefix + ".0." + istr(n + r.below(30)); if (access(f.c_str(), F_OK) != 0) spew(f, enc_file(dec.get())); }
    count("earlier_sets");
  }
  bool crafted = r.pct(35);
  string how;
  if (crafted && !huge) { craft_set(r, prefix, s); how = "independently written set"; }
  else {
    long epf = huge ? 0 : r.pct(30) ? 0 : r.pct(50) ? 1 + (long)r.below(4) : 1 + (long)r.below(n + 3);
    set_epf(epf);
    kvtree* d = build(r, s.ranks.get());
    std::map<string, kvtree*> objs;
    for (kvtree_elem* e = kvtree_elem_first(d); e; e = kvtree_elem_next(e)) objs[kvtree_elem_key(e)] = kvtree_elem_hash(e);
    how = "write_to_gather, " + istr(epf) + " entries per file";
    int rc = kvtree_write_to_gather(prefix.c_str(), d, s.n);
    VCHECK(rc == KVTREE_SUCCESS, "%s of %d ranks failed", how.c_str(), n);
    expect_tree(d, s.ranks.get(), "tree given to write_to_gather");
    for (kvtree_elem* e = kvtree_elem_first(d); e; e = kvtree_elem_next(e)) VCHECK(objs[kvtree_elem_key(e)] == kvtree_elem_hash(e), "write_to_gather replaced the subtree of rank %s", kvtree_elem_key(e));
    kvtree_delete(&d);
    check_set_files(prefix, s, how);
    count("leaf_files", set_files(prefix).size() - 1);
  }
  set_epf(r.pct(50) ? 0 : 1 + r.below(3));    // irrelevant to the reader
  vector<string> own = set_files(prefix);
  for (auto& d : decoy_bytes) if (!std::count(own.begin(), own.end(), d.first)) VCHECK(slurp(d.first) == d.second, "%s changed the unrelated file %s", how.c_str(), d.first.c_str());
  how += " of " + istr(n) + " ranks, prefix " + show(prefix.substr(dir.size() + 1));
  NodeP mine = mk();
  if (r.pct(50)) { mine->kids["mine"] = mk(); mine->kids[istr(r.below(n))] = mk(); mine->kids[istr(r.below(n))] = nullptr; NodeP& x = mine->kids["0"]; if (!x) x = mk(); x->kids["kept"] = mk(); }
  {
    kvtree* u = build(r, mine.get());
    int rc = kvtree_read_scatter_single(prefix.c_str(), u);
    VCHECK(rc == KVTREE_SUCCESS, "read_scatter_single of %s failed", how.c_str());
    NodeP w = clone(mine.get()); merge_into(w.get(), s.ranks.get());
    expect_tree(u, w.get(), ("read_scatter_single of " + how).c_str());
    kvtree_delete(&u);
    no_fds("read_scatter_single");
  }
  // damage
  if (!huge) {
    vector<string> fs = set_files(prefix);
    for (int q = 0; q < 4; q++) {
      string f = r.pick(fs), keep = slurp(f), what;
      switch (r.below(5)) {
        case 0: unlink(f.c_str()); what = "missing"; break;
        case 1: { string x = keep; x.resize(r.below(x.size())); spew(f, x); what = "truncated to " + istr(x.size()); break; }
        case 2: spew(f, ""); what = "empty"; break;
        case 3: { string x = keep; size_t p = r.below(x.size()); x[p] ^= (char)(1 << r.below(8)); spew(f, x); what = "damaged at byte " + istr(p); break; }
        default: { string x(20 + r.below(100), 0); for (char& c : x) c = (char)r.next(); spew(f, x); what = "garbage"; break; }
      }
      // damage that still reads as the same tree is harmless
      kvtree* probe = kvtree_new();
      bool harmless = access(f.c_str(), F_OK) == 0 && !slurp(f).empty() && kvtree_read_file(f.c_str(), probe) == KVTREE_SUCCESS;
      kvtree_delete(&probe);
      kvtree* u = build(r, mine.get());
      int rc = kvtree_read_scatter_single(prefix.c_str(), u);
      evaluated();
      if (!harmless) {
        VCHECK(rc != KVTREE_SUCCESS, "read_scatter_single of %s succeeds although %s is %s", how.c_str(), f.substr(dir.size() + 1).c_str(), what.c_str());
        expect_tree(u, mine.get(), "tree after a failed read_scatter_single");
        count("damaged_sets_refused");
      }
      kvtree_delete(&u);
      spew(f, keep);
      no_fds("read_scatter_single of a damaged set");
    }
    // a set in which a rank is missing
    if (n > 1) {
      NodeP part = clone(s.ranks.get());
      part->kids.erase(istr(r.below(n)));
      kvtree* d = build(r, part.get());
      set_epf(r.pct(50) ? 0 : 1 + r.below(4));
      string p2 = prefix + "-part";
      int rc = kvtree_write_to_gather(p2.c_str(), d, n);
      kvtree_delete(&d);
      if (rc == KVTREE_SUCCESS) {
        kvtree* u = kvtree_new();
        rc = kvtree_read_scatter_single(p2.c_str(), u);
        VCHECK(rc != KVTREE_SUCCESS, "read_scatter_single succeeds although a rank of %d is missing", n);
        kvtree_delete(&u);
        count("sets_with_missing_rank");
      }
    }
  }
  set_epf(0);
  clean_dir(dir);
  set_max("ranks", n);
  nontrivial(mix(signature(s.ranks.get()), hash64(how)));
  sample(how);
}

// ------------------------------------------------------------ C31: sets that contradict themselves (single process)
static void c31(Rng& r, uint64_t idx) {
  string dir = path_in_scratch("s"); mkdir(dir.c_str(), 0755);
  clean_dir(dir);
  string prefix = dir + "/set";
  int n = 1 + r.below(r.one_in(6) ? 40 : 8);
  if (r.one_in(5)) n = 1;
  OddSet o = odd_set(r, n, 3500);
  write_odd(r, prefix, o);
  case_desc("%s (%d ranks)", o.how.substr(0, 400).c_str(), n);
  NodeP mine = mk();
  if (r.pct(60)) { mine->kids["mine"] = mk(); NodeP& x = mine->kids[istr(r.below(n))]; x = mk(); x->kids["kept"] = mk(); }
  NodeP all = all_entries(o);
  bool with = r.pct(50);
  kvtree* u = with ? build(r, mine.get()) : kvtree_new();
  if (!with) mine = mk();
  double t0 = now_s();
  int rc = kvtree_read_scatter_single(prefix.c_str(), u);
  set_max("ms_of_a_read", (uint64_t)(1000 * (now_s() - t0)));
  NodeP got = read_back(u, "tree after read_scatter_single");
  kvtree_delete(&u);
  no_fds("read_scatter_single of a set that contradicts itself");
  string why;
  if (rc != KVTREE_SUCCESS) {
    VCHECK(!o.sound, "read_scatter_single of a sound set fails: %s", o.how.c_str());
    VCHECK(same_tree(got.get(), mine.get(), &why), "a failed read_scatter_single changed the tree: %s (%s)", why.c_str(), o.how.substr(0, 300).c_str());
    count("odd_sets_refused");
  } else {
    NodeP most = clone(mine.get()); merge_into(most.get(), all.get());
    VCHECK(within(got.get(), most.get()), "read_scatter_single delivers what no file of the set holds (%s)", o.how.substr(0, 300).c_str());
    VCHECK(within(mine.get(), got.get()), "read_scatter_single lost what the tree held (%s)", o.how.substr(0, 300).c_str());
    if (o.sound) { VCHECK(same_tree(got.get(), most.get(), &why), "read_scatter_single of a sound set: %s (%s)", why.c_str(), o.how.c_str()); count("sound_sets_read"); }
    // as many entries as the root says there are
    Node* root = o.files[""].get();
    auto rs = root->kids.find("RANKS");
    bool one = rs != root->kids.end() && rs->second && rs->second->kids.size() == 1;
    const char* text = one ? rs->second->kids.begin()->first.c_str() : "";
    if (one && !with) VCHECK(got->kids.size() == strtoull(text, nullptr, 10) || got->kids.size() == strtoull(text, nullptr, 0), "read_scatter_single delivers %zu entries of a set of %s (%s)", got->kids.size(), show(rs->second->kids.begin()->first).c_str(), o.how.substr(0, 300).c_str());
    count("odd_sets_read");
  }
  rmdir((prefix + ".dir").c_str());
  clean_dir(dir);
  nontrivial(mix(hash64(o.how), mix(n, signature(all.get()))));
  sample(o.how.substr(0, 120));
}

// ------------------------------------------------------------ C32: records one after another in a descriptor
static void put_all(int fd, const string& b, Rng& r) {
  size_t at = 0;
  while (at < b.size()) {
    size_t n = std::min<size_t>(b.size() - at, 1 + r.below(r.pct(50) ? 40 : 9000));
    ssize_t k = write(fd, b.data() + at, n);
    if (k > 0) at += k;
    else if (k < 0 && errno == EAGAIN) { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); }
    else if (!(k < 0 && errno == EINTR)) return;
    if (r.one_in(40)) sched_yield();
  }
}
static string take(int fd, size_t n, Rng& r, bool* end = nullptr) {
  string b;
  while (b.size() < n) {
    char t[4096];
    size_t w = std::min<size_t>(n - b.size(), 1 + r.below(r.pct(50) ? 60 : sizeof t));
    ssize_t k = read(fd, t, w);
    if (k > 0) b.append(t, k);
    else if (k < 0 && errno == EAGAIN) { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); }
    else if (k < 0 && errno == EINTR) continue;
    else { if (end) *end = true; return b; }
  }
  return b;
}
static void c32(Rng& r, uint64_t idx) {
  enum Kind { FILE_AT, FILE_APPEND, PIPE, SOCKET } kind = (Kind)r.below(4);
  static const char* kn[] = {"file", "appending file", "pipe", "socket"};
  int n = 1 + r.below(6);
  vector<NodeP> t; vector<string> between;                    // application bytes before each record, and at the end
  auto app = [&]() -> string { string b(r.pct(50) ? 0 : r.pct(80) ? r.below(40) : r.below(6000), 0); for (char& c : b) c = (char)r.next(); return b; };
  for (int i = 0; i < n; i++) { between.push_back(app()); t.push_back(i && r.one_in(3) ? alike(r, t.back().get()) : r.one_in(6) ? mk() : gen_any(r, false)); }
  between.push_back(app());
  string path = path_in_scratch("stream"), what = string(kn[kind]);
  unlink(path.c_str());
  const string& name = path;                  // of pipes and sockets there is no such file
  signal(SIGPIPE, SIG_IGN);
  Faults fl; fl.transient = r.pct(40); fl.rng = Rng(r.next()); fl.p_soft = 30;
  auto library = [&](const std::function<void()>& f) { wrap::begin(); if (fl.transient) { fl.soft_total = 0; wrap::ep().plan = std::ref(fl); } f(); wrap::end(); };
  // ---- writing
  size_t start = kind == FILE_AT ? r.below(3) * r.below(300) : 0, after = kind == FILE_AT ? r.below(2) * r.below(9000) : 0;
  string before(kind == FILE_APPEND ? r.below(200) : start, 'b'), tail(after, 'z');
  int fds[2] = {-1, -1};
  std::thread other; string arrived; uint64_t oseed = r.next();
  auto open_pair = [&] {
    if (kind == PIPE) { if (pipe2(fds, O_CLOEXEC)) die("pipe"); if (r.pct(60)) fcntl(fds[1], F_SETPIPE_SZ, 4096); }
    else if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds)) die("socketpair");
  };
  int fd;
  if (kind <= FILE_APPEND) {
    spew(path, before + tail);
    fd = open(path.c_str(), O_RDWR | O_CLOEXEC | (kind == FILE_APPEND ? O_APPEND : 0));
    if (fd < 0) die("open");
    lseek(fd, kind == FILE_AT ? (off_t)start : (off_t)r.below(before.size() + 1), SEEK_SET);
  } else {
    open_pair(); fd = fds[1];
    other = std::thread([&arrived, fds, oseed] { Rng q(oseed); for (;;) { bool end = false; arrived += take(fds[0], 100000, q, &end); if (end) break; } });
    if (r.pct(30)) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
  }
  int flags = fcntl(fd, F_GETFL), dflags = fcntl(fd, F_GETFD);
  wrap::adopt_fd(fd, path);
  string err; auto bad = [&](const string& m) { if (err.empty()) err = m; };
  vector<size_t> len;
  string expect_at = before;
  for (int i = 0; i <= n; i++) {
    if (!between[i].empty()) { Rng q(mix(oseed, i)); put_all(fd, between[i], q); }
    if (i == n) break;
    kvtree* u = build(r, t[i].get());
    ssize_t k = -1; library([&] { k = kvtree_write_fd(name.c_str(), fd, u); });
    if (k != (ssize_t)(packed_size(t[i].get()) + 24)) bad("write_fd to a " + what + " returned " + istr(k) + ", the record has " + istr(packed_size(t[i].get()) + 24) + " bytes");
    len.push_back(k < 0 ? 0 : k);
    if (err.empty() && kind == FILE_AT) {
      size_t want = start; for (int j = 0; j <= i; j++) want += between[j].size() + len[j];
      off_t at = lseek(fd, 0, SEEK_CUR);
      if (at != (off_t)want) bad("write_fd left the descriptor at " + istr(at) + " instead of " + istr(want));
    }
    NodeP same = read_back(u, "tree given to write_fd"); if (!same_tree(same.get(), t[i].get())) bad("write_fd changed its tree");
    kvtree_delete(&u);
    if (!err.empty()) break;
  }
  if (fcntl(fd, F_GETFL) != flags || fcntl(fd, F_GETFD) != dflags) bad("write_fd to a " + what + " closed the descriptor or changed its flags");
  wrap::forget_fds(); close(fd);
  if (other.joinable()) { other.join(); close(fds[0]); }
  if (!err.empty()) { unlink(path.c_str()); fail("%s", err.c_str()); }
  if (kind <= FILE_APPEND) arrived = slurp(path);
  // what arrived is what was there, the application's bytes and the records, in order
  string all = arrived; size_t at = 0;
  if (kind == FILE_APPEND) before += tail;
  VCHECK(arrived.compare(0, before.size(), before) == 0, "write_fd to a %s changed bytes before its position", what.c_str());
  at = before.size();
  for (int i = 0; i <= n; i++) {
    VCHECK(arrived.compare(at, between[i].size(), between[i]) == 0 && at + between[i].size() <= arrived.size(), "write_fd to a %s: the application's bytes before record %d were overwritten or moved", what.c_str(), i);
    at += between[i].size();
    if (i == n) break;
    string e, why; NodeP d = dec_file(arrived.substr(at, len[i]), e);
    VCHECK(e.empty(), "write_fd to a %s: record %d: %s", what.c_str(), i, e.c_str());
    VCHECK(same_tree(d.get(), t[i].get(), &why), "write_fd to a %s: record %d holds another tree: %s", what.c_str(), i, why.c_str());
    at += len[i];
  }
  if (kind == FILE_AT) VCHECK(at >= before.size() + tail.size() ? arrived.size() == at : arrived.size() == before.size() + tail.size() && arrived.substr(at) == tail.substr(at - before.size()), "write_fd to a file changed what follows its record");
  else VCHECK(arrived.size() == at, "write_fd to a %s: %zu bytes arrived instead of %zu", what.c_str(), arrived.size(), at);
  count("bytes_written", at);
  // ---- reading: records of the library or of the other writer, the last one perhaps damaged
  string stream = before; vector<string> recs; bool foreign = r.pct(50);
  { size_t p = before.size(); for (int i = 0; i <= n; i++) { stream += between[i]; p += between[i].size(); if (i < n) { recs.push_back(foreign ? enc_file(t[i].get(), r.pct(60), &r) : arrived.substr(p, len[i])); p += len[i]; stream += recs.back(); } } }
  int end = r.below(4);                       // 0, 1: ends; 2: another record, cut off; 3: another, damaged
  string extra; if (end >= 2) { extra = enc_file(t[r.below(n)].get(), true, &r); if (end == 2) extra.resize(1 + r.below(extra.size() - 1)); else extra[20 + r.below(extra.size() - 20)] ^= (char)(1 << r.below(8)); }
  stream += extra;
  if (kind <= FILE_APPEND) {
    spew(path, stream);
    fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) die("open");
    lseek(fd, before.size(), SEEK_SET);
  } else {
    open_pair(); fd = fds[0];
    string out = stream.substr(before.size());
    other = std::thread([out, fds, oseed] { Rng q(oseed + 1); put_all(fds[1], out, q); close(fds[1]); });
    if (r.pct(30)) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
  }
  flags = fcntl(fd, F_GETFL); dflags = fcntl(fd, F_GETFD);
  wrap::adopt_fd(fd, path);
  bool gather = r.pct(40);
  NodeP sum = mk(); kvtree* acc = nullptr;
  size_t pos = before.size();
  Rng q(r.next());
  for (int i = 0; i <= n && err.empty(); i++) {
    if (!between[i].empty() && take(fd, between[i].size(), q) != between[i]) { bad("the application's bytes before record " + istr(i) + " of a " + what + " are no longer there to read"); break; }
    pos += between[i].size();
    if (!acc) { sum = r.pct(30) ? gen_tree(r, Shape{5, 3, 15, false, false}) : mk(); acc = build(r, sum.get()); }
    ssize_t k = 0; library([&] { k = kvtree_read_fd(name.c_str(), fd, acc); });
    if (i < n) {
      if (k != (ssize_t)recs[i].size()) { bad("read_fd of record " + istr(i) + " of a " + what + " returned " + istr(k) + " instead of " + istr(recs[i].size())); break; }
      merge_into(sum.get(), t[i].get());
      pos += recs[i].size();
      if (kind <= FILE_APPEND && lseek(fd, 0, SEEK_CUR) != (off_t)pos) bad("read_fd left the descriptor at " + istr(lseek(fd, 0, SEEK_CUR)) + " instead of " + istr(pos));
      count("records_read");
    } else if (end < 2) { if (k != 0) bad("read_fd at the end of a " + what + " returned " + istr(k)); }
    else if (k >= 0) bad("read_fd of a " + string(end == 2 ? "cut" : "damaged") + " record in a " + what + " returned " + istr(k));
    NodeP got = read_back(acc, "tree after read_fd"); string why;
    if (!same_tree(got.get(), sum.get(), &why)) bad("read_fd of record " + istr(i) + " of a " + what + ": " + why);
    if (!gather) kvtree_delete(&acc);
  }
  if (acc) kvtree_delete(&acc);
  if (fcntl(fd, F_GETFL) != flags || fcntl(fd, F_GETFD) != dflags) bad("read_fd of a " + what + " closed the descriptor or changed its flags");
  wrap::forget_fds(); close(fd);
  if (other.joinable()) other.join();
  if (kind <= FILE_APPEND && err.empty() && slurp(path) != stream) bad("read_fd changed the file");
  unlink(path.c_str());
  if (!err.empty()) fail("%s", err.c_str());
  count("transient_faults", fl.hits); count(string("records_through_a_") + (kind <= FILE_APPEND ? "file" : kn[kind]), n);
  uint64_t sg = kind; for (auto& x : t) sg = mix(sg, signature(x.get()));
  nontrivial(sg);
  sample(what + ", " + istr(n) + " records, " + istr(stream.size()) + " bytes");
}

// ------------------------------------------------------------ C33: what is held stays
static void c33(Rng& r, uint64_t idx) {
  string dir = path_in_scratch("h"); mkdir(dir.c_str(), 0755);
  clean_dir(dir);
  bool ranks = r.pct(30);
  RankSet rs; NodeP m;
  if (ranks) { rs = gen_ranks(r, 1 + r.below(30), 6); m = clone(rs.ranks.get()); } else m = gen_tree(r, Shape{1 + (size_t)r.below(60), 6, 15, r.one_in(5), r.pct(30)});
  struct Root { kvtree* t; vector<Held> held; };
  vector<Root> roots(1); roots.reserve(64);
  struct Gone { vector<Root>& v; ~Gone() { for (auto& x : v) kvtree_delete(&x.t); } } gone{roots};
  roots[0].t = build(r, m.get());
  hold(roots[0].t, roots[0].held);
  string file = dir + "/f", prefix = dir + "/set", done;
  { kvtree* x = build(r, gen_tree(r, Shape{10, 4, 15, false, false}).get()); kvtree_merge(x, roots[0].t); if (kvtree_write_file(file.c_str(), x) != KVTREE_SUCCESS) fail("write_file failed"); kvtree_delete(&x); }
  int steps = 2 + r.below(12);
  uint64_t sig = signature(m.get());
  for (int q = 0; q < steps; q++) {
    Root& R = roots[0]; kvtree* t = R.t;
    // some subtree, the root among them
    Held* at = R.held.empty() || r.pct(35) ? nullptr : &R.held[r.below(R.held.size())];
    kvtree* sub = at && at->sub ? at->sub : t;
    vector<string> path = at && at->sub ? at->path : vector<string>();
    string what; string nk = "new" + istr(q);
    int rc = KVTREE_SUCCESS;
    switch (r.below(18)) {
      case 0: what = "set of a new key"; kvtree_set(sub, nk.c_str(), r.pct(30) ? nullptr : kvtree_new()); break;
      case 1: what = "set_kv of a new key"; kvtree_set_kv(sub, nk.c_str(), "v"); kvtree_set_kv_int(sub, nk.c_str(), q); break;
      case 2: what = "setf under a new key"; kvtree_setf(sub, kvtree_new(), "%s %d %s", nk.c_str(), q, "x"); break;
      case 3: what = "typed setter"; kvtree_util_set_str(sub, nk.c_str(), "text"); kvtree_util_set_int(sub, (nk + "i").c_str(), q); kvtree_util_set_double(sub, (nk + "d").c_str(), 0.5); break;
      case 4: { if (R.held.empty()) continue; what = "unset"; Held h = r.pick(R.held); kvtree* p = t; for (size_t i = 0; i + 1 < h.path.size(); i++) p = kvtree_get(p, h.path[i].c_str()); let_go(R.held, h.path); rc = kvtree_unset(p, h.path.back().c_str()); break; }
      case 5: { if (R.held.empty()) continue; what = "extract"; Held h = r.pick(R.held); kvtree* p = t; for (size_t i = 0; i + 1 < h.path.size(); i++) p = kvtree_get(p, h.path[i].c_str());
        vector<Held> inside; for (auto& x : R.held) if (x.path.size() > h.path.size() && std::equal(h.path.begin(), h.path.end(), x.path.begin())) { Held y = x; y.path.erase(y.path.begin(), y.path.begin() + h.path.size()); inside.push_back(y); }
        let_go(R.held, h.path);
        kvtree* x = kvtree_extract(p, h.path.back().c_str());
        if (x) { if (r.pct(40)) { if (kvtree_set(t, nk.c_str(), x) != x) fail("set of an extracted tree returns another one"); for (auto y : inside) { y.path.insert(y.path.begin(), nk); R.held.push_back(y); } what = "extract and set elsewhere"; } else { roots.push_back({x, inside}); } }
        break; }
      case 6: { if (R.held.empty()) continue; what = "set of an existing key"; Held h = r.pick(R.held); kvtree* p = t; for (size_t i = 0; i + 1 < h.path.size(); i++) p = kvtree_get(p, h.path[i].c_str()); string k = h.path.back(); let_go(R.held, h.path); if (r.pct(50)) kvtree_set(p, k.c_str(), kvtree_new()); else kvtree_util_set_str(p, k.c_str(), "another"); break; }
      case 7: { what = "merge of another tree"; NodeP o = r.pct(50) ? gen_tree(r, Shape{15, 4, 15, false, false}) : clone(m.get()); kvtree* x = build(r, o.get()); rc = kvtree_merge(r.pct(70) ? t : sub, x); kvtree_delete(&x); break; }
      case 8: { what = "merge into another tree"; kvtree* x = kvtree_new(); if (r.pct(50)) kvtree_set_kv(x, "own", "v"); rc = kvtree_merge(x, t); kvtree_delete(&x); break; }
      case 9: what = "sort"; rc = r.pct(50) ? kvtree_sort(sub, r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING) : kvtree_sort_int(sub, r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); break;
      case 10: { what = "list_int and pack"; int n = 0; int* v = nullptr; if (kvtree_list_int(sub, &n, &v) == KVTREE_SUCCESS) vw_free(v); pack_bytes(t); kvtree_size(sub); break; }
      case 11: what = "write_file"; rc = kvtree_write_file(file.c_str(), t); break;
      case 12: what = "write_with_lock"; rc = kvtree_write_with_lock(file.c_str(), t); break;
      case 13: what = "read_file"; rc = kvtree_read_file(file.c_str(), t); break;
      case 14: what = "read_with_lock"; rc = kvtree_read_with_lock(file.c_str(), t); break;
      case 15: { what = "lock_open_read and write_close_unlock"; int fd = -1; rc = kvtree_lock_open_read(file.c_str(), &fd, t); if (rc == KVTREE_SUCCESS) rc = kvtree_write_close_unlock(file.c_str(), &fd, t); break; }
      case 16: if (!ranks) continue; what = "write_to_gather"; set_epf(r.below(4)); kvtree_write_to_gather(prefix.c_str(), t, rs.n); set_epf(0); break;   // other keys may have come
      default: if (!ranks) continue; what = "read_scatter_single"; { Rng cr(r.next()); craft_set(cr, prefix, rs); } rc = kvtree_read_scatter_single(prefix.c_str(), t); break;
    }
    done += (q ? ", " : "") + what;
    VCHECK(rc == KVTREE_SUCCESS, "%s failed (%s)", what.c_str(), done.c_str());
    for (auto& x : roots) { string bad = still_held(x.t, x.held); VCHECK(bad.empty(), "after %s: %s (%s)", what.c_str(), bad.c_str(), done.c_str()); count("handles_checked", x.held.size()); }
    if (r.pct(30)) { R.held.clear(); hold(t, R.held); }
    sig = mix(sig, hash64(what));
  }
  clean_dir(dir);
  set_max("handles", roots[0].held.size());
  nontrivial(sig);
  sample(istr(m->kids.size()) + " keys at the top: " + done.substr(0, 100));
}

// ------------------------------------------------------------ C28: running out of memory
enum MKind { M_SET, M_SETKV, M_SETF, M_GETF, M_UTIL, M_MERGE, M_SORT, M_LIST, M_UNPACK, M_PERSIST, M_WRITE, M_READ, M_GATHER, M_SCATTER, NM };
static const char* oom_name[] = {"set", "set_kv", "setf", "getf", "typed setter", "merge", "sort", "list_int", "unpack", "write_persist", "write", "read", "write_to_gather", "read_scatter_single"};
static void oom_exit(int code) { _exit((code & 255) ? 50 : 51); }
static void c28(Rng& r, uint64_t idx) {
  string dir = path_in_scratch("oom"); mkdir(dir.c_str(), 0755); clean_dir(dir);
  string path = dir + "/f";
  int kind = (int)(idx % NM), sub = (int)r.below(12);
  NodeP m = gen_tree(r, Shape{kind == M_SORT || kind == M_LIST ? 30u : 12u, 4, 15, r.one_in(5), kind == M_LIST || (kind == M_SORT && sub % 2)});
  NodeP x = gen_tree(r, Shape{12, 4, 15, r.one_in(5), false});
  if (r.pct(40)) merge_into(x.get(), m.get());
  RankSet ranks = gen_ranks(r, 1 + r.below(7), 4);
  string key = r.pct(50) && !m->kids.empty() ? std::next(m->kids.begin(), r.below(m->kids.size()))->first : gen_key(r, Shape());
  if ((kind == M_SETF || kind == M_GETF || kind == M_UTIL) && key.size() > 900) key = "k";     // beyond that format strings end the process
  string sub1 = r.pct(50) ? "v" : istr(r.below(100));
  int num = (int)r.range(-1000, 1000);
  uint64_t seed = r.next();
  bool missing = r.one_in(3);
  string old = missing ? "" : enc_file(x.get(), true, &r);
  string name = oom_name[kind];
  if (kind == M_WRITE) name = wname[sub % NW]; if (kind == M_READ) name = rname[sub % NR];
  // the files the operation meets
  auto prep = [&] {
    clean_dir(dir);
    if (kind == M_WRITE && !missing) spew(path, old);
    if (kind == M_READ) spew(path, enc_file(x.get()));
    if (kind == M_SCATTER) { Rng q(seed); craft_set(q, path, ranks); }
  };
  long total = 0;
  auto body = [&](long at, bool once) {
    Rng q(seed);
    uint64_t mk0 = wrap::mark();
    kvtree* t = build(q, m.get());
    kvtree* s = build(q, x.get());
    NodeP want;                 // the complete result
    bool ok = true, whole = false;   // whole: on failure the tree must be as it was, not merely keep what it held
    kvtree* u = t;              // the tree to look at
    NodeP both = clone(m.get());
    switch (kind) {
      case M_SET: {
        kvtree* v = kvtree_new();
        wrap::arm_allocs(at, once);
        kvtree* p = kvtree_set(t, key.c_str(), v);
        total = wrap::disarm_allocs();
        ok = p != nullptr; whole = true;
        if (ok) VCHECK(p == v, "returns another tree"); else kvtree_delete(&v);
        both->kids[key] = mk();
        break; }
      case M_SETKV: {
        wrap::arm_allocs(at, once);
        kvtree* p = sub % 2 ? kvtree_set_kv(t, key.c_str(), sub1.c_str()) : kvtree_set_kv_int(t, key.c_str(), num);
        total = wrap::disarm_allocs();
        ok = p != nullptr;
        NodeP& n = both->kids[key]; if (!n) n = mk();
        NodeP& n2 = n->kids[sub % 2 ? sub1 : istr(num)]; if (!n2) n2 = mk();
        break; }
      case M_SETF: {
        kvtree* v = kvtree_new();
        wrap::arm_allocs(at, once);
        kvtree* p = sub % 3 == 0 ? kvtree_setf(t, v, "%s", key.c_str()) : sub % 3 == 1 ? kvtree_setf(t, v, "%s %d", key.c_str(), num) : kvtree_setf(t, v, "%s %s %d", key.c_str(), sub1.c_str(), num);
        total = wrap::disarm_allocs();
        ok = p != nullptr;
        if (ok) VCHECK(p == v, "returns another tree"); else kvtree_delete(&v);
        Node* n = both.get(); vector<string> ks = {key};
        if (sub % 3 == 1) ks.push_back(istr(num)); if (sub % 3 == 2) { ks.push_back(sub1); ks.push_back(istr(num)); }
        for (size_t i = 0; i < ks.size(); i++) { NodeP& c = n->kids[ks[i]]; if (!c || i + 1 == ks.size()) c = mk(); n = c.get(); }
        break; }
      case M_GETF: {
        kvtree* direct = kvtree_get(kvtree_get(t, key.c_str()), sub1.c_str());
        wrap::arm_allocs(at, once);
        kvtree* p = kvtree_getf(t, "%s %s", key.c_str(), sub1.c_str());
        kvtree* p1 = kvtree_getf(t, "%s", key.c_str());
        total = wrap::disarm_allocs();
        VCHECK(p == direct && p1 == kvtree_get(t, key.c_str()), "yields another subtree than step-by-step lookups");
        break; }
      case M_UTIL: {
        wrap::arm_allocs(at, once);
        int rc = KVTREE_SUCCESS; string val;
        switch (sub % 7) {
          case 0: rc = kvtree_util_set_int(t, key.c_str(), num); val = istr(num); break;
          case 1: rc = kvtree_util_set_str(t, key.c_str(), sub1.c_str()); val = sub1; break;
          case 2: rc = kvtree_util_set_bytecount(t, key.c_str(), 77); val = "77"; break;
          case 3: rc = kvtree_util_set_unsigned_long(t, key.c_str(), 78); val = "78"; break;
          case 4: rc = kvtree_util_set_int64(t, key.c_str(), -79); val = "-79"; break;
          case 5: rc = kvtree_util_set_crc32(t, key.c_str(), 0x10); val = ""; break;
          case 6: rc = kvtree_util_set_double(t, key.c_str(), 0.5); val = ""; break;
        }
        total = wrap::disarm_allocs();
        ok = rc == KVTREE_SUCCESS;
        if (ok) {
          kvtree* e = kvtree_get(t, key.c_str());
          VCHECK(kvtree_size(e) == 1, "the key holds %d values", kvtree_size(e));
          string got = kvtree_elem_key(kvtree_elem_first(e));
          if (!val.empty()) VCHECK(got == val, "holds value %s instead of %s", show(got).c_str(), val.c_str());
          NodeP one = mk(); one->kids[got] = mk(); both->kids[key] = std::move(one);
        } else both->kids.erase(key);     // the old value may be gone
        break; }
      case M_MERGE: {
        wrap::arm_allocs(at, once);
        ok = kvtree_merge(t, s) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        merge_into(both.get(), x.get());
        break; }
      case M_SORT: {
        int d = sub % 4 < 2 ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING;
        wrap::arm_allocs(at, once);
        ok = (sub % 2 ? kvtree_sort_int(t, d) : kvtree_sort(t, d)) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        if (ok) {
          vector<string> o = key_order(t);
          for (size_t i = 1; i < o.size(); i++) {
            bool up = sub % 2 ? atoi(o[i - 1].c_str()) <= atoi(o[i].c_str()) : o[i - 1] <= o[i], down = sub % 2 ? atoi(o[i - 1].c_str()) >= atoi(o[i].c_str()) : o[i - 1] >= o[i];
            VCHECK(d == KVTREE_SORT_ASCENDING ? up : down, "reports success, but keys %s and %s are out of order", show(o[i - 1]).c_str(), show(o[i]).c_str());
          }
        }
        whole = true;
        break; }
      case M_LIST: {
        int n = -7; int* l = nullptr;
        wrap::arm_allocs(at, once);
        ok = kvtree_list_int(t, &n, &l) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        if (ok) { VCHECK(n == (int)m->kids.size() && (n == 0 || l), "reports success with %d of %zu keys", n, m->kids.size()); vector<int> a, b(l, l + n); for (auto& k : m->kids) a.push_back(atoi(k.first.c_str())); std::sort(a.begin(), a.end()); VCHECK(a == b, "lists other numbers"); }
        if (l) vw_free(l);
        whole = true;
        break; }
      case M_UNPACK: {
        string b = enc_tree(x.get());
        kvtree* f = kvtree_new();
        wrap::arm_allocs(at, once);
        size_t n = kvtree_unpack(b.data(), f);
        total = wrap::disarm_allocs();
        if (n == b.size()) expect_tree(f, x.get(), "unpacked tree");
        kvtree_delete(&f);
        break; }
      case M_PERSIST: {
        void* b = nullptr; size_t n = 0;
        wrap::arm_allocs(at, once);
        ok = kvtree_write_persist(&b, &n, t) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        if (ok) { string err, why; NodeP d = dec_file(string((char*)b, n), err); VCHECK(err.empty() && same_tree(d.get(), m.get(), &why), "reports success, but the bytes do not hold the tree: %s%s", err.c_str(), why.c_str()); }
        if (b) vw_free(b);
        whole = true;
        break; }
      case M_WRITE: {
        wrap::arm_allocs(at, once);
        ok = do_write(sub % NW, path, t) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        if (ok) expect_file(path, m.get(), "after a write that reports success");
        whole = true;
        break; }
      case M_READ: {
        wrap::arm_allocs(at, once);
        ok = do_read(sub % NR, path, t) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        merge_into(both.get(), x.get());
        whole = true;
        break; }
      case M_GATHER: {
        kvtree* d = build(q, ranks.ranks.get());
        set_epf(1 + sub);
        wrap::arm_allocs(at, once);
        ok = kvtree_write_to_gather(path.c_str(), d, ranks.n) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        if (ok) check_set_files(path, ranks, "after a write_to_gather that reports success");
        expect_tree(d, ranks.ranks.get(), "the tree written");
        kvtree_delete(&d);
        break; }
      case M_SCATTER: {
        wrap::arm_allocs(at, once);
        ok = kvtree_read_scatter_single(path.c_str(), t) == KVTREE_SUCCESS;
        total = wrap::disarm_allocs();
        merge_into(both.get(), ranks.ranks.get());
        whole = true;
        break; }
    }
    if (at < 0) VCHECK(ok, "fails although memory was never short");
    if (ok) expect_tree(u, both.get(), "after the reported success");
    else if (whole) expect_tree(u, m.get(), "after the reported failure");
    else {
      NodeP got = read_back(u, "after the reported failure"), kept = clone(m.get());
      if (kind == M_UTIL || kind == M_SETF) kept->kids.erase(key);
      VCHECK(within(kept.get(), got.get()), "after the reported failure keys are lost: %s", to_text(got.get(), 300).c_str());
    }
    expect_tree(s, x.get(), "the other tree");
    kvtree_delete(&t); kvtree_delete(&s);
    VCHECK(wrap::live_since(mk0) == 0, "%zu blocks remain after everything was released", wrap::live_since(mk0));
    VCHECK(wrap::open_fds() == 0, "a descriptor stays open");
  };
  case_desc("C28 %s", name.c_str());
  prep();
  try { body(-1, false); } catch (CaseFail&) { set_epf(0); wrap::disarm_allocs(); wrap::forget_fds(); throw; }
  wrap::clear_dirty();
  long n = total;
  set_max("allocations_in_one_call", n);
  vector<long> points;
  for (long i = 0; i < n; i++) points.push_back(i);
  while (points.size() > 24) { size_t i = 4 + r.below(points.size() - 4); points.erase(points.begin() + i); }
  for (long at : points) {
    bool once = r.pct(50);
    string what = name + ", allocation " + istr(at + 1) + " of " + istr(n) + (once ? "" : " and later ones") + " refused";
    prep();
    ChildEnd e = in_child([&] {
      wrap::on_exit_call = oom_exit;
      try { body(at, once); } catch (CaseFail&) { }
    }, 60);
    evaluated();
    count("refused_allocations");
    if (e.kind == ChildEnd::FAILED) fail("%s: %s", what.c_str(), e.msg.c_str());
    if (e.kind == ChildEnd::SIGNALLED) fail("%s: %s", what.c_str(), e.code == SIGALRM ? "does not return" : ("the process is ended by signal " + istr(e.code)).c_str());
    if (e.kind == ChildEnd::EXITED && e.code == 51) fail("%s: the library ends the process with exit status 0", what.c_str());
    if (e.kind == ChildEnd::EXITED && e.code != 50) fail("%s: the process ends with status %d", what.c_str(), e.code);
    count(e.kind == ChildEnd::OK ? "reported_to_the_caller" : "ended_by_the_library");
    if (kind == M_WRITE) {
      // whatever lies in the file now is an old or new record, nothing, or no record
      VCHECK(lock_free(path), "%s: the file is still locked", what.c_str());
      for (int rk = 0; rk < NR; rk++) {
        kvtree* u = kvtree_new();
        if (do_read(rk, path, u) == KVTREE_SUCCESS) {
          NodeP got = read_back(u, what.c_str());
          bool o = !missing && same_tree(got.get(), x.get()), nw = same_tree(got.get(), m.get()), none = got->kids.empty();
          VCHECK(o || nw || none, "%s: the file is read as a tree that is neither the old nor the new one", what.c_str());
        }
        kvtree_delete(&u);
      }
    }
    nontrivial(mix(mix(kind * 64 + sub, at * 2 + once), signature(m.get())));
  }
  set_epf(0);
  wrap::clear_dirty(); clean_dir(dir);
  sample(name + " with " + istr(n) + " allocations");
}

// ------------------------------------------------------------ records of 4 GiB and more
static size_t mem_available() {
  FILE* f = fopen("/proc/meminfo", "r"); char b[200]; size_t kb = 0;
  while (f && fgets(b, sizeof b, f)) if (sscanf(b, "MemAvailable: %zu", &kb) == 1) break;
  if (f) fclose(f);
  return kb * 1024;
}
static void huge(Rng& r, uint64_t) {
  if (mem_available() < (size_t)25 << 30) { count("skipped_for_lack_of_memory"); return; }
  wrap::fail_alloc_above(0);
  string path = path_in_scratch("huge");
  struct Rm { string p; ~Rm() { unlink(p.c_str()); } } rm{path};
  for (int round = 0; round < 2; round++) {
    // round 0: a record of exactly 4 GiB - 1 byte; round 1: one reaching beyond 4 GiB
    const size_t total = round == 0 ? 0xffffffffull : 0x100000000ull + 1000000 + r.below(100000000);
    string what = "a record of " + std::to_string(total) + " bytes";
    case_desc("%s", what.c_str());
    const size_t rest = total - 20 - 4 - 4;             // header, count of the root, checksum
    const size_t k1 = rest / 3, k2 = rest / 3, k3 = rest - k1 - k2;
    kvtree* t = kvtree_new();
    for (auto& x : {std::make_pair('a', k1), std::make_pair('b', k2), std::make_pair('c', k3)}) {
      string k(x.second - 5, x.first);                   // the key, its end and an empty tree
      k[r.below(k.size())] = 'z';
      kvtree_set(t, k.c_str(), nullptr);
    }
    VCHECK(kvtree_write_with_lock(path.c_str(), t) == KVTREE_SUCCESS, "%s cannot be written", what.c_str());
    kvtree_delete(&t);
    wrap::clear_dirty();
    int fd = open(path.c_str(), O_RDWR);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) die("huge");
    struct Cl { int fd; ~Cl() { close(fd); } } cl{fd};
    VCHECK((size_t)st.st_size == total, "%s: the file has %zu bytes", what.c_str(), (size_t)st.st_size);
    unsigned char* b = (unsigned char*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (b == MAP_FAILED) die("huge mmap");
    struct Um { void* b; size_t n; ~Um() { munmap(b, n); } } um{b, total};
    uint64_t sz = 0; for (int i = 0; i < 8; i++) sz = sz << 8 | b[8 + i];
    VCHECK(sz == total, "%s: size field says %llu", what.c_str(), (unsigned long long)sz);
    uint32_t c = 0; for (int i = 0; i < 4; i++) c = c << 8 | b[total - 4 + i];
    VCHECK(c == crc32_ref((char*)b, total - 4), "%s: the checksum is not that of everything before it", what.c_str());
    evaluated();
    for (int k = 0; k < 3; k++) {
      size_t at = k == 0 ? total - 100 : k == 1 ? 24 + r.below(total - 100) : 0x100000000ull - 50 - r.below(1000);
      b[at] ^= 4;
      kvtree* u = kvtree_new();
      int rc = do_read(r.below(NR), path, u);
      VCHECK(rc != KVTREE_SUCCESS && kvtree_size(u) == 0, "%s with byte %zu changed is read", what.c_str(), at);
      kvtree_delete(&u);
      b[at] ^= 4;
      evaluated(); count("damaged_huge_records");
    }
    kvtree* u = kvtree_new();
    VCHECK(do_read(R_LOCK, path, u) == KVTREE_SUCCESS, "%s cannot be read back", what.c_str());
    VCHECK(kvtree_size(u) == 3, "%s is read as %d keys", what.c_str(), kvtree_size(u));
    for (kvtree_elem* e = kvtree_elem_first(u); e; e = kvtree_elem_next(e)) VCHECK(memmem(b, total, kvtree_elem_key(e), strlen(kvtree_elem_key(e)) + 1), "%s: a key is read wrongly", what.c_str());
    kvtree_delete(&u);
    evaluated(); count("huge_records_read");
    nontrivial(total);
  }
}

// ------------------------------------------------------------ C30: no side effects
// calls on trees alone
static void quiet_calls(Rng& r) {
  NodeP m = gen_tree(r, Shape{20, 4, 15, false, r.pct(50)}), x = gen_tree(r, Shape{10, 3, 15, false, false});
  kvtree* t = build(r, m.get()); kvtree* s = build(r, x.get());
  for (int q = 0; q < 12; q++) {
    string k = !m->kids.empty() && r.pct(60) ? std::next(m->kids.begin(), r.below(m->kids.size()))->first : gen_key(r, Shape{20, 4, 15, false, false});
    if (k.size() > 900) k = "k";
    int v; unsigned long ul; double d; char* str; int64_t i64; kvtree* p = nullptr; int n = 0; int* l = nullptr;
    switch (r.below(14)) {
      case 0: kvtree_merge(t, s); break;
      case 1: kvtree_sort(t, r.pct(50) ? KVTREE_SORT_ASCENDING : KVTREE_SORT_DESCENDING); break;
      case 2: kvtree_list_int(t, &n, &l); if (l) vw_free(l); break;
      case 3: kvtree_unset(t, k.c_str()); break;
      case 4: kvtree_util_set_int(t, k.c_str(), (int)r.next()); kvtree_util_get_int(t, k.c_str(), &v); break;
      case 5: kvtree_util_set_double(t, k.c_str(), (double)(int64_t)r.next() / 7); kvtree_util_get_double(t, k.c_str(), &d); break;
      case 6: kvtree_util_set_str(t, k.c_str(), "v"); kvtree_util_get_str(t, k.c_str(), &str); break;
      case 7: kvtree_util_get_int(t, "no such key", &v); kvtree_util_get_unsigned_long(t, "no such key", &ul); kvtree_util_get_int64(t, "nor this", &i64); break;
      case 8: p = kvtree_extract(t, k.c_str()); kvtree_delete(&p); break;
      case 9: kvtree_setf(t, kvtree_new(), "%s %d", k.c_str(), (int)r.below(10)); kvtree_getf(t, "%s %d", k.c_str(), 99); break;
      case 10: { string b = pack_bytes(t); p = kvtree_new(); kvtree_unpack(b.data(), p); kvtree_delete(&p); break; }
      case 11: { void* b = nullptr; size_t z = 0; kvtree_write_persist(&b, &z, t); if (b) vw_free(b); break; }
      case 12: kvtree_get(t, k.c_str()); kvtree_get_kv(t, k.c_str(), "none"); kvtree_elem_get(t, "none"); break;
      default: kvtree_unset_all(s); break;
    }
  }
  kvtree_delete(&t); kvtree_delete(&s);
}
static void c30(Rng& r, uint64_t idx) {
  string root = path_in_scratch("c30");
  remove_tree(root);
  mkdir(root.c_str(), 0755);
  string dir = root + "/d", cwd = root + "/w";
  mkdir(dir.c_str(), 0755); mkdir(cwd.c_str(), 0755);
  char was[4096]; if (!getcwd(was, sizeof was)) die("getcwd");
  struct Back { const char* c; string root; ~Back() { if (chdir(c)) die("chdir"); set_epf(0); remove_tree(root); } } back{was, root};
  static const char* names[] = {"f", "kv", "a.b", "x y", "%s", "-n", ".h", "f.0", "ckpt.1.0", "\xc3\xa9"};
  string name = names[r.below(10)];
  Scene s = make_scene(r, (int)(idx % NO));
  struct Rel { Scene& s; ~Rel() { kvtree_delete(&s.tree); } } rel{s};
  s.dir = dir;
  // files that are none of the library's business
  static const char* near[] = {".tmp", "~", ".lock", ".bak", ".new", ".old", ".swp", ".0.99", ".1.0", ".1.99", ".0.x", ".0", ".crc", "2", ".0.0.tmp", ".0.0~", ".part", ".kvtree"};
  vector<string> decoys;
  for (auto n : near) if (r.pct(40)) decoys.push_back(dir + "/" + name + n);
  for (auto n : {".", "#", "tmp.", "new"}) if (r.pct(30)) decoys.push_back(dir + "/" + n + name);
  if (r.pct(30)) decoys.push_back(cwd + "/" + name);
  if (r.pct(30)) decoys.push_back(cwd + "/core");
  if (r.pct(30)) decoys.push_back(root + "/" + name);
  if (r.pct(30)) decoys.push_back(dir + "/tmp");
  // how the path is spelled
  string path = dir + "/" + name, spelled = path, how = "absolute path";
  bool linked = false;
  switch (r.below(7)) {
    case 0: spelled = "../d/" + name; how = "path through .."; break;
    case 1: spelled = "lnk/" + name; how = "path through a linked directory"; if (symlink("../d", (cwd + "/lnk").c_str())) die("symlink"); break;
    case 2: how = "path with doubled slashes"; spelled = dir + "//" + name; break;
    case 3: how = "path with ./"; spelled = dir + "/././" + name; if (r.pct(50)) { string d = "/."; size_t w = r.below(4050 - spelled.size()); while (d.size() < w) d += "/."; spelled = dir + d + "/" + name; } break;
    case 4: if (s.kind != O_WSET && s.kind != O_RSET) { how = "symbolic link"; linked = true; spelled = cwd + "/link to it"; if (symlink(path.c_str(), spelled.c_str())) die("symlink"); if (r.pct(50)) spelled = "link to it"; } break;
    case 5: cwd = dir; if (name[0] != '/') spelled = r.pct(50) ? name : "./" + name; how = "relative path"; break;
  }
  if (chdir(cwd.c_str())) die("chdir");
  s.path = path;
  s.prepare(r);               // empties dir
  bool missing = !is_write(s.kind) && r.one_in(8);
  if (missing) clean_dir(dir);
  bool damaged = false;
  if (!missing && !is_write(s.kind) && s.kind != O_RSET) {
    if (r.pct(25)) spew(path, enc_file(s.m.get(), false, &r));            // without a checksum
    if (r.pct(20)) {
      damaged = true;
      string x = slurp(path);
      switch (r.below(4)) {
        case 0: x.resize(r.below(x.size())); break;
        case 1: x[r.below(x.size())] ^= (char)(1 << r.below(8)); break;
        case 2: x.assign(1 + r.below(200), 'x'); break;
        default: x = ""; break;
      }
      spew(path, x);
    }
  }
  if (s.kind == O_RSET && r.pct(20)) {
    damaged = true;
    vector<string> fs = set_files(path); string f = r.pick(fs), x = slurp(f);
    if (r.pct(30)) unlink(f.c_str()); else { x.resize(r.below(x.size())); spew(f, x); }
  }
  bool earlier = s.kind == O_WSET && r.pct(30);
  if (earlier) { RankSet old = gen_ranks(r, 1 + r.below(12), 4); kvtree* d = build(r, old.ranks.get()); kvtree_write_to_gather(path.c_str(), d, old.n); kvtree_delete(&d); }
  for (auto& d : decoys) if (access(d.c_str(), F_OK)) spew(d, r.pct(50) ? enc_file(mk().get()) : "precious " + istr(r.below(1000)), 0640);
  wrap::clear_dirty();
  // the files this operation may write
  std::set<string> mine;
  if (is_write(s.kind) || s.kind == O_RLOCK || s.kind == O_RLOR) mine.insert(path);
  if (s.kind == O_WSET) for (int i = 0; i < s.set.n; i++) mine.insert(path + ".0." + istr(i));
  const bool may_change = is_write(s.kind);
  s.path = spelled;
  string what = string(oname[s.kind]) + ", " + how;
  if (missing) what += " of a missing file";
  if (damaged) what += " of a damaged file";
  case_desc("C30 %s", what.c_str());
  if (r.pct(15)) { setenv("KVTREE_VERIF_UNRELATED", "x", 1); }
  Faults f; f.rng = Rng(r.next());
  bool faults = r.pct(50);
  if (faults) {
    if (r.pct(50)) { f.transient = true; f.hard_left = r.below(3); f.p_soft = 5 + r.below(50); what += " with transient faults"; }
    else { f.persistent = true; static const wrap::Op ops[] = {wrap::OPEN, wrap::READ, wrap::WRITE, wrap::CLOSE, wrap::FSYNC, wrap::FTRUNC, wrap::LOCK, wrap::LSEEK}; f.op = ops[r.below(8)]; f.err = r.pct(50) ? EIO : ENOSPC; f.from = r.below(4); f.once = r.pct(30); what += string(" with failing ") + wrap::op_names[f.op]; }
  }
  Snap a, b;
  quiet_fd();
  snap(root, "", a);
  ProcState p0 = ProcState::now();
  int rc = 0, left = -1;
  string said = printed([&] {
    if (r.pct(50)) quiet_calls(r);
    int in = r.pct(10) ? fcntl(0, F_DUPFD_CLOEXEC, 100) : -1;    // a process without standard input
    if (in >= 0) { close(0); count("without_standard_input"); }
    wrap::begin(false);
    if (faults) wrap::ep().plan = std::ref(f);
    rc = s.run(&left);
    wrap::end();
    if (left >= 0) vw_close(left);
    if (in >= 0) { bool free0 = fcntl(0, F_GETFD) < 0; dup2(in, 0); close(in); VCHECK(free0, "%s: descriptor 0 is left open", what.c_str()); }
  });
  wrap::forget_fds();
  ProcState p1 = ProcState::now();
  p0.compare(p1, what);
  snap(root, "", b);
  evaluated();
  auto owned = [&](const string& rel) { return mine.count(root + rel) > 0; };
  only_these(a, b, [&](const string& x) { return may_change && owned(x); }, owned, what);
  if (!may_change) for (auto& e : b) if (!a.count(e.first)) VCHECK(e.second.content.empty(), "%s: the file made for a missing one is not empty", what.c_str());
  if (!faults && !missing && !damaged) VCHECK(rc == KVTREE_SUCCESS, "%s fails", what.c_str());
  if (!faults && rc == KVTREE_SUCCESS) VCHECK(said.empty(), "%s succeeds, but prints: %s", what.c_str(), show(said, 200).c_str());
  if (rc == KVTREE_SUCCESS && is_write(s.kind)) { if (s.kind == O_WSET) check_set_files(path, s.set, what); else expect_file(path, s.m.get(), what); }
  if (rc == KVTREE_SUCCESS && !is_write(s.kind) && !missing && !damaged) { NodeP w = clone(s.mine.get()); merge_into(w.get(), s.content()); expect_tree(s.tree, w.get(), what.c_str()); }
  unsetenv("KVTREE_VERIF_UNRELATED");
  wrap::clear_dirty();
  count(rc == KVTREE_SUCCESS ? "successful_operations" : "failed_operations");
  count(linked ? "through_symbolic_links" : "other_paths");
  nontrivial(mix(signature(s.content()), hash64(what)));
  sample(what + (rc == KVTREE_SUCCESS ? "" : " (fails)"));
}

// ------------------------------------------------------------ C02
static void c02(Rng& r, uint64_t idx) {
  static const CaseFn fns[] = {c09, c10, c11, c12, c12, c13, c25};
  muted = true;
  unsigned k = r.below(7);
  if (k == 1 && !r.one_in(4)) k = 3;
  wrap::forget_fds(); wrap::clear_dirty();
  uint64_t m = wrap::mark(), a0 = wrap::total_allocs();
  try { fns[k](r, idx + 1); } catch (CaseFail&) { case_failed = true; }
  count("allocations_watched", wrap::total_allocs() - a0);
  if (case_failed) { count("cases_left_early"); wrap::forget_fds(); set_epf(0); return; }
  size_t live = wrap::live_since(m);
  if (live) mem_fail("%zu blocks allocated by the library remain after everything was released (%s) [mix %u]", live, wrap::live_text(m).c_str(), k);
  if (wrap::open_fds()) mem_fail("descriptors opened by the library remain: %s", wrap::open_fds_text().c_str());
}

int main(int argc, char** argv) {
  if (argc == 4 && !strcmp(argv[1], "--deep-child")) return deep_child(atoi(argv[2]), argv[3]);
  return run_main(argc, argv, {{"c09", c09}, {"c10", c10}, {"c11", c11}, {"c11deep", c11deep}, {"c12", c12}, {"c13", c13}, {"c14", c14}, {"c17", c17}, {"c25", c25}, {"c02", c02}, {"c28", c28}, {"c30", c30}, {"c31", c31}, {"c32", c32}, {"c33", c33}, {"huge", huge}});
}
