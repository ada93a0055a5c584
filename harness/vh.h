// Common harness: PRNG, reporting, tree model, generators, independent codec.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>
#include <sys/types.h>
#include "kvtree.h"
#include "kvtree_util.h"

namespace vh {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool pct(unsigned p) { return below(100) < p; }
  bool one_in(uint64_t n) { return below(n) == 0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t hash64(const void* p, size_t n, uint64_t seed = 0x1234567);
inline uint64_t hash64(const std::string& s, uint64_t seed = 0x1234567) { return hash64(s.data(), s.size(), seed); }
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15)); return r.next(); }

// ---------------------------------------------------------------- reporting
struct Opts {
  std::string mode, report, scratch, tier = "quick", cli;
  uint64_t seed = 1;
  int worker = 0, workers = 1;
  uint64_t cases = 100;
  bool have_case = false;
  uint64_t case_seed = 0;
  uint64_t case_idx = 0;
  uint64_t max_seconds = 0;   // stop early (not a verdict)
  unsigned cpu_limit = 240;   // CPU seconds per case before it counts as a hang
  bool ignore_leaks = false;
  bool thorough() const { return tier == "thorough"; }
};
extern Opts opts;

extern bool muted;            // behavioural verdicts off: only memory monitors count (C02)
extern uint64_t case_serial;  // counts the cases of this process
extern bool case_failed;      // the current case was left through fail()/note_fail()
struct CaseFail { };          // thrown by fail() to leave a case
// records a violation of the property under test and leaves the case
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// same, without leaving the case
void note_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// a verdict of the memory monitors: counts even when muted
void mem_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// records an occurrence that may be listed as a known finding
void finding(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const std::string& name, uint64_t n = 1);
void sample(const std::string& s);             // keeps a handful
void nontrivial(uint64_t signature);           // this case is nontrivial and has this signature
void set_max(const std::string& name, uint64_t v);
void evaluated(uint64_t n = 1);                // additional executions within a case
bool failed();                                 // any violation recorded so far
void case_desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// harness error (not a verdict)
[[noreturn]] void die(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define VCHECK(c, ...) do { if (!(c)) ::vh::fail(__VA_ARGS__); } while (0)

// switches the process to a locale picked at random (C if no others are there); every case starts in one
void some_locale(Rng& r, unsigned p_other);
typedef void (*CaseFn)(Rng& r, uint64_t idx);
struct Mode { const char* name; CaseFn fn; };
extern bool (*agree_to_stop)(bool mine);   // several processes: stop together
extern void (*at_end)();                   // before the process ends normally
[[noreturn]] void abort_run();             // the process cannot go on: report and end
int run_main(int argc, char** argv, const std::vector<Mode>& modes);
// runs body in a child process, in which fail() and friends report to the parent
struct ChildEnd { enum Kind { OK, FAILED, EXITED, SIGNALLED } kind; int code; std::string msg; };
ChildEnd in_child(const std::function<void()>& body, unsigned secs);

std::string show(const std::string& bytes, size_t max = 60);   // printable form

// ---------------------------------------------------------------- model
struct Node {
  std::map<std::string, std::unique_ptr<Node>> kids;  // null value: key without a subtree
  kvtree* obj = nullptr;                               // identity tracking, where used
  ~Node();
};
typedef std::unique_ptr<Node> NodeP;
inline NodeP mk() { return NodeP(new Node); }
NodeP clone(const Node* n);
NodeP alike(Rng& r, const Node* n);                    // the same but for one byte of a key
std::string alike_bytes(Rng& r, const std::string& packed, NodeP* model);   // the same on a packed tree; model: what it holds then
void merge_into(Node* dst, const Node* src);           // union of key paths
// absent and empty subtrees compare equal
bool same_tree(const Node* a, const Node* b, std::string* why = nullptr);
size_t count_nodes(const Node* n);
size_t depth(const Node* n);
size_t packed_size(const Node* n);
uint64_t signature(const Node* n);
std::string to_text(const Node* n, size_t max = 300);

// ---------------------------------------------------------------- generators
struct Shape {
  size_t max_nodes = 30;
  size_t max_depth = 6;
  unsigned pct_null = 15;        // leaves without a subtree
  bool long_keys = true;         // allow keys beyond 200 bytes
  bool int_keys = false;         // bias to integer keys
};
std::string gen_key(Rng& r, const Shape& s);
std::vector<std::string> gen_pool(Rng& r, size_t n, const Shape& s);
NodeP gen_tree(Rng& r, const Shape& s);
NodeP gen_wide(Rng& r, size_t width, size_t under);
NodeP gen_deep(Rng& r, size_t levels);
NodeP gen_any(Rng& r, int big_ok);      // mixture, incl. empty, wide, deep, long keys

// ---------------------------------------------------------------- real trees
kvtree* build(Rng& r, const Node* n);                  // via assorted API calls
kvtree* build_into(Rng& r, kvtree* t, const Node* n);
// reads through the public API; reports duplicate keys, bad counts, disagreeing lookups
NodeP read_back(const kvtree* t, const char* what);
void expect_tree(const kvtree* t, const Node* want, const char* what);   // via read_back/equal
std::vector<std::string> key_order(const kvtree* t);

// ---------------------------------------------------------------- independent codec
std::string enc_tree(const Node* n, Rng* shuffle = nullptr);
std::string enc_file(const Node* n, bool crc = true, Rng* shuffle = nullptr, uint32_t extra_flags = 0);
uint32_t crc32_ref(const void* p, size_t n);
// decode; empty string in err on success
NodeP dec_tree(const std::string& b, size_t& pos, std::string& err);
NodeP dec_file(const std::string& b, std::string& err);

// ---------------------------------------------------------------- files
std::string slurp(const std::string& path, bool* ok = nullptr);
void spew(const std::string& path, const std::string& data, mode_t mode = 0644);
std::string path_in_scratch(const std::string& name);
void clean_dir(const std::string& dir);    // removes files directly inside dir (scratch only)
double now_s();
} // namespace vh
