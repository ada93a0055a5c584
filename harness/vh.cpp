#include "vh.h"
#include <clocale>
#include <cstdarg>
#include <cinttypes>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <mutex>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3072:detect_stack_use_after_return=0:handle_abort=1:strict_string_checks=0:malloc_context_size=8:quarantine_size_mb=32:print_summary=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }

namespace vh {
Opts opts;
bool muted = false, case_failed = false;
uint64_t case_serial = 0;

uint64_t hash64(const void* p, size_t n, uint64_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  uint64_t h = seed ^ 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
  return h;
}

// ------------------------------------------------------------ reporting
struct Violation { uint64_t case_seed, case_idx; std::string msg; };
static std::mutex mu;
static std::vector<Violation> violations;
static std::vector<std::pair<std::string, std::string>> findings;   // key, text
static std::map<std::string, uint64_t> finding_counts;
static std::map<std::string, uint64_t> counters, maxima;
static std::vector<std::string> samples;
static std::unordered_set<uint64_t> sigs;
static uint64_t nontrivials = 0, evaluations = 0, cases_done = 0;
static uint64_t cur_seed = 0, cur_idx = 0;
struct Status { volatile uint64_t seed, idx; char desc[512]; };
static Status* status = nullptr;
static char* child_msg = nullptr;      // in a child process: where its verdict goes

static std::string vfmt(const char* fmt, va_list ap) {
  va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap2);
  va_end(ap2);
  std::string s(n + 1, '\0');
  vsnprintf(&s[0], n + 1, fmt, ap);
  s.resize(n);
  if (s.size() > 1500) { s.resize(1500); s += "..."; }
  return s;
}
static void add_violation(const std::string& m, bool mem = false) {
  case_failed = true;
  if (muted && !mem) return;
  if (child_msg) { if (!*child_msg) snprintf(child_msg, 1999, "%s", m.c_str()); return; }
  std::lock_guard<std::mutex> g(mu);
  if (violations.size() < 20) violations.push_back({cur_seed, cur_idx, m});
}
void fail(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  add_violation(m);
  throw CaseFail();
}
void note_fail(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  add_violation(m);
}
void mem_fail(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  add_violation(m, true);
}
void finding(const std::string& key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  std::lock_guard<std::mutex> g(mu);
  if (finding_counts[key]++ == 0) findings.push_back({key, m});
}
void count(const std::string& name, uint64_t n) { std::lock_guard<std::mutex> g(mu); counters[name] += n; }
void set_max(const std::string& name, uint64_t v) {
  std::lock_guard<std::mutex> g(mu); uint64_t& m = maxima[name]; if (v > m) m = v;
}
void sample(const std::string& s) { std::lock_guard<std::mutex> g(mu); if (samples.size() < 4) samples.push_back(s); }
void nontrivial(uint64_t sig) {
  std::lock_guard<std::mutex> g(mu);
  nontrivials++;
  if (sigs.size() < 2000000) sigs.insert(sig);
}
void evaluated(uint64_t n) { std::lock_guard<std::mutex> g(mu); evaluations += n; }
bool failed() { std::lock_guard<std::mutex> g(mu); return !violations.empty(); }
void case_desc(const char* fmt, ...) {
  if (!status) return;
  va_list ap; va_start(ap, fmt); vsnprintf(status->desc, sizeof(status->desc), fmt, ap); va_end(ap);
}
void die(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "HARNESS-ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  fflush(stderr);
  _exit(70);
}
ChildEnd in_child(const std::function<void()>& body, unsigned secs) {
  static const size_t CAP = 2000;
  static char* shared = nullptr;
  if (!shared) { shared = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shared == MAP_FAILED) die("mmap"); }
  memset(shared, 0, CAP);
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c < 0) die("fork: %s", strerror(errno));
  if (c == 0) {
    child_msg = shared;
    case_failed = false;
    signal(SIGALRM, SIG_DFL);
    alarm(secs);
    try { body(); } catch (CaseFail&) { }
    _exit(case_failed ? 60 : 0);
  }
  int st = 0;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) { }
  ChildEnd e; e.code = 0;
  if (WIFSIGNALED(st)) { e.kind = ChildEnd::SIGNALLED; e.code = WTERMSIG(st); }
  else if (WEXITSTATUS(st) == 0) e.kind = ChildEnd::OK;
  else if (WEXITSTATUS(st) == 60) { e.kind = ChildEnd::FAILED; e.msg = shared; }
  else if (WEXITSTATUS(st) == 70) die("in a child process");
  else { e.kind = ChildEnd::EXITED; e.code = WEXITSTATUS(st); }
  return e;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static void write_report(bool done) {
  std::lock_guard<std::mutex> g(mu);
  if (opts.report.empty()) {
    fprintf(stderr, "cases=%" PRIu64 " evals=%" PRIu64 " nontrivial=%" PRIu64 " distinct=%zu violations=%zu\n", cases_done, evaluations, nontrivials, sigs.size(), violations.size());
    for (auto& v : violations) fprintf(stderr, "VIOLATION case_seed=%" PRIu64 " idx=%" PRIu64 ": %s\n", v.case_seed, v.case_idx, v.msg.c_str());
    for (auto& f : findings) fprintf(stderr, "FINDING %s: %s\n", f.first.c_str(), f.second.c_str());
    for (auto& c : counters) fprintf(stderr, "  %s=%" PRIu64 "\n", c.first.c_str(), c.second);
    for (auto& c : maxima) fprintf(stderr, "  max %s=%" PRIu64 "\n", c.first.c_str(), c.second);
    return;
  }
  std::string tmp = opts.report + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if (!f) { fprintf(stderr, "HARNESS-ERROR: cannot write %s\n", tmp.c_str()); _exit(70); }
  fprintf(f, "{\"done\": %s, \"cases\": %" PRIu64 ", \"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"distinct\": %zu,\n",
          done ? "true" : "false", cases_done, evaluations, nontrivials, sigs.size());
  fprintf(f, "\"violations\": [");
  for (size_t i = 0; i < violations.size(); i++)
    fprintf(f, "%s{\"case_seed\": \"%" PRIu64 "\", \"case_idx\": %" PRIu64 ", \"msg\": %s}", i ? ",\n" : "", violations[i].case_seed, violations[i].case_idx, jstr(violations[i].msg).c_str());
  fprintf(f, "],\n\"findings\": [");
  for (size_t i = 0; i < findings.size(); i++)
    fprintf(f, "%s{\"key\": %s, \"msg\": %s, \"count\": %" PRIu64 "}", i ? ",\n" : "", jstr(findings[i].first).c_str(), jstr(findings[i].second).c_str(), finding_counts[findings[i].first]);
  fprintf(f, "],\n\"counters\": {");
  bool first = true;
  for (auto& c : counters) { fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", jstr(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n\"maxima\": {");
  first = true;
  for (auto& c : maxima) { fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", jstr(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n\"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ",\n" : "", jstr(samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  std::string hf = opts.report + ".sigs";
  FILE* h = fopen(hf.c_str(), "wb");
  if (h) { for (uint64_t s : sigs) fwrite(&s, 8, 1, h); fclose(h); }
  rename(tmp.c_str(), opts.report.c_str());
}

// A case that burns too much CPU is a hang of the code under test.
static void on_cpu(int) {
  static const char m[] = "CPU-HANG: case exceeded its CPU limit\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
static timer_t cpu_timer;
static bool have_timer = false;
static void arm_cpu(unsigned secs) {
  if (!have_timer) {
    struct sigevent ev; memset(&ev, 0, sizeof ev);
    ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR2;
    signal(SIGUSR2, on_cpu);
    if (timer_create(CLOCK_PROCESS_CPUTIME_ID, &ev, &cpu_timer) != 0) return;
    have_timer = true;
  }
  struct itimerspec it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  timer_settime(cpu_timer, 0, &it, nullptr);
}

double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

bool (*agree_to_stop)(bool) = nullptr;
void (*at_end)() = nullptr;
void abort_run() {
  if (child_msg) _exit(60);
  write_report(true);
  fflush(stdout);
  _exit(violations.empty() ? 0 : 1);
}
void some_locale(Rng& r, unsigned p_other) {
  static const bool have = getenv("LOCPATH") != nullptr;
  static const char* names[] = {"de_DE.utf8", "tr_TR.utf8", "ps_AF.utf8"};
  unsigned k = r.below(3);
  if (!have || !r.pct(p_other)) setlocale(LC_ALL, "C");
  else if (setlocale(LC_ALL, names[k])) count(std::string("locale_") + names[k]);
}
int run_main(int argc, char** argv, const std::vector<Mode>& modes) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) die("missing value for %s", a.c_str()); return argv[++i]; };
    if (a == "--mode") opts.mode = val();
    else if (a == "--seed") opts.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--worker") opts.worker = atoi(val().c_str());
    else if (a == "--workers") opts.workers = atoi(val().c_str());
    else if (a == "--cases") opts.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--report") opts.report = val();
    else if (a == "--scratch") opts.scratch = val();
    else if (a == "--tier") opts.tier = val();
    else if (a == "--cli") opts.cli = val();
    else if (a == "--cpu-limit") opts.cpu_limit = atoi(val().c_str());
    else if (a == "--max-seconds") opts.max_seconds = strtoull(val().c_str(), 0, 10);
    else if (a == "--case-seed") { opts.have_case = true; opts.case_seed = strtoull(val().c_str(), 0, 10); }
    else if (a == "--case-idx") opts.case_idx = strtoull(val().c_str(), 0, 10);
    else if (a == "--ignore-leaks") opts.ignore_leaks = true;
    else die("unknown argument %s", a.c_str());
  }
  const Mode* m = nullptr;
  for (auto& x : modes) if (opts.mode == x.name) m = &x;
  if (!m) die("unknown mode %s", opts.mode.c_str());
  if (opts.scratch.empty()) die("no scratch directory");
  mkdir(opts.scratch.c_str(), 0777);
  if (!opts.report.empty()) {
    std::string sf = opts.report + ".status";
    int fd = open(sf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
      void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) status = (Status*)p;
    }
    if (fd >= 0) close(fd);
  }
  double t0 = now_s();
  uint64_t n = opts.have_case ? 1 : opts.cases;
  for (uint64_t i = 0; i < n; i++) {
    if (opts.have_case) { cur_seed = opts.case_seed; cur_idx = opts.case_idx; }
    else {
      cur_idx = i * opts.workers + opts.worker;
      cur_seed = mix(mix(opts.seed, hash64(opts.mode)), cur_idx);
    }
    if (status) { status->seed = cur_seed; status->idx = cur_idx; status->desc[0] = 0; }
    arm_cpu(opts.cpu_limit);
    Rng r(cur_seed);
    evaluated(1);
    muted = false; case_failed = false; case_serial++;
    { Rng lr(mix(cur_seed, 0x10ca1e)); some_locale(lr, 25); }
    try { m->fn(r, cur_idx); } catch (CaseFail&) { }
    setlocale(LC_ALL, "C");
    cases_done++;
    bool stop;
    { std::lock_guard<std::mutex> g(mu); stop = violations.size() >= 5; }
    if (!stop && opts.max_seconds && now_s() - t0 > (double)opts.max_seconds) { counters["stopped_early_by_time"]++; stop = true; }
    if (agree_to_stop) stop = agree_to_stop(stop);
    if (stop) break;
  }
  arm_cpu(0);
  write_report(true);
  fflush(stdout);
  if (at_end) at_end();
  _exit(violations.empty() ? 0 : 1);
}

std::string show(const std::string& b, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < b.size() && i < max; i++) {
    unsigned char c = b[i];
    if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') { char t[8]; snprintf(t, sizeof t, "\\x%02x", c); o += t; }
    else o += (char)c;
  }
  o += "\"";
  if (b.size() > max) o += "...(" + std::to_string(b.size()) + " bytes)";
  return o;
}

// ------------------------------------------------------------ model
Node::~Node() {
  // iterative teardown, trees may be deep
  std::vector<NodeP> todo;
  for (auto& k : kids) if (k.second) todo.push_back(std::move(k.second));
  kids.clear();
  while (!todo.empty()) {
    NodeP n = std::move(todo.back()); todo.pop_back();
    for (auto& k : n->kids) if (k.second) todo.push_back(std::move(k.second));
    n->kids.clear();
  }
}
NodeP clone(const Node* n) {
  if (!n) return nullptr;
  NodeP c = mk();
  for (auto& k : n->kids) c->kids.emplace_hint(c->kids.end(), k.first, clone(k.second.get()));
  return c;
}
NodeP alike(Rng& r, const Node* n) {
  NodeP c = clone(n);
  std::vector<std::pair<Node*, std::string>> all;
  std::function<void(Node*)> walk = [&](Node* x) { if (x) for (auto& k : x->kids) { if (!k.first.empty()) all.push_back({x, k.first}); if (all.size() < 2000) walk(k.second.get()); } };
  walk(c.get());
  for (int i = 0; i < 10 && !all.empty(); i++) {
    auto& p = all[r.below(all.size())];
    std::string k = p.second; size_t at = r.below(k.size()); char was = k[at];
    k[at] = (char)(was ^ (1 << r.below(7))); if (!k[at] || k[at] == was || p.first->kids.count(k)) continue;
    NodeP sub = std::move(p.first->kids[p.second]); p.first->kids.erase(p.second); p.first->kids[k] = std::move(sub);
    break;
  }
  return c;
}
std::string alike_bytes(Rng& r, const std::string& packed, NodeP* model) {
  std::string err;
  for (int i = 0; i < 12; i++) {
    std::string b = packed; size_t at = r.pct(50) ? r.below(b.size()) : r.below(std::min<size_t>(b.size(), 24)), pos = 0;
    b[at] ^= (char)(1 << r.below(7));
    if (!b[at] || !packed[at]) continue;
    err.clear();
    NodeP n = dec_tree(b, pos, err);
    if (err.empty() && pos == b.size()) { *model = std::move(n); return b; }
  }
  size_t pos = 0; err.clear();
  *model = dec_tree(packed, pos, err);
  if (!err.empty()) die("alike_bytes: %s", err.c_str());
  return packed;
}
void merge_into(Node* d, const Node* s) {
  if (!s) return;
  for (auto& k : s->kids) {
    NodeP& x = d->kids[k.first];
    if (!x) x = mk();
    merge_into(x.get(), k.second.get());
  }
}
static bool empty(const Node* n) { return !n || n->kids.empty(); }
bool same_tree(const Node* a, const Node* b, std::string* why) {
  if (empty(a) || empty(b)) {
    if (empty(a) && empty(b)) return true;
    if (why) *why = std::string("one side is empty, the other has key ") + show((empty(a) ? b : a)->kids.begin()->first);
    return false;
  }
  auto i = a->kids.begin(), j = b->kids.begin();
  while (i != a->kids.end() || j != b->kids.end()) {
    if (j == b->kids.end() || (i != a->kids.end() && i->first < j->first)) { if (why) *why = "extra key " + show(i->first); return false; }
    if (i == a->kids.end() || j->first < i->first) { if (why) *why = "missing key " + show(j->first); return false; }
    if (!same_tree(i->second.get(), j->second.get(), why)) { if (why) *why = show(i->first, 20) + "/" + *why; return false; }
    ++i; ++j;
  }
  return true;
}
size_t count_nodes(const Node* n) {
  if (!n) return 0;
  size_t c = n->kids.size();
  for (auto& k : n->kids) c += count_nodes(k.second.get());
  return c;
}
size_t depth(const Node* n) {
  if (empty(n)) return 0;
  size_t d = 0;
  for (auto& k : n->kids) d = std::max(d, depth(k.second.get()));
  return d + 1;
}
size_t packed_size(const Node* n) {
  size_t s = 4;
  if (n) for (auto& k : n->kids) s += k.first.size() + 1 + packed_size(k.second.get());
  return s;
}
uint64_t signature(const Node* n) {
  uint64_t h = 0x51ed270b;
  if (n) for (auto& k : n->kids) h = mix(h ^ hash64(k.first), signature(k.second.get()));
  return h;
}
static void text(const Node* n, std::string& o, size_t max) {
  if (!n) { o += "-"; return; }
  o += "{";
  bool f = true;
  for (auto& k : n->kids) {
    if (o.size() > max) { o += "..."; break; }
    if (!f) o += ",";
    f = false;
    o += show(k.first, 16);
    if (k.second && !k.second->kids.empty()) { o += ":"; text(k.second.get(), o, max); }
    else if (!k.second) o += ":-";
  }
  o += "}";
}
std::string to_text(const Node* n, size_t max) { std::string o; text(n, o, max); return o; }

// ------------------------------------------------------------ generators
static const char* const fixed_keys[] = {
  "", " ", "  ", "a", "b", "ab", "abc", "A", "aa", "0", "1", "2", "10", "00", "01", "-1", "-0", "+1", "2147483647", "-2147483648",
  "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "Ez", "FY", "abc\n", "\n", "\t", "%s", "%d%n", "%", "/", "/tmp/x", ".", "..", "key with spaces",
  "FILE", "RANK", "RANKS", "LEVEL", "OFFSET", "D", "S", "=", "k = v", "\x7f", "\x80", "\xff", "\xff\xff", "\xc3\xa9", "NULL", "(nil)", "0x0", "1.5", "stop", "listen", "silent" };
std::string gen_key(Rng& r, const Shape& s) {
  if (s.int_keys && r.pct(80)) {
    switch (r.below(4)) {
      case 0: return std::to_string(r.below(20));
      case 1: return std::to_string((int32_t)r.next());
      case 2: return std::to_string(r.range(-50, 50));
      default: return std::to_string(r.below(100000));
    }
  }
  unsigned k = r.below(100);
  if (k < 45) return fixed_keys[r.below(sizeof fixed_keys / sizeof *fixed_keys)];
  if (k < 60) { std::string o; size_t n = r.below(4); for (size_t i = 0; i < n; i++) o += (char)('a' + r.below(3)); return o; }
  if (k < 75) { std::string o; size_t n = r.below(24); for (size_t i = 0; i < n; i++) o += (char)(1 + r.below(255)); return o; }
  if (k < 88) return std::to_string((int32_t)r.next() >> r.below(31));
  if (k < 96 || !s.long_keys) {  // shared prefixes, differing late
    static const size_t L[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129};
    size_t n = L[r.below(sizeof L / sizeof *L)];
    std::string o(n, 'p');
    o[n - 1] = (char)('a' + r.below(3));
    if (r.pct(30)) o[n / 2] = (char)('a' + r.below(3));
    return o;
  }
  static const size_t L[] = {254, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 8192, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
  size_t lim = r.pct(12) ? sizeof L / sizeof *L : 12;
  size_t n = L[r.below(lim)];
  std::string o(n, (char)('a' + r.below(2)));
  o[n - 1] = (char)('a' + r.below(3));
  return o;
}
std::vector<std::string> gen_pool(Rng& r, size_t n, const Shape& s) {
  std::vector<std::string> v;
  while (v.size() < n) {
    std::string k = gen_key(r, s);
    if (!v.empty() && r.pct(15)) {        // mutations of an earlier key
      k = r.pick(v);
      switch (r.below(7)) {
        case 4: if (!k.empty()) { static const char f[] = {0x20, (char)0x80, 0x40, 0x10}; size_t i = r.pct(50) ? r.below(k.size()) : k.size() - 1; k[i] ^= f[r.below(4)]; if (!k[i]) k[i] = 1; } break;
        case 5: for (char& c : k) if (isalpha((unsigned char)c)) c ^= 0x20; break;
        case 6: { static const char* w[] = {" ", "0", "+", "\t", "-", "\n", "/", "."}; const char* x = w[r.below(8)]; k = r.pct(50) ? x + k : k + x; break; }
        case 0: k += (char)('a' + r.below(3)); break;
        case 1: if (!k.empty()) k.pop_back(); break;
        case 2: if (!k.empty()) { k[r.below(k.size())] ^= 1; for (char& c : k) if (!c) c = 1; } break;
        default: if (k.size() > 1) std::swap(k[0], k[k.size() - 1]); break;
      }
    }
    v.push_back(k);
  }
  return v;
}
static void grow(Rng& r, Node* n, const std::vector<std::string>& pool, const Shape& s, size_t& budget, size_t lvl) {
  size_t w = 1 + r.below(std::min<size_t>(budget, lvl == 0 ? 8 : 4) + 1);
  for (size_t i = 0; i < w && budget > 0; i++) {
    const std::string& k = r.pick(pool);
    if (n->kids.count(k)) continue;
    budget--;
    NodeP& x = n->kids[k];
    if (r.pct(s.pct_null)) continue;
    x = mk();
    if (lvl + 1 < s.max_depth && r.pct(lvl == 0 ? 60 : 45)) grow(r, x.get(), pool, s, budget, lvl + 1);
  }
}
NodeP gen_tree(Rng& r, const Shape& s) {
  NodeP n = mk();
  if (r.one_in(25)) return n;
  auto pool = gen_pool(r, 3 + r.below(20), s);
  size_t budget = 1 + r.below(s.max_nodes);
  grow(r, n.get(), pool, s, budget, 0);
  return n;
}
NodeP gen_wide(Rng& r, size_t width, size_t under) {
  NodeP n = mk();
  for (size_t i = 0; i < width; i++) {
    NodeP& x = n->kids[std::to_string(i * 7 + 1)];
    if (r.pct(20)) continue;
    x = mk();
    for (size_t j = 0; j < under; j++) x->kids["u" + std::to_string(j)] = r.pct(50) ? mk() : nullptr;
  }
  return n;
}
NodeP gen_deep(Rng& r, size_t levels) {
  NodeP n = mk();
  Node* c = n.get();
  for (size_t i = 0; i < levels; i++) {
    if (r.one_in(20)) c->kids["side"] = mk();
    NodeP& x = c->kids[r.pct(50) ? std::string("d") : std::to_string(i)];
    x = mk();
    c = x.get();
  }
  return n;
}
// big_ok: 0 small, 1 up to thousands of keys in one level, 2 beyond 65535
NodeP gen_any(Rng& r, int big_ok) {
  unsigned k = r.below(100);
  Shape s;
  if (k < 4) return mk();
  if (k < 70) { s.max_nodes = 2 + r.below(40); return gen_tree(r, s); }
  if (k < 80) { s.int_keys = true; s.max_nodes = 60; return gen_tree(r, s); }
  if (k < 86) return gen_deep(r, 1 + r.below(big_ok && r.pct(30) ? 1500 : 80));
  if (k < 92) { NodeP n = gen_tree(r, s); n->kids[std::string(1000 + r.below(big_ok ? 200000 : 3000), 'L')] = mk(); return n; }
  if (!big_ok || r.pct(70)) return gen_wide(r, 50 + r.below(300), r.below(3));
  static const size_t W[] = {255, 256, 257, 1000, 4096, 5000, 32767, 32768, 65535, 65536, 65537, 70000};
  return gen_wide(r, W[r.below(big_ok > 1 && r.pct(25) ? 12 : 6)], r.below(2));
}

// ------------------------------------------------------------ real trees
static void drop_empty(kvtree* t, const Node* n) {
  // unpacking gives every element a subtree: remove those the model lacks
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    auto it = n->kids.find(kvtree_elem_key(e));
    if (it == n->kids.end()) continue;
    if (!it->second) kvtree_delete(&e->hash);
    else if (e->hash) drop_empty(e->hash, it->second.get());
  }
}
kvtree* build_into(Rng& r, kvtree* t, const Node* n) {
  if (n->kids.size() > 600) {
    // quadratic to build key by key: unpack the wide level
    std::string b = enc_tree(n, r.pct(70) ? &r : nullptr);
    kvtree_unpack(b.data(), t);
    drop_empty(t, n);
    return t;
  }
  std::vector<const std::pair<const std::string, NodeP>*> order;
  for (auto& k : n->kids) order.push_back(&k);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  for (auto* k : order) {
    const std::string& key = k->first;
    if (!k->second) { kvtree_set(t, key.c_str(), nullptr); continue; }
    kvtree* sub;
    if (key.size() <= 1023 && r.one_in(8)) sub = kvtree_setf(t, kvtree_new(), "%s", key.c_str());
    else if (r.one_in(4) && k->second->kids.size() > 0) {
      // create the key through one of its pairs
      auto& fk = *k->second->kids.begin();
      kvtree_set_kv(t, key.c_str(), fk.first.c_str());
      sub = kvtree_get(t, key.c_str());
    }
    else sub = kvtree_set(t, key.c_str(), kvtree_new());
    if (!sub) die("build: no subtree for a key");
    build_into(r, sub, k->second.get());
  }
  return t;
}
kvtree* build(Rng& r, const Node* n) {
  kvtree* t = kvtree_new();
  if (n) build_into(r, t, n);
  return t;
}
static size_t rb_nodes;
static NodeP rb(const kvtree* t, const char* what, size_t lvl) {
  if (!t) return nullptr;
  if (lvl > 200000) fail("%s: nesting does not end", what);
  NodeP n = mk();
  n->obj = (kvtree*)t;
  size_t c = 0;
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) {
    c++;
    if (++rb_nodes > 3000000) fail("%s: iteration does not end", what);
    const char* k = kvtree_elem_key(e);
    if (!k) fail("%s: element without a key", what);
    auto ins = n->kids.emplace(k, nullptr);
    if (!ins.second) fail("%s: key %s appears twice at one level", what, show(k).c_str());
    ins.first->second = rb(kvtree_elem_hash(e), what, lvl + 1);
  }
  int sz = kvtree_size(t);
  if (sz < 0 || (size_t)sz != c) fail("%s: size says %d, iteration found %zu", what, sz, c);
  return n;
}
NodeP read_back(const kvtree* t, const char* what) { rb_nodes = 0; return rb(t, what, 0); }
void expect_tree(const kvtree* t, const Node* want, const char* what) {
  NodeP got = read_back(t, what);
  std::string why;
  if (!same_tree(got.get(), want, &why))
    fail("%s: tree differs (found vs expected): %s; found %s expected %s", what, why.c_str(), to_text(got.get(), 200).c_str(), to_text(want, 200).c_str());
}
std::vector<std::string> key_order(const kvtree* t) {
  std::vector<std::string> v;
  for (kvtree_elem* e = kvtree_elem_first(t); e; e = kvtree_elem_next(e)) v.push_back(kvtree_elem_key(e));
  return v;
}

// ------------------------------------------------------------ codec
static void p32(std::string& o, uint32_t v) { for (int i = 3; i >= 0; i--) o += (char)(v >> (8 * i)); }
static void enc(const Node* n, std::string& o, Rng* sh) {
  p32(o, n ? (uint32_t)n->kids.size() : 0);
  if (!n) return;
  if (!sh) { for (auto& k : n->kids) { o += k.first; o += '\0'; enc(k.second.get(), o, sh); } return; }
  std::vector<const std::pair<const std::string, NodeP>*> v;
  for (auto& k : n->kids) v.push_back(&k);
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[sh->below(i)]);
  for (auto* k : v) { o += k->first; o += '\0'; enc(k->second.get(), o, sh); }
}
std::string enc_tree(const Node* n, Rng* sh) { std::string o; enc(n, o, sh); return o; }
uint32_t crc32_ref(const void* p, size_t n) {
  // bitwise, on purpose: shares nothing with zlib
  static uint32_t tab[256]; static bool init = false;
  if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c & 1) ? 0xedb88320u ^ (c >> 1) : c >> 1; tab[i] = c; } init = true; }
  uint32_t c = 0xffffffffu;
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) c = tab[(c ^ b[i]) & 0xff] ^ (c >> 8);
  return c ^ 0xffffffffu;
}
std::string enc_file(const Node* n, bool crc, Rng* sh, uint32_t extra) {
  std::string d = enc_tree(n, sh), o;
  p32(o, 0x951fc3f5u);
  o += '\0'; o += '\1'; o += '\0'; o += '\1';
  uint64_t sz = 20 + d.size() + (crc ? 4 : 0);
  p32(o, (uint32_t)(sz >> 32)); p32(o, (uint32_t)sz);
  p32(o, (crc ? 1u : 0u) | extra);
  o += d;
  if (crc) p32(o, crc32_ref(o.data(), o.size()));
  return o;
}
static uint32_t g32(const std::string& b, size_t p) {
  return ((uint32_t)(unsigned char)b[p] << 24) | ((uint32_t)(unsigned char)b[p + 1] << 16) | ((uint32_t)(unsigned char)b[p + 2] << 8) | (unsigned char)b[p + 3];
}
static NodeP dec(const std::string& b, size_t& pos, std::string& err, size_t lvl) {
  if (b.size() - pos < 4) { err = "truncated count"; return nullptr; }
  uint32_t c = g32(b, pos); pos += 4;
  NodeP n = mk();
  if (lvl > 100000) { err = "too deep"; return n; }
  for (uint32_t i = 0; i < c; i++) {
    size_t e = b.find('\0', pos);
    if (e == std::string::npos) { err = "unterminated key"; return n; }
    std::string k = b.substr(pos, e - pos);
    pos = e + 1;
    NodeP x = dec(b, pos, err, lvl + 1);
    if (!err.empty()) return n;
    if (!n->kids.emplace(std::move(k), std::move(x)).second) { err = "duplicate key"; return n; }
  }
  return n;
}
NodeP dec_tree(const std::string& b, size_t& pos, std::string& err) { err.clear(); return dec(b, pos, err, 0); }
NodeP dec_file(const std::string& b, std::string& err) {
  err.clear();
  if (b.size() < 24) { err = "file of " + std::to_string(b.size()) + " bytes is too short"; return nullptr; }
  if (g32(b, 0) != 0x951fc3f5u) { err = "bad magic"; return nullptr; }
  if (g32(b, 4) != 0x00010001u) { err = "bad type or version"; return nullptr; }
  uint64_t sz = ((uint64_t)g32(b, 8) << 32) | g32(b, 12);
  if (sz != b.size()) { err = "size field says " + std::to_string(sz) + ", file has " + std::to_string(b.size()) + " bytes"; return nullptr; }
  uint32_t fl = g32(b, 16);
  if (fl != 1) { err = "flags are not just the crc flag: " + std::to_string(fl); return nullptr; }
  size_t pos = 20;
  NodeP n = dec_tree(b, pos, err);
  if (!err.empty()) return nullptr;
  if (pos + 4 != b.size()) { err = "data does not end where the crc starts"; return nullptr; }
  if (crc32_ref(b.data(), pos) != g32(b, pos)) { err = "crc mismatch"; return nullptr; }
  return n;
}

// ------------------------------------------------------------ files
std::string slurp(const std::string& path, bool* ok) {
  std::string o;
  int fd = open(path.c_str(), O_RDONLY);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return o;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) o.append(buf, n);
  close(fd);
  return o;
}
void spew(const std::string& path, const std::string& d, mode_t mode) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
  if (fd < 0) die("cannot create %s: %s", path.c_str(), strerror(errno));
  size_t p = 0;
  while (p < d.size()) { ssize_t n = write(fd, d.data() + p, d.size() - p); if (n <= 0) die("write %s: %s", path.c_str(), strerror(errno)); p += n; }
  close(fd);
}
std::string path_in_scratch(const std::string& name) { return opts.scratch + "/" + name; }
void clean_dir(const std::string& dir) {
  if (dir.compare(0, opts.scratch.size(), opts.scratch) != 0) die("clean_dir outside scratch: %s", dir.c_str());
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (struct dirent* e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    if (unlinkat(dirfd(d), e->d_name, 0) != 0 && (errno == EISDIR || errno == EPERM)) {
      clean_dir(dir + "/" + e->d_name);
      unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
    }
  }
  closedir(d);
}
} // namespace vh
