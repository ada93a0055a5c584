#include "wrap.h"
#include "vh.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <map>
#include <set>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <cwchar>

namespace wrap {
const char* const op_names[NOPS] = {"open", "read", "write", "close", "fsync", "ftruncate", "lseek", "lock", "unlock", "other"};
struct Alloc { size_t size; uint64_t seq; int owner; void* ra; };
static std::mutex mu;
static std::unordered_map<void*, Alloc>& allocs() { static auto* m = new std::unordered_map<void*, Alloc>; return *m; }
static uint64_t seq = 0, n_sys = 0;
struct Fd { std::string path; dev_t dev; ino_t ino; int flags; };
static std::map<int, Fd>& fds() { static auto* m = new std::map<int, Fd>; return *m; }
typedef std::pair<dev_t, ino_t> FileId;
static std::map<FileId, std::string>& dirty() { static auto* m = new std::map<FileId, std::string>; return *m; }
static thread_local Episode episode;
static thread_local int owner = 0;
static size_t alloc_cap = (size_t) 3 << 30;     // what the workers can have at once and still fit into memory
static void default_exit(int code) {
  fflush(stdout);
  fprintf(stderr, "LIBRARY-EXIT: the library terminated the process with code %d\n", code);
  fflush(stderr);
  _exit(86);
}
void (*on_exit_call)(int) = default_exit;

Episode& ep() { return episode; }
void begin(bool record) { episode = Episode(); episode.active = true; episode.record = record; }
void end() { episode.active = false; episode.plan = nullptr; episode.delay = nullptr; }
size_t open_fds() { std::lock_guard<std::mutex> g(mu); return fds().size(); }
std::string open_fds_text() { std::lock_guard<std::mutex> g(mu); std::string o; for (auto& f : fds()) o += std::to_string(f.first) + ":" + f.second.path + " "; return o; }
bool is_open(int fd) { std::lock_guard<std::mutex> g(mu); return fds().count(fd) != 0; }
std::string fd_path(int fd) { std::lock_guard<std::mutex> g(mu); auto it = fds().find(fd); return it == fds().end() ? std::string() : it->second.path; }
void adopt_fd(int fd, const std::string& path) {
  struct stat st; memset(&st, 0, sizeof st); fstat(fd, &st);
  std::lock_guard<std::mutex> g(mu); fds()[fd] = {path, st.st_dev, st.st_ino, O_RDWR};
}
void forget_fds() { std::lock_guard<std::mutex> g(mu); fds().clear(); }
size_t dirty_files() { std::lock_guard<std::mutex> g(mu); return dirty().size(); }
std::string dirty_text() { std::lock_guard<std::mutex> g(mu); std::string o; for (auto& d : dirty()) o += d.second + " "; return o; }
void clear_dirty() { std::lock_guard<std::mutex> g(mu); dirty().clear(); }
void set_owner(int o) { owner = o; }
uint64_t mark() { std::lock_guard<std::mutex> g(mu); return seq; }
size_t live_since(uint64_t m, int o) {
  std::lock_guard<std::mutex> g(mu);
  size_t n = 0;
  for (auto& a : allocs()) if (a.second.seq > m && (o < 0 || a.second.owner == o)) n++;
  return n;
}
std::string live_text(uint64_t m, int o) {
  std::lock_guard<std::mutex> g(mu);
  std::map<size_t, size_t> by;
  std::string first;
  for (auto& a : allocs()) if (a.second.seq > m && (o < 0 || a.second.owner == o)) by[a.second.size]++;
  for (auto& b : by) first += std::to_string(b.second) + "x" + std::to_string(b.first) + "B ";
  if (first.size() > 200) first.resize(200);
  return first;
}
uint64_t total_allocs() { std::lock_guard<std::mutex> g(mu); return seq; }
uint64_t total_syscalls() { std::lock_guard<std::mutex> g(mu); return n_sys; }
void fail_alloc_above(size_t b) { alloc_cap = b; }

static void* note(void* p, size_t n) {
  if (p) { std::lock_guard<std::mutex> g(mu); allocs()[p] = Alloc{n, ++seq, owner, nullptr}; }
  return p;
}
static void drop(void* p) { if (p) { std::lock_guard<std::mutex> g(mu); allocs().erase(p); } }

// start of a call: counts it, consults the plan
struct Scope {
  Call c; Action a; Episode& e;
  Scope(Op op, int fd, const char* path, size_t len, int flags = 0) : e(episode) {
    { std::lock_guard<std::mutex> g(mu); n_sys++; }
    c.op = op; c.fd = fd; c.path = path; c.len = len; c.flags = flags;
    c.idx = e.idx++; c.opidx = e.opidx[op]++;
    e.total_calls++;
    if (op != OPEN && op != OTHER && e.active && !is_open(fd)) {
      e.complaints.push_back(std::string(op_names[op]) + " on descriptor " + std::to_string(fd) + ", which the library did not open");
    }
    if (e.active && e.delay) e.delay(c, true);
    if (e.active && e.plan) a = e.plan(c);
    if (a.kind == Action::KILL_BEFORE) kill_now();
  }
  static void kill_now() { kill(getpid(), SIGKILL); for (;;) pause(); }
  void done(int64_t ret, int err) {
    if (e.active && e.record) e.log.push_back({c.op, c.fd, ret, ret < 0 ? err : 0, c.len, c.path ? c.path : ""});
    if (a.kind == Action::KILL_AFTER) kill_now();
    if (e.active && e.delay) e.delay(c, false);
  }
};
static void set_dirty(int fd) {
  struct stat st;
  if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return;
  int fl = fcntl(fd, F_GETFL);
  if (fl >= 0 && ((fl & O_SYNC) == O_SYNC || (fl & O_DSYNC) == O_DSYNC)) return;
  std::lock_guard<std::mutex> g(mu);
  auto it = fds().find(fd);
  dirty()[{st.st_dev, st.st_ino}] = it == fds().end() ? "?" : it->second.path;
}
static void set_clean(int fd) {
  struct stat st;
  if (fstat(fd, &st) != 0) return;
  std::lock_guard<std::mutex> g(mu);
  dirty().erase({st.st_dev, st.st_ino});
}
static int finish_open(Scope& s, int fd, const char* path, int flags) {
  int e = errno;
  if (fd >= 0) {
    struct stat st; memset(&st, 0, sizeof st); fstat(fd, &st);
    { std::lock_guard<std::mutex> g(mu); fds()[fd] = {path, st.st_dev, st.st_ino, flags}; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) set_dirty(fd);
  }
  s.c.fd = fd;
  s.done(fd, e);
  errno = e;
  return fd;
}
static ssize_t do_read(int fd, size_t n, const std::function<ssize_t(size_t)>& real) {
  Scope s(READ, fd, nullptr, n);
  ssize_t r; 
  if (s.a.kind == Action::ERR) { errno = s.a.err; r = -1; }
  else if (s.a.kind == Action::ZERO) r = 0;
  else if (s.a.kind == Action::SHORT) r = real(std::min(n, s.a.n ? s.a.n : 1));
  else r = real(n);
  int e = errno; s.done(r, e); errno = e;
  return r;
}
static ssize_t do_write(int fd, size_t n, const std::function<ssize_t(size_t)>& real) {
  Scope s(WRITE, fd, nullptr, n);
  ssize_t r;
  if (s.a.kind == Action::ERR) { errno = s.a.err; r = -1; }
  else if (s.a.kind == Action::ZERO) r = 0;
  else if (s.a.kind == Action::SHORT) r = real(std::min(n, s.a.n ? s.a.n : 1));
  else if (s.a.kind == Action::KILL_PARTIAL) { if (s.a.n) { r = real(std::min(n, s.a.n)); (void)r; } Scope::kill_now(); r = -1; }
  else r = real(n);
  int e = errno;
  if (r > 0) set_dirty(fd);
  s.done(r, e); errno = e;
  return r;
}
static int do_sync(int fd, bool data) {
  Scope s(FSYNC, fd, nullptr, 0);
  int r;
  if (s.a.kind == Action::ERR) { errno = s.a.err; r = -1; }
  else { r = 0; /* the medium is not under test: count it as flushed */ if (fcntl(fd, F_GETFD) < 0) { errno = EBADF; r = -1; } }
  (void)data;
  int e = errno; if (r == 0) set_clean(fd); s.done(r, e); errno = e;
  return r;
}
static int do_ftrunc(int fd, off_t len) {
  Scope s(FTRUNC, fd, nullptr, (size_t)len);
  int r;
  if (s.a.kind == Action::ERR) { errno = s.a.err; r = -1; }
  else r = ftruncate(fd, len);
  int e = errno; if (r == 0) set_dirty(fd); s.done(r, e); errno = e;
  return r;
}
} // namespace wrap
using namespace wrap;

static const std::string* fill_src;
void wrap::fill_allocs(const std::string* with) { fill_src = with && !with->empty() ? with : nullptr; }
static void* filled(void* p, size_t n) {
  // absurd sizes stay untouched
  if (fill_src && p && n <= (64u << 20)) for (size_t i = 0; i < n; i += fill_src->size()) memcpy((char*)p + i, fill_src->data(), std::min(fill_src->size(), n - i));
  return p;
}
static thread_local bool armed = false, arm_once;
static thread_local long arm_at, arm_n, arm_failed;
void wrap::arm_allocs(long at, bool once) { armed = true; arm_once = once; arm_at = at; arm_n = 0; arm_failed = 0; }
long wrap::disarm_allocs(long* failed) { armed = false; if (failed) *failed = arm_failed; return arm_n; }
static bool refuse() {
  if (!armed) return false;
  long i = arm_n++;
  if (arm_at < 0 || !(arm_once ? i == arm_at : i >= arm_at)) return false;
  arm_failed++;
  errno = ENOMEM;
  return true;
}
extern "C" {
// ------------------------------------------------------------ allocation
void* vw_malloc(size_t n) { if (refuse()) return nullptr; if (alloc_cap && n > alloc_cap) { errno = ENOMEM; return nullptr; } return note(filled(malloc(n), n), n); }
void* vw_calloc(size_t a, size_t b) { if (refuse()) return nullptr; if (alloc_cap && b && a > alloc_cap / b) { errno = ENOMEM; return nullptr; } return note(calloc(a, b), a * b); }
void* vw_realloc(void* p, size_t n) { if (n && refuse()) return nullptr; drop(p); void* q = realloc(p, n); if (q) note(q, n); else if (p && n) note(p, 0); return q; }
void* vw_reallocarray(void* p, size_t a, size_t b) { return vw_realloc(p, a * b); }
void vw_free(void* p) { drop(p); free(p); }
char* vw_strdup(const char* s) { if (refuse()) return nullptr; char* p = strdup(s); note(p, p ? strlen(p) + 1 : 0); return p; }
char* vw___strdup(const char* s) { return vw_strdup(s); }
char* vw_strndup(const char* s, size_t n) { if (refuse()) return nullptr; char* p = strndup(s, n); note(p, p ? strlen(p) + 1 : 0); return p; }
int vw_posix_memalign(void** p, size_t a, size_t n) { if (refuse()) return ENOMEM; int r = posix_memalign(p, a, n); if (r == 0) note(*p, n); return r; }
void* vw_aligned_alloc(size_t a, size_t n) { if (refuse()) return nullptr; return note(aligned_alloc(a, n), n); }
int vw_vasprintf(char** o, const char* f, va_list ap) { if (refuse()) return -1; int r = vasprintf(o, f, ap); if (r >= 0) note(*o, r + 1); return r; }
int vw_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vw_vasprintf(o, f, ap); va_end(ap); return r; }
char* vw_realpath(const char* p, char* b) { char* r = realpath(p, b); if (r && !b) note(r, strlen(r) + 1); return r; }
// ------------------------------------------------------------ exits
void vw_exit(int c) { on_exit_call(c); _exit(86); }
void vw__exit(int c) { on_exit_call(c); _exit(86); }
void vw__Exit(int c) { on_exit_call(c); _exit(86); }
void vw_abort(void) { on_exit_call(134); _exit(86); }
// ------------------------------------------------------------ files
static int open_common(int dfd, const char* p, int flags, mode_t m) {
  Scope s(OPEN, -1, p, 0, flags);
  if (s.a.kind == Action::ERR) { errno = s.a.err; s.done(-1, s.a.err); errno = s.a.err; return -1; }
  int fd = openat(dfd, p, flags, m);
  return finish_open(s, fd, p, flags);
}
#define MODE_ARG(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int vw_open(const char* p, int flags, ...) { MODE_ARG(flags) return open_common(AT_FDCWD, p, flags, m); }
int vw_open64(const char* p, int flags, ...) { MODE_ARG(flags) return open_common(AT_FDCWD, p, flags, m); }
int vw_openat(int d, const char* p, int flags, ...) { MODE_ARG(flags) return open_common(d, p, flags, m); }
int vw_openat64(int d, const char* p, int flags, ...) { MODE_ARG(flags) return open_common(d, p, flags, m); }
int vw_creat(const char* p, mode_t m) { return open_common(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int vw_creat64(const char* p, mode_t m) { return vw_creat(p, m); }
ssize_t vw_read(int fd, void* b, size_t n) { return do_read(fd, n, [&](size_t k) { return read(fd, b, k); }); }
ssize_t vw_pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, n, [&](size_t k) { return pread(fd, b, k, o); }); }
ssize_t vw_pread64(int fd, void* b, size_t n, off_t o) { return vw_pread(fd, b, n, o); }
ssize_t vw_write(int fd, const void* b, size_t n) { return do_write(fd, n, [&](size_t k) { return write(fd, b, k); }); }
ssize_t vw_pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, n, [&](size_t k) { return pwrite(fd, b, k, o); }); }
ssize_t vw_pwrite64(int fd, const void* b, size_t n, off_t o) { return vw_pwrite(fd, b, n, o); }
static size_t iov_total(const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
static int iov_cut(const struct iovec* v, int c, size_t k, struct iovec* o) { int m = 0; for (int i = 0; i < c && k; i++) { o[m] = v[i]; if (o[m].iov_len > k) o[m].iov_len = k; k -= o[m].iov_len; m++; } return m; }
ssize_t vw_writev(int fd, const struct iovec* v, int c) { return do_write(fd, iov_total(v, c), [&](size_t k) { struct iovec o[64]; int m = iov_cut(v, std::min(c, 64), k, o); return writev(fd, o, m); }); }
ssize_t vw_readv(int fd, const struct iovec* v, int c) { return do_read(fd, iov_total(v, c), [&](size_t k) { struct iovec o[64]; int m = iov_cut(v, std::min(c, 64), k, o); return readv(fd, o, m); }); }
int vw_close(int fd) {
  Scope s(CLOSE, fd, nullptr, 0);
  bool mine = is_open(fd);
  if (!mine && s.e.active) { s.done(-1, EBADF); errno = EBADF; return -1; }   // keep the harness's own descriptors alive
  { std::lock_guard<std::mutex> g(mu); fds().erase(fd); }
  int r = close(fd), e = errno;
  if (s.a.kind == Action::ERR) { r = -1; e = s.a.err; }
  s.done(r, e); errno = e;
  return r;
}
int vw_fsync(int fd) { return do_sync(fd, false); }
int vw_fdatasync(int fd) { return do_sync(fd, true); }
int vw_syncfs(int fd) { (void)fd; clear_dirty(); return 0; }
void vw_sync(void) { clear_dirty(); }
int vw_ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int vw_ftruncate64(int fd, off_t n) { return do_ftrunc(fd, n); }
int vw_truncate(const char* p, off_t n) {
  Scope s(OTHER, -1, p, (size_t)n);
  if (s.a.kind == Action::ERR) { errno = s.a.err; return -1; }
  int r = truncate(p, n), e = errno; 
  if (r == 0) { struct stat st; if (stat(p, &st) == 0) { std::lock_guard<std::mutex> g(mu); dirty()[{st.st_dev, st.st_ino}] = p; } }
  s.done(r, e); errno = e; return r;
}
int vw_truncate64(const char* p, off_t n) { return vw_truncate(p, n); }
off_t vw_lseek(int fd, off_t o, int w) {
  Scope s(LSEEK, fd, nullptr, (size_t)o);
  off_t r; int e;
  if (s.a.kind == Action::ERR) { r = -1; e = s.a.err; } else { r = lseek(fd, o, w); e = errno; }
  s.done(r, e); errno = e; return r;
}
off_t vw_lseek64(int fd, off_t o, int w) { return vw_lseek(fd, o, w); }
int vw_flock(int fd, int op) {
  Scope s((op & LOCK_UN) ? UNLOCK : LOCK, fd, nullptr, 0);
  int r, e;
  if (s.a.kind == Action::ERR) { r = -1; e = s.a.err; } else { r = flock(fd, op); e = errno; }
  s.done(r, e); errno = e; return r;
}
static int fcntl_common(int fd, int cmd, void* arg) {
  bool lk = cmd == F_SETLK || cmd == F_SETLKW
#ifdef F_OFD_SETLK
    || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW
#endif
  ;
  if (!lk) return fcntl(fd, cmd, arg);
  struct flock* f = (struct flock*)arg;
  Scope s(f->l_type == F_UNLCK ? UNLOCK : LOCK, fd, nullptr, 0);
  int r, e;
  if (s.a.kind == Action::ERR) { r = -1; e = s.a.err; } else { r = fcntl(fd, cmd, arg); e = errno; }
  s.done(r, e); errno = e; return r;
}
int vw_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return fcntl_common(fd, cmd, a); }
int vw_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return fcntl_common(fd, cmd, a); }
int vw_lockf(int fd, int cmd, off_t n) {
  Scope s(cmd == F_ULOCK ? UNLOCK : LOCK, fd, nullptr, 0);
  int r, e;
  if (s.a.kind == Action::ERR) { r = -1; e = s.a.err; } else { r = lockf(fd, cmd, n); e = errno; }
  s.done(r, e); errno = e; return r;
}
int vw_lockf64(int fd, int cmd, off_t n) { return vw_lockf(fd, cmd, n); }
int vw_rename(const char* a, const char* b) {
  Scope s(OTHER, -1, a, 0);
  if (s.a.kind == Action::ERR) { errno = s.a.err; return -1; }
  int r = rename(a, b), e = errno; s.done(r, e); errno = e; return r;
}
int vw_unlink(const char* a) {
  Scope s(OTHER, -1, a, 0);
  if (s.a.kind == Action::ERR) { errno = s.a.err; return -1; }
  struct stat st; bool have = stat(a, &st) == 0;
  int r = unlink(a), e = errno;
  if (r == 0 && have && st.st_nlink <= 1) { std::lock_guard<std::mutex> g(mu); dirty().erase({st.st_dev, st.st_ino}); }
  s.done(r, e); errno = e; return r;
}
}
