// Monitor for everything the library's objects ask of libc: allocations and file
// system calls (their undefined symbols are renamed to vw_* with objcopy).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <sys/types.h>

namespace wrap {
enum Op { OPEN, READ, WRITE, CLOSE, FSYNC, FTRUNC, LSEEK, LOCK, UNLOCK, OTHER, NOPS };
extern const char* const op_names[NOPS];

struct Call {
  Op op;
  int fd;               // -1 for open
  const char* path;     // for open/rename/..., else null
  size_t len;           // transfer size requested, or new length for ftruncate
  uint64_t idx;         // index of this call within the current episode
  uint64_t opidx;       // index among calls of the same op
  int flags;            // open flags
};
struct Action {
  enum Kind { NONE, ERR, SHORT, ZERO, KILL_BEFORE, KILL_AFTER, KILL_PARTIAL, ERR_AFTER } kind = NONE;
  int err = 0;
  size_t n = 0;         // bytes to let through (SHORT, KILL_PARTIAL)
};
struct Rec { Op op; int fd; int64_t ret; int err; size_t len; std::string path; };

// per-thread episode: one public API call (or a few) under observation
struct Episode {
  bool active = false;
  bool record = false;
  uint64_t idx = 0;
  uint64_t opidx[NOPS] = {0};
  std::vector<Rec> log;
  std::function<Action(const Call&)> plan;      // faults
  std::function<void(const Call&, bool before)> delay;
  std::vector<std::string> complaints;          // e.g. acted on a foreign descriptor
  uint64_t total_calls = 0;
};
Episode& ep();                       // of this thread
void begin(bool record = false);     // starts an episode (clears state)
void end();

// descriptors opened by the library and not closed yet
size_t open_fds();
std::string open_fds_text();
bool is_open(int fd);
std::string fd_path(int fd);         // path a descriptor was opened with, "" if not the library's
void adopt_fd(int fd, const std::string& path);   // descriptor handed to the library by the harness
void forget_fds();

// files modified since their last flush (by device/inode)
size_t dirty_files();
std::string dirty_text();
void clear_dirty();

// allocation ledger
void set_owner(int owner);           // attribute this thread's allocations (MPI ranks)
uint64_t mark();                     // allocations so far
size_t live_since(uint64_t mark, int owner = -1);
std::string live_text(uint64_t mark, int owner = -1);
uint64_t total_allocs();
uint64_t total_syscalls();
void fail_alloc_above(size_t bytes); // 0: off
void fill_allocs(const std::string* with); // fresh memory starts out as these bytes, repeated; null: off (one thread only)

// this thread's next allocations: count them, and fail number `at` (0-based), and all later ones unless once
void arm_allocs(long at, bool once);     // at < 0: only count
long disarm_allocs(long* failed = nullptr);   // allocations asked for since armed

// what to do when the library calls exit/abort/_exit
extern void (*on_exit_call)(int code);
}
extern "C" void vw_free(void* p);    // releases a buffer the library handed out
extern "C" int vw_close(int fd);     // closes a descriptor the library handed out
