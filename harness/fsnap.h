// What a directory tree and the process look like, before and after an operation.
#pragma once
#include "vh.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
extern char** environ;
namespace {
using namespace vh;
using std::string;
using std::vector;
// everything in a directory tree: name -> kind, permissions, content or target (and time of change)
struct Ent { string kind, content; mode_t mode; struct timespec mtime; ino_t ino; };
typedef std::map<string, Ent> Snap;
[[maybe_unused]] void snap(const string& root, const string& rel, Snap& out) {
  DIR* d = opendir((root + rel).c_str());
  if (!d) die("opendir %s", (root + rel).c_str());
  vector<string> names;
  while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) {
    string p = rel + "/" + n; struct stat st;
    if (lstat((root + p).c_str(), &st)) die("lstat");
    Ent x; x.mode = st.st_mode & 07777; x.mtime = st.st_mtim; x.ino = st.st_ino;
    if (S_ISDIR(st.st_mode)) { x.kind = "dir"; x.mtime = {0, 0}; }
    else if (S_ISLNK(st.st_mode)) { x.kind = "link"; char b[4096]; ssize_t k = readlink((root + p).c_str(), b, sizeof b); x.content.assign(b, k > 0 ? k : 0); }
    else if (S_ISREG(st.st_mode)) { x.kind = "file"; x.content = slurp(root + p); }
    else x.kind = "other";
    bool dir = x.kind == "dir";
    out[p] = std::move(x);
    if (dir) snap(root, p, out);
  }
}
[[maybe_unused]] void remove_tree(const string& dir) {         // only ever below the scratch directory
  if (dir.compare(0, opts.scratch.size() + 1, opts.scratch + "/") || dir.find("..") != string::npos) die("remove_tree %s", dir.c_str());
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  vector<string> names;
  while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) { string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str()); }
  rmdir(dir.c_str());
}
struct ProcState {
  string cwd, env, sigs, fds, loc, limits; mode_t mask; struct itimerval timer; locale_t own; int rounding;
  static ProcState now() {
    ProcState s;
    char b[8192]; s.cwd = getcwd(b, sizeof b) ? b : "?";
    for (char** e = environ; *e; e++) { s.env += *e; s.env += '\n'; }
    sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m);
    for (int i = 1; i < 32; i++) {
      struct sigaction a; memset(&a, 0, sizeof a);
      if (sigaction(i, nullptr, &a)) continue;
      s.sigs += std::to_string(i) + ":" + std::to_string((long long)(intptr_t)a.sa_handler) + "/" + std::to_string(a.sa_flags) + (sigismember(&m, i) == 1 ? "b " : " ");
    }
    DIR* d = opendir("/proc/self/fd");
    std::set<string> f;
    if (d) {
      while (struct dirent* e = readdir(d)) {
        if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
        char t[4096]; ssize_t k = readlinkat(dirfd(d), e->d_name, t, sizeof t);
        f.insert(string(e->d_name) + ">" + string(t, k > 0 ? k : 0) + "/" + std::to_string(fcntl(atoi(e->d_name), F_GETFL)) + "/" + std::to_string(fcntl(atoi(e->d_name), F_GETFD)));
      }
      closedir(d);
    }
    for (auto& x : f) s.fds += x + " ";
    s.loc = setlocale(LC_ALL, nullptr);
    s.own = uselocale((locale_t)0);
    s.rounding = fegetround();
    for (int w : {RLIMIT_NOFILE, RLIMIT_FSIZE, RLIMIT_CORE, RLIMIT_STACK, RLIMIT_AS, RLIMIT_DATA}) { struct rlimit l; if (!getrlimit(w, &l)) s.limits += std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max) + " "; }
    s.mask = umask(0); umask(s.mask);
    getitimer(ITIMER_REAL, &s.timer);
    return s;
  }
  void compare(const ProcState& o, const string& what) const {
    VCHECK(cwd == o.cwd, "%s: the working directory was %s and is now %s", what.c_str(), cwd.c_str(), o.cwd.c_str());
    VCHECK(env == o.env, "%s: the environment has changed", what.c_str());
    VCHECK(sigs == o.sigs, "%s: signal handling has changed: %s / %s", what.c_str(), sigs.c_str(), o.sigs.c_str());
    VCHECK(fds == o.fds, "%s: open descriptors were %s and are now %s", what.c_str(), fds.c_str(), o.fds.c_str());
    VCHECK(loc == o.loc, "%s: the locale has changed", what.c_str());
    VCHECK(own == o.own, "%s: the thread's locale has changed", what.c_str());
    VCHECK(rounding == o.rounding, "%s: the rounding mode has changed", what.c_str());
    VCHECK(limits == o.limits, "%s: resource limits were %s and are now %s", what.c_str(), limits.c_str(), o.limits.c_str());
    VCHECK(mask == o.mask, "%s: the file-creation mask has changed", what.c_str());
    VCHECK(!timer.it_value.tv_sec == !o.timer.it_value.tv_sec && timer.it_interval.tv_sec == o.timer.it_interval.tv_sec, "%s: a timer has changed", what.c_str());
  }
};
// nothing but the files in `may_write` may differ, nothing but they may appear
[[maybe_unused]] void only_these(const Snap& a, const Snap& b, const std::function<bool(const string&)>& may_write, const std::function<bool(const string&)>& may_appear, const string& what) {
  for (auto& e : a) {
    auto it = b.find(e.first);
    VCHECK(it != b.end(), "%s: %s is gone", what.c_str(), show(e.first, 200).c_str());
    VCHECK(it->second.kind == e.second.kind, "%s: %s is no longer a %s", what.c_str(), show(e.first, 200).c_str(), e.second.kind.c_str());
    VCHECK(it->second.mode == e.second.mode, "%s: the permissions of %s changed from %o to %o", what.c_str(), show(e.first, 200).c_str(), e.second.mode, it->second.mode);
    if (may_write(e.first)) continue;
    VCHECK(it->second.content == e.second.content, "%s: the content of %s has changed", what.c_str(), show(e.first, 200).c_str());
    VCHECK(!memcmp(&it->second.mtime, &e.second.mtime, sizeof(struct timespec)) && it->second.ino == e.second.ino, "%s: %s was written to, although with the same content", what.c_str(), show(e.first, 200).c_str());
    count("other_files_unchanged");
  }
  for (auto& e : b) if (!a.count(e.first)) {
    VCHECK(may_appear(e.first), "%s: %s was created", what.c_str(), show(e.first, 200).c_str());
    VCHECK(e.second.kind == "file", "%s: %s was created as a %s", what.c_str(), show(e.first, 200).c_str(), e.second.kind.c_str());
    count("files_created");
  }
}
// what a process prints while f runs
[[maybe_unused]] int quiet_fd() { static int mem = memfd_create("quiet", MFD_CLOEXEC); return mem; }
[[maybe_unused]] string printed(const std::function<void()>& f) {
  fflush(stdout); fflush(stderr);
  int mem = quiet_fd(), s1 = dup(1), s2 = dup(2);
  if (mem < 0 || s1 < 0 || s2 < 0) die("printed");
  if (ftruncate(mem, 0)) die("printed");
  lseek(mem, 0, SEEK_SET);
  dup2(mem, 1); dup2(mem, 2);
  auto back = [&] { fflush(stdout); fflush(stderr); dup2(s1, 1); dup2(s2, 2); close(s1); close(s2); };
  try { f(); } catch (...) { back(); throw; }
  back();
  off_t n = lseek(mem, 0, SEEK_END);
  string o(n > 400 ? 400 : n, 0);
  if (!o.empty() && pread(mem, &o[0], o.size(), 0) < 0) die("printed");
  return o;
}
}
