// The operating system as seen by bant: every call that looks at the file
// system is counted and can be made to fail, directories can be listed in any
// order, and calls that change something are recorded.
#ifndef VERIF_OSENV_H
#define VERIF_OSENV_H
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <poll.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace osenv {
enum Kind { kOpen, kRead, kStat, kAccess, kOpendir, kReaddir, kGlob, kGetcwd, kReadlink, kNumKinds };
inline const char *const kNames[] = {"open", "read", "stat", "access", "opendir", "readdir", "glob", "getcwd", "readlink"};
struct Env {
  bool on = false;
  // Failures
  std::vector<std::pair<Kind, std::string>> calls;  // seen
  std::set<int> fail;     // numbers of calls
  int fail_from = -1;     // all from there
  int variant = 0;        // of the failure
  int failed = 0;
  // Order of directories: permutation number for each
  std::map<std::string, int> order;
  std::pair<int, int> move = {0, 0};  // one entry to another place
  bool unknown_types = false;
  std::map<DIR *, std::string> dirs;
  struct Listing {
    std::vector<struct dirent> entries;
    size_t next = 0;
  };
  std::map<DIR *, Listing> listings;
  std::map<std::string, int> dir_sizes;  // seen
  // Changes
  std::vector<std::string> changes;
};
inline Env env;

inline bool Fails(Kind k, const char *what) {
  if (!env.on) return false;
  const int n = env.calls.size();
  env.calls.push_back({k, what ? what : ""});
  if (env.fail.count(n) || (env.fail_from >= 0 && n >= env.fail_from)) {
    ++env.failed;
    return true;
  }
  return false;
}
inline void Changes(const char *call, const char *what) {
  if (env.on) env.changes.push_back(std::string(call) + " " + (what ? what : ""));
}
template <typename F>
F Real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
inline int Errno() {
  static const int e[] = {EACCES, ENOENT, EIO, EMFILE};
  return e[env.variant & 3];
}
}  // namespace osenv

#define OSENV_REAL(name, type) static auto real = osenv::Real<type>(#name)
extern "C" {
static int OsenvOpen(int at, const char *p, int flags, mode_t m) {
  OSENV_REAL(openat, int (*)(int, const char *, int, ...));
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND))) {
    osenv::Changes("open", p);
    if (osenv::env.on) return errno = EACCES, -1;
  }
  if (osenv::Fails(osenv::kOpen, p)) return errno = osenv::Errno(), -1;
  return real(at, p, flags, m);
}
#define OSENV_OPEN(name)                                   \
  int name(const char *p, int flags, ...) {                \
    va_list ap;                                            \
    va_start(ap, flags);                                   \
    const mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; \
    va_end(ap);                                            \
    return OsenvOpen(AT_FDCWD, p, flags, m);               \
  }
OSENV_OPEN(open)
OSENV_OPEN(open64)
int openat(int at, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return OsenvOpen(at, p, flags, m);
}
#define OSENV_FOPEN(name)                                                  \
  FILE *name(const char *p, const char *mode) {                            \
    OSENV_REAL(name, FILE * (*)(const char *, const char *));              \
    if (strpbrk(mode, "wa+")) {                                            \
      osenv::Changes("fopen", p);                                          \
      if (osenv::env.on) return errno = EACCES, nullptr;                   \
    }                                                                      \
    if (osenv::Fails(osenv::kOpen, p)) return errno = osenv::Errno(), nullptr; \
    return real(p, mode);                                                  \
  }
OSENV_FOPEN(fopen)
OSENV_FOPEN(fopen64)
ssize_t read(int fd, void *buf, size_t n) {
  OSENV_REAL(read, ssize_t(*)(int, void *, size_t));
  if (osenv::Fails(osenv::kRead, "")) {
    if (osenv::env.variant & 1) return 0;  // shorter than expected
    return errno = EIO, -1;
  }
  return real(fd, buf, n);
}
#define OSENV_STAT(name, S)                                              \
  int name(const char *p, struct S *s) noexcept {                        \
    OSENV_REAL(name, int (*)(const char *, struct S *));                 \
    if (osenv::Fails(osenv::kStat, p)) return errno = osenv::Errno(), -1; \
    return real(p, s);                                                   \
  }
OSENV_STAT(stat, stat)
OSENV_STAT(lstat, stat)
OSENV_STAT(stat64, stat64)
OSENV_STAT(lstat64, stat64)
int fstat(int fd, struct stat *s) noexcept {
  OSENV_REAL(fstat, int (*)(int, struct stat *));
  if (osenv::Fails(osenv::kStat, "descriptor")) return errno = EIO, -1;
  return real(fd, s);
}
int fstatat(int fd, const char *p, struct stat *s, int fl) noexcept {
  OSENV_REAL(fstatat, int (*)(int, const char *, struct stat *, int));
  if (osenv::Fails(osenv::kStat, p)) return errno = osenv::Errno(), -1;
  return real(fd, p, s, fl);
}
int access(const char *p, int mode) noexcept {
  OSENV_REAL(access, int (*)(const char *, int));
  if (osenv::Fails(osenv::kAccess, p)) return errno = osenv::Errno(), -1;
  return real(p, mode);
}
int faccessat(int fd, const char *p, int mode, int fl) noexcept {
  OSENV_REAL(faccessat, int (*)(int, const char *, int, int));
  if (osenv::Fails(osenv::kAccess, p)) return errno = osenv::Errno(), -1;
  return real(fd, p, mode, fl);
}
}
// A permutation of the entries by its number, all reversed, or one moved.
template <typename It>
static void OsenvOrder(const std::string &name, It first, It end) {
  osenv::env.dir_sizes[name] = end - first;
  auto o = osenv::env.order.find(name);
  if (o == osenv::env.order.end()) o = osenv::env.order.find("*");
  if (o == osenv::env.order.end()) return;
  const auto [from, to] = osenv::env.move;
  if (std::max(from, to) < end - first) {
    if (from < to) std::rotate(first + from, first + from + 1, first + to + 1);
    if (from > to) std::rotate(first + to, first + from, first + from + 1);
  }
  if (o->second < 0) {
    std::reverse(first, end);
    return;
  }
  int k = o->second;
  for (auto it = first; it != end; ++it) {
    const int left = end - it;
    std::rotate(it, it + k % left, it + k % left + 1);
    k /= left;
  }
}
static void OsenvList(DIR *d, const std::string &name) {
  static auto real_readdir = osenv::Real<struct dirent *(*)(DIR *)>("readdir");
  osenv::env.dirs[d] = name;
  auto &l = osenv::env.listings[d];
  while (struct dirent *e = real_readdir(d)) l.entries.push_back(*e);
  std::sort(l.entries.begin(), l.entries.end(), [](auto &a, auto &b) { return strcmp(a.d_name, b.d_name) < 0; });
  if (osenv::env.unknown_types)
    for (auto &e : l.entries) e.d_type = DT_UNKNOWN;
  // . and .. come first
  auto first = std::stable_partition(l.entries.begin(), l.entries.end(), [](auto &e) { return strcmp(e.d_name, ".") == 0 || strcmp(e.d_name, "..") == 0; });
  OsenvOrder(name, first, l.entries.end());
}
extern "C" {
DIR *opendir(const char *p) {
  OSENV_REAL(opendir, DIR * (*)(const char *));
  if (osenv::Fails(osenv::kOpendir, p)) return errno = osenv::Errno(), nullptr;
  DIR *const d = real(p);
  if (d && osenv::env.on) OsenvList(d, p);
  return d;
}
DIR *fdopendir(int fd) {
  OSENV_REAL(fdopendir, DIR * (*)(int));
  if (osenv::Fails(osenv::kOpendir, "descriptor")) return errno = osenv::Errno(), nullptr;
  DIR *const d = real(fd);
  if (d && osenv::env.on) {
    char name[4096];
    const bool on = osenv::env.on;
    osenv::env.on = false;
    const ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), name, sizeof(name));
    osenv::env.on = on;
    OsenvList(d, std::string(name, n > 0 ? n : 0));
  }
  return d;
}
struct dirent *readdir(DIR *d) {
  OSENV_REAL(readdir, struct dirent * (*)(DIR *));
  auto it = osenv::env.listings.find(d);
  if (it == osenv::env.listings.end()) return real(d);
  if (osenv::Fails(osenv::kReaddir, osenv::env.dirs[d].c_str())) return errno = EIO, nullptr;
  auto &l = it->second;
  return l.next < l.entries.size() ? &l.entries[l.next++] : nullptr;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
  OSENV_REAL(closedir, int (*)(DIR *));
  osenv::env.listings.erase(d);
  osenv::env.dirs.erase(d);
  return real(d);
}
int glob(const char *p, int flags, int (*err)(const char *, int), glob_t *g) {
  OSENV_REAL(glob, int (*)(const char *, int, int (*)(const char *, int), glob_t *));
  if (osenv::Fails(osenv::kGlob, p)) return GLOB_NOSPACE;
  const bool on = osenv::env.on;
  osenv::env.on = false;  // what it does internally
  const int r = real(p, flags, err, g);
  osenv::env.on = on;
  if (on && r == 0 && (flags & GLOB_NOSORT)) {  // As the directory has it
    char **const first = g->gl_pathv + ((flags & GLOB_DOOFFS) ? g->gl_offs : 0);
    std::sort(first, first + g->gl_pathc, [](char *a, char *b) { return strcmp(a, b) < 0; });
    OsenvOrder(std::string("glob ") + p, first, first + g->gl_pathc);
  }
  return r;
}
char *getcwd(char *b, size_t n) noexcept {
  OSENV_REAL(getcwd, char *(*)(char *, size_t));
  if (osenv::Fails(osenv::kGetcwd, "")) return errno = ENOENT, nullptr;
  return real(b, n);
}
ssize_t readlink(const char *p, char *b, size_t n) noexcept {
  OSENV_REAL(readlink, ssize_t(*)(const char *, char *, size_t));
  if (osenv::Fails(osenv::kReadlink, p)) return errno = osenv::Errno(), -1;
  return real(p, b, n);
}
char *realpath(const char *p, char *b) noexcept {
  OSENV_REAL(realpath, char *(*)(const char *, char *));
  if (osenv::Fails(osenv::kReadlink, p)) return errno = osenv::Errno(), nullptr;
  return real(p, b);
}
// Changes: while bant runs, recorded and not done.
#define OSENV_CHANGE(name, params, args, what, ...)         \
  int name params noexcept {                                \
    OSENV_REAL(name, int (*)(__VA_ARGS__));                 \
    if (osenv::env.on) return osenv::Changes(#name, what), errno = EACCES, -1; \
    return real args;                                       \
  }
OSENV_CHANGE(mkdir, (const char *p, mode_t m), (p, m), p, const char *, mode_t)
OSENV_CHANGE(mkdirat, (int d, const char *p, mode_t m), (d, p, m), p, int, const char *, mode_t)
OSENV_CHANGE(rmdir, (const char *p), (p), p, const char *)
OSENV_CHANGE(unlink, (const char *p), (p), p, const char *)
OSENV_CHANGE(unlinkat, (int d, const char *p, int f), (d, p, f), p, int, const char *, int)
OSENV_CHANGE(remove, (const char *p), (p), p, const char *)
OSENV_CHANGE(rename, (const char *p, const char *q), (p, q), p, const char *, const char *)
OSENV_CHANGE(renameat, (int d, const char *p, int e, const char *q), (d, p, e, q), p, int, const char *, int, const char *)
OSENV_CHANGE(link, (const char *p, const char *q), (p, q), q, const char *, const char *)
OSENV_CHANGE(symlink, (const char *p, const char *q), (p, q), q, const char *, const char *)
OSENV_CHANGE(truncate, (const char *p, off_t n), (p, n), p, const char *, off_t)
OSENV_CHANGE(ftruncate, (int d, off_t n), (d, n), "descriptor", int, off_t)
OSENV_CHANGE(chmod, (const char *p, mode_t m), (p, m), p, const char *, mode_t)
OSENV_CHANGE(fchmod, (int d, mode_t m), (d, m), "descriptor", int, mode_t)
OSENV_CHANGE(fchmodat, (int d, const char *p, mode_t m, int f), (d, p, m, f), p, int, const char *, mode_t, int)
OSENV_CHANGE(chown, (const char *p, uid_t u, gid_t g), (p, u, g), p, const char *, uid_t, gid_t)
OSENV_CHANGE(utimensat, (int d, const char *p, const struct timespec t[2], int f), (d, p, t, f), p, int, const char *, const struct timespec[2], int)
OSENV_CHANGE(futimens, (int d, const struct timespec t[2]), (d, t), "descriptor", int, const struct timespec[2])
OSENV_CHANGE(utimes, (const char *p, const struct timeval t[2]), (p, t), p, const char *, const struct timeval[2])
OSENV_CHANGE(chdir, (const char *p), (p), p, const char *)
OSENV_CHANGE(fchdir, (int d), (d), "descriptor", int)
OSENV_CHANGE(socket, (int a, int b, int c), (a, b, c), "", int, int, int)
OSENV_CHANGE(kill, (pid_t p, int s), (p, s), "", pid_t, int)
OSENV_CHANGE(setenv, (const char *n, const char *v, int o), (n, v, o), n, const char *, const char *, int)
OSENV_CHANGE(unsetenv, (const char *n), (n), n, const char *)
OSENV_CHANGE(execve, (const char *p, char *const a[], char *const e[]), (p, a, e), p, const char *, char *const[], char *const[])
OSENV_CHANGE(execv, (const char *p, char *const a[]), (p, a), p, const char *, char *const[])
OSENV_CHANGE(execvp, (const char *p, char *const a[]), (p, a), p, const char *, char *const[])
pid_t fork() noexcept {
  OSENV_REAL(fork, pid_t(*)());
  if (osenv::env.on) return osenv::Changes("fork", ""), errno = EAGAIN, -1;
  return real();
}
int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const argv[], char *const envp[]) {
  OSENV_REAL(posix_spawn, int (*)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]));
  if (osenv::env.on) return osenv::Changes("posix_spawn", p), EACCES;
  return real(pid, p, a, b, argv, envp);
}
int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const argv[], char *const envp[]) {
  OSENV_REAL(posix_spawnp, int (*)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]));
  if (osenv::env.on) return osenv::Changes("posix_spawnp", p), EACCES;
  return real(pid, p, a, b, argv, envp);
}
int system(const char *c) {
  OSENV_REAL(system, int (*)(const char *));
  if (osenv::env.on) return osenv::Changes("system", c), -1;
  return real(c);
}
FILE *popen(const char *c, const char *m) {
  OSENV_REAL(popen, FILE * (*)(const char *, const char *));
  if (osenv::env.on) return osenv::Changes("popen", c), nullptr;
  return real(c, m);
}
}
#endif
