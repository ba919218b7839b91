// Explorer: reading of files with all answers of the operating system.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>

#include "bant/util/file-utils.h"
#include "bt.h"
#include "bant/types-bazel.h"

namespace fs = std::filesystem;

enum Answer { kAll, kOne, kHalf, kAllButOne, kEof, kEio, kEintr, kNumAnswers };
static const char *kName[] = {"all", "one", "half", "all-but-one", "eof", "EIO", "EINTR"};
struct Env {
  bool active = false;
  std::string path;
  int open_errno = 0;
  int fstat_errno = 0;
  long fstat_delta = 0;
  std::vector<int> answers;
  // observed
  size_t pos = 0;
  std::set<int> fds;
  bool bad_close = false;
  bool fault = false;      // some error was given
  bool interrupted = false;
  bool eof = false;
  int opens = 0, reads = 0;
};
static Env env;
template <typename F>
static F Real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
static int DoOpen(int dirfd, const char *p, int flags, mode_t m) {
  static auto real = Real<int (*)(int, const char *, int, ...)>("openat");
  const bool mine = env.active && env.path == p;
  if (mine && env.open_errno) {
    env.fault = true;
    errno = env.open_errno;
    return -1;
  }
  int fd = real(dirfd, p, flags, m);
  if (mine && fd >= 0) {
    env.fds.insert(fd);
    ++env.opens;
  }
  return fd;
}
template <typename R>
static ssize_t DoRead(int fd, size_t n, R real) {
  if (!env.active || !env.fds.contains(fd)) return real(n);
  ++env.reads;
  int a = env.pos < env.answers.size() ? env.answers[env.pos] : kAll;
  ++env.pos;
  switch (a) {
  case kOne: n = std::min<size_t>(n, 1); break;
  case kHalf: n = n > 1 ? n / 2 : n; break;
  case kAllButOne: n = n > 1 ? n - 1 : n; break;
  case kEof: env.eof = true; return 0;
  case kEio: env.fault = true; errno = EIO; return -1;
  case kEintr: env.interrupted = true; errno = EINTR; return -1;
  default: break;
  }
  return real(n);
}
static int FixStat(int fd, int r, struct stat *s) {
  if (r == 0) s->st_size += env.fstat_delta;
  return r;
}
extern "C" {
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return DoOpen(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return DoOpen(AT_FDCWD, p, flags, m);
}
int openat(int fd, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return DoOpen(fd, p, flags, m);
}
ssize_t read(int fd, void *b, size_t n) {
  static auto real = Real<ssize_t (*)(int, void *, size_t)>("read");
  return DoRead(fd, n, [&](size_t k) { return real(fd, b, k); });
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  static auto real = Real<ssize_t (*)(int, void *, size_t, off_t)>("pread");
  return DoRead(fd, n, [&](size_t k) { return real(fd, b, k, o); });
}
int fstat(int fd, struct stat *s) noexcept {
  static auto real = Real<int (*)(int, struct stat *)>("fstat");
  if (env.active && env.fds.contains(fd)) {
    if (env.fstat_errno) {
      env.fault = true;
      errno = env.fstat_errno;
      return -1;
    }
    return FixStat(fd, real(fd, s), s);
  }
  return real(fd, s);
}
int stat(const char *p, struct stat *s) noexcept {
  static auto real = Real<int (*)(const char *, struct stat *)>("stat");
  if (env.active && env.path == p) {
    if (env.fstat_errno) {
      env.fault = true;
      errno = env.fstat_errno;
      return -1;
    }
    return FixStat(-1, real(p, s), s);
  }
  return real(p, s);
}
int close(int fd) {
  static auto real = Real<int (*)(int)>("close");
  if (env.active && !env.fds.erase(fd)) env.bad_close = true;
  return real(fd);
}
}

static std::string Content(size_t n) {
  std::string r(n, 0);
  uint32_t x = 12345 + n;
  for (auto &c : r) {
    x = x * 1664525 + 1013904223;
    c = (char)(x >> 24);
  }
  return r;
}

static void Run(const std::string &file, const std::string &content, const Env &cfg) {
  env = cfg;
  env.path = file;
  bant::FilesystemPath p(file);
  env.active = true;
  std::optional<std::string> got = bant::ReadFileToString(p);
  env.active = false;
  vf::Count("evaluations");
  vf::Transition(env.reads + 1);
  auto how = [&] {
    std::string r = " (size " + std::to_string(content.size()) + ", fstat " + std::to_string(cfg.fstat_delta) + ", reads:";
    for (int a : cfg.answers) r += std::string(" ") + kName[a];
    return r + ", open errno " + std::to_string(cfg.open_errno) + ", fstat errno " + std::to_string(cfg.fstat_errno) + ")";
  };
  if (!env.fds.empty()) vf::Fail("fd-leak", "file descriptor left open" + how());
  if (env.bad_close) vf::Fail("bad-close", "closed descriptor not opened" + how());
  vf::SeeState(vf::Hash(got ? std::to_string(got->size()) : "none", content.size()));
  if (!got) {
    // Fine if there was anything wrong.
    if (!env.fault && !env.eof && !env.interrupted && cfg.fstat_delta <= 0)
      vf::Fail("not-read", "no content, but nothing failed" + how());
    return;
  }
  // Never other than the complete file.
  if (env.fault) vf::Fail("error-ignored", "has content after error" + how());
  if (*got == content) return;
  // File growing while being read: complete file of the earlier size.
  if (cfg.fstat_delta < 0 && *got == content.substr(0, content.size() + cfg.fstat_delta)) return;
  vf::Fail("content", "content of size " + std::to_string(got->size()) + " is not the file" + how());
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const bool thorough = vf::Thorough();
  const std::string base = vf::S().out + "/r." + std::to_string(vf::S().shard) + "." + std::to_string(vf::S().only);
  fs::create_directories(base);
  const std::string file = base + "/file";
  for (size_t size : {0, 1, 2, 3, 5, 8, 100, 4095, 4096, 4097, 65535, 65536, 65537, 262144, 1048577}) {
    const bool big = size > 5000;
    const int depth = big ? (thorough ? 4 : 3) : (thorough ? 7 : 5);
    const std::string content = Content(size);
    for (long delta : {0L, -1L, 1L, -(long)size / 2, 100L}) {
      if (delta < 0 && -delta > (long)size) continue;
      // One case per first two answers.
      for (int first = 0; first < kNumAnswers * kNumAnswers; ++first) {
        if (!VF_BEGIN("file of " + std::to_string(size) + " bytes, size reported off by " + std::to_string(delta) +
                      ", first reads " + kName[first % kNumAnswers] + ", " + kName[first / kNumAnswers]))
          continue;
        std::ofstream(file, std::ios::binary) << content;
        Env cfg;
        cfg.fstat_delta = delta;
        cfg.answers.assign(depth, 0);
        long total = 1;
        for (int i = 2; i < depth; ++i) total *= kNumAnswers;
        for (long k = 0; k < total; ++k) {
          cfg.answers[0] = first % kNumAnswers;
          cfg.answers[1] = first / kNumAnswers;
          long kk = k;
          for (int i = 2; i < depth; ++i) {
            cfg.answers[i] = kk % kNumAnswers;
            kk /= kNumAnswers;
          }
          Run(file, content, cfg);
        }
        vf::NonTrivial();
      }
    }
    for (int oe : {0, ENOENT, EACCES, EMFILE, EINTR, EISDIR}) {
      for (int se : {0, EIO, EOVERFLOW}) {
        if (!VF_BEGIN("file of " + std::to_string(size) + " bytes, open errno " + std::to_string(oe) + " stat errno " + std::to_string(se))) continue;
        std::ofstream(file, std::ios::binary) << content;
        Env cfg;
        cfg.open_errno = oe;
        cfg.fstat_errno = se;
        Run(file, content, cfg);
      }
    }
    // One byte at a time.
    if (!big && VF_BEGIN("file of " + std::to_string(size) + " bytes, byte by byte")) {
      std::ofstream(file, std::ios::binary) << content;
      Env cfg;
      cfg.answers.assign(size + 1, kOne);
      Run(file, content, cfg);
      for (size_t at = 0; at < size + 1; at += size > 200 ? 97 : 1) {
        for (int a : {kEof, kEio, kEintr}) {
          cfg.answers.assign(size + 1, kOne);
          cfg.answers[at] = a;
          Run(file, content, cfg);
        }
      }
    }
  }
  if (VF_BEGIN("missing file")) {
    if (bant::ReadFileToString(bant::FilesystemPath(base + "/nope"))) vf::Fail("missing", "has content");
    if (bant::ReadFileToString(bant::FilesystemPath(base + "/nope/nope"))) vf::Fail("missing", "has content");
    fs::create_directories(base + "/dir");
    if (bant::ReadFileToString(bant::FilesystemPath(base + "/dir"))) vf::Fail("missing", "directory has content");
    fs::create_symlink("l", base + "/l");
    if (bant::ReadFileToString(bant::FilesystemPath(base + "/l"))) vf::Fail("missing", "link loop has content");
    vf::NonTrivial();
  }
  // A BUILD file is read completely, or counted and reported as error.
  for (size_t pad : {0, 10, 4096, 70000}) {
    const std::string text = "a(name = \"x\")\n#" + std::string(pad, '.') + "\nb(name = \"y\")\n";
    for (int a0 = 0; a0 < kNumAnswers; ++a0) {
      for (int a1 = 0; a1 < kNumAnswers; ++a1) {
        for (int fault = 0; fault < 3; ++fault) {
          if (!VF_BEGIN("BUILD file of " + std::to_string(text.size()) + " bytes, reads " + kName[a0] + ", " + kName[a1] + " fault " + std::to_string(fault))) continue;
          std::ofstream(file, std::ios::binary) << text;
          std::stringstream out, info, cerr_text;
          auto *old = std::cerr.rdbuf(cerr_text.rdbuf());
          bant::Session session(&out, &info, bant::CommandlineFlags{});
          bant::ParsedProject project({}, false);
          env = Env();
          env.path = file;
          env.answers = {a0, a1};
          env.open_errno = fault == 1 ? EACCES : 0;
          env.fstat_errno = fault == 2 ? EIO : 0;
          env.active = true;
          auto *res = project.AddBuildFile(session, bant::FilesystemPath(file), *bant::BazelPackage::ParseFrom("//p"));
          env.active = false;
          std::cerr.rdbuf(old);
          vf::Count("evaluations");
          if (!env.fds.empty()) vf::Fail("fd-leak", "BUILD file left open");
          const bool failed = env.fault || env.eof;
          if (failed && res) vf::Fail("build-file", "parsed after error");
          if (!failed && !env.interrupted && !res) vf::Fail("build-file", "not read, but nothing failed");
          if (!res && project.error_count() == 0) vf::Fail("build-file", "unreadable file not counted as error");
          if (!res && (cerr_text.str() + info.str()).find(file) == std::string::npos) vf::Fail("build-file", "unreadable file not reported");
          if (res && bt::Dump(res->ast) != "[list (call a <tuple (= name 'x')>) (call b <tuple (= name 'y')>)]")
            vf::Fail("build-file", "content: " + bt::Dump(res->ast));
          vf::NonTrivial();
        }
      }
    }
  }
  fs::remove_all(base);
  return vf::Finish();
}
