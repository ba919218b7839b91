// system() and popen() that run our stand-ins within the process.
#ifndef VERIF_TIDY_INPROC_H
#define VERIF_TIDY_INPROC_H
#include <dlfcn.h>
#include <sys/sysinfo.h>

#include "tidy.h"

inline bool g_inproc = true;
inline bool g_controlled = false;  // operations of the code under test count
// What happens in an invocation of clang-tidy; returns status as system().
inline int (*g_run_stub)(const stub::Command &c) = nullptr;

extern "C" {
int system(const char *cmd) {
  stub::Command c;
  if (g_inproc && cmd && stub::Parse(cmd, &c) && stub::IsOurs(c) && !c.out.empty()) {
    if (g_run_stub) return g_run_stub(c);
    const int fd = open(c.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return 2 << 8;
    std::string out;
    const int status = stub::Main(c.words, &out);
    WriteAll(fd, out);
    close(fd);
    return status << 8;
  }
  static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "system");
  return real(cmd);
}
FILE *popen(const char *cmd, const char *mode) {
  stub::Command c;
  std::string s = cmd;
  if (s.find("2>") == std::string::npos) s += " 2>/dev/null";
  if (g_inproc && stub::Parse(s, &c) && stub::IsOurs(c) && c.out.empty()) {
    std::string out;
    stub::Main(c.words, &out);
    const bool before = g_controlled;
    g_controlled = false;
    FILE *f = tmpfile();
    WriteAll(fileno(f), out);
    rewind(f);
    g_controlled = before;
    return f;
  }
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "popen");
  return real(cmd, mode);
}
int pclose(FILE *f) {
  if (g_inproc) return fclose(f);
  static auto real = (int (*)(FILE *))dlsym(RTLD_NEXT, "pclose");
  return real(f);
}
#ifndef TIDY_OWN_FILE_OPERATIONS
int rename(const char *from, const char *to) noexcept {
  static auto real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
  g_renamed->Add(to);
  return real(from, to);
}
#endif
int get_nprocs(void) noexcept { return g_jobs; }
}
#endif
