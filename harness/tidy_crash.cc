// Explorer: clang-tidy cache if runs are stopped, operations or invocations of
// clang-tidy fail, or other runs happen at the same time.
#include "tidy.h"
//
#define TIDY_OWN_FILE_OPERATIONS
#include <stdarg.h>
#include <sys/sendfile.h>
#include <sys/uio.h>

#include "tidy_inproc.h"

// -- What happens at which operation of a run
struct Control {
  int ops;           // seen
  int crash_at;      // killed before this operation
  int fail_at;       // this operation fails ...
  bool fail_sticky;  // ... and all that follow
  int pause_at, pause_again;
  bool crash_after_pause_in_tool;  // the invoked tool still finishes
  int to_parent, from_parent;
  int nfaults;  // for invocations of clang-tidy
  int fault_call[2], fault_kind[2];
  int calls;
  char names[300][24];
};
static Control *g_ctl;  // shared with the process
static bool g_in_tool = false, g_die_after_tool = false;

static bool FailsHere(const char *name) {
  if (!g_controlled) return false;
  const int k = __atomic_fetch_add(&g_ctl->ops, 1, __ATOMIC_SEQ_CST);
  if (k < 300) snprintf(g_ctl->names[k], sizeof g_ctl->names[k], "%s", name);
  if (k == g_ctl->crash_at) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
  }
  if (k == g_ctl->pause_at || k == g_ctl->pause_again) {
    char c = 'p';
    (void)!write(g_ctl->to_parent, &c, 1);
    (void)!read(g_ctl->from_parent, &c, 1);
    if (g_ctl->crash_after_pause_in_tool) {
      if (!g_in_tool) _exit(99);
      g_die_after_tool = true;
    }
  }
  return k == g_ctl->fail_at || (g_ctl->fail_sticky && g_ctl->fail_at >= 0 && k >= g_ctl->fail_at);
}
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
static bool Writes(const char *mode) { return strpbrk(mode, "wa+") != nullptr; }
extern "C" {
FILE *fopen(const char *f, const char *mode) {
  REAL(FILE *, fopen, const char *, const char *);
  if (Writes(mode) && FailsHere("fopen")) return errno = ENOSPC, nullptr;
  return real(f, mode);
}
FILE *fopen64(const char *f, const char *mode) { return fopen(f, mode); }
int open(const char *f, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  REAL(int, open, const char *, int, int);
  if ((flags & O_ACCMODE) != O_RDONLY && FailsHere("open")) return errno = ENOSPC, -1;
  return real(f, flags, mode);
}
int open64(const char *f, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  return open(f, flags, mode);
}
ssize_t write(int fd, const void *p, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!g_controlled || fd <= 2 || fd == g_ctl->to_parent) return real(fd, p, n);
  if (FailsHere("write")) return errno = ENOSPC, -1;
  if (n < 2) return real(fd, p, n);
  const ssize_t half = real(fd, p, n / 2);
  if (half < 0 || FailsHere("write-half")) return half;
  return half + real(fd, (const char *)p + half, n - half);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!g_controlled || fd <= 2) return real(fd, v, n);
  std::string all;
  for (int i = 0; i < n; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
  return write(fd, all.data(), all.size());
}
// Copies of files
ssize_t sendfile(int to, int from, off_t *at, size_t n) noexcept {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (FailsHere("sendfile")) return errno = ENOSPC, -1;
  if (!g_controlled || n < 2) return real(to, from, at, n);
  const ssize_t half = real(to, from, at, n / 2);
  if (half < 0 || FailsHere("sendfile-half")) return half;
  const ssize_t rest = real(to, from, at, n - half);
  return rest < 0 ? half : half + rest;
}
ssize_t sendfile64(int to, int from, off_t *at, size_t n) noexcept { return sendfile(to, from, at, n); }
ssize_t copy_file_range(int from, off64_t *fat, int to, off64_t *tat, size_t n, unsigned flags) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (FailsHere("copy_file_range")) return errno = ENOSPC, -1;
  return real(from, fat, to, tat, n, flags);
}
#define SIMPLE(name, params, args, ...)         \
  int name params noexcept {                    \
    REAL(int, name, __VA_ARGS__);               \
    if (FailsHere(#name)) return errno = ENOSPC, -1; \
    return real args;                           \
  }
int rename(const char *a, const char *b) noexcept {
  REAL(int, rename, const char *, const char *);
  if (FailsHere("rename")) return errno = ENOSPC, -1;
  g_renamed->Add(b);
  return real(a, b);
}
SIMPLE(remove, (const char *a), (a), const char *)
SIMPLE(unlink, (const char *a), (a), const char *)
SIMPLE(rmdir, (const char *a), (a), const char *)
SIMPLE(unlinkat, (int d, const char *a, int f), (d, a, f), int, const char *, int)
SIMPLE(symlink, (const char *a, const char *b), (a, b), const char *, const char *)
SIMPLE(link, (const char *a, const char *b), (a, b), const char *, const char *)
SIMPLE(mkdir, (const char *a, mode_t m), (a, m), const char *, mode_t)
SIMPLE(truncate, (const char *a, off_t n), (a, n), const char *, off_t)
SIMPLE(ftruncate, (int d, off_t n), (d, n), int, off_t)
}

enum Fault { kKilledPartial, kSegvShell, kNotFound, kNotExecutable, kInterrupt, kQuit, kTerm, kNoFork, kExit1, kExit3Full, kNumFaults };
static const char *kFaultNames[] = {"killed after half of the output", "crashed in shell (139), half of output", "not found (127)", "not executable (126)", "SIGINT", "SIGQUIT", "SIGTERM, no output", "fork failed", "exit 1 with all output", "exit 3 with all output"};
static bool Harmless(int f) { return f == kExit1 || f == kExit3Full; }

static int RunStub(const stub::Command &c) {
  int fault = -1;
  const int call = __atomic_fetch_add(&g_ctl->calls, 1, __ATOMIC_SEQ_CST);
  for (int i = 0; i < g_ctl->nfaults; ++i)
    if (g_ctl->fault_call[i] == call) fault = g_ctl->fault_kind[i];
  if (fault == kNoFork) return errno = EAGAIN, -1;
  g_in_tool = true;
  const int fd = open(c.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int status = 0;
  if (fd < 0) {
    status = 2 << 8;  // The shell can't do the redirect
    if (access(c.out.c_str(), F_OK) == 0) status = 127 << 8;
    status = 127 << 8;
  } else {
    std::string out;
    const bool before = g_controlled;
    g_controlled = false;  // the log
    status = stub::Main(c.words, &out) << 8;
    g_controlled = before;
    switch (fault) {
    case kKilledPartial:
      out.resize(out.size() / 2);
      status = SIGKILL;
      break;
    case kSegvShell:
      out.resize(out.size() / 2);
      status = 139 << 8;
      break;
    case kNotFound:
    case kNotExecutable:
      out.clear();
      status = (fault == kNotFound ? 127 : 126) << 8;
      break;
    case kInterrupt: out.clear(); status = SIGINT; break;
    case kQuit: out.clear(); status = SIGQUIT; break;
    case kTerm: out.clear(); status = SIGTERM; break;
    case kExit1: status = 1 << 8; break;
    case kExit3Full: status = 3 << 8; break;
    default: break;
    }
    // LLVM aborts if output can't be written.
    if (!WriteAll(fd, out)) status = SIGABRT;
    close(fd);
  }
  if (g_die_after_tool) _exit(99);
  g_in_tool = false;
  FailsHere("tool done");
  return status;
}

static void ResetControl() {
  memset(g_ctl, 0, sizeof *g_ctl);
  g_ctl->crash_at = g_ctl->fail_at = g_ctl->pause_at = g_ctl->pause_again = -1;
}
static void Controlled() { g_controlled = true; }

// -- Situations in which a run starts.
static Project Initial() {
  Project p;
  p.files["bant/a.cc"] = "#include \"bant/h.h\"\n// BAD1\n";
  p.files["bant/s/a.cc"] = "#include \"bant/h.h\"\n// BAD1\n";  // the same
  p.files["bant/c.cc"] = "// fine\n";
  p.files["bant/h.h"] = "// h\n";
  p.files["bant/g.h"] = "// BAD4\n";
  return p;
}
enum Situation { kEmptyCache, kHeaderChanged, kFlagsTouched, kOtherVersion, kNumSituations };
static const char *kSituationNames[] = {"empty cache", "header changed", "flags touched", "other version"};
static Project Prepare(Situation s, Checkout *checkout, bool no_findings = false) {
  checkout->Clear();
  Project p = Initial();
  if (no_findings) {
    for (auto &f : p.files) {
      const size_t pos = f.second.find("BAD");
      if (pos != std::string::npos) f.second.replace(pos, 4, "fine");
    }
  }
  checkout->Set(p);
  if (s == kEmptyCache) return p;
  const Result r = RunTidy(p.args);
  checkout->AgeCache(true);
  checkout->NextTime();
  if (s == kHeaderChanged) p.files["bant/h.h"] = no_findings ? "// fine\n" : "// BAD2\n";
  if (s == kFlagsTouched) p.flags = "-Wother\n";
  if (s == kOtherVersion) p.version = "18.0";
  checkout->Set(p);
  return p;
}
static bool RunAndCompare(const Project &p, Checkout *checkout, const std::string &ctx) {
  checkout->Set(p);
  ResetControl();
  const Result r = RunTidy(p.args);
  checkout->AgeCache(true);
  checkout->NextTime();
  const std::string diff = Compare(r, Fresh(p));
  vf::SeeState(vf::Hash(r.report));
  if (diff.empty()) return true;
  vf::Fail("report", ctx + ": " + diff);
  return false;
}
// After something bad has happened, all is well in the next runs, also those that
// find the same or other things.
static bool Afterwards(const Project &p, Checkout *checkout, const std::string &ctx, bool all) {
  checkout->AgeCache(true);
  checkout->NextTime();
  if (!RunAndCompare(p, checkout, ctx)) return false;
  if (!all) return true;
  Project q = p;
  q.files["bant/h.h"] = "// other BAD3\n";
  if (!RunAndCompare(q, checkout, ctx + ", header changed")) return false;
  q = p;
  q.files["bant/a.cc"] = "// fine now\n";
  q.files["bant/b.cc"] = p.files.at("bant/a.cc");
  if (!RunAndCompare(q, checkout, ctx + ", file renamed")) return false;
  return RunAndCompare(p, checkout, ctx + ", reverted");
}
static int NumOps(Situation s) {
  Checkout c;
  const Project p = Prepare(s, &c);
  ResetControl();
  RunTidy(p.args, Controlled);
  return g_ctl->ops;
}

// A run that can be halted
struct Paused {
  pid_t pid = 0;
  int r = -1, w = -1;
  Control *ctl;
  explicit Paused(Control *c) : ctl(c) {}
  void Start(const Project &p, int at, int again, bool crash) {
    g_ctl = ctl;
    ResetControl();
    int a[2], b[2];
    (void)!pipe(a);
    (void)!pipe(b);
    ctl->pause_at = at;
    ctl->pause_again = again;
    ctl->crash_after_pause_in_tool = crash;
    ctl->to_parent = a[1];
    ctl->from_parent = b[0];
    pid = fork();
    if (pid == 0) {
      struct itimerval off = {};
      setitimer(ITIMER_PROF, &off, nullptr);
      alarm(60);
      close(a[0]);
      close(b[1]);
      const int null = ::open("/dev/null", O_WRONLY);
      dup2(null, 1);
      dup2(null, 2);
      fs::current_path(p.Dir());
      g_controlled = true;
      char arg0[] = "run-clang-tidy-cached";
      char *argv[] = {arg0, nullptr};
      exit(program_main(1, argv));
    }
    close(a[1]);
    close(b[0]);
    r = a[0];
    w = b[1];
    Wait();
  }
  // Until paused or ended
  void Wait() {
    char c;
    while (read(r, &c, 1) < 0 && errno == EINTR) {}
  }
  void Continue() {
    char c = 'c';
    (void)!write(w, &c, 1);
  }
  int End() {
    int st;
    waitpid(pid, &st, 0);
    close(r);
    close(w);
    vf::Count("evaluations");
    vf::Transition();
    return st;
  }
};

int main(int argc, char **argv) {
  int ret;
  if (StubInvoked(argc, argv, &ret)) return ret;
  vf::Init(argc, argv);
  signal(SIGPROF, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  Control *shared = (Control *)mmap(nullptr, 2 * sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_ctl = shared;
  ResetControl();
  g_run_stub = RunStub;
  SetupScratch("tidyc", vf::S());
  const bool th = vf::Thorough();
  Checkout checkout;
  int nops[kNumSituations];
  for (int s = 0; s < kNumSituations; ++s) {
    nops[s] = NumOps((Situation)s);
    if (getenv("VF_SHOW_OPS")) {
      fprintf(stderr, "%s: %d operations:", kSituationNames[s], nops[s]);
      for (int i = 0; i < nops[s]; ++i) fprintf(stderr, " %s", g_ctl->names[i]);
      fprintf(stderr, "\n");
    }
    if (nops[s] < 15 || nops[s] > 250) {
      fprintf(stderr, "unexpected number of operations %d\n", nops[s]);
      // The exploration would be void.
      if (vf::S().shard == 0 && VF_BEGIN("operations")) vf::Fail("operations", "number of operations seen " + std::to_string(nops[s]));
    }
  }

  // Killed at each operation, and again at each operation of the next run.
  for (int s = 0; s < kNumSituations; ++s) {
    for (int i = 0; i < nops[s]; ++i) {
      if (!VF_BEGIN(std::string(kSituationNames[s]) + ": killed at operation " + std::to_string(i))) continue;
      vf::NonTrivial();
      const std::string ctx = vf::S().cur_desc;
      auto crash = [&](int at) {
        ResetControl();
        g_ctl->crash_at = at;
        const Result r = RunTidy({}, Controlled);
        return WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGKILL;
      };
      Project p = Prepare((Situation)s, &checkout);
      if (!crash(i)) vf::Fail("not-killed", ctx);
      if (!Afterwards(p, &checkout, ctx, true)) continue;
      for (int j = 0; j < 250; j += th ? 1 : 2) {
        p = Prepare((Situation)s, &checkout);
        crash(i);
        if (!crash(j)) break;
        if (!Afterwards(p, &checkout, ctx + ", then at " + std::to_string(j), false)) break;
      }
    }
  }
  // Each operation fails, or all from there.
  for (int s = 0; s < kNumSituations; ++s) {
    for (int i = 0; i < nops[s]; ++i) {
      if (!VF_BEGIN(std::string(kSituationNames[s]) + ": failing operation " + std::to_string(i))) continue;
      vf::NonTrivial();
      for (bool no_findings : {false, true}) for (bool sticky : {false, true}) {
        const std::string ctx = vf::S().cur_desc + (sticky ? " and all following" : "") + (no_findings ? ", no findings" : "");
        const Project p = Prepare((Situation)s, &checkout, no_findings);
        ResetControl();
        g_ctl->fail_at = i;
        g_ctl->fail_sticky = sticky;
        const Result r = RunTidy({}, Controlled);
        const std::string diff = Compare(r, Fresh(p));
        if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && !diff.empty()) vf::Fail("status", ctx + ": success reported, but " + diff);
        if (!Afterwards(p, &checkout, ctx, true)) break;
      }
    }
  }
  // Invocations of clang-tidy fail.
  for (int s = 0; s < kNumSituations; ++s) {
    for (int call = 0; call < 5; ++call) {
      for (int kind = 0; kind < kNumFaults; ++kind) {
        if (!VF_BEGIN(std::string(kSituationNames[s]) + ": invocation " + std::to_string(call) + " " + kFaultNames[kind])) continue;
        vf::NonTrivial();
        for (int other = -1; other < (call + 1 < 5 ? (int)kNumFaults : 0); ++other) {
          for (const bool no_findings : {false, true}) for (int jobs : {1, 4}) {
            if (no_findings && jobs > 1 && other >= 0) continue;
            const Project p = Prepare((Situation)s, &checkout, no_findings);
            ResetControl();
            const bool two = other >= 0;
            g_ctl->nfaults = two ? 2 : 1;
            g_ctl->fault_call[0] = call;
            g_ctl->fault_kind[0] = kind;
            g_ctl->fault_call[1] = call + 1;
            g_ctl->fault_kind[1] = other;
            g_jobs = jobs;
            const std::string ctx = vf::S().cur_desc + (two ? std::string(", next ") + kFaultNames[other] : "") + " with " + std::to_string(jobs) + " threads" + (no_findings ? ", no findings" : "");
            const Result r = RunTidy({});
            g_jobs = 1;
            const bool hit = g_ctl->calls > call, hit2 = two && g_ctl->calls > call + 1;
            const bool harmful = (hit && !Harmless(kind)) || (hit2 && !Harmless(other));
            if (harmful) {
              if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0) vf::Fail("status", ctx + ": status " + std::to_string(r.status) + " " + r.err);
            } else {
              const std::string diff = Compare(r, Fresh(p));
              if (!diff.empty()) vf::Fail("report", ctx + ": " + diff);
            }
            Afterwards(p, &checkout, ctx, !two);
          }
        }
      }
    }
  }
  // Two runs at the same time, in the same or another checkout.
  for (int s = 0; s < kNumSituations; ++s) {
    for (int i = 0; i < nops[s]; ++i) {
      if (!VF_BEGIN(std::string(kSituationNames[s]) + ": other run while at operation " + std::to_string(i))) continue;
      vf::NonTrivial();
      for (const char *where : {"prj", "prj2"}) {
        for (int killed = 0; killed < 2; ++killed) {
          for (int j = -1; j < nops[s]; j += th ? 1 : 3) {
            if (killed && j >= 0) break;
            Project p = Prepare((Situation)s, &checkout);
            Project q = p;
            q.dir = where;
            checkout.Set(q);
            Paused a(shared), b(shared + 1);
            a.Start(p, i, -1, killed);
            b.Start(q, j, -1, false);
            const std::string ctx = vf::S().cur_desc + " in " + where + (killed ? " first one killed" : "") + (j >= 0 ? ", that is stopped at " + std::to_string(j) : "");
            if (j >= 0) {
              a.Continue();
              a.Wait();
              b.Continue();
              b.Wait();
            } else {
              a.Continue();
              a.Wait();
            }
            const int sta = a.End(), stb = b.End();
            g_ctl = shared;
            if (!killed && !WIFEXITED(sta)) vf::Fail("ended", ctx + ": first run ended with " + std::to_string(sta));
            if (!WIFEXITED(stb)) vf::Fail("ended", ctx + ": second run ended with " + std::to_string(stb));
            checkout.AgeCache(true);
            checkout.NextTime();
            if (!RunAndCompare(p, &checkout, ctx)) break;
            if (!RunAndCompare(q, &checkout, ctx + ", second")) break;
          }
        }
      }
    }
  }
  RemoveScratch();
  return vf::Finish();
}
