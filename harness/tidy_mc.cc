// Explorer: worker threads of the clang-tidy script, under the scheduler of
// mc_runtime.h, one forked process for each schedule.
#include "mc_runtime.h"
//
#include "tidy.h"
//
#define TIDY_OWN_FILE_OPERATIONS
#include "tidy_inproc.h"

struct Control {
  int ops, crash_at;
  int nfaults, calls;
  int fault_call, fault_kind;  // 1: killed, half the output; 2: interrupted
  int in_use[8];
};
static Control *g_ctl;
static mc::Shared *g_shared;

// Before something others can see is done.
static void Op(const char *name, const std::string &path) {
  mc::OnFile(name, path.c_str());
  if (!mc::g || !mc::g->on) return;
  if (g_ctl->ops++ == g_ctl->crash_at) {
    kill(getpid(), SIGKILL);
    for (;;) pause();
  }
}
#define REAL(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" {
FILE *fopen(const char *f, const char *mode) {
  REAL(FILE *, fopen, const char *, const char *);
  if (strpbrk(mode, "wa+")) Op("fopen", f);
  else mc::OnFile("fopen-read", f);
  return real(f, mode);
}
FILE *fopen64(const char *f, const char *mode) { return fopen(f, mode); }
int rename(const char *a, const char *b) noexcept {
  REAL(int, rename, const char *, const char *);
  Op("rename", a);
  g_renamed->Add(b);
  return real(a, b);
}
int remove(const char *a) noexcept {
  REAL(int, remove, const char *);
  Op("remove", a);
  return real(a);
}
ssize_t write(int fd, const void *p, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (fd <= 2 || !mc::On()) return real(fd, p, n);
  Op("write", "");
  return real(fd, p, n);
}

// Initialization of static variables in functions.
int __cxa_guard_acquire(long long *guard) {
  uint32_t *word = (uint32_t *)guard + 1;
  if (mc::On()) {
    mc::Inside in;
    mc::Point();
    if (*word == 1) {
      mc::Me().futex_val = 1;
      mc::BlockUntilEnabled(mc::kFutex, word);
    }
    mc::AtomicSync(guard);
  }
  if (*(uint8_t *)guard) return 0;
  *word = 1;
  return 1;
}
void __cxa_guard_release(long long *guard) {
  if (mc::On()) {
    mc::Inside in;
    mc::AtomicSync(guard);
  }
  *(uint8_t *)guard = 1;
  ((uint32_t *)guard)[1] = 0;
}
void __cxa_guard_abort(long long *guard) { ((uint32_t *)guard)[1] = 0; }
}

static int RunStub(const stub::Command &c) {
  const int call = g_ctl->calls++;
  const int fault = g_ctl->nfaults > 0 && call == g_ctl->fault_call ? g_ctl->fault_kind : 0;
  Op("tool", c.out);
  int fd, status;
  std::string out;
  {
    mc::Inside in;
    fd = open(c.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return 2 << 8;
    status = stub::Main(c.words, &out) << 8;
  }
  Op("tool-half", c.out);
  {
    mc::Inside in;
    WriteAll(fd, out.substr(0, out.size() / 2));
  }
  if (fault == 2) out.clear();
  if (!fault) {
    Op("tool-rest", c.out);
    mc::Inside in;
    WriteAll(fd, out.substr(out.size() / 2));
  }
  {
    mc::Inside in;
    close(fd);
  }
  return fault == 1 ? SIGKILL : fault == 2 ? SIGINT : status;
}

static Project Initial(int nfiles) {
  Project p;
  p.files["bant/a.cc"] = "// BAD1\n";
  if (nfiles > 1) p.files["bant/s/a.cc"] = "// BAD1\n";  // the same
  if (nfiles > 2) p.files["bant/b.cc"] = "// BAD2 \n// BAD3\n";
  if (nfiles > 3) p.files["bant/c.cc"] = "// fine\n";
  return p;
}
static mc::Config g_cfg;
static void InChild() {
  signal(SIGPROF, SIG_IGN);
  atexit([]() {
    if (mc::g) {
      mc::g->on = false;
      mc::g->sh->ended = 1;
    }
    fflush(stdout);
    fflush(stderr);
  });
  mc::Start(g_shared, g_cfg);
}
// All schedules. "crash": and all points to be killed in each.
static void Explore(const std::string &ctx, const Project &p, bool populated, int crash) {
  Checkout checkout;
  Expected want;
  auto prepare = [&]() {
    checkout.Clear();
    checkout.Set(p);
    if (populated) {
      g_jobs = 0;
      const int before = g_ctl->crash_at;
      g_ctl->crash_at = -1;
      g_ctl->nfaults = 0;
      g_jobs = 1;
      mc::Config plain;
      plain.memory = false;
      plain.preemptions = 0;
      std::swap(plain, g_cfg);
      RunTidy({}, InChild);
      std::swap(plain, g_cfg);
      checkout.AgeCache(true);
      checkout.NextTime();
      g_ctl->crash_at = before;
      Project q = p;
      q.flags = "-Wother\n";
      checkout.Set(q);
    }
  };
  Project now = p;
  if (populated) now.flags = "-Wother\n";
  for (int64_t n = 0; n < 400000; ++n) {
    int64_t total_ops = 0;
    std::vector<uint8_t> chosen, alternatives;
    for (int at = -1; at < (crash ? total_ops : 0); ++at) {
      const int nfaults = g_ctl->nfaults;
      const int jobs = g_cfg.active_workers;
      prepare();
      g_jobs = jobs;
      g_ctl->nfaults = nfaults;
      g_ctl->ops = g_ctl->calls = 0;
      g_ctl->crash_at = at;
      memset(g_shared, 0, sizeof *g_shared);
      const Result r = RunTidy({}, InChild);
      g_ctl->crash_at = -1;
      std::string sched;
      if (at < 0) {
        chosen.assign(g_shared->chosen, g_shared->chosen + g_shared->nchoices);
        alternatives.assign(g_shared->alternatives, g_shared->alternatives + g_shared->nchoices);
        total_ops = g_ctl->ops;
        vf::Count("schedules");
        vf::Transition(g_shared->steps);
      } else {
        vf::Count("crashes");
      }
      for (uint8_t c : chosen) sched += std::to_string(c) + " ";
      const std::string where = ctx + " schedule " + sched + (at >= 0 ? "killed at operation " + std::to_string(at) : "");
      vf::SeeState(vf::Hash(where));
      if (g_shared->error_key[0]) {
        vf::Fail(g_shared->error_key, where + ": " + g_shared->error);
        return;
      }
      if (at < 0 && !(WIFEXITED(r.status) && g_shared->ended)) {
        vf::Fail("ended", where + ": ended with " + std::to_string(r.status) + " " + r.err);
        return;
      }
      std::string diff;
      if (at < 0 && nfaults > 0 && g_ctl->calls > g_ctl->fault_call) {
        if (WEXITSTATUS(r.status) == 0) diff = "exit status 0";
      } else if (at < 0) {
        diff = Compare(r, Fresh(now));
      }
      if (diff.empty() && (at >= 0 || nfaults > 0 || n % 16 == 0)) {
        // The next one
        checkout.AgeCache(true);
        checkout.NextTime();
        g_ctl->nfaults = 0;
        mc::Config plain;
        plain.memory = false;
        plain.preemptions = 0;
        std::swap(plain, g_cfg);
        const Result again = RunTidy({}, InChild);
        std::swap(plain, g_cfg);
        g_ctl->nfaults = nfaults;
        diff = Compare(again, Fresh(now));
        if (!diff.empty()) diff = "next run: " + diff;
        else if (at < 0 && nfaults == 0 && !again.invoked.empty()) diff = "next run: " + std::to_string(again.invoked.size()) + " needless invocations";
      }
      if (!diff.empty()) {
        vf::Fail("report", where + ": " + diff);
        return;
      }
    }
    int i = (int)chosen.size() - 1;
    while (i >= 0 && chosen[i] + 1 >= alternatives[i]) --i;
    if (i < 0) return;
    g_cfg.prefix.assign(chosen.begin(), chosen.begin() + i);
    g_cfg.prefix.push_back(chosen[i] + 1);
  }
  vf::Fail("limit", ctx + " more schedules than expected");
}

int main(int argc, char **argv) {
  int ret;
  if (StubInvoked(argc, argv, &ret)) return ret;
  vf::Init(argc, argv);
  signal(SIGPROF, SIG_IGN);
  g_ctl = (Control *)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_shared = (mc::Shared *)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_ctl->crash_at = -1;
  g_run_stub = RunStub;
  SetupScratch("tidym", vf::S());
  const bool th = vf::Thorough();
  for (int files = 1; files <= 4; ++files) {
    for (int workers = 1; workers <= (th ? 4 : 3); ++workers) {
      for (bool populated : {false, true}) {
        for (int preemptions = 0; preemptions <= (th ? 2 : 1) + (files <= 2 && workers <= 2); ++preemptions) {
          for (int fault = 0; fault < 3; ++fault) {
            for (int call = 0; call < (fault ? files : 1); ++call) {
              for (int crash = 0; crash < (fault || preemptions > (th ? 1 : 0) ? 1 : 2); ++crash) {
                if (fault && preemptions > (th ? 1 : 0)) continue;
                if (!th && workers > 2 && files > 2 && preemptions > 0) continue;
                if (!VF_BEGIN(std::to_string(files) + " files, " + std::to_string(workers) + " workers, " + std::to_string(preemptions) + " preemptions" + (populated ? ", populated" : "") + (crash ? ", killed" : "") + (fault ? ", fault " + std::to_string(fault) + " of call " + std::to_string(call) : ""))) continue;
                vf::NonTrivial();
                g_cfg = {};
                g_cfg.active_workers = workers;
                g_cfg.preemptions = preemptions;
                g_ctl->nfaults = fault ? 1 : 0;
                g_ctl->fault_call = call;
                g_ctl->fault_kind = fault;
                Explore(vf::S().cur_desc, Initial(files), populated, crash);
              }
            }
          }
        }
      }
    }
  }
  RemoveScratch();
  return vf::Finish();
}
