// Scheduler that runs the threads of the code under test as coroutines, one at
// a time, and decides at each operation on mutexes, condition variables,
// threads and (in workers) files who goes next. The decisions are enumerated
// by the caller. Code instrumented with -fsanitize=thread reports its memory
// accesses to us; they are checked for data races (happens-before) and for use
// of freed memory.
//
// One execution per process: Start() in a forked child.
#ifndef VERIF_MC_RUNTIME_H
#define VERIF_MC_RUNTIME_H
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <map>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" char __executable_start;
namespace mc {
constexpr int kMaxThreads = 72;
constexpr int kMaxChoices = 4096;

// Result of an execution, shared with the parent.
struct Shared {
  int nchoices;
  uint8_t alternatives[kMaxChoices], chosen[kMaxChoices];
  int ended;     // reached the regular end
  int exitcode;
  char error_key[64], error[2048];
  int64_t steps, accesses;
  int created;
};

struct Config {
  int active_workers = 2;   // those that take part in all interleavings
  int preemptions = 2;
  int spurious = 0;
  bool memory = true;       // check accesses
  bool eager = false;       // others first, instead of last
  std::vector<uint8_t> prefix;
};

struct VC {
  uint32_t c[kMaxThreads] = {};
  void Join(const VC &o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum Status { kNotStarted, kRunnable, kBlocked, kWaiting, kSignaled, kJoining, kFutex, kIdle, kDone };
struct Thread {
  Status status = kNotStarted;
  ucontext_t ctx;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  const void *waits_for = nullptr;  // condition variable, futex
  const void *mutex = nullptr;      // to be locked next
  int joins = -1;
  uint32_t futex_val = 0;
  bool detached = false;
  VC vc;
};
struct Mutex {
  int owner = -1, depth = 0;
  VC vc;
};
struct Access {
  uint8_t tid, mask;
  bool write;
  uint32_t clk;
};
struct Cell {
  std::vector<Access> acc;
  bool freed = false;
};
struct FileOp {
  int thread;
  std::string op, path;
};

struct Runtime {
  Shared *sh = nullptr;
  Config cfg;
  bool on = false;      // controlling
  bool inside = false;  // in the runtime itself
  std::vector<Thread> threads;
  int cur = 0;
  int preempted = 0, spurious = 0;
  std::unordered_map<const void *, Mutex> mutexes;
  std::unordered_map<const void *, VC> atomics;
  std::unordered_map<uintptr_t, Cell> cells;
  std::unordered_map<void *, size_t> blocks;
  std::vector<FileOp> file_ops;
  std::map<DIR *, int> open_dirs;
  int last_started = 0;
};
inline Runtime *g = nullptr;
inline bool On() { return g && g->on && !g->inside; }
struct Inside {
  bool before;
  Inside() : before(g->inside) { g->inside = true; }
  ~Inside() { g->inside = before; }
};

inline void Error(const char *key, const std::string &msg) {
  if (g->sh->error_key[0]) return;
  snprintf(g->sh->error_key, sizeof g->sh->error_key, "%s", key);
  snprintf(g->sh->error, sizeof g->sh->error, "%s", msg.c_str());
}
[[noreturn]] inline void Die(const char *key, const std::string &msg) {
  Error(key, msg);
  _exit(0);
}

// -- choices
inline int Choose(int n) {
  if (n <= 1) return 0;
  Shared *s = g->sh;
  if (s->nchoices >= kMaxChoices) Die("too-long", "too many choices in an execution");
  const int i = s->nchoices++;
  const int c = i < (int)g->cfg.prefix.size() ? g->cfg.prefix[i] : 0;
  s->alternatives[i] = n;
  s->chosen[i] = c;
  if (c >= n) Die("nondeterministic", "replay of choices diverged");
  return c;
}

inline bool MutexFree(const void *m) { return g->mutexes[m].owner < 0; }
inline bool Enabled(int t) {
  Thread &th = g->threads[t];
  switch (th.status) {
  case kRunnable: return true;
  case kBlocked:
  case kSignaled: return MutexFree(th.mutex);
  case kJoining: return g->threads[th.joins].status == kDone;
  case kFutex: return *(volatile uint32_t *)th.waits_for != th.futex_val;
  default: return false;
  }
}
void Trampoline();
inline void SwitchTo(int t) {
  if (t == g->cur) return;
  Thread &th = g->threads[t];
  const int me = g->cur;
  g->cur = t;
  if (th.status == kNotStarted) {
    th.status = kRunnable;
    g->last_started = std::max(g->last_started, t);
    getcontext(&th.ctx);
    const size_t size = 256 << 10;
    th.ctx.uc_stack.ss_sp = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    th.ctx.uc_stack.ss_size = size;
    th.ctx.uc_link = nullptr;
    makecontext(&th.ctx, Trampoline, 0);
  }
  const bool in = g->inside;
  swapcontext(&g->threads[me].ctx, &th.ctx);
  g->inside = in;
}
inline std::string Describe() {
  static const char *kNames[] = {"not started", "runnable", "blocked on mutex", "waits for condition", "signaled", "joins", "futex", "idle", "done"};
  std::string r;
  for (size_t i = 0; i < g->threads.size(); ++i) {
    if (g->threads[i].status == kDone) continue;
    r += "thread " + std::to_string(i) + " " + kNames[g->threads[i].status] + "; ";
  }
  return r;
}
// Somebody goes next: the current thread if possible, or somebody else.
inline void Schedule(bool yield = false) {
  Inside in;
  if (++g->sh->steps > 200000) Die("endless", "execution does not end: " + Describe());
  const bool can_continue = Enabled(g->cur);
  int cand[kMaxThreads], n = 0;
  if (can_continue && !yield) cand[n++] = g->cur;
  const bool may_switch = !can_continue || yield || g->preempted < g->cfg.preemptions;
  if (may_switch) {
    int not_started = -1;
    for (int t = 0; t < (int)g->threads.size(); ++t) {
      if (t == g->cur) continue;
      const Thread &th = g->threads[t];
      if (th.status == kNotStarted) {
        if (not_started < 0) not_started = t;
      } else if (Enabled(t)) {
        cand[n++] = t;
      } else if (th.status == kWaiting && g->spurious < g->cfg.spurious && MutexFree(th.mutex)) {
        cand[n++] = t;
      }
    }
    if (not_started > 0 && (not_started <= g->cfg.active_workers || n == 0)) cand[n++] = not_started;
  }
  if (n == 0 && can_continue) cand[n++] = g->cur;
  if (n == 0) {
    // Only what waits for everybody else to be done is left.
    for (int t = 0; t < (int)g->threads.size(); ++t) {
      if (g->threads[t].status == kIdle) {
        g->threads[t].status = kRunnable;
        SwitchTo(t);
        return;
      }
    }
    Die("deadlock", Describe());
  }
  const int choice = Choose(n);
  const int c = cand[g->cfg.eager ? n - 1 - choice : choice];
  if (can_continue && !yield && c != g->cur) ++g->preempted;
  if (g->threads[c].status == kWaiting) {
    ++g->spurious;
    g->threads[c].status = kSignaled;
  }
  SwitchTo(c);
}
// Scheduling point before something others can see.
inline void Point() { Schedule(); }
inline Thread &Me() { return g->threads[g->cur]; }
inline void Tick() { ++Me().vc.c[g->cur]; }

inline void BlockUntilEnabled(Status s, const void *what) {
  Me().status = s;
  Me().mutex = what;
  Me().waits_for = what;
  while (!Enabled(g->cur)) Schedule();
  Me().status = kRunnable;
}
inline void Lock(const void *m) {
  Inside in;
  Point();
  Mutex &mx = g->mutexes[m];
  if (mx.owner == g->cur) Die("deadlock", "mutex locked again by its owner");
  if (mx.owner >= 0) BlockUntilEnabled(kBlocked, m);
  Mutex &mu = g->mutexes[m];
  mu.owner = g->cur;
  Me().vc.Join(mu.vc);
}
inline void Unlock(const void *m) {
  Inside in;
  Mutex &mx = g->mutexes[m];
  if (mx.owner != g->cur) Error("unlock", "mutex unlocked that is not locked by this thread");
  mx.vc = Me().vc;
  Tick();
  mx.owner = -1;
}
inline int CondWait(const void *c, const void *m, bool timed) {
  Inside in;
  Unlock(m);
  Me().waits_for = c;
  Me().mutex = m;
  if (timed) {  // may time out any time
    Me().status = kSignaled;
    Schedule(true);
  } else {
    Me().status = kWaiting;
  }
  while (!Enabled(g->cur)) Schedule();
  Me().status = kRunnable;
  Mutex &mx = g->mutexes[m];
  mx.owner = g->cur;
  Me().vc.Join(mx.vc);
  return timed ? ETIMEDOUT : 0;
}
inline void Signal(const void *c, bool all) {
  Inside in;
  Point();
  std::vector<int> w;
  for (int t = 0; t < (int)g->threads.size(); ++t)
    if (g->threads[t].status == kWaiting && g->threads[t].waits_for == c) w.push_back(t);
  if (!all && w.size() > 1) w = {w[Choose(w.size())]};
  for (int t : w) g->threads[t].status = kSignaled;
}
inline void Trampoline() {
  g->inside = false;
  Thread *t = &Me();
  void *r = t->fn(t->arg);
  g->inside = true;
  t = &Me();
  t->ret = r;
  Tick();
  t->status = kDone;
  Schedule();
  abort();
}
inline int Create(pthread_t *id, void *(*fn)(void *), void *arg, bool detached) {
  Inside in;
  if ((int)g->threads.size() >= kMaxThreads) Die("threads", "too many threads");
  // Nobody notices creation of threads that don't take part.
  if ((int)g->threads.size() <= g->cfg.active_workers + 1) Point();
  g->threads.emplace_back();
  const int t = g->threads.size() - 1;
  Thread &th = g->threads[t];
  th.fn = fn;
  th.arg = arg;
  th.detached = detached;
  th.vc = Me().vc;
  th.vc.c[t] = 1;
  Tick();
  ++g->sh->created;
  *id = (pthread_t)(0x10000 + t);
  return 0;
}
inline int Join(pthread_t id, void **ret) {
  Inside in;
  Point();
  const int t = (int)((uintptr_t)id - 0x10000);
  if (t <= 0 || t >= (int)g->threads.size() || g->threads[t].detached) {
    Error("join", "join of something that is not a joinable thread");
    return ESRCH;
  }
  Me().joins = t;
  if (g->threads[t].status != kDone) BlockUntilEnabled(kJoining, nullptr);
  Me().vc.Join(g->threads[t].vc);
  g->threads[t].detached = true;
  if (ret) *ret = g->threads[t].ret;
  return 0;
}
// Main thread waits until nobody else can do anything.
inline void Idle() {
  Inside in;
  Me().status = kIdle;
  Schedule();
  Me().status = kRunnable;
}
inline void AtomicSync(const void *a) {
  VC &v = g->atomics[a];
  Me().vc.Join(v);
  v = Me().vc;
  Tick();
}

// -- Memory
inline void Report(const char *key, uintptr_t a, const std::string &who) {
  char buf[2000];
  snprintf(buf, sizeof buf, "address %lx, %s", (unsigned long)a, who.c_str());
  if (getenv("MC_BACKTRACE")) {
    void *bt[20];
    const int n = backtrace(bt, 20);
    for (int i = 0; i < n; ++i) snprintf(buf + strlen(buf), sizeof buf - strlen(buf), " %lx", (long)bt[i] - (long)&__executable_start);
  }
  Error(key, buf);
}
inline void OnAccess(const void *p, size_t size, bool write) {
  if (!On() || g->threads.size() < 2 || !g->cfg.memory) return;
  Inside in;
  ++g->sh->accesses;
  uintptr_t a = (uintptr_t)p;
  const uintptr_t end = a + size;
  const int me = g->cur;
  VC &vc = Me().vc;
  while (a < end) {
    const uintptr_t word = a & ~(uintptr_t)7;
    const uintptr_t stop = std::min(end, word + 8);
    uint8_t mask = 0;
    for (uintptr_t b = a; b < stop; ++b) mask |= 1 << (b - word);
    Cell &c = g->cells[word];
    if (c.freed) Report("use-after-free", a, std::string(write ? "write" : "read") + " by thread " + std::to_string(me));
    size_t keep = 0;
    bool have = false;
    for (size_t i = 0; i < c.acc.size(); ++i) {
      Access x = c.acc[i];
      if (x.tid == me) {
        if (x.write == write && x.mask == mask) {
          x.clk = vc.c[me];
          have = true;
        }
        c.acc[keep++] = x;
        continue;
      }
      if ((x.mask & mask) && (x.write || write) && x.clk > vc.c[x.tid]) {
        Report("data-race", a, std::string(write ? "write" : "read") + " by thread " + std::to_string(me) + " and " + (x.write ? "write" : "read") + " by thread " + std::to_string(x.tid));
      }
      // What happened before a write can not race any more without the
      // write doing so too.
      if (write && (x.mask & ~mask) == 0) continue;
      c.acc[keep++] = x;
    }
    c.acc.resize(keep);
    if (!have) c.acc.push_back({(uint8_t)me, mask, write, vc.c[me]});
    a = stop;
  }
}
inline void OnNew(void *p, size_t n) {
  if (!On() || !g->cfg.memory) return;
  Inside in;
  g->blocks[p] = n;
  if (g->cells.empty()) return;  // else might have been used before
  for (uintptr_t w = (uintptr_t)p & ~(uintptr_t)7; w < (uintptr_t)p + n; w += 8) g->cells.erase(w);
}
// Returns if it can be given back to the system.
inline bool OnDelete(void *p) {
  if (!g || !g->on) return true;
  if (g->inside || !g->cfg.memory) return false;
  size_t n = 0;
  {
    Inside in;
    auto it = g->blocks.find(p);
    if (it == g->blocks.end()) return false;  // older; never used again
    n = it->second;
    g->blocks.erase(it);
  }
  OnAccess(p, n, true);
  Inside in;
  for (uintptr_t w = (uintptr_t)p & ~(uintptr_t)7; w < (uintptr_t)p + n; w += 8) g->cells[w].freed = true;
  return false;
}

inline void OnFile(const char *op, const char *path) {
  if (!On()) return;
  Inside in;
  if (g->cur != 0) Point();
  g->file_ops.push_back({g->cur, op, path});
}

inline void Start(Shared *sh, const Config &cfg) {
  g = new Runtime;
  g->sh = sh;
  g->cfg = cfg;
  memset(sh, 0, sizeof *sh);
  g->threads.reserve(kMaxThreads);
  g->threads.emplace_back();
  g->threads[0].status = kRunnable;
  g->threads[0].vc.c[0] = 1;
  g->on = true;
}
}  // namespace mc

// -- What the code calls
#define MC_REAL(ret, name, ...)                        \
  using Fn = ret (*)(__VA_ARGS__);                     \
  static Fn real = nullptr;                            \
  if (!real) real = (Fn)dlsym(RTLD_NEXT, #name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (mc::On()) return mc::Lock(m), 0;
  if (mc::g && mc::g->on) return 0;
  MC_REAL(int, pthread_mutex_lock, pthread_mutex_t *);
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (mc::On()) {
    {
      mc::Inside in;
      mc::Point();
      if (!mc::MutexFree(m)) return EBUSY;
      mc::Mutex &mx = mc::g->mutexes[m];
      mx.owner = mc::g->cur;
      mc::Me().vc.Join(mx.vc);
    }
    return 0;
  }
  if (mc::g && mc::g->on) return 0;
  MC_REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (mc::On()) return mc::Unlock(m), 0;
  if (mc::g && mc::g->on) return 0;
  MC_REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
  return real(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (mc::On()) return mc::CondWait(c, m, false);
  MC_REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
  return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (mc::On()) return mc::CondWait(c, m, true);
  MC_REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
  return real(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  if (mc::On()) return mc::CondWait(c, m, true);
  MC_REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
  return real(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (mc::On()) return mc::Signal(c, false), 0;
  MC_REAL(int, pthread_cond_signal, pthread_cond_t *);
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (mc::On()) return mc::Signal(c, true), 0;
  MC_REAL(int, pthread_cond_broadcast, pthread_cond_t *);
  return real(c);
}
int pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (mc::On()) return mc::Create(id, fn, arg, false);
  MC_REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  return real(id, attr, fn, arg);
}
int pthread_join(pthread_t id, void **ret) {
  if (mc::On()) return mc::Join(id, ret);
  MC_REAL(int, pthread_join, pthread_t, void **);
  return real(id, ret);
}
int pthread_detach(pthread_t id) {
  if (mc::On()) {
    const int t = (int)((uintptr_t)id - 0x10000);
    if (t > 0 && t < (int)mc::g->threads.size()) mc::g->threads[t].detached = true;
    return 0;
  }
  MC_REAL(int, pthread_detach, pthread_t);
  return real(id);
}
pthread_t pthread_self(void) noexcept {
  MC_REAL(pthread_t, pthread_self, void);
  if (mc::g && mc::g->on && mc::g->cur != 0) return (pthread_t)(0x10000 + mc::g->cur);
  return real();
}
int sched_yield(void) noexcept {
  if (mc::On()) {
    mc::Inside in;
    mc::Schedule(true);
  }
  return 0;
}
int nanosleep(const struct timespec *, struct timespec *) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }
// Atomic waits, futures and semaphores end here.
long syscall(long nr, ...) noexcept {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && mc::g && mc::g->on) {
    const int op = a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      mc::Inside in;
      mc::Me().futex_val = (uint32_t)a[2];
      mc::BlockUntilEnabled(mc::kFutex, (void *)a[0]);
      mc::AtomicSync((void *)a[0]);
    }
    return 0;
  }
  MC_REAL(long, syscall, long, long, long, long, long, long, long);
  return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

int access(const char *p, int mode) noexcept {
  MC_REAL(int, access, const char *, int);
  mc::OnFile("access", p);
  return real(p, mode);
}
int stat(const char *p, struct stat *s) noexcept {
  MC_REAL(int, stat, const char *, struct stat *);
  mc::OnFile("stat", p);
  return real(p, s);
}
int lstat(const char *p, struct stat *s) noexcept {
  MC_REAL(int, lstat, const char *, struct stat *);
  mc::OnFile("lstat", p);
  return real(p, s);
}
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  MC_REAL(int, open, const char *, int, ...);
  mc::OnFile((flags & O_DIRECTORY) ? "opendir" : (flags & O_ACCMODE) == O_RDONLY ? "open" : "open-write", p);
  return real(p, flags, mode);
}
DIR *opendir(const char *p) {
  MC_REAL(DIR *, opendir, const char *);
  mc::OnFile("opendir", p);
  DIR *d = real(p);
  if (d && mc::On()) {
    mc::Inside in;
    ++mc::g->open_dirs[d];
  }
  return d;
}
DIR *fdopendir(int fd) {
  MC_REAL(DIR *, fdopendir, int);
  DIR *d = real(fd);
  if (d && mc::On()) {
    mc::Inside in;
    ++mc::g->open_dirs[d];
  }
  return d;
}
struct dirent *readdir(DIR *d) {
  MC_REAL(struct dirent *, readdir, DIR *);
  if (mc::On()) {
    mc::Inside in;
    if (!mc::g->open_dirs.count(d)) mc::Die("directory", "readdir() of something that is not open");
  }
  return real(d);
}
int closedir(DIR *d) {
  MC_REAL(int, closedir, DIR *);
  if (mc::On()) {
    mc::Inside in;
    if (!mc::g->open_dirs.erase(d)) mc::Die("directory", "closedir() of something that is not open");
  }
  return real(d);
}

// -- Calls inserted by -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { mc::OnAccess(p, 8, true); }
void __tsan_vptr_read(void **p) { mc::OnAccess(p, 8, false); }
#define MC_RW(n)                                                            \
  void __tsan_read##n(void *p) { mc::OnAccess(p, n, false); }               \
  void __tsan_write##n(void *p) { mc::OnAccess(p, n, true); }               \
  void __tsan_unaligned_read##n(void *p) { mc::OnAccess(p, n, false); }     \
  void __tsan_unaligned_write##n(void *p) { mc::OnAccess(p, n, true); }     \
  void __tsan_volatile_read##n(void *p) { mc::OnAccess(p, n, false); }      \
  void __tsan_volatile_write##n(void *p) { mc::OnAccess(p, n, true); }
MC_RW(1)
MC_RW(2)
MC_RW(4)
MC_RW(8)
MC_RW(16)
void __tsan_read_range(void *p, size_t n) { mc::OnAccess(p, n, false); }
void __tsan_write_range(void *p, size_t n) { mc::OnAccess(p, n, true); }
#define MC_ATOMIC_POINT(p)      \
  if (mc::On()) {               \
    mc::Inside in;              \
    if (mc::g->threads.size() > 1) mc::Point(); \
    mc::AtomicSync((const void *)p); \
  }
#define MC_ATOMIC(bits, T)                                                   \
  T __tsan_atomic##bits##_load(const volatile T *p, int) {                   \
    MC_ATOMIC_POINT(p) return *p;                                            \
  }                                                                          \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) {                \
    MC_ATOMIC_POINT(p) *p = v;                                               \
  }                                                                          \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) {                \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = v;                                                                  \
    return o;                                                                \
  }                                                                          \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) {               \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = o + v;                                                              \
    return o;                                                                \
  }                                                                          \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) {               \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = o - v;                                                              \
    return o;                                                                \
  }                                                                          \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) {               \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = o & v;                                                              \
    return o;                                                                \
  }                                                                          \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) {                \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = o | v;                                                              \
    return o;                                                                \
  }                                                                          \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) {               \
    MC_ATOMIC_POINT(p) T o = *p;                                             \
    *p = o ^ v;                                                              \
    return o;                                                                \
  }                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { \
    MC_ATOMIC_POINT(p) if (*p == *e) {                                       \
      *p = v;                                                                \
      return 1;                                                              \
    }                                                                        \
    *e = *p;                                                                 \
    return 0;                                                                \
  }                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);     \
  }
MC_ATOMIC(8, uint8_t)
MC_ATOMIC(16, uint16_t)
MC_ATOMIC(32, uint32_t)
MC_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  mc::OnNew(p, n);
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p && mc::OnDelete(p)) free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif
