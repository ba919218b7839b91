// Shared driver of the exhaustive explorers.
//
// An explorer enumerates its whole bounded space in a fixed order and calls
//   if (Begin(description)) { ...run on the real code, compare, Fail(...)...; }
// for each element ("case"). Cases are numbered 0,1,2,... in enumeration order;
// the runner splits them over processes by number (--shard i/n), and replays
// one with --only N. The number and description of the case being executed are
// kept in a shared-memory file, so a crash or a hang is attributed to it.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vf {
struct Current {  // Lives in shared memory.
  volatile int64_t index;
  char desc[32768 - 16];
};

struct State {
  bool thorough = false;
  int64_t shard = 0, nshards = 1;
  int64_t only = -1;
  int64_t start = 0;
  std::string out = "/tmp";  // Directory for results.
  int64_t index = -1;
  bool in_case = false;
  Current *cur = nullptr;
  std::string cur_desc;
  uint64_t executed = 0, enumerated = 0;
  uint64_t transitions = 0;
  std::unordered_set<uint64_t> states;    // Distinct model states / outcomes.
  std::unordered_set<uint64_t> nontriv;   // Distinct non-trivial cases.
  std::vector<std::string> samples;
  std::map<std::string, int> fail_keys;
  std::map<std::string, int64_t> counters;
  FILE *fails = nullptr;
  bool verbose = false;
};
inline State &S() {
  static State *s = new State;
  return *s;
}

inline uint64_t Hash(std::string_view s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  return h;
}

inline std::string Esc(std::string_view s) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\r': r += "\\r"; break;
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    default:
      if (c < 32 || c >= 127) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += c;
      }
    }
  }
  return r;
}

inline bool Thorough() { return S().thorough; }
inline bool Replaying() { return S().only >= 0; }

// Watchdog: a case that uses more than this much CPU time is a hang.
inline int64_t &WatchIndex() {
  static int64_t i = -2;
  return i;
}
inline int &WatchLimit() {
  static int l = 20;  // seconds of CPU time
  return l;
}
inline void OnProf(int) {
  static int strikes = 0;
  State &s = S();
  if (s.index == WatchIndex() && s.in_case) {
    if (++strikes >= WatchLimit()) {
      const char m[] = "WATCHDOG: case does not terminate\n";
      (void)!write(2, m, sizeof m - 1);
      _exit(77);
    }
  } else {
    strikes = 0;
    WatchIndex() = s.index;
  }
}

inline void Init(int argc, char **argv) {
  State &s = S();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--thorough") s.thorough = true;
    else if (a == "--shard") {
      std::string v = val();
      sscanf(v.c_str(), "%ld/%ld", &s.shard, &s.nshards);
    } else if (a == "--only") s.only = atoll(val().c_str());
    else if (a == "--start") s.start = atoll(val().c_str());
    else if (a == "--out") s.out = val();
    else if (a == "-v") s.verbose = true;
  }
  std::string cur = s.out + "/cur." + std::to_string(s.shard);
  int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Current)) != 0) {
    perror("cur file");
    exit(2);
  }
  s.cur = (Current *)mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE,
                          MAP_SHARED, fd, 0);
  close(fd);
  s.cur->index = -1;
  s.fails = fopen((s.out + "/fails." + std::to_string(s.shard)).c_str(), "a");
  signal(SIGPROF, OnProf);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Announces the next case. Returns true if this process has to execute it.
// "make_desc" is only called if so.
inline bool BeginF(const std::function<std::string()> &make_desc) {
  State &s = S();
  ++s.index;
  ++s.enumerated;
  s.in_case = false;
  if (s.only >= 0) {
    if (s.index != s.only) return false;
  } else {
    if (s.index % s.nshards != s.shard || s.index < s.start) return false;
  }
  s.cur_desc = make_desc();
  s.cur->index = s.index;
  size_t n = std::min(s.cur_desc.size(), sizeof(s.cur->desc) - 1);
  memcpy(s.cur->desc, s.cur_desc.data(), n);
  s.cur->desc[n] = 0;
  s.in_case = true;
  ++s.executed;
  if (s.samples.size() < 3 || (s.executed % 9973 == 0 && s.samples.size() < 8)) {
    s.samples.push_back(s.cur_desc);
  }
  if (s.verbose || s.only >= 0) {
    fprintf(stderr, "case %ld: %s\n", (long)s.index, s.cur_desc.c_str());
  }
  return true;
}
inline bool Begin(std::string_view desc) {
  return BeginF([&]() { return std::string(desc); });
}
// Same as Begin(), cheap when case is not for this process.
#define VF_BEGIN(expr) vf::BeginF([&]() -> std::string { return (expr); })

// Record that the current case violates the property; "key" is a short class
// of failure (used to limit the amount of reporting).
inline void Fail(const std::string &key, const std::string &msg) {
  State &s = S();
  int n = ++s.fail_keys[key];
  if (n > 3 && s.only < 0) return;
  fprintf(s.fails,
          "{\"index\": %ld, \"key\": \"%s\", \"case\": \"%s\", \"msg\": "
          "\"%s\"}\n",
          (long)s.index, Esc(key).c_str(), Esc(s.cur_desc).c_str(),
          Esc(msg).c_str());
  fflush(s.fails);
  if (s.only >= 0 || s.verbose) {
    fprintf(stderr, "FAIL [%s] %s\n  case: %s\n", key.c_str(), msg.c_str(),
            s.cur_desc.c_str());
  }
}

inline void SeeState(uint64_t h) {
  if (S().states.size() < 4000000) S().states.insert(h);
}
inline void SeeState(std::string_view s) { SeeState(Hash(s)); }
inline void Transition(uint64_t n = 1) { S().transitions += n; }
inline void NonTrivial(uint64_t h) {
  if (S().nontriv.size() < 4000000) S().nontriv.insert(h);
}
inline void NonTrivial() { NonTrivial(Hash(S().cur_desc)); }
inline void Count(const std::string &name, int64_t n = 1) {
  S().counters[name] += n;
}

inline int Finish() {
  State &s = S();
  s.in_case = false;
  fclose(s.fails);
  std::string tmp = s.out + "/stats." + std::to_string(s.shard);
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) return 2;
  fprintf(f,
          "{\"enumerated\": %ld, \"executed\": %ld, \"transitions\": %ld, "
          "\"samples\": [",
          (long)s.enumerated, (long)s.executed, (long)s.transitions);
  for (size_t i = 0; i < s.samples.size(); ++i) {
    fprintf(f, "%s\"%s\"", i ? ", " : "", Esc(s.samples[i].substr(0, 400)).c_str());
  }
  fprintf(f, "], \"counters\": {");
  bool first = true;
  for (auto &[k, v] : s.counters) {
    fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", k.c_str(), (long)v);
    first = false;
  }
  fprintf(f, "}, \"fail_total\": %ld}\n", (long)[&] {
    int64_t t = 0;
    for (auto &[k, v] : s.fail_keys) t += v;
    return t;
  }());
  fclose(f);
  auto dump = [&](const char *name, const std::unordered_set<uint64_t> &set) {
    std::string fn = s.out + "/" + name + "." + std::to_string(s.shard);
    FILE *b = fopen(fn.c_str(), "w");
    std::vector<uint64_t> v(set.begin(), set.end());
    if (!v.empty()) (void)!fwrite(v.data(), 8, v.size(), b);
    fclose(b);
  };
  dump("states", s.states);
  dump("nontriv", s.nontriv);
  return 0;
}
// Sizes for things of which there can be any number: all small ones, and those
// around powers of two and of ten.
inline std::vector<int> Sizes(int max) {
  std::vector<int> r;
  for (int n = 0; n <= max; ++n) {
    bool take = n <= (Thorough() ? 150 : 24);
    for (int64_t p : {32, 50, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000}) {
      take |= n >= p - 1 && n <= p + 1;
    }
    if (take) r.push_back(n);
  }
  return r;
}
inline std::string Times(const std::string &s, int n) {
  std::string r;
  for (int i = 0; i < n; ++i) r += s;
  return r;
}
}  // namespace vf
#endif
