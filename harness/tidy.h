// Small projects on which scripts/run-clang-tidy-cached.cc runs with a clang-tidy
// stand-in, whose output is a function of everything the real one depends on.
#ifndef VERIF_TIDY_H
#define VERIF_TIDY_H
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "common.h"

int program_main(int argc, char *argv[]);

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

inline std::string Slurp(const std::string &f) {
  std::string r;
  const int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) return r;
  char buf[8192];
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) r.append(buf, n);
  close(fd);
  return r;
}
inline bool WriteAll(int fd, std::string_view s) {
  while (!s.empty()) {
    const ssize_t n = write(fd, s.data(), s.size());
    if (n <= 0) return false;
    s.remove_prefix(n);
  }
  return true;
}
inline void Spit(const std::string &f, const std::string &s) {
  const int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  WriteAll(fd, s);
  close(fd);
}
inline std::string Join(const Strs &v, const char *sep = " | ") {
  std::string r;
  for (auto &s : v) r += (r.empty() ? "" : sep) + s;
  return r;
}

// -- The stand-in for clang-tidy.
namespace stub {
// Direct includes with quotes, as the compiler sees them. (The texts used here
// have no comments nor string literals to be careful about.)
inline Strs Includes(const std::string &content) {
  Strs r;
  std::stringstream in(content);
  for (std::string l; std::getline(in, l);) {
    size_t p = l.find_first_not_of(" \t");
    if (p == std::string::npos || l[p] != '#') continue;
    p = l.find_first_not_of(" \t", p + 1);
    if (p == std::string::npos || l.compare(p, 7, "include") != 0) continue;
    p = l.find_first_not_of(" \t", p + 7);
    if (p == std::string::npos || l[p] != '"') continue;
    const size_t e = l.find('"', p + 1);
    if (e != std::string::npos) r.push_back(l.substr(p + 1, e - p - 1));
  }
  return r;
}
// The header meant in the project, or nothing
inline std::string Resolve(const std::string &from, const std::string &inc) {
  const std::string dir = fs::path(from).parent_path().string();
  struct stat st;
  for (const std::string &c : {dir + "/" + inc, inc, "bant/" + inc}) {
    if (stat(c.c_str(), &st) == 0 && S_ISREG(st.st_mode)) return fs::path(c).lexically_normal().string();
  }
  return "";
}
struct Env {
  std::string cwd, execroot, version;
};
// Everything the messages for a file depend on.
inline std::string Inputs(const std::string &file, const std::string &config, const std::string &args, const std::string &version) {
  std::string r = file + "\1" + config + "\1" + args + "\1" + version;
  const std::string content = Slurp(file);
  r += "\1" + content;
  for (auto &i : Includes(content)) {
    const std::string h = Resolve(file, i);
    r += "\1" + i;
    if (!h.empty()) r += "=" + h + "\2" + Slurp(h);
  }
  return r;
}
// Messages. With "raw", names of files are as clang-tidy writes them,
// otherwise as they are expected in the report.
inline std::string Output(const std::string &file, const std::string &config, const std::string &args, const Env &env, bool raw) {
  static const char *const kChecks[] = {"google-explicit-constructor", "cert-err33-c", "misc-x,bugprone-y", "clang-diagnostic-error", "clang-analyzer-core.Null", "a,-warnings-as-errors"};
  const std::string content = Slurp(file);
  const std::string db = Slurp("compile_commands.json");
  const std::string flags = (db.empty() ? Slurp("compile_flags.txt") : db) + Slurp("MODULE.bazel");
  char h[32];
  snprintf(h, sizeof h, "%016lx", (long)vf::Hash(flags, vf::Hash(Inputs(file, config, args, env.version))));
  std::string r;
  std::vector<std::pair<std::string, std::string>> texts = {{file, content}};
  for (auto &i : Includes(content)) {
    const std::string hdr = Resolve(file, i);
    if (!hdr.empty()) texts.push_back({hdr, Slurp(hdr)});
  }
  for (auto &[name, text] : texts) {
    int line = 0;
    std::stringstream in(text);
    for (std::string l; std::getline(in, l);) {
      ++line;
      const size_t p = l.find("BAD");
      if (p == std::string::npos || p + 3 >= l.size()) continue;
      const int n = l[p + 3] - '0';
      std::string prefix;
      if (raw) {
        switch (n % 5) {
        case 0: break;
        case 1: prefix = env.cwd + "/"; break;
        case 2: prefix = env.execroot + "/"; break;
        case 3: prefix = "./"; break;
        case 4: prefix = env.cwd + "/./"; break;
        }
      }
      r += prefix + name + ":" + std::to_string(line) + ":1: " + (n % 2 ? "warning: " : "error: ") + "in " + file + " " + h + " [" + kChecks[n % 6] + "]\n";
      r += "  " + l + " /* " + env.execroot + "/x */\n  ^~~~\n";
    }
  }
  return r;
}

// Runs in the process the code asks for, or in ours.
inline int Main(const Strs &argv, std::string *out) {
  const char *v = getenv("STUB_VERSION"), *root = getenv("STUB_EXECROOT");
  const Env env = {fs::current_path().string(), root ? root : "", v ? v : ""};
  if (fs::path(argv[0]).filename() == "bazel") {
    *out = env.execroot + "\n";
    return 0;
  }
  std::string file, args, config_file;
  for (size_t i = 1; i < argv.size(); ++i) {
    const std::string &a = argv[i];
    if (a == "--version") {
      *out = "LLVM (http://llvm.org/):\n  LLVM version " + env.version + "\n";
      return 0;
    }
    if (a.rfind("--config-file=", 0) == 0) config_file = a.substr(14);
    else if (a == "--quiet" || a.rfind("--extra-arg=-Wno-unknown-", 0) == 0) continue;
    else if (i > 1 && (a[0] == '-' || !file.empty())) args += a + "\1";
    else file = a;
  }
  struct stat st;
  if (file.empty() || stat(file.c_str(), &st) != 0) {
    *out = "Error: no such file '" + file + "'\n";
    return 1;
  }
  if (const char *log = getenv("STUB_LOG")) {
    const int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
    WriteAll(fd, file + "\n");
    close(fd);
  }
  *out = Output(file, Slurp(config_file), args, env, true);
  return out->find("error: ") == std::string::npos ? 0 : 1;
}

// The part of the shell's language we know about.
struct Command {
  Strs words;
  std::string out, err;
};
inline bool Parse(const std::string &s, Command *c) {
  std::string word, *target = nullptr;
  bool have = false;
  auto flush = [&]() {
    if (!have) return;
    if (target) *target = word;
    else c->words.push_back(word);
    target = nullptr;
    word.clear();
    have = false;
  };
  for (size_t i = 0; i < s.size(); ++i) {
    const char ch = s[i];
    if (ch == '\'') {
      const size_t e = s.find('\'', i + 1);
      if (e == std::string::npos) return false;
      word += s.substr(i + 1, e - i - 1);
      have = true;
      i = e;
    } else if (ch == ' ') {
      flush();
    } else if (ch == '>') {
      const bool err = have && word == "2" && !target;
      if (err) {
        have = false;
        word.clear();
      } else {
        flush();
      }
      if (target) return false;
      target = err ? &c->err : &c->out;
      if (i + 1 < s.size() && s[i + 1] == '>') return false;
    } else if (ch == '\\' && i + 1 < s.size() && s[i + 1] != '\n') {
      word += s[++i];
      have = true;
    } else if (isalnum((unsigned char)ch) || strchr("_-./,=:+@%", ch)) {
      word += ch;
      have = true;
    } else {
      return false;
    }
  }
  flush();
  return !target && !c->words.empty() && c->err == "/dev/null";
}
inline bool IsOurs(const Command &c) {
  const std::string n = fs::path(c.words[0]).filename().string();
  return n == "clang-tidy-stub" || n == "bazel";
}
}  // namespace stub

// -- The project
inline std::string g_scratch;  // contains everything
inline std::string CacheDir() { return g_scratch + "/cache"; }
inline std::string LogFile() { return g_scratch + "/stub.log"; }
inline int g_jobs = 1;

inline void SetupScratch(const char *name, const vf::State &s) {
  char tmpl[256];
  snprintf(tmpl, sizeof tmpl, "%s/vf-%s-XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp", name);
  g_scratch = mkdtemp(tmpl);
  (void)s;
  fs::create_directories(g_scratch + "/bin");
  const std::string self = fs::read_symlink("/proc/self/exe").string();
  fs::create_symlink(self, g_scratch + "/bin/clang-tidy-stub");
  fs::create_symlink(self, g_scratch + "/bin/bazel");
  fs::create_directories(CacheDir());
  setenv("CLANG_TIDY", (g_scratch + "/bin/clang-tidy-stub").c_str(), 1);
  setenv("CACHE_DIR", CacheDir().c_str(), 1);
  setenv("PATH", (g_scratch + "/bin:/usr/bin:/bin").c_str(), 1);
  setenv("STUB_VERSION", "17.0.6", 1);
  setenv("STUB_EXECROOT", "/home/u/.cache/bazel+x/execroot/_main", 1);
  setenv("STUB_LOG", LogFile().c_str(), 1);
}
inline void RemoveScratch() {
  if (g_scratch.find("/vf-") == std::string::npos) return;
  fs::current_path("/");
  fs::remove_all(g_scratch);
}

// Called as one of the stand-ins ?
inline bool StubInvoked(int argc, char **argv, int *ret) {
  const std::string n = fs::path(argv[0]).filename().string();
  if (n != "clang-tidy-stub" && n != "bazel") return false;
  std::string out;
  *ret = stub::Main(Strs(argv, argv + argc), &out);
  WriteAll(1, out);
  return true;
}

struct Project {
  std::map<std::string, std::string> files;  // below the project directory
  std::string config = "Checks: '*'\n", flags = "-Wall\n", module = "module()\n", version = "17.0.6";
  Strs args;
  std::string dir = "prj";
  std::string Dir() const { return g_scratch + "/" + dir; }
};
// Files written by the last run.
struct Renamed {
  int used;
  char names[1 << 20];
  void Add(const char *n) {
    const int len = strlen(n) + 1;
    const int pos = __atomic_fetch_add(&used, len, __ATOMIC_SEQ_CST);
    if (pos + len < (int)sizeof names) memcpy(names + pos, n, len);
  }
  Strs Get() const {
    Strs r;
    for (int p = 0; p < used && p < (int)sizeof names; p += strlen(names + p) + 1) r.push_back(names + p);
    return r;
  }
};
inline Renamed *g_renamed = (Renamed *)mmap(nullptr, sizeof(Renamed), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

// Brings the directory into the given state; only what changed is written.
class Checkout {
 public:
  void Set(const Project &p) {
    std::map<std::string, std::string> want = p.files;
    want[".clang-tidy"] = p.config;
    want["compile_flags.txt"] = p.flags;
    want["MODULE.bazel"] = p.module;
    auto &have = have_[p.dir];
    for (auto &[f, c] : have)
      if (!want.count(f)) unlink((p.Dir() + "/" + f).c_str());
    for (auto &[f, c] : want) {
      auto found = have.find(f);
      if (found != have.end() && found->second == c) continue;
      const std::string path = p.Dir() + "/" + f;
      fs::create_directories(fs::path(path).parent_path());
      unlink(path.c_str());
      if (c.rfind("->", 0) == 0) fs::create_symlink(c.substr(2), path);
      else Spit(path, c);
      if (IsEnv(f)) SetTime(path, env_time_[p.dir][f] = touch_time_);
    }
    have = want;
    setenv("STUB_VERSION", p.version.c_str(), 1);
    fs::current_path(p.Dir());
  }
  // Logical time in milliseconds. Something written in an actual run is later than everything.
  static void SetTime(const std::string &f, int64_t t) {
    struct timespec ts[2] = {{t / 1000, t % 1000 * 1000000}, {t / 1000, t % 1000 * 1000000}};
    utimensat(AT_FDCWD, f.c_str(), ts, AT_SYMLINK_NOFOLLOW);
  }
  // Forget everything.
  void Clear() {
    fs::current_path(g_scratch);
    for (auto &e : fs::directory_iterator(g_scratch))
      if (e.is_directory() && e.path().filename() != "bin") fs::remove_all(e.path());
    have_.clear();
    fs::create_directories(CacheDir());
  }
  void NextTime() { touch_time_ += 20; }
  static bool IsEnv(const std::string &f) { return f == "compile_flags.txt" || f == "MODULE.bazel" || f == "compile_commands.json"; }
  void Touch(const Project &p, const std::string &f) { SetTime(p.Dir() + "/" + f, env_time_[p.dir][f] = touch_time_); }
  int64_t EnvTime(const Project &p) {
    auto &t = env_time_[p.dir];
    return std::max(t["MODULE.bazel"], t[p.files.count("compile_commands.json") ? "compile_commands.json" : "compile_flags.txt"]);
  }
  int64_t CacheTime() const { return touch_time_ + 10; }
  // To be called after each run
  void AgeCache(bool anything) {
    for (const std::string &f : g_renamed->Get()) SetTime(f, CacheTime());
    if (!anything || !g_renamed->Get().empty()) return;
    for (auto &e : fs::recursive_directory_iterator(CacheDir())) {
      struct stat st;
      if (lstat(e.path().c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_mtime > start_ / 1000 + 18000) SetTime(e.path().string(), CacheTime());
    }
  }

 private:
  const int64_t start_ = (time(nullptr) - 36000) * 1000;
  int64_t touch_time_ = start_;
  std::map<std::string, std::map<std::string, int64_t>> env_time_;
  std::map<std::string, std::map<std::string, std::string>> have_;
};

struct Result {
  int status = 0;  // as of waitpid()
  std::string report, summary, out, err;
  std::multiset<std::string> invoked;
};
inline const char *kReport = "bant_clang-tidy.out";
inline const char *kSummary = "bant_clang-tidy.summary";

// One run in the current directory
inline Result RunTidy(const Strs &args, void (*in_child)() = nullptr) {
  Result r;
  const std::string o = g_scratch + "/stdout", e = g_scratch + "/stderr";
  Spit(LogFile(), "");
  g_renamed->used = 0;
  const pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, SIG_DFL);
    struct itimerval off = {};
    setitimer(ITIMER_PROF, &off, nullptr);
    alarm(60);
    dup2(open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), 1);
    dup2(open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), 2);
    if (in_child) in_child();
    Strs a = {"run-clang-tidy-cached"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char *> argv;
    for (auto &s : a) argv.push_back(s.data());
    argv.push_back(nullptr);
    exit(program_main((int)a.size(), argv.data()));
  }
  waitpid(pid, &r.status, 0);
  vf::Count("evaluations");
  vf::Transition();
  r.report = Slurp(kReport);
  r.summary = Slurp(kSummary);
  r.out = Slurp(o);
  r.err = Slurp(e);
  std::stringstream in(Slurp(LogFile()));
  for (std::string l; std::getline(in, l);) r.invoked.insert(l);
  return r;
}

// -- What is expected
inline bool EndsWith(const std::string &s, const char *e) {
  const size_t n = strlen(e);
  return s.size() > n && s.compare(s.size() - n, n, e) == 0;
}
inline bool IsSource(const std::string &f) {
  struct stat st;
  if (f.rfind("bant/", 0) != 0 || stat(f.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return false;
  for (const char *e : {".cc", ".cpp", ".cxx", ".h", ".hpp", ".hxx", ".inl"})
    if (EndsWith(f, e)) return true;
  return false;
}
struct Expected {
  std::map<std::string, std::string> messages;  // only files that have some
  Strs summary;                                 // sorted by count
  bool clean = true;
};
inline std::string ArgString(const Strs &args) {
  std::string r;
  for (auto &a : args) r += a + "\1";
  return r;
}
// (In the directory of the project.)
inline Expected Fresh(const Project &p) {
  Expected r;
  std::map<std::string, int> count;
  const stub::Env env = {p.Dir(), getenv("STUB_EXECROOT"), p.version};
  for (auto &[f, c] : p.files) {
    if (!IsSource(f)) continue;
    const std::string m = stub::Output(f, p.config, ArgString(p.args), env, false);
    if (m.empty()) continue;
    r.messages[f] = m;
    r.clean = false;
    std::stringstream in(m);
    for (std::string l; std::getline(in, l);) {
      const size_t b = l.rfind(" [");
      if (!l.empty() && l.back() == ']') ++count[l.substr(b + 1)];
    }
  }
  std::vector<std::pair<int, std::string>> v;
  for (auto &[k, n] : count) v.push_back({-n, k});
  std::sort(v.begin(), v.end());
  for (auto &[n, k] : v) {
    char b[200];
    snprintf(b, sizeof b, "%5d %s", -n, k.c_str());
    r.summary.push_back(b);
  }
  return r;
}
inline std::string Compare(const Result &r, const Expected &e) {
  if (!WIFEXITED(r.status)) return "ended by signal " + std::to_string(WTERMSIG(r.status)) + " " + r.err;
  std::string rest = r.report;
  for (auto &[f, m] : e.messages) {
    const std::string section = f + ":\n" + m;
    const size_t p = rest.find(section);
    if (p == std::string::npos) return "not in report: " + section + "; report is " + r.report + " stderr " + r.err;
    rest.erase(p, section.size());
  }
  if (!rest.empty()) return "in report, not expected: " + rest;
  std::string sum;
  for (auto &l : e.summary) sum += l + "\n";
  if (r.out != sum) return "stdout is " + r.out + " expected " + sum;
  if (r.summary != sum) return "summary is " + r.summary + " expected " + sum;
  if ((WEXITSTATUS(r.status) == 0) != e.clean) return "exit status " + std::to_string(WEXITSTATUS(r.status));
  if ((r.err.find("No clang-tidy complaints") != std::string::npos) != e.clean) return "messages: " + r.err;
  return "";
}
#endif
