// Explorer: pre-warming of the filesystem. The real code runs under the
// scheduler of mc_runtime.h, one forked process for each schedule.
#include "mc_runtime.h"
//
#include <sys/wait.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>

#include "common.h"

namespace bant {
void FilesystemPrewarmCacheInit(int argc, char *argv[]);
void FilesystemPrewarmCacheRememberFileWasAccessed(std::string_view file);
void FilesystemPrewarmCacheRememberDirWasAccessed(std::string_view dir);
}  // namespace bant
int bant_main(int argc, char *argv[]);

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

static mc::Shared *g_shared;
static std::string g_scratch, g_home, g_cache;

static std::string Slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static void Spit(const std::string &f, const std::string &s) { std::ofstream(f, std::ios::binary | std::ios::trunc) << s; }
static std::string Join(const Strs &v, const char *sep = " | ") {
  std::string r;
  for (auto &s : v) r += (r.empty() ? "" : sep) + s;
  return r;
}
static Strs Lines(const std::string &s) {
  Strs r;
  std::stringstream in(s);
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}

// -- One execution. "body" ends with exit(); "at_end" runs after destruction
// of static objects and when all threads have come to rest.
static std::function<void()> *g_at_end;
static void AtEnd() {
  if (!mc::g) return;
  mc::Idle();
  mc::g->on = false;
  mc::g->inside = true;
  mc::g->sh->ended = 1;
  (*g_at_end)();
  _exit(0);
}
struct Outcome {
  std::string key, msg;
  std::vector<uint8_t> chosen, alternatives;
  int status = 0;
};
static Outcome Execute(const mc::Config &cfg, const std::function<void()> &body, const std::function<void()> &at_end) {
  const pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, SIG_IGN);
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    g_at_end = new std::function<void()>(at_end);
    atexit(AtEnd);
    mc::Start(g_shared, cfg);
    body();
    exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  Outcome o;
  o.status = st;
  o.chosen.assign(g_shared->chosen, g_shared->chosen + g_shared->nchoices);
  o.alternatives.assign(g_shared->alternatives, g_shared->alternatives + g_shared->nchoices);
  o.key = g_shared->error_key;
  o.msg = g_shared->error;
  if (WIFSIGNALED(st)) {
    o.key = WTERMSIG(st) == SIGALRM ? "hang" : "crash";
    o.msg = "signal " + std::to_string(WTERMSIG(st)) + " " + o.msg;
  } else if (o.key.empty() && !g_shared->ended) {
    o.key = "no-end";
    o.msg = "exit status " + std::to_string(WEXITSTATUS(st));
  }
  vf::Transition(g_shared->steps);
  vf::Count("evaluations");
  return o;
}
// All schedules.
static void Explore(mc::Config cfg, const std::string &ctx, const std::function<void()> &body, const std::function<void()> &at_end, int64_t limit = 4000000) {
  cfg.prefix.clear();
  for (int64_t n = 0; n < limit; ++n) {
    const Outcome o = Execute(cfg, body, at_end);
    std::string sched;
    for (uint8_t c : o.chosen) sched += std::to_string(c) + " ";
    vf::Count("schedules");
    vf::SeeState(vf::Hash(sched, vf::Hash(ctx)));
    if (!o.key.empty()) {
      vf::Fail(o.key, ctx + " schedule " + sched + ": " + o.msg);
      return;
    }
    int i = (int)o.chosen.size() - 1;
    while (i >= 0 && o.chosen[i] + 1 >= o.alternatives[i]) --i;
    if (i < 0) return;
    cfg.prefix.assign(o.chosen.begin(), o.chosen.begin() + i);
    cfg.prefix.push_back(o.chosen[i] + 1);
  }
  vf::Fail("limit", ctx + " more schedules than expected");
}

// -- Parts of cache files
static const Strs kLines = {"Ffile1", "Ddir1", "Fmissing", "Dmissing", "Ddir1/sub", "F", "junk", "Ffile2"};
struct Remember {
  char kind;
  const char *path;
};
static const std::vector<Remember> kRemember = {{'F', "a"}, {'D', "dir1"}, {'F', "a"}, {'F', "c d"}};
enum Mode { kExitNow, kRememberThenExit, kWaitThenRemember, kRememberWait, kNumModes };
static const char *kModeNames[] = {"exit", "remember, exit", "wait, remember, exit", "remember, wait, exit"};

static void CheckFileOps(const Strs &lines, bool all) {
  std::map<std::string, int> allowed_f, allowed_d;
  for (auto &l : lines) {
    if (l.size() < 2) continue;
    if (l[0] == 'F') ++allowed_f[l.substr(1)];
    if (l[0] == 'D') ++allowed_d[l.substr(1)];
  }
  std::map<std::string, std::map<std::string, int>> got;  // path -> op -> n
  for (auto &op : mc::g->file_ops) {
    if (op.thread == 0) continue;
    ++got[op.path][op.op];
  }
  for (auto &[path, ops] : got) {
    for (auto &[op, n] : ops) {
      const int limit = op == "opendir" ? allowed_d[path] : allowed_f[path] + allowed_d[path];
      if (op == "open-write") mc::Error("write", "worker writes " + path);
      else if (limit == 0) mc::Error("unexpected-access", op + " " + path);
      else if (n > limit) mc::Error("repeated-access", op + " " + path + " " + std::to_string(n) + " times");
    }
  }
  if (all) {
    for (auto &[p, n] : allowed_f) {
      if (!n) continue;
      int most = 0;
      for (auto &[op, k] : got[p])
        if (op != "opendir") most = std::max(most, k);
      if (most < 1) mc::Error("missing-access", "file " + p);
    }
    for (auto &[p, n] : allowed_d)
      if (n && got[p]["opendir"] != n) mc::Error("missing-access", "directory " + p);
  }
  if (!mc::g->open_dirs.empty()) mc::Error("directory-left-open", "");
}
static void CheckCacheFile(const Strs &want) {
  Strs got = Lines(Slurp(g_cache)), w = want;
  std::sort(got.begin(), got.end());
  std::sort(w.begin(), w.end());
  if (got != w) mc::Error("cache-content", "got " + Join(got) + " want " + Join(w));
}

static void Scenario(const Strs &lines, bool newline_at_end, Mode mode, mc::Config cfg) {
  std::string content = Join(lines, "\n");
  if (newline_at_end && !content.empty()) content += "\n";
  auto body = [&]() {
    {
      mc::Inside in;
      Spit(g_cache, content);
    }
    char a0[] = "bant", a1[] = "test";
    char *argv[] = {a0, a1, nullptr};
    bant::FilesystemPrewarmCacheInit(2, argv);
    auto remember = []() {
      for (const Remember &r : kRemember) {
        if (r.kind == 'F') bant::FilesystemPrewarmCacheRememberFileWasAccessed(r.path);
        else bant::FilesystemPrewarmCacheRememberDirWasAccessed(r.path);
      }
    };
    switch (mode) {
    case kExitNow: break;
    case kRememberThenExit: remember(); break;
    case kWaitThenRemember:
      mc::Idle();
      remember();
      break;
    default:
      remember();
      mc::Idle();
    }
  };
  auto at_end = [&]() {
    CheckFileOps(lines, mode >= kWaitThenRemember);
    // If no worker came to do anything before the program ends, then what is
    // left to do must not delay the end.
    if (cfg.spurious == 0 && mode < kWaitThenRemember && mc::g->cfg.prefix.empty()) {
      for (auto &op : mc::g->file_ops)
        if (op.thread != 0) mc::Error("end-delayed", op.op + " " + op.path);
    }
    CheckCacheFile(mode == kExitNow ? Strs{} : Strs{"Fa", "Ddir1", "Fc d"});
  };
  Explore(cfg, std::string(kModeNames[mode]) + " with '" + content + "' " + std::to_string(cfg.active_workers) + " workers", body, at_end);
}

// -- Whole commands
static const std::vector<Strs> kCommands = {{"list-targets", "//..."}, {"-e", "print", "//..."}, {"dwyu", "//..."}, {"-r", "depends-on", "//:x"}, {"lib-headers"}, {"list-packages"}};
struct CommandResult {
  std::string out, err;
  int status = 0;
};
static void RunBody(const Strs &args) {
  {
    mc::Inside in;
    const int o = open((g_scratch + "/stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    const int e = open((g_scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(o, 1);
    dup2(e, 2);
  }
  static std::vector<char *> argv;
  static Strs a = args;
  {
    mc::Inside in;
    a.insert(a.begin(), "bant");
    for (auto &s : a) argv.push_back(s.data());
    argv.push_back(nullptr);
  }
  const int rc = bant_main(a.size(), argv.data());
  std::cout.flush();
  std::cerr.flush();
  mc::g->sh->exitcode = rc;
}
static CommandResult Result() {
  return {Slurp(g_scratch + "/stdout"), Slurp(g_scratch + "/stderr"), g_shared->exitcode};
}

// What the main thread reads, for comparison with what is remembered.
static Strs MainAccesses() {
  Strs r;
  std::set<std::string> seen;
  for (auto &op : mc::g->file_ops) {
    if (op.thread != 0) continue;
    if (op.op != "open" && op.op != "opendir") continue;
    if (op.path[0] == '/') continue;  // not in the project
    struct stat st;
    if (stat(op.path.c_str(), &st) != 0) continue;
    if (seen.insert(op.path).second) r.push_back((op.op == "open" ? "F" : "D") + op.path);
  }
  return r;
}

static void MakeProject() {
  fs::create_directories("a/b");
  fs::create_directories("dir1/sub");
  for (const char *f : {"file1", "file2", "dir1/x"}) Spit(f, "x");
  Spit("MODULE.bazel", "module(name = \"m\")\n");
  Spit("BUILD", "cc_library(name = \"x\", srcs = [\"x.cc\"], hdrs = [\"x.h\"], deps = [\"//a:y\", \"//a/b:z\"])\n");
  Spit("a/BUILD", "cc_library(name = \"y\", srcs = glob([\"*.cc\"]), hdrs = [\"y.h\"], deps = [\"//a/b:z\"])\n");
  Spit("a/b/BUILD", "cc_library(name = \"z\", hdrs = [\"z.h\"])\n");
  Spit("x.cc", "#include \"a/y.h\"\n");
  Spit("x.h", "");
  Spit("a/y.cc", "#include \"a/y.h\"\n");
  Spit("a/y.h", "#include \"a/b/z.h\"\n");
  Spit("a/b/z.h", "");
}
static std::string FindCacheFile() {
  for (const auto &e : fs::directory_iterator(g_home + "/.cache/bant")) return e.path().string();
  return "";
}
static void ClearCache() {
  fs::remove_all(g_home + "/.cache/bant");
  fs::create_directories(g_home + "/.cache/bant");
}

struct Baseline {
  CommandResult result;
  std::string cache_file;
  Strs remembered;
};
static std::vector<Baseline> g_base;

static bool Same(const CommandResult &a, const CommandResult &b) { return a.out == b.out && a.err == b.err && a.status == b.status; }
static void CompareCommand(const std::string &ctx, int cmd, const std::string &home, bool writable, mc::Config cfg) {
  setenv("HOME", home.c_str(), 1);
  const Outcome o = Execute(cfg, [&]() { RunBody(kCommands[cmd]); }, []() { CheckFileOps({}, false); });
  setenv("HOME", g_home.c_str(), 1);
  if (!o.key.empty() && o.key != "unexpected-access") {
    vf::Fail("command-" + o.key, ctx + Join(kCommands[cmd], " ") + " " + o.msg);
    return;
  }
  if (!Same(Result(), g_base[cmd].result)) vf::Fail("result", ctx + Join(kCommands[cmd], " ") + " differs: " + Result().out + Result().err);
  if (writable) {
    Strs got = Lines(Slurp(g_base[cmd].cache_file)), want = g_base[cmd].remembered;
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) vf::Fail("remembered", ctx + Join(kCommands[cmd], " ") + " got " + Join(got) + " want " + Join(want));
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  g_shared = (mc::Shared *)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_scratch = fs::absolute(vf::S().out).string() + "/pw." + std::to_string(vf::S().shard);
  fs::remove_all(g_scratch);
  g_home = g_scratch + "/home";
  fs::create_directories(g_scratch + "/prj");
  fs::create_directories(g_home + "/.cache/bant");
  fs::current_path(g_scratch + "/prj");
  MakeProject();
  setenv("HOME", g_home.c_str(), 1);
  const bool th = vf::Thorough();

  // -- Schedules of the mechanism alone.
  {
    char a0[] = "bant", a1[] = "test";
    char *av[] = {a0, a1, nullptr};
    Execute({}, [&]() { bant::FilesystemPrewarmCacheInit(2, av); }, []() {});
    g_cache = FindCacheFile();
    if (g_cache.empty()) {
      if (VF_BEGIN("cache file")) vf::Fail("no-cache-file", "no file created");
      return vf::Finish();
    }
  }
  const int nl = kLines.size();
  struct Budget {
    int workers, preemptions, spurious;
  };
  auto scenarios = [&](const Strs &lines) {
    for (int mode = 0; mode < kNumModes; ++mode) {
      const bool small = lines.size() < 2;
      std::vector<Budget> budgets = {{1, small ? 3 : 2, 1}, {2, lines.size() < 3 ? 2 : 1, 0}};
      if (lines.size() < 3) budgets.push_back({2, 1, 1});
      if (small) budgets.push_back({3, 1, 0});
      if (small && mode == kExitNow) budgets.push_back({2, 3, 0});
      if (th) {
        for (Budget &b : budgets) ++b.preemptions;
        budgets.push_back({4, 1, 0});
        budgets.push_back({2, 1, 2});
      }
      for (const Budget &b : budgets) {
        if (!VF_BEGIN(std::string(kModeNames[mode]) + ", " + std::to_string(b.workers) + " workers, " + std::to_string(b.preemptions) + " preemptions, " + std::to_string(b.spurious) + " spurious wakeups; file: " + Join(lines))) continue;
        vf::NonTrivial();
        mc::Config cfg;
        cfg.active_workers = b.workers;
        cfg.preemptions = b.preemptions;
        cfg.spurious = b.spurious;
        Scenario(lines, true, (Mode)mode, cfg);
      }
    }
  };
  scenarios({});
  const int np = th ? nl : 4;
  for (int a = 0; a < nl; ++a) {
    scenarios({kLines[a]});
    for (int b = 0; b < np; ++b) {
      if (a >= np) continue;
      scenarios({kLines[a], kLines[b]});
      for (int c = 0; c < 2; ++c) {
        if (a < 2 && b < 2) scenarios({kLines[a], kLines[b], kLines[c]});
      }
    }
  }

  // -- Commands.
  // In a first run everything that is read is remembered.
  for (size_t c = 0; c < kCommands.size(); ++c) {
    Baseline b;
    unsetenv("HOME");
    Execute({}, [&]() { RunBody(kCommands[c]); }, []() {
      std::string all;
      for (auto &s : MainAccesses()) all += s + "\n";
      Spit(g_scratch + "/accesses", all);
    });
    b.result = Result();
    b.remembered = Lines(Slurp(g_scratch + "/accesses"));
    setenv("HOME", g_home.c_str(), 1);
    ClearCache();
    Execute({}, [&]() { RunBody(kCommands[c]); }, []() {});
    b.cache_file = FindCacheFile();
    g_base.push_back(b);
  }
  for (size_t c = 0; c < kCommands.size(); ++c) {
    const std::string cmd = Join(kCommands[c], " ");
    if (VF_BEGIN(cmd + ": second run, all schedules with one preemption")) {
      vf::NonTrivial();
      if (g_base[c].remembered.size() < 3) vf::Fail("accesses", cmd + Join(g_base[c].remembered));
      ClearCache();
      CompareCommand("no file: ", c, g_home, true, {});
      const std::string content = Slurp(g_base[c].cache_file);
      mc::Config cfg;
      cfg.active_workers = 2;
      cfg.preemptions = th ? 2 : 1;
      const Strs lines = Lines(content);
      Explore(cfg, cmd, [&]() {
        {
          mc::Inside in;
          Spit(g_base[c].cache_file, content);
        }
        RunBody(kCommands[c]); }, [&]() {
        CheckFileOps(lines, false);
        g_cache = g_base[c].cache_file;
        CheckCacheFile(g_base[c].remembered);
        if (!Same(Result(), g_base[c].result)) mc::Error("result", cmd + " " + Result().out + Result().err); });
    }
  }
  // Contents: truncations, changed characters.
  for (size_t c = 0; c < kCommands.size(); ++c) {
    const std::string cmd = Join(kCommands[c], " ");
    std::string full;
    for (auto &l : g_base[c].remembered) full += l + "\n";
    auto run = [&](const std::string &ctx, const std::string &content) {
      for (bool eager : {false, true}) {
        mc::Config cfg;
        cfg.eager = eager;
        cfg.memory = false;
        cfg.preemptions = eager ? 100000 : 0;
        cfg.active_workers = eager ? 4 : 2;
        ClearCache();
        Spit(g_base[c].cache_file, content);
        CompareCommand(ctx, c, g_home, true, cfg);
      }
    };
    for (size_t from = 0; from <= full.size(); from += 16) {
      if (!VF_BEGIN(cmd + ": cache file truncated or changed from character " + std::to_string(from))) continue;
      vf::NonTrivial();
      for (size_t n = from; n < from + 16 && n <= full.size(); ++n) {
        run("truncated after " + std::to_string(n) + " ", full.substr(0, n));
        if (n == full.size()) break;
        for (const char ch : {'\0', '\n', 'D', 'F', '/', '\xff'}) {
          std::string s = full;
          s[n] = ch;
          if (th || (n + ch) % 3 == 0) run("changed at " + std::to_string(n) + " ", s);
        }
      }
    }
    if (VF_BEGIN(cmd + ": strange cache files")) {
      vf::NonTrivial();
      run("empty ", "");
      run("zeros ", std::string(5000, '\0'));
      run("long line ", "F" + std::string(100000, 'x') + "\n" + full);
      run("long line ", "D" + std::string(100000, 'y'));
      run("directories read ", "F.\nFa\nDBUILD\nDx.cc\nD/\nF/\n");
      std::string many;
      for (int i = 0; i < 300; ++i) many += "Ffile" + std::to_string(i) + "\nDdir" + std::to_string(i) + "\n";
      run("many ", many);
    }
    if (c == 0 && VF_BEGIN("remembers each file once, however many there are")) {
      vf::NonTrivial();
      for (int n : {1, 10, 100, 999, 1001, 2500, th ? 70000 : 5000}) {
        const auto path = [&](int i) { return (i % 3 ? "" : "./d/") + std::string("f") + std::to_string(i); };
        const auto body = [&]() {
          char a0[] = "bant", a1[] = "test";
          char *av[] = {a0, a1, nullptr};
          bant::FilesystemPrewarmCacheInit(2, av);
          for (int round = 0; round < 3; ++round) {
            for (int i = 0; i < n; ++i) {
              if (i % 2) bant::FilesystemPrewarmCacheRememberFileWasAccessed(path(i));
              else bant::FilesystemPrewarmCacheRememberDirWasAccessed(path(i));
              if (round == 2 && i % 7 == 0) bant::FilesystemPrewarmCacheRememberFileWasAccessed(path(0));
            }
          }
        };
        ClearCache();
        Execute({}, body, []() {});
        Strs got = Lines(Slurp(FindCacheFile())), want;
        for (int i = 0; i < n; ++i) want.push_back((i % 2 ? "F" : "D") + path(i));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) vf::Fail("remembered-many", std::to_string(n) + " paths; cache file has " + std::to_string(got.size()) + " lines");
      }
      ClearCache();
    }
    if (VF_BEGIN(cmd + ": places of the cache that can not be used")) {
      vf::NonTrivial();
      const mc::Config cfg;
      const std::string cache = g_home + "/.cache/bant";
      const std::string file = g_base[c].cache_file;
      auto fresh = [&]() { ClearCache(); };
      fresh();
      fs::create_directories(file);
      CompareCommand("cache file is a directory ", c, g_home, false, cfg);
      fresh();
      fs::create_symlink(file, file);
      CompareCommand("cache file is a link to itself ", c, g_home, false, cfg);
      fresh();
      fs::create_symlink("/nonexistent/x", file);
      CompareCommand("cache file is a dangling link ", c, g_home, false, cfg);
      fresh();
      fs::create_symlink("/dev/null", file);
      CompareCommand("cache file is null ", c, g_home, false, cfg);
      fs::remove_all(cache);
      CompareCommand("no cache directory ", c, g_home, false, cfg);
      if (fs::exists(cache)) vf::Fail("created", "cache directory was created");
      Spit(cache, "x");
      CompareCommand("cache directory is a file ", c, g_home, false, cfg);
      fs::remove_all(cache);
      fs::create_symlink(cache, cache);
      CompareCommand("cache directory is a link to itself ", c, g_home, false, cfg);
      fs::remove_all(cache);
      fs::create_directories(cache);
      CompareCommand("HOME empty ", c, "", false, cfg);
      CompareCommand("HOME does not exist ", c, "/nonexistent", false, cfg);
      CompareCommand("HOME is a file ", c, g_scratch + "/prj/BUILD", false, cfg);
      CompareCommand("HOME too long ", c, "/" + std::string(300, 'h'), false, cfg);
      CompareCommand("HOME much too long ", c, std::string(10000, 'h'), false, cfg);
    }
  }
  fs::current_path("/");
  fs::remove_all(g_scratch);
  return vf::Finish();
}
