// Explorer: commands with every possible failure of the operating system, and
// with all orders in which it lists directories. VF_PROP selects the property.
#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>

#include "cli.h"
#include "common.h"
#include "bant/util/filesystem-prewarm-cache.h"
#include "osenv.h"
#include "shwords.h"

namespace fs = std::filesystem;
using cli::Strs;
using osenv::env;

static void Write(const std::string &path, const std::string &content) {
  if (fs::path(path).has_parent_path()) fs::create_directories(fs::path(path).parent_path());
  std::ofstream(path) << content;
}
static std::string Snapshot(const std::string &dir) {
  std::map<std::string, std::string> all;
  for (auto &e : fs::recursive_directory_iterator(dir)) {
    std::string &v = all[e.path().string()];
    if (e.is_symlink()) {
      v = "-> " + fs::read_symlink(e.path()).string();
    } else if (e.is_regular_file()) {
      std::ifstream in(e.path());
      std::stringstream s;
      s << in.rdbuf();
      v = s.str() + std::to_string(fs::last_write_time(e.path()).time_since_epoch().count());
    } else {
      v = "dir";
    }
  }
  std::string r;
  for (auto &[k, v] : all) r += k + "=" + v + "\n";
  return r;
}

// A project that has about everything.
static void Project() {
  fs::create_directories("ob/execroot/_main/bazel-out");
  fs::create_directories("prj");
  fs::create_directory_symlink(fs::absolute("ob/execroot/_main/bazel-out"), "prj/bazel-out");
  Write("ob/external/foo~1.0/BUILD", "cc_library(name = \"foo\", hdrs = [\"foo.h\"], includes = [\"inc\"], deps = [\"//sub:s\"])\n");
  Write("ob/external/foo~1.0/sub/BUILD.bazel", "cc_library(name = \"s\", hdrs = glob([\"*.h\"]))\n");
  Write("ob/external/foo~1.0/sub/s.h", "");
  Write("ob/external/other/BUILD", "");
  fs::current_path("prj");
  Write("MODULE.bazel", "bazel_dep(name = \"foo\", version = \"1.0\")\nbazel_dep(name = \"nothere\", version = \"2\")\n");
  Write(".bazelrc", "build --cxxopt=-std=c++20\n");
  Write("BUILD", "cc_binary(name = \"bin\", srcs = [\"bin.cc\"], deps = [\"//p:p\"])\nalias(name = \"al\", actual = \"//p\")\n");
  Write("bin.cc", "#include \"p/p.h\"\n#include \"q/q.h\"\n");
  Write("p/BUILD",
        "SRC = glob([\"*.cc\", \"src/**/*.cc\"], exclude = [\"x*.cc\"])\n"
        "cc_library(name = \"p\", srcs = SRC, hdrs = [\"p.h\"], deps = [\"//q\", \"//q:b\", \":c\", \"@foo//:foo\", \"//r:r\", \"//p:c2\"])\n"
        "cc_library(name = \"c\", hdrs = [\"c.h\"])\n"
        "cc_library(name = \"c2\", hdrs = [\"c2.h\"])\n"
        "genrule(name = \"gen\", outs = [\"g.cc\", \"g.h\", \"made.cc\"])\n"
        "cc_library(name = \"usesgen\", srcs = [\"made.cc\"], deps = [\":c\"])\n");
  Write("p/p.h", "#include \"p/c2.h\"\n");
  Write("p/c.h", "");
  Write("p/c2.h", "");
  Write("p/p1.cc", "#include \"q/q.h\"\n#include \"p/p.h\"\n");
  Write("p/x1.cc", "");
  fs::create_directories("ob_bin/p");
  fs::create_directory_symlink("ob_bin", "bazel-bin");
  Write("ob_bin/p/made.cc", "#include \"p/c.h\"\n");
  Write("p/src/p2.cc", "#include \"q/b.h\"\n");
  Write("p/src/d/p3.cc", "#include \"foo.h\"\n");
  Write("p/src/d/e/p4.cc", "#include \"r/r.h\"\n");
  Write("q/BUILD", "cc_library(name = \"q\", hdrs = glob([\"q.h\"]))\ncc_library(name = \"b\", hdrs = [\"b.h\"], deps = [\"//r:r\"])\n");
  Write("q/q.h", "");
  Write("q/b.h", "");
  Write("r/BUILD", "cc_library(name = \"r\", hdrs = [\"r.h\"])\nproto_library(name = \"rp\", srcs = [\"r.proto\"])\ncc_proto_library(name = \"r_cc\", deps = [\":rp\"])\n");
  Write("r/r.h", "");
  Write("t/BUILD", "cc_test(name = \"t\", srcs = [\"t.cc\"], deps = [\"//p\", \"//r:r_cc\"])\n");
  Write("t/t.cc", "#include \"r/r.pb.h\"\n#include \"p/p.h\"\n");
}

struct Command {
  const char *name;
  Strs args;
  bant::CommandlineFlags flags;
};
static std::vector<Command> Commands() {
  const int inf = std::numeric_limits<int>::max();
  auto fl = [](int r, bool e = false) {
    bant::CommandlineFlags f;
    f.recurse_dependency_depth = r;
    f.elaborate = e;
    f.output_format = bant::OutputFormat::kCSV;
    return f;
  };
  return {
    {"dwyu", {"dwyu", "//..."}, fl(0)},
    {"dwyu", {"dwyu", "//p:p"}, fl(0)},
    {"canonicalize", {"canonicalize", "//..."}, fl(0)},
    {"rows", {"list-packages", "//..."}, fl(-1)},
    {"rows", {"list-packages", "//:bin"}, fl(inf)},
    {"rows", {"list-targets", "//..."}, fl(-1)},
    {"rows", {"list-targets", "//p:all"}, fl(1)},
    {"rows", {"lib-headers", "//..."}, fl(-1, true)},
    {"rows", {"lib-headers", "//:bin"}, fl(inf, true)},
    {"rows", {"genrule-outputs", "..."}, fl(-1)},
    {"rows", {"aliased-by", "//..."}, fl(-1)},
    {"rows", {"depends-on", "//..."}, fl(-1)},
    {"rows", {"depends-on", "//:al"}, fl(inf)},
    {"rows", {"has-dependents", "//r:r"}, fl(-1)},
    {"", {"workspace"}, fl(-1)},
    {"", {"workspace", "//p/..."}, fl(-1)},
    {"rows", {"list-packages", "//ext/..."}, fl(inf)},
    {"", {"print", "//...", }, fl(-1, true)},
    {"", {"print", "//p:p"}, fl(-1)},
    {"", {"parse", "//..."}, fl(inf)},
    {"", {"compilation-db", "//..."}, fl(0)},
    {"", {"compile-flags", "//p:p"}, fl(0)},
  };
}
static std::string Show(const Command &c) {
  return cli::Join(c.args, " ") + " -r" + std::to_string(c.flags.recurse_dependency_depth);
}
static std::set<std::string> Lines(const std::string &out) {
  std::set<std::string> r;
  std::istringstream in(out);
  for (std::string l; std::getline(in, l);) r.insert(l);
  return r;
}
// Files that stay open: the address sanitizer looks into /proc now and then
// (hard_rss_limit_mb), so what is open at the moment is not necessarily ours.
static int OpenFiles(int expected = 0, int tries = 8) {
  int least = 1 << 30;
  for (int i = 0; i < tries && least > expected; ++i) {
    if (i) usleep(2000);
    int n = 0;
    for (int fd = 3; fd < 256; ++fd) n += fcntl(fd, F_GETFD) != -1;
    least = std::min(least, n);
  }
  return least;
}
static cli::Result Run(const Command &c) {
  env.calls.clear();
  env.failed = 0;
  env.on = true;
  cli::Result r = cli::Run(c.args, c.flags);
  env.on = false;
  vf::Count("evaluations");
  vf::Transition(env.calls.size());
  if (!env.changes.empty()) {
    vf::Fail("changes", Show(c) + " does: " + cli::Join(env.changes));
    env.changes.clear();
  }
  return r;
}
static std::stringstream *g_cerr;

// -- Failures
static void Faults() {
  const auto commands = Commands();
  for (auto &c : commands) {
    g_cerr->str("");
    env.fail.clear();
    env.fail_from = -1;
    const auto clean = Run(c);
    const std::string clean_cerr = g_cerr->str();
    const auto calls = env.calls;
    const auto clean_lines = Lines(clean.out);
    if (getenv("VF_SHOW_OPS")) {
      fprintf(stderr, "%s: %zu calls\n%s", Show(c).c_str(), calls.size(), clean.out.c_str());
      for (auto &x : calls) fprintf(stderr, "   %s %s\n", osenv::kNames[x.first], x.second.c_str());
    }
    int fds = OpenFiles();
    auto check = [&](const std::string &what) {
      g_cerr->str("");
      const auto r = Run(c);
      const std::string where = Show(c) + ", " + what;
      vf::SeeState(r.out);
      static int leaks = 0;
      if (const int now = OpenFiles(fds, leaks > 3 ? 2 : 100); now > fds) {
        vf::Fail("descriptor", where + ": file descriptors left open");
        fds = now;
        ++leaks;
      }
      if (r.status < 0 || r.status > 3) vf::Fail("status", where + ": status " + std::to_string(r.status));
      if (!env.failed) {
        if (r.out != clean.out) vf::Fail("output", where + ": output changed without failure");
        return;
      }
      const std::string kind = c.name;
      if (kind.empty()) return;
      for (auto &l : Lines(r.out)) {
        if (clean_lines.count(l)) continue;
        
        vf::Fail(kind == "rows" ? "rows" : "edits", where + ": only with this failure: " + l + " stderr " + g_cerr->str() + r.info);
      }
      // Something is missing without telling
      if (r.out != clean.out && r.status == clean.status && g_cerr->str() + r.info == clean_cerr + clean.info && getenv("VF_SILENT")) {
        vf::Fail("silent " + std::to_string(vf::S().index), where + ": output differs without message: " + r.out);
      }
    };
    auto name = [&](size_t k) { return std::string(osenv::kNames[calls[k].first]) + "(" + calls[k].second + ")"; };
    for (size_t k = 0; k < calls.size(); ++k) {
      if (!VF_BEGIN(Show(c) + ": call " + std::to_string(k) + " fails: " + name(k))) continue;
      vf::NonTrivial();
      for (env.variant = 0; env.variant < 4; ++env.variant) {
        env.fail = {(int)k};
        env.fail_from = -1;
        check(name(k) + " fails");
        env.fail = {};
        env.fail_from = k;
        check(name(k) + " and all following fail");
        env.fail_from = -1;
      }
      env.variant = 0;
      const int reach = vf::Thorough() ? 1 << 20 : 200;
      for (int j = k + 1; j < (int)calls.size() + 10 && j < (int)k + reach; ++j) {
        env.fail = {(int)k, j};
        check(name(k) + " and call " + std::to_string(j) + " fail");
      }
      env.fail = {};
    }
  }
}

// -- Orders in which directories are listed; nothing but observation
static void Orders() {
  // What makes the order matter: packages with two build files, several names
  // of the same directory, several providers of a header.
  Write("p/BUILD.bazel", "cc_library(name = \"p\", hdrs = [\"p.h\"])\n");
  Write("two/BUILD", "cc_library(name = \"old\", hdrs = [\"h.h\"], deps = [\"//q\", \"//q:q\"])\n");
  Write("two/BUILD.bazel", "cc_library(name = \"new\", hdrs = [\"h.h\"], deps = [\"//r:r\", \":new2\"])\ncc_library(name = \"new2\")\n");
  Write("two/h.h", "");
  Write("g/BUILD",
        "cc_library(name = \"g\", srcs = glob([\"**/*.cc\"]), hdrs = glob([\"*.h\"]), deps = [\"//q:q\"])\n"
        "filegroup(name = \"all\", srcs = glob([\"*/*.cc\"]))\n");
  Write("g/m/one.cc", "#include \"q/q.h\"\n");
  Write("g/m/d/two.cc", "");
  Write("g/n/three.cc", "");
  Write("g/x.h", "#include \"same.h\"\n");
  fs::create_directory_symlink("m", "g/a");
  fs::create_directory_symlink("m", "g/z");
  fs::create_directory_symlink("..", "g/n/up");
  fs::create_directory_symlink("nowhere", "g/dangling");
  Write("s1/BUILD", "cc_library(name = \"s1\", hdrs = [\"same.h\"], includes = [\".\"])\n");
  Write("s2/BUILD", "cc_library(name = \"s2\", hdrs = [\"same.h\"], includes = [\".\"])\n");
  Write("s1/same.h", "");
  Write("s2/same.h", "");
  Write("../ob/external/foo~1.1/BUILD", "cc_library(name = \"foo\", hdrs = [\"foo11.h\"])\n");
  Write("../ob/external/nothere/BUILD", "");
  // Other versions than declared, and projects that are not declared
  Write("MODULE.bazel", "bazel_dep(name = \"foo\", version = \"1.0\")\nbazel_dep(name = \"nothere\", version = \"2\")\nbazel_dep(name = \"multi\", version = \"9\")\n");
  for (const char *v : {"1", "2", "3"}) {
    for (const char *project : {"multi", "aug"}) {
      Write(std::string("../ob/external/") + project + "~" + v + "/BUILD", "cc_library(name = \"x\", hdrs = [\"" + std::string(project) + v + ".h\"])\n");
    }
  }
  Write("ext/BUILD", "cc_library(name = \"ext\", srcs = [\"ext.cc\"], deps = [\"@multi//:x\", \"@aug//:x\"])\n");
  Write("ext/ext.cc", "#include \"multi2.h\"\n");
  const std::string before = Snapshot("..");
  std::set<std::string> seen_dirs;
  for (auto &c : Commands()) {
    g_cerr->str("");
    env.order.clear();
    env.unknown_types = false;
    env.dir_sizes.clear();
    const auto base = Run(c);
    const auto sizes = env.dir_sizes;
    if (getenv("VF_SHOW_OPS")) {
      fprintf(stderr, "%s: %zu dirs\n%s", Show(c).c_str(), sizes.size(), base.out.c_str());
      for (auto &[d, n] : sizes) fprintf(stderr, "   %s %d\n", d.c_str(), n);
    }
    auto check = [&](const std::string &what) {
      const auto r = Run(c);
      vf::SeeState(r.out);
      if (r.out != base.out || r.status != base.status) {
        vf::Fail("order " + std::string(c.args[0]), Show(c) + ", " + what + ": " + r.out + " instead of " + base.out);
      }
    };
    std::vector<std::string> dirs;
    for (auto &[d, n] : sizes)
      if (n > 1) dirs.push_back(d);
    if (VF_BEGIN(Show(c) + ": all directories the other way round")) {
      vf::NonTrivial();
      for (int u = 0; u < 2; ++u) {
        env.unknown_types = u;
        env.order = {};
        check(u ? "types of files not told" : "again");
        env.order["*"] = -1;
        check(u ? "all reversed and types not told" : "all reversed");
      }
    }
    for (auto &d : dirs) {
      const int n = sizes.at(d);
      uint64_t perms = 1;
      for (int i = 2; i <= n; ++i) perms *= i;
      const uint64_t limit = vf::Thorough() ? 5040 : 120;
      if (VF_BEGIN(Show(c) + ": orders of " + d)) {
        vf::NonTrivial();
        for (int u = 0; u < 2; ++u) {
          env.unknown_types = u;
          if (perms <= limit) {
            for (uint64_t k = 0; k < perms; ++k) {
              env.order = {{d, (int)k}};
              check("order " + std::to_string(k) + " of " + d);
            }
          } else {  // each entry at each place
            env.order = {{d, -1}};
            check("reversed " + d);
            for (int from = 0; from < n; ++from) {
              for (int to = 0; to < n; ++to) {
                env.order = {{d, 0}};
                env.move = {from, to};
                check("entry " + std::to_string(from) + " at " + std::to_string(to) + " in " + d);
                env.move = {0, 0};
              }
            }
          }
        }
      }
      for (auto &e : dirs) {
        if (e <= d) continue;
        if (!VF_BEGIN(Show(c) + ": orders of " + d + " and " + e)) continue;
        vf::NonTrivial();
        for (int u = 0; u < 2; ++u) {
          env.unknown_types = u;
          for (int rest = 0; rest < 2; ++rest) {
            env.order = {{d, -1}, {e, -1}};
            if (rest) env.order = {{d, 0}, {e, 0}, {"*", -1}};
            check((rest ? "all reversed but " : "reversed ") + d + " and " + e);
          }
        }
      }
    }
    env.order.clear();
    env.unknown_types = false;
    // Without the directory ~/.cache/bant there is nothing to be remembered
    enum { kUnset, kMissing, kEmpty, kCache, kFile, kOther, kDangling, kHomes };
    for (int h = 0; h < kHomes; ++h) {
      if (!VF_BEGIN(Show(c) + ": home directory " + std::to_string(h))) continue;
      vf::NonTrivial();
      const std::string home = fs::absolute("../../home." + std::to_string(vf::S().shard)).string();
      fs::remove_all(home);
      if (h >= kEmpty) fs::create_directories(home);
      if (h >= kCache) fs::create_directories(home + "/.cache");
      if (h == kFile) Write(home + "/.cache/bant", "file");
      if (h == kOther) Write(home + "/.cache/other/fs-warm-00000000", "Fx");
      if (h == kDangling) fs::create_symlink("nowhere", home + "/.cache/bant");
      const std::string home_before = h >= kEmpty ? Snapshot(home) : "";
      if (h == kUnset) {
        unsetenv("HOME");
      } else {
        setenv("HOME", home.c_str(), 1);
      }
      std::vector<std::string> words = {"bant"};
      for (auto &a : c.args) words.push_back(std::string(a));
      std::vector<char *> argv;
      for (auto &w : words) argv.push_back(w.data());
      argv.push_back(nullptr);
      env.on = true;
      bant::FilesystemPrewarmCacheInit((int)words.size(), argv.data());
      env.on = false;
      if (!env.changes.empty()) {
        vf::Fail("home", Show(c) + ": start with home directory " + std::to_string(h) + " does: " + cli::Join(env.changes));
        env.changes.clear();
      }
      check("with home directory " + std::to_string(h));
      if (h >= kEmpty ? Snapshot(home) != home_before : fs::exists(home)) {
        vf::Fail("home", Show(c) + ": home directory " + std::to_string(h) + " changed");
      }
      vf::Transition(1);
      fs::remove_all(home);
    }
    if (VF_BEGIN(Show(c) + ": nothing changed")) {
      Run(c);
      if (Snapshot("..") != before) vf::Fail("changed", Show(c) + ": files changed");
    }
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  g_cerr = new std::stringstream;
  std::cerr.rdbuf(g_cerr->rdbuf());
  const std::string prop = getenv("VF_PROP") ? getenv("VF_PROP") : "C29";
  const std::string scratch = fs::absolute(vf::S().out).string() + "/env." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  fs::create_directories(scratch);
  fs::current_path(scratch);
  Project();
  if (prop == "C29") Faults();
  if (prop == "C30") Orders();
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
