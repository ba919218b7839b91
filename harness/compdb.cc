// Explorer: compilation-db and compile-flags on small project trees; entries
// and flags are compared with a reference computed from the model the project
// was written from.
#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <set>

#include "cli.h"
#include "common.h"
#include "readers.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using Set = std::set<std::string>;

struct Lib {
  std::string pkg;  // like "@ext//foo"
  std::string rule, name;
  Strs srcs, hdrs, includes, deps;
  std::string include_prefix, actual;
  std::string raw_srcs;  // Starlark expression if it is not just a list.
  std::string raw_includes, raw_deps, prelude;
  std::string Label() const { return pkg + ":" + name; }
};

// Literal whose characters stand for themselves (bant keeps escapes as they
// are written).
static std::string Lit(const std::string &s) {
  const bool dq = s.find('"') != std::string::npos, sq = s.find('\'') != std::string::npos;
  std::string q = dq ? "'" : "\"";
  if (dq && sq) q = s.back() == '\'' ? "\"\"\"" : "'''";
  return (s.find('\\') == std::string::npos ? "" : "r") + q + s + q;
}
static std::string ListText(const Strs &v) {
  std::string r = "[";
  for (auto &s : v) r += (r.size() > 1 ? ", " : "") + Lit(s);
  return r + "]";
}
static std::string Text(const Lib &l) {
  std::string r = l.prelude + l.rule + "(name = " + Lit(l.name);
  auto add = [&](const char *key, const Strs &v, const std::string &raw) {
    if (!raw.empty()) r += std::string(", ") + key + " = " + raw;
    else if (!v.empty()) r += std::string(", ") + key + " = " + ListText(v);
  };
  add("srcs", l.srcs, l.raw_srcs);
  add("hdrs", l.hdrs, "");
  add("includes", l.includes, l.raw_includes);
  add("deps", l.deps, l.raw_deps);
  if (!l.include_prefix.empty()) r += ", include_prefix = " + Lit(l.include_prefix);
  if (!l.actual.empty()) r += ", actual = " + Lit(l.actual);
  return r + ")\n";
}

// External projects: name -> directory, seen from the workspace
static const std::string kExternal = "bazel-out/../../../external/";
static const std::map<std::string, std::string> kProjects = {{"@ext", "ext~1.0"}, {"@ext2", "ext2"}, {"@protobuf", "protobuf~21"}, {"@com_google_protobuf", "com_google_protobuf"}};

struct Package {
  std::string project, path;
};
static Package Split(const std::string &pkg) {
  const size_t p = pkg.find("//");
  return {pkg.substr(0, p), pkg.substr(p + 2)};
}
static std::string PackageDir(const std::string &pkg) {
  const Package p = Split(pkg);
  std::string r;
  if (!p.project.empty()) {
    auto it = kProjects.find(p.project);
    if (it != kProjects.end()) r = kExternal + it->second;
  }
  if (!p.path.empty()) r += (r.empty() ? "" : "/") + p.path;
  return r;
}
// (package, name) of a well-formed label.
static std::pair<std::string, std::string> Resolve(const std::string &label, const std::string &pkg) {
  if (label[0] == ':') return {pkg, label.substr(1)};
  std::string project = Split(pkg).project, rest = label;
  if (label[0] == '@') {
    const size_t s = label.find("//");
    project = label.substr(0, s);
    if (s == std::string::npos) return {project + "//", label.substr(1)};
    if (project == "@") project = "";
    rest = label.substr(s);
  }
  if (rest.substr(0, 2) != "//") return {pkg, rest};
  const size_t c = rest.find(':');
  if (c == std::string::npos) return {project + rest, rest.substr(rest.rfind('/') + 1)};
  return {project + rest.substr(0, c), rest.substr(c + 1)};
}
static std::string Normal(const std::string &path) {  // without superfluous "." and "/"
  std::string r;
  size_t i = 0;
  if (!path.empty() && path[0] == '/') r = "/";
  while (i <= path.size()) {
    size_t e = path.find('/', i);
    if (e == std::string::npos) e = path.size();
    const std::string seg = path.substr(i, e - i);
    if (!seg.empty() && seg != ".") r += (r.empty() || r == "/" ? "" : "/") + seg;
    i = e + 1;
  }
  return r.empty() ? "." : r;
}
static std::string FileOf(const std::string &src, const std::string &pkg) {
  const auto [p, n] = Resolve(src, pkg);
  const std::string d = PackageDir(p);
  return Normal(d.empty() ? n : d + "/" + n);
}

static bool MatchPackage(const std::string &pattern, const std::string &pkg) {
  const size_t c = pattern.find(':');
  const std::string p = pattern.substr(0, c);
  if (p.ends_with("...")) {
    const std::string base = p.substr(0, p.size() - 3);  // ends in a slash
    return pkg == base || pkg + "/" == base || pkg.substr(0, base.size()) == base;
  }
  return p == pkg;
}
static bool MatchTarget(const std::string &pattern, const Lib &l) {
  if (!MatchPackage(pattern, l.pkg)) return false;
  if (pattern.ends_with("...")) return true;
  const std::string t = pattern.substr(pattern.find(':') + 1);
  return t == "all" || t == "*" || t == l.name;
}
static bool Cc(const Lib &l) { return l.rule == "cc_library" || l.rule == "cc_binary" || l.rule == "cc_test"; }

struct Expect {
  Set files, includes;
};
static Expect Reference(const std::vector<Lib> &libs, const std::string &pattern) {
  // Packages looked at: those matching, and all that have something these
  // targets depend on.
  Set loaded, done;
  std::vector<std::string> todo;
  Set packages = {"//", "@ext//", "@ext2//", "@protobuf//", "@com_google_protobuf//"};
  for (const Lib &l : libs) packages.insert(l.pkg);
  const bool foreign = pattern[0] == '@';
  for (auto &p : packages) {
    if ((p[0] == '@') == foreign && MatchPackage(pattern, p)) loaded.insert(p);
  }
  for (const Lib &l : libs) {
    if (loaded.count(l.pkg) && MatchTarget(pattern, l)) todo.push_back(l.Label());
  }
  while (!todo.empty()) {
    const std::string t = todo.back();
    todo.pop_back();
    if (!done.insert(t).second) continue;
    const std::string pkg = t.substr(0, t.find(':'));
    if (!packages.count(pkg)) continue;
    loaded.insert(pkg);
    for (const Lib &l : libs) {
      if (l.Label() != t) continue;
      Strs follow = l.deps;
      if (!l.actual.empty()) follow.push_back(l.actual);
      for (auto &d : follow) {
        const auto [p, n] = Resolve(d, l.pkg);
        todo.push_back(p + ":" + n);
      }
    }
  }
  Expect r;
  r.includes = {".", "bazel-bin"};
  for (const Lib &l : libs) {
    if (!loaded.count(l.pkg)) continue;
    if (Cc(l) && MatchTarget(pattern, l)) {
      for (auto &f : l.srcs) r.files.insert(FileOf(f, l.pkg));
      for (auto &f : l.hdrs) r.files.insert(FileOf(f, l.pkg));
    }
    if (!Cc(l) && l.rule != "proto_library" && l.rule != "alias") continue;
    const Package p = Split(l.pkg);
    const std::string proj = p.project.empty() ? "" : p.project.substr(1);
    for (auto &i : l.includes) r.includes.insert(FileOf(i, l.pkg));
    if (!l.include_prefix.empty()) {
      r.includes.insert(Normal("bazel-bin/" + (proj.empty() ? "" : "external/" + proj) + "/" + p.path + "/_virtual_includes/" + l.name));
    }
    if (proj.find("protobuf") != std::string::npos) {
      const std::string base = "bazel-bin/external/" + proj + "/src/google/protobuf/";
      r.includes.insert(base + "_virtual_includes/protobuf_headers");
      r.includes.insert(base + "stubs/_virtual_includes/lite");
      r.includes.insert(base + "io/_virtual_includes/io");
      if (l.rule == "proto_library") r.includes.insert(base + "_virtual_includes/" + l.name);
    }
    Strs refs = l.deps;
    if (!l.actual.empty()) refs.push_back(l.actual);
    for (auto &d : refs) {
      const Package dp = Split(Resolve(d, l.pkg).first);
      if (dp.project.empty() || !kProjects.count(dp.project)) continue;
      r.includes.insert(kExternal + kProjects.at(dp.project));
      r.includes.insert("bazel-bin/external/" + dp.project.substr(1));
    }
  }
  return r;
}

static Strs g_created;  // BUILD files of current project.
static void WriteProject(const std::vector<Lib> &libs) {
  for (auto &f : g_created) unlink(f.c_str());
  g_created.clear();
  std::map<std::string, std::string> content;
  for (const char *p : {"//", "@ext//", "@ext2//", "@protobuf//", "@com_google_protobuf//"}) content[p];
  for (const Lib &l : libs) content[l.pkg] += Text(l);
  for (auto &[pkg, text] : content) {
    std::string d = PackageDir(pkg);
    if (d.empty()) d = ".";
    fs::create_directories(d);
    std::ofstream(d + "/BUILD") << text;
    g_created.push_back(d + "/BUILD");
  }
}

static std::string Show(const Set &s) {
  std::string r;
  for (auto &e : s) r += e + " ";
  return r;
}
static void CompareIncludes(const std::string &key, const std::string &ctx, const Strs &got, const Set &want) {
  Set g;
  for (auto &s : got) g.insert(Normal(s));
  if (g != want) vf::Fail(key, ctx + " got: " + Show(g) + " want: " + Show(want));
  // Project first.
  if (got.size() < 2 || Normal(got[0]) != "." || Normal(got[1]) != "bazel-bin") vf::Fail(key + "-first", ctx);
}

static void Check(const std::string &ctx, const std::vector<Lib> &libs, const std::string &pattern, const Strs &cxxopts) {
  const Expect want = Reference(libs, pattern);
  const std::string cwd = fs::current_path().string();
  const cli::Result db = cli::Run({"compilation-db", pattern});
  const cli::Result flags = cli::Run({"compile-flags", pattern});
  vf::Count("evaluations", 2);
  vf::Transition(2);
  vf::SeeState(db.out);
  if (db.status != 0 || flags.status != 0) vf::Fail("status", ctx);
  rd::Val v;
  if (!rd::ReadJson(db.out, &v) || v.kind != rd::Val::kList) {
    vf::Fail("json", ctx + " got " + db.out);
    return;
  }
  Set files;
  for (const rd::Val &e : v.list) {
    std::map<std::string, const rd::Val *> m;
    if (e.kind != rd::Val::kMap || e.keys.size() != 3) {
      vf::Fail("entry", ctx + db.out);
      return;
    }
    for (size_t i = 0; i < e.keys.size(); ++i) m[e.keys[i]] = &e.list[i];
    if (!m["file"] || !m["directory"] || !m["arguments"] || m["arguments"]->kind != rd::Val::kList || m["file"]->kind != rd::Val::kString) {
      vf::Fail("entry", ctx + db.out);
      return;
    }
    const std::string file = m["file"]->str;
    if (!files.insert(Normal(file)).second) vf::Fail("duplicate", ctx + file);
    if (m["directory"]->str != cwd) vf::Fail("directory", ctx + m["directory"]->str);
    Strs args;
    for (auto &a : m["arguments"]->list) args.push_back(a.str);
    Strs start = {"gcc", "-xc++", "-U_FORTIFY_SOURCE", "-O2", "-DNDEBUG"};
    start.insert(start.end(), cxxopts.begin(), cxxopts.end());
    bool ok = args.size() >= start.size() + 2 && std::equal(start.begin(), start.end(), args.begin()) && args[args.size() - 2] == "-c" && args.back() == file;
    Strs inc;
    if (ok) {
      for (size_t i = start.size(); i + 2 < args.size() && ok; i += 2) {
        if (args[i] != "-iquote") ok = false;
        else inc.push_back(args[i + 1]);
      }
    }
    if (!ok) vf::Fail("arguments", ctx + cli::Join(args, " "));
    else CompareIncludes("includes", ctx, inc, want.includes);
  }
  if (files != want.files) vf::Fail("files", ctx + " got: " + Show(files) + " want: " + Show(want.files));
  // Flags file
  Strs lines;
  std::stringstream in(flags.out);
  for (std::string l; std::getline(in, l);) lines.push_back(l);
  if (lines.size() < cxxopts.size() || !std::equal(cxxopts.begin(), cxxopts.end(), lines.begin())) {
    vf::Fail("flags-cxxopts", ctx + flags.out);
    return;
  }
  Strs inc;
  for (size_t i = cxxopts.size(); i < lines.size(); ++i) {
    if (lines[i].substr(0, 2) != "-I") vf::Fail("flags", ctx + flags.out);
    else inc.push_back(lines[i].substr(2));
  }
  CompareIncludes("flags-includes", ctx, inc, want.includes);
}

static Lib L(std::string pkg, std::string rule, std::string name, Strs srcs = {}, Strs hdrs = {}, Strs deps = {}) {
  Lib l;
  l.pkg = pkg;
  l.rule = rule;
  l.name = name;
  l.srcs = srcs;
  l.hdrs = hdrs;
  l.deps = deps;
  return l;
}
// Things projects are made of.
static std::vector<Lib> Menu() {
  std::vector<Lib> m;
  auto add = [&](Lib l, auto... f) {
    (f(l), ...);
    m.push_back(l);
  };
  auto inc = [](Strs v) { return [v](Lib &l) { l.includes = v; }; };
  auto pre = [](std::string v) { return [v](Lib &l) { l.include_prefix = v; }; };
  auto act = [](std::string v) { return [v](Lib &l) { l.actual = v; }; };
  add(L("//", "cc_library", "r", {"r.cc"}, {"r.h", "sub/r.h"}, {"//a:x"}));
  add(L("//", "cc_binary", "bin", {"main.cc", "r.cc"}, {}, {":r", "@ext//:e"}));
  add(L("//a", "cc_library", "x", {"x.cc", "//:r.cc"}, {":x.h"}, {"@ext2//foo"}));
  add(L("//a", "cc_test", "t", {"t.cc", "x.cc"}, {}, {":x", "@nope//:n", "@", "@ext2//:n"}));
  add(L("//a", "cc_library", "inc", {}, {"i.h"}), inc({"include", "."}));
  add(L("//a", "cc_library", "inc2", {}, {"i2.h"}), inc({"include", "more"}));
  add(L("//a/b", "cc_library", "y", {"y.cc"}, {"../a.h"}, {"//a:pre"}), inc({"..", "include/"}), pre("yy"));
  add(L("//a", "cc_library", "pre", {}, {"p.h"}), pre("foo/bar"));
  add(L("//", "cc_library", "rpre", {"@ext//:gen.cc"}, {}, {"//a:al"}), pre("x"), inc({"rinc", "."}));
  add(L("//a", "alias", "al"), act("@ext//:e"));
  add(L("//a/b", "alias", "al2"), act("//a:x"));
  add(L("//a", "proto_library", "proto", {"p.proto"}, {}, {"@protobuf//:any_proto"}));
  add(L("//a", "genrule", "gen", {"g.in"}, {}, {"@ext2//:n"}), inc({"geninc"}));
  add(L("//b", "py_library", "py", {"z.py"}, {}, {"//a/b:y"}));
  add(L("@ext//", "cc_library", "e", {"e.cc"}, {"e.h"}, {"@ext2//foo:foo", "//lib:l"}), inc({"einc"}));
  add(L("@ext//lib", "cc_library", "l", {"l.cc"}, {"l.h"}, {"@protobuf//:protobuf"}), pre("lib"), inc({".", "linc"}));
  add(L("@ext2//foo", "cc_library", "foo", {"//bar:f.cc"}, {"f.h"}, {"@//a:inc"}), pre("p"));
  add(L("@protobuf//", "cc_library", "protobuf", {"pb.cc"}, {}, {}), inc({"src"}));
  add(L("@protobuf//", "proto_library", "any_proto", {"any.proto"}, {}, {}));
  add(L("@com_google_protobuf//", "proto_library", "any_proto", {"any.proto"}, {}, {}));
  // Expressions
  add(L("//b", "cc_library", "cat", {"c1.cc", "c2.cc"}, {}, {"@ext//lib:l"}), [](Lib &l) { l.raw_srcs = "[\"c1.cc\"] + [\"c2\" + \".cc\"]"; l.raw_deps = "D + [\"@ext\" + \"//lib:l\"]"; l.prelude = "D = []\n"; });
  add(L("//b", "cc_library", "glob", {"g1.cc", "g2.cc"}, {}, {}), [](Lib &l) { l.raw_srcs = "glob([\"g*.cc\"], exclude=[\"g3*\"])"; l.raw_includes = "I"; l.includes = {"inc1"}; l.prelude = "I = [\"inc\" + \"1\"]\n"; });
  add(L("@ext//", "cc_binary", "ecat", {"e1.cc"}, {}, {"@ext2//:any"}), [](Lib &l) { l.raw_srcs = "V + [\"e1.cc\"]"; l.raw_deps = "V + [\"@ext2//:a\" + \"ny\"]"; l.prelude = "V = []\n"; });
  return m;
}

static const Strs kPatterns = {"//...", "//a/...", "//a:all", "//a:x", "//:all", "//b/...", "//a/b:y", "@ext//...", "@ext2//foo:foo", "//a:t"};

// -- .bazelrc
struct RcLine {
  const char *text, *opt;
};
static const std::vector<RcLine> kRc = {
  {"build --cxxopt=-std=c++20", "-std=c++20"},
  {"build --cxxopt -std=c++17", "-std=c++17"},
  {"build   --host_cxxopt='-Wall'", "-Wall"},
  {"test --cxxopt = \"-Wextra\"", "-Wextra"},
  {"build --cxxopt=/std:c++20", ""},
  {"build --copt=-O3 --linkopt=-lm", ""},
  {"build --cxxopt=-DA=1 --cxxopt=-DA=2", "-DA=1 -DA=2"},
  {"build --cxxopt=\"-DB=x,y:z\"\t--verbose_failures", "-DB=x,y:z"},
  {"build --define absl=1", "-DGTEST_HAS_ABSL=1"},
  {"build --jobs=3", ""},
  {"", ""},
};

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  const std::string scratch = fs::absolute(vf::S().out).string() + "/cd." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  const std::string prj = scratch + "/prj";
  auto make_tree = [&](const std::string &dir) {
    fs::create_directories(scratch + "/ob/execroot/_main/bazel-out");
    for (auto &[_, d] : kProjects) fs::create_directories(scratch + "/ob/external/" + d);
    fs::create_directories(dir);
    fs::create_directory_symlink(scratch + "/ob/execroot/_main/bazel-out", dir + "/bazel-out");
    fs::current_path(dir);
    std::ofstream("MODULE.bazel") << "bazel_dep(name = \"ext\", version = \"1.0\")\nbazel_dep(name = \"ext2\")\nbazel_dep(name = \"nope\", version = \"1\")\n";
    fs::create_directories("b");
    for (const char *f : {"b/g1.cc", "b/g2.cc", "b/g31.cc", "b/h.cc"}) std::ofstream(f) << "";
  };
  make_tree(prj);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());

  const std::vector<Lib> menu = Menu();
  const int n = menu.size();
  // -- All subsets
  const int third = vf::Thorough() ? n : n;
  for (int a = 0; a < n; ++a) {
    for (int b = a; b < n; ++b) {
      if (!VF_BEGIN("rules " + menu[a].Label() + " and " + menu[b].Label())) continue;
      vf::NonTrivial();
      for (int c = b; c < third; ++c) {
        for (int d = c; d < (vf::Thorough() ? n : c + 1); ++d) {
          std::set<int> pick = {a, b, c, d};
          std::vector<Lib> libs;
          std::string ctx;
          for (int i : pick) {
            libs.push_back(menu[i]);
            ctx += Text(menu[i]);
          }
          WriteProject(libs);
          for (const std::string &p : kPatterns) Check(ctx + " " + p, libs, p, {});
        }
      }
    }
  }
  // All but some.
  for (int a = 0; a < n; ++a) {
    if (!VF_BEGIN("everything but " + menu[a].Label() + " and another one")) continue;
    vf::NonTrivial();
    for (int b = a; b < n; ++b) {
      std::vector<Lib> libs;
      for (int i = 0; i < n; ++i)
        if (i != a && i != b) libs.push_back(menu[i]);
      WriteProject(libs);
      for (const std::string &p : kPatterns) Check("all but " + menu[a].Label() + " " + menu[b].Label() + " " + p, libs, p, {});
    }
  }
  // -- Options in the .bazelrc: sequences of lines.
  const int nr = kRc.size();
  for (int a = 0; a < nr; ++a) {
    for (int b = 0; b < nr; ++b) {
      if (!VF_BEGIN(std::string(".bazelrc: ") + kRc[a].text + " / " + kRc[b].text)) continue;
      vf::NonTrivial();
      const std::vector<Lib> libs = {L("//", "cc_library", "r", {"r.cc", "s.cc"}, {"r.h"}, {"@ext//:e"})};
      WriteProject(libs);
      for (int c = 0; c < nr; ++c) {
        for (int d = 0; d < (vf::Thorough() ? nr : 1); ++d) {
          for (int final_newline = 0; final_newline < 2; ++final_newline) {
            Strs opts, last;
            std::string text;
            std::vector<int> seq = {a, b, c};
            if (d) seq.push_back(d);
            for (int i : seq) {
              text += std::string(text.empty() ? "" : "\n") + kRc[i].text;
              std::stringstream in(kRc[i].opt);
              for (std::string o; in >> o;) {
                Strs &to = o == "-DGTEST_HAS_ABSL=1" ? last : opts;
                if (std::find(to.begin(), to.end(), o) == to.end()) to.push_back(o);
              }
            }
            opts.insert(opts.end(), last.begin(), last.end());
            if (final_newline) text += "\n";
            std::ofstream(".bazelrc") << text;
            Check(".bazelrc " + text, libs, "//...", opts);
          }
        }
      }
      unlink(".bazelrc");
    }
  }
  // -- Characters in file names, includes, target names, directories.
  Strs strange = {"\"", "\\z", "a b", "'", "$x", "\xc3\xa9", "\xf0\x9f\x98\x80", "a\\\"b", "%s", "&", "<>", "\\\\", "\\n", "u0041", "{}", "[1,2]", "#", "+", "=", "~"};
  for (int c = 1; c < 128; ++c)
    if (c != '/' && c != ':' && c != '\n' && c != '\\' && c != '"' && c != '@' && c != '.') strange.push_back(std::string("n") + (char)c + "m");
  for (const std::string &s : strange) {
    if (!VF_BEGIN("name " + s)) continue;
    vf::NonTrivial();
    const bool line_end = s.find('\n') != std::string::npos || s.find('\r') != std::string::npos;
    for (const std::string &t : strange) {
      if (!vf::Thorough() && t.size() == 3 && t[0] == 'n') continue;  // first ones only
      std::vector<Lib> libs = {L("//", "cc_library", "r", {s + ".cc"}, {"h" + t + ".h"}, {}), L("//a", "cc_test", "t", {t + ".cc", "x" + s}, {}, {"@ext//lib:l"}), L("@ext//lib", "cc_library", "l", {s}, {}, {})};
      if (!line_end) {
        libs[0].includes = {"i" + s, t};
        libs[2].includes = {t + s};
      }
      WriteProject(libs);
      Check("name " + s + " and " + t, libs, "//...", {});
      Check("name " + s + " and " + t, libs, "@ext//...", {});
    }
  }
  // -- Sizes: many sources, libraries, include directories, options; long names.
  for (int n : vf::Sizes(vf::Thorough() ? 600 : 130)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    Strs srcs, incs, deps, opts;
    std::string rc = "build";
    std::vector<Lib> many, ext, chain;
    for (int i = 0; i < n; ++i) {
      const std::string k = std::to_string(i);
      srcs.push_back("s" + k + ".cc");
      incs.push_back("i" + k);
      deps.push_back(":l" + k);
      opts.push_back("-DX" + k + "=1");
      rc += (i % 3 == 2 ? "\ntest" : "") + (" --cxxopt=" + opts.back());
      many.push_back(L("//", "cc_library", "l" + k, {"l" + k + ".cc"}, {}, {}));
      many.back().includes = {"j" + k};
      chain.push_back(L(i % 2 ? "@ext//" : "//", "cc_library", "c" + k, {"c" + k + ".cc"}, {}, {}));
      if (i) chain.back().deps.push_back((i % 2 ? "@//:c" : "@ext//:c") + std::to_string(i - 1));
      chain.back().includes = {"k" + k};
    }
    const std::string a = vf::Times("a", std::min(n, 200)), deep = vf::Times("d/", std::min(n, 300));
    Lib one = L("//", "cc_library", "r", srcs, {"r.h"}, {"@ext//:e"});
    one.includes = incs;
    many.push_back(L("//", "cc_binary", "all", {"x.cc"}, {}, deps));
    std::reverse(chain.begin(), chain.end());
    const std::vector<std::vector<Lib>> projects = {
      {one}, many, chain, {L("//", "cc_library", a, {a + ".cc", deep + "x.cc"}, {deep + "x.h"}, {"@ext//" + deep + "e:f"})}};
    for (size_t i = 0; i < projects.size(); ++i) {
      WriteProject(projects[i]);
      Check("size, project " + std::to_string(i), projects[i], "//...", {});
      if (i == 1) Check("size, project " + std::to_string(i), projects[i], "//:all", {});
      if (i == 2) Check("size, project " + std::to_string(i), projects[i], "@ext//...", {});
    }
    WriteProject({L("//", "cc_library", "r", {"r.cc"})});
    std::ofstream(".bazelrc") << rc << "\n";
    Check("size, options", {L("//", "cc_library", "r", {"r.cc"})}, "//...", opts);
    unlink(".bazelrc");
  }
  // Names of the directory the project is in.
  for (const std::string &s : strange) {
    if (!VF_BEGIN("directory " + s)) continue;
    vf::NonTrivial();
    fs::current_path(scratch);
    make_tree(scratch + "/" + s);
    g_created.clear();
    const std::vector<Lib> libs = {L("//", "cc_library", "r", {"r.cc"}, {"r.h"}, {"@ext//:e"})};
    WriteProject(libs);
    Check("directory " + s, libs, "//...", {});
    fs::current_path(prj);
    fs::remove_all(scratch + "/" + s);
    g_created.clear();
  }
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
