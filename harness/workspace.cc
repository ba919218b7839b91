// Explorer: resolution of external projects. All small sets of directories in
// the output base (real directories, files and links in a scratch tree)
// combined with all short sequences of declarations in the workspace files.
#include <deque>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>
#include <iostream>

#include "bant/cli-commands.h"
#include "bant/session.h"
#include "bant/workspace.h"
#include "bt.h"
#include "cli.h"
#include "common.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using namespace bant;

static std::string base;  // external directory
static const char kPrefix[] = "bazel-out/../../../external/";

enum Kind { kAbsent, kDir, kFile, kLink, kDangling };
static const char *kKindName[] = {"-", "dir", "file", "link", "dangling"};

struct Decl {
  const char *rule, *name, *version, *repo;
  std::string Text() const {
    std::string r = std::string(rule) + "(name = \"" + name + "\"";
    if (*version) r += std::string(", version = \"") + version + "\"";
    if (*repo) r += std::string(", repo_name = \"") + repo + "\"";
    return r + ")\n";
  }
  std::string Key() const { return *repo ? repo : name; }
};
static const std::vector<Decl> decls = {
  {"bazel_dep", "foo", "1.0", ""},    {"bazel_dep", "foo", "2.0", ""},
  {"bazel_dep", "foo", "", ""},       {"bazel_dep", "foo", "3.0", ""},
  {"bazel_dep", "foob", "1.0", ""},   {"bazel_dep", "foo", "1.0", "bar"},
  {"http_archive", "foo", "", ""},    {"http_archive", "fo", "", ""},
  {"local_repository", "foob", "", ""},
};
static bool Counts(const Decl &d) {
  return std::string(d.rule) == "bazel_dep" ||
         std::string(d.rule) == "http_archive";
}

static const Strs ws_files = {"WORKSPACE", "WORKSPACE.bazel",
                              "WORKSPACE.bzlmod", "MODULE.bazel"};

struct Layout {
  Strs names;
  std::vector<int> kind;
  std::string Desc() const {
    std::string r;
    for (size_t i = 0; i < names.size(); ++i) {
      if (kind[i]) r += names[i] + ":" + kKindName[kind[i]] + " ";
    }
    return r;
  }
  bool IsDir(const std::string &n) const {
    for (size_t i = 0; i < names.size(); ++i) {
      if (names[i] == n) return kind[i] == kDir || kind[i] == kLink;
    }
    return false;
  }
};

static void Create(const Layout &l) {
  fs::remove_all(base);
  fs::create_directory(base);
  for (size_t i = 0; i < l.names.size(); ++i) {
    const std::string p = base + "/" + l.names[i];
    switch (l.kind[i]) {
    case kDir:
      mkdir(p.c_str(), 0755);
      std::ofstream(p + "/BUILD") << "filegroup(name = \"x\")\n";
      break;
    case kFile: std::ofstream(p) << "x"; break;
    case kLink:
      (void)!symlink(("../linked/" + l.names[i]).c_str(), p.c_str());
      break;
    case kDangling: (void)!symlink("/nonexistent/x", p.c_str()); break;
    default:;
    }
  }
}

using Key = std::pair<std::string, std::string>;
// Reference: for each project/version the acceptable directories.
static std::map<Key, Strs> Reference(const Layout &l,
                                     const std::vector<Decl> &ds,
                                     bool augment) {
  std::map<Key, Strs> r;
  for (const Decl &d : ds) {
    if (!Counts(d)) continue;
    const std::string name = d.name;
    Strs dirs;
    if (*d.version && l.IsDir(name + "~" + d.version)) {
      dirs = {name + "~" + d.version};
    } else if (l.IsDir(name)) {
      dirs = {name};
    } else if (l.IsDir(name + "~override")) {
      dirs = {name + "~override"};
    } else {
      for (const std::string &n : l.names) {
        if (n.starts_with(name + "~") && l.IsDir(n)) dirs.push_back(n);
      }
    }
    if (!dirs.empty()) r[{d.Key(), d.version}] = dirs;
  }
  if (augment) {
    std::set<std::string> declared;
    for (const auto &[k, _] : r) declared.insert(k.first);
    for (const std::string &n : l.names) {
      if (!l.IsDir(n)) continue;
      const std::string p = n.substr(0, n.find('~'));
      if (declared.count(p)) continue;
      r[{p, "*"}].push_back(n);  // any of these, once.
    }
  }
  return r;
}

static std::string Show(const BazelWorkspace &w) {
  std::string r;
  for (const auto &[k, v] : w.project_location) {
    r += k.project + "/" + k.version + "=" + std::string(v.path()) + " ";
  }
  return r;
}

static bool In(const Strs &v, const std::string &s) {
  for (const auto &e : v) {
    if (s == kPrefix + e) return true;
  }
  return false;
}

static void Compare(const std::string &what, const BazelWorkspace &w,
                    const std::map<Key, Strs> &ref, const std::string &ctx) {
  vf::Count("evaluations");
  std::map<std::string, std::set<std::string>> versions;
  size_t expected = 0;
  for (const auto &[k, dirs] : ref) {
    ++expected;
    bool found = false;
    for (const auto &[pv, path] : w.project_location) {
      if (pv.project != k.first) continue;
      if (k.second == "*") {
        found = In(dirs, std::string(path.path()));
        // Version is what is in the directory name.
        const std::string dir(path.filename());
        const size_t t = dir.find('~');
        const std::string v =
          t == std::string::npos ? "" : dir.substr(t + 1);
        if (pv.version != v) {
          vf::Fail(what + "-version", ctx + " got " + Show(w));
        }
      } else if (pv.version == k.second) {
        found = In(dirs, std::string(path.path()));
      }
      if (found) break;
    }
    if (!found) {
      vf::Fail(what + "-missing", ctx + " want " + k.first + "/" + k.second +
                                    " in " + dirs[0] + " got " + Show(w));
    }
  }
  if (w.project_location.size() != expected) {
    vf::Fail(what + "-extra", ctx + " got " + Show(w));
  }
  // Lookup
  static const Strs queries = {"foo", "foob", "fo",  "bar",  "f",  "foobar",
                               "fooa", "zoo", "foo~1.0", "ba", ""};
  for (const std::string &q : queries) {
    for (const std::string &at : {std::string(), std::string("@")}) {
      vf::Transition();
      const auto got = w.FindPathByProject(at + q);
      std::string want;
      for (const auto &[k, v] : w.project_location) {
        if (k.project == q && !q.empty()) {  // lowest version first.
          want = v.path();
          break;
        }
      }
      const std::string g = got ? std::string(got->path()) : "";
      if (g != want) {
        vf::Fail(what + "-lookup", ctx + " lookup '" + at + q + "' got '" + g +
                                     "' want '" + want + "' in " + Show(w));
      }
    }
  }
}

static void WriteFiles(const std::vector<std::pair<int, int>> &placed) {
  for (const std::string &f : ws_files) unlink(f.c_str());
  std::map<int, std::string> content;
  for (auto [d, f] : placed) content[f] += decls[d].Text();
  if (content.empty()) content[3] = "module(name = \"m\")\n";
  for (auto &[f, c] : content) std::ofstream(ws_files[f]) << c;
}

static void RunDecls(const Layout &l, const std::vector<std::pair<int, int>> &p) {
  std::string ctx;
  std::vector<Decl> ds;
  for (auto [d, f] : p) {
    ctx += ws_files[f] + ":" + decls[d].Text();
    ds.push_back(decls[d]);
  }
  WriteFiles(p);
  std::stringstream out, info;
  Session session(&out, &info, CommandlineFlags{});
  auto w = LoadWorkspace(session);
  vf::Transition();
  if (!w.has_value()) {
    vf::Fail("no-workspace", ctx);
    return;
  }
  if (!out.str().empty()) vf::Fail("output", ctx + out.str());
  Compare("declared", *w, Reference(l, ds, false), ctx);
  vf::SeeState(Show(*w));
  const size_t before = w->project_location.size();
  const bool any = BestEffortAugmentFromExternalDir(*w);
  if (any != (w->project_location.size() != before)) {
    vf::Fail("augment-result", ctx + Show(*w));
  }
  Compare("augmented", *w, Reference(l, ds, true), ctx);
  vf::SeeState(Show(*w));
}

// The commands, as seen by the user.
static void Commands(const Layout &l, int decl) {
  WriteFiles({{decl, 3}});
  const auto ref = Reference(l, {decls[decl]}, true);
  std::ofstream("BUILD") << "";
  // Projects in the listing
  {
    std::string header;
    const Strs got = cli::CsvRows({"workspace"}, {}, nullptr, &header);
    std::set<std::string> seen, want;
    for (auto &[k, _] : ref) want.insert(k.first);
    bool ok = header == "project|version|directory";
    for (const std::string &line : got) {
      const size_t c1 = line.find('|'), c2 = line.rfind('|');
      const std::string p = line.substr(0, c1),
                        v = line.substr(c1 + 1, c2 - c1 - 1),
                        d = line.substr(c2 + 1);
      seen.insert(p);
      bool match = false;
      for (auto &[k, dirs] : ref) {
        if (k.first != p || !In(dirs, d)) continue;
        if (k.second == "*" ? true : v == (k.second.empty() ? "-" : k.second)) {
          match = true;
        }
      }
      ok &= match;
    }
    const size_t n = got.size();
    if (!ok || seen != want || n != want.size()) {
      vf::Fail("workspace-list", decls[decl].Text() + cli::Join(got));
    }
    vf::Count("evaluations");
  }
  // Loading packages of that project.
  for (const std::string q : {"foo", "foob", "fo", "bar", "nope"}) {
    for (const std::string pat : {"//...", "//:x", "//:all"}) {
      const Strs rows = cli::CsvRows({"list-packages", "@" + q + pat});
      const std::string got = cli::Join(rows);
      Strs dirs;
      for (auto &[k, d] : ref) {
        if (k.first == q) dirs = d;
      }
      bool ok = false;
      if (dirs.empty()) {
        ok = got.empty();
      } else {
        for (const std::string &d : dirs) {
          if (!fs::exists(std::string(kPrefix) + d + "/BUILD")) {
            ok |= got.empty();
          } else {
            ok |= got == std::string(kPrefix) + d + "/BUILD|@" + q + "//";
          }
        }
      }
      vf::Count("evaluations");
      if (!ok) {
        vf::Fail("list-packages", decls[decl].Text() + " @" + q + pat +
                                    " got " + got);
      }
    }
  }
}

// workspace command with pattern: exactly projects referenced.
struct Ref {
  const char *attr;     // load, deps, actual
  const char *label;
  const char *project;  // "" if not external
};
static const std::vector<Ref> refs = {
  {"load", "@foo//:x.bzl", "foo"},     {"deps", "@foo//:x", "foo"},
  {"deps", "@foob//a:x", "foob"},      {"deps", "@nope//:x", ""},
  {"deps", ":foo", ""},                {"deps", "//foo", ""},
  {"actual", "@foob//:foob", "foob"},  {"actual", "@foo", "foo"},
  {"srcs", "@foob//:f.cc", ""},        {"actual", "//foo", ""},
};
static std::string RefText(const Ref &r, const std::string &name) {
  if (std::string(r.attr) == "load") {
    return std::string("load(\"") + r.label + "\", \"sym\")\n";
  }
  if (std::string(r.attr) == "actual") {
    return "alias(name = \"" + name + "\", actual = \"" + r.label + "\")\n";
  }
  return "cc_library(name = \"" + name + "\", " + r.attr + " = [\"" + r.label +
         "\"])\n";
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  const std::string scratch =
    fs::absolute(vf::S().out).string() + "/ws." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  fs::create_directories(scratch + "/ob/execroot/_main/bazel-out");
  fs::create_directories(scratch + "/ob/linked");
  fs::create_directories(scratch + "/prj/sub");
  fs::create_directory_symlink(scratch + "/ob/execroot/_main/bazel-out",
                               scratch + "/prj/bazel-out");
  base = scratch + "/ob/external";
  fs::current_path(scratch + "/prj");
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());

  // -- No workspace file at all.
  if (VF_BEGIN("no workspace file")) {
    for (const std::string &f : ws_files) unlink(f.c_str());
    std::stringstream out, info;
    Session session(&out, &info, CommandlineFlags{});
    if (LoadWorkspace(session).has_value()) vf::Fail("workspace", "found");
    vf::Count("evaluations");
    vf::NonTrivial();
  }

  // -- Directories x declarations.
  const Strs names = {"fo~1.0",  "foo",          "foo~1.0", "foo~2.0",
                      "foo~override", "foob~1.0", "foo~~ext~x"};
  for (const std::string &n : names) {
    fs::create_directories(scratch + "/ob/linked/" + n);
  }
  const int kinds = vf::Thorough() ? 5 : 4;
  std::vector<Layout> layouts;
  {
    std::vector<int> k(names.size(), 0);
    while (true) {
      int special = 0, present = 0;
      for (int v : k) {
        special += (v > kDir);
        present += (v != 0);
      }
      if (special <= (vf::Thorough() ? 3 : 2)) layouts.push_back({names, k});
      size_t i = 0;
      while (i < k.size() && ++k[i] == kinds) k[i++] = 0;
      if (i == k.size()) break;
    }
  }
  // Sequences of declarations; contradicting ones (same name for different
  // modules) excluded.
  std::vector<std::vector<std::pair<int, int>>> seqs;
  const int nd = decls.size();
  for (int a = 0; a < nd; ++a) {
    seqs.push_back({{a, 3}});
    seqs.push_back({{a, 0}});
    for (int b = 0; b < nd; ++b) {
      seqs.push_back({{a, 3}, {b, 3}});
      if (vf::Thorough()) {
        seqs.push_back({{a, 1}, {b, 2}});
        seqs.push_back({{a, 0}, {b, 3}});
      }
    }
  }
  std::vector<std::vector<std::pair<int, int>>> more = {
    {{0, 0}, {4, 1}, {7, 2}, {5, 3}}, {{5, 0}, {7, 1}, {4, 2}, {0, 3}},
    {{0, 3}, {1, 3}, {2, 3}, {3, 3}}, {{3, 3}, {2, 3}, {1, 3}, {0, 3}},
    {{2, 0}, {0, 3}},                 {{0, 1}, {2, 2}}};
  seqs.insert(seqs.end(), more.begin(), more.end());

  for (const Layout &l : layouts) {
    if (!VF_BEGIN("external: " + l.Desc())) continue;
    Create(l);
    vf::NonTrivial();
    for (const auto &s : seqs) RunDecls(l, s);
  }
  for (const Layout &l : layouts) {
    int special = 0;
    for (int v : l.kind) special += v > kDir;
    if (special > (vf::Thorough() ? 2 : 1)) continue;
    if (!VF_BEGIN("commands, external: " + l.Desc())) continue;
    Create(l);
    vf::NonTrivial();
    for (int d = 0; d < nd; ++d) Commands(l, d);
  }

  // -- Sizes: many declarations and directories, long names and versions.
  for (int n : vf::Sizes(vf::Thorough() ? 1030 : 300)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    static std::deque<std::string> strings;
    strings.clear();
    auto keep = [](const std::string &s) { return strings.emplace_back(s).c_str(); };
    const std::string a = vf::Times("a", std::min(n, 100)), v = vf::Times("1.", std::min(n, 60)) + "0";
    for (int shape = 0; shape < 5; ++shape) {
      Layout l;
      std::vector<Decl> ds;
      auto dir = [&](const std::string &d, int kind = kDir) {
        l.names.push_back(d);
        l.kind.push_back(kind);
        if (kind == kLink) fs::create_directories(scratch + "/ob/linked/" + d);
      };
      for (int i = 0; i < n; ++i) {
        const std::string k = std::to_string(i);
        switch (shape) {
        case 0:  // Each another way
          ds.push_back({i % 2 ? "bazel_dep" : "http_archive", keep("p" + k), i % 2 ? keep("1." + k) : "", i % 5 == 1 ? keep("r" + k) : ""});
          dir("p" + k + (i % 4 == 1 ? "~1." + k : i % 4 == 3 ? "~override" : ""), i % 6 == 5 ? kLink : kDir);
          break;
        case 1:  // Not any declared
          dir("p" + k + (i % 3 ? "~1." + k : ""), i % 6 == 5 ? kLink : kDir);
          break;
        case 2:  // Versions
          ds.push_back({"bazel_dep", "foo", keep("1." + k), ""});
          dir("foo~1." + k);
          break;
        case 3:  // Declared, but not there.
          ds.push_back({"bazel_dep", keep("p" + k), keep(v), ""});
          if (i == n / 2) dir("p" + k + "~" + v);
          break;
        default:  // Names that start like others
          ds.push_back({"bazel_dep", keep(vf::Times("f", std::min(i + 1, 120))), i < 120 ? "" : keep("1." + k), ""});
          if (i < 120 && i % 3 != 1) dir(vf::Times("f", i + 1) + (i % 3 ? "~x" + k : ""));
        }
      }
      if (shape == 3) {
        ds.push_back({"bazel_dep", keep(a), keep(v), keep("q" + a)});
        dir(a + "~" + v);
      }
      if (shape == 4) ds.resize(std::min(n, 120));
      Create(l);
      for (const std::string &f : ws_files) unlink(f.c_str());
      for (int files = 1; files <= 4; files += 3) {
        std::string text[4];
        for (size_t i = 0; i < ds.size(); ++i) text[3 - i % files] += ds[i].Text();
        for (int f = 0; f < 4; ++f)
          if (files > 1 || f == 3) std::ofstream(ws_files[f]) << text[f];
        std::stringstream out, info;
        Session session(&out, &info, CommandlineFlags{});
        auto w = LoadWorkspace(session);
        vf::Transition();
        const std::string ctx = "size " + std::to_string(n) + ", shape " + std::to_string(shape) + " ";
        if (!w.has_value()) {
          vf::Fail("no-workspace", ctx);
          continue;
        }
        Compare("size-declared", *w, Reference(l, ds, false), ctx);
        for (const auto &[k, path] : w->project_location) {
          auto found = w->FindPathByProject(k.project);
          if (!found || (shape != 2 && found->path() != path.path())) vf::Fail("size-lookup", ctx + k.project);
          if (w->FindPathByProject(k.project + "x") && shape != 4) vf::Fail("size-lookup", ctx + k.project + "x");
        }
        BestEffortAugmentFromExternalDir(*w);
        Compare("size-augmented", *w, Reference(l, ds, true), ctx);
      }
      for (const std::string &f : ws_files) unlink(f.c_str());
    }
  }
  // -- Listing restricted to what a pattern references.
  const Layout both{{"foo~1.0", "foob"}, {kDir, kDir}};
  const int nr = refs.size();
  for (int a = 0; a < nr; ++a) {
    for (int b = 0; b < nr; ++b) {
      for (int c = 0; c < nr; ++c) {
        if (!VF_BEGIN("workspace PATTERN: a=" + RefText(refs[a], "a") + " b=" +
                      RefText(refs[b], "b") + " sub:c=" + RefText(refs[c], "c"))) {
          continue;
        }
        vf::NonTrivial();
        Create(both);
        WriteFiles({{0, 3}});
        std::ofstream("BUILD") << RefText(refs[a], "a") << RefText(refs[b], "b");
        std::ofstream("sub/BUILD") << RefText(refs[c], "c");
        auto proj = [&](std::initializer_list<int> rs) {
          std::set<std::string> r;
          for (int i : rs) r.insert(refs[i].project);
          r.erase("");
          return r;
        };
        auto is_load = [&](int i) { return std::string(refs[i].attr) == "load"; };
        struct Q {
          const char *pattern;
          std::set<std::string> want;
        };
        auto only = [&](int i, int other) {  // load() counts for the package
          auto r = proj({i});
          if (is_load(other)) r.merge(proj({other}));
          return r;
        };
        const std::vector<Q> qs = {
          {"//...", proj({a, b, c})},
          {"//:all", proj({a, b})},
          {"//sub:all", proj({c})},
          {"//sub/...", proj({c})},
          {"//:a", only(a, b)},
          {"//:b", only(b, a)},
          {"//:nope", only(0, 0)},
        };
        for (const Q &q : qs) {
          std::set<std::string> want = q.want;
          if (std::string(q.pattern) == "//:nope") {
            want.clear();
            if (is_load(a)) want.merge(proj({a}));
            if (is_load(b)) want.merge(proj({b}));
          }
          const std::string all = cli::Join(cli::CsvRows({"workspace", q.pattern}));
          Strs e;
          if (want.count("foo")) e.push_back(std::string("foo|1.0|") + kPrefix + "foo~1.0");
          if (want.count("foob")) e.push_back(std::string("foob|-|") + kPrefix + "foob");
          const std::string exp = cli::Join(e);
          vf::Count("evaluations");
          vf::Transition();
          if (all != exp) {
            vf::Fail("workspace-pattern",
                     std::string(q.pattern) + " got " + all + " want " + exp);
          }
        }
        unlink("sub/BUILD");
      }
    }
  }
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
