// Projects made of a small graph of targets, written to a scratch tree, and
// the reference of what is reachable in them.
#ifndef VERIF_GRAPHS_H
#define VERIF_GRAPHS_H
#include <sys/stat.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "common.h"

namespace graphs {
namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

// Packages. External project foo is in ../../external/foo
struct Pkg {
  const char *project, *path;
  std::string Dir() const {
    std::string r = *project ? "bazel-out/../../../external/foo" : ".";
    return *path ? r + "/" + path : r;
  }
  std::string Label() const { return std::string(project) + "//" + path; }
};
enum PkgState { kBuild, kBazel, kMissing, kUnreadable, kBroken, kShadowed, kBoth, kNumPkgStates };
static const char *const kPkgState[] = {"BUILD", "BUILD.bazel", "missing", "unreadable", "syntax-error", "BUILD-is-directory", "BUILD-and-BUILD.bazel"};
enum Style { kPlain, kConcat, kAlias, kAbsolute, kUndefined, kWithActual, kNumStyles };
static const char *const kStyle[] = {"plain", "concat", "alias", "absolute", "undefined", "deps-and-actual"};

struct World {
  std::vector<Pkg> pkgs;
  std::vector<int> pkg_state;
  struct Target {
    int pkg;
    std::string name;
    int style = kPlain;
    std::vector<int> deps;   // in order
  };
  std::vector<Target> t;
  // In the lists of dependencies, things that aren't: 1 first, 2 between, 4 last
  int noise = 0;
  bool extras = false;  // also headers, generated files and aliases

  std::string Canon(int i) const {  // as ToString() prints
    const Pkg &p = pkgs[t[i].pkg];
    const std::string path = p.path;
    const std::string last = path.substr(path.rfind('/') + 1);
    if (!path.empty() && last == t[i].name) return p.Label();
    return p.Label() + ":" + t[i].name;
  }
  std::string Ref(int from, int to, bool absolute) const {
    const Pkg &p = pkgs[t[from].pkg], &q = pkgs[t[to].pkg];
    std::string r;
    if (t[from].pkg == t[to].pkg && !absolute) {
      r = ":" + t[to].name;
    } else if (std::string(p.project) == q.project && !absolute) {
      r = std::string("//") + q.path + ":" + t[to].name;
    } else {
      r = (*q.project ? std::string(q.project) : (*p.project ? "@" : "")) +
          "//" + q.path + ":" + t[to].name;
    }
    return "\"" + r + "\"";
  }
  bool Loadable(int pkg) const {
    return pkg_state[pkg] == kBuild || pkg_state[pkg] == kBazel ||
           pkg_state[pkg] == kBroken || pkg_state[pkg] == kShadowed || pkg_state[pkg] == kBoth;
  }
  bool Defined(int i) const {
    return t[i].style != kUndefined && Loadable(t[i].pkg);
  }
  std::string Text(int pkg) const {
    std::string r = "# pkg\n";
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i].pkg != pkg || t[i].style == kUndefined) continue;
      Strs d;
      for (int to : t[i].deps) d.push_back(Ref(i, to, t[i].style == kAbsolute));
      if (t[i].style == kPlain) {
        static const Strs kNoise = {"\"a:b:c\"", "UNKNOWN", "\"\"", "fun(\"x\")", "\"//\" + X"};
        const auto at = [&](size_t pos, int k) {
          d.insert(d.begin() + pos, kNoise[(i + k) % kNoise.size()]);
        };
        if (noise & 4) at(d.size(), 1);
        if (noise & 2) {
          for (size_t k = t[i].deps.size(); k-- > 1;) at(k, k + 3);
        }
        if (noise & 1) at(0, noise / 8);
      }
      if (t[i].style == kAlias) {
        r += "alias(name = \"" + t[i].name + "\"";
        if (!d.empty()) r += ", actual = " + d[0];
        r += ")\n";
        continue;
      }
      r += "cc_library(name = \"" + t[i].name + "\"";
      if (extras) r += ", hdrs = [\"" + t[i].name + ".h\"]";
      if (t[i].style == kWithActual && !d.empty()) {  // The last one.
        r += ", actual = " + d.back();
        d.pop_back();
      }
      if (!d.empty()) {
        const char *sep = t[i].style == kConcat ? "] + [" : ", ";
        r += ", deps = [";
        for (size_t k = 0; k < d.size(); ++k) r += (k ? sep : "") + d[k];
        r += "]";
      }
      r += ")\n";
      if (extras) r += "genrule(name = \"g_" + t[i].name + "\", outs = [\"" + t[i].name + ".inc\"])\n";
    }
    if (pkg_state[pkg] == kBroken) r += "foo(bar = \n";
    return r;
  }
  std::vector<int> Edges(int i) const {  // as reported
    if (!Defined(i)) return {};
    if (t[i].style == kAlias && t[i].deps.size() > 1) return {t[i].deps[0]};
    return t[i].deps;
  }
  // Name of BUILD file as the program prints it.
  std::string File(int pkg) const {
    const int s = pkg_state[pkg];
    return pkgs[pkg].Dir() + "/" +
           (s == kBazel || s == kShadowed || s == kBoth ? "BUILD.bazel" : "BUILD");
  }
  std::string Desc() const {
    std::string r;
    for (size_t i = 0; i < t.size(); ++i) {
      r += pkgs[t[i].pkg].Label() + ":" + t[i].name + "(" + kStyle[t[i].style] + ")->";
      for (int d : t[i].deps) r += std::to_string(d);
      r += " ";
    }
    if (noise) r += "noise " + std::to_string(noise) + " ";
    for (size_t i = 0; i < pkgs.size(); ++i) {
      r += pkgs[i].Label() + "=" + kPkgState[pkg_state[i]] + " ";
    }
    return r;
  }
};

// Writes what changed.
class Disk {
 public:
  explicit Disk(const std::string &scratch) : scratch_(scratch) {
    fs::remove_all(scratch);
    fs::create_directories(scratch + "/ob/execroot/_main/bazel-out");
    fs::create_directories(scratch + "/ob/external/foo");
    fs::create_directories(scratch + "/prj");
    fs::create_directory_symlink(scratch + "/ob/execroot/_main/bazel-out",
                                 scratch + "/prj/bazel-out");
    fs::current_path(scratch + "/prj");
    std::ofstream("MODULE.bazel") << "bazel_dep(name = \"foo\")\n";
  }
  ~Disk() {
    fs::current_path("/");
    fs::remove_all(scratch_);
  }
  void Write(const World &w) {
    std::set<std::string> dirs;
    for (size_t p = 0; p < w.pkgs.size(); ++p) {
      const std::string dir = w.pkgs[p].Dir();
      dirs.insert(dir);
      std::string want = std::to_string(w.pkg_state[p]) + w.Text(p);
      std::string &have = have_[dir];
      if (have == want) continue;
      have = want;
      Put(dir, w.pkg_state[p], w.Text(p));
    }
    for (auto &[d, have] : have_) {
      if (dirs.count(d) || have.empty()) continue;
      have = "";
      Put(d, kMissing, "");
    }
  }

 private:
  void Put(const std::string &dir, int state, const std::string &text) {
    if (made_.insert(dir).second) fs::create_directories(dir);
    int &had = state_[dir];  // default: kBuild, harmless.
    const std::string b = dir + "/BUILD", bb = dir + "/BUILD.bazel";
    if (had != state || !written_.count(dir)) {
      unlink(b.c_str());
      rmdir(b.c_str());
      unlink(bb.c_str());
    }
    written_.insert(dir);
    had = state;
    switch (state) {
    case kBuild:
    case kBroken: std::ofstream(b) << text; break;
    case kBazel: std::ofstream(bb) << text; break;
    case kUnreadable: mkdir(b.c_str(), 0755); break;
    case kShadowed:
      mkdir(b.c_str(), 0755);
      std::ofstream(bb) << text;
      break;
    case kBoth:
      std::ofstream(b) << "cc_library(name = \"decoy\", deps = [\":t0\", \"//:t0\", \"//decoy\"])\n";
      std::ofstream(bb) << text;
      break;
    default:;
    }
  }
  std::string scratch_;
  std::map<std::string, std::string> have_;
  std::map<std::string, int> state_;
  std::set<std::string> made_, written_;
};

struct Pattern {
  std::string text;
  std::string project, path;
  bool recursive;
  std::string name;  // "*" for all
  bool MatchPkg(const Pkg &p) const {
    if (project != p.project) return false;
    if (path == p.path) return true;
    return recursive && (path.empty() || std::string(p.path).starts_with(path + "/"));
  }
  bool Match(const World &w, int i) const {
    return MatchPkg(w.pkgs[w.t[i].pkg]) && (name == "*" || name == w.t[i].name);
  }
};

struct Reach {
  std::map<std::string, Strs> depends_on, has_dependents;
  std::set<std::string> files;
};
// Reference: breadth first search.
inline Reach Expected(const World &w, const Pattern &pat, int depth) {
  Reach r;
  std::set<int> todo, done, loaded;
  for (size_t p = 0; p < w.pkgs.size(); ++p) {
    if (pat.MatchPkg(w.pkgs[p]) && w.Loadable(p)) loaded.insert(p);
  }
  for (size_t i = 0; i < w.t.size(); ++i) {
    if (pat.Match(w, i) && w.Defined(i)) todo.insert(i);
  }
  while (!todo.empty() && depth >= 0) {
    std::set<int> next;
    for (int i : todo) {
      done.insert(i);
      if (w.Loadable(w.t[i].pkg)) loaded.insert(w.t[i].pkg);
      if (!w.Defined(i)) continue;
      r.depends_on[w.Canon(i)];
      for (int d : w.Edges(i)) {
        r.depends_on[w.Canon(i)].push_back(w.Canon(d));
        r.has_dependents[w.Canon(d)].push_back(w.Canon(i));
        next.insert(d);
      }
    }
    for (int d : done) next.erase(d);
    todo = next;
    --depth;
  }
  for (int p : loaded) r.files.insert(w.File(p));
  for (auto &[_, v] : r.has_dependents) std::sort(v.begin(), v.end());
  return r;
}
// Graphs with n targets that one depends on or that depend on one, in one or in
// many packages, partially of an external project. Target 0 is first.
constexpr int kWideShapes = 6;
inline World Wide(int n, int shape) {
  static std::map<int, std::string> *names = new std::map<int, std::string>;
  World w;
  w.pkgs = {{"", "a"}, {"@foo", "x"}};
  const bool many = shape % 2;
  for (int i = 0; many && i < n; ++i) {
    std::string &path = (*names)[i];
    path = "w/w" + std::to_string(i);
    w.pkgs.push_back({i % 5 == 4 ? "@foo" : "", path.c_str()});
  }
  w.pkg_state.assign(w.pkgs.size(), kBuild);
  w.t.push_back({0, "t0", kPlain, {}});
  for (int i = 1; i <= n; ++i) {
    w.t.push_back({many ? i + 1 : i % 3 ? 0 : 1, "t" + std::to_string(i), i % 7 == 6 ? (int)kAlias : (int)kPlain, {}});
  }
  switch (shape / 2) {
  case 0:  // One on all.
    for (int i = 1; i <= n; ++i) w.t[0].deps.push_back(i);
    break;
  case 1:  // From the first to all others to the last.
    for (int i = 1; i < n; ++i) {
      w.t[0].deps.push_back(i);
      w.t[i].deps.push_back(n);
    }
    break;
  default:  // Tree; the leafs back to the top.
    for (int i = 0; i <= n; ++i) {
      for (int k : {2 * i + 1, 2 * i + 2}) {
        if (k <= n) w.t[i].deps.push_back(k);
      }
      if (2 * i + 1 > n) w.t[i].deps.push_back(0);
    }
  }
  return w;
}
inline std::string Show(const std::map<std::string, Strs> &m) {
  std::string r;
  for (auto &[k, v] : m) {
    r += k + "->[";
    for (auto &s : v) r += s + " ";
    r += "] ";
  }
  return r;
}
inline std::vector<int> Bits(int mask, int n) {
  std::vector<int> r;
  for (int i = 0; i < n; ++i) {
    if (mask >> i & 1) r.push_back(i);
  }
  return r;
}
}  // namespace graphs
#endif
