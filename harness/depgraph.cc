// Explorer: dependency graph for all small graphs of targets, all placements
// in packages, states of packages, patterns and depths.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>

#include "bant/explore/dependency-graph.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/parsed-project.h"
#include "bant/workspace.h"
#include "bt.h"
#include "graphs.h"

using namespace bant;
using namespace graphs;

// Count how often each BUILD file is read.
static std::map<std::string, int> opened;
static bool counting = false;
extern "C" int open(const char *p, int fl, ...) {
  static auto real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  va_list ap;
  va_start(ap, fl);
  const int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (counting && strstr(p, "BUILD")) ++opened[p];
  return real(p, fl, mode);
}

static const BazelWorkspace &Workspace() {
  static const BazelWorkspace *ws = [] {
    auto *w = new BazelWorkspace;
    w->project_location[{"foo", ""}] =
      FilesystemPath("bazel-out/../../../external/foo");
    return w;
  }();
  return *ws;
}

static void Check(const World &w, const Pattern &p, int depth,
                  bool elaborate = false) {
  std::stringstream out, info;
  Session session(&out, &info, CommandlineFlags{});
  auto pattern = p.text.empty() ? BazelPattern() : *BazelPattern::ParseFrom(p.text);
  opened.clear();
  counting = true;
  ParsedProject project(Workspace(), false);
  project.FillFromPattern(session, pattern);
  if (elaborate) Elaborate(session, &project);
  const DependencyGraph g = BuildDependencyGraph(session, Workspace(), pattern, depth, &project);
  counting = false;
  vf::Count("evaluations");
  vf::Transition(g.depends_on.size());
  const Reach want = Expected(w, p, depth);
  auto ctx = [&] {
    std::string r = "pattern '" + p.text + "' depth " + std::to_string(depth) + " " + w.Desc();
    return r;
  };
  std::map<std::string, Strs> dep, inv;
  for (auto &[k, v] : g.depends_on) {
    Strs &s = dep[k.ToString()];
    for (auto &d : v) s.push_back(d.ToString());
  }
  for (auto &[k, v] : g.has_dependents) {
    Strs &s = inv[k.ToString()];
    for (auto &d : v) s.push_back(d.ToString());
    std::sort(s.begin(), s.end());
  }
  vf::SeeState(Show(dep));
  if (dep != want.depends_on) {
    vf::Fail("depends-on", ctx() + " got " + Show(dep) + " want " + Show(want.depends_on));
  }
  if (inv != want.has_dependents) {
    vf::Fail("has-dependents", ctx() + " got " + Show(inv) + " want " + Show(want.has_dependents));
  }
  auto norm = [](std::string f) { return f.starts_with("./") ? f.substr(2) : f; };
  std::set<std::string> files, want_files;
  for (auto &f : want.files) want_files.insert(norm(f));
  std::map<std::string, int> reads;
  for (auto &[name, n] : opened) reads[norm(name)] += n;
  for (auto &[pkg, parsed] : project.ParsedFiles()) {
    const std::string name = norm(std::string(parsed->name()));
    files.insert(name);
    const int n = reads[name];
    if (n != 1) {
      vf::Fail("read-count", ctx() + std::string(parsed->name()) + " read " + std::to_string(n));
    }
  }
  if (files != want_files) {
    std::string g, e;
    for (auto &s : files) g += s + " ";
    for (auto &s : want_files) e += s + " ";
    vf::Fail("loaded", ctx() + " got " + g + " want " + e);
  }
  for (auto &[name, n] : reads) {
    // A directory in place of the file is never needed.
    if (!files.count(name) && n && !want_files.count(name)) {
      for (size_t i = 0; i < w.pkgs.size(); ++i) {
        if (w.pkg_state[i] != kUnreadable && w.pkg_state[i] != kShadowed && w.pkg_state[i] != kBoth &&
            name.starts_with(norm(w.pkgs[i].Dir() + "/") + "BUILD")) {
          vf::Fail("unneeded", ctx() + name);
        }
      }
    }
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  Disk disk(fs::absolute(vf::S().out).string() + "/dg." + std::to_string(vf::S().shard));
  const bool th = vf::Thorough();

  const std::vector<Pkg> all = {{"", ""}, {"", "a"}, {"", "a/b"}, {"@foo", "x"}, {"@foo", ""}};
  const int inf = 1 << 30;
  const std::vector<Pattern> pats = {
    {"", "", "", true, "*"},
    {"//a:t0", "", "a", false, "t0"},
    {"//:t0", "", "", false, "t0"},
    {"//a/...", "", "a", true, "*"},
    {"//a:all", "", "a", false, "*"},
    {"@foo//x:t0", "@foo", "x", false, "t0"},
    {"@foo//...", "@foo", "", true, "*"},
  };
  const Strs names = {"t0", "t1", "t2", "t3"};
  auto make = [&](int n, const std::vector<int> &place, int64_t graph, const std::vector<Pkg> &pkgs) {
    World w;
    w.pkgs = pkgs;
    w.pkg_state.assign(pkgs.size(), kBuild);
    for (int i = 0; i < n; ++i) {
      w.t.push_back({place[i], names[i], kPlain, Bits(graph >> (i * n) & ((1 << n) - 1), n)});
    }
    return w;
  };

  // -- Three targets: all graphs, placements, patterns and depths.
  const int np = th ? 5 : 4;
  const std::vector<Pkg> some(all.begin(), all.begin() + np);
  for (int pl = 0; pl < np * np * np; ++pl) {
    const std::vector<int> place = {pl % np, pl / np % np, pl / np / np};
    for (int g0 = 0; g0 < 64; ++g0) {
      if (!VF_BEGIN("3 targets in " + some[place[0]].Label() + " " + some[place[1]].Label() + " " +
                    some[place[2]].Label() + " graphs " + std::to_string(g0) + "*8..")) {
        continue;
      }
      vf::NonTrivial();
      for (int g1 = 0; g1 < 8; ++g1) {
        World w = make(3, place, g0 * 8 + g1, some);
        w.noise = (g0 * 8 + g1 + pl) % 40;
        disk.Write(w);
        for (const Pattern &p : pats) {
          bool any = p.text.empty();
          for (int i = 0; i < 3; ++i) any |= p.Match(w, i);
          if (!any) continue;
          for (int depth : {0, 1, 2, inf}) Check(w, p, depth);
        }
      }
    }
  }
  // -- Four targets, all graphs.
  std::vector<std::vector<int>> placements = {{1, 1, 2, 0}};
  if (th) placements = {{1, 1, 2, 0}, {1, 2, 0, 3}, {1, 1, 1, 1}, {1, 3, 1, 3}};
  for (auto &place : placements) {
    for (int g0 = 0; g0 < 1024; ++g0) {
      if (!VF_BEGIN("4 targets in " + std::to_string(place[0]) + std::to_string(place[1]) +
                    std::to_string(place[2]) + std::to_string(place[3]) + " graphs " +
                    std::to_string(g0) + "*64..")) {
        continue;
      }
      vf::NonTrivial();
      for (int g1 = 0; g1 < 64; ++g1) {
        World w = make(4, place, g0 * 64 + g1, some);
        w.noise = (g0 * 64 + g1) % 3 ? 0 : (g0 + g1) % 40;
        disk.Write(w);
        Check(w, pats[1], inf);
        Check(w, pats[1], (g1 + g0) % 4);
        if (th) {
          for (int depth : {0, 1, 2, 3}) Check(w, pats[1], depth);
          Check(w, pats[3], inf);
          Check(w, pats[0], inf);
        }
      }
    }
  }
  // -- States of packages
  const int N = kNumPkgStates;
  for (const std::vector<int> &place : {std::vector<int>{1, 2, 0}, {1, 1, 2}, {3, 1, 0}, {1, 3, 3}}) {
    for (int st = 0; st < N * N * N; ++st) {
      if (!VF_BEGIN("package states " + std::string(kPkgState[st % N]) + " " + kPkgState[st / N % N] +
                    " " + kPkgState[st / N / N] + " placed " + std::to_string(place[0]) +
                    std::to_string(place[1]) + std::to_string(place[2]))) {
        continue;
      }
      vf::NonTrivial();
      for (int g = 0; g < 512; ++g) {
        World w = make(3, place, g, some);
        const int s[3] = {st % N, st / N % N, st / N / N};
        for (int i = 0; i < 3; ++i) w.pkg_state[place[i]] = s[i];
        disk.Write(w);
        for (const Pattern &p : pats) {
          if (!p.Match(w, 0) && !p.text.empty()) continue;
          Check(w, p, inf);
          if (th) Check(w, p, 1);
        }
      }
    }
  }
  // -- Kinds of targets
  for (const std::vector<int> &place : {std::vector<int>{1, 2, 0}, {1, 1, 1}, {1, 1, 3}, {3, 0, 3}}) {
    for (int st = 0; st < kNumStyles * kNumStyles * kNumStyles; ++st) {
      if (!VF_BEGIN("target styles " + std::string(kStyle[st % kNumStyles]) + " " + kStyle[st / kNumStyles % kNumStyles] + " " +
                    kStyle[st / kNumStyles / kNumStyles] + " placed " + std::to_string(place[0]) +
                    std::to_string(place[1]) + std::to_string(place[2]))) {
        continue;
      }
      vf::NonTrivial();
      for (int g = 0; g < 512; ++g) {
        World w = make(3, place, g, some);
        const int s[3] = {st % kNumStyles, st / kNumStyles % kNumStyles, st / kNumStyles / kNumStyles};
        for (int i = 0; i < 3; ++i) w.t[i].style = s[i];
        disk.Write(w);
        for (const Pattern &p : pats) {
          if (!p.Match(w, 0) && !p.text.empty()) continue;
          for (int depth : {1, inf}) Check(w, p, depth, true);
        }
      }
    }
  }
  // -- Long chains of packages, in this and other projects. The end of the
  // chain might refer back, packages be missing.
  const int kMaxChain = th ? 40 : 17;
  Strs paths;
  for (int i = 0; i <= kMaxChain; ++i) paths.push_back("c" + std::to_string(i));
  for (int len = 4; len <= kMaxChain; ++len) {
    for (int ext_from = 0; ext_from <= len; ++ext_from) {
      if (!VF_BEGIN("chain of " + std::to_string(len) + " packages, external from " + std::to_string(ext_from))) continue;
      vf::NonTrivial();
      for (int shape = 0; shape < 6; ++shape) {
        World w;
        for (int i = 0; i < len; ++i) {
          w.pkgs.push_back({i >= ext_from ? "@foo" : "", paths[i].c_str()});
          w.pkg_state.push_back(kBuild);
          World::Target t{i, "t0", kPlain, {}};
          if (i + 1 < len) t.deps.push_back(i + 1);
          if (shape == 1 && i + 1 == len && ext_from > 0 && ext_from < len) t.deps.push_back(ext_from);
          if (shape == 1 && i + 1 == len && ext_from == len) t.deps.push_back(0);
          if (shape == 2) t.style = i % 2 ? kAlias : kPlain;
          if (shape == 3 && i + 2 < len) t.deps.push_back(i + 2);
          if (shape == 4 && i + 2 < len) t.deps.insert(t.deps.begin(), i + 2);
          w.t.push_back(t);
        }
        if (shape == 5) w.pkg_state[len / 2] = kMissing;
        disk.Write(w);
        const std::string project = ext_from == 0 ? "@foo" : "";
        const Pattern first = {project + "//c0:t0", project, "c0", false, "t0"};
        for (int depth = 0; depth < len + 1; ++depth) Check(w, first, depth);
        Check(w, first, inf);
        Check(w, pats[0], inf);
        Check(w, pats[6], inf);
      }
    }
  }
  // -- Dependencies listed repeatedly: all sequences, in two targets.
  std::vector<std::vector<int>> seqs = {{}};
  for (size_t i = 0; i < seqs.size(); ++i) {
    if (seqs[i].size() == (th ? 4 : 3)) continue;
    for (int k = 0; k < 3; ++k) {
      seqs.push_back(seqs[i]);
      seqs.back().push_back(k);
    }
  }
  for (size_t a = 0; a < seqs.size(); ++a) {
    if (!VF_BEGIN("repeated dependencies, first " + std::to_string(a))) continue;
    vf::NonTrivial();
    for (size_t b = 0; b < seqs.size(); ++b) {
      for (int pl = 0; pl < 2; ++pl) {
        World w;
        for (const char *path : {"a", "b"}) w.pkgs.push_back({"", path});
        w.pkg_state.assign(2, kBuild);
        for (int i = 0; i < 3; ++i) w.t.push_back({pl ? i % 2 : 0, "t" + std::to_string(i), kPlain, i == 0 ? seqs[a] : i == 1 ? seqs[b] : std::vector<int>{}});
        disk.Write(w);
        for (int depth : {0, 1, inf}) {
          Check(w, {"//a:t0", "", "a", false, "t0"}, depth);
          Check(w, {"//a/...", "", "a", true, "*"}, depth);
        }
      }
    }
  }
  // -- Many targets, many packages.
  for (int n : vf::Sizes(th ? 1030 : 260)) {
    for (int shape = 0; n && shape < kWideShapes; ++shape) {
      if (!VF_BEGIN("size " + std::to_string(n) + ", shape " + std::to_string(shape))) continue;
      vf::NonTrivial();
      World w = Wide(n, shape);
      disk.Write(w);
      for (int depth : {0, 1, 2, 3, inf}) {
        Check(w, {"//a:t0", "", "a", false, "t0"}, depth);
        Check(w, {"//a/...", "", "a", true, "*"}, depth);
        Check(w, pats[0], depth);
        Check(w, pats[6], depth);
      }
    }
  }
  return vf::Finish();
}
