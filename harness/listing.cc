// Explorer: the listing commands on all small graphs of targets: what is
// listed is what the pattern selects or, with -r[N], is reachable from there.
#include "bt.h"
#include "cli.h"
#include "graphs.h"

using namespace graphs;

static const int kInf = std::numeric_limits<int>::max();
static Strs Sorted(Strs v) {
  std::sort(v.begin(), v.end());
  return v;
}
static std::string PkgLabel(const Pkg &p) { return p.Label(); }
static std::string Canon(const Pkg &p, const std::string &name) {
  const std::string path = p.path;
  const std::string last = path.substr(path.rfind('/') + 1);
  return !path.empty() && last == name ? p.Label() : p.Label() + ":" + name;
}
static std::string InPkg(const Pkg &p, const std::string &file) {
  return *p.path ? std::string(p.path) + "/" + file : file;
}

// All the rows expected, without considering the pattern for printing.
struct Row {
  std::string text;
  int target;
};

static void Check(const World &w, const Pattern &p, int depth) {
  bant::CommandlineFlags fl;
  fl.recurse_dependency_depth = depth;
  const bool recursive = depth > 0;
  const Reach reach = Expected(w, p, depth < 0 ? 0 : depth);
  std::set<int> loaded;
  for (size_t i = 0; i < w.pkgs.size(); ++i)
    if (w.Loadable(i) && reach.files.count(w.File(i))) loaded.insert(i);
  auto shown = [&](size_t i) {
    return loaded.count(w.t[i].pkg) && w.Defined(i) && (recursive || p.text.empty() || p.Match(w, i));
  };
  auto norm = [](const std::string &f) { return f.starts_with("./") ? f.substr(2) : f; };
  auto run = [&](const char *cmd, const Strs &want, const char *want_header, int status = 0) {
    Strs a = {cmd};
    if (!p.text.empty()) a.push_back(p.text);
    cli::Result r;
    std::string header;
    Strs got = cli::CsvRows(a, fl, &r, &header);
    for (auto &g : got) {  // The location: file only
      if (std::string_view(cmd) == "list-targets") {
        const size_t bar = g.find('|');
        const size_t colon = g.rfind("BUILD", bar);
        const size_t c2 = g.find(':', colon == std::string::npos ? 0 : colon);
        if (c2 != std::string::npos && c2 < bar) g = g.substr(0, c2) + g.substr(bar);
      }
      if (g.starts_with("./")) g = g.substr(2);
    }
    vf::Count("evaluations");
    vf::Transition(got.size());
    vf::SeeState(cli::Join(Sorted(want)));
    if (Sorted(got) != Sorted(want) || header != want_header || r.status != status) {
      vf::Fail(cmd, std::string(cmd) + " '" + p.text + "' -r" + std::to_string(depth) + " " + w.Desc() +
                      " got " + cli::Join(Sorted(got)) + " want " + cli::Join(Sorted(want)) +
                      " header " + header + " status " + std::to_string(r.status));
    }
  };
  {
    Strs want;
    for (int k : loaded) want.push_back(norm(w.File(k)) + "|" + PkgLabel(w.pkgs[k]));
    run("list-packages", want, "bazel-file|package");
  }
  {
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      const Pkg &pkg = w.pkgs[w.t[i].pkg];
      const std::string file = norm(w.File(w.t[i].pkg));
      if (shown(i)) {
        want.push_back(file + (w.t[i].style == kAlias ? "|alias|" : "|cc_library|") + w.Canon(i));
      }
      if (w.t[i].style == kAlias || w.t[i].style == kUndefined || !loaded.count(w.t[i].pkg)) continue;
      // The generated file is another target.
      const bool gen = recursive || p.text.empty() || (p.MatchPkg(pkg) && (p.name == "*" || p.name == "g_" + w.t[i].name));
      if (gen) want.push_back(file + "|genrule|" + Canon(pkg, "g_" + w.t[i].name));
    }
    run("list-targets", want, "file-location|rule|target");
  }
  {
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      if (!shown(i)) continue;
      // Aliases provide what the target they stand for does.
      int lib = i;
      for (size_t step = 0; step <= w.t.size() && lib >= 0 && w.t[lib].style == kAlias; ++step) {
        const std::vector<int> e = w.Edges(lib);
        lib = e.size() == 1 && loaded.count(w.t[e[0]].pkg) && w.Defined(e[0]) ? e[0] : -1;
      }
      if (lib < 0 || w.t[lib].style == kAlias) continue;
      want.push_back(InPkg(w.pkgs[w.t[lib].pkg], w.t[lib].name + ".h") + "|" + w.Canon(i));
    }
    run("lib-headers", want, "header|providing-rule");
  }
  {
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      const Pkg &pkg = w.pkgs[w.t[i].pkg];
      if (w.t[i].style == kAlias || w.t[i].style == kUndefined || !loaded.count(w.t[i].pkg)) continue;
      if (recursive || p.text.empty() || (p.MatchPkg(pkg) && (p.name == "*" || p.name == "g_" + w.t[i].name)))
        want.push_back(InPkg(pkg, w.t[i].name + ".inc") + "|" + Canon(pkg, "g_" + w.t[i].name));
    }
    run("genrule-outputs", want, "generated-file|providing-rule");
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  Disk disk(fs::absolute(vf::S().out).string() + "/lst." + std::to_string(vf::S().shard));
  const bool th = vf::Thorough();
  const std::vector<Pkg> pkgs = {{"", ""}, {"", "a"}, {"", "a/b"}, {"@foo", "x"}, {"@foo", ""}};
  const std::vector<Pattern> pats = {
    {"", "", "", true, "*"},
    {"//a:t0", "", "a", false, "t0"},
    {"//:t0", "", "", false, "t0"},
    {"//a/...", "", "a", true, "*"},
    {"//a:all", "", "a", false, "*"},
    {"//a:g_t0", "", "a", false, "g_t0"},
    {"@foo//x:t0", "@foo", "x", false, "t0"},
    {"@foo//...", "@foo", "", true, "*"},
  };
  const std::vector<int> depths = {-1, 0, 1, 2, 3, kInf};
  auto make = [&](const std::vector<int> &place, int g, const int *styles, const int *states) {
    World w;
    w.pkgs = pkgs;
    w.extras = true;
    w.pkg_state.assign(pkgs.size(), kBuild);
    static const char *const names[] = {"t0", "t1", "t2"};
    for (int i = 0; i < 3; ++i) {
      w.t.push_back({place[i], names[i], styles ? styles[i] : (int)kPlain, Bits(g >> (3 * i) & 7, 3)});
      if (states) w.pkg_state[place[i]] = states[i];
    }
    return w;
  };
  auto all = [&](const World &w) {
    disk.Write(w);
    for (const Pattern &p : pats) {
      bool any = p.text.empty();
      for (int i = 0; i < 3; ++i) any |= p.MatchPkg(w.pkgs[w.t[i].pkg]);
      if (!any) continue;
      for (int d : depths) Check(w, p, d);
    }
  };
  // -- All placements; all graphs.
  const int np = th ? 5 : 4;
  for (int pl = 0; pl < np * np * np; ++pl) {
    const std::vector<int> place = {pl % np, pl / np % np, pl / np / np};
    if (!th && place[1] > place[2]) continue;
    for (int g0 = 0; g0 < 64; ++g0) {
      if (!VF_BEGIN("targets in " + pkgs[place[0]].Label() + " " + pkgs[place[1]].Label() + " " +
                    pkgs[place[2]].Label() + " graphs " + std::to_string(g0) + "*8..")) {
        continue;
      }
      vf::NonTrivial();
      for (int g1 = 0; g1 < 8; ++g1) {
        const int g = g0 * 8 + g1;
        if (!th && (g & 0421)) continue;  // to itself
        all(make(place, g, nullptr, nullptr));
      }
    }
  }
  // -- States of packages, kinds of targets
  static const int style[] = {kPlain, kAlias, kUndefined};
  const std::vector<int> graphs = {0002, 0012, 0042, 0022, 0006, 0016, 0142, 0046};
  for (const std::vector<int> &place : {std::vector<int>{1, 2, 0}, {1, 3, 3}, {3, 1, 0}}) {
    for (int st = 0; st < kNumPkgStates * kNumPkgStates; ++st) {
      if (!VF_BEGIN("package states " + std::string(kPkgState[st % kNumPkgStates]) + " " + kPkgState[st / kNumPkgStates] +
                    " placed " + std::to_string(place[0]) + std::to_string(place[1]) + std::to_string(place[2]))) {
        continue;
      }
      vf::NonTrivial();
      const int states[3] = {st % kNumPkgStates, st / kNumPkgStates, kBuild};
      for (int k = 0; k < 27; ++k) {
        const int styles[3] = {style[k % 3], style[k / 3 % 3], style[k / 9]};
        for (int g : graphs) all(make(place, g, styles, states));
      }
    }
  }
  // -- Many targets, many packages.
  for (int n : vf::Sizes(th ? 1030 : 260)) {
    for (int shape = 0; n && shape < kWideShapes; ++shape) {
      if (!VF_BEGIN("size " + std::to_string(n) + ", shape " + std::to_string(shape))) continue;
      vf::NonTrivial();
      World w = Wide(n, shape);
      w.extras = true;
      disk.Write(w);
      for (int d : depths) {
        Check(w, pats[0], d);
        Check(w, pats[1], d);
        Check(w, pats[4], d);
        Check(w, pats[7], d);
      }
    }
  }
  // -- Names of directories and files similar to ones with a meaning.
  {
    Strs names = {"...x", "..x", ".x", "x.", "a b", "external", "bazel", "BUILD", "__pkg__", "all", "tmp", "cache", "git"};
    for (const std::string &special : Strs{".git", "_tmp", ".cache"}) {
      for (const std::string &add : Strs{"h", "_", ".", "x", "2", " "}) names.push_back(special + add), names.push_back(add + special);
      for (size_t i = 0; i < special.size(); ++i) {
        std::string s = special;
        s[i] = 'X';
        names.push_back(s);
        names.push_back(special.substr(0, i) + special.substr(i + 1));
      }
    }
    const Strs no_build = {"BUILD.bzl", "BUILD.bazel.in", "xBUILD", "x.BUILD", "build", "BUILD.Bazel", "BUILD~", ".BUILD", "BUILD.", "BUILD.BUILD"};
    for (const std::string &name : names) {
      if (!VF_BEGIN("package directory " + name)) continue;
      vf::NonTrivial();
      const std::string root = fs::absolute(vf::S().out).string() + "/lst." + std::to_string(vf::S().shard) + "n";
      fs::remove_all(root);
      fs::create_directories(root);
      if (chdir(root.c_str()) != 0) vf::Fail("chdir", root);
      auto put = [](const std::string &f, const std::string &c) {
        fs::create_directories(fs::path(f).parent_path());
        std::ofstream(f) << c;
      };
      std::ofstream("WORKSPACE") << "";
      const std::string rule = "cc_library(name = \"t\", hdrs = [\"t.h\"])\n";
      Strs pkgs_want, targets_want, headers_want;
      for (const std::string &dir : {name, "p/" + name, name + "/p"}) {
        const std::string file = dir + (dir == name ? "/BUILD.bazel" : "/BUILD");
        put(file, rule);
        pkgs_want.push_back(file + "|//" + dir);
        headers_want.push_back(dir + "/t.h|//" + dir + ":t");
      }
      for (const std::string &no : no_build) put("q/" + name + "/" + no, rule);
      auto run = [&](const Strs &args, Strs want) {
        Strs got = cli::CsvRows(args);
        for (auto &g : got)
          if (g.starts_with("./")) g = g.substr(2);
        vf::Transition(got.size());
        vf::Count("evaluations");
        if (Sorted(got) != Sorted(want)) vf::Fail("names", cli::Join(args, " ") + ": got " + cli::Join(Sorted(got)) + " want " + cli::Join(Sorted(want)));
      };
      run({"list-packages", "//..."}, pkgs_want);
      run({"list-packages"}, pkgs_want);
      run({"lib-headers", "//..."}, headers_want);
      run({"list-packages", "//p/..."}, {pkgs_want[1]});
      run({"list-packages", "//" + name + ":all"}, {pkgs_want[0]});
      run({"lib-headers", "//p/" + name + ":t"}, {headers_want[1]});
      if (name != "all") run({"lib-headers", "//" + name + "/..."}, {headers_want[0], headers_want[2]});
      if (chdir("/") != 0) return 2;
      fs::remove_all(root);
    }
  }
  return vf::Finish();
}
