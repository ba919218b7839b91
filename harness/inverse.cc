// Explorer: the commands depends-on, has-dependents and aliased-by on all small
// graphs of targets.
#include "bant/explore/aliased-by.h"
#include "bt.h"
#include "cli.h"
#include "graphs.h"

using namespace graphs;

static bool BySource(const World &w, int i, bool loaded_initially) {
  // Only loaded on demand are BUILD files elaborated without -e.
  return !(w.t[i].style == kConcat && loaded_initially && w.t[i].deps.size() > 1);
}

static Strs Sorted(Strs v) {
  std::sort(v.begin(), v.end());
  return v;
}

static void Compare(const World &w, const std::string &what, const Strs &got, const Strs &want,
                    const cli::Result &r, const std::string &header, const std::string &want_header) {
  vf::Count("evaluations");
  vf::Transition();
  vf::SeeState(cli::Join(Sorted(want)));
  if (Sorted(got) != Sorted(want) || r.status != 0 || header != want_header) {
    vf::Fail(what.substr(0, what.find(' ')),
             what + " " + w.Desc() + " got " + cli::Join(Sorted(got)) + " want " +
               cli::Join(Sorted(want)) + " header " + header + " status " + std::to_string(r.status));
  }
}

static void Check(const World &w, const Pattern &p, bool elaborate) {
  bant::CommandlineFlags fl;
  fl.elaborate = elaborate;
  auto args = [&](const char *cmd) {
    Strs a = {cmd};
    if (!p.text.empty()) a.push_back(p.text);
    return a;
  };
  cli::Result r;
  std::string h;
  auto known = [&](int i) { return elaborate || BySource(w, i, true); };
  {  // Direct dependencies of all matching targets.
    const Strs got = cli::CsvRows(args("depends-on"), fl, &r, &h);
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      if (!w.Defined(i) || !p.Match(w, i) || !known(i)) continue;
      for (int d : w.Edges(i)) want.push_back(w.Canon(i) + "|" + w.Canon(d));
    }
    Compare(w, "depends-on " + p.text, got, want, r, h, "library|depends-on");
  }
  // Everything in the main project.
  const Pattern everything{"", "", "", true, "*"};
  const Reach all = Expected(w, everything, 1 << 30);
  {  // All direct dependents, wherever they are.
    const Strs got = cli::CsvRows(args("has-dependents"), fl, &r, &h);
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      if (!p.text.empty() && !p.Match(w, i)) continue;
      auto found = all.has_dependents.find(w.Canon(i));
      if (found == all.has_dependents.end()) continue;
      for (auto &d : found->second) want.push_back(w.Canon(i) + "|" + d);
    }
    Compare(w, "has-dependents " + p.text, got, want, r, h, "library|has-dependent");
  }
  {  // Aliases in BUILD files the pattern selects.
    const Strs got = cli::CsvRows(args("aliased-by"), fl, &r, &h);
    Strs want;
    for (size_t i = 0; i < w.t.size(); ++i) {
      if (w.t[i].style != kAlias || !w.Defined(i) || w.t[i].deps.empty()) continue;
      if (!p.MatchPkg(w.pkgs[w.t[i].pkg])) continue;
      const int actual = w.t[i].deps[0];
      if (!p.text.empty() && !p.Match(w, actual)) continue;
      want.push_back(w.Canon(actual) + "|" + w.Canon(i));
    }
    Compare(w, "aliased-by " + p.text, got, want, r, h, "actual|aliased-by");
  }
  // With -r: everything reachable is printed.
  for (int depth : {1, 1 << 30}) {
    fl.recurse_dependency_depth = depth;
    const Reach reach = Expected(w, p, depth);
    const Strs got = cli::CsvRows(args("depends-on"), fl, &r, &h);
    Strs want;
    for (auto &[k, v] : reach.depends_on) {
      for (auto &d : v) want.push_back(k + "|" + d);
    }
    bool all_known = true;
    for (size_t i = 0; i < w.t.size(); ++i) all_known &= known(i);
    if (all_known) Compare(w, "depends-on-recursive " + p.text, got, want, r, h, "library|depends-on");
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  Disk disk(fs::absolute(vf::S().out).string() + "/inv." + std::to_string(vf::S().shard));
  const bool th = vf::Thorough();
  const std::vector<Pkg> pkgs = {{"", ""}, {"", "a"}, {"", "a/b"}, {"@foo", "x"}};
  const std::vector<Pattern> pats = {
    {"", "", "", true, "*"},
    {"//a/...", "", "a", true, "*"},
    {"//a:all", "", "a", false, "*"},
    {"//:t0", "", "", false, "t0"},
    {"//a:t1", "", "a", false, "t1"},
    {"//a/b:*", "", "a/b", false, "*"},
  };
  const Strs names = {"t0", "t1", "a", "b"};
  const std::vector<std::vector<int>> places = {
    {0, 0, 0}, {0, 1, 2}, {1, 1, 1}, {1, 1, 2}, {2, 1, 0}, {0, 1, 1}, {1, 0, 3}};
  const int nplaces = th ? places.size() : 3;
  for (int pi = 0; pi < nplaces; ++pi) {
    const auto &place = places[th ? pi : pi == 0 ? 1 : pi == 1 ? 3 : 6];
    for (int st = 0; st < 64; ++st) {
      // Styles: plain, concat, alias, undefined.
      static const int style[] = {kPlain, kConcat, kAlias, kUndefined};
      const int s[3] = {style[st % 4], style[st / 4 % 4], style[st / 16]};
      if (!VF_BEGIN("3 targets, styles " + std::string(kStyle[s[0]]) + " " + kStyle[s[1]] + " " +
                    kStyle[s[2]] + " placed " + std::to_string(place[0]) + std::to_string(place[1]) +
                    std::to_string(place[2]))) {
        continue;
      }
      vf::NonTrivial();
      for (int g = 0; g < 512; ++g) {
        World w;
        w.pkgs = pkgs;
        w.pkg_state.assign(pkgs.size(), kBuild);
        for (int i = 0; i < 3; ++i) {
          w.t.push_back({place[i], names[i], s[i], Bits(g >> (3 * i) & 7, 3)});
        }
        w.noise = g % 40;
        disk.Write(w);
        for (const Pattern &p : pats) {
          bool any = p.text.empty();
          for (int i = 0; i < 3; ++i) any |= p.Match(w, i);
          if (!any) continue;
          const bool concat = s[0] == kConcat || s[1] == kConcat || s[2] == kConcat;
          Check(w, p, concat);
        }
      }
    }
  }
  // Four targets: two aliases of an alias, diamonds; all placements in 3 packages.
  bool skip = false;
  for (int pl = 0; pl < 81; ++pl) {
    if (!th && pl % 9 != 3) continue;  // place of the others varies
    for (int g = 0; g < 4096; ++g) {
      if (g % 256 == 0) {
        skip = !VF_BEGIN("4 targets, one alias, placement " + std::to_string(pl) + " graphs " + std::to_string(g));
        if (!skip) vf::NonTrivial();
      }
      if (skip) continue;
      World w;
      w.pkgs = pkgs;
      w.pkg_state.assign(pkgs.size(), kBuild);
      const int place[4] = {pl % 3, pl / 3 % 3, pl / 9 % 3, pl / 27};
      for (int i = 0; i < 4; ++i) {
        std::vector<int> d;
        int bit = 3 * i;
        for (int k = 0; k < 4; ++k) {
          if (k == i) continue;
          if (g >> bit & 1) d.push_back(k);
          ++bit;
        }
        w.t.push_back({place[i], names[i], i >= 2 ? (int)kAlias : (int)kPlain, d});
      }
      w.noise = g % 3 ? 0 : (g + pl) % 40;
      disk.Write(w);
      Check(w, pats[0], false);
      if (!th) continue;
      for (const Pattern &p : pats) Check(w, p, false);
    }
  }
  // Long chains of packages, continued in an external project, where the
  // program only gets by following dependencies.
  const int kMaxChain = th ? 24 : 12;
  Strs paths;
  for (int i = 0; i <= kMaxChain; ++i) paths.push_back("c" + std::to_string(i));
  for (int len = 3; len <= kMaxChain; ++len) {
    for (int ext_from = 0; ext_from <= len; ++ext_from) {
      if (!VF_BEGIN("chain of " + std::to_string(len) + " packages, external from " + std::to_string(ext_from))) continue;
      vf::NonTrivial();
      for (int shape = 0; shape < 3; ++shape) {
        World w;
        for (int i = 0; i < len; ++i) {
          w.pkgs.push_back({i >= ext_from ? "@foo" : "", paths[i].c_str()});
          w.pkg_state.push_back(kBuild);
          World::Target t{i, "t0", kPlain, {}};
          if (i + 1 < len) t.deps.push_back(i + 1);
          if (shape == 1) t.style = i % 2 ? kAlias : kPlain;
          if (shape == 2 && i > 0) t.deps.push_back(i - 1);
          w.t.push_back(t);
        }
        disk.Write(w);
        Check(w, pats[0], false);
        for (int at : {0, ext_from - 1, ext_from, len - 1}) {
          if (at < 0 || at >= len) continue;
          const std::string project = at >= ext_from ? "@foo" : "";
          const Pattern p = {project + "//" + paths[at] + ":t0", project, paths[at], false, "t0"};
          Check(w, p, false);
        }
      }
    }
  }
  // -- Dependencies listed repeatedly: all sequences, in two targets.
  std::vector<std::vector<int>> seqs = {{}};
  for (size_t i = 0; i < seqs.size(); ++i) {
    if (seqs[i].size() == (th ? 4 : 3)) continue;
    for (int k = 0; k < 3; ++k) {
      seqs.push_back(seqs[i]);
      seqs.back().push_back(k);
    }
  }
  for (size_t a = 0; a < seqs.size(); ++a) {
    for (int pl = 0; pl < 3; ++pl) {
      if (!VF_BEGIN("repeated dependencies, first " + std::to_string(a) + " placed " + std::to_string(pl))) continue;
      vf::NonTrivial();
      for (size_t b = 0; b < seqs.size(); ++b) {
        World w;
        w.pkgs = pkgs;
        w.pkg_state.assign(pkgs.size(), kBuild);
        const int place[] = {1, pl == 0 ? 1 : 0, pl == 2 ? 2 : 1};
        for (int i = 0; i < 3; ++i) w.t.push_back({place[i], names[i], kPlain, i == 0 ? seqs[a] : i == 1 ? seqs[b] : std::vector<int>{}});
        w.noise = (a + b) % 5 ? 0 : (a + b) % 40;
        disk.Write(w);
        Check(w, pats[0], false);
        if (th || b % 4 == 0) Check(w, {"//a:all", "", "a", false, "*"}, false);
      }
    }
  }
  // -- Many targets, many packages.
  for (int n : vf::Sizes(th ? 1030 : 260)) {
    for (int shape = 0; n && shape < kWideShapes; ++shape) {
      if (!VF_BEGIN("size " + std::to_string(n) + ", shape " + std::to_string(shape))) continue;
      vf::NonTrivial();
      World w = Wide(n, shape);
      disk.Write(w);
      Check(w, {"", "", "", true, "*"}, false);
      Check(w, {"//a:t0", "", "a", false, "t0"}, false);
      Check(w, {"//a:all", "", "a", false, "*"}, false);
    }
  }
  return vf::Finish();
}
