// Explorer: patterns and visibility against all targets of a universe.
#include <iostream>
#include <sstream>

#include "bant/types-bazel.h"
#include "common.h"
#include "labels_ref.h"

using bant::BazelPackage;
using bant::BazelPattern;
using bant::BazelTarget;
using lref::Label;
using lref::Pkg;
using Strs = std::vector<std::string>;

static std::string Str(const Label &t) { return lref::Print(t); }
static bool Below(const std::string &p, const std::string &top) {
  return top.empty() || p == top || (p.size() > top.size() && p.compare(0, top.size(), top) == 0 && p[top.size()] == '/');
}
static bool Star(std::string_view p, std::string_view s) {
  if (p.empty()) return s.empty();
  if (p[0] == '*') {
    for (size_t i = 0; i <= s.size(); ++i)
      if (Star(p.substr(1), s.substr(i))) return true;
    return false;
  }
  return !s.empty() && p[0] == s[0] && Star(p.substr(1), s.substr(1));
}

struct Pat {
  enum K { kEverything, kExact, kPackage, kRecursive, kGlob } kind;
  Label l;
  bool Matches(const Label &t) const {
    switch (kind) {
    case kEverything: return true;
    case kExact: return t == l;
    case kPackage: return t.pkg == l.pkg;
    case kRecursive: return t.pkg.project == l.pkg.project && Below(t.pkg.path, l.pkg.path);
    case kGlob: return t.pkg == l.pkg && Star(l.name, t.name);
    }
    return false;
  }
  bool Matches(const Pkg &p) const {
    if (kind == kEverything) return true;
    if (kind == kRecursive) return p.project == l.pkg.project && Below(p.path, l.pkg.path);
    return p == l.pkg;
  }
};
// Meaning of documented pattern forms; nothing if not one of these.
static std::optional<Pat> RefPattern(const std::string &s, const Pkg &ctx) {
  Label l;
  if (s.ends_with("...")) {
    const std::string head = s.substr(0, s.size() - 3);
    if (head.find("...") != std::string::npos) return std::nullopt;
    if (head.empty()) return Pat{Pat::kRecursive, {{ctx.project, ctx.path}, ""}};
    if (!head.ends_with("/") || head.find(':') != std::string::npos) return std::nullopt;
    if (lref::Parse(head + "x", {ctx.project, ""}, &l) != lref::kWellFormed) return std::nullopt;
    if (head.find('/') == std::string::npos) return std::nullopt;
    std::string p = l.pkg.path;  // something/x
    p = p == "x" ? "" : p.substr(0, p.size() - 2);
    return Pat{Pat::kRecursive, {{l.pkg.project, p}, ""}};
  }
  if (s.find("...") != std::string::npos) return std::nullopt;
  if (lref::Parse(s, ctx, &l) != lref::kWellFormed) return std::nullopt;
  if (l.pkg.path.find('*') != std::string::npos) return std::nullopt;
  if (l.pkg.project.find('*') != std::string::npos) return std::nullopt;
  if (l.name == "all" || l.name == "*" || l.name == "__pkg__") {
    // //foo/all is target "all" of package foo/all in this notation.
    if (s.find(':') == std::string::npos && s.find('/') != std::string::npos) return std::nullopt;
    return Pat{Pat::kPackage, l};
  }
  if (l.name == "__subpackages__") {
    if (s.find(':') == std::string::npos && s.find('/') != std::string::npos) return std::nullopt;
    return Pat{Pat::kRecursive, l};
  }
  if (l.name.find('*') != std::string::npos) return Pat{Pat::kGlob, l};
  return Pat{Pat::kExact, l};
}

static std::vector<Label> universe;
static std::vector<BazelTarget> targets;

static void Compare(const std::string &what, const BazelPattern &pattern, const Pat &want) {
  vf::SeeState(std::to_string(want.kind) + Str(want.l));
  for (size_t i = 0; i < universe.size(); ++i) {
    const bool got = pattern.Match(targets[i]);
    if (got != want.Matches(universe[i])) {
      vf::Fail("target-match", what + (got ? " matches " : " does not match ") + Str(universe[i]));
      return;
    }
    if (pattern.Match(targets[i].package) != want.Matches(universe[i].pkg)) {
      vf::Fail("package-match", what + " and package of " + Str(universe[i]));
      return;
    }
  }
  vf::Count("evaluations", universe.size());
  const bool rec = want.kind == Pat::kRecursive || want.kind == Pat::kEverything;
  if (pattern.is_recursive() != rec) vf::Fail("is-recursive", what);
  if (pattern.is_matchall() != (want.kind == Pat::kEverything)) vf::Fail("is-matchall", what);
  if (want.kind != Pat::kEverything && (pattern.path() != want.l.pkg.path || pattern.project() != want.l.pkg.project))
    vf::Fail("path", what + ": " + pattern.project() + " " + pattern.path());
  // Copies are the same.
  const BazelPattern copy = pattern;
  for (size_t i = 0; i < universe.size(); i += 7)
    if (copy.Match(targets[i]) != want.Matches(universe[i])) vf::Fail("copy", what);
}

static void CheckPattern(const std::string &s) {
  const auto got = BazelPattern::ParseFrom(s);
  const auto want = RefPattern(s, {"", ""});
  vf::Transition();
  if (std::count(s.begin(), s.end(), ':') > 1 && got) vf::Fail("accepted", "'" + s + "'");
  if (!want) {
    if (got) {
      for (auto &t : targets) (void)got->Match(t);
    }
    return;
  }
  if (!got) {
    vf::Fail("rejected", "'" + s + "'");
    return;
  }
  Compare("'" + s + "'", *got, *want);
}

static void CheckVisibility(const std::string &s, const Pkg &c) {
  const auto got = BazelPattern::ParseVisibility(s, BazelPackage(c.project, c.path));
  std::optional<Pat> want;
  if (s == "//visibility:public") want = Pat{Pat::kEverything, {}};
  else if (s == "//visibility:private") want = Pat{Pat::kPackage, {c, ""}};
  else if (s.ends_with("__pkg__") || s.ends_with("__subpackages__")) {
    want = RefPattern(s, c);
    if (want && want->kind != Pat::kPackage && want->kind != Pat::kRecursive) want.reset();
  } else if (!s.ends_with("...") && !s.ends_with("__")) {
    want = Pat{Pat::kEverything, {}};  // unknown package group
  }
  if (!want) return;
  if (!got) {
    vf::Fail("visibility-rejected", s + " in " + c.project + "//" + c.path);
    return;
  }
  Compare("visibility " + s + " in " + c.project + "//" + c.path, *got, *want);
}

template <typename F>
static void Sequences(const Strs &toks, int depth, std::string cur, int batch, const F &f) {
  if (batch == 0) {
    if (VF_BEGIN("starting with '" + cur + "'")) {
      std::function<void(const std::string &, int)> rec = [&](const std::string &s, int d) {
        f(s);
        if (d == 0) return;
        for (auto &t : toks) rec(s + t, d - 1);
      };
      rec(cur, depth);
      vf::NonTrivial();
    }
    return;
  }
  if (VF_BEGIN("'" + cur + "'")) f(cur);
  for (auto &t : toks) Sequences(toks, depth - 1, cur + t, batch - 1, f);
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const bool thorough = vf::Thorough();
  static std::stringstream &err = *new std::stringstream;
  std::cerr.rdbuf(err.rdbuf());
  auto add = [&](const Label &l) {
    universe.push_back(l);
    targets.push_back(*BazelPackage(l.pkg.project, l.pkg.path).QualifiedTarget(l.name));
  };
  for (std::string project : {"", "@r", "@rr"})
    for (std::string path : {"", "a", "b", "ab", "a/b", "a/ab", "a/b/a", "b/a", "a.b", "a/b/a/b", "aa"})
      for (std::string name : {"a", "b", "ab", "a.b", "axb", "aab", "b/a", "all", "r"}) add({{project, path}, name});
  Sequences({"//", "/", ":", "a", "b", "@r", "...", "all", "*", "__pkg__", "__subpackages__", "."}, thorough ? 6 : 5, "", 2, CheckPattern);
  if (VF_BEGIN("default pattern")) {
    Compare("default", BazelPattern(), Pat{Pat::kEverything, {}});
    vf::NonTrivial();
  }
  // Visibility
  for (auto &c : std::vector<Pkg>{{"", ""}, {"", "a"}, {"", "a/b"}, {"@r", ""}, {"@r", "a"}}) {
    const std::string in = " in " + c.project + "//" + c.path;
    if (VF_BEGIN("named visibilities" + in)) {
      for (auto v : {"//visibility:public", "//visibility:private", "//a:group", ":group", "//a/b"}) CheckVisibility(v, c);
      vf::NonTrivial();
    }
    Sequences({"//", "/", ":", "a", "b", "@r", "__pkg__", "__subpackages__", "@"}, thorough ? 6 : 5, "", 1,
              [&](const std::string &s) { CheckVisibility(s, c); });
  }
  // Long and deep ones
  {
    const auto saved_universe = universe;
    const auto saved_targets = targets;
    for (int n : vf::Sizes(thorough ? 10000 : 2100)) {
      if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
      universe.clear();
      targets.clear();
      const std::string a = vf::Times("a", n), deep = vf::Times("d/", n - 1) + "d";
      for (const std::string &path : std::vector<std::string>{a, a + "a", a.substr(1), deep, deep + "/d", deep + "d", deep.substr(2 * (n > 1)), "x/" + a})
        for (const std::string &name : std::vector<std::string>{std::string("x"), a, a + "x", "x" + a, a + "a", vf::Times("x", n), vf::Times("b/", n) + "x"})
          for (const char *project : {"", "@r"}) add({{project, path}, name});
      for (const std::string &path : std::vector<std::string>{a, deep, "x/" + a}) {
        for (const char *project : {"", "@r"}) {
          for (const std::string &rest : std::vector<std::string>{std::string(":x"), std::string(":all"), std::string(":*"), std::string("/..."), ":" + a, ":" + a + "*", ":*" + a, ":*" + a + "*", ":x*" + a, vf::Times("x", n), "/x/...", ":" + vf::Times("b/", n) + "x", ":b*x"})
            CheckPattern(std::string(project) + "//" + path + rest);
        }
      }
      vf::NonTrivial();
    }
    universe = saved_universe;
    targets = saved_targets;
  }
  // Name patterns: everything but * is literal.
  {
    universe.clear();
    targets.clear();
    std::vector<std::string> names = {""};
    for (int i = 0; i < 4; ++i) {
      std::vector<std::string> next;
      for (auto &n : names)
        for (const char *c : {"a", "b", ".", "+", "-"})
          if (n.size() == (size_t)i) next.push_back(n + c);
      for (auto &n : next)
        if (n.size() < 4 || thorough || n[0] == 'a') add({{"", "p"}, n});
      names = next;
    }
    add({{"", "p/q"}, "a"});
    add({{"@r", "p"}, "a"});
    Sequences({"a", "b", ".", "*", "+", "("}, 3, "//p:", 2, [&](const std::string &s) { CheckPattern(s); });
    if (thorough) Sequences({"a", ".", "*", "[a", "|", "^"}, 5, "//p:", 2, [&](const std::string &s) { CheckPattern(s); });
    universe.clear();
    targets.clear();
    for (int c = 33; c < 127; ++c) {
      if (strchr("/:@", c)) continue;
      const std::string s(1, (char)c);
      for (std::string n : {s, s + s, "x" + s, s + "x", "x" + s + "y", s + "x" + s}) add({{"", "p"}, n});
    }
    for (int c = 33; c < 127; ++c) {
      if (strchr("/:@", c)) continue;
      const std::string s(1, (char)c);
      if (!VF_BEGIN("character " + s)) continue;
      for (std::string p : {s, "*" + s, s + "*", "*" + s + "*", "x*" + s, s + "*" + s, "*x" + s + "*", "**" + s, s + "**x"}) CheckPattern("//p:" + p);
      vf::NonTrivial();
    }
  }
  return vf::Finish();
}
