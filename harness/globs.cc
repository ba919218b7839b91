// Explorer: glob() patterns, include/exclude, directory pruning, and the
// expansion over real directory trees.
#include <algorithm>
#include <filesystem>
#include <fstream>

#include "bt.h"
#include "bant/util/glob-match-builder.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

static Strs Split(const std::string &s) {
  Strs r(1);
  for (char c : s) {
    if (c == '/') r.emplace_back();
    else r.back() += c;
  }
  return r;
}
// -- Reference: segment-wise.
static bool SegMatch(std::string_view p, std::string_view s) {
  if (p.empty()) return s.empty();
  if (p[0] == '*') {
    for (size_t i = 0; i <= s.size(); ++i)
      if (SegMatch(p.substr(1), s.substr(i))) return true;
    return false;
  }
  return !s.empty() && p[0] == s[0] && SegMatch(p.substr(1), s.substr(1));
}
static bool RefMatch(const Strs &p, size_t pi, const Strs &s, size_t si) {
  if (pi == p.size()) return si == s.size();
  if (p[pi] == "**") {
    if (pi + 1 == p.size()) return si < s.size();  // anything below.
    for (size_t i = si; i <= s.size(); ++i)
      if (RefMatch(p, pi + 1, s, i)) return true;
    return false;
  }
  return si < s.size() && SegMatch(p[pi], s[si]) && RefMatch(p, pi + 1, s, si + 1);
}
static bool RefMatch(const std::string &p, const std::string &s) {
  return RefMatch(Split(p), 0, Split(s), 0);
}

// All paths of up to "depth" segments.
static Strs Paths(const Strs &segs, int depth) {
  Strs all, last = {""};
  for (int d = 0; d < depth; ++d) {
    Strs next;
    for (auto &l : last)
      for (auto &s : segs) next.push_back(l.empty() ? s : l + "/" + s);
    all.insert(all.end(), next.begin(), next.end());
    last = std::move(next);
  }
  return all;
}
static std::string Show(const Strs &v) {
  std::string r;
  for (auto &s : v) r += (r.empty() ? "" : ", ") + s;
  return "[" + r + "]";
}

static void CheckPatterns(const Strs &inc, const Strs &exc, const Strs &universe) {
  bant::GlobMatchBuilder b;
  for (auto &p : inc) b.AddIncludePattern(p);
  for (auto &p : exc) b.AddExcludePattern(p);
  auto file = b.BuildFileMatchPredicate();
  auto dir = b.BuildDirectoryMatchPredicate();
  for (auto &s : universe) {
    bool in = false, ex = false;
    for (auto &p : inc) in |= RefMatch(p, s);
    for (auto &p : exc) ex |= RefMatch(p, s);
    const bool want = in && !ex;
    vf::Transition();
    if (file(s) != want) {
      vf::Fail("file-match", "path '" + s + "' " + (want ? "not matched" : "matched"));
      return;
    }
    if (want) {
      for (size_t i = s.find('/'); i != std::string::npos; i = s.find('/', i + 1)) {
        if (!dir(s.substr(0, i))) {
          vf::Fail("dir-pruned", "directory '" + s.substr(0, i) + "' not visited, but '" + s + "' matches");
          return;
        }
      }
    }
    vf::SeeState(s);
  }
  vf::Count("evaluations", universe.size());
  vf::NonTrivial();
}

static std::string Quote(const Strs &v) {
  std::string r;
  for (auto &s : v) r += (r.empty() ? "" : ", ") + ("\"" + s + "\"");
  return "[" + r + "]";
}

// Expand in a real tree.
static void CheckTree(const std::string &dir, const std::string &pkg, const Strs &files,
                      const std::vector<std::pair<Strs, Strs>> &globs) {
  fs::remove_all(dir);
  const std::string base = dir + (pkg.empty() ? "" : "/" + pkg);
  fs::create_directories(base);
  fs::create_directories(base + "/empty/b");  // directories are never results
  for (auto &f : files) {
    fs::create_directories(fs::path(base + "/" + f).parent_path());
    std::ofstream(base + "/" + f) << "x";
  }
  // Outside of package
  if (!pkg.empty()) std::ofstream(dir + "/a") << "x";
  if (chdir(dir.c_str()) != 0) exit(2);
  for (auto &[inc, exc] : globs) {
    Strs want;
    for (auto &f : files) {
      bool in = false, ex = false;
      for (auto &p : inc) in |= RefMatch(p, f);
      for (auto &p : exc) ex |= RefMatch(p, f);
      if (in && !ex) want.push_back(f);
    }
    std::sort(want.begin(), want.end());
    const std::string i = Quote(inc), e = Quote(exc);
    Strs calls = {
      "glob(" + i + ", " + e + ")", "glob(include = " + i + ", exclude = " + e + ")",
      "glob(exclude = " + e + ", include = " + i + ")", "glob(" + i + ", exclude = " + e + ")",
      "glob(INC, EXC)", "glob(exclude_directories = 0, include = INC, exclude = EXC)",
      "glob(" + i + ", EXC, allow_empty = True)", "glob(INC, exclude = EXC + [])",
      "glob([] + INC, exclude = [] + EXC)",
    };
    if (exc.empty()) {
      calls.push_back("glob(" + i + ")");
      calls.push_back("glob(include = INC)");
      calls.push_back("glob(INC, allow_empty = True)");
    }
    // Nothing is known to be included
    const size_t known = calls.size();
    calls.insert(calls.end(), {
      "glob(UNKNOWN, " + i + ")", "glob(UNKNOWN, INC, " + i + ")", "glob(fun(), INC)",
      "glob(include = UNKNOWN, exclude = " + i + ")", "glob(exclude = INC)",
      "glob(exclude = " + i + ", include = fun(" + i + "))", "glob(allow_empty = INC, exclude = INC)",
      "glob()", "glob(UNKNOWN if UNKNOWN else INC, INC)",
    });
    for (size_t ci = 0; ci < calls.size(); ++ci) {
      const std::string &c = calls[ci];
      const std::string text = "INC = " + i + "\nEXC = " + e + "\nx(name = \"x\", srcs = " + c +
                               ", hdrs = glob([]))\n";
      bant::ParsedProjectTestUtil util;
      const bant::ParsedBuildFile *f = util.Add("//" + pkg, text);
      if (!f) {
        vf::Fail("input", "no file");
        return;
      }
      std::stringstream out, info;
      bant::Session session(&out, &info, bant::CommandlineFlags{});
      bant::Elaborate(session, &util.project());
      std::string w = "[list";
      if (ci < known) {
        for (auto &p : want) w += " '" + vf::Esc(p) + "'";
      }
      w += "]";
      const std::string got = bt::Dump(f->ast);
      const std::string full = "(= srcs " + w + ") (= hdrs [list])";
      vf::Count("evaluations");
      vf::SeeState(w);
      if (got.find(full) == std::string::npos) {
        vf::Fail("expansion", c + " in //" + pkg + "\nwant " + full + "\ngot " + got);
        return;
      }
    }
  }
  vf::NonTrivial();
  if (chdir("/") != 0) exit(2);
  fs::remove_all(dir);
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const bool thorough = vf::Thorough();
  const Strs psegs = {"a", "b", "*", "a*", "*a", "*b*", "a*b", "**", "a.b", "*.b", "*.*", "a+*", "ab"};
  const Strs usegs = {"a", "b", "ab", "a.b", "axb", "ba", "a+", "x"};
  // Long names, deep paths, many patterns.
  for (int n : vf::Sizes(thorough ? 5000 : 1100)) {
    if (!VF_BEGIN("size " + std::to_string(n))) continue;
    const std::string a = vf::Times("a", n), dirs = vf::Times("d/", n);
    const Strs names = {a + "x", a + "y", a + "ax", a, a + "/x", "x", "x/" + a + "y", "x/y", dirs + "x", dirs + "d/x", "d/x", dirs + "y", dirs + "d/d", "y", dirs + "x/x"};
    Strs literal, stars, universe;
    for (auto &s : names) {
      if (!s.empty() && s[0] != '/' && s.back() != '/') universe.push_back(s);
    }
    for (int i = 0; i < n; ++i) {
      literal.push_back("d/f" + std::to_string(i));
      stars.push_back("e/g" + std::to_string(i) + ".*");
    }
    for (int i : {0, 1, n / 2, n - 1, n, n + 1}) {
      if (i < 0) continue;
      universe.push_back("d/f" + std::to_string(i));
      universe.push_back("e/g" + std::to_string(i) + ".h");
      universe.push_back("e/g" + std::to_string(i) + "xh");
    }
    for (const std::string &p : Strs{a + "x", a + "*", "*" + a + "y", "*/" + a + "y", dirs + "x", dirs + "*", "**/x", "d/**", vf::Times("*/", n) + "x", "**/" + a + "y", dirs + "**/x", "x/*" + a + "*"}) {
      CheckPatterns({p}, {}, universe);
      CheckPatterns({"**"}, {p}, universe);
    }
    if (n > 0) {
      CheckPatterns(literal, {}, universe);
      CheckPatterns({"**"}, literal, universe);
      CheckPatterns(stars, literal, universe);
      CheckPatterns(stars, stars, universe);
      Strs both = literal;
      both.insert(both.end(), stars.begin(), stars.end());
      CheckPatterns(both, {"d/f0"}, universe);
      both.push_back("**/x");
      CheckPatterns(both, {}, universe);
    }
  }
  // One pattern, all paths.
  {
    const Strs universe = Paths(usegs, thorough ? 4 : 3);
    for (auto &p : Paths(psegs, 3)) {
      if (VF_BEGIN("pattern " + p)) CheckPatterns({p}, {}, universe);
    }
    const Strs deep = Paths({"a", "b", "ab", "a.b"}, 5);
    for (auto &p : Paths({"a", "*", "**", "*b", "b"}, thorough ? 6 : 5)) {
      if (VF_BEGIN("pattern " + p + " (deep)")) CheckPatterns({p}, {}, deep);
    }
  }
  // Pairs
  {
    const Strs universe = Paths({"a", "b", "ab", "a.b"}, 3);
    Strs pats = Paths({"a", "b", "*", "a*", "**", "*b", "a.b"}, 2);
    for (auto p : {"**/a/b", "a/**/b", "a/*/b", "*/*/*", "**/*/a", "a/b/**", "**/**/a", "a/**/**"}) pats.push_back(p);
    for (auto &p : pats) {
      for (auto &q : pats) {
        if (VF_BEGIN("include " + p + " exclude " + q)) CheckPatterns({p}, {q}, universe);
        if (p < q && VF_BEGIN("include " + p + ", " + q)) CheckPatterns({p, q}, {}, universe);
      }
    }
    // Two includes, two excludes.
    Strs small = {"a", "*", "**", "a/*", "*/b", "**/a", "a/**", "a/b", "a.b", "*.b"};
    const Strs su = Paths({"a", "b", "a.b"}, 3);
    if (thorough) small.insert(small.end(), {"a/**/b", "**/*.b", "*/a/b", "**/b/*"});
    for (size_t i = 0; i < small.size(); ++i)
      for (size_t j = i; j < small.size(); ++j)
        for (size_t k = 0; k < small.size(); ++k)
          for (size_t l = k; l < small.size(); ++l)
            if (VF_BEGIN("include " + small[i] + ", " + small[j] + " exclude " + small[k] + ", " + small[l]))
              CheckPatterns({small[i], small[j]}, {small[k], small[l]}, su);
  }
  // All bytes are literal.
  {
    Strs universe;
    for (int c = 1; c < 256; ++c) {
      if (c == '/') continue;
      std::string s(1, (char)c);
      for (std::string u : {s, "q" + s, s + "q", s + s, "q/" + s, s + "/q"}) universe.push_back(u);
    }
    for (auto u : {"q", "qq", "q/q", "qn", "\xc3\xa4", "q\xc3\xa4q"}) universe.push_back(u);
    for (int c = 1; c < 256; ++c) {
      if (c == '/' || c == '*') continue;
      std::string s(1, (char)c);
      for (std::string p : {s, s + "*", "*" + s, "*" + s + "*", "**/" + s + "*", "*/" + s, s + "/*",
                            "**/" + s, s + "/**", "*" + s + s}) {
        if (VF_BEGIN("pattern " + vf::Esc(p))) CheckPatterns({p}, {}, universe);
        if (VF_BEGIN("include ** exclude " + vf::Esc(p))) CheckPatterns({"**"}, {p}, universe);
      }
      if (VF_BEGIN("include " + vf::Esc(s) + "*, a* exclude b" + vf::Esc(s) + "*"))
        CheckPatterns({s + "*", "q*"}, {"q" + s + "*"}, universe);
    }
  }
  // Real trees.
  {
    const std::string dir = vf::S().out + "/tree." + std::to_string(vf::S().shard) + "." +
                            std::to_string(vf::S().only);
    const Strs files = {"a", "ab.c", "d/a", "d/ab.c", "d/e/a", "f/g.c", "d/.h", "empty/z"};
    std::vector<std::pair<Strs, Strs>> globs;
    const Strs pats = {"a", "*", "**", "*.c", "**/*.c", "d/*", "d/**", "**/a", "*/a", "d/**/a", "*/*/*", "d/e/a", "empty/**"};
    for (auto &p : pats) globs.push_back({{p}, {}});
    for (auto &p : pats)
      for (auto q : {"a", "**/a", "d/**", "*.c", "*/*", "d/*", "*", "d", "d/e", "d/e/*", "d/*/*", "**/e/**"}) globs.push_back({{p}, {q}});
    globs.push_back({{"a", "d/*.c"}, {}});
    globs.push_back({{"**/a", "f/*", "a"}, {"d/e/*", "a"}});
    globs.push_back({{}, {}});
    globs.push_back({{}, {"a"}});
    for (size_t m = 0; m < (1u << files.size()); ++m) {
      Strs f;
      for (size_t i = 0; i < files.size(); ++i)
        if (m >> i & 1) f.push_back(files[i]);
      for (std::string pkg : {"", "p", "p/q.r"}) {
        if (pkg.size() > 1 && !thorough && m % 3) continue;
        if (VF_BEGIN("tree " + Show(f) + " package //" + pkg)) CheckTree(dir, pkg, f, globs);
      }
    }
    fs::remove_all(dir);
  }
  return vf::Finish();
}
