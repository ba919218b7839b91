// Explorer: canonicalize, for all labels in all packages, projects and patterns.
#include <filesystem>
#include <fstream>
#include <iostream>

#include "bant/tool/canon-targets.h"
#include "bt.h"
#include "cli.h"
#include "common.h"
#include "labels_ref.h"
#include "shwords.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using namespace bant;

struct Edit {
  std::string target, before, after;
  bool rename = true;
  bool operator==(const Edit &) const = default;
  std::string Show() const { return target + ": '" + before + "' -> '" + after + "'" + (rename ? "" : " NO RENAME"); }
};
using Edits = std::vector<Edit>;
static std::string Show(const Edits &e) {
  std::string r;
  for (auto &x : e) r += x.Show() + "; ";
  return r;
}
static Edits RunCanon(const ParsedProject &project, const BazelPattern &pattern, std::string *info, size_t *count) {
  std::stringstream out, inf;
  Session session(&out, &inf, CommandlineFlags{});
  Edits edits;
  *count = CreateCanonicalizeEdits(session, project, pattern, [&](EditRequest r, const BazelTarget &t, std::string_view b, std::string_view a) {
    edits.push_back({t.ToString(), std::string(b), std::string(a), r == EditRequest::kRename});
  });
  *info = inf.str();
  if (!out.str().empty()) vf::Fail("output", "wrote to primary output: " + out.str());
  return edits;
}
static std::string PkgText(const lref::Pkg &p) { return p.project + "//" + p.path; }

// One batch of labels as dependencies of one target in package.
static void CheckLabels(const lref::Pkg &pkg, const Strs &labels) {
  Strs deps = labels;
  for (int round = 0; round < 2; ++round) {
    ParsedProjectTestUtil util;
    std::string text = "cc_library(name = \"foo\", srcs = [\"//" + pkg.path + ":x\"], deps = [";
    for (auto &d : deps) text += "\"" + d + "\", ";
    text += "])\n";
    util.Add(PkgText(pkg), text);
    std::string info;
    size_t count;
    const Edits edits = RunCanon(util.project(), BazelPattern(), &info, &count);
    vf::Count("evaluations", deps.size());
    vf::Transition(deps.size());
    if (count != edits.size()) vf::Fail("count", "returned " + std::to_string(count) + " of " + std::to_string(edits.size()));
    const std::string self = lref::Print({pkg, "foo"});
    size_t e = 0;
    std::string invalid;
    Strs next = deps;
    for (size_t i = 0; i < deps.size(); ++i) {
      const std::string &d = deps[i];
      const bool edited = e < edits.size() && edits[e].before == d;
      auto where = [&] { return "'" + d + "' in " + PkgText(pkg) + (edited ? " -> '" + edits[e].after + "'" : std::string(" not edited")); };
      if (edited && (edits[e].target != self || !edits[e].rename)) vf::Fail("edit", edits[e].Show());
      lref::Label want;
      const auto kind = lref::Parse(d, pkg, &want);
      if (kind == lref::kMustReject) {
        if (edited) vf::Fail("malformed-edited", where());
      } else if (kind == lref::kWellFormed) {
        const std::string canonical = lref::PrintIn(want, pkg);
        if (edited != (canonical != d)) {
          vf::Fail(edited ? "needless" : "missed", where() + ", shortest is " + canonical);
        } else if (edited) {
          if (edits[e].after != canonical) vf::Fail("not-shortest", where() + ", shortest is " + canonical);
          lref::Label got;
          if (lref::Parse(edits[e].after, pkg, &got) != lref::kWellFormed || !(got == want)) vf::Fail("meaning", where());
        }
        vf::SeeState(canonical);
      }
      if (edited) {
        if (round > 0) vf::Fail("not-idempotent", where());
        next[i] = edits[e].after;
        ++e;
      }
    }
    if (e != edits.size()) vf::Fail("unexpected-edit", edits[e].Show());
    deps = next;
  }
}

static void Strings(const Strs &toks, int depth, const std::string &cur, Strs *all) {
  if (!cur.empty()) all->push_back(cur);
  if (depth == 0) return;
  for (auto &t : toks) Strings(toks, depth - 1, cur + t, all);
}
static const std::vector<lref::Pkg> kContexts = {{"", ""}, {"", "a"}, {"", "a/b"}, {"@r", ""}, {"@r", "a"}, {"@a", "b"}, {"", "ab"}};

// -- Projects
struct Form {  // value of deps
  const char *text;
  Strs labels;  // as seen
};
static const std::vector<Form> kForms = {
  {"[]", {}},
  {"[\":x\"]", {":x"}},
  {"[\"x\"]", {"x"}},
  {"[\"x\", \"x\"]", {"x", "x"}},
  {"[\"x\", \":x\"]", {"x", ":x"}},
  {"[\"//a:x\"]", {"//a:x"}},
  {"[\"//a:a\", \"//a\", \"a:a\"]", {"//a:a", "//a", "a:a"}},
  {"[\"//b:b\"]  # keep\n", {"//b:b"}},
  {"[\n  # comment\n  \"@//b:q\",  # keep\n ]", {"@//b:q"}},
  {"[\"a:b:c\", \"y\", \"//x//y\"]", {"a:b:c", "y", "//x//y"}},
  {"(\"y\", \"z\",)", {"y", "z"}},
  {"[X, \"y\", None, \"z\"]", {"y", "z"}},
  {"[\"@r//:r\", \"@r//a:a\"]", {"@r//:r", "@r//a:a"}},
  {"'x'", {}},
  {"None", {}},
  {"[r\"x\", '''//a:x''']", {"x", "//a:x"}},
};
static const char *kCalls[] = {
  "cc_library(\n    name = \"t\",\n    deps = %,\n)\n",
  "cc_test(deps = %, name = \":t\", srcs = [\"//a:s\", \"x\"], data = [\"x\"], hdrs = [\"//b:b\"])\n",
  "whatever_rule(name = \"t\", deps = %, tags = [\"q\"], runtime_deps = [\"x\"], implementation_deps = [\"x\"], visibility = [\"//b:b\"], exports = [\"x\"])\n",
  "alias(name = \"t\", actual = \"x\", deps = %)\n",
  "cc_library(deps = %)\n",                      // no name
  "foo(name = \"t\", args = bar(deps = [\"x\"]), deps = %)\n",
  "[cc_library(name = \"t\", deps = %) for i in y]\n",
  "x = [\"q\"]\ndeps = [\"q\"]\n",               // no target
};
static const char *kPats[] = {"//...", "//a:all", "//a:t", "//b/...", "@r//...", "//:t", "//a/...", "//b:*", "@r//a:t"};
static bool PatMatches(int p, const lref::Label &l) {
  switch (p) {
  case 0: return l.pkg.project.empty();
  case 1: return l.pkg == lref::Pkg{"", "a"};
  case 2: return l.pkg == lref::Pkg{"", "a"} && l.name == "t";
  case 3: return l.pkg == lref::Pkg{"", "b"};
  case 4: return l.pkg.project == "@r";
  case 5: return l.pkg == lref::Pkg{"", ""} && l.name == "t";
  case 6: return l.pkg == lref::Pkg{"", "a"};
  case 7: return l.pkg == lref::Pkg{"", "b"};
  default: return l.pkg == lref::Pkg{"@r", "a"} && l.name == "t";
  }
}
static std::string CallText(int call, int form, char name) {
  std::string t = kCalls[call];
  for (size_t p; (p = t.find('%')) != std::string::npos;) t.replace(p, 1, kForms[form].text);
  if (name != 't') {
    size_t p = t.find("t\"");
    if (p != std::string::npos && call != 7) t[p] = name;
  }
  return t;
}
static void ExpectCall(int call, int form, char name, const lref::Pkg &pkg, int pat, Edits *edits) {
  if (call == 4 || call == 7) return;
  const lref::Label self{pkg, std::string(1, name)};
  if (pat >= 0 && !PatMatches(pat, self)) return;
  for (auto &d : kForms[form].labels) {
    lref::Label l;
    if (lref::Parse(d, pkg, &l) != lref::kWellFormed) continue;
    const std::string c = lref::PrintIn(l, pkg);
    if (c != d) edits->push_back({lref::Print(self), d, c});
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  // All strings of tokens.
  const Strs toks = {"a", "b", "r", "ab", "/", "//", ":", "@", "x.y"};
  for (auto &ctx : kContexts) {
    for (auto &t1 : toks)
      for (auto &t2 : toks) {
        if (!VF_BEGIN("labels '" + t1 + t2 + "...' in package " + PkgText(ctx))) continue;
        vf::NonTrivial();
        Strs all;
        if (t1 == t2) all.push_back(t1);
        Strings(toks, vf::Thorough() ? 4 : 3, t1 + t2, &all);
        CheckLabels(ctx, all);
      }
    if (VF_BEGIN("all characters in labels in package " + PkgText(ctx))) {
      vf::NonTrivial();
      Strs all;
      for (int c = 33; c < 127; ++c) {
        if (strchr("@/:~\"\\", c)) continue;
        const std::string s(1, (char)c);
        for (std::string l : {s, ":" + s, "//" + s, "//a" + s, "//" + s + ":" + s, "//a:b" + s + "c", "@r//" + s + "b", "//a/" + s + "/c:d", s + "/a", "@r" + s + "//a:b",
                              "@r" + s, "@r" + s + "//:r" + s, "//a/b" + s + ":b" + s, "@//a" + s + ":a" + s, "a/b:" + s + "q"})
          all.push_back(l);
      }
      CheckLabels(ctx, all);
    }
  }
  // Sizes: long names, many dependencies, many targets.
  for (int n : vf::Sizes(vf::Thorough() ? 2100 : 600)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string a = vf::Times("a", n), deep = vf::Times("d/", n) + "e";
    for (const lref::Pkg &ctx : std::vector<lref::Pkg>{{"", ""}, {"", a}, {"", deep}, {"@r", a}, {"@" + a, "b"}}) {
      Strs all;
      for (const std::string &path : Strs{a, deep, a + "/" + a, ""})
        for (const std::string &name : Strs{a, a + "a", deep, "e", "x", ""})
          for (const std::string &project : Strs{"", "@", "@r", "@" + a}) {
            if (name.empty() && path.empty()) continue;
            all.push_back(project + "//" + path + (name.empty() ? "" : ":" + name));
            if (project.empty() && !name.empty()) all.insert(all.end(), {name, ":" + name});
          }
      CheckLabels(ctx, all);
    }
    std::string one = "cc_library(name = \"t\", deps = [", many;
    Edits want_one, want_many;
    for (int i = 0; i < n; ++i) {
      const std::string k = "n" + std::to_string(i);
      const bool canonical = i % 3 == 0;
      one += (canonical ? "\":" : "\"//a:") + k + "\", ";
      many += "cc_library(name = \"" + k + "\", deps = [" + (canonical ? "\":q\"" : "\"//b/c:c\"") + "])\n";
      if (!canonical) {
        want_one.push_back({"//a:t", "//a:" + k, ":" + k});
        want_many.push_back({"//a:" + k, "//b/c:c", "//b/c"});
      }
    }
    for (bool is_many : {false, true}) {
      ParsedProjectTestUtil util;
      util.Add("//a", is_many ? many : one + "])\n");
      std::string info;
      size_t count;
      const Edits got = RunCanon(util.project(), BazelPattern(), &info, &count);
      const Edits &want = is_many ? want_many : want_one;
      vf::Count("evaluations");
      vf::Transition();
      if (got != want || count != got.size()) vf::Fail("size", "got " + Show(got) + " want " + Show(want));
    }
  }
  // Projects: two calls each in package //a, with another file before and after.
  const int nc = std::size(kCalls), nf = kForms.size(), np = std::size(kPats);
  for (const lref::Pkg &pkg : std::vector<lref::Pkg>{{"", "a"}, {"", ""}, {"@r", "a"}, {"", "b"}}) {
    for (int c1 = 0; c1 < nc; ++c1)
      for (int f1 = 0; f1 < nf; ++f1) {
        if (!VF_BEGIN("project, package " + PkgText(pkg) + ", first call " + CallText(c1, f1, 't'))) continue;
        vf::NonTrivial();
        for (int c2 = 0; c2 < nc; ++c2)
          for (int f2 = 0; f2 < nf; ++f2) {
            ParsedProjectTestUtil util;
            util.Add(PkgText(pkg), CallText(c1, f1, 't') + CallText(c2, f2, 'u'));
            const lref::Pkg other{"", "b/c"};
            util.Add("//b/c", CallText(0, f1, 't'));
            for (int p = -1; p < np; ++p) {
              std::string info;
              size_t count;
              const BazelPattern pattern = p < 0 ? BazelPattern() : *BazelPattern::ParseFrom(kPats[p]);
              Edits got = RunCanon(util.project(), pattern, &info, &count);
              Edits want;
              ExpectCall(c1, f1, 't', pkg, p, &want);
              ExpectCall(c2, f2, 'u', pkg, p, &want);
              Edits want_other;
              // Package //b/c is only in these.
              if (p <= 0 || p == 3) ExpectCall(0, f1, 't', other, -1, &want_other);
              vf::Count("evaluations");
              vf::Transition();
              Edits got_pkg, got_other;
              for (auto &e : got) (e.target == "//b/c:t" ? got_other : got_pkg).push_back(e);
              if (got_pkg != want || got_other != want_other || count != got.size())
                vf::Fail("project", std::string("pattern ") + (p < 0 ? "(all)" : kPats[p]) + " second call " + CallText(c2, f2, 'u') + " got " + Show(got) + " want " + Show(want) + Show(want_other));
              vf::SeeState(Show(want));
            }
          }
      }
  }
  // Command on a real tree.
  const std::string scratch = fs::absolute(vf::S().out).string() + "/canon." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  for (const char *d : {"/a", "/b/c", "/a/d"}) fs::create_directories(scratch + d);
  fs::current_path(scratch);
  std::ofstream("MODULE.bazel") << "";
  const std::vector<lref::Pkg> pkgs = {{"", ""}, {"", "a"}, {"", "b/c"}, {"", "a/d"}};
  struct P {
    const char *pat, *cwd;
    int all, pkg, sub;  // expected packages, by index; only target t
  };
  for (int f1 = 0; f1 < nf; ++f1)
    for (int f2 = 0; f2 < nf; ++f2) {
      if (!VF_BEGIN("command; dependencies " + std::string(kForms[f1].text) + ", " + kForms[f2].text)) continue;
      vf::NonTrivial();
      int i = 0;
      for (auto &p : pkgs) {
        std::ofstream(fs::path(p.path) / "BUILD") << CallText(i % 3, i & 1 ? f2 : f1, 't') << CallText(1, f2, 'u');
        ++i;
      }
      const std::vector<std::pair<std::string, std::function<bool(const lref::Label &)>>> pats = {
        {"//...", [](auto &) { return true; }},
        {"...", [](auto &) { return true; }},
        {"//a:all", [](auto &l) { return l.pkg.path == "a"; }},
        {"//a/...", [](auto &l) { return l.pkg.path == "a" || l.pkg.path == "a/d"; }},
        {"a/...", [](auto &l) { return l.pkg.path == "a" || l.pkg.path == "a/d"; }},
        {"//b/c:t", [](auto &l) { return l.pkg.path == "b/c" && l.name == "t"; }},
        {"//:u", [](auto &l) { return l.pkg.path.empty() && l.name == "u"; }},
        {"//nothing/...", [](auto &) { return false; }},
      };
      for (auto &[pat, match] : pats) {
        std::multiset<std::string> want, got;
        int idx = 0;
        for (auto &p : pkgs) {
          Edits e;
          if (match(lref::Label{p, "t"})) ExpectCall(idx % 3, idx & 1 ? f2 : f1, 't', p, -1, &e);
          if (match(lref::Label{p, "u"})) ExpectCall(1, f2, 'u', p, -1, &e);
          ++idx;
          for (auto &x : e) want.insert("<buildozer><replace deps " + x.before + " " + x.after + "><" + x.target + ">");
        }
        const auto r = cli::Run({"canonicalize", pat});
        vf::Count("evaluations");
        vf::Transition();
        std::stringstream lines(r.out);
        for (std::string line; std::getline(lines, line);) got.insert(ShowCommand(line));
        if (got != want) vf::Fail("command", pat + " got " + r.out + " want " + std::to_string(want.size()) + " lines");
        if (r.status != (want.empty() ? 0 : 3)) vf::Fail("command-status", pat + " status " + std::to_string(r.status));
      }
    }
  // Commands for a shell, whatever characters Bazel allows in names.
  for (int c = 33; c < 127; ++c) {
    if (strchr("@/:~\\", c)) continue;
    const std::string s(1, (char)c), q = c == '"' ? "'" : "\"";
    if (!VF_BEGIN("command; character " + s + " in names")) continue;
    vf::NonTrivial();
    for (auto &p : pkgs) std::ofstream(fs::path(p.path) / "BUILD") << "";
    for (const Strs &name : {Strs{"t", s}, {"t", s + "x"}, {"t", "x" + s + "y"}, {s + "t", "x"}, {"t" + s, "x" + s}}) {
      std::ofstream("a/BUILD") << "cc_library(name = " << q << name[0] << q << ", deps = [" << q << "//a:" << name[1] << q << ", " << q << "//b/c/" << name[1] << ":" << name[1] << q << "])\n";
      const auto r = cli::Run({"canonicalize", "//a:all"});
      vf::Count("evaluations");
      vf::Transition();
      std::string got;
      std::stringstream lines(r.out);
      for (std::string line; std::getline(lines, line);) got += ShowCommand(line) + "\n";
      const std::string target = "><" + lref::Print({{"", "a"}, name[0]}) + ">\n";
      std::string want;
      for (const lref::Label &l : {lref::Label{{"", "a"}, name[1]}, lref::Label{{"", "b/c/" + name[1]}, name[1]}})
        want += "<buildozer><replace deps " + (l.pkg.path + "//" + l.pkg.path + ":" + l.name).substr(l.pkg.path.size()) + " " + lref::PrintIn(l, {"", "a"}) + target;
      if (got != want) vf::Fail("shell", "got " + got + " want " + want);
      vf::SeeState(r.out);
    }
  }
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
