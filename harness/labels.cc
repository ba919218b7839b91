// Explorer: label parsing, printing, comparing.
#include "bant/types-bazel.h"
#include "common.h"
#include "labels_ref.h"

using bant::BazelPackage;
using bant::BazelTarget;
using Strs = std::vector<std::string>;

static std::string Str(const BazelTarget &t) {
  return "(" + t.package.project + " | " + t.package.path + " | " + t.target_name + ")";
}
static std::string Str(const lref::Label &t) { return "(" + t.pkg.project + " | " + t.pkg.path + " | " + t.name + ")"; }
static bool Same(const BazelTarget &t, const lref::Label &l) {
  return t.package.project == l.pkg.project && t.package.path == l.pkg.path && t.target_name == l.name;
}
static const std::vector<lref::Pkg> kContexts = {{"", ""}, {"", "a"}, {"", "a/b"}, {"@r", ""}, {"@r", "a"}, {"@a", "b"}, {"", "ab"}};

static void Check(const std::string &s) {
  for (auto &c : kContexts) {
    const BazelPackage ctx(c.project, c.path);
    lref::Label want;
    const lref::Kind kind = lref::Parse(s, c, &want);
    const auto got = BazelTarget::ParseFrom(s, ctx);
    vf::Count("evaluations");
    auto where = [&] { return "'" + s + "' in " + c.project + "//" + c.path; };
    if (kind == lref::kNoLabel) continue;
    if (kind == lref::kMustReject) {
      if (got) vf::Fail("accepted", where() + " is malformed, but accepted as " + Str(*got));
      continue;
    }
    if (kind == lref::kWellFormed) {
      vf::SeeState(Str(want));
      if (!got) {
        vf::Fail("rejected", where() + " not accepted");
        continue;
      }
      if (!Same(*got, want)) {
        vf::Fail("parse", where() + ": want " + Str(want) + ", got " + Str(*got));
        continue;
      }
      if (got->ToString() != lref::Print(want)) vf::Fail("print", where() + ": printed " + got->ToString() + ", want " + lref::Print(want));
    }
    if (!got || got->target_name.empty()) continue;
    // Print and parse back.
    vf::Transition();
    const BazelPackage main_project("", "x");
    auto back = BazelTarget::ParseFrom(got->ToString(), main_project);
    if (!back || !(*back == *got)) vf::Fail("round-trip", where() + ": " + Str(*got) + " printed as " + got->ToString());
    for (auto &o : kContexts) {
      const BazelPackage other(o.project, o.path);
      const std::string rel = got->ToStringRelativeTo(other);
      auto rback = BazelTarget::ParseFrom(rel, other);
      if (!rback || !(*rback == *got))
        vf::Fail("relative-round-trip", where() + ": " + Str(*got) + " printed as " + rel + " in " + o.project + "//" + o.path);
      if (kind == lref::kWellFormed && rel != lref::PrintIn(want, o))
        vf::Fail("print-relative", where() + ": " + rel + " in " + o.project + "//" + o.path + " want " + lref::PrintIn(want, o));
    }
    auto pback = BazelPackage::ParseFrom(got->package.ToString());
    if (!pback || !(*pback == got->package)) vf::Fail("package-round-trip", where() + ": " + got->package.ToString());
  }
  // As package.
  lref::Label l;
  const lref::Kind k = lref::Parse(s, {"", "x"}, &l);
  const auto p = BazelPackage::ParseFrom(s);
  const bool has_package = s.find('/') != std::string::npos || (s.size() > 1 && s[0] == '@') || s.find(':') != std::string::npos;
  if (k == lref::kWellFormed && has_package && s[0] != ':') {
    if (!p || p->project != l.pkg.project || p->path != l.pkg.path)
      vf::Fail("package", "'" + s + "' gives package " + (p ? p->ToString() : "none"));
  }
  if (k == lref::kWellFormed && s[0] != '@' && s.find_first_of("/:") == std::string::npos) {
    if (!p || !p->project.empty() || p->path != s) vf::Fail("package", "'" + s + "' gives package " + (p ? p->ToString() : "none"));
  }
}

template <typename F>
static void Sequences(const Strs &toks, int depth, std::string cur, int batch, const F &f) {
  // Begins one case for all strings with a common prefix.
  if (batch == 0) {
    if (VF_BEGIN("strings starting with '" + cur + "'")) {
      std::function<void(const std::string &, int)> rec = [&](const std::string &s, int d) {
        f(s);
        if (d == 0) return;
        for (auto &t : toks) rec(s + t, d - 1);
      };
      rec(cur, depth);
      vf::NonTrivial();
    }
    return;
  }
  if (VF_BEGIN("string '" + cur + "'")) f(cur);
  for (auto &t : toks) Sequences(toks, depth - 1, cur + t, batch - 1, f);
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const bool thorough = vf::Thorough();
  Sequences({"@", "/", ":", "a", "b"}, thorough ? 10 : 8, "", 3, Check);
  Sequences({"@", "~", "//", ":", "a", "1.0"}, thorough ? 8 : 7, "", 3, Check);
  Sequences({"@", "//", "/", ":", "a", "r", "ab", "b.c", "-", "_"}, thorough ? 7 : 6, "", 3, Check);
  // All bytes in names.
  for (int c = 1; c < 256; ++c) {
    if (strchr("@/:~", c)) continue;
    const std::string s(1, (char)c);
    if (!VF_BEGIN("character " + vf::Esc(s))) continue;
    for (std::string l : {s, ":" + s, "//" + s, "//a" + s, "//" + s + ":" + s + "x", "//a:b" + s + "c", "@r//" + s + "b", "//a/" + s + "/c:d", s + "/a", "@r" + s + "//a:b", "@r" + s})
      Check(l);
    vf::NonTrivial();
  }
  for (int n : vf::Sizes(thorough ? 70000 : 10000)) {
    if (!VF_BEGIN("size " + std::to_string(n))) continue;
    const std::string a = vf::Times("a", n), dirs = vf::Times("d/", n);
    for (std::string l : {a, ":" + a, "//" + a, "//p:" + a, "//" + dirs + "x", "//" + dirs + "x:y", "@" + a + "//p:x", "@" + a, "//" + dirs + "x:x", "//p:" + dirs + "x",
                          "@r//" + dirs + "d", dirs + "x", "@r~" + a + "//p", "//p:x" + vf::Times(":", n), vf::Times("/", n) + "x", "//p" + vf::Times("/", n) + ":x"})
      Check(l);
    vf::NonTrivial();
  }
  // Order.
  std::vector<BazelTarget> all;
  std::vector<lref::Label> ref;
  for (std::string project : {"", "@a", "@ab", "@b"})
    for (std::string path : {"", "a", "a/b", "ab", "b"})
      for (std::string name : {"a", "ab", "b"}) {
        ref.push_back({{project, path}, name});
        all.push_back(*BazelPackage(project, path).QualifiedTarget(name));
      }
  for (size_t i = 0; i < all.size(); ++i) {
    if (!VF_BEGIN("order of " + Str(all[i]))) continue;
    for (size_t j = 0; j < all.size(); ++j) {
      const auto &a = all[i], &b = all[j];
      const bool eq = ref[i] == ref[j];
      if ((a == b) != eq || (a != b) == eq) vf::Fail("equal", Str(a) + " " + Str(b));
      if ((a.package == b.package) != (ref[i].pkg == ref[j].pkg)) vf::Fail("package-equal", Str(a) + " " + Str(b));
      if ((a < b) + (b < a) + (a == b) != 1) vf::Fail("trichotomy", Str(a) + " " + Str(b));
      if ((a.package < b.package) + (b.package < a.package) + (a.package == b.package) != 1) vf::Fail("trichotomy", Str(a) + " " + Str(b));
      if ((a <=> b) != (0 <=> (b <=> a))) vf::Fail("antisymmetry", Str(a) + " " + Str(b));
      for (size_t k = 0; k < all.size(); ++k) {
        vf::Count("evaluations");
        if (a < b && b < all[k] && !(a < all[k])) vf::Fail("transitivity", Str(a) + " " + Str(b) + " " + Str(all[k]));
        if (a.package < b.package && b.package < all[k].package && !(a.package < all[k].package)) vf::Fail("transitivity", Str(a));
      }
    }
    vf::NonTrivial();
  }
  // Qualified names.
  for (auto &c : kContexts) {
    if (!VF_BEGIN("names in package " + c.project + "//" + c.path)) continue;
    const BazelPackage p(c.project, c.path);
    for (std::string n : {"a", "ab", "a/b", "a.c"}) {
      for (std::string prefix : {"", ":"}) {
        auto t = p.QualifiedTarget(prefix + n);
        if (!t || !Same(*t, {c, n})) vf::Fail("qualified-target", prefix + n);
        const std::string want = c.path.empty() ? n : c.path + "/" + n;
        if (p.QualifiedFile(prefix + n) != want) vf::Fail("qualified-file", prefix + n + ": " + p.QualifiedFile(prefix + n));
      }
    }
    if (p.QualifiedTarget("") || p.QualifiedTarget(":")) vf::Fail("qualified-target", "empty name accepted");
    vf::NonTrivial();
  }
  return vf::Finish();
}
