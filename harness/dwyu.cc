// Explorer: dwyu on all small projects. VF_PROP selects the property whose
// violations are reported: C18 removals, C19 additions, C20 edits as a whole.
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>

#include "bant/session.h"
#include "bant/tool/dwyu-internal.h"
#include "bant/tool/dwyu.h"
#include "bt.h"
#include "cli.h"
#include "shwords.h"

using namespace bant;
using Strs = std::vector<std::string>;
using Set = std::set<std::string>;
static std::string prop;

// -- Model of a project.
enum Vis { kNoVis, kPublic, kPrivate, kUserPkg, kOtherPkg };
struct Lib {
  std::string pkg, name, rule = "cc_library";
  Strs hdrs;               // relative to package
  std::string actual;      // alias
  std::string vis;         // "visibility" as text of list; empty: none.
  bool sees = true;        // ... if the target in question matches that
  bool deprecated = false, testonly = false, alwayslink = false;
  std::string extra;
  std::string label() const {
    const std::string path = pkg.substr(pkg.find("//") + 2);
    const std::string last = path.substr(path.rfind('/') + 1);
    return !path.empty() && last == name ? pkg : pkg + ":" + name;
  }
};
struct Source {
  std::string name;      // as in list
  std::string path;      // file
  bool in_hdrs = false;
  bool readable = true;
  Strs includes;
  std::string raw;       // content, if not just the includes
};
struct Dep {
  std::string expr;      // In the source
  std::string literal;   // Its value; empty: not a label
  std::string label;     // Target meant; empty: invalid
  std::string comment;   // rest of line
  bool same_line = false;
  bool is_protected() const { return comment.find("keep") != std::string::npos; }
};
struct Project {
  std::vector<Lib> libs;
  // Target
  std::string pkg = "//p", name = "t", rule = "cc_library";
  bool testonly = false;
  std::vector<Source> sources;
  Set own;                       // include paths it provides by itself
  std::string srcs_expr;         // replaces the list
  bool sources_known = true;
  std::vector<Dep> deps;
  std::string extra;             // further attributes
  std::map<std::string, std::string> preamble;  // by package
  bool elaborate = false;
  bool ignore_keep = false;
  std::string target() const {
    Lib l;
    l.pkg = pkg;
    l.name = name;
    return l.label();
  }
};
static std::string BList(const Strs &v) {
  std::string r = "[";
  for (auto &s : v) r += (r.size() > 1 ? ", \"" : "\"") + s + "\"";
  return r + "]";
}
static std::map<std::string, std::string> Text(const Project &p) {
  std::map<std::string, std::string> t = p.preamble;
  for (const Lib &l : p.libs) {
    std::string s = l.rule + "(name = \"" + l.name + "\"";
    if (!l.actual.empty()) s += ", actual = \"" + l.actual + "\"";
    if (!l.hdrs.empty()) s += ", hdrs = " + BList(l.hdrs);
    if (!l.vis.empty()) s += ", visibility = " + l.vis;
    if (l.deprecated) s += ", deprecation = \"old\"";
    if (l.testonly) s += ", testonly = True";
    if (l.alwayslink) s += ", alwayslink = True";
    t[l.pkg] += s + l.extra + ")\n";
  }
  Strs srcs, hdrs;
  for (const Source &s : p.sources) (s.in_hdrs ? hdrs : srcs).push_back(s.name);
  std::string s = p.rule + "(name = \"" + p.name + "\", srcs = " +
                  (p.srcs_expr.empty() ? BList(srcs) : p.srcs_expr);
  if (!hdrs.empty()) s += ", hdrs = " + BList(hdrs);
  if (p.testonly) s += ", testonly = True";
  s += p.extra;
  if (!p.deps.empty()) {
    s += ", deps = [";
    for (const Dep &d : p.deps) {
      if (!d.same_line) s += "\n  ";
      s += d.expr + ",";
      if (!d.comment.empty()) s += "  " + d.comment;
    }
    s += "\n]";
  }
  t[p.pkg] += s + ")\n";
  if (!p.libs.empty()) {  // Targets that are not asked about.
    const std::string rest = "\", srcs = [\"decoy.cc\"], deps = [\"" + p.libs[0].label() + "\"])\n";
    t[p.pkg] += "cc_library(name = \"decoy" + rest;
    t["//decoy"] += "cc_library(name = \"" + p.name + rest;
  }
  return t;
}
static std::string Content(const Source &s) {
  std::string r = s.raw;
  for (const std::string &i : s.includes) r += "#include \"" + i + "\"\n";
  return r;
}
static std::string Desc(const Project &p) {
  std::string r;
  for (auto &[pkg, t] : Text(p)) r += pkg + ":\n" + t;
  for (const Source &s : p.sources) r += s.path + (s.readable ? ": " + Content(s) : " missing") + "\n";
  return r;
}

// -- Real code
struct Edit {
  EditRequest op;
  std::string target, before, after;
  bool operator==(const Edit &) const = default;
  std::string str() const {
    return (op == EditRequest::kRemove ? "remove " : op == EditRequest::kAdd ? "add " : "rename ") +
           before + after + " in " + target + "; ";
  }
};
using Edits = std::vector<Edit>;
static std::string Str(const Edits &e) {
  std::string r;
  for (auto &x : e) r += x.str();
  return r;
}
class Generator : public DWYUGenerator {
 public:
  using DWYUGenerator::DWYUGenerator;
  const Project *p = nullptr;

 protected:
  std::optional<SourceFile> TryOpenFile(std::string_view f) override {
    for (const Source &s : p->sources) {
      if (s.path == f && s.readable) {
        return SourceFile{.content = Content(s), .path = s.path, .is_generated = false};
      }
    }
    if (f.ends_with("decoy.cc")) return SourceFile{.content = "", .path = std::string(f), .is_generated = false};
    return std::nullopt;
  }
};
static Edits Run(const Project &p) {
  ParsedProjectTestUtil util;
  for (auto &[pkg, t] : Text(p)) util.Add(pkg, t);
  if (p.elaborate) util.ElaborateAll();
  std::stringstream out;
  CommandlineFlags fl;
  fl.ignore_keep_comment = p.ignore_keep;
  Session session(&out, &out, fl);
  Edits edits;
  Generator g(session, util.project(),
              [&](EditRequest op, const BazelTarget &t, std::string_view b, std::string_view a) {
                edits.push_back({op, t.ToString(), std::string(b), std::string(a)});
              });
  g.p = &p;
  g.CreateEditsForPattern(*BazelPattern::ParseFrom(p.target()));
  vf::Count("evaluations");
  vf::Transition();
  return edits;
}

// -- Reference
struct Ref {
  std::map<std::string, const Lib *> known;
  std::map<std::string, Set> provides;  // header -> labels
  Set deps;                             // labels
  bool accounted = true;
  std::vector<Set> needs;               // providers of each include
  explicit Ref(const Project &p) {
    for (const Lib &l : p.libs) {
      if (l.rule == "cc_library" || l.rule == "alias" || l.rule == "cc_test" ||
          l.rule == "cc_proto_library" || l.rule == "grpc_cc_library") {
        known[l.label()] = &l;
      }
    }
    for (const Lib &l : p.libs) {
      if (l.rule != "cc_library" && l.rule != "grpc_cc_library" && l.rule != "alias") continue;
      const Lib *end = Real(&l);
      if (!end || (end->rule != "cc_library" && end->rule != "grpc_cc_library")) continue;
      for (const std::string &h : end->hdrs) {
        const std::string path = end->pkg.substr(end->pkg.find("//") + 2);
        provides[path.empty() ? h : path + "/" + h].insert(l.label());
      }
    }
    for (const Dep &d : p.deps) deps.insert(d.label);
    const std::string path = p.pkg.substr(2);
    if (!p.sources_known) accounted = false;
    for (const Source &s : p.sources) {
      if (!s.readable) {
        accounted = false;
        continue;
      }
      for (const std::string &i : s.includes) {
        if (p.own.count(i)) continue;
        auto f = provides.find(i);
        if (f == provides.end()) f = provides.find(path + "/" + i);
        if (f == provides.end()) {
          accounted = false;
        } else {
          needs.push_back(f->second);
        }
      }
    }
  }
  // What the alias stands for
  const Lib *Real(const Lib *l) const {
    for (int i = 0; i < 8 && l && l->rule == "alias"; ++i) {
      auto f = known.find(l->actual);
      l = f == known.end() ? nullptr : f->second;
    }
    return l && l->rule == "alias" ? nullptr : l;
  }
  // Circular aliases don't build: either is fine
  bool Circular(const std::string &label) const {
    auto f = known.find(label);
    for (int i = 0; i < 8 && f != known.end() && f->second->rule == "alias"; ++i) f = known.find(f->second->actual);
    return f != known.end() && f->second->rule == "alias";
  }
  bool Known(const std::string &label) const { return known.count(label); }
  bool Alwayslink(const std::string &label) const {
    const Lib *r = Real(known.at(label));
    if (!r) return true;  // Can't know.
    return r->alwayslink || (r->rule == "cc_library" && r->hdrs.empty());
  }
  bool Sees(const Project &p, const std::string &label) const {
    auto f = known.find(label);
    if (f == known.end()) return true;
    return !f->second->deprecated && (f->second->pkg == p.pkg || f->second->sees);
  }
  bool TestonlyOk(const Project &p, const std::string &label) const {
    auto f = known.find(label);
    return f == known.end() || !f->second->testonly || p.testonly || p.rule == "cc_test";
  }
};
// Label as written in the package
static std::string Relative(const std::string &label, const std::string &pkg) {
  if (label == pkg) return ":" + pkg.substr(pkg.find_last_of('/') + 1);
  if (label.rfind(pkg + ":", 0) == 0) return label.substr(pkg.size());
  return label;
}
// ... and back
static std::string Absolute(const std::string &s, const std::string &pkg) {
  Lib l;
  if (s[0] == ':') {
    l.pkg = pkg;
    l.name = s.substr(1);
    return l.label();
  }
  return s;
}

static void Check(const Project &p) {
  const Edits edits = Run(p);
  const Ref ref(p);
  auto fail = [&](const char *of, const char *key, const std::string &msg) {
    if (prop == of) vf::Fail(key, msg + "; edits: " + Str(edits) + " for\n" + Desc(p));
  };
  std::map<std::string, int> removed_literal;
  Set removed, added, final_deps = ref.deps;
  bool removals_started_late = false, have_add = false;
  for (const Edit &e : edits) {
    if (e.target != p.target()) fail("C20", "other-target", "edit of other target");
    if (e.op == EditRequest::kRemove) {
      ++removed_literal[e.before];
      if (!e.after.empty()) fail("C20", "extra-value", "removal with replacement");
      removals_started_late |= have_add;
    } else if (e.op == EditRequest::kAdd) {
      have_add = true;
      if (!e.before.empty()) fail("C20", "extra-value", "addition with replaced value");
      const std::string l = Absolute(e.after, p.pkg);
      if (!added.insert(l).second) fail("C19", "added-twice", "added twice");
    } else {
      fail("C20", "kind", "unexpected kind of edit");
    }
  }
  vf::SeeState(Str(edits));
  // Removals
  for (auto &[lit, n] : removed_literal) {
    int present = 0;
    for (const Dep &d : p.deps) {
      if (d.literal != lit) continue;
      ++present;
      removed.insert(d.label);
      if (d.label.empty() || !ref.Known(d.label)) fail("C18", "removed-unknown", "removed unknown library " + lit);
      else if (!ref.Circular(d.label) && ref.Alwayslink(d.label)) fail("C18", "removed-alwayslink", "removed alwayslink " + lit);
    }
    if (present == 0) fail("C20", "remove-not-present", "removes what is not there: " + lit);
    if (n > present) fail("C20", "removed-repeatedly", "more removals than dependencies " + lit);
    int unprotected = 0;
    for (const Dep &d : p.deps) unprotected += d.literal == lit && (!d.is_protected() || p.ignore_keep);
    if (n > unprotected) fail("C18", "removed-protected", "removed although there is a keep comment");
    if (!ref.accounted) fail("C18", "removed-unaccounted", "removal with unknown needs");
  }
  for (const std::string &r : removed) {
    bool stays = false;
    for (const Dep &d : p.deps) stays |= d.label == r && !removed_literal.count(d.literal);
    if (!stays) final_deps.erase(r);
  }
  for (const std::string &a : added) final_deps.insert(a);
  for (const Set &need : ref.needs) {
    bool before = false, after = false;
    for (const std::string &l : need) {
      before |= ref.deps.count(l) > 0;
      after |= final_deps.count(l) > 0;
    }
    if (before && !after) fail("C18", "removed-needed", "removed provider of an included header");
  }
  // ... what has to be removed
  if (ref.accounted) {
    std::map<std::string, int> expect;
    for (const Dep &d : p.deps) {
      if (d.label.empty() || !ref.Known(d.label) || ref.Alwayslink(d.label)) continue;
      if (d.is_protected() && !p.ignore_keep) continue;
      bool needed = false;
      for (const Set &need : ref.needs) needed |= need.count(d.label) > 0;
      if (!needed) ++expect[d.literal];
    }
    for (auto &[lit, n] : expect) {
      if (removed_literal[lit] != n) fail("C18", "not-removed", "unneeded but not removed: " + lit);
    }
  }
  // Additions
  std::vector<Set> visible;
  for (const Set &need : ref.needs) {
    Set v;
    for (const std::string &l : need) {
      if (ref.Sees(p, l)) v.insert(l);
    }
    if (!v.empty()) visible.push_back(v);
  }
  for (const Edit &e : edits) {
    if (e.op != EditRequest::kAdd) continue;
    const std::string l = Absolute(e.after, p.pkg);
    if (e.after != Relative(l, p.pkg)) fail("C19", "added-form", "not relative to package " + e.after);
    if (l == p.target()) fail("C19", "added-itself", "target as its own dependency");
    if (ref.deps.count(l)) fail("C19", "added-present", "added what is there " + l);
    if (!ref.Sees(p, l)) fail("C19", "added-invisible", "added invisible " + l);
    if (!ref.TestonlyOk(p, l)) fail("C19", "added-testonly", "added testonly " + l);
    // The only choice for some of the headers.
    Set common;
    bool first = true;
    for (const Set &v : visible) {
      if (!v.count(l)) continue;
      Set c;
      if (first) {
        c = v;
      } else {
        std::set_intersection(common.begin(), common.end(), v.begin(), v.end(), std::inserter(c, c.end()));
      }
      common = c;
      first = false;
    }
    if (common != Set{l}) fail("C19", "added-ambiguous", "not needed or ambiguous: " + l);
  }
  for (const Set &v : visible) {
    if (v.size() != 1) continue;
    const std::string &l = *v.begin();
    if (ref.deps.count(l) || !ref.TestonlyOk(p, l)) continue;
    if (!added.count(l)) fail("C19", "not-added", "missing dependency not added: " + l);
  }
  // Headers that have one library in common, and only this one.
  std::vector<std::vector<Set>> groups;  // connected by libraries
  for (const Set &v : visible) {
    std::vector<Set> g = {v};
    std::erase_if(groups, [&](const std::vector<Set> &other) {
      bool connected = false;
      for (const Set &o : other)
        for (const std::string &l : o) connected |= v.count(l) > 0;
      if (connected) g.insert(g.end(), other.begin(), other.end());
      return connected;
    });
    groups.push_back(g);
  }
  for (const auto &g : groups) {
    Set common = g[0], any;
    for (const Set &v : g) {
      std::erase_if(common, [&](const std::string &l) { return !v.count(l); });
      any.insert(v.begin(), v.end());
    }
    if (common.size() != 1) continue;
    const std::string &l = *common.begin();
    bool have = !ref.TestonlyOk(p, l);
    for (const std::string &a : any) have |= ref.deps.count(a) > 0;
    if (!have && !added.count(l)) fail("C19", "common-not-added", "only library common to several headers not added: " + l);
  }
  // Fixpoint
  if (prop == "C20" && !edits.empty()) {
    Project n = p;
    std::erase_if(n.deps, [&](const Dep &d) {
      if (d.is_protected() && !p.ignore_keep) return false;  // Same literal elsewhere
      return removed_literal.count(d.literal) > 0;
    });
    for (const std::string &a : added) {
      const std::string lit = Relative(a, p.pkg);
      n.deps.push_back({"\"" + lit + "\"", lit, a, ""});
    }
    const Edits again = Run(n);
    if (!again.empty()) {
      fail("C20", "no-fixpoint", "second run suggests " + Str(again) + " for " + Desc(n) + " after");
    }
  }
}

static Dep D(const std::string &label, const std::string &pkg = "//p", const std::string &comment = "") {
  const std::string lit = Relative(label, pkg);
  return {"\"" + lit + "\"", lit, label, comment};
}
enum Flag { kPlain, kInvisible, kDeprecated, kTestonly, kAlwayslink, kKeep, kNumFlags };
static void SetFlag(Lib *l, int f) {
  switch (f) {
  case kInvisible:
    l->vis = "[\"//visibility:private\"]";
    l->sees = false;
    break;
  case kDeprecated: l->deprecated = true; break;
  case kTestonly: l->testonly = true; break;
  case kAlwayslink: l->alwayslink = true; break;
  }
}
static Project Base() {
  Project p;
  Source s;
  s.name = "s.cc";
  s.path = "p/s.cc";
  p.sources.push_back(s);
  return p;
}

// -- Includes of C++ source: reference that goes through it by character.
struct Inc {
  std::string path;
  size_t pos;
  bool operator==(const Inc &) const = default;
};
static std::vector<Inc> RefIncludes(const std::string &s) {
  std::vector<Inc> r;
  bool line_start = true;  // Only whitespace since beginning of line
  for (size_t i = 0; i < s.size();) {
    const char c = s[i];
    if (s.compare(i, 2, "//") == 0) {
      while (i < s.size() && s[i] != '\n') ++i;
    } else if (s.compare(i, 2, "/*") == 0) {
      i = s.find("*/", i + 2) + 2;
    } else if (s.compare(i, 2, "R\"") == 0) {
      const size_t open = s.find('(', i);
      const std::string end = ")" + s.substr(i + 2, open - i - 2) + "\"";
      i = s.find(end, open) + end.size();
      line_start = false;
    } else if (c == '"' || (c == '\'' && !(i && isalnum(s[i - 1])))) {
      for (++i; s[i] != c; ++i) {
        if (s[i] == '\\') ++i;
      }
      ++i;
      line_start = false;
    } else if (c == '#' && line_start) {
      size_t e = s.find_first_not_of(" \t", i + 1);
      i += 1;
      line_start = false;
      if (s.compare(e, 7, "include") != 0) continue;
      e = s.find_first_not_of(" \t", e + 7);
      if (s[e] != '"') continue;
      const size_t q = s.find('"', e + 1);
      r.push_back({s.substr(e + 1, q - e - 1), e + 1});
      i = q + 1;
    } else {
      if (c == '\n') line_start = true;
      else if (c != ' ' && c != '\t') line_start = false;
      ++i;
    }
  }
  return r;
}
static void CheckIncludes(const std::string &text) {
  NamedLineIndexedContent src("f.cc", text);
  std::vector<Inc> got;
  const auto want = RefIncludes(text);
  bool pos_ok = true;
  for (const std::string_view inc : ExtractCCIncludes(&src)) {
    const size_t pos = inc.data() - text.data();
    got.push_back({std::string(inc), pos});
    if (pos > text.size()) continue;
    const auto loc = src.GetLocation(inc).line_column_range;
    const int line = std::count(text.begin(), text.begin() + pos, '\n');
    const size_t nl = pos ? text.rfind('\n', pos - 1) : std::string::npos;
    const int col = nl == std::string::npos ? pos : pos - nl - 1;
    pos_ok &= loc.start.line == line && loc.start.col == col;
  }
  vf::Count("evaluations");
  vf::Transition();
  std::string w;
  for (auto &i : want) w += i.path + " ";
  vf::SeeState(w);
  if (got != want || !pos_ok) {
    std::string g;
    for (auto &i : got) g += i.path + " ";
    vf::Fail(pos_ok ? "includes" : "include-position", text + " -> got " + g + " want " + w);
  }
}
static void Includes() {
  const Strs pieces = {
    "#include \"a.h\"\n", "  #  include   \"b/c-d.hh\"\n", "#include\"x+1.2_y.h\"\n",
    "#include <sys.h>\n", "// #include \"no1.h\"\n", "// it's 5\" wide\n", "/* \" */\n",
    "/*\n#include \"no2.h\"\n*/\n", "char c = '\"';\n", "char c = '\\\"';\n",
    "s = \"str \\\" x\";\n", "s = \"// not\";\n", "s = \"/* not\";\n",
    "s = R\"(\n#include \"no3.h\"\n)\";\n", "s = R\"d(\n)\" #include \"no4.h\"\n\n#include \"no5.h\"\n)d\";\n",
    "\t#include \"../../up.h\"  // \"\n", "int x = 1'000;\n", "\n", "s = \"\\\\\";\n", "/* a **/ /**/\n",
    "#include \"a.h\"  /* \" */\n", "#if FOO  // #include\n", "s = \"#include\";\n"};
  const int N = (int)pieces.size();
  const int depth = vf::Thorough() ? 5 : 4;
  for (int a = 0; a < N; ++a) {
    for (int b = -1; b < N; ++b) {
      if (!VF_BEGIN("includes: " + pieces[a] + (b < 0 ? "" : pieces[b]))) continue;
      vf::NonTrivial();
      std::function<void(const std::string &, int)> rec = [&](const std::string &text, int left) {
        CheckIncludes(text);
        if (!left || b < 0) return;
        for (const std::string &p : pieces) rec(text + p, left - 1);
      };
      rec(pieces[a] + (b < 0 ? "" : pieces[b]), depth - 2);
    }
  }
  if (VF_BEGIN("characters in include")) {
    vf::NonTrivial();
    for (int c = 1; c < 256; ++c) {
      if (c == '"' || c == '\n') continue;
      const std::string s(1, c);
      for (const std::string &path : {s, "a" + s, s + "a", "a" + s + "b.h", "d" + s + "/b.h", "a.h" + s}) {
        CheckIncludes("#include \"" + path + "\"\n#include \"z.h\"");
      }
    }
    CheckIncludes("");
    CheckIncludes("#include \"no-newline.h\"");
  }
}

// -- The command, on real files
namespace fs = std::filesystem;
static void Write(const std::string &path, const std::string &content) {
  if (fs::path(path).has_parent_path()) fs::create_directories(fs::path(path).parent_path());
  std::ofstream(path) << content;
}
struct CliTarget {
  std::string pkg, name, rule;
  std::map<std::string, std::string> files;   // name -> header included
  Strs deps;                                  // labels
};
static void Command() {
  const std::string scratch = vf::S().out + "/tree." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  fs::create_directories(scratch);
  fs::current_path(scratch);
  Write("WORKSPACE", "");
  const Strs places = {"", "bazel-bin/", "bazel-genfiles/", "bazel-out/host/bin/"};
  // State of source: bits: where it is; 16: is a directory; 17, 18: to be
  // generated, not there yet, or there.
  for (int state = 0; state < 19; ++state) {
    const int place = state == 17 ? 0 : state == 18 ? 2 : state;
    const std::string gen = state >= 17 ? "genrule(name = \"mk\", outs = [\"t.cc\"])\n" : "";
    for (int deps = 0; deps < 16; ++deps) {
      if (!VF_BEGIN("command: source in places " + std::to_string(state) + " deps " + std::to_string(deps))) continue;
      vf::NonTrivial();
      for (int inc = 0; inc < 4; ++inc) {
        for (const char *pattern : {"//...", "//p:t", "//p/...", "//q:all", "//a:all"}) {
          for (const char *d : {"p", "q", "a", "bazel-bin", "bazel-genfiles", "bazel-out"}) fs::remove_all(d);
          Write("a/BUILD", "cc_library(name = \"a\", hdrs = [\"a.h\"])\ncc_library(name = \"b\", hdrs = [\"b.h\"])\n"
                           "genrule(name = \"gen\", outs = [\"gen.cc\"])\n");
          Strs expect_inc;
          bool have = false;
          for (int i = 0; i < 4; ++i) {
            if (!(place >> i & 1)) continue;
            // Not specified which of generated files wins.
            const char h = (inc >> (i ? 1 : 0) & 1) ? 'b' : 'a';
            Write(places[i] + "p/t.cc", std::string("#include \"a/") + h + ".h\"\n");
            if (!have) expect_inc = {std::string("//a") + (h == 'b' ? ":b" : "")};
            have = true;
          }
          if (place == 16) fs::create_directories("p/t.cc");
          Write("q/u.h", inc & 1 ? "#include \"p/t.h\"\n" : "");
          Write("p/t.h", "");
          Write("a/a.h", "");
          Write("a/b.h", "");
          Write("p/r/v.cc", "#include \"p/t.h\"\n#include \"a/b.h\"\n");
          struct T {
            std::string pkg, name, text;
            Set deps, need;
            bool known;
          };
          std::vector<T> ts = {
            {"//p", "t", "srcs = [\"t.cc\"], hdrs = [\"t.h\"]", {}, Set(expect_inc.begin(), expect_inc.end()), have},
            {"//q", "u", "hdrs = [\"u.h\"]", {}, (inc & 1) ? Set{"//p:t"} : Set{}, true},
            {"//p/r", "v", "srcs = [\"v.cc\"]", {}, {"//p:t", "//a:b"}, true}};
          if (deps & 1) ts[0].deps.insert("//a");
          if (deps & 2) ts[0].deps.insert("//a:b");
          if (deps & 4) ts[1].deps.insert("//p:t");
          if (deps & 8) ts[2].deps.insert("//a:b");
          const std::string pat = pattern;
          auto matched = [&](const T &t) {
            return pat == "//..." || pat == t.pkg + ":" + t.name || pat == t.pkg + ":all" ||
                   (pat == "//p/..." && t.pkg.starts_with("//p"));
          };
          auto write = [&]() {
            for (const T &t : ts) {
              Write(t.pkg.substr(2) + "/BUILD", (t.pkg == "//p" ? gen : "") + "cc_library(name = \"" + t.name + "\", " + t.text + ", deps = " +
                                                  BList(Strs(t.deps.begin(), t.deps.end())) + ")\n");
            }
          };
          for (int round = 0; round < 2; ++round) {
            write();
            // Libraries outside of the pattern are only known if something
            // depends on them.
            Set loaded = {"//p", "//p/r", "//q", "//a"};
            if (pat != "//...") {
              loaded.clear();
              std::function<void(const std::string &)> load = [&](const std::string &pkg) {
                if (!loaded.insert(pkg).second) return;
              };
              std::function<void(const T &)> follow = [&](const T &t) {
                load(t.pkg);
                for (const std::string &d : t.deps) {
                  if (d == "//p:t") follow(ts[0]);
                  else load("//a");
                }
              };
              for (const T &t : ts) {
                if (matched(t)) follow(t);
              }
              if (pat == "//p:t" || pat == "//p/...") load("//p");
              if (pat == "//p/...") load("//p/r");
              if (pat == "//q:all") load("//q");
              if (pat == "//a:all") load("//a");
            }
            Set want;
            std::vector<T> next = ts;
            for (size_t i = 0; i < ts.size(); ++i) {
              const T &t = ts[i];
              if (!matched(t)) continue;
              bool known = t.known;
              Set need;
              auto pkg_of = [](const std::string &l) { return l.substr(0, l.find(':')); };
              for (const std::string &n : t.need) {
                if (loaded.count(pkg_of(n))) need.insert(n);
                else known = false;
              }
              auto rel = [&](const std::string &l) { return Relative(l, t.pkg); };
              for (const std::string &d : t.deps) {
                if (known && !need.count(d)) {
                  want.insert("<buildozer><remove deps " + d + "><" + t.pkg + ":" + t.name + ">");
                  next[i].deps.erase(d);
                }
              }
              for (const std::string &n : need) {
                if (!t.deps.count(n)) {
                  want.insert("<buildozer><add deps " + rel(n) + "><" + t.pkg + ":" + t.name + ">");
                  next[i].deps.insert(n);
                }
              }
            }
            const cli::Result r = cli::Run({"dwyu", pat});
            vf::Count("evaluations");
            vf::Transition();
            Set got;
            int lines = 0;
            std::istringstream in(r.out);
            for (std::string l; std::getline(in, l);) {
              got.insert(ShowCommand(l));
              ++lines;
            }
            vf::SeeState(r.out);
            const bool msg = r.info.find("Missing ?") != std::string::npos;
            if (got != want || lines != (int)want.size() || r.status != (want.empty() ? 0 : 3) ||
                (!r.out.empty() && r.out.back() != '\n')) {
              vf::Fail("command", "dwyu " + pat + " round " + std::to_string(round) + " got " + r.out +
                                    " status " + std::to_string(r.status) + " want " +
                                    cli::Join(Strs(want.begin(), want.end())) + " deps " +
                                    cli::Join(Strs(ts[0].deps.begin(), ts[0].deps.end())));
            }
            const bool gen_msg = r.info.find("bazel build //p:mk") != std::string::npos;
            if (msg != (matched(ts[0]) && !have && state != 17) || gen_msg != (matched(ts[0]) && state == 17)) vf::Fail("missing-message", "dwyu " + pat + r.info);
            ts = next;
          }
        }
      }
    }
  }
  fs::current_path(vf::S().out);
  fs::remove_all(scratch);
}

// What is printed are valid commands for a shell.
static void ShellCommands() {
  const std::string scratch = vf::S().out + "/sh." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  fs::create_directories(scratch);
  fs::current_path(scratch);
  Write("WORKSPACE", "");
  Write("p/a.h", "");
  Write("p/t.cc", "#include \"p/a.h\"\n");
  Write("q/a.h", "");
  Write("q/BUILD", "");
  for (int c = 33; c < 127; ++c) {
    if (strchr("@/:~\\", c)) continue;
    const std::string s(1, (char)c), q = c == '"' ? "'" : "\"";
    if (!VF_BEGIN("command: character " + s + " in names")) continue;
    vf::NonTrivial();
    for (const Strs &n : {Strs{"n", s}, {"n", s + "x"}, {"n", "x" + s + "y"}, {"n", "x" + s}, {s + "x", "n"}, {"x" + s, "n"}, {"x" + s, "y" + s}}) {
      auto lib = [&](const std::string &rest) { return "cc_library(name = " + q + rest + ")\n"; };
      Write("p/BUILD", lib(n[1] + "a" + q + ", hdrs = [\"a.h\"]") + lib(n[1] + "b" + q + ", hdrs = [\"b.h\"]") +
                           lib(n[0] + q + ", srcs = [\"t.cc\"], deps = [" + q + ":" + n[1] + "b" + q + "]"));
      const cli::Result r = cli::Run({"dwyu", "//p:all"});
      vf::Count("evaluations");
      vf::Transition();
      std::string got;
      std::istringstream in(r.out);
      for (std::string l; std::getline(in, l);) got += ShowCommand(l) + "\n";
      const std::string target = (n[0] == "p" ? "><//p>\n" : "><//p:" + n[0] + ">\n");
      const std::string want = "<buildozer><remove deps :" + n[1] + "b" + target + "<buildozer><add deps :" + n[1] + "a" + target;
      if (got != want) vf::Fail("shell", "got " + got + " want " + want);
      vf::SeeState(r.out);
    }
  }
  fs::current_path("/");
  fs::remove_all(scratch);
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  prop = getenv("VF_PROP") ? getenv("VF_PROP") : "C18";
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  const bool th = vf::Thorough();
  if (prop == "C19") Includes();
  if (prop == "C20") {
    Command();
    ShellCommands();
  }

  // -- All assignments of three headers to three libraries, with all subsets
  // of dependencies, and flags of the libraries.
  for (int m = 0; m < 512; ++m) {
    for (int f0 = 0; f0 < kNumFlags; ++f0) {
      if (!VF_BEGIN("three libraries, headers " + std::to_string(m) + " first is " + std::to_string(f0))) continue;
      vf::NonTrivial();
      for (int f12 = 0; f12 < kNumFlags * kNumFlags; ++f12) {
        const int f[3] = {f0, f12 % kNumFlags, f12 / kNumFlags};
        const bool any_testonly = f[0] == kTestonly || f[1] == kTestonly || f[2] == kTestonly;
        const bool plain = f0 == 0 && f12 == 0;
        const int kinds = th || (any_testonly && f12 % kNumFlags < 4) ? 4 : 1;
        for (int kind = 0; kind < kinds; ++kind) {
          // Flags on libraries with all included, with plain ones all subsets
          for (int inc = plain ? 0 : 7; inc < 8; ++inc) {
            for (int d = 0; d < 8; ++d) {
              Project p = Base();
              p.rule = kind == 1 ? "cc_test" : kind == 2 ? "cc_binary" : "cc_library";
              p.testonly = kind == 3;
              for (int i = 0; i < 3; ++i) {
                Lib l;
                l.pkg = "//a";
                l.name = std::string(1, 'a' + i);
                l.hdrs = {l.name + ".h"};
                for (int h = 0; h < 3; ++h) {
                  if (m >> (3 * i + h) & 1) l.hdrs.push_back("h" + std::to_string(h) + ".h");
                }
                SetFlag(&l, f[i]);
                p.libs.push_back(l);
                if (d >> i & 1) p.deps.push_back(D(l.label(), p.pkg, f[i] == kKeep ? "# keep" : ""));
              }
              for (int h = 0; h < 3; ++h) {
                const bool any = m & (0111 << h);
                if ((inc >> h & 1) && (any || plain)) {
                  p.sources[0].includes.push_back("a/h" + std::to_string(h) + ".h");
                }
              }
              Check(p);
            }
          }
        }
      }
    }
  }
  // -- Sizes: many libraries, headers, sources, dependencies; long names.
  for (int n : vf::Sizes(th ? 520 : 130)) {
    for (int shape = 0; n && shape < 8; ++shape) {
      if (!VF_BEGIN("size " + std::to_string(n) + ", shape " + std::to_string(shape))) continue;
      vf::NonTrivial();
      for (int variant = 0; variant < 6; ++variant) {
        Project p = Base();
        auto lib = [&](const std::string &pkg, const std::string &name, const Strs &hdrs) -> Lib & {
          Lib l;
          l.pkg = pkg;
          l.name = name;
          l.hdrs = hdrs;
          p.libs.push_back(l);
          return p.libs.back();
        };
        auto dep = [&](const Lib &l, const std::string &comment = "") { p.deps.push_back(D(l.label(), p.pkg, comment)); };
        Strs &includes = p.sources[0].includes;
        for (int i = 0; i < n; ++i) {
          const std::string k = std::to_string(i);
          const std::string pkg = i % 3 ? "//a" : i % 2 ? "//p" : "//q" + k;
          const bool inc = (i + variant) % 3, has = (i + variant / 2) % 2;
          switch (shape) {
          case 0: {  // Each another header
            Lib &l = lib(pkg, "l" + k, {"h" + k + ".h"});
            if (i % 11 == 10) SetFlag(&l, 1 + i % 4);
            if (inc) includes.push_back(pkg.substr(2) + "/h" + k + ".h");
            if (has) dep(l, i % 7 == 6 ? "# keep" : "");
            break;
          }
          case 1:  // One library of all headers
            if (i == 0) lib("//a", "l", {});
            p.libs[0].hdrs.push_back("h" + k + ".h");
            if (inc) includes.push_back("a/h" + k + ".h");
            if (i == 0 && variant % 2) dep(p.libs[0]);
            break;
          case 2: {  // All the same header
            Lib &l = lib("//a", "l" + k, {"h.h"});
            if (variant == 4 && i != n / 2) SetFlag(&l, kInvisible);
            if (i == n / 2 && variant % 2) dep(l);
            if (i == n - 1 && variant == 3) dep(l);
            if (i == 0) includes.push_back("a/h.h");
            break;
          }
          case 3: {  // Many sources
            Lib &l = lib("//a", "l" + k, {"h" + k + ".h"});
            Source s;
            s.name = "s" + k + (i % 5 == 4 ? ".h" : ".cc");
            s.path = "p/" + s.name;
            s.in_hdrs = i % 5 == 4;
            if (inc) s.includes.push_back("a/h" + k + ".h");
            if (variant == 5 && i == n - 1) s.readable = false;
            p.sources.push_back(s);
            if (s.in_hdrs) p.own.insert("p/" + s.name);
            if (has) dep(l);
            break;
          }
          case 4:  // Long names and long lines
            if (i) break;
            lib("//" + vf::Times("a", n), vf::Times("a", n + variant % 2), {vf::Times("h", n) + ".h"});
            lib("//" + vf::Times("d/", n) + "d", "l", {vf::Times("e/", n) + "x.h"});
            if (variant % 3) {
              if (variant > 3) includes.push_back(vf::Times("a", n) + "/" + vf::Times("h", n) + ".h");
              includes.push_back(vf::Times("d/", n) + "d/" + vf::Times("e/", n) + "x.h");
            }
            if (variant % 2) dep(p.libs[0]);
            if (variant > 2) dep(p.libs[1]);
            break;
          case 5: {  // Far behind in the source
            if (i) break;
            static const Strs between = {"int x;\n", "// c \"q\"\n", "/* a\n b */\n", "#include <vector>\n", "#define X \\\n  y\n", " \n"};
            lib("//a", "l", {"h.h"});
            lib("//a", "m", {"g.h"});
            p.sources[0].raw = vf::Times(between[variant], n);
            includes.push_back("a/h.h");
            if (n % 2) dep(p.libs[0]);
            dep(p.libs[1]);
            break;
          }
          case 6: {  // Aliases, each of the one before
            if (i == 0) lib("//a", "l", {"h.h"});
            Lib &l = lib(i % 2 ? "//a" : "//b", "x" + k, {});
            l.rule = "alias";
            l.actual = i ? (i % 2 ? "//b:x" : "//a:x") + std::to_string(i - 1) : "//a:l";
            if (variant % 3 < 2) SetFlag(&l, kInvisible);
            if (i + 1 == n && variant % 2) dep(l);
            if (i == 0 && variant > 1) includes.push_back("a/h.h");
            break;
          }
          default: {  // Repeated
            if (i == 0) lib("//a", "l", {"h.h"}), lib("//a", "m", {"g.h"});
            includes.push_back(inc ? "a/h.h" : "a/g.h");
            if (variant > 2) dep(p.libs[variant % 2], variant == 4 && i == n / 2 ? "# keep" : "");
          }
          }
        }
        Check(p);
      }
    }
  }
  // -- Names with a meaning to the reader only, in all kinds of rules.
  {
    const Strs targets = {"t", "t_test", "test", "tests", "t_testing", "testonly", "t_binary", "t_main", "t_lib", "t_internal", "private", "mock_t", "third_party", "_", "t.cc"};
    const Strs libs = {"a", "a_test", "test", "gmock", "gtest_main", "testing", "a_testlib", "a_mock", "internal", "external"};
    const Strs pkgs = {"//p", "//p_test", "//test", "//p/testing", "//internal", "//external", "//third_party/p"};
    for (size_t n = 0; n < targets.size(); ++n) {
      for (size_t ln = 0; ln < libs.size(); ++ln) {
        if (!VF_BEGIN("target named " + targets[n] + " library named " + libs[ln])) continue;
        vf::NonTrivial();
        for (size_t pk = 0; pk < pkgs.size(); ++pk) {
          for (int lp = 0; lp < 3; ++lp) {
            for (const char *rule : {"cc_library", "cc_test", "cc_binary"}) {
              for (int f = 0; f < kNumFlags; ++f) {
                for (int bits = 0; bits < 8; ++bits) {
                  Project p = Base();
                  p.pkg = pkgs[pk];
                  p.name = targets[n];
                  p.rule = rule;
                  p.testonly = bits & 1;
                  p.sources[0].path = p.pkg.substr(2) + "/s.cc";
                  Lib l;
                  l.pkg = lp == 0 ? "//a" : lp == 1 ? "//testing/a" : p.pkg;
                  l.name = libs[ln];
                  if (l.label() == p.target()) continue;
                  l.hdrs = {"x.h"};
                  SetFlag(&l, f);
                  if (bits & 2) p.sources[0].includes = {l.pkg.substr(2) + "/x.h"};
                  p.libs.push_back(l);
                  if (bits & 4) p.deps.push_back(D(l.label(), p.pkg, f == kKeep ? "# keep" : ""));
                  Check(p);
                }
              }
            }
          }
        }
      }
    }
  }
  // -- Four libraries
  for (int m = 0; m < 4096; m += 8) {
    if (!VF_BEGIN("four libraries, headers " + std::to_string(m))) continue;
    vf::NonTrivial();
    for (int mm = m; mm < m + 8; ++mm) {
      for (int f = 0; f < 4 * (th ? 4 : 1); ++f) {
        for (int d = 0; d < 16; ++d) {
          Project p = Base();
          for (int i = 0; i < 4; ++i) {
            Lib l;
            l.pkg = i < 3 ? "//a" : "//a";
            l.name = std::string(1, 'b' + i);
            l.hdrs = {l.name + ".h"};
            for (int h = 0; h < 3; ++h) {
              if (mm >> (3 * i + h) & 1) l.hdrs.push_back("h" + std::to_string(h) + ".h");
            }
            if (i == 3 - f / 4) SetFlag(&l, f % 4);
            p.libs.push_back(l);
            if (d >> i & 1) p.deps.push_back(D(l.label()));
          }
          for (int h = 0; h < 3; ++h) {
            if (mm & (01111 << h)) p.sources[0].includes.push_back("a/h" + std::to_string(h) + ".h");
          }
          if (d & 1) std::reverse(p.deps.begin(), p.deps.end());
          Check(p);
        }
      }
    }
  }
  // -- Aliases
  for (int to = 0; to < 36; ++to) {
    for (int place = 0; place < 4; ++place) {
      for (int af = 0; af < 9; ++af) {
        if (!VF_BEGIN("aliases to " + std::to_string(to) + " placed " + std::to_string(place) + " flags " + std::to_string(af))) continue;
        vf::NonTrivial();
        for (int lf = 0; lf < 13; ++lf) {
          Project b = Base();
          for (int i = 0; i < 2; ++i) {
            Lib l;
            l.pkg = "//a";
            l.name = i ? "l" : "a";
            if (lf != 11 + i) l.hdrs = {"h" + std::to_string(i) + ".h"};
            if (lf / 5 == i && lf < 11) SetFlag(&l, lf % 5);
            b.libs.push_back(l);
          }
          const int t[2] = {to % 6, to / 6};
          const int fl[2] = {af % 3, af / 3};
          for (int i = 0; i < 2; ++i) {
            Lib l;
            l.rule = "alias";
            l.pkg = (place >> i & 1) ? "//p" : "//x";
            l.name = i ? "x" : "y";
            SetFlag(&l, fl[i]);
            b.libs.push_back(l);
          }
          // A test that could be a target; no providers
          Lib test;
          test.rule = "cc_test";
          test.pkg = "//a";
          test.name = "t";
          b.libs.push_back(test);
          for (int i = 0; i < 2; ++i) {
            b.libs[2 + i].actual = t[i] == 5 ? "//nope" : b.libs[t[i]].label();
          }
          for (int d = 0; d < 16; ++d) {
            for (int inc = 0; inc < 4; ++inc) {
              Project p = b;
              for (int i = 0; i < 4; ++i) {
                if (d >> i & 1) p.deps.push_back(D(b.libs[i].label()));
              }
              for (int h = 0; h < 2; ++h) {
                if ((inc >> h & 1) && lf != 11 + h) p.sources[0].includes.push_back("a/h" + std::to_string(h) + ".h");
              }
              Check(p);
            }
          }
        }
      }
    }
  }
  // -- Sources: readable or not, with own headers, unknown ones, ...
  {
    const Strs incs = {"a/a.h", "b/b.h", "r.h", "p/r.h", "own.h", "p/own.h", "stripped.h", "p/textual.inc", "zzz/unknown.h", "p/colon.h"};
    const int N = (int)incs.size();
    const Strs names = {"s.cc", ":s.cc", "sub/s.cc"};
    for (int n = 0; n < 3; ++n) {
      for (int m0 = 0; m0 <= 1 << N; m0 += 8) {
        if (!VF_BEGIN("sources " + names[n] + " " + std::to_string(m0))) continue;
        vf::NonTrivial();
        for (int m = m0; m < m0 + 8 && m <= 1 << N; ++m) {
          // Second source: missing, or with one of the includes
          for (int s2 = -2; s2 < N; ++s2) {
            for (int d = 0; d < 16; d += (n && !th) ? 5 : 1) {
              Project p;
              p.elaborate = n == 1;
              Source s;
              s.name = names[n];
              s.path = n == 2 ? "p/sub/s.cc" : "p/s.cc";
              s.readable = m < 1 << N;
              for (int i = 0; i < N; ++i) {
                if (m >> i & 1) s.includes.push_back(incs[i]);
              }
              p.sources.push_back(s);
              Source o;
              o.name = "own.h";
              o.path = "p/own.h";
              o.in_hdrs = true;
              o.readable = s2 != -2;
              if (s2 >= 0) o.includes = {incs[s2]};
              p.sources.push_back(o);
              for (const char *extra : {"inc/stripped.h", ":colon.h"}) {
                Source e;
                e.name = extra;
                e.path = std::string("p/") + (extra[0] == ':' ? extra + 1 : extra);
                e.in_hdrs = true;
                p.sources.push_back(e);
              }
              p.extra = ", includes = [\"inc\"], textual_hdrs = [\"textual.inc\"]";
              p.own = {"own.h", "p/own.h", "stripped.h", "p/textual.inc", "p/colon.h"};
              const Strs pk = {"//a", "//b", "//p", "//u"}, nm = {"a", "b", "r", "u"};
              for (int i = 0; i < 4; ++i) {
                Lib l;
                l.pkg = pk[i];
                l.name = nm[i];
                l.hdrs = {nm[i] + ".h"};
                p.libs.push_back(l);
                if (d >> i & 1) p.deps.push_back(D(l.label()));
              }
              if ((s2 == -2 || !s.readable) && (d & 1)) {  // Not there yet
                p.preamble["//p"] = "genrule(name = \"make\", outs = [\"s.cc\", \"sub/s.cc\", \"own.h\"])\n";
              }
              Check(p);
            }
          }
        }
      }
    }
  }
  // -- Files of the same name: own ones, ones of others
  {
    const Strs owned = {"a.h", "sub/a.h", "b/a.h", "xa.h"};
    const Strs users = {"//p", "//", "//q/p"};
    for (int u = 0; u < 3; ++u) {
      for (int own = 0; own < 16; ++own) {
        for (int in_hdrs = 0; in_hdrs < 2; ++in_hdrs) {
          if (!VF_BEGIN("same names, own " + std::to_string(own) + " user " + std::to_string(u) + (in_hdrs ? " in hdrs" : " in srcs"))) continue;
          vf::NonTrivial();
          Project b = Base();
          b.pkg = users[u];
          const std::string prefix = u == 1 ? "" : b.pkg.substr(2) + "/";
          b.sources[0].path = prefix + "s.cc";
          for (int i = 0; i < 4; ++i) {
            if (!(own >> i & 1)) continue;
            Source s;
            s.name = owned[i];
            s.path = prefix + owned[i];
            s.in_hdrs = in_hdrs;
            b.sources.push_back(s);
            b.own.insert(s.name);
            b.own.insert(s.path);
          }
          const Strs pk = {"//q", "//sub", "//q/sub", "//r/p", "//r"};
          const Strs hd = {"a.h", "a.h", "a.h", "xa.h", "p/sub/a.h"};
          Strs incs;
          for (int i = 0; i < 5; ++i) {
            Lib l;
            l.pkg = pk[i];
            l.name = "l";
            l.hdrs = {hd[i]};
            b.libs.push_back(l);
            incs.push_back(pk[i].substr(2) + "/" + hd[i]);
          }
          for (int inc = 0; inc < 32; ++inc) {
            for (int mine = 0; mine < 3; ++mine) {
              for (int d = 0; d < 32; d += th ? 1 : 5) {
                Project p = b;
                for (int i = 0; i < 5; ++i) {
                  if (inc >> i & 1) p.sources.back().includes.push_back(incs[i]);
                  if (d >> i & 1) p.deps.push_back(D(b.libs[i].label(), p.pkg));
                }
                for (size_t i = 1; mine && i < b.sources.size(); ++i) {
                  p.sources[0].includes.push_back(mine == 1 ? b.sources[i].name : b.sources[i].path);
                }
                Check(p);
              }
            }
          }
        }
      }
    }
  }
  // -- Expressions as srcs
  if (VF_BEGIN("sources that can not be determined")) {
    vf::NonTrivial();
    const std::vector<std::pair<std::string, bool>> exprs = {
      {"UNKNOWN", false}, {"[\"s.cc\"] + UNKNOWN", false}, {"UNKNOWN + [\"s.cc\"]", false},
      {"[\"s.cc\"] + UNKNOWN + [\"s.cc\"]", false}, {"[\"s.cc\"] + ([\"s.cc\"] + UNKNOWN)", false},
      {"[\"s.cc\"] + select({\"//x\": [\"t.cc\"]})", false}, {"select({\"//x\": [\"t.cc\"]})", false},
      {"function()", false}, {"[\"s.cc\", UNKNOWN]", false}, {"[\"s.cc\", function()]", false},
      {"[x for x in [\"s.cc\"]]", false}, {"[\"s.cc\"] if UNKNOWN else []", false},
      {"KNOWN", true}, {"KNOWN + KNOWN", true}, {"[\"s.cc\"] + KNOWN", true}, {"[\"s\" + \".cc\"]", true},
      {"PARTIAL", false}, {"PARTIAL + KNOWN", false}, {"KNOWN + PARTIAL", false}, {"ONCE", true},
      {"glob(UNKNOWN)", false}, {"glob([UNKNOWN])", false}, {"glob([\"n.cc\"] + UNKNOWN)", false},
      {"glob(include = UNKNOWN)", false}, {"glob([\"n.cc\", \"n\" + UNKNOWN])", false},
      {"glob(include = [\"n.cc\"], exclude = []) + UNKNOWN", false},
      {"glob(UNKNOWN) + [\"s.cc\"]", false}, {"KNOWN + glob(KNOWN + UNKNOWN)", false},
      {"glob([n + \"x\" for n in UNKNOWN])", false}, {"glob(select({\"//x\": [\"t.cc\"]}))", false},
      {"glob([x for x in UNKNOWN], exclude = [\"s.cc\"])", false}, {"glob(exclude = UNKNOWN, include = UNKNOWN)", false},
      {"glob([\"s.cc\"])", true}, {"glob(include = [\"*.cc\"], exclude = [\"t.cc\"])", true},
      {"glob([\"none.*\"]) + [\"s.cc\"]", true}, {"KNOWN + glob([\"**/*.none\"])", true},
      {"glob(KNOWN)", true}, {"glob(KNOWN) + UNKNOWN", false},
      {"[]", true}};
    // Files found by the glob()
    const std::string tree = vf::S().out + "/glob." + std::to_string(vf::S().shard);
    fs::remove_all(tree);
    fs::create_directories(tree + "/p/sub");
    fs::current_path(tree);
    std::ofstream("p/s.cc") << "";
    std::ofstream("p/t.cc") << "";
    for (auto &[e, known] : exprs) {
      for (int in_hdrs = 0; in_hdrs < 2; ++in_hdrs) {
        for (int inc = 0; inc < 4; ++inc) {
          for (int d = 0; d < 8; ++d) {
            Project p = Base();
            p.elaborate = true;
            p.sources_known = known;
            if (in_hdrs) {
              p.extra = ", hdrs = " + e;
            } else {
              p.srcs_expr = e;
            }
            p.preamble["//p"] = "KNOWN = [\"s.cc\"]\nONCE = [\"s.cc\"]\nPARTIAL = ONCE + UNKNOWN\n";
            if (e == "[]" && !in_hdrs) p.sources.clear();
            for (int i = 0; i < 3; ++i) {
              Lib l;
              l.pkg = "//a";
              l.name = std::string(1, 'a' + i);
              l.hdrs = {l.name + ".h"};
              p.libs.push_back(l);
              if ((inc >> i & 1) && !p.sources.empty() && (known || e.find("s.cc") != std::string::npos)) {
                p.sources[0].includes.push_back("a/" + l.name + ".h");
              }
              if (d >> i & 1) p.deps.push_back(D(l.label()));
            }
            // Included but in the part not seen by the tool: no expectations
            // on additions.
            if (!known && !in_hdrs && prop == "C19") continue;
            Check(p);
          }
        }
      }
    }
  }
  fs::current_path("/");
  fs::remove_all(vf::S().out + "/glob." + std::to_string(vf::S().shard));
  // -- Forms of dependencies, comments
  {
    struct Form {
      std::string expr, literal, label;
    };
    const std::vector<Form> forms = {
      {"\":l\"", ":l", "//p:l"}, {"\"l\"", "l", "//p:l"}, {"\"//p:l\"", "//p:l", "//p:l"},
      {"'//p:l'", "//p:l", "//p:l"}, {"\"@//p:l\"", "@//p:l", "//p:l"},
      {"\"//a\"", "//a", "//a"}, {"\"//a:a\"", "//a:a", "//a"}, {"\"//a:b\"", "//a:b", "//a:b"},
      {"\"@ext//x:y\"", "@ext//x:y", "@ext//x:y"}, {"\"//nope\"", "//nope", "//nope"},
      {"\"bad//label//\"", "bad//label//", ""}, {"\"//a\" + \":b\"", "//a:b", "//a:b"},
      {"\":\" + \"l\"", ":l", "//p:l"}, {"V", "//a:b", "//a:b"}, {"V2", ":l", "//p:l"}};
    const Strs comments = {"", "# keep", "#keep", "# do not remove", "# TODO: please keep this", "# upkeeping # x"};
    const int F = (int)forms.size();
    for (int a = 0; a < F; ++a) {
      for (int b = -1; b < F; ++b) {
        if (!VF_BEGIN("dependency forms " + forms[a].expr + " and " + (b < 0 ? "" : forms[b].expr))) continue;
        vf::NonTrivial();
        for (int c = -1; c < (b < 0 ? 0 : th ? F : 3); ++c) {
          for (size_t ca = 0; ca < comments.size(); ++ca) {
            for (size_t cb = 0; cb < (b < 0 ? 1 : comments.size()); ++cb) {
              for (int inc = 0; inc < 8; ++inc) {
                for (int opt = 0; opt < 4; ++opt) {
                  Project p = Base();
                  p.elaborate = true;
                  p.ignore_keep = opt & 1;
                  p.preamble["//p"] = "V = \"//a:b\"\nV2 = \":\" + \"l\"\n";
                  const Strs pk = {"//p", "//a", "//a"}, nm = {"l", "a", "b"};
                  for (int i = 0; i < 3; ++i) {
                    Lib l;
                    l.pkg = pk[i];
                    l.name = nm[i];
                    l.hdrs = {nm[i] + ".h"};
                    if (inc >> i & 1) p.sources[0].includes.push_back(pk[i].substr(2) + "/" + nm[i] + ".h");
                    p.libs.push_back(l);
                  }
                  auto add = [&](int f, const std::string &comment) {
                    p.deps.push_back({forms[f].expr, forms[f].literal, forms[f].label, comment});
                  };
                  add(a, comments[ca]);
                  if (b >= 0) add(b, comments[cb]);
                  if (c >= 0) add(c, "");
                  if (opt & 2) {  // In one line: both protected by one comment.
                    if (b < 0 || c >= 0 || ca || a >= F - 2 || b >= F - 2) continue;
                    p.deps[0].comment = "";
                    p.deps[1].same_line = true;
                    const std::string shared = p.deps[1].comment;
                    // Model: protected by comment of the other one
                    Project q = p;
                    q.deps[0].comment = shared;
                    // Same text: comment only at the end of the line.
                    p.deps[0].expr += "," + p.deps[1].expr;
                    p.deps[0].comment = shared;
                    const Strs lits = {p.deps[0].literal, p.deps[1].literal};
                    p.deps.pop_back();
                    // Check only protection
                    const Edits e = Run(p);
                    for (const Edit &x : e) {
                      if (x.op == EditRequest::kRemove && shared.find("keep") != std::string::npos && !p.ignore_keep && prop == "C18") {
                        vf::Fail("removed-protected", Str(e) + Desc(p));
                      }
                    }
                    continue;
                  }
                  // Value of V, V2 is written elsewhere: the comment does not
                  // belong to it.
                  for (Dep &d : p.deps) {
                    if (d.expr[0] == 'V' && d.is_protected()) d.comment = "";
                  }
                  Check(p);
                }
              }
            }
          }
        }
      }
    }
  }
  // -- Visibility
  {
    struct Entry {
      std::string text;
      // user packages: //p //p/q //a/b //pp //; library in //a
      int sees;
    };
    const Strs users = {"//p", "//p/q", "//a/b", "//pp", "//", "//a"};
    const std::vector<Entry> e = {
      {"\"//visibility:public\"", 31}, {"\"//visibility:private\"", 0}, {"\"//p:__pkg__\"", 1},
      {"\"//p:__subpackages__\"", 3}, {"\"//:__subpackages__\"", 31}, {"\"//:__pkg__\"", 16},
      {"\"//p/q:__pkg__\"", 2}, {"\":__subpackages__\"", 4}, {"\"//pp:__subpackages__\"", 8},
      {"\"//some:group\"", 31}, {"UNKNOWN", -1}, {"\"@ext//p:__pkg__\"", 0}};
    const int N = (int)e.size();
    for (int a = -1; a < N; ++a) {
      for (int b = -1; b < N; ++b) {
        if (!VF_BEGIN("visibility " + std::to_string(a) + " " + std::to_string(b))) continue;
        vf::NonTrivial();
        if (a < 0 && b >= 0) continue;
        for (int def = -1; def <= N; ++def) {  // default_visibility; N: empty list
          for (int none = 0; none < 2; ++none) {
            if (none && a >= 0) continue;
            for (int u = 0; u < 6; ++u) {
              for (int dep = 0; dep < 2; ++dep) {
                Project p = Base();
                p.pkg = users[u];
                p.sources[0].path = p.pkg == "//" ? "s.cc" : p.pkg.substr(2) + "/s.cc";
                p.sources[0].includes = {"a/a.h"};
                auto sees = [&](std::vector<int> list) {
                  bool any = false, match = false;
                  for (int x : list) {
                    if (e[x].sees < 0) continue;
                    any = true;
                    match |= e[x].sees >> u & 1;
                  }
                  return match || !any;
                };
                std::vector<int> list, dlist;
                if (a >= 0) list.push_back(a);
                if (b >= 0) list.push_back(b);
                if (def >= 0 && def < N) dlist.push_back(def);
                auto text = [&](const std::vector<int> &l) {
                  std::string r;
                  for (int x : l) r += (r.empty() ? "" : ", ") + e[x].text;
                  return "[" + r + "]";
                };
                Lib l;
                l.pkg = "//a";
                l.name = "a";
                l.hdrs = {"a.h"};
                if (!none) l.vis = text(list);
                if (def >= 0) p.preamble["//a"] = "package(default_visibility = " + text(dlist) + ")\n";
                l.sees = none ? (def < 0 || sees(dlist)) : sees(list);
                p.libs.push_back(l);
                if (dep) p.deps.push_back(D("//a", p.pkg));
                Check(p);
              }
            }
          }
        }
      }
    }
  }
  return vf::Finish();
}
