// Explorer: queries for targets in all small BUILD files; the commands that
// list targets and packages.
#include <filesystem>
#include <fstream>
#include <iostream>

#include "bant/explore/query-utils.h"
#include "bt.h"
#include "cli.h"
#include "common.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using namespace bant;

// -- Attributes
enum AttrType { kStr, kList, kBool };
struct Attr {
  const char *name;
  AttrType type;
};
static const std::vector<Attr> attrs = {
  {"name", kStr},           {"actual", kStr},
  {"version", kStr},        {"repo_name", kStr},
  {"deprecation", kStr},    {"include_prefix", kStr},
  {"strip_include_prefix", kStr},
  {"srcs", kList},          {"hdrs", kList},
  {"textual_hdrs", kList},  {"public_hdrs", kList},
  {"deps", kList},          {"outs", kList},
  {"visibility", kList},    {"includes", kList},
  {"alwayslink", kBool},    {"testonly", kBool},
  {"tags", kList},          {"default_visibility", kList},
  {"namer", kStr},          {"hdr", kList},
};
struct Value {
  const char *text;   // %: unique marker
  char kind;          // s: string; l: list; t/f: true, false; o: other
};
static const std::vector<Value> values = {
  {"\"%\"", 's'},          {"[\"%\"]", 'l'},      {"[]", 'l'},
  {"[\"%\", \"z\"]", 'l'}, {"True", 't'},         {"False", 'f'},
  {"1", 't'},              {"0", 'f'},            {"VAR", 'o'},
  {"call(name = \"n%\")", 'o'},                   {"\"%\" + VAR", 'o'},
  {"[\"%\"] + VAR", 'o'},  {"select({\"x\": [\"%\"]})", 'o'},
  {"(\"%\", \"z\")", 'l'},
};

struct Expect {
  std::map<std::string, std::string> str;   // attribute -> string
  std::map<std::string, std::string> list;  // attribute -> dump
  bool alwayslink = false, testonly = false;
  std::string rule;
  std::string Show() const {
    std::string r = rule + "(";
    for (auto &[k, v] : str) {
      if (!v.empty()) r += k + "=" + v + " ";
    }
    for (auto &[k, v] : list) r += k + "=" + v + " ";
    if (alwayslink) r += "alwayslink ";
    if (testonly) r += "testonly ";
    return r + ")";
  }
};
static Expect FromResult(const query::Result &r) {
  Expect e;
  e.rule = r.rule;
  auto s = [&](const char *n, std::string_view v) {
    if (!v.empty()) e.str[n] = v;
  };
  auto l = [&](const char *n, List *v) {
    if (v) e.list[n] = bt::Dump(v);
  };
  s("name", r.name);
  s("actual", r.actual);
  s("version", r.version);
  s("repo_name", r.repo_name);
  s("deprecation", r.deprecation);
  s("include_prefix", r.include_prefix);
  s("strip_include_prefix", r.strip_include_prefix);
  l("srcs", r.srcs_list);
  l("hdrs", r.hdrs_list);
  l("textual_hdrs", r.textual_hdrs);
  l("public_hdrs", r.public_hdrs);
  l("deps", r.deps_list);
  l("outs", r.outs_list);
  l("visibility", r.visibility);
  l("includes", r.includes_list);
  e.alwayslink = r.alwayslink;
  e.testonly = r.testonly;
  return e;
}
static std::string Fill(std::string t, const std::string &m) {
  for (size_t p; (p = t.find('%')) != std::string::npos;) t.replace(p, 1, m);
  return t;
}
static std::string DumpOf(const std::string &text) {
  bt::Parsed p("x = " + text + "\n");
  const std::string d = bt::Dump(p.ast);
  // "[list (= x VALUE)]"
  const size_t b = d.find("(= x ") + 5;
  return d.substr(b, d.rfind(")") - b);
}

using Given = std::pair<int, int>;  // attribute, value
static std::string CallText(const std::string &rule,
                            const std::vector<Given> &given) {
  std::string r = rule + "(\n";
  int m = 0;
  for (auto [a, v] : given) {
    r += std::string("    ") + attrs[a].name + " = " +
         Fill(values[v].text, "v" + std::to_string(m++)) + ",\n";
  }
  return r + ")\n";
}
static Expect CallExpect(const std::string &rule,
                         const std::vector<Given> &given,
                         const std::string &default_visibility) {
  Expect e;
  e.rule = rule;
  int m = 0;
  bool empty_hdrs = true;
  for (auto [a, v] : given) {
    const std::string marker = "v" + std::to_string(m++);
    const std::string n = attrs[a].name;
    const char k = values[v].kind;
    static const std::set<std::string> not_reported = {
      "tags", "default_visibility", "namer", "hdr"};
    if (not_reported.count(n)) continue;
    if (attrs[a].type == kStr && k == 's') e.str[n] = marker;
    if (attrs[a].type == kList && k == 'l') {
      static std::map<std::string, std::string> memo;
      const std::string text = Fill(values[v].text, marker);
      auto [it, isnew] = memo.emplace(text, "");
      if (isnew) it->second = DumpOf(text);
      e.list[n] = it->second;
      if (n == "hdrs") empty_hdrs = std::string(values[v].text) == "[]";
    }
    if (n == "alwayslink" && (k == 't' || k == 'f')) e.alwayslink = k == 't';
    if (n == "testonly" && (k == 't' || k == 'f')) e.testonly = k == 't';
  }
  if (rule == "cc_library" && empty_hdrs) e.alwayslink = true;
  if (!e.list.count("visibility") && !default_visibility.empty()) {
    e.list["visibility"] = default_visibility;
  }
  return e;
}

static void CheckCall(const std::string &rule, const std::vector<Given> &given,
                      int context) {
  for (auto [a, v] : given) {  // Not meaningful: number for a string.
    if (attrs[a].type == kStr && isdigit(values[v].text[0])) return;
  }
  static const Strs before = {"", "package(default_visibility = [\"//d\"])\n",
                              "foo(name = \"other\", deps = [\"o\"], hdrs = "
                              "[\"oh\"], alwayslink = 1, testonly = True, "
                              "visibility = [\"//o\"], actual = \"oa\")\n"};
  static const Strs defvis = {"", "[list '//d']", ""};
  const std::string text = before[context] + CallText(rule, given);
  bt::Parsed p(text);
  if (p.error) {
    vf::Fail("parse", text + p.errors);
    return;
  }
  const Expect want = CallExpect(rule, given, defvis[context]);
  std::vector<Expect> got;
  query::FindTargetsAllowEmptyName(p.ast, {}, [&](const query::Result &r) {
    got.push_back(FromResult(r));
  });
  if (context == 2 && !got.empty()) got.erase(got.begin());
  vf::Count("evaluations");
  vf::Transition();
  vf::SeeState(want.Show());
  if (got.size() != 1 || got[0].Show() != want.Show()) {
    vf::Fail("attributes", text + " want " + want.Show() + " got " +
                             (got.empty() ? "nothing" : got[0].Show()));
  }
  int named = 0;
  query::FindTargets(p.ast, {"other_rule", std::string_view(rule)},
                     [&](const query::Result &r) { ++named; });
  if (named != (want.str.count("name") ? 1 : 0) +
                 ((context == 2 && rule == "foo") ? 1 : 0)) {
    vf::Fail("named", text);
  }
}

// -- Sequences of calls
struct Item {
  const char *text;
  const char *rule;       // reported as (empty: not reported)
  const char *name;       // ""
  const char *deps;       // dump or ""
  const char *visibility; // own visibility: dump or ""
  const char *defvis;     // sets the default visibility: dump or ""
};
static const std::vector<Item> items = {
  {"cc_library(name = \"a\", deps = [\":x\"], hdrs = [\"h\"])", "cc_library", "a", "[list ':x']", "", ""},
  {"cc_library(hdrs = [\"h\"], visibility = [\"//v\"], name = \"b\")", "cc_library", "b", "", "[list '//v']", ""},
  {"cc_binary(name = \"c\", visibility = [])", "cc_binary", "c", "", "[list]", ""},
  {"alias(name = \"d\", actual = \":a\")", "alias", "d", "", "", ""},
  {"load(\"x.bzl\", \"y\", name = \"sym\")", "load", "sym", "", "", ""},
  {"load(\"x.bzl\", \"y\")", "load", "", "", "", ""},
  {"package(default_visibility = [\"//p1\"])", "", "", "", "", "[list '//p1']"},
  {"package(default_visibility = [\"//p2\"], name = \"pkg\", deps = [\"q\"])", "", "", "", "", "[list '//p2']"},
  {"package(licenses = [\"notice\"])", "", "", "", "", ""},
  {"package(default_visibility = VAR)", "", "", "", "", ""},
  {"native.cc_test(name = \"e\", deps = [])", "cc_test", "e", "[list]", "", ""},
  {"macro(inner(name = \"inner\", deps = [\"i\"]), name = \"f\")", "macro", "f", "", "", ""},
  {"macro(inner(name = \"inner\", deps = [\"i\"]))", "macro", "", "", "", ""},
  {"macro(name = \"g\", arg = inner(name = \"inner\", visibility = [\"i\"]))", "macro", "g", "", "", ""},
  {"macro([cc_library(name = \"inner\", deps = [\"i\"])], {\"k\": inner(visibility = [\"i\"])}, name = \"h\")", "macro", "h", "", "", ""},
  {"X = [\"name\"]", "", "", "", "", ""},
  {"deps = [\"w\"]", "", "", "", "", ""},
  {"name = \"w\"", "", "", "", "", ""},
  {"cc_library(name = \"\", hdrs = [\"h\"])", "cc_library", "", "", "", ""},
  {"cc_library_x(name = \"k\", deps = (\"t\",))", "cc_library_x", "k", "<tuple 't'>", "", ""},
};

static void CheckSequence(const std::vector<int> &seq) {
  std::string text;
  struct E {
    std::string rule, name, deps, vis;
  };
  std::vector<E> want;
  std::string defvis;
  for (int i : seq) {
    const Item &it = items[i];
    text += it.text;
    text += "\n";
    if (*it.defvis) defvis = it.defvis;
    if (*it.rule) {
      want.push_back({it.rule, it.name, it.deps,
                      *it.visibility ? it.visibility : defvis});
    }
  }
  bt::Parsed p(text);
  if (p.error) {
    vf::Fail("parse", p.errors);
    return;
  }
  auto run = [&](std::initializer_list<std::string_view> rules, bool empty) {
    std::string got, exp;
    auto cb = [&](const query::Result &r) {
      got += std::string(r.rule) + "," + std::string(r.name) + "," +
             (r.deps_list ? bt::Dump(r.deps_list) : "") + "," +
             (r.visibility ? bt::Dump(r.visibility) : "") + ";";
    };
    if (empty) {
      query::FindTargetsAllowEmptyName(p.ast, rules, cb);
    } else {
      query::FindTargets(p.ast, rules, cb);
    }
    for (const E &e : want) {
      bool in = rules.size() == 0;
      for (auto r : rules) in |= r == e.rule;
      if (!in || (!empty && e.name.empty())) continue;
      exp += e.rule + "," + e.name + "," + e.deps + "," + e.vis + ";";
    }
    vf::Count("evaluations");
    vf::Transition();
    vf::SeeState(exp);
    if (got != exp) vf::Fail("sequence", text + " got " + got + " want " + exp);
  };
  for (bool empty : {false, true}) {
    run({}, empty);
    run({"cc_library"}, empty);
    run({"cc_binary", "alias"}, empty);
    run({"load", "macro", "cc_library"}, empty);
    run({"inner", "cc_test"}, empty);
    run({"nothing"}, empty);
  }
}

// -- Calls within expressions
static const Strs expressions = {
  "[%]", "[a, %, \"s\"]", "[%, %]", "(%, %)", "{\"k\": %, \"l\": %}", "[% for x in y]",
  "[x for x in %]", "[x for x in y if %]", "[% if x else y]", "[x if % else y]",
  "[x if y else %]", "[x if %]", "[%[0]]", "[x[%]]", "[x[%:1]]", "[x[1:%]]",
  "[-%]", "[not %]", "[% + x]", "[x + %]", "[x + y + %]", "[x.%]", "native.%",
  "[% and %]", "[x in %]", "[{\"k\": v, \"l\": [%]}]", "[{%: v}]",
  "[{k: % for k in y}]", "[[% for x in y] for z in w]", "[x for x in y for z in %]",
};
static void CheckNested(const std::vector<size_t> &nest, size_t before) {
  static const Strs pre = {"", "cc_library(name = \"first\", deps = [\"d\"])\n",
                           "package(default_visibility = [\"//v\"])\n"};
  std::string e = "%";
  for (size_t i = 0; i < nest.size(); ++i) {
    std::string outer = expressions[nest[i]];
    // Statements are not expressions
    if (outer.starts_with("native") && i + 1 < nest.size()) return;
    std::string next;
    for (char c : outer) {
      if (c == '%') next += e;
      else next += c;
    }
    if ((outer == "[x.%]" || outer == "native.%") && i > 0) return;
    e = next;
  }
  if (e[0] == '(' || e[0] == '{') e = "[" + e + "]";  // statement
  std::string text = pre[before], want;
  if (before == 1) want += "cc_library,first,[list 'd'],;";
  int n = 0;
  for (char c : e) {
    if (c != '%') {
      text += c;
      continue;
    }
    const std::string k = std::to_string(n++);
    text += "cc_binary(name = \"n" + k + "\", deps = [\"d" + k + "\"])";
    want += "cc_binary,n" + k + ",[list 'd" + k + "']," +
            (before == 2 ? "[list '//v']" : "") + ";";
  }
  text += "\ncc_library(name = \"last\")\n";
  want += std::string("cc_library,last,,") + (before == 2 ? "[list '//v']" : "") + ";";
  bt::Parsed p(text);
  if (p.error) {
    vf::Fail("parse", text + p.errors);
    return;
  }
  for (const bool all : {true, false}) {
    std::string got;
    auto cb = [&](const query::Result &r) {
      got += std::string(r.rule) + "," + std::string(r.name) + "," +
             (r.deps_list ? bt::Dump(r.deps_list) : "") + "," +
             (r.visibility ? bt::Dump(r.visibility) : "") + ";";
    };
    if (all) query::FindTargets(p.ast, {}, cb);
    else query::FindTargets(p.ast, {"cc_binary", "cc_library"}, cb);
    vf::Count("evaluations");
    vf::Transition();
    vf::SeeState(got);
    if (got != want) vf::Fail("nested", text + " got " + got + " want " + want);
  }
}

// -- Lists of strings
static const std::vector<std::pair<const char *, const char *>> elements = {
  {"\"x\"", "x"},     {"\"\"", ""},        {"VAR", ""},         {"call(\"c\")", ""},
  {"[\"in\"]", ""},   {"\"y\" + VAR", ""}, {"('z')", "z"},      {"'''w'''", "w"},
  {"VAR[0]", ""},     {"\"x\"", "x"},
};
static void CheckElements(const std::vector<int> &seq) {
  std::string text = "cc_library(name = \"n\", deps = [";
  Strs want = {"before"};
  for (int i : seq) {
    text += std::string(elements[i].first) + ", ";
    if (*elements[i].second) want.push_back(elements[i].second);
  }
  text += "])\n";
  bt::Parsed p(text);
  if (p.error) {
    vf::Fail("parse", text + p.errors);
    return;
  }
  query::FindTargets(p.ast, {}, [&](const query::Result &r) {
    const auto got = query::ExtractStringList(r.deps_list);
    std::vector<std::string_view> app = {"before"};
    query::AppendStringList(r.deps_list, app);
    vf::Count("evaluations");
    vf::Transition();
    if (Strs(app.begin(), app.end()) != want ||
        Strs(got.begin(), got.end()) != Strs(want.begin() + 1, want.end())) {
      vf::Fail("strings", text + " got " + cli::Join(Strs(got.begin(), got.end())));
    }
    vf::SeeState(cli::Join(want));
    size_t at = 0;  // In the original text, in this order.
    for (auto s : got) {
      const size_t pos = s.data() - p.content.data();
      if (pos < at || pos >= text.size()) vf::Fail("string-position", text);
      at = pos;
    }
  });
}

// -- Commands
struct T {
  const char *rule, *name;
};
static const std::vector<std::vector<T>> contents = {
  {},
  {{"cc_library", "a"}},
  {{"cc_binary", "b"}, {"cc_library", "a"}},
  {{"genrule", "x"}, {"alias", "ab"}, {"filegroup", "a"}},
};
static const Strs pkgs = {"", "a", "a/b", ".b"};

static void CheckCommands(const std::vector<int> &content) {
  // -1: no BUILD file
  struct Row {
    std::string pkg, name, row;
  };
  std::vector<Row> rows;
  std::map<std::string, std::string> files;
  for (size_t i = 0; i < pkgs.size(); ++i) {
    const std::string dir = pkgs[i].empty() ? "." : pkgs[i];
    const std::string file = dir + "/BUILD";
    unlink(file.c_str());
    unlink((file + ".bazel").c_str());
    if (content[i] < 0) continue;
    const std::string fn = (i % 2) ? file + ".bazel" : file;
    std::string text = "# header\n";
    int line = 2;
    for (const T &t : contents[content[i]]) {
      text += std::string(t.rule) + "(name = \"" + t.name + "\")\n";
      const int col = strlen(t.rule) + 10;
      const int len = strlen(t.name);
      rows.push_back({pkgs[i], t.name,
                      fn + ":" + std::to_string(line) + ":" +
                        std::to_string(col) +
                        (len > 1 ? "-" + std::to_string(col + len - 1) : "") +
                        ":|" + t.rule + "|//" + pkgs[i] + ":" + t.name});
      ++line;
    }
    std::ofstream(fn) << text;
    files[pkgs[i]] = fn;
  }
  auto canon = [](std::string r) {
    // //a/b:b is printed as //a/b
    const size_t s = r.rfind("|//");
    const std::string label = r.substr(s + 3);
    const size_t c = label.find(':');
    const std::string path = label.substr(0, c), n = label.substr(c + 1);
    const std::string last = path.substr(path.rfind('/') + 1);
    return (last == n && !path.empty()) ? r.substr(0, s + 3) + path : r;
  };
  auto norm = [](Strs v) {
    for (auto &s : v) {
      if (s.starts_with("./")) s = s.substr(2);
    }
    std::sort(v.begin(), v.end());
    return v;
  };
  struct P {
    const char *text;
    const char *path;
    bool recursive;
    const char *name;  // "*": all
  };
  static const std::vector<P> patterns = {
    {"", "", true, "*"},         {"//...", "", true, "*"},
    {"//a/...", "a", true, "*"}, {"//a:all", "a", false, "*"},
    {"//a", "a", false, "a"},    {"//a:b", "a", false, "b"},
    {"//:a", "", false, "a"},    {"//:all", "", false, "*"},
    {"//a/b", "a/b", false, "b"}, {"//a/b:*", "a/b", false, "*"},
    {"//.b/...", ".b", true, "*"}, {"//.b:all", ".b", false, "*"}, {"//c/...", "c", true, "*"},
    {"//a:a", "a", false, "a"},
  };
  for (const P &pat : patterns) {
    auto in_path = [&](const std::string &pkg) {
      const std::string p = pat.path;
      if (pkg == p) return true;
      return pat.recursive && (p.empty() || pkg.starts_with(p + "/"));
    };
    Strs want_t, want_p;
    for (const Row &r : rows) {
      if (in_path(r.pkg) && (*pat.name == '*' || r.name == pat.name)) {
        want_t.push_back(canon(r.row));
      }
    }
    for (auto &[pkg, fn] : files) {
      if (in_path(pkg)) want_p.push_back(fn + "|//" + pkg);
    }
    Strs args = {"list-targets"}, argp = {"list-packages"};
    if (*pat.text) {
      args.push_back(pat.text);
      argp.push_back(pat.text);
    }
    std::string h;
    cli::Result res;
    const Strs got_t = cli::CsvRows(args, {}, &res, &h);
    vf::Count("evaluations", 2);
    vf::Transition(2);
    if (norm(got_t) != norm(want_t) || h != "file-location|rule|target" ||
        res.status != 0) {
      vf::Fail("list-targets", std::string(pat.text) + " got " +
                                 cli::Join(norm(got_t)) + " want " +
                                 cli::Join(norm(want_t)));
    }
    const Strs got_p = cli::CsvRows(argp, {}, &res, &h);
    if (norm(got_p) != norm(want_p) || h != "bazel-file|package" ||
        res.status != 0) {
      vf::Fail("list-packages", std::string(pat.text) + " got " +
                                  cli::Join(norm(got_p)) + " want " +
                                  cli::Join(norm(want_p)));
    }
    vf::SeeState(cli::Join(norm(got_t)));
  }
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());

  const int na = attrs.size(), nv = values.size();
  // -- All pairs and, on a subset, triples of attributes.
  for (int a = 0; a < na; ++a) {
    for (int v = 0; v < nv; ++v) {
      if (!VF_BEGIN(std::string("attribute pairs starting with ") +
                    attrs[a].name + " = " + values[v].text)) {
        continue;
      }
      vf::NonTrivial();
      for (const char *rule : {"cc_library", "foo"}) {
        for (int c = 0; c < 3; ++c) CheckCall(rule, {{a, v}}, c);
        for (int b = 0; b < na; ++b) {
          for (int w = 0; w < nv; ++w) {
            // "last value of matching kind": other kinds don't get mixed.
            if (a == b && values[v].kind != values[w].kind) continue;
            CheckCall(rule, {{a, v}, {b, w}}, w % 3);
            if (vf::Thorough()) {
              CheckCall(rule, {{a, v}, {b, w}}, (w + 1) % 3);
              CheckCall(rule, {{a, v}, {b, w}}, (w + 2) % 3);
            }
          }
        }
      }
    }
  }
  // The fitting value for each attribute, all triples.
  auto fit = [&](int a, int alt) {
    switch (attrs[a].type) {
    case kStr: return 0;
    case kList: return alt ? 1 : 3;
    default: return alt ? 4 : 6;
    }
  };
  for (int a = 0; a < na; ++a) {
    for (int b = 0; b < na; ++b) {
      if (!VF_BEGIN(std::string("attribute triples starting with ") +
                    attrs[a].name + ", " + attrs[b].name)) {
        continue;
      }
      vf::NonTrivial();
      for (int c = 0; c < na; ++c) {
        for (int alt = 0; alt < 8; ++alt) {
          CheckCall("cc_library",
                    {{a, fit(a, alt & 1)}, {b, fit(b, alt & 2)}, {c, fit(c, alt & 4)}},
                    alt % 3);
        }
        if (!vf::Thorough()) continue;
        for (int d = 0; d < na; ++d) {
          CheckCall("cc_library",
                    {{a, fit(a, 0)}, {b, fit(b, 1)}, {c, fit(c, 0)}, {d, fit(d, 1)}},
                    d % 3);
        }
      }
    }
  }
  // -- Sequences of calls
  const int ni = items.size();
  for (int a = 0; a < ni; ++a) {
    for (int b = -1; b < ni; ++b) {
      if (!VF_BEGIN(std::string("calls starting with ") + items[a].text + "; " +
                    (b < 0 ? "" : items[b].text))) {
        continue;
      }
      vf::NonTrivial();
      if (b < 0) {
        CheckSequence({a});
        continue;
      }
      CheckSequence({a, b});
      for (int c = 0; c < ni; ++c) {
        CheckSequence({a, b, c});
        if (!vf::Thorough()) continue;
        for (int d = 0; d < ni; ++d) CheckSequence({a, b, c, d});
      }
    }
  }
  // -- Calls within expressions
  for (size_t a = 0; a < expressions.size(); ++a) {
    if (!VF_BEGIN("calls nested in " + expressions[a])) continue;
    vf::NonTrivial();
    for (size_t pre = 0; pre < 3; ++pre) {
      CheckNested({a}, pre);
      for (size_t b = 0; b < expressions.size(); ++b) {
        CheckNested({b, a}, pre);
        if (!vf::Thorough()) continue;
        for (size_t c = 0; c < expressions.size(); ++c) CheckNested({c, b, a}, pre);
      }
    }
  }
  // -- Elements of lists
  const int ne = elements.size();
  for (int len = 0; len <= (vf::Thorough() ? 6 : 5); ++len) {
    std::vector<int> idx(len, 0);
    for (int first = 0; first < (len ? ne : 1); ++first) {
      if (!VF_BEGIN("lists of " + std::to_string(len) + " elements, first " + std::to_string(first))) continue;
      vf::NonTrivial();
      idx.assign(len, 0);
      if (len) idx[0] = first;
      for (;;) {
        CheckElements(idx);
        int i = len - 1;
        while (i >= 1 && ++idx[i] == ne) idx[i--] = 0;
        if (i < 1) break;
      }
    }
  }
  // -- Sizes: many attributes, targets, elements; calls nested deep.
  for (int n : vf::Sizes(vf::Thorough() ? 10001 : 2050)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    auto num = [](const char *p, int i, const char *s = "") { return p + std::to_string(i) + s; };
    std::string unknown, targets, elems, deep_open, deep_close, concat;
    Strs want, want_targets;
    for (int i = 0; i < n; ++i) {
      unknown += num(" a", i, " = ") + (i % 3 ? i % 2 ? "\"x\"," : "[\"y\"]," : "fun(name = \"q\"),");
      targets += (i % 4 == 1 ? "foo(name = \"" : "cc_library(name = \"") + num("t", i) + num("\", deps = [\":d", i, "\"])\n") + (i % 5 == 2 ? "nothing()\n" : "");
      want_targets.push_back((i % 4 == 1 ? "foo t" : "cc_library t") + std::to_string(i) + num(" :d", i));
      elems += num("\"e", i, "\", ") + (i % 7 == 3 ? "VAR, " : "");
      want.push_back(num("e", i));
    }
    auto check = [&](const char *what, const std::string &text, const Strs &expect, std::initializer_list<std::string_view> rules = {}) {
      bt::Parsed p(text);
      if (p.error) return vf::Fail("parse", p.errors);
      Strs got;
      query::FindTargets(p.ast, rules, [&](const query::Result &r) {
        std::string s = std::string(r.rule) + " " + std::string(r.name);
        for (auto e : query::ExtractStringList(r.deps_list)) s += " " + std::string(e);
        got.push_back(s);
      });
      vf::Count("evaluations");
      vf::Transition();
      if (got != expect) vf::Fail("size", std::string(what) + " got " + cli::Join(got) + " want " + cli::Join(expect));
    };
    check("elements", "cc_library(name = \"n\", deps = [" + elems + "])\n", {"cc_library n " + cli::Join(want, " ")});
    check("attributes", "cc_library(name = \"n\"," + unknown + " deps = [\"z\"])\n", {"cc_library n z"}, {"cc_library"});
    check("attributes", "cc_library(" + unknown + " deps = [\"z\"], name = \"n\")\n", {"cc_library n z"}, {"cc_library"});
    check("targets", targets, want_targets);
    Strs only;
    for (auto &t : want_targets)
      if (t.starts_with("foo")) only.push_back(t);
    check("rules", targets, only, {"foo"});
    check("rules", targets, only, {"bar", "baz", "foo"});
    check("behind", vf::Times("x = [1, {\"k\": (2, 3)}]\n", n) + targets, want_targets);
    const std::string a = vf::Times("a", n);
    check("name", "r" + a + "(name = \"" + a + "\", deps = [\"" + a + "\"])\n", {"r" + a + " " + a + " " + a});
    const int d = std::min(n, 400);
    check("nested", vf::Times("[", d) + "foo(name = \"n\")" + vf::Times("]", d) + "\n" + "foo(name = \"m\")\n", {"foo n", "foo m"});
    check("concatenated", "foo(name = \"m\")\n[[1]" + vf::Times(" + [1]", d) + " + [foo(name = \"n\")]]\n", {"foo m", "foo n"});
  }
  // -- Commands
  const std::string scratch =
    fs::absolute(vf::S().out).string() + "/q." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  fs::create_directories(scratch + "/a/b");
  fs::create_directories(scratch + "/.b");
  fs::current_path(scratch);
  std::ofstream("MODULE.bazel") << "";
  const int nc = contents.size();
  for (int i = -1; i < nc; ++i) {
    for (int j = -1; j < nc; ++j) {
      for (int k = -1; k < nc; ++k) {
        for (int l = -1; l < nc; ++l) {
          std::vector<int> c = {i, j, k, l};
          if (!VF_BEGIN("listing commands, contents of packages: " +
                        std::to_string(i) + " " + std::to_string(j) + " " +
                        std::to_string(k) + " " + std::to_string(l))) {
            continue;
          }
          vf::NonTrivial();
          CheckCommands(c);
        }
      }
    }
  }
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
