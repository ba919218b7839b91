// Explorer: printed code parses back to the tree it was printed from; grep and
// colours only add escape sequences and select the right targets.
#include <iostream>

#include "bant/frontend/print-visitor.h"
#include "bt.h"
#include "contexts.h"
#include "re2/re2.h"

static std::string Print(bant::Node *n, bool color = false, const RE2 *re = nullptr,
                         bool *any = nullptr) {
  std::stringstream s;
  bant::PrintVisitor p(s, re, color);
  p.WalkNonNull(n);
  if (any) *any = p.any_highlight();
  return s.str();
}
static std::string Strip(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
      i += 2;
      while (i < s.size() && s[i] != 'm') ++i;
      continue;
    }
    r += s[i];
  }
  return r;
}

// Parse -> print -> parse. Returns true if good.
static bool RoundTrip(const std::string &text) {
  vf::Count("evaluations");
  vf::Transition();
  bt::Parsed p(text);
  if (p.error) {
    vf::Fail("input", "does not parse: " + text + " " + p.errors);
    return false;
  }
  for (bant::Node *stmt : *p.ast) {
    const std::string printed = Print(stmt);
    bt::Parsed q(printed + "\n");
    const std::string want = "[list " + bt::Dump(stmt) + "]";
    if (q.error) {
      vf::Fail("reparse", "text: " + text + "\nprinted: " + printed + "\n" + q.errors);
      return false;
    }
    if (const std::string got = bt::Dump(q.ast); got != want) {
      vf::Fail("tree", "text: " + text + "\nprinted: " + printed + "\nwant " + want + "\ngot  " + got);
      return false;
    }
    if (const std::string again = Print(*q.ast->begin()); again != printed) {
      vf::Fail("fixpoint", "printed: " + printed + "\nthen: " + again);
      return false;
    }
    if (const std::string c = Strip(Print(stmt, true)); c != printed) {
      vf::Fail("color", "without color: " + printed + "\nstripped color: " + c);
      return false;
    }
  }
  return true;
}

// Grouping of the operands of '/' is not kept (a known finding).
static bool GroupedDivision(const gen::P &e) {
  if (!e) return false;
  if (e->k == gen::kBin && e->s == "/" &&
      (e->c[0]->k == gen::kUn || e->c[0]->k == gen::kTern ||
       (e->c[0]->k == gen::kBin && e->c[0]->s != ".")))
    return true;
  for (auto &c : e->c)
    if (GroupedDivision(c)) return true;
  return false;
}

static void Expressions() {
  gen::ForAll(vf::Thorough() ? 4 : 3, [&](const std::function<gen::P()> &make) {
    gen::P e;
    if (!VF_BEGIN([&]() {
          e = make();
          return "expr: " + gen::Text(e);
        }()))
      return;
    if (GroupedDivision(e)) {
      vf::Count("skipped_grouped_division");
      return;
    }
    vf::SeeState(gen::Dump(e));
    vf::NonTrivial();
    RoundTrip("v = " + gen::Text(e));
    RoundTrip("f(name = \"n\", k = " + gen::Text(e) + ")");
  });
  if (vf::Begin("grouped division: (a + b) / c")) {
    bt::Parsed p("v = (a + b) / c");
    const std::string printed = Print(*p.ast->begin());
    bt::Parsed q(printed);
    if (bt::Dump(q.ast) != bt::Dump(p.ast)) vf::Fail("grouped-division", printed);
  }
}

// String contents.
static const std::vector<std::string> &Pieces() {
  static const std::vector<std::string> p = {"a", "'", "\"", "\\\\", "\\'", "\\\"", "\\n", "\n", "#"};
  return p;
}
static bool ValidContent(const std::string &c, const std::string &quote) {
  int run = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    if (c[i] == '\\') {
      ++i;
      run = 0;
    } else if (c[i] == quote[0]) {
      if (++run == (int)quote.size()) return false;
    } else {
      run = 0;
    }
  }
  return run == 0;
}
static void ForContents(int maxlen, const std::function<void(const std::string &)> &cb) {
  for (int len = 0; len <= maxlen; ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      std::string c;
      for (size_t i : idx) c += Pieces()[i];
      cb(c);
      int i = len - 1;
      while (i >= 0 && ++idx[i] == Pieces().size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
}
static const char *kQuotes[] = {"'", "\"", "'''", "\"\"\""};

static std::string Value(std::string_view content, bool raw) {
  if (raw) return std::string(content);
  std::string r;
  for (size_t i = 0; i < content.size(); ++i) {
    if (content[i] != '\\' || i + 1 == content.size()) {
      r += content[i];
      continue;
    }
    switch (content[++i]) {
    case 'n': r += '\n'; break;
    case '\n': break;
    case '\\':
    case '\'':
    case '"': r += content[i]; break;
    default:
      r += '\\';
      r += content[i];
    }
  }
  return r;
}

static void Literals() {
  ForContents(vf::Thorough() ? 6 : 5, [](const std::string &c) {
    for (const std::string q : kQuotes) {
      if (!ValidContent(c, q)) continue;
      for (const char *r : {"", "r"}) {
        const std::string lit = r + q + c + q;
        if (!VF_BEGIN("literal: " + lit)) continue;
        vf::NonTrivial();
        RoundTrip("f(name = " + lit + ", x = [" + lit + ", " + lit + "])");
      }
    }
  });
}

// Concatenated strings are printed such that the value is kept.
static void Concatenated() {
  std::vector<std::pair<std::string, std::string>> lits;  // literal, value
  ForContents(vf::Thorough() ? 3 : 2, [&](const std::string &c) {
    for (const std::string q : kQuotes) {
      if (!ValidContent(c, q)) continue;
      for (const char *r : {"", "r"}) lits.push_back({r + q + c + q, Value(c, *r)});
    }
  });
  for (size_t l = 0; l < lits.size(); ++l) {
    if (!VF_BEGIN("concatenated: " + lits[l].first + " + ...")) continue;
    vf::NonTrivial();
    for (size_t r = 0; r < lits.size(); ++r) {
      vf::Count("evaluations");
      vf::Transition();
      std::stringstream out, info;
      bant::Session session(&out, &info, {});
      bant::ParsedProjectTestUtil util;
      const bant::ParsedBuildFile *f =
        util.Add("//p", "f(name = " + lits[l].first + " + " + lits[r].first + ")\n");
      bant::Elaborate(session, &util.project());
      const std::string printed = Print(*f->ast->begin());
      bt::Parsed q(printed + "\n");
      bant::StringScalar *str = nullptr;
      if (!q.error && q.ast->size() == 1) {
        struct Finder : bant::BaseVoidVisitor {
          bant::Scalar *s = nullptr;
          int n = 0;
          void VisitScalar(bant::Scalar *sc) override {
            s = sc;
            ++n;
          }
        } finder;
        finder.WalkNonNull(q.ast);
        if (finder.n == 1) str = static_cast<bant::StringScalar *>(finder.s);
      }
      const std::string want = lits[l].second + lits[r].second;
      if (!str) {
        vf::Fail("concat-reparse", "+ " + lits[r].first + " printed as " + printed + " " + q.errors);
      } else if (Value(str->AsString(), str->is_raw()) != want) {
        vf::Fail("concat-value", "+ " + lits[r].first + " printed as " + printed);
      }
    }
  }
}

struct Words : bant::BaseVoidVisitor {  // All a regular expression is looked up in.
  std::vector<std::string> w;
  void VisitFunCall(bant::FunCall *f) override {
    w.emplace_back(f->identifier()->id());
    WalkNonNull(f->right());
  }
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kString) w.emplace_back(s->AsString());
  }
  void VisitIdentifier(bant::Identifier *i) override { w.emplace_back(i->id()); }
};

static const std::vector<std::string> &Regexes() {
  static const std::vector<std::string> r = {
    "()", "(a*)", "(b|)", "(^)", "($)", "(.)", "(.*)", "(x)", "(lib)", "(^lib)", "(a$)",
    "((?i)LIB)", "([a-z]+)", "(\\bb)", "(\\b)", "(b\\b)", "(nothing)", "(a|ab)", "(ab|a)",
    "(name)", "(cc_library)", "(\\.h)", "(a.c)", "((a)(b))", "(\\n)", "((?s).+)", "(q?)", "(\\x{e4})"};
  return r;
}

static void Grep() {
  // Word contents over some letters, alone.
  const char letters[] = {'a', 'b', ' ', '.'};
  const int maxlen = vf::Thorough() ? 6 : 5;
  for (auto &re_text : Regexes()) {
    const RE2 re(re_text);
    for (int len = 0; len <= maxlen; ++len) {
      std::vector<int> idx(len, 0);
      for (;;) {
        std::string c;
        for (int i : idx) c += letters[i];
        if (VF_BEGIN("grep: " + re_text + " in '" + c + "'")) {
          vf::Count("evaluations");
          vf::Transition();
          vf::NonTrivial();
          bt::Parsed p("v = [\"" + c + "\", f(\"q\")]");
          bant::Node *stmt = *p.ast->begin();
          Words words;
          words.WalkNonNull(stmt);
          bool want = false;
          for (auto &w : words.w) want |= RE2::PartialMatch(w, re);
          const std::string plain = Print(stmt);
          for (bool color : {false, true}) {
            bool any = false;
            const std::string got = Print(stmt, color, &re, &any);
            if (any != want)
              vf::Fail("grep-match", std::string("reported match: ") + (any ? "yes" : "no"));
            if ((color ? Strip(got) : got) != plain)
              vf::Fail("grep-text", "plain " + plain + "\nhighlighted: " + got);
            // What is highlighted is not empty, and matches.
            if (color) {
              size_t pos = 0;
              bool lit = false;
              while ((pos = got.find("\033[7m", pos)) != std::string::npos) {
                const size_t e = got.find("\033[27m", pos);
                const std::string h = got.substr(pos + 4, e - pos - 4);
                if (e == std::string::npos || h.empty() || !RE2::PartialMatch(h, re))
                  if (re_text.find("\\b") == std::string::npos)
                    vf::Fail("grep-highlight", "highlighted '" + h + "'");
                lit = true;
                pos = e;
              }
              bool nonempty = false;
              for (auto &w : words.w) {
                std::string m;
                if (RE2::PartialMatch(w, re, &m) && !m.empty()) nonempty = true;
              }
              if (nonempty && !lit) vf::Fail("grep-highlight", "match not highlighted");
            }
          }
        }
        int i = len - 1;
        while (i >= 0 && ++idx[i] == 4) idx[i--] = 0;
        if (i < 0) break;
      }
    }
  }
}

// print command on a project: which targets are printed, and how.
static void Projects() {
  struct T {
    const char *rule, *name, *text, *extra;
  };
  const std::vector<T> targets = {
    {"cc_library", "lib", "cc_library(name = \"lib\", srcs = [\"a.cc\"])", ""},
    {"cc_test", "b", "cc_test(\n  name = \"b\",\n  visibility = [\"//v:u\", \"//w\"])", " (visibility: //v:u //w)"},
    {"load", "", "load(\"//x:y.bzl\", \"z\")", ""},
    {"foo", "lib2", "foo(name = \"lib2\", a = [b for b in c])", ""},
    {"alias", "a/b", "alias(name = \"a/b\", actual = \":lib\")", ""},
  };
  const std::vector<std::string> patterns = {"//p:lib", "//p:b", "//p:all", "//p/...", "//...",
                                             "//q/...", "//p:li*", "//q:lib", "//p:nix", "//p:a/b"};
  auto matches = [&](const std::string &pat, const std::string &pkg, const T &t) {
    const std::string n = t.name;
    if (pat == "//...") return true;
    if (pat == "//p/...") return pkg == "//p";
    if (pat == "//q/...") return pkg == "//q";
    if (n.empty()) return false;
    if (pat == "//p:all") return pkg == "//p";
    if (pat == "//p:li*") return pkg == "//p" && n.starts_with("li");
    return pat == pkg + ":" + n;
  };
  for (unsigned set = 0; set < 32; ++set) {
    for (auto &pat : patterns) {
      for (size_t rx = 0; rx <= Regexes().size(); ++rx) {
        const std::string re_text = rx ? Regexes()[rx - 1] : "";
        if (!VF_BEGIN("project: targets " + std::to_string(set) + " pattern " + pat + " grep " + re_text))
          continue;
        vf::NonTrivial();
        std::string content = "# comment\n\n";
        for (size_t i = 0; i < targets.size(); ++i)
          if (set & (1 << i)) content += std::string(targets[i].text) + "\n";
        for (bool color : {false, true}) {
          vf::Count("evaluations");
          vf::Transition();
          std::stringstream out, info;
          bant::CommandlineFlags flags;
          flags.do_color = color;
          flags.grep_regex = re_text;
          bant::Session session(&out, &info, flags);
          bant::ParsedProjectTestUtil util;
          util.Add("//p", content);
          util.Add("//q", content);
          bant::PrintProject(session, *bant::BazelPattern::ParseFrom(pat), util.project());
          std::string want;
          for (const char *pkg : {"//p", "//q"}) {
            for (size_t i = 0; i < targets.size(); ++i) {
              if (!(set & (1 << i)) || !matches(pat, pkg, targets[i])) continue;
              bt::Parsed p(targets[i].text);
              bant::Node *stmt = *p.ast->begin();
              if (rx) {
                Words words;
                words.WalkNonNull(stmt);
                bool m = false;
                for (auto &w : words.w) m |= RE2::PartialMatch(w, RE2(re_text));
                if (!m) continue;
              }
              const size_t off = content.find(targets[i].text);
              want += "# " + bt::RefLoc(std::string(pkg) + "/BUILD", content, off,
                                        off + strlen(targets[i].rule));
              if (*targets[i].name) want += " " + std::string(pkg) + ":" + targets[i].name;
              want += targets[i].extra;
              want += "\n" + Print(stmt) + "\n";
            }
          }
          const std::string got = color ? Strip(out.str()) : out.str();
          if (got != want) vf::Fail("project", "want:\n" + want + "got:\n" + got);
        }
      }
    }
  }
}

static void Sizes() {
  for (int n : vf::Sizes(vf::Thorough() ? 1100 : 300)) {
    if (!VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string a = vf::Times("a", n + 1), s = vf::Times("s", n);
    std::string list, kw, map;
    for (int i = 0; i < n; ++i) {
      const std::string v = std::to_string(i);
      list += "\"e" + v + "\", ";
      kw += "k" + v + " = v" + v + ", ";
      map += "\"k" + v + "\": [v" + v + "], ";
    }
    for (const std::string &text : {
           a + "(" + a + " = \"" + s + "\")", "x = [" + list + "]", "x = (" + list + ")", "x = {" + map + "}", "f(" + kw + ")",
           "x = " + vf::Times("[", n) + "y" + vf::Times("]", n), "x = " + vf::Times("(", n) + "y" + vf::Times(",)", n),
           "x = " + vf::Times("f(k = ", n) + "y" + vf::Times(")", n), "x = " + vf::Times("{\"k\": ", n) + "y" + vf::Times("}", n),
           "x = " + vf::Times("a + ", n) + "y", "x = " + vf::Times("not ", n) + "y", "x = " + vf::Times("a if b else ", n) + "y",
           "x = " + vf::Times("(", n) + "a" + vf::Times(" - b)", n), "x = \"\"\"" + vf::Times("a\n", n) + "\"\"\"", "x = '" + vf::Times("\"", n) + "'",
           "x = \"" + vf::Times("\\\\", n) + "\""}) {
      if (!RoundTrip(text + "\n")) return;
    }
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  Sizes();
  Literals();
  Concatenated();
  Grep();
  Projects();
  Expressions();
  return vf::Finish();
}
