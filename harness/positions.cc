// Explorer: every reported location is the true one.
//  A: all small file contents x all sub-ranges, line index from scanner and from
//     InitializeFromStringView().
//  B: all sets of disjoint ranges x insertion orders x queries.
//  C: all small projects: several files made of statements from a menu, parsed
//     and elaborated; every piece of text in the AST must be located where it is.
#include <algorithm>

#include "bant/frontend/linecolumn-map.h"
#include "bant/frontend/named-content.h"
#include "bt.h"

using bant::NamedLineIndexedContent;

static bool EndsLine(std::string_view c, size_t b, size_t e) {
  return e > b && c[e - 1] == '\n';
}

static void CheckContent(const std::string &content, bool via_scanner) {
  std::string storage = "xx" + content + "yy";  // neighbours must not matter
  const std::string_view text(storage.data() + 2, content.size());
  NamedLineIndexedContent src("some/BUILD", text);
  if (via_scanner) {
    bant::Scanner scanner(src);
    for (int i = 0;; ++i) {
      if (i > 200) {
        vf::Fail("scanner-end", "scanner does not reach the end");
        return;
      }
      if (scanner.Next().type == bant::kEof) break;
    }
  } else {
    src.mutable_line_index()->InitializeFromStringView(text);
  }
  const size_t lines = 1 + std::count(content.begin(), content.end(), '\n');
  if (src.mutable_line_index()->lines() != lines) {
    vf::Fail("line-count", "knows of " +
                             std::to_string(src.mutable_line_index()->lines()) +
                             " lines, expected " + std::to_string(lines));
  }
  for (size_t b = 0; b <= content.size(); ++b) {
    for (size_t e = b; e <= content.size(); ++e) {
      vf::Count("evaluations");
      vf::Transition();
      const std::string_view sub = text.substr(b, e - b);
      const bant::FileLocation loc = src.GetLocation(sub);
      const bt::LC s = bt::RefPos(content, b), f = bt::RefPos(content, e);
      const auto &r = loc.line_column_range;
      if (loc.filename != "some/BUILD" || r.start.line != s.line ||
          r.start.col != s.col || r.end.line != f.line || r.end.col != f.col) {
        vf::Fail("location", "range [" + std::to_string(b) + "," +
                               std::to_string(e) + ") reported as " +
                               src.Loc(sub));
        return;
      }
      if (!EndsLine(content, b, e)) {
        const std::string want = bt::RefLoc("some/BUILD", content, b, e);
        std::stringstream via_stream;
        src.Loc(via_stream, sub);
        if (src.Loc(sub) != want || via_stream.str() != want) {
          vf::Fail("loc-print", "range [" + std::to_string(b) + "," +
                                  std::to_string(e) + ") printed as " +
                                  src.Loc(sub) + " expected " + want);
          return;
        }
      }
      // Surrounding line(s).
      size_t lb = b, le = e;
      while (lb > 0 && content[lb - 1] != '\n') --lb;
      while (le < content.size() && content[le] != '\n') ++le;
      const std::string_view line = src.GetSurroundingLine(sub);
      if (line.data() != text.data() + lb || line.size() != le - lb) {
        vf::Fail("surrounding-line",
                 "line around [" + std::to_string(b) + "," + std::to_string(e) +
                   ") is '" + std::string(line) + "'");
        return;
      }
      vf::SeeState(vf::Hash(std::to_string(s.line) + "," + std::to_string(s.col) +
                            "," + std::to_string(f.line) + "," +
                            std::to_string(f.col)));
    }
  }
}

static void PartA() {
  const std::vector<std::string> pieces = {"a", "\n", "\"", "\xc3\xa9",
                                           "not", " ",  "in",  "#",
                                           "'''", "\\", "\r"};
  const int maxlen = vf::Thorough() ? 6 : 5;
  for (int via_scanner = 0; via_scanner < 2; ++via_scanner) {
    for (int len = 0; len <= maxlen; ++len) {
      if (!via_scanner && len > 4) continue;
      std::vector<size_t> idx(len, 0);
      for (;;) {
        std::string content;
        for (size_t i : idx) content += pieces[i];
        if (VF_BEGIN((via_scanner ? "A/scanned content: \"" : "A/content: \"") +
                     vf::Esc(content) + "\"")) {
          if (content.find('\n') != std::string::npos) vf::NonTrivial();
          CheckContent(content, via_scanner);
        }
        int i = len - 1;
        while (i >= 0 && ++idx[i] == pieces.size()) idx[i--] = 0;
        if (i < 0) break;
      }
    }
  }
}

static void PartB() {
  // Each position of a buffer of N characters is in a gap or starts a new
  // range or continues one: digits 0=gap, 1=start, 2=continue.
  const int N = vf::Thorough() ? 8 : 7;
  static const std::string buffer(N, 'x');
  std::vector<int> d(N, 0);
  for (;;) {
    bool valid = true;
    std::vector<std::pair<int, int>> ranges;
    for (int i = 0; i < N && valid; ++i) {
      if (d[i] == 2) {
        if (i == 0 || d[i - 1] == 0) valid = false;
        else ranges.back().second = i + 1;
      } else if (d[i] == 1) {
        ranges.push_back({i, i + 1});
      }
    }
    if (valid && ranges.size() <= 5) {
      std::vector<int> order(ranges.size());
      for (size_t i = 0; i < order.size(); ++i) order[i] = i;
      do {
        if (VF_BEGIN([&]() {
              std::string s = "B/ranges:";
              for (int o : order)
                s += " [" + std::to_string(ranges[o].first) + "," +
                     std::to_string(ranges[o].second) + ")";
              return s;
            }())) {
          if (ranges.size() > 1) vf::NonTrivial();
          bant::DisjointRangeMap<std::string_view, int> map;
          for (int o : order) {
            if (!map.Insert(std::string_view(buffer).substr(
                              ranges[o].first, ranges[o].second - ranges[o].first),
                            o)) {
              vf::Fail("range-insert", "insert of disjoint range refused");
            }
            vf::Transition();
          }
          for (int b = 0; b < N; ++b) {
            for (int e = b + 1; e <= N; ++e) {
              vf::Count("evaluations");
              int want = -1;
              for (size_t r = 0; r < ranges.size(); ++r)
                if (ranges[r].first <= b && e <= ranges[r].second) want = r;
              auto got =
                map.FindBySubrange(std::string_view(buffer).substr(b, e - b));
              if (got.value_or(-1) != want) {
                vf::Fail("range-find",
                         "query [" + std::to_string(b) + "," + std::to_string(e) +
                           ") found " + std::to_string(got.value_or(-1)) +
                           " expected " + std::to_string(want));
              }
            }
          }
        }
      } while (std::next_permutation(order.begin(), order.end()));
    }
    int i = N - 1;
    while (i >= 0 && ++d[i] == 3) d[i--] = 0;
    if (i < 0) break;
  }
}

// --- C
struct Stmt {
  std::string text;  // @ replaced by unique suffix
  bool in_ast;
};
static const std::vector<Stmt> &Menu() {
  static const std::vector<Stmt> m = {
    {"x@ = \"ab@\" + \"cd@\"\n", true},
    {"# comment @\n\n", false},
    {"foo@(\n  name = \"nn@\",\n  deps = [\":q@\" + \"r@\",\n   \"s@\"] + "
     "[\n'tt@'],\n)\n",
     true},
    {"\"\"\"doc @\nstring\n\"\"\"\n", false},
    {"y@ = \"\" + \"\"\n", true},
    {"z@ = [\"0123456789abcdef\" + \"\", \"p@\"]\n", true},
    {"w@ = '''m@\nl@''' + \"\\\n\"\n", true},
    {"v@ = id@ if k@ not\n  in [l@] else 1@\n", true},
    {"g@ = glob([\"*.nonexistent\"]) + [\"after@\"]\n", true},
    {"u@ = \"\" + \"\" + \"e@\"\nbar@(x@ = \"1\" + (\"2\" + \"\"))\n", true},
  };
  return m;
}

class TextCollector : public bant::BaseVoidVisitor {
 public:
  std::vector<std::string_view> found;
  void VisitAssignment(bant::Assignment *a) override {
    WalkNonNull(a->left());
    WalkNonNull(a->right());
    found.push_back(a->source_range());
  }
  void VisitBinOpNode(bant::BinOpNode *b) override {
    BaseVoidVisitor::VisitBinOpNode(b);
    found.push_back(b->source_range());
  }
  void VisitFunCall(bant::FunCall *f) override {
    found.push_back(f->identifier()->id());
    WalkNonNull(f->right());
  }
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kString || !s->AsString().empty())
      found.push_back(s->AsString());
  }
  void VisitIdentifier(bant::Identifier *i) override { found.push_back(i->id()); }
};

static void CheckProject(const std::vector<std::vector<int>> &files) {
  bant::ParsedProjectTestUtil pp;
  static const char *const kPackages[] = {"//pa", "//pa/b", "//"};
  struct FileInfo {
    std::string content;
    std::vector<std::pair<size_t, size_t>> stmt_range;  // In AST: offsets
    const bant::ParsedBuildFile *parsed;
    std::string name;
  };
  std::vector<FileInfo> info;
  for (size_t f = 0; f < files.size(); ++f) {
    FileInfo fi;
    for (size_t s = 0; s < files[f].size(); ++s) {
      const Stmt &m = Menu()[files[f][s]];
      const std::string uniq = std::to_string(f) + std::to_string(s) + "7";
      const size_t start = fi.content.size();
      for (char c : m.text) {
        if (c == '@') fi.content += uniq;
        else fi.content += c;
      }
      if (m.in_ast) {
        // Statement entry 9 has two statements.
        size_t p = start;
        if (files[f][s] == 9) {
          size_t nl = fi.content.find('\n', start);
          fi.stmt_range.push_back({start, nl + 1});
          p = nl + 1;
        }
        fi.stmt_range.push_back({p, fi.content.size()});
      }
    }
    fi.parsed = pp.Add(kPackages[f], fi.content);
    fi.name = std::string(kPackages[f]) + "/BUILD";
    info.push_back(fi);
  }
  for (int phase = 0; phase < 2; ++phase) {
    if (phase == 1) {
      std::stringstream msgs;
      bant::Session session(&msgs, &msgs, bant::CommandlineFlags{});
      bant::Elaborate(session, &pp.project());
    }
    for (const FileInfo &fi : info) {
      if (!fi.parsed->errors.empty()) {
        vf::Fail("parse", "unexpected parse error " + fi.parsed->errors);
        return;
      }
      size_t n = 0;
      for (bant::Node *node : *fi.parsed->ast) {
        if (n >= fi.stmt_range.size()) {
          vf::Fail("parse", "more statements than expected");
          return;
        }
        const auto [sb, se] = fi.stmt_range[n++];
        TextCollector tc;
        tc.WalkNonNull(node);
        for (std::string_view t : tc.found) {
          vf::Count("evaluations");
          vf::Transition();
          const bant::FileLocation loc = pp.project().GetLocation(t);
          const auto &r = loc.line_column_range;
          const bt::LC lo = bt::RefPos(fi.content, sb);
          const bt::LC hi = bt::RefPos(fi.content, se);
          auto le = [](int l1, int c1, int l2, int c2) {
            return l1 < l2 || (l1 == l2 && c1 <= c2);
          };
          if (loc.filename != fi.name) {
            vf::Fail("wrong-file", "'" + std::string(t) + "' located at " +
                                     pp.project().Loc(t) + " instead of in " +
                                     fi.name);
            return;
          }
          if (!le(lo.line, lo.col, r.start.line, r.start.col) ||
              !le(r.start.line, r.start.col, r.end.line, r.end.col) ||
              !le(r.end.line, r.end.col, hi.line, hi.col)) {
            vf::Fail("outside-statement",
                     "'" + std::string(t) + "' located at " +
                       pp.project().Loc(t) + " which is not in statement at " +
                       std::to_string(lo.line + 1) + ":" +
                       std::to_string(lo.col + 1));
            return;
          }
          // Text unique in file: exact position known (if not synthesized,
          // in which case it can't be found).
          if (phase == 0 && !t.empty()) {
            size_t at = fi.content.find(t);
            if (at != std::string::npos &&
                fi.content.find(t, at + 1) == std::string::npos) {
              const std::string want =
                bt::RefLoc(fi.name, fi.content, at, at + t.size());
              if (!EndsLine(fi.content, at, at + t.size()) &&
                  pp.project().Loc(t) != want) {
                vf::Fail("wrong-position", "'" + std::string(t) +
                                             "' located at " +
                                             pp.project().Loc(t) +
                                             " expected " + want);
                return;
              }
              vf::Count("exact_positions");
            }
          }
          pp.project().GetSurroundingLine(t);
          vf::SeeState(pp.project().Loc(t));
        }
      }
      if (n != fi.stmt_range.size()) {
        vf::Fail("parse", "fewer statements than expected");
      }
    }
  }
}

static void PartC() {
  const int M = Menu().size();
  // All contents of up to maxlen statements, for one file; two files with up to
  // two statements, three with one.
  auto seqs = [&](int maxlen) {
    std::vector<std::vector<int>> all = {{}};
    size_t from = 0;
    for (int l = 1; l <= maxlen; ++l) {
      size_t to = all.size();
      for (size_t i = from; i < to; ++i) {
        for (int m = 0; m < M; ++m) {
          auto v = all[i];
          v.push_back(m);
          all.push_back(v);
        }
      }
      from = to;
    }
    return all;
  };
  auto run = [&](const std::vector<std::vector<int>> &files) {
    if (VF_BEGIN([&]() {
          std::string s = "C/project:";
          for (auto &f : files) {
            s += " file(";
            for (int m : f) s += vf::Esc(Menu()[m].text) + " ";
            s += ")";
          }
          return s;
        }())) {
      vf::NonTrivial();
      CheckProject(files);
    }
  };
  for (auto &s : seqs(vf::Thorough() ? 5 : 4)) run({s});
  const auto two = seqs(2);
  for (auto &a : two)
    for (auto &b : two) run({a, b});
  const auto one = seqs(1);
  for (auto &a : one)
    for (auto &b : one)
      for (auto &c : one) run({a, b, c});
}

// Long lines, many lines, many ranges.
static void Sizes() {
  for (int n : vf::Sizes(vf::Thorough() ? 70000 : 10000)) {
    if (!VF_BEGIN("D/size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string c = vf::Times("x", n), l = vf::Times("\n", n), lines = vf::Times("ab\n", n);
    for (const std::string &content : std::vector<std::string>{c, l, lines, c + "\n" + c, "\n" + c + "\n\n" + c + "\n", lines + c, c + lines + "z", "'''" + lines + "'''", "#" + c + "\n" + lines + "f(x = \"" + c + "\")\n"}) {
      for (bool via_scanner : {false, true}) {
        NamedLineIndexedContent src("some/BUILD", content);
        if (via_scanner) {
          bant::Scanner scanner(src);
          while (scanner.Next().type != bant::kEof) {
          }
        } else {
          src.mutable_line_index()->InitializeFromStringView(content);
        }
        if (src.mutable_line_index()->lines() != 1 + std::count(content.begin(), content.end(), '\n')) {
          vf::Fail("line-count", "knows of " + std::to_string(src.mutable_line_index()->lines()) + " lines");
          return;
        }
        std::set<size_t> at;
        for (size_t base : {size_t(0), content.size() / 2, size_t(n), size_t(2 * n), size_t(3 * n), content.size()}) {
          for (size_t d : {0, 1, 2}) {
            if (base + d <= content.size()) at.insert(base + d);
            if (base >= d && base - d <= content.size()) at.insert(base - d);
          }
        }
        for (size_t b : at) {
          for (size_t e : at) {
            if (e < b || EndsLine(content, b, e)) continue;
            vf::Count("evaluations");
            vf::Transition();
            const std::string_view sub = std::string_view(content).substr(b, e - b);
            const std::string want = bt::RefLoc("some/BUILD", content, b, e);
            if (src.Loc(sub) != want) {
              vf::Fail("size-loc", "range [" + std::to_string(b) + "," + std::to_string(e) + ") of " + std::to_string(content.size()) + " printed as " + src.Loc(sub) + " expected " + want);
              return;
            }
            size_t lb = b, le = e;
            while (lb > 0 && content[lb - 1] != '\n') --lb;
            while (le < content.size() && content[le] != '\n') ++le;
            const std::string_view line = src.GetSurroundingLine(sub);
            if (line.data() != content.data() + lb || line.size() != le - lb) {
              vf::Fail("size-line", "line around [" + std::to_string(b) + "," + std::to_string(e) + ")");
              return;
            }
          }
        }
      }
    }
    for (int order = 0; order < 4; ++order) {
      const std::string buffer(2 * n + 2, 'x');
      bant::DisjointRangeMap<std::string_view, int> map;
      for (int i = 0; i < n; ++i) {
        const int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? i / 2 : n - 1 - i / 2) : (i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1);
        if (!map.Insert(std::string_view(buffer).substr(2 * k, k % 3 ? 2 : 1), k)) vf::Fail("range-insert", "insert of disjoint range refused");
        vf::Transition();
      }
      for (int k = 0; k < n; ++k) {
        const auto first = map.FindBySubrange(std::string_view(buffer).substr(2 * k, 1));
        const auto second = map.FindBySubrange(std::string_view(buffer).substr(2 * k + 1, 1));
        if (first.value_or(-1) != k || second.value_or(-1) != (k % 3 ? k : -1)) {
          vf::Fail("range-find", "of " + std::to_string(n) + " ranges number " + std::to_string(k) + " is not found");
          break;
        }
      }
    }
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  Sizes();
  PartA();
  PartB();
  PartC();
  return vf::Finish();
}
