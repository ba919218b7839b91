// Explorer: malformed input never crashes or hangs any stage, is reported if
// and only if it is an error, and does not affect statements before it.
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>

#include "bant/explore/aliased-by.h"
#include "bant/explore/dependency-graph.h"
#include "bant/explore/header-providers.h"
#include "bant/explore/query-utils.h"
#include "bant/frontend/print-visitor.h"
#include "bant/cli-commands.h"
#include "bant/tool/canon-targets.h"
#include "bant/tool/compilation-db.h"
#include "bant/tool/dwyu.h"
#include "bant/tool/edit-callback.h"
#include "bt.h"

static std::stringstream &Cerr() {
  static std::stringstream s;
  return s;
}

// Finds expressions that are missing.
class Missing : public bant::BaseVoidVisitor {
 public:
  bool missing = false;
  void Need(bant::Node *n) {
    if (!n) missing = true;
    WalkNonNull(n);
  }
  void VisitAssignment(bant::Assignment *a) override {
    Need(a->left());
    Need(a->right());
  }
  void VisitFunCall(bant::FunCall *f) override {
    Need(f->left());
    Need(f->right());
  }
  void VisitList(bant::List *l) override {
    for (bant::Node *n : *l) Need(n);
  }
  void VisitBinOpNode(bant::BinOpNode *b) override {
    if (b->op() == '[') {
      Need(b->left());
      bant::BinOpNode *slice = b->right() ? b->right()->CastAsBinOp() : nullptr;
      if (slice && slice->op() == ':') {
        if (!slice->left() && !slice->right()) missing = true;
        WalkNonNull(slice->left());
        WalkNonNull(slice->right());
        return;
      }
      Need(b->right());
      return;
    }
    Need(b->left());
    Need(b->right());
  }
  void VisitUnaryExpr(bant::UnaryExpr *e) override { Need(e->node()); }
  void VisitListComprehension(bant::ListComprehension *c) override {
    Need(c->for_node());
  }
  void VisitTernary(bant::Ternary *t) override {
    Need(t->condition());
    Need(t->positive());
    WalkNonNull(t->negative());  // optional
  }
};

// Everything written ends up in the tree.
class Leaves : public bant::VoidVisitor {
 public:
  std::multiset<const char *> ids, strings;
  size_t numbers = 0;
  void VisitAssignment(bant::Assignment *a) override { VisitBinOpNode(a); }
  void VisitFunCall(bant::FunCall *f) override {
    WalkNonNull(f->left());
    WalkNonNull(f->right());
  }
  void VisitList(bant::List *l) override {
    for (bant::Node *n : *l) WalkNonNull(n);
  }
  void VisitBinOpNode(bant::BinOpNode *b) override {
    WalkNonNull(b->left());
    WalkNonNull(b->right());
  }
  void VisitUnaryExpr(bant::UnaryExpr *e) override { WalkNonNull(e->node()); }
  void VisitListComprehension(bant::ListComprehension *c) override {
    WalkNonNull(c->for_node());
  }
  void VisitTernary(bant::Ternary *t) override {
    WalkNonNull(t->condition());
    WalkNonNull(t->positive());
    WalkNonNull(t->negative());
  }
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kInt) {
      ++numbers;
    } else {
      strings.insert(s->AsString().data());
    }
  }
  void VisitIdentifier(bant::Identifier *i) override { ids.insert(i->id().data()); }
};
// What is not consumed by the parse, or "".
static std::string Unconsumed(std::string_view content, bant::Node *ast) {
  Leaves l;
  l.WalkNonNull(ast);
  std::string open;
  size_t ids = 0, numbers = 0, strings = 0;
  bant::NamedLineIndexedContent src("x", content);
  bant::Scanner scanner(src);
  const char *end = content.data();  // of last token
  for (;;) {
    const bant::Token t = scanner.Next();
    const char *begin = t.type == bant::kEof ? content.data() + content.size() : t.text.data();
    for (bool comment = false; end < begin; ++end) {
      if (*end == '#') comment = true;
      if (*end == '\n') comment = false;
      if (!comment && !isspace((unsigned char)*end) && *end != '\\') {
        return "character " + std::to_string(end - content.data());
      }
    }
    end = begin + t.text.size();
    switch ((int)t.type) {
    case bant::kEof:
      if (!open.empty()) return "open brackets " + open;
      if (numbers != l.numbers) return "numbers";
      if (ids != l.ids.size()) return "identifiers";
      // Strings can be statements.
      if (strings != l.strings.size()) return "strings";
      return "";
    case '(': open += ')'; break;
    case '[': open += ']'; break;
    case '{': open += '}'; break;
    case ')':
    case ']':
    case '}':
      if (open.empty() || open.back() != (char)t.type) return "bracket " + std::string(t.text);
      open.pop_back();
      break;
    case bant::kIdentifier:
      ++ids;
      if (l.ids.count(t.text.data()) != 1) return "identifier " + std::string(t.text);
      break;
    case bant::kNumberLiteral: ++numbers; break;
    case bant::kStringLiteral: {
      size_t q = t.text.find_first_of("\"'");
      q += t.text.size() - q >= 6 && t.text[q + 1] == t.text[q] && t.text[q + 2] == t.text[q] ? 3 : 1;
      const size_t n = l.strings.count(t.text.data() + q);
      if (n != 1 && !open.empty()) return "string " + std::string(t.text);
      strings += n;
      break;
    }
    case bant::kError: return "invalid " + std::string(t.text);
    }
  }
}

static bool GoodLocation(const std::string &err, const std::string &content,
                         const std::string &file) {
  if (!err.starts_with(file + ":")) return false;
  int line = 0, col = 0;
  if (sscanf(err.c_str() + file.size() + 1, "%d:%d", &line, &col) != 2) return false;
  // Within file ?
  int l = 1;
  size_t start = 0;
  while (l < line) {
    size_t nl = content.find('\n', start);
    if (nl == std::string::npos) return false;
    start = nl + 1;
    ++l;
  }
  size_t end = content.find('\n', start);
  if (end == std::string::npos) end = content.size();
  return line >= 1 && col >= 1 && start + col - 1 <= end;
}

static uint64_t OutcomeHash(bool err, const std::string &dump) {
  // Shape only: drop everything but structure.
  std::string s(1, err ? 'E' : 'k');
  for (char c : dump)
    if (strchr("()[]{}<># '=+.", c)) s += c;
  return vf::Hash(s);
}

static void Check(const std::string &prefix, size_t safe_prefix_statements,
                  const std::string &rest) {
  const std::string content = prefix + rest;
  vf::Count("evaluations");
  vf::Transition();
  std::stringstream out, info;
  bant::CommandlineFlags flags;
  flags.verbose = 3;
  bant::Session session(&out, &info, flags);
  bant::ParsedProjectTestUtil util;
  bant::ParsedProject &project = util.project();
  Cerr().str("");
  const bant::ParsedBuildFile *file = util.Add("//p", content);
  info << Cerr().str();
  if (!file || !file->ast) {
    vf::Fail("no-ast", "no tree");
    return;
  }
  const bool error = project.error_count() > 0;
  if (error != !file->errors.empty() || error != !info.str().empty()) {
    vf::Fail("silent-error", std::string("error flagged: ") + (error ? "yes" : "no") +
                               ", message: '" + file->errors + "', printed: '" +
                               info.str() + "'");
    return;
  }
  if (error && !GoodLocation(file->errors, content, "//p/BUILD")) {
    vf::Fail("error-location", "message does not start with location in file: " +
                                 file->errors);
  }
  const std::string before = bt::Dump(file->ast);
  vf::SeeState(OutcomeHash(error, before));
  if (!error) {
    Missing m;
    m.WalkNonNull(file->ast);
    if (m.missing) {
      vf::Fail("missing-expression", "no error, but tree has gaps: " + before);
      return;
    }
    bt::Parsed again(content);
    const std::string lost = Unconsumed(again.content, again.ast);
    if (!lost.empty()) {
      vf::Fail("not-consumed", "no error, but not in the tree: " + lost + "; tree " + before);
      return;
    }
  } else {
    vf::NonTrivial(vf::Hash(content));
  }
  if (safe_prefix_statements) {
    bt::Parsed ref(prefix);
    auto a = ref.ast->begin();
    auto b = file->ast->begin();
    size_t n = 0;
    for (; n < safe_prefix_statements && b != file->ast->end(); ++n, ++a, ++b) {
      if (bt::Dump(*a) != bt::Dump(*b)) {
        vf::Fail("prefix", "statement " + std::to_string(n) + " became " +
                             bt::Dump(*b));
        return;
      }
    }
    if (n < safe_prefix_statements) {
      vf::Fail("prefix", "only " + std::to_string(n) +
                           " of the statements before the error kept");
      return;
    }
  }
  auto pattern = *bant::BazelPattern::ParseFrom("//...");
  auto exercise = [&]() {
    std::stringstream print;
    print << file->ast;
    bant::PrintProject(session, pattern, project);
    bant::query::FindTargetsAllowEmptyName(
      file->ast, {}, [&](const bant::query::Result &r) {
        for (bant::List *l : {r.srcs_list, r.hdrs_list, r.deps_list,
                              r.visibility, r.includes_list, r.outs_list,
                              r.textual_hdrs, r.public_hdrs})
          bant::query::ExtractStringList(l);
      });
    bant::ExtractAliasedBy(project);
    bant::ExtractHeaderToLibMapping(project, info);
    bant::ExtractHeaderToLibMapping(project, info, true);
    bant::ExtractGeneratedFromGenrule(project, info);
  };
  exercise();
  bant::Elaborate(session, &project);
  exercise();
  bant::BuildDependencyGraph(session, project.workspace(), pattern, 3, &project);
  bant::CreateCanonicalizeEdits(session, project, pattern,
                                bant::CreateBuildozerDepsEditCallback(out));
  bant::CreateDependencyEdits(session, project, pattern,
                              bant::CreateBuildozerDepsEditCallback(out));
  bant::WriteCompilationFlags(session, project, pattern, true);
  bant::WriteCompilationFlags(session, project, pattern, false);
}

static void Write(const std::string &name, const std::string &content) {
  std::filesystem::create_directories(
    std::filesystem::path(name).parent_path().string().empty()
      ? std::filesystem::path(".")
      : std::filesystem::path(name).parent_path());
  std::ofstream(name) << content;
}

// All sequences of tokens in a context.
static void Sequences(const std::string &name, const std::string &open,
                      const std::string &close,
                      const std::vector<std::string> &tokens, int maxlen) {
  const std::string prefix = "a = 1\ncc_library(name = \"p\")\n";
  for (int len = 0; len <= maxlen; ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      if (VF_BEGIN([&]() {
            std::string s = name + ": ";
            for (size_t i : idx) s += tokens[i] + " ";
            return s;
          }())) {
        std::string seq;
        for (size_t i : idx) seq += tokens[i] + " ";
        Check(prefix, 2, open + seq + close);
      }
      int i = len - 1;
      while (i >= 0 && ++idx[i] == tokens.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
}

static const char *const kStatements[] = {
  "load(\"@rules_cc//cc:defs.bzl\", \"cc_library\", my = \"cc_test\")\n",
  "package(default_visibility = [\"//visibility:public\", \"//q:__pkg__\"], "
  "features = [\"-x\"])\n",
  "COPTS = [\"-O2\"] + select({\"//c:x\": [\"-Dx\"], \"//conditions:default\": []})\n"
  "genrule(name = \"g\", outs = [\"gen.h\"], cmd = \"\"\"cat $(x) > $@\n\"\"\", "
  "srcs = [x[1:] for x in y if not x in z])\n",
  "cc_library(name = \"a\" + \"b\", srcs = glob([\"*.cc\"], exclude = [\"b.cc\"]),\n"
  "  hdrs = [\"b.h\"], copts = COPTS, alwayslink = True, testonly = 1,\n"
  "  visibility = [\":__subpackages__\"], include_prefix = \"i\", "
  "strip_include_prefix = \"/s\",\n  includes = [\"inc\"], # comment\n"
  "  deps = [\":p\", \"//sub:s\", \"@e//:f\"] + (d if -1 < 2 else [])[0])\n",
  "(u, v) = ('x' % (1, 2), {k: v.w for k, v in m.items()})\n"
  "alias(name = \"al\", actual = \":ab\")\n",
  "[cc_test(name = \"t%d\" % i, srcs = [\"a.cc\"], deps = [\"//sub\"]) for i in "
  "range(3)]\ncc_proto_library(name = \"cp\", deps = [\":pr\"])\n",
};

// Minimal splitter of the statement texts above into tokens with white space.
static std::vector<std::string> Split(const std::string &s) {
  bant::NamedLineIndexedContent src("s", s);
  bant::Scanner scanner(src);
  std::vector<std::string> r;
  size_t last = 0;
  for (;;) {
    bant::Token t = scanner.Next();
    size_t e = t.type == bant::kEof ? s.size()
                                    : t.text.data() + t.text.size() - src.content().data();
    r.push_back(s.substr(last, e - last));
    last = e;
    if (t.type == bant::kEof) break;
  }
  return r;
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const std::string dir = vf::S().out + "/fs" + std::to_string(vf::S().shard);
  std::filesystem::create_directories(dir);
  std::filesystem::current_path(dir);
  Write("p/a.cc", "#include \"b.h\"\n#include \"sub/s.h\"\n#include \"x/y.h\"\n");
  Write("p/b.h", "#include \"gen.h\"\n");
  Write("sub/BUILD", "cc_library(name = \"s\", hdrs = [\"s.h\", +], deps = [\"//x:x\","
                     " ], visibility = [1 +, -]");
  Write("x/BUILD", "cc_library(name = \"x\" + , deps = [");
  std::filesystem::create_directories("y/BUILD");  // not a file
  std::cerr.rdbuf(Cerr().rdbuf());

  const bool th = vf::Thorough();
  const std::vector<std::string> tokens = {
    "a", "x",  "\"s\"", "'s", "7", "(", ")", "[",  "]",   "{",   "}",  ",",
    ":", "=",  "+",     "-",  ".", "%", "if", "else", "for", "in", "not",
    "\n", "$"};
  Sequences("toplevel", "", "", tokens, th ? 5 : 4);
  const std::vector<std::string> small = {"a",   "\"s\"", "7",  "(",  ")",
                                          "[",   "]",     "{",  "}",  ",",
                                          ":",   "=",     "+",  "-",  ".",
                                          "%",   "if",    "else", "for", "in",
                                          "not"};
  const int n = th ? 4 : 3;
  Sequences("assign", "v = ", "\ncc_library(name = v, deps = v, hdrs = [v])\n", small, n);
  for (const char *attr : {"deps", "srcs", "visibility", "name", "includes"}) {
    Sequences(std::string("cc_library ") + attr,
              std::string("cc_library(name = \"l\", srcs = [\"a.cc\"], hdrs = "
                          "[\"b.h\"], ") + attr + " = ",
              ")\n", small, n);
    Sequences(std::string("cc_library list ") + attr,
              std::string("cc_library(name = \"l\", srcs = [\"a.cc\"], hdrs = "
                          "[\"b.h\"], ") + attr + " = [\"b.h\", ",
              "])\n", small, 2);
  }
  Sequences("cc_library", "cc_library(name = \"l\", ", ")\n", small, n);
  Sequences("alias", "alias(name = \"l\", actual = ", ")\n", small, 2);
  Sequences("genrule", "genrule(name = \"l\", outs = [", "])\n", small, 2);
  Sequences("package", "package(default_visibility = [", "])\ncc_library(name = \"l\")\n",
            small, 2);
  Sequences("select arg", "v = select(", ") + [\"z\"]\n", small, n);
  Sequences("select item", "v = select({\"//conditions:default\": [1], ", "}) + [\"z\"]\n",
            small, n);
  Sequences("select value", "v = select({\"//conditions:default\": ", "}) + [\"z\"]\n",
            small, n);
  Sequences("glob arg", "v = glob([\"*\"], ", ")\n", small, n);
  Sequences("glob kwarg", "v = glob(include = ", ", exclude = [\"b\"])\n", small, 2);
  Sequences("concat", "s = \"x\"\nl = [s]\nv = ", " + s\nw = l + v\n", small, n);
  Sequences("comprehension", "v = [a for ", "]\n", small, n);
  Sequences("tuple assign", "(a, ", ") = (1, 2)\n", small, n);
  Sequences("call of variable", "x = [\"y\"]\nf = 2\nglob = \"a\"\nx(name = \"n\", ", ")\nf()\nglob()\n", small, 2);

  // Mutations of a realistic file: one statement is mutated, others before and
  // after stay.
  const int ns = sizeof(kStatements) / sizeof(*kStatements);
  for (int si = 0; si < ns; ++si) {
    std::string prefix, suffix;
    for (int i = 0; i < si; ++i) prefix += kStatements[i];
    for (int i = si + 1; i < ns; ++i) suffix += kStatements[i];
    bt::Parsed p(prefix);
    size_t safe = p.ast->size();
    if (p.error) abort();
    const std::string st = kStatements[si];
    for (size_t len = 0; len <= st.size(); ++len) {  // truncated there
      if (VF_BEGIN("truncate statement " + std::to_string(si) + " at " + std::to_string(len)))
        Check(prefix, safe, st.substr(0, len));
    }
    const auto toks = Split(st);
    auto join = [&](size_t i, const std::vector<std::string> &with) {
      std::string r;
      for (size_t k = 0; k < toks.size(); ++k) {
        if (k == i) {
          for (auto &w : with) r += w;
        } else {
          r += toks[k];
        }
      }
      return r;
    };
    for (size_t i = 0; i < toks.size(); ++i) {
      const std::string where = " token " + std::to_string(i) + " '" +
                                vf::Esc(toks[i]) + "' of statement " + std::to_string(si);
      if (VF_BEGIN("delete" + where)) Check(prefix, safe, join(i, {}) + suffix);
      if (VF_BEGIN("double" + where)) Check(prefix, safe, join(i, {toks[i], toks[i]}) + suffix);
      for (auto &t : tokens) {
        if (VF_BEGIN("replace" + where + " by " + vf::Esc(t)))
          Check(prefix, safe, join(i, {" " + t + " "}) + suffix);
        if (VF_BEGIN("insert" + where + " " + vf::Esc(t)))
          Check(prefix, safe, join(i, {" " + t + " ", toks[i]}) + suffix);
      }
      for (size_t k = i + 1; k < toks.size() && (th || k <= i + 3); ++k) {
        if (VF_BEGIN("swap" + where + " with token " + std::to_string(k))) {
          auto t2 = toks;
          std::swap(t2[i], t2[k]);
          std::string r;
          for (auto &t : t2) r += t;
          Check(prefix, safe, r + suffix);
        }
      }
    }
  }
  // Single bytes anywhere.
  std::string all;
  for (auto s : kStatements) all += s;
  for (size_t i = 0; i < all.size(); ++i) {
    for (const char c : {'"', '\'', '\\', '#', '(', ')', '\n', '\0', '\xff'}) {
      if (VF_BEGIN("byte " + std::to_string(i) + " replaced by " +
                   vf::Esc(std::string_view(&c, 1)))) {
        std::string m = all;
        m[i] = c;
        Check("", 0, m);
      }
    }
  }
  return vf::Finish();
}
