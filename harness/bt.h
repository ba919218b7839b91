// Helpers around bant's own types for the explorers.
#ifndef VERIF_BT_H
#define VERIF_BT_H
#include <sstream>
#include <string>
#include <vector>

#include "bant/frontend/ast.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/parsed-project.h"
#include "bant/frontend/parsed-project_testutil.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/scanner.h"
#include "bant/session.h"
#include "common.h"

namespace bt {
inline std::string Op(bant::TokenType t) {
  std::stringstream s;
  s << t;
  return s.str();
}

// Structural dump of an AST, one line.
class Dumper : public bant::VoidVisitor {
 public:
  std::string out;
  void Walk(bant::Node *n) {
    if (!WalkNonNull(n)) out += "NIL";
  }
  void VisitAssignment(bant::Assignment *a) override {
    out += "(= ";
    Walk(a->left());
    out += " ";
    Walk(a->right());
    out += ")";
  }
  void VisitFunCall(bant::FunCall *f) override {
    out += "(call ";
    Walk(f->left());
    out += " ";
    Walk(f->right());
    out += ")";
  }
  void VisitList(bant::List *l) override {
    out += l->type() == bant::List::Type::kList  ? "[list"
           : l->type() == bant::List::Type::kMap ? "{map"
                                                 : "<tuple";
    size_t n = 0;
    for (bant::Node *e : *l) {
      out += " ";
      Walk(e);
      ++n;
    }
    if (n != l->size()) out += "!SIZE!";
    out += l->type() == bant::List::Type::kList  ? "]"
           : l->type() == bant::List::Type::kMap ? "}"
                                                 : ">";
  }
  void VisitBinOpNode(bant::BinOpNode *b) override {
    out += "(" + Op(b->op()) + " ";
    Walk(b->left());
    out += " ";
    Walk(b->right());
    out += ")";
  }
  void VisitUnaryExpr(bant::UnaryExpr *e) override {
    out += "(unary" + Op(e->op()) + " ";
    Walk(e->node());
    out += ")";
  }
  void VisitListComprehension(bant::ListComprehension *c) override {
    out += c->type() == bant::List::Type::kList  ? "(compr-list "
           : c->type() == bant::List::Type::kMap ? "(compr-map "
                                                 : "(compr-tuple ";
    Walk(c->for_node());
    out += ")";
  }
  void VisitTernary(bant::Ternary *t) override {
    out += "(if ";
    Walk(t->condition());
    out += " ";
    Walk(t->positive());
    out += " ";
    Walk(t->negative());
    out += ")";
  }
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kInt) {
      out += "#" + std::to_string(s->AsInt());
    } else {
      auto *str = static_cast<bant::StringScalar *>(s);
      if (str->is_raw()) out += "r";
      if (str->is_triple_quoted()) out += "3";
      out += "'" + vf::Esc(str->AsString()) + "'";
    }
  }
  void VisitIdentifier(bant::Identifier *i) override {
    out += std::string(i->id());
  }
};
inline std::string Dump(bant::Node *n) {
  Dumper d;
  d.Walk(n);
  return d.out;
}

// A standalone parse of some text.
struct Parsed {
  std::string content;
  bant::NamedLineIndexedContent source;
  bant::Arena arena{4096};
  std::string errors;
  bant::List *ast = nullptr;
  bool error = false;
  explicit Parsed(std::string c, const char *name = "BUILD")
      : content(std::move(c)), source(name, content) {
    bant::Scanner scanner(source);
    std::stringstream err;
    bant::Parser parser(&scanner, &arena, err);
    ast = parser.parse();
    error = parser.parse_error();
    errors = err.str();
  }
};

// Reference: line and column (zero based) of offset.
struct LC {
  int line = 0, col = 0;
};
inline LC RefPos(std::string_view content, size_t off) {
  LC r;
  for (size_t i = 0; i < off; ++i) {
    if (content[i] == '\n') {
      ++r.line;
      r.col = 0;
    } else {
      ++r.col;
    }
  }
  return r;
}
// Reference for human readable location of range [b, e); e not right after
// a newline.
inline std::string RefLoc(const std::string &file, std::string_view content,
                          size_t b, size_t e) {
  LC s = RefPos(content, b);
  std::string r = file + ":" + std::to_string(s.line + 1) + ":" +
                  std::to_string(s.col + 1);
  if (e > b) {
    LC l = RefPos(content, e - 1);  // last character, inclusive.
    if (l.line == s.line) {
      if (l.col > s.col) r += "-" + std::to_string(l.col + 1);
    } else {
      r += ":" + std::to_string(l.line + 1) + ":" + std::to_string(l.col + 1);
    }
  }
  return r + ":";
}
}  // namespace bt
#endif
