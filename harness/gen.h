// Program generator: expressions as trees, with their source text in several
// layouts and the dump of the AST they have to parse to.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include <cctype>
#include <memory>
#include <string>
#include <vector>

namespace gen {
struct E;
using P = std::shared_ptr<const E>;
enum Kind { kId, kInt, kStr, kList, kMap, kTuple, kCall, kBin, kSub, kSlice, kUn, kTern, kCompr };
struct E {
  Kind k;
  std::string s;               // identifier, literal, operator, function, compr type
  std::string dump;            // kStr, kInt: dump
  std::vector<P> c;            // children (may be null in slices, ternary else)
  std::vector<std::string> kw; // kCall: keyword per argument, "" = positional
  std::vector<std::vector<std::string>> vars;  // kCompr, per for
  bool vars_paren = false;
};
inline P Id(const std::string &s) { return P(new E{kId, s}); }
inline P Int(const std::string &s, const std::string &val) { return P(new E{kInt, s, "#" + val}); }
inline P Str(const std::string &lit, const std::string &dump) { return P(new E{kStr, lit, dump}); }
inline P S(const std::string &c) { return Str("\"" + c + "\"", "'" + c + "'"); }
inline P List(std::vector<P> c) { return P(new E{kList, "", "", std::move(c)}); }
inline P Map(std::vector<P> c) { return P(new E{kMap, "", "", std::move(c)}); }
inline P Tuple(std::vector<P> c) { return P(new E{kTuple, "", "", std::move(c)}); }
inline P Call(const std::string &f, std::vector<P> c, std::vector<std::string> kw = {}) {
  kw.resize(c.size());
  return P(new E{kCall, f, "", std::move(c), std::move(kw)});
}
inline P Bin(const std::string &op, P a, P b) { return P(new E{kBin, op, "", {a, b}}); }
inline P Sub(P a, P b) { return P(new E{kSub, "", "", {a, b}}); }
inline P Slice(P a, P b, P c) { return P(new E{kSlice, "", "", {a, b, c}}); }
inline P Un(const std::string &op, P a) { return P(new E{kUn, op, "", {a}}); }
inline P Tern(P p, P c, P n) { return P(new E{kTern, "", "", {p, c, n}}); }
// c: element, (map: key, value), then iter, cond (or null) for each "for".
inline P Compr(const std::string &type, std::vector<P> c,
               std::vector<std::vector<std::string>> vars, bool paren = false) {
  return P(new E{kCompr, type, "", std::move(c), {}, std::move(vars), paren});
}

inline std::string Dump(const P &e) {
  if (!e) return "NIL";
  auto all = [&](size_t from = 0) {
    std::string r;
    for (size_t i = from; i < e->c.size(); ++i) r += " " + Dump(e->c[i]);
    return r;
  };
  switch (e->k) {
  case kId: return e->s;
  case kInt:
  case kStr: return e->dump;
  case kList: return "[list" + all() + "]";
  case kTuple: return "<tuple" + all() + ">";
  case kMap: {
    std::string r = "{map";
    for (size_t i = 0; i < e->c.size(); i += 2)
      r += " (: " + Dump(e->c[i]) + " " + Dump(e->c[i + 1]) + ")";
    return r + "}";
  }
  case kCall: {
    std::string r = "(call " + e->s + " <tuple";
    for (size_t i = 0; i < e->c.size(); ++i)
      r += e->kw[i].empty() ? " " + Dump(e->c[i])
                            : " (= " + e->kw[i] + " " + Dump(e->c[i]) + ")";
    return r + ">)";
  }
  case kBin: return "(" + e->s + all() + ")";
  case kSub: return "([" + all() + ")";
  case kSlice:
    return "([ " + Dump(e->c[0]) + " (:" + all(1) + "))";
  case kUn: return "(unary" + e->s + all() + ")";
  case kTern: return "(if " + Dump(e->c[1]) + " " + Dump(e->c[0]) + " " + Dump(e->c[2]) + ")";
  case kCompr: {
    size_t i = 0;
    std::string r;
    if (e->s == "map") {
      r = "(: " + Dump(e->c[0]) + " " + Dump(e->c[1]) + ")";
      i = 2;
    } else {
      r = Dump(e->c[0]);
      i = 1;
    }
    for (auto &vs : e->vars) {
      std::string v = "<tuple";
      for (auto &x : vs) v += " " + x;
      v += ">";
      std::string iter = Dump(e->c[i]);
      if (e->c[i + 1]) iter = "(if " + Dump(e->c[i + 1]) + " " + iter + " NIL)";
      r = "(for " + r + " (in " + v + " " + iter + "))";
      i += 2;
    }
    return "(compr-" + e->s + " " + r + ")";
  }
  }
  return "?";
}

// Token with a note if no newline may be before it.
struct Tok {
  std::string t;
  bool glue = false;
};
using Toks = std::vector<Tok>;

struct Style {
  bool full_parens = false;
  bool trailing_comma = false;
};
inline bool Atom(const P &e) {
  switch (e->k) {
  case kBin:
  case kUn:
  case kTern: return false;
  default: return true;
  }
}
// Ends in an "if" without "else": a following "else" would belong to that.
inline bool Dangling(const P &e) {
  switch (e->k) {
  case kBin: return e->s != "." && Dangling(e->c[1]);
  case kUn: return Dangling(e->c[0]);
  case kTern: return !e->c[2] || Dangling(e->c[2]);
  default: return false;
  }
}
inline void Emit(const P &e, const Style &st, Toks &o) {
  auto t = [&](const std::string &s, bool glue = false) { o.push_back({s, glue}); };
  auto paren = [&](const P &x, bool need) {
    if (need || (st.full_parens && x->k != kTuple)) {
      t("(");
      Emit(x, st, o);
      t(")");
    } else {
      Emit(x, st, o);
    }
  };
  switch (e->k) {
  case kId:
  case kInt:
  case kStr: t(e->s); break;
  case kList:
  case kTuple: {
    t(e->k == kList ? "[" : "(");
    for (size_t i = 0; i < e->c.size(); ++i) {
      if (i) t(",");
      paren(e->c[i], false);
    }
    if ((e->k == kTuple && e->c.size() == 1) || (st.trailing_comma && !e->c.empty())) t(",");
    t(e->k == kList ? "]" : ")");
    break;
  }
  case kMap: {
    t("{");
    for (size_t i = 0; i < e->c.size(); i += 2) {
      if (i) t(",");
      paren(e->c[i], false);
      t(":");
      paren(e->c[i + 1], false);
    }
    if (st.trailing_comma && !e->c.empty()) t(",");
    t("}");
    break;
  }
  case kCall:
    t(e->s);
    t("(");
    for (size_t i = 0; i < e->c.size(); ++i) {
      if (i) t(",");
      if (!e->kw[i].empty()) {
        t(e->kw[i]);
        t("=");
      }
      paren(e->c[i], false);
    }
    if (st.trailing_comma && !e->c.empty()) t(",");
    t(")");
    break;
  case kBin:
    // A number before a dot would be a different number.
    paren(e->c[0], !Atom(e->c[0]) || (e->s == "." && e->c[0]->k == kInt));
    t(e->s);
    if (e->s == "." && st.full_parens) Emit(e->c[1], st, o);
    else paren(e->c[1], false);
    break;
  case kSub:
    paren(e->c[0], !Atom(e->c[0]));
    t("[", true);
    paren(e->c[1], false);
    t("]");
    break;
  case kSlice:
    paren(e->c[0], !Atom(e->c[0]));
    t("[", true);
    if (e->c[1]) paren(e->c[1], false);
    t(":");
    if (e->c[2]) paren(e->c[2], false);
    t("]");
    break;
  case kUn:
    t(e->s);
    paren(e->c[0], false);
    break;
  case kTern:
    paren(e->c[0], !Atom(e->c[0]));
    t("if");
    paren(e->c[1], e->c[2] && Dangling(e->c[1]));
    if (e->c[2]) {
      t("else");
      paren(e->c[2], false);
    }
    break;
  case kCompr: {
    t(e->s == "map" ? "{" : "[");
    size_t i = 0;
    paren(e->c[i++], false);
    if (e->s == "map") {
      t(":");
      paren(e->c[i++], false);
    }
    for (auto &vs : e->vars) {
      t("for");
      if (e->vars_paren) t("(");
      for (size_t v = 0; v < vs.size(); ++v) {
        if (v) t(",");
        t(vs[v]);
      }
      if (e->vars_paren) t(")");
      t("in");
      paren(e->c[i], e->c[i + 1] && !Atom(e->c[i]));
      if (e->c[i + 1]) {
        t("if");
        paren(e->c[i + 1], false);
      }
      i += 2;
    }
    t(e->s == "map" ? "}" : "]");
    break;
  }
  }
}

enum Layout { kSpaces, kTight, kLines, kNumLayouts };
inline std::string Join(const Toks &o, int layout) {
  std::string r;
  auto id = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; };
  int n = 0;
  for (auto &t : o) {
    if (!r.empty()) {
      switch (layout) {
      case kSpaces: r += " "; break;
      case kTight: {
        const char l = r.back(), f = t.t[0];
        bool space = (id(l) && id(f) && !(l == '.' || f == '.')) ||
                     (isdigit((unsigned char)l) && f == '.') ||
                     (id(l) && (f == '"' || f == '\'')) ||  // don't make it raw
                     (strchr("!<>=", l) && f == '=');
        if (space) r += " ";
        break;
      }
      case kLines:
        if (t.glue) r += " ";
        else if (++n % 2) r += " # c \"(\n";
        else r += "\n\t\\\n";
        break;
      }
    }
    r += t.t;
  }
  return r;
}
inline std::string Text(const P &e, int layout = kSpaces, const Style &st = {}) {
  Toks o;
  Emit(e, st, o);
  return Join(o, layout);
}
}  // namespace gen
#endif
