// Explorer: elaboration against a reference evaluator.
#include <map>

#include "bt.h"
#include "gen.h"

using gen::P;

static std::string Value(std::string_view content, bool raw) {
  if (raw) return std::string(content);
  std::string r;
  for (size_t i = 0; i < content.size(); ++i) {
    if (content[i] != '\\' || i + 1 == content.size()) {
      r += content[i];
      continue;
    }
    switch (content[++i]) {
    case 'n': r += '\n'; break;
    case '\n': break;
    case '\\':
    case '\'':
    case '"': r += content[i]; break;
    default:
      r += '\\';
      r += content[i];
    }
  }
  return r;
}

// Dump with the values of strings.
struct ValueDumper : bt::Dumper {
  void VisitScalar(bant::Scalar *s) override {
    if (s->type() == bant::Scalar::ScalarType::kInt) {
      out += "#" + std::to_string(s->AsInt());
    } else {
      auto *str = static_cast<bant::StringScalar *>(s);
      out += "'" + vf::Esc(Value(str->AsString(), str->is_raw())) + "'";
    }
  }
};
static std::string DumpValue(bant::Node *n) {
  ValueDumper d;
  d.Walk(n);
  return d.out;
}

// -- Reference. Strings in evaluated trees: kStr with value in "s", and the
// matching dump.
static P Val(const std::string &v) { return P(new gen::E{gen::kStr, v, "'" + vf::Esc(v) + "'"}); }
static P StrLit(const std::string &lit) {
  std::string_view c = lit;
  bool raw = false;
  if (c[0] == 'r') {
    raw = true;
    c.remove_prefix(1);
  }
  size_t q = c.size() >= 6 && (c.substr(0, 3) == "\"\"\"" || c.substr(0, 3) == "'''") ? 3 : 1;
  return gen::Str(lit, "'" + vf::Esc(Value(c.substr(q, c.size() - 2 * q), raw)) + "'");
}
using Env = std::map<std::string, P>;
static std::string StrValue(const P &e) {  // from dump of a string
  std::string r;
  const std::string &d = e->dump;
  for (size_t i = 1; i + 1 < d.size(); ++i) {
    if (d[i] != '\\') {
      r += d[i];
      continue;
    }
    char c = d[++i];
    r += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c;
  }
  return r;
}
static bool IsList(const P &e) {
  return e->k == gen::kList || e->k == gen::kMap || e->k == gen::kTuple;
}
static P Eval(const P &e, const Env &env) {
  if (!e) return e;
  auto kids = [&](const Env &v) {
    gen::E r = *e;
    for (auto &c : r.c) c = Eval(c, v);
    return P(new gen::E(r));
  };
  switch (e->k) {
  case gen::kId: {
    auto f = env.find(e->s);
    return f == env.end() ? e : f->second;
  }
  case gen::kInt:
  case gen::kStr: return e;
  case gen::kCall: {
    P r = kids(env);
    if (e->s != "select") return r;
    for (size_t i = 0; i < r->c.size(); ++i) {
      if (!r->kw[i].empty() || r->c[i]->k != gen::kMap) continue;
      const P &m = r->c[i];
      for (size_t j = 0; j < m->c.size(); j += 2)
        if (m->c[j]->k == gen::kStr && StrValue(m->c[j]) == "//conditions:default") return m->c[j + 1];
    }
    return r;
  }
  case gen::kBin: {
    if (e->s == ".") {  // A member is neither variable nor builtin function.
      gen::E r = *e;
      r.c[0] = Eval(r.c[0], env);
      if (r.c[1]->k == gen::kCall) {
        gen::E call = *r.c[1];
        for (auto &c : call.c) c = Eval(c, env);
        r.c[1] = P(new gen::E(call));
      }
      return P(new gen::E(r));
    }
    P r = kids(env);
    if (e->s != "+") return r;
    const P &a = r->c[0], &b = r->c[1];
    if (IsList(a) != IsList(b)) return IsList(a) ? a : b;
    if (IsList(a) && a->k == b->k) {
      gen::E l = *a;
      l.c.insert(l.c.end(), b->c.begin(), b->c.end());
      return P(new gen::E(l));
    }
    if (a->k == gen::kStr && b->k == gen::kStr) return Val(StrValue(a) + StrValue(b));
    return r;
  }
  case gen::kCompr: {
    Env inner = env;
    for (auto &vs : e->vars)
      for (auto &v : vs) inner.erase(v);
    return kids(inner);
  }
  default: return kids(env);
  }
}

// -- Programs: sequence of statements.
struct Stmt {
  std::vector<std::string> vars;  // assigned to; empty: just an expression
  P value;
};
using Prog = std::vector<Stmt>;
static std::string Text(const Prog &prog) {
  std::string r;
  for (auto &s : prog) {
    if (s.vars.size() == 1) {
      r += s.vars[0] + " = ";
    } else if (s.vars.size() > 1) {
      r += "(";
      for (auto &v : s.vars) r += v + ",";
      r += ") = ";
    }
    r += gen::Text(s.value) + "\n";
  }
  return r;
}
static std::string RefDump(const Prog &prog) {
  Env env;
  std::string r = "[list";
  for (auto &s : prog) {
    P v = Eval(s.value, env);
    if (s.vars.empty()) {
      r += " " + gen::Dump(v);
    } else if (s.vars.size() == 1) {
      r += " (= " + s.vars[0] + " " + gen::Dump(v) + ")";
      env[s.vars[0]] = v;
    } else {
      r += " (= <tuple";
      for (auto &x : s.vars) {
        r += " " + x;
        env.erase(x);
      }
      r += "> " + gen::Dump(v) + ")";
    }
  }
  return r + "]";
}

static void Check(const Prog &prog) {
  vf::Count("evaluations");
  vf::Transition();
  const std::string text = Text(prog);
  std::stringstream out, info;
  bant::Session session(&out, &info, {});
  bant::ParsedProjectTestUtil util;
  // Neighbours before and after in order of elaboration, without variables.
  const std::string other = "t(name = \"o\", x = [A, B, C, U])\n";
  const std::string other_dump = "[list (call t <tuple (= name 'o') (= x [list A B C U])>)]";
  const bant::ParsedBuildFile *before = util.Add("//a", other);
  const bant::ParsedBuildFile *f = util.Add("//b", text);
  const bant::ParsedBuildFile *after = util.Add("//c", other);
  if (util.project().error_count()) {
    vf::Fail("input", text + info.str());
    return;
  }
  bant::Elaborate(session, &util.project());
  const std::string got = DumpValue(f->ast), want = RefDump(prog);
  vf::SeeState(want);
  if (got != want) vf::Fail("value", "program:\n" + text + "want " + want + "\ngot  " + got);
  if (DumpValue(before->ast) != other_dump || DumpValue(after->ast) != other_dump)
    vf::Fail("other-file", "program:\n" + text);
}

using gen::Bin, gen::Call, gen::Compr, gen::Id, gen::Int, gen::List, gen::Map, gen::Slice, gen::Sub,
  gen::Tern, gen::Tuple, gen::Un;
static std::vector<Prog> Prologues(bool all) {
  const P l1 = List({StrLit("\"p\""), StrLit("'q'")}), s1 = StrLit("\"s\"");
  const P sel = Call("select", {Map({StrLit("\":x\""), List({StrLit("\"c\"")}),
                                     StrLit("\"//conditions:default\""), List({StrLit("\"d\"")})})});
  std::vector<Prog> r = {
    {{{"A"}, l1}},
    {{{"A"}, s1}},
    {{{"A"}, s1}, {{"B"}, l1}, {{"f"}, s1}, {{"select"}, s1}},
    {},
  };
  if (!all) return r;
  std::vector<Prog> more = {
    {{{"A"}, Int("1", "1")}},
    {{{"A"}, Id("U")}},
    {{{"A"}, List({})}, {{"A"}, Bin("+", Id("A"), l1)}},
    {{{"B"}, s1}, {{"A"}, Bin("+", Id("B"), StrLit("r'\\n'"))}},
    {{{"A"}, s1}, {{"A", "B"}, Tuple({l1, s1})}},
    {{{"A"}, sel}, {{"B"}, Bin("+", Id("A"), Id("A"))}},
    {{{"A"}, Map({StrLit("\"//conditions:default\""), s1})}},
    {{{"A"}, Call("g", {}, {})}, {{"k"}, s1}, {{"v"}, l1}},
    {{{"A"}, Tuple({s1, l1})}},
    {{{"A"}, List({Id("A")})}},
    {{{"A"}, l1}, {{}, Call("t", {Id("A")}, {"A"})}, {{"A"}, s1}},
    {{{}, Call("t", {Id("A"), l1}, {"x", "A"})}},
    {{{"A"}, Bin("+", s1, l1)}, {{"B"}, Bin("+", l1, Id("U"))}},
    {{{"A"}, StrLit("\"\"")}, {{"B"}, StrLit("\"\"\"x\ny\"\"\"")}},
  };
  r.insert(r.end(), more.begin(), more.end());
  return r;
}
static std::vector<P> Leaves() {
  return {Id("A"), Id("B"), Id("U"), StrLit("\"s\""), List({}), List({StrLit("\"l\""), Id("A")}),
          Int("7", "7"), Tuple({}), Map({}), Tuple({Id("A")}), Map({Id("A"), Id("B")}),
          StrLit("r\"\\n\""), StrLit("'a\\n\"'"), StrLit("\"\""), StrLit("\"\"\"t\nu\"\"\""), Call("g", {}),
          Call("f", {Id("A"), Id("A")}, {"A", "f"}),
          Call("select", {Map({StrLit("\"//conditions:default\""), Id("A")})}),
          Call("select", {Map({StrLit("\":other\""), Id("A")})})};
}
using Ctx = std::function<P(P)>;
static std::vector<Ctx> Contexts() {
  const P A = Id("A"), B = Id("B"), s = StrLit("\"t\""), def = StrLit("\"//conditions:default\""),
          oth = StrLit("\":o\""), l = List({StrLit("\"m\"")});
  std::vector<Ctx> r = {
    [=](P x) { return Bin("+", x, A); },
    [=](P x) { return Bin("+", A, x); },
    [=](P x) { return Bin("+", x, s); },
    [=](P x) { return Bin("+", s, x); },
    [=](P x) { return Bin("+", x, l); },
    [=](P x) { return Bin("+", l, x); },
    [=](P x) { return Bin("+", x, x); },
    [=](P x) { return Bin("-", x, A); },
    [=](P x) { return Bin("%", s, x); },
    [=](P x) { return Bin("*", x, s); },
    [=](P x) { return Bin("in", x, l); },
    [=](P x) { return Bin("|", x, x); },
    [=](P x) { return Bin(".", x, A); },
    [=](P x) { return Bin(".", x, Call("A", {A, x}, {"", "A"})); },
    [=](P x) { return Bin(".", B, Call("select", {Map({def, x})})); },
    [=](P x) { return Un("-", x); },
    [=](P x) { return Un("not", x); },
    [=](P x) { return List({x}); },
    [=](P x) { return List({A, x, s}); },
    [=](P x) { return Tuple({x, A}); },
    [=](P x) { return Map({x, A}); },
    [=](P x) { return Map({s, x, oth, A}); },
    [=](P x) { return Sub(A, x); },
    [=](P x) { return Sub(x, B); },
    [=](P x) { return Slice(A, x, nullptr); },
    [=](P x) { return Slice(x, nullptr, A); },
    [=](P x) { return Tern(x, A, B); },
    [=](P x) { return Tern(A, x, s); },
    [=](P x) { return Tern(A, B, x); },
    [=](P x) { return Call("f", {x}); },
    [=](P x) { return Call("A", {x, x}, {"", "B"}); },
    [=](P x) { return Call("f", {x}, {"A"}); },
    [=](P x) { return Call("select", {x}); },
    [=](P x) { return Call("select", {Map({def, x})}); },
    [=](P x) { return Call("select", {Map({oth, l, def, x})}); },
    [=](P x) { return Call("select", {Map({def, A, oth, x})}); },
    [=](P x) { return Call("select", {Map({oth, x})}); },
    [=](P x) { return Call("select", {Map({def, x}), s}, {"", "no_match_error"}); },
    [=](P x) { return Compr("list", {x, A, nullptr}, {{"v"}}); },
    [=](P x) { return Compr("list", {x, B, A}, {{"A"}}); },
    [=](P x) { return Compr("list", {A, x, x}, {{"B", "v"}}); },
    [=](P x) { return Compr("list", {x, B, nullptr, A, A}, {{"v"}, {"A"}}); },
    [=](P x) { return Compr("list", {x, B, nullptr, l, A}, {{"A"}, {"v"}}, true); },
    [=](P x) { return Compr("map", {A, x, B, nullptr}, {{"B"}}); },
  };
  return r;
}

static void Run(const std::function<P()> &make, const std::vector<Prog> &prologues) {
  P e;
  if (!VF_BEGIN([&]() {
        e = make();
        return "expr: " + gen::Text(e);
      }()))
    return;
  vf::NonTrivial();
  for (auto &pro : prologues) {
    Prog p = pro;
    p.push_back({{}, Call("t", {StrLit("\"n\""), e}, {"name", "x"})});
    p.push_back({{"C"}, e});
    p.push_back({{}, Call("t", {Id("C"), List({Id("C"), Id("A")}), Bin("+", Id("C"), Id("C"))}, {"C", "y", "z"})});
    p.push_back({{}, List({Call("t", {Id("C")}, {"x"}), Id("B")})});
    p.push_back({{}, Compr("list", {Call("t", {Id("v"), Id("A")}, {"name", "x"}), Id("C"), nullptr}, {{"v"}})});
    Check(p);
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const auto ctx = Contexts();
  const auto leaves = Leaves();
  const auto all = Prologues(true), few = Prologues(false);
  for (auto &l : leaves) Run([&]() { return l; }, all);
  for (auto &c : ctx)
    for (auto &l : leaves) Run([&]() { return c(l); }, all);
  for (auto &c1 : ctx)
    for (auto &c2 : ctx)
      for (auto &l : leaves) Run([&]() { return c2(c1(l)); }, vf::Thorough() ? all : few);
  // Two operands.
  std::vector<P> ops = leaves;
  for (auto &c : ctx)
    for (size_t i = 0; i < (vf::Thorough() ? leaves.size() : 4); ++i) ops.push_back(c(leaves[i]));
  for (auto &a : ops)
    for (auto &b : ops) {
      Run([&]() { return Bin("+", a, b); }, few);
      Run([&]() { return Call("select", {Map({a, b})}); }, {few[0], few[1]});
    }
  // Long chains, many variables, long lists and strings, deep nesting.
  for (int n : vf::Sizes(vf::Thorough() ? 600 : 300)) {
    if (n == 0 || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    auto str = [](int i) { return StrLit("\"s" + std::to_string(i) + "\""); };
    P lists = List({str(0)}), strings = str(0), names = Id("v0"), nested = List({Id("v0")}), reverse = List({str(0)});
    std::vector<P> elements, kw;
    std::vector<std::string> kwn;
    Prog vars = {{{"v0"}, str(0)}};
    for (int i = 1; i < n; ++i) {
      lists = Bin("+", List({str(i)}), lists);
      reverse = Bin("+", reverse, List({str(i)}));
      strings = Bin("+", str(i), strings);
      vars.push_back({{"v" + std::to_string(i)}, i % 3 ? str(i) : List({str(i), Id("v" + std::to_string(i - 1))})});
      names = Bin("+", Id("v" + std::to_string(i - i % 3)), names);
      nested = i % 2 ? List({nested, Id("v0")}) : Call("f", {nested, Id("v0")});
    }
    for (int i = 0; i < n; ++i) {
      elements.push_back(i % 2 ? Id("v" + std::to_string(i)) : str(i));
      kw.push_back(Id("v" + std::to_string(n - 1 - i)));
      kwn.push_back("v" + std::to_string(i));
    }
    for (const P &e : {lists, reverse, strings, List(elements), Call("f", kw, kwn), Bin("+", List(elements), List(elements)), nested, StrLit("\"" + vf::Times("x", n) + "\""), Bin("+", StrLit("\"" + vf::Times("x", n) + "\""), str(n))}) {
      Prog p = n > 40 && (e == lists || e == reverse || e == strings || e == nested) ? Prog{vars[0]} : vars;
      if (n > 40) {  // Values of values get large
        for (auto &s : p) {
          if (s.value->k == gen::kList) s.value = List({s.value->c[0]});
        }
      }
      p.push_back({{}, Call("t", {e}, {"x"})});
      p.push_back({{"C"}, e});
      p.push_back({{}, Call("t", {Id("C"), Id("v0")}, {"C", "y"})});
      Check(p);
    }
  }
  if (vf::Thorough()) {
    for (auto &c1 : ctx)
      for (auto &c2 : ctx)
        for (auto &c3 : ctx)
          for (size_t i = 0; i < 6; ++i) Run([&]() { return c3(c2(c1(leaves[i]))); }, {few[0], few[1]});
  }
  return vf::Finish();
}
