// Explorer: generated well-formed programs parse to the tree they were made
// from, in all layouts.
#include "bt.h"
#include "contexts.h"

static void CheckParse(const std::string &text, const std::string &want) {
  vf::Count("evaluations");
  vf::Transition();
  bt::Parsed p(text);
  if (p.error || !p.errors.empty()) {
    vf::Fail("parse-error", "text: " + text + "\nerror: " + p.errors);
    return;
  }
  const std::string got = bt::Dump(p.ast);
  if (got != want) {
    vf::Fail("tree", "text: " + text + "\nwant " + want + "\ngot  " + got);
  }
}

static void Expressions() {
  int n = 0;
  gen::ForAll(vf::Thorough() ? 4 : 3, [&](const std::function<gen::P()> &make) {
    ++n;
    gen::P e;
    if (!VF_BEGIN([&]() {
          e = make();
          return "expr: " + gen::Text(e);
        }()))
      return;
    const std::string d = gen::Dump(e);
    vf::SeeState(d);
    vf::NonTrivial();
    gen::Style fp{.full_parens = true}, tc{.trailing_comma = true};
    CheckParse("v = " + gen::Text(e), "[list (= v " + d + ")]");
    CheckParse("v = " + gen::Text(e, gen::kTight, tc), "[list (= v " + d + ")]");
    CheckParse("f(k = " + gen::Text(e, gen::kLines) + ")",
               "[list (call f <tuple (= k " + d + ")>)]");
    CheckParse("f(" + gen::Text(e, gen::kTight, fp) + ",)",
               "[list (call f <tuple " + d + ">)]");
  });
}

// Unparenthesised operator chains read from the right.
static void Chains() {
  for (auto &o1 : gen::Ops())
    for (auto &o2 : gen::Ops())
      for (const char *u : {"", "-", "not"}) {
        if (!VF_BEGIN("chain: a " + o1 + " " + u + " b " + o2 + " c")) continue;
        std::string un = *u ? std::string("(unary") + u + " " : "";
        CheckParse("v = a " + o1 + " " + u + " b " + o2 + " c",
                   "[list (= v (" + o1 + " a " + un + "(" + o2 + " b c)" +
                     (*u ? ")" : "") + "))]");
      }
}

// Member access, subscripts: all sequences of suffixes, followed by an operator.
static void Suffixes() {
  struct Sfx {
    const char *text;
    std::function<std::string(const std::string &)> dump;
  };
  const std::vector<Sfx> sfx = {
    {".b", [](auto &x) { return "(. " + x + " b)"; }},
    {".f(a, k = b)", [](auto &x) { return "(. " + x + " (call f <tuple a (= k b)>))"; }},
    {"[7]", [](auto &x) { return "([ " + x + " #7)"; }},
    {"[:b]", [](auto &x) { return "([ " + x + " (: NIL b))"; }},
    {"[a.b]", [](auto &x) { return "([ " + x + " (. a b))"; }},
  };
  const std::vector<std::pair<const char *, const char *>> start = {
    {"x", "x"}, {"\"s\"", "'s'"}, {"f(x)", "(call f <tuple x>)"}, {"[x]", "[list x]"},
    {"{}", "{map}"}, {"(x + y)", "(+ x y)"}, {"(x,)", "<tuple x>"}};
  for (int len = 0; len <= (vf::Thorough() ? 5 : 4); ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      for (auto &[st, sd] : start) {
        std::string t = st, d = sd;
        for (size_t i : idx) {
          t += sfx[i].text;
          d = sfx[i].dump(d);
        }
        if (!VF_BEGIN("suffixes: " + t)) continue;
        vf::NonTrivial();
        CheckParse("v = " + t, "[list (= v " + d + ")]");
        CheckParse("f(-" + t + ")", "[list (call f <tuple (unary- " + d + ")>)]");
        if (std::string_view(st) == "x" && len && t[1] == '.')
          CheckParse(t + "\nv = 1", "[list " + d + " (= v #1)]");
        for (auto &op : gen::Ops()) {
          CheckParse("v = " + t + " " + op + " w", "[list (= v (" + op + " " + d + " w))]");
          CheckParse("v = w " + op + " " + t, "[list (= v (" + op + " w " + d + "))]");
        }
        CheckParse("v = " + t + " if " + t + " else " + t,
                   "[list (= v (if " + d + " " + d + " " + d + "))]");
      }
      int i = len - 1;
      while (i >= 0 && ++idx[i] == sfx.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
}

static void Literals() {
  // All string contents over some pieces, in all quote forms.
  const std::vector<std::string> pieces = {"a", "'", "\"", "\\\\", "\\'", "\\\"", "\\n", "\n", "#"};
  const int maxlen = vf::Thorough() ? 6 : 5;
  for (int len = 0; len <= maxlen; ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      std::string c;
      for (size_t i : idx) c += pieces[i];
      for (const char *q : {"'", "\"", "'''", "\"\"\""}) {
        for (const char *r : {"", "r", "R"}) {
          // Valid if end quote does not show up in it.
          const std::string quote = q;
          bool ok = true;
          int run = 0;
          for (size_t i = 0; i < c.size(); ++i) {
            if (c[i] == '\\') {
              ++i;
              run = 0;
            } else if (c[i] == quote[0]) {
              if (++run == (int)quote.size()) ok = false;
            } else {
              run = 0;
            }
          }
          if (run > 0) ok = false;  // would be part of closing quote
          if (!ok) continue;
          const std::string lit = r + quote + c + quote;
          if (!VF_BEGIN("literal: " + lit)) continue;
          vf::NonTrivial();
          const std::string d = std::string(*r ? "r" : "") +
                                (quote.size() == 3 ? "3" : "") + "'" + vf::Esc(c) + "'";
          CheckParse("v = " + lit + "\nw = [" + lit + "," + lit + "]",
                     "[list (= v " + d + ") (= w [list " + d + " " + d + "])]");
        }
      }
      int i = len - 1;
      while (i >= 0 && ++idx[i] == pieces.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
  struct N {
    const char *lit;
    long long v;
  };
  const N nums[] = {{"0", 0}, {"1", 1}, {"10", 10}, {"0x10", 16}, {"0xfF", 255},
                    {"0o17", 15}, {"9223372036854775807", 9223372036854775807LL},
                    {"0x7fffffffffffffff", 9223372036854775807LL}, {"007", 7},
                    {"0o0", 0}, {"0x0", 0}, {"123456789", 123456789}};
  for (auto &n : nums) {
    if (!VF_BEGIN(std::string("number: ") + n.lit)) continue;
    CheckParse(std::string("v = ") + n.lit, "[list (= v #" + std::to_string(n.v) + ")]");
    CheckParse(std::string("v = [-") + n.lit + "," + n.lit + "]",
               "[list (= v [list (unary- #" + std::to_string(n.v) + ") #" + std::to_string(n.v) + "])]");
  }
  for (const char *bad : {"9223372036854775808", "0x10000000000000000", "99999999999999999999"}) {
    if (!VF_BEGIN(std::string("number out of range: ") + bad)) continue;
    bt::Parsed p(std::string("v = ") + bad);
    if (!p.error) vf::Fail("number-range", "accepted as " + bt::Dump(p.ast));
  }
}

// Sequences of statements, with blank lines, comments, doc strings between.
static void Programs() {
  struct St {
    const char *text, *dump;
  };
  const std::vector<St> sts = {
    {"x = 1", "(= x #1)"},
    {"y = [\n1,\n2]", "(= y [list #1 #2])"},
    {"f()", "(call f <tuple>)"},
    {"f(a, k = \"v\")", "(call f <tuple a (= k 'v')>)"},
    {"load(\"a\", \"b\", c = \"d\")", "(call load <tuple 'a' 'b' (= c 'd')>)"},
    {"(a, b) = (1, 2)", "(= <tuple a b> <tuple #1 #2>)"},
    {"(a,) = [1]", "(= <tuple a> [list #1])"},
    {"[f(name = n) for n in [1, 2]]",
     "(compr-list (for (call f <tuple (= name n)>) (in <tuple n> [list #1 #2])))"},
    {"[]", "[list]"},
    {"[f(), g()]", "[list (call f <tuple>) (call g <tuple>)]"},
    {"a.b(c)", "(. a (call b <tuple c>))"},
    {"\"\"\"doc\nstring\"\"\"", ""},
    {"# comment", ""},
    {"z = a[1]", "(= z ([ a #1))"},
    {"z = {\"k\": v}", "(= z {map (: 'k' v)})"},
    {"z = s % t if u else 2", "(= z (% s (if u t #2)))"},
    {"z = -1", "(= z (unary- #1))"},
    {"", ""},
  };
  const int n = vf::Thorough() ? 4 : 3;
  for (int len = 0; len <= n; ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      if (VF_BEGIN([&]() {
            std::string s = "program:";
            for (size_t i : idx) s += " " + std::to_string(i);
            return s;
          }())) {
        for (const char *sep : {"\n", " # end (\n\n", "\r\n", "\n   \n"}) {
          std::string t, d;
          for (size_t i : idx) {
            t += sts[i].text;
            t += sep;
            if (*sts[i].dump) d += std::string(" ") + sts[i].dump;
          }
          vf::NonTrivial();
          CheckParse(t, "[list" + d + "]");
          if (len) {  // Without end of line at end of file.
            t.resize(t.size() - strlen(sep));
            CheckParse(t, "[list" + d + "]");
          }
        }
      }
      int i = len - 1;
      while (i >= 0 && ++idx[i] == sts.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
  // A statement ends at the end of the line, even if the next starts with a
  // parenthesis.
  struct {
    const char *text, *dump;
  } newl[] = {{"x = t\n(a, b) = (1, 2)", "[list (= x t) (= <tuple a b> <tuple #1 #2>)]"},
              {"x = t\n[f() for a in b]",
               "[list (= x t) (compr-list (for (call f <tuple>) (in <tuple a> b)))]"}};
  for (auto &n : newl) {
    if (!VF_BEGIN(std::string("line end: ") + n.text)) continue;
    bt::Parsed p(n.text);
    if (p.error || bt::Dump(p.ast) != n.dump)
      vf::Fail("line-end", "error: " + p.errors + " tree " + bt::Dump(p.ast));
  }
  // Every element count, for the list containers behind it.
  for (int k = 0; k <= (vf::Thorough() ? 1000 : 300); ++k) {
    if (!VF_BEGIN("elements: " + std::to_string(k))) continue;
    std::string l, d, m, md, f, fd, st, sd;
    for (int i = 0; i < k; ++i) {
      const std::string v = std::to_string(i);
      l += v + ",";
      d += " #" + v;
      m += "\"k" + v + "\":" + v + ",";
      md += " (: 'k" + v + "' #" + v + ")";
      f += "a" + v + "=" + v + ",";
      fd += " (= a" + v + " #" + v + ")";
      st += "s" + v + "=" + v + "\n";
      sd += " (= s" + v + " #" + v + ")";
    }
    CheckParse("x = [" + l + "]", "[list (= x [list" + d + "])]");
    CheckParse("x = {" + m + "}", "[list (= x {map" + md + "})]");
    CheckParse("f(" + f + ")", "[list (call f <tuple" + fd + ">)]");
    CheckParse("x = (" + l + ")", "[list (= x <tuple" + d + ">)]");
    CheckParse(st, "[list" + sd + "]");
  }
  // Long chains, deep nesting, long tokens.
  for (int n : vf::Sizes(vf::Thorough() ? 1100 : 300)) {
    if (!VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string a = vf::Times("a", n + 1), s = vf::Times("s", n);
    CheckParse("x" + a + " = " + a + "(" + a + " = " + a + ", \"" + s + "\")\n", "[list (= x" + a + " (call " + a + " <tuple (= " + a + " " + a + ") '" + s + "'>))]");
    CheckParse("x = " + vf::Times("[", n) + "y" + vf::Times("]", n), "[list (= x " + vf::Times("[list ", n) + "y" + vf::Times("]", n) + ")]");
    CheckParse("x = " + vf::Times("(", n) + "y" + vf::Times(")", n), "[list (= x y)]");
    CheckParse("x = " + vf::Times("f(k = ", n) + "y" + vf::Times(")", n), "[list (= x " + vf::Times("(call f <tuple (= k ", n) + "y" + vf::Times(")>)", n) + ")]");
    CheckParse("x = " + vf::Times("{\"k\": ", n) + "y" + vf::Times("}", n), "[list (= x " + vf::Times("{map (: 'k' ", n) + "y" + vf::Times(")}", n) + ")]");
    CheckParse("x = " + vf::Times("a + ", n) + "y", "[list (= x " + vf::Times("(+ a ", n) + "y" + vf::Times(")", n) + ")]");
    CheckParse("x = " + vf::Times("not ", n) + "y", "[list (= x " + vf::Times("(unarynot ", n) + "y" + vf::Times(")", n) + ")]");
    CheckParse("x = " + vf::Times("a if b else ", n) + "y", "[list (= x " + vf::Times("(if b a ", n) + "y" + vf::Times(")", n) + ")]");
    CheckParse(vf::Times("\n", n) + "x = y" + vf::Times("\n", n), "[list (= x y)]");
    CheckParse(vf::Times("# c\n", n) + "x =" + vf::Times(" ", n) + "y #" + vf::Times("z", n), "[list (= x y)]");
    CheckParse("x = [" + vf::Times("\n", n) + "y," + vf::Times(" # c\n", n) + "]", "[list (= x [list y])]");
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  Chains();
  Suffixes();
  Literals();
  Programs();
  Expressions();
  return vf::Finish();
}
