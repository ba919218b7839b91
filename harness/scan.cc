// Explorer: all short texts over an alphabet of lexical pieces, scanned by the
// real scanner under different Peek()/Next() usage, compared with an
// independent reference lexer.
#include <algorithm>

#include "bt.h"

struct RefTok {
  int type;
  size_t b, e;
  bool nl;  // newline between end of previous token (or start) and this.
};

static bool IdChar(unsigned char c) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' ||
         (c >= '0' && c <= '9');
}
static bool Space(char c) {
  return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f';
}

// Reference lexer: longest match over the lexical grammar, by cases.
static std::vector<RefTok> RefLex(const std::string &s) {
  std::vector<RefTok> out;
  size_t p = 0;
  const size_t n = s.size();
  bool nl = false;
  for (;;) {
    while (p < n) {  // white space, line continuations, comments
      if (Space(s[p]) || s[p] == '\\') {
        if (s[p] == '\n') nl = true;
        ++p;
      } else if (s[p] == '#') {
        while (p < n && s[p] != '\n') ++p;
      } else {
        break;
      }
    }
    if (p >= n) {
      out.push_back({bant::kEof, n, n, nl});
      return out;
    }
    const size_t b = p;
    int type = bant::kError;
    const char c = s[p];
    const bool raw = (c == 'r' || c == 'R') && p + 2 < n &&
                     (s[p + 1] == '"' || s[p + 1] == '\'');
    if (strchr("()[]{},:+-*/.%|", c) && c) {
      type = c;
      ++p;
    } else if (c == '!' || c == '<' || c == '>' || c == '=') {
      type = (unsigned char)c;
      ++p;
      if (p < n && s[p] == '=') {
        ++p;
        type = c == '!'   ? bant::kNotEqual
               : c == '<' ? bant::kLessEqual
               : c == '>' ? bant::kGreaterEqual
                          : bant::kEqualityComparison;
      }
    } else if (c >= '0' && c <= '9') {
      ++p;
      bool hex = c == '0' && p < n && s[p] == 'x';
      if (c == '0' && p < n && (s[p] == 'x' || s[p] == 'o')) ++p;
      int dots = 0;
      type = bant::kNumberLiteral;
      while (p < n) {
        bool digit = (s[p] >= '0' && s[p] <= '9') ||
                     (hex && ((s[p] >= 'a' && s[p] <= 'f') ||
                              (s[p] >= 'A' && s[p] <= 'F')));
        if (!digit && s[p] != '.') break;
        if (s[p] == '.' && ++dots == 2) {
          type = bant::kError;
          break;
        }
        ++p;
      }
    } else if (c == '"' || c == '\'' || raw) {
      if (raw) ++p;
      const char q = s[p];
      const bool triple = p + 2 < n && s[p + 1] == q && s[p + 2] == q;
      const std::string close(triple ? 3 : 1, q);
      p += close.size();
      bool closed = false;
      while (p < n) {
        if (s[p] == '\\') {
          p += 2;  // escaped character (also in raw: does not end string)
        } else if (s.compare(p, close.size(), close) == 0) {
          p += close.size();
          closed = true;
          break;
        } else {
          ++p;
        }
      }
      if (p > n) p = n;
      type = closed ? bant::kStringLiteral : bant::kError;
    } else if (IdChar(c)) {
      while (p < n && IdChar(s[p])) ++p;
      const std::string w = s.substr(b, p - b);
      static const std::map<std::string, int> kw = {
        {"for", bant::kFor}, {"in", bant::kIn},     {"and", bant::kAnd},
        {"or", bant::kOr},   {"if", bant::kIf},     {"else", bant::kElse},
        {"not", bant::kNot}};
      auto it = kw.find(w);
      type = it == kw.end() ? (int)bant::kIdentifier : it->second;
      if (type == bant::kNot) {
        size_t q = p;
        while (q < n && Space(s[q])) ++q;
        if (s.compare(q, 2, "in") == 0 && (q + 2 >= n || !IdChar(s[q + 2]))) {
          p = q + 2;
          type = bant::kNotIn;
        }
      }
    } else {
      ++p;  // One unexpected character.
    }
    out.push_back({type, b, p, nl});
    // Newlines inside this token don't count for what comes next.
    nl = false;
  }
}

static std::string Show(const bant::Token &t, const char *base) {
  std::stringstream s;
  s << t << "@" << (t.text.data() - base);
  return s.str();
}

// mode 0: Next() only, 1: Peek() before each Next(), 2: Peek() twice,
// 3: Peek() before every other.
static void Check(const std::string &content, const std::vector<RefTok> &ref,
                  int mode) {
  // Nothing readable after the end.
  const std::unique_ptr<char[]> exact(new char[content.size()]);
  memcpy(exact.get(), content.data(), content.size());
  bant::NamedLineIndexedContent src("B", {exact.get(), content.size()});
  const char *base = src.content().data();
  bant::Scanner scanner(src);
  size_t last_end = 0;
  for (size_t i = 0; i < ref.size(); ++i) {
    bant::Token peeked;
    bool has = false;
    if (mode == 1 || mode == 2 || (mode == 3 && i % 2 == 0)) {
      peeked = scanner.Peek();
      has = true;
      if (mode == 2) {
        bant::Token again = scanner.Peek();
        if (again.type != peeked.type || again.text.data() != peeked.text.data() ||
            again.text.size() != peeked.text.size() ||
            again.newline_since_last_token != peeked.newline_since_last_token) {
          vf::Fail("peek", "Peek() is not stable");
          return;
        }
      }
    }
    bant::Token t = scanner.Next();
    vf::Transition();
    if (has && (peeked.type != t.type || peeked.text.data() != t.text.data() ||
                peeked.text.size() != t.text.size() ||
                peeked.newline_since_last_token != t.newline_since_last_token)) {
      vf::Fail("peek", "Next() returns something else than Peek()");
      return;
    }
    const size_t b = t.text.data() - base, e = b + t.text.size();
    if (t.type != ref[i].type || b != ref[i].b || e != ref[i].e) {
      vf::Fail("token", "token " + std::to_string(i) + " is " + Show(t, base) +
                          " expected type " +
                          bt::Op((bant::TokenType)ref[i].type) + " text '" +
                          content.substr(ref[i].b, ref[i].e - ref[i].b) + "'@" +
                          std::to_string(ref[i].b));
      return;
    }
    if (t.type == bant::kEof) break;
    // Newline flag: in question only if neither token has newlines in itself.
    if (t.text.find('\n') == std::string_view::npos &&
        t.newline_since_last_token != ref[i].nl) {
      vf::Fail("newline-flag", "token " + std::to_string(i) + " " +
                                 Show(t, base) + " newline flag is wrong");
      return;
    }
    last_end = e;
  }
  if (scanner.Next().type != bant::kEof) {
    vf::Fail("eof", "tokens after end of file");
  }
  const size_t lines = 1 + std::count(content.begin(), content.end(), '\n');
  if (src.mutable_line_index()->lines() != lines) {
    vf::Fail("line-index", "line index does not have all newlines");
  }
}

static void Explore(const char *tag, const std::vector<std::string> &pieces,
                    int minlen, int maxlen, const std::string &before = "",
                    const std::string &after = "") {
  for (int len = minlen; len <= maxlen; ++len) {
    std::vector<size_t> idx(len, 0);
    for (;;) {
      std::string content;
      if (VF_BEGIN([&]() {
            content = before;
            for (size_t i : idx) content += pieces[i];
            content += after;
            return std::string(tag) + ": \"" + vf::Esc(content) + "\"";
          }())) {
        const auto ref = RefLex(content);
        std::string kinds;
        for (auto &r : ref) kinds += (char)(r.type % 251), kinds += (char)(r.type / 251);
        vf::SeeState(kinds);
        if (ref.size() > 2) vf::NonTrivial(vf::Hash(content));
        for (int mode = 0; mode < (len <= 3 ? 4 : 2); ++mode) {
          vf::Count("evaluations");
          Check(content, ref, mode);
        }
      }
      int i = len - 1;
      while (i >= 0 && ++idx[i] == pieces.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  }
}

// Long tokens and gaps between them.
static void Sizes() {
  for (int n : vf::Sizes(vf::Thorough() ? 70000 : 10000)) {
    if (!VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    auto x = [&](const char *s) { return vf::Times(s, n); };
    for (const std::string &content : {
           x("a") + " x", x("1"), "0x" + x("f") + "g", "\"" + x("a") + "\" x", "\"" + x("a"), "\"\"\"" + x("a\n") + "\"\"\" x",
           "r'" + x("\\'") + "' x", "\"" + x("\\\"") + "\"", "\"\"\"" + x("\"") + " x", "'" + x("\n") + "'", "#" + x("a") + "\nx",
           "#" + x("#") + "x", x(" ") + "x", x("\n") + "x", "a" + x(" ") + "=" + x("\n") + "b", x("\\\n") + "x", "not" + x(" ") + "in b",
           "not" + x("\n") + "in b", "not" + x(" ") + "inn", "not" + x(" "), x("(") + x(")"), x("a "), x("\"a\""), x("'"), x("\""), x("\"\"\""), x("=") + "x",
           x("not "), x("a\n\t"), x("not in\n"), x("1.") + "x", x("$") + "x", x("\r\n") + "x", x("# not\n") + "in"}) {
      const auto ref = RefLex(content);
      for (int mode = 0; mode < 4; ++mode) {
        vf::Count("evaluations");
        Check(content, ref, mode);
      }
    }
  }
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  Sizes();
  // Every single byte in context.
  for (int c = 0; c < 256; ++c) {
    std::vector<std::string> p = {"", "a", " ", "1", "\"", "r"};
    for (auto &x : p)
      for (auto &y : p) {
        std::string content = x + std::string(1, (char)c) + y;
        if (VF_BEGIN("byte: \"" + vf::Esc(content) + "\"")) {
          vf::NonTrivial(vf::Hash(content));
          for (int mode = 0; mode < 4; ++mode) {
            vf::Count("evaluations");
            Check(content, RefLex(content), mode);
          }
        }
      }
  }
  const std::vector<std::string> all = {
    "a",   "not", "in",  "for", "and", "or", "if", "else", " ",  "\n", "#",
    "\\",  "\"",  "'",   "\"\"\"", "'''", "r", "R",  "0",    "0x", "0o", "9",
    "f",   ".",   "=",   "!",   "<",   ">",  "(",  ")",    "[",  "]",  "{",
    "}",   ",",   ":",   "+",   "-",   "*",  "/",  "%",    "|",  "_",  "$",
    "\t",  "\r",  "\xc3\xa9", std::string(1, '\0'), "x", "1"};
  Explore("tokens", all, 0, vf::Thorough() ? 4 : 3);
  // Deeper, for the stateful lexical parts.
  const std::vector<std::string> strings = {"\"", "'", "\\", "\n", "r",
                                            "a",  " ", "#",  "1"};
  Explore("strings", strings, 1, vf::Thorough() ? 8 : 6);
  for (const char *q : {"\"\"\"", "'''", "r\"\"\"", "R'''"})
    for (const char *after : {"", "x \"\"\" 1"})
      Explore("triple", {"\"", "'", "\\", "a", "\n"}, 1,
              vf::Thorough() ? 8 : 7, q, std::string(q + strspn(q, "rR")) + after);
  const std::vector<std::string> comments = {"#", "\n", "\"", "\\", "a", " ", "\r"};
  Explore("comments", comments, 1, vf::Thorough() ? 8 : 6);
  const std::vector<std::string> nots = {"not", "in", " ", "\n", "_", "#", "\t"};
  Explore("notin", nots, 1, vf::Thorough() ? 8 : 6);
  const std::vector<std::string> numbers = {"0", "x", "o", "7", "9", ".", "f", "-"};
  Explore("numbers", numbers, 1, vf::Thorough() ? 8 : 6);
  return vf::Finish();
}
