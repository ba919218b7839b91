// Strict readers of JSON and of S-expressions.
#ifndef VERIF_READERS_H
#define VERIF_READERS_H
#include <string>
#include <vector>

namespace rd {
struct Val {
  enum Kind { kNone, kString, kSymbol, kList, kMap, kNumber, kLiteral } kind = kNone;
  std::string str;
  std::vector<std::string> keys;  // of map
  std::vector<Val> list;          // elements, or values of map
};

inline bool ValidUtf8(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    const unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0) return false;
    ++i;
    for (; n; --n, ++i)
      if (i >= s.size() || (s[i] & 0xc0) != 0x80) return false;
  }
  return true;
}

// RFC 8259
struct Json {
  const std::string &s;
  size_t i = 0;
  void Ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
  }
  bool String(std::string *out) {
    if (i >= s.size() || s[i] != '"') return false;
    ++i;
    while (true) {
      if (i >= s.size()) return false;
      unsigned char c = s[i++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') {
        *out += c;
        continue;
      }
      if (i >= s.size()) return false;
      c = s[i++];
      switch (c) {
      case '"': case '\\': case '/': *out += c; break;
      case 'b': *out += '\b'; break;
      case 'f': *out += '\f'; break;
      case 'n': *out += '\n'; break;
      case 'r': *out += '\r'; break;
      case 't': *out += '\t'; break;
      case 'u': {
        auto hex4 = [&](unsigned *v) {
          *v = 0;
          for (int k = 0; k < 4; ++k) {
            if (i >= s.size() || !isxdigit((unsigned char)s[i])) return false;
            const char h = s[i++];
            *v = *v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          return true;
        };
        unsigned v, w;
        if (!hex4(&v)) return false;
        if (v >= 0xd800 && v < 0xdc00) {
          if (i + 1 >= s.size() || s[i] != '\\' || s[i + 1] != 'u') return false;
          i += 2;
          if (!hex4(&w) || w < 0xdc00 || w >= 0xe000) return false;
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        } else if (v >= 0xdc00 && v < 0xe000) {
          return false;
        }
        if (v < 0x80) {
          *out += (char)v;
        } else if (v < 0x800) {
          *out += (char)(0xc0 | v >> 6);
          *out += (char)(0x80 | (v & 63));
        } else if (v < 0x10000) {
          *out += (char)(0xe0 | v >> 12);
          *out += (char)(0x80 | (v >> 6 & 63));
          *out += (char)(0x80 | (v & 63));
        } else {
          *out += (char)(0xf0 | v >> 18);
          *out += (char)(0x80 | (v >> 12 & 63));
          *out += (char)(0x80 | (v >> 6 & 63));
          *out += (char)(0x80 | (v & 63));
        }
      } break;
      default: return false;
      }
    }
  }
  bool Value(Val *v) {
    Ws();
    if (i >= s.size()) return false;
    if (s[i] == '"') {
      v->kind = Val::kString;
      return String(&v->str);
    }
    if (s[i] == '{' || s[i] == '[') {
      const bool map = s[i] == '{';
      const char end = map ? '}' : ']';
      v->kind = map ? Val::kMap : Val::kList;
      ++i;
      Ws();
      if (i < s.size() && s[i] == end) {
        ++i;
        return true;
      }
      while (true) {
        Ws();
        if (map) {
          std::string k;
          if (!String(&k)) return false;
          Ws();
          if (i >= s.size() || s[i++] != ':') return false;
          v->keys.push_back(k);
        }
        Val e;
        if (!Value(&e)) return false;
        v->list.push_back(e);
        Ws();
        if (i >= s.size()) return false;
        if (s[i] == ',') {
          ++i;
          continue;
        }
        if (s[i] == end) {
          ++i;
          return true;
        }
        return false;
      }
    }
    for (const char *lit : {"true", "false", "null"})
      if (s.compare(i, strlen(lit), lit) == 0) {
        i += strlen(lit);
        v->kind = Val::kLiteral;
        v->str = lit;
        return true;
      }
    // Numbers are not used by bant; simple form only.
    const size_t b = i;
    if (s[i] == '-') ++i;
    const size_t d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
    if (i == d || (s[d] == '0' && i > d + 1)) return false;
    v->kind = Val::kNumber;
    v->str = s.substr(b, i - b);
    return true;
  }
};
inline bool ReadJson(const std::string &s, Val *v) {
  if (!ValidUtf8(s)) return false;
  Json j{s};
  if (!j.Value(v)) return false;
  j.Ws();
  return j.i == s.size();
}

// Lists, strings with the escapes of C, symbols.
struct SExpr {
  const std::string &s;
  size_t i = 0;
  void Ws() {
    while (i < s.size() && isspace((unsigned char)s[i])) ++i;
  }
  bool Value(Val *v) {
    Ws();
    if (i >= s.size()) return false;
    if (s[i] == '(') {
      v->kind = Val::kList;
      ++i;
      while (true) {
        Ws();
        if (i >= s.size()) return false;
        if (s[i] == ')') {
          ++i;
          return true;
        }
        Val e;
        if (!Value(&e)) return false;
        v->list.push_back(e);
      }
    }
    if (s[i] == '"') {
      v->kind = Val::kString;
      ++i;
      while (true) {
        if (i >= s.size()) return false;
        char c = s[i++];
        if (c == '"') return true;
        if (c != '\\') {
          v->str += c;
          continue;
        }
        if (i >= s.size()) return false;
        c = s[i++];
        switch (c) {
        case 'n': v->str += '\n'; break;
        case 't': v->str += '\t'; break;
        case 'r': v->str += '\r'; break;
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': {
          int o = c - '0';
          for (int k = 0; k < 2 && i < s.size() && s[i] >= '0' && s[i] < '8'; ++k) o = o * 8 + (s[i++] - '0');
          v->str += (char)o;
        } break;
        case 'x': return false;  // Not portable between readers.
        default: v->str += c;
        }
      }
    }
    v->kind = Val::kSymbol;
    while (i < s.size() && !isspace((unsigned char)s[i]) && !strchr("()\"", s[i])) v->str += s[i++];
    return !v->str.empty();
  }
};
inline bool ReadSExpr(const std::string &s, Val *v) {
  SExpr x{s};
  if (!x.Value(v)) return false;
  x.Ws();
  return x.i == s.size();
}
}  // namespace rd
#endif
