// Explorer: attribution of headers to libraries and lookup by suffix.
#include <algorithm>
#include <iostream>

#include "bant/explore/header-providers.h"
#include "bt.h"
#include "cli.h"

using namespace bant;
using Strs = std::vector<std::string>;
using Index = std::map<std::string, std::set<std::string>>;

static Index ToIndex(const ProvidedFromTargetSet &s) {
  Index r;
  for (const auto &[k, v] : s) {
    auto &set = r[k];
    for (const auto &t : v) set.insert(t.ToString());
  }
  return r;
}
static std::string Show(const Index &idx) {
  std::string r;
  for (auto &[k, v] : idx) {
    r += k + "->{";
    for (auto &s : v) r += s + " ";
    r += "} ";
  }
  return r;
}
static std::string Rev(const std::string &s) {
  return std::string(s.rbegin(), s.rend()) + "/";
}

struct File {
  std::string package;  // with project
  std::string text;
};
static void CheckIndex(const std::vector<File> &files, const Index &want, const std::string &key) {
  ParsedProjectTestUtil util;
  std::string ctx;
  for (const File &f : files) {
    util.Add(f.package, f.text);
    ctx += f.package + ":\n" + f.text;
  }
  std::stringstream info;
  const Index got = ToIndex(ExtractHeaderToLibMapping(util.project(), info));
  vf::Count("evaluations");
  vf::Transition();
  vf::SeeState(Show(want));
  if (got != want) {
    vf::Fail(key, ctx + " got " + Show(got) + " want " + Show(want));
    return;
  }
  Index reversed;
  for (auto &[k, v] : want) reversed[Rev(k)] = v;
  if (ToIndex(ExtractHeaderToLibMapping(util.project(), info, true)) != reversed) {
    vf::Fail(key + "-suffix-index", ctx);
  }
  // As printed, restricted to a pattern.
  for (const char *pat : {"//...", "//p:l", ""}) {
    CommandlineFlags fl;
    fl.output_format = OutputFormat::kCSV;
    std::stringstream out;
    Session session(&out, &info, fl);
    const BazelPattern pattern = *pat ? *BazelPattern::ParseFrom(pat) : BazelPattern();
    PrintProvidedSources(session, "header", pattern, ExtractHeaderToLibMapping(util.project(), info));
    std::vector<Strs> rows;
    std::set<std::string> g, e;
    bool ok = cli::ParseCsv(out.str(), &rows) && !rows.empty() && rows[0] == Strs{"header", "providing-rule"};
    size_t n = 0;
    for (auto &[k, v] : want) {
      for (auto &s : v) {
        const bool match = !*pat ? true
                           : std::string(pat) == "//..." ? !s.starts_with("@")
                                                         : s == "//p:l";
        if (match) {
          e.insert(k + " " + s);
          ++n;
        }
      }
    }
    for (size_t i = 1; i < rows.size(); ++i) {
      ok &= rows[i].size() == 2;
      if (ok) g.insert(rows[i][0] + " " + rows[i][1]);
    }
    if (!ok || g != e || rows.size() != n + 1) {
      vf::Fail(key + "-printed", ctx + " pattern " + pat + " got " + out.str());
    }
  }
}

// -- Reference for one header
static std::string Join(const std::string &a, const std::string &b) {
  return a.empty() ? b : b.empty() ? a : a + "/" + b;
}
static std::string NoSlash(std::string s) {
  while (s.ends_with('/')) s.pop_back();
  return s;
}
// remaining path if within that directory
static bool Under(const std::string &file, std::string dir, std::string *rest) {
  dir = NoSlash(dir);
  if (dir.empty()) {
    *rest = file;
    return true;
  }
  if (!file.starts_with(dir + "/")) return false;
  *rest = file.substr(dir.size() + 1);
  return true;
}
static bool RefRelative(const std::string &pkg, const std::string &file, std::string dir, std::string *rest) {
  if (dir.starts_with("/")) {
    return Under(file, dir.substr(dir.find_first_not_of('/') == std::string::npos
                                    ? dir.size()
                                    : dir.find_first_not_of('/')), rest);
  }
  while (dir.starts_with("./")) dir.erase(0, 2);
  if (dir == "." || dir.empty()) return Under(file, pkg, rest);
  if (Under(file, Join(pkg, NoSlash(dir)), rest)) return true;
  return Under(file, dir, rest);  // also accepted: relative to project.
}
static std::set<std::string> RefPaths(const std::string &pkg, std::string header,
                                      const std::string &strip, const std::string &prefix,
                                      const Strs &includes) {
  if (header.starts_with(":")) header = header.substr(1);
  const std::string fqn = Join(pkg, header);
  std::string s;
  const bool has = !strip.empty() && RefRelative(pkg, fqn, strip, &s);
  std::set<std::string> r;
  if (!prefix.empty()) {
    std::string p = NoSlash(prefix);
    if (p == ".") p = "";
    r.insert(Join(p, has ? s : header));
    return r;
  }
  // In the toplevel package, ./ at the beginning has no meaning
  const auto canonical = [](std::string p) {
    while (p.starts_with("./")) p.erase(0, 2);
    return p;
  };
  r.insert(canonical(has ? s : fqn));
  for (const std::string &i : includes) {
    std::string rest;
    if (RefRelative(pkg, fqn, i, &rest)) r.insert(rest);
  }
  return r;
}

static std::string Label(const std::string &pkg, const std::string &name) {
  // Canonical form
  const std::string path = pkg.substr(pkg.find("//") + 2);
  const std::string last = path.substr(path.rfind('/') + 1);
  if (!path.empty() && last == name) return pkg;
  return pkg + ":" + name;
}
static std::string BList(const Strs &v) {
  std::string r = "[";
  for (auto &s : v) r += (r.size() > 1 ? ", \"" : "\"") + s + "\"";
  return r + "]";
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  const bool th = vf::Thorough();

  // -- Names that begin with references to the directory itself.
  {
    const Strs dots = {"", "./", "././", "./././", "././././"};
    const Strs dirs = {"", "inc", "./", ".", "inc/", "inc/."};
    for (const char *pkg : {"//", "@ext//", "//p"}) {
      const std::string path = std::string(pkg).substr(std::string(pkg).find("//") + 2);
      for (const auto &hd : dots) {
        if (!path.empty() && !hd.empty()) continue;  // not in labels
        for (const auto &sd : dots) {
          if (!VF_BEGIN("header " + hd + " strip " + sd + " in " + pkg)) continue;
          vf::NonTrivial();
          for (const char *name : {"x.h", "inc/x.h", "y/x.h"}) {
            for (const char *colon : {"", ":"}) {
              for (const auto &st : dirs) {
                const bool clean = hd.empty();
                const std::string strip = sd + st;
                if (!clean && !strip.empty() && strip.find("inc") != std::string::npos) continue;
                for (const auto &id : dots) {
                  for (const auto &in : dirs) {
                    const std::string inc = id + in;
                    if (inc.ends_with("/.") && in == "inc/.") continue;
                    if (strip.ends_with("/.") && st == "inc/.") continue;
                    if (!clean && inc.find("inc") != std::string::npos) continue;
                    std::string t = std::string("cc_library(name = \"l\", hdrs = [\"") + colon + hd + name + "\"]";
                    if (!strip.empty()) t += ", strip_include_prefix = \"" + strip + "\"";
                    if (!inc.empty()) t += ", includes = [\"" + inc + "\"]";
                    t += ")\n";
                    Index want;
                    Strs incs;
                    if (!inc.empty()) incs.push_back(inc);
                    for (std::string k : RefPaths(path, colon + hd + name, strip, "", incs)) {
                      while (k.starts_with("./")) k.erase(0, 2);
                      want[k].insert(Label(pkg, "l"));
                    }
                    CheckIndex({{pkg, t}}, want, "dots");
                  }
                }
              }
            }
          }
        }
      }
    }
  }
  // -- One library, all combinations of attributes.
  const Strs pkgs = {"//", "//p", "//p/q", "@ext//", "@ext//p", "//inc"};
  const Strs headers = {"x.h", "inc/x.h", ":x.h", "p/x.h", "inc/p/x.h", ":inc/x.h", "inc2/x.h"};
  const Strs strips = {"", "inc", "/p", "/p/inc", "p", "inc/", "/inc/", "in", ".", "/", "p/inc", "/p/q/inc"};
  const Strs prefixes = {"", "yolo", ".", "./", "a/b", "yolo/"};
  const std::vector<Strs> includes = {{}, {"."}, {"inc"}, {"inc/"}, {"p/inc"}, {"in"}, {".", "inc"},
                                      {"p"}, {"nope"}, {"./"}, {"inc", "p/q/inc"}};
  const Strs attr = {"hdrs", "textual_hdrs", "public_hdrs"};
  for (const std::string &pkg : pkgs) {
    for (const std::string &h : headers) {
      for (const std::string &st : strips) {
        if (!VF_BEGIN("library in " + pkg + " header " + h + " strip_include_prefix '" + st + "'")) continue;
        vf::NonTrivial();
        for (const std::string &pre : prefixes) {
          for (const Strs &inc : includes) {
            for (size_t a = 0; a < attr.size(); ++a) {
              if (!th && a != 0 && inc.size() > 1) continue;
              const std::string rule = a == 2 ? "grpc_cc_library" : "cc_library";
              std::string t = rule + "(name = \"l\", " + attr[a] + " = [\"" + h + "\"]";
              if (!st.empty()) t += ", strip_include_prefix = \"" + st + "\"";
              if (!pre.empty()) t += ", include_prefix = \"" + pre + "\"";
              if (!inc.empty()) t += ", includes = " + BList(inc);
              t += ")\n";
              Index want;
              const std::string path = pkg.substr(pkg.find("//") + 2);
              for (const std::string &k : RefPaths(path, h, st, pre, inc)) {
                want[k].insert(Label(pkg, "l"));
              }
              CheckIndex({{pkg, t}}, want, "paths");
            }
          }
        }
      }
    }
  }
  // -- All subsets of three headers in three attributes; kinds of rules.
  for (const char *rule : {"cc_library", "grpc_cc_library", "cc_binary", "objc_library", "filegroup"}) {
    for (int m = 0; m < 512; m += 8) {
      if (!VF_BEGIN(std::string("lists of headers, ") + rule + " " + std::to_string(m))) continue;
      vf::NonTrivial();
      for (int k = m; k < m + 8; ++k) {
        const Strs hs = {"x.h", "y.h", "z.inc"};
        Strs l[3];
        Index want;
        for (int b = 0; b < 9; ++b) {
          if (!(k >> b & 1)) continue;
          l[b / 3].push_back(hs[b % 3]);
          if (std::string(rule).ends_with("cc_library")) want["p/" + hs[b % 3]].insert("//p:l");
        }
        CheckIndex({{"//p", std::string(rule) + "(name = \"l\", srcs = [\"s.h\"], hdrs = " + BList(l[0]) +
                              ", textual_hdrs = " + BList(l[1]) + ", public_hdrs = " + BList(l[2]) + ")\n"}},
                   want, "lists");
      }
    }
  }
  // -- Two libraries, three aliases pointing anywhere.
  const Strs tn = {"l", "m", "a0", "a1", "a2"};
  for (int place = 0; place < 8; ++place) {
    for (int g = 0; g < 216; ++g) {
      if (!VF_BEGIN("two libraries, aliases " + std::to_string(g) + " placement " + std::to_string(place))) continue;
      vf::NonTrivial();
      const int to[3] = {g % 6, g / 6 % 6, g / 36};  // 5: unknown target
      auto pkg = [&](int i) -> std::string {
        if (i < 2) return i == 0 ? "//p" : "//p/q";
        return (place >> (i - 2) & 1) ? "//" : "//p";
      };
      for (int same = 0; same < 2; ++same) {
        std::map<std::string, std::string> text;
        text["//p"] = "cc_library(name = \"l\", hdrs = [\"q/x.h\"])\n";
        text["//p/q"] = std::string("cc_library(name = \"m\", hdrs = [\"") + (same ? "x.h" : "y.h") + "\"])\n";
        text["//"];
        for (int i = 0; i < 3; ++i) {
          const std::string actual = to[i] == 5 ? "//nope:x" : pkg(to[i]) + ":" + tn[to[i]];
          text[pkg(i + 2)] += "alias(name = \"" + tn[i + 2] + "\", actual = \"" + actual + "\")\n";
        }
        Index want;
        for (int lib = 0; lib < 2; ++lib) {
          std::set<int> s = {lib};
          for (int round = 0; round < 4; ++round) {
            for (int i = 0; i < 3; ++i) {
              if (to[i] < 5 && s.count(to[i])) s.insert(i + 2);
            }
          }
          for (int i : s) want[lib == 0 || same ? "p/q/x.h" : "p/q/y.h"].insert(Label(pkg(i), tn[i]));
        }
        std::vector<File> files;
        for (auto &[p, t] : text) files.push_back({p, t});
        CheckIndex(files, want, "aliases");
        std::reverse(files.begin(), files.end());
        CheckIndex(files, want, "aliases");
      }
    }
  }
  // -- Protocol buffers
  const Strs protos = {"a.proto", ":b.proto", "sub/c.proto", "d.txt", "e.x.proto"};
  auto stem = [](std::string s) {
    if (s.starts_with(":")) s = s.substr(1);
    return s.substr(0, s.size() - 6);
  };
  for (const std::string pkg : {"//", "//p"}) {
    for (int sm = 0; sm < 32; ++sm) {
      if (!VF_BEGIN("proto libraries in " + pkg + " srcs " + std::to_string(sm))) continue;
      vf::NonTrivial();
      // deps of two cc_proto_library and one cc_grpc_library on two proto_library
      for (int d = 0; d < 64; ++d) {
        for (int order = 0; order < 2; ++order) {
          Strs srcs;
          for (int b = 0; b < 5; ++b) {
            if (sm >> b & 1) srcs.push_back(protos[b]);
          }
          const std::string pl = "proto_library(name = \"p0\", srcs = " + BList(srcs) +
                                 ")\nproto_library(name = \"p1\", srcs = [\"z.proto\"])\n";
          const Strs names = {"c0", "c1", "g"};
          std::string cc;
          Index want;
          for (int i = 0; i < 3; ++i) {
            Strs deps;
            for (int b = 0; b < 2; ++b) {
              if (!(d >> (2 * i + b) & 1)) continue;
              deps.push_back(b ? pkg + ":p1" : ":p0");
              for (const std::string &s : b ? Strs{"z.proto"} : srcs) {
                if (!s.ends_with(".proto")) continue;
                for (const char *suf : {".pb.h", ".proto.h"}) {
                  const std::string path = pkg.substr(2);
                  const std::string key = Join(path, stem(s) + (i == 2 ? ".grpc" : "") + suf);
                  want[key].insert(Label(pkg, names[i]));
                  if (i == 0) want[key].insert("//al:al0");
                }
              }
            }
            cc += i < 2 ? "cc_proto_library(name = \"" + names[i] + "\", deps = " + BList(deps) + ")\n"
                        : "cc_grpc_library(name = \"g\", grpc_only = True, deps = [\":c0\"], srcs = " + BList(deps) + ")\n";
          }
          CheckIndex({{pkg, order ? pl + cc : cc + pl},
                      {"//al", "alias(name = \"al0\", actual = \"" + pkg + ":c0\")\n"}}, want, "proto");
        }
      }
    }
  }
  // -- The one library with an exception.
  if (VF_BEGIN("absl string_view exception")) {
    vf::NonTrivial();
    for (const std::string pkg : {"//absl/strings", "@absl//absl/strings", "//absl/strings2", "//p"}) {
      for (int m = 0; m < 4; ++m) {
        Strs h = {"strings.h"}, t = {"t.h"};
        if (m & 1) h.push_back("string_view.h");
        if (m & 2) t.push_back("string_view.h");
        Index want;
        const std::string path = pkg.substr(pkg.find("//") + 2) + "/", l = Label(pkg, "l");
        want[path + "strings.h"].insert(l);
        want[path + "t.h"].insert(l);
        if (m && !(m == 3 && pkg.ends_with("absl/strings"))) want[path + "string_view.h"].insert(l);
        CheckIndex({{pkg, "cc_library(name = \"l\", hdrs = " + BList(h) + ", textual_hdrs = " + BList(t) + ")\n"}},
                   want, "exception");
      }
    }
  }
  // -- Generated files
  const Strs outs = {"x.h", "sub/x.h", ":y.cc", "x.h"};
  for (int m = 0; m < 4096; m += 16) {
    if (!VF_BEGIN("genrules with outputs " + std::to_string(m))) continue;
    vf::NonTrivial();
    for (int k = m; k < m + 16; ++k) {
      ParsedProjectTestUtil util;
      std::map<std::string, std::string> want;
      std::string ctx;
      const Strs where = {"//p", "//p", "//"};
      const Strs n = {"g0", "g1", "g2"};
      std::map<std::string, std::string> text;
      int conflicts = 0;
      // "//" sorts before "//p"
      for (int i : {2, 0, 1}) {
        Strs o;
        for (int b = 0; b < 4; ++b) {
          if (!(k >> (4 * i + b) & 1)) continue;
          const std::string name = i == 2 && b == 3 ? "p/x.h" : outs[b];
          o.push_back(name);
          const std::string key = Join(where[i].substr(2), name[0] == ':' ? name.substr(1) : name);
          auto ins = want.insert({key, Label(where[i], n[i])});
          if (!ins.second && ins.first->second != Label(where[i], n[i])) ++conflicts;
        }
        text[where[i]] += "genrule(name = \"" + n[i] + "\", outs = " + BList(o) + ")\n";
      }
      for (auto &[p, t] : text) {
        util.Add(p, t);
        ctx += p + ":\n" + t;
      }
      std::stringstream info;
      std::map<std::string, std::string> got, got_rev;
      for (auto &[f, t] : ExtractGeneratedFromGenrule(util.project(), info)) got[f] = t.ToString();
      vf::Count("evaluations");
      vf::Transition();
      if (got != want) vf::Fail("genrule", ctx);
      const std::string msgs = info.str();
      if (std::count(msgs.begin(), msgs.end(), '\n') != conflicts) vf::Fail("genrule-conflict", ctx + msgs);
    }
  }
  // -- Sizes: many headers, libraries, aliases, long names.
  for (int n : vf::Sizes(th ? 2100 : 300)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    auto num = [](const char *p, int i, const char *s = "") { return p + std::to_string(i) + s; };
    Strs hs, ts, incs, same, prs;
    Index want, one_file, one_with_includes, protos_want, gen;
    std::string libs, prefixed, proto_libs, cc_protos, alias_of_one;
    for (int i = 0; i < n; ++i) {
      hs.push_back(num("h", i, ".h"));
      ts.push_back(num(i % 2 ? ":t" : "t", i, ".inc"));
      incs.push_back(num("i", i));
      prs.push_back(num("s", i, ".proto"));
      want["p/" + hs.back()].insert("//p:l");
      want[num("p/t", i, ".inc")].insert("//p:l");
      libs += num("cc_library(name = \"l", i, "\", hdrs = [\"x.h\"])\n");
      prefixed += num("cc_library(name = \"k", i, "\", hdrs = [\"u/x.h\"], strip_include_prefix = \"u\")\n");
      one_file["p/x.h"].insert(num("//p:l", i));
      one_file["x.h"].insert(num("//p:k", i));
      const std::string stem = num("p/s", i);
      for (const char *suf : {".pb.h", ".proto.h"}) {
        protos_want[stem + suf] = {"//p:one", "//p:all"};
        protos_want[num("p/z", i) + suf] = {num("//p:c", i), "//p:all"};
      }
      proto_libs += num("proto_library(name = \"p", i) + num("\", srcs = [\"z", i, ".proto\"])\n");
      cc_protos += num("cc_proto_library(name = \"c", i) + num("\", deps = [\":p", i, "\"])\n");
      gen["p/" + hs.back()] = {"//p:g"};
      alias_of_one += num("alias(name = \"a", i, "\", actual = \"//p:l\")\n");
    }
    CheckIndex({{"//p", "cc_library(name = \"l\", hdrs = " + BList(hs) + ", textual_hdrs = " + BList(ts) + ")\n"}}, want, "size-headers");
    CheckIndex({{"//p", libs + prefixed}}, one_file, "size-libraries");
    {
      Index w;
      for (int i : {0, n / 2, n - 1}) {
        w.clear();
        w[num("p/i", i, "/x.h")] = w["x.h"] = {"//p:l"};
        CheckIndex({{"//p", "cc_library(name = \"l\", hdrs = [" + num("\"i", i, "/x.h\"") + "], includes = " + BList(incs) + ")\n"}}, w, "size-includes");
      }
      w.clear();
      for (int i = 0; i < n; ++i) {
        w[num("p/i", i, "/x.h")] = {"//p:l"};
        w["x.h"] = {"//p:l"};
      }
      Strs all;
      for (auto &i : incs) all.push_back(i + "/x.h");
      if (n <= 300) CheckIndex({{"//p", "cc_library(name = \"l\", hdrs = " + BList(all) + ", includes = " + BList(incs) + ")\n"}}, w, "size-includes");
    }
    {
      Strs deps;
      for (int i = 0; i < n; ++i) deps.push_back(num("//p:p", i));
      deps.push_back("//p:many");
      CheckIndex({{"//p", proto_libs + cc_protos + "proto_library(name = \"many\", srcs = " + BList(prs) + ")\ncc_proto_library(name = \"one\", deps = [\":many\"])\n" +
                  "cc_proto_library(name = \"all\", deps = " + BList(deps) + ")\n"}}, protos_want, "size-proto");
    }
    // Aliases: all of the library; in a row, written in various orders and in
    // one or many packages.
    Index al;
    al["p/x.h"].insert("//p:l");
    for (int i = 0; i < n; ++i) al["p/x.h"].insert(num("//q:a", i));
    CheckIndex({{"//p", "cc_library(name = \"l\", hdrs = [\"x.h\"])\n"}, {"//q", alias_of_one}}, al, "size-aliases");
    for (int shape = 0; shape < 6; ++shape) {
      Strs text(n);
      al.clear();
      al["p/x.h"].insert("//p:l");
      std::vector<File> files = {{"//p", "cc_library(name = \"l\", hdrs = [\"x.h\"])\n"}};
      auto pk = [&](int i) { return shape % 2 ? num("//q", i) : std::string("//q"); };
      for (int i = 0; i < n; ++i) {
        const int at = shape / 2 == 0 ? i : shape / 2 == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2;
        text[at] = num("alias(name = \"a", i, "\", actual = \"") + (i ? pk(i - 1) + num(":a", i - 1) : "//p:l") + "\")\n";
        al["p/x.h"].insert(pk(i) + num(":a", i));
        if (shape % 2) files.push_back({pk(i), text[at]});
      }
      if (shape % 2 && shape > 1) std::reverse(files.begin(), files.end());
      if (shape % 2 == 0) {
        std::string all;
        for (auto &t : text) all += t;
        files.push_back({"//q", all});
      }
      CheckIndex(files, al, "size-alias-chain");
    }
    {  // Long names
      const std::string a = vf::Times("a", n), deep = vf::Times("d/", n);
      for (const std::string &h : Strs{a + ".h", deep + "x.h", deep + a + ".h"}) {
        for (const std::string &pkg : Strs{"//", "//p", "//" + a, "//" + deep.substr(0, deep.size() - 1)}) {
          for (const std::string &st : Strs{"", "d", deep.substr(0, deep.size() - 1), a}) {
            for (const std::string &pre : Strs{"", a, deep}) {
              const Strs inc = n % 2 ? Strs{"d"} : Strs{a, deep};
              std::string t = "cc_library(name = \"l\", hdrs = [\"" + h + "\"]";
              if (!st.empty()) t += ", strip_include_prefix = \"" + st + "\"";
              if (!pre.empty()) t += ", include_prefix = \"" + pre + "\"";
              t += ", includes = " + BList(inc) + ")\n";
              Index w;
              for (const std::string &k : RefPaths(pkg.substr(2), h, st, pre, inc)) w[k].insert(Label(pkg, "l"));
              CheckIndex({{pkg, t}}, w, "size-names");
            }
          }
        }
      }
    }
    {  // Generated files
      ParsedProjectTestUtil util;
      util.Add("//p", "genrule(name = \"g\", outs = " + BList(hs) + ")\n");
      util.Add("//q", alias_of_one + [&] {
        std::string r;
        for (int i = 0; i < n; ++i) r += num("genrule(name = \"g", i) + num("\", outs = [\"o", i, ".h\"])\n");
        return r;
      }());
      for (int i = 0; i < n; ++i) gen[num("q/o", i, ".h")] = {num("//q:g", i)};
      std::stringstream info;
      Index got;
      for (auto &[k, v] : ExtractGeneratedFromGenrule(util.project(), info)) got[k].insert(v.ToString());
      vf::Count("evaluations");
      vf::Transition();
      if (got != gen) vf::Fail("size-genrule", Show(got) + " want " + Show(gen));
    }
    {  // Lookup by suffix: a path of n directories; n similar names.
      const BazelPackage pk("", "p");
      ProvidedFromTargetSet index;
      std::string path = "x.h";
      Strs key;
      for (int i = 0; i < std::min(n, 300); ++i) {
        key.push_back(path);
        index[Rev(path)].insert(*pk.QualifiedTarget(num("t", i)));
        path = num("e", i, "/") + path;
      }
      for (int i = 0; i < (int)key.size(); ++i) {
        for (const char *before : {"", "z/"}) {
          const auto r = FindBySuffix(index, before + key[i], 1);
          // More than that suffix in common with many: any.
          vf::Count("evaluations");
          vf::Transition();
          const bool exact = !*before;
          if (!r || (exact ? r->match != key[i] || r->fuzzy_score != 0 : r->fuzzy_score != (size_t)i + 1) || !r->match.ends_with(key[i]))
            vf::Fail("size-suffix", std::to_string(i) + " " + before + " got " + (r ? r->match : "nothing"));
          if (exact || !r) continue;
          if (FindBySuffix(index, before + key[i], i + 2)) vf::Fail("size-suffix", "below minimum " + std::to_string(i));
        }
      }
    }
  }
  // -- Lookup by suffix
  const Strs seg = th ? Strs{"a", "b", "ab", "a.b", "-a"} : Strs{"a", "b", "ab", "a.b"};
  Strs keys;
  for (auto &a : seg) {
    keys.push_back(a);
    for (auto &b : seg) {
      keys.push_back(a + "/" + b);
      for (auto &c : seg) keys.push_back(a + "/" + b + "/" + c);
    }
  }
  std::sort(keys.begin(), keys.end());
  auto split = [](const std::string &s) {
    Strs r;
    std::stringstream in(s);
    for (std::string e; std::getline(in, e, '/');) r.push_back(e);
    std::reverse(r.begin(), r.end());
    return r;
  };
  std::vector<Strs> segs;
  for (auto &k : keys) segs.push_back(split(k));
  const int nk = keys.size();
  std::vector<std::vector<int>> common(nk, std::vector<int>(nk));
  for (int i = 0; i < nk; ++i) {
    for (int j = 0; j < nk; ++j) {
      int c = 0;
      while (c < (int)segs[i].size() && c < (int)segs[j].size() && segs[i][c] == segs[j][c]) ++c;
      common[i][j] = c;
    }
  }
  const BazelPackage pk("", "p");
  auto run = [&](const std::vector<int> &set) {
    ProvidedFromTargetSet index;
    for (int i : set) index[Rev(keys[i])].insert(*pk.QualifiedTarget("t" + std::to_string(i)));
    for (int q = 0; q < nk; ++q) {
      int best = 0;
      bool exact = false;
      for (int i : set) {
        best = std::max(best, common[i][q]);
        exact |= i == q;
      }
      for (size_t min : {1, 2, 3}) {
        const auto r = FindBySuffix(index, keys[q], min);
        vf::Count("evaluations");
        vf::Transition();
        bool ok;
        std::string got = r ? r->match + " score " + std::to_string(r->fuzzy_score) : "nothing";
        if (exact) {
          ok = r && r->fuzzy_score == 0 && r->match == keys[q];
        } else if (best < (int)min) {
          ok = !r;
        } else {
          ok = r && r->fuzzy_score == best;
        }
        if (ok && r) {  // consistent: the set is the one of the matching key
          auto it = std::find(keys.begin(), keys.end(), r->match);
          const int m = it - keys.begin();
          ok = it != keys.end() && std::count(set.begin(), set.end(), m) &&
               (exact || common[m][q] == best) && r->target_set->size() == 1 &&
               r->target_set->begin()->target_name == "t" + std::to_string(m);
        }
        if (!ok) {
          std::string s;
          for (int i : set) s += keys[i] + " ";
          vf::Fail("suffix", "index " + s + " lookup " + keys[q] + " min " + std::to_string(min) + " got " + got);
        }
      }
    }
  };
  if (VF_BEGIN("lookup in empty index")) {
    run({});
    vf::NonTrivial();
  }
  for (int a = 0; a < nk; ++a) {
    for (int b = a; b < nk; ++b) {
      if (!VF_BEGIN("lookups with " + keys[a] + " " + keys[b])) continue;
      vf::NonTrivial();
      if (a == b) {
        run({a});
        continue;
      }
      run({a, b});
      for (int c = b + 1; c < nk; ++c) run({a, b, c});
    }
  }
  return vf::Finish();
}
