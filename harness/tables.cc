// Explorer: table output in all formats, read back; commands in all formats.
#include <filesystem>
#include <fstream>
#include <iostream>

#include "bant/util/table-printer.h"
#include "cli.h"
#include "common.h"
#include "readers.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using bant::OutputFormat;
using bant::TablePrinter;

struct Row {
  Strs prefix;         // all columns, or all but last
  bool list = false;   // last column is a list
  Strs repeat;
  std::string Show() const {
    std::string r = "(";
    for (auto &c : prefix) r += "'" + vf::Esc(c) + "' ";
    if (list) {
      r += "[";
      for (auto &c : repeat) r += "'" + vf::Esc(c) + "' ";
      r += "]";
    }
    return r + ")";
  }
};
using Table = std::vector<Row>;
static std::string Show(const Table &t) {
  std::string r;
  for (auto &x : t) r += x.Show() + " ";
  return r;
}
static const OutputFormat kFormats[] = {OutputFormat::kNative, OutputFormat::kSExpr, OutputFormat::kPList, OutputFormat::kJSON, OutputFormat::kCSV};
static const char *kNames[] = {"native", "s-expr", "plist", "json", "csv"};

static std::vector<Strs> Flat(const Table &t) {
  std::vector<Strs> r;
  for (auto &row : t) {
    if (!row.list) {
      r.push_back(row.prefix);
      continue;
    }
    for (auto &c : row.repeat) {
      Strs x = row.prefix;
      x.push_back(c);
      r.push_back(x);
    }
  }
  return r;
}
// Value tree of structured formats.
static std::string Norm(const Table &t) { return Show(t); }

static void CheckTable(const Strs &headers, const Table &t, bool plain_text) {
  for (int f = 0; f < 5; ++f) {
    std::stringstream out;
    auto printer = TablePrinter::Create(out, kFormats[f], headers);
    for (auto &row : t) {
      if (row.list) printer->AddRowWithRepeatedLastColumn(row.prefix, row.repeat);
      else printer->AddRow(row.prefix);
    }
    printer->Finish();
    const std::string o = out.str();
    vf::Count("evaluations");
    vf::Transition();
    auto fail = [&](const std::string &key, const std::string &why) {
      vf::Fail(std::string(kNames[f]) + "-" + key, why + ": table " + Show(t) + " printed as " + o);
    };
    const auto flat = Flat(t);
    switch (f) {
    case 0: {
      {  // Whatever the content, all of it is there, in order.
        size_t pos = 0;
        for (const Strs &r : flat) {
          for (const std::string &c : r) {
            pos = o.find(c, pos);
            if (pos == std::string::npos) break;
            pos += c.size();
          }
          if (pos == std::string::npos) break;
        }
        if (pos == std::string::npos) fail("lost", "not all of the cells are printed");
      }
      if (!plain_text) break;
      std::vector<size_t> start(headers.size(), 0);
      for (size_t c = 1; c < headers.size(); ++c) {
        size_t w = 0;
        for (auto &r : flat) w = std::max(w, r[c - 1].size());
        start[c] = start[c - 1] + w + 1;
      }
      std::vector<std::string> lines;
      std::stringstream ls(o);
      for (std::string l; std::getline(ls, l);) lines.push_back(l);
      if (!o.empty() && o.back() != '\n') fail("end", "no newline at end");
      if (lines.size() != flat.size()) {
        fail("rows", "number of rows");
        break;
      }
      for (size_t i = 0; i < flat.size(); ++i) {
        std::string l = lines[i];
        for (size_t c = 0; c < headers.size(); ++c) {
          const size_t end = c + 1 < headers.size() ? start[c + 1] : std::string::npos;
          std::string cell = start[c] <= l.size() ? l.substr(start[c], end == std::string::npos ? end : end - start[c]) : "";
          std::string want = flat[i][c];
          while (!cell.empty() && cell.back() == ' ') cell.pop_back();
          while (!want.empty() && want.back() == ' ') want.pop_back();
          if (cell != want) fail("column", "column " + std::to_string(c) + " of row " + std::to_string(i) + " at position " + std::to_string(start[c]) + " is '" + cell + "'");
        }
      }
    } break;
    case 1:
    case 2: {
      rd::Val v;
      if (!rd::ReadSExpr(o, &v)) {
        fail("syntax", "not a readable list");
        break;
      }
      Table got;
      bool ok = v.kind == rd::Val::kList;
      for (auto &r : v.list) {
        Row row;
        if (r.kind != rd::Val::kList) ok = false;
        std::vector<rd::Val> vals;
        if (f == 2) {
          for (size_t i = 0; i < r.list.size(); ++i) {
            if (i % 2 == 1) vals.push_back(r.list[i]);
            else if (r.list[i].kind != rd::Val::kSymbol || i / 2 >= headers.size() || r.list[i].str != ":" + headers[i / 2]) ok = false;
          }
          if (r.list.size() % 2) ok = false;
        } else {
          vals = r.list;
        }
        if (vals.size() != headers.size()) ok = false;
        for (size_t i = 0; i < vals.size(); ++i) {
          if (vals[i].kind == rd::Val::kString) {
            row.prefix.push_back(vals[i].str);
          } else if (vals[i].kind == rd::Val::kList && i + 1 == vals.size()) {
            row.list = true;
            for (auto &e : vals[i].list) {
              if (e.kind != rd::Val::kString) ok = false;
              row.repeat.push_back(e.str);
            }
          } else {
            ok = false;
          }
        }
        got.push_back(row);
      }
      if (!ok) fail("structure", "unexpected structure");
      else if (Norm(got) != Norm(t)) fail("content", "reads as " + Show(got));
    } break;
    case 3: {
      Table got;
      std::stringstream ls(o);
      bool ok = o.empty() || o.back() == '\n';
      for (std::string l; std::getline(ls, l);) {
        rd::Val v;
        if (!rd::ReadJson(l, &v) || v.kind != rd::Val::kMap || v.keys.size() != headers.size()) {
          ok = false;
          break;
        }
        Row row;
        for (size_t i = 0; i < headers.size(); ++i) {
          if (v.keys[i] != headers[i]) ok = false;
          auto &x = v.list[i];
          if (x.kind == rd::Val::kString) {
            row.prefix.push_back(x.str);
          } else if (x.kind == rd::Val::kList && i + 1 == headers.size()) {
            row.list = true;
            for (auto &e : x.list) {
              if (e.kind != rd::Val::kString) ok = false;
              row.repeat.push_back(e.str);
            }
          } else {
            ok = false;
          }
        }
        got.push_back(row);
      }
      if (!ok) fail("syntax", "not one JSON object per line with header names as keys");
      else if (Norm(got) != Norm(t)) fail("content", "reads as " + Show(got));
    } break;
    case 4: {
      std::vector<Strs> rows;
      if (!cli::ParseCsv(o, &rows)) {
        fail("syntax", "not RFC-4180");
        break;
      }
      if (rows.empty() || rows[0] != headers) fail("header", "header row");
      else if (std::vector<Strs>(rows.begin() + 1, rows.end()) != flat) fail("content", "other content");
    } break;
    }
    vf::SeeState(o);
  }
}
static bool Plain(const std::string &s) {
  for (unsigned char c : s)
    if (c < 32 || c >= 127) return false;
  return true;
}
static bool Plain(const Table &t) {
  for (auto &r : t) {
    for (auto &c : r.prefix)
      if (!Plain(c)) return false;
    for (auto &c : r.repeat)
      if (!Plain(c)) return false;
  }
  return true;
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  const std::vector<Strs> kHeaders = {{"x"}, {"foo", "bar"}, {"file-location", "rule", "target"}};
  // -- One cell in all places, all contents.
  const Strs pieces = {"a", "\"", "\\", "'", ",", "\n", "\r", "\t", "\x01", "\x1f", "\x7f", "ä", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "(", ")", "{", "}", "[", "]", ":", "%", "%s", "/", "0", "u0041", ";", "n", "\xc2\x80", "?", std::string(1, '\0')};
  std::function<void(int, const std::string &, const std::function<void(const std::string &)> &)> all = [&](int depth, const std::string &cur, auto &f) {
    f(cur);
    if (depth == 0) return;
    for (auto &p : pieces) all(depth - 1, cur + p, f);
  };
  auto in_all_places = [&](const std::string &c) {
    for (auto &h : kHeaders) {
      for (size_t col = 0; col < h.size(); ++col) {
        Row r;
        r.prefix.assign(h.size(), "q");
        r.prefix[col] = c;
        CheckTable(h, {r, {Strs(h.size(), "long text")}}, Plain(c));
        if (col + 1 < h.size()) {
          Row l = r;
          l.prefix.pop_back();
          l.list = true;
          l.repeat = {"x", "y"};
          CheckTable(h, {r, l}, Plain(c));
        }
      }
      Row l;
      l.prefix.assign(h.size() - 1, "p");
      l.list = true;
      for (const Strs &rep : std::vector<Strs>{{c}, {c, "x"}, {"x", c}}) {
        l.repeat = rep;
        CheckTable(h, {l}, Plain(c));
      }
    }
  };
  if (VF_BEGIN("empty cell")) {
    vf::NonTrivial();
    in_all_places("");
  }
  for (auto &p1 : pieces)
    for (auto &p2 : pieces) {
      if (!VF_BEGIN("cell contents starting with '" + vf::Esc(p1 + p2) + "'")) continue;
      vf::NonTrivial();
      if (p1 == p2) in_all_places(p1);
      all(vf::Thorough() ? 2 : 1, p1 + p2, in_all_places);
    }
  // Each ASCII character, each pair with a hexadecimal digit after it.
  for (int c = 1; c < 128; ++c) {
    const std::string s(1, (char)c);
    if (!VF_BEGIN("cell with character " + std::to_string(c))) continue;
    vf::NonTrivial();
    for (std::string after : {"", "0", "7", "8", "a", "f", "x", "\"", "\\"}) in_all_places(s + after);
  }
  // Header names. Names are constants; in property lists they are symbols.
  // -- Tables
  const Strs cells = {"", "a", "b c", "long \"quoted\" text", "x,y", "\n", "ä\\"};
  for (size_t cols = 1; cols <= 3; ++cols) {
    const auto &h = kHeaders[cols - 1];
    std::vector<Row> rows;
    std::vector<Strs> prefixes = {{}};
    const size_t nc = cols == 3 ? 4 : cells.size();
    std::vector<Strs> full;
    std::function<void(const Strs &, size_t)> build = [&](const Strs &cur, size_t n) {
      if (cur.size() == n) {
        full.push_back(cur);
        return;
      }
      for (size_t i = 0; i < nc; ++i) {
        Strs x = cur;
        x.push_back(cells[i]);
        build(x, n);
      }
    };
    build({}, cols);
    for (auto &x : full) rows.push_back({x});
    full.clear();
    build({}, cols - 1);
    for (auto &x : full)
      for (const Strs &rep : std::vector<Strs>{{}, {"a"}, {""}, {"x,y", "\""}, {"a", "b c", "ä\\"}, {"q", "q"}}) rows.push_back({x, true, rep});
    if (VF_BEGIN("empty table of " + std::to_string(cols) + " columns")) {
      vf::NonTrivial();
      CheckTable(h, {}, true);
    }
    // With three columns, third row from few.
    for (size_t i = 0; i < rows.size(); ++i) {
      if (!VF_BEGIN("tables of " + std::to_string(cols) + " columns, first row " + rows[i].Show())) continue;
      vf::NonTrivial();
      CheckTable(h, {rows[i]}, Plain({rows[i]}));
      for (size_t j = 0; j < rows.size(); ++j) {
        const Table t2 = {rows[i], rows[j]};
        CheckTable(h, t2, Plain(t2));
        const size_t step = vf::Thorough() || rows.size() < 30 ? 1 : 7;
        for (size_t k = (i + j) % step; k < rows.size(); k += step) {
          const Table t = {rows[i], rows[j], rows[k]};
          CheckTable(h, t, Plain(t));
        }
      }
    }
  }
  // -- Sizes: long cells, many rows, many last columns.
  for (int n : vf::Sizes(vf::Thorough() ? 5001 : 1030)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    for (const char *what : {"x", "a b ", "\"", "\\", "\n", "\x01", "\xc3\xa4", ","}) {
      const std::string c = vf::Times(what, n);
      in_all_places(c);
      in_all_places(c + "\"z");
    }
    for (size_t cols = 1; cols <= 3; ++cols) {
      const auto &h = kHeaders[cols - 1];
      Table t, l;
      Row all;
      all.prefix.assign(cols - 1, "p");
      all.list = true;
      for (int i = 0; i < n; ++i) {
        Row r;
        for (size_t c = 0; c < cols; ++c) r.prefix.push_back("c" + std::to_string(i * (c + 1)));
        t.push_back(r);
        all.repeat.push_back("v" + std::to_string(i));
        r.prefix.pop_back();
        r.list = true;
        r.repeat = {"u", "w" + std::to_string(i)};
        l.push_back(r);
      }
      CheckTable(h, t, true);
      CheckTable(h, l, true);
      CheckTable(h, {all}, true);
      CheckTable(h, {t[0], all, t.back()}, true);
    }
  }
  // -- Commands
  const std::string scratch = fs::absolute(vf::S().out).string() + "/tab." + std::to_string(vf::S().shard);
  fs::remove_all(scratch);
  const Strs names = {"t", "t.x", "t,x", "t+x", "t'x", "a\xc3\xa4", "t=x", "t x", "t(x"};
  fs::create_directories(scratch + "/a");
  fs::create_directories(scratch + "/b,c");
  fs::current_path(scratch);
  std::ofstream("MODULE.bazel") << "bazel_dep(name = \"some\", version = \"1.2.3\")\nbazel_dep(name = \"other\", version = \"a\\\"b\")\n";
  for (size_t n1 = 0; n1 < names.size(); ++n1)
    for (size_t n2 = 0; n2 < names.size(); ++n2)
      for (int graph = 0; graph < 8; ++graph) {
        if (!VF_BEGIN("commands, targets '" + names[n1] + "', '" + names[n2] + "', graph " + std::to_string(graph))) continue;
        vf::NonTrivial();
        const std::string a = names[n1], b = names[n2];
        auto deps = [&](bool x, bool y) { return std::string("[") + (x ? "\"//a:" + a + "\", " : "") + (y ? "\"//b,c:" + b + "2\"" : "") + "]"; };
        std::ofstream("a/BUILD") << "cc_library(name = \"" << a << "\", hdrs = [\"" << a << ".h\", \"shared.h\"], deps = " << deps(false, graph & 1)
                                 << ")\nalias(name = \"al\", actual = \"" << a << "\")\ngenrule(name = \"g" << a << "\", outs = [\"" << b << ".out\", \"z\"])\n"
                                 << "cc_library(name = \"two\", hdrs = [\"shared.h\"], deps = " << deps(graph & 2, graph & 4) << ")\n";
        std::ofstream("b,c/BUILD") << "cc_library(name = \"" << b << "2\", hdrs = [\"" << b << ".h\"], deps = " << deps(true, false) << ")\nalias(name = \"" << a << "3\", actual = \"//a:al\")\n";
        for (const Strs &cmd : std::vector<Strs>{{"list-packages"}, {"list-targets"}, {"list-targets", "//a/..."}, {"workspace"}, {"lib-headers"}, {"lib-headers", "//a:two"}, {"aliased-by"}, {"depends-on"}, {"depends-on", "//a/..."}, {"has-dependents"}, {"has-dependents", "//a:" + a}, {"genrule-outputs"}, {"genrule-outputs", "//b/..."}})
          for (int depth : {0, 100}) {
            std::vector<std::vector<Strs>> rows(5);
            Strs headers;
            size_t lists_empty[5] = {};
            for (int f = 0; f < 5; ++f) {
              bant::CommandlineFlags fl;
              fl.output_format = kFormats[f];
              fl.recurse_dependency_depth = depth;
              const auto r = cli::Run(cmd, fl);
              vf::Count("evaluations");
              vf::Transition();
              auto fail = [&](const std::string &key) { vf::Fail("command-" + key, cmd[0] + " -f " + kNames[f] + " prints " + r.out); };
              auto add = [&](const rd::Val &v) {  // list of cells, last may be list
                Strs row;
                for (size_t i = 0; i < v.list.size(); ++i) {
                  if (v.list[i].kind == rd::Val::kList) {
                    for (auto &e : v.list[i].list) {
                      Strs x = row;
                      x.push_back(e.str);
                      rows[f].push_back(x);
                    }
                    if (v.list[i].list.empty()) ++lists_empty[f];
                    return;
                  }
                  row.push_back(v.list[i].str);
                }
                rows[f].push_back(row);
              };
              if (f == 0) {
                std::stringstream ls(r.out);
                for (std::string l; std::getline(ls, l);) rows[0].push_back({l});
              } else if (f == 1 || f == 2) {
                rd::Val v;
                if (!rd::ReadSExpr(r.out, &v)) fail("syntax");
                for (auto &x : v.list) {
                  if (f == 2) {
                    rd::Val y;
                    for (size_t i = 1; i < x.list.size(); i += 2) y.list.push_back(x.list[i]);
                    x = y;
                  }
                  add(x);
                }
              } else if (f == 3) {
                std::stringstream ls(r.out);
                for (std::string l; std::getline(ls, l);) {
                  rd::Val v;
                  if (!rd::ReadJson(l, &v) || v.kind != rd::Val::kMap) fail("syntax");
                  add(v);
                }
              } else {
                if (!cli::ParseCsv(r.out, &rows[4]) || rows[4].empty()) fail("syntax");
                else rows[4].erase(rows[4].begin());
              }
            }
            for (int f : {1, 2, 3})
              if (rows[f] != rows[4]) vf::Fail("command-rows", cmd[0] + ": other rows with format " + kNames[f] + " than in CSV");
            if (rows[0].size() != rows[4].size()) vf::Fail("command-rows", cmd[0] + ": other number of rows in native format than in CSV");
            else
              for (size_t i = 0; i < rows[0].size(); ++i) {
                size_t pos = 0;
                for (auto &c : rows[4][i]) {
                  pos = rows[0][i][0].find(c, pos);
                  if (pos == std::string::npos) {
                    vf::Fail("command-rows", cmd[0] + ": native line '" + rows[0][i][0] + "' has not all cells of CSV");
                    break;
                  }
                  pos += c.size();
                }
              }
            // Selected by pattern: no rows for things that don't match.
            if (cmd[0] == "lib-headers" && (lists_empty[1] || lists_empty[3])) vf::Fail("command-empty", "lib-headers lists header without library");
          }
      }
  fs::current_path("/");
  fs::remove_all(scratch);
  return vf::Finish();
}
