// Explorer: caching of clang-tidy results over histories of changes.
#include "tidy.h"
//
#include "tidy_inproc.h"

// What a cache that is neither too forgetful nor too forgiving may do.
struct Model {
  struct Entry {
    bool messages;
    int64_t time;
  };
  std::map<std::string, Entry> exact, coarse;
};
static std::string ExactKey(const Project &p, const std::string &f) { return stub::Inputs(f, p.config, ArgString(p.args), p.version); }
// By basename of headers only.
static std::string CoarseKey(const Project &p, const std::string &f) {
  const std::string content = Slurp(f);
  std::string r = f + "\1" + p.config + "\1" + ArgString(p.args) + "\1" + p.version + "\1" + content;
  for (auto &i : stub::Includes(content)) {
    r += "\1";
    for (auto &[h, c] : p.files)
      if (h.rfind("bant/", 0) == 0 && fs::path(h).filename() == fs::path(i).filename()) r += h + "\2" + Slurp(h);
  }
  return r;
}

struct World {
  Checkout checkout;
  Model model;
  bool check_invocations = true;
  std::map<std::string, std::pair<std::string, std::string>> reports;  // by directory
  bool Run(const Project &p, const std::string &ctx) {
    checkout.Set(p);
    const Expected want = Fresh(p);
    const int64_t env_time = checkout.EnvTime(p);
    std::multiset<std::string> must, may;
    for (auto &[f, c] : p.files) {
      if (!IsSource(f)) continue;
      const std::string key = ExactKey(p, f), ckey = CoarseKey(p, f);
      const Model::Entry now = {want.messages.count(f) > 0, checkout.CacheTime()};
      auto old = [&](const std::map<std::string, Model::Entry> &m, const std::string &k) {
        auto found = m.find(k);
        return found == m.end() || (found->second.messages && found->second.time < env_time);
      };
      if (old(model.exact, key)) must.insert(f);
      else if (old(model.coarse, ckey)) may.insert(f);
      if (old(model.exact, key) || old(model.coarse, ckey)) model.coarse[ckey] = model.exact[key] = now;
    }
    const Result r = RunTidy(p.args);
    checkout.AgeCache(!r.invoked.empty());
    checkout.NextTime();
    vf::SeeState(vf::Hash(r.report, vf::Hash(Join(Strs(r.invoked.begin(), r.invoked.end())))));
    std::string diff = Compare(r, want);
    if (!diff.empty()) {
      vf::Fail("report", ctx + ": " + diff);
      return false;
    }
    // Each checkout keeps its own report.
    reports[p.Dir()] = {r.report, r.summary};
    for (auto &[dir, rep] : reports) {
      if (Slurp(dir + "/" + kReport) == rep.first && Slurp(dir + "/" + kSummary) == rep.second) continue;
      vf::Fail("report-of-other", ctx + ": report in " + dir + " changed by run in " + p.Dir());
      return false;
    }
    if (!check_invocations) return true;
    for (auto &f : r.invoked) {
      if (r.invoked.count(f) > 1) {
        vf::Fail("invoked-twice", ctx + ": " + f);
        return false;
      }
      if (!must.count(f) && !may.count(f)) {
        vf::Fail("not-cached", ctx + ": needless invocation for " + f);
        return false;
      }
    }
    for (auto &f : must) {
      if (r.invoked.count(f)) continue;
      vf::Fail("not-invoked", ctx + ": no invocation for " + f);
      return false;
    }
    return true;
  }
};

// -- All states
static const std::vector<int> kRadix = {4, 3, 3, 3, 3, 2, 2, 2, 2};
static Project ProductState(const std::vector<int> &d) {
  static const char *const a[] = {"#include \"bant/h.h\"\nint a;\n", "#include \"bant/h.h\"\n// BAD1\n", "#include \"bant/h.h\"\n#include \"bant/g.h\"\n// BAD1\n", "#include \"h.h\"\n#include \"bant/h.h\"\n// BAD2\n"};
  static const char *const h[] = {"// one\n", "// two\n", "// BAD3\n"};
  static const char *const g[] = {"// one\n", "// two\n", "#include \"h.h\"\n// BAD4\n"};
  static const char *const sh[] = {"// one\n", "// two\n", "#include \"bant/h.h\"\n// BAD5\n"};
  static const char *const sa[] = {"", "#include \"bant/h.h\"\n// BAD1\n", "#include \"h.h\"\n// BAD0\n"};
  Project p;
  p.files["bant/a.cc"] = a[d[0]];
  p.files["bant/h.h"] = h[d[1]];
  p.files["bant/g.h"] = g[d[2]];
  p.files["bant/sub/h.h"] = sh[d[3]];
  if (*sa[d[4]]) p.files["bant/sub/a.cc"] = sa[d[4]];
  p.files["bant/README"] = "BAD1\n";
  p.files["other/x.cc"] = "// BAD1\n";
  if (d[5]) p.config = "Checks: 'x'\n";
  if (d[6]) p.args = {"--fix"};
  if (d[7]) p.version = "17.0.7";
  if (d[8]) p.dir = "c++ (other)";
  return p;
}
static void Product(const std::vector<int> &order, bool reverse, int stride) {
  World w;
  w.checkout.Clear();
  int total = 1;
  for (int r : kRadix) total *= r;
  for (int i = 0; i < total; i += stride) {
    int n = reverse ? total - 1 - i : i;
    std::vector<int> d(kRadix.size());
    for (int o : order) {
      d[o] = n % kRadix[o];
      n /= kRadix[o];
    }
    std::string ctx;
    for (int x : d) ctx += std::to_string(x);
    const Project p = ProductState(d);
    if (!w.Run(p, "state " + ctx)) return;
    if (i % 5 == 0 && !w.Run(p, "again " + ctx)) return;
  }
}

// -- Sequences of actions
enum Action { kEdit, kHeader, kHeaderBad, kTouchFlags, kFlags, kConfig, kCopy, kCheckout, kRename, kModule, kArgs, kVersion, kDeleteHeader, kLink, kDb, kDelete, kNumActions };
static const char *kActionNames[] = {"edit a.cc", "edit h.h", "bad h.h", "touch flags", "change flags", "change config", "copy", "other checkout", "rename", "touch MODULE", "args", "version", "delete header", "link", "compile_commands", "delete"};
static void Apply(Action a, Project *p, World *w) {
  auto &f = p->files;
  auto toggle = [](std::string &s, const char *x, const char *y) { s = s == x ? y : x; };
  switch (a) {
  case kEdit: toggle(f["bant/a.cc"], "#include \"bant/h.h\"\n// BAD1\n", "#include \"bant/h.h\"\n"); break;
  case kHeader: f["bant/h.h"] += "//\n"; if (f["bant/h.h"].size() > 14) f["bant/h.h"] = "// h\n"; break;
  case kHeaderBad: toggle(f["bant/h.h"], "// BAD2\n", "// h\n"); break;
  case kTouchFlags: w->checkout.Set(*p); w->checkout.Touch(*p, "compile_flags.txt"); break;
  case kFlags: toggle(p->flags, "-Wall\n", "-Wextra\n"); break;
  case kConfig: toggle(p->config, "Checks: '*'\n", "Checks: 'y'\n"); break;
  case kCopy:
    if (f.count("bant/s/a.cc")) f.erase("bant/s/a.cc");
    else f["bant/s/a.cc"] = f["bant/a.cc"];
    break;
  case kCheckout: toggle(p->dir, "prj", "[other]"); break;
  case kRename: {
    const char *from = f.count("bant/b.cc") ? "bant/b.cc" : "bant/a2.cc", *to = from[5] == 'b' ? "bant/a2.cc" : "bant/b.cc";
    f[to] = f[from];
    f.erase(from);
    break;
  }
  case kModule: w->checkout.Set(*p); w->checkout.Touch(*p, "MODULE.bazel"); break;
  case kArgs: if (p->args.empty()) p->args = {"--fix", "--checks=a b"}; else p->args.clear(); break;
  case kVersion: toggle(p->version, "17.0.6", "18.1.0"); break;
  case kDeleteHeader:
    if (f.count("bant/h.h")) f.erase("bant/h.h");
    else f["bant/h.h"] = "// h\n";
    break;
  case kLink:
    if (f.count("bant/l.cc")) f.erase("bant/l.cc");
    else f["bant/l.cc"] = "->a2.cc";
    break;
  case kDb:
    if (f.count("compile_commands.json")) {
      f.erase("compile_commands.json");
      w->checkout.Set(*p);
      w->checkout.Touch(*p, "compile_flags.txt");
    }
    else f["compile_commands.json"] = "[]";
    break;
  case kDelete:
    if (f.count("bant/g.h")) f.erase("bant/g.h");
    else f["bant/g.h"] = "#include \"h.h\"\n// BAD3\n";
    break;
  default: break;
  }
}
static Project Initial() {
  Project p;
  p.files["bant/a.cc"] = "#include \"bant/h.h\"\n// BAD1\n";
  p.files["bant/a2.cc"] = "#include \"bant/g.h\"\n#include <vector>\n// BAD0\n";
  p.files["bant/g.h"] = "#include \"h.h\"\n// BAD3\n";
  p.files["bant/h.h"] = "// h\n";
  return p;
}
static bool RunSequence(const std::vector<int> &seq) {
  World w;
  w.checkout.Clear();
  Project p = Initial();
  std::string ctx = "initial";
  if (!w.Run(p, ctx)) return false;
  for (int a : seq) {
    Apply((Action)a, &p, &w);
    if (!p.files.count("bant/h.h") || p.files["bant/h.h"].empty()) p.files.erase("bant/h.h");
    ctx += std::string(", ") + kActionNames[a];
    if (!w.Run(p, ctx)) return false;
  }
  return w.Run(p, ctx + ", nothing");
}
static void AllSequences(std::vector<int> seq, int n, int nactions) {
  if ((int)seq.size() == n) {
    RunSequence(seq);
    return;
  }
  for (int a = 0; a < nactions; ++a) {
    seq.push_back(a);
    AllSequences(seq, n, nactions);
    seq.pop_back();
  }
}

// -- Forms of includes
static void IncludeForm(const std::string &before, const std::string &after, const std::string &header, const std::string &path) {
  World w;
  w.checkout.Clear();
  Project p;
  const std::string h = "bant/" + header;
  p.files["bant/a.cc"] = before + path + "\"" + after + "// BAD1\n";
  if (after.empty()) p.files["bant/a.cc"] = "// BAD1\n" + before + path + "\"";
  for (const char *c : {"// one\n", "// two\n", "// one\n", "// BAD4\n", ""}) {
    p.files[h] = c;
    if (!*c) p.files.erase(h);
    if (!w.Run(p, "include " + before + path + " header is " + c)) return;
  }
}

int main(int argc, char **argv) {
  int ret;
  if (StubInvoked(argc, argv, &ret)) return ret;
  vf::Init(argc, argv);
  signal(SIGPROF, SIG_IGN);
  SetupScratch("tidy", vf::S());
  const bool th = vf::Thorough();

  // All states of the project, in different orders, one cache.
  const int ndims = kRadix.size();
  for (int rot = 0; rot < (th ? ndims : 7); rot += th ? 1 : 2) {
    for (bool reverse : {false, true}) {
      if (!VF_BEGIN("all states with one cache, order " + std::to_string(rot) + (reverse ? " reverse" : ""))) continue;
      vf::NonTrivial();
      std::vector<int> order;
      for (int i = 0; i < ndims; ++i) order.push_back((i + rot) % ndims);
      Product(order, reverse, th || rot % 4 == 0 ? 1 : 5);
    }
  }
  // Sequences of actions
  for (int a = 0; a < kNumActions; ++a) {
    for (int b = 0; b < kNumActions; ++b) {
      if (!VF_BEGIN(std::string("sequences starting with ") + kActionNames[a] + ", " + kActionNames[b])) continue;
      vf::NonTrivial();
      AllSequences({a, b}, th ? 4 : 3, kNumActions);
      const int few = 7;
      if (a < few && b < few) AllSequences({a, b}, th ? 5 : 4, few);
    }
  }
  // The same with an actual shell and process.
  for (int a = 0; a < kNumActions; ++a) {
    for (int jobs : {1, 3, 8, 0}) {
      if (!VF_BEGIN(std::string("with processes: ") + kActionNames[a] + " jobs " + std::to_string(jobs))) continue;
      vf::NonTrivial();
      g_inproc = false;
      g_jobs = jobs;
      RunSequence({a});
      g_inproc = true;
      RunSequence({a});
      g_jobs = 1;
    }
  }
  // Existence and content of headers with the same name and of the file itself
  const Strs contents = {"-", "", "// one\n", "// BAD1\n"};
  for (int from = 0; from < 64; ++from) {
    if (!VF_BEGIN("all changes from state of files " + std::to_string(from))) continue;
    vf::NonTrivial();
    auto state = [&](int n) {
      Project p;
      const std::string &h = contents[n % 4], &sub = contents[n / 4 % 4], &b = contents[n / 16];
      p.files["bant/a.cc"] = "#include \"h.h\"\n// BAD0\n";
      p.files["bant/s/a.cc"] = "#include \"s/h.h\"\n// BAD2\n";
      if (h != "-") p.files["bant/h.h"] = h;
      if (sub != "-") p.files["bant/s/h.h"] = sub;
      if (b != "-") p.files["bant/b.cc"] = b;
      return p;
    };
    for (int to = 0; to < 64; ++to) {
      World w;
      w.checkout.Clear();
      const std::string ctx = "from " + std::to_string(from) + " to " + std::to_string(to);
      if (!w.Run(state(from), ctx) || !w.Run(state(to), ctx + ", changed") || !w.Run(state(from), ctx + ", back")) break;
    }
  }
  // Includes
  const Strs headers = {"h.h", "x/h.h", "h.hpp", "h.hxx", "h.inl", "a.b.h", "h-x.h", "h_1.h", "H.h", "\xc3\xa4.h", "a..h", ".h.h"};
  const Strs before = {"#include \"", "# include \"", "#include\"", "#\tinclude\t\"", "  #  include   \"", "// one\n#include \"", "#include <x>\n#include \"", "#include \"y.h\"\n#include \"", "#include \"h.h\"\n#include \""};
  for (auto &h : headers) {
    for (auto &b : before) {
      if (!VF_BEGIN("form of include: " + b + " of " + h)) continue;
      vf::NonTrivial();
      const std::string base = fs::path(h).filename().string();
      for (const std::string &path : Strs{h, "bant/" + h, "./" + h, "../bant/" + h, "x/../" + h, ".//" + h}) {
        for (const char *after : {"\n", "\r\n", "  // comment\n", ""}) IncludeForm(b, after, h, path);
      }
    }
  }
  for (int c = 1; c < 128; ++c) {
    if (strchr("/\"\n\r\\", c)) continue;
    if (!VF_BEGIN(std::string("character in names: ") + (char)c)) continue;
    vf::NonTrivial();
    const std::string ch(1, (char)c);
    IncludeForm("#include \"", "\n", "h" + ch + "x.h", "h" + ch + "x.h");
    IncludeForm("#include \"", "\n", ch + ".h", "bant/" + ch + ".h");
    // Project directory and execution root with this name; file names, arguments: with a shell.
    for (int where = 0; where < 6; ++where) {
      World w;
      w.checkout.Clear();
      Project p = Initial();
      p.files["bant/all.cc"] = "// BAD0\n// BAD1\n// BAD2\n// BAD3\n// BAD4\n// BAD5\n// BAD6\n// BAD7\n// BAD8\n// BAD9\n";
      setenv("STUB_EXECROOT", "/x/execroot", 1);
      if (where == 0) p.dir = "p" + ch + "q";
      if (where == 1) p.dir = "p" + ch;
      if (where == 2) setenv("STUB_EXECROOT", ("/x" + ch + "y/root").c_str(), 1);
      if (where == 3) p.files["bant/f" + ch + "x.cc"] = "// BAD1\n#include \"h.h\"\n";
      if (where == 4) p.files["bant/d" + ch + "/" + ch + "f.cc"] = "// BAD1\n#include \"h.h\"\n";
      if (where == 5) p.args = {"--x=" + ch + "a", "--" + ch + ch};
      g_inproc = where < 3;
      const std::string ctx = "place " + std::to_string(where) + " character " + ch;
      if (w.Run(p, ctx)) {
        w.Run(p, ctx + " again");
        p.files["bant/h.h"] = "// changed\n";
        w.Run(p, ctx + " header changed");
      }
      g_inproc = true;
      setenv("STUB_EXECROOT", "/x/execroot", 1);
    }
  }
  // Messages
  for (int a = 0; a < 10; ++a) {
    if (!VF_BEGIN("messages starting with kind " + std::to_string(a))) continue;
    vf::NonTrivial();
    auto bad = [](int n) { return "// BAD" + std::to_string(n) + "\n"; };
    for (int b = 0; b < 10; ++b) {
      for (int c = 0; c < 10; ++c) {
        World w;
        w.checkout.Clear();
        Project p;
        p.files["bant/a.cc"] = "// x\n" + bad(a) + bad(b) + bad(a);
        p.files["bant/b.cc"] = bad(c) + "#include \"c.h\"\n";
        p.files["bant/c.h"] = b % 2 ? bad(a) : "";
        w.Run(p, std::to_string(a) + std::to_string(b) + std::to_string(c));
      }
    }
    for (int n : {1, 9, 10, 99, 100, 3000}) {
      World w;
      w.checkout.Clear();
      Project p;
      std::string s;
      for (int i = 0; i < n; ++i) s += bad(a) + (i % 2 ? bad((a + 1) % 10) : "");
      p.files["bant/a.cc"] = s;
      w.Run(p, "many " + std::to_string(n));
    }
  }
  // Sizes: many files and includes, far behind, long contents and names.
  for (int n : vf::Sizes(th ? 600 : 70)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string num = std::to_string(n);
    for (int jobs : {1, 4}) {
      g_jobs = jobs;
      {  // Files, each with another header
        World w;
        w.checkout.Clear();
        Project p;
        for (int i = 0; i < n; ++i) {
          const std::string k = std::to_string(i);
          p.files["bant/f" + k + ".cc"] = "#include \"h" + k + ".h\"\n// BAD" + std::to_string(i % 10) + "\n";
          p.files["bant/h" + k + ".h"] = i % 5 ? "" : "// BAD" + k.substr(k.size() - 1) + "\n";
        }
        if (w.Run(p, num + " files")) {
          p.files["bant/h" + std::to_string(n / 2) + ".h"] = "// changed BAD1\n";
          p.files["bant/new.cc"] = "// BAD2\n#include \"h0.h\"";
          w.Run(p, num + " files, one changed, one new");
          p.files.erase("bant/f" + std::to_string(n - 1) + ".cc");
          w.Run(p, num + " files, one removed");
        }
      }
      if (jobs > 1) break;
      for (int same = 0; same < 2; ++same) {  // One file with many includes
        World w;
        w.checkout.Clear();
        Project p;
        std::string text;
        for (int i = 0; i < n; ++i) {
          const std::string h = "h" + std::to_string(i) + ".h";
          text += "#include \"" + h + "\"\n" + (same ? vf::Times("#include \"h0.h\"\n", 2) : "#include <x.h>\n");
          p.files["bant/" + h] = "// " + h + "\n";
        }
        p.files["bant/a.cc"] = text + "// BAD3\n";
        if (!w.Run(p, num + " includes")) continue;
        for (int i : {0, n / 2, n - 1}) {
          p.files["bant/h" + std::to_string(i) + ".h"] += "// BAD4\n";
          w.Run(p, num + " includes, changed " + std::to_string(i));
        }
      }
      for (const char *line : {"int x;\n", "// #include \"q.h\n", "#include <x>\n", "\n", "x", " \n\t"}) {  // Far behind
        World w;
        w.checkout.Clear();
        Project p;
        p.files["bant/h.h"] = "";
        p.files["bant/a.cc"] = vf::Times(line, n) + "\n#include \"h.h\"\n// BAD0\n";
        p.files["bant/b.h"] = vf::Times(line, n) + "0";
        if (!w.Run(p, num + " before")) continue;
        p.files["bant/h.h"] = vf::Times(line, n) + "// 1\n";
        w.Run(p, num + " header changed");
        p.files["bant/h.h"] = vf::Times(line, n) + "// 2\n";
        w.Run(p, num + " header changed at the end");
        p.files["bant/b.h"] = vf::Times(line, n) + "// BAD1";
        w.Run(p, num + " file changed at the end");
        p.config += "# " + vf::Times("c", n) + "1\n";
        w.Run(p, num + " configuration changed");
        p.config.replace(p.config.size() - 2, 1, "2");
        w.Run(p, num + " configuration changed at the end");
      }
      {  // Names
        World w;
        w.checkout.Clear();
        Project p;
        const std::string a = vf::Times("a", std::min(n, 200)), deep = vf::Times("d/", std::min(n, 300));
        p.files["bant/" + deep + "x.cc"] = "// BAD1\n#include \"" + a + ".h\"\n";
        p.files["bant/" + deep + "y.h"] = "// BAD1\n";
        p.files["bant/" + a + ".cc"] = "// BAD1\n#include \"bant/" + deep + "y.h\"\n";
        p.files["bant/" + a + ".h"] = "// BAD1\n";
        p.args = {"--a=" + vf::Times("z", n)};
        if (!w.Run(p, num + " names")) continue;
        p.files["bant/" + a + ".h"] = "// BAD2\n";
        w.Run(p, num + " names, header changed");
        p.files["bant/" + deep + "y.h"] = "// BAD2\n";
        w.Run(p, num + " names, header changed");
        p.args[0] += "1";
        w.Run(p, num + " arguments changed");
      }
    }
    g_jobs = 1;
  }
  // Places
  if (VF_BEGIN("no files, missing files and tools, places of the cache")) {
    vf::NonTrivial();
    World w;
    auto fresh = [&]() {
      w.checkout.Clear();
      w.model = {};
    };
    fresh();
    Project p;
    p.files["bant/README"] = "";
    w.Run(p, "no sources");
    for (const char *missing : {".clang-tidy", "MODULE.bazel", "compile_flags.txt"}) {
      fresh();
      w.checkout.Set(Initial());
      unlink(missing);
      const Result r = RunTidy({});
      if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0 || !r.invoked.empty() || !r.out.empty()) vf::Fail("missing", std::string(missing) + " status " + std::to_string(r.status) + r.out);
    }
    fresh();
    g_inproc = false;
    w.checkout.Set(Initial());
    const std::string tool = getenv("CLANG_TIDY");
    setenv("CLANG_TIDY", "/nonexistent/clang-tidy", 1);
    Result r = RunTidy({});
    if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0 || !r.out.empty()) vf::Fail("no-tool", "status " + std::to_string(r.status) + r.out);
    setenv("CLANG_TIDY", tool.c_str(), 1);
    w.Run(Initial(), "tool was missing before");
    fresh();
    g_inproc = true;
    // Default places
    unsetenv("CACHE_DIR");
    setenv("TMPDIR", CacheDir().c_str(), 1);
    setenv("HOME", CacheDir().c_str(), 1);
    w.Run(Initial(), "TMPDIR");
    w.Run(Initial(), "TMPDIR again");
    fresh();
    fs::create_directories(CacheDir() + "/.cache");
    w.Run(Initial(), "HOME");
    w.Run(Initial(), "HOME again");
    setenv("CACHE_DIR", CacheDir().c_str(), 1);
  }
  RemoveScratch();
  return vf::Finish();
}
