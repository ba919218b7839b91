// Explorer: the command line. Commands and their prefixes, all option
// combinations of bant's main() in forked processes.
#include <fcntl.h>
#include <pty.h>
#include <sys/wait.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>

#include "cli.h"
#include "common.h"

int bant_main(int argc, char *argv[]);

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;
using bant::CommandlineFlags;
using bant::OutputFormat;

static const Strs kCommands = {"parse", "print", "list-packages", "list-targets", "workspace", "lib-headers", "aliased-by", "depends-on", "has-dependents", "genrule-outputs", "dwyu", "compilation-db", "compile-flags", "canonicalize"};

static std::string Slurp(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static std::string g_scratch;

struct MainResult {
  std::string out, err;
  int status = -1;
};
// Runs main() in a process of its own.
static MainResult Main(const Strs &args, const std::string &cwd = "", const char *stdout_file = nullptr, bool tty = false) {
  const std::string fo = g_scratch + "/stdout", fe = g_scratch + "/stderr";
  int master = -1, slave = -1;
  if (tty && openpty(&master, &slave, nullptr, nullptr, nullptr) != 0) abort();
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    signal(SIGPROF, SIG_IGN);
    int o = tty ? slave : open(stdout_file ? stdout_file : fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(o, 1);
    dup2(e, 2);
    static std::filebuf *real_cerr = new std::filebuf;
    real_cerr->open("/proc/self/fd/2", std::ios::out | std::ios::app);
    std::cerr.rdbuf(real_cerr);
    if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(99);
    static std::vector<char *> argv;
    static Strs a = args;
    a.insert(a.begin(), "bant");
    for (auto &s : a) argv.push_back(s.data());
    argv.push_back(nullptr);
    const int rc = bant_main(a.size(), argv.data());
    std::cout.flush();
    std::cerr.flush();
    real_cerr->pubsync();
    fflush(nullptr);
    _exit(rc);
  }
  MainResult r;
  if (tty) {
    close(slave);
    char buf[4096];
    ssize_t n;
    while ((n = read(master, buf, sizeof buf)) > 0) r.out.append(buf, n);
    close(master);
  }
  int st;
  waitpid(pid, &st, 0);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (!tty && !stdout_file) r.out = Slurp(fo);
  r.err = Slurp(fe);
  vf::Count("evaluations");
  vf::Transition();
  return r;
}

static std::string Show(const Strs &a) { return "'" + cli::Join(a, "' '") + "'"; }

// -- Options
struct Model {  // what the options so far mean
  CommandlineFlags flags;
  std::string grep;
  bool insensitive = false, quiet = false, to_file = false;
};
struct Opt {
  Strs args;
  std::function<void(Model &)> apply;
};
static const char *kOutFile = "OUT.txt";
static std::vector<Opt> Options() {
  auto fmt = [](OutputFormat f) { return [f](Model &m) { m.flags.output_format = f; }; };
  const int inf = std::numeric_limits<int>::max();
  auto rec = [](int d) { return [d](Model &m) { m.flags.recurse_dependency_depth = d; }; };
  return {
    {{"-q"}, [](Model &m) { m.quiet = true; }},
    {{"-v"}, [](Model &m) { ++m.flags.verbose; }},
    {{"-vv"}, [](Model &m) { m.flags.verbose += 2; }},
    {{"-e"}, [](Model &m) { m.flags.elaborate = true; }},
    {{"-E"}, [](Model &m) { m.flags.print_only_errors = true; }},
    {{"-p"}, [](Model &m) { m.flags.print_ast = true; }},
    {{"-k"}, [](Model &m) { m.flags.ignore_keep_comment = true; }},
    {{"-g", "B\\.H"}, [](Model &m) { m.grep = "B\\.H"; }},
    {{"-gb.h|al"}, [](Model &m) { m.grep = "b.h|al"; }},
    {{"-i"}, [](Model &m) { m.insensitive = true; }},
    {{"-r"}, rec(inf)},
    {{"-r0"}, rec(0)},
    {{"-r1"}, rec(1)},
    {{"-r2"}, rec(2)},
    {{"-f", "json"}, fmt(OutputFormat::kJSON)},
    {{"-fs"}, fmt(OutputFormat::kSExpr)},
    {{"-f", "pl"}, fmt(OutputFormat::kPList)},
    {{"-fc"}, fmt(OutputFormat::kCSV)},
    {{"-f", "native"}, fmt(OutputFormat::kNative)},
    {{"-o", kOutFile}, [](Model &m) { m.to_file = true; }},
    {{"-o-"}, [](Model &m) { m.to_file = false; }},
    {{"-C", "."}, [](Model &) {}},
    {{"-qe"}, [](Model &m) { m.quiet = m.flags.elaborate = true; }},
    {{"-kefj"}, [fmt](Model &m) { m.flags.ignore_keep_comment = m.flags.elaborate = true; fmt(OutputFormat::kJSON)(m); }},
  };
}

static void CheckOptions(const Strs &cmd, const std::vector<const Opt *> &opts, int place) {
  Model m;
  Strs flat, args;
  for (auto *o : opts) {
    o->apply(m);
    flat.insert(flat.end(), o->args.begin(), o->args.end());
  }
  // Options first, after the command, after all, or spread.
  switch (place) {
  case 0:
    args = flat;
    args.insert(args.end(), cmd.begin(), cmd.end());
    break;
  case 1:
    args = cmd;
    args.insert(args.begin() + 1, flat.begin(), flat.end());
    break;
  case 2:
    args = cmd;
    args.insert(args.end(), flat.begin(), flat.end());
    break;
  default: {
    args = opts[0]->args;
    args.push_back(cmd[0]);
    for (size_t i = 1; i < opts.size(); ++i) args.insert(args.end(), opts[i]->args.begin(), opts[i]->args.end());
    args.insert(args.end(), cmd.begin() + 1, cmd.end());
  }
  }
  if (!m.grep.empty()) m.flags.grep_regex = std::string(m.insensitive ? "(?i)" : "") + "(" + m.grep + ")";  // needs a group
  unlink(kOutFile);
  const auto want = cli::Run(cmd, m.flags);
  const auto got = Main(args);
  auto fail = [&](const std::string &key, const std::string &why) { vf::Fail(key, "bant " + Show(args) + ": " + why); };
  if (got.status != want.status) fail("status", "status " + std::to_string(got.status) + ", want " + std::to_string(want.status));
  const std::string result = m.to_file ? Slurp(kOutFile) : got.out;
  if (result != want.out) fail("output", "prints " + result + " instead of " + want.out);
  if (m.to_file && !got.out.empty()) fail("stdout", "output file given, but stdout has " + got.out);
  if (want.status == 2) {
    if (got.err.find("Usage:") == std::string::npos) fail("usage", "no usage: " + got.err);
    return;
  }
  // Info messages; with numbers that change from run to run if verbose.
  if (!m.flags.verbose) {
    std::stringstream lines(want.info);
    for (std::string l; std::getline(lines, l);) {
      if (l.empty()) continue;
      const bool there = got.err.find(l) != std::string::npos;
      if (there == m.quiet) fail(m.quiet ? "not-quiet" : "info", (there ? "stderr has " : "stderr misses ") + l);
    }
    if (m.quiet && want.status != 1 && !got.err.empty()) fail("not-quiet", "stderr has " + got.err);
  } else if (want.status != 1 && got.err.empty()) {
    fail("verbose", "no statistics");
  } else if (!m.quiet) {
    std::stringstream lines(want.info);
    for (std::string l; std::getline(lines, l);) {
      if (l.find(" in ") != std::string::npos && l.find("BUILD:") == std::string::npos) continue;  // Time.
      if (got.err.find(l) == std::string::npos) fail("verbose-info", "stderr misses " + l);
    }
  }
  vf::SeeState(want.out + std::to_string(want.status));
}

static void MakeProject() {
  for (const char *d : {"proj/a", "proj/b", "proj/c", "proj/err", "other", "base/execroot/_main/bazel-out", "base/external/ext~"}) fs::create_directories(d);
  fs::create_directory_symlink(fs::absolute("base/execroot/_main/bazel-out"), "proj/bazel-out");
  std::ofstream("proj/MODULE.bazel") << "bazel_dep(name = \"ext\", version = \"1.0\")\n";
  std::ofstream("other/MODULE.bazel") << "";
  std::ofstream("other/BUILD") << "cc_library(name = \"only_other\")\n";
  std::ofstream("base/external/ext~/BUILD") << "cc_library(name = \"ext\", hdrs = [\"ext.h\"])\n";
  std::ofstream("proj/a/BUILD") << "X = [\"a.cc\"]\ncc_library(\n  name = \"lib\",\n  srcs = X,\n  hdrs = [\"a.h\"],\n  deps = [\n    \"//b:b\",\n    \":kept\",  # keep\n    \"//b:unused\",\n  ],\n)\n"
                                   "cc_library(name = \"kept\", hdrs = [\"kept.h\"])\nalias(name = \"al\", actual = \":lib\")\ngenrule(name = \"gen\", outs = [\"out.inc\"])\n";
  std::ofstream("proj/a/a.cc") << "#include \"a/a.h\"\n#include \"b/b.h\"\n";
  std::ofstream("proj/a/a.h") << "";
  std::ofstream("proj/b/BUILD") << "cc_library(name = \"b\", srcs = [\"b.cc\"], hdrs = [\"b.h\"], deps = [\"//c\"])\ncc_library(name = \"unused\", hdrs = [\"unused.h\"])\n";
  std::ofstream("proj/b/b.cc") << "#include \"c/c.h\"\n";
  std::ofstream("proj/b/b.h") << "#include \"deep/c/c.h\"\n";
  std::ofstream("proj/c/BUILD") << "cc_library(name = \"c\", hdrs = [\"c.h\"], includes = [\"inc\"], deps = [\"@ext\"])\n";
  std::ofstream("proj/err/BUILD") << "cc_library(name = \"good\")\n)\n";
}

int main(int argc, char *argv[]) {
  vf::Init(argc, argv);
  static std::stringstream *sink = new std::stringstream;
  std::cerr.rdbuf(sink->rdbuf());
  g_scratch = fs::absolute(vf::S().out).string() + "/cmd." + std::to_string(vf::S().shard);
  fs::remove_all(g_scratch);
  fs::create_directories(g_scratch);
  setenv("HOME", g_scratch.c_str(), 1);
  fs::current_path(g_scratch);
  MakeProject();
  fs::current_path("proj");

  // -- Which command is run.
  std::map<std::string, cli::Result> full;
  std::set<std::string> distinct;
  for (auto &c : kCommands) {
    full[c] = cli::Run({c, "//..."});
    distinct.insert(full[c].out);
  }
  if (distinct.size() != kCommands.size() || full["parse"].out != "") {
    fprintf(stderr, "commands can not be told apart\n");
    return 2;
  }
  auto check_word = [&](const std::string &w, bool process) {
    Strs starts;
    bool exact = false;
    for (auto &c : kCommands)
      if (c.starts_with(w)) {
        starts.push_back(c);
        exact |= c == w;
      }
    std::string want;
    if (exact) want = w;
    else if (starts.size() == 1) want = starts[0];
    cli::Result r;
    MainResult mr;
    if (process) {
      mr = Main({w, "//..."});
      r.out = mr.out;
      r.status = mr.status;
      r.info = mr.err;
    } else {
      r = cli::Run({w, "//..."});
      vf::Count("evaluations");
      vf::Transition();
    }
    if (want.empty()) {
      if (r.status != 2 || !r.out.empty() || r.info.empty()) vf::Fail("accepted", "'" + w + "' is no command: status " + std::to_string(r.status) + ", output " + r.out);
      if (process && r.info.find("Usage:") == std::string::npos) vf::Fail("usage", "no usage message for command '" + w + "': " + r.info);
    } else if (r.out != full[want].out || r.status != full[want].status) {
      vf::Fail("command", "'" + w + "' is " + want + ", status " + std::to_string(r.status) + ", output " + r.out + r.info);
    }
    vf::SeeState(want);
  };
  const std::string letters = "abcdefghijklmnopqrstuvwxyz-";
  for (char a : letters) {
    if (!VF_BEGIN(std::string("command words of up to 3 letters starting with ") + a)) continue;
    vf::NonTrivial();
    check_word(std::string(1, a), true);
    for (char b : letters) {
      check_word(std::string{a, b}, a != '-');
      for (char c : letters) check_word({a, b, c}, false);
    }
  }
  for (auto &c : kCommands) {
    for (size_t n = 0; n <= c.size(); ++n) {
      if (!VF_BEGIN("prefixes of " + c + " of length " + std::to_string(n) + " and their single edits")) continue;
      vf::NonTrivial();
      const std::string w = c.substr(0, n);
      check_word(w, true);
      for (int b = 1; b < 256; ++b) check_word(w + (char)b, false);
      if (n == 0) continue;
      for (size_t i = 0; i < n; ++i) {
        std::string x = w;
        x.erase(i, 1);
        check_word(x, false);
        x = w;
        if (i + 1 < n) std::swap(x[i], x[i + 1]);
        check_word(x, false);
        x = w;
        x[i] ^= 32;
        check_word(x, x[0] != '-');
        for (char l : letters) {
          x = w;
          x[i] = l;
          check_word(x, false);
          x = w;
          x.insert(i, 1, l);
          check_word(x, false);
        }
      }
      for (auto &d : kCommands) {
        check_word(w + d, false);
        check_word(w + " " + d, false);
      }
      check_word(c + w, false);
    }
  }
  // -- Number of arguments and patterns.
  const std::set<std::string> need_pattern = {"print", "dwyu", "canonicalize"};
  const Strs patterns = {"//...", "...", "//a:lib", "//a/...", "//b:all", "@ext//...", "//nothing/...", "a:b:c", "//a//b", ":lib", "//a:*", ""};
  for (auto &c : kCommands) {
    if (!VF_BEGIN("arguments of " + c)) continue;
    vf::NonTrivial();
    const auto none = Main({c});
    if (need_pattern.contains(c) != (none.status == 1)) vf::Fail("pattern-needed", c + " without pattern: status " + std::to_string(none.status));
    if (need_pattern.contains(c) && (!none.out.empty() || none.err.find("pattern") == std::string::npos)) vf::Fail("pattern-needed", c + ": no message");
    for (auto &p : patterns) {
      const auto want = cli::Run({c, p});
      const auto got = Main({c, p});
      if (want.out != got.out || want.status != got.status) vf::Fail("output", c + " " + p + ": " + got.out + " instead of " + want.out);
      if ((p == "a:b:c" || p == "//a//b") && (got.status == 0 || !got.out.empty() || got.err.empty())) vf::Fail("invalid-pattern", c + " " + p + ": " + got.out + got.err);
      for (auto &p2 : patterns) {
        const auto two = Main({c, p, p2});
        if (two.status == 0 || !two.out.empty() || two.err.empty()) vf::Fail("two-patterns", c + " " + p + " " + p2 + ": status " + std::to_string(two.status) + two.out);
        const auto dash = Main({c, "--", p});
        if (dash.out != want.out || dash.status != want.status) vf::Fail("output", c + " -- " + p);
      }
    }
    // Not a project.
    const auto no_project = Main({c, "//..."}, g_scratch);
    if (no_project.status != 1 || !no_project.out.empty() || no_project.err.empty()) vf::Fail("no-workspace", c + " outside of project: status " + std::to_string(no_project.status) + no_project.out);
    // Directory.
    for (const Strs &dir : std::vector<Strs>{{"-C", "proj"}, {"-Cproj"}, {"-C", "other", "-C", "../proj"}, {"-C", g_scratch + "/proj"}}) {
      Strs args = dir;
      args.push_back(c);
      args.push_back("//...");
      const auto got = Main(args, g_scratch);
      if (got.out != full[c].out || got.status != full[c].status) vf::Fail("directory", Show(args) + ": " + got.out);
    }
    for (const Strs &dir : std::vector<Strs>{{"-C", "missing"}, {"-C", "a/BUILD"}, {"-C", ""}}) {
      Strs args = dir;
      args.push_back(c);
      args.push_back("//...");
      const auto got = Main(args);
      if (got.status != 1 || !got.out.empty() || got.err.empty()) vf::Fail("missing-directory", Show(args) + ": status " + std::to_string(got.status));
    }
    // Output files.
    for (const std::string &f : {std::string("/dev/full"), std::string("missing/x"), std::string("a"), std::string("")}) {
      const auto got = Main({"-o", f, c, "//..."});
      const bool nothing_to_write = f == "/dev/full" && full[c].out.empty();
      if (!got.out.empty() || (got.status == 1 && !got.err.empty()) == nothing_to_write) vf::Fail("output-file", c + " -o '" + f + "': status " + std::to_string(got.status) + " " + got.err);
    }
    if (!full[c].out.empty() && Main({c, "//..."}, "", "/dev/full").status == 0) vf::Fail("output-file", c + ": nothing written to stdout, but success");
    std::ofstream(kOutFile) << "old content, longer than what is written now ............................................................................" << std::string(20000, '.');
    Main({"-o", kOutFile, c, "//..."});
    if (Slurp(kOutFile) != full[c].out) vf::Fail("output-file", c + ": other content in existing file");
    const auto in_dir = Main({"-C", "../other", "-o", "../proj/OUT2.txt", "-C", "../proj", c, "//..."});
    if (Slurp("OUT2.txt") != full[c].out || !in_dir.out.empty()) vf::Fail("output-file", c + ": file in other directory");
    unlink("OUT2.txt");
    // Terminal.
    const auto tty = Main({c, "//..."}, "", nullptr, true);
    std::string plain;
    for (size_t i = 0; i < tty.out.size(); ++i) {
      if (tty.out[i] == '\r') continue;
      if (tty.out[i] == '\033') {
        while (i < tty.out.size() && tty.out[i] != 'm') ++i;
        continue;
      }
      plain += tty.out[i];
    }
    if (plain != full[c].out) vf::Fail("terminal", c + " prints on terminal " + tty.out);
    unlink(kOutFile);
    const auto tty_file = Main({"-o", kOutFile, c, "//..."}, "", nullptr, true);
    if (Slurp(kOutFile) != full[c].out) vf::Fail("terminal", c + " writes to file " + Slurp(kOutFile));
    const auto tty_dash = Main({"-o", kOutFile, "-o", "-", c, "//..."}, "", nullptr, true);
    if (tty_dash.out != tty.out) vf::Fail("terminal", c + " -o -: other output");
  }
  if (VF_BEGIN("no command")) {
    vf::NonTrivial();
    for (const Strs &a : std::vector<Strs>{{}, {"-q"}, {"-v"}, {"--"}, {"-fj", "-e"}}) {
      const auto got = Main(a);
      if (got.status != 2 || !got.out.empty() || got.err.find("Usage:") == std::string::npos) vf::Fail("usage", Show(a) + ": status " + std::to_string(got.status));
    }
    for (const Strs &a : std::vector<Strs>{{"-h"}, {"-h", "print"}, {"print", "//...", "-h"}, {"-qh"}}) {
      const auto got = Main(a);
      if (got.status != 0 || !got.out.empty() || got.err.find("Usage:") == std::string::npos) vf::Fail("help", Show(a) + ": status " + std::to_string(got.status));
      for (auto &c : kCommands)
        if (got.err.find("\n    " + (c == "has-dependents" ? "has-dependent" : c)) == std::string::npos) vf::Fail("help", "command not mentioned: " + c);
    }
    const auto v = Main({"-V"});
    if (v.status != 0 || v.err.find("bant v") == std::string::npos) vf::Fail("version", v.err);
  }
  // -- Options that don't exist or lack parameter; names of formats.
  for (int ch = 33; ch < 127; ++ch) {
    if (!VF_BEGIN(std::string("option -") + (char)ch)) continue;
    vf::NonTrivial();
    const std::string o = {'-', (char)ch};
    const bool exists = strchr("CqofrvhEegikVpb", ch);
    const bool has_param = strchr("Cofg", ch);
    auto usage = [&](const Strs &a) {
      const auto got = Main(a);
      if (got.status == 0 || got.status > 3 || !got.out.empty() || got.err.find("Usage:") == std::string::npos)
        vf::Fail(exists ? "missing-parameter" : "unknown-option", Show(a) + ": status " + std::to_string(got.status) + " out " + got.out + " err " + got.err);
    };
    if (ch == '-') continue;
    if (!exists) {
      usage({o, "list-packages", "//..."});
      usage({"list-packages", "//...", o});
      usage({"-q" + o.substr(1), "list-packages", "//..."});
      usage({"list-packages", o + "x", "//..."});
      usage({"-" + o + "long", "list-packages"});
    } else if (has_param) {
      usage({"list-packages", "//...", o});
      usage({"list-packages", "//...", "-q" + o.substr(1)});
      usage({o});
    } else if (ch != 'h' && ch != 'V') {
      const auto got = Main({o, "list-packages", "//..."});
      if (got.status != 0 || got.out.empty()) vf::Fail("option", o + " not accepted");
    }
  }
  struct {
    const char *name;
    OutputFormat f;
  } formats[] = {{"native", OutputFormat::kNative}, {"s-expr", OutputFormat::kSExpr}, {"plist", OutputFormat::kPList}, {"json", OutputFormat::kJSON}, {"csv", OutputFormat::kCSV}, {"graphviz", OutputFormat::kGraphviz}};
  auto check_format = [&](const std::string &w) {
    std::vector<OutputFormat> found;
    for (auto &f : formats)
      if (std::string(f.name).starts_with(w)) found.push_back(f.f);
    const auto got = Main({"-f", w, "list-packages", "//..."});
    if (found.size() != 1) {
      if (got.status == 0 || !got.out.empty() || got.err.find("format") == std::string::npos) vf::Fail("format", "accepted as format: '" + w + "'");
    } else {
      CommandlineFlags fl;
      fl.output_format = found[0];
      if (got.status != 0 || got.out != cli::Run({"list-packages", "//..."}, fl).out) vf::Fail("format", "format '" + w + "' prints " + got.out);
    }
  };
  for (char a : letters) {
    if (!VF_BEGIN(std::string("formats starting with ") + a)) continue;
    vf::NonTrivial();
    if (a == 'a') check_format("");
    check_format(std::string(1, a));
    for (char b : letters) check_format({a, b});
    for (auto &f : formats) {
      if (f.name[0] != a) continue;
      const std::string n = f.name;
      for (size_t i = 1; i <= n.size(); ++i) {
        check_format(n.substr(0, i));
        check_format(n.substr(0, i) + "x");
        check_format(n.substr(i));
        std::string x = n;
        x[i - 1] ^= 32;
        check_format(x);
      }
    }
  }
  // -- Options with all commands.
  const auto options = Options();
  for (auto &c : kCommands) {
    for (const Strs &cmd : std::vector<Strs>{{c, "//..."}, {c, "//a/..."}, {c}}) {
      for (size_t i = 0; i < options.size(); ++i) {
        if (!VF_BEGIN("options of " + cli::Join(cmd, " ") + ", first " + Show(options[i].args))) continue;
        vf::NonTrivial();
        for (int place = 0; place < 3; ++place) CheckOptions(cmd, {&options[i]}, place);
        for (size_t j = 0; j < options.size(); ++j) {
          if (cmd.size() > 1) {
            CheckOptions(cmd, {&options[i], &options[j]}, (i + j) % 4);
            if (vf::Thorough())
              for (size_t k = 0; k < options.size(); ++k) CheckOptions(cmd, {&options[i], &options[j], &options[k]}, (i + j + k) % 4);
          }
        }
      }
    }
  }
  // -- What the options mean.
  struct Effect {
    Strs args;
    Strs in, not_in;  // on stdout
    const char *err = nullptr, *not_err = nullptr;
  };
  const std::vector<Effect> effects = {
    {{"print", "//a:lib"}, {"name = \"lib\"", "srcs = X"}, {"kept\", hdrs", "\033"}},
    {{"print", "-e", "//a:lib"}, {"srcs = [\"a.cc\"]"}, {"srcs = X"}},
    {{"print", "//..."}, {"\"lib\"", "\"good\"", "\"unused\""}, {}, "err/BUILD"},
    {{"print", "-q", "//..."}, {"\"lib\"", "\"good\""}, {}, nullptr, "err/BUILD"},
    {{"print", "-E", "//..."}, {"\"good\""}, {"\"lib\"", "\"unused\""}},
    {{"print", "-E", "//a/..."}, {}, {"lib"}},
    {{"parse", "-E", "//..."}, {"\"good\""}, {"\"lib\"", "\"unused\""}},
    {{"print", "//...", "-g", "kept\\.h"}, {"\"kept\""}, {"\"lib\"", "\"good\""}},
    {{"print", "//...", "-g", "KEPT\\.H"}, {}, {"\"kept\""}},
    {{"print", "//...", "-i", "-g", "KEPT\\.H"}, {"\"kept\""}, {"\"lib\"", "\"good\""}},
    {{"print", "//...", "-g", "KEPT\\.H|GOOD", "-i"}, {"\"kept\"", "\"good\""}, {"\"lib\""}},
    {{"list-targets", "//a:lib"}, {"//a:lib"}, {"//b", "//c"}},
    {{"list-targets", "//a:lib", "-r"}, {"//a:lib", "//b", "//c", "@ext"}, {}},
    {{"list-targets", "//a:lib", "-r1"}, {"//a:lib", "//b"}, {"@ext"}},
    {{"list-packages", "//a:lib", "-r1"}, {"//a", "//b"}, {"//c"}},
    {{"list-packages", "//a:lib", "-r2"}, {"//a", "//b", "//c"}, {"@ext"}},
    {{"list-packages", "//a:lib", "-r0"}, {"//a"}, {"//b", "//c"}},
    {{"list-packages", "//a:lib", "-r", "2"}, {}, {"//b"}, "one pattern"},
    {{"dwyu", "//a:lib"}, {"remove deps //b:unused' //a:lib"}, {":kept", "remove deps //b'"}},
    {{"dwyu", "-k", "//a:lib"}, {"remove deps //b:unused' //a:lib", "remove deps :kept"}, {}},
    {{"canonicalize", "//a:lib"}, {"replace deps //b:b //b' //a:lib"}, {}},
    {{"workspace"}, {"ext", "1.0"}, {}},
    {{"lib-headers", "//a:lib"}, {"a/a.h"}, {"b.h"}},
    {{"genrule-outputs"}, {"a/out.inc", "//a:gen"}, {}},
    {{"aliased-by"}, {"//a:lib", "//a:al"}, {}},
    {{"depends-on", "//a:lib"}, {"//b:unused", "//a:kept"}, {}},
    {{"has-dependents", "//c"}, {"//b"}, {"//a"}},
    {{"compilation-db", "//b:b"}, {"b/b.cc", "c/inc"}, {}},
    {{"compile-flags", "//b:b"}, {"-Ic/inc", "-I."}, {}},
    {{"parse", "//err"}, {}, {"good"}, "err/BUILD"},
    {{"parse", "//err/...", "-p"}, {"good"}, {}},
    {{"parse", "//b", "-v"}, {}, {}, "1 "},
  };
  for (auto &e : effects) {
    if (!VF_BEGIN("effect of " + Show(e.args))) continue;
    vf::NonTrivial();
    const auto got = Main(e.args);
    for (auto &s : e.in)
      if (got.out.find(s) == std::string::npos) vf::Fail("effect", Show(e.args) + " does not print " + s + " but " + got.out);
    for (auto &s : e.not_in)
      if (got.out.find(s) != std::string::npos) vf::Fail("effect", Show(e.args) + " prints " + s + ": " + got.out);
    if (e.err && got.err.find(e.err) == std::string::npos) vf::Fail("effect", Show(e.args) + " has no message " + e.err + ": " + got.err);
    if (e.not_err && got.err.find(e.not_err) != std::string::npos) vf::Fail("effect", Show(e.args) + " has message " + e.not_err);
  }
  fs::current_path("/");
  fs::remove_all(g_scratch);
  return vf::Finish();
}
