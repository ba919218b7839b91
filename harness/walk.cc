// Explorer: CollectFilesRecursive() over all small topologies of directories
// and links, all listing orders, all predicates. Entries come from a real
// scratch tree; the order in which the system lists them, the entry types it
// reports, inode/device numbers and failures are under our control.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>

#include <algorithm>
#include <filesystem>
#include <fstream>

#include "bant/util/file-utils.h"
#include "common.h"

namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

// -- Controlled environment
struct Env {
  bool active = false;
  int order = 0;                      // permutation number, mixed radix over dirs
  bool unknown_type = false;          // report DT_UNKNOWN
  std::set<ino_t> fail_open;          // opendir() fails for these
  std::map<ino_t, std::pair<dev_t, ino_t>> fake_ino;  // real -> reported
  std::map<ino_t, int> dir_number;    // to determine permutation
  std::vector<int> perm_of_dir;       // permutation rank for each directory
  std::map<ino_t, int> listed;        // number of times listed to the end
  int opened = 0, closed = 0;
};
static Env env;
struct DirState {
  ino_t ino;
  bool loaded = false;
  std::vector<dirent> entries;
  size_t pos = 0;
};
static std::map<DIR *, DirState> dirs;
template <typename F>
static F Real(const char *name) {
  return (F)dlsym(RTLD_NEXT, name);
}
static void Fake(struct stat *s) {
  if (!env.active) return;
  auto f = env.fake_ino.find(s->st_ino);
  if (f == env.fake_ino.end()) return;
  s->st_dev = f->second.first;
  s->st_ino = f->second.second;
}
static struct stat RealStat(const char *p, bool *ok) {
  static auto real = Real<int (*)(const char *, struct stat *)>("stat");
  struct stat s = {};
  *ok = real(p, &s) == 0;
  return s;
}
extern "C" {
int stat(const char *p, struct stat *s) noexcept {
  static auto real = Real<int (*)(const char *, struct stat *)>("stat");
  int r = real(p, s);
  if (r == 0) Fake(s);
  return r;
}
int lstat(const char *p, struct stat *s) noexcept {
  static auto real = Real<int (*)(const char *, struct stat *)>("lstat");
  int r = real(p, s);
  if (r == 0) Fake(s);
  return r;
}
int fstat(int fd, struct stat *s) noexcept {
  static auto real = Real<int (*)(int, struct stat *)>("fstat");
  int r = real(fd, s);
  if (r == 0) Fake(s);
  return r;
}
int fstatat(int fd, const char *p, struct stat *s, int fl) noexcept {
  static auto real = Real<int (*)(int, const char *, struct stat *, int)>("fstatat");
  int r = real(fd, p, s, fl);
  if (r == 0) Fake(s);
  return r;
}
DIR *opendir(const char *p) {
  static auto real = Real<DIR *(*)(const char *)>("opendir");
  if (!env.active) return real(p);
  bool ok;
  const struct stat s = RealStat(p, &ok);
  if (env.opened > 300 || (ok && env.fail_open.contains(s.st_ino))) {
    errno = EACCES;
    if (env.opened > 300) ++env.opened, ++env.closed;
    return nullptr;
  }
  DIR *d = real(p);
  if (d) {
    ++env.opened;
    dirs[d] = DirState{s.st_ino};
  }
  return d;
}
struct dirent *readdir(DIR *d) {
  static auto real = Real<struct dirent *(*)(DIR *)>("readdir");
  auto found = dirs.find(d);
  if (!env.active || found == dirs.end()) return real(d);
  DirState &ds = found->second;
  if (!ds.loaded) {
    ds.loaded = true;
    ++env.listed[ds.ino];
    while (dirent *e = real(d)) {
      dirent c = {};
      memcpy(&c, e, std::min<size_t>(sizeof c, e->d_reclen));
      if (env.unknown_type) c.d_type = DT_UNKNOWN;
      ds.entries.push_back(c);
    }
    std::sort(ds.entries.begin(), ds.entries.end(), [](const dirent &a, const dirent &b) {
      return strcmp(a.d_name, b.d_name) < 0;
    });
    auto n = env.dir_number.find(ds.ino);
    int k = n == env.dir_number.end() ? 0 : env.perm_of_dir[n->second];
    // k-th permutation, of all but files and . ..
    std::vector<size_t> slots;
    for (size_t i = 0; i < ds.entries.size(); ++i) {
      const char c = ds.entries[i].d_name[0];
      if (c == 'd' || c == 'l') slots.push_back(i);
    }
    std::vector<dirent> pool, done;
    for (size_t i : slots) pool.push_back(ds.entries[i]);
    while (!pool.empty()) {
      size_t c = k % pool.size();
      k /= pool.size();
      done.push_back(pool[c]);
      pool.erase(pool.begin() + c);
    }
    for (size_t i = 0; i < slots.size(); ++i) ds.entries[slots[i]] = done[i];
    for (auto &e : ds.entries) {
      auto f = env.fake_ino.find(e.d_ino);
      if (f != env.fake_ino.end()) e.d_ino = f->second.second;
    }
  }
  return ds.pos < ds.entries.size() ? &ds.entries[ds.pos++] : nullptr;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
  static auto real = Real<int (*)(DIR *)>("closedir");
  if (dirs.erase(d)) ++env.closed;
  return real(d);
}
}

// -- Model. Directories 0 (root), 1, 2; links.
enum Target { kRoot, kD1, kD2, kFile, kDangling, kSelf, kSelfDir, kNumTargets };
struct Link {
  int where;
  int target;
  bool operator<(const Link &o) const { return std::tie(where, target) < std::tie(o.where, o.target); }
};
struct Topo {
  int ndirs = 3;
  int parent[4] = {-1, 0, 0, 0};
  std::vector<Link> links;
  std::string Desc() const {
    std::string r = "dirs:";
    for (int i = 1; i < ndirs; ++i) r += " d" + std::to_string(i) + " in " + (parent[i] ? "d" + std::to_string(parent[i]) : "root");
    static const char *kT[] = {"root", "d1", "d2", "file", "nothing", "itself", "own directory"};
    for (size_t i = 0; i < links.size(); ++i)
      r += "; l" + std::to_string(i) + " in " + (links[i].where ? "d" + std::to_string(links[i].where) : "root") + " -> " + kT[links[i].target];
    return r;
  }
};
static std::string DirPath(const Topo &t, const std::string &root, int d) {
  return d == 0 ? root : DirPath(t, root, t.parent[d]) + "/d" + std::to_string(d);
}
// Name and destination directory (or -1) of entries.
struct Entry {
  std::string name;
  int dir;
  bool is_link;
};
static std::vector<Entry> Entries(const Topo &t, int d) {
  std::vector<Entry> r;
  for (int i = 1; i < t.ndirs; ++i)
    if (t.parent[i] == d) r.push_back({"d" + std::to_string(i), i, false});
  for (size_t i = 0; i < t.links.size(); ++i) {
    if (t.links[i].where != d) continue;
    int tgt = t.links[i].target;
    int dir = tgt <= kD2 ? tgt : tgt == kSelfDir ? d : -1;
    r.push_back({"l" + std::to_string(i), dir, true});
  }
  return r;
}

static void Create(const Topo &t, const std::string &root) {
  fs::remove_all(root);
  for (int i = 0; i < t.ndirs; ++i) {
    fs::create_directories(DirPath(t, root, i));
    std::ofstream(DirPath(t, root, i) + "/f") << i;
  }
  std::ofstream(DirPath(t, root, 0) + "/g") << "g";
  for (size_t i = 0; i < t.links.size(); ++i) {
    const Link &l = t.links[i];
    std::string to;
    const std::string at = DirPath(t, root, l.where) + "/l" + std::to_string(i);
    switch (l.target) {
    case kRoot:
    case kD1:
    case kD2: to = DirPath(t, root, l.target); break;
    case kFile: to = DirPath(t, root, 1) + "/f"; break;
    case kDangling: to = "nowhere/x"; break;
    case kSelf: to = "l" + std::to_string(i); break;
    case kSelfDir: to = "."; break;
    }
    if (i % 2 && l.target <= kFile) to = fs::relative(to, DirPath(t, root, l.where));
    fs::create_symlink(to, at);
  }
}

static int Perms(int n) {
  int r = 1;
  while (n > 1) r *= n--;
  return r;
}

struct Config {
  std::set<std::string> reject;  // directory names not accepted
  bool reject_links = false;     // like workspace walk
  bool only_f = false;           // file predicate
  bool unknown = false;
  int fail = -1;                 // unreadable directory
  int inode_mode = 0;            // 0 real; 1: same numbers on different devices
};
static void Explore(const Topo &t, const std::string &root, const Config &c, bool relative_root) {
  env = Env();
  env.unknown_type = c.unknown;
  std::vector<std::pair<dev_t, ino_t>> ids;
  int total = 1;
  std::vector<int> radix;
  for (int i = 0; i < t.ndirs; ++i) {
    bool ok;
    struct stat s = RealStat(DirPath(t, root, i).c_str(), &ok);
    if (!ok) {
      vf::Fail("input", "no dir");
      return;
    }
    env.dir_number[s.st_ino] = i;
    if (c.fail == i) env.fail_open.insert(s.st_ino);
    if (c.inode_mode == 1) env.fake_ino[s.st_ino] = {100 + i, 4711};
    radix.push_back(Perms(Entries(t, i).size()));
    total *= radix.back();
    ids.emplace_back(s.st_dev, s.st_ino);
  }
  auto accept = [&](const std::string &name, bool link) {
    return !c.reject.contains(name) && !(c.reject_links && link);
  };
  // Reference: reachable real directories.
  std::set<int> reach = {0};
  std::vector<int> work = {0};
  while (!work.empty()) {
    int d = work.back();
    work.pop_back();
    if (d == c.fail) continue;
    for (auto &e : Entries(t, d))
      if (e.dir >= 0 && accept(e.name, e.is_link) && reach.insert(e.dir).second) work.push_back(e.dir);
  }
  std::set<std::pair<int, std::string>> want;
  for (int d : reach) {
    if (d == c.fail) continue;
    want.insert({d, "f"});
    if (d == 0 && !c.only_f) want.insert({d, "g"});
    if (!c.only_f)
      for (size_t i = 0; i < t.links.size(); ++i)
        if (t.links[i].where == d && t.links[i].target == kFile) want.insert({d, "l" + std::to_string(i)});
  }
  const std::string start = relative_root ? "tree" : root;
  for (int k = 0; k < total; ++k) {
    int kk = k;
    env.perm_of_dir.clear();
    for (int r : radix) {
      env.perm_of_dir.push_back(kk % r);
      kk /= r;
    }
    env.listed.clear();
    env.opened = env.closed = 0;
    std::string predicate_error;
    env.active = true;
    auto res = bant::CollectFilesRecursive(
      bant::FilesystemPath(start),
      [&](const bant::FilesystemPath &p) {
        if (!p.is_directory()) predicate_error = "asked as directory: " + p.path();
        return accept(std::string(p.filename()), p.is_symlink());
      },
      [&](const bant::FilesystemPath &p) {
        if (p.is_directory()) predicate_error = "asked as file: " + p.path();
        return !c.only_f || p.filename() == "f";
      });
    env.active = false;
    auto where = [&]() { return " with listing order " + std::to_string(k) + " of " + std::to_string(total); };
    vf::Count("evaluations");
    if (!predicate_error.empty()) vf::Fail("predicate", predicate_error + where());
    if (env.opened > 300) {
      vf::Fail("endless", "does not terminate" + where());
      return;
    }
    if (env.opened != env.closed) vf::Fail("open-dir", "directories not closed" + where());
    for (auto &[i, n] : env.listed)
      if (n > 1) vf::Fail("listed-twice", "directory d" + std::to_string(env.dir_number[i]) + " listed " + std::to_string(n) + " times" + where());
    std::set<std::pair<int, std::string>> got;
    std::string all;
    for (auto &p : res) {
      all += " " + p.path();
      // Accepted chain.
      if (!p.path().starts_with(start + "/")) {
        vf::Fail("path", p.path() + where());
        continue;
      }
      std::string rest = p.path().substr(start.size() + 1);
      int d = 0;
      bool good = true;
      for (size_t s; good && (s = rest.find('/')) != std::string::npos; rest = rest.substr(s + 1)) {
        const std::string n = rest.substr(0, s);
        good = false;
        for (auto &e : Entries(t, d)) {
          if (e.name == n && e.dir >= 0 && accept(n, e.is_link)) {
            d = e.dir;
            good = true;
            break;
          }
        }
      }
      if (!good) {
        vf::Fail("not-accepted", p.path() + where());
        continue;
      }
      if (rest != p.filename()) vf::Fail("filename", p.path() + " " + std::string(p.filename()) + where());
      bool dangling = false;
      for (size_t i = 0; i < t.links.size(); ++i)
        if (rest == "l" + std::to_string(i) && (t.links[i].target == kDangling || t.links[i].target == kSelf)) dangling = true;
      if (dangling) continue;  // no statement about these
      if (!got.insert({d, rest}).second) vf::Fail("duplicate", p.path() + " is another name of something listed already" + where());
    }
    vf::SeeState(all);
    vf::Transition(env.opened);
    if (got != want) {
      std::string w;
      for (auto &[d, n] : want)
        if (!got.contains({d, n})) w += " missing d" + std::to_string(d) + "/" + n;
      for (auto &[d, n] : got)
        if (!want.contains({d, n})) w += " unexpected d" + std::to_string(d) + "/" + n;
      vf::Fail("result", w + where() + "; got" + all);
      return;
    }
  }
  vf::NonTrivial();
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const bool thorough = vf::Thorough();
  const std::string base = vf::S().out + "/w." + std::to_string(vf::S().shard) + "." + std::to_string(vf::S().only);
  fs::create_directories(base);
  if (chdir(base.c_str()) != 0) return 2;
  const std::string root = base + "/tree";
  std::vector<Link> all;
  const int kMaxLinks = 3;
  for (int p2 = 0; p2 < 2; ++p2) {
    all.clear();
    for (int w = 0; w < 3; ++w)
      for (int g = 0; g < kNumTargets; ++g) all.push_back({w, g});
    std::vector<std::vector<Link>> sets = {{}};
    for (size_t a = 0; a < all.size(); ++a) {
      sets.push_back({all[a]});
      for (size_t b = a; b < all.size(); ++b) {
        sets.push_back({all[a], all[b]});
        for (size_t c = b; kMaxLinks > 2 && c < all.size(); ++c) {
          sets.push_back({all[a], all[b], all[c]});
          for (size_t d = c; thorough && d < all.size(); ++d) sets.push_back({all[a], all[b], all[c], all[d]});
        }
      }
    }
    for (auto &ls : sets) {
      Topo t;
      t.parent[2] = p2;
      t.links = ls;
      auto run = [&](const std::string &what, auto fun) {
        if (VF_BEGIN(t.Desc() + "; " + what)) {
          Create(t, root);
          fun();
        }
      };
      // Predicates by name: each subset of names rejected.
      run("all rejected subsets", [&] {
        Strs names = {"d1", "d2"};
        for (size_t i = 0; i < ls.size(); ++i) names.push_back("l" + std::to_string(i));
        for (int m = 0; m < (1 << names.size()); ++m) {
          if (ls.size() > (thorough ? 3 : 2) && __builtin_popcount(m) > 1) continue;
          Config c;
          for (size_t i = 0; i < names.size(); ++i)
            if (m >> i & 1) c.reject.insert(names[i]);
          Explore(t, root, c, m & 1);
        }
      });
      run("links rejected, entry types, failures, devices", [&] {
        for (int m = 0; m < 32; ++m) {
          Config c;
          c.reject_links = m & 1;
          c.unknown = m & 2;
          c.only_f = m & 4;
          c.inode_mode = (m & 8) ? 1 : 0;
          c.fail = -1;
          Explore(t, root, c, m & 16);
          if (ls.size() > (thorough ? 3 : 2)) {
            m += 4;
            continue;
          }
          if (m & 4) continue;
          for (int f = 0; f < 3; ++f) {
            c.fail = f;
            Explore(t, root, c, m & 16);
          }
        }
      });
    }
  }
  // Names: all of up to four characters, and very long ones.
  {
    Strs names = {"BUILD", "lost+found", "a b", "a\nb", "\xff\xfe", "*", "[a]", "\\", std::string(254, 'x'), std::string(255, 'y')};
    const std::string chars = ".a~_";
    for (int len = 1; len <= (thorough ? 6 : 4); ++len) {
      const int n = 1 << (2 * len);
      for (int k = 0; k < n; ++k) {
        std::string s;
        for (int i = 0; i < len; ++i) s += chars[k >> (2 * i) & 3];
        if (s != "." && s != "..") names.push_back(s);
      }
    }
    for (const std::string &name : names) {
      if (!VF_BEGIN("directory and file named " + name)) continue;
      vf::NonTrivial();
      fs::remove_all(root);
      std::set<std::string> want;
      for (const std::string &f : {name + "/" + name, name + "/" + name + "x/" + name, "d/" + name}) {
        if (name.size() > 200 && f.ends_with("x/" + name)) continue;
        fs::create_directories((root + "/" + f).substr(0, root.size() + 1 + f.rfind('/')));
        std::ofstream(root + "/" + f) << "x";
        want.insert(root + "/" + f);
      }
      std::set<std::string> got, files;
      for (const auto &p : bant::CollectFilesRecursive(
             bant::FilesystemPath(root), [](const bant::FilesystemPath &) { return true; },
             [&](const bant::FilesystemPath &p) {
               files.insert(std::string(p.filename()));
               return true;
             })) {
        if (!got.insert(std::string(p.path())).second) vf::Fail("duplicate", p.path());
      }
      vf::Transition(got.size());
      vf::Count("evaluations");
      if (got != want) vf::Fail("result", "name " + name + ": " + std::to_string(got.size()) + " files instead of " + std::to_string(want.size()));
      if (files != std::set<std::string>{name}) vf::Fail("filename", "of " + name);
    }
  }
  // Sizes: many entries, deep directories, many links.
  for (int n : vf::Sizes(thorough ? 1030 : 300)) {
    if (!n || !VF_BEGIN("size " + std::to_string(n))) continue;
    vf::NonTrivial();
    const std::string outside = root + ".outside";
    for (int shape = 0; shape < 6; ++shape) {
      fs::remove_all(root);
      fs::remove_all(outside);
      fs::create_directories(root);
      std::set<std::string> want, once;  // once: one of
      auto put = [&](const std::string &dir, const std::string &f, bool expect = true) {
        fs::create_directories(dir);
        std::ofstream(dir + "/" + f) << "x";
        if (expect) want.insert(dir + "/" + f);
      };
      std::string dir = root;
      for (int i = 0; i < n; ++i) {
        const std::string k = std::to_string(i);
        switch (shape) {
        case 0: put(root, "f" + k); break;
        case 1: put(root + "/d" + k, "f"); break;
        case 2:
          dir += "/d";
          put(dir, "f");
          break;
        case 3:  // Many ways to the same.
          put(outside, "f", false);
          fs::create_directory_symlink(outside, root + "/l" + k);
          once.insert(root + "/l" + k + "/f");
          break;
        case 4:  // Back to the top
          put(root + "/d" + k, "f");
          fs::create_directory_symlink(root, root + "/d" + k + "/up");
          break;
        default:  // Links to many.
          put(outside + "/o" + k, "f", false);
          fs::create_directory_symlink(outside + "/o" + k, root + "/l" + k);
          want.insert(root + "/l" + k + "/f");
        }
      }
      std::set<std::string> got;
      for (const auto &p : bant::CollectFilesRecursive(
             bant::FilesystemPath(root), [](const bant::FilesystemPath &) { return true; },
             [](const bant::FilesystemPath &) { return true; })) {
        if (!got.insert(std::string(p.path())).second) vf::Fail("duplicate", p.path());
      }
      vf::Transition(got.size());
      vf::Count("evaluations");
      const bool ok = once.empty() ? got == want : got.size() == 1 && once.count(*got.begin());
      if (!ok) vf::Fail("size", "shape " + std::to_string(shape) + ": " + std::to_string(got.size()) + " files, of " + std::to_string(n));
    }
    fs::remove_all(outside);
  }
  // The path type itself.
  for (std::string up : {"a", "a/", "a//", "a/b", "/", "/a", "/a/b/", ".", "./", "..", "a.b/"}) {
    for (std::string fn : {"x", "x.y", ".x", "BUILD"}) {
      if (!VF_BEGIN("path " + up + " + " + fn)) continue;
      bant::FilesystemPath p(up, fn);
      std::string u = up;
      while (u.ends_with("/")) u.pop_back();
      if (p.path() != u + "/" + fn) vf::Fail("join", p.path());
      if (p.filename() != fn) vf::Fail("filename", std::string(p.filename()));
      bant::FilesystemPath q(p.path());
      if (q.filename() != fn) vf::Fail("filename", std::string(q.filename()));
      bant::FilesystemPath r(fn);
      if (r.filename() != fn) vf::Fail("filename", std::string(r.filename()));
      if (std::string(p.c_str()) != p.path()) vf::Fail("c_str", p.path());
    }
  }
  {
    Topo t;
    t.links = {{0, kD1}, {0, kFile}, {0, kDangling}, {0, kSelf}};
    struct {
      const char *path;
      bool dir, link, read;
    } exp[] = {{"", true, false, true}, {"/d1", true, false, true}, {"/l0", true, true, true},
               {"/l1", false, true, true}, {"/l2", false, true, false}, {"/l3", false, true, false},
               {"/f", false, false, true}, {"/none", false, false, false}, {"/d1/f", false, false, true},
               {"/l0/f", false, false, true}, {"/f/x", false, false, false}};
    for (auto &e : exp) {
      for (int order = 0; order < 6; ++order) {
        if (!VF_BEGIN(std::string("file type of ") + e.path + " order " + std::to_string(order))) continue;
        Create(t, root);
        bant::FilesystemPath p(root + e.path);
        static const int kOrd[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (int rep = 0; rep < 2; ++rep) {
          for (int q : kOrd[order]) {
            if (q == 0 && p.is_directory() != e.dir) vf::Fail("is_directory", e.path);
            if (q == 1 && p.is_symlink() != e.link) vf::Fail("is_symlink", e.path);
            if (q == 2 && p.can_read() != e.read) vf::Fail("can_read", e.path);
          }
        }
      }
    }
  }
  if (chdir("/") != 0) return 2;
  fs::remove_all(base);
  return vf::Finish();
}
