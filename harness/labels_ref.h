// Reference for labels: what Bazel defines for the forms bant documents.
#ifndef VERIF_LABELS_REF_H
#define VERIF_LABELS_REF_H
#include <optional>
#include <string>
#include <vector>
#include <tuple>

namespace lref {
struct Pkg {
  std::string project, path;
  auto operator<=>(const Pkg &) const = default;
};
struct Label {
  Pkg pkg;
  std::string name;
  auto operator<=>(const Label &) const = default;
};
inline bool Segs(const std::string &p, const char *forbidden = "@:") {  // nonempty path of nonempty segments
  if (p.empty() || p.front() == '/' || p.back() == '/') return false;
  if (p.find("//") != std::string::npos) return false;
  return p.find_first_of(forbidden) == std::string::npos;
}
inline bool Seg(const std::string &p) { return Segs(p) && p.find('/') == std::string::npos; }
enum Kind { kWellFormed, kMustReject, kDontCare, kNoLabel };

inline std::string Last(const std::string &p) {
  auto s = p.rfind('/');
  return s == std::string::npos ? p : p.substr(s + 1);
}

inline Kind Parse(const std::string &s, const Pkg &ctx, Label *out) {
  const auto colon = s.find(':');
  if (colon != std::string::npos && s.find(':', colon + 1) != std::string::npos) return kMustReject;
  std::string pkg = s.substr(0, colon);
  const bool has_name = colon != std::string::npos;
  std::string name = has_name ? s.substr(colon + 1) : "";
  if (has_name && !Segs(name)) name = "";
  if (pkg.empty()) {
    if (!has_name || name.empty()) return kDontCare;
    *out = {ctx, name};
    return kWellFormed;
  }
  // Some repository.
  std::string project = ctx.project;
  bool with_project = false;
  if (pkg[0] == '@') {
    const auto slash = pkg.find('/');
    std::string repo = pkg.substr(1, slash == std::string::npos ? slash : slash - 1);
    const auto tilde = repo.find('~');  // what bzlmod has behind the name
    if (tilde == 0) return kNoLabel;
    if (repo.find('@') != std::string::npos) return kDontCare;
    if (tilde != std::string::npos) {
      if (slash == std::string::npos) return kNoLabel;
      repo.resize(tilde);
    }
    if (slash == std::string::npos) {
      if (repo.empty() || has_name) return kDontCare;
      *out = {{pkg, ""}, repo};
      return kWellFormed;
    }
    project = repo.empty() ? "" : "@" + repo;
    pkg = pkg.substr(slash);
    with_project = true;
    // "something is off", wherever the additional slashes are.
    if (pkg.substr(0, 2) != "//") return kDontCare;
  }
  const bool absolute = pkg.substr(0, 2) == "//";
  if (!absolute && pkg[0] == '/') return kDontCare;
  std::string path = absolute ? pkg.substr(2) : pkg;
  if (!path.empty() && path[0] == '/') return kDontCare;
  {
    std::string p = path;
    while (!p.empty() && p.back() == '/') p.pop_back();
    if (p.find("//") != std::string::npos) return kMustReject;
  }
  if (!absolute && !has_name && path.find('/') == std::string::npos) {  // just a name
    if (!Seg(path)) return kDontCare;
    *out = {ctx, path};
    return kWellFormed;
  }
  if (path.empty()) {
    if (!has_name || name.empty()) return kDontCare;
    *out = {{project, ""}, name};
    return kWellFormed;
  }
  if (!Segs(path)) return kDontCare;
  if (has_name && name.empty()) return kDontCare;
  (void)with_project;
  *out = {{project, path}, has_name ? name : Last(path)};
  return kWellFormed;
}
inline std::string Print(const Label &l) {
  if (!l.pkg.path.empty() && Last(l.pkg.path) == l.name) return l.pkg.project + "//" + l.pkg.path;
  if (l.pkg.path.empty() && !l.pkg.project.empty() && l.pkg.project.substr(1) == l.name) return l.pkg.project;
  return l.pkg.project + "//" + l.pkg.path + ":" + l.name;
}
inline std::string PrintIn(const Label &l, const Pkg &p) {
  if (l.pkg == p) return ":" + l.name;
  return (l.pkg.project.empty() && !p.project.empty() ? "@" : "") + Print(l);
}
}  // namespace lref
#endif
