#!/usr/bin/env python3
"""Builds bant's library objects from /repo's working tree plus one or more
harness programs of /verif, into /verif/_build/<variant> (ignored by git).

usage: mkbuild.py VARIANT HARNESS[:lib-subset]...
"""
import fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
VARIANTS = {
    "asan": "-O1 -g1 " + SAN,
    "opt": "-O2 -g0",
    "fast": "-O1 -g0",
    # bant instrumented for the scheduler in harness/mc_runtime.h, which takes
    # the place of the thread sanitizer's runtime.
    "mc": "-O1 -g0 -fsanitize=thread",
}
LINK_FLAGS = {"mc": ""}


# Explorers with many template instances and little to compute.
HARNESS_O0 = {"arena.cc"}
ABSL = "/usr/include/absl/"


def patch_absl(gen):
    """The installed abseil is built with its own absl::string_view class, the
    upstream one has it as an alias of std::string_view. Let the two convert
    into each other (headers only, same layout, so still fits the library)."""
    def patch(name, pairs):
        with open(ABSL + name) as f:
            t = f.read()
        for a, b in pairs:
            if t.count(a) < 1:
                raise SystemExit("absl header is not the expected one: " + name)
            t = t.replace(a, b, 1)
        dst = os.path.join(gen, "absl", name)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or open(dst).read() != t:
            with open(dst, "w") as f:
                f.write(t)
    patch("strings/string_view.h", [
        ("class string_view {", "}}\n#include <string_view>\nnamespace absl {\n"
         "ABSL_NAMESPACE_BEGIN\nclass string_view {"),
        ("  // Iterators\n",
         "  constexpr string_view(std::string_view v)\n"
         "    : ptr_(v.data()), length_(v.size()) {}\n"
         "  constexpr operator std::string_view() const {\n"
         "    return std::string_view(ptr_, length_);\n  }\n  // Iterators\n")])
    patch("strings/str_cat.h", [
        ("  AlphaNum(absl::string_view pc) : piece_(pc) {}",
         "  AlphaNum(std::string_view pc) : piece_(pc) {}\n"
         "  AlphaNum(absl::string_view pc) : piece_(pc) {}")])
    patch("strings/internal/str_split_internal.h", [
        ("  ConvertibleToStringView(absl::string_view s)",
         "  ConvertibleToStringView(std::string_view s) : value_(s) {}\n"
         "  ConvertibleToStringView(absl::string_view s)")])


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "bant")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx")) and "_test." not in f:
                out.append(os.path.join(root, f))
    return out


def build(variant, harnesses, extra_defs="", quiet=True):
    """harnesses: list of (name, [sources relative to /verif/harness], link flags)
    Returns dict name -> binary path."""
    bdir = os.path.join(VERIF, "_build", variant + ("" if REPO == "/repo" else "-other") + (
        "-" + hashlib.sha1(extra_defs.encode()).hexdigest()[:8] if extra_defs else ""))
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(bdir, variant, harnesses, extra_defs)


def build_locked(bdir, variant, harnesses, extra_defs):
    os.makedirs(os.path.join(bdir, "gen", "bant"), exist_ok=True)
    ver = os.path.join(bdir, "gen", "bant", "generated-build-version.h")
    if not os.path.exists(ver):
        with open(ver, "w") as f:
            f.write('#define BANT_BUILD_VERSION "verif"\n')
    patch_absl(os.path.join(bdir, "gen"))
    fl = VARIANTS[variant]
    absl = " ".join(sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")))
    cxx = (f"g++ -std=c++23 -fno-rtti {fl} -w "
           f"-I{bdir}/gen -I{VERIF}/shim -I{REPO} -I{VERIF}/harness {extra_defs}")
    n = ["ninja_required_version = 1.5",
         "rule cxx\n  command = %s -MMD -MF $out.d $xfl -c $in -o $out\n"
         "  depfile = $out.d\n  deps = gcc" % cxx,
         "rule link\n  command = g++ %s -o $out $in $lfl -Wl,--start-group %s "
         "-Wl,--end-group -l:libre2.so.10 -lpthread -ldl" % (LINK_FLAGS.get(variant, fl), absl),
         "rule ar\n  command = rm -f $out && ar rcs $out $in"]
    objs = []
    mains = []
    for s in repo_sources():
        rel = os.path.relpath(s, REPO)
        o = "obj/" + rel + ".o"
        is_main = rel == "bant/bant.cc"
        xfl = "-fno-exceptions" + (" -Dmain=bant_main" if is_main else "")
        n.append(f"build {o}: cxx {s}\n  xfl = {xfl}")
        objs.append(o)
    n.append("build libbant.a: ar " + " ".join(objs))
    outs = {}
    for name, srcs, lfl in harnesses:
        hobjs = []
        for s in srcs:
            if s[0] == "@":  # A program of its own in /repo
                o = f"obj/harness/repo-{s[1:].replace('/', '_')}.o"
                rule = f"build {o}: cxx {REPO}/{s[1:]}\n  xfl = -std=c++17 -frtti -Dmain=program_main"
                if rule not in n:
                    n.append(rule)
                hobjs.append(o)
                continue
            o = f"obj/harness/{s}.o"
            rule = f"build {o}: cxx {VERIF}/harness/{s}"
            if s in HARNESS_O0:
                rule += "\n  xfl = -O0"
            if variant == "mc":
                rule += "\n  xfl = -fno-sanitize=thread -O2"
            if rule not in n:
                n.append(rule)
            hobjs.append(o)
        if variant == "mc":  # Instrumented copies of templates to be used.
            n.append(f"build bin/{name}: link {' '.join(objs + hobjs)}\n  lfl = {lfl}")
        else:
            n.append(f"build bin/{name}: link {' '.join(hobjs)} libbant.a\n  lfl = {lfl}")
        outs[name] = os.path.join(bdir, "bin", name)
    nf = os.path.join(bdir, f"build-{'-'.join(h[0] for h in harnesses)}.ninja")
    with open(nf, "w") as f:
        f.write("\n".join(n) + "\n")
    p = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", "8"] +
                       [f"bin/{h[0]}" for h in harnesses],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout)
        raise SystemExit("build failed")
    return outs


if __name__ == "__main__":
    v = sys.argv[1]
    if v == "--setup":  # Nothing is kept between runs; see that the tools work.
        build("fast", [("bant_cli", ["bant_cli.cc"], "")])
        sys.exit(0)
    hs = []
    for a in sys.argv[2:]:
        hs.append((a, [a + ".cc"], ""))
    print(build(v, hs))
