"""Builds bant of the current directory into a scratch directory: OUT/bant and,
if given, OUT/demo from a program. usage: mk.py OUT [demo.cc]"""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.abspath(sys.argv[1])
gen = os.path.join(out, "gen")
os.makedirs(os.path.join(gen, "bant"), exist_ok=True)
open(os.path.join(gen, "bant", "generated-build-version.h"), "w").write('#define BANT_BUILD_VERSION "demo"\n')


def patch(name, pairs):
    # The installed abseil has its own string_view; let it convert.
    t = open("/usr/include/absl/" + name).read()
    for a, b in pairs:
        assert a in t
        t = t.replace(a, b, 1)
    dst = os.path.join(gen, "absl", name)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(t)


patch("strings/string_view.h", [
    ("class string_view {", "}}\n#include <string_view>\nnamespace absl {\n"
     "ABSL_NAMESPACE_BEGIN\nclass string_view {"),
    ("  // Iterators\n",
     "  constexpr string_view(std::string_view v)\n    : ptr_(v.data()), length_(v.size()) {}\n"
     "  constexpr operator std::string_view() const {\n"
     "    return std::string_view(ptr_, length_);\n  }\n  // Iterators\n")])
patch("strings/str_cat.h", [
    ("  AlphaNum(absl::string_view pc) : piece_(pc) {}",
     "  AlphaNum(std::string_view pc) : piece_(pc) {}\n  AlphaNum(absl::string_view pc) : piece_(pc) {}")])
patch("strings/internal/str_split_internal.h", [
    ("  ConvertibleToStringView(absl::string_view s)",
     "  ConvertibleToStringView(std::string_view s) : value_(s) {}\n  ConvertibleToStringView(absl::string_view s)")])
cxx = ["g++", "-std=c++23", "-fno-rtti", "-O0", "-w", f"-I{gen}", f"-I{here}/shim", "-I."]
srcs = [os.path.join(r, f) for r, _, fs in os.walk("bant") for f in fs
        if f.endswith(".cc") and "_test." not in f]


def cc(s):
    o = os.path.join(out, s.replace("/", "_") + ".o")
    if subprocess.run(cxx + ["-c", s, "-o", o]).returncode:
        sys.exit("compilation failed")
    return o


with ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(cc, srcs))
link = ["-Wl,--start-group"] + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a")) + \
    ["-Wl,--end-group", "-l:libre2.so.10", "-lpthread"]
subprocess.run(["g++", "-o", out + "/bant"] + objs + link, check=True)
if len(sys.argv) > 2:
    lib = [o for o in objs if not o.endswith("bant_bant.cc.o")]
    subprocess.run(cxx + [sys.argv[2]] + lib + link + ["-o", out + "/demo"], check=True)
