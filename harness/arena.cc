// Explorer for the arena and the arena-backed deque: all operation sequences
// up to a depth over a small alphabet, and all container geometries x lengths,
// against std::vector; plus alignment, stability and disjointness of storage.
#include <array>
#include <memory>

#include "bant/util/arena-container.h"
#include "bant/util/arena.h"
#include "common.h"

using bant::Arena;
using bant::ArenaDeque;

struct Wide {
  long double a;
  char tag;
  Wide() = default;
  explicit Wide(int v) : a(v), tag((char)v) {}
  bool operator==(const Wide &o) const { return a == o.a && tag == o.tag; }
};
struct Odd {
  char c[3];
  Odd() = default;
  explicit Odd(int v) : c{(char)v, (char)(v >> 8), (char)(v >> 4)} {}
  bool operator==(const Odd &o) const { return !memcmp(c, o.c, 3); }
};
template <typename T>
T Make(int v) {
  if constexpr (std::is_same_v<T, std::string_view>) {
    static const char buf[70000] = {};
    return std::string_view(buf + v, v % 7);
  } else if constexpr (std::is_pointer_v<T>) {
    static int target[70000];
    return target + v;
  } else {
    return T(v);
  }
}
template <typename T>
bool Same(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, std::string_view>) {
    return a.data() == b.data() && a.size() == b.size();
  } else {
    return a == b;
  }
}
template <typename T>
bool Aligned(const void *p) {
  return ((uintptr_t)p % alignof(T)) == 0;
}

template <typename T, typename D>
bool CheckDeque(D &d, const std::vector<T> &ref, const std::vector<T *> &loc,
                std::string *why) {
  if (d.size() != ref.size()) {
    *why = "size() is " + std::to_string(d.size());
    return false;
  }
  for (size_t i = 0; i < ref.size(); ++i) {
    if (!Same<T>(d[i], ref[i])) {
      *why = "element [" + std::to_string(i) + "] differs";
      return false;
    }
    if (&d[i] != loc[i]) {
      *why = "element [" + std::to_string(i) + "] has moved";
      return false;
    }
    if (!Aligned<T>(&d[i])) {
      *why = "element [" + std::to_string(i) + "] is misaligned";
      return false;
    }
  }
  size_t n = 0;
  for (T &v : d) {
    if (n >= ref.size() || !Same<T>(v, ref[n]) || &v != loc[n]) {
      *why = "iteration differs at position " + std::to_string(n);
      return false;
    }
    ++n;
    vf::Transition();
  }
  if (n != ref.size()) {
    *why = "iteration yields " + std::to_string(n) + " elements";
    return false;
  }
  return true;
}

template <typename T, int MIN, int MAX>
void Geometry(const char *tname, int maxlen) {
  using D = ArenaDeque<T, MIN, MAX>;
  for (int bs : {1, 24, 100, 4096}) {
    if (!VF_BEGIN(std::string("ArenaDeque<") + tname + "," +
                  std::to_string(MIN) + "," + std::to_string(MAX) +
                  "> length 0.." + std::to_string(maxlen) + " arena block " +
                  std::to_string(bs)))
      continue;
    vf::NonTrivial();
    Arena arena(bs);
    auto *d = arena.New<D>();
    std::vector<T> ref;
    std::vector<T *> loc;
    std::string why;
    for (int len = 0; len <= maxlen; ++len) {
      // Full check at each length up to 70 and around block borders later.
      // (Indexing is O(N), so only then.)
      if (len <= 70 ||  (len < 1500 && len % 64 < 2) || (len & (len - 1)) == 0 || len % 16384 == 1 || len == maxlen) {
        vf::Count("evaluations");
        if (!CheckDeque<T>(*d, ref, loc, &why)) {
          vf::Fail("deque", why + " at length " + std::to_string(len));
          return;
        }
        vf::SeeState(vf::Hash(tname, MIN * 1000003ull + MAX * 1009 + len));
      }
      T v = Make<T>(len + 1);
      T &r = d->Append(v, &arena);
      if (!Same<T>(r, v)) vf::Fail("append", "Append() returns another value");
      ref.push_back(v);
      loc.push_back(&r);
      vf::Transition();
    }
  }
}

template <typename T, int MIN, int... MAX>
void Maxes(const char *n, int len, std::integer_sequence<int, MAX...>) {
  (Geometry<T, MIN, MIN + MAX>(n, len), ...);
}
template <typename T, int... MIN>
void Mins(const char *n, int len, std::integer_sequence<int, MIN...>) {
  (Maxes<T, MIN + 1>(n, len, std::integer_sequence<int, 0, 1, 3, 7>()), ...);
}

// --- all operation sequences
struct Blob {
  const unsigned char *p;
  size_t size;
  unsigned char fill;
};
static void Sequence(const std::vector<int> &ops, int bs, size_t depth_print) {
  Arena arena(bs);
  ArenaDeque<int64_t, 1, 4> *a = arena.New<ArenaDeque<int64_t, 1, 4>>();
  ArenaDeque<char, 2, 3> *b = arena.New<ArenaDeque<char, 2, 3>>();
  if (!Aligned<ArenaDeque<int64_t, 1, 4>>(a)) vf::Fail("align", "New<> misaligned");
  std::vector<int64_t> ra;
  std::vector<int64_t *> la;
  std::vector<char> rb;
  std::vector<char *> lb;
  std::vector<Blob> blobs;
  unsigned char fill = 1;
  auto raw = [&](size_t n) {
    unsigned char *p = (unsigned char *)arena.Alloc(n);
    memset(p, fill, n);
    blobs.push_back({p, n, fill});
    ++fill;
  };
  auto obj = [&](auto *p, auto v) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (!Aligned<T>(p)) {
      vf::Fail("align", "object of alignment " + std::to_string(alignof(T)) +
                          " placed at misaligned address");
      return;
    }
    if (!(*p == v)) vf::Fail("new", "constructor argument lost");
    memset((void *)p, fill, sizeof(T));
    blobs.push_back({(unsigned char *)p, sizeof(T), fill});
    ++fill;
  };
  std::string why;
  for (int op : ops) {
    switch (op) {
    case 0: {
      int64_t v = 1000 + (int64_t)ra.size();
      la.push_back(&a->Append(v, &arena));
      ra.push_back(v);
      break;
    }
    case 1: {
      char v = (char)('a' + rb.size());
      lb.push_back(&b->Append(v, &arena));
      rb.push_back(v);
      break;
    }
    case 2: raw(1); break;
    case 3: obj(arena.New<int64_t>(77), (int64_t)77); break;
    case 4: raw(bs + 1); break;
    case 5: obj(arena.New<Wide>(5), Wide(5)); break;
    case 6: raw(13); break;
    case 7: raw(bs); break;
    case 8: arena.Alloc(0); break;
    }
    vf::Transition();
    if (!CheckDeque<int64_t>(*a, ra, la, &why) ||
        !CheckDeque<char>(*b, rb, lb, &why)) {
      vf::Fail("deque-seq", why);
      return;
    }
    for (size_t i = 0; i < blobs.size(); ++i) {
      for (size_t k = 0; k < blobs[i].size; ++k) {
        if (blobs[i].p[k] != blobs[i].fill) {
          vf::Fail("overlap", "allocation " + std::to_string(i) + " of " +
                                std::to_string(blobs[i].size) +
                                " bytes was overwritten");
          return;
        }
      }
      for (size_t j = 0; j < i; ++j) {
        if (blobs[j].size && blobs[i].size &&
            blobs[i].p < blobs[j].p + blobs[j].size &&
            blobs[j].p < blobs[i].p + blobs[i].size) {
          vf::Fail("overlap", "two allocations overlap");
          return;
        }
      }
    }
  }
  vf::SeeState(vf::Hash(std::to_string(ra.size()) + "," +
                        std::to_string(rb.size()) + "," +
                        std::to_string(blobs.size()) + "," +
                        std::to_string(bs)));
}

int main(int argc, char **argv) {
  vf::Init(argc, argv);
  const int len = vf::Thorough() ? 700 : 200;
  Mins<int>("int", len, std::make_integer_sequence<int, 5>());
  Mins<std::string_view>("string_view", len, std::make_integer_sequence<int, 2>());
  Mins<Odd>("3-byte struct", len, std::make_integer_sequence<int, 3>());
  Mins<Wide>("long double struct", len, std::make_integer_sequence<int, 2>());
  Geometry<int, 1, 64>("int", 5 * len);
  Geometry<int *, 1, 64>("pointer", 5 * len);
  Geometry<int, 2, 64>("int", 5 * len);
  Geometry<int, 3, 64>("int", 5 * len);
  Geometry<int, 5, 128>("int", 5 * len);
  Geometry<int *, 5, 64>("pointer", 5 * len);
  Geometry<int, 64, 64>("int", 5 * len);
  Geometry<int, 1, 1000>("int", 20 * len);
  Geometry<char, 1, 32768>("char", 70000);
  Geometry<char, 300, 65535>("char", 70000);

  static const char *const kOp[] = {"appendA", "appendB", "alloc1", "new_i64",
                                    "allocBS+1", "new_wide", "alloc13",
                                    "allocBS", "alloc0"};
  const int nops = 9;
  const int depth = vf::Thorough() ? 7 : 5;
  for (int bs : {1, 16, 40, 64, 1000}) {
    if (vf::Thorough() && bs == 1000) continue;
    std::vector<int> ops(depth, 0);
    // All sequences of exactly "depth" operations (each prefix is checked).
    while (true) {
      if (vf::BeginF([&]() {
            std::string d = "block=" + std::to_string(bs) + ":";
            for (int o : ops) d += std::string(" ") + kOp[o];
            return d;
          })) {
        vf::NonTrivial();
        vf::Count("evaluations");
        Sequence(ops, bs, depth);
      }
      int i = depth - 1;
      while (i >= 0 && ++ops[i] == nops) ops[i--] = 0;
      if (i < 0) break;
    }
  }
  return vf::Finish();
}
