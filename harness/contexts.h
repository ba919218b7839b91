// All ways to put one expression into a bigger one ("contexts").
#ifndef VERIF_CONTEXTS_H
#define VERIF_CONTEXTS_H
#include <functional>

#include "gen.h"
namespace gen {
using Ctx = std::function<P(P)>;
inline const std::vector<std::string> &Ops() {
  static const std::vector<std::string> o = {
    "+", "-", "*", "/", "%", "<", "<=", "==", ">=", ">", "!=", "in", "not in", "and", "or", "|"};
  return o;
}
// Contexts with all operators ("full") or one each of the classes.
inline std::vector<Ctx> Contexts(bool full) {
  std::vector<Ctx> r;
  const P a = Id("a"), b = Id("bb"), s = S("s"), n = Int("7", "7");
  for (auto &op : Ops()) {
    if (!full && op != "+" && op != "-" && op != "not in" && op != "in") continue;
    r.push_back([=](P x) { return Bin(op, x, a); });
    r.push_back([=](P x) { return Bin(op, s, x); });
  }
  r.push_back([=](P x) { return Bin(".", x, a); });
  r.push_back([=](P x) { return Bin(".", x, Call("f", {a})); });
  r.push_back([=](P x) { return Bin(".", a, Call("f", {x})); });
  r.push_back([=](P x) { return Un("-", x); });
  r.push_back([=](P x) { return Un("not", x); });
  r.push_back([=](P x) { return Sub(x, n); });
  r.push_back([=](P x) { return Sub(a, x); });
  r.push_back([=](P x) { return Slice(x, n, n); });
  r.push_back([=](P x) { return Slice(a, x, nullptr); });
  r.push_back([=](P x) { return Slice(a, nullptr, x); });
  r.push_back([=](P x) { return Slice(a, x, n); });
  r.push_back([=](P x) { return Slice(a, n, x); });
  r.push_back([=](P x) { return Tern(x, a, n); });
  r.push_back([=](P x) { return Tern(a, x, n); });
  r.push_back([=](P x) { return Tern(a, n, x); });
  r.push_back([=](P x) { return Tern(x, n, nullptr); });
  r.push_back([=](P x) { return Tern(a, x, nullptr); });
  r.push_back([=](P x) { return List({x}); });
  r.push_back([=](P x) { return List({x, a}); });
  r.push_back([=](P x) { return List({s, x}); });
  r.push_back([=](P x) { return Tuple({x}); });
  r.push_back([=](P x) { return Tuple({x, a}); });
  r.push_back([=](P x) { return Tuple({s, x}); });
  r.push_back([=](P x) { return Map({x, a}); });
  r.push_back([=](P x) { return Map({s, x}); });
  r.push_back([=](P x) { return Map({s, a, s, x}); });
  r.push_back([=](P x) { return Map({x, a, s, n}); });
  r.push_back([=](P x) { return Call("f", {x}); });
  r.push_back([=](P x) { return Call("f", {x, a}); });
  r.push_back([=](P x) { return Call("f", {s, x}); });
  r.push_back([=](P x) { return Call("f", {x}, {"k"}); });
  r.push_back([=](P x) { return Call("f", {a, x, n}, {"", "k", "l"}); });
  r.push_back([=](P x) { return Compr("list", {x, a, nullptr}, {{"v"}}); });
  r.push_back([=](P x) { return Compr("list", {a, x, nullptr}, {{"v"}}); });
  r.push_back([=](P x) { return Compr("list", {a, x, b}, {{"v", "w"}}); });
  r.push_back([=](P x) { return Compr("list", {a, b, x}, {{"v", "w"}}, true); });
  r.push_back([=](P x) { return Compr("list", {a, x, nullptr, b, nullptr}, {{"v"}, {"w"}}); });
  r.push_back([=](P x) { return Compr("list", {a, b, x, b, nullptr}, {{"v"}, {"w"}}); });
  r.push_back([=](P x) { return Compr("list", {a, b, nullptr, x, b}, {{"v"}, {"w"}}); });
  r.push_back([=](P x) { return Compr("map", {x, a, b, nullptr}, {{"v"}}); });
  r.push_back([=](P x) { return Compr("map", {a, x, b, nullptr}, {{"v", "w"}}); });
  r.push_back([=](P x) { return Compr("map", {a, s, x, n}, {{"v"}}); });
  return r;
}
inline std::vector<P> Leaves() {
  return {Id("x"), Int("42", "42"), S("str"), List({}), Map({}), Tuple({}), Call("g", {})};
}
// Two-hole contexts.
using Ctx2 = std::function<P(P, P)>;
inline std::vector<Ctx2> Contexts2() {
  std::vector<Ctx2> r;
  const P a = Id("a");
  for (const char *op : {"+", "-", "in", "not in", "and"})
    r.push_back([=](P x, P y) { return Bin(op, x, y); });
  r.push_back([=](P x, P y) { return Sub(x, y); });
  r.push_back([=](P x, P y) { return Slice(a, x, y); });
  r.push_back([=](P x, P y) { return Tern(x, y, a); });
  r.push_back([=](P x, P y) { return Tern(a, x, y); });
  r.push_back([=](P x, P y) { return Tern(x, a, y); });
  r.push_back([=](P x, P y) { return List({x, y}); });
  r.push_back([=](P x, P y) { return Tuple({x, y}); });
  r.push_back([=](P x, P y) { return Map({x, y}); });
  r.push_back([=](P x, P y) { return Call("f", {x, y}, {"", "k"}); });
  r.push_back([=](P x, P y) { return Compr("list", {x, y, nullptr}, {{"v"}}); });
  r.push_back([=](P x, P y) { return Compr("list", {a, x, y}, {{"v"}}); });
  r.push_back([=](P x, P y) { return Compr("map", {a, x, y, nullptr}, {{"v"}}); });
  return r;
}

// Calls cb with all expressions: context chains of up to "depth", over all
// leaves; plus two-hole contexts of all pairs of one-context expressions.
inline void ForAll(int depth, const std::function<void(const std::function<P()> &)> &cb) {
  const auto full = Contexts(true);
  const auto lite = Contexts(false);
  const auto leaves = Leaves();
  const auto two = Contexts2();
  for (auto &l : leaves) cb([&]() { return l; });
  std::vector<size_t> idx;
  std::function<void(int)> rec = [&](int d) {
    const auto &cs = d <= 2 ? full : lite;
    idx.assign(d, 0);
    for (;;) {
      for (size_t li = 0; li < (d <= 2 ? leaves.size() : d == 3 ? 3 : 1); ++li) {
        cb([&]() {
          P e = leaves[li];
          for (size_t i : idx) e = cs[i](e);
          return e;
        });
      }
      int i = d - 1;
      while (i >= 0 && ++idx[i] == cs.size()) idx[i--] = 0;
      if (i < 0) break;
    }
  };
  for (int d = 1; d <= depth; ++d) rec(d);
  for (size_t t = 0; t < two.size(); ++t)
    for (size_t i = 0; i < lite.size(); ++i)
      for (size_t j = 0; j < lite.size(); ++j)
        cb([&]() { return two[t](lite[i](Id("x")), lite[j](Id("y"))); });
}
}  // namespace gen
#endif
