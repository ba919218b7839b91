// Declarations for the installed libre2.so.10 (2023-03-01 ABI), whose headers
// are not in this sandbox. Only the part of the interface that bant uses (plus
// some neighbours). The object is opaque except for the two fields read by
// ok() and error(), whose place is asserted by shim/selftest.cc.
#ifndef VERIF_SHIM_RE2_H
#define VERIF_SHIM_RE2_H
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <iterator>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

namespace re2 {
class StringPiece {
 public:
  using value_type = char;
  using size_type = size_t;
  static const size_type npos = static_cast<size_type>(-1);
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string &s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char *s) : data_(s), size_(s ? strlen(s) : 0) {}
  StringPiece(const char *s, size_type n) : data_(s), size_(n) {}
  const char *data() const { return data_; }
  size_type size() const { return size_; }
  std::string_view sv() const { return {data_, size_}; }
  operator std::string_view() const { return sv(); }

 private:
  const char *data_;
  size_type size_;
};

namespace re2_internal {
inline bool ParseStringView(const char *s, size_t n, void *dest) {
  if (dest) *static_cast<std::string_view *>(dest) = std::string_view(s, n);
  return true;
}
inline bool ParseString(const char *s, size_t n, void *dest) {
  if (dest) static_cast<std::string *>(dest)->assign(s, n);
  return true;
}
inline bool ParseInt(const char *s, size_t n, void *dest) {
  std::string v(s, n);
  char *e;
  long r = strtol(v.c_str(), &e, 10);
  if (v.empty() || *e) return false;
  if (dest) *static_cast<int *>(dest) = (int)r;
  return true;
}
inline bool ParseNull(const char *, size_t, void *) { return true; }
}  // namespace re2_internal

class RE2 {
 public:
  class Arg {
   public:
    Arg() : arg_(nullptr), parser_(&re2_internal::ParseNull) {}
    Arg(std::nullptr_t) : Arg() {}
    Arg(std::string_view *p) : arg_(p), parser_(&re2_internal::ParseStringView) {}
    Arg(std::string *p) : arg_(p), parser_(&re2_internal::ParseString) {}
    Arg(int *p) : arg_(p), parser_(&re2_internal::ParseInt) {}

   private:
    typedef bool (*Parser)(const char *, size_t, void *);
    void *arg_;
    Parser parser_;
  };
  enum ErrorCode { NoError = 0 };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };

  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options()
        : max_mem_(8 << 20), encoding_(EncodingUTF8), posix_syntax_(false),
          longest_match_(false), log_errors_(true), literal_(false),
          never_nl_(false), dot_nl_(false), never_capture_(false),
          case_sensitive_(true), perl_classes_(false), word_boundary_(false),
          one_line_(false) {}
    Options(CannedOptions opt) : Options() {
      if (opt == Latin1) encoding_ = EncodingLatin1;
      posix_syntax_ = longest_match_ = opt == POSIX;
      log_errors_ = opt != Quiet;
    }
    void set_log_errors(bool b) { log_errors_ = b; }
    void set_literal(bool b) { literal_ = b; }
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    void set_never_nl(bool b) { never_nl_ = b; }
    void set_longest_match(bool b) { longest_match_ = b; }
    void set_encoding(Encoding e) { encoding_ = e; }
    void set_max_mem(int64_t m) { max_mem_ = m; }

   private:
    int64_t max_mem_;
    Encoding encoding_;
    bool posix_syntax_, longest_match_, log_errors_, literal_, never_nl_,
      dot_nl_, never_capture_, case_sensitive_, perl_classes_, word_boundary_,
      one_line_;
  };

  RE2(const char *pattern);
  RE2(const std::string &pattern);
  RE2(const StringPiece &pattern);
  RE2(std::string_view pattern) : RE2(StringPiece(pattern)) {}
  RE2(const StringPiece &pattern, const Options &options);
  RE2(std::string_view p, const Options &o) : RE2(StringPiece(p), o) {}
  RE2(const std::string &p, const Options &o) : RE2(StringPiece(p), o) {}
  RE2(const char *p, const Options &o) : RE2(StringPiece(p), o) {}
  ~RE2();
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;

  bool ok() const {
    uint32_t v;
    memcpy(&v, opaque_ + 68, 4);
    return (v & 0x1fffffffu) == 0;
  }
  const std::string &pattern() const { return *PtrAt(0); }
  const std::string &error() const { return *PtrAt(48); }

  static bool FullMatchN(const StringPiece &text, const RE2 &re,
                         const Arg *const args[], int n);
  static bool PartialMatchN(const StringPiece &text, const RE2 &re,
                            const Arg *const args[], int n);
  static bool ConsumeN(StringPiece *input, const RE2 &re,
                       const Arg *const args[], int n);
  static bool FindAndConsumeN(StringPiece *input, const RE2 &re,
                              const Arg *const args[], int n);
  static bool Replace(std::string *str, const RE2 &re, const StringPiece &rw);
  static int GlobalReplace(std::string *str, const RE2 &re,
                           const StringPiece &rw);
  static std::string QuoteMeta(const StringPiece &unquoted);

  template <typename... A>
  static bool FullMatch(const StringPiece &text, const RE2 &re, A &&...a) {
    return Apply(FullMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool PartialMatch(const StringPiece &text, const RE2 &re, A &&...a) {
    return Apply(PartialMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool FindAndConsume(std::string_view *input, const RE2 &re, A &&...a) {
    StringPiece sp(*input);
    const bool r = Apply(FindAndConsumeN, &sp, re, Arg(std::forward<A>(a))...);
    *input = sp.sv();
    return r;
  }
  template <typename... A>
  static bool Consume(std::string_view *input, const RE2 &re, A &&...a) {
    StringPiece sp(*input);
    const bool r = Apply(ConsumeN, &sp, re, Arg(std::forward<A>(a))...);
    *input = sp.sv();
    return r;
  }

 private:
  template <typename F, typename SP, typename... A>
  static bool Apply(F f, SP sp, const RE2 &re, const A &...a) {
    if constexpr (sizeof...(A) == 0) {
      return f(sp, re, nullptr, 0);
    } else {
      const Arg *const args[] = {&a...};
      return f(sp, re, args, sizeof...(A));
    }
  }
  const std::string *PtrAt(int off) const {
    const std::string *p;
    memcpy(&p, opaque_ + off, sizeof(p));
    return p;
  }
  alignas(16) unsigned char opaque_[512];
};

class LazyRE2 {
 public:
  RE2 &operator*() const { return *get(); }
  RE2 *operator->() const { return get(); }
  RE2 *get() const {
    std::call_once(once_, [this]() {
      ptr_ = options_ == RE2::DefaultOptions
               ? new RE2(pattern_)
               : new RE2(pattern_, RE2::Options(options_));
    });
    return ptr_;
  }
  const char *pattern_;
  RE2::CannedOptions options_ = RE2::DefaultOptions;
  mutable RE2 *ptr_ = nullptr;
  mutable std::once_flag once_ = {};
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
#endif
