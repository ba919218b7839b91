// Stand-in for absl/log/check.h (the installed abseil 20220623 lacks absl/log).
// A failed CHECK prints a message to stderr and aborts, as the original does.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H
#define VERIF_SHIM_ABSL_LOG_CHECK_H
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif_shim {
class CheckFail {
 public:
  CheckFail(const char *file, int line, const char *what) {
    ss_ << file << ":" << line << " Check failed: " << what << " ";
  }
  [[noreturn]] ~CheckFail() {
    const std::string s = ss_.str() + "\n";
    fwrite(s.data(), 1, s.size(), stderr);
    fflush(stderr);
    abort();
  }
  std::ostream &stream() { return ss_; }

 private:
  std::ostringstream ss_;
};
struct Voidify {
  void operator&(std::ostream &) {}
};
}  // namespace verif_shim
#define VERIF_CHECK_(cond, txt)  \
  (cond) ? (void)0               \
         : ::verif_shim::Voidify() & \
             ::verif_shim::CheckFail(__FILE__, __LINE__, txt).stream()
#define CHECK(c) VERIF_CHECK_((c), #c)
#define CHECK_EQ(a, b) VERIF_CHECK_((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) VERIF_CHECK_((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) VERIF_CHECK_((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) VERIF_CHECK_((a) >= (b), #a " >= " #b)
#define QCHECK(c) CHECK(c)
#ifdef NDEBUG
#define VERIF_DCHECK_(c, t) VERIF_CHECK_((true || (c)), t)
#else
#define VERIF_DCHECK_(c, t) VERIF_CHECK_((c), t)
#endif
#define DCHECK(c) VERIF_DCHECK_((c), #c)
#define DCHECK_EQ(a, b) VERIF_DCHECK_((a) == (b), #a " == " #b)
#define DCHECK_NE(a, b) VERIF_DCHECK_((a) != (b), #a " != " #b)
#define DCHECK_LT(a, b) VERIF_DCHECK_((a) < (b), #a " < " #b)
#define DCHECK_LE(a, b) VERIF_DCHECK_((a) <= (b), #a " <= " #b)
#define DCHECK_GT(a, b) VERIF_DCHECK_((a) > (b), #a " > " #b)
#define DCHECK_GE(a, b) VERIF_DCHECK_((a) >= (b), #a " >= " #b)
#endif
