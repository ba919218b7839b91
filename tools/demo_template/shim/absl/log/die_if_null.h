#ifndef VERIF_SHIM_DIE_IF_NULL_H
#define VERIF_SHIM_DIE_IF_NULL_H
#include <utility>

#include "absl/log/check.h"
namespace verif_shim {
template <typename T>
T DieIfNull(const char *file, int line, const char *what, T &&t) {
  if (t == nullptr) CheckFail(file, line, what).stream() << "is null";
  return std::forward<T>(t);
}
}  // namespace verif_shim
#define ABSL_DIE_IF_NULL(v) \
  ::verif_shim::DieIfNull(__FILE__, __LINE__, #v, (v))
#endif
