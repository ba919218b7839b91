#ifndef VERIF_SHIM_ABSL_LOG_LOG_H
#define VERIF_SHIM_ABSL_LOG_LOG_H
#include "absl/log/check.h"
#include <iostream>
#define VERIF_LOG_INFO std::cerr
#define VERIF_LOG_WARNING std::cerr
#define VERIF_LOG_ERROR std::cerr
#define VERIF_LOG_FATAL ::verif_shim::CheckFail(__FILE__, __LINE__, "FATAL").stream()
#define LOG(x) VERIF_LOG_##x
#endif
