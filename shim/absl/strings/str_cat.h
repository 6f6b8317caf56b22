// Stand-in: formatting has an empty body (outside every property).
#ifndef VP_SHIM_ABSL_STR_CAT_H_
#define VP_SHIM_ABSL_STR_CAT_H_
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A>
inline std::string StrCat(const A &...) { return {}; }
template <typename... A>
inline void StrAppend(std::string *, const A &...) {}
}  // namespace absl
#endif
