// Stand-in: formatting has an empty body (outside every property).
#ifndef VP_SHIM_ABSL_SUBSTITUTE_H_
#define VP_SHIM_ABSL_SUBSTITUTE_H_
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A>
inline std::string Substitute(std::string_view, const A &...) { return {}; }
template <typename... A>
inline void SubstituteAndAppend(std::string *, std::string_view, const A &...) {}
}  // namespace absl
#endif
