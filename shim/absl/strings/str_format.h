// Stand-in: formatting has an empty body (outside every property).
#ifndef VP_SHIM_ABSL_STR_FORMAT_H_
#define VP_SHIM_ABSL_STR_FORMAT_H_
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A>
inline std::string StrFormat(std::string_view, const A &...) { return {}; }
template <typename... A>
inline std::string &StrAppendFormat(std::string *s, std::string_view,
                                    const A &...) { return *s; }
}  // namespace absl
#endif
