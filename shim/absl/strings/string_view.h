#ifndef VP_SHIM_ABSL_STRING_VIEW_H_
#define VP_SHIM_ABSL_STRING_VIEW_H_
#include <string_view>
namespace absl { using std::string_view; }
#endif
