// Stand-in for absl/status/status.h, used when the project's sources are
// compiled for symbolic execution and for native replay. It keeps the status
// *code* and drops the message text (formatting is outside every property).
#ifndef VP_SHIM_ABSL_STATUS_H_
#define VP_SHIM_ABSL_STATUS_H_
#include <ostream>
#include <string>
#include <string_view>

#include "absl/strings/string_view.h"

namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16
};

class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, std::string_view) : code_(code) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return {}; }
  std::string ToString() const { return {}; }
  void IgnoreError() const {}
  void Update(const Status &other) { if (ok()) code_ = other.code_; }
  friend bool operator==(const Status &a, const Status &b) {
    return a.code_ == b.code_;
  }
  friend bool operator!=(const Status &a, const Status &b) {
    return a.code_ != b.code_;
  }

 private:
  StatusCode code_;
};
inline std::ostream &operator<<(std::ostream &os, const Status &) { return os; }

inline Status OkStatus() { return Status(); }
#define VP_SHIM_ERR(Name)                                              \
  inline Status Name##Error(std::string_view m) {                      \
    return Status(StatusCode::k##Name, m);                             \
  }                                                                    \
  inline bool Is##Name(const Status &s) {                              \
    return s.code() == StatusCode::k##Name;                            \
  }
VP_SHIM_ERR(Cancelled)
VP_SHIM_ERR(Unknown)
VP_SHIM_ERR(InvalidArgument)
VP_SHIM_ERR(DeadlineExceeded)
VP_SHIM_ERR(NotFound)
VP_SHIM_ERR(AlreadyExists)
VP_SHIM_ERR(PermissionDenied)
VP_SHIM_ERR(ResourceExhausted)
VP_SHIM_ERR(FailedPrecondition)
VP_SHIM_ERR(Aborted)
VP_SHIM_ERR(OutOfRange)
VP_SHIM_ERR(Unimplemented)
VP_SHIM_ERR(Internal)
VP_SHIM_ERR(Unavailable)
VP_SHIM_ERR(DataLoss)
VP_SHIM_ERR(Unauthenticated)
#undef VP_SHIM_ERR
}  // namespace absl
#endif
