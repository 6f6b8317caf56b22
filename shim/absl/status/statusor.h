// Stand-in for absl/status/statusor.h (see status.h).
#ifndef VP_SHIM_ABSL_STATUSOR_H_
#define VP_SHIM_ABSL_STATUSOR_H_
#include <cstdlib>
#include <optional>
#include <type_traits>
#include <utility>

#include "absl/status/status.h"

namespace absl {
template <typename T>
class StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status &s) : status_(s) {  // NOLINT
    if (s.ok()) std::abort();
  }
  StatusOr(Status &&s) : status_(s) {  // NOLINT
    if (s.ok()) std::abort();
  }
  template <typename U = T,
            typename = std::enable_if_t<
                std::is_convertible_v<U &&, T> &&
                !std::is_same_v<std::decay_t<U>, StatusOr> &&
                !std::is_same_v<std::decay_t<U>, Status>>>
  StatusOr(U &&u) : value_(std::forward<U>(u)) {}  // NOLINT
  bool ok() const { return status_.ok(); }
  const Status &status() const & { return status_; }
  Status status() && { return status_; }
  const T &value() const & { Check(); return *value_; }
  T &value() & { Check(); return *value_; }
  T &&value() && { Check(); return std::move(*value_); }
  const T &operator*() const & { Check(); return *value_; }
  T &operator*() & { Check(); return *value_; }
  T &&operator*() && { Check(); return std::move(*value_); }
  const T *operator->() const { Check(); return &*value_; }
  T *operator->() { Check(); return &*value_; }
  template <typename U>
  T value_or(U &&d) const & {
    return ok() ? *value_ : static_cast<T>(std::forward<U>(d));
  }
  void IgnoreError() const {}

 private:
  void Check() const { if (!ok()) std::abort(); }
  Status status_;
  std::optional<T> value_;
};
}  // namespace absl
#endif
