// The text forms, with Abseil's number formatting replaced by one that writes a
// value's bytes, so that a text shows a value exactly if its bytes occur in it.
// /repo's types.cc is compiled once more, against that formatting.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <limits>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <variant>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "vp.h"
namespace std {
struct vp_ostream { std::string s; };
}
namespace vpt {
template <typename T> inline void put(std::string &s, const T &v);
struct Sink {
  std::string &s;
  void Append(std::string_view t) { s.append(t.data(), t.size()); }
  void Append(size_t n, char c) { s.append(n, c); }
};
template <typename T> inline void bytes(std::string &s, char tag, T v) {
  char b[sizeof(T)];
  std::memcpy(b, &v, sizeof v);
  s.push_back(tag);
  s.append(b, sizeof b);
}
template <typename T> inline void put(std::string &s, const T &v) {
  if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) bytes<double>(s, '#', v);
  else if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, char>) s.push_back((char)v);
  else if constexpr (std::is_integral_v<T>) bytes<int64_t>(s, '%', (int64_t)v);
  else if constexpr (std::is_convertible_v<const T &, std::string_view>) { std::string_view t = v; s.append(t.data(), t.size()); }
  else { Sink k{s}; AbslStringify(k, v); }
}
template <typename... A> inline std::string cat(const A &...a) { std::string s; (put(s, a), ...); return s; }
inline void rest(std::string &s, std::string_view f) { s.append(f.data(), f.size()); }
template <typename T, typename... A> inline void rest(std::string &s, std::string_view f, const T &v, const A &...a) {
  size_t i = 0;
  while (i < f.size() && !(f[i] == '%' && i + 1 < f.size() && f[i + 1] != '%')) s.push_back(f[i++]);
  if (i < f.size()) {
    ++i;
    int prec = -1;
    while (i < f.size() && !((f[i] >= 'a' && f[i] <= 'z') || (f[i] >= 'A' && f[i] <= 'Z'))) {
      if (f[i] == '.') prec = 0;
      else if (prec >= 0 && f[i] >= '0' && f[i] <= '9') prec = prec * 10 + f[i] - '0';
      ++i;
    }
    char conv = i < f.size() ? f[i] : 'v';
    ++i;
    // a fixed number of decimals, or fewer than six digits, does not show every value
    if constexpr (std::is_floating_point_v<T>) {
      if (conv == 'f' || conv == 'F' || (prec >= 0 && prec < 5)) { bytes<double>(s, '~', v); return rest(s, f.substr(std::min(i, f.size())), a...); }
    }
    put(s, v);
  }
  rest(s, f.substr(std::min(i, f.size())), a...);
}
inline void subst(std::string &s, std::string_view f, const std::string *v, int n) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size() && f[i + 1] >= '0' && f[i + 1] <= '9') { int k = f[++i] - '0'; if (k < n) s += v[k]; }
    else s.push_back(f[i]);
  }
}
template <typename... A> inline std::string sub(std::string_view f, const A &...a) {
  std::string v[sizeof...(A) + 1] = {cat(a)...}, s;
  subst(s, f, v, sizeof...(A));
  return s;
}
}  // namespace vpt
namespace absl_text {
using absl::Status; using absl::StatusOr; using absl::StatusCode; using absl::OkStatus; using std::string_view;
using absl::InvalidArgumentError; using absl::FailedPreconditionError;
template <typename... A> inline std::string StrCat(const A &...a) { return vpt::cat(a...); }
template <typename... A> inline void StrAppend(std::string *s, const A &...a) { *s += vpt::cat(a...); }
template <typename... A> inline std::string StrFormat(std::string_view f, const A &...a) { std::string s; vpt::rest(s, f, a...); return s; }
template <typename... A> inline std::string &StrAppendFormat(std::string *s, std::string_view f, const A &...a) { vpt::rest(*s, f, a...); return *s; }
template <typename... A> inline std::string Substitute(std::string_view f, const A &...a) { return vpt::sub(f, a...); }
}  // namespace absl_text
namespace std {
template <typename T> inline auto operator<<(vp_ostream &o, const T &v) -> std::enable_if_t<std::is_arithmetic_v<T> || std::is_convertible_v<const T &, std::string_view>, vp_ostream &> { vpt::put(o.s, v); return o; }
}
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/substitute.h"
#define absl absl_text
#define stroke_model text_model
#define ostream vp_ostream
#include "ink_stroke_modeler/types.cc"
#include "ink_stroke_modeler/internal/internal_types.cc"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/matrix.h"
#undef absl
#undef stroke_model
#undef ostream
using namespace ink::text_model;
static char nm[8][16];
static int nn = 0;
static const char *N(const char *p) { char *b = nm[nn++ % 8]; std::strcpy(b, p); return b; }
static bool shows(const std::string &s, const std::string &what) {
  bool any = false;
  for (size_t o = 0; o + what.size() <= s.size(); ++o) {
    bool here = true;
    for (size_t k = 0; k < what.size(); ++k) here &= s[o + k] == what[k];
    any |= here;
  }
  return any;
}
static void check(const std::string &s, double v, const char *l) { vp_check(shows(s, vpt::cat(v)), l); }
template <typename T> static std::string streamed(const T &v) { std::vp_ostream o; o << v; return o.s; }
template <typename T> static std::string appended(const T &v) { return vpt::cat(v); }
static bool eq(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i];
  return r;
}
template <typename T> static std::string text(const T &v) {
  std::string s = ToFormattedString(v);
  vp_check(eq(s, streamed(v)), "operator<< writes the text form");
  vp_check(eq(s, appended(v)), "AbslStringify writes the text form");
  return s;
}
// any value but NaN (whose payload a text does not show)
static float f(const char *n) { return vp_f32(n, -3.4e38, 3.4e38); }
static double d(const char *n) { return vp_f64(n, -1.7e308, 1.7e308); }
static Vec2 v2(const char *x, const char *y) { return {f(x), f(y)}; }
static void vec(const std::string &s, Vec2 v, const char *l) { check(s, v.x, l); check(s, v.y, l); check(s, v.x, l); vp_check(shows(s, ToFormattedString(v)), l); }
void vp_harness(void) {
  int c = vp_case();
  if (c == 0) { Vec2 v = v2("x", "y"); std::string s = text(v); check(s, v.x, "x is shown"); check(s, v.y, "y is shown"); }
  else if (c == 1) { double t = d("t"); check(text(Time(t)), t, "a time is shown"); }
  else if (c == 2) { double t = d("t"); check(text(Duration(t)), t, "a duration is shown"); }
  else if (c == 3) {
    int a = vp_i32("a", -2147483647 - 1, 2147483647), b = vp_i32("b", -2147483647 - 1, 2147483647);
    std::string s = text((Input::EventType)a), u = text((Input::EventType)b);
    vp_check(eq(s, u) == (a == b), "different event types have different texts");
    vp_check(s.size() > 0, "an event type is shown");
  } else if (c == 4) {
    int e = vp_i32("e", -3, 9);
    Input i{.event_type = (Input::EventType)e, .position = v2("x", "y"), .time = Time(d("t")), .pressure = f("pr"), .tilt = f("ti"), .orientation = f("or")};
    std::string s = text(i);
    vp_check(shows(s, ToFormattedString(i.event_type)), "the event type is shown");
    vec(s, i.position, "the position is shown"); check(s, i.time.Value(), "the time is shown");
    check(s, i.pressure, "the pressure is shown"); check(s, i.tilt, "the tilt is shown"); check(s, i.orientation, "the orientation is shown");
  } else if (c == 5) {
    Result r{.position = v2("x", "y"), .velocity = v2("vx", "vy"), .acceleration = v2("ax", "ay"), .time = Time(d("t")), .pressure = f("pr"), .tilt = f("ti"), .orientation = f("or")};
    std::string s = text(r);
    vec(s, r.position, "the position is shown"); vec(s, r.velocity, "the velocity is shown"); vec(s, r.acceleration, "the acceleration is shown");
    check(s, r.time.Value(), "the time is shown");
    check(s, r.pressure, "the pressure is shown"); check(s, r.tilt, "the tilt is shown"); check(s, r.orientation, "the orientation is shown");
  } else if (c == 6) {
    TipState t{.position = v2("x", "y"), .velocity = v2("vx", "vy"), .acceleration = v2("ax", "ay"), .time = Time(d("t"))};
    std::string s = ToFormattedString(t);
    vec(s, t.position, "the tip's position is shown"); vec(s, t.velocity, "the tip's velocity is shown"); vec(s, t.acceleration, "the tip's acceleration is shown"); check(s, t.time.Value(), "the tip's time is shown");
  } else if (c == 7) {
    StylusState t{.pressure = f("pr"), .tilt = f("ti"), .orientation = f("or")};
    std::string s = ToFormattedString(t);
    check(s, t.pressure, "the stylus pressure is shown"); check(s, t.tilt, "the stylus tilt is shown"); check(s, t.orientation, "the stylus orientation is shown");
  } else if (c == 8) {
    Vec4 v{d("a"), d("b"), d("c"), d("d")};
    std::string s = streamed(v);
    for (int i = 0; i < 4; ++i) check(s, v[i], "every entry of a vector is shown");
  } else if (c == 9) {
    static const char *n[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "ma", "mb", "mc", "md", "me", "mf"};
    double m[16];
    for (int i = 0; i < 16; ++i) m[i] = d(n[i]);
    Matrix4 M(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11], m[12], m[13], m[14], m[15]);
    std::string s = streamed(M);
    for (int i = 0; i < 16; ++i) check(s, m[i], "every entry of a matrix is shown");
  }
  vp_reach("end");
}
