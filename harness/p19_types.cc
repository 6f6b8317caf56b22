// Value types: arithmetic, comparison, validation, angles, matrices.
#include "sm.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/matrix.h"
static Vec2 any2(const char *n) { return {vp_f32_any(Nm(n, 0)), vp_f32_any(Nm(n, 1))}; }
static bool sameV(Vec2 a, float x, float y) { return sameF(a.x, x) & sameF(a.y, y); }
static const char *kF[] = {"position x", "position y", "time", "pressure", "tilt", "orientation", "velocity x", "velocity y", "acceleration x", "acceleration y"};
// k-th of six orders of two doubles
static void order(double a, double b, bool eq, bool ne, bool lt, bool gt, bool le, bool ge) {
  vp_check(eq == (a == b), "== compares the values");
  vp_check(ne == (a != b), "!= is the opposite of ==");
  vp_check(lt == (a < b), "< compares the values");
  vp_check(gt == (a > b), "> compares the values");
  vp_check(le == (a <= b), "<= compares the values");
  vp_check(ge == (a >= b), ">= compares the values");
}
static Input::EventType ev(int i) { return static_cast<Input::EventType>(i); }
using ink::stroke_model::Vec4;
using ink::stroke_model::Matrix4;
static Vec4 v4(const char *n) { return {vp_f64(Nm(n, 0), -1e3, 1e3), vp_f64(Nm(n, 1), -1e3, 1e3), vp_f64(Nm(n, 2), -1e3, 1e3), vp_f64(Nm(n, 3), -1e3, 1e3)}; }
static void fill(Matrix4 &m, const char *n, double e[4][4]) {
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) m.At(i, j) = e[i][j] = vp_f64(Nm(n, 10 * (i + 1) + j), -1e3, 1e3);
}
void vp_harness() {
  int c = vp_case();
  if (c == 0) {
    Vec2 a = any2("a"), b = any2("b");
    float k = vp_f32_any("k");
    vp_check(sameV(a + b, a.x + b.x, a.y + b.y), "sum");
    vp_check(sameV(a - b, a.x - b.x, a.y - b.y), "difference");
    vp_check(sameV(k * a, k * a.x, k * a.y), "scaled");
    vp_check(sameV(a * k, k * a.x, k * a.y), "scaled");
    vp_check(sameV(a / k, a.x / k, a.y / k), "divided");
    Vec2 d = a; d += b; vp_check(sameV(d, a.x + b.x, a.y + b.y), "+=");
    d = a; d -= b; vp_check(sameV(d, a.x - b.x, a.y - b.y), "-=");
    d = a; d *= k; vp_check(sameV(d, k * a.x, k * a.y), "*=");
    d = a; d /= k; vp_check(sameV(d, a.x / k, a.y / k), "/=");
    d = a; d += d; vp_check(sameV(d, a.x + a.x, a.y + a.y), "+= itself");
    vp_check((a == b) == ((a.x == b.x) & (a.y == b.y)), "equal exactly when both coordinates are");
    vp_check((a != b) == !((a.x == b.x) & (a.y == b.y)), "different exactly when a coordinate is");
    vp_check(a.IsFinite() == (fin(a.x) & fin(a.y)), "finite exactly when both coordinates are");
  } else if (c == 1) {
    double x = vp_f64_any("x"), y = vp_f64_any("y"), k = vp_f64_any("k");
    Duration a(x), b(y), d;
    vp_check(sameD(a.Value(), x), "value");
    vp_check(sameD((a + b).Value(), x + y), "sum"); vp_check(sameD((a - b).Value(), x - y), "difference");
    vp_check(sameD((a * k).Value(), x * k) & sameD((k * a).Value(), k * x), "scaled"); vp_check(sameD((a / k).Value(), x / k), "divided");
    d = a; d += b; vp_check(sameD(d.Value(), x + y), "+="); d = a; d -= b; vp_check(sameD(d.Value(), x - y), "-=");
    d = a; d *= k; vp_check(sameD(d.Value(), x * k), "*="); d = a; d /= k; vp_check(sameD(d.Value(), x / k), "/=");
    order(x, y, a == b, a != b, a < b, a > b, a <= b, a >= b);
  } else if (c == 2) {
    double x = vp_f64_any("x"), y = vp_f64_any("y");
    Time a(x), b(y), d;
    Duration e(y);
    vp_check(sameD(a.Value(), x), "value");
    vp_check(sameD((a + e).Value(), x + y) & sameD((e + a).Value(), x + y), "later"); vp_check(sameD((a - e).Value(), x - y), "earlier");
    vp_check(sameD((a - b).Value(), x - y), "time between");
    d = a; d += e; vp_check(sameD(d.Value(), x + y), "+="); d = a; d -= e; vp_check(sameD(d.Value(), x - y), "-=");
    order(x, y, a == b, a != b, a < b, a > b, a <= b, a >= b);
  } else if (c == 3) {
    int e0 = vp_i32("e0", 0, 2), e1 = vp_i32("e1", 0, 2);
    Vec2 p = any2("p"), q = any2("q");
    double t = vp_f64_any("t"), u = vp_f64_any("u");
    float f[6];
    for (int i = 0; i < 6; ++i) f[i] = vp_f32_any(Nm("f", i));
    Input a{.event_type = ev(e0), .position = p, .time = Time(t), .pressure = f[0], .tilt = f[1], .orientation = f[2]};
    Input b{.event_type = ev(e1), .position = q, .time = Time(u), .pressure = f[3], .tilt = f[4], .orientation = f[5]};
    bool w = (e0 == e1) & (p.x == q.x) & (p.y == q.y) & (t == u) & (f[0] == f[3]) & (f[1] == f[4]) & (f[2] == f[5]);
    vp_check((a == b) == w, "inputs are equal exactly when all fields are");
    vp_check((a != b) == !w, "inputs differ exactly when a field does");
  } else if (c == 4) {
    Vec2 p[6];
    for (int i = 0; i < 6; ++i) p[i] = any2(i == 0 ? "p" : i == 1 ? "q" : i == 2 ? "v" : i == 3 ? "w" : i == 4 ? "a" : "b");
    double t = vp_f64_any("t"), u = vp_f64_any("u");
    float f[6];
    for (int i = 0; i < 6; ++i) f[i] = vp_f32_any(Nm("f", i));
    Result a{.position = p[0], .velocity = p[2], .acceleration = p[4], .time = Time(t), .pressure = f[0], .tilt = f[1], .orientation = f[2]};
    Result b{.position = p[1], .velocity = p[3], .acceleration = p[5], .time = Time(u), .pressure = f[3], .tilt = f[4], .orientation = f[5]};
    bool w = (t == u) & (f[0] == f[3]) & (f[1] == f[4]) & (f[2] == f[5]);
    for (int i = 0; i < 6; i += 2) w = w & (p[i].x == p[i + 1].x) & (p[i].y == p[i + 1].y);
    vp_check((a == b) == w, "results are equal exactly when all fields are");
    vp_check((a != b) == !w, "results differ exactly when a field does");
  } else if (c >= 5 && c < 15) {  // one field differs
    int k = c - 5;
    float x = vp_f32_any("x"), y = vp_f32_any("y");
    vp_assume(!(x == y));
    auto put = [&](auto &r, float v) {
      if (k == 0) r.position.x = v; else if (k == 1) r.position.y = v; else if (k == 2) r.time = Time(v);
      else if (k == 3) r.pressure = v; else if (k == 4) r.tilt = v; else if (k == 5) r.orientation = v;
    };
    Result a, b;
    put(a, x); put(b, y);
    if (k == 6) a.velocity.x = x, b.velocity.x = y;
    if (k == 7) a.velocity.y = x, b.velocity.y = y;
    if (k == 8) a.acceleration.x = x, b.acceleration.x = y;
    if (k == 9) a.acceleration.y = x, b.acceleration.y = y;
    vp_check(!(a == b) && a != b, kF[k]);
    if (k < 6) {
      Input i{.event_type = kMove}, j{.event_type = kMove};
      put(i, x); put(j, y);
      vp_check(!(i == j) && i != j, kF[k]);
    }
  } else if (c == 15) {
    Input i{.event_type = ev(vp_i32("event", -2147483647 - 1, 2147483647))};
    i.position = any2("p"); i.time = Time(vp_f64_any("t"));
    i.pressure = vp_f32_any("pr"); i.tilt = vp_f32_any("ti"); i.orientation = vp_f32_any("or");
    int e = (int)i.event_type;
    bool ok = (e >= 0) & (e <= 2) & fin(i.position.x) & fin(i.position.y) & fin(i.time.Value());
    absl::Status s = ValidateInput(i);
    vp_check(s.ok() == ok, "an input is valid exactly when its event is known and position and time are finite");
    vp_check(ok || s.code() == absl::StatusCode::kInvalidArgument, "invalid inputs give InvalidArgument");
  } else if (c == 16) {  // angles: errors
    Vec2 a = any2("a"), b = any2("b");
    bool ok = fin(a.x) & fin(a.y) & fin(b.x) & fin(b.y);
    auto r = a.AbsoluteAngleTo(b);
    vp_check(r.ok() == ok, "an angle exists exactly when both vectors are finite");
    if (!r.ok()) vp_check(r.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument otherwise");
  } else if (c == 17) {  // range and symmetry
    Vec2 a{vp_f32("ax", -1e6, 1e6), vp_f32("ay", -1e6, 1e6)}, b{vp_f32("bx", -1e6, 1e6), vp_f32("by", -1e6, 1e6)};
    auto r = a.AbsoluteAngleTo(b), s = b.AbsoluteAngleTo(a);
    vp_check(r.ok() && s.ok(), "ok");
    float g = *r;
    vp_check((g >= 0) & (g <= 3.1415930f), "angles lie in [0, pi]");
    vp_check_close32(g, *s, 1e-5, "angles are symmetric");
    float ma = std::hypot(a.x, a.y), mb = std::hypot(b.x, b.y);
    if (ma > 0 && mb > 0) {
      float dot = (a.x / ma) * (b.x / mb) + (a.y / ma) * (b.y / mb);
      vp_check_close32(g, std::acos(dot < -1 ? -1 : dot > 1 ? 1 : dot), 1e-3, "the angle between the directions");
    }
    auto z = a.AbsoluteAngleTo({0, 0});
    vp_check(z.ok() && *z == 0, "angle to the zero vector is zero");
    vp_check_close32(Vec2::DotProduct(a, b), a.x * b.x + a.y * b.y, 1e-5, "dot product");
    vp_check_close32(a.Magnitude(), std::hypot(a.x, a.y), 1e-5, "magnitude");
  } else if (c == 18) {
    Vec4 a = v4("a"), b = v4("b");
    double k = vp_f64("k", .01, 1e3);
    double dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
    vp_check_close64(DotProduct(a, b), dot, 1e-6, "dot product");
    Matrix4 o = OuterProduct(a, b);
    Vec4 s = a + b, m = a * k, d = a / k;
    bool eq = true;
    for (int i = 0; i < 4; ++i) {
      vp_check_close64(s[i], a[i] + b[i], 1e-6, "vector sum"); vp_check_close64(m[i], a[i] * k, 1e-6, "scaled vector"); vp_check_close64(d[i], a[i] / k, 1e-6, "divided vector");
      for (int j = 0; j < 4; ++j) vp_check_close64(o.At(i, j), a[i] * b[j], 1e-6, "outer product");
      eq = eq & (a[i] == b[i]);
    }
    vp_check((a == b) == eq && (a != b) == !eq, "vectors are equal exactly when all components are");
  } else if (c == 19) {
    Matrix4 a, b;
    double e[4][4], f[4][4];
    fill(a, "a", e); fill(b, "b", f);
    Vec4 v = v4("v");
    double k = vp_f64("k", -1e3, 1e3);
    Matrix4 s = a + b, d = a - b, p = a * b, t = a.Transpose(), m = a * k, one;
    Vec4 r = a * v, l = v * a;
    vp_check(one * a == a && a * one == a, "the identity changes nothing");
    for (int i = 0; i < 4; ++i) {
      double x = 0, y = 0;
      for (int j = 0; j < 4; ++j) {
        double q = 0;
        for (int n = 0; n < 4; ++n) q += e[i][n] * f[n][j];
        vp_check_close64(p.At(i, j), q, 1e-6, "matrix product");
        vp_check_close64(s.At(i, j), e[i][j] + f[i][j], 1e-6, "matrix sum"); vp_check_close64(d.At(i, j), e[i][j] - f[i][j], 1e-6, "matrix difference");
        vp_check_close64(m.At(i, j), e[i][j] * k, 1e-6, "scaled matrix"); vp_check(t.At(i, j) == e[j][i], "transposed");
        x += e[i][j] * v[j]; y += v[j] * e[j][i];
      }
      vp_check_close64(r[i], x, 1e-6, "matrix times vector"); vp_check_close64(l[i], y, 1e-6, "vector times matrix");
    }
  } else {  // 20 + k: matrices differ in one place
    int k = c - 20;
    Matrix4 a, b;
    double x = vp_f64("x", -1e3, 1e3), y = vp_f64("y", -1e3, 1e3);
    a.At(k / 4, k % 4) = x; b.At(k / 4, k % 4) = y;
    vp_check((a == b) == (x == y) && (a != b) == (x != y), "matrices are equal exactly when all entries are");
  }
  vp_reach("end");
}
