// The primitives never crash, hang or run into undefined behaviour, whatever
// they are given (NaN, infinities, extreme values).
#include "sm.h"
#include "ink_stroke_modeler/internal/internal_types.h"
#include "ink_stroke_modeler/internal/utils.h"
#include "ink_stroke_modeler/internal/position_modeler.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.h"
#include "ink_stroke_modeler/internal/stylus_state_modeler.h"
#include "ink_stroke_modeler/internal/wobble_smoother.h"
static Vec2 any2(const char *n) { return {vp_f32_any(Nm(n, 0)), vp_f32_any(Nm(n, 1))}; }
void vp_harness() {
  int c = vp_case();
  if (c >= 20) {  // any angles: each in one of 7 ranges
    static const double lo[] = {0, -6.28, 12.6, 1e7, 1e30, -1e7, -3.4e38}, hi[] = {6.28, 0, 1e7, 1e30, 3.4e38, -6.28, -1e7};
    int i = (c - 20) / 8, j = (c - 20) % 8;
    float r = InterpAngle(i < 7 ? vp_f32("a", lo[i], hi[i]) : vp_choice("w", 2) ? std::numeric_limits<float>::quiet_NaN() : vp_choice("v", 2) ? -INFINITY : INFINITY,
                          j < 7 ? vp_f32("b", lo[j], hi[j]) : vp_choice("w", 2) ? INFINITY : std::numeric_limits<float>::quiet_NaN(), .25f);
    vp_observe32("r", r);
    vp_check(std::isnan(r) || ((r >= 0) & (r <= 6.2831860f)), "an angle is in [0, 2 pi] (or NaN)");
  } else if (c == 1) {
    float a = vp_f32_any("a"), b = vp_f32_any("b"), t = vp_f32_any("t");
    vp_observe32("n", Normalize01(a, b, t)); vp_observe32("i", Interp(a, b, t));
    float k = Clamp01(t);
    vp_check(std::isnan(k) || ((k >= 0) & (k <= 1)), "clamped");
    float n = Normalize01(a, b, t);
    vp_check(std::isnan(n) || ((n >= 0) & (n <= 1)), "normalised");
  } else if (c == 2) {
    float x = NearestPointOnSegment(any2("a"), any2("b"), any2("p"));
    vp_observe32("x", x);
  } else if (c == 3) {
    TipState s{.position = any2("p"), .velocity = any2("v"), .acceleration = any2("a"), .time = Time(vp_f64_any("t"))};
    Vec2 pv = any2("q");
    auto n = GetStrokeNormal(s, Time(vp_f64_any("u")));
    vp_observe_i("has", n.has_value());
    (void)pv;
  } else if (c == 4) {
    auto p = ProjectToSegmentAlongNormal(any2("a"), any2("b"), any2("p"), any2("n"));
    vp_observe_i("has", p.has_value());
  } else if (c == 5) {
    Result a, b;
    for (Result *r : {&a, &b}) {
      const char *w = r == &a ? "a" : "b";
      r->position = any2(w); r->time = Time(vp_f64_any(Nm(w, 2))); r->pressure = vp_f32_any(Nm(w, 3)); r->tilt = vp_f32_any(Nm(w, 4)); r->orientation = vp_f32_any(Nm(w, 5));
    }
    Result g = InterpResult(a, b, vp_f32_any("t"));
    vp_check(!(g.orientation < 0) || g.orientation == -1, "orientation unknown or not negative");
    vp_observe32("or", g.orientation);
  } else if (c == 6) {
    KalmanPredictorParams k;
    AxisPredictor a(vp_f64_any("pn"), vp_f64_any("mn"), vp_i32("stable", -2147483647 - 1, 2147483647));
    for (int i = 0; i < 3; ++i) a.Update(vp_f64_any(Nm("x", i)));
    vp_observe_i("stable", a.Stable());
    vp_observe64("v", a.GetPosition() + a.GetVelocity() + a.GetAcceleration() + a.GetJerk());
  } else if (c == 7 || c == 8) {
    WobbleSmoother w;
    WobbleSmootherParams p{.is_enabled = true, .timeout = Duration(.02), .speed_floor = 1, .speed_ceiling = 2};
    w.Reset(p, any2("p"), Time(1));
    for (int i = 0; i < c - 5; ++i) w.Update(any2(i == 0 ? "q" : i == 1 ? "r" : "s"), Time(1 + .012 * (i + 1)));
  } else if (c >= 9 && c <= 14) {
    // the number of steps: 9 any rate, 10 any angle limit, 11 any time
    // difference, 12 any positions, 13 any velocity, 14 any rate and time
    SamplingParams s;
    PositionModelerParams pp;
    pp.spring_mass_constant = 11.f / 32400; pp.drag_constant = 72;
    s.min_output_rate = c == 9 || c == 14 ? vp_f64("rate", 1e-300, 1.7e308) : 180;
    s.max_estimated_angle_to_traverse_per_input = c == 10 || c == 13 ? vp_f64("limit", 1e-320, 3.14) : c == 12 ? 1e-12 : -1;
    s.max_outputs_per_call = vp_i32("max_outputs", 1, 2147483647);
    TipState tip{.position = {1, 2}, .velocity = {30, -40}, .acceleration = {1, 1}, .time = Time(1)};
    if (c == 13) tip.velocity = {vp_f32("vx", 1, 1e18), vp_f32("vy", -1e18, 1e18)};
    Input a, b;
    a.event_type = b.event_type = kMove;
    a.position = {1, 2}; b.position = {2, 2.5f};
    if (c == 12) b.position = {vp_f32("bx", 100, 1e18), vp_f32("by", -1e18, 1e18)};
    a.time = Time(0);
    b.time = Time(c == 11 || c == 14 ? vp_f64("dt", 0, 1.7e308) : .01);
    auto n = NumberOfStepsBetweenInputs(tip, a, b, s, pp);
    vp_observe_i("n", n.ok() ? *n : -1);
    if (n.ok()) vp_check((*n >= 0) & (*n <= s.max_outputs_per_call), "the number of steps is within the limit");
    if (c == 10 && s.max_outputs_per_call < 1000000 && s.max_estimated_angle_to_traverse_per_input < 1e-7)
      vp_check(!n.ok(), "more steps than allowed: rejected");
  }
  vp_reach("end");
}
