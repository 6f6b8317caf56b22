// Shared harness helpers for the stroke modeler.
#ifndef SM_H_
#define SM_H_
#include <cmath>
#include <limits>
#include <optional>
#include <string>
#include <vector>
#include "vp.h"
#include "ink_stroke_modeler/numbers.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"
using namespace ink::stroke_model;

// Names such as "x3" built without library calls on symbolic data.
struct Nm {
  char b[32];
  Nm(const char *p, int i, const char *q = "") {
    int n = 0;
    while (*p) b[n++] = *p++;
    if (i >= 10) b[n++] = (char)('0' + i / 10);
    if (i >= 0) b[n++] = (char)('0' + i % 10);
    while (*q) b[n++] = *q++;
    b[n] = 0;
  }
  operator const char *() const { return b; }
};

inline bool fin(double v) { return !std::isnan(v) & !std::isinf(v); }

inline bool sameF(float a, float b) { return (a == b) | (std::isnan(a) & std::isnan(b)); }
inline bool sameD(double a, double b) { return (a == b) | (std::isnan(a) & std::isnan(b)); }
// Bitwise-level equality of results, NaN equal to NaN, no branches.
inline bool same(const Result &a, const Result &b) {
  return sameF(a.position.x, b.position.x) & sameF(a.position.y, b.position.y) &
         sameF(a.velocity.x, b.velocity.x) & sameF(a.velocity.y, b.velocity.y) &
         sameF(a.acceleration.x, b.acceleration.x) & sameF(a.acceleration.y, b.acceleration.y) &
         sameD(a.time.Value(), b.time.Value()) & sameF(a.pressure, b.pressure) &
         sameF(a.tilt, b.tilt) & sameF(a.orientation, b.orientation);
}
inline void checkSame(const std::vector<Result> &a, const std::vector<Result> &b, const char *lbl) {
  vp_check(a.size() == b.size(), lbl);
  if (a.size() != b.size()) return;
  for (size_t i = 0; i < a.size(); ++i) vp_check(same(a[i], b[i]), lbl);
}
inline void observe(const std::vector<Result> &v) {
  vp_observe_i("n", (int)v.size());
  for (auto &r : v) {
    vp_observe32("px", r.position.x); vp_observe32("py", r.position.y);
    vp_observe32("vx", r.velocity.x); vp_observe32("ax", r.acceleration.x);
    vp_observe64("t", r.time.Value());
    vp_observe32("pr", r.pressure); vp_observe32("ti", r.tilt); vp_observe32("or", r.orientation);
  }
}
inline int code(const absl::Status &s) { return (int)s.code(); }
// ---- parameters -----------------------------------------------------------
// A valid parameter set; flags choose the optional stages.
enum { WOBBLE = 1, NORMAL = 2, LOOP = 4, KALMAN = 8, DISABLED = 16, ANGLE = 32, STROKE_END = 0 };
inline StrokeModelParams baseParams(int flags, int maxOut = 2, int iters = 2) {
  StrokeModelParams p;
  p.wobble_smoother_params.is_enabled = (flags & WOBBLE) != 0;
  p.wobble_smoother_params.timeout = Duration(.04);
  p.wobble_smoother_params.speed_floor = 1.31f;
  p.wobble_smoother_params.speed_ceiling = 1.44f;
  p.position_modeler_params.spring_mass_constant = 11.f / 32400;
  p.position_modeler_params.drag_constant = 72.f;
  auto &l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.is_enabled = (flags & LOOP) != 0;
  l.speed_lower_bound = 2;
  l.speed_upper_bound = 20;
  l.interpolation_strength_at_speed_lower_bound = 1;
  l.interpolation_strength_at_speed_upper_bound = .25f;
  l.min_speed_sampling_window = Duration(.04);
  l.min_discrete_speed_samples = 3;
  p.sampling_params.min_output_rate = 180;
  p.sampling_params.end_of_stroke_stopping_distance = .001f;
  p.sampling_params.end_of_stroke_max_iterations = iters;
  p.sampling_params.max_outputs_per_call = maxOut;
  if (flags & ANGLE) p.sampling_params.max_estimated_angle_to_traverse_per_input = 1.5;
  p.stylus_state_modeler_params.max_input_samples = 10;
  p.stylus_state_modeler_params.use_stroke_normal_projection = (flags & (NORMAL | LOOP)) != 0;
  p.stylus_state_modeler_params.min_input_samples = 2;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.02);
  if (flags & KALMAN) {
    KalmanPredictorParams k;
    k.process_noise = .00026458;
    k.measurement_noise = .026458;
    k.min_stable_iteration = 2;
    k.max_time_samples = 20;
    k.min_catchup_velocity = .02f;
    k.prediction_interval = Duration(1. / 60);
    k.confidence_params.desired_number_of_samples = 20;
    k.confidence_params.max_estimation_distance = .04f;
    k.confidence_params.min_travel_speed = 3;
    k.confidence_params.max_travel_speed = 15;
    k.confidence_params.max_linear_deviation = .2f;
    p.prediction_params = k;
  } else if (flags & DISABLED) {
    p.prediction_params = DisabledPredictorParams{};
  }
  return p;
}
constexpr Input::EventType kDown = Input::EventType::kDown, kMove = Input::EventType::kMove, kUp = Input::EventType::kUp;
// A symbolic input: position any pair of floats with |x|,|y| <= R; time any
// double in [tlo, thi]. Stylus fields: mode 0 = all absent (-1), 1 = any known
// values (pressure 0..1, tilt 0..pi/2, orientation 1..2.5), 2 = each field
// known or absent independently (forks), 3 = any float at all (NaN, infinities).
inline Input symIn(int i, Input::EventType ev, double R, double tlo, double thi, int mode = 1) {
  Input in;
  in.event_type = ev;
  in.position.x = vp_f32(Nm("x", i), -R, R);
  in.position.y = vp_f32(Nm("y", i), -R, R);
  in.time = Time(tlo == thi ? tlo : vp_f64(Nm("t", i), tlo, thi));
  in.pressure = in.tilt = in.orientation = -1;
  if (mode == 1 || mode == 2) {
    int m = mode == 2 ? vp_choice(Nm("known", i), 8) : 7;
    if (m & 1) in.pressure = vp_f32(Nm("pr", i), 0, 1);
    if (m & 2) in.tilt = vp_f32(Nm("ti", i), 0, 1.5707964f);
    if (m & 4) in.orientation = vp_f32(Nm("or", i), 1, 2.5f);
  } else if (mode == 3) {
    in.pressure = vp_f32_any(Nm("pr", i));
    in.tilt = vp_f32_any(Nm("ti", i));
    in.orientation = vp_f32_any(Nm("or", i));
  }
  return in;
}
constexpr int kOk = 0, kInvalid = 3, kPrecond = 9;
#endif
