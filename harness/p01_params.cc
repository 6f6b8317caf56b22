// P01: parameter validation accepts exactly the documented domain.
#include "sm.h"
static bool gt0f(float v) { return fin(v) & (v > 0); }
static bool gt0d(double v) { return fin(v) & (v > 0); }
void vp_harness() {
  int c = vp_case();
  StrokeModelParams p;
  // ---- all fields symbolic over their whole type
  auto &w = p.wobble_smoother_params;
  w.is_enabled = vp_i32("w_on", 0, 1) != 0;
  w.timeout = Duration(vp_f64_any("w_timeout"));
  w.speed_floor = vp_f32_any("w_floor");
  w.speed_ceiling = vp_f32_any("w_ceil");
  bool okW = !w.is_enabled | (fin(w.timeout.Value()) & (w.timeout.Value() >= 0) & fin(w.speed_floor) &
                              (w.speed_floor >= 0) & fin(w.speed_ceiling) & (w.speed_ceiling >= w.speed_floor));
  auto &pm = p.position_modeler_params;
  pm.spring_mass_constant = vp_f32_any("spring");
  pm.drag_constant = vp_f32_any("drag");
  auto &l = pm.loop_contraction_mitigation_params;
  l.is_enabled = vp_i32("l_on", 0, 1) != 0;
  l.speed_lower_bound = vp_f32_any("l_lo");
  l.speed_upper_bound = vp_f32_any("l_hi");
  l.interpolation_strength_at_speed_lower_bound = vp_f32_any("l_slo");
  l.interpolation_strength_at_speed_upper_bound = vp_f32_any("l_shi");
  l.min_speed_sampling_window = Duration(vp_f64_any("l_win"));
  l.min_discrete_speed_samples = vp_i32("l_n", INT_MIN, INT_MAX);
  // Infinite speed bounds satisfy the documented inequalities; nothing says
  // whether they must be accepted, so they are left unspecified.
  bool unspec = l.is_enabled & (std::isinf(l.speed_lower_bound) | std::isinf(l.speed_upper_bound));
  bool okL = !l.is_enabled |
             ((l.speed_lower_bound >= 0) & (l.speed_upper_bound >= l.speed_lower_bound) &
              (l.interpolation_strength_at_speed_upper_bound >= 0) &
              (l.interpolation_strength_at_speed_lower_bound >= l.interpolation_strength_at_speed_upper_bound) &
              (l.interpolation_strength_at_speed_lower_bound <= 1) &
              (l.min_discrete_speed_samples >= 1) & (l.min_discrete_speed_samples <= 10000) &
              (l.min_speed_sampling_window.Value() > 0) & (l.min_speed_sampling_window.Value() <= 10000));
  bool okP = okL & gt0f(pm.spring_mass_constant) & gt0f(pm.drag_constant);
  auto &s = p.sampling_params;
  s.min_output_rate = vp_f64_any("rate");
  s.end_of_stroke_stopping_distance = vp_f32_any("stop");
  s.end_of_stroke_max_iterations = vp_i32("iters", INT_MIN, INT_MAX);
  s.max_outputs_per_call = vp_i32("maxout", INT_MIN, INT_MAX);
  s.max_estimated_angle_to_traverse_per_input = vp_f64_any("angle");
  double an = s.max_estimated_angle_to_traverse_per_input;
  bool okS = gt0d(s.min_output_rate) & gt0f(s.end_of_stroke_stopping_distance) &
             (s.end_of_stroke_max_iterations >= 1) & (s.end_of_stroke_max_iterations <= 1000) &
             (s.max_outputs_per_call >= 1) & ((an == -1) | ((an > 0) & (an < kPi)));
  auto &y = p.stylus_state_modeler_params;
  y.max_input_samples = vp_i32("y_max", INT_MIN, INT_MAX);
  y.use_stroke_normal_projection = vp_i32("y_norm", 0, 1) != 0;
  y.min_input_samples = vp_i32("y_min", INT_MIN, INT_MAX);
  y.min_sample_duration = Duration(vp_f64_any("y_dur"));
  bool okY = y.use_stroke_normal_projection
                 ? (y.min_input_samples >= 1) & gt0d(y.min_sample_duration.Value())
                 : (y.max_input_samples >= 1);
  KalmanPredictorParams k;
  k.process_noise = vp_f64_any("k_pn");
  k.measurement_noise = vp_f64_any("k_mn");
  k.min_stable_iteration = vp_i32("k_stable", INT_MIN, INT_MAX);
  k.max_time_samples = vp_i32("k_ts", INT_MIN, INT_MAX);
  k.min_catchup_velocity = vp_f32_any("k_cv");
  k.acceleration_weight = vp_f32_any("k_aw");
  k.jerk_weight = vp_f32_any("k_jw");
  k.prediction_interval = Duration(vp_f64_any("k_int"));
  auto &cp = k.confidence_params;
  cp.desired_number_of_samples = vp_i32("k_des", INT_MIN, INT_MAX);
  cp.max_estimation_distance = vp_f32_any("k_med");
  cp.min_travel_speed = vp_f32_any("k_mins");
  cp.max_travel_speed = vp_f32_any("k_maxs");
  cp.max_linear_deviation = vp_f32_any("k_dev");
  cp.baseline_linearity_confidence = vp_f32_any("k_base");
  bool okK = gt0d(k.process_noise) & gt0d(k.measurement_noise) & (k.min_stable_iteration >= 1) &
             (k.max_time_samples >= 1) & gt0f(k.min_catchup_velocity) & fin(k.acceleration_weight) &
             fin(k.jerk_weight) & gt0d(k.prediction_interval.Value()) & (cp.desired_number_of_samples >= 1) &
             gt0f(cp.max_estimation_distance) & fin(cp.min_travel_speed) & (cp.min_travel_speed >= 0) &
             fin(cp.max_travel_speed) & (cp.max_travel_speed >= cp.min_travel_speed) &
             gt0f(cp.max_linear_deviation) & (cp.baseline_linearity_confidence >= 0) &
             (cp.baseline_linearity_confidence <= 1);
  // ---- one case per entry point / predictor kind
  bool okAll;
  int got;
  const char *what;
  if (c < 9) {
    int kind = c % 3;
    if (kind == 1) p.prediction_params = k;
    else if (kind == 2) p.prediction_params = DisabledPredictorParams{};
    bool cross = !l.is_enabled | y.use_stroke_normal_projection;
    okAll = cross & okW & okP & okS & okY & ((kind != 1) | okK);
    if (c < 3) { got = code(ValidateStrokeModelParams(p)); what = "ValidateStrokeModelParams"; }
    else if (c < 6) { StrokeModeler m; got = code(m.Reset(p)); what = "Reset"; }
    else {  // re-initialisation of an initialised modeler
      StrokeModeler m;
      StrokeModelParams good;
      good.wobble_smoother_params.is_enabled = false;
      good.sampling_params.min_output_rate = 180;
      good.sampling_params.end_of_stroke_stopping_distance = .001f;
      vp_check(m.Reset(good).ok(), "good-params");
      got = code(m.Reset(p)); what = "re-Reset";
    }
  } else if (c == 9) { okAll = okP; got = code(ValidatePositionModelerParams(pm)); what = "ValidatePositionModelerParams"; }
  else if (c == 10) { okAll = okS; got = code(ValidateSamplingParams(s)); what = "ValidateSamplingParams"; unspec = false; }
  else if (c == 11) { okAll = okY; got = code(ValidateStylusStateModelerParams(y)); what = "ValidateStylusStateModelerParams"; unspec = false; }
  else if (c == 12) { okAll = okW; got = code(ValidateWobbleSmootherParams(w)); what = "ValidateWobbleSmootherParams"; unspec = false; }
  else { p.prediction_params = k; okAll = okK; got = code(ValidatePredictionParams(p.prediction_params)); what = "ValidatePredictionParams"; unspec = false; }
  vp_observe_i("code", got);
  vp_check((got == kOk) | (got == kInvalid), "status-code");
  vp_check(unspec | ((got == kOk) == okAll), what);
  if (got == kOk) vp_reach("accepted"); else vp_reach("rejected");
}
