// Results move with the coordinate system: the same stroke turned, mirrored or
// in other units gives the same results, turned, mirrored or in those units.
// case = flag set * 16 + script; -DTURN = 0 quarter turn, 1 half turn, 2 exchange of
// x and y, 3 and 5 other length units, 4 and 6
// other time units.
#include "sm.h"
#ifndef TURN
#define TURN 0
#endif
#ifndef STEPS
#define STEPS 1
#endif
static const char *kScripts[] = {"DM", "DMM", "DMMU", "DMP", "DMMMP", "DU", "DMMMMU", "DMUDMMP", "DMMMMMMMM", "DMMMMMMP", "DMPMMMPMMU", "DMMMMUDMMMMP", "DMMMMMMMMMMU", "DUDUDMMMP", "DSMSP", "DMMT"};
static const int kFlags[] = {0, WOBBLE, NORMAL, NORMAL | LOOP, NORMAL | LOOP | WOBBLE, KALMAN, KALMAN | WOBBLE, ANGLE, KALMAN | LOOP | NORMAL | WOBBLE};
static float sLo, sHi;
static StrokeModelParams params(int flags, float L, double Tm) {
  StrokeModelParams p = baseParams(flags, 40, 12);
  auto &w = p.wobble_smoother_params;
  w.timeout = Duration(.015 * Tm); w.speed_floor = 60 * L / Tm; w.speed_ceiling = 600 * L / Tm;
  auto &m = p.position_modeler_params;
  m.spring_mass_constant *= Tm * Tm; m.drag_constant /= Tm;
  auto &l = m.loop_contraction_mitigation_params;
  l.speed_lower_bound = 10 * L / Tm; l.speed_upper_bound = 500 * L / Tm;
  l.interpolation_strength_at_speed_lower_bound = sLo;
  l.interpolation_strength_at_speed_upper_bound = sHi;
  l.min_speed_sampling_window = Duration(.02 * Tm);
  auto &s = p.sampling_params;
  s.min_output_rate /= Tm; s.end_of_stroke_stopping_distance *= L;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.012 * Tm);
  p.stylus_state_modeler_params.max_input_samples = 5;
  if (flags & KALMAN) {
    auto &k = std::get<KalmanPredictorParams>(p.prediction_params);
    k.min_catchup_velocity *= L / Tm; k.prediction_interval = Duration(.0625 * Tm);
    k.max_time_samples = 6;
    auto &c = k.confidence_params;
    c.max_estimation_distance = 4 * L; c.min_travel_speed *= L / Tm; c.max_travel_speed *= L / Tm; c.max_linear_deviation *= 64 * L;
    c.desired_number_of_samples = 8;
  }
  return p;
}
#if TURN == 3
static const float L = 8192; static const double Tm = 1;
#elif TURN == 4
static const float L = 1; static const double Tm = 16;
#elif TURN == 5
static const float L = 1.f / 1048576; static const double Tm = 1;
#elif TURN == 6
static const float L = 1; static const double Tm = 1. / 256;
#else
static const float L = 1; static const double Tm = 1;
#endif
static Vec2 move(Vec2 v, double per = 1) {
#if TURN == 0
  return {-v.y, v.x};
#elif TURN == 1
  return {-v.x, -v.y};
#elif TURN == 2
  return {v.y, v.x};
#else
  float f = L / per;
  return {v.x * f, v.y * f};
#endif
}
[[maybe_unused]] static Result moved(Result r) {
  r.position = move(r.position); r.velocity = move(r.velocity, Tm); r.acceleration = move(r.acceleration, Tm * Tm);
  r.time = Time(r.time.Value() * Tm);
  return r;
}
// for other units: back to the first ones, so that the native tolerance is relative
[[maybe_unused]] static Result back(Result r) {
#if TURN >= 3
  float f = 1 / L;
  r.position = f * r.position; r.velocity = (f * (float)Tm) * r.velocity; r.acceleration = (f * (float)(Tm * Tm)) * r.acceleration;
  r.time = Time(r.time.Value() / Tm);
#endif
  return r;
}
static Input input(int i, Input::EventType ev, double t) {
  Input in;
  in.event_type = ev;
  in.time = Time(t);
#ifdef SYMPOS
  in.position = {vp_f32(Nm("x", i), -100, 100), vp_f32(Nm("y", i), -100, 100)};
  in.pressure = in.tilt = in.orientation = -1;
#else
  static const float px[] = {0, 1, 2.5f, 3, 2.75f, 1.5f, 0, -.5f, 0, 1.5f, 2, 3}, py[] = {0, .5f, .25f, 1, 2.5f, 3, 2, 1, 0, -.25f, -.5f, 4};
  in.position = {px[i], py[i]};
  in.pressure = vp_f32(Nm("pr", i), 0, 1); in.tilt = vp_f32(Nm("ti", i), 0, 1.5f); in.orientation = 1 + .1f * i;
#endif
  return in;
}
void vp_harness() {
  int c = vp_case(), flags = kFlags[c / 16];
#if TURN < 3
  sLo = vp_f32("s_lo", .5, 1); sHi = vp_f32("s_hi", 0, .5);
#else
  sLo = 1; sHi = .25f;
#endif
  StrokeModeler a, b;
  vp_check(a.Reset(params(flags, 1, 1)).ok(), "Reset");
  vp_check(b.Reset(params(flags, L, Tm)).ok(), "Reset");
  double t = 1;
  int i = 0;
  for (const char *s = kScripts[c % 16]; *s; ++s) {
    std::vector<Result> ra, rb;
    int sa, sb;
    if (*s == 'P') { sa = code(a.Predict(ra)); sb = code(b.Predict(rb)); }
    else {
      if (*s != 'S' && *s != 'T' && i) t += STEPS / 256. + (i % 3) / 1024.;
      Input in = input(i, *s == 'D' ? kDown : *s == 'U' || *s == 'T' ? kUp : kMove, t), jn = in;
      ++i;
      jn.position = move(in.position); jn.time = Time(t * Tm);
      sa = code(a.Update(in, ra)); sb = code(b.Update(jn, rb));
    }
    vp_check(sa == sb, "same status");
    vp_check(ra.size() == rb.size(), "same number of results");
    if (ra.size() != rb.size()) return;
    for (size_t k = 0; k < ra.size(); ++k) {
      #if TURN >= 3
      Result w = ra[k], g = back(rb[k]);
#else
      Result w = moved(ra[k]), g = rb[k];
#endif
      const char *lb = "the results move with the coordinate system";
      const double tol = 1e-4;
      vp_check_close32(w.position.x, g.position.x, tol, lb); vp_check_close32(w.position.y, g.position.y, tol, lb);
      vp_check_close32(w.velocity.x, g.velocity.x, tol, lb); vp_check_close32(w.velocity.y, g.velocity.y, tol, lb);
      vp_check_close32(w.acceleration.x, g.acceleration.x, tol, lb); vp_check_close32(w.acceleration.y, g.acceleration.y, tol, lb);
      vp_check_close64(w.time.Value(), g.time.Value(), 1e-6, lb);
      vp_check_close32(w.pressure, g.pressure, tol, lb); vp_check_close32(w.tilt, g.tilt, tol, lb); vp_check_close32(w.orientation, g.orientation, tol, lb);
      vp_observe32("px", g.position.x); vp_observe32("vx", g.velocity.x); vp_observe32("pr", g.pressure);
    }
  }
  vp_reach("end");
}
