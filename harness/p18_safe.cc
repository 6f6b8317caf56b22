// No undefined behaviour, no crash, and sane results, for any inputs.
// Compiled with the undefined-behaviour checks as traps.
// case = flag set * 16 + script. -DPOS=0: fixed positions, any stylus values at all;
// 1: any positions. -DTIMES=0: regular, 1: any gap up to two output periods.
#include "sm.h"
#ifndef POS
#define POS 0
#endif
#ifndef TIMES
#define TIMES 0
#endif
#ifndef BOX
#define BOX 100
#endif
#ifndef ORI
#define ORI 0  // 1: huge orientations, 2: infinite and NaN ones
#endif
#ifndef SCL
#define SCL 1
#endif
#ifndef ROUND
#define ROUND 0  // 1: known stylus values, ranges checked
#endif
static const char *kScripts[] = {"DM", "DMM", "DU", "DMU", "DP", "DMP", "DMMP", "DSP", "DSSSP", "DSU", "DT", "DTDM", "DMMMMMMP", "DMMMMMMU", "DVMMRMP", "DMMSPSU"};
static const int kFlags[] = {0, WOBBLE, NORMAL, NORMAL | LOOP, KALMAN, KALMAN | WOBBLE | LOOP | NORMAL, ANGLE | WOBBLE, DISABLED | LOOP | NORMAL};
void vp_harness() {
  int c = vp_case(), flags = kFlags[c / 16];
  StrokeModelParams p = baseParams(flags, 3, 6);
#if POS == 1
  p.position_modeler_params.spring_mass_constant = vp_f32("spring", 1e-5, 1e-2);
  p.position_modeler_params.drag_constant = vp_f32("drag", .1, 200);
  p.sampling_params.end_of_stroke_stopping_distance = vp_f32("stop", 1e-4, 10);
  p.sampling_params.end_of_stroke_max_iterations = 2;
#endif
  auto &l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.speed_upper_bound = 400; l.min_speed_sampling_window = Duration(.012);
  p.wobble_smoother_params.speed_ceiling = 400;
  p.stylus_state_modeler_params.max_input_samples = 4;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.008);
  StrokeModeler m;
  vp_check(m.Reset(p).ok(), "Reset(params)");
  double t = 1, last = 0, saved = 0;
  int i = 0;
  (void)last; (void)saved;
  for (const char *s = kScripts[c % 16]; *s; ++s) {
    std::vector<Result> r;
    if (*s == 'V') { m.Save(); saved = last; continue; }
    if (*s == 'R') { m.Restore(); last = saved; continue; }
    int st;
    if (*s == 'P') st = code(m.Predict(r));
    else {
      Input in;
      in.event_type = *s == 'D' ? kDown : *s == 'U' || *s == 'T' ? kUp : kMove;
#if TIMES == 1
      if (i && *s != 'S' && *s != 'T') t += vp_f64(Nm("dt", i), 1e-4, .011);
#else
      if (i && *s != 'S' && *s != 'T') t += .0045;
#endif
      in.time = Time(t);
#if POS == 1
      in.position = {vp_f32(Nm("x", i), -BOX, BOX), vp_f32(Nm("y", i), -BOX, BOX)};
      in.pressure = in.tilt = in.orientation = -1;
#else
      static const float px[] = {0, 1, 2.5f, 3, 2.75f, 1.5f, 0, -.5f, 0, 1.5f, 2, 3}, py[] = {0, .5f, .25f, 1, 2.5f, 3, 2, 1, 0, -.25f, -.5f, 4};
      in.position = {SCL * px[i], SCL * py[i]};
#if ROUND
      in.pressure = vp_f32(Nm("pr", i), 0, 1); in.tilt = vp_f32(Nm("ti", i), 0, 1.5707964f); in.orientation = vp_f32(Nm("or", i), i % 2 ? 2 : 4, i % 2 ? 3.5 : 5);
#else
      in.pressure = vp_f32_any(Nm("pr", i)); in.tilt = vp_f32_any(Nm("ti", i)); in.orientation = ORI == 0 ? .1f * i : ORI == 1 ? (i & 1 ? 1e30f : -3e38f) : i & 1 ? std::numeric_limits<float>::quiet_NaN() : std::numeric_limits<float>::infinity();
#endif
#endif
      ++i;
      st = code(m.Update(in, r));
    }
    vp_observe_i("st", st);
    observe(r);
#ifndef NOVALS
    if (*s == 'D') last = 0;
    double now = last;
    for (auto &x : r) {
      vp_check(fin(x.position.x) & fin(x.position.y), "positions are finite");
      vp_check(fin(x.velocity.x) & fin(x.velocity.y) & fin(x.acceleration.x) & fin(x.acceleration.y), "velocities and accelerations are finite");
      vp_check(fin(x.time.Value()), "times are finite");
      vp_check(x.time.Value() >= now - 1e-9, "times never go back within a stroke");
      now = x.time.Value();
#if ROUND
      vp_check((x.pressure >= 0) & (x.pressure <= 1.0001f), "pressures stay between those of the inputs");
      vp_check((x.tilt >= 0) & (x.tilt <= 1.5709f), "tilts stay between those of the inputs");
      vp_check((x.orientation >= 1.9999f) & (x.orientation <= 5.0001f), "orientations stay between those of the inputs");
#endif
      if (*s == 'P') vp_check(x.time.Value() > t - 1e-9, "predictions lie after the last input");
    }
    if (*s != 'P') last = now;
#endif
  }
  vp_reach("end");
}
