// The real modeler and the reference of ref.h side by side.
// case = flag set * 16 + script. -DWHICH selects the compared fields, -DMODE the
// stylus fields of the inputs, -DSTEPS the modeled steps per input.
#include "ref.h"
#ifndef WHICH
#define WHICH 7
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef RATE
#define RATE 180  // results per second
#endif
#ifndef DISC
#define DISC 1  // fewest speed samples
#endif
#ifndef ITERS
#define ITERS 2
#endif
#ifdef LONG
static const char *kScripts[] = {"DMMMMMMMM", "DMMMMMMMU", "DMMMMMMMP", "DMMMMUDMMMMU", "DMMPMMPMMPU", "DMMMMMMMMMMM", "DUDUDMMMP", "DMPMPMPMPMPU"};
#elif defined(SAME)  // S, T: move, up with the time of the input before
static const char *kScripts[] = {"DS", "DMS", "DMSM", "DMSSMP", "DT", "DMT", "DMST", "DSMP", "DMMSMU", "DMMTDM", "DMPSPM", "DSTDMSM", "DMMMSP", "DMMMSSPSPMP"};
#else
static const char *kScripts[] = {"DM", "DMM", "DMMM", "DU", "DMU", "DMMU", "DP", "DMP", "DMMP", "DMPM", "DMPU", "DMMMM", "DMMMU", "DMMMP", "DMUDM", "DMUDMP"};
#endif
static const int kFlags[] = {0, WOBBLE, NORMAL, NORMAL | LOOP, NORMAL | LOOP | WOBBLE, KALMAN, KALMAN | WOBBLE, DISABLED, ANGLE, NORMAL | LOOP | KALMAN};
static Input in(int i, Input::EventType ev, int flags) {
  double t = 1 + (STEPS / (double)RATE - .18 / RATE) * i;
#ifdef CONC  // a bent stroke at fixed points, any stylus values
  static const float px[] = {0, 1, 2.5f, 3, 2.75f, 1.5f, 0, -.5f, 0, 1.5f, 2, 3}, py[] = {0, .5f, .25f, 1, 2.5f, 3, 2, 1, 0, -.25f, -.5f, 4};
  Input c;
  c.event_type = ev;
  c.position = {CONC * px[i], CONC * py[i]};
  c.time = Time(t);
  c.pressure = vp_f32(Nm("pr", i), 0, 1); c.tilt = vp_f32(Nm("ti", i), 0, 1.57f); c.orientation = -1;
#if UNKNOWN == 1
  if (i == 2) c.pressure = -1;
  c.orientation = 2.f + .1f * i;
#elif UNKNOWN == 3  // each missing once, early in the first stroke
  c.orientation = 1.f + .1f * i;
  if (i == 0) c.pressure = -1;
  if (i == 1) c.tilt = std::numeric_limits<float>::quiet_NaN();
  if (i == 2) c.orientation = -1;
#elif UNKNOWN == 2
  c.tilt = -1;
  c.orientation = i == 3 ? -1 : 6.f - 1.9f * (i % 4);
#endif
  return c;
#endif
  if (flags & KALMAN) {
    Input r;
    r.event_type = ev;
    float bx = 1.f + .4f * i + .03f * i * i, by = 2.f + .3f * i - .02f * i * i;
    r.position = {vp_f32(Nm("x", i), bx, bx + 1e-4), vp_f32(Nm("y", i), by, by + 1e-4)};
    r.time = Time(t);
    r.pressure = r.tilt = r.orientation = -1;
    return r;
  }
  return symIn(i, ev, 100, t, i == 0 ? t : t + .09 / RATE, MODE);
}
// any stiff or soft spring, any stopping distance, any smoothing speeds
static void anyParams(StrokeModelParams &p, int flags) {
#ifdef CONC
  p.sampling_params.end_of_stroke_stopping_distance = vp_f32("stop", 1e-3, 10);
#ifdef WFLOOR
  p.wobble_smoother_params.speed_floor = WFLOOR;
  p.wobble_smoother_params.speed_ceiling = 2 * WFLOOR;
#endif
  if (flags & LOOP) {
    auto &l = p.position_modeler_params.loop_contraction_mitigation_params;
    l.interpolation_strength_at_speed_upper_bound = vp_f32("strength1", 0, .5);
    l.interpolation_strength_at_speed_lower_bound = vp_f32("strength0", .5, 1);
    l.min_discrete_speed_samples = DISC;
    l.min_speed_sampling_window = Duration(.009);
    l.speed_upper_bound = 300;
  }
  p.stylus_state_modeler_params.min_sample_duration = Duration(.006);
  return;
#endif
  p.position_modeler_params.spring_mass_constant = vp_f32("mass", 1e-5, 5e-4);
  p.position_modeler_params.drag_constant = vp_f32("drag", 1, 150);
  p.sampling_params.end_of_stroke_stopping_distance = vp_f32("stop", 1e-3, 10);
  if (flags & WOBBLE) {
    float lo = vp_f32("floor", 0, 1000);
    p.wobble_smoother_params.speed_floor = lo;
    p.wobble_smoother_params.speed_ceiling = lo + vp_f32("above", 0, 1000);
  }
  if (flags & LOOP) {
    auto &l = p.position_modeler_params.loop_contraction_mitigation_params;
    l.speed_lower_bound = vp_f32("lower", 0, 500);
    l.speed_upper_bound = l.speed_lower_bound + vp_f32("upper", 0, 500);
    l.interpolation_strength_at_speed_upper_bound = vp_f32("strength1", 0, .5);
    l.interpolation_strength_at_speed_lower_bound = vp_f32("strength0", .5, 1);
  }
}
void vp_harness(void) {
  int c = vp_case(), flags = kFlags[c / 16];
  StrokeModelParams p = baseParams(flags, 12, ITERS);
  p.sampling_params.min_output_rate = RATE;
  if (flags & WOBBLE) p.wobble_smoother_params.timeout = Duration(.0055 * STEPS);
#ifdef KVAR  // other predictor settings
  if (flags & KALMAN) {
    KalmanPredictorParams k = std::get<KalmanPredictorParams>(p.prediction_params);
    static const float aw[] = {1, .5f, .75f, .25f}, jw[] = {1, .1f, .25f, .5f}, bl[] = {0, .4f, .7f, .1f}, ed[] = {.04f, 2, 20, .5f}, ld[] = {.2f, 10, 1, 100};
    static const int st[] = {1, 4, 3, 6}, mt[] = {3, 20, 2, 5}, ds[] = {2, 20, 5, 8};
    static const double iv[] = {1. / 60, 1. / 30, 1. / 100, .05};
    k.acceleration_weight = aw[KVAR]; k.jerk_weight = jw[KVAR];
    k.min_stable_iteration = st[KVAR]; k.max_time_samples = mt[KVAR];
    k.prediction_interval = Duration(iv[KVAR]);
    k.process_noise = KVAR & 1 ? .01 : .0003; k.measurement_noise = KVAR & 2 ? .5 : .02;
    k.min_catchup_velocity = KVAR & 1 ? 50.f : .02f;
    auto &c = k.confidence_params;
    c.desired_number_of_samples = ds[KVAR]; c.max_estimation_distance = ed[KVAR];
    c.min_travel_speed = KVAR * 20.f; c.max_travel_speed = 40 + KVAR * 100.f;
    c.max_linear_deviation = ld[KVAR]; c.baseline_linearity_confidence = bl[KVAR];
    p.prediction_params = k;
  }
#endif
  if (!(flags & KALMAN)) anyParams(p, flags);
  StrokeModeler m;
#ifdef OTHER  // other parameters and strokes first, in another modeler (1) or the same one (2)
  for (int k = 0; k < 2; ++k) {
    StrokeModelParams q = baseParams((k ? flags & KALMAN ? 0 : KALMAN : DISABLED) | ((flags ^ (WOBBLE | LOOP | NORMAL)) & (WOBBLE | LOOP | NORMAL)), 30, 7);
    q.position_modeler_params.spring_mass_constant = .001f; q.position_modeler_params.drag_constant = 30;
    q.sampling_params.min_output_rate = 70; q.sampling_params.end_of_stroke_stopping_distance = .5;
    q.stylus_state_modeler_params.max_input_samples = 2; q.wobble_smoother_params.timeout = Duration(.5);
    StrokeModeler &o = OTHER == 2 ? m : *new StrokeModeler;
    vp_check(code(o.Reset(q)) == kOk, "reset accepted");
    std::vector<Result> v;
    Input x{.event_type = kDown, .position = {-7, 3}, .time = Time(.1)};
    (void)o.Update(x, v).ok();
    o.Save();
    x.event_type = kMove; x.position = {-3, 9}; x.time = Time(.113); x.pressure = .3f; x.tilt = .1f;
    (void)o.Update(x, v).ok();
    (void)o.Predict(v).ok();
    if (k) { x.event_type = kUp; x.position = {4, 9}; x.time = Time(.122); (void)o.Update(x, v).ok(); }
  }
#endif
  static ref::Modeler r;
  vp_check(code(m.Reset(p)) == kOk, "reset accepted");
  r.reset(p);
  int i = 0;
  Time last;
  float lastX = 0;
  std::vector<Result> got;
  std::vector<ref::Raw> want;
  for (const char *s = kScripts[c % 16]; *s; ++s) {
    got.clear(); want.clear();
    if (*s == 'P') {
      vp_check(code(m.Predict(got)) == kOk, "prediction made");
      r.predict(want);
    } else {
      bool again = *s == 'S' || *s == 'T';
      Input x = in(i++, *s == 'D' ? kDown : *s == 'M' || *s == 'S' ? kMove : kUp, flags);
      if (again) { x.time = last; vp_assume(x.position.x != lastX); }
      last = x.time; lastX = x.position.x;
      int st = code(m.Update(x, got));
      bool ok = true;
      if (*s == 'D') r.down(x, want); else ok = x.event_type == kMove ? r.move(x, want) : r.up(x, want);
      vp_check((st == kOk) == ok, "input accepted or rejected");
      if (!ok) vp_end();
    }
    observe(got);
    ref::match(got, want, WHICH, *s == 'P' ? "prediction" : *s == 'U' || *s == 'T' ? "results of an up" : "results");
    vp_reach(*s == 'P' ? "predicted" : *s == 'U' || *s == 'T' ? "up" : "moved");
  }
}
