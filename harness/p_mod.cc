// Single stages of the model against the reference of ref.h.
#include "ref.h"
#include "ink_stroke_modeler/internal/internal_types.h"
#include "ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.h"
#include "ink_stroke_modeler/internal/position_modeler.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.h"
#include "ink_stroke_modeler/internal/prediction/kalman_predictor.h"
#include "ink_stroke_modeler/internal/stylus_state_modeler.h"
#include "ink_stroke_modeler/internal/utils.h"
#include "ink_stroke_modeler/internal/wobble_smoother.h"
#ifndef PART
#define PART 0
#endif
static float pos(const char *p, int i) { return vp_f32(Nm(p, i), -100, 100); }
static void close(float a, float b, const char *l, double tol = 1e-3) { vp_check_close32(a, b, tol, l); }
static void close(Vec2 a, ref::V b, const char *l, double tol = 1e-3) { close(a.x, b.x, l, tol); close(a.y, b.y, l, tol); }
static TipState tipOf(const ref::Tip &t) { return {.position = {t.p.x, t.p.y}, .velocity = {t.v.x, t.v.y}, .acceleration = {t.a.x, t.a.y}, .time = Time(t.t)}; }

#if PART == 0
// the smoother: 1-5 updates, any two speed limits; case = window * 5 + updates - 1
// + 20 * (0 regular times, 1 times on the very edge of the window, 2 a long
// pause before the last, 3 some equal times, 4 regular, after an earlier stroke)
void vp_harness(void) {
  int c = vp_case() % 20, kind = vp_case() / 20, n = 1 + c % 5;
  WobbleSmootherParams P;
  P.is_enabled = c / 5 != 3;
  P.timeout = Duration(c / 5 == 0 ? 1.0 : c / 5 == 1 ? .0078125 : .015625);
  P.speed_floor = vp_f32("floor", 0, 1000);
  P.speed_ceiling = P.speed_floor + vp_f32("above", 0, 1000);
  ref::Wobble r;
  WobbleSmoother w;
  if (kind == 4) {
    w.Reset(P, {1, 2}, Time(.5));
    for (int i = 0; i < 3; ++i) w.Update({pos("ox", i), pos("oy", i)}, Time(.5 + .004 * (i + 1)));
  }
  ref::V p0{pos("x", 0), pos("y", 0)};
  w.Reset(P, {p0.x, p0.y}, Time(1));
  r.reset(P, p0, 1);
  for (int i = 1; i <= n; ++i) {
    ref::V p{pos("x", i), pos("y", i)};
    double lo = 1 + .005 * i, t = kind == 1 ? 1 + .00390625 * i : kind == 2 && i == n ? lo + .011 : kind == 3 ? 1 + .005 * (i / 2) : vp_f64(Nm("t", i), lo, lo + .0005);
    Vec2 got = w.Update({p.x, p.y}, Time(t));
    ref::V want = r.update(p, t);
    vp_observe32("px", got.x); vp_observe32("py", got.y);
    close(got, want, "smoothed position");
    vp_reach("smoothed");
  }
}
#elif PART == 1
// stylus state at the closest point of the raw polyline: 1-4 inputs (at most 3
// kept in the odd cases), any query point. case = updates - 1 + 4 * limited + 8 * unknown
void vp_harness(void) {
  int c = vp_case(), n = 1 + c % 4, unk = c / 8;
  StylusStateModelerParams P;
  P.use_stroke_normal_projection = false;
  P.max_input_samples = (c & 4) ? 2 : 10;
  StylusStateModeler m;
  ref::Stylus r;
  m.Reset(P);
  r.reset(P);
  for (int i = 0; i < n; ++i) {
    ref::V p{pos("x", i), pos("y", i)};
    double t = 1 + .005 * i;
    float pr = vp_f32(Nm("pr", i), 0, 1), ti = vp_f32(Nm("ti", i), 0, 1.57f), orr = vp_f32(Nm("or", i), 2, 2.5f);
    if (unk == 1 && i == 1) pr = -1;
    if (unk == 2 && i == 0) ti = std::numeric_limits<float>::quiet_NaN();
    if (unk == 3) { orr = i == n - 1 ? -2.f : orr; pr = i == 0 ? -.5f : pr; }
    if (unk == 4) { pr = ti = -1; if (i == 1) orr = -1; }
    m.Update({p.x, p.y}, Time(t), {.pressure = pr, .tilt = ti, .orientation = orr});
    r.update(p, t, pr, ti, orr);
  }
  ref::Tip tip;
  tip.p = {pos("qx", 0), pos("qy", 0)};
  tip.v = {pos("vx", 0), pos("vy", 0)};
  tip.a = {1, 2}; tip.t = 1.25;
  Result g = m.Query(tipOf(tip), std::nullopt);
  ref::Raw w = r.query(tip, false, {});
  vp_observe32("pr", g.pressure); vp_observe32("ti", g.tilt); vp_observe32("or", g.orientation);
  vp_observe32("px", g.position.x); vp_observe32("py", g.position.y);
  close(g.pressure, w.pr, "pressure"); close(g.tilt, w.ti, "tilt"); close(g.orientation, w.orr, "orientation");
  vp_check(g.time.Value() == w.t, "time of the queried state");
  close(g.position, w.p, "projected position"); close(g.velocity / 64, w.v / 64, "projected velocity"); close(g.acceleration / 16384, w.a / 16384, "projected acceleration");
  vp_reach("queried");
}
#elif PART == 9
// which values count as unknown: one field of each of 1-3 inputs any float at
// all (NaN, infinite, negative). case = inputs - 1 + 3 * field + 9 * projection
void vp_harness(void) {
  int c = vp_case(), n = 1 + c % 3, f = c / 3 % 3;
  bool proj = c / 9;
  StylusStateModelerParams P;
  P.use_stroke_normal_projection = proj;
  P.max_input_samples = 10; P.min_input_samples = 10; P.min_sample_duration = Duration(.1);
  StylusStateModeler m;
  ref::Stylus r;
  m.Reset(P);
  r.reset(P);
  static const float px[] = {0, 4, 6}, py[] = {0, 1, 5};
  bool unknown = false, plain = true;
  for (int i = 0; i < n; ++i) {
    float v = vp_f32_any(Nm("any", i)), o[3] = {.5f, .25f, 1.f + i};
    o[f] = v;
    unknown |= (v < 0) | (v != v);
    plain &= (v >= 0) & (v <= 6);
    double t = 1 + .005 * i;
    m.Update({px[i], py[i]}, Time(t), {.pressure = o[0], .tilt = o[1], .orientation = o[2]});
    r.update({px[i], py[i]}, t, o[0], o[1], o[2]);
  }
  ref::Tip tip;
  tip.p = {n == 3 || proj ? 3.f : vp_f32("qx", -10, 10), 2}; tip.v = {1, 2}; tip.a = {1, -2}; tip.t = 1.25;
  ref::V nn{-2, 1};
  Result g = m.Query(tipOf(tip), proj ? std::optional<Vec2>(Vec2{nn.x, nn.y}) : std::nullopt);
  ref::Raw w = r.query(tip, proj, nn);
  float got[3] = {g.pressure, g.tilt, g.orientation}, want[3] = {w.pr, w.ti, w.orr};
  for (int k = 0; k < 3; ++k) {
    vp_observe32("field", got[k]);
    if (k != f) close(got[k], want[k], "a known field is interpolated");
  }
  if (unknown) {
    vp_check(got[f] == -1, "a field that was unknown (negative or NaN) in any input is -1");
    vp_reach("unknown");
  } else if (plain) {
    close(got[f], want[f], "a field known in all inputs is interpolated");
    vp_reach("known");
  }
  vp_reach("queried");
}
#elif PART == 2
// the same along the stroke normal: a bent polyline of 1-4 inputs, any query
// point, any acceleration, any stylus values. case = inputs - 1 + 4 * long
// history + 8 * short duration + 16 * normal (3: none) + 64 * shape; shape 3
// is a zigzag of 3-6 inputs, near and far by turns, which crosses the normal several times on both sides
void vp_harness(void) {
  int c = vp_case(), n = 1 + c % 4, sh = c / 64, no = c / 16 % 4;
  if (sh == 3) n += 2;
  static const float nxs[] = {0, 2, -.6f, 0}, nys[] = {1, .5f, .8f, 0};
  static const ref::V shapes[][6] = {{{0, 0}, {4, 0}, {4, 5}, {-3, 5}}, {{1, 1}, {3, 4}, {5, 1}, {8, -2}}, {{2, 2}, {2, 2}, {6, 3}, {1, 1}}, {{-8, -5}, {8, -7}, {-8, 9}, {8, -15}, {-8, 19}, {8, -11}}};
  StylusStateModelerParams P;
  P.use_stroke_normal_projection = true;
  P.min_input_samples = sh == 3 ? 6 : (c & 4) ? 2 : 5;
  P.min_sample_duration = Duration((c & 8) ? .004 : .008);
  StylusStateModeler m;
  ref::Stylus r;
  m.Reset(P);
  r.reset(P);
  for (int i = 0; i < n; ++i) {
    ref::V p = shapes[sh][i];
    double t = 1 + .005 * i;
    float pr = vp_f32(Nm("pr", i), 0, 1), ti = vp_f32(Nm("ti", i), 0, 1.5f);
    m.Update({p.x, p.y}, Time(t), {.pressure = pr, .tilt = ti, .orientation = -1});
    r.update(p, t, pr, ti, -1);
  }
  ref::Tip tip;
  tip.p = {vp_f32("qx", -10, 10), vp_f32("qy", -10, 10)};
  tip.v = {1, 2};
  tip.a = {pos("ax", 0), pos("ay", 0)}; tip.t = 1.25;
  ref::V nn{nxs[no], nys[no]};
  bool has = no != 3;
  Result g = m.Query(tipOf(tip), has ? std::optional<Vec2>(Vec2{nn.x, nn.y}) : std::nullopt);
  ref::Raw w = r.query(tip, has, nn);
  vp_observe32("pr", g.pressure);
  vp_observe32("px", g.position.x); vp_observe32("py", g.position.y);
  close(g.pressure, w.pr, "pressure"); close(g.tilt, w.ti, "tilt"); close(g.orientation, w.orr, "orientation");
  vp_check(g.time.Value() == w.t, "time of the queried state");
  close(g.position, w.p, "projected position"); close(g.velocity / 64, w.v / 64, "projected velocity"); close(g.acceleration / 16384, w.a / 16384, "projected acceleration");
  vp_reach("queried");
}
#elif PART == 3
// direction of the stroke normal
void vp_harness(void) {
  int c = vp_case();
  ref::Tip t;
  t.p = {pos("x", 0), pos("y", 0)};
  t.v = {pos("vx", 0), pos("vy", 0)};
  t.a = {pos("ax", 0), pos("ay", 0)};
  if (c == 1) t.v = {0, 0};
  if (c == 2) t.a = {0, 0};
  if (c == 3) t.v = t.a = {0, 0};
  t.t = vp_f64("t", 1, 1.01);
  double prev = vp_f64("prev", .99, 1);
  std::optional<Vec2> g = GetStrokeNormal(tipOf(t), Time(prev));
  ref::V w;
  bool has = ref::strokeNormal(t, prev, w);
  vp_observe_i("has", g.has_value());
  vp_check(g.has_value() == has, "normal present");
  if (g.has_value() && has) {
    vp_observe32("nx", g->x); vp_observe32("ny", g->y);
    close(*g, w, "normal");
    vp_reach("normal");
  } else vp_reach("none");
}
#elif PART == 4
// strength of the loop contraction mitigation; case = window * 5 + samples
void vp_harness(void) {
  int c = vp_case(), n = c % 5;
  if (c >= 20) { n = c - 20; c = 16; }  // a window that keeps everything
  bool keep = vp_case() >= 20;
  PositionModelerParams::LoopContractionMitigationParameters P;
  P.is_enabled = c < 15 || keep;
  P.speed_lower_bound = vp_f32("lower", 0, 500);
  P.speed_upper_bound = P.speed_lower_bound + vp_f32("range", 0, 500);
  P.interpolation_strength_at_speed_lower_bound = vp_f32("s0", 0, 1);
  P.interpolation_strength_at_speed_upper_bound = vp_f32("s1", 0, 1);
  P.min_speed_sampling_window = Duration(keep ? .5 : c / 5 == 1 ? .001 : .008);
  P.min_discrete_speed_samples = c / 5 == 2 ? 1 : 3;
  LoopContractionMitigationModeler m;
  ref::Loop r;
  m.Reset(P);
  r.reset(P);
  close(m.GetInterpolationValue(), r.value(), "initial strength");
  for (int i = 0; i < n; ++i) {
    ref::V v{vp_f32(Nm("vx", i), -1000, 1000), vp_f32(Nm("vy", i), -1000, 1000)};
    double t = 1 + .005 * i;
    float g = m.Update({v.x, v.y}, Time(t));
    vp_observe32("strength", g);
    close(g, r.update(v, t), "strength", 1e-3);
    close(m.GetInterpolationValue(), r.value(), "strength kept", 1e-3);
    vp_reach("updated");
  }
  vp_reach("end");
}
#elif PART == 5
// interpolation primitives
void vp_harness(void) {
  int c = vp_case();
  if (c < 8) {  // any two angles within each range
    static const double lo[] = {0, -6.2831855, 3, 0, 4, -3, 6, -12.5}, hi[] = {3.2, 0, 6.283185, 6.283185, 6.283185, 3, 12.5, -6};
    float a = vp_f32("a", lo[c], hi[c]), b = vp_f32("b", c & 1 ? 0 : lo[c], c & 1 ? 6.283185 : hi[c]), t = vp_f32("t", -1, 2);
    float g = InterpAngle(a, b, t);
    vp_observe32("angle", g);
    close(g, ref::lerpAngle(a, b, t), "shortest arc");
    vp_check(g >= 0 && g <= 6.2831860, "angle in range");
  } else if (c == 8) {
    float a = vp_f32("a", -1e6, 1e6), b = vp_f32("b", -1e6, 1e6), t = vp_f32("t", -2, 3);
    close(Interp(a, b, t), ref::lerp(a, b, t), "interpolation");
    close(Normalize01(a, b, t), ref::norm01(a, b, t), "normalisation");
    vp_check(Interp(a, b, 0.f) == a, "interpolation at 0");
    vp_check(Clamp01(t) >= 0 && Clamp01(t) <= 1, "clamped");
  } else if (c == 9) {
    Vec2 a{pos("ax", 0), pos("ay", 0)}, b{pos("bx", 0), pos("by", 0)}, p{pos("px", 0), pos("py", 0)};
    close(NearestPointOnSegment(a, b, p), ref::nearest(ref::v2(a), ref::v2(b), ref::v2(p)), "nearest point");
    close(Distance(a, b), ref::dist(ref::v2(a), ref::v2(b)), "distance");
  } else {
    Result a, b;
    auto fill = [](Result &r, int i) {
      r.position = {pos("x", i), pos("y", i)}; r.velocity = {pos("u", i), pos("v", i)}; r.acceleration = {pos("ax", i), pos("ay", i)};
      r.time = Time(vp_f64(Nm("t", i), 0, 10));
      r.pressure = vp_f32(Nm("pr", i), -1, 1); r.tilt = vp_f32(Nm("ti", i), -1, 1.5); r.orientation = vp_f32(Nm("or", i), -1, 2);
    };
    fill(a, 0); fill(b, 1);
    float t = vp_f32("t", -1, 2);
    auto raw = [](const Result &r) { ref::Raw q; q.p = ref::v2(r.position); q.v = ref::v2(r.velocity); q.a = ref::v2(r.acceleration); q.t = r.time.Value(); q.pr = r.pressure; q.ti = r.tilt; q.orr = r.orientation; return q; };
    Result g = InterpResult(a, b, t);
    ref::Raw w = ref::lerpRaw(raw(a), raw(b), t);
    close(g.position, w.p, "position"); close(g.velocity, w.v, "velocity"); close(g.acceleration, w.a, "acceleration");
    vp_check_close64(g.time.Value(), w.t, 1e-6, "time");
    close(g.pressure, w.pr, "pressure"); close(g.tilt, w.ti, "tilt"); close(g.orientation, w.orr, "orientation");
  }
  vp_reach("end");
}
#elif PART == 6
// one Kalman filter, any observations; case = updates - 1 + 6 * noise; from 18
// on after a first stroke and a Reset, from 36 on after a short one
void vp_harness(void) {
  int c = vp_case(), old = c < 36 ? 4 : c < 54 ? 2 : 1, n = 1 + c % 6, no = c / 6 % 3;
  static const double pn[] = {.00026458, .5, 10}, mn[] = {.026458, .5, .001};
  AxisPredictor a(pn[no], mn[no], 3);
  ref::Axis r;
  r.pn = pn[no]; r.mn = mn[no];
  r.reset();
  if (c >= 18) { for (int i = 0; i < old; ++i) a.Update(vp_f64(Nm("old", i), -1e3, 1e3)); a.Reset(); }
  vp_check(a.NumIterations() == 0 && !a.Stable(), "fresh filter");
  for (int i = 0; i < n; ++i) {
    double z = vp_f64(Nm("z", i), -1e3, 1e3);
    a.Update(z);
    r.update(z);
    vp_observe64("pos", a.GetPosition());
    vp_check_close64(a.GetPosition(), r.x[0], 1e-6, "position estimate");
    vp_check_close64(a.GetVelocity(), r.x[1], 1e-6, "velocity estimate");
    vp_check_close64(a.GetAcceleration(), r.x[2], 1e-6, "acceleration estimate");
    vp_check_close64(a.GetJerk(), r.x[3], 1e-6, "jerk estimate");
    vp_check(a.NumIterations() == i + 1 && a.Stable() == (i + 1 >= 3), "stable after enough observations");
  }
  vp_reach("end");
}
#elif PART == 7
// estimated state of the predictor, any positions; case = updates - 1 + 6 * settings
void vp_harness(void) {
  int c = vp_case(), n = 1 + c % 6, va = c / 6;
  KalmanPredictorParams k = std::get<KalmanPredictorParams>(baseParams(KALMAN).prediction_params);
  k.acceleration_weight = va == 1 ? .5f : vp_f32("aw", 0, 1);
  k.jerk_weight = va == 1 ? .1f : vp_f32("jw", 0, 1);
  k.max_time_samples = va == 2 ? 2 : 20;
  k.min_stable_iteration = va == 1 ? 3 : 1;
  SamplingParams S = baseParams(KALMAN).sampling_params;
  KalmanPredictor a(k, S);
  ref::Kalman r;
  r.configure(k, S.min_output_rate);
  if (va == 3) {
    a.Update({1, 2}, Time(.5)); a.Update({3, 4}, Time(.6));
    a.Reset();
  }
  vp_check(!a.GetEstimatedState().has_value(), "nothing to estimate yet");
  for (int i = 0; i < n; ++i) {
    ref::V p{pos("x", i), pos("y", i)};
    double t = 1 + .004 * i + .001 * (i % 3);
    a.Update({p.x, p.y}, Time(t));
    r.update(p, t);
    auto g = a.GetEstimatedState();
    vp_check(g.has_value() == r.ready(), "estimate available");
    if (!g.has_value() || i == 0) continue;
    ref::Kalman::St w = r.estimate();
    vp_observe32("px", g->position.x); vp_observe32("vy", g->velocity.y);
    close(g->position, w.p, "estimated position");
    close(g->velocity, w.v, "estimated velocity");
    close(g->acceleration, w.a, "estimated acceleration");
    close(g->jerk, w.j, "estimated jerk");
    vp_reach("estimated");
  }
  vp_reach("end");
}
#elif PART == 8
// a whole prediction from tips at various distances and speeds
void vp_harness(void) {
  int c = vp_case(), dc = c % 5, vc = c / 5 % 3, mc = c / 15 % 3;
  static const float ds[] = {0, .25f, 4, 20, -3}, vs[] = {0, 9, 150}, ms[] = {.5f, 60, 200};
  auto bp = baseParams(KALMAN);
  KalmanPredictorParams k = std::get<KalmanPredictorParams>(bp.prediction_params);
  k.min_catchup_velocity = ms[mc];
  k.confidence_params.max_estimation_distance = 5;
  k.confidence_params.max_linear_deviation = 50;
  k.confidence_params.desired_number_of_samples = 4;
  KalmanPredictor a(k, bp.sampling_params);
  ref::Kalman r;
  r.configure(k, bp.sampling_params.min_output_rate);
  for (int i = 0; i < 6; ++i) {
    ref::V p{1.f + .3f * i + .02f * i * i, 2.f - .1f * i};
    double t = 1 + .004 * i;
    a.Update({p.x, p.y}, Time(t));
    r.update(p, t);
  }
  ref::Tip tip;
  tip.p = {3.f + ds[dc], vp_f32("ty", 1.5, 1.5 + 1e-5)};
  tip.v = {vs[vc], vs[vc] / 4};
  tip.a = {1, 2}; tip.t = 1.02;
  std::vector<TipState> g;
  g.push_back({});
  a.ConstructPrediction(tipOf(tip), g);
  std::vector<ref::Tip> w;
  r.predict(tip, w);
  vp_observe_i("n", (int)g.size());
  vp_check(g.size() == w.size(), "length of the prediction");
  if (g.size() != w.size()) return;
  for (size_t i = 0; i < g.size(); ++i) {
    close(g[i].position, w[i].p, "predicted position");
    close(g[i].velocity / 64, w[i].v / 64, "predicted velocity");
    close(g[i].acceleration / 1024, w[i].a / 1024, "predicted acceleration", 1e-2);
    vp_check_close64(g[i].time.Value(), w[i].t, 1e-7, "predicted time");
  }
  vp_reach("end");
}
#endif
