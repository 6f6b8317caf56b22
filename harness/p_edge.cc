// Every decision of the stages on its very edge: the data are fixed dyadic numbers on
// which all arithmetic is exact, whichever way it is written, and the
// thresholds are symbolic, so the solver puts each exactly where the decision turns.
#include "ref.h"
#include "ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.h"
#include "ink_stroke_modeler/internal/position_modeler.h"
#include "ink_stroke_modeler/internal/prediction/kalman_predictor.h"
#include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
#include "ink_stroke_modeler/internal/stylus_state_modeler.h"
#include "ink_stroke_modeler/internal/utils.h"
#include "ink_stroke_modeler/internal/wobble_smoother.h"
#ifndef PART
#define PART 0
#endif
static void close(float a, float b, const char *l, double tol = 1e-5) { vp_check_close32(a, b, tol, l); }
[[maybe_unused]] static void close(Vec2 a, ref::V b, const char *l, double tol = 1e-5) { close(a.x, b.x, l, tol); close(a.y, b.y, l, tol); }
[[maybe_unused]] static TipState tipOf(const ref::Tip &t) { return {.position = {t.p.x, t.p.y}, .velocity = {t.v.x, t.v.y}, .acceleration = {t.a.x, t.a.y}, .time = Time(t.t)}; }
// 3-4-5 triangles, stops, turns
[[maybe_unused]] static const ref::V kPts[][6] = {{{0, 0}, {4, 0}, {8, 0}, {16, 0}, {16, 0}, {24, 0}},
                                 {{0, 0}, {3, 4}, {3, 0}, {6, 4}, {0, -4}, {6, 4}},
                                 {{1, 1}, {1, 1}, {4, 5}, {4, 5}, {4, 5}, {1, 1}},
                                 {{0, 8}, {0, 4}, {0, 2}, {0, 10}, {0, 10}, {0, 4}}};

#if PART == 0
// wobble smoother; case = points + 4 * (0 any limits, 1 equal limits, 2 any window)
void vp_harness(void) {
  int c = vp_case(), s = c % 4, k = c / 4;
  WobbleSmootherParams P;
  P.is_enabled = true;
  P.timeout = Duration(k == 2 ? vp_f64("timeout", 0, .25) : s & 1 ? .125 : .0625);
  P.speed_floor = k == 2 ? 1e6f : vp_f32("floor", 0, 512);
  P.speed_ceiling = k == 2 ? 2e6f : k == 1 ? P.speed_floor : vp_f32("ceiling", 0, 512);
  vp_assume(P.speed_floor <= P.speed_ceiling);
  ref::Wobble r;
  WobbleSmoother w;
  w.Reset(P, {kPts[s][0].x, kPts[s][0].y}, Time(1));
  r.reset(P, kPts[s][0], 1);
  for (int i = 1; i < 6; ++i) {
    double t = 1 + .03125 * i;
    Vec2 got = w.Update({kPts[s][i].x, kPts[s][i].y}, Time(t));
    close(got, r.update(kPts[s][i], t), "smoothed position");
    vp_observe32("px", got.x);
  }
  vp_reach("end");
}
#elif PART == 1
// end of a stroke; case = direction + 4 * spring + 12 * (0 position modeler, 1 stroke-end prediction) + 24 * moving
void vp_harness(void) {
  int c = vp_case(), d = c % 4, s = c / 4 % 3, pred = c / 12 % 2, mv = c / 24;
  static const ref::V to[] = {{4, 0}, {0, -8}, {3, 4}, {-6, 8}};
  static const float ks[] = {2, 4, 1}, ds[] = {.5f, 0, .5f};
  float stop = vp_f32("stop", 1e-4, 16);
  ref::Spring m;
  m.k = ks[s]; m.drag = ds[s];
  if (mv) m.s.v = .5f * to[d];
  m.s.t = 1;
  std::vector<ref::Tip> want;
  std::vector<TipState> got;
  PositionModelerParams Q;
  Q.spring_mass_constant = ks[s]; Q.drag_constant = ds[s];
  if (pred) {
    SamplingParams S;
    S.min_output_rate = 2; S.end_of_stroke_max_iterations = 5; S.end_of_stroke_stopping_distance = stop; S.max_outputs_per_call = 10;
    StrokeEndPredictor p(Q, S);
    p.Update({to[d].x, to[d].y}, Time(1));
    p.ConstructPrediction(tipOf(m.s), got);
    ref::endOfStroke(m, to[d], .5, 5, stop, want);
  } else {
    PositionModeler p;
    p.Reset(tipOf(m.s), Q);
    p.ModelEndOfStroke({to[d].x, to[d].y}, Duration(1), 4, stop, std::back_inserter(got));
    ref::endOfStroke(m, to[d], 1, 4, stop, want);
  }
  vp_observe_i("n", (int)got.size());
  vp_check(got.size() == want.size(), "number of states at the end of the stroke");
  if (got.size() != want.size()) return;
  for (size_t i = 0; i < got.size(); ++i) {
    close(got[i].position, want[i].p, "position");
    close(got[i].velocity, want[i].v, "velocity");
    vp_check(got[i].time.Value() == want[i].t, "time");
  }
  vp_reach("end");
}
#elif PART == 2
// which raw inputs count; case = points + 4 * samples (0: one, ...) + 16 * projection
void vp_harness(void) {
  int c = vp_case(), s = c % 4, n = 1 + c / 4 % 4;
  bool proj = c / 16;
  StylusStateModelerParams P;
  P.use_stroke_normal_projection = proj;
  P.max_input_samples = n; P.min_input_samples = n;
  P.min_sample_duration = Duration(proj ? vp_f64("duration", 0, .25) : 1);
  StylusStateModeler m;
  ref::Stylus r;
  m.Reset(P);
  r.reset(P);
  for (int i = 0; i < 6; ++i) {
    double t = 1 + .03125 * i;
    float pr = .125f * i, ti = 1 - .125f * i;
    m.Update({kPts[s][i].x, kPts[s][i].y}, Time(t), {.pressure = pr, .tilt = ti, .orientation = 1});
    r.update(kPts[s][i], t, pr, ti, 1);
    ref::Tip tip;
    tip.p = {2, 2}; tip.v = {1, 0}; tip.a = {0, 1}; tip.t = t;
    ref::V nn = s == 0 ? ref::V{0, 1} : ref::V{1, 0};
    // the oldest input that still counts is the nearest end for a far point
    if (i & 1) tip.p = kPts[s][0];
    std::optional<Vec2> no;
    if (proj && i < 4) no = Vec2{nn.x, nn.y};
    Result g = m.Query(tipOf(tip), no);
    ref::Raw w = r.query(tip, no.has_value(), nn);
    close(g.pressure, w.pr, "pressure"); close(g.tilt, w.ti, "tilt"); close(g.position, w.p, "projected position");
    vp_observe32("pr", g.pressure);
  }
  vp_reach("end");
}
#elif PART == 3
// mitigation; case = (0 any window, 1 any bounds, 2 equal bounds) + 3 * fewest samples (1..4) + 12 * after a first stroke
void vp_harness(void) {
  int c = vp_case(), k = c % 3;
  PositionModelerParams::LoopContractionMitigationParameters P;
  P.is_enabled = true;
  P.speed_lower_bound = k ? vp_f32("lower", 0, 64) : 2;
  P.speed_upper_bound = k == 2 ? P.speed_lower_bound : k ? vp_f32("upper", 0, 64) : 34;
  vp_assume(P.speed_lower_bound <= P.speed_upper_bound);
  P.interpolation_strength_at_speed_lower_bound = 1;
  P.interpolation_strength_at_speed_upper_bound = .25f;
  P.min_speed_sampling_window = Duration(k == 0 ? vp_f64("window", .001, .25) : .0625);
  P.min_discrete_speed_samples = 1 + c / 3 % 4;
  LoopContractionMitigationModeler m;
  ref::Loop r;
  if (c >= 12) {
    m.Reset(P);
    for (int i = 0; i < 3; ++i) m.Update({30.f * i, 40.f * i}, Time(.5 + .03125 * i));
  }
  m.Reset(P);
  r.reset(P);
  static const ref::V v[] = {{3, 4}, {0, 8}, {0, 8}, {-30, 40}, {0, 0}, {5, 12}};
  vp_check(m.GetInterpolationValue() == 1, "initial strength");
  for (int i = 0; i < 6; ++i) {
    float g = m.Update({v[i].x, v[i].y}, Time(1 + .03125 * i));
    vp_observe32("strength", g);
    close(g, r.update(v[i], 1 + .03125 * i), "strength");
  }
  vp_reach("end");
}
#elif PART == 4
// Kalman prediction from inputs at rest, where the estimate is exact; case = (0
// any catch-up velocity, 1 any distance, 2 any prediction interval, 3 any numbers of samples) + 4 * points
void vp_harness(void) {
  int c = vp_case(), k = c % 4, n = 1 + c / 4;  // up to 12 inputs
  auto bp = baseParams(KALMAN);
  KalmanPredictorParams K = std::get<KalmanPredictorParams>(bp.prediction_params);
  SamplingParams S = bp.sampling_params;
  S.min_output_rate = 64;
  K.min_stable_iteration = k == 3 ? vp_i32("stable", 1, 12) : 1;
  K.max_time_samples = k == 3 ? vp_i32("times", 2, 12) : 6;
  K.min_catchup_velocity = k == 0 ? vp_f32("catchup", 48, 512) : 64;
  K.prediction_interval = Duration(k == 2 ? vp_f64("interval", .002, .1) : k == 3 ? .25 : .03125);
  auto &f = K.confidence_params;
  f.desired_number_of_samples = k == 3 ? vp_i32("desired", 1, 16) : 1;
  f.max_estimation_distance = 4; f.max_linear_deviation = 1; f.baseline_linearity_confidence = .5f;
  f.min_travel_speed = -2; f.max_travel_speed = -1;  // at rest counts as full speed
  KalmanPredictor a(K, S);
  ref::Kalman r;
  r.configure(K, S.min_output_rate);
  for (int i = 0; i < n; ++i) { a.Update({1, 2}, Time(1 + .015625 * i)); r.update({1, 2}, 1 + .015625 * i); }
  ref::Tip tip;
  tip.p = {1.f + (k == 1 ? vp_f32("distance", 0, 6) : k == 0 ? 6.f : 1.5f), 2};
  tip.t = 2;
  std::vector<TipState> g;
  a.ConstructPrediction(tipOf(tip), g);
  std::vector<ref::Tip> w;
  r.predict(tip, w);
  vp_observe_i("n", (int)g.size());
  vp_check(g.size() == w.size(), "length of the prediction");
  if (g.size() != w.size()) return;
  for (size_t i = 0; i < g.size(); ++i) {
    close(g[i].position, w[i].p, "predicted position");
    vp_check_close64(g[i].time.Value(), w[i].t, 1e-7, "predicted time");
  }
  vp_reach("end");
}
#elif PART == 5
// the primitives turned by a quarter and mirrored, any arguments, also exactly
// along an axis; case = which vectors lie along an axis + 4 * primitive
static Vec2 any(const char *n, bool axis) { return {axis ? 0.f : vp_f32(Nm(n, 0), -100, 100), vp_f32(Nm(n, 1), -100, 100)}; }
void vp_harness(void) {
  int c = vp_case(), p = c / 4;
  Vec2 a = any("a", c & 1), b = any("b", c & 2);
  for (int turn = 0; turn < 2; ++turn) {
    auto T = [&](Vec2 v) { return turn ? Vec2{v.y, v.x} : Vec2{-v.y, v.x}; };
    const char *lb = "the same in turned axes";
    if (p == 0) {
      auto x = a.AbsoluteAngleTo(b), y = T(a).AbsoluteAngleTo(T(b));
      vp_check(x.ok() && y.ok(), lb);
      vp_observe32("angle", *x);
      close(*x, *y, lb, 1e-3);
    } else if (p == 1) {
      close(a.Magnitude(), T(a).Magnitude(), lb); close(Distance(a, b), Distance(T(a), T(b)), lb);
      close(Vec2::DotProduct(a, b), Vec2::DotProduct(T(a), T(b)), lb);
    } else if (p == 2) {
      Vec2 q = any("q", false);
      close(NearestPointOnSegment(a, b, q), NearestPointOnSegment(T(a), T(b), T(q)), lb, 1e-3);
    } else if (p == 3) {
      TipState s, u;
      s.position = u.position = {1, 2}; s.velocity = a; s.acceleration = b; s.time = u.time = Time(1.25);
      u.velocity = T(a); u.acceleration = T(b);
      auto x = GetStrokeNormal(s, Time(1.125)), y = GetStrokeNormal(u, Time(1.125));
      vp_check(x.has_value() == y.has_value(), lb);
      // mirrored, left becomes right
      if (x && y) { Vec2 e = T(*x); if (turn) e = {-e.x, -e.y}; close(y->x, e.x, lb); close(y->y, e.y, lb); }
    } else {
      Vec2 q = any("q", false), n = {1, 2};
      auto x = ProjectToSegmentAlongNormal(a, b, q, n), y = ProjectToSegmentAlongNormal(T(a), T(b), T(q), T(n));
      vp_check(x.has_value() == y.has_value(), lb);
      if (x && y) close(*x, *y, lb, 1e-3);
    }
  }
  vp_reach("end");
}
#endif
