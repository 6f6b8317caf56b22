// How many results a move or up adds, and at which times.
#include "sm.h"
#include "ink_stroke_modeler/internal/position_modeler.h"
#ifndef PART
#define PART 0
#endif
#if PART == 3
static const double kRates[] = {128, 64, 1024, 32};
#else
static const double kRates[] = {180, 60, 1000, 33.3, 240.5, 7};
#endif
static Input at(double t, float x, float y, Input::EventType ev) {
  Input in;
  in.event_type = ev; in.position = {x, y}; in.time = Time(t);
  in.pressure = in.tilt = in.orientation = -1;
  return in;
}
// times of results from..from+n-1 go in n equal steps from t0 to t1
static void checkTimes(const std::vector<Result> &r, size_t from, int n, double t0, double t1, double rate) {
  double prev = t0;
  for (int i = 0; i < n; ++i) {
    double t = r[from + i].time.Value(), gap = t - prev;
    vp_observe64("t", t);
    vp_check(t > prev, "times increase");
    vp_check(gap <= (1 + 1e-5) / rate, "the gap between results is at most 1/min_output_rate");
    double want = t0 + (t1 - t0) * ((double)(i + 1) / n), d = t - want, tol = (t1 - t0) * 1e-5;
    vp_check((d <= tol) & (-d <= tol), "times are evenly spaced");
    prev = t;
  }
  double e = prev - t1;
  vp_check((e <= 1e-9) & (-e <= 1e-9), "the last time is the input's");
}
void vp_harness() {
  int c = vp_case();
#if PART == 0 || PART == 3
  // case = (rate * 2 + up) * 32 + k, k < 20: dt strictly between k and k+1 steps;
  // 20..31: dt around a whole number of steps. PART 3: up to and including
  // a whole number of steps, all exactly representable
  int k = c % 32, up = c / 32 % 2;
  double rate = kRates[c / 64];
  StrokeModelParams p = baseParams(DISABLED, 1000, 3);
  p.sampling_params.min_output_rate = rate;
  int cap = vp_i32("max_outputs", 1, 60);
  p.sampling_params.max_outputs_per_call = cap;
  StrokeModeler m;
  vp_check(m.Reset(p).ok(), "Reset(params)");
  double t0 = k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : 100.25, lo, hi;
  int nlo, nhi;
  if (k < 20) { lo = k / rate * (1 + 1e-6) + 1e-9; hi = (k + 1) / rate * (1 - 1e-6) - 1e-9; nlo = nhi = k + 1; }
  else { static const int w[] = {1, 2, 3, 4, 5, 7, 9, 12, 18, 25, 31, 40}; nlo = w[k - 20]; nhi = nlo + 1; lo = nlo / rate * (1 - 1e-6) - 1e-9; hi = nlo / rate * (1 + 1e-6) + 1e-9; }
#if PART == 3
  t0 = k % 2;
  nlo = nhi = k + 1;
  lo = k / rate * (1 + 1e-6) + 1e-9; hi = nlo / rate;
#endif
  double t1 = vp_f64("t1", t0 + lo, t0 + hi);
  std::vector<Result> r;
  vp_check(m.Update(at(t0, 1, 2, kDown), r).ok(), "down");
  int st = code(m.Update(at(t1, 3, 5, up ? kUp : kMove), r));
  vp_observe_i("st", st); vp_observe_i("n", (int)r.size());
  if (st != kOk) {
    vp_check(st == kInvalid, "too many outputs: InvalidArgument");
    vp_check(cap < nhi, "an input is only rejected if it needs more than max_outputs_per_call results");
    vp_check(r.size() == 1, "a rejected input adds no results");
    vp_reach("rejected");
    return;
  }
  vp_check(cap >= nlo, "an input that needs more than max_outputs_per_call results is rejected");
  int n = (int)r.size() - 1;
  if (up) {
    vp_check((n >= nlo) & (n <= nhi + 3), "an up gives the smallest number of steps, then at most the end-of-stroke iterations");
    if (n < nlo) return;
    if (nlo == nhi) {
      checkTimes(r, 1, nlo, t0, t1, rate);
      double prev = r[nlo].time.Value();
      for (int i = nlo + 1; i <= n; ++i) {
        double t = r[i].time.Value();
        vp_check((t > prev) & (t - prev <= (1 + 1e-5) / rate), "end-of-stroke times increase by at most 1/min_output_rate");
        prev = t;
      }
    }
  } else {
    vp_check((n >= nlo) & (n <= nhi), "the smallest number of results that keeps min_output_rate");
    if ((n >= nlo) & (n <= nhi)) checkTimes(r, 1, n, t0, t1, rate);
  }
  vp_reach("sampled");
#elif PART == 1
  // the number of steps for any time difference; case = rate * 40 + band
  int band = c % 40;
  SamplingParams s;
  s.min_output_rate = kRates[c / 40];
  s.max_outputs_per_call = 2147483647;
  s.max_estimated_angle_to_traverse_per_input = -1;
  PositionModelerParams pp;
  pp.spring_mass_constant = 11.f / 32400; pp.drag_constant = 72;
  TipState tip;
  if (band == 39) {  // far beyond any limit
    s.max_outputs_per_call = vp_i32("max_outputs", 1, 2147483646);
    double far = vp_f64("far", 4e8, 1e30);
    auto n = NumberOfStepsBetweenInputs(tip, at(0, 1, 2, kMove), at(far, 3, 5, kMove), s, pp);
    vp_check(!n.ok(), "more steps than an int holds: rejected");
    vp_reach("far");
    return;
  }
  double lo = 1. / (1 << 25); for (int i = 0; i < band; ++i) lo *= 2;
  double dt = vp_f64("dt", lo, 2 * lo);
  auto n = NumberOfStepsBetweenInputs(tip, at(0, 1, 2, kMove), at(dt, 3, 5, kMove), s, pp);
  double need = dt * s.min_output_rate;
  vp_check(n.ok(), "accepted");
  if (!n.ok()) return;
  double d = *n;
  vp_observe_i("n", *n);
  vp_check(d >= need * (1 - 1e-6), "enough steps for min_output_rate");
  vp_check(d - 1 <= need * (1 + 1e-6), "no more steps than needed");
  vp_check(*n >= 1, "time passes, so there is a result");
  vp_reach("sampled");
#elif PART == 2
  // sampling by the estimated turning angle; case = stroke * 8 + k
  static const float px[][3] = {{1, 2, -1}, {1, 3, 3}, {0, 2, 1.9f}, {5, -2, 0}}, py[][3] = {{0, .5f, 3}, {1, 0, 4}, {0, 0, 2}, {1, 1, -7}};
  int s = c / 8, k = c % 8;
  StrokeModelParams p = baseParams(DISABLED, 1000, 3);
  StrokeModeler m;
  vp_check(m.Reset(p).ok(), "Reset(params)");
  std::vector<Result> r;
  for (int i = 0; i < 2; ++i) vp_check(m.Update(at(1 + i * .005, px[s][i], py[s][i], i ? kMove : kDown), r).ok(), "setup");
  Result tip = r.back();
  double dt = .005, mass = p.position_modeler_params.spring_mass_constant;
  double vx = tip.velocity.x, vy = tip.velocity.y;
  double ex = vx + (px[s][2] - tip.position.x) / mass * dt, ey = vy + (py[s][2] - tip.position.y) / mass * dt;
  double angle = std::atan2(std::fabs(vx * ey - vy * ex), vx * ex + vy * ey);
  // the same modeler with the angle limit: same first two results
  double lo = angle / (k + 1) * (1 + 1e-4), hi = k == 0 ? 3.14 : angle / k * (1 - 1e-4);
  if (hi > 3.14159) hi = 3.14159;
  StrokeModeler q;
  double lim = vp_f64("max_angle", lo, hi);
  p.sampling_params.max_estimated_angle_to_traverse_per_input = lim;
  int cap = vp_i32("max_outputs", 1, 60);
  p.sampling_params.max_outputs_per_call = cap;
  vp_check(q.Reset(p).ok(), "Reset(params)");
  std::vector<Result> o;
  vp_check(q.Update(at(1, px[s][0], py[s][0], kDown), o).ok(), "down");
  int st = code(q.Update(at(1.005, px[s][1], py[s][1], kMove), o));
  vp_check(st == kOk && o.size() == 2, "from rest there is no angle to limit");
  st = code(q.Update(at(1.01, px[s][2], py[s][2], vp_choice("up", 2) ? kMove : kUp), o));
  vp_observe_i("st", st); vp_observe_i("n", (int)o.size());
  vp_check((st == kOk) == (cap >= k + 1), "accepted exactly when max_outputs_per_call allows the steps");
  if (st != kOk) { vp_check(o.size() == 2, "a rejected input adds no results"); return; }
  int n = (int)o.size() - 2;
  vp_check(n >= k + 1, "enough steps for the turning angle");
  if (n < k + 1) return;
  if (vp_choice("up", 2)) vp_check(n == k + 1, "no more steps than the angle and the rate ask for");
  checkTimes(o, 2, k + 1, 1.005, 1.01, 180);
  vp_reach("sampled");
#endif
}
