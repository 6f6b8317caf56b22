// An executable statement of what the modeler computes, written on plain
// numbers: weighted moving average, spring recursion, end-of-stroke search,
// projection of the stylus state, loop contraction mitigation and the Kalman
// predictor. It shares no code with /repo (not even Vec2 arithmetic).
#ifndef REF_H_
#define REF_H_
#include "sm.h"
namespace ref {
struct V { float x = 0, y = 0; };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y}; }
inline V operator*(float s, V a) { return {s * a.x, s * a.y}; }
inline V operator/(V a, float s) { return {a.x / s, a.y / s}; }
inline float mag(V a) { return std::hypot(a.x, a.y); }
inline float dist(V a, V b) { return mag(b - a); }
inline float dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline V v2(Vec2 p) { return {p.x, p.y}; }
inline float clamp01(float v) { return std::clamp(v, 0.f, 1.f); }
inline float lerp(float a, float b, float t) { return a + (b - a) * clamp01(t); }
inline V lerp(V a, V b, float t) { float c = clamp01(t); return {a.x + c * (b.x - a.x), a.y + c * (b.y - a.y)}; }
inline double lerp(double a, double b, float t) { return a + (b - a) * clamp01(t); }
// the decisions below that make results jump; see vp_tie
#ifdef VP_NATIVE
inline void tie(double a, double b, double tol) { vp_tie(a, b, tol); }
inline void tieInt(double q, double tol = 1e-4) { vp_tie(q, std::round(q), tol * std::fmax(1., std::fabs(q))); }
#else
#define tie(a, b, tol) ((void)0)
#define tieInt(...) ((void)0)
#endif
inline float norm01(float lo, float hi, float v) { if (lo == hi) tie(v, lo, 1e-4 * (1 + std::fabs(lo))); return lo == hi ? (v > lo ? 1.f : 0.f) : clamp01((v - lo) / (hi - lo)); }
struct Tip { V p, v, a; double t = 0; };
struct Raw { V p, v, a; double t = 0; float pr = -1, ti = -1, orr = -1; };

// ---- wobble smoothing: time weighted moving average, blended by mean speed
struct Wobble {
  struct S { V p, w; float d = 0; double dur = 0, t = 0; };
  S q[64];
  int lo = 0, hi = 0;
  V sum;
  float dsum = 0, tsum = 0;
  WobbleSmootherParams P;
  void reset(const WobbleSmootherParams &p, V pos, double t) {
    P = p; lo = 0; hi = 1; sum = {}; dsum = tsum = 0;
    q[0] = S(); q[0].p = pos; q[0].t = t;
  }
  V update(V pos, double t) {
    if (!P.is_enabled) return pos;
    const S &l = q[hi - 1];
    S n;
    n.dur = t - l.t; n.p = pos; n.t = t;
    n.w = (float)n.dur * pos;
    n.d = dist(pos, l.p);
    q[hi++] = n;
    sum = sum + n.w; dsum += n.d; tsum = (float)((double)tsum + n.dur);
    while (q[lo].t < t - P.timeout.Value()) {
      sum = sum - q[lo].w; dsum -= q[lo].d; tsum = (float)((double)tsum - q[lo].dur);
      ++lo;
    }
    tie(tsum, 0, 1e-9);
    if (tsum == 0) return pos;
    V avg = sum / tsum;
    float speed = dsum / tsum;
    return lerp(avg, pos, norm01(P.speed_floor, P.speed_ceiling, speed));
  }
};

// ---- spring
struct Spring {
  float k = 0, drag = 0;
  Tip s;
  Tip step(V anchor, double t) {
    float dt = (float)(t - s.t);
    s.a = (anchor - s.p) / k - drag * s.v;
    s.v = s.v + dt * s.a;
    s.p = s.p + dt * s.v;
    s.t = t;
    return s;
  }
};
inline float nearest(V a, V b, V p) {
  if (a.x == b.x && a.y == b.y) return 0;
  V d = b - a;
  float l2 = dot(d, d);
  if (l2 == 0) return 0;
  return clamp01(dot(p - a, d) / l2);
}
inline void endOfStroke(Spring &m, V anchor, double dt, int iters, float stop, std::vector<Tip> &out) {
  while (iters-- > 0) {
    Tip before = m.s;
    Tip c = m.step(anchor, before.t + dt);
    tie(dist(before.p, c.p), stop, 1e-5 * (1 + mag(c.p)) + 1e-4 * stop);
    tie(dist(c.p, anchor), stop, 1e-5 * (1 + mag(c.p)) + 1e-4 * stop);
    tie(dot(anchor - c.p, c.p - before.p), 0, 1e-5 * (1 + mag(c.p)) * dist(before.p, c.p));
    if (dist(before.p, c.p) < stop) return;
    if (nearest(before.p, c.p, anchor) < 1) { dt *= .5; m.s = before; continue; }
    out.push_back(c);
    if (dist(c.p, anchor) < stop) return;
  }
}
// number of modeled states for an input, or -1 if the input is rejected
inline int steps(const Tip &tip, double t0, const Input &in, const StrokeModelParams &P) {
  float dt = (float)(in.time.Value() - t0);
  tieInt((double)dt * P.sampling_params.min_output_rate, 1e-6);
  double r = std::ceil((double)dt * P.sampling_params.min_output_rate);
  int n = r > 2147483647. ? 2147483647 : (int)r;
  V dv = dt * ((v2(in.position) - tip.p) / P.position_modeler_params.spring_mass_constant);
  V ev = tip.v + dv;
  if (!(fin(tip.v.x) & fin(tip.v.y) & fin(ev.x) & fin(ev.y))) return -1;
  double lim = P.sampling_params.max_estimated_angle_to_traverse_per_input;
  if (lim > 0) {
    float m0 = mag(tip.v), m1 = mag(ev), ang = 0;
    if (!(m0 == 0 || m1 == 0)) {
      float c = dot(tip.v / m0, ev / m1);
      ang = std::acos(c < -1 ? -1.f : 1 < c ? 1.f : c);
    }
    tieInt(ang / lim, 1e-3 + 1e-3 / lim);
    double q = std::ceil(ang / lim);
    int k = q > 2147483647. ? 2147483647 : (int)q;
    if (k > n) n = k;
  }
  return n > P.sampling_params.max_outputs_per_call ? -1 : n;
}

// ---- stylus state along the raw polyline
inline float lerpAngle(float a, float b, float t) {
  const double two = 2 * 3.14159265358979323846;
  auto wrap = [two](float v) {
    if (v < -two || v > 2 * two) v = (float)std::fmod((double)v, two);
    while (v < 0) v = (float)((double)v + two);
    while (v > two) v = (float)((double)v - two);
    return v;
  };
  a = wrap(a); b = wrap(b);
  float d = b - a;
  tie(std::fabs(d), two / 2, 1e-5);
  if (d < -two / 2) b = (float)((double)b + two);
  else if (d > two / 2) b = (float)((double)b - two);
  tie(lerp(a, b, t), 0, 1e-5); tie(lerp(a, b, t), two, 1e-5);
  return wrap(lerp(a, b, t));
}
inline Raw lerpRaw(const Raw &a, const Raw &b, float t) {
  Raw r;
  r.p = lerp(a.p, b.p, t); r.v = lerp(a.v, b.v, t); r.a = lerp(a.a, b.a, t);
  r.t = lerp(a.t, b.t, t);
  r.pr = a.pr < 0 || b.pr < 0 ? -1.f : lerp(a.pr, b.pr, t);
  r.ti = a.ti < 0 || b.ti < 0 ? -1.f : lerp(a.ti, b.ti, t);
  r.orr = a.orr < 0 || b.orr < 0 ? -1.f : lerpAngle(a.orr, b.orr, t);
  return r;
}
inline bool strokeNormal(const Tip &s, double prev, V &n) {
  float mv = mag(s.v), ma = mag(s.a);
  if (mv == 0 && ma == 0) return false;
  tie(mv, 0, 1e-5); tie(ma, 0, 1e-2);
  tie(std::fabs(dot(s.v, s.a)), .99996192 * mv * ma, 1e-5 * mv * ma);
  V d = mv == 0 ? s.a : s.v;
  if (mv != 0 && ma != 0 && !(std::fabs(dot(s.v, s.a)) > (float).99996192 * mv * ma)) {
    V e = s.v + (float)(s.t - prev) * s.a;
    d = s.v / mv + e / mag(e);
  }
  n = {-d.y, d.x};
  return true;
}
struct Stylus {
  Raw q[64];
  int lo = 0, hi = 0;
  bool noPr = false, noTi = false, noOr = false;
  StylusStateModelerParams P;
  void reset(const StylusStateModelerParams &p) { P = p; lo = hi = 0; noPr = noTi = noOr = false; }
  void update(V pos, double t, float pr, float ti, float orr) {
    if (!(pr >= 0)) noPr = true;
    if (!(ti >= 0)) noTi = true;
    if (!(orr >= 0)) noOr = true;
    if (!P.use_stroke_normal_projection && noPr && noTi && noOr) { lo = hi = 0; return; }
    Raw r;
    r.p = pos; r.t = t; r.pr = pr; r.ti = ti; r.orr = orr;
    if (hi > lo && t != q[hi - 1].t) {
      float dt = (float)(t - q[hi - 1].t);
      r.v = (pos - q[hi - 1].p) / dt;
      r.a = (r.v - q[hi - 1].v) / dt;
    }
    q[hi++] = r;
    if (P.use_stroke_normal_projection)
      while (hi - lo > P.min_input_samples && q[hi - 1].t - q[lo + 1].t > P.min_sample_duration.Value()) ++lo;
    else
      while (hi - lo > P.max_input_samples) ++lo;
  }
  Raw query(const Tip &tip, bool hasN, V n) const {
    if (lo == hi) return Raw();
    int seg = -1;
    float ratio = 0;
    if (P.use_stroke_normal_projection && hasN) {
      int ls = -1, rs = -1;
      float lr = 0, rr = 0, ld = std::numeric_limits<float>::infinity(), rd = ld;
      for (int i = lo; i + 1 < hi; ++i) {
        V d = q[i + 1].p - q[i].p;
        float det = n.x * d.y - n.y * d.x;
        tie(det, 0, 1e-5 * mag(n) * mag(d));
        if (det == 0) continue;
        V w = q[i].p - tip.p;
        float u = (w.x * n.y - w.y * n.x) / det;
        tie(u, 0, 1e-5 * (1 + mag(w) / mag(d))); tie(u, 1, 1e-5 * (1 + mag(w) / mag(d)));
        if (u < 0 || u > 1) continue;
        V pj = lerp(q[i].p, q[i + 1].p, u);
        float e = dist(tip.p, pj);
        tie(dot(pj - tip.p, n), 0, 1e-5 * mag(n) * (1 + mag(tip.p)));
        if (rs >= 0) tie(e, rd, 1e-5 * (1 + mag(tip.p)));
        if (ls >= 0) tie(e, ld, 1e-5 * (1 + mag(tip.p)));
        if (dot(pj - tip.p, n) < 0) { if (e < rd) { rd = e; rs = i; rr = u; } }
        else if (e < ld) { ld = e; ls = i; lr = u; }
      }
      if (ls >= 0 && rs >= 0) tie(dot(n, tip.a), 0, 1e-4 * mag(n) * (1 + mag(tip.a)));
      bool right = ls < 0 || (rs >= 0 && dot(n, tip.a) > 0);
      seg = right ? rs : ls;
      ratio = right ? rr : lr;
    } else {
      float best = std::numeric_limits<float>::infinity();
      for (int i = lo; i + 1 < hi; ++i) {
        float u = nearest(q[i].p, q[i + 1].p, tip.p);
        float e = dist(tip.p, lerp(q[i].p, q[i + 1].p, u));
        if (seg >= 0 && dist(lerp(q[seg].p, q[seg + 1].p, ratio), lerp(q[i].p, q[i + 1].p, u)) > 1e-3) tie(e, best, 1e-5 * (1 + mag(tip.p)));
        if (e <= best) { best = e; seg = i; ratio = u; }
      }
    }
    if (seg < 0) tie(dist(q[lo].p, tip.p), dist(q[hi - 1].p, tip.p), 1e-5 * (1 + mag(tip.p)));
    Raw r = seg >= 0 ? lerpRaw(q[seg], q[seg + 1], ratio)
                     : dist(q[lo].p, tip.p) < dist(q[hi - 1].p, tip.p) ? q[lo] : q[hi - 1];
    r.t = tip.t;
    if (noPr) r.pr = -1;
    if (noTi) r.ti = -1;
    if (noOr) r.orr = -1;
    return r;
  }
};

// ---- loop contraction mitigation
struct Loop {
  float sp[128];
  double t[128];
  int lo = 0, hi = 0;
  PositionModelerParams::LoopContractionMitigationParameters P;
  void reset(const PositionModelerParams::LoopContractionMitigationParameters &p) { P = p; lo = hi = 0; }
  float value() const {
    if (!P.is_enabled || lo == hi) return 1;
    float s = 0;
    for (int i = lo; i < hi; ++i) s += sp[i];
    float mean = s / (hi - lo), range = P.speed_upper_bound - P.speed_lower_bound;
    float r = range == 0 ? 0.f : clamp01((mean - P.speed_lower_bound) / range);
    return lerp(P.interpolation_strength_at_speed_lower_bound, P.interpolation_strength_at_speed_upper_bound, r);
  }
  float update(V vel, double tm) {
    if (!P.is_enabled) return 1;
    sp[hi] = mag(vel); t[hi++] = tm;
    while (t[hi - 1] - t[lo] > P.min_speed_sampling_window.Value() && hi - lo > P.min_discrete_speed_samples) ++lo;
    return value();
  }
};

// ---- Kalman filter, one axis (unit time step, constant jerk model)
struct Axis {
  double x[4] = {0, 0, 0, 0}, C[4][4];
  int n = 0;
  double pn = 0, mn = 0;
  void reset() {
    n = 0;
    for (int i = 0; i < 4; ++i) { x[i] = 0; for (int j = 0; j < 4; ++j) C[i][j] = i == j; }
  }
  void update(double z) {
    if (n++ == 0) { x[0] = z; return; }
    const double F[4][4] = {{1, 1, .5, 1. / 6}, {0, 1, 1, .5}, {0, 0, 1, 1}, {0, 0, 0, 1}};
    const double g[4] = {1. / 6, .5, 1, 1};
    double y[4], A[4][4], B[4][4];
    for (int i = 0; i < 4; ++i) { y[i] = 0; for (int j = 0; j < 4; ++j) y[i] += F[i][j] * x[j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { A[i][j] = 0; for (int k = 0; k < 4; ++k) A[i][j] += F[i][k] * C[k][j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      B[i][j] = 0;
      for (int k = 0; k < 4; ++k) B[i][j] += A[i][k] * F[j][k];
      B[i][j] += g[i] * g[j] * pn;
    }
    double inn = z - y[0], S = B[0][0] + mn, K[4];
    for (int i = 0; i < 4; ++i) K[i] = B[0][i] / S;
    for (int i = 0; i < 4; ++i) x[i] = y[i] + K[i] * inn;
    // Joseph form: (I - K H) B (I - K H)' + K R K'
    double M[4][4];
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) M[i][j] = (i == j ? 1. : 0.) - (j == 0 ? K[i] : 0.);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { A[i][j] = 0; for (int k = 0; k < 4; ++k) A[i][j] += M[i][k] * B[k][j]; }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
      C[i][j] = 0;
      for (int k = 0; k < 4; ++k) C[i][j] += A[i][k] * M[j][k];
      C[i][j] += K[i] * K[j] * mn;
    }
  }
};
struct Kalman {
  KalmanPredictorParams P;
  double rate = 0;
  Axis X, Y;
  double t[64];
  int lo = 0, hi = 0;
  V last;
  void reset() { X.reset(); Y.reset(); lo = hi = 0; }
  void configure(const KalmanPredictorParams &p, double r) {
    P = p; rate = r;
    X.pn = Y.pn = p.process_noise; X.mn = Y.mn = p.measurement_noise;
    reset();
  }
  void update(V p, double tm) {
    last = p; t[hi++] = tm;
    if (hi - lo > P.max_time_samples) ++lo;
    X.update(p.x); Y.update(p.y);
  }
  struct St { V p, v, a, j; };
  static St cubic(const St &s, double d) {
    float dt = (float)d, d2 = dt * dt, d3 = d2 * dt;
    St r;
    r.p = s.p + dt * s.v + (d2 * s.a) / 2.f + (d3 * s.j) / 6.f;
    r.v = s.v + dt * s.a + (d2 * s.j) / 2.f;
    r.a = s.a + dt * s.j;
    r.j = s.j;
    return r;
  }
  bool stable() const { return hi > lo && X.n >= P.min_stable_iteration; }
  bool ready() const {  // without elapsed time there is no speed
    if (!stable()) return false;
    float el = (float)(t[hi - 1] - t[lo]) / (hi - lo);
    return el * el * el > 0;
  }
  St estimate() const {
    St e;
    e.p = {(float)X.x[0], (float)Y.x[0]}; e.v = {(float)X.x[1], (float)Y.x[1]};
    e.a = {(float)X.x[2], (float)Y.x[2]}; e.j = {(float)X.x[3], (float)Y.x[3]};
    float dt = (float)(t[hi - 1] - t[lo]) / (hi - lo);
    e.v = e.v / dt; e.a = e.a / (dt * dt); e.j = e.j / (dt * dt * dt);
    e.a = P.acceleration_weight * e.a; e.j = P.jerk_weight * e.j;
    return e;
  }
  int count(const St &e) const {
    const auto &c = P.confidence_params;
    double iv = P.prediction_interval.Value();
    float target = (float)(iv * rate);
    float q = (float)X.n / c.desired_number_of_samples;
    if (!(q < 1)) q = 1;
    float err = 1.f - norm01(0.f, c.max_estimation_distance, dist(last, e.p));
    St f = cubic(e, iv);
    float sp = norm01(c.min_travel_speed, c.max_travel_speed, dist(e.p, f.p) / (float)iv);
    float lin = lerp(c.baseline_linearity_confidence, 1.f,
                     1.f - norm01(0.f, c.max_linear_deviation, dist(f.p, e.p + (float)iv * e.v)));
    tieInt(target * (q * err * sp * lin), 1e-3);
    return (int)std::fmax(0.f, std::ceil(target * (q * err * sp * lin)));
  }
  void predict(const Tip &tip, std::vector<Tip> &out) const {
    out.clear();
    if (!ready()) return;
    St e = estimate();
    double h = 1. / rate;
    float d = dist(tip.p, e.p);
    if (d > std::numeric_limits<float>::max()) d = std::numeric_limits<float>::max();
    float m0 = mag(tip.v), m1 = mag(e.v), mv = m0 < m1 ? m1 : m0;
    if (mv < P.min_catchup_velocity) mv = P.min_catchup_velocity;
    tieInt((double)(d / mv) / h, 1e-3);
    int n = (int)std::fmax(std::ceil((float)((double)(d / mv) / h)), 1.f);
    double dur = n * h;
    float T = (float)dur;
    V a = 2.f * tip.p - 2.f * e.p + T * (tip.v + e.v);
    V b = -3.f * tip.p + 3.f * e.p - T * (2.f * tip.v + e.v);
    V c = T * tip.v;
    for (int i = 1; i <= n; ++i) {
      float u = (float)i / n, u2 = u * u, u3 = u2 * u;
      Tip s;
      s.p = u3 * a + u2 * b + u * c + tip.p;
      s.v = (u2 * (3.f * a) + u * (2.f * b) + c) / T;
      s.a = (u * (6.f * a) + 2.f * b) / (T * T);
      s.t = tip.t + dur * u;
      out.push_back(s);
    }
    double tm = out.back().t;
    for (int k = count(e); k > 0; --k) {
      e = cubic(e, h);
      tm += h;
      Tip s;
      s.p = e.p; s.v = e.v; s.a = e.a; s.t = tm;
      out.push_back(s);
    }
  }
};

// ---- the whole modeler
struct Modeler {
  StrokeModelParams P;
  Wobble w;
  Spring sp;
  Stylus st;
  Loop lp;
  Kalman ka;
  bool kalman = false, disabled = false;
  V lastP;
  double lastT = 0;
  void reset(const StrokeModelParams &p) {
    P = p;
    kalman = std::holds_alternative<KalmanPredictorParams>(p.prediction_params);
    disabled = std::holds_alternative<DisabledPredictorParams>(p.prediction_params);
    if (kalman) ka.configure(std::get<KalmanPredictorParams>(p.prediction_params), p.sampling_params.min_output_rate);
  }
  void emit(const std::vector<Tip> &tips, Loop &l, double prev, std::vector<Raw> &out) const {
    float iv = l.value();
    for (const Tip &s : tips) {
      V n;
      bool has = strokeNormal(s, prev, n);
      Raw pj = st.query(s, has, n), m = pj;
      m.p = s.p; m.v = s.v; m.a = s.a; m.t = s.t;
      Raw r = lerpRaw(pj, m, iv);
      out.push_back(r);
      iv = l.update(r.v, s.t);
      prev = s.t;
    }
  }
  void down(const Input &in, std::vector<Raw> &out) {
    V p = v2(in.position);
    double t = in.time.Value();
    w.reset(P.wobble_smoother_params, p, t);
    sp.k = P.position_modeler_params.spring_mass_constant;
    sp.drag = P.position_modeler_params.drag_constant;
    sp.s = Tip(); sp.s.p = p; sp.s.t = t;
    st.reset(P.stylus_state_modeler_params);
    lp.reset(P.position_modeler_params.loop_contraction_mitigation_params);
    st.update(p, t, in.pressure, in.tilt, in.orientation);
    if (kalman) { ka.reset(); ka.update(p, t); }
    lastP = p; lastT = t;
    Raw r;
    r.p = p; r.t = t; r.pr = in.pressure; r.ti = in.tilt; r.orr = in.orientation;
    out.push_back(r);
  }
  void path(V to, double t, int n, std::vector<Tip> &tips) {
    for (int i = 1; i <= n; ++i) {
      float u = (float)i / n;
      tips.push_back(sp.step(lerp(lastP, to, u), lerp(lastT, t, u)));
    }
  }
  bool move(const Input &in, std::vector<Raw> &out) {
    int n = steps(sp.s, lastT, in, P);
    if (n < 0) return false;
    double t = in.time.Value();
    V c = w.update(v2(in.position), t);
    st.update(c, t, in.pressure, in.tilt, in.orientation);
    std::vector<Tip> tips;
    path(c, t, n, tips);
    if (kalman) ka.update(c, t);
    lastP = c; lastT = t;
    emit(tips, lp, t, out);
    return true;
  }
  bool up(const Input &in, std::vector<Raw> &out) {
    int n = steps(sp.s, lastT, in, P);
    if (n < 0) return false;
    double t = in.time.Value();
    V p = v2(in.position);
    std::vector<Tip> tips;
    path(p, t, n, tips);
    const auto &S = P.sampling_params;
    endOfStroke(sp, p, 1. / S.min_output_rate, S.end_of_stroke_max_iterations, S.end_of_stroke_stopping_distance, tips);
    if (tips.empty()) tips.push_back(sp.s);
    st.update(p, t, in.pressure, in.tilt, in.orientation);
    emit(tips, lp, lastT, out);
    return true;
  }
  void predict(std::vector<Raw> &out) const {
    out.clear();
    std::vector<Tip> tips;
    if (kalman) ka.predict(sp.s, tips);
    else {
      Spring m = sp;
      const auto &S = P.sampling_params;
      endOfStroke(m, lastP, 1. / S.min_output_rate, S.end_of_stroke_max_iterations, S.end_of_stroke_stopping_distance, tips);
    }
    Loop l = lp;
    emit(tips, l, lastT, out);
  }
};
// ---- comparison. which: 1 position/velocity/acceleration, 2 time, 4 stylus
enum { KINE = 1, TIME = 2, STYLUS = 4, ALL = 7 };
inline void match(const std::vector<Result> &got, const std::vector<Raw> &want, int which, const char *lbl, float scale = 1) {
  if (vp_native())
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) { vp_bits(got[i].position.x, want[i].p.x); vp_bits(got[i].position.y, want[i].p.y); vp_bits(got[i].velocity.x / 64, want[i].v.x / 64); vp_bits(got[i].velocity.y / 64, want[i].v.y / 64); }
  vp_check(got.size() == want.size(), lbl);
  if (got.size() != want.size()) return;
  for (size_t i = 0; i < got.size(); ++i) {
    const Result &g = got[i];
    const Raw &r = want[i];
    if (which & KINE) {
      // tolerances for the native replay: absolute for small values (the terms
      // of the acceleration reach 1e7 and may cancel), relative for large ones
      vp_check_close32(g.position.x, r.p.x, 2e-4 * scale, lbl);
      vp_check_close32(g.position.y, r.p.y, 2e-4 * scale, lbl);
      vp_check_close32(g.velocity.x / 64, r.v.x / 64, 1e-3 * scale, lbl);
      vp_check_close32(g.velocity.y / 64, r.v.y / 64, 1e-3 * scale, lbl);
      vp_check_close32(g.acceleration.x / 1024, r.a.x / 1024, 1e-2 * scale, lbl);
      vp_check_close32(g.acceleration.y / 1024, r.a.y / 1024, 1e-2 * scale, lbl);
    }
    if (which & TIME) vp_check_close64(g.time.Value(), r.t, 1e-7, lbl);
    if (which & STYLUS) {
      vp_check_close32(g.pressure, r.pr, 1e-3, lbl);
      vp_check_close32(g.tilt, r.ti, 1e-3, lbl);
      vp_check_close32(g.orientation, r.orr, 1e-3, lbl);
    }
  }
  vp_calm();
}
}  // namespace ref
#endif
