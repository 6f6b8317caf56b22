// Any history of calls against a fresh modeler that is given only the inputs
// which count: those accepted in the current stroke, without what Restore undid.
// Both are then probed: every later status and result has to be the same.
// case = flag set * 16 + first operation; -DALPHA chooses the operations.
#include "sm.h"
#ifndef ALPHA
#define ALPHA 6
#endif
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef POS
#define POS 0  // 0: fixed positions, any stylus values; 1: any positions, no stylus values
#endif
#ifndef FILL
#define FILL 2  // results already in the vectors
#endif
#ifndef PRE
#define PRE 2  // inputs before the operations
#endif
static const int kFlags[] = {NORMAL | LOOP, KALMAN | WOBBLE, WOBBLE, DISABLED | WOBBLE | LOOP, 0, KALMAN | NORMAL | LOOP};
enum Op { M, D, U, P, V, R, Z, Y, W, DUP, BACK, NONFINITE, BADEV, FAR, BADRESET, SAME, UNK, N };
#if ALPHA == 3
static const Op kOps[] = {M, DUP, BACK, NONFINITE, BADEV, FAR, BADRESET, D, U, P, R};
#elif ALPHA == 4
static const Op kOps[] = {M, V, R, U, D, UNK, P};
#elif ALPHA == 5
static const Op kOps[] = {M, U, D, Z, Y, W, UNK};
#elif ALPHA == 7
static const Op kOps[] = {M, U, D, SAME, DUP, BACK, P, V, R};
#else
static const Op kOps[] = {P, M, U, D, SAME, UNK, N};
#endif
static const int kNOps = sizeof kOps / sizeof kOps[0];
static int flags;
static StrokeModelParams paramsNow(int which) {
  StrokeModelParams p = baseParams(which == 1 ? flags ^ (DISABLED | WOBBLE) : flags, 40, 2);
  if (which == 1 && (flags & KALMAN)) p = baseParams((flags & ~KALMAN) | DISABLED, 40, 2);
  if (which == 1) p.position_modeler_params.drag_constant = 60;
  p.wobble_smoother_params.timeout = Duration(.011);
  p.wobble_smoother_params.speed_floor = 100;
  p.wobble_smoother_params.speed_ceiling = 400;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.008);
  p.stylus_state_modeler_params.max_input_samples = 3;
  auto &l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.speed_upper_bound = 300;
  l.min_speed_sampling_window = Duration(.012);
  return p;
}
static StrokeModeler a;
#if ALPHA == 7
static StrokeModeler mirror;  // same calls, results into fresh vectors
#else
static StrokeModeler other;   // an unrelated modeler
#endif
static std::vector<Result> acc;       // never cleared
static std::vector<Input> eff, saved;  // inputs that count
static bool savedSet = false;
static int seq = 0, pnow = 0;
static Input input(int i, Input::EventType ev) {
  static const float px[] = {0, 1, 2.5f, 3, 2.75f, 1.5f, 0, -.5f, 0, 1.5f, 2, 3, 4, 4.5f, 4, 2, 1, 0}, py[] = {0, .5f, .25f, 1, 2.5f, 3, 2, 1, 0, -.25f, -.5f, 4, 5, 5.5f, 7, 8, 9, 7};
  Input in;
  in.event_type = ev;
  in.time = Time(1 + .0045 * i);
  in.pressure = in.tilt = in.orientation = -1;
#if POS == 1
  in.position = {vp_f32(Nm("x", i), -100, 100), vp_f32(Nm("y", i), -100, 100)};
#else
  in.position = {px[i], py[i]};
  in.pressure = vp_f32(Nm("pr", i), 0, 1); in.tilt = vp_f32(Nm("ti", i), 0, 1.5f);
  in.orientation = 1.f + .1f * i;
#endif
  return in;
}
static int update(const Input &in) {
#ifdef JUNK  // the vector's last result is an unrelated one
  if (seq > JUNK) acc.push_back(acc[0]);
#endif
  size_t n0 = acc.size();
  Result keep = acc[0], mid = acc[n0 / 2], last = acc[n0 - 1];
  int st = code(a.Update(in, acc));
  vp_observe_i("update", st);
  vp_check(st == kOk ? acc.size() >= n0 : acc.size() == n0, "earlier results are kept, a failed Update adds none");
  vp_check(same(acc[0], keep) & same(acc[n0 / 2], mid) & same(acc[n0 - 1], last), "earlier results are unchanged");
#if ALPHA == 7
  std::vector<Result> fresh;
  vp_check(code(mirror.Update(in, fresh)) == st, "the status does not depend on the results vector");
  vp_check(acc.size() - n0 == fresh.size(), "the number of results added does not depend on the results vector");
  for (size_t i = 0; i < fresh.size() && n0 + i < acc.size(); ++i) {
    Result x = acc[n0 + i];
    vp_check(same(x, fresh[i]), "the results added do not depend on the results vector");
  }
#endif
  if (st == kOk) {
    if (in.event_type == kDown) {
      if (savedSet && !saved.empty()) savedSet = false;  // saved in an earlier stroke
      eff.clear();
    }
    if (in.event_type == kUp) eff.clear(); else eff.push_back(in);
  }
  return st;
}
static void op(Op o, int k) {
  ++seq;
  switch (o) {
    case M: update(input(seq, kMove)); break;
    case D: update(input(seq, kDown)); break;
    case U: update(input(seq, kUp)); break;
    case P: {
      std::vector<Result> r, r2;
      for (int i = 0; i < FILL; ++i) r.push_back(acc[0]);
      int st = code(a.Predict(r));
      if (st != kOk) vp_check(r.empty(), "a failed Predict leaves no results");
#if ALPHA == 7
      vp_check(code(mirror.Predict(r2)) == st, "the status does not depend on the results vector");
      checkSame(r, r2, "Predict's results do not depend on what the vector held");
#elif ALPHA == 6
      vp_check(code(a.Predict(r2)) == st, "Predict again: same status");
      checkSame(r, r2, "Predict again: same results");
#endif
      break;
    }
    case V:
#if ALPHA == 7
      mirror.Save();
#endif
      a.Save(); savedSet = true; saved = eff; break;
    case R:
#if ALPHA == 7
      mirror.Restore();
#endif
      a.Restore(); if (savedSet) eff = saved; break;
    case Z: vp_check(a.Reset().ok(), "Reset()"); eff.clear(); savedSet = false; break;
    case Y: vp_check(a.Reset(paramsNow(pnow)).ok(), "Reset(params)"); eff.clear(); savedSet = false; break;
    case W: pnow ^= 1; vp_check(a.Reset(paramsNow(pnow)).ok(), "Reset(params)"); eff.clear(); savedSet = false; break;
    case DUP: if (eff.empty()) update(input(seq, kUp)); else update(eff.back()); break;
    case BACK: {
      Input in = input(seq, (Input::EventType)vp_choice(Nm("bk", k), 3));
      if (!eff.empty()) in.time = Time(eff.back().time.Value() - vp_f64(Nm("dt", k), 1e-9, 10));
      else in.event_type = kMove;
      update(in); break;
    }
    case NONFINITE: {
      Input in = input(seq, (Input::EventType)vp_choice(Nm("ek", k), 3));
      switch (vp_choice(Nm("fld", k), 3)) {
        case 0: in.position.x = vp_f32_any(Nm("bx", k)); vp_assume(!fin(in.position.x)); break;
        case 1: in.position.y = vp_f32_any(Nm("by", k)); vp_assume(!fin(in.position.y)); break;
        default: { double t = vp_f64_any(Nm("bt", k)); vp_assume(!fin(t)); in.time = Time(t); }
      }
      update(in); break;
    }
    case BADEV: update(input(seq, (Input::EventType)7)); break;
    case FAR: {
      Input in = input(seq, vp_choice(Nm("fk", k), 2) ? kMove : kUp);
      in.time = Time(vp_f64(Nm("far", k), 10, 1e6));
      update(in); break;
    }
    case BADRESET: {
      StrokeModelParams p = paramsNow(pnow ^ 1);
      if (vp_choice(Nm("bad", k), 2)) p.sampling_params.min_output_rate = -1;
      else p.position_modeler_params.drag_constant = vp_f32(Nm("drag", k), -10, 0);
      vp_check(!a.Reset(p).ok(), "bad parameters are rejected");
      break;
    }
    case N: {
#if ALPHA != 7
      std::vector<Result> r;
      if (!other.Reset(paramsNow(pnow ^ (k & 1))).ok()) break;
      (void)other.Update(input(16, kDown), r).ok();
      (void)other.Update(input(17, kMove), r).ok();
      (void)other.Predict(r).ok();
      other.Save();
#endif
      break;
    }
    case SAME: {
      Input in = input(seq, kMove);
      if (!eff.empty()) in.time = eff.back().time;
      update(in); break;
    }
    case UNK: {
      Input in = input(seq, kMove);
      in.tilt = -1; in.orientation = k % 2 ? -1 : in.orientation;
      update(in); break;
    }
  }
}
static void probe(StrokeModeler &m, bool inStroke, std::vector<Result> &out, std::vector<int> &codes) {
  std::vector<Result> p;
  int at = seq + 1;
  auto pred = [&] { codes.push_back(code(m.Predict(p))); codes.push_back((int)p.size()); for (auto &r : p) out.push_back(r); };
  auto upd = [&](Input::EventType ev) { codes.push_back(code(m.Update(input(at++, ev), out))); codes.push_back((int)out.size()); };
  pred();
  if (inStroke) {
    upd(kMove);
#if POS == 0
    pred();
    upd(kMove);
    upd(kUp);
#endif
  } else {
    upd(kMove); upd(kUp); upd(kDown); upd(kMove);
#if POS == 0
    pred(); upd(kMove); upd(kUp);
#endif
  }
}
void vp_harness() {
  int c = vp_case(), first = c % 16;
  flags = kFlags[c / 16];
  Result junk;
  junk.position = {vp_f32("jx", -1, 1), 5}; junk.pressure = vp_f32("jp", 0, 1);
  junk.time = Time(vp_f64("jt", -10, 10)); junk.orientation = vp_f32("jo", -1, 7);
  acc.reserve(200);
  for (int i = 0; i < FILL; ++i) acc.push_back(junk);
  vp_check(a.Reset(paramsNow(0)).ok(), "Reset(params)");
#if ALPHA == 7
  vp_check(mirror.Reset(paramsNow(0)).ok(), "Reset(params)");
#endif
  if (PRE > 0) op(D, 90);
  for (int i = 1; i < PRE; ++i) {
#ifdef SAVED
    if (i == SAVED) op(V, 90);
#endif
    op(M, 90);
  }
  if (first < kNOps) op(kOps[first], 0);
  for (int k = 1; k <= DEPTH; ++k) op(kOps[vp_choice(Nm("op", k), kNOps)], k);
  StrokeModeler b;
  vp_check(b.Reset(paramsNow(pnow)).ok(), "Reset(params)");
  std::vector<Result> rb, ra, q;
  std::vector<int> ca, cb;
  for (const Input &in : eff) vp_check(code(b.Update(in, rb)) == kOk, "an input that counts is accepted on its own");
  rb.clear();
  probe(a, !eff.empty(), ra, ca);
  probe(b, !eff.empty(), rb, cb);
  observe(ra);
  for (int x : ca) vp_observe_i("code", x);
  vp_check(ca == cb, "later statuses are those of a modeler without that history");
  checkSame(ra, rb, "later results are those of a modeler without that history");
  vp_reach("end");
}
