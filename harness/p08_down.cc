// The result of a down is the input itself, at rest, whatever came before.
// case = flag set * 8 + history.
#include "sm.h"
static const int kFlags[] = {0, WOBBLE, NORMAL | LOOP, KALMAN | WOBBLE, DISABLED | NORMAL, ANGLE | LOOP | NORMAL | KALMAN};
static Input fixed(int i, Input::EventType ev) {
  Input in;
  in.event_type = ev;
  in.position = {1.f + i, 2.f + .5f * i * i};
  in.time = Time(2 + .004 * i);
  in.pressure = .5f; in.tilt = i == 1 ? -1 : .25f; in.orientation = 1;
  return in;
}
static Input any(int i) {
  Input in;
  in.event_type = kDown;
  in.position = {vp_f32_any(Nm("x", i)), vp_f32_any(Nm("y", i))};
  double t = vp_f64_any(Nm("t", i));
  vp_assume(fin(in.position.x) & fin(in.position.y) & fin(t));
  in.time = Time(t);
  in.pressure = vp_f32_any(Nm("pr", i));
  in.tilt = vp_f32_any(Nm("ti", i));
  in.orientation = vp_f32_any(Nm("or", i));
  return in;
}
static StrokeModeler m;
static std::vector<Result> out;
static void down(int i) {
  Input in = any(i);
  size_t n0 = out.size();
  int st = code(m.Update(in, out));
  vp_check(st == kOk, "a down with finite position and time is accepted");
  vp_check(out.size() == n0 + 1, "a down gives one result");
  if (out.size() != n0 + 1) return;
  Result r = out.back();
  vp_observe32("x", r.position.x); vp_observe64("t", r.time.Value()); vp_observe32("pr", r.pressure);
  vp_check((r.position.x == in.position.x) & (r.position.y == in.position.y), "the position is the input's");
  vp_check(r.time.Value() == in.time.Value(), "the time is the input's");
  vp_check((r.velocity.x == 0) & (r.velocity.y == 0) & (r.acceleration.x == 0) & (r.acceleration.y == 0), "the tip is at rest");
  vp_check(sameF(r.pressure, in.pressure) & sameF(r.tilt, in.tilt) & sameF(r.orientation, in.orientation), "the stylus values are the input's");
  vp_reach("down");
}
static void fix(int i, Input::EventType ev) { std::vector<Result> r; (void)m.Update(fixed(i, ev), r).ok(); }
void vp_harness() {
  int c = vp_case();
  StrokeModelParams p = baseParams(kFlags[c / 8], 20, 5);
  vp_check(m.Reset(p).ok(), "Reset(params)");
  switch (c % 8) {
    case 0: break;
    case 1: fix(0, kDown); fix(1, kMove); fix(2, kMove); fix(3, kUp); break;
    case 2: fix(0, kDown); fix(1, kMove); vp_check(m.Reset().ok(), "Reset()"); break;
    case 3: fix(0, kDown); fix(1, kUp); m.Save(); fix(2, kDown); fix(3, kMove); m.Restore(); break;
    case 4: fix(0, kMove); fix(0, kUp); { std::vector<Result> r; (void)m.Predict(r).ok(); } m.Save(); m.Restore(); break;
    case 5: {  // a down of any kind, then lifted or reset away
      down(0);
      if (vp_choice("how", 2)) { vp_check(m.Reset(p).ok(), "Reset(params)"); }
      else {
        vp_check(m.Reset().ok(), "Reset()");
      }
      break;
    }
    case 6: fix(0, kDown); m.Save(); fix(1, kMove); fix(2, kUp); break;
    case 7: p = baseParams(kFlags[c / 8] ^ WOBBLE, 4, 2); fix(0, kDown); fix(1, kMove); { std::vector<Result> r; (void)m.Predict(r).ok(); } vp_check(m.Reset(p).ok(), "Reset(params)"); break;
  }
  down(5);
  std::vector<Result> again;
  vp_check(code(m.Update(any(6), again)) != kOk, "a second down is rejected");
  vp_check(again.empty(), "a rejected down gives no result");
}
