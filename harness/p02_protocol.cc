// Status codes of any call history, against the reference automaton below.
// case = prefix * 16 + first op; from 80 on with symbolic positions and times. Prefix 0: nothing; 1: Reset; 2: Reset, Down,
// Move; 3: Reset, Down, Save, Up; 4: as 2 with prediction disabled.
#include "sm.h"
#ifndef DEPTH
#define DEPTH 2
#endif
struct Ref {
  bool init = false, pred = false, inStroke = false;
  Input last;
  bool saved = false, savedIn = false;
  Input savedLast;
};
static bool dupOf(const Input &a, const Input &b) {
  return a.event_type == b.event_type && a.position.x == b.position.x && a.position.y == b.position.y &&
         a.time.Value() == b.time.Value() && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
static StrokeModeler m;
static Ref ref;
static std::vector<Result> res;
static int seq = 0;
static bool symbolic = false;
static int expectUpdate(const Input &in, bool tooFar) {
  if (!ref.init) return kPrecond;
  int e = (int)in.event_type;
  if (e < 0 || e > 2) return kInvalid;
  if (!fin(in.position.x) || !fin(in.position.y) || !fin(in.time.Value())) return kInvalid;
  if (ref.inStroke) {
    if (dupOf(in, ref.last)) return kInvalid;
    if (in.time.Value() < ref.last.time.Value()) return kInvalid;
  }
  if (in.event_type == kDown) return ref.inStroke ? kPrecond : kOk;
  if (!ref.inStroke) return kPrecond;
  return tooFar ? kInvalid : kOk;
}
static void doUpdate(const Input &in, bool tooFar) {
  int e = expectUpdate(in, tooFar);
  size_t n0 = res.size();
  int got = code(m.Update(in, res));
  vp_observe_i("update", got);
  vp_check(got == e, "status of Update");
  if (e != kOk) { vp_check(res.size() == n0, "a rejected input adds no result"); return; }
  bool sameTime = in.event_type == kMove && in.time.Value() == ref.last.time.Value();
  if (!sameTime) vp_check(res.size() > n0, "an accepted input adds a result");
  if (in.event_type == kDown) {
    if (ref.saved && ref.savedIn) ref.saved = false;  // saved in an earlier stroke
    ref.inStroke = true; ref.last = in;
  } else if (in.event_type == kMove) ref.last = in;
  else ref.inStroke = false;
}
static double tOf(int k) { return 1 + .005 * k; }
static Input fresh(Input::EventType ev) {
  Input in;
  in.event_type = ev;
  if (symbolic) {
    in.position = {vp_f32(Nm("x", seq), -10, 10), vp_f32(Nm("y", seq), -10, 10)};
    in.time = Time(vp_f64(Nm("t", seq), tOf(seq), tOf(seq) + .0005));
  } else {
    in.position = {1.f + seq, 2.f - .5f * seq};
    in.time = Time(tOf(seq));
  }
  in.pressure = in.tilt = in.orientation = -1;
  return in;
}
static void op(int o, int k) {
  ++seq;
  switch (o) {
    case 0: doUpdate(fresh(kDown), false); break;
    case 1: doUpdate(fresh(kMove), false); break;
    case 2: doUpdate(fresh(kUp), false); break;
    case 3: {  // exactly the last input again
      if (!ref.inStroke) { doUpdate(fresh(kDown), false); break; }
      doUpdate(ref.last, false); break;
    }
    case 4: {  // back in time, any kind of event
      Input in = fresh((Input::EventType)vp_choice(Nm("bk", k), 3));
      double d = vp_f64(Nm("dt", k), 1e-9, 10);
      if (ref.inStroke) in.time = Time(ref.last.time.Value() - d);
      doUpdate(in, false); break;
    }
    case 5: {  // a field that is not a number, or infinite
      Input in = fresh((Input::EventType)vp_choice(Nm("ek", k), 3));
      int w = vp_choice(Nm("fld", k), 3);
      if (w == 0) { in.position.x = vp_f32_any(Nm("bx", k)); vp_assume(!fin(in.position.x)); }
      if (w == 1) { in.position.y = vp_f32_any(Nm("by", k)); vp_assume(!fin(in.position.y)); }
      if (w == 2) { double t = vp_f64_any(Nm("bt", k)); vp_assume(!fin(t)); in.time = Time(t); }
      doUpdate(in, false); break;
    }
    case 6: {  // no such event
      int e = vp_choice(Nm("ev", k), 3);
      Input in = fresh((Input::EventType)(e == 0 ? 3 : e == 1 ? -1 : 7));
      doUpdate(in, false); break;
    }
    case 7: {
      std::vector<Result> p;
      if (!res.empty()) p.push_back(res[0]);
      int e = !ref.init || !ref.pred || !ref.inStroke ? kPrecond : kOk;
      int got = code(m.Predict(p));
      vp_observe_i("predict", got);
      vp_check(got == e, "status of Predict");
      if (e != kOk) vp_check(p.empty(), "a failed Predict leaves no results");
      break;
    }
    case 8: m.Save(); ref.saved = true; ref.savedIn = ref.inStroke; ref.savedLast = ref.last; break;
    case 9: m.Restore();
      if (ref.saved) { ref.inStroke = ref.savedIn; ref.last = ref.savedLast; }
      break;
    case 10: {
      int got = code(m.Reset());
      vp_check(got == (ref.init ? kOk : kPrecond), "status of Reset()");
      if (ref.init) { ref.inStroke = false; ref.saved = false; }
      break;
    }
    case 11: case 12: {
      bool dis = o == 12;
      int got = code(m.Reset(baseParams(dis ? DISABLED : 0, 30, 1)));
      vp_check(got == kOk, "status of Reset(valid)");
      ref.init = true; ref.pred = !dis; ref.inStroke = false; ref.saved = false;
      break;
    }
    case 13: {
      StrokeModelParams p = baseParams(0, 30, 1);
      int w = vp_choice(Nm("bad", k), 2);
      if (w == 0) p.sampling_params.min_output_rate = -1;
      else p.stylus_state_modeler_params.max_input_samples = 0;
      vp_check(code(m.Reset(p)) == kInvalid, "status of Reset(invalid)");
      break;
    }
    case 14: {  // too far ahead of the last input
      Input in = fresh(vp_choice(Nm("fk", k), 2) ? kMove : kUp);
      in.time = Time(tOf(seq) + vp_f64(Nm("far", k), 1, 1e6));
      doUpdate(in, true); break;
    }
    case 15: {  // same time as the last input, other position
      if (!ref.inStroke) { doUpdate(fresh(kUp), false); break; }
      Input in = ref.last;
      int w = vp_choice(Nm("sk", k), 3);
      in.event_type = (Input::EventType)w;
      in.position.x = ref.last.position.x + 1;
      doUpdate(in, false); break;
    }
  }
}
void vp_harness() {
  int c = vp_case();
  int depth = DEPTH;
  if (c >= 80) { c -= 80; symbolic = true; depth = 1; }
  switch (c / 16) {
    case 0: break;
    case 1: op(11, 90); break;
    case 2: op(11, 90); op(0, 91); op(1, 92); break;
    case 3: op(11, 90); op(0, 91); op(8, 92); op(2, 93); break;
    case 4: op(12, 90); op(0, 91); op(1, 92); break;
  }
  op(c % 16, 0);
  for (int k = 1; k <= depth; ++k) op(vp_choice(Nm("op", k), 16), k);
  vp_reach("end");
}
