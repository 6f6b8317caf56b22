#include "sm.h"
void vp_harness() {
  int flags = vp_case() & 63, mode = vp_case() >> 6;
  StrokeModeler m;
  vp_check(m.Reset(baseParams(flags)).ok(), "reset");
  Input a = symIn(0, kDown, 1e4, 1, 1, mode);
  Input b = symIn(1, kMove, 1e4, 1.004, 1.005, mode);
  Input c = symIn(2, kUp, 1e4, 1.0055, 1.009, mode);
  std::vector<Result> r;
  vp_check(code(m.Update(a, r)) == kOk, "down");
  observe(r);
  auto s = m.Update(b, r);
  vp_observe_i("s", code(s));
  if (!s.ok()) return;
  observe(r);
  s = m.Update(c, r);
  vp_observe_i("s", code(s));
  if (!s.ok()) return;
  observe(r);
  vp_reach("end");
}
