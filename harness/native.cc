// Native replay runtime: same primitives, values from a file.
//   replay <values-file> [case]
// exit 0: every check held; 10: a check failed ("VP-FAIL <label>");
// 3: an assumption was not met; signals / sanitizer exits: crash.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#include "vp.h"
static std::map<std::string, std::string> *vals;
static int theCase = 0, failed = 0;
static bool armed = false;
static void finish() { fflush(stdout); _exit(failed ? 10 : 0); }
void *operator new(size_t n) {
  if (armed && n > (64u << 20)) { printf("VP-FAIL crash:huge-allocation\n"); failed = 1; finish(); }
  void *p = malloc(n ? n : 1);
  if (!p) { printf("VP-FAIL crash:huge-allocation\n"); failed = 1; finish(); }
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
static bool get(const char *n, uint64_t &bits) {
  auto it = vals->find(n);
  if (it == vals->end()) return false;
  const std::string &s = it->second;
  if (s.compare(0, 4, "i32:") == 0) { bits = (uint64_t)(int64_t)atoll(s.c_str() + 4); return true; }
  bits = strtoull(s.c_str() + 4, nullptr, 16);
  return true;
}
extern "C" {
float vp_f32_any(const char *n) { uint64_t b; if (!get(n, b)) return 0; uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
double vp_f64_any(const char *n) { uint64_t b; if (!get(n, b)) return 0; double f; memcpy(&f, &b, 8); return f; }
static double cl(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
float vp_f32(const char *n, double lo, double hi) { uint64_t b; if (!get(n, b)) return (float)cl(0, lo, hi); return vp_f32_any(n); }
double vp_f64(const char *n, double lo, double hi) { uint64_t b; if (!get(n, b)) return cl(0, lo, hi); return vp_f64_any(n); }
double vp_f64_near(const char *n, double lo, double hi, double base, double dlo, double) { uint64_t b; if (!get(n, b)) return cl(base + dlo, lo, hi); return vp_f64_any(n); }
float vp_f32_near(const char *n, double lo, double hi, float base, double dlo, double) { uint64_t b; if (!get(n, b)) return (float)cl(base + dlo, lo, hi); return vp_f32_any(n); }
int vp_i32(const char *n, int lo, int hi) { uint64_t b; if (!get(n, b)) return lo > 0 ? lo : hi < 0 ? hi : 0; return (int)b; }
int vp_choice(const char *n, int) { uint64_t b; if (!get(n, b)) return 0; return (int)b; }
int vp_case(void) { return theCase; }
int vp_native(void) { return 1; }
void vp_assume(bool c) { if (!c) { printf("VP-ASSUME\n"); fflush(stdout); _exit(failed ? 10 : 3); } }
// tied: the oracle came very close to a discontinuity (a tie of two distances, a
// step count about to change) in the current call. inexact: some result differed from it
// in the last bits only. genuine: some differed by more than that without
// a tie. With tied and inexact, but not genuine, a difference is a matter of rounding.
static bool tied = false, inexact = false, genuine = false, rough = false;
static void size(double d, double m) {  // of a difference
  if (!(d > 0)) return;
  if (d <= 2e-5 * std::fmax(1., m)) inexact = true;
  else { rough = true; if (!tied) genuine = true; }
}
static void fail(const char *l) {
  if (tied && inexact && !genuine) { printf("VP-FRAGILE %s\n", l); finish(); }
  printf("VP-FAIL %s\n", l);
  failed = 1;
}
void vp_tie(double a, double b, double tol) { if (std::fabs(a - b) <= tol) tied = true; }
void vp_bits(double a, double b) { size(std::fabs(a - b), std::fabs(b)); }
// the results of a call are compared; what comes after does not hang on its ties
void vp_calm(void) { if (!rough) tied = false; rough = false; }
void vp_check(bool c, const char *l) { if (!c) fail(l); }
void vp_check_close64(double a, double b, double tol, const char *l) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  double m = std::fmax(std::fabs(a), std::fabs(b));
  double lim = tol * std::fmax(1.0, std::isfinite(m) ? m : 1.0);
  if (std::fabs(a - b) <= lim) { size(std::fabs(a - b), m); return; }
  printf("VP-INFO %s: got %.17g, expected %.17g\n", l, a, b);
  fail(l);
}
void vp_check_close32(float a, float b, double tol, const char *l) { vp_check_close64(a, b, tol, l); }
void vp_reach(const char *) {}
void vp_observe32(const char *n, float v) { uint32_t u; memcpy(&u, &v, 4); printf("VP-OBS %s f32:%08x\n", n, u); }
void vp_observe64(const char *n, double v) { uint64_t u; memcpy(&u, &v, 8); printf("VP-OBS %s f64:%016llx\n", n, (unsigned long long)u); }
void vp_observe_i(const char *n, int v) { printf("VP-OBS %s i32:%d\n", n, v); }
int vp_is_true(bool c) { return c; }
void vp_end(void) { finish(); __builtin_unreachable(); }
}
int main(int argc, char **argv) {
  vals = new std::map<std::string, std::string>;
  if (argc > 2) theCase = atoi(argv[2]);
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r");
    char line[4096];
    while (f && fgets(line, sizeof line, f)) {
      if (line[0] == '#') continue;
      char *e = strchr(line, ' ');
      if (!e) continue;
      *e = 0;
      char *v = e + 1;
      v[strcspn(v, " \r\n")] = 0;
      (*vals)[line] = v;
    }
    if (f) fclose(f);
  }
  setvbuf(stdout, nullptr, _IOLBF, 4096);
  armed = true;
  vp_harness();
  finish();
}
