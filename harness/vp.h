// Harness primitives. In the symbolic build these are interpreted by
// engine/inksym; in the native build (native.cc) they read a value file, so the
// very same harness replays a counterexample against the compiled code.
#ifndef VP_H_
#define VP_H_
extern "C" {
float vp_f32(const char *name, double lo, double hi);        // any float in [lo,hi]
double vp_f64(const char *name, double lo, double hi);       // any double in [lo,hi]
float vp_f32_any(const char *name);                          // incl. NaN, inf
double vp_f64_any(const char *name);
// as vp_f64/vp_f32 (any value in [lo,hi]); base/dlo/dhi only steer the samples
double vp_f64_near(const char *name, double lo, double hi, double base, double dlo, double dhi);
float vp_f32_near(const char *name, double lo, double hi, float base, double dlo, double dhi);
int vp_i32(const char *name, int lo, int hi);
int vp_choice(const char *name, int n);                      // forks: 0..n-1
int vp_case(void);
int vp_native(void);
void vp_assume(bool c);
void vp_check(bool c, const char *label);
// Symbolically: a and b must be equal (or both NaN). Natively: within tol*max(1,|a|,|b|).
void vp_check_close32(float a, float b, double tol, const char *label);
void vp_check_close64(double a, double b, double tol, const char *label);
void vp_reach(const char *name);                             // vacuity guard
void vp_observe32(const char *name, float v);
void vp_observe64(const char *name, double v);
void vp_observe_i(const char *name, int v);
int vp_is_true(bool c);                                      // decide (fork on) c
void vp_end(void) __attribute__((noreturn));                 // end the path
void vp_harness(void);
}
// Native replay only: the oracle's decision between a and b is within tol of
// changing; a and b should be the same to the last bit.
#ifdef VP_NATIVE
extern "C" { void vp_tie(double a, double b, double tol); void vp_bits(double a, double b); void vp_calm(void); }
#else
inline void vp_tie(double, double, double) {}
inline void vp_bits(double, double) {}
inline void vp_calm(void) {}
#endif
#endif
