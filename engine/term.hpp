// Hash-consed terms over bit-vectors (<= 64 bits) and IEEE-754 binary32/64.
// Every rewrite in this file is exact for the IEEE round-to-nearest-even
// semantics clang gives the compiled code (NaN payloads are not tracked).
#pragma once
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>

enum class Ty : uint8_t { BV, F32, F64 };

enum class Op : uint8_t {
  Const, Var,
  Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Concat, Extract, ZExt, SExt,
  Eq, Ult, Ule, Slt, Sle,
  Ite,
  FAdd, FMul, FDiv, FNeg, FAbs, FSqrt, FRem,
  FRound,           // c: 0 ceil 1 floor 2 trunc 3 round(half away) 4 rint
  FUf1, FUf2,       // libm functions; c = function id
  FMinN, FMaxN,     // C fmin / fmax
  FLt, FLe, FEq,
  FExt, FTrn,       // f32->f64, f64->f32
  FToSI, FToUI,     // w = target width
  SIToF, UIToF,
  BitsToF, FToBits
};

enum MathFn : uint64_t {
  kHypot, kAcos, kAsin, kAtan, kAtan2, kSin, kCos, kTan, kExp, kLog, kPow, kCbrt
};

struct Iv {  // floating point range; lo > hi means "no non-NaN value"
  double lo, hi;
  bool nan;
};
struct IIv {  // integer ranges
  uint64_t ulo, uhi;
  int64_t slo, shi;
};

constexpr int kPool = 512;
struct Mask {
  uint64_t w[kPool / 64];
  static Mask all() { Mask m; for (auto &x : m.w) x = ~0ull; return m; }
  static Mask none() { Mask m; for (auto &x : m.w) x = 0; return m; }
  bool any() const { for (auto x : w) if (x) return true; return false; }
  bool test(int i) const { return w[i / 64] >> (i % 64) & 1; }
  void set(int i) { w[i / 64] |= 1ull << (i % 64); }
  int count() const { int n = 0; for (auto x : w) n += __builtin_popcountll(x); return n; }
  Mask operator&(const Mask &o) const { Mask r; for (int i = 0; i < kPool / 64; i++) r.w[i] = w[i] & o.w[i]; return r; }
  Mask andnot(const Mask &o) const { Mask r; for (int i = 0; i < kPool / 64; i++) r.w[i] = w[i] & ~o.w[i]; return r; }
};

struct Term {
  uint32_t id;
  Op op;
  Ty ty;
  uint8_t w;
  uint8_t n;
  const Term *a[3];
  uint64_t c;
  mutable uint64_t *pool = nullptr;
  mutable Iv iv;
  mutable IIv iiv;
  mutable bool hasiv = false;
  bool isc() const { return op == Op::Const; }
  bool isF() const { return ty != Ty::BV; }
};
typedef const Term *T;

struct VarInfo {
  std::string name;
  Ty ty;
  uint8_t w;
  double flo, fhi; bool fnan;     // float vars: declared range
  int64_t ilo, ihi;               // signed range for int vars
  bool harness;                   // created by the harness (part of an input)
  std::vector<uint64_t> samples;  // kPool
  T term;
};
extern std::vector<VarInfo> gVars;

inline float bf(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
inline double bd(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
inline uint64_t fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
inline uint64_t db(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }
bool cmpMasks(T x, T y, unsigned &mx, unsigned &my);
inline double asd(Ty t, uint64_t b) { return t == Ty::F32 ? (double)bf(b) : bd(b); }
inline uint64_t fromd(Ty t, double d) { return t == Ty::F32 ? fb((float)d) : db(d); }

// Exact concrete evaluation of one operation.
uint64_t evalOp(Op op, Ty ty, int w, uint64_t c, const Term *const *kids, const uint64_t *v);

T mk(Op op, Ty ty, int w, uint64_t c, int n, T a, T b, T d);

inline T cbv(uint64_t v, int w) { return mk(Op::Const, Ty::BV, w, v & maskw(w), 0, 0, 0, 0); }
inline T cf32(float f) { return mk(Op::Const, Ty::F32, 32, fb(f), 0, 0, 0, 0); }
inline T cf64(double f) { return mk(Op::Const, Ty::F64, 64, db(f), 0, 0, 0, 0); }
inline T cfl(Ty t, double d) { return t == Ty::F32 ? cf32((float)d) : cf64(d); }
inline T tru() { return cbv(1, 1); }
inline T fls() { return cbv(0, 1); }
inline bool isT(T t) { return t->isc() && t->w == 1 && t->ty == Ty::BV && t->c == 1; }
inline bool isFa(T t) { return t->isc() && t->w == 1 && t->ty == Ty::BV && t->c == 0; }
T mkVar(VarInfo vi);

// smart constructors
T tBin(Op op, T a, T b);      // BV ops
T tNot(T a);                  // width 1
T tAnd(T a, T b);
T tOr(T a, T b);
T tSub(T a, T b);
T tCmp(Op op, T a, T b);      // Eq Ult Ule Slt Sle
T tIte(T c, T a, T b);
T tExt(Op op, T a, int w);    // ZExt SExt
T tExtract(T a, int lo, int w);
T tConcat(T hi, T lo);
T fBin(Op op, T a, T b);      // FAdd FMul FDiv FRem FMinN FMaxN
T fNeg(T a);
T fSub(T a, T b);
T fAbs(T a);
T fUn(Op op, T a, uint64_t c = 0);
T fUf(T a, T b, uint64_t fn);
T fCmp(Op op, T a, T b);      // FLt FLe FEq
T fConv(Op op, T a, Ty ty, int w);
T fNaN(T a);                  // is NaN
T toBits(T a);
T fromBits(T a, Ty ty);

// context-free ranges
const Iv &ivF(T t);
const IIv &ivI(T t);

const uint64_t *poolOf(T t);
extern bool gZeroSign;  // distinguish the sign of zero (default true)
extern size_t gTermCount;
std::string show(T t, int depth = 6);

// Evaluate under an explicit assignment (index -> bits), memoised by caller.
struct Assign {
  std::vector<uint64_t> v;  // indexed by var index
  int slot = 0;             // sample used for variables created later
  std::unordered_map<uint32_t, uint64_t> memo;
  uint64_t eval(T t);
};

Iv opIv(T t, const std::function<Iv(T)> &f, const std::function<IIv(T)> &g);
IIv opIIv(T t, const std::function<Iv(T)> &f, const std::function<IIv(T)> &g);
inline Iv ivJoin(Iv a, Iv b) {
  Iv r; r.nan = a.nan || b.nan;
  if (a.lo > a.hi) { r.lo = b.lo; r.hi = b.hi; return r; }
  if (b.lo > b.hi) { r.lo = a.lo; r.hi = a.hi; return r; }
  r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); return r;
}
inline Iv ivTop() { return Iv{-INFINITY, INFINITY, true}; }
IIv iivTop(int w);
int constLeaves(T t);
T rebuild(T t, T a, T b, T d);
void refineF(Iv &r, T t, T c, bool v, const std::function<Iv(T)> &f);
void refineI(IIv &r, T t, T c, bool v, const std::function<IIv(T)> &g);
