#include "term.hpp"
#include <algorithm>
#include <cfenv>
#include <sstream>
std::vector<VarInfo> gVars;
bool gZeroSign = true;
size_t gTermCount = 0;

static double mathFn(uint64_t fn, Ty ty, double x, double y) {
  if (ty == Ty::F32) {
    float a = (float)x, b = (float)y;
    switch (fn) {
      case kHypot: return hypotf(a, b); case kAcos: return acosf(a); case kAsin: return asinf(a);
      case kAtan: return atanf(a); case kAtan2: return atan2f(a, b); case kSin: return sinf(a);
      case kCos: return cosf(a); case kTan: return tanf(a); case kExp: return expf(a);
      case kLog: return logf(a); case kPow: return powf(a, b); case kCbrt: return cbrtf(a);
    }
  } else {
    switch (fn) {
      case kHypot: return hypot(x, y); case kAcos: return acos(x); case kAsin: return asin(x);
      case kAtan: return atan(x); case kAtan2: return atan2(x, y); case kSin: return sin(x);
      case kCos: return cos(x); case kTan: return tan(x); case kExp: return exp(x);
      case kLog: return log(x); case kPow: return pow(x, y); case kCbrt: return cbrt(x);
    }
  }
  return NAN;
}
static double roundFn(uint64_t k, double x) {
  switch (k) { case 0: return std::ceil(x); case 1: return std::floor(x); case 2: return std::trunc(x);
    case 3: return std::round(x); default: return std::nearbyint(x); }
}

uint64_t evalOp(Op op, Ty ty, int w, uint64_t c, const Term *const *k, const uint64_t *v) {
  uint64_t m = maskw(w);
  auto A = [&](int i) { return v[i]; };
  auto S = [&](int i) { return sxt(v[i], k[i]->w); };
  auto F = [&](int i) { return bf(v[i]); };
  auto D = [&](int i) { return bd(v[i]); };
  bool f32 = ty == Ty::F32;
  switch (op) {
    case Op::Const: case Op::Var: return c;
    case Op::Add: return (A(0) + A(1)) & m;
    case Op::Mul: return (A(0) * A(1)) & m;
    case Op::UDiv: return A(1) ? A(0) / A(1) : m;
    case Op::URem: return A(1) ? A(0) % A(1) : A(0);
    case Op::SDiv: { int64_t a = S(0), b = S(1); if (!b) return m; if (b == -1) return (uint64_t)(-(uint64_t)a) & m; return (uint64_t)(a / b) & m; }
    case Op::SRem: { int64_t a = S(0), b = S(1); if (!b) return A(0); if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case Op::And: return A(0) & A(1);
    case Op::Or: return A(0) | A(1);
    case Op::Xor: return A(0) ^ A(1);
    case Op::Shl: return A(1) >= (uint64_t)w ? 0 : (A(0) << A(1)) & m;
    case Op::LShr: return A(1) >= (uint64_t)w ? 0 : A(0) >> A(1);
    case Op::AShr: return (uint64_t)(S(0) >> std::min<uint64_t>(A(1), 63)) & m;
    case Op::Concat: return (A(0) << k[1]->w) | A(1);
    case Op::Extract: return (A(0) >> c) & m;
    case Op::ZExt: return A(0);
    case Op::SExt: return (uint64_t)S(0) & m;
    case Op::Eq: return A(0) == A(1);
    case Op::Ult: return A(0) < A(1);
    case Op::Ule: return A(0) <= A(1);
    case Op::Slt: return S(0) < S(1);
    case Op::Sle: return S(0) <= S(1);
    case Op::Ite: return A(0) ? A(1) : A(2);
    case Op::FAdd: return f32 ? fb(F(0) + F(1)) : db(D(0) + D(1));
    case Op::FMul: return f32 ? fb(F(0) * F(1)) : db(D(0) * D(1));
    case Op::FDiv: return f32 ? fb(F(0) / F(1)) : db(D(0) / D(1));
    case Op::FRem: return f32 ? fb(fmodf(F(0), F(1))) : db(fmod(D(0), D(1)));
    case Op::FNeg: return A(0) ^ (f32 ? 0x80000000ull : 0x8000000000000000ull);
    case Op::FAbs: return A(0) & (f32 ? 0x7fffffffull : 0x7fffffffffffffffull);
    case Op::FSqrt: return f32 ? fb(sqrtf(F(0))) : db(sqrt(D(0)));
    case Op::FRound: return f32 ? fb((float)roundFn(c, F(0))) : db(roundFn(c, D(0)));
    case Op::FUf1: return fromd(ty, mathFn(c, ty, asd(ty, A(0)), 0));
    case Op::FUf2: return fromd(ty, mathFn(c, ty, asd(ty, A(0)), asd(ty, A(1))));
    case Op::FMinN: return f32 ? fb(fminf(F(0), F(1))) : db(fmin(D(0), D(1)));
    case Op::FMaxN: return f32 ? fb(fmaxf(F(0), F(1))) : db(fmax(D(0), D(1)));
    case Op::FLt: return asd(k[0]->ty, A(0)) < asd(k[0]->ty, A(1));
    case Op::FLe: return asd(k[0]->ty, A(0)) <= asd(k[0]->ty, A(1));
    case Op::FEq: return asd(k[0]->ty, A(0)) == asd(k[0]->ty, A(1));
    case Op::FExt: return db((double)F(0));
    case Op::FTrn: return fb((float)D(0));
    case Op::FToSI: {
      double x = asd(k[0]->ty, A(0));
      double lim = std::ldexp(1.0, w - 1);
      if (!(x > -lim - 1 && x < lim)) return (w >= 32) ? (1ull << (w - 1)) : 0;
      double t = std::trunc(x);
      if (t < -lim) return (1ull << (w - 1));
      return (uint64_t)(int64_t)t & m;
    }
    case Op::FToUI: {
      double x = asd(k[0]->ty, A(0));
      if (!(x > -1 && x < std::ldexp(1.0, w))) return m;
      return (uint64_t)x & m;
    }
    case Op::SIToF: return f32 ? fb((float)S(0)) : db((double)S(0));
    case Op::UIToF: return f32 ? fb((float)A(0)) : db((double)A(0));
    case Op::BitsToF: case Op::FToBits: return A(0);
  }
  return 0;
}

// ---- hash consing ----------------------------------------------------------
struct Key {
  Op op; Ty ty; uint8_t w, n; T a[3]; uint64_t c;
  bool operator==(const Key &o) const {
    return op == o.op && ty == o.ty && w == o.w && n == o.n && a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2] && c == o.c;
  }
};
struct KeyH {
  size_t operator()(const Key &k) const {
    uint64_t h = (uint64_t)k.op * 0x9e3779b97f4a7c15ull + (uint64_t)k.ty * 77 + k.w * 131 + k.n;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    for (auto t : k.a) mix(t ? t->id + 1 : 0);
    mix(k.c);
    return h;
  }
};
static std::unordered_map<Key, Term *, KeyH> gTab;

T mk(Op op, Ty ty, int w, uint64_t c, int n, T a, T b, T d) {
  Key k{op, ty, (uint8_t)w, (uint8_t)n, {a, b, d}, c};
  auto it = gTab.find(k);
  if (it != gTab.end()) return it->second;
  // constant folding
  if (n > 0) {
    bool allc = true;
    for (int i = 0; i < n; i++) if (!k.a[i]->isc()) { allc = false; break; }
    if (allc) {
      uint64_t v[3];
      for (int i = 0; i < n; i++) v[i] = k.a[i]->c;
      uint64_t r = evalOp(op, ty, w, c, k.a, v);
      if (ty == Ty::F32 && std::isnan(bf(r))) r = 0x7fc00000;
      if (ty == Ty::F64 && std::isnan(bd(r))) r = 0x7ff8000000000000ull;
      T t = mk(Op::Const, ty, w, r, 0, 0, 0, 0);
      return t;
    }
  }
  Term *t = new Term();
  t->id = (uint32_t)gTermCount++;
  t->op = op; t->ty = ty; t->w = (uint8_t)w; t->n = (uint8_t)n;
  t->a[0] = a; t->a[1] = b; t->a[2] = d; t->c = c;
  gTab[k] = t;
  return t;
}
T mkVar(VarInfo vi) {
  uint64_t idx = gVars.size();
  T t = mk(Op::Var, vi.ty, vi.w, idx, 0, 0, 0, 0);
  vi.term = t;
  gVars.push_back(std::move(vi));
  return t;
}

// ---- BV constructors --------------------------------------------------------
T tNot(T a) {
  assert(a->w == 1 && a->ty == Ty::BV);
  if (a->isc()) return cbv(a->c ^ 1, 1);
  if (a->op == Op::Xor && isT(a->a[1])) return a->a[0];
  if (a->op == Op::Ite && a->a[1]->isc() && a->a[2]->isc()) return tIte(a->a[0], tNot(a->a[1]), tNot(a->a[2]));
  return mk(Op::Xor, Ty::BV, 1, 0, 2, a, tru(), 0);
}
static bool comm(Op op) {
  switch (op) { case Op::Add: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Eq: case Op::FAdd: case Op::FMul: case Op::FEq: case Op::FMinN: case Op::FMaxN: return true; default: return false; }
}
// an if-then-else tree with few constant leaves; operations are pushed into it
int constLeaves(T t) {
  if (t->isc()) return 1;
  if (t->op != Op::Ite) return 1000;
  static std::unordered_map<uint32_t, int> memo;
  auto it = memo.find(t->id);
  if (it != memo.end()) return it->second;
  int r = std::min(1000, constLeaves(t->a[1]) + constLeaves(t->a[2]));
  return memo[t->id] = r;
}
static bool constLeafIte(T t) { return t->op == Op::Ite && constLeaves(t) <= 64; }
T tSub(T a, T b) {
  if (b->isc()) return tBin(Op::Add, a, cbv(-b->c, b->w));
  if (a == b) return cbv(0, a->w);
  // (x + c) - x = c
  if (a->op == Op::Add && a->a[0] == b && a->a[1]->isc()) return a->a[1];
  return tBin(Op::Add, a, tBin(Op::Mul, b, cbv(maskw(b->w), b->w)));
}
// Two comparisons over the same operands, or of one operand against constants,
// as sets of the situations in which they hold: below c1, at c1, between, at c2,
// above c2, unordered.
static bool cmpMask1(T c, T q, double c1, double c2, unsigned &m) {
  bool lhs = c->a[0] == q;
  double k = asd(q->ty, c->a[lhs ? 1 : 0]->c);
  if (!(k == c1 || k == c2)) return false;
  unsigned lt = k == c1 ? 1 : 7, eq = (k == c1 ? 2u : 0u) | (k == c2 ? 8u : 0u), gt = k == c2 ? 16 : 28;
  if (c1 == c2) { lt = 1; eq = 2 | 4 | 8; gt = 16; }
  if (c->op == Op::FEq) m = eq;
  else if (c->op == Op::FLt) m = lhs ? lt : gt;
  else m = (lhs ? lt : gt) | eq;
  return true;
}
bool cmpMasks(T x, T y, unsigned &mx, unsigned &my) {
  auto isF = [](T t) { return t->op == Op::FLt || t->op == Op::FLe || t->op == Op::FEq; };
  if (!isF(x) || !isF(y)) return false;
  if ((x->a[0] == y->a[0] && x->a[1] == y->a[1]) || (x->a[0] == y->a[1] && x->a[1] == y->a[0])) {
    T q = x->a[0];
    auto m = [&](T c) -> unsigned {
      unsigned lt = 1, eq = 2 | 4 | 8, gt = 16;
      if (c->op == Op::FEq) return eq;
      return (c->a[0] == q ? lt : gt) | (c->op == Op::FLe ? eq : 0);
    };
    mx = m(x); my = m(y);
    return true;
  }
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
    if (x->a[i] != y->a[j] || x->a[i]->isc() || !x->a[1 - i]->isc() || !y->a[1 - j]->isc()) continue;
    T q = x->a[i];
    double c1 = asd(q->ty, x->a[1 - i]->c), c2 = asd(q->ty, y->a[1 - j]->c);
    if (c1 != c1 || c2 != c2) return false;
    if (c1 > c2) std::swap(c1, c2);
    return cmpMask1(x, q, c1, c2, mx) && cmpMask1(y, q, c1, c2, my);
  }
  return false;
}
T tAnd(T a, T b) { return tBin(Op::And, a, b); }
T tOr(T a, T b) { return tBin(Op::Or, a, b); }

T tBin(Op op, T a, T b) {
  int w = a->w;
  if (a->isc() && b->isc()) return mk(op, Ty::BV, w, 0, 2, a, b, 0);
  if ((op == Op::And || op == Op::Or || op == Op::Xor) && w > 1) {
    auto bit = [](T t) { return t->op == Op::Ite && t->a[1]->isc() && t->a[1]->c == 1 && t->a[2]->isc() && t->a[2]->c == 0; };
    if (bit(a) && bit(b)) return tIte(tBin(op, a->a[0], b->a[0]), cbv(1, w), cbv(0, w));
  }
  if (comm(op)) {
    if (a->isc() || (!b->isc() && a->id > b->id)) std::swap(a, b);
  }
  uint64_t m = maskw(w);
  if (b->isc()) {
    uint64_t c = b->c;
    switch (op) {
      case Op::Add:
        if (c == 0) return a;
        if (a->op == Op::Add && a->a[1]->isc()) return tBin(Op::Add, a->a[0], cbv(a->a[1]->c + c, w));
        break;
      case Op::Mul:
        if (c == 0) return b;
        if (c == 1) return a;
        if (a->op == Op::Mul && a->a[1]->isc()) return tBin(Op::Mul, a->a[0], cbv(a->a[1]->c * c, w));
        break;
      case Op::UDiv: case Op::SDiv: if (c == 1) return a; break;
      case Op::And:
        if (c == 0) return b;
        if (c == m) return a;
        if (a->op == Op::ZExt && (c & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
        if (a->op == Op::And && a->a[1]->isc()) return tBin(Op::And, a->a[0], cbv(a->a[1]->c & c, w));
        // low mask => zext(extract)
        if ((c & (c + 1)) == 0) { int k = __builtin_popcountll(c); return tExt(Op::ZExt, tExtract(a, 0, k), w); }
        // one block of bits => shifted extract
        { int lo = __builtin_ctzll(c); uint64_t q = c >> lo;
          if ((q & (q + 1)) == 0) { int k = __builtin_popcountll(q); return tBin(Op::Mul, tExt(Op::ZExt, tExtract(a, lo, k), w), cbv(1ull << lo, w)); } }
        break;
      case Op::Or: if (c == 0) return a; if (c == m) return b; break;
      case Op::Xor:
        if (c == 0) return a;
        if (w == 1) return tNot(a);
        if (a->op == Op::Xor && a->a[1]->isc()) return tBin(Op::Xor, a->a[0], cbv(a->a[1]->c ^ c, w));
        break;
      case Op::Shl:
        if (c == 0) return a;
        if (c >= (uint64_t)w) return cbv(0, w);
        return tBin(Op::Mul, a, cbv(1ull << c, w));
      case Op::LShr:
        if (c == 0) return a;
        if (c >= (uint64_t)w) return cbv(0, w);
        return tExt(Op::ZExt, tExtract(a, c, w - c), w);
      case Op::AShr:
        if (c == 0) return a;
        // (x << k) >> k, x having w-k bits: a sign extension
        if (a->op == Op::Mul && a->a[1]->isc() && c < 64 && a->a[1]->c == (1ull << c) && a->w > (int)c) return tExt(Op::SExt, tExtract(a->a[0], 0, a->w - (int)c), a->w);
        break;
      default: break;
    }
  }
  if (a == b) {
    switch (op) {
      case Op::And: case Op::Or: return a;
      case Op::Xor: return cbv(0, w);
      default: break;
    }
  }
  if (w == 1 && (op == Op::And || op == Op::Or)) {
    if (tNot(a) == b) return op == Op::And ? fls() : tru();
    {
      T x = a, y = b;
      bool px = true, py = true;
      while (x->op == Op::Xor && x->w == 1 && x->a[1]->isc()) { if (x->a[1]->c) px = !px; x = x->a[0]; }
      while (y->op == Op::Xor && y->w == 1 && y->a[1]->isc()) { if (y->a[1]->c) py = !py; y = y->a[0]; }
      unsigned mx, my;
      if (cmpMasks(x, y, mx, my)) {
        if (!px) mx = ~mx & 63;
        if (!py) my = ~my & 63;
        bool an = op == Op::And;
        if (!(mx & ~my)) return an ? a : b;
        if (!(my & ~mx)) return an ? b : a;
        if (an && !(mx & my)) return fls();
        if (!an && (mx | my) == 63) return tru();
      }
    }
    // absorption
    for (int s = 0; s < 2; s++) {
      T x = s ? b : a, y = s ? a : b;
      if (y->op == Op::And || y->op == Op::Or) {
        if (y->a[0] == x || y->a[1] == x) return y->op == op ? y : x;
      }
    }
  }
  if (op == Op::Or && w > 1) {
    // or of disjoint zext / shifted parts -> concat
    auto low = [](T t, int &k) -> T { if (t->op == Op::ZExt) { k = t->a[0]->w; return t->a[0]; } return nullptr; };
    for (int s = 0; s < 2; s++) {
      T x = s ? b : a, y = s ? a : b;
      int k; T lo = low(x, k);
      if (!lo) continue;
      if (y->op == Op::Mul && y->a[1]->isc() && y->a[1]->c == (1ull << k) ) {
        return tConcat(tExtract(y->a[0], 0, w - k), lo);
      }
      if (y->op == Op::Concat && y->a[1]->isc() && y->a[1]->c == 0 && y->a[1]->w == k) return tConcat(y->a[0], lo);
    }
  }
  if (b->isc() && constLeafIte(a)) return tIte(a->a[0], tBin(op, a->a[1], b), tBin(op, a->a[2], b));
  if (a->isc() && constLeafIte(b)) return tIte(b->a[0], tBin(op, a, b->a[1]), tBin(op, a, b->a[2]));
  return mk(op, Ty::BV, w, 0, 2, a, b, 0);
}

T tCmp(Op op, T a, T b) {
  if (a->isc() && b->isc()) return mk(op, Ty::BV, 1, 0, 2, a, b, 0);
  if (a == b) return (op == Op::Eq || op == Op::Ule || op == Op::Sle) ? tru() : fls();
  int w = a->w;
  // normalise Ule/Sle towards Ult/Slt with constants
  if (op == Op::Ule) return tNot(tCmp(Op::Ult, b, a));
  if (op == Op::Sle) return tNot(tCmp(Op::Slt, b, a));
  if (op == Op::Eq) {
    if (a->isc() || (!b->isc() && a->id > b->id)) std::swap(a, b);
    if (w == 1) {
      if (b->isc()) return b->c ? a : tNot(a);
    }
    if (b->isc()) {
      if (a->op == Op::Add && a->a[1]->isc()) return tCmp(Op::Eq, a->a[0], cbv(b->c - a->a[1]->c, w));
      if (a->op == Op::ZExt) {
        if (b->c >> a->a[0]->w) return fls();
        return tCmp(Op::Eq, a->a[0], cbv(b->c, a->a[0]->w));
      }
      if (a->op == Op::Mul && a->a[1]->isc() && a->a[0]->op == Op::ZExt && a->a[1]->c && (a->a[1]->c & (a->a[1]->c - 1)) == 0) {
        int k = __builtin_ctzll(a->a[1]->c), xw = a->a[0]->a[0]->w;
        if (xw + k <= w) { uint64_t q = b->c >> k; if ((q << k) != b->c || (xw < 64 && (q >> xw))) return fls(); return tCmp(Op::Eq, a->a[0]->a[0], cbv(q, xw)); }
      }
      if (a->op == Op::SExt) {
        if ((uint64_t)sxt(b->c & maskw(a->a[0]->w), a->a[0]->w) != (uint64_t)sxt(b->c, w)) return fls();
        return tCmp(Op::Eq, a->a[0], cbv(b->c, a->a[0]->w));
      }
      if (a->op == Op::Xor && a->a[1]->isc()) return tCmp(Op::Eq, a->a[0], cbv(b->c ^ a->a[1]->c, w));
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a[0]->w == b->a[0]->w) return tCmp(Op::Eq, a->a[0], b->a[0]);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a[0]->w == b->a[0]->w) return tCmp(Op::Eq, a->a[0], b->a[0]);
  } else {
    // both extended from the same width
    if ((a->op == Op::SExt || b->op == Op::SExt) && op == Op::Slt) {
      T x = a->op == Op::SExt ? a->a[0] : nullptr, y = b->op == Op::SExt ? b->a[0] : nullptr;
      if (x && y && x->w == y->w) return tCmp(op, x, y);
      if (x && b->isc() && sxt(b->c & maskw(x->w), x->w) == sxt(b->c, w)) return tCmp(op, x, cbv(b->c, x->w));
      if (y && a->isc() && sxt(a->c & maskw(y->w), y->w) == sxt(a->c, w)) return tCmp(op, cbv(a->c, y->w), y);
    }
    if (a->op == Op::ZExt || b->op == Op::ZExt) {
      T x = a->op == Op::ZExt ? a->a[0] : nullptr, y = b->op == Op::ZExt ? b->a[0] : nullptr;
      if (x && y && x->w == y->w) return tCmp(Op::Ult, x, y);
      if (x && b->isc() && b->c <= maskw(x->w)) return tCmp(Op::Ult, x, cbv(b->c, x->w));
      if (y && a->isc() && a->c <= maskw(y->w)) return tCmp(Op::Ult, cbv(a->c, y->w), y);
    }
    if (op == Op::Ult) {
      if (b->isc() && b->c == 0) return fls();
      if (a->isc() && a->c == maskw(w)) return fls();
      if (b->isc() && b->c == 1) return tCmp(Op::Eq, a, cbv(0, w));
      if (a->isc() && a->c == 0) return tNot(tCmp(Op::Eq, b, cbv(0, w)));
    }
    if (op == Op::Slt) {
      // canonical with constant: a < c+1  <=>  !(c < a)   -> keep "a < c" form
      if (a->isc() && sxt(a->c, w) != sxt(maskw(w) >> 1, w)) return tNot(tCmp(Op::Slt, b, cbv(a->c + 1, w)));
    }
  }
  if (b->isc() && constLeafIte(a)) return tIte(a->a[0], tCmp(op, a->a[1], b), tCmp(op, a->a[2], b));
  if (a->isc() && constLeafIte(b)) return tIte(b->a[0], tCmp(op, a, b->a[1]), tCmp(op, a, b->a[2]));
  T t = mk(op, Ty::BV, 1, 0, 2, a, b, 0);
  if (t->isc()) return t;
  // decide by context-free ranges
  const IIv &x = ivI(a), &y = ivI(b);
  switch (op) {
    case Op::Eq: if (x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo) return fls(); break;
    case Op::Ult: if (x.uhi < y.ulo) return tru(); if (x.ulo >= y.uhi) return fls(); break;
    case Op::Slt: if (x.shi < y.slo) return tru(); if (x.slo >= y.shi) return fls(); break;
    default: break;
  }
  return t;
}

T tIte(T c, T a, T b) {
  if (c->isc()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) return tIte(c->a[0], b, a);
  if (a->w == 1 && a->ty == Ty::BV) {
    if (isT(a) && isFa(b)) return c;
    if (isFa(a) && isT(b)) return tNot(c);
    if (isT(a)) return tOr(c, b);
    if (isFa(a)) return tAnd(tNot(c), b);
    if (isT(b)) return tOr(tNot(c), a);
    if (isFa(b)) return tAnd(c, a);
  }
  if (a->op == Op::Ite && a->a[0] == c) a = a->a[1];
  if (b->op == Op::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  // ite(x == k, k, y): nothing
  return mk(Op::Ite, a->ty, a->w, 0, 3, c, a, b);
}
T tExt(Op op, T a, int w) {
  if (a->w == w) return a;
  if (a->isc()) return mk(op, Ty::BV, w, 0, 1, a, 0, 0);
  if (a->w == 1) return tIte(a, cbv(op == Op::SExt ? maskw(w) : 1, w), cbv(0, w));
  if (a->op == Op::ZExt) return tExt(Op::ZExt, a->a[0], w);
  if (a->op == Op::SExt && op == Op::SExt) return tExt(Op::SExt, a->a[0], w);
  if (constLeafIte(a)) return tIte(a->a[0], tExt(op, a->a[1], w), tExt(op, a->a[2], w));
  return mk(op, Ty::BV, w, 0, 1, a, 0, 0);
}
T tExtract(T a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isc()) return cbv(a->c >> lo, w);
  switch (a->op) {
    case Op::Extract: return tExtract(a->a[0], lo + a->c, w);
    case Op::Concat: {
      int lw = a->a[1]->w;
      if (lo >= lw) return tExtract(a->a[0], lo - lw, w);
      if (lo + w <= lw) return tExtract(a->a[1], lo, w);
      return tConcat(tExtract(a->a[0], 0, lo + w - lw), tExtract(a->a[1], lo, lw - lo));
    }
    case Op::ZExt: {
      int lw = a->a[0]->w;
      if (lo >= lw) return cbv(0, w);
      if (lo + w <= lw) return tExtract(a->a[0], lo, w);
      return tExt(Op::ZExt, tExtract(a->a[0], lo, lw - lo), w);
    }
    case Op::SExt: {
      int lw = a->a[0]->w;
      if (lo + w <= lw) return tExtract(a->a[0], lo, w);
      if (lo == 0) return tExt(Op::SExt, a->a[0], w);
      break;
    }
    case Op::Add: case Op::Mul: case Op::And: case Op::Or: case Op::Xor:
      if (a->op == Op::Mul && lo > 0 && a->a[1]->isc() && a->a[1]->c && (a->a[1]->c & (a->a[1]->c - 1)) == 0) {
        int k = __builtin_ctzll(a->a[1]->c);
        if (lo >= k) return tExtract(a->a[0], lo - k, w);
        if (lo + w <= k) return cbv(0, w);
      }
      if (lo == 0 || (a->op != Op::Add && a->op != Op::Mul)) return tBin(a->op, tExtract(a->a[0], lo, w), tExtract(a->a[1], lo, w));
      break;
    case Op::Ite:
      if (constLeafIte(a)) return tIte(a->a[0], tExtract(a->a[1], lo, w), tExtract(a->a[2], lo, w));
      {
        auto simp = [](T t) { return t->isc() || t->op == Op::Concat || t->op == Op::ZExt || t->op == Op::Or || t->op == Op::Ite || t->op == Op::Mul; };
        if (simp(a->a[1]) || simp(a->a[2])) {
          T x = tExtract(a->a[1], lo, w), y = tExtract(a->a[2], lo, w);
          if (x->op != Op::Extract || y->op != Op::Extract) return tIte(a->a[0], x, y);
        }
      }
      break;
    default: break;
  }
  return mk(Op::Extract, Ty::BV, w, lo, 1, a, 0, 0);
}
T tConcat(T hi, T lo) {
  int w = hi->w + lo->w;
  if (hi->isc() && lo->isc()) return cbv((hi->c << lo->w) | lo->c, w);
  if (hi->isc() && hi->c == 0) return tExt(Op::ZExt, lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w)
    return tExtract(hi->a[0], lo->c, w);
  if (hi->op == Op::Extract && hi->a[0] == lo && hi->c == lo->w) return tExtract(hi->a[0], 0, w);
  // Concat(Extract(x), Concat(Extract(x), y))
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a[0]->op == Op::Extract && hi->a[0] == lo->a[0]->a[0] && hi->c == lo->a[0]->c + lo->a[0]->w)
    return tConcat(tExtract(hi->a[0], lo->a[0]->c, hi->w + lo->a[0]->w), lo->a[1]);
  return mk(Op::Concat, Ty::BV, w, 0, 2, hi, lo, 0);
}
T toBits(T a) {
  if (!a->isF()) return a;
  if (a->isc()) return cbv(a->c, a->w);
  if (a->op == Op::BitsToF) return a->a[0];
  return mk(Op::FToBits, Ty::BV, a->w, 0, 1, a, 0, 0);
}
T fromBits(T a, Ty ty) {
  if (a->isF()) return a;
  if (a->isc()) return mk(Op::Const, ty, a->w, a->c, 0, 0, 0, 0);
  if (a->op == Op::FToBits) return a->a[0];
  if (a->op == Op::Ite) return tIte(a->a[0], fromBits(a->a[1], ty), fromBits(a->a[2], ty));
  // sign-bit tricks
  uint64_t sign = 1ull << (a->w - 1);
  if (a->op == Op::Xor && a->a[1]->isc() && a->a[1]->c == sign) return fNeg(fromBits(a->a[0], ty));
  if (a->op == Op::ZExt && a->a[0]->op == Op::Extract && a->a[0]->w == a->w - 1 && a->a[0]->c == 0)
    return fAbs(fromBits(a->a[0]->a[0], ty));
  return mk(Op::BitsToF, ty, a->w, 0, 1, a, 0, 0);
}

// ---- FP constructors --------------------------------------------------------
T fNeg(T a) {
  if (a->isc()) return mk(Op::FNeg, a->ty, a->w, 0, 1, a, 0, 0);
  if (a->op == Op::FNeg) return a->a[0];
  if (a->op == Op::Ite && a->a[1]->isc() && a->a[2]->isc()) return tIte(a->a[0], fNeg(a->a[1]), fNeg(a->a[2]));
  return mk(Op::FNeg, a->ty, a->w, 0, 1, a, 0, 0);
}
// Representative of {a, -a}: used where only |a| matters.
static T absCanon(T a) {
  if (a->op == Op::FNeg || a->op == Op::FAbs) return absCanon(a->a[0]);
  if (a->isc()) return cfl(a->ty, std::fabs(asd(a->ty, a->c)));
  if (a->op == Op::FAdd) {
    T x = a->a[0], y = a->a[1];
    // pick the operand with the smaller underlying id as the positive one
    T ux = x->op == Op::FNeg ? x->a[0] : x, uy = y->op == Op::FNeg ? y->a[0] : y;
    T lead = ux->id <= uy->id ? x : y;
    bool neg = lead->op == Op::FNeg;
    if (lead->isc()) { T oth = lead == x ? y : x; neg = oth->op == Op::FNeg; }
    if (neg) return fBin(Op::FAdd, fNeg(x), fNeg(y));
  }
  return a;
}
T fAbs(T a) {
  if (a->isc()) return mk(Op::FAbs, a->ty, a->w, 0, 1, a, 0, 0);
  a = absCanon(a);
  return mk(Op::FAbs, a->ty, a->w, 0, 1, a, 0, 0);
}
T fSub(T a, T b) { return fBin(Op::FAdd, a, fNeg(b)); }

static bool pow2c(T c, double &inv) {
  double d = asd(c->ty, c->c);
  if (d == 0 || std::isinf(d) || std::isnan(d)) return false;
  int e; double f = std::frexp(d, &e);
  if (std::fabs(f) != 0.5) return false;
  inv = 1 / d;
  if (c->ty == Ty::F32) return std::fabs(inv) >= FLT_MIN && std::fabs(inv) <= FLT_MAX && std::fabs(d) >= FLT_MIN;
  return std::fabs(inv) >= DBL_MIN && std::fabs(inv) <= DBL_MAX && std::fabs(d) >= DBL_MIN;
}

T fBin(Op op, T a, T b) {
  Ty ty = a->ty; int w = a->w;
  if (a->isc() && b->isc()) return mk(op, ty, w, 0, 2, a, b, 0);
  if (op == Op::FMul || op == Op::FDiv) {
    bool neg = false;
    auto strip = [&](T x) -> T {
      if (x->op == Op::FNeg) { neg = !neg; return x->a[0]; }
      if (x->isc() && std::signbit(asd(ty, x->c)) && !std::isnan(asd(ty, x->c))) { neg = !neg; return fNeg(x); }
      return x;
    };
    T x = strip(a), y = strip(b);
    if (neg) return fNeg(fBin(op, x, y));
    a = x; b = y;
  }
  if (op == Op::FDiv && b->isc()) {
    double inv;
    if (pow2c(b, inv)) return fBin(Op::FMul, a, cfl(ty, inv));
  }
  if (comm(op)) {
    if (a->isc() || (!b->isc() && a->id > b->id)) std::swap(a, b);
  }
  if (op == Op::FMul && b->isc() && asd(ty, b->c) == 1.0) return a;
  if (op == Op::FDiv && b->isc() && asd(ty, b->c) == 1.0) return a;
  if (op == Op::FAdd && b->isc() && asd(ty, b->c) == 0 && (std::signbit(asd(ty, b->c)) || !gZeroSign)) return a;
  if (op == Op::FAdd && b->isc() && asd(ty, b->c) == 0) {
    // x + 0 = x unless x is -0; drop it when x cannot be zero or is a value
    // that is never -0 (squares, abs, sums that cannot be -0 ...).
    const Iv &i = ivF(a);
    if (i.lo == 0 && i.hi == 0 && !i.nan) return b;  // -0 + 0 is +0
    if (i.lo > 0 || i.hi < 0 || a->op == Op::FAbs) return a;
    if (a->op == Op::FMul && a->a[0] == a->a[1]) return a;
    if (a->op == Op::FAdd) {
      // x + y is -0 only if both are -0 (or exact underflow is impossible in add)
      const T x = a->a[0], y = a->a[1];
      auto neverNegZero = [&](T t) { if (t->isc()) return !(asd(ty, t->c) == 0 && std::signbit(asd(ty, t->c))); const Iv &j = ivF(t); return j.lo > 0 || j.hi < 0 || t->op == Op::FAbs || (t->op == Op::FMul && t->a[0] == t->a[1]); };
      if (neverNegZero(x) || neverNegZero(y)) return a;
    }
  }
  if (op == Op::FAdd)
    for (int sw = 0; sw < 2; sw++) {
      T x = sw ? b : a, z = sw ? a : b;
      const Iv &j = ivF(z);
      if (!(j.lo == 0 && j.hi == 0 && !j.nan)) continue;
      if (!gZeroSign) return x;
      const Iv &i = ivF(x);
      if (i.lo > 0 || i.hi < 0) return x;
    }
  if (op == Op::FMul && !gZeroSign && b->isc() && asd(ty, b->c) == 0) {
    const Iv &i = ivF(a);
    if (!i.nan && std::isfinite(i.lo) && std::isfinite(i.hi)) return cfl(ty, 0.0);
  }
  if (op == Op::FAdd && a == b) return fBin(Op::FMul, a, cfl(ty, 2.0));
  if (op == Op::FMul && a == b) { T c = absCanon(a); a = b = c; if (c->isc()) return mk(op, ty, w, 0, 2, a, b, 0); }
  if (!gZeroSign && op == Op::FAdd) {
    // canonical sign: leading operand positive
    T ux = a->op == Op::FNeg ? a->a[0] : a, uy = b->op == Op::FNeg ? b->a[0] : b;
    T lead = ux->id <= uy->id ? a : b;
    bool neg = lead->op == Op::FNeg;
    if (a->isc() || b->isc()) { T oth = a->isc() ? b : a; neg = oth->op == Op::FNeg; }
    if (neg) return fNeg(fBin(op, fNeg(a), fNeg(b)));
  }
  if ((b->isc() && constLeafIte(a))) return tIte(a->a[0], fBin(op, a->a[1], b), fBin(op, a->a[2], b));
  if ((a->isc() && constLeafIte(b))) return tIte(b->a[0], fBin(op, a, b->a[1]), fBin(op, a, b->a[2]));
  return mk(op, ty, w, 0, 2, a, b, 0);
}
T fUn(Op op, T a, uint64_t c) {
  if (op == Op::FRound && !a->isc()) {
    if (a->op == Op::FRound) return a;
    if (a->op == Op::FExt) return fConv(Op::FExt, fUn(op, a->a[0], c), Ty::F64, 64);
    if (a->op == Op::SIToF || a->op == Op::UIToF) return a;
  }
  return mk(op, a->ty, a->w, c, 1, a, 0, 0);
}
T fUf(T a, T b, uint64_t fn) {
  if (!b) return mk(Op::FUf1, a->ty, a->w, fn, 1, a, 0, 0);
  if (fn == kHypot) {
    a = absCanon(a); b = absCanon(b);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(Op::FUf2, a->ty, a->w, fn, 2, a, b, 0);
}
T fNaN(T a) { return tNot(fCmp(Op::FEq, a, a)); }

T fCmp(Op op, T a, T b) {
  if (a->isc() && b->isc()) return mk(op, Ty::BV, 1, 0, 2, a, b, 0);
  if (a->isc() && std::isnan(asd(a->ty, a->c))) return fls();
  if (b->isc() && std::isnan(asd(b->ty, b->c))) return fls();
  if (a->op == Op::FNeg && (b->op == Op::FNeg || b->isc())) return fCmp(op, fNeg(b), a->a[0]);
  if (b->op == Op::FNeg && a->isc()) return fCmp(op, b->a[0], fNeg(a));
  if (a->op == Op::FExt && b->op == Op::FExt) return fCmp(op, a->a[0], b->a[0]);
  auto narrow = [&](T x, T k, bool kOnRight) -> T {
    // x: FExt(f32), k constant double
    double d = bd(k->c);
    float f = (float)d;
    T y = x->a[0];
    if ((double)f == d) return kOnRight ? fCmp(op, y, cf32(f)) : fCmp(op, cf32(f), y);
    if (op == Op::FEq) return fls();
    float dn = (double)f < d ? f : nextafterf(f, -INFINITY);
    float up = (double)f > d ? f : nextafterf(f, INFINITY);
    return kOnRight ? fCmp(Op::FLe, y, cf32(dn)) : fCmp(Op::FLe, cf32(up), y);
  };
  if (a->op == Op::FExt && b->isc()) return narrow(a, b, true);
  if (b->op == Op::FExt && a->isc()) return narrow(b, a, false);
  if (op == Op::FEq && (a->isc() || (!b->isc() && a->id > b->id))) std::swap(a, b);
  // sign of a difference: x - y < 0 <=> x < y holds exactly with gradual underflow
  // unless an operand is infinite/NaN on both sides; keep it simple and skip.
  // integer conversions compared with 0
  if (b->isc() && constLeafIte(a)) return tIte(a->a[0], fCmp(op, a->a[1], b), fCmp(op, a->a[2], b));
  if (a->isc() && constLeafIte(b)) return tIte(b->a[0], fCmp(op, a, b->a[1]), fCmp(op, a, b->a[2]));
  // clamps compared with constants: max(v,k) and min(v,k) as the compilers build
  // them, where a NaN v is kept
  for (int side = 0; side < 2; side++) {
    T t = side ? b : a, cc = side ? a : b;
    if (!cc->isc() || t->op != Op::Ite) continue;
    T g = t->a[0], k = t->a[1], v = t->a[2];
    double c = asd(cc->ty, cc->c);
    if (k->isc() && g->op == Op::FLt && !std::isnan(asd(k->ty, k->c))) {
      double kv = asd(k->ty, k->c);
      auto again = [&]() { return side ? fCmp(op, cc, v) : fCmp(op, v, cc); };
      auto sameK = [&](T q) { return q->isc() && asd(q->ty, q->c) == kv; };
      if (g->a[0] == v && sameK(g->a[1])) {  // max
        if (op == Op::FLt && side && c >= kv) return again();
        if (op == Op::FLt && !side) return kv < c ? again() : fls();
        if (op == Op::FLe && side && c > kv) return again();
        if (op == Op::FLe && !side) return kv <= c ? again() : fls();
        if (op == Op::FEq && c > kv) return again();
        if (op == Op::FEq && c < kv) return fls();
      } else if (g->a[1] == v && sameK(g->a[0])) {  // min
        if (op == Op::FLt && !side && c <= kv) return again();
        if (op == Op::FLt && side) return c < kv ? again() : fls();
        if (op == Op::FLe && !side && c < kv) return again();
        if (op == Op::FLe && side) return c <= kv ? again() : fls();
        if (op == Op::FEq && c < kv) return again();
        if (op == Op::FEq && c > kv) return fls();
      }
    }
    if (k->isc() || v->isc()) return side ? tIte(g, fCmp(op, cc, k), fCmp(op, cc, v)) : tIte(g, fCmp(op, k, cc), fCmp(op, v, cc));
  }
  const Iv &x = ivF(a), &y = ivF(b);
  bool nan = x.nan || y.nan;
  if (x.lo > x.hi || y.lo > y.hi) return fls();
  if (a == b) {
    if (op == Op::FLt) return fls();
    if (!nan) return tru();
    if (op == Op::FLe) return fCmp(Op::FEq, a, b);
  } else {
    switch (op) {
      case Op::FLt: if (x.lo >= y.hi) return fls(); if (!nan && x.hi < y.lo) return tru(); break;
      case Op::FLe: if (x.lo > y.hi) return fls(); if (!nan && x.hi <= y.lo) return tru(); break;
      case Op::FEq: if (x.lo > y.hi || y.lo > x.hi) return fls(); break;
      default: break;
    }
  }
  // canonical: without NaN, FLe(a,b) == !FLt(b,a)
  if (op == Op::FLe && !nan) return tNot(fCmp(Op::FLt, b, a));
  return mk(op, Ty::BV, 1, 0, 2, a, b, 0);
}
T fConv(Op op, T a, Ty ty, int w) {
  if (a->isc()) return mk(op, ty, w, 0, 1, a, 0, 0);
  switch (op) {
    case Op::FTrn:
      if (a->op == Op::FExt) return a->a[0];
      if (a->op == Op::FNeg) return fNeg(fConv(op, a->a[0], ty, w));
      if (a->op == Op::Ite) return tIte(a->a[0], fConv(op, a->a[1], ty, w), fConv(op, a->a[2], ty, w));
      if (a->op == Op::FAbs) return fAbs(fConv(op, a->a[0], ty, w));
      // double rounding is innocuous for one +,*,/ of f32 operands (53 >= 2*24+2)
      if ((a->op == Op::FAdd || a->op == Op::FMul || a->op == Op::FDiv)) {
        auto isE = [](T t) { return t->op == Op::FExt || (t->op == Op::FNeg && t->a[0]->op == Op::FExt) || (t->isc() && (double)(float)bd(t->c) == bd(t->c)); };
        auto un = [](T t) -> T { if (t->op == Op::FExt) return t->a[0]; if (t->isc()) return cf32((float)bd(t->c)); return fNeg(t->a[0]->a[0]); };
        if (isE(a->a[0]) && isE(a->a[1])) return fBin(a->op, un(a->a[0]), un(a->a[1]));
      }
      break;
    case Op::FExt:
      if (a->op == Op::FNeg) return fNeg(fConv(op, a->a[0], ty, w));
      if (a->op == Op::Ite) return tIte(a->a[0], fConv(op, a->a[1], ty, w), fConv(op, a->a[2], ty, w));
      if (a->op == Op::FAbs) return fAbs(fConv(op, a->a[0], ty, w));
      break;
    case Op::FToSI: case Op::FToUI:
      if (constLeafIte(a)) return tIte(a->a[0], fConv(op, a->a[1], ty, w), fConv(op, a->a[2], ty, w));
      if (op == Op::FToSI && a->op == Op::FExt) return fConv(op, a->a[0], ty, w);
      if (a->op == Op::FRound && a->c == 2) return fConv(op, a->a[0], ty, w);
      break;
    case Op::SIToF: case Op::UIToF:
      if (a->w == 1) return tIte(a, cfl(ty, op == Op::UIToF ? 1.0 : -1.0), cfl(ty, 0.0));
      if (constLeafIte(a)) return tIte(a->a[0], fConv(op, a->a[1], ty, w), fConv(op, a->a[2], ty, w));
      if (a->op == Op::ZExt) { if (a->a[0]->w < a->w) return fConv(Op::UIToF, a->a[0], ty, w); }
      if (a->op == Op::SExt && op == Op::SIToF) return fConv(op, a->a[0], ty, w);
      break;
    default: break;
  }
  return mk(op, ty, w, 0, 1, a, 0, 0);
}

// ---- ranges -----------------------------------------------------------------
IIv iivTop(int w) { return IIv{0, maskw(w), w >= 64 ? INT64_MIN : -(int64_t)(1ull << (w - 1)), (int64_t)(maskw(w) >> 1)}; }
static IIv fromU(uint64_t lo, uint64_t hi, int w) {
  IIv r = iivTop(w); r.ulo = lo; r.uhi = hi;
  uint64_t smax = maskw(w) >> 1;
  if (hi <= smax) { r.slo = (int64_t)lo; r.shi = (int64_t)hi; }
  else if (lo > smax) { r.slo = sxt(lo, w); r.shi = sxt(hi, w); }
  return r;
}
static IIv fromS(int64_t lo, int64_t hi, int w) {
  IIv r = iivTop(w); r.slo = lo; r.shi = hi;
  if (lo >= 0) { r.ulo = lo; r.uhi = hi; }
  else if (hi < 0) { r.ulo = (uint64_t)lo & maskw(w); r.uhi = (uint64_t)hi & maskw(w); }
  return r;
}
static double nextUp(Ty t, double d) { return t == Ty::F32 ? (double)nextafterf((float)d, INFINITY) : nextafter(d, INFINITY); }
static double nextDn(Ty t, double d) { return t == Ty::F32 ? (double)nextafterf((float)d, -INFINITY) : nextafter(d, -INFINITY); }

// Tighten the range of t, given that comparison c has truth value v.
void refineF(Iv &r, T t, T c, bool v, const std::function<Iv(T)> &f) {
  if (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) { refineF(r, t, c->a[0], !v, f); return; }
  if (c->op == Op::And && c->w == 1) { if (v) { refineF(r, t, c->a[0], v, f); refineF(r, t, c->a[1], v, f); } return; }
  if (c->op == Op::Or && c->w == 1) { if (!v) { refineF(r, t, c->a[0], v, f); refineF(r, t, c->a[1], v, f); } return; }
  if (c->op != Op::FLt && c->op != Op::FLe && c->op != Op::FEq) return;
  T l = c->a[0], h = c->a[1];
  auto hi = [&](double x) { if (x < r.hi) r.hi = x; };
  auto lo = [&](double x) { if (x > r.lo) r.lo = x; };
  if (l == t && h == t) {
    if (c->op == Op::FEq) { if (v) r.nan = false; else { r.lo = 1; r.hi = 0; } }
    return;
  }
  T ab = nullptr;
  if (l->op == Op::FAbs && l->a[0] == t) ab = l;
  if (l != t && h != t && !ab) {
    if (l->op == Op::FNeg && l->a[0] == t) { Iv q{-r.hi, -r.lo, r.nan}; refineF(q, l, c, v, f); r = Iv{-q.hi, -q.lo, q.nan}; }
    else if (h->op == Op::FNeg && h->a[0] == t) { Iv q{-r.hi, -r.lo, r.nan}; refineF(q, h, c, v, f); r = Iv{-q.hi, -q.lo, q.nan}; }
    return;
  }
  if (ab) {
    Iv o = f(h);
    if (v) { r.nan = false; if (o.lo <= o.hi) { double k = o.hi; if (c->op == Op::FLt) k = nextDn(t->ty, k); hi(k); lo(-k); } }
    return;
  }
  T other = l == t ? h : l;
  Iv o = f(other);
  if (o.lo > o.hi) return;
  Ty ty = t->ty;
  if (v) {
    r.nan = false;
    if (c->op == Op::FEq) { hi(o.hi); lo(o.lo); }
    else if (l == t) hi(c->op == Op::FLt ? nextDn(ty, o.hi) : o.hi);
    else lo(c->op == Op::FLt ? nextUp(ty, o.lo) : o.lo);
  } else {
    if (o.nan) return;
    if (c->op == Op::FLt) { if (l == t) lo(o.lo); else hi(o.hi); }
    else if (c->op == Op::FLe) { if (l == t) lo(nextUp(ty, o.lo)); else hi(nextDn(ty, o.hi)); }
    else if (c->op == Op::FEq && o.lo == o.hi) {
      if (r.lo == o.lo) r.lo = nextUp(ty, r.lo);
      if (r.hi == o.lo) r.hi = nextDn(ty, r.hi);
      if (o.lo == 0) { if (r.lo == 0) r.lo = nextUp(ty, 0.0); if (r.hi == 0) r.hi = nextDn(ty, 0.0); }
    }
  }
}
void refineI(IIv &r, T t, T c, bool v, const std::function<IIv(T)> &g) {
  if (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) { refineI(r, t, c->a[0], !v, g); return; }
  if (c->op == Op::And && c->w == 1) { if (v) { refineI(r, t, c->a[0], v, g); refineI(r, t, c->a[1], v, g); } return; }
  if (c->op == Op::Or && c->w == 1) { if (!v) { refineI(r, t, c->a[0], v, g); refineI(r, t, c->a[1], v, g); } return; }
  if (c->op != Op::Eq && c->op != Op::Ult && c->op != Op::Slt) return;
  T l = c->a[0], h = c->a[1];
  if (l != t && h != t) return;
  IIv o = g(l == t ? h : l);
  int w = t->w;
  if (c->op == Op::Eq) {
    if (v) { r.ulo = std::max(r.ulo, o.ulo); r.uhi = std::min(r.uhi, o.uhi); r.slo = std::max(r.slo, o.slo); r.shi = std::min(r.shi, o.shi); }
    else if (o.ulo == o.uhi) {
      if (r.ulo == o.ulo) r.ulo++;
      if (r.uhi == o.ulo && r.uhi) r.uhi--;
      int64_t s = sxt(o.ulo, w);
      if (r.slo == s) r.slo++;
      if (r.shi == s) r.shi--;
    }
  } else if (c->op == Op::Ult) {
    if (v) { if (l == t) r.uhi = std::min(r.uhi, o.uhi - (o.uhi ? 1 : 0)); else r.ulo = std::max(r.ulo, o.ulo + 1); }
    else { if (l == t) r.ulo = std::max(r.ulo, o.ulo); else r.uhi = std::min(r.uhi, o.uhi); }
  } else {
    if (v) { if (l == t) r.shi = std::min(r.shi, o.shi == INT64_MIN ? o.shi : o.shi - 1); else r.slo = std::max(r.slo, o.slo == INT64_MAX ? o.slo : o.slo + 1); }
    else { if (l == t) r.slo = std::max(r.slo, o.slo); else r.shi = std::min(r.shi, o.shi); }
  }
  if (r.slo >= 0 && r.shi >= r.slo) { r.ulo = std::max(r.ulo, (uint64_t)r.slo); r.uhi = std::min(r.uhi, (uint64_t)r.shi); }
  if (r.uhi <= (maskw(w) >> 1)) { r.slo = std::max<int64_t>(r.slo, (int64_t)r.ulo); r.shi = std::min<int64_t>(r.shi, (int64_t)r.uhi); }
}

typedef std::vector<std::pair<T, bool>> Env;
static Iv ivAs(T t, Env &env, const std::function<Iv(T)> &f, int depth) {
  if (t->op == Op::Ite && depth > 0) {
    for (auto &p : env) if (p.first == t->a[0]) return ivAs(p.second ? t->a[1] : t->a[2], env, f, depth);
    env.push_back({t->a[0], true});
    Iv x = ivAs(t->a[1], env, f, depth - 1);
    env.back().second = false;
    Iv y = ivAs(t->a[2], env, f, depth - 1);
    env.pop_back();
    Iv r = ivJoin(x, y);
    if (!env.empty()) {
      Iv q = f(t);
      r.lo = std::max(r.lo, q.lo); r.hi = std::min(r.hi, q.hi); r.nan = r.nan && q.nan;
      for (auto &p : env) refineF(r, t, p.first, p.second, f);
    }
    return r;
  }
  Iv r = f(t);
  for (auto &p : env) refineF(r, t, p.first, p.second, f);
  return r;
}
static IIv iivAs(T t, Env &env, const std::function<IIv(T)> &g, int depth) {
  if (t->op == Op::Ite && depth > 0) {
    for (auto &p : env) if (p.first == t->a[0]) return iivAs(p.second ? t->a[1] : t->a[2], env, g, depth);
    env.push_back({t->a[0], true});
    IIv x = iivAs(t->a[1], env, g, depth - 1);
    env.back().second = false;
    IIv y = iivAs(t->a[2], env, g, depth - 1);
    env.pop_back();
    if (x.ulo > x.uhi || x.slo > x.shi) return y;
    if (y.ulo > y.uhi || y.slo > y.shi) return x;
    return IIv{std::min(x.ulo, y.ulo), std::max(x.uhi, y.uhi), std::min(x.slo, y.slo), std::max(x.shi, y.shi)};
  }
  IIv r = g(t);
  for (auto &p : env) refineI(r, t, p.first, p.second, g);
  return r;
}

Iv opIv(T t, const std::function<Iv(T)> &f, const std::function<IIv(T)> &g) {
  Ty ty = t->ty;
  auto rnd = [&](double d) { return ty == Ty::F32 ? (double)(float)d : d; };
  (void)rnd;
  auto add = [&](double x, double y) { return ty == Ty::F32 ? (double)((float)x + (float)y) : x + y; };
  auto mul = [&](double x, double y) { return ty == Ty::F32 ? (double)((float)x * (float)y) : x * y; };
  auto div = [&](double x, double y) { return ty == Ty::F32 ? (double)((float)x / (float)y) : x / y; };
  auto empty = [](const Iv &i) { return i.lo > i.hi; };
  switch (t->op) {
    case Op::Const: { double d = asd(ty, t->c); if (std::isnan(d)) return Iv{1, 0, true}; return Iv{d, d, false}; }
    case Op::Var: { auto &v = gVars[t->c]; return Iv{v.flo, v.fhi, v.fnan}; }
    case Op::Ite: { Env e; return ivAs(t, e, f, 6); }
    case Op::FNeg: { Iv a = f(t->a[0]); if (empty(a)) return a; return Iv{-a.hi, -a.lo, a.nan}; }
    case Op::FAbs: { Iv a = f(t->a[0]); if (empty(a)) return a;
      double l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; return Iv{l, std::max(std::fabs(a.lo), std::fabs(a.hi)), a.nan}; }
    case Op::FAdd: {
      Iv a = f(t->a[0]), b = f(t->a[1]);
      if (empty(a) || empty(b)) return Iv{1, 0, true};
      bool nan = a.nan || b.nan || (a.hi == INFINITY && b.lo == -INFINITY) || (a.lo == -INFINITY && b.hi == INFINITY);
      double lo = add(a.lo, b.lo), hi = add(a.hi, b.hi);
      if (std::isnan(lo)) lo = -INFINITY;
      if (std::isnan(hi)) hi = INFINITY;
      return Iv{lo, hi, nan};
    }
    case Op::FMul: {
      Iv a = f(t->a[0]), b = f(t->a[1]);
      if (empty(a) || empty(b)) return Iv{1, 0, true};
      if (t->a[0] == t->a[1]) {
        double l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, h = std::max(std::fabs(a.lo), std::fabs(a.hi));
        return Iv{mul(l, l), mul(h, h), a.nan};
      }
      bool za = a.lo <= 0 && a.hi >= 0, zb = b.lo <= 0 && b.hi >= 0;
      bool ia = std::isinf(a.lo) || std::isinf(a.hi), ib = std::isinf(b.lo) || std::isinf(b.hi);
      bool nan = a.nan || b.nan || (za && ib) || (zb && ia);
      double c[4] = {mul(a.lo, b.lo), mul(a.lo, b.hi), mul(a.hi, b.lo), mul(a.hi, b.hi)};
      double lo = INFINITY, hi = -INFINITY;
      for (double x : c) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); }
      if ((za && ib) || (zb && ia)) { lo = std::min(lo, 0.0); hi = std::max(hi, 0.0); }
      return Iv{lo, hi, nan};
    }
    case Op::FDiv: {
      Iv a = f(t->a[0]), b = f(t->a[1]);
      if (empty(a) || empty(b)) return Iv{1, 0, true};
      if (b.lo <= 0 && b.hi >= 0) {
        bool nan = a.nan || b.nan || (a.lo <= 0 && a.hi >= 0) || ((std::isinf(a.lo) || std::isinf(a.hi)) && (std::isinf(b.lo) || std::isinf(b.hi)));
        return Iv{-INFINITY, INFINITY, nan};
      }
      bool nan = a.nan || b.nan || ((std::isinf(a.lo) || std::isinf(a.hi)) && (std::isinf(b.lo) || std::isinf(b.hi)));
      double c[4] = {div(a.lo, b.lo), div(a.lo, b.hi), div(a.hi, b.lo), div(a.hi, b.hi)};
      double lo = INFINITY, hi = -INFINITY;
      for (double x : c) { if (std::isnan(x)) return Iv{-INFINITY, INFINITY, true}; lo = std::min(lo, x); hi = std::max(hi, x); }
      return Iv{lo, hi, nan};
    }
    case Op::FSqrt: { Iv a = f(t->a[0]); if (empty(a)) return Iv{1, 0, true};
      bool nan = a.nan || a.lo < 0; if (a.hi < 0) return Iv{1, 0, true};
      auto sq = [&](double x) { return ty == Ty::F32 ? (double)sqrtf((float)x) : std::sqrt(x); };
      return Iv{sq(std::max(a.lo, 0.0)), sq(a.hi), nan}; }
    case Op::FRem: { Iv a = f(t->a[0]), b = f(t->a[1]); if (empty(a) || empty(b)) return Iv{1, 0, true};
      double m = std::max(std::fabs(b.lo), std::fabs(b.hi)), n = std::max(std::fabs(a.lo), std::fabs(a.hi));
      m = std::min(m, n);
      bool nan = a.nan || b.nan || std::isinf(n) || (b.lo <= 0 && b.hi >= 0);
      return Iv{a.lo >= 0 ? 0 : -m, a.hi <= 0 ? 0 : m, nan}; }
    case Op::FRound: { Iv a = f(t->a[0]); if (empty(a)) return a; return Iv{roundFn(t->c, a.lo), roundFn(t->c, a.hi), a.nan}; }
    case Op::FUf1: {
      Iv a = f(t->a[0]);
      switch (t->c) {
        case kAcos: { if (empty(a) || a.hi < -1 || a.lo > 1) return Iv{1, 0, true};
          return Iv{mathFn(kAcos, ty, std::min(a.hi, 1.0), 0), mathFn(kAcos, ty, std::max(a.lo, -1.0), 0), a.nan || a.lo < -1 || a.hi > 1}; }
        case kSin: case kCos: return Iv{-1, 1, true};
        case kAtan: case kAsin: return Iv{-1.5707964, 1.5707964, true};
        default: return ivTop();
      }
    }
    case Op::FUf2: {
      Iv a = f(t->a[0]), b = f(t->a[1]);
      if (t->c == kHypot) {
        if (empty(a) && empty(b)) return Iv{1, 0, true};
        auto mn = [](const Iv &i) { return i.lo > 0 ? i.lo : i.hi < 0 ? -i.hi : 0.0; };
        auto mx = [](const Iv &i) { return std::max(std::fabs(i.lo), std::fabs(i.hi)); };
        if (empty(a) || empty(b)) return Iv{0, INFINITY, true};
        return Iv{mathFn(kHypot, ty, mn(a), mn(b)), mathFn(kHypot, ty, mx(a), mx(b)), a.nan || b.nan};
      }
      if (t->c == kAtan2) return Iv{-3.1415928, 3.1415928, true};
      return ivTop();
    }
    case Op::FMinN: case Op::FMaxN: {
      Iv a = f(t->a[0]), b = f(t->a[1]);
      if (empty(a)) return b; if (empty(b)) return a;
      Iv r = t->op == Op::FMinN ? Iv{std::min(a.lo, b.lo), std::min(a.hi, b.hi), a.nan && b.nan}
                                : Iv{std::max(a.lo, b.lo), std::max(a.hi, b.hi), a.nan && b.nan};
      if (a.nan) { r.lo = std::min(r.lo, b.lo); r.hi = std::max(r.hi, b.hi); }
      if (b.nan) { r.lo = std::min(r.lo, a.lo); r.hi = std::max(r.hi, a.hi); }
      return r;
    }
    case Op::FExt: return f(t->a[0]);
    case Op::FTrn: { Iv a = f(t->a[0]); if (empty(a)) return a; return Iv{(double)(float)a.lo, (double)(float)a.hi, a.nan}; }
    case Op::SIToF: { IIv i = g(t->a[0]); return ty == Ty::F32 ? Iv{(double)(float)i.slo, (double)(float)i.shi, false} : Iv{(double)i.slo, (double)i.shi, false}; }
    case Op::UIToF: { IIv i = g(t->a[0]); return ty == Ty::F32 ? Iv{(double)(float)i.ulo, (double)(float)i.uhi, false} : Iv{(double)i.ulo, (double)i.uhi, false}; }
    default: return ivTop();
  }
}
IIv opIIv(T t, const std::function<Iv(T)> &f, const std::function<IIv(T)> &g) {
  int w = t->w;
  IIv top = iivTop(w);
  switch (t->op) {
    case Op::Const: return fromU(t->c, t->c, w);
    case Op::Var: { auto &v = gVars[t->c]; return fromS(v.ilo, v.ihi, w); }
    case Op::Ite: { Env e; return iivAs(t, e, g, 6); }
    case Op::Add: {
      IIv a = g(t->a[0]), b = g(t->a[1]);
      IIv r = top;
      __int128 lo = (__int128)a.slo + b.slo, hi = (__int128)a.shi + b.shi;
      if (lo >= top.slo && hi <= top.shi) r = fromS((int64_t)lo, (int64_t)hi, w);
      unsigned __int128 ul = (unsigned __int128)a.ulo + b.ulo, uh = (unsigned __int128)a.uhi + b.uhi;
      if (uh <= maskw(w)) { IIv q = fromU((uint64_t)ul, (uint64_t)uh, w); r.ulo = std::max(r.ulo, q.ulo); r.uhi = std::min(r.uhi, q.uhi); }
      return r;
    }
    case Op::Mul: {
      IIv a = g(t->a[0]), b = g(t->a[1]);
      IIv r = top;
      __int128 c[4] = {(__int128)a.slo * b.slo, (__int128)a.slo * b.shi, (__int128)a.shi * b.slo, (__int128)a.shi * b.shi};
      __int128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
      if (lo >= top.slo && hi <= top.shi) r = fromS((int64_t)lo, (int64_t)hi, w);
      unsigned __int128 uh = (unsigned __int128)a.uhi * b.uhi;
      if (uh <= maskw(w)) { r.ulo = std::max(r.ulo, a.ulo * b.ulo); r.uhi = std::min(r.uhi, (uint64_t)uh); }
      return r;
    }
    case Op::UDiv: { IIv a = g(t->a[0]), b = g(t->a[1]); if (b.ulo == 0) return top; return fromU(a.ulo / b.uhi, a.uhi / b.ulo, w); }
    case Op::SDiv: { IIv a = g(t->a[0]), b = g(t->a[1]); if (b.slo > 0 && a.slo >= 0) return fromS(a.slo / b.shi, a.shi / b.slo, w); return top; }
    case Op::URem: { IIv b = g(t->a[1]); if (b.ulo == 0) return top; return fromU(0, b.uhi - 1, w); }
    case Op::And: { IIv a = g(t->a[0]), b = g(t->a[1]); return fromU(0, std::min(a.uhi, b.uhi), w); }
    case Op::ZExt: { IIv a = g(t->a[0]); return fromU(a.ulo, a.uhi, w); }
    case Op::SExt: { IIv a = g(t->a[0]); return fromS(a.slo, a.shi, w); }
    case Op::Extract: { IIv a = g(t->a[0]); if (t->c == 0 && a.uhi <= maskw(w)) return fromU(a.ulo, a.uhi, w);
      if (t->c == 0 && a.slo >= top.slo && a.shi <= top.shi) return fromS(a.slo, a.shi, w);
      if (t->c) { return fromU(0, std::min(maskw(w), a.uhi >> t->c), w); }
      return top; }
    case Op::FToSI: { Iv a = f(t->a[0]); double lim = std::ldexp(1.0, w - 1);
      if (!a.nan && a.lo <= a.hi && a.lo > -lim && a.hi < lim) return fromS((int64_t)a.lo, (int64_t)a.hi, w); return top; }
    case Op::FToUI: { Iv a = f(t->a[0]); if (!a.nan && a.lo <= a.hi && a.lo > -1 && a.hi < std::ldexp(1.0, w)) return fromU(a.lo < 0 ? 0 : (uint64_t)a.lo, (uint64_t)a.hi, w); return top; }
    default: return top;
  }
}
const Iv &ivF(T t) {
  if (!t->hasiv) {
    t->iv = opIv(t, [](T x) { return ivF(x); }, [](T x) { return ivI(x); });
    t->hasiv = true;
  }
  return t->iv;
}
const IIv &ivI(T t) {
  if (!t->hasiv) {
    t->iiv = opIIv(t, [](T x) { return ivF(x); }, [](T x) { return ivI(x); });
    t->hasiv = true;
  }
  return t->iiv;
}

const uint64_t *poolOf(T t) {
  if (t->pool) return t->pool;
  const uint64_t *k[3] = {0, 0, 0};
  for (int i = 0; i < t->n; i++) k[i] = poolOf(t->a[i]);
  uint64_t *r = new uint64_t[kPool];
  if (t->op == Op::Var) { auto &s = gVars[t->c].samples; for (int i = 0; i < kPool; i++) r[i] = s[i]; }
  else if (t->op == Op::Const) { for (int i = 0; i < kPool; i++) r[i] = t->c; }
  else for (int i = 0; i < kPool; i++) {
    uint64_t v[3] = {k[0] ? k[0][i] : 0, k[1] ? k[1][i] : 0, k[2] ? k[2][i] : 0};
    r[i] = evalOp(t->op, t->ty, t->w, t->c, t->a, v);
  }
  t->pool = r;
  return r;
}
uint64_t Assign::eval(T t) {
  if (t->op == Op::Const) return t->c;
  if (t->op == Op::Var) return t->c < v.size() ? v[t->c] : gVars[t->c].samples[slot];
  auto it = memo.find(t->id);
  if (it != memo.end()) return it->second;
  uint64_t k[3] = {0, 0, 0};
  if (t->op == Op::Ite) { k[0] = eval(t->a[0]); if (k[0]) k[1] = eval(t->a[1]); else k[2] = eval(t->a[2]); }
  else for (int i = 0; i < t->n; i++) k[i] = eval(t->a[i]);
  uint64_t r = evalOp(t->op, t->ty, t->w, t->c, t->a, k);
  memo[t->id] = r;
  return r;
}

static const char *opn[] = {"const","var","+","*","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","=","ult","ule","slt","sle","ite","f+","f*","f/","fneg","fabs","fsqrt","frem","fround","uf1","uf2","fmin","fmax","f<","f<=","f==","fext","ftrn","ftosi","ftoui","sitof","uitof","bits2f","f2bits"};
std::string show(T t, int d) {
  std::ostringstream s;
  if (t->isc()) { if (t->isF()) { s.precision(9); s << asd(t->ty, t->c); if (t->ty == Ty::F32) s << "f"; } else s << sxt(t->c, t->w) << ":" << (int)t->w; return s.str(); }
  if (t->op == Op::Var) return gVars[t->c].name;
  if (d == 0) { s << "#" << t->id; return s.str(); }
  s << "(" << opn[(int)t->op];
  if (t->op == Op::Extract || t->op == Op::FUf2 || t->op == Op::FUf1 || t->op == Op::FRound) s << "." << t->c;
  for (int i = 0; i < t->n; i++) s << " " << show(t->a[i], d - 1);
  s << ")";
  return s.str();
}

T rebuild(T t, T a, T b, T d) {
  switch (t->op) {
    case Op::Const: case Op::Var: return t;
    case Op::Add: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem:
    case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr:
      return tBin(t->op, a, b);
    case Op::Concat: return tConcat(a, b);
    case Op::Extract: return tExtract(a, (int)t->c, t->w);
    case Op::ZExt: case Op::SExt: return tExt(t->op, a, t->w);
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: return tCmp(t->op, a, b);
    case Op::Ite: return tIte(a, b, d);
    case Op::FAdd: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FMinN: case Op::FMaxN: return fBin(t->op, a, b);
    case Op::FNeg: return fNeg(a);
    case Op::FAbs: return fAbs(a);
    case Op::FSqrt: case Op::FRound: return fUn(t->op, a, t->c);
    case Op::FUf1: return fUf(a, nullptr, t->c);
    case Op::FUf2: return fUf(a, b, t->c);
    case Op::FLt: case Op::FLe: case Op::FEq: return fCmp(t->op, a, b);
    case Op::FExt: case Op::FTrn: case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: return fConv(t->op, a, t->ty, t->w);
    case Op::BitsToF: return fromBits(a, t->ty);
    case Op::FToBits: return toBits(a);
  }
  return t;
}
