// Path knowledge: literals, derived facts, context-sensitive ranges, samples.
#pragma once
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <memory>
#include "term.hpp"

struct Know {
  std::vector<std::pair<T, bool>> pc;          // asserted literals
  llvm::DenseMap<T, char> known;               // literal -> value (with derived facts)
  llvm::DenseMap<T, llvm::SmallVector<int, 2>> about;  // operand -> indices into lits
  std::vector<std::pair<T, bool>> lits;        // pc + derived, for refinement
  Mask alive = Mask::all();
  std::vector<std::shared_ptr<Assign>> extra;  // further concrete witnesses
  bool dead = false;                           // the literals contradict each other
  llvm::DenseMap<T, llvm::SmallVector<T, 2>> parents;  // boolean structure of known literals
  mutable llvm::DenseMap<T, Iv> miv;
  mutable llvm::DenseMap<T, IIv> miiv;
  mutable llvm::DenseMap<T, char> mbool;
  mutable llvm::DenseMap<T, T> mrw;
  // comparisons known on this path, with their operands rewritten by what is
  // known by now: the same fact may have been built earlier from larger terms
  mutable llvm::DenseMap<T, char> canon;
  mutable bool canonOn = false, affOn = false;

  bool hasWitness() const { return alive.any() || !extra.empty(); }
  void invalidate() { miv.clear(); miiv.clear(); mbool.clear(); mrw.clear(); canon.clear(); canonOn = false; maff.clear(); }


  Iv iv(T t) const {
    if (t->isc()) return ivF(t);
    auto it = miv.find(t);
    if (it != miv.end()) return it->second;
    auto f = [this](T x) { return iv(x); };
    auto g = [this](T x) { return iiv(x); };
    miv[t] = ivF(t);  // guard against re-entrancy through relational facts
    Iv r = opIv(t, f, g);
    const Iv &b = ivF(t);
    r.lo = std::max(r.lo, b.lo); r.hi = std::min(r.hi, b.hi); r.nan = r.nan && b.nan;
    if (t->op == Op::Ite) {
      int c = decide(t->a[0]);
      if (c == 1) r = iv(t->a[1]);
      else if (c == 0) r = iv(t->a[2]);
    }
    if (t->op == Op::FAdd) {
      // a - b with a known order between a and b
      T a = t->a[0], b2 = t->a[1];
      T nb = fNeg(b2);
      Iv ia = iv(a), ib = iv(nb);
      bool fin = !std::isinf(ia.lo) && !std::isinf(ia.hi) && !std::isinf(ib.lo) && !std::isinf(ib.hi);
      if (fin) {
        int lt = lookCmp(Op::FLt, nb, a), gt = lookCmp(Op::FLt, a, nb);
        int le = lookCmp(Op::FLe, nb, a), ge = lookCmp(Op::FLe, a, nb);
        double tiny = t->ty == Ty::F32 ? 1.401298464324817e-45 : 4.9406564584124654e-324;
        if (lt == 1) r.lo = std::max(r.lo, tiny);
        else if (le == 1 || (gt == 0 && !ia.nan && !ib.nan)) r.lo = std::max(r.lo, 0.0);
        if (gt == 1) r.hi = std::min(r.hi, -tiny);
        else if (ge == 1 || (lt == 0 && !ia.nan && !ib.nan)) r.hi = std::min(r.hi, 0.0);
      }
    }
    if (t->op == Op::FAdd) convex(t, r);
    if (t->op == Op::FDiv && t->a[1]->op == Op::FUf2 && t->a[1]->c == kHypot) {
      // x / hypot(x, y): a component of a unit vector
      auto base = [](T x) { while (x->op == Op::FNeg || x->op == Op::FAbs) x = x->a[0]; return x; };
      T x = base(t->a[0]), h = t->a[1];
      if (base(h->a[0]) == x || base(h->a[1]) == x) {
        double m = t->ty == Ty::F32 ? 1.000001 : 1.000000000000001;
        r.lo = std::max(r.lo, -m); r.hi = std::min(r.hi, m);
        Iv ih = iv(h);
        if (ih.lo > 0 && !ih.nan && !std::isinf(ih.hi)) r.nan = false;
      }
    }
    auto ab = about.find(t);
    if (ab != about.end())
      for (int i : ab->second) refineF(r, t, lits[i].first, lits[i].second, f);
    miv[t] = r;
    return r;
  }
  IIv iiv(T t) const {
    if (t->isc()) return ivI(t);
    auto it = miiv.find(t);
    if (it != miiv.end()) return it->second;
    auto f = [this](T x) { return iv(x); };
    auto g = [this](T x) { return iiv(x); };
    miiv[t] = ivI(t);
    IIv r = opIIv(t, f, g);
    const IIv &b = ivI(t);
    r.ulo = std::max(r.ulo, b.ulo); r.uhi = std::min(r.uhi, b.uhi);
    r.slo = std::max(r.slo, b.slo); r.shi = std::min(r.shi, b.shi);
    if (t->op == Op::Ite) {
      int c = decide(t->a[0]);
      if (c == 1) r = iiv(t->a[1]);
      else if (c == 0) r = iiv(t->a[2]);
    }
    auto ab = about.find(t);
    if (ab != about.end())
      for (int i : ab->second) refineI(r, t, lits[i].first, lits[i].second, g);
    miiv[t] = r;
    return r;
  }
  // a + t * (b - a) with t in [0, 1]: between a and b up to rounding
  void convex(T t, Iv &r) const {
    for (int p = 0; p < 2; p++) {
      T a = t->a[p], m = t->a[1 - p];
      bool neg = m->op == Op::FNeg;
      if (neg) m = m->a[0];
      if (m->op != Op::FMul) continue;
      for (int q = 0; q < 4; q++) {
        // m = w * d, written with either sign
        T w = m->a[q & 1], d = m->a[1 - (q & 1)];
        if (q & 2) w = fNeg(w);
        if (neg != ((q & 2) != 0)) d = fNeg(d);
        if (d->op != Op::FAdd) continue;
        T na = fNeg(a);
        T b = d->a[0] == na ? d->a[1] : d->a[1] == na ? d->a[0] : nullptr;
        if (!b) continue;
        Iv iw = iv(w), ia = iv(a), ib = iv(b);
        if (!(iw.lo >= 0 && iw.hi <= 1) || ia.lo > ia.hi || ib.lo > ib.hi) continue;
        double lo = std::min(ia.lo, ib.lo), hi = std::max(ia.hi, ib.hi);
        double mag = std::max(std::fabs(lo), std::fabs(hi));
        if (!(mag < (t->ty == Ty::F32 ? 1e37 : 1e306))) continue;
        double e = (t->ty == Ty::F32 ? 1.2e-7 : 2.3e-16) * 8 * mag + (t->ty == Ty::F32 ? 1e-44 : 1e-322);
        r.lo = std::max(r.lo, lo - e); r.hi = std::min(r.hi, hi + e);
        if (t->ty == Ty::F32) { r.lo = (double)nextafterf((float)r.lo, -INFINITY); r.hi = (double)nextafterf((float)r.hi, INFINITY); }
        // rounding is monotone: fl(b - a) >= -a for b >= 0, so a + w * fl(b - a) >= 0
        if (lo >= 0) r.lo = std::max(r.lo, 0.0);
        if (hi <= 0) r.hi = std::min(r.hi, 0.0);
        return;
      }
    }
  }
  int lookCmp(Op op, T a, T b) const {
    T c = fCmp(op, a, b);
    if (isT(c)) return 1;
    if (isFa(c)) return 0;
    bool neg = false;
    if (c->op == Op::Xor) { neg = true; c = c->a[0]; }
    auto it = known.find(c);
    if (it == known.end()) return -1;
    return (it->second != 0) != neg;
  }
  // 1 true, 0 false, -1 unknown
  int decide(T c) const {
    if (c->isc()) return c->c != 0;
    auto k = known.find(c);
    if (k != known.end()) return k->second;
    if (canonOn) { auto q = canon.find(c); if (q != canon.end()) return q->second; }
    auto it = mbool.find(c);
    if (it != mbool.end()) return it->second;
    mbool[c] = (char)-1;
    int r = -1;
    switch (c->op) {
      case Op::Xor: if (c->w == 1) {
        int a = decide(c->a[0]), b = decide(c->a[1]);
        if (a >= 0 && b >= 0) r = a ^ b;
      } break;
      case Op::And: if (c->w == 1) {
        int a = decide(c->a[0]);
        if (a == 0) { r = 0; break; }
        int b = decide(c->a[1]);
        if (b == 0) r = 0; else if (a == 1 && b == 1) r = 1;
      } break;
      case Op::Or: if (c->w == 1) {
        int a = decide(c->a[0]);
        if (a == 1) { r = 1; break; }
        int b = decide(c->a[1]);
        if (b == 1) r = 1; else if (a == 0 && b == 0) r = 0;
      } break;
      case Op::Ite: if (c->w == 1) {
        int a = decide(c->a[0]);
        if (a == 1) r = decide(c->a[1]);
        else if (a == 0) r = decide(c->a[2]);
        else { int x = decide(c->a[1]), y = decide(c->a[2]); if (x >= 0 && x == y) r = x; }
      } break;
      case Op::FLt: case Op::FLe: case Op::FEq: {
        Iv x = iv(c->a[0]), y = iv(c->a[1]);
        bool nan = x.nan || y.nan;
        if (x.lo > x.hi || y.lo > y.hi) { r = 0; break; }
        if (c->a[0] == c->a[1]) { if (!nan) r = c->op != Op::FLt; break; }
        if (c->op == Op::FLt) { if (x.lo >= y.hi) r = 0; else if (!nan && x.hi < y.lo) r = 1; }
        else if (c->op == Op::FLe) { if (x.lo > y.hi) r = 0; else if (!nan && x.hi <= y.lo) r = 1; }
        else { if (x.lo > y.hi || y.lo > x.hi) r = 0; else if (!nan && x.lo == x.hi && y.lo == y.hi && x.lo == y.lo) r = 1; }
        if (r < 0) {
          T a = c->a[0], b = c->a[1];
          if (c->op == Op::FLe && !nan) { int q = lookCmp(Op::FLt, b, a); if (q >= 0) r = !q; }
          else if (c->op == Op::FLt && !nan) { int q = lookCmp(Op::FLe, b, a); if (q >= 0) r = !q; }
          if (r < 0) { T c2 = rwKids(c); if (c2 != c) r = decide(c2); }
          if (r < 0 && affOn) r = cmpAff(c->op, a, b);
        }
        break;
      }
      case Op::Eq: case Op::Ult: case Op::Slt: {
        IIv x = iiv(c->a[0]), y = iiv(c->a[1]);
        if (c->op == Op::Eq) {
          if (x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo) r = 0;
          else if (x.ulo == x.uhi && y.ulo == y.uhi && x.ulo == y.ulo) r = 1;
        } else if (c->op == Op::Ult) { if (x.uhi < y.ulo) r = 1; else if (x.ulo >= y.uhi) r = 0; }
        else { if (x.shi < y.slo) r = 1; else if (x.slo >= y.shi) r = 0; }
        if (r < 0) { T c2 = rwKids(c); if (c2 != c) r = decide(c2); }
        break;
      }
      default: break;
    }
    mbool[c] = (char)r;
    return r;
  }
  static bool isCmp(T c) {
    switch (c->op) { case Op::FLt: case Op::FLe: case Op::FEq: case Op::Eq: case Op::Ult: case Op::Slt: return true; default: return false; }
  }
  // decide again with the canonical forms of all known comparisons at hand
  int decideHard(T c) const {
    int d = decide(c);
    if (d >= 0) return d;
    if (!canonOn) {
      for (size_t i = 0; i < lits.size(); i++) {
        if (!isCmp(lits[i].first)) continue;
        T r = rwKids(lits[i].first);
        bool v = lits[i].second;
        while (r->op == Op::Xor && r->w == 1 && isT(r->a[1])) { r = r->a[0]; v = !v; }
        if (r != lits[i].first && isCmp(r)) canon[r] = v;
      }
      canonOn = true;
    }
    if (!canon.empty()) {
      mbool.clear();
      d = decide(c);
      if (d >= 0) return d;
    }
    mbool.clear();
    affOn = true;
    d = decide(c);
    affOn = false;
    mbool.clear();
    return d;
  }
  // ---- linear forms with an error interval ---------------------------------
  // value = c + sum(k_i * symbol_i) + e, e in [elo, ehi], as a real number
  struct Aff { long double c = 0, elo = 0, ehi = 0; llvm::SmallVector<std::pair<T, long double>, 4> k; };
  mutable std::unordered_map<T, Aff> maff;
  static constexpr long double kSlop = 1e-18L;
  bool finite(T t, Iv &i) const { i = iv(t); return !i.nan && i.lo <= i.hi && !std::isinf(i.lo) && !std::isinf(i.hi); }
  static void addTo(Aff &r, const Aff &x, long double f) {
    r.c += f * x.c;
    r.elo += f >= 0 ? f * x.elo : f * x.ehi;
    r.ehi += f >= 0 ? f * x.ehi : f * x.elo;
    long double m = std::fabs(r.c) * kSlop;
    for (auto &[t, k] : x.k) {
      bool hit = false;
      for (auto &[u, q] : r.k) if (u == t) { q += f * k; hit = true; }
      if (!hit) r.k.push_back({t, f * k});
    }
    r.elo -= m; r.ehi += m;
  }
  void rangeOf(const Aff &x, long double &lo, long double &hi) const {
    lo = x.c + x.elo; hi = x.c + x.ehi;
    long double mag = std::fabs(x.c);
    for (auto &[t, k] : x.k) {
      Iv i = iv(t);
      long double a = k * i.lo, b = k * i.hi;
      lo += std::min(a, b); hi += std::max(a, b);
      mag += std::max(std::fabs(a), std::fabs(b));
    }
    lo -= mag * kSlop * 8; hi += mag * kSlop * 8;
  }
  Aff leaf(T t) const { Aff r; r.k.push_back({t, 1}); return r; }
  static void rnd(Aff &r, Ty ty, const Iv &i) {
    long double e = (ty == Ty::F32 ? 0x1p-24L : 0x1p-53L) * (1 + 1e-9L) * std::max(std::fabs(i.lo), std::fabs(i.hi)) + (ty == Ty::F32 ? 1e-45L : 5e-324L);
    r.elo -= e; r.ehi += e;
  }
  bool aff(T t, Aff &r) const {
    auto it = maff.find(t);
    if (it != maff.end()) { r = it->second; return true; }
    Iv i;
    if (!finite(t, i)) return false;
    r = Aff();
    if (t->isc()) r.c = asd(t->ty, t->c);
    else {
      Aff x, y;
      bool done = false;
      switch (t->op) {
        case Op::FNeg: if (aff(t->a[0], x)) { addTo(r, x, -1); done = true; } break;
        case Op::FExt: if (aff(t->a[0], x)) { r = x; done = true; } break;
        case Op::FTrn: if (aff(t->a[0], x)) { r = x; rnd(r, Ty::F32, i); done = true; } break;
        case Op::FAdd: if (aff(t->a[0], x) && aff(t->a[1], y)) { addTo(r, x, 1); addTo(r, y, 1); rnd(r, t->ty, i); done = true; } break;
        case Op::FMul: {
          T a = t->a[0], b = t->a[1];
          if (b->isc()) std::swap(a, b);
          if (a->isc()) { if (aff(b, x)) { addTo(r, x, asd(a->ty, a->c)); rnd(r, t->ty, i); done = true; } }
          else if (aff(a, x) && aff(b, y)) {
            Iv p = iv(a), q = iv(b);
            long double mx = ((long double)p.lo + p.hi) / 2, my = ((long double)q.lo + q.hi) / 2;
            long double e = ((long double)p.hi - p.lo) / 2 * (((long double)q.hi - q.lo) / 2) * (1 + 1e-15L);
            addTo(r, y, mx); addTo(r, x, my); r.c -= mx * my;
            e += std::fabs(mx * my) * kSlop * 4;
            r.elo -= e; r.ehi += e;
            rnd(r, t->ty, i); done = true;
          }
          break;
        }
        case Op::FDiv:
          if (t->a[1]->isc() && aff(t->a[0], x)) {
            long double f = 1 / (long double)asd(t->a[1]->ty, t->a[1]->c);
            Iv p = iv(t->a[0]);
            addTo(r, x, f);
            long double e = std::max(std::fabs(p.lo), std::fabs(p.hi)) * std::fabs(f) * kSlop * 4;
            r.elo -= e; r.ehi += e;
            rnd(r, t->ty, i); done = true;
          }
          break;
        case Op::FRound:
          if (aff(t->a[0], x)) {
            r = x; done = true;
            if (t->c == 0) r.ehi += 1; else if (t->c == 1) r.elo -= 1; else { r.elo -= 1; r.ehi += 1; }
          }
          break;
        case Op::SIToF: case Op::UIToF: {
          T z = t->a[0];
          if (z->op != Op::FToSI && z->op != Op::FToUI) break;
          z = z->a[0];
          Iv p;
          if (!finite(z, p) || p.lo < (t->op == Op::UIToF ? 0 : -2147483648.) || p.hi > 2147483647. || !aff(z, x)) break;
          r = x; done = true;
          if (z->op != Op::FRound) { if (p.hi > 0) r.elo -= 1; if (p.lo < 0) r.ehi += 1; }
          if (t->ty == Ty::F32) rnd(r, Ty::F32, i);
          break;
        }
        case Op::Ite: {
          int d = decide(t->a[0]);
          if (d == 1) done = aff(t->a[1], r); else if (d == 0) done = aff(t->a[2], r);
          break;
        }
        default: break;
      }
      if (!done || r.k.size() > 16) r = leaf(t);
    }
    maff[t] = r;
    return true;
  }
  int cmpAff(Op op, T a, T b) const {
    Aff x, y, d;
    if (!aff(a, x) || !aff(b, y)) return -1;
    addTo(d, y, 1); addTo(d, x, -1);
    long double lo, hi;
    rangeOf(d, lo, hi);
    if (op == Op::FLt) { if (lo > 0) return 1; if (hi < 0) return 0; }
    else if (op == Op::FLe) { if (lo > 0) return 1; if (hi < 0) return 0; }
    else if (lo > 0 || hi < 0) return 0;
    return -1;
  }
  T rwKids(T t) const {
    T k[3] = {0, 0, 0};
    bool ch = false;
    for (int i = 0; i < t->n; i++) { k[i] = rw(t->a[i]); ch |= k[i] != t->a[i]; }
    return ch ? rebuild(t, k[0], k[1], k[2]) : t;
  }
  // rewrite under what is known on this path
  T rw(T t) const {
    if (t->n == 0) return sub1(t);
    auto it = mrw.find(t);
    if (it != mrw.end()) return it->second;
    mrw[t] = t;
    T r = t;
    if (t->ty == Ty::BV && t->w == 1) {
      int d = decide(t);
      if (d >= 0) r = cbv(d, 1);
    }
    if (r == t && t->op == Op::Ite) {
      int d = decide(t->a[0]);
      if (d == 1) r = rw(t->a[1]);
      else if (d == 0) r = rw(t->a[2]);
      else {
        r = rwKids(t);
        if (r != t && r->op == Op::Ite) {
          // the rewritten condition may be one that is known
          d = decide(r->a[0]);
          if (d == 1) r = rw(r->a[1]);
          else if (d == 0) r = rw(r->a[2]);
        }
      }
    } else if (r == t) {
      r = rwKids(t);
      r = sub1(r);
      if (r != t && r->ty == Ty::BV && r->w == 1 && !r->isc()) { int d = decide(r); if (d >= 0) r = cbv(d, 1); }
    }
    mrw[t] = r;
    return r;
  }
  T sub1(T t) const {
    if (t->isc() ) return t;
    if (t->ty == Ty::BV) { IIv i = iiv(t); if (i.ulo == i.uhi) return cbv(i.ulo, t->w); if (i.slo == i.shi) return cbv((uint64_t)i.slo, t->w); }
    else { Iv i = iv(t); if (!i.nan && i.lo == i.hi && (i.lo != 0)) return cfl(t->ty, i.lo); }
    return t;
  }

  static T strip(T c) { while (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) c = c->a[0]; return c; }
  int val(T c) const {  // what the literals say directly
    bool neg = false;
    while (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) { c = c->a[0]; neg = !neg; }
    if (c->isc()) return (c->c != 0) != neg;
    auto it = known.find(c);
    if (it == known.end()) return -1;
    return (it->second != 0) != neg;
  }
  // consequences of a known And/Or/Ite/Xor given what is known of its children
  void propagate(T c, bool v) {
    if (c->op == Op::And || c->op == Op::Or) {
      bool isAnd = c->op == Op::And;
      if (v == isAnd) return;  // children were noted already
      // And false / Or true: at least one child must have value v
      int a = val(c->a[0]), b = val(c->a[1]);
      if (a == (int)isAnd && b == (int)isAnd) dead = true;
      else if (a == (int)isAnd) note(c->a[1], v);
      else if (b == (int)isAnd) note(c->a[0], v);
    } else if (c->op == Op::Ite) {
      int k = val(c->a[0]), x = val(c->a[1]), y = val(c->a[2]);
      if (k == 1) note(c->a[1], v);
      else if (k == 0) note(c->a[2], v);
      else {
        if (x >= 0 && x != (int)v) note(c->a[0], false);
        if (y >= 0 && y != (int)v) note(c->a[0], true);
      }
    } else if (c->op == Op::Xor) {
      int a = val(c->a[0]), b = val(c->a[1]);
      if (a >= 0) note(c->a[1], v != (a == 1));
      else if (b >= 0) note(c->a[0], v != (b == 1));
    }
  }
  void note(T c, bool v) {  // record fact, derive consequences
    if (dead) return;
    if (c->isc()) { if ((c->c != 0) != v) dead = true; return; }
    if (c->op == Op::Xor && c->w == 1 && isT(c->a[1])) return note(c->a[0], !v);
    auto ins = known.insert({c, (char)v});
    if (!ins.second) { if ((ins.first->second != 0) != v) dead = true; return; }
    note1(c, v);
    if (c->w == 1 && (c->op == Op::And || c->op == Op::Or || c->op == Op::Ite || c->op == Op::Xor))
      for (int i = 0; i < c->n; i++) if (!c->a[i]->isc()) parents[strip(c->a[i])].push_back(c);
    if (c->op == Op::Ite || c->op == Op::Xor) propagate(c, v);
    auto pp = parents.find(c);
    if (pp != parents.end()) {
      llvm::SmallVector<T, 4> ps(pp->second.begin(), pp->second.end());
      for (T q : ps) { auto k = known.find(q); if (k != known.end()) propagate(q, k->second != 0); }
    }
  }
  void note1(T c, bool v) {
    int idx = (int)lits.size();
    lits.push_back({c, v});
    switch (c->op) {
      case Op::And: if (v) { note(c->a[0], true); note(c->a[1], true); }
        else { int a = decide(c->a[0]); if (a == 1) note(c->a[1], false); else { int b = decide(c->a[1]); if (b == 1) note(c->a[0], false); } }
        break;
      case Op::Or: if (!v) { note(c->a[0], false); note(c->a[1], false); }
        else { int a = decide(c->a[0]); if (a == 0) note(c->a[1], true); else { int b = decide(c->a[1]); if (b == 0) note(c->a[0], true); } }
        break;
      case Op::FLt: case Op::FLe: case Op::FEq: {
        T a = c->a[0], b = c->a[1];
        auto idxAdd = [&](T x) {
          about[x].push_back(idx);
          if (x->op == Op::FNeg || x->op == Op::FAbs) about[x->a[0]].push_back(idx);
        };
        idxAdd(a);
        if (a != b) idxAdd(b);
        miv.clear(); mbool.clear();
        if (a == b) break;
        if (v) {
          note(fCmp(Op::FEq, a, a), true); note(fCmp(Op::FEq, b, b), true);
          if (c->op == Op::FLt) { note(fCmp(Op::FLe, a, b), true); note(fCmp(Op::FLt, b, a), false); note(fCmp(Op::FLe, b, a), false); note(fCmp(Op::FEq, a, b), false); }
          else if (c->op == Op::FLe) { note(fCmp(Op::FLt, b, a), false); }
          else { note(fCmp(Op::FLe, a, b), true); note(fCmp(Op::FLe, b, a), true); note(fCmp(Op::FLt, a, b), false); note(fCmp(Op::FLt, b, a), false); }
        } else {
          bool nan = iv(a).nan || iv(b).nan;
          if (c->op == Op::FLe) { note(fCmp(Op::FLt, a, b), false); note(fCmp(Op::FEq, a, b), false); if (!nan) { note(fCmp(Op::FLt, b, a), true); } }
          else if (c->op == Op::FLt) { if (!nan) note(fCmp(Op::FLe, b, a), true); }
        }
        break;
      }
      case Op::Eq: case Op::Ult: case Op::Slt:
        about[c->a[0]].push_back(idx);
        if (c->a[0] != c->a[1]) about[c->a[1]].push_back(idx);
        break;
      default: break;
    }
  }
  void assertLit(T c, bool v) {
    if (c->isc()) return;
    pc.push_back({c, v});
    note(c, v);
    invalidate();
  }
  void filter(T c, bool v) {
    const uint64_t *p = poolOf(c);
    for (int i = 0; i < kPool; i++)
      if (alive.test(i) && (p[i] != 0) != v) alive.w[i / 64] &= ~(1ull << (i % 64));
    std::vector<std::shared_ptr<Assign>> e;
    for (auto &a : extra) if ((a->eval(c) != 0) == v) e.push_back(a);
    extra.swap(e);
  }
};
