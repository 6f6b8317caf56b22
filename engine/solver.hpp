// z3 back end. Two encodings of the same obligation:
//  * abstract: IEEE comparisons/conversions exact, +,*,/,sqrt,libm replaced by
//    fresh variables constrained by facts that hold for RNE arithmetic
//    (an over-approximation: unsat is a proof, sat is only a candidate);
//  * exact: z3's floating-point theory for every operation (libm abstract).
// Every model is re-evaluated with concrete IEEE arithmetic before use.
#pragma once
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <z3++.h>
#include <chrono>
#include <set>
#include <unordered_set>
#include "know.hpp"

enum class SR { Unsat, Sat, Unknown };
struct SolverStats {
  uint64_t queries = 0, unsat = 0, sat = 0, unknown = 0, exactQ = 0, abstractQ = 0, propQ = 0, validated = 0;
  double secs = 0;
};

class Solver {
 public:
  SolverStats st;
  z3::context ctx;
  Solver() {}

  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

  // variables in cone of t
  std::unordered_map<uint32_t, std::vector<uint32_t>> vmemo;
  const std::vector<uint32_t> &varsOf(T t) {
    auto it = vmemo.find(t->id);
    if (it != vmemo.end()) return it->second;
    std::vector<uint32_t> r;
    if (t->op == Op::Var) r.push_back((uint32_t)t->c);
    else {
      std::set<uint32_t> s;
      for (int i = 0; i < t->n; i++) { auto &k = varsOf(t->a[i]); s.insert(k.begin(), k.end()); }
      r.assign(s.begin(), s.end());
    }
    return vmemo[t->id] = r;
  }

  // literals of pc that share variables (transitively) with the goals
  std::vector<std::pair<T, bool>> slice(const Know &k, const std::vector<std::pair<T, bool>> &goals) {
    std::set<uint32_t> vs;
    for (auto &g : goals) { auto &q = varsOf(g.first); vs.insert(q.begin(), q.end()); }
    std::vector<char> used(k.pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < k.pc.size(); i++) {
        if (used[i]) continue;
        auto &q = varsOf(k.pc[i].first);
        bool hit = false;
        for (auto v : q) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; vs.insert(q.begin(), q.end()); }
      }
    }
    std::vector<std::pair<T, bool>> r;
    for (size_t i = 0; i < k.pc.size(); i++) if (used[i]) r.push_back(k.pc[i]);
    for (auto &g : goals) r.push_back(g);
    return r;
  }
  static bool isArith(T t) {
    switch (t->op) { case Op::FAdd: case Op::FMul: case Op::FDiv: case Op::FSqrt: case Op::FRem: case Op::FUf1: case Op::FUf2: return true; default: return false; }
  }
  int arithCount(const std::vector<std::pair<T, bool>> &ls, int *uf = nullptr) {
    std::unordered_set<uint32_t> seen; int n = 0;
    std::vector<T> st2;
    for (auto &l : ls) st2.push_back(l.first);
    while (!st2.empty()) {
      T t = st2.back(); st2.pop_back();
      if (!seen.insert(t->id).second) continue;
      if (isArith(t)) { n += t->ty == Ty::F64 ? 3 : 1; if (uf && (t->op == Op::FUf1 || t->op == Op::FUf2 || t->op == Op::FRem)) ++*uf; }
      for (int i = 0; i < t->n; i++) st2.push_back(t->a[i]);
    }
    return n;
  }

  // ---- translation ----
  struct Tr {
    Solver &S; const Know *k; bool exact;
    const std::unordered_map<uint32_t, uint64_t> *fix;
    std::unordered_map<uint32_t, z3::expr> memo;
    std::vector<z3::expr> side;
    std::vector<T> absn;
    std::vector<T> vars;
    z3::context &c;
    Tr(Solver &s, const Know *k, bool ex, const std::unordered_map<uint32_t, uint64_t> *fix) : S(s), k(k), exact(ex), fix(fix), c(s.ctx) {}
    z3::sort fs(Ty t) { return t == Ty::F32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); }
    z3::expr fval(Ty t, uint64_t bits) {
      z3::expr b = c.bv_val((uint64_t)bits, t == Ty::F32 ? 32 : 64);
      return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, b, fs(t))).simplify();
    }
    z3::expr fd(Ty t, double d) { return fval(t, fromd(t, d)); }
    z3::expr isNan(const z3::expr &e) { return z3::expr(c, Z3_mk_fpa_is_nan(c, e)); }
    z3::expr lt(const z3::expr &a, const z3::expr &b) { return z3::expr(c, Z3_mk_fpa_lt(c, a, b)); }
    z3::expr le(const z3::expr &a, const z3::expr &b) { return z3::expr(c, Z3_mk_fpa_leq(c, a, b)); }
    z3::expr eq(const z3::expr &a, const z3::expr &b) { return z3::expr(c, Z3_mk_fpa_eq(c, a, b)); }
    z3::expr neg(const z3::expr &a) { return z3::expr(c, Z3_mk_fpa_neg(c, a)); }
    z3::expr ab(const z3::expr &a) { return z3::expr(c, Z3_mk_fpa_abs(c, a)); }
    z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
    z3::expr rtz() { return z3::expr(c, Z3_mk_fpa_rtz(c)); }
    z3::expr bit(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }

    z3::expr boolOf(T t) {  // width-1 terms as Bool
      assert(t->w == 1);
      switch (t->op) {
        case Op::Const: return c.bool_val(t->c != 0);
        case Op::Xor: return isT(t->a[1]) ? !boolOf(t->a[0]) : boolOf(t->a[0]) != boolOf(t->a[1]);
        case Op::And: return boolOf(t->a[0]) && boolOf(t->a[1]);
        case Op::Or: return boolOf(t->a[0]) || boolOf(t->a[1]);
        case Op::Ite: return z3::ite(boolOf(t->a[0]), boolOf(t->a[1]), boolOf(t->a[2]));
        case Op::Eq: return tr(t->a[0]) == tr(t->a[1]);
        case Op::Ult: return z3::ult(tr(t->a[0]), tr(t->a[1]));
        case Op::Ule: return z3::ule(tr(t->a[0]), tr(t->a[1]));
        case Op::Slt: return z3::slt(tr(t->a[0]), tr(t->a[1]));
        case Op::Sle: return z3::sle(tr(t->a[0]), tr(t->a[1]));
        case Op::FLt: return lt(tr(t->a[0]), tr(t->a[1]));
        case Op::FLe: return le(tr(t->a[0]), tr(t->a[1]));
        case Op::FEq: return t->a[0] == t->a[1] ? !isNan(tr(t->a[0])) : eq(tr(t->a[0]), tr(t->a[1]));
        default: return tr(t) == c.bv_val(1, 1);
      }
    }
    z3::expr fresh(T t) {
      std::string n = "n" + std::to_string(t->id);
      return t->isF() ? c.constant(n.c_str(), fs(t->ty)) : c.bv_const(n.c_str(), t->w);
    }
    void range(T t, const z3::expr &e) {
      if (!t->isF()) return;
      Iv i = k ? k->iv(t) : ivF(t);
      if (i.lo > i.hi) { side.push_back(isNan(e)); return; }
      z3::expr in = c.bool_val(true);
      if (i.lo > -INFINITY) in = in && le(fd(t->ty, i.lo), e);
      if (i.hi < INFINITY) in = in && le(e, fd(t->ty, i.hi));
      if (!i.nan) side.push_back(!isNan(e) && in);
      else if (!in.is_true()) side.push_back(isNan(e) || in);
    }
    z3::expr tr(T t) {
      auto it = memo.find(t->id);
      if (it != memo.end()) return it->second;
      z3::expr e = tr0(t);
      memo.insert({t->id, e});
      return e;
    }
    z3::expr tr0(T t) {
      if (t->ty == Ty::BV && t->w == 1 && t->op != Op::Var && t->op != Op::Extract && t->op != Op::Const) return bit(boolOf(t));
      switch (t->op) {
        case Op::Const: return t->isF() ? fval(t->ty, t->c) : c.bv_val((uint64_t)t->c, t->w);
        case Op::Var: {
          if (fix) { auto f = fix->find((uint32_t)t->c); if (f != fix->end()) return t->isF() ? fval(t->ty, f->second) : c.bv_val((uint64_t)f->second, t->w); }
          vars.push_back(t);
          std::string n = "v" + std::to_string(t->c);
          auto &vi = gVars[t->c];
          if (t->isF()) {
            z3::expr e = c.constant(n.c_str(), fs(t->ty));
            z3::expr in = c.bool_val(true);
            if (vi.flo > -INFINITY) in = in && le(fd(t->ty, vi.flo), e);
            if (vi.fhi < INFINITY) in = in && le(e, fd(t->ty, vi.fhi));
            if (!vi.fnan) side.push_back(!isNan(e) && in); else side.push_back(isNan(e) || in);
            return e;
          }
          z3::expr e = c.bv_const(n.c_str(), t->w);
          IIv full = iivTop(t->w);
          if (vi.ilo > full.slo) side.push_back(z3::sle(c.bv_val((int64_t)vi.ilo, t->w), e));
          if (vi.ihi < full.shi) side.push_back(z3::sle(e, c.bv_val((int64_t)vi.ihi, t->w)));
          return e;
        }
        case Op::Add: return tr(t->a[0]) + tr(t->a[1]);
        case Op::Mul: return tr(t->a[0]) * tr(t->a[1]);
        case Op::UDiv: return z3::udiv(tr(t->a[0]), tr(t->a[1]));
        case Op::SDiv: return tr(t->a[0]) / tr(t->a[1]);
        case Op::URem: return z3::urem(tr(t->a[0]), tr(t->a[1]));
        case Op::SRem: return z3::srem(tr(t->a[0]), tr(t->a[1]));
        case Op::And: return tr(t->a[0]) & tr(t->a[1]);
        case Op::Or: return tr(t->a[0]) | tr(t->a[1]);
        case Op::Xor: return tr(t->a[0]) ^ tr(t->a[1]);
        case Op::Shl: return z3::shl(tr(t->a[0]), tr(t->a[1]));
        case Op::LShr: return z3::lshr(tr(t->a[0]), tr(t->a[1]));
        case Op::AShr: return z3::ashr(tr(t->a[0]), tr(t->a[1]));
        case Op::Concat: return z3::concat(tr(t->a[0]), tr(t->a[1]));
        case Op::Extract: return tr(t->a[0]).extract((unsigned)(t->c + t->w - 1), (unsigned)t->c);
        case Op::ZExt: return z3::zext(tr(t->a[0]), t->w - t->a[0]->w);
        case Op::SExt: return z3::sext(tr(t->a[0]), t->w - t->a[0]->w);
        case Op::Ite: return z3::ite(boolOf(t->a[0]), tr(t->a[1]), tr(t->a[2]));
        case Op::FNeg: return neg(tr(t->a[0]));
        case Op::FAbs: return ab(tr(t->a[0]));
        case Op::FRound: {
          z3::expr rm(c, t->c == 0 ? Z3_mk_fpa_rtp(c) : t->c == 1 ? Z3_mk_fpa_rtn(c) : t->c == 2 ? Z3_mk_fpa_rtz(c) : t->c == 3 ? Z3_mk_fpa_rna(c) : Z3_mk_fpa_rne(c));
          z3::expr a = tr(t->a[0]);
          return z3::expr(c, Z3_mk_fpa_round_to_integral(c, rm, a));
        }
        case Op::FMinN: { z3::expr a = tr(t->a[0]), b = tr(t->a[1]); return z3::ite(isNan(a), b, z3::ite(isNan(b), a, z3::ite(le(a, b), a, b))); }
        case Op::FMaxN: { z3::expr a = tr(t->a[0]), b = tr(t->a[1]); return z3::ite(isNan(a), b, z3::ite(isNan(b), a, z3::ite(le(b, a), a, b))); }
        case Op::FExt: case Op::FTrn: return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), tr(t->a[0]), fs(t->ty)));
        case Op::SIToF: return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), tr(t->a[0]), fs(t->ty)));
        case Op::UIToF: return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), tr(t->a[0]), fs(t->ty)));
        case Op::FToSI: {
          z3::expr a = tr(t->a[0]);
          double lim = std::ldexp(1.0, t->w - 1);
          Ty ty = t->a[0]->ty;
          z3::expr in = lt(a, fd(ty, lim)) && (t->a[0]->ty == Ty::F64 && t->w <= 32 ? lt(fd(ty, -lim - 1), a) : le(fd(ty, -lim), a));
          return z3::ite(in, z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz(), a, t->w)), c.bv_val((uint64_t)(1ull << (t->w - 1)), t->w));
        }
        case Op::FToUI: {
          z3::expr a = tr(t->a[0]); Ty ty = t->a[0]->ty;
          z3::expr in = lt(fd(ty, -1), a) && lt(a, fd(ty, std::ldexp(1.0, t->w)));
          return z3::ite(in, z3::expr(c, Z3_mk_fpa_to_ubv(c, rtz(), a, t->w)), c.bv_val((uint64_t)maskw(t->w), t->w));
        }
        case Op::BitsToF: return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, tr(t->a[0]), fs(t->ty)));
        case Op::FToBits: { z3::expr b = fresh(t); side.push_back(z3::expr(c, Z3_mk_fpa_to_fp_bv(c, b, fs(t->a[0]->ty))) == tr(t->a[0])); return b; }
        default: break;
      }
      // arithmetic
      z3::expr a = tr(t->a[0]);
      bool two = t->n == 2;
      z3::expr b = two ? tr(t->a[1]) : a;
      if (exact) {
        switch (t->op) {
          case Op::FAdd: return z3::expr(c, Z3_mk_fpa_add(c, rne(), a, b));
          case Op::FMul: return z3::expr(c, Z3_mk_fpa_mul(c, rne(), a, b));
          case Op::FDiv: return z3::expr(c, Z3_mk_fpa_div(c, rne(), a, b));
          case Op::FSqrt: return z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), a));
          default: break;
        }
      }
      // a fixed-argument application can be evaluated
      z3::expr r = fresh(t);
      absn.push_back(t);
      range(t, r);
      facts(t, r, a, b);
      return r;
    }
    void facts(T t, const z3::expr &r, const z3::expr &a, const z3::expr &b) {
      Ty ty = t->ty;
      z3::expr zero = fd(ty, 0), one = fd(ty, 1);
      auto nn = [&](T x, const z3::expr &e) { Iv i = k ? k->iv(x) : ivF(x); return i.nan ? !isNan(e) : c.bool_val(true); };
      z3::expr ok = nn(t, r) && nn(t->a[0], a);
      if (t->n == 2) ok = ok && nn(t->a[1], b);
      auto add = [&](const z3::expr &p, const z3::expr &q) { side.push_back(z3::implies(ok && p, q)); };
      switch (t->op) {
        case Op::FAdd: {
          add(le(zero, b), le(a, r)); add(le(b, zero), le(r, a));
          add(le(zero, a), le(b, r)); add(le(a, zero), le(r, b));
          z3::expr nb = neg(b);
          add(lt(nb, a), lt(zero, r)); add(lt(a, nb), lt(r, zero)); add(eq(a, nb), eq(r, zero));
          break;
        }
        case Op::FMul: {
          if (t->a[0] == t->a[1]) { add(c.bool_val(true), le(zero, r)); }
          add(eq(a, zero) || eq(b, zero), eq(r, zero));
          add((le(zero, a) && le(zero, b)) || (le(a, zero) && le(b, zero)), le(zero, r));
          add((le(zero, a) && le(b, zero)) || (le(a, zero) && le(zero, b)), le(r, zero));
          z3::expr ra = ab(r), aa = ab(a), bb = ab(b);
          add(le(aa, one), le(ra, bb)); add(le(bb, one), le(ra, aa));
          add(le(one, aa), le(bb, ra)); add(le(one, bb), le(aa, ra));
          break;
        }
        case Op::FDiv: {
          z3::expr ra = ab(r), aa = ab(a), bb = ab(b);
          z3::expr nz = !eq(b, zero);
          add(nz && eq(a, zero), eq(r, zero));
          add((lt(zero, b) && le(zero, a)) || (lt(b, zero) && le(a, zero)), le(zero, r));
          add((lt(zero, b) && le(a, zero)) || (lt(b, zero) && le(zero, a)), le(r, zero));
          add(nz && le(aa, bb), le(ra, one)); add(nz && le(bb, aa), le(one, ra));
          add(nz && eq(a, b), eq(r, one));
          add(le(one, bb), le(ra, aa)); add(nz && le(bb, one), le(aa, ra));
          break;
        }
        case Op::FSqrt:
          add(c.bool_val(true), le(zero, r));
          add(eq(a, zero), eq(r, zero)); add(lt(zero, a), lt(zero, r));
          add(le(a, one), le(r, one)); add(le(one, a), le(one, r));
          break;
        case Op::FUf2:
          if (t->c == kHypot) {
            add(c.bool_val(true), le(ab(a), r)); add(c.bool_val(true), le(ab(b), r));
            add(eq(a, zero) && eq(b, zero), eq(r, zero));
            add(eq(a, zero), eq(r, ab(b))); add(eq(b, zero), eq(r, ab(a)));
          }
          break;
        default: break;
      }
    }
    void pairFacts() {
      // congruence and monotonicity between applications of the same operation
      int n = 0;
      for (size_t i = 0; i < absn.size(); i++)
        for (size_t j = i + 1; j < absn.size(); j++) {
          T x = absn[i], y = absn[j];
          if (x->op != y->op || x->ty != y->ty || x->c != y->c) continue;
          z3::expr rx = tr(x), ry = tr(y);
          auto nn = [&](T q) { Iv v = k ? k->iv(q) : ivF(q); return v.nan ? !isNan(tr(q)) : c.bool_val(true); };
          if (x->op == Op::FAdd) {
            for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++)
              if (x->a[p] == y->a[q]) {
                z3::expr u = tr(x->a[1 - p]), v = tr(y->a[1 - q]);
                z3::expr ok = nn(x) && nn(y);
                side.push_back(z3::implies(ok && le(u, v), le(rx, ry)));
                side.push_back(z3::implies(ok && le(v, u), le(ry, rx)));
                if (++n > 300) return;
              }
          } else if (x->op == Op::FMul) {
            for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++)
              if (x->a[p] == y->a[q]) {
                z3::expr u = tr(x->a[1 - p]), v = tr(y->a[1 - q]), w = tr(x->a[p]), z = fd(x->ty, 0);
                z3::expr ok = nn(x) && nn(y);
                side.push_back(z3::implies(ok && le(z, w) && le(u, v), le(rx, ry)));
                side.push_back(z3::implies(ok && le(z, w) && le(v, u), le(ry, rx)));
                side.push_back(z3::implies(ok && le(w, z) && le(u, v), le(ry, rx)));
                side.push_back(z3::implies(ok && le(w, z) && le(v, u), le(rx, ry)));
                if (++n > 300) return;
              }
          } else if (x->op == Op::FDiv) {
            if (x->a[1] == y->a[1]) {
              z3::expr u = tr(x->a[0]), v = tr(y->a[0]), w = tr(x->a[1]), z = fd(x->ty, 0);
              z3::expr ok = nn(x) && nn(y);
              side.push_back(z3::implies(ok && lt(z, w) && le(u, v), le(rx, ry)));
              side.push_back(z3::implies(ok && lt(z, w) && le(v, u), le(ry, rx)));
              if (++n > 300) return;
            }
          } else {
            z3::expr same = tr(x->a[0]) == tr(y->a[0]);
            if (x->n == 2) same = same && tr(x->a[1]) == tr(y->a[1]);
            side.push_back(z3::implies(same, rx == ry));
            if (++n > 300) return;
          }
        }
    }
  };

  uint64_t modelVal(z3::model &m, Tr &tr, T v) {
    std::string n = "v" + std::to_string(v->c);
    z3::expr e = v->isF() ? ctx.constant(n.c_str(), tr.fs(v->ty)) : ctx.bv_const(n.c_str(), v->w);
    if (v->isF()) {  // fp.to_ieee_bv(NaN) is unspecified
      z3::expr isn = m.eval(tr.isNan(e), true).simplify();
      if (isn.is_true()) return v->ty == Ty::F32 ? 0x7fc00000ull : 0x7ff8000000000000ull;
    }
    z3::expr b = v->isF() ? z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e)) : e;
    z3::expr r = m.eval(b, true).simplify();
    uint64_t x = 0;
    if (r.is_numeral_u64(x)) return x;
    return gVars[v->c].samples[0];
  }

  bool validate(const Know &k, const std::vector<std::pair<T, bool>> &goals, Assign &a) {
    for (auto &l : k.pc) if ((a.eval(l.first) != 0) != l.second) return false;
    for (auto &l : goals) if ((a.eval(l.first) != 0) != l.second) return false;
    for (auto &vi : gVars) {
      uint64_t x = a.eval(vi.term);
      if (vi.ty == Ty::BV) { int64_t s = sxt(x, vi.w); if (s < vi.ilo || s > vi.ihi) return false; }
      else { double d = asd(vi.ty, x); if (std::isnan(d) ? !vi.fnan : (d < vi.flo || d > vi.fhi)) return false; }
    }
    return true;
  }
  std::shared_ptr<Assign> baseAssign(const Know &k, int which = 0) {
    auto a = std::make_shared<Assign>();
    a->v.resize(gVars.size());
    if (!k.extra.empty() && (which < (int)k.extra.size() || !k.alive.any())) { auto &e = k.extra[which % k.extra.size()]; for (size_t i = 0; i < gVars.size(); i++) a->v[i] = e->eval(gVars[i].term); a->slot = e->slot; return a; }
    int slot = 0, seen = 0;
    for (int i = 0; i < kPool; i++) if (k.alive.test(i)) { slot = i; if (seen++ >= which - (int)k.extra.size()) break; }
    for (size_t i = 0; i < gVars.size(); i++) a->v[i] = gVars[i].samples[slot];
    a->slot = slot;
    return a;
  }

  SR run(const Know &k, const std::vector<std::pair<T, bool>> &goals, const std::vector<std::pair<T, bool>> &ls, bool exact, unsigned ms,
         const std::unordered_map<uint32_t, uint64_t> *fix, std::shared_ptr<Assign> *out, int which = 0) {
    double t0 = now();
    st.queries++;
    (exact ? st.exactQ : st.abstractQ)++;
    SR res = SR::Unknown;
    try {
      Tr tr(*this, fix ? nullptr : &k, exact, fix);
      std::vector<z3::expr> as;
      for (auto &l : ls) { z3::expr e = tr.boolOf(l.first); as.push_back(l.second ? e : !e); }
      if (!exact || !tr.absn.empty()) tr.pairFacts();
      z3::solver s = exact ? z3::tactic(ctx, "qffp").mk_solver() : z3::solver(ctx);
      if (!tr.absn.empty() || !exact) s = z3::tactic(ctx, "qffp").mk_solver();
      z3::params p(ctx); p.set("timeout", ms); s.set(p);
      for (auto &e : as) s.add(e);
      for (auto &e : tr.side) s.add(e);
      std::mutex mu; std::condition_variable cv; bool done = false;
      std::thread dog([&] { std::unique_lock<std::mutex> l(mu); while (!cv.wait_for(l, std::chrono::milliseconds(ms + ms / 2 + 200), [&] { return done; })) ctx.interrupt(); });
      struct Join { std::mutex &m; std::condition_variable &c; bool &d; std::thread &t; ~Join() { { std::lock_guard<std::mutex> l(m); d = true; } c.notify_all(); t.join(); } } jn{mu, cv, done, dog};
      auto r = s.check();
      if (r == z3::unsat) res = SR::Unsat;
      else if (r == z3::sat) {
        res = SR::Sat;
        if (out) {
          z3::model m = s.get_model();
          auto a = baseAssign(k, which);
          if (fix) for (auto &f : *fix) a->v[f.first] = f.second;
          for (T v : tr.vars) a->v[v->c] = modelVal(m, tr, v);
          a->memo.clear();
          *out = a;
        }
      }
    } catch (z3::exception &e) { res = SR::Unknown; if (getenv("INKSYM_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg()); }
    st.secs += now() - t0;
    if (res == SR::Unsat) st.unsat++; else if (res == SR::Sat) st.sat++; else st.unknown++;
    return res;
  }

  // Propositional check: every comparison is a free atom. Cheap, and enough to
  // discard combinations that only the boolean structure rules out.
  std::unordered_map<uint32_t, z3::expr> pmemo;
  std::vector<T> patoms;  // atoms of pmemo not yet related to earlier ones
  std::unordered_map<uint32_t, std::vector<T>> pby;   // by non-constant operand
  std::unordered_map<uint32_t, std::vector<z3::expr>> pax;  // what holds between an atom and earlier ones
  void relate() {
    for (T t : patoms) {
      if (t->op != Op::FLt && t->op != Op::FLe && t->op != Op::FEq) continue;
      std::set<uint32_t> seen;
      for (int i = 0; i < 2; i++) {
        if (t->a[i]->isc()) continue;
        auto &l = pby[t->a[i]->id];
        for (T o : l) {
          unsigned a, b;
          if (o == t || !seen.insert(o->id).second || !cmpMasks(t, o, a, b)) continue;
          z3::expr x = prop(t), y = prop(o);
          auto &v = pax[t->id];
          if (!(a & ~b)) v.push_back(z3::implies(x, y));
          if (!(b & ~a)) v.push_back(z3::implies(y, x));
          if (!(a & b)) v.push_back(!x || !y);
          if ((a | b) == 63) v.push_back(x || y);
        }
        l.push_back(t);
      }
    }
    patoms.clear();
  }
  void atomsOf(T t, std::set<uint32_t> &seen, z3::solver &s) {
    if (!seen.insert(t->id).second) return;
    if (t->w == 1 && (t->op == Op::Xor || t->op == Op::And || t->op == Op::Or || t->op == Op::Ite)) { for (int i = 0; i < t->n; i++) atomsOf(t->a[i], seen, s); return; }
    auto it = pax.find(t->id);
    if (it != pax.end()) for (auto &e : it->second) s.add(e);
    atoms.push_back(t);
  }
  std::vector<T> atoms;
  z3::expr prop(T t) {
    auto it = pmemo.find(t->id);
    if (it != pmemo.end()) return it->second;
    z3::expr e = [&]() -> z3::expr {
      switch (t->op) {
        case Op::Const: return ctx.bool_val(t->c != 0);
        case Op::Xor: return isT(t->a[1]) ? !prop(t->a[0]) : prop(t->a[0]) != prop(t->a[1]);
        case Op::And: return prop(t->a[0]) && prop(t->a[1]);
        case Op::Or: return prop(t->a[0]) || prop(t->a[1]);
        case Op::Ite: return z3::ite(prop(t->a[0]), prop(t->a[1]), prop(t->a[2]));
        default: patoms.push_back(t); return ctx.bool_const(("p" + std::to_string(t->id)).c_str());
      }
    }();
    pmemo.insert({t->id, e});
    return e;
  }
  static bool structured(T t) { t = Know::strip(t); return t->op == Op::And || t->op == Op::Or || t->op == Op::Ite || t->op == Op::Xor; }
  bool propUnsat(const Know &k, const std::vector<std::pair<T, bool>> &goals) {
    bool any = false;
    for (auto &g : goals) any |= structured(g.first);
    for (auto &l : k.lits) { if (any) break; any |= structured(l.first); }
    if (!any) return false;
    double t0 = now();
    st.queries++; st.propQ++;
    z3::solver s(ctx, "QF_UF");
    z3::params p(ctx); p.set("timeout", 100u); s.set(p);
    for (auto &l : k.lits) s.add(l.second ? prop(l.first) : !prop(l.first));
    for (auto &l : goals) s.add(l.second ? prop(l.first) : !prop(l.first));
    relate();
    std::set<uint32_t> seen;
    for (auto &l : k.lits) atomsOf(l.first, seen, s);
    atoms.clear();
    for (auto &l : k.lits) atomsOf(l.first, seen, s);
    for (auto &l : goals) atomsOf(l.first, seen, s);
    auto r = s.check();
    if (r != z3::unsat && atoms.size() < 400) {
      // the same comparison may occur in several forms that agree on this path
      bool more = false;
      for (size_t i = 0; i < atoms.size(); i++) {
        T t = atoms[i];
        if (!Know::isCmp(t)) continue;
        T u = k.rwKids(t);
        if (u == t) continue;
        s.add(prop(t) == prop(u));
        relate();
        atomsOf(u, seen, s);
        more = true;
      }
      if (more) r = s.check();
    }
    st.secs += now() - t0;
    if (r == z3::unsat) st.unsat++; else if (r == z3::sat) st.sat++; else st.unknown++;
    return r == z3::unsat;
  }

  // Sat is returned only with a validated concrete witness.
  int maxArith = 40, maxAbs = 300;
  SR solve(const Know &k, const std::vector<std::pair<T, bool>> &goals, unsigned absMs, unsigned exMs, int tries, std::shared_ptr<Assign> *wit, int exactLimit = 4) {
    if (propUnsat(k, goals)) return SR::Unsat;
    auto ls = slice(k, goals);
    int uf = 0;
    int n = arithCount(ls, &uf);
    std::shared_ptr<Assign> a;
    if (n == 0) {
      SR r = run(k, goals, ls, true, std::max(absMs, exMs), nullptr, &a);
      if (r == SR::Sat && validate(k, goals, *a)) { st.validated++; if (wit) *wit = a; return SR::Sat; }
      if (r == SR::Unsat) return r;
      if (r == SR::Sat && ls.size() < k.pc.size() + goals.size()) {
        // no witness for the rest of the path to build on: ask for all of it
        std::vector<std::pair<T, bool>> all = k.pc;
        all.insert(all.end(), goals.begin(), goals.end());
        r = run(k, goals, all, arithCount(all) == 0, std::max(absMs, exMs), nullptr, &a);
        if (r == SR::Unsat) return r;
        if (r == SR::Sat && validate(k, goals, *a)) { st.validated++; if (wit) *wit = a; return SR::Sat; }
      }
      return SR::Unknown;
    }
    SR r = n > maxAbs ? SR::Unknown : run(k, goals, ls, false, absMs, nullptr, &a);
    if (r == SR::Unsat) return r;
    if (r == SR::Sat && validate(k, goals, *a)) { st.validated++; if (wit) *wit = a; return SR::Sat; }
    // guided: keep most inputs at a witness of the path, solve for the rest
    if (tries > 0 && k.hasWitness()) {
      std::set<uint32_t> gv;
      for (auto &g : goals) { auto &q = varsOf(g.first); gv.insert(q.begin(), q.end()); }
      std::vector<uint32_t> gvl(gv.begin(), gv.end());
      int done = 0;
      for (int w = 0; w < 3 && done < tries; w++) {
        auto base = baseAssign(k, w);
        std::vector<std::vector<uint32_t>> frees;
        if (gvl.size() <= 3) frees.push_back(gvl);
        for (auto v : gvl) frees.push_back({v});
        for (auto &fr : frees) {
          if (done++ >= tries) break;
          std::unordered_map<uint32_t, uint64_t> fix;
          std::set<uint32_t> f(fr.begin(), fr.end());
          for (uint32_t i = 0; i < gVars.size(); i++) if (!f.count(i)) fix[i] = base->v[i];
          // re-simplify literals under the fixed values
          std::unordered_map<uint32_t, T> sm;
          std::vector<std::pair<T, bool>> l2;
          bool bad = false;
          for (auto &l : k.pc) { T q = subst(l.first, fix, sm); if (q->isc()) { if ((q->c != 0) != l.second) { bad = true; break; } } else l2.push_back({q, l.second}); }
          if (!bad) for (auto &l : goals) { T q = subst(l.first, fix, sm); if (q->isc()) { if ((q->c != 0) != l.second) { bad = true; break; } } else l2.push_back({q, l.second}); }
          if (bad) continue;
          std::shared_ptr<Assign> a2;
          if (l2.empty()) { a2 = base; }
          else {
            if (arithCount(l2) > maxArith) continue;
            SR r2 = run(k, goals, l2, true, exMs, &fix, &a2, w);
            if (r2 != SR::Sat) continue;
          }
          if (validate(k, goals, *a2)) { st.validated++; if (wit) *wit = a2; return SR::Sat; }
        }
      }
    }
    if (exMs && uf == 0 && n <= exactLimit) {
      SR r3 = run(k, goals, ls, true, exMs, nullptr, &a);
      if (r3 == SR::Unsat) return r3;
      if (r3 == SR::Sat && validate(k, goals, *a)) { st.validated++; if (wit) *wit = a; return SR::Sat; }
    }
    return SR::Unknown;
  }
  T subst(T t, const std::unordered_map<uint32_t, uint64_t> &fix, std::unordered_map<uint32_t, T> &memo) {
    if (t->isc()) return t;
    if (t->op == Op::Var) { auto it = fix.find((uint32_t)t->c); if (it == fix.end()) return t; return mk(Op::Const, t->ty, t->w, it->second, 0, 0, 0, 0); }
    auto it = memo.find(t->id);
    if (it != memo.end()) return it->second;
    T kd[3] = {0, 0, 0};
    for (int i = 0; i < t->n; i++) kd[i] = subst(t->a[i], fix, memo);
    T r = rebuild(t, kd[0], kd[1], kd[2]);
    memo[t->id] = r;
    return r;
  }
};
