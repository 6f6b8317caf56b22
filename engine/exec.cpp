#include <functional>
// inksym: symbolic executor for LLVM IR compiled from the project's sources.
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <thread>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include "solver.hpp"

using namespace llvm;
typedef SmallVector<T, 2> Val;

// ---------------------------------------------------------------- options
static std::string optBc, optOut, optEntry = "vp_harness";
static int optCase = 0;
static uint64_t optSeed = 1;
static double optDeadline = 300;
static uint64_t optMaxInstr = 3000000;
static uint64_t optMaxPaths = 2000000;
static unsigned optBrAbsMs = 300, optBrExMs = 200, optObAbsMs = 5000, optObExMs = 20000;
static int optBrTries = 3, optObTries = 12, optExactLimit = 4;
static bool optVerbose = false;
static int optMaxCex = 3;
static int optBrArith = 12;
static double optBrBudget = 20, brSpent = 0;
static int optMergeDepth = 8, optMergeBudget = 4000; static bool optStrictUndef = false, optMergePtr = false;

struct Unsupported { std::string what; };
struct PathUndecided { std::string what; };
struct MergeAbort { const char *why; };
static int mergeLevel = 0;  // > 0 while both sides of a branch are run for merging
static uint64_t nMerges = 0, nMergeFail = 0;

// ---------------------------------------------------------------- memory
struct Byte { T t; uint8_t i; };
struct Obj { uint64_t base, size; bool ro = false; bool heap = false; std::vector<Byte> b; };
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo { DenseMap<const Value *, int> slot; int n = 0; };
static std::map<const Function *, FnInfo> gFn;
static FnInfo &fnInfo(const Function *f) {
  auto it = gFn.find(f);
  if (it != gFn.end()) return it->second;
  FnInfo &fi = gFn[f];
  for (auto &a : f->args()) fi.slot[&a] = fi.n++;
  for (auto &bb : *f) for (auto &i : bb) fi.slot[&i] = fi.n++;
  return fi;
}

struct Frame {
  const Function *f; FnInfo *fi;
  const BasicBlock *prev = nullptr;
  BasicBlock::const_iterator pc;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  const CallBase *site = nullptr;
};
struct Obs { std::string name; T t; };
struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  uint64_t brk = 0x100000;
  Know k;
  std::vector<Obs> obs;
  uint64_t ninstr = 0;
  int ghost = 0;  // branches taken with unknown feasibility
  std::vector<uint32_t> used;  // harness variables created on this path
};

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<uint64_t, ObjP> gRo;          // constant globals
static std::map<const GlobalValue *, uint64_t> gAddr;
static std::map<uint64_t, const Function *> gFnAt;
static Solver *S;
static std::vector<State *> work;
static std::map<std::string, T> varByName;
static int undefN = 0;

// ---------------------------------------------------------------- results
struct Cex { std::string label, kind, where; std::vector<std::pair<std::string, std::string>> vals; double mag; };
struct Und { std::string label, why; };
static std::vector<Cex> cexs;
static std::map<std::string, Und> und;
static std::map<std::string, uint64_t> undCount, cexCount;
static std::map<std::string, std::array<uint64_t, 4>> obl;  // total, by simplification, by z3 abstract/exact, failed
static std::map<std::string, uint64_t> reach;
static uint64_t nPaths = 0, nForks = 0, nInstr = 0, nPruned = 0, nGhost = 0, nGhostPaths = 0, nKilled = 0, nBrQ = 0, nStates = 0;
static std::set<std::string> funcs;
static bool stopAll = false;
static std::string incomplete;
struct Wit { std::vector<std::pair<std::string, std::string>> vals; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Wit> wits;
static size_t optMaxWits = 40;
static double tStart;

static std::string bitsStr(Ty ty, int w, uint64_t b) {
  char buf[96];
  if (ty == Ty::F32) snprintf(buf, sizeof buf, "f32:%08x:%.9g", (unsigned)b, (double)bf(b));
  else if (ty == Ty::F64) snprintf(buf, sizeof buf, "f64:%016llx:%.17g", (unsigned long long)b, bd(b));
  else snprintf(buf, sizeof buf, "i%d:%lld", w, (long long)sxt(b, w));
  return buf;
}

// ---------------------------------------------------------------- helpers
static uint64_t rng(uint64_t &s) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static double u01(uint64_t &s) { return (rng(s) >> 11) * (1.0 / 9007199254740992.0); }

static double niceIn(double lo, double hi, int slot, uint64_t &s) {
  if (lo == hi) return lo;
  double span = hi - lo;
  if (!std::isfinite(span)) {
    switch (slot % 8) {
      case 0: return std::min(std::max(0.0, lo), hi);
      case 1: return std::min(std::max((double)(int)(rng(s) % 7) - 3, lo), hi);
      case 2: return std::min(std::max(u01(s) * 20 - 10, lo), hi);
      case 3: { double m = std::pow(10.0, u01(s) * 60 - 30); if (rng(s) & 1) m = -m; return std::min(std::max(m, lo), hi); }
      case 4: { double m = std::pow(10.0, u01(s) * 6 - 3); if (rng(s) & 1) m = -m; return std::min(std::max(m, lo), hi); }
      case 5: return rng(s) % 3 == 0 ? lo : rng(s) % 2 ? hi : 1;
      default: return std::min(std::max((double)(int)(rng(s) % 41) / 4 - 5, lo), hi);
    }
  }
  switch (slot % 8) {
    case 0: case 1: case 2: return lo + span * u01(s);
    case 3: { double g = (double)(rng(s) % 5) / 4; return lo + span * g; }
    case 4: { // log-uniform towards zero or lo
      double a = std::max(std::fabs(lo), std::fabs(hi));
      double m = a * std::pow(10.0, -6 * u01(s));
      if (lo < 0 && (rng(s) & 1)) m = -m;
      return std::min(std::max(m, lo), hi); }
    case 5: { double r = std::floor(lo + span * u01(s)); return std::min(std::max(r, lo), hi); }
    case 6: { double mid = lo <= 0 && hi >= 0 ? 0 : (lo + hi) / 2; double r = mid + span * 0.02 * (u01(s) - 0.5); return std::min(std::max(r, lo), hi); }
    default: { double g = (double)(rng(s) % 33) / 32; return lo + span * g; }
  }
}

static T newVar(State &s, const std::string &name, Ty ty, int w, double lo, double hi, bool nan, int64_t ilo, int64_t ihi, bool harness, T base, double dlo, double dhi) {
  auto it = varByName.find(name);
  if (it != varByName.end()) {
    if (harness) s.used.push_back((uint32_t)it->second->c);
    return it->second;
  }
  VarInfo v;
  v.name = name; v.ty = ty; v.w = (uint8_t)w; v.flo = lo; v.fhi = hi; v.fnan = nan; v.ilo = ilo; v.ihi = ihi; v.harness = harness;
  uint64_t sd = optSeed * 0x1234567 + 99;
  for (char c : name) sd = sd * 1099511628211ull + (unsigned char)c;
  v.samples.resize(kPool);
  const uint64_t *bp = base ? poolOf(base) : nullptr;
  for (int i = 0; i < kPool; i++) {
    uint64_t r = sd + 7919ull * i;
    rng(r);
    if (ty == Ty::BV) {
      int64_t span = (int64_t)((uint64_t)ihi - (uint64_t)ilo);
      int64_t x;
      if (span >= 0 && span < 64) x = ilo + (int64_t)(rng(r) % (span + 1));
      else switch (i % 4) {
        case 0: x = std::min<int64_t>(std::max<int64_t>((int64_t)(rng(r) % 8) - 1, ilo), ihi); break;
        case 1: x = std::min<int64_t>(std::max<int64_t>((int64_t)(rng(r) % 2000), ilo), ihi); break;
        case 2: x = rng(r) & 1 ? ilo : ihi; break;
        default: x = (int64_t)((uint64_t)ilo + (span ? rng(r) % ((uint64_t)span) : 0)); break;
      }
      v.samples[i] = (uint64_t)x & maskw(w);
    } else {
      double d;
      if (nan && i % 16 == 15) d = NAN;
      else if (base) {
        double b = asd(base->ty, bp[i]);
        d = b + niceIn(dlo, dhi, i / 3, r);
        d = std::min(std::max(d, lo), hi);
      } else if (i % 16 >= 10 && ty == Ty::F32 && std::isfinite(hi - lo) && hi > lo) {
        // values of one slot lie close together, at various distances
        uint64_t q = 0x51ed27 + 31ull * i;
        double c = i % 16 < 12 ? 0 : u01(q) * 2 - 1, mid = (lo + hi) / 2;
        if (i % 16 == 15) c = std::floor(c * 8) / 8;
        double sc = std::pow(10.0, -(double)((i / 16) % 8));
        d = mid + (hi - lo) / 2 * c + (hi - lo) / 2 * sc * (u01(r) * 2 - 1);
        if (i / 16 % 8 == 7 && rng(r) % 2) d = mid + (hi - lo) / 2 * c;
        d = std::min(std::max(d, lo), hi);
      } else d = niceIn(lo, hi, i, r);
      uint64_t bits = fromd(ty, d);
      double back = asd(ty, bits);
      if (back < lo) bits = fromd(ty, ty == Ty::F32 ? (double)nextafterf((float)lo, INFINITY) : lo);
      if (back > hi) bits = fromd(ty, ty == Ty::F32 ? (double)nextafterf((float)hi, -INFINITY) : hi);
      v.samples[i] = bits;
    }
  }
  T t = mkVar(v);
  varByName[name] = t;
  if (harness) s.used.push_back((uint32_t)t->c);
  return t;
}
static T undefVal(State &s, Ty ty, int w) {
  std::string n = "undef#" + std::to_string(undefN++);
  IIv top = iivTop(w);
  return newVar(s, n, ty, w, -INFINITY, INFINITY, true, top.slo, top.shi, false, nullptr, 0, 0);
}

static int flatN(Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += flatN(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * flatN(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return (int)v->getNumElements();
  if (t->isVoidTy()) return 0;
  return 1;
}
static Ty tyOf(Type *t) { if (t->isFloatTy()) return Ty::F32; if (t->isDoubleTy()) return Ty::F64; return Ty::BV; }
static int wOf(Type *t) {
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) throw Unsupported{"int width " + std::to_string(t->getIntegerBitWidth())}; return (int)t->getIntegerBitWidth(); }
  std::string q; raw_string_ostream o(q); t->print(o); throw Unsupported{"type " + o.str()};
}
static T castTo(T t, Ty ty) { if (t->ty == ty) return t; if (ty == Ty::BV) return toBits(t); return fromBits(toBits(t), ty); }

// ---------------------------------------------------------------- path end / reports
static std::vector<std::pair<std::string, std::string>> valsOf(State &s, Assign &a) {
  std::vector<std::pair<std::string, std::string>> r;
  std::set<uint32_t> seen;
  for (auto i : s.used) { if (!seen.insert(i).second) continue; auto &v = gVars[i]; r.push_back({v.name, bitsStr(v.ty, v.w, a.eval(v.term))}); }
  return r;
}
static std::shared_ptr<Assign> slotAssign(int slot) {
  auto a = std::make_shared<Assign>();
  a->slot = slot;
  a->v.resize(gVars.size());
  for (size_t i = 0; i < gVars.size(); i++) a->v[i] = gVars[i].samples[slot];
  return a;
}
static void addCex(State &s, const std::string &label, const std::string &kind, const std::string &where, Assign &a, double mag) {
  cexCount[label]++;
  if ((int)cexCount[label] > optMaxCex) return;
  cexs.push_back({label, kind, where, valsOf(s, a), mag});
  if (optVerbose) { fprintf(stderr, "CEX %s %s %s\n", label.c_str(), kind.c_str(), where.c_str()); for (auto &p : cexs.back().vals) fprintf(stderr, "   %s=%s\n", p.first.c_str(), p.second.c_str()); }
}
static void addUnd(const std::string &label, const std::string &why) {
  undCount[label]++;
  if (!und.count(label)) und[label] = {label, why};
  if (optVerbose && undCount[label] < 4) fprintf(stderr, "UNDECIDED %s: %s\n", label.c_str(), why.c_str());
}
static std::string whereOf(State &s) {
  std::string r;
  for (auto it = s.st.rbegin(); it != s.st.rend() && r.size() < 300; ++it) r += demangle(it->f->getName().str()).substr(0, 80) + " <- ";
  return r;
}
// A crash-like event on this path.
static void event(State &s, const std::string &kind) {
  if (s.k.dead) { nPruned++; return; }
  if (mergeLevel) throw MergeAbort{"event"};
  std::string label = "crash:" + kind;
  obl[label][0]++;
  std::shared_ptr<Assign> w;
  for (int i = 0; i < kPool && !w; i++) if (s.k.alive.test(i)) w = slotAssign(i);
  if (!w && !s.k.extra.empty()) w = s.k.extra[0];
  if (!w) {
    if (getenv("INKSYM_CONC")) { fprintf(stderr, "event %s :: %s\n", label.c_str(), whereOf(s).c_str()); if (getenv("INKSYM_PC")) { for (auto &l : s.k.pc) fprintf(stderr, "     %d #%u %s\n", l.second, l.first->id, show(l.first, 5).c_str()); exit(1); } }
    SR r = S->solve(s.k, {}, optObAbsMs, optObExMs, 0, &w, optExactLimit);
    if (r == SR::Unsat) { obl[label][2]++; return; }
    if (r != SR::Sat) { addUnd(label, "no witness; " + whereOf(s)); return; }
  }
  obl[label][3]++;
  addCex(s, label, kind, whereOf(s), *w, 0);
}

static double fdiff(Ty ty, uint64_t a, uint64_t b) {
  double x = asd(ty, a), y = asd(ty, b);
  if (std::isnan(x) && std::isnan(y)) return 0;
  if (std::isnan(x) || std::isnan(y)) return INFINITY;
  if (x == y) return 0;
  double d = std::fabs(x - y);
  return std::isnan(d) ? INFINITY : d;
}

// ---- proof by cases: split on the undecided atoms that steer the Ites of a
// term until both sides are syntactically equal. Never uses the solver.
static int optSplit = 200;
static uint64_t nSplitTry = 0, nSplitOk = 0; static double tSplit = 0, tBr = 0, tOb = 0;
static T splitAtom(const Know &k, const std::vector<T> &roots) {
  std::set<uint32_t> seen;
  T best = nullptr;
  std::vector<std::pair<T, bool>> q;
  for (T r : roots) q.push_back({r, r->ty == Ty::BV && r->w == 1});
  int n = 0;
  std::vector<T> conds;
  std::vector<T> st(roots.begin(), roots.end());
  while (!st.empty() && ++n < 20000) {
    T t = st.back(); st.pop_back();
    if (t->isc() || !seen.insert(t->id).second) continue;
    if (t->op == Op::Ite) conds.push_back(t->a[0]);
    for (int i = 0; i < t->n; i++) st.push_back(t->a[i]);
  }
  if (n >= 20000) return nullptr;
  std::set<uint32_t> s2;
  while (!conds.empty()) {
    T c = conds.back(); conds.pop_back();
    if (c->isc() || !s2.insert(c->id).second) continue;
    if (c->w == 1 && (c->op == Op::And || c->op == Op::Or || c->op == Op::Xor || c->op == Op::Ite)) {
      for (int i = 0; i < c->n; i++) conds.push_back(c->a[i]);
      continue;
    }
    if (k.decide(c) >= 0) continue;
    if (!best || c->id < best->id) best = c;
  }
  return best;
}
// does goal(k) hold in every case? goal returns 1 yes, 0 split further, -1 no
template <class G, class R> static bool splitProve(Know k, int &budget, int depth, G goal, R roots) {
  if (k.dead) return true;
  int g = goal(k);
  if (g == 1) return true;
  if (g < 0 || depth <= 0 || --budget < 0) return false;
  T c = splitAtom(k, roots(k));
  if (!c) return false;
  for (int v = 0; v < 2; v++) {
    Know k2 = k;
    k2.alive = Mask::all(); k2.extra.clear();
    k2.assertLit(c, v);
    if (!splitProve(std::move(k2), budget, depth - 1, goal, roots)) return false;
  }
  return true;
}
static bool proveBySplit(Know &k, T cond, T a, T b) {
  if (optSplit <= 0) return false;
  nSplitTry++;
  int budget = optSplit;
  bool ok = splitProve(k, budget, 14,
    [&](Know &x) -> int {
      if (x.decideHard(cond) == 1) return 1;
      T r = x.rw(cond);
      if (isT(r)) return 1;
      if (a && x.rw(a) == x.rw(b)) return 1;
      return isFa(r) ? -1 : 0;
    },
    [&](Know &x) { std::vector<T> v; if (a) { v.push_back(x.rw(a)); v.push_back(x.rw(b)); } else v.push_back(x.rw(cond)); return v; });
  if (ok) nSplitOk++;
  return ok;
}

// Obligation: cond must hold. For "close" obligations a,b,tol describe the
// numeric reading used to pick and accept witnesses.
static void obligation(State &s, T cond, const std::string &label, T a, T b, double tol, bool assumeAfter) {
  if (s.k.dead) return;
  auto &o = obl[label];
  o[0]++;
  int d = s.k.decide(cond);
  if (d == 1) { o[1]++; return; }
  T c2 = s.k.rw(cond);
  if (isT(c2)) { o[1]++; return; }
  if (a && s.k.rw(a) == s.k.rw(b)) { o[1]++; return; }
  if (s.k.decideHard(c2) == 1) { o[1]++; return; }
  // concrete witnesses first
  auto badAt = [&](Assign &x) -> double {
    if (x.eval(cond)) return -1;
    if (!a) return 1;
    double df = fdiff(a->ty, x.eval(a), x.eval(b));
    double m = std::max(std::fabs(asd(a->ty, x.eval(a))), std::fabs(asd(a->ty, x.eval(b))));
    double lim = tol * std::max(1.0, std::isfinite(m) ? m : 1.0);
    return df > lim ? df : -1;
  };
  int best = -1; double bm = -1;
  bool anyBad = false;
  const uint64_t *pc = poolOf(cond);
  for (int i = 0; i < kPool; i++) if (s.k.alive.test(i) && !pc[i]) {
    anyBad = true;
    double m = 1;
    if (a) { const uint64_t *pa = poolOf(a), *pb = poolOf(b); m = fdiff(a->ty, pa[i], pb[i]);
      double mm = std::max(std::fabs(asd(a->ty, pa[i])), std::fabs(asd(a->ty, pb[i])));
      if (!(m > tol * std::max(1.0, std::isfinite(mm) ? mm : 1.0))) m = -1; }
    if (m > bm) { bm = m; best = i; }
  }
  if (!anyBad && proveBySplit(s.k, cond, a, b)) { o[1]++; return; }
  if (best >= 0 && bm > 0) { o[3]++; auto as = slotAssign(best); addCex(s, label, "check", whereOf(s), *as, bm); return; }
  for (auto &e : s.k.extra) { double m = badAt(*e); if (m > 0) { o[3]++; addCex(s, label, "check", whereOf(s), *e, m); return; } if (!e->eval(cond)) anyBad = true; }
  if (anyBad && a) { addUnd(label, "terms differ, but only within tolerance on the witnesses of this path"); return; }
  std::shared_ptr<Assign> w;
  // conjunctions: discharge each conjunct on its own, disjunction as a whole
  SR r = S->solve(s.k, {{cond, false}}, optObAbsMs, optObExMs, optObTries, &w, optExactLimit);
  if (r == SR::Unsat) { o[2]++; return; }
  if (r == SR::Sat) {
    double m = badAt(*w);
    if (m > 0) { o[3]++; addCex(s, label, "check", whereOf(s), *w, m); return; }
    if (a) { addUnd(label, "terms differ; solver witness within tolerance"); return; }
  }
  if (!s.k.hasWitness()) {
    // maybe the path itself is infeasible
    SR r2 = S->solve(s.k, {}, optObAbsMs, optObExMs, 0, &w, optExactLimit);
    if (r2 == SR::Unsat) { o[2]++; return; }
  }
  addUnd(label, "solver returned unknown: " + show(c2, 4).substr(0, 300));
  if (optVerbose) { fprintf(stderr, "  und cond %s\n   wit=%d ghost=%d\n", show(c2, 9).substr(0, 1500).c_str(), s.k.hasWitness(), s.ghost); if (a) fprintf(stderr, "  A=%s\n  B=%s\n", show(s.k.rw(a), 9).substr(0,1500).c_str(), show(s.k.rw(b), 9).substr(0,1500).c_str());
    if (getenv("INKSYM_DIFF") && a) {
      std::function<int(T, int)> sig = [&](T x, int d) -> int { int h = (int)x->op * 31 + (x->isc() ? (int)(x->c % 9973) : 0); if (d) { int q = 0; for (int i = 0; i < x->n; i++) q += sig(x->a[i], d - 1); h = h * 131 + q; } return h; };
      std::function<void(T, T, int)> df = [&](T x, T y, int d) {
        if (x == y) return;
        if (x->op == y->op && x->n == y->n && x->n > 0) {
          if (x->n == 2 && (x->op == Op::FAdd || x->op == Op::FMul)) {
            for (int sw = 0; sw < 2; sw++) if (x->a[0] == y->a[sw]) return df(x->a[1], y->a[1 - sw], d + 1); else if (x->a[1] == y->a[1 - sw]) return df(x->a[0], y->a[sw], d + 1);
            for (int dd = 8; dd >= 3; dd--) for (int sw = 0; sw < 2; sw++) { if (sig(x->a[0], dd) == sig(y->a[sw], dd)) return df(x->a[0], y->a[sw], d + 1); if (sig(x->a[1], dd) == sig(y->a[1 - sw], dd)) return df(x->a[1], y->a[1 - sw], d + 1); }
          } else for (int i = 0; i < x->n; i++) if (x->a[i] != y->a[i]) return df(x->a[i], y->a[i], d + 1);
        }
        fprintf(stderr, "  DIFF at depth %d\n    a %s\n    b %s\n", d, show(x, 5).substr(0, 900).c_str(), show(y, 5).substr(0, 900).c_str());
      };
      df(s.k.rw(a), s.k.rw(b), 0);
    }
    if (getenv("INKSYM_PC")) for (auto &l : s.k.pc) fprintf(stderr, "     %d %s\n", l.second, show(l.first, 5).c_str()); }
}

// ---------------------------------------------------------------- branching
// Returns the truth value to continue with in s; forks the other one.
static State *forkState(State &s) { nForks++; return new State(s); }
static void kill(State &) {}

static bool feasibleDead = false;
static bool branch(State &s, T cond) {
  if (cond->isc()) return cond->c;
  int d = s.k.decideHard(cond);
  if (d >= 0) {
    // remember it: other formulas may only follow together with this one
    if (!mergeLevel && Solver::structured(cond) && !s.k.known.count(Know::strip(cond))) s.k.note(cond, d);
    return d;
  }
  if (mergeLevel) throw MergeAbort{"fork"};
  const uint64_t *p = poolOf(cond);
  bool ht = false, hf = false;
  for (int i = 0; i < kPool; i++) if (s.k.alive.test(i)) { if (p[i]) ht = true; else hf = true; }
  for (auto &e : s.k.extra) { if (e->eval(cond)) ht = true; else hf = true; }
  bool ft = ht, ff = hf, gt = false, gf = false;
  std::shared_ptr<Assign> wt, wf;
  auto test = [&](bool v, bool &feas, bool &ghost, std::shared_ptr<Assign> &w) {
    if (proveBySplit(s.k, v ? tNot(cond) : cond, nullptr, nullptr)) { feas = false; nPruned++; return; }
    nBrQ++;
    bool wit = s.k.hasWitness();
    // hard queries share a budget; beyond it both sides are simply explored
    int hard = S->arithCount({{cond, v}});
    double q0 = Solver::now();
    if (S->propUnsat(s.k, {{cond, v}})) { feas = false; nPruned++; return; }
    if (hard > optBrArith && brSpent > optBrBudget) { feas = true; ghost = true; nGhost++; return; }
    struct Tm { double q0; bool on; ~Tm() { if (on) brSpent += Solver::now() - q0; } } tm{q0, hard > optBrArith};
    SR r = S->solve(s.k, {{cond, v}}, wit ? optBrAbsMs : optBrAbsMs / 4, wit ? optBrExMs : 0, wit ? optBrTries : 0, &w, 2);
    if (r == SR::Unsat) { feas = false; nPruned++; }
    else if (r == SR::Sat) feas = true;
    else { feas = true; ghost = true; nGhost++;
      if (getenv("INKSYM_IV")) { std::vector<T> q{cond}; std::set<uint32_t> seen; int n = 0; while (!q.empty() && n < 40) { T x = q.front(); q.erase(q.begin()); if (!seen.insert(x->id).second || x->isc()) continue; n++; if (x->isF()) { Iv i = s.k.iv(x); fprintf(stderr, "   #%u [%g %g %d] %s\n", x->id, i.lo, i.hi, i.nan, show(x, 1).substr(0, 200).c_str()); } else fprintf(stderr, "   #%u %s\n", x->id, show(x, 1).substr(0, 200).c_str()); for (int j = 0; j < x->n; j++) q.push_back(x->a[j]); } }
      if (getenv("INKSYM_GHOST")) fprintf(stderr, "ghost %d [%g %g %d] wit=%d %s :: %s\n", v, cond->n && cond->a[0]->isF() ? s.k.iv(cond->a[0]).lo : 0, cond->n && cond->a[0]->isF() ? s.k.iv(cond->a[0]).hi : 0, cond->n && cond->a[0]->isF() ? s.k.iv(cond->a[0]).nan : 0, s.k.hasWitness(), show(cond, 6).substr(0,400).c_str(), whereOf(s).substr(0,150).c_str()); }
  };
  if (!ht) test(true, ft, gt, wt);
  if (!hf) { if (!ft) { ff = true; gf = !hf && !s.k.hasWitness(); } else test(false, ff, gf, wf); }
  if (ft && ff) {
    // continue with the side that has witnesses; fork the other
    bool mine = ht || !hf;
    State *o = forkState(s);
    auto apply = [&](State &x, bool v, bool gh, std::shared_ptr<Assign> &w) {
      x.k.filter(cond, v);
      if (w) x.k.extra.push_back(w);
      x.k.assertLit(cond, v);
      if (gh) x.ghost++;
    };
    apply(*o, !mine, mine ? gf : gt, mine ? wf : wt);
    apply(s, mine, mine ? gt : gf, mine ? wt : wf);
    work.push_back(o);
    return mine;
  }
  bool v = ft;
  // implied by the path condition
  s.k.note(cond, v);
  s.k.invalidate();
  return v;
}

// Concretise an integer term: may fork (the fork re-executes the instruction).
static bool concretise(State &s, T &t) {
  for (int guard = 0; guard < 10000; guard++) {
    t = s.k.rw(t);
    if (t->isc()) return true;
    // an undecided ITE inside?
    std::vector<T> stk{t}; std::set<uint32_t> seen; T ite = nullptr;
    while (!stk.empty() && !ite) {
      T x = stk.back(); stk.pop_back();
      if (!seen.insert(x->id).second) continue;
      if (x->op == Op::Ite && x->ty == Ty::BV) { ite = x; break; }
      if (x->op == Op::FToSI || x->op == Op::FToUI) continue;
      for (int i = 0; i < x->n; i++) stk.push_back(x->a[i]);
    }
    if (ite) { branch(s, ite->a[0]); continue; }
    if (t->w == 1) { branch(s, t); continue; }
    IIv r = s.k.iiv(t);
    if (r.ulo == r.uhi) { t = cbv(r.ulo, t->w); return true; }
    // strip affine structure so that small inner ranges are enumerated
    T inner = t;
    while (true) {
      if ((inner->op == Op::Add || inner->op == Op::Mul) && inner->a[1]->isc()) inner = inner->a[0];
      else if (inner->op == Op::ZExt || inner->op == Op::SExt) inner = inner->a[0];
      else break;
    }
    uint64_t cand; bool have = false;
    const uint64_t *p = poolOf(inner);
    for (int i = 0; i < kPool && !have; i++) if (s.k.alive.test(i)) { cand = p[i]; have = true; }
    if (!have && !s.k.extra.empty()) { cand = s.k.extra[0]->eval(inner); have = true; }
    if (!have) {
      IIv q = s.k.iiv(inner);
      if (q.uhi - q.ulo < 4096) { cand = q.ulo; have = true; }
      else if (q.shi - q.slo < 4096 && q.shi >= q.slo) { cand = (uint64_t)q.slo & maskw(inner->w); have = true; }
      else {
        std::shared_ptr<Assign> w;
        if (getenv("INKSYM_CONC")) fprintf(stderr, "concretise %s :: %s\n", show(inner, 6).c_str(), whereOf(s).c_str());
        SR rr = S->solve(s.k, {}, std::min(optObAbsMs, 800u), std::min(optObExMs, 800u), 0, &w, optExactLimit);
        if (rr == SR::Unsat) { feasibleDead = true; return false; }
        if (rr == SR::Sat) { s.k.extra.push_back(w); continue; }
        throw PathUndecided{"cannot resolve " + show(inner, 4)};
      }
    }
    branch(s, tCmp(Op::Eq, inner, cbv(cand, inner->w)));
  }
  throw PathUndecided{"too many values"};
}

// ---------------------------------------------------------------- memory access
struct MemErr { std::string what; };
static ObjP *findMut(State &s, uint64_t a, uint64_t n) {
  auto it = s.mem.upper_bound(a);
  if (it == s.mem.begin()) return nullptr;
  --it;
  ObjP &o = it->second;
  if (a < o->base || a + n > o->base + o->size) return nullptr;
  return &o;
}
static Obj *findObj(State &s, uint64_t a, uint64_t n) {
  if (ObjP *o = findMut(s, a, n)) return o->get();
  auto it = gRo.upper_bound(a);
  if (it == gRo.begin()) return nullptr;
  --it;
  Obj *o = it->second.get();
  if (a < o->base || a + n > o->base + o->size) return nullptr;
  return o;
}
static uint64_t allocObj(State &s, uint64_t size, bool heap) {
  uint64_t base = s.brk;
  s.brk += ((size + 15) / 16) * 16 + 64;
  auto o = std::make_shared<Obj>();
  o->base = base; o->size = size; o->heap = heap;
  o->b.assign(size, Byte{nullptr, 0});
  s.mem[base] = o;
  return base;
}
static Obj *forWrite(State &s, uint64_t a, uint64_t n) {
  ObjP *o = findMut(s, a, n);
  if (!o) {
    if (findObj(s, a, n)) throw MemErr{"write to constant memory"};
    throw MemErr{"invalid write"};
  }
  if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
  return o->get();
}
static T loadScalar(State &s, uint64_t a, Ty ty, int w) {
  int n = (w + 7) / 8;
  Obj *o = findObj(s, a, n);
  if (!o) throw MemErr{"invalid read"};
  uint64_t off = a - o->base;
  T t0 = o->b[off].t;
  if (t0 && t0->w == n * 8) {
    bool ok = true;
    for (int i = 0; i < n; i++) if (o->b[off + i].t != t0 || o->b[off + i].i != i) { ok = false; break; }
    if (ok) {
      T t = castTo(t0, ty);
      return w == n * 8 ? t : tExtract(t, 0, w);
    }
  }
  bool undefAll = true;
  for (int i = 0; i < n; i++) if (o->b[off + i].t) undefAll = false;
  if (undefAll) {
    T v = undefVal(s, ty, w == n * 8 ? w : n * 8);
    Obj *wr = o->ro ? nullptr : forWrite(s, a, n);
    if (wr) for (int i = 0; i < n; i++) wr->b[off + i] = Byte{v, (uint8_t)i};
    return w == n * 8 ? v : tExtract(v, 0, w);
  }
  T r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    Byte b = o->b[off + i];
    T x;
    if (!b.t) {
      x = undefVal(s, Ty::BV, 8);
      if (!o->ro) { Obj *wr = forWrite(s, a, n); wr->b[off + i] = Byte{x, 0}; o = wr; }
    } else x = tExtract(toBits(b.t), 8 * b.i, 8);
    r = r ? tConcat(r, x) : x;
  }
  r = castTo(r, ty == Ty::BV ? Ty::BV : ty);
  return w == n * 8 ? r : tExtract(r, 0, w);
}
static void storeScalar(State &s, uint64_t a, T v) {
  if (v->w % 8) v = tExt(Op::ZExt, v, (v->w + 7) / 8 * 8);
  int n = v->w / 8;
  Obj *o = forWrite(s, a, n);
  uint64_t off = a - o->base;
  for (int i = 0; i < n; i++) o->b[off + i] = Byte{v, (uint8_t)i};
}
static void loadInto(State &s, uint64_t a, Type *t, Val &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) loadInto(s, a + sl->getElementOffset(i), st->getElementType(i), out);
  } else if (auto *ar = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(ar->getElementType());
    for (uint64_t i = 0; i < ar->getNumElements(); i++) loadInto(s, a + i * es, ar->getElementType(), out);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(v->getElementType());
    if (v->getElementType()->isIntegerTy(1)) throw Unsupported{"load <n x i1>"};
    for (uint64_t i = 0; i < v->getNumElements(); i++) loadInto(s, a + i * es, v->getElementType(), out);
  } else out.push_back(loadScalar(s, a, tyOf(t), wOf(t)));
}
static void storeFrom(State &s, uint64_t a, Type *t, const Val &v, int &i) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned k = 0; k < st->getNumElements(); k++) storeFrom(s, a + sl->getElementOffset(k), st->getElementType(k), v, i);
  } else if (auto *ar = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(ar->getElementType());
    for (uint64_t k = 0; k < ar->getNumElements(); k++) storeFrom(s, a + k * es, ar->getElementType(), v, i);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t k = 0; k < vt->getNumElements(); k++) storeFrom(s, a + k * es, vt->getElementType(), v, i);
  } else storeScalar(s, a, v[i++]);
}

// ---------------------------------------------------------------- constants
static Val constVal(State &s, const Constant *c);
static T constScalar(State &s, const Constant *c) { return constVal(s, c)[0]; }
// Reads through an address that is one of a few known ones: every one of them
// must be readable, and the value becomes the same choice between the cells.
static bool isUndef(T t);
static T mergeT(T c, T a, T b);
static bool leavesReadable(State &s, T p, uint64_t n, std::set<uint32_t> &seen) {
  if (!seen.insert(p->id).second) return true;
  if (p->isc()) return findObj(s, p->c, n) != nullptr;
  if (p->op != Op::Ite) return false;
  return leavesReadable(s, p->a[1], n, seen) && leavesReadable(s, p->a[2], n, seen);
}
static bool choicePtr(State &s, T p, uint64_t n) {
  if (!optMergePtr || p->op != Op::Ite || constLeaves(p) > 16) return false;
  std::set<uint32_t> seen;
  return leavesReadable(s, p, n, seen);
}
static void loadChoice(State &s, T p, Type *ty, Val &out) {
  if (p->isc()) { loadInto(s, p->c, ty, out); return; }
  Val a, b;
  loadChoice(s, p->a[1], ty, a); loadChoice(s, p->a[2], ty, b);
  for (size_t i = 0; i < a.size(); i++) out.push_back(mergeT(p->a[0], a[i], b[i]));
}
static T loadChoiceS(State &s, T p, uint64_t off, int w, Ty ty) {
  if (p->isc()) return loadScalar(s, p->c + off, ty, w);
  return mergeT(p->a[0], loadChoiceS(s, p->a[1], off, w, ty), loadChoiceS(s, p->a[2], off, w, ty));
}
static void choiceLeaves(T p, std::vector<uint64_t> &v) {
  if (p->isc()) { if (std::find(v.begin(), v.end(), p->c) == v.end()) v.push_back(p->c); return; }
  choiceLeaves(p->a[1], v); choiceLeaves(p->a[2], v);
}
static void copyChoice(State &s, uint64_t d, T q, uint64_t n) {
  std::vector<uint64_t> lv; choiceLeaves(q, lv);
  std::vector<std::pair<uint64_t, T>> cells;
  for (uint64_t i = 0; i < n;) {
    int w = 0; bool allUndef = true; Ty ty = Ty::BV;
    for (size_t j = 0; j < lv.size(); j++) {
      Obj *o = findObj(s, lv[j], n); Byte b = o->b[lv[j] - o->base + i];
      if (b.t) allUndef = false;
      int cw = b.t && b.i == 0 ? b.t->w / 8 : 1;
      if (b.t && b.i == 0 && b.t->isF()) ty = b.t->ty;
      if (i + cw > n) cw = 1;
      for (int k = 1; k < cw; k++) { Byte c = o->b[lv[j] - o->base + i + k]; if (c.t != b.t || c.i != k) { cw = 1; break; } }
      w = j == 0 ? cw : std::min(w, cw);
    }
    if (allUndef) { i++; continue; }
    if (ty != Ty::BV && w * 8 != (ty == Ty::F32 ? 32 : 64)) ty = Ty::BV;
    cells.push_back({i, loadChoiceS(s, q, i, w * 8, ty)});
    i += w;
  }
  Obj *o = forWrite(s, d, n);
  for (uint64_t i = 0; i < n; i++) o->b[d - o->base + i] = Byte{nullptr, 0};
  for (auto &c : cells) for (int k = 0; k < c.second->w / 8; k++) o->b[d - o->base + c.first + k] = Byte{c.second, (uint8_t)k};
}

static void zeroOf(Type *t, Val &o) {
  if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) zeroOf(e, o);
  else if (auto *a = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < a->getNumElements(); i++) zeroOf(a->getElementType(), o);
  else if (auto *v = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < v->getNumElements(); i++) zeroOf(v->getElementType(), o);
  else { Ty ty = tyOf(t); if (ty == Ty::BV) o.push_back(cbv(0, wOf(t))); else o.push_back(cfl(ty, 0)); }
}
static Val constVal(State &s, const Constant *c) {
  Val r;
  if (auto *i = dyn_cast<ConstantInt>(c)) { r.push_back(cbv(i->getZExtValue(), wOf(c->getType()))); return r; }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    uint64_t b = f->getValueAPF().bitcastToAPInt().getZExtValue();
    r.push_back(mk(Op::Const, tyOf(c->getType()), wOf(c->getType()), b, 0, 0, 0, 0)); return r;
  }
  if (isa<ConstantPointerNull>(c)) { r.push_back(cbv(0, 64)); return r; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { zeroOf(c->getType(), r); return r; }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(s, al->getAliasee());
    auto it = gAddr.find(g);
    if (it == gAddr.end()) throw Unsupported{"global " + g->getName().str()};
    r.push_back(cbv(it->second, 64)); return r;
  }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < d->getNumElements(); i++) r.push_back(constScalar(s, d->getElementAsConstant(i)));
    return r;
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    for (auto &op : a->operands()) { Val v = constVal(s, cast<Constant>(op)); r.append(v.begin(), v.end()); }
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
      T b = constScalar(s, cast<Constant>(gep->getPointerOperand()));
      r.push_back(tBin(Op::Add, b, cbv(off.getSExtValue(), 64))); return r;
    }
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        T b = constScalar(s, ce->getOperand(0)); int w = wOf(ce->getType());
        r.push_back(b->w > w ? tExtract(b, 0, w) : tExt(Op::ZExt, castTo(b, Ty::BV), w));
        if (tyOf(ce->getType()) != Ty::BV) r[0] = fromBits(r[0], tyOf(ce->getType()));
        return r;
      }
      case Instruction::Add: r.push_back(tBin(Op::Add, constScalar(s, ce->getOperand(0)), constScalar(s, ce->getOperand(1)))); return r;
      case Instruction::Sub: r.push_back(tSub(constScalar(s, ce->getOperand(0)), constScalar(s, ce->getOperand(1)))); return r;
      default: break;
    }
  }
  std::string q; raw_string_ostream o(q); c->print(o);
  throw Unsupported{"constant " + o.str()};
}

static Val get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(s, c);
  Frame &f = s.st.back();
  return f.regs[f.fi->slot[v]];
}
static T get1(State &s, const Value *v) { return get(s, v)[0]; }
static void set(State &s, const Value *v, Val x) { Frame &f = s.st.back(); f.regs[f.fi->slot[v]] = std::move(x); }
static void set1(State &s, const Value *v, T t) { Val x; x.push_back(t); set(s, v, x); }

static void enter(State &s, const Function *f, const std::vector<Val> &args, const CallBase *site) {
  if (s.st.size() > 400) throw MemErr{"stack overflow"};
  Frame fr;
  fr.f = f; fr.fi = &fnInfo(f); fr.regs.resize(fr.fi->n); fr.site = site;
  for (size_t i = 0; i < args.size() && i < f->arg_size(); i++) fr.regs[fr.fi->slot[f->getArg(i)]] = args[i];
  fr.pc = f->getEntryBlock().begin();
  s.st.push_back(std::move(fr));
  if (!f->getName().starts_with("vp_")) funcs.insert(f->getName().str());
}

static std::string cstr(State &s, T p) {
  std::string r;
  if (!p->isc()) return "?";
  for (uint64_t a = p->c;; a++) {
    T t = loadScalar(s, a, Ty::BV, 8);
    if (!t->isc() || t->c == 0) break;
    r += (char)t->c;
    if (r.size() > 200) break;
  }
  return r;
}

// ---------------------------------------------------------------- intrinsics and externals
static T sat_(State &) { return nullptr; }

enum class CallRes { Done, Retry, End };

static CallRes endPath(State &s) { (void)s; return CallRes::End; }

struct MathE { const char *n; int k; uint64_t fn; Ty ty; };
static const MathE mathTab[] = {
  {"hypotf", 2, kHypot, Ty::F32}, {"hypot", 2, kHypot, Ty::F64}, {"acosf", 1, kAcos, Ty::F32}, {"acos", 1, kAcos, Ty::F64},
  {"asinf", 1, kAsin, Ty::F32}, {"asin", 1, kAsin, Ty::F64}, {"atanf", 1, kAtan, Ty::F32}, {"atan", 1, kAtan, Ty::F64},
  {"atan2f", 2, kAtan2, Ty::F32}, {"atan2", 2, kAtan2, Ty::F64}, {"sinf", 1, kSin, Ty::F32}, {"sin", 1, kSin, Ty::F64},
  {"cosf", 1, kCos, Ty::F32}, {"cos", 1, kCos, Ty::F64}, {"tanf", 1, kTan, Ty::F32}, {"tan", 1, kTan, Ty::F64},
  {"expf", 1, kExp, Ty::F32}, {"exp", 1, kExp, Ty::F64}, {"logf", 1, kLog, Ty::F32}, {"log", 1, kLog, Ty::F64},
  {"powf", 2, kPow, Ty::F32}, {"pow", 2, kPow, Ty::F64}, {"cbrtf", 1, kCbrt, Ty::F32}, {"cbrt", 1, kCbrt, Ty::F64},
};

static double cdbl(T t) { if (!t->isc()) throw Unsupported{"harness bound is not a constant"}; return asd(t->ty, t->c); }

static CallRes external(State &s, const CallBase *cb, const Function *f, std::vector<Val> &args) {
  std::string n = f->getName().str();
  auto ret = [&](T t) { set1(s, cb, t); return CallRes::Done; };
  // ---- harness primitives
  if (n.compare(0, 3, "vp_") == 0) {
    if (mergeLevel) throw MergeAbort{"primitive"};
    std::string name = args.empty() || !cb->getArgOperand(0)->getType()->isPointerTy() ? "" : cstr(s, args[0][0]);
    if (n == "vp_f32") return ret(newVar(s, name, Ty::F32, 32, cdbl(args[1][0]), cdbl(args[2][0]), false, 0, 0, true, nullptr, 0, 0));
    if (n == "vp_f64") return ret(newVar(s, name, Ty::F64, 64, cdbl(args[1][0]), cdbl(args[2][0]), false, 0, 0, true, nullptr, 0, 0));
    if (n == "vp_f32_any") return ret(newVar(s, name, Ty::F32, 32, -INFINITY, INFINITY, true, 0, 0, true, nullptr, 0, 0));
    if (n == "vp_f64_any") return ret(newVar(s, name, Ty::F64, 64, -INFINITY, INFINITY, true, 0, 0, true, nullptr, 0, 0));
    if (n == "vp_f64_near" || n == "vp_f32_near") {
      // vp_f64_near(name, lo, hi, base, dlo, dhi): any value in [lo,hi]; samples near base
      bool d = n == "vp_f64_near";
      return ret(newVar(s, name, d ? Ty::F64 : Ty::F32, d ? 64 : 32, cdbl(args[1][0]), cdbl(args[2][0]), false, 0, 0, true, args[3][0], cdbl(args[4][0]), cdbl(args[5][0])));
    }
    if (n == "vp_i32") return ret(newVar(s, name, Ty::BV, 32, 0, 0, false, sxt(args[1][0]->c, 32), sxt(args[2][0]->c, 32), true, nullptr, 0, 0));
    if (n == "vp_choice") {
      T v = newVar(s, name, Ty::BV, 32, 0, 0, false, 0, sxt(args[1][0]->c, 32) - 1, true, nullptr, 0, 0);
      if (!concretise(s, v)) return CallRes::End;
      return ret(v);
    }
    if (n == "vp_case") return ret(cbv((uint64_t)optCase, 32));
    if (n == "vp_native") return ret(cbv(0, 32));
    if (n == "vp_assume") {
      T c = args[0][0];
      if (c->w != 1) c = tNot(tCmp(Op::Eq, c, cbv(0, c->w)));
      if (c->isc()) return c->c ? CallRes::Done : CallRes::End;
      int d = s.k.decide(c);
      if (d == 1) return CallRes::Done;
      if (d == 0) return CallRes::End;
      s.k.filter(c, true);
      if (!s.k.hasWitness()) {
        std::shared_ptr<Assign> w;
        SR r = S->solve(s.k, {{c, true}}, optBrAbsMs * 3, optBrExMs * 3, 0, &w, 4);
        if (r == SR::Unsat) return CallRes::End;
        if (r == SR::Sat) s.k.extra.push_back(w);
      }
      s.k.assertLit(c, true);
      return CallRes::Done;
    }
    if (n == "vp_check") {
      T c = args[0][0];
      if (c->w != 1) c = tNot(tCmp(Op::Eq, c, cbv(0, c->w)));
      obligation(s, c, cstr(s, args[1][0]), nullptr, nullptr, 0, false);
      return CallRes::Done;
    }
    if (n == "vp_check_close32" || n == "vp_check_close64") {
      T a = args[0][0], b = args[1][0];
      T c = tOr(fCmp(Op::FEq, a, b), tAnd(fNaN(a), fNaN(b)));
      obligation(s, c, cstr(s, args[3][0]), a, b, cdbl(args[2][0]), false);
      return CallRes::Done;
    }
    if (n == "vp_reach") { reach[name] += s.k.hasWitness() ? 1 : 0; return CallRes::Done; }
    if (n == "vp_observe32" || n == "vp_observe64" || n == "vp_observe_i") { s.obs.push_back({name, args[1][0]}); return CallRes::Done; }
    if (n == "vp_is_true") {  // fork on a condition
      T c = args[0][0];
      if (c->w != 1) c = tNot(tCmp(Op::Eq, c, cbv(0, c->w)));
      bool v = branch(s, c);
      return ret(cbv(v, 32));
    }
    if (n == "vp_end") return CallRes::End;
    throw Unsupported{"unknown primitive " + n};
  }
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t") {
    T sz = args[0][0];
    if (mergeLevel) throw MergeAbort{"alloc"};
    if (!sz->isc()) { if (!concretise(s, sz)) return CallRes::End; }
    if (sz->c > (64u << 20)) { event(s, "huge-allocation"); return CallRes::End; }
    return ret(cbv(allocObj(s, sz->c, true), 64));
  }
  if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "free") {
    T p = args[0][0];
    if (!p->isc()) { if (!concretise(s, p)) return CallRes::End; }
    if (p->c == 0) return CallRes::Done;
    if (mergeLevel) throw MergeAbort{"free"};
    auto it = s.mem.find(p->c);
    if (it == s.mem.end() || !it->second->heap) { event(s, "bad-free"); return CallRes::End; }
    s.mem.erase(it);
    return CallRes::Done;
  }
  if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "_ZSt9terminatev") { event(s, n); return CallRes::End; }
  if (n.find("__throw_") != std::string::npos || n == "__cxa_throw" || n == "__cxa_pure_virtual" || n == "_ZSt25__throw_bad_function_callv") { event(s, "throw:" + demangle(n)); return CallRes::End; }
  if (n == "__cxa_atexit" || n == "__cxa_guard_acquire" || n == "__cxa_guard_release") return n == "__cxa_guard_acquire" ? ret(cbv(1, 32)) : n == "__cxa_atexit" ? ret(cbv(0, 32)) : CallRes::Done;
  for (auto &m : mathTab) if (n == m.n) return ret(m.k == 2 ? fUf(args[0][0], args[1][0], m.fn) : fUf(args[0][0], nullptr, m.fn));
  Ty ty = args.empty() || args[0].empty() ? Ty::BV : args[0][0]->ty;
  (void)ty;
  auto is = [&](const char *b) { return n == b || n == std::string(b) + "f"; };
  if (is("sqrt")) return ret(fUn(Op::FSqrt, args[0][0]));
  if (is("fabs")) return ret(fAbs(args[0][0]));
  if (is("ceil")) return ret(fUn(Op::FRound, args[0][0], 0));
  if (is("floor")) return ret(fUn(Op::FRound, args[0][0], 1));
  if (is("trunc")) return ret(fUn(Op::FRound, args[0][0], 2));
  if (is("round")) return ret(fUn(Op::FRound, args[0][0], 3));
  if (is("rint") || is("nearbyint")) return ret(fUn(Op::FRound, args[0][0], 4));
  if (is("fmod")) return ret(fBin(Op::FRem, args[0][0], args[1][0]));
  if (is("fmin")) return ret(fBin(Op::FMinN, args[0][0], args[1][0]));
  if (is("fmax")) return ret(fBin(Op::FMaxN, args[0][0], args[1][0]));
  if (n == "memcmp" || n == "bcmp") {
    T sz = args[2][0], p = args[0][0], q = args[1][0];
    if (!concretise(s, sz) || !concretise(s, p) || !concretise(s, q)) return CallRes::End;
    T eq = tru();
    for (uint64_t i = 0; i < sz->c; i++) eq = tAnd(eq, tCmp(Op::Eq, loadScalar(s, p->c + i, Ty::BV, 8), loadScalar(s, q->c + i, Ty::BV, 8)));
    return ret(tIte(eq, cbv(0, 32), cbv(1, 32)));
  }
  if (n == "strlen") { std::string x = cstr(s, args[0][0]); return ret(cbv(x.size(), 64)); }
  if (n == "memcpy" || n == "memmove" || n == "memset") {
    T d = args[0][0], sz = args[2][0];
    if (!concretise(s, d) || !concretise(s, sz)) return CallRes::End;
    if (n == "memset") { for (uint64_t i = 0; i < sz->c; i++) storeScalar(s, d->c + i, tExtract(args[1][0], 0, 8)); }
    else {
      T q = args[1][0];
      if (!concretise(s, q)) return CallRes::End;
      if (sz->c) { Obj *so = findObj(s, q->c, sz->c); if (!so) throw MemErr{"invalid read (memcpy)"};
        std::vector<Byte> tmp(so->b.begin() + (q->c - so->base), so->b.begin() + (q->c - so->base) + sz->c);
        Obj *o = forWrite(s, d->c, sz->c); std::copy(tmp.begin(), tmp.end(), o->b.begin() + (d->c - o->base)); }
    }
    return ret(d);
  }
  throw Unsupported{"external " + n};
}

static CallRes intrinsic(State &s, const IntrinsicInst *ii) {
  auto id = ii->getIntrinsicID();
  auto A = [&](int i) { return get(s, ii->getArgOperand(i)); };
  auto lanes1 = [&](auto fn) { Val a = A(0), r; for (T t : a) r.push_back(fn(t)); set(s, ii, r); return CallRes::Done; };
  auto lanes2 = [&](auto fn) { Val a = A(0), b = A(1), r; for (size_t i = 0; i < a.size(); i++) r.push_back(fn(a[i], b[i])); set(s, ii, r); return CallRes::Done; };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::invariant_end:
      return CallRes::Done;
    case Intrinsic::invariant_start: set1(s, ii, cbv(0, 64)); return CallRes::Done;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
      std::string k = "trap";
      if (id == Intrinsic::ubsantrap) k = "ubsan-" + std::to_string(cast<ConstantInt>(ii->getArgOperand(0))->getZExtValue());
      event(s, k); return CallRes::End;
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      T d = A(0)[0], q = A(1)[0], n = A(2)[0];
      if (!concretise(s, d) || !concretise(s, n)) return CallRes::End;
      q = s.k.rw(q);
      if (n->c && n->c <= 512 && choicePtr(s, q, n->c)) { copyChoice(s, d->c, q, n->c); return CallRes::Done; }
      if (!concretise(s, q)) return CallRes::End;
      if (n->c == 0) return CallRes::Done;
      Obj *so = findObj(s, q->c, n->c);
      if (!so) throw MemErr{"invalid read (memcpy)"};
      std::vector<Byte> tmp(so->b.begin() + (q->c - so->base), so->b.begin() + (q->c - so->base) + n->c);
      Obj *o = forWrite(s, d->c, n->c);
      std::copy(tmp.begin(), tmp.end(), o->b.begin() + (d->c - o->base));
      return CallRes::Done;
    }
    case Intrinsic::memset: {
      T d = A(0)[0], v = A(1)[0], n = A(2)[0];
      if (!concretise(s, d) || !concretise(s, n)) return CallRes::End;
      if (n->c == 0) return CallRes::Done;
      Obj *o = forWrite(s, d->c, n->c);
      for (uint64_t i = 0; i < n->c; i++) o->b[d->c - o->base + i] = Byte{v, 0};
      return CallRes::Done;
    }
    case Intrinsic::fabs: return lanes1([](T t) { return fAbs(t); });
    case Intrinsic::sqrt: return lanes1([](T t) { return fUn(Op::FSqrt, t); });
    case Intrinsic::ceil: return lanes1([](T t) { return fUn(Op::FRound, t, 0); });
    case Intrinsic::floor: return lanes1([](T t) { return fUn(Op::FRound, t, 1); });
    case Intrinsic::trunc: return lanes1([](T t) { return fUn(Op::FRound, t, 2); });
    case Intrinsic::round: return lanes1([](T t) { return fUn(Op::FRound, t, 3); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return lanes1([](T t) { return fUn(Op::FRound, t, 4); });
    case Intrinsic::sin: return lanes1([](T t) { return fUf(t, nullptr, kSin); });
    case Intrinsic::cos: return lanes1([](T t) { return fUf(t, nullptr, kCos); });
    case Intrinsic::exp: return lanes1([](T t) { return fUf(t, nullptr, kExp); });
    case Intrinsic::log: return lanes1([](T t) { return fUf(t, nullptr, kLog); });
    case Intrinsic::pow: return lanes2([](T a, T b) { return fUf(a, b, kPow); });
    case Intrinsic::maxnum: return lanes2([](T a, T b) { return fBin(Op::FMaxN, a, b); });
    case Intrinsic::minnum: return lanes2([](T a, T b) { return fBin(Op::FMinN, a, b); });
    case Intrinsic::copysign: return lanes2([](T a, T b) { uint64_t sg = 1ull << (a->w - 1); T neg = tNot(tCmp(Op::Eq, tBin(Op::And, toBits(b), cbv(sg, a->w)), cbv(0, a->w))); T m = fAbs(a); return tIte(neg, fNeg(m), m); });
    case Intrinsic::fmuladd: {
      Val a = A(0), b = A(1), c = A(2), r;
      for (size_t i = 0; i < a.size(); i++) r.push_back(fBin(Op::FAdd, fBin(Op::FMul, a[i], b[i]), c[i]));
      set(s, ii, r); return CallRes::Done;
    }
    case Intrinsic::umax: return lanes2([](T a, T b) { return tIte(tCmp(Op::Ult, a, b), b, a); });
    case Intrinsic::umin: return lanes2([](T a, T b) { return tIte(tCmp(Op::Ult, b, a), b, a); });
    case Intrinsic::smax: return lanes2([](T a, T b) { return tIte(tCmp(Op::Slt, a, b), b, a); });
    case Intrinsic::smin: return lanes2([](T a, T b) { return tIte(tCmp(Op::Slt, b, a), b, a); });
    case Intrinsic::abs: return lanes1([](T a) { return tIte(tCmp(Op::Slt, a, cbv(0, a->w)), tSub(cbv(0, a->w), a), a); });
    case Intrinsic::usub_sat: return lanes2([](T a, T b) { return tIte(tCmp(Op::Ult, a, b), cbv(0, a->w), tSub(a, b)); });
    case Intrinsic::uadd_sat: return lanes2([](T a, T b) { T r = tBin(Op::Add, a, b); return tIte(tCmp(Op::Ult, r, a), cbv(maskw(a->w), a->w), r); });
    case Intrinsic::expect: set(s, ii, A(0)); return CallRes::Done;
    case Intrinsic::is_constant: set1(s, ii, fls()); return CallRes::Done;
    case Intrinsic::objectsize: set1(s, ii, cbv(~0ull, wOf(ii->getType()))); return CallRes::Done;
    case Intrinsic::is_fpclass: {
      T x = A(0)[0]; uint64_t m = cast<ConstantInt>(ii->getArgOperand(1))->getZExtValue();
      T nan = fNaN(x), z = cfl(x->ty, 0), inf = cfl(x->ty, INFINITY);
      double mn = x->ty == Ty::F32 ? (double)FLT_MIN : DBL_MIN;
      T r = fls();
      if ((m & 3) == 3) r = tOr(r, nan); else if (m & 3) throw Unsupported{"is.fpclass snan/qnan"};
      auto both = [&](uint64_t nb, uint64_t pb, T posc, T negc) { if (m & nb) r = tOr(r, negc); if (m & pb) r = tOr(r, posc); };
      both(4, 512, fCmp(Op::FEq, x, inf), fCmp(Op::FEq, x, fNeg(inf)));
      both(8, 256, tAnd(fCmp(Op::FLe, cfl(x->ty, mn), x), fCmp(Op::FLt, x, inf)), tAnd(fCmp(Op::FLe, x, cfl(x->ty, -mn)), fCmp(Op::FLt, fNeg(inf), x)));
      both(16, 128, tAnd(fCmp(Op::FLt, z, x), fCmp(Op::FLt, x, cfl(x->ty, mn))), tAnd(fCmp(Op::FLt, x, z), fCmp(Op::FLt, cfl(x->ty, -mn), x)));
      if ((m & 96) == 96) r = tOr(r, fCmp(Op::FEq, x, z)); else if (m & 96) { T neg = tNot(tCmp(Op::Eq, tExtract(toBits(x), x->w - 1, 1), cbv(0, 1))); T ze = fCmp(Op::FEq, x, z); r = tOr(r, (m & 32) ? tAnd(ze, neg) : tAnd(ze, tNot(neg))); }
      set1(s, ii, r); return CallRes::Done;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      T a = A(0)[0], b = A(1)[0]; int w = a->w; T r, o;
      T z = cbv(0, w);
      switch (id) {
        case Intrinsic::uadd_with_overflow: r = tBin(Op::Add, a, b); o = tCmp(Op::Ult, r, a); break;
        case Intrinsic::usub_with_overflow: r = tSub(a, b); o = tCmp(Op::Ult, a, b); break;
        case Intrinsic::sadd_with_overflow: r = tBin(Op::Add, a, b); { T sa = tCmp(Op::Slt, a, z), sb = tCmp(Op::Slt, b, z), sr = tCmp(Op::Slt, r, z); o = tAnd(tNot(tBin(Op::Xor, sa, sb)), tBin(Op::Xor, sa, sr)); } break;
        case Intrinsic::ssub_with_overflow: r = tSub(a, b); { T sa = tCmp(Op::Slt, a, z), sb = tCmp(Op::Slt, b, z), sr = tCmp(Op::Slt, r, z); o = tAnd(tBin(Op::Xor, sa, sb), tBin(Op::Xor, sa, sr)); } break;
        default: {
          r = tBin(Op::Mul, a, b);
          if (w <= 32) {
            Op e = id == Intrinsic::umul_with_overflow ? Op::ZExt : Op::SExt;
            T wide = tBin(Op::Mul, tExt(e, a, 64), tExt(e, b, 64));
            o = tNot(tCmp(Op::Eq, wide, tExt(e, r, 64)));
          } else if (id == Intrinsic::umul_with_overflow && b->isc() && b->c) {
            o = tCmp(Op::Ult, cbv(maskw(w) / b->c, w), a);
          } else if (a->isc() && b->isc()) {
            __int128 p = (__int128)(int64_t)a->c * (int64_t)b->c; o = cbv(p != (__int128)(int64_t)(uint64_t)p, 1);
          } else throw Unsupported{"mul overflow 64"};
        }
      }
      Val v; v.push_back(r); v.push_back(o); set(s, ii, v); return CallRes::Done;
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
      T x = A(0)[0]; int w = wOf(ii->getType());
      bool sg = id == Intrinsic::fptosi_sat;
      double hi = std::ldexp(1.0, sg ? w - 1 : w), lo = sg ? -std::ldexp(1.0, w - 1) : 0;
      T r = fConv(sg ? Op::FToSI : Op::FToUI, x, Ty::BV, w);
      r = tIte(fCmp(Op::FLe, cfl(x->ty, hi), x), cbv(sg ? maskw(w) >> 1 : maskw(w), w), r);
      r = tIte(fCmp(Op::FLt, x, cfl(x->ty, lo)), cbv(sg ? 1ull << (w - 1) : 0, w), r);
      r = tIte(fNaN(x), cbv(0, w), r);
      set1(s, ii, r); return CallRes::Done;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      T x = A(0)[0];
      if (!concretise(s, x)) return CallRes::End;
      int w = x->w; uint64_t r = 0;
      if (id == Intrinsic::ctpop) r = __builtin_popcountll(x->c);
      else if (id == Intrinsic::ctlz) { r = 0; for (int i = w - 1; i >= 0 && !(x->c >> i & 1); i--) r++; }
      else { r = 0; for (int i = 0; i < w && !(x->c >> i & 1); i++) r++; }
      set1(s, ii, cbv(r, w)); return CallRes::Done;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      T a = A(0)[0], b = A(1)[0], c = A(2)[0];
      if (!concretise(s, c)) return CallRes::End;
      int w = a->w; int k = (int)(c->c % w);
      if (id == Intrinsic::fshr) k = (w - k) % w, k = k == 0 && c->c % w == 0 ? -1 : k;
      T r;
      if (id == Intrinsic::fshr && k == -1) r = b;
      else if (k == 0) r = a;
      else r = tConcat(tExtract(a, 0, w - k), tExtract(b, w - k, k));
      set1(s, ii, r); return CallRes::Done;
    }
    case Intrinsic::stacksave: set1(s, ii, cbv(0, 64)); return CallRes::Done;
    case Intrinsic::stackrestore: return CallRes::Done;
    case Intrinsic::vector_reduce_add: { Val a = A(0); T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tBin(Op::Add, r, a[i]); set1(s, ii, r); return CallRes::Done; }
    case Intrinsic::vector_reduce_or: { Val a = A(0); T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tBin(Op::Or, r, a[i]); set1(s, ii, r); return CallRes::Done; }
    case Intrinsic::vector_reduce_and: { Val a = A(0); T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tBin(Op::And, r, a[i]); set1(s, ii, r); return CallRes::Done; }
    case Intrinsic::vector_reduce_fadd: { T r = A(0)[0]; Val a = A(1); for (T x : a) r = fBin(Op::FAdd, r, x); set1(s, ii, r); return CallRes::Done; }
    default: throw Unsupported{"intrinsic " + ii->getCalledFunction()->getName().str()};
  }
}

// ---------------------------------------------------------------- instructions
static T icmp(CmpInst::Predicate p, T a, T b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return tCmp(Op::Eq, a, b);
    case CmpInst::ICMP_NE: return tNot(tCmp(Op::Eq, a, b));
    case CmpInst::ICMP_ULT: return tCmp(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return tCmp(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return tCmp(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return tCmp(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return tCmp(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return tCmp(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return tCmp(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return tCmp(Op::Sle, b, a);
    default: throw Unsupported{"icmp"};
  }
}
static T fcmp(CmpInst::Predicate p, T a, T b) {
  auto one = [&] { return tOr(fCmp(Op::FLt, a, b), fCmp(Op::FLt, b, a)); };
  auto ord = [&] { return tAnd(fCmp(Op::FEq, a, a), fCmp(Op::FEq, b, b)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return fls();
    case CmpInst::FCMP_TRUE: return tru();
    case CmpInst::FCMP_OEQ: return fCmp(Op::FEq, a, b);
    case CmpInst::FCMP_UNE: return tNot(fCmp(Op::FEq, a, b));
    case CmpInst::FCMP_OLT: return fCmp(Op::FLt, a, b);
    case CmpInst::FCMP_OGT: return fCmp(Op::FLt, b, a);
    case CmpInst::FCMP_OLE: return fCmp(Op::FLe, a, b);
    case CmpInst::FCMP_OGE: return fCmp(Op::FLe, b, a);
    case CmpInst::FCMP_UGE: return tNot(fCmp(Op::FLt, a, b));
    case CmpInst::FCMP_ULE: return tNot(fCmp(Op::FLt, b, a));
    case CmpInst::FCMP_UGT: return tNot(fCmp(Op::FLe, a, b));
    case CmpInst::FCMP_ULT: return tNot(fCmp(Op::FLe, b, a));
    case CmpInst::FCMP_ONE: return one();
    case CmpInst::FCMP_UEQ: return tNot(one());
    case CmpInst::FCMP_ORD: return ord();
    case CmpInst::FCMP_UNO: return tNot(ord());
    default: throw Unsupported{"fcmp"};
  }
}
static T binop(State &s, unsigned opc, T a, T b, bool &end) {
  switch (opc) {
    case Instruction::Add: return tBin(Op::Add, a, b);
    case Instruction::Sub: return tSub(a, b);
    case Instruction::Mul: return tBin(Op::Mul, a, b);
    case Instruction::And: return tBin(Op::And, a, b);
    case Instruction::Or: return tBin(Op::Or, a, b);
    case Instruction::Xor: return tBin(Op::Xor, a, b);
    case Instruction::Shl: return tBin(Op::Shl, a, b);
    case Instruction::LShr: return tBin(Op::LShr, a, b);
    case Instruction::AShr: return tBin(Op::AShr, a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      T z = tCmp(Op::Eq, b, cbv(0, b->w));
      if (!z->isc() || z->c) { if (branch(s, z)) { event(s, "division-by-zero"); end = true; return a; } }
      return tBin(opc == Instruction::UDiv ? Op::UDiv : opc == Instruction::SDiv ? Op::SDiv : opc == Instruction::URem ? Op::URem : Op::SRem, a, b);
    }
    case Instruction::FAdd: return fBin(Op::FAdd, a, b);
    case Instruction::FSub: return fSub(a, b);
    case Instruction::FMul: return fBin(Op::FMul, a, b);
    case Instruction::FDiv: return fBin(Op::FDiv, a, b);
    case Instruction::FRem: return fBin(Op::FRem, a, b);
    default: throw Unsupported{"binop"};
  }
}

static int flatIndex(Type *t, ArrayRef<unsigned> idx, Type *&out) {
  int o = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += flatN(st->getElementType(k)); t = st->getElementType(i); }
    else { auto *a = cast<ArrayType>(t); o += (int)i * flatN(a->getElementType()); t = a->getElementType(); }
  }
  out = t;
  return o;
}

static void jump(State &s, const BasicBlock *to) {
  Frame &f = s.st.back();
  const BasicBlock *from = f.pc->getParent();
  // phis read their inputs simultaneously
  std::vector<std::pair<const Value *, Val>> nv;
  auto it = to->begin();
  for (; auto *phi = dyn_cast<PHINode>(&*it); ++it) nv.push_back({phi, get(s, phi->getIncomingValueForBlock(from))});
  for (auto &p : nv) f.regs[f.fi->slot[p.first]] = p.second;
  f.prev = from;
  f.pc = it;
}

// ---------------------------------------------------------------- merging
// At an undecided conditional branch both sides are run up to the branch's
// immediate post-dominator (or the return of its function) and joined into
// one state whose differing cells are if-then-else terms. Nothing is lost:
// the joined state stands for exactly the two sides. Where a side does
// something that cannot be joined (allocation, a crash, an unresolved
// address, a harness primitive) the attempt is dropped and the path forks.
struct CfgInfo {
  DenseMap<const BasicBlock *, int> idx;
  std::vector<const BasicBlock *> bb;
  std::vector<std::vector<uint64_t>> pdom, dom;
  std::vector<int> ip;        // index of the immediate post-dominator, -1: function exit
  std::vector<bool> live;     // can reach a return
};
static std::map<const Function *, CfgInfo> gCfg;
static CfgInfo &cfgOf(const Function *f) {
  auto it = gCfg.find(f);
  if (it != gCfg.end()) return it->second;
  CfgInfo &c = gCfg[f];
  for (auto &b : *f) { c.idx[&b] = (int)c.bb.size(); c.bb.push_back(&b); }
  int n = (int)c.bb.size(), w = (n + 63) / 64;
  std::vector<std::vector<int>> succ(n), pred(n);
  for (int i = 0; i < n; i++) for (auto *t : successors(c.bb[i])) { int j = c.idx[t]; succ[i].push_back(j); pred[j].push_back(i); }
  c.live.assign(n, false);
  std::vector<int> q;
  for (int i = 0; i < n; i++) if (isa<ReturnInst>(c.bb[i]->getTerminator())) { c.live[i] = true; q.push_back(i); }
  while (!q.empty()) { int i = q.back(); q.pop_back(); for (int j : pred[i]) if (!c.live[j]) { c.live[j] = true; q.push_back(j); } }
  auto full = std::vector<uint64_t>(w, ~0ull);
  c.pdom.assign(n, full);
  auto setb = [&](std::vector<uint64_t> &v, int i) { v[i / 64] |= 1ull << (i % 64); };
  bool ch = true;
  for (int i = 0; i < n; i++) if (isa<ReturnInst>(c.bb[i]->getTerminator())) { c.pdom[i].assign(w, 0); setb(c.pdom[i], i); }
  while (ch) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) {
      if (!c.live[i] || isa<ReturnInst>(c.bb[i]->getTerminator())) continue;
      auto v = full;
      for (int j : succ[i]) if (c.live[j]) for (int k = 0; k < w; k++) v[k] &= c.pdom[j][k];
      setb(v, i);
      if (v != c.pdom[i]) { c.pdom[i] = v; ch = true; }
    }
  }
  auto cnt = [&](const std::vector<uint64_t> &v) { int r = 0; for (auto x : v) r += __builtin_popcountll(x); return r; };
  c.ip.assign(n, -1);
  for (int i = 0; i < n; i++) {
    if (!c.live[i]) continue;
    int best = -1, bc = -1;   // the nearest strict post-dominator has the most post-dominators itself
    for (int j = 0; j < n; j++) if (j != i && (c.pdom[i][j / 64] >> (j % 64) & 1) && c.live[j]) { int k = cnt(c.pdom[j]); if (k > bc) { bc = k; best = j; } }
    c.ip[i] = best;
  }
  c.dom.assign(n, full);
  c.dom[0].assign(w, 0); setb(c.dom[0], 0);
  ch = true;
  while (ch) {
    ch = false;
    for (int i = 1; i < n; i++) {
      auto v = full;
      for (int j : pred[i]) for (int k = 0; k < w; k++) v[k] &= c.dom[j][k];
      setb(v, i);
      if (v != c.dom[i]) { c.dom[i] = v; ch = true; }
    }
  }
  return c;
}
static bool dominates(CfgInfo &c, const BasicBlock *a, const BasicBlock *b) { int i = c.idx[a], j = c.idx[b]; return c.dom[j][i / 64] >> (i % 64) & 1; }

static bool mergeable(T a, T b, bool ptr) {
  if (a == b) return true;
  if (a->w != b->w) return false;
  if (a->isF() || b->isF()) return true;
  if (a->w <= 32) return true;
  if (optMergePtr && constLeaves(a) + constLeaves(b) <= 16) return true;
  if (ptr) return false;
  // integers may be joined, addresses not
  auto addr = [](T t) { return t->isc() ? t->c >= 0x1000 && t->c < (1ull << 40) : false; };
  return !addr(a) && !addr(b);
}
// A value nobody wrote: joining it with a written one keeps the written one
// (the unwritten one may be anything, and correct code never looks at it).
static bool isUndef(T t) {
  if (t->op == Op::Extract || t->op == Op::BitsToF || t->op == Op::FToBits) return isUndef(t->a[0]);
  if (t->op == Op::Concat) return isUndef(t->a[0]) && isUndef(t->a[1]);
  return t->op == Op::Var && !gVars[t->c].harness && gVars[t->c].name.compare(0, 6, "undef#") == 0;
}
static T mergeT(T c, T a, T b) {
  if (a == b) return a;
  if (!optStrictUndef) {
    if (isUndef(a)) return b;
    if (isUndef(b)) return a;
  }
  if (a->ty != b->ty) { Ty ty = a->isF() ? a->ty : b->ty; a = castTo(a, ty); b = castTo(b, ty); }
  return tIte(c, a, b);
}
struct BrStat { int ok = 0, fail = 0, unk = 0; };
static std::map<const Instruction *, BrStat> brStat;
static bool step(State &s);
static void jump(State &s, const BasicBlock *to);

static void runSide(State &x, const BasicBlock *target, size_t d0, uint64_t limit) {
  const Instruction *at = target ? target->getFirstNonPHI() : nullptr;
  while (true) {
    if (x.st.size() < d0) { if (target) throw MergeAbort{"returned"}; return; }
    if (target && x.st.size() == d0 && &*x.st.back().pc == at && x.st.back().prev) return;
    if (x.k.dead) return;
    if (x.ninstr > limit) throw MergeAbort{"budget"};
    if (!step(x)) throw MergeAbort{"end"};
  }
}
static bool tryMerge(State &s, const BranchInst &b, T cond) {
  if (mergeLevel >= optMergeDepth) return false;
  BrStat &bs = brStat[&b];
  if (bs.fail >= 3 && bs.fail > bs.ok) return false;
  const BasicBlock *bb = b.getParent();
  CfgInfo &c = cfgOf(bb->getParent());
  int i0 = c.idx[b.getSuccessor(0)], i1 = c.idx[b.getSuccessor(1)];
  if (!c.live[i0] || !c.live[i1]) return false;
  int ip = c.ip[c.idx[bb]];
  const BasicBlock *target = ip < 0 ? nullptr : c.bb[ip];
  size_t d0 = s.st.size();
  if (!target && (d0 < 2 || !s.st.back().site)) return false;
  struct Lv { Lv() { mergeLevel++; } ~Lv() { mergeLevel--; } };
  try {
    Lv lv;
    State A(s), B(s);
    uint64_t lim = s.ninstr + optMergeBudget;
    A.k.filter(cond, true); A.k.assertLit(cond, true);
    jump(A, b.getSuccessor(0)); runSide(A, target, d0, lim);
    B.k.filter(cond, false); B.k.assertLit(cond, false);
    jump(B, b.getSuccessor(1)); runSide(B, target, d0, lim);
    if (A.k.dead || B.k.dead) {
      if (A.k.dead && B.k.dead) { s.k.dead = true; return true; }
      s.k.note(cond, B.k.dead); s.k.invalidate();
      State &L = A.k.dead ? B : A;
      s.st.swap(L.st); s.mem.swap(L.mem); s.brk = L.brk; s.ninstr = L.ninstr;
      nPruned++;
      return true;
    }
    // join registers of the top frame
    Frame &fa = A.st.back(), &fb = B.st.back();
    if (fa.pc != fb.pc || fa.allocas != fb.allocas) throw MergeAbort{"shape"};
    const CallBase *site = target ? nullptr : s.st.back().site;
    for (auto &kv : fa.fi->slot) {
      Val &va = fa.regs[kv.second], &vb = fb.regs[kv.second];
      if (va == vb) continue;
      if (target) {
        auto *ins = dyn_cast<Instruction>(kv.first);
        if (!ins) throw MergeAbort{"arg"};
        if (!dominates(c, ins->getParent(), target)) continue;  // dead here
        if (ins->getParent() == target && !isa<PHINode>(ins)) continue;  // redefined before use
      } else if (kv.first != site && !isa<PHINode>(kv.first)) throw MergeAbort{"caller register"};
      if (va.size() != vb.size()) throw MergeAbort{"lanes"};
      bool ptr = kv.first->getType()->isPointerTy();
      for (size_t i = 0; i < va.size(); i++) {
        if (!mergeable(va[i], vb[i], ptr)) throw MergeAbort{"register"};
        va[i] = mergeT(cond, va[i], vb[i]);
      }
    }
    // join memory
    if (A.mem.size() != B.mem.size()) throw MergeAbort{"objects"};
    int cells = 0;
    auto ia = A.mem.begin(); auto ib = B.mem.begin();
    for (; ia != A.mem.end(); ++ia, ++ib) {
      if (ia->first != ib->first) throw MergeAbort{"objects"};
      if (ia->second == ib->second) continue;
      Obj *oa = ia->second.get(), *ob = ib->second.get();
      if (oa->size != ob->size) throw MergeAbort{"objects"};
      Obj *wr = nullptr;
      auto writable = [&]() { if (!wr) { if (ia->second.use_count() > 1) ia->second = std::make_shared<Obj>(*ia->second); wr = ia->second.get(); } return wr; };
      for (uint64_t i = 0; i < oa->size;) {
        Byte x = oa->b[i], y = ob->b[i];
        if (x.t == y.t && x.i == y.i) { i++; continue; }
        if (!x.t) { writable()->b[i] = y; oa = wr; i++; continue; }
        if (!y.t) { i++; continue; }
        // whole cells of equal width, else the widest common chunk
        auto whole = [&](Obj *o, uint64_t at, int &w) { T t = o->b[at].t; if (!t || o->b[at].i != 0) return false; w = t->w / 8; if (at + w > o->size) return false; for (int k = 0; k < w; k++) if (o->b[at + k].t != t || o->b[at + k].i != k) return false; return true; };
        int wa = 0, wb = 0;
        T ta, tb; int w;
        if (whole(oa, i, wa) && whole(ob, i, wb) && wa == wb) { ta = x.t; tb = y.t; w = wa; }
        else {
          w = 0;
          for (int k : {8, 4, 2, 1}) {
            if (i % k || i + k > oa->size) continue;
            auto ok = [&](Obj *o) { T t = o->b[i].t; for (int q = 0; q < k; q++) if (!o->b[i + q].t) return false; (void)t; return true; };
            if (k == 8 && !((wa == 8 && x.t->isF()) || (wb == 8 && y.t->isF()))) continue;
            if (ok(oa) && ok(ob)) { w = k; break; }
          }
          if (!w) throw MergeAbort{"cells"};
          ta = loadScalar(A, oa->base + i, Ty::BV, w * 8); tb = loadScalar(B, ob->base + i, Ty::BV, w * 8);
        }
        if (ta != tb) {
          if (!mergeable(ta, tb, false)) throw MergeAbort{"memory"};
          if (++cells > 64) throw MergeAbort{"too many cells"};
          T m = mergeT(cond, ta, tb);
          writable(); oa = wr;
          for (int k = 0; k < w; k++) wr->b[i + k] = Byte{m, (uint8_t)k};
        }
        i += w;
      }
    }
    // keep the parent's knowledge
    s.st.swap(A.st); s.mem.swap(A.mem);
    s.brk = std::max(A.brk, B.brk);
    s.ninstr = std::max(A.ninstr, B.ninstr);
    if (target) s.st.back().prev = bb;
    bs.ok++; nMerges++;
    return true;
  } catch (MergeAbort &e) {
    bs.fail++; nMergeFail++;
    if (getenv("INKSYM_MERGE")) fprintf(stderr, "merge abort (%s) at %s\n", e.why, whereOf(s).substr(0, 120).c_str());
  } catch (MemErr &e) { bs.fail++; nMergeFail++; }
  catch (PathUndecided &e) { bs.fail++; nMergeFail++; }
  return false;
}

// Executes one instruction; returns false when the path ends.
static bool step(State &s) {
  Frame &f = s.st.back();
  const Instruction &I = *f.pc;
  s.ninstr++; nInstr++;
  auto next = [&] { ++s.st.back().pc; return true; };
  switch (I.getOpcode()) {
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(I);
      uint64_t n = DL->getTypeAllocSize(a.getAllocatedType());
      if (a.isArrayAllocation()) { T c = get1(s, a.getArraySize()); if (!concretise(s, c)) return false; n *= c->c; }
      uint64_t p = allocObj(s, n, false);
      s.st.back().allocas.push_back(p);
      set1(s, &I, cbv(p, 64));
      return next();
    }
    case Instruction::Load: {
      T p = get1(s, I.getOperand(0));
      if (!p->isc()) {
        p = s.k.rw(p);
        if (choicePtr(s, p, DL->getTypeStoreSize(I.getType()))) { Val v; loadChoice(s, p, I.getType(), v); set(s, &I, v); return next(); }
      }
      if (!p->isc() && !concretise(s, p)) return false;
      Val v; loadInto(s, p->c, I.getType(), v); set(s, &I, v);
      return next();
    }
    case Instruction::Store: {
      T p = get1(s, I.getOperand(1));
      if (!p->isc() && !concretise(s, p)) return false;
      if (isa<UndefValue>(I.getOperand(0))) { // leave bytes undefined
        uint64_t n = DL->getTypeStoreSize(I.getOperand(0)->getType());
        Obj *o = forWrite(s, p->c, n);
        for (uint64_t i = 0; i < n; i++) o->b[p->c - o->base + i] = Byte{nullptr, 0};
        return next();
      }
      Val v = get(s, I.getOperand(0)); int i = 0; storeFrom(s, p->c, I.getOperand(0)->getType(), v, i);
      return next();
    }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(I);
      T b = get1(s, g.getPointerOperand());
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) {
          uint64_t k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
          b = tBin(Op::Add, b, cbv(DL->getStructLayout(st)->getElementOffset(k), 64));
        } else {
          T i = get1(s, gi.getOperand());
          i = i->w < 64 ? tExt(Op::SExt, i, 64) : i;
          b = tBin(Op::Add, b, tBin(Op::Mul, i, cbv(gi.getSequentialElementStride(*DL), 64)));
        }
      }
      set1(s, &I, b);
      return next();
    }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) { jump(s, b.getSuccessor(0)); return true; }
      T bc = get1(s, b.getCondition());
      if (!bc->isc() && s.k.decideHard(bc) < 0 && optMergeDepth > 0) {
        CfgInfo &cf = cfgOf(b.getFunction());
        bool l0 = cf.live[cf.idx[b.getSuccessor(0)]], l1 = cf.live[cf.idx[b.getSuccessor(1)]];
        if (l0 && l1) {
          BrStat &bs = brStat[&b];
          bool ht = false, hf = false;
          const uint64_t *p = poolOf(bc);
          for (int i = 0; i < kPool; i++) if (s.k.alive.test(i)) { if (p[i]) ht = true; else hf = true; }
          bool can = !(bs.fail >= 3 && bs.fail > bs.ok);
          if (can && !mergeLevel && !(ht && hf) && bs.unk < 2) {
            // a side without witnesses: prune it if that is cheap
            std::shared_ptr<Assign> w;
            bool side = !ht;
            nBrQ++;
            SR r = S->arithCount({{bc, side}}) > optBrArith ? SR::Unknown : S->solve(s.k, {{bc, side}}, 100, 0, 0, &w, 0);
            if (r == SR::Unsat) { nPruned++; s.k.note(bc, !side); s.k.invalidate(); }
            else bs.unk++;
          }
          if (can && s.k.decideHard(bc) < 0 && tryMerge(s, b, bc)) return true;
        } else if (mergeLevel) {
          // one side only ends in a crash: continue if that side is impossible
          std::shared_ptr<Assign> w;
          nBrQ++;
          SR r = S->solve(s.k, {{bc, l0 ? false : true}}, optBrAbsMs, 0, 0, &w, 0);
          if (r == SR::Unsat) { nPruned++; s.k.note(bc, l0); s.k.invalidate(); }
        }
      }
      bool v = branch(s, bc);
      jump(s, b.getSuccessor(v ? 0 : 1));
      return true;
    }
    case Instruction::Switch: {
      auto &sw = cast<SwitchInst>(I);
      T c = get1(s, sw.getCondition());
      for (auto &k : sw.cases()) {
        if (branch(s, tCmp(Op::Eq, c, cbv(k.getCaseValue()->getZExtValue(), c->w)))) { jump(s, k.getCaseSuccessor()); return true; }
      }
      jump(s, sw.getDefaultDest());
      return true;
    }
    case Instruction::Ret: {
      Val r;
      if (I.getNumOperands()) r = get(s, I.getOperand(0));
      Frame &fr = s.st.back();
      for (auto a : fr.allocas) s.mem.erase(a);
      const CallBase *site = fr.site;
      s.st.pop_back();
      if (s.st.empty()) return false;
      if (site) {
        if (!site->getType()->isVoidTy()) set(s, site, r);
        if (auto *inv = dyn_cast<InvokeInst>(site)) jump(s, inv->getNormalDest());
        else ++s.st.back().pc;
      }
      return true;
    }
    case Instruction::Unreachable: event(s, "unreachable"); return false;
    case Instruction::Call: case Instruction::Invoke: {
      auto *cb = cast<CallBase>(&I);
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        CallRes r = intrinsic(s, ii);
        if (r == CallRes::End) return false;
        return next();
      }
      const Function *callee = cb->getCalledFunction();
      if (!callee) {
        if (cb->isInlineAsm()) {
          // clang's "empty" optimisation barriers only
          if (cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) { if (!cb->getType()->isVoidTy()) { Val v = get(s, cb->getArgOperand(0)); set(s, cb, v); } return next(); }
          throw Unsupported{"inline asm"};
        }
        T p = get1(s, cb->getCalledOperand());
        if (!p->isc() && !concretise(s, p)) return false;
        auto it = gFnAt.find(p->c);
        if (it == gFnAt.end()) { event(s, "bad-indirect-call"); return false; }
        callee = it->second;
      }
      std::vector<Val> args;
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (cb->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back({}); continue; }
        Val v = get(s, cb->getArgOperand(i));
        if (cb->isByValArgument(i)) {
          uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
          uint64_t p = allocObj(s, n, false);
          s.st.back().allocas.push_back(p);
          T q = v[0];
          if (!q->isc() && !concretise(s, q)) return false;
          Obj *so = findObj(s, q->c, n);
          if (!so) throw MemErr{"invalid byval read"};
          std::vector<Byte> tmp(so->b.begin() + (q->c - so->base), so->b.begin() + (q->c - so->base) + n);
          Obj *o = forWrite(s, p, n);
          std::copy(tmp.begin(), tmp.end(), o->b.begin());
          v[0] = cbv(p, 64);
        }
        args.push_back(v);
      }
      if (callee->isDeclaration() || callee->getName().starts_with("vp_")) {
        if (!callee->isDeclaration()) { enter(s, callee, args, cb); return true; }
        CallRes r = external(s, cb, callee, args);
        if (r == CallRes::End) return false;
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { jump(s, inv->getNormalDest()); return true; }
        return next();
      }
      enter(s, callee, args, cb);
      return true;
    }
    case Instruction::Select: {
      Val c = get(s, I.getOperand(0)), a = get(s, I.getOperand(1)), b = get(s, I.getOperand(2)), r;
      for (size_t i = 0; i < a.size(); i++) {
        T cc = c.size() == 1 ? c[0] : c[i];
        int d = cc->isc() ? (int)cc->c : s.k.decide(cc);
        r.push_back(d == 1 ? a[i] : d == 0 ? b[i] : mergeT(cc, a[i], b[i]));
      }
      set(s, &I, r);
      return next();
    }
    case Instruction::ICmp: case Instruction::FCmp: {
      auto &c = cast<CmpInst>(I);
      Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1)), r;
      for (size_t i = 0; i < a.size(); i++) r.push_back(I.getOpcode() == Instruction::ICmp ? icmp(c.getPredicate(), a[i], b[i]) : fcmp(c.getPredicate(), a[i], b[i]));
      set(s, &I, r);
      return next();
    }
    case Instruction::FNeg: { Val a = get(s, I.getOperand(0)), r; for (T t : a) r.push_back(fNeg(t)); set(s, &I, r); return next(); }
    case Instruction::Freeze: set(s, &I, get(s, I.getOperand(0))); return next();
    case Instruction::Trunc: { Val a = get(s, I.getOperand(0)), r; int w = wOf(I.getType()->getScalarType()); for (T t : a) r.push_back(tExtract(t, 0, w)); set(s, &I, r); return next(); }
    case Instruction::ZExt: case Instruction::SExt: { Val a = get(s, I.getOperand(0)), r; int w = wOf(I.getType()->getScalarType()); for (T t : a) r.push_back(tExt(I.getOpcode() == Instruction::ZExt ? Op::ZExt : Op::SExt, t, w)); set(s, &I, r); return next(); }
    case Instruction::FPTrunc: { Val a = get(s, I.getOperand(0)), r; for (T t : a) r.push_back(fConv(Op::FTrn, t, Ty::F32, 32)); set(s, &I, r); return next(); }
    case Instruction::FPExt: { Val a = get(s, I.getOperand(0)), r; for (T t : a) r.push_back(fConv(Op::FExt, t, Ty::F64, 64)); set(s, &I, r); return next(); }
    case Instruction::FPToSI: case Instruction::FPToUI: { Val a = get(s, I.getOperand(0)), r; int w = wOf(I.getType()->getScalarType()); for (T t : a) r.push_back(fConv(I.getOpcode() == Instruction::FPToSI ? Op::FToSI : Op::FToUI, t, Ty::BV, w)); set(s, &I, r); return next(); }
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a = get(s, I.getOperand(0)), r; Ty ty = tyOf(I.getType()->getScalarType()); int w = wOf(I.getType()->getScalarType()); for (T t : a) r.push_back(fConv(I.getOpcode() == Instruction::SIToFP ? Op::SIToF : Op::UIToF, t, ty, w)); set(s, &I, r); return next(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { T a = get1(s, I.getOperand(0)); int w = wOf(I.getType()); set1(s, &I, a->w > w ? tExtract(a, 0, w) : tExt(Op::ZExt, a, w)); return next(); }
    case Instruction::BitCast: {
      Val a = get(s, I.getOperand(0)), r;
      Type *d = I.getType();
      int dn = flatN(d);
      int dw = wOf(d->getScalarType()); Ty dt = tyOf(d->getScalarType());
      if ((int)a.size() == dn) { for (T t : a) r.push_back(castTo(t, dt)); set(s, &I, r); return next(); }
      if (dn == 1) { T acc = nullptr; for (T t : a) acc = acc ? tConcat(toBits(t), acc) : toBits(t); r.push_back(castTo(acc, dt)); set(s, &I, r); return next(); }
      if (a.size() == 1) { T b = toBits(a[0]); for (int i = 0; i < dn; i++) r.push_back(castTo(tExtract(b, i * dw, dw), dt)); set(s, &I, r); return next(); }
      // general vector to vector
      { int sw = a[0]->w; for (int i = 0; i < dn; i++) { if (dw > sw) { T acc = nullptr; for (int k = 0; k < dw / sw; k++) { T t = toBits(a[i * (dw / sw) + k]); acc = acc ? tConcat(t, acc) : t; } r.push_back(castTo(acc, dt)); } else { T t = toBits(a[i * dw / sw]); r.push_back(castTo(tExtract(t, (i * dw) % sw, dw), dt)); } } set(s, &I, r); return next(); }
    }
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I); Type *o; int k = flatIndex(e.getAggregateOperand()->getType(), e.getIndices(), o);
      Val a = get(s, e.getAggregateOperand()), r; for (int i = 0; i < flatN(o); i++) r.push_back(a[k + i]); set(s, &I, r); return next();
    }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I); Type *o; int k = flatIndex(e.getType(), e.getIndices(), o);
      Val a = get(s, e.getAggregateOperand()), v = get(s, e.getInsertedValueOperand()); for (size_t i = 0; i < v.size(); i++) a[k + i] = v[i]; set(s, &I, a); return next();
    }
    case Instruction::ExtractElement: {
      Val a = get(s, I.getOperand(0)); T i = get1(s, I.getOperand(1)); if (!i->isc() && !concretise(s, i)) return false;
      set1(s, &I, a[i->c < a.size() ? i->c : 0]); return next();
    }
    case Instruction::InsertElement: {
      Val a = get(s, I.getOperand(0)); T i = get1(s, I.getOperand(2)); if (!i->isc() && !concretise(s, i)) return false;
      a[i->c] = get1(s, I.getOperand(1)); set(s, &I, a); return next();
    }
    case Instruction::ShuffleVector: {
      auto &sv = cast<ShuffleVectorInst>(I); Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1)), r;
      for (int m : sv.getShuffleMask()) r.push_back(m < 0 ? a[0] : m < (int)a.size() ? a[m] : b[m - a.size()]);
      set(s, &I, r); return next();
    }
    default: break;
  }
  if (I.isBinaryOp()) {
    Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1)), r;
    bool end = false;
    for (size_t i = 0; i < a.size(); i++) { r.push_back(binop(s, I.getOpcode(), a[i], b[i], end)); if (end) return false; }
    set(s, &I, r);
    return next();
  }
  throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
}

// ---------------------------------------------------------------- driver
static void initConst(State &s, Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    uint64_t n = DL->getTypeStoreSize(t);
    for (uint64_t i = 0; i < n; i++) o->b[off + i] = Byte{cbv(0, 8), 0};
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(s, o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(s, o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeStoreSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(s, o, off + i * es, cd->getElementAsConstant(i)); return; }
  Val v = constVal(s, c);
  uint64_t p = off;
  for (T x : v) { if (x->w % 8) x = tExt(Op::ZExt, x, (x->w + 7) / 8 * 8); for (int i = 0; i < x->w / 8; i++) o->b[p + i] = Byte{x, (uint8_t)i}; p += x->w / 8; }
}

static bool runState(State *s) {  // runs until the path ends
  while (true) {
    if (Solver::now() - tStart > optDeadline) { incomplete = "time budget reached"; return false; }
    for (int i = 0; i < 2000; i++) {
      try {
        if (s->ninstr > optMaxInstr) { event(*s, "step-budget"); return true; }
        if (s->k.dead) { nPruned++; return true; }
        if (!step(*s)) return true;
      } catch (PathUndecided &e) { if (s->k.dead) { nPruned++; return true; } addUnd("crash:unresolved", e.what + "; " + whereOf(*s)); if (getenv("INKSYM_PC")) { for (auto &l : s->k.lits) fprintf(stderr, "     %d #%u %s\n", l.second, l.first->id, show(l.first, 4).c_str()); exit(1); } return true; }
      catch (MemErr &e) { event(*s, e.what); return true; }
    }
  }
}

static std::string jesc(const std::string &s) {
  std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}

static int mainReal() {
  LLVMContext C; SMDiagnostic err;
  M = parseIRFile(optBc, err, C);
  if (!M) { err.print("inksym", errs()); return 2; }
  DL = &M->getDataLayout();
  Solver solver; S = &solver;
  tStart = Solver::now();
  auto *s0 = new State();
  std::string fatal;
  try {
    uint64_t fa = 0x1000;
    for (auto &f : *M) { gAddr[&f] = fa; gFnAt[fa] = &f; fa += 16; }
    s0->brk = (fa + 0xffff) & ~0xffffull;
    for (auto &g : M->globals()) {
      if (g.getName().starts_with("llvm.")) continue;
      uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
      uint64_t p = allocObj(*s0, std::max<uint64_t>(n, 1), false);
      gAddr[&g] = p;
    }
    for (auto &g : M->globals()) {
      if (g.getName().starts_with("llvm.") || !g.hasInitializer()) continue;
      ObjP &o = s0->mem[gAddr[&g]];
      try { initConst(*s0, o.get(), 0, g.getInitializer()); } catch (Unsupported &) { if (!g.getName().starts_with("_ZT")) throw; }
      if (g.isConstant()) { o->ro = true; }
    }
    for (auto &g : M->globals()) { auto it = gAddr.find(&g); if (it == gAddr.end()) continue; auto m = s0->mem.find(it->second); if (m != s0->mem.end() && m->second->ro) { gRo[m->first] = m->second; s0->mem.erase(m); } }
    // constructors
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto &op : ca->operands()) {
          auto *fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1));
          if (!fn) continue;
          enter(*s0, fn, {}, nullptr);
          runState(s0);
          s0->st.clear();
        }
    }
    Function *h = M->getFunction(optEntry);
    if (!h) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
    s0->ninstr = 0; funcs.clear();
    enter(*s0, h, {}, nullptr);
    work.push_back(s0);
    while (!work.empty() && !stopAll) {
      State *s = work.back(); work.pop_back();
      nStates++;
      feasibleDead = false;
      if (!runState(s)) { delete s; break; }
      nPaths++;
      if (s->ghost && !s->k.hasWitness()) nGhostPaths++;
      if (s->st.empty() && s->k.hasWitness() && wits.size() < optMaxWits) {
        std::shared_ptr<Assign> a;
        if (!s->k.extra.empty()) a = s->k.extra[0];
        else for (int i = 0; i < kPool && !a; i++) if (s->k.alive.test(i)) a = slotAssign(i);
        Wit w; w.vals = valsOf(*s, *a);
        for (auto &o : s->obs) w.obs.push_back({o.name, bitsStr(o.t->ty, o.t->w, a->eval(o.t))});
        wits.push_back(w);
      }
      if (optVerbose && nPaths % 200 == 0) fprintf(stderr, "paths %llu work %zu forks %llu queries %llu solver %.1fs terms %zu t=%.1f\n", (unsigned long long)nPaths, work.size(), (unsigned long long)nForks, (unsigned long long)S->st.queries, S->st.secs, gTermCount, Solver::now() - tStart);
      delete s;
      if (nPaths > optMaxPaths) { incomplete = "path budget reached"; break; }
      if (cexs.size() >= 12) { incomplete = "stopped after enough counterexamples"; break; }
    }
  } catch (Unsupported &u) { fatal = u.what; }
  if (!fatal.empty()) incomplete = "unsupported: " + fatal;
  std::ostringstream o;
  o << "{\n \"case\": " << optCase << ",\n \"complete\": " << (incomplete.empty() ? "true" : "false") << ",\n \"incomplete\": \"" << jesc(incomplete) << "\",\n";
  o << " \"pending\": " << work.size() << ",\n";
  o << " \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"instructions\": " << nInstr << ", \"pruned\": " << nPruned << ", \"unknown_branches\": " << nGhost << ", \"witnessless_paths\": " << nGhostPaths << ", \"merges\": " << nMerges << ", \"merge_failures\": " << nMergeFail << ", \"terms\": " << gTermCount << ",\n";
  o << " \"queries\": " << S->st.queries << ", \"unsat\": " << S->st.unsat << ", \"sat\": " << S->st.sat << ", \"unknown\": " << S->st.unknown << ", \"exact_queries\": " << S->st.exactQ << ", \"abstract_queries\": " << S->st.abstractQ << ", \"solver_s\": " << S->st.secs << ", \"wall_s\": " << Solver::now() - tStart << ",\n";
  o << " \"obligations\": {";
  bool first = true;
  for (auto &p : obl) { o << (first ? "" : ",") << "\n  \"" << jesc(p.first) << "\": [" << p.second[0] << "," << p.second[1] << "," << p.second[2] << "," << p.second[3] << "]"; first = false; }
  o << "},\n \"reach\": {"; first = true;
  for (auto &p : reach) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
  o << "},\n \"functions\": ["; first = true;
  for (auto &f : funcs) { o << (first ? "" : ",") << "\"" << jesc(demangle(f)) << "\""; first = false; }
  o << "],\n \"undecided\": ["; first = true;
  for (auto &p : und) { o << (first ? "" : ",") << "\n  {\"label\": \"" << jesc(p.first) << "\", \"count\": " << undCount[p.first] << ", \"why\": \"" << jesc(p.second.why) << "\"}"; first = false; }
  o << "],\n \"cex\": ["; first = true;
  auto vals = [&](const std::vector<std::pair<std::string, std::string>> &v) { std::string r = "{"; bool f = true; for (auto &p : v) { r += (f ? "\"" : ", \"") + jesc(p.first) + "\": \"" + jesc(p.second) + "\""; f = false; } return r + "}"; };
  for (auto &c : cexs) { o << (first ? "" : ",") << "\n  {\"label\": \"" << jesc(c.label) << "\", \"kind\": \"" << jesc(c.kind) << "\", \"where\": \"" << jesc(c.where) << "\", \"magnitude\": \"" << c.mag << "\", \"values\": " << vals(c.vals) << "}"; first = false; }
  o << "],\n \"witnesses\": ["; first = true;
  for (auto &w : wits) {
    o << (first ? "" : ",") << "\n  {\"values\": " << vals(w.vals) << ", \"observed\": [";
    bool f2 = true; for (auto &p : w.obs) { o << (f2 ? "" : ", ") << "[\"" << jesc(p.first) << "\", \"" << jesc(p.second) << "\"]"; f2 = false; }
    o << "]}"; first = false; }
  o << "]\n}\n";
  if (optOut.empty()) std::cout << o.str(); else { std::ofstream f(optOut); f << o.str(); }
  fflush(stdout);
  std::cout.flush();
  _exit(0);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--case") optCase = atoi(nx().c_str());
    else if (a == "--out") optOut = nx();
    else if (a == "--entry") optEntry = nx();
    else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--deadline") optDeadline = atof(nx().c_str());
    else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--br-abs-ms") optBrAbsMs = atoi(nx().c_str());
    else if (a == "--br-ex-ms") optBrExMs = atoi(nx().c_str());
    else if (a == "--br-tries") optBrTries = atoi(nx().c_str());
    else if (a == "--ob-abs-ms") optObAbsMs = atoi(nx().c_str());
    else if (a == "--ob-ex-ms") optObExMs = atoi(nx().c_str());
    else if (a == "--ob-tries") optObTries = atoi(nx().c_str());
    else if (a == "--exact-limit") optExactLimit = atoi(nx().c_str());
    else if (a == "--split") optSplit = atoi(nx().c_str());
    else if (a == "--max-cex") optMaxCex = atoi(nx().c_str());
    else if (a == "--merge-depth") optMergeDepth = atoi(nx().c_str());
    else if (a == "--merge-ptr") optMergePtr = true;
    else if (a == "--strict-undef") optStrictUndef = true;
    else if (a == "--merge-budget") optMergeBudget = atoi(nx().c_str());
    else if (a == "--br-arith") optBrArith = atoi(nx().c_str());
    else if (a == "--br-budget") optBrBudget = atof(nx().c_str());
    else if (a == "--max-wits") optMaxWits = atoi(nx().c_str());
    else if (a == "--zero-sign-agnostic") gZeroSign = false;
    else if (a == "-v") optVerbose = true;
    else optBc = a;
  }
  // deep recursion over terms: run on a large stack
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t th; static int rc = 0;
  pthread_create(&th, &at, [](void *) -> void * { rc = mainReal(); return nullptr; }, nullptr);
  pthread_join(th, nullptr);
  return rc;
}
