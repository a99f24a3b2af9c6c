// llsym: symbolic executor for LLVM IR (C subset as produced by clang -O0).
//   llsym module.bc --entry f [--mode real|mix] [--jobs N] [--time S] [--steps N] [--out FILE] ...
// Integers and doubles are exact: concrete values, or polynomials / rational functions over solver
// variables.  z3 decides every branch and assertion that arithmetic normalisation does not settle.
#include "num.h"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <set>
#include <unordered_set>
#include <memory>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
using llvm::dyn_cast; using llvm::isa; using llvm::cast;

// ---------------------------------------------------------------- options & shared state
static bool MODE_REAL = true;          // real: exact rationals everywhere; mix: concrete doubles are IEEE
static int JOBS = 8; static double TIME_LIMIT = 600; static u64 STEP_LIMIT = 3000000; static int MAXVIOL = 12;
static int QT1 = 3000, QT2 = 20000;    // solver timeouts (ms)
static std::string OUTF = "/dev/stdout"; static bool ALLOW_EXIT = false; static bool VERBOSE = false; static bool CHECK_LEAKS = false;
static int OUTFD = -1;
static double T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Shared {
  std::atomic<int> active, viol, stop, err, nreach;
  std::atomic<u64> paths, pathsAssume, pathsLimit, pathsEnd, steps, forks, queries, qsat, qunsat, qunk, solverUs, asserts, assertsNorm, assertsZ3,
      assertsUnk, cacheHits, timeouts, ivals;
  std::atomic<u32> fnHit[8192];
  char reach[256][64]; std::atomic<u64> reachCnt[256];
  char violKey[256][160]; std::atomic<int> nviolKey; std::atomic<int> lock;
  std::atomic<int> nsamples;
};
static Shared *SH;
static void lockSh() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } }
static void unlockSh() { SH->lock = 0; }
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static void emit(const std::string &line) { std::string l = line + "\n"; if (write(OUTFD, l.data(), l.size()) < 0) {} }
[[noreturn]] static void engineError(const std::string &m);

// ---------------------------------------------------------------- values
enum VK : u8 { UNDEF, CONC, SI, SB, SR, RATV, AGG };
enum AOp : u8 { LT, LE, EQ, NE };
struct SymI : RC { Poly p; };
struct SymB : RC { Poly p; AOp op; };
struct SymR : RC { Rat r; };
struct RatC : RC { mpq_class q; };
struct Val;
struct AggV : RC { std::vector<Val> v; };
struct Val {
  VK k = UNDEF; u64 u = 0; Ref<RC> p;
  Val() {}
  static Val c(u64 x) { Val v; v.k = CONC; v.u = x; return v; }
  static Val d(double x) { Val v; v.k = CONC; memcpy(&v.u, &x, 8); return v; }
  double dbl() const { double x; memcpy(&x, &u, 8); return x; }
};
static inline u64 maskw(u64 x, unsigned w) { return w >= 64 ? x : x & ((1ULL << w) - 1); }
static inline i64 sx(u64 x, unsigned w) { if (w >= 64) return (i64)x; u64 m = 1ULL << (w - 1); x = maskw(x, w); return (i64)((x ^ m) - m); }
static mpq_class mpqOfI64(i64 v) { mpq_class q; mpz_class z; mpz_set_si(z.get_mpz_t(), v); q = z; return q; }
static bool isIntQ(const mpq_class &q) { return q.get_den() == 1; }

// ---------------------------------------------------------------- solver variables
struct VarInfo { std::string name; bool isInt; bool hasLo, hasHi; mpq_class lo, hi; bool loStrict, hiStrict; z3::expr e; };
static z3::context *Z; static std::vector<VarInfo> VARS; static std::unordered_map<std::string, int> VARKEY;

struct Atom { Poly p; AOp op; z3::expr e; std::vector<int> vars; bool linear; };
struct AtomKey { Poly p; AOp op; bool operator<(const AtomKey &o) const { if (op != o.op) return op < o.op; return p < o.p; } };
static std::map<AtomKey, int> ATOMID; static std::vector<Atom> ATOMS;

static z3::expr polyExpr(const Poly &p) {
  bool allInt = true;
  for (auto &t : p.t) { if (!isIntQ(t.c)) allInt = false; for (int v : t.m) if (!VARS[v].isInt) allInt = false; }
  z3::expr_vector sum(*Z);
  for (auto &t : p.t) {
    z3::expr_vector pr(*Z);
    std::string cs = t.c.get_str();
    if (t.m.empty() || t.c != 1) pr.push_back(allInt ? Z->int_val(cs.c_str()) : Z->real_val(cs.c_str()));
    for (int v : t.m) pr.push_back(allInt || !VARS[v].isInt ? VARS[v].e : z3::expr(*Z, Z3_mk_int2real(*Z, VARS[v].e)));
    if (pr.size() == 1) sum.push_back(pr[0]);
    else { z3::expr x = pr[0]; for (unsigned i = 1; i < pr.size(); i++) x = x * pr[i]; sum.push_back(x); }
  }
  if (sum.size() == 0) return Z->int_val(0);
  if (sum.size() == 1) return sum[0];
  return z3::sum(sum);
}
static int internAtom(Poly p, AOp op) {
  // normalise: positive scaling so that the leading coefficient is +-1
  if (!p.t.empty()) { mpq_class c = abs(p.t.back().c); if (c != 1) p = pscale(p, 1 / c); if ((op == EQ || op == NE) && p.t.back().c < 0) p = pscale(p, -1); }
  AtomKey k{p, op};
  auto it = ATOMID.find(k); if (it != ATOMID.end()) return it->second;
  z3::expr e = polyExpr(p);
  z3::expr zero = e.is_int() ? Z->int_val(0) : Z->real_val(0);
  z3::expr a = op == LT ? e < zero : op == LE ? e <= zero : op == EQ ? e == zero : e != zero;
  Atom at{p, op, a, {}, true}; p.vars(at.vars);
  for (auto &t : p.t) if (t.m.size() > 1) at.linear = false;
  ATOMS.push_back(at); ATOMID[k] = ATOMS.size() - 1; return ATOMS.size() - 1;
}
static AOp negOp(AOp op, Poly &p) {  // negation of (p op 0)
  switch (op) { case LT: p = pscale(p, -1); return LE; case LE: p = pscale(p, -1); return LT; case EQ: return NE; default: return EQ; }
}

// ---------------------------------------------------------------- memory
enum OK_ : u8 { HEAP, STACK, GLOBAL, CONSTG, FREED, DEADSTACK, INVALID };
struct Obj : RC {
  u32 size; OK_ kind; bool internal = false; std::vector<u8> data, st; std::unordered_map<u32, Val> cells; const char *name; int origin = 0;
  Obj(u32 s, OK_ k, const char *n) : size(s), kind(k), data(s), st(s), name(n) {}
};

struct Node : RC { int atom; Ref<Node> parent; int depth; };
struct Input { int kind; int var; i64 iv; double dv; const char *name; };  // kind 0 int,1 real,2 draw
struct UFApp { int f; Rat arg; int var; };

struct Func;
struct Frame { Func *f; int pc; int prevBB; std::vector<Val> regs; std::vector<u32> allocas; int retReg; u64 va = 0; };
struct Aux { mpq_class dummy; };

struct State {
  std::vector<Frame> st; std::vector<Ref<Obj>> objs; Ref<Node> path;
  std::vector<std::pair<int, mpq_class>> known; std::vector<std::pair<int, mpq_class>> assign; bool assignOk = true;
  std::vector<int> floorVars; std::vector<std::pair<int, Poly>> floorDefs;
  std::vector<Input> inputs; std::vector<UFApp> ufs; int nvars = 0; int ndraws = 0; u64 steps = 0; u32 heapLive = 0; std::vector<std::pair<std::string,std::string>> notes;
  std::vector<Val> tokens;
};
typedef std::shared_ptr<State> SP;

// ---------------------------------------------------------------- decoded code
struct Inst; struct Func;
enum Opc : u8 { I_MOV, I_STSLOT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_PHI, I_UNREACH, I_EXTRACT, I_INSERT, I_NOP };
struct GepT { int op; i64 scale; u8 w; };
struct MemT { u8 kind; u32 size; };  // kind 0 int,1 double,2 float,3 ptr,4 agg
struct Inst {
  Opc o; int dst = -1; unsigned sub = 0; u8 w = 0, w2 = 0; u8 flags = 0; std::vector<int> ops; i64 imm = 0; std::vector<GepT> geps; std::vector<std::pair<u64, int>> cases;
  llvm::Function *callee = nullptr; Func *cf = nullptr; int intrin = -1; int line = 0; llvm::Type *ty = nullptr; int bb = 0; bool isF = false; u8 fk = 0; u8 retw = 0;
  std::vector<std::pair<int, int>> phis;  // predBB, operand
  std::vector<u8> opw;
};
struct Func {
  llvm::Function *lf; std::string name; int id; bool decoded = false; std::vector<Inst> code; std::vector<int> bbStart; int nregs = 0; int nargs = 0; std::vector<Val> pool; bool isRepo = false; std::string file;
  std::vector<u8> isSlot;
};
static llvm::Module *M; static const llvm::DataLayout *DL; static std::map<llvm::Function *, Func *> FUNCS; static std::vector<Func *> FL;
static std::map<const llvm::GlobalVariable *, u32> GOBJ; static std::vector<std::pair<u32, Ref<Obj>>> GINIT; static std::vector<std::string> NAMES;
static const u32 FNBASE = 0x40000000u;

static SP CUR; static std::vector<SP> PENDING;
struct PathEnd { int why; };   // thrown to terminate the current path

// ---------------------------------------------------------------- solver
struct QRes { int r; std::vector<std::pair<int, mpq_class>> vals; bool rat; };
static std::map<std::vector<int>, QRes> QCACHE;
static z3::solver *SOLV;

static bool lookup(const std::vector<std::pair<int, mpq_class>> &v, int id, mpq_class &out) {
  auto it = std::lower_bound(v.begin(), v.end(), id, [](const std::pair<int, mpq_class> &a, int b) { return a.first < b; });
  if (it != v.end() && it->first == id) { out = it->second; return true; }
  return false;
}
static void setv(std::vector<std::pair<int, mpq_class>> &v, int id, const mpq_class &q) {
  auto it = std::lower_bound(v.begin(), v.end(), id, [](const std::pair<int, mpq_class> &a, int b) { return a.first < b; });
  if (it != v.end() && it->first == id) it->second = q; else v.insert(it, {id, q});
}
static Poly substKnown(const Poly &p) {
  auto &kn = CUR->known; if (kn.empty()) return p;
  bool any = false; mpq_class q;
  for (auto &t : p.t) for (int v : t.m) if (lookup(kn, v, q)) { any = true; break; }
  if (!any) return p;
  std::map<Mono, mpq_class> acc;
  for (auto &t : p.t) { Mono m; mpq_class c = t.c; for (int v : t.m) { if (lookup(kn, v, q)) c *= q; else m.push_back(v); } acc[m] += c; }
  Poly r; for (auto &kv : acc) if (kv.second != 0) r.t.push_back({kv.first, kv.second});
  return r;
}
static bool evalAssign(const Poly &p, mpq_class &out) {
  if (!CUR->assignOk) return false;
  out = 0; mpq_class q;
  for (auto &t : p.t) { mpq_class c = t.c; for (int v : t.m) { if (!lookup(CUR->assign, v, q)) return false; c *= q; } out += c; }
  return true;
}
static bool holds(const mpq_class &v, AOp op) { return op == LT ? v < 0 : op == LE ? v <= 0 : op == EQ ? v == 0 : v != 0; }

// interval of a polynomial from the declared bounds of its variables
static bool ival(const Poly &p, bool &hasLo, mpq_class &lo, bool &hasHi, mpq_class &hi) {
  hasLo = hasHi = true; lo = hi = 0;
  for (auto &t : p.t) {
    mpq_class l = 1, h = 1; bool hl = true, hh = true;
    for (int v : t.m) {
      VarInfo &x = VARS[v];
      if (!x.hasLo && !x.hasHi) return false;
      if (x.hasLo && x.hasHi && hl && hh) {
        mpq_class a = l * x.lo, b = l * x.hi, c = h * x.lo, d = h * x.hi;
        l = std::min(std::min(a, b), std::min(c, d)); h = std::max(std::max(a, b), std::max(c, d));
      } else {
        if (!(x.hasLo && x.lo >= 0 && hl && l >= 0)) return false;
        l = l * x.lo; if (hh && x.hasHi) h = h * x.hi; else hh = false;
      }
    }
    if (t.c > 0) { if (hl) lo += t.c * l; if (hh) hi += t.c * h; else hasHi = false; if (!hl) hasLo = false; }
    else { if (hh) lo += t.c * h; else hasLo = false; if (hl) hi += t.c * l; else hasHi = false; }
  }
  return hasLo || hasHi;
}
static int ivalDecide(const Poly &p, AOp op) {  // 1 true, 0 false, -1 unknown
  bool hl, hh; mpq_class lo, hi;
  if (!ival(p, hl, lo, hh, hi)) return -1;
  switch (op) {
    case LT: if (hh && hi < 0) return 1; if (hl && lo >= 0) return 0; break;
    case LE: if (hh && hi <= 0) return 1; if (hl && lo > 0) return 0; break;
    case EQ: if ((hl && lo > 0) || (hh && hi < 0)) return 0; break;
    case NE: if ((hl && lo > 0) || (hh && hi < 0)) return 1; break;
  }
  return -1;
}

static bool numeralToQ(const z3::expr &e, mpq_class &q, bool &exact) {
  exact = true;
  if (e.is_numeral()) { std::string s = e.get_decimal_string(0); s = Z3_get_numeral_string(*Z, e); q = mpq_class(s); q.canonicalize(); return true; }
  if (Z3_is_algebraic_number(*Z, e)) {
    exact = false; Z3_ast a = Z3_get_algebraic_number_lower(*Z, e, 20); z3::expr x(*Z, a); q = mpq_class(Z3_get_numeral_string(*Z, x)); q.canonicalize(); return true;
  }
  return false;
}
static void addBounds(z3::solver &s, const std::vector<int> &vars) {
  for (int v : vars) {
    VarInfo &x = VARS[v];
    auto num = [&](const mpq_class &q) { return x.isInt ? Z->int_val(q.get_str().c_str()) : Z->real_val(q.get_str().c_str()); };
    if (x.hasLo) s.add(x.loStrict ? x.e > num(x.lo) : x.e >= num(x.lo));
    if (x.hasHi) s.add(x.hiStrict ? x.e < num(x.hi) : x.e <= num(x.hi));
  }
}
static QRes solveAtoms(const std::vector<int> &atoms, bool heavy, const std::vector<z3::expr> *extra = nullptr) {
  std::vector<int> vars; bool lin = true, hasInt = false;
  for (int a : atoms) { for (int v : ATOMS[a].vars) vars.push_back(v); if (!ATOMS[a].linear) lin = false; }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  for (int v : vars) if (VARS[v].isInt) hasInt = true;
  QRes R; R.rat = true; R.r = -1;
  double t0 = now(); SH->queries++;
  auto run = [&](z3::solver &s, int to) {
    z3::params p(*Z); p.set("timeout", (unsigned)to); s.set(p);
    addBounds(s, vars);
    for (int a : atoms) s.add(ATOMS[a].e);
    if (extra) for (auto &x : *extra) s.add(x);
    z3::check_result r; try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
    if (r == z3::unsat) R.r = 0;
    else if (r == z3::sat) {
      R.r = 1; z3::model m = s.get_model();
      for (int v : vars) { z3::expr x = m.eval(VARS[v].e, true); mpq_class q; bool ex = true; if (!numeralToQ(x, q, ex)) { R.rat = false; q = 0; } if (!ex) R.rat = false; R.vals.push_back({v, q}); }
    }
  };
  if (!lin && !hasInt) {
    try { z3::solver s2 = z3::tactic(*Z, "qfnra-nlsat").mk_solver(); run(s2, heavy ? QT2 : QT1); } catch (z3::exception &e) {}
  }
  if (R.r < 0) {
    SOLV->push();
    run(*SOLV, QT1);
    SOLV->pop();
  }
  if (R.r < 0 && heavy) {
    try { z3::solver s3(*Z); run(s3, QT2); } catch (z3::exception &e) {}
  }
  SH->solverUs += (u64)((now() - t0) * 1e6);
  if (R.r == 1) SH->qsat++; else if (R.r == 0) SH->qunsat++; else SH->qunk++;
  return R;
}
// satisfiable(path && extra)?  Slices the path constraints to those sharing variables.
static QRes query(int extraAtom, bool heavy = false) {
  std::vector<int> all;
  for (Node *n = CUR->path.p; n; n = n->parent.p) all.push_back(n->atom);
  std::set<int> vs(ATOMS[extraAtom].vars.begin(), ATOMS[extraAtom].vars.end());
  std::vector<char> used(all.size(), 0); std::vector<int> sel{extraAtom}; bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < all.size(); i++) if (!used[i]) {
      auto &av = ATOMS[all[i]].vars; bool hit = false;
      for (int v : av) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; sel.push_back(all[i]); for (int v : av) if (vs.insert(v).second) ch = true; }
    }
  }
  std::sort(sel.begin(), sel.end()); sel.erase(std::unique(sel.begin(), sel.end()), sel.end());
  auto it = QCACHE.find(sel);
  if (it != QCACHE.end() && (it->second.r >= 0 || !heavy)) { SH->cacheHits++; return it->second; }
  QRes r = solveAtoms(sel, heavy);
  if (QCACHE.size() > 200000) QCACHE.clear();
  QCACHE[sel] = r;
  return r;
}
static void addConstraint(State &s, int atom) {
  Ref<Node> n(new Node); n->atom = atom; n->parent = s.path; n->depth = s.path ? s.path->depth + 1 : 1; s.path = n;
  Atom &a = ATOMS[atom];
  if (a.op == EQ && a.vars.size() == 1 && a.linear) {
    mpq_class c0 = 0, c1 = 0; for (auto &t : a.p.t) { if (t.m.empty()) c0 = t.c; else c1 = t.c; }
    setv(s.known, a.vars[0], mpq_class(-c0 / c1));
  }
}
static SP forkState() { SH->forks++; SP n = std::make_shared<State>(*CUR); return n; }

// Decide an atom on the current path; forks when both sides are feasible.  The alternate state
// re-executes the current instruction.
static bool decide(const Poly &p0, AOp op) {
  Poly p = substKnown(p0);
  if (p.isConst()) return holds(p.constVal(), op);
  int iv = ivalDecide(p, op); if (iv >= 0) { SH->ivals++; return iv; }
  Poly np = p; AOp nop = negOp(op, np);
  int at = internAtom(p, op), an = internAtom(np, nop);
  for (Node *n = CUR->path.p; n; n = n->parent.p) { if (n->atom == at) return true; if (n->atom == an) return false; }
  mpq_class v; bool side, have = evalAssign(p, v);
  if (have) side = holds(v, op);
  else {
    QRes r = query(at, true);
    if (r.r == 1) { side = true; if (r.rat) for (auto &kv : r.vals) setv(CUR->assign, kv.first, kv.second); }
    else if (r.r == 0) side = false;
    else side = true;
    if (r.r == 0) return false;  // (path itself is feasible)
  }
  int other = side ? an : at;
  QRes r = query(other, true);
  if (r.r != 0) {
    SP alt = forkState(); addConstraint(*alt, other);
    if (r.r == 1 && r.rat) { for (auto &kv : r.vals) setv(alt->assign, kv.first, kv.second); } else alt->assignOk = false;
    PENDING.push_back(alt);
    addConstraint(*CUR, side ? at : an);
  }
  return side;
}
static int newVar(const std::string &name, bool isInt, bool hl, mpq_class lo, bool ls, bool hh, mpq_class hi, bool hs) {
  int idx = CUR->nvars++;
  std::string key = std::to_string(idx) + "|" + name + (isInt ? "|i|" : "|r|") + (hl ? lo.get_str() : "-") + (ls ? "<" : "") + "|" + (hh ? hi.get_str() : "-") + (hs ? "<" : "");
  auto it = VARKEY.find(key); int id;
  if (it != VARKEY.end()) id = it->second;
  else {
    std::string zn = name + "!" + std::to_string(VARS.size());
    VARS.push_back(VarInfo{name, isInt, hl, hh, lo, hi, ls, hs, isInt ? Z->int_const(zn.c_str()) : Z->real_const(zn.c_str())});
    id = VARS.size() - 1; VARKEY[key] = id;
  }
  mpq_class v = 0; if (hl && lo > v) v = lo; if (hh && hi < v) v = hi; if (hl && lo < 0 && !hh) v = lo > 0 ? lo : mpq_class(0);
  if (hl && v < lo) v = lo; if (hh && v > hi) v = hi;
  if (!isInt && ((hl && ls && v == lo) || (hh && hs && v == hi))) v = (hl && hh) ? mpq_class((lo + hi) / 2) : hl ? mpq_class(lo + 1) : mpq_class(hi - 1);
  setv(CUR->assign, id, v);
  return id;
}

// ---------------------------------------------------------------- violations
static const char *intern(const std::string &s) { static std::unordered_set<std::string> pool; return pool.insert(s).first->c_str(); }
static std::string stackTrace() {
  std::string o;
  for (int i = (int)CUR->st.size() - 1; i >= 0; i--) {
    Frame &f = CUR->st[i]; int pc = std::min<int>(f.pc, f.f->code.size() - 1);
    if (!o.empty()) o += " < "; o += f.f->name + ":" + std::to_string(f.f->code[pc].line);
  }
  return o;
}
static std::string repoFrame() {
  for (int i = (int)CUR->st.size() - 1; i >= 0; i--) if (CUR->st[i].f->isRepo) return CUR->st[i].f->name;
  return CUR->st.empty() ? "" : CUR->st.back().f->name;
}
static std::string valuesJson(const std::vector<std::pair<int, mpq_class>> &as) {
  std::string o = "[";
  bool first = true;
  for (auto &in : CUR->inputs) {
    if (!first) o += ","; first = false;
    mpq_class q; std::string val;
    if (in.var < 0) { char b[64]; if (in.kind == 0) snprintf(b, 64, "%lld", (long long)in.iv); else snprintf(b, 64, "%.17g", in.dv); val = b; }
    else {
      if (!lookup(as, in.var, q)) q = VARS[in.var].hasLo ? VARS[in.var].lo : mpq_class(0);
      if (in.kind == 0) val = q.get_num().get_str(); else { char b[64]; snprintf(b, 64, "%.17g", q.get_d()); val = b; }
    }
    o += "{\"n\":" + jstr(in.name) + ",\"k\":" + std::to_string(in.kind) + ",\"v\":" + jstr(val) + "}";
  }
  return o + "]";
}
// choose an assignment for path && extra that stays away from rounding boundaries when possible
static bool fullModel(int extraAtom, std::vector<std::pair<int, mpq_class>> &out) {
  std::vector<int> atoms; for (Node *n = CUR->path.p; n; n = n->parent.p) atoms.push_back(n->atom);
  if (extraAtom >= 0) atoms.push_back(extraAtom);
  std::sort(atoms.begin(), atoms.end()); atoms.erase(std::unique(atoms.begin(), atoms.end()), atoms.end());
  if (atoms.empty()) { out = CUR->assign; return true; }
  auto margins = [&](double m, bool floors) {
    std::vector<z3::expr> ex; char b[64]; snprintf(b, 64, "%.9f", m);
    for (int a : atoms) {
      Atom &A = ATOMS[a]; bool real = false; for (int v : A.vars) if (!VARS[v].isInt) real = true;
      if (!real) continue;
      z3::expr e = polyExpr(A.p); if (e.is_int()) continue;
      if (A.op == LT || A.op == LE) ex.push_back(e <= -Z->real_val(b));
      else if (A.op == NE) ex.push_back(e <= -Z->real_val(b) || e >= Z->real_val(b));
    }
    return ex;
  };
  QRes r;
  for (double m : {0.01, 0.0001, 0.000001}) { auto ex = margins(m, true); r = solveAtoms(atoms, true, &ex); if (r.r == 1) break; }
  if (r.r != 1) r = solveAtoms(atoms, true);
  if (r.r != 1) return false;
  out = CUR->assign; for (auto &kv : r.vals) setv(out, kv.first, kv.second);
  return true;
}
static void violation(const std::string &kind, const std::string &msg, int extraAtom, bool needModel) {
  std::string where = repoFrame(); std::string key = kind + "|" + msg + "|" + where; if (key.size() > 150) key.resize(150);
  lockSh();
  int cnt = 0; for (int i = 0; i < SH->nviolKey; i++) if (key == SH->violKey[i]) cnt++;
  bool take = cnt < 4 && SH->nviolKey < 200; if (take) { strcpy(SH->violKey[SH->nviolKey], key.c_str()); SH->nviolKey++; }
  unlockSh();
  if (!take) return;
  std::vector<std::pair<int, mpq_class>> as;
  if (!fullModel(extraAtom, as)) as = CUR->assign;
  std::string notes = "[";
  for (auto &n : CUR->notes) { if (notes.size() > 1) notes += ","; notes += jstr(n.first + "=" + n.second); }
  notes += "]";
  emit("{\"type\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where) + ",\"trace\":" + jstr(stackTrace()) + ",\"values\":" + valuesJson(as) + ",\"notes\":" + notes + "}");
  if (++SH->viol >= MAXVIOL) SH->stop = 1;
}
[[noreturn]] static void memError(const std::string &msg) { violation("memory", msg, -1, true); throw PathEnd{1}; }
[[noreturn]] static void engineError(const std::string &m) {
  emit("{\"type\":\"engine_error\",\"msg\":" + jstr(m) + ",\"trace\":" + jstr(CUR ? stackTrace() : "") + "}");
  SH->err = 1; SH->stop = 1; throw PathEnd{2};
}

// ---------------------------------------------------------------- conversions
static Val mkInt(const Poly &p0, unsigned w) {
  Poly p = substKnown(p0);
  if (p.isConst()) { mpq_class q = p.constVal(); return Val::c(maskw((u64)(i64)q.get_num().get_si(), w)); }
  Ref<SymI> s(new SymI); s->p = p; Val v; v.k = SI; v.p = Ref<RC>(s.p); return v;
}
static Poly toPolyI(const Val &v, unsigned w) {
  if (v.k == CONC) return Poly(mpqOfI64(sx(v.u, w)));
  if (v.k == SI) return ((SymI *)v.p.p)->p;
  engineError("integer expected");
}
static bool isSpecial(const Val &v) { return v.k == CONC && !std::isfinite(v.dbl()); }
static Val mkQ(const mpq_class &q) {  // canonical concrete real
  if (MODE_REAL) {
    double d = q.get_d(); if (std::isfinite(d)) { mpq_class b(d); if (b == q) return Val::d(d); }
    Ref<RatC> r(new RatC); r->q = q; Val v; v.k = RATV; v.p = Ref<RC>(r.p); return v;
  }
  return Val::d(q.get_d());
}
static mpq_class toQ(const Val &v) { if (v.k == RATV) return ((RatC *)v.p.p)->q; return mpq_class(v.dbl()); }
static double toD(const Val &v) { return v.k == RATV ? ((RatC *)v.p.p)->q.get_d() : v.dbl(); }
static Rat toRat(const Val &v) {
  if (v.k == SR) return ((SymR *)v.p.p)->r;
  Rat r; r.num = Poly(toQ(v)); return r;
}
static Val mkR(const Rat &r0) {
  Rat r = r0;
  if (!CUR->known.empty()) {
    r.num = substKnown(r.num);
    bool ch = false; for (auto &d : r.den) { Poly e = substKnown(d); if (!(e == d)) { ch = true; } }
    if (ch) {
      std::vector<Poly> nd; mpq_class c = 1;
      for (auto &d : r.den) { Poly e = substKnown(d); if (e.isConst()) c *= e.constVal(); else { mpq_class lc = abs(e.t.back().c); c *= lc; nd.push_back(pscale(e, 1 / lc)); } }
      std::sort(nd.begin(), nd.end()); r.den = nd; r.num = pscale(r.num, 1 / c); rnorm(r);
    }
  }
  if (r.den.empty() && r.num.isConst()) return mkQ(r.num.constVal());
  Ref<SymR> s(new SymR); s->r = r; Val v; v.k = SR; v.p = Ref<RC>(s.p); return v;
}
static Val mkBool(const Poly &p, AOp op) {
  Poly q = substKnown(p);
  if (q.isConst()) return Val::c(holds(q.constVal(), op));
  int iv = ivalDecide(q, op); if (iv >= 0) return Val::c(iv);
  Ref<SymB> s(new SymB); s->p = q; s->op = op; Val v; v.k = SB; v.p = Ref<RC>(s.p); return v;
}
static bool decideVal(const Val &v, const char *what) {
  if (v.k == UNDEF) memError(std::string("use of uninitialised value in ") + what);
  if (v.k == CONC) return v.u & 1;
  if (v.k == SB) { SymB *b = (SymB *)v.p.p; return decide(b->p, b->op); }
  if (v.k == SI) return decide(((SymI *)v.p.p)->p, NE);
  engineError("bad condition value");
}
static u64 concretize(const Val &v, unsigned w, const char *what) {
  if (v.k == CONC) return v.u;
  if (v.k == UNDEF) memError(std::string("use of uninitialised value as ") + what);
  if (v.k == SB) return decideVal(v, what);
  if (v.k != SI) engineError("cannot concretize");
  for (;;) {
    Poly p = substKnown(((SymI *)v.p.p)->p);
    if (p.isConst()) return maskw((u64)(i64)p.constVal().get_num().get_si(), w);
    mpq_class q;
    if (!evalAssign(p, q)) {
      // obtain a fresh full model
      std::vector<std::pair<int, mpq_class>> as; QRes r; std::vector<int> atoms; for (Node *n = CUR->path.p; n; n = n->parent.p) atoms.push_back(n->atom);
      std::sort(atoms.begin(), atoms.end()); atoms.erase(std::unique(atoms.begin(), atoms.end()), atoms.end());
      r = solveAtoms(atoms, true);
      if (r.r == 0) throw PathEnd{3};
      if (r.r != 1) engineError("solver unknown while concretizing");
      for (auto &kv : r.vals) setv(CUR->assign, kv.first, kv.second);
      CUR->assignOk = true;
      if (!evalAssign(p, q)) engineError("no model value");
    }
    if (!isIntQ(q)) engineError("non-integer model for integer");
    if (decide(padd(p, Poly(q), -1), EQ)) return maskw((u64)(i64)q.get_num().get_si(), w);
  }
}

// ---------------------------------------------------------------- memory access
static u32 newObj(u32 size, OK_ k, const char *name, bool zero) {
  Ref<Obj> o(new Obj(size, k, name)); if (zero) std::fill(o->st.begin(), o->st.end(), 1);
  CUR->objs.push_back(o); return CUR->objs.size() - 1;
}
static Obj *wr(u32 id) { Ref<Obj> &r = CUR->objs[id]; if (r->rc > 1) { r = Ref<Obj>(new Obj(*r)); r->rc = 1; } return r.p; }
static Obj *chk(u64 addr, u32 n, const char *op, u32 &off) {
  u32 id = addr >> 32; off = (u32)addr;
  if (addr < 4096) memError(std::string("NULL pointer ") + op);
  if (id == 0 || id >= CUR->objs.size()) memError(std::string("wild pointer ") + op);
  Obj *o = CUR->objs[id].p;
  if (o->kind == FREED) memError(std::string(op) + " of freed memory");
  if (o->kind == DEADSTACK) memError(std::string(op) + " of dead stack memory");
  if (o->kind == INVALID) memError(std::string("wild pointer ") + op);
  if ((u64)off + n > o->size) memError(std::string(op) + " out of bounds of " + (o->kind == HEAP ? "heap block" : o->kind == STACK ? std::string("local ") + o->name : std::string("global ") + o->name));
  return o;
}
static void killCells(Obj *o, u32 off, u32 n) {
  if (o->cells.empty()) return;
  for (u32 i = off; i < off + n; i++) {
    if (o->st[i] == 2) { auto it = o->cells.find(i); if (it != o->cells.end()) { u32 j = i + 1; while (j < o->size && o->st[j] == 3) { o->st[j] = 0; j++; } o->cells.erase(it); } o->st[i] = 0; }
    else if (o->st[i] == 3) { u32 h = i; while (h > 0 && o->st[h] == 3) h--; if (o->st[h] == 2) { o->cells.erase(h); o->st[h] = 0; } u32 j = h + 1; while (j < o->size && o->st[j] == 3) { o->st[j] = 0; j++; } }
  }
}
static Val normLoaded(const Val &v, const MemT &t) {
  if (v.k == SI) { Poly &p = ((SymI *)v.p.p)->p; if (!CUR->known.empty()) return mkInt(p, t.size * 8); }
  return v;
}
static Val loadM(u64 addr, const MemT &t) {
  u32 off; Obj *o = chk(addr, t.size, "read", off);
  u8 s0 = o->st[off];
  if (s0 == 2) {
    auto it = o->cells.find(off); u32 len = 1; while (off + len < o->size && o->st[off + len] == 3) len++;
    if (len == t.size) return normLoaded(it->second, t);
    if (o->kind == STACK && len == 8 && t.size == 4 && !strcmp(o->name, "varargs") && it->second.k == SI) return normLoaded(it->second, t);
    engineError("partial read of symbolic cell");
  }
  bool allc = true, und = false;
  for (u32 i = 0; i < t.size; i++) { if (o->st[off + i] != 1) allc = false; if (o->st[off + i] == 0) und = true; if (o->st[off + i] >= 2) { if (!und) engineError("mixed symbolic read"); } }
  if (!allc) return Val();
  u64 x = 0;
  if (t.kind == 2) { float f; memcpy(&f, &o->data[off], 4); return Val::d((double)f); }
  memcpy(&x, &o->data[off], std::min<u32>(8, t.size));
  return Val::c(x);
}
static void storeM(u64 addr, const MemT &t, const Val &v) {
  u32 off; chk(addr, t.size, "write", off); u32 id = addr >> 32;
  if (CUR->objs[id]->kind == CONSTG) memError("write to constant memory");
  Obj *o = wr(id);
  killCells(o, off, t.size);
  if (v.k == CONC) {
    if (t.kind == 2) { float f = (float)v.dbl(); memcpy(&o->data[off], &f, 4); }
    else memcpy(&o->data[off], &v.u, std::min<u32>(8, t.size));
    memset(&o->st[off], 1, t.size);
  } else if (v.k == UNDEF && !v.u) memset(&o->st[off], 0, t.size);
  else if (v.k == AGG || v.k == SB) engineError("store of aggregate");
  else { o->cells[off] = v; o->st[off] = 2; if (t.size > 1) memset(&o->st[off + 1], 3, t.size - 1); }
}
static void copyMem(u64 dst, u64 src, u64 n) {
  if (n == 0) return;
  u32 so, d_o; Obj *s = chk(src, n, "read", so); Ref<Obj> keep(s); chk(dst, n, "write", d_o); u32 did = dst >> 32;
  if (CUR->objs[did]->kind == CONSTG) memError("write to constant memory");
  std::vector<u8> da(s->data.begin() + so, s->data.begin() + so + n), st(s->st.begin() + so, s->st.begin() + so + n);
  std::vector<std::pair<u32, Val>> cl;
  if (!s->cells.empty()) {
    if (st[0] == 3) engineError("copy splits symbolic cell");
    if (so + n < s->size && s->st[so + n] == 3) engineError("copy splits symbolic cell");
    for (u32 i = 0; i < n; i++) if (st[i] == 2) cl.push_back({i, s->cells[so + i]});
  }
  Obj *d = wr(did); killCells(d, d_o, n);
  memcpy(&d->data[d_o], da.data(), n); memcpy(&d->st[d_o], st.data(), n);
  for (auto &c : cl) d->cells[d_o + c.first] = c.second;
}
static std::string readStr(u64 a) {
  std::string s; MemT t{0, 1};
  for (int i = 0; i < 100000; i++) { Val v = loadM(a + i, t); u64 c = concretize(v, 8, "character"); if (!c) break; s += (char)c; }
  return s;
}

// ---------------------------------------------------------------- real arithmetic
static Val fround(const Val &v, u8 fk) { if (fk == 2 && v.k == CONC && !MODE_REAL) return Val::d((double)(float)v.dbl()); return v; }
static int signOf(const Rat &r) {  // forks; denominators are positive
  if (decide(r.num, EQ)) return 0;
  return decide(r.num, LT) ? -1 : 1;
}
static Val fbin(unsigned op, const Val &a, const Val &b, u8 fk) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  bool sym = a.k == SR || b.k == SR;
  if (isSpecial(a) || isSpecial(b) || (!sym && !MODE_REAL)) {
    if (sym) {
      // special op symbolic: replace the symbolic side by a representative of its sign
      const Val &s = a.k == SR ? a : b; double rep = (double)signOf(((SymR *)s.p.p)->r);
      double x = a.k == SR ? rep : toD(a), y = b.k == SR ? rep : toD(b), r;
      switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; default: r = x / y; }
      return Val::d(r);
    }
    double x = toD(a), y = toD(b), r;
    switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = fmod(x, y); }
    if (fk == 2) r = (float)r;
    return Val::d(r);
  }
  if (!sym) {
    mpq_class x = toQ(a), y = toQ(b);
    switch (op) {
      case 0: return mkQ(mpq_class(x + y)); case 1: return mkQ(mpq_class(x - y)); case 2: return mkQ(mpq_class(x * y));
      case 3: if (y == 0) return Val::d(toD(a) / toD(b)); return mkQ(mpq_class(x / y));
      default: return Val::d(fmod(toD(a), toD(b)));
    }
  }
  switch (op) {
    case 0: return mkR(radd(toRat(a), toRat(b), 1));
    case 1: return mkR(radd(toRat(a), toRat(b), -1));
    case 2: return mkR(rmul(toRat(a), toRat(b)));
    case 3: {
      Rat x = toRat(a), y = toRat(b);
      y.num = substKnown(y.num);
      int s;
      if (y.num.isConst()) { mpq_class c = y.num.constVal(); s = c == 0 ? 0 : c < 0 ? -1 : 1; } else s = signOf(y);
      if (s == 0) { double n; if (a.k == SR) n = (double)signOf(x); else n = toD(a); return Val::d(n / 0.0); }
      Rat inv; Poly num = s < 0 ? pscale(y.num, -1) : y.num; mpq_class sc = s;
      inv.num = pprod(y.den);
      if (num.isConst()) sc = sc / num.constVal();
      else { mpq_class lc = abs(num.t.back().c); if (lc != 1) { num = pscale(num, 1 / lc); sc = sc / lc; } inv.den.push_back(num); }
      inv.num = pscale(inv.num, sc);
      rnorm(inv);
      return mkR(rmul(x, inv));
    }
    default: engineError("symbolic frem");
  }
}
static Val fcmp(unsigned pred, const Val &a, const Val &b) {
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  using P = llvm::CmpInst;
  bool sp = isSpecial(a) || isSpecial(b); bool sym = a.k == SR || b.k == SR;
  bool ordered = pred < 8;  // FCMP_UNO = 8
  if (pred == P::FCMP_ORD || pred == P::FCMP_UNO) { bool nan = (a.k == CONC && std::isnan(a.dbl())) || (b.k == CONC && std::isnan(b.dbl())); return Val::c(pred == P::FCMP_ORD ? !nan : nan); }
  unsigned base = pred & 7;  // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
  if (sp || !sym) {
    if (!sp && (a.k == RATV || b.k == RATV)) {
      mpq_class x = toQ(a), y = toQ(b); int c = cmp(x, y); bool r = false;
      switch (base) { case 1: r = c == 0; break; case 2: r = c > 0; break; case 3: r = c >= 0; break; case 4: r = c < 0; break; case 5: r = c <= 0; break; case 6: r = c != 0; break; }
      return Val::c(r);
    }
    double x = a.k == SR ? 0.0 : toD(a), y = b.k == SR ? 0.0 : toD(b);
    if (std::isnan(x) || std::isnan(y)) return Val::c(!ordered);
    bool r = false; switch (base) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; }
    return Val::c(r);
  }
  Poly d = rdiffnum(toRat(a), toRat(b));
  switch (base) {
    case 1: return mkBool(d, EQ); case 6: return mkBool(d, NE); case 4: return mkBool(d, LT); case 5: return mkBool(d, LE);
    case 2: return mkBool(pscale(d, -1), LT); default: return mkBool(pscale(d, -1), LE);
  }
}
static Val floorV(const Val &a, bool ceil_) {
  if (a.k == UNDEF) return Val();
  if (a.k == CONC && !MODE_REAL) return Val::d(ceil_ ? ceil(a.dbl()) : floor(a.dbl()));
  if (isSpecial(a)) return a;
  if (a.k != SR) { mpq_class q = toQ(a); mpz_class z; if (ceil_) mpz_cdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); else mpz_fdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return mkQ(mpq_class(z)); }
  if (ceil_) engineError("symbolic ceil");
  Rat r = toRat(a); bool hl = false, hh = false; mpq_class lo, hi;
  if (r.den.empty()) { if (!ival(r.num, hl, lo, hh, hi)) hl = hh = false; }
  mpz_class zl, zh; if (hl) mpz_fdiv_q(zl.get_mpz_t(), lo.get_num().get_mpz_t(), lo.get_den().get_mpz_t()); if (hh) mpz_fdiv_q(zh.get_mpz_t(), hi.get_num().get_mpz_t(), hi.get_den().get_mpz_t());
  // sharpen upper bound when the supremum is not attained (e.g. floor(u*n), u<1)
  if (hh && r.den.empty() && isIntQ(hi)) { std::vector<int> vs; r.num.vars(vs); if (vs.size() == 1 && r.num.t.size() <= 2) { bool lin = true; mpq_class c1 = 0; for (auto &t : r.num.t) { if (t.m.size() > 1) lin = false; if (t.m.size() == 1) c1 = t.c; } if (lin && ((c1 > 0 && VARS[vs[0]].hiStrict) || (c1 < 0 && VARS[vs[0]].loStrict))) zh -= 1; } }
  mpq_class av; bool have = r.den.empty() && evalAssign(r.num, av);
  int k = newVar("floor", true, hl, mpq_class(zl), false, hh, mpq_class(zh), false);
  // k*den <= num < (k+1)*den
  Poly D = pprod(r.den); Poly kd = pmul(Poly::var(k), D);
  if (have) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), av.get_num().get_mpz_t(), av.get_den().get_mpz_t()); setv(CUR->assign, k, mpq_class(z)); } else CUR->assignOk = false;
  addConstraint(*CUR, internAtom(padd(kd, r.num, -1), LE));
  addConstraint(*CUR, internAtom(padd(r.num, padd(kd, D), -1), LT));
  Rat o; o.num = Poly::var(k); return mkR(o);
}
// function application on a symbolic argument: a fresh variable, functionally consistent per path
enum { UF_SQRT, UF_LOG, UF_EXP, UF_LNFACT, UF_OTHER };
static Val ufApply(int f, const Val &a) {
  Rat r = toRat(a);
  for (auto &u : CUR->ufs) if (u.f == f && rdiffnum(u.arg, r).isZero()) { Rat o; o.num = Poly::var(u.var); return mkR(o); }
  if (f == UF_SQRT) {
    int s = signOf(r); if (s < 0) return Val::d(NAN); if (s == 0) return Val::d(0.0);
    int v = newVar("sqrt", false, true, 0, true, false, 0, false); CUR->assignOk = false;
    addConstraint(*CUR, internAtom(padd(pmul(pmul(Poly::var(v), Poly::var(v)), pprod(r.den)), r.num, -1), EQ));
    CUR->ufs.push_back({f, r, v}); Rat o; o.num = Poly::var(v); return mkR(o);
  }
  if (f == UF_LOG) { int s = signOf(r); if (s < 0) return Val::d(NAN); if (s == 0) return Val::d(-INFINITY); }
  // anchor points: log 1 = 0, exp 0 = 1, and the order around them (decided before the variable exists,
  // so that a forked sibling re-executes the whole application)
  mpq_class anchorArg = f == UF_LOG ? 1 : 0, anchorVal = f == UF_LOG ? 0 : 1; int ord = 2;
  if (f == UF_LOG || f == UF_EXP) { Rat an; an.num = Poly(anchorArg); Poly d = rdiffnum(r, an); ord = decide(d, EQ) ? 0 : decide(d, LT) ? -1 : 1; }
  if (ord == 0) return mkQ(anchorVal);
  int v = f == UF_EXP ? newVar("exp", false, true, 0, true, ord < 0, 1, true) : f == UF_LOG ? newVar("log", false, ord > 0, 0, true, ord < 0, 0, true) : newVar("uf", false, false, 0, false, false, 0, false);
  CUR->assignOk = false;
  if (f == UF_EXP && ord > 0) addConstraint(*CUR, internAtom(padd(Poly(mpq_class(1)), Poly::var(v), -1), LT));
  CUR->ufs.push_back({f, r, v});
  Rat o; o.num = Poly::var(v); return mkR(o);
}
#include "exec.inc"
