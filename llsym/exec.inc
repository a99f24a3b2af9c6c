// decoding, interpretation and intrinsics (included by llsym.cpp)
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_errno.h>
#include <dlfcn.h>

static int sourceLine(const llvm::Instruction &I) { if (auto &dl = I.getDebugLoc()) return dl.getLine(); return 0; }
static MemT memT(llvm::Type *t) {
  MemT m; m.size = DL->getTypeStoreSize(t);
  if (t->isDoubleTy()) m.kind = 1; else if (t->isFloatTy()) m.kind = 2; else if (t->isPointerTy()) m.kind = 3; else if (t->isIntegerTy()) m.kind = 0; else m.kind = 4;
  return m;
}
static std::map<llvm::Function *, u32> FNID; static std::vector<llvm::Function *> FNBYID;
static u32 fnId(llvm::Function *f) { auto it = FNID.find(f); if (it != FNID.end()) return it->second; u32 i = FNBYID.size(); FNID[f] = i; FNBYID.push_back(f); return i; }
static Val evalConst(const llvm::Constant *c) {
  if (auto *ci = dyn_cast<llvm::ConstantInt>(c)) return Val::c(ci->getValue().getLimitedValue());
  if (auto *cf = dyn_cast<llvm::ConstantFP>(c)) { llvm::APFloat f = cf->getValueAPF(); bool li; if (cf->getType()->isFloatTy()) return Val::d((double)f.convertToFloat()); if (cf->getType()->isDoubleTy()) return Val::d(f.convertToDouble()); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); return Val::d(f.convertToDouble()); }
  if (isa<llvm::ConstantPointerNull>(c)) return Val::c(0);
  if (isa<llvm::UndefValue>(c)) return Val();
  if (auto *gv = dyn_cast<llvm::GlobalVariable>(c)) return Val::c((u64)GOBJ.at(gv) << 32);
  if (auto *f = dyn_cast<llvm::Function>(c)) return Val::c(((u64)FNBASE << 32) + fnId(const_cast<llvm::Function *>(f)) * 16);
  if (auto *ce = dyn_cast<llvm::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case llvm::Instruction::GetElementPtr: {
        auto *g = cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) break;
        Val b = evalConst(cast<llvm::Constant>(g->getPointerOperand())); return Val::c(b.u + off.getSExtValue());
      }
      case llvm::Instruction::BitCast: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: return evalConst(ce->getOperand(0));
      default: break;
    }
  }
  if (isa<llvm::ConstantAggregateZero>(c) || isa<llvm::ConstantStruct>(c) || isa<llvm::ConstantArray>(c) || isa<llvm::ConstantDataSequential>(c)) {
    Ref<AggV> a(new AggV); unsigned n = isa<llvm::StructType>(c->getType()) ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) a->v.push_back(evalConst(c->getAggregateElement(i)));
    Val v; v.k = AGG; v.p = Ref<RC>(a.p); return v;
  }
  std::string s; llvm::raw_string_ostream os(s); c->print(os); engineError("constant not supported: " + os.str());
}
static void initGlobal(Obj *o, u32 off, const llvm::Constant *c) {
  llvm::Type *t = c->getType();
  if (isa<llvm::UndefValue>(c)) { u64 n = DL->getTypeStoreSize(t); memset(&o->st[off], 1, n); return; }
  if (isa<llvm::ConstantAggregateZero>(c)) { u64 n = DL->getTypeStoreSize(t); memset(&o->st[off], 1, n); return; }
  if (auto *cs = dyn_cast<llvm::ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); memset(&o->st[off], 1, sl->getSizeInBytes()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (isa<llvm::ConstantArray>(c) || isa<llvm::ConstantDataSequential>(c)) {
    unsigned n = t->getArrayNumElements(); u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < n; i++) initGlobal(o, off + i * es, c->getAggregateElement(i)); return;
  }
  Val v = evalConst(c); MemT m = memT(t);
  if (m.kind == 2) { float f = v.dbl(); memcpy(&o->data[off], &f, 4); } else memcpy(&o->data[off], &v.u, m.size);
  memset(&o->st[off], 1, m.size);
}

static const std::map<std::string, int> &intrinTable();
static int opd(Func &F, std::map<const llvm::Value *, int> &reg, const llvm::Value *v) {
  auto it = reg.find(v); if (it != reg.end()) return it->second;
  if (auto *c = dyn_cast<llvm::Constant>(v)) { F.pool.push_back(evalConst(c)); return -(int)F.pool.size(); }
  F.pool.push_back(Val()); return -(int)F.pool.size();
}
static u8 tw(llvm::Type *t) { if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) engineError("wide int"); return w; } if (t->isPointerTy()) return 64; return 0; }
static Func *getFunc(llvm::Function *lf) {
  Func *&F = FUNCS[lf]; if (F) return F;
  F = new Func; F->lf = lf; F->name = lf->getName().str(); F->id = fnId(lf);
  if (auto *sp = lf->getSubprogram()) { F->file = sp->getFilename().str(); F->isRepo = F->file.find("/repo/") != std::string::npos || F->file.find("src/") != std::string::npos; if (F->file.find("/verif/") != std::string::npos) F->isRepo = false; }
  return F;
}
enum { X_SYM_INT, X_SYM_REAL, X_SYM_DRAW, X_ASSUME, X_ASSERT, X_ASSERT_EQ, X_ASSERT_LE, X_REACH, X_CONC, X_NOTE_I, X_NOTE_D, X_ISSYM, X_DRAWLIM, X_STOP, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMSET,
  X_SQRT, X_LOG, X_EXP, X_POW, X_FABS, X_FLOOR, X_CEIL, X_FMULADD, X_MATH1, X_EXIT, X_ABORT, X_LNCHOOSE, X_LNFACT, X_LNGAMMA, X_DTOA, X_ATOD, X_ASSERTFAIL, X_SYMREALPOS, X_NOTE_S, X_ALLOWEXIT, X_ISALLOC, X_LIVE, X_ROUND, X_STEPLIM, X_UNCOUNT, X_FACT, X_CHOOSE, X_MATH2, X_RINT, X_VASTART, X_VACOPY, X_TRUNC, X_FPCLASS, X_GRESET };
static const std::vector<std::pair<std::string, double (*)(double)>> MATH1 = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"erf", erf}, {"erfc", erfc}};
static const std::vector<std::pair<std::string, double (*)(double, double)>> MATH2 = {{"atan2", atan2}, {"nextafter", nextafter}};
static void decode(Func &F) {
  F.decoded = true; llvm::Function &f = *F.lf; std::map<const llvm::Value *, int> reg; std::map<const llvm::BasicBlock *, int> bbi;
  std::set<const llvm::Value *> slots; int n = 0;
  for (auto &a : f.args()) reg[&a] = n++;
  F.nargs = n; int b = 0;
  for (auto &B : f) { bbi[&B] = b++; for (auto &I : B) {
    if (auto *al = dyn_cast<llvm::AllocaInst>(&I)) { if (!al->isArrayAllocation() && !al->getAllocatedType()->isAggregateType() && llvm::isAllocaPromotable(al)) slots.insert(al); }
    if (!I.getType()->isVoidTy()) reg[&I] = n++; } }
  F.nregs = n;
  for (auto &B : f) {
    F.bbStart.push_back(F.code.size());
    for (auto &I : B) {
      if (isa<llvm::DbgInfoIntrinsic>(I)) continue;
      Inst x; x.o = I_NOP; x.line = sourceLine(I); x.bb = bbi[&B]; if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; }
      auto P = [&](const llvm::Value *v) { x.ops.push_back(opd(F, reg, v)); };
      switch (I.getOpcode()) {
        case llvm::Instruction::Alloca: {
          auto &al = cast<llvm::AllocaInst>(I); if (slots.count(&al)) { x.o = I_NOP; x.sub = 1; break; }
          x.o = I_ALLOCA; x.imm = DL->getTypeAllocSize(al.getAllocatedType()); NAMES.push_back(al.getName().str()); P(al.getArraySize()); x.ty = nullptr; x.sub = 0; x.cases.push_back({(u64)(uintptr_t)intern(al.getName().str()), 0}); break; }
        case llvm::Instruction::Load: {
          auto &l = cast<llvm::LoadInst>(I); if (slots.count(l.getPointerOperand())) { x.o = I_MOV; P(l.getPointerOperand()); x.w = tw(l.getType()); break; }
          x.o = I_LOAD; P(l.getPointerOperand()); MemT m = memT(l.getType()); x.sub = m.kind; x.imm = m.size; x.ty = l.getType(); x.w = tw(l.getType()); break; }
        case llvm::Instruction::Store: {
          auto &s = cast<llvm::StoreInst>(I); if (slots.count(s.getPointerOperand())) { x.o = I_MOV; P(s.getValueOperand()); x.dst = reg[s.getPointerOperand()]; break; }
          x.o = I_STORE; P(s.getPointerOperand()); P(s.getValueOperand()); MemT m = memT(s.getValueOperand()->getType()); x.sub = m.kind; x.imm = m.size; x.ty = s.getValueOperand()->getType(); break; }
        case llvm::Instruction::GetElementPtr: {
          auto &g = cast<llvm::GetElementPtrInst>(I); x.o = I_GEP; P(g.getPointerOperand()); x.imm = 0;
          for (auto gti = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); gti != e; ++gti) {
            llvm::Value *idx = gti.getOperand();
            if (auto *st = gti.getStructTypeOrNull()) { x.imm += DL->getStructLayout(st)->getElementOffset(cast<llvm::ConstantInt>(idx)->getZExtValue()); continue; }
            i64 es = DL->getTypeAllocSize(gti.getIndexedType());
            if (auto *ci = dyn_cast<llvm::ConstantInt>(idx)) { x.imm += es * ci->getSExtValue(); continue; }
            x.geps.push_back({opd(F, reg, idx), es, tw(idx->getType())});
          }
          break; }
        case llvm::Instruction::FNeg: x.o = I_FNEG; P(I.getOperand(0)); break;
        case llvm::Instruction::ICmp: { auto &c = cast<llvm::ICmpInst>(I); x.o = I_ICMP; x.sub = c.getPredicate(); x.w = tw(c.getOperand(0)->getType()); P(c.getOperand(0)); P(c.getOperand(1)); break; }
        case llvm::Instruction::FCmp: { auto &c = cast<llvm::FCmpInst>(I); x.o = I_FCMP; x.sub = c.getPredicate(); P(c.getOperand(0)); P(c.getOperand(1)); break; }
        case llvm::Instruction::Br: { auto &br = cast<llvm::BranchInst>(I); if (br.isConditional()) { x.o = I_CBR; P(br.getCondition()); x.cases.push_back({0, bbi[br.getSuccessor(0)]}); x.cases.push_back({0, bbi[br.getSuccessor(1)]}); } else { x.o = I_BR; x.cases.push_back({0, bbi[br.getSuccessor(0)]}); } break; }
        case llvm::Instruction::Switch: { auto &s = cast<llvm::SwitchInst>(I); x.o = I_SWITCH; P(s.getCondition()); x.w = tw(s.getCondition()->getType()); x.imm = bbi[s.getDefaultDest()]; for (auto &c : s.cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
        case llvm::Instruction::Ret: x.o = I_RET; if (I.getNumOperands()) P(I.getOperand(0)); break;
        case llvm::Instruction::Unreachable: x.o = I_UNREACH; break;
        case llvm::Instruction::Select: x.o = I_SELECT; P(I.getOperand(0)); P(I.getOperand(1)); P(I.getOperand(2)); break;
        case llvm::Instruction::PHI: { auto &p = cast<llvm::PHINode>(I); x.o = I_PHI; for (unsigned i = 0; i < p.getNumIncomingValues(); i++) x.phis.push_back({bbi[p.getIncomingBlock(i)], opd(F, reg, p.getIncomingValue(i))}); break; }
        case llvm::Instruction::ExtractValue: { auto &e = cast<llvm::ExtractValueInst>(I); x.o = I_EXTRACT; P(e.getOperand(0)); x.imm = e.getIndices()[0]; if (e.getNumIndices() != 1) engineError("nested extractvalue"); break; }
        case llvm::Instruction::InsertValue: { auto &e = cast<llvm::InsertValueInst>(I); x.o = I_INSERT; P(e.getOperand(0)); P(e.getOperand(1)); x.imm = e.getIndices()[0]; x.sub = isa<llvm::StructType>(e.getType()) ? e.getType()->getStructNumElements() : e.getType()->getArrayNumElements(); break; }
        case llvm::Instruction::Freeze: x.o = I_MOV; P(I.getOperand(0)); break;
        case llvm::Instruction::Call: {
          auto &c = cast<llvm::CallInst>(I); llvm::Function *cal = c.getCalledFunction(); x.o = I_CALL;
          for (auto &a : c.args()) { P(a.get()); x.opw.push_back(a->getType()->isDoubleTy() ? 101 : a->getType()->isFloatTy() ? 102 : a->getType()->isPointerTy() ? 100 : tw(a->getType())); if (c.isByValArgument(x.ops.size() - 1)) { x.cases.push_back({x.ops.size() - 1, (int)DL->getTypeAllocSize(c.getParamByValType(x.ops.size() - 1))}); } }
          x.retw = c.getType()->isVoidTy() ? 0 : c.getType()->isDoubleTy() ? 101 : c.getType()->isFloatTy() ? 102 : tw(c.getType());
          if (!cal) { P(c.getCalledOperand()); x.sub = 1; break; }
          std::string nm = cal->getName().str();
          if (llvm::Function *wf = M->getFunction("__wrap_" + nm); wf && !wf->isDeclaration()) { x.callee = wf; break; }
          if (!nm.compare(0, 13, "llvm.lifetime") || !nm.compare(0, 8, "llvm.dbg") || !nm.compare(0, 11, "llvm.va_end") || nm == "llvm.assume" || !nm.compare(0, 14, "llvm.stacksave") || !nm.compare(0, 17, "llvm.stackrestore")) { x.o = I_NOP; x.sub = 2; break; }
          if (cal->isVarArg()) { std::string mn = "__m_" + nm; if (nm.compare(0, 14, "__isoc99_") == 0) mn = "__m_" + nm.substr(9); if (!nm.compare(0, 9, "__isoc99_")) mn = "__m_" + nm.substr(9); if (!nm.compare(0, 9, "__isoc23_")) mn = "__m_" + nm.substr(9);
            if (llvm::Function *mf = M->getFunction(mn)) { x.callee = mf; x.sub = 2; x.imm = cal->getFunctionType()->getNumParams(); break; } }
          auto &T = intrinTable(); std::string base = nm;
          for (const char *pre : {"llvm.memcpy", "llvm.memset", "llvm.memmove", "llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.sqrt", "llvm.exp", "llvm.log", "llvm.pow", "llvm.fmuladd", "llvm.rint", "llvm.round", "llvm.trunc", "llvm.va_start", "llvm.va_copy"}) if (nm.compare(0, strlen(pre), pre) == 0 && (nm.size() == strlen(pre) || nm[strlen(pre)] == '.')) base = std::string(pre + 5);
          auto it = T.find(base); if (it != T.end() && cal->isDeclaration()) { x.intrin = it->second; x.fk = c.getType()->isFloatTy() ? 2 : 1; break; }
          if (!cal->isDeclaration()) { x.callee = cal; break; }
          if (!nm.compare(0, 15, "llvm.is.fpclass")) { x.intrin = X_FPCLASS; break; }
          for (size_t i = 0; i < MATH1.size(); i++) if (MATH1[i].first == nm) { x.intrin = X_MATH1; x.imm = i; }
          for (size_t i = 0; i < MATH2.size(); i++) if (MATH2[i].first == nm) { x.intrin = X_MATH2; x.imm = i; }
          if (x.intrin >= 0) break;
          x.callee = cal; x.sub = 3; break; }
        default:
          if (I.isBinaryOp()) {
            llvm::Type *t = I.getType(); x.sub = I.getOpcode(); P(I.getOperand(0)); P(I.getOperand(1));
            if (t->isFloatingPointTy()) { x.o = I_FBIN; x.fk = t->isFloatTy() ? 2 : 1; switch (I.getOpcode()) { case llvm::Instruction::FAdd: x.sub = 0; break; case llvm::Instruction::FSub: x.sub = 1; break; case llvm::Instruction::FMul: x.sub = 2; break; case llvm::Instruction::FDiv: x.sub = 3; break; default: x.sub = 4; } }
            else { x.o = I_BIN; x.w = tw(t); if (auto *ob = dyn_cast<llvm::OverflowingBinaryOperator>(&I)) x.flags = (ob->hasNoSignedWrap() ? 1 : 0) | (ob->hasNoUnsignedWrap() ? 2 : 0); }
          } else if (I.isCast()) { x.o = I_CAST; x.sub = I.getOpcode(); P(I.getOperand(0)); x.w = tw(I.getType()); x.w2 = tw(I.getOperand(0)->getType()); x.fk = I.getType()->isFloatTy() ? 2 : 1; }
          else { std::string s; llvm::raw_string_ostream os(s); I.print(os); engineError("instruction not supported: " + os.str()); }
      }
      F.code.push_back(x);
    }
  }
}

// ---------------------------------------------------------------- integer operations
static void checkRange(const Poly &p, unsigned w, bool nsw) {
  // the value must fit the signed range of the type; otherwise wrap-around would be needed
  bool hl, hh; mpq_class lo, hi; mpz_class lim = 1; lim <<= (w - 1); mpq_class mx = mpq_class(lim - 1), mn = mpq_class(-lim);
  if (ival(p, hl, lo, hh, hi) && hl && hh && lo >= mn && hi <= mx) return;
  Poly over = padd(Poly(mx), p, -1), under = padd(p, Poly(mn), -1);
  if (decide(over, LT) || decide(under, LT)) { if (nsw) { violation("overflow", "signed integer overflow", -1, true); throw PathEnd{1}; } engineError("symbolic unsigned wrap"); }
}
static Val ibin(unsigned op, const Val &a, const Val &b, unsigned w, u8 flags) {
  using I = llvm::Instruction;
  if (a.k == UNDEF || b.k == UNDEF) {
    if (op == I::SDiv || op == I::UDiv || op == I::SRem || op == I::URem) if (b.k == UNDEF) memError("division by uninitialised value");
    // bit-fields: keep the bits of a partly uninitialised word that a mask has made known (u = known bits << 32 | values)
    if (w <= 32 && (op == I::And || op == I::Or) && (a.k == CONC || b.k == CONC)) {
      const Val &un = a.k == UNDEF ? a : b; u64 c = maskw(a.k == UNDEF ? b.u : a.u, w), kn = un.u >> 32, vl = un.u & 0xffffffffu;
      if (op == I::And) { kn |= ~c; vl &= c; } else { kn |= c; vl |= c; }
      kn = maskw(kn, w); vl &= kn; if (kn == maskw(~0ULL, w)) return Val::c(vl);
      Val r; r.u = kn << 32 | vl; return r;
    }
    return Val();
  }
  if (a.k == CONC && b.k == CONC) {
    u64 x = a.u, y = b.u, r = 0;
    switch (op) {
      case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break;
      case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break;
      case I::Shl: if (y >= w) return Val(); r = x << y; break; case I::LShr: if (y >= w) return Val(); r = maskw(x, w) >> y; break; case I::AShr: if (y >= w) return Val(); r = sx(x, w) >> y; break;
      case I::UDiv: case I::URem: x = maskw(x, w); y = maskw(y, w); if (!y) { violation("arith", "integer division by zero", -1, true); throw PathEnd{1}; } r = op == I::UDiv ? x / y : x % y; break;
      case I::SDiv: case I::SRem: { i64 p = sx(x, w), q = sx(y, w); if (!q) { violation("arith", "integer division by zero", -1, true); throw PathEnd{1}; } if (q == -1) r = op == I::SDiv ? (u64)-p : 0; else r = op == I::SDiv ? p / q : p % q; break; }
      default: engineError("int op");
    }
    if ((flags & 1) && w <= 32 && (op == I::Add || op == I::Sub || op == I::Mul)) { i64 p = sx(a.u, w), q = sx(b.u, w); i64 z = op == I::Add ? p + q : op == I::Sub ? p - q : p * q; if (z != sx(r, w)) { violation("overflow", "signed integer overflow", -1, true); throw PathEnd{1}; } }
    return Val::c(maskw(r, w));
  }
  if (a.k == SB || b.k == SB) { u64 x = a.k == SB ? decideVal(a, "op") : a.u, y = b.k == SB ? decideVal(b, "op") : b.u; return ibin(op, Val::c(x), Val::c(y), w, flags); }
  switch (op) {
    case I::Add: case I::Sub: case I::Mul: {
      Poly p = toPolyI(a, w), q = toPolyI(b, w); Poly r = op == I::Add ? padd(p, q) : op == I::Sub ? padd(p, q, -1) : pmul(p, q);
      checkRange(r, w, flags & 1); return mkInt(r, w); }
    case I::Shl: if (b.k == CONC) { Poly r = pscale(toPolyI(a, w), mpqOfI64(1LL << b.u)); checkRange(r, w, flags & 1); return mkInt(r, w); } break;
    case I::SDiv: case I::SRem: case I::UDiv: case I::URem:
      if (b.k == CONC && sx(b.u, w) > 0) {
        i64 c = sx(b.u, w); Poly p = substKnown(toPolyI(a, w)); if (p.isConst()) break;
        if (c == 1) return (op == I::SDiv || op == I::UDiv) ? a : Val::c(0);
        if (!decide(p, LT)) {
          bool hl = false, hh = false; mpq_class lo, hi; if (!ival(p, hl, lo, hh, hi)) hl = hh = false; mpz_class zh; if (hh) mpz_fdiv_q_ui(zh.get_mpz_t(), hi.get_num().get_mpz_t(), c);
          mpq_class av; bool have = evalAssign(p, av);
          int q = newVar("quot", true, true, 0, false, hh, mpq_class(zh), false);
          if (have) { mpz_class z; mpz_fdiv_q_ui(z.get_mpz_t(), av.get_num().get_mpz_t(), c); setv(CUR->assign, q, mpq_class(z)); } else CUR->assignOk = false;
          Poly cq = pscale(Poly::var(q), mpqOfI64(c)), rem = padd(p, cq, -1);
          addConstraint(*CUR, internAtom(pscale(rem, -1), LE)); addConstraint(*CUR, internAtom(padd(rem, Poly(mpqOfI64(c - 1)), -1), LE));
          return (op == I::SDiv || op == I::UDiv) ? mkInt(Poly::var(q), w) : mkInt(rem, w);
        }
      }
      break;
    default: break;
  }
  u64 x = concretize(a, w, "operand"), y = concretize(b, w, "operand");
  return ibin(op, Val::c(x), Val::c(y), w, flags);
}
static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  using P = llvm::CmpInst;
  if (a.k == UNDEF || b.k == UNDEF) return Val();
  if (a.k == CONC && b.k == CONC) {
    u64 x = maskw(a.u, w), y = maskw(b.u, w); i64 p = sx(x, w), q = sx(y, w); bool r;
    switch (pred) { case P::ICMP_EQ: r = x == y; break; case P::ICMP_NE: r = x != y; break; case P::ICMP_UGT: r = x > y; break; case P::ICMP_UGE: r = x >= y; break; case P::ICMP_ULT: r = x < y; break; case P::ICMP_ULE: r = x <= y; break;
      case P::ICMP_SGT: r = p > q; break; case P::ICMP_SGE: r = p >= q; break; case P::ICMP_SLT: r = p < q; break; default: r = p <= q; }
    return Val::c(r);
  }
  if (a.k == SB || b.k == SB) { u64 x = a.k == SB ? decideVal(a, "cmp") : a.u, y = b.k == SB ? decideVal(b, "cmp") : b.u; return icmp(pred, Val::c(x), Val::c(y), w); }
  Poly p = toPolyI(a, w), q = toPolyI(b, w); Poly d = padd(p, q, -1);
  switch (pred) {
    case P::ICMP_EQ: return mkBool(d, EQ); case P::ICMP_NE: return mkBool(d, NE);
    case P::ICMP_UGT: case P::ICMP_UGE: case P::ICMP_ULT: case P::ICMP_ULE: {
      bool na = decide(p, LT), nb = decide(q, LT);
      if (na != nb) { bool agt = na; return Val::c((pred == P::ICMP_UGT || pred == P::ICMP_UGE) ? agt : !agt); }
      pred = pred == P::ICMP_UGT ? P::ICMP_SGT : pred == P::ICMP_UGE ? P::ICMP_SGE : pred == P::ICMP_ULT ? P::ICMP_SLT : P::ICMP_SLE; break; }
    default: break;
  }
  switch (pred) { case P::ICMP_SGT: return mkBool(pscale(d, -1), LT); case P::ICMP_SGE: return mkBool(pscale(d, -1), LE); case P::ICMP_SLT: return mkBool(d, LT); default: return mkBool(d, LE); }
}
static Val realConst(double d) { if (!std::isfinite(d)) return Val::d(d); return MODE_REAL ? mkQ(mpq_class(d)) : Val::d(d); }
static Val castV(const Inst &I, const Val &v) {
  using C = llvm::Instruction;
  if (v.k == UNDEF) return v;
  switch (I.sub) {
    case C::Trunc:
      if (v.k == CONC) return Val::c(maskw(v.u, I.w));
      if (v.k == SI) {
        if (I.w == 1) return Val::c(concretize(v, I.w2, "bool") & 1);
        bool hl, hh; mpq_class lo, hi; mpz_class lim = 1; lim <<= (I.w - 1); Poly &p = ((SymI *)v.p.p)->p;
        if (ival(p, hl, lo, hh, hi) && hl && hh && lo >= mpq_class(-lim) && hi <= mpq_class(lim - 1)) return v;
        return Val::c(maskw(concretize(v, I.w2, "truncated value"), I.w));
      }
      break;
    case C::ZExt:
      if (v.k == CONC) return Val::c(maskw(v.u, I.w2));
      if (v.k == SB) return Val::c(decideVal(v, "condition"));
      if (v.k == SI) { Poly p = toPolyI(v, I.w2); if (!decide(p, LT)) return v; return Val::c(maskw(concretize(v, I.w2, "zext"), I.w2)); }
      break;
    case C::SExt: if (v.k == CONC) return Val::c(maskw((u64)sx(v.u, I.w2), I.w)); if (v.k == SB) return Val::c(decideVal(v, "condition") ? maskw(~0ULL, I.w) : 0); return v;
    case C::PtrToInt: case C::IntToPtr: case C::BitCast: return v;
    case C::FPExt: return v;
    case C::FPTrunc:
      if (I.fk != 2) return v;
      if (v.k == CONC && !MODE_REAL) return Val::d((double)(float)v.dbl());
      if (v.k == RATV || (v.k == CONC && MODE_REAL)) { double d = (float)toD(v); return std::isfinite(d) ? mkQ(mpq_class(d)) : Val::d(d); }
      // a symbolic value kept in single precision: two values that are rounded, all others exact
      if (v.k == SR && MODE_REAL) for (double c : {7.7, 0.7}) if (decideVal(fcmp(llvm::CmpInst::FCMP_OEQ, v, realConst(c)), "rounding")) return mkQ(mpq_class((double)(float)c));
      return v;
    case C::SIToFP: case C::UIToFP:
      if (v.k == CONC) { double d = I.sub == C::SIToFP ? (double)sx(v.u, I.w2) : (double)maskw(v.u, I.w2); if (I.fk == 2 && !MODE_REAL) d = (float)d; return Val::d(d); }
      if (v.k == SB) return Val::d(decideVal(v, "condition"));
      { Rat r; r.num = toPolyI(v, I.w2); if (I.sub == C::UIToFP && decide(r.num, LT)) engineError("uitofp negative"); return mkR(r); }
    case C::FPToSI: case C::FPToUI: {
      if (v.k == SR) {
        Rat r = toRat(v);
        if (r.den.empty()) { bool ii = true; for (auto &t : r.num.t) { if (!isIntQ(t.c)) ii = false; for (int x : t.m) if (!VARS[x].isInt) ii = false; } if (ii) return mkInt(r.num, I.w); }
        // truncation towards zero
        if (!decide(r.num, LT)) { Val f = floorV(v, false); Rat fr = toRat(f); return mkInt(fr.num, I.w); }
        Rat n = r; n.num = pscale(n.num, -1); Val f = floorV(mkR(n), false); Rat fr = toRat(f); return mkInt(pscale(fr.num, -1), I.w);
      }
      if (isSpecial(v)) { violation("arith", "conversion of a non-finite number to an integer", -1, true); throw PathEnd{1}; }
      mpz_class z; if (v.k == RATV) { mpq_class q = toQ(v); mpz_tdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); } else { double d = v.dbl(); if (fabs(d) > 9.3e18) { violation("arith", "conversion out of integer range", -1, true); throw PathEnd{1}; } z = mpz_class(trunc(d)); }
      return Val::c(maskw((u64)(i64)z.get_si(), I.w)); }
  }
  engineError("cast not supported");
}

// ---------------------------------------------------------------- intrinsics
static const std::map<std::string, int> &intrinTable() {
  static std::map<std::string, int> T = {{"sym_int", X_SYM_INT}, {"sym_real", X_SYM_REAL}, {"sym_draw", X_SYM_DRAW}, {"sym_assume", X_ASSUME}, {"sym_assert", X_ASSERT}, {"sym_assert_eq", X_ASSERT_EQ}, {"sym_assert_le", X_ASSERT_LE}, {"sym_reach", X_REACH}, {"sym_conc", X_CONC}, {"sym_note_i", X_NOTE_I}, {"sym_note_d", X_NOTE_D}, {"sym_note_s", X_NOTE_S}, {"sym_symbolic", X_ISSYM}, {"sym_draw_limit", X_DRAWLIM}, {"sym_step_limit", X_STEPLIM}, {"__m_uncount", X_UNCOUNT}, {"sym_stop", X_STOP}, {"sym_allow_exit", X_ALLOWEXIT}, {"sym_alloc_ok", X_ISALLOC}, {"sym_live_blocks", X_LIVE}, {"__m_reset_globals", X_GRESET},
    {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"sqrt", X_SQRT}, {"log", X_LOG}, {"exp", X_EXP}, {"pow", X_POW}, {"fabs", X_FABS}, {"floor", X_FLOOR}, {"ceil", X_CEIL}, {"round", X_ROUND}, {"rint", X_RINT}, {"trunc", X_TRUNC}, {"va_start", X_VASTART}, {"va_copy", X_VACOPY}, {"fmuladd", X_FMULADD}, {"exit", X_EXIT}, {"abort", X_ABORT}, {"__assert_fail", X_ASSERTFAIL}, {"gsl_sf_lnchoose", X_LNCHOOSE}, {"gsl_sf_lnfact", X_LNFACT}, {"gsl_sf_lngamma", X_LNGAMMA}, {"gsl_sf_fact", X_FACT}, {"gsl_sf_choose", X_CHOOSE}, {"__m_dtoa", X_DTOA}, {"__m_atod", X_ATOD}};
  return T;
}
static u64 argc_(Frame &f, const Inst &I, int i, const char *what) { const Val &v = I.ops[i] >= 0 ? f.regs[I.ops[i]] : f.f->pool[-I.ops[i] - 1]; return concretize(v, I.opw[i] >= 100 ? 64 : I.opw[i], what); }
static void symVals(const std::string &name, int kind, const Val &v) { (void)name; (void)kind; (void)v; }
static int DRAWLIM = 1 << 30;
static void assertEq(const Val &a, const Val &b, const std::string &msg) {
  SH->asserts++;
  if (a.k == UNDEF || b.k == UNDEF) memError("assertion on uninitialised value: " + msg);
  bool na = a.k == CONC && std::isnan(a.dbl()), nb = b.k == CONC && std::isnan(b.dbl());
  if (na || nb) { if (na && nb) { SH->assertsNorm++; return; } violation("assert", msg, -1, true); throw PathEnd{1}; }
  if (isSpecial(a) || isSpecial(b)) { if (a.k == CONC && b.k == CONC && a.dbl() == b.dbl()) { SH->assertsNorm++; return; } violation("assert", msg, -1, true); throw PathEnd{1}; }
  if (a.k != SR && b.k != SR) {
    double x = toD(a), y = toD(b); bool ok;
    if (MODE_REAL && toQ(a) == toQ(b)) ok = true; else ok = fabs(x - y) <= 1e-9 * (1 + fabs(x) + fabs(y));
    if (!ok) { CUR->notes.push_back({"lhs", std::to_string(x)}); CUR->notes.push_back({"rhs", std::to_string(y)}); violation("assert", msg, -1, true); throw PathEnd{1}; }
    SH->assertsNorm++; return;
  }
  Rat ra = toRat(a), rb = toRat(b); Rat d = radd(ra, rb, -1); d.num = substKnown(d.num);
  if (d.num.isZero()) { SH->assertsNorm++; return; }
  std::vector<int> bad;
  if (MODE_REAL) bad.push_back(internAtom(d.num, NE));
  else { Poly D = pscale(pprod(d.den), mpq_class(1, 1000000)); bad.push_back(internAtom(padd(D, d.num, -1), LT)); bad.push_back(internAtom(padd(d.num, D), LT)); }
  for (int at : bad) {
    if (ATOMS[at].p.isConst()) { if (!holds(ATOMS[at].p.constVal(), ATOMS[at].op)) continue; violation("assert", msg, -1, true); throw PathEnd{1}; }
    QRes r = query(at, true);
    if (r.r == 1) { violation("assert", msg, at, true); throw PathEnd{1}; }
    if (r.r < 0) { SH->assertsUnk++; emit("{\"type\":\"undecided\",\"msg\":" + jstr(msg) + "}"); } else SH->assertsZ3++;
  }
}
static void assertLe(const Val &a, const Val &b, const std::string &msg) {
  SH->asserts++;
  if (a.k == UNDEF || b.k == UNDEF) memError("assertion on uninitialised value: " + msg);
  if (a.k != SR && b.k != SR) {
    double x = toD(a), y = toD(b);
    bool ok = (MODE_REAL && !isSpecial(a) && !isSpecial(b)) ? toQ(a) <= toQ(b) || x <= y + 1e-9 * (1 + fabs(x) + fabs(y)) : x <= y + 1e-9 * (1 + fabs(x) + fabs(y));
    if (!ok) { CUR->notes.push_back({"lhs", std::to_string(x)}); CUR->notes.push_back({"rhs", std::to_string(y)}); violation("assert", msg, -1, true); throw PathEnd{1}; }
    SH->assertsNorm++; return;
  }
  if (isSpecial(a) || isSpecial(b)) { violation("assert", msg, -1, true); throw PathEnd{1}; }
  Poly d = substKnown(rdiffnum(toRat(b), toRat(a)));  // bad iff d < 0
  if (!MODE_REAL) { Rat t = radd(toRat(b), toRat(a), -1); d = padd(t.num, pscale(pprod(t.den), mpq_class(1, 1000000))); d = substKnown(d); }
  if (d.isConst()) { if (d.constVal() >= 0) { SH->assertsNorm++; return; } violation("assert", msg, -1, true); throw PathEnd{1}; }
  int iv = ivalDecide(d, LT); if (iv == 0) { SH->assertsNorm++; return; }
  int at = internAtom(d, LT); QRes r = query(at, true);
  if (r.r == 1) { violation("assert", msg, at, true); throw PathEnd{1}; }
  if (r.r < 0) { SH->assertsUnk++; emit("{\"type\":\"undecided\",\"msg\":" + jstr(msg) + "}"); } else SH->assertsZ3++;
}
static void setDst(Frame &f, const Inst &I, const Val &v) { if (I.dst >= 0) f.regs[I.dst] = v; }
static u64 allocHeap(u64 n, bool zero) {
  if (n > (1ULL << 28)) memError("allocation of an absurd size (negative or overflowing)");
  u32 id = newObj(n, HEAP, "heap", zero); CUR->heapLive++; return (u64)id << 32;
}
static void doFree(u64 a) {
  if (!a) return; u32 id = a >> 32;
  if (id == 0 || id >= CUR->objs.size()) memError("free of a wild pointer");
  Obj *o = CUR->objs[id].p;
  if (o->kind == FREED) memError("double free");
  if (o->kind != HEAP) memError("free of memory that was not allocated");
  if ((u32)a) memError("free of a pointer into the middle of a block");
  static Ref<Obj> dead(new Obj(0, FREED, "freed")); CUR->objs[id] = dead; CUR->heapLive--;
}
static void intrin(Frame &f, const Inst &I) {
  auto A = [&](int i) -> const Val & { return I.ops[i] >= 0 ? f.regs[I.ops[i]] : f.f->pool[-I.ops[i] - 1]; };
  switch (I.intrin) {
    case X_SYM_INT: {
      i64 lo = sx(argc_(f, I, 0, "bound"), 32), hi = sx(argc_(f, I, 1, "bound"), 32); std::string nm = readStr(argc_(f, I, 2, "name"));
      if (lo > hi) { throw PathEnd{3}; }
      if (lo == hi) { CUR->inputs.push_back({0, -1, lo, 0, intern(nm)}); setDst(f, I, Val::c(maskw(lo, 32))); break; }
      int v = newVar(nm, true, true, mpqOfI64(lo), false, true, mpqOfI64(hi), false); CUR->inputs.push_back({0, v, 0, 0, intern(nm)}); setDst(f, I, mkInt(Poly::var(v), 32)); break; }
    case X_SYM_REAL: {
      Val l = A(0), h = A(1); std::string nm = readStr(argc_(f, I, 2, "name")); bool hl = std::isfinite(toD(l)), hh = std::isfinite(toD(h));
      int v = newVar(nm, false, hl, hl ? toQ(l) : mpq_class(0), false, hh, hh ? toQ(h) : mpq_class(0), false); CUR->inputs.push_back({1, v, 0, 0, intern(nm)}); Rat r; r.num = Poly::var(v); setDst(f, I, mkR(r)); break; }
    case X_SYM_DRAW: {
      if (CUR->ndraws >= DRAWLIM) { SH->pathsLimit++; throw PathEnd{4}; }
      CUR->ndraws++; int v = newVar("draw", false, true, 0, false, true, 1, true); CUR->inputs.push_back({2, v, 0, 0, "draw"}); Rat r; r.num = Poly::var(v); setDst(f, I, mkR(r)); break; }
    case X_ASSUME: if (!(A(0).k == CONC ? (u32)A(0).u != 0 : decideVal(A(0), "assumption"))) { throw PathEnd{3}; } break;
    case X_ASSERT: { u64 mp = argc_(f, I, 1, "msg"); SH->asserts++; if (A(0).k == UNDEF) memError("assertion on uninitialised value: " + readStr(mp)); if (!(A(0).k == CONC ? (u32)A(0).u != 0 : decideVal(A(0), "assertion"))) { violation("assert", readStr(mp), -1, true); throw PathEnd{1}; } else SH->assertsNorm++; break; }
    case X_ASSERT_EQ: assertEq(A(0), A(1), readStr(argc_(f, I, 2, "msg"))); break;
    case X_ASSERT_LE: assertLe(A(0), A(1), readStr(argc_(f, I, 2, "msg"))); break;
    case X_REACH: { std::string t = readStr(argc_(f, I, 0, "tag")); lockSh(); int k; for (k = 0; k < SH->nreach; k++) if (t == SH->reach[k]) break; if (k == SH->nreach && k < 256) { strncpy(SH->reach[k], t.c_str(), 63); SH->nreach++; } unlockSh(); if (k < 256) SH->reachCnt[k]++; break; }
    case X_CONC: setDst(f, I, Val::c(concretize(A(0), 32, "value"))); break;
    case X_NOTE_I: { std::string t = readStr(argc_(f, I, 0, "tag")); const Val &v = A(1); CUR->notes.push_back({t, v.k == CONC ? std::to_string(sx(v.u, 32)) : v.k == UNDEF ? "undef" : "sym"}); break; }
    case X_NOTE_D: { std::string t = readStr(argc_(f, I, 0, "tag")); const Val &v = A(1); char b[64] = "sym"; if (v.k == CONC || v.k == RATV) snprintf(b, 64, "%.17g", toD(v)); CUR->notes.push_back({t, v.k == UNDEF ? "undef" : b}); break; }
    case X_NOTE_S: CUR->notes.push_back({readStr(argc_(f, I, 0, "tag")), readStr(argc_(f, I, 1, "str"))}); break;
    case X_ISSYM: setDst(f, I, Val::c(1)); break;
    case X_DRAWLIM: DRAWLIM = argc_(f, I, 0, "limit"); break;
    case X_UNCOUNT: CUR->heapLive -= (int)argc_(f, I, 0, "count"); break;
    case X_STEPLIM: STEP_LIMIT = argc_(f, I, 0, "limit"); break;
    case X_STOP: throw PathEnd{3};
    case X_ALLOWEXIT: ALLOW_EXIT = true; break;
    case X_ISALLOC: { u64 a = argc_(f, I, 0, "pointer"); u32 id = a >> 32; bool ok = id > 0 && id < CUR->objs.size() && CUR->objs[id]->kind == HEAP; setDst(f, I, Val::c(ok)); break; }
    case X_GRESET: for (auto &g : GINIT) CUR->objs[g.first] = g.second; break;
    case X_LIVE: setDst(f, I, Val::c(CUR->heapLive)); break;
    case X_MALLOC: { u64 n = argc_(f, I, 0, "size"); setDst(f, I, Val::c(allocHeap(n, false))); break; }
    case X_CALLOC: { u64 n = argc_(f, I, 0, "size"), m = argc_(f, I, 1, "size"); if (n && m > (1ULL << 40) / n) memError("allocation of an absurd size (negative or overflowing)"); setDst(f, I, Val::c(allocHeap(n * m, true))); break; }
    case X_REALLOC: { u64 a = argc_(f, I, 0, "pointer"), n = argc_(f, I, 1, "size"); if (!a) { setDst(f, I, Val::c(allocHeap(n, false))); break; } u32 id = a >> 32, off; chk(a, 0, "realloc", off); if (CUR->objs[id]->kind != HEAP || off) memError("realloc of a bad pointer"); u32 osz = CUR->objs[id]->size; u64 na = allocHeap(n, false); copyMem(na, a, std::min<u64>(osz, n)); doFree(a); setDst(f, I, Val::c(na)); break; }
    case X_FREE: doFree(argc_(f, I, 0, "pointer")); break;
    case X_MEMCPY: { u64 d = argc_(f, I, 0, "pointer"), s = argc_(f, I, 1, "pointer"), n = argc_(f, I, 2, "size"); copyMem(d, s, n); setDst(f, I, Val::c(d)); break; }
    case X_MEMSET: { u64 d = argc_(f, I, 0, "pointer"), c = argc_(f, I, 1, "byte"), n = argc_(f, I, 2, "size"); if (n) { u32 off; chk(d, n, "write", off); Obj *o = wr(d >> 32); killCells(o, off, n); memset(&o->data[off], (int)c, n); memset(&o->st[off], 1, n); } setDst(f, I, Val::c(d)); break; }
    case X_SQRT: { const Val &v = A(0); if (v.k == UNDEF) setDst(f, I, Val()); else if (v.k == SR) setDst(f, I, ufApply(UF_SQRT, v)); else {
        if (MODE_REAL && !isSpecial(v)) { mpq_class q = toQ(v); if (q >= 0) { mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den()); if (n * n == q.get_num() && d * d == q.get_den()) { setDst(f, I, mkQ(mpq_class(n, d))); break; } } }
        setDst(f, I, realConst(sqrt(toD(v)))); } break; }
    case X_LOG: { const Val &v = A(0); if (v.k == UNDEF) setDst(f, I, Val()); else if (v.k == SR) setDst(f, I, ufApply(UF_LOG, v)); else setDst(f, I, realConst(log(toD(v)))); break; }
    case X_EXP: { const Val &v = A(0); if (v.k == UNDEF) setDst(f, I, Val()); else if (v.k == SR) setDst(f, I, ufApply(UF_EXP, v)); else setDst(f, I, realConst(exp(toD(v)))); break; }
    case X_POW: { const Val &a = A(0), &b = A(1); if (a.k == UNDEF || b.k == UNDEF) { setDst(f, I, Val()); break; }
        if (b.k == CONC && b.dbl() == floor(b.dbl()) && fabs(b.dbl()) <= 8 && (a.k == SR || (MODE_REAL && !isSpecial(a)))) { int n = (int)fabs(b.dbl()); Val r = Val::d(1); for (int i = 0; i < n; i++) r = fbin(2, r, a, 1); if (b.dbl() < 0) r = fbin(3, Val::d(1), r, 1); setDst(f, I, r); break; }
        if (a.k == SR || b.k == SR) engineError("symbolic pow"); setDst(f, I, realConst(pow(toD(a), toD(b)))); break; }
    case X_FABS: { const Val &v = A(0); if (v.k == UNDEF) { setDst(f, I, Val()); break; } if (v.k == SR) { Rat r = toRat(v); if (decide(r.num, LT)) { r.num = pscale(r.num, -1); setDst(f, I, mkR(r)); } else setDst(f, I, v); } else if (v.k == RATV) setDst(f, I, mkQ(abs(toQ(v)))); else setDst(f, I, Val::d(fabs(v.dbl()))); break; }
    case X_FLOOR: setDst(f, I, floorV(A(0), false)); break;
    case X_CEIL: { const Val &v = A(0); if (v.k == SR) { Val n = fbin(1, Val::d(0), v, 1); Val fl = floorV(n, false); setDst(f, I, fbin(1, Val::d(0), fl, 1)); } else setDst(f, I, floorV(v, true)); break; }
    case X_RINT: case X_ROUND: { const Val &v = A(0); if (v.k == UNDEF) { setDst(f, I, v); break; } if (v.k == SR) setDst(f, I, floorV(fbin(0, v, Val::d(0.5), 1), false)); else setDst(f, I, realConst(I.intrin == X_RINT ? rint(toD(v)) : round(toD(v)))); break; }
    case X_TRUNC: { const Val &v = A(0); if (v.k == UNDEF) { setDst(f, I, v); break; } if (v.k == SR) { if (decide(toRat(v).num, LT)) { Val n = fbin(1, Val::d(0), v, 1); setDst(f, I, fbin(1, Val::d(0), floorV(n, false), 1)); } else setDst(f, I, floorV(v, false)); } else setDst(f, I, realConst(trunc(toD(v)))); break; }
    case X_FPCLASS: { const Val &v = A(0); u64 m = argc_(f, I, 1, "class"); if (v.k == UNDEF) { setDst(f, I, v); break; } u64 c;
        if (v.k == SR) { if ((m & 0x1F8) == 0x1F8) c = 256; else if (!(m & 0x1F8)) c = 1; else { Poly p = toRat(v).num; c = decide(p, LT) ? 8 : decide(p, EQ) ? 64 : 256; } }
        else { double d = toD(v); bool n = std::signbit(d); switch (std::fpclassify(d)) { case FP_NAN: c = 2; break; case FP_INFINITE: c = n ? 4 : 512; break; case FP_ZERO: c = n ? 32 : 64; break; case FP_SUBNORMAL: c = n ? 16 : 128; break; default: c = n ? 8 : 256; } }
        setDst(f, I, Val::c(v.k == SR && c == 1 ? 0 : (m & c) ? 1 : 0)); break; }
    case X_MATH1: { const Val &v = A(0); if (v.k == UNDEF) { setDst(f, I, v); break; } if (v.k == SR) engineError("symbolic " + MATH1[I.imm].first); setDst(f, I, realConst(MATH1[I.imm].second(toD(v)))); break; }
    case X_MATH2: { const Val &v = A(0), &w = A(1); if (v.k == UNDEF || w.k == UNDEF) { setDst(f, I, Val()); break; } if (v.k == SR || w.k == SR) engineError("symbolic " + MATH2[I.imm].first); setDst(f, I, realConst(MATH2[I.imm].second(toD(v), toD(w)))); break; }
    case X_VASTART: { u64 p = argc_(f, I, 0, "va_list"); MemT w{0, 4}, q{3, 8}; storeM(p, w, Val::c(48)); storeM(p + 4, w, Val::c(176)); storeM(p + 8, q, Val::c(f.va)); storeM(p + 16, q, Val::c(0)); break; }
    case X_VACOPY: copyMem(argc_(f, I, 0, "va_list"), argc_(f, I, 1, "va_list"), 24); break;
    case X_FMULADD: setDst(f, I, fbin(0, fbin(2, A(0), A(1), I.fk), A(2), I.fk)); break;
    case X_LNCHOOSE: { u64 n = sx(argc_(f, I, 0, "argument"), 32), m = sx(argc_(f, I, 1, "argument"), 32); if (m > n || (i64)n < 0) { violation("arith", "log-binomial of arguments out of domain", -1, true); throw PathEnd{1}; } setDst(f, I, realConst(gsl_sf_lnchoose(n, m))); break; }
    case X_CHOOSE: { u64 n = sx(argc_(f, I, 0, "argument"), 32), m = sx(argc_(f, I, 1, "argument"), 32); if (m > n || (i64)n < 0) { violation("arith", "binomial of arguments out of domain", -1, true); throw PathEnd{1}; } setDst(f, I, realConst(gsl_sf_choose(n, m))); break; }
    case X_LNFACT: { i64 n = sx(argc_(f, I, 0, "argument"), 32); if (n < 0) { violation("arith", "log-factorial of a negative number", -1, true); throw PathEnd{1}; } setDst(f, I, realConst(gsl_sf_lnfact(n))); break; }
    case X_FACT: { i64 n = sx(argc_(f, I, 0, "argument"), 32); if (n < 0) { violation("arith", "factorial of a negative number", -1, true); throw PathEnd{1}; } setDst(f, I, realConst(gsl_sf_fact(n))); break; }
    case X_LNGAMMA: { const Val &v = A(0); if (v.k == UNDEF) { setDst(f, I, v); break; } if (v.k == SR) { setDst(f, I, ufApply(UF_OTHER, v)); break; } double x = toD(v); if (x <= 0 && x == floor(x)) { violation("arith", "log-gamma of a pole", -1, true); throw PathEnd{1}; } gsl_sf_result r; gsl_sf_lngamma_e(x, &r); setDst(f, I, realConst(r.val)); break; }
    case X_DTOA: {
      u64 buf = argc_(f, I, 0, "buffer"); std::string fmt = readStr(argc_(f, I, 1, "format")); const Val &v = A(2); std::string s;
      if (v.k == UNDEF) memError("use of uninitialised value in output");
      if (v.k == SR) { s = "@R" + std::to_string(CUR->tokens.size()) + "@"; CUR->tokens.push_back(v); } else { char b[512]; snprintf(b, 512, fmt.c_str(), toD(v)); s = b; }
      MemT t{0, 1}; for (size_t i = 0; i <= s.size(); i++) storeM(buf + i, t, Val::c((u8)s.c_str()[i])); break; }
    case X_ATOD: {
      u64 p = argc_(f, I, 0, "string"), out = argc_(f, I, 1, "out"); MemT t{0, 1}, td{1, 8}; std::string s; int i = 0; Val c0 = loadM(p, t);
      if (c0.k == CONC && c0.u == '@') { for (i = 1;; i++) { Val c = loadM(p + i, t); u64 ch = concretize(c, 8, "char"); s += (char)ch; if (ch == '@') { i++; break; } if (!ch) engineError("bad token"); } int id = atoi(s.c_str() + 1); storeM(out, td, CUR->tokens[id]); setDst(f, I, Val::c(i)); break; }
      bool symb = false; (void)symb;
      for (i = 0; i < 64; i++) { Val c = loadM(p + i, t); if (c.k == UNDEF) break; u64 ch = concretize(c, 8, "char"); if (!ch || (!isdigit((int)ch) && !strchr("+-.eExXnNaAiIfFtTyY", (int)ch))) break; s += (char)ch; }
      char *end; double d = strtod(s.c_str(), &end); int used = end - s.c_str();
      if (used) { Val r; if (MODE_REAL && std::isfinite(d) && s.find_first_of("xX") == std::string::npos) { r = mkQ(mpq_class(d)); } else r = Val::d(d); storeM(out, td, r); }
      setDst(f, I, Val::c(used)); break; }
    case X_EXIT: if (ALLOW_EXIT) { throw PathEnd{5}; } violation("exit", "program exits", -1, true); throw PathEnd{1};
    case X_ABORT: case X_ASSERTFAIL: violation("abort", "program aborts", -1, true); throw PathEnd{1};
    default: engineError("intrinsic not implemented");
  }
}

// ---------------------------------------------------------------- interpreter
static Val loadAgg(u64 a, llvm::Type *t) {
  if (auto *st = dyn_cast<llvm::StructType>(t)) { Ref<AggV> g(new AggV); auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) g->v.push_back(loadM(a + sl->getElementOffset(i), memT(st->getElementType(i)))); Val v; v.k = AGG; v.p = Ref<RC>(g.p); return v; }
  if (auto *vt = dyn_cast<llvm::FixedVectorType>(t)) { Ref<AggV> g(new AggV); u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) g->v.push_back(loadM(a + i * es, memT(vt->getElementType()))); Val v; v.k = AGG; v.p = Ref<RC>(g.p); return v; }
  engineError("aggregate load");
}
static void storeAgg(u64 a, llvm::Type *t, const Val &v) {
  if (auto *st = dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeM(a + sl->getElementOffset(i), memT(st->getElementType(i)), v.k == AGG ? ((AggV *)v.p.p)->v[i] : Val()); return; }
  if (auto *vt = dyn_cast<llvm::FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeM(a + i * es, memT(vt->getElementType()), v.k == AGG ? ((AggV *)v.p.p)->v[i] : Val()); return; }
  engineError("aggregate store");
}
static void pushFrame(Func *F, const std::vector<Val> &args, int retReg) {
  if (!F->decoded) decode(*F);
  if (CUR->st.size() > 20000) { violation("hang", "unbounded recursion", -1, true); throw PathEnd{1}; }
  if (F->id < 8192) SH->fnHit[F->id] = 1;
  CUR->st.emplace_back(); Frame &n = CUR->st.back(); n.f = F; n.pc = 0; n.prevBB = -1; n.regs.resize(F->nregs); n.retReg = retReg;
  for (int i = 0; i < F->nargs && i < (int)args.size(); i++) n.regs[i] = args[i];
}
static void jump(Frame &f, int bb) {
  int from = f.f->code[f.pc].bb; f.prevBB = from; f.pc = f.f->bbStart[bb];
  if (f.f->code[f.pc].o == I_PHI) {
    std::vector<std::pair<int, Val>> up; int pc = f.pc;
    while (f.f->code[pc].o == I_PHI) { const Inst &p = f.f->code[pc]; for (auto &x : p.phis) if (x.first == from) { up.push_back({p.dst, x.second >= 0 ? f.regs[x.second] : f.f->pool[-x.second - 1]}); break; } pc++; }
    for (auto &u : up) f.regs[u.first] = u.second; f.pc = pc;
  }
}
static void maybeSplit();
static u64 LASTSTEPS = 0;
static bool step() {  // returns false when the entry function returned
  Frame &f = CUR->st.back(); const Inst &I = f.f->code[f.pc];
  auto A = [&](int i) -> const Val & { int r = I.ops[i]; return r >= 0 ? f.regs[r] : f.f->pool[-r - 1]; };
  switch (I.o) {
    case I_NOP: if (I.sub == 1) f.regs[I.dst] = Val(); if (I.sub == 2 && I.dst >= 0) f.regs[I.dst] = Val::c(0); break;
    case I_MOV: { const Val &v = A(0); if (v.k == SI && !CUR->known.empty() && I.w) { Val r = mkInt(((SymI *)v.p.p)->p, I.w); f.regs[I.dst] = r; } else if (&f.regs[I.dst] != &v) { if (v.k == CONC || v.k == UNDEF) { Val &d = f.regs[I.dst]; d.k = v.k; d.u = v.u; d.p = Ref<RC>(); } else { Val t = v; f.regs[I.dst] = t; } } break; }
    case I_ALLOCA: { u64 n = concretize(A(0), 64, "size"); u64 sz = n * I.imm; if (sz > (1 << 26)) memError("stack allocation too large"); u32 id = newObj(sz, STACK, (const char *)(uintptr_t)I.cases[0].first, false); f.allocas.push_back(id); f.regs[I.dst] = Val::c((u64)id << 32); break; }
    case I_LOAD: { u64 a = concretize(A(0), 64, "address"); if (I.sub == 4) f.regs[I.dst] = loadAgg(a, I.ty); else { MemT t{(u8)I.sub, (u32)I.imm}; Val v = loadM(a, t); if (I.w && I.w < 8 && v.k == CONC) v.u = maskw(v.u, I.w); f.regs[I.dst] = v; } break; }
    case I_STORE: { u64 a = concretize(A(0), 64, "address"); Val v = A(1); if (I.sub == 4) storeAgg(a, I.ty, v); else { if (v.k == SB) v = Val::c(decideVal(v, "store")); MemT t{(u8)I.sub, (u32)I.imm}; storeM(a, t, v); } break; }
    case I_GEP: { const Val &b = A(0); if (b.k == UNDEF) { bool anyUse = true; (void)anyUse; f.regs[I.dst] = Val(); break; } u64 a = concretize(b, 64, "address") + I.imm; bool und = false; for (auto &g : I.geps) { const Val &v = g.op >= 0 ? f.regs[g.op] : f.f->pool[-g.op - 1]; if (v.k == UNDEF) { und = true; break; } i64 ix = sx(concretize(v, g.w, "index"), g.w); a += ix * g.scale; if (ix < 0 && a >> 32 != (b.u >> 32)) a = ((b.u >> 32) << 32) | 0xffffff00u; } if (und) f.regs[I.dst] = Val(); else f.regs[I.dst] = Val::c(a); break; }
    case I_BIN: { Val r = ibin(I.sub, A(0), A(1), I.w, I.flags); f.regs[I.dst] = r; break; }
    case I_FBIN: { Val r = fbin(I.sub, A(0), A(1), I.fk); f.regs[I.dst] = fround(r, I.fk); break; }
    case I_FNEG: { const Val &v = A(0); if (v.k == CONC) f.regs[I.dst] = Val::d(-v.dbl()); else if (v.k == UNDEF) f.regs[I.dst] = v; else f.regs[I.dst] = fbin(1, Val::d(0), v, 1); break; }
    case I_ICMP: { Val r = icmp(I.sub, A(0), A(1), I.w); f.regs[I.dst] = r; break; }
    case I_FCMP: { Val r = fcmp(I.sub, A(0), A(1)); f.regs[I.dst] = r; break; }
    case I_CAST: { Val r = castV(I, A(0)); f.regs[I.dst] = r; break; }
    case I_SELECT: { bool c = decideVal(A(0), "condition"); Val r = A(c ? 1 : 2); f.regs[I.dst] = r; break; }
    case I_EXTRACT: { const Val &v = A(0); if (v.k == UNDEF) f.regs[I.dst] = v; else { Val r = ((AggV *)v.p.p)->v[I.imm]; f.regs[I.dst] = r; } break; }
    case I_INSERT: { Ref<AggV> g(new AggV); const Val &v = A(0); if (v.k == AGG) g->v = ((AggV *)v.p.p)->v; else g->v.resize(I.sub); g->v[I.imm] = A(1); Val r; r.k = AGG; r.p = Ref<RC>(g.p); f.regs[I.dst] = r; break; }
    case I_BR: jump(f, I.cases[0].second); return true;
    case I_CBR: { bool c = decideVal(A(0), "branch condition"); jump(f, I.cases[c ? 0 : 1].second); return true; }
    case I_SWITCH: { const Val &v = A(0); if (v.k == UNDEF) memError("use of uninitialised value in switch"); if (v.k == CONC) { int t = I.imm; for (auto &c : I.cases) if (maskw(c.first, I.w) == maskw(v.u, I.w)) { t = c.second; break; } jump(f, t); return true; }
        int t = I.imm; Poly p = toPolyI(v, I.w); for (auto &c : I.cases) if (decide(padd(p, Poly(mpqOfI64(sx(c.first, I.w))), -1), EQ)) { t = c.second; break; } jump(f, t); return true; }
    case I_RET: {
      Val r; if (!I.ops.empty()) r = A(0); int rr = f.retReg;
      if (!f.allocas.empty()) { static Ref<Obj> dead(new Obj(0, DEADSTACK, "dead")); for (u32 a : f.allocas) CUR->objs[a] = dead; }
      CUR->st.pop_back(); if (CUR->st.empty()) return false; if (rr >= 0) CUR->st.back().regs[rr] = r; return true; }
    case I_UNREACH: memError("unreachable code executed");
    case I_CALL: {
      if (I.intrin >= 0) { intrin(f, I); break; }
      llvm::Function *cal = I.callee; std::vector<Val> args; size_t n = I.ops.size() - (I.sub == 1 ? 1 : 0);
      for (size_t i = 0; i < n; i++) { Val v = A(i); if (v.k == SB) v = Val::c(decideVal(v, "argument")); args.push_back(v); }
      for (auto &c : I.cases) { u64 src = concretize(args[c.first], 64, "byval"); u32 id = newObj(c.second, STACK, "byval", false); copyMem((u64)id << 32, src, c.second); f.allocas.push_back(id); args[c.first] = Val::c((u64)id << 32); }
      if (I.sub == 1) { u64 a = concretize(A(n), 64, "function pointer"); if ((a >> 32) != FNBASE) memError("call through a bad function pointer"); cal = FNBYID[(u32)a / 16];
        if (cal->isDeclaration()) engineError("indirect call to undefined function " + cal->getName().str()); }
      if (I.sub == 3) engineError("call to undefined function " + cal->getName().str());
      if (I.sub == 2) {
        size_t nf = I.imm; u32 id = newObj((args.size() - nf + 1) * 8, STACK, "varargs", false);
        for (size_t i = nf; i < args.size(); i++) { Val v = args[i]; u8 w = I.opw[i]; if (v.k == CONC && w < 64) v.u = (u64)sx(v.u, w); MemT t{(u8)(w >= 101 ? 1 : 0), 8}; storeM(((u64)id << 32) + (i - nf) * 8, t, v); }
        f.allocas.push_back(id); args.resize(nf); args.push_back(Val::c((u64)id << 32));
      }
      u64 va = 0;
      if (I.sub != 2 && cal->isVarArg()) {
        size_t nf = cal->getFunctionType()->getNumParams(); u32 id = newObj((args.size() > nf ? args.size() - nf : 0) * 8 + 8, STACK, "varargs", false);
        for (size_t i = nf; i < args.size(); i++) { Val v = args[i]; u8 w = I.opw[i]; if (v.k == CONC && w < 64) v.u = (u64)sx(v.u, w); MemT t{(u8)(w >= 101 ? 1 : 0), 8}; storeM(((u64)id << 32) + (i - nf) * 8, t, v); }
        f.allocas.push_back(id); va = (u64)id << 32; if (args.size() > nf) args.resize(nf);
      }
      f.pc++; pushFrame(getFunc(cal), args, I.dst); CUR->st.back().va = va; return true; }
    default: engineError("bad opcode");
  }
  CUR->st.back().pc++;
  return true;
}
static void runPath() {
  u64 n = 0;
  try {
    for (;;) {
      if (++CUR->steps > STEP_LIMIT) { violation("hang", "no termination within the step budget", -1, true); SH->pathsLimit++; SH->steps += n; return; }
      n++;
      if ((n & 1023) == 0) { if (SH->stop) { SH->steps += n; return; } if (now() - T0 > TIME_LIMIT) { SH->timeouts++; SH->stop = 1; SH->steps += n; return; } maybeSplit(); }
      if (!step()) break;
    }
    SH->paths++; SH->pathsEnd++;
    int ns = SH->nsamples++; if (ns < 3) emit("{\"type\":\"sample\",\"values\":" + valuesJson(CUR->assign) + "}");
  } catch (PathEnd &e) { if (e.why == 99) return; SH->paths++; if (e.why == 3) SH->pathsAssume++; if (e.why == 5) SH->pathsEnd++; }
  SH->steps += n;
}
static bool CHILD = false;
static void maybeSplit() {
  if (PENDING.empty()) return;
  int a = SH->active; if (a >= JOBS) return;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return;
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  size_t half = (PENDING.size() + 1) / 2;
  if (p == 0) { CHILD = true; PENDING.resize(half); throw PathEnd{99}; }
  PENDING.erase(PENDING.begin(), PENDING.begin() + half);
}
static void runAll() {
  while (!PENDING.empty() && !SH->stop) {
    CUR = PENDING.back(); PENDING.pop_back();
    runPath(); CUR.reset();
    if (now() - T0 > TIME_LIMIT) { if (!PENDING.empty()) { SH->timeouts++; SH->stop = 1; } break; }
    try { maybeSplit(); } catch (PathEnd &) {}
  }
}
int main(int argc, char **argv) {
  std::string file, entry;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--mode") MODE_REAL = nx() == "real"; else if (a == "--jobs") JOBS = stoi(nx()); else if (a == "--time") TIME_LIMIT = stod(nx());
    else if (a == "--steps") STEP_LIMIT = stoull(nx()); else if (a == "--out") OUTF = nx(); else if (a == "--maxviol") MAXVIOL = stoi(nx()); else if (a == "--qt") { QT1 = stoi(nx()); QT2 = QT1 * 5; } else file = a;
  }
  T0 = now(); gsl_set_error_handler_off();
  OUTFD = open(OUTF.c_str(), O_WRONLY | O_CREAT | O_APPEND | (OUTF == "/dev/stdout" ? 0 : O_TRUNC), 0644);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); memset((void *)SH, 0, sizeof(Shared));
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto mod = llvm::parseIRFile(file, err, ctx); if (!mod) { err.print("llsym", llvm::errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); Z = new z3::context; SOLV = new z3::solver(*Z);
  for (auto &f : *M) fnId(&f);
  CUR = std::make_shared<State>(); CUR->objs.push_back(Ref<Obj>(new Obj(0, INVALID, "null")));
  try {
    for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; GOBJ[&g] = newObj(sz, g.isConstant() ? CONSTG : GLOBAL, intern(g.getName().str()), false); }
    for (auto &g : M->globals()) { Obj *o = CUR->objs[GOBJ[&g]].p; if (g.hasInitializer()) { memset(o->st.data(), 1, o->size); if (!isa<llvm::UndefValue>(g.getInitializer())) initGlobal(o, 0, g.getInitializer()); } else memset(o->st.data(), 1, o->size); if (!g.isConstant()) GINIT.push_back({GOBJ[&g], CUR->objs[GOBJ[&g]]}); }
    llvm::Function *ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "llsym: no entry %s\n", entry.c_str()); return 3; }
    pushFrame(getFunc(ef), {}, -1);
  } catch (PathEnd &) { return 3; }
  PENDING.push_back(CUR); CUR.reset(); SH->active = 1;
  runAll();
  SH->active--;
  int st, bad = 0; while (waitpid(-1, &st, 0) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++;
  if (CHILD) { _exit(bad ? 4 : 0); }
  if (bad) SH->err = 1;
  std::string fns = "[", rc = "{"; bool first = true;
  for (size_t i = 0; i < FNBYID.size() && i < 8192; i++) if (SH->fnHit[i]) { Func *F = getFunc(FNBYID[i]); if (!F->isRepo) continue; if (!first) fns += ","; first = false; fns += jstr(F->name); }
  fns += "]";
  for (int i = 0; i < SH->nreach; i++) { if (i) rc += ","; rc += jstr(SH->reach[i]) + ":" + std::to_string((u64)SH->reachCnt[i]); }
  rc += "}";
  char b[2048];
  snprintf(b, sizeof b, "{\"type\":\"summary\",\"paths\":%llu,\"completed\":%llu,\"assume_pruned\":%llu,\"limit_pruned\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"cache_hits\":%llu,\"interval_decisions\":%llu,\"asserts\":%llu,\"asserts_by_normalisation\":%llu,\"asserts_by_query\":%llu,\"undecided\":%llu,\"timeout\":%llu,\"err\":%d,\"violations\":%d,\"wall_s\":%.2f,",
    (unsigned long long)SH->paths, (unsigned long long)SH->pathsEnd, (unsigned long long)SH->pathsAssume, (unsigned long long)SH->pathsLimit, (unsigned long long)SH->steps, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, SH->solverUs / 1e6, (unsigned long long)SH->cacheHits, (unsigned long long)SH->ivals, (unsigned long long)SH->asserts, (unsigned long long)SH->assertsNorm, (unsigned long long)SH->assertsZ3, (unsigned long long)SH->assertsUnk, (unsigned long long)SH->timeouts, (int)SH->err, (int)SH->viol, now() - T0);
  emit(std::string(b) + "\"functions\":" + fns + ",\"reach\":" + rc + "}");
  return SH->err ? 4 : SH->viol ? 1 : SH->timeouts ? 5 : 0;
}
