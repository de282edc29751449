#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
typedef ::Function SFn; typedef ::Module SMod;
namespace {
struct L {
  SMod* M; const DataLayout* DL;
  std::unordered_map<const GlobalValue*, uint32_t> addr;
  std::unordered_map<std::string, uint32_t> fileIdx;
  uint32_t fnIndex(const llvm::Function* F) {
    std::string n = F->getName().str();
    auto it = M->fidx.find(n); if (it != M->fidx.end()) return it->second;
    SFn* f = new SFn; f->name = n; f->idx = M->funcs.size(); M->funcs.push_back(f); M->fidx[n] = f->idx; return f->idx;
  }
  unsigned bits(Type* t) { if (t->isPointerTy()) return 32; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  // flatten a type to scalar leaves with byte offsets; false if unsupported
  bool flat(Type* t, uint32_t off, std::vector<std::pair<unsigned, uint32_t>>& out) {
    if (t->isVoidTy()) return true;
    if (unsigned b = bits(t)) { if (b > 64) return false; out.push_back({b, off}); return true; }
    if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) if (!flat(s->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
    if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) if (!flat(a->getElementType(), off + es * i, out)) return false; return true; }
    return false;
  }
  bool constInt(const Constant* c, uint64_t& v) {   // scalar constant -> bits
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return false; v = i->getZExtValue(); return true; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { if (!f->getType()->isFloatTy() && !f->getType()->isDoubleTy()) return false; v = f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { v = 0; return true; }
    if (auto* g = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(g)) return constInt(ga->getAliasee(), v);
      auto it = addr.find(g); if (it == addr.end()) return false; v = it->second; return true;
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      uint64_t a = 0, b = 0; unsigned w = bits(e->getType());
      uint64_t m = w >= 64 ? ~0ULL : ((1ULL << w) - 1);
      switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(32, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return false;
          if (!constInt(e->getOperand(0), a)) return false;
          v = (a + off.getSExtValue()) & m; return true; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
          if (!constInt(e->getOperand(0), a)) return false; v = a & m; return true;
        case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Mul:
          if (!constInt(e->getOperand(0), a) || !constInt(e->getOperand(1), b)) return false;
          switch (e->getOpcode()) { case Instruction::Add: v = a + b; break; case Instruction::Sub: v = a - b; break; case Instruction::And: v = a & b; break; case Instruction::Or: v = a | b; break; case Instruction::Mul: v = a * b; break; default: v = a ^ b; }
          v &= m; return true;
        case Instruction::ICmp: {
          if (!constInt(e->getOperand(0), a) || !constInt(e->getOperand(1), b)) return false;
          switch (e->getPredicate()) { case CmpInst::ICMP_EQ: v = a == b; return true; case CmpInst::ICMP_NE: v = a != b; return true; case CmpInst::ICMP_ULT: v = a < b; return true; case CmpInst::ICMP_UGT: v = a > b; return true; default: return false; } }
        default: return false;
      }
    }
    return false;
  }
  bool initBytes(const Constant* c, std::vector<uint8_t>& d, uint64_t off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return true;
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) { StringRef r = s->getRawDataValues(); memcpy(&d[off], r.data(), r.size()); return true; }
    if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) if (!initBytes(cast<Constant>(c->getOperand(i)), d, off + i * es)) return false; return true; }
    if (isa<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) if (!initBytes(cast<Constant>(c->getOperand(i)), d, off + sl->getElementOffset(i))) return false; return true; }
    uint64_t v; if (!constInt(c, v)) return false;
    unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n; i++) d[off + i] = v >> (8 * i);
    return true;
  }
  // ---- function lowering
  SFn* F; std::unordered_map<const Value*, int32_t> slot; std::unordered_map<const BasicBlock*, uint32_t> bbpc;
  std::unordered_map<uint64_t, int32_t> cmap[65];
  bool bad;
  uint32_t nslotsOf(Type* t) { std::vector<std::pair<unsigned, uint32_t>> o; if (!flat(t, 0, o)) { bad = true; return 1; } return o.size(); }
  Opd cst(uint64_t v, unsigned w) { auto it = cmap[w].find(v); if (it != cmap[w].end()) return it->second; F->consts.push_back({v, (uint8_t)w}); Opd r = ~(int32_t)(F->consts.size() - 1); cmap[w][v] = r; return r; }
  void flatConst(const Constant* c, std::vector<CVal>& out) {
    Type* t = c->getType();
    if (unsigned b = bits(t)) { uint64_t v = 0; if (!constInt(c, v)) bad = true; out.push_back({v, (uint8_t)b}); return; }
    unsigned n = t->isStructTy() ? cast<StructType>(t)->getNumElements() : t->isArrayTy() ? cast<ArrayType>(t)->getNumElements() : 0;
    for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); if (!e) { bad = true; return; } flatConst(e, out); }
  }
  Opd opd(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      unsigned b = bits(c->getType());
      if (b) { uint64_t x = 0; if (b > 64 || !constInt(c, x)) { bad = true; return cst(0, 32); } return cst(x, b); }
      std::vector<CVal> o; flatConst(c, o); int32_t base = F->consts.size(); for (auto& x : o) F->consts.push_back(x); 
      // consecutive constant entries: element i is ~(base+i)
      return ~base;
    }
    auto it = slot.find(v); if (it == slot.end()) { bad = true; return cst(0, 32); }
    return it->second;
  }
  static Opd sub(Opd o, unsigned i) { return o >= 0 ? o + (int32_t)i : o - (int32_t)i; }
  uint32_t fileOf(const std::string& s) { auto it = fileIdx.find(s); if (it != fileIdx.end()) return it->second; uint32_t i = M->files.size(); M->files.push_back(s); fileIdx[s] = i; return i; }
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0; e.block = 0; e.cp = F->copies.size();
    for (auto& phi : to->phis()) {
      const Value* v = phi.getIncomingValueForBlock(from);
      Opd s = opd(v); unsigned n = nslotsOf(phi.getType());
      for (unsigned i = 0; i < n; i++) F->copies.push_back({sub(s, i), slot[&phi] + (int32_t)i});
    }
    e.ncp = F->copies.size() - e.cp;
    F->edges.push_back(e); fix.push_back({(uint32_t)F->edges.size() - 1, to});
    return F->edges.size() - 1;
  }
  std::vector<std::pair<uint32_t, const BasicBlock*>> fix;
  void lower(const llvm::Function& Fn) {
    F = M->funcs[fnIndex(&Fn)]; slot.clear(); bbpc.clear(); fix.clear(); for (auto& c : cmap) c.clear();
    F->isDecl = Fn.isDeclaration(); F->vararg = Fn.isVarArg();
    if (F->isDecl) return;
    if (auto* sp = Fn.getSubprogram()) F->file = sp->getFilename().str();
    int32_t ns = 0;
    for (auto& A : Fn.args()) {
      SFn::Param p{}; bad = false; p.slot = ns; p.slots = nslotsOf(A.getType()); p.byval = A.hasByValAttr() ? (uint32_t)DL->getTypeAllocSize(A.getParamByValType()) : 0;
      F->params.push_back(p); slot[&A] = ns; ns += p.slots;
    }
    for (auto& B : Fn) for (auto& I : B) if (!I.getType()->isVoidTy()) { bad = false; slot[&I] = ns; ns += nslotsOf(I.getType()); }
    F->nslots = ns;
    uint32_t lastLine = 0, lastFile = 0;
    for (auto& B : Fn) {
      bbpc[&B] = F->code.size(); F->nblocks++;
      for (auto& I : B) {
        if (isa<PHINode>(I)) continue;
        Inst x{}; x.op = OUnsupported; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.w = bits(I.getType());
        bad = false;
        if (auto& dl = I.getDebugLoc()) { lastLine = dl.getLine(); lastFile = fileOf(dl->getFilename().str()); }
        x.line = lastLine; x.file = lastFile;
        bool emit = lowerI(I, x, B);
        if (bad) { x = Inst{}; x.op = OUnsupported; x.line = lastLine; x.file = lastFile; std::string s; raw_string_ostream os(s); I.print(os); x.imm = M->mathNames.size(); M->mathNames.push_back(os.str()); emit = true; }
        if (emit) F->code.push_back(x);
      }
    }
    for (auto& f : fix) { F->edges[f.first].target = bbpc[f.second]; F->edges[f.first].block = bbpc[f.second]; }
  }
  uint32_t callArgs(const CallBase& CB, Inst& x, unsigned n) {
    x.ext = F->exts.size();
    std::vector<Ext> es;
    for (unsigned i = 0; i < n; i++) {
      const Value* v = CB.getArgOperand(i); if (isa<MetadataAsValue>(v)) continue;
      Ext e; e.op = opd(v); e.w = bits(v->getType()); e.slots = nslotsOf(v->getType());
      e.scale = CB.isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(CB.getParamByValType(i)) : 0;
      es.push_back(e);
    }
    x.ext = F->exts.size(); for (auto& e : es) F->exts.push_back(e);
    x.next = es.size(); return x.next;
  }
  bool lowerI(const Instruction& I, Inst& x, const BasicBlock& B) {
    auto A = [&](unsigned i) { return opd(I.getOperand(i)); };
    auto ob = [&](unsigned i) { return bits(I.getOperand(i)->getType()); };
    if (I.getType()->isVectorTy()) { bad = true; return true; }
    for (auto& o : I.operands()) if (o->getType()->isVectorTy()) { bad = true; return true; }
    switch (I.getOpcode()) {
      #define BIN(N, O) case Instruction::N: x.op = O; x.a = A(0); x.b = A(1); if (!x.w || x.w > 64) bad = true; return true;
      BIN(Add, OAdd) BIN(Sub, OSub) BIN(Mul, OMul) BIN(UDiv, OUDiv) BIN(SDiv, OSDiv) BIN(URem, OURem) BIN(SRem, OSRem)
      BIN(And, OAnd) BIN(Or, OOr) BIN(Xor, OXor) BIN(Shl, OShl) BIN(LShr, OLShr) BIN(AShr, OAShr)
      BIN(FAdd, OFAdd) BIN(FSub, OFSub) BIN(FMul, OFMul) BIN(FDiv, OFDiv) BIN(FRem, OFRem)
      case Instruction::FNeg: x.op = OFNeg; x.a = A(0); return true;
      case Instruction::ICmp: {
        switch (cast<ICmpInst>(I).getPredicate()) {
          case CmpInst::ICMP_EQ: x.op = OEq; break; case CmpInst::ICMP_NE: x.op = ONe; break;
          case CmpInst::ICMP_ULT: x.op = OUlt; break; case CmpInst::ICMP_ULE: x.op = OUle; break; case CmpInst::ICMP_UGT: x.op = OUgt; break; case CmpInst::ICMP_UGE: x.op = OUge; break;
          case CmpInst::ICMP_SLT: x.op = OSlt; break; case CmpInst::ICMP_SLE: x.op = OSle; break; case CmpInst::ICMP_SGT: x.op = OSgt; break; case CmpInst::ICMP_SGE: x.op = OSge; break;
          default: bad = true; }
        x.w2 = ob(0); if (!x.w2 || x.w2 > 64) bad = true; x.a = A(0); x.b = A(1); return true; }
      case Instruction::FCmp: x.op = OFCmp; x.imm = cast<FCmpInst>(I).getPredicate(); x.w2 = ob(0); if (!x.w2) bad = true; x.a = A(0); x.b = A(1); return true;
      #define CAST(N, O) case Instruction::N: x.op = O; x.w2 = ob(0); x.a = A(0); if (!x.w || !x.w2 || x.w > 64 || x.w2 > 64) bad = true; return true;
      CAST(ZExt, OZExt) CAST(SExt, OSExt) CAST(Trunc, OTrunc) CAST(FPExt, OFPExt) CAST(FPTrunc, OFPTrunc) CAST(FPToSI, OFPToSI) CAST(FPToUI, OFPToUI) CAST(SIToFP, OSIToFP) CAST(UIToFP, OUIToFP)
      case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned s = ob(0); x.w2 = s; x.a = A(0); x.imm = 1; x.op = s == x.w ? OMove : s < x.w ? OZExt : OTrunc; return true; }
      case Instruction::BitCast: case Instruction::Freeze: x.op = OMove; x.a = A(0); x.imm = nslotsOf(I.getType()); return true;
      case Instruction::Select: x.op = OSelect; x.a = A(0); x.b = A(1); x.c = A(2); x.imm = nslotsOf(I.getType()); return true;
      case Instruction::ExtractValue: case Instruction::InsertValue: {
        bool ins = isa<InsertValueInst>(I);
        ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(I).getIndices() : cast<ExtractValueInst>(I).getIndices();
        Type* t = I.getOperand(0)->getType(); unsigned off = 0;
        for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += nslotsOf(s->getElementType(j)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); off += i * nslotsOf(a->getElementType()); t = a->getElementType(); } }
        if (!ins) { x.op = OMove; x.a = sub(A(0), off); x.imm = nslotsOf(t); return true; }
        x.op = OMove; x.a = A(0); x.imm = nslotsOf(I.getType()); if (bad) return true;
        F->code.push_back(x);
        x.dst += off; x.a = A(1); x.imm = nslotsOf(t); return true; }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I);
        x.op = OGep; x.a = A(0); int64_t off = 0; std::vector<Ext> es;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
          Value* ix = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sz * ci->getSExtValue(); else es.push_back(Ext{opd(ix), sz, bits(ix->getType()), 1}); }
        }
        x.imm = off; x.ext = F->exts.size(); x.next = es.size(); for (auto& e : es) F->exts.push_back(e);
        return true; }
      case Instruction::Load: case Instruction::Store: {
        bool ld = isa<LoadInst>(I); Type* t = ld ? I.getType() : I.getOperand(0)->getType();
        std::vector<std::pair<unsigned, uint32_t>> o; if (!flat(t, 0, o)) { bad = true; return true; }
        Opd p = ld ? A(0) : A(1); Opd v = ld ? 0 : A(0);
        for (unsigned i = 0; i < o.size(); i++) {
          Inst y = x; y.op = ld ? OLoad : OStore; y.w = o[i].first; y.imm = o[i].second; 
          if (ld) { y.dst = x.dst + i; y.a = p; } else { y.dst = -1; y.a = sub(v, i); y.b = p; }
          F->code.push_back(y);
        }
        return false; }
      case Instruction::Alloca: { auto& AI = cast<AllocaInst>(I); x.op = OAlloca; x.imm = DL->getTypeAllocSize(AI.getAllocatedType()); x.a = A(0); x.w2 = ob(0); return true; }
      case Instruction::Br: { auto& BI = cast<BranchInst>(I);
        if (BI.isUnconditional()) { x.op = OBr; x.t0 = edge(&B, BI.getSuccessor(0)); }
        else { x.op = OCondBr; x.a = A(0); x.t0 = edge(&B, BI.getSuccessor(0)); x.t1 = edge(&B, BI.getSuccessor(1)); }
        return true; }
      case Instruction::Switch: { auto& S = cast<SwitchInst>(I); x.op = OSwitch; x.a = A(0); x.w2 = ob(0); x.t0 = edge(&B, S.getDefaultDest());
        std::vector<Ext> es; for (auto& c : S.cases()) { Ext e; e.op = 0; e.scale = (int64_t)c.getCaseValue()->getZExtValue(); e.w = edge(&B, c.getCaseSuccessor()); e.slots = 0; es.push_back(e); }
        x.ext = F->exts.size(); x.next = es.size(); for (auto& e : es) F->exts.push_back(e); return true; }
      case Instruction::Ret: x.op = ORet; if (I.getNumOperands()) { x.a = A(0); x.imm = nslotsOf(I.getOperand(0)->getType()); x.w = bits(I.getOperand(0)->getType()); } return true;
      case Instruction::Unreachable: x.op = OUnreachable; return true;
      case Instruction::Fence: x.op = OIntrin; x.imm = INop; return true;
      case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); x.op = OAtomicRMW; x.a = A(0); x.b = A(1);
        switch (R.getOperation()) { case AtomicRMWInst::Xchg: x.imm = 0; break; case AtomicRMWInst::Add: x.imm = 1; break; case AtomicRMWInst::Sub: x.imm = 2; break; case AtomicRMWInst::And: x.imm = 3; break; case AtomicRMWInst::Or: x.imm = 4; break; case AtomicRMWInst::Xor: x.imm = 5; break; default: bad = true; } return true; }
      case Instruction::AtomicCmpXchg: x.op = OCmpXchg; x.a = A(0); x.b = A(1); x.c = A(2); x.w = ob(1); return true;
      case Instruction::Call: return lowerCall(cast<CallInst>(I), x);
      default: bad = true; return true;
    }
  }
  bool lowerCall(const CallInst& CI, Inst& x) {
    if (CI.isInlineAsm()) { bad = true; return true; }
    const llvm::Function* cf = dyn_cast<llvm::Function>(CI.getCalledOperand()->stripPointerCastsAndAliases());
    if (cf && cf->isIntrinsic()) {
      x.op = OIntrin; 
      auto args = [&](unsigned n) { callArgs(CI, x, n); };
      #define IN(id, k, n) case Intrinsic::id: x.imm = k; args(n); return true;
      switch (cf->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: x.imm = IMemcpy; args(3); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: x.imm = IMemset; args(3); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return false;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
          x.op = OMove; x.a = opd(CI.getArgOperand(0)); x.imm = 1; return true;
        IN(umin, IUMin, 2) IN(umax, IUMax, 2) IN(smin, ISMin, 2) IN(smax, ISMax, 2) IN(abs, IAbs, 1) IN(bswap, IBswap, 1) IN(bitreverse, IBitrev, 1) IN(ctpop, ICtpop, 1) IN(ctlz, ICtlz, 1) IN(cttz, ICttz, 1)
        IN(fshl, IFshl, 3) IN(fshr, IFshr, 3)
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
          x.w = bits(CI.getArgOperand(0)->getType()); if (x.w > 64) { bad = true; return true; }
          switch (cf->getIntrinsicID()) { case Intrinsic::uadd_with_overflow: x.imm = IUAddO; break; case Intrinsic::sadd_with_overflow: x.imm = ISAddO; break; case Intrinsic::usub_with_overflow: x.imm = IUSubO; break; case Intrinsic::ssub_with_overflow: x.imm = ISSubO; break; case Intrinsic::umul_with_overflow: x.imm = IUMulO; break; default: x.imm = ISMulO; }
          args(2); return true; }
        IN(uadd_sat, IUAddSat, 2) IN(usub_sat, IUSubSat, 2) IN(sadd_sat, ISAddSat, 2) IN(ssub_sat, ISSubSat, 2)
        IN(vastart, IVaStart, 1) IN(vacopy, IVaCopy, 2) IN(stacksave, IStackSave, 0) IN(stackrestore, IStackRestore, 1) IN(trap, ITrap, 0) IN(debugtrap, ITrap, 0) IN(ubsantrap, ITrap, 0)
        IN(fabs, IFabs, 1) IN(floor, IFloor, 1) IN(ceil, ICeil, 1) IN(trunc, ITruncF, 1) IN(round, IRound, 1) IN(rint, IRint, 1) IN(nearbyint, IRint, 1) IN(sqrt, ISqrt, 1) IN(fma, IFma, 3) IN(fmuladd, IFma, 3) IN(copysign, ICopysign, 2) IN(minnum, IMinnum, 2) IN(maxnum, IMaxnum, 2)
        case Intrinsic::is_fpclass: x.imm = IIsFpClass; args(2); return true;
        case Intrinsic::invariant_start: x.op = OMove; x.a = cst(0, 32); x.imm = 1; return true;
        case Intrinsic::objectsize: x.op = OMove; x.a = cst(wmaskL(x.w), x.w); x.imm = 1; return true;
        case Intrinsic::is_constant: x.op = OMove; x.a = cst(0, 1); x.imm = 1; return true;
        case Intrinsic::pow: case Intrinsic::powi: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: {
          x.op = OCall; std::string base = Intrinsic::getBaseName(cf->getIntrinsicID()).substr(5).str(); if (base == "powi") { bad = true; return true; } if (CI.getType()->isFloatTy()) base += "f";
          auto it = M->fidx.find(base); uint32_t fi; if (it != M->fidx.end()) fi = it->second; else { SFn* f = new SFn; f->name = base; f->idx = fi = M->funcs.size(); M->funcs.push_back(f); M->fidx[base] = fi; }
          x.imm = fi; args(CI.arg_size()); return true; }
        default: bad = true; return true;
      }
    }
    x.op = OCall; x.imm = -1; x.c = nslotsOf(CI.getType());
    if (cf) x.imm = fnIndex(cf); else x.a = opd(CI.getCalledOperand());
    callArgs(CI, x, CI.arg_size());
    return true;
  }
  static uint64_t wmaskL(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
};
}
SMod* loadModule(const char* path, std::string& err) {
  LLVMContext* ctx = new LLVMContext; SMDiagnostic d;
  std::unique_ptr<llvm::Module> m = parseIRFile(path, d, *ctx);
  if (!m) { raw_string_ostream os(err); d.print("sx", os); return nullptr; }
  SMod* M = new SMod; L l; l.M = M; l.DL = new DataLayout(m->getDataLayout());
  if (l.DL->getPointerSize() != 4) { err = "not a 32-bit module"; return nullptr; }
  M->files.push_back("?");
  for (auto& F : *m) if (!F.isIntrinsic()) { uint32_t i = l.fnIndex(&F); l.addr[&F] = FUNC_BASE + i * 16; }
  uint32_t a = GLOBAL_BASE;
  for (auto& G : m->globals()) {
    uint32_t sz = l.DL->getTypeAllocSize(G.getValueType());
    GlobalInit gi; gi.addr = a; gi.size = sz; gi.ro = G.isConstant(); gi.name = G.getName().str(); gi.align = 16;
    l.addr[&G] = a; a += ((sz + 64 + SLOT - 1) / SLOT) * SLOT;
    M->globals.push_back(gi);
  }
  M->globalSlotsEnd = a;
  size_t i = 0;
  for (auto& G : m->globals()) {
    auto& gi = M->globals[i++]; gi.data.assign(gi.size, 0);
    if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { if (!l.initBytes(G.getInitializer(), gi.data, 0)) { err = "unsupported initialiser: " + gi.name; return nullptr; } }
    else if (!G.hasInitializer()) { if (getenv("SX_VERBOSE")) errs() << "external global " << gi.name << "\n"; }
  }
  if (auto* gc = m->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<llvm::Function>(s->getOperand(1)->stripPointerCasts())) M->ctors.push_back(l.fnIndex(f)); }
  for (auto& F : *m) if (!F.isIntrinsic()) l.lower(F);
  return M;
}
