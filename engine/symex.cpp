// Symbolic executor for LLVM IR (C subset).  Reads jobs from stdin, writes node definitions and
// finished paths to stdout.  See /verif/DESIGN.md.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <chrono>
#include <iostream>
#include <unistd.h>
#include <set>
#include "expr.h"
using namespace std;
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

static ExprCtx X;
static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ program representation
enum IOp : uint8_t { I_BIN, I_CMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
  I_RET, I_CALL, I_SELECT, I_UNREACH, I_INSVAL, I_UNSUP };
struct Opnd { int32_t reg = -1; u64 c = 0; };   // reg: >=0 register, -1 constant, -2 undef
struct PhiCopy { int32_t dst; Opnd src; uint8_t w; };
struct Edge { int32_t pc; vector<PhiCopy> phis; };
struct GepIdx { Opnd o; uint8_t w; int64_t scale; };
struct Fn;
struct Inst { IOp op; Op sub = O_CONST; bool neg = false, swp = false; uint8_t w = 0, w2 = 0; int32_t dst = -1; Opnd a, b, c;
  int32_t t1 = -1, t2 = -1; int nslots = 1; vector<GepIdx> gep; int64_t off = 0; vector<Opnd> args; vector<uint8_t> argw; vector<u32> byval;
  vector<pair<u64, int>> cases; Fn* callee = nullptr; int builtin = -1; u32 line = 0; bool hit = false; string msg; };
struct Fn { string name, file; bool vararg = false, repo = false, defined = false; u64 addr = 0; vector<Inst> code; vector<Edge> edges; int nregs = 0;
  vector<int> argReg; bool entered = false; int retslots = 0; };

struct Obj { int rc = 0; u32 size = 0; bool ro = false; uint8_t kind = 0; const char* nm = ""; vector<uint8_t> d; vector<E> sym; vector<uint8_t> init; /* empty => all init */ };
struct OP { Obj* p = nullptr; OP() {} OP(Obj* q) : p(q) { if (p) p->rc++; } OP(const OP& o) : p(o.p) { if (p) p->rc++; } OP(OP&& o) : p(o.p) { o.p = nullptr; }
  OP& operator=(OP o) { swap(p, o.p); return *this; } ~OP() { if (p && --p->rc == 0) delete p; } };
struct Slot { OP o; u32 gen = 0; };

static unique_ptr<Module> M; static LLVMContext LC; static const DataLayout* DL;
static unordered_map<const Function*, Fn*> fnMap; static vector<Fn*> fns;
static unordered_map<const GlobalValue*, u64> gaddr;
static vector<Slot> initObjs;   // index = objid
static const u64 FUNC_BASE = 0xF000000ull << 24;
static u64 mkaddr(u32 id, u32 gen, u64 off) { return (u64)gen << 44 | (u64)id << 24 | off; }
static vector<string> nameStore;

enum Builtin { B_OPEN, B_GETC, B_PUTC, B_CLOSE, B_SEEK, B_TRUNCF, B_REMOVE, B_RENAME, B_EXIT, B_ABORT, B_ALLOC, B_MALLOC, B_FREE, B_SIZE, B_COPY, B_FILL,
  B_SETJMP, B_LONGJMP, B_VASTART, B_VAEND, B_VACOPY, B_NOP, B_MEMCPY, B_MEMSET, B_TRAP, B_EXPECT, B_ABS, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_BSWAP,
  B_OBJSIZE, B_ADDO, B_SUBO, B_MULO, B_UADDO, B_USUBO, B_UMULO, B_STACKSAVE, B_UNKNOWN };
static int builtinOf(const Function* f) {
  string n = f->getName().str();
  static const map<string, int> m = { {"__sx_open", B_OPEN}, {"__sx_getc", B_GETC}, {"__sx_putc", B_PUTC}, {"__sx_close", B_CLOSE}, {"__sx_seek", B_SEEK}, {"__sx_trunc", B_TRUNCF},
    {"__sx_remove", B_REMOVE}, {"__sx_rename", B_RENAME}, {"__sx_exit", B_EXIT}, {"__sx_abort", B_ABORT}, {"__sx_alloc", B_ALLOC}, {"__sx_malloc", B_MALLOC}, {"__sx_free", B_FREE}, {"__sx_size", B_SIZE}, {"__sx_copy", B_COPY}, {"__sx_fill", B_FILL},
    {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"siglongjmp", B_LONGJMP} };
  auto i = m.find(n); if (i != m.end()) return i->second;
  switch (f->getIntrinsicID()) {
  case Intrinsic::vastart: return B_VASTART; case Intrinsic::vaend: return B_VAEND; case Intrinsic::vacopy: return B_VACOPY;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET;
  case Intrinsic::trap: case Intrinsic::ubsantrap: return B_TRAP; case Intrinsic::expect: return B_EXPECT; case Intrinsic::abs: return B_ABS;
  case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN; case Intrinsic::bswap: return B_BSWAP;
  case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::sadd_with_overflow: return B_ADDO; case Intrinsic::ssub_with_overflow: return B_SUBO; case Intrinsic::smul_with_overflow: return B_MULO;
  case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::umul_with_overflow: return B_UMULO;
  case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::stackrestore: return B_NOP;
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: return B_NOP;
  default: return B_UNKNOWN; }
}

static u64 constAddr(const Constant* c);
static bool constInt(const Constant* c, u64& out) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return false; out = i->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c)) { out = 0; return true; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { if (auto* al = dyn_cast<GlobalAlias>(g)) return constInt(al->getAliasee(), out); out = gaddr.at(g); return true; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    u64 a, b;
    if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) return false; if (!constInt(cast<Constant>(gep->getPointerOperand()), a)) return false; out = a + off.getSExtValue(); return true; }
    unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->isIntegerTy() ? ce->getType()->getIntegerBitWidth() : 0; if (!w || w > 64) return false;
    if (ce->isCast()) { if (!constInt(ce->getOperand(0), a)) return false; unsigned sw = ce->getOperand(0)->getType()->isPointerTy() ? 64 : ce->getOperand(0)->getType()->getIntegerBitWidth();
      out = (ce->getOpcode() == Instruction::SExt ? (u64)ExprCtx::sx(a, sw) : a) & maskw(w); return true; }
    if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false;
    switch (ce->getOpcode()) { case Instruction::Add: out = (a + b) & maskw(w); return true; case Instruction::Sub: out = (a - b) & maskw(w); return true; case Instruction::Mul: out = (a * b) & maskw(w); return true;
      case Instruction::And: out = a & b; return true; case Instruction::Or: out = a | b; return true; case Instruction::Xor: out = a ^ b; return true; default: return false; }
  }
  return false;
}
static void writeInit(vector<uint8_t>& d, u64 off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) writeInit(d, off + i * es, cd->getElementAsConstant(i)); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeInit(d, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(d, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  u64 v; unsigned n = DL->getTypeStoreSize(t);
  if (auto* fp = dyn_cast<ConstantFP>(c)) v = fp->getValueAPF().bitcastToAPInt().getZExtValue();
  else if (!constInt(c, v)) { fprintf(stderr, "symex: unsupported initializer\n"); exit(3); }
  for (unsigned i = 0; i < n && i < 8; i++) d[off + i] = v >> (8 * i);
}

struct FnLower {
  Fn* F; const Function& f; unordered_map<const Value*, int> reg; unordered_map<const BasicBlock*, int> bbpc; 
  FnLower(Fn* F, const Function& f) : F(F), f(f) {}
  static int slots(Type* t) { if (t->isVoidTy()) return 0; if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += slots(e); return n; } if (auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * slots(a->getElementType()); return 1; }
  static unsigned wd(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
  static bool okTy(Type* t) { unsigned w = wd(t); return w && w <= 64; }
  Opnd op(const Value* v) {
    Opnd o; auto i = reg.find(v); if (i != reg.end()) { o.reg = i->second; return o; }
    if (isa<UndefValue>(v)) { o.reg = -2; return o; }
    if (auto* c = dyn_cast<Constant>(v)) { u64 x; if (constInt(c, x)) { o.c = x; return o; } }
    bad = true; return o;
  }
  bool bad = false;
  static void leafTypes(Type* t, u64 off, vector<pair<Type*, u64>>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leafTypes(s->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leafTypes(a->getElementType(), off + es * i, out); }
    else out.push_back({t, off});
  }
  int slotIndex(Type* t, ArrayRef<unsigned> idx) { int n = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += slots(s->getElementType(k)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); n += i * slots(a->getElementType()); t = a->getElementType(); } } return n; }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.pc = -1; edgeTo.push_back(to);
    for (auto& p : to->phis()) { PhiCopy c; c.dst = reg[&p]; c.src = op(p.getIncomingValueForBlock(from)); c.w = wd(p.getType()); e.phis.push_back(c); }
    F->edges.push_back(e); return F->edges.size() - 1;
  }
  vector<const BasicBlock*> edgeTo;
  void run() {
    int n = 0; auto alloc = [&](Type* t) { int r = n; n += max(1, slots(t)); return r; };
    for (auto& a : f.args()) { reg[&a] = alloc(a.getType()); F->argReg.push_back(reg[&a]); }
    for (auto& b : f) for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = alloc(i.getType());
    F->nregs = n + 8; F->retslots = slots(f.getReturnType());
    for (auto& b : f) { bbpc[&b] = F->code.size(); for (auto& i : b) { if (isa<PHINode>(i)) continue; lower(i, b); } }
    for (size_t i = 0; i < F->edges.size(); i++) F->edges[i].pc = bbpc[edgeTo[i]];
  }
  void push(Inst& x) { F->code.push_back(x); }
  void lower(const Instruction& i, const BasicBlock& b) {
    Inst x; x.line = i.getDebugLoc() ? i.getDebugLoc().getLine() : 0; bad = false;
    if (!i.getType()->isVoidTy()) x.dst = reg[&i];
    Type* t = i.getType(); x.w = wd(t);
    auto unsup = [&](const char* m) { x.op = I_UNSUP; x.msg = m; push(x); };
    if (auto* bo = dyn_cast<BinaryOperator>(&i)) {
      if (!okTy(t)) return unsup("non-integer arithmetic");
      x.op = I_BIN; x.a = op(bo->getOperand(0)); x.b = op(bo->getOperand(1));
      switch (bo->getOpcode()) { case Instruction::Add: x.sub = O_ADD; break; case Instruction::Sub: x.sub = O_SUB; break; case Instruction::Mul: x.sub = O_MUL; break; case Instruction::UDiv: x.sub = O_UDIV; break; case Instruction::SDiv: x.sub = O_SDIV; break;
        case Instruction::URem: x.sub = O_UREM; break; case Instruction::SRem: x.sub = O_SREM; break; case Instruction::And: x.sub = O_AND; break; case Instruction::Or: x.sub = O_OR; break; case Instruction::Xor: x.sub = O_XOR; break;
        case Instruction::Shl: x.sub = O_SHL; break; case Instruction::LShr: x.sub = O_LSHR; break; case Instruction::AShr: x.sub = O_ASHR; break; default: return unsup("binop"); }
    } else if (auto* c = dyn_cast<ICmpInst>(&i)) {
      if (!okTy(c->getOperand(0)->getType())) return unsup("vector compare");
      x.op = I_CMP; x.w = wd(c->getOperand(0)->getType()); x.a = op(c->getOperand(0)); x.b = op(c->getOperand(1));
      switch (c->getPredicate()) { case ICmpInst::ICMP_EQ: x.sub = O_EQ; break; case ICmpInst::ICMP_NE: x.sub = O_EQ; x.neg = true; break; case ICmpInst::ICMP_ULT: x.sub = O_ULT; break; case ICmpInst::ICMP_ULE: x.sub = O_ULE; break;
        case ICmpInst::ICMP_UGT: x.sub = O_ULT; x.swp = true; break; case ICmpInst::ICMP_UGE: x.sub = O_ULE; x.swp = true; break; case ICmpInst::ICMP_SLT: x.sub = O_SLT; break; case ICmpInst::ICMP_SLE: x.sub = O_SLE; break;
        case ICmpInst::ICMP_SGT: x.sub = O_SLT; x.swp = true; break; case ICmpInst::ICMP_SGE: x.sub = O_SLE; x.swp = true; break; default: return unsup("icmp"); }
      if (x.swp) swap(x.a, x.b);
    } else if (auto* c = dyn_cast<CastInst>(&i)) {
      x.w2 = wd(c->getSrcTy()); if (!okTy(t) || !okTy(c->getSrcTy())) return unsup("cast");
      x.a = op(c->getOperand(0));
      switch (c->getOpcode()) { case Instruction::ZExt: x.op = I_ZEXT; break; case Instruction::SExt: x.op = I_SEXT; break; case Instruction::Trunc: x.op = I_TRUNC; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = x.w < x.w2 ? I_TRUNC : x.w > x.w2 ? I_ZEXT : I_COPY; break; case Instruction::BitCast: x.op = I_COPY; break; default: return unsup("fp cast"); }
    } else if (auto* fz = dyn_cast<FreezeInst>(&i)) { if (!okTy(t)) return unsup("freeze"); x.op = I_COPY; x.a = op(fz->getOperand(0));
    } else if (auto* l = dyn_cast<LoadInst>(&i)) {
      vector<pair<Type*, u64>> lv; leafTypes(t, 0, lv); x.op = I_LOAD; x.a = op(l->getPointerOperand());
      if (bad) return unsup("operand");
      for (size_t k = 0; k < lv.size(); k++) { if (!okTy(lv[k].first)) return unsup("load type"); Inst y = x; y.w = wd(lv[k].first); y.dst = x.dst + k; y.off = lv[k].second; push(y); }
      return;
    } else if (auto* s = dyn_cast<StoreInst>(&i)) {
      Type* vt = s->getValueOperand()->getType(); vector<pair<Type*, u64>> lv; leafTypes(vt, 0, lv); x.op = I_STORE; x.b = op(s->getPointerOperand());
      if (lv.size() == 1 && okTy(lv[0].first) && !vt->isAggregateType()) { x.a = op(s->getValueOperand()); x.w = wd(lv[0].first); }
      else { auto it = reg.find(s->getValueOperand()); if (it == reg.end()) return unsup("aggregate store"); for (size_t k = 0; k < lv.size(); k++) { if (!okTy(lv[k].first)) return unsup("store type"); Inst y = x; y.a.reg = it->second + k; y.w = wd(lv[k].first); y.off = lv[k].second; push(y); } return; }
    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
      x.op = I_GEP; if (!okTy(t)) return unsup("vector gep"); x.a = op(g->getPointerOperand());
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        const Value* ix = gi.getOperand();
        if (auto* st = gi.getStructTypeOrNull()) { x.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(ix)) { x.off += ci->getSExtValue() * es; continue; }
        x.gep.push_back(GepIdx{op(ix), (uint8_t)wd(ix->getType()), es});
      }
    } else if (auto* al = dyn_cast<AllocaInst>(&i)) { x.op = I_ALLOCA; x.off = DL->getTypeAllocSize(al->getAllocatedType()); x.a = op(al->getArraySize()); x.w2 = wd(al->getArraySize()->getType());
      nameStore.push_back(al->getName().str());
    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
      if (br->isUnconditional()) { x.op = I_BR; x.t1 = edge(&b, br->getSuccessor(0)); }
      else { x.op = I_CBR; x.a = op(br->getCondition()); x.t1 = edge(&b, br->getSuccessor(0)); x.t2 = edge(&b, br->getSuccessor(1)); }
    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
      x.op = I_SWITCH; x.a = op(sw->getCondition()); x.w = wd(sw->getCondition()->getType()); map<const BasicBlock*, int> em;
      auto eg = [&](const BasicBlock* to) { auto it = em.find(to); if (it != em.end()) return it->second; return em[to] = edge(&b, to); };
      for (auto& cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), eg(cs.getCaseSuccessor())});
      x.t1 = eg(sw->getDefaultDest());
    } else if (auto* r = dyn_cast<ReturnInst>(&i)) {
      x.op = I_RET; if (r->getReturnValue()) { Type* rt = r->getReturnValue()->getType(); x.nslots = slots(rt); if (rt->isAggregateType()) { auto it = reg.find(r->getReturnValue()); if (it == reg.end()) return unsup("ret const aggregate"); x.a.reg = it->second; } else { if (!okTy(rt)) return unsup("ret type"); x.a = op(r->getReturnValue()); x.nslots = 1; } } else x.nslots = 0;
    } else if (auto* se = dyn_cast<SelectInst>(&i)) { x.op = I_SELECT; if (!okTy(t)) return unsup("select"); x.c = op(se->getCondition()); x.a = op(se->getTrueValue()); x.b = op(se->getFalseValue());
    } else if (isa<UnreachableInst>(i)) x.op = I_UNREACH;
    else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { x.op = I_COPY; auto it = reg.find(ev->getAggregateOperand()); if (it == reg.end() || !okTy(t)) return unsup("extractvalue"); x.a.reg = it->second + slotIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
    } else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
      x.op = I_INSVAL; x.nslots = slots(t); x.off = slotIndex(t, iv->getIndices()); auto it = reg.find(iv->getAggregateOperand()); x.a.reg = it == reg.end() ? -2 : it->second; if (!okTy(iv->getInsertedValueOperand()->getType())) return unsup("insertvalue"); x.b = op(iv->getInsertedValueOperand());
    } else if (auto* ca = dyn_cast<CallInst>(&i)) {
      x.op = I_CALL; x.nslots = slots(t); if (!t->isVoidTy() && !t->isAggregateType() && !okTy(t)) return unsup("call result type");
      if (ca->isInlineAsm()) return unsup("inline asm");
      const Value* cv = ca->getCalledOperand()->stripPointerCasts();
      if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
      if (auto* cf = dyn_cast<Function>(cv)) {
        int bi = builtinOf(cf);
        if (bi == B_NOP) return;
        if (cf->isDeclaration()) { x.builtin = bi; x.msg = cf->getName().str(); } else x.callee = fnMap[cf];
        if (bi == B_EXPECT || bi == B_ABS || bi == B_OBJSIZE) x.w = wd(t);
      } else x.c = op(ca->getCalledOperand());
      for (unsigned k = 0; k < ca->arg_size(); k++) {
        const Value* av = ca->getArgOperand(k); Type* at = av->getType();
        if (at->isMetadataTy()) { return; }
        if (at->isAggregateType()) return unsup("aggregate argument");
        if (!okTy(at)) return unsup("argument type");
        x.args.push_back(op(av)); x.argw.push_back(wd(at)); x.byval.push_back(ca->isByValArgument(k) ? (u32)DL->getTypeAllocSize(ca->getParamByValType(k)) : 0);
      }
    } else return unsup(i.getOpcodeName());
    if (bad) return unsup("operand");
    push(x);
  }
};

static bool loadModule(const char* path) {
  SMDiagnostic err; M = parseIRFile(path, err, LC); if (!M) { err.print("symex", errs()); return false; }
  DL = &M->getDataLayout();
  { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto scf = []() { return SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false).needCanonicalLoops(false).bonusInstThreshold(3)); };
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(scf()); FPM.addPass(EarlyCSEPass(false)); FPM.addPass(scf());
    for (auto& f : *M) { if (f.isDeclaration()) continue; bool sj = false;
      for (auto& b : f) for (auto& i : b) if (auto* c = dyn_cast<CallInst>(&i)) if (auto* cf = c->getCalledFunction()) if (builtinOf(cf) == B_SETJMP) sj = true;
      if (!sj) FPM.run(f, FAM); } }
  initObjs.resize(1);
  for (auto& g : M->globals()) {
    if (g.isDeclaration()) { // unknown extern data: leave an unmapped object
      gaddr[&g] = 0; continue; }
    u32 id = initObjs.size(); Obj* o = new Obj; o->size = DL->getTypeAllocSize(g.getValueType()); o->ro = g.isConstant(); o->kind = 0; nameStore.push_back(g.getName().str()); o->d.resize(o->size);
    initObjs.push_back(Slot{OP(o), 0}); gaddr[&g] = mkaddr(id, 0, 0);
  }
  u64 fi = 0; for (auto& f : *M) { Fn* F = new Fn; F->name = f.getName().str(); F->addr = FUNC_BASE + 16 * ++fi; F->vararg = f.isVarArg(); F->defined = !f.isDeclaration(); if (auto* sp = f.getSubprogram()) F->file = sp->getFilename().str(); F->repo = F->defined && F->file.find("libc.c") == string::npos; fnMap[&f] = F; fns.push_back(F); gaddr[&f] = F->addr; }
  for (auto& g : M->globals()) if (!g.isDeclaration()) writeInit(initObjs[gaddr[&g] >> 24 & 0xfffff].o.p->d, 0, g.getInitializer());
  for (auto& f : *M) if (!f.isDeclaration()) { FnLower L(fnMap[&f], f); L.run(); }
  return true;
}

// ------------------------------------------------------------------ state
struct FileD { int rc = 0; vector<uint8_t> c; vector<E> s; };   // s empty or same size as c
typedef shared_ptr<FileD> FP;
struct Fd { bool open = false; string name; long pos = 0; bool rd = false, wr = false, app = false; long wrote = 0; };
struct Frame { Fn* f; int pc; int dst = -1; int nslots = 0; vector<Val> regs; vector<u32> allocas; vector<pair<Val, int>> va; u64 serial; };
struct Jump { u64 serial; int pc; int dst; };
struct RunResult { string status; long code = 0; string where; map<string, FP> files; vector<string> notes; u64 insts = 0; vector<string> opened; };
struct State {
  vector<Frame> fr; vector<Slot> objs; vector<u32> freel; vector<Dom> dom; vector<uint8_t> wit; vector<E> pc; unordered_set<E> known; vector<char> ent;
  map<string, FP> files; vector<Fd> fds; vector<Jump> jumps; vector<string> notes; u64 insts = 0, serial = 0; int run = 0; vector<RunResult> res; int depthForks = 0; map<string, long> fcnt; vector<string> opened;
};
// a fault: operation `kind` on `name` fails from (or, once, exactly at) its count base + scale * variable
struct Fault { string kind, name; long base = 0, scale = 1; int var = -1; bool once = false; int err = 28; };
struct RunSpec { vector<FP> args; map<string, FP> files; vector<Fault> faults; };
struct Job { string id; u64 maxInst = 20000000; long maxPaths = 20000; double maxTime = 60; int maxDepth = 400; vector<RunSpec> runs; };
static Job J;
struct Term { string status, where; long code; };   // thrown to end a path's current run
struct Dead {};                                     // path infeasible / dropped
struct Unsup { string m; };

static vector<unique_ptr<State>> work; static State* S; static Inst* CUR;
static u64 gQueries, gSat, gUnsat, gUnknown, gForks, gInsts; static double gSolver; static bool gIncomplete; static string gIncWhy;
static vector<E> undefPool; static size_t undefNext;

static string where() { if (!S || S->fr.empty()) return "?"; auto& f = S->fr.back(); string r = f.f->name + ":" + to_string(f.pc < (int)f.f->code.size() ? f.f->code[f.pc].line : 0);
  if (!f.f->repo) for (int i = (int)S->fr.size() - 1; i >= 0; i--) if (S->fr[i].f->repo) { auto& g = S->fr[i]; r += "<-" + g.f->name + ":" + to_string(g.f->code[max(0, g.pc)].line); break; }
  return r; }
static void note(const string& s) { string t = s + "@" + where(); for (auto& n : S->notes) if (n == t) return; S->notes.push_back(t); }
[[noreturn]] static void crash(const string& k) { throw Term{"crash:" + k, where(), 0}; }
static E undefByte() {
  if (undefPool.size() < 48) { Dom d; d.m[0] = d.m[1] = d.m[2] = d.m[3] = ~0ull; int v = X.newVar(8, d, true, "undef"); undefPool.push_back(X.vars[v].e); }
  E e = undefPool[undefNext++ % undefPool.size()];
  return e;
}
static void growVars(State* s) { while (s->dom.size() < X.vars.size()) { size_t i = s->dom.size(); s->dom.push_back(X.vars[i].dom); s->wit.push_back(X.vars[i].dom.first()); s->ent.push_back(0); } }
static Val undefVal(unsigned w) { if (w <= 8) { E e = undefByte(); growVars(S); return X.extract(Val{0, e}, 8, 0, w); } Val r = undefVal(8); unsigned n = 8; while (n < w) { unsigned k = min(8u, w - n); r = X.concat(undefVal(k), k, r, n); n += k; } return r; }

// ------------------------------------------------------------------ solver
static Z3_solver Z;
static void z3err(Z3_context, Z3_error_code) {}
static const Dom& trueDom(E c) { // cached set of variable values making 1-bit expr true
  static unordered_map<E, Dom> cache; static ExprCtx* own = &X; (void)own;
  extern unordered_map<E, Dom>* tdc; auto& m = *tdc; auto i = m.find(c); if (i != m.end()) return i->second;
  auto& t = X.stab(c); Dom d{{0, 0, 0, 0}}; for (unsigned k = 0; k < t.size(); k++) if (t[k] & 1) d.set(k); return m[c] = d;
}
unordered_map<E, Dom>* tdc = new unordered_map<E, Dom>;
struct QRes { int r; vector<pair<int, uint8_t>> model; };
static unordered_map<string, QRes> qcache;
static Z3_ast domConstraint(int v, const Dom& d) {
  unsigned n = 1u << X.vars[v].w; Z3_ast ve = X.toZ3(X.vars[v].e); unsigned w = X.vars[v].w; vector<Z3_ast> alts;
  for (unsigned i = 0; i < n;) { if (!d.get(i)) { i++; continue; } unsigned j = i; while (j + 1 < n && d.get(j + 1)) j++;
    if (i == j) alts.push_back(Z3_mk_eq(X.z3, ve, X.zc(w, i))); else { Z3_ast two[2] = {Z3_mk_bvuge(X.z3, ve, X.zc(w, i)), Z3_mk_bvule(X.z3, ve, X.zc(w, j))}; alts.push_back(i == 0 && j == n - 1 ? Z3_mk_true(X.z3) : Z3_mk_and(X.z3, 2, two)); }
    i = j + 1; }
  return alts.size() == 1 ? alts[0] : Z3_mk_or(X.z3, alts.size(), alts.data());
}
// is PC && c satisfiable?  fills model (vars in slice)
static int check(State* s, E c, const Dom* dv, int dvar, vector<pair<int, uint8_t>>& model) {
  set<int> vs; vector<E> cs; if (c) { vs.insert(c->vars.begin(), c->vars.end()); cs.push_back(c); } if (dvar >= 0) vs.insert(dvar);
  vector<char> used(s->pc.size()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { bool t = false; for (int v : s->pc[i]->vars) if (vs.count(v)) { t = true; break; } if (t) { used[i] = 1; ch = true; vs.insert(s->pc[i]->vars.begin(), s->pc[i]->vars.end()); cs.push_back(s->pc[i]); } } }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  string key; for (E e : cs) key.append((char*)&e->id, 4); for (int v : vs) { key.append((char*)&v, 4); Dom d = s->dom[v]; if (v == dvar) d = d & *dv; key.append((char*)d.m, 32); }
  auto it = qcache.find(key); if (it != qcache.end()) { model = it->second.model; return it->second.r; }
  double t0 = now(); Z3_solver_reset(X.z3, Z);
  for (E e : cs) Z3_solver_assert(X.z3, Z, X.zbool(e));
  for (int v : vs) { Dom d = s->dom[v]; if (v == dvar) d = d & *dv; if (d.empty()) { qcache[key] = QRes{-1, {}}; return -1; } Z3_solver_assert(X.z3, Z, domConstraint(v, d)); }
  int r = Z3_solver_check(X.z3, Z); gQueries++; QRes q; q.r = r;
  if (r == 1) { gSat++; Z3_model m = Z3_solver_get_model(X.z3, Z); Z3_model_inc_ref(X.z3, m);
    for (int v : vs) { Z3_ast o; uint64_t x = 0; if (Z3_model_eval(X.z3, m, X.toZ3(X.vars[v].e), true, &o)) Z3_get_numeral_uint64(X.z3, o, &x); q.model.push_back({v, (uint8_t)x}); }
    Z3_model_dec_ref(X.z3, m); }
  else if (r == -1) gUnsat++; else gUnknown++;
  gSolver += now() - t0; qcache[key] = q; model = q.model; return r;
}
static unique_ptr<State> clone() { gForks++; static bool dbg = getenv("SX_FORKS"); if (dbg) fprintf(stderr, "fork %s\n", where().c_str()); return make_unique<State>(*S); }
static void addPC(State* s, E c) { if (c->op == O_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  if (c->svar >= 0) { Dom d = s->dom[c->svar] & trueDom(c); s->dom[c->svar] = d; s->known.insert(c); return; }
  s->pc.push_back(c); s->known.insert(c); for (int v : c->vars) s->ent[v] = 1; }
static void incomplete(const string& w) { gIncomplete = true; if (gIncWhy.empty()) gIncWhy = w; }

static bool decide(Val cv) {
  if (!cv.e) return cv.c & 1;
  growVars(S); E c = cv.e; if (S->known.count(c)) return true;
  for (int v : c->vars) if (X.vars[v].undef) { note("uninit"); break; }
  if (c->svar >= 0) {
    int v = c->svar; Dom td = trueDom(c); Dom t = S->dom[v] & td, f = S->dom[v] & ~td;
    if (t.empty()) return false; if (f.empty()) return true;
    bool side = td.get(S->wit[v]); Dom& mine = side ? t : f; Dom& other = side ? f : t;
    vector<pair<int, uint8_t>> m;
    if (S->ent[v]) { int r = check(S, nullptr, &other, v, m); if (r == -1) { S->dom[v] = mine; return side; } if (r == 0) { incomplete("solver unknown"); S->dom[v] = mine; return side; } }
    auto n = clone(); n->dom[v] = other; if (S->ent[v]) { for (auto& p : m) n->wit[p.first] = p.second; } else n->wit[v] = other.first();
    work.push_back(move(n)); S->dom[v] = mine; return side;
  }
  E nc = X.lnot(cv).e; if (!nc) return true; if (S->known.count(nc)) return false;
  bool side = X.eval(c, S->wit) & 1; E mine = side ? c : nc, other = side ? nc : c; vector<pair<int, uint8_t>> m;
  int r = check(S, other, nullptr, -1, m);
  if (r == 1) { auto n = clone(); addPC(n.get(), other); for (auto& p : m) n->wit[p.first] = p.second; work.push_back(move(n)); addPC(S, mine); return side; }
  if (r == 0) { incomplete("solver unknown"); addPC(S, mine); return side; }
  S->known.insert(mine); return side;
}
static Val simp(Val v) { // fold single-variable expressions whose domain leaves one value
  if (!v.e) return v; growVars(S);
  if (v.e->svar >= 0) { auto& d = S->dom[v.e->svar]; auto& t = X.stab(v.e); bool first = true; u64 x = 0; for (unsigned i = 0; i < t.size(); i++) if (d.get(i)) { if (first) { x = t[i]; first = false; } else if (t[i] != x) return v; } return Val{x, nullptr}; }
  return v;
}
static u64 concretize(Val v, unsigned w) {
  v = simp(v); if (!v.e) return v.c;
  for (int k : v.e->vars) if (X.vars[k].undef) { note("uninit"); break; }
  for (int n = 0;; n++) { growVars(S); u64 x = X.eval(v.e, S->wit); if (decide(X.cmp(O_EQ, v, C(x, w), w))) return x; }
}

// ------------------------------------------------------------------ memory
static Obj* wobj(u32 id) { Slot& s = S->objs[id]; if (s.o.p->rc > 1) { Obj* n = new Obj(*s.o.p); n->rc = 0; s.o = OP(n); } return s.o.p; }
static u64 newObj(u64 size, uint8_t kind, bool init) {
  if (size >= (1u << 24) - 4096) throw Unsup{"object too large"};
  u32 id; if (!S->freel.empty()) { id = S->freel.back(); S->freel.pop_back(); } else { id = S->objs.size(); S->objs.push_back(Slot()); if (id >= 0xF0000) throw Unsup{"too many objects"}; }
  Obj* o = new Obj; o->size = size; o->kind = kind; o->d.resize(size); if (!init) o->init.assign(size, 0); S->objs[id].o = OP(o); S->objs[id].gen++;
  return mkaddr(id, S->objs[id].gen, 0);
}
static void freeObj(u32 id) { S->objs[id].o = OP(); S->objs[id].gen++; S->freel.push_back(id); }
static u32 oid(u64 a) { return a >> 24 & 0xfffff; }
static u32 ooff(u64 a) { return a & 0xffffff; }
static Obj* resolve(u64 a, u64 n, bool wr) {
  u32 id = oid(a), off = ooff(a), gen = a >> 44;
  if (id == 0) { if (n == 0) return nullptr; crash(a < 4096 || ~a < 4096 ? "null-dereference" : "wild-pointer"); }
  if (a >= FUNC_BASE && a < FUNC_BASE + (1 << 24)) crash("data access to code");
  if (id >= S->objs.size()) crash(off > 0xff0000 ? "out-of-bounds" : "wild-pointer");
  Slot& s = S->objs[id];
  if (off > 0xff0000) crash("out-of-bounds (before object)");
  if (!s.o.p || s.gen != gen) crash("use-after-free");
  if ((u64)off + n > s.o.p->size) { if (n == 0 && off <= s.o.p->size) return s.o.p; crash("out-of-bounds"); }
  if (wr) { if (s.o.p->ro) crash("write-to-constant"); return wobj(id); }
  return s.o.p;
}
static Val loadByte(Obj* o, u32 off) {
  if (!o->init.empty() && !o->init[off]) return Val{0, undefByte()};
  if (!o->sym.empty() && o->sym[off]) return Val{0, o->sym[off]};
  return Val{o->d[off], nullptr};
}
static Val loadC(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; Obj* o = resolve(a, n, false); u32 off = ooff(a);
  if (o->sym.empty() && o->init.empty()) { u64 v = 0; memcpy(&v, &o->d[off], n); return Val{v & maskw(w), nullptr}; }
  bool plain = true; for (unsigned i = 0; i < n && plain; i++) if ((!o->init.empty() && !o->init[off + i]) || (!o->sym.empty() && o->sym[off + i])) plain = false;
  if (plain) { u64 v = 0; memcpy(&v, &o->d[off], n); return Val{v & maskw(w), nullptr}; }
  Bit b[64]; for (unsigned i = 0; i < n; i++) X.bitsOf(loadByte(o, off + i), 8, b + 8 * i);
  growVars(S); return X.wire(b, w);
}
static void setByte(Obj* o, u32 off, Val v) {
  if (!o->init.empty()) o->init[off] = 1;
  if (v.e) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off] = v.e; } else { o->d[off] = v.c; if (!o->sym.empty()) o->sym[off] = nullptr; }
}
static void storeC(u64 a, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj* o = resolve(a, n, true); u32 off = ooff(a);
  if (!v.e) { memcpy(&o->d[off], &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; if (!o->init.empty()) for (unsigned i = 0; i < n; i++) o->init[off + i] = 1; return; }
  if (w < 8 * n) v = X.zext(v, w, 8 * n);
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, X.extract(v, 8 * n, 8 * i, 8));
}
static Val load(Val av, int64_t disp, unsigned w) {
  if (av.e) av = simp(av);
  if (!av.e) return loadC(av.c + disp, w);
  Val a = X.bin(O_ADD, av, C(disp, 64), 64); a = simp(a); if (!a.e) return loadC(a.c, w);
  for (int k : a.e->vars) if (X.vars[k].undef) { note("uninit-address"); break; }
  unsigned n = (w + 7) / 8; u64 cur = X.eval(a.e, S->wit); u32 id = oid(cur);
  if (id == 0 || id >= S->objs.size() || !S->objs[id].o.p || S->objs[id].gen != cur >> 44 || ooff(cur) + n > S->objs[id].o.p->size) { concretize(a, 64); return loadC(X.eval(a.e, S->wit), w); }
  Obj* o = S->objs[id].o.p; u64 base = mkaddr(id, S->objs[id].gen, 0); Val off = X.bin(O_SUB, a, C(base, 64), 64);
  if (!off.e) return loadC(base + off.c, w);
  if (!decide(X.cmp(O_ULE, off, C(o->size - n, 64), 64))) { u64 x = concretize(a, 64); return loadC(x, w); }
  auto concAt = [&](u32 p) { for (unsigned i = 0; i < n; i++) if ((!o->init.empty() && !o->init[p + i]) || (!o->sym.empty() && o->sym[p + i])) return false; return true; };
  auto cval = [&](u32 p) { u64 v = 0; memcpy(&v, &o->d[p], n); return v & maskw(w); };
  { // a small table of constants indexed by a few bits (hex digits): keep the index as it is
    u64 mx = ExprCtx::umax(off, 64); unsigned k = mx ? 64 - __builtin_clzll(mx) : 1;
    if (k <= 4 && (1u << k) - 1 + n <= o->size) { bool ok = true; vector<u64> tb(1u << k, 0);
      for (u64 x = 0; x < tb.size() && ok; x++) { if (!concAt(x)) ok = false; else tb[x] = cval(x); }
      if (ok) return X.tab(tb, X.extract(off, 64, 0, k), k, w); }
  }
  if (off.e->svar >= 0) {
    int v = off.e->svar; auto& t = X.stab(off.e); Dom d = S->dom[v]; vector<u64> tb(t.size(), 0); bool ok = true; set<u64> offs;
    for (unsigned i = 0; i < t.size(); i++) if (d.get(i) && t[i] + n <= o->size) { offs.insert(t[i]); if (!concAt(t[i])) ok = false; else tb[i] = cval(t[i]); }
    if (ok) { u64 dflt = 0; bool hv = false; for (unsigned i = 0; i < t.size(); i++) if (d.get(i)) { dflt = tb[i]; hv = true; break; } if (hv) for (unsigned i = 0; i < t.size(); i++) if (!d.get(i)) tb[i] = dflt;
      return X.tab(tb, Val{0, X.vars[v].e}, X.vars[v].w, w); }
    if (offs.size() <= 64) { Val r = loadC(base + *offs.begin(), w); bool first = true; for (u64 x : offs) { if (first) { first = false; continue; } r = X.ite(X.cmp(O_EQ, off, C(x, 64), 64), loadC(base + x, w), r, w); } return r; }
  } else {
    u64 mx = ExprCtx::umax(off, 64); u64 mn = ExprCtx::umin(off); unsigned k = mx ? 64 - __builtin_clzll(mx) : 1; (void)mn;
    if (k <= 10) { bool ok = true; vector<u64> tb(1u << k, 0); u64 kz = off.e->k0, ko = off.e->k1; unsigned cnt = 0;
      for (u64 x = 0; x < tb.size(); x++) if (!(x & kz) && (x & ko) == (ko & maskw(k)) && x + n <= o->size) { cnt++; if (!concAt(x)) { ok = false; break; } tb[x] = cval(x); }
      if (ok && cnt) return X.tab(tb, X.extract(off, 64, 0, k), k, w); }
  }
  u64 x = concretize(a, 64); return loadC(x, w);
}
static void store(Val av, int64_t disp, Val v, unsigned w) { u64 a; if (av.e) { a = concretize(X.bin(O_ADD, av, C(disp, 64), 64), 64); } else a = av.c + disp; storeC(a, v, w); }
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return; if (n > 1 << 24) crash("out-of-bounds copy"); Obj* so = resolve(s, n, false); OP keep(so); Obj* dob = resolve(d, n, true); so = keep.p; u32 a = ooff(d), b = ooff(s);
  bool sp = so->sym.empty(), si = so->init.empty();
  vector<uint8_t> td(so->d.begin() + b, so->d.begin() + b + n); vector<E> ts; vector<uint8_t> ti; if (!sp) ts.assign(so->sym.begin() + b, so->sym.begin() + b + n); if (!si) ti.assign(so->init.begin() + b, so->init.begin() + b + n);
  memcpy(&dob->d[a], td.data(), n);
  if (!sp) { bool any = false; for (E e : ts) if (e) any = true; if (any && dob->sym.empty()) dob->sym.assign(dob->size, nullptr); if (!dob->sym.empty()) for (u64 i = 0; i < n; i++) dob->sym[a + i] = ts[i]; } else if (!dob->sym.empty()) for (u64 i = 0; i < n; i++) dob->sym[a + i] = nullptr;
  if (!si) { bool any = false; for (auto x : ti) if (!x) any = true; if (any && dob->init.empty()) dob->init.assign(dob->size, 1); if (!dob->init.empty()) for (u64 i = 0; i < n; i++) dob->init[a + i] = ti[i]; } else if (!dob->init.empty()) for (u64 i = 0; i < n; i++) dob->init[a + i] = 1;
}
static string readStr(Val p) { string r; u64 a = concretize(p, 64); for (int i = 0; i < 4096; i++) { Val v = loadC(a + i, 8); u64 c = concretize(v, 8); if (!c) return r; r.push_back(c); } return r; }

// ------------------------------------------------------------------ execution
static inline Val rd(const Frame& f, const Opnd& o, unsigned w) { if (o.reg >= 0) return f.regs[o.reg]; if (o.reg == -1) return Val{o.c & maskw(w), nullptr}; return undefVal(w); }
static void takeEdge(Frame& f, int e) {
  Edge& ed = f.f->edges[e]; size_t n = ed.phis.size();
  if (n == 1) { f.regs[ed.phis[0].dst] = rd(f, ed.phis[0].src, ed.phis[0].w); }
  else if (n) { Val tmp[64]; if (n > 64) throw Unsup{"phis"}; for (size_t i = 0; i < n; i++) { auto& s = ed.phis[i].src; tmp[i] = s.reg == -2 ? Val{0, nullptr} : rd(f, s, ed.phis[i].w); } for (size_t i = 0; i < n; i++) f.regs[ed.phis[i].dst] = tmp[i]; }
  f.pc = ed.pc;
}
static void popFrame() { for (u32 id : S->fr.back().allocas) freeObj(id); S->fr.pop_back(); }
static void enter(Fn* fn, const vector<Val>& args, const vector<uint8_t>& ws, int dst, int nslots) {
  if ((int)S->fr.size() >= J.maxDepth) crash("stack-overflow");
  fn->entered = true; Frame f; f.f = fn; f.pc = 0; f.dst = dst; f.nslots = nslots; f.regs.resize(fn->nregs, Val{0, nullptr}); f.serial = ++S->serial;
  for (size_t i = 0; i < fn->argReg.size(); i++) f.regs[fn->argReg[i]] = i < args.size() ? args[i] : Val{0, nullptr};
  if (fn->vararg) for (size_t i = fn->argReg.size(); i < args.size(); i++) f.va.push_back({args[i], ws[i]});
  S->fr.push_back(move(f));
}
static Fd* fdOf(long fd) { if (fd < 0 || fd >= (long)S->fds.size() || !S->fds[fd].open) return nullptr; return &S->fds[fd]; }
static FileD* wfile(const string& n) { FP& p = S->files[n]; if (!p) p = make_shared<FileD>(); else if (p.use_count() > 1) p = make_shared<FileD>(*p); return p.get(); }

// (a fork executes the operation again, so the counts change only once everything is decided)
static int faulty(const char* kind, const string& name, long at = -1) {
  int r = 0; vector<string> cnt;
  for (auto& q : J.runs[S->run].faults) if (q.kind == kind && (q.name == name || q.name == "*")) {
    string key = q.kind + q.name + " " + to_string(&q - &J.runs[S->run].faults[0]); long n = at >= 0 ? at : S->fcnt[key]; cnt.push_back(key);
    auto hit = [&](long x) { long t = q.base + q.scale * x; return q.once ? n == t : n >= t; };
    if (q.var < 0 ? hit(0) : [&] { unsigned w = X.vars[q.var].w; vector<u64> tb(1u << w); for (size_t x = 0; x < tb.size(); x++) tb[x] = hit(x); return decide(X.tab(tb, Val{0, X.vars[q.var].e}, w, 1)); }()) { r = -q.err; break; }
  }
  for (auto& k : cnt) S->fcnt[k]++;
  return r;
}
static void doBuiltin(Inst& in, Frame& f) {
  auto arg = [&](int i) { return rd(f, in.args[i], in.argw[i]); };
  auto ret = [&](Val v) { if (in.dst >= 0) f.regs[in.dst] = v; };
  RunSpec& R = J.runs[S->run];
  switch (in.builtin) {
  case B_OPEN: {
    string n = readStr(arg(0)); int mode = concretize(arg(1), 32), plus = concretize(arg(2), 32);
    S->opened.push_back(string(1, mode) + n);
    if (int e = faulty("open", string(1, mode) + n)) return ret(C(e, 32));
    if (n.empty()) return ret(C(-2, 32));
    { size_t k = 0; for (size_t i = 3; i < S->fds.size(); i++) k += S->fds[i].open; if (k >= 21) return ret(C(-24, 32)); }   // EMFILE, as in the native replays (ulimit -n 24)
    bool ex = S->files.count(n); if (mode == 'r' && !ex) return ret(C(-2, 32)); if (mode != 'r' && mode != 'w' && mode != 'a') return ret(C(-22, 32));
    if (mode == 'w') { S->files[n] = make_shared<FileD>(); } else if (!ex) S->files[n] = make_shared<FileD>();
    Fd d; d.open = true; d.name = n; d.rd = mode == 'r' || plus; d.wr = mode != 'r' || plus; d.app = mode == 'a';
    for (size_t i = 3; i < S->fds.size(); i++) if (!S->fds[i].open) { S->fds[i] = d; return ret(C(i, 32)); }
    S->fds.push_back(d); return ret(C(S->fds.size() - 1, 32)); }
  case B_GETC: { Fd* d = fdOf((int)concretize(arg(0), 32)); if (!d || !d->rd) return ret(C(-2, 32)); auto it = S->files.find(d->name); if (it == S->files.end()) return ret(C(-1, 32)); FileD& fl = *it->second;
    if (d->pos >= (long)fl.c.size()) return ret(C(-1, 32));
    if (faulty("read", d->name, d->pos)) return ret(C(-2, 32));
    long p = d->pos++; if (!fl.s.empty() && fl.s[p]) return ret(X.zext(Val{0, fl.s[p]}, 8, 32)); return ret(C(fl.c[p], 32)); }
  case B_PUTC: { Fd* d = fdOf((int)concretize(arg(0), 32)); if (!d || !d->wr) return ret(C(-9, 32)); 
    if (int e = faulty("write", d->name)) return ret(C(e, 32));
    FileD* fl = wfile(d->name); Val v = X.extract(arg(1), 32, 0, 8); if (d->app) d->pos = fl->c.size();
    if (fl->c.size() > (4u << 20)) throw Term{"limit:output", where(), 0};
    if (d->pos >= (long)fl->c.size()) { fl->c.resize(d->pos + 1); if (!fl->s.empty()) fl->s.resize(d->pos + 1); }
    if (v.e) { if (fl->s.empty()) fl->s.resize(fl->c.size()); fl->s[d->pos] = v.e; fl->c[d->pos] = 0; } else { fl->c[d->pos] = v.c; if (!fl->s.empty()) fl->s[d->pos] = nullptr; }
    d->pos++; d->wrote++; return ret(C(0, 32)); }
  case B_CLOSE: { Fd* d = fdOf((int)concretize(arg(0), 32)); if (!d) crash("close of a stream that is not open"); int e = faulty("close", d->name); d->open = false; return ret(C(e, 32)); }
  case B_SEEK: { Fd* d = fdOf((int)concretize(arg(0), 32)); if (!d) return ret(C(-9, 64)); int64_t o = concretize(arg(1), 64); int w = concretize(arg(2), 32); long sz = S->files.count(d->name) ? S->files[d->name]->c.size() : 0; long np = w == 0 ? o : w == 1 ? d->pos + o : sz + o; if (np < 0) return ret(C(-22, 64)); d->pos = np; return ret(C(np, 64)); }
  case B_TRUNCF: return ret(C(0, 32));
  case B_REMOVE: { string n = readStr(arg(0)); if (!S->files.count(n)) return ret(C(-2, 32)); S->files.erase(n); return ret(C(0, 32)); }
  case B_RENAME: { string a = readStr(arg(0)), b = readStr(arg(1)); if (!S->files.count(a)) return ret(C(-2, 32)); S->files[b] = S->files[a]; S->files.erase(a); return ret(C(0, 32)); }
  case B_EXIT: throw Term{"exit", where(), (long)(int)concretize(arg(0), 32) & 255};
  case B_ABORT: { string m = readStr(arg(0)); if (m.find("unsupported") == 0) throw Unsup{m}; crash("abort: " + m); }
  case B_TRAP: crash("trap");
  case B_ALLOC: { u64 n = concretize(arg(0), 64); return ret(C(newObj(n, 2, false), 64)); }
  case B_MALLOC: { u64 n = concretize(arg(0), 64); if (faulty("malloc", "")) return ret(C(0, 64)); return ret(C(newObj(n, 2, false), 64)); }
  case B_FREE: { u64 a = concretize(arg(0), 64); Obj* o = resolve(a, 0, false); if (!o || o->kind != 2 || ooff(a)) crash("invalid-free"); freeObj(oid(a)); return; }
  case B_SIZE: { u64 a = concretize(arg(0), 64); Obj* o = resolve(a, 0, false); if (!o || o->kind != 2) crash("invalid-realloc"); return ret(C(o->size, 64)); }
  case B_COPY: case B_MEMCPY: { u64 n = concretize(arg(2), in.argw[2]); u64 d = concretize(arg(0), 64), s = concretize(arg(1), 64); copyMem(d, s, n); return; }
  case B_FILL: case B_MEMSET: { u64 n = concretize(arg(2), in.argw[2]); u64 d = concretize(arg(0), 64); if (!n) return; if (n > 1 << 24) crash("out-of-bounds fill"); Obj* o = resolve(d, n, true); Val v = X.extract(arg(1), in.argw[1], 0, 8); for (u64 i = 0; i < n; i++) setByte(o, ooff(d) + i, v); return; }
  case B_SETJMP: { u64 a = concretize(arg(0), 64); S->jumps.push_back(Jump{f.serial, f.pc + 1, in.dst}); storeC(a, C(S->jumps.size(), 64), 64); return ret(C(0, 32)); }
  case B_LONGJMP: { u64 a = concretize(arg(0), 64); Val jv = loadC(a, 64); u64 k = concretize(jv, 64); Val rv = arg(1); if (k == 0 || k > S->jumps.size()) crash("longjmp to invalid buffer"); Jump j = S->jumps[k - 1];
    int t = -1; for (int i = (int)S->fr.size() - 1; i >= 0; i--) if (S->fr[i].serial == j.serial) { t = i; break; } if (t < 0) crash("longjmp to a dead frame");
    while ((int)S->fr.size() > t + 1) popFrame(); Frame& g = S->fr.back(); if (!rv.e && rv.c == 0) rv.c = 1; if (j.dst >= 0) g.regs[j.dst] = rv; g.pc = j.pc - 1; return; }
  case B_VASTART: { u64 a = concretize(arg(0), 64); auto va = f.va; u64 buf = newObj(8 * va.size() + 8, 1, false); S->fr.back().allocas.push_back(oid(buf));
    for (size_t i = 0; i < va.size(); i++) storeC(buf + 8 * i, va[i].second < 64 ? X.zext(va[i].first, va[i].second, 64) : va[i].first, 64);
    storeC(a, C(48, 32), 32); storeC(a + 4, C(176, 32), 32); storeC(a + 8, C(buf, 64), 64); storeC(a + 16, C(0, 64), 64); return; }
  case B_VAEND: return;
  case B_VACOPY: copyMem(concretize(arg(0), 64), concretize(arg(1), 64), 24); return;
  case B_EXPECT: return ret(arg(0));
  case B_OBJSIZE: return ret(C(~0ull, in.w));
  case B_STACKSAVE: return ret(C(0, 64));
  case B_ABS: { Val v = arg(0); unsigned w = in.argw[0]; return ret(X.ite(X.cmp(O_SLT, v, C(0, w), w), X.bin(O_SUB, C(0, w), v, w), v, w)); }
  case B_SMAX: { unsigned w = in.argw[0]; return ret(X.ite(X.cmp(O_SLT, arg(0), arg(1), w), arg(1), arg(0), w)); }
  case B_SMIN: { unsigned w = in.argw[0]; return ret(X.ite(X.cmp(O_SLT, arg(0), arg(1), w), arg(0), arg(1), w)); }
  case B_UMAX: { unsigned w = in.argw[0]; return ret(X.ite(X.cmp(O_ULT, arg(0), arg(1), w), arg(1), arg(0), w)); }
  case B_UMIN: { unsigned w = in.argw[0]; return ret(X.ite(X.cmp(O_ULT, arg(0), arg(1), w), arg(0), arg(1), w)); }
  case B_BSWAP: { unsigned w = in.argw[0]; Bit b[64], o[64]; X.bitsOf(arg(0), w, b); for (unsigned i = 0; i < w; i++) o[(w / 8 - 1 - i / 8) * 8 + i % 8] = b[i]; return ret(X.wire(o, w)); }
  case B_ADDO: case B_SUBO: case B_UADDO: case B_USUBO: {
    unsigned w = in.argw[0]; if (w > 32) throw Unsup{"wide overflow builtin"}; bool sg = in.builtin == B_ADDO || in.builtin == B_SUBO; Op o = in.builtin == B_ADDO || in.builtin == B_UADDO ? O_ADD : O_SUB;
    Val a = arg(0), b = arg(1); Val r = X.bin(o, a, b, w); unsigned w2 = 2 * w; Val A = sg ? X.sext(a, w, w2) : X.zext(a, w, w2), B = sg ? X.sext(b, w, w2) : X.zext(b, w, w2); Val R2 = X.bin(o, A, B, w2); Val rr = sg ? X.sext(r, w, w2) : X.zext(r, w, w2);
    f.regs[in.dst] = r; f.regs[in.dst + 1] = X.lnot(X.cmp(O_EQ, R2, rr, w2)); return; }
  default: throw Unsup{"external function " + in.msg};
  }
}

static void step() {
  Frame& f = S->fr.back(); Inst& in = f.f->code[f.pc]; CUR = &in; in.hit = true; S->insts++; 
  switch (in.op) {
  case I_BIN: {
    Val a = rd(f, in.a, in.w), b = rd(f, in.b, in.w);
    switch (in.sub) {
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM:
      if (!b.e) { if (!b.c) crash("division by zero (SIGFPE)"); } else if (decide(X.cmp(O_EQ, b, C(0, in.w), in.w))) crash("division by zero (SIGFPE)");
      if ((in.sub == O_SDIV || in.sub == O_SREM) && in.w >= 32) { Val m1 = X.cmp(O_EQ, b, C(~0ull, in.w), in.w), mn = X.cmp(O_EQ, a, C(1ull << (in.w - 1), in.w), in.w); Val bad = X.bin(O_AND, m1, mn, 1); if (decide(bad)) crash("signed division overflow (SIGFPE)"); }
      break;
    case O_SHL: case O_LSHR: case O_ASHR: {
      Val ov = X.cmp(O_ULE, C(in.w, in.w), b, in.w); if (!ov.e && ov.c) note("shift-ub");
      if (in.w == 64 || in.w == 32) b = X.bin(O_AND, b, C(in.w - 1, in.w), in.w);
      break; }
    default: break;
    }
    f.regs[in.dst] = X.bin(in.sub, a, b, in.w); f.pc++; break; }
  case I_CMP: { Val r = X.cmp(in.sub, rd(f, in.a, in.w), rd(f, in.b, in.w), in.w); if (in.neg) r = X.lnot(r); f.regs[in.dst] = r; f.pc++; break; }
  case I_ZEXT: f.regs[in.dst] = X.zext(rd(f, in.a, in.w2), in.w2, in.w); f.pc++; break;
  case I_SEXT: f.regs[in.dst] = X.sext(rd(f, in.a, in.w2), in.w2, in.w); f.pc++; break;
  case I_TRUNC: f.regs[in.dst] = X.extract(rd(f, in.a, in.w2), in.w2, 0, in.w); f.pc++; break;
  case I_COPY: f.regs[in.dst] = rd(f, in.a, in.w); f.pc++; break;
  case I_LOAD: { Val v = load(rd(f, in.a, 64), in.off, in.w); f.regs[in.dst] = v; f.pc++; break; }
  case I_STORE: store(rd(f, in.b, 64), in.off, rd(f, in.a, in.w), in.w); f.pc++; break;
  case I_GEP: { Val r = rd(f, in.a, 64); if (in.off) r = X.bin(O_ADD, r, C(in.off, 64), 64);
    for (auto& g : in.gep) { Val ix = rd(f, g.o, g.w); if (g.w < 64) ix = X.sext(ix, g.w, 64); if (g.scale != 1) ix = X.bin(O_MUL, ix, C(g.scale, 64), 64); r = X.bin(O_ADD, r, ix, 64); }
    f.regs[in.dst] = r; f.pc++; break; }
  case I_ALLOCA: { u64 n = concretize(rd(f, in.a, in.w2), in.w2) * in.off; u64 a = newObj(n, 1, false); f.allocas.push_back(oid(a)); f.regs[in.dst] = C(a, 64); f.pc++; break; }
  case I_BR: takeEdge(f, in.t1); break;
  case I_CBR: { if (in.a.reg == -2) crash("branch on undefined value"); bool b = decide(rd(f, in.a, 1)); takeEdge(f, b ? in.t1 : in.t2); break; }
  case I_SWITCH: { Val v = simp(rd(f, in.a, in.w)); int t = -1;
    if (!v.e) { t = in.t1; for (auto& c : in.cases) if (c.first == v.c) { t = c.second; break; } }
    else { vector<int> eds; for (auto& c : in.cases) if (find(eds.begin(), eds.end(), c.second) == eds.end()) eds.push_back(c.second);
      for (int e : eds) { Val any = C(0, 1); for (auto& c : in.cases) if (c.second == e) any = X.bin(O_OR, any, X.cmp(O_EQ, v, C(c.first, in.w), in.w), 1); if (decide(any)) { t = e; break; } }
      if (t < 0) t = in.t1; }
    takeEdge(f, t); break; }
  case I_SELECT: { Val c = rd(f, in.c, 1); Val a = rd(f, in.a, in.w), b = rd(f, in.b, in.w);
    if (c.e && in.w == 64 && ((!a.e && a.c >> 24) || (!b.e && b.c >> 24))) { f.regs[in.dst] = decide(c) ? a : b; }  // pointers fork
    else { c = simp(c); f.regs[in.dst] = X.ite(c, a, b, in.w); } f.pc++; break; }
  case I_INSVAL: { for (int k = 0; k < in.nslots; k++) { Val v = in.a.reg >= 0 ? f.regs[in.a.reg + k] : Val{0, nullptr}; if (k == in.off) v = rd(f, in.b, 64); f.regs[in.dst + k] = v; } f.pc++; break; }
  case I_RET: {
    Val rv[8]; int n = in.nslots; for (int k = 0; k < n && k < 8; k++) rv[k] = in.a.reg >= 0 ? f.regs[in.a.reg + k] : rd(f, in.a, 64);
    if (S->fr.size() == 1) throw Term{"exit", "main", (long)(n ? concretize(rv[0], 32) & 255 : 0)};
    int dst = f.dst, ns = f.nslots; popFrame();
    Frame& g = S->fr.back(); for (int k = 0; k < n && k < ns; k++) if (dst >= 0) g.regs[dst + k] = rv[k]; g.pc++; break; }
  case I_CALL: {
    if (in.builtin >= 0) { doBuiltin(in, f); S->fr.back().pc++; break; }
    Fn* callee = in.callee;
    if (!callee) { u64 a = concretize(rd(f, in.c, 64), 64); u64 k = (a - FUNC_BASE) / 16; if (a < FUNC_BASE || k < 1 || k > fns.size() || a % 16) crash("call through an invalid function pointer"); callee = fns[k - 1]; }
    if (!callee->defined) throw Unsup{"external function " + callee->name};
    vector<Val> av; for (size_t i = 0; i < in.args.size(); i++) av.push_back(rd(f, in.args[i], in.argw[i]));
    vector<u32> tmp; for (size_t i = 0; i < av.size(); i++) if (in.byval[i]) { u64 a = newObj(in.byval[i], 1, false); copyMem(a, concretize(av[i], 64), in.byval[i]); av[i] = C(a, 64); tmp.push_back(oid(a)); }
    enter(callee, av, in.argw, in.dst, in.nslots); for (u32 t : tmp) S->fr.back().allocas.push_back(t); break; }
  case I_UNREACH: crash("unreachable code reached");
  case I_UNSUP: throw Unsup{in.msg};
  }
}

static void startRun() {
  S->fr.clear(); S->objs = initObjs; S->freel.clear(); S->fds.clear(); S->jumps.clear(); S->notes.clear(); S->insts = 0; S->fcnt.clear(); S->opened.clear();
  RunSpec& R = J.runs[S->run]; S->files = R.files; S->fds.resize(3); for (int i = 0; i < 3; i++) { S->fds[i].open = true; S->fds[i].name = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>"; S->fds[i].rd = i == 0; S->fds[i].wr = i > 0; }
  wfile("<stdout>"); wfile("<stderr>"); if (!S->files.count("<stdin>")) wfile("<stdin>");
  u64 av = newObj(8 * (R.args.size() + 1), 2, true);
  for (size_t i = 0; i < R.args.size(); i++) { auto& ac = *R.args[i]; u64 a = newObj(ac.c.size() + 1, 2, true); for (size_t k = 0; k < ac.c.size(); k++) storeC(a + k, !ac.s.empty() && ac.s[k] ? Val{0, ac.s[k]} : C(ac.c[k], 8), 8); storeC(av + 8 * i, C(a, 64), 64); }
  Fn* m = nullptr; for (Fn* f : fns) if (f->name == "main" && f->defined) m = f; if (!m) throw Unsup{"no main"};
  vector<Val> args{C(R.args.size(), 32), C(av, 64), C(0, 64)}; args.resize(m->argReg.size()); vector<uint8_t> ws{32, 64, 64}; enter(m, args, ws, -1, 0);
}

// ------------------------------------------------------------------ JSON output
static vector<char> emitted;
static void jstr(string& o, const string& s) { o += '"'; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } o += '"'; }
static void emitNode(E e, string& out) {
  if (e->id < emitted.size() && emitted[e->id]) return; if (emitted.size() <= e->id) emitted.resize(e->id * 2 + 64);
  vector<E> st{e}; // iterative post-order
  while (!st.empty()) { E x = st.back(); if (emitted[x->id]) { st.pop_back(); continue; } bool ready = true;
    auto need = [&](E y) { if (!y) return; if (emitted.size() <= y->id) emitted.resize(y->id * 2 + 64); if (!emitted[y->id]) { st.push_back(y); ready = false; } };
    need(x->a); need(x->b); need(x->c); E last = nullptr; for (auto& b : x->wire) if (b.atom && b.atom != last) { need(b.atom); last = b.atom; }
    if (!ready) continue; st.pop_back(); emitted[x->id] = 1;
    char b[128]; snprintf(b, sizeof b, "N [%u,\"%s\",%u", x->id, opNames[x->op], x->w); out += b;
    if (x->op == O_CONST || x->op == O_VAR) out += "," + to_string(x->cv);
    else if (x->op == O_WIRE) { out += ",["; // runs: [atomid, lo, n] from lsb; const: [0,value,n]
      bool f1 = true; for (size_t i = 0; i < x->wire.size();) { auto& w = x->wire[i]; size_t j = i; if (!f1) out += ","; f1 = false;
        if (!w.atom) { u64 v = 0; while (j < x->wire.size() && !x->wire[j].atom) { v |= (u64)x->wire[j].idx << (j - i); j++; } out += "[0," + to_string(v) + "," + to_string(j - i) + "]"; }
        else { while (j < x->wire.size() && x->wire[j].atom == w.atom && x->wire[j].idx == w.idx + (j - i)) j++; out += "[" + to_string(w.atom->id) + "," + to_string(w.idx) + "," + to_string(j - i) + "]"; } i = j; } out += "]"; }
    else { if (x->a) out += "," + to_string(x->a->id); if (x->b) out += "," + to_string(x->b->id); if (x->c) out += "," + to_string(x->c->id);
      if (x->op == O_TAB) { out += ",["; for (size_t i = 0; i < x->table.size(); i++) { if (i) out += ","; out += to_string(x->table[i]); } out += "]"; } }
    out += "]\n"; }
}
static void emitFile(const FileD& f, string& nodes, string& o) {
  o += "["; string cur; bool first = true; auto flush = [&]() { if (cur.empty()) return; if (!first) o += ","; first = false; jstr(o, cur); cur.clear(); };
  for (size_t i = 0; i < f.c.size(); i++) { if (!f.s.empty() && f.s[i]) { flush(); emitNode(f.s[i], nodes); if (!first) o += ","; first = false; o += to_string(f.s[i]->id); } else cur.push_back(f.c[i]); }
  flush(); o += "]";
}
static void emitPath() {
  string nodes, o = "P {\"runs\":["; growVars(S);
  for (size_t r = 0; r < S->res.size(); r++) { auto& R = S->res[r]; if (r) o += ","; o += "{\"status\":"; jstr(o, R.status); o += ",\"code\":" + to_string(R.code) + ",\"where\":"; jstr(o, R.where); o += ",\"insts\":" + to_string(R.insts) + ",\"notes\":[";
    for (size_t i = 0; i < R.notes.size(); i++) { if (i) o += ","; jstr(o, R.notes[i]); } o += "],\"opened\":["; for (size_t i = 0; i < R.opened.size(); i++) { if (i) o += ","; jstr(o, R.opened[i]); } o += "],\"files\":{"; bool f1 = true;
    for (auto& kv : R.files) { auto in = J.runs[r].files.find(kv.first); if (in != J.runs[r].files.end() && in->second == kv.second) continue; if (!f1) o += ","; f1 = false; jstr(o, kv.first); o += ":"; emitFile(*kv.second, nodes, o); }
    o += "},\"gone\":["; f1 = true; for (auto& kv : J.runs[r].files) if (!R.files.count(kv.first)) { if (!f1) o += ","; f1 = false; jstr(o, kv.first); } o += "]}"; }
  o += "],\"pc\":["; for (size_t i = 0; i < S->pc.size(); i++) { emitNode(S->pc[i], nodes); if (i) o += ","; o += to_string(S->pc[i]->id); }
  o += "],\"dom\":{"; bool f1 = true; for (size_t v = 0; v < S->dom.size(); v++) { if (S->dom[v] == X.vars[v].dom) continue; if (!f1) o += ","; f1 = false; char b[96]; snprintf(b, sizeof b, "\"%zu\":\"%016llx%016llx%016llx%016llx\"", v, (unsigned long long)S->dom[v].m[3], (unsigned long long)S->dom[v].m[2], (unsigned long long)S->dom[v].m[1], (unsigned long long)S->dom[v].m[0]); o += b; }
  o += "},\"wit\":["; for (size_t v = 0; v < S->wit.size(); v++) { if (v) o += ","; o += to_string(S->wit[v]); } o += "]}\n";
  fputs(nodes.c_str(), stdout); fputs(o.c_str(), stdout);
}
static void endRun(const Term& t) {
  RunResult R; R.status = t.status; R.code = t.code; R.where = t.where; R.files = S->files; R.notes = S->notes; R.insts = S->insts; R.opened = S->opened; gInsts += S->insts; S->res.push_back(R);
  while (!S->fr.empty()) S->fr.pop_back();
  S->objs.clear(); S->run++;
}
static void runJob() {
  double t0 = now(); gQueries = gSat = gUnsat = gUnknown = gForks = gInsts = 0; gSolver = 0; gIncomplete = false; gIncWhy = ""; emitted.clear(); long paths = 0;
  for (Fn* f : fns) { f->entered = false; for (auto& i : f->code) i.hit = false; }
  work.clear(); auto s0 = make_unique<State>(); S = s0.get(); growVars(S);
  try { startRun(); } catch (Unsup& u) { incomplete("unsupported: " + u.m); }
  if (!gIncomplete) work.push_back(move(s0));
  while (!work.empty()) {
    if (paths >= J.maxPaths) { incomplete("path limit"); break; } if (now() - t0 > J.maxTime) { incomplete("time limit"); break; }
    unique_ptr<State> cur = move(work.back()); work.pop_back(); S = cur.get(); bool done = false;
    while (!done) {
      try { 
        for (;;) { for (int i = 0; i < 4096; i++) step(); if (S->insts > J.maxInst) throw Term{"limit:instructions", where(), 0}; if (now() - t0 > J.maxTime) { incomplete("time limit"); throw Term{"limit:time", where(), 0}; } }
      } catch (Term& t) { endRun(t); if (S->run < (int)J.runs.size()) { startRun(); } else { paths++; emitPath(); done = true; } }
      catch (Unsup& u) { incomplete("unsupported: " + u.m + " at " + where()); endRun(Term{"unsupported", where(), 0}); done = true; }
      catch (Dead&) { done = true; }
    }
  }
  work.clear();
  string o = "E {\"paths\":" + to_string(paths) + ",\"forks\":" + to_string(gForks) + ",\"insts\":" + to_string(gInsts) + ",\"queries\":" + to_string(gQueries) + ",\"sat\":" + to_string(gSat) + ",\"unsat\":" + to_string(gUnsat) + ",\"unknown\":" + to_string(gUnknown) + ",\"solver_s\":" + to_string(gSolver) + ",\"wall_s\":" + to_string(now() - t0) + ",\"incomplete\":" + (gIncomplete ? "true" : "false") + ",\"why\":"; jstr(o, gIncWhy);
  o += ",\"functions\":["; bool f1 = true; u64 hit = 0, tot = 0; for (Fn* f : fns) { if (!f->repo) continue; tot += f->code.size(); if (!f->entered) continue; for (auto& i : f->code) hit += i.hit; if (!f1) o += ","; f1 = false; jstr(o, f->name); }
  o += "],\"inst_covered\":" + to_string(hit) + ",\"inst_total\":" + to_string(tot) + ",\"undef0\":" + to_string(X.vars.size() - undefPool.size()) + ",\"nvars\":" + to_string(X.vars.size()) + "}\n"; fputs(o.c_str(), stdout); fflush(stdout);
}

// ------------------------------------------------------------------ job input
// job text:  JOB id / LIMIT maxInst maxPaths maxTime / VAR w hexmask(64 hex digits) / RUN / ARG enc / FILE nameenc contentenc / FAULT kind nameenc base scale var once errno / GO
// enc: %XX escapes, $n; a variable of width 8 (the byte), 1 ('0'+bit), 3 (octal digit), 4 (hex digit)
static string dec(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { r.push_back(stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; } else r.push_back(s[i]); return r; }
static FP decFile(const string& s) {
  auto f = make_shared<FileD>();
  for (size_t i = 0; i < s.size(); i++) { uint8_t c = s[i]; E e = nullptr;
    if (s[i] == '%') { c = stoi(s.substr(i + 1, 2), nullptr, 16); i += 2; }
    else if (s[i] == '$') { size_t j = s.find(';', i); int v = stoi(s.substr(i + 1, j - i - 1)); i = j; E ve = X.vars[v].e; unsigned w = X.vars[v].w; Val r{0, ve};
      if (w == 8) r = Val{0, ve}; else if (w == 4) { vector<uint64_t> t; for (int k = 0; k < 16; k++) t.push_back("0123456789abcdef"[k]); r = X.tab(t, Val{0, ve}, 4, 8); } else r = X.concat(C('0' >> w, 8 - w), 8 - w, Val{0, ve}, w);
      if (r.e) e = r.e; else c = r.c; }
    f->c.push_back(e ? 0 : c); if (e && f->s.empty()) f->s.resize(f->c.size()); if (!f->s.empty()) { f->s.resize(f->c.size()); f->s.back() = e; } }
  return f;
}
static vector<string> split(const string& s) { vector<string> r; string c; for (char ch : s) if (ch == ' ') { r.push_back(c); c.clear(); } else c.push_back(ch); r.push_back(c); return r; }
int main(int argc, char** argv) {
  if (argc < 2 || !loadModule(argv[1])) { fprintf(stderr, "usage: symex prog.bc\n"); return 3; }
  ios::sync_with_stdio(false); string line; setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  while (getline(cin, line)) {
    auto t = split(line); if (t[0] == "JOB") {
      J = Job(); J.id = t[1]; X.reset(); tdc->clear(); qcache.clear(); undefPool.clear(); undefNext = 0; if (X.z3) { Z3_solver_dec_ref(X.z3, Z); Z3_del_context(X.z3); }
      Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "timeout", "10000"); X.z3 = Z3_mk_context(cfg); Z3_set_error_handler(X.z3, z3err); Z3_del_config(cfg); Z = Z3_mk_solver_for_logic(X.z3, Z3_mk_string_symbol(X.z3, "QF_BV")); Z3_solver_inc_ref(X.z3, Z);
    } else if (t[0] == "LIMIT") { J.maxInst = stoull(t[1]); J.maxPaths = stol(t[2]); J.maxTime = stod(t[3]); }
    else if (t[0] == "VAR") { Dom d; for (int k = 0; k < 4; k++) d.m[3 - k] = stoull(t[2].substr(16 * k, 16), nullptr, 16); X.newVar(stoi(t[1]), d, false, ""); }
    else if (t[0] == "RUN") J.runs.push_back(RunSpec());
    else if (t[0] == "ARG") J.runs.back().args.push_back(decFile(t.size() > 1 ? t[1] : ""));
    else if (t[0] == "FILE") J.runs.back().files[dec(t[1])] = decFile(t.size() > 2 ? t[2] : "");
    else if (t[0] == "FAULT") { Fault q; q.kind = t[1]; q.name = dec(t[2]); q.base = stol(t[3]); q.scale = stol(t[4]); q.var = stoi(t[5]); q.once = t[6] == "1"; q.err = stoi(t[7]); J.runs.back().faults.push_back(q); }
    else if (t[0] == "GO") { try { runJob(); } catch (exception& e) { printf("X %s\n", e.what()); fflush(stdout); return 4; } }
  }
  fflush(stdout); _exit(0);
}
