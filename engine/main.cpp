// rsym: symbolic executor for whole-program LLVM 18 bitcode produced by rustc.
#include "state.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsWebAssembly.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
struct Opts {
  std::string bc, entry, out, assign; std::vector<u64> args; unsigned jobs = 8; double timeout = 600; u64 maxSteps = 30000000; unsigned maxViol = 8;
  unsigned validate = 12; unsigned seed = 1; std::string dump; unsigned dumpMax = 0; bool verbose = false; u64 maxPaths = 0; unsigned enumMax = 300; std::string repo = "/repo/";
  bool constHash = false; size_t memMb = 3500;
} O;

// ---------------------------------------------------------------- compiled form
enum Op : uint16_t {
  O_BIN, O_ICMP, O_FCMP, O_SEL, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACH,
  O_FPCAST, O_FBIN, O_FNEG, O_CONCAT, O_EXTR, O_ARMW, O_CMPXCHG, O_NOP, O_UNSUP
};
struct CInst { uint16_t op, w, w2, k; int d, a, b, c, x; Instruction* I; };
struct Edge { int target; std::vector<std::pair<int, int>> moves; }; // dst slot, src operand
struct CallInfo {
  Function* F = nullptr; CFunc* cf = nullptr; int handler = 0; int fptr = 0; bool indirect = false;
  std::vector<int> args; std::vector<uint16_t> argW; int nret = 0; uint16_t retW = 0; std::string name; unsigned iid = 0;
};
struct SwitchInfo { int op; unsigned w; std::vector<std::pair<u64, int>> cases; int def; }; // edge indexes
struct GepTerm { int op; unsigned w; i64 scale; };
struct GepInfo { i64 off; std::vector<GepTerm> t; };
struct CFunc {
  Function* F = nullptr; std::string name, dem; bool compiled = false; int nslots = 0; std::vector<CInst> code; std::vector<Val> consts;
  std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> sw; std::vector<GepInfo> geps; std::vector<std::vector<std::pair<int, int>>> lists;
  std::vector<int> blockStart; std::vector<uint8_t> hit; std::vector<int> pcBlock; std::vector<BasicBlock*> blocks; u64 addr = 0; int argSlots = 0; int handler = 0;
};

static std::unique_ptr<Module> M; static const DataLayout* DL; static unsigned PW; // pointer width bits
static std::unordered_map<const Function*, CFunc*> fmap; static std::vector<CFunc*> fvec;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static const u64 FUNC_BASE = 0xF0000000ull, GLOB_BASE = 0x00001000ull, HEAP_BASE = 0x10000000ull, STACK_BASE = 0x70000000ull;
static CFunc* funcAt(u64 a) { if (a < FUNC_BASE) return nullptr; u64 i = (a - FUNC_BASE) / 16; if ((a & 15) || i >= fvec.size()) return nullptr; return fvec[i]; }

[[noreturn]] static void die(const std::string& m) { fprintf(stderr, "rsym: fatal: %s\n", m.c_str()); exit(3); }
static std::string demang(const std::string& s) {
  std::string d = llvm::demangle(s);
  size_t p = d.rfind("::h"); if (p != std::string::npos && d.size() - p == 19) d = d.substr(0, p);
  // legacy rust escapes
  auto rep = [&](const char* a, const char* b) { size_t q = 0; while ((q = d.find(a, q)) != std::string::npos) { d.replace(q, strlen(a), b); q += strlen(b); } };
  rep("$LT$", "<"); rep("$GT$", ">"); rep("$u20$", " "); rep("$RF$", "&"); rep("$BP$", "*"); rep("$u7b$", "{"); rep("$u7d$", "}"); rep("$C$", ","); rep("$LP$", "("); rep("$RP$", ")"); rep("$u5b$", "["); rep("$u5d$", "]"); rep("$u27$", "'"); rep("$u3b$", ";"); rep("..", "::");
  return d;
}

static void leaves(Type* T, std::vector<std::pair<unsigned, u64>>& out, u64 off) { // (bit width, byte offset)
  if (T->isIntegerTy()) { out.push_back({T->getIntegerBitWidth(), off}); return; }
  if (T->isPointerTy()) { out.push_back({PW, off}); return; }
  if (T->isFloatTy()) { out.push_back({32, off}); return; }
  if (T->isDoubleTy()) { out.push_back({64, off}); return; }
  if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), out, off + L->getElementOffset(i)); return; }
  if (auto* A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), out, off + i * sz); return; }
  if (auto* V = dyn_cast<FixedVectorType>(T)) { unsigned bw = V->getElementType()->isPointerTy() ? PW : V->getScalarSizeInBits(); for (unsigned i = 0; i < V->getNumElements(); i++) leaves(V->getElementType(), out, off + (u64)i * bw / 8); return; }
  if (T->isVoidTy()) return;
  std::string s; raw_string_ostream os(s); T->print(os); die("unsupported type " + os.str());
}
static std::vector<std::pair<unsigned, u64>> leavesOf(Type* T) { std::vector<std::pair<unsigned, u64>> v; leaves(T, v, 0); return v; }
static unsigned nleaves(Type* T) { if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) return 1; return leavesOf(T).size(); }
static unsigned wOf(Type* T) { auto l = leavesOf(T); return l.empty() ? 0 : l[0].first; }

static void constVals(const Constant* C, std::vector<Val>& out);
static u64 constAddr(const Constant* C) { std::vector<Val> v; constVals(C, v); return v[0].c; }
static void constVals(const Constant* C, std::vector<Val>& out) {
  if (auto* CI = dyn_cast<ConstantInt>(C)) {
    const APInt& a = CI->getValue(); unsigned w = a.getBitWidth();
    if (w <= 64) out.push_back(cv(a.getZExtValue()));
    else if (w <= 128) { u64 lo = a.extractBitsAsZExtValue(64, 0), hi = a.extractBitsAsZExtValue(w - 64, 64); out.push_back(Val{0, eConst(((u128)hi << 64) | lo, w)}); }
    else die("wide constant");
    return;
  }
  if (auto* CF = dyn_cast<ConstantFP>(C)) { out.push_back(cv(CF->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(cv(0)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto& l : leavesOf(C->getType())) out.push_back(l.first > 64 ? Val{0, eConst(0, l.first)} : cv(0)); return; }
  if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) die("global without address"); out.push_back(cv(it->second)); return; }
  if (auto* F = dyn_cast<Function>(C)) { out.push_back(cv(fmap[F]->addr)); return; }
  if (auto* A = dyn_cast<GlobalAlias>(C)) { constVals(A->getAliasee(), out); return; }
  if (auto* A = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < A->getNumOperands(); i++) constVals(A->getOperand(i), out); return; }
  if (auto* A = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < A->getNumElements(); i++) constVals(A->getElementAsConstant(i), out); return; }
  if (auto* E = dyn_cast<ConstantExpr>(C)) {
    if (auto* G = dyn_cast<GEPOperator>(E)) {
      APInt off(DL->getIndexTypeSizeInBits(G->getType()), 0); if (!G->accumulateConstantOffset(*DL, off)) die("const gep");
      u64 b = constAddr(cast<Constant>(G->getPointerOperand())); u64 r = b + off.getSExtValue(); if (PW < 64) r &= (1ull << PW) - 1; out.push_back(cv(r)); return;
    }
    switch (E->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: {
        u64 v = constAddr(E->getOperand(0)); unsigned w = wOf(E->getType()); if (w < 64) v &= (1ull << w) - 1; out.push_back(cv(v)); return; }
      case Instruction::Add: { u64 v = constAddr(E->getOperand(0)) + constAddr(E->getOperand(1)); unsigned w = wOf(E->getType()); if (w < 64) v &= (1ull << w) - 1; out.push_back(cv(v)); return; }
      case Instruction::Sub: { u64 v = constAddr(E->getOperand(0)) - constAddr(E->getOperand(1)); unsigned w = wOf(E->getType()); if (w < 64) v &= (1ull << w) - 1; out.push_back(cv(v)); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); die("unsupported constant " + os.str());
}

// ---------------------------------------------------------------- handlers for externals / intercepted functions
enum H : int {
  H_NONE = 0, H_IGNORE, H_UNSUP, H_PANICFMT, H_ABORT, H_MEMCPY, H_MEMSET, H_MEMCMP, H_BCMP, H_ALLOC, H_DEALLOC, H_REALLOC, H_SYMINT, H_SYMBYTES, H_ASSUME, H_CHECK, H_REACH,
  H_TRACE, H_CONCRETIZE, H_END, H_EXPECTPANIC, H_NOTE, H_RET0, H_RETM1, H_HOSTDOM, H_HOSTPANIC, H_GETRANDOM, H_MALLOC, H_CALLOC, H_FREE, H_CREALLOC, H_MEMALIGN, H_STRLEN, H_LEAKCHK, H_INTRIN, H_ISREPLAY, H_SEEDHASH, H_CONSTHASH
};
static int handlerFor(const std::string& n, const std::string& dem) {
  if (O.constHash && n.find("4core4hash11BuildHasher8hash_one17h") != std::string::npos) return H_CONSTHASH;
  static std::map<std::string, int> m = {
    {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"strlen", H_STRLEN},
    {"__sym_alloc", H_ALLOC}, {"__sym_dealloc", H_DEALLOC}, {"__sym_realloc", H_REALLOC}, {"__sym_int", H_SYMINT}, {"__sym_bytes", H_SYMBYTES}, {"__sym_assume", H_ASSUME},
    {"__sym_check", H_CHECK}, {"__sym_reach", H_REACH}, {"__sym_trace", H_TRACE}, {"__sym_concretize", H_CONCRETIZE}, {"__sym_end", H_END}, {"__sym_expect_panic", H_EXPECTPANIC},
    {"__sym_live_allocs", H_LEAKCHK}, {"__sym_note", H_NOTE}, {"abort", H_ABORT}, {"rust_begin_unwind", H_ABORT}, {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"free", H_FREE}, {"realloc", H_CREALLOC}, {"posix_memalign", H_MEMALIGN},
    {"__cxa_thread_atexit_impl", H_RET0}, {"getrandom", H_GETRANDOM}, {"write", H_RETM1}, {"rust_panic", H_ABORT}, {"__rust_alloc_error_handler", H_ABORT}, {"exit", H_ABORT}, {"_exit", H_ABORT},
  };
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (dem.find("core::panicking::panic_fmt") == 0) return H_PANICFMT;
  if (dem.find("core::panicking::panic_nounwind") == 0) return H_ABORT;
  if (dem.find("alloc::alloc::handle_alloc_error") == 0) return H_ABORT;
  if (dem.find("std::process::abort") == 0 || dem.find("std::sys::pal::") == 0 && dem.find("abort_internal") != std::string::npos) return H_ABORT;
  return H_NONE;
}

// ---------------------------------------------------------------- compiler
struct Compiler {
  CFunc& f; std::unordered_map<const Value*, int> slot; std::unordered_map<const Constant*, int> cslot; std::unordered_map<const BasicBlock*, int> bidx;
  std::vector<std::pair<int, const BasicBlock*>> edgeFix; // edge index -> target block
  explicit Compiler(CFunc& f) : f(f) {}
  int opnd(const Value* V, unsigned leaf = 0) {
    if (auto* C = dyn_cast<Constant>(V)) {
      auto it = cslot.find(C); int b;
      if (it == cslot.end()) { b = f.consts.size(); std::vector<Val> v; constVals(C, v); for (auto& x : v) f.consts.push_back(x); cslot[C] = b; if (v.empty()) return -1; } else b = it->second;
      return ~(b + (int)leaf);
    }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return 0;
    auto it = slot.find(V); if (it == slot.end()) die("operand without slot in " + f.name); return it->second + leaf;
  }
  int konst(u64 v) { f.consts.push_back(cv(v)); return ~((int)f.consts.size() - 1); }
  CInst& emit(Op op, Instruction* I, int d, unsigned w) { f.code.push_back(CInst{(uint16_t)op, (uint16_t)w, 0, 0, d, 0, 0, 0, 0, I}); return f.code.back(); }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = -1;
    for (auto& I : *to) {
      auto* ph = dyn_cast<PHINode>(&I); if (!ph) break;
      int idx = ph->getBasicBlockIndex(from); unsigned n = nleaves(ph->getType());
      for (unsigned i = 0; i < n; i++) e.moves.push_back({slot[ph] + (int)i, opnd(ph->getIncomingValue(idx), i)});
    }
    f.edges.push_back(e); edgeFix.push_back({(int)f.edges.size() - 1, to}); return f.edges.size() - 1;
  }
  void run();
  void inst(Instruction& I);
  void call(CallBase& I);
};

static Kind binKind(unsigned opc) {
  switch (opc) {
    case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV;
    case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM; case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
    case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
    case Instruction::FAdd: return K_FADD; case Instruction::FSub: return K_FSUB; case Instruction::FMul: return K_FMUL; case Instruction::FDiv: return K_FDIV; case Instruction::FRem: return K_FREM;
    default: die("binop");
  }
}

void Compiler::run() {
  Function* F = f.F; int s = 0;
  for (auto& A : F->args()) { slot[&A] = s; s += nleaves(A.getType()); }
  f.argSlots = s;
  for (auto& B : *F) { bidx[&B] = f.blocks.size(); f.blocks.push_back(&B); for (auto& I : B) if (!I.getType()->isVoidTy()) { unsigned n = nleaves(I.getType()); slot[&I] = s; s += n; } }
  f.nslots = s; f.blockStart.resize(f.blocks.size()); f.hit.assign(f.blocks.size(), 0);
  for (unsigned b = 0; b < f.blocks.size(); b++) {
    f.blockStart[b] = f.code.size();
    for (auto& I : *f.blocks[b]) inst(I);
    while (f.pcBlock.size() < f.code.size()) f.pcBlock.push_back(b);
  }
  for (auto& p : edgeFix) f.edges[p.first].target = f.blockStart[bidx[p.second]];
  f.compiled = true;
}

void Compiler::inst(Instruction& I) {
  int d = slot.count(&I) ? slot[&I] : -1;
  auto lv = leavesOf(I.getType()); unsigned w = lv.empty() ? 0 : lv[0].first;
  if (isa<PHINode>(I)) return;
  if (auto* B = dyn_cast<BinaryOperator>(&I)) {
    bool fp = I.getType()->isFPOrFPVectorTy();
    for (unsigned i = 0; i < lv.size(); i++) { auto& c = emit(fp ? O_FBIN : O_BIN, &I, d + i, w); c.k = binKind(B->getOpcode()); c.a = opnd(B->getOperand(0), i); c.b = opnd(B->getOperand(1), i); }
    return;
  }
  if (auto* U = dyn_cast<UnaryOperator>(&I)) { for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(U->getOperand(0), i); auto& c = emit(O_FNEG, &I, d + i, w); c.a = o; } return; }
  if (auto* C = dyn_cast<ICmpInst>(&I)) {
    unsigned ow = wOf(C->getOperand(0)->getType());
    for (unsigned i = 0; i < lv.size(); i++) { int x = opnd(C->getOperand(0), i), y = opnd(C->getOperand(1), i); auto& c = emit(O_ICMP, &I, d + i, ow); c.k = C->getPredicate(); c.a = x; c.b = y; }
    return;
  }
  if (auto* C = dyn_cast<FCmpInst>(&I)) {
    unsigned ow = wOf(C->getOperand(0)->getType());
    for (unsigned i = 0; i < lv.size(); i++) { int x = opnd(C->getOperand(0), i), y = opnd(C->getOperand(1), i); auto& c = emit(O_FCMP, &I, d + i, ow); c.k = C->getPredicate(); c.a = x; c.b = y; }
    return;
  }
  if (auto* S = dyn_cast<SelectInst>(&I)) {
    bool vc = S->getCondition()->getType()->isVectorTy();
    for (unsigned i = 0; i < lv.size(); i++) { int cc = opnd(S->getCondition(), vc ? i : 0), x = opnd(S->getTrueValue(), i), y = opnd(S->getFalseValue(), i); auto& c = emit(O_SEL, &I, d + i, lv[i].first); c.a = cc; c.b = x; c.c = y; }
    return;
  }
  if (auto* C = dyn_cast<CastInst>(&I)) {
    auto sl = leavesOf(C->getOperand(0)->getType()); unsigned sw = sl[0].first;
    switch (C->getOpcode()) {
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(C->getOperand(0), i); auto& c = emit(C->getOpcode() == Instruction::ZExt ? O_ZEXT : C->getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC, &I, d + i, w); c.w2 = sw; c.a = o; }
        return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(C->getOperand(0), i); auto& c = emit(O_ZEXT, &I, d + i, w); c.w2 = sw; c.a = o; }
        return;
      case Instruction::BitCast:
        if (sl.size() == lv.size() && sw == w) { for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(C->getOperand(0), i); auto& c = emit(O_MOV, &I, d + i, w); c.a = o; } return; }
        if (lv.size() == 1) { // vector -> int : concat, lane 0 lowest
          std::vector<std::pair<int, int>> l; for (unsigned i = 0; i < sl.size(); i++) l.push_back({opnd(C->getOperand(0), i), (int)sl[i].first});
          f.lists.push_back(l); auto& c = emit(O_CONCAT, &I, d, w); c.x = f.lists.size() - 1; return; }
        if (sl.size() == 1) { for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(C->getOperand(0)); auto& c = emit(O_EXTR, &I, d + i, w); c.w2 = sw; c.a = o; c.x = i * w; } return; }
        { // vector -> vector of different lane width
          for (unsigned i = 0; i < lv.size(); i++) {
            if (w % sw == 0) { std::vector<std::pair<int, int>> l; for (unsigned j = 0; j < w / sw; j++) l.push_back({opnd(C->getOperand(0), i * (w / sw) + j), (int)sw}); f.lists.push_back(l); auto& c = emit(O_CONCAT, &I, d + i, w); c.x = f.lists.size() - 1; }
            else if (sw % w == 0) { unsigned per = sw / w; int o = opnd(C->getOperand(0), i / per); auto& c = emit(O_EXTR, &I, d + i, w); c.w2 = sw; c.a = o; c.x = (i % per) * w; }
            else die("bitcast lanes");
          }
          return; }
      default:
        for (unsigned i = 0; i < lv.size(); i++) { int o = opnd(C->getOperand(0), i); auto& c = emit(O_FPCAST, &I, d + i, w); c.w2 = sw; c.k = C->getOpcode(); c.a = o; }
        return;
    }
  }
  if (auto* L = dyn_cast<LoadInst>(&I)) {
    int p = opnd(L->getPointerOperand());
    for (unsigned i = 0; i < lv.size(); i++) { auto& c = emit(O_LOAD, &I, d + i, lv[i].first); c.a = p; c.x = lv[i].second; c.k = (lv.size() > 1); }
    return;
  }
  if (auto* S = dyn_cast<StoreInst>(&I)) {
    auto sl = leavesOf(S->getValueOperand()->getType()); int p = opnd(S->getPointerOperand());
    for (unsigned i = 0; i < sl.size(); i++) { int v = opnd(S->getValueOperand(), i); auto& c = emit(O_STORE, &I, -1, sl[i].first); c.a = p; c.b = v; c.x = sl[i].second; }
    return;
  }
  if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
    GepInfo g; g.off = 0; int base = opnd(G->getPointerOperand());
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value* idx = it.getOperand();
      if (auto* ST = it.getStructTypeOrNull()) { g.off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      i64 sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto* CI = dyn_cast<ConstantInt>(idx)) g.off += sz * CI->getSExtValue();
      else g.t.push_back({opnd(idx), wOf(idx->getType()), sz});
    }
    f.geps.push_back(g); auto& c = emit(O_GEP, &I, d, PW); c.a = base; c.x = f.geps.size() - 1; return;
  }
  if (auto* A = dyn_cast<AllocaInst>(&I)) {
    int n = opnd(A->getArraySize()); auto& c = emit(O_ALLOCA, &I, d, PW); c.a = n; c.b = konst(DL->getTypeAllocSize(A->getAllocatedType())); c.x = std::max<u64>(1, A->getAlign().value()); return;
  }
  if (auto* B = dyn_cast<BranchInst>(&I)) {
    if (B->isUnconditional()) { int e = edge(I.getParent(), B->getSuccessor(0)); auto& c = emit(O_BR, &I, -1, 0); c.x = e; }
    else { int o = opnd(B->getCondition()), e1 = edge(I.getParent(), B->getSuccessor(0)), e2 = edge(I.getParent(), B->getSuccessor(1)); auto& c = emit(O_CBR, &I, -1, 0); c.a = o; c.b = e1; c.c = e2; }
    return;
  }
  if (auto* S = dyn_cast<SwitchInst>(&I)) {
    SwitchInfo s; s.op = opnd(S->getCondition()); s.w = wOf(S->getCondition()->getType());
    for (auto& cs : S->cases()) s.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())});
    s.def = edge(I.getParent(), S->getDefaultDest()); f.sw.push_back(s); auto& c = emit(O_SWITCH, &I, -1, 0); c.x = f.sw.size() - 1; return;
  }
  if (auto* R = dyn_cast<ReturnInst>(&I)) {
    std::vector<std::pair<int, int>> l;
    if (auto* V = R->getReturnValue()) { auto rl = leavesOf(V->getType()); for (unsigned i = 0; i < rl.size(); i++) l.push_back({opnd(V, i), (int)rl[i].first}); }
    f.lists.push_back(l); auto& c = emit(O_RET, &I, -1, 0); c.x = f.lists.size() - 1; return;
  }
  if (isa<UnreachableInst>(I)) { emit(O_UNREACH, &I, -1, 0); return; }
  auto aggOff = [&](Type* T, ArrayRef<unsigned> idx) {
    unsigned o = 0;
    for (unsigned i : idx) {
      if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) o += nleaves(S->getElementType(j)); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); o += i * nleaves(A->getElementType()); T = A->getElementType(); }
    }
    return o; };
  if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
    unsigned o = aggOff(E->getAggregateOperand()->getType(), E->getIndices());
    for (unsigned i = 0; i < lv.size(); i++) { int s = opnd(E->getAggregateOperand(), o + i); auto& c = emit(O_MOV, &I, d + i, lv[i].first); c.a = s; }
    return;
  }
  if (auto* E = dyn_cast<InsertValueInst>(&I)) {
    unsigned o = aggOff(E->getType(), E->getIndices()), n = nleaves(E->getInsertedValueOperand()->getType());
    for (unsigned i = 0; i < lv.size(); i++) { int s = (i >= o && i < o + n) ? opnd(E->getInsertedValueOperand(), i - o) : opnd(E->getAggregateOperand(), i); auto& c = emit(O_MOV, &I, d + i, lv[i].first); c.a = s; }
    return;
  }
  if (auto* E = dyn_cast<ExtractElementInst>(&I)) {
    auto* ci = dyn_cast<ConstantInt>(E->getIndexOperand()); if (!ci) { emit(O_UNSUP, &I, d, w); return; }
    int s = opnd(E->getVectorOperand(), ci->getZExtValue()); auto& c = emit(O_MOV, &I, d, w); c.a = s; return;
  }
  if (auto* E = dyn_cast<InsertElementInst>(&I)) {
    auto* ci = dyn_cast<ConstantInt>(E->getOperand(2)); if (!ci) { emit(O_UNSUP, &I, d, w); return; }
    for (unsigned i = 0; i < lv.size(); i++) { int s = i == ci->getZExtValue() ? opnd(E->getOperand(1)) : opnd(E->getOperand(0), i); auto& c = emit(O_MOV, &I, d + i, w); c.a = s; }
    return;
  }
  if (auto* E = dyn_cast<ShuffleVectorInst>(&I)) {
    int n1 = nleaves(E->getOperand(0)->getType()); auto mask = E->getShuffleMask();
    for (unsigned i = 0; i < lv.size(); i++) { int m = mask[i]; int s = m < 0 ? konst(0) : m < n1 ? opnd(E->getOperand(0), m) : opnd(E->getOperand(1), m - n1); auto& c = emit(O_MOV, &I, d + i, w); c.a = s; }
    return;
  }
  if (auto* F = dyn_cast<FreezeInst>(&I)) { for (unsigned i = 0; i < lv.size(); i++) { int s = opnd(F->getOperand(0), i); auto& c = emit(O_MOV, &I, d + i, lv[i].first); c.a = s; } return; }
  if (isa<FenceInst>(I)) return;
  if (auto* A = dyn_cast<AtomicRMWInst>(&I)) { int p = opnd(A->getPointerOperand()), v = opnd(A->getValOperand()); auto& c = emit(O_ARMW, &I, d, w); c.k = A->getOperation(); c.a = p; c.b = v; return; }
  if (auto* A = dyn_cast<AtomicCmpXchgInst>(&I)) { int p = opnd(A->getPointerOperand()), o = opnd(A->getCompareOperand()), n = opnd(A->getNewValOperand()); auto& c = emit(O_CMPXCHG, &I, d, lv[0].first); c.a = p; c.b = o; c.c = n; return; }
  if (auto* C = dyn_cast<CallBase>(&I)) { call(*C); return; }
  emit(O_UNSUP, &I, d, w);
}

void Compiler::call(CallBase& I) {
  if (I.isInlineAsm()) { if (I.getType()->isVoidTy()) return; emit(O_UNSUP, &I, -1, 0); return; }
  Function* F = I.getCalledFunction();
  if (F && F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::x86_sse2_pause: return;
      default: break;
    }
  }
  CallInfo ci; auto rl = leavesOf(I.getType()); ci.nret = rl.size(); ci.retW = rl.empty() ? 0 : rl[0].first;
  for (auto& A : I.args()) {
    if (A->getType()->isMetadataTy()) continue;
    auto al = leavesOf(A->getType()); for (unsigned i = 0; i < al.size(); i++) { ci.args.push_back(opnd(A, i)); ci.argW.push_back(al[i].first); }
  }
  if (F) {
    ci.F = F; ci.name = F->getName().str(); ci.cf = fmap[F];
    if (F->isIntrinsic()) { ci.handler = H_INTRIN; ci.iid = F->getIntrinsicID(); }
    else ci.handler = ci.cf->handler;
  } else {
    Value* cal = I.getCalledOperand()->stripPointerCasts();
    if (auto* AL = dyn_cast<GlobalAlias>(cal)) { ci.F = cast<Function>(AL->getAliasee()->stripPointerCasts()); ci.name = ci.F->getName().str(); ci.cf = fmap[ci.F]; ci.handler = ci.cf->handler; }
    else { ci.indirect = true; ci.fptr = opnd(I.getCalledOperand()); }
  }
  f.calls.push_back(ci); auto& c = emit(O_CALL, &I, slot.count(&I) ? slot[&I] : -1, ci.retW); c.x = f.calls.size() - 1;
}

// ---------------------------------------------------------------- statistics / results
struct Violation { std::string kind, msg, where, file; };
struct Stats {
  u64 paths = 0, pruned = 0, steps = 0, forks = 0, checks = 0, symChecks = 0, expectedPanics = 0, enums = 0; std::set<std::string> reach; std::vector<std::string> errors; std::set<std::string> viol; u64 nviol = 0;
  u64 cutPaths = 0; u64 maxDepth = 0, maxPc = 0; unsigned validated = 0;
} T;
static std::deque<State*> work; static FILE* resF = nullptr; static int workerId = 0; static double tEnd = 0; static bool stopAll = false;
static int* sharedCtr = nullptr; // [0]=next index, [1]=stop flag
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void err(const std::string& m) { if (T.errors.size() < 20) T.errors.push_back(m); }

// ---------------------------------------------------------------- executor
struct PathEnd { int why; }; // thrown to end the current path: 0 normal, 1 pruned, 2 violation, 3 error
struct Exec {
  State* s; 
  Frame* fr; CFunc* cf; Val* R;
  inline Val get(int o) { return o >= 0 ? R[o] : cf->consts[~o]; }
  std::string where();
  std::string assignJson(const Model& m);
  void violation(const std::string& kind, const std::string& msg, const Model& m);
  bool decide(Expr* c);
  bool inPc(Expr* c) { for (size_t i = s->pc.size(); i-- > 0;) if (s->pc[i] == c) return true; return false; }
  SatR query(Expr* c, Model& m, bool isCheck);
  void addPc(Expr* c);
  u64 concretize(Val v, unsigned w);
  bool enumerate(Expr* e, unsigned maxN, std::vector<u64>& out);
  Val loadMem(u64 a, unsigned w); void storeMem(u64 a, unsigned w, Val v);
  Val loadAt(Val p, u64 off, unsigned w);
  u64 allocHeap(u64 size, u64 align); void freeHeap(u64 a, u64 size);
  void setOk(u64 a, u64 n, uint8_t fl);
  void copyMem(u64 d, u64 src, u64 n);
  void run(); void memErr(const char* what, u64 a, u64 n);
  void doCall(CInst& I); bool handler(int h, CInst& I, CallInfo& ci, CFunc* target, Val* argv);
  void intrinsic(CInst& I, CallInfo& ci);
  void ret(CInst& I, Val v) { if (I.d >= 0) R[I.d] = v; }
  void takeEdge(int e);
  void pushFrame(CFunc* f, const Val* args, unsigned nargs, int retSlot, int nret);
  std::string readStr(u64 p, u64 n);
  void refresh() { fr = &s->fr.back(); cf = fr->f; R = s->rs.data() + fr->base; }
  bool evalModel(Expr* c) { newEval(); return evalExpr(c, *s->model) != 0; }
  void endOk(); Val binop(unsigned k, unsigned w, Val a, Val b);
};

std::string Exec::where() {
  std::string out; int n = 0;
  for (size_t i = s->fr.size(); i-- > 0 && n < 14;) {
    Frame& f = s->fr[i]; int pc = f.pc; if (pc >= (int)f.f->code.size()) continue;
    Instruction* I = f.f->code[pc].I; if (!I) continue;
    for (DILocation* L = I->getDebugLoc().get(); L && n < 14; L = L->getInlinedAt()) {
      std::string fn = L->getFilename().str(); if (fn.find("/rustc/") == 0 || fn.find("library/") != std::string::npos) continue;
      if (!out.empty()) out += " < "; out += fn + ":" + std::to_string(L->getLine()); n++;
    }
  }
  return out;
}
std::string Exec::assignJson(const Model& m) {
  std::string o = "["; bool first = true; newEval();
  for (auto& in : s->in) {
    if (!first) o += ","; first = false;
    o += "{\"n\":\"" + jesc(in.name) + "\",\"k\":" + std::to_string(in.kind) + ",\"v\":";
    if (in.kind == 0) { char b[32]; snprintf(b, 32, "\"%llu\"", (unsigned long long)evalExpr(in.v[0], m)); o += b; }
    else { o += "\""; for (auto* e : in.v) { char b[4]; snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); o += b; } o += "\""; }
    o += "}";
  }
  return o + "]";
}
void Exec::violation(const std::string& kind, const std::string& msg, const Model& m) {
  T.nviol++;
  std::string wh = where(); std::string sig = kind + "|" + msg;
  if (!T.viol.insert(sig).second) return;
  std::string notes; for (auto& n : s->notes) notes += (notes.empty() ? "" : "; ") + n;
  fprintf(resF, "{\"t\":\"violation\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"notes\":\"%s\",\"expectPanic\":%d,\"assign\":%s}\n", jesc(kind).c_str(), jesc(msg).c_str(), jesc(wh).c_str(), jesc(notes).c_str(), s->expectPanic, assignJson(m).c_str());
  fflush(resF);
  if (T.viol.size() >= O.maxViol) { stopAll = true; if (sharedCtr) sharedCtr[1] = 1; }
}
SatR Exec::query(Expr* c, Model& m, bool isCheck) {
  // slice by shared variables
  std::vector<Expr*> cs{c}; const VarSet* vs = c->vars; std::vector<char> used(s->pc.size(), 0); bool ch = true;
  auto inter = [](const VarSet* a, const VarSet* b) { size_t i = 0, j = 0; while (i < a->v.size() && j < b->v.size()) { if (a->v[i] == b->v[j]) return true; if (a->v[i] < b->v[j]) i++; else j++; } return false; };
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i] && inter(s->pc[i]->vars, vs)) { used[i] = 1; cs.push_back(s->pc[i]); auto* nv = P.uni(vs, s->pc[i]->vars); if (nv != vs) { vs = nv; ch = true; } } }
  SatR r = S.check(cs, m, isCheck);
  if (r == R_UNKNOWN) { err("solver returned unknown at " + where()); throw PathEnd{3}; }
  return r;
}
void Exec::addPc(Expr* c) { // conjunctions are split
  if (isC(c)) return;
  if (c->k == K_AND && c->w == 1) { addPc(c->a); addPc(c->b); return; }
  if (inPc(c)) return; s->pc.push_back(c); if (s->pc.size() > T.maxPc) T.maxPc = s->pc.size();
}
bool Exec::decide(Expr* c) {
  if (isC(c)) return c->lo;
  if (inPc(c)) return true;
  Expr* nc = eNot(c); if (inPc(nc)) return false;
  bool side = evalModel(c); Expr* mine = side ? c : nc; Expr* other = side ? nc : c;
  Model m = *s->model; SatR r = query(other, m, false);
  if (r == R_UNSAT) return side;
  // fork
  State* o = new State(*s); o->model = std::make_shared<Model>(std::move(m)); o->forks++; s->forks++; T.forks++;
  { State* keep = s; s = o; addPc(other); s = keep; }
  if (o->forks > T.maxDepth) T.maxDepth = o->forks;
  work.push_back(o);
  addPc(mine); return side;
}
bool Exec::enumerate(Expr* e, unsigned maxN, std::vector<u64>& out) {
  Expr* excl = P.T; Model m = *s->model; newEval(); T.enums++;
  u64 v = (u64)evalExpr(e, m);
  for (;;) {
    out.push_back(v); if (out.size() > maxN) return false;
    excl = eBin(K_AND, excl, eNot(eCmp(K_EQ, e, eConst(v, e->w))));
    if (isC(excl) && !excl->lo) return true;
    Model mm = *s->model; SatR r = query(excl, mm, false); if (r == R_UNSAT) return true;
    newEval(); v = (u64)evalExpr(e, mm);
  }
}
u64 Exec::concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  Expr* e = v.e;
  if (isC(e)) return e->lo;
  // already fixed by an equality?
  for (size_t i = s->pc.size(); i-- > 0;) { Expr* c = s->pc[i]; if (c->k == K_EQ && c->a == e && isC(c->b)) return c->b->lo; }
  std::vector<u64> vals; if (!enumerate(e, O.enumMax, vals)) { err("too many values for a concretised term at " + where()); throw PathEnd{3}; }
  for (size_t i = 1; i < vals.size(); i++) {
    State* o = new State(*s); Expr* c = eCmp(K_EQ, e, eConst(vals[i], e->w)); Model m = *s->model;
    State* keep = s; SatR r = query(c, m, false); if (r != R_SAT) continue; 
    o->model = std::make_shared<Model>(m); o->forks++; s = o; addPc(c); o->pc.push_back(c); s = keep; T.forks++; work.push_back(o);
  }
  Expr* c = eCmp(K_EQ, e, eConst(vals[0], e->w)); addPc(c); if (vals.size() > 0) s->pc.push_back(P.mk(K_EQ, 1, 0, e, eConst(vals[0], e->w), nullptr));
  return vals[0];
}
void Exec::memErr(const char* what, u64 a, u64 n) {
  char b[200]; snprintf(b, 200, "%s of %llu bytes at invalid address 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
  if (O.verbose) fprintf(stderr, "%s\n", b);
  violation("memory", std::string(what) + " of an invalid address", *s->model); throw PathEnd{2};
}
Val Exec::loadMem(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; unsigned o = a % PG;
  if (o + n <= PG) {
    Page* p = s->mem.rd(a); if (!p) memErr("load", a, n);
    uint8_t* fl = p->fl + o; uint8_t* d = p->data + o;
    switch (n) {
      case 1: if ((fl[0] & 3) == 1) return cv(w == 8 ? d[0] : d[0] & (u64)maskw(w)); break;
      case 4: { uint32_t f; memcpy(&f, fl, 4); if ((f & 0x03030303u) == 0x01010101u) { uint32_t v; memcpy(&v, d, 4); return cv(v & (u64)maskw(w)); } break; }
      case 8: { u64 f; memcpy(&f, fl, 8); if ((f & 0x0303030303030303ull) == 0x0101010101010101ull) { u64 v; memcpy(&v, d, 8); return cv(v & (u64)maskw(w)); } break; }
      case 2: if ((fl[0] & 3) == 1 && (fl[1] & 3) == 1) return cv((d[0] | (u64)d[1] << 8) & (u64)maskw(w)); break;
    }
  }
  Expr* acc = nullptr; u128 cacc = 0; bool sym = false;
  for (unsigned i = 0; i < n; i++) {
    u64 x = a + i; Page* p = s->mem.rd(x); unsigned q = x % PG; if (!p || !(p->fl[q] & FL_OK)) memErr("load", x, n);
    if (p->fl[q] & FL_SYM) { if (!sym) { sym = true; acc = i ? eConst(cacc, 8 * i) : nullptr; } acc = acc ? eConcat(p->sym[q], acc) : p->sym[q]; }
    else { if (sym) acc = eConcat(eConst(p->data[q], 8), acc); else cacc |= (u128)p->data[q] << (8 * i); }
  }
  if (!sym) return w <= 64 ? cv((u64)cacc & (u64)maskw(w)) : Val{0, eConst(cacc, w)};
  return mv(eExtract(acc, 0, w));
}
void Exec::storeMem(u64 a, unsigned w, Val v) {
  unsigned n = (w + 7) / 8; unsigned o = a % PG;
  if (!v.e && n <= 8 && o + n <= PG) {
    Page* r = s->mem.rd(a); if (!r) memErr("store", a, n);
    Page* p = s->mem.wr(a); uint8_t* fl = p->fl + o; uint8_t* d = p->data + o; bool ok = true;
    for (unsigned i = 0; i < n; i++) if ((fl[i] & (FL_OK | FL_RO)) != FL_OK) ok = false;
    if (!ok) memErr("store", a, n);
    memcpy(d, &v.c, n); for (unsigned i = 0; i < n; i++) fl[i] = FL_OK; return;
  }
  Expr* e = ex(v, w); if (w % 8) e = eZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    u64 x = a + i; Page* r = s->mem.rd(x); unsigned q = x % PG; if (!r || (r->fl[q] & (FL_OK | FL_RO)) != FL_OK) memErr("store", x, n);
    Page* p = s->mem.wr(x); Expr* b = eExtract(e, 8 * i, 8);
    if (isC(b)) { p->data[q] = (uint8_t)b->lo; p->fl[q] = FL_OK; }
    else { if (!p->sym) p->sym = (Expr**)calloc(PG, sizeof(Expr*)); p->sym[q] = b; p->fl[q] = FL_OK | FL_SYM; p->data[q] = 0; }
  }
}
Val Exec::loadAt(Val p, u64 off, unsigned w) {
  if (!p.e) return loadMem((p.c + off) & (PW == 32 ? 0xffffffffull : ~0ull), w);
  Expr* ae = eBin(K_ADD, p.e, eConst(off, PW));
  if (isC(ae)) return loadMem(ae->lo, w);
  for (size_t i = s->pc.size(); i-- > 0;) { Expr* c = s->pc[i]; if (c->k == K_EQ && c->a == ae && isC(c->b)) return loadMem(c->b->lo, w); }
  std::vector<u64> vals; if (!enumerate(ae, O.enumMax, vals)) { err("symbolic address with too many targets at " + where()); throw PathEnd{3}; }
  // table lookup: ITE over all targets, provided every target is readable; otherwise fork
  bool allOk = true; for (u64 a : vals) for (unsigned i = 0; i < (w + 7) / 8; i++) { Page* q = s->mem.rd(a + i); if (!q || !(q->fl[(a + i) % PG] & FL_OK)) allOk = false; }
  if (!allOk) { u64 a = concretize(Val{0, ae}, PW); return loadMem(a, w); }
  // group equal results
  std::sort(vals.begin(), vals.end()); Expr* res = nullptr; std::vector<std::pair<Expr*, Expr*>> g; // (value, cond)
  for (u64 a : vals) { Expr* v = ex(loadMem(a, w), w); Expr* c = eCmp(K_EQ, ae, eConst(a, PW)); bool f = false; for (auto& x : g) if (x.first == v) { x.second = eBin(K_OR, x.second, c); f = true; break; } if (!f) g.push_back({v, c}); }
  res = g[0].first; for (size_t i = 1; i < g.size(); i++) res = eIte(g[i].second, g[i].first, res);
  return mv(res);
}
void Exec::setOk(u64 a, u64 n, uint8_t fl) {
  while (n) { Page* p = s->mem.wr(a); unsigned o = a % PG; unsigned k = std::min<u64>(n, PG - o); memset(p->fl + o, fl, k); if (fl) memset(p->data + o, 0, k); a += k; n -= k; }
}
u64 Exec::allocHeap(u64 size, u64 align) {
  if (size > (1u << 24)) { err("allocation of " + std::to_string(size) + " bytes at " + where()); throw PathEnd{3}; }
  u64 a = (s->hp + align - 1) / align * align; s->hp = a + size + 16; s->hp = (s->hp + 15) & ~15ull; if (s->hp > STACK_BASE - (1 << 20)) { err("heap exhausted"); throw PathEnd{3}; }
  setOk(a, size, FL_OK); s->allocs++; return a;
}
void Exec::freeHeap(u64 a, u64 size) {
  if (size == 0) return; Page* p = s->mem.rd(a); if (!p || !(p->fl[a % PG] & FL_OK)) memErr("free", a, size);
  setOk(a, size, 0); s->allocs--;
}
void Exec::copyMem(u64 d, u64 src, u64 n) {
  if (!n || d == src) return;
  struct B { uint8_t d, f; Expr* e; }; std::vector<B> buf(n);
  for (u64 i = 0; i < n; i++) { u64 x = src + i; Page* p = s->mem.rd(x); unsigned q = x % PG; if (!p || !(p->fl[q] & FL_OK)) memErr("memcpy read", x, n); buf[i] = {p->data[q], (uint8_t)(p->fl[q] & ~FL_RO), p->fl[q] & FL_SYM ? p->sym[q] : nullptr}; }
  u64 i = 0;
  while (i < n) {
    u64 x = d + i; Page* r = s->mem.rd(x); if (!r) memErr("memcpy write", x, n); Page* p = s->mem.wr(x); unsigned q = x % PG;
    for (; i < n && q < PG; i++, q++) {
      if ((p->fl[q] & (FL_OK | FL_RO)) != FL_OK) memErr("memcpy write", d + i, n);
      p->data[q] = buf[i].d; p->fl[q] = buf[i].f; if (buf[i].e) { if (!p->sym) p->sym = (Expr**)calloc(PG, sizeof(Expr*)); p->sym[q] = buf[i].e; }
    }
  }
}
std::string Exec::readStr(u64 p, u64 n) { std::string o; for (u64 i = 0; i < n && i < 400; i++) { Page* q = s->mem.rd(p + i); if (!q || !(q->fl[(p + i) % PG] & FL_OK)) return o + "<?>"; o += (char)q->data[(p + i) % PG]; } return o; }
void Exec::takeEdge(int ei) {
  Edge& e = cf->edges[ei]; size_t n = e.moves.size();
  if (n == 1) R[e.moves[0].first] = get(e.moves[0].second);
  else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(e.moves[i].second); for (size_t i = 0; i < n; i++) R[e.moves[i].first] = t[i]; }
  fr->pc = e.target; if (e.target < (int)cf->pcBlock.size()) cf->hit[cf->pcBlock[e.target]] = 1;
}
void Exec::pushFrame(CFunc* f, const Val* args, unsigned nargs, int retSlot, int nret) {
  if (!f->compiled) { Compiler c(*f); c.run(); }
  if (s->fr.size() > 4000) { violation("stack-overflow", "call depth exceeds 4000", *s->model); throw PathEnd{2}; }
  int base = s->rs.size(); 
  Val tmp[64]; std::vector<Val> big; const Val* src = args; if (nargs <= 64) { for (unsigned i = 0; i < nargs; i++) tmp[i] = args[i]; src = tmp; } else { big.assign(args, args + nargs); src = big.data(); }
  s->rs.resize(base + f->nslots, cv(0)); for (unsigned i = 0; i < nargs && (int)i < f->argSlots; i++) s->rs[base + i] = src[i];
  s->fr.push_back(Frame{f, 0, base, retSlot, nret, s->sp}); f->hit[0] = 1; refresh();
}
Val Exec::binop(unsigned k, unsigned w, Val a, Val b) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = w == 64 ? ~0ull : (1ull << w) - 1, x = a.c, y = b.c;
    switch (k) {
      case K_ADD: return cv((x + y) & m); case K_SUB: return cv((x - y) & m); case K_MUL: return cv((x * y) & m); case K_AND: return cv(x & y); case K_OR: return cv(x | y); case K_XOR: return cv(x ^ y);
      case K_SHL: return cv(y >= w ? 0 : (x << y) & m); case K_LSHR: return cv(y >= w ? 0 : x >> y);
      default: return cv((u64)foldOp(k, w, 0, w, x, y, 0, w));
    }
  }
  return mv(eBin((Kind)k, ex(a, w), ex(b, w)));
}
void Exec::endOk() { throw PathEnd{0}; }

static Expr* cmpExpr(unsigned pred, Expr* a, Expr* b) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return eCmp(K_EQ, a, b); case CmpInst::ICMP_NE: return eNot(eCmp(K_EQ, a, b));
    case CmpInst::ICMP_ULT: return eCmp(K_ULT, a, b); case CmpInst::ICMP_ULE: return eCmp(K_ULE, a, b); case CmpInst::ICMP_UGT: return eCmp(K_ULT, b, a); case CmpInst::ICMP_UGE: return eCmp(K_ULE, b, a);
    case CmpInst::ICMP_SLT: return eCmp(K_SLT, a, b); case CmpInst::ICMP_SLE: return eCmp(K_SLE, a, b); case CmpInst::ICMP_SGT: return eCmp(K_SLT, b, a); case CmpInst::ICMP_SGE: return eCmp(K_SLE, b, a);
  }
  die("icmp pred");
}
static Expr* fcmpExpr(unsigned pred, Expr* a, Expr* b) {
  Expr* uno = eFp(K_FUNO, 1, 0, a, b); auto oeq = [&] { return eFp(K_FOEQ, 1, 0, a, b); }; auto olt = [&](Expr* x, Expr* y) { return eFp(K_FOLT, 1, 0, x, y); }; auto ole = [&](Expr* x, Expr* y) { return eFp(K_FOLE, 1, 0, x, y); };
  switch (pred) {
    case CmpInst::FCMP_FALSE: return P.F; case CmpInst::FCMP_TRUE: return P.T; case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_OGT: return olt(b, a); case CmpInst::FCMP_OGE: return ole(b, a); case CmpInst::FCMP_OLT: return olt(a, b); case CmpInst::FCMP_OLE: return ole(a, b);
    case CmpInst::FCMP_ONE: return eBin(K_AND, eNot(oeq()), eNot(uno)); case CmpInst::FCMP_ORD: return eNot(uno); case CmpInst::FCMP_UNO: return uno; case CmpInst::FCMP_UEQ: return eBin(K_OR, uno, oeq());
    case CmpInst::FCMP_UGT: return eNot(ole(a, b)); case CmpInst::FCMP_UGE: return eNot(olt(a, b)); case CmpInst::FCMP_ULT: return eNot(ole(b, a)); case CmpInst::FCMP_ULE: return eNot(olt(b, a)); case CmpInst::FCMP_UNE: return eNot(oeq());
  }
  die("fcmp pred");
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    default: { i64 x = (i64)(a << (64 - w)) >> (64 - w), y = (i64)(b << (64 - w)) >> (64 - w); switch (pred) { case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y; } }
  }
}

void Exec::run() {
  refresh();
  u64 lim = s->steps + 200000;
  for (;;) {
    CInst& I = cf->code[fr->pc];
    if (++s->steps > lim) {
      lim = s->steps + 200000; 
      if (s->steps > O.maxSteps) { violation("hang", "a path exceeds the step limit", *s->model); throw PathEnd{2}; }
      if (nowS() > tEnd) { err("time budget exhausted"); stopAll = true; if (sharedCtr) sharedCtr[1] = 1; throw PathEnd{3}; }
    }
    switch (I.op) {
      case O_BIN: {
        Val a = get(I.a), b = get(I.b);
        if (I.k == K_UDIV || I.k == K_SDIV || I.k == K_UREM || I.k == K_SREM) {
          Expr* z = eCmp(K_EQ, ex(b, I.w), eConst(0, I.w));
          if (decide(z)) { violation("ub", "division by zero", *s->model); throw PathEnd{2}; }
        }
        R[I.d] = binop(I.k, I.w, a, b); fr->pc++; break; }
      case O_ICMP: {
        Val a = get(I.a), b = get(I.b);
        if (!a.e && !b.e) R[I.d] = cv(icmpC(I.k, a.c, b.c, I.w)); else R[I.d] = mv(cmpExpr(I.k, ex(a, I.w), ex(b, I.w)));
        fr->pc++; break; }
      case O_FCMP: { Val a = get(I.a), b = get(I.b); R[I.d] = mv(fcmpExpr(I.k, ex(a, I.w), ex(b, I.w))); fr->pc++; break; }
      case O_SEL: {
        Val c = get(I.a), a = get(I.b), b = get(I.c);
        if (!c.e) R[I.d] = c.c ? a : b; else R[I.d] = mv(eIte(c.e, ex(a, I.w), ex(b, I.w)));
        fr->pc++; break; }
      case O_ZEXT: { Val a = get(I.a); if (!a.e) R[I.d] = I.w <= 64 ? cv(I.w < I.w2 ? a.c & (u64)maskw(I.w) : a.c) : Val{0, eConst(a.c, I.w)}; else R[I.d] = mv(eZext(a.e, I.w)); fr->pc++; break; }
      case O_SEXT: { Val a = get(I.a); if (!a.e && I.w <= 64) R[I.d] = cv((u64)sx(a.c, I.w2) & (u64)maskw(I.w)); else R[I.d] = I.w > 64 ? Val{0, eSext(ex(a, I.w2), I.w)} : mv(eSext(ex(a, I.w2), I.w)); fr->pc++; break; }
      case O_TRUNC: { Val a = get(I.a); if (!a.e) R[I.d] = cv(a.c & (u64)maskw(I.w)); else R[I.d] = I.w > 64 ? Val{0, eExtract(a.e, 0, I.w)} : mv(eExtract(a.e, 0, I.w)); fr->pc++; break; }
      case O_MOV: R[I.d] = get(I.a); fr->pc++; break;
      case O_LOAD: { Val p = get(I.a); Val v = loadAt(p, I.x, I.w); R[I.d] = v; fr->pc++; break; }
      case O_STORE: { Val p = get(I.a); u64 a = concretize(p, PW); storeMem((a + I.x) & (PW == 32 ? 0xffffffffull : ~0ull), I.w, get(I.b)); fr->pc++; break; }
      case O_GEP: {
        GepInfo& g = cf->geps[I.x]; Val b = get(I.a);
        bool conc = !b.e; if (conc) for (auto& t : g.t) if (get(t.op).e) { conc = false; break; }
        if (conc) { u64 a = b.c + g.off; for (auto& t : g.t) { u64 x = get(t.op).c; i64 sxv = t.w < 64 ? (i64)(x << (64 - t.w)) >> (64 - t.w) : (i64)x; a += sxv * t.scale; } R[I.d] = cv(PW == 32 ? a & 0xffffffffull : a); }
        else { Expr* e = eBin(K_ADD, ex(b, PW), eConst((u64)g.off, PW)); for (auto& t : g.t) e = eBin(K_ADD, e, eBin(K_MUL, t.w < PW ? eSext(ex(get(t.op), t.w), PW) : eExtract(ex(get(t.op), t.w), 0, PW), eConst((u64)t.scale, PW))); R[I.d] = mv(e); }
        fr->pc++; break; }
      case O_ALLOCA: {
        u64 n = concretize(get(I.a), 32) * cf->consts[~I.b].c; u64 al = std::max<u64>(I.x, 8);
        u64 a = (s->sp + al - 1) / al * al; s->sp = a + n + 8; if (s->sp > STACK_BASE + (1 << 26)) { violation("stack-overflow", "stack exceeds 64 MiB", *s->model); throw PathEnd{2}; }
        setOk(a, n, FL_OK); R[I.d] = cv(a); fr->pc++; break; }
      case O_BR: takeEdge(I.x); break;
      case O_CBR: { Val c = get(I.a); bool t = c.e ? decide(c.e) : (c.c & 1); takeEdge(t ? I.b : I.c); break; }
      case O_SWITCH: {
        SwitchInfo& sw = cf->sw[I.x]; Val v = get(sw.op); int e = sw.def;
        if (!v.e) { for (auto& c : sw.cases) if (c.first == v.c) { e = c.second; break; } }
        else { for (auto& c : sw.cases) if (decide(eCmp(K_EQ, v.e, eConst(c.first, sw.w)))) { e = c.second; break; } }
        takeEdge(e); break; }
      case O_CALL: doCall(I); break;
      case O_RET: {
        auto& l = cf->lists[I.x]; Val tmp[16]; std::vector<Val> big; Val* t = tmp; if (l.size() > 16) { big.resize(l.size()); t = big.data(); }
        for (size_t i = 0; i < l.size(); i++) t[i] = get(l[i].first);
        u64 sp0 = fr->sp; if (s->sp > sp0) setOk(sp0, s->sp - sp0, 0); s->sp = sp0;
        int rsl = fr->retSlot; s->rs.resize(fr->base); s->fr.pop_back();
        if (s->fr.empty()) endOk();
        refresh(); if (rsl >= 0) for (size_t i = 0; i < l.size(); i++) R[rsl + i] = t[i];
        fr->pc++; break; }
      case O_UNREACH: violation("ub", "unreachable code reached", *s->model); throw PathEnd{2};
      case O_FBIN: {
        Val a = get(I.a), b = get(I.b); if (I.k == K_FREM && (a.e || b.e)) { err("symbolic frem at " + where()); throw PathEnd{3}; }
        R[I.d] = mv(eFp((Kind)I.k, I.w, 0, ex(a, I.w), ex(b, I.w))); fr->pc++; break; }
      case O_FNEG: { Val a = get(I.a); R[I.d] = mv(eBin(K_XOR, ex(a, I.w), eConst((u128)1 << (I.w - 1), I.w))); fr->pc++; break; }
      case O_FPCAST: {
        Expr* a = ex(get(I.a), I.w2); Expr* r;
        switch (I.k) {
          case Instruction::FPToSI: r = eFp(K_FTOSI, I.w, I.w2, a); break; case Instruction::FPToUI: r = eFp(K_FTOUI, I.w, I.w2, a); break;
          case Instruction::SIToFP: r = eFp(K_SITOF, I.w, 0, a); break; case Instruction::UIToFP: r = eFp(K_UITOF, I.w, 0, a); break;
          case Instruction::FPExt: r = eFp(K_FEXT, I.w, 0, a); break; case Instruction::FPTrunc: r = eFp(K_FTRUNC, I.w, 0, a); break;
          default: err("fp cast"); throw PathEnd{3};
        }
        R[I.d] = mv(r); fr->pc++; break; }
      case O_CONCAT: {
        auto& l = cf->lists[I.x]; Expr* e = ex(get(l[0].first), l[0].second);
        for (size_t i = 1; i < l.size(); i++) e = eConcat(ex(get(l[i].first), l[i].second), e);
        R[I.d] = e->w > 64 ? Val{0, e} : mv(e); fr->pc++; break; }
      case O_EXTR: { Expr* e = eExtract(ex(get(I.a), I.w2), I.x, I.w); R[I.d] = mv(e); fr->pc++; break; }
      case O_ARMW: {
        u64 p = concretize(get(I.a), PW); Val old = loadMem(p, I.w), v = get(I.b), nv;
        switch (I.k) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(K_ADD, I.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(K_SUB, I.w, old, v); break; case AtomicRMWInst::And: nv = binop(K_AND, I.w, old, v); break; case AtomicRMWInst::Or: nv = binop(K_OR, I.w, old, v); break; case AtomicRMWInst::Xor: nv = binop(K_XOR, I.w, old, v); break; default: err("atomicrmw"); throw PathEnd{3}; }
        storeMem(p, I.w, nv); R[I.d] = old; fr->pc++; break; }
      case O_CMPXCHG: {
        u64 p = concretize(get(I.a), PW); Val old = loadMem(p, I.w); Expr* c = eCmp(K_EQ, ex(old, I.w), ex(get(I.b), I.w)); bool t = decide(c);
        if (t) storeMem(p, I.w, get(I.c)); R[I.d] = old; R[I.d + 1] = cv(t); fr->pc++; break; }
      case O_NOP: fr->pc++; break;
      default: { std::string t; raw_string_ostream os(t); I.I->print(os); err("unsupported instruction " + os.str() + " in " + cf->dem); throw PathEnd{3}; }
    }
  }
}

void Exec::doCall(CInst& I) {
  CallInfo& ci = cf->calls[I.x];
  if (ci.handler == H_INTRIN) { intrinsic(I, ci); return; }
  CFunc* target = ci.cf; int h = ci.handler;
  if (ci.indirect) { u64 a = concretize(get(ci.fptr), PW); target = funcAt(a); if (!target) memErr("call", a, 0); h = target->handler; }
  Val tmp[64]; std::vector<Val> big; Val* av = tmp; if (ci.args.size() > 64) { big.resize(ci.args.size()); av = big.data(); }
  for (size_t i = 0; i < ci.args.size(); i++) av[i] = get(ci.args[i]);
  if (h) { if (handler(h, I, ci, target, av)) return; }
  if (target->F->isDeclaration()) { err("unsupported external function " + target->dem + " at " + where()); throw PathEnd{3}; }
  pushFrame(target, av, ci.args.size(), I.d, ci.nret);
}

bool Exec::handler(int h, CInst& I, CallInfo& ci, CFunc* target, Val* a) {
  switch (h) {
    case H_IGNORE: fr->pc++; return true;
    case H_RET0: ret(I, cv(0)); fr->pc++; return true;
    case H_RETM1: ret(I, cv((u64)maskw(ci.retW))); fr->pc++; return true;
    case H_PANICFMT: {
      if (s->expectPanic == 2) return false;   // run the panic machinery itself
      if (s->expectPanic) { T.expectedPanics++; s->trace.push_back(cv(0xdeadull)); endOk(); }
      std::string msg = "panic";
      if (!a[0].e) {
        unsigned ps = PW / 8; Page* pg = s->mem.rd(a[0].c);
        if (pg) { u64 pieces = loadMem(a[0].c, PW).c, n = loadMem(a[0].c + ps, PW).c; if (n && n < 64) { u64 sp = loadMem(pieces, PW).c, sl = loadMem(pieces + ps, PW).c; msg += ": " + readStr(sp, sl); } }
      }
      if (ci.args.size() > 1 && !a[ci.args.size() - 1].e) {
        u64 l = a[ci.args.size() - 1].c; unsigned ps = PW / 8; if (s->mem.rd(l)) { u64 fp = loadMem(l, PW).c, fl = loadMem(l + ps, PW).c, line = loadMem(l + 2 * ps, 32).c; msg += " at " + readStr(fp, fl) + ":" + std::to_string(line); }
      }
      violation("panic", msg, *s->model); throw PathEnd{2}; }
    case H_ABORT: if (s->expectPanic == 2 && !target->F->isDeclaration() && target->F->getName() == "rust_begin_unwind") return false;
      if (s->expectPanic == 1) { T.expectedPanics++; s->trace.push_back(cv(0xdeadull)); endOk(); } violation("abort", target->dem, *s->model); throw PathEnd{2};
    case H_MEMCPY: { u64 n = concretize(a[2], ci.argW[2]); if (n) copyMem(concretize(a[0], PW), concretize(a[1], PW), n); ret(I, a[0]); fr->pc++; return true; }
    case H_MEMSET: { u64 n = concretize(a[2], ci.argW[2]), d = concretize(a[0], PW); Val b = a[1]; if (b.e) b = mv(eExtract(b.e, 0, 8)); else b.c &= 255; for (u64 i = 0; i < n; i++) storeMem(d + i, 8, b); ret(I, a[0]); fr->pc++; return true; }
    case H_MEMCMP: case H_BCMP: {
      u64 n = concretize(a[2], ci.argW[2]); if (!n) { ret(I, cv(0)); fr->pc++; return true; }
      u64 x = concretize(a[0], PW), y = concretize(a[1], PW);
      Expr* r = eConst(0, 32);
      // concrete prefix fast path
      u64 i = 0; bool done = false;
      for (; i < n; i++) { Val p = loadMem(x + i, 8), q = loadMem(y + i, 8); if (p.e || q.e) break; if (p.c != q.c) { ret(I, cv((u64)(uint32_t)(p.c < q.c ? -1 : 1))); fr->pc++; done = true; break; } }
      if (done) return true;
      if (i == n) { ret(I, cv(0)); fr->pc++; return true; }
      Expr* eq = P.T;
      for (u64 j = n; j-- > i;) {
        Expr* p = ex(loadMem(x + j, 8), 8); Expr* q = ex(loadMem(y + j, 8), 8); Expr* e = eCmp(K_EQ, p, q); eq = eBin(K_AND, e, eq);
        r = eIte(e, r, eIte(eCmp(K_ULT, p, q), eConst((u64)(uint32_t)-1, 32), eConst(1, 32)));
      }
      if (h == H_BCMP) r = eIte(eq, eConst(0, 32), eConst(1, 32)); 
      ret(I, mv(r)); fr->pc++; return true; }
    case H_STRLEN: { u64 p = concretize(a[0], PW), n = 0; for (;; n++) { Val v = loadMem(p + n, 8); if (v.e ? decide(eCmp(K_EQ, v.e, eConst(0, 8))) : v.c == 0) break; } ret(I, cv(n)); fr->pc++; return true; }
    case H_ALLOC: { u64 n = concretize(a[0], PW), al = concretize(a[1], PW); ret(I, cv(allocHeap(n, al))); fr->pc++; return true; }
    case H_DEALLOC: { u64 p = concretize(a[0], PW), n = concretize(a[1], PW); freeHeap(p, n); fr->pc++; return true; }
    case H_REALLOC: { u64 p = concretize(a[0], PW), o = concretize(a[1], PW), al = concretize(a[2], PW), n = concretize(a[3], PW); u64 q = allocHeap(n, al); copyMem(q, p, std::min(o, n)); freeHeap(p, o); ret(I, cv(q)); fr->pc++; return true; }
    case H_MALLOC: { u64 n = concretize(a[0], PW); u64 p = allocHeap(n + 16, 16); storeMem(p, 64, cv(n)); ret(I, cv(p + 16)); fr->pc++; return true; }
    case H_CALLOC: { u64 n = concretize(a[0], PW) * concretize(a[1], PW); u64 p = allocHeap(n + 16, 16); storeMem(p, 64, cv(n)); ret(I, cv(p + 16)); fr->pc++; return true; }
    case H_MEMALIGN: { u64 out = concretize(a[0], PW), al = concretize(a[1], PW), n = concretize(a[2], PW); u64 p = allocHeap(n + al + 16, al) + al; if (al < 16) p = (p + 15) & ~15ull; storeMem(p - 8, 64, cv(n)); storeMem(out, PW, cv(p)); ret(I, cv(0)); fr->pc++; return true; }
    case H_FREE: { u64 p = concretize(a[0], PW); if (p) { Page* pg = s->mem.rd(p - 16); if (!pg || !(pg->fl[(p - 16) % PG] & FL_OK)) memErr("free", p, 0); u64 n = loadMem(p - 16, 64).c; freeHeap(p - 16, n + 16); } fr->pc++; return true; }
    case H_CREALLOC: { u64 p = concretize(a[0], PW), n = concretize(a[1], PW); u64 q = allocHeap(n + 16, 16); storeMem(q, 64, cv(n)); if (p) { u64 o = loadMem(p - 16, 64).c; copyMem(q + 16, p, std::min(o, n)); freeHeap(p - 16, o + 16); } ret(I, cv(q + 16)); fr->pc++; return true; }
    case H_CONSTHASH: ret(I, cv(0)); fr->pc++; return true;
    case H_GETRANDOM: { u64 p = concretize(a[0], PW), n = concretize(a[1], PW); for (u64 i = 0; i < n; i++) storeMem(p + i, 8, cv((i * 37 + 11 + O.seed) & 255)); ret(I, cv(n)); fr->pc++; return true; }
    case H_SYMINT: { // (bits, lo, hi, name, len) -> u64
      unsigned w = (unsigned)a[0].c; u64 lo = concretize(a[1], 64), hi = concretize(a[2], 64); std::string n = readStr(a[3].c, a[4].c);
      if (lo == hi) { Expr* e = eConst(lo, 64); s->in.push_back({n, 0, w, {e}}); ret(I, cv(lo)); fr->pc++; return true; }
      int k = s->names[n]++; Expr* v = eVar(n + "#" + std::to_string(k), w); Expr* z = eZext(v, 64); s->in.push_back({n, 0, w, {z}});
      Expr* c1 = eCmp(K_ULE, eConst(lo, w), v); Expr* c2 = eCmp(K_ULE, v, eConst(hi, w));
      auto m = std::make_shared<Model>(*s->model); if (m->v.size() <= v->aux) m->v.resize(v->aux + 1, 0); m->v[v->aux] = lo; s->model = m;
      addPc(c1); addPc(c2); ret(I, mv(z)); fr->pc++; return true; }
    case H_SYMBYTES: { // (ptr, len, name, len)
      u64 p = concretize(a[0], PW), n = concretize(a[1], PW); std::string nm = readStr(a[2].c, a[3].c); int k = s->names[nm]++; SymIn in{nm, 1, 8, {}};
      for (u64 i = 0; i < n; i++) { Expr* v = eVar(nm + "#" + std::to_string(k) + "[" + std::to_string(i) + "]", 8); in.v.push_back(v); storeMem(p + i, 8, Val{0, v});
        if (s->model->v.size() > v->aux && s->model->v[v->aux]) { auto m = std::make_shared<Model>(*s->model); m->v[v->aux] = 0; s->model = m; } }
      s->in.push_back(in); fr->pc++; return true; }
    case H_ASSUME: {
      Val c = a[0]; Expr* e = eNot(eCmp(K_EQ, ex(c, ci.argW[0]), eConst(0, ci.argW[0])));
      if (isC(e)) { if (!e->lo) throw PathEnd{1}; }
      else if (inPc(e)) {}
      else { if (!evalModel(e)) { Model m = *s->model; if (query(e, m, false) == R_UNSAT) throw PathEnd{1}; s->model = std::make_shared<Model>(m); } addPc(e); }
      fr->pc++; return true; }
    case H_CHECK: { // (cond, msg, len)
      T.checks++; Expr* e = eNot(eCmp(K_EQ, ex(a[0], ci.argW[0]), eConst(0, ci.argW[0]))); std::string msg = readStr(a[1].c, a[2].c);
      if (isC(e)) { if (!e->lo) { violation("check", msg, *s->model); throw PathEnd{2}; } }
      else {
        T.symChecks++; Expr* ne = eNot(e);
        if (inPc(ne)) { violation("check", msg, *s->model); throw PathEnd{2}; }
        if (!inPc(e)) { Model m = *s->model; SatR r = query(ne, m, true); if (r == R_SAT) { violation("check", msg, m); Model m2 = *s->model; if (!evalModel(e)) { if (query(e, m2, false) == R_UNSAT) throw PathEnd{2}; s->model = std::make_shared<Model>(m2); } } addPc(e); }
      }
      fr->pc++; return true; }
    case H_REACH: s->reach.insert(readStr(a[0].c, a[1].c)); fr->pc++; return true;
    case H_NOTE: s->notes.push_back(readStr(a[0].c, a[1].c)); fr->pc++; return true;
    case H_TRACE: s->trace.push_back(a[0]); fr->pc++; return true;
    case H_CONCRETIZE: { u64 v = concretize(a[0], 64); ret(I, cv(v)); fr->pc++; return true; }
    case H_END: endOk();
    case H_EXPECTPANIC: s->expectPanic = concretize(a[0], 32); fr->pc++; return true;
    case H_LEAKCHK: ret(I, cv(s->allocs)); fr->pc++; return true;
    case H_HOSTDOM: { CFunc* g = nullptr; for (auto* f : fvec) if (f->name == "__host_dom_access") g = f; if (!g) { ret(I, cv(0)); fr->pc++; return true; } pushFrame(g, a, ci.args.size(), I.d, ci.nret); return true; }
    case H_HOSTPANIC: { CFunc* g = nullptr; for (auto* f : fvec) if (f->name == "__host_panic_message") g = f; if (!g) { fr->pc++; return true; } pushFrame(g, a, ci.args.size(), I.d, ci.nret); return true; }
  }
  return false;
}

void Exec::intrinsic(CInst& I, CallInfo& ci) {
  auto A = [&](int i) { return get(ci.args[i]); }; unsigned w = ci.argW.empty() ? 0 : ci.argW[0];
  auto E = [&](int i) { return ex(A(i), ci.argW[i]); };
  switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(A(2), ci.argW[2]); if (n) copyMem(concretize(A(0), PW), concretize(A(1), PW), n); break; }
    case Intrinsic::memset: { u64 n = concretize(A(2), ci.argW[2]); if (n) { u64 d = concretize(A(0), PW); Val b = A(1); 
        if (!b.e) { u64 i = 0; while (i < n) { u64 x = d + i; Page* r = s->mem.rd(x); if (!r) memErr("memset", x, n); Page* p = s->mem.wr(x); unsigned q = x % PG; for (; i < n && q < PG; i++, q++) { if ((p->fl[q] & (FL_OK | FL_RO)) != FL_OK) memErr("memset", d + i, n); p->data[q] = (uint8_t)b.c; p->fl[q] = FL_OK; } } }
        else for (u64 i = 0; i < n; i++) storeMem(d + i, 8, b); } break; }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
      if (s->expectPanic == 1) { T.expectedPanics++; s->trace.push_back(cv(0xdeadull)); endOk(); }
      violation("abort", "trap executed", *s->model); throw PathEnd{2};
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned W = w * 2; bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
      Kind k = (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) ? K_ADD : (ci.iid == Intrinsic::umul_with_overflow || ci.iid == Intrinsic::smul_with_overflow) ? K_MUL : K_SUB;
      if (W > 128) { err("wide overflow intrinsic"); throw PathEnd{3}; }
      Expr *a = E(0), *b = E(1);
      if (ci.iid == Intrinsic::uadd_with_overflow) { Expr* r = eBin(K_ADD, a, b); R[I.d] = mv(r); R[I.d + 1] = mv(eCmp(K_ULT, r, a)); break; }
      if (ci.iid == Intrinsic::usub_with_overflow) { R[I.d] = mv(eBin(K_SUB, a, b)); R[I.d + 1] = mv(eCmp(K_ULT, a, b)); break; }
      Expr* r = eBin(k, sg ? eSext(a, W) : eZext(a, W), sg ? eSext(b, W) : eZext(b, W)); Expr* lo = eExtract(r, 0, w);
      R[I.d] = mv(lo); R[I.d + 1] = mv(eNot(eCmp(K_EQ, r, sg ? eSext(lo, W) : eZext(lo, W)))); break; }
    case Intrinsic::uadd_sat: { Expr *a = E(0), *b = E(1), *r = eBin(K_ADD, a, b); ret(I, mv(eIte(eCmp(K_ULT, r, a), eConst(maskw(w), w), r))); break; }
    case Intrinsic::usub_sat: { Expr *a = E(0), *b = E(1); ret(I, mv(eIte(eCmp(K_ULT, a, b), eConst(0, w), eBin(K_SUB, a, b)))); break; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { Expr *a = eSext(E(0), w + 1), *b = eSext(E(1), w + 1); Expr* r = eBin(ci.iid == Intrinsic::sadd_sat ? K_ADD : K_SUB, a, b); Expr* mx = eConst(maskw(w - 1), w + 1); Expr* mn = eSext(eConst((u128)1 << (w - 1), w), w + 1); r = eIte(eCmp(K_SLT, mx, r), mx, eIte(eCmp(K_SLT, r, mn), mn, r)); ret(I, mv(eExtract(r, 0, w))); break; }
    case Intrinsic::umin: for (int i = 0; i < ci.nret; i++) { Expr *a = E(i), *b = E(i + ci.nret); R[I.d + i] = mv(eIte(eCmp(K_ULT, a, b), a, b)); } break;
    case Intrinsic::umax: for (int i = 0; i < ci.nret; i++) { Expr *a = E(i), *b = E(i + ci.nret); R[I.d + i] = mv(eIte(eCmp(K_ULT, a, b), b, a)); } break;
    case Intrinsic::smin: for (int i = 0; i < ci.nret; i++) { Expr *a = E(i), *b = E(i + ci.nret); R[I.d + i] = mv(eIte(eCmp(K_SLT, a, b), a, b)); } break;
    case Intrinsic::smax: for (int i = 0; i < ci.nret; i++) { Expr *a = E(i), *b = E(i + ci.nret); R[I.d + i] = mv(eIte(eCmp(K_SLT, a, b), b, a)); } break;
    case Intrinsic::abs: { Expr* a = E(0); ret(I, mv(eIte(eCmp(K_SLT, a, eConst(0, w)), eBin(K_SUB, eConst(0, w), a), a))); break; }
    case Intrinsic::ctlz: { Expr* a = E(0); Expr* r = eConst(w, w); for (unsigned i = 0; i < w; i++) r = eIte(eCmp(K_EQ, eExtract(a, i, 1), P.T), eConst(w - 1 - i, w), r); ret(I, mv(r)); break; }
    case Intrinsic::cttz: for (int l = 0; l < ci.nret; l++) { Expr* a = E(l); Expr* r = eConst(w, w); for (unsigned i = w; i-- > 0;) r = eIte(eCmp(K_EQ, eExtract(a, i, 1), P.T), eConst(i, w), r); R[I.d + l] = mv(r); } break;
    case Intrinsic::ctpop: { Expr* a = E(0); Expr* r = eConst(0, w); for (unsigned i = 0; i < w; i++) r = eBin(K_ADD, r, eZext(eExtract(a, i, 1), w)); ret(I, mv(r)); break; }
    case Intrinsic::bswap: { Expr* a = E(0); Expr* r = eExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = eConcat(r, eExtract(a, i, 8)); ret(I, mv(r)); break; }
    case Intrinsic::bitreverse: { Expr* a = E(0); Expr* r = eExtract(a, 0, 1); for (unsigned i = 1; i < w; i++) r = eConcat(r, eExtract(a, i, 1)); ret(I, mv(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Val sh = A(2); Expr *a = E(0), *b = E(1);
      if (!sh.e) { unsigned k = sh.c % w; if (ci.iid == Intrinsic::fshr) k = (w - k) % w, k = k; 
        if (ci.iid == Intrinsic::fshl) ret(I, k == 0 ? mv(a) : mv(eConcat(eExtract(a, 0, w - k), eExtract(b, w - k, k))));
        else { unsigned q = sh.c % w; ret(I, q == 0 ? mv(b) : mv(eConcat(eExtract(a, 0, q), eExtract(b, q, w - q)))); } }
      else { Expr* k = eBin(K_UREM, E(2), eConst(w, w)); Expr* inv = eBin(K_SUB, eConst(w, w), k);
        Expr* r = ci.iid == Intrinsic::fshl ? eBin(K_OR, eBin(K_SHL, a, k), eBin(K_LSHR, b, inv)) : eBin(K_OR, eBin(K_SHL, a, inv), eBin(K_LSHR, b, k)); ret(I, mv(r)); }
      break; }
    case Intrinsic::fptosi_sat: ret(I, mv(eFp(K_FTOSI, ci.retW, w, E(0)))); break;
    case Intrinsic::fptoui_sat: ret(I, mv(eFp(K_FTOUI, ci.retW, w, E(0)))); break;
    case Intrinsic::fabs: ret(I, mv(eBin(K_AND, E(0), eConst(maskw(w - 1), w)))); break;
    case Intrinsic::copysign: ret(I, mv(eConcat(eExtract(E(1), w - 1, 1), eExtract(E(0), 0, w - 1)))); break;
    case Intrinsic::floor: ret(I, mv(eFp(K_FROUND, w, 0, E(0)))); break; case Intrinsic::ceil: ret(I, mv(eFp(K_FROUND, w, 1, E(0)))); break; case Intrinsic::trunc: ret(I, mv(eFp(K_FROUND, w, 2, E(0)))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret(I, mv(eFp(K_FROUND, w, 3, E(0)))); break; case Intrinsic::round: ret(I, mv(eFp(K_FROUND, w, 4, E(0)))); break;
    case Intrinsic::sqrt: ret(I, mv(eFp(K_FSQRT, w, 0, E(0)))); break; case Intrinsic::fma: ret(I, mv(eFp(K_FFMA, w, 0, E(0), E(1), E(2)))); break;
    case Intrinsic::is_constant: ret(I, cv(0)); break;
    case Intrinsic::expect: ret(I, A(0)); break;
    case Intrinsic::wasm_memory_size: ret(I, cv(1024)); break;
    case Intrinsic::threadlocal_address: ret(I, A(0)); break;
    case Intrinsic::ptrmask: ret(I, binop(K_AND, PW, A(0), A(1))); break;
    case Intrinsic::stacksave: ret(I, cv(s->sp)); break; case Intrinsic::stackrestore: break;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: { Expr* r = E(0); for (size_t i = 1; i < ci.args.size(); i++) r = eBin(ci.iid == Intrinsic::vector_reduce_or ? K_OR : ci.iid == Intrinsic::vector_reduce_and ? K_AND : K_ADD, r, E(i)); ret(I, mv(r)); break; }
    case Intrinsic::x86_sse2_pmovmskb_128: { Expr* r = eExtract(E(0), 7, 1); for (int i = 1; i < 16; i++) r = eConcat(eExtract(E(i), 7, 1), r); ret(I, mv(eZext(r, 32))); break; }
    default: err("unsupported intrinsic " + ci.name + " at " + where()); throw PathEnd{3};
  }
  fr->pc++;
}

// ---------------------------------------------------------------- driver
static void layoutGlobals(Mem& mem) {
  u64 a = GLOB_BASE; std::vector<GlobalVariable*> gs;
  for (auto& G : M->globals()) {
    u64 sz = std::max<u64>(1, DL->getTypeAllocSize(G.getValueType())); u64 al = std::max<u64>(G.getAlign() ? G.getAlign()->value() : 1, DL->getABITypeAlign(G.getValueType()).value()); if (al < 8) al = 8;
    a = (a + al - 1) / al * al; gaddr[&G] = a; a += sz + 8; gs.push_back(&G);
  }
  if (a > 0x0fffffff) die("globals too large");
  auto wr = [&](u64 p, u64 v, unsigned n, uint8_t fl) { for (unsigned i = 0; i < n; i++) { Page* pg = mem.wr(p + i); pg->data[(p + i) % PG] = (uint8_t)(v >> (8 * i)); pg->fl[(p + i) % PG] = fl; } };
  for (auto* G : gs) {
    u64 sz = DL->getTypeAllocSize(G->getValueType()); uint8_t fl = FL_OK | (G->isConstant() ? FL_RO : 0);
    for (u64 i = 0; i < sz; i++) wr(gaddr[G] + i, 0, 1, fl);
    if (G->hasInitializer()) {
      std::vector<Val> v; constVals(G->getInitializer(), v); auto lv = leavesOf(G->getValueType());
      if (v.size() != lv.size()) die("initializer shape of " + G->getName().str());
      for (size_t i = 0; i < v.size(); i++) { unsigned n = (lv[i].first + 7) / 8; if (v[i].e) { wr(gaddr[G] + lv[i].second, v[i].e->lo, 8, fl); wr(gaddr[G] + lv[i].second + 8, v[i].e->hi, n - 8, fl); } else wr(gaddr[G] + lv[i].second, v[i].c, n, fl); }
    }
  }
}

static void endPath(Exec& x, State* st, int why) {
  T.steps += st->steps;
  if (why == 0) {
    T.paths++; bool newReach = false; for (auto& r : st->reach) if (T.reach.insert(r).second) newReach = true;
    // sample of completed paths that the native replay must reproduce
    bool take = newReach || T.validated < O.validate || ((T.paths * 2654435761u + O.seed * 40503u) % 997) < 3;
    if (take && T.validated < O.validate * 3) {
      T.validated++; x.s = st; std::string tr = "["; newEval();
      for (auto& v : st->trace) { if (tr.size() > 1) tr += ","; char b[32]; snprintf(b, 32, "\"%llu\"", (unsigned long long)(v.e ? (u64)evalExpr(v.e, *st->model) : v.c)); tr += b; }
      tr += "]"; std::string rc; for (auto& r : st->reach) rc += (rc.empty() ? "\"" : ",\"") + jesc(r) + "\"";
      fprintf(resF, "{\"t\":\"path\",\"assign\":%s,\"trace\":%s,\"reach\":[%s]}\n", x.assignJson(*st->model).c_str(), tr.c_str(), rc.c_str());
    }
  } else if (why == 1) T.pruned++; else if (why == 2) T.paths++; else T.cutPaths++;
  delete st;
}
static size_t rssMb() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (size_t)b * 4096 / 1048576; }
static void explore(bool bfs, size_t targetStates) {
  Exec x; u64 n = 0;
  while (!work.empty() && !stopAll && !(sharedCtr && sharedCtr[1])) {
    if (targetStates && work.size() >= targetStates) return;
    State* st; if (bfs) { st = work.front(); work.pop_front(); } else { st = work.back(); work.pop_back(); }
    x.s = st; int why = 0;
    try { x.run(); } catch (PathEnd& e) { why = e.why; }
    endPath(x, st, why);
    if ((++n & 63) == 0) { if (nowS() > tEnd) { err("time budget exhausted"); stopAll = true; } if (rssMb() > O.memMb) { err("memory budget exhausted"); stopAll = true; } }
    if (O.maxPaths && T.paths >= O.maxPaths) { err("path budget exhausted"); stopAll = true; }
  }
}
static void writeSummary(FILE* f) {
  fprintf(f, "{\"t\":\"summary\",\"paths\":%llu,\"pruned\":%llu,\"cut\":%llu,\"steps\":%llu,\"forks\":%llu,\"checks\":%llu,\"symChecks\":%llu,\"expectedPanics\":%llu,\"nviol\":%llu,\"maxDepth\":%llu,\"maxPc\":%llu,\"left\":%zu,"
    "\"queries\":%llu,\"checkQueries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cacheHits\":%llu,\"solverTime\":%.3f,\"maxQuery\":%.3f,\"exprs\":%zu,\"reach\":[",
    (unsigned long long)T.paths, (unsigned long long)T.pruned, (unsigned long long)T.cutPaths, (unsigned long long)T.steps, (unsigned long long)T.forks, (unsigned long long)T.checks, (unsigned long long)T.symChecks, (unsigned long long)T.expectedPanics, (unsigned long long)T.nviol, (unsigned long long)T.maxDepth, (unsigned long long)T.maxPc, work.size(),
    (unsigned long long)S.st.queries, (unsigned long long)S.st.checkQueries, (unsigned long long)S.st.sat, (unsigned long long)S.st.unsat, (unsigned long long)S.st.unknown, (unsigned long long)S.st.cacheHits, S.st.time, S.st.maxTime, P.cnt);
  bool first = true; for (auto& r : T.reach) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
  fprintf(f, "],\"errors\":["); first = true; for (auto& r : T.errors) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
  // functions and lines of the repository that were executed symbolically
  std::set<std::string> fns; std::map<std::string, std::set<unsigned>> lines;
  for (auto* c : fvec) if (c->compiled) {
    for (size_t b = 0; b < c->blocks.size(); b++) if (c->hit[b]) for (auto& I : *c->blocks[b])
      for (DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
        std::string fn = L->getFilename().str(); std::string dir = L->getDirectory().str(); if (fn.size() && fn[0] != '/') fn = dir + "/" + fn;
        if (fn.find(O.repo) != 0) continue;
        if (L->getLine()) lines[fn].insert(L->getLine());
        if (auto* SP = L->getScope()->getSubprogram()) { std::string n = SP->getLinkageName().str(); fns.insert(n.empty() ? SP->getName().str() : demang(n)); }
      }
  }
  fprintf(f, "],\"functions\":["); first = true; for (auto& r : fns) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
  fprintf(f, "],\"lines\":{"); first = true;
  for (auto& kv : lines) { fprintf(f, "%s\"%s\":[", first ? "" : ",", jesc(kv.first).c_str()); first = false; bool g = true; for (unsigned l : kv.second) { fprintf(f, "%s%u", g ? "" : ",", l); g = false; } fprintf(f, "]"); }
  fprintf(f, "}}\n"); fflush(f);
}

int main(int argc, char** argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("RSYM_RE")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("RSYM_RE", "1", 1); execv("/proc/self/exe", argv); } }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) die("missing value for " + a); return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--arg") O.args.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "--out") O.out = nx(); else if (a == "--jobs") O.jobs = atoi(nx().c_str());
    else if (a == "--timeout") O.timeout = atof(nx().c_str()); else if (a == "--max-steps") O.maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--validate") O.validate = atoi(nx().c_str()); else if (a == "--seed") O.seed = atoi(nx().c_str());
    else if (a == "--dump") O.dump = nx(); else if (a == "--dump-max") O.dumpMax = atoi(nx().c_str()); else if (a == "-v") O.verbose = true; else if (a == "--max-paths") O.maxPaths = strtoull(nx().c_str(), 0, 0); else if (a == "--max-viol") O.maxViol = atoi(nx().c_str());
    else if (a == "--repo") O.repo = nx(); else if (a == "--enum-max") O.enumMax = atoi(nx().c_str()); else if (a == "--const-hash") O.constHash = true; else if (a == "--mem-mb") O.memMb = atoi(nx().c_str());
    else O.bc = a;
  }
  double t0 = nowS(); tEnd = t0 + O.timeout;
  LLVMContext C; SMDiagnostic D; M = parseIRFile(O.bc, D, C); if (!M) { D.print("rsym", errs()); return 3; }
  DL = &M->getDataLayout(); PW = DL->getPointerSizeInBits();
  for (auto& F : *M) {
    auto* c = new CFunc(); c->F = &F; c->name = F.getName().str(); c->dem = demang(c->name); c->addr = FUNC_BASE + fvec.size() * 16; fvec.push_back(c); fmap[&F] = c;
    if (!F.isIntrinsic()) { c->handler = handlerFor(c->name, c->dem); if (!F.isDeclaration() && (c->name == "free" || c->name == "malloc" || c->name == "calloc" || c->name == "realloc" || c->name == "alloc")) c->handler = H_NONE; if (c->handler == H_NONE && F.isDeclaration()) { auto imp = F.getFnAttribute("wasm-import-name").getValueAsString(); if (!imp.empty()) c->handler = handlerFor(imp.str(), c->dem); if (imp == "dom_access") c->handler = H_HOSTDOM; else if (imp == "panic_message") c->handler = H_HOSTPANIC; } }
  }
  auto* st = new State(); st->sp = STACK_BASE; st->hp = HEAP_BASE; st->model = std::make_shared<Model>(); layoutGlobals(st->mem);
  Function* E = M->getFunction(O.entry); if (!E || E->isDeclaration()) die("no entry function " + O.entry);
  S.dumpDir = O.dump; S.dumpMax = O.dumpMax;
  Exec x; x.s = st; std::vector<Val> av; for (u64 a : O.args) av.push_back(cv(a)); if (av.size() != E->arg_size()) die("entry takes " + std::to_string(E->arg_size()) + " arguments");
  resF = fopen(O.out.c_str(), "w"); if (!resF) die("cannot write " + O.out);
  x.pushFrame(fmap[E], av.data(), av.size(), -1, 0); work.push_back(st);
  sharedCtr = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sharedCtr[0] = 0; sharedCtr[1] = 0;
  int bad = 0;
  if (O.jobs <= 1) explore(false, 0);
  else {
    explore(true, 12 * O.jobs);
    if (!work.empty() && !stopAll) {
      fflush(resF); std::vector<State*> init(work.begin(), work.end()); work.clear(); std::vector<pid_t> pids;
      writeSummary(resF); fflush(resF);
      for (unsigned j = 0; j < O.jobs; j++) {
        pid_t p = fork(); if (p < 0) die("fork");
        if (p == 0) {
          workerId = j + 1; std::string fn = O.out + "." + std::to_string(j); resF = fopen(fn.c_str(), "w"); auto keepStats = T; T = Stats(); (void)keepStats; SolverStats z; S.st = z;
          for (;;) { int k = __sync_fetch_and_add(&sharedCtr[0], 1); if (k >= (int)init.size() || sharedCtr[1]) break; work.push_back(init[k]); init[k] = nullptr; explore(false, 0); if (stopAll) break; }
          writeSummary(resF); fclose(resF); _exit(0);
        }
        pids.push_back(p);
      }
      for (auto p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) { bad = 1; fprintf(stderr, "rsym: worker failed (status %d)\n", stt); } }
      for (unsigned j = 0; j < O.jobs; j++) { std::string fn = O.out + "." + std::to_string(j); FILE* g = fopen(fn.c_str(), "r"); if (!g) { bad = 1; continue; } char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, g)) > 0) fwrite(buf, 1, n, resF); fclose(g); unlink(fn.c_str()); }
      T = Stats(); SolverStats z; S.st = z; work.clear(); for (auto* c : fvec) c->hit.assign(c->hit.size(), 0);
      if (bad) err("a worker process died");
    }
  }
  writeSummary(resF); fclose(resF);
  if (O.verbose) fprintf(stderr, "rsym: %.2fs\n", nowS() - t0);
  fflush(stderr); _exit(bad ? 3 : 0);
}
