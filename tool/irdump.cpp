// irdump: link the bitcode of every translation unit, normalise it (inline
// helpers, promote locals to SSA) and write the resolved program as JSON.
//   irdump OUT.json KEEPFILE a.bc b.bc ...
// KEEPFILE: one function name per line that must stay a call (an anchor with a
// summary of its own); every other non-recursive, direct-call-only function is
// inlined, so that extracting a helper does not change what is analysed.
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static raw_fd_ostream *O;
static const DataLayout *DL;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }

struct Fn {
  std::map<const Value *, int> id;
  std::map<const BasicBlock *, int> bb;
};
static Fn *cur;

static std::string val(const Value *V);
static std::string constant(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s; CI->getValue().toString(s, 10, true);
    return "{\"k\":\"int\",\"v\":" + std::string(s) + ",\"w\":" + std::to_string(CI->getBitWidth()) + "}";
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<32> s; CF->getValueAPF().toString(s);
    return "{\"k\":\"fp\",\"v\":" + esc(s) + "}";
  }
  if (isa<ConstantPointerNull>(C)) return "{\"k\":\"null\"}";
  if (isa<UndefValue>(C)) return "{\"k\":\"undef\"}";
  if (auto *F = dyn_cast<Function>(C)) return "{\"k\":\"fn\",\"v\":" + esc(F->getName()) + "}";
  if (auto *G = dyn_cast<GlobalVariable>(C)) return "{\"k\":\"glob\",\"v\":" + esc(G->getName()) + ",\"o\":0}";
  if (auto *A = dyn_cast<GlobalAlias>(C)) return val(A->getAliasee());
  if (auto *BA = dyn_cast<BlockAddress>(C)) {
    int n = -1, i = 0;
    for (auto &B : *BA->getFunction()) { if (&B == BA->getBasicBlock()) n = i; i++; }
    return "{\"k\":\"blk\",\"f\":" + esc(BA->getFunction()->getName()) + ",\"v\":" + std::to_string(n) + "}";
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value *b = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalVariable>(b))
        return "{\"k\":\"glob\",\"v\":" + esc(G->getName()) + ",\"o\":" + std::to_string(off.getSExtValue()) + "}";
      if (CE->getOpcode() == Instruction::IntToPtr) {
        if (auto *CI = dyn_cast<ConstantInt>(CE->getOperand(0)))
          return "{\"k\":\"int\",\"v\":" + std::to_string(CI->getSExtValue()) + ",\"w\":64}";
      }
      if (auto *F = dyn_cast<Function>(b)) return "{\"k\":\"fn\",\"v\":" + esc(F->getName()) + "}";
    }
    if (CE->getOpcode() == Instruction::PtrToInt) return constant(CE->getOperand(0));
    std::string s; raw_string_ostream o(s); CE->print(o);
    return "{\"k\":\"cexpr\",\"v\":" + esc(o.str()) + "}";
  }
  if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
    if (CA->isString()) return "{\"k\":\"str\",\"v\":" + esc(CA->getAsString()) + "}";
    std::string r = "{\"k\":\"agg\",\"v\":[";
    for (unsigned i = 0; i < CA->getNumElements(); i++) { if (i) r += ","; r += constant(CA->getElementAsConstant(i)); }
    return r + "]}";
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    std::string r = "{\"k\":\"agg\",\"v\":[";
    for (unsigned i = 0; i < CA->getNumOperands(); i++) { if (i) r += ","; r += constant(CA->getOperand(i)); }
    return r + "]}";
  }
  if (isa<ConstantAggregateZero>(C)) return "{\"k\":\"zero\"}";
  return "{\"k\":\"other\"}";
}
static std::string val(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  if (auto *A = dyn_cast<Argument>(V)) return "{\"k\":\"arg\",\"v\":" + std::to_string(A->getArgNo()) + "}";
  if (auto *B = dyn_cast<BasicBlock>(V)) return "{\"k\":\"bb\",\"v\":" + std::to_string(cur->bb[B]) + "}";
  if (isa<Instruction>(V)) return "{\"k\":\"ins\",\"v\":" + std::to_string(cur->id[V]) + "}";
  return "{\"k\":\"other\"}";
}

static std::string locOf(const DebugLoc &L) {
  if (!L) return "";
  std::string r;
  // the location as inlined: innermost first, then the call sites
  const DILocation *l = L.get();
  r = "[";
  bool first = true;
  while (l) {
    if (!first) r += ",";
    first = false;
    auto *sp = l->getScope()->getSubprogram();
    r += "[" + esc(l->getFilename()) + "," + std::to_string(l->getLine()) + "," + esc(sp ? sp->getName() : "") + "," + std::to_string(l->getColumn()) + "]";
    l = l->getInlinedAt();
  }
  return r + "]";
}

static void gepInfo(std::string &s, const GEPOperator *G) {
  s += ",\"sty\":" + esc(tyStr(G->getSourceElementType()));
  s += ",\"base\":" + val(G->getPointerOperand());
  APInt c(64, 0);
  MapVector<Value *, APInt> var;
  bool ok = G->collectOffset(*DL, 64, var, c);
  s += ",\"off\":" + (ok ? std::to_string(c.getSExtValue()) : std::string("null"));
  s += ",\"var\":[";
  bool f = true;
  for (auto &p : var) { if (!f) s += ","; f = false; s += "[" + val(p.first) + "," + std::to_string(p.second.getSExtValue()) + "]"; }
  s += "],\"idx\":[";
  f = true;
  for (auto I = G->idx_begin(); I != G->idx_end(); ++I) { if (!f) s += ","; f = false; s += val(*I); }
  s += "]";
}

static std::string diName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType()) + "*";
    case dwarf::DW_TAG_const_type: return "const " + diName(D->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diName(D->getBaseType());
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = diName(C->getBaseType());
      for (auto *e : C->getElements())
        if (auto *sr = dyn_cast<DISubrange>(e)) {
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n += "[" + std::to_string(ci->getSExtValue()) + "]";
          else n += "[]";
        }
      return n;
    }
    if (C->getName().empty()) return C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static void flatten(std::string &s, bool &first, const DICompositeType *C, uint64_t base, const std::string &prefix, int depth) {
  if (depth > 4) return;
  for (auto *e : C->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    uint64_t off = base + m->getOffsetInBits() / 8;
    const DIType *t = m->getBaseType();
    const DIType *st = t;
    while (auto *d = dyn_cast<DIDerivedType>(st)) {
      if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type) st = d->getBaseType(); else break;
      if (!st) break;
    }
    bool anon = m->getName().empty();
    auto *sub = st ? dyn_cast<DICompositeType>(st) : nullptr;
    if (anon && sub) { flatten(s, first, sub, off, prefix, depth + 1); continue; }
    if (!first) s += ",";
    first = false;
    s += "{\"n\":" + esc(prefix + m->getName().str()) + ",\"o\":" + std::to_string(off) + ",\"s\":" + std::to_string(m->getSizeInBits() / 8) + ",\"t\":" + esc(diName(t)) + ",\"u\":" + esc(diName(st)) + "}";
  }
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  LLVMContext Ctx;
  std::set<std::string> keep;
  { std::ifstream k(argv[2]); std::string l; while (std::getline(k, l)) if (!l.empty()) keep.insert(l); }
  bool inlineAll = !keep.count("*");
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic Err;
    auto m = parseIRFile(argv[i], Err, Ctx);
    if (!m) { Err.print("irdump", errs()); return 2; }
    if (!M) { M = std::move(m); continue; }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();

  // recursion: functions in a non-trivial SCC stay calls
  std::set<Function *> rec;
  {
    CallGraph CG(*M);
    for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
      if (I.hasCycle()) for (auto *n : *I) if (n->getFunction()) rec.insert(n->getFunction());
  }
  // remember the struct an access goes through, before passes simplify zero GEPs away
  for (auto &F : *M) for (auto &B : F) for (auto &I : B) {
    auto hint = [&](Value *p, const char *kind) {
      std::string best; int64_t off = 0;
      while (auto *G = dyn_cast<GEPOperator>(p)) {
        APInt o(64, 0);
        bool cst = G->accumulateConstantOffset(*DL, o);
        if (!cst) break;
        off += o.getSExtValue();
        if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
          if (ST->hasName() && ST->getName().starts_with("struct.") && !ST->getName().starts_with("struct.anon")) {
            bool z = true;
            if (auto *ci = dyn_cast<ConstantInt>(G->idx_begin()->get())) z = ci->isZero(); else z = false;
            if (z) best = ST->getName().substr(7).split('.').first.str() + "@" + std::to_string(off);
          }
        p = G->getPointerOperand();
      }
      if (!best.empty()) I.setMetadata(kind, MDNode::get(Ctx, {MDString::get(Ctx, best)}));
    };
    if (auto *L = dyn_cast<LoadInst>(&I)) hint(L->getPointerOperand(), "nj");
    else if (auto *S = dyn_cast<StoreInst>(&I)) hint(S->getPointerOperand(), "nj");
    else if (auto *MI = dyn_cast<AnyMemIntrinsic>(&I)) {
      hint(MI->getRawDest(), "nj");
      if (auto *MT = dyn_cast<AnyMemTransferInst>(&I)) hint(MT->getRawSource(), "njs");
    }
  }
  std::map<std::string, std::string> inlined;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    bool ind = false;
    for (auto &B : F) if (isa<IndirectBrInst>(B.getTerminator())) ind = true;
    if (inlineAll && !keep.count(F.getName().str()) && !F.hasAddressTaken() && !rec.count(&F) && F.getName() != "main" && !F.isVarArg() && !ind) {
      F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      bool ind = false;
      for (auto &B : F) if (isa<IndirectBrInst>(B.getTerminator())) ind = true;
      FunctionPassManager FPM;
      FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
      FPM.addPass(LowerExpectIntrinsicPass());
      if (!ind) FPM.addPass(JumpThreadingPass());
      FPM.addPass(DCEPass());
      FPM.run(F, FAM);
    }
  }
  std::string eb; raw_string_ostream eo(eb);
  if (verifyModule(*M, &eo)) { errs() << "broken module " << eo.str() << "\n"; return 2; }

  std::error_code EC;
  raw_fd_ostream out(argv[1], EC);
  O = &out;
  out << "{\"structs\":{";
  DebugInfoFinder DIF; DIF.processModule(*M);
  std::set<std::string> seen; bool f = true;
  for (auto *T : DIF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
    std::string n = C->getName().str();
    if (n.empty() || !seen.insert(n).second) continue;
    if (!f) out << ",\n"; f = false;
    std::string s; bool ff = true; flatten(s, ff, C, 0, "", 0);
    out << esc(n) << ":{\"size\":" << C->getSizeInBits() / 8 << ",\"fields\":[" << s << "]}";
  }
  out << "},\n\"typedefs\":{";
  f = true; seen.clear();
  for (auto *T : DIF.types()) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D || D->getTag() != dwarf::DW_TAG_typedef) continue;
    if (!seen.insert(D->getName().str()).second) continue;
    if (!f) out << ",\n"; f = false;
    std::string s; bool ff = true;
    auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType());
    if (C && C->getName().empty() && (C->getTag() == dwarf::DW_TAG_structure_type)) flatten(s, ff, C, 0, "", 0);
    out << esc(D->getName()) << ":{\"t\":" << esc(diName(D->getBaseType())) << ",\"size\":" << (C ? C->getSizeInBits() / 8 : 0) << ",\"fields\":[" << s << "]}";
  }
  out << "},\n\"enums\":{";
  f = true; int anon = 0; seen.clear();
  for (auto *T : DIF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    std::string n = C->getName().str();
    if (n.empty()) n = "anon" + std::to_string(anon++);
    // name anonymous enums by their typedef
    for (auto *T2 : DIF.types()) if (auto *D = dyn_cast<DIDerivedType>(T2)) if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType() == C) n = D->getName().str();
    if (!seen.insert(n).second) continue;
    if (!f) out << ",\n"; f = false;
    out << esc(n) << ":{";
    bool g = true;
    for (auto *e : C->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!g) out << ","; g = false; out << esc(en->getName()) << ":" << en->getValue().getSExtValue(); }
    out << "}";
  }
  out << "},\n\"globals\":{";
  f = true;
  for (auto &G : M->globals()) {
    if (!f) out << ",\n"; f = false;
    std::string init = "null";
    if (G.hasInitializer()) {
      if (G.getInitializer()->getType()->isArrayTy() && DL->getTypeAllocSize(G.getInitializer()->getType()) > 65536) init = "{\"k\":\"big\"}";
      else init = constant(G.getInitializer());
    }
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    std::string dt = gv.empty() ? "" : diName(gv[0]->getVariable()->getType());
    std::string file = gv.empty() ? "" : gv[0]->getVariable()->getFilename().str();
    int line = gv.empty() ? 0 : gv[0]->getVariable()->getLine();
    std::string sname = gv.empty() ? "" : gv[0]->getVariable()->getName().str();
    out << esc(G.getName()) << ":{\"ty\":" << esc(tyStr(G.getValueType())) << ",\"size\":" << DL->getTypeAllocSize(G.getValueType()) << ",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"decl\":" << (G.isDeclaration() ? "true" : "false")
        << ",\"dt\":" << esc(dt) << ",\"file\":" << esc(file) << ",\"line\":" << line << ",\"sname\":" << esc(sname) << ",\"init\":" << init << "}";
  }
  out << "},\n\"functions\":{";
  f = true;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
    if (!f) out << ",\n"; f = false;
    out << esc(F.getName()) << ":{\"decl\":" << (F.isDeclaration() ? "true" : "false") << ",\"ret\":" << esc(tyStr(F.getReturnType())) << ",\"noreturn\":" << (F.doesNotReturn() ? "true" : "false") << ",\"vararg\":" << (F.isVarArg() ? "true" : "false") << ",\"taken\":" << (F.hasAddressTaken() ? "true" : "false") << ",\"rec\":" << (rec.count(&F) ? "true" : "false") << ",\"ai\":" << (F.hasFnAttribute(Attribute::AlwaysInline) ? "true" : "false");
    out << ",\"internal\":" << (F.hasLocalLinkage() ? "true" : "false");
    out << ",\"args\":[";
    for (auto &A : F.args()) { if (A.getArgNo()) out << ","; out << "{\"ty\":" << esc(tyStr(A.getType())) << "}"; }
    out << "]";
    if (auto *SP = F.getSubprogram()) {
      out << ",\"sname\":" << esc(SP->getName()) << ",\"file\":" << esc(SP->getFilename()) << ",\"line\":" << SP->getLine() << ",\"dtypes\":[";
      bool g = true;
      for (auto *t : SP->getType()->getTypeArray()) { if (!g) out << ","; g = false; out << esc(diName(t)); }
      out << "]";
    }
    if (F.isDeclaration()) { out << "}"; continue; }
    Fn fn; cur = &fn;
    int n = 0, b = 0;
    for (auto &B : F) { fn.bb[&B] = b++; for (auto &I : B) fn.id[&I] = n++; }
    out << ",\"blocks\":[\n";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) out << ",\n"; fb = false;
      out << "[";
      bool fi = true;
      for (auto &I : B) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          // keep variable names for messages: [value, name]
          if (DV->getNumVariableLocationOps() != 1) continue;
          Value *v = DV->getVariableLocationOp(0);
          if (!v || !(isa<Instruction>(v) || isa<Argument>(v))) continue;
          if (!fi) out << ","; fi = false;
          out << "{\"op\":\"dbg\",\"id\":" << fn.id[&I] << ",\"ops\":[" << val(v) << "],\"name\":" << esc(DV->getVariable()->getName()) << ",\"dt\":" << esc(diName(DV->getVariable()->getType())) << "}";
          continue;
        }
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          if (II->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(II)) continue;
        }
        if (!fi) out << ",\n"; fi = false;
        std::string s = "{\"op\":" + esc(I.getOpcodeName()) + ",\"id\":" + std::to_string(fn.id[&I]) + ",\"ty\":" + esc(tyStr(I.getType()));
        std::string lc = locOf(I.getDebugLoc());
        if (!lc.empty()) s += ",\"loc\":" + lc;
        if (auto *C = dyn_cast<CmpInst>(&I)) s += ",\"pred\":" + esc(CmpInst::getPredicateName(C->getPredicate()));
        if (auto *G = dyn_cast<GEPOperator>(&I)) gepInfo(s, G);
        if (auto *A = dyn_cast<AllocaInst>(&I)) { s += ",\"aty\":" + esc(tyStr(A->getAllocatedType())) + ",\"asz\":" + std::to_string(DL->getTypeAllocSize(A->getAllocatedType())); }
        if (auto *md = I.getMetadata("nj")) s += ",\"nj\":" + esc(cast<MDString>(md->getOperand(0))->getString());
        if (auto *md = I.getMetadata("njs")) s += ",\"njs\":" + esc(cast<MDString>(md->getOperand(0))->getString());
        if (auto *md = I.getMetadata(LLVMContext::MD_tbaa)) {
          // struct-path tag: base, access, offset
          if (md->getNumOperands() >= 3) {
            auto nm = [](Metadata *m) { auto *n = dyn_cast_or_null<MDNode>(m); if (n && n->getNumOperands()) if (auto *st = dyn_cast<MDString>(n->getOperand(0))) return st->getString().str(); return std::string(); };
            auto *o = mdconst::dyn_extract_or_null<ConstantInt>(md->getOperand(2));
            s += ",\"tb\":[" + esc(nm(md->getOperand(0))) + "," + esc(nm(md->getOperand(1))) + "," + std::to_string(o ? o->getSExtValue() : 0) + "]";
          }
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          Value *cv = CB->getCalledOperand()->stripPointerCasts();
          s += ",\"callee\":" + val(cv);
          s += ",\"ops\":[";
          bool g = true;
          for (auto &a : CB->args()) { if (!g) s += ","; g = false; s += val(a); }
          s += "]";
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          s += ",\"inc\":[";
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) s += ","; s += "[" + val(P->getIncomingValue(i)) + "," + std::to_string(fn.bb[P->getIncomingBlock(i)]) + "]"; }
          s += "]";
        } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          s += ",\"ops\":[" + val(SW->getCondition()) + "],\"def\":" + std::to_string(fn.bb[SW->getDefaultDest()]) + ",\"cases\":[";
          bool g = true;
          for (auto &c : SW->cases()) { if (!g) s += ","; g = false; s += "[" + std::to_string(c.getCaseValue()->getSExtValue()) + "," + std::to_string(fn.bb[c.getCaseSuccessor()]) + "]"; }
          s += "]";
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          s += ",\"ops\":[" + val(EV->getAggregateOperand()) + "],\"ix\":" + std::to_string(EV->getIndices()[0]);
        } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
          s += ",\"ops\":[" + val(IV->getAggregateOperand()) + "," + val(IV->getInsertedValueOperand()) + "],\"ix\":" + std::to_string(IV->getIndices()[0]);
        } else {
          s += ",\"ops\":[";
          bool g = true;
          for (auto &a : I.operands()) { if (!g) s += ","; g = false; s += val(a); }
          s += "]";
        }
        if (auto *BO = dyn_cast<OverflowingBinaryOperator>(&I)) { s += std::string(",\"nsw\":") + (BO->hasNoSignedWrap() ? "1" : "0"); }
        out << s << "}";
      }
      out << "]";
    }
    out << "]}";
  }
  out << "}}\n";
  return 0;
}
