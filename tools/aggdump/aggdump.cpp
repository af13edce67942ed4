// aggdump: LLVM 18 pass plugin. Two passes:
//   agg-prep : marks which callees are to be inlined (everything that is not a
//              baseline API function or an opaque library function).
//   agg-dump : writes the normalised module (SSA form, loops, dominators, debug
//              names, struct layouts) as JSON to $AGGDUMP_OUT.
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <fstream>
#include <map>
#include <set>
#include <regex>
using namespace llvm;

static std::set<std::string> loadApi() {
  std::set<std::string> s;
  if (const char *p = getenv("AGG_API")) {
    std::ifstream f(p); std::string l;
    while (std::getline(f, l)) if (!l.empty()) s.insert(l);
  }
  return s;
}
static bool inRepo(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP) return false;
  std::string p = (SP->getFilename().str());
  if (p.empty()) return false;
  if (p[0] != '/') p = SP->getDirectory().str() + "/" + p;
  const char *root = getenv("AGG_ROOT");
  std::string r = root ? root : "/repo";
  return p.rfind(r + "/", 0) == 0;
}
static bool stdInline(const std::string &d) {
  static const std::regex re(
      "^(.* )?std::(max|min|abs|swap|forward|move|addressof|__addressof|__niter_base)(<|\\().*");
  return std::regex_match(d, re);
}

static bool byConstRef(const std::string &d) {
  static const std::regex re("^(.* )?std::(vector|set|multiset|unordered_set|deque|queue|stack|list|priority_queue|map)<.*>::(push_back|push|insert|count|find|erase|resize|assign)\\(.* const&\\)$");
  return std::regex_match(d, re);
}
struct PrepPass : PassInfoMixin<PrepPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    auto api = loadApi();
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::AlwaysInline);
      std::string n = F.getName().str();
      std::string d = demangle(n);
      bool rec = false;
      for (auto &BB : F) for (auto &I : BB)
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (CB->getCalledFunction() == &F) rec = true;
      bool inl = false;
      if (inRepo(F)) {
        bool omp = n.find("omp_outlined") != std::string::npos || n.find(".omp.") != std::string::npos;
        inl = !api.empty() && !api.count(n) && !rec && !omp && n != "main";
        if (n.find("omp_outlined_debug__") != std::string::npos && n.find(".omp.reduction") == std::string::npos) inl = true;
      } else inl = stdInline(d);
      if (inl) F.addFnAttr(Attribute::AlwaysInline);
      else F.addFnAttr(Attribute::NoInline);
    }
    // a scalar variable handed to a standard container by constant reference is only read there:
    // hand over a temporary instead, so that the variable itself can be promoted
    for (Function &F : M) {
      if (F.isDeclaration() || !inRepo(F)) continue;
      SmallVector<std::pair<CallBase *, unsigned>, 16> todo;
      for (auto &BB : F) for (auto &I : BB) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || !CB->getCalledFunction()) continue;
        std::string d = demangle(CB->getCalledFunction()->getName().str());
        if (!byConstRef(d)) continue;
        for (unsigned k = 1; k < CB->arg_size(); k++) {
          auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(k));
          if (A && !A->isArrayAllocation() && (A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isDoubleTy() || A->getAllocatedType()->isPointerTy()))
            if (!A->getName().contains("tmp")) todo.push_back({CB, k});
        }
      }
      for (auto &[CB, k] : todo) {
        auto *A = cast<AllocaInst>(CB->getArgOperand(k));
        auto *T = new AllocaInst(A->getAllocatedType(), 0, "ref.tmp", &*F.getEntryBlock().getFirstInsertionPt());
        auto *L = new LoadInst(A->getAllocatedType(), A, "", CB); L->setDebugLoc(CB->getDebugLoc());
        auto *S = new StoreInst(L, T, CB); S->setDebugLoc(CB->getDebugLoc());
        CB->setArgOperand(k, T);
      }
    }
    // call sites
    for (Function &F : M) for (auto &BB : F) for (auto &I : BB)
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        CB->removeFnAttr(Attribute::NoInline);
        CB->removeFnAttr(Attribute::AlwaysInline);
      }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct Dumper {
  Module &M; FunctionAnalysisManager &FAM;
  DebugInfoFinder DIF;
  std::map<std::string, DICompositeType *> comps;
  std::map<const Value *, std::string> ids;
  std::map<const Value *, std::string> names;
  Dumper(Module &M, FunctionAnalysisManager &FAM) : M(M), FAM(FAM) {
    DIF.processModule(M);
    for (auto *T : DIF.types())
      if (auto *C = dyn_cast<DICompositeType>(T))
        if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_class_type) &&
            !C->isForwardDecl() && !C->getName().empty()) {
          std::string n = C->getName().str();
          std::string q = n;
          for (DIScope *S = C->getScope(); S; S = S->getScope()) {
            if (isa<DINamespace>(S) || isa<DICompositeType>(S)) q = S->getName().str() + "::" + q;
          }
          comps.insert({q, C});
        }
  }
  std::string tyStr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
  std::string diTy(DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 8) return "?";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      auto b = diTy(D->getBaseType(), depth + 1);
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + " *";
      case dwarf::DW_TAG_reference_type: return b + " &";
      case dwarf::DW_TAG_rvalue_reference_type: return b + " &&";
      case dwarf::DW_TAG_const_type: {
        if (!b.empty() && b.back() == '*') return b + " const";
        return "const " + b;
      }
      case dwarf::DW_TAG_typedef: {
        return b;
      }
      default: return b;
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) return C->getName().str();
    if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
    return "fn";
  }
  json::Value ref(const Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return json::Array{"c", C->getSExtValue()};
      return json::Array{"c", 0};
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; C->getValueAPF().toString(s); return json::Array{"f", std::string(s.str())};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
    if (isa<PoisonValue>(V)) return json::Array{"poison"};
    if (isa<UndefValue>(V)) return json::Array{"undef"};
    if (auto *G = dyn_cast<GlobalValue>(V)) return json::Array{"g", G->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      json::Array a{"ce", std::string(CE->getOpcodeName())};
      for (auto &O : CE->operands()) a.push_back(ref(O.get()));
      return std::move(a);
    }
    if (isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
    if (isa<BasicBlock>(V)) return json::Array{"bb", "?"};
    return json::Array{"k", tyStr(V->getType())};
  }
  json::Value loc(const DebugLoc &DL) {
    if (!DL) return nullptr;
    json::Array chain;
    for (const DILocation *L = DL.get(); L; L = L->getInlinedAt()) {
      std::string fn;
      auto *SP = L->getScope()->getSubprogram();
      if (SP) fn = SP->getName().str();
      std::string f = L->getFilename().str();
      if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
      chain.push_back(json::Array{f, (int64_t)L->getLine(), (int64_t)L->getColumn(), fn});
    }
    return std::move(chain);
  }
  bool fieldOf(StructType *ST, unsigned idx, std::string &out, std::string &sname) {
    const DataLayout &DL = M.getDataLayout();
    sname = ST->hasName() ? ST->getName().str() : "";
    std::string n = sname;
    if (n.rfind("class.", 0) == 0) n = n.substr(6);
    else if (n.rfind("struct.", 0) == 0) n = n.substr(7);
    sname = n;
    if (!ST->isSized()) return false;
    uint64_t off = DL.getStructLayout(ST)->getElementOffset(idx);
    auto it = comps.find(n);
    if (it == comps.end()) return false;
    for (auto *E : it->second->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E))
        if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember() && D->getOffsetInBits() / 8 == off) { out = D->getName().str(); return true; }
    return false;
  }
  json::Object dumpFn(Function &F) {
    ids.clear(); names.clear();
    json::Object o;
    o["name"] = F.getName().str();
    o["dem"] = demangle(F.getName().str());
    o["linkage"] = F.hasLocalLinkage() ? "internal" : (F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "linkonce" : "external");
    o["ret"] = tyStr(F.getReturnType());
    o["inrepo"] = inRepo(F);
    json::Array args;
    auto *SP = F.getSubprogram();
    std::vector<std::string> dt; std::string rett;
    if (SP) {
      std::string p = SP->getFilename().str();
      if (!p.empty() && p[0] != '/') p = SP->getDirectory().str() + "/" + p;
      o["file"] = p; o["line"] = (int64_t)SP->getLine();
      if (auto *ST = SP->getType()) { bool first = true; for (auto *T : ST->getTypeArray()) { if (first) { rett = diTy(T); first = false; } else dt.push_back(diTy(T)); } }
      o["dret"] = rett;
    }
    unsigned ai = 0;
    std::map<unsigned, std::string> argn;
    if (SP) for (auto *N : SP->getRetainedNodes())
      if (auto *LV = dyn_cast<DILocalVariable>(N)) if (LV->getArg()) argn[LV->getArg() - 1] = LV->getName().str();
    for (auto &A : F.args()) ids[&A] = "a" + std::to_string(ai++);
    bool sret = false; ai = 0; unsigned di = 0;
    // debug arg names through dbg intrinsics
    unsigned k = 0;
    std::map<const BasicBlock *, std::string> bid;
    for (auto &BB : F) { bid[&BB] = "b" + std::to_string(bid.size()); for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; ids[&I] = "v" + std::to_string(k++); } }
    for (auto &BB : F) for (auto &I : BB) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        auto *Var = D->getVariable();
        if (D->getNumVariableLocationOps() != 1) continue;
        Value *V = D->getVariableLocationOp(0);
        if (!V) continue;
        if (isa<DbgDeclareInst>(D)) names[V] = Var->getName().str();
        else if (!names.count(V) && (isa<Instruction>(V) || isa<Argument>(V))) names[V] = Var->getName().str();
        if (isa<Argument>(V) && Var->getArg()) names[V] = Var->getName().str();
      }
    }
    for (auto &A : F.args()) {
      json::Object a;
      a["id"] = ids[&A]; a["ty"] = tyStr(A.getType());
      bool sr = A.hasStructRetAttr(); if (sr) { a["sret"] = true; sret = true; }
      auto it = names.find(&A);
      a["n"] = it != names.end() ? it->second : A.getName().str();
      if (!sr && di < dt.size()) a["dty"] = dt[di];
      if (!sr) di++;
      args.push_back(std::move(a));
    }
    o["args"] = std::move(args);
    DominatorTree &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    PostDominatorTree &PDT = FAM.getResult<PostDominatorTreeAnalysis>(F);
    LoopInfo &LI = FAM.getResult<LoopAnalysis>(F);
    json::Array blocks;
    for (auto &BB : F) {
      json::Object b; b["id"] = bid[&BB];
      if (auto *N = DT.getNode(&BB)) if (N->getIDom()) b["idom"] = bid[N->getIDom()->getBlock()];
      if (auto *N = PDT.getNode(&BB)) if (N->getIDom() && N->getIDom()->getBlock()) b["ipdom"] = bid[N->getIDom()->getBlock()];
      json::Array succ; for (auto *S : successors(&BB)) succ.push_back(bid[S]);
      b["succ"] = std::move(succ);
      json::Array ins;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object j; j["id"] = ids[&I]; j["op"] = std::string(I.getOpcodeName()); j["ty"] = tyStr(I.getType());
        j["loc"] = loc(I.getDebugLoc());
        auto nit = names.find(&I); if (nit != names.end()) j["n"] = nit->second;
        json::Array ops;
        if (auto *PN = dyn_cast<PHINode>(&I)) {
          json::Array inc;
          for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) { ops.push_back(ref(PN->getIncomingValue(i))); inc.push_back(bid[PN->getIncomingBlock(i)]); }
          j["inc"] = std::move(inc);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &A : CB->args()) ops.push_back(ref(A.get()));
          Value *cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto *CF = dyn_cast<Function>(cv)) { j["callee"] = CF->getName().str(); j["cdem"] = demangle(CF->getName().str()); }
          else { j["callee"] = ""; j["fp"] = ref(cv); }
          if (CB->doesNotReturn()) j["noret"] = true;
        } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
          if (BI->isConditional()) ops.push_back(ref(BI->getCondition()));
          json::Array t; for (unsigned k = 0; k < BI->getNumSuccessors(); ++k) t.push_back(bid[BI->getSuccessor(k)]); j["tgt"] = std::move(t);
        } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(ref(SI->getCondition()));
          json::Array t; t.push_back(bid[SI->getDefaultDest()]);
          json::Array cs; for (auto &C : SI->cases()) { cs.push_back(C.getCaseValue()->getSExtValue()); t.push_back(bid[C.getCaseSuccessor()]); }
          j["tgt"] = std::move(t); j["cases"] = std::move(cs);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          for (auto &O : G->operands()) ops.push_back(ref(O.get()));
          j["sty"] = tyStr(G->getSourceElementType());
          json::Array path; unsigned n = 1;
          for (gep_type_iterator GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI, ++n) {
            if (auto *ST = GTI.getStructTypeOrNull()) {
              unsigned idx = cast<ConstantInt>(GTI.getOperand())->getZExtValue();
              std::string fn, sn; bool ok = fieldOf(ST, idx, fn, sn);
              path.push_back(json::Array{"fld", sn, ok ? fn : ("#" + std::to_string(idx)), (int64_t)idx});
            } else path.push_back(json::Array{"idx", (int64_t)n, (int64_t)M.getDataLayout().getTypeAllocSize(GTI.getIndexedType())});
          }
          j["path"] = std::move(path);
        } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
          j["aty"] = tyStr(AI->getAllocatedType());
          ops.push_back(ref(AI->getArraySize()));
        } else {
          for (auto &O : I.operands()) ops.push_back(ref(O.get()));
          if (auto *C = dyn_cast<CmpInst>(&I)) j["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *A = dyn_cast<AtomicRMWInst>(&I)) j["rmw"] = AtomicRMWInst::getOperationName(A->getOperation()).str();
          if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto q : E->indices()) x.push_back((int64_t)q); j["xi"] = std::move(x); }
          if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto q : E->indices()) x.push_back((int64_t)q); j["xi"] = std::move(x); }
          if (auto *S = dyn_cast<StoreInst>(&I)) { j["vty"] = tyStr(S->getValueOperand()->getType()); if (S->isAtomic()) j["atomic"] = true; if (S->isVolatile()) j["vol"] = true; }
          if (auto *L = dyn_cast<LoadInst>(&I)) if (L->isAtomic()) j["atomic"] = true;
        }
        j["ops"] = std::move(ops);
        ins.push_back(std::move(j));
      }
      b["ins"] = std::move(ins);
      blocks.push_back(std::move(b));
    }
    o["blocks"] = std::move(blocks);
    json::Array loops; std::map<Loop *, int> lid; int ln = 0;
    for (auto *L : LI.getLoopsInPreorder()) lid[L] = ln++;
    for (auto *L : LI.getLoopsInPreorder()) {
      json::Object l; l["id"] = lid[L]; l["header"] = bid[L->getHeader()];
      l["parent"] = L->getParentLoop() ? lid[L->getParentLoop()] : -1;
      json::Array bl; for (auto *B : L->blocks()) bl.push_back(bid[B]); l["blocks"] = std::move(bl);
      SmallVector<BasicBlock *, 4> lat; L->getLoopLatches(lat); json::Array la; for (auto *B : lat) la.push_back(bid[B]); l["latches"] = std::move(la);
      if (auto *P = L->getLoopPreheader()) l["preheader"] = bid[P];
      l["loc"] = loc(L->getStartLoc());
      loops.push_back(std::move(l));
    }
    o["loops"] = std::move(loops);
    return o;
  }
  void run() {
    const char *out = getenv("AGGDUMP_OUT");
    std::error_code EC; raw_fd_ostream os(out ? out : "/dev/stdout", EC);
    json::Array fns, decls, globals, structs;
    for (Function &F : M) {
      if (F.isDeclaration()) { decls.push_back(json::Array{F.getName().str(), demangle(F.getName().str())}); continue; }
      if (!inRepo(F)) continue;
      fns.push_back(dumpFn(F));
    }
    for (auto &G : M.globals()) {
      json::Object g; g["name"] = G.getName().str(); g["dem"] = demangle(G.getName().str()); g["const"] = G.isConstant(); g["ty"] = tyStr(G.getValueType()); g["decl"] = G.isDeclaration();
      if (G.hasInitializer()) if (auto *CD = dyn_cast<ConstantDataSequential>(G.getInitializer())) if (CD->isCString()) { std::string t = CD->getAsCString().str(); if (json::isUTF8(t)) g["str"] = t; }
      SmallVector<DIGlobalVariableExpression *, 1> D; G.getDebugInfo(D);
      if (!D.empty()) { auto *V = D[0]->getVariable(); std::string p = V->getFilename().str(); if (!p.empty() && p[0] != '/') p = V->getDirectory().str() + "/" + p; g["file"] = p; g["line"] = (int64_t)V->getLine(); g["dty"] = diTy(V->getType()); }
      globals.push_back(std::move(g));
    }
    for (auto &kv : comps) {
      json::Object s; s["name"] = kv.first; json::Array m;
      if (kv.first.rfind("std::", 0) == 0 || kv.first.rfind("__", 0) == 0) continue;
      for (auto *E : kv.second->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
          m.push_back(json::Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), diTy(D->getBaseType())});
      s["members"] = std::move(m);
      std::string p = kv.second->getFilename().str(); if (!p.empty() && p[0] != '/') p = kv.second->getDirectory().str() + "/" + p;
      s["file"] = p; s["line"] = (int64_t)kv.second->getLine();
      structs.push_back(std::move(s));
    }
    json::Object top; top["fns"] = std::move(fns); top["decls"] = std::move(decls); top["globals"] = std::move(globals); top["structs"] = std::move(structs);
    os << json::Value(std::move(top));
  }
};
// Branches on a truth value that was put together from constants on some paths (a bool
// variable or the result of an inlined predicate) are threaded: the paths with a constant
// go straight to their target, so the conditions stand where they are decided.
struct ThreadPass : PassInfoMixin<ThreadPass> {
  static PHINode *condPhi(BasicBlock *B, SmallVectorImpl<Instruction *> &mid, bool &inv) {
    auto *br = dyn_cast<BranchInst>(B->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) return nullptr;
    Value *v = br->getCondition(); inv = false;
    while (auto *I = dyn_cast<Instruction>(v)) {
      if (I->getParent() != B) return nullptr;
      if (auto *P = dyn_cast<PHINode>(I)) return P;
      if (!I->hasOneUse()) return nullptr;
      if (isa<TruncInst>(I) || isa<ZExtInst>(I)) { mid.push_back(I); v = I->getOperand(0); continue; }
      if (auto *C = dyn_cast<ICmpInst>(I)) {
        auto *K = dyn_cast<ConstantInt>(C->getOperand(1));
        if (!K || !K->isZero() || !C->isEquality()) return nullptr;
        if (C->getPredicate() == ICmpInst::ICMP_EQ) inv = !inv;
        mid.push_back(I); v = C->getOperand(0); continue;
      }
      if (I->getOpcode() == Instruction::Xor) {
        auto *K = dyn_cast<ConstantInt>(I->getOperand(1));
        if (!K || !(K->isOne() || K->isMinusOne())) return nullptr;
        inv = !inv; mid.push_back(I); v = I->getOperand(0); continue;
      }
      return nullptr;
    }
    return nullptr;
  }
  static bool one(Function &F) {
    DominatorTree DT(F);
    for (BasicBlock &B : F) {
      if (!DT.isReachableFromEntry(&B)) continue;
      // join a phi block with the block that only branches on it
      if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isUnconditional() && !B.phis().empty()) {
        BasicBlock *S = br->getSuccessor(0);
        if (S != &B && S->getSinglePredecessor() == &B) {
          auto *sb = dyn_cast<BranchInst>(S->getTerminator());
          if (sb && sb->isConditional()) {
            Value *v = sb->getCondition(); bool ok = false;
            for (int n = 0; n < 6; n++) {
              auto *I = dyn_cast<Instruction>(v); if (!I) break;
              if (isa<PHINode>(I)) { ok = I->getParent() == &B; break; }
              if (I->getNumOperands() < 1 || isa<LoadInst>(I) || isa<CallInst>(I)) break;
              v = I->getOperand(0);
            }
            if (ok && MergeBlockIntoPredecessor(S)) return true;
          }
        }
      }
      SmallVector<Instruction *, 4> mid; bool inv;
      PHINode *P = condPhi(&B, mid, inv);
      if (!P) continue;
      // nothing but the phi, the casts and the branch
      bool ok = true;
      for (Instruction &I : B) {
        if (&I == P || I.isTerminator() || isa<DbgInfoIntrinsic>(I)) continue;
        if (std::find(mid.begin(), mid.end(), &I) == mid.end()) { ok = false; break; }
      }
      if (!ok) continue;
      for (User *U : P->users()) { auto *I = dyn_cast<Instruction>(U); if (!I || (I->getParent() != &B)) { ok = false; } }
      if (!ok) continue;
      bool hdr = false;
      for (BasicBlock *q : predecessors(&B)) if (DT.dominates(&B, q)) hdr = true;
      if (hdr) continue;
      auto *br = cast<BranchInst>(B.getTerminator());
      for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
        auto *C = dyn_cast<ConstantInt>(P->getIncomingValue(k));
        if (!C) continue;
        BasicBlock *Q = P->getIncomingBlock(k);
        Instruction *QT = Q->getTerminator();
        unsigned edges = 0; for (unsigned e = 0; e < QT->getNumSuccessors(); e++) edges += QT->getSuccessor(e) == &B;
        if (edges != 1 || !(isa<BranchInst>(QT) || isa<SwitchInst>(QT))) continue;
        bool val = !C->isZero(); if (inv) val = !val;
        BasicBlock *T = br->getSuccessor(val ? 0 : 1);
        // the target must not already be a successor of Q with different phi values
        bool dup = false; for (unsigned e = 0; e < QT->getNumSuccessors(); e++) dup |= QT->getSuccessor(e) == T;
        if (dup && !T->phis().empty()) continue;
        for (PHINode &TP : T->phis()) TP.addIncoming(TP.getIncomingValueForBlock(&B), Q);
        for (unsigned e = 0; e < QT->getNumSuccessors(); e++) if (QT->getSuccessor(e) == &B) QT->setSuccessor(e, T);
        B.removePredecessor(Q, /*KeepOneInputPHIs=*/true);
        return true;
      }
    }
    return false;
  }
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    for (Function &F : M) if (!F.isDeclaration()) for (int n = 0; n < 2000 && one(F); n++) {}
    return PreservedAnalyses::none();
  }
};

struct DumpPass : PassInfoMixin<DumpPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &AM) {
    auto &FAM = AM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
    Dumper(M, FAM).run();
    return PreservedAnalyses::all();
  }
  static bool isRequired() { return true; }
};
extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "aggdump", "1", [](PassBuilder &PB) {
            PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
              if (N == "agg-prep") { MPM.addPass(PrepPass()); return true; }
              if (N == "agg-thread") { MPM.addPass(ThreadPass()); return true; }
              if (N == "agg-dump") { MPM.addPass(DumpPass()); return true; }
              return false;
            });
          }};
}
