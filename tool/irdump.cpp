// irdump: load LLVM bitcode, inline every non-public function, run a pass
// pipeline, and print the resulting module as JSON for the Python analyses.
//
//   irdump IN.bc --keep f1,f2,... --passes 'PIPELINE' [--noalias] > out.json
//
// --keep names the functions that stay calls (the public interface); all other
// defined functions are inlined into them where possible.
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;

static std::string tyStr(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static json::Value operand(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    SmallString<32> s;
    ci->getValue().toString(s, 10, false);
    return json::Array{"c", s.str().str(), (int)ci->getBitWidth()};
  }
  if (auto *cf = dyn_cast<ConstantFP>(v)) {
    APFloat a = cf->getValueAPF();
    bool li;
    a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", a.convertToDouble());
    return json::Array{"f", std::string(buf)};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<UndefValue>(v)) return json::Array{"u"}; // also poison
  if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int)a->getArgNo()};
  if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", bids[b]};
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str(), 0};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
  if (auto *c = dyn_cast<Constant>(v)) {
    if (c->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value *base = c->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *g = dyn_cast<GlobalVariable>(base))
        return json::Array{"g", g->getName().str(), (int64_t)off.getSExtValue()};
    }
    return json::Array{"?c", tyStr(c->getType())};
  }
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"i", it->second};
  return json::Array{"?", 0};
}

static std::string diType(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 6) return "...";
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    std::string k;
    switch (b->getEncoding()) {
    case dwarf::DW_ATE_signed: case dwarf::DW_ATE_signed_char: k = "i"; break;
    case dwarf::DW_ATE_unsigned: case dwarf::DW_ATE_unsigned_char: k = "u"; break;
    case dwarf::DW_ATE_boolean: k = "b"; break;
    case dwarf::DW_ATE_float: k = "f"; break;
    default: k = "x";
    }
    return k + std::to_string(b->getSizeInBits());
  }
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return "ptr:" + diType(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_const_type: return "const " + diType(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: {
      const DIType *b = d->getBaseType();
      if (auto *c = dyn_cast_or_null<DICompositeType>(b)) {
        (void)c;
        return "struct " + d->getName().str();
      }
      return diType(b, depth + 1);
    }
    default: return diType(d->getBaseType(), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) return "struct " + c->getName().str();
  return "?";
}

static void setLoc(json::Object &o, const DebugLoc &dl) {
  if (!dl) return;
  const DILocation *l = dl.get();
  o["line"] = (int)l->getLine();
  o["file"] = l->getFilename().str();
  if (auto *sp = l->getScope()->getSubprogram()) o["fn"] = sp->getName().str();
  if (auto *ia = l->getInlinedAt()) {
    json::Array st;
    while (ia) {
      std::string f = ia->getScope()->getSubprogram() ? ia->getScope()->getSubprogram()->getName().str() : "?";
      st.push_back(ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + ":" + f);
      ia = ia->getInlinedAt();
    }
    o["inl"] = std::move(st);
  }
}

static json::Object dumpInst(const Instruction &I) {
  json::Object o;
  o["id"] = ids[&I];
  o["op"] = std::string(I.getOpcodeName());
  o["ty"] = tyStr(I.getType());
  setLoc(o, I.getDebugLoc());
  json::Array ops;
  if (auto *phi = dyn_cast<PHINode>(&I)) {
    for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
      ops.push_back(json::Array{operand(phi->getIncomingValue(i)), bids[phi->getIncomingBlock(i)]});
    o["ops"] = std::move(ops);
    return o;
  }
  if (auto *sw = dyn_cast<SwitchInst>(&I)) {
    ops.push_back(operand(sw->getCondition()));
    o["ops"] = std::move(ops);
    o["default"] = bids[sw->getDefaultDest()];
    json::Array cs;
    for (auto &c : sw->cases()) cs.push_back(json::Array{operand(c.getCaseValue()), bids[c.getCaseSuccessor()]});
    o["cases"] = std::move(cs);
    return o;
  }
  if (auto *br = dyn_cast<BranchInst>(&I)) {
    if (br->isConditional()) {
      ops.push_back(operand(br->getCondition()));
      o["succ"] = json::Array{bids[br->getSuccessor(0)], bids[br->getSuccessor(1)]};
    } else
      o["succ"] = json::Array{bids[br->getSuccessor(0)]};
    o["ops"] = std::move(ops);
    return o;
  }
  if (auto *cb = dyn_cast<CallBase>(&I)) {
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *f = dyn_cast<Function>(cv)) o["callee"] = f->getName().str();
    else o["callee"] = nullptr, o["cval"] = operand(cv);
    for (auto &a : cb->args()) ops.push_back(operand(a.get()));
    o["ops"] = std::move(ops);
    json::Array at;
    for (auto &a : cb->args()) at.push_back(tyStr(a->getType()));
    o["argty"] = std::move(at);
    for (unsigned i = 0; i < cb->arg_size(); i++)
      if (cb->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int)i;
    for (unsigned i = 0; i < cb->arg_size(); i++)
      if (cb->paramHasAttr(i, Attribute::ByVal)) {
        if (!o.get("byval")) o["byval"] = json::Array{};
        o.getArray("byval")->push_back((int)i);
      }
    return o;
  }
  for (auto &u : I.operands()) ops.push_back(operand(u.get()));
  o["ops"] = std::move(ops);
  if (auto *c = dyn_cast<CmpInst>(&I)) {
    o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    o["opty"] = tyStr(c->getOperand(0)->getType());
  }
  if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
    if (ob->hasNoSignedWrap()) o["nsw"] = true;
    if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
  }
  if (auto *al = dyn_cast<AllocaInst>(&I)) {
    auto sz = al->getAllocationSize(*DL);
    o["size"] = sz ? (int64_t)sz->getFixedValue() : (int64_t)-1;
    o["aty"] = tyStr(al->getAllocatedType());
  }
  if (auto *ld = dyn_cast<LoadInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
    if (ld->isVolatile()) o["volatile"] = true;
  }
  if (auto *st = dyn_cast<StoreInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
    o["vty"] = tyStr(st->getValueOperand()->getType());
  }
  if (auto *g = dyn_cast<GEPOperator>(&I)) {
    MapVector<Value *, APInt> vars;
    APInt c(64, 0);
    if (g->collectOffset(*DL, 64, vars, c)) {
      o["coff"] = (int64_t)c.getSExtValue();
      json::Array vs;
      for (auto &kv : vars) vs.push_back(json::Array{operand(kv.first), (int64_t)kv.second.getSExtValue(), (int)kv.first->getType()->getIntegerBitWidth()});
      o["vars"] = std::move(vs);
    }
    o["sty"] = tyStr(g->getSourceElementType());
    if (g->isInBounds()) o["inb"] = true;
  }
  if (auto *c = dyn_cast<CastInst>(&I)) o["sty"] = tyStr(c->getSrcTy());
  if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
    json::Array ix; for (auto x : ev->indices()) ix.push_back((int)x);
    o["idx"] = std::move(ix);
  }
  return o;
}

static void runPasses(Module &M, const std::string &passes) {
  if (passes.empty()) return;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; exit(2); }
  MPM.run(M, MAM);
}
// small fixed-size heap record: malloc(constant)
static bool smallMalloc(const Instruction *I, uint64_t &sz) {
  auto *c = dyn_cast<CallInst>(I);
  if (!c || !c->getCalledFunction() || c->getCalledFunction()->getName() != "malloc") return false;
  auto *k = dyn_cast<ConstantInt>(c->getArgOperand(0));
  if (!k || k->getZExtValue() > 4096 || k->getZExtValue() == 0) return false;
  sz = k->getZExtValue();
  return true;
}
static bool onlyCellUses(Value *V, std::vector<Instruction *> &frees) {
  for (auto *U : V->users()) {
    if (auto *g = dyn_cast<GetElementPtrInst>(U)) { if (!g->hasAllConstantIndices() || !onlyCellUses(g, frees)) return false; continue; }
    if (isa<LoadInst>(U)) continue;
    if (auto *s = dyn_cast<StoreInst>(U)) { if (s->getValueOperand() == V) return false; continue; }
    if (auto *c = dyn_cast<CallInst>(U)) {
      if (c->getCalledFunction() && c->getCalledFunction()->getName() == "free") { frees.push_back(c); continue; }
      if (isa<DbgInfoIntrinsic>(c)) continue;
      return false;
    }
    if (isa<ICmpInst>(U)) continue;
    return false;
  }
  return true;
}
// numeric view: small records and scalar in/out cells become locals, so that SROA turns their fields into SSA values
static void promote(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<Instruction *> ms;
    for (auto &BB : F) for (auto &I : BB) { uint64_t s; if (smallMalloc(&I, s)) ms.push_back(&I); }
    for (auto *I : ms) {
      std::vector<User *> us(I->user_begin(), I->user_end());
      for (auto *U : us)
        if (auto *c = dyn_cast<ICmpInst>(U))
          if (c->isEquality() && (isa<ConstantPointerNull>(c->getOperand(0)) || isa<ConstantPointerNull>(c->getOperand(1)))) {
            c->replaceAllUsesWith(ConstantInt::getBool(F.getContext(), c->getPredicate() == CmpInst::ICMP_NE));
            c->eraseFromParent();
          }
    }
  }
  runPasses(M, "function(instsimplify,sccp,adce,jump-threading,instsimplify)");
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    DominatorTree DT(F);
    LoopInfo LI(DT);
    std::vector<Instruction *> ms;
    for (auto &BB : F) for (auto &I : BB) { uint64_t s; if (smallMalloc(&I, s) && !LI.getLoopFor(&BB)) ms.push_back(&I); }
    for (auto *I : ms) {
      uint64_t s; smallMalloc(I, s);
      std::vector<Instruction *> fr;
      if (!onlyCellUses(I, fr)) continue;
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto *A = B.CreateAlloca(ArrayType::get(B.getInt8Ty(), s), nullptr, "rec");
      A->setAlignment(Align(16));
      for (auto *f : fr) f->eraseFromParent();
      I->replaceAllUsesWith(A);
      I->eraseFromParent();
    }
    for (auto &A : F.args()) {
      if (!A.getType()->isPointerTy() || A.hasStructRetAttr() || A.hasByValAttr()) continue;
      Type *T = nullptr; bool ok = true; int n = 0;
      for (auto *U : A.users()) {
        Type *t = nullptr;
        if (auto *l = dyn_cast<LoadInst>(U)) t = l->getType();
        else if (auto *st = dyn_cast<StoreInst>(U)) { if (st->getValueOperand() == &A) { ok = false; break; } t = st->getValueOperand()->getType(); }
        else if (isa<ICmpInst>(U)) continue;
        else { ok = false; break; }
        if ((T && T != t) || !(t->isIntegerTy() || t->isFloatingPointTy())) { ok = false; break; }
        T = t; n++;
      }
      if (!ok || !T || n == 0) continue;
      std::vector<User *> us(A.user_begin(), A.user_end());
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto *C = B.CreateAlloca(T, nullptr, A.getName() + ".cell");
      auto *L = B.CreateLoad(T, &A, A.getName() + ".in");
      B.CreateStore(L, C);
      for (auto *U : us) if (isa<LoadInst>(U) || isa<StoreInst>(U)) U->replaceUsesOfWith(&A, C);
      for (auto &BB : F)
        if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) {
          IRBuilder<> B2(R);
          B2.CreateStore(B2.CreateLoad(T, C), &A);
        }
    }
  }
}

int main(int argc, char **argv) {
  std::string in, passes, keep, noinl, pre;
  bool noalias = false, lines = true, prom = false;
  (void)lines;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--passes") passes = argv[++i];
    else if (a == "--keep") keep = argv[++i];
    else if (a == "--noalias") noalias = true;
    else if (a == "--pre") pre = argv[++i];
    else if (a == "--promote") prom = true;
    else in = a;
  }
  std::set<std::string> keepSet;
  { size_t p = 0; while (p <= keep.size()) { size_t q = keep.find(',', p); if (q == std::string::npos) q = keep.size(); if (q > p) keepSet.insert(keep.substr(p, q - p)); p = q + 1; } }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    if (keepSet.count(F.getName().str())) F.addFnAttr(Attribute::NoInline);
    else if (keepSet.count("*vendored*") && F.getSubprogram() &&
             F.getSubprogram()->getFile() && F.getSubprogram()->getFilename().contains("stb_image")) {
      F.addFnAttr(Attribute::NoInline);
    } else
      F.addFnAttr(Attribute::AlwaysInline);
    if (noalias)
      for (auto &A : F.args())
        if (A.getType()->isPointerTy() && !A.hasAttribute(Attribute::NoAlias))
          A.addAttr(Attribute::NoAlias);
  }
  runPasses(*M, pre);
  if (prom) promote(*M);
  runPasses(*M, passes);
  json::Object root;
  json::Array globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["name"] = G.getName().str();
    o["const"] = G.isConstant();
    o["internal"] = G.hasLocalLinkage();
    o["decl"] = G.isDeclaration();
    o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0);
    o["ty"] = tyStr(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> dg;
    G.getDebugInfo(dg);
    for (auto *e : dg) { o["file"] = e->getVariable()->getFilename().str(); o["line"] = (int)e->getVariable()->getLine(); }
    if (G.hasInitializer()) {
      if (auto *cda = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
        if (cda->isString()) {
          json::Array by; for (unsigned char ch : cda->getAsString()) by.push_back((int)ch);
          o["bytes"] = std::move(by);
          if (cda->isCString()) o["str"] = json::fixUTF8(cda->getAsCString());
        }
      }
      if (G.isConstant()) {
        // flattened integer/float constant data as a list of [offset,size,kind,value]
        json::Array flat; 
        std::function<void(const Constant *, uint64_t)> walk = [&](const Constant *c, uint64_t off) {
          if (flat.size() > 4096) return;
          if (auto *ci = dyn_cast<ConstantInt>(c)) { SmallString<32> s; ci->getValue().toString(s, 10, true); flat.push_back(json::Array{(int64_t)off, (int)(ci->getBitWidth() + 7) / 8, "i", s.str().str()}); return; }
          if (auto *cf = dyn_cast<ConstantFP>(c)) { char b[64]; APFloat a = cf->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); snprintf(b, sizeof b, "%.17g", a.convertToDouble()); flat.push_back(json::Array{(int64_t)off, (int)DL->getTypeStoreSize(c->getType()).getFixedValue(), "f", std::string(b)}); return; }
          if (isa<ConstantAggregateZero>(c)) { flat.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue(), "z", "0"}); return; }
          if (auto *at = dyn_cast<ArrayType>(c->getType())) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) walk(e, off + i * es); return; }
          if (auto *st = dyn_cast<StructType>(c->getType())) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) walk(e, off + sl->getElementOffset(i)); return; }
        };
        walk(G.getInitializer(), 0);
        o["flat"] = std::move(flat);
      }
    }
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);
  json::Array fns;
  for (auto &F : *M) {
    json::Object f;
    f["name"] = F.getName().str();
    f["decl"] = F.isDeclaration();
    f["internal"] = F.hasLocalLinkage();
    f["retty"] = tyStr(F.getReturnType());
    if (F.isDeclaration()) { fns.push_back(std::move(f)); continue; }
    bool vendored = false;
    if (auto *sp = F.getSubprogram()) {
      f["file"] = sp->getFilename().str();
      f["line"] = (int)sp->getLine();
      vendored = sp->getFilename().contains("stb_image");
      json::Array dt;
      if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) dt.push_back(diType(t));
      f["ditypes"] = std::move(dt);
      std::map<int, std::string> an;
      for (auto *n : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n)) if (lv->getArg()) an[lv->getArg()] = lv->getName().str();
      f["_"] = nullptr;
    }
    f["vendored"] = vendored;
    if (vendored) { fns.push_back(std::move(f)); continue; }
    json::Array ps;
    for (auto &A : F.args()) {
      json::Object p;
      p["name"] = A.getName().str();
      p["ty"] = tyStr(A.getType());
      if (A.hasStructRetAttr()) p["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue();
      if (A.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      ps.push_back(std::move(p));
    }
    f["params"] = std::move(ps);
    ids.clear(); bids.clear();
    int n = 0, b = 0;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    json::Array blocks;
    json::Array dbgv;
    for (auto &BB : F) {
      json::Object bo;
      bo["id"] = bids[&BB];
      bo["name"] = BB.getName().str();
      json::Array ins;
      for (auto &I : BB) {
        if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (auto *v = dv->getNumVariableLocationOps() == 1 ? dv->getVariableLocationOp(0) : nullptr)
            dbgv.push_back(json::Array{operand(v), dv->getVariable()->getName().str(), diType(dv->getVariable()->getType())});
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        ins.push_back(dumpInst(I));
      }
      bo["insts"] = std::move(ins);
      blocks.push_back(std::move(bo));
    }
    f["blocks"] = std::move(blocks);
    f["dbg"] = std::move(dbgv);
    fns.push_back(std::move(f));
  }
  root["functions"] = std::move(fns);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
