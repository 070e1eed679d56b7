// irdump: links nothing, runs nothing: reads one LLVM bitcode module (the whole program linked together),
// inlines small/one-call-site helpers, promotes locals to SSA, and writes the resolved program as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const StructType*, std::vector<std::string>> FieldNames;
static DebugInfoFinder Finder;

static const DIType *strip(const DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      unsigned tag = d->getTag();
      if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type || tag==dwarf::DW_TAG_atomic_type) { t = d->getBaseType(); continue; }
    }
    break;
  }
  return t;
}
static void nameStruct(StructType *st, const DICompositeType *ct) {
  if (!st || !ct || st->isOpaque()) return;
  if (FieldNames.count(st)) return;
  auto *sl = DL->getStructLayout(st);
  std::vector<std::string> names(st->getNumElements());
  for (unsigned i = 0; i < st->getNumElements(); i++) names[i] = "#" + std::to_string(i);
  if (ct->getTag() == dwarf::DW_TAG_union_type) { FieldNames[st] = names; return; }
  for (auto *e : ct->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    uint64_t off = m->getOffsetInBits() / 8;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      if (sl->getElementOffset(i) == off && names[i][0] == '#') {
        names[i] = m->getName().str();
        if (names[i].empty()) names[i] = "#" + std::to_string(i);
        if (auto *sub = dyn_cast_or_null<DICompositeType>(strip(m->getBaseType())))
          if (auto *sst = dyn_cast<StructType>(st->getElementType(i))) nameStruct(sst, sub);
        break;
      }
  }
  FieldNames[st] = names;
}
static std::string structName(const StructType *st) {
  std::string n = st->hasName() ? st->getName().str() : "anon";
  for (const char *p : {"struct.", "union."}) if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
  // drop llvm's .123 uniquifier
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos && n.rfind("anon") == std::string::npos) n = n.substr(0, d);
  return n;
}
static std::string tyStr(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) return "%" + structName(st);
  if (auto *at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + tyStr(at->getElementType()) + "]";
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}

struct FnCtx { std::map<const Value*, int> ids; };

static json::Value constVal(const Constant *c, int depth = 0);
static json::Value gepSteps(const GEPOperator *g, FnCtx *ctx);
static json::Value opnd(const Value *v, FnCtx *ctx) {
  auto it = ctx ? ctx->ids.find(v) : std::map<const Value*,int>::iterator();
  if (ctx && it != ctx->ids.end()) return it->second;
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  return json::Array{"?"};
}
static json::Value constVal(const Constant *c, int depth) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return json::Array{"c", ci->getBitWidth()==1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue(), (int64_t)ci->getBitWidth()}; return json::Array{"c", 0, 128}; }
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (isa<UndefValue>(c)) return json::Array{"u"};
  if (isa<Function>(c)) return json::Array{"f", c->getName().str()};
  if (auto *gv = dyn_cast<GlobalVariable>(c)) {
    if (gv->isConstant() && gv->hasInitializer() && gv->hasPrivateLinkage()) {
      if (auto *ca = dyn_cast<ConstantDataSequential>(gv->getInitializer())) if (ca->isString()) {
        std::string s = ca->getAsString().str(); if (!s.empty() && s.back() == 0) s.pop_back();
        return json::Array{"s", json::fixUTF8(s)}; }
      if (isa<ConstantAggregateZero>(gv->getInitializer())) return json::Array{"s", ""};
    }
    return json::Array{"g", gv->getName().str()};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { json::Array a{"gep", constVal(cast<Constant>(g->getPointerOperand()), depth+1)}; a.push_back(gepSteps(g, nullptr)); return a; }
    return json::Array{"ce", ce->getOpcodeName(), depth<6 ? constVal(cast<Constant>(ce->getOperand(0)), depth+1) : json::Value(nullptr)};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { return json::Array{"fp", cf->getValueAPF().convertToDouble()}; }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
  return json::Array{"?c"};
}
// the contents of a table that is never written
static json::Value tableVal(const Constant *c, int &budget) {
  if (--budget < 0) return nullptr;
  if (auto *cs = dyn_cast<ConstantDataSequential>(c)) { json::Array a; for (unsigned i = 0; i < cs->getNumElements(); i++) { if (--budget < 0) return nullptr; a.push_back(constVal(cs->getElementAsConstant(i))); } return json::Object{{"a", std::move(a)}}; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { json::Array a; for (auto &u : ca->operands()) a.push_back(tableVal(cast<Constant>(u.get()), budget)); return json::Object{{"a", std::move(a)}}; }
  if (auto *st = dyn_cast<ConstantStruct>(c)) { json::Object o; auto f = FieldNames.find(st->getType()); for (unsigned k = 0; k < st->getNumOperands(); k++) o[f != FieldNames.end() && k < f->second.size() ? f->second[k] : "#" + std::to_string(k)] = tableVal(st->getOperand(k), budget); return json::Object{{"s", std::move(o)}}; }
  return constVal(c);
}
static bool readOnly(const Value *v, int d = 0) {
  if (d > 5) return false;
  for (auto *u : v->users()) {
    if (isa<LoadInst>(u)) continue;
    if (isa<GEPOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<BitCastInst>(u)) { if (!readOnly(u, d + 1)) return false; continue; }
    if (isa<ICmpInst>(u)) continue;
    return false;
  }
  return true;
}
static json::Value gepSteps(const GEPOperator *g, FnCtx *ctx) {
  // steps: ["f", struct, field] or ["i", operand, elemtype]
  json::Array steps;
  bool first = true;
  MDNode *ann = nullptr; unsigned ai = 0;
  if (auto *gi = dyn_cast<Instruction>(g)) ann = gi->getMetadata("sa.fld");
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      unsigned k = cast<ConstantInt>(idx)->getZExtValue();
      std::string fn = "#" + std::to_string(k);
      auto f = FieldNames.find(st);
      if (f != FieldNames.end() && k < f->second.size()) fn = f->second[k];
      std::string sn = structName(st);
      if (ann && ai + 1 < ann->getNumOperands()) { sn = cast<MDString>(ann->getOperand(ai))->getString().str(); fn = cast<MDString>(ann->getOperand(ai + 1))->getString().str(); ai += 2; }
      steps.push_back(json::Array{"f", sn, fn, (int64_t)k, (int64_t)DL->getTypeStoreSize(st->getElementType(k))});
    } else {
      if (first) { if (auto *ci = dyn_cast<ConstantInt>(idx)) if (ci->isZero()) { first = false; continue; }
        steps.push_back(json::Array{"p", opnd(idx, ctx), tyStr(g->getSourceElementType()), (int64_t)DL->getTypeAllocSize(g->getSourceElementType())}); }
      else steps.push_back(json::Array{"i", opnd(idx, ctx), tyStr(it.getIndexedType()), (int64_t)DL->getTypeAllocSize(it.getIndexedType())});
    }
    first = false;
  }
  return steps;
}

static json::Value locOf(const DebugLoc &dl) {
  // [line, file, func, [inlined caller lines...]]
  if (!dl) return nullptr;
  json::Array a;
  const DILocation *l = dl.get();
  json::Array chain;
  for (const DILocation *x = l; x; x = x->getInlinedAt()) {
    auto *sp = x->getScope()->getSubprogram();
    chain.push_back(json::Array{(int64_t)x->getLine(), x->getFilename().str(), sp ? sp->getName().str() : ""});
  }
  return chain;
}

// Linking merges structs of the same layout; so before it every field access is annotated with its own struct and field names.
static int annotate(Module &M, const char *out) {
  auto &Ctx = M.getContext();
  for (auto &F : M) for (auto &B : F) for (auto &I : make_early_inc_range(B)) {
    for (unsigned k = 0; k < I.getNumOperands(); k++) {
      auto *ce = dyn_cast<ConstantExpr>(I.getOperand(k));
      if (!ce || ce->getOpcode() != Instruction::GetElementPtr) continue;
      bool st = false; auto *g = cast<GEPOperator>(ce);
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) if (it.getStructTypeOrNull()) st = true;
      if (!st) continue;
      Instruction *at = &I; if (auto *pn = dyn_cast<PHINode>(&I)) at = pn->getIncomingBlock(k)->getTerminator();
      auto *ni = ce->getAsInstruction(at); ni->setDebugLoc(at->getDebugLoc()); I.setOperand(k, ni);
    }
  }
  auto note = [&](Instruction &I) {
    auto *g = dyn_cast<GEPOperator>(&I); if (!g) return;
    SmallVector<Metadata*, 8> md;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) if (StructType *st = it.getStructTypeOrNull()) {
      unsigned k = cast<ConstantInt>(it.getOperand())->getZExtValue();
      std::string fn = "#" + std::to_string(k);
      auto f = FieldNames.find(st);
      if (f != FieldNames.end() && k < f->second.size()) fn = f->second[k];
      md.push_back(MDString::get(Ctx, structName(st))); md.push_back(MDString::get(Ctx, fn));
    }
    if (!md.empty()) I.setMetadata("sa.fld", MDNode::get(Ctx, md));
  };
  for (auto &F : M) for (auto &I : instructions(F)) note(I);
  std::error_code EC; raw_fd_ostream o(out, EC); WriteBitcodeToFile(M, o); return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  int multiLimit = argc > 3 ? atoi(argv[3]) : 60;
  std::set<std::string> noInline; // one name per line: public API and other boundaries
  if (argc > 4) { std::ifstream f(argv[4]); std::string l; while (std::getline(f, l)) noInline.insert(l); }
  DL = &M->getDataLayout();
  Finder.processModule(*M);
  std::map<std::string, const DICompositeType*> byName;
  for (auto *t : Finder.types()) {
    if (auto *ct = dyn_cast<DICompositeType>(t)) if (!ct->getName().empty() && !ct->isForwardDecl()) byName[ct->getName().str()] = ct;
    if (auto *dt = dyn_cast<DIDerivedType>(t)) if (dt->getTag()==dwarf::DW_TAG_typedef) if (auto *ct = dyn_cast_or_null<DICompositeType>(strip(dt))) if (ct->getName().empty() && !byName.count(dt->getName().str())) byName[dt->getName().str()] = ct;
  }
  auto structs = M->getIdentifiedStructTypes();
  // larger first so nested anon structs get named through their parents
  for (auto *st : structs) { auto it = byName.find(structName(st)); if (it != byName.end()) nameStruct(st, it->second); }
  if (argc > 3 && std::string(argv[3]) == "annotate") return annotate(*M, argv[2]);
  // drop optnone/noinline
  for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }

  // ---- inlining of helpers
  std::set<Function*> recursive, addrTaken;
  { CallGraph CG(*M);
    for (auto i = scc_begin(&CG); !i.isAtEnd(); ++i) {
      const auto &scc = *i;
      bool loop = scc.size() > 1 || i.hasCycle();
      if (loop) for (auto *n : scc) if (n->getFunction()) recursive.insert(n->getFunction());
    } }
  std::map<Function*, std::vector<CallBase*>> sites;
  for (auto &F : *M) { if (F.isDeclaration()) continue; 
    for (auto *U : F.users()) { auto *CB = dyn_cast<CallBase>(U);
      if (CB && CB->getCalledOperand() == &F && !CB->isArgOperand(&U->getOperandUse(0))) { bool asArg=false; for (auto &A : CB->args()) if (A.get()==&F) asArg=true; if(asArg) addrTaken.insert(&F); else sites[&F].push_back(CB);} else addrTaken.insert(&F); } }
  std::set<std::string> taken; // address used for something else than a direct call
  for (auto &F : *M) for (auto *U : F.users()) { auto *CB = dyn_cast<CallBase>(U); bool t = !CB || CB->getCalledOperand() != &F; if (CB) for (auto &A : CB->args()) if (A.get() == &F) t = true; if (t) taken.insert(F.getName().str()); }
  std::map<Function*, int> size0; for (auto &F : *M) { int n = 0; for (auto &I : instructions(F)) if (!isa<DbgInfoIntrinsic>(I)) n++; size0[&F] = n; }
  std::set<std::string> inlinedAway;
  // "first field of" is a GEP with only zero indices, which the inliner would fold away: keep it opaque while inlining
  struct Gep0 { Type *ty; SmallVector<Value*, 4> idx; MDNode *md; };
  std::vector<Gep0> gep0; std::map<Function*, unsigned> gep0fn;
  { std::map<std::tuple<Type*, unsigned, MDNode*>, Function*> mk; auto *PT = PointerType::getUnqual(Ctx);
    for (auto &F : *M) for (auto &I : make_early_inc_range(instructions(F))) { auto *g = dyn_cast<GetElementPtrInst>(&I);
      if (!g || !g->hasAllZeroIndices()) continue;
      bool st = false; for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) if (it.getStructTypeOrNull()) st = true;
      if (!st) continue;
      auto *md = g->getMetadata("sa.fld"); auto key = std::make_tuple(g->getSourceElementType(), g->getNumIndices(), md);
      Function *&d = mk[key];
      if (!d) { d = Function::Create(FunctionType::get(PT, {PT}, false), Function::ExternalLinkage, "sa.gep0." + std::to_string(gep0.size()), *M); gep0fn[d] = gep0.size();
        Gep0 x; x.ty = g->getSourceElementType(); for (auto &ix : g->indices()) x.idx.push_back(ix.get()); x.md = md; gep0.push_back(x); }
      auto *c = CallInst::Create(d, {g->getPointerOperand()}, "", g); c->setDebugLoc(g->getDebugLoc()); c->takeName(g); g->replaceAllUsesWith(c); g->eraseFromParent(); } }
  // bottom-up order
  std::vector<Function*> order;
  { CallGraph CG(*M); for (auto i = scc_begin(&CG); !i.isAtEnd(); ++i) for (auto *n : *i) if (n->getFunction() && !n->getFunction()->isDeclaration()) order.push_back(n->getFunction()); }
  std::map<std::string,int> stats;
  for (Function *F : order) {
    if (F->isVarArg() || noInline.count(F->getName().split('.').first.str())) continue;
    bool internal = F->hasLocalLinkage();
    // recompute the sites: earlier inlining may have duplicated them
    std::vector<CallBase*> cs; for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledFunction() == F) cs.push_back(CB);
    if (cs.empty()) continue;
    if (recursive.count(F)) { // a part of a recursive function, taken out of it: its only use is one call in the function that it calls again
      bool part = F->hasLocalLinkage() && cs.size() == 1 && !taken.count(F->getName().str()) && cs[0]->getFunction() != F && size0[F] <= 1500;
      for (auto *U : F->users()) if (cs.empty() || U != cs[0]) part = false;
      for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (CB->getCalledFunction() == F) part = false;
      if (!part) continue; }
    size_t origSites = sites[F].size();
    // a part of one function used a few times there is that function's own code
    bool ownPart = internal && origSites <= 4 && size0[F] <= 160;
    if (ownPart) { std::set<Function*> by; for (auto *CB : cs) by.insert(CB->getFunction()); ownPart = by.size() == 1 && cs.size() <= 4; }
    // a part taken out of one function, whatever its size
    if (internal && cs.size() == 1 && !taken.count(F->getName().str()) && cs[0]->getFunction() != F && size0[F] <= 1500) { bool direct = true; for (auto *U : F->users()) if (U != cs[0]) direct = false; if (direct) ownPart = true; }
    bool ok = origSites == 1 || (internal && size0[F] <= multiLimit) || ownPart;
    if (ownPart && origSites > 1 && size0[F] > multiLimit && getenv("IRDUMP_V")) errs() << "own part: " << F->getName() << " of " << cs[0]->getFunction()->getName() << "\n";
    if (!ok) continue;
    if (argc > 5 && std::string(argv[5]) == "internal" && !internal) continue;
    // self-contained: do not inline into itself
    for (auto *CB : cs) { InlineFunctionInfo IFI; auto r = InlineFunction(*CB, IFI); if (r.isSuccess()) stats["inlined_sites"]++; else stats["inline_failed"]++; }
    bool stillUsed = false; for (auto *U : F->users()) { (void)U; stillUsed = true; }
    if (internal && !stillUsed) inlinedAway.insert(F->getName().str());
    stats["inlined_fns"]++;
  }
  for (auto &kv : gep0fn) { Gep0 &x = gep0[kv.second];
    for (auto *U : make_early_inc_range(kv.first->users())) { auto *c = cast<CallInst>(U);
      auto *g = GetElementPtrInst::CreateInBounds(x.ty, c->getArgOperand(0), x.idx, "", c); g->setDebugLoc(c->getDebugLoc()); if (x.md) g->setMetadata("sa.fld", x.md);
      g->takeName(c); c->replaceAllUsesWith(g); c->eraseFromParent(); }
    kv.first->eraseFromParent(); }
  // ---- SSA
  { PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM); }

  // ---- a function that calls one of its parameters is analysed separately for each function it is given
  { std::set<std::pair<Function*, unsigned>> pcall; bool ch = true;
    while (ch) { ch = false;
      for (auto &F : *M) for (auto &A : F.args()) { if (F.isVarArg() || F.isDeclaration() || pcall.count({&F, A.getArgNo()}) || !A.getType()->isPointerTy()) continue;
        bool c = false;
        for (auto &U : A.uses()) if (auto *CB = dyn_cast<CallBase>(U.getUser())) { if (CB->isCallee(&U)) c = true; else if (auto *G = CB->getCalledFunction()) if (CB->isArgOperand(&U) && pcall.count({G, CB->getArgOperandNo(&U)})) c = true; }
        if (c) { pcall.insert({&F, A.getArgNo()}); ch = true; } } }
    std::set<Function*> from; std::map<std::string, Function*> made; std::vector<Function*> work; for (auto &F : *M) if (!F.isDeclaration()) work.push_back(&F);
    for (size_t w = 0; w < work.size() && w < 3000; w++) for (auto &I : instructions(*work[w])) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *G = CB->getCalledFunction(); if (!G || G->isDeclaration() || recursive.count(G)) continue;
      std::string nm = G->getName().str(); std::vector<unsigned> ks;
      for (unsigned k = 0; k < CB->arg_size() && k < G->arg_size(); k++) if (pcall.count({G, k})) { auto *v = CB->getArgOperand(k)->stripPointerCasts(); 
        if (isa<Function>(v) || isa<ConstantPointerNull>(v)) { nm += "$" + (isa<Function>(v) ? v->getName().str() : std::string("null")); ks.push_back(k); } }
      if (ks.empty()) continue;
      Function *&S = made[nm];
      if (!S) { ValueToValueMapTy VM; S = CloneFunction(G, VM); S->setName(nm); S->setLinkage(GlobalValue::InternalLinkage); stats["specialised"]++;
        for (unsigned k : ks) S->getArg(k)->replaceAllUsesWith(cast<Constant>(CB->getArgOperand(k)->stripPointerCasts()));
        for (auto &A : S->args()) if (pcall.count({G, A.getArgNo()})) pcall.insert({S, A.getArgNo()});
        work.push_back(S); }
      CB->setCalledFunction(S); from.insert(G); }
    for (auto *G : from) if (G->use_empty()) inlinedAway.insert(G->getName().str()); }

  json::Object root; json::Array funcs; json::Array globals;
  for (auto &G : M->globals()) {
    if (G.hasPrivateLinkage() && G.getName().starts_with(".str")) continue;
    json::Object o{{"name", G.getName().str()}, {"type", tyStr(G.getValueType())}, {"const", G.isConstant()}, {"internal", G.hasLocalLinkage()}, {"size", (int64_t)DL->getTypeAllocSize(G.getValueType())}};
    SmallVector<DIGlobalVariableExpression*, 1> ges; G.getDebugInfo(ges);
    if (!ges.empty()) { o["file"] = ges[0]->getVariable()->getFilename().str(); o["line"] = (int64_t)ges[0]->getVariable()->getLine(); o["dname"]=ges[0]->getVariable()->getName().str(); auto *sc = ges[0]->getVariable()->getScope(); o["local"] = sc && isa<DISubprogram>(sc); }
    if (G.hasInitializer()) { json::Array fns; std::function<void(const Constant*,int)> walk = [&](const Constant *c, int d) { if (d > 6) return; if (auto *f = dyn_cast<Function>(c)) { fns.push_back(f->getName().str()); return; } if (isa<GlobalVariable>(c)) return; for (auto &u : c->operands()) if (auto *cc = dyn_cast<Constant>(u.get())) walk(cc, d + 1); };
      walk(G.getInitializer(), 0); o["fns"] = std::move(fns);
      if ((G.getValueType()->isAggregateType() || G.getValueType()->isPointerTy()) && !G.getName().starts_with("__") && !G.getInitializer()->isNullValue() && (G.isConstant() || (G.hasLocalLinkage() && readOnly(&G)))) { int budget = 4096; auto t = tableVal(G.getInitializer(), budget); if (budget >= 0) o["tab"] = std::move(t); }
      if (auto *ca = dyn_cast<ConstantDataArray>(G.getInitializer())) if (!ca->isString() && ca->getElementType()->isIntegerTy() && ca->getNumElements()<=512) { json::Array v; for (unsigned i=0;i<ca->getNumElements();i++) v.push_back((int64_t)ca->getElementAsInteger(i)); o["ints"]=std::move(v);} 
      if (auto *ci = dyn_cast<ConstantInt>(G.getInitializer())) if (ci->getBitWidth()<=64) o["init"]=ci->getSExtValue(); if (isa<ConstantPointerNull>(G.getInitializer())) o["init"]=0; }
    globals.push_back(std::move(o));
  }
  root["globals"] = std::move(globals);
  json::Object structsO;
  for (auto *st : structs) { if (st->isOpaque()) continue; json::Array f; auto fi = FieldNames.find(st); for (unsigned i = 0; i < st->getNumElements(); i++) f.push_back(json::Array{fi != FieldNames.end() ? fi->second[i] : "#" + std::to_string(i), tyStr(st->getElementType(i)), (int64_t)DL->getStructLayout(st)->getElementOffset(i), (int64_t)DL->getTypeAllocSize(st->getElementType(i))}); structsO[structName(st)] = std::move(f); }
  root["structs"] = std::move(structsO);
  // enums
  json::Object enums; for (auto *t : Finder.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) { json::Object o; for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) o[en->getName().str()] = en->getValue().getSExtValue(); std::string n = ct->getName().str(); if (n.empty()) { for (auto *t2 : Finder.types()) if (auto *dt = dyn_cast<DIDerivedType>(t2)) if (dt->getTag()==dwarf::DW_TAG_typedef && dt->getBaseType()==ct) n = dt->getName().str(); } if (n.empty()) n = "anon@" + ct->getFilename().str() + ":" + std::to_string(ct->getLine()); enums[n] = std::move(o); }
  root["enums"] = std::move(enums);

  for (auto &F : *M) {
    json::Object fo{{"name", F.getName().str()}, {"decl", F.isDeclaration()}, {"internal", F.hasLocalLinkage()}, {"vararg", F.isVarArg()}, {"ret", tyStr(F.getReturnType())}};
    if (F.isDeclaration()) { if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue; funcs.push_back(std::move(fo)); continue; }
    fo["inlinedAway"] = (bool)inlinedAway.count(F.getName().str());
    fo["addrTaken"] = (bool)addrTaken.count(&F); fo["taken"] = (bool)taken.count(F.getName().str());
    fo["recursive"] = (bool)recursive.count(&F);
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["dname"] = sp->getName().str();
      json::Array pts; if (auto *st = sp->getType()) { for (auto *t : st->getTypeArray()) { std::string n; const DIType *x = t; int ptr = 0; while (x) { if (auto *d = dyn_cast<DIDerivedType>(x)) { if (d->getTag()==dwarf::DW_TAG_typedef) { n = d->getName().str(); break; } if (d->getTag()==dwarf::DW_TAG_pointer_type) ptr++; x = d->getBaseType(); continue; } n = x->getName().str(); break; } if (!t) n = "void"; pts.push_back(n + std::string(ptr, '*')); } } fo["dtypes"] = std::move(pts); }
    FnCtx fc; int next = 0; json::Array args;
    std::map<const Value*, std::string> vname;
    for (auto &I : instructions(F)) {
      if (auto *dd = dyn_cast<DbgVariableIntrinsic>(&I)) { for (auto *v : dd->location_ops()) if (v) { auto n = dd->getVariable()->getName().str(); if (!vname.count(v)) vname[v] = n; } } }
    for (auto &A : F.args()) { fc.ids[&A] = next; args.push_back(json::Array{next, vname.count(&A) ? vname[&A] : "", A.hasByValAttr() ? std::string("byval") : tyStr(A.getType())}); next++; }
    fo["args"] = std::move(args);
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; fc.ids[&I] = next++; } }
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        json::Object o; o["i"] = fc.ids[&I]; o["op"] = I.getOpcodeName(); if (!I.getType()->isVoidTy()) o["t"] = tyStr(I.getType());
        if (vname.count(&I)) o["n"] = vname[&I];
        if (auto l = I.getDebugLoc()) o["l"] = locOf(l);
        json::Array ops;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->isInlineAsm()) o["callee"] = json::Array{"asm"}; else o["callee"] = opnd(CB->getCalledOperand()->stripPointerCasts(), &fc);
          for (auto &a : CB->args()) ops.push_back(opnd(a.get(), &fc));
        } else if (auto *PN = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) ops.push_back(json::Array{bid[PN->getIncomingBlock(k)], opnd(PN->getIncomingValue(k), &fc)});
        } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
          if (BI->isConditional()) { ops.push_back(opnd(BI->getCondition(), &fc)); o["succ"] = json::Array{bid[BI->getSuccessor(0)], bid[BI->getSuccessor(1)]}; } else o["succ"] = json::Array{bid[BI->getSuccessor(0)]};
        } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opnd(SI->getCondition(), &fc)); json::Array cs; for (auto &c : SI->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["def"] = bid[SI->getDefaultDest()];
        } else if (auto *G = dyn_cast<GEPOperator>(&I)) {
          ops.push_back(opnd(G->getPointerOperand(), &fc)); o["steps"] = gepSteps(G, &fc);
        } else {
          for (auto &u : I.operands()) ops.push_back(opnd(u.get(), &fc));
          if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["at"] = tyStr(AI->getAllocatedType()); o["size"] = (int64_t)DL->getTypeAllocSize(AI->getAllocatedType()); }
          if (auto *CI = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str();
          if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(RM->getOperation()).str();
          if (auto *LI = dyn_cast<LoadInst>(&I)) { if (LI->isAtomic()) o["atomic"] = true; if (LI->isVolatile()) o["vol"] = true; }
          if (auto *SI = dyn_cast<StoreInst>(&I)) { if (SI->isAtomic()) o["atomic"] = true; o["vt"] = tyStr(SI->getValueOperand()->getType()); }
        }
        o["o"] = std::move(ops);
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    funcs.push_back(std::move(fo));
  }
  root["functions"] = std::move(funcs);
  json::Object st; for (auto &kv : stats) st[kv.first] = kv.second; root["stats"] = std::move(st);
  std::error_code EC; raw_fd_ostream out(argv[2], EC); out << json::Value(std::move(root)); return 0;
}
