// irdump: load LLVM bitcode modules, link them, normalise the code of the
// analysed library (inline its own helpers, promote memory to registers) and
// dump the control-flow graphs of the library's functions as JSON lines.
//
// usage: irdump OUT.jsonl CONFIG file.bc...
//   CONFIG is a text file of lines "<kind> <regex>":
//     lib    <regex on demangled name>    functions that belong to the analysed library
//     inline <regex on demangled name>    further functions to inline
//     keep   <regex on demangled name>    functions that stay calls (primitives)
//     mincse 1                            also run EarlyCSE
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <unordered_map>
using namespace llvm;

static std::vector<std::regex> rlib, rinline, rkeep;
static size_t maxsize = 6000;
static bool cse = false;

static bool any_match(const std::vector<std::regex> &v, const std::string &s) {
  for (auto &r : v) if (std::regex_search(s, r)) return true;
  return false;
}

static std::unordered_map<std::string, std::string> demcache;
static const std::string &dem(StringRef n) {
  std::string k = n.str();
  auto it = demcache.find(k);
  if (it != demcache.end()) return it->second;
  return demcache[k] = demangle(k);
}

static size_t fsize(Function &F) { size_t n = 0; for (auto &B : F) n += B.size(); return n; }

// is the function's source file inside the analysed tree?
static std::string repo_prefix;
static bool in_repo(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string fn = SP->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = SP->getDirectory().str() + "/" + fn;
    return fn.find(repo_prefix) != std::string::npos;
  }
  return false;
}

enum Kind { EXT, LIB, INL, KEEP };
static std::unordered_map<const Function *, Kind> kinds;
static Kind kind_of(const Function &F) {
  auto it = kinds.find(&F);
  if (it != kinds.end()) return it->second;
  const std::string &d = dem(F.getName());
  Kind k = EXT;
  if (any_match(rkeep, d)) k = KEEP;
  else if (in_repo(F) || any_match(rlib, d)) k = LIB;
  else if (any_match(rinline, d)) k = INL;
  kinds[&F] = k;
  return k;
}

// functions of a 'keepx' class are only looked through from members of that class
static std::vector<std::string> xclasses;
static int xclass(const Function &F) {
  const std::string &d = dem(F.getName());
  for (size_t k = 0; k < xclasses.size(); k++)
    if (d.compare(0, xclasses[k].size(), xclasses[k]) == 0) return (int)k;
  return -1;
}

static std::set<Function *> done, active;
static unsigned n_inlined = 0, n_recursive = 0, n_toobig = 0;

static FunctionAnalysisManager *FAMp;

static void tidy(Function &F) {
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
  FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false)
      .convertSwitchToLookupTable(false).convertSwitchRangeToICmp(false).forwardSwitchCondToPhi(false)));
  if (cse) FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(DCEPass());
  FAMp->invalidate(F, PreservedAnalyses::none());
  FPM.run(F, *FAMp);
  FAMp->invalidate(F, PreservedAnalyses::none());
}

static void process(Function &F) {
  if (F.isDeclaration() || done.count(&F) || active.count(&F)) return;
  active.insert(&F);
  bool again = true;
  std::set<Instruction *> skip;
  int rounds = 0;
  while (again && rounds++ < 40) {
    again = false;
    std::vector<CallBase *> calls;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) calls.push_back(CB);
    for (auto *CB : calls) {
      if (skip.count(CB)) continue;
      Function *C = CB->getCalledFunction();
      if (!C || C->isDeclaration() || C == &F) { skip.insert(CB); continue; }
      Kind k = kind_of(*C);
      if (k != LIB && k != INL) { skip.insert(CB); continue; }
      { int x = xclass(*C); if (x >= 0 && x != xclass(F)) { skip.insert(CB); continue; } }
      if (active.count(C)) { n_recursive++; skip.insert(CB); continue; }
      process(*C);
      if (fsize(*C) + fsize(F) > maxsize) { n_toobig++; skip.insert(CB); continue; }
      C->removeFnAttr(Attribute::OptimizeNone);
      C->removeFnAttr(Attribute::NoInline);
      InlineFunctionInfo IFI;
      auto R = InlineFunction(*CB, IFI);
      if (R.isSuccess()) { n_inlined++; again = true; } else skip.insert(CB);
    }
  }
  F.removeFnAttr(Attribute::OptimizeNone);
  tidy(F);
  active.erase(&F);
  done.insert(&F);
}

// ---------------------------------------------------------------- dumping
struct Namer {
  std::unordered_map<const Value *, std::string> ids;
  int n = 0;
};

static const DataLayout *DL;
static std::string opstr(const Value *V, Namer &N, int depth = 0);

static std::string conststr(const Constant *C, Namer &N, int depth) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s;
    if (CI->getBitWidth() == 1) return CI->isZero() ? "c:0" : "c:1";
    CI->getValue().toStringSigned(s);
    return "c:" + std::string(s.str());
  }
  if (isa<ConstantPointerNull>(C)) return "null";
  if (isa<UndefValue>(C)) return "undef";
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    SmallString<32> s; CF->getValueAPF().toString(s);
    return "f:" + std::string(s.str());
  }
  if (auto *GV = dyn_cast<GlobalValue>(C)) return "g:" + GV->getName().str();
  if (auto *GO = dyn_cast<GEPOperator>(C)) {
    APInt off(64, 0);
    if (GO->accumulateConstantOffset(*DL, off))
      return "ce:" + std::to_string(off.getSExtValue()) + ":" + opstr(GO->getPointerOperand(), N, depth + 1);
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->isCast() && depth < 8) return opstr(CE->getOperand(0), N, depth + 1);
    return std::string("cx:") + CE->getOpcodeName();
  }
  if (C->isZeroValue()) return "zero";
  std::string s; raw_string_ostream os(s); C->printAsOperand(os, false); 
  return "k:" + os.str().substr(0, 80);
}

static std::string opstr(const Value *V, Namer &N, int depth) {
  auto it = N.ids.find(V);
  if (it != N.ids.end()) return it->second;
  if (auto *C = dyn_cast<Constant>(V)) return conststr(C, N, depth);
  if (auto *BB = dyn_cast<BasicBlock>(V)) return "bb?";
  if (isa<MetadataAsValue>(V)) return "md";
  if (isa<InlineAsm>(V)) return "asm";
  return "?";
}

static std::string tystr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str().substr(0, 160);
}

static std::string fpath(const DIFile *F) {
  if (!F) return "";
  std::string fn = F->getFilename().str();
  if (!fn.empty() && fn[0] != '/') fn = F->getDirectory().str() + "/" + fn;
  auto p = fn.find(repo_prefix);
  if (p != std::string::npos) fn = fn.substr(p + repo_prefix.size());
  return fn;
}

static std::string dityname(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return dityname(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type: return dityname(D->getBaseType(), depth + 1) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return dityname(D->getBaseType(), depth + 1) + "&&";
      case dwarf::DW_TAG_const_type: return "const " + dityname(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_volatile_type: return "volatile " + dityname(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: return dityname(D->getBaseType(), depth + 1);
      default: return D->getName().str();
    }
  }
  std::string sc;
  const DIScope *S = T->getScope();
  while (S) {
    if (isa<DINamespace>(S) || isa<DIType>(S)) {
      std::string nm = S->getName().str();
      if (nm.empty()) nm = "(anonymous)";
      sc = nm + "::" + sc;
      S = S->getScope();
    } else break;
  }
  std::string nm = T->getName().str();
  if (nm.empty()) if (auto *C = dyn_cast<DICompositeType>(T)) nm = "(anon:" + std::to_string(C->getLine()) + ")";
  return sc + nm;
}
static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}

static json::Value locv(const DebugLoc &L) {
  if (!L) return nullptr;
  json::Array a;
  a.push_back(fpath(L->getScope()->getFile()));
  a.push_back((int64_t)L->getLine());
  std::string fn;
  if (auto *SP = L->getScope()->getSubprogram()) fn = SP->getName().str();
  a.push_back(fn);
  // chain of inline call lines, innermost first
  json::Array ch;
  for (auto *IA = L->getInlinedAt(); IA; IA = IA->getInlinedAt())
    ch.push_back(fpath(IA->getScope()->getFile()) + ":" + std::to_string(IA->getLine()));
  if (!ch.empty()) a.push_back(std::move(ch));
  return json::Value(std::move(a));
}

// call sites / address uses of each function before anything was inlined
static std::map<const Function *, std::pair<int, int>> usage;

static void dump_function(Function &F, raw_ostream &OS) {
  Namer N;
  int ai = 0;
  json::Array args;
  for (auto &A : F.args()) {
    N.ids[&A] = "a" + std::to_string(ai++);
    json::Object o; o["n"] = A.getName().str(); o["t"] = tystr(A.getType());
    if (A.hasStructRetAttr()) o["sret"] = true;
    if (A.hasByValAttr()) o["byval"] = true;
    if (A.hasAttribute(Attribute::ZExt)) o["zext"] = true;
    args.push_back(std::move(o));
  }
  std::unordered_map<const BasicBlock *, int> bid;
  int nb = 0;
  for (auto &B : F) { bid[&B] = nb++; N.ids[&B] = "b" + std::to_string(bid[&B]); }
  for (auto &I : instructions(F)) N.ids[&I] = "%" + std::to_string(N.n++);
  json::Object fo;
  fo["kind"] = "func";
  fo["name"] = F.getName().str();
  fo["dem"] = dem(F.getName());
  fo["link"] = F.hasLocalLinkage() ? "local" : F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "odr" : "ext";
  fo["ret"] = tystr(F.getReturnType());
  fo["args"] = std::move(args);
  if (F.doesNotThrow()) fo["nounwind"] = true;
  { auto it = usage.find(&F); if (it != usage.end()) { fo["ncallers"] = it->second.first; fo["addr"] = it->second.second; } }
  if (auto *SP = F.getSubprogram()) {
    fo["file"] = fpath(SP->getFile());
    fo["line"] = (int64_t)SP->getLine();
    fo["spname"] = SP->getName().str();
    const DIScope *sc = SP->getScope();
    if (auto *D = SP->getDeclaration()) sc = D->getScope();
    if (auto *CT = dyn_cast_or_null<DIType>(sc)) fo["cls"] = dityname(CT);
    auto *decl = SP->getDeclaration() ? SP->getDeclaration() : SP;
    const char *acc = decl->isPrivate() ? "private" : decl->isProtected() ? "protected" : decl->isPublic() ? "public" : "";
    if (!*acc) {
      acc = "public";
      if (auto *PC = dyn_cast_or_null<DICompositeType>(sc)) if (PC->getTag() == dwarf::DW_TAG_class_type) acc = "private";
    }
    if (decl->isArtificial()) fo["artificial"] = true;
    if (decl->getVirtuality()) fo["virtual"] = true;
    if (auto *PT = dyn_cast_or_null<DIType>(sc)) fo["clsfile"] = fpath(PT->getFile());
    fo["acc"] = acc;
    if (auto *ST = SP->getType()) {
      json::Array ta;
      for (auto *T : ST->getTypeArray()) ta.push_back(dityname(T));
      fo["ditypes"] = std::move(ta);
    }
  }
  json::Array blocks;
  for (auto &B : F) {
    json::Array insts;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      json::Object o;
      o["i"] = N.ids[&I];
      o["op"] = I.getOpcodeName();
      o["t"] = tystr(I.getType());
      if (I.getDebugLoc()) o["l"] = locv(I.getDebugLoc());
      json::Array ops;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < CB->arg_size(); i++) ops.push_back(opstr(CB->getArgOperand(i), N));
        const Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *C = dyn_cast<Function>(cv)) {
          o["callee"] = C->getName().str();
          o["dem"] = C->isIntrinsic() ? C->getName().str() : dem(C->getName());
          o["ck"] = (int)kind_of(*C);
        } else o["cv"] = opstr(cv, N);
        if (CB->doesNotThrow()) o["nothrow"] = true;
        if (auto *II = dyn_cast<InvokeInst>(CB)) {
          o["normal"] = bid[II->getNormalDest()];
          o["unwind"] = bid[II->getUnwindDest()];
        }
        if (CB->doesNotReturn()) o["noret"] = true;
        for (unsigned i = 0; i < CB->arg_size(); i++)
          if (CB->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int)i;
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        ops.push_back(opstr(G->getPointerOperand(), N));
        unsigned bw = 64;
        MapVector<Value *, APInt> var; APInt off(bw, 0);
        if (G->collectOffset(*DL, bw, var, off)) {
          o["off"] = off.getSExtValue();
          json::Array va;
          for (auto &p : var) { json::Array e; e.push_back(opstr(p.first, N)); e.push_back((int64_t)p.second.getSExtValue()); va.push_back(std::move(e)); }
          if (!va.empty()) o["var"] = std::move(va);
        }
        o["sty"] = tystr(G->getSourceElementType());
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        json::Array in;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
          ops.push_back(opstr(P->getIncomingValue(i), N));
          in.push_back(bid[P->getIncomingBlock(i)]);
        }
        o["in"] = std::move(in);
      } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
        if (BI->isConditional()) ops.push_back(opstr(BI->getCondition(), N));
        json::Array s; for (unsigned i = 0; i < BI->getNumSuccessors(); i++) s.push_back(bid[BI->getSuccessor(i)]);
        o["succ"] = std::move(s);
      } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
        ops.push_back(opstr(SI->getCondition(), N));
        o["def"] = bid[SI->getDefaultDest()];
        json::Array cs;
        for (auto &c : SI->cases()) { json::Array e; SmallString<32> s; c.getCaseValue()->getValue().toStringSigned(s); e.push_back(std::string(s.str())); e.push_back(bid[c.getCaseSuccessor()]); cs.push_back(std::move(e)); }
        o["cases"] = std::move(cs);
      } else {
        for (auto &U : I.operands()) ops.push_back(opstr(U.get(), N));
        if (auto *CI = dyn_cast<CmpInst>(&I)) o["p"] = CmpInst::getPredicateName(CI->getPredicate()).str();
        if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["aty"] = tystr(AI->getAllocatedType()); if (auto s = AI->getAllocationSize(*DL)) o["sz"] = (int64_t)s->getFixedValue(); }
        if (auto *SI = dyn_cast<StoreInst>(&I)) o["vt"] = tystr(SI->getValueOperand()->getType());
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto x : EV->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto x : IV->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
        if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup(); o["ncl"] = (int)LP->getNumClauses();
          json::Array cl; for (unsigned i = 0; i < LP->getNumClauses(); i++) cl.push_back(opstr(LP->getClause(i), N)); o["clauses"] = std::move(cl); }
        if (isa<CastInst>(I)) o["st"] = tystr(I.getOperand(0)->getType());
        if (isa<CmpInst>(I)) o["st"] = tystr(I.getOperand(0)->getType());
      }
      if (!ops.empty()) o["o"] = std::move(ops);
      insts.push_back(std::move(o));
    }
    blocks.push_back(std::move(insts));
  }
  fo["b"] = std::move(blocks);
  OS << json::Value(std::move(fo)) << "\n";
}

static void dump_types(Module &M, raw_ostream &OS) {
  DebugInfoFinder Fi; Fi.processModule(M);
  std::set<std::string> seen;
  for (auto *T : Fi.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Object o; o["kind"] = "enum"; o["name"] = dityname(C);
      json::Array e;
      for (auto *El : C->getElements()) if (auto *E = dyn_cast<DIEnumerator>(El)) { json::Array x; x.push_back(E->getName().str()); x.push_back((int64_t)E->getValue().getSExtValue()); e.push_back(std::move(x)); }
      o["e"] = std::move(e);
      OS << json::Value(std::move(o)) << "\n";
      continue;
    }
    if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
    std::string nm = dityname(C);
    if (!seen.insert(nm + "@" + C->getIdentifier().str()).second) continue;
    json::Object o; o["kind"] = "type"; o["name"] = nm; o["size"] = (int64_t)(C->getSizeInBits() / 8);
    o["file"] = fpath(C->getFile()); o["line"] = (int64_t)C->getLine();
    o["id"] = C->getIdentifier().str();
    json::Array mem, base, stat;
    for (auto *E : C->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(E)) {
        json::Object m;
        m["off"] = (int64_t)(D->getOffsetInBits() / 8);
        m["t"] = dityname(D->getBaseType());
        m["size"] = (int64_t)(strip(D->getBaseType()) ? strip(D->getBaseType())->getSizeInBits() / 8 : 0);
        if (D->getTag() == dwarf::DW_TAG_inheritance) { if (!(D->getFlags() & DINode::FlagVirtual)) base.push_back(std::move(m)); else { m["virtual"]=true; base.push_back(std::move(m)); } }
        else if (D->isStaticMember()) { m["n"] = D->getName().str(); stat.push_back(std::move(m)); }
        else if (D->getTag() == dwarf::DW_TAG_member) { m["n"] = D->getName().str();
          m["line"] = (int64_t)D->getLine();
          mem.push_back(std::move(m)); }
      } else if (auto *SP = dyn_cast<DISubprogram>(E)) { (void)SP; }
    }
    o["m"] = std::move(mem); o["bases"] = std::move(base); o["statics"] = std::move(stat);
    OS << json::Value(std::move(o)) << "\n";
  }
}

static void dump_globals(Module &M, raw_ostream &OS) {
  for (auto &G : M.globals()) {
    json::Object o; o["kind"] = "global"; o["name"] = G.getName().str(); o["dem"] = dem(G.getName());
    o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal(); o["decl"] = G.isDeclaration();
    o["t"] = tystr(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      o["file"] = fpath(V->getFile()); o["line"] = (int64_t)V->getLine(); o["dity"] = dityname(V->getType()); o["n"] = V->getName().str();
      if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) o["infn"] = SP->getName().str();
    }
    if (G.hasInitializer()) {
      const Constant *C = G.getInitializer();
      if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        json::Array a;
        if (CD->getElementType()->isIntegerTy())
          for (unsigned i = 0; i < CD->getNumElements() && i < 70000; i++) a.push_back((int64_t)CD->getElementAsInteger(i));
        o["init"] = std::move(a);
        o["esz"] = (int64_t)CD->getElementByteSize();
      } else if (C->isZeroValue()) o["zero"] = true;
      else if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        Namer N; json::Array a;
        for (unsigned i = 0; i < CA->getNumOperands() && i < 5000; i++) {
          auto *E = CA->getOperand(i);
          if (auto *S = dyn_cast<ConstantAggregate>(E)) { json::Array b; for (unsigned j = 0; j < S->getNumOperands(); j++) b.push_back(opstr(S->getOperand(j), N)); a.push_back(std::move(b)); }
          else if (auto *D = dyn_cast<ConstantDataSequential>(E)) { json::Array b; if (D->getElementType()->isIntegerTy()) for (unsigned j = 0; j < D->getNumElements(); j++) b.push_back((int64_t)D->getElementAsInteger(j)); a.push_back(std::move(b)); }
          else a.push_back(opstr(E, N));
        }
        o["agg"] = std::move(a);
      } else if (C->getType()->isPointerTy()) {
        Namer N; o["pinit"] = opstr(C, N);
      } else if (auto *CI = dyn_cast<ConstantInt>(C)) o["ival"] = CI->getValue().getSExtValue();
    }
    bool ro = true;
    for (auto *U : G.users()) if (!isa<LoadInst>(U)) ro = false;
    o["onlyloaded"] = ro;
    OS << json::Value(std::move(o)) << "\n";
  }
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  std::string dumpext;
  std::vector<std::regex> rdump;
  {
    std::ifstream in(argv[2]); std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      auto sp = line.find(' '); std::string k = line.substr(0, sp), v = line.substr(sp + 1);
      auto flags = std::regex::ECMAScript | std::regex::optimize;
      if (k == "lib") rlib.emplace_back(v, flags);
      else if (k == "inline") rinline.emplace_back(v, flags);
      else if (k == "keepx") xclasses.push_back(v);
      else if (k == "keep") rkeep.emplace_back(v, flags);
      else if (k == "dump") rdump.emplace_back(v, flags);
      else if (k == "repo") repo_prefix = v;
      else if (k == "max") maxsize = std::stoul(v);
      else if (k == "cse") cse = v == "1";
    }
  }
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    SMDiagnostic E;
    auto X = parseIRFile(argv[i], E, Ctx);
    if (!X) { E.print("irdump", errs()); return 2; }
    if (!M) M = std::move(X);
    else if (Linker::linkModules(*M, std::move(X))) { errs() << "link failed " << argv[i] << "\n"; return 2; }
  }
  {
    std::vector<GlobalAlias *> al;
    for (auto &A : M->aliases()) al.push_back(&A);
    for (auto *A : al) if (auto *F = dyn_cast_or_null<Function>(A->getAliaseeObject())) A->replaceAllUsesWith(F);
  }
  DL = &M->getDataLayout();
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FAMp = &FAM;
  std::error_code EC; raw_fd_ostream OS(argv[1], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  std::vector<Function *> roots;
  for (auto &F : *M) if (!F.isDeclaration()) { Kind k = kind_of(F); if (k == LIB || k == KEEP || any_match(rdump, dem(F.getName()))) roots.push_back(&F); }
  for (auto *F : roots) {
    int nc = 0, na = 0;
    for (auto &U : F->uses()) {
      auto *CB = dyn_cast<CallBase>(U.getUser());
      if (CB && CB->isCallee(&U)) { if (kind_of(*CB->getFunction()) == LIB) nc++; else na++; }
      else na++;
    }
    usage[F] = {nc, na};
  }
  for (auto *F : roots) process(*F);
  size_t nf = 0;
  for (auto *F : roots) { dump_function(*F, OS); nf++; }
  dump_types(*M, OS);
  dump_globals(*M, OS);
  json::Object s; s["kind"] = "stats"; s["functions"] = (int64_t)nf; s["inlined"] = n_inlined; s["recursive"] = n_recursive; s["toobig"] = n_toobig;
  OS << json::Value(std::move(s)) << "\n";
  return 0;
}
