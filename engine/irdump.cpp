// irdump: reads LLVM bitcode modules, links them, inlines everything that is
// not an anchor function of the analysed project (and the trivial accessors of
// the standard library), promotes locals to SSA, and writes the result as JSON.
// usage: irdump <root> <anchors.txt> <out.json> a.bc b.bc ...
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
using namespace llvm;
static std::string Root;
static std::set<std::string> Anchors;
static Function *callee(const CallBase *C) {
  Value *V = C->getCalledOperand()->stripPointerCasts();
  while (auto *A = dyn_cast<GlobalAlias>(V)) V = A->getAliasee()->stripPointerCasts();
  return dyn_cast<Function>(V);
}
static std::string dem(StringRef n) { return demangle(n.str()); }

static std::string diFile(const DIScope *S) {
  if (!S) return "";
  auto *F = S->getFile();
  if (!F) return "";
  std::string d = F->getDirectory().str(), n = F->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return d + "/" + n;
}
static bool inRepo(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP) return false;
  // several roots can be given, separated by ':'
  std::string P = diFile(SP); size_t a = 0;
  while (a <= Root.size()) {
    size_t b = Root.find(':', a);
    if (b == std::string::npos) b = Root.size();
    if (b > a && P.compare(0, b - a, Root, a, b - a) == 0) return true;
    a = b + 1;
  }
  return false;
}
// Class::name (or plain name) of a function, from its debug info
static std::string shortName(const Function &F) {
  auto *SP = F.getSubprogram();
  if (!SP) return dem(F.getName());
  std::string n = SP->getName().str();
  if (auto *Sc = SP->getScope())
    if (auto *CT = dyn_cast<DICompositeType>(Sc)) n = CT->getName().str() + "::" + n;
  return n;
}
// trivial standard library functions that are worth seeing through
static bool stlInline(const std::string &d) {
  // d is the demangled name; members of class templates come without a return
  // type, function templates with one
  static const std::regex R(
      "std::vector<.*>::(operator\\[\\]|begin|end|cbegin|cend|rbegin|rend|size|empty|front|back|data)\\([^)]*\\)( const)?"
      "|__gnu_cxx::__normal_iterator<.*>::[^:]*"
      "|[^(]*__gnu_cxx::operator[^(]*<[^(]*>\\(__gnu_cxx::__normal_iterator.*"
      "|[^(]*__gnu_cxx::__ops::.*"
      "|std::(reverse_iterator|initializer_list|array|pair|tuple)<.*>::[^:]*"
      "|[^(]* std::(reverse_iterator|pair|operator==|operator!=)<.*"
      "|[^(]*(^| )std::(__)?(find|find_if|find_if_not|any_of|all_of|none_of|count|count_if|for_each|accumulate|max_element|min_element|fill|fill_n|transform|iter_swap|swap|min|max|move|forward|addressof|__addressof|begin|end|cbegin|cend|next|prev|advance|distance|iterator_category|niter_base|niter_wrap|find_if_helper|pred_iter|abs|get|make_pair|exchange|as_const)(<.*>)?\\(.*"
      "|[^(]*(^| )std::(__find_if|__find_if_not|__count_if|__max_element|__min_element|__iterator_category|__advance|__distance|__niter_base|__niter_wrap|__fill_a|__fill_a1|__fill_n_a|__miter_base|__size_to_integer)<.*"
      "|std::bitset<.*>::.*|std::_Base_bitset<.*|std::_Sanitize.*|[^(]*std::operator[&|^]<[0-9]+ul>.*"
      "|[^(]*std::(unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|_Head_base|_Tuple_impl|default_delete)<.*");
  static const std::regex No("std::bitset<.*>::(_M_to_string|_M_copy|to_string|_M_check).*|.*(ostream|istream).*");
  if (std::regex_match(d, No)) return false;
  return std::regex_match(d, R);
}
struct Out {
  Module &M;
  json::OStream J;
  std::map<const Value *, int> id;
  std::map<const DIType *, int> tyId;
  std::vector<const DIType *> tys;
  Out(Module &M, raw_ostream &O) : M(M), J(O) {}
  int ty(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
      auto t = D->getTag();
      if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) T = D->getBaseType();
      else break;
    }
    if (!T) return -1;
    auto it = tyId.find(T);
    if (it != tyId.end()) return it->second;
    int n = tys.size();
    tyId[T] = n;
    tys.push_back(T);
    return n;
  }
  std::string llty(Type *T) { std::string s; raw_string_ostream o(s); if (auto *S = dyn_cast<StructType>(T)) { if (S->hasName()) return S->getName().str(); } T->print(o); return s; }
  uint64_t szOf(Type *T) { return T->isSized() ? (uint64_t)M.getDataLayout().getTypeAllocSize(T) : 0; }
  uint64_t bits(Type *T) { return T->isSized() ? (uint64_t)M.getDataLayout().getTypeSizeInBits(T) : 0; }
  void operand(const Value *V) {
    J.array([&] {
      if (auto *I = dyn_cast<Instruction>(V)) { J.value("i"); J.value(id[I]); return; }
      if (auto *A = dyn_cast<Argument>(V)) { J.value("a"); J.value((int64_t)A->getArgNo()); return; }
      if (auto *C = dyn_cast<ConstantInt>(V)) {
        J.value("c");
        if (C->getBitWidth() <= 64) J.value(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue()); else J.value(0);
        return; }
      if (auto *C = dyn_cast<ConstantFP>(V)) { J.value("f"); bool li; APFloat F = C->getValueAPF(); F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); double d = F.convertToDouble(); std::string s; raw_string_ostream(s) << format("%.17g", d); J.value(s); return; }
      if (isa<ConstantPointerNull>(V)) { J.value("n"); return; }
      if (isa<UndefValue>(V)) { J.value("u"); return; }
      if (auto *GV = dyn_cast<GlobalValue>(V)) { J.value("g"); J.value(GV->getName()); J.value(0); return; }
      if (isa<ConstantAggregateZero>(V)) { J.value("z"); return; }
      if (auto *CE = dyn_cast<ConstantExpr>(V)) {
        APInt off(64, 0);
        if (CE->getType()->isPointerTy()) {
          const Value *B = CE->stripAndAccumulateConstantOffsets(M.getDataLayout(), off, true);
          if (auto *GV = dyn_cast<GlobalValue>(B)) { J.value("g"); J.value(GV->getName()); J.value(off.getSExtValue()); return; }
        }
        J.value("x"); J.value("constexpr"); return; }
      if (isa<BasicBlock>(V)) { J.value("b"); J.value(id[V]); return; }
      J.value("x"); J.value("other");
    });
  }
  void loc(const Instruction &I) {
    if (auto &L = I.getDebugLoc()) {
      J.attribute("ln", L.getLine());
      auto *S = cast<DIScope>(L.getScope());
      J.attribute("fl", diFile(S));
      if (auto *IA = L.getInlinedAt()) {
        const DILocation *O = IA;
        while (O->getInlinedAt()) O = O->getInlinedAt();
        J.attribute("iln", O->getLine());
        if (auto *SP = L->getScope()->getSubprogram()) J.attribute("ifn", SP->getName());
      }
    }
  }
  void instr(const Instruction &I) {
    J.object([&] {
      J.attribute("id", id[&I]);
      J.attribute("op", I.getOpcodeName());
      J.attribute("w", (int64_t)(I.getType()->isVoidTy() ? 0 : bits(I.getType())));
      if (I.getType()->isPointerTy()) J.attribute("p", 1);
      if (I.getType()->isFloatingPointTy()) J.attribute("fp", 1);
      loc(I);
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("ty", llty(A->getAllocatedType()));
        J.attribute("sz", (int64_t)szOf(A->getAllocatedType()));
        J.attribute("nm", A->getName());
        for (auto *U : findDbgDeclares(const_cast<AllocaInst *>(A)))
          if (auto *DV = U->getVariable()) { J.attribute("var", DV->getName()); J.attribute("di", ty(DV->getType())); break; }
        return;
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> VO; APInt C(64, 0);
        J.attribute("src", llty(G->getSourceElementType()));
        J.attribute("esz", (int64_t)szOf(G->getSourceElementType()));
        bool ok = cast<GEPOperator>(G)->collectOffset(M.getDataLayout(), 64, VO, C);
        J.attributeBegin("o"); J.array([&] { operand(G->getPointerOperand()); }); J.attributeEnd();
        J.attribute("ok", ok);
        J.attribute("co", C.getSExtValue());
        J.attributeBegin("vo");
        J.array([&] { for (auto &P : VO) J.array([&] { operand(P.first); J.value(P.second.getSExtValue()); }); });
        J.attributeEnd();
        return;
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeBegin("in");
        J.array([&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) J.array([&] { J.value(id[P->getIncomingBlock(k)]); operand(P->getIncomingValue(k)); }); });
        J.attributeEnd();
        return;
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) { J.attribute("pr", CmpInst::getPredicateName(C->getPredicate())); J.attribute("ow", (int64_t)bits(C->getOperand(0)->getType())); if (C->getOperand(0)->getType()->isPointerTy()) J.attribute("op_p", 1); }
      if (isa<CastInst>(&I)) J.attribute("fw", (int64_t)bits(I.getOperand(0)->getType()));
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sw", (int64_t)bits(S->getValueOperand()->getType())); if (S->getValueOperand()->getType()->isPointerTy()) J.attribute("sp", 1); if (S->getValueOperand()->getType()->isFloatingPointTy()) J.attribute("sfp", 1); }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) { J.attributeBegin("ix"); J.array([&] { for (unsigned k : E->indices()) J.value((int64_t)k); }); J.attributeEnd(); 
        // byte offset within the aggregate
        Type *T = E->getAggregateOperand()->getType(); uint64_t off = 0;
        for (unsigned k : E->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { off += M.getDataLayout().getStructLayout(ST)->getElementOffset(k); T = ST->getElementType(k); } else { T = cast<ArrayType>(T)->getElementType(); off += k * szOf(T); } }
        J.attribute("eo", (int64_t)off); }
      if (auto *E = dyn_cast<InsertValueInst>(&I)) {
        Type *T = E->getAggregateOperand()->getType(); uint64_t off = 0;
        for (unsigned k : E->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { off += M.getDataLayout().getStructLayout(ST)->getElementOffset(k); T = ST->getElementType(k); } else { T = cast<ArrayType>(T)->getElementType(); off += k * szOf(T); } }
        J.attribute("eo", (int64_t)off); J.attribute("iw", (int64_t)bits(E->getInsertedValueOperand()->getType())); }
      if (auto *SW = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("o"); J.array([&] { operand(SW->getCondition()); }); J.attributeEnd();
        J.attribute("def", id[SW->getDefaultDest()]);
        J.attributeBegin("cs"); J.array([&] { for (auto &C : SW->cases()) J.array([&] { J.value(C.getCaseValue()->getSExtValue()); J.value(id[C.getCaseSuccessor()]); }); }); J.attributeEnd();
        return;
      }
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        J.attributeBegin("o"); J.array([&] { if (B->isConditional()) operand(B->getCondition()); }); J.attributeEnd();
        J.attributeBegin("sc"); J.array([&] { for (unsigned k = 0; k < B->getNumSuccessors(); k++) J.value(id[B->getSuccessor(k)]); }); J.attributeEnd();
        return;
      }
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (auto *F = callee(C)) { J.attribute("fn", F->getName()); J.attribute("dn", dem(F->getName())); if (inRepo(*F)) J.attribute("rn", shortName(*F)); 
          if (F->doesNotReturn()) J.attribute("nr", 1); if (F->isDeclaration()) J.attribute("ext", 1); }
        else J.attribute("ind", 1);
        J.attributeBegin("o"); J.array([&] { for (auto &A : C->args()) operand(A); }); J.attributeEnd();
        J.attributeBegin("aw"); J.array([&] { for (auto &A : C->args()) J.value((int64_t)(A->getType()->isPointerTy() ? -1 : (int64_t)bits(A->getType()))); }); J.attributeEnd();
        if (C->arg_size() && C->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", 1);
        if (auto *Iv = dyn_cast<InvokeInst>(C)) J.attribute("nx", id[Iv->getNormalDest()]);
        return;
      }
      J.attributeBegin("o"); J.array([&] { for (auto &O : I.operands()) operand(O); }); J.attributeEnd();
    });
  }
  void func(Function &F) {
    id.clear();
    int n = 0;
    for (auto &B : F) { id[&B] = n++; }
    n = 0;
    for (auto &B : F) for (auto &I : B) id[&I] = n++;
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dn", dem(F.getName()));
      J.attribute("sn", shortName(F));
      J.attribute("repo", inRepo(F));
      if (auto *SP = F.getSubprogram()) {
        J.attribute("file", diFile(SP)); J.attribute("line", SP->getLine());
        J.attributeBegin("pty"); J.array([&] { if (auto *T = SP->getType()) for (auto *E : T->getTypeArray()) J.value(ty(E)); }); J.attributeEnd();
        J.attributeBegin("pnm"); J.array([&] { for (auto *N : SP->getRetainedNodes()) if (auto *L = dyn_cast<DILocalVariable>(N)) if (L->getArg()) J.array([&] { J.value((int64_t)L->getArg()); J.value(L->getName()); }); }); J.attributeEnd();
      }
      J.attributeBegin("args"); J.array([&] { for (auto &A : F.args()) J.object([&] { J.attribute("nm", A.getName()); J.attribute("ty", llty(A.getType())); if (A.hasStructRetAttr()) J.attribute("sret", 1); if (A.hasAttribute(Attribute::ByVal)) J.attribute("byval", 1); }); }); J.attributeEnd();
      J.attribute("ret", llty(F.getReturnType()));
      if (F.isDeclaration()) return;
      J.attributeBegin("blocks");
      J.array([&] { for (auto &B : F) J.array([&] { for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) instr(I); }); });
      J.attributeEnd();
      DominatorTree DT(F); LoopInfo LI(DT);
      J.attributeBegin("loops");
      J.array([&] { for (auto *L : LI.getLoopsInPreorder()) J.object([&] {
        J.attribute("h", id[L->getHeader()]); J.attribute("p", L->getParentLoop() ? (int64_t)id[L->getParentLoop()->getHeader()] : -1);
        J.attributeBegin("b"); J.array([&] { for (auto *B : L->blocks()) J.value(id[B]); }); J.attributeEnd();
        SmallVector<BasicBlock *, 4> Ls; L->getLoopLatches(Ls);
        J.attributeBegin("l"); J.array([&] { for (auto *B : Ls) J.value(id[B]); }); J.attributeEnd();
        J.attribute("ln", L->getStartLoc() ? (int64_t)L->getStartLoc().getLine() : 0); }); });
      J.attributeEnd();
    });
  }
  void types() {
    J.array([&] {
      for (size_t k = 0; k < tys.size(); k++) J.object([&] {
        auto *T = tys[k];
        J.attribute("n", T->getName()); J.attribute("s", (int64_t)(T->getSizeInBits() / 8)); J.attribute("t", dwarf::TagString(T->getTag()));
        if (auto *D = dyn_cast<DIDerivedType>(T)) J.attribute("b", ty(D->getBaseType()));
        if (auto *C = dyn_cast<DICompositeType>(T)) {
          if (C->getTag() == dwarf::DW_TAG_array_type || C->getTag() == dwarf::DW_TAG_enumeration_type) {
            J.attribute("b", ty(C->getBaseType()));
            if (C->getTag() == dwarf::DW_TAG_enumeration_type) { J.attributeBegin("en"); J.array([&] { for (auto *E : C->getElements()) if (auto *N = dyn_cast<DIEnumerator>(E)) J.array([&] { J.value(N->getName()); J.value(N->getValue().getSExtValue()); }); }); J.attributeEnd(); }
          } else {
          J.attribute("f", diFile(C));
          J.attributeBegin("m");
          J.array([&] { for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if ((D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance) && !D->isStaticMember())
              J.array([&] { J.value(D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName()); J.value((int64_t)(D->getOffsetInBits() / 8)); J.value(ty(D->getBaseType())); }); });
          J.attributeEnd();
          J.attributeBegin("tp"); J.array([&] { for (auto *P : C->getTemplateParams()) if (auto *TP = dyn_cast<DITemplateTypeParameter>(P)) J.value(ty(TP->getType())); }); J.attributeEnd();
          }
        }
      });
    });
  }
};
int main(int argc, char **argv) {
  Root = argv[1];
  { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) if (!l.empty()) Anchors.insert(l); }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (int k = 4; k < argc; k++) {
    auto N = parseIRFile(argv[k], E, C);
    if (!N) { E.print("irdump", errs()); return 2; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N))) return 2;
  }
  // inline bottom-up until nothing changes
  auto wanted = [&](Function &F) {
    if (F.isDeclaration()) return false;
    if (inRepo(F)) return !Anchors.count(shortName(F)) && F.getName() != "main";
    return stlInline(dem(F.getName()));
  };
  std::map<Function *, bool> W;
  for (auto &F : *M) W[&F] = wanted(F);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  for (auto &F : *M)
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (!CB->getCalledFunction() && !CB->isInlineAsm())
          if (auto *T = callee(CB))
            if (T->getFunctionType() == CB->getFunctionType()) CB->setCalledFunction(T);
  for (auto &F : *M) {
    if (F.isDeclaration() || !inRepo(F)) continue;
    unsigned rounds = 0, done = 0;
    bool ch = true;
    while (ch && rounds++ < 25 && done < 4000) {
      ch = false;
      std::vector<CallBase *> CS;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *T = CB->getCalledFunction()) if (T != &F && W[T]) CS.push_back(CB);
      for (auto *CB : CS) {
        InlineFunctionInfo IFI;
        if (InlineFunction(*CB, IFI).isSuccess()) { ch = true; done++; }
      }
    }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto Er = PB.parsePassPipeline(MPM, "function(mem2reg)")) { errs() << "bad pipeline\n"; return 2; }
  MPM.run(*M, MAM);
  std::error_code EC; raw_fd_ostream O(argv[3], EC);
  Out out(*M, O);
  out.J.object([&] {
    out.J.attributeBegin("functions");
    out.J.array([&] { for (auto &F : *M) { if (F.isIntrinsic()) continue; if (!F.isDeclaration() && inRepo(F)) out.func(F); } });
    out.J.attributeEnd();
    out.J.attributeBegin("globals");
    out.J.array([&] { for (auto &G : M->globals()) out.J.object([&] {
      out.J.attribute("name", G.getName()); out.J.attribute("const", G.isConstant());
      SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
      if (!GVs.empty()) { out.J.attribute("var", GVs[0]->getVariable()->getName()); out.J.attribute("di", out.ty(GVs[0]->getVariable()->getType())); }
      if (G.hasInitializer()) if (auto *A = dyn_cast<ConstantDataArray>(G.getInitializer())) if (A->isString()) { std::string s = A->getAsString().str(); out.J.attribute("str", json::fixUTF8(s)); }
      if (G.hasInitializer() && isa<ConstantAggregateZero>(G.getInitializer())) out.J.attribute("str", std::string(1, '\0'));
      if (G.hasInitializer()) if (auto *CI = dyn_cast<ConstantInt>(G.getInitializer())) out.J.attribute("val", CI->getSExtValue());
    }); });
    out.J.attributeEnd();
    out.J.attributeBegin("types"); out.types(); out.J.attributeEnd();
  });
  return 0;
}
