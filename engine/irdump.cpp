// irdump: lower selected functions of an LLVM module to a compact JSON form for the
// array-dataflow engine.  Nothing is executed; the tool inlines, canonicalises and prints.
//
//   irdump <module.bc|ll> <spec.txt> <out.json>
//
// spec.txt lines:
//   root <regex over demangled name>      summarise every function that matches
//   cut <regex over demangled name>       never inline these (they stay opaque calls)
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/IndVarSimplify.h>
#include <llvm/Transforms/Scalar/LoopPassManager.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>

#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::vector<std::regex> cuts;
struct RootSpec { std::regex re; std::vector<std::regex> nocut; };
static std::vector<RootSpec> roots;
static const RootSpec *curRoot = nullptr;

static std::map<std::string, std::string> demCache;
static const std::string &dem(StringRef n)
{
    auto it = demCache.find(n.str());
    if (it != demCache.end()) return it->second;
    return demCache[n.str()] = demangle(n.str());
}
// canonical spelling of a debug-info type: typedefs resolved, template arguments evaluated
static std::string diType(const DIType *T, int depth = 0)
{
    if (!T) return "void";
    if (depth > 20) return "?";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        auto *B = D->getBaseType();
        switch (D->getTag()) {
        case dwarf::DW_TAG_reference_type: return diType(B, depth + 1) + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return diType(B, depth + 1) + "&&";
        case dwarf::DW_TAG_pointer_type: return diType(B, depth + 1) + "*";
        case dwarf::DW_TAG_const_type: return diType(B, depth + 1) + " const";
        case dwarf::DW_TAG_volatile_type: return diType(B, depth + 1) + " volatile";
        default: return diType(B, depth + 1);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        std::string s = C->getName().str();
        for (auto *S = C->getScope(); S; S = S->getScope()) {
            if (isa<DINamespace>(S) || isa<DICompositeType>(S)) {
                if (S->getName() == "__1" || S->getName() == "__cxx11") continue;
                s = S->getName().str() + "::" + s;
            }
        }
        return s;
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return T->getName().str();
}
static std::map<const Function *, std::string> fnNames;
static const std::string &fname(const Function *F)
{
    auto it = fnNames.find(F);
    if (it != fnNames.end()) return it->second;
    std::string r;
    if (auto *SP = F->getSubprogram(); SP && !F->getName().starts_with("vf_")) {
        std::string s = SP->getName().str();
        for (auto *S = SP->getScope(); S; S = S->getScope())
            if (isa<DINamespace>(S) || isa<DICompositeType>(S)) s = S->getName().str() + "::" + s;
        s += "(";
        auto ty = SP->getType()->getTypeArray();
        bool member = SP->getScope() && isa<DICompositeType>(SP->getScope());
        for (unsigned i = 1; i < ty.size(); i++) {
            if (i == 1 && member && ty[i] && (ty[i]->getFlags() & DINode::FlagArtificial)) continue;
            if (s.back() != '(') s += ", ";
            s += diType(ty[i]);
        }
        r = s + ")";
    } else
        r = dem(F->getName());
    return fnNames[F] = r;
}
// qualified name without template arguments and parameters
static std::string strip(StringRef s)
{
    if (s.starts_with("operator")) {
        size_t p = 8;
        if (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) return s.str();
        while (p < s.size() && !isalnum((unsigned char)s[p]) && s[p] != '<' && s[p] != '_') p++;
        if (p == 8) while (p < s.size() && (s[p] == '<' || s[p] == '=' || s[p] == '>')) p++;
        return s.substr(0, p).str();
    }
    return s.substr(0, s.find('<')).str();
}
static std::map<const Function *, std::string> qNames;
static const std::string &qname(const Function *F)
{
    auto it = qNames.find(F);
    if (it != qNames.end()) return it->second;
    std::string r;
    if (auto *SP = F->getSubprogram()) {
        r = strip(SP->getName());
        for (auto *S = SP->getScope(); S; S = S->getScope())
            if (isa<DINamespace>(S) || isa<DICompositeType>(S)) r = strip(S->getName()) + "::" + r;
    } else {
        r = dem(F->getName());
        r = r.substr(0, r.find('('));
    }
    return qNames[F] = r;
}
static bool matches(const std::vector<std::regex> &v, const std::string &s)
{
    for (auto &r : v)
        if (std::regex_search(s, r)) return true;
    return false;
}

static void stripInvokes(Function &F)
{
    std::vector<InvokeInst *> inv;
    for (auto &BB : F)
        if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
    for (auto *II : inv) changeToCall(II);
    removeUnreachableBlocks(F);
}

// OpenMP worksharing loops: the outlined body is reduced to one iteration whose number is the (opaque) result of
// __vf_iteration(last iteration), so that a summary of the function is a summary of one iteration
struct OmpLoop { std::string name, file; unsigned line; int64_t ub; };
static std::vector<OmpLoop> ompLoops;
static void singleIteration(Function &F)
{
    std::vector<CallInst *> init, drop;
    for (auto &BB : F)
        for (auto &I : BB)
            if (auto *CI = dyn_cast<CallInst>(&I))
                if (auto *G = CI->getCalledFunction())
                    if (G->getName() == "__kmpc_for_static_fini" || G->getName().starts_with("__kmpc_dispatch_init_") || G->getName().starts_with("__kmpc_dispatch_fini_")) drop.push_back(CI);
    for (auto *CI : drop) CI->eraseFromParent();
    for (auto &BB : F)
        for (auto &I : BB)
            if (auto *CI = dyn_cast<CallInst>(&I))
                if (auto *G = CI->getCalledFunction())
                    if (G->getName().starts_with("__kmpc_for_static_init_") || G->getName().starts_with("__kmpc_dispatch_next_")) init.push_back(CI);
    if (init.empty()) return;
    for (auto *CI : init) {
        bool dyn = CI->getCalledFunction()->getName().starts_with("__kmpc_dispatch_next_");
        Value *lb = CI->getArgOperand(dyn ? 3 : 4), *ub = CI->getArgOperand(dyn ? 4 : 5);
        bool wide = CI->getCalledFunction()->getName().contains("_8");
        IRBuilder<> B(CI);
        auto *T = wide ? B.getInt64Ty() : B.getInt32Ty();
        int64_t last = -1;
        for (auto *U : ub->users())
            if (auto *S = dyn_cast<StoreInst>(U))
                if (S->getPointerOperand() == ub)
                    if (auto *C = dyn_cast<ConstantInt>(S->getValueOperand())) last = C->getZExtValue();
        auto fn = F.getParent()->getOrInsertFunction(wide ? "__vf_iteration_8" : "__vf_iteration_4", FunctionType::get(T, {B.getInt64Ty()}, false));
        Value *V = B.CreateCall(fn, {B.getInt64(last)});
        B.CreateStore(V, lb);
        B.CreateStore(V, ub);
        OmpLoop L{F.getName().str(), "", 0, last};
        if (auto &D = CI->getDebugLoc()) { L.line = D.getLine(); L.file = D->getFilename().str(); }
        ompLoops.push_back(L);
        if (dyn) CI->replaceAllUsesWith(ConstantInt::get(CI->getType(), 1));
        CI->eraseFromParent();
    }
    DominatorTree DT(F);
    LoopInfo LI(DT);
    for (auto *L : LI.getLoopsInPreorder()) {
        auto *H = L->getHeader();
        if (!H->getName().starts_with("omp.inner.for.cond") && !H->getName().starts_with("omp.dispatch.cond")) continue;
        auto *Br = dyn_cast<BranchInst>(H->getTerminator());
        if (!Br || !Br->isConditional()) continue;
        bool in0 = L->contains(Br->getSuccessor(0));
        BasicBlock *body = Br->getSuccessor(in0 ? 0 : 1), *exit = Br->getSuccessor(in0 ? 1 : 0);
        SmallVector<BasicBlock *, 4> latches;
        L->getLoopLatches(latches);
        for (auto *B : latches) B->getTerminator()->replaceSuccessorWith(H, exit);
        BranchInst::Create(body, Br);
        Br->eraseFromParent();
    }
    removeUnreachableBlocks(F);
}

static bool shouldInline(Function *Callee, Function *Root)
{
    if (!Callee || Callee->isDeclaration() || Callee == Root) return false;
    if (Callee->isIntrinsic()) return false;
    if (matches(cuts, qname(Callee)) && !(curRoot && matches(curRoot->nocut, fname(Callee)))) {
        if (auto *e = getenv("IRDUMP_CUTLOG")) { std::ofstream o(e, std::ios::app); o << qname(Callee) << "\n"; }
        return false;
    }
    return true;
}

static bool inlineAll(Function &F)
{
    // worklist inlining with a per-function budget and recursion guard
    std::map<Function *, int> count;
    bool again = true;
    int total = 0;
    while (again) {
        again = false;
        std::vector<CallBase *> calls;
        for (auto &BB : F)
            for (auto &I : BB)
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (shouldInline(CB->getCalledFunction(), &F)) calls.push_back(CB);
        for (auto *CB : calls) {
            Function *C = CB->getCalledFunction();
            if (++count[C] > 400 || ++total > 6000) return false;
            InlineFunctionInfo IFI;
            auto R = InlineFunction(*CB, IFI);
            if (R.isSuccess()) again = true;
        }
    }
    return true;
}

static int64_t curTraps = 0;   // assertions in the function before any simplification
struct Dumper {
    Function &F;
    LoopInfo &LI;
    ScalarEvolution &SE;
    const DataLayout &DL;
    json::OStream &J;
    DenseMap<const Value *, int> ids;
    DenseMap<const BasicBlock *, int> bids;
    DenseMap<const Loop *, int> lids;
    std::set<const BasicBlock *> aborts;
    std::vector<Loop *> loops;
    std::string name;

    static std::string ty(Type *T)
    {
        if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
        if (T->isPointerTy()) return "ptr";
        if (T->isDoubleTy()) return "double";
        if (T->isFloatTy()) return "float";
        if (T->isVoidTy()) return "void";
        return "agg";
    }
    // the scalar type an aggregate is made of, if it is homogeneous
    static Type *leaf(Type *T)
    {
        if (auto *A = dyn_cast<ArrayType>(T)) return leaf(A->getElementType());
        if (auto *S = dyn_cast<StructType>(T)) {
            Type *r = nullptr;
            for (auto *e : S->elements()) {
                if (auto *EA = dyn_cast<ArrayType>(e))
                    if (S->getNumElements() > 1 && EA->getElementType()->isIntegerTy(8)) continue;  // padding
                Type *l = leaf(e);
                if (!l || (r && l != r)) return nullptr;
                r = l;
            }
            return r;
        }
        return T->isIntegerTy() || T->isDoubleTy() || T->isPointerTy() ? T : nullptr;
    }
    json::Value val(const Value *V)
    {
        if (auto *C = dyn_cast<ConstantInt>(V)) {
            SmallString<32> s;
            C->getValue().toString(s, 10, true);
            return json::Array{"c", (int64_t)C->getBitWidth(), s.str().str()};
        }
        if (auto *C = dyn_cast<ConstantFP>(V)) {
            if (C->getType()->isDoubleTy()) {
                uint64_t b = C->getValueAPF().bitcastToAPInt().getZExtValue();
                return json::Array{"f", std::to_string(b)};
            }
            return json::Array{"u", "fp"};
        }
        if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
        if (isa<UndefValue>(V)) return json::Array{"undef", ty(V->getType())};
        if (isa<ConstantAggregateZero>(V)) return json::Array{"zero"};
        if (auto *G = dyn_cast<GlobalValue>(V)) return json::Array{"g", dem(G->getName())};
        if (auto *CE = dyn_cast<ConstantExpr>(V)) {
            if (auto *GO = dyn_cast<GEPOperator>(CE)) {
                APInt off(64, 0);
                if (GO->accumulateConstantOffset(DL, off))
                    return json::Array{"gep", val(GO->getPointerOperand()), off.getSExtValue()};
            }
            if (CE->isCast()) return val(CE->getOperand(0));
            return json::Array{"u", "constexpr"};
        }
        auto it = ids.find(V);
        if (it != ids.end()) return json::Array{"v", it->second};
        return json::Array{"u", "?"};
    }
    json::Value scev(const SCEV *S, int depth = 0)
    {
        if (depth > 12) return nullptr;
        switch (S->getSCEVType()) {
        case scConstant: {
            SmallString<32> s;
            cast<SCEVConstant>(S)->getAPInt().toString(s, 10, true);
            return json::Array{"c", (int64_t)cast<SCEVConstant>(S)->getAPInt().getBitWidth(), s.str().str()};
        }
        case scUnknown: {
            return json::Array{"val", val(cast<SCEVUnknown>(S)->getValue()), ty(S->getType())};
        }
        case scAddRecExpr: {
            auto *A = cast<SCEVAddRecExpr>(S);
            if (!A->isAffine() || !lids.count(A->getLoop())) return nullptr;
            auto a = scev(A->getStart(), depth + 1), b = scev(A->getStepRecurrence(SE), depth + 1);
            return json::Array{"rec", lids[A->getLoop()], std::move(a), std::move(b), ty(S->getType())};
        }
        case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
            auto *C = cast<SCEVCastExpr>(S);
            const char *n = S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext"
                            : S->getSCEVType() == scSignExtend ? "sext" : "ptrtoint";
            return json::Array{n, scev(C->getOperand(), depth + 1), ty(S->getType()), ty(C->getOperand()->getType())};
        }
        case scAddExpr: case scMulExpr: case scSMaxExpr: case scUMaxExpr: case scSMinExpr: case scUMinExpr: {
            auto *N = cast<SCEVNAryExpr>(S);
            const char *n = S->getSCEVType() == scAddExpr ? "add" : S->getSCEVType() == scMulExpr ? "mul"
                            : S->getSCEVType() == scSMaxExpr ? "smax" : S->getSCEVType() == scUMaxExpr ? "umax"
                            : S->getSCEVType() == scSMinExpr ? "smin" : "umin";
            json::Array r{n, ty(S->getType())};
            for (auto *o : N->operands()) r.push_back(scev(o, depth + 1));
            return std::move(r);
        }
        case scUDivExpr: {
            auto *D = cast<SCEVUDivExpr>(S);
            return json::Array{"udiv", scev(D->getLHS(), depth + 1), scev(D->getRHS(), depth + 1), ty(S->getType())};
        }
        default: return nullptr;
        }
    }
    void run()
    {
        int n = 0;
        for (auto &A : F.args()) ids[&A] = n++;
        ReversePostOrderTraversal<Function *> RPO(&F);
        int b = 0;
        for (auto *BB : RPO) bids[BB] = b++;
        for (auto *BB : RPO)
            for (auto &I : *BB)
                ids[&I] = n++;
        for (bool ch = true; ch;) {
            ch = false;
            for (auto *BB : RPO) {
                if (aborts.count(BB)) continue;
                auto *T = BB->getTerminator();
                bool a = isa<UnreachableInst>(T);
                if (!a && T->getNumSuccessors()) {
                    a = true;
                    for (auto *q : successors(BB)) a &= aborts.count(q) > 0;
                }
                if (a) aborts.insert(BB), ch = true;
            }
        }
        for (auto *L : LI.getLoopsInPreorder()) {
            lids[L] = loops.size();
            loops.push_back(L);
        }
        J.object([&] {
            J.attribute("name", name);
            J.attribute("mangled", F.getName());
            J.attribute("traps", curTraps);
            if (auto *SP = F.getSubprogram()) {
                J.attribute("file", (SP->getDirectory() + "/" + SP->getFilename()).str());
                J.attribute("line", (int64_t)SP->getLine());
            }
            J.attribute("ret", ty(F.getReturnType()));
            J.attributeArray("args", [&] {
                for (auto &A : F.args())
                    J.object([&] {
                        J.attribute("id", ids[&A]);
                        J.attribute("ty", ty(A.getType()));
                        J.attribute("name", A.getName());
                        J.attribute("sret", A.hasStructRetAttr());
                        if (A.hasStructRetAttr())
                            J.attribute("size", (int64_t)DL.getTypeAllocSize(A.getParamStructRetType()));
                        else if (A.getType()->isPointerTy())
                            J.attribute("size", (int64_t)A.getDereferenceableBytes());
                        if (A.getType()->isPointerTy() && A.getParamAlign()) J.attribute("align", (int64_t)A.getParamAlign()->value());
                    });
            });
            J.attributeArray("loops", [&] {
                for (auto *L : loops)
                    J.object([&] {
                        J.attribute("id", lids[L]);
                        J.attribute("header", bids[L->getHeader()]);
                        J.attribute("parent", L->getParentLoop() ? lids[L->getParentLoop()] : -1);
                        J.attribute("latch", L->getLoopLatch() ? bids[L->getLoopLatch()] : -1);
                        J.attribute("preheader", L->getLoopPreheader() ? bids[L->getLoopPreheader()] : -1);
                        SmallVector<BasicBlock *, 4> ex;
                        L->getExitingBlocks(ex);
                        J.attributeArray("exiting", [&] { for (auto *x : ex) J.value(bids[x]); });
                        J.attributeArray("blocks", [&] { for (auto *x : L->blocks()) J.value(bids[x]); });
                        // exits into blocks that only abort do not end the iteration space
                        const SCEV *B = nullptr;
                        for (auto *x : ex) {
                            bool live = false;
                            for (auto *q : successors(x))
                                if (!L->contains(q) && !aborts.count(q)) live = true;
                            if (!live) continue;
                            const SCEV *C = SE.getExitCount(L, x);
                            if (!B || isa<SCEVCouldNotCompute>(C)) B = C;
                            else if (!isa<SCEVCouldNotCompute>(B)) B = SE.getUMinFromMismatchedTypes(B, C);
                        }
                        if (!B) B = SE.getBackedgeTakenCount(L);
                        if (isa<SCEVCouldNotCompute>(B)) J.attribute("btc", nullptr);
                        else { J.attribute("btc", scev(B)); }
                        J.attributeArray("phis", [&] {
                            for (auto &P : L->getHeader()->phis()) {
                                if (!SE.isSCEVable(P.getType())) continue;
                                const SCEV *S = SE.getSCEV(&P);
                                if (auto *A = dyn_cast<SCEVAddRecExpr>(S))
                                    if (A->getLoop() == L && A->isAffine())
                                        J.object([&] {
                                            J.attribute("id", ids[&P]);
                                            J.attribute("step", scev(A->getStepRecurrence(SE)));
                                        });
                            }
                        });
                    });
            });
            J.attributeArray("blocks", [&] {
                for (auto *BB : RPO) J.object([&] {
                        J.attribute("id", bids[BB]);
                        Loop *L = LI.getLoopFor(BB);
                        J.attribute("loop", L ? lids[L] : -1);
                        J.attributeArray("insts", [&] {
                            for (auto &I : *BB) inst(I);
                        });
                    });
            });
        });
    }
    void inst(Instruction &I)
    {
        if (isa<DbgInfoIntrinsic>(&I)) return;
        J.object([&] {
            J.attribute("id", ids[&I]);
            J.attribute("ty", ty(I.getType()));
            if (I.getType()->isStructTy() || I.getType()->isArrayTy() || I.getType()->isVectorTy())
                J.attribute("size", (int64_t)DL.getTypeStoreSize(I.getType()));
            if (auto &Loc = I.getDebugLoc()) {
                // the innermost location outside the standard library
                const DILocation *D = Loc.get();
                while (D->getInlinedAt() && D->getFilename().contains("/c++/")) D = D->getInlinedAt();
                J.attribute("line", (int64_t)D->getLine());
                J.attribute("file", D->getFilename());
            }
            if (auto *P = dyn_cast<PHINode>(&I)) {
                J.attribute("op", "phi");
                J.attributeArray("inc", [&] {
                    for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                        J.value(json::Array{bids.count(P->getIncomingBlock(i)) ? bids[P->getIncomingBlock(i)] : -1,
                                            val(P->getIncomingValue(i))});
                });
                return;
            }
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                J.attribute("op", "gep");
                MapVector<Value *, APInt> var;
                APInt c(64, 0);
                if (G->getType()->isVectorTy() || !G->collectOffset(DL, 64, var, c)) {
                    J.attribute("bad", true);
                    return;
                }
                J.attribute("base", val(G->getPointerOperand()));
                J.attribute("off", c.getSExtValue());
                J.attributeArray("idx", [&] {
                    for (auto &kv : var)
                        J.value(json::Array{val(kv.first), kv.second.getSExtValue(), ty(kv.first->getType())});
                });
                return;
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
                J.attribute("op", "alloca");
                auto sz = A->getAllocationSize(DL);
                J.attribute("bytes", sz ? (int64_t)sz->getFixedValue() : -1);
                J.attribute("align", (int64_t)A->getAlign().value());
                J.attribute("name", A->getName());
                Type *lt = leaf(A->getAllocatedType());
                if (lt) J.attribute("leaf", ty(lt));
                return;
            }
            if (auto *C = dyn_cast<CallBase>(&I)) {
                J.attribute("op", "call");
                Function *Cal = C->getCalledFunction();
                if (!Cal)
                    if (auto *GA = dyn_cast<GlobalAlias>(C->getCalledOperand()->stripPointerCasts()))
                        J.attribute("callee", dem(GA->getName()));
                if (Cal) {
                    J.attribute("callee", fname(Cal));
                    J.attribute("decl", Cal->isDeclaration());
                    if (auto *SP = Cal->getSubprogram()) {
                        // sizes of the pointees of pointer/reference parameters, from the debug types
                        auto ty = SP->getType()->getTypeArray();
                        J.attributeArray("disz", [&] {
                            for (unsigned i = 1; i < ty.size(); i++) {
                                uint64_t s = 0;
                                const DIType *T = ty[i];
                                while (T && isa<DIDerivedType>(T)) {
                                    auto *D = cast<DIDerivedType>(T);
                                    T = D->getBaseType();
                                }
                                if (T) s = T->getSizeInBits() / 8;
                                J.value((int64_t)s);
                            }
                        });
                    }
                    J.attribute("noreturn", Cal->doesNotReturn());
                    if (C->onlyReadsMemory()) J.attribute("readonly", true);
                    if (C->doesNotAccessMemory()) J.attribute("readnone", true);
                }
                J.attributeArray("ops", [&] { for (auto &a : C->args()) J.value(val(a.get())); });
                J.attributeArray("argsz", [&] {
                    for (unsigned i = 0; i < C->arg_size(); i++) {
                        uint64_t s = 0;
                        if (C->getArgOperand(i)->getType()->isPointerTy()) {
                            if (C->paramHasAttr(i, Attribute::StructRet))
                                s = DL.getTypeAllocSize(C->getParamStructRetType(i));
                            else
                                s = C->getParamDereferenceableBytes(i);
                            if (!s && Cal && i < Cal->arg_size()) s = Cal->getArg(i)->getDereferenceableBytes();
                        }
                        J.value((int64_t)s);
                    }
                });
                J.attributeArray("argro", [&] {
                    for (unsigned i = 0; i < C->arg_size(); i++)
                        J.value(C->getArgOperand(i)->getType()->isPointerTy() && C->onlyReadsMemory(i));
                });
                return;
            }
            J.attribute("op", I.getOpcodeName());
            if (auto *C = dyn_cast<CmpInst>(&I)) {
                J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
                J.attribute("opty", ty(C->getOperand(0)->getType()));
            }
            if (isa<CastInst>(&I)) J.attribute("opty", ty(I.getOperand(0)->getType()));
            if (auto *S = dyn_cast<StoreInst>(&I)) {
                J.attribute("opty", ty(S->getValueOperand()->getType()));
                J.attribute("bytes", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()));
            }
            if (auto *L = dyn_cast<LoadInst>(&I)) {
                J.attribute("bytes", (int64_t)DL.getTypeStoreSize(L->getType()));
                if (L->isVolatile()) J.attribute("volatile", true);
            }
            if (auto *B = dyn_cast<BranchInst>(&I)) {
                J.attributeArray("succ", [&] { for (unsigned i = 0; i < B->getNumSuccessors(); i++) J.value(bids[B->getSuccessor(i)]); });
                if (B->isConditional()) J.attribute("cond", val(B->getCondition()));
                return;
            }
            if (auto *S = dyn_cast<SwitchInst>(&I)) {
                J.attribute("cond", val(S->getCondition()));
                J.attribute("default", bids[S->getDefaultDest()]);
                J.attributeArray("cases", [&] {
                    for (auto &c : S->cases())
                        J.value(json::Array{val(c.getCaseValue()), bids[c.getCaseSuccessor()]});
                });
                return;
            }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
                J.attributeArray("indices", [&] { for (auto i : E->indices()) J.value((int64_t)i); });
            }
            J.attributeArray("ops", [&] { for (auto &o : I.operands()) J.value(val(o.get())); });
        });
    }
};

static bool omp = false;     // spec line "omp": every outlined parallel region is a root
static RootSpec ompRoot;
int main(int argc, char **argv)
{
    if (argc < 4) { std::cerr << "usage\n"; return 2; }
    {
        std::ifstream f(argv[2]);
        std::string kind, rest;
        while (f >> kind) {
            std::getline(f, rest);
            rest.erase(0, rest.find_first_not_of(' '));
            if (kind == "root") {
                // root <regex>\t<nocut>\t<nocut>...
                RootSpec r; size_t p = rest.find('\t');
                r.re = std::regex(rest.substr(0, p));
                while (p != std::string::npos) {
                    size_t q = rest.find('\t', p + 1);
                    r.nocut.emplace_back(rest.substr(p + 1, q == std::string::npos ? q : q - p - 1));
                    p = q;
                }
                roots.push_back(r);
            }
            else if (kind == "omp") omp = true;
            else if (kind == "cut") cuts.emplace_back(rest);
        }
    }
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print(argv[0], errs()); return 2; }

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

    // constructors may be emitted as aliases of one another
    for (auto &A : M->aliases())
        if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) A.replaceAllUsesWith(F);

    std::vector<std::pair<Function *, const RootSpec *>> rs;
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        if (!F.isDeclaration()) stripInvokes(F);
        if (!F.isDeclaration() && omp) {
            singleIteration(F);
            if (F.getName().contains(".omp_outlined_debug__")) rs.push_back({&F, &ompRoot});
        }
        if (!F.isDeclaration())
            for (auto &r : roots)
                if (std::regex_search(fname(&F), r.re)) { rs.push_back({&F, &r}); break; }
    }
    // light clean-up of every callee first keeps inlined bodies small
    {
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(false));
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false)));
        for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
        FAM.clear();
    }
    std::error_code EC;
    raw_fd_ostream os(argv[3], EC);
    json::OStream J(os);
    J.objectBegin();
    J.attributeArray("globals", [&] {
        for (auto &G : M->globals()) {
            if (G.getName().starts_with("llvm.")) continue;
            J.object([&] {
                J.attribute("name", dem(G.getName()));
                J.attribute("const", G.isConstant());
                J.attribute("tls", G.isThreadLocal());
                J.attribute("size", (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()));
                if (G.hasInitializer()) {
                    if (auto *C = dyn_cast<ConstantInt>(G.getInitializer())) {
                        SmallString<32> s; C->getValue().toString(s, 10, true);
                        J.attribute("int", s.str());
                    } else if (auto *C = dyn_cast<ConstantFP>(G.getInitializer())) {
                        if (C->getType()->isDoubleTy())
                            J.attribute("fp", std::to_string(C->getValueAPF().bitcastToAPInt().getZExtValue()));
                    } else if (auto *C = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
                        if (C->isCString()) J.attribute("str", json::fixUTF8(C->getAsCString()));
                    }
                }
                // flat integer image of constant arrays (used for constexpr tables)
                if (G.isConstant() && G.hasInitializer() && M->getDataLayout().getTypeAllocSize(G.getValueType()) <= 1024) {
                    J.attributeArray("image", [&] {
                        std::function<void(Constant *, uint64_t)> walk = [&](Constant *C, uint64_t off) {
                            auto &DL = M->getDataLayout();
                            if (auto *CI = dyn_cast<ConstantInt>(C)) {
                                SmallString<32> s; CI->getValue().toString(s, 10, true);
                                J.value(json::Array{(int64_t)off, (int64_t)DL.getTypeStoreSize(C->getType()), s.str().str()});
                            } else if (auto *S = dyn_cast<ConstantStruct>(C)) {
                                auto *SL = DL.getStructLayout(S->getType());
                                for (unsigned i = 0; i < S->getNumOperands(); i++) walk(S->getOperand(i), off + SL->getElementOffset(i));
                            } else if (auto *A = dyn_cast<ConstantArray>(C)) {
                                uint64_t es = DL.getTypeAllocSize(A->getType()->getElementType());
                                for (unsigned i = 0; i < A->getNumOperands(); i++) walk(A->getOperand(i), off + i * es);
                            } else if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
                                uint64_t es = D->getElementByteSize();
                                if (D->getElementType()->isIntegerTy())
                                    for (unsigned i = 0; i < D->getNumElements(); i++) {
                                        SmallString<32> s; D->getElementAsAPInt(i).toString(s, 10, true);
                                        J.value(json::Array{(int64_t)(off + i * es), (int64_t)es, s.str().str()});
                                    }
                            } else if (isa<ConstantAggregateZero>(C)) {
                                J.value(json::Array{(int64_t)off, (int64_t)DL.getTypeAllocSize(C->getType()), "Z"});
                            }
                        };
                        walk(const_cast<Constant *>(G.getInitializer()), 0);
                    });
                }
            });
        }
    });
    J.attributeArray("omp", [&] {
        for (auto &L : ompLoops)
            J.object([&] {
                J.attribute("name", L.name);
                J.attribute("file", L.file);
                J.attribute("line", (int64_t)L.line);
                J.attribute("last", L.ub);
            });
    });
    J.attributeBegin("functions");
    J.arrayBegin();
    for (auto &[F, spec] : rs) {
        curRoot = spec;
        // work on a clone so that other roots still inline the pristine body
        ValueToValueMapTy VM;
        Function *C = CloneFunction(F, VM);
        C->setLinkage(GlobalValue::InternalLinkage);
        bool ok = inlineAll(*C);
        stripInvokes(*C);
        curTraps = 0;
        for (auto &BB : *C)
            for (auto &I : BB)
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (auto *G = CB->getCalledFunction())
                        curTraps += G->getName().contains("glibcxx_assert_fail") || G->getName().contains("ubsantrap");
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false)));
        FPM.addPass(InstCombinePass());
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false)));
        FPM.addPass(LoopSimplifyPass());
        FPM.addPass(LCSSAPass());
        FPM.addPass(createFunctionToLoopPassAdaptor(IndVarSimplifyPass(false)));
        FPM.addPass(InstCombinePass());
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(ADCEPass());
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().hoistCommonInsts(false).sinkCommonInsts(false)));
        FPM.addPass(LoopSimplifyPass());
        FPM.addPass(LCSSAPass());
        FPM.run(*C, FAM);
        FAM.invalidate(*C, PreservedAnalyses::none());
        C->setName(F->getName());
        {
            auto &LI = FAM.getResult<LoopAnalysis>(*C);
            // a bound computed anew in every iteration (x < n >> level) is invariant all the same
            for (auto *L : LI.getLoopsInPreorder()) {
                SmallVector<BasicBlock *, 4> ex;
                L->getExitingBlocks(ex);
                bool changed = false;
                for (auto *B : ex)
                    if (auto *Br = dyn_cast<BranchInst>(B->getTerminator()))
                        if (Br->isConditional())
                            if (auto *Cmp = dyn_cast<ICmpInst>(Br->getCondition()))
                                for (Value *O : {Cmp->getOperand(0), Cmp->getOperand(1)})
                                    if (auto *I = dyn_cast<Instruction>(O)) L->makeLoopInvariant(I, changed);
            }
            auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*C);
            Dumper D{*C, LI, SE, M->getDataLayout(), J, DenseMap<const Value *, int>(), DenseMap<const BasicBlock *, int>(), DenseMap<const Loop *, int>(), std::set<const BasicBlock *>(), std::vector<Loop *>(), fname(F)};
            // restore the original name for reporting
            std::string orig = F->getName().str();
            C->setName("");
            F->setName("");
            C->setName(orig);
            D.run();
            C->setName("");
            F->setName(orig);
        }
        (void)ok;
        FAM.clear(*C, "");
        C->eraseFromParent();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    os << "\n";
    return 0;
}
