// LLVM 18 pass plugin: rewrites every floating-point operation of a module into calls of the symbolic runtime (rt.cpp).
//   SYMFP_STUB  = comma separated callees that are redirected to __stub_<name>
//   SYMFP_HOOKMEM=1: stores / memory intrinsics / allocation calls report to the runtime (frame and leak checks)
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <cmath>
#include <set>
#include <string>
#include <map>
using namespace llvm;

namespace {
static std::set<std::string> split(const char *s) {
    std::set<std::string> r; if (!s) return r;
    std::string c; for (; *s; s++) { if (*s == ',') { if (!c.empty()) r.insert(c); c.clear(); } else c += *s; }
    if (!c.empty()) r.insert(c);
    return r;
}
static bool nice(double d) {            // short dyadic: kept as is
    if (!std::isfinite(d)) return true;
    int e; double m = std::frexp(d, &e); m = std::ldexp(m, 24);
    return m == std::floor(m);
}
struct SymFP : PassInfoMixin<SymFP> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        LLVMContext &C = M.getContext();
        Type *D = Type::getDoubleTy(C), *I64 = Type::getInt64Ty(C), *I32 = Type::getInt32Ty(C), *V = Type::getVoidTy(C);
        Type *PT = PointerType::getUnqual(C);
        auto f2 = [&](const char *n) { return M.getOrInsertFunction(n, D, D, D); };
        auto f1 = [&](const char *n) { return M.getOrInsertFunction(n, D, D); };
        auto stubs = split(getenv("SYMFP_STUB"));
        bool hookmem = getenv("SYMFP_HOOKMEM") != nullptr, nofp = getenv("SYMFP_NOFP") != nullptr;
        std::set<std::string> libm = {"exp","sqrt","pow","fabs","log","log10","log2","exp2","expm1","log1p","erf","erfc","fmax","fmin","cbrt","sin","cos","tan","atan","atan2","sinh","cosh","tanh",
            "floor","ceil","round","lround","trunc","rint","tgamma","lgamma","hypot","fma","fmod","ldexp","isnan","isinf","__isnan","__isinf","__finite","cabs","__muldc3","__divdc3","cexp","conj","creal","cimag","frexp","modf","copysign","nearbyint","lrint","exp10"};
        std::map<std::string,std::string> memf = {{"malloc","__sym_malloc"},{"calloc","__sym_calloc"},{"realloc","__sym_realloc"},{"free","__sym_free"},
            {"memset","__sym_memset"},{"memcpy","__sym_memcpy"},{"memmove","__sym_memmove"}};
        std::map<std::string,std::string> procf = {{"exit","__sym_exit"},{"abort","__sym_abort"},{"__assert_fail","__sym_assert_fail"},{"_exit","__sym_exit"}};
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            F.setDoesNotThrow(); F.removeFnAttr(Attribute::NoUnwind); F.setUWTableKind(UWTableKind::Async);
            std::vector<Instruction*> work;
            for (Instruction &I : instructions(F)) work.push_back(&I);
            if (!nofp) { IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt());
              Value *nm = EB.CreateGlobalStringPtr(F.getName(), "symfn");
              auto *flag = new GlobalVariable(M, Type::getInt8Ty(C), false, GlobalValue::InternalLinkage, ConstantInt::get(Type::getInt8Ty(C), 0), "symseen");
              EB.CreateCall(M.getOrInsertFunction("__sym_enter", V, PT, PT), {nm, flag}); }
            for (Instruction *I : work) {
                if (nofp && !isa<StoreInst>(I) && !isa<AtomicRMWInst>(I) && !isa<AtomicCmpXchgInst>(I)) {
                    auto *ci = dyn_cast<CallInst>(I); Function *cal = ci ? ci->getCalledFunction() : nullptr; if (!cal) continue;
                    if (auto *mi = dyn_cast<MemIntrinsic>(ci)) { IRBuilder<> B(I); B.CreateCall(M.getOrInsertFunction("__sym_store", V, PT, I64), {mi->getRawDest(), B.CreateZExtOrTrunc(mi->getLength(), I64)}); }
                    else if (hookmem && memf.count(cal->getName().str())) { ci->setCalledFunction(M.getOrInsertFunction(memf[cal->getName().str()], cal->getFunctionType())); ci->setAttributes(AttributeList()); }
                    continue;
                }
                // snap constants
                if (!nofp && !isa<PHINode>(I)) for (unsigned k = 0; k < I->getNumOperands(); k++)
                    if (auto *cf = dyn_cast<ConstantFP>(I->getOperand(k))) {
                        if (cf->getType() != D) { if (cf->getType()->isFloatingPointTy()) { errs() << "symfp: unsupported fp constant type in " << F.getName() << "\n"; } continue; }
                        double d = cf->getValueAPF().convertToDouble();
                        if (nice(d)) continue;
                        IRBuilder<> B(I);
                        I->setOperand(k, B.CreateCall(f1("__sym_const"), {cf}));
                    }
                IRBuilder<> B(I);
                Value *R = nullptr;
                if (auto *bo = dyn_cast<BinaryOperator>(I)) {
                    if (!bo->getType()->isFPOrFPVectorTy()) continue;
                    if (bo->getType() != D) { errs() << "symfp: unsupported fp type in " << F.getName() << ": " << *bo << "\n"; exit(3); }
                    const char *n = nullptr;
                    switch (bo->getOpcode()) {
                        case Instruction::FAdd: n = "__sym_fadd"; break; case Instruction::FSub: n = "__sym_fsub"; break;
                        case Instruction::FMul: n = "__sym_fmul"; break; case Instruction::FDiv: n = "__sym_fdiv"; break;
                        case Instruction::FRem: n = "__sym_fmod"; break; default: errs() << "symfp: op\n"; exit(3);
                    }
                    R = B.CreateCall(f2(n), {bo->getOperand(0), bo->getOperand(1)});
                } else if (auto *u = dyn_cast<UnaryOperator>(I)) {
                    if (u->getType() != D) { errs() << "symfp: fneg type\n"; exit(3); }
                    R = B.CreateCall(f1("__sym_fneg"), {u->getOperand(0)});
                } else if (auto *fc = dyn_cast<FCmpInst>(I)) {
                    if (fc->getOperand(0)->getType() != D) { errs() << "symfp: fcmp type in " << F.getName() << "\n"; exit(3); }
                    auto fn = M.getOrInsertFunction("__sym_fcmp", I32, I32, D, D);
                    R = B.CreateCall(fn, {ConstantInt::get(I32, fc->getPredicate()), fc->getOperand(0), fc->getOperand(1)});
                    R = B.CreateTrunc(R, Type::getInt1Ty(C));
                } else if (auto *ld = dyn_cast<LoadInst>(I)) {
                    if (ld->getType() != D) continue;
                    auto *gv = dyn_cast<GlobalVariable>(getUnderlyingObject(ld->getPointerOperand())); if (!gv || !gv->isConstant()) continue;
                    IRBuilder<> A(ld->getNextNode()); auto *cl = A.CreateCall(f1("__sym_cload"), {ld});
                    ld->replaceUsesWithIf(cl, [&](Use &U) { return U.getUser() != cl; }); continue;
                } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
                    auto fn = M.getOrInsertFunction("__sym_fptosi", I64, D);
                    R = B.CreateTrunc(B.CreateCall(fn, {I->getOperand(0)}), I->getType());
                } else if (isa<SIToFPInst>(I)) {
                    if (I->getType() != D) { errs() << "symfp: sitofp type\n"; exit(3); }
                    auto fn = M.getOrInsertFunction("__sym_sitofp", D, I64);
                    R = B.CreateCall(fn, {B.CreateSExt(I->getOperand(0), I64)});
                } else if (isa<UIToFPInst>(I)) {
                    auto fn = M.getOrInsertFunction("__sym_uitofp", D, I64);
                    R = B.CreateCall(fn, {B.CreateZExt(I->getOperand(0), I64)});
                } else if (isa<FPExtInst>(I) || isa<FPTruncInst>(I)) {
                    if (I->getType() == I->getOperand(0)->getType()) R = I->getOperand(0);
                    else { errs() << "symfp: fpext/fptrunc in " << F.getName() << "\n"; exit(3); }
                } else if (auto *ci = dyn_cast<CallInst>(I)) {
                    Function *cal = ci->getCalledFunction();
                    if (!cal) continue;
                    std::string n = cal->getName().str();
                    if (cal->isIntrinsic()) {
                        switch (cal->getIntrinsicID()) {
                            case Intrinsic::fabs: R = B.CreateCall(f1("__sym_fabs"), {ci->getArgOperand(0)}); break;
                            case Intrinsic::sqrt: R = B.CreateCall(f1("__sym_sqrt"), {ci->getArgOperand(0)}); break;
                            case Intrinsic::exp: R = B.CreateCall(f1("__sym_exp"), {ci->getArgOperand(0)}); break;
                            case Intrinsic::pow: R = B.CreateCall(f2("__sym_pow"), {ci->getArgOperand(0), ci->getArgOperand(1)}); break;
                            case Intrinsic::memset: case Intrinsic::memcpy: case Intrinsic::memmove:
                                if (hookmem) B.CreateCall(M.getOrInsertFunction("__sym_store", V, PT, I64), {ci->getArgOperand(0), B.CreateZExtOrTrunc(ci->getArgOperand(2), I64)});
                                break;
                            default:
                                if (cal->getReturnType()->isFloatingPointTy()) { errs() << "symfp: intrinsic " << n << "\n"; exit(3); }
                        }
                        if (!R) continue;
                    } else {
                        std::string to;
                        if (stubs.count(n)) to = "__stub_" + n;
                        else if (libm.count(n)) to = "__sym_" + n;
                        else if (n.size() > 2 && n.back() == 'l' && libm.count(n.substr(0, n.size() - 1))) to = "__sym_" + n.substr(0, n.size() - 1);   // long double is 64 bits wide here
                        else if (procf.count(n)) to = procf[n];
                        else if (hookmem && memf.count(n)) to = memf[n];
                        else continue;
                        FunctionCallee nf = M.getOrInsertFunction(to, cal->getFunctionType());
                        ci->setCalledFunction(nf);
                        ci->setAttributes(AttributeList());
                        continue;
                    }
                } else if (auto *st = dyn_cast<StoreInst>(I)) {
                    if (!hookmem) continue;
                    Value *p = st->getPointerOperand()->stripInBoundsConstantOffsets();
                    if (isa<AllocaInst>(p)) continue;
                    uint64_t sz = M.getDataLayout().getTypeStoreSize(st->getValueOperand()->getType());
                    B.CreateCall(M.getOrInsertFunction("__sym_store", V, PT, I64), {st->getPointerOperand(), ConstantInt::get(I64, sz)});
                    continue;
                } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                    if (hookmem) B.CreateCall(M.getOrInsertFunction("__sym_store", V, PT, I64), {I->getOperand(0), ConstantInt::get(I64, 8)});
                    continue;
                } else if (auto *bc = dyn_cast<BitCastInst>(I)) {
                    if (bc->getType() == D || bc->getOperand(0)->getType() == D) { errs() << "symfp: fp bitcast in " << F.getName() << "\n"; exit(3); }
                    continue;
                } else continue;
                R->takeName(I);
                I->replaceAllUsesWith(R);
                I->eraseFromParent();
            }
        }
        return PreservedAnalyses::none();
    }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymFP", "1", [](PassBuilder &PB) {
        PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
    }};
}
