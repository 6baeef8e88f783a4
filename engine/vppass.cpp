// LLVM pass plugin: turns the compiler's IR of the code under test into a
// symbolically executable program.  Every operation on `double` (arithmetic,
// comparison, conversion, libm call, select on a comparison) is replaced by a
// call into the symbolic runtime (vprt.cpp).  With VP_INTS=1 in the environment
// integer operations, loads, stores and calls carry shadow expressions as well.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdlib>
using namespace llvm;

namespace {

struct Instr {
    Module &M;
    LLVMContext &C;
    Type *D, *I1, *I8, *I32, *I64, *V;
    PointerType *P;
    bool ints;
    std::map<Function*, Constant*> names;
    Instr(Module &m) : M(m), C(m.getContext()) {
        D = Type::getDoubleTy(C); I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C); V = Type::getVoidTy(C);
        P = PointerType::getUnqual(C);
        const char* e = getenv("VP_INTS");
        ints = e && *e == '1';
    }
    Constant* fname(Function* F) {
        auto it = names.find(F);
        if (it != names.end()) return it->second;
        std::string s = llvm::demangle(F->getName().str());
        Constant* str = ConstantDataArray::getString(C, s);
        auto* gv = new GlobalVariable(M, str->getType(), true,
                GlobalValue::PrivateLinkage, str, "vp.fn");
        return names[F] = gv;
    }
    FunctionCallee rt(StringRef n, Type* r, ArrayRef<Type*> a) {
        return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
    }

    // ---------------- doubles ----------------
    static const char* binName(unsigned op) {
        switch (op) {
            case Instruction::FAdd: return "vp_fadd";
            case Instruction::FSub: return "vp_fsub";
            case Instruction::FMul: return "vp_fmul";
            case Instruction::FDiv: return "vp_fdiv";
            case Instruction::FRem: return "vp_frem";
        }
        return nullptr;
    }
    Value* perLane(IRBuilder<>& B, Type* resTy, ArrayRef<Value*> ops,
            std::function<Value*(ArrayRef<Value*>)> f) {
        auto* vt = dyn_cast<FixedVectorType>(ops[0]->getType());
        if (!vt) return f(ops);
        Value* res = PoisonValue::get(resTy);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) {
            std::vector<Value*> o;
            for (Value* v : ops) o.push_back(B.CreateExtractElement(v, i));
            res = B.CreateInsertElement(res, f(o), i);
        }
        return res;
    }
    bool isD(Type* t) { return t->getScalarType()->isDoubleTy(); }
    bool isFlt(Type* t) { return t->getScalarType()->isFloatingPointTy() && !isD(t); }

    static bool mathFn(StringRef n, std::string& out, unsigned& nargs) {
        static const std::map<std::string, unsigned> m = {
            {"sqrt",1},{"exp",1},{"log",1},{"sin",1},{"cos",1},{"tan",1},
            {"asin",1},{"acos",1},{"atan",1},{"atan2",2},{"pow",2},{"fabs",1},
            {"floor",1},{"ceil",1},{"round",1},{"trunc",1},{"rint",1},
            {"nearbyint",1},{"fmin",2},{"fmax",2},{"fmod",2},{"cbrt",1},
            {"hypot",2},{"log10",1},{"log2",1},{"exp2",1},{"expm1",1},
            {"log1p",1},{"sinh",1},{"cosh",1},{"tanh",1},{"copysign",2},
            {"modf",1},{"ldexp",1},{"frexp",1},{"lround",1},{"lrint",1},
            {"remainder",2},{"erf",1},{"fma",3},{"roundeven",1}};
        auto it = m.find(n.str());
        if (it == m.end()) return false;
        out = "vp_m_" + n.str(); nargs = it->second;
        return true;
    }

    void doubles(Function& F) {
        std::vector<Instruction*> work;
        for (Instruction& I : instructions(F)) work.push_back(&I);
        std::vector<Instruction*> dead;
        std::set<Instruction*> handled;
        // selects whose condition is a double comparison used by selects only
        for (Instruction* I : work) {
            auto* fc = dyn_cast<FCmpInst>(I);
            if (!fc || !fc->getOperand(0)->getType()->isDoubleTy()) continue;
            bool all = !fc->use_empty();
            for (User* u : fc->users()) {
                auto* s = dyn_cast<SelectInst>(u);
                if (!s || !s->getType()->isDoubleTy() || s->getCondition() != fc ||
                    s->getTrueValue() == fc || s->getFalseValue() == fc) { all = false; break; }
            }
            if (!all) continue;
            std::vector<SelectInst*> sel;
            for (User* u : fc->users()) sel.push_back(cast<SelectInst>(u));
            for (SelectInst* s : sel) {
                IRBuilder<> B(s);
                Value* r = B.CreateCall(rt("vp_fsel", D, {I32, D, D, D, D, P}),
                    {ConstantInt::get(I32, fc->getPredicate()), fc->getOperand(0),
                     fc->getOperand(1), s->getTrueValue(), s->getFalseValue(), fname(&F)});
                s->replaceAllUsesWith(r);
                dead.push_back(s);
                handled.insert(s);
            }
            dead.push_back(fc);
            handled.insert(fc);
        }
        for (Instruction* I : work) {
            if (handled.count(I)) continue;
            IRBuilder<> B(I);
            Value* r = nullptr;
            if (auto* bo = dyn_cast<BinaryOperator>(I)) {
                const char* n = binName(bo->getOpcode());
                if (!n || !isD(bo->getType())) continue;
                r = perLane(B, bo->getType(), {bo->getOperand(0), bo->getOperand(1)},
                    [&](ArrayRef<Value*> o) -> Value* {
                        return B.CreateCall(rt(n, D, {D, D, P}), {o[0], o[1], fname(&F)}); });
            }
            else if (auto* un = dyn_cast<UnaryOperator>(I)) {
                if (un->getOpcode() != Instruction::FNeg || !isD(un->getType())) continue;
                r = perLane(B, un->getType(), {un->getOperand(0)},
                    [&](ArrayRef<Value*> o) -> Value* {
                        return B.CreateCall(rt("vp_fneg", D, {D, P}), {o[0], fname(&F)}); });
            }
            else if (auto* fc = dyn_cast<FCmpInst>(I)) {
                if (!isD(fc->getOperand(0)->getType())) continue;
                r = perLane(B, fc->getType(), {fc->getOperand(0), fc->getOperand(1)},
                    [&](ArrayRef<Value*> o) -> Value* {
                        Value* v = B.CreateCall(rt("vp_fcmp", I32, {I32, D, D, P}),
                            {ConstantInt::get(I32, fc->getPredicate()), o[0], o[1], fname(&F)});
                        return B.CreateICmpNE(v, ConstantInt::get(I32, 0)); });
            }
            else if (auto* ci = dyn_cast<CastInst>(I)) {
                Type* s = ci->getSrcTy(); Type* d = ci->getDestTy();
                unsigned op = ci->getOpcode();
                if ((op == Instruction::FPToSI || op == Instruction::FPToUI) && isD(s)) {
                    r = perLane(B, d, {ci->getOperand(0)},
                        [&](ArrayRef<Value*> o) -> Value* {
                            Value* v = B.CreateCall(rt("vp_fptoi", I64, {D, I32, P}),
                                {o[0], ConstantInt::get(I32, op == Instruction::FPToSI), fname(&F)});
                            return B.CreateIntCast(v, d->getScalarType(), true); });
                }
                else if (op == Instruction::FPTrunc && isD(s)) {
                    B.CreateCall(rt("vp_nosym", V, {D, P}), {ci->getOperand(0), fname(&F)});
                    continue;
                }
                else if (op == Instruction::FPExt && s->getScalarType()->isDoubleTy()) {
                    B.CreateCall(rt("vp_nosym", V, {D, P}), {ci->getOperand(0), fname(&F)});
                    continue;
                }
                else if (op == Instruction::BitCast && s->isDoubleTy() && d->isIntegerTy()) {
                    r = B.CreateCall(rt("vp_dbits", I64, {D, P}), {ci->getOperand(0), fname(&F)});
                }
                else continue;
            }
            else if (auto* cb = dyn_cast<CallBase>(I)) {
                Function* cf = cb->getCalledFunction();
                if (!cf) continue;
                std::string n; unsigned na = 0; std::string base;
                StringRef nm = cf->getName();
                if (nm.starts_with("llvm.")) {
                    if (!isD(cb->getType()) && !(cb->arg_size() && isD(cb->getArgOperand(0)->getType()))) continue;
                    StringRef rest = nm.substr(5);
                    base = rest.substr(0, rest.find('.')).str();
                    if (base == "minnum") base = "fmin";
                    if (base == "maxnum") base = "fmax";
                    if (base == "is") {   // llvm.is.fpclass
                        r = B.CreateICmpNE(B.CreateCall(rt("vp_fpclass", I32, {D, I32, P}),
                            {cb->getArgOperand(0), cb->getArgOperand(1), fname(&F)}), ConstantInt::get(I32, 0));
                    }
                    else if (base == "fmuladd") base = "fma";
                } else {
                    if (!cf->isDeclaration()) continue;
                    base = nm.str();
                }
                if (!r) {
                    if (!mathFn(base, n, na)) continue;
                    if (!isD(cb->getType()) || base == "modf" || base == "ldexp" ||
                        base == "frexp" || base == "lround" || base == "lrint") {
                        for (Value* a : cb->args()) if (a->getType()->isDoubleTy())
                            B.CreateCall(rt("vp_nosym", V, {D, P}), {a, fname(&F)});
                        continue;
                    }
                    std::vector<Value*> ops;
                    for (unsigned i = 0; i < na; ++i) ops.push_back(cb->getArgOperand(i));
                    r = perLane(B, cb->getType(), ops, [&](ArrayRef<Value*> o) -> Value* {
                        std::vector<Type*> t(na, D); t.push_back(P);
                        std::vector<Value*> a(o.begin(), o.end()); a.push_back(fname(&F));
                        return B.CreateCall(rt(n, D, t), a); });
                }
                if (auto* iv = dyn_cast<InvokeInst>(cb)) {
                    BranchInst::Create(iv->getNormalDest(), iv);
                    iv->getUnwindDest()->removePredecessor(iv->getParent());
                }
            }
            if (!r) continue;
            I->replaceAllUsesWith(r);
            dead.push_back(I);
        }
        for (Instruction* I : dead) I->eraseFromParent();
    }

    // record which functions of the library were executed symbolically
    void enter(Function& F) {
        std::string s = llvm::demangle(F.getName().str());
        if (s.compare(0, 8, "diffpy::") != 0 && s.find(" diffpy::") == std::string::npos) return;
        auto* flag = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage,
                ConstantInt::get(I8, 0), "vp.seen");
        Instruction* at = &*F.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(at)) at = at->getNextNode();
        IRBuilder<> B(at);
        Value* c = B.CreateICmpEQ(B.CreateLoad(I8, flag), ConstantInt::get(I8, 0));
        Instruction* t = SplitBlockAndInsertIfThen(c, at, false);
        IRBuilder<> B2(t);
        B2.CreateStore(ConstantInt::get(I8, 1), flag);
        B2.CreateCall(rt("vp_enter", V, {P}), {fname(&F)});
    }

    bool run() {
        for (Function& F : M) {
            if (F.isDeclaration()) continue;
            if (F.hasAvailableExternallyLinkage()) continue;
            doubles(F);
            enter(F);
        }
        return true;
    }
};

struct VP : PassInfoMixin<VP> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        Instr(M).run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "vp", "1", [](PassBuilder &PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
            MPM.addPass(VP()); });
    }};
}
