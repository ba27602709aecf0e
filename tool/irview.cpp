// irview - loads LLVM bitcode of one translation unit of cachelot, normalises it
// (inline everything except the "kept" primitives, then SSA clean-up) and dumps
// the resulting control-flow graphs as JSON for the Python analyses.
//
//   irview IN.bc OUT.json --keep REGEX... --root REGEX... [--noclean]
//
// Nothing of the program is executed here: this is a compiler front end.
#include <llvm/IR/IRBuilder.h>
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopRotationUtils.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

// Loops entered through a test of a flag that is a constant on entry ("bool more = true;
// while (more) ..."): rotated, so that they read like the same loop written with break.
struct FlagLoops : PassInfoMixin<FlagLoops> {
    PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
        auto &LI = AM.getResult<LoopAnalysis>(F);
        bool changed = false;
        for (Loop *L : LI.getLoopsInPreorder()) {
            BasicBlock *H = L->getHeader(), *P = L->getLoopPreheader();
            if (!P || !L->getLoopLatch()) continue;
            auto *BI = dyn_cast<BranchInst>(H->getTerminator());
            if (!BI || !BI->isConditional()) continue;
            bool in0 = L->contains(BI->getSuccessor(0)), in1 = L->contains(BI->getSuccessor(1));
            if (in0 == in1) continue;
            // condition: computed in the header from one flag and constants
            PHINode *PN = nullptr; bool pure = true;
            std::function<Constant *(Value *)> eval = [&](Value *V) -> Constant * {
                if (auto *K = dyn_cast<Constant>(V)) return K;
                auto *X = dyn_cast<Instruction>(V);
                if (!X || X->getParent() != H) { pure = false; return nullptr; }
                if (auto *Q = dyn_cast<PHINode>(X)) {
                    if (PN && PN != Q) { pure = false; return nullptr; }
                    PN = Q;
                    return dyn_cast<ConstantInt>(Q->getIncomingValueForBlock(P));
                }
                if (!isa<BinaryOperator>(X) && !isa<CastInst>(X) && !isa<ICmpInst>(X)) { pure = false; return nullptr; }
                SmallVector<Constant *, 2> ops;
                for (Value *O : X->operands()) { Constant *K = eval(O); if (!K) return nullptr; ops.push_back(K); }
                if (auto *C = dyn_cast<ICmpInst>(X)) return ConstantFoldCompareInstOperands(C->getPredicate(), ops[0], ops[1], F.getParent()->getDataLayout());
                return ConstantFoldInstOperands(X, ops, F.getParent()->getDataLayout());
            };
            auto *T = dyn_cast_or_null<ConstantInt>(eval(BI->getCondition()));
            if (!pure || !PN || !T || T->isOne() != in0) continue;
            // the flag takes truth values and constants only: a state, not a counter
            std::set<Value *> seen; std::vector<Value *> todo{PN}; bool ok = true;
            while (!todo.empty() && ok) {
                Value *W = todo.back(); todo.pop_back();
                if (!seen.insert(W).second || isa<ConstantInt>(W)) continue;
                if (auto *Q = dyn_cast<PHINode>(W)) for (Value *U : Q->incoming_values()) todo.push_back(U);
                else if (auto *Q = dyn_cast<SelectInst>(W)) { todo.push_back(Q->getTrueValue()); todo.push_back(Q->getFalseValue()); }
                else if (auto *Q = dyn_cast<ZExtInst>(W)) todo.push_back(Q->getOperand(0));
                else ok = W->getType()->isIntegerTy(1);
            }
            if (!ok) continue;
            SimplifyQuery SQ(F.getParent()->getDataLayout());
            changed |= LoopRotation(L, &LI, &AM.getResult<TargetIRAnalysis>(F), &AM.getResult<AssumptionAnalysis>(F), &AM.getResult<DominatorTreeAnalysis>(F), nullptr, nullptr, SQ, true, 64, true);
        }
        if (!changed) return PreservedAnalyses::all();
        AM.invalidate(F, PreservedAnalyses::none());
        FunctionPassManager P;
        P.addPass(JumpThreadingPass()); P.addPass(InstCombinePass()); P.addPass(SimplifyCFGPass());
        P.run(F, AM);
        return PreservedAnalyses::none();
    }
};

static std::map<const Value *, int> VID;   // per function numbering
static Module *MOD;
// qualified name without template arguments, parameters, return type and cv-qualifiers
static std::string baseName(const std::string &full) {
    std::string out; size_t i = 0, n = full.size();
    auto skip = [&](char o, char c) { int d = 0; for (; i < n; ++i) { if (full[i] == o) ++d; else if (full[i] == c && (i == 0 || full[i-1] != '-')) { if (--d == 0) { ++i; return; } } } };
    while (i < n) {
        if (full.compare(i, 8, "operator") == 0 && (i == 0 || full[i-1] == ':' || full[i-1] == ' ')) {
            size_t j = i + 8; std::string op = "operator";
            if (full.compare(j, 2, "()") == 0) { op += "()"; j += 2; }
            else if (j < n && full[j] == ' ') { // conversion / new / delete: up to the parameter list
                size_t k = full.find('(', j); if (k == std::string::npos) k = n;
                std::string t = full.substr(j + 1, k - j - 1);
                for (auto &c : t) if (c == ' ') c = '_';
                op += "_" + t; j = k;
            } else while (j < n && strchr("<>=!+-*/%&|^~[],", full[j])) { op += full[j++]; }
            out += op; i = j; continue;
        }
        if (full.compare(i, 21, "(anonymous namespace)") == 0) { out += "(anon)"; i += 21; continue; }
        if (full.compare(i, 7, "{lambda") == 0) { out += "{lambda"; i += 7; if (i < n && full[i] == '(') skip('(', ')'); continue; }
        if (full[i] == '<') { skip('<', '>'); continue; }
        if (full[i] == '(') { skip('(', ')'); continue; }
        out += full[i++];
    }
    // drop trailing qualifiers and the leading return type
    for (const char *q : {" const", " volatile", " &", " &&", " noexcept"}) { size_t l = strlen(q); if (out.size() > l && out.compare(out.size() - l, l, q) == 0) out.resize(out.size() - l); }
    size_t b = out.find(" [clone"); if (b != std::string::npos) out.resize(b);
    size_t sp = out.rfind(' ');
    if (sp != std::string::npos) out = out.substr(sp + 1);
    while (!out.empty() && (out[0] == '*' || out[0] == '&')) out.erase(0, 1);
    return out;
}
static std::string dem(const Function &F) { return baseName(demangle(F.getName().str())); }

static json::Value constJson(const Constant *C);

static std::string cstrOf(const GlobalVariable *GV, bool &ok) {
    ok = false;
    if (!GV->hasInitializer() || !GV->isConstant()) return "";
    if (auto *D = dyn_cast<ConstantDataArray>(GV->getInitializer()))
        if (D->isString()) { ok = true; return D->getAsString().str(); }
    return "";
}

// address constant -> (global, byte offset)
static json::Value constJson(const Constant *C) {
    const DataLayout &DL = MOD->getDataLayout();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        SmallString<32> S; CI->getValue().toStringUnsigned(S);
        return json::Object{{"k", "int"}, {"v", S.str().str()}, {"bits", (int64_t)CI->getBitWidth()}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"k", "null"}};
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return json::Object{{"k", "undef"}};
    if (auto *F = dyn_cast<Function>(C)) return json::Object{{"k", "fn"}, {"n", dem(*F)}, {"m", F->getName().str()}};
    if (auto *GV = dyn_cast<GlobalVariable>(C)) {
        return json::Object{{"k", "glob"}, {"n", demangle(GV->getName().str())}};
    }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constJson(GA->getAliasee());
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"k", "zero"}};
    if (auto *FP = dyn_cast<ConstantFP>(C)) { (void)FP; return json::Object{{"k", "fp"}}; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::GetElementPtr) {
            APInt Off(64, 0);
            auto *G = cast<GEPOperator>(CE);
            if (G->accumulateConstantOffset(DL, Off))
                return json::Object{{"k", "cgep"}, {"b", constJson(cast<Constant>(G->getPointerOperand()))}, {"o", Off.getSExtValue()}};
        }
        json::Array ops;
        for (auto &o : CE->operands()) ops.push_back(constJson(cast<Constant>(o.get())));
        return json::Object{{"k", "cexpr"}, {"op", CE->getOpcodeName()}, {"a", std::move(ops)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        json::Array ops;
        for (auto &o : CA->operands()) ops.push_back(constJson(cast<Constant>(o.get())));
        return json::Object{{"k", "agg"}, {"a", std::move(ops)}};
    }
    if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
        if (CDS->isString()) return json::Object{{"k", "str"}, {"v", json::fixUTF8(CDS->getAsString())}};
        json::Array ops;
        for (unsigned i = 0; i < CDS->getNumElements(); ++i) ops.push_back(constJson(CDS->getElementAsConstant(i)));
        return json::Object{{"k", "agg"}, {"a", std::move(ops)}};
    }
    return json::Object{{"k", "other"}};
}

static json::Value val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constJson(C);
    if (isa<MetadataAsValue>(V)) return json::Object{{"k", "md"}};
    if (isa<InlineAsm>(V)) return json::Object{{"k", "asm"}};
    auto it = VID.find(V);
    if (it == VID.end()) return json::Object{{"k", "other"}};
    return json::Object{{"k", isa<Argument>(V) ? "arg" : "v"}, {"id", it->second}};
}

static json::Value locJson(const DebugLoc &DL) {
    if (!DL) return nullptr;
    const DILocation *L = DL.get();
    auto *S = L->getScope()->getSubprogram();
    json::Object o{{"f", L->getFilename().str()}, {"l", (int64_t)L->getLine()}, {"s", S ? (S->getLinkageName().empty() ? S->getName().str() : baseName(demangle(S->getLinkageName().str()))) : ""}};
    json::Array chain;
    for (const DILocation *I = L->getInlinedAt(); I; I = I->getInlinedAt()) {
        auto *S2 = I->getScope()->getSubprogram();
        chain.push_back(json::Object{{"f", I->getFilename().str()}, {"l", (int64_t)I->getLine()}, {"s", S2 ? (S2->getLinkageName().empty() ? S2->getName().str() : baseName(demangle(S2->getLinkageName().str()))) : ""}});
    }
    if (!chain.empty()) o["at"] = std::move(chain);
    return std::move(o);
}

static json::Value tbaaJson(const Instruction &I) {
    const MDNode *T = I.getMetadata(LLVMContext::MD_tbaa);
    if (!T || T->getNumOperands() < 3) return nullptr;
    auto nm = [](const MDNode *N) -> std::string {
        if (!N || N->getNumOperands() == 0) return "";
        if (auto *S = dyn_cast<MDString>(N->getOperand(0))) return S->getString().str();
        return "";
    };
    auto *B = dyn_cast<MDNode>(T->getOperand(0));
    auto *A = dyn_cast<MDNode>(T->getOperand(1));
    int64_t off = 0;
    if (auto *C = mdconst::dyn_extract<ConstantInt>(T->getOperand(2))) off = C->getSExtValue();
    std::string b = nm(B);
    if (b.rfind("_ZTS", 0) == 0) b = demangle("_Z" + b.substr(4)) ;
    return json::Object{{"b", b}, {"raw", nm(B)}, {"a", nm(A)}, {"o", off}};
}

static void addAttrs(json::Object &o, const CallBase &CB) {
    json::Array pa;
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
        std::string s;
        if (CB.paramHasAttr(i, Attribute::StructRet)) s += "S";
        if (CB.isByValArgument(i)) s += "B";
        if (CB.getArgOperand(i)->getType()->isPointerTy() && CB.doesNotCapture(i)) s += "n";
        if (CB.onlyReadsMemory(i)) s += "r";
        pa.push_back(s);
    }
    o["pa"] = std::move(pa);
    auto ME = CB.getMemoryEffects();
    std::string m;
    if (ME.doesNotAccessMemory()) m = "none";
    else if (ME.onlyReadsMemory()) m = ME.onlyAccessesArgPointees() ? "argread" : "read";
    else if (ME.onlyAccessesArgPointees()) m = "arg";
    else m = "any";
    o["me"] = m;
    o["nt"] = CB.doesNotThrow();
    o["nr"] = CB.doesNotReturn();
}

static json::Value dumpFn(Function &F) {
    const DataLayout &DL = MOD->getDataLayout();
    VID.clear();
    int n = 0;
    std::map<const BasicBlock *, int> BID;
    for (auto &A : F.args()) VID[&A] = n++;
    for (auto &B : F) { int k = (int)BID.size(); BID[&B] = k; for (auto &I : B) VID[&I] = n++; }
    json::Array args;
    for (auto &A : F.args()) {
        std::string s;
        if (A.hasStructRetAttr()) s += "S";
        if (A.hasByValAttr()) s += "B";
        args.push_back(json::Object{{"id", VID[&A]}, {"n", A.getName().str()}, {"a", s}, {"bits", A.getType()->isIntegerTy() ? (int64_t)A.getType()->getIntegerBitWidth() : (int64_t)0}});
    }
    DominatorTree DT(F);
    LoopInfo LI(DT);
    json::Array blocks;
    for (auto &B : F) {
        json::Array ins;
        for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                auto id = II->getIntrinsicID();
                if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::assume) continue;
            }
            json::Object o{{"id", VID[&I]}, {"op", I.getOpcodeName()}};
            if (auto l = locJson(I.getDebugLoc()); l.kind() != json::Value::Null) o["loc"] = std::move(l);
            Type *Ty = I.getType();
            if (Ty->isIntegerTy()) o["bits"] = (int64_t)Ty->getIntegerBitWidth();
            else if (Ty->isPointerTy()) o["bits"] = "p";
            else if (!Ty->isVoidTy()) o["bits"] = "a";
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                APInt Off(64, 0);
                MapVector<Value *, APInt> Var;
                if (cast<GEPOperator>(G)->collectOffset(DL, 64, Var, Off)) {
                    o["b"] = val(G->getPointerOperand());
                    o["o"] = Off.getSExtValue();
                    json::Array vs;
                    for (auto &kv : Var) vs.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
                    o["vo"] = std::move(vs);
                } else o["op"] = "gep?";
            } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                o["b"] = val(L->getPointerOperand());
                o["sz"] = (int64_t)DL.getTypeStoreSize(Ty);
                if (auto t = tbaaJson(I); t.kind() != json::Value::Null) o["tb"] = std::move(t);
            } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                o["b"] = val(S->getPointerOperand());
                o["v"] = val(S->getValueOperand());
                o["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType());
                if (auto t = tbaaJson(I); t.kind() != json::Value::Null) o["tb"] = std::move(t);
            } else if (auto *P = dyn_cast<PHINode>(&I)) {
                json::Array in;
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    in.push_back(json::Array{BID[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
                o["in"] = std::move(in);
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                const Value *cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto *CF = dyn_cast<Function>(cv)) { o["fn"] = dem(*CF); o["full"] = demangle(CF->getName().str()); o["m"] = CF->getName().str(); o["def"] = !CF->isDeclaration(); }
                else o["fv"] = val(CB->getCalledOperand());
                json::Array as;
                for (auto &a : CB->args()) as.push_back(val(a.get()));
                o["a"] = std::move(as);
                addAttrs(o, *CB);
                if (auto *IV = dyn_cast<InvokeInst>(CB)) { o["n"] = BID[IV->getNormalDest()]; o["u"] = BID[IV->getUnwindDest()]; }
            } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
                json::Array ss;
                for (unsigned i = 0; i < BR->getNumSuccessors(); ++i) ss.push_back(BID[BR->getSuccessor(i)]);
                o["s"] = std::move(ss);
                if (BR->isConditional()) o["c"] = val(BR->getCondition());
            } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                o["c"] = val(SW->getCondition());
                json::Array cs;
                for (auto &c : SW->cases()) cs.push_back(json::Array{constJson(c.getCaseValue()), BID[c.getCaseSuccessor()]});
                o["cs"] = std::move(cs);
                o["d"] = BID[SW->getDefaultDest()];
            } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
                o["sz"] = (int64_t)DL.getTypeAllocSize(AI->getAllocatedType());
                o["n"] = AI->getName().str();
            } else {
                if (auto *C = dyn_cast<CmpInst>(&I)) o["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
                if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
                if (auto *IVI = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : IVI->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
                if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                    json::Array cl; for (unsigned i = 0; i < LP->getNumClauses(); ++i) cl.push_back(constJson(LP->getClause(i)));
                    o["cl"] = std::move(cl); o["cleanup"] = LP->isCleanup();
                }
                if (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy()) o["obits"] = (int64_t)I.getOperand(0)->getType()->getIntegerBitWidth();
                if (auto *OBO = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OBO->hasNoUnsignedWrap()) o["nuw"] = true; if (OBO->hasNoSignedWrap()) o["nsw"] = true; }
                json::Array as;
                for (auto &a : I.operands()) if (!isa<BasicBlock>(a.get())) as.push_back(val(a.get()));
                o["a"] = std::move(as);
            }
            ins.push_back(std::move(o));
        }
        json::Object bo{{"id", BID[&B]}, {"i", std::move(ins)}};
        if (LI.isLoopHeader(&B)) {
            bo["loop"] = true;
            json::Array body;
            for (auto *X : LI.getLoopFor(&B)->blocks()) body.push_back(BID[X]);
            bo["body"] = std::move(body);
        }
        blocks.push_back(std::move(bo));
    }
    json::Object fo{{"name", dem(F)}, {"full", demangle(F.getName().str())}, {"m", F.getName().str()}, {"args", std::move(args)}, {"blocks", std::move(blocks)}, {"nounwind", F.doesNotThrow()}};
    if (auto *SP = F.getSubprogram()) { fo["file"] = SP->getFilename().str(); fo["line"] = (int64_t)SP->getLine(); }
    return std::move(fo);
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::vector<std::string> keep, root, noinl; bool clean = true; std::string dumpll, only; bool noinline_all = false;
    std::string passes;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--keep") keep.push_back(argv[++i]);
        else if (a == "--root") root.push_back(argv[++i]);
        else if (a == "--noclean") clean = false;
        else if (a == "--noinline") noinline_all = true;
        else if (a == "--ll") dumpll = argv[++i];
        else if (a == "--passes") passes = argv[++i];
        else { errs() << "bad arg " << a << "\n"; return 2; }
    }
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print("irview", errs()); return 2; }
    MOD = M.get();
    // a local function object belongs to the function it is written in: it counts as a primitive of its own only where asked for
    auto any = [](std::vector<std::string> &rs, const std::string &s) {
        static Regex own("(\\{lambda[^:]*|::\\$_[0-9]+)::(operator\\(\\)|__invoke)$"); bool local = own.match(s);
        for (auto &r : rs) if ((!local || r == ".*" || r.find("lambda") != std::string::npos) && Regex("^(" + r + ")$").match(s)) return true;
        return false; };
    std::set<std::string> rootM, keepM;
    for (auto &F : *M) {
        std::string d = dem(F);
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::InlineHint);
        bool r = any(root, d), k = any(keep, d);
        if (r) rootM.insert(F.getName().str());
        if (k) keepM.insert(F.getName().str());
        if (r || k || noinline_all) F.addFnAttr(Attribute::NoInline); else F.addFnAttr(Attribute::AlwaysInline);
        // a function owning a landing pad with cleanup may not be inlined into
        // callers with a different personality: none in this code base
        if (r || k) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    }
    // libstdc++'s copy of trivial elements distinguishes one element from several: both are a move of last - first bytes
    for (auto &F : *M) {
        if (F.isDeclaration() || dem(F) != "std::__copy_move::__copy_m" || F.arg_size() != 3) continue;
        bool mv = false, other = false; int bytes = 0;
        for (auto &B : F) for (auto &I : B) {
            if (auto *II = dyn_cast<MemIntrinsic>(&I)) mv = mv || isa<MemMoveInst>(II);
            else if (auto *S = dyn_cast<StoreInst>(&I)) {
                if (isa<AllocaInst>(S->getPointerOperand())) continue;
                // element by element, one byte each
                auto *Ld = dyn_cast<LoadInst>(S->getValueOperand());
                if (Ld && Ld->getType()->isIntegerTy(8) && !isa<AllocaInst>(Ld->getPointerOperand())) ++bytes; else other = true;
            } else if (isa<CallBase>(&I) && !isa<IntrinsicInst>(&I)) other = true;
        }
        bool loop = !mv && !other && bytes == 1;
        mv = mv || loop;
        bool ptrs = F.getReturnType()->isPointerTy();
        for (auto &A : F.args()) ptrs = ptrs && A.getType()->isPointerTy();
        if (!mv || !ptrs) continue;
        auto L = F.getLinkage(); auto *SP = F.getSubprogram(); auto *CD = F.getComdat();
        F.deleteBody(); F.setLinkage(L); F.setSubprogram(SP); F.setComdat(CD);
        IRBuilder<> Bd(BasicBlock::Create(C, "", &F));
        if (SP) Bd.SetCurrentDebugLocation(DILocation::get(C, SP->getLine(), 0, SP));
        Value *n = Bd.CreateSub(Bd.CreatePtrToInt(F.getArg(1), Bd.getInt64Ty()), Bd.CreatePtrToInt(F.getArg(0), Bd.getInt64Ty()));
        if (loop) Bd.CreateMemCpy(F.getArg(2), MaybeAlign(1), F.getArg(0), MaybeAlign(1), n);
        else Bd.CreateMemMove(F.getArg(2), MaybeAlign(1), F.getArg(0), MaybeAlign(1), n);
        Bd.CreateRet(Bd.CreateGEP(Bd.getInt8Ty(), F.getArg(2), n));
    }
    // calls explicitly marked noinline at the call site would defeat the view
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) CB->removeFnAttr(Attribute::NoInline);
    if (clean) {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement>) { if (N == "flag-loops") { FPM.addPass(FlagLoops()); return true; } return false; });
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        {
            // drop everything unreachable from roots/kept so that DCE is effective
            internalizeModule(*M, [&](const GlobalValue &GV) { return rootM.count(GV.getName().str()) || keepM.count(GV.getName().str()) || isa<GlobalVariable>(GV); });
        }
        std::string P = passes.empty() ?
            std::string("globaldce,function(sroa,early-cse,simplifycfg),cgscc(function-attrs),always-inline,globaldce,"
            "function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instcombine<no-verify-fixpoint>,"
            "simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,loop-simplify,flag-loops,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,correlated-propagation,"
            "simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,adce),cgscc(function-attrs),"
            "function(early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,loop-simplify)")
            : passes;
        if (auto Err = PB.parsePassPipeline(MPM, P)) { errs() << toString(std::move(Err)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    if (!dumpll.empty()) { std::error_code EC; raw_fd_ostream O(dumpll, EC); M->print(O, nullptr); }
    json::Array fns;
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = dem(F);
        bool r = rootM.count(F.getName().str()) || noinline_all || keepM.count(F.getName().str());
        // functions that could not be inlined (recursion, address taken) are dumped when they are cachelot's
        if (!r && d.compare(0, 8, "cachelot") != 0) continue;
        fns.push_back(dumpFn(F));
    }
    // struct layouts
    DebugInfoFinder DIF; DIF.processModule(*M);
    json::Object lay;
    std::function<std::string(const DIScope *)> scope = [&](const DIScope *S) -> std::string {
        if (!S || isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
        std::string p = scope(S->getScope()); std::string n = S->getName().str();
        if (n.empty()) n = "(anon)";
        return p.empty() ? n : p + "::" + n;
    };
    std::function<void(const DICompositeType *, int64_t, const std::string &, json::Object &)> members =
        [&](const DICompositeType *CT, int64_t base, const std::string &pre, json::Object &out) {
        for (auto *El : CT->getElements()) {
            auto *D = dyn_cast_or_null<DIDerivedType>(El);
            if (!D || D->isStaticMember()) continue;
            if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
            const DIType *T = D->getBaseType();
            while (T && isa<DIDerivedType>(T) && (T->getTag() == dwarf::DW_TAG_typedef || T->getTag() == dwarf::DW_TAG_const_type || T->getTag() == dwarf::DW_TAG_volatile_type)) T = cast<DIDerivedType>(T)->getBaseType();
            std::string nm = D->getName().str();
            int64_t off = base + (int64_t)D->getOffsetInBits();
            auto *SC = dyn_cast_or_null<DICompositeType>(T);
            if (D->getTag() == dwarf::DW_TAG_member && !nm.empty())
                out[pre + nm] = json::Array{off, (int64_t)D->getSizeInBits(), T ? scope(T) : std::string()};
            if (SC && SC->getTag() != dwarf::DW_TAG_array_type && SC->getTag() != dwarf::DW_TAG_enumeration_type)
                members(SC, off, nm.empty() ? pre : pre + nm + ".", out);
        }
    };
    json::Object enums;
    for (auto *T : DIF.types()) {
        auto *CT = dyn_cast<DICompositeType>(T);
        if (!CT || CT->isForwardDecl()) continue;
        if (CT->getTag() == dwarf::DW_TAG_enumeration_type) {
            std::string nm = scope(CT);
            if (nm.find("cachelot") == std::string::npos) continue;
            json::Object e;
            for (auto *El : CT->getElements()) if (auto *En = dyn_cast_or_null<DIEnumerator>(El)) e[En->getName().str()] = En->getValue().getSExtValue();
            enums[nm] = std::move(e);
            continue;
        }
        if (CT->getTag() != dwarf::DW_TAG_structure_type && CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_union_type) continue;
        std::string nm = scope(CT);
        if (nm.find("cachelot") == std::string::npos) continue;
        json::Object mm; members(CT, 0, "", mm);
        if (mm.empty()) continue;
        lay[nm] = json::Object{{"size", (int64_t)CT->getSizeInBits() / 8}, {"m", std::move(mm)}};
    }
    json::Object globs;
    for (auto &GV : M->globals()) {
        json::Object g{{"const", GV.isConstant()}};
        if (GV.hasInitializer()) g["init"] = constJson(GV.getInitializer());
        globs[demangle(GV.getName().str())] = std::move(g);
    }
    json::Array roots; for (auto &r : rootM) roots.push_back(r);
    std::error_code EC; raw_fd_ostream O(argv[2], EC);
    O << json::Value(json::Object{{"fns", std::move(fns)}, {"layout", std::move(lay)}, {"globals", std::move(globs)}, {"enums", std::move(enums)}, {"roots", std::move(roots)}});
    return 0;
}
