// tian: links the LLVM bitcode of every translation unit of the library, flattens it
// (strips optnone, inlines every in-repo helper and the thin std:: wrappers, promotes memory to SSA,
// unrolls constant-trip loops) and dumps each function as one JSON line.
// It never executes any of the analysed code.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Transforms/Utils/Evaluator.h"
#include <map>
#include <set>
using namespace llvm;

static bool startsWith(StringRef s, const char *p) { return s.starts_with(p); }

// Container internals stay calls (modelled by summaries); everything else is flattened.
static bool opaqueStd(const std::string &d) {
    static const char *pats[] = {"std::deque<", "std::_Deque_base<", "std::_Rb_tree<", "std::multiset<", "std::set<",
        "std::vector<", "std::_Vector_base<", "std::queue<", "std::map<", "std::multimap<", "std::list<", "std::priority_queue<",
        "std::__cxx11::", "std::_Deque_iterator<", "std::_Rb_tree_iterator<", "std::_Rb_tree_const_iterator<",
        "std::__introsort_loop<", "std::__introselect<", "std::sort<", "std::__sort<", "std::nth_element<", "std::stable_sort<", "std::partial_sort<",
        "std::__heap_select<", "std::__insertion_sort<", "std::__final_insertion_sort<", "std::__make_heap<", "std::unordered_", "std::_Hashtable<"};
    // strip return type: find the first of the patterns that is the qualified name itself
    for (auto p : pats) {
        size_t pos = d.find(p);
        if (pos == std::string::npos) continue;
        // must be (part of) the function's own qualified name: nothing but a return type and spaces before it
        int depth = 0; bool inArgs = false;
        for (size_t i = 0; i < pos; ++i) {
            if (d[i] == '<') ++depth; else if (d[i] == '>') --depth; else if (d[i] == '(' && depth == 0) inArgs = true;
        }
        if (depth == 0 && !inArgs) return true;
    }
    return false;
}

struct Dumper {
    Module &M;
    const DataLayout &DL;
    raw_ostream &OS;
    std::map<const Value *, int> id;
    int next = 0;
    Dumper(Module &M, raw_ostream &OS) : M(M), DL(M.getDataLayout()), OS(OS) {}

    int vid(const Value *v) {
        auto it = id.find(v);
        if (it != id.end()) return it->second;
        return id[v] = next++;
    }
    static std::string ty(Type *t) {
        std::string s; raw_string_ostream o(s);
        if (t->isPointerTy()) return "ptr";
        if (t->isStructTy()) return "struct";
        t->print(o); return s;
    }
    json::Value gepJson(const GEPOperator *G) {
        unsigned bw = DL.getIndexSizeInBits(0);
        MapVector<Value *, APInt> var; APInt c(bw, 0);
        if (!G->collectOffset(DL, bw, var, c)) return json::Array{"unk"};
        json::Array vs;
        for (auto &kv : var) vs.push_back(json::Array{opnd(kv.first), kv.second.getSExtValue()});
        return json::Array{"gep", opnd(G->getPointerOperand()), c.getSExtValue(), std::move(vs)};
    }
    json::Value opnd(const Value *v) {
        if (auto *c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() > 64) return json::Array{"unk"};
            return json::Array{"c", c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()};
        }
        if (auto *c = dyn_cast<ConstantFP>(v)) {
            double d = c->getValueAPF().convertToDouble();
            std::string s; raw_string_ostream o(s); o << format("%a", d);
            return json::Array{"f", s};
        }
        if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
        if (isa<UndefValue>(v)) return json::Array{"undef"};   // includes poison
        if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
        if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
        if (auto *g = dyn_cast<GEPOperator>(v); g && isa<Constant>(v)) return gepJson(g);
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (ce->isCast()) return opnd(ce->getOperand(0));
            return json::Array{"unk"};
        }
        if (isa<ConstantAggregateZero>(v)) return json::Array{"zero"};
        if (isa<Constant>(v)) return json::Array{"konst"};
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return json::Array{"unk"};
        return json::Array{"v", vid(v)};
    }
    json::Value loc(const Instruction &I) {
        const DILocation *L = I.getDebugLoc();
        if (!L) return nullptr;
        json::Array a;
        for (; L; L = L->getInlinedAt()) {
            a.push_back(L->getFilename().str()); a.push_back((int64_t)L->getLine());
        }
        return std::move(a);
    }
    void function(Function &F) {
        id.clear(); next = 0;
        json::Object o;
        o["name"] = F.getName().str();
        o["dem"] = demangle(F.getName().str());
        if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine(); }
        o["linkage"] = F.hasLocalLinkage() ? "local" : (F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "odr" : "ext");
        o["nounwind"] = F.doesNotThrow();
        json::Array args;
        for (auto &A : F.args()) args.push_back(json::Object{{"id", vid(&A)}, {"ty", ty(A.getType())}, {"name", A.getName().str()}});
        o["args"] = std::move(args);
        o["ret"] = ty(F.getReturnType());
        std::map<const BasicBlock *, int> bid; int n = 0;
        for (auto &B : F) bid[&B] = n++;
        DominatorTree DT(F); LoopInfo LI(DT);
        json::Array loops;
        for (auto *L : LI.getLoopsInPreorder()) {
            json::Array bs; for (auto *B : L->blocks()) bs.push_back(bid[B]);
            loops.push_back(json::Object{{"header", bid[L->getHeader()]}, {"blocks", std::move(bs)}, {"depth", (int64_t)L->getLoopDepth()}});
        }
        o["loops"] = std::move(loops);
        json::Array blocks;
        for (auto &B : F) {
            json::Array ins;
            for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I))
                    if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
                json::Object i;
                i["id"] = vid(&I); i["op"] = I.getOpcodeName(); i["ty"] = ty(I.getType());
                i["loc"] = loc(I);
                json::Array ops;
                if (auto *P = dyn_cast<PHINode>(&I)) {
                    for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
                        ops.push_back(json::Array{bid[P->getIncomingBlock(k)], opnd(P->getIncomingValue(k))});
                } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    i["gep"] = gepJson(cast<GEPOperator>(G));
                } else if (auto *C = dyn_cast<CallBase>(&I)) {
                    for (auto &a : C->args()) ops.push_back(opnd(a.get()));
                    if (auto *Fn = C->getCalledFunction()) { i["callee"] = Fn->getName().str(); i["cdem"] = demangle(Fn->getName().str()); i["cnounwind"] = C->doesNotThrow(); i["cdecl"] = Fn->isDeclaration();
                        if (auto *SP = Fn->getSubprogram()) i["cfile"] = SP->getFilename().str();
                    }
                    else { i["callee"] = nullptr; i["cptr"] = opnd(C->getCalledOperand()); }
                    if (auto *Inv = dyn_cast<InvokeInst>(C)) { i["normal"] = bid[Inv->getNormalDest()]; i["unwind"] = bid[Inv->getUnwindDest()]; }
                } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                    if (Br->isConditional()) ops.push_back(opnd(Br->getCondition()));
                    json::Array s; for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) s.push_back(bid[Br->getSuccessor(k)]);
                    i["succ"] = std::move(s);
                } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(opnd(Sw->getCondition()));
                    json::Array cs;
                    for (auto &c : Sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
                    i["cases"] = std::move(cs); i["default"] = bid[Sw->getDefaultDest()];
                } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                    i["cleanup"] = LP->isCleanup();
                    json::Array cl;
                    for (unsigned k = 0; k < LP->getNumClauses(); ++k) cl.push_back(json::Array{LP->isCatch(k) ? "catch" : "filter", opnd(LP->getClause(k))});
                    i["clauses"] = std::move(cl);
                } else {
                    for (auto &op : I.operands()) ops.push_back(opnd(op.get()));
                    if (auto *C = dyn_cast<CmpInst>(&I)) i["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
                    if (auto *S = dyn_cast<StoreInst>(&I)) { i["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()); i["vty"] = ty(S->getValueOperand()->getType()); i["vol"] = S->isVolatile(); }
                    if (auto *L = dyn_cast<LoadInst>(&I)) i["sz"] = (int64_t)DL.getTypeStoreSize(L->getType());
                    if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        i["elsz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType());
                        { std::string s; raw_string_ostream oo(s); A->getAllocatedType()->print(oo); i["aty"] = s; }
                    }
                    if (isa<ExtractValueInst>(I) || isa<InsertValueInst>(I)) {
                        json::Array ix;
                        if (auto *E = dyn_cast<ExtractValueInst>(&I)) for (auto k : E->indices()) ix.push_back((int64_t)k);
                        else for (auto k : cast<InsertValueInst>(&I)->indices()) ix.push_back((int64_t)k);
                        i["idx"] = std::move(ix);
                    }
                    if (auto *BO = dyn_cast<OverflowingBinaryOperator>(&I)) i["nsw"] = BO->hasNoSignedWrap();
                }
                if (!ops.empty()) i["ops"] = std::move(ops);
                ins.push_back(std::move(i));
            }
            blocks.push_back(std::move(ins));
        }
        o["blocks"] = std::move(blocks);
        OS << json::Value(std::move(o)) << "\n";
    }
    // Constant initialisers as a tree: numbers, strings, symbol names, nested arrays.
    json::Value init(const Constant *c, int depth = 0) {
        if (depth > 6) return nullptr;
        if (auto *s = dyn_cast<ConstantDataSequential>(c); s && s->isCString()) return json::Object{{"str", s->getAsCString().str()}};
        if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getSExtValue();
        if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().convertToDouble();
        if (isa<ConstantPointerNull>(c)) return json::Object{{"null", 1}};
        if (auto *f = dyn_cast<Function>(c)) return json::Object{{"fn", f->getName().str()}};
        if (auto *g = dyn_cast<GlobalVariable>(c)) {
            if (g->hasInitializer() && g->isConstant())
                if (auto *s = dyn_cast<ConstantDataSequential>(g->getInitializer()); s && s->isCString()) return json::Object{{"str", s->getAsCString().str()}};
            if (g->hasInitializer() && g->isConstant() && g->getInitializer()->isNullValue()) return json::Object{{"str", ""}};
            return json::Object{{"g", g->getName().str()}};
        }
        if (isa<ConstantAggregateZero>(c)) {
            unsigned n = 0;
            if (auto *a = dyn_cast<ArrayType>(c->getType())) n = a->getNumElements();
            else if (auto *st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
            json::Array r;
            for (unsigned k = 0; k < n && k < 4096; ++k) r.push_back(init(c->getAggregateElement(k), depth + 1));
            return std::move(r);
        }
        if (auto *a = dyn_cast<ConstantAggregate>(c)) { json::Array r; for (auto &o : a->operands()) r.push_back(init(cast<Constant>(o.get()), depth + 1)); return std::move(r); }
        if (auto *s = dyn_cast<ConstantDataSequential>(c)) { json::Array r; for (unsigned k = 0; k < s->getNumElements(); ++k) r.push_back(init(s->getElementAsConstant(k), depth + 1)); return std::move(r); }
        return nullptr;
    }
    // whether memory reached from v may be written or escape
    std::set<const Function *> settled;             // static constructors whose effect is known
    std::map<const GlobalVariable *, Constant *> after;  // values they leave
    void constructors() {
        TargetLibraryInfoImpl TLII(Triple(M.getTargetTriple())); TargetLibraryInfo TLI(TLII);
        auto *G = M.getGlobalVariable("llvm.global_ctors");
        auto *A = G && G->hasInitializer() ? dyn_cast<ConstantArray>(G->getInitializer()) : nullptr;
        if (!A) return;
        for (auto &e : A->operands())
            if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(e)->getOperand(1)); F && !F->isDeclaration()) {
                Evaluator E(DL, &TLI); Constant *R = nullptr; SmallVector<Constant *, 1> none;
                if (!E.EvaluateFunction(F, R, none)) continue;
                settled.insert(F);
                for (auto &[g, c] : E.getMutatedInitializers()) after[g] = c;
            }
    }
    bool written(const Value *v, SmallPtrSetImpl<const Value *> &seen) {
        if (!seen.insert(v).second) return false;
        for (const User *u : v->users()) {
            if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
            if (auto *i = dyn_cast<Instruction>(u); i && settled.count(i->getFunction())) continue;
            if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { if (written(u, seen)) return true; continue; }
            if (auto *m = dyn_cast<MemTransferInst>(u)) { if (m->getRawDest() == v) return true; continue; }
            return true;
        }
        return false;
    }
    void global(GlobalVariable &G) {
        json::Object o;
        o["global"] = G.getName().str(); o["dem"] = demangle(G.getName().str());
        o["const"] = G.isConstant(); o["size"] = (int64_t)DL.getTypeAllocSize(G.getValueType());
        { SmallPtrSet<const Value *, 16> seen; o["fixed"] = G.isConstant() || (G.hasLocalLinkage() && !written(&G, seen)); }
        o["decl"] = G.isDeclaration(); o["tls"] = G.isThreadLocal();
        o["local"] = G.hasLocalLinkage();
        SmallVector<DIGlobalVariableExpression *, 1> dbg; G.getDebugInfo(dbg);
        if (!dbg.empty()) { o["file"] = dbg[0]->getVariable()->getFilename().str(); o["line"] = (int64_t)dbg[0]->getVariable()->getLine(); }
        if (G.hasInitializer()) o["init"] = init(after.count(&G) ? after[&G] : G.getInitializer());
        OS << json::Value(std::move(o)) << "\n";
    }
};

static void runPipe(Module &M, const std::string &P) {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; exit(3); }
    MPM.run(M, MAM);
}

int main(int argc, char **argv) {
    // tian [--flat|--raw] [--ll FILE] in.bc... > out.ndjson
    // --flat: whole program flattened; --raw: per-function SSA only, no inlining.
    bool flat = true; std::string ll; std::vector<std::string> in;
    bool keepTi = false, rot = true;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--raw") flat = false; else if (a == "--flat") flat = true;
        else if (a == "--keep-ti") keepTi = true;   // calls between public ti_* entry points stay calls
        else if (a == "--norot") rot = false;   // keep loops in while form: every exit test at the header
        else if (a == "--ll") ll = argv[++i];
        else in.push_back(a);
    }
    { const char *args[] = {"tian", "-unroll-threshold=20000", "-unroll-max-count=64"}; cl::ParseCommandLineOptions(3, args); }
    LLVMContext C; SMDiagnostic E;
    std::unique_ptr<Module> M;
    for (auto &f : in) {
        auto m = parseIRFile(f, E, C);
        if (!m) { E.print("tian", errs()); return 3; }
        if (!M) { M = std::move(m); continue; }
        if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 3; }
    }
    if (!M) return 3;
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::StackProtectStrong);
        if (F.isDeclaration()) continue;
        for (auto &B : F) B.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);   // -O1 front end disables unrolling there
        std::string d = demangle(F.getName().str());
        bool opq = opaqueStd(d);
        bool api = F.getName().starts_with("ti_") && F.hasExternalLinkage();
        F.removeFnAttr(Attribute::AlwaysInline);
        if (flat && !opq && !(keepTi && api)) F.addFnAttr(Attribute::AlwaysInline);
        else F.addFnAttr(Attribute::NoInline);
    }
    if (flat) {
        // always-inline every flattenable callee; recursion stays a call.
        runPipe(*M, std::string("function(sroa<modify-cfg>,simplifycfg),always-inline,always-inline,"
                    "function(sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,loop-simplify,") + (rot ? "loop(loop-rotate)," : "") + "loop(loop-unroll-full),sroa<modify-cfg>,instsimplify,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,instsimplify,dce,simplifycfg,loop-simplify)");
    } else {
        runPipe(*M, "function(sroa<modify-cfg>,instsimplify,simplifycfg,dce)");
    }
    if (!ll.empty()) { std::error_code ec; raw_fd_ostream o(ll, ec); M->print(o, nullptr); }
    Dumper D(*M, outs());
    D.constructors();
    for (auto &G : M->globals()) D.global(G);
    for (auto &F : *M) if (!F.isDeclaration()) D.function(F);
    return 0;
}
