// Type-based aliasing agreement of memory accesses.
//
// Input: IR straight from the front end (no optimisation has used the aliasing tags yet). For every entry function the
// whole call tree is flattened, local aggregates are split, and every load and store is attributed to its memory
// object (argument, global variable, local variable). Two accesses of the same bytes of one object, at least one of
// them a store, must carry aliasing types of which one contains the other; an argument object additionally is written
// and read by the caller as objects of the declared element type.
//
// usage: alias <jobs.json> <out.jsonl> <bitcode>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include <map>
#include <set>
using namespace llvm;

static bool isChar(const MDNode *t) {
    auto *s = dyn_cast_or_null<MDString>(t->getOperand(0).get());
    return s && s->getString() == "omnipotent char";
}
static StringRef tname(const MDNode *t) {
    auto *s = dyn_cast_or_null<MDString>(t->getNumOperands() ? t->getOperand(0).get() : nullptr);
    return s ? s->getString() : "";
}
// access type of a tag (null: may alias anything)
static const MDNode *accessType(const Instruction &I) {
    MDNode *tag = I.getMetadata(LLVMContext::MD_tbaa);
    if (!tag) return nullptr;
    if (isa<MDString>(tag->getOperand(0))) return tag;
    auto *t = dyn_cast_or_null<MDNode>(tag->getOperand(1).get());
    if (!t || isChar(t)) return nullptr;
    return t;
}
static std::string locOf(const Instruction &I) {
    std::string r;
    const DILocation *d = I.getDebugLoc();
    int n = 0;
    for (; d && n < 6; d = d->getInlinedAt(), ++n) {
        StringRef f = d->getFilename();
        if (!r.empty()) r += " < ";
        r += (f.rsplit('/').second.empty() ? f.str() : f.str()) + ":" + std::to_string(d->getLine());
    }
    return r;
}
// offset of a pointer within its object: off plus any multiple of step (0: exactly off, 1: unknown)
struct Lin { int64_t off; uint64_t step; };
static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static uint64_t ab(int64_t x) { return x < 0 ? -(uint64_t)x : x; }
static Lin lin(const Value *v, const DataLayout &DL, std::map<const Value *, Lin> &open, int depth = 0) {
    if (depth > 60) return {0, 1};
    if (auto *G = dyn_cast<GEPOperator>(v)) {
        MapVector<Value *, APInt> var; APInt c(64, 0);
        if (!G->collectOffset(DL, 64, var, c)) return {0, 1};
        Lin l = lin(G->getPointerOperand(), DL, open, depth + 1);
        l.off += c.getSExtValue();
        for (auto &x : var) l.step = gcd(l.step, ab(x.second.getSExtValue()));
        return l;
    }
    std::vector<const Value *> in;
    if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) in.push_back(x.get()); }
    else if (auto *S = dyn_cast<SelectInst>(v)) { in = {S->getTrueValue(), S->getFalseValue()}; }
    else if (auto *C = dyn_cast<BitCastOperator>(v)) return lin(C->getOperand(0), DL, open, depth + 1);
    else return {0, isa<Argument>(v) || isa<GlobalVariable>(v) || isa<AllocaInst>(v) ? 0u : 1u};
    auto it = open.find(v);
    if (it != open.end()) return it->second;
    // the first incoming value that does not lead back here gives the origin
    Lin r{0, 1}; bool have = false;
    open[v] = {-(1ll << 62), 0};
    for (auto *x : in) { Lin l = lin(x, DL, open, depth + 1); if (l.off >= -(1ll << 61)) { r = l; have = true; break; } }
    if (!have) { open.erase(v); return {0, 1}; }
    open[v] = {r.off, 0};
    for (auto *x : in) { Lin l = lin(x, DL, open, depth + 1); r.step = gcd(gcd(r.step, l.step), ab(l.off - r.off)); }
    open.erase(v);
    return r;
}
struct Acc { const Instruction *I; bool store; const MDNode *ty; bool known; int64_t off, size; uint64_t step; };
static bool overlap(const Acc &a, const Acc &b) {
    uint64_t g = gcd(a.step, b.step);
    if (!g) return a.off < b.off + b.size && b.off < a.off + a.size;
    if ((int64_t)g <= a.size || (int64_t)g <= b.size) return true;
    int64_t d = (a.off - b.off) % (int64_t)g; if (d < 0) d += g;   // a starts d bytes after some b
    return d < b.size || d + a.size > (int64_t)g;
}
static std::string describe(const Acc &a) {
    return std::string(a.store ? "store" : "load") + " as " + (a.ty ? tname(a.ty).str() : std::string("char")) + (a.known ? " at byte " + std::to_string(a.off) : "") + " (" + locOf(*a.I) + ")";
}
static std::string objName(const Value *v) {
    if (auto *A = dyn_cast<Argument>(v)) return "argument " + std::to_string(A->getArgNo()) + " '" + A->getName().str() + "'";
    if (isa<GlobalVariable>(v)) return "global " + v->getName().str();
    if (isa<AllocaInst>(v)) return "local variable " + v->getName().str();
    return v->getName().str();
}

int main(int argc, char **argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[3], err, ctx);
    if (!M) { err.print("alias", errs()); return 3; }
    auto buf = MemoryBuffer::getFile(argv[1]);
    auto js = json::parse((*buf)->getBuffer());
    if (!js) return 3;
    std::error_code ec;
    raw_fd_ostream out(argv[2], ec);
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    FAM.registerPass([&] { return AAManager(); });      // no alias analysis: nothing may be optimised on the strength of the tags
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (auto &F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }
    const DataLayout &DL = M->getDataLayout();
    std::vector<json::Value> jobs;
    bool all = js->getAsArray()->empty();   // no list: every externally visible function of the module
    if (all) { for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && !F.hasAvailableExternallyLinkage()) jobs.push_back(json::Object{{"name", F.getName()}, {"impl", F.getName()}}); }
    else for (auto &j : *js->getAsArray()) jobs.push_back(std::move(j));
    for (auto &jv : jobs) {
        auto *o = jv.getAsObject();
        StringRef name = *o->getString("name");
        Function *F = M->getFunction(*o->getString("impl"));
        json::Object row; row["name"] = name;
        if (!F || F->isDeclaration()) { row["status"] = "missing"; row["msg"] = "no definition"; out << json::Value(std::move(row)) << "\n"; continue; }
        // flatten
        bool cut = false; unsigned budget = 20000; std::set<std::string> unresolved;
        auto clean = [&] {
            FunctionPassManager FPM;
            FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass()); FPM.addPass(SCCPPass()); FPM.addPass(SimplifyCFGPass());
            FPM.run(*F, FAM); FAM.clear();
        };
        for (bool more = true; more && budget;) {
            more = false;
            std::vector<CallBase *> calls;
            for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction()) if (!g->isDeclaration() && g != F) calls.push_back(c);
            for (auto *c : calls) {
                if (!budget) { cut = true; break; }
                --budget;
                InlineFunctionInfo ifi;
                if (InlineFunction(*c, ifi).isSuccess()) more = true;
            }
            clean();
            if (F->getInstructionCount() > 200000) { cut = true; break; }
        }
        clean();
        std::map<const Value *, std::vector<Acc>> objs;
        unsigned n = 0, foreign = 0;
        // effects: everything written or called
        std::map<std::string, std::string> wr, calls, mutg;
        auto effect = [&](const Instruction &I, const Value *p) {
            SmallVector<const Value *, 4> us;
            getUnderlyingObjects(p, us, nullptr, 0);
            for (auto *u : us) {
                std::string k;
                if (auto *G = dyn_cast<GlobalVariable>(u)) k = "global " + G->getName().str();
                else if (auto *A = dyn_cast<Argument>(u)) k = "arg " + std::to_string(A->getArgNo());
                else if (isa<AllocaInst>(u)) k = "local";
                else if (auto *L = dyn_cast<LoadInst>(u)) {
                    SmallVector<const Value *, 4> ps; getUnderlyingObjects(L->getPointerOperand(), ps, nullptr, 0);
                    k = "pointee of local or argument data";
                    for (auto *q : ps) if (auto *G = dyn_cast<GlobalVariable>(q)) k = "pointee of global " + G->getName().str();
                }
                else if (auto *c = dyn_cast<CallBase>(u)) k = "result of " + (c->getCalledFunction() ? c->getCalledFunction()->getName().str() : std::string("an indirect call"));
                else if (isa<ConstantPointerNull>(u) || isa<UndefValue>(u)) k = "null";
                else k = "unknown";
                wr.emplace(k, locOf(I));
            }
        };
        for (auto &B : *F) for (auto &I : B) {
            if (auto *c = dyn_cast<CallBase>(&I)) {
                auto *g = c->getCalledFunction();
                if (auto *mi = dyn_cast<MemIntrinsic>(c)) effect(I, mi->getRawDest());
                else if (g && g->isIntrinsic()) {
                    // target intrinsics with a memory destination take it as pointer argument
                    if (!c->onlyReadsMemory() && !c->isLifetimeStartOrEnd() && c->getIntrinsicID() != Intrinsic::prefetch && !isa<DbgInfoIntrinsic>(c)) for (auto &a : c->args()) if (a->getType()->isPointerTy()) effect(I, a.get());
                } else calls.emplace(g ? g->getName().str() : c->isInlineAsm() ? "inline assembly" : "indirect call", locOf(I));
            } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) effect(I, rm->getPointerOperand());
            else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) effect(I, cx->getPointerOperand());
            else if (auto *s = dyn_cast<StoreInst>(&I)) effect(I, s->getPointerOperand());
            else if (auto *l = dyn_cast<LoadInst>(&I)) {
                SmallVector<const Value *, 4> us;
                getUnderlyingObjects(l->getPointerOperand(), us, nullptr, 0);
                for (auto *u : us) if (auto *G = dyn_cast<GlobalVariable>(u)) if (!G->isConstant()) mutg.emplace(G->getName().str(), locOf(I));
            }
        }
        auto dump = [&](const char *key, std::map<std::string, std::string> &m) { json::Object q; for (auto &x : m) q[x.first] = x.second; row[key] = std::move(q); };
        dump("writes", wr); dump("calls", calls); dump("mutable", mutg);
        for (auto &B : *F) for (auto &I : B) {
            const Value *p = nullptr; Type *ty = nullptr; bool st = false;
            if (auto *l = dyn_cast<LoadInst>(&I)) p = l->getPointerOperand(), ty = l->getType();
            else if (auto *s = dyn_cast<StoreInst>(&I)) p = s->getPointerOperand(), ty = s->getValueOperand()->getType(), st = true;
            else continue;
            ++n;
            const MDNode *t = accessType(I);
            std::map<const Value *, Lin> open;
            Lin ln = lin(p, DL, open);
            SmallVector<const Value *, 4> us;
            getUnderlyingObjects(p, us, nullptr, 0);
            for (auto *u : us) {
                bool known = us.size() == 1 && ln.step == 0;
                if (!isa<Argument>(u) && !isa<GlobalVariable>(u) && !isa<AllocaInst>(u)) { ++foreign; }
                objs[u].push_back({&I, st, t, known, ln.off, (int64_t)DL.getTypeStoreSize(ty).getFixedValue(), us.size() == 1 ? ln.step : 1});
            }
        }
        // the caller's view of the argument objects
        std::map<unsigned, std::set<std::string>> decl;
        if (auto *as = o->getArray("args")) for (unsigned k = 0; k < as->size(); ++k) if (auto *ts = (*as)[k].getAsArray()) for (auto &x : *ts) decl[k].insert(x.getAsString()->str());
        auto contains = [](const MDNode *t, const MDNode *u) { // u is t or an ancestor or (struct) member chain of t
            SmallVector<const MDNode *, 8> st{t}; std::set<const MDNode *> seen;
            while (!st.empty()) { auto *q = st.pop_back_val(); if (q == u) return true; if (!seen.insert(q).second) continue;
                for (unsigned i = 1; i < q->getNumOperands(); ++i) if (auto *m = dyn_cast_or_null<MDNode>(q->getOperand(i).get())) if (!isChar(m) && !m->getNumOperands() == 0) st.push_back(m); }
            return false;
        };
        json::Array diffs; json::Array funcs;
        std::set<std::string> said, where;
        unsigned pairs = 0, decls = 0;
        for (auto &[u, v] : objs) {
            bool stores = false;
            for (auto &a : v) stores |= a.store;
            if (auto *A = dyn_cast<Argument>(u)) {
                auto it = decl.find(A->getArgNo());
                if (it != decl.end()) for (auto &a : v) {
                    ++decls;
                    if (!a.ty || it->second.count(tname(a.ty).str()) || it->second.count("*")) continue;
                    std::string d; for (auto &x : it->second) d += (d.empty() ? "" : "/") + x;
                    std::string key = locOf(*a.I);
                    if (said.insert(key).second) diffs.push_back(json::Object{{"what", objName(u) + ": " + describe(a)}, {"impl", tname(a.ty)}, {"spec", d}, {"loc", key}, {"when", "the caller accesses the same bytes as " + d}});
                }
            }
            if (auto *G = dyn_cast<GlobalVariable>(u)) if (G->isConstant()) stores = false;
            if (!stores) continue;
            for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
                auto &a = v[i], &b = v[j];
                if (!a.store && !b.store) continue;
                if (!overlap(a, b)) continue;
                ++pairs;
                if (!a.ty || !b.ty || contains(a.ty, b.ty) || contains(b.ty, a.ty)) continue;
                std::string key = locOf(*a.I) + "|" + locOf(*b.I);
                if (said.insert(key).second && diffs.size() < 20) diffs.push_back(json::Object{{"what", objName(u) + ": " + describe(a)}, {"impl", tname(a.ty)}, {"spec", describe(b)}, {"loc", locOf(*a.I)}});
            }
        }
        row["insts"] = n; row["pairs"] = pairs; row["declared"] = decls; row["foreign"] = foreign;
        if (!diffs.empty()) { row["status"] = "diff"; row["diffs"] = std::move(diffs); }
        else if (cut) { row["status"] = "limit"; row["msg"] = "call tree too large"; }
        else row["status"] = "ok";
        out << json::Value(std::move(row)) << "\n"; out.flush();
        if (!all) F->deleteBody();
    }
    return 0;
}
