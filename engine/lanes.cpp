// lanes: value-graph (lane value-numbering) dataflow analysis over LLVM IR.
//
// For every job (impl function, spec function) the analysis assigns to every bit of every SSA value
// a canonical normal form (a BDD over input bits and hash-consed operation atoms), merges at control
// flow joins with gated phis, and compares the normal forms of all observables of the two functions:
// returned bits, final memory bytes, the order of external calls, and the set of bytes touched.
// No path is enumerated, nothing is executed, no solver is called.
#include "bdd.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <string>
#include <memory>
#include <functional>
#include <cmath>
#include <cstring>
#include <cfenv>
#include <chrono>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair; using std::set;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
typedef vector<B> BV;

static Bdd M;
static string curLoc;          // source location of the instruction being analysed
static bool imprecise = false; // a push-through budget was exhausted

// ------------------------------------------------------------------ interning, variables, atoms
struct VecHash { size_t operator()(const BV &v) const { size_t h = v.size(); for (B b : v) h = Bdd::mix(h * 1099511628211ull + b); return h; } };
static std::unordered_map<BV, int, VecHash> internMap;
static vector<const BV *> internVec;
static int intern(const BV &v)
{
    auto r = internMap.emplace(v, (int)internVec.size());
    if (r.second) internVec.push_back(&r.first->first);
    return r.first->second;
}
struct VarInfo { string base; int bit; string op; vector<int> args; };
static vector<VarInfo> vars; // by seq
// key layout: class(4) | bit index(20) | seq(32)
static uint64_t mkKey(int cls, int bit, uint32_t seq) { return (uint64_t)cls << 60 | (uint64_t)(cls ? bit : 0) << 36 | seq; }
static bool isCtl(uint64_t k) { return (k >> 60) == 0; }
static VarInfo &varOf(uint64_t k) { return vars[k & 0xffffffffu]; }
static B newVar(int cls, int bit, VarInfo vi)
{
    vi.bit = bit;
    if (vars.empty()) vars.push_back(VarInfo()); // key 0 means 'none'
    vars.push_back(std::move(vi));
    return M.mk(mkKey(cls, bit, vars.size() - 1), F, T);
}
static B newVarN(int cls, int bit, const string &base) { VarInfo v; v.base = base; return newVar(cls, bit, v); }
typedef pair<string, vector<int>> AKey;
static map<AKey, BV> atoms;
static map<AKey, BV> pushMemo;
static map<int, vector<int>> acSets[8];
static std::unordered_map<int, int> notNan; // interned vec -> known not nan
static bool optAC = false, optFcmpExact = false, optDep = false, optLaneMajor = false, optOrder = false, optFast = false, optFbits = false;

static bool isConst(const BV &v) { for (B b : v) if (b > 1) return false; return true; }
static uint64_t constVal(const BV &v) { uint64_t r = 0; for (size_t i = 0; i < v.size() && i < 64; ++i) if (v[i] == T) r |= 1ull << i; return r; }
static BV constBV(uint64_t x, int w) { BV r(w); for (int i = 0; i < w; ++i) r[i] = i < 64 ? (x >> i & 1) : 0; return r; }
static BV iteBV(B c, const BV &a, const BV &b)
{
    if (c == T) return a;
    if (c == F) return b;
    BV r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r[i] = M.ite(c, a[i], b[i]);
    return r;
}
static BV slice(const BV &v, size_t lo, size_t n) { return BV(v.begin() + lo, v.begin() + lo + n); }
static void append(BV &r, const BV &x) { r.insert(r.end(), x.begin(), x.end()); }
static uint64_t topKey(const BV &v) { uint64_t k = ~0ull; for (B b : v) k = std::min(k, M.key(b)); return k; }
static BV cofBV(const BV &v, uint64_t k, bool x) { BV r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = M.cof(v[i], k, x); return r; }

// An uninterpreted operation: one fresh variable per result bit, hash-consed on the operands' forms.
static BV atom(const string &op, const vector<int> &args, int w, bool ctl = false, int cls = 1)
{
    AKey k(op, args);
    auto it = atoms.find(k);
    if (it != atoms.end()) return it->second;
    BV r(w);
    for (int i = 0; i < w; ++i) { VarInfo vi; vi.op = op; vi.args = args; r[i] = newVar(ctl ? 0 : cls, i, vi); }
    atoms[k] = r;
    return r;
}
// Distribute an operation over control conditions occurring in its operands.
struct Push {
    const string &op;
    const std::function<BV(const vector<BV> &)> &leaf;
    int budget;
    BV go(const vector<BV> &a)
    {
        uint64_t k = ~0ull;
        for (auto &v : a) k = std::min(k, topKey(v));
        if (k == ~0ull || !isCtl(k)) return leaf(a);
        AKey mk(op, {});
        for (auto &v : a) mk.second.push_back(intern(v));
        auto it = pushMemo.find(mk);
        if (it != pushMemo.end()) return it->second;
        if (--budget < 0) throw 1;
        vector<BV> l, h;
        for (auto &v : a) { l.push_back(cofBV(v, k, 0)); h.push_back(cofBV(v, k, 1)); }
        BV rl = go(l), rh = go(h);
        BV r = iteBV(M.mk(k, F, T), rh, rl);
        pushMemo[mk] = r;
        return r;
    }
};
static int pushBudget = 60000;
static bool haveAssume();
static B relevantFor(const vector<BV> &a);
static BV push(const string &op, const vector<BV> &a0, const std::function<BV(const vector<BV> &)> &leaf)
{
    const vector<BV> *ap = &a0;
    vector<BV> tmp;
    if (haveAssume()) { // canonicalise the operands modulo the assumptions
        B c = relevantFor(a0);
        if (c != T) { tmp = a0; for (auto &v : tmp) for (B &b : v) b = M.constrain(b, c); ap = &tmp; }
    }
    const vector<BV> &a = *ap;
    Push p{op, leaf, pushBudget};
    try { return p.go(a); }
    catch (int) { imprecise = true; return leaf(a); }
}

// ------------------------------------------------------------------ integer arithmetic on bits
static BV addBV(const BV &a, const BV &b, B cin = F, B *cout = nullptr)
{
    BV r(a.size());
    B c = cin;
    for (size_t i = 0; i < a.size(); ++i) {
        B x = M.Xor(a[i], b[i]);
        r[i] = M.Xor(x, c);
        c = M.ite(x, c, a[i]);
    }
    if (cout) *cout = c;
    return r;
}
static BV notBV(BV a) { for (B &b : a) b ^= 1; return a; }
static BV negBV(const BV &a) { return addBV(constBV(0, a.size()), notBV(a), T); }
static BV subBV(const BV &a, const BV &b) { return addBV(a, notBV(b), T); }
static B ultBV(const BV &a, const BV &b) { B lt = F; for (size_t i = 0; i < a.size(); ++i) lt = M.ite(M.Xor(a[i], b[i]), b[i], lt); return lt; }
static B sltBV(const BV &a, const BV &b)
{
    BV x = a, y = b;
    x.back() ^= 1; y.back() ^= 1;
    return ultBV(x, y);
}
static B eqBV(const BV &a, const BV &b) { B e = T; for (int i = (int)a.size() - 1; i >= 0; --i) e = M.And(e, M.Xor(a[i], b[i]) ^ 1); return e; }
static BV zextBV(BV a, int w) { a.resize(w, F); return a; }
static BV sextBV(BV a, int w) { B s = a.back(); a.resize(w, s); return a; }
static B anyBV(const BV &a) { B r = F; for (B b : a) r = M.Or(r, b); return r; }
static BV shiftK(const BV &a, int64_t k, B fill) // k>0 left
{
    int w = a.size();
    BV r(w);
    for (int i = 0; i < w; ++i) { int64_t j = i - k; r[i] = j < 0 ? F : j >= w ? fill : a[j]; }
    return r;
}
// kind 0 shl 1 lshr 2 ashr; amounts >= width give 0 / sign fill (the hardware semantics)
static BV shiftBV(int kind, const BV &a, const BV &amt)
{
    int w = a.size();
    B fill = kind == 2 ? a.back() : F;
    BV r = a;
    B big = F;
    for (size_t j = 0; j < amt.size(); ++j) {
        if (amt[j] == F) continue;
        if (j < 16 && (1 << j) < w) {
            BV s = kind == 0 ? shiftK(r, 1 << j, F) : shiftK(r, -(1 << j), fill);
            r = iteBV(amt[j], s, r);
        } else big = M.Or(big, amt[j]);
    }
    if ((w & (w - 1)) != 0) { /* amounts between w and next power of two shift everything out already */ }
    if (big != F) r = iteBV(big, BV(w, fill), r);
    return r;
}
static BV popcountBV(const BV &a, int w)
{
    BV r(w, F);
    for (B b : a) { if (b == F) continue; BV x(w, F); x[0] = b; // increment
        B c = b; for (int i = 0; i < w && c != F; ++i) { B s = M.Xor(r[i], c); c = M.And(r[i], c); r[i] = s; } }
    return r;
}
static BV ctzBV(const BV &a, int w)
{
    BV r = constBV(a.size(), w);
    for (int i = (int)a.size() - 1; i >= 0; --i) r = iteBV(a[i], constBV(i, w), r);
    return r;
}
static BV clzBV(const BV &a, int w)
{
    BV r = constBV(a.size(), w);
    for (int i = 0; i < (int)a.size(); ++i) r = iteBV(a[i], constBV(a.size() - 1 - i, w), r);
    return r;
}
static BV minSigned(BV a) { while (a.size() > 1 && a[a.size() - 1] == a[a.size() - 2]) a.pop_back(); return a; }

// ------------------------------------------------------------------ order abstraction (option "order")
// Programs that only move values and take minima/maxima of pairs: comparisons of data become predicate atoms,
// a value  p(x<y) ? x : y  (or y : x) becomes min(x,y) (max(x,y)), and two such values are compared through
// their threshold images: for every threshold t, [min(x,y)>=t] = [x>=t] and [y>=t], [max(x,y)>=t] = [x>=t] or [y>=t].
// Equal images for all t means equal values.  NaN is outside the domain and +0 equals -0.
struct OrdNode { bool flt, isMin; int a, b; };
static std::unordered_map<int, OrdNode> ordNode;               // interned min/max value -> operands
static std::unordered_map<uint32_t, OrdNode> ordPred;          // predicate variable seq -> a<b
static std::unordered_set<uint32_t> ordBits;                   // variable seqs of min/max value bits
static map<pair<bool, int>, B> ordThr, ordLeaf;
static map<pair<bool, int>, BV> ordCanonMemo;
static BV flipMsb(BV v) { v.back() ^= 1; return v; }
static void suppOf(const BV &v, vector<uint64_t> &out) { std::unordered_set<uint32_t> seen; for (B b : v) M.support(b, seen, out); std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); }
static BV ordMinMax(bool flt, bool isMin, const BV &a, const BV &b) // operands canonical
{
    int i = intern(a), j = intern(b), w = a.size();
    if (i == j) return a;
    for (int k = 0; k < 2; ++k) { // neutral and absorbing constants
        const BV &c = k ? b : a, &o = k ? a : b;
        if (!isConst(c)) continue;
        uint64_t v = constVal(c), all = w == 64 ? ~0ull : (1ull << w) - 1, inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, ninf = inf | 1ull << (w - 1);
        if (v == (flt ? inf : all)) return isMin ? o : c;
        if (v == (flt ? ninf : 0)) return isMin ? c : o;
    }
    if (i > j) std::swap(i, j);
    BV r = atom(string(isMin ? "min" : "max") + (flt ? "f" : "u"), {i, j}, w);
    ordNode[intern(r)] = {flt, isMin, i, j};
    for (B x : r) ordBits.insert((uint32_t)(M.key(x) & 0xffffffffu));
    return r;
}
static BV ordCanon(bool flt, const BV &v)
{
    pair<bool, int> mk(flt, intern(v));
    auto it = ordCanonMemo.find(mk);
    if (it != ordCanonMemo.end()) return it->second;
    vector<uint64_t> sup;
    suppOf(v, sup);
    uint64_t best = 0; uint32_t bs = 0; uint64_t ctl = 0;
    for (uint64_t k : sup) {
        uint32_t q = k & 0xffffffffu;
        if (ordPred.count(q)) { if (q >= bs) { bs = q; best = k; } }
        else if (isCtl(k) && !ctl) ctl = k;
    }
    BV r = v;
    if (best) {
        const OrdNode p = ordPred[bs];
        B var = M.mk(best, F, T);
        BV c1 = v, c0 = v;
        for (B &b : c1) b = M.constrain(b, var);
        for (B &b : c0) b = M.constrain(b, var ^ 1);
        bool done = false;
        if (p.flt == flt && internVec[p.a]->size() == v.size()) {
            c1 = ordCanon(flt, c1); c0 = ordCanon(flt, c0);
            int i1 = intern(c1), i0 = intern(c0);
            if (i1 == p.a && i0 == p.b) { r = ordMinMax(flt, true, c1, c0); done = true; }
            else if (i1 == p.b && i0 == p.a) { r = ordMinMax(flt, false, c1, c0); done = true; }
        }
        if (!done && ctl) {
            BV l = v, h = v;
            B cv = M.mk(ctl, F, T);
            for (B &b : h) b = M.constrain(b, cv);
            for (B &b : l) b = M.constrain(b, cv ^ 1);
            r = iteBV(cv, ordCanon(flt, h), ordCanon(flt, l));
        }
    }
    ordCanonMemo[mk] = r;
    return r;
}
// x < y as a predicate atom; false when the comparison is not one of data values
static bool ordLess(int kind, const BV &x0, const BV &y0, B &out) // kind 0 unsigned 1 signed 2 float
{
    int w = x0.size();
    if (!optOrder || (w != 16 && w != 32 && w != 64)) return false;
    bool data = false;
    for (const BV *v : {&x0, &y0}) { vector<uint64_t> s; suppOf(*v, s); for (uint64_t k : s) if (!isCtl(k)) data = true; }
    if (!data) return false;
    BV x = ordCanon(kind == 2, kind == 1 ? flipMsb(x0) : x0), y = ordCanon(kind == 2, kind == 1 ? flipMsb(y0) : y0);
    int i = intern(x), j = intern(y);
    if (i == j) { out = F; return true; }
    BV p = atom(kind == 2 ? "ltf" : "ltu", {i, j}, 1, true);
    ordPred[(uint32_t)(M.key(p[0]) & 0xffffffffu)] = {kind == 2, true, i, j};
    out = p[0];
    return true;
}
static BV ordPick(int kind, bool isMin, const BV &x0, const BV &y0)
{
    bool f = kind == 2;
    BV x = ordCanon(f, kind == 1 ? flipMsb(x0) : x0), y = ordCanon(f, kind == 1 ? flipMsb(y0) : y0);
    BV r = ordMinMax(f, isMin, x, y);
    return kind == 1 ? flipMsb(r) : r;
}
// replace comparison-selected lanes by their minima/maxima as soon as they are complete
static void ordNorm(BV &r)
{
    if (!optOrder) return;
    for (int w : {16, 32, 64}) {
        if ((int)r.size() % w) continue;
        for (size_t o = 0; o < r.size(); o += w) {
            BV c = slice(r, o, w);
            if (isConst(c)) continue;
            vector<uint64_t> s;
            suppOf(c, s);
            int kinds = 0;
            for (uint64_t k : s) { auto p = ordPred.find(k & 0xffffffffu); if (p != ordPred.end() && (int)internVec[p->second.a]->size() == w) kinds |= p->second.flt ? 2 : 1; }
            for (int kind = 0; kind < 3; ++kind) {
                if (!(kinds & (kind == 2 ? 2 : 1))) continue;
                BV q = kind == 1 ? flipMsb(ordCanon(false, flipMsb(c))) : ordCanon(kind == 2, c);
                if (q != c) { std::copy(q.begin(), q.end(), r.begin() + o); break; }
            }
        }
    }
}
static B ordCons; // what the comparison predicates in use say about the threshold images
static B ordThreshold(bool flt, const BV &v0)
{
    BV v = ordCanon(flt, v0);
    pair<bool, int> mk(flt, intern(v));
    auto it = ordThr.find(mk);
    if (it != ordThr.end()) return it->second;
    B r;
    auto nd = ordNode.find(mk.second);
    if (nd != ordNode.end() && nd->second.flt == flt) {
        OrdNode n = nd->second;
        B p = ordThreshold(flt, *internVec[n.a]), q = ordThreshold(flt, *internVec[n.b]);
        r = n.isMin ? M.And(p, q) : M.Or(p, q);
    } else if (isConst(v) && !flt && constVal(v) == 0) r = F;
    else if (isConst(v) && !flt && constVal(notBV(v)) == 0) r = T;
    else if (isConst(v) && flt && (v.size() == 32 ? constVal(v) == 0x7f800000u : constVal(v) == 0x7ff0000000000000ull)) r = T;
    else if (isConst(v) && flt && (v.size() == 32 ? constVal(v) == 0xff800000u : constVal(v) == 0xfff0000000000000ull)) r = F;
    else {
        vector<uint64_t> sup;
        suppOf(v, sup);
        uint64_t ctl = 0, pk = 0;
        uint32_t ps = 0;
        for (uint64_t k : sup) {
            uint32_t q = k & 0xffffffffu;
            if (ordPred.count(q)) {
                if (ordPred[q].flt != flt || internVec[ordPred[q].a]->size() != v.size()) throw Unsupported("order: a value depends on a comparison of another type");
                if (q >= ps) { ps = q; pk = k; }
            } else if (isCtl(k) && !ctl) ctl = k;
        }
        if (pk) { // a branch on x < y: every image satisfies x > t => y > t where it is taken, y > t => x > t elsewhere
            const OrdNode n = ordPred[ps];
            BV l = v, h = v;
            B cv = M.mk(pk, F, T);
            for (B &b : h) b = M.constrain(b, cv);
            for (B &b : l) b = M.constrain(b, cv ^ 1);
            B p = ordThreshold(flt, *internVec[n.a]), q = ordThreshold(flt, *internVec[n.b]);
            ordCons = M.And(ordCons, M.ite(cv, M.Or(p ^ 1, q), M.Or(q ^ 1, p)));
            r = M.ite(cv, ordThreshold(flt, h), ordThreshold(flt, l));
        } else if (ctl) {
            BV l = v, h = v;
            B cv = M.mk(ctl, F, T);
            for (B &b : h) b = M.constrain(b, cv);
            for (B &b : l) b = M.constrain(b, cv ^ 1);
            r = M.ite(cv, ordThreshold(flt, h), ordThreshold(flt, l));
        } else {
            for (uint64_t k : sup) if (ordBits.count(k & 0xffffffffu)) throw Unsupported("order: a minimum/maximum is modified");
            VarInfo vi; vi.op = "threshold"; vi.args = {mk.second};
            r = newVar(2, 0, vi);
        }
    }
    ordThr[mk] = r;
    return r;
}
// the set of inputs for which x and y differ as values
static B ordDiff(const BV &x, const BV &y)
{
    bool any = false, flt = false, ints = false;
    for (const BV *v : {&x, &y}) {
        vector<uint64_t> s; suppOf(*v, s);
        for (uint64_t k : s) {
            uint32_t q = k & 0xffffffffu;
            auto p = ordPred.find(q);
            if (p != ordPred.end()) { any = true; (p->second.flt ? flt : ints) = true; }
            if (ordBits.count(q)) { any = true; (vars[q].op.back() == 'f' ? flt : ints) = true; }
        }
    }
    if (!any) { B r = F; for (size_t i = 0; i < x.size(); ++i) r = M.Or(r, M.Xor(x[i], y[i])); return r; }
    string why;
    for (int kind = 0; kind < 3; ++kind) {
        if (kind == 2 ? !flt : !ints) continue;
        try {
            B a = ordThreshold(kind == 2, kind == 1 ? flipMsb(x) : x), b = ordThreshold(kind == 2, kind == 1 ? flipMsb(y) : y);
            return M.And(M.Xor(a, b), ordCons);
        } catch (Unsupported &e) { why = e.what(); }
    }
    throw Unsupported(why);
}
static BV mulLeaf(const BV &a, const BV &b)
{
    int w = a.size();
    if (isConst(a) && !isConst(b)) return mulLeaf(b, a);
    if (isConst(b) && w <= 64) {
        uint64_t c = constVal(b);
        if (isConst(a)) return constBV(constVal(a) * c, w);
        uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
        uint64_t nc = (~c + 1) & mask;
        int tz = c ? __builtin_ctzll(c) : 0;
        if (c == 0) return constBV(0, w);
        if (c >> tz == 1) return shiftK(a, tz, F);
        if (__builtin_popcountll(nc) == 1) return negBV(shiftK(a, __builtin_ctzll(nc), F));
        {   // replication: the shifted copies do not overlap
            int sw = w;
            while (sw > 0 && a[sw - 1] == F) --sw;
            bool disj = true;
            for (int i = 0, last = -1000; i < w; ++i) if (c >> i & 1) { if (i - last < sw) disj = false; last = i; }
            if (disj) {
                BV r(w, F);
                for (int i = 0; i < w; ++i) if (c >> i & 1) for (int k = 0; k < sw && i + k < w; ++k) r[i + k] = a[k];
                return r;
            }
        }
        if ((c >> tz) < 64 && __builtin_popcountll(c) <= 4) {
            BV r = constBV(0, w);
            for (int i = 0; i < w; ++i) if (c >> i & 1) r = addBV(r, shiftK(a, i, F));
            return r;
        }
    }
    // trailing known zeros factor out
    {
        int za = 0, zb = 0;
        while (za < w && a[za] == F) ++za;
        while (zb < w && b[zb] == F) ++zb;
        if (za + zb > 0) {
            if (za + zb >= w) return constBV(0, w);
            int nw = w - za - zb;
            BV r = mulLeaf(slice(a, za, nw), slice(b, zb, nw));
            BV o(za + zb, F);
            append(o, r);
            return o;
        }
    }
    if (optAC) {
        int ia = intern(a), ib = intern(b);
        vector<int> l;
        auto add = [&](int i) { auto it = acSets[3].find(i); if (it == acSets[3].end()) l.push_back(i); else l.insert(l.end(), it->second.begin(), it->second.end()); };
        add(ia); add(ib);
        std::sort(l.begin(), l.end());
        BV r = atom("mulset", l, w);
        acSets[3][intern(r)] = l;
        return r;
    }
    BV r(w);
    for (int j = 0; j < w; ++j) {
        int x = intern(slice(a, 0, j + 1)), y = intern(slice(b, 0, j + 1));
        if (x > y) std::swap(x, y);
        if (j == 0) { r[0] = M.And(a[0], b[0]); continue; }
        AKey k("mul", {x, y});
        auto it = atoms.find(k);
        if (it != atoms.end()) { r[j] = it->second[0]; continue; }
        VarInfo vi; vi.op = "mul"; vi.args = {x, y};
        r[j] = newVar(1, j, vi);
        atoms[k] = {r[j]};
    }
    return r;
}
static BV mulBV(const BV &a, const BV &b) { if (optFast) return mulLeaf(a, b); return push("mul", {a, b}, [](const vector<BV> &v) { return mulLeaf(v[0], v[1]); }); }

static BV sdivMin(const BV &a0, const BV &b0, int w) // signed division on minimal forms, result sign-extended to w
{
    BV a = minSigned(a0), b = minSigned(b0);
    if (isConst(a) && isConst(b) && a.size() <= 64 && b.size() <= 64) {
        int64_t x = (int64_t)(constVal(sextBV(a, 64))), y = (int64_t)(constVal(sextBV(b, 64)));
        if (y != 0 && !(y == -1 && x == INT64_MIN)) return constBV(x / y, w);
    }
    if (isConst(b) && b.size() <= 64) {
        int64_t y = (int64_t)constVal(sextBV(b, 64));
        if (y == 1) return sextBV(a, std::max(w, (int)a.size()));
        if (y == -1) return slice(negBV(sextBV(a, std::max(w, (int)a.size() + 1))), 0, w);
        if (y > 0 && (y & (y - 1)) == 0) { // power of two: round towards zero
            int k = __builtin_ctzll(y);
            int ww = std::max(w, (int)a.size() + 1);
            BV x = sextBV(a, ww), bias(ww, F);
            for (int i = 0; i < k; ++i) bias[i] = x.back();
            BV s = addBV(x, bias);
            return slice(shiftK(s, -k, s.back()), 0, w);
        }
    }
    int aw = a.size() + 1;
    BV r = atom("sdiv", {intern(a), intern(b)}, aw - 1);
    r.push_back(r.back());
    if (b.back() == F && a.back() == F) { r[aw - 1] = F; r[aw - 2] = F; } // both non-negative
    else { // only MIN / -1 needs one more bit
        BV mn(a.size(), F); mn.back() = T;
        B ov = M.And(eqBV(a, mn), eqBV(b, BV(b.size(), T)));
        for (int i = 0; i < aw; ++i) r[i] = M.ite(ov, i == aw - 2 ? T : F, r[i]);
    }
    if (aw > 32) { // division by one
        B one = eqBV(b, constBV(1, b.size()));
        if (one != F) r = iteBV(one, sextBV(a, aw), r);
    }
    if (aw >= w) return slice(r, 0, w);
    return sextBV(r, w);
}
static BV sdivBV(const BV &a, const BV &b) { int w = a.size(); return push("sdiv" + std::to_string(w), {a, b}, [w](const vector<BV> &v) { return sdivMin(v[0], v[1], w); }); }
static BV udivBV(const BV &a, const BV &b)
{
    int w = a.size();
    return push("udiv" + std::to_string(w), {a, b}, [w](const vector<BV> &v) {
        return slice(sdivMin(zextBV(v[0], w + 1), zextBV(v[1], w + 1), w + 1), 0, w);
    });
}

// ------------------------------------------------------------------ floating point
static int expBits(int w) { return w == 16 ? 5 : w == 32 ? 8 : w == 64 ? 11 : 15; }
static int manBits(int w) { return w == 16 ? 10 : w == 32 ? 23 : w == 64 ? 52 : 64; }
static float asF(const BV &v) { uint32_t x = constVal(v); float f; memcpy(&f, &x, 4); return f; }
static double asD(const BV &v) { uint64_t x = constVal(v); double f; memcpy(&f, &x, 8); return f; }
static BV fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return constBV(x, 32); }
static BV fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return constBV(x, 64); }
static BV fnegBV(BV a) { a.back() ^= 1; return a; }
static bool constIs(const BV &v, double d)
{
    if (!isConst(v)) return false;
    if (v.size() == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return constVal(v) == x; }
    uint64_t x; memcpy(&x, &d, 8);
    return constVal(v) == x;
}
// ------------------------------------------------------------------ bit-exact floating point (option "fbits")
static BV underBV(const BV &v, B c) { if (c == T) return v; BV r = v; for (B &b : r) b = M.constrain(b, c); return r; }
static vector<pair<int, B>> expCases(const BV &x) // every possible exponent field value of x
{
    int w = x.size(), mb = manBits(w), eb = expBits(w);
    BV e = slice(x, mb, eb);
    vector<pair<int, B>> cur{{0, T}};
    for (int i = eb - 1; i >= 0; --i) {
        vector<pair<int, B>> nx;
        for (auto &c : cur) {
            B h = M.And(c.second, e[i]), l = M.And(c.second, e[i] ^ 1);
            if (l != F) nx.push_back({c.first, l});
            if (h != F) nx.push_back({c.first | 1 << i, h});
        }
        cur.swap(nx);
    }
    return cur;
}
// round to an integral value: 0 nearest even, 1 floor, 2 ceil, 3 truncate
static BV roundBits(const BV &x, int mode)
{
    int w = x.size(), mb = manBits(w), eb = expBits(w), bias = (1 << (eb - 1)) - 1;
    BV r = x;
    B s = x.back();
    for (auto &c : expCases(x)) {
        if (c.first >= bias + mb) continue;
        BV y = underBV(x, c.second), z(w, F);
        B man = anyBV(slice(y, 0, mb)), sg = y.back(), up;
        if (c.first < bias) {
            B nz = c.first ? T : man;
            up = mode == 3 ? F : mode == 1 ? M.And(nz, sg) : mode == 2 ? M.And(nz, sg ^ 1) : c.first == bias - 1 ? man : F;
            for (int i = mb; i < mb + eb - 1; ++i) z[i] = up; // 1.0
        } else {
            int f = mb - (c.first - bias);
            B frac = anyBV(slice(y, 0, f)), odd = f < mb ? y[f] : T, half = y[f - 1], low = f > 1 ? anyBV(slice(y, 0, f - 1)) : F;
            up = mode == 3 ? F : mode == 1 ? M.And(frac, sg) : mode == 2 ? M.And(frac, sg ^ 1) : M.And(half, M.Or(low, odd));
            BV mag = slice(y, f, w - 1 - f);
            mag = addBV(mag, constBV(0, mag.size()), up);
            for (size_t i = 0; i < mag.size(); ++i) z[f + i] = mag[i];
        }
        z.back() = sg;
        r = iteBV(c.second, z, r);
    }
    r.back() = s;
    return r;
}
// magnitude mag * 2^(exponent of one ulp at biased exponent e0) -> fp, round to nearest even
static BV packBits(int w, B sg, const BV &mag0, int e0)
{
    int mb = manBits(w), eb = expBits(w), mx = (1 << eb) - 1, n = mag0.size();
    BV r(w, F);
    r.back() = sg;
    B sofar = T;
    for (int p = n - 1; p >= 0 && sofar != F; --p) {
        B c = M.And(sofar, mag0[p]);
        sofar = M.And(sofar, mag0[p] ^ 1);
        if (c == F) continue;
        BV mag = underBV(mag0, c), z(w, F);
        int fe = e0 + p - mb; // biased exponent of the result before rounding
        int drop = p - mb;    // bits below the significand
        if (fe < 1) { drop += 1 - fe; fe = 0; }
        BV q; // significand with implicit bit
        if (drop <= 0) { q = BV(-drop, F); for (int i = 0; i <= p; ++i) q.push_back(mag[i]); }
        else {
            for (int i = drop; i <= p; ++i) q.push_back(mag[i]);
            B half = drop - 1 <= p ? mag[drop - 1] : F, low = F;
            for (int i = 0; i + 1 < drop && i <= p; ++i) low = M.Or(low, mag[i]);
            q.resize(std::max((int)q.size(), mb + 1), F);
            q.push_back(F);
            q = addBV(q, constBV(0, q.size()), M.And(half, M.Or(low, q[0])));
        }
        q.resize(mb + 2, F);
        // packed = (fe - (fe>0)) << mb + q
        BV pk = addBV(zextBV(q, mb + eb + 1), zextBV(shiftK(constBV(fe > 0 ? fe - 1 : 0, mb + eb + 1), mb, F), mb + eb + 1));
        B ovf = pk[mb + eb];
        B all = T;
        for (int i = mb; i < mb + eb; ++i) all = M.And(all, pk[i]);
        ovf = M.Or(ovf, all);
        if (fe >= mx) ovf = T;
        for (int i = 0; i < mb + eb; ++i) z[i] = i < mb ? M.And(pk[i], ovf ^ 1) : M.Or(pk[i], ovf);
        z.back() = underBV({sg}, c)[0];
        r = iteBV(c, z, r);
    }
    return r;
}
static BV faddConstBits(const BV &x, const BV &cst) // cst: a finite constant
{
    int w = x.size(), mb = manBits(w), eb = expBits(w), mx = (1 << eb) - 1;
    uint64_t cv = constVal(cst);
    int ce = cv >> mb & mx;
    uint64_t cm = cv & ((1ull << mb) - 1);
    if (ce == mx) throw Unsupported("fbits: addition of an infinity");
    bool cneg = cst.back() == T;
    if (ce) cm |= 1ull << mb;
    int cee = ce ? ce : 1;
    BV r = x;
    for (auto &ca : expCases(x)) {
        if (ca.first == mx) continue;
        for (int sg = 0; sg < 2; ++sg) {
            B cond = M.And(ca.second, sg ? x.back() : x.back() ^ 1);
            if (cond == F) continue;
            BV m = underBV(slice(x, 0, mb), cond);
            m.push_back(ca.first ? T : F);
            int xe = ca.first ? ca.first : 1;
            BV z;
            if (cm && xe - cee > mb + 2) continue;
            if (cm && cee - xe > mb + 2) z = cst;
            else {
                int lo = cm ? std::min(xe, cee) : xe, n = mb + 3 + std::abs(cm ? xe - cee : 0);
                BV A = shiftK(zextBV(m, n + 1), xe - lo, F), C(n + 1, F);
                if (cm) C = shiftK(zextBV(constBV(cm, mb + 1), n + 1), cee - lo, F);
                BV sum;
                B neg;
                if ((sg != 0) == cneg) { sum = addBV(A, C); neg = sg; }
                else {
                    BV d = subBV(A, C); // |A| - |C|
                    B bor = d.back();
                    sum = iteBV(bor, negBV(d), d);
                    neg = M.And(M.Xor(bor, sg ? T : F), anyBV(d));
                }
                z = packBits(w, neg, sum, lo);
            }
            r = iteBV(cond, z, r);
        }
    }
    return r;
}
// an operand that takes few values: {F, T, c, !c} bits only
static B fewValued(const BV &v)
{
    B c = F;
    for (B b : v) { if (b <= 1) continue; B n = b & ~(B)1; if (c == F) c = n; else if (c != n) return F; }
    return c;
}
static BV faddBits(const BV &a, const BV &b)
{
    if (isConst(b)) return isConst(a) ? BV() : faddConstBits(a, b);
    if (isConst(a)) return faddConstBits(b, a);
    for (int k = 0; k < 2; ++k) {
        const BV &v = k ? a : b, &o = k ? b : a;
        B c = fewValued(v);
        if (c == F) continue;
        BV r[2];
        for (int h = 0; h < 2; ++h) {
            B cc = h ? c : c ^ 1;
            BV vv = underBV(v, cc), oo = underBV(o, cc);
            if (isConst(vv) && isConst(oo)) return BV();
            r[h] = faddBits(oo, vv);
            if (r[h].empty()) return BV();
        }
        return iteBV(c, r[1], r[0]);
    }
    return BV();
}
static BV cvttBits(const BV &x, int w) // out of range: indefinite
{
    int fw = x.size(), mb = manBits(fw), eb = expBits(fw), bias = (1 << (eb - 1)) - 1;
    BV mn(w, F), r;
    mn.back() = T;
    r = mn;
    for (auto &c : expCases(x)) {
        int k = c.first - bias;
        if (k > w - 2) continue;
        BV z(w, F);
        if (k >= 0) {
            BV y = underBV(x, c.second), m = slice(y, 0, mb);
            m.push_back(T);
            for (int i = 0; i <= k; ++i) { int j = i + mb - k; z[i] = j >= 0 && j <= mb ? m[j] : F; }
            z = iteBV(y.back(), negBV(z), z);
        }
        r = iteBV(c.second, z, r);
    }
    return r;
}
struct IToF { BV src; };
static std::unordered_map<int, BV> itofSrc; // interned fp vec -> minimal signed integer source
static std::unordered_map<int, pair<int, int>> fdivSrc;
static std::unordered_map<int, BV> fpextSrc;
static std::unordered_map<int, BV> nanSrc; // (sign cleared) values that are NaN exactly if their source is
static void setNanSrc(BV r, const BV &x) { r.back() = F; nanSrc[intern(r)] = x; }
static std::unordered_map<int, pair<int, BV>> nanSrc2; // (sign cleared) 0: NaN if the source is NaN or infinite; 1: if the source is NaN or below zero
static bool finNonzero(const BV &c) { if (!isConst(c)) return false; double d = c.size() == 32 ? asF(c) : asD(c); return std::isfinite(d) && d != 0; }

// fp values whose floor is known as an integer: v in [fl, fl+1), v == fl iff isint (all under `valid`)
struct FloorInfo { BV fl; B isint, valid; };
static std::unordered_map<int, FloorInfo> floorSrc;
static BV fminSigned(const BV &a);
static bool constInt(const BV &v, BV &o) // an integral fp constant
{
    if (!isConst(v) || (v.size() != 32 && v.size() != 64)) return false;
    double d = v.size() == 32 ? asF(v) : asD(v);
    if (!(d == std::trunc(d) && std::fabs(d) < 4e18)) return false;
    o = fminSigned(constBV((int64_t)d, 64));
    return true;
}
static BV itofBV(const BV &a, int w);
// the integer (minimal signed form) an fp value is known to be the exact conversion of
static bool intSource(const BV &v, BV &o)
{
    int w = v.size();
    if (w != 32 && w != 64) return false;
    auto it = itofSrc.find(intern(v));
    if (it != itofSrc.end()) { o = it->second; return true; }
    if (isConst(v)) {
        double d = w == 32 ? asF(v) : asD(v);
        if (d == std::trunc(d) && std::fabs(d) < 4e18 && !(d == 0 && std::signbit(d))) { o = minSigned(constBV((int64_t)d, 64)); return true; }
    }
    return false;
}
static BV fminSigned(const BV &a) { return minSigned(a); }
static bool divSource(const BV &v, BV &A, BV &Bq) // v == fdiv(exact ints) with trunc(v) == A / Bq
{
    auto fd = fdivSrc.find(intern(v));
    if (fd == fdivSrc.end()) return false;
    int lim = v.size() == 32 ? 17 : 33;
    return intSource(*internVec[fd->second.first], A) && intSource(*internVec[fd->second.second], Bq) && (int)A.size() <= lim && (int)Bq.size() <= lim;
}
static BV fbinLeaf(const string &op, const BV &a, const BV &b)
{
    int w = a.size();
    if (isConst(a) && isConst(b) && (w == 32 || w == 64)) {
        if (w == 32) {
            volatile float x = asF(a), y = asF(b), r = 0;
            if (op == "fadd") r = x + y; else if (op == "fmul") r = x * y; else if (op == "fdiv") r = x / y; else if (op == "frem") r = std::fmod((float)x, (float)y); else goto no;
            if (r != r) return fromF(NAN);
            return fromF(r);
        } else {
            volatile double x = asD(a), y = asD(b), r = 0;
            if (op == "fadd") r = x + y; else if (op == "fmul") r = x * y; else if (op == "fdiv") r = x / y; else if (op == "frem") r = std::fmod((double)x, (double)y); else goto no;
            if (r != r) return fromD(NAN);
            return fromD(r);
        }
    }
no:
    if (op == "fadd" && optFbits && (w == 32 || w == 64)) { BV r = faddBits(a, b); if (!r.empty()) return r; }
    if (op == "fadd") {
        if (constIs(b, -0.0)) return a;
        if (constIs(a, -0.0)) return b;
        {   // sums of exactly converted integers are exact when they fit the significand
            BV p, q;
            if (intSource(a, p) && intSource(b, q)) {
                int n = std::max(p.size(), q.size()) + 1;
                BV sum = minSigned(addBV(sextBV(p, n), sextBV(q, n))); // (the sum of exact operands, rounded like a conversion)
                return itofBV(sum, w);
            }
        }
        {   // adding an integral constant to a value of known floor
            BV c;
            bool cb = isConst(b);
            auto fs = floorSrc.find(intern(cb ? a : b));
            if (fs != floorSrc.end() && constInt(cb ? b : a, c)) {
                FloorInfo fi = fs->second, r2;
                int n = std::max(fi.fl.size(), c.size()) + 1, mb = manBits(w);
                BV x = sextBV(fi.fl, n), cc = sextBV(c, n);
                BV sum = addBV(x, cc);
                r2.fl = minSigned(sum);
                r2.isint = fi.isint;
                // exact when integral and small, or by Sterbenz' lemma (y/2 <= v <= 2y for y = -c)
                auto fits = [&](const BV &v) { B o = T; for (int i = mb; i < (int)v.size(); ++i) o = M.And(o, M.Xor(v[i], v.back()) ^ 1); return o; };
                B ex = M.And(fi.isint, M.And(fits(x), fits(sum)));
                if (c.back() == T) {
                    BV y = sextBV(negBV(cc), n + 2), xx = sextBV(x, n + 2);
                    BV x2 = xx, y2 = y;
                    for (int i = n + 1; i > 0; --i) { x2[i] = xx[i - 1]; y2[i] = y[i - 1]; }
                    x2[0] = y2[0] = F;
                    B st = M.And(sltBV(x2, y) ^ 1, sltBV(xx, y2)); // y <= 2*floor(v), floor(v) < 2y
                    ex = M.Or(ex, st);
                }
                r2.valid = M.And(fi.valid, ex);
                int x1 = intern(a), y1 = intern(b);
                if (x1 > y1) std::swap(x1, y1);
                BV r = atom("fadd", {x1, y1}, w);
                if (r2.valid != F) floorSrc[intern(r)] = r2;
                return r;
            }
        }
        if (optAC) {
            int ia = intern(a), ib = intern(b);
            vector<int> l;
            auto add = [&](int i) { auto it = acSets[0].find(i); if (it == acSets[0].end()) l.push_back(i); else l.insert(l.end(), it->second.begin(), it->second.end()); };
            if (!constIs(a, 0.0)) add(ia);
            if (!constIs(b, 0.0)) add(ib);
            if (l.size() == 1) return *internVec[l[0]];
            std::sort(l.begin(), l.end());
            BV r = atom("fsumset", l, w);
            acSets[0][intern(r)] = l;
            return r;
        }
        {   // adding a zero to a known nonzero magnitude of unknown sign
            BV am = a, bm = b; am.back() = F; bm.back() = F;
            if (constIs(am, 0.0) && isConst(bm) && finNonzero(bm)) return b;
            if (constIs(bm, 0.0) && isConst(am) && finNonzero(am)) return a;
        }
        int x = intern(a), y = intern(b);
        if (x > y) std::swap(x, y);
        BV r = atom("fadd", {x, y}, w);
        if (finNonzero(b)) setNanSrc(r, a); else if (finNonzero(a)) setNanSrc(r, b);
        return r;
    }
    if (op == "fmul" || op == "fdiv") {
        if (constIs(b, 1.0)) return a;
        if (op == "fmul" && constIs(a, 1.0)) return b;
        if (op == "fdiv" && isConst(b)) { // division by a power of two is multiplication by its inverse
            double d = w == 32 ? asF(b) : asD(b);
            int e;
            if (std::isfinite(d) && d != 0 && std::fabs(std::frexp(d, &e)) == 0.5 && std::abs(e) < 60)
                return fbinLeaf("fmul", a, w == 32 ? fromF(1.0 / d) : fromD(1.0 / d));
        }
        BV am = a, bm = b;
        am.back() = F; bm.back() = F;
        if (op == "fmul" && optFcmpExact && (constIs(am, 0.0) || constIs(bm, 0.0))) {
            // x * 0 is a NaN when x is infinite or NaN and a zero of the product sign otherwise
            const BV &x = constIs(am, 0.0) ? bm : am;
            B e = T;
            for (int i = manBits(w); i < w - 1; ++i) e = M.And(e, x[i]);
            BV r(w, F);
            for (int i = manBits(w) - 1; i < w - 1; ++i) r[i] = e;
            r.back() = M.Xor(a.back(), b.back());
            return r;
        }
        if (op == "fmul" && optAC) {
            int ia = intern(am), ib = intern(bm);
            vector<int> l;
            auto add = [&](int i) { auto it = acSets[1].find(i); if (it == acSets[1].end()) l.push_back(i); else l.insert(l.end(), it->second.begin(), it->second.end()); };
            if (!constIs(am, 1.0)) add(ia);
            if (!constIs(bm, 1.0)) add(ib);
            std::sort(l.begin(), l.end());
            BV r;
            if (l.size() == 1) r = *internVec[l[0]];
            else { r = atom("fprodset", l, w); }
            r.back() = F;
            if (l.size() > 1) acSets[1][intern(r)] = l;
            r.back() = M.Xor(a.back(), b.back());
            return r;
        }
        int x = intern(am), y = intern(bm);
        if (op == "fmul" && x > y) std::swap(x, y);
        BV r = atom(op, {x, y}, w);
        if (finNonzero(b)) setNanSrc(r, a); else if (op == "fmul" && finNonzero(a)) setNanSrc(r, b);
        else if (op == "fmul" && (constIs(am, 0.0) || constIs(bm, 0.0))) { BV q = r; q.back() = F; nanSrc2[intern(q)] = {0, constIs(am, 0.0) ? bm : am}; }
        r.back() = M.Xor(a.back(), b.back());
        if (op == "fdiv") fdivSrc[intern(r)] = {intern(a), intern(b)};
        return r;
    }
    return atom(op, {intern(a), intern(b)}, w);
}
static BV fbin(const string &op, const BV &a, const BV &b)
{
    if (op == "fsub") return fbin("fadd", a, fnegBV(b));
    if (optFast && (op == "fadd" || op == "fmul")) return fbinLeaf(op, a, b);
    return push(op, {a, b}, [&](const vector<BV> &v) { return fbinLeaf(op, v[0], v[1]); });
}
// integer sums as multisets of their operands (option "ac", first attempt)
static bool isumBV(const BV &a, const BV &b, BV &out)
{
    int w = a.size();
    if (!optFast || w < 16) return false;
    vector<int> l;
    for (const BV *v : {&a, &b}) {
        if (isConst(*v)) { if (constVal(*v) == 0) continue; return false; }
        vector<uint64_t> s; suppOf(*v, s);
        bool data = false;
        for (uint64_t k : s) if (!isCtl(k)) data = true;
        if (!data) return false;
        int i = intern(*v);
        auto it = acSets[4].find(i);
        if (it == acSets[4].end()) l.push_back(i); else l.insert(l.end(), it->second.begin(), it->second.end());
    }
    if (l.empty()) return false;
    if (l.size() == 1) { out = *internVec[l[0]]; return true; }
    std::sort(l.begin(), l.end());
    out = atom("isumset", l, w);
    acSets[4][intern(out)] = l;
    return true;
}
static BV fmaBV(const BV &a, const BV &b, const BV &c)
{
    return push("fma", {a, b, c}, [](const vector<BV> &v) -> BV {
        int w = v[0].size();
        if (isConst(v[0]) && isConst(v[1]) && isConst(v[2])) {
            if (w == 32) return fromF(std::fma(asF(v[0]), asF(v[1]), asF(v[2])));
            return fromD(std::fma(asD(v[0]), asD(v[1]), asD(v[2])));
        }
        BV am = v[0], bm = v[1];
        B s = M.Xor(am.back(), bm.back());
        am.back() = F; bm.back() = F;
        int x = intern(am), y = intern(bm);
        if (x > y) std::swap(x, y);
        return atom("fma", {x, y, intern(BV{s}), intern(v[2])}, w);
    });
}
static BV funary(const string &op, const BV &a)
{
    return push(op, {a}, [&](const vector<BV> &v) -> BV {
        const BV &x = v[0];
        int w = x.size();
        if (isConst(x)) {
            double d = w == 32 ? asF(x) : asD(x);
            double r;
            bool ok = true;
            if (op == "sqrt") { if (w == 32) { volatile float f = d; return fromF(std::sqrt((float)f)); } r = std::sqrt(d); }
            else if (op == "floor") r = std::floor(d);
            else if (op == "ceil") r = std::ceil(d);
            else if (op == "ftrunc") r = std::trunc(d);
            else if (op == "rint") r = std::nearbyint(d);
            else if (op == "round") r = std::round(d);
            else ok = false;
            if (ok) return w == 32 ? fromF((float)r) : fromD(r);
        }
        if (optFbits && (w == 32 || w == 64)) {
            if (op == "floor") return roundBits(x, 1);
            if (op == "ceil") return roundBits(x, 2);
            if (op == "ftrunc") return roundBits(x, 3);
            if (op == "rint") return roundBits(x, 0);
        }
        {
            auto fs = floorSrc.find(intern(x));
            if (fs != floorSrc.end() && (op == "floor" || op == "ftrunc")) {
                FloorInfo fi = fs->second;
                if (op == "ftrunc") { BV t = sextBV(fi.fl, fi.fl.size() + 1); B up = M.And(t.back(), fi.isint ^ 1); t = addBV(t, constBV(0, t.size()), up); fi.fl = minSigned(t); }
                fi.isint = T;
                BV r = atom(op, {intern(x)}, w);
                floorSrc[intern(r)] = fi;
                return r;
            }
        }
        if ((op == "floor" || op == "ceil" || op == "ftrunc" || op == "rint" || op == "round") && itofSrc.count(intern(x))) return x;
        BV r = atom(op, {intern(x)}, w);
        if (op == "floor" || op == "ceil" || op == "ftrunc" || op == "rint" || op == "round") setNanSrc(r, x);
        if (op == "sqrt") { BV q = r; q.back() = F; nanSrc2[intern(q)] = {1, x}; }
        return r;
    });
}
static BV itofExact(const BV &x0, int w)
{
    BV x = minSigned(x0);
    if (isConst(x) && x.size() <= 64) {
        int64_t c = (int64_t)constVal(sextBV(x, 64));
        return w == 32 ? fromF((float)c) : fromD((double)c);
    }
    if (optFbits && (w == 32 || w == 64)) {
        BV y = sextBV(x, x.size() + 1);
        return packBits(w, x.back(), iteBV(x.back(), negBV(y), y), (1 << (expBits(w) - 1)) - 1 + manBits(w));
    }
    // (ordered after the operand bits: conversions are selected by the leading bits of their operands)
    BV r = atom("itof" + std::to_string(w), {intern(x)}, w, false, 2);
    itofSrc[intern(r)] = x;
    return r;
}
static BV itofBV(const BV &a, int w) // signed integer -> fp (round to nearest even)
{
    return push("itof" + std::to_string(w), {a}, [w](const vector<BV> &v) -> BV {
        BV x = minSigned(v[0]);
        int n = x.size(), mb = manBits(w);
        if (isConst(x) && n <= 64) return itofExact(x, w);
        // leading bit position p: x[n-2..p+1] == sign, x[p] != sign
        vector<B> lead(n, F);
        B sofar = T, exact = T;
        for (int p = n - 2; p > mb; --p) {
            B d = M.Xor(x[p], x.back());
            lead[p] = M.And(sofar, d);
            sofar = M.And(sofar, d ^ 1);
            B low = F;
            for (int i = 0; i < p - mb; ++i) low = M.Or(low, x[i]);
            exact = M.And(exact, M.And(lead[p], low) ^ 1);
        }
        if (exact == T) return itofExact(x, w);
        auto under = [](const BV &y, B c) { BV z = y; for (B &b : z) b = M.constrain(b, c); return z; };
        BV r;
        for (int sg = 0; sg < 2; ++sg) {
            B sc = sg ? x.back() : x.back() ^ 1; // (split by sign as well, so that any narrower form of the value matches)
            if (sc == F) continue;
            B c0 = M.And(sofar, sc);
            if (c0 != F) { BV e = itofExact(under(x, c0), w); r = r.empty() ? e : iteBV(c0, e, r); }
            for (int p = mb + 1; p < n - 1; ++p) {
                B c = M.And(lead[p], sc);
                if (c == F) continue;
                BV y = sextBV(under(x, c), n + 1);
                int k = p - mb; // bits dropped
                B rest = F;
                for (int i = 0; i + 1 < k; ++i) rest = M.Or(rest, y[i]);
                B up = M.And(y[k - 1], M.Or(rest, y[k]));
                BV q(y.begin() + k, y.end());
                q = addBV(q, constBV(0, q.size()), up);
                BV z(k, F);
                z.insert(z.end(), q.begin(), q.end());
                BV e = itofExact(z, w);
                r = r.empty() ? e : iteBV(c, e, r);
            }
        }
        return r;
    });
}
static BV ftoiBV(const BV &a, int w) // truncating, infinite two's complement bits
{
    return push("ftoi" + std::to_string(w), {a}, [w](const vector<BV> &v) -> BV {
        const BV &x = v[0];
        int fw = x.size();
        if (isConst(x)) {
            double d = fw == 32 ? asF(x) : asD(x);
            if (std::fabs(d) < 9e18) return constBV((int64_t)d, w);
        }
        if (optFbits && (fw == 32 || fw == 64)) return cvttBits(x, w);
        int id = intern(x);
        auto it = itofSrc.find(id);
        if (it != itofSrc.end()) return slice(sextBV(it->second, std::max(w, (int)it->second.size())), 0, w);
        auto fsi = floorSrc.find(id);
        if (fsi != floorSrc.end() && fsi->second.valid == T) {
            const BV &fl = fsi->second.fl;
            BV t = sextBV(fl, std::max(w, (int)fl.size() + 1));
            t = addBV(t, constBV(0, t.size()), M.And(t.back(), fsi->second.isint ^ 1));
            return slice(t, 0, w);
        }
        {   // trunc(fl(a/b)) == a/b (integer) when both operands have at most 17 (float) / 33 (double) signed bits
            BV A, Bq;
            if (divSource(x, A, Bq)) return sdivMin(A, Bq, w);
        }
        BV r(w);
        for (int j = 0; j < w; ++j) {
            AKey k("ftoi", {id, j});
            auto f = atoms.find(k);
            if (f != atoms.end()) { r[j] = f->second[0]; continue; }
            VarInfo vi; vi.op = "ftoi"; vi.args = {id};
            r[j] = newVar(1, j, vi);
            atoms[k] = {r[j]};
        }
        return r;
    });
}
// hardware truncation: out-of-range and NaN give the integer indefinite value
static BV cvttBV(const BV &a, int w)
{
    return push("cvtt" + std::to_string(w), {a}, [w](const vector<BV> &v) -> BV {
        const BV &x = v[0];
        BV mn(w, F);
        mn.back() = T;
        int id = intern(x), fw = x.size();
        if (isConst(x)) {
            double d = fw == 32 ? asF(x) : asD(x), l = std::ldexp(1.0, w - 1);
            return std::trunc(d) >= -l && std::trunc(d) < l ? constBV((int64_t)d, w) : mn;
        }
        if (optFbits && (fw == 32 || fw == 64)) return cvttBits(x, w);
        auto sat = [&](const BV &t) { B ok = T; for (size_t i = w; i < t.size(); ++i) ok = M.And(ok, M.Xor(t[i], t[w - 1]) ^ 1); return iteBV(ok, slice(t, 0, w), mn); };
        auto it = itofSrc.find(id);
        if (it != itofSrc.end()) return sat(sextBV(it->second, std::max(w, (int)it->second.size())));
        BV A, Bq;
        if (divSource(x, A, Bq)) {
            BV q = sdivMin(A, Bq, std::max(w + 1, (int)A.size() + 1)), r = sat(q);
            // a non-negative dividend of at most w bits divided by at least two is representable
            B two = F;
            for (size_t i = 1; i < Bq.size(); ++i) two = M.Or(two, Bq[i]);
            if ((int)A.size() <= w + 1 && A.back() == F && Bq.back() == F) r = iteBV(two, slice(q, 0, w), r);
            return r;
        }
        auto fs = floorSrc.find(id);
        BV gen = iteBV(atom("cvtok" + std::to_string(w), {id}, 1, true)[0], ftoiBV(x, w), mn);
        if (fs != floorSrc.end()) {
            const BV &fl = fs->second.fl;
            BV t = sextBV(fl, std::max(w, (int)fl.size()) + 1);
            t = addBV(t, constBV(0, t.size()), M.And(t.back(), fs->second.isint ^ 1));
            return iteBV(fs->second.valid, sat(t), gen);
        }
        return gen;
    });
}
static BV fpextBV(const BV &a, int w)
{
    if ((int)a.size() == w) return a;
    return push("fpext" + std::to_string(w), {a}, [w](const vector<BV> &v) -> BV {
        if (isConst(v[0]) && v[0].size() == 32 && w == 64) return fromD(asF(v[0]));
        int id = intern(v[0]);
        auto it = itofSrc.find(id);
        if (it != itofSrc.end()) return itofBV(it->second, w);
        BV sn = v[0]; sn.back() = F;
        BV r = atom("fpext" + std::to_string(w), {intern(sn)}, w);
        r.back() = F;
        fpextSrc[intern(r)] = sn;
        r.back() = v[0].back() ^ 1; { BV ng = v[0]; ng.back() ^= 1; fpextSrc[intern(r)] = ng; }
        r.back() = v[0].back();
        fpextSrc[intern(r)] = v[0];
        { auto fs = floorSrc.find(id); if (fs != floorSrc.end()) { FloorInfo fi = fs->second; floorSrc[intern(r)] = fi; } }
        return r;
    });
}
static BV fptruncBV(const BV &a, int w)
{
    if ((int)a.size() == w) return a;
    return push("fptrunc" + std::to_string(w), {a}, [w](const vector<BV> &v) -> BV {
        if (isConst(v[0]) && v[0].size() == 64 && w == 32) return fromF((float)asD(v[0]));
        int id = intern(v[0]);
        auto it = fpextSrc.find(id);
        if (it != fpextSrc.end() && (int)it->second.size() == w) return it->second;
        auto i2 = itofSrc.find(id);
        if (i2 != itofSrc.end()) return itofBV(i2->second, w);
        BV r = atom("fptrunc" + std::to_string(w), {id}, w);
        r.back() = v[0].back();
        return r;
    });
}
static B isNanExact(const BV &a)
{
    int w = a.size(), mb = manBits(w);
    B e = T, m = F;
    for (int i = mb; i < w - 1; ++i) e = M.And(e, a[i]);
    for (int i = 0; i < mb; ++i) m = M.Or(m, a[i]);
    return M.And(e, m);
}
static B fltExact(const BV &a, const BV &b) // a<b assuming no nan
{
    // map to unsigned order: sign ? ~x : x|sign ; zeros equal handled separately
    BV x(a.size()), y(b.size());
    for (size_t i = 0; i + 1 < a.size(); ++i) { x[i] = M.Xor(a[i], a.back()); y[i] = M.Xor(b[i], b.back()); }
    x.back() = a.back() ^ 1;
    y.back() = b.back() ^ 1;
    BV am = a, bm = b; am.back() = F; bm.back() = F;
    B bothZero = M.And(anyBV(am) ^ 1, anyBV(bm) ^ 1);
    return M.And(ultBV(x, y), bothZero ^ 1);
}
static B nanB2(int kind, const BV &x);
static B nanB(const BV &a)
{
    if (isConst(a)) { double d = a.size() == 32 ? asF(a) : asD(a); return d != d ? T : F; }
    if (optFcmpExact) return isNanExact(a);
    BV x = a; x.back() = F;
    int id = intern(x);
    if (itofSrc.count(intern(a))) return F;
    { auto fs = floorSrc.find(intern(a)); if (fs != floorSrc.end() && fs->second.valid == T) return F; }
    auto e = fpextSrc.find(intern(a));
    if (e != fpextSrc.end()) return nanB(e->second);
    auto ns = nanSrc.find(id);
    if (ns != nanSrc.end()) return nanB(ns->second);
    auto n2 = nanSrc2.find(id);
    if (n2 != nanSrc2.end()) return nanB2(n2->second.first, n2->second.second);
    return atom("isnan", {id}, 1, true)[0];
}
struct Rel { B un, lt, eq, gt; };
static Rel frel(const BV &a, const BV &b);
static B nanB2(int kind, const BV &x)
{
    int w = x.size();
    if (kind == 1) return M.Or(nanB(x), frel(x, constBV(0, w)).lt);
    return M.Or(nanB(x), frel(x, w == 32 ? fromF(INFINITY) : fromD(INFINITY)).eq);
}
static Rel frel(const BV &a, const BV &b)
{
    Rel r;
    r.un = M.Or(nanB(a), nanB(b));
    B ord = r.un ^ 1;
    if (isConst(a) && isConst(b)) {
        double x = a.size() == 32 ? asF(a) : asD(a), y = b.size() == 32 ? asF(b) : asD(b);
        r.lt = x < y; r.eq = x == y; r.gt = x > y;
        return r;
    }
    if (optFcmpExact) {
        B l = fltExact(a, b), g = fltExact(b, a);
        r.lt = M.And(ord, l); r.gt = M.And(ord, g);
        r.eq = M.And(ord, M.And(l ^ 1, g ^ 1));
        return r;
    }
    int x = intern(a), y = intern(b);
    if (x == y) { r.eq = ord; r.lt = r.gt = F; return r; }
    auto ex = fpextSrc.find(x), ey = fpextSrc.find(y);
    if (ex != fpextSrc.end() && ey != fpextSrc.end()) return frel(ex->second, ey->second);
    {   // comparisons of exactly converted integers
        auto ia = itofSrc.find(x), ib = itofSrc.find(y);
        if (ia != itofSrc.end() && ib != itofSrc.end()) {
            int w = std::max(ia->second.size(), ib->second.size());
            BV p = sextBV(ia->second, w), q = sextBV(ib->second, w);
            r.lt = sltBV(p, q); r.eq = eqBV(p, q); r.gt = sltBV(q, p);
            return r;
        }
    }
    {   // known floor against an integral constant
        BV c;
        bool cr = isConst(b);
        auto fs = floorSrc.find(cr ? x : y);
        if (fs != floorSrc.end() && fs->second.valid == T && constInt(cr ? b : a, c)) {
            int n = std::max(fs->second.fl.size(), c.size());
            BV p = sextBV(fs->second.fl, n), q = sextBV(c, n);
            B e = eqBV(p, q);
            r.lt = sltBV(p, q);
            r.eq = M.And(e, fs->second.isint);
            r.gt = M.Or(sltBV(q, p), M.And(e, fs->second.isint ^ 1));
            if (!cr) std::swap(r.lt, r.gt);
            return r;
        }
    }
    bool sw = x > y;
    if (sw) std::swap(x, y);
    B e = atom("feq", {x, y}, 1, true)[0], l = atom("flt", {x, y}, 1, true)[0];
    r.eq = M.And(ord, e);
    B ne = M.And(ord, e ^ 1);
    r.lt = M.And(ne, l);
    r.gt = M.And(ne, l ^ 1);
    if (sw) std::swap(r.lt, r.gt);
    {   // trunc(a) > C implies a > C (and < likewise) for an integral constant C
        BV A, Bq, C;
        bool cr = isConst(b);
        if (divSource(cr ? a : b, A, Bq) && intSource(cr ? b : a, C) && isConst(C)) {
            int n = std::max(A.size() + 1, C.size());
            BV q = sdivMin(A, Bq, n), c = sextBV(C, n);
            // (a zero divisor is outside the domain of the integer quotient: nothing is claimed there)
            B g = sltBV(c, q), l = sltBV(q, c);
            if (!cr) std::swap(g, l);
            r.un = M.And(r.un, M.Or(g, l) ^ 1);
            r.eq = M.And(r.eq, M.Or(g, l) ^ 1);
            r.lt = M.Or(M.And(r.lt, g ^ 1), l);
            r.gt = M.Or(M.And(r.gt, l ^ 1), g);
        }
    }
    return r;
}
static B fcmpPred(unsigned p, const Rel &r)
{ // LLVM predicate bits: U L G E (8 4 2 1)
    B x = F;
    if (p & 1) x = M.Or(x, r.eq);
    if (p & 2) x = M.Or(x, r.gt);
    if (p & 4) x = M.Or(x, r.lt);
    if (p & 8) x = M.Or(x, r.un);
    return x;
}
static B fcmpB(unsigned p, const BV &a, const BV &b)
{
    p &= 15;
    if (p == 0) return F;
    if (p == 15) return T;
    if (optOrder && (p & 7) != 7 && (p & 7) != 0 && (p & 6) != 0 && (p & 7) != 1 && (p & 7) != 6) {
        B r;
        switch (p & 7) { // (no NaN in the domain)
        case 2: if (ordLess(2, b, a, r)) return r; break;
        case 3: if (ordLess(2, a, b, r)) return r ^ 1; break;
        case 4: if (ordLess(2, a, b, r)) return r; break;
        case 5: if (ordLess(2, b, a, r)) return r ^ 1; break;
        }
    }
    if (optFcmpExact) return fcmpPred(p, frel(a, b));
    return push("fcmp" + std::to_string(p), {a, b}, [p](const vector<BV> &v) { return BV{fcmpPred(p, frel(v[0], v[1]))}; })[0];
}
// AVX/SSE compare immediate -> LLVM predicate
static unsigned cmpImm(int imm)
{
    static const unsigned t[32] = {1, 4, 5, 8, 14, 11, 10, 7, 9, 12, 13, 0, 6, 3, 2, 15,
                                   1, 4, 5, 8, 14, 11, 10, 7, 9, 12, 13, 0, 6, 3, 2, 15};
    return t[imm & 31];
}

#include "exec.h"
#include "main.h"
