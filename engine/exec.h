// Abstract state and transfer functions.
struct Val;
struct PA { B g; int obj; BV off; }; // obj -1: absolute address
struct Val {
    enum K { NONE, BITS, PTR, AGG } k = NONE;
    BV b;
    vector<PA> p;
    vector<Val> a;
    Val() {}
    Val(BV x) : k(BITS), b(std::move(x)) {}
};
static const DataLayout *DL;
static Val execFn(const Function *F_, vector<Val> args, B guard0);
struct ObjOpts {
    string name;
    int64_t size = -1;   // bytes, -1: unbounded
    int64_t neg = 0;     // bytes accessible before the pointer
    unsigned align = 1;
    int elem = 1;
    bool boolean = false;   // every element is 0 or 1, a control variable
    int cls = 1;
    int lim = 0;            // integer elements in [0, 2^lim)
    vector<uint64_t> dom;   // elements range over these constants (control variables select)
    uint64_t fix0 = 0, fix1 = 0; // bits of every element fixed to 0 / 1
    int floorBits = 0;      // fp elements whose floor is an integer of that many bits (negative: signed)
    bool scratch = false;   // contents are not observed
    bool regions = false;   // symbolic addresses that differ by a constant share a region; regions are assumed disjoint
    bool anyread = false;    // may be read freely even under the "reads" option
    string same;            // alias: offset `delta` into the object of another argument
    int64_t delta = 0;
};
struct LogE { B g; string tag; BV payload; string loc; };
struct Acc { B g; BV off; int size; bool write; string loc; };
struct Obj {
    ObjOpts o;
    enum Kind { PARAM, LOCAL, GLOBAL, FUNC, HEAP } kind = LOCAL;
    std::unordered_map<int64_t, std::array<B, 8>> bytes;
    std::map<int64_t, B> rt, wt;
    std::map<int64_t, string> wloc, rloc;
    vector<LogE> log;
    vector<Acc> acc;
    int version = 0;
    llvm::GlobalVariable *gv = nullptr;
    llvm::Function *fn = nullptr;
    std::shared_ptr<vector<std::array<B, 8>>> ginit;
};
struct Issue { string kind, text, loc; B g; };
struct State {
    vector<Obj> objs;
    map<const llvm::Value *, int> gobj;
    vector<LogE> events;
    vector<Issue> issues;
    vector<B> assumes;
    set<string> callees;
    set<string> locs;
    int depth = 0;
    long steps = 0;
    bool impl = false;
};
static State *S;
static bool optGinit = false; // objects with static storage start with their initialisers
// Assumptions are kept as independent conjuncts; only those sharing variables with d are conjoined.
static vector<B> *gAssume = nullptr;
static std::unordered_map<B, vector<uint64_t>> suppMemo;
static const vector<uint64_t> &suppOf(B b)
{
    auto it = suppMemo.find(b & ~1u);
    if (it != suppMemo.end()) return it->second;
    std::unordered_set<uint32_t> seen;
    vector<uint64_t> keys;
    M.support(b, seen, keys);
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    return suppMemo[b & ~1u] = keys;
}
static bool disjoint(const vector<uint64_t> &a, const vector<uint64_t> &b)
{
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return false; if (a[i] < b[j]) ++i; else ++j; }
    return true;
}
static B relevantAssume(const vector<uint64_t> &supp)
{
    B r = T;
    if (!gAssume || gAssume->empty()) return r;
    vector<uint64_t> cur = supp;
    vector<char> used(gAssume->size(), 0);
    for (bool more = true; more;) {
        more = false;
        for (size_t i = 0; i < gAssume->size(); ++i) {
            if (used[i]) continue;
            const auto &s = suppOf((*gAssume)[i]);
            if (disjoint(cur, s)) continue;
            used[i] = 1; more = true;
            r = M.And(r, (*gAssume)[i]);
            vector<uint64_t> u;
            std::set_union(cur.begin(), cur.end(), s.begin(), s.end(), std::back_inserter(u));
            cur.swap(u);
        }
    }
    return r;
}
static bool haveAssume() { return gAssume && !gAssume->empty(); }
static B relevantFor(const vector<BV> &a)
{
    vector<uint64_t> ks;
    for (auto &v : a) for (B x : v) { auto &q = suppOf(x); if (q.empty()) continue; if (q.size() == 1 && !ks.empty() && ks.back() == q[0]) continue; ks.insert(ks.end(), q.begin(), q.end()); if (ks.size() > 4096) { std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end()); } }
    std::sort(ks.begin(), ks.end());
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    return relevantAssume(ks);
}
static std::unordered_map<B, B> careMemo;
static void addAssume(B c) { if (c == T) return; gAssume->push_back(c); careMemo.clear(); }
static B care(B d) // d restricted to the assumptions; F if impossible under them
{
    if (d == F || !gAssume || gAssume->empty()) return d;
    auto it = careMemo.find(d);
    if (it != careMemo.end()) return it->second;
    B r = M.And(d, relevantAssume(suppOf(d)));
    return careMemo[d] = r;
}

// shared initial contents ----------------------------------------------------------------
static map<pair<string, int64_t>, std::array<B, 8>> initBytes;
static map<string, vector<BV>> domSel;
static map<pair<string, int64_t>, BV> domElem;
static std::array<B, 8> initByte(const ObjOpts &o, int64_t off)
{
    auto k = std::make_pair(o.name, off);
    auto it = initBytes.find(k);
    if (it != initBytes.end()) return it->second;
    std::array<B, 8> r;
    int64_t e = o.elem, idx = off >= 0 ? off / e : -((-off + e - 1) / e);
    int in = off - idx * e;
    if (!o.dom.empty()) {
        auto dk = std::make_pair(o.name, idx);
        auto d = domElem.find(dk);
        if (d == domElem.end()) {
            BV v = constBV(o.dom[0], e * 8);
            int nb = 0;
            while ((1u << nb) < o.dom.size()) ++nb;
            BV sel;
            for (int i = 0; i < nb; ++i) sel.push_back(newVarN(0, 0, o.name + "[" + std::to_string(idx) + "].sel" + std::to_string(i)));
            for (size_t i = 1; i < o.dom.size(); ++i) v = iteBV(eqBV(sel, constBV(i, nb)), constBV(o.dom[i], e * 8), v);
            d = domElem.emplace(dk, v).first;
        }
        for (int i = 0; i < 8; ++i) r[i] = d->second[in * 8 + i];
    } else if (o.floorBits) {
        auto dk = std::make_pair(o.name, idx);
        auto d = domElem.find(dk);
        string nm = o.name + "[" + std::to_string(idx) + "]";
        if (d == domElem.end()) {
            BV v;
            for (int i = 0; i < e * 8; ++i) v.push_back(newVarN(o.cls, i, nm));
            FloorInfo fi;
            for (int i = 0; i < std::abs(o.floorBits); ++i) fi.fl.push_back(newVarN(o.cls, i, "floor(" + nm + ")"));
            if (o.floorBits > 0) fi.fl.push_back(F);
            fi.isint = newVarN(o.cls, 0, "isint(" + nm + ")");
            fi.valid = T;
            if (o.floorBits > 0) v.back() = F; // floor >= 0 (a negative zero is not distinguished by any conversion)
            floorSrc[intern(v)] = fi;
            d = domElem.emplace(dk, v).first;
        }
        for (int i = 0; i < 8; ++i) r[i] = d->second[in * 8 + i];
    } else
        for (int i = 0; i < 8; ++i) {
            if (o.boolean) r[i] = in == 0 && i == 0 ? newVarN(0, 0, o.name + "[" + std::to_string(idx) + "]") : F;
            else if (o.lim && in * 8 + i >= o.lim) r[i] = F;
            else if (o.fix0 >> (in * 8 + i) & 1) r[i] = F;
            else if (o.fix1 >> (in * 8 + i) & 1) r[i] = T;
            else {
                VarInfo v; v.base = o.name + "[" + std::to_string(idx) + "]"; v.bit = in * 8 + i;
                vars.push_back(v);
                // interleaved by bit (wide lane-wise operations), or lane after lane (horizontal predicates)
                r[i] = M.mk(mkKey(o.cls, optLaneMajor ? ((int)idx & 255) * 64 + in * 8 + i : optFbits ? 63 - (in * 8 + i) : in * 8 + i, vars.size() - 1), F, T);
            }
        }
    initBytes[k] = r;
    return r;
}
static map<string, BV> baseAddrs;
static BV baseAddr(const ObjOpts &o)
{
    auto it = baseAddrs.find(o.name);
    if (it != baseAddrs.end()) return it->second;
    BV r(64, F);
    int tz = 0;
    while ((1u << (tz + 1)) <= o.align) ++tz;
    for (int i = tz; i < 47; ++i) r[i] = newVarN(1, i, "&" + o.name);
    baseAddrs[o.name] = r;
    return r;
}
static B undefBit = 0;
static BV freshUndef(int w, const char *why = "undef")
{
    // one shared unknown for undef/poison lanes (they never reach a defined result)
    if (!strcmp(why, "undef")) { if (!undefBit) undefBit = newVarN(1, 0, why); return BV(w, undefBit); }
    BV r(w);
    for (int i = 0; i < w; ++i) r[i] = newVarN(1, i, why);
    return r;
}
static int newObj(Obj o) { S->objs.push_back(std::move(o)); return S->objs.size() - 1; }
static Val mkPtr(int obj, int64_t off = 0)
{
    Val v; v.k = Val::PTR;
    v.p.push_back({T, obj, constBV((uint64_t)off, 64)});
    return v;
}
static Val iteVal(B c, const Val &x, const Val &y)
{
    if (c == T) return x;
    if (c == F) return y;
    if (x.k == Val::NONE) return y;
    if (y.k == Val::NONE) return x;
    if (x.k != y.k) throw Unsupported("mixed select");
    Val r; r.k = x.k;
    if (x.k == Val::BITS) { r.b = iteBV(c, x.b, y.b); return r; }
    if (x.k == Val::AGG) { for (size_t i = 0; i < x.a.size(); ++i) r.a.push_back(iteVal(c, x.a[i], y.a[i])); return r; }
    for (auto &p : x.p) { B g = M.And(c, p.g); if (g != F) r.p.push_back({g, p.obj, p.off}); }
    for (auto &p : y.p) {
        B g = M.And(c ^ 1, p.g);
        if (g == F) continue;
        bool done = false;
        for (auto &q : r.p) if (q.obj == p.obj) { q.off = iteBV(M.restr(g, M.Or(g, q.g)), p.off, q.off); q.g = M.Or(q.g, g); done = true; break; }
        if (!done) r.p.push_back({g, p.obj, p.off});
    }
    return r;
}
static BV ptrBits(const Val &v)
{
    BV r(64, F);
    for (auto &p : v.p) {
        BV x = p.obj < 0 ? p.off : addBV(baseAddr(S->objs[p.obj].o), p.off);
        r = iteBV(p.g, x, r);
    }
    return r;
}
static Val bitsToPtr(const BV &b)
{
    // find objects whose base address occurs in b
    std::unordered_set<uint32_t> seen;
    vector<uint64_t> keys;
    for (B x : b) M.support(x, seen, keys);
    set<string> names;
    bool ctl = false;
    for (auto k : keys) { auto &v = varOf(k); if (!v.base.empty() && v.base[0] == '&') names.insert(v.base.substr(1)); if (isCtl(k)) ctl = true; }
    Val r; r.k = Val::PTR;
    if (names.empty()) { r.p.push_back({T, -1, b}); return r; }
    if (names.size() > 1 || ctl) {
        uint64_t k = topKey(b);
        if (!isCtl(k)) { if (names.size() > 1) throw Unsupported("pointer bits mix objects"); }
        else return iteVal(M.mk(k, F, T), bitsToPtr(cofBV(b, k, 1)), bitsToPtr(cofBV(b, k, 0)));
    }
    for (size_t i = 0; i < S->objs.size(); ++i)
        if (S->objs[i].o.name == *names.begin()) { r.p.push_back({T, (int)i, subBV(b, baseAddr(S->objs[i].o))}); return r; }
    throw Unsupported("pointer bits of unknown object " + *names.begin());
}

// globals ---------------------------------------------------------------------------------
static map<string, llvm::GlobalVariable *> defGlobals;
static map<string, llvm::Function *> defFuncs;
static Val constVal_(const llvm::Constant *c);
static int globalObj(const llvm::GlobalValue *g);
static void flattenInit(const llvm::Constant *c, vector<std::array<B, 8>> &out, uint64_t off)
{
    Type *t = c->getType();
    uint64_t sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getElementType());
        for (unsigned i = 0; i < ca->getNumElements(); ++i) flattenInit(ca->getElementAsConstant(i), out, off + i * es);
        return;
    }
    if (auto *st = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(st->getType());
        for (unsigned i = 0; i < st->getNumOperands(); ++i) flattenInit(st->getOperand(i), out, off + sl->getElementOffset(i));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        uint64_t es = isa<ConstantArray>(c) ? DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()).getFixedValue() : DL->getTypeSizeInBits(cast<VectorType>(t)->getElementType()).getFixedValue() / 8;
        for (unsigned i = 0; i < c->getNumOperands(); ++i) flattenInit(cast<Constant>(c->getOperand(i)), out, off + i * es);
        return;
    }
    Val v = constVal_(c);
    BV b = v.k == Val::PTR ? ptrBits(v) : v.b;
    b.resize(((b.size() + 7) / 8) * 8, F);
    for (size_t i = 0; i < b.size(); ++i) if (off + i / 8 < out.size()) out[off + i / 8][i % 8] = b[i];
    (void)sz;
}
static int globalObj(const llvm::GlobalValue *g)
{
    const llvm::GlobalValue *d = g;
    if (auto *a = dyn_cast<GlobalAlias>(g)) d = cast<GlobalValue>(a->getAliaseeObject());
    string nm = d->getName().str();
    if (d->isDeclaration()) {
        if (defGlobals.count(nm)) d = defGlobals[nm];
        else if (defFuncs.count(nm)) d = defFuncs[nm];
    }
    auto it = S->gobj.find(d);
    if (it != S->gobj.end()) return it->second;
    Obj o;
    o.o.name = "@" + nm;
    if (d->hasPrivateLinkage() || d->hasInternalLinkage()) o.o.name += "." + std::to_string((int)S->gobj.size());
    if (auto *f = dyn_cast<llvm::Function>(d)) {
        o.kind = Obj::FUNC;
        o.fn = const_cast<llvm::Function *>(f);
        o.o.size = 0;
        o.o.align = 16;
    } else {
        auto *gv = const_cast<llvm::GlobalVariable *>(cast<llvm::GlobalVariable>(d));
        o.kind = Obj::GLOBAL;
        o.gv = gv;
        o.o.size = DL->getTypeAllocSize(gv->getValueType());
        o.o.align = gv->getAlign() ? gv->getAlign()->value() : DL->getPreferredAlign(gv).value();
        o.o.elem = 4;
    }
    int id = newObj(o);
    S->gobj[d] = id;
    if (auto *gv = S->objs[id].gv)
        if (gv->hasInitializer() && (gv->isConstant() || optGinit)) {
            auto v = std::make_shared<vector<std::array<B, 8>>>(S->objs[id].o.size, std::array<B, 8>{});
            flattenInit(gv->getInitializer(), *v, 0);
            S->objs[id].ginit = v;
        }
    return id;
}
static std::array<B, 8> readByte(Obj &o, int64_t off)
{
    auto it = o.bytes.find(off);
    if (it != o.bytes.end()) return it->second;
    std::array<B, 8> r;
    if (o.kind == Obj::PARAM) r = initByte(o.o, off);
    else if (o.ginit) { if (off < 0 || off >= (int64_t)o.ginit->size()) { for (auto &x : r) x = newVarN(1, 0, "oob"); } else r = (*o.ginit)[off]; }
    else if (o.kind == Obj::GLOBAL) r = initByte(o.o, off);
    else for (int i = 0; i < 8; ++i) r[i] = newVarN(1, (off % 8 + 8) % 8 * 8 + i, "uninit:" + o.o.name);
    o.bytes[off] = r;
    return r;
}
static void issue(const string &kind, const string &text, B g)
{
    g = care(g);
    if (g == F) return;
    for (auto &i : S->issues) if (i.kind == kind && i.text == text && i.loc == curLoc) { i.g = M.Or(i.g, g); return; }
    S->issues.push_back({kind, text, curLoc, g});
}
// split an offset into guarded alternatives over control variables (or all variables if few)
struct OffSplit {
    std::map<int, map<int, B>> memo;
    int budget = 20000;
    bool all;
    const map<int, B> &go(const BV &off)
    {
        int id = intern(off);
        auto it = memo.find(id);
        if (it != memo.end()) return it->second;
        if (--budget < 0) throw Unsupported("offset split budget");
        map<int, B> r;
        uint64_t k = topKey(off);
        if (k == ~0ull || (!all && !isCtl(k))) r[id] = T;
        else {
            map<int, B> l = go(cofBV(off, k, 0)), h = go(cofBV(off, k, 1));
            B v = M.mk(k, F, T);
            for (auto &x : l) r[x.first] = M.And(v ^ 1, x.second);
            for (auto &x : h) { B g = M.And(v, x.second); auto f = r.find(x.first); r[x.first] = f == r.end() ? g : M.Or(f->second, g); }
        }
        return memo[id] = r;
    }
};
static vector<pair<B, BV>> splitOff(const BV &off0, B guard, bool bounded)
{
    vector<pair<B, BV>> out;
    if (isConst(off0)) { out.push_back({guard, off0}); return out; }
    BV off = off0;
    if (guard != T) for (B &b : off) b = M.restr(b, guard);
    if (gAssume && !gAssume->empty()) {
        vector<uint64_t> ks;
        for (B x : off) { auto &q = suppOf(x); ks.insert(ks.end(), q.begin(), q.end()); }
        std::sort(ks.begin(), ks.end());
        B ra = relevantAssume(ks);
        if (ra != T) for (B &b : off) b = M.restr(b, ra);
    }
    std::unordered_set<uint32_t> seen;
    vector<uint64_t> keys;
    for (B x : off) M.support(x, seen, keys);
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    OffSplit sp;
    sp.all = bounded && keys.size() <= 10;
    for (auto &x : sp.go(off)) {
        B g = M.And(guard, x.second);
        if (care(g) != F) out.push_back({g, *internVec[x.first]});
    }
    return out;
}
static string sOff(const BV &o) { return isConst(o) ? std::to_string((int64_t)constVal(o)) : string("?"); }
static void checkAlign(const Obj &o, const BV &off, unsigned align, B g, bool wr)
{
    if (align < 16) return; // narrower x86 accesses tolerate any address
    int tz = 0;
    while ((1u << (tz + 1)) <= align) ++tz;
    bool bad = o.o.align < align;
    for (int i = 0; i < tz && !bad; ++i) if (off[i] != F) { B h = M.And(g, off[i]); if (care(h) != F) bad = true; }
    if (bad) issue("misaligned", string(wr ? "store to " : "load from ") + o.o.name + " assumes alignment " + std::to_string(align) + " but only " + std::to_string(o.o.align) + " is guaranteed (offset " + sOff(off) + ")", g);
}
static BV loadAtomByte(Obj &o, const BV &off, int k)
{
    BV a = addBV(off, constBV(k, 64));
    if (isConst(a)) { auto x = readByte(o, (int64_t)constVal(a)); return BV(x.begin(), x.end()); }
    AKey key("load:" + o.o.name + (o.version ? "#" + std::to_string(o.version) : ""), {intern(a)});
    auto it = atoms.find(key);
    if (it != atoms.end()) return it->second;
    BV r(8);
    int in = 0;
    for (int i = 0; (1 << i) < o.o.elem; ++i) if (a[i] == T) in |= 1 << i;
    for (int i = 0; i < 8; ++i) {
        if (o.o.boolean && (i || in)) { r[i] = F; continue; }
        if (o.o.lim && in * 8 + i >= o.o.lim) { r[i] = F; continue; }
        VarInfo vi; vi.op = key.first; vi.args = key.second;
        r[i] = newVar(o.o.boolean ? 0 : o.o.cls, in * 8 + i, vi);
    }
    atoms[key] = r;
    return r;
}
static map<pair<vector<int>, string>, int> versionIds;
static void touch(Obj &o, int64_t off, int n, B g, bool wr)
{
    for (int i = 0; i < n; ++i) {
        auto &m = wr ? o.wt : o.rt;
        auto it = m.find(off + i);
        if (it == m.end()) m[off + i] = g; else it->second = M.Or(it->second, g);
        if (wr) o.wloc[off + i] = curLoc; else o.rloc[off + i] = curLoc;
    }
}
static map<string, vector<BV>> regionBases; // shared by reference and implementation
static bool regionKey(const Obj &o, const BV &off, int64_t &key)
{
    if (!o.o.regions || isConst(off)) return false;
    auto &bs = regionBases[o.o.name];
    for (size_t k = 0; k < bs.size(); ++k) {
        BV d = subBV(off, bs[k]);
        if (!isConst(d)) continue;
        int64_t c = constVal(d);
        if (c < -(1 << 18) || c > (1 << 18)) throw Unsupported("region offset too large");
        key = ((int64_t)(k + 1) << 20) + c;
        return true;
    }
    if (bs.size() > 256) throw Unsupported("too many regions");
    bs.push_back(off);
    key = (int64_t)bs.size() << 20;
    return true;
}
static string regionName(int64_t off)
{
    if (off < (1 << 19)) return std::to_string(off);
    int64_t k = (off + (1 << 19)) >> 20;
    return std::to_string(off - (k << 20)) + " relative to address #" + std::to_string(k);
}
static bool inBounds(const Obj &o, int64_t off, int n) { return o.o.size < 0 || (off >= -o.o.neg && off + n <= o.o.size); }
static void enumPos(Obj &o, const BV &off, int n, vector<pair<B, int64_t>> &out, B &covered)
{
    int tz = 0;
    while (tz < 12 && off[tz] == F) ++tz;
    int64_t step = 1 << tz;
    if ((o.o.size + o.o.neg) / step > 4096) throw Unsupported("symbolic offset into a large object " + o.o.name);
    covered = F;
    for (int64_t p = -((o.o.neg / step) * step); p + n <= o.o.size; p += step) {
        B e = eqBV(off, constBV((uint64_t)p, 64));
        if (e == F) continue;
        out.push_back({e, p});
        covered = M.Or(covered, e);
    }
}
static BV loadObj(int oi, const BV &off0, int n, unsigned align, B guard)
{
    BV r(n * 8, F);
    B have = F;
    for (auto &alt : splitOff(off0, guard, S->objs[oi].o.size >= 0)) {
        Obj &o = S->objs[oi];
        const BV &off = alt.second;
        BV v;
        checkAlign(o, off, align, alt.first, false);
        if (o.kind == Obj::FUNC) throw Unsupported("load from function");
        int64_t rk = 0;
        if (isConst(off) || regionKey(o, off, rk)) {
            int64_t c = isConst(off) ? constVal(off) : rk;
            if (!inBounds(o, c, n)) issue("oob-read", o.o.name + " offset " + std::to_string(c) + " size " + std::to_string(n) + " (object has " + std::to_string(o.o.size) + " bytes)", alt.first);
            if (o.kind == Obj::PARAM) touch(o, c, n, alt.first, false);
            for (int i = 0; i < n; ++i) {
                if (o.o.size < 0 && o.version) { append(v, loadAtomByte(o, off, i)); continue; }
                auto x = readByte(o, c + i);
                v.insert(v.end(), x.begin(), x.end());
            }
        } else if (o.o.size >= 0) {
            vector<pair<B, int64_t>> pos;
            B cov;
            enumPos(o, off, n, pos, cov);
            B miss = M.And(alt.first, cov ^ 1);
            if (miss != F) issue("oob-read", o.o.name + " symbolic offset may leave the object (" + std::to_string(o.o.size) + " bytes)", miss);
            v = BV(n * 8, F);
            bool first = true;
            for (auto &p : pos) {
                if (M.And(p.first, alt.first) == F) continue;
                BV w;
                for (int i = 0; i < n; ++i) { auto x = readByte(o, p.second + i); w.insert(w.end(), x.begin(), x.end()); }
                if (o.kind == Obj::PARAM) touch(o, p.second, n, M.And(alt.first, p.first), false);
                if (first) { v = w; first = false; } else v = iteBV(p.first, w, v);
            }
        } else {
            for (int i = 0; i < n; ++i) append(v, loadAtomByte(o, off, i));
            o.acc.push_back({alt.first, off, n, false, curLoc});
        }
        if (have == F) { r = v; have = alt.first; }
        else { r = iteBV(M.restr(alt.first, M.Or(have, alt.first)), v, r); have = M.Or(have, alt.first); }
    }
    return r;
}
static void storeObj(int oi, const BV &off0, const BV &data, unsigned align, B guard)
{
    int n = data.size() / 8;
    for (auto &alt : splitOff(off0, guard, S->objs[oi].o.size >= 0)) {
        Obj &o = S->objs[oi];
        const BV &off = alt.second;
        checkAlign(o, off, align, alt.first, true);
        if (o.kind == Obj::FUNC || (o.gv && o.gv->isConstant())) { issue("write-const", "write to constant " + o.o.name, alt.first); continue; }
        auto put = [&](int64_t c, B g) {
            for (int i = 0; i < n; ++i) {
                std::array<B, 8> x;
                if (g != T) x = readByte(o, c + i);
                for (int j = 0; j < 8; ++j) x[j] = g == T ? data[i * 8 + j] : M.ite(g, data[i * 8 + j], x[j]);
                o.bytes[c + i] = x;
            }
            if (o.kind == Obj::PARAM || o.kind == Obj::HEAP || o.kind == Obj::GLOBAL) touch(o, c, n, g, true);
        };
        int64_t rk = 0;
        if ((isConst(off) && !(o.o.size < 0 && o.version)) || regionKey(o, off, rk)) {
            int64_t c = isConst(off) ? constVal(off) : rk;
            if (!inBounds(o, c, n)) issue("oob-write", o.o.name + " offset " + std::to_string(c) + " size " + std::to_string(n) + " (object has " + std::to_string(o.o.size) + " bytes)", alt.first);
            put(c, alt.first);
        } else if (o.o.size >= 0) {
            vector<pair<B, int64_t>> pos;
            B cov;
            enumPos(o, off, n, pos, cov);
            B miss = M.And(alt.first, cov ^ 1);
            if (miss != F) issue("oob-write", o.o.name + " symbolic offset may leave the object (" + std::to_string(o.o.size) + " bytes)", miss);
            for (auto &p : pos) { B g = M.And(p.first, alt.first); if (g != F) put(p.second, g); }
        } else {
            BV pl = off;
            append(pl, data);
            o.log.push_back({alt.first, "write" + std::to_string(n) + ":" + o.o.name, pl, curLoc});
            o.acc.push_back({alt.first, off, n, true, curLoc});
            auto k = std::make_pair(vector<int>{o.version, intern(BV{alt.first}), intern(pl)}, o.o.name);
            auto it = versionIds.find(k);
            if (it == versionIds.end()) it = versionIds.emplace(k, (int)versionIds.size() + 1).first;
            o.version = it->second;
        }
    }
}
static BV load(const Val &p, int n, unsigned align, B guard)
{
    if (p.k != Val::PTR) throw Unsupported("load via non-pointer");
    BV r;
    bool first = true;
    B have = F;
    for (auto &a : p.p) {
        B g = M.And(guard, a.g);
        if (care(g) == F) continue;
        BV v;
        if (a.obj < 0) { issue("wild-read", "load from absolute address " + sOff(a.off), g); v = freshUndef(n * 8, "wild"); }
        else v = loadObj(a.obj, a.off, n, align, g);
        if (first) { r = v; first = false; have = g; }
        else { have = M.Or(have, g); r = iteBV(M.restr(g, have), v, r); }
    }
    if (first) return freshUndef(n * 8, "dead");
    return r;
}
static void store(const Val &p, const BV &data, unsigned align, B guard)
{
    if (p.k != Val::PTR) throw Unsupported("store via non-pointer");
    for (auto &a : p.p) {
        B g = M.And(guard, a.g);
        if (care(g) == F) continue;
        if (a.obj < 0) { issue("wild-write", "store to absolute address " + sOff(a.off), g); continue; }
        storeObj(a.obj, a.off, data, align, g);
    }
}
static Val addPtr(const Val &p, const BV &d)
{
    Val r = p;
    for (auto &a : r.p) a.off = addBV(a.off, d);
    return r;
}
static Val loadTy(const Val &p, Type *t, unsigned align, B g)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        Val r; r.k = Val::AGG;
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) r.a.push_back(loadTy(addPtr(p, constBV(sl->getElementOffset(i), 64)), st->getElementType(i), 1, g));
        return r;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        Val r; r.k = Val::AGG;
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) r.a.push_back(loadTy(addPtr(p, constBV(i * es, 64)), at->getElementType(), 1, g));
        return r;
    }
    int bits = DL->getTypeSizeInBits(t).getFixedValue();
    BV v = load(p, (bits + 7) / 8, align, g);
    v.resize(bits);
    if (t->isPointerTy()) {
        if (g != T && g != F && !isConst(v)) for (B &b : v) b = M.constrain(b, g); // the value only matters where the load happens
        return bitsToPtr(v);
    }
    if (t->isVectorTy() && cast<VectorType>(t)->getElementType()->isPointerTy()) {
        Val r; r.k = Val::AGG;
        for (size_t i = 0; i < v.size(); i += 64) r.a.push_back(bitsToPtr(slice(v, i, 64)));
        return r;
    }
    return Val(v);
}
static BV toBits(const Val &v)
{
    if (v.k == Val::BITS) return v.b;
    if (v.k == Val::PTR) return ptrBits(v);
    if (v.k == Val::AGG) { BV r; for (auto &x : v.a) append(r, toBits(x)); return r; }
    throw Unsupported("no value");
}
static void storeTy(const Val &p, const Val &v, Type *t, unsigned align, B g)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(addPtr(p, constBV(sl->getElementOffset(i), 64)), v.a[i], st->getElementType(i), 1, g);
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) storeTy(addPtr(p, constBV(i * es, 64)), v.a[i], at->getElementType(), 1, g);
        return;
    }
    BV b = toBits(v);
    b.resize((b.size() + 7) / 8 * 8, F);
    store(p, b, align, g);
}
static int tyBits(Type *t) { return DL->getTypeSizeInBits(t).getFixedValue(); }
static Val undefOf(Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) { Val r; r.k = Val::AGG; for (auto *e : st->elements()) r.a.push_back(undefOf(e)); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.k = Val::AGG; for (unsigned i = 0; i < at->getNumElements(); ++i) r.a.push_back(undefOf(at->getElementType())); return r; }
    if (t->isPointerTy()) { Val v; v.k = Val::PTR; v.p.push_back({T, -1, constBV(0xdead, 64)}); return v; }
    return Val(freshUndef(tyBits(t)));
}
static Val zeroOf(Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) { Val r; r.k = Val::AGG; for (auto *e : st->elements()) r.a.push_back(zeroOf(e)); return r; }
    if (auto *at = dyn_cast<ArrayType>(t)) { Val r; r.k = Val::AGG; for (unsigned i = 0; i < at->getNumElements(); ++i) r.a.push_back(zeroOf(at->getElementType())); return r; }
    if (t->isPointerTy()) { Val v; v.k = Val::PTR; v.p.push_back({T, -1, constBV(0, 64)}); return v; }
    return Val(constBV(0, tyBits(t)));
}
static BV apBits(const APInt &a) { BV r(a.getBitWidth()); for (unsigned i = 0; i < a.getBitWidth(); ++i) r[i] = a[i]; return r; }
static Val gepVal(const Val &base, const GEPOperator *g, const std::function<Val(const Value *)> &get)
{
    BV off = constBV(0, 64);
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        const Value *idx = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) {
            uint64_t f = cast<ConstantInt>(idx)->getZExtValue();
            off = addBV(off, constBV(DL->getStructLayout(st)->getElementOffset(f), 64));
        } else {
            Val iv = get(idx);
            if (idx->getType()->isVectorTy()) throw Unsupported("vector gep");
            BV i = sextBV(iv.b, 64);
            off = addBV(off, mulBV(i, constBV(DL->getTypeAllocSize(gi.getIndexedType()), 64)));
        }
    }
    return addPtr(base, off);
}
static Val evalCast(unsigned opc, const Val &v, Type *from, Type *to);
static Val constVal_(const llvm::Constant *c)
{
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto *ci = dyn_cast<ConstantInt>(c)) return Val(apBits(ci->getValue()));
    if (auto *cf = dyn_cast<ConstantFP>(c)) return Val(apBits(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c)) return zeroOf(t);
    if (auto *cd = dyn_cast<ConstantDataVector>(c)) {
        BV r;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) append(r, constVal_(cd->getElementAsConstant(i)).b);
        return Val(r);
    }
    if (auto *cv = dyn_cast<ConstantVector>(c)) {
        BV r;
        for (auto &o : cv->operands()) append(r, toBits(constVal_(cast<Constant>(o))));
        return Val(r);
    }
    if (auto *cd = dyn_cast<ConstantDataArray>(c)) {
        Val r; r.k = Val::AGG;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) r.a.push_back(constVal_(cd->getElementAsConstant(i)));
        return r;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        Val r; r.k = Val::AGG;
        for (auto &o : c->operands()) r.a.push_back(constVal_(cast<Constant>(o)));
        return r;
    }
    if (auto *gv = dyn_cast<GlobalValue>(c)) return mkPtr(globalObj(gv));
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr)
            return gepVal(constVal_(ce->getOperand(0)), cast<GEPOperator>(ce), [](const Value *v) { return constVal_(cast<Constant>(v)); });
        if (ce->isCast()) return evalCast(ce->getOpcode(), constVal_(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
        if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
            BV a = toBits(constVal_(ce->getOperand(0))), b = toBits(constVal_(ce->getOperand(1)));
            return Val(ce->getOpcode() == Instruction::Sub ? subBV(a, b) : addBV(a, b));
        }
    }
    string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Unsupported("constant " + s.substr(0, 200));
}
static unsigned nEl(Type *t) { if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
static Type *elTy(Type *t) { if (auto *v = dyn_cast<VectorType>(t)) return v->getElementType(); return t; }
static BV lanes1(const BV &a, int w, const std::function<BV(const BV &)> &f)
{
    BV r;
    for (size_t i = 0; i < a.size(); i += w) append(r, f(slice(a, i, w)));
    return r;
}
static BV lanes2(const BV &a, const BV &b, int w, const std::function<BV(const BV &, const BV &)> &f)
{
    BV r;
    for (size_t i = 0; i < a.size(); i += w) append(r, f(slice(a, i, w), slice(b, i, w)));
    return r;
}
static Val evalCast(unsigned opc, const Val &v, Type *from, Type *to)
{
    if (opc == Instruction::PtrToInt) { BV b = ptrBits(v); b.resize(tyBits(to), F); return Val(b); }
    if (opc == Instruction::IntToPtr) return bitsToPtr(zextBV(v.b, 64));
    if (opc == Instruction::AddrSpaceCast) return v;
    if (opc == Instruction::BitCast) {
        bool tp = elTy(to)->isPointerTy(), fp = elTy(from)->isPointerTy();
        if (tp && fp) return v;
        if (tp || fp) throw Unsupported("ptr bitcast");
        return v;
    }
    int fw = tyBits(elTy(from)), tw = tyBits(elTy(to));
    return Val(lanes1(v.b, fw, [&](const BV &x) -> BV {
        switch (opc) {
        case Instruction::Trunc: return slice(x, 0, tw);
        case Instruction::ZExt: return zextBV(x, tw);
        case Instruction::SExt: return sextBV(x, tw);
        case Instruction::FPTrunc: return fptruncBV(x, tw);
        case Instruction::FPExt: return fpextBV(x, tw);
        case Instruction::FPToSI: return ftoiBV(x, tw);
        case Instruction::FPToUI: return ftoiBV(x, tw);
        case Instruction::SIToFP: return itofBV(x, tw);
        case Instruction::UIToFP: return itofBV(zextBV(x, fw + 1), tw);
        }
        throw Unsupported("cast");
    }));
}
static Val binop(unsigned opc, const BV &A, const BV &Bv, Type *t)
{
    int w = tyBits(elTy(t));
    if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) {
        BV r(A.size());
        for (size_t i = 0; i < A.size(); ++i) r[i] = opc == Instruction::And ? M.And(A[i], Bv[i]) : opc == Instruction::Or ? M.Or(A[i], Bv[i]) : M.Xor(A[i], Bv[i]);
        if (opc != Instruction::And) ordNorm(r);
        return Val(r);
    }
    return Val(lanes2(A, Bv, w, [&](const BV &a, const BV &b) -> BV {
        switch (opc) {
        case Instruction::Add: { BV sum; if (isumBV(a, b, sum)) return sum; return addBV(a, b); }
        case Instruction::Sub: return subBV(a, b);
        case Instruction::Mul: return mulBV(a, b);
        case Instruction::SDiv: return sdivBV(a, b);
        case Instruction::UDiv: return udivBV(a, b);
        case Instruction::SRem: return subBV(a, mulBV(sdivBV(a, b), b));
        case Instruction::URem: {
            if (isConst(b)) { uint64_t c = constVal(b); if (w <= 64 && c && !(c & (c - 1))) { BV r = a; for (int i = __builtin_ctzll(c); i < w; ++i) r[i] = F; return r; } }
            return subBV(a, mulBV(udivBV(a, b), b));
        }
        case Instruction::Shl: return shiftBV(0, a, b);
        case Instruction::LShr: return shiftBV(1, a, b);
        case Instruction::AShr: return shiftBV(2, a, b);
        case Instruction::FAdd: return fbin("fadd", a, b);
        case Instruction::FSub: return fbin("fsub", a, b);
        case Instruction::FMul: return fbin("fmul", a, b);
        case Instruction::FDiv: return fbin("fdiv", a, b);
        case Instruction::FRem: return fbin("frem", a, b);
        }
        throw Unsupported("binop");
    }));
}
static B icmpB(CmpInst::Predicate p, const BV &a, const BV &b)
{
    if (optOrder) {
        B r;
        switch (p) {
        case CmpInst::ICMP_ULT: if (ordLess(0, a, b, r)) return r; break;
        case CmpInst::ICMP_UGT: if (ordLess(0, b, a, r)) return r; break;
        case CmpInst::ICMP_ULE: if (ordLess(0, b, a, r)) return r ^ 1; break;
        case CmpInst::ICMP_UGE: if (ordLess(0, a, b, r)) return r ^ 1; break;
        case CmpInst::ICMP_SLT: if (ordLess(1, a, b, r)) return r; break;
        case CmpInst::ICMP_SGT: if (ordLess(1, b, a, r)) return r; break;
        case CmpInst::ICMP_SLE: if (ordLess(1, b, a, r)) return r ^ 1; break;
        case CmpInst::ICMP_SGE: if (ordLess(1, a, b, r)) return r ^ 1; break;
        default: break;
        }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return eqBV(a, b);
    case CmpInst::ICMP_NE: return eqBV(a, b) ^ 1;
    case CmpInst::ICMP_ULT: return ultBV(a, b);
    case CmpInst::ICMP_UGT: return ultBV(b, a);
    case CmpInst::ICMP_ULE: return ultBV(b, a) ^ 1;
    case CmpInst::ICMP_UGE: return ultBV(a, b) ^ 1;
    case CmpInst::ICMP_SLT: return sltBV(a, b);
    case CmpInst::ICMP_SGT: return sltBV(b, a);
    case CmpInst::ICMP_SLE: return sltBV(b, a) ^ 1;
    case CmpInst::ICMP_SGE: return sltBV(a, b) ^ 1;
    default: throw Unsupported("icmp");
    }
}
static B icmpPtr(CmpInst::Predicate p, const Val &x, const Val &y)
{
    B r = F;
    for (auto &a : x.p)
        for (auto &b : y.p) {
            B g = M.And(a.g, b.g);
            if (g == F) continue;
            B c;
            if (a.obj == b.obj) {
                // offsets are signed distances from the object start
                BV ao = a.off, bo = b.off;
                if (a.obj >= 0) { ao.back() ^= 1; bo.back() ^= 1; }
                c = icmpB(p, ao, bo);
            } else if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
                if (a.obj < 0 || b.obj < 0) {
                    const BV &o = a.obj < 0 ? a.off : b.off;
                    if (isConst(o)) c = p == CmpInst::ICMP_NE ? T : F;
                    else throw Unsupported("pointer/integer comparison");
                } else c = p == CmpInst::ICMP_NE ? T : F;
            } else c = icmpB(p, ptrBits(x), ptrBits(y));
            r = M.Or(r, M.And(g, c));
        }
    return r;
}
#include "intrin.h"

// ------------------------------------------------------------------ control flow
struct FnInfo { vector<const BasicBlock *> order; std::unordered_map<const BasicBlock *, int> idx; std::unordered_set<const BasicBlock *> headers; };
static map<const Function *, FnInfo> fnInfos;
static void topo(const vector<const BasicBlock *> &blocks, const BasicBlock *entry, const Loop *L, LoopInfo &LI, vector<const BasicBlock *> &out)
{
    // items: blocks directly in L, or immediate subloops (represented by their header)
    auto rep = [&](const BasicBlock *b) -> const BasicBlock * {
        const Loop *l = LI.getLoopFor(b);
        if (l == L) return b;
        while (l && l->getParentLoop() != L) l = l->getParentLoop();
        return l ? l->getHeader() : nullptr;
    };
    std::unordered_set<const BasicBlock *> inSet(blocks.begin(), blocks.end());
    map<const BasicBlock *, vector<const BasicBlock *>> succ;
    for (auto *b : blocks) {
        auto *r = rep(b);
        for (auto *s : successors(b)) {
            if (!inSet.count(s)) continue;
            if (L && s == L->getHeader()) continue;
            auto *q = rep(s);
            if (q != r) succ[r].push_back(q);
        }
    }
    vector<const BasicBlock *> post;
    std::unordered_map<const BasicBlock *, int> st;
    std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
        st[b] = 1;
        for (auto *s : succ[b]) {
            int x = st[s];
            if (x == 1) throw Unsupported("irreducible control flow");
            if (!x) dfs(s);
        }
        st[b] = 2;
        post.push_back(b);
    };
    dfs(rep(entry));
    std::reverse(post.begin(), post.end());
    for (auto *b : post) {
        const Loop *l = LI.getLoopFor(b);
        if (l == L) out.push_back(b);
        else {
            while (l->getParentLoop() != L) l = l->getParentLoop();
            vector<const BasicBlock *> bl(l->blocks().begin(), l->blocks().end());
            topo(bl, l->getHeader(), l, LI, out);
        }
    }
}
static FnInfo &info(const Function *f)
{
    auto it = fnInfos.find(f);
    if (it != fnInfos.end()) return it->second;
    FnInfo fi;
    DominatorTree DT(*const_cast<Function *>(f));
    LoopInfo LI(DT);
    vector<const BasicBlock *> blocks;
    for (auto &b : *f) if (DT.isReachableFromEntry(&b)) blocks.push_back(&b);
    topo(blocks, &f->getEntryBlock(), nullptr, LI, fi.order);
    for (size_t i = 0; i < fi.order.size(); ++i) fi.idx[fi.order[i]] = i;
    for (auto *b : blocks) if (LI.isLoopHeader(b)) fi.headers.insert(b);
    return fnInfos[f] = fi;
}
static string locOf(const Instruction *I)
{
    DILocation *d = I->getDebugLoc().get();
    string r;
    int n = 0;
    while (d && n < 8) {
        string f = d->getFilename().str();
        if (d->getLine()) {
            if (!r.empty()) r += " < ";
            r += f + ":" + std::to_string(d->getLine());
        }
        d = d->getInlinedAt();
        ++n;
    }
    return r;
}
static int maxIter = 4000;
static Val execFn(const Function *F_, vector<Val> args, B guard0);
static Val doCall(const CallBase *cb, vector<Val> args, B g);

static Val execFn(const Function *fn, vector<Val> args, B guard0)
{
    if (S->depth > 60) throw Unsupported("recursion too deep in " + fn->getName().str());
    struct D { D() { ++S->depth; } ~D() { --S->depth; } } d_;
    FnInfo &fi = info(fn);
    std::unordered_map<const Value *, Val> env;
    {
        size_t i = 0;
        for (auto &a : fn->args()) {
            if (a.hasByValAttr()) {
                Type *t = a.getParamByValType();
                uint64_t sz = DL->getTypeAllocSize(t);
                Obj o;
                o.o.name = "byval" + std::to_string(S->objs.size()) + (S->impl ? "i" : "s");
                o.o.size = sz;
                o.o.align = std::max<uint64_t>(a.getParamAlign() ? a.getParamAlign()->value() : 1, 8);
                int id = newObj(o);
                Val np = mkPtr(id);
                store(np, load(args[i], sz, 1, guard0), 1, T);
                args[i] = np;
            }
            env[&a] = args[i++];
        }
    }
    struct Pend { B g = F; map<const PHINode *, Val> phi; };
    map<int, Pend> pend;
    pend[0].g = guard0;
    vector<int> iter(fi.order.size(), 0);
    Val ret;
    B retG = F;
    std::function<Val(const Value *)> get = [&](const Value *v) -> Val {
        if (auto *c = dyn_cast<Constant>(v)) return constVal_(c);
        auto it = env.find(v);
        if (it == env.end()) throw Unsupported("value without definition");
        return it->second;
    };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to, B g) {
        if (g == F || care(g) == F) return;
        int ti = fi.idx[to];
        Pend &p = pend[ti];
        B ng = M.Or(p.g, g);
        B sel = p.g == F ? T : M.restr(g, ng);
        map<const PHINode *, Val> np;
        for (auto &ph : to->phis()) {
            Val v = get(ph.getIncomingValueForBlock(from));
            if (p.g == F) np[&ph] = v;
            else np[&ph] = iteVal(sel, v, p.phi[&ph]);
        }
        for (auto &x : np) p.phi[x.first] = x.second;
        p.g = ng;
    };
    while (!pend.empty()) {
        int bi = pend.begin()->first;
        Pend p = std::move(pend.begin()->second);
        pend.erase(pend.begin());
        const BasicBlock *bb = fi.order[bi];
        if (++iter[bi] > maxIter) throw Unsupported("loop iteration bound in " + fn->getName().str());
        if (fi.headers.count(bb) && pend.empty()) { /* single live loop */ }
        B g = p.g;
        for (auto &x : p.phi) env[x.first] = x.second;
        for (auto &I : *bb) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (++S->steps > 3000000) throw Unsupported("step limit");
            if (I.mayReadOrWriteMemory() || isa<CallBase>(I)) { curLoc = locOf(&I); if (S->impl && !curLoc.empty()) S->locs.insert(curLoc.substr(0, curLoc.find(" < "))); }
            Type *t = I.getType();
            switch (I.getOpcode()) {
            case Instruction::Ret: {
                if (I.getNumOperands()) {
                    Val v = get(I.getOperand(0));
                    if (retG == F) ret = v;
                    else ret = iteVal(M.restr(g, M.Or(g, retG)), v, ret);
                }
                retG = M.Or(retG, g);
                break;
            }
            case Instruction::Br: {
                auto *br = cast<BranchInst>(&I);
                if (br->isUnconditional()) edge(bb, br->getSuccessor(0), g);
                else {
                    B c = get(br->getCondition()).b[0];
                    if (br->getSuccessor(0) == br->getSuccessor(1)) edge(bb, br->getSuccessor(0), g);
                    else { edge(bb, br->getSuccessor(0), M.And(g, c)); edge(bb, br->getSuccessor(1), M.And(g, c ^ 1)); }
                }
                break;
            }
            case Instruction::Switch: {
                auto *sw = cast<SwitchInst>(&I);
                BV c = get(sw->getCondition()).b;
                std::map<const BasicBlock *, B> tg;
                B rest = g;
                vector<const BasicBlock *> ord;
                auto addT = [&](const BasicBlock *b, B gg) { if (!tg.count(b)) { tg[b] = gg; ord.push_back(b); } else tg[b] = M.Or(tg[b], gg); };
                for (auto &cs : sw->cases()) {
                    B e = M.And(g, eqBV(c, apBits(cs.getCaseValue()->getValue())));
                    addT(cs.getCaseSuccessor(), e);
                    rest = M.And(rest, e ^ 1);
                }
                addT(sw->getDefaultDest(), rest);
                for (auto *b : ord) edge(bb, b, tg[b]);
                break;
            }
            case Instruction::Unreachable: {
                auto *pc = dyn_cast_or_null<CallBase>(I.getPrevNonDebugInstruction());
                if (pc && (pc->doesNotReturn() || pc->hasFnAttr(Attribute::NoReturn))) break; // ends in a call that does not return (recorded as an event)
                issue("unreachable", "control reaches an unreachable point in " + demangle(fn->getName().str()), g); break;
            }
            case Instruction::Alloca: {
                auto *ai = cast<AllocaInst>(&I);
                if (!isa<ConstantInt>(ai->getArraySize())) throw Unsupported("vla");
                Obj o;
                o.o.name = string(S->impl ? "i" : "s") + "local" + std::to_string(S->objs.size()) + ":" + ai->getName().str();
                o.o.size = DL->getTypeAllocSize(ai->getAllocatedType()) * cast<ConstantInt>(ai->getArraySize())->getZExtValue();
                o.o.align = ai->getAlign().value();
                env[&I] = mkPtr(newObj(o));
                break;
            }
            case Instruction::Load: {
                auto *li = cast<LoadInst>(&I);
                env[&I] = loadTy(get(li->getPointerOperand()), t, li->getAlign().value(), g);
                break;
            }
            case Instruction::Store: {
                auto *si = cast<StoreInst>(&I);
                storeTy(get(si->getPointerOperand()), get(si->getValueOperand()), si->getValueOperand()->getType(), si->getAlign().value(), g);
                break;
            }
            case Instruction::GetElementPtr:
                env[&I] = gepVal(get(I.getOperand(0)), cast<GEPOperator>(&I), get);
                break;
            case Instruction::Select: {
                Val c = get(I.getOperand(0)), a = get(I.getOperand(1)), b = get(I.getOperand(2));
                if (c.b.size() == 1) env[&I] = iteVal(c.b[0], a, b);
                else {
                    int w = tyBits(elTy(t));
                    BV r(a.b.size());
                    for (size_t i = 0; i < r.size(); ++i) r[i] = M.ite(c.b[i / w], a.b[i], b.b[i]);
                    ordNorm(r);
                    env[&I] = Val(r);
                }
                break;
            }
            case Instruction::ICmp: {
                auto *ic = cast<ICmpInst>(&I);
                Type *ot = I.getOperand(0)->getType();
                Val a = get(I.getOperand(0)), b = get(I.getOperand(1));
                if (ot->isPointerTy()) { env[&I] = Val(BV{icmpPtr(ic->getPredicate(), a, b)}); break; }
                int w = tyBits(elTy(ot));
                env[&I] = Val(lanes2(a.b, b.b, w, [&](const BV &x, const BV &y) { return BV{icmpB(ic->getPredicate(), x, y)}; }));
                break;
            }
            case Instruction::FCmp: {
                auto *fc = cast<FCmpInst>(&I);
                Type *ot = I.getOperand(0)->getType();
                int w = tyBits(elTy(ot));
                env[&I] = Val(lanes2(get(I.getOperand(0)).b, get(I.getOperand(1)).b, w, [&](const BV &x, const BV &y) { return BV{fcmpB(fc->getPredicate(), x, y)}; }));
                break;
            }
            case Instruction::FNeg:
                env[&I] = Val(lanes1(get(I.getOperand(0)).b, tyBits(elTy(t)), [](const BV &x) { return fnegBV(x); }));
                break;
            case Instruction::Freeze: env[&I] = get(I.getOperand(0)); break;
            case Instruction::ExtractElement: {
                BV v = get(I.getOperand(0)).b, ix = get(I.getOperand(1)).b;
                int w = tyBits(t), n = v.size() / w;
                if (isConst(ix)) { uint64_t k = constVal(ix); env[&I] = k < (uint64_t)n ? Val(slice(v, k * w, w)) : undefOf(t); break; }
                BV r = slice(v, 0, w);
                for (int i = 1; i < n; ++i) r = iteBV(eqBV(ix, constBV(i, ix.size())), slice(v, i * w, w), r);
                env[&I] = Val(r);
                break;
            }
            case Instruction::InsertElement: {
                BV v = get(I.getOperand(0)).b, ix = get(I.getOperand(2)).b;
                BV e = toBits(get(I.getOperand(1)));
                int w = e.size(), n = v.size() / w;
                for (int i = 0; i < n; ++i) {
                    B c = eqBV(ix, constBV(i, ix.size()));
                    for (int j = 0; j < w; ++j) v[i * w + j] = M.ite(c, e[j], v[i * w + j]);
                }
                env[&I] = Val(v);
                break;
            }
            case Instruction::ShuffleVector: {
                auto *sv = cast<ShuffleVectorInst>(&I);
                BV a = get(I.getOperand(0)).b, b = get(I.getOperand(1)).b;
                int w = tyBits(elTy(t)), n = a.size() / w;
                BV r;
                for (int m : sv->getShuffleMask()) {
                    if (m < 0) append(r, freshUndef(w));
                    else append(r, m < n ? slice(a, m * w, w) : slice(b, (m - n) * w, w));
                }
                env[&I] = Val(r);
                break;
            }
            case Instruction::ExtractValue: {
                Val v = get(I.getOperand(0));
                for (unsigned i : cast<ExtractValueInst>(&I)->indices()) { Val x = v.a.at(i); v = x; }
                env[&I] = v;
                break;
            }
            case Instruction::InsertValue: {
                auto *iv = cast<InsertValueInst>(&I);
                Val v = get(I.getOperand(0)), x = get(I.getOperand(1));
                Val *q = &v;
                for (unsigned i : iv->indices()) q = &q->a.at(i);
                *q = x;
                env[&I] = v;
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto *cb = cast<CallBase>(&I);
                vector<Val> as;
                bool skip = false;
                if (auto *cf = cb->getCalledFunction()) {
                    auto id = cf->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::prefetch || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::sideeffect || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::x86_avx_vzeroupper) skip = true;
                }
                if (!skip) {
                    for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { as.push_back(Val()); continue; } as.push_back(get(a)); }
                    string save = curLoc;
                    Val r;
                    const Value *callee = cb->getCalledOperand()->stripPointerCasts();
                    if (!isa<Function>(callee) && !isa<InlineAsm>(callee)) {
                        Val fp = get(callee);
                        bool first = true;
                        for (auto &alt : fp.p) {
                            B cg = M.And(g, alt.g);
                            if (care(cg) == F) continue;
                            if (alt.obj < 0 || !S->objs[alt.obj].fn) throw Unsupported("indirect call");
                            Function *tf = S->objs[alt.obj].fn;
                            if (tf->isDeclaration()) throw Unsupported("indirect call to external");
                            Val x = execFn(tf, as, cg);
                            r = first ? x : iteVal(M.restr(alt.g, T), x, r);
                            first = false;
                        }
                    } else
                        r = doCall(cb, as, g);
                    curLoc = save;
                    if (!t->isVoidTy()) env[&I] = r;
                }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) edge(bb, iv->getNormalDest(), g);
                break;
            }
            case Instruction::Fence: break;
            case Instruction::LandingPad: case Instruction::Resume: break;
            default:
                if (auto *ci = dyn_cast<CastInst>(&I)) env[&I] = evalCast(ci->getOpcode(), get(ci->getOperand(0)), ci->getSrcTy(), t);
                else if (auto *bo = dyn_cast<BinaryOperator>(&I)) env[&I] = binop(bo->getOpcode(), get(bo->getOperand(0)).b, get(bo->getOperand(1)).b, t);
                else { string s; raw_string_ostream os(s); I.print(os); throw Unsupported("instruction " + s.substr(0, 150)); }
            }
        }
    }
    return ret;
}
