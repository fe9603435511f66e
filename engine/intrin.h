// Transfer functions of LLVM / x86 intrinsics, inline assembly and library calls.
static BV packSat(const BV &v, int from, int to, bool uns)
{
    return lanes1(v, from, [&](const BV &x) {
        BV r = slice(x, 0, to);
        if (uns) {
            B neg = x.back(), big = F;
            for (int i = to; i < from - 1; ++i) big = M.Or(big, x[i]);
            for (auto &b : r) b = M.ite(neg, F, M.Or(b, big));
        } else {
            B same = T;
            for (int i = to - 1; i < from - 1; ++i) same = M.And(same, M.Xor(x[i], x.back()) ^ 1);
            BV sat(to, x.back() ^ 1);
            sat[to - 1] = x.back();
            r = iteBV(same, r, sat);
        }
        return r;
    });
}
static BV signBits(const BV &v, int w, int outw)
{
    BV r;
    for (size_t i = w - 1; i < v.size(); i += w) r.push_back(v[i]);
    r.resize(outw, F);
    return r;
}
static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const string &s, const char *p) { return s.find(p) != string::npos; }
static BV selLane(const BV &v, int w, const BV &idx) // idx low bits select among v's lanes (power of two count)
{
    int n = v.size() / w;
    std::function<BV(int, int, int)> rec = [&](int lo, int cnt, int bit) -> BV {
        if (cnt == 1) return slice(v, lo * w, w);
        BV a = rec(lo, cnt / 2, bit - 1), b = rec(lo + cnt / 2, cnt / 2, bit - 1);
        return iteBV(idx[bit], b, a);
    };
    int lg = 0;
    while ((1 << lg) < n) ++lg;
    return rec(0, n, lg - 1);
}
static BV roundOp(const BV &x, int imm)
{
    int m = imm & 7;
    if (m == 1) return funary("floor", x);
    if (m == 2) return funary("ceil", x);
    if (m == 3) return funary("ftrunc", x);
    return funary("rint", x);
}
static BV satTrunc32(const BV &x, bool rnd) { return cvttBV(rnd ? funary("rint", x) : x, 32); }

static void memCopy(const Val &d, const Val &s, const BV &len, unsigned da, unsigned sa, B g)
{
    for (auto &alt : splitOff(len, g, true)) {
        if (!isConst(alt.second)) throw Unsupported("memcpy with symbolic length");
        uint64_t n = constVal(alt.second);
        if (!n) continue;
        if (n > 65536) throw Unsupported("huge memcpy");
        BV v = load(s, n, sa, alt.first);
        store(d, v, da, alt.first);
    }
}
static const map<string, string> &pureMath()
{
    static const map<string, string> m = {
        {"sin", "sin"}, {"cos", "cos"}, {"tan", "tan"}, {"asin", "asin"}, {"acos", "acos"}, {"atan", "atan"}, {"exp", "exp"}, {"exp2", "exp2"},
        {"log", "log"}, {"log2", "log2"}, {"log10", "log10"}, {"atan2", "atan2"}, {"pow", "pow"}, {"fmod", "fmod"}, {"ldexp", "ldexp"}, {"ldexpf", "ldexp"},
        {"sinf", "sin"}, {"cosf", "cos"}, {"tanf", "tan"}, {"asinf", "asin"}, {"acosf", "acos"}, {"atanf", "atan"}, {"expf", "exp"}, {"exp2f", "exp2"}, {"scalbn", "ldexp"}, {"scalbnf", "ldexp"},
        {"logf", "log"}, {"log2f", "log2"}, {"log10f", "log10"}, {"atan2f", "atan2"}, {"powf", "pow"}, {"fmodf", "fmod"}, {"logb", "logb"}, {"logbf", "logb"}, {"ilogb", "ilogb"}, {"ilogbf", "ilogb"}};
    return m;
}
static Val mathCall(const string &op, vector<Val> &a, Type *t)
{
    vector<BV> v;
    for (auto &x : a) v.push_back(x.b);
    int w = tyBits(elTy(t));
    size_t n = nEl(t);
    BV r;
    for (size_t i = 0; i < n; ++i) {
        vector<BV> as;
        for (auto &x : v) as.push_back(x.size() % n == 0 && n > 1 ? slice(x, i * (x.size() / n), x.size() / n) : x);
        append(r, push("m." + op, as, [&](const vector<BV> &q) { vector<int> ids; for (auto &z : q) ids.push_back(intern(z)); return atom("m." + op + std::to_string(w), ids, w); }));
    }
    return Val(r);
}
static Val voidVal() { return Val(); }

static Val x86(const string &nm, const CallBase *cb, vector<Val> &a, Type *t, B g)
{
    auto arg = [&](int i) -> const BV & { return a[i].b; };
    auto imm = [&](int i) -> int { if (!isConst(a[i].b)) throw Unsupported("non-constant immediate " + nm); return (int)constVal(a[i].b); };
    int w = t->isVoidTy() || t->isStructTy() ? 0 : tyBits(elTy(t));
    string n = nm.substr(9); // strip llvm.x86.
    if (has(n, "packss") || has(n, "packus")) {
        bool uns = has(n, "packus");
        int to = w, from = w * 2;
        BV r;
        for (size_t l = 0; l < arg(0).size(); l += 128) { append(r, packSat(slice(arg(0), l, 128), from, to, uns)); append(r, packSat(slice(arg(1), l, 128), from, to, uns)); }
        return Val(r);
    }
    if (has(n, "movmsk")) { int ew = tyBits(elTy(cb->getArgOperand(0)->getType())); return Val(signBits(arg(0), ew, w)); }
    if (has(n, "ptestz") || has(n, "ptestc") || has(n, "ptestnzc") || has(n, "vtest")) {
        Type *at = elTy(cb->getArgOperand(0)->getType());
        int ew = has(n, "vtest") ? tyBits(at) : 1;
        B z = F, c = F;
        for (size_t i = ew - 1; i < arg(0).size(); i += ew) { z = M.Or(z, M.And(arg(0)[i], arg(1)[i])); c = M.Or(c, M.And(arg(0)[i] ^ 1, arg(1)[i])); }
        B zf = z ^ 1, cf = c ^ 1, r;
        if (has(n, "nzc")) r = M.And(zf ^ 1, cf ^ 1);
        else if (has(n, "testz")) r = zf;
        else r = cf;
        return Val(zextBV(BV{r}, w));
    }
    if (has(n, "round.")) {
        if (n == "sse41.round.ss" || n == "sse41.round.sd") { BV r = arg(0), x = roundOp(slice(arg(1), 0, w), imm(2)); std::copy(x.begin(), x.end(), r.begin()); return Val(r); }
        return Val(lanes1(arg(0), w, [&](const BV &x) { return roundOp(x, imm(1)); }));
    }
    if (has(n, ".rcp.") || has(n, ".rsqrt.")) {
        string op = has(n, "rsqrt") ? "rsqrtps" : "rcpps";
        auto f = [&](const BV &x) { return push(op, {x}, [&](const vector<BV> &v) { return atom(op, {intern(v[0])}, 32); }); };
        if (has(n, ".ss")) { BV r = arg(0), x = f(slice(arg(0), 0, 32)); std::copy(x.begin(), x.end(), r.begin()); return Val(r); }
        return Val(lanes1(arg(0), 32, f));
    }
    if (has(n, ".min.p") || has(n, ".max.p"))
        return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) { if (optOrder) return ordPick(2, has(n, ".min."), x, y); return iteBV(fcmpB(has(n, ".min.") ? 4 : 2, x, y), x, y); }));
    if (has(n, ".min.s") || has(n, ".max.s")) {
        BV x = slice(arg(0), 0, w), y = slice(arg(1), 0, w), r = arg(0);
        BV q = optOrder ? ordPick(2, has(n, ".min."), x, y) : iteBV(fcmpB(has(n, ".min.") ? 4 : 2, x, y), x, y);
        std::copy(q.begin(), q.end(), r.begin());
        return Val(r);
    }
    if (has(n, ".cmp.p")) { int k = imm(2); return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) { return BV(w, fcmpB(cmpImm(k), x, y)); })); }
    if (has(n, ".cmp.s")) { int k = imm(2); BV r = arg(0); B c = fcmpB(cmpImm(k), slice(arg(0), 0, w), slice(arg(1), 0, w)); for (int i = 0; i < w; ++i) r[i] = c; return Val(r); }
    if (has(n, "comi")) {
        static const map<string, int> pr = {{"eq", 1}, {"gt", 2}, {"ge", 3}, {"lt", 4}, {"le", 5}, {"neq", 14}};
        string op = n.substr(n.find("comi") + 4, n.rfind('.') - n.find("comi") - 4);
        int ew = has(n, ".ss") || n.back() == 's' ? 32 : 64;
        if (n.find(".sd") != string::npos || starts(n, "sse2")) ew = 64;
        return Val(zextBV(BV{fcmpB(pr.at(op), slice(arg(0), 0, ew), slice(arg(1), 0, ew))}, w));
    }
    if (n == "sse2.cvtps2dq" || n == "avx.cvt.ps2dq.256") return Val(lanes1(arg(0), 32, [](const BV &x) { return satTrunc32(x, true); }));
    if (n == "sse2.cvttps2dq" || n == "avx.cvtt.ps2dq.256") return Val(lanes1(arg(0), 32, [](const BV &x) { return satTrunc32(x, false); }));
    if (n == "sse2.cvtpd2dq" || n == "avx.cvt.pd2dq.256" || n == "sse2.cvttpd2dq" || n == "avx.cvtt.pd2dq.256") {
        bool rnd = !has(n, "cvtt");
        BV r;
        for (size_t i = 0; i < arg(0).size(); i += 64) append(r, satTrunc32(slice(arg(0), i, 64), rnd));
        r.resize(tyBits(t), F);
        return Val(r);
    }
    if (n == "sse.cvtss2si" || n == "sse.cvttss2si" || n == "sse.cvtss2si64" || n == "sse.cvttss2si64" || n == "sse2.cvtsd2si" || n == "sse2.cvttsd2si" || n == "sse2.cvtsd2si64" || n == "sse2.cvttsd2si64") {
        int fw = has(n, "ss2si") ? 32 : 64;
        BV x = slice(arg(0), 0, fw);
        return Val(cvttBV(has(n, "cvtt") ? x : funary("rint", x), w));
    }
    if (n == "sse2.cvtpd2ps" || n == "avx.cvt.pd2.ps.256") { BV r = lanes1(arg(0), 64, [](const BV &x) { return fptruncBV(x, 32); }); r.resize(tyBits(t), F); return Val(r); }
    if (n == "sse2.cvtsd2ss") { BV r = arg(0), x = fptruncBV(slice(arg(1), 0, 64), 32); std::copy(x.begin(), x.end(), r.begin()); return Val(r); }
    if (has(n, ".hadd.") || has(n, ".hsub.")) {
        BV r;
        for (size_t l = 0; l < arg(0).size(); l += 128)
            for (int s = 0; s < 2; ++s) { BV v = slice(arg(s), l, 128); for (int i = 0; i < 128; i += 2 * w) append(r, fbin(has(n, "hadd") ? "fadd" : "fsub", slice(v, i, w), slice(v, i + w, w))); }
        return Val(r);
    }
    if (has(n, "phadd.") || has(n, "phsub.")) {
        BV r;
        for (size_t l = 0; l < arg(0).size(); l += 128)
            for (int s = 0; s < 2; ++s) { BV v = slice(arg(s), l, 128); for (int i = 0; i < 128; i += 2 * w) append(r, has(n, "phadd") ? addBV(slice(v, i, w), slice(v, i + w, w)) : subBV(slice(v, i, w), slice(v, i + w, w))); }
        return Val(r);
    }
    if (has(n, "psign"))
        return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) { return iteBV(y.back(), negBV(x), iteBV(anyBV(y), x, constBV(0, w))); }));
    if (has(n, "pmadd.wd")) return Val(lanes2(arg(0), arg(1), 32, [&](const BV &x, const BV &y) {
        return addBV(mulBV(sextBV(slice(x, 0, 16), 32), sextBV(slice(y, 0, 16), 32)), mulBV(sextBV(slice(x, 16, 16), 32), sextBV(slice(y, 16, 16), 32))); }));
    if (has(n, "pmulh.w") || has(n, "pmulhu.w")) {
        bool u = has(n, "pmulhu");
        return Val(lanes2(arg(0), arg(1), 16, [&](const BV &x, const BV &y) { return slice(u ? mulBV(zextBV(x, 32), zextBV(y, 32)) : mulBV(sextBV(x, 32), sextBV(y, 32)), 16, 16); }));
    }
    if (has(n, "pmul.hr.sw")) return Val(lanes2(arg(0), arg(1), 16, [&](const BV &x, const BV &y) {
        BV m = mulBV(sextBV(x, 32), sextBV(y, 32));
        BV s = slice(m, 14, 18);
        return slice(addBV(s, constBV(1, 18)), 1, 16); }));
    if (has(n, "psad.bw")) {
        BV r;
        for (size_t i = 0; i < arg(0).size(); i += 64) {
            BV s(64, F);
            for (int j = 0; j < 64; j += 8) { BV x = zextBV(slice(arg(0), i + j, 8), 64), y = zextBV(slice(arg(1), i + j, 8), 64); s = addBV(s, iteBV(ultBV(x, y), subBV(y, x), subBV(x, y))); }
            append(r, s);
        }
        return Val(r);
    }
    if (has(n, "pshuf.b")) {
        BV r;
        for (size_t i = 0; i < arg(0).size(); i += 8) {
            BV ix = slice(arg(1), i, 8), lane = slice(arg(0), i / 128 * 128, 128);
            append(r, iteBV(ix[7], constBV(0, 8), selLane(lane, 8, ix)));
        }
        return Val(r);
    }
    if (starts(n, "avx.vpermilvar")) {
        BV r;
        for (size_t i = 0; i < arg(0).size(); i += w) { BV lane = slice(arg(0), i / 128 * 128, 128), ix = slice(arg(1), i, w); if (w == 64) ix.erase(ix.begin()); append(r, selLane(lane, w, ix)); }
        return Val(r);
    }
    if (n == "avx2.permd" || n == "avx2.permps") {
        BV r;
        for (size_t i = 0; i < 256; i += 32) append(r, selLane(arg(0), 32, slice(arg(1), i, 32)));
        return Val(r);
    }
    if (has(n, ".psll") || has(n, ".psrl") || has(n, ".psra")) {
        int kind = has(n, ".psll") ? 0 : has(n, ".psrl") ? 1 : 2;
        string m = n.substr(n.find(".ps") + 5); // after psll/psrl/psra
        if (m[0] == 'v') return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) { return shiftBV(kind, x, y); }));
        BV cnt = m[0] == 'i' ? arg(1) : slice(arg(1), 0, 64);
        return Val(lanes1(arg(0), w, [&](const BV &x) { return shiftBV(kind, x, cnt); }));
    }
    if (has(n, "blendv") ) {
        BV r(arg(0).size());
        for (size_t i = 0; i < r.size(); ++i) r[i] = M.ite(arg(2)[i / w * w + w - 1], arg(1)[i], arg(0)[i]);
        ordNorm(r);
        return Val(r);
    }
    if (has(n, "maskload")) {
        BV r;
        for (size_t i = 0; i * w < arg(1).size(); ++i) {
            B c = arg(1)[i * w + w - 1];
            BV v = c == F ? constBV(0, w) : iteBV(c, load(addPtr(a[0], constBV(i * w / 8, 64)), w / 8, 1, M.And(g, c)), constBV(0, w));
            append(r, v);
        }
        return Val(r);
    }
    if (has(n, "maskstore")) {
        int ew = tyBits(elTy(cb->getArgOperand(2)->getType()));
        for (size_t i = 0; i * ew < arg(1).size(); ++i) {
            B c = M.And(g, arg(1)[i * ew + ew - 1]);
            if (c != F) store(addPtr(a[0], constBV(i * ew / 8, 64)), slice(arg(2), i * ew, ew), 1, c);
        }
        return voidVal();
    }
    if (n == "sse2.maskmov.dqu") {
        for (int i = 0; i < 16; ++i) { B c = M.And(g, arg(1)[i * 8 + 7]); if (c != F) store(addPtr(a[2], constBV(i, 64)), slice(arg(0), i * 8, 8), 1, c); }
        return voidVal();
    }
    if (starts(n, "avx2.gather")) { // (src, ptr, idx, mask, scale)
        Type *it = cb->getArgOperand(2)->getType();
        int iw = tyBits(elTy(it)), cnt = std::min<int>(nEl(it), nEl(t)), sc = imm(4);
        BV r = arg(0);
        for (int i = 0; i < (int)nEl(t); ++i) {
            if (i >= cnt) { for (int j = 0; j < w; ++j) r[i * w + j] = F; continue; }
            B c = arg(3)[i * w + w - 1];
            if (c == F) continue;
            BV off = mulBV(sextBV(slice(arg(2), i * iw, iw), 64), constBV(sc, 64));
            BV v = load(addPtr(a[1], off), w / 8, 1, M.And(g, c));
            for (int j = 0; j < w; ++j) r[i * w + j] = M.ite(c, v[j], r[i * w + j]);
        }
        return Val(r);
    }
    if (has(n, "ldu.dq")) return Val(load(a[0], tyBits(t) / 8, 1, g));
    if (starts(n, "bmi.pext") || starts(n, "bmi.pdep")) {
        bool ext = has(n, "pext");
        BV r(w, F);
        // running position of the next low bit
        vector<B> pos(1, T); // one-hot count of mask bits seen so far
        for (int i = 0; i < w; ++i) {
            B m = arg(1)[i];
            if (m != F)
                for (size_t k = 0; k < pos.size() && (int)k < w; ++k) {
                    B c = M.And(m, pos[k]);
                    if (ext) r[k] = M.Or(r[k], M.And(c, arg(0)[i]));
                    else r[i] = M.Or(r[i], M.And(c, arg(0)[k]));
                }
            vector<B> np(pos.size() + (m != F), F);
            for (size_t k = 0; k < pos.size(); ++k) { np[k] = M.Or(np[k], M.And(pos[k], m ^ 1)); if (m != F) np[k + 1] = M.Or(np[k + 1], M.And(pos[k], m)); }
            pos = np;
        }
        return Val(r);
    }
    if (starts(n, "bmi.bzhi")) { BV r(w); BV ix = slice(arg(1), 0, 8); for (int i = 0; i < w; ++i) r[i] = M.And(arg(0)[i], ultBV(constBV(i, 8), ix)); return Val(r); }
    if (starts(n, "bmi.bextr")) {
        BV s = shiftBV(1, arg(0), slice(arg(1), 0, 8)), len = slice(arg(1), 8, 8), r(w);
        for (int i = 0; i < w; ++i) r[i] = M.And(s[i], ultBV(constBV(i, 8), len));
        return Val(r);
    }
    if (n == "avx2.mpsadbw" || n == "sse41.mpsadbw") throw Unsupported(nm);
    if (has(n, "addsub.p")) {
        BV r;
        for (size_t i = 0; i * w < arg(0).size(); ++i) append(r, fbin(i & 1 ? "fadd" : "fsub", slice(arg(0), i * w, w), slice(arg(1), i * w, w)));
        return Val(r);
    }
    if (has(n, ".dpps") || has(n, ".dppd") || has(n, "dp.ps")) throw Unsupported(nm);
    if (n == "sse.stmxcsr") { store(a[0], constBV(0x1f80, 32), 1, g); return voidVal(); }
    if (n == "sse.ldmxcsr" || n == "sse.sfence" || n == "sse2.lfence" || n == "sse2.mfence") return voidVal();
    throw Unsupported("intrinsic " + nm);
}

// Inline assembly: a small transfer-function table for the instructions used in the sources.
struct AsmOp { BV reg; bool mem = false; Val ptr; int out = -1; };
static Val doAsm(const CallBase *cb, vector<Val> &a, B g)
{
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    string s = ia->getAsmString();
    Type *t = cb->getType();
    vector<AsmOp> ops;
    vector<Type *> outTy;
    if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) outTy.push_back(e);
    else if (!t->isVoidTy()) outTy.push_back(t);
    size_t ai = 0;
    int no = 0;
    for (auto &c : ia->ParseConstraints()) {
        if (c.Type == InlineAsm::isClobber) continue;
        AsmOp o;
        if (c.Type == InlineAsm::isOutput) {
            if (c.isIndirect) { o.mem = true; o.ptr = a.at(ai++); }
            else { o.out = no; o.reg = BV(tyBits(outTy.at(no)), F); ++no; }
        } else if (c.Type == InlineAsm::isInput) {
            if (c.isIndirect) { o.mem = true; o.ptr = a.at(ai++); }
            else o.reg = toBits(a.at(ai++));
            if (!c.Codes.empty() && isdigit(c.Codes[0][0])) { int k = std::stoi(c.Codes[0]); ops.at(k).reg = o.reg; }
        }
        ops.push_back(o);
    }
    // processor identification: every output register is a fixed function of the leaf (and subleaf, if one is passed)
    if (s == "cpuid" || s == "xgetbv") {
        vector<int> ids;
        vector<string> outReg;
        string inReg;
        for (auto &c : ia->ParseConstraints()) {
            if (c.Type == InlineAsm::isOutput && !c.Codes.empty()) outReg.push_back(c.Codes[0]);
            if (c.Type == InlineAsm::isInput && !c.Codes.empty()) inReg += c.Codes[0];
        }
        for (size_t i = outReg.size(); i < ops.size(); ++i) ids.push_back(intern(ops[i].reg));
        for (size_t i = 0; i < outReg.size(); ++i) { ops[i].reg = atom(s + inReg + "." + outReg[i], ids, ops[i].reg.size()); }
        s.clear();
    }
    // instructions
    string cur;
    vector<string> ins;
    for (char ch : s + "\n") { if (ch == '\n' || ch == ';') { size_t p = cur.find_first_not_of(" \t"); if (p != string::npos) ins.push_back(cur.substr(p)); cur.clear(); } else cur += ch; }
    for (auto &in : ins) {
        size_t sp = in.find_first_of(" \t");
        string mn = in.substr(0, sp), rest = sp == string::npos ? "" : in.substr(sp + 1);
        vector<int> idx;
        vector<long> immv;
        string tok;
        int nest = 0;
        for (char ch : rest + ",") {
            if (ch == '{') ++nest;
            if (ch == '}') --nest;
            if (ch == ',' && !nest) {
                size_t p = tok.find_first_not_of(" \t");
                string x = p == string::npos ? "" : tok.substr(p);
                if (starts(x, "$$")) { idx.push_back(-1); immv.push_back(strtol(x.c_str() + 2, nullptr, 0)); }
                else if (starts(x, "${")) { idx.push_back(atoi(x.c_str() + 2)); immv.push_back(0); }
                else if (starts(x, "$")) { idx.push_back(atoi(x.c_str() + 1)); immv.push_back(0); }
                else throw Unsupported("asm operand " + x + " in " + s);
                tok.clear();
            } else tok += ch;
        }
        auto R = [&](int i) -> BV & { return ops.at(idx.at(i)).reg; };
        auto setR = [&](int i, BV v) { AsmOp &o = ops.at(idx.at(i)); if (o.mem) { store(o.ptr, v, 1, g); return; } v.resize(o.reg.size(), F); o.reg = v; };
        int n = idx.size();
        if (mn == "bsf" || mn == "bsfl" || mn == "bsfq" || mn == "tzcnt") setR(1, ctzBV(R(0), 32));
        else if (mn == "bsr" || mn == "bsrl" || mn == "bsrq") { BV v = R(0); setR(1, subBV(constBV(v.size() - 1, 32), clzBV(v, 32))); }
        else if (mn == "btr" || mn == "btrl" || mn == "btrq") {
            BV v = R(1), ix = slice(R(0), 0, v.size() == 64 ? 6 : 5);
            for (size_t i = 0; i < v.size(); ++i) v[i] = M.And(v[i], eqBV(ix, constBV(i, ix.size())) ^ 1);
            setR(1, v);
        } else if (mn == "bts" || mn == "btsl" || mn == "btsq") {
            BV v = R(1), ix = slice(R(0), 0, v.size() == 64 ? 6 : 5);
            for (size_t i = 0; i < v.size(); ++i) v[i] = M.Or(v[i], eqBV(ix, constBV(i, ix.size())));
            setR(1, v);
        } else if (n == 2 && mn.size() == 5 && (starts(mn, "psll") || starts(mn, "psrl") || starts(mn, "psra"))) {
            int w = mn[4] == 'w' ? 16 : mn[4] == 'd' ? 32 : 64, kind = starts(mn, "psll") ? 0 : starts(mn, "psrl") ? 1 : 2;
            BV cnt = idx[0] < 0 ? constBV(immv[0], 64) : slice(R(0), 0, 64);
            setR(1, lanes1(R(1), w, [&](const BV &x) { return shiftBV(kind, x, cnt); }));
        } else if (n == 2 && (mn == "vmovq" || mn == "movq")) setR(1, slice(R(0), 0, 64));
        else if (n == 2 && (mn == "vmovd" || mn == "movd")) setR(1, slice(R(0), 0, 32));
        else if (n == 2 && (mn == "vmovups" || mn == "movups" || mn == "vmovdqu" || mn == "movdqu" || mn == "vmovaps" || mn == "movaps")) setR(1, R(0));
        else if (mn == "pinsrd" || mn == "vpinsrd" || mn == "pinsrq" || mn == "vpinsrq") {
            int w = mn.back() == 'd' ? 32 : 64;
            BV base = R(n == 4 ? 2 : 2), v = slice(R(1), 0, w);
            std::copy(v.begin(), v.end(), base.begin() + immv[0] * w);
            setR(n - 1, base);
        } else if (mn == "punpcklqdq" || mn == "vpunpcklqdq") {
            BV lo = slice(n == 3 ? R(1) : R(1), 0, 64);
            append(lo, slice(R(0), 0, 64));
            setR(n - 1, lo);
        } else throw Unsupported("asm " + s);
    }
    if (no == 0) return voidVal();
    if (!t->isStructTy()) { for (auto &o : ops) if (o.out == 0) return elTy(t)->isPointerTy() ? bitsToPtr(o.reg) : Val(o.reg); }
    Val r; r.k = Val::AGG; r.a.resize(no);
    for (auto &o : ops) if (o.out >= 0) r.a[o.out] = Val(o.reg);
    return r;
}
static bool optEventsPure = true;
static string curFnName;
static Val extCall(const string &nm, const CallBase *cb, vector<Val> &a, B g)
{
    Type *t = cb->getType();
    auto pm = pureMath().find(nm);
    if (pm != pureMath().end()) return mathCall(pm->second, a, t);
    if (nm == "__vc_assume") { addAssume(M.Or(g ^ 1, a[0].b[0])); return voidVal(); }
    if (nm == "__vc_touch") { load(a[0], (int)constVal(a[1].b), 1, g); return voidVal(); }
    if (nm == "sincos" || nm == "sincosf") {
        vector<Val> x{a[0]};
        Type *ft = cb->getArgOperand(0)->getType();
        Val s = mathCall("sin", x, ft), c = mathCall("cos", x, ft);
        store(a[1], s.b, 1, g); store(a[2], c.b, 1, g);
        return voidVal();
    }
    if (nm == "sqrt" || nm == "sqrtf") return Val(funary("sqrt", a[0].b));
    if (nm == "floor" || nm == "floorf") return Val(funary("floor", a[0].b));
    if (nm == "ceil" || nm == "ceilf") return Val(funary("ceil", a[0].b));
    if (nm == "trunc" || nm == "truncf") return Val(funary("ftrunc", a[0].b));
    if (nm == "rint" || nm == "rintf" || nm == "nearbyint" || nm == "nearbyintf") return Val(funary("rint", a[0].b));
    if (nm == "round" || nm == "roundf") return Val(funary("round", a[0].b));
    if (nm == "fma" || nm == "fmaf") return Val(fmaBV(a[0].b, a[1].b, a[2].b));
    if (nm == "frexp" || nm == "frexpf") {
        int w = tyBits(t);
        int id = intern(a[0].b);
        store(a[1], atom("m.frexp.e", {id}, 32), 1, g);
        return Val(atom("m.frexp.m", {id}, w));
    }
    if (nm == "modf" || nm == "modff") throw Unsupported("modf");
    if (nm == "posix_memalign") {
        Obj o; o.kind = Obj::HEAP;
        if (!isConst(a[1].b)) throw Unsupported("posix_memalign alignment");
        o.o.align = constVal(a[1].b);
        o.o.size = isConst(a[2].b) ? (int64_t)constVal(a[2].b) : -1;
        o.o.name = string("heap") + std::to_string(S->events.size()) + "a" + std::to_string(o.o.align);
        o.o.elem = 4;
        int id = newObj(o);
        BV pl = a[1].b; append(pl, a[2].b);
        S->events.push_back({g, "alloc", pl, curLoc});
        store(a[0], ptrBits(mkPtr(id)), 1, g);
        return Val(constBV(0, 32));
    }
    if (nm == "malloc" || nm == "_Znwm" || nm == "_Znam" || nm == "_mm_malloc" || nm == "aligned_alloc" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnamSt11align_val_t") {
        Obj o; o.kind = Obj::HEAP;
        BV sz = nm == "aligned_alloc" ? a[1].b : a[0].b, al = constBV(16, 64);
        if (nm == "aligned_alloc") al = a[0].b;
        if (nm == "_mm_malloc" || has(nm, "align_val")) al = a[1].b;
        if (!isConst(al)) throw Unsupported("alloc alignment");
        o.o.align = constVal(al);
        o.o.size = isConst(sz) ? (int64_t)constVal(sz) : -1;
        o.o.name = string("heap") + std::to_string(S->events.size()) + "a" + std::to_string(o.o.align);
        o.o.elem = 4;
        int id = newObj(o);
        BV pl = al; append(pl, sz);
        S->events.push_back({g, "alloc", pl, curLoc});
        return mkPtr(id);
    }
    if (nm == "free" || starts(nm, "_ZdlPv") || starts(nm, "_ZdaPv")) {
        S->events.push_back({g, "free", a[0].k == Val::PTR ? ptrBits(a[0]) : a[0].b, curLoc});
        return voidVal();
    }
    if (nm == "memcpy" || nm == "memmove") { memCopy(a[0], a[1], a[2].b, 1, 1, g); return a[0]; }
    if (nm == "__cxa_guard_acquire") return Val(constBV(1, 32));
    if (nm == "__cxa_guard_release" || nm == "__cxa_atexit" || nm == "__cxa_begin_catch" || nm == "__cxa_end_catch") return t->isVoidTy() ? voidVal() : Val(constBV(0, tyBits(t)));
    if (starts(nm, "cb_") && nm != "cb_message") { // client callback of a witness: arguments are observable, result is a function of them
        BV pl;
        vector<int> ids;
        for (auto &x : a) { BV b = toBits(x); ids.push_back(intern(b)); append(pl, b); }
        bool pure = starts(nm, "cb_pure");
        if (!pure) S->events.push_back({g, "call " + nm, pl, curLoc});
        if (t->isVoidTy()) return voidVal();
        vector<BV> as;
        for (auto &x : a) as.push_back(toBits(x));
        int w = tyBits(t);
        return Val(push(nm, as, [&](const vector<BV> &q) { vector<int> is; for (auto &z : q) is.push_back(intern(z)); return atom(nm, is, w); }));
    }
    if (nm == "printf" || nm == "puts" || nm == "fprintf" || nm == "vprintf" || nm == "fputs" || nm == "fwrite" || nm == "perror" || nm == "putchar" || nm == "cb_message") {
        S->events.push_back({g, "message", {}, curLoc});
        return t->isVoidTy() ? voidVal() : undefOf(t);
    }
    if (nm == "__cxa_allocate_exception") { Obj o; o.kind = Obj::HEAP; o.o.align = 16; o.o.size = 256; o.o.elem = 4; o.o.name = "exception" + std::to_string(S->objs.size()); return mkPtr(newObj(o)); }
    if (nm == "__cxa_free_exception" || starts(nm, "_ZNSt12out_of_range") || starts(nm, "_ZNSt9bad_alloc") || starts(nm, "_ZNSt11logic_error")) return t->isVoidTy() ? voidVal() : a.empty() ? undefOf(t) : a[0];
    if (has(nm, "abort") || has(nm, "__assert_fail") || has(nm, "terminate") || has(nm, "__throw_") || has(nm, "__cxa_throw")) {
        S->events.push_back({g, "call " + nm, {}, curLoc});
        return t->isVoidTy() ? voidVal() : undefOf(t);
    }
    throw Unsupported("external function " + demangle(nm));
}

static Val doCall(const CallBase *cb, vector<Val> a, B g)
{
    if (isa<InlineAsm>(cb->getCalledOperand())) return doAsm(cb, a, g);
    auto *fn = cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    string nm = fn->getName().str();
    Type *t = cb->getType();
    auto id = fn->getIntrinsicID();
    auto arg = [&](int i) -> const BV & { return a[i].b; };
    int w = t->isVoidTy() || t->isStructTy() ? 0 : tyBits(elTy(t));
    if (id != Intrinsic::not_intrinsic) {
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            auto *mc = cast<MemTransferInst>(cb);
            memCopy(a[0], a[1], a[2].b, mc->getDestAlign().valueOrOne().value(), mc->getSourceAlign().valueOrOne().value(), g);
            return voidVal();
        }
        case Intrinsic::memset: {
            for (auto &alt : splitOff(a[2].b, g, true)) {
                if (!isConst(alt.second)) throw Unsupported("memset with symbolic length");
                uint64_t n = constVal(alt.second);
                if (n > 65536) throw Unsupported("huge memset");
                BV d;
                for (uint64_t i = 0; i < n; ++i) append(d, a[1].b);
                if (n) store(a[0], d, cast<MemSetInst>(cb)->getDestAlign().valueOrOne().value(), alt.first);
            }
            return voidVal();
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
            return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) {
                if (optOrder && w >= 16) return ordPick(id == Intrinsic::umin || id == Intrinsic::umax ? 0 : 1, id == Intrinsic::umin || id == Intrinsic::smin, x, y);
                B lt = id == Intrinsic::umin || id == Intrinsic::umax ? ultBV(x, y) : sltBV(x, y);
                return id == Intrinsic::umin || id == Intrinsic::smin ? iteBV(lt, x, y) : iteBV(lt, y, x);
            }));
        case Intrinsic::abs: return Val(lanes1(arg(0), w, [](const BV &x) { return iteBV(x.back(), negBV(x), x); }));
        case Intrinsic::fabs: return Val(lanes1(arg(0), w, [](BV x) { x.back() = F; return x; }));
        case Intrinsic::copysign: return Val(lanes2(arg(0), arg(1), w, [](BV x, const BV &y) { x.back() = y.back(); return x; }));
        case Intrinsic::sqrt: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("sqrt", x); }));
        case Intrinsic::floor: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("floor", x); }));
        case Intrinsic::ceil: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("ceil", x); }));
        case Intrinsic::trunc: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("ftrunc", x); }));
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("rint", x); }));
        case Intrinsic::round: return Val(lanes1(arg(0), w, [](const BV &x) { return funary("round", x); }));
        case Intrinsic::lrint: case Intrinsic::llrint: return Val(ftoiBV(funary("rint", arg(0)), w));
        case Intrinsic::fma: {
            BV r;
            for (size_t i = 0; i < arg(0).size(); i += w) append(r, fmaBV(slice(arg(0), i, w), slice(arg(1), i, w), slice(arg(2), i, w)));
            return Val(r);
        }
        case Intrinsic::fmuladd: return Val(lanes2(lanes2(arg(0), arg(1), w, [](const BV &x, const BV &y) { return fbin("fmul", x, y); }), arg(2), w, [](const BV &x, const BV &y) { return fbin("fadd", x, y); }));
        case Intrinsic::minnum: case Intrinsic::maxnum:
            return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) {
                B p = fcmpB(id == Intrinsic::minnum ? 4 : 2, x, y);
                return iteBV(nanB(x), y, iteBV(nanB(y), x, iteBV(p, x, y)));
            }));
        case Intrinsic::sin: return mathCall("sin", a, t);
        case Intrinsic::cos: return mathCall("cos", a, t);
        case Intrinsic::exp: return mathCall("exp", a, t);
        case Intrinsic::exp2: return mathCall("exp2", a, t);
        case Intrinsic::log: return mathCall("log", a, t);
        case Intrinsic::log2: return mathCall("log2", a, t);
        case Intrinsic::log10: return mathCall("log10", a, t);
        case Intrinsic::pow: return mathCall("pow", a, t);
        case Intrinsic::frexp: {
            int id = intern(a[0].b);
            Val v; v.k = Val::AGG;
            v.a.push_back(Val(atom("m.frexp.m", {id}, (int)a[0].b.size())));
            v.a.push_back(Val(atom("m.frexp.e", {id}, 32)));
            return v;
        }
        case Intrinsic::ldexp: return mathCall("ldexp", a, t);
        case Intrinsic::ctpop: return Val(lanes1(arg(0), w, [&](const BV &x) { return popcountBV(x, w); }));
        case Intrinsic::cttz: return Val(lanes1(arg(0), w, [&](const BV &x) { return ctzBV(x, w); }));
        case Intrinsic::ctlz: return Val(lanes1(arg(0), w, [&](const BV &x) { return clzBV(x, w); }));
        case Intrinsic::bswap: return Val(lanes1(arg(0), w, [&](const BV &x) { BV r; for (int i = w - 8; i >= 0; i -= 8) append(r, slice(x, i, 8)); return r; }));
        case Intrinsic::bitreverse: return Val(lanes1(arg(0), w, [&](BV x) { std::reverse(x.begin(), x.end()); return x; }));
        case Intrinsic::fshl: case Intrinsic::fshr: {
            BV r;
            for (size_t i = 0; i < arg(0).size(); i += w) {
                BV x = slice(arg(1), i, w), y = slice(arg(0), i, w), s = slice(arg(2), i, w); // concat y:x
                BV c = x; append(c, y);
                int lg = 0; while ((1 << lg) < w) ++lg;
                BV sh = slice(s, 0, lg);
                if (id == Intrinsic::fshr) append(r, slice(shiftBV(1, c, sh), 0, w));
                else append(r, slice(shiftBV(0, c, sh), w, w));
            }
            return Val(r);
        }
        case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
            return Val(lanes2(arg(0), arg(1), w, [&](const BV &x, const BV &y) -> BV {
                bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat, sub = id == Intrinsic::ssub_sat || id == Intrinsic::usub_sat;
                BV ex = sg ? sextBV(x, w + 1) : zextBV(x, w + 1), ey = sg ? sextBV(y, w + 1) : zextBV(y, w + 1);
                BV s = sub ? subBV(ex, ey) : addBV(ex, ey);
                BV lo = slice(s, 0, w);
                if (!sg) return sub ? iteBV(s[w], constBV(0, w), lo) : iteBV(s[w], BV(w, T), lo);
                BV sat(w, s[w] ^ 1); sat[w - 1] = s[w];
                return iteBV(M.Xor(s[w], s[w - 1]), sat, lo);
            }));
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: {
            int ww = arg(0).size();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow, sub = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
            BV ex = sg ? sextBV(arg(0), ww + 1) : zextBV(arg(0), ww + 1), ey = sg ? sextBV(arg(1), ww + 1) : zextBV(arg(1), ww + 1);
            BV s = sub ? subBV(ex, ey) : addBV(ex, ey);
            Val r; r.k = Val::AGG;
            r.a.push_back(Val(slice(s, 0, ww)));
            r.a.push_back(Val(BV{sg ? M.Xor(s[ww], s[ww - 1]) : s[ww]}));
            return r;
        }
        case Intrinsic::umul_with_overflow: {
            int ww = arg(0).size();
            BV p = mulBV(zextBV(arg(0), 2 * ww), zextBV(arg(1), 2 * ww));
            Val r; r.k = Val::AGG;
            r.a.push_back(Val(slice(p, 0, ww)));
            r.a.push_back(Val(BV{anyBV(slice(p, ww, ww))}));
            return r;
        }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:
        case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: {
            BV r = slice(arg(0), 0, w);
            for (size_t i = w; i < arg(0).size(); i += w) {
                BV x = slice(arg(0), i, w);
                if (optOrder && w >= 16 && id != Intrinsic::vector_reduce_add && id != Intrinsic::vector_reduce_mul && id != Intrinsic::vector_reduce_and && id != Intrinsic::vector_reduce_or && id != Intrinsic::vector_reduce_xor) {
                    r = ordPick(id == Intrinsic::vector_reduce_umin || id == Intrinsic::vector_reduce_umax ? 0 : 1, id == Intrinsic::vector_reduce_umin || id == Intrinsic::vector_reduce_smin, r, x);
                    continue;
                }
                switch (id) {
                case Intrinsic::vector_reduce_add: r = addBV(r, x); break;
                case Intrinsic::vector_reduce_mul: r = mulBV(r, x); break;
                case Intrinsic::vector_reduce_and: for (int j = 0; j < w; ++j) r[j] = M.And(r[j], x[j]); break;
                case Intrinsic::vector_reduce_or: for (int j = 0; j < w; ++j) r[j] = M.Or(r[j], x[j]); break;
                case Intrinsic::vector_reduce_xor: for (int j = 0; j < w; ++j) r[j] = M.Xor(r[j], x[j]); break;
                case Intrinsic::vector_reduce_smin: r = iteBV(sltBV(x, r), x, r); break;
                case Intrinsic::vector_reduce_smax: r = iteBV(sltBV(r, x), x, r); break;
                case Intrinsic::vector_reduce_umin: r = iteBV(ultBV(x, r), x, r); break;
                default: r = iteBV(ultBV(r, x), x, r); break;
                }
            }
            return Val(r);
        }
        case Intrinsic::is_fpclass: {
            int m = constVal(arg(1));
            Type *at = cb->getArgOperand(0)->getType();
            int fw = tyBits(elTy(at));
            return Val(lanes1(arg(0), fw, [&](const BV &x) {
                int mb = manBits(fw);
                B s = x.back(), e1 = T, e0 = T, mz = T;
                for (int i = mb; i < fw - 1; ++i) { e1 = M.And(e1, x[i]); e0 = M.And(e0, x[i] ^ 1); }
                for (int i = 0; i < mb; ++i) mz = M.And(mz, x[i] ^ 1);
                B nan = M.And(e1, mz ^ 1), inf = M.And(e1, mz), zero = M.And(e0, mz), sub = M.And(e0, mz ^ 1), nrm = M.And(e1 ^ 1, e0 ^ 1), q = x[mb - 1], r = F;
                if (m & 1) r = M.Or(r, M.And(nan, q ^ 1));
                if (m & 2) r = M.Or(r, M.And(nan, q));
                if (m & 4) r = M.Or(r, M.And(inf, s));
                if (m & 8) r = M.Or(r, M.And(nrm, s));
                if (m & 16) r = M.Or(r, M.And(sub, s));
                if (m & 32) r = M.Or(r, M.And(zero, s));
                if (m & 64) r = M.Or(r, M.And(zero, s ^ 1));
                if (m & 128) r = M.Or(r, M.And(sub, s ^ 1));
                if (m & 256) r = M.Or(r, M.And(nrm, s ^ 1));
                if (m & 512) r = M.Or(r, M.And(inf, s ^ 1));
                return BV{r};
            }));
        }
        case Intrinsic::masked_load: { // ptr, align, mask, passthru
            BV r;
            for (size_t i = 0; i < arg(2).size(); ++i) {
                B c = arg(2)[i];
                append(r, iteBV(c, c == F ? constBV(0, w) : load(addPtr(a[0], constBV(i * w / 8, 64)), w / 8, 1, M.And(g, c)), slice(arg(3), i * w, w)));
            }
            return Val(r);
        }
        case Intrinsic::masked_store: { // val, ptr, align, mask
            int ew = tyBits(elTy(cb->getArgOperand(0)->getType()));
            for (size_t i = 0; i < arg(3).size(); ++i) { B c = M.And(g, arg(3)[i]); if (c != F) store(addPtr(a[1], constBV(i * ew / 8, 64)), slice(arg(0), i * ew, ew), 1, c); }
            return voidVal();
        }
        case Intrinsic::expect: return a[0];
        case Intrinsic::objectsize: return Val(constBV(~0ull, w));
        case Intrinsic::is_constant: return Val(constBV(0, 1));
        case Intrinsic::trap: issue("unreachable", "trap", g); return voidVal();
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
        case Intrinsic::stacksave: return zeroOf(t);
        case Intrinsic::stackrestore: return voidVal();
        case Intrinsic::ptrmask: return bitsToPtr(binop(Instruction::And, ptrBits(a[0]), arg(1), cb->getArgOperand(1)->getType()).b);
        default: break;
        }
        if (starts(nm, "llvm.x86.")) return x86(nm, cb, a, t, g);
        throw Unsupported("intrinsic " + nm);
    }
    const Function *def = fn;
    if (pureMath().count(nm) || starts(nm, "cb_")) return extCall(nm, cb, a, g);
    if (fn->isDeclaration()) {
        auto it = defFuncs.find(nm);
        if (it == defFuncs.end()) return extCall(nm, cb, a, g);
        def = it->second;
    }
    S->callees.insert(nm);
    return execFn(def, a, g);
}
