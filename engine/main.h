#include <unistd.h>
// Job driver: set-up of arguments, comparison of observables, rendering of differences.
static string renderBV(const BV &v, int depth = 0);
static string renderVar(uint64_t k, int depth)
{
    VarInfo &vi = varOf(k);
    if (vi.op.empty()) return vi.base + "." + std::to_string(vi.bit);
    string s = vi.op + "(";
    if (depth > 3) return s + "...)";
    for (size_t i = 0; i < vi.args.size(); ++i) { if (i) s += ","; if (i > 6) { s += "..."; break; } s += renderBV(*internVec[vi.args[i]], depth + 1); }
    return s + ")." + std::to_string(vi.bit);
}
static string renderB(B e, int depth)
{
    if (e == F) return "0";
    if (e == T) return "1";
    string neg = e & 1 ? "!" : "";
    if (M.lo(e & ~1u) == F && M.hi(e & ~1u) == T) return neg + renderVar(M.key(e), depth);
    std::unordered_set<uint32_t> seen;
    vector<uint64_t> keys;
    M.support(e, seen, keys);
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    string s = neg + "f{";
    for (size_t i = 0; i < keys.size() && i < 4; ++i) s += (i ? "," : "") + renderVar(keys[i], depth + 1);
    if (keys.size() > 4) s += ",.." + std::to_string(keys.size());
    return s + "}";
}
static string renderBV(const BV &v, int depth)
{
    if (v.empty()) return "void";
    if (isConst(v)) {
        char b[64];
        snprintf(b, 64, "0x%llx", (unsigned long long)constVal(v));
        string s = b;
        if (v.size() == 32 && depth == 0) { float f = asF(v); s += " (" + std::to_string(f) + "f)"; }
        return s;
    }
    // a contiguous run of variables of the same source?
    auto isVar = [&](B e) { return e > 1 && !(e & 1) && M.lo(e) == F && M.hi(e) == T; };
    size_t i = 0;
    if (isVar(v[0])) {
        VarInfo &a = varOf(M.key(v[0]));
        for (i = 1; i < v.size(); ++i) {
            if (!isVar(v[i])) break;
            VarInfo &b = varOf(M.key(v[i]));
            if (b.base != a.base || b.op != a.op || (a.op != "mul" && a.op != "ftoi" && b.args != a.args)) break;
        }
        if (i + 1 >= v.size() && v.size() > 1) {
            string s = a.op.empty() ? a.base : renderVar(M.key(v[v.size() > 1 ? v.size() - 2 : 0]), depth);
            if (!a.op.empty()) s = s.substr(0, s.rfind('.'));
            if (i < v.size()) s = "sgn'(" + s + ")";
            return s;
        }
    }
    if (v.size() == 1) return renderB(v[0], depth);
    // rendered by the lowest and highest bit
    if (depth > 2) return "<expr>";
    return "<lo:" + renderB(v[0], depth + 1) + " .. hi:" + renderB(v.back(), depth + 1) + ">";
}
static string witness(B d)
{ // a cube of the difference
    string s;
    int n = 0;
    while (d > 1 && n < 400) {
        uint64_t k = M.key(d);
        bool v = M.hi(d) != F;
        if (n < 12) s += (n ? " " : "") + renderVar(k, 2) + "=" + (v ? "1" : "0");
        d = v ? M.hi(d) : M.lo(d);
        ++n;
    }
    if (n > 12) s += " ...";
    return s;
}
// Consistency of the conditions in a difference: comparisons of one value with several constants, and NaN propagation.
static std::unordered_map<B, B> theoryMemo;
static B surelyNan(int id, int depth, map<int, B> &memo)
{
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    const BV x = *internVec[id];
    B r = F;
    if (x.size() < 32) return F;
    if (isConst(x)) return nanB(x);
    if (x[0] <= 1) return F;
    uint64_t k = M.key(x[0]);
    if (isCtl(k)) return F;
    VarInfo vi = varOf(k);
    if (vi.op.empty()) r = nanB(x);
    else if (depth < 60 && vi.bit == 0 && (vi.op == "fadd" || vi.op == "fmul" || vi.op == "fdiv" || vi.op == "fma" || vi.op == "sqrt" || vi.op == "rint" || vi.op == "floor" || vi.op == "ceil" || vi.op == "ftrunc" || vi.op == "fpext64")) {
        auto a = atoms.find(AKey(vi.op, vi.args)); // (x must be that result, up to its sign)
        BV y = a == atoms.end() ? BV() : a->second, z = x;
        if (!y.empty()) { y.back() = F; z.back() = F; }
        if (y == z) for (int q : vi.args) r = M.Or(r, surelyNan(q, depth + 1, memo));
    }
    return memo[id] = r;
}
static B theory(B d)
{
    if (d == F || optFcmpExact || imprecise) return d;
    auto mm = theoryMemo.find(d);
    if (mm != theoryMemo.end()) return mm->second;
    B d0 = d;
    try {
        std::set<uint64_t> doneNan; map<int, set<uint64_t>> doneBase; map<int, B> memo;
        for (int round = 0; round < 6 && d != F; ++round) {
            struct A { B v; B sign; double c; bool eq, swap; };
            struct G { BV mag; vector<A> at; set<double> pts; set<uint64_t> keys; B nan = F; bool haveNan = false; };
            map<int, G> gs;
            bool more = false;
            vector<uint64_t> supp = suppOf(d);
            for (uint64_t k : supp) {
                VarInfo vi = varOf(k);
                B v = M.mk(k, F, T);
                if (vi.op == "isnan") {
                    if (doneNan.insert(k).second) { B n = surelyNan(vi.args[0], 0, memo); n = M.And(n, v ^ 1); if (n != F && n != (v ^ 1)) { d = M.And(d, n ^ 1); more = true; } }
                    auto &g = gs[vi.args[0]]; g.nan = v; g.haveNan = true; g.mag = *internVec[vi.args[0]]; g.keys.insert(k);
                } else if (vi.op == "feq" || vi.op == "flt") {
                    BV x = *internVec[vi.args[0]], y = *internVec[vi.args[1]];
                    bool cx = isConst(x);
                    if (cx == isConst(y)) continue;
                    if (cx) std::swap(x, y);
                    double c = y.size() == 32 ? asF(y) : asD(y);
                    if (c != c) continue;
                    auto e = fpextSrc.find(intern(x));
                    if (e != fpextSrc.end()) x = e->second;
                    B s = x.back(); x.back() = F;
                    auto &g = gs[intern(x)]; g.mag = x;
                    g.at.push_back({v, s, c, vi.op == "feq", cx}); g.keys.insert(k);
                    g.pts.insert(std::fabs(c));
                }
            }
            for (auto &gi : gs) {
                G &g = gi.second;
                if (g.at.empty() || d == F) continue;
                if (doneBase[gi.first] == g.keys) continue;
                doneBase[gi.first] = g.keys;
                g.pts.insert(0.0); g.pts.insert(INFINITY);
                vector<double> p(g.pts.begin(), g.pts.end());
                bool sgl = g.mag.size() == 32;
                B nan = nanB(g.mag);
                B ax = nan; // (comparison atoms mean nothing for NaN: every use is guarded)
                for (size_t i = 0; i < 2 * p.size() - 1; ++i) {
                    double pt = p[i / 2];
                    if (sgl && i % 2 == 0 && (double)(float)pt != pt) continue;
                    if (i % 2 == 1) { // an interval without values of the type is no case
                        double hi = p[i / 2 + 1];
                        double nx = sgl ? (double)std::nextafterf((float)pt > pt ? std::nextafterf((float)pt, 0.f) : (float)pt, INFINITY) : std::nextafter(pt, INFINITY);
                        if (!(nx < hi)) continue;
                    }
                    B r = nan ^ 1;
                    for (auto &a : g.at) {
                        int j = std::find(p.begin(), p.end(), std::fabs(a.c)) - p.begin();
                        int ci = a.c < 0 ? -2 * j : 2 * j, m = (int)i;
                        auto rel = [&](int mv) -> B { return a.eq ? mv == ci : a.swap ? ci < mv : mv < ci; };
                        r = M.And(r, M.Xor(a.v, M.ite(a.sign, rel(-m), rel(m))) ^ 1);
                    }
                    ax = M.Or(ax, r);
                }
                d = M.And(d, ax);
                more = true;
            }
            if (!more) break;
        }
    } catch (Limit &) { return theoryMemo[d0] = d0; }
    return theoryMemo[d0] = d;
}
struct LogRel { map<pair<string, int>, B> total; map<pair<pair<string, int>, pair<string, int>>, B> after; map<pair<string, int>, string> loc; };
static LogRel normLog(const vector<LogE> &log, bool unordered)
{
    LogRel r;
    struct A { pair<string, int> id; B g; };
    vector<vector<A>> seq;
    for (auto &e : log) {
        B g = e.g;
        if (care(g) == F) continue;
        vector<A> alts;
        for (auto &x : splitOff(e.payload, g, false)) {
            pair<string, int> id(e.tag, intern(x.second));
            alts.push_back({id, x.first});
            r.loc[id] = e.loc;
        }
        seq.push_back(alts);
    }
    for (size_t i = 0; i < seq.size(); ++i)
        for (auto &a : seq[i]) {
            auto &t = r.total[a.id];
            // a repeated identical event is kept distinguishable
            if (unordered) {} else if (M.And(t, a.g) != F) { auto id2 = a.id; id2.first += "'"; auto &u = r.total[id2]; u = M.Or(u, M.And(t, a.g)); }
            t = M.Or(t, a.g);
            for (size_t j = i + 1; j < seq.size(); ++j)
                for (auto &b : seq[j]) {
                    B both = M.And(a.g, b.g);
                    if (both == F) continue;
                    auto &q = r.after[{a.id, b.id}];
                    q = M.Or(q, both);
                }
        }
    return r;
}
struct Diff { string what; string impl, spec, wit, loc; };

static string curJob;
static json::Object runJob1(const json::Object &job, bool fast)
{
    json::Object out;
    string name = job.getString("name")->str();
    curJob = name;
    out["name"] = name;
    auto t0 = std::chrono::steady_clock::now();
    // reset
    M.reset();
    undefBit = 0;
    internMap.clear(); internVec.clear(); vars.clear(); atoms.clear(); pushMemo.clear();
    for (auto &x : acSets) x.clear();
    itofSrc.clear(); fdivSrc.clear(); floorSrc.clear(); fpextSrc.clear(); nanSrc.clear(); nanSrc2.clear(); theoryMemo.clear(); initBytes.clear(); regionBases.clear(); domElem.clear(); baseAddrs.clear(); versionIds.clear();
    imprecise = false;
    curLoc.clear();
    optAC = optFcmpExact = optLaneMajor = optOrder = optFbits = optGinit = false; optFast = fast;
    ordCons = T; ordNode.clear(); ordPred.clear(); ordBits.clear(); ordThr.clear(); ordLeaf.clear(); ordCanonMemo.clear();
    bool unordered = false, strictReads = false, noTouch = false, throwOk = false;
    if (auto *opts = job.getArray("opts"))
        for (auto &o : *opts) {
            string s = o.getAsString()->str();
            if (s == "ac") optAC = true;
            if (s == "fcmp_exact") optFcmpExact = true;
            if (s == "lanemajor") optLaneMajor = true;
            if (s == "order") optOrder = true;
            if (s == "fbits") optFbits = optFcmpExact = true;
            if (s == "unordered") unordered = true;
            if (s == "ginit") optGinit = true;
            if (s == "reads") strictReads = true;
            if (s == "notouch") noTouch = true;
            if (s == "throwok") throwOk = true;
        }
    Function *fi = defFuncs.count(job.getString("impl")->str()) ? defFuncs[job.getString("impl")->str()] : nullptr;
    Function *fs = defFuncs.count(job.getString("spec")->str()) ? defFuncs[job.getString("spec")->str()] : nullptr;
    if (!fi || !fs) { out["status"] = "missing"; out["msg"] = string(!fi ? "impl" : "spec") + " function not found"; return out; }
    vector<Diff> diffs;
    string phase = "setup";
    try {
        State st[2];
        vector<B> assumptions;
        gAssume = &assumptions; careMemo.clear(); suppMemo.clear();
        struct GA { ~GA() { gAssume = nullptr; } } ga_;
        size_t nAssume[2] = {0, 0};
        vector<Val> args[2];
        BV rets[2];
        size_t nargs = fs->arg_size();
        if (fi->arg_size() != nargs) throw Unsupported("signature mismatch");
        vector<ObjOpts> po(nargs);
        auto *ja = job.getArray("args");
        for (int run = 0; run < 2; ++run) { // 0 spec, 1 impl
            S = &st[run];
            S->impl = run == 1;
            phase = run ? "impl" : "spec";
            for (size_t i = 0; i < nargs; ++i) {
                Type *t = fs->getArg(i)->getType();
                const json::Object *jo = ja && i < ja->size() ? (*ja)[i].getAsObject() : nullptr;
                ObjOpts o;
                o.name = jo && jo->getString("name") ? jo->getString("name")->str() : "arg" + std::to_string(i);
                if (jo) {
                    if (auto v = jo->getInteger("size")) o.size = *v;
                    if (auto v = jo->getInteger("neg")) o.neg = *v;
                    if (auto v = jo->getInteger("elem")) o.elem = *v;
                    o.align = o.elem;
                    if (auto v = jo->getInteger("align")) o.align = *v;
                    if (auto v = jo->getBoolean("bool")) o.boolean = *v;
                    if (auto v = jo->getBoolean("free")) o.anyread = *v;
                    if (auto v = jo->getBoolean("regions")) o.regions = *v;
                    if (auto v = jo->getBoolean("scratch")) o.scratch = *v;
                    if (auto v = jo->getInteger("lim")) o.lim = *v;
                    if (auto v = jo->getInteger("cls")) o.cls = *v;
                    if (auto v = jo->getInteger("fix0")) o.fix0 = (uint64_t)*v;
                    if (auto v = jo->getInteger("fix1")) o.fix1 = (uint64_t)*v;
                    if (auto v = jo->getInteger("floor")) o.floorBits = *v;
                    if (auto v = jo->getString("same")) o.same = v->str();
                    if (auto v = jo->getInteger("delta")) o.delta = *v;
                    if (auto *d = jo->getArray("dom")) for (auto &x : *d) o.dom.push_back((uint64_t)*x.getAsInteger());
                }
                if (t->isPointerTy()) {
                    if (!o.same.empty()) {
                        int id = -1;
                        for (size_t k = 0; k < S->objs.size(); ++k) if (S->objs[k].o.name == o.same) id = k;
                        if (id < 0) throw Unsupported("bad alias");
                        args[run].push_back(mkPtr(id, o.delta));
                    } else {
                        Obj ob; ob.kind = Obj::PARAM; ob.o = o;
                        args[run].push_back(mkPtr(newObj(ob)));
                    }
                } else {
                    ObjOpts o2 = o;
                    int w = tyBits(t);
                    o2.elem = (w + 7) / 8;
                    BV b;
                    if (jo && jo->getInteger("const")) b = constBV((uint64_t)*jo->getInteger("const"), w);
                    else { for (int k = 0; k < o2.elem; ++k) { auto x = initByte(o2, k); b.insert(b.end(), x.begin(), x.end()); } b.resize(w); }
                    args[run].push_back(Val(b));
                }
            }
            nAssume[run] = gAssume->size();
            Val r = execFn(run ? fi : fs, args[run], T);
            if (r.k != Val::NONE) rets[run] = toBits(r);
        }
        phase = "compare";
        if (assumptions.size() != nAssume[1]) throw Unsupported("assumption in impl");
        if (throwOk) { // leaving the library function by an exception is acceptable: nothing else is observed then
            vector<LogE> keep;
            for (auto &e : st[1].events) if (has(e.tag, "__cxa_throw")) addAssume(e.g ^ 1); else keep.push_back(e);
            st[1].events = keep;
        }
        for (B c : assumptions) if (c == F) throw Unsupported("contradictory assumption");
        auto cmp = [&](const BV &x, const BV &y) -> B {
            if (optOrder && x != y && (x.size() == 16 || x.size() == 32 || x.size() == 64)) return care(ordDiff(x, y));
            for (size_t i = 0; i < x.size(); ++i) { B q = theory(care(M.Xor(x[i], y[i]))); if (q != F) return q; }
            return F;
        };
        int observed = 0;
        for (auto &is : st[0].issues) if (care(is.g) != F) throw Unsupported("reference function: " + is.kind + " " + is.text);
        for (auto &is : st[1].issues) {
            B g = care(is.g);
            if (g != F && diffs.size() < 20) diffs.push_back({is.kind + ": " + is.text, "", "", witness(g), is.loc});
        }
        if (!rets[0].empty()) {
            ++observed;
            B d = cmp(rets[1], rets[0]);
            if (d != F) diffs.push_back({"returned value", renderBV(rets[1]), renderBV(rets[0]), witness(d), ""});
        }
        for (size_t oi = 0; oi < st[0].objs.size(); ++oi) {
            Obj &so = st[0].objs[oi];
            if (so.kind != Obj::PARAM && so.kind != Obj::GLOBAL) continue;
            if (so.kind == Obj::GLOBAL && so.gv->isConstant()) continue;
            if (so.o.scratch) continue; // contents are private to the library
            Obj *io = nullptr;
            for (auto &x : st[1].objs) if (x.o.name == so.o.name && x.kind == so.kind) io = &x;
            if (!io) { if (so.wt.empty()) continue; throw Unsupported("global written by the reference only"); }
            set<int64_t> offs;
            for (auto &x : so.bytes) offs.insert(x.first);
            for (auto &x : io->bytes) offs.insert(x.first);
            set<int64_t> els;
            int64_t e = so.o.elem;
            for (auto x : offs) els.insert((x >= 0 ? x / e : -((-x + e - 1) / e)) * e);
            for (int64_t b : els) {
                BV x, y;
                for (int k = 0; k < e; ++k) {
                    S = &st[1]; auto p = readByte(*io, b + k);
                    S = &st[0]; auto q = readByte(so, b + k);
                    x.insert(x.end(), p.begin(), p.end());
                    y.insert(y.end(), q.begin(), q.end());
                }
                ++observed;
                B d = cmp(x, y);
                if (d != F && diffs.size() < 20) diffs.push_back({so.o.name + "[" + (b < (1 << 19) ? std::to_string(b / e) : "byte " + regionName(b)) + "]", renderBV(x), renderBV(y), witness(d), io->wloc.count(b) ? io->wloc[b] : ""});
            }
            if (!noTouch) for (auto &x : io->wt) {
                B s = so.wt.count(x.first) ? so.wt[x.first] : F;
                B extra = care(M.And(x.second, s ^ 1));
                ++observed;
                if (extra != F && diffs.size() < 20 && inBounds(*io, x.first, 1)) diffs.push_back({"write to " + so.o.name + " byte " + regionName(x.first) + " that must not be written", "", "", witness(extra), io->wloc[x.first]});
            }
            if (strictReads && !so.o.anyread) for (auto &x : io->rt) {
                B s = so.rt.count(x.first) ? so.rt[x.first] : F;
                if (so.wt.count(x.first)) s = M.Or(s, so.wt[x.first]);
                B extra = care(M.And(x.second, s ^ 1));
                ++observed;
                if (extra != F && diffs.size() < 20) diffs.push_back({"read of " + so.o.name + " byte " + regionName(x.first) + " that must not be read", "", "", witness(extra), io->rloc[x.first]});
            }
            // symbolic accesses
            S = &st[0];
            auto accMap = [&](Obj &ob, bool wr, map<int, pair<B, string>> &m) {
                for (auto &a : ob.acc) {
                    if (a.write != wr) continue;
                    for (auto &alt : splitOff(a.off, a.g, false))
                        for (int k = 0; k < a.size; ++k) {
                            int id = intern(addBV(alt.second, constBV(k, 64)));
                            auto it = m.find(id);
                            if (it == m.end()) m[id] = {alt.first, a.loc}; else it->second.first = M.Or(it->second.first, alt.first);
                        }
                }
            };
            for (int wr = 0; wr < 2; ++wr) {
                map<int, pair<B, string>> ms, mi;
                accMap(so, wr, ms);
                accMap(*io, wr, mi);
                for (auto &x : mi) {
                    B s = ms.count(x.first) ? ms[x.first].first : F;
                    B extra = care(M.And(x.second.first, s ^ 1));
                    ++observed;
                    if (extra != F && diffs.size() < 20) diffs.push_back({string(wr ? "write to " : "read of ") + so.o.name + " at a byte offset that must not be accessed: " + renderBV(*internVec[x.first]), "", "", witness(extra), x.second.second});
                }
            }
        }
        // logs: symbolic writes per object and external calls
        auto cmpLog = [&](const vector<LogE> &li, const vector<LogE> &ls, bool ordered, const string &what) {
            if (li.empty() && ls.empty()) return;
            S = &st[0];
            LogRel a = normLog(li, !ordered), b = normLog(ls, !ordered);
            for (auto &x : a.total) {
                ++observed;
                B s = b.total.count(x.first) ? b.total[x.first] : F;
                B d = care(M.Xor(x.second, s));
                if (d != F && diffs.size() < 20) diffs.push_back({what + " " + x.first.first + " differs", renderBV(*internVec[x.first.second]), s == F ? "never" : "under a different condition", witness(d), a.loc[x.first]});
            }
            for (auto &x : b.total) if (!a.total.count(x.first) && care(x.second) != F && diffs.size() < 20) diffs.push_back({what + " " + x.first.first + " missing", "never", renderBV(*internVec[x.first.second]), witness(x.second), b.loc[x.first]});
            if (ordered && diffs.empty()) {
                for (auto &x : a.after) { B s = b.after.count(x.first) ? b.after[x.first] : F; B d = care(M.Xor(x.second, s)); if (d != F) { diffs.push_back({what + " order differs", x.first.first.first + " " + renderBV(*internVec[x.first.first.second]) + " before " + renderBV(*internVec[x.first.second.second]), "", witness(d), a.loc[x.first.first]}); break; } }
                for (auto &x : b.after) if (!a.after.count(x.first) && care(x.second) != F) { diffs.push_back({what + " order differs", "", x.first.first.first + " " + renderBV(*internVec[x.first.first.second]) + " before " + renderBV(*internVec[x.first.second.second]), witness(x.second), b.loc[x.first.first]}); break; }
            }
        };
        for (auto &so : st[0].objs) {
            if (so.kind != Obj::PARAM) continue;
            for (auto &io : st[1].objs) if (io.o.name == so.o.name && io.kind == Obj::PARAM) cmpLog(io.log, so.log, !unordered, "scattered");
        }
        cmpLog(st[1].events, st[0].events, !unordered, "event");
        // the reference must observe something
        out["observed"] = observed;
        out["atoms"] = (int64_t)atoms.size();
        out["nodes"] = (int64_t)M.n.size();
        out["steps"] = (int64_t)(st[0].steps + st[1].steps);
        json::Array locs;
        int nl = 0;
        for (auto &l : st[1].locs) if (nl++ < 12) locs.push_back(l);
        out["locs"] = std::move(locs);
        json::Array cal;
        for (auto &l : st[1].callees) cal.push_back(demangle(l));
        if (!cal.empty()) out["callees"] = std::move(cal);
        if (diffs.empty()) out["status"] = "ok";
        else out["status"] = imprecise ? "undecided" : "diff";
        if (imprecise) out["msg"] = "push-through budget exhausted";
    } catch (Unsupported &e) {
        out["status"] = "unsupported";
        out["msg"] = phase + ": " + e.what() + " @ " + curLoc;
    } catch (Limit &e) {
        out["status"] = "limit";
        out["msg"] = phase + ": " + e.what() + " @ " + curLoc;
    } catch (std::exception &e) {
        out["status"] = "unsupported";
        out["msg"] = phase + ": exception " + e.what() + " @ " + curLoc;
    }
    json::Array da;
    for (auto &d : diffs) da.push_back(json::Object{{"what", d.what}, {"impl", d.impl}, {"spec", d.spec}, {"when", d.wit}, {"loc", d.loc}});
    if (!da.empty()) out["diffs"] = std::move(da);
    out["ms"] = (int64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    return out;
}

static json::Object runJob(const json::Object &job)
{
    bool ac = false;
    if (auto *opts = job.getArray("opts")) for (auto &o : *opts) if (o.getAsString()->str() == "ac") ac = true;
    if (ac) { json::Object r = runJob1(job, true); if (r.getString("status")->str() == "ok") return r; }
    return runJob1(job, false);
}

int main(int argc, char **argv)
{
    if (argc < 4) { errs() << "usage: lanes jobs.json out.json main.bc [lib.bc...] [-only name] [-dump]\n"; return 2; }
    LLVMContext ctx;
    vector<std::unique_ptr<Module>> mods;
    string only;
    for (int i = 3; i < argc; ++i) {
        if (string(argv[i]) == "-only") { only = argv[++i]; continue; }
        SMDiagnostic err;
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("lanes", errs()); return 2; }
        mods.push_back(std::move(m));
    }
    DL = &mods[0]->getDataLayout();
    for (auto &m : mods) {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, "function(loop-simplify,lcssa)")) { errs() << "pass\n"; return 2; }
        MPM.run(*m, MAM);
        for (auto &f : *m) if (!f.isDeclaration() && (!defFuncs.count(f.getName().str()) || m == mods[0]) && !f.hasLocalLinkage()) defFuncs[f.getName().str()] = &f;
        for (auto &g : m->globals()) if (!g.isDeclaration() && !g.hasLocalLinkage() && !defGlobals.count(g.getName().str())) defGlobals[g.getName().str()] = &g;
    }
    if (const char *cov = getenv("LANES_COV")) { // development aid: source lines that the analysed code comes from
        set<string> lines;
        for (auto &m : mods) for (auto &f : *m) for (auto &bb : f) for (auto &I : bb)
            for (DILocation *d = I.getDebugLoc().get(); d; d = d->getInlinedAt()) lines.insert(d->getFilename().str() + ":" + std::to_string(d->getLine()));
        std::error_code e2;
        raw_fd_ostream co(string(cov) + "/" + std::to_string(getpid()) + ".txt", e2);
        for (auto &l : lines) co << l << "\n";
    }
    auto buf = MemoryBuffer::getFile(argv[1]);
    if (!buf) { errs() << "jobs?\n"; return 2; }
    auto js = json::parse((*buf)->getBuffer());
    if (!js) { errs() << "bad json\n"; return 2; }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    for (auto &j : *js->getAsArray()) {
        auto *o = j.getAsObject();
        if (!only.empty() && o->getString("name")->str() != only) continue;
        json::Object r = runJob(*o);
        os << json::Value(std::move(r)) << "\n";
        os.flush();
    }
    return 0;
}
