// Reduced ordered BDDs with complement edges.  The canonical form used for every bit of a value.
#pragma once
#include <cstdint>
#include <vector>
#include <stdexcept>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
typedef uint32_t B; // edge: node<<1 | complement
static const B F = 0, T = 1;
struct Limit : std::runtime_error { using std::runtime_error::runtime_error; };

struct Bdd {
    struct Node { uint64_t key; B lo, hi; uint32_t next; };
    std::vector<Node> n;
    std::vector<uint32_t> bucket;
    struct CE { B f, g, h, r; };
    std::vector<CE> cache;
    size_t limit = 24000000;
    static const uint64_t TERM = ~0ull;
    Bdd() { reset(); }
    void reset()
    {
        if (n.capacity() > (1u << 20)) std::vector<Node>().swap(n);
        n.clear();
        n.push_back({TERM, 0, 0, 0});
        bucket.assign(1 << 14, 0);
        if (cache.size() != (1u << 16)) std::vector<CE>(1 << 16).swap(cache);
        std::fill(cache.begin(), cache.end(), CE{~0u, 0, 0, 0});
    }
    static size_t mix(uint64_t a)
    {
        a ^= a >> 33; a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull;
        return a ^ (a >> 33);
    }
    static size_t h3(uint64_t k, B lo, B hi) { return mix(k * 0x9e3779b97f4a7c15ull + ((uint64_t)lo << 32 | hi)); }
    B mk(uint64_t key, B lo, B hi)
    {
        if (lo == hi) return lo;
        if (lo & 1) return mk(key, lo ^ 1, hi ^ 1) ^ 1;
        size_t h = h3(key, lo, hi) & (bucket.size() - 1);
        for (uint32_t i = bucket[h]; i; i = n[i].next)
            if (n[i].key == key && n[i].lo == lo && n[i].hi == hi) return i << 1;
        if (n.size() >= limit) throw Limit("bdd node limit");
        n.push_back({key, lo, hi, bucket[h]});
        uint32_t id = n.size() - 1;
        bucket[h] = id;
        if (n.size() > bucket.size() * 2) grow();
        return id << 1;
    }
    void grow()
    {
        bucket.assign(bucket.size() * 4, 0);
        for (uint32_t i = 1; i < n.size(); ++i) {
            size_t h = h3(n[i].key, n[i].lo, n[i].hi) & (bucket.size() - 1);
            n[i].next = bucket[h];
            bucket[h] = i;
        }
        if (cache.size() < (1u << 22) && n.size() > cache.size()) {
            std::vector<CE> o;
            o.swap(cache);
            cache.assign(o.size() * 4, CE{~0u, 0, 0, 0});
        }
    }
    uint64_t key(B e) const { return n[e >> 1].key; }
    B lo(B e) const { return n[e >> 1].lo ^ (e & 1); }
    B hi(B e) const { return n[e >> 1].hi ^ (e & 1); }
    B cof(B e, uint64_t k, bool v) const { return key(e) == k ? (v ? hi(e) : lo(e)) : e; }
    B ite(B f, B g, B h)
    {
        if (f == T) return g;
        if (f == F) return h;
        if (g == f) g = T; else if (g == (f ^ 1)) g = F;
        if (h == f) h = F; else if (h == (f ^ 1)) h = T;
        if (g == h) return g;
        if (g == T && h == F) return f;
        if (g == F && h == T) return f ^ 1;
        if (f & 1) { f ^= 1; std::swap(g, h); }
        // canonicalise and/or argument order
        if (h == F && (g >> 1) < (f >> 1)) { if (!(g & 1)) std::swap(f, g); }
        B c = 0;
        if (g & 1) { c = 1; g ^= 1; h ^= 1; }
        size_t hh = mix(((uint64_t)f << 40) ^ ((uint64_t)g << 20) ^ h ^ ((uint64_t)h << 50)) & (cache.size() - 1);
        {
            CE &e = cache[hh];
            if (e.f == f && e.g == g && e.h == h) return e.r ^ c;
        }
        uint64_t k = std::min(key(f), std::min(key(g), key(h)));
        B l = ite(cof(f, k, 0), cof(g, k, 0), cof(h, k, 0));
        B r = ite(cof(f, k, 1), cof(g, k, 1), cof(h, k, 1));
        B res = mk(k, l, r);
        hh = mix(((uint64_t)f << 40) ^ ((uint64_t)g << 20) ^ h ^ ((uint64_t)h << 50)) & (cache.size() - 1);
        cache[hh] = {f, g, h, res};
        return res ^ c;
    }
    B And(B a, B b) { if (a > b) std::swap(a, b); return ite(a, b, F); }
    B Or(B a, B b) { return And(a ^ 1, b ^ 1) ^ 1; }
    B Xor(B a, B b) { return ite(a, b ^ 1, b); }
    // Coudert/Madre restrict: simplify f with care set c
    std::unordered_map<uint64_t, B> rc;
    B restr(B f, B c)
    {
        if (c == T || c == F || f <= 1) return f;
        if (f == c) return T;
        if (f == (c ^ 1)) return F;
        rc.clear();
        return restr_(f, c);
    }
    B restr_(B f, B c)
    {
        if (c == T || f <= 1) return f;
        uint64_t hk = (uint64_t)f << 32 | c;
        auto it = rc.find(hk);
        if (it != rc.end()) return it->second;
        uint64_t kf = key(f), kc = key(c);
        B r;
        if (kc < kf) {
            B l = lo(c), h = hi(c);
            if (l == F) r = restr_(f, h);
            else if (h == F) r = restr_(f, l);
            else r = restr_(f, Or(l, h));
        } else {
            B cl = cof(c, kf, 0), ch = cof(c, kf, 1);
            if (cl == F) r = restr_(hi(f), ch);
            else if (ch == F) r = restr_(lo(f), cl);
            else r = mk(kf, restr_(lo(f), cl), restr_(hi(f), ch));
        }
        rc[hk] = r;
        return r;
    }
    // generalised cofactor: canonical for functions that agree on c
    B constrain(B f, B c)
    {
        if (c == T || c == F || f <= 1) return f;
        rc.clear();
        return con_(f, c);
    }
    B con_(B f, B c)
    {
        if (c == T || f <= 1) return f;
        if (f == c) return T;
        if (f == (c ^ 1)) return F;
        uint64_t hk = (uint64_t)f << 32 | c;
        auto it = rc.find(hk);
        if (it != rc.end()) return it->second;
        uint64_t k = std::min(key(f), key(c));
        B c0 = cof(c, k, 0), c1 = cof(c, k, 1), r;
        if (c1 == F) r = con_(cof(f, k, 0), c0);
        else if (c0 == F) r = con_(cof(f, k, 1), c1);
        else r = ite(mk(k, F, T), con_(cof(f, k, 1), c1), con_(cof(f, k, 0), c0));
        rc[hk] = r;
        return r;
    }
    void support(B e, std::unordered_set<uint32_t> &seen, std::vector<uint64_t> &out) const
    {
        uint32_t i = e >> 1;
        if (!i || !seen.insert(i).second) return;
        out.push_back(n[i].key);
        support(n[i].lo, seen, out);
        support(n[i].hi, seen, out);
    }
};
