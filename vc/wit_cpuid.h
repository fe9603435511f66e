// Witness header for the processor identification (C23): the architectural meaning, straight from CPUID.
#pragma once
#include <Vc/global.h>
#include <Vc/cpuid.h>
#include <Vc/support.h>
extern "C" void __vc_assume(bool);
typedef unsigned int uint; typedef unsigned short ushort; typedef unsigned char uchar;
struct Leaf { uint a, b, c, d; };
static inline Leaf leaf(int n) { Leaf r; __asm__("cpuid" : "=a"(r.a), "=b"(r.b), "=c"(r.c), "=d"(r.d) : "a"(n)); return r; }
static inline Leaf leaf(int n, int s) { Leaf r; __asm__("cpuid" : "=a"(r.a), "=b"(r.b), "=c"(r.c), "=d"(r.d) : "a"(n), "c"(s)); return r; }
static inline uint xcr0() { uint e; asm("xgetbv" : "=a"(e) : "c"(0) : "edx"); return e; }
static inline bool ymmState() { return (xcr0() & 6) == 6; }
static inline bool amd() { return leaf(0).c == 0x444D4163; }      // "cAMD"
static inline bool intel() { return leaf(0).c == 0x6C65746E; }    // "ntel"
static inline uint bits(uint x, int hi, int lo) { return (x >> lo) & (hi - lo == 31 ? ~0u : (1u << (hi - lo + 1)) - 1); }
static inline uint family() { uint a = leaf(1).a, f = bits(a, 11, 8); return f == 15 ? f + bits(a, 27, 20) : f; }
static inline uint model() { uint a = leaf(1).a, f = bits(a, 11, 8), m = bits(a, 7, 4); return f == 15 || (f == 6 && !amd()) ? m + (bits(a, 19, 16) << 4) : m; }
// what follows from the definition of the instruction sets: each level includes the previous ones
static inline bool L(int k) {
    Leaf l = leaf(1);
    switch (k) {
    case 0: return true;
    case 1: return bits(l.d, 26, 26);
    case 2: return bits(l.c, 0, 0);
    case 3: return bits(l.c, 9, 9);
    case 4: return bits(l.c, 19, 19);
    case 5: return bits(l.c, 20, 20);
    case 6: return bits(l.c, 28, 28);
    default: return bits(leaf(7, 0).b, 5, 5);
    }
}
static inline void cumulative() { for (int k = 1; k < 8; ++k) __vc_assume(!L(k) || L(k - 1)); }
static inline bool osYmm() { return bits(leaf(1).c, 27, 27) && ymmState(); }
static inline bool supported(int k) { return L(k) && (k < 6 || osYmm()); }
static inline bool mic() { return intel() && family() == 0xB && model() == 1; }
// scenarios: which way CpuId::init() takes behind the feature words
static inline void knc() { uint a = leaf(1).a; __vc_assume(bits(a, 11, 8) != 0xB || bits(a, 27, 16) == 0); }
static inline void scenAmd() { __vc_assume(amd()); knc(); __vc_assume(bits(leaf(1).a, 27, 20) <= 0xf0); }
static inline void noLeaf2() { __vc_assume(!amd()); knc(); __vc_assume(bits(leaf(1).a, 27, 20) <= 0xf0); }
static inline void scenLeaf4(int n) {   // n cache levels described by leaf 4
    noLeaf2();
    Leaf l = leaf(2); __vc_assume(l.a == 0); __vc_assume(l.b == 0); __vc_assume(l.c == 0); __vc_assume(l.d == 0);
    for (int i = 0; i < n; ++i) { __vc_assume(bits(leaf(4, i).a, 4, 2) == 0); __vc_assume(bits(leaf(4, i).a, 1, 0) != 0); }
    __vc_assume(bits(leaf(4, n).a, 4, 0) == 0);
}
static inline void scenLeaf2() {  // one descriptor byte
    noLeaf2();
    Leaf l = leaf(2); __vc_assume((l.a & 0xffff00ffu) == 1); __vc_assume(l.b == 0); __vc_assume(l.c == 0); __vc_assume(l.d == 0);
}
static inline uint descriptor() { return bits(leaf(2).a, 15, 8); }
struct Cache { uint l1, l2, l3, a1, a2, a3; ushort z1, z2, z3, pf; };
// the descriptor table of the Intel software developer's manual (leaf 2), data and unified caches
static inline Cache intelDescriptor(uint d) {
    struct E { uchar d; uchar lvl; ushort kb512; uint size; uchar ways; uchar line; };
    Cache c = {0, 0, 0, 0, 0, 0, 0, 0, 0, 32};
    const uint K = 1024, M = 1024 * K;
#define D(code, lvl, size, ways, line) case code: c.l##lvl = size; c.a##lvl = ways; c.z##lvl = line; break;
    switch (d) {
    D(0x0A,1,8*K,2,32) D(0x0C,1,16*K,4,32) D(0x0D,1,16*K,4,64) D(0x0E,1,24*K,6,64) D(0x2C,1,32*K,8,64)
    D(0x60,1,16*K,8,64) D(0x66,1,8*K,4,64) D(0x67,1,16*K,4,64) D(0x68,1,32*K,4,64)
    D(0x21,2,256*K,8,64) D(0x41,2,128*K,4,32) D(0x42,2,256*K,4,32) D(0x43,2,512*K,4,32) D(0x44,2,M,4,32) D(0x45,2,2*M,4,32)
    D(0x48,2,3*M,12,64) D(0x4E,2,6*M,24,64) D(0x78,2,M,4,64) D(0x79,2,128*K,8,64) D(0x7A,2,256*K,8,64) D(0x7B,2,512*K,8,64)
    D(0x7C,2,M,8,64) D(0x7D,2,2*M,8,64) D(0x7F,2,512*K,2,64) D(0x80,2,512*K,8,64) D(0x82,2,256*K,8,32) D(0x83,2,512*K,8,32)
    D(0x84,2,M,8,32) D(0x85,2,2*M,8,32) D(0x86,2,512*K,4,64) D(0x87,2,M,8,64)
    D(0x22,3,512*K,4,64) D(0x23,3,M,8,64) D(0x25,3,2*M,8,64) D(0x29,3,4*M,8,64) D(0x46,3,4*M,4,64) D(0x47,3,8*M,8,64)
    D(0x4A,3,6*M,12,64) D(0x4B,3,8*M,16,64) D(0x4C,3,12*M,12,64) D(0x4D,3,16*M,16,64)
    D(0xD0,3,512*K,4,64) D(0xD1,3,M,4,64) D(0xD2,3,2*M,4,64) D(0xD6,3,M,8,64) D(0xD7,3,2*M,8,64) D(0xD8,3,4*M,8,64)
    D(0xDC,3,1536*K,12,64) D(0xDD,3,3*M,12,64) D(0xDE,3,6*M,12,64) D(0xE2,3,2*M,16,64) D(0xE3,3,4*M,16,64) D(0xE4,3,8*M,16,64)
    D(0xEA,3,12*M,24,64) D(0xEB,3,18*M,24,64) D(0xEC,3,24*M,24,64)
    case 0x49: if (family() == 0xf && model() == 6) { c.l3 = 4*M; c.a3 = 16; c.z3 = 64; } else { c.l2 = 4*M; c.a2 = 16; c.z2 = 64; } break;
    case 0xF0: c.pf = 64; break;
    case 0xF1: c.pf = 128; break;
    }
#undef D
    return c;
}
static inline uint amdWays(uint x) { switch (x) { case 0: return 0; case 1: return 1; case 2: return 2; case 4: return 4; case 6: return 8; case 8: return 16; case 10: return 32; case 11: return 48; case 12: return 64; case 13: return 96; case 14: return 128; case 15: return 0xff; } return ~0u; }
