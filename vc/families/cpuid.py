"""C23 processor identification: every query against the architectural CPUID bit, for all register contents."""
from core import *
HEADER = 'wit_cpuid.h'
LIBS = ('cpuid.cpp', 'support_x86.cpp')
FEATURES = {  # query: (leaf, register, bit)
 'hasSse3': ('1', 'c', 0), 'hasPclmulqdq': ('1', 'c', 1), 'hasMonitor': ('1', 'c', 3), 'hasVmx': ('1', 'c', 5), 'hasSmx': ('1', 'c', 6), 'hasEist': ('1', 'c', 7),
 'hasTm2': ('1', 'c', 8), 'hasSsse3': ('1', 'c', 9), 'hasFma': ('1', 'c', 12), 'hasCmpXchg16b': ('1', 'c', 13), 'hasPdcm': ('1', 'c', 15), 'hasDca': ('1', 'c', 18),
 'hasSse41': ('1', 'c', 19), 'hasSse42': ('1', 'c', 20), 'hasMovbe': ('1', 'c', 22), 'hasPopcnt': ('1', 'c', 23), 'hasAes': ('1', 'c', 25), 'hasOsxsave': ('1', 'c', 27),
 'hasAvx': ('1', 'c', 28), 'hasF16c': ('1', 'c', 29), 'hasRdrand': ('1', 'c', 30),
 'hasBmi1': ('7,0', 'b', 3), 'hasHle': ('7,0', 'b', 4), 'hasAvx2': ('7,0', 'b', 5), 'hasBmi2': ('7,0', 'b', 8), 'hasRtm': ('7,0', 'b', 11),
 'hasAvx512f': ('7,0', 'b', 16), 'hasAvx512dq': ('7,0', 'b', 17), 'hasAvx512ifma': ('7,0', 'b', 21), 'hasAvx512pf': ('7,0', 'b', 26), 'hasAvx512er': ('7,0', 'b', 27),
 'hasAvx512cd': ('7,0', 'b', 28), 'hasAvx512bw': ('7,0', 'b', 30), 'hasAvx512vl': ('7,0', 'b', 31), 'hasAvx512vbmi': ('7,0', 'c', 1),
 'hasFpu': ('1', 'd', 0), 'hasVme': ('1', 'd', 1), 'hasDe': ('1', 'd', 2), 'hasPse': ('1', 'd', 3), 'hasTsc': ('1', 'd', 4), 'hasMsr': ('1', 'd', 5), 'hasPae': ('1', 'd', 6),
 'hasCx8': ('1', 'd', 8), 'hasMtrr': ('1', 'd', 12), 'hasCmov': ('1', 'd', 15), 'hasClfsh': ('1', 'd', 19), 'hasAcpi': ('1', 'd', 22), 'hasMmx': ('1', 'd', 23),
 'hasSse': ('1', 'd', 25), 'hasSse2': ('1', 'd', 26), 'hasHtt': ('1', 'd', 28),
 'hasSse4a': ('0x80000001', 'c', 6), 'hasMisAlignSse': ('0x80000001', 'c', 7), 'hasAmdPrefetch': ('0x80000001', 'c', 8), 'hasXop': ('0x80000001', 'c', 11), 'hasFma4': ('0x80000001', 'c', 16),
 'hasRdtscp': ('0x80000001', 'd', 27), 'has3DNow': ('0x80000001', 'd', 31), 'has3DNowExt': ('0x80000001', 'd', 30),
}
SCEN = {'amd': 'scenAmd();', 'l4n0': 'scenLeaf4(0);', 'l4n2': 'scenLeaf4(2);', 'l2': 'scenLeaf2();__vc_assume(descriptor()==0x2c);'}
OPTS = ['ginit', 'ac']
LEVELS = ['ScalarImpl', 'SSE2Impl', 'SSE3Impl', 'SSSE3Impl', 'SSE41Impl', 'SSE42Impl', 'AVXImpl', 'AVX2Impl']
NEED = {  # configuration -> level and extra instruction sets a program built for it executes
 'scalar': (0, []), 'sse2': (1, []), 'sse3': (2, []), 'ssse3': (3, []), 'sse41': (4, []), 'sse42': (5, ['pop']), 'avx': (6, ['pop', 'vex']), 'avx2': (7, ['pop', 'vex', 'fma', 'bmi2'])}
EXTRA = {'pop': 'bits(leaf(1).c,23,23)', 'vex': '(L(6)&&osYmm())', 'fma': 'bits(leaf(1).c,12,12)', 'bmi2': 'bits(leaf(7,0).b,8,8)'}
def witnesses(tier):
    w = []
    cfg = 'sse2'
    one = lambda name, impl, spec, ret='unsigned', ps=(), **kw: mk(w, kw.pop('cfg', cfg), name, list(ps), impl, spec, opts=OPTS, ret=ret, **kw)
    for sc, code in SCEN.items():
        for q, (lf, reg, bit) in FEATURES.items():
            one('%s_%s' % (q, sc), 'Vc::CpuId::init(); return Vc::CpuId::%s();' % q, code + 'return bits(leaf(%s).%s,%d,%d);' % (lf, reg, bit, bit), what='CpuId::%s (%s)' % (q, sc))
        for q, e in (('isAmd', 'amd()'), ('isIntel', 'intel()'), ('processorFamily', 'family()'), ('processorModel', 'model()'), ('processorType', 'bits(leaf(1).a,13,12)'),
                     ('logicalProcessors', 'bits(leaf(1).b,23,16)'), ('cacheLineSize', 'bits(leaf(1).b,15,8)*8')):
            one('%s_%s' % (q, sc), 'Vc::CpuId::init(); return Vc::CpuId::%s();' % q, code + 'return %s;' % e, what='CpuId::%s (%s)' % (q, sc))
        # implementations
        for k, l in enumerate(LEVELS):
            one('sup_%s_%s' % (l, sc), 'return Vc::isImplementationSupported(Vc::%s);' % l, code + 'cumulative(); return supported(%d);' % k, what='isImplementationSupported(%s) (%s)' % (l, sc))
        one('sup_MICImpl_' + sc, 'return Vc::isImplementationSupported(Vc::MICImpl);', code + 'return mic();')
        one('sup_mask_' + sc, 'return Vc::isImplementationSupported(Vc::ImplementationMask);', code + 'return false;')
        one('sup_any_' + sc, 'return Vc::isImplementationSupported(Vc::Implementation(k));', code + 'cumulative(); return k<8?supported(k):k==8?mic():0;', ps=[CTL('k', 4)], what='isImplementationSupported for every identifier (%s)' % sc)
        one('best_' + sc, 'return Vc::bestImplementationSupported();', code + 'cumulative(); if(mic()) return 8; for(int k=7;k>0;--k) if(supported(k)) return k; return 0;', what='bestImplementationSupported (%s)' % sc)
        one('extra_' + sc, 'Vc::CpuId::init(); return Vc::extraInstructionsSupported();', code + 'return (bits(leaf(1).c,29,29)?0x1000:0)|(bits(leaf(0x80000001).c,16,16)?0x2000:0)|(bits(leaf(0x80000001).c,11,11)?0x4000:0)|(bits(leaf(1).c,23,23)?0x8000:0)|(bits(leaf(0x80000001).c,6,6)?0x10000:0)|(bits(leaf(1).c,12,12)?0x20000:0)|(L(6)&&osYmm()?0x40000:0)|(bits(leaf(7,0).b,8,8)?0x80000:0);', what='extraInstructionsSupported (%s)' % sc)
        for c, (lvl, ex) in NEED.items():
            one('cur_%s_%s' % (c, sc), 'return Vc::currentImplementationSupported();', code + 'cumulative(); return %s;' % '&&'.join(['supported(%d)' % lvl] + [EXTRA[e] for e in ex]), cfg=c, what='currentImplementationSupported in a %s build (%s)' % (c, sc))
    # a second init() must not change anything
    one('again', 'Vc::CpuId::init(); Vc::CpuId::init(); return Vc::CpuId::hasAvx2()|Vc::CpuId::processorModel()<<1|Vc::CpuId::processorFamily()<<9;', 'scenAmd(); return bits(leaf(7,0).b,5,5)|model()<<1|family()<<9;')
    # cache geometry
    A = 'scenAmd(); Leaf l5=leaf(0x80000005),l6=leaf(0x80000006);'
    for q, e in (('L1DataLineSize', 'bits(l5.c,7,0)'), ('L1Data', 'bits(l5.c,31,24)*1024'), ('L1Associativity', 'bits(l5.c,23,16)'), ('L1InstructionLineSize', 'bits(l5.d,7,0)'), ('L1Instruction', 'bits(l5.d,31,24)*1024'),
                 ('L2DataLineSize', 'bits(l6.c,7,0)'), ('L2Data', 'bits(l6.c,31,16)*1024'), ('L2Associativity', 'amdWays(bits(l6.c,15,12))'), ('L3DataLineSize', 'bits(l6.d,7,0)'), ('L3Data', 'bits(l6.d,31,18)*512*1024'),
                 ('L3Associativity', 'amdWays(bits(l6.d,15,12))'), ('prefetch', 'bits(leaf(1).b,15,8)*8')):
        one('cache_amd_' + q, 'Vc::CpuId::init(); return Vc::CpuId::%s();' % q, A + 'return %s;' % e, what='CpuId::%s on AMD' % q)
    for q, e in (('L1Data', 'l1'), ('L2Data', 'l2'), ('L3Data', 'l3'), ('L1DataLineSize', 'z1'), ('L2DataLineSize', 'z2'), ('L3DataLineSize', 'z3'), ('L1Associativity', 'a1'), ('L2Associativity', 'a2'), ('L3Associativity', 'a3'), ('prefetch', 'pf')):
        one('cache_desc_' + q, 'Vc::CpuId::init(); return Vc::CpuId::%s();' % q, 'scenLeaf2(); uint d=descriptor(); __vc_assume(d!=0xff); __vc_assume(d!=0x06); __vc_assume(d!=0x08); __vc_assume(d!=0x09); __vc_assume(d!=0x30); return intelDescriptor(d).%s;' % e, what='CpuId::%s for every leaf 2 descriptor' % q)
    for lvl in (1, 2, 3):
        S = 'scenLeaf4(1); Leaf l=leaf(4,0); bool m=(bits(l.a,4,0)==1||bits(l.a,4,0)==3)&&bits(l.a,7,5)==%d; ' % lvl
        one('cache_l4_size%d' % lvl, 'Vc::CpuId::init(); return Vc::CpuId::L%dData();' % lvl, S + 'return m?(1+bits(l.b,31,22))*(1+bits(l.b,21,12))*(1+bits(l.b,11,0))*(1+l.c):0;')
        one('cache_l4_line%d' % lvl, 'Vc::CpuId::init(); return Vc::CpuId::L%dDataLineSize();' % lvl, S + 'return m?1+bits(l.b,11,0):0;')
        one('cache_l4_ways%d' % lvl, 'Vc::CpuId::init(); return Vc::CpuId::L%dAssociativity();' % lvl, S + 'return m?1+bits(l.b,31,22):0;')
    # the implementation identifier class
    for f in ('0', '3', '7', '7+Vc::PopcntInstructions+Vc::FmaInstructions+Vc::Bmi2Instructions+Vc::VexInstructions', '6+Vc::VexInstructions+Vc::XopInstructions+Vc::Fma4Instructions+Vc::Sse4aInstructions'):
        n = re.sub(r'\W', '', f.replace('Vc::', '').replace('Instructions', ''))
        one('runs_%s' % n, 'return Vc::ImplementationT<%s>::runs_on(x);' % f, 'return ((%s)&0xfffff000u&~x)==0;' % f, ps=[SC('unsigned', 'x')])
        one('is_%s' % n, 'return Vc::ImplementationT<%s>::is(Vc::Implementation(x));' % f, 'return ((%s)&0xfff)==x;' % f, ps=[SC('unsigned', 'x')])
        one('between_%s' % n, 'return Vc::ImplementationT<%s>::is_between(Vc::Implementation(x),Vc::Implementation(y));' % f, 'return x<=((%s)&0xfff)&&y>=((%s)&0xfff);' % (f, f), ps=[SC('unsigned', 'x'), SC('unsigned', 'y')])
    return w
