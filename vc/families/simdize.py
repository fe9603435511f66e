"""C17 simdize: structures of scalars <-> structures of vectors, vectorising iterators."""
from core import *
from families.compare import CFGS, EXTRA
HEADER = 'wit_simdize.h'
CHUNK = 20
def structs(cfg, tier):
    """(id, struct type, member types, access to member k of scalar or vector object, extra simdize arguments)"""
    dot = lambda o, k: '%s.%s' % (o, 'xyz'[k])
    get = lambda o, k: 'std::get<%d>(%s)' % (k, o)
    r = []
    for t in TYPES: r.append(('p2' + t, 'P2<%s>' % t, (t, t), dot, ''))
    r += [('p3f', 'P3<float>', ('float',) * 3, dot, ''), ('p3s', 'P3<short>', ('short',) * 3, dot, ''), ('qfi', 'Q2<float,int>', ('float', 'int'), dot, ''), ('qsf', 'Q2<short,float>', ('short', 'float'), dot, ''), ('qdi', 'Q2<double,int>', ('double', 'int'), dot, ''),
          ('rdu', 'R2<double,ushort>', ('double', 'ushort'), dot, ''), ('rif', 'R2<int,float>', ('int', 'float'), dot, ''),
          ('q3', 'Q3<float,double,short>', ('float', 'double', 'short'), dot, ''), ('qfb', 'Q2<float,bool>', ('float', 'bool'), dot, ''), ('qbi', 'Q2<bool,int>', ('bool', 'int'), dot, ''),
          ('tfi', 'std::tuple<float,int>', ('float', 'int'), get, ''), ('pud', 'std::pair<uint,double>', ('uint', 'double'), get, ''), ('af3', 'std::array<float,3>', ('float',) * 3, get, ''),
          ('p2f3', 'P2<float>', ('float', 'float'), dot, ',3'), ('p2s6', 'P2<short>', ('short', 'short'), dot, ',6'), ('qif8', 'Q2<int,float>', ('int', 'float'), dot, ',8'), ('td5', 'std::tuple<double,double>', ('double', 'double'), get, ',5'), ('p2f1', 'P2<float>', ('float', 'float'), dot, ',1'),
          ('tff', 'std::tuple<float,float>', ('float', 'float'), get, ''), ('rff', 'R2<float,float>', ('float', 'float'), dot, ''), ('hid', 'H2<float>', ('float', 'float'), dot, '')]
    if tier == 'quick' and cfg in ('sse3', 'ssse3', 'sse42', 'sse41'): r = [x for x in r if x[0] in ('p2int', 'qsf', 'tff')]
    elif tier == 'quick' and cfg not in ('sse2', 'avx2'): r = [x for x in r if x[0] in ('p2short', 'p2float', 'p2double', 'p3s', 'qsf', 'qdi', 'q3', 'qif8', 'qfb', 'tff', 'p2f3')]
    return r
def native(cfg, t):
    abi = abis(cfg)[0]
    if t == 'bool': t = 'float'
    return size(abi if t in abi_types(cfg, abi) else 'Sse', t)
PADDED = ('qsf', 'qdi', 'rdu', 'q3', 'qfb', 'qbi', 'pud', 'hid')
def one(cfg, S, w, tier):
    id_, T, mt, acc, ext = S
    n = int(ext[1:]) if ext else native(cfg, mt[0])
    K = len(mt); R = range(K)
    td = 'typedef %s S; typedef Vc::simdize<S%s> AV; static_assert(AV::Size==%d,""); ' % (T, ext, n)
    def ins(s): return [IN(mt[k], n, '%s%d' % (s, k), free=True) for k in R]
    outs = [OUT(mt[k], n, 'r%d' % k) for k in R]
    scs = [SC(mt[k], 's%d' % k) if mt[k] != 'bool' else SC('uchar', 's%d' % k, lim=1) for k in R]
    ld = lambda o, s: 'AV %s; ' % o + ''.join('getm(%s,%s%d); ' % (acc(o, k), s, k) for k in R)
    st = lambda o: ''.join('putm(r%d,%s); ' % (k, acc(o, k)) for k in R)
    sc = 'S s; ' + ''.join('%s=s%d; ' % (acc('s', k), k) for k in R)
    o1 = [OUT(mt[k], 1, 'q%d' % k) for k in R]
    so = lambda e: 'const S e=%s; ' % e + ''.join('*q%d=%s; ' % (k, acc('e', k)) for k in R)
    F = 'for(int i=0;i<%d;++i) ' % n
    every = lambda body: ''.join(body.replace('#', str(k)) for k in R)
    kb = max(1, (n - 1).bit_length())
    k = CTL('k', kb); j = CTL('j', kb)
    A = '__vc_assume(k<%d); ' % n; B = '__vc_assume(j<%d); ' % n
    def W(nm, ps, i, s, what, **kw): mk(w, cfg, nm + '_' + id_, ps, td + i, s, what='%s of simdize<%s%s>' % (what, T, ext), **kw)
    W('as', ins('a') + scs + [k] + outs, ld('v', 'a') + sc + 'Vc::assign(v,k,s); ' + st('v'), A + F + '{' + every('r#[i]=a#[i]; ') + '}' + every('r#[k]=s#; '), 'assign')
    W('asd', ins('a') + scs + [k] + outs, ld('v', 'a') + sc + 'Vc::decorate(v)[k]=s; ' + st('v'), A + F + '{' + every('r#[i]=a#[i]; ') + '}' + every('r#[k]=s#; '), 'decorated assign')
    W('ex', ins('a') + [k] + o1, ld('v', 'a') + so('Vc::extract(v,k)'), A + every('*q#=a#[k]; '), 'extract')
    W('exd', ins('a') + [k] + o1, ld('v', 'a') + so('Vc::decorate(v)[k]'), A + every('*q#=a#[k]; '), 'decorated read')
    W('exc', ins('a') + [k] + o1, ld('v', 'a') + 'const AV &c=v; ' + so('Vc::decorate(c)[k]'), A + every('*q#=a#[k]; '), 'decorated const read')
    if 'bool' not in mt: W('bc', scs + outs, sc + 'AV v(s); ' + st('v'), F + '{' + every('r#[i]=s#; ') + '}', 'broadcast construction')
    if 'bool' not in mt: W('bca', ins('a') + scs + outs, ld('v', 'a') + sc + 'v=s; ' + st('v'), F + '{' + every('r#[i]=s#; ') + '}', 'assignment of a scalar object')
    W('cp', ins('a') + outs, ld('v', 'a') + 'AV u(v); AV x; x=u; ' + st('x'), F + '{' + every('r#[i]=a#[i]; ') + '}', 'copy')
    W('gen', ins('a') + outs, 'AV v([&](size_t i){S s; %sreturn s;}); ' % ''.join('%s=a%d[i]; ' % (acc('s', x), x) for x in R) + st('v'), F + '{' + every('r#[i]=a#[i]; ') + '}', 'generator construction')
    if 'bool' not in mt:
        for z in range(-n, n + 1) if tier == 'thorough' else sorted({-n, -n // 2, -1, 0, 1, n // 2 + 1, n - 1, n}):
            nm = ('m%d' % -z) if z < 0 else str(z)
            sh = F + '{' + every('r#[i]=i+(%d)>=0&&i+(%d)<%d?a#[i+(%d)]:0; ' % (z, z, n, z)) + '}'
            W('sh' + nm, ins('a') + outs, ld('v', 'a') + ('AV u=shifted(v,%d); ' if z % 2 else 'AV u=Vc::decorate(v).shifted(%d); ') % z + st('u'), sh, 'shifted(%d)' % z)
    sw = A + F + '{' + every('r#[i]=a#[i]; ') + '}' + every('*q#=a#[k]; r#[k]=s#; ')
    so2 = ''.join('*q%d=%s; ' % (x, acc('s', x)) for x in R)
    W('sw', ins('a') + scs + [k] + outs + o1, ld('v', 'a') + sc + 'swap(v,k,s); ' + st('v') + so2, sw, 'swap with a scalar object')
    W('swd', ins('a') + scs + [k] + outs + o1, ld('v', 'a') + sc + 'swap(Vc::decorate(v)[k],s); ' + st('v') + so2, sw, 'decorated swap with a scalar object')
    W('swe', ins('a') + scs + [k] + outs + o1, ld('v', 'a') + sc + 'swap(s,Vc::decorate(v)[k]); ' + st('v') + so2, sw, 'swap of a scalar object with a lane')
    o2 = [OUT(mt[x], n, 'p%d' % x) for x in R]; st2 = lambda o: ''.join('putm(p%d,%s); ' % (x, acc(o, x)) for x in R)
    sv = A + B + F + '{' + every('r#[i]=a#[i]; p#[i]=b#[i]; ') + '}' + every('r#[k]=b#[j]; p#[j]=a#[k]; ')
    if n <= 8 or tier == 'thorough':
        W('sv', ins('a') + ins('b') + [k, j] + outs + o2, ld('v', 'a') + ld('u', 'b') + 'swap(v,k,u,j); ' + st('v') + st2('u'), sv, 'swap of lanes of two vectors')
        W('svd', ins('a') + ins('b') + [k, j] + outs + o2, ld('v', 'a') + ld('u', 'b') + 'swap(Vc::decorate(v)[k],Vc::decorate(u)[j]); ' + st('v') + st2('u'), sv, 'decorated swap of lanes of two vectors')
        W('svs', ins('a') + [k, j] + outs, ld('v', 'a') + 'swap(v,k,v,j); ' + st('v'), A + B + F + '{' + every('r#[i]=a#[i]; ') + '}' + every('r#[k]=a#[j]; r#[j]=a#[k]; '), 'swap of two lanes')
    m = IN('bool', n, 'm', free=True)
    V0 = [x for x in R if mt[x] != 'bool'][0]
    mty = 'typename std::decay<decltype(%s)>::type::mask_type' % acc('v', V0)
    if 'bool' not in mt: W('wh', ins('a') + ins('b') + [m] + outs, ld('v', 'a') + ld('u', 'b') + '%s k(m); where(k)|v=u; ' % mty.replace('typename ', '') + st('v'), F + '{' + every('r#[i]=m[i]?b#[i]:a#[i]; ') + '}', 'masked assignment')
    if 'bool' not in mt and 'double' not in mt and 'float' not in mt:
        W('wha', ins('a') + ins('b') + [m] + outs, ld('v', 'a') + ld('u', 'b') + '%s k(m); where(k)|v+=u; ' % mty.replace('typename ', '') + st('v'), F + '{' + every('r#[i]=m[i]?a#[i]+b#[i]:a#[i]; ') + '}', 'masked addition')
        W('whi', ins('a') + [m] + outs, ld('v', 'a') + '%s k(m); ++where(k)|v; ' % mty.replace('typename ', '') + st('v'), F + '{' + every('r#[i]=m[i]?a#[i]+1:a#[i]; ') + '}', 'masked increment') if 0 else None
    # memory; only the members may be read or written
    es = max(TYPES.get(t, 1) for t in mt)
    mem = ('const S*mem', {'name': 'mem', 'elem': min(TYPES.get(t, 1) for t in mt), 'size': 16 * 1024, 'free': True})
    pre = 'typedef %s S; ' % T
    def WM(nm, ps, i, s, what, notouch=False, **kw):
        if (id_ in PADDED or notouch) and ps and any(p[0] == 'S*mem' for p in ps):
            # writes copy the padding as well or rewrite unchanged elements: observe all the members instead of the storage
            ps = [(p[0], dict(p[1], scratch=True)) if p[0] == 'S*mem' else p for p in ps] + [OUT(mt[x], 4 * n + 1, 'o%d' % x) for x in R]
            ob = ' for(int i=0;i<%d;++i) {%s}' % (4 * n + 1, ''.join('o%d[i]=%s; ' % (x, acc('mem[i]', x)) for x in R))
            i += ob; s += ob
        mk(w, cfg, nm + '_' + id_, [(p[0].replace('S*mem', T + '*mem'), p[1]) for p in ps], td + i, pre + s, what='%s of simdize<%s%s>' % (what, T, ext), opts=[] if id_ in PADDED or notouch else ['reads'], **kw)
    wmem = ('S*mem', mem[1])
    if 'bool' not in mt and (len(mt) > 1):
        rd = F + '{' + ''.join('r%d[i]=%s; ' % (x, acc('mem[i]', x)) for x in R) + '}'
        # the storage of the whole elements may be read (padding included)
        rd += ' __vc_touch(mem,%d*(int)sizeof(S));' % n
        WM('li', [mem] + outs, 'AV v; load_interleaved(v,mem); ' + st('v'), rd, 'load_interleaved')
        WM('lid', [mem] + outs, 'AV v; Vc::decorate(v).load(mem); ' + st('v'), rd, 'decorated load')
        wr = F + '{' + ''.join('%s=a%d[i]; ' % (acc('mem[i]', x), x) for x in R) + '}'
        WM('si', ins('a') + [wmem], ld('v', 'a') + 'store_interleaved(v,mem); ', wr, 'store_interleaved')
        WM('sid', ins('a') + [wmem], ld('v', 'a') + 'Vc::decorate(v).store(mem); ', wr, 'decorated store')
    # vectorising iterators
    if id_ in ('p2float', 'p2short', 'qfi', 'qdi', 'tfi', 'qsf', 'p2f3', 'rif', 'hid'):
        for cat, It, d in (('ra', 'S*', 1), ('ve', 'std::vector<S>::iterator', 1), ('bi', 'Skip<S,std::bidirectional_iterator_tag>', 2), ('fw', 'Skip<S,std::forward_iterator_tag>', 2)):
            if tier == 'quick' and (cat == 'fw' and id_ not in ('p2float', 'qfi') or cat in ('bi', 've') and cfg not in ('sse2', 'avx2')): continue
            ti = 'typedef %s It; typedef Vc::simdize<It%s> VI; VI it{It(mem)}; ' % (It, ext)
            e = 'mem[%d*i]' % d
            rd = F + '{' + ''.join('r%d[i]=%s; ' % (x, acc(e, x)) for x in R) + '}'
            wr = F + '{' + ''.join('%s=a%d[i]; ' % (acc(e, x), x) for x in R) + '}'
            WM('ir' + cat, [wmem] + outs, ti + 'AV v=*it; ' + st('v'), rd, 'iterator read (%s)' % cat)
            WM('irc' + cat, [wmem] + outs, ti + 'const VI &c=it; AV v=*c; ' + st('v'), rd, 'const iterator read (%s)' % cat)
            WM('iw' + cat, [wmem] + ins('a'), ti + ld('v', 'a') + '*it=v; ', wr, 'iterator write (%s)' % cat)
            WM('iap' + cat, [wmem] + outs, ti + ('VI::value_type v; ' + 'auto p=it.operator->(); ' + ''.join('%s=%s; ' % (acc('v', x), acc('(*p.operator->())', x)) for x in R) + st('v')), rd, 'iterator -> read (%s)' % cat, notouch=True)
            o0 = acc('it', 0).replace('it.', 'it->') if acc('it', 0).startswith('it.') else None
            if o0: WM('iaw' + cat, [wmem] + ins('a')[:1], ti + 'typename std::decay<decltype(it->x)>::type v; getm(v,a0); it->x=v; '.replace('typename ', ''), F + '{%s=a0[i];}' % acc(e, 0), 'iterator -> write (%s)' % cat, notouch=True)
            adv = lambda c: '(mem+%d)' % (d * n * c)
            WM('ii' + cat, [wmem] + outs, ti + '++it; it++; AV v=*it; ' + st('v'), rd.replace('mem[', adv(2) + '['), 'iterator increment (%s)' % cat)
            if cat != 'fw': WM('id' + cat, [wmem] + outs, ti + '++it; it++; --it; it--; ++it; AV v=*it--; ' + st('v') + 'AV u=*it; ' if 0 else ti + '++it; it++; it--; AV v=*it; ' + st('v'), rd.replace('mem[', adv(1) + '['), 'iterator decrement (%s)' % cat)
            if cat in ('ra', 've'):
                WM('ip' + cat, [wmem] + outs, ti + 'it+=3; it=it+2; it-=1; it=it-3; it=1+it; AV v=*it; '.replace('it=1+it;', 'it=it+1;') + st('v'), rd.replace('mem[', adv(2) + '['), 'iterator arithmetic (%s)' % cat)
                WM('ix' + cat, [wmem] + outs, ti + 'AV v=it[2]; ' + st('v'), rd.replace('mem[', adv(2) + '['), 'iterator subscript (%s)' % cat)
                WM('ixw' + cat, [wmem] + ins('a'), ti + ld('v', 'a') + 'it[2]=v; ', wr.replace('mem[', adv(2) + '['), 'write through an iterator subscript (%s)' % cat)
                q = ('llong*q', {'name': 'q', 'elem': 8, 'size': 64})
                kk = CTL('k', 4)
                WM('ic' + cat, [wmem, kk, q], ti + 'VI e(It(mem)+int(k)); q[0]=e==it; q[1]=e!=it; q[2]=it<e; q[3]=it>e; q[4]=e<it; q[5]=e>it; q[6]=static_cast<const It&>(e)-It(mem); VI f=it+int(k); q[7]=f-it; ', 'q[0]=k==0; q[1]=k!=0; q[2]=q[5]=k>=%d; q[3]=q[4]=0; q[6]=k; q[7]=k;' % n, 'iterator comparison and distance (%s)' % cat)
        # iterators over constants
        WM('iconst', [mem] + outs, 'typedef const S*It; typedef Vc::simdize<It%s> VI; VI it{It(mem)}; AV v=*it; ' % ext + st('v'), F + '{' + ''.join('r%d[i]=%s; ' % (x, acc('mem[i]', x)) for x in R) + '}', 'iterator over constants')
def scalit(cfg, t, w, tier):
    """vectorising iterators over arithmetic types"""
    for ext in ('', ',3', ',8'):
        n = int(ext[1:]) if ext else native(cfg, t)
        F = 'for(int i=0;i<%d;++i) ' % n
        id_ = t + ext.replace(',', '_')
        mem = ('%s*mem' % t, {'name': 'mem', 'elem': TYPES[t], 'size': 4096, 'free': True})
        r = OUT(t, n, 'r'); a = IN(t, n, 'a')
        for cat, It, d in (('ra', 'T*', 1), ('ve', 'std::vector<T>::iterator', 1), ('bi', 'Skip<T,std::bidirectional_iterator_tag>', 2)):
            ti = 'typedef %s T; typedef %s It; typedef Vc::simdize<It%s> VI; typedef VI::value_type V; static_assert(VI::Size==%d&&std::is_same<V,Vc::simdize<T%s>>::value,""); VI it{It(mem)}; ' % (t, It, ext, n, ext)
            def W(nm, ps, i, s, what): mk(w, cfg, '%s%s_%s' % (nm, cat, id_), ps, ti + i, F + s, what='%s (%s) over %s%s' % (what, It, t, ext), opts=['reads'])
            W('tr', [mem, r], 'V v=*it; putm(r,v);', 'r[i]=mem[%d*i];' % d, 'iterator read')
            W('tw', [mem, a], 'V v; getm(v,a); *it=v;', 'mem[%d*i]=a[i];' % d, 'iterator write')
            W('ti', [mem, r], '++it; it++; V v=*it; putm(r,v);', 'r[i]=mem[%d*(i+%d)];' % (d, 2 * n), 'iterator increment')
            if cat != 'bi':
                W('tx', [mem, a], 'V v; getm(v,a); it[2]=v;', 'mem[i+%d]=a[i];' % (2 * n), 'write through an iterator subscript')
                W('tl', [mem, r], 'VI e(It(mem)+%d); V v(T(0)); for(;it!=e;++it) v|=*it; putm(r,v);' % (3 * n), 'r[i]=mem[i]|mem[i+%d]|mem[i+%d];' % (n, 2 * n), 'loop') if t in INTS else None
def witnesses(tier):
    w = []
    for cfg in CFGS + (EXTRA if tier == 'thorough' else []):
        for S in structs(cfg, tier): one(cfg, S, w, tier)
        for t in TYPES: scalit(cfg, t, w, tier)
    return w
def statics(tier):
    r = []
    same = lambda a, b: 'std::is_same<%s,%s>::value' % (a, b)
    for cfg in CFGS:
        k = [0]
        def S(e, what=''): k[0] += 1; r.append(Static('z%d' % k[0], e, cfg, what))
        for t in TYPES:
            S(same('Vc::simdize<%s>' % t, 'Vc::Vector<%s>' % t))
            S(same('Vc::simdize<%s,Vc::Vector<%s>::Size>' % (t, t), 'Vc::Vector<%s>' % t))
            S('Vc::simdize<%s,7>::Size==7&&' % t + same('Vc::simdize<%s,7>' % t, 'Vc::SimdArray<%s,7>' % t))
            S(same('Vc::simdize<bool,0,%s>' % t, 'Vc::Mask<%s>' % t))
            S('Vc::simdize<bool,5,%s>::Size==5' % t)
            S('Vc::simdize<%s,1>::Size==1' % t)
            S('Vc::simdize<P2<%s>>::Size==Vc::Vector<%s>::Size&&std::is_same<Vc::simdize<P2<%s>>::scalar_type,P2<%s>>::value&&std::is_same<Vc::simdize<P2<%s>>::base_type,P2<Vc::Vector<%s>>>::value&&std::is_base_of<P2<Vc::Vector<%s>>,Vc::simdize<P2<%s>>>::value' % ((t,) * 8))
            S('alignof(Vc::simdize<P2<%s>>)>=alignof(Vc::Vector<%s>)' % (t, t))
            S('std::is_base_of<Vc::Allocator<Vc::simdize<P2<%s>>>,std::allocator<Vc::simdize<P2<%s>>>>::value' % (t, t))
            S('std::tuple_size<Vc::simdize<std::tuple<%s,float>>>::value==2&&Vc::Traits::is_simd_vector<std::tuple_element<1,Vc::simdize<std::tuple<%s,float>>>::type>::value&&std::tuple_element<1,Vc::simdize<std::tuple<%s,float>>>::type::Size==Vc::Vector<%s>::Size' % ((t,) * 4))
            S('decltype(Vc::simdize<Q2<%s,double>>::y)::Size==Vc::Vector<%s>::Size' % (t, t))
            S('decltype(Vc::simdize<Q2<%s,bool>>::y)::Size==Vc::Vector<%s>::Size&&Vc::Traits::is_simd_mask<decltype(Vc::simdize<Q2<%s,bool>>::y)>::value' % (t, t, t))
            S('Vc::simdize<const %s*>::Size==Vc::Vector<%s>::Size' % (t, t))
        for t in ('char', 'long', 'std::string', 'void', 'unsigned char', 'long long', 'S0', 'std::tuple<std::string>', 'P2<char>'):
            S(same('Vc::simdize<%s>' % t, t), 'types that cannot be vectorised stay unchanged: ' + t)
        S(same('std::tuple_element<0,Vc::simdize<std::tuple<std::string,float>>>::type', 'std::string'))
        S(same('Vc::simdize<std::array<float,3>>::base_type', 'std::array<Vc::float_v,3>') + '&&Vc::simdize<std::array<float,3>>::Size==Vc::float_v::Size')
        S('!std::is_assignable<decltype(*std::declval<Vc::simdize<const float*>&>()),Vc::float_v>::value', 'iterators over constants cannot be written')
        S('std::is_assignable<decltype(*std::declval<Vc::simdize<float*>&>()),Vc::float_v>::value')
    return r
