"""C35: every public header can be included alone, in any order, in every supported language standard and from several
translation units: front-end obligations on the headers alone (g++ and clang++ without the witness prelude), linkage of
every definition they contain, and the macros they leave behind."""
import os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import core
PUBLIC = 'Vc Allocator IO Memory SimdArray Utils algorithm array iterators limits simdize span type_traits vector vector.h cpuid.h global.h'.split()
NEEDS_GLOBAL = ['support.h', 'version.h']     # ask for <Vc/global.h> by #error
ISA = {'scalar': ['-msse2', '-DVc_IMPL=Scalar'], 'sse2': ['-msse2'], 'ssse3': ['-mssse3'], 'sse41': ['-msse4.1'], 'avx': ['-mavx'], 'avx2': ['-mavx2', '-mfma', '-mbmi2']}
MAIN = ('scalar', 'sse2', 'avx2')
class Obl:
    def __init__(self, name, what): self.name = re.sub(r'[^\w]', '_', name); self.what = what; self.code = ''
def diff(what, impl, spec, msg=''): return {'status': 'diff', 'diffs': [{'what': what, 'impl': impl, 'spec': spec, 'loc': '', 'when': ''}], 'msg': msg}

def rules(tier):
    tmp = tempfile.mkdtemp(prefix='vch')
    gcc = 'g++' if shutil.which('g++') else None
    n = [0]
    def tu(hs):
        n[0] += 1
        p = os.path.join(tmp, 't%d.cpp' % n[0])
        open(p, 'w').write(''.join('#include <Vc/%s>\n' % h for h in hs)); return p
    seqs = []   # (isa, compiler, standard, headers, name, what)
    comps = ([gcc] if gcc else []) + [core.CLANG]
    hs = [h for h in PUBLIC if os.path.exists(os.path.join(core.REPO, 'Vc', h))]
    rows = [('all', Obl('exists_' + h, 'public header ' + h), {'status': 'ok'} if os.path.exists(os.path.join(core.REPO, 'Vc', h)) else diff('header', 'absent', 'part of the interface')) for h in PUBLIC]
    for isa in MAIN if tier == 'quick' else ISA:
        for c in comps:
            cn = 'clang' if 'clang' in c else 'gcc'
            for h in hs:
                seqs.append((isa, c, '14', [h], 'alone_%s_%s' % (cn, h), '<Vc/%s> alone, %s' % (h, cn)))
                rest = [x for x in hs if x != h]
                if isa == 'avx2' or tier == 'thorough':
                    seqs.append((isa, c, '14', [h] + rest, 'first_%s_%s' % (cn, h), '<Vc/%s>, then every other public header, %s' % (h, cn)))
                    seqs.append((isa, c, '14', [h] + rest[::-1], 'firstr_%s_%s' % (cn, h), '<Vc/%s>, then every other public header in reverse order, %s' % (h, cn)))
                if tier == 'thorough':
                    for x in rest: seqs.append((isa, c, '14', [h, x], 'pair_%s_%s_%s' % (cn, h, x), '<Vc/%s> before <Vc/%s>, %s' % (h, x, cn)))
            for h in NEEDS_GLOBAL: seqs.append((isa, c, '14', ['global.h', h], 'global_%s_%s' % (cn, h), '<Vc/%s> behind <Vc/global.h>, %s' % (h, cn)))
            for s in ('11', '17', '20'): seqs.append((isa, c, s, hs, 'std%s_%s' % (s, cn), 'all public headers, -std=c++%s, %s' % (s, cn)))
    def one(q):
        isa, c, s, l, nm, what = q
        r = core.sh([c, '-std=c++' + s, '-fsyntax-only', '-w', '-I' + core.REPO] + ISA[isa] + [tu(l)])
        err = r.stderr.decode(errors='replace')
        if r.returncode == 0: return isa, Obl(nm, what), {'status': 'ok'}
        m = re.search(r'[^\n]*(?:fatal )?error:[^\n]*', err)
        return isa, Obl(nm, what), diff(what, m.group(0) if m else 'compiler failure', 'compiles', err[:1500])
    def lint(isa):
        """definitions and macros of all public headers together"""
        out = []
        p = tu(hs)
        r = core.sh([core.CLANG, '-std=c++14', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', '-', '-I' + core.REPO, '-include', os.path.join(core.HERE, 'pre.h')] + ISA[isa] + [p])
        ll = r.stdout.decode(errors='replace')
        if r.returncode:
            out.append((isa, Obl('linkage', 'definitions of the public headers'), {'status': 'compile', 'msg': r.stderr.decode(errors='replace')[:1500]}))
        else:
            weak = r'\b(internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally|external|extern_weak)\b'
            bad = []; cnt = 0
            for l in ll.splitlines():
                m = re.match(r'define (.*?)@("[^"]*"|[\w.$]+)\(', l) or re.match(r'()@("[^"]*"|[\w.$]+) = (.*)', l)
                if not m or m.group(2).startswith('llvm.') : continue
                head = m.group(1) if l.startswith('define') else m.group(3).split(' global ')[0].split(' constant ')[0]
                cnt += 1
                if not re.search(weak, head): bad.append(m.group(2))
            out.append((isa, Obl('linkage', 'every one of the %d functions and variables the public headers define may be defined in several translation units' % cnt),
                        diff('definition of ' + ', '.join(bad[:5]), 'strong external linkage: a second translation unit including the header does not link', 'inline, template or internal') if bad else {'status': 'ok', 'insts': cnt}))
        for c in comps:
            cn = 'clang' if 'clang' in c else 'gcc'
            r = core.sh([c, '-std=c++14', '-dD', '-E', '-I' + core.REPO] + ISA[isa] + [p])
            f, macros, gone = '', {}, []
            for l in r.stdout.decode(errors='replace').splitlines():
                m = re.match(r'# \d+ "([^"]*)"', l)
                if m: f = os.path.normpath(m.group(1)); continue
                mine = f.startswith(core.REPO + '/Vc/')
                m = re.match(r'\s*#\s*define (\w+)', l)
                if m:
                    if mine: macros[m.group(1)] = f
                    continue
                m = re.match(r'\s*#\s*undef (\w+)', l)
                if m:
                    if mine and m.group(1) not in macros and not re.match(r'Vc_|VC_', m.group(1)): gone.append(m.group(1) + ' in ' + f)
                    macros.pop(m.group(1), None)
            left = ['%s (%s)' % (k, v) for k, v in sorted(macros.items()) if not re.match(r'_*(Vc|VC)_|\w+_H_$|VECTOR_NAMESPACE$', k)]
            out.append((isa, Obl('macros_' + cn, 'the public headers leave only macros with the prefix of the library (%d), %s' % (len(macros), cn)),
                        {'status': 'compile', 'msg': r.stderr.decode(errors='replace')[:1500]} if r.returncode else diff('macro ' + ', '.join(left[:5]), 'defined for the rest of the program', 'undefined again') if left else diff('#undef of ' + ', '.join(gone[:5]), 'removes a macro the library did not define', 'untouched') if gone else {'status': 'ok', 'insts': len(macros)}))
        return out
    try:
        with ThreadPoolExecutor(core.JOBS) as ex:
            lints = [ex.submit(lint, i) for i in ISA]
            rows += list(ex.map(one, seqs))
            for l in lints: rows += l.result()
        if all(r['status'] != 'ok' for c, o, r in rows if o.name.startswith('alone_') and o.name.endswith('_Vc')):
            rows = [(c, o, {'status': 'compile', 'msg': 'GLOBAL ' + str(r.get('msg') or r)[:800]}) for c, o, r in rows]
        return rows, {'headers': {'public headers': len(hs), 'inclusion sequences': len(seqs), 'compilers': comps}}
    finally: shutil.rmtree(tmp, ignore_errors=True)
