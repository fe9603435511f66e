"""C24 library/header version check."""
from core import *
HEADER = 'wit_version.h'
LIBS = ('const.cpp',)
HEADERS = ['Vc/Vc', 'Vc/vector.h', 'Vc/global.h', 'Vc/cpuid.h', 'Vc/Memory', 'Vc/Allocator', 'Vc/IO', 'Vc/simdize', 'Vc/array', 'Vc/span', 'Vc/iterators', 'Vc/algorithm', 'Vc/limits', 'Vc/vector']
def witnesses(tier):
    w = []
    cfg = 'sse2'
    CALL = 'Vc::Common::checkLibraryAbi(%s)'
    P = [SC('unsigned', 'abi'), SC('unsigned', 'number'), ('const char*text', {'name': 'text', 'elem': 1, 'free': True})]
    mk(w, cfg, 'check_all', P, CALL % 'abi,number,text' + ';', 'if(abi!=Vc_LIBRARY_ABI_VERSION||number>Vc_VERSION_NUMBER) {cb_message(); __builtin_abort();}', opts=['unordered'], what='checkLibraryAbi for every header version')
    for k, (a, n) in enumerate((('Vc_LIBRARY_ABI_VERSION', 'Vc_VERSION_NUMBER'), ('Vc_LIBRARY_ABI_VERSION', '0'), ('Vc_LIBRARY_ABI_VERSION', 'Vc_VERSION_NUMBER-1'))):
        mk(w, cfg, 'accept%d' % k, [OUT('int', 1, 'o')], CALL % (a + ',' + n + ',""') + '; *o=1;', '*o=1;', what='compatible headers (%s, %s) pass' % (a, n))
    for k, (a, n) in enumerate((('Vc_LIBRARY_ABI_VERSION+1', 'Vc_VERSION_NUMBER'), ('Vc_LIBRARY_ABI_VERSION-1', 'Vc_VERSION_NUMBER'), ('Vc_LIBRARY_ABI_VERSION', 'Vc_VERSION_NUMBER+1'), ('0', '0'), ('Vc_LIBRARY_ABI_VERSION', '0xffffffffu'))):
        mk(w, cfg, 'refuse%d' % k, [], CALL % (a + ',' + n + ',""') + ';', 'cb_message(); __builtin_abort();', opts=['unordered'], what='incompatible headers (%s, %s) stop' % (a, n))
    mk(w, cfg, 'number', [], 'return Vc::versionNumber();', 'return Vc_VERSION_NUMBER;', ret='unsigned')
    T = [OUT('char', 32, 'o')]
    cp = 'for(int i=0;i<(int)sizeof(Vc_VERSION_STRING);++i) o[i]=(%s)[i];'
    mk(w, cfg, 'string', T, cp % 'Vc::versionString()', cp % 'Vc_VERSION_STRING')
    A = lambda s: SC('unsigned', s, lim=8)
    B = lambda s: SC('unsigned', s, lim=7)
    mk(w, cfg, 'vcheck', [A('a'), A('b'), B('c')], 'return Vc_VERSION_CHECK(a,b,c);', 'return a*65536u+b*256u+c*2u;', ret='unsigned', what='Vc_VERSION_CHECK for every version')
    mk(w, cfg, 'vorder', [A('a'), A('b'), B('c'), A('d'), A('e'), B('f')], 'return Vc_VERSION_CHECK(a,b,c)<Vc_VERSION_CHECK(d,e,f);', 'return a!=d?a<d:b!=e?b<e:c<f;', ret='bool', what='Vc_VERSION_CHECK orders versions lexicographically')
    # expressions as arguments
    mk(w, cfg, 'vexpr', [A('a')], 'return Vc_VERSION_CHECK(1,4,a);', 'return 0x010400u+2*a;', ret='unsigned')
    return [x for x in w if x]
def statics(tier):
    S = 'Vc_VERSION_STRING'
    r = []
    for cfg in ('scalar', 'sse2', 'avx2'):
        r.append(Static('str_num', 'Vc_VERSION_NUMBER==ver::major_(%s)*65536u+ver::minor_(%s)*256u+ver::patch_(%s)*2u+(ver::dev(%s)?1u:0u)' % (S, S, S, S), cfg, 'version string and version number agree (development versions are odd)'))
        r.append(Static('is1', 'Vc_IS_VERSION_1==(ver::major_(%s)==1&&ver::minor_(%s)<70)' % (S, S), cfg))
        r.append(Static('is2', 'Vc_IS_VERSION_2!=Vc_IS_VERSION_1', cfg))
        r.append(Static('vnum', 'Vc::versionNumber()==Vc_VERSION_NUMBER', cfg))
    return r
class Ob:
    def __init__(self, name, what, code): self.name = name; self.what = what; self.code = code
def rules(tier):
    """every translation unit that includes a library header runs the check from a static constructor"""
    rows = []
    tmp = tempfile.mkdtemp(prefix='vcv')
    try:
        # expected arguments, from the preprocessor
        r = sh([CLANG, '-std=c++14', '-I' + REPO, '-E', '-P', '-x', 'c++', '-DVc_NO_VERSION_CHECK', '-'], input=b'#include <Vc/global.h>\n#include <Vc/version.h>\nVERLINE Vc_LIBRARY_ABI_VERSION Vc_VERSION_NUMBER Vc_VERSION_STRING\n')
        m = re.search(r'VERLINE (\S+) (\S+) "([^"]*)"', r.stdout.decode())
        if not m: raise Broken('version macros not found')
        abi, num, text = int(m.group(1), 0), int(m.group(2), 0), m.group(3)
        def one(job):
            cfg, h, second = job
            src = os.path.join(tmp, '%s_%s.cpp' % (cfg, re.sub(r'\W', '_', h)))
            with open(src, 'w') as f: f.write('#include <%s>\nint user(int x) { return x; }\n' % h)
            r = sh(flags(CONFIGS[cfg], ['-S', '-emit-llvm', src, '-o', src + '.ll']))
            ob = Ob('runs_%s' % re.sub(r'\W', '_', h), '#include <%s> alone runs checkLibraryAbi(%d, %d, "%s") at start-up' % (h, abi, num, text), '#include <%s>' % h)
            if r.returncode: return cfg, ob, {'name': ob.name, 'status': 'unsupported', 'msg': r.stderr.decode()[:300]}
            t = open(src + '.ll').read()
            g = re.search(r'@llvm\.global_ctors = [^\n]*', t)
            todo = re.findall(r'ptr @([\w.$"]+)', g.group(0)) if g else []
            seen = set(); calls = []
            while todo:
                f = todo.pop()
                if f in seen: continue
                seen.add(f)
                b = re.search(r'^define [^\n]*@' + re.escape(f) + r'\(.*?^}', t, re.S | re.M)
                if not b: continue
                for c in re.finditer(r'call [^\n]*@([\w.$]+)\(([^\n]*)\)', b.group(0)):
                    if 'checkLibraryAbi' in c.group(1): calls.append((c.group(2), b.group(0)[:b.group(0).index(c.group(0))]))
                    else: todo.append(c.group(1))
            good = False
            for args, before in calls:
                v = re.findall(r'i32 (?:noundef )?(-?\d+)', args); s = re.search(r'ptr (?:noundef |nonnull )*@([\w.$]+)', args)
                st = re.search(r'@' + re.escape(s.group(1)) + r' = [^\n]*c"([^"]*)\\00"', t) if s else None
                if [int(x) & 0xffffffff for x in v] == [abi, num] and st and st.group(1) == text and not re.search(r'\bbr i1|\bswitch\b', before): good = True
            if good: return cfg, ob, {'name': ob.name, 'status': 'ok', 'funcs': sorted(seen)}
            return cfg, ob, {'name': ob.name, 'status': 'diff', 'diffs': [{'what': 'static constructors of a unit including <%s>' % h, 'impl': 'call checkLibraryAbi with %s' % calls[:2] if calls else 'never call checkLibraryAbi', 'spec': 'unconditionally call checkLibraryAbi(%d, %d, "%s")' % (abi, num, text), 'loc': 'Vc/version.h'}]}
        jobs = []
        for cfg in ('scalar', 'sse2', 'avx2'):
            for h in HEADERS:
                if os.path.exists(os.path.join(REPO, h)): jobs.append((cfg, h, 0))
        with ThreadPoolExecutor(JOBS) as ex: rows = list(ex.map(one, jobs))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rows, {'translation_units_analysed': len(rows)}
