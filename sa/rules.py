"""Rule jobs: analyses that are not claims in a probe. Signature f(job, cfgname, tmp) -> Result."""
import json, os, re


def _c():
    import sys
    return sys.modules['__main__'] if hasattr(sys.modules['__main__'], 'Result') else __import__('check')


def lock_job(job, cfgname, tmp):
    """typestate / memory-ordering rules on a lock (engine -mode lock)"""
    c = _c()
    res = c.Result()
    probe = os.path.join(c.VERIF, 'probes', job['src'])
    bc = os.path.join(tmp, 'lock.%s.bc' % cfgname)
    js = os.path.join(tmp, 'lock.%s.json' % cfgname)
    r = c.run([c.CLANG] + c.CONFIGS[cfgname] + ['-O2', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-g1', '-w'] + c.INCLUDES + [probe, '-o', bc])
    if r.returncode != 0:
        c.compile_failure(res, probe, cfgname, r.stderr, 'constructing, locking and unlocking a spin_lock')
        return res
    r = c.run([c.ENGINE, bc, '-mode', 'lock', '-o', js, '-dump', js + '.ll'])
    if r.returncode != 0:
        raise c.Broken('lock analysis failed: ' + r.stderr[-2000:])
    j = json.load(open(js))
    for b in j['residual']:
        res.violate('lock discipline', b['text'], c.repo_frame(b['loc']) if b['loc'] != '?' else b['probe'], config=cfgname, path=c.short(b['loc']))
    n = j['rules'] + j['sites']
    res.add('obligations', n)
    res.add('discharged', max(0, n - len(j['residual'])))
    res.add('atomic_access_sites', j['sites'])
    res.analysed |= set(j['analysed'])
    res.cov['configurations'] = [cfgname]
    res.samples.append('%s: %s' % (cfgname, '; '.join(j['analysed'])))
    return res


# target triple -> CFG_OS, CFG_OS_NAME, CFG_CPU (or None where the list of known processors has no name for it)
LINUX, WINDOWS, MACOSX, UNIX = 'CFG_OS_LINUX', 'CFG_OS_WINDOWS', 'CFG_OS_MACOSX', 'CFG_OS_UNIX'
_N = lambda n: 'CFG_OS_NAME_' + n
TARGETS = [
    ('x86_64-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_X86_64'), ('i386-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_X86'),
    ('i486-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_X86'), ('i586-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_X86'),
    ('i686-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_X86'), ('aarch64-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'),
    ('aarch64_be-linux-gnu', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'), ('armv4t-linux-gnueabi', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'),
    ('armv5te-linux-gnueabi', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'), ('armv6-linux-gnueabihf', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'),
    ('armv7-linux-gnueabihf', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'), ('armebv7-linux-gnueabihf', LINUX, _N('UNKNOWN'), 'CFG_CPU_ARM'),
    ('riscv64-linux-gnu', LINUX, _N('UNKNOWN'), None), ('powerpc-linux-gnu', LINUX, _N('UNKNOWN'), None),
    ('powerpc64-linux-gnu', LINUX, _N('UNKNOWN'), None), ('powerpc64le-linux-gnu', LINUX, _N('UNKNOWN'), None),
    ('mips-linux-gnu', LINUX, _N('UNKNOWN'), None), ('mipsel-linux-gnu', LINUX, _N('UNKNOWN'), None), ('s390x-linux-gnu', LINUX, _N('UNKNOWN'), None),
    ('aarch64-linux-android', LINUX, _N('ANDROID'), 'CFG_CPU_ARM'), ('armv7-linux-androideabi', LINUX, _N('ANDROID'), 'CFG_CPU_ARM'),
    ('i686-linux-android', LINUX, _N('ANDROID'), 'CFG_CPU_X86'), ('x86_64-linux-android', LINUX, _N('ANDROID'), 'CFG_CPU_X86_64'),
    ('x86_64-pc-windows-msvc', WINDOWS, _N('UNKNOWN'), 'CFG_CPU_X86_64'), ('i686-pc-windows-msvc', WINDOWS, _N('UNKNOWN'), 'CFG_CPU_X86'),
    ('x86_64-w64-windows-gnu', WINDOWS, _N('UNKNOWN'), 'CFG_CPU_X86_64'), ('i686-w64-windows-gnu', WINDOWS, _N('UNKNOWN'), 'CFG_CPU_X86'),
    ('x86_64-apple-macosx13', MACOSX, _N('MACOSX'), 'CFG_CPU_X86_64'), ('arm64-apple-macosx13', MACOSX, _N('MACOSX'), 'CFG_CPU_ARM'),
    ('arm64-apple-ios13', MACOSX, _N('IOS'), 'CFG_CPU_ARM'), ('x86_64-unknown-freebsd13', UNIX, _N('FREEBSD'), 'CFG_CPU_X86_64'),
    ('aarch64-unknown-freebsd13', UNIX, _N('FREEBSD'), 'CFG_CPU_ARM'), ('x86_64-pc-solaris2.11', UNIX, _N('SOLARIS'), 'CFG_CPU_X86_64'),
    ('sparcv9-sun-solaris2.11', UNIX, _N('SOLARIS'), None), ('wasm32-unknown-emscripten', UNIX, _N('EMSCRIPTEN'), 'CFG_CPU_WASM'),
    ('x86_64-unknown-netbsd', UNIX, _N('UNKNOWN'), 'CFG_CPU_X86_64'), ('x86_64-unknown-openbsd', UNIX, _N('UNKNOWN'), 'CFG_CPU_X86_64'),
]
STANDARDS = [('c++98', 3), ('c++11', 11), ('c++14', 14), ('c++17', 17), ('c++20', 20)]
SYMBOLS = ['CFG_OS', 'CFG_OS_NAME', 'CFG_COMPILER', 'CFG_CPU', 'CFG_CPU_BITS', 'CFG_CPU_VERSION', 'CFG_ENDIANNESS', 'CFG_CPP', 'DLLEXPORT']
HEADER = 'src/utki/config.hpp'


def config_job(job, cfgname, tmp):
    """the configuration header, preprocessed for every target: what it says about the target against what the compiler defines for it"""
    c = _c()
    res = c.Result()
    res.cov['configurations'] = [cfgname]
    inc = os.path.join(tmp, 'apple')
    os.makedirs(inc, exist_ok=True)
    open(os.path.join(inc, 'TargetConditionals.h'), 'w').write(
        '#ifdef __ENVIRONMENT_IPHONE_OS_VERSION_MIN_REQUIRED__\n#define TARGET_OS_IPHONE 1\n#else\n#define TARGET_OS_IPHONE 0\n#endif\n#define TARGET_IPHONE_SIMULATOR 0\n#define TARGET_OS_MAC 1\n')
    open(os.path.join(inc, 'Availability.h'), 'w').write('\n')
    constants = ['CFG_OS_UNKNOWN', LINUX, WINDOWS, MACOSX, UNIX] + [_N(n) for n in 'UNKNOWN MACOSX IOS ANDROID SOLARIS FREEBSD EMSCRIPTEN'.split()] + \
        ['CFG_COMPILER_' + n for n in 'UNKNOWN GCC MSVC CLANG'.split()] + ['CFG_CPU_' + n for n in 'UNKNOWN X86 X86_64 ARM WASM'.split()] + \
        ['CFG_ENDIANNESS_' + n for n in 'UNKNOWN LITTLE BIG'.split()]
    src = os.path.join(tmp, 'config.cpp')
    facts = ['__BYTE_ORDER__', '__SIZEOF_POINTER__', '_MSC_VER', '__clang__']
    with open(src, 'w') as f:
        f.write('#include <utki/config.hpp>\n#include <utki/config.hpp>\n')
        for s in SYMBOLS + constants + facts:
            f.write('#ifdef %s\nsa_is "%s" %s\n#endif\n' % (s, s, s))
    families = (('CFG_OS_', 'CFG_OS_NAME_'), ('CFG_OS_NAME_', None), ('CFG_COMPILER_', None), ('CFG_CPU_', None), ('CFG_ENDIANNESS_', None))

    def one(triple, std, gcc, extra=()):
        """symbol -> value of one preprocessing; gcc: as the GNU compiler, that is without the macros of clang"""
        r = c.run([c.CLANG, '-target', triple, '-std=' + std, '-E', '-P', '-w', '-nostdinc', '-I', inc] + c.INCLUDES[:1] + (['-U__clang__'] if gcc else []) + list(extra) + [src])
        if r.returncode != 0:
            return None, r.stderr
        return {m.group(1): m.group(2).strip() for m in re.finditer(r'sa_is "(\w+)"([^\n]*)', r.stdout)}, ''

    def bad(what, triple):
        res.violate('configuration header', what, HEADER, config=cfgname, path='target ' + triple)

    checked = 0
    for triple, os_, name, cpu in TARGETS:
        for gcc in (False, True):
            label = '%s%s' % (triple, ', the GNU compiler' if gcc else '')
            if gcc and 'msvc' in triple:
                continue
            v, err = one(triple, 'c++17', gcc)
            if v is None:
                if 'config.hpp' in err:
                    bad('does not preprocess: ' + err.strip().split('\n')[0], label)
                    continue
                raise c.Broken('preprocessing for %s: %s' % (triple, err[-500:]))
            compiler = 'CFG_COMPILER_MSVC' if '_MSC_VER' in v else 'CFG_COMPILER_GCC' if gcc else 'CFG_COMPILER_CLANG'
            big = v['__BYTE_ORDER__'] == '4321' if v.get('__BYTE_ORDER__', '').isdigit() else '4321' in v.get('__BYTE_ORDER__', '')
            expect = [('CFG_OS', os_), ('CFG_OS_NAME', name), ('CFG_COMPILER', compiler), ('CFG_ENDIANNESS', 'CFG_ENDIANNESS_BIG' if big else 'CFG_ENDIANNESS_LITTLE')]
            for sym, want in expect:
                checked += 1
                if v.get(sym) != v.get(want) or want not in v:
                    bad('%s is %s, not %s' % (sym, v.get(sym), want), label)
            # the processor: the right one, or, where it is not detected (clang, unlisted ones), unknown with zero bits
            known = compiler != 'CFG_COMPILER_CLANG' or cpu == 'CFG_CPU_WASM'
            allowed = {v.get(cpu or 'CFG_CPU_UNKNOWN')} | (set() if known else {v.get('CFG_CPU_UNKNOWN')})
            checked += 2
            if v.get('CFG_CPU') not in allowed:
                bad('CFG_CPU is %s, not %s' % (v.get('CFG_CPU'), cpu or 'CFG_CPU_UNKNOWN'), label)
            bits = '0' if v.get('CFG_CPU') == v.get('CFG_CPU_UNKNOWN') else str(8 * int(v['__SIZEOF_POINTER__']))
            if v.get('CFG_CPU_BITS') != bits:
                bad('CFG_CPU_BITS is %s, not %s' % (v.get('CFG_CPU_BITS'), bits), label)
            checked += 1
            if 'DLLEXPORT' not in v:
                bad('DLLEXPORT is not defined', label)
    v, err = one('x86_64-linux-gnu', 'c++17', False)
    for prefix, but in families:
        fam = [s for s in constants if s.startswith(prefix) and not (but and s.startswith(but))]
        checked += 1
        if len({v.get(s) for s in fam}) != len(fam) or any(s not in v for s in fam):
            bad('the values of %s* are not distinct' % prefix, 'any')
    for std, want in STANDARDS:
        for triple in ('x86_64-linux-gnu', 'x86_64-pc-windows-msvc'):
            if 'msvc' in triple and want < 14:
                continue
            v, err = one(triple, std, False)
            checked += 1
            if v is None or v.get('CFG_CPP') != str(want):
                bad('CFG_CPP is %s with -std=%s' % (v and v.get('CFG_CPP'), std), triple)
    checked += 1
    v, err = one('x86_64-linux-gnu', 'c++2b', False)
    if v is None or int(v.get('CFG_CPP', 0)) < 20:
        bad('CFG_CPP is %s with -std=c++2b' % (v and v.get('CFG_CPP')), 'x86_64-linux-gnu')
    for flag, want in ((['-D_USRDLL'], 'dllexport'), ([], 'dllimport')):
        v, err = one('x86_64-pc-windows-msvc', 'c++17', False, flag)
        checked += 1
        if v is None or want not in v.get('DLLEXPORT', ''):
            bad('DLLEXPORT is not %s' % want, 'x86_64-pc-windows-msvc' + ' '.join(flag))
    res.add('obligations', checked)
    res.add('discharged', checked - len(res.violations))
    res.add('targets', len(TARGETS))
    res.analysed.add(HEADER)
    res.samples.append('%d targets, with and without the macros of clang' % len(TARGETS))
    return res
