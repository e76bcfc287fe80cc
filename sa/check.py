#!/usr/bin/env python3
"""Decides one property of /repo by static analysis. usage: sa/check.py <property id>

exit 0: every obligation discharged / every rule satisfied (known findings excepted)
exit 1: "VIOLATION property=<id> replay=<path>" per construct that breaks the property
exit 2: the analysis itself could not be carried out (its own inputs are broken)
"""
import concurrent.futures as cf
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
ENGINE = os.path.join(VERIF, 'build', 'sa_engine')
CLANG = 'clang++-18'
sys.path.insert(0, os.path.join(VERIF, 'sa'))

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

INCLUDES = ['-I' + SRC, '-isystem', os.path.join(REPO, 'src_deps'), '-I' + os.path.join(VERIF, 'probes')]
IRFLAGS = ['-O2', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-g1', '-D_GLIBCXX_ASSERTIONS',
           '-fsanitize=shift,signed-integer-overflow,array-bounds,integer-divide-by-zero,unreachable,return',
           '-fsanitize-trap=all', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks',
           '-ftrivial-auto-var-init=pattern', '-fno-discard-value-names', '-Wno-everything']

CONFIGS = {
    'cxx17': ['-std=c++17'],
    'cxx20': ['-std=c++20'],
    'cxx17-debug': ['-std=c++17', '-DDEBUG'],
    'cxx20-debug': ['-std=c++20', '-DDEBUG'],
    'cxx17-uchar': ['-std=c++17', '-funsigned-char'],
    'cxx20-debug-uchar': ['-std=c++20', '-DDEBUG', '-funsigned-char'],
}
STRATEGIES = [['-sa-peels=0'], ['-sa-peels=14', '-sa-peel-limit=12000']]
QUICK = ['cxx17', 'cxx20', 'cxx17-debug']
THOROUGH = list(CONFIGS)


SLOTS = threading.Semaphore(8)


class Broken(Exception):
    pass


class Result:
    def __init__(self):
        self.violations = []   # dicts: rule, what, where
        self.cov = {'obligations': 0, 'discharged': 0}
        self.samples = []
        self.analysed = set()
        self.assumptions = []
        self.notes = []

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violate(self, rule, what, where, **kw):
        self.violations.append(dict(rule=rule, what=what, where=where, **kw))

    def merge(self, o):
        self.violations += o.violations
        for k, v in o.cov.items():
            if isinstance(v, int):
                self.add(k, v)
            elif isinstance(v, list):
                self.cov.setdefault(k, [])
                self.cov[k] += [x for x in v if x not in self.cov[k]]
            else:
                self.cov[k] = v
        self.samples += o.samples
        self.analysed |= o.analysed
        self.assumptions += [a for a in o.assumptions if a not in self.assumptions]


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw)


def short(loc):
    loc = loc.replace(REPO + '/', '').replace(VERIF + '/', '')
    loc = re.sub(r'/usr/bin/\.\./lib/gcc/x86_64-linux-gnu/13/(\.\./)+include/c\+\+/13/', 'libstdc++/', loc)
    return re.sub(r'\(lambda at ([^()]*)\)', r'lambda', loc)


def repo_frame(loc):
    """innermost frame of the inline chain that lies in the repository"""
    for fr in loc.split(' <- '):
        if fr.startswith(REPO + '/'):
            return short(fr)
    return short(loc.split(' <- ')[0])


def base_compiles(headers, cfgname):
    """do the repository's headers that the probe includes compile on their own?"""
    src = ''.join('#include <%s>\n' % h for h in headers)
    r = run([CLANG, '-fsyntax-only', '-x', 'c++', '-w'] + CONFIGS[cfgname] + INCLUDES + ['-'], input=src)
    return r.returncode == 0, r.stderr


def utki_headers(path):
    txt = open(path).read()
    return re.findall(r'#\s*include\s*<(utki/[^>]+)>', txt)


def compile_failure(res, path, cfgname, stderr, what):
    ok, base = base_compiles(utki_headers(path), cfgname)
    if not ok:
        raise Broken('the headers of /repo do not compile (%s):\n%s' % (cfgname, base[:3000]))
    err = [l for l in stderr.splitlines() if 'error:' in l]
    where = short(err[0]) if err else '?'
    res.violate('documented-interface', '%s is rejected by the compiler' % what, where, config=cfgname, detail=stderr[:4000])


def ir_job(job, cfgname, tmp):
    """compile probe + library sources to IR, run the engine, collect obligations"""
    res = Result()
    job = dict(job)
    for key, extra in job.get(TIER, {}).items():
        job[key] = job.get(key, []) + extra if isinstance(extra, list) else extra
    probe = os.path.join(VERIF, 'probes', job['probe'])
    tag = os.path.splitext(job['probe'])[0] + '.' + cfgname
    d = os.path.join(tmp, tag)
    os.makedirs(d, exist_ok=True)
    flags = CONFIGS[cfgname] + IRFLAGS + INCLUDES + job.get('flags', []) + ['-include', os.path.join(VERIF, 'probes', 'sa_prelude.hpp')]
    bcs = []
    lib = job.get('lib', [])
    everything = [(q, os.path.join(d, os.path.basename(q) + '.bc')) for q in sorted(glob.glob(os.path.join(SRC, 'utki', '*.cpp')))]
    units = [(probe, os.path.join(d, 'probe.bc'))]
    for l in lib:
        p = os.path.join(SRC, 'utki', l + '.cpp')
        if not os.path.exists(p):
            # the translation unit moved: take every unit of the library instead
            units += everything
            break
        units.append((p, os.path.join(d, os.path.basename(p) + '.bc')))

    def build(units):
        bcs = []
        for src, out in dict.fromkeys(units):
            if not os.path.exists(out):
                r = run([CLANG] + flags + (job.get('probe_flags', []) if src == probe else job.get('lib_flags', [])) + [src, '-o', out])
                if r.returncode != 0:
                    if src == probe:
                        compile_failure(res, probe, cfgname, r.stderr, 'a program using the documented interface (%s)' % os.path.basename(probe))
                        return None
                    raise Broken('cannot compile %s (%s):\n%s' % (src, cfgname, r.stderr[:3000]))
            bcs.append(out)
        return bcs

    def analyse_part(bcs, n, extra, part, parts):
        js = os.path.join(d, 'out%d.%d.json' % (n, part))
        with SLOTS:
            r = run([ENGINE] + bcs + ['-o', js] + (['-dump', os.path.join(d, 'out%d.%d.ll' % (n, part))] if os.environ.get('SA_KEEP') else []) +
                    ['-sa-shards=%d' % parts, '-sa-shard=%d' % part] + job.get('engine', []) + extra, timeout=800)
        if r.returncode != 0:
            if n:
                return None
            raise Broken('engine failed on %s (%s), rc %d:\n%s' % (tag, cfgname, r.returncode, r.stderr[-3000:]))
        return json.load(open(js))

    def analyse(bcs, n, extra):
        parts = job.get('shards', 1)
        if parts == 1:
            return analyse_part(bcs, n, extra, 0, 1)
        with cf.ThreadPoolExecutor(max_workers=parts) as ex:
            js = list(ex.map(lambda k: analyse_part(bcs, n, extra, k, parts), range(parts)))
        if any(j is None for j in js):
            return None
        j = js[0]
        for k in js[1:]:
            j['residual'] += k['residual']
            j['probes'] += k['probes']
            for key in ('bounds_obligations', 'bounds_constant', 'accesses_unknown_object'):
                j[key] += k[key]
            for key in ('externals', 'analysed_functions', 'unknown_object_locs'):
                j[key] = sorted(set(j[key]) | set(k[key]))
            # a marker counts as reached when some part reaches it, a claim when no part leaves it open
            j['unreached'] = [u for u in j['unreached'] if u in k['unreached']]
            for a, b in zip(j['claims'], k['claims']):
                a['proved'] = a['proved'] and b['proved']
        return j

    bcs = build(units)
    if bcs is None:
        return res
    j = analyse(bcs, 0, [])
    if any('4utki' in e and not e.startswith('_ZT') for e in j['externals']):
        # some code of the library lives in a unit that was not linked
        bcs = build(units + everything)
        if bcs is None:
            return res
        j = analyse(bcs, 0, [])
    ignore = job.get('ignore', lambda r: False)
    # a probe whose obligations are all discharged by some other strategy of the engine is discharged
    for n, extra in enumerate(STRATEGIES):
        todo = {r_['probe'] for r_ in j['residual'] if not ignore(r_)}
        if not todo or n >= job.get('strategies', 99):
            break
        k = analyse(bcs, n + 1, extra)
        if k is None:
            continue
        done = todo - {r_['probe'] for r_ in k['residual'] if not ignore(r_)}
        j['residual'] = [r_ for r_ in j['residual'] if r_['probe'] not in done]
    nclaims = len(j['claims'])
    if nclaims < job.get("min_claims", 1) and all(ignore(r_) for r_ in j["residual"]):
        raise Broken('%s: only %d claims instantiated, expected at least %d' % (tag, nclaims, job.get('min_claims', 1)))
    ob = nclaims + j['bounds_obligations'] + j['bounds_constant'] + j['reach_markers']
    bad = [r_ for r_ in j['residual'] if not ignore(r_)]
    for r_ in bad:
        loc = r_['loc']
        if r_['kind'] == 'claim':
            res.violate('claim', 'claim not discharged%s: %s' % (' (shown false)' if r_.get('refuted') else '', r_['text']),
                        '%s:%s in %s' % (job['probe'], r_['line'], r_['probe']), config=cfgname, path=short(loc), code=sorted(code_under(j, r_['probe'])))
        else:
            res.violate(r_['kind'], r_['text'], repo_frame(loc), config=cfgname, path=short(loc), probe=r_['probe'])
    for u in j['unreached']:
        res.violate('non-vacuity', 'an outcome that has to be possible was shown impossible: ' + u['text'], '%s in %s' % (job['probe'], u['probe']), config=cfgname)
    res.add('obligations', ob)
    res.add('discharged', ob - len(bad) - len(j['unreached']))
    res.add('claims', nclaims)
    res.add('memory_access_obligations', j['bounds_obligations'] + j['bounds_constant'])
    res.add('probes', len(j['probes']))
    res.add('ir_instructions_left', sum(p['instructions'] for p in j['probes']))
    res.analysed |= {short(a) for a in j['analysed_functions']}
    res.cov['configurations'] = [cfgname]
    for c in j['claims'][:3]:
        res.samples.append('%s:%s [%s] %s -> %s' % (job['probe'], c['line'], cfgname, c['text'], 'discharged' if c['proved'] else 'open'))
    return res


def code_under(j, probe):
    return []


WSPLIT = re.compile(r'^//\s*@(ok|reject)\s+(.*)$', re.M)


def witness_job(job, cfgname, tmp):
    """type-level obligations: each snippet of the file must compile (@ok) or must not (@reject)"""
    res = Result()
    path = os.path.join(VERIF, 'probes', job['witness'])
    txt = open(path).read()
    parts = WSPLIT.split(txt)
    prelude = parts[0]
    items = [(parts[i], parts[i + 1].strip(), parts[i + 2]) for i in range(1, len(parts), 3)]
    if not items:
        raise Broken('no witnesses in ' + path)
    okn = rejn = 0
    for n, (kind, text, body) in enumerate(items):
        m = re.match(r'\[([^\]]+)\]\s*(.*)', text)
        if m:
            text = m.group(2)
            if not any(cfgname.startswith(c) for c in m.group(1).split(',')):
                continue
        r = run([CLANG, '-fsyntax-only', '-x', 'c++', '-w'] + CONFIGS[cfgname] + INCLUDES + ['-'], input=prelude + body)
        res.add('obligations', 1)
        okn += kind == 'ok'
        rejn += kind == 'reject'
        if kind == 'ok' and r.returncode != 0:
            compile_failure(res, path, cfgname, r.stderr, 'a correct program (%s)' % text)
        elif kind == 'reject' and r.returncode == 0:
            res.violate('compile-fail witness', 'a program that must be rejected compiles: ' + text, '%s, witness %d' % (job['witness'], n + 1), config=cfgname, program=body.strip())
        else:
            res.add('discharged', 1)
        if len(res.samples) < 3:
            res.samples.append('%s witness [%s]: %s' % (kind, cfgname, text))
    res.add('witnesses_accepting', okn)
    res.add('witnesses_rejecting', rejn)
    res.cov['configurations'] = [cfgname]
    return res


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    import props
    spec = props.PROPS[pid]
    t0 = time.time()
    if not os.path.exists(ENGINE) or any(os.path.getmtime(f) > os.path.getmtime(ENGINE) for f in glob.glob(os.path.join(VERIF, 'sa', '*.inc')) + [os.path.join(VERIF, 'sa', 'sa_engine.cpp')]):
        if spec.needs_engine():
            r = run(['bash', os.path.join(VERIF, 'sa', 'build.sh')], timeout=900)
            if r.returncode != 0:
                print('cannot build the engine:\n' + r.stderr[-3000:], file=sys.stderr)
                return 2
    total = Result()
    tmp = tempfile.mkdtemp(prefix='sa_' + pid + '_')
    try:
        tasks = []
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for job in spec.jobs:
                cfgs = job.get('configs') or (QUICK if TIER == 'quick' else THOROUGH)
                for c in cfgs:
                    f = ir_job if 'probe' in job else witness_job if 'witness' in job else job['rule']
                    tasks.append(ex.submit(f, job, c, tmp))
            for t in tasks:
                total.merge(t.result())
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e), file=sys.stderr)
        return 2
    finally:
        if os.environ.get('SA_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    if total.cov['obligations'] < spec.min_obligations and not total.violations:
        print('ANALYSIS-BROKEN property=%s: only %d obligations' % (pid, total.cov['obligations']), file=sys.stderr)
        return 2
    # known findings
    kf = known_findings(pid)
    seen = set()
    rest = []
    for v in total.violations:
        key = json.dumps(v)
        hit = [k for k in kf if re.search(k[0], key)]
        if hit:
            seen.add(hit[0][1])
        else:
            rest.append(v)
    for s in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, s))
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other',
        'coverage': dict(total.cov, explanation=spec.explanation, rule=spec.rule,
                         functions_analysed=len(total.analysed), functions=sorted(total.analysed)[:60],
                         samples=total.samples[:8]),
        'assumptions': sorted(set(spec.assumptions + total.assumptions)),
        'wall_s': round(time.time() - t0, 2), 'violations': len(rest),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    # one report per distinct construct
    groups = {}
    for v in rest:
        groups.setdefault((v['rule'], v['what'], v['where']), []).append(v)
    for n, (k, vs) in enumerate(sorted(groups.items())[:20]):
        rp = os.path.join(rdir, '%s-%d.json' % (pid, n + 1))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'reproduce': 'cd /verif && %s sa/check.py %s' % (sys.executable, pid), 'violations': vs}, f, indent=1)
        print('%s: [%s] %s (%s)' % (k[2], k[0], k[1], ', '.join(sorted({v.get('config', '') for v in vs}))))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('property %s: %d obligations, %d discharged, %d violations, %.1fs' % (pid, total.cov['obligations'], total.cov['discharged'], len(groups), time.time() - t0))
    return 1 if groups else 0


if __name__ == '__main__':
    sys.exit(main())
