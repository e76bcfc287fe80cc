#!/usr/bin/env python3
"""Development aid: applies each edit under selftest/refactor (which keep the behaviour) or selftest/mutants (which do
not) to a copy of the repository and tells which checks stay quiet.  usage: run.py refactor|mutants [name ...]"""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
def one(kind, name):
    path = os.path.join(HERE, kind, name)
    text = open(path).read()
    props = re.search(r'^checks: *(.*)$', text, re.M).group(1).split()
    d = tempfile.mkdtemp(prefix='sa_self_')
    try:
        for s in ('src', 'src_deps'):
            shutil.copytree(os.path.join('/repo', s), os.path.join(d, s))
        r = subprocess.run(['patch', '-p1', '-s', '-d', d], input=text[text.index('\n--- ') + 1:] if '\n--- ' in text else text, text=True, capture_output=True)
        if r.returncode:
            return name, ['does not apply: ' + r.stdout[:200]]
        out = []
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'sa', 'check.py'), p], env=dict(os.environ, SA_REPO=d), text=True, capture_output=True)
            quiet = r.returncode == 0
            if quiet != (kind == 'refactor'):
                out.append('%s rc=%d %s' % (p, r.returncode, '\n      '.join(x[:220] for x in r.stdout.splitlines()[:4] if not x.startswith('VIOLATION')) + r.stderr[-300:]))
        return name, out
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    kind = sys.argv[1]
    names = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, kind)))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for name, out in ex.map(lambda n: one(kind, n), names):
            print(name, 'ok' if not out else '\n   ' + '\n   '.join(out), flush=True)
            bad += bool(out)
    sys.exit(bool(bad))
