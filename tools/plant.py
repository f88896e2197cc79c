"""Plant a bug: python3 tools/plant.py SPEC.py...

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (source of a small program, run with cwd at the repository root).  The bug
is made in a scratch copy of /repo and kept under seeded/ID only if it touches
lines of the original repository, passes the stable tests, and its demo tells
the two trees apart.
"""
import json, os, re, shutil, subprocess, sys, xml.etree.ElementTree as ET
BASE = '0d6b4ce'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYNPUT_BACKEND=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
SCRATCH=$scratch timeout 250 /opt/pypyvenv/bin/pypy3 "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env(wt):
    e = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
             PYNPUT_BACKEND='dummy', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1')
    e['PATH'] = '/opt/pypyvenv/bin:/usr/bin:/bin'
    return e


def tests(wt):
    rep = wt + '/report.xml'
    sh('/opt/pypyvenv/bin/pypy3 -m pytest -q tests -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s' % rep, cwd=wt, env=env(wt))
    bad = []
    n = 0
    for tc in ET.parse(rep).getroot().iter('testcase'):
        n += 1
        if any(c.tag in ('failure', 'error') for c in tc):
            bad.append(tc.get('classname') + '::' + tc.get('name'))
    return n, bad


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    bid = ns['ID']
    wt = '/tmp/plant_%s' % bid
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r in %s' % (bid, s.count(old), old, f)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff --no-color', cwd=wt).stdout
        # original lines changed?
        orig = 0
        for f in {e[0] for e in ns['EDITS']}:
            removed = set()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- ' + f, cwd=wt).stdout, re.M):
                a, c = int(m.group(1)), int(m.group(2) or 1)
                removed.update(range(a, a + c))
            blame = sh('git blame -s --abbrev=10 HEAD -- ' + f, cwd=wt).stdout.splitlines()
            old = subprocess.check_output(['git', 'rev-list', BASE], cwd=wt, text=True).split()
            for i in removed:
                h = blame[i - 1].lstrip('^').split()[0]
                orig += any(o.startswith(h) for o in old)
        if not orig:
            return bid + ': touches no original line'
        n, bad0 = tests(wt) if any(f.endswith('.c') for f, *_ in ns['EDITS']) is None else (0, [])
        if any(f.endswith('.c') for f, *_ in ns['EDITS']):
            o = sh('rm -f klang/audio/*.so; /opt/pypyvenv/bin/pypy3 setup.py build_ext --inplace --force', cwd=wt, env=env(wt))
            if o.returncode or 'Failed to built' in o.stdout:
                return bid + ': does not build\n' + o.stdout
        n, bad = tests(wt)
        base = json.load(open('/opt/vp/BASELINE.json'))
        if bad or n < 194:
            return '%s: tests: %d %s' % (bid, n, bad)
        out = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        good = sh('bash %s/demo.sh' % out, cwd='/repo', env=dict(os.environ))
        broken = sh('bash %s/demo.sh' % out, cwd=wt, env=dict(os.environ))
        if good.returncode != 0 or broken.returncode == 0:
            shutil.rmtree(out)
            return '%s: demo: unchanged=%d\n%s\nbroken=%d\n%s' % (bid, good.returncode, good.stdout[-1500:], broken.returncode, broken.stdout[-1500:])
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        return '%s: planted (%d original lines); %s' % (bid, orig, broken.stdout.strip().splitlines()[-1] if broken.stdout.strip() else '')
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(main, sys.argv[1:]):
            print(r, flush=True)
