#!/usr/bin/env python3
"""seed.py FILE: plant one bug.  FILE is a python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(d, *cmd):
    return subprocess.run(cmd, cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def plant(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO, check=True):
    wt = tempfile.mkdtemp(prefix='wt')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
        d = os.path.join(ROOT, 'seeded', ID)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(DEMO.strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=PROPERTY, needs=NEEDS, what_it_breaks=BREAKS), open(d + '/meta.json', 'w'), indent=1)
        r = run(wt, 'bash', d + '/demo.sh')
        ok = True
        if r.returncode:
            print(ID, 'DEMO FAILS ON CLEAN TREE', r.stdout[-800:]); ok = False
        for f, old, new in EDITS:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ID, 'EDIT matches %d times in %s: %r' % (s.count(old), f, old)); return False
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=wt, text=True))
        r = run(wt, 'bash', d + '/demo.sh')
        if r.returncode == 0:
            print(ID, 'DEMO PASSES WITH PATCH'); ok = False
        r = run(wt, '/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests')
        t = r.stdout.strip().splitlines()[-1]
        if ' failed' in t or 'error' in t:
            print(ID, 'TESTS:', t, [l for l in r.stdout.splitlines() if l.startswith('FAILED')][:5]); ok = False
        if not ok:
            shutil.rmtree(d)
            return False
        msg = ''
        if check:
            r = subprocess.run(['python3-vt', os.path.join(ROOT, 'check.py'), PROPERTY], cwd=ROOT, env=dict(os.environ, PYVC_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            msg = 'rc=%d %s' % (r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:2] or r.stdout[-300:])
        print(ID, 'planted;', msg)
        return True
    finally:
        shutil.rmtree(wt)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns['BUGS']:
            plant(**b)
