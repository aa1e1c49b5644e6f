#!/usr/bin/env python3
"""seed.py DEFS.py [ID...]: make and confirm planted bugs (never part of a check).

DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the repository: exit 0 if the behaviour is right
export MKL_THREADING_LAYER=SEQUENTIAL OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=$PWD exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, MKL_THREADING_LAYER='SEQUENTIAL', OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    stable = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    names = sorted({t.split('.')[1] for t in stable})
    for s in seeds:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix='seedrepo')
        try:
            sh(['cp', '-a', '/repo/.', d], '/')
            base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], d).stdout.split()
            for f, old, new in s['edits']:
                p = os.path.join(d, f)
                t = open(p).read()
                assert t.count(old) >= 1, (s['id'], 'not found', old)
                assert t.count(old) == 1 or s.get('first'), (s['id'], 'ambiguous', old)
                open(p, 'w').write(t.replace(old, new, 1))
            patch = sh(['git', 'diff'], d).stdout
            out = os.path.join(V, 'seeded', s['id'])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            open(os.path.join(out, 'demo.sh'), 'w').write(SH)
            open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            # changed lines have to be original ones
            blame = []
            for line in sh(['git', 'diff', '-U0'], d).stdout.splitlines():
                if line.startswith('--- a/'):
                    cur = line[6:]
                elif line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        b = sh(['git', 'blame', '-s', '-L', '%s,+%d' % (a[0], n), 'HEAD', '--', cur], d).stdout
                        blame += [x.split()[0].lstrip('^') for x in b.splitlines()]
            orig = sum(b.startswith('17b0a8c') for b in blame)
            a = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
            b = sh(['bash', os.path.join(out, 'demo.sh')], d)
            t = sh(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] +
                   ['tests/%s.py' % n for n in names], d, env=dict(ENV, PYTHONPATH=d))
            r = sh(['python3', os.path.join(V, 'harness/run.py'), s['prop']], V, env=dict(os.environ, ANGLER_REPO=d))
            hit = [x.strip() for x in r.stdout.splitlines() if ' step ' in x][:1]
            print('%-6s %s  clean=%d bug=%d(%s) original-lines=%d/%d  tests: %s | check rc=%d %s' % (
                s['id'], s['prop'], a.returncode, b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:], orig, len(blame),
                t.stdout.strip().splitlines()[-1], r.returncode, hit), flush=True)
            if a.returncode:
                print(a.stdout[-500:], a.stderr[-1500:])
        finally:
            shutil.rmtree(d)


main()
