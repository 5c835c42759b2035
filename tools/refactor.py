#!/usr/bin/env python3
"""Run every check on behaviour-preserving rewrites of the code: all must stay quiet.

    python3 tools/refactor.py REFS.py [ID...] [--checks C01,C02] [--no-tests]
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           OPENBLAS_CORETYPE='Prescott', OPENBLAS_NUM_THREADS='1', DISPLAY=':78')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('refs')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', default='')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    ns = {}
    exec(open(a.refs).read(), ns)
    checks = a.checks.split(',') if a.checks else [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    base = {}
    for c in checks:
        try:
            base[c] = json.load(open('%s/evidence/%s.json' % (HERE, c)))['coverage']['undecided']
        except (OSError, KeyError):
            base[c] = 0
    x = subprocess.Popen('exec Xvfb :78 -screen 0 1280x1024x24 -nolisten tcp >/dev/null 2>&1', shell=True)
    bad = 0
    try:
        for ref in ns['REFS']:
            if a.ids and ref['id'] not in a.ids:
                continue
            wt = tempfile.mkdtemp(prefix='rf-', dir='/tmp')
            shutil.rmtree(wt)
            shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            try:
                for f, old, new in ref['edits']:
                    s = open(wt + '/' + f).read()
                    if s.count(old) != 1:
                        print('!! %s: %d matches in %s for %r' % (ref['id'], s.count(old), f, old[:60]))
                        bad += 1
                    open(wt + '/' + f, 'w').write(s.replace(old, new, 1))
                if not a.no_tests:
                    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors',
                                    '-o', 'python_functions=NONE_', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % wt, 'tests'],
                                   cwd=wt, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
                    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', wt + '/out.json', 'junit:%s/junit.xml' % wt], capture_output=True)
                    miss = sorted(STABLE - set(json.load(open(wt + '/out.json')).get('passed', [])))
                    if miss:
                        print('!! %s: not equivalent, tests fail: %s' % (ref['id'], miss[:4]))
                        bad += 1

                def one(c):
                    q = subprocess.run(['python3', HERE + '/check.py', c, '--jobs', '2', '-v'], env=dict(os.environ, SVA_REPO=wt, VERIF_TIER='quick'),
                                       capture_output=True, text=True, cwd=HERE)
                    return c, q.returncode, q.stdout + q.stderr
                with ThreadPoolExecutor(4) as ex:
                    for c, rc, out in ex.map(one, checks):
                        line = [l for l in out.split('\n') if 'cases,' in l][-1:] or ['?']
                        und = int(line[0].split(' undecided')[0].split()[-1]) if 'undecided' in line[0] else -1
                        if rc != 0:
                            bad += 1
                            print('** %s %s rc=%d' % (ref['id'], c, rc))
                            i = out.find(line[0])
                            print('\n'.join('      ' + l for l in out[i:].split('\n')[:14]))
                        elif und > base[c]:
                            print('-- %s %s undecided %d (was %d)' % (ref['id'], c, und, base[c]))
                            print('\n'.join('      ' + l[:220] for l in [l for l in out.split('\n') if l.startswith(('UNDECIDED', 'NOT FIN'))][:3]))
                print('done', ref['id'], flush=True)
            finally:
                if not a.keep:
                    shutil.rmtree(wt, ignore_errors=True)
    finally:
        x.kill()
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
