#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and keep them under seeded/ (python3 tools/plant.py BUGS.py [ID...]).

BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('PLANT_WT', '/tmp/wt')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
           OPENBLAS_CORETYPE='Prescott', OPENBLAS_NUM_THREADS='1')
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.isdir(WT):
        sh(['cp', '-a', '/repo', WT])
    sh(['git', '-C', WT, 'fetch', '-q', '/repo', 'HEAD'])
    sh(['git', '-C', WT, 'checkout', '-q', '-f', '--detach', sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.strip()])
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])


def stable_ok():
    work = tempfile.mkdtemp(dir='/tmp')
    x = subprocess.Popen('exec Xvfb -displayfd 3 -screen 0 1280x1024x24 -nolisten tcp 3>%s/display >/dev/null 2>&1' % work, shell=True)
    try:
        import time
        for _ in range(100):
            if os.path.exists(work + '/display') and os.path.getsize(work + '/display'):
                break
            time.sleep(0.1)
        env = dict(ENV, PYTHONPATH=WT, TMPDIR=work, DISPLAY=':' + open(work + '/display').read().strip())
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
            '-o', 'python_functions=NONE_', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % work, 'tests'], cwd=WT, env=env)
        sh(['/usr/bin/python3', '/opt/vp/results.py', work + '/out.json', 'junit:%s/junit.xml' % work])
        text = json.load(open(work + '/out.json'))
    finally:
        x.kill()
        shutil.rmtree(work, ignore_errors=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(text.get('passed', []))
    return sorted(stable - passed)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for bug in ns['BUGS']:
        if only and bug['id'] not in only:
            continue
        fresh()
        problems = []
        for f, old, new in bug['edits']:
            p = os.path.join(WT, f)
            src = open(p).read()
            if src.count(old) != 1:
                problems.append('%s: %d matches of %r' % (f, src.count(old), old[:60]))
                continue
            start = src[:src.index(old)].count('\n') + 1
            open(p, 'w').write(src.replace(old, new))
        diff = sh(['git', '-C', WT, 'diff', '--no-color']).stdout
        # removed lines must come from the original repository
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                fname = line[6:]
                blame = sh(['git', '-C', '/repo', 'blame', '-l', '--root', fname]).stdout.splitlines()
            m = re.match(r'@@ -(\d+)', line)
            if m:
                cur = int(m.group(1))
            elif cur is not None and line.startswith('-') and not line.startswith('---'):
                if not blame[cur - 1].lstrip('^').startswith(BASE[:39]):
                    problems.append('changes a line of a fix commit: ' + line)
                cur += 1
            elif cur is not None and line.startswith(' '):
                cur += 1
        if not diff:
            problems.append('no diff')
        if problems:
            print('%-8s REJECTED %s' % (bug['id'], problems))
            continue
        out = os.path.join('/tmp/plant', bug['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        good = sh(['bash', out + '/demo.sh'], cwd='/repo', env=dict(ENV))
        bad = sh(['bash', out + '/demo.sh'], cwd=WT, env=dict(ENV, PYTHONPATH=WT))
        broken = stable_ok()
        chk = sh(['python3', HERE + '/check.py', bug['property']], cwd=HERE, env=dict(os.environ, SVA_REPO=WT, SVA_NO_EVIDENCE='1'))
        last = [l for l in chk.stdout.splitlines() if l.strip()]
        ok = good.returncode == 0 and bad.returncode != 0 and not broken
        print('%-8s %s %s demo=%d/%d tests_lost=%s check=%d %s' % (
            bug['id'], bug['property'], 'KEPT' if ok else 'REJECTED', good.returncode, bad.returncode, broken[:2], chk.returncode,
            '' if chk.returncode != 1 else [l.strip() for l in last if l.strip().startswith('msg')][:1]))
        if good.returncode:
            print(good.stdout[-500:], good.stderr[-1500:])
        if ok:
            if os.environ.get('PLANT_SHOW'):
                print(bad.stderr[-300:])
            dst = os.path.join(HERE, 'seeded', bug['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        fresh()


main()
