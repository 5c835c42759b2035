#!/usr/bin/env python3
"""Run each planted bug's own check (python3 tools/matrix.py [OUT.md] [ID...]) and tabulate which are caught, by which rule."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug):
    where = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(where + '/meta.json'))
    prop = meta['property']
    top = tempfile.mkdtemp(dir='/tmp', prefix='mx-')
    try:
        repo = top + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        if subprocess.run(['git', '-C', repo, 'apply', where + '/patch.diff'], capture_output=True).returncode:
            return bug, prop, 'patch does not apply', ''
        env = dict(os.environ, SVA_REPO=repo)
        r = subprocess.run([sys.executable, HERE + '/check.py', prop, '--jobs', '2'], cwd=HERE, env=env, capture_output=True, text=True)
        lines = r.stdout.splitlines()
        first = next((re.sub(r'\s+', ' ', l) for l in lines if l.startswith('  ') and not l.startswith('  case')), '')
        cases = sorted(set(m.group(1) for l in lines for m in [re.search(r'\b(case_\w+)', l)] if m))
        state = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'no answer (%d)' % r.returncode)
        return bug, prop, state, ', '.join(cases)[:100] or first.strip()[:100]
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    out = sys.argv[1] if len(sys.argv) > 1 else ''
    ids = sys.argv[2:] or sorted(b for b in os.listdir(HERE + '/seeded') if os.path.isdir(os.path.join(HERE, 'seeded', b)))
    with cf.ThreadPoolExecutor(4) as pool:
        rows = list(pool.map(one, ids))
    text = ['| planted bug | check | outcome | cases that reported it |', '|---|---|---|---|']
    text += ['| %s | %s | %s | %s |' % r for r in rows]
    if out:
        open(out, 'w').write('\n'.join(text) + '\n')
    for r in rows:
        if r[2] != 'caught':
            print(*r)
    print('%d of %d caught' % (sum(r[2] == 'caught' for r in rows), len(rows)))


if __name__ == '__main__':
    main()
