#!/usr/bin/env python3
"""List planted bugs that no longer apply or that change lines our own commits added."""
import os, re, subprocess
def sh(*c): return subprocess.run(c, capture_output=True, text=True).stdout
base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').strip()
blames = {}
for d in sorted(os.listdir('/verif/seeded')):
    p = '/verif/seeded/%s/patch.diff' % d
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode:
        print('does not apply:', d); continue
    cur = None; bad = []
    for line in open(p).read().splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            if f not in blames: blames[f] = sh('git', '-C', '/repo', 'blame', '-l', '--root', f).splitlines()
            cur = None
        m = re.match(r'@@ -(\d+)', line)
        if m: cur = int(m.group(1))
        elif cur is not None and line.startswith('-') and not line.startswith('---'):
            if not blames[f][cur-1].lstrip('^').startswith(base[:39]): bad.append(line)
            cur += 1
        elif cur is not None and line.startswith(' '): cur += 1
    if bad: print('fix line:', d, bad[:1])
