#!/usr/bin/env python3
"""Decide one property of x7-geom from its source.

    python3 check.py C05 [--tier quick|thorough] [--case TEXT] [-v]

Loads /repo's current source (SVA_REPO overrides, for scratch copies), interprets the rules of specs/<id>.py
abstractly, and reports each obligation as proved, violated or undecided.
Exit 0: no violation.  Exit 1: VIOLATION line.  Exit 2: the analysis itself is broken (anchors vanished).
"""
import argparse
import fnmatch
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sva.scen import Analysis, AnchorMissing        # noqa: E402

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
A = CASES = MODULE = None
CASE_BUDGET = {'quick': 60, 'thorough': 400}
TOTAL_BUDGET = {'quick': 600, 'thorough': 10000}

ASSUMPTIONS = [
    'numbers are exact reals: rounding error, overflow and NaN are outside the analysis',
    'numpy, math, Pillow, scipy, bezier and x7.lib behave as in their models (sva/models.py)',
    'objects are built through their public constructors; container lengths are those of the instances listed per case',
    'callers respect the documented argument types',
]


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) case=(.+?) obligation=(.+?) -- (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def work(i):
    fname, combo, desc = CASES[i]
    t = time.time()
    try:
        r = A.run_case(MODULE, fname, combo, desc, CASE_BUDGET[A.tier])
    except AnchorMissing as e:
        r = {'case': desc, 'obligations': [], 'undecided': [], 'functions': [], 'anchor': str(e)}
    except MemoryError:
        r = {'case': desc, 'obligations': [], 'undecided': [{'msg': 'memory', 'why': 'memory'}], 'functions': []}
    except BaseException as e:      # noqa: a defect of the analyser must not look like a verdict
        r = {'case': desc, 'obligations': [], 'functions': [],
             'undecided': [{'msg': 'analyser', 'why': ''.join(traceback.format_exception(e))[-1500:]}]}
    r['wall'] = round(time.time() - t, 2)
    return i, r


def main():
    global A, CASES, MODULE
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default='')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', '--verbose', action='store_true')
    args = ap.parse_args()
    tier = args.tier if args.tier in CASE_BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        A = Analysis(tier, seed)
        MODULE, cases = A.spec_cases(args.prop.lower())
    except AnchorMissing as e:
        print('ANALYSIS-BROKEN property=%s anchor missing: %s' % (args.prop, e))
        return 2
    CASES = [c for c in cases if args.case in c[2]]
    results = {}
    timed_out = []
    ctx = mp.get_context('fork')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    # longest cases first would need history; deal them out one by one instead
    with ctx.Pool(args.jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(work, range(len(CASES)))
        for _ in CASES:
            left = TOTAL_BUDGET[tier] - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                break
            results[i] = r
            if args.verbose:
                print('%-70s %6.2fs proved=%d/%d und=%d' % (
                    r['case'][:70], r['wall'], sum(o['status'] == 'proved' for o in r['obligations']),
                    len(r['obligations']), len(r['undecided'])))
        pool.terminate()
    timed_out = [CASES[i][2] for i in range(len(CASES)) if i not in results]

    obligations = [(r['case'], o) for i, r in sorted(results.items()) for o in r['obligations']]
    undecided = [(r['case'], o) for i, r in sorted(results.items()) for o in r['undecided']]
    anchors = [(r['case'], r['anchor']) for r in results.values() if r.get('anchor')]
    proved = [x for x in obligations if x[1]['status'] == 'proved']
    bad = [x for x in obligations if x[1]['status'] == 'violated']
    undec = [x for x in obligations if x[1]['status'] == 'undecided']
    functions = sorted({f for r in results.values() for f in r['functions']})

    findings = known_findings(args.prop)
    seen_findings, fresh = {}, []
    for case, o in bad:
        for k, (c, m, what) in enumerate(findings):
            if fnmatch.fnmatchcase(case, c) and fnmatch.fnmatchcase(o['msg'], m):
                seen_findings[k] = what
                break
        else:
            fresh.append((case, o))

    wall = time.time() - t0
    by_rule = {}
    for case, o in obligations:
        f = case.split('[')[0].split('(')[0].strip()
        by_rule.setdefault(f, [0, 0])
        by_rule[f][0] += 1
        by_rule[f][1] += o['status'] == 'proved'
    evidence = {
        'property': args.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of %s as parsed on this run: every rule of specs/%s.py builds most '
                           'general instances of the public classes (all numbers and words unknown), interprets the '
                           'code under analysis over a value-numbering domain with joins at merge points, and '
                           'discharges its obligations on the resulting normal forms and heap effects. No code of the '
                           'repository is executed.' % (A.I.root if hasattr(A.I, 'root') else '/repo', args.prop.lower()),
            'obligations': len(obligations), 'discharged': len(proved), 'violated': len(bad), 'undecided': len(undec),
            'cases': len(CASES), 'cases_analysed': len(results),
            'cases_not_finished': len(undecided) + len(timed_out),
            'rule': (MODULE_DOC(A, args.prop) or '').strip(),
            'obligations_per_rule': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(by_rule.items())},
            'functions_analysed': len(functions), 'functions': functions,
            'modules': list(A.modules_loaded) if hasattr(A, 'modules_loaded') else [],
            'interpretation_steps': sum(r.get('steps', 0) for r in results.values()),
            'samples': [{'case': c, 'obligation': o['msg'], 'status': o['status']}
                        for c, o in obligations[::max(1, len(obligations) // 12)]][:14],
            'undecided_samples': ([{'case': c, 'obligation': o['msg'], 'why': str(o.get('why', ''))[:200]}
                                   for c, o in undec + undecided] + [{'case': c, 'why': 'time'} for c in timed_out])[:40],
            'known_findings': sorted(seen_findings.values()),
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(fresh),
    }
    # runs against a scratch copy leave /verif/evidence alone
    evdir = os.path.join(HERE, 'evidence') if 'SVA_REPO' not in os.environ else os.path.join(tempfile.gettempdir(), 'sva-evidence')
    os.makedirs(evdir, exist_ok=True)
    if not args.case:
        with open(os.path.join(evdir, args.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    for k, what in sorted(seen_findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (args.prop, what))
    if args.verbose:
        for c, o in undec + undecided:
            print('UNDECIDED %s: %s: %s' % (c, o['msg'], str(o.get('why', ''))[:1500]))
        for c in timed_out:
            print('NOT FINISHED %s' % c)
    print('%s %s: %d cases, %d obligations, %d proved, %d violated, %d undecided, %d functions, %.1fs' % (
        args.prop, tier, len(CASES), len(obligations), len(proved), len(bad), len(undec) + len(undecided) + len(timed_out),
        len(functions), wall))
    if fresh:
        path = os.path.join(evdir, args.prop + '.violations.json')
        with open(path, 'w') as f:
            json.dump([dict(o, case=c) for c, o in fresh], f, indent=1, default=str)
        for c, o in fresh[:8 if not args.verbose else 100]:
            print('  %s' % c)
            for k in ('msg', 'exception', 'path', 'got', 'expected', 'shared', 'where', 'last_write', 'entries', 'witness'):
                if o.get(k) not in (None, '', [], {}):
                    print('      %-10s %s' % (k, str(o[k])[:600]))
        if len(fresh) > 8 and not args.verbose:
            print('  ... and %d more, see %s' % (len(fresh) - 8, path))
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if anchors:
        print('ANALYSIS-BROKEN property=%s: %s' % (args.prop, anchors[0]))
        return 2
    if not args.case and not proved:
        print('ANALYSIS-BROKEN property=%s: nothing could be decided' % args.prop)
        return 2
    return 0


def MODULE_DOC(a, prop):
    import ast
    try:
        return ast.get_docstring(ast.parse(open(os.path.join(HERE, 'specs', prop.lower() + '.py')).read()))
    except OSError:
        return None


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':     # same order of sets on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
