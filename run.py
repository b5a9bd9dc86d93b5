#!/usr/bin/env python3
"""Decide one property: run.py ID [--tier quick|thorough] [--root DIR] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import explore                                   # noqa: E402
from engine.program import LoadError                         # noqa: E402


def statements(prog):
    import ast
    out = set()
    for name, tree in prog.trees.items():
        rel = prog.files[name][0]
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                body = n.body if isinstance(n.body, list) else []
                for s in body:
                    for m in ast.walk(s):
                        if isinstance(m, ast.stmt) and not (isinstance(m, ast.Expr) and isinstance(m.value, ast.Constant)):
                            out.add((rel, m.lineno))
    return out


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line[len('finding: property=%s ' % pid):]
                key, _, what = rest.partition(' | ')
                out.append((key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 2))
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = importlib.import_module('checks.' + a.pid.lower())
    scs = mod.scenarios()
    if a.only:
        scs = [s for s in scs if a.only in s.name]
    try:
        prog = explore.load(a.root)
    except LoadError as e:
        print('ERROR: cannot analyse %s: %s' % (a.root, e))
        return 2
    if prog.errors:
        print('ERROR: the package cannot be loaded: ' + '; '.join(prog.errors))
        return 2
    if a.replay:
        rec = json.load(open(a.replay))
        sc = [s for s in scs if s.name == rec['scenario']]
        if not sc:
            print('no such scenario')
            return 2
        it, (st, v) = explore.run_path(prog, sc[0], rec['script'])
        if st == 'violation':
            print(json.dumps(explore.report(it, v, rec['script'], sc[0]), indent=1))
            return 1
        print('the path no longer violates the rule (%s)' % st)
        return 0
    lints = []
    for f in getattr(mod, 'LINTS', []):
        lints.append(f(prog))
    _, results = explore.run_scenarios(scs, tier, a.root, a.jobs, prog)

    known = known_findings(a.pid)
    viol, seen_known = [], set()
    errors = [r for r in results if r.error]
    for r in results:
        for v in r.violations:
            for key, what in known:
                if key == v['scenario'] + '#' + v['rule']:
                    seen_known.add((key, what))
                    break
            else:
                viol.append(v)
    for l in lints:
        viol.extend(l['violations'])
    allst = statements(prog)
    cov = set()
    vis = set()
    for r in results:
        cov |= r.covered
        vis |= r.visited
    vis = sorted(x for x in vis if x.startswith('properties'))
    paths = sum(r.paths for r in results)
    obl = sum(r.obligations for r in results) + sum(l['obligations'] for l in lints)
    dis = sum(r.discharged for r in results) + sum(l['obligations'] - len(l['violations']) for l in lints)
    samples = []
    for r in results[:6]:
        samples.append({'scenario': r.name, 'obligations': [m for _, m in sorted(r.lines)][:6],
                        'example partition': r.partitions[-1] if r.partitions else []})
    coverage = {
        'explanation': 'Path-partitioned abstract interpretation of the current source of %s under most general '
                       'clients: %s' % (a.root, (mod.__doc__ or '').strip().split('\n')[0]),
        'rule': 'each obligation must hold in every feasible path partition of its client; an obligation that '
                'fails on a partition whose conditions are all understood is a violation',
        'obligations': obl, 'discharged': dis,
        'scenarios': len(results), 'path_partitions': paths,
        'infeasible': sum(r.infeasible for r in results),
        'complete_scenarios': sum(1 for r in results if r.complete),
        'truncated_scenarios': [r.name for r in results if not r.complete],
        'bounded_paths': {r.name: r.truncated for r in results if r.truncated},
        'undecided': [{'scenario': u['scenario'], 'rule': u['rule'], 'because': u['undecided because']}
                      for r in results for u in r.undecided][:20],
        'functions_analysed': vis, 'functions_count': len(vis),
        'library_statements_covered': len([c for c in cov if c in allst]),
        'library_statements_total': len(allst),
        'structural_rules': [{k: l[k] for k in ('rule', 'obligations', 'sites')} for l in lints],
        'samples': samples,
    }
    ev = {'property': a.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': coverage, 'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    with open(os.path.join(evd, a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in sorted(results, key=lambda r: -r.wall):
            print('%-34s paths %5d%s obligations %6d/%-6d infeasible %d truncated %s undecided %d viol %d  %.2fs' % (
                r.name, r.paths, '' if r.complete else '+', r.discharged, r.obligations, r.infeasible,
                sum(r.truncated.values()), len(r.undecided), len(r.violations), r.wall))
            if r.truncated:
                print('     ', r.truncated)
            for u in r.undecided[:2]:
                print('      undecided:', u['rule'], '|', u['undecided because'])
    for r in errors:
        print('ERROR in scenario %s:\n%s' % (r.name, '\n'.join(r.error.strip().split('\n')[-7:])))
    for key, what in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, what))
    if viol:
        path = os.path.join(evd, 'replay', a.pid + '.json')
        with open(path, 'w') as f:
            json.dump(viol[0], f, indent=1, default=str)
        with open(os.path.join(evd, 'replay', a.pid + '.all.json'), 'w') as f:
            json.dump(viol, f, indent=1, default=str)
        for v in viol[:5]:
            print('  %s: %s [%s]' % (v['scenario'], v['rule'], v.get('construct')))
            for c in (v.get('path condition') or [])[-6:]:
                print('      when ' + str(c)[:200])
            d = v.get('detail')
            print('      ' + json.dumps(d, default=str)[:500])
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
        return 1
    if errors:
        return 2
    print('%s: %d obligations discharged over %d partitions of %d scenarios in %.1fs' % (
        a.pid, dis, paths, len(results), time.time() - t0))
    return 0


ASSUMPTIONS = [
    'unknown containers are partitioned by size 0..K (K=2) with distinguished elements',
    'recursion of the analysed code is followed to depth 6 per function',
    'library calls (numpy, json, uuid, datetime, vectormath, png) are uninterpreted functions with declared result types',
    'no other thread runs and client classes do not redefine dunder protocol methods except as written in the client',
]

if __name__ == '__main__':
    sys.exit(main())
