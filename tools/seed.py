#!/usr/bin/env python3
"""Builds and confirms the planted bugs described in tools/seeds/*.py.

Each file defines ID, PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (python source).
For each one: patch against /repo's HEAD in a scratch copy, demo passes before
and fails after, the stable tests pass after; then the checks are run on the
scratch copy.  usage: seed.py [ID ...] [--checks-only] [--all-checks]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour holds
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$(mktemp -d)"
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -W ignore "$D/demo.py"
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=d + '/.pyc', PYTHONHASHSEED='0',
               PATH='/opt/venv/bin:' + os.environ['PATH'])
    run([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2',
         '--junitxml=' + d + '/.j.xml'], d, env=env)
    r = run([PY, '/opt/vp/results.py', d + '/.out.json', 'junit:' + d + '/.j.xml'], d, env=env)
    out = json.load(open(d + '/.out.json'))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    only_checks = '--checks-only' in sys.argv
    man = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    for f in sorted(glob.glob(HERE + '/tools/seeds/*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        sid = ns['ID']
        if args and sid not in args and ns['PROPERTY'] not in args:
            continue
        d = tempfile.mkdtemp(prefix='seed.')
        try:
            run(['git', 'clone', '-q', '/repo', d + '/r'], '/')
            r = d + '/r'
            out = HERE + '/seeded/' + sid
            os.makedirs(out, exist_ok=True)
            open(out + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + ns['DEMO'].lstrip('\n'))
            open(out + '/demo.sh', 'w').write(SH)
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                      open(out + '/meta.json', 'w'), indent=1)
            msg = []
            b = run(['bash', out + '/demo.sh'], r)
            if b.returncode:
                msg.append('DEMO FAILS BEFORE: ' + b.stderr[-300:])
            for fn, old, new in ns['EDITS']:
                p = r + '/' + fn
                s = open(p).read()
                if s.count(old) != 1:
                    msg.append('EDIT NOT UNIQUE (%d): %s' % (s.count(old), old))
                open(p, 'w').write(s.replace(old, new, 1))
            diff = run(['git', 'diff'], r).stdout
            open(out + '/patch.diff', 'w').write(diff)
            # only lines of the original repository may change
            base = run(['git', 'log', '--format=%h', '--reverse'], r).stdout.split()[0]
            for fn in {e[0] for e in ns['EDITS']}:
                bl = run(['git', 'blame', '-s', '--abbrev=40', 'HEAD', '--', fn], r).stdout.split('\n')
                cur = 0
                for line in run(['git', 'diff', '-U0', '--', fn], r).stdout.split('\n'):
                    if line.startswith('@@'):
                        a = line.split()[1][1:].split(',')
                        st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        for i in range(st, st + n):
                            if not bl[i - 1].lstrip('^').startswith(base):
                                msg.append('changes a line of a later commit: ' + bl[i - 1][-90:])
            a = run(['bash', out + '/demo.sh'], r)
            if a.returncode == 0:
                msg.append('DEMO PASSES AFTER')
            if not only_checks:
                t = tests(r)
                passed = t.get('passed') or t.get('pass') or []
                ps = set(passed)
                miss = stable() - ps
                if miss:
                    msg.append('TESTS BREAK: %s' % sorted(miss)[:4])
            pids = man if '--all-checks' in sys.argv else [ns['PROPERTY']]
            res = []
            for pid in pids:
                if pid not in man:
                    continue
                c = run([sys.executable, HERE + '/run.py', pid, '--root', r], HERE)
                if c.returncode == 1:
                    res.append(pid + ':' + c.stdout.strip().split('\n')[0][:140])
                elif c.returncode != 0:
                    res.append(pid + ':EXIT %d' % c.returncode)
            print('%-28s %s %s | caught: %s' % (sid, ns['PROPERTY'], '; '.join(msg) or 'ok', ' || '.join(res) or 'NO'),
                  flush=True)
        finally:
            shutil.rmtree(d)


main()
