#!/usr/bin/env python3
"""trymut.py 'C01 C02' FILE OLD NEW [FILE OLD NEW ...]: run checks on a scratch copy with an edit."""
import os, shutil, subprocess, sys, tempfile
ids = sys.argv[1].split()
d = tempfile.mkdtemp(prefix='mut.')
shutil.copytree('/repo/properties', d + '/properties', ignore=shutil.ignore_patterns('__pycache__'))
a = sys.argv[2:]
for f, old, new in zip(a[0::3], a[1::3], a[2::3]):
    p = d + '/properties/' + f
    s = open(p).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    if s.count(old) < 1:
        print('NOT FOUND', old)
        shutil.rmtree(d)
        sys.exit(3)
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
for i in ids:
    r = subprocess.run([sys.executable, '/verif/run.py', i, '--root', d], capture_output=True, text=True)
    out = r.stdout.strip().split('\n')
    print('%s exit %d  %s' % (i, r.returncode, (out[0] if r.returncode == 1 else out[-1])[:200]))
    if r.stderr:
        print(r.stderr[-400:])
shutil.rmtree(d)
