#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'C31': 'quantifies over the values computed by numpy, strftime/strptime, png and base64 codecs composed in both '
           'directions; the structural necessary conditions (same format constant, same keys, each JSON form '
           'understood by its reader, every stored entry written and read) are claimed under C14, C15 and C29, the '
           'value-level round trip itself is not visible in the shape of the code',
    'C32': 'a second application of numeric, unicode and numpy coercions is a statement about runtime values; what is '
           'visible in the code (validate() refuses a stored value that validation would change) is claimed under C05 '
           'and the shape of accepted values under C09, C10 and C19',
    'C33': 'convergence of arbitrary link graphs is a history property over user transforms and coercions; the '
           'structural part (every ordered pair linked, target set to the transformed source, guards) is C21',
}
TECH = 'path-partitioned abstract interpretation of the source under most-general clients (value-provenance domain, ' \
       'k-limited containers)'
NOTE = 'Decides the obligations of the listed clients for every path partition of the current source; unknown values, ' \
       'callbacks and third-party calls are uninterpreted, containers are partitioned by size up to 2, recursion to ' \
       'depth 6. Partitions that depend on a computation the theory does not understand are reported undecided in the ' \
       'evidence, never as alarms. Trusts the interpreter in engine/ and its models of the standard library.'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            m = importlib.import_module('checks.' + pid.lower())
            tech = getattr(m, 'TECHNIQUE', TECH)
            checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s --tier quick' % pid,
                           'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
                           'evidence_file': 'evidence/%s.json' % pid,
                           'technique': tech + (' + structural source rules' if getattr(m, 'LINTS', None) else ''),
                           'level': 'other', 'level_note': getattr(m, 'NOTE', NOTE)})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'check under construction')})
    man = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: nothing of /repo is executed; the checks parse /repo/properties on every run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [n['property'] for n in na])


main()
