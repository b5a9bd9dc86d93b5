"""Enumerates the path partitions of the scenarios of one property and decides
its obligations."""
import functools
import json
import os
import sys
import time
import traceback
import multiprocessing

from .terms import is_const, cval, T, C, Term, show, leaves, ext, bi, skey
from .interp import AbsRaise, Signal, PathAbort
from .execu import EndlessRecursion
from .client import ClientEngine, Violation
from . import theory
from .program import Program, LoadError

UNDERSTOOD = ('is', 'eq', 'lt', 'isinst', 'subcls', 'truthy', 'callable', 'hasattr', 'in', 'not', 'size',
              'raises', 'pick', 'len', 'typeof', 'attr', 'item', 'elem', 'tuple', 'ismapping')


class Scenario(object):
    def __init__(self, name, src, paths=400, steps=60000, K=2, vocab=(), wall=40, note='', rule=None,
                 allow_raise=False, thorough=4, rec=None, ends=False, hostile=False):
        self.name = name
        self.src = src
        self.paths = paths
        self.steps = steps
        self.K = K
        self.vocab = set(vocab)
        self.wall = wall
        self.note = note
        self.allow_raise = allow_raise
        self.thorough = thorough
        self.rec = rec or (24 if ends else None)
        self.ends = ends
        self.hostile = hostile


class Result(object):
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.truncated = {}
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.complete = False
        self.visited = set()
        self.covered = set()
        self.lines = set()
        self.wall = 0
        self.error = None
        self.partitions = []


def shapes(t, out):
    """Computations of unknown meaning inside a term."""
    if isinstance(t, tuple):
        for x in t:
            shapes(x, out)
        return out
    if not isinstance(t, Term):
        return out
    o = t.op
    if o == 'call':
        f = t.args[0]
        if f.op == 'sym':
            pass
        else:
            out.add(('call', show(f)))
    elif o == 'mcall':
        out.add(('mcall', t.args[1]))
    elif o in ('op', 'str'):
        out.add((o, str(t.args[0])))
    elif o in ('newtuple', 'unknown', 'fstr', 'exc'):
        if o != 'exc':
            out.add((o,))
    for x in t.args:
        shapes(x, out)
    return out


def unknown_ext(t):
    """isinstance tests against classes the theory knows nothing about."""
    return False


def next_script(trail):
    t = list(trail)
    while t:
        c, n = t[-1]
        if c + 1 < n:
            return [x for x, _ in t[:-1]] + [c + 1]
        t.pop()
    return None


def run_path(prog, sc, script):
    it = ClientEngine(prog, script)
    it.max_steps = sc.steps
    it.K = sc.K
    if sc.rec:
        it.MAX_REC = sc.rec
        it.MAX_DEPTH = 60 + 5 * sc.rec
    it.endless = sc.ends
    it.imprecise_why = list(prog.load_imprecise)
    it.setup(sc.name, sc.src)
    if sc.hostile:
        it.raises = functools.partial(theory.hostile, it)
    status = ('ok', None)
    try:
        it.run_client()
    except Violation as v:
        status = ('violation', v)
    except AbsRaise as e:
        cls = it.typeof(e.exc)
        nm = it.cname(cls) if cls is not None else show(e.exc)
        where = str(e.where)
        if nm in ('builtins.NameError', 'builtins.ImportError') and where.startswith('client:'):
            status = ('abort', 'client: ' + nm + ' at ' + where)
        else:
            v = Violation('%s escapes to the client' % nm.split('.')[-1], getattr(e.node, 'lineno', 0),
                          {'raised at': where, 'class': nm})
            status = ('violation', v)
    except EndlessRecursion as e:
        status = ('violation', Violation('the recursion does not end', getattr(it.node, 'lineno', 0),
                                         {'raised at': '%s, recursive beyond the bound' % e}))
    except PathAbort as p:
        status = ('infeasible' if p.infeasible else 'abort', p.why)
    except Signal:
        status = ('abort', 'stray control flow')
    except RecursionError:
        status = ('abort', 'analyser recursion')
    return it, status


def short_repr(a, c):
    """The text of a value is short: true of values of every kind."""
    return (a.op == 'lt' and c == 1 and is_const(a.args[0]) and isinstance(cval(a.args[0]), int) and
            cval(a.args[0]) > 20 and a.args[1].op == 'len' and a.args[1].args[0].op == 'str' and
            a.args[1].args[0].args[0] == 'repr' and a.args[1].args[0].args[1].op == 'sym')


def verdict(it, v, vocab):
    """Is a failed obligation definite on this path?  Returns None or a reason
    for leaving it undecided."""
    if it.imprecise_why:
        return 'imprecise: ' + '; '.join(sorted(set(it.imprecise_why))[:3])
    spec_leaves = set()
    # a forbidden change has happened, whatever is decided after it
    labels = it.labels if it.bad_mark is None else it.labels[:it.bad_mark]
    for a, c, spec in labels:
        if spec and isinstance(a, Term):
            spec_leaves |= leaves(a)
    fn = set(it.fns)
    spec_leaves = {l for l in spec_leaves if l.op == 'sym' and l not in fn}
    if 'any' in vocab:
        return None
    foreign = []
    seen = set()
    for a, c, spec in labels:
        if spec or not isinstance(a, Term) or a in seen:
            continue
        seen.add(a)
        if a.op in ('pick',):
            continue
        sh = shapes(a, set())
        if a.op == 'raises' or short_repr(a, c):
            continue
        if sh - vocab:
            foreign.append((a, {l for l in leaves(a) if l.op == 'sym' and l not in fn}))
    for a, ls in foreign:
        if ls & spec_leaves:
            return 'depends on %s' % show(a)
    for i in range(len(foreign)):
        for j in range(i):
            if foreign[i][1] & foreign[j][1]:
                return 'depends on %s and %s' % (show(foreign[j][0]), show(foreign[i][0]))
    return None


def explore(prog, sc, tier='quick', stop_after=3):
    res = Result(sc.name)
    t0 = time.time()
    script = []
    limit = sc.paths * (sc.thorough if tier == 'thorough' else 1)
    wall = sc.wall * (4 if tier == 'thorough' else 1)
    vocab = set(sc.vocab)
    pend = []
    definite = 0
    while True:
        prog.visited = set()
        prog.covered = set()
        it, (st, v) = run_path(prog, sc, script)
        res.paths += 1
        res.visited |= prog.visited
        res.covered |= prog.covered
        res.obligations += len(it.obligations) + (1 if st == 'ok' else 0)
        res.discharged += sum(1 for o in it.obligations if o[2]) + (1 if st == 'ok' else 0)
        for o in it.obligations:
            res.lines.add((o[0], o[1]))
        for a, c, spec in it.labels:
            if spec and isinstance(a, Term):
                vocab |= shapes(a, set())
        if st == 'infeasible':
            res.infeasible += 1
        elif st == 'abort':
            res.truncated[v] = res.truncated.get(v, 0) + 1
        elif st == 'violation':
            pend.append((it, v, [c for c, _ in it.trail]))
            if verdict(it, v, vocab) is None:
                definite += 1
                if definite >= stop_after:
                    break
            elif len(pend) > 60:
                pend = [p for p in pend if verdict(p[0], p[1], vocab) is None][:10]
        if len(res.partitions) < 3 and st == 'ok':
            res.partitions.append([show(a) + (' = %d' % c) for a, c, s in it.labels if isinstance(a, Term)][:8])
        script = next_script(it.trail)
        if script is None:
            res.complete = True
            break
        if res.paths >= limit or time.time() - t0 > wall:
            break
    for it, v, scr in pend:
        why = verdict(it, v, vocab)
        rec = report(it, v, scr, sc)
        if why is None:
            res.violations.append(rec)
        else:
            rec['undecided because'] = why
            res.undecided.append(rec)
    res.wall = time.time() - t0
    return res


def construct(it):
    """The library entry the client called and the last library statement."""
    entry = [c for c in it.calltrace if ' called at client:' in c]
    last = '%s:%s' % it.last_lib if it.last_lib else None
    if entry:
        return '%s, last statement %s' % (entry[-1].split(' called at ')[0], last)
    return last


def report(it, v, script, sc):
    path = []
    for a, c, spec in it.labels:
        if isinstance(a, Term) and not spec:
            if a.op == 'pick':
                path.append('client choice %d at line %s' % (c, show(a.args[0])))
            elif a.op == 'raises':
                path.append('%s %s' % (show(a.args[0])[:120], 'raises' if c else 'returns'))
            elif a.op == 'size':
                path.append('%s has %d element(s)' % (show(a.args[0])[:120], c))
            else:
                path.append('%s is %s' % (show(a)[:160], 'true' if c == 0 else 'false'))
    events = ['%s %s' % (e.where, repr(e)[:160]) for e in it.events[-14:]]
    return {'scenario': sc.name, 'rule': v.rule, 'client line': v.line,
            'client source': (sc.src.split('\n')[v.line - 1].strip() if 0 < (v.line or 0) <= len(sc.src.split('\n')) else ''),
            'detail': v.detail if isinstance(v.detail, dict) else str(v.detail),
            'construct': (v.detail or {}).get('raised at') or construct(it),
            'mutations': getattr(it, 'bad_mutation', None),
            'call path': list(it.calltrace[-12:]),
            'path condition': path, 'last events': events, 'script': script}


# --------------------------------------------------------------------- driver
_PROG = None


def _work(arg):
    sc, tier = arg
    try:
        sys.setrecursionlimit(20000)
        return explore(_PROG, sc, tier)
    except Exception:
        r = Result(sc.name)
        r.error = traceback.format_exc()
        return r


def load(root='/repo'):
    prog = Program(root)
    from .execu import Engine
    prog.load(Engine)
    return prog


def run_scenarios(scs, tier='quick', root='/repo', jobs=8, prog=None):
    global _PROG
    _PROG = prog or load(root)
    if jobs == 1 or len(scs) == 1:
        return _PROG, [_work((s, tier)) for s in scs]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(jobs, len(scs))) as pool:
        return _PROG, pool.map(_work, [(s, tier) for s in scs], chunksize=1)
