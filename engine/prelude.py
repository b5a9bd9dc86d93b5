"""Python source of library helpers the interpreter follows like user code (never
executed by Python itself).  Lazy generators are close enough to their iterators."""

SOURCE = r'''
def reduce(function, iterable, *initial):
    items = list(iterable)
    if initial:
        acc = initial[0]
    elif items:
        acc = items.pop(0)
    else:
        raise TypeError('reduce() of empty iterable with no initial value')
    for item in items:
        acc = function(acc, item)
    return acc

def lru_cache(maxsize=128, typed=False):
    # remembering results of a pure function changes nothing
    if callable(maxsize):
        return maxsize
    return _same

def cache(function):
    return function

def _same(x):
    return x

def product(*pools, **kw):
    pools = [tuple(p) for p in pools] * kw.get('repeat', 1)
    rows = [()]
    for pool in pools:
        rows = [row + (x,) for row in rows for x in pool]
    return iter(rows)

def combinations(iterable, r):
    pool = tuple(iterable)
    def pick(start, n):
        if n == 0:
            return [()]
        return [(pool[i],) + rest for i in range(start, len(pool)) for rest in pick(i + 1, n - 1)]
    return iter(pick(0, r))

def permutations(iterable, r=None):
    pool = tuple(iterable)
    def pick(free, n):
        if n == 0:
            return [()]
        return [(pool[i],) + rest for i in free for rest in pick([j for j in free if j != i], n - 1)]
    return iter(pick(list(range(len(pool))), len(pool) if r is None else r))

def islice(iterable, *args):
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    return iter(list(iterable)[start:stop:step])

def repeat(obj, times):
    return iter([obj] * times)

def takewhile(pred, iterable):
    for x in iterable:
        if not pred(x):
            break
        yield x

def dropwhile(pred, iterable):
    started = False
    for x in iterable:
        if not started and pred(x):
            continue
        started = True
        yield x

def filterfalse(pred, iterable):
    for x in iterable:
        if not (x if pred is None else pred(x)):
            yield x

def starmap(function, iterable):
    for args in iterable:
        yield function(*args)

def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d

def zip_longest(*its, **kw):
    fill = kw.get('fillvalue')
    lists = [list(i) for i in its]
    n = 0
    for l in lists:
        if len(l) > n:
            n = len(l)
    for i in range(n):
        yield tuple([l[i] if i < len(l) else fill for l in lists])

def pairwise(iterable):
    items = list(iterable)
    for i in range(len(items) - 1):
        yield items[i], items[i + 1]

def tee(iterable, n=2):
    items = list(iterable)
    return tuple([iter(list(items)) for _ in range(n)])

def accumulate(iterable, func=None):
    out = []
    for x in iterable:
        out.append(x if not out else (out[-1] + x if func is None else func(out[-1], x)))
    return iter(out)

def methodcaller(name, *args, **kwargs):
    def call(obj):
        return getattr(obj, name)(*args, **kwargs)
    return call

class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        dict.__init__(self, *args, **kwargs)
    def __getitem__(self, key):
        if dict.__contains__(self, key):
            return dict.__getitem__(self, key)
        if self.default_factory is None:
            raise KeyError(key)
        value = self.default_factory()
        dict.__setitem__(self, key, value)
        return value
    def copy(self):
        return defaultdict(self.default_factory, self)

class Counter(dict):
    def __init__(self, iterable=(), **kwargs):
        dict.__init__(self)
        self.update(iterable, **kwargs)
    def update(self, iterable=(), **kwargs):
        if isinstance(iterable, dict):
            for k, v in iterable.items():
                self[k] = self[k] + v
        else:
            for k in iterable:
                self[k] = self[k] + 1
        for k, v in kwargs.items():
            self[k] = self[k] + v
    def __getitem__(self, key):
        if dict.__contains__(self, key):
            return dict.__getitem__(self, key)
        return 0

class deque(list):
    def __init__(self, iterable=(), maxlen=None):
        list.__init__(self, iterable)
        self.maxlen = maxlen
    def popleft(self):
        return self.pop(0)
    def appendleft(self, x):
        self.insert(0, x)
    def extendleft(self, xs):
        for x in xs:
            self.insert(0, x)

class ExitStack(object):
    def __init__(self):
        self._todo = []
    def __enter__(self):
        return self
    def enter_context(self, cm):
        value = cm.__enter__()
        self._todo.append(cm.__exit__)
        return value
    def push(self, cm):
        self._todo.append(cm.__exit__)
        return cm
    def callback(self, function, *args, **kwargs):
        def run(*exc):
            function(*args, **kwargs)
            return False
        self._todo.append(run)
        return function
    def pop_all(self):
        other = ExitStack()
        other._todo = self._todo
        self._todo = []
        return other
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, kind, value, tb):
        todo = self._todo
        self._todo = []
        swallowed = False
        pending = value
        while todo:
            leave = todo.pop()
            try:
                if leave(None if pending is None else type(pending), pending, tb):
                    pending = None
            except BaseException as error:
                pending = error
        if pending is not None and pending is not value:
            raise pending
        return value is not None and pending is None

class nullcontext(object):
    def __init__(self, value=None):
        self.value = value
    def __enter__(self):
        return self.value
    def __exit__(self, *exc):
        return None

class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *exc):
        self.thing.close()

class SimpleNamespace(object):
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)

def isfunction(x):
    return isinstance(x, _function)
def isclass(x):
    return isinstance(x, type)

def op_add(a, b): return a + b
def op_sub(a, b): return a - b
def op_mul(a, b): return a * b
def op_or(a, b): return a | b
def op_and(a, b): return a & b
def op_xor(a, b): return a ^ b
def op_is(a, b): return a is b
def op_is_not(a, b): return a is not b
def op_ne(a, b): return a != b
def op_lt(a, b): return a < b
def op_le(a, b): return a <= b
def op_gt(a, b): return a > b
def op_ge(a, b): return a >= b
def op_truth(a): return bool(a)
def op_neg(a): return -a
def op_concat(a, b): return a + b
def op_getitem(a, b): return a[b]
def op_setitem(a, b, c): a[b] = c
def op_delitem(a, b): del a[b]
'''

NAMES = {}
for _m, _ns in {'functools': 'reduce lru_cache cache', 'itertools': 'product combinations permutations islice repeat '
                'takewhile dropwhile filterfalse starmap compress zip_longest pairwise tee accumulate',
                'collections': 'defaultdict Counter deque', 'contextlib': 'ExitStack nullcontext closing',
                'types': 'SimpleNamespace', 'inspect': 'isfunction isclass', 'operator': 'methodcaller'}.items():
    for _n in _ns.split():
        NAMES[_m + '.' + _n] = _n
for _n in 'add sub mul ne lt le gt ge truth neg concat getitem setitem delitem is_not'.split():
    NAMES['operator.' + _n] = 'op_' + _n
for _n in ('or', 'and', 'is', 'xor'):
    NAMES['operator.%s_' % _n if _n != 'xor' else 'operator.xor'] = 'op_' + _n
NAMES['six.moves.reduce'] = 'reduce'
NAMES['six.moves.zip_longest'] = 'zip_longest'
NAMES['six.moves.filterfalse'] = 'filterfalse'
SOURCE += r'''
def attrgetter(*names):
    def get(obj):
        out = []
        for name in names:
            value = obj
            for part in name.split('.'):
                value = getattr(value, part)
            out.append(value)
        return out[0] if len(out) == 1 else tuple(out)
    return get
def itemgetter(*keys):
    def get(obj):
        out = [obj[k] for k in keys]
        return out[0] if len(out) == 1 else tuple(out)
    return get
def op_eq(a, b): return a == b
def op_not(a): return not a
def op_contains(a, b): return b in a
class WeakRef(object):
    def __init__(self, thing, callback=None):
        self._thing = thing
    def __call__(self):
        return self._thing
class WeakDict(dict):
    pass
class WeakSet(set):
    pass
'''
for _n in ('eq', 'contains'):
    NAMES['operator.' + _n] = 'op_' + _n
NAMES['operator.not_'] = 'op_not'
NAMES['operator.attrgetter'] = 'attrgetter'
NAMES['operator.itemgetter'] = 'itemgetter'
NAMES.update({'weakref.ref': 'WeakRef', 'weakref.WeakKeyDictionary': 'WeakDict',
              'weakref.WeakValueDictionary': 'WeakDict', 'weakref.WeakSet': 'WeakSet'})
