"""Loads the repository's source into abstract modules (nothing is executed)."""
import ast
import os

from .terms import T, C, FALSE, TRUE, ext, bi, tup
from .interp import Cell, ModData, AbsRaise, PathAbort, MISSING
from . import prelude


class LoadError(Exception):
    pass


CANON = {
    'six.moves.urllib.parse': 'urllib.parse', 'six.moves.urllib': 'urllib', 'np': 'numpy',
    'collections.abc': 'collections.abc',
}

EXT_ALIAS = {
    'six.string_types': lambda: tup(bi('str')),
    'six.integer_types': lambda: tup(bi('int')),
    'six.class_types': lambda: tup(bi('type')),
    'six.text_type': lambda: bi('str'),
    'six.binary_type': lambda: bi('bytes'),
    'six.PY2': lambda: FALSE,
    'six.PY3': lambda: TRUE,
    'six.wraps': lambda: ext('functools.wraps'),
    'datetime.datetime.strptime': lambda: ext('datetime.datetime.strptime'),
    'numpy.nan': lambda: ext('numpy.nan'),
    'numpy.bool_': lambda: ext('numpy.bool_'),
    'sys.version_info': lambda: tup(C(3), C(12), C(3)),
    'collections.Iterable': None,
    'itertools.izip': None,
    'types.FunctionType': lambda: bi('function'), 'types.LambdaType': lambda: bi('function'),
    'types.ModuleType': lambda: bi('module'), 'types.GeneratorType': lambda: bi('generator'),
    'types.NoneType': lambda: bi('NoneType'),
    'string.digits': lambda: C('0123456789'),
    'string.hexdigits': lambda: C('0123456789abcdefABCDEF'),
    'string.ascii_letters': lambda: C('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
}

PRELUDE = ast.parse(prelude.SOURCE)
ABSENT_MODULES = ('builtins2',)


class Program(object):

    def __init__(self, root, package='properties', omit=()):
        self.root = root
        self.package = package
        self.store = {}
        self.naddr = 1
        self.classes = {}
        self.modules = {}
        self.mro_cache = {}
        self.covered = set()
        self.visited = set()
        self.loading = True
        self.spec_names = {}
        self.files = {}
        self.trees = {}
        self.errors = []
        self.prelude = {}
        self.parse_all()

    # ------------------------------------------------------------------ parse
    def parse_all(self):
        top = os.path.join(self.root, self.package)
        if not os.path.isdir(top):
            raise LoadError('no package %s in %s' % (self.package, self.root))
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-len('.__init__')]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        tree = ast.parse(src, path)
                    except SyntaxError as e:
                        raise LoadError('%s does not parse: %s' % (rel, e))
                self.files[name] = (rel, is_pkg)
                self.trees[name] = tree

    # ------------------------------------------------------------------- load
    def load(self, engine_cls):
        it = engine_cls(self)
        it.max_steps = 3000000
        it.naddr = self.naddr
        self.load_prelude(it)
        for name in sorted(self.files):
            try:
                self.import_module(it, name)
            except PathAbort as e:
                raise LoadError('%s: %s at %s' % (name, e, it.where()))
            except AbsRaise as e:
                self.errors.append('%s: raises %s while loading at %s' % (name, it.cname(it.typeof(e.exc)) if it.typeof(e.exc) else e.exc, e.where))
        # everything built while loading becomes the shared base heap
        for a, c in it.store.items():
            c.owner = c.owner or 'global'
            self.store[a] = c
        self.naddr = it.naddr
        self.loading = False
        self.load_imprecise = list(it.imprecise_why)
        if it.trail:
            self.load_imprecise.append('case split while loading: %s' % (it.labels[0],))
        self.base_facts = dict(it.facts)
        self.mro_cache.clear()
        return it

    def load_prelude(self, it):
        ns = {'__name__': C('stdlib'), '__file__': C('stdlib'), '_function': bi('function')}
        ref = it.alloc(Cell('module', None, ModData('stdlib', 'stdlib', ns, False)))
        fr = it.new_frame(ref)
        file, node = it.file, it.node
        it.exec_block(PRELUDE.body, fr)
        it.file, it.node = file, node
        self.prelude = {full: ns[name] for full, name in prelude.NAMES.items()}

    def import_module(self, it, name, soft=False):
        """Module term of a repository module, or None (soft) for a library."""
        if name in self.modules:
            return self.modules[name]
        if name not in self.files:
            if soft:
                return None
            raise LoadError('no module ' + name)
        parts = name.split('.')
        if len(parts) > 1:
            parent = '.'.join(parts[:-1])
            if parent in self.files and parent not in self.modules:
                self.import_module(it, parent)
                if name in self.modules:
                    return self.modules[name]
        rel, is_pkg = self.files[name]
        ns = {'__name__': C(name), '__file__': C(rel)}
        ref = it.alloc(Cell('module', None, ModData(name, rel, ns, is_pkg)))
        self.modules[name] = ref
        fr = it.new_frame(ref)
        file, node = it.file, it.node
        tree = self.trees[name]
        doc = ast.get_docstring(tree, clean=False)
        if doc is not None:
            ns['__doc__'] = C(doc)
        it.exec_block(tree.body, fr)
        it.file, it.node = file, node
        if len(parts) > 1 and '.'.join(parts[:-1]) in self.modules:
            pm = self.modules['.'.join(parts[:-1])]
            it.rd(pm).data.ns.setdefault(parts[-1], ref)
        return ref

    def canon(self, name):
        return CANON.get(name, name)

    def ext_attr(self, t, name, it=None):
        base = t.args[0]
        full = base + '.' + name
        full = CANON.get(full, full)
        if base.startswith('builtins.') and base != 'builtins.Ellipsis':
            import builtins
            py = getattr(builtins, base[9:], None)
            if isinstance(py, type):
                if name == '__mro__':
                    return tup(*[bi(c.__name__) for c in py.__mro__])
                if name == '__bases__':
                    return tup(*[bi(c.__name__) for c in py.__bases__])
                if name == '__module__':
                    return C('builtins')
                if name == '__dict__' and it is not None:
                    return it.new_dict([[C(k), T('ubmeth', t, k)] for k in py.__dict__])
                if name not in ('__name__', '__qualname__', '__doc__', '__dict__'):
                    return T('ubmeth', t, name) if hasattr(py, name) else MISSING
            elif py is not None and name != '__name__' and not hasattr(py, name):
                return MISSING
            if name == '__name__':
                return C(base[9:])
            return T('attr', t, name)
        if name == '__name__':
            return C(base.split('.')[-1])
        if full in self.prelude:
            return self.prelude[full]
        a = EXT_ALIAS.get(full)
        if a is not None:
            return a()
        return ext(full)

    # ---------------------------------------------------------------- helpers
    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise LoadError('anchor class %s is gone' % qual)
        return c

    def find_class(self, name):
        for q, c in self.classes.items():
            if q.split('.')[-1] == name and '<locals>' not in q:
                return c
        raise LoadError('anchor class %s is gone' % name)

    def public(self, name):
        """An attribute of the package's public namespace."""
        ns = self.store[self.modules[self.package].args[0]].data.ns
        if name not in ns:
            raise LoadError('public name %s.%s is gone' % (self.package, name))
        return ns[name]

    def extra(self, mod, name):
        ns = self.store[self.modules[mod].args[0]].data.ns
        if name not in ns:
            raise LoadError('public name %s.%s is gone' % (mod, name))
        return ns[name]
