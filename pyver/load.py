"""
Loads the *current* sources of /repo into fresh module objects whose builtins and
library imports are symbolic aware.  Nothing of the code is dropped or rewritten:
the text executed is the text of the file (loops named by a contract are cut by a
mechanical AST transformation, see cutloops).
"""
import ast
import builtins as _b
import importlib
import os
import sys
import types
from pyver import sym
from pyver.sym import SymNum, SymBool, Unsupported


class _M(type):
    def __instancecheck__(cls, x):
        return v_isinstance(x, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.__dict__.get('real')

    def __hash__(cls):
        return hash(cls.real)


class v_int(int, metaclass=_M):
    real = int

    def __new__(cls, x=0, *a):
        h = getattr(x, '_v_int', None)
        if h is not None:
            return h()
        if isinstance(x, SymNum):
            return sym.trunc(x)
        if isinstance(x, sym.SymLog2):
            return x.trunc()
        if isinstance(x, SymBool):
            return 1 if x else 0
        if type(x) is str and STR_INT[0] is not None:
            return STR_INT[0](x, *a)
        return int(x, *a)


STR_INT = [None]


class v_float(float, metaclass=_M):
    real = float

    def __new__(cls, x=0.0):
        h = getattr(x, '_v_float', None)
        if h is not None:
            return h()
        if isinstance(x, SymNum):
            return SymNum(x.r, False)
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        return float(x)


class v_bool(metaclass=_M):
    real = bool

    def __new__(cls, x=False):
        return bool(x)


class v_list(list, metaclass=_M):
    real = list

    def __new__(cls, x=()):
        h = getattr(x, '_v_list', None)
        if h is not None:
            return h()
        return list(x)


def unwrap_type(c):
    if isinstance(c, tuple):
        return tuple(unwrap_type(x) for x in c)
    if type(c) is _M:
        return c.__dict__['real']
    return c


def v_isinstance(x, c):
    c = unwrap_type(c)
    if type(c) is tuple:
        return any(v_isinstance(x, k) for k in c)
    if type(c) is types.UnionType:
        return any(v_isinstance(x, k) for k in c.__args__)
    h = getattr(type(x), '_v_isinstance', None)
    if h is not None:
        return h(x, c)
    if type(x) is SymNum:
        import numbers
        import numpy as np
        if c in (int, np.integer, numbers.Integral):
            return x.isint
        if c in (float, np.floating):
            return not x.isint
        if c in (numbers.Number, numbers.Real, object):
            return True
        return isinstance(x, c)
    if type(x) is SymBool:
        return c in (bool, object) or isinstance(x, c)
    return isinstance(x, c)


def v_issubclass(x, c):
    return issubclass(unwrap_type(x), unwrap_type(c))


def v_hasattr(x, name):
    h = getattr(type(x), '_v_hasattr', None)
    if h is not None:
        return h(x, name)
    return hasattr(x, name)


def v_len(x):
    h = getattr(type(x), '_v_len', None)
    if h is not None:
        return h(x)
    return len(x)


def _fold(fn, args, kw, dflt):
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    key = kw.get('key')
    if key is not None or not any(isinstance(i, SymNum) for i in items):
        return dflt(items, **kw)
    if not items:
        return dflt(items, **kw)
    cur = items[0]
    for i in items[1:]:
        cur = fn(cur, i)
    return cur


def v_min(*a, **k):
    return _fold(sym.smin, a, k, min)


def v_max(*a, **k):
    return _fold(sym.smax, a, k, max)


def v_range(*a):
    if any(isinstance(i, SymNum) for i in a):
        h = RANGE_HOOK[0]
        if h:
            return h(*a)
        raise Unsupported('range with a symbolic bound')
    return range(*a)


RANGE_HOOK = [None]


def v_round(x, *a):
    if isinstance(x, SymNum):
        raise Unsupported('round')
    return round(x, *a)


def v_abs(x):
    return abs(x)


def v_sum(it, start=0):
    for i in it:
        start = start + i
    return start


def v_slice(*a):
    return slice(*a)


class Env:
    """One verification environment: modules of /repo plus overrides of library modules"""
    def __init__(self, repo, overrides=None, cut=None):
        self.repo = repo
        self.mods = {}
        self.overrides = overrides or {}
        self.cut = cut or {}
        self.builtins = dict(vars(_b))
        self.builtins.update({
            'int': v_int, 'float': v_float, 'bool': v_bool, 'list': v_list, 'isinstance': v_isinstance,
            'issubclass': v_issubclass, 'hasattr': v_hasattr, 'len': v_len, 'min': v_min, 'max': v_max,
            'range': v_range, 'round': v_round, 'sum': v_sum, '__import__': self.imp})
        self.patches = {}          # module name -> fn(module) run after exec

    def is_repo(self, name):
        return name == 'delayed_image' or name.startswith('delayed_image.')

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if self.is_repo(name):
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = name + '.' + f
                        if self.find(sub):
                            self.module(sub)
                return m
            return self.module(name.split('.')[0])
        if name in self.overrides:
            return self.overrides[name]
        root = name.split('.')[0]
        if root in self.overrides and not fromlist:
            importlib.import_module(name)
            return self.overrides[root]
        m = importlib.import_module(name)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f) and f != '*':
                    try:
                        importlib.import_module(name + '.' + f)
                    except ImportError:
                        pass
            return m
        return sys.modules[root]

    def find(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.exists(p):
                return p
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.find(name)
        if path is None:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if '.' in name:         # early: the import cycle of leafs and nodes relies on it
            par, _, leaf = name.rpartition('.')
            setattr(self.module(par), leaf, m)
        if name != 'delayed_image':     # the package itself only re-exports
            src = open(path).read()
            tree = ast.parse(src)
            if name in self.cut:
                tree = self.cut[name](tree)
                ast.fix_missing_locations(tree)
            exec(compile(tree, path, 'exec'), m.__dict__)
            if name in self.patches:
                self.patches[name](m)
        return m

    def exec_functions(self, path, names, glob):
        """Extract functions (mechanically, by name) of a library source file and
        execute them with our builtins"""
        tree = ast.parse(open(path).read())
        found = {}
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef) and node.name in names and node.name not in found:
                if any('convertor' in ast.unparse(d) for d in node.decorator_list):
                    pass
                node.decorator_list = []
                node.returns = None
                for a in node.args.args + node.args.kwonlyargs:
                    a.annotation = None
                found[node.name] = node
        mod = ast.Module(body=list(found.values()), type_ignores=[])
        ast.fix_missing_locations(mod)
        g = dict(glob)
        g['__builtins__'] = self.builtins
        exec(compile(mod, path, 'exec'), g)
        return {n: g[n] for n in names}
