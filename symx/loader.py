"""Load /repo's current source so that it computes on symbolic values.

The source files are read, parsed and executed unmodified except for three AST
rewrites: string %-formatting with a literal left side yields an opaque text (so
logging and messages never force a symbolic value), a native array that is
subscripted accepts symbolic masks and indices (deciding them by forking), and
`in` works for a symbolic text.  Imports are redirected:
numpy/math to the symbolic versions, logging/matplotlib to no-ops, everything
named in `stubs` to what the harness supplies.
"""
import ast
import builtins
import warnings
import os
import sys
import types
import importlib
import numpy as np
from . import core, npx, arr
from .core import Sym, SymBool, smax, smin, lift, ite

REPO = os.environ.get('HAPUA_REPO', '/repo')
PKG = 'hapuamod'
warnings.simplefilter('ignore', SyntaxWarning)
_CODE = {}


class Opaque(str):
    """Result of formatting symbolic values."""


class Null(object):
    """Absorbs any use (logging, plotting)."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Null()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Null()

    def __getitem__(self, k):
        return Null()

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class LogModule(types.ModuleType):
    """Stands for `logging`: records nothing, evaluates its arguments only."""

    def __init__(self):
        types.ModuleType.__init__(self, 'logging')

    def __getattr__(self, name):
        if name in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
            return {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}[name]
        if name == 'getLogger':
            return lambda *a, **k: self
        return lambda *a, **k: None


class NullModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Null()


class _Fmt(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (
                (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) or
                isinstance(node.left, ast.JoinedStr)):
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__symx_fmt__', ctx=ast.Load()),
                         args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.copy_location(
                ast.Call(func=ast.Name(id='__symx_in__', ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), node)
            return r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        k = node.slice
        if isinstance(k, ast.Constant) or isinstance(k, ast.UnaryOp) and isinstance(k.operand, ast.Constant):
            return node
        node.value = ast.copy_location(
            ast.Call(func=ast.Name(id='__symx_idx__', ctx=ast.Load()), args=[node.value], keywords=[]),
            node.value)
        return node


class KeyArray(np.ndarray):
    """View of a native (integer/boolean/text) array that accepts symbolic keys."""

    def __getitem__(self, key):
        return np.asarray(self)[arr.norm_key(key)]

    def __setitem__(self, key, value):
        if isinstance(value, np.ndarray) and value.dtype == object:
            value = np.array([v if isinstance(v, (bool, np.bool_)) else v.__index__() if not isinstance(v, SymBool)
                              else bool(v) for v in value.reshape(-1)]).reshape(value.shape)
        elif isinstance(value, SymBool):
            value = bool(value)
        np.asarray(self)[arr.norm_key(key)] = value


def _idx(a):
    if type(a) is np.ndarray and a.dtype != object:
        return a.view(KeyArray)
    return a


def _in(a, b):
    if hasattr(a, 'within'):
        if type(b) is str:
            return a.within(b)
        if isinstance(b, (set, frozenset, dict)):
            return any(a == x for x in b)
    return a in b


def _sym_inside(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (tuple, list)):
        return any(_sym_inside(y) for y in x)
    if isinstance(x, dict):
        return any(_sym_inside(y) for y in x.values())
    return False


def _fmt(s, args):
    if _sym_inside(args):
        return Opaque(s)
    return s % args


def _bmax(*a, **k):
    if k:
        return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    return _minmax(xs, smax, builtins.max)


def _bmin(*a, **k):
    if k:
        return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    return _minmax(xs, smin, builtins.min)


def _minmax(xs, merge, plain):
    flat = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        flat.append(x)
    if any(isinstance(x, (Sym, SymBool)) for x in flat) and \
            all(arr.is_num(x) or arr.is_boolish(x) for x in flat) and \
            not any(isinstance(x, float) and x != x for x in flat):
        return merge(*flat)
    return plain(*xs) if len(xs) > 1 else plain(xs)


def _bsum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _bround(x, nd=None):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, Sym) and nd:
        s = 10 ** nd
        return Sym(core.Fraction(core.floor(x * s + core.Fraction(1, 2)), s))
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _ball(xs):
    for x in xs:
        if not x:
            return False
    return True


def _bany(xs):
    for x in xs:
        if x:
            return True
    return False


class _BMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, np.bool_, SymBool))

    def __call__(cls, x=False):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return core.bor(x != 0)
        return builtins.bool(x)


class SymBoolType(int, metaclass=_BMeta):
    _symx_kind = 'b'


LOG = LogModule()
_NONE = object()


class SymPackage(object):
    """The target package, loaded for symbolic execution.  Modules are executed
    afresh for each instance; `stubs` maps a module name to a replacement."""

    def __init__(self, stubs=None, repo=None):
        self.repo = repo or REPO
        self.stubs = dict(stubs or {})
        self.modules = {}
        self.pkg = types.ModuleType(PKG)
        self.pkg.__path__ = [os.path.join(self.repo, PKG)]
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, __symx_fmt__=_fmt, __symx_idx__=_idx, __symx_in__=_in, max=_bmax, min=_bmin, sum=_bsum,
                 float=npx.SymFloat, int=npx.SymInt, bool=SymBoolType, round=_bround,
                 all=_ball, any=_bany, print=lambda *a, **k: None)
        b.update(self.stubs.pop('__builtins__', {}))
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        m = self._import_stubs(name, globals, locals, fromlist, level, _NONE)
        if m is not _NONE:
            return m
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy' or not fromlist:
                return npx.NP
            return getattr(npx.NP, name.split('.')[1])
        if top == 'math':
            return npx.MATH
        if top == 'logging':
            return LOG
        if top in ('matplotlib', 'mpl_toolkits', 'tkinter', 'PIL'):
            return NullModule(name if fromlist else top)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _import_stubs(self, name, globals=None, locals=None, fromlist=(), level=0, default=None):
        """Imports of the target package itself and of stubbed modules."""
        full = name if level == 0 else PKG + ('.' + name if name else '')
        top = full.split('.')[0]
        if full in self.stubs:
            m = self.stubs[full]
            if '.' in full and not fromlist:
                return self.pkg if top == PKG else self.stubs.get(top, Null())
            return m
        if top in self.stubs and top != PKG:
            m = self.stubs[top]
            for part in full.split('.')[1:]:
                m = getattr(m, part)
            return m if fromlist else self.stubs[top]
        if top == PKG:
            sub = full.split('.')[1:]
            if not sub:
                for f in fromlist or ():
                    if os.path.isfile(os.path.join(self.repo, PKG, f + '.py')):
                        setattr(self.pkg, f, self.load(f))
                return self.pkg
            m = self.load(sub[0])
            setattr(self.pkg, sub[0], m)
            return m if fromlist else self.pkg
        if default is _NONE:
            return _NONE
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if PKG + '.' + name in self.stubs:
            return self.stubs[PKG + '.' + name]
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, PKG, name + '.py')
        code = _CODE.get(path)
        if code is None:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read(), path)
            tree = ast.fix_missing_locations(_Fmt().visit(tree))
            code = _CODE[path] = compile(tree, path, 'exec')
        m = types.ModuleType(PKG + '.' + name)
        m.__file__ = path
        m.__package__ = PKG
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        exec(code, m.__dict__)
        return m

    def script(self, path):
        path = os.path.join(self.repo, path)
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        exec(compile(ast.fix_missing_locations(_Fmt().visit(tree)), path, 'exec'), m.__dict__)
        return m


_REAL = {}


def real_module(name):
    """The unmodified module, imported normally from /repo."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.filterwarnings('ignore')
    m = importlib.import_module(PKG + '.' + name)
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('imported %s, not the code under test' % m.__file__)
    return m
