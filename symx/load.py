"""Loads MTfit modules from the current /repo sources.

``World('py')``   symbolic, compiled extensions absent (pure-Python paths)
``World('c')``    symbolic, the .pyx extensions translated from source
``World('real-py')`` / ``World('real-c')``  concrete replay worlds: real numpy,
                  the real modules, extensions absent / compiled from the
                  current .pyx in a scratch directory.
Modules live in the World only, never in sys.modules.
"""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import core, snp

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

EXT = {'MTfit.probability.cprobability': 'MTfit/probability/cprobability.pyx',
       'MTfit.convert.cmoment_tensor_conversion': 'MTfit/convert/cmoment_tensor_conversion.pyx',
       'MTfit.algorithms.cmarkov_chain_monte_carlo': 'MTfit/algorithms/cmarkov_chain_monte_carlo.pyx',
       'MTfit.extensions.cscatangle': 'MTfit/extensions/cscatangle.pyx'}


class LogRecorder(object):
    """stand-in for logging loggers; remembers swallowed exceptions"""

    def __init__(self, world):
        self.w = world

    def exception(self, msg, *a, **k):
        e = sys.exc_info()
        self.w.swallowed.append((str(msg), e[0].__name__ if e[0] else '', str(e[1]), e[2]))

    def debug(self, *a, **k):
        pass

    info = warning = warn = error = critical = log = setLevel = addHandler = debug
    level = 0
    handlers = ()

    def isEnabledFor(self, *a):
        return False


class LoggingModule(types.ModuleType):
    def __init__(self, world):
        types.ModuleType.__init__(self, 'logging')
        self.getLogger = lambda *a, **k: LogRecorder(world)
        for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
            setattr(self, n, 0)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class RealRandom(object):
    """numpy.random for replays: draws come from the recorded inputs"""

    def __init__(self):
        pass

    def __getattr__(self, n):
        return getattr(snp.Random, n).__get__(_RR)


class _RealRandomImpl(snp.Random):
    def _fill(self, size, f):
        if size is None or size == ():
            return f()
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        size = tuple(int(x) for x in size)
        return np.array([f() for _ in range(int(np.prod(size)))]).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._fill(size, self._n)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._fill(size, self._u)


_RR = _RealRandomImpl()


class NpProxy(types.ModuleType):
    """real numpy with scripted random"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['__path__'] = []
        self.__dict__['random'] = _RR

    def __getattr__(self, n):
        return getattr(np, n)


class _BareExcept(ast.NodeTransformer):
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), n)
        return n


def _no_bare_except(src, path):
    """bare except clauses must not swallow the engine's control exceptions"""
    t = ast.parse(src, path)
    return ast.fix_missing_locations(_BareExcept().visit(t))


class World(object):
    def __init__(self, mode, overrides=None, builtins_extra=None):
        self.mode = mode
        self.symbolic = mode in ('py', 'c')
        self.mods = {}
        self.swallowed = []
        self.overrides = dict(overrides or {})     # module name -> module/object
        self.builtins_extra = dict(builtins_extra or {})
        b = dict(vars(builtins))
        b['__import__'] = self._import
        if self.symbolic:
            b.update(snp.BUILTINS)
        b.update(self.builtins_extra)
        self.builtins = b
        self.np_real = None if self.symbolic else NpProxy()
        self.logging = LoggingModule(self)

    # -- redirects
    def _redirect(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name == 'logging':
            return self.logging
        if name == 'gc':
            return _GC
        if self.symbolic:
            return snp.REDIRECT.get(name)
        if name == 'numpy':
            return self.np_real
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'MTfit' or name.startswith('MTfit.'):
            m = self.load(name)
            if not fromlist:
                return self.load('MTfit') if level == 0 else m
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f):
                    sub = name + '.' + f
                    if sub in EXT or self._path(sub):
                        setattr(m, f, self.load(sub))
            return m
        top = name.split('.')[0]
        r = self._redirect(name)
        if r is not None:
            if not fromlist and '.' in name:
                rt = self._redirect(top)
                return rt if rt is not None else importlib.import_module(top)
            return r
        if self._redirect(top) is not None and self.symbolic and top in ('numpy', 'scipy'):
            # e.g. from scipy import stats
            m = importlib.import_module(name)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.overrides:
            return self.overrides[name]
        if name in EXT:
            m = self._load_ext(name)
            self.mods[name] = m
            return m
        path = self._path(name)
        if path is None:
            raise ImportError('No module named %s' % name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        self.mods[name] = m
        if name == 'MTfit':
            m.__version__ = 'verif'
            m.get_details_json = lambda: '{}'
        else:
            with open(path) as f:
                src = f.read()
            try:
                exec(compile(_no_bare_except(src, path), path, 'exec'), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _load_ext(self, name):
        if self.mode in ('py', 'real-py'):
            raise ImportError('compiled extension disabled: %s' % name)
        pyx = os.path.join(SRC, EXT[name])
        if self.mode == 'c':
            from . import pyx as pyxmod
            return pyxmod.load(name, pyx, self)
        if self.mode == 'real-c':
            from . import build
            return build.load_ext(name)
        raise ImportError(name)

    def set_c(self, flag):
        pass


class _Gc(types.ModuleType):
    """garbage collection has no observable effect; a full collection of the engine's heap on every call costs a lot"""
    def collect(self, *a):
        return 0

    def __getattr__(self, n):
        import gc
        return getattr(gc, n)


_GC = _Gc('gc')
_CACHE = {}


def world(mode):
    """shared World per mode (module state is reset by the harness when needed)"""
    w = _CACHE.get(mode)
    if w is None:
        w = _CACHE[mode] = World(mode)
    return w
