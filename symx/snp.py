"""A numpy look-alike over arrays of Syms.

``SArr``/``SMat`` are ndarray/matrix subclasses of dtype object whose elements
are Syms, or Python floats (always used for +-inf/nan).  All floating-point
creation functions return them, so that the code under test runs unchanged.
"""
import builtins
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import Cond, INF, NAN, ONE, PI, Sym, Unsupported, ZERO, ctx, lift


# ---------------------------------------------------------------------------
# scalar kernels
# ---------------------------------------------------------------------------

def L(x):
    """element -> Sym or special float"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (complex, np.complexfloating)) and x.imag == 0:
        x = x.real
    r = lift(x)
    if r is NotImplemented:
        if isinstance(x, np.ndarray) and x.size == 1:
            return L(x.reshape(-1)[0] if not isinstance(x, np.matrix) else np.asarray(x).reshape(-1)[0])
        if x is None:
            raise TypeError("unsupported operand type: 'NoneType'")
        if isinstance(x, str):
            raise TypeError('unsupported operand type: str')
        raise Unsupported('element of type %r' % type(x))
    return r


def _nn(a):
    return isinstance(a, float) and a != a


def k_add(a, b):
    a, b = L(a), L(b)
    return a + b


def k_sub(a, b):
    a, b = L(a), L(b)
    return a - b


def k_mul(a, b):
    a, b = L(a), L(b)
    return a * b


def k_div(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float) and isinstance(b, float):
        return NAN
    return a / b


def k_floordiv(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float) or isinstance(b, float):
        return float(np.floor_divide(np.float64(0 if isinstance(a, Sym) else a), np.float64(1 if isinstance(b, Sym) else b)))
    if bool(b == 0):
        return NAN
    return core.sfloor(a / b)


def k_mod(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float):
        return NAN
    if isinstance(b, Sym) and bool(b == 0):
        return NAN
    return a % b


def k_fmod(a, b):
    return core.sfmod(a, b)


def k_pow(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float) and isinstance(b, Sym):
        if _nn(a):
            return NAN if not bool(b == 0) else ONE
        if b.isconst():
            return float(np.power(np.float64(a), float(b.cval())))
        return INF if b > 0 else ZERO
    if isinstance(b, float):
        if isinstance(a, float):
            return float(np.power(np.float64(a), b))
        raise Unsupported('power')
    if isinstance(a, Sym) and b.isconst() and b.cval() < 0 and bool(a == 0):
        return INF
    return a ** b


def k_neg(a):
    return -L(a)


def k_pos(a):
    return L(a)


def k_abs(a):
    return abs(L(a))


def k_sign(a):
    a = L(a)
    if _nn(a):
        return NAN
    return core.lift(core.sign_of(a))


def k_heaviside(a, b):
    a = L(a)
    if _nn(a):
        return NAN
    s = core.sign_of(a)
    return L(b) if s == 0 else (ONE if s > 0 else ZERO)


def k_max(a, b):
    a, b = L(a), L(b)
    if _nn(a) or _nn(b):
        return NAN
    if isinstance(a, float):
        return a if a > 0 else b
    if isinstance(b, float):
        return b if b > 0 else a
    return a if a >= b else b


def k_min(a, b):
    a, b = L(a), L(b)
    if _nn(a) or _nn(b):
        return NAN
    if isinstance(a, float):
        return a if a < 0 else b
    if isinstance(b, float):
        return b if b < 0 else a
    return a if a <= b else b


def k_fmax(a, b):
    a, b = L(a), L(b)
    if _nn(a):
        return b
    if _nn(b):
        return a
    return k_max(a, b)


def k_fmin(a, b):
    a, b = L(a), L(b)
    if _nn(a):
        return b
    if _nn(b):
        return a
    return k_min(a, b)


def k_isnan(a):
    a = L(a)
    return _nn(a)


def k_isinf(a):
    a = L(a)
    return isinstance(a, float) and a in (INF, -INF)


def k_isfinite(a):
    return isinstance(L(a), Sym)


def k_hypot(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float) or isinstance(b, float):
        return NAN if _nn(a) or _nn(b) else INF
    return core.ssqrt(a * a + b * b)


def _s1(fn):
    def f(a):
        return fn(L(a))
    return f


def k_logaddexp(a, b):
    a, b = L(a), L(b)
    if isinstance(a, float) and a == -INF:
        return b
    if isinstance(b, float) and b == -INF:
        return a
    if isinstance(a, float) or isinstance(b, float):
        return NAN if _nn(a) or _nn(b) else INF
    # stable by construction (numpy): evaluated on the real line
    return core.slog(core.sym_exp(a) + core.sym_exp(b))


def k_log1p(a):
    a = L(a)
    return core.slog(a + 1)


def k_expm1(a):
    return core.sexp(L(a)) - 1


def k_log10(a):
    r = core.slog(L(a))
    return r / core.log_fraction(Fraction(10))


def k_log2(a):
    r = core.slog(L(a))
    return r / core.log_fraction(Fraction(2))


def k_floor(a):
    return core.sfloor(L(a))


def k_ceil(a):
    a = L(a)
    if isinstance(a, float):
        return a
    return -core.sfloor(-a)


def k_trunc(a):
    a = L(a)
    if isinstance(a, float):
        return a
    return Sym.const(core.sint(a))


def k_rint(a, n=0):
    a = L(a)
    if isinstance(a, float):
        return a
    if a.isconst():
        return Sym.const(round(a.cval()))
    raise Unsupported('rint')


def k_sinh(a):
    a = L(a)
    return (core.sexp(a) - core.sexp(-a)) / 2


def k_cosh(a):
    a = L(a)
    return (core.sexp(a) + core.sexp(-a)) / 2


def k_tanh(a):
    a = L(a)
    if isinstance(a, float):
        return NAN if _nn(a) else (ONE if a > 0 else -ONE)
    e = core.sym_exp(a * 2)
    return (e - 1) / (e + 1)


def k_copysign(a, b):
    a, b = L(a), L(b)
    a = abs(a)
    return -a if b < 0 else a


def k_cbrt(a):
    raise Unsupported('cbrt')


def k_square(a):
    a = L(a)
    return a * a


def k_recip(a):
    return k_div(ONE, a)


def k_deg2rad(a):
    return L(a) * PI * Sym.const(Fraction(1, 180))


def k_rad2deg(a):
    return L(a) * PI.inv() * 180


def _cmp(op):
    def f(a, b):
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
            return {'==': a == b, '!=': a != b}[op] if op in ('==', '!=') else NotImplemented
        a, b = L(a), L(b)
        if isinstance(a, float) and isinstance(b, float):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if isinstance(a, float):
            r = core.cmp_cond(b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op])
        else:
            r = core.cmp_cond(a, b, op)
        return bool(r)
    return f


def _truth(x):
    if isinstance(x, float):
        return bool(x)
    return bool(x)


def k_erf(a):
    return core.serf(L(a))


def k_erfc(a):
    return ONE - core.serf(L(a))


UF1 = {
    'negative': k_neg, 'positive': k_pos, 'absolute': k_abs, 'abs': k_abs, 'fabs': k_abs, 'sqrt': _s1(core.ssqrt), 'square': k_square,
    'exp': _s1(core.sexp), 'log': _s1(core.slog), 'log1p': k_log1p, 'expm1': k_expm1, 'log10': k_log10, 'log2': k_log2, 'sign': k_sign,
    'sin': _s1(core.ssin), 'cos': _s1(core.scos), 'tan': _s1(core.stan), 'arcsin': _s1(core.sasin), 'arccos': _s1(core.sacos),
    'arctan': _s1(core.satan), 'floor': k_floor, 'ceil': k_ceil, 'trunc': k_trunc, 'rint': k_rint, 'sinh': k_sinh, 'cosh': k_cosh,
    'tanh': k_tanh, 'reciprocal': k_recip, 'deg2rad': k_deg2rad, 'radians': k_deg2rad, 'rad2deg': k_rad2deg, 'degrees': k_rad2deg,
    'conjugate': k_pos, 'conj': k_pos, 'cbrt': k_cbrt, 'fix': k_trunc, 'real': k_pos,
    'exp2': lambda a: k_pow(2, a),
}
UF1B = {'isnan': k_isnan, 'isinf': k_isinf, 'isfinite': k_isfinite, 'logical_not': lambda a: not _truth(a),
        'signbit': lambda a: bool(L(a) < 0), 'isneginf': lambda a: k_isinf(a) and L(a) < 0, 'isposinf': lambda a: k_isinf(a) and L(a) > 0,
        'invert': lambda a: not _truth(a)}
UF2 = {
    'add': k_add, 'subtract': k_sub, 'multiply': k_mul, 'divide': k_div, 'true_divide': k_div, 'floor_divide': k_floordiv,
    'remainder': k_mod, 'mod': k_mod, 'fmod': k_fmod, 'power': k_pow, 'float_power': k_pow, 'arctan2': core.satan2, 'hypot': k_hypot,
    'maximum': k_max, 'minimum': k_min, 'fmax': k_fmax, 'fmin': k_fmin, 'heaviside': k_heaviside, 'logaddexp': k_logaddexp,
    'copysign': k_copysign,
}
UF2B = {'greater': _cmp('>'), 'greater_equal': _cmp('>='), 'less': _cmp('<'), 'less_equal': _cmp('<='), 'equal': _cmp('=='),
        'not_equal': _cmp('!='), 'logical_and': lambda a, b: _truth(a) and _truth(b), 'logical_or': lambda a, b: _truth(a) or _truth(b),
        'logical_xor': lambda a, b: _truth(a) != _truth(b), 'bitwise_and': lambda a, b: _truth(a) and _truth(b),
        'bitwise_or': lambda a, b: _truth(a) or _truth(b)}

_PY = {}
for _n, _f in list(UF1.items()) + list(UF1B.items()):
    _PY[_n] = np.frompyfunc(_f, 1, 1)
for _n, _f in list(UF2.items()) + list(UF2B.items()):
    _PY[_n] = np.frompyfunc(_f, 2, 1)

_INIT = {'add': 0.0, 'multiply': 1.0, 'logical_and': True, 'logical_or': False}


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------

def base(x):
    """view as plain ndarray (object or native)"""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    return x


def wrap(r, like=()):
    """object arrays of numbers become SArr/SMat"""
    if isinstance(r, tuple):
        return tuple(wrap(x, like) for x in r)
    if isinstance(r, list):
        return [wrap(x, like) for x in r]
    if isinstance(r, np.ndarray) and not isinstance(r, _Mixin):
        if r.dtype == object or r.dtype.kind == 'f':
            if r.dtype.kind == 'f':
                r = r.astype(object)
            if r.size and not all(_isnum(x) for x in r.ravel()[:4].tolist()):
                return r
            mat = any(isinstance(a, np.matrix) for a in like) and r.ndim == 2
            return r.view(SMat if mat or isinstance(r, np.matrix) else SArr)
    if type(r) is float or isinstance(r, np.floating):
        return np.float64(r)
    return r


def _isnum(x):
    return isinstance(x, (Sym, float, int, np.number, Fraction, Cond))


def _scalar_out(r):
    if type(r) is float:
        return np.float64(r)
    return r


class _Mixin(object):
    __array_priority__ = 100

    @property
    def dtype(self):
        return np.dtype('float64')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        mats = any(isinstance(a, np.matrix) for a in inputs)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        args = [base(a) if isinstance(a, np.ndarray) else a for a in inputs]
        if name == 'matmul' and method == '__call__':
            r = np.dot(np.asarray(args[0]), np.asarray(args[1])) if np.ndim(args[0]) <= 2 and np.ndim(args[1]) <= 2 else np.matmul(args[0], args[1])
            return self._finish(r, out, mats)
        if name in UF1 or name in UF1B or name in UF2 or name in UF2B:
            f = _PY[name]
            isb = name in UF1B or name in UF2B
        elif name.endswith('(vectorized)') or isinstance(ufunc, np.ufunc) and ufunc.types and ufunc.types[0].startswith('O'):
            f = ufunc
            isb = False
        elif name == 'clip':
            a, lo, hi = args
            r = a
            if lo is not None:
                r = _PY['maximum'](r, _objarr(lo))
            if hi is not None:
                r = _PY['minimum'](r, _objarr(hi))
            return self._finish(r, out, mats)
        elif name == 'erf':
            f, isb = np.frompyfunc(k_erf, 1, 1), False
        elif name == 'erfc':
            f, isb = np.frompyfunc(k_erfc, 1, 1), False
        elif name == 'ndtr':
            f, isb = np.frompyfunc(lambda v: core.sncdf(L(v)), 1, 1), False
        else:
            raise Unsupported('ufunc %s' % name)
        if method == '__call__':
            args = [_objarr(a) for a in args]
            if where is not True:
                sh = np.broadcast(*(args + [where])).shape
                r = np.empty(sh, dtype=object)
                tgt = base(out[0]) if out else None
                bs = [np.broadcast_to(a, sh) for a in args]
                wh = np.broadcast_to(np.asarray(where), sh)
                for i in np.ndindex(*sh):
                    r[i] = f(*[b[i] for b in bs]) if wh[i] else (tgt[i] if tgt is not None else NAN)
            else:
                r = f(*args)
            if isb:
                r = np.asarray(r).astype(bool)
                if r.ndim == 0:
                    r = np.bool_(r)
            return self._finish(r, out, mats)
        if method == 'reduce':
            a = _objarr(args[0])
            axis = kw.pop('axis', 0)
            keep = kw.pop('keepdims', False)
            init = kw.pop('initial', np._NoValue)
            if where is not True:
                raise Unsupported('reduce with where')
            if init is np._NoValue or init is None:
                init = None
            if axis is None:
                axes = tuple(range(a.ndim))
            elif isinstance(axis, tuple):
                axes = tuple(x % a.ndim for x in axis)
            else:
                axes = (axis % a.ndim,) if a.ndim else ()
            r = a
            for ax in sorted(axes, reverse=True):
                if r.shape[ax] == 0:
                    if name not in _INIT:
                        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
                    sh = list(r.shape)
                    del sh[ax]
                    e = np.empty(sh, dtype=object)
                    e.fill(_INIT[name])
                    r = e if sh else e[()]
                else:
                    r = f.reduce(r, axis=ax)
                if not isinstance(r, np.ndarray):
                    q = np.empty((), dtype=object)
                    q[()] = r
                    r = q
            if init is not None:
                r = f(_box(init), _box(r))
            if keep:
                sh = [1 if i in axes else n for i, n in enumerate(a.shape)]
                q = np.empty(sh, dtype=object)
                q[...] = np.reshape(r, sh)
                r = q
            if isinstance(r, np.ndarray) and r.ndim == 0:
                r = r[()]
            if isb:
                r = np.asarray(r).astype(bool)
                if r.ndim == 0:
                    r = np.bool_(r)
            return self._finish(r, out, mats)
        if method == 'accumulate':
            a = _objarr(args[0])
            axis = kw.pop('axis', 0)
            r = f.accumulate(a, axis=axis, dtype=object)
            return self._finish(r, out, mats)
        if method == 'outer':
            return self._finish(f.outer(_objarr(args[0]), _objarr(args[1])), out, False)
        if method == 'at':
            a, idx = args[0], args[1]
            f.at(a, idx, *[_objarr(x) for x in args[2:]])
            return None
        raise Unsupported('ufunc method %s.%s' % (name, method))

    def _finish(self, r, out, mat):
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if isinstance(o, np.ndarray):
                    bo = base(o)
                    if bo.dtype != object and bo.dtype.kind == 'f' and isinstance(r, np.ndarray) and r.dtype == object:
                        raise Unsupported('in-place write of symbolic values into a native array')
                    bo[...] = r
                    return o
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                if r.ndim == 0:
                    return _scalar_out(r[()])
                return r.view(SMat) if mat and r.ndim == 2 else r.view(SArr)
            if mat and r.ndim == 2:
                return r.view(np.matrix)
            return r
        return _scalar_out(r)

    def __array_function__(self, func, types, args, kwargs):
        f = CUSTOM.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        return generic(func, func.__name__, args, kwargs)

    def __getitem__(self, i):
        i = _index(i)
        r = np.ndarray.__getitem__(self, i) if not isinstance(self, np.matrix) else np.matrix.__getitem__(self, i)
        if type(r) is float:
            return np.float64(r)
        return r

    def __setitem__(self, i, v):
        i = _index(i)
        if isinstance(v, np.ndarray) and not isinstance(v, np.matrix):
            v = base(v)
        if isinstance(v, np.ndarray) and v.ndim and v.size == 1:
            # an element set to a one-entry array takes its value (object arrays would store the array itself)
            k = i if isinstance(i, tuple) else (i,)
            if len(k) == self.ndim and all(isinstance(x, (int, np.integer)) for x in k):
                v = np.asarray(v).reshape(-1)[0]
        np.ndarray.__setitem__(self, i, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for k in range(self.shape[0]):
            yield self[k]

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __float__(self):
        v = _only(self)
        if isinstance(v, Sym):
            return float(v)
        return float(v)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(_only(self))

    def __int__(self):
        return int(_only(self))

    def astype(self, dtype=None, order='K', casting='unsafe', subok=True, copy=True):
        if isinstance(dtype, type) and issubclass(dtype, _FloatProxy):
            dtype = float
        if dtype is builtins.float or dtype is float:
            k = 'f'
        else:
            k = np.dtype(_realtype(dtype)).kind
        if k in 'fcO':
            if copy:
                return self.copy()
            return self
        b = base(self)
        out = np.empty(b.shape, dtype=_realtype(dtype))
        for i in np.ndindex(*b.shape):
            if k in 'iu':
                out[i] = int(core.sint(L(b[i])))
            elif k == 'b':
                out[i] = bool(b[i])
            else:
                raise Unsupported('astype(%r)' % (dtype,))
        return out

    def argmax(self, axis=None, out=None, **k):
        return _argext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return _argext(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None):
        return _argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        idx = _argsort(self, axis)
        self[...] = np.take_along_axis(base(self), idx, axis)

    def nonzero(self):
        return _nonzero(self)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return _mean(self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        v = _var(self, axis, ddof, keepdims)
        return v.__array_ufunc__(np.sqrt, '__call__', v) if isinstance(v, _Mixin) else core.ssqrt(L(v))

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = maximum(r, min)
        if max is not None:
            r = minimum(r, max)
        return r

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda v: _round(v, decimals), 1, 1)(base(self)), (self,))

    def dot(self, o):
        return CUSTOM['dot'](self, o)

    def cumsum(self, axis=None, dtype=None, out=None):
        return CUSTOM['cumsum'](self, axis)

    def any(self, axis=None, out=None, keepdims=False):
        return np.ndarray.any(_boolarr(self), axis)

    def all(self, axis=None, out=None, keepdims=False):
        return np.ndarray.all(_boolarr(self), axis)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros(self.shape)

    def view(self, *a, **k):
        if a and a[0] in (np.float64, float):
            return self
        return np.ndarray.view(self, *a, **k)

    def conj(self):
        return self

    conjugate = conj

    def tobytes(self, *a):
        raise Unsupported('tobytes of a symbolic array')

    def tostring(self, *a):
        raise Unsupported('tostring of a symbolic array')

    def __complex__(self):
        raise Unsupported('complex()')


def _round(v, n):
    v = L(v)
    if isinstance(v, Sym) and v.isconst():
        return Sym.const(round(v.cval(), n))
    if isinstance(v, float):
        return v
    raise Unsupported('round of a symbolic value')


def _only(a):
    b = np.asarray(a).reshape(-1) if not isinstance(a, np.ndarray) else base(a).reshape(-1)
    if b.size != 1:
        raise TypeError('only size-1 arrays can be converted to Python scalars')
    return b[0]


def _index(i):
    if isinstance(i, tuple):
        return tuple(_index(x) for x in i)
    if isinstance(i, _Mixin):
        b = base(i)
        out = np.empty(b.shape, dtype=np.int64)
        if b.size == 0:
            return out
        if all(isinstance(x, (bool, np.bool_)) for x in b.ravel()):
            return b.astype(bool)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, Cond):
        return bool(i)
    if isinstance(i, Sym):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    return i


class SArr(_Mixin, np.ndarray):
    def __array_finalize__(self, obj):
        pass


class SMat(_Mixin, np.matrix):
    def __new__(cls, data, dtype=None, copy=True):
        return _matrix(data, dtype)

    def __getitem__(self, i):
        i = _index(i)
        r = np.matrix.__getitem__(self, i)
        if type(r) is float:
            return np.float64(r)
        return r

    def argmax(self, axis=None, out=None):
        r = _argext(self, axis, True)
        return np.matrix(r if axis != 1 else np.asarray(r).reshape(-1, 1)) if axis is not None else r

    def argmin(self, axis=None, out=None):
        r = _argext(self, axis, False)
        return np.matrix(r if axis != 1 else np.asarray(r).reshape(-1, 1)) if axis is not None else r

    def mean(self, axis=None, dtype=None, out=None):
        r = _mean(self.view(SArr), axis, axis is not None)
        return r.view(SMat) if isinstance(r, _Mixin) and r.ndim == 2 else r

    def dot(self, o):
        return CUSTOM['dot'](self, o)

    def __mul__(self, o):
        if isinstance(o, (Sym, Cond)):
            return (self.view(SArr) * o).view(SMat)
        return np.matrix.__mul__(self, o)

    def __rmul__(self, o):
        if isinstance(o, (Sym, Cond)):
            return (self.view(SArr) * o).view(SMat)
        return np.matrix.__rmul__(self, o)

    def __imul__(self, o):
        self[:] = self * o
        return self

    @property
    def I(self):
        return linalg.inv(self)

    @property
    def A(self):
        return self.view(SArr)

    @property
    def A1(self):
        return self.view(SArr).ravel()

    def any(self, axis=None, out=None):
        return np.ndarray.any(_boolarr(self), axis)

    def all(self, axis=None, out=None):
        return np.ndarray.all(_boolarr(self), axis)


def _box(a):
    """symbolic scalars as 0-d object arrays (so that ufuncs do not dispatch back)"""
    if isinstance(a, (Sym, Cond)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    return a


def _objarr(a):
    a = _box(a)
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray) if isinstance(a, _Mixin) else np.asarray(a)
    if isinstance(a, (list, tuple)):
        return base(array(a))
    return a


def _boolarr(a):
    b = base(a)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        out[i] = bool(b[i])
    return out


def _argext(a, axis, mx):
    b = base(a)
    if axis is None:
        flat = b.ravel()
        if not flat.size:
            raise ValueError('attempt to get argmax of an empty sequence')
        best = 0
        for k in range(1, flat.size):
            x, y = L(flat[k]), L(flat[best])
            if _nn(y):
                break
            if _nn(x) or ((x > y) if mx else (x < y)):
                best = k
        return np.int64(best)
    axis %= b.ndim
    mv = np.moveaxis(b, axis, -1)
    out = np.empty(mv.shape[:-1], dtype=np.int64)
    for i in np.ndindex(*mv.shape[:-1]):
        out[i] = _argext(mv[i], None, mx)
    return out if out.ndim else np.int64(out[()])


def _argsort(a, axis=-1):
    import functools
    b = base(a)
    if axis is None:
        b = b.ravel()
        axis = -1
    mv = np.moveaxis(b, axis, -1)
    out = np.empty(mv.shape, dtype=np.int64)

    def cmp(row):
        def c(i, j):
            x, y = L(row[i]), L(row[j])
            if _nn(x) or _nn(y):
                return (1 if _nn(x) else 0) - (1 if _nn(y) else 0)
            if x < y:
                return -1
            if x > y:
                return 1
            return 0
        return c
    for i in np.ndindex(*mv.shape[:-1]):
        row = mv[i]
        out[i] = sorted(range(row.size), key=functools.cmp_to_key(cmp(row)))
    return np.moveaxis(out, -1, axis)


def _nonzero(a):
    return np.nonzero(_boolarr(a)) if isinstance(a, _Mixin) else np.nonzero(np.asarray(a))


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def _mean(a, axis=None, keepdims=False):
    a = asarr(a)
    n = _count(a, axis)
    s = np.add.reduce(a, axis=axis, keepdims=keepdims)
    if not n:
        return np.float64(NAN)
    return _scalar_out(k_div(s, n)) if not isinstance(s, np.ndarray) else s / n


def _var(a, axis=None, ddof=0, keepdims=False):
    a = asarr(a)
    n = _count(a, axis)
    m = _mean(a, axis, True) if axis is not None else _mean(a)
    d = a - m
    s = np.add.reduce(d * d, axis=axis, keepdims=keepdims)
    return k_div(s, n - ddof) if not isinstance(s, np.ndarray) else s / (n - ddof)


def asarr(x):
    r = array(x, copy=False)
    return r


# ---------------------------------------------------------------------------
# creation
# ---------------------------------------------------------------------------

def _realtype(dt):
    if isinstance(dt, type) and issubclass(dt, _Proxy):
        return dt._real
    return dt


def _isfloat_dtype(dt):
    if dt is None:
        return True
    dt = _realtype(dt)
    try:
        return np.dtype(dt).kind in 'fc'
    except TypeError:
        return False


def _filled(shape, v):
    if isinstance(shape, (Sym,)):
        shape = int(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(x) for x in shape)
    r = np.empty(shape, dtype=object)
    r.fill(v)
    return r.view(SArr)


def zeros(shape, dtype=None, order='C', **k):
    if _isfloat_dtype(dtype):
        return _filled(shape, 0.0)
    return np.zeros(shape, dtype=_realtype(dtype))


def ones(shape, dtype=None, order='C', **k):
    if _isfloat_dtype(dtype):
        return _filled(shape, 1.0)
    return np.ones(shape, dtype=_realtype(dtype))


def empty(shape, dtype=None, order='C', **k):
    if _isfloat_dtype(dtype):
        return _filled(shape, NAN)
    return np.zeros(shape, dtype=_realtype(dtype))


def full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None and isinstance(fill_value, (bool, int, np.integer, np.bool_)):
        return np.full(shape, fill_value)
    if _isfloat_dtype(dtype):
        r = _filled(shape, 0.0)
        r[...] = fill_value
        return r
    return np.full(shape, fill_value, dtype=_realtype(dtype))


def _like(fn):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        sh = np.shape(a) if shape is None else shape
        if dtype is None and isinstance(a, np.ndarray) and not isinstance(a, _Mixin) and a.dtype.kind in 'iub':
            dtype = a.dtype
        r = fn(sh, dtype)
        return r.view(SMat) if isinstance(a, np.matrix) and isinstance(r, SArr) else r
    return f


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


def full_like(a, v, dtype=None, **k):
    r = zeros_like(a, dtype if dtype is not None else (float if isinstance(v, (float, Sym)) else None))
    r[...] = v
    return r


def _has_sym(x, depth=0):
    if isinstance(x, (Sym, Cond)):
        return True
    if isinstance(x, np.ndarray):
        return isinstance(x, _Mixin) or x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return builtins.any(_has_sym(e, depth + 1) for e in x)
    return False


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if not isinstance(x, (np.ndarray, list, tuple, Sym, float, int, np.generic, set, dict, str, bytes)) and x is not None:
        if hasattr(x, '__array__'):
            x = x.__array__()
        elif hasattr(x, '__iter__') and hasattr(x, '__len__') and hasattr(x, '__getitem__') and not isinstance(x, range):
            x = list(x)
    dt = _realtype(dtype)
    if isinstance(x, np.ndarray):
        b = base(x)
        if dt is not None and not _isfloat_dtype(dt) and np.dtype(dt) != object:
            if isinstance(x, _Mixin):
                r = x.astype(dt)
            else:
                r = np.array(b, dtype=dt)
        elif b.dtype.kind == 'f' or (dt is not None and _isfloat_dtype(dt)):
            r = b.astype(object) if b.dtype != object else (b.copy() if copy else b)
        else:
            r = b.copy() if copy else b
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        if subok and isinstance(x, np.matrix):
            return wrap(r, (x,))
        return wrap(r)
    if not _has_sym(x):
        r = np.array(x, dtype=dt, ndmin=ndmin)
        if r.dtype.kind == 'f':
            if r.ndim == 0:
                o = np.empty((), dtype=object)
                o[()] = float(r)
                return o.view(SArr)
            return r.astype(object).view(SArr)
        return r
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x
        r = o
    elif isinstance(x, Cond):
        r = np.array(bool(x))
        return r
    else:
        r = _nested(x)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if dt is not None and not _isfloat_dtype(dt) and np.dtype(dt) != object:
        return r.view(SArr).astype(dt)
    if r.size and r.dtype == object and all(isinstance(e, (bool, np.bool_, Cond)) for e in r.ravel()):
        return np.array([bool(e) for e in r.ravel()]).reshape(r.shape)
    return wrap(r)


def _nested(x):
    """object array from nested lists/arrays"""
    def shape(y):
        if isinstance(y, np.ndarray):
            return y.shape
        if isinstance(y, (list, tuple)):
            if not len(y):
                return (0,)
            ss = [shape(e) for e in y]
            if any(s != ss[0] for s in ss):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            return (len(y),) + ss[0]
        return ()
    sh = shape(x)
    r = np.empty(sh, dtype=object)

    def fill(y, idx):
        if isinstance(y, np.ndarray):
            b = base(y)
            for i in np.ndindex(*b.shape):
                r[idx + i] = b[i] if b.dtype == object else b[i].item()
        elif isinstance(y, (list, tuple)):
            for j, e in enumerate(y):
                fill(e, idx + (j,))
        else:
            r[idx] = y
    fill(x, ())
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, np.ndarray) and not isinstance(x, np.matrix) and dtype is None:
        return array(x, copy=False) if x.dtype.kind == 'f' and not isinstance(x, _Mixin) else x
    return array(x, dtype, copy=False)


def asanyarray(x, dtype=None, order=None, **k):
    if isinstance(x, _Mixin):
        return x
    return array(x, dtype, copy=False, subok=True)


def ascontiguousarray(x, dtype=None, **k):
    r = asarray(x, dtype)
    r = wrap(np.ascontiguousarray(base(r)))
    return r


def asfortranarray(x, dtype=None, **k):
    return ascontiguousarray(x, dtype)


def _matrix(data, dtype=None, copy=True):
    if isinstance(data, str):
        data = np.matrix(data)
        data = np.asarray(data)
    r = array(data, dtype, copy=copy)
    b = base(r)
    if b.ndim == 0:
        b = b.reshape(1, 1)
    elif b.ndim == 1:
        b = b.reshape(1, -1)
    elif b.ndim > 2:
        b2 = b.reshape([n for n in b.shape if n > 1]) if b.ndim > 2 else b
        if b2.ndim > 2:
            raise ValueError('matrix must be 2-dimensional')
        b = b2
        if b.ndim == 1:
            b = b.reshape(1, -1)
    if b.dtype == object:
        return b.view(SMat)
    return b.view(np.matrix)


def arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) and not x.isconst() for x in a):
        raise Unsupported('arange of a symbolic bound')
    a = [x if not isinstance(x, Sym) else (int(x.cval()) if x.cval().denominator == 1 else float(x.cval())) for x in a]
    r = np.arange(*a, dtype=_realtype(dtype))
    return wrap(r)


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = L(a), L(b)
    n = int(num)
    d = n - 1 if endpoint else n
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = a + (b - a) * Sym.const(Fraction(i, d)) if d else a
    return r.view(SArr)


def eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n, m, k)
    if _isfloat_dtype(dtype):
        return r.astype(object).view(SArr)
    return r.astype(_realtype(dtype))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


# ---------------------------------------------------------------------------
# elementwise functions on scalars or arrays
# ---------------------------------------------------------------------------

def _elementwise(name):
    k = UF1.get(name) or UF1B.get(name) or UF2.get(name) or UF2B.get(name)
    n = 1 if name in UF1 or name in UF1B else 2
    real = getattr(np, name, None)
    isb = name in UF1B or name in UF2B

    def f(*args, **kw):
        args = list(args)
        out = kw.pop('out', None)
        if len(args) > n:
            out = args.pop()
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args) and where is True:
            if any(hasattr(a, '_ln_pdf') for a in args):
                # let the object's own operators act, as numpy would on an object scalar
                return getattr(np, name)(*args)
            r = k(*args)
            return np.bool_(r) if isb else _scalar_out(r)
        for i, a in enumerate(args):
            if isinstance(a, (list, tuple)):
                args[i] = array(a)
            elif hasattr(a, '_ln_pdf'):
                return getattr(np, name)(*args)
        if isb and all(isinstance(a, np.ndarray) and not isinstance(a, _Mixin) or not isinstance(a, (Sym, np.ndarray)) for a in args):
            if not any(isinstance(a, np.ndarray) and a.dtype == object for a in args):
                return real(*args, **({'out': out} if out is not None else {}))
        aa = [a if isinstance(a, _Mixin) or not isinstance(a, np.ndarray) else wrap(a.astype(object), (a,)) if a.dtype != object else wrap(a, (a,)) for a in args]
        m = next((a for a in aa if isinstance(a, _Mixin)), None)
        if m is None:
            return real(*args)
        if out is not None:
            kw['out'] = out if isinstance(out, tuple) else (out,)
        if where is not True:
            kw['where'] = where
        fk = real if isinstance(real, np.ufunc) else _FakeUfunc(name)
        return m.__array_ufunc__(fk, '__call__', *aa, **kw)

    def reduce_(a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        return asarr(a).__array_ufunc__(real, 'reduce', asarr(a), axis=axis, keepdims=keepdims)

    def accumulate(a, axis=0, **kw):
        return asarr(a).__array_ufunc__(real, 'accumulate', asarr(a), axis=axis)

    def outer_(a, b):
        return wrap(_PY[name].outer(base(asarr(a)), base(asarr(b))))
    f.reduce = reduce_
    f.accumulate = accumulate
    f.outer = outer_
    f.__name__ = name
    return f


class _FakeUfunc(object):
    types = ()

    def __init__(self, n):
        self.__name__ = n


maximum = _elementwise('maximum')
minimum = _elementwise('minimum')


# ---------------------------------------------------------------------------
# other functions
# ---------------------------------------------------------------------------

def _strip(x):
    if isinstance(x, _Mixin):
        return base(x)
    if isinstance(x, np.matrix):
        return x
    if isinstance(x, list):
        return [_strip(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_strip(e) for e in x)
    return x


def _flatlike(args):
    for a in args:
        if isinstance(a, np.ndarray):
            yield a
        elif isinstance(a, (list, tuple)):
            for b in a:
                if isinstance(b, np.ndarray):
                    yield b


def generic(func, name, args, kwargs):
    like = list(_flatlike(args))
    try:
        impl = func
        r = impl(*_strip(tuple(args)), **{k: _strip(v) if not callable(v) else v for k, v in kwargs.items()})
    except (TypeError, ValueError, AttributeError) as e:
        if 'object' in str(e) or 'ufunc' in str(e) or 'Sym' in str(e):
            raise Unsupported('numpy.%s: %s' % (name, e))
        raise
    return wrap(r, like)


def _shape_sum(name):
    real = getattr(np, name)
    uf = {'sum': np.add, 'prod': np.multiply, 'product': np.multiply, 'max': np.maximum, 'amax': np.maximum, 'min': np.minimum, 'amin': np.minimum}[name]

    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
        if hasattr(a, '_ln_pdf'):
            return real(a, axis)
        if hasattr(a, '__iter__') and not isinstance(a, (np.ndarray, list, tuple)) and not hasattr(a, '__len__'):
            a = list(a)
        if isinstance(a, np.ndarray) and not isinstance(a, _Mixin) and a.dtype.kind in 'iub':
            return real(a, axis=axis)
        a = array(a, copy=False, subok=True)
        if not isinstance(a, _Mixin):
            return real(a, axis=axis, keepdims=keepdims) if keepdims else real(a, axis=axis)
        if isinstance(a, np.matrix) and axis is not None:
            keepdims = True
        kw = {} if initial is None else {'initial': initial}
        r = a.__array_ufunc__(uf, 'reduce', a, axis=axis, keepdims=keepdims, **kw)
        return r
    return f


def dot(a, b, out=None):
    mat = isinstance(a, np.matrix) or isinstance(b, np.matrix)
    a, b = _objarr(asarr(a)), _objarr(asarr(b))
    if a.ndim == 0 or b.ndim == 0:
        r = asarr(a[()] if a.ndim == 0 else a) * (b[()] if b.ndim == 0 else b.view(SArr) if b.dtype == object else b)
        return r
    if a.dtype != object and b.dtype != object:
        r = np.dot(a, b)
    else:
        r = np.dot(a.astype(object), b.astype(object))
    if isinstance(r, np.ndarray):
        r = r.view(SMat) if (mat and r.ndim == 2 and r.dtype == object) else wrap(r)
    return _scalar_out(r)


def tensordot(a, b, axes=2):
    r = np.tensordot(_o(a), _o(b), axes)
    return wrap(r)


def _o(a):
    a = base(asarr(a))
    return a.astype(object) if a.dtype != object else a


def matmul(a, b, **k):
    return wrap(np.matmul(_o(a), _o(b)))


def inner(a, b):
    r = np.inner(_o(a), _o(b))
    return _scalar_out(wrap(r))


def outer(a, b, out=None):
    return wrap(np.multiply.outer(_o(a).ravel(), _o(b).ravel()))


def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


def kron(a, b):
    mat = isinstance(a, np.matrix) or isinstance(b, np.matrix)
    r = np.kron(_o(a), _o(b))
    return wrap(np.asarray(r), (np.matrix([0]),) if mat else ())


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    mat = isinstance(a, np.matrix) or isinstance(b, np.matrix)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(_o(a), axisa, -1)
    b = np.moveaxis(_o(b), axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product\n(dimension must be 2 or 3)')
    a, b = a.view(SArr), b.view(SArr)
    c = stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
               a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)
    c = np.moveaxis(base(c), -1, axisc)
    return wrap(c, (np.matrix([0]),) if mat else ())


def stack(arrs, axis=0, **k):
    return wrap(np.stack([_o(x) for x in arrs], axis))


def einsum(sub, *ops, **k):
    ops = [_o(x) for x in ops]
    sub = sub.replace(' ', '')
    if '...' in sub:
        raise Unsupported('einsum ellipsis')
    ins, arrow, outl = sub.partition('->')
    ins = ins.split(',')
    if not arrow:
        letters = ''.join(ins)
        outl = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outl]
    r = np.empty([dims[c] for c in outl], dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(outl, oi))
        tot = ZERO
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = ONE
            for s, o in zip(ins, ops):
                p = k_mul(p, o[tuple(env[c] for c in s)])
            tot = k_add(tot, p)
        r[oi] = tot
    return wrap(r) if r.ndim else _scalar_out(r[()])


def where(c, *a):
    if isinstance(c, (Cond, Sym, bool, np.bool_)) and a:
        return a[0] if bool(c) else a[1]
    if isinstance(c, _Mixin):
        c = _boolarr(c)
    elif isinstance(c, (list, tuple)):
        c = np.array([bool(x) for x in c])
    if not a:
        return np.where(c)
    aa = [_objarr(asarr(x)) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a]
    sh = np.broadcast(c, *[x if isinstance(x, np.ndarray) else 0 for x in aa]).shape
    if all((isinstance(x, np.ndarray) and x.dtype.kind in 'iub') or isinstance(x, (int, np.integer)) for x in aa):
        return np.where(c, *aa)
    r = np.empty(sh, dtype=object)
    cb = np.broadcast_to(c, sh)
    bs = [np.broadcast_to(x, sh) if isinstance(x, np.ndarray) else None for x in aa]
    for i in np.ndindex(*sh):
        j = 0 if cb[i] else 1
        v = bs[j][i] if bs[j] is not None else aa[j]
        r[i] = v if not isinstance(v, np.generic) else v.item()
    return wrap(r) if sh else _scalar_out(r[()])


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = L(x), L(y)
        if isinstance(x, float) or isinstance(y, float):
            if _nn(x) or _nn(y):
                return equal_nan and _nn(x) and _nn(y)
            return isinstance(x, float) and isinstance(y, float) and x == y
        d = x - y
        t = lift(rtol) * abs(y) + lift(atol)
        if isinstance(d, Sym) and d.num.iszero():
            return True
        return bool(d <= t) and bool(-d <= t)
    if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
        return f(a, b)
    return np.frompyfunc(f, 2, 1)(_o(a), _o(b)).astype(bool)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(a == b))


def isin_np(name):
    return getattr(np, name)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    a, w = asarr(a), asarr(weights)
    if a.shape != w.shape and axis is not None:
        w = wrap(np.moveaxis(np.broadcast_to(base(w), np.moveaxis(base(a), axis, -1).shape), -1, axis))
    return np.add.reduce(a * w, axis=axis) / np.add.reduce(w, axis=axis)


def cumsum(a, axis=None, **k):
    a = asarr(a)
    if not isinstance(a, _Mixin):
        return np.cumsum(a, axis)
    if axis is None:
        a = a.ravel()
        axis = 0
    return wrap(_PY['add'].accumulate(base(a), axis=axis, dtype=object)) if a.size else a


def cumprod(a, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return wrap(_PY['multiply'].accumulate(base(a), axis=axis, dtype=object))


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl0 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl0[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl0)]
    return a


def sort(a, axis=-1, **k):
    a = asarr(a)
    if not isinstance(a, _Mixin):
        return np.sort(a, axis)
    return wrap(np.take_along_axis(base(a), _argsort(a, axis), axis))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    """covariance with reliability weights, as numpy documents it"""
    if y is not None or fweights is not None or not rowvar or not (_has_sym([m]) or (aweights is not None and _has_sym([aweights]))):
        if y is None and not _has_sym([m]) and (aweights is None or not _has_sym([aweights])):
            return np.cov(base(asarr(m)).astype(float), None, rowvar, bias, ddof, fweights,
                          None if aweights is None else base(asarr(aweights)).astype(float))
        raise Unsupported('numpy.cov')
    x = np.atleast_2d(base(asarr(m)))
    n = x.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    w = [L(1.0)] * n if aweights is None else [L(v) for v in base(asarr(aweights)).ravel()]
    if len(w) != n:
        raise RuntimeError('incompatible numbers of samples and aweights')
    s = sum(w[1:], w[0])
    fact = s if ddof == 0 else (s - ddof if aweights is None else s - ddof * sum([v * v for v in w[1:]], w[0] * w[0]) / s)
    r = x.shape[0]
    d = []
    for i in range(r):
        q = sum([L(x[i, j]) * w[j] for j in range(1, n)], L(x[i, 0]) * w[0]) / s
        d.append([L(x[i, j]) - q for j in range(n)])
    out = np.empty((r, r), dtype=object)
    for a in range(r):
        for b in range(a, r):
            out[a, b] = out[b, a] = sum([d[a][j] * d[b][j] * w[j] for j in range(1, n)], d[a][0] * d[b][0] * w[0]) / fact
    return wrap(out)


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarr(ar)
    if not isinstance(a, _Mixin):
        return np.unique(a, return_index, return_inverse, return_counts, axis=axis)
    b = base(a)
    if axis is None:
        cols = [(x,) for x in b.ravel()]
    else:
        mv = np.moveaxis(b, axis, 0)
        cols = [tuple(mv[i].ravel()) for i in range(mv.shape[0])]

    def cmp(x, y):
        for u, v in zip(x, y):
            u, v = L(u), L(v)
            if u < v:
                return -1
            if u > v:
                return 1
        return 0
    import functools
    order = sorted(range(len(cols)), key=functools.cmp_to_key(lambda i, j: cmp(cols[i], cols[j])))
    groups = []
    inv = [0] * len(cols)
    for i in order:
        if groups and cmp(cols[groups[-1][0]], cols[i]) == 0:
            groups[-1].append(i)
        else:
            groups.append([i])
        inv[i] = len(groups) - 1
    first = [min(g) for g in groups]
    if axis is None:
        u = wrap(b.ravel()[first])
    else:
        u = wrap(np.moveaxis(mv[first], 0, axis), (ar,) if isinstance(ar, np.matrix) else ())
    out = [u]
    if return_index:
        out.append(np.array(first, dtype=np.int64))
    if return_inverse:
        out.append(np.array(inv, dtype=np.int64))
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=np.int64))
    return out[0] if len(out) == 1 else tuple(out)


def lexsort(keys, axis=-1):
    import functools
    ks = [base(asarr(k)).ravel() for k in keys]

    def cmp(i, j):
        for k in reversed(ks):
            x, y = L(k[i]), L(k[j])
            if x < y:
                return -1
            if x > y:
                return 1
        return 0
    return np.array(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), dtype=np.int64)


def searchsorted(a, v, side='left', sorter=None):
    b = base(asarr(a))

    def one(x):
        k = 0
        for y in b:
            if (L(y) < L(x)) if side == 'left' else (L(y) <= L(x)):
                k += 1
            else:
                break
        return k
    if isinstance(v, (np.ndarray, list, tuple)):
        vv = base(asarr(v))
        return np.array([one(x) for x in vv.ravel()], dtype=np.int64).reshape(vv.shape)
    return one(v)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    mx = 1.7976931348623157e308
    pi_, ni = (mx if posinf is None else posinf), (-mx if neginf is None else neginf)

    def f(v):
        v = L(v)
        if isinstance(v, Sym):
            return v
        return nan if v != v else (pi_ if v > 0 else ni)
    if not isinstance(x, (np.ndarray, list, tuple)):
        return f(x)
    r = np.frompyfunc(f, 1, 1)(_o(x))
    if not copy:
        base(x)[...] = r
        return x
    return wrap(r, (x,))


def _nanred(uf):
    def f(a, axis=None, **k):
        a = asarr(a)
        nm = {'max': 'fmax', 'min': 'fmin'}.get(uf)
        if nm:
            return a.__array_ufunc__(getattr(np, nm), 'reduce', a, axis=axis)
        b = wrap(np.frompyfunc(lambda v: 0.0 if _nn(L(v)) else v, 1, 1)(base(a)))
        return np.add.reduce(b, axis=axis)
    return f


def logaddexp_reduce(*a):
    raise Unsupported('logaddexp.reduce')


def count_nonzero(a, axis=None, **k):
    a = asarr(a)
    if isinstance(a, _Mixin):
        a = _boolarr(a)
    return np.count_nonzero(a, axis)


def np_any(a, axis=None, **k):
    if isinstance(a, (Cond, Sym)):
        return bool(a)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, _Mixin):
        a = _boolarr(a)
    return np.any(a, axis)


def np_all(a, axis=None, **k):
    if isinstance(a, (Cond, Sym)):
        return bool(a)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, _Mixin):
        a = _boolarr(a)
    return np.all(a, axis)


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def clip(a, lo, hi, out=None, **k):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return k_min(k_max(a, lo), hi)
    r = asarr(a).clip(lo, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def trace(a, *k):
    a = asarr(a)
    s = ZERO
    for i in range(min(a.shape)):
        s = s + L(base(a)[i, i])
    return s


def diag(a, k=0):
    b = base(asarr(a))
    if b.dtype != object:
        return np.diag(b, k)
    if b.ndim == 1:
        n = b.size + builtins.abs(k)
        r = zeros((n, n))
        for i in range(b.size):
            r[i + max(0, -k), i + max(0, k)] = b[i]
        return r
    return wrap(np.array([b[i + max(0, -k), i + max(0, k)] for i in range(min(b.shape) - builtins.abs(k))], dtype=object))


class _errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


# dtype-like proxies usable both as types, converters and in isinstance -----------------

class _ProxyMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._real):
            return True
        return cls._symok and isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        try:
            return type.__subclasscheck__(cls, c) or issubclass(c, cls._real) or (cls._symok and c is Sym)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o == cls._real

    def __hash__(cls):
        return hash(cls._real)


class _Proxy(metaclass=_ProxyMeta):
    _real = float
    _symok = True


class _FloatProxy(_Proxy):
    _real = np.float64
    _symok = True

    def __new__(cls, x=0.0, *a):
        if isinstance(x, (Sym,)):
            return x
        if isinstance(x, _Mixin):
            if x.ndim == 0 or x.size == 1:
                return _scalar_out(_only(x))
            return x
        if isinstance(x, (list, tuple)):
            return array(x, dtype=float)
        return np.float64(x)


def _mkproxy(real, symok, conv=None):
    return _ProxyMeta(real.__name__, (_FloatProxy if symok else _Proxy,), {'_real': real, '_symok': symok})


float64 = _mkproxy(np.float64, True)


class _PyFloat(_Proxy):
    """replacement of builtins.float inside the code under test"""
    _real = builtins.float
    _symok = True

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, Cond):
            return builtins.float(bool(x))
        if isinstance(x, np.ndarray) and isinstance(x, _Mixin):
            v = _only(x)
            return v if isinstance(v, Sym) else builtins.float(v)
        hook = getattr(x, '__symfloat__', None)
        if hook is not None:
            return hook()
        own = getattr(type(x), '__float__', None)
        if isinstance(x, str) and '\ue000' in x:
            from . import text
            v = text.number(x)
            if v is None:
                raise ValueError('could not convert string to float: %r' % x)
            return v
        if own is not None and hasattr(own, '__code__'):
            return own(x)               # __float__ of the code under test may give a symbolic value
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _PyInt(_Proxy):
    _real = builtins.int
    _symok = False

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.sint(x)
        if isinstance(x, _Mixin):
            v = _only(x)
            return core.sint(v) if isinstance(v, Sym) else builtins.int(v)
        hook = getattr(x, '__symint__', None)
        if hook is not None:
            return hook()
        return builtins.int(x, *a)


# linalg -----------------------------------------------------------------------------------

def _det(m):
    n = m.shape[0]
    if n == 1:
        return L(m[0, 0])
    if n == 2:
        return L(m[0, 0]) * L(m[1, 1]) - L(m[0, 1]) * L(m[1, 0])
    s = ZERO
    for j in range(n):
        c = L(m[0, j])
        if isinstance(c, Sym) and c.num.iszero():
            continue
        sub = np.delete(np.delete(m, 0, 0), j, 1)
        d = c * _det(sub)
        s = s + d if j % 2 == 0 else s - d
    return s


class _Linalg(object):
    LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = asarr(x)
        if axis is None:
            if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim == 2):
                raise Unsupported('norm ord')
            s = ZERO
            for v in base(a).ravel():
                s = s + L(v) * L(v)
            return _scalar_out(core.ssqrt(s))
        if ord not in (None, 2):
            raise Unsupported('norm ord')
        r = np.add.reduce(a * a, axis=axis, keepdims=keepdims)
        return wrap(_PY['sqrt'](base(r))) if isinstance(r, np.ndarray) else core.ssqrt(L(r))

    def det(self, a):
        return _det(_o(a))

    def inv(self, a):
        mat = isinstance(a, np.matrix)
        m = _o(a)
        n = m.shape[0]
        d = _det(m)
        if bool(d == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        di = ONE / d
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sub = np.delete(np.delete(m, j, 0), i, 1)
                v = _det(sub) * di
                r[i, j] = v if (i + j) % 2 == 0 else -v
        return wrap(r, (a,) if mat else ())

    def solve(self, a, b):
        h = getattr(ctx(), 'linsolve', None)
        if h is not None:
            return h(a, b)
        return dot(self.inv(a), b)

    def eigh(self, a, UPLO='L'):
        return ctx().eigh(a)

    def eig(self, a):
        return ctx().eig(a)

    def eigvalsh(self, a, UPLO='L'):
        return ctx().eigh(a)[0]

    def eigvals(self, a):
        return ctx().eig(a)[0]

    def svd(self, a, *k, **kw):
        raise Unsupported('svd')

    def __getattr__(self, n):
        raise Unsupported('linalg.%s' % n)


linalg = _Linalg()


# random -------------------------------------------------------------------------------------

class Random(object):
    """random draws are fresh symbolic inputs rand#k in [0,1) and randn#k"""

    def _u(self):
        return ctx().draw('rand')

    def _n(self):
        return ctx().draw('randn')

    def _fill(self, size, f):
        if size is None or size == ():
            return f()
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        size = tuple(int(x) for x in size)
        r = np.empty(size, dtype=object)
        for i in np.ndindex(*size):
            r[i] = f()
        return r.view(SArr)

    def rand(self, *d):
        return self._fill(d if d else None, self._u)

    def random(self, size=None):
        return self._fill(size, self._u)

    random_sample = ranf = sample = random

    def randn(self, *d):
        return self._fill(d if d else None, self._n)

    def standard_normal(self, size=None):
        return self._fill(size, self._n)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray)):
            size = np.broadcast(loc, scale).shape
        z = self._fill(size, self._n)
        return k_add(k_mul(z, scale), loc) if not isinstance(z, np.ndarray) else z * scale + loc

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast(low, high).shape
        u = self._fill(size, self._u)
        if isinstance(u, np.ndarray):
            return u * (L(high) - L(low)) + low if not isinstance(high, np.ndarray) and not isinstance(low, np.ndarray) else u * (asarr(high) - low) + low
        return k_add(k_mul(u, k_sub(high, low)), low)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        f = lambda: low + ctx().choose_fresh('randint', int(high - low))
        if size is None:
            return f()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        r = np.empty(size, dtype=np.int64)
        for i in np.ndindex(*size):
            r[i] = f()
        return r

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported('choice with p')
        seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        f = lambda: seq[ctx().choose_fresh('randint', len(seq))]
        if size is None:
            return f()
        return array([f() for _ in range(int(np.prod(size)))]).reshape(size)

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    RandomState = default_rng

    def __getattr__(self, n):
        raise Unsupported('random.%s' % n)


random = Random()


CUSTOM = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
    array=array, asarray=asarray, asanyarray=asanyarray, ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray, arange=arange,
    linspace=linspace, eye=eye, identity=identity, dot=dot, tensordot=tensordot, matmul=matmul, inner=inner, outer=outer, vdot=vdot, kron=kron,
    cross=cross, einsum=einsum, where=where, isclose=isclose, allclose=allclose, array_equal=array_equal, average=average, mean=_mean, cumsum=cumsum,
    cumprod=cumprod, diff=diff, sort=sort, unique=unique, cov=cov, lexsort=lexsort, searchsorted=searchsorted, nan_to_num=nan_to_num,
    nanmax=_nanred('max'), nanmin=_nanred('min'), nansum=_nanred('sum'), count_nonzero=count_nonzero, any=np_any, all=np_all, isscalar=isscalar,
    clip=clip, trace=trace, diag=diag, stack=stack,
    nonzero=lambda a: _nonzero(asarr(a)), flatnonzero=lambda a: _nonzero(asarr(a).ravel())[0], argwhere=lambda a: np.argwhere(_boolarr(asarr(a))),
    argmax=lambda a, axis=None, **k: (lambda r: r.argmax(axis))(array(a, copy=False, subok=True)),
    argmin=lambda a, axis=None, **k: (lambda r: r.argmin(axis))(array(a, copy=False, subok=True)),
    argsort=lambda a, axis=-1, **k: (lambda r: r.argsort(axis))(asarr(a)),
    var=lambda a, axis=None, ddof=0, **k: _var(a, axis, ddof), std=lambda a, axis=None, ddof=0, **k: (lambda v: wrap(_PY['sqrt'](base(v))) if isinstance(v, np.ndarray) else core.ssqrt(L(v)))(_var(a, axis, ddof)),
    errstate=_errstate, seterr=lambda *a, **k: {}, geterr=lambda: {},
    copy=lambda a, **k: (a.copy() if isinstance(a, np.ndarray) else array(a)),
    real=lambda a: a if isinstance(a, (Sym, _Mixin)) else np.real(a),
    real_if_close=lambda a, **k: a,
    iscomplexobj=lambda a: False if isinstance(a, (Sym, _Mixin)) else np.iscomplexobj(a),
    isreal=lambda a: True if isinstance(a, Sym) else np.ones(np.shape(a), dtype=bool),
    iscomplex=lambda a: False if isinstance(a, Sym) else np.zeros(np.shape(a), dtype=bool),
    ndim=lambda a: 0 if isinstance(a, Sym) else np.ndim(_strip(a)),
    shape=lambda a: () if isinstance(a, Sym) else np.shape(_strip(a)),
    size=lambda a, axis=None: 1 if isinstance(a, Sym) else np.size(_strip(a), axis),
    around=lambda a, d=0, **k: a.round(d) if isinstance(a, _Mixin) else _round(a, d) if isinstance(a, Sym) else np.around(a, d),
    fix=None, mat=_matrix, asmatrix=lambda x, dtype=None: x if isinstance(x, np.matrix) else _matrix(x, dtype, copy=False),
    bmat=None, vectorize=np.vectorize, frompyfunc=np.frompyfunc,
)
CUSTOM = {k: v for k, v in CUSTOM.items() if v is not None}
CUSTOM['round'] = CUSTOM['round_'] = CUSTOM['around']
for _n in ('sum', 'prod', 'max', 'amax', 'min', 'amin'):
    CUSTOM[_n] = _shape_sum(_n)
CUSTOM['product'] = CUSTOM['prod']
for _n in list(UF1) + list(UF1B) + list(UF2) + list(UF2B):
    if hasattr(np, _n) and _n not in CUSTOM:
        CUSTOM[_n] = _elementwise(_n)


class Module(types.ModuleType):
    """the object bound to ``np`` in the code under test"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['__path__'] = []

    ndarray = np.ndarray
    matrix = SMat
    pi = PI
    e = None
    inf = INF
    Inf = INF
    infty = INF
    PINF = INF
    NINF = -INF
    nan = NAN
    NaN = NAN
    NAN = NAN
    newaxis = None
    linalg = linalg
    random = random
    float64 = float64
    float_ = float64
    double = float64
    longdouble = float64
    float32 = float64
    float = _PyFloat
    int = builtins.int
    bool = builtins.bool
    object = builtins.object

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in CUSTOM:
            return CUSTOM[name]
        real = getattr(np, name)      # AttributeError as numpy would
        if isinstance(real, (type, np.dtype)) or not callable(real):
            return real
        if isinstance(real, np.ufunc):
            def unsup(*a, **k):
                if _has_sym(list(a)):
                    raise Unsupported('ufunc %s' % name)
                return real(*a, **k)
            return unsup

        def g(*a, **k):
            return generic(real, name, a, {kk: _realtype(v) for kk, v in k.items()})
        g.__name__ = name
        return g


np_module = Module()
np_module.e = np.e
np_module.__dict__['__version__'] = np.__version__


# ---------------------------------------------------------------------------
# math, scipy, random
# ---------------------------------------------------------------------------

class MathModule(types.ModuleType):
    pi = PI
    e = math.e
    inf = INF
    nan = NAN
    tau = PI * 2

    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        ali = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power', 'fabs': 'fabs', 'fmod': 'fmod'}
        n = ali.get(name, name)
        if name == 'erf':
            return k_erf
        if name == 'erfc':
            return k_erfc
        if name in ('floor', 'ceil', 'trunc'):
            k = UF1[name]

            def fi(x):
                r = k(x)
                return int(r) if isinstance(r, Sym) else getattr(math, name)(r)
            return fi
        if n in UF1:
            k = UF1[n]
            dom = name in ('log', 'sqrt', 'asin', 'acos', 'log10', 'log2')

            def f(x, *b):
                r = k(x)
                if dom and isinstance(r, builtins.float) and (r != r or r == -INF) and not _nn(L(x)):
                    raise ValueError('math domain error')
                if b and name == 'log':
                    r = r / k(b[0])
                return r
            return f
        if n in UF2:
            return lambda a, b: UF2[n](a, b)
        if n in UF1B:
            return UF1B[n]
        if name == 'fsum':
            return lambda it: CUSTOM['sum'](array(list(it)))
        if name in ('factorial', 'gcd', 'isqrt', 'comb', 'perm'):
            return getattr(math, name)
        if name == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: isclose(a, b, rel_tol, abs_tol)
        if name in ('gamma', 'lgamma'):
            return lambda x: core.opaque(name, (x,), getattr(math, name)) if isinstance(x, Sym) and not x.isconst() else _lf(getattr(math, name)(builtins.float(x)))
        raise Unsupported('math.%s' % name)


def _lf(v):
    return lift(v)


def _vec(k):
    def f(*a, **kw):
        a = [asarr(x) if isinstance(x, (list, tuple)) else x for x in a]
        if not any(isinstance(x, np.ndarray) for x in a):
            return _scalar_out(k(*a))
        like = [x for x in a if isinstance(x, np.ndarray)]
        r = np.frompyfunc(k, len(a), 1)(*[_o(x) if isinstance(x, np.ndarray) else _box(x) for x in a])
        return wrap(r, like)
    return f


def k_npdf(x, loc=0, scale=1):
    x, loc, scale = L(x), L(loc), L(scale)
    z = k_div(k_sub(x, loc), scale)
    c = (core.sqrt_fraction(Fraction(2)) * Sym(core.Poly.atom(core._sqrtpi_atom()))).inv()
    return k_div(k_mul(c, core.sexp(L(k_mul(k_mul(z, z), Sym.const(Fraction(-1, 2)))))), scale)


def k_ncdf(x, loc=0, scale=1):
    z = k_div(k_sub(L(x), L(loc)), L(scale))
    return core.sncdf(z)


class _Norm(object):
    def pdf(self, x, loc=0, scale=1):
        return _vec(k_npdf)(x, loc, scale)

    def cdf(self, x, loc=0, scale=1):
        return _vec(k_ncdf)(x, loc, scale)

    def sf(self, x, loc=0, scale=1):
        return 1 - _vec(k_ncdf)(x, loc, scale)

    def logpdf(self, x, loc=0, scale=1):
        return _vec(lambda a, b, c: core.slog(L(k_npdf(a, b, c))))(x, loc, scale)

    def logcdf(self, x, loc=0, scale=1):
        return _vec(lambda a, b, c: core.slog(L(k_ncdf(a, b, c))))(x, loc, scale)

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return random.normal(loc, scale, size)

    def __getattr__(self, n):
        raise Unsupported('scipy.stats.norm.%s' % n)


def _beta_axioms(a):
    return [a.z > 0]


def sgamma(x):
    x = L(x)
    return core.opaque('gamma', (x,), math.gamma, _beta_axioms, '+')


def sbeta(a, b):
    a, b = L(a), L(b)
    return sgamma(a) * sgamma(b) / sgamma(a + b)


def arr(x):
    """object array of symbolic values"""
    return array(x)


def k_betapdf(x, a, b):
    x, a, b = L(x), L(a), L(b)
    if isinstance(x, float) or isinstance(a, float) or isinstance(b, float):
        return NAN
    if x < 0 or x > 1:
        return ZERO
    B = sbeta(a, b)
    return k_div(k_mul(k_pow(x, a - 1), k_pow(ONE - x, b - 1)), B)


class _Beta(object):
    def pdf(self, x, a, b, loc=0, scale=1):
        return _vec(k_betapdf)(x, a, b) if loc == 0 and scale == 1 else _vec(lambda x_, a_, b_, l, s: k_div(k_betapdf(k_div(k_sub(x_, l), s), a_, b_), s))(x, a, b, loc, scale)

    def rvs(self, a, b, loc=0, scale=1, size=None):
        return random._fill(size, lambda: loc + scale * ctx().draw('betarv', a, b))

    def __getattr__(self, n):
        raise Unsupported('scipy.stats.beta.%s' % n)


class _Lazy(types.ModuleType):
    def __init__(self, name, table, pkg=True):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(table)
        if pkg:
            self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def u(*a, **k):
            raise Unsupported('%s.%s' % (self.__name__, n))
        return u


def _logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    a = asarr(a)
    e = wrap(np.frompyfunc(lambda v: core.sym_exp(L(v)) if isinstance(L(v), Sym) else (ZERO if L(v) == -INF else L(v)), 1, 1)(base(a)))
    if b is not None:
        e = e * b
    return CUSTOM['log'](CUSTOM['sum'](e, axis=axis, keepdims=keepdims))


sp_special = _Lazy('scipy.special', dict(
    erf=_vec(k_erf), erfc=_vec(k_erfc), ndtr=_vec(lambda v: core.sncdf(L(v))), log_ndtr=_vec(lambda v: core.slog(L(core.sncdf(L(v))))),
    logsumexp=_logsumexp, xlogy=_vec(lambda x, y: ZERO if isinstance(L(x), Sym) and bool(L(x) == 0) else k_mul(x, core.slog(L(y)))),
    xlog1py=_vec(lambda x, y: k_mul(x, core.slog(L(y) + 1))),
    beta=_vec(sbeta), gamma=_vec(sgamma)))
sp_stats = _Lazy('scipy.stats', dict(norm=_Norm(), beta=_Beta()))
sp_misc = _Lazy('scipy.misc', dict(logsumexp=_logsumexp))
sp_linalg = _Lazy('scipy.linalg', dict(eigvalsh=lambda a, b=None, lower=True, check_finite=True, **k: linalg.eigh(a)[0], eigvals=lambda a, **k: linalg.eigvals(a), eigh=lambda a, b=None, lower=True, eigvals_only=False, check_finite=True, **k: linalg.eigh(a) if not eigvals_only else linalg.eigh(a)[0], eig=lambda a, **k: linalg.eig(a), norm=linalg.norm, det=linalg.det, inv=linalg.inv, solve=linalg.solve, LinAlgError=np.linalg.LinAlgError))
sp = _Lazy('scipy', dict(linalg=sp_linalg, special=sp_special, stats=sp_stats, misc=sp_misc, __version__='1.11.4'))
math_module = MathModule()


class PyRandom(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'random')

    def random(self):
        return random.rand()

    def uniform(self, a, b):
        return random.uniform(a, b)

    def gauss(self, m, s):
        return random.normal(m, s)

    normalvariate = gauss

    def seed(self, *a):
        pass

    def randint(self, a, b):
        return random.randint(a, b + 1)

    def choice(self, s):
        return s[ctx().choose_fresh('randint', len(s))]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random.%s' % n)


py_random = PyRandom()


# builtins seen by the code under test ----------------------------------------------------

def b_abs(x):
    return builtins.abs(x)


def b_sum(it, start=0):
    if isinstance(it, np.ndarray) and isinstance(it, _Mixin):
        it = list(it)
    s = start
    for x in it:
        s = s + x
    return s


def b_round(x, n=None):
    return x.__round__(n) if isinstance(x, Sym) else builtins.round(x, n) if n is not None else builtins.round(x)


def b_pow(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def b_bool(x=False):
    return builtins.bool(x)


BUILTINS = dict(float=_PyFloat, int=_PyInt, sum=b_sum, round=b_round)
REDIRECT = {'numpy': np_module, 'math': math_module, 'scipy': sp, 'scipy.special': sp_special, 'scipy.stats': sp_stats, 'scipy.misc': sp_misc,
            'scipy.linalg': sp_linalg, 'numpy.linalg': linalg, 'numpy.random': random, 'random': py_random}


def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    arrs = [a for a in inputs if isinstance(a, np.ndarray)]
    if not arrs:
        if method != '__call__':
            raise Unsupported('ufunc method on a scalar')
        name = ufunc.__name__
        k = UF1.get(name) or UF1B.get(name) or UF2.get(name) or UF2B.get(name)
        if k is None:
            raise Unsupported('ufunc %s' % name)
        return _scalar_out(k(*inputs))
    inputs = [wrap(a.astype(object), (a,)) if isinstance(a, np.ndarray) and not isinstance(a, _Mixin) else a for a in inputs]
    m = next(a for a in inputs if isinstance(a, _Mixin))
    return m.__array_ufunc__(ufunc, method, *inputs, **kw)


Sym.__array_ufunc__ = _sym_ufunc
Cond.__array_ufunc__ = _sym_ufunc
