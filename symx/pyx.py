"""Translates a .pyx module (parsed by Cython's own parser) to Python source that
runs on the symbolic values of symx.

C types are kept where they change the result: integer division, coercion of
typed variables, arrays indexed through pointers, typed memoryviews (dtype,
dimension and contiguity checks), address-of, C loop variables, and C functions
that cannot propagate exceptions.  Doubles are exact reals (plus inf and nan).
"""
import os
import types

import numpy as np

from . import core, snp
from .core import Sym, Unsupported, ctx

INF = float('inf')
NAN = float('nan')


# ---------------------------------------------------------------------------
# parsing
# ---------------------------------------------------------------------------

def parse(path):
    from Cython.Compiler import Main, Parsing
    from Cython.Compiler.Scanning import PyrexScanner, FileSourceDescriptor
    import Cython.Compiler.Symtab as S
    opts = Main.CompilationOptions(Main.default_options, language_level=2)
    ctx_ = Main.Context.from_options(opts) if hasattr(Main.Context, 'from_options') else opts.create_context()
    src = FileSourceDescriptor(path, path)
    scope = S.ModuleScope('m', None, ctx_)
    with open(path, encoding='utf8') as f:
        s = PyrexScanner(f, src, source_encoding='utf8', scope=scope, context=ctx_)
        return Parsing.p_module(s, path.endswith('.pxd'), 'm')


# ---------------------------------------------------------------------------
# runtime support
# ---------------------------------------------------------------------------

class OutOfBounds(Exception):
    """a C pointer or unchecked memoryview access outside its buffer"""


class Ptr(object):
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def _i(self, i):
        i = self.o + _I(i)
        if i < 0 or i >= len(self.b):
            raise OutOfBounds('pointer index %d outside buffer of %d' % (i, len(self.b)))
        return i

    def __getitem__(self, i):
        v = self.b[self._i(i)]
        return v

    def __setitem__(self, i, v):
        self.b[self._i(i)] = v

    def __add__(self, n):
        return Ptr(self.b, self.o + _I(n))

    __radd__ = __add__

    def __sub__(self, n):
        return self.b is n.b and self.o - n.o if isinstance(n, Ptr) else Ptr(self.b, self.o - _I(n))


def _scalar(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = x.reshape(-1)[0] if not isinstance(x, np.matrix) else x[0, 0]
        return _scalar(x)
    return x


def _D(x):
    """coercion to C double"""
    x = _scalar(x)
    if isinstance(x, Sym):
        return x
    if isinstance(x, core.Cond):
        return 1.0 if x else 0.0
    if isinstance(x, (bool, int, float, np.floating, np.integer, np.bool_)):
        return float(x)
    if hasattr(x, '__float__'):
        return float(x)
    raise TypeError('must be real number, not %s' % type(x).__name__)


def _I(x):
    """coercion to a C integer (implicit)"""
    if type(x) is int:
        return x
    x = _scalar(x)
    if isinstance(x, core.Cond):
        return 1 if x else 0
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if x != x or x in (INF, -INF):
            raise Unsupported('C integer from %r' % x)
        return int(x)
    if isinstance(x, Sym):
        return core.sint(x)
    raise TypeError('an integer is required')


def _B(x):
    return bool(x)


class _MVError(ValueError):
    pass


def _M(x, ndim, layout):
    """typed memoryview of doubles"""
    if x is None or isinstance(x, Ptr):
        return x
    if not isinstance(x, np.ndarray):
        raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)
    dt = np.ndarray.dtype.__get__(x)
    if dt.kind == 'O':
        pass
    elif dt != np.float64:
        raise ValueError("Buffer dtype mismatch, expected 'DTYPE_t' but got %r" % (dt,))
    if x.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, x.ndim))
    if layout == 'c' and not x.flags['C_CONTIGUOUS']:
        raise ValueError('ndarray is not C-contiguous')
    if isinstance(x, np.matrix):
        x = np.asarray(x)
    if not x.flags['WRITEABLE']:
        raise ValueError('buffer source array is read-only')
    if dt.kind != 'O':
        # element assignment must be able to hold symbolic values; views of the same buffer stay shared
        raise Unsupported('float64 buffer in a symbolic memoryview')
    return x


def _Mint(x, ndim, layout):
    if x is None:
        return x
    if not isinstance(x, np.ndarray):
        raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)
    if x.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, x.ndim))
    return x


def _addr(a, idx):
    """&a[idx]"""
    if isinstance(a, Ptr):
        return Ptr(a.b, a.o + _I(idx))
    if isinstance(a, list):
        return Ptr(a, _I(idx))
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = tuple(_I(i) for i in idx)
    if len(idx) != a.ndim:
        raise Unsupported('address of a slice')
    for i, n in zip(idx, a.shape):
        if i < 0 or i >= n:
            raise OutOfBounds('address of element %s of shape %s' % (idx, a.shape))
    if not a.flags['C_CONTIGUOUS']:
        raise Unsupported('address into a non-contiguous memoryview')
    flat = np.asarray(a).reshape(-1)
    off = 0
    for i, n in zip(idx, a.shape):
        off = off * n + i
    return Ptr(flat, off)


def _mvidx(a, idx):
    """memoryview element read/write index check (boundscheck off reads outside the buffer)"""
    return idx


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def _div(a, b, c):
    if _isint(a) and _isint(b):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if c:
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        return a // b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a / b
    if not c:
        if b == 0:
            raise ZeroDivisionError('float division')
    return core.sdiv(core.lift(a), core.lift(b))


def _mod(a, b, c):
    if _isint(a) and _isint(b):
        if c:
            return a - b * _div(a, b, True)
        return a % b
    if isinstance(a, (str, np.ndarray)):
        return a % b
    if c:
        return core.sfmod(core.lift(a), core.lift(b))
    return core.smod(core.lift(a), core.lift(b))


def _bounds(lo, hi, r1, r2, step):
    lo, hi = _I(lo), _I(hi)
    step = 1 if step is None else _I(step)
    if r1 == '<':
        lo += step
    if r1 == '>':
        lo -= step
    if r1 in ('<', '<='):
        if r2 == '<=':
            hi += 1
        return range(lo, hi, step)
    if r2 == '>=':
        hi -= 1
    return range(lo, hi, -step)


def _after(r):
    """value of the loop variable when the loop ends normally"""
    return r.start + len(r) * r.step


def _noexcept(default):
    def deco(f):
        def g(*a, **k):
            try:
                return f(*a, **k)
            except OutOfBounds:
                raise
            except Exception:
                return default
        g.__name__ = f.__name__
        return g
    return deco


class _CArr(list):
    pass


def _carr(n, zero):
    return Ptr([NAN if zero is None else zero] * n, 0)


# -- libc ---------------------------------------------------------------------

RAND_MAX = 2147483647


def _nan(x):
    return isinstance(x, float) and x != x


def c_fmax(x, y):
    if _nan(x):
        return y
    if _nan(y):
        return x
    return x if x >= y else y


def c_fmin(x, y):
    if _nan(x):
        return y
    if _nan(y):
        return x
    return x if x <= y else y


def c_rand():
    u = ctx().draw('crand')
    return u * RAND_MAX


def c_fmod(x, y):
    return core.sfmod(core.lift(x), core.lift(y))


def _l(f):
    return lambda *a: f(*[core.lift(_D(x)) for x in a])


def c_floor(x):
    x = core.lift(x)
    return x if isinstance(x, float) else float(core.sfloor(x))


def c_tgamma(x):
    return snp.sgamma(x)


def c_exp(x):
    return core.sexp(x)


LIBC = {
    'sqrt': _l(core.ssqrt), 'exp': _l(core.sexp), 'log': _l(core.slog), 'fabs': _l(core.sabs), 'cos': _l(core.scos), 'sin': _l(core.ssin),
    'tan': _l(core.stan), 'acos': _l(core.sacos), 'asin': _l(core.sasin), 'atan': _l(core.satan), 'atan2': _l(core.satan2), 'erf': _l(core.serf), 'pow': _l(core.spow),
    'fmod': c_fmod, 'fmax': c_fmax, 'fmin': c_fmin, 'tgamma': c_tgamma, 'floor': c_floor,
    'INFINITY': INF, 'HUGE_VAL': INF, 'NAN': NAN,
    'rand': c_rand, 'RAND_MAX': RAND_MAX, 'free': lambda p: None, 'abs': abs,
}


def libc(name):
    if name == 'M_PI':
        return core.PI
    if name == 'M_SQRT2':
        return core.ssqrt(core.lift(2))
    if name in LIBC:
        return LIBC[name]
    if name == 'erfc':
        return lambda x: 1 - core.serf(core.lift(_D(x)))
    if name == 'isnan':
        return lambda x: _nan(x)
    if name == 'isinf':
        return lambda x: isinstance(x, float) and x in (INF, -INF)
    raise Unsupported('libc %s' % name)


# ---------------------------------------------------------------------------
# translation
# ---------------------------------------------------------------------------

INTS = ('int', 'long', 'short', 'size_t', 'Py_ssize_t', 'LONG', 'char', 'ssize_t')
FLOATS = ('double', 'float', 'DTYPE_t')


class Ty(object):
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Ty(%s)' % self.__dict__


OBJ = Ty('O')


class Translator(object):
    def __init__(self, tree, name):
        self.tree = tree
        self.name = name
        self.out = []
        self.ind = 0
        self.typedefs = {}
        self.fn = None
        self.locals = {}
        self.boxed = set()
        self.cdiv = False
        self.tmp = 0
        self.rtype = None
        self.globals_ = set()
        self.functions = []
        self.gtypes = {}

    # -- output
    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def block(self, node):
        n = len(self.out)
        self.ind += 1
        if node is not None:
            self.stat(node)
        if len(self.out) == n:
            self.emit('pass')
        self.ind -= 1

    # -- types
    def base(self, b):
        n = type(b).__name__
        if n == 'MemoryViewSliceTypeNode':
            el = self.base(b.base_type_node)
            layout = ''
            if b.axes:
                last = b.axes[-1]
                st = last.step
                if type(st).__name__ == 'IntNode' and st.value == '1':
                    layout = 'c'
                first = b.axes[0]
                st = first.step
                if len(b.axes) > 1 and type(st).__name__ == 'IntNode' and st.value == '1':
                    layout = 'f'
            return Ty('M', el=el, ndim=len(b.axes), layout=layout)
        if n == 'CSimpleBaseTypeNode':
            nm = b.name
            if nm is None:
                return OBJ
            if getattr(b, 'module_path', None):
                return OBJ
            if nm in self.typedefs:
                return self.typedefs[nm]
            if nm in FLOATS:
                return Ty('D')
            if nm in INTS:
                return Ty('I')
            if nm == 'bint':
                return Ty('B')
            if nm == 'void':
                return Ty('V')
            return OBJ
        if n in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.base(b.base_type)
        if n == 'TemplatedTypeNode':
            return OBJ
        raise Unsupported('pyx base type %s' % n)

    def decl(self, d, base):
        """-> (name, Ty, default)"""
        n = type(d).__name__
        if n == 'CNameDeclaratorNode':
            return d.name, base, d.default
        if n == 'CPtrDeclaratorNode':
            return self.decl(d.base, Ty('P', el=base))
        if n == 'CArrayDeclaratorNode':
            return self.decl(d.base, Ty('A', el=base, dim=self.expr(d.dimension)))
        if n == 'CFuncDeclaratorNode':
            inner = d.base
            nm, ty, df = self.decl(inner, Ty('F'))
            return nm, Ty('F'), df
        raise Unsupported('pyx declarator %s' % n)

    def coerce(self, ty, e):
        k = ty.k
        if k == 'D':
            return '_D(%s)' % e
        if k == 'I':
            return '_I(%s)' % e
        if k == 'B':
            return '_B(%s)' % e
        if k == 'M':
            if ty.el.k == 'D':
                return '_M(%s, %d, %r)' % (e, ty.ndim, ty.layout)
            return '_Mint(%s, %d, %r)' % (e, ty.ndim, ty.layout)
        return e

    # -- expressions
    def expr(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('pyx expression %s' % type(n).__name__)
        return m(n)

    def e_NameNode(self, n):
        if n.name in self.boxed:
            return '%s[0]' % n.name
        return n.name

    def e_IntNode(self, n):
        v = str(n.value).rstrip('lLuU')
        return v

    def e_FloatNode(self, n):
        return repr(float(n.value)) if 'nan' not in n.value else n.value

    def e_StringNode(self, n):
        return repr(str(n.value))

    e_UnicodeNode = e_BytesNode = e_IdentifierStringNode = e_StringNode

    def e_NoneNode(self, n):
        return 'None'

    def e_BoolNode(self, n):
        return repr(bool(n.value))

    def e_EllipsisNode(self, n):
        return 'Ellipsis'

    def e_AddNode(self, n):
        return '(%s + %s)' % (self.expr(n.operand1), self.expr(n.operand2))

    def e_SubNode(self, n):
        return '(%s - %s)' % (self.expr(n.operand1), self.expr(n.operand2))

    def e_MulNode(self, n):
        return '(%s * %s)' % (self.expr(n.operand1), self.expr(n.operand2))

    def e_DivNode(self, n):
        if n.operator == '//':
            return '(%s // %s)' % (self.expr(n.operand1), self.expr(n.operand2))
        return '_div(%s, %s, %r)' % (self.expr(n.operand1), self.expr(n.operand2), self.cdiv)

    def e_ModNode(self, n):
        return '_mod(%s, %s, %r)' % (self.expr(n.operand1), self.expr(n.operand2), self.cdiv)

    def e_PowNode(self, n):
        return '(%s ** %s)' % (self.expr(n.operand1), self.expr(n.operand2))

    def e_IntBinopNode(self, n):
        return '(%s %s %s)' % (self.expr(n.operand1), n.operator, self.expr(n.operand2))

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.expr(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.expr(n.operand)

    def e_NotNode(self, n):
        return '(not %s)' % self.expr(n.operand)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.expr(n.operand1), n.operator, self.expr(n.operand2))

    def e_PrimaryCmpNode(self, n):
        s = '(%s' % self.expr(n.operand1)
        c = n
        while c is not None:
            op = {'not_in': 'not in', 'is_not': 'is not', '<>': '!='}.get(c.operator, c.operator)
            s += ' %s %s' % (op, self.expr(c.operand2))
            c = c.cascade
        return s + ')'

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.expr(n.true_val), self.expr(n.test), self.expr(n.false_val))

    def e_TupleNode(self, n):
        return '(%s%s)' % (', '.join(self.expr(a) for a in n.args), ',' if len(n.args) == 1 else '')

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.expr(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.expr(k.key), self.expr(k.value)) for k in n.key_value_pairs)

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.expr(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.expr(n.base), self.index(n.index))

    def index(self, i):
        if type(i).__name__ == 'TupleNode':
            return ', '.join(self.index(a) for a in i.args)
        if type(i).__name__ == 'SliceNode':
            f = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
            s = '%s:%s' % (f(i.start), f(i.stop))
            st = f(i.step)
            return s + (':' + st if st else '')
        return self.expr(i)

    def e_SliceIndexNode(self, n):
        f = lambda x: '' if x is None else self.expr(x)
        return '%s[%s:%s]' % (self.expr(n.base), f(n.start), f(n.stop))

    def e_SimpleCallNode(self, n):
        return '%s(%s)' % (self.expr(n.function), ', '.join(self.expr(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        args = self.expr(n.positional_args) if n.positional_args is not None else '()'
        kw = n.keyword_args
        return '%s(*%s%s)' % (self.expr(n.function), args, ', **%s' % self.expr(kw) if kw is not None else '')

    def e_MergedDictNode(self, n):
        return '{%s}' % ', '.join('**%s' % self.expr(a) for a in n.keyword_args)

    def e_AsTupleNode(self, n):
        return 'tuple(%s)' % self.expr(n.arg)

    def e_TypecastNode(self, n):
        _, ty, _ = self.decl(n.declarator, self.base(n.base_type))
        e = self.expr(n.operand)
        if ty.k == 'P':
            raise Unsupported('pyx pointer cast')
        return self.coerce(ty, e)

    def e_AmpersandNode(self, n):
        o = n.operand
        t = type(o).__name__
        if t == 'NameNode':
            if o.name in self.boxed:
                return 'Ptr(%s, 0)' % o.name
            return o.name               # address of a function
        if t == 'IndexNode':
            return '_addr(%s, (%s))' % (self.expr(o.base), self.index(o.index))
        raise Unsupported('pyx address of %s' % t)

    def e_ListComp(self, n):
        raise Unsupported('pyx comprehension')

    def e_ImportNode(self, n):
        raise Unsupported('pyx import expression')

    # -- statements
    def stat(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('pyx statement %s' % type(n).__name__)
        return m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_PassStatNode(self, n):
        self.emit('pass')

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('StringNode', 'UnicodeNode', 'BytesNode', 'IdentifierStringNode'):
            return
        if type(n.expr).__name__ == 'ImportNode':
            return
        self.emit(self.expr(n.expr))

    def target(self, t, val):
        k = type(t).__name__
        if k == 'NameNode':
            ty = self.locals.get(t.name) if self.fn else self.gtypes.get(t.name)
            if ty is None and self.fn and t.name in getattr(self, 'globals_', ()):
                ty = self.gtypes.get(t.name)
            if ty is not None:
                val = self.coerce(ty, val)
            if t.name in self.boxed:
                self.emit('%s[0] = %s' % (t.name, val))
            else:
                self.emit('%s = %s' % (t.name, val))
        elif k in ('IndexNode', 'AttributeNode', 'SliceIndexNode'):
            self.emit('%s = %s' % (self.expr(t), val))
        elif k in ('TupleNode', 'ListNode'):
            self.tmp += 1
            v = '_t%d' % self.tmp
            self.emit('%s = tuple(%s)' % (v, val))
            self.emit('if len(%s) != %d: raise ValueError("unpack")' % (v, len(t.args)))
            for i, a in enumerate(t.args):
                self.target(a, '%s[%d]' % (v, i))
        else:
            raise Unsupported('pyx assignment to %s' % k)

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            mod = self.expr(n.rhs.module_name)
            mod = eval(mod)
            self.emit('import %s as %s' % (mod, n.lhs.name) if mod != n.lhs.name else 'import %s' % mod)
            return
        self.target(n.lhs, self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        v = '_t%d' % self.tmp
        self.emit('%s = %s' % (v, self.expr(n.rhs)))
        for t in n.lhs_list:
            self.target(t, v)

    def s_ParallelAssignmentNode(self, n):
        vs = []
        for s in n.stats:
            self.tmp += 1
            vs.append('_t%d' % self.tmp)
            self.emit('%s = %s' % (vs[-1], self.expr(s.rhs)))
        for s, v in zip(n.stats, vs):
            self.target(s.lhs, v)

    def s_InPlaceAssignmentNode(self, n):
        lhs = self.expr(n.lhs)
        op = n.operator
        rhs = self.expr(n.rhs)
        name = n.lhs.name if type(n.lhs).__name__ == 'NameNode' else None
        ty = self.locals.get(name) if name else None
        if op == '/':
            val = '_div(%s, %s, %r)' % (lhs, rhs, self.cdiv)
        elif op == '%':
            val = '_mod(%s, %s, %r)' % (lhs, rhs, self.cdiv)
        elif name and ty is None and name not in self.boxed:
            self.emit('%s %s= %s' % (lhs, op, rhs))     # Python object: in-place semantics
            return
        else:
            val = '%s %s (%s)' % (lhs, op, rhs)
        self.target(n.lhs, val)

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.emit('%s %s:' % ('if' if i == 0 else 'elif', self.expr(c.condition)))
            self.block(c.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.emit('while %s:' % (self.expr(n.condition) if n.condition is not None else 'True'))
        self.block(n.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        self.tmp += 1
        r = '_r%d' % self.tmp
        self.emit('%s = _bounds(%s, %s, %r, %r, %s)' % (r, self.expr(n.bound1), self.expr(n.bound2), n.relation1, n.relation2,
                                                       self.expr(n.step) if n.step is not None else 'None'))
        v = n.target.name
        if v in self.boxed:
            raise Unsupported('loop variable whose address is taken')
        self.emit('for %s in %s:' % (v, r))
        self.block(n.body)
        self.emit('else:')
        self.ind += 1
        self.emit('%s = _after(%s)' % (v, r))
        self.ind -= 1
        if n.else_clause is not None:
            self.ind += 1
            self.stat(n.else_clause)
            self.ind -= 1

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        if type(n.target).__name__ == 'NameNode' and n.target.name not in self.boxed:
            tgt = n.target.name
            self.emit('for %s in %s:' % (tgt, self.forseq(it)))
            self.block(n.body)
        else:
            self.tmp += 1
            v = '_t%d' % self.tmp
            self.emit('for %s in %s:' % (v, self.forseq(it)))
            self.ind += 1
            self.target(n.target, v)
            self.ind -= 1
            self.block(n.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def forseq(self, it):
        if type(it).__name__ == 'SimpleCallNode' and type(it.function).__name__ in ('NameNode', 'AttributeNode'):
            nm = getattr(it.function, 'name', None) or getattr(it.function, 'attribute', None)
            if nm in ('range', 'xrange', 'prange'):
                return 'range(%s)' % ', '.join('_I(%s)' % self.expr(a) for a in it.args)
        return self.expr(it)

    def s_ReturnStatNode(self, n):
        if n.value is None:
            d = getattr(self, 'rtype', None)
            self.emit('return %s' % ('None'))
            return
        e = self.expr(n.value)
        ty = self.rtype
        self.emit('return %s' % (self.coerce(ty, e) if ty is not None else e))

    def s_BreakStatNode(self, n):
        self.emit('break')

    def s_ContinueStatNode(self, n):
        self.emit('continue')

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.emit('raise')
        elif n.exc_value is not None:
            self.emit('raise %s(%s)' % (self.expr(n.exc_type), self.expr(n.exc_value)))
        else:
            self.emit('raise %s' % self.expr(n.exc_type))

    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None)
        if c is None:
            c = n.cond
        self.emit('assert %s' % self.expr(c))

    def s_TryExceptStatNode(self, n):
        self.emit('try:')
        self.block(n.body)
        for c in n.except_clauses:
            pats = c.pattern or []
            pat = '(%s,)' % ', '.join(self.expr(p) for p in pats) if pats else 'Exception'
            self.emit('except %s%s:' % (pat, ' as ' + c.target.name if c.target is not None else ''))
            self.block(c.body)
        if n.else_clause is not None:
            self.emit('else:')
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.emit('try:')
        self.block(n.body)
        self.emit('finally:')
        self.block(n.finally_clause)

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_WithStatNode(self, n):
        self.stat(n.body)

    def s_DelStatNode(self, n):
        for a in n.args:
            self.emit('del %s' % self.expr(a))

    def s_GlobalNode(self, n):
        self.emit('global %s' % ', '.join(n.names))
        self.globals_ = set(getattr(self, 'globals_', ())) | set(n.names)

    def s_CVarDefNode(self, n):
        base = self.base(n.base_type)
        for d in n.declarators:
            nm, ty, df = self.decl(d, base)
            if not nm:
                continue
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            (self.locals if self.fn else self.gtypes)[nm] = ty
            if ty.k == 'A':
                self.emit('%s = _carr(%s, %s)' % (nm, ty.dim, 'None'))
                continue
            if df is not None:
                v = self.coerce(ty, self.expr(df))
            elif ty.k in ('D', 'I', 'B') and nm in self.boxed:
                v = '0' if ty.k != 'D' else '0.0'
            else:
                continue
            self.emit('%s = %s' % (nm, '[%s]' % v if nm in self.boxed else v))

    def s_CDefExternNode(self, n):
        raise Unsupported('pyx extern block')

    def s_CImportStatNode(self, n):
        pass

    def s_FromCImportStatNode(self, n):
        mod = str(n.module_name)
        for it in n.imported_names:
            nm, asn = it[1], it[2] or it[1]
            nm, asn = str(nm), str(asn)
            if mod.startswith('libc.'):
                self.emit('%s = _libc(%r)' % (asn, nm))
            elif mod.startswith('cpython') or mod.startswith('cython'):
                pass
            else:
                self.emit('from %s import %s as %s' % (mod, nm, asn))

    def s_FromImportStatNode(self, n):
        mod = eval(self.expr(n.module.module_name))
        lvl = n.module.level
        if lvl in (-1, 0, None):
            lvl = 0
        for nm, tgt in n.items:
            self.emit('from %s%s import %s as %s' % ('.' * lvl, mod, nm, tgt.name))

    def s_CTypeDefNode(self, n):
        nm, ty, _ = self.decl(n.declarator, self.base(n.base_type))
        if nm == 'DTYPE_t':
            ty = Ty('D')
        self.typedefs[nm] = ty

    def s_PyClassDefNode(self, n):
        pass

    def s_CClassDefNode(self, n):
        raise Unsupported('pyx cdef class')

    def s_PropertyNode(self, n):
        raise Unsupported('pyx property')

    # -- functions
    def directives(self, decorators):
        cdiv = self.default_cdiv
        for d in decorators or []:
            e = d.decorator
            if type(e).__name__ == 'SimpleCallNode' and type(e.function).__name__ == 'AttributeNode' and e.function.attribute == 'cdivision':
                cdiv = bool(e.args[0].value)
        return cdiv

    default_cdiv = False

    def boxed_names(self, body):
        from Cython.Compiler.Visitor import TreeVisitor
        names = set()
        fnames = self.function_names

        class V(TreeVisitor):
            def visit_Node(s, x):
                if type(x).__name__ == 'AmpersandNode' and type(x.operand).__name__ == 'NameNode' and x.operand.name not in fnames:
                    names.add(x.operand.name)
                s.visitchildren(x)
        V().visit(body)
        return names

    def func(self, name, args, body, rtype, cdiv, noexc):
        self.functions.append(name)
        saved = (self.locals, self.boxed, self.cdiv, self.fn, self.rtype, self.globals_)
        ind0 = self.ind
        self.locals, self.cdiv, self.fn = {}, cdiv, name
        self.globals_ = set()
        self.boxed = self.boxed_names(body)
        self.rtype = rtype
        mark = len(self.out)
        try:
            params, pro = [], []
            for a in args:
                base = self.base(a.base_type) if a.base_type is not None else OBJ
                d = a.declarator
                nm, ty, df = self.decl(d, base)
                if not nm and type(a.base_type).__name__ == 'CSimpleBaseTypeNode':
                    nm, ty = a.base_type.name, OBJ      # untyped argument
                if getattr(a, 'default', None) is not None:
                    df = a.default
                self.locals[nm] = ty if ty.k != 'O' else None
                if self.locals[nm] is None:
                    del self.locals[nm]
                params.append(nm + ('=%s' % self.expr(df) if df is not None else ''))
                c = self.coerce(ty, nm)
                if nm in self.boxed:
                    pro.append('%s = [%s]' % (nm, c))
                elif c != nm:
                    pro.append('%s = %s' % (nm, c))
            if noexc is not None:
                self.emit('@_noexcept(%s)' % noexc)
            self.emit('def %s(%s):' % (name, ', '.join(params)))
            self.ind += 1
            for p in pro:
                self.emit(p)
            self.ind -= 1
            if pro:
                self.ind += 1
                n = len(self.out)
                self.stat(body)
                self.ind -= 1
            else:
                self.block(body)
        except Unsupported as e:
            del self.out[mark:]
            self.emit('def %s(*a, **k):' % name)
            self.ind = ind0
            self.emit('    raise _Unsupported(%r)' % ('pyx function %s: %s' % (name, e)))
        finally:
            self.locals, self.boxed, self.cdiv, self.fn, self.rtype, self.globals_ = saved
            self.ind = ind0

    def s_CFuncDefNode(self, n):
        d = n.declarator
        rbase = self.base(n.base_type)
        while type(d).__name__ == 'CPtrDeclaratorNode':
            rbase = Ty('P', el=rbase)
            d = d.base
        name = d.base.name
        noexc = None
        exc = getattr(d, 'exception_value', None)
        if not n.overridable or True:
            if rbase.k in ('D', 'I', 'B', 'V') and exc is None and not getattr(d, 'exception_check', False):
                noexc = {'D': '0.0', 'I': '0', 'B': 'False', 'V': 'None'}[rbase.k]
        self.func(name, d.args, n.body, None if rbase.k == 'V' else rbase, self.directives(n.decorators), noexc)

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            self.emit('def %s(*a, **k):' % n.name)
            self.emit("    raise _Unsupported('pyx star arguments')")
            return
        self.func(n.name, n.args, n.body, None, self.directives(n.decorators), None)

    def run(self):
        from Cython.Compiler.Visitor import TreeVisitor
        names = self.function_names = set()
        dirs = getattr(self.tree, 'directive_comments', {}) or {}
        self.default_cdiv = bool(dirs.get('cdivision', False))

        class V(TreeVisitor):
            def visit_Node(s, x):
                t = type(x).__name__
                if t == 'CFuncDefNode':
                    d = x.declarator
                    while type(d).__name__ == 'CPtrDeclaratorNode':
                        d = d.base
                    names.add(d.base.name)
                elif t == 'DefNode':
                    names.add(x.name)
                s.visitchildren(x)
        V().visit(self.tree)
        body = self.tree.body
        self.rtype = None
        self.stat(body)
        return '\n'.join(self.out) + '\n'


def translate(path, name):
    tree = parse(path)
    t = Translator(tree, name)
    return t.run(), t


_SRC = {}


def load(name, path, world):
    with open(path, 'rb') as f:
        key = (path, hash(f.read()))
    if key not in _SRC:
        _SRC[key] = translate(path, name)
    src, tr = _SRC[key]
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name.rpartition('.')[0]
    m.__builtins__ = dict(world.builtins)
    m.__dict__.update({'_D': _D, '_I': _I, '_B': _B, '_M': _M, '_Mint': _Mint, '_addr': _addr, '_div': _div, '_mod': _mod, '_bounds': _bounds,
                       '_after': _after, '_noexcept': _noexcept, '_carr': _carr, 'Ptr': Ptr, '_libc': libc, '_Unsupported': Unsupported})
    m.__source_py__ = src
    world.mods[name] = m
    try:
        exec(compile(src, path + '<translated>', 'exec'), m.__dict__)
    except BaseException:
        world.mods.pop(name, None)
        raise
    return m


if __name__ == '__main__':
    import sys
    print(translate(sys.argv[1], 'x')[0])
