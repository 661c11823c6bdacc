"""Symbolic scalars.

A ``Sym`` is a *finite real* given as a rational function (polynomial numerator,
factored polynomial denominator) over *atoms*.  Base atoms are the harness
inputs; derived atoms stand for sqrt, |.|, sin, cos, exp, log, erf and inverse
trigonometric functions of other Syms.  Every derived atom carries

  * a reduction rule where one exists (sqrt(p)^2 -> p, sin^2 -> 1-cos^2, ...),
    used to keep terms in normal form,
  * solver axioms (its defining equation and range), handed to z3 with every
    query that mentions the atom,
  * a float evaluator, used to turn solver models into concrete inputs.

+-inf and nan are *not* Syms: they are ordinary Python floats living next to
Syms in object arrays; operations that may produce them fork the execution.
"""
import math
import itertools
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The encoding does not cover this operation (never a verdict)."""


class Infeasible(BaseException):
    """Raised to abandon the current symbolic path."""


# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------

class Atom(object):
    __slots__ = ('id', 'name', 'kind', 'z', 'ev', 'axioms', 'sign', 'red', 'args', 'meta', 'deps', '_axdone')

    def __init__(self, name, kind, ev=None, sign=None, args=(), meta=None):
        self.id = len(ATOMS)
        self.name = name
        self.kind = kind
        self.z = z3.Real('%s!%d' % (name, self.id))
        self.ev = ev          # callable(env)->float (None for base atoms)
        self.axioms = []      # list of z3 expressions / callables giving them
        self.sign = sign      # '+', '0+', '-', '0-', None
        self.red = None       # (2, Poly): a**2 -> Poly
        self.args = args
        self.meta = meta
        self.deps = None
        ATOMS.append(self)

    def __repr__(self):
        return self.name


ATOMS = []
_ATOM_TABLE = {}


def intern_atom(key, make):
    a = _ATOM_TABLE.get(key)
    if a is None:
        a = make()
        _ATOM_TABLE[key] = a
    return a


# --------------------------------------------------------------------------
# Polynomials: dict mono -> Fraction, mono = tuple((atom_id, exp), ...)
# --------------------------------------------------------------------------

F0 = Fraction(0)
F1 = Fraction(1)
_MM = {}


def _mono_mul(m1, m2):
    """product of two monomials as a poly dict (reduction rules applied)"""
    if not m1:
        return {m2: F1}
    if not m2:
        return {m1: F1}
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = _MM.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    exps = [(a, e) for a, e in d.items() if ATOMS[a].kind == 'exp']
    if len(exps) > 1 or (exps and exps[0][1] > 1):
        arg = None
        for a, e in exps:
            del d[a]
            t = ATOMS[a].args[0] * e
            arg = t if arg is None else arg + t
        ex = sym_exp_atom(arg)
        assert not ex.den
        extra = ex.num.t
    red = []
    for a in list(d):
        rule = ATOMS[a].red
        if rule is not None and d[a] >= rule[0]:
            k = rule[0]
            q, rem = divmod(d[a], k)
            if rem:
                d[a] = rem
            else:
                del d[a]
            red.append((rule[1], q))
    out = {tuple(sorted(d.items())): F1}
    for p, q in red:
        for _ in range(q):
            out = _dmul(out, p.t)
    if extra is not None:
        out = _dmul(out, extra)
    _MM[key] = out
    return out


def _dmul(d1, d2):
    out = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            c = c1 * c2
            pr = _mono_mul(m1, m2)
            for m, cc in pr.items():
                v = out.get(m)
                v = c * cc if v is None else v + c * cc
                if v:
                    out[m] = v
                elif m in out:
                    del out[m]
    return out


class Poly(object):
    __slots__ = ('t', '_h', '_z', '_s')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._s = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): F1})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.t == o.t

    def iszero(self):
        return not self.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F0)

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        out = dict(self.t)
        for m, c in o.t.items():
            v = out.get(m, F0) + c
            if v:
                out[m] = v
            else:
                del out[m]
        return Poly(out)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Poly(_dmul(self.t, o.t))

    def scale(self, c):
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()}) if c else Poly({})

    def lead(self):
        return max(self.t)

    def monic(self):
        """(coefficient, monic polynomial)"""
        c = self.t[self.lead()]
        if c == 1:
            return c, self
        return c, Poly({m: v / c for m, v in self.t.items()})

    def content(self):
        """(rational content, {atom: exp} common monomial, primitive poly)"""
        c, _ = self.monic()
        mons = list(self.t)
        common = dict(mons[0])
        for m in mons[1:]:
            dm = dict(m)
            for a in list(common):
                e = min(common[a], dm.get(a, 0))
                if e:
                    common[a] = e
                else:
                    del common[a]
            if not common:
                break
        out = {}
        for m, v in self.t.items():
            dm = dict(m)
            for a, e in common.items():
                dm[a] -= e
                if not dm[a]:
                    del dm[a]
            out[tuple(sorted(dm.items()))] = v / c
        return c, common, Poly(out)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def z(self):
        if self._z is None:
            terms = []
            for m, c in self.t.items():
                f = [z3.RealVal(str(c))] if c != 1 or not m else []
                for a, e in m:
                    f.extend([ATOMS[a].z] * e)
                terms.append(f[0] if len(f) == 1 else z3.Product(f))
            self._z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        return self._z

    def ev(self, env):
        s = 0.0
        for m, c in self.t.items():
            v = float(c)
            for a, e in m:
                v *= ev_atom(a, env) ** e
            s += v
        return s

    def exact_div(self, d):
        """exact quotient self/d as polynomials in free atoms, or None"""
        if len(d.t) == 1:
            (m, c), = d.t.items()
            out = {}
            dm = dict(m)
            for mm, cc in self.t.items():
                e = dict(mm)
                for a, k in dm.items():
                    if e.get(a, 0) < k:
                        return None
                    e[a] -= k
                    if not e[a]:
                        del e[a]
                out[tuple(sorted(e.items()))] = cc / c
            return Poly(out)
        if len(self.t) > 400 or len(d.t) > 60:
            return None
        # multivariate division with a proper lexicographic monomial order
        ids = sorted(self.atoms() | d.atoms())
        if not d.atoms() <= self.atoms():
            return None
        pos = {a: i for i, a in enumerate(ids)}
        n = len(ids)

        def vec(m):
            v = [0] * n
            for a, e in m:
                v[pos[a]] = e
            return tuple(v)
        num = {vec(m): c for m, c in self.t.items()}
        den = {vec(m): c for m, c in d.t.items()}
        lm = max(den)
        lc = den[lm]
        q = {}
        steps = 0
        while num:
            steps += 1
            if steps > 2000:
                return None
            m = max(num)
            if any(x < y for x, y in zip(m, lm)):
                return None
            qm = tuple(x - y for x, y in zip(m, lm))
            qc = num[m] / lc
            q[qm] = qc
            for dm, dc in den.items():
                k = tuple(x + y for x, y in zip(qm, dm))
                v = num.get(k, F0) - qc * dc
                if v:
                    num[k] = v
                else:
                    num.pop(k, None)
        return Poly({tuple((ids[i], e) for i, e in enumerate(v) if e): c for v, c in q.items()})

    def psqrt(self):
        """polynomial square root over free atoms or None"""
        if not self.t:
            return self
        if len(self.t) > 120:
            return None
        ids = sorted(self.atoms())
        pos = {a: i for i, a in enumerate(ids)}
        n = len(ids)

        def vec(m):
            v = [0] * n
            for a, e in m:
                v[pos[a]] = e
            return tuple(v)
        num = {vec(m): c for m, c in self.t.items()}
        lm = max(num)
        if any(e % 2 for e in lm):
            return None
        c = frac_sqrt(num[lm])
        if c is None:
            return None
        lead = tuple(e // 2 for e in lm)
        root = {lead: c}
        rem = dict(num)
        rem.pop(lm)
        steps = 0
        while rem:
            steps += 1
            if steps > 60:
                return None
            m = max(rem)
            if any(x < y for x, y in zip(m, lead)):
                return None
            qm = tuple(x - y for x, y in zip(m, lead))
            if not qm < lead:
                return None
            qc = rem[m] / (2 * c)
            # rem -= 2*q*root + q^2
            for rm, rc in list(root.items()):
                k = tuple(x + y for x, y in zip(qm, rm))
                v = rem.get(k, F0) - 2 * qc * rc
                if v:
                    rem[k] = v
                else:
                    rem.pop(k, None)
            k = tuple(2 * x for x in qm)
            v = rem.get(k, F0) - qc * qc
            if v:
                rem[k] = v
            else:
                rem.pop(k, None)
            root[qm] = root.get(qm, F0) + qc
        return Poly({tuple((ids[i], e) for i, e in enumerate(v) if e): c for v, c in root.items()})

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m, c in sorted(self.t.items()):
            s.append('%s%s' % (c, ''.join('*%s%s' % (ATOMS[a].name, '^%d' % e if e > 1 else '') for a, e in m)))
        r = ' + '.join(s)
        return r if len(r) < 400 else r[:400] + '...(%d terms)' % len(s)


def frac_sqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


PZERO = Poly({})
PONE = Poly.const(1)


def ev_atom(aid, env):
    v = env.get(aid)
    if v is None:
        a = ATOMS[aid]
        if a.ev is None:
            raise KeyError(a.name)
        v = a.ev(env)
        env[aid] = v
    return v


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------

def _mk_pi():
    a = Atom('pi', 'const', ev=lambda env: math.pi, sign='+')
    a.axioms = [a.z > z3.RealVal('3.14159265358979323'), a.z < z3.RealVal('3.14159265358979324')]
    return a


PI_ATOM = _mk_pi()


def _isqrt_atom(p):
    """sqrt of a (small) prime as an atom"""
    def make():
        a = Atom('sqrt%d' % p, 'sqrtc', ev=lambda env: math.sqrt(p), sign='+')
        a.red = (2, Poly.const(p))
        a.axioms = [a.z > 0, a.z * a.z == p]
        return a
    return intern_atom(('sqrtc', p), make)


def _sqrtpi_atom():
    def make():
        a = Atom('sqrtpi', 'sqrtc', ev=lambda env: math.sqrt(math.pi), sign='+')
        a.red = (2, Poly.atom(PI_ATOM))
        a.axioms = [a.z > 0, a.z * a.z == PI_ATOM.z]
        return a
    return intern_atom(('sqrtpi',), make)


def _factor(n):
    f = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def sqrt_fraction(c):
    """sqrt of a non-negative rational as a Sym"""
    if c == 0:
        return ZERO
    n = c.numerator * c.denominator
    r = Fraction(1, c.denominator)
    s = math.isqrt(n)
    if s * s == n:
        return Sym.const(r * s)
    out = PONE
    for p, e in _factor(n).items():
        r *= p ** (e // 2)
        if e % 2:
            out = out * Poly.atom(_isqrt_atom(p))
    return Sym(out.scale(r))


# --------------------------------------------------------------------------
# Sym
# --------------------------------------------------------------------------

class Ctx(object):
    """hook object replaced by the explorer"""
    def decide(self, cond):
        raise Unsupported('symbolic condition outside an exploration: %r' % (cond,))

    def sign_fact(self, poly):
        return None


CUR = [Ctx()]


def ctx():
    return CUR[0]


_SIGNMUL = {('+', '+'): '+', ('+', '0+'): '0+', ('0+', '0+'): '0+'}


def _norm_sign(s):
    return s


def poly_sign(p, use_ctx=True):
    """syntactic sign knowledge: '+', '0+', '-', '0-', '0', None"""
    if not p.t:
        return '0'
    if p.isconst():
        return '+' if p.cval() > 0 else '-'
    s = p._s
    if s is None:
        s = _poly_sign_syn(p)
        p._s = s or 'none'
    if s != 'none' and s in ('+', '-'):
        return s
    s = None if s == 'none' else s
    if use_ctx:
        f = ctx().sign_fact(p)
        if f is not None:
            return f
    return s


def _poly_sign_syn(p):
    return _poly_sign_terms(p) or _poly_sign_box(p) or _poly_sign_ground(p)


_GROUND_ATOM = {}


def _is_ground(i):
    """no input occurs in the atom"""
    r = _GROUND_ATOM.get(i)
    if r is None:
        a = ATOMS[i]
        if a.kind in ('const', 'sqrtc'):
            r = True
        elif a.ev is None or a.kind in ('base', 'choice') or a.z.is_int():
            r = False
        else:
            _, seen = closure_axioms({i})
            r = all(j == i or (ATOMS[j].ev is not None and ATOMS[j].kind not in ('base', 'choice') and not ATOMS[j].z.is_int()) for j in seen)
        _GROUND_ATOM[i] = r
    return r


def _poly_sign_ground(p):
    """sign from the signs of the constant coefficients (sums of products of constants, evaluated when far from zero)"""
    if len(p.t) < 2 or len(p.t) > 400:
        return None
    ids = p.atoms()
    g = set(i for i in ids if _is_ground(i))
    if not g:
        return None
    groups = {}
    try:
        for m, c in p.t.items():
            rest = tuple(x for x in m if x[0] not in g)
            x = float(c)
            for a, e in m:
                if a in g:
                    x *= ev_atom(a, {}) ** e
            v = groups.setdefault(rest, [0.0, 0.0])
            v[0] += x
            v[1] += abs(x)
    except Exception:
        return None
    if len(groups) == len(p.t):
        return None
    for v, s in groups.values():
        if not abs(v) > 1e-6 * s:
            return None
    return _poly_sign_terms(Poly({m: (F1 if v > 0 else -F1) for m, (v, _) in groups.items()}))


def _poly_sign_box(p):
    """sign of a polynomial in sines and cosines from its Bernstein coefficients over the box of their (squared) values"""
    from math import comb
    if len(p.t) > 200:
        return None
    ids = sorted(p.atoms())
    if len(ids) > 5 or not any(ATOMS[a].kind in ('sin', 'cos') for a in ids):
        return None
    step = []
    for a in ids:
        at = ATOMS[a]
        if at.kind not in ('sin', 'cos'):
            return None
        if all(dict(m).get(a, 0) % 2 == 0 for m in p.t):
            step.append(2)
        elif at.sign in ('+', '0+'):
            step.append(1)
        else:
            return None
    t = {}
    deg = [0] * len(ids)
    for m, c in p.t.items():
        d = dict(m)
        v = tuple(d.get(a, 0) // k for a, k in zip(ids, step))
        deg = [max(x, y) for x, y in zip(deg, v)]
        t[v] = c
    size = 1
    for d in deg:
        size *= d + 1
    if size > 600:
        return None
    # power to Bernstein basis, one variable at a time
    for i, d in enumerate(deg):
        new = {}
        for v, c in t.items():
            for j in range(v[i], d + 1):
                k = v[:i] + (j,) + v[i + 1:]
                new[k] = new.get(k, F0) + c * Fraction(comb(j, v[i]), comb(d, v[i]))
        t = new
    vals = list(t.values()) + ([F0] if len(t) < size else [])
    if min(vals) >= 0:
        return '+' if min(vals) > 0 else '0+'
    if max(vals) <= 0:
        return '-' if max(vals) < 0 else '0-'
    return None


def _poly_sign_terms(p):
    pos = neg = False
    strict = False
    for m, c in p.t.items():
        strictm = True
        sg = 1 if c > 0 else -1
        for a, e in m:
            s = ATOMS[a].sign
            if s is None:
                if e % 2:
                    return None
                strictm = False
            elif s == '+':
                pass
            elif s == '0+':
                strictm = False
            elif s in ('-', '0-'):
                if e % 2:
                    sg = -sg
                if s == '0-':
                    strictm = False
        if sg > 0:
            pos = True
        else:
            neg = True
        strict = strict or strictm
        if pos and neg:
            return None
    if pos:
        return '+' if strict else '0+'
    return '-' if strict else '0-'


INF = float('inf')
NAN = float('nan')


TOKENS = [False]      # str() of a symbolic value is a token (symx.text) that float() reads back


class Sym(object):
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (monic Poly, exp), sorted by key
        self._k = None

    # -- construction ----------------------------------------------------
    @staticmethod
    def const(c):
        return Sym(Poly.const(c))

    @staticmethod
    def of_atom(a):
        return Sym(Poly.atom(a))

    def isconst(self):
        return not self.den and self.num.isconst()

    def cval(self):
        return self.num.cval()

    def key(self):
        if self._k is None:
            self._k = (self.num.key(), tuple((p.key(), e) for p, e in self.den))
        return self._k

    def __hash__(self):
        if self.isconst():
            return hash(self.cval())
        return hash(self.key())

    def same(self, o):
        return self.key() == o.key()

    def atoms(self):
        s = self.num.atoms()
        for p, _ in self.den:
            s |= p.atoms()
        return s

    # -- arithmetic ------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o        # inf / nan
        if not self.den and not o.den:
            r = self.num + o.num
            if len(r.t) == 2 and getattr(ctx(), 'erf_diff', False):
                r = _erf_diff(r)
            return Sym(r)
        if self.den == o.den:
            return mk(self.num + o.num, dict(self.den))
        d1, d2 = dict(self.den), dict(o.den)
        common = dict(d1)
        for p, e in d2.items():
            common[p] = max(common.get(p, 0), e)
        n1, n2 = self.num, o.num
        for p, e in common.items():
            for _ in range(e - d1.get(p, 0)):
                n1 = n1 * p
            for _ in range(e - d2.get(p, 0)):
                n2 = n2 * p
        return mk(n1 + n2, common)

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.num, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _mul_special(self, o)
        if not self.den and not o.den:
            return Sym(self.num * o.num)
        if self.num.iszero() or o.num.iszero():
            return ZERO
        # cancel across before multiplying
        n1, d2 = _cancel(self.num, dict(o.den))
        n2, d1 = _cancel(o.num, dict(self.den))
        for p, e in d2.items():
            d1[p] = d1.get(p, 0) + e
        return mk(n1 * n2, d1)

    __rmul__ = __mul__

    def inv(self):
        """1/self, self known non-zero"""
        num = PONE
        for p, e in self.den:
            for _ in range(e):
                num = num * p
        c, common, prim = self.num.content()
        r = Sym(num.scale(1 / c))
        for a, e in common.items():
            at = ATOMS[a]
            for _ in range(e):
                r = r * _inv_atom(at)
        if prim.isconst():
            return r.__mul__(Sym.const(1 / prim.cval())) if prim.cval() != 1 else r
        c2, mon = prim.monic()
        # exps: divide out a common exponential to normalise
        n, d = _cancel(r.num.scale(1 / c2), _addden(dict(r.den), mon, 1))
        return mk(n, d)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return NAN if o != o else ZERO
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            s = sign_of(self, zero_as=1)
            return o * s
        return sdiv(o, self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        q = self / o
        return sfloor(q)

    def __rfloordiv__(self, o):
        return sfloor(o / self)

    def __mod__(self, o):
        o = lift(o)
        if isinstance(o, float):
            if o == INF and (self >= 0):
                return self
            return NAN
        return smod(self, o)

    def __rmod__(self, o):
        o = lift(o)
        if isinstance(o, float):
            return NAN
        return smod(o, self)

    def __pow__(self, o):
        o = lift(o)
        if isinstance(o, float):
            raise Unsupported('pow with non-finite exponent')
        return spow(self, o)

    def __rpow__(self, o):
        o = lift(o)
        if isinstance(o, float):
            raise Unsupported('non-finite base')
        return spow(o, self)

    def __abs__(self):
        return sabs(self)

    # -- comparisons -----------------------------------------------------
    def __lt__(self, o):
        return cmp_cond(self, o, '<')

    def __le__(self, o):
        return cmp_cond(self, o, '<=')

    def __gt__(self, o):
        return cmp_cond(self, o, '>')

    def __ge__(self, o):
        return cmp_cond(self, o, '>=')

    def __eq__(self, o):
        return cmp_cond(self, o, '==')

    def __ne__(self, o):
        return cmp_cond(self, o, '!=')

    def __bool__(self):
        return bool(self != 0)

    # -- conversions -----------------------------------------------------
    def __float__(self):
        if self.isconst():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value at a native boundary')

    def __int__(self):
        return int(sint(self))

    def __index__(self):
        if self.isconst() and self.cval().denominator == 1:
            return int(self.cval())
        raise Unsupported('symbolic value used as an index')

    def __round__(self, n=None):
        if self.isconst():
            return round(self.cval(), n) if n is not None else round(self.cval())
        raise Unsupported('round of a symbolic value')

    def __repr__(self):
        if not self.den:
            return 'S(%r)' % self.num
        return 'S((%r)/%s)' % (self.num, '*'.join('(%r)^%d' % (p, e) for p, e in self.den))

    def __str__(self):
        from . import text
        if self.isconst():
            return str(float(self.cval()))
        return text.token(self) if TOKENS[0] else repr(self)

    def __format__(self, spec):
        if self.isconst():
            return format(float(self.cval()), spec)
        if TOKENS[0]:
            if spec:
                raise Unsupported('format %s of a symbolic value' % spec)
            return str(self)
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (SymPickle.put(self),))

    # numpy scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('float64')

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def squeeze(self, *a):
        return self

    def is_integer(self):
        return self.isconst() and self.cval().denominator == 1

    # element methods numpy's object loops look for
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return stan(self)

    def ev(self, env):
        v = self.num.ev(env)
        for p, e in self.den:
            v /= p.ev(env) ** e
        return v


class SymPickle(object):
    store = []

    @classmethod
    def put(cls, s):
        cls.store.append(s)
        return len(cls.store) - 1


def _unpickle(i):
    return SymPickle.store[i]


def _addden(d, p, e):
    d[p] = d.get(p, 0) + e
    return d


def _inv_atom(at):
    """1/atom for a nonzero atom"""
    if at.kind == 'exp':
        return sym_exp_atom(-at.args[0])
    if at.red is not None and at.kind in ('sqrtc', 'sqrt', 'abs'):
        # 1/r = r/p
        p = at.red[1]
        return Sym(Poly.atom(at)) * Sym(p).inv()
    return Sym(PONE, ((Poly.atom(at), 1),))


def _div_reduced(n, p):
    """n/a for an atom a with a^2 = P, when P divides n: a*(n/P)"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    at = ATOMS[m[0][0]]
    if at.red is None or at.red[0] != 2:
        return None
    q = n.exact_div(at.red[1])
    if q is None:
        return None
    return (q * Poly.atom(at)).scale(1 / c)


def _cancel(n, d):
    """cancel polynomial n against factored denominator d (dict)"""
    if n.iszero():
        return n, {}
    out = {}
    for p, e in d.items():
        while e and len(n.t) >= 1:
            if p.isconst():
                n = n.scale(1 / p.cval())
                e -= 1
                continue
            q = n.exact_div(p)
            if q is None:
                q = _div_reduced(n, p)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[p] = e
    return n, out


def mk(n, d):
    if n.iszero():
        return ZERO
    n, d = _cancel(n, d)
    if not d:
        return Sym(n)
    return Sym(n, tuple(sorted(d.items(), key=lambda pe: pe[0].key())))


ZERO = Sym(PZERO)
ONE = Sym(PONE)
PI = Sym(Poly.atom(PI_ATOM))


# -- lifting floats ---------------------------------------------------------

_CONST_TABLE = None


def _build_consts():
    global _CONST_TABLE
    tab = {}

    def add(v, s):
        if v not in tab:
            tab[v] = s
    import math as m
    for q in (1, 2, 3, 4, 6, 8, 12, 16):
        for p in range(1, 25):
            fr = Fraction(p, q)
            add(m.pi * float(fr), PI * Sym.const(fr))
            add(float(p) * m.pi / q, PI * Sym.const(fr))
    for q in (180, 360):
        add(m.pi / q, PI * Sym.const(Fraction(1, q)))
        add(q / m.pi, PI.inv() * Sym.const(q))
    for p in (1, 2, 3, 4, 6, 8):
        for q in (1, 2, 3, 4, 6, 8):
            add(p / m.pi / q, PI.inv() * Sym.const(Fraction(p, q)))
            add(p / (q * m.pi), PI.inv() * Sym.const(Fraction(p, q)))
    for k in (2, 3, 5, 6, 7, 10):
        s = sqrt_fraction(Fraction(k))
        for q in range(1, 13):
            for p in range(1, 13):
                fr = Fraction(p, q)
                add(m.sqrt(k) * p / q, s * Sym.const(fr))
                add(p / m.sqrt(k) / q, s.inv() * Sym.const(fr))
    for k in (Fraction(1, 2), Fraction(2, 3), Fraction(1, 3), Fraction(3, 2), Fraction(1, 6), Fraction(5, 2), Fraction(1, 5)):
        add(m.sqrt(float(k)), sqrt_fraction(k))
        add(2 * m.sqrt(float(k)), sqrt_fraction(k) * 2)
    sp = Sym(Poly.atom(_sqrtpi_atom()))
    s2 = sqrt_fraction(Fraction(2))
    add(m.sqrt(m.pi), sp)
    add(m.sqrt(2 * m.pi), sp * s2)
    add(1 / m.sqrt(2 * m.pi), (sp * s2).inv())
    add(m.sqrt(2 / m.pi), s2 * sp.inv())
    add(2 / m.sqrt(m.pi), sp.inv() * 2)
    add(1 / m.sqrt(m.pi), sp.inv())
    add(m.sqrt(m.pi / 2), sp * s2.inv())
    add(m.sqrt(m.pi) * 2, sp * 2)
    out = {}
    for v, s in tab.items():
        fr = Fraction(repr(v))
        if len(repr(v).replace('.', '').replace('-', '').lstrip('0')) < 14:
            continue
        out[v] = s
        for w in (m.nextafter(v, INF), m.nextafter(v, -INF)):
            out.setdefault(w, s)
            for w2 in (m.nextafter(w, INF), m.nextafter(w, -INF)):
                out.setdefault(w2, s)
    _CONST_TABLE = out


_LIFT = {}


def lift(x):
    """Sym for a finite number; float for inf/nan; NotImplemented otherwise"""
    if isinstance(x, Sym):
        return x
    t = type(x)
    if t is int or t is bool:
        s = _LIFT.get(x)
        if s is None:
            s = _LIFT[x] = Sym.const(int(x))
        return s
    if t is float:
        return lift_float(x)
    if t is Fraction:
        return Sym.const(x)
    if isinstance(x, float):
        return lift_float(float(x))
    if hasattr(x, 'dtype'):
        import numpy
        if isinstance(x, (numpy.integer, numpy.bool_)):
            return Sym.const(int(x))
        if isinstance(x, numpy.floating):
            return lift_float(float(x))
        if isinstance(x, numpy.ndarray) and x.ndim == 0:
            return lift(x.item())
        return NotImplemented
    if isinstance(x, int):
        return Sym.const(int(x))
    if isinstance(x, Cond):
        return ONE if bool(x) else ZERO
    return NotImplemented


def lift_float(x):
    s = _LIFT.get(('f', x))
    if s is not None:
        return s
    if x != x or x in (INF, -INF):
        return x
    if x == int(x) and abs(x) < 1e15:
        s = Sym.const(int(x))
    else:
        if _CONST_TABLE is None:
            _build_consts()
        s = _CONST_TABLE.get(x)
        if s is None:
            s = _CONST_TABLE.get(-x)
            if s is not None:
                s = -s
            else:
                fr = Fraction(repr(float(x)))
                if fr.denominator > 10 ** 12:
                    # a rounded quotient of small integers (1/3 computed on plain floats)
                    q = Fraction(float(x)).limit_denominator(2000)
                    if q.numerator and abs(float(q) - x) <= 2.3e-16 * abs(x):
                        fr = q
                s = Sym.const(fr)
    _LIFT[('f', x)] = s
    return s


# -- special float rules ------------------------------------------------------

def _mul_special(s, f):
    if f != f:
        return f
    sg = sign_of(s)
    return NAN if sg == 0 else f * sg


def sign_of(s, zero_as=0):
    """-1/0/1 for a Sym (forks when undetermined)"""
    if isinstance(s, float):
        if s != s:
            return NAN
        return (s > 0) - (s < 0) or zero_as
    if s > 0:
        return 1
    if s < 0:
        return -1
    return zero_as


def sdiv(a, b):
    """numpy/IEEE division of finite reals"""
    if b.isconst():
        c = b.cval()
        if c != 0:
            return Sym(a.num.scale(1 / c), a.den)
        sg = sign_of(a)
        return NAN if sg == 0 else sg * INF
    if bool(b == 0):
        sg = sign_of(a)
        return NAN if sg == 0 else sg * INF
    return a * b.inv()


# -- conditions ---------------------------------------------------------------

class Cond(object):
    """a boolean over Syms: ('cmp', op, num-sign-polynomial) or and/or/not"""
    __slots__ = ('k', 'a', '_key')

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._key = None

    def key(self):
        if self._key is None:
            if self.k == 'cmp':
                self._key = ('cmp', self.a[0], self.a[1].key())
            elif self.k == 'z':
                self._key = ('z', self.a[0].get_id(), str(self.a[0]))
            elif self.k == 'const':
                self._key = ('const', self.a)
            else:
                self._key = (self.k,) + tuple(c.key() for c in self.a)
        return self._key

    def __bool__(self):
        return ctx().decide(self)

    def __invert__(self):
        return cnot(self)

    def __and__(self, o):
        return cand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return cor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(self.key())

    # arithmetic on booleans realises the branch
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def any(self, *a):
        return bool(self)

    def all(self, *a):
        return bool(self)

    def z(self):
        if self.k == 'const':
            return z3.BoolVal(self.a)
        if self.k == 'cmp':
            op, p = self.a
            e = p.z()
            return {'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0}[op]
        if self.k == 'z':
            return self.a[0]
        if self.k == 'not':
            return z3.Not(self.a[0].z())
        f = z3.And if self.k == 'and' else z3.Or
        return f(*[c.z() for c in self.a])

    def atoms(self):
        if self.k == 'const':
            return set()
        if self.k == 'cmp':
            return self.a[1].atoms()
        if self.k == 'z':
            return set(self.a[2])
        s = set()
        for c in self.a:
            s |= c.atoms()
        return s

    def ev(self, env, margin=0.0):
        """float evaluation: True/False, or None when within the margin"""
        if self.k == 'const':
            return self.a
        if self.k == 'z':
            return self.a[1](env) if self.a[1] else None
        if self.k == 'cmp':
            op, p = self.a
            v = 0.0
            s = 0.0
            for m, c in p.t.items():
                t = float(c)
                for a, e in m:
                    t *= ev_atom(a, env) ** e
                v += t
                s += abs(t)
            tol = 1e-9 * s + 1e-300
            if v != v:
                return None
            if abs(v) <= tol and op != '!=' and op != '==':
                return None
            if op in ('==', '!='):
                z = abs(v) <= tol
                if z and margin:
                    return None
                return z if op == '==' else not z
            return {'<': v < 0, '<=': v < 0, '>': v > 0, '>=': v > 0}[op]
        if self.k == 'not':
            r = self.a[0].ev(env, margin)
            return None if r is None else not r
        rs = [c.ev(env, margin) for c in self.a]
        if self.k == 'and':
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False

    def __repr__(self):
        if self.k == 'cmp':
            return '(%r %s 0)' % (self.a[1], self.a[0])
        if self.k == 'z':
            return str(self.a[0])
        return '%s%r' % (self.k, self.a)


TRUE = Cond('const', True)
FALSE = Cond('const', False)

_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def as_cond(c):
    if isinstance(c, Cond):
        return c
    if isinstance(c, Sym):
        return c != 0 if isinstance(c != 0, Cond) else as_cond(c != 0)
    return TRUE if bool(c) else FALSE


def cnot(c):
    c = as_cond(c)
    if c.k == 'const':
        return FALSE if c.a else TRUE
    if c.k == 'cmp':
        return norm_cmp(_NEG[c.a[0]], c.a[1])
    if c.k == 'not':
        return c.a[0]
    if c.k == 'and':
        return cor(*[cnot(x) for x in c.a])
    if c.k == 'or':
        return cand(*[cnot(x) for x in c.a])
    return Cond('not', (c,))


def cand(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c.k == 'const':
            if not c.a:
                return FALSE
            continue
        out.extend(c.a if c.k == 'and' else [c])
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c.k == 'const':
            if c.a:
                return TRUE
            continue
        out.extend(c.a if c.k == 'or' else [c])
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond('or', tuple(out))


def cimplies(a, b):
    return cor(cnot(a), b)


def zcond(expr, ev=None, atoms=()):
    """raw z3 condition (used for integer choice variables)"""
    return Cond('z', (expr, ev, tuple(atoms)))


def norm_cmp(op, p):
    """canonical comparison p op 0 with monic p"""
    if p.isconst():
        v = p.cval()
        return TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0}[op] else FALSE
    # drop factors of known strict sign
    c, common, prim = p.content()
    flip = c < 0
    keep = []
    drop_even = []
    for a, e in common.items():
        s = ATOMS[a].sign
        if s == '+':
            continue
        if s == '-':
            if e % 2:
                flip = not flip
            continue
        keep.append((a, e))
    if op in ('==', '!='):
        keep = [(a, 1) for a, e in keep]
    else:
        keep = [(a, 2 - e % 2) for a, e in keep]
    q = prim
    if keep:
        q = prim * Poly({tuple(sorted(keep)): F1})
    if q.isconst():
        q = Poly.const(1)
        return norm_cmp(op, q.scale(-1) if flip else q)
    c2, q = q.monic()
    if c2 < 0:
        flip = not flip
    if flip:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    s = poly_sign(q, use_ctx=False)
    if s == '+':
        return TRUE if op in ('>', '>=', '!=') else FALSE
    if s == '-':
        return TRUE if op in ('<', '<=', '!=') else FALSE
    if s == '0+':
        if op == '>=':
            return TRUE
        if op == '<':
            return FALSE
        if op == '<=':
            op = '=='
        if op == '>':
            op = '!='
    if s == '0-':
        if op == '<=':
            return TRUE
        if op == '>':
            return FALSE
        if op == '>=':
            op = '=='
        if op == '<':
            op = '!='
    if s == '0':
        return TRUE if op in ('>=', '<=', '==') else FALSE
    return Cond('cmp', (op, q))


def sign_poly(s):
    """polynomial with the same sign (and zeros) as the rational function s"""
    p = s.num
    for d, e in s.den:
        if e % 2 == 0:
            continue
        sg = poly_sign(d)
        if sg in ('+', '0+'):      # denominators are non-zero on the path
            continue
        if sg in ('-', '0-'):
            p = -p
            continue
        p = p * d
    return p


def cmp_cond(a, b, op):
    b0 = b
    b = lift(b)
    if b is NotImplemented:
        if op == '==':
            return False
        if op == '!=':
            return True
        if hasattr(b0, '__len__') or hasattr(b0, '__array_ufunc__'):
            return NotImplemented
        raise TypeError('cannot compare symbolic value with %r' % (type(b0),))
    if isinstance(b, float):
        if b != b:
            return op == '!='
        return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[op]
    d = a - b
    if op in ('==', '!='):
        return _unwrap(norm_cmp(op, d.num))
    return _unwrap(norm_cmp(op, sign_poly(d)))


def _unwrap(c):
    if c.k == 'const':
        return c.a
    return c


# -- functions ------------------------------------------------------------------

def is_special(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


def ssqrt(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x == INF else NAN
    if x.isconst():
        c = x.cval()
        return sqrt_fraction(c) if c >= 0 else NAN
    if x < 0:
        return NAN
    key = ('sqrtof', x.key())
    r = _SQRT_CACHE.get(key)
    if r is not None:
        return r
    n = x.num
    den = ONE
    for p, e in x.den:
        if e % 2:
            n = n * p
        h = (e + 1) // 2
        ps = Sym(p)
        if h % 2:
            sg = poly_sign(p)
            if sg in ('+', '0+'):
                pass
            elif sg in ('-', '0-'):
                ps = -ps
            else:
                ps = sabs(ps)
        for _ in range(h):
            den = den * ps
    r = sqrt_poly(n)
    if not (den.isconst() and den.cval() == 1):
        r = r * den.inv()
    _SQRT_CACHE[key] = r
    return r


_SQRT_CACHE = {}


def sqrt_poly(n):
    if n.iszero():
        return ZERO
    c, common, prim = n.content()
    sign = 1
    if c < 0:
        c = -c
        sign = -1
    out = sqrt_fraction(c)
    rest = {}
    for a, e in common.items():
        if e // 2:
            at = ATOMS[a]
            v = Sym(Poly.atom(at))
            if at.kind == 'exp':
                v = sym_exp_atom(at.args[0] / 1)
            if at.sign in ('+', '0+'):
                pass
            elif at.sign in ('-', '0-'):
                v = -v
            else:
                v = sabs(v)
            for _ in range(e // 2):
                out = out * v
        if e % 2:
            at = ATOMS[a]
            if at.kind == 'exp':
                out = out * sym_exp_atom(at.args[0] * Sym.const(Fraction(1, 2)))
            else:
                rest[a] = 1
    for at in [ATOMS[a] for a in sorted(prim.atoms()) if ATOMS[a].kind == 'cos']:
        sn = at.meta[0]
        f = PONE - Poly.atom(at) * Poly.atom(at)
        while True:
            q = prim.exact_div(f)
            if q is None:
                break
            prim = q
            out = out * sabs(Sym(Poly.atom(sn)))
    m = prim
    if sign < 0:
        m = -m
    if rest:
        m = m * Poly({tuple(sorted(rest.items())): F1})
    if m.isconst() and m.cval() == 1:
        return out
    if m.isconst():
        return out * sqrt_fraction(m.cval())
    if m == Poly.atom(PI_ATOM):
        return out * Sym(Poly.atom(_sqrtpi_atom()))
    q = m.psqrt()
    if q is not None:
        return out * sabs(Sym(q))
    return out * Sym(Poly.atom(_sqrt_atom(m)))


def _sqrt_atom(m):
    def make():
        s = _poly_sign_syn(m)
        a = Atom('sqrt', 'sqrt', ev=lambda env, m=m: math.sqrt(max(0.0, m.ev(env))), sign='+' if s == '+' else '0+', args=(Sym(m),))
        a.name = 'sqrt_%d' % a.id
        a.red = (2, m)
        mz = m.z()
        a.axioms = [a.z >= 0, a.z * a.z == mz]
        a.deps = m.atoms()
        return a
    return intern_atom(('sqrt', m.key()), make)


def sabs(x):
    x = lift(x)
    if isinstance(x, float):
        return abs(x)
    if x.isconst():
        return Sym.const(abs(x.cval()))
    p = sign_poly(x)
    s = poly_sign(p)
    if s in ('+', '0+', '0'):
        return x
    if s in ('-', '0-'):
        return -x
    if getattr(ctx(), 'abs_fork', False):
        return x if x >= 0 else -x
    k = getattr(ctx(), 'known_sign', None)
    if k is not None:
        s = k(p)
        if s == 1:
            return x
        if s == -1:
            return -x
    # |n/d| = |n|/|d|
    out = abs_poly(x.num)
    for p, e in x.den:
        ap = Sym(p)
        if e % 2:
            ap = abs_poly(p)
        ai = ap.inv()
        for _ in range(e):
            out = out * ai
    return out


def abs_poly(n):
    c, common, prim = n.content()
    out = Sym.const(abs(c))
    for a, e in common.items():
        at = ATOMS[a]
        v = Sym(Poly.atom(at))
        if e % 2 and at.sign not in ('+', '0+'):
            v = -v if at.sign in ('-', '0-') else Sym(Poly.atom(_abs_atom(Poly.atom(at))))
        for _ in range(e):
            out = out * v
    if prim.isconst():
        return out * abs(prim.cval())
    s = poly_sign(prim)
    if s in ('+', '0+'):
        return out * Sym(prim)
    if s in ('-', '0-'):
        return out * Sym(-prim)
    c2, mon = prim.monic()
    return out * Sym(Poly.atom(_abs_atom(mon))) * abs(c2)


def _abs_atom(p):
    def make():
        a = Atom('abs', 'abs', ev=lambda env, p=p: abs(p.ev(env)), sign='0+', args=(Sym(p),))
        a.name = 'abs_%d' % a.id
        a.red = (2, p * p)
        pz = p.z()
        a.axioms = [a.z >= 0, z3.Or(a.z == pz, a.z == -pz)]
        a.deps = p.atoms()
        return a
    return intern_atom(('abs', p.key()), make)


# exp / log -----------------------------------------------------------------------

EXP_HI = Fraction('709.782712893384')
EXP_LO = Fraction('-745.133219101941')


def sexp(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x == INF or x != x else 0.0
    c = ctx()
    if getattr(c, 'float_exp', False):
        if x > EXP_HI:
            return INF
        if x < EXP_LO:
            return ZERO
    return sym_exp(x)


def sym_exp(x):
    """exp of a finite real; log atoms with integer coefficients are expanded"""
    if x.num.iszero():
        return ONE
    out = ONE
    if not x.den:
        rest = {}
        for m, c in x.num.t.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and c.denominator == 1:
                arg = ATOMS[m[0][0]].args[0]
                k = int(c)
                if k < 0:
                    arg = arg.inv()
                for _ in range(abs(k)):
                    out = out * arg
            elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and c.denominator == 2:
                arg = ssqrt(ATOMS[m[0][0]].args[0])
                k = int(c * 2)
                if k < 0:
                    arg = arg.inv()
                for _ in range(abs(k)):
                    out = out * arg
            else:
                rest[m] = c
        if len(rest) != len(x.num.t):
            x = Sym(Poly(rest))
    else:
        # logs over a common denominator: the coefficient may still be an integer
        by = {}
        for m, c in x.num.t.items():
            la = [a for a, e in m if ATOMS[a].kind == 'log']
            if len(la) == 1 and (la[0], 1) in m:
                by.setdefault(la[0], {})[tuple(k for k in m if k[0] != la[0])] = c
        if by:
            D = PONE
            for p, e in x.den:
                for _ in range(e):
                    D = D * p
            for la, t in by.items():
                q = Poly(dict(t))
                if len(q.t) != len(D.t):
                    continue
                m0 = next(iter(D.t))
                if m0 not in q.t:
                    continue
                k = Fraction(q.t[m0]) / Fraction(D.t[m0])
                if k.denominator not in (1, 2) or any(q.t.get(m) != D.t[m] * k for m in D.t):
                    continue
                arg = ATOMS[la].args[0]
                if k.denominator == 2:
                    arg, k = ssqrt(arg), k * 2
                if k < 0:
                    arg = arg.inv()
                for _ in range(abs(int(k))):
                    out = out * arg
                x = x - Sym(Poly.atom(ATOMS[la])) * Sym.const(Fraction(q.t[m0]) / Fraction(D.t[m0]))
    if x.num.iszero():
        return out
    e = sym_exp_atom(x)
    return e if out is ONE else out * e


def sym_exp_atom(x):
    if x.num.iszero():
        return ONE

    def make():
        def ev(env, x=x):
            v = x.ev(env)
            if v > 709.7:
                return INF
            return math.exp(v)
        a = Atom('exp', 'exp', ev=ev, sign='+', args=(x,))
        a.name = 'exp_%d' % a.id
        xz = sz(x)
        a.axioms = [a.z > 0, a.z >= 1 + xz,
                    z3.Implies(xz > 0, a.z > 1), z3.Implies(xz < 0, a.z < 1), z3.Implies(xz == 0, a.z == 1),
                    z3.Implies(xz < 0, a.z * (1 - xz) <= 1)]
        a.deps = x.atoms()
        return a
    return Sym(Poly.atom(intern_atom(('exp', x.key()), make)))


def slog(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x == INF else NAN
    if x.isconst():
        c = x.cval()
        if c == 0:
            return -INF
        if c < 0:
            return NAN
        return log_fraction(c)
    if bool(x == 0):
        return -INF
    if x < 0:
        return NAN
    return log_pos(x)


def log_fraction(c):
    out = ZERO
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        if n > 10 ** 12:
            k = 0
            while n % 10 == 0:
                n //= 10
                k += 1
            if k:
                out = out + log_fraction(Fraction(10)) * (k * sg)
            if n == 1:
                continue
        if n > 10 ** 10:
            out = out + Sym(Poly.atom(_log_atom(Sym.const(n)))) * sg
            continue
        for p, e in _factor(n).items():
            out = out + Sym(Poly.atom(_log_atom(Sym.const(p)))) * (e * sg)
    return out


def log_pos(x):
    """log of a positive rational function, split into positive factors"""
    out = ZERO
    left_n = x.num
    c, common, prim = left_n.content()
    neg = c < 0
    c = abs(c)
    out = out + log_fraction(c)
    hard = PONE
    for a, e in common.items():
        at = ATOMS[a]
        if at.kind == 'exp':
            out = out + at.args[0] * e
        elif at.kind in ('sqrtc', 'sqrt') and at.sign in ('+', '0+'):
            out = out + log_pos(Sym(at.red[1])) * Sym.const(Fraction(e, 2))
        elif at.sign in ('+', '0+'):
            out = out + Sym(Poly.atom(_log_atom(Sym(Poly.atom(at))))) * e
        elif e % 2 == 0:
            out = out + Sym(Poly.atom(_log_atom(sabs(Sym(Poly.atom(at)))))) * e
        else:
            hard = hard * Poly({((a, e),): F1})
    if neg:
        hard = -hard
    if not prim.isconst():
        sg = poly_sign(prim)
        if sg in ('+', '0+'):
            out = out + _log_prim(prim)
        else:
            hard = hard * prim
    elif prim.cval() != 1:
        hard = hard * prim
    for p, e in x.den:
        sg = poly_sign(p)
        if sg in ('+', '0+'):
            out = out - log_pos(Sym(p)) * e
        elif e % 2 == 0:
            out = out - Sym(Poly.atom(_log_atom(sabs(Sym(p))))) * e
        else:
            hard = hard * p         # sign(x/p) = sign(x*p)
            out = out - Sym(Poly.atom(_log_atom(sabs(Sym(p))))) * (e + 1)
    if hard.isconst():
        if hard.cval() < 0:
            raise Unsupported('log of negative constant factor')
        return out + log_fraction(hard.cval())
    c, mon = hard.monic()
    if c > 0:
        out = out + log_fraction(c)
    else:
        out = out + log_fraction(-c)
        mon = -mon
    return out + _log_prim(mon)


def _square_root(m, c):
    """root of the monomial c m, if it is a square"""
    import math as _m
    if c < 0 or any(e % 2 for _, e in m):
        return None
    n, d = _m.isqrt(c.numerator), _m.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    return Poly({tuple((a, e // 2) for a, e in m): Fraction(n, d)})


def _log_prim(p):
    """log of a positive polynomial, normalising exponentials"""
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t.items()
        if (c1 > 0) != (c2 > 0):
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            a, b = _square_root(m1, c1), _square_root(m2, -c2)
            if a is not None and b is not None:
                f, g = a + b, a - b         # a^2 - b^2 > 0: both factors have the same sign
                if poly_sign(f) == '-' or poly_sign(f) != '+' and not bool(Sym(f) > 0):
                    f, g = -f, -g
                return log_pos(Sym(f)) + log_pos(Sym(g))
    exps = []
    for m in p.t:
        es = [a for a, e in m if ATOMS[a].kind == 'exp']
        exps.append(es[0] if es else None)
    if len(exps) > 1 and any(e is not None for e in exps):
        # canonical under multiplication by any exponential: log(sum c_i e^{a_i}) = a_k + log(sum c_i e^{a_i-a_k}),
        # k chosen so that the remaining polynomial has the least key
        refs = sorted(set(e for e in exps if e is not None))
        if None in exps or len(refs) > 8:
            refs = [None] + refs if None in exps else refs[:1]
        if len(refs) > 9:
            refs = [None]
        best = None
        for ref in refs:
            arg = ZERO if ref is None else ATOMS[ref].args[0]
            q = p if ref is None else p * sym_exp_atom(-arg).num
            c, mon = q.monic()
            if c < 0:
                c, mon = F1, q
            k = mon.key()
            if best is None or k < best[0]:
                best = (k, arg, c, mon)
        return best[1] + log_fraction(best[2]) + Sym(Poly.atom(_log_atom(Sym(best[3]))))
    c, mon = p.monic()
    if c > 0:
        return log_fraction(c) + Sym(Poly.atom(_log_atom(Sym(mon))))
    return Sym(Poly.atom(_log_atom(Sym(p))))


def _log_atom(x):
    def make():
        def ev(env, x=x):
            v = x.ev(env)
            return math.log(v) if v > 0 else -INF
        a = Atom('log', 'log', ev=ev, args=(x,))
        a.name = 'log_%d' % a.id
        xz = sz(x)
        a.axioms = [a.z <= xz - 1, z3.Implies(xz > 1, a.z > 0), z3.Implies(z3.And(xz < 1, xz > 0), a.z < 0),
                    z3.Implies(xz == 1, a.z == 0), z3.Implies(xz > 0, a.z * xz >= xz - 1)]
        if x.isconst():
            c = x.cval()
            lo, hi = math.log(c) - 1e-12, math.log(c) + 1e-12
            a.axioms = [a.z > z3.RealVal(repr(Fraction(lo)).split('(')[0] if False else str(Fraction(lo))), a.z < z3.RealVal(str(Fraction(hi)))]
            a.sign = '+' if c > 1 else '-'
        a.deps = x.atoms()
        _lse_bounds(a, x)
        return a
    return intern_atom(('log', x.key()), make)


def _lse_bounds(a, x):
    """log(sum c_i e^{a_i}) is at least each term's log and at most max a_i + log(sum c_i)"""
    if x.den or not 1 < len(x.num.t) <= 6:
        return
    terms = []
    for m, c in x.num.t.items():
        if c <= 0:
            return
        if m == ():
            terms.append((ZERO, c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'exp':
            terms.append((ATOMS[m[0][0]].args[0], c))
        else:
            return
    if all(t[0] is ZERO for t in terms):
        return
    for u, c in terms:
        lo = u + log_fraction(c)
        a.axioms.append(a.z >= sz(lo))
        a.deps |= lo.atoms()
    tot = log_fraction(sum(c for _, c in terms))
    a.deps |= tot.atoms()
    a.axioms.append(z3.Or(*[a.z <= sz(u + tot) for u, c in terms]))


# erf / normal cdf -----------------------------------------------------------------

def serf(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x != x else math.copysign(1.0, x)
    if x.num.iszero():
        return ZERO
    c = ctx()
    if getattr(c, 'float_erf', False):
        # IEEE double: erf saturates at +-1 beyond |x| >= 6
        if x >= 6:
            return ONE
        if x <= -6:
            return -ONE
    lead = x.num.t[x.num.lead()]
    if lead < 0:
        return -_erf_pos(-x)
    return _erf_pos(x)


def _erf_pos(x):
    def make():
        a = Atom('erf', 'erf', ev=lambda env, x=x: math.erf(x.ev(env)), args=(x,))
        a.name = 'erf_%d' % a.id
        xz = sz(x)
        a.axioms = [a.z > -1, a.z < 1, z3.Implies(xz > 0, a.z > 0), z3.Implies(xz < 0, a.z < 0), z3.Implies(xz == 0, a.z == 0)]
        if x.isconst():
            v = math.erf(float(x.cval()))
            if abs(v) < 1 - 1e-9:
                a.axioms += [a.z > z3.RealVal(str(Fraction(v - 1e-12))), a.z < z3.RealVal(str(Fraction(v + 1e-12)))]
            a.sign = '+' if x.cval() > 0 else '-'
        a.deps = x.atoms()
        return a
    return Sym(Poly.atom(intern_atom(('erf', x.key()), make)))


def _erf_diff(p):
    """c (erf(A) - erf(B)) as one atom, so that products of such differences are not expanded"""
    (m1, c1), (m2, c2) = p.t.items()
    if abs(c1) != abs(c2) or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return p
    a1, a2 = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
    if a1.kind != 'erf' or a2.kind != 'erf':
        return p
    # c1 erf(x1) + c2 erf(x2) = c (erf(A) - erf(B)), c > 0
    A = a1.args[0] if c1 > 0 else -a1.args[0]
    B = -a2.args[0] if c2 > 0 else a2.args[0]
    c = abs(c1)
    d = A - B
    sg = poly_sign(d.num, use_ctx=False)
    if any(e % 2 and poly_sign(q, use_ctx=False) != '+' for q, e in d.den):
        sg = None
    pos = sg == '+'
    if not pos and (sg == '-' or min(A.key(), (-B).key()) > min(B.key(), (-A).key())):
        A, B, c = B, A, -c
        pos = sg == '-'
    if (-B).key() < A.key():
        A, B = -B, -A           # erf(A) - erf(B) = erf(-B) - erf(-A)

    def make():
        a = Atom('erfdiff', 'erfdiff', ev=lambda env, A=A, B=B: math.erf(A.ev(env)) - math.erf(B.ev(env)), args=(A, B))
        a.name = 'erfdiff_%d' % a.id
        a.axioms = [a.z * z3.RealVal(str(c)) == p.z()]
        if pos:
            a.sign = '+'
            a.axioms.append(a.z > 0)
        a.deps = Sym(p).atoms()
        return a
    return Poly.atom(intern_atom(('erfdiff', A.key(), B.key()), make)).scale(c)


def sncdf(x):
    """standard normal cdf"""
    x = lift(x)
    if isinstance(x, float):
        return x if x != x else (1.0 if x > 0 else 0.0)
    return (ONE + serf(x / sqrt_fraction(Fraction(2)))) * Sym.const(Fraction(1, 2))


# opaque functions (gamma, beta, ...) -------------------------------------------------

def opaque(name, args, fn, axioms=None, sign=None):
    """uninterpreted function of Syms with a float evaluator"""
    args = tuple(lift(a) for a in args)
    if all(isinstance(a, Sym) and a.isconst() for a in args):
        pass

    def make():
        a = Atom(name, 'opaque:' + name, ev=lambda env: fn(*[v.ev(env) for v in args]), sign=sign, args=args)
        a.name = '%s_%d' % (name, a.id)
        a.deps = set().union(*[v.atoms() for v in args]) if args else set()
        if axioms:
            a.axioms = axioms(a)
        return a
    return Sym(Poly.atom(intern_atom(('opaque', name) + tuple(v.key() for v in args), make)))


# trigonometry -------------------------------------------------------------------------

ANGLE_UNIT = {}    # atom id -> integer: base unit is atom/unit


def _sincos_exact(fr):
    """(sin, cos) of fr*pi for multiples of 1/6 and 1/4, else None"""
    fr = fr % 2
    h = Fraction(1, 2)
    s2 = sqrt_fraction(Fraction(2)) * h
    s3 = sqrt_fraction(Fraction(3)) * h
    H = Sym.const(h)
    tab = {Fraction(0): (ZERO, ONE), Fraction(1, 6): (H, s3), Fraction(1, 4): (s2, s2), Fraction(1, 3): (s3, H), Fraction(1, 2): (ONE, ZERO)}
    q, r = divmod(fr, Fraction(1, 2))
    if r not in tab:
        return None
    s, c = tab[r]
    q = int(q)
    for _ in range(q):
        s, c = c, -s
    return s, c


ANGLE_RANGE = {}        # atom id -> (lo, hi, lo_open, hi_open) in units of pi


def pi_multiple(x):
    """fraction f with x = f*pi, or None"""
    if isinstance(x, float) or x.den:
        return None
    if x.num.iszero():
        return F0
    if len(x.num.t) == 1:
        (m, c), = x.num.t.items()
        if m == ((PI_ATOM.id, 1),):
            return c
    return None


def angle_range(x):
    """range in units of pi of an affine function of one bounded angle, or None"""
    if isinstance(x, float) or x.den:
        return None
    off, lin = F0, None
    for m, c in x.num.t.items():
        if m == ((PI_ATOM.id, 1),):
            off = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in ANGLE_RANGE and lin is None:
            lin = (ANGLE_RANGE[m[0][0]], c)
        else:
            return None
    if lin is None:
        return (off, off, False, False)
    (lo, hi, lop, hop), c = lin
    if c < 0:
        lo, hi, lop, hop = hi, lo, hop, lop
    return (lo * c + off, hi * c + off, lop, hop)


def _sin_sign(r):
    """sign of sin over a range in units of pi"""
    lo, hi, lop, hop = r
    k = lo // 2 * 2
    lo, hi = lo - k, hi - k
    if hi <= 1:
        return '+' if (lo > 0 or lop) and (hi < 1 or hop) else '0+'
    if lo >= 1 and hi <= 2:
        return '-' if (lo > 1 or lop) and (hi < 2 or hop) else '0-'
    return None


def _trig_signs(s, c, arg):
    r = angle_range(arg)
    if r is not None and r[0] != r[1]:
        h = Fraction(1, 2)
        s.sign = _sin_sign(r)
        c.sign = _sin_sign((r[0] + h, r[1] + h, r[2], r[3]))


def _sin_bounds(r):
    """(lowest, strict, highest, strict) sine over a range in units of pi, as exact Syms, or None"""
    lo, hi, lop, hop = r
    if hi - lo >= 2:
        return None
    pts = [(lo, lop), (hi, hop)]
    k = -(-(lo - Fraction(1, 2)) // 1) + Fraction(1, 2)      # first odd multiple of pi/2 at or above lo
    while k <= hi:
        if lo < k < hi:
            pts.append((k, False))
        k += 1
    vals = []
    for f, o in pts:
        e = _sincos_exact(f)
        if e is None:
            return None
        vals.append((e[0], o))
    key = lambda v: v[0].ev({})
    mn, mx = min(vals, key=key), max(vals, key=key)
    tie = lambda m: all(o for v, o in vals if abs(v.ev({}) - m[0].ev({})) < 1e-12)
    return mn[0], tie(mn), mx[0], tie(mx)


def _bound_axioms(a, r):
    b = _sin_bounds(r)
    if b is None:
        return []
    lo, los, hi, his = b
    out = [a.z > sz(lo) if los else a.z >= sz(lo), a.z < sz(hi) if his else a.z <= sz(hi)]
    for v in (lo, hi):
        a.deps = (a.deps or set()) | v.atoms()
    return out


def note_angle(s, c, a):
    """record on this path that the angle a has sine s and cosine c"""
    k = ctx().__dict__.setdefault('angles', {})
    k.setdefault((s.key(), c.key()), a)


def _trig_pair(key, arg):
    """atoms (sin, cos) of the Sym arg (canonical key)"""
    def make_c():
        a = Atom('cos', 'cos', ev=lambda env: math.cos(arg.ev(env)), args=(arg,))
        a.name = 'cos_%d' % a.id
        a.deps = arg.atoms()
        return a
    c = intern_atom(('cos', key), make_c)

    def make_s():
        a = Atom('sin', 'sin', ev=lambda env: math.sin(arg.ev(env)), args=(arg,))
        a.name = 'sin_%d' % a.id
        a.deps = arg.atoms()
        a.red = (2, PONE - Poly.atom(c) * Poly.atom(c))
        return a
    s = intern_atom(('sin', key), make_s)
    if not c.axioms:
        ax = [c.z * c.z + s.z * s.z == 1, c.z <= 1, c.z >= -1, s.z <= 1, s.z >= -1]
        t = sz(arg)
        p = PI_ATOM.z
        # quadrant facts on (-2pi, 2pi)
        for k in range(-4, 5):
            lo, hi = p * z3.RealVal(k) / 2, p * z3.RealVal(k + 1) / 2
            sv, cv = [(0, 1), (1, 0), (0, -1), (-1, 0)][k % 4]
            ax.append(z3.Implies(t == lo, z3.And(s.z == sv, c.z == cv)))
            if k < 4:
                s_pos = (k % 4) in (0, 1)
                c_pos = (k % 4) in (0, 3)
                ax.append(z3.Implies(z3.And(t > lo, t < hi), z3.And(s.z > 0 if s_pos else s.z < 0, c.z > 0 if c_pos else c.z < 0)))
        c.axioms = ax
        s.axioms = ax
        c.meta = s.meta = (s, c)
        _trig_signs(s, c, arg)
        r = angle_range(arg)
        if r is not None and r[0] != r[1]:
            h = Fraction(1, 2)
            c.axioms = s.axioms = ax + _bound_axioms(s, r) + _bound_axioms(c, (r[0] + h, r[1] + h, r[2], r[3]))
        both = (c.deps or set()) | (s.deps or set()) | {s.id, c.id, PI_ATOM.id}
        c.deps = both - {c.id}
        s.deps = both - {s.id}
    s, c = Sym(Poly.atom(s)), Sym(Poly.atom(c))
    note_angle(s, c, arg)
    return s, c


def _rot(sc, k):
    """(sin, cos) of k times the angle"""
    s, c = sc
    if k < 0:
        s = -s
        k = -k
    rs, rc = ZERO, ONE
    for _ in range(k):
        rs, rc = rs * c + rc * s, rc * c - rs * s
    return rs, rc


_SC_CACHE = {}


def sincos(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN, NAN
    key = x.key()
    r = _SC_CACHE.get(key)
    if r is not None:
        return r
    if x.den:
        ok = False
        r = _trig_pair(('gen', key), x)
    else:
        rs, rc = ZERO, ONE
        const = F0
        for m, c in sorted(x.num.t.items()):
            if m == ():
                const = c
                continue
            if m == ((PI_ATOM.id, 1),):
                e = _sincos_exact(c)
                if e is None:
                    n = c.denominator
                    sc = _trig_pair(('pi', n), PI * Sym.const(Fraction(1, n)))
                    e = _rot(sc, c.numerator)
            else:
                e = None
                if len(m) == 1 and m[0][1] == 1:
                    at = ATOMS[m[0][0]]
                    if at.kind == 'inv' and c.denominator == 1:
                        e = _rot(at.meta, int(c))
                    elif at.kind == 'inv' and c.denominator == 2:
                        e = _rot(_half_angle(at), c.numerator)
                    else:
                        unit = ANGLE_UNIT.get(at.id, 1)
                        if (c * unit).denominator != 1:
                            unit = unit * (c * unit).denominator
                            sc = _trig_pair(('m', m, unit), Sym(Poly({m: Fraction(1, unit)})))
                        else:
                            sc = _trig_pair(('m', m, unit), Sym(Poly({m: Fraction(1, unit)})))
                        e = _rot(sc, int(c * unit))
                if e is None:
                    n = c.denominator
                    if n >= 30 and 180 % n == 0:
                        n = 180  # degrees: one base for all multiples
                    sc = _trig_pair(('m', m, n), Sym(Poly({m: Fraction(1, n)})))
                    e = _rot(sc, int(c * n))
            rs, rc = rs * e[1] + rc * e[0], rc * e[1] - rs * e[0]
        if const:
            e = _trig_pair(('c', abs(const)), Sym.const(abs(const)))
            if not getattr(ATOMS[max(e[0].atoms())], '_axdone', None):
                v = float(abs(const))
                sa, ca = [ATOMS[next(iter(t.atoms()))] for t in e]
                for at, val in ((sa, math.sin(v)), (ca, math.cos(v))):
                    at.axioms = list(at.axioms) + [at.z > z3.RealVal(str(Fraction(val - 1e-12))), at.z < z3.RealVal(str(Fraction(val + 1e-12)))]
            if const < 0:
                e = (-e[0], e[1])
            rs, rc = rs * e[1] + rc * e[0], rc * e[1] - rs * e[0]
        r = (rs, rc)
    _SC_CACHE[key] = r
    return r


def _half_angle(at):
    """sin, cos of half an inverse-trig atom in (-pi, pi]"""
    s, c = at.meta
    half = Sym.const(Fraction(1, 2))
    ch = ssqrt((ONE + c) * half)
    sh = ssqrt((ONE - c) * half)
    if at.sign not in ('+', '0+'):
        a = Sym(Poly.atom(at))
        if a < 0:
            sh = -sh
    return sh, ch


def ssin(x):
    return sincos(x)[0]


def scos(x):
    return sincos(x)[1]


def stan(x):
    s, c = sincos(x)
    if isinstance(s, float):
        return NAN
    return sdiv(s, c)


def _inv_atom_trig(fn, key, s, c, sign, ev, axioms):
    def make():
        a = Atom(fn, 'inv', ev=ev, sign=sign, meta=(s, c))
        a.name = '%s_%d' % (fn, a.id)
        a.deps = s.atoms() | c.atoms() | {PI_ATOM.id}
        a.axioms = axioms(a)
        return a
    a = Sym(Poly.atom(intern_atom((fn,) + key, make)))
    note_angle(s, c, a)
    return a


def _known_angle(s, c):
    """an angle met before on this path with exactly this sine and cosine, wrapped into (-pi, pi], or None"""
    k = ctx().__dict__.get('angles')
    if not k:
        return None
    h = PI * Sym.const(Fraction(1, 2))
    ns, nc = -s, -c
    for S, C, sg, off in ((s, c, 1, ZERO), (ns, c, -1, ZERO), (s, nc, -1, PI), (ns, nc, 1, -PI),
                          (c, s, -1, h), (c, ns, 1, -h), (nc, s, 1, h), (nc, ns, -1, -h)):
        a = k.get((S.key(), C.key()))
        if a is not None:
            return _wrap(a * sg + off)
    return None


def _wrap(a):
    """a shifted by multiples of 2pi into (-pi, pi]"""
    r = angle_range(a)
    two = PI * 2
    if r is not None and r[1] > -3 and r[0] < 3:
        for k in (0, 1, -1):
            lo, hi = r[0] - 2 * k, r[1] - 2 * k
            if (lo > -1 or (lo == -1 and r[2])) and hi <= 1:
                return a - two * k
    for k in range(4):
        if a > PI:
            a = a - two
        elif a <= -PI:
            a = a + two
        else:
            return a
    raise Unsupported('wrapping of an unbounded angle')


def _exact_angle(fn, x):
    """exact values of the inverse functions at special constants"""
    tab = {}
    h = Fraction(1, 2)
    for fr in [Fraction(k, 12) for k in range(-12, 13)]:
        e = _sincos_exact(fr)
        if e is None:
            continue
        s, c = e
        if fn == 'asin' and abs(fr) <= h and s.same(x):
            return PI * Sym.const(fr)
        if fn == 'acos' and 0 <= fr <= 1 and c.same(x):
            return PI * Sym.const(fr)
        if fn == 'atan' and abs(fr) < h and (s * c.inv()).same(x):
            return PI * Sym.const(fr)
    return None


def _known_inverse(fn, s, c):
    """the result wraps into (-pi, pi], and its sine/cosine signs put it in the range of the inverse function"""
    return _known_angle(s, c)


def sasin(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if x > 1 or x < -1:
        return NAN
    if not x.atoms() - set(a.id for a in ATOMS if a.kind == 'sqrtc'):
        e = _exact_angle('asin', x)
        if e is not None:
            return e
    lead = x.num.t[x.num.lead()] if not x.num.iszero() else 1
    if lead < 0:
        return -sasin(-x)
    c = ssqrt(ONE - x * x)
    e = _known_inverse('asin', x, c)
    if e is not None:
        return e

    def ax(a):
        p, xz = PI_ATOM.z, sz(x)
        return [2 * a.z <= p, 2 * a.z >= -p, z3.Implies(xz > 0, a.z > 0), z3.Implies(xz < 0, a.z < 0), z3.Implies(xz == 0, a.z == 0),
                z3.Implies(xz < 1, 2 * a.z < p), z3.Implies(xz > -1, 2 * a.z > -p), z3.Implies(xz == 1, 2 * a.z == p), z3.Implies(xz == -1, 2 * a.z == -p)]
    return _inv_atom_trig('asin', (x.key(),), x, c, None, lambda env: math.asin(max(-1.0, min(1.0, x.ev(env)))), ax)


def sacos(x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if x > 1 or x < -1:
        return NAN
    if not x.atoms() - set(a.id for a in ATOMS if a.kind == 'sqrtc'):
        e = _exact_angle('acos', x)
        if e is not None:
            return e
    s = ssqrt(ONE - x * x)
    e = _known_inverse('acos', s, x)
    if e is not None:
        return e

    def ax(a):
        p, xz = PI_ATOM.z, sz(x)
        return [a.z <= p, a.z >= 0, z3.Implies(xz > 0, 2 * a.z < p), z3.Implies(xz < 0, 2 * a.z > p), z3.Implies(xz == 0, 2 * a.z == p),
                z3.Implies(xz < 1, a.z > 0), z3.Implies(xz > -1, a.z < p), z3.Implies(xz == 1, a.z == 0), z3.Implies(xz == -1, a.z == p)]
    return _inv_atom_trig('acos', (x.key(),), s, x, '0+', lambda env: math.acos(max(-1.0, min(1.0, x.ev(env)))), ax)


def satan(x):
    x = lift(x)
    if isinstance(x, float):
        if x != x:
            return x
        return PI * Sym.const(Fraction(1 if x > 0 else -1, 2))
    if not x.atoms() - set(a.id for a in ATOMS if a.kind == 'sqrtc'):
        e = _exact_angle('atan', x)
        if e is not None:
            return e
    h = ssqrt(ONE + x * x)
    c = h.inv()
    s = x * c
    e = _known_inverse('atan', s, c)
    if e is not None:
        return e

    def ax(a):
        p, xz = PI_ATOM.z, sz(x)
        return [2 * a.z < p, 2 * a.z > -p, z3.Implies(xz > 0, a.z > 0), z3.Implies(xz < 0, a.z < 0), z3.Implies(xz == 0, a.z == 0),
                z3.Implies(xz > 1, 4 * a.z > p), z3.Implies(xz < -1, 4 * a.z < -p),
                z3.Implies(xz < 1, 4 * a.z < p), z3.Implies(xz > -1, 4 * a.z > -p)]
    return _inv_atom_trig('atan', (x.key(),), s, c, None, lambda env: math.atan(x.ev(env)), ax)


def satan2(y, x):
    y, x = lift(y), lift(x)
    if isinstance(y, float) or isinstance(x, float):
        if (y != y) if isinstance(y, float) else False:
            return NAN
        raise Unsupported('atan2 of infinities')
    if y.atoms() or x.atoms():
        q = x * x + y * y
        if not bool(q == 0):
            h = ssqrt(q)
            hi = h.inv()
            e = _known_angle(y * hi, x * hi)
            if e is not None:
                return e
        else:
            return ZERO
    if x.same(ZERO):
        return PI * Sym.const(Fraction(1, 2)) if y > 0 else PI * Sym.const(Fraction(-1, 2)) if y < 0 else ZERO
    if y.same(ZERO):
        return PI if x < 0 else ZERO
    if x.isconst() and y.isconst() and abs(x.cval()) == abs(y.cval()):
        q = Fraction(1, 4) if x.cval() > 0 else Fraction(3, 4)
        return PI * Sym.const(q if y.cval() > 0 else -q)
    h = ssqrt(x * x + y * y)
    hi = h.inv()
    s, c = y * hi, x * hi

    def ax(a):
        p, yz, xz = PI_ATOM.z, signz(y), signz(x)
        return [a.z <= p, a.z > -p, z3.Implies(yz > 0, z3.And(a.z > 0, a.z < p)), z3.Implies(yz < 0, a.z < 0),
                z3.Implies(z3.And(yz > 0, xz > 0), 2 * a.z < p), z3.Implies(z3.And(yz > 0, xz < 0), 2 * a.z > p),
                z3.Implies(z3.And(yz < 0, xz > 0), 2 * a.z > -p), z3.Implies(z3.And(yz < 0, xz < 0), 2 * a.z < -p),
                z3.Implies(z3.And(yz == 0, xz > 0), a.z == 0), z3.Implies(z3.And(yz == 0, xz < 0), a.z == p),
                z3.Implies(z3.And(xz == 0, yz > 0), 2 * a.z == p), z3.Implies(z3.And(xz == 0, yz < 0), 2 * a.z == -p)]
    return _inv_atom_trig('atan2', (y.key(), x.key()), s, c, None, lambda env: math.atan2(y.ev(env), x.ev(env)), ax)


# integer-valued functions ---------------------------------------------------------------

def _bounded_int(x, what, bound=8):
    """floor of x, forked over a small range"""
    if x.isconst():
        return math.floor(x.cval())
    if (x >= 0) and (x < 1):
        return 0
    for k in range(1, bound):
        if (x >= k) and (x < k + 1):
            return k
        if (x >= -k) and (x < -k + 1):
            return -k
    raise Unsupported('%s of a symbolic value outside [-%d,%d]' % (what, bound, bound))


def sfloor(x):
    x = lift(x)
    if isinstance(x, float):
        return x
    return Sym.const(_bounded_int(x, 'floor'))


def sint(x):
    x = lift(x)
    if isinstance(x, float):
        raise OverflowError('cannot convert float infinity/nan to integer')
    if x.isconst():
        return math.trunc(x.cval())
    k = _bounded_int(x, 'int')
    if k < 0 and not bool(x == k):
        return k + 1
    return k


def smod(x, y):
    """Python/numpy floor modulus"""
    if x.isconst() and y.isconst():
        if y.cval() == 0:
            return NAN
        return Sym.const(x.cval() % y.cval())
    if y > 0:
        k = _bounded_int(x / y, 'mod', 5)
        return x - y * k
    raise Unsupported('modulus by a non-positive symbolic value')


def sfmod(x, y):
    """C fmod (truncated)"""
    x, y = lift(x), lift(y)
    if isinstance(x, float):
        return NAN
    if isinstance(y, float):
        return x
    if y < 0:
        y = -y
    q = x / y
    if x >= 0:
        k = _bounded_int(q, 'fmod', 5)
        return x - y * k
    k = _bounded_int(-q, 'fmod', 5)
    return x + y * k


def spow(x, y):
    if y.isconst():
        c = y.cval()
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return ONE
            b = x
            if n < 0:
                b = sdiv(ONE, x)
                n = -n
                if isinstance(b, float):
                    return b ** n
            out = ONE
            for _ in range(n):
                out = out * b
            return out
        if c == Fraction(1, 2):
            return ssqrt(x)
        if c == Fraction(-1, 2):
            return ONE / ssqrt(x)
        if c.denominator == 2:
            r = ssqrt(x)
            return spow(lift(r), Sym.const(c.numerator)) if not isinstance(r, float) else r
    if x.isconst() and x.cval() > 0:
        return sexp(y * log_fraction(x.cval()))
    if bool(x == 0):
        return ZERO if y > 0 else (ONE if bool(y == 0) else INF)
    if x < 0:
        return NAN
    return sexp(y * slog(x))


# -- z3 helpers ------------------------------------------------------------------------------

def sz(s):
    """z3 term of a Sym (denominators non-zero on the path)"""
    e = s.num.z()
    for p, k in s.den:
        for _ in range(k):
            e = e / p.z()
    return e


def signz(s):
    return sign_poly(s).z()


def closure_axioms(ids):
    """axioms of all atoms reachable from the given atom ids"""
    seen = set()
    todo = list(ids)
    out = []
    axseen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = ATOMS[i]
        for x in a.axioms:
            if x.get_id() not in axseen:
                axseen.add(x.get_id())
                out.append(x)
        if a.deps:
            todo.extend(a.deps)
        if a.red is not None and a.kind in ('sin',):
            pass
    return out, seen


def clear_caches():
    """results that may depend on decisions of the path"""
    _SQRT_CACHE.clear()
    _SC_CACHE.clear()
