"""Path exploration and proof obligations.

A *harness* is a Python function ``h(t)`` which obtains inputs from ``t``, calls
the real code and states claims through ``t``.  ``explore`` runs it symbolically,
forking at every undetermined condition; ``run_concrete`` runs the very same
harness with floats against the real, unshimmed code (the replay).
"""
import math
import os
import random
import time
import traceback

import z3

from . import core
from .core import (ATOMS, Atom, Cond, FALSE, INF, Infeasible, NAN, PI_ATOM, Poly, Sym, TRUE, Unsupported, as_cond, cand, closure_axioms, cnot,
                   cor, ev_atom, intern_atom, lift, norm_cmp, zcond)


class Violation(BaseException):
    """a claim failed in concrete mode"""


class PathLimit(BaseException):
    pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.paths = 0
        self.dropped = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.feas_queries = 0
        self.max_terms = 0


class _Env(dict):
    """base-atom assignment; missing base atoms are drawn on demand"""

    def __init__(self, seed, fixed=None):
        dict.__init__(self)
        self.seed = seed
        if fixed:
            self.update(fixed)

    def base(self):
        return {ATOMS[k].name: v for k, v in self.items() if ATOMS[k].kind == 'base'}


def _draw(seed, atom):
    r = random.Random('%s/%s' % (seed, atom.name))
    lo, hi, special = atom.meta['lo'], atom.meta['hi'], atom.meta['special']
    u = r.random()
    if special and u < 0.12:
        return float(r.choice(special))
    dist = atom.meta.get('dist')
    if dist:
        return float(dist(r))
    if lo is not None and hi is not None:
        return lo + (hi - lo) * r.random()
    mag = abs(r.gauss(0, 1)) * 10 ** r.choice([0, 0, 0, 0, 1, -1])
    if lo is not None:
        return lo + mag + 1e-6
    if hi is not None:
        return hi - mag - 1e-6
    return mag * r.choice([-1, 1])


class Options(object):
    def __init__(self, **k):
        self.max_paths = 4000
        self.feas_ms = 3000
        self.prove_ms = 60000
        self.samples = 24
        self.abs_fork = False
        self.float_exp = False
        self.float_erf = False
        self.erf_diff = False
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.time_s = 600
        self.max_ce = 1
        self.__dict__.update(k)


def _polys(c):
    if c.k == 'cmp':
        return [c.a[1]]
    if c.k in ('and', 'or', 'not'):
        return [p for x in (c.a if isinstance(c.a, (tuple, list)) else [c.a]) for p in _polys(x)]
    return []


class T(core.Ctx):
    """symbolic harness context for one path"""
    symbolic = True
    tier = property(lambda self: os.environ.get('VERIF_TIER', 'quick'))

    def __init__(self, opt, stats, prefix, shared):
        self.opt = opt
        self.stats = stats
        self.prefix = prefix
        self.shared = shared
        self.trace = []          # decisions taken on this path
        self.alts = []           # prefixes still to be explored
        self.cons = []           # path constraints (Cond)
        self.decided = {}
        self.facts = {}          # poly key -> sign
        self.abs_fork = opt.abs_fork
        self.float_exp = opt.float_exp
        self.float_erf = opt.float_erf
        self.erf_diff = opt.erf_diff
        self.pool = [_Env('%s:%d' % (opt.seed, i)) for i in range(opt.samples)] + [_Env('m%d' % i, f) for i, f in enumerate(shared['models'])]
        self.claims = 0
        self.failed = []
        self.inputs = {}
        self.counter = {}
        self.notes = []
        self.logs = []
        self.draws = []
        self.preset = []
        self.preset_kinds = []
        self.draw_limit = {}
        self.draw_domains = {}
        self.eigen = []
        self.angles = {}
        self.angfacts = set()
        core.clear_caches()

    # -- inputs ------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=(), unit=None, dist=None, nonzero=False):
        """a symbolic finite real in [lo, hi]; a bound may be a Sym (e.g. PI)"""
        lo_s, hi_s = (None if lo is None else lift(lo)), (None if hi is None else lift(hi))

        def make():
            flo = None if lo is None else lo_s.ev({})
            fhi = None if hi is None else hi_s.ev({})
            sp = tuple(x for x in special if (flo is None or x >= flo) and (fhi is None or x <= fhi))
            a = Atom(name, 'base', meta={'lo': flo, 'hi': fhi, 'special': sp, 'dist': dist})
            a.ev = lambda env, a=a: _draw(env.seed, a)
            a.name = name
            ax = []
            if lo is not None:
                ax.append(a.z > core.sz(lo_s) if lo_open else a.z >= core.sz(lo_s))
                if flo > 0 or (flo == 0 and lo_open):
                    a.sign = '+'
                elif flo == 0:
                    a.sign = '0+'
            if hi is not None:
                ax.append(a.z < core.sz(hi_s) if hi_open else a.z <= core.sz(hi_s))
                if fhi < 0 or (fhi == 0 and hi_open):
                    a.sign = '-'
                elif fhi == 0:
                    a.sign = '0-'
            if nonzero and a.sign in ('0+', '0-'):
                a.sign = a.sign[1]
                ax.append(a.z != 0)
            a.axioms = ax
            a.deps = set()
            for b in (lo_s, hi_s):
                if b is not None:
                    a.deps |= b.atoms()
            if unit:
                core.ANGLE_UNIT[a.id] = unit
            if lo is not None and hi is not None:
                fl, fh = core.pi_multiple(lo_s), core.pi_multiple(hi_s)
                if fl is not None and fh is not None and fl != fh:
                    core.ANGLE_RANGE[a.id] = (fl, fh, lo_open, hi_open)
            return a
        a = intern_atom(('base', name, repr(lo), repr(hi), lo_open, hi_open), make)
        self.inputs[name] = a
        s = Sym(Poly.atom(a))
        if nonzero and a.sign is None:
            self.assume(s != 0)
        return s

    def fresh(self, prefix, **k):
        n = self.counter.get(prefix, 0)
        self.counter[prefix] = n + 1
        return self.real('%s#%d' % (prefix, n), **k)

    # -- random draws and linear algebra contracts ----------------------------
    def draw(self, kind, *args):
        """a random draw of the code under test: a symbolic input tagged with its distribution"""
        q = self.preset.get(kind) if isinstance(self.preset, dict) else self.preset
        if q:
            self.preset_kinds.append(kind)
            return lift(q.pop(0))
        n = self.counter.get(kind, 0)
        self.counter[kind] = n + 1
        name = '%s#%d' % (kind, n)
        dom = self.draw_domains.get(kind, {})
        if kind == 'rand':
            k = dict(lo=0, hi=1, hi_open=True)
        elif kind == 'crand':
            k = dict(lo=0, hi=1)
        elif kind == 'randn':
            k = dict(dist=lambda r: r.gauss(0, 1))
        elif kind == 'betarv':
            k = dict(lo=0, hi=1)
        else:
            raise Unsupported('random draw %s' % kind)
        k.update(dom)
        s = self.real(name, **k)
        self.draws.append((kind, args, s))
        lim = self.draw_limit.get(kind)
        if lim is not None and n >= lim:
            raise Infeasible()          # bound on redraw loops, stated in the evidence
        return s

    def register_eigen(self, m, e, v):
        """the harness built the symmetric matrix m as v diag(e) v^T with e ascending and v orthonormal"""
        self.eigen.append((m, [_sc(x) for x in e], v))

    # -- exact mathematical functions for oracles -----------------------------
    pi = property(lambda self: core.PI)

    def exp(self, x):
        x = _sc(x)
        if isinstance(x, float):
            return 0.0 if x == -INF else INF if x == INF else NAN
        return core.sym_exp(x)

    def _f(fn):
        def g(self, *a):
            fe, fr = self.float_exp, self.float_erf
            self.float_exp = self.float_erf = False
            try:
                return fn(*[_sc(x) for x in a])
            finally:
                self.float_exp, self.float_erf = fe, fr
        return g

    log = _f(core.slog)
    erf = _f(core.serf)
    sqrt = _f(core.ssqrt)
    abs = _f(core.sabs)
    sin = _f(core.ssin)
    cos = _f(core.scos)
    pow = _f(core.spow)

    def lift(self, x):
        return _sc(x)

    def _eigen_for(self, a):
        import numpy as np
        a = np.asarray(a)
        for m, e, v in self.eigen:
            m = np.asarray(m)
            if m.shape != a.shape:
                continue
            if all(Sym_zero(lift(m[i]) - lift(a[i])) for i in np.ndindex(*m.shape)):
                return e, v
        return None

    def eigh(self, a):
        """contract of a symmetric eigen-solver: ascending eigenvalues, orthonormal vectors; UPLO/lower triangle only"""
        import numpy as np
        from . import snp
        a = np.asarray(a)
        n = a.shape[0]
        # only one triangle is read by LAPACK
        sym = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                sym[i, j] = lift(a[max(i, j), min(i, j)])
                if isinstance(sym[i, j], float):
                    raise np.linalg.LinAlgError('array must not contain infs or NaNs')
        r = self._eigen_for(sym)
        if r is None:
            r = self._eigen_diag(sym)
        if r is None:
            raise Unsupported('eigh of a matrix whose spectrum the harness did not supply')
        e, v = r
        return snp.arr(list(e)), snp.arr(v)

    def _eigen_diag(self, m):
        """exact spectrum of a constant diagonal matrix"""
        import numpy as np
        n = m.shape[0]
        for i in range(n):
            for j in range(n):
                if i != j and not Sym_zero(m[i, j]):
                    return None
        d = [m[i, i] for i in range(n)]
        order = []
        rest = list(range(n))
        while rest:
            b = rest[0]
            for k in rest[1:]:
                if bool(d[k] < d[b]):
                    b = k
            rest.remove(b)
            order.append(b)
        v = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                v[i, j] = lift(1 if order[j] == i else 0)
        return [d[k] for k in order], v

    def eig(self, a):
        """contract of the general solver on a symmetric matrix: eigenvalues in any order, unit vectors"""
        import numpy as np
        from . import snp
        a = np.asarray(a)
        n = a.shape[0]
        r = self._eigen_for(a) or self._eigen_diag(a)
        if r is None:
            raise Unsupported('eig of a matrix whose spectrum the harness did not supply')
        e, v = r
        v = np.asarray(v)
        rest, order = list(range(n)), []
        while rest:
            order.append(rest.pop(self.choose_fresh('eigorder', len(rest)) if len(rest) > 1 else 0))
        return snp.arr([e[k] for k in order]), snp.arr(v[:, order])

    def linsolve(self, a, b):
        """contract of numpy.linalg.solve on a nonsingular matrix: the solution x of a x = b"""
        import numpy as np
        from . import snp
        a, b = np.asarray(a), np.asarray(b)
        n = a.shape[0]
        if n <= 3:
            return snp.dot(snp.linalg.inv(snp.arr(a)), snp.arr(b))
        cols = b.reshape(n, -1)
        x = np.empty(cols.shape, dtype=object)
        for j in range(cols.shape[1]):
            for i in range(n):
                x[i, j] = self.fresh('solve')
            for i in range(n):
                t = lift(0)
                for k in range(n):
                    t = t + lift(a[i, k]) * x[k, j]
                self.assume(t == lift(cols[i, j]))
        return snp.arr(x.reshape(b.shape))

    def choose(self, name, n):
        """symbolic integer in [0, n), branched by the solver"""
        if n <= 0:
            raise Unsupported('choose over empty range')

        def make():
            a = Atom(name, 'base', meta={'lo': 0, 'hi': n - 1, 'special': (), 'dist': lambda r, n=n: r.randrange(n)})
            a.z = z3.Int('%s!i%d' % (name, a.id))
            a.ev = lambda env, a=a: _draw(env.seed, a)
            a.axioms = [a.z >= 0, a.z < n]
            a.deps = set()
            return a
        a = intern_atom(('int', name, n), make)
        self.inputs[name] = a
        for k in range(n - 1):
            if self.decide(zcond(a.z == k, lambda env, a=a, k=k: abs(ev_atom(a.id, env) - k) < 0.5, (a.id,))):
                return k
        return n - 1

    def choose_fresh(self, prefix, n):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return self.choose('%s#%d' % (prefix, k), n)

    def mono_exp(self, a, b):
        """instance of the monotonicity of exp (a tautology): a < b iff e^a < e^b"""
        a, b = _sc(a), _sc(b)
        if isinstance(a, float) or isinstance(b, float):
            return
        ea, eb = self.exp(a), self.exp(b)
        for op in ('<', '<=', '==', '>'):
            x, y = core.cmp_cond(a, b, op), core.cmp_cond(ea, eb, op)
            self.add(core.cor(core.cand(x, y), core.cand(cnot(x), cnot(y))))

    # -- path condition ------------------------------------------------------
    def sign_fact(self, p):
        f = self.facts.get(p.key())
        if f:
            return f
        f = self.facts.get((-p).key())
        if f:
            return {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[f]
        return None

    def _learn(self, c):
        if c.k == 'and':
            for x in c.a:
                self._learn(x)
            return
        if c.k != 'cmp':
            return
        op, p = c.a
        new = {'<': '-', '<=': '0-', '==': '0', '>': '+', '>=': '0+', '!=': 'nz'}[op]
        k = p.key()
        old = self.facts.get(k) or self.nzfacts.get(k)
        if new == 'nz':
            if old == '0+':
                self.facts[k] = '+'
            elif old == '0-':
                self.facts[k] = '-'
            else:
                self.nzfacts[k] = 'nz'
            return
        if old == 'nz' and new in ('0+', '0-'):
            new = new[1] if False else {'0+': '+', '0-': '-'}[new]
        if old in ('0+', '0-') and new in ('0+', '0-') and old != new:
            new = '0'
        if old in ('+', '-', '0') and new in ('0+', '0-'):
            return
        self.facts[k] = new

    @property
    def nzfacts(self):
        d = self.__dict__.get('_nz')
        if d is None:
            d = self.__dict__['_nz'] = {}
        return d

    def add(self, c):
        c = as_cond(c)
        if c.k == 'const':
            if not c.a:
                raise Infeasible()
            return
        self.cons.append(c)
        self.decided[c.key()] = True
        self.decided[cnot(c).key()] = False
        self._learn(c)
        self.pool = [e for e in self.pool if self._evc(c, e) is True]

    def assume(self, c):
        """restrict the inputs (stated in DESIGN/evidence)"""
        c = as_cond(c)
        if c.k == 'const' and not c.a:
            raise Infeasible()
        self.add(c)

    def _evc(self, c, e):
        try:
            return c.ev(e, 1.0)
        except (ArithmeticError, ValueError, OverflowError, KeyError):
            return None

    def decide(self, c):
        c = as_cond(c)
        if c.k == 'const':
            return c.a
        if c.k == 'cmp':
            # simplify with known facts
            f = self.sign_fact(c.a[1])
            if f:
                op = c.a[0]
                tbl = {'+': {'<': False, '<=': False, '==': False, '!=': True, '>': True, '>=': True},
                       '-': {'<': True, '<=': True, '==': False, '!=': True, '>': False, '>=': False},
                       '0': {'<': False, '<=': True, '==': True, '!=': False, '>': False, '>=': True},
                       '0+': {'<': False, '>=': True}, '0-': {'>': False, '<=': True}}[f]
                if op in tbl:
                    return tbl[op]
            elif c.a[1].key() in self.nzfacts:
                op = c.a[0]
                if op == '==':
                    return False
                if op == '!=':
                    return True
        r = self.decided.get(c.key())
        if r is not None:
            return r
        if c.k == 'cmp':
            r = ground_value(c)
            if r is not None:
                self.add(c if r else cnot(c))
                return r
        self.angle_facts(c)
        i = len(self.trace)
        self.stats.decisions += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            can_t = can_f = None
            for e in self.pool:
                x = self._evc(c, e)
                if x is True:
                    can_t = True
                elif x is False:
                    can_f = True
                if can_t and can_f:
                    break
            if can_t is None:
                can_t = self.feasible(c)
            if can_f is None and can_t:
                can_f = self.feasible(cnot(c))
            elif can_f is None:
                can_f = True
            if not can_t and not can_f:
                raise Infeasible()
            v = bool(can_t)
            if can_t and can_f:
                self.alts.append(self.trace + [False])
            else:
                # implied: remember as learned fact without cost
                pass
        self.trace.append(v)
        self.add(c if v else cnot(c))
        return v

    def known_sign(self, p):
        """1/-1 when the sign (>=0 / <=0) of polynomial p is implied on this path"""
        key = ('ks', p.key(), len(self.cons))
        r = self.shared['ks'].get((key, tuple(self.trace)))
        if r is not None:
            return r or None
        c1, c2 = norm_cmp('>=', p), norm_cmp('<=', p)
        res = None
        a = [self._evc(c1, e) for e in self.pool]
        if not any(x is False for x in a):
            if not self.feasible(cnot(c1), unknown=True, ms=1000):
                res = 1
        if res is None and not any(self._evc(c2, e) is False for e in self.pool):
            if not self.feasible(cnot(c2), unknown=True, ms=1000):
                res = -1
        self.shared['ks'][(key, tuple(self.trace))] = res or 0
        return res

    # -- solver -----------------------------------------------------------------
    def _slice(self, c):
        """constraints sharing atoms (transitively) with c"""
        _, seen = closure_axioms(c.atoms())
        seen = set(i for i in seen if ATOMS[i].kind not in ('const', 'sqrtc'))
        todo = list(self.cons)
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for k in todo:
                ka = k.atoms()
                _, kseen = closure_axioms(ka)
                kseen = set(i for i in kseen if ATOMS[i].kind not in ('const', 'sqrtc'))
                if kseen & seen:
                    out.append(k)
                    seen |= kseen
                    ch = True
                else:
                    rest.append(k)
            todo = rest
        return out

    def check(self, conds, ms, extra=()):
        ids = set()
        for c in conds:
            ids |= c.atoms()
        ax, seen = closure_axioms(ids)
        for a, b in congruences(seen):
            ax.append(z3.Implies(core.sz(a.args[0]) == core.sz(b.args[0]), a.z == b.z))
            ax.append(z3.Implies(core.sz(a.args[0]) < core.sz(b.args[0]), a.z < b.z))
        zs = [c.z() for c in conds]
        t0 = time.time()
        res, model = None, None
        if not extra and self._linear(conds):
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            self.stats.unsat += 1
            return 'unsat', None, seen
        strategies = self.opt.__dict__.get('strategies') or ('default', 'nlsat')
        for strat in strategies:
            if strat == 'nlsat':
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(ms / len(strategies)) + 1)
            for a in ax:
                s.add(a)
            for z in zs:
                s.add(z)
            for z in extra:
                s.add(z)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                res = 'unsat'
                break
            if r == z3.sat:
                res = 'sat'
                try:
                    model = s.model()
                except z3.Z3Exception:
                    model = None
                break
        if res is None:
            res = 'unknown'
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        return res, model, seen

    def _linear(self, conds):
        """unsatisfiable already with every monomial replaced by an unconstrained real? (sound; decides contradictions without the nonlinear solver)"""
        def z(c):
            if c.k == 'cmp':
                op, p = c.a
                terms = []
                for m, k in p.t.items():
                    k = z3.RealVal(str(k))
                    terms.append(k * z3.Real('mono_' + '_'.join('%d^%d' % ae for ae in m)) if m else k)
                v = z3.Sum(terms) if terms else z3.RealVal(0)
                return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
            if c.k == 'const':
                return z3.BoolVal(bool(c.a))
            if c.k in ('and', 'or', 'not'):
                a = [z(x) for x in (c.a if isinstance(c.a, (tuple, list)) else [c.a])]
                return {'and': z3.And, 'or': z3.Or, 'not': z3.Not}[c.k](*a)
            return z3.Bool('z_%s' % hash(c.key()))
        polys = [x for c in conds for x in _polys(c)]
        if len(conds) < 2 or max([len(p.t) for p in polys] + [0]) < 2:
            return False
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 1000)
        for c in conds:
            s.add(z(c))
        return s.check() == z3.unsat

    def feasible(self, c, unknown=True, ms=None):
        c = as_cond(c)
        if c.k == 'const':
            return c.a
        self.stats.feas_queries += 1
        conds = self._slice(c) + [c]
        key = frozenset(x.key() for x in conds)
        r = self.shared['feas'].get(key)
        if r is None:
            res, model, seen = self.check(conds, ms or self.opt.feas_ms)
            r = res
            self.shared['feas'][key] = r
            if model is not None:
                self._remember(model, seen)
        return unknown if r == 'unknown' else r == 'sat'

    def model_values(self, model, seen):
        vals = {}
        for i in seen:
            a = ATOMS[i]
            if a.kind != 'base':
                continue
            v = model.eval(a.z, model_completion=False)
            f = z3_float(v)
            if f is not None:
                vals[i] = f
        return vals

    def _remember(self, model, seen):
        if len(self.shared['models']) > 60:
            return
        vals = self.model_values(model, seen)
        if vals:
            self.shared['models'].append(vals)
            e = _Env('m%d' % len(self.shared['models']), vals)
            if all(self._evc(k, e) is True for k in self.cons):
                self.pool.append(e)

    # -- claims ------------------------------------------------------------------
    def angle_facts(self, c):
        """exact meaning of comparing an inverse-trigonometric value with a fraction of pi (tautologies added to the path)"""
        if c.k in ('and', 'or'):
            for x in c.a:
                if isinstance(x, core.Cond):
                    self.angle_facts(x)
            return
        if c.k != 'cmp':
            return
        t = c.a[1].t
        if not 0 < len(t) <= 2:
            return
        at, a, b = None, None, core.F0
        for m, v in t.items():
            if len(m) != 1 or m[0][1] != 1:
                return
            if m[0][0] == core.PI_ATOM.id:
                b = v
            elif ATOMS[m[0][0]].kind == 'inv' and at is None:
                at, a = ATOMS[m[0][0]], v
            else:
                return
        if at is None or b == 0:
            return
        f = -b / a
        if (at.id, f) in self.angfacts:
            return
        self.angfacts.add((at.id, f))
        h = core.Fraction(1, 2)
        e = core._sincos_exact(f)
        if e is None or abs(f) >= 1 or abs(f) == h:
            return
        sf, cf = e
        sn, cs = at.meta
        d = sn * cf - cs * sf               # h sin(theta - f pi)
        th = Sym(core.Poly.atom(at)) - core.PI * Sym.const(f)
        if abs(f) < h:
            dom = core.as_cond(cs > 0)       # theta in (-pi/2, pi/2)
        else:
            dom = core.cand(core.as_cond(cs < 0), core.as_cond(sn > 0 if f > 0 else sn < 0))
        for op in ('>', '<', '=='):
            x, y = as_cond(core.cmp_cond(th, 0, op)), as_cond(core.cmp_cond(d, 0, op))
            self.add(core.cimplies(dom, core.cor(core.cand(x, y), core.cand(cnot(x), cnot(y)))))

    def claim(self, c, name):
        """prove that c holds on this path"""
        c = as_cond(c)
        self.angle_facts(c)
        self.claims += 1
        self.stats.obligations += 1
        neg = cnot(c)
        conds = [neg]
        if c.k == 'cmp':
            self.stats.max_terms = max(self.stats.max_terms, len(c.a[1].t))
        # a sample that satisfies the path and violates the claim?
        wit = None
        if neg.k != 'const':
            for e in self.pool:
                if self._evc(neg, e) is True and all(self._evc(k, e) is not False for k in self.cons):
                    wit = e
                    break
        if wit is None:
            sl = self._slice(neg) if neg.k != 'const' else []
            res, model, seen = self.check(sl + conds, self.opt.prove_ms) if not (neg.k == 'const' and not neg.a) else self.check([neg], 1000)
            if res == 'unsat':
                self.stats.discharged += 1
                return True
            if len(sl) < len(self.cons) or neg.k == 'const':
                res, model, seen = self.check(self.cons + conds, self.opt.prove_ms)
                if res == 'unsat':
                    self.stats.discharged += 1
                    return True
        else:
            res, model, seen = 'sat', None, set()
        cands = []
        if wit is not None:
            cands.append(dict((k, v) for k, v in wit.items() if ATOMS[k].kind == 'base'))
        if model is not None:
            cands.append(self.model_values(model, seen))
        self.failed.append({'name': name, 'result': res, 'cond': repr(c)[:600], 'cands': cands})
        self._more_candidates(neg)
        return False

    def _more_candidates(self, neg):
        f = self.failed[-1]
        # complete the assignments of the candidates with the pool's values
        for e in self.pool[:6]:
            f['cands'].append(dict((k, v) for k, v in e.items() if ATOMS[k].kind == 'base'))
        # solver: other models with part of the inputs pinned to sample values
        rnd = random.Random(self.opt.seed)
        base = [a for a in self.inputs.values()]
        if f['result'] != 'unsat' and len(f['cands']) < 8 and neg.k != 'const':
            for k in range(4):
                env = _Env('pin%d' % k)
                pins = []
                for a in base:
                    if rnd.random() < 0.7:
                        v = ev_atom(a.id, env)
                        pins.append(a.z == (int(round(v)) if a.z.is_int() else z3.RealVal('%.3f' % v)))
                res, model, seen = self.check(self.cons + [neg], 4000, extra=pins)
                if model is not None:
                    f['cands'].append(self.model_values(model, seen | set(a.id for a in base)))

    def fail(self, name, cands=True):
        """an unconditional violation on this path (reachability still to be confirmed by replay)"""
        return self.claim(FALSE, name)

    def claim_eq(self, a, b, name, tol=None):
        a, b = _sc(a), _sc(b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, Sym) or isinstance(b, Sym) or not (a == b or (a != a and b != b)):
                return self.claim(FALSE, '%s: %r vs %r' % (name, a, b))
            return self.claim(TRUE, name)
        return self.claim(as_cond(a == b), name)

    def claim_le(self, a, b, name):
        a, b = _sc(a), _sc(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return self.claim(TRUE if fa <= fb else FALSE, name)
        return self.claim(as_cond(a <= b), name)

    def claim_lt(self, a, b, name):
        a, b = _sc(a), _sc(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return self.claim(TRUE if fa < fb else FALSE, name)
        return self.claim(as_cond(a < b), name)

    def claim_true(self, b, name):
        if isinstance(b, Sym):
            b = b != 0
        return self.claim(as_cond(b), name)

    def claim_finite(self, a, name):
        a = _sc(a)
        return self.claim(TRUE if isinstance(a, Sym) else FALSE, name + ' is finite')

    def claim_not_nan(self, a, name):
        a = _sc(a)
        return self.claim(FALSE if isinstance(a, float) and a != a else TRUE, name + ' is not NaN')

    def claim_angle_eq(self, a, b, name):
        """equal modulo 2 pi"""
        a, b = _sc(a), _sc(b)
        if isinstance(a, float) or isinstance(b, float):
            return self.claim(FALSE, name + ' (not finite)')
        s, c = core.sincos(a - b)
        self.claim(as_cond(s == 0), name + ' [sin of difference]')
        return self.claim(as_cond(c > 0), name + ' [cos of difference]')

    def claim_eq_arr(self, a, b, name):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.claim(FALSE, '%s: shape %s vs %s' % (name, a.shape, b.shape))
        for i in np.ndindex(*a.shape):
            self.claim_eq(a[i], b[i], '%s%s' % (name, list(i)))

    def unreachable(self, name):
        return self.claim(FALSE, name)


def Sym_zero(x):
    x = lift(x)
    return isinstance(x, Sym) and not x.num.t


_GROUND = {}


def ground_value(c):
    """truth of a comparison between constants (no input involved), by evaluation when it is far from equality"""
    k = c.key()
    if k in _GROUND:
        return _GROUND[k]
    op, p = c.a
    _, seen = closure_axioms(c.atoms())
    r = None
    if all(ATOMS[i].kind not in ('base', 'choice') and ATOMS[i].ev is not None and not ATOMS[i].z.is_int() for i in seen):
        try:
            v = s = 0.0
            for m, co in p.t.items():
                x = float(co)
                for a, e in m:
                    x *= ev_atom(a, {}) ** e
                v += x
                s += abs(x)
            if abs(v) > 1e-6 * s:
                r = {'<': v < 0, '<=': v < 0, '>': v > 0, '>=': v > 0, '==': False, '!=': True}[op]
        except Exception:
            r = None
    _GROUND[k] = r
    return r


def congruences(seen):
    """pairs of same-function atoms for congruence/monotonicity axioms"""
    groups = {}
    for i in seen:
        a = ATOMS[i]
        if a.kind in ('exp', 'log', 'erf'):
            groups.setdefault(a.kind, []).append(a)
    for k, g in groups.items():
        if len(g) > 8:
            continue
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                yield g[i], g[j]
                yield g[j], g[i]


def _sc(a):
    import numpy as np
    if isinstance(a, np.ndarray):
        if a.size != 1:
            raise Unsupported('array where a scalar is claimed')
        a = a.reshape(-1)[0] if not isinstance(a, np.matrix) else a[0, 0]
    if isinstance(a, Cond):
        a = bool(a)
    r = lift(a)
    if r is NotImplemented:
        raise Unsupported('claim about %r' % (type(a),))
    return r


def z3_float(v):
    try:
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / float(v.denominator_as_long()) if abs(v.denominator_as_long()) < 10 ** 300 else float(v.as_fraction())
        if z3.is_algebraic_value(v):
            w = v.approx(20)
            return float(w.as_fraction())
    except Exception:
        return None
    return None


class TimeUp(BaseException):
    pass


def _alarm(sig, frame):
    raise TimeUp()


def explore(harness, opt, confirm=None):
    """run all paths; returns a dict with statistics, failures and inconclusives"""
    import signal
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(opt.time_s) + 20)
    try:
        return _explore(harness, opt, confirm)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _explore(harness, opt, confirm=None):
    stats = Stats()
    shared = {'feas': {}, 'models': [], 'ks': {}}
    todo = [[]]
    out = {'violations': [], 'inconclusive': [], 'claims': 0, 'notes': [], 'vacuity': None, 'known': []}
    t0 = time.time()
    reach = 0
    seen_fail = set()
    while todo:
        if stats.paths >= opt.max_paths:
            out['inconclusive'].append('path limit %d reached' % opt.max_paths)
            break
        if time.time() - t0 > opt.time_s:
            out['inconclusive'].append('time limit %ds reached after %d paths (%d left)' % (opt.time_s, stats.paths, len(todo)))
            break
        prefix = todo.pop()
        t = T(opt, stats, prefix, shared)
        core.CUR[0] = t
        exc = None
        try:
            harness(t)
        except Infeasible:
            stats.dropped += 1
            todo.extend(t.alts)
            continue
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
            out['inconclusive'].append('unsupported: %s (%s)' % (e, where))
            stats.paths += 1
            todo.extend(t.alts)
            if len(out['inconclusive']) > 5:
                break
            continue
        except TimeUp:
            out['inconclusive'].append('time limit reached after %d paths' % stats.paths)
            todo, t.alts = [], []
        except Exception as e:
            exc = e
        stats.paths += 1
        todo.extend(t.alts)
        out['claims'] += t.claims
        out['notes'].extend(n for n in t.notes if n not in out['notes'])
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))
            t.failed.append({'name': 'exception %s: %s (%s)' % (type(exc).__name__, exc, where), 'result': 'exception', 'cond': '',
                             'cands': []})
            t._more_candidates(TRUE)
            if not t.pool:
                res, model, seen = t.check(t.cons, opt.feas_ms)
                if res == 'unsat':
                    continue
                if model is not None:
                    t.failed[-1]['cands'].append(t.model_values(model, seen))
        if t.claims and not reach:
            # vacuity twin: assert(false) at the end of this path must be refuted with a model
            if t.pool:
                reach = 1
                out['vacuity'] = 'witnessed by a concrete input satisfying the path condition'
            else:
                res, model, seen = t.check(t.cons, opt.prove_ms)
                if res == 'sat':
                    reach = 1
                    out['vacuity'] = 'solver model of the path condition'
        for f in t.failed:
            fk = f['name']
            if fk in seen_fail and len(seen_fail) > 40:
                continue
            seen_fail.add(fk)
            ok = None
            msgs = []
            if confirm is not None:
                tried = []
                for cnd in f['cands']:
                    vals = {}
                    env = _Env('fill', dict(cnd))
                    for n, a in t.inputs.items():
                        try:
                            v = ev_atom(a.id, env)
                        except Exception:
                            v = 0.0
                        vals[n] = int(round(v)) if a.z.is_int() else v
                    if vals in tried:
                        continue
                    tried.append(vals)
                    r = confirm(vals, f['name'])
                    if r[0] == 'violation':
                        ok = (vals, r[1])
                        break
                    msgs.append(r[1])
                    if len(tried) > 20:
                        break
            if ok:
                out['violations'].append({'claim': f['name'], 'inputs': ok[0], 'replay': ok[1], 'solver': f['result']})
            elif f['result'] == 'unsat':
                pass
            else:
                out['inconclusive'].append('claim %r: solver says %s, %d candidate inputs did not reproduce (%s) cond %s' % (f['name'], f['result'], len(f['cands']), '; '.join(msgs[:2])[:300], f['cond'][:300]))
        if len(out['violations']) >= opt.max_ce:
            break
    if not out['claims'] and not out['inconclusive'] and not out['violations']:
        out['inconclusive'].append('vacuous: no claim reached')
    elif not reach and not out['violations']:
        out['inconclusive'].append('vacuity twin not witnessed')
    out['stats'] = dict(stats.__dict__)
    out['time'] = time.time() - t0
    core.CUR[0] = core.Ctx()
    return out


# ---------------------------------------------------------------------------
# concrete mode
# ---------------------------------------------------------------------------

class AutoValues(dict):
    """concrete inputs drawn on demand (and remembered for the replay file)"""

    def __init__(self, seed):
        dict.__init__(self)
        self.seed = seed

    def want(self, name, lo, hi, special, dist):
        if name not in self:
            class A(object):
                meta = {'lo': lo, 'hi': hi, 'special': tuple(special), 'dist': dist}
            A.name = name
            self[name] = _draw(self.seed, A)
        return self[name]


class TC(object):
    """concrete harness context (replay on the real code)"""
    symbolic = False
    tier = property(lambda self: os.environ.get('VERIF_TIER', 'quick'))

    def __init__(self, values, rtol=1e-6, atol=1e-9):
        self.values = values
        self.rtol, self.atol = rtol, atol
        self.counter = {}
        self.soft = []
        self.bad = []
        self.preset = []
        self.preset_kinds = []
        self.draws = []
        self.draw_limit = {}
        self.draw_domains = {}
        self.notes = []
        self.claims = 0
        self.logs = []

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=(), unit=None, dist=None, nonzero=False):
        if isinstance(self.values, AutoValues):
            self.values.want(name, None if lo is None else lift(lo).ev({}), None if hi is None else lift(hi).ev({}), special, dist)
        v = float(self.values[name])
        flo = None if lo is None else (lift(lo).ev({}))
        fhi = None if hi is None else (lift(hi).ev({}))
        if flo is not None and v < flo:
            v = flo
        if fhi is not None and v > fhi:
            v = fhi
        if (nonzero and v == 0) or (lo_open and v == flo) or (hi_open and v == fhi):
            raise Infeasible()
        import numpy as np
        return np.float64(v)

    def fresh(self, prefix, **k):
        n = self.counter.get(prefix, 0)
        self.counter[prefix] = n + 1
        return self.real('%s#%d' % (prefix, n), **k)

    pi = math.pi

    def exp(self, x):
        x = self._f(x)
        try:
            return 0.0 if x == -INF else math.exp(x)
        except OverflowError:
            raise Infeasible()          # the oracle itself leaves the double range

    def log(self, x):
        x = self._f(x)
        return -INF if x == 0 else math.log(x)

    def erf(self, x):
        return math.erf(self._f(x))

    def sqrt(self, x):
        return math.sqrt(self._f(x))

    def abs(self, x):
        return abs(self._f(x))

    def sin(self, x):
        return math.sin(self._f(x))

    def cos(self, x):
        return math.cos(self._f(x))

    def pow(self, x, y):
        return self._f(x) ** self._f(y)

    def lift(self, x):
        return self._f(x)

    def draw(self, kind, *args):
        """scripted random draw of a replay"""
        q = self.preset.get(kind) if isinstance(self.preset, dict) else self.preset
        if q:
            self.preset_kinds.append(kind)
            return float(q.pop(0))
        n = self.counter.get(kind, 0)
        self.counter[kind] = n + 1
        v = self.values.get('%s#%d' % (kind, n))
        if v is None:
            # the recorded path does not need this draw
            r = random.Random('extra/%s/%d' % (kind, n))
            v = r.gauss(0, 1) if kind == 'randn' else r.random()
            if isinstance(self.values, AutoValues):
                v = self.values['%s#%d' % (kind, n)] = random.Random('%s/%s#%d' % (self.values.seed, kind, n)).gauss(0, 1) if kind == 'randn' else random.Random('%s/%s#%d' % (self.values.seed, kind, n)).random()
        self.draws.append((kind, args, float(v)))
        lim = self.draw_limit.get(kind)
        if lim is not None and n >= lim:
            raise Infeasible()
        return float(v)

    def register_eigen(self, m, e, v):
        pass

    def mono_exp(self, a, b):
        pass

    def choose(self, name, n):
        if isinstance(self.values, AutoValues):
            self.values.want(name, 0, n - 1, (), lambda r: r.randrange(n))
        return int(self.values[name]) % n

    def choose_fresh(self, prefix, n):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return self.choose('%s#%d' % (prefix, k), n)

    def assume(self, c):
        if not bool(c):
            raise Infeasible()

    def claim(self, c, name):
        self.claims += 1
        if not bool(c):
            self.bad.append(name)
        return bool(c)

    claim_true = claim

    def fail(self, name):
        return self.claim(False, name)

    unreachable = fail

    def _f(self, a):
        import numpy as np
        a = np.asarray(a)
        return float(a.reshape(-1)[0]) if a.size == 1 else a

    def claim_eq(self, a, b, name, tol=None):
        a, b = self._f(a), self._f(b)
        rt = tol or self.rtol
        if a != a or b != b:
            return self.claim(a != a and b != b, '%s: %r vs %r' % (name, a, b))
        if a in (INF, -INF) or b in (INF, -INF):
            return self.claim(a == b, '%s: %r vs %r' % (name, a, b))
        return self.claim(abs(a - b) <= self.atol + rt * max(abs(a), abs(b)), '%s: %r vs %r' % (name, a, b))

    def claim_le(self, a, b, name):
        a, b = self._f(a), self._f(b)
        return self.claim(a <= b + self.atol + self.rtol * max(abs(a) if abs(a) != INF else 0, abs(b) if abs(b) != INF else 0), '%s: %r <= %r' % (name, a, b))

    def claim_lt(self, a, b, name):
        a, b = self._f(a), self._f(b)
        if not a < b and a <= b + self.atol + self.rtol * max(abs(a) if abs(a) != INF else 0, abs(b) if abs(b) != INF else 0):
            # may be rounding: reported only when the solver found this very claim violated
            self.claims += 1
            self.soft.append('%s: %r < %r' % (name, a, b))
            return False
        return self.claim(a < b, '%s: %r < %r' % (name, a, b))

    def claim_finite(self, a, name):
        a = self._f(a)
        return self.claim(math.isfinite(a), '%s is finite: %r' % (name, a))

    def claim_not_nan(self, a, name):
        a = self._f(a)
        return self.claim(a == a, '%s is not NaN' % name)

    def claim_angle_eq(self, a, b, name):
        a, b = self._f(a), self._f(b)
        d = (a - b) / (2 * math.pi)
        return self.claim(abs(d - round(d)) < 1e-6, '%s: %r vs %r' % (name, a, b))

    def claim_eq_arr(self, a, b, name):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.claim(False, '%s: shape %s vs %s' % (name, a.shape, b.shape))
        for i in np.ndindex(*a.shape):
            self.claim_eq(a[i], b[i], '%s%s' % (name, list(i)))


def run_concrete(harness, values, expect=None, **k):
    """-> ('violation'|'ok'|'skip'|'error', message)"""
    import warnings
    t = TC(values, **k)
    old = core.CUR[0]
    core.CUR[0] = t
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            harness(t)
    except Infeasible:
        return 'skip', 'input outside the assumed domain'
    except Unsupported as e:
        return 'error', 'unsupported in replay: %s' % e
    except KeyError as e:
        if isinstance(e.args[0], str) and e.args[0] not in values and ('#' in e.args[0]):
            return 'error', 'replay needs input %s' % e
        return 'violation', 'exception %s: %s' % (type(e).__name__, e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return 'violation', 'exception %s: %s (%s)' % (type(e).__name__, e, where)
    finally:
        core.CUR[0] = old
    if t.bad:
        return 'violation', t.bad[0]
    for m in t.soft:
        if expect is not None and m.startswith(expect + ':'):
            return 'violation', m
    return 'ok', 'all %d claims hold in floats' % t.claims
