"""C20: the compiled accelerators compute the same functions as the pure-Python paths

The inputs are those of the checks of C01-C04, C10, C12-C14 and C18: each of their harnesses is run again with stand-ins for the modules that hand every
call to the pure-Python implementation and to the compiled one (the translated .pyx source) and claim that both return the same.  Random generation and
chain steps draw their numbers from different generators, so there the compiled side is held against the distribution the Python side is held
against in C05, C06 and C08.
"""
import math
import types

import numpy

from symx import harness as H
from symx.core import Unsupported
from symx.harness import harness
from . import c01, c02, c03, c04, c05, c06, c08, c10, c12, c13, c14
from .common import INF, Disk, flat, all_of
from .c18 import Block, NAMES, cluster, file_of

PRELOAD = ['MTfit.probability.probability', 'MTfit.convert.moment_tensor_conversion', 'MTfit.algorithms.markov_chain_monte_carlo', 'MTfit.inversion', 'MTfit.sampling',
           'MTfit.extensions.scatangle', 'MTfit.algorithms.monte_carlo']
ASSUMPTIONS = ['inputs, bounds and assumptions of the harnesses taken over from C01-C06, C08, C10 and C12-C14',
               'the eigen-solver gives both implementations the same axes (their signs are its choice)',
               'NumPy and C generators of uniform and normal numbers are what they say (C08)']
OUTSIDE = 'rounding; the unused helpers of the extension modules that no public routine calls; binning of angle coefficients; parallel (OpenMP) scheduling'
LOGS = ('ln_pdf', '_ln_pdf', 'ln_marginalise', 'ln_normalise', 'polarity_ln_pdf', 'polarity_probability_ln_pdf', 'amplitude_ratio_ln_pdf', 'marginalise', 'normalise')


class Quiet(object):
    """the context of a harness whose own claims are decided elsewhere"""

    def __init__(self, t):
        self.__dict__['_t'] = t

    def __getattr__(self, name):
        if name.startswith('claim_') or name in ('unreachable', 'fail'):
            return lambda *a, **k: None
        return getattr(self._t, name)

    def __setattr__(self, name, v):
        setattr(self._t, name, v)


class Pair(object):
    def __init__(self, t, py, c, name):
        self.__dict__.update(_t=t, _py=py, _c=c, _name=name)

    def __getattr__(self, name):
        a, b = getattr(self._py, name), getattr(self._c, name)
        if isinstance(a, type):
            return Class(self._t, a, b, name)
        if callable(a) and not hasattr(a, '_ln_pdf'):
            return Function(self._t, a, b, name)
        if name.startswith('__'):
            return a
        if isinstance(a, types.ModuleType):
            return Pair(self._t, a, b, name)
        equal(self._t, a, b, '%s.%s' % (self._name, name), name in LOGS)
        return a

    def __call__(self, *a, **k):
        return Function(self._t, self._py, self._c, self._name)(*a, **k)


class Function(object):
    def __init__(self, t, py, c, name):
        self.t, self.py, self.c, self.name = t, py, c, name

    def __call__(self, *a, **k):
        c = self.c(*[side(x, 1) for x in a], **{n: side(x, 1) for n, x in k.items()})
        p = self.py(*[side(x, 0) for x in a], **{n: side(x, 0) for n, x in k.items()})
        if not self.t.symbolic and self.name in AXES:
            AXES[self.name](self.t, p, c, self.name)
        else:
            equal(self.t, p, c, self.name, self.name in LOGS)
        if opaque(p):
            return Pair(self.t, p, c, self.name)
        return p


class Class(Function):
    def __call__(self, *a, **k):
        return Pair(self.t, self.py(*[side(x, 0) for x in a], **{n: side(x, 0) for n, x in k.items()}),
                    self.c(*[side(x, 1) for x in a], **{n: side(x, 1) for n, x in k.items()}), self.name)


def side(x, i):
    if isinstance(x, Pair):
        return x._c if i else x._py
    if hasattr(x, 'copy') and hasattr(x, 'shape'):
        return x.copy()
    if isinstance(x, list):
        return [side(v, i) for v in x]
    if isinstance(x, tuple):
        return tuple(side(v, i) for v in x)
    if isinstance(x, dict):
        return {k: side(v, i) for k, v in x.items()}
    return x


def opaque(v):
    return hasattr(v, '_ln_pdf') or (hasattr(v, '__dict__') and type(v).__module__.startswith('MTfit'))


def plain(v):
    return v.item() if isinstance(v, numpy.generic) else v


def number(t, a, b, name, log):
    a, b = plain(a), plain(b)
    for x in (a, b):
        if isinstance(x, float) and (x != x or x in (INF, -INF)):
            same = (x == x and a == b) if not (isinstance(a, float) and isinstance(b, float) and a != a and b != b) else True
            t.claim_true(same if isinstance(same, bool) else bool(same), name + ': same special value')
            return
    if log:
        t.claim_eq(t.exp(a), t.exp(b), name)
    else:
        t.claim_eq(a, b, name)


def equal(t, a, b, name, log=False):
    if hasattr(a, '_ln_pdf') or hasattr(b, '_ln_pdf'):
        equal(t, getattr(a, '_ln_pdf', a), getattr(b, '_ln_pdf', b), name, True)
        if hasattr(a, 'dV') and hasattr(b, 'dV'):
            equal(t, a.dV, b.dV, name + ' volume element')
        return
    if isinstance(a, dict) and isinstance(b, dict):
        t.claim_true(set(a) == set(b), name + ': same entries')
        for k in a:
            if k in b:
                equal(t, a[k], b[k], '%s[%r]' % (name, k), log or k == 'ln_pdf')
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        t.claim_true(len(a) == len(b), name + ': same number of values')
        for x, y in zip(a, b):
            equal(t, x, y, name, log)
        return
    if a is None or b is None or isinstance(a, (str, bool)) or opaque(a):
        if not opaque(a):
            t.claim_true((a is None) == (b is None) and (a is None or a == b), name + ': same value')
        return
    x, y = values(a), values(b)
    t.claim_true(len(x) == len(y), name + ': same size')
    if len(x) == len(y):
        for p, q in zip(x, y):
            number(t, p, q, name, log)


def values(a):
    if hasattr(a, 'shape') and hasattr(a, 'reshape'):
        return list(numpy.asarray(a).reshape(-1)) if not hasattr(a, 'flat') else [v for v in a.flat]
    return [a]


# the real eigen-solvers behind the two paths choose the signs of the axes differently (and so which nodal plane comes first)

def axes(t, a, b, name):
    equal(t, a[3], b[3], name + ' eigenvalues')
    for x, y, n in zip(a[:3], b[:3], 'TNP'):
        x, y = numpy.asarray(x, dtype=float).reshape(3, -1), numpy.asarray(y, dtype=float).reshape(3, -1)
        t.claim_true(x.shape == y.shape, name + ' shape of ' + n)
        e = numpy.asarray(a[3], dtype=float).reshape(3, -1)
        for j in range(x.shape[1]):
            if min(abs(e[0, j] - e[1, j]), abs(e[1, j] - e[2, j])) > 1e-6:
                t.claim_true(abs(abs(float(x[:, j] @ y[:, j])) - 1) < 1e-6, name + ' ' + n)


def tape(t, a, b, name):
    a, b = [[float(v) for v in numpy.asarray(x).reshape(-1)] for x in a], [[float(v) for v in numpy.asarray(x).reshape(-1)] for x in b]
    for j in range(len(a[0])):
        for i in (0, 1):
            t.claim_eq(a[i][j], b[i][j], name)
        orientation(t, [x[j] for x in a[2:]], [x[j] for x in b[2:]], name)


def orientation(t, a, b, name):
    if abs(abs(a[2]) - math.pi / 2) < 1e-6 or a[1] > 1 - 1e-9 or (a[1] < 1e-6 and abs(a[2]) < 1e-6):
        return      # either plane, or strike and slip not separate
    t.claim_angle_eq(a[0], b[0], name + ' kappa')
    t.claim_true(abs(a[1] - b[1]) < 1e-6 and abs(a[2] - b[2]) < 1e-6, name + ' h, sigma')


def converted(t, a, b, name):
    t.claim_true(set(a) == set(b), name + ': same entries')
    a, b = [{k: [float(v) for v in numpy.asarray(x).reshape(-1)] for k, x in d.items()} for d in (a, b)]
    for k in ('g', 'd', 'u', 'v'):
        equal(t, a[k], b[k], '%s[%s]' % (name, k))
    for j in range(len(a['g'])):
        orientation(t, [a[k][j] for k in 'khs'], [b[k][j] for k in 'khs'], name)
        p = [[plane(d, n, j) for n in '12'] for d in (a, b)]
        t.claim_true(any(max(numpy.abs(x - y).max() for x, y in zip(p[0], q)) < 1e-6 for q in (p[1], p[1][::-1])), name + ': nodal planes')


def plane(d, n, j):
    """moment tensor and normal of a nodal plane"""
    s, i, r = [math.radians(d[k + n][j]) for k in 'SDR']
    x = numpy.array([-math.sin(s) * math.sin(i), math.cos(s) * math.sin(i), -math.cos(i)])
    u = numpy.array([math.cos(s) * math.cos(r) + math.sin(s) * math.cos(i) * math.sin(r), math.sin(s) * math.cos(r) - math.cos(s) * math.cos(i) * math.sin(r), -math.sin(i) * math.sin(r)])
    return numpy.concatenate([numpy.outer(x, u) + numpy.outer(u, x), numpy.outer(x, x)])


AXES = {'MT6_TNPE': axes, 'MT33_TNPE': axes, 'MT6_Tape': tape, 'output_convert': converted}


class Twin(object):
    symbolic = True

    def __init__(self, t, w):
        self.t, self.w = t, w
        self.symbolic = w.symbolic
        self.swallowed = []

    def load(self, name):
        return Pair(self.t, self.w.py.load(name), self.w.c.load(name), name.split('.')[-1])


def registered(mod, name):
    return [h for h in H.REG if h.fn.__module__ == mod.__name__ and h.name == name][0]


def twice(mod, name, tier=None, **kw):
    h = registered(mod, name)

    def f(t, w, np):
        h.fn(Quiet(t), Twin(t, w), np)
    short = mod.__name__.split('.')[-1]
    f.__name__ = '%s_%s' % (short, name)
    f.__doc__ = 'both implementations agree on the inputs of %s %s' % (short.upper(), name)
    f.__module__ = __name__
    opt = dict(h.opt)
    opt.pop('thorough', None)
    opt.update(kw)
    globals()[f.__name__] = harness(modes=('both',), bounds=h.bounds, validate=min(h.validate, 20), tier=tier or h.tier, rtol=h.rtol, atol=h.atol, weight=h.weight, **opt)(f)


def compiled(mod, name, tier=None):
    """the compiled side against the distribution or probability the Python side is held against"""
    h = registered(mod, name)

    def f(t, w, np):
        h.fn(t, w, np)
    short = mod.__name__.split('.')[-1]
    f.__name__ = 'compiled_%s_%s' % (short, name)
    f.__doc__ = h.doc
    f.__module__ = __name__
    globals()[f.__name__] = harness(modes=('c',), bounds=h.bounds, validate=h.validate, tier=tier or h.tier, rtol=h.rtol, atol=h.atol, weight=h.weight, **h.opt)(f)


# -- likelihoods -----------------------------------------------------------------------

for _n in ('polarity_formula', 'polarity_formula_scalar', 'polarity_formula_array', 'polarity_zero_sigma', 'polarity_no_nan', 'polprob_formula', 'polprob_formula_array',
           'polprob_formula_free', 'polprob_formula_scalar', 'polprob_formula_sources', 'polprob_no_nan'):
    twice(c02, _n)
for _n in ('density', 'amplitude_dot', 'alignment_stations', 'alignment_locations', 'nodal'):
    twice(c03, _n)
for _h in list(H.REG):
    if _h.fn.__module__ == c01.__name__ and 'c' in _h.modes and not _h.finding and (_h.name.startswith('task_') or _h.name.startswith('location_')) \
            and not _h.name.endswith('duplicate') and not _h.name.endswith('impossible'):
        twice(c01, _h.name)

# -- log domain ------------------------------------------------------------------------

for _n in ('marginalise_3x1', 'marginalise_2x2', 'marginalise_lnpdf', 'marginalise_1x3', 'marginalise_range', 'marginalise_range_zeros', 'normalise_3', 'normalise_dv', 'normalise_1',
           'normalise_row', 'normalise_lnpdf', 'normalise_lnpdf1', 'output_lnpdf', 'normalise_range', 'normalise_2x2'):
    twice(c04, _n)
for _n in ('dkl', 'dkl_lnpdf', 'dkl_estimate_array', 'dkl_estimate_lnpdf', 'evidence'):
    twice(c10, _n)

# -- conversions -----------------------------------------------------------------------

for _n in ('tensor_of_tape', 'matrix_of_tape', 'tape_of_lune', 'tape_of_orientation', 'tape_of_several', 'double_couple'):
    twice(c12, _n)
for _n in ('auxiliary_plane', 'auxiliary_plane_edges', 'angles_of_axes', 'axes_of_angles'):
    twice(c13, _n)
for _n in ('lune_of_eigenvalues', 'reported_hudson', 'potency_default', 'isotropic', 'stiffness_norm', 'isotropy'):
    twice(c14, _n)

# -- random generation and chain steps ---------------------------------------------------

for _n in ('dc_angles', 'dc_independent_c', 'mt_sphere', 'mt_independent', 'count'):
    compiled(c08, _n)
for _n in ('shift_density', 'try_jump', 'try_two', 'try_after_jump', 'zero_likelihood', 'joint_zero'):
    compiled(c05, _n)
compiled(c05, 'try_shift', 'thorough')
for _n in ('converts', 'jump_several', 'several'):
    compiled(c06, _n)
for _n in ('jump', 'shift'):
    compiled(c06, _n, 'thorough')


# -- scatter binning ---------------------------------------------------------------------

@harness(modes=('both',), bounds='2 and 3 samples of 1 station, 2 of 2 stations, angles anywhere, every bin size', time_s=400)
def bins(t, w, np):
    """the same records and weights whichever implementation bins them"""
    P, C = w.py.load('MTfit.extensions.scatangle'), w.c.load('MTfit.extensions.scatangle')
    disk = Disk(t, P, C)
    try:
        n, st = ((2, 1), (3, 1), (2, 2))[t.choose('shape', 3)]
        blocks = [Block(t, str(i), NAMES[:st], cluster(20)) for i in range(n)]
        b = t.real('bin', lo=0, hi=360, special=(0,), dist=lambda r: r.uniform(0, 30))
        f = file_of(t, disk, blocks)
        r, p = P.parse_scatangle(f, 0, b)
        r2, p2 = C.parse_scatangle(f, 0, b)
        t.claim_true(len(r) == len(r2) == len(p) == len(p2), 'as many records')
        for x, y in zip(r, r2):
            t.claim_true(list(x['Name']) == list(y['Name']), 'stations')
            for k in ('Azimuth', 'TakeOffAngle'):
                t.claim_true(x[k].shape == y[k].shape and all_of([t.lift(x[k][i, 0]) == t.lift(y[k][i, 0]) for i in range(len(x['Name']))]), k)
        for x, y in zip(p, p2):
            t.claim_eq(x, y, 'weight')
    finally:
        disk.close()


@harness(modes=('both',), bounds='a double-couple state, every pair of uniform draws')
def flat_balancing(t, w, np):
    """gaussian_jump_params=False: the balancing parameters of a jump from the same uniform draws"""
    x0 = c05.state(t, 'a', True)
    u = [t.real('u%d' % i, lo=0, hi=1, lo_open=True, hi_open=True) for i in (1, 2)]
    got = []
    for v in (w.py, w.c):
        a = c05.make(v, t, c05.MULTI[1], dc=True, dimension_jump_prob=0.5, gaussian_jump_params=False)
        c06.start(t, v, a, x0, True)
        a._number_samples = 1
        t.preset = {'rand': [0.0] + u, 'crand': []}
        a.new_sample()
        t.preset = []
        got.append(a.xi_1[0] if isinstance(a.xi_1, list) else a.xi_1)
    for k in ('gamma', 'delta', 'kappa', 'h', 'sigma'):
        t.claim_eq(got[0][k], got[1][k], k)
