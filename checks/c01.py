"""C01: the value attached to a source is the weighted sum over location samples of the product of its data likelihoods"""
from symx.harness import harness
from .common import INF, flat, dot6
from .c02 import pol, pp
from .c03 import dens, pos
from .c11 import inv, coef, rad, angle

ASSUMPTIONS = ['six-vector sources; the per-observation likelihoods are the formulas decided in C02 and C03',
               'sizes: up to 3 observations per data type (2 in the location harnesses), up to 2 location samples (3 in the duplicate harness), up to 2 sources per batch']
PRELOAD = ['MTfit.inversion']
OUTSIDE = 'rounding; extension data types; a likelihood that underflows; MPI'


class Data(object):
    """symbolic observations of the three kinds with different station counts"""

    def __init__(self, t, np, npol, nar, npp, nv=1, wkind='none', hard=False, fixed=False):
        self.t, self.np, self.nv = t, np, nv
        self.n = (npol, nar, npp)
        R = lambda n, **k: t.real(n, **k)
        self.a = [[[R('a%d_%d_%d' % (u, v, i)) if i in (0, 1, 2) else 0.0 for i in range(6)] for v in range(nv)] for u in range(npol)]
        self.s = [R('s%d' % u, lo=0, lo_open=True, special=(0.1, 1)) for u in range(npol)]
        self.c = [[(pos(t, 'c%d_%d' % (u, v)), pos(t, 'd%d_%d' % (u, v))) for v in range(nv)] for u in range(nar)]
        self.r = [pos(t, 'r%d' % u) for u in range(nar)]
        self.px = [pos(t, 'px%d' % u) for u in range(nar)]
        self.py = [pos(t, 'py%d' % u) for u in range(nar)]
        if fixed:
            self.c = [[(1.0 + 0.5 * u + 0.25 * v, 1.5 - 0.5 * v + 0.125 * u) for v in range(nv)] for u in range(nar)]
            self.r = [(1.0, 0.75, 1.5)[u] for u in range(nar)]
            self.px = [0.5] * nar
            self.py = [(0.25, 0.5, 0.5)[u] for u in range(nar)]
        self.b = [[[1.0 if i == 2 + (u + 2 * v) % 4 else 0.0 for i in range(6)] for v in range(nv)] for u in range(npp)]
        self.p = [R('p%d' % u, lo=0, hi=1, lo_open=not hard, hi_open=not hard, special=(0, 1, 0.5) if hard else (0.5, 0.25)) for u in range(npp)]
        self.q = [R('q%d' % u, lo=0, hi=1, lo_open=not hard, hi_open=not hard, special=(0, 1, 0.5) if hard else (0.5, 0.25)) for u in range(npp)]
        k = max(npol, npp)
        self.wkind = wkind
        if wkind == 'none' or not k:
            self.w = [0.0] * k
        elif wkind == 'one':
            self.w = [R('w', lo=0, hi=1, special=(0, 1, 0.25))] * k
        else:
            self.w = [R('w%d' % u, lo=0, hi=1, special=(0, 1, 0.25)) for u in range(k)]

    def args(self, opol=None, oar=None, opp=None, ov=None):
        """constructor arguments in station order o*, location order ov"""
        np = self.np
        npol, nar, npp = self.n
        opol, oar, opp = opol or list(range(npol)), oar or list(range(nar)), opp or list(range(npp))
        ov = ov or list(range(self.nv))
        z = [0.0]
        ax = np.array([[[self.c[u][v][0], 0.0, 0.0, 0.0, 0.0, 0.0] for v in ov] for u in oar]) if nar else False
        ay = np.array([[[0.0, self.c[u][v][1], 0.0, 0.0, 0.0, 0.0] for v in ov] for u in oar]) if nar else False
        return [np.array([[self.a[u][v] for v in ov] for u in opol]) if npol else False,
                np.array([self.s[u] for u in opol]) if npol else False, ax, ay,
                np.array([self.r[u] for u in oar]) if nar else False,
                np.array([self.px[u] for u in oar]) if nar else False,
                np.array([self.py[u] for u in oar]) if nar else False,
                np.array([[self.b[u][v] for v in ov] for u in opp]) if npp else False,
                (np.array([self.p[u] for u in opp]), np.array([self.q[u] for u in opp])) if npp else False]

    def incorrect(self, opol=None, opp=None):
        if self.wkind == 'none' or not self.w:
            return 0
        if self.wkind == 'one':
            return self.np.array(self.w[:1])
        o = opol or opp or list(range(len(self.w)))
        return self.np.array([self.w[u] for u in o])

    def representable(self, ms):
        # a likelihood that underflows is outside the bounds (only concrete runs can)
        if not self.t.symbolic:
            for v in range(self.nv):
                for m in ms:
                    self.t.assume(self.like(v, m) > 1e-250)
        else:
            # the density of |X/Y| is positive (integral of a positive function, C03)
            for v in range(self.nv):
                for m in ms:
                    for u in range(self.n[1]):
                        self.t.assume(self.ratio(u, v, m) > 0)

    def ratio(self, u, v, m):
        return dens(self.t, self.r[u], self.c[u][v][0] * m[0], self.c[u][v][1] * m[1], self.px[u], self.py[u])

    def like(self, v, m):
        t = self.t
        L = t.lift(1.0)
        for u in range(self.n[0]):
            L = L * pol(t, dot6(self.a[u][v], m), self.s[u], self.w[u])
        for u in range(self.n[1]):
            L = L * self.ratio(u, v, m)
        for u in range(self.n[2]):
            L = L * pp(dot6(self.b[u][v], m), self.p[u], self.q[u], self.w[u])
        return L


def sources(t, np, n, fixed=False, signs=False):
    M = [[(1.0 if fixed else pos(t, 'm%d_%d' % (i, j))) if i < 2 else (-1) ** i * pos(t, 'm%d_%d' % (i, j)) if signs else t.real('m%d_%d' % (i, j)) for i in range(6)] for j in range(n)]
    return M, np.array([[M[j][i] for j in range(n)] for i in range(6)])


def run(I, np, args, M, mult=False, inc=0, **k):
    r = I.ForwardTask(M, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], mult, inc, **k)()
    v = r['ln_pdf']
    return r, np.asarray(getattr(v, '_ln_pdf', v))


COMBOS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]


def combo(t, w, np, k, counts, wkind, nsrc=1):
    I = inv(w)
    n = [c if on else 0 for c, on in zip(counts, COMBOS[k])]
    D = Data(t, np, *n, wkind=wkind)
    ms, M = sources(t, np, nsrc)
    rz = bool(t.choose('return_zero', 2))
    D.representable(ms)
    r, v = run(I, np, D.args(), M, inc=D.incorrect(), return_zero=rz)
    t.claim_eq(r['n'], nsrc, 'every candidate counted')
    v = flat(np, v)
    t.claim_true(len(v) == nsrc, 'no candidate lost')
    t.claim_eq_arr(r['moment_tensors'], M, 'sources unchanged')
    for j in range(nsrc):
        t.claim_not_nan(v[j], 'not NaN')
        t.claim_eq(t.exp(v[j]), D.like(0, ms[j]), 'product of the likelihoods')


def _combo(k, counts, wkind, nsrc=1, suffix='', **kw):
    names = '_'.join(n for n, on in zip(('polarity', 'ratio', 'probability'), COMBOS[k]) if on)

    def f(t, w, np):
        combo(t, w, np, k, counts, wkind, nsrc)
    f.__name__ = 'task_%s%s' % (names, suffix)
    f.__doc__ = 'the reported value is the product over the observations of: %s' % names.replace('_', ', ')
    f.__module__ = __name__
    b = '%s observations of polarity/ratio/probability, %d source(s), no location samples, mispick: %s' % ('/'.join(str(c if on else 0) for c, on in zip(counts, COMBOS[k])), nsrc, wkind)
    globals()[f.__name__] = harness(bounds=b, **kw)(f)


for _k in range(7):
    _both = COMBOS[_k][0] and COMBOS[_k][2]
    _combo(_k, (2, 1, 1), 'none')
    _combo(_k, (1, 2, 1) if COMBOS[_k][2] else (1, 2, 2), 'none', suffix='_b')
    _combo(_k, (1, 1, 2), 'one' if _both else 'array', suffix='_mispick')
    _combo(_k, (3, 2, 2), 'one' if _both else 'array', suffix='_large', tier='thorough')
    _combo(_k, (1, 1, 1), 'none', 2, suffix='_two_sources')


# -- location samples ----------------------------------------------------------------

def weight(t, name):
    return t.real(name, lo=0, lo_open=True, special=(1, 0.5, 2))


def location(t, w, np, k, counts, wkind='none', marg=True, weighted=None):
    I = inv(w)
    n = [c if on else 0 for c, on in zip(counts, COMBOS[k])]
    D = Data(t, np, *n, nv=2, wkind=wkind, fixed=True)
    ms, M = sources(t, np, 1, fixed=True, signs=sum(n) > 2 or n[1] > 0 or n[2] > 1)
    if weighted is None:
        weighted = bool(t.choose('weighted', 2))
    ws = [weight(t, 'wt0'), weight(t, 'wt1')] if weighted else [1.0, 1.0]
    mult = False
    if weighted:
        mult = [ws[0], ws[1]]
    elif t.choose('unit weights', 2):
        mult = [1.0, 1.0]
    D.representable(ms)
    r, v = run(I, np, D.args(), M, mult=mult, inc=D.incorrect(), marginalise=marg)
    if marg:
        v = flat(np, v)
        t.claim_true(len(v) == 1, 'one value')
        t.claim_not_nan(v[0], 'not NaN')
        t.claim_eq(t.exp(v[0]), ws[0] * D.like(0, ms[0]) + ws[1] * D.like(1, ms[0]), 'weighted sum over the location samples')
    else:
        t.claim_true(tuple(v.shape) == (2, 1), 'a value per location sample')
        for i in range(2):
            t.claim_eq(t.exp(v[i, 0]), ws[i] * D.like(i, ms[0]), 'weight times likelihood of the location sample')


def _location(k, counts, suffix='', **kw):
    marg = kw.pop('marg', True)
    wkind = kw.pop('wkind', 'none')
    names = '_'.join(n for n, on in zip(('polarity', 'ratio', 'probability'), COMBOS[k]) if on)

    def f(t, w, np):
        location(t, w, np, k, counts, wkind, marg)
    f.__name__ = 'location_%s%s' % (names, suffix)
    f.__doc__ = 'log of the weighted sum over location samples of: %s' % names.replace('_', ', ')
    f.__module__ = __name__
    b = '%s observations of polarity/ratio/probability, 1 source, 2 location samples, any positive weights, mispick: %s, marginalised: %s' % ('/'.join(str(c if on else 0) for c, on in zip(counts, COMBOS[k])), wkind, marg)
    globals()[f.__name__] = harness(bounds=b, **kw)(f)


for _k in range(7):
    _both = COMBOS[_k][0] and COMBOS[_k][2]
    _location(_k, (1, 1, 1))
    _location(_k, (2, 1, 2) if not _both else (2, 1, 1), suffix='_b', wkind='one')
    _location(_k, (1, 1, 1), suffix='_separate', marg=False)


# -- invariances ---------------------------------------------------------------------

@harness(bounds='2 polarities, 2 ratios, 2 probabilities; any of the 2^3 station orders')
def station_order(t, w, np):
    """the value does not depend on the order of the stations"""
    I = inv(w)
    k = t.choose('types', 3)
    n = [(2, 1, 0), (0, 2, 1), (1, 0, 2)][k]
    D = Data(t, np, *n)
    ms, M = sources(t, np, 1)
    D.representable(ms)
    a = flat(np, run(I, np, D.args(), M)[1])[0]
    o = [list(range(c))[::-1] for c in n]
    b = flat(np, run(I, np, D.args(*o), M)[1])[0]
    t.claim_eq(t.exp(a), t.exp(b), 'same value')


@harness(bounds='2 polarities with their own mispick probabilities, 2 location samples, any weights')
def station_order_mispick(t, w, np):
    """mispick probabilities and coefficients move with their station; location samples may be listed in any order"""
    I = inv(w)
    D = Data(t, np, 2, 0, 0, nv=2, wkind='array')
    ms, M = sources(t, np, 1)
    ws = [weight(t, 'wt0'), weight(t, 'wt1')]
    D.representable(ms)
    a = flat(np, run(I, np, D.args(), M, mult=ws, inc=D.incorrect())[1])[0]
    b = flat(np, run(I, np, D.args(opol=[1, 0]), M, mult=list(ws), inc=D.incorrect(opol=[1, 0]))[1])[0]
    c = flat(np, run(I, np, D.args(ov=[1, 0]), M, mult=ws[::-1], inc=D.incorrect())[1])[0]
    t.claim_eq(t.exp(a), t.exp(b), 'station order')
    t.claim_eq(t.exp(a), t.exp(c), 'location sample order')


@harness(bounds='1 observation of two of the types, 2 distinct location samples, the second listed twice or weighted twice')
def location_duplicate(t, w, np):
    """listing a location sample twice is the same as doubling its weight"""
    I = inv(w)
    n = [(1, 1, 0), (0, 1, 1), (1, 0, 1)][t.choose('types', 3)]
    D = Data(t, np, *n, nv=2, fixed=True)
    ms, M = sources(t, np, 1, fixed=True, signs=True)
    ws = [weight(t, 'wt0'), weight(t, 'wt1')]
    D.representable(ms)
    a = flat(np, run(I, np, D.args(ov=[0, 1, 1]), M, mult=[ws[0], ws[1], ws[1]])[1])[0]
    b = flat(np, run(I, np, D.args(), M, mult=[ws[0], 2 * ws[1]])[1])[0]
    t.claim_eq(t.exp(a), t.exp(b), 'same value')
    a = flat(np, run(I, np, D.args(ov=[0, 1, 1]), M)[1])[0]
    b = flat(np, run(I, np, D.args(), M, mult=[1.0, 2.0])[1])[0]
    t.claim_eq(t.exp(a), t.exp(b), 'same value, unweighted')


@harness(bounds='2 candidates in either order or on their own; certain pick probabilities so that candidates can be impossible; with and without filtering')
def batch_and_filter(t, w, np):
    """a candidate's value does not depend on the rest of its batch or on the removal of impossible candidates"""
    I = inv(w)
    D = Data(t, np, 1, 0, 1)
    D.p, D.q = [1.0], [0.0]
    ms, M = sources(t, np, 2)
    D.representable([m for m in ms if m[2] > 0])
    want = [D.like(0, m) for m in ms]
    r, v = run(I, np, D.args(), M, return_zero=True)
    v = flat(np, v)
    t.claim_true(len(v) == 2, 'unfiltered: every candidate kept')
    t.claim_eq(r['n'], 2, 'every candidate counted')
    for j in range(2):
        t.claim_not_nan(v[j], 'not NaN')
        t.claim_eq(t.exp(v[j]), want[j], 'value in the batch')
    alone = [flat(np, run(I, np, D.args(), np.array([[x] for x in ms[j]]), return_zero=True)[1])[0] for j in range(2)]
    for j in range(2):
        t.claim_eq(alone[j], v[j], 'value alone')
    swapped = flat(np, run(I, np, D.args(), np.array([[ms[1][i], ms[0][i]] for i in range(6)]), return_zero=True)[1])
    for j in range(2):
        t.claim_eq(swapped[1 - j], v[j], 'value in the other order')
    r, f = run(I, np, D.args(), M, return_zero=False)
    f = flat(np, f)
    kept = [j for j in range(2) if not (ms[j][2] < 0)]
    t.claim_eq(r['n'], 2, 'every candidate counted, filtered')
    t.claim_true(len(f) == len(kept), 'exactly the impossible candidates are removed')
    mt = np.asarray(r['moment_tensors'])
    for c, j in enumerate(kept):
        t.claim_eq(f[c], v[j], 'filtered value')
        for i in range(6):
            t.claim_eq(mt[i, c], ms[j][i], 'filtered source')


@harness(bounds='2 location samples, certain picks: a source impossible at one or both location samples')
def location_impossible(t, w, np):
    """a source impossible at one location sample keeps the other sample's share; impossible at both it has probability zero"""
    I = inv(w)
    D = Data(t, np, 0, 0, 1, nv=2)
    D.p, D.q = [1.0], [0.0]
    ms, M = sources(t, np, 1)
    ws = [weight(t, 'wt0'), weight(t, 'wt1')]
    want = ws[0] * D.like(0, ms[0]) + ws[1] * D.like(1, ms[0])
    r, v = run(I, np, D.args(), M, mult=ws, return_zero=True)
    v = flat(np, v)
    t.claim_true(len(v) == 1, 'kept')
    t.claim_not_nan(v[0], 'not NaN')
    t.claim_eq(t.exp(v[0]), want, 'weighted sum')


@harness(modes=('c',), bounds='1 generated source from any positive normal draws (accepted at the first of the four pre-drawn tries), one observation of one or two types')
def generated(t, w, np):
    """candidates generated inside the compiled likelihood carry their own value"""
    I = inv(w)
    t.draw_domains['randn'] = dict(lo=0, lo_open=True)
    k = t.choose('types', 5)
    n = [(1, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)][k]
    D = Data(t, np, *n)
    D.c = [[(1.0, 1.5)]] if n[1] else []
    r, v = run(I, np, D.args(), False, return_zero=True, generate_samples=1, dc=False)
    v = flat(np, v)
    m = np.asarray(r['moment_tensors'])
    t.claim_true(m.shape == (6, 1) and len(v) == 1, 'one candidate')
    ms = [m[i, 0] for i in range(6)]
    D.representable([ms])
    t.claim_eq(t.exp(v[0]), D.like(0, ms), 'its own value')


@harness(modes=('c',), bounds='1 generated source, up to 2 rejected tries before it, pick certain; any positive normal draws')
def generated_rejected(t, w, np):
    """impossible generated candidates are dropped and the kept one carries its own value"""
    I = inv(w)
    t.draw_domains['randn'] = dict(lo=0, lo_open=True)
    if t.symbolic:
        t.draw_limit['randn'] = 24
    D = Data(t, np, 1, 0, 1)
    D.p, D.q = [1.0], [0.0]
    D.b = [[[1.0, -1.0, 0.0, 0.0, 0.0, 0.0]]]
    r, v = run(I, np, D.args(), False, return_zero=True, generate_samples=1, dc=False)
    v = flat(np, v)
    m = np.asarray(r['moment_tensors'])
    t.claim_true(m.shape == (6, 1) and len(v) == 1, 'one candidate')
    ms = [m[i, 0] for i in range(6)]
    t.claim_le(ms[1], ms[0], 'a possible source')
    D.representable([ms])
    t.claim_eq(t.exp(v[0]), D.like(0, ms), 'its own value')
    t.claim_true(r['n'] >= 1, 'tried candidates counted')


# -- from the data dictionary ----------------------------------------------------------

AZ = (30.0, 120.0, 0.0)
TOA = (45.0, 60.0, 90.0)


def stations(np, names, az, toa):
    return {'Name': list(names), 'Azimuth': np.matrix([[x] for x in az]), 'TakeOffAngle': np.matrix([[x] for x in toa])}


def need(o, name):
    from symx.core import Unsupported
    if not hasattr(o, name):
        raise Unsupported('%s is gone' % name)
    return getattr(o, name)


@harness(bounds='an event with P and SH polarities, a P/SH ratio and a P polarity probability (1 station each, fixed angles); every choice of selected data types; any uncertainties, pick probabilities and (without the ratio) any source', abs_fork=True, weight=3)
def selected_types(t, w, np):
    """only the selected data types contribute, each adding exactly its own log-likelihood"""
    I = inv(w)
    sel = t.choose('selection', 6)
    names = ['PPolarity', 'SHPolarity', 'P/SHAmplitudeRatio', 'PPolarityProbability']
    opts = [names[:1], names[1:2], [names[0], names[2]], names[3:], [names[2]], False][sel]
    use = names if opts is False else opts
    s = [pos(t, 's%d' % i) for i in range(2)]
    sg = [1, -1][t.choose('sign', 2)]
    ratio = names[2] in use
    num, den = 1.5, 2.0
    p, q = t.real('p', lo=0, hi=1, lo_open=True, hi_open=True), t.real('q', lo=0, hi=1, lo_open=True, hi_open=True)
    data = {'UID': 'E1',
            'PPolarity': {'Stations': stations(np, 'A', AZ[:1], TOA[:1]), 'Measured': np.matrix([[sg]]), 'Error': np.matrix([[s[0]]])},
            'SHPolarity': {'Stations': stations(np, 'B', AZ[1:2], TOA[1:2]), 'Measured': np.matrix([[-sg]]), 'Error': np.matrix([[s[1]]])},
            'P/SHAmplitudeRatio': {'Stations': stations(np, 'C', AZ[2:], TOA[2:]), 'Measured': np.matrix([[num, den]]), 'Error': np.matrix([[num / 2, den / 4]])},
            'PPolarityProbability': {'Stations': stations(np, 'C', AZ[2:], TOA[2:]), 'Measured': np.matrix([[p, q]]), 'Error': np.matrix([[0.1]])}}
    o = I.Inversion(data, parallel=False, inversion_options=opts, path='.', quiet=True) if opts else I.Inversion(data, parallel=False, path='.')
    e = need(o, '_trim_data')(data)
    r = need(o, '_station_angles')(e, 0)
    ms = [0.75, -0.5, 0.25, 0.5 * t.sqrt(2), -0.25, 0.5] if ratio else [t.real('m%d' % i) for i in range(6)]
    A = lambda ph, i: dot6(coef(t, ph, rad(t, AZ[i]), rad(t, TOA[i])), ms)
    want = t.lift(1.0)
    if names[0] in use:
        want = want * pol(t, sg * A('p', 0), s[0], 0.0)
    if names[1] in use:
        want = want * pol(t, -sg * A('sh', 1), s[1], 0.0)
    if names[2] in use:
        x, y = A('p', 2), A('sh', 2)
        want = want * dens(t, num / den, x, y, 0.5, 0.25)
    if names[3] in use:
        want = want * pp(A('p', 2), p, q, 0.0)
    if not t.symbolic:
        t.assume(want > 1e-250)
    v = flat(np, run(I, np, r[:9], np.array([[m] for m in ms]), inc=r[9], return_zero=True)[1])
    t.claim_true(len(v) == 1, 'one value')
    t.claim_eq(t.exp(v[0]), want, 'product over the selected observations')


@harness(bounds='1 polarity and 1 polarity probability with different mispick probabilities', finding='mispick-two-types')
def finding_mispick_two_types(t, w, np):
    """each data type uses its own mispick probabilities"""
    I = inv(w)
    x, y = t.real('wa', lo=0.05, hi=0.4), t.real('wb', lo=0.05, hi=0.4)
    data = {'UID': 'E1',
            'PPolarity': {'Stations': stations(np, 'A', AZ[2:], TOA[2:]), 'Measured': np.matrix([[1]]), 'Error': np.matrix([[1.0]]), 'IncorrectPolarityProbability': np.matrix([[x]])},
            'PPolarityProbability': {'Stations': stations(np, 'A', AZ[2:], TOA[2:]), 'Measured': np.matrix([[0.75, 0.25]]), 'Error': np.matrix([[0.1]]),
                                     'IncorrectPolarityProbability': np.matrix([[y]])}}
    r = need(I.Inversion(data, parallel=False, path='.'), '_station_angles')(data, 0)
    m = [1.0, 0.0, 0.0, 0.0, 0.0, 0.0]
    v = flat(np, run(I, np, r[:9], np.array([[c] for c in m]), inc=r[9], return_zero=True)[1])
    t.claim_eq(t.exp(v[0]), pol(t, 1.0, 1.0, x) * pp(1.0, 0.75, 0.25, y), 'own mispick probability')
