"""C15: joint log-probability of several events = sum of the events' own log-probabilities + one relative-amplitude term per pair"""
import itertools
from symx.harness import harness
from .common import prob, flat, dot6, all_of, INF
from .c03 import dens, pos
from .c11 import inv
from .c01 import Data, run, need

ASSUMPTIONS = ["an event's own log-probability is what ForwardTask reports for it alone (decided in C01)",
               'the likelihood of |X/Y| is the density decided in C03 with the first event scaled by the estimated factor',
               'sizes: 2-3 events (4 thorough), 1-2 candidates, up to 3 relative stations per event']
PRELOAD = ['MTfit.inversion']
OUTSIDE = ('uncombined mode (relative_loop), relative amplitudes with more than one location sample, data-type extensions, '
           'a likelihood that underflows')


def task(I, mts, data, rel=None, minimum=2, mult=False, inc=0, **k):
    """the joint task for Data objects of several events; rel: per event (stations, coefficients, amplitudes, errors)"""
    c = list(zip(*[d.args() for d in data])) if data else [()] * 9
    rel = rel or [([], False, False, False)] * len(mts)
    return I.MultipleEventsForwardTask(list(mts), list(c[0]), list(c[1]), list(c[2]), list(c[3]), list(c[4]), list(c[5]), list(c[6]), list(c[7]), list(c[8]),
                                       [r[1] for r in rel], [r[2] for r in rel], [r[3] for r in rel], [list(r[0]) for r in rel],
                                       location_sample_multipliers=mult, incorrect_polarity_prob=inc, minimum_number_intersections=minimum, **k)


def values(np, r):
    v = r['ln_pdf']
    return np.asarray(getattr(v, '_ln_pdf', v))


def source(t, np, name, n=1, signs=True):
    """n candidates of one event: positive first two components (amplitudes), third of either sign"""
    ms = [[pos(t, '%s_%d_%d' % (name, i, j)) if i != 2 else t.real('%s_2_%d' % (name, j), nonzero=True) for i in range(6)] for j in range(n)]
    return ms, np.array([[ms[j][i] for j in range(n)] for i in range(6)])


class Rel(object):
    """relative amplitudes of one event at named stations"""

    def __init__(self, t, np, e, names, fixed=True):
        self.np, self.names = np, list(names)
        k = lambda u: 'ABCD'.index(u)
        if fixed:
            self.c = dict((u, [1.0 + 0.25 * k(u) + 0.5 * e, 0.5 + 0.125 * k(u) * (e + 1)]) for u in names)
            self.x = dict((u, 1.0 + 0.5 * e + 0.25 * k(u)) for u in names)
            self.e = dict((u, 0.25 + 0.0625 * (e + k(u))) for u in names)
        else:
            self.c = dict((u, [pos(t, 'c%d%s' % (e, u)), 0.0]) for u in names)
            self.x = dict((u, pos(t, 'x%d%s' % (e, u))) for u in names)
            self.e = dict((u, pos(t, 'e%d%s' % (e, u))) for u in names)

    def arrays(self, order=None):
        np, o = self.np, list(self.names if order is None else order)
        if not o:
            return (o, np.zeros((0, 1, 6)), np.zeros((0,)), np.zeros((0,)))
        return (o, np.array([[self.c[u] + [0.0] * 4] for u in o]), np.array([self.x[u] for u in o]), np.array([self.e[u] for u in o]))


def pair_term(P, np, ri, rj, Mi, Mj, minimum):
    """the likelihood term of a pair on the shared stations, matched by name (event i's order), or None"""
    common = [u for u in ri.names if u in rj.names]
    if len(common) < minimum or not common:
        return None
    a, b = ri.arrays(common), rj.arrays(common)
    return P.relative_amplitude_ratio_ln_pdf(a[2], b[2], Mi, Mj, a[1], b[1], a[3], b[3])


COUNTS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]


def own(I, np, d, M):
    return flat(np, run(I, np, d.args(), M, return_zero=True)[1])


class Sub(object):
    """prefixes the input names of one event"""

    def __init__(self, t, e):
        self.t, self.e = t, e

    def __getattr__(self, k):
        return getattr(self.t, k)

    def real(self, name, *a, **k):
        return self.t.real('%s@%d' % (name, self.e), *a, **k)


def independent(t, w, np, ne, nc):
    I = inv(w)
    need(I, 'MultipleEventsForwardTask')
    first = t.choose('types', 7)
    D, ms, Ms = [], [], []
    for e in range(ne):
        D.append(Data(Sub(t, e), np, *COUNTS[(first + 3 * e) % 7]))
        m, M = source(t, np, 'm%d' % e, nc)
        ms.append(m)
        Ms.append(M)
        D[e].representable(m)
    rz = bool(t.choose('return_zero', 2))
    want = [own(I, np, D[e], Ms[e]) for e in range(ne)]
    r = task(I, [np.array(M) for M in Ms], D, return_zero=rz)()
    v = flat(np, values(np, r))
    t.claim_eq(r['n'], nc, 'every candidate counted')
    t.claim_true(len(v) == nc, 'one value per tuple')
    for j in range(nc):
        t.claim_not_nan(v[j], 'not NaN')
        s = want[0][j]
        for e in range(1, ne):
            s = s + want[e][j]
        t.claim_eq(v[j], s, "sum of the events' own values")
        for e in range(ne):
            for i in range(6):
                t.claim_eq(np.asarray(r['moment_tensors'][e])[i, j], ms[e][j][i], 'its sources')


@harness(bounds='2 events, each with one of the 7 combinations of the three data types, 1 tuple')
def independent_two(t, w, np):
    """without relative data the joint value is the sum of the two events' own values"""
    independent(t, w, np, 2, 1)


@harness(bounds='3 events, each with one of the 7 combinations of the three data types, 1 tuple')
def independent_three(t, w, np):
    """the same for three events"""
    independent(t, w, np, 3, 1)


@harness(bounds='2 events, 2 tuples')
def independent_tuples(t, w, np):
    """values stay with their tuple"""
    independent(t, w, np, 2, 2)


@harness(tier='thorough', bounds='4 events, 1 tuple')
def independent_four(t, w, np):
    """the same for four events"""
    independent(t, w, np, 4, 1)


def picks(t, np, e, nv=1):
    """one certain pick: the candidate is possible iff its third component is positive (at every location sample)"""
    D = Data(Sub(t, e), np, 0, 0, 1, nv=nv)
    D.p, D.q = [1.0], [0.0]
    D.b = [[[0.0, 0.0, 1.0 if (v == 0 or e == 0) else -1.0, 0.0, 0.0, 0.0] for v in range(nv)]]
    return D


def filtered(t, w, np, ne, nc):
    """impossible tuples"""
    I = inv(w)
    D = [picks(t, np, e) for e in range(ne)]
    ms, Ms = zip(*[source(t, np, 'm%d' % e, nc) for e in range(ne)])
    rz = bool(t.choose('return_zero', 2))
    r = task(I, [np.array(M) for M in Ms], D, return_zero=rz)()
    v = flat(np, values(np, r))
    ok = [all([bool(ms[e][j][2] > 0) for e in range(ne)]) for j in range(nc)]
    kept = [j for j in range(nc) if rz or ok[j]]
    t.claim_eq(r['n'], nc, 'every candidate counted')
    t.claim_true(len(v) == len(kept), 'only impossible tuples are dropped')
    for c, j in enumerate(kept):
        if ok[j]:
            t.claim_eq(v[c], 0.0, 'possible tuple')
        else:
            t.claim_true(bool(v[c] == -INF), 'impossible tuple')
        for e in range(ne):
            t.claim_eq_arr(np.asarray(r['moment_tensors'][e])[:, c], np.array(ms[e][j]), 'its sources')


@harness(bounds='2 events, 2 tuples, certain picks: every pattern of impossible sources, filtered or not')
def filter_two(t, w, np):
    """tuples are dropped exactly when one of their sources is impossible"""
    filtered(t, w, np, 2, 2)


@harness(bounds='3 events, 2 tuples, certain picks', max_paths=400)
def filter_three(t, w, np):
    """the same for three events"""
    filtered(t, w, np, 3, 2)


@harness(bounds='2 events, 2 location samples with any positive weights, no relative data, marginalised per event, 1 tuple')
def locations(t, w, np):
    """with per-event marginalisation the joint value is the sum of the events' weighted sums over location samples"""
    I = inv(w)
    k = t.choose('types', 3)
    D = [Data(Sub(t, e), np, *[(1, 0, 0), (0, 0, 1), (1, 0, 0)][(k + e) % 3], nv=2) for e in range(2)]
    ws = [t.real('w%d' % i, lo=0, lo_open=True, special=(1, 0.5, 2)) for i in range(2)]
    ms, Ms = zip(*[source(t, np, 'm%d' % e) for e in range(2)])
    for e in range(2):
        D[e].representable(ms[e])
    want = [flat(np, run(I, np, D[e].args(), Ms[e], mult=list(ws), return_zero=True)[1])[0] for e in range(2)]
    r = task(I, [np.array(M) for M in Ms], D, mult=list(ws), return_zero=bool(t.choose('return_zero', 2)), location_sample_size=2, marginalise_relative=True)()
    v = flat(np, values(np, r))
    t.claim_true(len(v) == 1, 'one value')
    t.claim_eq(v[0], want[0] + want[1], "sum of the events' own values")


@harness(bounds='2 co-located events, 2 equally weighted location samples, certain picks that are impossible at one location sample, 2 tuples')
def location_filter(t, w, np):
    """a tuple possible at one of the shared location samples is not dropped"""
    I = inv(w)
    D = [picks(t, np, e, nv=2) for e in range(2)]
    D[1].b = [[[0.0, 0.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0, 0.0, -1.0]]]
    D[0].b = [[[0.0, 0.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0, 1.0, 0.0]]]
    ms, Ms = zip(*[source(t, np, 'm%d' % e, 2) for e in range(2)])
    r = task(I, [np.array(M) for M in Ms], D, return_zero=False, location_sample_size=2)()
    v = flat(np, values(np, r))
    kept = [j for j in range(2) if bool(ms[0][j][2] > 0) and bool(ms[1][j][2] > 0)]
    t.claim_true(len(v) == len(kept), 'only impossible tuples are dropped')
    for c, j in enumerate(kept):
        t.claim_eq(v[c], 0.0, 'possible at one location sample')
        for e in range(2):
            t.claim_eq_arr(np.asarray(r['moment_tensors'][e])[:, c], np.array(ms[e][j]), 'its sources')


# -- relative amplitudes ----------------------------------------------------------------

OVERLAPS = [('AB', 'AB'), ('AB', 'BA'), ('ABC', 'CAB'), ('AB', 'CD'), ('ABC', 'BCD'), ('CBA', 'BDC'), ('A', 'CBA'), ('BC', 'ACB'), ('', 'AB')]


def tuples(t, np, ne, nc):
    """one positive symbolic component; component 5 labels the tuple, component 4 the event"""
    ms = [[[pos(t, 'm%d_%d' % (e, j)), 0.5, 1.0, 0.25, 1.0 + e, 0.125 * (1 + j)] for j in range(nc)] for e in range(ne)]
    return ms, [np.array([[m[j][i] for j in range(nc)] for i in range(6)]) for m in ms]


class Terms(object):
    """stands for the relative term: checks what it is called with and returns a symbolic value for each pair and tuple (or impossible)"""

    def __init__(self, t, np, I, R, ms, dead=()):
        need(I, 'relative_amplitude_ratio_ln_pdf')
        self.t, self.np, self.R, self.ms, self.dead, self.bad, self.seen, self.vals = t, np, R, ms, dead, [], [], {}
        I.relative_amplitude_ratio_ln_pdf = self

    def value(self, i, j, k):
        if (i, j, k) not in self.vals:
            t = self.t
            n = '%d%d_%d' % (i, j, k)
            self.vals[i, j, k] = (-INF if (i, j, k) in self.dead else t.real('L' + n, lo=-20, hi=20, special=(-1.0,)), pos(t, 'S' + n), pos(t, 'U' + n))
        return self.vals[i, j, k]

    def __call__(self, x1, x2, m1, m2, a1, a2, e1, e2, *rest, **k):
        np = self.np
        m1, m2 = np.asarray(m1), np.asarray(m2)
        F = lambda x: float(x)
        i, j = int(F(m1[4, 0]) - 1), int(F(m2[4, 0]) - 1)
        ks = [int(round(F(m1[5, c]) * 8)) - 1 for c in range(m1.shape[1])]
        self.seen.append((i, j))
        if m2.shape[1] != len(ks) or [int(round(F(m2[5, c]) * 8)) - 1 for c in range(m2.shape[1])] != ks:
            self.bad.append('sources of different tuples are paired: %s' % (ks,))
            ks = ks[:m2.shape[1]]
        for e, m in ((i, m1), (j, m2)):
            for c, q in enumerate(ks):
                if m[0, c] is not self.ms[e][q][0]:
                    self.same(m[0, c], self.ms[e][q][0], 'source')
        ri, rj = self.R[i], self.R[j]
        common = [u for u in ri.names if u in rj.names]
        got = []
        for u in range(len(x1)):
            row = (F(x1[u]), F(x2[u]), F(a1[u, 0, 0]), F(a1[u, 0, 1]), F(a2[u, 0, 0]), F(a2[u, 0, 1]), F(e1[u]), F(e2[u]))
            got.append(row)
        want = [(ri.x[u], rj.x[u], ri.c[u][0], ri.c[u][1], rj.c[u][0], rj.c[u][1], ri.e[u], rj.e[u]) for u in common]
        if sorted(got) != sorted(want):
            self.bad.append('stations of pair %d-%d are not the shared ones, matched by name' % (i, j))
        v = [self.value(i, j, q) for q in ks]
        return tuple(np.array([[x[n] for x in v]]) for n in range(3))

    def same(self, a, b, what):
        self.t.claim_eq(a, b, what)


def relative(t, w, np, patterns, nc, relative=True, dead=()):
    I = inv(w)
    ne = len(patterns)
    minimum = 1 + t.choose('minimum', 3)
    rz = bool(t.choose('return_zero', 2))
    ms, Ms = tuples(t, np, ne, nc)
    R = [Rel(t, np, e, patterns[e]) for e in range(ne)]
    D = [Data(Sub(t, e), np, *[(0, 0, 1), (1, 0, 0), (0, 0, 1), (1, 0, 0)][e]) for e in range(ne)]
    for d in D:
        d.b = [[[1.0] + [0.0] * 5]] if d.b else d.b
        d.a = [[[1.0] + [0.0] * 5]] if d.a else d.a
    ownv = [own(I, np, D[e], Ms[e]) for e in range(ne)]
    pairs = [(i, j) for i in range(ne) for j in range(i) if len(set(patterns[i]) & set(patterns[j])) >= max(1, minimum)] if relative else []
    orig = I.relative_amplitude_ratio_ln_pdf
    try:
        T = Terms(t, np, I, R, ms, dead)
        r = task(I, [np.array(M) for M in Ms], D, [x.arrays() for x in R], minimum, return_zero=rz, relative=relative)()
    finally:
        I.relative_amplitude_ratio_ln_pdf = orig
    t.claim_true(not T.bad, '; '.join(T.bad) or 'the terms get the shared stations and the right sources')
    v = flat(np, values(np, r))
    gone = [any(T.value(i, j, k)[0] is -INF or (i, j, k) in dead for i, j in pairs) for k in range(nc)]
    kept = [k for k in range(nc) if rz or not gone[k]]
    t.claim_eq(r['n'], nc, 'every candidate counted')
    t.claim_true(len(v) == len(kept), 'only impossible tuples are dropped')
    for c, k in enumerate(kept):
        t.claim_not_nan(v[c], 'not NaN')
        if gone[k]:
            t.claim_true(bool(v[c] == -INF), 'impossible tuple')
            continue
        s = ownv[0][k]
        for e in range(1, ne):
            s = s + ownv[e][k]
        for i, j in pairs:
            s = s + T.value(i, j, k)[0]
        t.claim_eq(v[c], s, "events' own values plus the pair terms")
        for e in range(ne):
            t.claim_eq_arr(np.asarray(r['moment_tensors'][e])[:, c], np.array(ms[e][k]), 'its sources')
        if pairs and not rz or (pairs and not any(gone)):
            sf = r['scale_factor'][c]
            for a, b in pairs:
                t.claim_eq(sf['mu'][a, b], T.value(a, b, k)[1], 'scale factor of the pair')
                t.claim_eq(sf['sigma'][a, b], T.value(a, b, k)[2], 'its uncertainty')


@harness(bounds='2 events, 2 tuples; 9 station-name overlaps (none, partial, full, different orders), minimum 1..3, filtered or not; the pair term any value')
def pair(t, w, np):
    """two events: own values plus one term on the shared stations, matched by name, if there are at least the minimum"""
    relative(t, w, np, OVERLAPS[t.choose('overlap', len(OVERLAPS))], 2)


@harness(bounds='as pair, relative data supplied but relative inversion off')
def pair_off(t, w, np):
    """with relative amplitudes off the events are independent"""
    relative(t, w, np, OVERLAPS[t.choose('overlap', 3)], 2, relative=False)


@harness(bounds='2 events, 3 tuples, one of them impossible in the pair term')
def pair_zero(t, w, np):
    """a tuple whose relative term is impossible is dropped and the others keep their values and sources"""
    relative(t, w, np, ('AB', 'BA'), 3, dead=((1, 0, t.choose('tuple', 3)),))


TRIPLES = [('AB', 'BA', 'AB'), ('ABC', 'CB', 'BCA'), ('AB', 'CD', 'ABCD'), ('ABC', 'ABC', '')]


@harness(bounds='3 events, 1 tuple; 4 station-name overlap patterns, minimum 1..3, filtered or not; the pair terms any values')
def three(t, w, np):
    """three events: one term for each of the three pairs with enough shared stations"""
    relative(t, w, np, TRIPLES[t.choose('overlap', len(TRIPLES))], 1)


@harness(bounds='3 events, 2 tuples, one of them impossible in one of the three pair terms')
def three_zero(t, w, np):
    """three events: dropping an impossible tuple inside the pair loop keeps the later pair terms"""
    i, j = [(1, 0), (2, 0), (2, 1)][t.choose('pair', 3)]
    relative(t, w, np, TRIPLES[t.choose('overlap', 2)], 2, dead=((i, j, t.choose('tuple', 2)),))


@harness(tier='thorough', bounds='4 events, 2 tuples, any of 3 overlap patterns', time_s=500)
def four(t, w, np):
    """four events: six pair terms"""
    pat = [('AB', 'BA', 'AB', 'BA'), ('AB', 'BC', 'CD', 'ABCD'), ('ABC', 'CB', 'BCA', 'AB')][t.choose('overlap', 3)]
    relative(t, w, np, pat, 2)


@harness(bounds='2 events, task reused with a second set of candidates after possible or impossible ones, relative data on or off')
def reuse(t, w, np):
    """a reused joint task gives the new tuple its own value"""
    I = inv(w)
    need(I, 'relative_amplitude_ratio_ln_pdf')
    rel = bool(t.choose('relative', 2))
    ms, Ms = tuples(t, np, 2, 2)
    for e in range(2):
        ms[e][0][2] = (1.0, -1.0)[t.choose('impossible%d' % e, 2)]
    Ms = [np.array([[m[j][i] for j in range(2)] for i in range(6)]) for m in ms]
    R = [Rel(t, np, e, ('AB', 'BA')[e]) for e in range(2)]
    D = [Data(Sub(t, e), np, *[(1, 0, 1), (0, 0, 1)][e]) for e in range(2)]
    for d in D:
        d.p, d.q = [1.0], [0.0]
        d.b = [[[0.0, 0.0, 1.0, 0.0, 0.0, 0.0]]]
        d.a = [[[1.0] + [0.0] * 5]] if d.a else d.a
    cols = [[np.array(M[:, j:j + 1]) for M in Ms] for j in range(2)]
    ownv = [own(I, np, D[0], cols[j][0])[0] + own(I, np, D[1], cols[j][1])[0] for j in range(2)]
    orig = I.relative_amplitude_ratio_ln_pdf
    try:
        X = Terms(t, np, I, R, ms)
        T = task(I, [np.array(M) for M in cols[0]], D, [x.arrays() for x in R], 2, return_zero=True, reuse=True, relative=rel)
        got = []
        for j in range(2):
            T.mts = [np.array(M) for M in cols[j]]
            got.append(flat(np, values(np, T())))
    finally:
        I.relative_amplitude_ratio_ln_pdf = orig
    t.claim_true(not X.bad, '; '.join(X.bad) or 'the terms get the shared stations and the right sources')
    for j in range(2):
        t.claim_true(len(got[j]) == 1, 'one value')
        t.claim_not_nan(got[j][0], 'not NaN')
        if any(ms[e][j][2] < 0 for e in range(2)):
            t.claim_true(bool(got[j][0] == -INF), 'impossible tuple')
        else:
            t.claim_eq(got[j][0], ownv[j] + (X.value(1, 0, j)[0] if rel else 0), 'value of this tuple')


# -- the relative term and its scale factor -----------------------------------------------

def call(P, np, st, m1, m2):
    """relative_amplitude_ratio_ln_pdf for stations (x1, x2, c1, c2, e1, e2), first components of the sources"""
    z = [0.0] * 5
    return P.relative_amplitude_ratio_ln_pdf(np.array([s[0] for s in st]), np.array([s[1] for s in st]), np.array([[m1]] + [[0.0]] * 5), np.array([[m2]] + [[0.0]] * 5),
                                             np.array([[[s[2]] + z] for s in st]), np.array([[[s[3]] + z] for s in st]), np.array([s[4] for s in st]), np.array([s[5] for s in st]))


AMPS = (1.0, 0.75, 2.0)
ERRORS = [(0.25, 0.5), (0.5, 0.125), (0.3, 0.3)]


class Estimates(object):
    """replaces the per-station estimate of the scale factor (symbolic runs only): given values per station, keyed by the first amplitude"""

    def __init__(self, t, np, P, vals):
        self.t, self.np, self.P, self.vals = t, np, P, dict(zip(AMPS, vals))
        self.undo = []
        if not t.symbolic:
            return
        if t.mode == 'c':
            C = P.cprobability
            need(C, 'estimate_scale_mu_s')

            def est(pm, ps, x, y, mx, my, ex, ey):
                pm[0], ps[0] = self.vals[float(x)]
            self.patch(C, 'estimate_scale_mu_s', est)
        else:
            need(P, 'scale_estimator')
            need(P, 'combine_mu')
            comb = P.combine_mu

            def sc(ratio, mx, my, ex, ey):
                return comb(self.np.array([[[self.vals[a][0]]] for a in self.order]), self.np.array([[[self.vals[a][1]]] for a in self.order]))
            self.patch(P, 'scale_estimator', sc)

    def patch(self, m, k, v):
        self.undo.append((m, k, getattr(m, k)))
        setattr(m, k, v)

    def call(self, st, m1, m2):
        self.order = [x[0] for x in st]
        return [flat(self.np, x)[0] for x in call(self.P, self.np, st, m1, m2)]

    def close(self):
        for m, k, v in self.undo:
            setattr(m, k, v)


def orders(n):
    return list(itertools.permutations(range(n)))[1:]


def combination(t, w, np, n):
    P = prob(w)
    st = [(AMPS[k], 0.5 + 0.25 * k, 1.0 + 0.5 * k, 2.0 - 0.5 * k) + ERRORS[k] for k in range(n)]
    if t.symbolic:
        vals = [(pos(t, 'mu%d' % k), pos(t, 's%d' % k)) for k in range(n)]
    else:
        st = [x[:1] + (pos(t, 'mu%d' % k),) + x[2:4] + (t.real('s%d' % k, lo=0.05, hi=0.5),) + x[5:] for k, x in enumerate(st)]
        vals = [tuple([flat(np, y)[0] for y in call(P, np, [x], 1.0, 1.0)][1:]) for x in st]
        for m, s in vals:
            t.assume(s > 1e-6)
    E = Estimates(t, np, P, vals)
    try:
        l, k, sd = E.call(st, 1.0, 1.0)
        num, den = 0, 0
        for m, s in vals:
            num, den = num + m / (s * s), den + 1 / (s * s)
        t.claim_eq(k, num / den, 'inverse-variance-weighted mean of the station estimates', tol=1e-9)
        t.claim_eq(sd * sd, 1 / den, 'combined variance', tol=1e-9)
        t.claim_true(bool(sd > 0), 'positive uncertainty')
        for o in orders(n):
            l2, k2, sd2 = E.call([st[u] for u in o], 1.0, 1.0)
            t.claim_eq(k2, k, 'scale independent of the station order', tol=1e-9)
            t.claim_eq(sd2 * sd2, sd * sd, 'uncertainty independent of the station order', tol=1e-9)
    finally:
        E.close()


@harness(bounds='2 stations with any single-station estimates and uncertainties')
def combine_two(t, w, np):
    """the scale factor of two stations is the inverse-variance-weighted combination, in either order"""
    combination(t, w, np, 2)


@harness(bounds='3 stations with any single-station estimates and uncertainties, every order')
def combine_three(t, w, np):
    """the same for three stations"""
    combination(t, w, np, 3)


def density(t, w, np, n, signs):
    P = prob(w)
    st = []
    for k in range(n):
        c1, c2 = pos(t, 'c1%d' % k), pos(t, 'c2%d' % k)
        if signs:
            c1, c2 = [(c1, c2), (-c1, c2), (c1, -c2), (-c1, -c2)][t.choose('signs%d' % k, 4)] if k == 0 else (c1, -c2)
        st.append((AMPS[k], pos(t, 'x2%d' % k), c1, c2) + (tuple(t.real('e%d%d' % (i, k), lo=0.02, hi=1.0, special=(0.1, 0.5)) for i in (1, 2)) if t.symbolic or k == 0 else ERRORS[k]))
    k0 = pos(t, 'k')
    E = Estimates(t, np, P, [(k0, 1.0)] * n)
    try:
        l, k, sd = E.call(st, 1.0, 1.0)
        if t.symbolic:
            t.claim_eq(k, k0, 'scale of equal estimates')
            k = k0
        L = t.lift(1.0)
        for s in st:
            d = dens(t, s[0] / s[1], k * s[2], s[3], s[4], s[5])
            t.assume(d > (0 if t.symbolic else 1e-100))
            L = L * d
        t.claim_not_nan(l, 'not NaN')
        t.claim_eq(t.exp(l), L, 'product over the stations of the densities at the scaled amplitude')
    finally:
        E.close()


@harness(bounds='1 station, any scale estimate, amplitudes of either sign, errors in [0.02, 1]')
def term_one(t, w, np):
    """one station: the ratio density with the first event's amplitude scaled"""
    density(t, w, np, 1, True)


@harness(bounds='2 stations, any scale estimate, amplitudes of either sign, errors in [0.02, 1]')
def term_two(t, w, np):
    """two stations: the product of the two densities at the common scale"""
    density(t, w, np, 2, True)


@harness(bounds='3 stations, any scale estimate, positive amplitudes, errors in [0.02, 1]', tier='thorough')
def term_three(t, w, np):
    """three stations"""
    density(t, w, np, 3, False)


# -- the single-station estimate ----------------------------------------------------------

FIXED = (1.0, 0.5, 1.0, 2.0)


def estimate(t, s):
    """mean and variance of the scale factor from one station (thesis of Pugh 2015), in closed form"""
    x, y = t.abs(s[2]), t.abs(s[3])
    z = s[0] / s[1]
    sx, sy = s[4] * x, s[5] * y
    v = (sy * sy * z * z + sx * sx) / (x * x)
    m = y * z / x
    A = sy * sy * z / (x * x)
    B = sx * sx * y / (x * x * x)
    C = t.sqrt(2 / t.pi) * sx * sx * sy * t.exp(-y * y / (2 * sy * sy)) / (x * x * x * v)
    N = A * m + B + C
    mu = (A * (v + m * m) + B * m) / N
    var = (A * (3 * v * m + m * m * m) + B * (v + m * m) + C * sx * sx / (x * x)) / N - mu * mu
    return mu, var


def scale_only(t, np, P, st):
    """scale and uncertainty without evaluating the densities"""
    undo = []
    if t.symbolic and t.mode == 'py':
        need(P, 'ratio_pdf')
        undo = [(P, 'ratio_pdf', P.ratio_pdf)]
        P.ratio_pdf = lambda ratio, mx, my, sx, sy, *r: mx * 0.0 + 0.5
    elif t.symbolic:
        C = P.cprobability
        need(C, 'ar_pdf')
        undo = [(C, 'ar_pdf', C.ar_pdf)]
        C.ar_pdf = lambda *a: 1.0
    try:
        return [flat(np, x)[0] for x in call(P, np, st, 1.0, 1.0)][1:]
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


def one(t, w, np, vary):
    s = list(FIXED)
    s[vary] = t.real('c', nonzero=True, special=(0.1, -1.0)) if vary >= 2 else pos(t, 'x')
    s = s + list(ERRORS[t.choose('errors', 3)])
    mu, var = estimate(t, s)
    t.assume(var > 0)
    k, sd = scale_only(t, np, prob(w), [s])
    t.claim_eq(k, mu, 'mean')
    t.claim_eq(sd * sd, var, 'variance')


for _v, _n in enumerate(('amp1', 'amp2', 'coef1', 'coef2')):
    def _h(t, w, np, _v=_v):
        one(t, w, np, _v)
    _h.__name__ = 'station_' + _n
    _h.__doc__ = 'one station (varying %s): published mean and variance of the scale factor' % _n
    _h.__module__ = __name__
    globals()[_h.__name__] = harness(bounds='1 station, %s any value, the rest fixed, 3 pairs of errors' % _n)(_h)


@harness(bounds='1 station, noise-free amplitudes of any true ratio k > 0, any amplitudes, equal errors e in {0.3, 0.1, 0.01, 0.001}: |scale/k - 1| <= e^2, uncertainty^2 <= 4 e^2 (1 + k^2)')
def limit(t, w, np):
    """the scale factor converges to the true amplitude ratio as the errors go to zero"""
    P = prob(w)
    e = (0.3, 0.1, 0.01, 0.001)[t.choose('error', 4)]
    k = pos(t, 'k')
    c2 = (1.0, 2.0)[t.choose('coef', 2)]
    mu, sd = scale_only(t, np, P, [(k / c2, 1.0, 1.0, c2, e, e)])
    t.claim_le(mu, k * (1 + e * e + 1e-9), 'upper')
    t.claim_le(k * (1 - e * e - 1e-9), mu, 'lower')
    t.claim_le(sd * sd, 4 * e * e * (1 + k * k), 'uncertainty vanishes')


@harness(bounds='2 stations, noise-free amplitudes of any true ratio k > 0, equal errors e in {0.3, 0.1, 0.01}')
def limit_two(t, w, np):
    """two noise-free stations give the true ratio in the limit"""
    P = prob(w)
    e = (0.3, 0.1, 0.01)[t.choose('error', 3)]
    k = pos(t, 'k')
    mu, sd = scale_only(t, np, P, [(k / 2.0, 1.0, 1.0, 2.0, e, e), (k * 3.0, 2.0, 1.5, 1.0, e, e)])
    t.claim_le(mu, k * (1 + e * e + 1e-9), 'upper')
    t.claim_le(k * (1 - e * e - 1e-9), mu, 'lower')
