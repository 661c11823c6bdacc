"""C11: station coefficients and observation matrices"""
from symx.harness import harness
from .common import flat

ASSUMPTIONS = ['exact real arithmetic']
PRELOAD = ["MTfit.inversion"]
OUTSIDE = 'rounding; more than three stations per type and three location samples; extension data types'
PHASES = ('p', 'sh', 'sv')


def inv(w):
    return w.load('MTfit.inversion')


def six_of(t, M):
    q = t.sqrt(2)
    return [M[0][0], M[1][1], M[2][2], q * M[0][1], q * M[0][2], q * M[1][2]]


def sym3(t, m):
    q = t.sqrt(2)
    return [[m[0], m[3] / q, m[4] / q], [m[3] / q, m[1], m[5] / q], [m[4] / q, m[5] / q, m[2]]]


def ray(t, phase, az, toa):
    """displacement direction and ray direction, north-east-down"""
    sa, ca, st, ct = t.sin(az), t.cos(az), t.sin(toa), t.cos(toa)
    g = [st * ca, st * sa, ct]
    d = {'p': g, 'sh': [-sa, ca, 0], 'sv': [ct * ca, ct * sa, -st]}[phase]
    return d, g


def radiation_of(t, phase, az, toa, M):
    d, g = ray(t, phase, az, toa)
    s = t.lift(0.0)
    for i in range(3):
        for j in range(3):
            s = s + d[i] * M[i][j] * g[j]
    return s


def coef(t, phase, az, toa):
    """the six coefficients of d.M.g (angles in radians)"""
    d, g = ray(t, phase, az, toa)
    q = t.sqrt(2)
    return [d[0] * g[0], d[1] * g[1], d[2] * g[2], (d[0] * g[1] + d[1] * g[0]) / q, (d[0] * g[2] + d[2] * g[0]) / q,
            (d[1] * g[2] + d[2] * g[1]) / q]


def rad(t, a):
    return a * t.pi / 180


def angle(t, name, hi):
    return t.real(name, lo=0, hi=hi)


def rows(np, A):
    A = np.asarray(A)
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


# -- coefficients -------------------------------------------------------------------

@harness(bounds='every azimuth, take-off angle and six-vector; P, SH, SV; degrees and radians; dictionary and tuple input; any letter case', validate=20)
def radiation(t, w, np):
    """coefficients times six-vector is g.M.g, phi.M.g, theta.M.g"""
    I = inv(w)
    az, toa = t.real('azimuth', lo=-720, hi=720), t.real('takeoff', lo=-720, hi=720)
    p = t.choose('phase', 3)
    form = t.choose('form', 4)
    name = [('P', 'SH', 'SV'), ('p', 'sh', 'sv'), ('PQ', 'SHQ', 'SVq'), ('P', 'Sh', 'sV')][form][p]
    a, b = np.matrix([[az]]), np.matrix([[toa]])
    if form == 0:
        c = I.station_angles({'Azimuth': a, 'TakeOffAngle': b}, name)
    elif form == 1:
        c = I.station_angles({'Azimuth': a, 'TakeOffAngle': b, 'Name': ['S']}, name, radians=True)
    elif form == 2:
        c = I.station_angles((a, b), name, True)
    else:
        c = I.station_angles({'Azimuth': np.array([az]), 'TakeOffAngle': np.array([toa])}, name)
    if form in (0, 3):
        az, toa = rad(t, az), rad(t, toa)
    c = np.asarray(c)
    t.claim_true(c.shape == (1, 6), 'one row of six')
    m = [t.real('m%d' % i) for i in range(6)]
    s = t.lift(0.0)
    for i in range(6):
        s = s + c[0, i] * m[i]
    t.claim_eq(s, radiation_of(t, PHASES[p], az, toa, sym3(t, m)), 'amplitude')


@harness(bounds='three stations in column or row layout, every angle; P, SH, SV and ratios', validate=15)
def station_rows(t, w, np):
    """one row per station in station order, ratios give both phases"""
    I = inv(w)
    az = [angle(t, 'az%d' % i, 360) for i in range(3)]
    toa = [angle(t, 'toa%d' % i, 180) for i in range(3)]
    form = t.choose('layout', 3)
    mk = [lambda v: np.matrix([[x] for x in v]), lambda v: np.matrix([v]), lambda v: np.array(v)][form]
    st = {'Azimuth': mk(az), 'TakeOffAngle': mk(toa), 'Name': ['A', 'B', 'C']}
    k = t.choose('phase', 5)
    if k < 3:
        want = [PHASES[k]]
        got = [I.station_angles(st, PHASES[k])]
    else:
        want = [('p', 'sh'), ('sh', 'sv')][k - 3]
        got = I.station_angles(st, '/'.join(want).upper())
        t.claim_true(len(got) == 2, 'numerator and denominator')
    for ph, c in zip(want, got):
        c = np.asarray(c)
        t.claim_true(c.shape == (3, 6), 'a row per station')
        for i in range(3):
            o = coef(t, ph, rad(t, az[i]), rad(t, toa[i]))
            for j in range(6):
                t.claim_eq(c[i, j], o[j], 'coefficient')


@harness(bounds='every tensor, azimuth, take-off angle and rotation about the vertical', validate=20)
def rotation(t, w, np):
    """amplitudes are unchanged when source and station turn together about the vertical"""
    I = inv(w)
    az, toa = t.real('azimuth', lo=-7, hi=7), t.real('takeoff', lo=-7, hi=7)
    psi = t.real('psi', lo=-7, hi=7)
    m = [t.real('m%d' % i) for i in range(6)]
    M = sym3(t, m)
    c, s = t.cos(psi), t.sin(psi)
    R = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
    Q = [[sum((R[i][a] * M[a][b] * R[j][b] for a in range(3) for b in range(3)), t.lift(0.0)) for j in range(3)] for i in range(3)]
    m2 = six_of(t, Q)
    k = PHASES[t.choose('phase', 3)]
    x = flat(np, I.station_angles((np.matrix([[az]]), np.matrix([[toa]])), k, True))
    y = flat(np, I.station_angles((np.matrix([[az + psi]]), np.matrix([[toa]])), k, True))
    a = b = t.lift(0.0)
    for i in range(6):
        a, b = a + x[i] * m[i], b + y[i] * m2[i]
    t.claim_eq(a, b, 'amplitude')


# -- observation matrices ---------------------------------------------------------------

NAMES = ['S03', 'S01', 'S02']


class Obs(object):
    """stations of one data type with their own angles, values and uncertainties"""

    def __init__(self, t, np, key, stations, cols, sign=False, prob=None, base=None):
        self.key, self.names, self.n = key, list(stations), len(stations)
        base = base or {}
        tag = key.replace('/', '_')
        self.az, self.toa = [], []
        for s in self.names:
            if s not in base:
                base[s] = (angle(t, 'az_' + s, 360), angle(t, 'toa_' + s, 180))
            self.az.append(base[s][0])
            self.toa.append(base[s][1])
        if sign:
            # every station with either sign
            f = 1 - 2 * t.choose('y_' + tag, 2)
            self.meas = [[float(f * (-1) ** i)] for i in range(self.n)]
        else:
            self.meas = [[t.real('m_%s_%d_%d' % (tag, i, j), lo=-10, hi=10, nonzero=True) for j in range(cols)] for i in range(self.n)]
            if not t.symbolic:
                t.assume(all(abs(float(v)) > 1e-3 for r in self.meas for v in r))
        self.err = [[t.real('e_%s_%d_%d' % (tag, i, j), lo=0, hi=1, lo_open=True) for j in range(cols)] for i in range(self.n)]
        self.w = None
        if prob:
            self.w = [t.real('w_%s_%d' % (tag, i), lo=0, hi=1, lo_open=True) for i in range(self.n)]

    def data(self, np):
        c = lambda v: np.matrix([[x] for x in v])
        d = {'Stations': {'Name': list(self.names), 'Azimuth': c(self.az), 'TakeOffAngle': c(self.toa)},
             'Measured': np.matrix(self.meas), 'Error': np.matrix(self.err)}
        if self.w is not None:
            d['IncorrectPolarityProbability'] = c(self.w)
        return d


def samples(t, np, names, n, shuffle):
    """location records: every record lists the stations in an order of its own"""
    recs, ang = [], {}
    for k in range(n):
        o = list(names)
        if shuffle and k == 1:
            o = [list(names), list(names)[::-1], list(names)[1:] + list(names)[:1]][t.choose('order%d' % k, 3)]
        for s in o:
            ang[k, s] = (angle(t, 'laz%d_%s' % (k, s), 360), angle(t, 'ltoa%d_%s' % (k, s), 180))
        recs.append({'Name': o, 'Azimuth': np.matrix([[ang[k, s][0]] for s in o]), 'TakeOffAngle': np.matrix([[ang[k, s][1]] for s in o])})
    return recs, ang


def same(a, b):
    try:
        if a is b:
            return True
        d = a - b
        return bool(d.isconst() and d.iszero()) if hasattr(d, 'isconst') else d == 0
    except Exception:
        return False


def match(t, got, want, name):
    """rows (lists of values) in any order: pair the rows that agree, the rest by position"""
    t.claim_true(len(got) == len(want), name + ': one row per observation')
    left = list(range(len(got)))
    rest = []
    for r in want:
        hit = [g for g in left if len(got[g]) == len(r) and all(same(x, y) for x, y in zip(got[g], r))] if t.symbolic else []
        if hit:
            left.remove(hit[0])
            t.claim_true(True, name)
        else:
            rest.append(r)
    for g, r in zip(left, rest):
        t.claim_true(len(got[g]) == len(r), name + ': row length')
        for x, y in zip(got[g], r):
            t.claim_eq(x, y, name)


def expected(t, obs, phase, ang, nl, row):
    """per station: coefficients for every location record, then the measurement columns"""
    out = []
    for o, ph in zip(obs, phase):
        names = o.names if ang is None else sorted(s for s in o.names if (0, s) in ang)
        for s in names:
            i = o.names.index(s)
            cs = []
            for p in (ph if isinstance(ph, tuple) else (ph,)):
                for k in range(nl):
                    a, b = (o.az[i], o.toa[i]) if ang is None else ang[k, s]
                    cs.append(coef(t, p, rad(t, a), rad(t, b)))
            out.append(row(o, i, cs))
    return out


def gather(np, mats, n, nl):
    """rows of the coefficient arrays (stations, records, 6) side by side"""
    out = []
    for i in range(n):
        r = []
        for A in mats:
            for k in range(nl):
                r.extend([A[i, k, j] for j in range(6)])
        out.append(r)
    return out


def located(t, np, names):
    """no location records, or records with other orders and an additional station"""
    k = t.choose('location', 3)
    if k == 0:
        return False, None, 1
    recs, ang = samples(t, np, ['S02', 'X9'] + [s for s in names if s != 'S02'], k, True) if k > 1 else samples(t, np, ['X9'] + list(names)[::-1], 1, False)
    return recs, ang, k


def vec1(np, v, n):
    v = flat(np, v)
    return v * n if len(v) == 1 and n != 1 else v


@harness(bounds='one or two polarity types of 2-3 and 1-2 stations (P+SH, P+SV), symbolic signs/errors/angles, mispick probabilities on neither, either or both; no location records, one, or two in differing station orders', validate=30)
def polarities(t, w, np):
    """polarity rows: coefficients times the polarity sign with their own error and mispick probability"""
    I = inv(w)
    k = t.choose('types', 3)
    prob = t.choose('prob', 4 if k else 2)
    base = {}
    obs = [Obs(t, np, 'PPolarity', NAMES[:2 if k else 3], 1, sign=True, prob=prob & 1, base=base)]
    ph = ['p']
    if k:
        key, p = (('SHPolarity', 'sh'), ('SVPolarity', 'sv'))[k - 1]
        obs.append(Obs(t, np, key, ['S02', 'S03'][:k], 1, sign=True, prob=prob & 2, base=base))
        ph.append(p)
    data = dict((o.key, o.data(np)) for o in obs[::-1])
    recs, ang, nl = located(t, np, NAMES)
    a, e, q = I.polarity_matrix(data, recs)
    a = np.asarray(a)

    def row(o, i, cs):
        r = [v * o.meas[i][0] for c in cs for v in c] + [o.err[i][0]]
        return r + [o.w[i] if o.w is not None else t.lift(0.0)]
    want = expected(t, obs, ph, ang, nl, row)
    n = len(want)
    t.claim_true(a.shape == (n, nl, 6), 'shape')
    e, q = flat(np, e), vec1(np, np.array(q), n)
    t.claim_true(len(e) == n and len(q) == n, 'an error and a mispick probability per row')
    got = [r + [e[i], t.lift(q[i])] for i, r in enumerate(gather(np, [a], n, nl))]
    match(t, got, want, 'polarity')


@harness(bounds='one or two polarity-probability types of 2-3 and 1-2 stations, symbolic probabilities/angles, mispick probabilities on neither, either or both; location records as above', validate=30)
def polarity_probabilities(t, w, np):
    """probability rows: coefficients with their own positive and negative probability and mispick probability"""
    I = inv(w)
    k = t.choose('types', 3)
    prob = t.choose('prob', 4 if k else 2)
    base = {}
    obs = [Obs(t, np, 'PPolarityProbability', NAMES[:2 if k else 3], 2, prob=prob & 1, base=base)]
    ph = ['p']
    if k:
        key, p = (('SHPolarityProb', 'sh'), ('SVPolarityProbability', 'sv'))[k - 1]
        obs.append(Obs(t, np, key, ['S02', 'S03'][:k], 2, prob=prob & 2, base=base))
        ph.append(p)
    data = dict((o.key, o.data(np)) for o in obs[::-1])
    recs, ang, nl = located(t, np, NAMES)
    a, pn, q = I.polarity_probability_matrix(data, recs)
    a = np.asarray(a)

    def row(o, i, cs):
        return [v for c in cs for v in c] + [o.meas[i][0], o.meas[i][1]] + [o.w[i] if o.w is not None else t.lift(0.0)]
    want = expected(t, obs, ph, ang, nl, row)
    n = len(want)
    t.claim_true(a.shape == (n, nl, 6), 'shape')
    pos, neg, q = flat(np, pn[0]), flat(np, pn[1]), vec1(np, np.array(q), n)
    t.claim_true(len(pos) == n and len(neg) == n and len(q) == n, 'probabilities per row')
    got = [r + [pos[i], neg[i], t.lift(q[i])] for i, r in enumerate(gather(np, [a], n, nl))]
    match(t, got, want, 'polarity probability')


RATIOS = [('P/SHAmplitudeRatio', ('p', 'sh')), ('P/SVRMSAmplitudeRatio', ('p', 'sv')), ('SH/SVQAmplitudeRatio', ('sh', 'sv')),
          ('P/SHQRMSAmplitudeRatio', ('p', 'sh')), ('P/SV_Amplitude_Ratio', ('p', 'sv'))]


@harness(bounds='one or two amplitude-ratio types (plain, RMS, Q, QRMS) of 2-3 and 1-2 stations, symbolic amplitudes of either sign, errors and angles; location records as above', validate=30)
def amplitude_ratios(t, w, np):
    """ratio rows: |numerator / denominator|, fractional errors and both phases' coefficients of one station"""
    I = inv(w)
    k = t.choose('types', 4)
    base = {}
    if k < 2:
        key, p = RATIOS[[3, 4][k]]
        obs, ph = [Obs(t, np, key, NAMES, 2, base=base)], [p]
    else:
        obs, ph = [], []
        for i, st in (([0, 1][k - 2], NAMES[:2]), ([2, 2][k - 2], ['S02', 'S03'][:k - 1])):
            obs.append(Obs(t, np, RATIOS[i][0], st, 2, base=base))
            ph.append(RATIOS[i][1])
    data = dict((o.key, o.data(np)) for o in obs[::-1])
    recs, ang, nl = located(t, np, NAMES)
    a1, a2, r, e1, e2 = I.amplitude_ratio_matrix(data, recs)
    a1, a2 = np.asarray(a1), np.asarray(a2)

    def row(o, i, cs):
        x, y = o.meas[i]
        return [v for c in cs for v in c] + [t.abs(x / y), o.err[i][0] / t.abs(x), o.err[i][1] / t.abs(y)]
    want = expected(t, obs, ph, ang, nl, row)
    n = len(want)
    t.claim_true(a1.shape == (n, nl, 6) and a2.shape == (n, nl, 6), 'shape')
    r, e1, e2 = flat(np, r), flat(np, e1), flat(np, e2)
    t.claim_true(len(r) == n and len(e1) == n and len(e2) == n, 'a ratio and errors per row')
    got = [c + [r[i], e1[i], e2[i]] for i, c in enumerate(gather(np, [a1, a2], n, nl))]
    match(t, got, want, 'amplitude ratio')


@harness(bounds='one or two amplitude types (P, SH, SV; plain, Q, RMS, QRMS) of 2-3 and 1-2 stations; location records as above', validate=30)
def relative_amplitudes(t, w, np):
    """relative amplitude rows: station name, |amplitude|, fractional error and coefficients of one station"""
    I = inv(w)
    k = t.choose('types', 3)
    base = {}
    if k == 0:
        obs, ph = [Obs(t, np, ['PQRMSAmplitude', 'SHRMSAmplitude'][t.choose('kind', 2)], NAMES, 1, base=base)], None
        ph = ['p' if obs[0].key[0] == 'P' else 'sh']
    else:
        obs = [Obs(t, np, 'PAmplitude', NAMES[:2], 1, base=base), Obs(t, np, ['SVQAmplitude', 'SHAmplitude'][k - 1], ['S02', 'S03'][:k], 1, base=base)]
        ph = ['p', ['sv', 'sh'][k - 1]]
    data = dict((o.key, o.data(np)) for o in obs[::-1])
    recs, ang, nl = located(t, np, NAMES)
    a, r, e, st = I.relative_amplitude_ratio_matrix(data, recs)
    a = np.asarray(a)

    def row(o, i, cs):
        x = o.meas[i][0]
        return [v for c in cs for v in c] + [t.abs(x), o.err[i][0] / t.abs(x), float(int(o.names[i][1:]))]
    want = expected(t, obs, ph, ang, nl, row)
    n = len(want)
    t.claim_true(a.shape == (n, nl, 6), 'shape')
    r, e = flat(np, r), flat(np, e)
    t.claim_true(len(r) == n and len(e) == n and len(st) == n, 'an amplitude, an error and a name per row')
    got = [c + [r[i], e[i], float(int(st[i][1:]))] for i, c in enumerate(gather(np, [a], n, nl))]
    match(t, got, want, 'relative amplitude')


@harness(bounds='data of every kind in one dictionary: one station each', validate=15)
def kinds(t, w, np):
    """each matrix takes only its own data types; absent types give no matrix"""
    I = inv(w)
    base = {}
    o = [Obs(t, np, 'PPolarity', ['S01'], 1, sign=True, base=base), Obs(t, np, 'SHPolarityProbability', ['S01'], 2, base=base),
         Obs(t, np, 'P/SHAmplitudeRatio', ['S01'], 2, base=base), Obs(t, np, 'SVAmplitude', ['S01'], 1, base=base)]
    keep = [t.choose('has%d' % i, 2) for i in range(4)]
    data = dict((x.key, x.data(np)) for x, f in zip(o, keep) if f)
    data['UID'] = 'event'
    a = [I.polarity_matrix(data)[0], I.polarity_probability_matrix(data)[0], I.amplitude_ratio_matrix(data)[0], I.relative_amplitude_ratio_matrix(data)[0]]
    for i in range(4):
        if keep[i]:
            t.claim_true(np.asarray(a[i]).shape == (1, 1, 6), 'matrix of the type present')
            c = coef(t, ['p', 'sh', 'p', 'sv'][i], rad(t, o[i].az[0]), rad(t, o[i].toa[0]))
            f = o[0].meas[0][0] if i == 0 else 1
            for j in range(6):
                t.claim_eq(np.asarray(a[i])[0, 0, j], c[j] * f, 'coefficients')
        else:
            t.claim_true(a[i] is False, 'no matrix')
