"""C02: polarity and polarity-probability likelihoods"""
from symx.harness import harness
from .common import prob, coeffs, mt6, dot6, line_mt, unit_row, flat, INF

ASSUMPTIONS = ['uncertainties s >= 0 (zero included), mispick probability and pick probabilities in [0,1]',
               'sizes: 1-2 stations, 1-2 location samples, 1-2 sources, six-vector sources',
               'the observed polarity is folded into the sign of the coefficients, as the inversion does']
PRELOAD = ['MTfit.probability.probability']
OUTSIDE = 'integer-typed uncertainty arrays; rounding of erf and of the sum over stations'
SQ2 = 2 ** 0.5


def pol(t, x, s, wp):
    e = t.erf(x / (t.sqrt(2) * s))
    return (1 + e) * (1 - wp) / 2 + (1 - e) * wp / 2


def wprob(t, name='w'):
    return t.real(name, lo=0, hi=1, special=(0, 1, 0.25))


def formula(t, w, np, nu, nv, nm, wkind):
    P = prob(w)
    a = coeffs(t, np, 'a', nu, nv)
    m = mt6(t, np, 'm', nm)
    s = [t.real('s%d' % u, lo=0, lo_open=True, special=(0.1, 1, 1e-3)) for u in range(nu)]
    if wkind == 'none':
        ws = [0.0] * nu
        r = P.polarity_ln_pdf(a, m, np.array(s))
    elif wkind == 'scalar':
        ws = [0.125] * nu
        r = P.polarity_ln_pdf(a, m, np.array(s), 0.125)
    elif wkind == 'one':
        ws = [wprob(t)] * nu
        r = P.polarity_ln_pdf(a, m, np.array(s), np.array([ws[0]]) if nu == 1 else np.array(ws))
    else:
        ws = [wprob(t, 'w%d' % u) for u in range(nu)]
        r = P.polarity_ln_pdf(a, m, np.array(s), np.array(ws))
    r = np.asarray(r)
    t.claim_true(tuple(r.shape) == (nv, nm), 'shape (location samples, sources)')
    for v in range(nv):
        for j in range(nm):
            want = t.lift(1.0)
            for u in range(nu):
                want = want * pol(t, dot6([a[u, v, i] for i in range(6)], [m[i, j] for i in range(6)]), s[u], ws[u])
            t.claim_not_nan(r[v, j], 'not NaN')
            t.claim_eq(t.exp(r[v, j]), want, 'likelihood [%d,%d] is the product of the two-outcome probabilities' % (v, j))


@harness(bounds='2 stations, 1 location, 2 sources, no mispick probability')
def polarity_formula(t, w, np):
    """exp(polarity_ln_pdf) is the documented product over stations"""
    formula(t, w, np, 2, 1, 2, 'none')


@harness(bounds='1 station, 2 locations, 1 source, scalar mispick probability')
def polarity_formula_scalar(t, w, np):
    """a scalar mispick probability applies to every station"""
    formula(t, w, np, 1, 2, 1, 'scalar')


@harness(bounds='2 stations, 2 locations, 1 source, scalar mispick probability')
def polarity_formula_scalar2(t, w, np):
    """a scalar mispick probability applies to every station"""
    formula(t, w, np, 2, 2, 1, 'scalar')


@harness(bounds='2 stations, 1 location, 1 source, per-station mispick probability in [0,1]')
def polarity_formula_array(t, w, np):
    """per-station mispick probabilities"""
    formula(t, w, np, 2, 1, 1, 'array')


@harness(bounds='3 stations, 2 locations, 2 sources, per-station mispick probability in [0,1]', tier='thorough')
def polarity_formula_large(t, w, np):
    """per-station mispick probabilities"""
    formula(t, w, np, 3, 2, 2, 'array')


def one(t, w, np, x, s, wp):
    P = prob(w)
    r = P.polarity_ln_pdf(unit_row(np), line_mt(t, np, [x]), np.array([s]), np.array([wp]) if not isinstance(wp, float) else wp)
    return np.asarray(r)[0, 0]


def one_pp(t, w, np, x, p, n, wp):
    P = prob(w)
    r = P.polarity_probability_ln_pdf(unit_row(np), line_mt(t, np, [x]), np.array([p]), np.array([n]), np.array([wp]) if not isinstance(wp, float) else wp)
    return np.asarray(r)[0, 0]


@harness(bounds='1 station; any amplitude, s>0, w in [0,1]')
def polarity_two_outcomes(t, w, np):
    """both polarities are probabilities and sum to one"""
    x = t.real('x', special=(0, 1, -1, 1e-3))
    s = t.real('s', lo=0, lo_open=True, special=(0.1, 1))
    wp = wprob(t)
    p = t.exp(one(t, w, np, x, s, wp))
    q = t.exp(one(t, w, np, -x, s, wp))
    t.claim_eq(p + q, 1, 'the two polarities sum to one')
    t.claim_le(0, p, 'non-negative')
    t.claim_le(p, 1, 'at most one')


@harness(bounds='1 station; w < 0.5, any pair of amplitudes')
def polarity_monotone(t, w, np):
    """non-decreasing in the amplitude for w < 0.5"""
    x = t.real('x', special=(0, 1))
    x2 = t.real('x2', special=(0, 1))
    s = t.real('s', lo=0, lo_open=True, special=(0.1, 1))
    wp = t.real('w', lo=0, hi=0.5, hi_open=True, special=(0,))
    t.assume(x <= x2)
    t.claim_le(t.exp(one(t, w, np, x, s, wp)), t.exp(one(t, w, np, x2, s, wp)), 'monotone')


@harness(bounds='1 station, s=0, |amplitude| >= 1e-20 or exactly 0; exp/erf saturate as in binary64', float_exp=True, float_erf=True, validate=20)
def polarity_zero_sigma(t, w, np):
    """zero uncertainty is the hard 0/1 limit: 1-w for agreeing sign, w for disagreeing sign, 1/2 at a nodal plane"""
    x = t.real('x', special=(0, 1, -1, 1e-3))
    wp = wprob(t)
    t.assume((x >= 1e-20) | (x <= -1e-20) | (x == 0))
    r = one(t, w, np, x, 0.0, wp)
    t.claim_not_nan(r, 'not NaN')
    if x > 0:
        t.claim_eq(t.exp(r), 1 - wp, 'agreeing')
    elif x < 0:
        t.claim_eq(t.exp(r), wp, 'disagreeing')
    else:
        t.claim_eq(t.exp(r), 0.5, 'nodal')


@harness(bounds='2 stations, one with s=0, w in {0,1}; exp/erf saturate as in binary64', float_exp=True, float_erf=True, validate=30)
def polarity_no_nan(t, w, np):
    """impossible sources get exactly -inf, no input gives NaN"""
    P = prob(w)
    x = t.real('x', special=(0, 1, -1, 1e-3))
    s = t.real('s', lo=0, special=(0, 0.1, 1))
    z0 = 1.0 if t.choose('wone', 2) else 0.0
    t.assume((x >= 1e-20) | (x <= -1e-20) | (x == 0))
    m = line_mt(t, np, [x, -x])
    r = np.asarray(P.polarity_ln_pdf(unit_row(np, 2, 1), m, np.array([s, 0.0]), np.array([z0, z0])))
    for j in range(2):
        t.claim_not_nan(r[0, j], 'not NaN')
    if x > 0:
        t.claim_eq(r[0, 1 if z0 == 0.0 else 0], -INF, 'impossible source is excluded')


@harness(bounds='1 station with s=0 and w=0 among 2; hard limit excludes disagreeing sources whatever the other station says')
def polarity_exclusion(t, w, np):
    """log(0) stays -inf when combined over stations, and shape is (locations, sources)"""
    P = prob(w)
    x = t.real('x', lo=1e-3)
    s = t.real('s', lo=1e-3)
    a = np.array([[[1.0, 0, 0, 0, 0, 0]], [[0, 1.0, 0, 0, 0, 0]]])
    y = t.real('y')
    m = np.array([[x], [y], [0.0], [0.0], [0.0], [0.0]])
    r = np.asarray(P.polarity_ln_pdf(a, m, np.array([s, s]), 0.0))
    e = t.exp(r[0, 0])
    t.claim_eq(e, pol(t, x, s, 0.0) * pol(t, y, s, 0.0), 'product over stations')


def step(x):
    return 1.0 if x > 0 else (0.0 if x < 0 else 0.5)


def pp(x, p, n, wp):
    h = step(x)
    k = 1.0 - h
    return (h * p + k * n) * (1 - wp) + (h * n + k * p) * wp


def pp_formula(t, w, np, nu, nv, nm, wkind, free=False):
    P = prob(w)
    a = coeffs(t, np, 'a', nu, nv, special=(0, 1, -1)) if free else np.array([[[1.0 if i == (u + v) % 6 else 0.0 for i in range(6)] for v in range(nv)] for u in range(nu)])
    m = mt6(t, np, 'm', nm, special=(0, 1, -1))
    p = [t.real('p%d' % u, lo=0, hi=1, special=(0, 1, 0.5)) for u in range(nu)]
    n = [t.real('n%d' % u, lo=0, hi=1, special=(0, 1, 0.5)) for u in range(nu)]
    if wkind == 'none':
        ws = [0.0] * nu
        r = P.polarity_probability_ln_pdf(a, m, np.array(p), np.array(n))
    elif wkind == 'scalar':
        ws = [0.125] * nu
        r = P.polarity_probability_ln_pdf(a, m, np.array(p), np.array(n), 0.125)
    else:
        ws = [wprob(t, 'w%d' % u) for u in range(nu)]
        r = P.polarity_probability_ln_pdf(a, m, np.array(p), np.array(n), np.array(ws))
    r = np.asarray(r)
    t.claim_true(tuple(r.shape) == (nv, nm), 'shape (location samples, sources)')
    for v in range(nv):
        for j in range(nm):
            want = t.lift(1.0)
            for u in range(nu):
                want = want * pp(dot6([a[u, v, i] for i in range(6)], [m[i, j] for i in range(6)]), p[u], n[u], ws[u])
            t.claim_not_nan(r[v, j], 'not NaN')
            t.claim_eq(t.exp(r[v, j]), want, 'likelihood [%d,%d] is the product of the step mixtures' % (v, j))


@harness(bounds='2 stations, 1 location, 1 source, no mispick; positive and negative pick probabilities independent in [0,1]', validate=20)
def polprob_formula(t, w, np):
    """polarity-probability likelihood is the documented step mixture (half weight at exactly zero amplitude)"""
    pp_formula(t, w, np, 2, 1, 1, 'none')


@harness(bounds='1 station, 1 location, 1 source, all coefficients and components free')
def polprob_formula_free(t, w, np):
    """step mixture on the true amplitude a.m"""
    pp_formula(t, w, np, 1, 1, 1, 'array', free=True)


@harness(bounds='2 stations, 2 locations, 1 source, scalar mispick')
def polprob_formula_scalar(t, w, np):
    """a scalar mispick probability applies to every station"""
    pp_formula(t, w, np, 2, 2, 1, 'scalar')


@harness(bounds='2 stations, 1 location, 1 source, per-station mispick')
def polprob_formula_array(t, w, np):
    """per-station mispick probabilities"""
    pp_formula(t, w, np, 2, 1, 1, 'array')


@harness(bounds='1 station, 1 location, 2 sources')
def polprob_formula_sources(t, w, np):
    """sources are independent"""
    pp_formula(t, w, np, 1, 1, 2, 'array')


@harness(bounds='2 stations, 1 location, 2 sources, per-station mispick', tier='thorough')
def polprob_formula_large(t, w, np):
    """per-station mispick probabilities"""
    pp_formula(t, w, np, 2, 1, 2, 'array')


@harness(bounds='1 station; p+n=1, w in [0,1]')
def polprob_bounds(t, w, np):
    """a valid pick probability gives a value in [0,1] and opposite amplitudes sum to one"""
    x = t.real('x', special=(0, 1, -1))
    p = t.real('p', lo=0, hi=1, special=(0, 1, 0.5))
    wp = wprob(t)
    r = t.exp(one_pp(t, w, np, x, p, 1 - p, wp))
    q = t.exp(one_pp(t, w, np, -x, p, 1 - p, wp))
    t.claim_le(0, r, 'non-negative')
    t.claim_le(r, 1, 'at most one')
    t.claim_eq(r + q, 1, 'two outcomes')


@harness(bounds='1 station, certain picks (p,n,w each 0 or 1), exact zeros')
def polprob_no_nan(t, w, np):
    """impossible sources get exactly -inf and never NaN"""
    x = t.real('x', special=(0, 1, -1))
    p = float(t.choose('p', 2))
    n = float(t.choose('n', 2))
    wp = float(t.choose('w', 2))
    r = one_pp(t, w, np, x, p, n, wp)
    t.claim_not_nan(r, 'not NaN')
    e = pp(x, p, n, wp)
    if e == 0:
        t.claim_eq(r, -INF, 'impossible')
    else:
        t.claim_eq(t.exp(r), e, 'value')
