"""C04: log-domain marginalisation and normalisation"""
from symx.harness import harness

ASSUMPTIONS = ['at least one entry of a normalised PDF is non-zero (an all-zero PDF cannot be normalised)',
               'array sizes: marginalised axis 1..3 entries, 1..2 columns; normalised PDFs of 1..4 entries']
PRELOAD = ['MTfit.probability.probability']
OUTSIDE = 'larger arrays; rounding error of the summation itself'
INF = float('inf')


def prob(w):
    return w.load('MTfit.probability.probability')


def matrix(t, np, n, m, zeros=True):
    """n x m log-values; every entry may be -inf"""
    x = []
    for i in range(n):
        row = []
        for j in range(m):
            v = t.real('x%d%d' % (i, j), special=(0, 5, -5, -800, 800, -1e4))
            if zeros and t.choose('z%d%d' % (i, j), 2):
                v = -INF
            row.append(v)
        x.append(row)
    return x


def esum(t, xs):
    s = t.lift(0.0)
    for v in xs:
        s = s + t.exp(v)
    return s


def marg(t, w, np, n, m, wrap):
    P = prob(w)
    x = matrix(t, np, n, m)
    a = np.array(x)
    if wrap == 'matrix':
        a = np.matrix(x)
    if wrap == 'LnPDF':
        r = P.LnPDF(a).marginalise(0)._ln_pdf
    else:
        r = P.ln_marginalise(a, axis=0)
    r = np.asarray(r).flatten()
    t.claim_true(len(r) == m, 'one value per column')
    for j in range(m):
        t.claim_eq(t.exp(r[j]), esum(t, [x[i][j] for i in range(n)]), 'exp of the marginal of column %d is the sum of exponentials' % j)


@harness(bounds='3x1, entries any finite real or -inf')
def marginalise_3x1(t, w, np):
    """exp(ln_marginalise(x)) equals the column sums of exp(x)"""
    marg(t, w, np, 3, 1, 'array')


@harness(bounds='2x2 array, entries any finite real or -inf')
def marginalise_2x2(t, w, np):
    """exp(ln_marginalise(x)) equals the column sums of exp(x); columns independent"""
    marg(t, w, np, 2, 2, 'array')


@harness(bounds='2x2 LnPDF object, entries any finite real or -inf')
def marginalise_lnpdf(t, w, np):
    """LnPDF.marginalise gives the column sums"""
    marg(t, w, np, 2, 2, 'LnPDF')


@harness(bounds='1x3 (nothing to sum) as matrix')
def marginalise_1x3(t, w, np):
    """a single-row PDF is returned unchanged"""
    marg(t, w, np, 1, 3, 'matrix')


@harness(bounds='2x2, axis 1', modes=('py', 'c'))
def marginalise_axis1(t, w, np):
    """marginalising over the second axis gives the row sums"""
    P = prob(w)
    x = matrix(t, np, 2, 2)
    r = np.asarray(P.ln_marginalise(np.array(x), axis=1)).flatten()
    for i in range(2):
        t.claim_eq(t.exp(r[i]), esum(t, x[i]), 'row %d' % i)


@harness(bounds='2x2, exp() evaluated with the binary64 range (overflow above 709.78, zero below -745.13)', float_exp=True, validate=30)
def marginalise_range(t, w, np):
    """for finite inputs of any size the marginal is finite and lies in [max, max + ln n]"""
    P = prob(w)
    x = matrix(t, np, 2, 2, zeros=False)
    r = np.asarray(P.ln_marginalise(np.array(x), axis=0)).flatten()
    for j in range(2):
        t.claim_finite(r[j], 'marginal of column %d' % j)
        for i in range(2):
            t.claim_le(x[i][j], r[j], 'marginal is at least every term')
        t.claim_true((r[j] <= x[0][j] + t.log(2) + 1e-9) | (r[j] <= x[1][j] + t.log(2) + 1e-9), 'marginal is at most max + ln 2')


@harness(bounds='3x1 with zeros, binary64 exp range', float_exp=True)
def marginalise_range_zeros(t, w, np):
    """-inf entries are exact zeros: never NaN or +inf, finite as soon as one entry is finite"""
    P = prob(w)
    x = matrix(t, np, 3, 1)
    r = np.asarray(P.ln_marginalise(np.array(x), axis=0)).flatten()[0]
    if all(v[0] is -INF or (isinstance(v[0], float) and v[0] == -INF) for v in x):
        t.claim_eq(r, -INF, 'no mass')
    else:
        t.claim_finite(r, 'marginal with some mass')
        for v in x:
            if not (isinstance(v[0], float) and v[0] == -INF):
                t.claim_le(v[0], r, 'marginal is at least every term')


@harness(bounds='2x2, constant shift c')
def marginalise_shift(t, w, np):
    """marginalisation commutes with adding a constant"""
    P = prob(w)
    x = matrix(t, np, 2, 2)
    c = t.real('c')
    r = np.asarray(P.ln_marginalise(np.array(x), axis=0)).flatten()
    r2 = np.asarray(P.ln_marginalise(np.array(x) + c, axis=0)).flatten()
    for j in range(2):
        t.claim_eq(t.exp(r2[j]), t.exp(r[j]) * t.exp(c), 'shift commutes')


def vec(t, n, zeros=True):
    x = []
    for i in range(n):
        v = t.real('x%d' % i, special=(0, 5, -5, -800, 800, -1e4))
        if zeros and t.choose('z%d' % i, 2):
            v = -INF
        x.append(v)
    return x


def some_mass(t, x):
    t.assume(any(not (isinstance(v, float) and v == -INF) for v in x))


def norm(t, w, np, n, kind, dv):
    P = prob(w)
    x = vec(t, n)
    some_mass(t, x)
    dV = t.real('dV', lo=0, lo_open=True, special=(1,)) if dv else 1
    if kind == 'array':
        r = P.ln_normalise(np.array(x), dV)
    elif kind == 'row':
        r = P.ln_normalise(np.array([x]), dV)
    elif kind == 'matrix':
        r = P.ln_normalise(np.matrix([x]), dV)
    elif kind == 'LnPDF':
        r = P.LnPDF(np.array([x]), dV=dV).normalise()._ln_pdf
    elif kind == 'output':
        r = P.LnPDF(np.array([x]), dV=dV).output()._ln_pdf
    r = np.asarray(r).flatten()
    t.claim_true(len(r) == n, 'as many values as given')
    t.claim_eq(esum(t, list(r)) * dV, 1, 'exponentials times the volume element sum to one')
    tot = esum(t, x)
    for i in range(n):
        t.claim_eq(t.exp(r[i]) * tot * dV, t.exp(x[i]), 'value %d keeps its share' % i)


@harness(bounds='3 entries, volume element 1')
def normalise_3(t, w, np):
    """exp(ln_normalise(x)) sums to one and keeps the ratios"""
    norm(t, w, np, 3, 'array', False)


@harness(bounds='3 entries, any volume element dV>0')
def normalise_dv(t, w, np):
    """exp(ln_normalise(x, dV)) * dV sums to one"""
    norm(t, w, np, 3, 'array', True)


@harness(bounds='1 entry, any volume element dV>0')
def normalise_1(t, w, np):
    """a single-sample PDF normalises to 1/dV"""
    norm(t, w, np, 1, 'array', True)


@harness(bounds='1x3 array, any volume element')
def normalise_row(t, w, np):
    """row-shaped PDFs"""
    norm(t, w, np, 3, 'row', True)


@harness(bounds='1x2 LnPDF, any volume element')
def normalise_lnpdf(t, w, np):
    """LnPDF.normalise uses the object's volume element"""
    norm(t, w, np, 2, 'LnPDF', True)


@harness(bounds='1x1 LnPDF, any volume element')
def normalise_lnpdf1(t, w, np):
    """LnPDF.normalise of a single sample uses the object's volume element"""
    norm(t, w, np, 1, 'LnPDF', True)


@harness(bounds='1x2 LnPDF, any volume element')
def output_lnpdf(t, w, np):
    """LnPDF.output: marginalised then normalised"""
    norm(t, w, np, 2, 'output', True)


@harness(bounds='2 entries, shift c')
def normalise_shift(t, w, np):
    """normalisation is unchanged by a common shift; the input is left alone"""
    P = prob(w)
    x = vec(t, 2)
    some_mass(t, x)
    c = t.real('c')
    a = np.array(x)
    r = np.asarray(P.ln_normalise(a, 1)).flatten()
    r2 = np.asarray(P.ln_normalise(np.array(x) + c, 1)).flatten()
    for i in range(2):
        t.claim_eq(t.exp(r2[i]), t.exp(r[i]), 'shift invariance')


@harness(bounds='3 entries with zeros, binary64 exp range', float_exp=True, validate=30)
def normalise_range(t, w, np):
    """normalisation never gives NaN or +inf, finite entries stay finite, the largest keeps at least 1/n of the mass"""
    P = prob(w)
    x = vec(t, 3)
    some_mass(t, x)
    r = np.asarray(P.ln_normalise(np.array(x), 1)).flatten()
    for i in range(3):
        if isinstance(x[i], float) and x[i] == -INF:
            t.claim_eq(r[i], -INF, 'zero stays zero')
        else:
            t.claim_finite(r[i], 'normalised entry')
            t.claim_le(r[i], 1e-9, 'probability at most one')
            t.claim_true(_any(t, [r[k] >= -t.log(3) - 1e-9 for k in range(3) if not (isinstance(x[k], float) and x[k] == -INF)]), 'the largest entry is not negligible')


def _any(t, cs):
    c = cs[0]
    for k in cs[1:]:
        c = c | k
    return c


@harness(bounds='2x2 matrix', modes=('py', 'c'))
def normalise_2x2(t, w, np):
    """a two-dimensional PDF is normalised over all its entries"""
    P = prob(w)
    x = matrix(t, np, 2, 2, zeros=False)
    r = np.asarray(P.ln_normalise(np.matrix(x), 1))
    t.claim_eq(esum(t, [r[i, j] for i in range(2) for j in range(2)]), 1, 'sum')


@harness(bounds='2x2 LnPDF', modes=('py', 'c'))
def nonzero_index(t, w, np):
    """LnPDF.nonzero lists exactly the columns with non-zero marginal probability"""
    P = prob(w)
    x = matrix(t, np, 2, 2)
    idx = [int(i) for i in P.LnPDF(np.array(x)).nonzero(discard=0)]
    want = [j for j in range(2) if any(not (isinstance(x[i][j], float) and x[i][j] == -INF) for i in range(2))]
    t.claim_true(idx == want, 'non-zero columns')
