"""C12: Tape parameters, six-vectors and 3x3 forms"""
from symx.harness import harness
from .common import conv, flat
from .c13 import normal_slip, dot, dc, same_tensor, one, vec, claim_sdr

ASSUMPTIONS = ['eigen-solver contract: eigenvalues ascending, orthonormal eigenvectors of any sign', 'exact real arithmetic']
PRELOAD = ['MTfit.convert.moment_tensor_conversion']
OUTSIDE = 'rounding; planes closer to horizontal than 1e-6 rad other than exactly horizontal ones'


def six(t, np, M):
    r2 = t.sqrt(2)
    return [M[0][0], M[1][1], M[2][2], r2 * M[0][1], r2 * M[0][2], r2 * M[1][2]]


def lune(t):
    g = t.real('gamma', lo=-t.pi / 6, hi=t.pi / 6)
    d = t.real('delta', lo=-t.pi / 2, hi=t.pi / 2)
    return g, d


def eigenvalues(t, g, d):
    """Tape & Tape (2012) eq. 7: descending eigenvalues of a unit tensor"""
    cg, sg, cd, sd = t.cos(g), t.sin(g), t.cos(d), t.sin(d)
    r6 = t.sqrt(6)
    r3, r2 = t.sqrt(3), t.sqrt(2)
    return [(r3 * cg * cd - sg * cd + r2 * sd) / r6, (2 * sg * cd + r2 * sd) / r6, (-r3 * cg * cd - sg * cd + r2 * sd) / r6]


def frame(t, k, d, r):
    n, s = normal_slip(t, k, d, r)
    q = 1 / t.sqrt(2)
    T = [(n[i] + s[i]) * q for i in range(3)]
    P = [(n[i] - s[i]) * q for i in range(3)]
    N = [T[1] * P[2] - T[2] * P[1], T[2] * P[0] - T[0] * P[2], T[0] * P[1] - T[1] * P[0]]
    return T, N, P


def tensor(e, T, N, P):
    return [[e[0] * T[i] * T[j] + e[1] * N[i] * N[j] + e[2] * P[i] * P[j] for j in range(3)] for i in range(3)]


def norm1(t, m, name):
    s = m[0] * m[0]
    for v in m[1:]:
        s = s + v * v
    t.claim_eq(s, 1, name + ' unit norm')


def orientation(t, open_dip=False):
    k = t.real('kappa', lo=0, hi=2 * t.pi, hi_open=True)
    d = t.real('dip', lo=0, hi=t.pi / 2, lo_open=open_dip, hi_open=open_dip)
    s = t.real('sigma', lo=-t.pi / 2, hi=t.pi / 2)
    return k, d, s


# -- six-vector and 3x3 forms ---------------------------------------------------------

@harness(bounds='every six-vector; column, row and one-dimensional input')
def six_to_matrix(t, w, np):
    """MT6_MT33 is the symmetric matrix of the six-vector and preserves the norm"""
    C = conv(w)
    m = [t.real('m%d' % i) for i in range(6)]
    k = t.choose('shape', 4)
    x = [np.matrix([[v] for v in m]), np.matrix([m]), np.array(m), np.array([[v] for v in m])][k]
    M = C.MT6_MT33(x)
    t.claim_true(M.shape == (3, 3), 'shape')
    f = t.lift(0.0)
    for i in range(3):
        t.claim_eq(M[i, i], m[i], 'diagonal')
        for j in range(3):
            t.claim_eq(M[i, j], M[j, i], 'symmetric')
            f = f + M[i, j] * M[i, j]
    for (i, j), v in (((0, 1), m[3]), ((0, 2), m[4]), ((1, 2), m[5])):
        t.claim_eq(M[i, j] * t.sqrt(2), v, 'off-diagonal')
    s = t.lift(0.0)
    for v in m:
        s = s + v * v
    t.claim_eq(f, s, 'norm')


@harness(bounds='every non-zero symmetric matrix')
def matrix_to_six(t, w, np):
    """MT33_MT6 is the normalised six-vector; both compositions return the tensor"""
    C = conv(w)
    m = [t.real('m%d' % i) for i in range(6)]
    s = t.lift(0.0)
    for v in m:
        s = s + v * v
    t.assume(s > 0)
    if not t.symbolic:
        t.assume(s > 1e-12)
    x = C.MT33_MT6(C.MT6_MT33(np.matrix([[v] for v in m])))
    g = flat(np, x)
    norm1(t, g, 'six-vector')
    n = t.sqrt(s)
    for a, b in zip(g, m):
        t.claim_eq(a * n, b, 'same tensor up to the norm')
    # a unit tensor comes back unchanged in both directions
    y = C.MT6_MT33(x)
    z = flat(np, C.MT33_MT6(y))
    for a, b in zip(z, g):
        t.claim_eq(a, b, 'unit tensor unchanged')


# -- parameters to tensor --------------------------------------------------------------

@harness(bounds='the whole domain; one and two parameter sets per call', validate=20)
def tensor_of_tape(t, w, np):
    """Tape_MT6 and Tape_MT33 give the unit tensor with the lune eigenvalues and the axes of strike, dip, slip"""
    C = conv(w)
    g, d = lune(t)
    k, dip, s = orientation(t)
    h = t.cos(dip)
    want = six(t, np, tensor(eigenvalues(t, g, d), *frame(t, k, dip, s)))
    form = t.choose('form', 2)
    if form == 0:
        a = [np.array([v]) for v in (g, d, k, h, s)]
        col = 0
    else:
        a = [np.array([x, v]) for x, v in zip((0.1, -0.2, 1.0, 0.5, 0.3), (g, d, k, h, s))]
        col = 1
    m = C.Tape_MT6(*a)
    t.claim_true(m.shape == (6, form + 1), 'shape')
    got = [m[i, col] for i in range(6)]
    norm1(t, got, 'Tape_MT6')
    for i in range(6):
        t.claim_eq(got[i], want[i], 'component %d' % i)


@harness(bounds='the whole domain; scalar parameters', validate=20)
def matrix_of_tape(t, w, np):
    """Tape_MT33 and Tape_TNPE: the same tensor, axes and eigenvalues"""
    C = conv(w)
    g, d = lune(t)
    k, dip, s = orientation(t)
    h = t.cos(dip)
    e = eigenvalues(t, g, d)
    want = tensor(e, *frame(t, k, dip, s))
    m = C.Tape_MT33(g, d, k, h, s)
    for i in range(3):
        for j in range(3):
            t.claim_eq(m[i, j], want[i][j], 'matrix')
    T, N, P, E = C.Tape_TNPE(g, d, k, h, s)
    E = flat(np, E)
    same_tensor(t, tensor(E, vec(np, T), vec(np, N), vec(np, P)), want, 'axes and eigenvalues')
    for a, b in zip(E, e):
        t.claim_eq(a, b, 'eigenvalue')


# -- tensor to parameters --------------------------------------------------------------

def registered(t, np, e, T, N, P, signs=True):
    """six-vector of the source; the eigen-solver may return any sign of each axis"""
    M = tensor(e, T, N, P)
    sT = sP = sN = 1
    if signs:
        sT, sP = 1 - 2 * t.choose('sT', 2), 1 - 2 * t.choose('sP', 2)
        sN = 1 - 2 * t.choose('sN', 2) if signs == 2 else 1
    t.register_eigen(M, [e[2], e[1], e[0]], [[sP * P[i], sN * N[i], sT * T[i]] for i in range(3)])
    return six(t, np, M)


def ranges(t, p, name):
    g, d, k, h, s = p
    t.claim_le(-t.pi / 6, g, name + ' gamma >= -pi/6', **{})
    t.claim_le(g, t.pi / 6, name + ' gamma <= pi/6')
    t.claim_le(-t.pi / 2, d, name + ' delta >= -pi/2')
    t.claim_le(d, t.pi / 2, name + ' delta <= pi/2')
    t.claim_le(0, k, name + ' kappa >= 0')
    t.claim_lt(k, 2 * t.pi, name + ' kappa < 2pi')
    t.claim_le(0, h, name + ' h >= 0')
    t.claim_le(h, 1, name + ' h <= 1')
    t.claim_le(-t.pi / 2, s, name + ' sigma >= -pi/2')
    t.claim_le(s, t.pi / 2, name + ' sigma <= pi/2')


def to_tape(t, w, np, m, by=None):
    """parameters by both implementations of the conversion (MT6_Tape, output_convert)"""
    C = conv(w)
    x = np.array([[v] for v in m])
    if t.choose('by', 2) if by is None else by:
        o = C.output_convert(x)
        return [one(np, o[c]) for c in 'gdkhs']
    return [one(np, v) for v in C.MT6_Tape(x)]


def check_lune(t, w, np, g, d, by=None):
    # a fixed orientation whose trigonometry is exact
    k, dip, s = t.pi / 3, t.pi / 4, t.pi / 6
    e = eigenvalues(t, g, d)
    t.claim_le(e[1], e[0], 'first eigenvalue largest')
    t.claim_le(e[2], e[1], 'last eigenvalue smallest')
    t.assume(e[1] <= e[0])
    t.assume(e[2] <= e[1])
    T, N, P = frame(t, k, dip, s)
    p = to_tape(t, w, np, registered(t, np, e, T, N, P, False), by)
    ranges(t, p, 'lune')
    t.claim_eq(p[1], d, 'delta')
    return p


@harness(bounds='interior of the lune (gamma, delta symbolic), one fixed orientation', validate=20)
def tape_of_lune(t, w, np):
    """gamma and delta come back from the tensor"""
    lune_inside(t, w, np, 0)


@harness(bounds='interior of the lune, output_convert', validate=20, tier='thorough', time_s=1500)
def reported_lune(t, w, np):
    """gamma and delta come back from the tensor in the converted output"""
    lune_inside(t, w, np, 1)


def lune_inside(t, w, np, by):
    g = t.real('gamma', lo=-t.pi / 6, hi=t.pi / 6, lo_open=True, hi_open=True)
    d = t.real('delta', lo=-t.pi / 2, hi=t.pi / 2, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(abs(d) < 1.5707 and abs(g) < 0.52359)
    p = check_lune(t, w, np, g, d, by)
    t.claim_eq(p[0], g, 'gamma')


@harness(bounds='the two edges of the lune (CLVD-like sources, two equal eigenvalues), delta symbolic', validate=20)
def tape_of_lune_edges(t, w, np):
    """gamma = +-pi/6 and delta come back from the tensor"""
    g = [-t.pi / 6, t.pi / 6][t.choose('edge', 2)]
    d = t.real('delta', lo=-t.pi / 2, hi=t.pi / 2, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(abs(d) < 1.5707)
    p = check_lune(t, w, np, g, d)
    t.claim_eq(p[0], g, 'gamma')


@harness(bounds='the two isotropic sources', validate=20)
def tape_of_poles(t, w, np):
    """delta = +-pi/2 comes back; gamma is undefined there"""
    d = [-t.pi / 2, t.pi / 2][t.choose('pole', 2)]
    check_lune(t, w, np, t.lift(0.0), d)


def _eq(t, a, b):
    if t.symbolic:
        return a == b
    return abs(float(a) - float(b)) <= 1e-6


def generic(t):
    k, d, s = orientation(t, True)
    t.assume(t.sin(s) != 0)
    t.assume(t.cos(s) != 0)
    t.assume(1e-6 <= t.sin(d))
    u = t.cos(s) * t.cos(s) + t.cos(d) * t.cos(d) * t.sin(s) * t.sin(s)
    t.assume(1e-6 <= t.sqrt(u))
    return k, d, s


@harness(bounds='orientation symbolic with both planes at least 1e-6 from horizontal, fixed lune point (eigenvalues 3:1:-2), any eigenvector signs', validate=20)
def tape_of_orientation(t, w, np):
    """strike, dip cosine and slip come back exactly: only one nodal plane has |slip| < pi/2"""
    k, d, s = generic(t)
    e = [3 / t.sqrt(14), 1 / t.sqrt(14), -2 / t.sqrt(14)]
    T, N, P = frame(t, k, d, s)
    p = to_tape(t, w, np, registered(t, np, e, T, N, P, True))
    ranges(t, p, 'orientation')
    t.claim_angle_eq(p[2], k, 'kappa')
    t.claim_eq(p[3], t.cos(d), 'h')
    t.claim_eq(p[4], s, 'sigma')


def edge(t):
    """special dips and slips exactly, the rest symbolic"""
    k = t.real('kappa', lo=0, hi=2 * t.pi, hi_open=True)
    e = t.choose('edge', 5)
    d = [t.lift(0.0), t.pi / 2, None, None, None][e]
    s = [None, None, t.lift(0.0), t.pi / 2, -t.pi / 2][e]
    if d is None:
        d = [t.lift(0.0), t.pi / 2][t.choose('dip_edge', 2)] if t.choose('dip_fixed', 2) else t.real('dip', lo=0, hi=t.pi / 2, lo_open=True, hi_open=True)
        if e in (3, 4):
            t.assume((t.cos(d) == 0) | (1e-6 <= t.cos(d)))
        t.assume((t.sin(d) == 0) | (1e-6 <= t.sin(d)))
    if s is None:
        if t.choose('slip_fixed', 2):
            s = [t.lift(0.0), t.pi / 2, -t.pi / 2][t.choose('slip_edge', 3)]
        else:
            s = t.real('sigma', lo=-t.pi / 2, hi=t.pi / 2, lo_open=True, hi_open=True)
            t.assume(t.sin(s) != 0)
            t.assume(t.cos(s) >= 1e-6)
    return k, d, s


def at_edges(t, w, np, by):
    k, d, s = edge(t)
    e = [3 / t.sqrt(14), 1 / t.sqrt(14), -2 / t.sqrt(14)]
    T, N, P = frame(t, k, d, s)
    m = registered(t, np, e, T, N, P, True)
    p = to_tape(t, w, np, m, by)
    ranges(t, p, 'edges')
    n2, s2 = hslip(t, p[2], p[3], p[4])
    n, u = normal_slip(t, k, d, s)
    same_tensor(t, dc(n2, s2), dc(n, u), 'orientation')


@harness(bounds='exactly horizontal/vertical planes and strike-parallel/dip-parallel slip, the other angles symbolic; any eigenvector signs')
def tape_of_edges(t, w, np):
    """the returned parameters are in range and describe the same tensor"""
    at_edges(t, w, np, 0)


@harness(bounds='as tape_of_edges', tier='thorough')
def reported_edges(t, w, np):
    """the same for the converted output"""
    at_edges(t, w, np, 1)


@harness(bounds='three tensors in one call, any eigenvector signs', validate=10)
def tape_of_several(t, w, np):
    """several tensors in one call are converted column by column"""
    C = conv(w)
    cols, want = [], []
    pi = t.pi
    for k, d, s, e in ((pi / 3, pi / 4, pi / 6, (3, 1, -2)), (3 * pi / 2, pi / 3, -pi / 4, (1, 0, -1)), (pi / 6, pi / 6, -pi / 3, (4, -1, -2))):
        n = t.sqrt(sum(v * v for v in e))
        cols.append(registered(t, np, [v / n for v in e], *frame(t, k, d, s), signs=False))
        want.append((k, t.cos(d), s))
    x = np.array([[c[i] for c in cols] for i in range(6)])
    if t.choose('by', 2):
        o = C.output_convert(x)
        r = [flat(np, o[c]) for c in 'gdkhs']
    else:
        r = [flat(np, v) for v in C.MT6_Tape(x)]
    y = C.Tape_MT6(*[np.array(v) for v in r])
    for j in range(3):
        t.claim_eq(r[2][j], want[j][0], 'kappa')
        t.claim_eq(r[3][j], want[j][1], 'h')
        t.claim_eq(r[4][j], want[j][2], 'sigma')
        for i in range(6):
            t.claim_eq(y[i, j], cols[j][i], 'back to the tensor')


def hslip(t, k, h, r):
    """normal and slip from strike, cos(dip) and slip"""
    sk, ck, sr, cr = t.sin(k), t.cos(k), t.sin(r), t.cos(r)
    cd = h
    sd = t.sqrt(1 - h * h) if t.symbolic else t.sqrt(max(0.0, 1 - float(h) ** 2))
    return [-sk * sd, ck * sd, -cd], [ck * cr + sk * cd * sr, sk * cr - ck * cd * sr, -sd * sr]


@harness(bounds='double-couples of any orientation away from horizontal planes')
def double_couple(t, w, np):
    """double-couples map to zero longitude and latitude"""
    k, d, s = generic(t)
    q = 1 / t.sqrt(2)
    T, N, P = frame(t, k, d, s)
    p = to_tape(t, w, np, registered(t, np, [q, t.lift(0.0), -q], T, N, P, False))
    t.claim_eq(p[0], 0, 'gamma')
    t.claim_eq(p[1], 0, 'delta')
