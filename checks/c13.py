"""C13: strike/dip/rake, principal axes and normal/slip"""
from symx.harness import harness
from .common import conv, flat

ASSUMPTIONS = ['angles in the stated domains; exact real arithmetic for the trigonometry']
PRELOAD = ['MTfit.convert.moment_tensor_conversion']
OUTSIDE = 'rounding at fault planes closer to horizontal than 1e-6 rad'


def sdr(t, lo_dip=False, hi_dip=False):
    k = t.real('strike', lo=0, hi=2 * t.pi, hi_open=True)
    d = t.real('dip', lo=0, hi=t.pi / 2, lo_open=lo_dip, hi_open=hi_dip)
    r = t.real('rake', lo=-t.pi, hi=t.pi, hi_open=True)
    return k, d, r


def normal_slip(t, k, d, r):
    """Aki & Richards, north-east-down"""
    sk, ck, sd, cd, sr, cr = t.sin(k), t.cos(k), t.sin(d), t.cos(d), t.sin(r), t.cos(r)
    n = [-sk * sd, ck * sd, -cd]
    s = [ck * cr + sk * cd * sr, sk * cr - ck * cd * sr, -sd * sr]
    return n, s


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def dc(n, s):
    """double-couple tensor n s' + s n'"""
    return [[n[i] * s[j] + n[j] * s[i] for j in range(3)] for i in range(3)]


def same_tensor(t, a, b, name):
    for i in range(3):
        for j in range(i, 3):
            t.claim_eq(a[i][j], b[i][j], '%s [%d,%d]' % (name, i, j))


def vec(np, v):
    return flat(np, v)


def one(np, v):
    v = flat(np, v)
    assert len(v) == 1
    return v[0]


def in_range(t, k, d, r, name):
    t.claim_le(0, k, name + ' strike >= 0')
    t.claim_lt(k, 2 * t.pi, name + ' strike < 2pi')
    t.claim_le(0, d, name + ' dip >= 0')
    t.claim_le(d, t.pi / 2, name + ' dip <= pi/2')
    t.claim_le(-t.pi, r, name + ' rake >= -pi')
    t.claim_lt(r, t.pi, name + ' rake < pi')


@harness(bounds='all strikes, dips and rakes')
def axes_of_angles(t, w, np):
    """T, N, P of any strike/dip/rake are orthonormal and TT'-PP' is the Aki-Richards double-couple"""
    C = conv(w)
    k, d, r = sdr(t)
    T, N, P = [vec(np, v) for v in C.SDR_TNP(k, d, r)]
    for n, a in (('T', T), ('N', N), ('P', P)):
        t.claim_eq(dot(a, a), 1, n + ' unit')
    t.claim_eq(dot(T, N), 0, 'T.N')
    t.claim_eq(dot(T, P), 0, 'T.P')
    t.claim_eq(dot(N, P), 0, 'N.P')
    n, s = normal_slip(t, k, d, r)
    same_tensor(t, [[T[i] * T[j] - P[i] * P[j] for j in range(3)] for i in range(3)], dc(n, s), 'tensor')
    t.claim_eq(dot(N, n), 0, 'N in the fault plane')
    t.claim_eq(dot(N, s), 0, 'N normal to slip')


@harness(bounds='all strikes, dips and rakes')
def normals_of_angles(t, w, np):
    """normal and slip of any strike/dip/rake are unit, perpendicular and build the same tensor"""
    C = conv(w)
    k, d, r = sdr(t)
    A, B = [vec(np, v) for v in C.SDR_FP(k, d, r)]
    t.claim_eq(dot(A, A), 1, 'unit')
    t.claim_eq(dot(B, B), 1, 'unit')
    t.claim_eq(dot(A, B), 0, 'perpendicular')
    same_tensor(t, dc(A, B), dc(*normal_slip(t, k, d, r)), 'tensor')


def claim_sdr(t, got, want, name):
    t.claim_angle_eq(got[0], want[0], name + ' strike')
    t.claim_eq(got[1], want[1], name + ' dip')
    t.claim_angle_eq(got[2], want[2], name + ' rake')


@harness(bounds='all strikes and rakes, 0 < dip < pi/2; any vector length')
def angles_of_normals(t, w, np):
    """fault normal and slip give back strike, dip and rake, for both signs of the pair and any length"""
    C = conv(w)
    k, d, r = sdr(t, True, True)
    n, s = normal_slip(t, k, d, r)
    sg = 1 - 2 * t.choose('sign', 2)
    a = t.real('a', lo=0, lo_open=True, special=(1,))
    mk = np.matrix if t.choose('matrix', 2) else np.array
    got = [one(np, v) for v in C.FP_SDR(mk([[sg * a * v] for v in n]), mk([[sg * a * v] for v in s]))]
    in_range(t, got[0], got[1], got[2], 'angles')
    claim_sdr(t, got, (k, d, r), 'angles')


@harness(bounds='all strikes and rakes, dip 0 and pi/2 included: same tensor')
def angles_of_normals_edges(t, w, np):
    """fault normal and slip give angles of the same tensor for horizontal and vertical planes"""
    C = conv(w)
    k, d, r = sdr(t)
    n, s = normal_slip(t, k, d, r)
    got = [one(np, v) for v in C.FP_SDR(np.matrix([[v] for v in n]), np.matrix([[v] for v in s]))]
    in_range(t, got[0], got[1], got[2], 'angles')
    same_tensor(t, dc(*normal_slip(t, *got)), dc(n, s), 'tensor')


def arr(np, *v):
    return [np.array([x]) for x in v]


def same_plane(t, a, b):
    """two angle triples describe one plane and slip direction (as vectors)"""
    n, s = normal_slip(t, *a)
    m, u = normal_slip(t, *b)
    return n, s, m, u


def generic(t):
    """angles for which neither plane is closer than 1e-6 to horizontal or exactly vertical"""
    k, d, r = sdr(t, True, True)
    t.assume(t.sin(r) != 0)
    t.assume(1e-6 <= t.sin(d))
    u = t.cos(r) * t.cos(r) + t.cos(d) * t.cos(d) * t.sin(r) * t.sin(r)
    t.assume(1e-6 <= t.sqrt(u))
    return k, d, r


def edge(t):
    """horizontal or vertical planes, horizontal or up/down-dip slip: the special dips and rakes exactly, the others free"""
    k = t.real('strike', lo=0, hi=2 * t.pi, hi_open=True)
    e = t.choose('edge', 6)
    d = [t.lift(0.0), t.pi / 2, None, None, None, None][e]
    r = [None, None, t.lift(0.0), t.pi / 2, -t.pi / 2, -t.pi][e]
    if d is None:
        d = [t.lift(0.0), t.pi / 2][t.choose('dip_edge', 2)] if t.choose('dip_fixed', 2) else t.real('dip', lo=0, hi=t.pi / 2, lo_open=True, hi_open=True)
        if e in (3, 4) and d is not None:
            # slip along the dip direction: the auxiliary plane is pi/2 - dip
            t.assume((t.cos(d) == 0) | (1e-6 <= t.cos(d)))
        t.assume((t.sin(d) == 0) | (1e-6 <= t.sin(d)))
    if r is None:
        if t.choose('rake_fixed', 2):
            r = [t.lift(0.0), t.pi / 2, -t.pi / 2, -t.pi][t.choose('rake_edge', 4)]
        else:
            r = t.real('rake', lo=-t.pi, hi=t.pi, hi_open=True)
            t.assume(t.sin(r) != 0)
            t.assume((t.cos(r) >= 1e-6) | (t.cos(r) <= -1e-6))
    return k, d, r


def aux(t, w, np, k, d, r):
    C = conv(w)
    got = [one(np, v) for v in C.SDR_SDR(*arr(np, k, d, r))]
    in_range(t, got[0], got[1], got[2], 'auxiliary')
    n, s = normal_slip(t, k, d, r)
    m, u = normal_slip(t, *got)
    same_tensor(t, dc(m, u), dc(n, s), 'tensor')
    # the normal of the auxiliary plane is +- the slip vector
    for i in range(3):
        for j in range(i, 3):
            t.claim_eq(m[i] * m[j], s[i] * s[j], 'auxiliary normal is the slip vector')


@harness(bounds='all strikes, dips and rakes with both planes at least 1e-6 from horizontal', validate=20)
def auxiliary_plane(t, w, np):
    """the auxiliary plane is in range, swaps normal and slip and builds the same tensor"""
    aux(t, w, np, *generic(t))


@harness(bounds='exactly horizontal/vertical planes and exactly horizontal/dip-parallel slip, the other angles free')
def auxiliary_plane_edges(t, w, np):
    """the same for the special dips and rakes"""
    aux(t, w, np, *edge(t))


@harness(bounds='all strikes, dips and rakes with both planes at least 1e-6 from horizontal', validate=20)
def auxiliary_involution(t, w, np):
    """applying the auxiliary-plane conversion twice returns the original angles"""
    C = conv(w)
    k, d, r = generic(t)
    a = C.SDR_SDR(*arr(np, k, d, r))
    got = [one(np, v) for v in C.SDR_SDR(*a)]
    in_range(t, got[0], got[1], got[2], 'twice')
    claim_sdr(t, got, (k, d, r), 'twice')


def axes_back(t, w, np, k, d, r):
    C = conv(w)
    T, N, P = C.SDR_TNP(k, d, r)
    got = [one(np, v) for v in C.TNP_SDR(T, N, P)]
    in_range(t, got[0], got[1], got[2], 'angles')
    n, s = normal_slip(t, k, d, r)
    m, u = normal_slip(t, *got)
    same_tensor(t, dc(m, u), dc(n, s), 'tensor')


@harness(bounds='all strikes, dips and rakes with both planes at least 1e-6 from horizontal')
def angles_of_axes(t, w, np):
    """axes give back the original or the auxiliary plane: in range and the same tensor"""
    axes_back(t, w, np, *generic(t))


@harness(bounds='exactly horizontal/vertical planes and exactly horizontal/dip-parallel slip, the other angles free')
def angles_of_axes_edges(t, w, np):
    """the same for the special dips and rakes"""
    axes_back(t, w, np, *edge(t))


@harness(bounds='all strikes, dips and rakes', weight=2)
def sdsd(t, w, np):
    """strike/dip pairs: the two planes' normals are the normal and the slip vector up to sign"""
    C = conv(w)
    k, d, r = sdr(t)
    n, s = normal_slip(t, k, d, r)
    got = [one(np, v) for v in C.SDR_SDSD(k, d, r)]
    s1, d1, s2, d2 = got
    for v, name in ((s1, 'strike1'), (s2, 'strike2')):
        t.claim_le(0, v, name + ' >= 0')
        t.claim_lt(v, 2 * t.pi, name + ' < 2pi')
    for v, name in ((d1, 'dip1'), (d2, 'dip2')):
        t.claim_le(0, v, name + ' >= 0')
        t.claim_le(v, t.pi / 2, name + ' <= pi/2')
    A, B = [vec(np, v) for v in C.SDSD_FP(s1, d1, s2, d2)]
    # SDSD_FP gives the normals of (plane 2, plane 1)
    for X, Y, name in ((A, n, 'first'), (B, s, 'second')):
        t.claim_eq(dot(X, X), 1, name + ' unit')
        for i in range(3):
            for j in range(i, 3):
                t.claim_eq(X[i] * X[j], Y[i] * Y[j], name + ' normal up to sign')


@harness(bounds='any unit normal of a plane with 0 < dip < pi/2, both signs, any length')
def plane_of_normal(t, w, np):
    """strike and dip of a plane normal"""
    C = conv(w)
    k = t.real('strike', lo=0, hi=2 * t.pi, hi_open=True)
    d = t.real('dip', lo=0, hi=t.pi / 2, lo_open=True, hi_open=True)
    a = t.real('a', lo=0, lo_open=True, special=(1,))
    sg = 1 - 2 * t.choose('sign', 2)
    n, _ = normal_slip(t, k, d, t.lift(0.0))
    mk = np.matrix if t.choose('matrix', 2) else np.array
    S, D = C.normal_SD(mk([[sg * a * v] for v in n]))
    S, D = one(np, S), one(np, D)
    t.claim_le(0, S, 'strike >= 0')
    t.claim_lt(S, 2 * t.pi, 'strike < 2pi')
    t.claim_angle_eq(S, k, 'strike')
    t.claim_eq(D, d, 'dip')


def source(t, np, k, d, r, e):
    """six-vector with eigenvalues e (descending) and the axes of k, d, r; the eigen-solver may return any sign of the axes"""
    n, s = normal_slip(t, k, d, r)
    q = 1 / t.sqrt(2)
    T = [(n[i] + s[i]) * q for i in range(3)]
    P = [(n[i] - s[i]) * q for i in range(3)]
    N = [T[1] * P[2] - T[2] * P[1], T[2] * P[0] - T[0] * P[2], T[0] * P[1] - T[1] * P[0]]
    M = [[e[0] * T[i] * T[j] + e[1] * N[i] * N[j] + e[2] * P[i] * P[j] for j in range(3)] for i in range(3)]
    st = 1 - 2 * t.choose('sT', 2)
    sp = 1 - 2 * t.choose('sP', 2)
    V = [[sp * P[i], N[i], st * T[i]] for i in range(3)]
    t.register_eigen(M, [e[2], e[1], e[0]], V)
    r2 = t.sqrt(2)
    return np.array([[M[0][0]], [M[1][1]], [M[2][2]], [r2 * M[0][1]], [r2 * M[0][2]], [r2 * M[1][2]]]), n, s


def reported(t, w, np, k, d, r, e):
    C = conv(w)
    m, n, s = source(t, np, k, d, r, e)
    o = C.output_convert(m)
    deg = t.pi / 180
    a = [one(np, o[c + '1']) * deg for c in 'SDR']
    b = [one(np, o[c + '2']) * deg for c in 'SDR']
    in_range(t, a[0], a[1], a[2], 'first plane')
    in_range(t, b[0], b[1], b[2], 'second plane')
    for p, name in ((a, 'first plane'), (b, 'second plane')):
        same_tensor(t, dc(*normal_slip(t, *p)), dc(n, s), name)
    m1, u1 = normal_slip(t, *a)
    m2, u2 = normal_slip(t, *b)
    for i in range(3):
        for j in range(i, 3):
            t.claim_eq(m1[i] * m1[j], u2[i] * u2[j], 'second slip is the first normal')
    # the plane given as (strike, cos dip, slip) is one of the two
    t.claim_le(-t.pi / 2, one(np, o['s']), 'slip angle >= -pi/2')
    t.claim_le(one(np, o['s']), t.pi / 2, 'slip angle <= pi/2')


@harness(bounds='all strikes, dips and rakes with both planes at least 1e-6 from horizontal; eigenvalues (3, 1, -2); any eigenvector signs')
def reported_planes(t, w, np):
    """the two strike/dip/rake triples of a result are each other's auxiliary plane and build the double-couple of its axes"""
    reported(t, w, np, *generic(t), e=(3, 1, -2))


@harness(bounds='as reported_planes; eigenvalues (1, 0, -1), (2, -1, -1.5)', tier='thorough')
def reported_planes_sources(t, w, np):
    """the same for a double-couple and another source"""
    k, d, r = generic(t)
    reported(t, w, np, k, d, r, [(1, 0, -1), (2, -1, -1.5)][t.choose('source', 2)])
