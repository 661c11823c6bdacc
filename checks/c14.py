"""C14: eigen-decomposition, lune and Hudson coordinates, stiffness, crack+double-couple"""
from symx.harness import harness
from .common import conv, flat
from .c13 import vec, dot, one
from .c12 import six, eigenvalues, frame, tensor, orientation, lune

ASSUMPTIONS = ['eigen-solver contract: eigenvalues ascending, orthonormal eigenvectors of any sign', 'linear solver contract: the returned x solves a x = b', 'exact real arithmetic']
PRELOAD = ['MTfit.convert.moment_tensor_conversion']
OUTSIDE = 'rounding; the zero tensor; singular stiffness matrices; fsolve (bi-axes of anisotropic media)'


def symbols(t, tie=True):
    """three eigenvalues, largest first, ties allowed"""
    e = [t.real('e%d' % i, lo=-10, hi=10) for i in range(3)]
    t.assume(e[0] >= e[1])
    t.assume(e[1] >= e[2])
    return e


PERM = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def check_axes(t, np, e, M, T, N, P, E):
    T, N, P, E = vec(np, T), vec(np, N), vec(np, P), flat(np, E)
    A = [T, N, P]
    t.claim_true(len(E) == 3 and all(len(a) == 3 for a in A), 'sizes')
    t.claim_le(E[1], E[0], 'largest first')
    t.claim_le(E[2], E[1], 'smallest last')
    for i in range(3):
        t.claim_eq(E[i], e[i], 'eigenvalue %d' % i)
        for j in range(i, 3):
            t.claim_eq(dot(A[i], A[j]), 1 if i == j else 0, 'orthonormal')
    R = tensor(E, T, N, P)
    for i in range(3):
        for j in range(i, 3):
            t.claim_eq(R[i][j], M[i][j], 'rebuilds the tensor')


def basis(t):
    k, d, s = orientation(t, True)
    T, N, P = frame(t, k, d, s)
    f = 1 - 2 * t.choose('hand', 2)
    return T, [f * v for v in N], P


def gaps(t, e):
    # the order of equal eigenvalues is free; in floating point their basis is arbitrary
    if not t.symbolic:
        t.assume(float(e[0]) - float(e[1]) > 1e-6 and float(e[1]) - float(e[2]) > 1e-6)


@harness(bounds='every tensor: eigenvalues symbolic in [-10,10] (ties allowed), any orthonormal axes', validate=20)
def matrix_axes(t, w, np):
    """MT33_TNPE: ordered, orthonormal, rebuilds the tensor"""
    C = conv(w)
    e = symbols(t)
    gaps(t, e)
    T, N, P = basis(t)
    M = tensor(e, T, N, P)
    t.register_eigen(M, [e[2], e[1], e[0]], [[P[i], N[i], T[i]] for i in range(3)])
    check_axes(t, np, e, M, *C.MT33_TNPE(np.matrix(M)))


@harness(bounds='every tensor: eigenvalues symbolic in [-10,10] (ties allowed), any orthonormal axes; 6x1 array, matrix and 1-D input', validate=20)
def vector_axes(t, w, np):
    """MT6_TNPE: ordered, orthonormal, rebuilds the tensor"""
    C = conv(w)
    e = symbols(t)
    gaps(t, e)
    T, N, P = basis(t)
    M = tensor(e, T, N, P)
    t.register_eigen(M, [e[2], e[1], e[0]], [[P[i], N[i], T[i]] for i in range(3)])
    m = six(t, np, M)
    k = t.choose('form', 3)
    x = np.array([[v] for v in m]) if k == 0 else np.matrix([[v] for v in m]) if k == 1 else np.array(m)
    check_axes(t, np, e, M, *C.MT6_TNPE(x))


@harness(bounds='three tensors in one call: fixed axes, symbolic ordered eigenvalues (ties allowed)', validate=15)
def several_axes(t, w, np):
    """MT6_TNPE of several columns: every column its own axes"""
    C = conv(w)
    pi = t.pi
    cols, all_ = [], []
    for j, (k, d, s, e) in enumerate(((pi / 3, pi / 4, pi / 6, None), (3 * pi / 2, pi / 3, -pi / 4, (2, 0, -1)), (pi / 6, pi / 6, -pi / 3, (4, -1, -3)))):
        if e is None:
            e = symbols(t)
            gaps(t, e)
        T, N, P = frame(t, k, d, s)
        M = tensor(e, T, N, P)
        t.register_eigen(M, [e[2], e[1], e[0]], [[P[i], N[i], T[i]] for i in range(3)])
        cols.append(six(t, np, M))
        all_.append((e, M))
    T, N, P, E = C.MT6_TNPE(np.array([[c[i] for c in cols] for i in range(6)]))
    T, N, P, E = [np.asarray(v) for v in (T, N, P, E)]
    t.claim_true(all(v.shape == (3, 3) for v in (T, N, P, E)), 'shapes')
    for j in range(3):
        check_axes(t, np, all_[j][0], all_[j][1], T[:, j], N[:, j], P[:, j], E[:, j])


# -- lune ---------------------------------------------------------------------------

@harness(bounds='interior of the lune, any eigenvalue order and any positive scale; 1-D, 3x1 and two-column input', validate=30)
def lune_of_eigenvalues(t, w, np):
    """E_GD returns the longitude and latitude the eigenvalues were made from"""
    C = conv(w)
    g = t.real('gamma', lo=-t.pi / 6, hi=t.pi / 6, lo_open=True, hi_open=True)
    d = t.real('delta', lo=-t.pi / 2, hi=t.pi / 2, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(abs(d) < 1.5707 and abs(g) < 0.52359)
    r = t.real('scale', lo=0.01, hi=1000)
    e = eigenvalues(t, g, d)
    t.claim_le(e[1], e[0], 'order')
    t.claim_le(e[2], e[1], 'order')
    t.assume(e[0] >= e[1])
    t.assume(e[1] >= e[2])
    p = PERM[t.choose('order', 6)]
    x = [r * e[i] for i in p]
    form = t.choose('form', 3) if p == (2, 0, 1) else 0
    if form == 0:
        a = np.array(x)
    elif form == 1:
        a = np.array([[v] for v in x])
    else:
        a = np.array([[1.0, x[0]], [0.0, x[1]], [-1.0, x[2]]])
    G, D = [flat(np, np.array(v)) for v in C.E_GD(a)]
    t.claim_true(len(G) == len(D) == (2 if form == 2 else 1), 'one value per column')
    t.claim_eq(G[-1], g, 'gamma')
    t.claim_eq(D[-1], d, 'delta')
    if form == 2:
        t.claim_eq(G[0], 0, 'gamma of the other column')
        t.claim_eq(D[0], 0, 'delta of the other column')


@harness(bounds='every non-zero eigenvalue triple in [-10,10], any order', validate=40)
def eigenvalues_of_lune(t, w, np):
    """E_GD of arbitrary eigenvalues is in range and GD_E of it gives the normalised, sorted eigenvalues"""
    C = conv(w)
    e = symbols(t)
    t.assume((e[0] > 0) | (e[2] < 0))
    if not t.symbolic:
        t.assume(max(abs(float(v)) for v in e) > 1e-3)
    p = PERM[t.choose('order', 6)]
    G, D = [one(np, np.array(v)) for v in C.E_GD(np.array([e[i] for i in p]))]
    t.claim_le(-t.pi / 6, G, 'gamma >= -pi/6')
    t.claim_le(G, t.pi / 6, 'gamma <= pi/6')
    t.claim_le(-t.pi / 2, D, 'delta >= -pi/2')
    t.claim_le(D, t.pi / 2, 'delta <= pi/2')
    x = flat(np, C.GD_E(np.array([G]), np.array([D])))
    n = t.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    for i in range(3):
        t.claim_eq(x[i] * n, e[i], 'eigenvalue %d' % i)


@harness(bounds='the whole lune; scalar, one and two points per call', validate=20)
def eigenvalue_map(t, w, np):
    """GD_E is the eigenvalue map, one column per point, unit norm"""
    C = conv(w)
    g, d = lune(t)
    e = eigenvalues(t, g, d)
    k = t.choose('form', 3)
    if k == 0:
        x = C.GD_E(g, d)
    elif k == 1:
        x = C.GD_E(np.array([g]), np.array([d]))
    else:
        x = C.GD_E(np.array([0.2, g]), np.array([-0.7, d]))
    x = np.asarray(x)
    t.claim_true(x.shape == (3, 2 if k == 2 else 1), 'shape')
    n = t.lift(0.0)
    for i in range(3):
        t.claim_eq(x[i, -1], e[i], 'eigenvalue %d' % i)
        n = n + x[i, -1] * x[i, -1]
    t.claim_eq(n, 1, 'unit norm')


@harness(bounds='fixed axes, symbolic lune point', validate=20)
def lune_of_matrix(t, w, np):
    """MT33_GD of a tensor gives its lune point"""
    C = conv(w)
    g = t.real('gamma', lo=-t.pi / 6, hi=t.pi / 6, lo_open=True, hi_open=True)
    d = t.real('delta', lo=-t.pi / 2, hi=t.pi / 2, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(abs(d) < 1.5707 and abs(g) < 0.52359)
    e = eigenvalues(t, g, d)
    t.claim_le(e[1], e[0], 'order')
    t.claim_le(e[2], e[1], 'order')
    t.assume(e[0] >= e[1])
    t.assume(e[1] >= e[2])
    T, N, P = frame(t, t.pi / 3, t.pi / 4, t.pi / 6)
    M = tensor(e, T, N, P)
    t.register_eigen(M, [e[2], e[1], e[0]], [[P[i], N[i], T[i]] for i in range(3)])
    G, D = C.MT33_GD(np.matrix(M))
    t.claim_eq(one(np, np.array(G)), g, 'gamma')
    t.claim_eq(one(np, np.array(D)), d, 'delta')


@harness(bounds='the four landmark families with symbolic positive size, any order')
def lune_landmarks(t, w, np):
    """double-couple (0,0), CLVD (-+pi/6,0), isotropic delta +-pi/2"""
    C = conv(w)
    r = t.real('r', lo=0.001, hi=1000)
    k = t.choose('kind', 5)
    e = [(r, 0 * r, -r), (2 * r, -r, -r), (r, r, -2 * r), (r, r, r), (-r, -r, -r)][k]
    p = PERM[t.choose('order', 6)]
    G, D = [one(np, np.array(v)) for v in C.E_GD(np.array([e[i] for i in p]))]
    if k < 3:
        t.claim_eq(G, [0, -t.pi / 6, t.pi / 6][k], 'gamma')
        t.claim_eq(D, 0, 'delta')
    else:
        t.claim_eq(D, [t.pi / 2, -t.pi / 2][k - 3], 'delta')


# -- Hudson ---------------------------------------------------------------------------

def hudson(t, e):
    """Hudson et al. (1989) T, k and u, v of eigenvalues (largest first), without divisions by zero"""
    iso = (e[0] + e[1] + e[2]) / 3
    dv = [v - iso for v in e]
    big = dv[0] if dv[1] <= 0 else -dv[2]
    k = iso / (t.abs(iso) + big)
    T = 2 * dv[1] / big if big > 0 else t.lift(0.0)
    return T * (1 - t.abs(k)), k


def uv(t, tau, k):
    if (tau > 0) & (k > 0) if t.symbolic else (tau > 0 and k > 0):
        q = 1 - tau / 2 if tau < 4 * k else 1 - 2 * k
    elif (tau < 0) & (k < 0) if t.symbolic else (tau < 0 and k < 0):
        q = 1 + tau / 2 if tau > 4 * k else 1 + 2 * k
    else:
        q = 1
    return tau / q, k / q


def off_ties(t, e, tau=None, k=None):
    pass


@harness(bounds='every non-zero eigenvalue triple in [-10,10], any order; one and two columns', validate=40)
def hudson_of_eigenvalues(t, w, np):
    """E_tk and E_uv: Hudson's formulae whatever the eigenvalue order, inside |u| <= 4/3, |v| <= 1"""
    C = conv(w)
    e = symbols(t)
    t.assume((e[0] > 0) | (e[2] < 0))
    if not t.symbolic:
        t.assume(max(abs(float(v)) for v in e) > 1e-3)
    p = PERM[t.choose('order', 6)]
    x = [e[i] for i in p]
    two = t.choose('columns', 2) if p == (1, 2, 0) else 0
    a = np.array([[1.0, x[0]], [-2.0, x[1]], [1.0, x[2]]]) if two else np.array(x)
    tau, k = [flat(np, np.array(v)) for v in C.E_tk(a)]
    tau0, k0 = hudson(t, e)
    t.claim_eq(tau[-1], tau0, 'tau')
    t.claim_eq(k[-1], k0, 'k')
    u, v = [flat(np, np.array(q)) for q in C.E_uv(a)]
    t.claim_true(len(u) == len(v) == two + 1, 'one value per column')
    u0, v0 = uv(t, tau0, k0)
    t.claim_eq(u[-1], u0, 'u')
    t.claim_eq(v[-1], v0, 'v')
    if two:
        t.claim_eq(u[0], 1, 'u of the other column')
        t.claim_eq(v[0], 0, 'v of the other column')


@harness(bounds='every tau, k with |tau| + |k| <= 1')
def hudson_box(t, w, np):
    """tk_uv stays in |u| <= 4/3, |v| <= 1, for scalars and arrays"""
    C = conv(w)
    k = t.real('k', lo=-1, hi=1)
    tau = t.real('tau', lo=-1, hi=1)
    t.assume(t.abs(k) + t.abs(tau) <= 1)
    if t.choose('array', 2):
        u, v = C.tk_uv(np.array([0.25, tau]), np.array([0.25, k]))
        t.claim_eq(u[0], 0.25 / (1 - 0.125), 'u of the other entry')
        t.claim_eq(v[0], 0.25 / (1 - 0.125), 'v of the other entry')
        u, v = u[1], v[1]
    else:
        u, v = C.tk_uv(tau, k)
    u0, v0 = uv(t, tau, k)
    t.claim_eq(u, u0, 'u')
    t.claim_eq(v, v0, 'v')
    t.claim_le(u, t.lift(4) / 3, 'u <= 4/3')
    t.claim_le(-t.lift(4) / 3, u, 'u >= -4/3')
    t.claim_le(v, 1, 'v <= 1')
    t.claim_le(-1, v, 'v >= -1')


@harness(bounds='every non-zero eigenvalue triple in [-10,10], any positive scale', validate=30)
def hudson_scale(t, w, np):
    """u, v do not change when the tensor is scaled; tau, k lie in the diamond"""
    C = conv(w)
    e = symbols(t)
    t.assume((e[0] > 0) | (e[2] < 0))
    if not t.symbolic:
        t.assume(max(abs(float(v)) for v in e) > 1e-3)
    r = t.real('scale', lo=0.01, hi=1000)
    a, b = C.E_uv(np.array(e)), C.E_uv(np.array([r * v for v in e]))
    t.claim_eq(one(np, np.array(a[0])), one(np, np.array(b[0])), 'u')
    t.claim_eq(one(np, np.array(a[1])), one(np, np.array(b[1])), 'v')
    tau, k = [one(np, np.array(q)) for q in C.E_tk(np.array(e))]
    t.claim_le(t.abs(tau) + t.abs(k), 1, '|tau| + |k| <= 1')


@harness(bounds='the five landmark families with symbolic positive size, any order')
def hudson_landmarks(t, w, np):
    """double-couple (0,0), CLVD (-+1,0), isotropic (0,+-1)"""
    C = conv(w)
    r = t.real('r', lo=0.001, hi=1000)
    k = t.choose('kind', 5)
    e = [(r, 0 * r, -r), (2 * r, -r, -r), (r, r, -2 * r), (r, r, r), (-r, -r, -r)][k]
    p = PERM[t.choose('order', 6)]
    u, v = [one(np, np.array(q)) for q in C.E_uv(np.array([e[i] for i in p]))]
    t.claim_eq(u, [0, -1, 1, 0, 0][k], 'u')
    t.claim_eq(v, [0, 0, 0, 1, -1][k], 'v')


@harness(bounds='fixed axes, every ordered non-zero eigenvalue triple in [-10,10]; the tensor alone or as second column', validate=30)
def reported_hudson(t, w, np):
    """the u, v of the converted output are those of the eigenvalues"""
    C = conv(w)
    e = symbols(t)
    t.assume(e[0] - e[1] >= 0.01)
    t.assume(e[1] - e[2] >= 0.01)
    T, N, P = frame(t, t.pi / 3, t.pi / 4, t.pi / 6)
    M = tensor(e, T, N, P)
    t.register_eigen(M, [e[2], e[1], e[0]], [[P[i], N[i], T[i]] for i in range(3)])
    m = six(t, np, M)
    o = C.output_convert(np.array([[v] for v in m]))
    u0, v0 = uv(t, *hudson(t, e))
    t.claim_eq(one(np, o['u']), u0, 'u')
    t.claim_eq(one(np, o['v']), v0, 'v')


# -- stiffness --------------------------------------------------------------------------

VOIGT = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (0, 2): 4, (0, 1): 5}


def upper(i, j):
    """position of the Voigt entry (i, j) in the list of 21"""
    i, j = min(i, j), max(i, j)
    return sum(6 - q for q in range(i)) + j - i


def stiff(c, i, j, k, l):
    return c[upper(VOIGT[min(i, j), max(i, j)], VOIGT[min(k, l), max(k, l)])]


def stiffness(t):
    return [t.real('c%d' % i, lo=-100, hi=100) for i in range(21)]


def multiply(t, c, D):
    R = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            s = t.lift(0.0)
            for k in range(3):
                for l in range(3):
                    s = s + stiff(c, i, j, k, l) * D[k][l]
            R[i][j] = s
    return R


def square(t, m):
    q = t.sqrt(2)
    return [[m[0], m[3] / q, m[4] / q], [m[3] / q, m[1], m[5] / q], [m[4] / q, m[5] / q, m[2]]]


@harness(bounds='every tensor and every non-singular stiffness list of 21 values; 6x1 and 1-D input', validate=20, rtol=1e-5)
def potency(t, w, np):
    """MT6c_D6: the stiffness tensor times the returned potency tensor is the moment tensor"""
    C = conv(w)
    c = stiffness(t)
    m = [t.real('m%d' % i, lo=-10, hi=10) for i in range(6)]
    x = np.array([[v] for v in m]) if t.choose('form', 2) else np.array(m)
    D = flat(np, C.MT6c_D6(x, c))
    t.claim_true(len(D) == 6, 'six values')
    R, M = multiply(t, c, square(t, D)), square(t, m)
    for i in range(3):
        for j in range(i, 3):
            t.claim_eq(R[i][j], M[i][j], 'C:D = M')


@harness(bounds='every tensor, default isotropic stiffness (lambda = mu = 1)', validate=10)
def potency_default(t, w, np):
    """with the default stiffness the potency is (M - tr(M) / 5) / 2"""
    C = conv(w)
    m = [t.real('m%d' % i, lo=-10, hi=10) for i in range(6)]
    D = flat(np, C.MT6c_D6(np.array([[v] for v in m])))
    tr = m[0] + m[1] + m[2]
    for i in range(6):
        t.claim_eq(2 * D[i], m[i] - (tr / 5 if i < 3 else 0), 'potency %d' % i)


@harness(bounds='every lambda, mu; every stiffness list of 21 values', validate=10)
def isotropic(t, w, np):
    """isotropic_c is lambda, mu elasticity; of a full list the average keeps both contractions"""
    C = conv(w)
    if t.choose('full', 2):
        c = stiffness(t)
        g = C.isotropic_c(c=c)
        for name, (p, q) in (('C_iikk', ((0, 0), (1, 1))), ('C_ikik', ((0, 1), (0, 1)))):
            a = b = t.lift(0.0)
            for i in range(3):
                for k in range(3):
                    idx = (i, i, k, k) if name == 'C_iikk' else (i, k, i, k)
                    a, b = a + stiff(c, *idx), b + stiff(list(g), *idx)
            t.claim_eq(a, b, name)
        la, mu = g[1], g[15]
    else:
        la, mu = t.real('lambda', lo=-50, hi=50), t.real('mu', lo=-50, hi=50)
        g = C.isotropic_c(la, mu)
    t.claim_true(len(g) == 21, 'length')
    kd = lambda a, b: 1 if a == b else 0
    for (i, j) in VOIGT:
        for (k, l) in VOIGT:
            want = la * (kd(i, j) * kd(k, l)) + mu * (kd(i, k) * kd(j, l) + kd(i, l) * kd(j, k))
            t.claim_eq(stiff(list(g), i, j, k, l), want, 'C_%d%d%d%d' % (i, j, k, l))


@harness(bounds='every stiffness list of 21 values', validate=10)
def stiffness_norm(t, w, np):
    """c_norm is the Euclidean norm of C_ijkl; c21_cvoigt acts on sqrt2-weighted vectors as C_ijkl"""
    C = conv(w)
    c = stiffness(t)
    s = t.lift(0.0)
    R3 = range(3)
    for i in R3:
        for j in R3:
            for k in R3:
                for l in R3:
                    v = stiff(c, i, j, k, l)
                    s = s + v * v
    t.assume(s > 0)
    n = C.c_norm(c)
    t.claim_eq(n * n, s, 'norm')
    t.claim_le(0, n, 'non-negative')
    V = np.asarray(C.c21_cvoigt(c))
    for a, A in VOIGT.items():
        for b, B in VOIGT.items():
            f = (t.sqrt(2) if A > 2 else 1) * (t.sqrt(2) if B > 2 else 1)
            t.claim_eq(V[A, B], f * stiff(c, *(a + b)), 'Voigt %d%d' % (A, B))


@harness(bounds='isotropic stiffness with any lambda, mu in [1,50], one entry changed by 1% to 100% of the norm')
def isotropy(t, w, np):
    """is_isotropic_c accepts isotropic stiffness and rejects any single changed entry"""
    C = conv(w)
    la, mu = t.real('lambda', lo=1, hi=50), t.real('mu', lo=1, hi=50)
    c = list(C.isotropic_c(la, mu))
    c = [v if not isinstance(v, int) else float(v) for v in c]
    k = t.choose('changed', 22)
    if k < 21:
        h = t.real('change', lo=10, hi=100)
        c[k] = c[k] + h
    t.claim_true(bool(C.is_isotropic_c(c)) == (k == 21), 'isotropic' if k == 21 else 'entry %d' % k)


# -- crack plus double-couple ---------------------------------------------------------------

@harness(bounds='opening angle in [0, pi/2), Poisson ratio in (-1, 1/2); scalars and arrays', validate=30, rtol=1e-4)
def crack(t, w, np):
    """basic_cdc_GD then GD_basic_cdc returns opening angle and Poisson ratio"""
    C = conv(w)
    a = t.real('alpha', lo=0, hi=t.pi / 2, hi_open=True)
    nu = t.real('poisson', lo=-1, hi=0.5, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(0.01 < a < 1.56 and nu < 0.499 and nu > -0.99)
    if t.choose('array', 2):
        g, d = C.basic_cdc_GD(np.array([0.3, a]), np.array([0.25, nu]))
    else:
        g, d = C.basic_cdc_GD(a, nu)
    A, N = C.GD_basic_cdc(g, d)
    A, N = [flat(np, np.array(v))[-1] for v in (A, N)]
    t.claim_eq(A, a, 'opening angle')
    t.claim_eq(N, nu, 'Poisson ratio')


@harness(bounds='opening angle in [0, pi/2), Poisson ratio in (-1, 1/2)', validate=20)
def crack_tensor(t, w, np):
    """basic_cdc_GD is the lune point of the crack+double-couple tensor lambda (n.u) I + mu (n u + u n)"""
    C = conv(w)
    a = t.real('alpha', lo=0, hi=t.pi / 2, hi_open=True)
    nu = t.real('poisson', lo=-1, hi=0.5, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(0.01 < a < 1.56 and nu < 0.499 and nu > -0.99)
    g, d = C.basic_cdc_GD(a, nu)
    c = t.cos(a)
    # mu = 1, lambda = 2 nu / (1 - 2 nu); eigenvalues times (1 - 2 nu)
    e = [2 * nu * c + (1 - 2 * nu) * (c + 1), 2 * nu * c, 2 * nu * c + (1 - 2 * nu) * (c - 1)]
    n = t.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    x = eigenvalues(t, g, d)
    for i in range(3):
        t.claim_eq(x[i] * n, e[i], 'eigenvalue %d' % i)


@harness(bounds='opening angle exactly pi/2, Poisson ratio in (-1, 1/2]; default Poisson ratio')
def shear_crack(t, w, np):
    """a closed crack is a double-couple, scalars and arrays"""
    C = conv(w)
    nu = t.real('poisson', lo=-1, hi=0.5, lo_open=True)
    k = t.choose('form', 3)
    if k == 0:
        g, d = C.basic_cdc_GD(np.pi / 2, nu)
    elif k == 1:
        g, d = C.basic_cdc_GD(np.array([0.5, np.pi / 2]), np.array([0.1, nu]))
    else:
        g, d = C.basic_cdc_GD(np.pi / 2)
    t.claim_eq(flat(np, np.array(g))[-1], 0, 'gamma')
    t.claim_eq(flat(np, np.array(d))[-1], 0, 'delta')
