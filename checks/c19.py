"""C19: the result container and the focal-sphere projections"""
from symx.harness import harness
from .common import flat, all_of, any_of, conv
from .c12 import registered, frame, eigenvalues, generic
from .c13 import vec

PRELOAD = ['MTfit.plot.plot_classes', 'MTfit.plot.spherical_projection']
ASSUMPTIONS = ['eigen-solver contract: eigenvalues ascending, orthonormal eigenvectors of any sign', 'exact real arithmetic']
OUTSIDE = ('more than 4 samples; indexing over the rows of the six-vectors; assignment to items of a container; means of more than one unweighted orientation cluster; '
           'the pole opposite to the centre of a full-sphere projection; projections about another axis; probabilities that are all zero')


def pl(w):
    return w.load('MTfit.plot.plot_classes')


def sp(w):
    return w.load('MTfit.plot.spherical_projection')


# -- projections -----------------------------------------------------------------------

def direction(t, tag=''):
    """a unit vector: anywhere, on the equator, at the poles"""
    k = t.choose('place' + tag, 4)
    a = t.real('az' + tag, lo=0, hi=2 * t.pi, hi_open=True)
    if k == 0:
        b = t.real('toa' + tag, lo=0, hi=t.pi, lo_open=True, hi_open=True)
        if not t.symbolic:
            t.assume(abs(b - t.pi / 2) > 1e-9)
            t.assume(1e-4 < b < t.pi - 1e-4)
        return [t.sin(b) * t.cos(a), t.sin(b) * t.sin(a), t.cos(b)]
    if k == 1:
        return [t.cos(a), t.sin(a), t.lift(0.0)]
    return [t.lift(0.0), t.lift(0.0), t.lift(1.0 if k == 2 else -1.0)]


def isnan(v):
    return isinstance(v, float) and v != v


def shown(t, X, Y, v, name, area, lower, full, back):
    x, y, z = v
    if not lower:
        z = -z
    if z < 0 and not full:
        if not back:
            t.claim_true(isnan(X) and isnan(Y), name + ': not shown')
            return
        x, y, z = -x, -y, -z
    if z == -1:
        return
    t.claim_not_nan(X, name + ' X')
    t.claim_not_nan(Y, name + ' Y')
    if isnan(X) or isnan(Y):
        return
    t.claim_eq(X * y, Y * x, name + ': azimuth kept')
    t.claim_le(0, X * x + Y * y, name + ': not on the opposite side')
    if area:
        t.claim_eq(X * X + Y * Y, 2 * (1 - z), name + ': radius 2 sin(t/2)')
    else:
        t.claim_eq((X * X + Y * Y) * (1 + z), 1 - z, name + ': radius tan(t/2)')


def options(t):
    return t.choose('area', 2), bool(t.choose('lower', 2)), bool(t.choose('full', 2)), bool(t.choose('back', 2))


@harness(modes=("py",), bounds='one unit vector anywhere, at the equator and the poles; both hemispheres; with and without full sphere and back projection; scalars, zero- and one-dimensional arrays', validate=60)
def projection(t, w, np):
    """azimuth preserved, radius 2 sin(t/2) or tan(t/2); the other hemisphere hidden or at the antipode"""
    S = sp(w)
    area, lower, full, back = options(t)
    v = direction(t)
    form = t.choose('form', 3)
    a = [v, [np.array([c]) for c in v], [np.array(c) for c in v]][form]
    k = {'lower': lower, 'full_sphere': full, 'back_project': back}
    X, Y = (S.equal_area if area else S.equal_angle)(*a, **k)
    X, Y = flat(np, X), flat(np, Y)
    t.claim_true(len(X) == 1 and len(Y) == 1, 'one point')
    shown(t, X[0], Y[0], v, 'point', area, lower, full, back)


@harness(modes=("py",), bounds='default options', validate=20)
def projection_defaults(t, w, np):
    """without options the lower hemisphere is shown and the upper one hidden"""
    S = sp(w)
    area = t.choose('area', 2)
    v = direction(t)
    X, Y = (S.equal_area if area else S.equal_angle)(*v)
    shown(t, flat(np, X)[0], flat(np, Y)[0], v, 'point', area, True, False, False)


@harness(modes=("py",), bounds='three vectors in one call, flat or as a row or a column', validate=40, max_paths=6000, weight=2)
def projections(t, w, np):
    """each vector of an array is projected by itself, and the input is left alone"""
    S = sp(w)
    area, lower, full, back = options(t)
    a = t.real('az', lo=0, hi=2 * t.pi, hi_open=True)
    b = t.real('toa', lo=0, hi=t.pi, lo_open=True, hi_open=True)
    if not t.symbolic:
        t.assume(abs(b - t.pi / 2) > 1e-9)
        t.assume(1e-4 < b < t.pi - 1e-4)
    v = [t.sin(b) * t.cos(a), t.sin(b) * t.sin(a), t.cos(b)]
    vs = [[0.6, 0.0, 0.8], v, [0.0, 0.8, -0.6]]
    j = t.choose('place', 3)
    vs = vs[j:] + vs[:j]
    form = t.choose('form', 3)
    shape = [(3,), (1, 3), (3, 1)][form]
    arr = [np.array([u[i] for u in vs]).reshape(shape) for i in range(3)]
    X, Y = (S.equal_area if area else S.equal_angle)(*arr, lower=lower, full_sphere=full, back_project=back)
    t.claim_true(tuple(X.shape) == shape and tuple(Y.shape) == shape, 'shape')
    X, Y = flat(np, X), flat(np, Y)
    for i in range(3):
        shown(t, X[i], Y[i], [t.lift(c) for c in vs[i]], 'point %d' % i, area, lower, full, back)
        for c in range(3):
            t.claim_eq(flat(np, arr[c])[i], vs[i][c], 'input unchanged', tol=0)


# -- container -------------------------------------------------------------------------

ROWS = ('gamma', 'delta', 'kappa', 'h', 'sigma', 'u', 'v', 'tau', 'k', 'strike', 'dip', 'rake', 'strike2', 'dip2', 'rake2')
AXES = ('T', 'N', 'P', 'E', 'N1', 'N2')


def vectors(t, np, n, tag='m'):
    return [[t.real('%s%d_%d' % (tag, i, j), lo=-1, hi=1) for i in range(6)] for j in range(n)]


def matrix(np, cols):
    return np.array([[c[i] for c in cols] for i in range(len(cols[0]))])


def weights(t, n, **k):
    return [t.real('p%d' % j, lo=0, hi=50, **k) for j in range(n)]


def same(t, got, want, name):
    t.claim_true(len(got) == len(want), name + ': length')
    if len(got) == len(want) and len(want):
        t.claim_true(all_of([t.lift(a) == t.lift(b) for a, b in zip(got, want)]), name)


def columns_are(t, np, M, want, name):
    t.claim_true(tuple(M.shape) == (6, len(want)), name + ': shape')
    for j, c in enumerate(want):
        t.claim_true(all_of([t.lift(M[i, j]) == t.lift(c[i]) for i in range(6)]), '%s: sample %d' % (name, j))


def selections(np, n):
    last = n - 1
    return [(slice(0, 2), list(range(n))[0:2]), (slice(None, None, -1), list(range(n))[::-1]), (slice(1, None), list(range(n))[1:]),
            (slice(None, None, 2), list(range(n))[::2]),
            ([last, 0, last], [last, 0, last]), (np.array([1, 0]), [1, 0]), (np.array([True] + [False] * (n - 2) + [True]), [0, last]),
            (np.array([False] * (n - 1) + [True]), [last]), ([-1], [last]), (np.array([], dtype=int) if n < 0 else slice(None), list(range(n)))]


def tagged(t, n, names, rows=()):
    """converted parameters handed to the container: one value (or axis) per sample"""
    k = {}
    for a in names:
        k[a] = [t.real('%s_%d' % (a, j), lo=-3, hi=3) for j in range(n)]
    return k


@harness(modes=("py",), bounds='3 and 4 samples, every kind of column selection (slices, steps, reversed, integer lists with repeats, masks); probabilities and converted parameters given', validate=60)
def indexing(t, w, np):
    """a selection keeps the tensors, probabilities and converted parameters of the selected samples"""
    P = pl(w)
    pick, kind = t.choose('sel', 10), t.choose('par', 6)
    n = 3 + (pick + kind) % 2
    m = vectors(t, np, n)
    p = weights(t, n) if t.choose('p', 2) else None
    par = [('gamma', 'strike2'), ('delta', 'h', 'rake'), ('u', 'v', 'kappa'), ('tau', 'k', 'sigma'), ('strike', 'dip', 'dip2', 'rake2'), ('h', 'gamma')][kind]
    vals = tagged(t, n, par)
    axis = AXES[kind]
    ax = [[t.real('ax%d_%d' % (i, j), lo=-1, hi=1) for i in range(3)] for j in range(n)]
    k = {a: np.array(x) for a, x in vals.items()}
    k[axis] = np.array([[c[i] for c in ax] for i in range(3)])
    if p is not None:
        d = P.MTData(matrix(np, m), np.array(p), **k)
    else:
        d = P.MTData(matrix(np, m), **k)
    t.claim_true(len(d) == n, 'length')
    sel, idx = selections(np, n)[pick]
    e = d[:, sel]
    check_selection(t, np, e, m, p, vals, axis, ax, idx)
    # and once more
    if (pick + kind) % 3 == 0 and len(idx) > 1:
        f = e[:, [1, 0]]
        check_selection(t, np, f, m, p, vals, axis, ax, [idx[1], idx[0]])
    # the container it came from is unchanged
    check_selection(t, np, d, m, p, vals, axis, ax, list(range(n)))


def check_selection(t, np, e, m, p, vals, axis, ax, idx):
    columns_are(t, np, e.MTs, [m[j] for j in idx], 'tensors')
    t.claim_true(len(e) == len(idx), 'length of the selection')
    if p is None:
        t.claim_true(len(e.probability) == 0, 'no probability')
    else:
        same(t, flat(np, e.probability), [p[j] for j in idx], 'probability')
    for a, x in vals.items():
        same(t, flat(np, getattr(e, a)), [x[j] for j in idx], a)
    A = getattr(e, axis)
    t.claim_true(tuple(A.shape) == (3, len(idx)), axis + ': shape')
    for i in range(3):
        same(t, flat(np, A[i, :]), [ax[j][i] for j in idx], axis)


@harness(modes=("py",), bounds='3 samples, one selected by its number', validate=30)
def one_sample(t, w, np):
    """selecting one sample by number gives that sample with its probability and parameters"""
    P = pl(w)
    n = 3
    m, p = vectors(t, np, n), weights(t, n)
    vals = tagged(t, n, ('gamma', 'strike', 'h'))
    d = P.MTData(matrix(np, m), p, **{a: np.array(x) for a, x in vals.items()})
    j = t.choose('which', 4) - 1
    e = d[:, j]
    columns_are(t, np, e.MTs, [m[j]], 'tensor')
    same(t, flat(np, e.probability), [p[j]], 'probability')
    for a in vals:
        same(t, flat(np, np.array(getattr(e, a))), [vals[a][j]], a)
    for i, name in enumerate(('xx', 'yy', 'zz', 'xy', 'xz', 'yz')):
        same(t, flat(np, getattr(d, name)), [c[i] for c in m], name)


@harness(modes=("py",), bounds='containers of a single sample', validate=30)
def single(t, w, np):
    """a container with one sample keeps its probability under selection, and that sample is the maximum"""
    P = pl(w)
    m, p = vectors(t, np, 1), weights(t, 1, lo_open=True)
    d = P.MTData(matrix(np, m), [np.array(p), p, p[0]][t.choose('given', 3)], gamma=np.array([t.real('g')]))
    for e in (d, d[:, [0]], d[:, np.array([True])], d.get_max_probability(), d.max_probability):
        columns_are(t, np, e.MTs, m, 'tensor')
        same(t, flat(np, e.probability), p, 'probability')
        t.claim_eq(flat(np, e.gamma)[0], d.gamma[0], 'gamma', tol=0)


@harness(modes=("py",), bounds='six-vectors as columns, rows, one vector, lists, a matrix; 3x3 tensors one, three and six at a time', validate=40)
def layouts(t, w, np):
    """however the tensors are given they become the columns, in order"""
    P, C = pl(w), conv(w)
    k = t.choose('layout', 8)
    n = [3, 3, 1, 3, 2, 1, 3, 6][k]
    if k < 5:
        m = vectors(t, np, n)
        M = matrix(np, m)
        d = P.MTData([M, M.T, np.array(m[0]), [[c[i] for c in m] for i in range(6)], np.matrix(M) if k == 4 else None][k])
        columns_are(t, np, np.array(d.MTs), m, 'tensors')
        return
    m = [[0.0, 0.0, 0.0, 0.6, 0.0, 0.8], [0.48, 0.64, 0.0, 0.0, 0.6, 0.0], [0.6, -0.8, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
         [0.8, 0.0, 0.0, 0.0, 0.0, -0.6], [0.0, 0.0, 0.28, 0.96, 0.0, 0.0]][:n]
    j = t.choose('free', n)
    a = t.real('a', lo=0, hi=2 * t.pi)
    m[j] = [t.cos(a), 0.0, 0.0, 0.0, t.sin(a), 0.0]
    m33 = [C.MT6_MT33(np.array(c)) for c in m]
    d = P.MTData(m33[0] if k == 5 else np.array([[[x[i, q] for q in range(3)] for i in range(3)] for x in m33]))
    t.claim_true(len(d) == n, 'number of tensors')
    if len(d) == n:
        for q, c in enumerate(m):
            for i in range(6):
                t.claim_eq(d.MTs[i, q], c[i], 'component')


@harness(modes=("py",), bounds='3 samples (4 thorough), any non-negative probabilities, not all zero, or none', validate=40)
def mean(t, w, np):
    """the mean is the probability-weighted mean six-vector"""
    P = pl(w)
    n = 4 if t.tier == 'thorough' else 3
    m = vectors(t, np, n)
    weighted = t.choose('weighted', 2)
    p = weights(t, n) if weighted else [t.lift(1.0)] * n
    s = sum(p[1:], p[0])
    t.assume(1e-3 <= s)
    t.assume(1e-6 <= s * s - sum([q * q for q in p[1:]], p[0] * p[0]))
    d = P.MTData(matrix(np, m), np.array(p)) if weighted else P.MTData(matrix(np, m))
    if t.choose('by', 2):
        r = flat(np, d.get_mean()[0])
    else:
        r = flat(np, d.mean)
    t.claim_true(len(r) == 6, 'six-vector')
    for i in range(6):
        t.claim_eq(r[i] * s, sum([p[j] * m[j][i] for j in range(1, n)], p[0] * m[0][i]), 'mean')
    r = flat(np, d.mean)
    for i in range(6):
        t.claim_eq(r[i] * s, sum([p[j] * m[j][i] for j in range(1, n)], p[0] * m[0][i]), 'stored mean')


@harness(modes=("py",), bounds='3 samples (4 thorough), any non-negative probabilities with ties', validate=60)
def maximum(t, w, np):
    """exactly the samples attaining the maximum probability, with their parameters, in order"""
    P = pl(w)
    n = 4 if t.tier == 'thorough' else 3
    m = vectors(t, np, n)
    p = [t.real('p%d' % j, lo=0, hi=50, dist=lambda r: r.choice([0.0, 1.0, 2.5, 2.5])) for j in range(n)]
    g = [t.real('g%d' % j) for j in range(n)]
    d = P.MTData(matrix(np, m), p, gamma=np.array(g))
    if t.choose('by', 2):
        e = d.max_probability
    else:
        e = d.get_max_probability()
    best = []
    for j in range(n):
        if all(p[j] >= q for q in p):
            best.append(j)
    columns_are(t, np, e.MTs, [m[j] for j in best], 'maximum')
    same(t, flat(np, e.probability), [p[j] for j in best], 'probability')
    same(t, flat(np, e.gamma), [g[j] for j in best], 'gamma')
    f = d.get_max_probability(True)
    columns_are(t, np, f.MTs, [m[best[0]]], 'single maximum')
    same(t, flat(np, f.probability), [p[best[0]]], 'single probability')


def unique_of(t, w, np, m, par):
    P = pl(w)
    n = len(m)
    p = bool(t.lift(m[0][5]) > m[-1][5])
    k = {a: np.array([v[j] for j in range(n)]) for a, v in par.items()}
    d = P.MTData(matrix(np, m), np.array([1.0 + j for j in range(n)]), **k) if p else P.MTData(matrix(np, m), **k)
    u = d.get_unique_McMC()
    c = flat(np, u.probability)
    t.claim_true(len(c) == len(u), 'one count per tensor')
    t.claim_eq(sum(c[1:], c[0]), n, 'counts add up to the chain length', tol=0)
    t.claim_true(u.MTs.shape[0] == 6, 'six-vectors')
    left = []
    for j in range(n):
        hit = []
        for q in range(len(u)):
            if all(bool(t.lift(u.MTs[i, q]) == m[j][i]) for i in range(6)):
                hit.append(q)
        t.claim_true(len(hit) == 1, 'each sample is there once')
        left.append(hit[0] if hit else None)
    for q in range(len(u)):
        t.claim_eq(c[q], left.count(q), 'count', tol=0)
        if q in left:
            for a in par:
                t.claim_eq(flat(np, getattr(u, a))[q], par[a][left.index(q)], a + ' of the kept tensor', tol=0)
    columns_are(t, np, d.MTs, m, 'chain unchanged')


@harness(modes=("py",), bounds='chains of 4 states (5 thorough) that differ in one component, any equalities', validate=60)
def unique_states(t, w, np):
    """each distinct tensor once, with its count"""
    n = 5 if t.tier == 'thorough' else 4
    row = t.choose('row', 6) if t.tier == 'thorough' else [0, 3, 5][t.choose('row', 3)]
    v = [t.real('a%d' % j, lo=-1, hi=1, dist=lambda r: r.choice([-0.5, 0.25, 0.75])) for j in range(n)]
    m = [[0.3] * row + [x] + [0.1 * i for i in range(5 - row)] for x in v]
    unique_of(t, w, np, m, {'gamma': [2 * x + 1 for x in v]})


@harness(modes=("py",), bounds='chains of 2 states (3 thorough), all components free', validate=60)
def unique_free(t, w, np):
    """each distinct tensor once, with its count"""
    n = 3 if t.tier == 'thorough' else 2
    m = [[t.real('a%d_%d' % (i, j), lo=-1, hi=1, dist=lambda r: r.choice([-0.5, 0.5])) for i in range(6)] for j in range(n)]
    unique_of(t, w, np, m, {'h': [c[0] + 2 * c[1] + 4 * c[2] + 8 * c[3] + 16 * c[4] + 32 * c[5] for c in m]})


@harness(modes=("py",), bounds='result dictionaries of 3 samples with and without converted parameters, present and former key names', validate=20)
def result_dictionary(t, w, np):
    """a result dictionary keeps its tensors, probabilities and parameters under their names"""
    P = pl(w)
    n = 3
    m, p = vectors(t, np, n), weights(t, n)
    old = t.choose('old', 2)
    names = {'g': 'gamma', 'd': 'delta', 'k': 'kappa', 'h': 'h', 's': 'sigma', 'u': 'u', 'v': 'v', 'S1': 'strike', 'D1': 'dip', 'R1': 'rake',
             'S2': 'strike2', 'D2': 'dip2', 'R2': 'rake2'}
    val = {c: [t.real('%s%d' % (c, j)) for j in range(n)] for c in names} if t.choose('converted', 2) else {}
    r = {'MTSpace' if old else 'moment_tensor_space': matrix(np, m), 'Probability' if old else 'probability': np.array(p),
         'NSamples' if old else 'total_number_samples': 1000}
    for c in val:
        r[c] = np.array(val[c])
    d = P.MTData(r)
    for e, idx in ((d, [0, 1, 2]), (d[:, [2, 1]], [2, 1])):
        columns_are(t, np, e.MTs, [m[j] for j in idx], 'tensors')
        same(t, flat(np, e.probability), [p[j] for j in idx], 'probability')
        for c in val:
            same(t, flat(np, getattr(e, names[c])), [val[c][j] for j in idx], names[c])
        if val:
            for a, b in (('strike1', 'strike'), ('dip1', 'dip'), ('rake1', 'rake')):
                same(t, flat(np, getattr(e, a)), flat(np, getattr(e, b)), a)


# -- derived parameters ----------------------------------------------------------------

def standalone(t, C, np, x):
    """the parameters by the conversion functions, one tensor at a time"""
    out = {}
    T, N, P, E = C.MT6_TNPE(x)
    out['T'], out['N'], out['P'], out['E'] = [vec(np, v) for v in (T, N, P)] + [flat(np, E)]
    one = lambda v: flat(np, np.array(v))[0]
    o = C.output_convert(x)
    deg = t.pi / 180
    for a, c in (('gamma', 'g'), ('delta', 'd'), ('kappa', 'k'), ('h', 'h'), ('sigma', 's'), ('u', 'u'), ('v', 'v')):
        out[a] = one(o[c])
    for a, c in (('strike', 'S1'), ('dip', 'D1'), ('rake', 'R1'), ('strike2', 'S2'), ('dip2', 'D2'), ('rake2', 'R2')):
        out[a] = one(o[c])
    tau, k = C.E_tk(E)
    out['tau'], out['k'] = one(tau), one(k)
    n1, n2 = C.TP_FP(T, P)
    out['N1'], out['N2'] = vec(np, n1), vec(np, n2)
    return out


ORDERS = (('kappa', 'strike', 'T'), ('strike2', 'E', 'sigma'), ('h', 'dip1', 'rake2'), ('T', 'N1', 'strike1'), ('dip2', 'rake1', 'N2'))


def derives(t, w, np, m, names, order):
    """the container's parameters for each tensor against the conversions of that tensor alone"""
    P, C = pl(w), conv(w)
    n = len(m)
    d = P.MTData(matrix(np, m))
    for a in order:
        getattr(d, a)
    alone = [standalone(t, C, np, np.array([[v] for v in c])) for c in m]
    both = [(d, list(range(n)))]
    if n > 1:
        both.append((d[:, [n - 1]], [n - 1]))
    for e, idx in both:
        for a in names:
            for q, j in enumerate(idx):
                if a in AXES:
                    t.claim_true(tuple(getattr(e, a).shape) == (3, len(idx)), a + ' shape')
                    for i in range(3):
                        t.claim_eq(getattr(e, a)[i, q], alone[j][a][i], a)
                else:
                    v = flat(np, np.array(getattr(e, a)))
                    t.claim_true(len(v) == len(idx), a + ': one per tensor')
                    if a in ('strike', 'strike2'):
                        t.claim_angle_eq(v[q] * (t.pi / 180), alone[j][a] * (t.pi / 180), a)
                    elif a == 'kappa':
                        t.claim_angle_eq(v[q], alone[j][a], a)
                    else:
                        t.claim_eq(v[q], alone[j][a], a)
    for a in ('strike', 'dip', 'rake'):
        if a in names:
            same(t, flat(np, np.array(getattr(d, a + '1'))), flat(np, np.array(getattr(d, a))), a + '1')


FIXED = ((3, 1, -2), 0.7, 0.9, 0.4)


def second(t, np):
    """a tensor with exactly known axes"""
    e = [4 / t.sqrt(21), -1 / t.sqrt(21), -2 / t.sqrt(21)]
    return registered(t, np, e, *frame(t, t.pi / 6, t.pi / 3, -t.pi / 4), signs=False)


@harness(bounds='orientation of one tensor symbolic (planes at least 1e-6 from horizontal), another fixed, parameters asked for in several orders', validate=20, time_s=400)
def derived_orientation(t, w, np):
    """angles and axes agree with the stand-alone conversions"""
    o = t.choose('order', len(ORDERS))
    order = ORDERS[o]
    k, dip, s = generic(t)
    e = [3 / t.sqrt(14), 1 / t.sqrt(14), -2 / t.sqrt(14)]
    m = [registered(t, np, e, *frame(t, k, dip, s), signs=False)]
    if o % 2 if t.tier == 'quick' else t.choose('n', 2):
        m.append(second(t, np))
    derives(t, w, np, m, ('strike', 'dip', 'rake', 'strike2', 'dip2', 'rake2', 'kappa', 'h', 'sigma', 'T', 'N', 'P', 'N1', 'N2'), order)


@harness(bounds='any eigenvalues of one tensor, orientation fixed, another tensor fixed', validate=20, time_s=400)
def derived_lune(t, w, np):
    """gamma, delta, tau, k, u, v and the eigenvalues agree with the stand-alone conversions"""
    e = [t.real('e%d' % i, lo=-1, hi=1) for i in range(3)]
    t.assume(e[1] + 1e-3 <= e[0])
    t.assume(e[2] + 1e-3 <= e[1])
    order = t.choose('order', 3)
    n = order % 2 if t.tier == 'quick' else t.choose('n', 2)
    m = [registered(t, np, e, *frame(t, t.pi / 3, t.pi / 4, t.pi / 6), signs=False)]
    if n:
        m.append(second(t, np))
    derives(t, w, np, m, ('gamma', 'delta', 'tau', 'k', 'u', 'v', 'E'), (('gamma', 'u'), ('v', 'E'), ('tau', 'delta'))[order])
