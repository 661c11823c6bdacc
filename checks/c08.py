"""C08: random source sampling draws from the stated prior"""
from symx.harness import harness
from .common import flat, any_of, all_of

PRELOAD = ['MTfit.probability.probability', 'MTfit.algorithms.base']
ASSUMPTIONS = ['numpy.random.randn/rand return independent N(0,1) / uniform [0,1) values (each draw is an independent symbolic input)',
               'distribution by symmetry: N(0,I) is isotropic, so M = d/|d| is uniform on the sphere and an equivariant orientation draw is uniform (Haar); '
               'uniform strike, dip cosine and slip over [0,2pi)x[0,1]x[-pi/2,pi/2] give uniform double-couple orientations']
OUTSIDE = 'parallel first draws (probability zero); models added by plug-ins; quality of the generator and its seeding'


def alg(w, n, **k):
    return w.load('MTfit.algorithms.base').BaseAlgorithm(number_samples=n, **k)


def normals(t, n, name='d'):
    import random
    return [t.real('%s%d' % (name, i), dist=lambda r: r.gauss(0, 1)) for i in range(n)]


def generic(t, d):
    """exclude degenerate vectors (a zero component is a probability-zero event)"""
    for v in d:
        t.assume(v * v > 0)
    return d


def uniforms(t, n, name='u'):
    return [t.real('%s%d' % (name, i), lo=0, hi=1, hi_open=True, dist=lambda r: r.random()) for i in range(n)]


def call(t, f, vals):
    """run f on the given draws; returns result and the kinds of draws it made of them"""
    t.preset = {k: list(v) for k, v in vals.items()} if isinstance(vals, dict) else list(vals)
    t.preset_kinds = []
    r = f()
    left = sum(len(v) for v in t.preset.values()) if isinstance(vals, dict) else len(t.preset)
    t.preset = []
    return r, list(t.preset_kinds), left


def kinds_ok(t, kinds, left, want, per):
    """the isotropy argument needs normal draws (uniform ones for the parameter draws)"""
    if set(kinds) - {want}:
        if set(kinds) == {'rand'} and want == 'randn':
            t.fail('vector components are drawn from a uniform distribution')
        from symx.core import Unsupported
        raise Unsupported('draws of kind %s' % sorted(set(kinds)))
    if left:
        from symx.core import Unsupported
        raise Unsupported('%d draws unused' % left)


def norm2(v):
    s = v[0] * v[0]
    for x in v[1:]:
        s = s + x * x
    return s


def cols(np, m):
    m = np.asarray(m)
    return [[m[i, j] for i in range(6)] for j in range(m.shape[1])]


def mat(t, m):
    q = 1 / t.sqrt(2)
    return [[m[0], m[3] * q, m[4] * q], [m[3] * q, m[1], m[5] * q], [m[4] * q, m[5] * q, m[2]]]


def det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def rotated(t, R, v):
    return [R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2] for i in range(3)]


def rotation(t):
    """generators of SO(3): any rotation about the vertical, and the cyclic exchange of the axes"""
    if t.choose('rotation', 2):
        return [[0, 1, 0], [0, 0, 1], [1, 0, 0]]
    a = t.real('phi', lo=0, hi=2 * t.pi)
    c, s = t.cos(a), t.sin(a)
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def conj(R, M):
    return [[sum_(R[i][k] * M[k][l] * R[j][l] for k in range(3) for l in range(3)) for j in range(3)] for i in range(3)]


def sum_(g):
    r = 0
    for x in g:
        r = r + x
    return r


@harness(bounds='one sample, every draw')
def mt_sphere(t, w, np):
    """full moment tensors are normal six-vectors divided by their length"""
    d = normals(t, 6)
    t.assume(norm2(d) > 0)
    m, k, left = call(t, alg(w, 1).random_mt, d)
    kinds_ok(t, k, left, 'randn', 6)
    m = np.asarray(m)
    t.claim_true(m.shape == (6, 1), 'shape')
    t.claim_eq(norm2(list(m[:, 0])), 1, 'unit norm')
    n = t.sqrt(norm2(d))
    t.claim_true(any_of([all_of([(m[i, 0] * n == s * d[i]) for i in range(6)]) for s in (1, -1)]) if t.symbolic else
                 any(all(abs(m[i, 0] * n - s * d[i]) < 1e-9 for i in range(6)) for s in (1, -1)), 'direction of the normal vector')


@harness(bounds='two samples, each draw changed in turn')
def mt_independent(t, w, np):
    """each sample depends on its own draws only, and has unit norm"""
    independent(t, np, alg(w, 2).random_sample, 12, 'randn')


def nonparallel(t, d):
    """two pairs of vectors out of twelve draws, in either storage order, are not parallel"""
    for j in range(2):
        for a, x in (([d[j], d[2 + j], d[4 + j]], [d[6 + j], d[8 + j], d[10 + j]]), (d[3 * j:3 * j + 3], d[6 + 3 * j:9 + 3 * j])):
            t.assume(norm2([a[1] * x[2] - a[2] * x[1], a[2] * x[0] - a[0] * x[2], a[0] * x[1] - a[1] * x[0]]) > 0)


def independent(t, np, f, n, kind):
    d = generic(t, normals(t, n)) if kind == 'randn' else uniforms(t, n)
    i = t.choose('changed', n)
    x = t.real('other', dist=lambda r: r.gauss(0, 1)) if kind == 'randn' else t.real('other', lo=0, hi=1, hi_open=True)
    t.assume(x * x > 0)
    d2 = list(d)
    d2[i] = x
    if n == 12:
        nonparallel(t, d)
        nonparallel(t, d2)
    m, k, left = call(t, f, d)
    kinds_ok(t, k, left, kind, n)
    m = cols(np, m)
    t.claim_true(len(m) == 2, 'number of samples')
    m2, k, left = call(t, f, d2)
    m2 = cols(np, m2)
    same = [[eq(t, a, b) for a, b in zip(p, q)] for p, q in zip(m, m2)]
    t.claim_true(any_of([all_of(s) for s in same]), 'a draw affects one sample only')


def eq(t, a, b):
    if t.symbolic:
        return a == b
    return bool(abs(a - b) < 1e-9)


@harness(bounds='requested numbers 1 to 4, every source model')
def count(t, w, np):
    """each call returns the requested number of six-vectors"""
    n = 1 + t.choose('n', 4)
    k = t.choose('model', 3)
    a = alg(w, n, dc=(k == 1))
    d = [1.5, -0.25, 0.75, 2.0, -1.25, 0.5, 0.125, -0.625]
    m = call(t, a.random_clvd if k == 2 else a.random_sample, {'randn': [d[(i * i + i // 8) % 8] for i in range(64)], 'rand': [0.25, 0.75, 0.125, 0.625] * 8})[0]
    m = np.asarray(m)
    t.claim_true(m.shape == (6, n), 'shape')


def pattern(t, np, m, d2):
    """m is a unit tensor with zero trace and the squared determinant of the source type"""
    M = mat(t, m)
    t.claim_eq(norm2(m), 1, 'unit norm')
    t.claim_eq(m[0] + m[1] + m[2], 0, 'trace')
    x = det(M)
    t.claim_eq(x * x, d2, 'determinant')


def triad(t, prefix=''):
    d = normals(t, 6, prefix or 'd')
    c = [d[1] * d[5] - d[2] * d[4], d[2] * d[3] - d[0] * d[5], d[0] * d[4] - d[1] * d[3]]
    t.assume(norm2(d[:3]) > 0)
    t.assume(norm2(c) > 0)
    return d


@harness(modes=('py',), bounds='one sample, every pair of non-parallel draws')
def triad_pattern(t, w, np):
    """double-couple orientation triads: eigenvalues (1,0,-1)/sqrt2 exactly"""
    d = triad(t)
    m, k, left = call(t, alg(w, 1, dc=True).random_sample, d)
    kinds_ok(t, k, left, 'randn', 6)
    pattern(t, np, cols(np, m)[0], 0)


@harness(bounds='one sample, both signs, every pair of non-parallel draws')
def clvd_pattern(t, w, np):
    """CLVD tensors have eigenvalues +-(2,-1,-1)/sqrt6"""
    m, k, left = call(t, alg(w, 1).random_clvd, {'randn': triad(t), 'rand': uniforms(t, 4)})
    pattern(t, np, cols(np, m)[0], t.lift(1) / 54)


@harness(bounds='one sample; rotations about the vertical and the cyclic exchange of axes')
def clvd_isotropic(t, w, np):
    """rotating the normal draws rotates the CLVD source"""
    equivariant(t, np, alg(w, 1).random_clvd, triad(t), uniforms(t, 4))


@harness(bounds='one sample: the uniform draws u and 1-u')
def clvd_signs(t, w, np):
    """both signs of the CLVD are equally likely: the complementary draw gives the opposite sign"""
    d, u = triad(t), uniforms(t, 4)
    for v in u:
        t.assume(v > 0)
        t.assume((v - 0.5) * (v - 0.5) > 0)
    f = alg(w, 1).random_clvd
    m, k, left = call(t, f, {'randn': d, 'rand': u})
    m2, k, left = call(t, f, {'randn': d, 'rand': [1 - v for v in u]})
    for a, b in zip(cols(np, m)[0], cols(np, m2)[0]):
        t.claim_eq(a, -b, 'opposite sign')


@harness(bounds='two samples, each uniform draw changed in turn')
def clvd_independent(t, w, np):
    """the sign of each CLVD sample is drawn independently"""
    f = alg(w, 2).random_clvd
    d = generic(t, normals(t, 12))
    nonparallel(t, d)
    u = uniforms(t, 4)
    for v in u:
        t.assume((v - 0.5) * (v - 0.5) > 0)
    m, k, left = call(t, f, {'randn': d, 'rand': u})
    u2 = list(u)
    i = t.choose('changed', 4)
    u2[i] = t.real('other', lo=0, hi=1, hi_open=True)
    t.assume((u2[i] - 0.5) * (u2[i] - 0.5) > 0)
    m2, k, left = call(t, f, {'randn': d, 'rand': u2})
    same = [[eq(t, a, b) for a, b in zip(p, q)] for p, q in zip(cols(np, m), cols(np, m2))]
    t.claim_true(any_of([all_of(s) for s in same]), 'a draw affects one sample only')


@harness(modes=('py',), bounds='one sample; rotations about the vertical by any angle and the cyclic exchange of axes (they generate all rotations)')
def dc_isotropic(t, w, np):
    """rotating the normal draws rotates the source: the orientation is uniform"""
    d = triad(t)
    equivariant(t, np, alg(w, 1, dc=True).random_sample, d)


def equivariant(t, np, f, d, extra=()):
    R = rotation(t)
    m, k, left = call(t, f, {'randn': d, 'rand': list(extra)})
    kinds_ok(t, [x for x in k if x != 'rand' or not extra], 0, 'randn', 6)
    d2 = rotated(t, R, d[:3]) + rotated(t, R, d[3:])
    m2, k, left = call(t, f, {'randn': d2, 'rand': list(extra)})
    A = conj(R, mat(t, cols(np, m)[0]))
    B = mat(t, cols(np, m2)[0])
    for i in range(3):
        for j in range(i + 1):
            t.claim_eq(B[i][j], A[i][j], 'rotated source %d%d' % (i, j))


@harness(modes=('c',), bounds='one sample, every draw')
def dc_angles(t, w, np):
    """the compiled generator: double-couples with uniform strike, dip cosine and slip"""
    u = uniforms(t, 3)
    m, k, left = call(t, alg(w, 1, dc=True).random_sample, u)
    kinds_ok(t, k, left, 'rand', 3)
    m = cols(np, m)[0]
    pattern(t, np, m, 0)
    opts = []
    import itertools
    for p in itertools.permutations(range(3)):
        s, kk, h = 2 * t.pi * u[p[1]], t.pi * u[p[2]] - t.pi / 2, u[p[0]]
        want = dc_six(t, s, h, kk)
        opts.append(all_of([eq(t, a, b) for a, b in zip(m, want)]))
    t.claim_true(any_of(opts), 'uniform strike, dip cosine and slip')


def dc_six(t, k, h, s):
    """double-couple of strike k, dip cosine h, rake s: n s^T + s n^T, north-east-down"""
    ck, sk, cs, ss = t.cos(k), t.sin(k), t.cos(s), t.sin(s)
    sd = t.sqrt(1 - h * h)
    n = [-sk * sd, ck * sd, -h]
    v = [ck * cs + sk * h * ss, sk * cs - ck * h * ss, -sd * ss]
    q = 1 / t.sqrt(2)
    M = [[(n[i] * v[j] + n[j] * v[i]) * q for j in range(3)] for i in range(3)]
    r = t.sqrt(2)
    return [M[0][0], M[1][1], M[2][2], r * M[0][1], r * M[0][2], r * M[1][2]]


@harness(modes=('py',), bounds='two samples, each draw changed in turn')
def dc_independent(t, w, np):
    """double-couple samples depend on their own draws only (triads)"""
    independent(t, np, alg(w, 2, dc=True).random_sample, 12, 'randn')


@harness(modes=('c',), bounds='two samples, each draw changed in turn')
def dc_independent_c(t, w, np):
    """double-couple samples depend on their own draws only (angles)"""
    independent(t, np, alg(w, 2, dc=True).random_sample, 6, 'rand')
