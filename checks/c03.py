"""C03: amplitude-ratio likelihood

Oracle.  The density of |X/Y| at r>0 is I(r)+I(-r), I(z) = int |y| N(zy; mx, sx) N(y; my, sy) dy.  With
q(y) = A y^2 - 2 B y + C, A = z^2/sx^2+1/sy^2, B = mx z/sx^2+my/sy^2, C = mx^2/sx^2+my^2/sy^2 the integrand is |y| exp(-q/2)/(2 pi sx sy) and
F(y) = -exp(-q/2)/A + B/A * sqrt(pi/(2A)) exp(-(C-B^2/A)/2) erf((A y - B)/sqrt(2A)) is an antiderivative of y exp(-q/2) (harness
oracle_antiderivative), so I(z) = (F(inf)+F(-inf)-2F(0))/(2 pi sx sy).  It is a density in z by Fubini, hence integrates to one.
"""
from symx.harness import harness
from .common import prob, coeffs, mt6, dot6, INF

ASSUMPTIONS = ['fractional uncertainties > 0 (>= 1e-5 in the range harnesses), observed ratio r > 0',
               'sizes: 1-2 stations, 1-2 location samples, 1-2 sources',
               'integral over r equals one: follows from equality with the defining integral by exchanging the order of integration (not re-derived by the solver)']
PRELOAD = ['MTfit.probability.probability']
OUTSIDE = 'cancellation error in b^2-ca^2 for uncertainties near 1e-5 (bounded only by the concrete validation runs)'


def I(t, z, mx, my, sx, sy):
    A = z * z / (sx * sx) + 1 / (sy * sy)
    B = mx * z / (sx * sx) + my / (sy * sy)
    C = mx * mx / (sx * sx) + my * my / (sy * sy)
    rA = t.sqrt(A)
    # F(inf)+F(-inf) = 0
    mF0 = t.exp(-C / 2) / A + B / A * t.sqrt(t.pi / 2) / rA * t.exp(-(C - B * B / A) / 2) * t.erf(B / (t.sqrt(2) * rA))
    return 2 * mF0 / (2 * t.pi * sx * sy)


def dens(t, r, mx, my, px, py):
    mx, my = t.abs(mx), t.abs(my)
    sx, sy = px * mx, py * my
    return I(t, r, mx, my, sx, sy) + I(t, -r, mx, my, sx, sy)


def pos(t, n, lo=0, **k):
    k.setdefault('special', (0.1, 1, 1e-2))
    return t.real(n, lo=lo, lo_open=(lo == 0), **k)


def axes(np, nu=1):
    """X amplitude is m[0], Y amplitude is m[1] (plus other components that do not matter)"""
    ax = np.array([[[1.0, 0, 0, 0, 0, 0]] for _ in range(nu)])
    ay = np.array([[[0, 1.0, 0, 0, 0, 0]] for _ in range(nu)])
    return ax, ay


def one(t, w, np, r, mx, my, px, py):
    P = prob(w)
    ax, ay = axes(np)
    m = np.array([[mx], [my], [0.0], [0.0], [0.0], [0.0]])
    return np.asarray(P.amplitude_ratio_ln_pdf(np.array([r]), m, ax, ay, np.array([px]), np.array([py])))[0, 0]


@harness(modes=('py',), bounds='exact symbolic differentiation')
def oracle_antiderivative(t, w, np):
    """the oracle's antiderivative is right: dF/dy = y exp(-q(y)/2), for symbolic A>0, B, C"""
    import sympy as sp
    A = sp.Symbol('A', positive=True)
    y, B, C = sp.symbols('y B C', real=True)
    q = A * y ** 2 - 2 * B * y + C
    F = -sp.exp(-q / 2) / A + B / A * sp.sqrt(sp.pi / (2 * A)) * sp.exp(-(C - B ** 2 / A) / 2) * sp.erf((A * y - B) / sp.sqrt(2 * A))
    d = sp.simplify((sp.diff(F, y) - y * sp.exp(-q / 2)) * sp.exp(q / 2))
    t.claim_true(d == 0, 'antiderivative')


@harness(bounds='1 station, any amplitudes != 0, r>0, fractional errors > 0', validate=20, abs_fork=True)
def density(t, w, np):
    """exp(amplitude_ratio_ln_pdf) equals the defining integral for |X/Y|"""
    r = pos(t, 'r')
    px, py = pos(t, 'px'), pos(t, 'py')
    mx, my = t.real('mx', nonzero=True), t.real('my', nonzero=True)
    v = one(t, w, np, r, mx, my, px, py)
    t.claim_not_nan(v, 'not NaN')
    t.claim_eq(t.exp(v), dens(t, r, mx, my, px, py), 'density')


@harness(bounds='1 station, any amplitudes != 0')
def density_sign(t, w, np):
    """only the magnitudes of the modelled amplitudes matter"""
    r = pos(t, 'r')
    px, py = pos(t, 'px'), pos(t, 'py')
    mx, my = t.real('mx', nonzero=True), t.real('my', nonzero=True)
    v = t.exp(one(t, w, np, r, mx, my, px, py))
    t.claim_eq(t.exp(one(t, w, np, r, -mx, my, px, py)), v, 'numerator sign')
    t.claim_eq(t.exp(one(t, w, np, r, mx, -my, px, py)), v, 'denominator sign')
    t.claim_eq(t.exp(one(t, w, np, r, -mx, -my, px, py)), v, 'both signs')


@harness(bounds='1 station; reciprocal observation')
def density_reciprocal(t, w, np):
    """p_{X/Y}(r) = p_{Y/X}(1/r)/r^2"""
    r = pos(t, 'r')
    px, py = pos(t, 'px'), pos(t, 'py')
    mx, my = pos(t, 'mx'), pos(t, 'my')
    t.claim_eq(t.exp(one(t, w, np, r, mx, my, px, py)) * r * r, t.exp(one(t, w, np, 1 / r, my, mx, py, px)), 'reciprocal')


@harness(bounds='1 station')
def density_nonneg(t, w, np):
    """non-negative"""
    r = pos(t, 'r')
    px, py = pos(t, 'px'), pos(t, 'py')
    mx, my = pos(t, 'mx'), pos(t, 'my')
    t.claim_le(0, t.exp(one(t, w, np, r, mx, my, px, py)), 'non-negative')


@harness(bounds='scalar and array arguments of ratio_pdf, both signs of z; independent means and standard deviations', validate=20)
def ratio_pdf_scalar(t, w, np):
    """ratio_pdf(z, mx, my, sx, sy) equals the defining integral"""
    P = prob(w)
    z, mx, my = t.real('z'), t.real('mx'), t.real('my')
    sx, sy = pos(t, 'sx'), pos(t, 'sy')
    t.claim_eq(P.ratio_pdf(z, mx, my, sx, sy), I(t, z, mx, my, sx, sy), 'scalar')


@harness(bounds='arrays of 2')
def ratio_pdf_array(t, w, np):
    """ratio_pdf on arrays is elementwise"""
    P = prob(w)
    z = [t.real('z%d' % i) for i in range(2)]
    mx = [t.real('mx%d' % i) for i in range(2)]
    my = [t.real('my%d' % i) for i in range(2)]
    sx = [pos(t, 'sx%d' % i) for i in range(2)]
    sy = [pos(t, 'sy%d' % i) for i in range(2)]
    r = P.ratio_pdf(np.array(z), np.array(mx), np.array(my), np.array(sx), np.array(sy))
    for i in range(2):
        t.claim_eq(r[i], I(t, z[i], mx[i], my[i], sx[i], sy[i]), 'element %d' % i)


def alignment(t, w, np, nu, nv, nm):
    """every station/location/source combination uses its own coefficients, ratio and errors"""
    P = prob(w)
    r = [pos(t, 'r%d' % u) for u in range(nu)]
    px = [pos(t, 'px%d' % u) for u in range(nu)]
    py = [pos(t, 'py%d' % u) for u in range(nu)]
    ax, ay = np.zeros((nu, nv, 6)) * 1.0, np.zeros((nu, nv, 6)) * 1.0
    cx = [[pos(t, 'ax%d%d' % (u, v), special=(0.5, 1)) for v in range(nv)] for u in range(nu)]
    cy = [[pos(t, 'ay%d%d' % (u, v), special=(0.5, 1)) for v in range(nv)] for u in range(nu)]
    ax = np.array([[[cx[u][v], 0.0, 0.0, 0.0, 0.0, 0.0] for v in range(nv)] for u in range(nu)])
    ay = np.array([[[0.0, 0.0, 0.0, cy[u][v], 0.0, 0.0] for v in range(nv)] for u in range(nu)])
    mx = [pos(t, 'mx%d' % j, special=(0.5, 1)) for j in range(nm)]
    my = [pos(t, 'my%d' % j, special=(0.5, 1)) for j in range(nm)]
    m = np.array([mx, [0.0] * nm, [0.0] * nm, my, [0.0] * nm, [0.0] * nm])
    res = np.asarray(P.amplitude_ratio_ln_pdf(np.array(r), m, ax, ay, np.array(px), np.array(py)))
    t.claim_true(tuple(res.shape) == (nv, nm), 'shape')
    for v in range(nv):
        for j in range(nm):
            want = t.lift(1.0)
            for u in range(nu):
                want = want * dens(t, r[u], cx[u][v] * mx[j], cy[u][v] * my[j], px[u], py[u])
            t.claim_eq(t.exp(res[v, j]), want, 'product over stations [%d,%d]' % (v, j))


@harness(bounds='2 stations, 1 location, 1 source')
def alignment_stations(t, w, np):
    """the likelihood is the product over stations"""
    alignment(t, w, np, 2, 1, 1)


@harness(bounds='1 station, 2 locations, 2 sources')
def alignment_locations(t, w, np):
    """locations and sources are independent"""
    alignment(t, w, np, 1, 2, 2)


@harness(bounds='2 stations, 2 locations, 2 sources', tier='thorough')
def alignment_large(t, w, np):
    """product over stations for every location and source"""
    alignment(t, w, np, 2, 2, 2)


@harness(bounds='1 station; the numerator amplitude is component k, the denominator component k+1 (mod 6), all six k')
def amplitude_dot(t, w, np):
    """each of the six coefficients multiplies its own tensor component"""
    P = prob(w)
    k = t.choose('k', 6)
    r, px, py = pos(t, 'r'), pos(t, 'px'), pos(t, 'py')
    c, d = pos(t, 'c'), pos(t, 'd')
    m = [pos(t, 'm%d' % i) for i in range(6)]
    ax = np.array([[[c if i == k else 0.0 for i in range(6)]]])
    ay = np.array([[[d if i == (k + 1) % 6 else 0.0 for i in range(6)]]])
    v = np.asarray(P.amplitude_ratio_ln_pdf(np.array([r]), np.array([[x] for x in m]), ax, ay, np.array([px]), np.array([py])))[0, 0]
    t.claim_eq(t.exp(v), dens(t, r, c * m[k], d * m[(k + 1) % 6], px, py), 'density')


@harness(bounds='fractional uncertainties >= 1e-5, amplitudes 1e-6..1e3 in magnitude, r in 1e-6..1e6; exp/erf with the binary64 range', float_exp=True, float_erf=True, validate=60)
def finite_range(t, w, np):
    """NaN-free and below +inf for every fractional uncertainty from 1e-5"""
    r = t.real('r', lo=1e-6, hi=1e6, special=(1, 0.5, 100))
    px = t.real('px', lo=1e-5, hi=1e3, special=(1e-5, 0.1, 1))
    py = t.real('py', lo=1e-5, hi=1e3, special=(1e-5, 0.1, 1))
    mx = t.real('mx', lo=1e-6, hi=1e3, special=(1, 0.5))
    my = t.real('my', lo=1e-6, hi=1e3, special=(1, 0.5))
    v = one(t, w, np, r, mx, my, px, py)
    t.claim_not_nan(v, 'not NaN')
    t.claim_lt(v, INF, 'not +inf')


@harness(bounds='exact node: one modelled amplitude is 0')
def nodal(t, w, np):
    """a zero modelled amplitude gives zero density at r>0, never NaN"""
    r, px, py = pos(t, 'r'), pos(t, 'px'), pos(t, 'py')
    k = t.choose('which', 3)
    mx = 0.0 if k in (0, 2) else pos(t, 'mx')
    my = 0.0 if k in (1, 2) else pos(t, 'my')
    v = one(t, w, np, r, mx, my, px, py)
    t.claim_not_nan(v, 'not NaN')
    t.claim_eq(v, -INF, 'zero density')
