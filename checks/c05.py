"""C05: Markov-chain acceptance satisfies detailed balance for shifts and model jumps"""
from symx.harness import harness
from symx.core import Unsupported
from .common import INF, prob

PRELOAD = ['MTfit.probability.probability', 'MTfit.convert.moment_tensor_conversion', 'MTfit.algorithms.markov_chain_monte_carlo']
ASSUMPTIONS = ['the proposal density is the one C06 decides: Gaussians of the current widths truncated to the parameter range (strike wraps, so is symmetric)',
               'priors: 1.5 cos(3 gamma) Beta(5.745, 5.745)(delta) 1.10452 (uniform) or 3/pi^2 (flat) on the source type of the full moment tensor, 1 for the double-couple, times the model prior; orientation priors are uniform']
OUTSIDE = ('the reflect_* options; the crack-plus-double-couple chain (does not run at all); states exactly on the edge of the lune (prior zero); '
           'likelihood differences beyond the range of exp; moment-tensor states with gamma = delta = 0 exactly; more than 2 events and 2 candidates per call')
B = 5.745
NORM = 1.10452194071529090000
MAX = {'gamma': 0.2617993877991494, 'delta': 0.7853981633974483, 'kappa': 1.5707963267948966, 'h': 0.5, 'sigma': 0.7853981633974483}


def mc(w):
    return w.load('MTfit.algorithms.markov_chain_monte_carlo')


def orient(t, tag):
    return {'kappa': t.real('kappa' + tag, lo=0, hi=2 * t.pi, hi_open=True),
            'h': t.real('h' + tag, lo=0, hi=1),
            'sigma': t.real('sigma' + tag, lo=-t.pi / 2, hi=t.pi / 2)}


def state(t, tag, dc=False, edge=False):
    x = orient(t, tag)
    if dc:
        x['gamma'] = x['delta'] = 0.0
    else:
        # the two parameters are not both zero
        x['gamma'] = t.real('gamma' + tag, lo=-t.pi / 6, hi=t.pi / 6, lo_open=not edge, hi_open=not edge)
        x['delta'] = t.real('delta' + tag, lo=-t.pi / 2, hi=t.pi / 2, lo_open=not edge, hi_open=not edge)
        t.assume((x['gamma'] != 0) | (x['delta'] != 0) if t.symbolic else (x['gamma'] != 0 or x['delta'] != 0))
    return x


def widths(t, tag=''):
    """current widths of the proposals"""
    return {k: t.real('width_%s%s' % (k, tag), lo=0, hi=MAX[k], lo_open=True, dist=lambda r, k=k: r.uniform(MAX[k] / 4, MAX[k])) for k in ('gamma', 'delta', 'kappa', 'h', 'sigma')}


def Phi(t, x, mu, s):
    return (1 + t.erf((x - mu) / (s * t.sqrt(t.lift(2))))) / 2


def gauss(t, x, mu, s):
    return t.exp(-(x - mu) * (x - mu) / (2 * s * s)) / (s * t.sqrt(2 * t.pi))


def bounds(t, k):
    return {'gamma': (-t.pi / 6, t.pi / 6), 'delta': (-t.pi / 2, t.pi / 2), 'h': (0, 1), 'sigma': (-t.pi / 2, t.pi / 2)}[k]


def mass(t, k, mu, s):
    """probability of a Gaussian draw about mu falling in the range of parameter k"""
    lo, hi = bounds(t, k)
    return Phi(t, t.lift(hi), mu, s) - Phi(t, t.lift(lo), mu, s)


def q(t, x, x0, a, dc):
    """density of proposing x from x0 (strike factor left out: it is symmetric)"""
    r = 1
    for k in ('h', 'sigma') if dc else ('gamma', 'delta', 'h', 'sigma'):
        r = r * gauss(t, x[k], x0[k], a[k]) / mass(t, k, x0[k], a[k])
    return r


def q_ratio(t, x, x0, a, dc):
    """q(x0|x)/q(x|x0)"""
    r = 1
    for k in ('h', 'sigma') if dc else ('gamma', 'delta', 'h', 'sigma'):
        r = r * mass(t, k, x0[k], a[k]) / mass(t, k, x[k], a[k])
    return r


def beta_norm(t):
    import math
    if t.symbolic:
        from symx.snp import sgamma
        g = sgamma(t.lift(B))
        return sgamma(t.lift(2 * B)) / (g * g)
    return math.gamma(2 * B) / math.gamma(B) ** 2


def prior_shape(t, x, flat):
    """prior of a full moment tensor source type without its constant"""
    if flat:
        return 1
    d = (x['delta'] + t.pi / 2) / t.pi
    p = t.lift(B) - 1 if t.symbolic else B - 1
    return t.cos(3 * x['gamma']) * t.pow(d, p) * t.pow(1 - d, p)


def prior_const(t, flat):
    return 3 / (t.pi * t.pi) if flat else beta_norm(t) * 1.5 * NORM / t.pi


def balance(t, x, sg, sd):
    """density of the dimension-balancing draw"""
    r = 1
    for k, s in (('gamma', sg), ('delta', sd)):
        r = r * gauss(t, x[k], t.lift(0), s) / mass(t, k, t.lift(0), s)
    return r


def make(w, t, cls, flat=False, alpha=None, events=1, **k):
    a = getattr(mc(w), cls)(number_events=events, sampling_prior='flat_prior' if flat else 'uniform_prior', learning_length=0, **k)
    if alpha is not None:
        for i in range(events):
            (a.alpha if events == 1 else a.alpha[i]).update(alpha if events == 1 else alpha[i])
    return a


def close(t, a, b, name):
    """equal up to the rounding of tabulated constants"""
    if not t.symbolic:
        return t.claim_eq(a, b, name)
    r = t.lift(a) / t.lift(b)
    t.claim_le(r, t.lift(1 + 1e-9), name + ' (upper)')
    t.claim_le(t.lift(1 - 1e-9), r, name + ' (lower)')


def check(t, a, R, name='acceptance', exact=True):
    """a = min(1, R)"""
    a = a if not hasattr(a, 'flatten') else a.flatten()[0]
    if not t.symbolic:
        return t.claim_eq(a, min(1.0, float(R)), name)
    one = t.lift(a) == 1
    if bool(one):
        t.claim_le(t.lift(1) if exact else t.lift(1 - 1e-9), R, name + ' is 1 only when the ratio is at least 1')
    elif exact:
        t.claim_eq(a, R, name)
        t.claim_le(R, t.lift(1), name + ' at most 1')
    else:
        close(t, a, R, name)


def near(t, x0, x1, al, dc=False):
    """replays in double precision need proposals whose density does not underflow (a Gaussian draw is never 12 widths off)"""
    if not t.symbolic:
        for k in ('h', 'sigma') if dc else ('gamma', 'delta', 'h', 'sigma'):
            t.assume(abs(x1[k] - x0[k]) <= 17 * al[k])


LL = dict(lo=-300, hi=300)


def lls(t):
    return t.real('lnl0', **LL), t.real('lnl1', **LL)


SINGLE = ('MarginalisedMetropolisHastingsGaussianTape', 'IterativeMetropolisHastingsGaussianTape', 'IterativeTransDMetropolisHastingsGaussianTape')
MULTI = ('IterativeMultipleTryMetropolisHastingsGaussianTape', 'IterativeMultipleTryTransDMetropolisHastingsGaussianTape')
TRANSD = (SINGLE[2], MULTI[1])


def dc_widths(t, tag=''):
    """widths and prior of the jumps (constructor arguments)"""
    dist = lambda r: r.uniform(0.1, 0.4)
    return {'dc_sigma_g': t.real('dc_sigma_g' + tag, lo=0, hi=1, lo_open=True, dist=dist), 'dc_sigma_d': t.real('dc_sigma_d' + tag, lo=0, hi=2, lo_open=True, dist=dist),
            'dc_prior': t.real('dc_prior' + tag, lo=0, hi=1, lo_open=True, hi_open=True, dist=lambda r: r.uniform(0.05, 0.95))}


def near_zero(t, x, k):
    if not t.symbolic:
        t.assume(abs(x['gamma']) <= 17 * k['dc_sigma_g'] and abs(x['delta']) <= 17 * k['dc_sigma_d'])


def jumped(t, x, tag, up, c=False):
    """the state proposed by a jump from x, which keeps the orientation"""
    y = {n: x[n] for n in ('kappa', 'h', 'sigma')}
    if up:
        s = state(t, tag)
        y['gamma'], y['delta'] = s['gamma'], s['delta']
    else:
        y.update(gamma=0.0, delta=0.0, g0=x['gamma'], d0=x['delta'])
    return y


def jump_ratio(t, x0, x1, up, flat, k):
    """density of the jump x0 -> x1 over that of the reverse, with the priors but without the likelihoods"""
    m = x1 if up else x0
    r = prior_const(t, flat) * prior_shape(t, m, flat) * (1 - k['dc_prior']) / (balance(t, m, k['dc_sigma_g'], k['dc_sigma_d']) * k['dc_prior'])
    return r if up else 1 / r


def shift_ratio(t, x0, x1, al, dc, flat):
    r = q_ratio(t, x1, x0, al, dc)
    return r if dc else r * prior_shape(t, x1, flat) / prior_shape(t, x0, flat)


def accepted(x):
    return len(x) > 0 and all(len(u) > 0 for u in x) if isinstance(x, list) else len(x) > 0


def lnpdf(w, np, l):
    return prob(w).LnPDF(np.array([l]))


@harness(erf_diff=True, bounds='every pair of states, all widths up to their maximum')
def shift_density(t, w, np):
    """transition_pdf is the truncated Gaussian density about the current state"""
    dc = t.choose('dc', 2) == 1
    al = widths(t)
    a = make(w, t, SINGLE[1], alpha=al, dc=dc)
    x0, x1 = state(t, 'a', dc, edge=True), state(t, 'b', dc, edge=True)
    t.claim_eq(a.transition_pdf(x1, x0), q(t, x1, x0, al, dc), 'q(x1|x0)')


@harness(modes=('py',), erf_diff=True, bounds='every pair of full moment tensor states (proposals on the domain boundary included), both priors')
def shift_mt(t, w, np):
    """acceptance of a shift between full moment tensors"""
    flat = t.choose('flat', 2) == 1
    cls = SINGLE[t.choose('class', 2) * 2]
    al = widths(t)
    a = make(w, t, cls, flat=flat, alpha=al)
    x0, x1 = state(t, 'a'), state(t, 'b', edge=True)
    near(t, x0, x1, al, a.dc)
    l0, l1 = lls(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, False, False
    R = t.exp(l1 - l0) * shift_ratio(t, x0, x1, al, False, flat)
    check(t, a.acceptance(x1, l1), R)


@harness(modes=('py',), erf_diff=True, bounds='every pair of double-couple states')
def shift_dc(t, w, np):
    """acceptance of a shift between double-couples"""
    cls = SINGLE[t.choose('class', 2) * 2]
    al = widths(t)
    a = make(w, t, cls, alpha=al, dc=True)
    x0, x1 = state(t, 'a', True), state(t, 'b', True)
    near(t, x0, x1, al, a.dc)
    l0, l1 = lls(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, True, False
    check(t, a.acceptance(x1, l1), t.exp(l1 - l0) * shift_ratio(t, x0, x1, al, True, False))


@harness(modes=('py',), erf_diff=True, bounds='every jump between the models, both priors, all balancing widths and model priors')
def jump(t, w, np):
    """acceptance of a jump between the models"""
    flat = t.choose('flat', 2) == 1
    up = t.choose('up', 2) == 1
    k = dc_widths(t)
    a = make(w, t, SINGLE[2], flat=flat, dc=up, **k)
    x0 = state(t, 'a', up)
    x1 = jumped(t, x0, 'b', up)
    near_zero(t, x1 if up else x0, k)
    l0, l1 = lls(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, up, True
    check(t, a.acceptance(x1, l1, k['dc_prior']), t.exp(l1 - l0) * jump_ratio(t, x0, x1, up, flat, k))


@harness(modes=('py',), erf_diff=True, bounds='every pair of balancing parameters and all balancing widths')
def balance_density(t, w, np):
    """jump_params(x) is the density of the truncated Gaussian draw of the balancing parameters"""
    k = dc_widths(t)
    cls = TRANSD[t.choose('class', 2)]
    a = make(w, t, cls, **k)
    x = state(t, 'a')
    t.claim_eq(a.jump_params(x), balance(t, x, k['dc_sigma_g'], k['dc_sigma_d']), 'jump_params(x)')


def uniform(t, n=''):
    return t.real('u' + n, lo=0, hi=1, hi_open=True, dist=lambda r: r.random())


def proposals(t, w, np, a, xs, ls, Rs, us, start_zero=False):
    """the proposals xs (one list per event for several events) through the acceptance check with the uniform draws us:
    the first one whose draw is below its ratio is accepted"""
    t.preset = list(us)
    t.preset_kinds = []
    a.xi_1 = xs
    r = a._acceptance_check(xs, prob(w).LnPDF(np.array([ls])), False)
    used = len(t.preset_kinds)
    t.preset = []
    kinds = set(t.preset_kinds)
    if kinds - {'rand'}:
        raise Unsupported('acceptance draws of kind %s' % sorted(kinds))
    yes = accepted(r[0])
    k = len(ls)
    if yes:
        k = int(r[3])
        v = getattr(r[1], '_ln_pdf', r[1])
        t.claim_eq(v.flatten()[0] if hasattr(v, 'flatten') else v, ls[k], 'likelihood of the accepted state')
        x = [v[k] if isinstance(v, list) else v for v in xs] if a.number_events > 1 else (xs[k] if isinstance(xs, list) else xs)
        for y, z in zip(r[0] if a.number_events > 1 else [r[0]], x if a.number_events > 1 else [x]):
            for n in ('gamma', 'delta', 'kappa', 'h', 'sigma'):
                t.claim_eq(y[n], z[n], 'accepted ' + n)
    it = iter(us)
    for i in range(len(ls)):
        if i > k:
            break
        if Rs[i] is None:
            t.claim_true(i != k, 'a proposal of zero likelihood is never accepted')
            continue
        if start_zero:
            t.claim_true(i == k, 'a start of zero likelihood is left at once')
            continue
        u = next(it)
        if bool(Rs[i] >= 1):            # the draw is below 1
            t.claim_true(i == k, 'a ratio of at least one is accepted')
        elif i == k:
            t.claim_le(u, Rs[i], 'accepted only when the uniform draw is below the ratio')
        else:
            t.claim_le(Rs[i], u, 'rejected only when the uniform draw is above the ratio')
    return r


def listed(t, x):
    """what the multiple-try chain is given: a list of candidates by the compiled proposals, one candidate by the fallback"""
    return [x] if t.mode == 'c' else x


@harness(erf_diff=True, bounds='one shift between double-couples or full moment tensors, both priors; all widths', thorough={'time_s': 800})
def try_shift(t, w, np):
    """a shift through the acceptance check of the multiple-try chains"""
    dc = t.choose('dc', 2) == 1
    flat = t.choose('flat', 2) == 1 if not dc else False
    al = widths(t)
    a = make(w, t, MULTI[t.choose('class', 2)], flat=flat, alpha=al, dc=dc)
    x0, x1 = state(t, 'a', dc), state(t, 'b', dc)
    near(t, x0, x1, al, dc)
    l0, l1 = lls(t)
    u = uniform(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, dc, False
    proposals(t, w, np, a, listed(t, x1), [l1], [t.exp(l1 - l0) * shift_ratio(t, x0, x1, al, dc, flat)], [u])


@harness(erf_diff=True, bounds='one jump between the models, both priors; all balancing widths and model priors')
def try_jump(t, w, np):
    """a jump through the acceptance check of the multiple-try chain"""
    flat = t.choose('flat', 2) == 1
    up = t.choose('up', 2) == 1
    k = dc_widths(t)
    a = make(w, t, MULTI[1], flat=flat, dc=up, **k)
    x0 = state(t, 'a', up)
    x1 = jumped(t, x0, 'b', up)
    near_zero(t, x1 if up else x0, k)
    l0, l1 = lls(t)
    u = uniform(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, up, True
    proposals(t, w, np, a, listed(t, x1), [l1], [t.exp(l1 - l0) * jump_ratio(t, x0, x1, up, flat, k)], [u])


@harness(erf_diff=True, bounds='a double-couple state reached by a jump, then one shift')
def try_after_jump(t, w, np):
    """a shift of the double-couple state left by an accepted jump (which remembers the previous source type)"""
    al = widths(t)
    a = make(w, t, MULTI[1], alpha=al, dc=True)
    m = state(t, 'm')
    x0, x1 = jumped(t, m, 'a', False), state(t, 'b', True)
    near(t, x0, x1, al, True)
    l0, l1 = lls(t)
    u = uniform(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l0, True, False
    proposals(t, w, np, a, listed(t, x1), [l1], [t.exp(l1 - l0) * shift_ratio(t, x0, x1, al, True, False)], [u])


@harness(modes=('c',), erf_diff=True, bounds='two candidates, double-couple shifts or one shift and one jump')
def try_two(t, w, np):
    """the candidates of the multiple-try chain are taken in turn from the same state"""
    second = t.choose('jump', 2) == 1
    flat = True
    al = widths(t)
    k = dc_widths(t)
    a = make(w, t, MULTI[1], flat=flat, alpha=al, dc=True, **k)
    x0, x1 = state(t, 'a', True), state(t, 'b', True)
    x2 = jumped(t, x0, 'c', True) if second else state(t, 'c', True)
    near(t, x0, x1, al, True)
    if second:
        near_zero(t, x2, k)
    else:
        near(t, x0, x2, al, True)
    l0, l1 = lls(t)
    l2 = t.real('lnl2', **LL)
    a.xi, a.ln_likelihood_xi, a.dc = x0, l0, True
    R2 = jump_ratio(t, x0, x2, True, flat, k) if second else shift_ratio(t, x0, x2, al, True, flat)
    proposals(t, w, np, a, [x1, x2], [l1, l2], [t.exp(l1 - l0) * shift_ratio(t, x0, x1, al, True, flat), t.exp(l2 - l0) * R2], [uniform(t), uniform(t, '2')])


@harness(erf_diff=True, bounds='zero likelihood of the start, of the proposal or of both; shifts and jumps; one candidate')
def zero_likelihood(t, w, np):
    """zero-likelihood proposals are never accepted, a zero-likelihood start always moves"""
    which = t.choose('which', 2)
    kind = t.choose('kind', 4)      # shift dc, shift mt, jump up, jump down
    dc = kind in (0, 2)
    a = make(w, t, MULTI[1], dc=dc, dc_prior=0.3)
    x0 = state(t, 'a', dc)
    x1 = state(t, 'b', dc) if kind < 2 else jumped(t, x0, 'b', dc)
    near(t, x0, x1, a.alpha, dc) if kind < 2 else near_zero(t, x1 if dc else x0, {'dc_sigma_g': .2, 'dc_sigma_d': .2})
    l = t.real('lnl', **LL)
    u = uniform(t)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l if which else -INF, dc, kind > 1
    proposals(t, w, np, a, listed(t, x1), [-INF if which else l], [None if which else 1], [u], start_zero=not which)


@harness(modes=('py',), erf_diff=True, bounds='zero likelihood of the proposal or of the start; every class; shifts and jumps')
def zero_likelihood_acceptance(t, w, np):
    """acceptance() of zero-likelihood proposals and from zero-likelihood starts"""
    which = t.choose('which', 2)
    kind = t.choose('kind', 4)
    dc = kind in (0, 2)
    a = make(w, t, SINGLE[2] if kind > 1 else SINGLE[t.choose('class', 2) * 2], dc=dc)
    x0 = state(t, 'a', dc)
    x1 = state(t, 'b', dc) if kind < 2 else jumped(t, x0, 'b', dc)
    near(t, x0, x1, a.alpha, dc) if kind < 2 else near_zero(t, x1 if dc else x0, {'dc_sigma_g': .2, 'dc_sigma_d': .2})
    l = t.real('lnl', **LL)
    a.xi, a.ln_likelihood_xi, a.dc, a.jump = x0, l if which else -INF, dc, kind > 1
    t.claim_eq(a.acceptance(x1, -INF if which else l), 0 if which else 1, 'acceptance')


MOVES = (('dc', 'mt'), ('dc', 'dc'), ('up', 'dc'), ('mt', 'down'), ('up', 'down'), ('up', 'up'))


def event(t, kind, tag, al, k):
    """states and ratio of one event of a joint move"""
    dc = kind in ('dc', 'up')
    x0 = state(t, 'a' + tag, dc)
    if kind in ('dc', 'mt'):
        x1 = state(t, 'b' + tag, dc)
        near(t, x0, x1, al, dc)
        return x0, x1, shift_ratio(t, x0, x1, al, dc, True)
    x1 = jumped(t, x0, 'b' + tag, dc)
    near_zero(t, x1 if dc else x0, k)
    return x0, x1, jump_ratio(t, x0, x1, dc, True, k)


@harness(erf_diff=True, bounds='two events: shifts and jumps together, flat prior, one candidate', thorough={'time_s': 800})
def joint(t, w, np):
    """a joint move of two events: the ratio is the product over the events"""
    moves = MOVES[t.choose('moves', len(MOVES))]
    cls = MULTI[1] if set(moves) & {'up', 'down'} else MULTI[t.choose('class', 2)]
    k = dc_widths(t)
    al = [widths(t, 'e0'), widths(t, 'e1')]
    a = make(w, t, cls, flat=True, events=2, **k)
    for i in range(2):
        a.alpha[i] = dict(a.alpha[i])
        a.alpha[i].update(al[i])
    e = [event(t, m, str(i), al[i], k) for i, m in enumerate(moves)]
    l0, l1 = lls(t)
    a.xi, a.ln_likelihood_xi = [v[0] for v in e], l0
    a.dc = [m in ('dc', 'up') for m in moves]
    a.jump = bool(set(moves) & {'up', 'down'})
    R = t.exp(l1 - l0) * e[0][2] * e[1][2]
    proposals(t, w, np, a, [listed(t, v[1]) for v in e], [l1], [R], [uniform(t)])


@harness(erf_diff=True, bounds='two events, zero likelihood of the start or of the proposal')
def joint_zero(t, w, np):
    """zero likelihoods with two events"""
    which = t.choose('which', 2)
    moves = MOVES[t.choose('moves', 5)]
    al = [{k: v / 2 for k, v in MAX.items()}] * 2
    a = make(w, t, MULTI[1], flat=True, events=2)
    for i in range(2):
        a.alpha[i] = dict(a.alpha[i])
        a.alpha[i].update(al[i])
    k = {'dc_sigma_g': .2, 'dc_sigma_d': .2, 'dc_prior': .5}
    e = [event(t, m, str(i), al[i], k) for i, m in enumerate(moves)]
    l = t.real('lnl', **LL)
    a.xi, a.ln_likelihood_xi, a.jump = [v[0] for v in e], l if which else -INF, bool(set(moves) & {'up', 'down'})
    a.dc = [m in ('dc', 'up') for m in moves]
    proposals(t, w, np, a, [listed(t, v[1]) for v in e], [-INF if which else l], [None if which else 1], [uniform(t)], start_zero=not which)


@harness(modes=('c',), erf_diff=True, bounds='two events, two candidates, double-couple shifts')
def joint_two(t, w, np):
    """the candidates of a joint move are taken in turn, each with its own ratio"""
    al = [widths(t, 'e0'), widths(t, 'e1')]
    a = make(w, t, MULTI[t.choose('class', 2)], flat=True, events=2, dc=True)
    for i in range(2):
        a.alpha[i] = dict(a.alpha[i])
        a.alpha[i].update(al[i])
    x0 = [state(t, 'a%d' % i, True) for i in range(2)]
    x1 = [[state(t, 'b%d%d' % (i, j), True) for j in range(2)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            near(t, x0[i], x1[i][j], al[i], True)
    l0, l1 = lls(t)
    l2 = t.real('lnl2', **LL)
    a.xi, a.ln_likelihood_xi, a.dc = x0, l0, [True, True]
    R = [t.exp(l - l0) * shift_ratio(t, x0[0], x1[0][j], al[0], True, True) * shift_ratio(t, x0[1], x1[1][j], al[1], True, True) for j, l in enumerate((l1, l2))]
    proposals(t, w, np, a, x1, [l1, l2], R, [uniform(t), uniform(t, '2')])


@harness(modes=('py',), finding='flat-jump-density', bounds='every balancing pair')
def flat_jump(t, w, np):
    """density of the balancing draw with gaussian_jump_params=False"""
    a = make(w, t, SINGLE[2], gaussian_jump_params=False)
    x = state(t, 'a')
    t.preset = [t.real('u1', lo=0, hi=1), t.real('u2', lo=0, hi=1)]
    g, d = a.jump_params()
    # affine in the two uniform draws, so the density is the inverse of the area they cover
    t.preset = [0.0, 0.0]
    g0, d0 = a.jump_params()
    t.preset = [1.0, 1.0]
    g1, d1 = a.jump_params()
    t.preset = []
    t.claim_eq(a.jump_params(x) * (g1 - g0) * (d1 - d0), 1, 'density of the balancing draw')
