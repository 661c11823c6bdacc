"""C06: Markov-chain proposals stay in the source domain and follow the proposal density"""
from symx.harness import harness
from symx.core import Unsupported
from .c05 import MAX, MULTI, SINGLE, TRANSD, dc_widths, make, mc, orient, state, widths
from .common import all_of, any_of
from .c12 import tensor, eigenvalues, frame, six

PRELOAD = ['MTfit.probability.probability', 'MTfit.convert.moment_tensor_conversion', 'MTfit.algorithms.markov_chain_monte_carlo']
ASSUMPTIONS = ['the generator gives independent standard normal and uniform draws; a proposal taken as the first in-range one of independent draws from N(x0, width) '
               'has the truncated Gaussian density about x0', 'exact real arithmetic']
OUTSIDE = ('the reflect_* options and the crack-plus-double-couple chain; more than 2 redraws in one proposal; normal draws beyond 7 standard deviations; '
           'rounding at the ends of the ranges (a strike rounding to exactly 2 pi)')
PARAMS = ('gamma', 'delta', 'kappa', 'h', 'sigma')


def sc(v):
    return v.flatten()[0] if hasattr(v, 'flatten') else v


def limits(t, k):
    return {'gamma': (-t.pi / 6, t.pi / 6), 'delta': (-t.pi / 2, t.pi / 2), 'kappa': (0, 2 * t.pi), 'h': (0, 1), 'sigma': (-t.pi / 2, t.pi / 2)}[k]


def in_domain(t, x, dc=False):
    ok = []
    for k in PARAMS:
        v = t.lift(sc(x[k]))
        lo, hi = limits(t, k)
        ok += [v >= t.lift(lo), v < t.lift(hi) if k == 'kappa' else v <= t.lift(hi)]
    t.claim_true(all_of(ok), 'every parameter within its range')
    if dc:
        t.claim_eq(sc(x['gamma']), 0, 'gamma of a double-couple', tol=0)
        t.claim_eq(sc(x['delta']), 0, 'delta of a double-couple', tol=0)


def same(t, v, mu, a, z, k):
    """v is the proposal mu + a z (strikes up to whole turns)"""
    d = t.lift(v) - mu - a * z
    if k == 'kappa':
        d = d / (2 * t.pi)
    if t.symbolic:
        return d.isconst() and (d.cval().denominator == 1 if k == 'kappa' else d.cval() == 0)
    return abs(d - (round(d) if k == 'kappa' else 0)) < 1e-9


def follows(t, x, mean, al, zs, keys, name=''):
    """each parameter is the first in-range draw from its Gaussian, each from its own draws.  zs: normal draws in order"""
    used = {}
    for k in keys:
        hit = [j for j, z in enumerate(zs) if j not in used and same(t, sc(x[k]), mean[k], al[k], z, k)]
        if not hit:
            t.fail('%s%s is not its current value plus width times a normal draw' % (name, k))
            return None
        used[hit[0]] = k
    last = max(used) if used else -1
    for j in range(last + 1):
        if j in used:
            continue
        # a rejected draw: out of range for one of the parameters settled later
        later = [used[i] for i in used if i > j]
        out = []
        for k in later:
            if k == 'kappa':
                continue
            lo, hi = limits(t, k)
            v = mean[k] + al[k] * zs[j]
            out += [t.lift(v) < t.lift(lo), t.lift(v) > t.lift(hi)]
        t.claim_true(any_of(out) if out else False, name + 'only out-of-range draws are drawn again')
    return last + 1


def propose(t, a, f, z=9, lim=7, **preset):
    """run f with bounded redraws; its result and the draws it made"""
    t.draw_domains['randn'] = dict(lo=-lim, hi=lim, dist=lambda r: max(-lim, min(lim, r.gauss(0, 1))))
    if t.symbolic:
        t.draw_limit['randn'] = z
    n = len(t.draws)
    r = f()
    d = t.draws[n:]
    return r, [v[2] for v in d if v[0] == 'randn'], [v[2] for v in d if v[0] == 'rand'], set(v[0] for v in d)


def kinds(k, allowed=('randn',)):
    if k - set(allowed):
        raise Unsupported('proposal draws of kind %s' % sorted(k))


def inner(t, x0, al, lim=1, but=None):
    """every draw within lim standard deviations stays in range: no redraws (of parameters other than `but`)"""
    for k in PARAMS:
        if k == but or not (t.symbolic or isinstance(x0[k], float)) or (not t.symbolic and x0['gamma'] == 0 == x0['delta'] and k in ('gamma', 'delta')):
            continue
        if isinstance(x0[k], float) and t.symbolic:
            continue
        lo, hi = limits(t, k)
        t.assume((t.lift(x0[k]) - lim * al[k] >= t.lift(lo)) & (t.lift(x0[k]) + lim * al[k] <= t.lift(hi)) if t.symbolic else lo <= x0[k] - lim * al[k] and x0[k] + lim * al[k] <= hi)


def start(t, w, a, x0, dc):
    a.xi = [dict(x) for x in x0] if isinstance(x0, list) else dict(x0)
    a.dc = dc


def columns(M):
    return [[M[i, j] for i in range(6)] for j in range(M.shape[1])]


class Conversions:
    """stands in for the conversion of proposed states while the proposal is decided symbolically: an uninterpreted six-vector per call
    (the conversion itself is decided in `converts`); concrete runs use the real one"""

    def __init__(self, t, w, np, a):
        self.t, self.calls = t, []
        if not t.symbolic:
            return
        real = a._convert_sample_single

        def single(x):
            if not isinstance(x, dict):
                return real(x)
            return np.array([[v] for v in self.new([x[k] for k in PARAMS])])

        def fn(*p):
            return np.array([[v] for v in self.new(p)])

        a._convert_sample_single = single
        c = getattr(mc(w), 'cmarkov_chain_monte_carlo', None)
        if c and hasattr(c, 'convert_sample'):
            c.convert_sample = fn

    def new(self, p):
        col = [self.t.fresh('m') for _ in range(6)]
        self.calls.append((col, [self.t.lift(sc(v)) for v in p]))
        return col

    def check(self, x, col, name=''):
        """column `col` is the tensor of state x"""
        t = self.t
        if t.symbolic:
            for c, p in self.calls:
                if all(t.lift(u) is v or (t.lift(u) - v).isconst() and (t.lift(u) - v).cval() == 0 for u, v in zip(col, c)):
                    for k, v in zip(PARAMS, p):
                        t.claim_eq(sc(x[k]), v, name + 'tensor handed on is that of the proposal: ' + k, tol=0)
                    return
            t.fail(name + 'the tensor handed on is not a converted proposal')
        want = reference(t, x)
        for i in range(6):
            t.claim_eq(col[i], want[i], name + 'tensor of the proposed state')


def reference(t, x):
    import math
    g, d, k, h, s = [float(sc(x[n])) for n in PARAMS]
    m = tensor(eigenvalues(t, g, d), *frame(t, k, math.acos(h), s))
    r = math.sqrt(2)
    return [m[0][0], m[1][1], m[2][2], r * m[0][1], r * m[0][2], r * m[1][2]]


REDRAWS = 'every state, every width; one redraw (4 in the thorough tier) of one parameter at a time, the others at least 7 widths (1 in replays) inside their ranges'


@harness(bounds=REDRAWS, abs_fork=True, thorough={'time_s': 800})
def shift(t, w, np):
    """a proposal of every chain class, full moment tensor and double-couple"""
    dc = t.choose('dc', 2) == 1
    some = (SINGLE[1], MULTI[1], SINGLE[2], MULTI[0])
    cls = some[t.choose('class', 4) if t.tier == 'thorough' else t.mode == 'c']
    al = widths(t)
    a = make(w, t, cls, alpha=al, dc=dc, **({'dimension_jump_prob': 0.01} if cls in TRANSD else {}))
    x0 = state(t, 'a', dc, edge=True)
    keys = ('kappa', 'h', 'sigma') if dc else PARAMS
    # one parameter at a time may need redraws; strikes wrap
    inner(t, x0, al, lim=7 if t.symbolic else 1, but=keys[t.choose('redraw', len(keys))])
    start(t, w, a, x0, dc)
    if cls in MULTI:
        a._number_samples = 1
    if cls in TRANSD:
        t.preset = {'rand': [0.5], 'crand': [0.5]}
    c = Conversions(t, w, np, a)
    M, zs, us, ks = propose(t, a, a.new_sample, z=len(keys) + (4 if t.tier == 'thorough' else 1))
    kinds(ks, ('randn', 'rand') if cls in TRANSD else ('randn',))
    x = a.xi_1[0] if isinstance(a.xi_1, list) else a.xi_1
    in_domain(t, x, dc)
    n = follows(t, x, x0, al, zs, keys)
    t.claim_true(n is None or n == len(zs), 'every draw is used')
    c.check(x, columns(M)[0])


@harness(modes=('c',), bounds='two candidates, no redraws')
def several(t, w, np):
    """each candidate of a multiple-try proposal starts from the current state and has draws of its own"""
    dc = t.choose('dc', 2) == 1
    events = 1 + t.choose('events', 2 if dc or t.tier == 'thorough' else 1)
    al = [widths(t, 'e%d' % i) for i in range(events)]
    a = make(w, t, MULTI[0], alpha=al[0] if events == 1 else None, dc=dc, events=events)
    x0 = [state(t, 'a%d' % i, dc) for i in range(events)]
    for x, l in zip(x0, al):
        inner(t, x, l)
    if events > 1:
        for i in range(2):
            a.alpha[i] = dict(a.alpha[i])
            a.alpha[i].update(al[i])
    start(t, w, a, x0 if events > 1 else x0[0], [dc] * 2 if events > 1 else dc)
    a._number_samples = 2
    c = Conversions(t, w, np, a)
    keys = ('kappa', 'h', 'sigma') if dc else PARAMS
    M, zs, us, ks = propose(t, a, a.new_sample, z=2 * events * len(keys), lim=1)
    kinds(ks)
    xs = a.xi_1 if events > 1 else [a.xi_1]
    Ms = M if events > 1 else [M]
    t.claim_true(len(xs) == events and all(len(v) == 2 for v in xs), 'two candidates of each event')
    for i in range(events):
        for j in range(2):
            in_domain(t, xs[i][j], dc)
            n = follows(t, xs[i][j], x0[i], al[i], zs, keys, 'event %d candidate %d ' % (i, j))
            if n is None:
                return
            zs = zs[n:]
            c.check(xs[i][j], columns(Ms[i])[j])
    t.claim_true(not zs, 'every draw is used')


@harness(bounds='two events, no redraws')
def events(t, w, np):
    """proposals of a joint chain: each event from its own state, widths and model"""
    which = t.choose('class', 4)
    cls = (SINGLE[1], MULTI[0], SINGLE[2], MULTI[1])[which]
    al = [widths(t, 'e%d' % i) for i in range(2)]
    dcs = ((False, False), (True, True), (True, False))[t.choose('dc', 3 if cls in TRANSD else 2)]
    a = make(w, t, cls, dc=dcs[0], events=2)
    for i in range(2):
        a.alpha[i] = dict(a.alpha[i])
        a.alpha[i].update(al[i])
    x0 = [state(t, 'a%d' % i, dc) for i, dc in enumerate(dcs)]
    for x, l in zip(x0, al):
        inner(t, x, l)
    start(t, w, a, x0, list(dcs))
    if cls in MULTI:
        a._number_samples = 1
    if cls in TRANSD:
        t.preset = {'rand': [0.5, 0.5], 'crand': [0.5, 0.5]}
    c = Conversions(t, w, np, a)
    M, zs, us, ks = propose(t, a, a.new_sample, z=10, lim=1)
    kinds(ks, ('randn', 'rand') if cls in TRANSD else ('randn',))
    for i in range(2):
        keys = ('kappa', 'h', 'sigma') if dcs[i] else PARAMS
        x = a.xi_1[i]
        x = x[0] if isinstance(x, list) else x
        in_domain(t, x, dcs[i])
        n = follows(t, x, x0[i], al[i], zs, keys, 'event %d ' % i)
        if n is None:
            return
        zs = zs[n:]
        c.check(x, columns(M[i])[0])
    t.claim_true(not zs, 'every draw is used')
    t.claim_true(list(a.dc) == list(dcs), 'the models are left alone')
    for i in range(2):
        for k in PARAMS:
            t.claim_eq(sc(a.xi[i][k]), sc(x0[i][k]), 'the current state is left alone', tol=0)
            t.claim_eq(a.alpha[i][k], al[i][k], 'the widths are left alone', tol=0)


@harness(bounds='every state and jump probability; every balancing width, up to two redraws; shifts without redraws', abs_fork=True)
def jump(t, w, np):
    """a model jump keeps the orientation; up: the balancing draw; down: exactly double-couple, remembering the source type"""
    up = t.choose('up', 2) == 1
    cls = (SINGLE[2], MULTI[1])[t.choose('class', 2)]
    p = t.real('p', lo=0, hi=1, lo_open=True)
    u = t.real('u', lo=0, hi=1, hi_open=True)
    k = dc_widths(t)
    a = make(w, t, cls, dc=up, dimension_jump_prob=p, **k)
    al = dict(a.alpha)
    x0 = state(t, 'a', up, edge=True)
    shifts = t.choose('shift', 2)
    t.assume((u >= p if shifts else u <= p))
    if shifts:
        inner(t, x0, al)
    start(t, w, a, x0, up)
    if cls in MULTI:
        a._number_samples = 1
    t.preset = {'rand': [u], 'crand': [u]}
    c = Conversions(t, w, np, a)
    M, zs, us, ks = propose(t, a, a.new_sample, z=5 if shifts else 4 if t.tier == 'thorough' else 3, lim=1 if shifts else 7)
    x = a.xi_1[0] if isinstance(a.xi_1, list) else a.xi_1
    in_domain(t, x)
    c.check(x, columns(M)[0])
    if bool(t.lift(u) == p) if t.symbolic else u == p:
        return
    if bool(t.lift(u) > p) if t.symbolic else u > p:
        n = follows(t, x, x0, al, zs, ('kappa', 'h', 'sigma') if up else PARAMS)
        t.claim_true(n is None or n == len(zs), 'every draw is used')
        if up:
            in_domain(t, x, True)
        return
    for n in ('kappa', 'h', 'sigma'):
        t.claim_eq(sc(x[n]), x0[n], n + ' unchanged by a jump', tol=0)
    if up:
        n = follows(t, x, {'gamma': t.lift(0), 'delta': t.lift(0)}, {'gamma': k['dc_sigma_g'], 'delta': k['dc_sigma_d']}, zs, ('gamma', 'delta'), 'balancing ')
        t.claim_true(n is None or n == len(zs), 'every draw is used')
    else:
        t.claim_true(not zs, 'no draw in a jump to the double-couple')
        in_domain(t, x, True)
        t.claim_eq(sc(x['g0']), x0['gamma'], 'source type left behind', tol=0)
        t.claim_eq(sc(x['d0']), x0['delta'], 'source type left behind', tol=0)


@harness(bounds='two candidates, two steps deciding shift or jump', modes=('c',))
def jump_several(t, w, np):
    """each candidate of the multiple-try chain decides on its own to jump, from the current state"""
    up = t.choose('up', 2) == 1
    k = dc_widths(t)
    a = make(w, t, MULTI[1], dc=up, dimension_jump_prob=0.5, **k)
    al = dict(a.alpha)
    x0 = state(t, 'a', up)
    inner(t, x0, al)
    if up:      # the balancing draws stay in range
        t.assume(k['dc_sigma_g'] <= 0.5)
        t.assume(k['dc_sigma_d'] <= 1.5)
    start(t, w, a, x0, up)
    a._number_samples = 2
    jumps = [t.choose('jump%d' % i, 2) == 1 for i in range(2)]
    t.preset = {k_: [0.25 if j else 0.75 for j in jumps] for k_ in ('rand', 'crand')}
    c = Conversions(t, w, np, a)
    keys = ('kappa', 'h', 'sigma') if up else PARAMS
    M, zs, us, ks = propose(t, a, a.new_sample, z=sum((2 if up else 0) if j else len(keys) for j in jumps), lim=1)
    for i, j in enumerate(jumps):
        x = a.xi_1[i]
        in_domain(t, x, up != j)
        if not j:
            n = follows(t, x, x0, al, zs, keys, 'candidate %d ' % i)
        else:
            for q in ('kappa', 'h', 'sigma'):
                t.claim_eq(sc(x[q]), x0[q], q + ' unchanged by a jump', tol=0)
            n = follows(t, x, {'gamma': t.lift(0), 'delta': t.lift(0)}, {'gamma': k['dc_sigma_g'], 'delta': k['dc_sigma_d']}, zs, ('gamma', 'delta'), 'balancing ') if up else 0
        if n is None:
            return
        zs = zs[n:]
        c.check(x, columns(M)[i])
    t.claim_true(not zs, 'every draw is used')


@harness(bounds='every state of the domain', weight=0)
def converts(t, w, np):
    """a state converts to a unit-norm tensor; a double-couple state to one of zero trace and determinant"""
    dc = t.choose('dc', 2) == 1
    cls = (SINGLE[1], SINGLE[2])[t.choose('class', 2)]
    a = make(w, t, cls)
    x = state(t, 'a', dc, edge=True)
    M = a.convert_sample({k: np.array([v]) if t.choose('form', 2) else v for k, v in x.items()})
    t.claim_true(M.shape == (6, 1), 'shape')
    m = [M[i, 0] for i in range(6)]
    t.claim_eq(sum((v * v for v in m[1:]), m[0] * m[0]), 1, 'unit norm')
    if dc:
        t.claim_eq(m[0] + m[1] + m[2], 0, 'trace of a double-couple')
        r = t.sqrt(t.lift(2))
        xx, yy, zz, xy, xz, yz = m[0], m[1], m[2], m[3] / r, m[4] / r, m[5] / r
        t.claim_eq(xx * (yy * zz - yz * yz) - xy * (xy * zz - yz * xz) + xz * (xy * yz - yy * xz), 0, 'determinant of a double-couple')


@harness(modes=('py',), bounds='two successive learning windows (three in the thorough tier) with any acceptance rates; single- and two-event chains of every class', time_s=500, weight=3, thorough={'time_s': 1500})
def adapt(t, w, np):
    """adapting the widths keeps each positive and within its maximum"""
    own = PARAMS[t.choose('own', len(PARAMS))] if t.tier == 'thorough' else ('gamma', 'h')[t.choose('own', 2)]
    more = t.tier == 'thorough' or own == 'gamma'
    cls = (SINGLE[2], SINGLE[1], MULTI[1])[t.choose('class', 3 if more else 1)]
    events_ = 1 + t.choose('events', 2 if more else 1)
    f = None
    rates = [t.real('rate%d' % i, lo=0, hi=1, special=(0, 1)) for i in range(3 if t.tier == 'thorough' else 2)]
    k = dc_widths(t) if cls in TRANSD else {}
    a = make(w, t, cls, events=events_, **k)
    a.learning_length = 1000
    # the widths share a scale, one of them has its own
    for j in range(events_):
        f = [t.real('scale%d%s' % (j, n), lo=0, hi=1, lo_open=True) for n in ('own', 'other')] if not j else f[::-1]
        d = dict(a.alpha if events_ == 1 else a.alpha[j])
        d.update({k: MAX[k] * f[k != own and own != 'gamma'] for k in PARAMS})
        if events_ == 1:
            a.alpha = d
        else:
            a.alpha[j] = d
    limit = dict(a.max_alpha)
    fixed = {n: v for n, v in (a.alpha if events_ == 1 else a.alpha[0]).items() if n in ('gamma_dc', 'delta_dc', 'proposal_normalisation')}
    for i, r in enumerate(rates):
        a._learning_accepted = [r]
        a._modify_acceptance_rate()
        for j in range(events_):
            now = a.alpha if events_ == 1 else a.alpha[j]
            t.claim_true(all_of([t.lift(0) < now[n] for n in PARAMS]), 'every width stays positive (window %d)' % i)
            t.claim_true(all_of([t.lift(now[n]) <= t.lift(MAX[n]) for n in PARAMS]), 'every width stays within its maximum (window %d)' % i)
            t.claim_true(set(fixed) <= set(now), 'the widths of the balancing draw are kept')
            for n, v in fixed.items():
                t.claim_eq(now[n], v, 'width of the balancing draw', tol=0)
    t.claim_true(limit == dict(a.max_alpha), 'the maxima are left alone')


@harness(modes=('py',), bounds='every fraction of non-zero initial samples')
def adapt_initial(t, w, np):
    """scaling the widths by the non-zero fraction of the initial samples"""
    cls = (SINGLE[1], SINGLE[2], MULTI[1])[t.choose('class', 3)]
    r = t.real('fraction', lo=0, hi=1, special=(0, 1))
    a = make(w, t, cls)
    a.alpha.update(widths(t))
    keep = {n: v for n, v in a.alpha.items() if n not in PARAMS}
    a._modify_acceptance_rate(r)
    for n in PARAMS:
        t.claim_lt(t.lift(0), a.alpha[n], 'width of %s stays positive' % n)
        t.claim_le(a.alpha[n], t.lift(MAX[n]), 'width of %s stays within its maximum' % n)
    for n in ('gamma_dc', 'delta_dc', 'proposal_normalisation'):
        if n in keep:
            t.claim_eq(a.alpha[n], keep[n], 'width of the balancing draw', tol=0)


@harness(modes=('py',), bounds='the default configuration of every class')
def configured(t, w, np):
    """the starting widths are positive and within the maxima"""
    cls = (SINGLE[0], SINGLE[1], SINGLE[2], MULTI[0], MULTI[1])[t.choose('class', 5)]
    k = dc_widths(t) if cls in TRANSD else {}
    a = make(w, t, cls, **k)
    for n in PARAMS:
        t.claim_lt(t.lift(0), t.lift(a.alpha[n]), 'width of ' + n)
        t.claim_le(t.lift(a.alpha[n]), t.lift(MAX[n]), 'width of ' + n)
    if cls in TRANSD:
        t.claim_eq(a.alpha['gamma_dc'], k['dc_sigma_g'], 'balancing width', tol=0)
        t.claim_eq(a.alpha['delta_dc'], k['dc_sigma_d'], 'balancing width', tol=0)
