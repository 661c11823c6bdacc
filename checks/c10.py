"""C10: evidence, model probabilities and divergences"""
from symx.harness import harness
from .common import prob, flat, INF, is_ninf, any_of

ASSUMPTIONS = ['uniform (6-sphere) prior, as the sampling draws from it', 'at least one non-zero sample', 'up to 3 stored samples plus any number of zero-probability tries; up to 3 models',
               'non-negativity and the ln N bound follow from the claimed closed form by the Gibbs inequality, decided separately for 2 and 3 entries']
PRELOAD = ["MTfit.probability.probability"]
OUTSIDE = 'the discard threshold (samples below 1/(10000 n) of the maximum) changes the evidence by at most 1e-4 relative: claimed as a bound'


def smp(w):
    return w.load('MTfit.sampling')


def logs(t, n, zeros=True, name='x'):
    out = []
    for i in range(n):
        v = t.real('%s%d' % (name, i), special=(0, 2, -3, -1000, 1000))
        if zeros and t.choose('z%s%d' % (name, i), 2):
            v = -INF
        out.append(v)
    t.assume(any(not is_ninf(v) for v in out))
    return out


def unshift(t, xs):
    """the oracles below do not change under a common shift: keep them in the double range when they run on floats"""
    if t.symbolic:
        return xs
    m = max(float(v) for v in xs)
    return [float(v) - m for v in xs]


def esum(t, xs):
    s = t.lift(0.0)
    for v in xs:
        s = s + t.exp(v)
    return s


@harness(bounds='3 samples (zeros allowed), N tried samples, all real N >= 1')
def evidence(t, w, np):
    """exp(ln_bayesian_evidence) is the mean likelihood over all tried samples"""
    S = smp(w)
    x = logs(t, 3)
    n = t.real('n', lo=1, special=(3, 100))
    e = S.ln_bayesian_evidence({'ln_pdf': np.matrix([x])}, n)
    t.claim_eq(t.exp(e) * n, esum(t, x), 'evidence')


@harness(bounds='2 samples given as LnPDF or matrix with converted parameters present')
def evidence_forms(t, w, np):
    """the evidence does not depend on the container or on converted parameters being there"""
    S = smp(w)
    P = prob(w)
    x = logs(t, 2)
    n = 7
    k = t.choose('form', 3)
    d = {'ln_pdf': P.LnPDF(np.matrix([x])) if k else np.matrix([x])}
    if k == 2:
        d.update(g=np.array([0.1, 0.2]), d=np.array([0.3, 0.2]))
    t.claim_eq(t.exp(S.ln_bayesian_evidence(d, n)) * n, esum(t, x), 'evidence')


@harness(bounds='2 samples, two-event output')
def evidence_events(t, w, np):
    """joint outputs use the same identity"""
    S = smp(w)
    x = logs(t, 2)
    d = {'ln_pdf': np.matrix([x]), 'g_1': np.array([0.1, 0.2]), 'd_1': np.array([0.1, 0.2]), 'g_2': np.array([0.1, 0.2]), 'd_2': np.array([0.1, 0.2])}
    t.claim_eq(t.exp(S.ln_bayesian_evidence(d, 5)) * 5, esum(t, x), 'evidence')


@harness(bounds='3 samples, any permutation, any shift c')
def evidence_shift(t, w, np):
    """shifts by c with the log-likelihoods, does not depend on order"""
    S = smp(w)
    x = logs(t, 3)
    c = t.real('c')
    e = S.ln_bayesian_evidence({'ln_pdf': np.matrix([x])}, 9)
    e2 = S.ln_bayesian_evidence({'ln_pdf': np.matrix([[v + c for v in x]])}, 9)
    perm = [(0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0)][t.choose('perm', 4)]
    e3 = S.ln_bayesian_evidence({'ln_pdf': np.matrix([[x[i] for i in perm]])}, 9)
    t.claim_eq(t.exp(e2), t.exp(e) * t.exp(c), 'shift')
    t.claim_eq(t.exp(e3), t.exp(e), 'order')


@harness(bounds='2 samples, any magnitude, exp() with the binary64 range', float_exp=True, validate=20)
def evidence_range(t, w, np):
    """finite for log-likelihoods of any magnitude"""
    S = smp(w)
    x = logs(t, 2, zeros=False)
    e = S.ln_bayesian_evidence({'ln_pdf': np.matrix([x])}, 9)
    t.claim_finite(e, 'evidence')
    for v in x:
        t.claim_le(v - t.log(9) - 1e-9, e, 'at least each term')
    t.claim_true(any_of([e <= v + t.log(2) - t.log(9) + 1e-9 for v in x]), 'at most the largest term times two')


def batches(t, np, sizes, zeros, events=1):
    out = []
    k = 0
    for n in sizes:
        x = []
        for _ in range(n):
            v = t.real('x%d' % k, special=(0, 2, -3))
            if zeros and t.choose('zx%d' % k, 2):
                v = -INF
            x.append(v)
            k += 1
        out.append((np.matrix([[float(100 * i + j + k) for j in range(n)] for i in range(6 * events)]), x))
    return out


def via_sample(t, w, np, sizes, extra, events):
    S = smp(w)
    s = S.Sample(initial_sample_size=8, number_events=events)
    bs = batches(t, np, sizes, True, events)
    xs = [v for _, x in bs for v in x]
    t.assume(any(not is_ninf(v) for v in xs))
    n = 0
    for i, (m, x) in enumerate(bs):
        # the number of zero-probability tries of the batch: any real >= 0
        e = t.real('extra%d' % i, lo=0, special=(extra, 0, 1, 1000))
        s.append(m, np.matrix([x]), len(x) + e)
        n = n + len(x) + e
    t.claim_true(s.n == n, 'tries counted')
    out, _ = s.output(n_samples=n, discard=0)
    t.claim_true('ln_bayesian_evidence' in out, 'evidence reported')
    t.claim_eq(t.exp(out['ln_bayesian_evidence']) * n, esum(t, xs), 'evidence over all tries')
    t.claim_true('dkl' in out, 'divergence reported')
    t.claim_eq(out['dkl'], dkl_form(t, xs, n), 'ln N minus entropy')


@harness(bounds='two batches of 2 and 1 candidates (zeros allowed) plus 2 uncounted zero tries each')
def sample_evidence(t, w, np):
    """evidence and divergence reported by Sample.output"""
    via_sample(t, w, np, (2, 1), 2, 1)


@harness(bounds='one batch of 2 candidates, two events')
def sample_evidence_events(t, w, np):
    """evidence and divergence reported by Sample.output for two events"""
    via_sample(t, w, np, (2,), 1, 2)


def diag6(np, k):
    """diagonal unit tensors: double-couple and CLVD-like, with exactly known spectra"""
    r = [(1, 0, -1), (2, -1, -1), (0, 1, -1), (1, 1, 1)][k]
    n = float(sum(v * v for v in r))
    return [v / np.sqrt(n) for v in r] + [0.0, 0.0, 0.0]


@harness(bounds='2 samples per event (diagonal tensors), one and two events, converted output')
def sample_evidence_converted(t, w, np):
    """the evidence and divergence do not change when the output is converted"""
    S = smp(w)
    ne = t.choose('events', 2) + 1
    first = t.choose('types', 2)
    s = S.Sample(initial_sample_size=4, number_events=ne)
    x = logs(t, 2)
    cols = [sum([diag6(np, (j * first + i) % 3) for i in range(ne)], []) for j in range(2)]
    s.append(np.matrix([[cols[j][i] for j in range(2)] for i in range(6 * ne)]), np.matrix([x]), 5)
    out, _ = s.output(n_samples=5, discard=0, convert=True)
    t.claim_true('ln_bayesian_evidence' in out, 'evidence reported')
    t.claim_eq(t.exp(out['ln_bayesian_evidence']) * 5, esum(t, x), 'evidence')
    t.claim_true('dkl' in out, 'divergence reported')
    t.claim_eq(out['dkl'], dkl_form(t, x, 5), 'ln N minus entropy')


@harness(bounds='2 samples, default discard')
def sample_evidence_discard(t, w, np):
    """with the discard on, the evidence changes by less than 1e-4 relative"""
    S = smp(w)
    s = S.Sample(initial_sample_size=8)
    x = logs(t, 2, zeros=False)
    s.append(np.matrix([[float(i), float(i + 1)] for i in range(6)]), np.matrix([x]), 5)
    out, _ = s.output(n_samples=5)
    e = t.exp(out['ln_bayesian_evidence']) * 5
    tot = esum(t, x)
    t.mono_exp(x[0] - t.log(50000), x[1])
    t.mono_exp(x[1] - t.log(50000), x[0])
    t.claim_le(e, tot, 'no more than the full sum')
    t.claim_le(tot * (1 - 1.0001e-4), e, 'only negligible samples are dropped')


@harness(bounds='1 to 3 models, any finite evidences')
def model_probabilities(t, w, np):
    """positive, sum to one, ratios exp(difference), unchanged by a common shift"""
    P = prob(w)
    n = t.choose('n', 3) + 1
    x = [t.real('x%d' % i, special=(0, 700, -900)) for i in range(n)]
    c = t.real('c')
    p = P.model_probabilities(*x)
    t.claim_true(len(p) == n, 'one probability per model')
    s = t.lift(0.0)
    for v in p:
        s = s + v
        t.claim_lt(0, v, 'positive')
    t.claim_eq(s, 1, 'sum to one')
    for i in range(n):
        for j in range(i):
            t.claim_eq(p[i], p[j] * t.exp(x[i] - x[j]), 'ratio %d/%d' % (i, j))
    q = P.model_probabilities(*[v + c for v in x])
    for i in range(n):
        t.claim_eq(p[i], q[i], 'shift')


@harness(bounds='3 models, binary64 exp range', float_exp=True, validate=20)
def model_probabilities_range(t, w, np):
    """no overflow: probabilities of evidences of any magnitude are in [0,1] and the largest is at least 1/3"""
    P = prob(w)
    x = [t.real('x%d' % i, special=(0, 700, -900, 5000)) for i in range(3)]
    p = P.model_probabilities(*x)
    for v in p:
        t.claim_not_nan(v, 'not NaN')
        t.claim_le(0, v, 'non-negative')
        t.claim_le(v, 1 + 1e-9, 'at most one')
    t.claim_true(any_of([v >= 1.0 / 3 - 1e-9 for v in p]), 'the largest is at least 1/3')


def dkl_form(t, xs, n):
    xs = unshift(t, xs)
    tot = esum(t, xs)
    d = t.log(n)
    for v in xs:
        if not is_ninf(v):
            d = d + t.exp(v) / tot * (v - t.log(tot))
    return d


def dkl_est(t, w, np, k, kind):
    P = prob(w)
    x = logs(t, k)
    V = t.real('V', lo=0, lo_open=True, special=(1, 2))
    N = t.real('N', lo=k, special=(10, 5))
    a = np.array(x) if kind == 'array' else P.LnPDF(np.matrix([x]))
    keep = list(x)
    d = P.dkl_estimate(a, V, N)
    t.claim_eq(d, dkl_form(t, x, N), 'ln N minus the entropy of the weights')
    b = flat(np, a if kind == 'array' else a._ln_pdf)
    t.claim_true(all((is_ninf(p) and is_ninf(q)) or not is_ninf(q) for p, q in zip(keep, b)), 'input kept')
    for p, q in zip(keep, b):
        if not is_ninf(p):
            t.claim_eq(q, p, 'input not modified')


@harness(bounds='3 samples (zeros allowed), N real >= 3, any volume', validate=20)
def dkl_estimate_array(t, w, np):
    """divergence from the prior is ln N - entropy, whatever the volume"""
    dkl_est(t, w, np, 3, 'array')


@harness(bounds='2 samples LnPDF')
def dkl_estimate_lnpdf(t, w, np):
    """LnPDF input"""
    dkl_est(t, w, np, 2, 'LnPDF')


@harness(bounds='2 samples, shift c')
def dkl_estimate_shift(t, w, np):
    """unchanged by a common shift"""
    P = prob(w)
    x = logs(t, 2)
    c = t.real('c')
    t.claim_eq(P.dkl_estimate(np.array(x), 2.0, 10), P.dkl_estimate(np.array([v + c for v in x]), 2.0, 10), 'shift')


def dkl_pair(t, xs, ys):
    xs, ys = unshift(t, xs), unshift(t, ys)
    p, q = esum(t, xs), esum(t, ys)
    d = t.lift(0.0)
    for x, y in zip(xs, ys):
        if is_ninf(x):
            continue
        if is_ninf(y):
            return INF
        d = d + t.exp(x) / p * ((x - t.log(p)) - (y - t.log(q)))
    return d


@harness(bounds='2 entries each (zeros allowed), any volume element', validate=20)
def dkl(t, w, np):
    """divergence between two sampled PDFs is the mean log ratio; zero for identical inputs"""
    P = prob(w)
    x, y = logs(t, 2), logs(t, 2, name='y')
    dV = t.real('dV', lo=0, lo_open=True, special=(1, 0.5))
    t.claim_eq(P.dkl(np.array(x), np.array(y), dV), dkl_pair(t, x, y), 'closed form')
    t.claim_eq(P.dkl(np.array(x), np.array(x), dV), 0, 'identical inputs')


@harness(bounds='2 entries, LnPDF')
def dkl_lnpdf(t, w, np):
    """LnPDF inputs, unnormalised inputs (shift of q)"""
    P = prob(w)
    x, y = logs(t, 2, zeros=False), logs(t, 2, zeros=False, name='y')
    c = t.real('c')
    d = P.dkl(P.LnPDF(np.matrix([x])), P.LnPDF(np.matrix([y])))
    t.claim_eq(d, dkl_pair(t, x, y), 'closed form')
    t.claim_eq(P.dkl(P.LnPDF(np.matrix([x])), P.LnPDF(np.matrix([[v + c for v in y]]))), d, 'shift')


@harness(bounds='3 entries', tier='thorough')
def dkl_3(t, w, np):
    """3 entries with zeros"""
    P = prob(w)
    x, y = logs(t, 3), logs(t, 3, name='y')
    t.claim_eq(P.dkl(np.array(x), np.array(y), 1.0), dkl_pair(t, x, y), 'closed form')


@harness(modes=('py',), bounds='weights of 2 and 3 entries, N >= number of entries')
def gibbs(t, w, np):
    """the closed forms are in [0, ln N] / non-negative: sum p ln(q/p) <= 0 whenever sum q <= 1 = sum p, from ln z <= z-1; w ln w <= 0"""
    n = 2 + t.choose('n', 2)
    p = [t.real('p%d' % i, lo=0, hi=1, lo_open=True) for i in range(n)]
    q = [t.real('q%d' % i, lo=0, hi=1, lo_open=True) for i in range(n)]
    l = [t.real('l%d' % i) for i in range(n)]     # ln(q/p)
    s, u, d = t.lift(0.0), t.lift(0.0), t.lift(0.0)
    for i in range(n):
        t.assume(l[i] <= q[i] / p[i] - 1)
        s = s + p[i]
        u = u + q[i]
        d = d + p[i] * l[i]
    t.assume(s == 1)
    t.assume(u <= 1)
    t.claim_le(d, 0, 'Gibbs')
