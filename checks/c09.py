"""C09: the sample store keeps each non-zero sample once, aligned, and counts every try"""
from symx.harness import harness
from .common import prob, flat, INF, is_ninf, all_of, any_of

PRELOAD = ['MTfit.probability.probability', 'MTfit.algorithms.monte_carlo', 'MTfit.sampling']
ASSUMPTIONS = ['candidate tensors and non-zero log-probabilities are free symbolic values; the zero/non-zero pattern, the batch sizes and the storage increment are solver-chosen case splits',
               'all batches of one history use the same volume element dV and the same number of rows']
OUTSIDE = ('the file-backed store (needs hdf5storage, not installed); the order of simultaneous failures (MemoryError); storage increments above 3 and histories of more than 4 batches; '
           'a sample lying exactly on the discard threshold')


def smp(w):
    return w.load('MTfit.sampling')


PATTERNS = ('none', 'all', 'even', 'odd', 'first', 'last')


def keep(pattern, i, n):
    return {'none': False, 'all': True, 'even': i % 2 == 0, 'odd': i % 2 == 1, 'first': i == 0, 'last': i == n - 1}[pattern]


class Batch(object):
    """n candidates: tensors (events*6, n), log-probabilities (rows, n)"""

    def __init__(self, t, np, tag, n, mask, events=1, rows=1, free=False):
        self.n, self.events, self.rows = n, events, rows
        self.m = [[t.real('m%s_%d_%d' % (tag, i, j)) for j in range(n)] for i in range(6 * events)]
        self.p, self.keep = [], []
        for r in range(rows):
            # the relative order of the values is fixed (it only selects the reported maximum) unless free
            c = [3.0 * ((5 * j + 7 * r + 3 * int(tag)) % 11) + 0.25 * int(tag) for j in range(n)]
            lim = free if callable(free) else (lambda j: (-1000, 1000)) if free else (lambda j: (c[j], c[j] + 0.125))
            self.p.append([t.real('p%s_%d_%d' % (tag, r, j), lo=lim(j)[0], hi=lim(j)[1], special=(0, -3, 2)) for j in range(n)])
        for j in range(n):
            k = mask(j)
            self.keep.append(k)
            if not k:
                for r in range(rows):
                    self.p[r][j] = -INF
        self.scale = [t.real('s%s_%d' % (tag, j)) for j in range(n)]

    def tensors(self, np):
        m = np.array(self.m) if self.n else np.zeros((6 * self.events, 0))
        if self.events == 1:
            return np.matrix(m)
        return [m[6 * e:6 * e + 6, :] for e in range(self.events)]

    def ln_pdf(self, np):
        return np.matrix(self.p) if self.n else np.matrix(np.zeros((self.rows, 0)))


def expected(batches):
    """kept candidates: list of (column of tensor components, column of log-probabilities, scale factor)"""
    out = []
    for b in batches:
        for j in range(b.n):
            if b.keep[j]:
                out.append(([row[j] for row in b.m], [row[j] for row in b.p], b.scale[j]))
    return out


def marginal(t, col):
    """marginalised likelihood of a sample"""
    s = 0.0
    for v in col:
        if not is_ninf(v):
            s = s + t.exp(v)
    return s


def feed(t, w, np, s, batches, scale=False):
    for b in batches:
        if scale:
            s.append(b.tensors(np), b.ln_pdf(np), b.n, np.array(b.scale))
        else:
            s.append(b.tensors(np), b.ln_pdf(np), b.n)


def as2d(np, v):
    v = np.asarray(getattr(v, '_ln_pdf', v))
    return v if len(v.shape) == 2 else v.reshape(1, -1)


def verify(t, w, np, s, batches, scale=False, discard=0, probs=True):
    """compare the output with the kept candidates"""
    want = expected(batches)
    total = sum(b.n for b in batches)
    t.claim_true(len(s) == total, 'tried samples')
    out, text = s.output(n_samples=total, discard=discard)
    if not want:
        t.claim_true(len(flat(np, out['probability'])) == 0, 'empty result')
        t.claim_true('moment_tensor_space' not in out or out['moment_tensor_space'].shape[1] == 0, 'no tensors')
        return out
    ev = batches[0].events
    spaces = [out['moment_tensor_space']] if ev == 1 else [out['moment_tensor_space_%d' % (e + 1)] for e in range(ev)]
    p = flat(np, out['probability'])
    l = flat(np, as2d(np, out['ln_pdf']))
    t.claim_true(len(p) == len(want) and len(l) == len(want), 'number of samples')
    for e, sp in enumerate(spaces):
        t.claim_true(tuple(sp.shape) == (6, len(want)), 'tensor columns')
        for j, x in enumerate(want):
            for i in range(6):
                t.claim_eq(sp[i, j], x[0][6 * e + i], 'tensor of sample')
    S = 0.0
    for x in want:
        S = S + marginal(t, x[1])
    for j, x in enumerate(want):
        t.claim_eq(t.exp(l[j]), marginal(t, x[1]), 'log-probability of sample')
        if probs:
            t.claim_eq(p[j] * S, marginal(t, x[1]), 'normalised probability')
    if scale:
        t.claim_true(len(out['scale_factors']) == len(want), 'number of scale factors')
        for j, x in enumerate(want):
            t.claim_eq(out['scale_factors'][j], x[2], 'scale factor of sample')
    return out


def masks(t, tag, n, patterns):
    k = PATTERNS[:patterns][t.choose('pattern' + tag, patterns)] if n > 1 else ('none', 'all')[t.choose('pattern' + tag, 2)] if n else 'none'
    return lambda j: keep(k, j, n)


def small(t):
    """keep the concrete oracle in the double range"""
    return t.symbolic


def history(t, w, np, sizes, inc, patterns=6, events=1, rows=1, scale=False, every=False):
    batches = []
    for i in range(len(sizes)):
        n = sizes[i]
        if every:
            bits = [t.choose('keep%d_%d' % (i, j), 2) for j in range(n)]
            mask = lambda j, bits=bits: bool(bits[j])
        else:
            mask = masks(t, str(i), n, patterns)
        batches.append(Batch(t, np, '%d' % i, n, mask, events, rows))
    s = smp(w).Sample(initial_sample_size=inc, number_events=events)
    feed(t, w, np, s, batches, scale)
    return verify(t, w, np, s, batches, scale, probs=len(expected(batches)) <= 3)


@harness(bounds='increment 1 or 2; 2 batches of 0 to 3 increments; each batch all, none, every other, only first or only last non-zero', max_paths=3000, time_s=600, samples=40, thorough={'time_s': 3000})
def two_batches(t, w, np):
    """growth path and exact fits: every kept sample once, in order, with its own probability"""
    inc = 1 + t.choose('increment', 2)
    sizes = [t.choose('size%d' % i, 3 * inc + 1) for i in range(2)]
    history(t, w, np, sizes, inc, patterns=6 if t.tier == 'thorough' else 4)


@harness(bounds='increment 1; 3 batches of 0 to 2 samples (thorough: 0 to 3), every zero pattern', max_paths=3000, time_s=600, thorough={'max_paths': 20000, 'time_s': 3000})
def three_batches(t, w, np):
    """every pattern of zero probabilities"""
    top = 4 if t.tier == 'thorough' else 3
    history(t, w, np, [t.choose('size%d' % i, top) for i in range(3)], 1, every=True)


@harness(bounds='increment 3, one batch of 0 to 9 samples after one of 0 to 3', max_paths=2000, time_s=600)
def large_batch(t, w, np):
    """one batch needing several increments"""
    history(t, w, np, [t.choose('size0', 4), t.choose('size1', 10)], 3, patterns=3)


@harness(bounds='2 events, increment 1; 2 batches of 1 to 3 samples, every zero pattern', max_paths=2000, time_s=600)
def two_events(t, w, np):
    """joint samples: each event keeps its own tensors and the scale factors stay paired"""
    history(t, w, np, [1 + t.choose('size%d' % i, 3) for i in range(2)], 1, events=2, scale=True, every=True)


@harness(bounds='3 events, increment 2, one or two batches', max_paths=2000, time_s=600)
def three_events(t, w, np):
    """joint samples of three events"""
    history(t, w, np, [1 + t.choose('size%d' % i, 2) for i in range(2)], 2, events=3, every=True)


@harness(bounds='2 rows (un-marginalised), increment 1; 2 batches of 1 to 2 samples; every zero pattern by entry', max_paths=3000, time_s=600)
def rows(t, w, np):
    """un-marginalised log-PDFs: a sample is zero when all its rows are"""
    batches = []
    for i in range(2):
        n = 1 + t.choose('size%d' % i, 2)
        b = Batch(t, np, str(i), n, lambda j: True, rows=2)
        for j in range(n):
            for r in range(2):
                if t.choose('zero%d_%d_%d' % (i, j, r), 2):
                    b.p[r][j] = -INF
            b.keep[j] = not (is_ninf(b.p[0][j]) and is_ninf(b.p[1][j]))
        batches.append(b)
    s = smp(w).Sample(initial_sample_size=1)
    feed(t, w, np, s, batches)
    verify(t, w, np, s, batches)


@harness(bounds='one batch as matrix, array, LnPDF or (single candidate) float; any value')
def containers(t, w, np):
    """the container of the log-probabilities does not matter"""
    k = t.choose('container', 4)
    n = 1 if k == 3 else 2
    bits = [t.choose('keep%d' % j, 2) for j in range(n)]
    if k == 3:
        bits = [1]
    bs = []
    s = smp(w).Sample(initial_sample_size=1)
    for i in range(2):
        b = Batch(t, np, str(i), n, lambda j: bool(bits[j]))
        v = b.ln_pdf(np)
        if k == 1:
            v = np.array(b.p)
        elif k == 2:
            v = prob(w).LnPDF(v)
        elif k == 3:
            v = b.p[0][0] if not t.symbolic else v[0, 0]
        s.append(np.array(b.m) if i else b.tensors(np), v, n)
        bs.append(b)
    verify(t, w, np, s, bs)


@harness(bounds='3 samples in two batches, number of tried samples and discard factor free (>= 1)')
def discard(t, w, np):
    """only samples below max/(discard*n) are removed"""
    bs = [Batch(t, np, '0', 2, lambda j: True, free=True), Batch(t, np, '1', 1, lambda j: True, free=True)]
    s = smp(w).Sample(initial_sample_size=2)
    feed(t, w, np, s, bs)
    n = t.real('n', lo=1, special=(3, 10))
    d = t.real('discard', lo=1, special=(1, 10, 10000))
    want = expected(bs)
    xs = [x[1][0] for x in want]
    f = t.log(d * n)
    kept = []
    for i, x in enumerate(xs):
        below = False
        for y in xs:
            t.assume((y - x - f) * (y - x - f) > (0 if t.symbolic else 1e-12))
            below = below or bool(y - x > f)
        if not below:
            kept.append(i)
    out, text = s.output(n_samples=n, discard=d)
    sp = out['moment_tensor_space']
    p = flat(np, out['probability'])
    l = flat(np, as2d(np, out['ln_pdf']))
    t.claim_true(len(p) == len(kept) and sp.shape[1] == len(kept) and len(l) == len(kept), 'samples removed')
    if len(p) != len(kept):
        return
    S = None
    for x in xs:
        S = t.exp(x - xs[0]) if S is None else S + t.exp(x - xs[0])
    for a, j in enumerate(kept):
        for i in range(6):
            t.claim_eq(sp[i, a], want[j][0][i], 'tensor of kept sample')
        t.claim_eq(l[a], xs[j], 'log-probability of kept sample')
        t.claim_eq(p[a] * S, t.exp(xs[j] - xs[0]), 'probability of kept sample')


@harness(bounds='2 events with scale factors, 3 samples, discard on')
def discard_events(t, w, np):
    """discarding keeps events, probabilities and scale factors aligned"""
    low = t.choose('low', 3)
    bs = [Batch(t, np, str(low), 3, lambda j: True, events=2, free=lambda j: (-200, -100) if j == low else (0, 4))]
    s = smp(w).Sample(initial_sample_size=2, number_events=2)
    feed(t, w, np, s, bs, True)
    want = expected(bs)
    xs = [x[1][0] for x in want]
    out, text = s.output(n_samples=10, discard=10)
    kept = [i for i in range(3) if i != low]
    l = flat(np, as2d(np, out['ln_pdf']))
    t.claim_true(len(l) == 2 and len(out['scale_factors']) == 2, 'samples removed')
    for a, j in enumerate(kept):
        for e in range(2):
            for i in range(6):
                t.claim_eq(out['moment_tensor_space_%d' % (e + 1)][i, a], want[j][0][6 * e + i], 'tensor of kept sample')
        t.claim_eq(l[a], xs[j], 'log-probability of kept sample')
        t.claim_eq(out['scale_factors'][a], want[j][2], 'scale factor of kept sample')


@harness(bounds='up to 3 all-zero batches of 0 to 2 samples, one or two events; through the store and through the algorithm')
def all_zero(t, w, np):
    """an all-zero history gives an explicit empty result"""
    ev = 1 + t.choose('events', 2)
    k = 1 + t.choose('batches', 3)
    bs = [Batch(t, np, str(i), t.choose('size%d' % i, 3) if i or ev == 1 else 1, lambda j: False, events=ev) for i in range(k)]
    total = sum(b.n for b in bs)
    a = w.load('MTfit.algorithms.monte_carlo').IterationSample(number_samples=2, number_events=ev, max_samples=100)
    feed(t, w, np, a.pdf_sample, bs)
    for c in (False, True):
        out, text = a.output(convert=c)
        t.claim_true(len(flat(np, out['probability'])) == 0, 'empty result')
        t.claim_true(out['total_number_samples'] == total, 'tried samples')
        t.claim_true(not any('moment_tensor' in x for x in out), 'no tensors')


@harness(bounds='up to 4 batches, any batch sizes and any limit')
def limit(t, w, np):
    """sample-count-limited sampling stops at the first batch reaching the limit, and counts every try"""
    top = t.real('limit', lo=1, hi=1000, special=(5, 6))
    a = w.load('MTfit.algorithms.monte_carlo').IterationSample(number_samples=1, max_samples=10)
    a.max_samples = top
    task, end = a.initialise()
    t.claim_true(not end, 'starts')
    n = 0
    for i in range(4):
        k = t.real('n%d' % i, lo=0, hi=1000, special=(1, 2, 3))
        b = Batch(t, np, str(i), 1, lambda j: bool(i % 2))
        task, end = a.iterate({'moment_tensors': b.tensors(np), 'ln_pdf': b.ln_pdf(np), 'n': k})
        n = n + k
        t.claim_eq(a.pdf_sample.n, n, 'tried samples')
        if t.symbolic:
            t.claim_true((n >= top) if end else (n < top), 'stops at the limit')
        elif abs(n - top) > 1e-9:
            t.claim_true(bool(end) == bool(n >= top), 'stops at the limit')
        if end:
            break
    t.claim_eq(a.total_number_samples, n, 'total number of samples')


@harness(bounds='limits of 1 to 7, batches of 1 to 3 samples, random candidates, 1 or 2 events')
def limit_run(t, w, np):
    """a whole run through the constructor: max_samples is the limit used, and every batch has the requested size"""
    top = 1 + t.choose('limit', 7)
    k = 1 + t.choose('batch', 3)
    ev = 1 + t.choose('events', 2)
    a = w.load('MTfit.algorithms.monte_carlo').IterationSample(number_samples=k, max_samples=top, number_events=ev)
    d = [1.5, -0.25, 0.75, 2.0, -1.25, 0.5, 0.125, -0.625]
    t.preset = {'randn': [d[(i * i + i // 8) % 8] for i in range(400)]}
    task, end = a.initialise()
    runs = 0
    while not end and runs < 9:
        runs += 1
        first = task[0] if ev > 1 else task
        t.claim_true(tuple(first.shape) == (6, k), 'batch size')
        t.claim_true(ev == 1 or len(task) == ev, 'events')
        task, end = a.iterate({'moment_tensors': task, 'ln_pdf': np.matrix([[-INF] * k]), 'n': k})
    t.preset = []
    t.claim_true(runs == -(-top // k), 'stops at the first batch that reaches the limit')
    t.claim_true(a.pdf_sample.n == runs * k, 'tried samples')
