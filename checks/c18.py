"""C18: reading and binning location samples conserves probability mass"""
import itertools

from symx.harness import harness
from .common import Disk, all_of, any_of
from .c01 import need

PRELOAD = ['MTfit.extensions.scatangle']
ASSUMPTIONS = ['writing a double with str() and reading it with float() gives it back (so numbers in files are opaque tokens naming their symbolic value)',
               'within one file to be binned every sample lists the same stations in the same order']
OUTSIDE = ('more than 4 samples of up to 3 stations; zero or negative weights; blocks without a weight line; lines of blanks only')
NAMES = ('S0271', 'S0649', 'AB', 'Q1')


def sca(w):
    return w.load('MTfit.extensions.scatangle')


def num(t, v):
    return str(v) if t.symbolic else repr(float(v))


def weight(t, tag):
    return t.real('w' + tag, lo=0, hi=1000, lo_open=True, dist=lambda r: r.uniform(0.5, 900))


class Block(object):
    def __init__(self, t, tag, names, centre=None, spread=4):
        self.w = weight(t, tag)
        self.names = list(names)
        c = centre or (lambda i: (0, 360, 0, 180))
        self.az, self.toa = [], []
        for i in range(len(names)):
            a, b, p, q = c(i)
            self.az.append(t.real('az%s_%d' % (tag, i), lo=a, hi=b))
            self.toa.append(t.real('toa%s_%d' % (tag, i), lo=p, hi=q))

    def text(self, t, sep='\t', lead='', nl='\n', tail=''):
        return nl.join([lead + num(t, self.w) + tail] + [lead + n + sep + num(t, a) + sep + num(t, b) + tail for n, a, b in zip(self.names, self.az, self.toa)]) + nl


def values(t, r):
    """names, azimuths and take-off angles of a record"""
    az, toa = r['Azimuth'], r['TakeOffAngle']
    return list(r['Name']), col(az), col(toa)


def col(x):
    return [x[i, 0] for i in range(x.shape[0])]


def matches(t, r, w, b, name):
    t.claim_true(list(r['Name']) == b.names, name + ': stations in order')
    for key, want in (('Azimuth', b.az), ('TakeOffAngle', b.toa)):
        t.claim_true(tuple(r[key].shape) == (len(want), 1), name + ': one %s per station' % key)
        for i, v in enumerate(want):
            t.claim_eq(r[key][i, 0], v, name + ': %s of station %d' % (key, i), tol=0)
    t.claim_eq(w, b.w, name + ': weight', tol=0)


def file_of(t, disk, blocks, nl='\n', last='blank', sep='\t', lead='', tail=''):
    s = nl.join(b.text(t, sep, lead, nl, tail) for b in blocks)
    if last == 'blank':
        s += nl
    elif last == 'none':
        s = s[:-len(nl)]
    elif last == 'two':
        s += nl + nl
    return disk.write('loc.scatangle', s)


SHAPES = ([2], [1, 1], [2, 1], [1, 2, 2], [3, 1, 1])
LAST = ('blank', 'newline', 'none', 'two')
STYLES = (('\n', '\t', '', ''), ('\r\n', '\t', '', ''), ('\n', '   ', '\t', ' '))


@harness(bounds='up to 3 sample blocks of 1 to 3 stations, each with its own stations; Unix and Windows line ends, tabs and blanks; every ending of the file')
def read(t, w, np):
    """one record per block, in order, with its own stations, angles and weight"""
    S = sca(w)
    disk = Disk(t, S)
    try:
        shape = SHAPES[t.choose('blocks', len(SHAPES))]
        nl, sep, lead, tail = STYLES[t.choose('style', len(STYLES))]
        blocks = [Block(t, str(i), NAMES[i:] [:n] if n < 3 else NAMES[:3]) for i, n in enumerate(shape)]
        f = file_of(t, disk, blocks, nl, LAST[t.choose('last', len(LAST))], sep, lead, tail)
        how = t.choose('how', 2)
        r, p = S.parse_scatangle(f) if how else S.parse_scatangle(f, 0, 0)
        t.claim_true(len(r) == len(p) == len(blocks), 'one record per block')
        for i, b in enumerate(blocks):
            matches(t, r[i], p[i], b, 'block %d' % i)
    finally:
        disk.close()


@harness(bounds='up to 3 records of 1 to 3 stations')
def rewrite(t, w, np):
    """records written out and read again are the same records"""
    S = sca(w)
    disk = Disk(t, S)
    try:
        shape = SHAPES[t.choose('blocks', len(SHAPES))]
        blocks = [Block(t, str(i), NAMES[:n]) for i, n in enumerate(shape)]
        form = t.choose('form', 2)
        A = lambda v: np.matrix([[x] for x in v]) if form else np.array([[x] for x in v])
        f = disk.path('out.scatangle')
        W = [b.w for b in blocks]
        need(S, '_output_scatangle')(f, [{'Name': b.names, 'Azimuth': A(b.az), 'TakeOffAngle': A(b.toa)} for b in blocks], np.array(W) if form else W)
        r, p = S.parse_scatangle(f)
        t.claim_true(len(r) == len(p) == len(blocks), 'one record per block')
        for i, b in enumerate(blocks):
            matches(t, r[i], p[i], b, 'block %d' % i)
    finally:
        disk.close()


def same(t, r, b):
    """record r is block b (structurally when symbolic)"""
    if list(r['Name']) != b.names:
        return False
    for key, want in (('Azimuth', b.az), ('TakeOffAngle', b.toa)):
        for i, v in enumerate(want):
            x = r[key][i, 0]
            if t.symbolic:
                d = t.lift(x) - v
                if not (d.isconst() and d.cval() == 0):
                    return False
            elif abs(float(x) - float(v)) > 1e-9:
                return False
    return True


def near(t, a, b, bin_size):
    ok = []
    for x, y in zip(a.az + a.toa, b.az + b.toa):
        ok += [x - y < bin_size / 2, y - x < bin_size / 2]
    return all_of(ok)


def binned(t, r, p, blocks, bin_size):
    """r, p is a partition of the blocks into bins around retained samples"""
    n = len(blocks)
    t.claim_true(len(r) == len(p) <= n and len(r) > 0, 'one weight per bin')
    total = sum((b.w for b in blocks[1:]), blocks[0].w)
    t.claim_eq(sum((v for v in p[1:]), p[0]), total, 'weights of the bins add up to those of the samples')
    if t.symbolic and bool(t.lift(bin_size) == 0) or not t.symbolic and bin_size == 0:
        t.claim_true(len(r) == n, 'nothing merged with a zero bin size')
    ways = []
    tol = 0 if t.symbolic else 1e-6
    for keep in itertools.combinations(range(n), len(r)):
        if not all(same(t, r[i], blocks[k]) for i, k in enumerate(keep)):
            continue
        drop = [i for i in range(n) if i not in keep]
        for to in itertools.product(range(len(keep)), repeat=len(drop)):
            c = []
            for i, k in enumerate(keep):
                s = blocks[k].w
                for d, j in zip(drop, to):
                    if j == i:
                        s = s + blocks[d].w
                        c.append(near(t, blocks[d], blocks[k], bin_size))
                c.append(t.lift(p[i]) == s if t.symbolic else abs(p[i] - s) <= tol * abs(s))
            ways.append(all_of(c))
    t.claim_true(any_of(ways) if ways else False, 'every bin keeps one original record, in file order, with the weights of the samples merged into it, '
                 'all within half the bin size of it')


def cluster(spread):
    return lambda i: (100 + 10 * i, 100 + 10 * i + spread, 90 + 5 * i, 90 + 5 * i + spread)


@harness(bounds='up to 3 samples of 2 stations or 2 of 3 (4 of 2 in the thorough tier), angles anywhere, every bin size', thorough={'time_s': 2000, 'max_paths': 20000}, time_s=400)
def bins(t, w, np):
    """binning merges only close samples and conserves the weights"""
    S = sca(w)
    disk = Disk(t, S)
    try:
        n, st = ((2, 1), (3, 1), (2, 2), (3, 2), (2, 3), (4, 1), (4, 2))[t.choose('shape', 7 if t.tier == 'thorough' else 5)]
        blocks = [Block(t, str(i), NAMES[:st], cluster(20)) for i in range(n)]
        b = t.real('bin', lo=0, hi=360, special=(0,), dist=lambda r: r.uniform(0, 30))
        f = file_of(t, disk, blocks)
        r, p = S.parse_scatangle(f, 0, b)
        binned(t, list(r), list(p), blocks, b)
    finally:
        disk.close()


@harness(bounds='3 samples of 1 station, the written file read back', time_s=300)
def command(t, w, np):
    """the binning command writes the binned records, and leaves the input alone"""
    S = sca(w)
    disk = Disk(t, S)
    try:
        blocks = [Block(t, str(i), NAMES[:1], cluster(8)) for i in range(3)]
        f = file_of(t, disk, blocks)
        old, new = S.bin_scatangle(f, 0, 2.5)
        t.claim_true(old == f and new != f, 'file names')
        r, p = S.parse_scatangle(new)
        binned(t, list(r), list(p), blocks, t.lift(2.5))
        r, p = S.parse_scatangle(f)
        t.claim_true(len(r) == len(blocks), 'the input file is left alone')
    finally:
        disk.close()


@harness(bounds='3 samples of 1 station, every choice of 1 to 4 of them, binned or not')
def subsample(t, w, np):
    """sub-sampling keeps records with their own weights, each at most once"""
    S = sca(w)
    disk = Disk(t, S)
    try:
        blocks = [Block(t, str(i), NAMES[:1], cluster(8)) for i in range(3)]
        f = file_of(t, disk, blocks)
        k = 1 + t.choose('k', 4)
        orders = list(itertools.permutations(range(3), min(k, 3)))
        pick = list(orders[t.choose('pick', len(orders) if k < 3 else 1)])
        calls = []

        def choice(n, size=None, replace=True, p=None):
            n = n if isinstance(n, int) else len(n)
            calls.append((n, size, replace, p))
            import numpy
            return numpy.array(pick)

        R = S.np.random
        keep = R.choice
        R.choice = choice
        try:
            bin_size = (0, 3.0)[t.choose('binned', 2)]
            r, p = S.parse_scatangle(f, k, bin_size)
        finally:
            R.choice = keep
        r, p = list(r), list(p)
        if k >= 3:
            used = blocks
        else:
            used = [blocks[i] for i in pick]
            t.claim_true(all(c[0] == 3 and c[1] == k and not c[2] for c in calls), 'a choice of distinct samples')
        if bin_size:
            binned(t, r, p, used, t.lift(bin_size))
        else:
            t.claim_true(len(r) == len(p) == len(used), 'number of samples')
            for i, b in enumerate(used):
                matches(t, r[i], p[i], b, 'sample %d' % i)
    finally:
        disk.close()
