"""C17: input files and the binary result format carry their data unchanged"""
import itertools

from symx.harness import harness
from .common import Disk
from .c01 import need

PRELOAD = ['MTfit.utilities.file_io', 'MTfit.inversion']
ASSUMPTIONS = ['writing a double with str() and reading it with float() gives it back (numbers in text files are opaque tokens naming their symbolic value)',
               'struct keeps doubles bit for bit (a symbolic number is packed as a NaN whose payload names it)']
OUTSIDE = ('more than 3 events, 2 data types per event and 3 stations per type; data before any header line; quoted fields; picks whose line is cut short; '
           'MATLAB files; scale-factor files; the header text of hyp output')
NAMES = ('S0271', 'AB', 'Q1', 'Z_9')
COLS = ('Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error')
ORDERS = (COLS, ('Error', 'Measured', 'TakeOffAngle', 'Azimuth', 'Name'), ('Azimuth', 'Name', 'Error', 'TakeOffAngle', 'Measured'),
          ('TakeOffAngle', 'Measured', 'Name', 'Azimuth', 'Error'), ('Name', 'TakeOffAngle', 'Azimuth', 'Error', 'Measured'))
# data type, values per measurement, values per error
TYPES = (('PPolarity', 1, 1), ('P/SHRMSAmplitudeRatio', 2, 2), ('PPolarityProbability', 2, 1), ('SHPolarity', 1, 1))


def fio(w):
    return w.load('MTfit.utilities.file_io')


def num(t, v):
    return str(v) if t.symbolic else repr(float(v))


class Rows(object):
    """the data of one type: n stations"""

    def __init__(self, t, tag, kind, n, first=0):
        self.key, self.nm, self.ne = kind
        self.names = [NAMES[(first + i) % len(NAMES)] for i in range(n)]
        self.az = [t.real('az%s_%d' % (tag, i), lo=0, hi=360) for i in range(n)]
        self.toa = [t.real('toa%s_%d' % (tag, i), lo=0, hi=180) for i in range(n)]
        self.m = [[t.real('m%s_%d_%d' % (tag, i, j), lo=-100, hi=100) for j in range(self.nm)] for i in range(n)]
        self.e = [[t.real('e%s_%d_%d' % (tag, i, j), lo=0, hi=10) for j in range(self.ne)] for i in range(n)]

    def lines(self, t, order, pad='', title=''):
        out = [self.key + title + ',' * (len(order) - 1), ','.join(order)]
        for i, n in enumerate(self.names):
            f = {'Name': n, 'Azimuth': pad + num(t, self.az[i]), 'TakeOffAngle': num(t, self.toa[i]) + pad,
                 'Measured': ' '.join(num(t, v) for v in self.m[i]), 'Error': ' '.join(num(t, v) for v in self.e[i])}
            out.append(','.join(f.get(c, 'x%d' % i) for c in order))
        return out

    def check(self, t, d, name):
        t.claim_true(list(d['Stations']['Name']) == self.names, name + ': stations in order')
        for key, want in (('Azimuth', self.az), ('TakeOffAngle', self.toa)):
            column(t, d['Stations'][key], [[v] for v in want], name + ': ' + key)
        column(t, d['Measured'], self.m, name + ': measured')
        column(t, d['Error'], self.e, name + ': error')


def column(t, x, want, name):
    t.claim_true(tuple(x.shape) == (len(want), len(want[0])), name + ': one row per station')
    if tuple(x.shape) == (len(want), len(want[0])):
        for i, row in enumerate(want):
            for j, v in enumerate(row):
                t.claim_eq(x[i, j], v, '%s of row %d' % (name, i), tol=0)


def check_events(t, got, events, name=''):
    t.claim_true(len(got) == len(events), name + 'one dictionary per event')
    for i, (uid, types) in enumerate(events):
        t.claim_true(sorted(got[i].keys()) == sorted([r.key for r in types] + ['UID']), '%sevent %d: its own data types' % (name, i))
        t.claim_true(got[i]['UID'] == (uid or str(i + 1)), '%sevent %d: UID' % (name, i))
        for r in types:
            r.check(t, got[i][r.key], '%sevent %d %s' % (name, i, r.key))


def text_of(t, events, orders, nl='\n', last=True, pad='', extra=False, sep=1, title=''):
    out, k = [], 0
    for i, (uid, types) in enumerate(events):
        if i:
            out += [',' * 4] * sep
        if uid:
            out.append('UID=%s,,,,' % uid)
        for r in types:
            o = orders[k % len(orders)]
            out += r.lines(t, (o + ('Comment',)) if extra else o, pad, title)
            k += 1
    return nl.join(out) + (nl if last else '')


SHAPES = (((2,),), ((1, 2),), ((1,), (1,)), ((2, 1), (1, 1)), ((1,), (2,), (1,)), ((3,), (1, 1)))


def make_events(t):
    shape = SHAPES[t.choose('shape', len(SHAPES))]
    first = t.choose('type', len(TYPES))
    uids = t.choose('uid', 3)
    events, k = [], 0
    for i, ns in enumerate(shape):
        rows = []
        for n in ns:
            rows.append(Rows(t, '%d_%d' % (i, len(rows)), TYPES[(first + k) % len(TYPES) if len(ns) == 1 else (first + len(rows)) % len(TYPES)], n, k))
            k += 1
        events.append((None if uids == 0 or (uids == 2 and i == 0) else 'ev_%d' % (7 * i + 3), rows))
    return events


@harness(bounds='up to 3 events of up to 2 data types with up to 3 stations; 5 column orders (changing between the types) and an extra column; ends of lines, padding, separators; any numbers')
def csv(t, w, np):
    """every event and data type of a CSV file, row for row"""
    F = fio(w)
    disk = Disk(t, F)
    try:
        events = make_events(t)
        o = t.choose('order', len(ORDERS))
        style = (t.choose('style', 2) * 2 + o) % 4
        kw = [dict(), dict(nl='\r\n', pad=' '), dict(last=False, extra=True), dict(sep=2, title=' ')][style]
        f = disk.write('data.csv', text_of(t, events, ORDERS[o:] + ORDERS[:o], **kw))
        check_events(t, F.parse_csv(f), events)
    finally:
        disk.close()


@harness(bounds='the files of csv in the first styles')
def inv(t, w, np):
    """the pickled file made from a CSV file loads to the same data"""
    F, I = fio(w), w.load('MTfit.inversion')
    disk = Disk(t, F, I)
    try:
        events = make_events(t)
        f = disk.write('data.csv', text_of(t, events, ORDERS))
        need(F, 'csv2inv')(f)
        load = need(I.Inversion, '_load')
        check_events(t, load(I.Inversion.__new__(I.Inversion), disk.path('data.inv')), events)
    finally:
        disk.close()


# -- NonLinLoc ----------------------------------------------------------------------------

MARKS = (('U', 1), ('?', 0), ('D', -1), ('+', 1), ('c', 1), ('-', -1), ('.', 0), ('P', 1), ('N', -1), ('u', 1), ('d', -1))


@harness(bounds='up to 2 events of up to 4 picks of 2 phases, every first-motion mark; any angles and pick errors')
def hyp(t, w, np):
    """the polarity picks of a hypocentre file with their stations and angles"""
    F = fio(w)
    disk = Disk(t, F)
    try:
        n_events = 1 + t.choose('events', 2)
        mark = t.choose('mark', len(MARKS))
        layout = t.choose('layout', 3)
        phases = (('P', 'P', 'S', 'P'), ('P',), ('S', 'P', 'S', 'S'))[layout]
        text, want = [], []
        for e in range(n_events):
            text += ['NLLOC "loc" "LOCATED" "Location completed."', 'SIGNATURE "x"',
                     'GEOGRAPHIC  OT 2012 01 0%d  10 27 %d.590100  Lat 64.3 Long -16.1 Depth 4.9' % (e + 1, 11 + e),
                     'PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr']
            picks = {}
            for k, ph in enumerate(phases):
                ch, pol = MARKS[(mark + k * 3 + e) % len(MARKS)]
                err = t.real('err%d_%d' % (e, k), lo=0, hi=10, lo_open=True)
                amp = t.real('amp%d_%d' % (e, k), lo=0, hi=10)
                az = t.real('az%d_%d' % (e, k), lo=0, hi=360)
                toa = t.real('toa%d_%d' % (e, k), lo=0, hi=180)
                text.append('  '.join([NAMES[k], '?', '?', '?', ph, ch, '20120101', '1027', '12.77', 'GAU', num(t, err), '-1.00e+00', num(t, amp), '-1.00e+00', '>', '2.1',
                                       '-0.03', '1.2', '1.5', '-4.4', '-0.9', '5.1', '201.5', num(t, az), num(t, toa), '9', '0.0']))
                if pol:
                    picks.setdefault(ph + 'Polarity', []).append((NAMES[k], pol, err, az, toa))
            text += ['END_PHASE', 'END_NLLOC', '']
            want.append(picks)
        f = disk.write('loc.hyp', '\n'.join(text))
        got = F.parse_hyp(f)
        t.claim_true(len(got) == n_events, 'one dictionary per event')
        for e, picks in enumerate(want):
            g = got[e]
            t.claim_true(sorted(k for k in g if k not in ('UID', 'hyp_file')) == sorted(picks), 'event %d: the phases with picks' % e)
            for key, p in picks.items():
                d, name = g[key], 'event %d %s' % (e, key)
                t.claim_true(list(d['Stations']['Name']) == [x[0] for x in p], name + ': stations in order')
                column(t, d['Measured'], [[t.lift(float(x[1]))] for x in p], name + ': polarity')
                column(t, d['Stations']['Azimuth'], [[x[3]] for x in p], name + ': azimuth')
                column(t, d['Stations']['TakeOffAngle'], [[x[4]] for x in p], name + ': take-off angle')
                t.claim_true(tuple(d['Error'].shape) == (len(p), 1), name + ': one error per pick')
                for i, x in enumerate(p):
                    t.claim_eq(d['Error'][i, 0] * p[0][2], d['Error'][0, 0] * x[2], '%s: errors scale with the pick errors (%d)' % (name, i))
                    t.claim_lt(0, d['Error'][i, 0], '%s: error %d positive' % (name, i))
    finally:
        disk.close()


# -- binary results -----------------------------------------------------------------------

CONVERTED = ('g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2')
TOTALS = (0, 1, 12345678901)


class Record(object):
    def __init__(self, t, np, tag, n, converted, end='', two=True, matrix=True):
        R = lambda name, **k: t.real('%s%s' % (name, tag), **k)
        self.n, self.converted, self.end = n, converted, end
        i = int(tag[1:])
        self.total = TOTALS[(t.choose('total', len(TOTALS)) + i) % len(TOTALS)]
        self.mt = [[R('m%d_%d_' % (i, j), lo=-1, hi=1) for j in range(n)] for i in range(6)]
        self.p = [R('p%d_' % j, lo=0) for j in range(n)]
        self.lnp = [R('l%d_' % j) for j in range(n)]
        if n and t.choose('zero', 2) != i % 2:
            self.p[0], self.lnp[0] = 0.0, -float('inf')
        self.conv = dict((c, [R('%s%d_' % (c, j)) for j in range(n)]) for c in CONVERTED) if converted else {}
        self.extra = (t.choose('evidence', 2) + i) % 2
        self.dkl, self.evidence = R('dkl', lo=0), R('evidence')
        wrap = lambda v: np.array(v, dtype=float)
        mts = np.array(self.mt).reshape(6, n) if n else np.zeros((6, 0))
        self.data = {'total_number_samples': self.total, 'moment_tensor_space' + end: np.matrix(mts) if matrix else mts}
        self.data['probability'] = np.matrix([self.p]) if two else np.array(self.p)
        self.data['ln_pdf'] = np.matrix([self.lnp]) if two else np.array(self.lnp)
        if self.extra:
            self.data['dkl'], self.data['ln_bayesian_evidence'] = self.dkl, self.evidence
        for c, v in self.conv.items():
            self.data[c + end] = np.array(v)

    def check(self, t, d, name):
        t.claim_true(int(d['total_number_samples']) == self.total, name + ': number of samples')
        m = d['moment_tensor_space']
        t.claim_true(tuple(m.shape) == (6, self.n), name + ': a six-vector per sample')
        if tuple(m.shape) != (6, self.n):
            return
        for i in range(6):
            for j in range(self.n):
                t.claim_eq(m[i, j], self.mt[i][j], '%s: component %d of sample %d' % (name, i, j), tol=1e-12)
        for key, want in (('probability', self.p), ('ln_pdf', self.lnp)):
            t.claim_true(int(d[key].size) == self.n, name + ': ' + key + ' per sample')
            for j in range(self.n):
                t.claim_eq(d[key].reshape(1, self.n)[0, j], want[j], '%s: %s of sample %d' % (name, key, j), tol=0)
        t.claim_true(sorted(k for k in d if k in CONVERTED) == sorted(self.conv), name + ': converted parameters')
        for c, v in self.conv.items():
            t.claim_true(tuple(d[c].shape) == (self.n,), name + ': %s per sample' % c)
            for j in range(self.n):
                t.claim_eq(d[c][j], v[j], '%s: %s of sample %d' % (name, c, j), tol=0)
        if self.extra:
            t.claim_eq(d['dkl'], self.dkl, name + ': divergence', tol=0)
            if 'ln_bayesian_evidence' in d or self.converted:
                t.claim_eq(d['ln_bayesian_evidence'], self.evidence, name + ': evidence', tol=0)


def binary_struct(t, F):
    if t.symbolic:
        from symx import text
        F.struct = text.Struct()


@harness(bounds='1 to 3 concatenated records of 0 to 3 samples, with and without converted parameters, evidence and impossible samples; any values', timeout=300)
def mt(t, w, np):
    """what is written to a binary result file is read back"""
    F = fio(w)
    disk = Disk(t, F)
    try:
        binary_struct(t, F)
        counts = ((0,), (1,), (3,), (2, 1), (1, 0, 2))[t.choose('records', 5)]
        c0 = t.choose('converted', 3)
        form = t.choose('form', 3)
        recs = [Record(t, np, '_%d' % i, n, c0 == 1 or (c0 == 2 and i % 2 == 0), '' if form < 2 else '_%d' % (i + 1), form != 1, form != 1) for i, n in enumerate(counts)]
        write = need(F, '_convert_mt_space_to_struct')
        out = [write(r.data)[0] if form < 2 else write(r.data, i + 1)[0] for i, r in enumerate(recs)]
        f = disk.path('out.mt')
        if form == 1:
            F.hyp_output(['text', b''.join(out)], disk.path('out.hyp'))
        else:
            code = need(F, 'HypOutputTask')(f, b''.join(out), True)()
            t.claim_true(code == 10, 'written')
        got = F.read_binary_output(f)
        t.claim_true(len(got) == len(recs), 'one output per record')
        for i, r in enumerate(recs):
            r.check(t, got[i], 'record %d' % i)
    finally:
        disk.close()
