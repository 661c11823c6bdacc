"""helpers shared by the check modules"""
INF = float('inf')


def is_ninf(v):
    return isinstance(v, float) and v == -INF


def prob(w):
    return w.load('MTfit.probability.probability')


def conv(w):
    return w.load('MTfit.convert.moment_tensor_conversion')


def flat(np, r):
    return [v for v in np.asarray(r).flatten()]


def mt6(t, np, name, n, **k):
    """6 x n matrix of free six-vectors (the likelihoods do not rely on the norm)"""
    return np.array([[t.real('%s%d_%d' % (name, i, j), **k) for j in range(n)] for i in range(6)])


def coeffs(t, np, name, nu, nv, **k):
    """station coefficients (stations, location samples, 6)"""
    return np.array([[[t.real('%s%d_%d_%d' % (name, u, v, i), **k) for i in range(6)] for v in range(nv)] for u in range(nu)])


def dot6(a, m):
    s = a[0] * m[0]
    for i in range(1, 6):
        s = s + a[i] * m[i]
    return s


def line_mt(t, np, xs):
    """six-vectors whose amplitude with the coefficient row (1,0,0,0,0,0) is x"""
    return np.array([[x for x in xs]] + [[0.0] * len(xs) for _ in range(5)])


def unit_row(np, nu=1, nv=1):
    return np.array([[[1.0, 0.0, 0.0, 0.0, 0.0, 0.0] for _ in range(nv)] for _ in range(nu)])


def any_of(cs):
    c = cs[0]
    for k in cs[1:]:
        c = c | k
    return c


def all_of(cs):
    c = cs[0]
    for k in cs[1:]:
        c = c & k
    return c


class Disk(object):
    """files for the code under test: in memory with symbolic numbers, or real ones in a scratch directory when replaying"""

    def __init__(self, t, *mods):
        from symx import core, text
        self.t = t
        if t.symbolic:
            core.TOKENS[0] = True
            text.reset()
            self.fs = text.Files()
            for m in mods:
                m.open = self.fs.open
        else:
            import tempfile
            self.dir = tempfile.mkdtemp(prefix='verif_')
            import atexit
            import shutil
            atexit.register(shutil.rmtree, self.dir, True)

    def path(self, name):
        import os
        return name if self.t.symbolic else os.path.join(self.dir, name)

    def write(self, name, s):
        if self.t.symbolic:
            self.fs.files[name] = s
        else:
            with open(self.path(name), 'w', newline='') as f:
                f.write(s)
        return self.path(name)

    def close(self):
        if not self.t.symbolic:
            import shutil
            shutil.rmtree(self.dir, True)
        else:
            from symx import core
            core.TOKENS[0] = False
