"""Text and binary files holding symbolic numbers.

A symbolic number written to text becomes a token naming it; float() of a token gives the number back.  (str() of a double round-trips exactly, so this
loses nothing; any other formatting of a symbolic value is Unsupported.)  Files live in a dictionary."""
import io
import os
import re
import struct as _struct
import types

from . import core

NUMBERS = []
INDEX = {}         # by identity; NUMBERS keeps the objects alive
TOKEN = re.compile('^\ue000(\\d+)\ue001$')


def reset():
    """forget the numbers of an earlier path"""
    del NUMBERS[:]
    INDEX.clear()


def index(v):
    if id(v) not in INDEX:
        INDEX[id(v)] = len(NUMBERS)
        NUMBERS.append(v)
    return INDEX[id(v)]


def token(v):
    return '\ue000%d\ue001' % index(v)


def number(s):
    """the number a token names, or None"""
    m = TOKEN.match(s.strip())
    return NUMBERS[int(m.group(1))] if m else None


class Files(object):
    """an in-memory file system for the code under test; open() goes to `real_dir` in concrete runs"""

    def __init__(self):
        self.files = {}

    def open(self, name, mode='r', *a, **k):
        name = str(name)
        if '+' in mode:
            raise core.Unsupported('file opened for %s' % mode)
        empty = b'' if 'b' in mode else ''
        if set(mode) & set('wax'):
            old = self.files.get(name, empty) if 'a' in mode else empty
            return (_BinaryWriter if 'b' in mode else _Writer)(self, name, old)
        if name not in self.files:
            raise IOError(2, 'No such file or directory', name)
        s = self.files[name]
        if 'b' in mode:
            return io.BytesIO(s if isinstance(s, bytes) else s.encode('utf-8'))
        if isinstance(s, bytes):
            s = s.decode('utf-8')
        if k.get('newline', None) is None:
            s = s.replace('\r\n', '\n').replace('\r', '\n')
        return io.StringIO(s, newline='')

    def exists(self, name):
        return str(name) in self.files


class _Writer(io.StringIO):
    def __init__(self, fs, name, old):
        io.StringIO.__init__(self, newline='')
        self.fs, self.fname = fs, name
        fs.files[name] = old
        self.write(old)

    def close(self):
        if not self.closed:
            self.fs.files[self.fname] = self.getvalue()
        io.StringIO.close(self)

    def flush(self):
        if not self.closed:
            self.fs.files[self.fname] = self.getvalue()


class _BinaryWriter(io.BytesIO):
    def __init__(self, fs, name, old):
        io.BytesIO.__init__(self)
        self.fs, self.fname = fs, name
        fs.files[name] = old
        self.write(old)

    def close(self):
        if not self.closed:
            self.fs.files[self.fname] = self.getvalue()
        io.BytesIO.close(self)

    def flush(self):
        if not self.closed:
            self.fs.files[self.fname] = self.getvalue()


# -- doubles in binary files: a symbolic number is stored as a quiet NaN whose payload names it ---------------

PAYLOAD = 0x7ff8a5a500000000


def double(v):
    return _struct.unpack('<d', _struct.pack('<Q', PAYLOAD + index(v)))[0]


def undouble(f):
    if f != f:
        q = _struct.unpack('<Q', _struct.pack('<d', f))[0]
        if q >> 32 == PAYLOAD >> 32:
            return NUMBERS[q & 0xffffffff]
    return f


def _scalar(v):
    """a packable value: symbolic numbers become named NaNs, constants plain numbers"""
    import numpy as np
    if isinstance(v, np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    if isinstance(v, core.Sym):
        return True, v
    return False, v


class Struct(types.ModuleType):
    """struct for the code under test"""
    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)

    def __init__(self):
        types.ModuleType.__init__(self, 'struct')

    def pack(self, fmt, *vals):
        codes = ''
        for n, c in re.findall('(\\d*)([a-zA-Z?])', fmt):
            codes += c * int(n or 1) if c not in 'sp' else c
        out = []
        for c, v in zip(codes, vals):
            sym, x = _scalar(v)
            if sym:
                if c != 'd':
                    raise core.Unsupported('packing a symbolic number as %r' % c)
                x = double(x)
            out.append(x)
        return _struct.pack(fmt, *(out + list(vals[len(out):])))

    def unpack(self, fmt, data):
        return tuple(undouble(x) if isinstance(x, float) else x for x in _struct.unpack(fmt, data))

    def unpack_from(self, fmt, data, offset=0):
        return self.unpack(fmt, bytes(data)[offset:offset + _struct.calcsize(fmt)])

    def iter_unpack(self, fmt, data):
        n = _struct.calcsize(fmt)
        return iter([self.unpack(fmt, data[i:i + n]) for i in range(0, len(data), n)])

    class Struct(object):
        def __init__(self, fmt):
            self.format, self.size, self._m = fmt, _struct.calcsize(fmt), Struct()

        def pack(self, *v):
            return self._m.pack(self.format, *v)

        def unpack(self, d):
            return self._m.unpack(self.format, d)

        def unpack_from(self, d, offset=0):
            return self._m.unpack_from(self.format, d, offset)

        def iter_unpack(self, d):
            return self._m.iter_unpack(self.format, d)
