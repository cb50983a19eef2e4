"""Symbolic containers: bytes, str, dict/set with symbolic keys, in-memory binary files."""
import z3

from .frac import SymFrac
from .core import (SymInt, SymBool, SymFP, TabFP, SymReal, DyFP, QuoFP, SymHash, HashGuard, Unmodelled, ex, mkbool,
                   negate, to_z3bool, is_symfloat, sym_mod, floordiv_const, lift_int, mkint)


def conj(conds):
    out = []
    for c in conds:
        if c is False:
            return False
        if c is True:
            continue
        out.append(to_z3bool(c))
    if not out:
        return True
    return mkbool(z3.And(out) if len(out) > 1 else out[0])


RANGES = {}


def ranges(method):
    """The code points from 128 on of which the str method is true, as ranges."""
    if method not in RANGES:
        out, start = [], None
        for k in range(128, 0x110000):
            if getattr(chr(k), method)():
                if start is None:
                    start = k
            elif start is not None:
                out.append((start, k - 1))
                start = None
        RANGES[method] = out
    return RANGES[method]


def beyond(c, method, r):
    """r, the condition for ASCII c, extended to every c."""
    if type(c) is not SymInt or c.hi < 128:
        if type(c) is int and c >= 128:
            return getattr(chr(c), method)()
        return r
    return disj([r] + [conj([c >= a, c <= b]) for a, b in ranges(method) if a <= c.hi])


def ascii_only(c):
    if c >= 128 if type(c) is int else (c.hi >= 128 and not bool(c < 128)):
        raise Unmodelled('class of a non-ascii character')


def disj(conds):
    out = []
    for c in conds:
        if c is True:
            return True
        if c is False:
            continue
        out.append(to_z3bool(c))
    if not out:
        return False
    return mkbool(z3.Or(out) if len(out) > 1 else out[0])


# ------------------------------------------------------------------------------------- bytes

def mkbytes(items):
    items = list(items)
    if all(type(b) is int for b in items):
        return bytes(items)
    return SymBytes(items)


def bytes_items(x):
    t = type(x)
    if t in (bytes, bytearray, memoryview):
        return list(bytes(x))
    if t in (SymBytes, SymByteArray):
        return list(x.b)
    return None


def is_symbytes(x):
    return type(x) in (SymBytes, SymByteArray)


def norm_slice(s, n):
    def c(v):
        return v.concretize('slice') if type(v) is SymInt else v
    return slice(c(s.start), c(s.stop), c(s.step))


class _BytesBase:
    __slots__ = ('b',)
    _cls = bytes

    def _mk(self, items):
        return mkbytes(items)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(list(self.b))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.b[norm_slice(i, len(self.b))])
        if type(i) is SymInt:
            i = i.concretize('bytes index')
        return self.b[i]

    def __add__(self, o):
        it = bytes_items(o)
        if it is None:
            return NotImplemented
        return self._mk(list(self.b) + it)

    def __radd__(self, o):
        it = bytes_items(o)
        if it is None:
            return NotImplemented
        return mkbytes(it + list(self.b))

    def __mul__(self, n):
        if type(n) is SymInt:
            n = n.concretize('repeat')
        return self._mk(list(self.b) * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        it = bytes_items(o)
        if it is None:
            return False
        if len(it) != len(self.b):
            return False
        return conj(x == y for x, y in zip(self.b, it))

    def __ne__(self, o):
        return negate(self == o)

    def __lt__(self, o):
        it = bytes_items(o)
        if it is None:
            return NotImplemented
        return list(self.b) < it

    def __contains__(self, o):
        it = bytes_items(o)
        if it is None:
            return any(bool(x == o) for x in self.b)
        return self.find(o) >= 0

    def __hash__(self):
        if HashGuard.on:
            raise SymHash()
        return hash(self.realize())

    def realize(self):
        return bytes(b if type(b) is int else b.concretize('bytes') for b in self.b)

    def __bytes__(self):
        return self.realize()

    def __repr__(self):
        return '<symbolic bytes[%d]>' % len(self.b)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q, *a) for q in p)
        v = self[slice(*a)] if a else self
        it = bytes_items(p)
        vi = bytes_items(v)
        if len(vi) < len(it):
            return False
        return conj(x == y for x, y in zip(vi, it))

    def endswith(self, p):
        it = bytes_items(p)
        if len(self.b) < len(it):
            return False
        return conj(x == y for x, y in zip(self.b[len(self.b) - len(it):], it))

    def find(self, sub, start=0, end=None):
        n = len(self.b) if end is None else min(end, len(self.b))
        it = [sub] if lift_int(sub) is not None else bytes_items(sub)
        for i in range(start, n - len(it) + 1):
            if bool(conj(x == y for x, y in zip(self.b[i:i + len(it)], it))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        it = [sub] if lift_int(sub) is not None else bytes_items(sub)
        if len(it) != 1:
            raise Unmodelled('bytes.count')
        return sum(1 for x in self.b if bool(x == it[0]))

    def join(self, parts):
        return bytes_join(self, parts)

    def _in_set(self, x, chars):
        return bool(disj(x == c for c in chars))

    def rstrip(self, chars=None):
        chars = bytes_items(b' \t\n\r\x0b\x0c' if chars is None else chars)
        n = len(self.b)
        while n and self._in_set(self.b[n - 1], chars):
            n -= 1
        return self._mk(self.b[:n])

    def lstrip(self, chars=None):
        chars = bytes_items(b' \t\n\r\x0b\x0c' if chars is None else chars)
        i = 0
        while i < len(self.b) and self._in_set(self.b[i], chars):
            i += 1
        return self._mk(self.b[i:])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        return self._mk(self.b[len(bytes_items(p)):]) if bool(self.startswith(p)) else self._mk(self.b)

    def removesuffix(self, p):
        n = len(bytes_items(p))
        return self._mk(self.b[:len(self.b) - n]) if n and bool(self.endswith(p)) else self._mk(self.b)

    def hex(self, *a):
        return self.realize().hex(*a)

    def tobytes(self):
        return mkbytes(self.b)

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('-', '') not in ('ascii', 'latin1', 'iso88591'):
            for x in self.b:
                if type(x) is SymInt and not bool(x < 128):
                    raise Unmodelled('decode of non-ascii symbolic bytes')
        elif encoding.lower() == 'ascii':
            for x in self.b:
                if not bool(x < 128):
                    raise UnicodeDecodeError('ascii', b'', 0, 1, 'ordinal not in range(128)')
        return mkstr(list(self.b))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unmodelled('bytes.' + name)


class SymBytes(_BytesBase):
    __slots__ = ()

    def __init__(self, items):
        self.b = tuple(items)

    @property
    def __class__(self):
        return bytes


def _byte(v):
    v2 = lift_int(v)
    if v2 is None:
        raise TypeError('an integer is required')
    if bool(v2 < 0) or bool(v2 > 255):
        raise ValueError('byte must be in range(0, 256)')
    return v2


class SymByteArray(_BytesBase):
    __slots__ = ()

    def __init__(self, items=()):
        self.b = list(items)

    @property
    def __class__(self):
        return bytearray

    def _mk(self, items):
        return SymByteArray(items)

    def append(self, v):
        self.b.append(_byte(v))

    def extend(self, it):
        items = bytes_items(it)
        self.b.extend(items if items is not None else [_byte(v) for v in it])

    def insert(self, i, v):
        self.b.insert(i, _byte(v))

    def reverse(self):
        self.b.reverse()

    def pop(self, i=-1):
        return self.b.pop(i)

    def clear(self):
        self.b.clear()

    def copy(self):
        return SymByteArray(self.b)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            items = bytes_items(v)
            self.b[norm_slice(i, len(self.b))] = items if items is not None else [_byte(x) for x in v]
        else:
            if type(i) is SymInt:
                i = i.concretize('bytearray index')
            self.b[i] = _byte(v)

    def __delitem__(self, i):
        del self.b[i]

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


def bytes_join(sep, parts):
    s = bytes_items(sep)
    out = []
    first = True
    for p in parts:
        it = bytes_items(p)
        if it is None:
            raise TypeError('sequence item: expected a bytes-like object')
        if not first:
            out.extend(s)
        out.extend(it)
        first = False
    return mkbytes(out)


class SymBytesIO:
    """In-memory binary file; also what the harness hands out as a recording file object."""

    def __init__(self, initial=b''):
        self.buf = bytes_items(initial)
        self.i = 0
        self.closed = False
        self.writes = []

    def _ok(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._ok()
        if n is None or (type(n) is int and n < 0):
            n = max(0, len(self.buf) - self.i)
        avail = max(0, len(self.buf) - self.i)
        if type(n) is SymInt:
            if bool(n < 0) or bool(n >= avail):
                n = avail
            else:
                n = n.concretize('read size')
        r = mkbytes(self.buf[self.i:self.i + n])
        self.i += len(r)
        return r

    read1 = read

    def readinto(self, b):
        r = bytes_items(self.read(len(b)))
        b[:len(r)] = r
        return len(r)

    def write(self, data):
        self._ok()
        it = bytes_items(data)
        if it is None:
            raise TypeError('a bytes-like object is required')
        if self.i > len(self.buf):
            self.buf.extend([0] * (self.i - len(self.buf)))
        self.buf[self.i:self.i + len(it)] = it
        self.i += len(it)
        self.writes.append(mkbytes(it))
        return len(it)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def seek(self, off, whence=0):
        self._ok()
        if type(off) is SymInt:
            off = off.concretize('seek')
        self.i = max(0, off if whence == 0 else self.i + off if whence == 1 else len(self.buf) + off)
        return self.i

    def tell(self):
        return self.i

    def truncate(self, n=None):
        n = self.i if n is None else n
        del self.buf[n:]
        return n

    def getvalue(self):
        self._ok()
        return mkbytes(self.buf)

    def getbuffer(self):
        self._ok()
        return SymBytes(self.buf)

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        self._ok()
        return self

    def __exit__(self, *a):
        self.close()
        return False


# --------------------------------------------------------------------------------------- str
# A SymStr is a list of pieces: str fragments, symbolic code points (SymInt), Dec(SymInt) decimal
# renderings (expanded to digits only when looked into) and Opaque renderings (floats).

class Dec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Opaque:
    __slots__ = ('tag', 'v', 'spec')

    def __init__(self, tag, v, spec=''):
        self.tag, self.v, self.spec = tag, v, spec


def mkstr(pieces):
    out = []
    for p in pieces:
        if type(p) is int:
            p = chr(p)
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
                continue
        elif type(p) is SymStr:
            for q in p.ps:
                if type(q) is str and out and type(out[-1]) is str:
                    out[-1] += q
                else:
                    out.append(q)
            continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return SymStr(out)


def dec_digits(v, limit=40):
    """Code points of str(v): forks on sign and digit count."""
    out = []
    if bool(v < 0):
        out.append(ord('-'))
        v = -v
    if type(v) is int:
        return out + [ord(c) for c in str(v)]
    n = 1
    while bool(v >= 10 ** n):
        n += 1
        if n > limit:
            raise Unmodelled('decimal rendering of an unbounded integer')
    for i in range(n - 1, -1, -1):
        out.append(sym_mod(floordiv_const(v, 10 ** i), 10) + 48)
    return out


def str_cps(x):
    """Code points of a str or SymStr, or None."""
    if type(x) is str:
        return [ord(c) for c in x]
    if type(x) is SymStr:
        return x.cps()
    return None


def _identical(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is SymInt:
        return a.p == b.p
    if type(a) is DyFP:
        return type(a.k) is type(b.k) and a.k == b.k and _identical(a.n, b.n)
    if type(a) is TabFP:
        return _identical(a.i, b.i) and a.t == b.t
    return a is b


def _same_shape(a, b):
    """Conditions under which two texts of the same layout are equal, or None when the layouts differ.

    A decimal number is followed by the end or by a character that is no digit, so equal texts have equal numbers."""
    if len(a) != len(b):
        return None
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if type(x) is not type(y):
            return None
        if type(x) is str:
            if x != y:
                return None
            if i and type(a[i - 1]) is Dec and x[0].isdigit():
                return None
        elif type(x) is Dec:
            if i and type(a[i - 1]) is not str:
                return None
            out.append(x.v == y.v)
        elif type(x) is Opaque:
            if (x.tag, x.spec) != (y.tag, y.spec) or not _identical(x.v, y.v):
                return None
            if i and type(a[i - 1]) is not str:
                return None
        else:
            return None
    return out


class SymStr:
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = ps

    @property
    def __class__(self):
        return str

    def cps(self):
        if any(type(p) is Dec for p in self.ps):
            out = []
            for p in self.ps:
                if type(p) is Dec:
                    out.extend(dec_digits(p.v))
                elif type(p) is str:
                    out.append(p)
                else:
                    out.append(p)
            self.ps = [chr(p) if type(p) is int else p for p in out]
        r = []
        for p in self.ps:
            if type(p) is str:
                r.extend(ord(c) for c in p)
            elif type(p) is Opaque and p.tag == 'float' and type(p.v) is TabFP:
                r.extend(ord(c) for c in format(p.v.concretize(), p.spec))
            elif type(p) is Opaque:
                raise Unmodelled('inspecting the text of a symbolic float')
            else:
                r.append(p)
        return r

    def _mk(self, cps):
        return mkstr(cps)

    def __len__(self):
        return len(self.cps())

    def __bool__(self):
        if any(type(p) in (Dec, str, SymInt) for p in self.ps):
            return True
        return bool(self.ps)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cps()])

    def __getitem__(self, i):
        c = self.cps()
        if isinstance(i, slice):
            return mkstr(c[norm_slice(i, len(c))])
        if type(i) is SymInt:
            i = i.concretize('str index')
        return mkstr([c[i]])

    def __add__(self, o):
        if type(o) not in (str, SymStr):
            return NotImplemented
        return mkstr([self, o])

    def __radd__(self, o):
        if type(o) not in (str, SymStr):
            return NotImplemented
        return mkstr([o, self])

    def __mul__(self, n):
        return mkstr([self] * (n.concretize('repeat') if type(n) is SymInt else n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) not in (str, SymStr):
            return False
        same = _same_shape(self.ps, o.ps if type(o) is SymStr else [o])
        if same is not None:
            return conj(same)
        a, b = self.cps(), str_cps(o)
        if len(a) != len(b):
            return False
        return conj(x == y for x, y in zip(a, b))

    def __ne__(self, o):
        return negate(self == o)

    def _lex(self, o, tail):
        """Decided at the first difference; tail(len(a), len(b)) when one text is a prefix of the other."""
        if type(o) not in (str, SymStr):
            return NotImplemented
        a, b = self.cps(), str_cps(o)
        for x, y in zip(a, b):
            if bool(x < y):
                return tail(0, 1)
            if bool(x > y):
                return tail(1, 0)
        return tail(len(a), len(b))

    def __lt__(self, o):
        return self._lex(o, lambda m, n: m < n)

    def __le__(self, o):
        return self._lex(o, lambda m, n: m <= n)

    def __gt__(self, o):
        return self._lex(o, lambda m, n: m > n)

    def __ge__(self, o):
        return self._lex(o, lambda m, n: m >= n)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __hash__(self):
        if HashGuard.on:
            raise SymHash()
        return hash(self.realize())

    def realize(self):
        return ''.join(chr(c if type(c) is int else c.concretize('str')) for c in self.cps())

    def __str__(self):
        return self.realize()

    def __repr__(self):
        return '<symbolic str>'

    def __format__(self, spec):
        return '<symbolic str>'

    def find(self, sub, start=0, end=None):
        a, s = self.cps(), str_cps(sub)
        n = len(a) if end is None else end
        for i in range(start, n - len(s) + 1):
            if bool(conj(x == y for x, y in zip(a[i:i + len(s)], s))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub):
        a, s = self.cps(), str_cps(sub)
        for i in range(len(a) - len(s), -1, -1):
            if bool(conj(x == y for x, y in zip(a[i:i + len(s)], s))):
                return i
        return -1

    def count(self, sub):
        s = str_cps(sub)
        if len(s) != 1:
            raise Unmodelled('str.count of a longer text')
        return sum(1 for c in self.cps() if bool(c == s[0]))

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start)) for q in p)
        a, s = self.cps()[start:], str_cps(p)
        if len(a) < len(s):
            return False
        return conj(x == y for x, y in zip(a, s))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q)) for q in p)
        a, s = self.cps(), str_cps(p)
        if len(a) < len(s):
            return False
        return conj(x == y for x, y in zip(a[len(a) - len(s):], s))

    def _strip(self, chars, left, right):
        a = self.cps()
        cs = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32] if chars is None else str_cps(chars)

        def drop(x):
            r = disj(x == c for c in cs)
            return bool(beyond(x, 'isspace', r) if chars is None else r)
        i, j = 0, len(a)
        while left and i < j and drop(a[i]):
            i += 1
        while right and j > i and drop(a[j - 1]):
            j -= 1
        return mkstr(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _digits(self, method):
        a = self.cps()
        return bool(a) and conj(beyond(c, method, conj([c >= 48, c <= 57])) for c in a)

    def isdigit(self):
        return self._digits('isdigit')

    def isdecimal(self):
        return self._digits('isdecimal')

    def isnumeric(self):
        return self._digits('isnumeric')

    def isascii(self):
        return conj(c < 128 for c in self.cps())

    def isupper(self):
        for c in self.cps():
            ascii_only(c)
        a = self.cps()
        return all(not bool(conj([c >= 97, c <= 122])) for c in a) and \
            any(bool(conj([c >= 65, c <= 90])) for c in a)

    def isalpha(self):
        for c in self.cps():
            ascii_only(c)
        a = self.cps()
        return bool(a) and all(bool(disj([conj([c >= 65, c <= 90]), conj([c >= 97, c <= 122])])) for c in a)

    def upper(self):
        for c in self.cps():
            ascii_only(c)
        return mkstr([c - 32 if bool(conj([c >= 97, c <= 122])) else c for c in self.cps()])

    def lower(self):
        for c in self.cps():
            ascii_only(c)
        return mkstr([c + 32 if bool(conj([c >= 65, c <= 90])) else c for c in self.cps()])

    def replace(self, old, new):
        s = str_cps(old)
        if len(s) != 1:
            raise Unmodelled('str.replace of a longer text')
        return mkstr([mkstr([new]) if bool(c == s[0]) else c for c in self.cps()])

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            raise Unmodelled('str.split')
        out, cur, n = [], [], 0
        for c in self.cps():
            if (maxsplit < 0 or n < maxsplit) and bool(c == ord(sep)):
                out.append(mkstr(cur))
                cur = []
                n += 1
            else:
                cur.append(c)
        return out + [mkstr(cur)]

    def join(self, parts):
        return str_join(self, parts)

    def encode(self, *a):
        for c in self.cps():
            if not bool(c < 128):
                raise Unmodelled('encode of non-ascii symbolic text')
        return mkbytes(self.cps())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unmodelled('str.' + name)


def str_join(sep, parts):
    out = []
    for k, p in enumerate(parts):
        if type(p) not in (str, SymStr):
            raise TypeError('sequence item %d: expected str instance' % k)
        if k:
            out.append(sep)
        out.append(p)
    return mkstr(out)


def parse_int(s, base=10):
    """int(text) for symbolic text."""
    a = s.strip().cps() if type(s) is SymStr else [ord(c) for c in s]
    if type(s) is SymStr:
        t = s.strip()
        a = str_cps(t)
    i, sign = 0, 1
    if a and bool(disj([a[0] == 45, a[0] == 43])):
        if bool(a[0] == 45):
            sign = -1
        i = 1
    if base != 10:
        raise Unmodelled('int(text, base)')
    digits = a[i:]
    if not digits:
        raise ValueError('invalid literal for int() with base 10')
    v = 0
    prev_us = True
    for k, c in enumerate(digits):
        if bool(conj([c >= 48, c <= 57])):
            v = v * 10 + (c - 48)
            prev_us = False
        elif bool(c == 95) and not prev_us and k + 1 < len(digits):
            prev_us = True
        else:
            if type(c) is SymInt and not bool(c < 128) and bool(beyond(c, 'isdecimal', False)):
                raise Unmodelled('int() of non-ascii text')
            raise ValueError('invalid literal for int() with base 10')
    if prev_us:
        raise ValueError('invalid literal for int() with base 10')
    return v * sign


# -------------------------------------------------------------------------------- dict and set

_MISSING = object()


def concrete_key(k):
    """True when k hashes without looking at a symbolic value."""
    old = HashGuard.on
    HashGuard.on = True
    try:
        hash(k)
        return True
    except SymHash:
        return False
    finally:
        HashGuard.on = old


class SymDict(dict):
    """dict that also accepts symbolic keys: lookups against them compare with ==, forking."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._items = []        # [key, value], insertion order; deleted entries removed
        self._fast = {}         # concrete key -> entry
        self._sym = 0           # number of symbolic-key entries
        self.update(*a, **k)

    def _find(self, key):
        ck = concrete_key(key)
        if ck:
            e = self._fast.get(key)
            if e is not None or not self._sym:
                return e
            for e in self._items:
                if not e[2] and bool(e[0] == key):
                    return e
            return None
        for e in self._items:
            r = e[0] == key
            if r is NotImplemented:
                continue
            if bool(r):
                return e
        return None

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return e[1]

    def __setitem__(self, key, value):
        e = self._find(key)
        if e is not None:
            e[1] = value
            return
        ck = concrete_key(key)
        e = [key, value, ck]
        self._items.append(e)
        if ck:
            self._fast[key] = e
        else:
            self._sym += 1

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._remove(e)

    def _remove(self, e):
        self._items = [x for x in self._items if x is not e]
        if e[2]:
            del self._fast[e[0]]
        else:
            self._sym -= 1

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e[1]

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is None:
            self[key] = default
            return default
        return e[1]

    def pop(self, key, *d):
        e = self._find(key)
        if e is None:
            if d:
                return d[0]
            raise KeyError(key)
        self._remove(e)
        return e[1]

    def popitem(self):
        if not self._items:
            raise KeyError('popitem(): dictionary is empty')
        e = self._items[-1]
        self._remove(e)
        return e[0], e[1]

    def keys(self):
        return [e[0] for e in self._items]

    def values(self):
        return [e[1] for e in self._items]

    def items(self):
        return [(e[0], e[1]) for e in self._items]

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, 'keys'):
                for key in src.keys():
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        self._items, self._fast, self._sym = [], {}, 0

    def copy(self):
        r = type(self).__new__(type(self))
        SymDict.__init__(r)
        if hasattr(self, 'default_factory'):
            r.default_factory = self.default_factory
        r.update(self)
        return r

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict) or len(o) != len(self):
            return False
        for k, v in self.items():
            if k not in o or not bool(o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return 'SymDict(%d)' % len(self._items)

    __hash__ = None


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymCounter(SymDict):
    def __init__(self, it=(), **k):
        SymDict.__init__(self)
        for x in it:
            self[x] = self[x] + 1

    def __missing__(self, key):
        return 0


class SymSet(set):
    def __init__(self, it=()):
        set.__init__(self)
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def copy(self):
        return SymSet(self._d)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(o) == len(self) and all(x in o for x in self)

    def __ne__(self, o):
        return not self == o

    def issubset(self, o):
        return all(x in o for x in self)

    __le__ = issubset

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    union = __or__

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    intersection = __and__

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    difference = __sub__

    def __repr__(self):
        return 'SymSet(%d)' % len(self._d)

    __hash__ = None


# ---------------------------------------------------------------------------------- symbolic?

SYM_TYPES = (SymInt, SymBool, SymFP, TabFP, SymReal, DyFP, QuoFP, SymBytes, SymByteArray, SymStr, SymFrac)
_SYM = frozenset(SYM_TYPES)


def is_sym(x):
    return type(x) in _SYM


def has_sym(x, depth=3):
    t = type(x)
    if t in _SYM:
        return True
    if depth and t in (list, tuple):
        return any(has_sym(v, depth - 1) for v in x)
    return False
