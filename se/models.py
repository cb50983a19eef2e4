"""Models of the builtins and library calls that the program under test makes on symbolic values."""
import builtins
import collections
import copy
import fractions
import functools
import heapq
import io
import itertools
import math
import operator
import random
import re
import struct
import types

import z3

from . import core, data, frac, rx
from .frac import SymFrac
from .core import (SymInt, SymBool, SymFP, TabFP, SymReal, Unmodelled, ex, f_trunc, f_floor, f_round, ite_int,
                   lift_int, mkbool, to_float, to_real, is_floatlike, is_symfloat, f_cmp, INF)
from .data import (SymBytes, SymByteArray, SymStr, SymDict, SymDefaultDict, SymCounter, SymSet, SymBytesIO,
                   Dec, Opaque, mkstr, mkbytes, bytes_items, bytes_join, str_join, has_sym, is_sym, parse_int,
                   conj, disj, str_cps)

H = {}          # function object -> model


def model(*fns):
    def deco(m):
        for f in fns:
            H[f] = m
        return m
    return deco


# ------------------------------------------------------------------------------ conversions

@model(int)
def m_int(x=0, *a, **k):
    t = type(x)
    if t in (SymInt,):
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFrac:
        return x.__trunc__()
    if is_symfloat(x):
        return f_trunc(x)
    if t is SymStr:
        return parse_int(x, *a)
    if has_sym(a):
        a = [realize(v) for v in a]
    return int(x, *a, **k)


@model(float)
def m_float(x=0.0):
    if type(x) in (SymInt, SymBool) or is_symfloat(x):
        return to_float(x)
    if type(x) is SymFrac:
        return x.to_float()
    return float(realize(x))


@model(bool)
def m_bool(x=False):
    return bool(x)


def user_str(x):
    """str(x), where __str__ may produce symbolic text."""
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return mkstr([Dec(x)])
    if t is SymBool:
        return str(bool(x))
    if is_symfloat(x):
        return mkstr([Opaque('float', x)])
    if t in (SymBytes, SymByteArray):
        return mkstr([Opaque('bytes', x)])
    if t in (list, tuple) and has_sym(x):
        return user_repr(x)
    m = getattr(t, '__str__', None)
    if m is not None and m is not object.__str__ and isinstance(m, types.FunctionType):
        return m(x)
    if m is object.__str__ or m is None:
        return user_repr(x)
    return str(x)


def user_repr(x):
    t = type(x)
    if t is SymInt:
        return mkstr([Dec(x)])
    if is_symfloat(x):
        return mkstr([Opaque('float', x)])
    if t is SymBool:
        return repr(bool(x))
    if t is SymStr:
        return mkstr(["'", x, "'"])
    if t in (SymBytes, SymByteArray):
        return mkstr([Opaque('bytes', x)])
    if t in (list, tuple):
        ps = []
        for i, v in enumerate(x):
            if i:
                ps.append(', ')
            ps.append(user_repr(v))
        if t is list:
            return mkstr(['['] + ps + [']'])
        return mkstr(['('] + ps + [',)' if len(x) == 1 else ')'])
    m = getattr(t, '__repr__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return repr(x)


@model(str)
def m_str(x='', *a, **k):
    if a or k:
        if type(x) in (SymBytes, SymByteArray):
            return x.decode(*a, **k)
        return str(x, *a, **k)
    return user_str(x)


@model(repr)
def m_repr(x):
    return user_repr(x)


@model(print)
def m_print(*a, sep=' ', end='\n', file=None, flush=False):
    if not has_sym(a) and file is None:
        return print(*a, sep=sep, end=end, flush=flush)
    ps = []
    for i, v in enumerate(a):
        ps += [sep] * (i > 0) + [user_str(v)]
    if file is not None:
        file.write(mkstr(ps + [end]))


def fmt(x, spec=''):
    t = type(x)
    if type(spec) is SymStr:
        spec = spec.realize()
    if t in (SymInt, SymBool):
        if t is SymBool:
            x = x.as_int()
        if spec in ('', 'd', 'n'):
            return mkstr([Dec(x)]) if type(x) is SymInt else str(x)
        if spec in ('+', '+d') and type(x) is SymInt:
            return mkstr(['+', Dec(x)]) if x >= 0 else mkstr([Dec(x)])
        return mkstr([Opaque('intfmt', x, spec)])
    if is_symfloat(x):
        return mkstr([Opaque('float', x, spec)])
    if t is SymStr:
        if spec in ('', 's'):
            return x
        return format(x.realize(), spec)
    if t in (SymBytes, SymByteArray):
        return mkstr([Opaque('bytes', x, spec)])
    m = getattr(t, '__format__', None)
    if m is object.__format__:
        if spec:
            raise TypeError('unsupported format string passed to %s.__format__' % t.__name__)
        return user_str(x)
    if t in (list, tuple) and has_sym(x):
        return user_repr(x)
    return format(x, spec)


@model(format)
def m_format(x, spec=''):
    return fmt(x, spec)


def se_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = user_repr(v)
        elif conv == 115:
            v = user_str(v)
        elif conv == 97:
            v = ascii(realize(v))
        out.append(fmt(v, spec))
    return mkstr(out)


def str_format(template, *a, **k):
    import string
    out = []
    auto = 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(template):
        out.append(lit)
        if field is None:
            continue
        if field == '' or field.startswith('.') or field.startswith('['):
            field = str(auto) + field
            auto += 1
        v, _ = f.get_field(field, a, k)
        if conv == 'r':
            v = user_repr(v)
        elif conv == 's':
            v = user_str(v)
        if '{' in (spec or ''):
            raise Unmodelled('nested format spec')
        out.append(fmt(v, spec or ''))
    return mkstr(out)


def str_percent(template, args):
    if not isinstance(args, tuple):
        args = (args,)
    if isinstance(template, bytes):
        raise Unmodelled('bytes % formatting')
    out = []
    it = iter(args)
    pos = 0
    for m in re.finditer(r'%(?P<spec>[#0\- +]*\d*(?:\.\d+)?)(?P<c>[a-zA-Z%])', template):
        out.append(template[pos:m.start()])
        pos = m.end()
        c = m.group('c')
        if c == '%':
            out.append('%')
            continue
        v = next(it)
        if not has_sym(v) and not (c in 'sr' and not isinstance(v, (str, int, float, bytes, type(None)))):
            out.append(('%' + m.group('spec') + c) % (v,))
        elif c == 's':
            out.append(user_str(v))
        elif c == 'r':
            out.append(user_repr(v))
        elif c in 'di' and m.group('spec') in ('', '+') and type(v) in (SymInt, SymBool):
            out.append(fmt(v, m.group('spec') + 'd'))
        else:
            out.append(mkstr([Opaque('percent', v, m.group(0))]))
    out.append(template[pos:])
    return mkstr(out)


def se_mod(a, b):
    if type(a) in (str, bytes) and (has_sym(b) or (isinstance(b, tuple) and any(
            not isinstance(v, (str, int, float, bytes)) for v in b)) or hasattr(type(b), '__slots__')):
        return str_percent(a, b)
    return a % b


# ------------------------------------------------------------------------------ containers

def se_dict(d):
    return SymDict(d)


def se_set(items):
    return SymSet(items)


def se_items(d):
    return list(d.items())


@model(dict, collections.OrderedDict)
def m_dict(*a, **k):
    return SymDict(*a, **k)


@model(collections.defaultdict)
def m_defaultdict(factory=None, *a, **k):
    if factory in H:
        factory = functools.partial(H[factory])
    return SymDefaultDict(factory, *a, **k)


@model(collections.Counter)
def m_counter(*a):
    return SymCounter(*a)


@model(set, frozenset)
def m_set(it=()):
    return SymSet(it)


@model(dict.fromkeys)
def m_fromkeys(it, v=None):
    return SymDict((k, v) for k in it)


@model(bytes)
def m_bytes(x=b'', *a, **k):
    t = type(x)
    if t in (bytes, SymBytes, SymByteArray, bytearray, memoryview):
        return mkbytes(bytes_items(x))
    if t in (str, SymStr):
        return m_str_encode(x, *a, **k)
    if t is SymInt:
        x = x.concretize('bytes(n)')
        t = int
    if t is int:
        return bytes(x)
    return mkbytes([data._byte(v) for v in x])


def m_str_encode(x, *a, **k):
    return x.encode(*a, **k)


@model(bytearray)
def m_bytearray(x=b'', *a):
    t = type(x)
    if t is SymInt:
        x = x.concretize('bytearray(n)')
        t = int
    if t is int:
        return SymByteArray([0] * x)
    it = bytes_items(x)
    if it is not None:
        return SymByteArray(it)
    if t is str:
        return SymByteArray(list(x.encode(*a)))
    return SymByteArray([data._byte(v) for v in x])


@model(memoryview)
def m_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return x
    return memoryview(x)


@model(io.BytesIO)
def m_bytesio(initial=b''):
    return SymBytesIO(initial)


@model(io.BufferedReader, io.BufferedWriter)
def m_buffered(raw, *a):
    return raw


@model(int.from_bytes)
def m_from_bytes(b, byteorder='big', *, signed=False):
    it = bytes_items(b)
    if it is None:
        it = list(b)
    if byteorder == 'big':
        it = it[::-1]
    v = 0
    for i, x in enumerate(it):
        v = v + x * (1 << (8 * i))
    if signed and it:
        top = 1 << (8 * len(it) - 1)
        if bool(v >= top):
            v = v - 2 * top
    return v


@model(len)
def m_len(x):
    return len(x)


@model(range)
def m_range(*a):
    return range(*[v.concretize('range') if type(v) is SymInt else v for v in a])


@model(type)
def m_type(x, *a, **k):
    if a or k:
        return type(x, *a, **k)
    if is_sym(x) and type(x) is not SymReal:
        return x.__class__
    if type(x) is SymReal:
        return float
    t = type(x)
    return {SymDict: dict, SymSet: set}.get(t, t)


@model(hash)
def m_hash(x):
    """hash() of an integer as CPython computes it: the sign and the magnitude modulo 2**61 - 1, never -1."""
    if type(x) is not SymInt:
        return hash(x)
    h = abs(x) % ((1 << 61) - 1)
    h = ite_int(x < 0, -h, h)
    return ite_int(h == -1, lift_int(-2), h)


@model(ord)
def m_ord(x):
    c = str_cps(x)
    if c is None:
        c = bytes_items(x)
    if len(c) != 1:
        raise TypeError('ord() expected a character')
    return c[0]


@model(chr)
def m_chr(x):
    return mkstr([x]) if type(x) is SymInt else chr(x)


# ------------------------------------------------------------------------------- arithmetic

def _minmax(args, k, less):
    key = k.get('key')
    if len(args) == 1:
        items = list(args[0])
        if not items:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
    else:
        items = list(args)
    best = items[0]
    kb = best if key is None else key(best)
    for x in items[1:]:
        kx = x if key is None else key(x)
        if key is None and lift_int(kx) is not None and lift_int(kb) is not None and \
                (type(kx) is SymInt or type(kb) is SymInt):
            kx, kb = lift_int(kx), lift_int(kb)
            (xl, xh), (bl, bh) = core.rng(kx), core.rng(kb)
            if (xh <= bl) if less else (xl >= bh):
                best = kb = kx
                continue
            if (bh <= xl) if less else (bl >= xh):
                best = kb
                continue
            best = kb = ite_int(kx < kb if less else kx > kb, kx, kb)
            continue
        if key is None and {type(kx), type(kb)} <= {core.TabFP, float} and type(kx) is not type(kb):
            t = kx if type(kx) is core.TabFP else kb
            xs = kx.t if t is kx else [kx] * len(t.t)
            bs = kb.t if t is kb else [kb] * len(t.t)
            best = kb = core.TabFP(t.i, [x1 if (x1 < b1 if less else x1 > b1) else b1 for x1, b1 in zip(xs, bs)])
            continue
        if key is None and {type(kx), type(kb)} <= {core.SymFP, float} and core.SymFP in (type(kx), type(kb)):
            # chosen without forking, comparisons as Python makes them (false for NaN)
            c = core.to_z3bool(kx < kb if less else kx > kb)
            best = kb = kx if z3.is_true(c) else kb if z3.is_false(c) else core.SymFP(z3.If(c, core.fpval(kx), core.fpval(kb)))
            continue
        if bool(kx < kb if less else kx > kb):
            best, kb = x, kx
    return best


@model(min)
def m_min(*a, **k):
    return _minmax(a, k, True)


@model(max)
def m_max(*a, **k):
    return _minmax(a, k, False)


@model(sum)
def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, n=None):
    if type(x) is SymFrac:
        return x.__round__(n)
    if type(x) is SymInt and n is None:
        return x
    if is_symfloat(x):
        return f_round(x) if n is None else core.f_round_digits(x, realize(n))
    if has_sym(x):
        raise Unmodelled('round to digits')
    return round(x) if n is None else round(x, n)


@model(divmod, operator.divmod if hasattr(operator, 'divmod') else divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(pow, math.pow)
def m_pow(a, b, *m):
    if has_sym((a, b)):
        r = a ** b
        return r % m[0] if m else r
    return pow(a, b, *m)


H[math.pow] = lambda a, b: (to_float(a) if not has_sym(a) else a) ** b if has_sym((a, b)) else math.pow(a, b)


@model(math.exp2 if hasattr(math, 'exp2') else math.exp)
def m_exp2(x):
    return 2.0 ** x if has_sym(x) else 2.0 ** x


if not hasattr(math, 'exp2'):
    H.pop(math.exp, None)


@model(math.floor)
def m_floor(x):
    if type(x) is SymFrac:
        return x.__floor__()
    return f_floor(x)


@model(math.trunc)
def m_trunc(x):
    if type(x) is SymFrac:
        return x.__trunc__()
    return f_trunc(x)


@model(math.ceil)
def m_ceil(x):
    if type(x) is SymFrac:
        return x.__ceil__()
    if has_sym(x):
        return -f_floor(-x)
    return math.ceil(x)


@model(math.isnan)
def m_isnan(x):
    if has_sym(x):
        return x != x
    return math.isnan(x)


@model(math.isinf)
def m_isinf(x):
    if type(x) is SymFP:
        return mkbool(z3.simplify(z3.fpIsInf(x.e)))
    return False if has_sym(x) else math.isinf(x)


@model(math.isfinite)
def m_isfinite(x):
    if type(x) is SymFP:
        return mkbool(z3.simplify(z3.Not(z3.Or(z3.fpIsInf(x.e), z3.fpIsNaN(x.e)))))
    return True if has_sym(x) else math.isfinite(x)


@model(math.sqrt)
def m_sqrt(x):
    if type(x) is SymFP:
        if bool(x < 0.0):
            raise ValueError('math domain error')
        ex().sqrts.append(x.e)
        return SymFP(z3.fpSqrt(core.RNE, x.e))
    if type(x) is TabFP:
        if bool(x < 0.0):
            raise ValueError('math domain error')
        return TabFP(x.i, [math.sqrt(v) if v >= 0 else 0.0 for v in x.t])
    if has_sym(x):
        raise Unmodelled('sqrt')
    return math.sqrt(x)


@model(math.gcd)
def m_gcd(*a):
    if not has_sym(a):
        return math.gcd(*a)
    if len(a) != 2:
        return functools.reduce(m_gcd, a)
    x, y = a
    if type(x) is int:
        x, y = y, x
    if type(y) is not int:
        y = y.concretize('gcd')
    y = abs(y)
    if y == 0:
        return abs(x)
    for g in sorted((d for d in range(1, y + 1) if y % d == 0), reverse=True) if y <= 4096 else _divs(y):
        if g == 1 or bool(x % g == 0):
            return g
    return 1


def _divs(y):
    if y & (y - 1) == 0:
        d = y
        while d:
            yield d
            d >>= 1
        return
    raise Unmodelled('gcd with a large constant')


@model(math.log2)
def m_log2(x):
    if type(x) is SymInt:
        return math.log2(x.concretize('log2'))
    if has_sym(x):
        raise Unmodelled('log2')
    return math.log2(x)


@model(fractions.Fraction)
def m_fraction(n=0, d=1):
    if has_sym((n, d)) or SymFrac in (type(n), type(d)):
        return frac.make(n, d)
    v = fractions.Fraction(n, d)
    return SymFrac(v.numerator, v.denominator)      # so that every operation on it is ours


# ------------------------------------------------------------------------------------ random

class RandomStub:
    """random.* returns an arbitrary float of the documented range: a fresh symbolic input."""
    hook = None


def _rand(kind):
    def f(*a, **k):
        if RandomStub.hook is None:
            raise Unmodelled('random.%s' % kind)
        return RandomStub.hook(kind, a, k)
    return f


RANDOM_FLOATS = ('gauss', 'normalvariate', 'random', 'uniform', 'triangular', 'betavariate', 'expovariate',
                 'gammavariate', 'lognormvariate', 'vonmisesvariate', 'paretovariate', 'weibullvariate')
for _n in RANDOM_FLOATS:
    H[getattr(random, _n)] = _rand(_n)


# ------------------------------------------------------------------------------------ struct

_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def _struct_items(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = 'big' if f[:1] in '>!' else 'little'
    if f[:1] in '>!<=@':
        if f[:1] == '@':
            raise Unmodelled('native struct alignment')
        f = f[1:]
    elif f not in ('B', 'b', 'BB', 'BBB'):
        if any(c in 'hHiIlLqQ' for c in f):
            raise Unmodelled('native struct alignment')
    out = []
    for cnt, c in re.findall(r'\s*(\d*)([a-zA-Z?])', f):
        if c == 's':
            out.append(('s', int(cnt or 1)))
        elif c == 'x':
            out.append(('x', int(cnt or 1)))
        else:
            out.extend([(c, _SIZES[c])] * int(cnt or 1))
    return order, out


@model(struct.pack)
def m_pack(f, *vals):
    if not has_sym(vals):
        return struct.pack(f, *vals)
    order, items = _struct_items(f)
    out = []
    it = iter(vals)
    for c, n in items:
        if c == 'x':
            out += [0] * n
        elif c == 's':
            b = bytes_items(next(it))[:n]
            out += b + [0] * (n - len(b))
        else:
            v = lift_int(next(it))
            if v is None:
                raise struct.error('required argument is not an integer')
            try:
                out += bytes_items(v.to_bytes(n, order, signed=c.islower()))
            except OverflowError:
                raise struct.error('argument out of range')
    return mkbytes(out)


def _unpack_items(f, it):
    order, items = _struct_items(f)
    out, i = [], 0
    for c, n in items:
        part = it[i:i + n]
        i += n
        if c == 'x':
            continue
        if c == 's':
            out.append(mkbytes(part))
        else:
            out.append(m_from_bytes(mkbytes(part), order, signed=c.islower()))
    return tuple(out)


@model(struct.unpack)
def m_unpack(f, b):
    it = bytes_items(b)
    if struct.calcsize(f) != len(it):
        raise struct.error('unpack requires a buffer of %d bytes' % struct.calcsize(f))
    if not has_sym(b):
        return struct.unpack(f, bytes(it))
    return _unpack_items(f, it)


@model(struct.unpack_from)
def m_unpack_from(f, b, offset=0):
    it = bytes_items(b)[offset:offset + struct.calcsize(f)]
    if struct.calcsize(f) != len(it):
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % struct.calcsize(f))
    if not has_sym(b):
        return struct.unpack(f, bytes(it))
    return _unpack_items(f, it)


class SymStruct:
    def __init__(self, f):
        self.format = f
        self.size = struct.calcsize(f)

    def pack(self, *v):
        return m_pack(self.format, *v)

    def unpack(self, b):
        return m_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return m_unpack_from(self.format, b, offset)


H[struct.Struct] = SymStruct


# --------------------------------------------------------------------------------- functools

def memo(fn):
    """lru_cache/cache without hashing symbolic arguments (and without a size bound)."""
    cache = SymDict()
    MEMO_CACHES.append(cache)

    def wrapper(*a, **k):
        key = (a, tuple(sorted(k.items())))
        for ka, kk, v in cache.get('entries', ()):
            if len(ka) == len(a) and kk == key[1] and all(
                    type(x) is type(y) and bool(x == y) for x, y in zip(ka, a)):
                return v
        v = fn(*a, **k)
        cache.setdefault('entries', []).append((a, key[1], v))
        return v
    functools.update_wrapper(wrapper, fn)
    wrapper.cache_clear = cache.clear
    wrapper.__wrapped__ = fn
    return wrapper


MEMO_CACHES = []


def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return memo(maxsize)
    return memo


H[functools.lru_cache] = m_lru_cache
if hasattr(functools, 'cache'):
    H[functools.cache] = memo


def se_deco(d):
    if d in (functools.lru_cache, getattr(functools, 'cache', None)):
        return memo
    return d


# ------------------------------------------------------------------------------ re functions

def _pat(p, flags=0):
    return p if isinstance(p, re.Pattern) else re.compile(p, flags)


def _re_fn(mode):
    def f(p, s, flags=0):
        if type(s) is SymStr:
            return rx.sym_match(_pat(p, flags), s, mode)
        return getattr(_pat(p, flags), mode)(s)
    return f


for _m in ('match', 'fullmatch', 'search'):
    H[getattr(re, _m)] = _re_fn(_m)


# ------------------------------------------------------------------------- method call models

def realize(x):
    """A concrete value for x, forking over all its values."""
    t = type(x)
    if t is SymInt:
        return x.concretize('call argument')
    if t is SymBool:
        return bool(x)
    if t in (SymBytes, SymByteArray, SymStr):
        return x.realize()
    if t in (TabFP, core.DyFP, core.QuoFP):
        return x.concretize()
    if t in (SymFP, SymReal):
        raise Unmodelled('concrete value of a symbolic float')
    if t is SymFrac:
        return fractions.Fraction(realize(x.n), realize(x.d))
    if t in (list, tuple) and has_sym(x):
        return t(realize(v) for v in x)
    return x


# C functions that only use the object protocol of their arguments
PASS = {isinstance, issubclass, iter, next, enumerate, zip, map, filter, any, all, sorted, reversed, list, tuple,
        getattr, setattr, hasattr, delattr, callable, id, object, slice, property, staticmethod, classmethod,
        super, input, open, functools.reduce, functools.partial}
PASS_MODULES = {'_heapq', 'heapq', '_operator', 'operator', 'itertools', '_bisect', 'bisect', '_functools',
                'functools', '_collections', 'collections', 'copy', 'typing', 'dataclasses', 'abc', '_abc'}

_builtin_types = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                  types.MethodWrapperType, types.ClassMethodDescriptorType)


def _wrap_callables(a):
    return [H[v] if (callable(v) and _hashable(v) and v in H) else v for v in a]


def _hashable(v):
    return isinstance(v, (type, types.BuiltinFunctionType, types.FunctionType, types.MethodDescriptorType,
                          types.BuiltinMethodType))


HIGHER = {map, filter, functools.reduce, sorted, itertools.starmap, itertools.accumulate, functools.partial,
          itertools.takewhile, itertools.dropwhile, itertools.groupby}


def se_call(f, *a, **k):
    ft = type(f)
    if ft is types.FunctionType or ft is types.MethodType:
        if ft is types.FunctionType and f in H:
            return H[f](*a, **k)
        if ft is types.MethodType and isinstance(f.__self__, random.Random) and f.__name__ in RANDOM_FLOATS:
            return _rand(f.__name__)(*a, **k)
        return f(*a, **k)
    if ft is type:
        if f in H:
            return H[f](*a, **k)
        if f in HIGHER:
            return f(*_wrap_callables(a), **{n: _wrap_callables([v])[0] for n, v in k.items()})
        return f(*a, **k)
    if isinstance(f, _builtin_types):
        try:
            h = H.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        if f in HIGHER:
            return f(*_wrap_callables(a), **{n: _wrap_callables([v])[0] for n, v in k.items()})
        self = getattr(f, '__self__', None)
        name = getattr(f, '__name__', '')
        st = type(self)
        if st is types.ModuleType or self is None:
            if f in PASS or (getattr(f, '__module__', None) in PASS_MODULES):
                return f(*a, **k)
            if has_sym(a) or has_sym(list(k.values())):
                if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                    return unbound(f, a, k)
                return f(*[realize(v) for v in a], **{n: realize(v) for n, v in k.items()})
            return f(*a, **k)
        if isinstance(self, type):
            if self is bytes and name == 'fromhex':
                return f(*[realize(v) for v in a])
            return f(*[realize(v) for v in a], **k)
        if st is bytes:
            if name == 'join':
                return bytes_join(self, a[0])
            if has_sym(a):
                return getattr(SymBytes(self), name)(*a, **k)
            return f(*a, **k)
        if st is str:
            if name == 'join':
                return str_join(self, list(a[0]))
            if name == 'format':
                return str_format(self, *a, **k)
            if has_sym(a):
                return getattr(SymStr([self] if self else []), name)(*a, **k)
            return f(*a, **k)
        if st is re.Pattern:
            if name in ('match', 'fullmatch', 'search') and a and type(a[0]) is SymStr:
                return rx.sym_match(self, a[0], name, *a[1:])
            return f(*[realize(v) for v in a], **k)
        if st is random.Random or isinstance(self, random.Random):
            if name in RANDOM_FLOATS:
                return _rand(name)(*a, **k)
            return f(*a, **k)
        if st in (list, tuple, collections.deque):
            if name in ('sort', 'extend'):
                k = {n: _wrap_callables([v])[0] for n, v in k.items()}
            return f(*a, **k)
        if st is int:
            if has_sym(a):
                if name == 'to_bytes':
                    return f(*[realize(v) for v in a], **k)
                return f(*[realize(v) for v in a], **k)
            return f(*a, **k)
        return f(*a, **k)
    if ft is re.Pattern:
        return f(*a, **k)
    try:
        if f in H:
            return H[f](*a, **k)
    except TypeError:
        pass
    return f(*a, **k)


def unbound(f, a, k):
    """str.join(sep, x), int.to_bytes(x, ...) and friends."""
    self, rest = a[0], a[1:]
    m = getattr(self, f.__name__, None)
    if is_sym(self) and m is not None:
        return m(*rest, **k)
    return se_call(getattr(self, f.__name__), *rest, **k)


def se_getitem(o, i):
    if type(i) is SymInt:
        t = type(o)
        if t in (list, tuple, bytes) and len(o) > 2:
            n = len(o)
            groups = []
            ok = True
            for j, v in enumerate(o):
                for g in groups:
                    if g[0] is v or (type(g[0]) is type(v) and type(v) in (int, str, bytes) and g[0] == v):
                        g[1].append(j)
                        break
                else:
                    groups.append((v, [j]))
                    if len(groups) > 40:
                        ok = False
                        break
            if ok:
                if bool(i < 0):
                    i = i + n
                    if bool(i < 0):
                        raise IndexError('index out of range')
                if bool(i >= n):
                    raise IndexError('index out of range')
                if type(i) is int:
                    return o[i]
                for v, js in groups[:-1]:
                    tab = TabFP(SymInt(i.p, 0, n - 1), None)
                    c = tab.where([j in js for j in range(n)])
                    if bool(c):
                        return v
                return groups[-1][0]
    return o[i]


def se_in(x, y):
    if type(y) is str and type(x) is SymStr:
        # membership of short symbolic text in a constant
        c = x.cps()
        if len(c) == 1:
            return bool(disj(c[0] == ord(ch) for ch in dict.fromkeys(y)))
        return SymStr([y]).find(x) >= 0 if y else len(c) == 0
    if type(y) is bytes and type(x) is SymInt:
        return bool(disj(x == v for v in sorted(set(y))))
    if type(y) is bytes and type(x) is SymBytes:
        return SymBytes(y).find(x) >= 0
    if type(y) is range and type(x) is SymInt:
        lo, hi = (y.start, y.stop) if y.step > 0 else (y[-1], y[0] + 1) if len(y) else (0, 0)
        return bool(conj([x >= lo, x < hi, (x - y.start) % abs(y.step) == 0]))
    if type(y) in (tuple, list) and type(x) is SymInt and all(type(v) is int for v in y):
        return bool(disj(x == v for v in y))
    return x in y


def se_enter(name):
    e = core.Explorer.current
    if e is not None:
        e.functions.add(name)
        e.tick()


def se_tick():
    e = core.Explorer.current
    if e is not None:
        e.tick()


HELPERS = {'__se_call__': se_call, '__se_fstr__': se_fstr, '__se_dict__': se_dict, '__se_set__': se_set,
           '__se_items__': se_items, '__se_getitem__': se_getitem, '__se_in__': se_in, '__se_mod__': se_mod,
           '__se_enter__': se_enter, '__se_tick__': se_tick, '__se_deco__': se_deco}
