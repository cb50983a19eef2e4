"""Harness contexts.  The same harness function runs symbolically (SymCtx, instrumented code) and
concretely (ConcreteCtx, the plain code from /repo) - the latter is how counterexamples and path
witnesses are replayed.  This module must import without z3: ConcreteCtx runs under any Python."""
import io
import math
import struct
import sys
import types


class AssumptionFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label):
        BaseException.__init__(self, label)
        self.label = label


class RecordingFile(io.BytesIO):
    """BytesIO that remembers what was written."""

    def __init__(self, initial=b''):
        io.BytesIO.__init__(self, initial)
        self.writes = []

    def write(self, data):
        self.writes.append(bytes(data))
        return io.BytesIO.write(self, data)


class ConcreteCtx:
    sym = False

    def __init__(self, inputs, case=None):
        self.inputs = inputs
        self.case = case
        self.checks = 0
        self.observed = []
        self.random_used = 0

    def _get(self, name):
        if name not in self.inputs:
            raise AssumptionFailed('input %s not on this path' % name)
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumptionFailed(name)
        return v

    def bool(self, name):
        return bool(self._get(name))

    def float(self, name):
        return self._get(name)

    def ratio(self, name, lo, hi, den):
        """A float that is exactly m/den, m an integer in [lo, hi]."""
        return self.int(name, lo, hi) / den

    def dyadic(self, name, bits=53, lo=0, hi=None):
        """A float m/2^bits, exactly; m any integer in [lo, hi] (default [0, 2^bits]: the unit interval)."""
        return math.ldexp(self.int(name, lo, (1 << bits) if hi is None else hi), -bits)

    def frac(self, x, den=1):
        return x / den

    def bytes(self, name, n):
        return bytes(self.int('%s[%d]' % (name, i), 0, 255) for i in range(n))

    def text(self, name, n, lo=0, hi=127):
        return ''.join(chr(self.int('%s[%d]' % (name, i), lo, hi)) for i in range(n))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name)
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise CheckFailed(label)

    def cover(self, label):
        pass

    def observe(self, label, value):
        self.observed.append((label, self.plain(value)))

    @staticmethod
    def plain(v):
        if isinstance(v, (list, tuple)):
            return [ConcreteCtx.plain(x) for x in v]
        if isinstance(v, (bytes, bytearray)):
            return {'b': bytes(v).hex()}
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float):
            return {'f': struct.pack('>d', v).hex()} if v == v else {'f': 'nan'}
        return v

    def file(self, initial=b''):
        return RecordingFile(initial)

    # logic without forking
    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def count(self, conds):
        return sum(1 for c in conds if c)

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def cps(self, s):
        return [ord(c) for c in s]

    def items(self, b):
        return list(b)

    def mkbytes(self, items):
        return bytes(items)

    def is_nan(self, x):
        return x != x

    def close(self, a, b, rel=1e-9):
        return a == b or abs(a - b) <= rel * max(abs(a), abs(b))

    def table(self, i, fn):
        return fn(i)

    def pow2(self, num, den):
        return 2.0 ** (num / den)

    def rx_parts(self, text):
        """Text as a list of pieces; symbolic numbers appear as ('num', value)."""
        return text

    def random_hook(self, kind):
        k = 'rnd%d' % self.random_used
        self.random_used += 1
        return self._get(k)

    def repr(self, x):
        return repr(x)

    def str(self, x):
        return str(x)

    def fmt(self, template, *a):
        return template.format(*a)

    def eval_text(self, text, names):
        return eval(text, dict(names, __builtins__={}))

    def source(self, path, name):
        """A fresh module made from the source file."""
        with open(path, encoding='utf-8') as f:
            return self.module(f.read(), name, path)

    def module(self, text, name, path='<generated>'):
        """A fresh module made from program text."""
        m = types.ModuleType(name)
        sys.modules[name] = m
        exec(compile(text, path, 'exec'), m.__dict__)
        return m


def encode_inputs(d):
    return {k: ({'f': struct.pack('>d', v).hex() if v == v else 'nan'} if isinstance(v, float) else v)
            for k, v in d.items()}


def decode_inputs(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            v = float('nan') if v['f'] == 'nan' else struct.unpack('>d', bytes.fromhex(v['f']))[0]
        out[k] = v
    return out
