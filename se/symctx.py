"""The symbolic harness context."""
import ast
import struct
import sys
import types

import z3

from . import core, data, instr, models
from .core import (SymInt, SymBool, SymFP, TabFP, SymReal, Unmodelled, to_z3bool, mkbool, ite_int, negate,
                   lift_int, F64, is_symfloat, to_real, p_const, INF)
from .data import SymBytes, SymByteArray, SymStr, SymBytesIO, Dec, Opaque, mkbytes, mkstr, conj, disj, str_cps

_CODE = {}       # compiled program texts


class Candidate:
    def __init__(self, label, inputs, detail=''):
        self.label, self.inputs, self.detail = label, inputs, detail


class SymCtx:
    sym = True

    def __init__(self, explorer, case=None):
        self.e = explorer
        self.case = case
        self.names = {}        # name -> ('i', SymInt) | ('f', fp expr) | ('c', value)
        self.covered = set()
        self.observed = []
        self.checks = 0
        self.candidates = []
        self.unknown = []
        self.random_used = 0
        models.RandomStub.hook = self._random
        e = explorer
        e.reset_path()

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        assert name not in self.names, name
        if lo is not None and lo == hi:
            self.names[name] = ('c', lo)
            return lo
        l = -INF if lo is None else lo
        h = INF if hi is None else hi
        a = self.e.new_atom('in.' + name, l, h)
        z = self.e.atoms[a][0]
        if lo is not None:
            self.e.add(z >= lo)
        if hi is not None:
            self.e.add(z <= hi)
        v = SymInt((((a,), 1),), l, h)
        self.names[name] = ('i', v)
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def float(self, name):
        assert name not in self.names
        c = z3.FP('in.' + name, F64)
        self.names[name] = ('f', c)
        return SymFP(c)

    def ratio(self, name, lo, hi, den):
        v = self.int(name, lo, hi)
        return SymReal(core.poly(v), p_const(den))

    def dyadic(self, name, bits=53, lo=0, hi=None):
        return core.mkdy(self.int(name, lo, (1 << bits) if hi is None else hi), -bits)

    def frac(self, x, den=1):
        return SymReal(core.poly(x), p_const(den))

    def bytes(self, name, n):
        return mkbytes([self.int('%s[%d]' % (name, i), 0, 255) for i in range(n)])

    def text(self, name, n, lo=0, hi=127):
        return mkstr([self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)])

    def choice(self, name, options):
        options = list(options)
        assert name not in self.names
        i = self.e.choice(len(options))
        self.names[name] = ('c', i)
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def _random(self, kind, a, k):
        name = 'rnd%d' % self.random_used
        self.random_used += 1
        v = self.float(name)
        self.e.add(z3.Not(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e))))
        if kind == 'random':
            self.e.add(z3.And(z3.fpGEQ(v.e, z3.FPVal(0.0, F64)), z3.fpLT(v.e, z3.FPVal(1.0, F64))))
        elif kind in ('uniform', 'triangular'):
            for b, op in zip(a[:2], (z3.fpGEQ, z3.fpLEQ)):
                self.e.add(op(v.e, core.fpval(b)))
        elif kind not in ('gauss', 'normalvariate'):
            raise Unmodelled('random.' + kind)
        return v

    # ---- assumptions and checks
    def assume(self, cond):
        c = to_z3bool(cond)
        if z3.is_false(c):
            raise core.Infeasible()
        self.e.assume(c)
        if type(cond) is SymBool and cond.eq is not None:
            cond.learned(True)

    def check(self, cond, label):
        self.checks += 1
        self.covered.add(label)
        if cond is NotImplemented:
            cond = False
        v, m = self.e.query(cond)
        if v == 'fails':
            self.candidates.append(Candidate(label, self.inputs_of(m)))
            c = to_z3bool(cond)
            if z3.is_false(c):
                raise core.Infeasible()
            self.e.add(c)
            self.e.feasible()
        elif v == 'unknown':
            self.unknown.append(label)
        elif v == 'holds' and not z3.is_true(to_z3bool(cond)):
            pass

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    # ---- models to inputs
    def inputs_of(self, m):
        out = {}
        for n, (k, v) in self.names.items():
            if k == 'c':
                out[n] = v
            elif k == 'i':
                out[n] = m.eval(v.z, model_completion=True).as_long()
            else:
                out[n] = fp_value(m, v)
        return out

    def eval_value(self, m, v):
        t = type(v)
        if t is SymInt:
            return m.eval(v.z, model_completion=True).as_long()
        if t is SymBool:
            return int(z3.is_true(m.eval(v.e, model_completion=True)))
        if t is bool:
            return int(v)
        if t is SymFP:
            return plain_float(fp_value(m, v.e))
        if t is TabFP:
            i = m.eval(v.i.z, model_completion=True).as_long()
            return plain_float(v.t[i - int(v.i.lo)])
        if t is core.DyFP:
            import math
            n = v.n if type(v.n) is int else m.eval(v.n.z, model_completion=True).as_long()
            return plain_float(math.ldexp(float(n), v.k))
        if t is core.QuoFP:
            return plain_float(m.eval(v.n.z, model_completion=True).as_long() / v.d)
        if t is float:
            return plain_float(v)
        if t in (SymBytes, SymByteArray):
            return {'b': bytes(self.eval_value(m, b) for b in v.b).hex()}
        if t in (bytes, bytearray):
            return {'b': bytes(v).hex()}
        if t is SymStr:
            out = ''
            for p in v.ps:
                if type(p) is str:
                    out += p
                elif type(p) is Dec:
                    out += str(self.eval_value(m, p.v))
                elif type(p) is Opaque:
                    return None
                else:
                    out += chr(self.eval_value(m, p))
            return out
        if t in (list, tuple):
            return [self.eval_value(m, x) for x in v]
        if t is SymReal:
            return None
        return v

    def file(self, initial=b''):
        return SymBytesIO(initial)

    # ---- logic without forking
    def all(self, conds):
        return conj(self._b(c) for c in conds)

    def any(self, conds):
        return disj(self._b(c) for c in conds)

    @staticmethod
    def _b(c):
        if type(c) is SymBool or c is True or c is False:
            return c
        if type(c) is SymInt:
            return c != 0
        if c is NotImplemented:
            return False
        return bool(c)

    def not_(self, c):
        return negate(self._b(c))

    def implies(self, a, b):
        return disj([negate(self._b(a)), self._b(b)])

    def iff(self, a, b):
        a, b = self._b(a), self._b(b)
        if type(a) is bool and type(b) is bool:
            return a == b
        return mkbool(to_z3bool(a) == to_z3bool(b))

    def ite(self, c, a, b):
        c = self._b(c)
        if type(c) is bool:
            return a if c else b
        if lift_int(a) is not None and lift_int(b) is not None:
            return ite_int(c, lift_int(a), lift_int(b))
        raise Unmodelled('ite of non-integers')

    def count(self, conds):
        n = 0
        for c in conds:
            n = n + self.ite(c, 1, 0)
        return n

    def max(self, xs):
        return models.m_max(list(xs))

    def min(self, xs):
        return models.m_min(list(xs))

    def cps(self, s):
        return str_cps(s)

    def items(self, b):
        return data.bytes_items(b)

    def mkbytes(self, items):
        return mkbytes(items)

    def is_nan(self, x):
        return x != x if is_symfloat(x) else x != x

    def close(self, a, b, rel=1e-9):
        if type(a) in (SymReal,) or type(b) in (SymReal,):
            return a == b
        if type(a) is TabFP and type(b) is TabFP and a.i.p != b.i.p:
            a = a.concretize()
        if type(a) is TabFP or type(b) is TabFP:
            t = a if type(a) is TabFP else b
            xs = a.t if type(a) is TabFP else [a] * len(t.t)
            ys = b.t if type(b) is TabFP else [b] * len(t.t)
            return t.where([x == y or abs(x - y) <= rel * max(abs(x), abs(y)) for x, y in zip(xs, ys)])
        if type(a) is float and type(b) is float:
            return a == b or abs(a - b) <= rel * max(abs(a), abs(b))
        return a == b

    def table(self, i, fn):
        """fn(i) for a small-range symbolic int, as a float."""
        if type(i) is int:
            return fn(i)
        return TabFP(i, [fn(v) for v in range(int(i.lo), int(i.hi) + 1)])

    def pow2(self, num, den):
        return core.real_pow(to_real(2), core.real_div(to_real(num), to_real(den)))

    def repr(self, x):
        return models.user_repr(x)

    def str(self, x):
        return models.user_str(x)

    def fmt(self, template, *a):
        return models.str_format(template, *a)

    def eval_text(self, text, names):
        """eval() of program-produced text whose numbers may be symbolic."""
        if type(text) is str:
            return eval(text, dict(names, __builtins__={}))
        src, holes = self._holes(text)
        env = dict(names, __builtins__={})
        for i, h in enumerate(holes):
            env['__hole%d__' % i] = h
        return eval(src, env)

    def _holes(self, text):
        src, holes = '', []
        for p in text.ps:
            if type(p) is str:
                src += p
            elif type(p) in (Dec, Opaque):
                if type(p) is Opaque and (p.tag != 'float' or p.spec not in ('', 'r')):
                    raise Unmodelled('eval of formatted text')
                # must not merge with neighbouring digits or identifiers
                if src and (src[-1].isalnum() or src[-1] in '_.'):
                    raise Unmodelled('eval of glued text')
                holes.append(p.v)
                src += ' __hole%d__ ' % (len(holes) - 1)
            else:
                raise Unmodelled('eval of symbolic characters')
        return src, holes

    def source(self, path, name):
        with open(path, encoding='utf-8') as f:
            return self.module(f.read(), name, path)

    def module(self, text, name, path='<generated>'):
        src, holes = (text, []) if type(text) is str else self._holes(text)
        if (src, name) not in _CODE:
            if len(_CODE) > 50:
                _CODE.clear()
            _CODE[src, name] = instr.transform(src, path, name)
        m = types.ModuleType(name)
        m.__dict__.update(models.HELPERS)
        for i, h in enumerate(holes):
            m.__dict__['__hole%d__' % i] = h
        sys.modules[name] = m
        exec(_CODE[src, name], m.__dict__)
        return m


def plain_float(v):
    return {'f': struct.pack('>d', v).hex()} if v == v else {'f': 'nan'}


def fp_value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return float('nan')
    b = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack('>d', b.as_long().to_bytes(8, 'big'))[0]
