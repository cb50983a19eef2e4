"""fractions.Fraction over symbolic integers: n/d with d > 0, not reduced until numerator/denominator are read."""
import fractions

from . import core
from .core import SymInt, SymBool, Unmodelled, lift_int, is_floatlike, to_float


class SymFrac:
    __slots__ = ('n', 'd', '_red')

    def __init__(self, n, d=1):
        self.n, self.d, self._red = n, d, None

    @property
    def __class__(self):
        return fractions.Fraction

    # -- parts
    def _reduced(self):
        if self._red is None:
            from .models import m_gcd
            n, d = self.n, self.d
            if type(n) is SymInt and type(d) is SymInt:
                g = 1 if d == 1 else m_gcd(n, d.concretize('fraction'))
            else:
                g = m_gcd(n, d)
            self._red = (n // g, d // g)
        return self._red

    @property
    def numerator(self):
        return self._reduced()[0]

    @property
    def denominator(self):
        return self._reduced()[1]

    _numerator, _denominator = numerator, denominator
    real = property(lambda self: self)
    imag = 0

    def as_integer_ratio(self):
        return self._reduced()

    def is_integer(self):
        return self.n % self.d == 0

    def limit_denominator(self, max_denominator=1000000):
        if bool(self.denominator <= max_denominator):
            return self
        raise Unmodelled('limit_denominator')

    def conjugate(self):
        return self

    # -- arithmetic
    def _op(self, o, f, ff, swap=False):
        o2 = lift(o)
        if o2 is not None:
            return f(o2, self) if swap else f(self, o2)
        if is_floatlike(o):
            return ff(o, self.to_float()) if swap else ff(self.to_float(), o)
        return NotImplemented

    def to_float(self):
        return core.int_truediv(self.n, self.d)

    def __add__(self, o): return self._op(o, _add, core.f_add)
    def __radd__(self, o): return self._op(o, _add, core.f_add, True)
    def __sub__(self, o): return self._op(o, _sub, core.f_sub)
    def __rsub__(self, o): return self._op(o, _sub, core.f_sub, True)
    def __mul__(self, o): return self._op(o, _mul, core.f_mul)
    def __rmul__(self, o): return self._op(o, _mul, core.f_mul, True)
    def __truediv__(self, o): return self._op(o, _div, core.f_div)
    def __rtruediv__(self, o): return self._op(o, _div, core.f_div, True)
    def __floordiv__(self, o): return self._op(o, lambda a, b: (a.n * b.d) // (a.d * b.n), core.f_floordiv)
    def __rfloordiv__(self, o): return self._op(o, lambda a, b: (a.n * b.d) // (a.d * b.n), core.f_floordiv, True)
    def __mod__(self, o): return self._op(o, lambda a, b: a - ((a.n * b.d) // (a.d * b.n)) * b, core.f_mod)
    def __rmod__(self, o): return self._op(o, lambda a, b: a - ((a.n * b.d) // (a.d * b.n)) * b, core.f_mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymFrac(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFrac(abs(self.n), self.d)

    def __pow__(self, k):
        if type(k) is SymInt:
            k = k.concretize('exponent')
        if type(k) is not int:
            raise Unmodelled('power of a fraction')
        if k >= 0:
            return SymFrac(self.n ** k, self.d ** k)
        return _div(SymFrac(1), SymFrac(self.n ** -k, self.d ** -k))

    # -- comparison
    def _cmp(self, o, op):
        o2 = lift(o)
        if o2 is None:
            if is_floatlike(o):
                return core.f_cmp(self.to_float() if core.is_symfloat(o) else self._exact(o), o, op)
            return NotImplemented
        a, b = self.n * o2.d, o2.n * self.d
        return {'<': a.__lt__, '<=': a.__le__, '>': a.__gt__, '>=': a.__ge__, '==': a.__eq__,
                '!=': a.__ne__}[op](b) if type(a) is SymInt else _ccmp(a, b, op)

    def _exact(self, o):
        raise Unmodelled('comparison of a fraction and a float')

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        if type(self.n) is int and type(self.d) is int:
            return hash(fractions.Fraction(self.n, self.d))
        raise Unmodelled('hash of a symbolic fraction')

    # -- rounding
    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        return self.__floor__() if bool(self.n >= 0) else self.__ceil__()

    def __round__(self, k=None):
        if k is not None:
            raise Unmodelled('round to digits')
        f = self.n // self.d
        r = (self.n - f * self.d) * 2
        if bool(r < self.d):
            return f
        if bool(r > self.d):
            return f + 1
        return f + f % 2

    def __float__(self):
        raise Unmodelled('native use of a symbolic fraction')

    def __str__(self):
        raise Unmodelled('text of a symbolic fraction')

    def __repr__(self):
        return '<SymFrac %r/%r>' % (self.n, self.d)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _ccmp(a, b, op):
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
            '==': lambda: a == b, '!=': lambda: a != b}[op]()


def lift(o):
    if type(o) is SymFrac:
        return o
    if type(o) is fractions.Fraction:
        return SymFrac(o.numerator, o.denominator)
    i = lift_int(o)
    return None if i is None else SymFrac(i, 1)


def _add(a, b):
    if type(a.d) is int and type(b.d) is int and a.d == b.d:
        return SymFrac(a.n + b.n, a.d)
    return SymFrac(a.n * b.d + b.n * a.d, a.d * b.d)


def _sub(a, b):
    return _add(a, SymFrac(-b.n, b.d))


def _mul(a, b):
    return SymFrac(a.n * b.n, a.d * b.d)


def _div(a, b):
    n, d = a.n * b.d, a.d * b.n
    if bool(d == 0):
        raise ZeroDivisionError('Fraction(n, 0)')
    if bool(d < 0):
        n, d = -n, -d
    return SymFrac(n, d)


def make(n=0, d=1):
    """fractions.Fraction(n, d) with a symbolic argument."""
    if type(n) is core.DyFP and d == 1:
        return SymFrac(n.n * (1 << max(0, n.k)), 1 << max(0, -n.k))
    if type(n) is core.TabFP and d == 1:
        return lift(fractions.Fraction(n.concretize()))
    a, b = lift(n), lift(d)
    if a is None and type(n) is float:
        a = lift(fractions.Fraction(n))
    if a is None or b is None:
        raise Unmodelled('fraction of %s' % type(n).__name__)
    if type(d) is int and d == 1:
        return a
    return _div(a, b)
