"""C01: Signature arithmetic is exact rational arithmetic."""
from melodia.core import Signature
from se.prop import Registry
from props.common import val_eq

H = Registry()
EXPS = list(range(18)) + [31, 32, 33, 52, 53, 63, 64, 100]
THOROUGH = list(range(0, 34)) + [40, 48, 52, 53, 54, 62, 63, 64, 65, 80, 100, 127, 128, 200]


def exps(tier):
    return EXPS if tier == 'quick' else THOROUGH


def pairs(tier):
    return [(a, b) for a in exps(tier) for b in exps(tier)]


ASSUMPTIONS = ['denominators range over the listed powers of two; nominators over all non-negative integers']


@H('nominators: all integers >= 0; denominators 2^e, e in the case list (pairs)', cases=pairs,
   covers=['sum value', 'sum denominator'])
def add(ctx, case):
    d1, d2 = 1 << case[0], 1 << case[1]
    n1, n2 = ctx.int('n1', 0), ctx.int('n2', 0)
    s = Signature(n1, d1) + Signature(n2, d2)
    ctx.check(val_eq(ctx, s, n1 * d2 + n2 * d1, d1 * d2), 'sum value')
    ctx.check(s.denominator == max(d1, d2), 'sum denominator')
    ctx.observe('sum', [s.nominator, s.denominator])


@H('nominators: all integers >= 0; denominators 2^e, e in the case list (pairs)', cases=pairs,
   covers=['product value'])
def mul(ctx, case):
    d1, d2 = 1 << case[0], 1 << case[1]
    n1, n2 = ctx.int('n1', 0), ctx.int('n2', 0)
    s = Signature(n1, d1) * Signature(n2, d2)
    ctx.check(val_eq(ctx, s, n1 * n2, d1 * d2), 'product value')
    ctx.observe('product', [s.nominator, s.denominator])


@H('nominators: all integers >= 0; source and target denominators 2^e, e in the case list', cases=pairs,
   covers=['rescaled exactly', 'narrowing refused'])
def to(ctx, case):
    d1, d2 = 1 << case[0], 1 << case[1]
    n = ctx.int('n', 0)
    try:
        s = Signature(n, d1).to(d2)
    except ValueError:
        ctx.check(d2 < d1, 'narrowing refused')
        return
    ctx.check(d2 >= d1, 'narrowing must be refused')
    ctx.check(s.denominator == d2, 'requested denominator')
    ctx.check(s.nominator * d1 == n * d2, 'rescaled exactly')
    ctx.observe('to', [s.nominator, s.denominator])


@H('nominator: all integers >= 0; target denominator any integer in [-200, 200] that is no power of two',
   cases=[0, 2, 5], covers=['bad denominator refused'])
def to_bad(ctx, case):
    n = ctx.int('n', 0)
    d = ctx.int('d', -200, 200)
    ctx.assume(ctx.all(d != (1 << k) for k in range(8)))
    try:
        Signature(n, 1 << case).to(d)
    except ValueError:
        ctx.check(True, 'bad denominator refused')
        return
    ctx.check(False, 'bad denominator accepted')


@H('nominator: all integers >= 0; denominators 2^e, e in the case list', cases=exps,
   covers=['value kept', 'lowest terms', 'zero'])
def normalized(ctx, case):
    d = 1 << case
    n = ctx.int('n', 0)
    s = Signature(n, d).normalized()
    ctx.check(val_eq(ctx, s, n, d), 'value kept')
    ctx.check(ctx.any([s.denominator == 1, s.nominator % 2 == 1]), 'lowest terms')
    ctx.check(ctx.implies(n == 0, s.denominator == 1), 'zero')
    ctx.observe('normalized', [s.nominator, s.denominator])


@H('nominator: all integers >= 0; denominators 2^e, e in the case list', cases=exps, covers=['abs value'])
def absolute(ctx, case):
    d = 1 << case
    n = ctx.int('n', 0)
    s = abs(Signature(n, d))
    ctx.check(ctx.all([s.nominator == n, s.denominator == d]), 'abs value')
    ctx.observe('abs', [s.nominator, s.denominator])


@H('three signatures, nominators all integers >= 0, denominators 2^e with e in {0,2,5,33} (triples)',
   cases=[(a, b, c) for a in (0, 2, 5, 33) for b in (0, 2, 5, 33) for c in (0, 2, 5, 33)],
   covers=['sum associative', 'sum commutative'])
def laws(ctx, case):
    s = [Signature(ctx.int('n%d' % i, 0), 1 << e) for i, e in enumerate(case)]
    l, r = (s[0] + s[1]) + s[2], s[0] + (s[1] + s[2])
    ctx.check(l.nominator * r.denominator == r.nominator * l.denominator, 'sum associative')
    l, r = s[0] + s[1], s[1] + s[0]
    ctx.check(l.nominator * r.denominator == r.nominator * l.denominator, 'sum commutative')
    l, r = s[0] * (s[1] + s[2]), s[0] * s[1] + s[0] * s[2]
    ctx.check(l.nominator * r.denominator == r.nominator * l.denominator, 'product distributes')
