"""C02: Signatures are totally ordered by value."""
from melodia.core import Signature
from se.prop import Registry

H = Registry()
EXPS = list(range(18)) + [31, 32, 33, 52, 53, 63, 64, 100]
THOROUGH = list(range(0, 34)) + [40, 48, 52, 53, 54, 62, 63, 64, 65, 80, 100, 127, 128, 200]
ASSUMPTIONS = ['denominators range over the listed powers of two; nominators over all non-negative integers']


def pairs(tier):
    e = EXPS if tier == 'quick' else THOROUGH
    return [(a, b) for a in e for b in e]


OPS = [
    ('==', lambda a, b: a == b, lambda x, y: x == y),
    ('!=', lambda a, b: a != b, lambda x, y: x != y),
    ('<', lambda a, b: a < b, lambda x, y: x < y),
    ('<=', lambda a, b: a <= b, lambda x, y: x <= y),
    ('>', lambda a, b: a > b, lambda x, y: x > y),
    ('>=', lambda a, b: a >= b, lambda x, y: x >= y),
]


@H('nominators: all integers >= 0; denominators 2^e, e in the case list (pairs); all six comparisons', cases=pairs,
   covers=['a %s b' % o[0] for o in OPS])
def compare(ctx, case):
    d1, d2 = 1 << case[0], 1 << case[1]
    n1, n2 = ctx.int('n1', 0), ctx.int('n2', 0)
    a, b = Signature(n1, d1), Signature(n2, d2)
    for name, op, ref in OPS:
        ctx.check(ctx.iff(op(a, b), ref(n1 * d2, n2 * d1)), 'a %s b' % name)
    ctx.observe('lt', a < b)


@H('nominators: all integers >= 0; max/min/sorted over three signatures with denominators 2^e, e in {0,2,5,33}',
   cases=[(a, b, c) for a in (0, 2, 5, 33) for b in (0, 2, 5, 33) for c in (0, 2, 5, 33)],
   covers=['sorted ascending', 'max is greatest'])
def sorting(ctx, case):
    ns = [ctx.int('n%d' % i, 0) for i in range(3)]
    sigs = [Signature(n, 1 << e) for n, e in zip(ns, case)]
    out = sorted(sigs)
    for a, b in zip(out, out[1:]):
        ctx.check(a.nominator * b.denominator <= b.nominator * a.denominator, 'sorted ascending')
    top = max(sigs)
    ctx.check(ctx.all(top.nominator * s.denominator >= s.nominator * top.denominator for s in sigs),
              'max is greatest')
