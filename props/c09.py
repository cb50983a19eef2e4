"""C09: Notes are ordered lexicographically by (pitch, duration value, velocity)."""
from melodia.core import Note, Signature
from se.prop import Registry
from props.c02 import OPS

H = Registry()
ASSUMPTIONS = ['velocities are doubles in [0, 1]']


EXPS = (0, 1, 4, 16, 33)


def body(ctx, case, v, w):
    p, q = ctx.int('p'), ctx.int('q')
    n, m = ctx.int('n', 0), ctx.int('m', 0)
    d, e = 1 << case[0], 1 << case[1]
    a, b = Note(p, (n, d), v), Note(q, (m, e), w)
    lt = ctx.any([p < q, ctx.all([p == q, n * e < m * d]),
                  ctx.all([p == q, n * e == m * d, v < w])])
    eq = ctx.all([p == q, n * e == m * d, v == w])
    want = {'==': eq, '!=': ctx.not_(eq), '<': lt, '<=': ctx.any([lt, eq]), '>': ctx.not_(ctx.any([lt, eq])),
            '>=': ctx.not_(lt)}
    for name, op, _ in OPS:
        ctx.check(ctx.iff(op(a, b), want[name]), 'a %s b' % name)


@H('pitches: all integers; duration nominators: all integers >= 0 over 2^e, e pairs from {0,1,4,16,33}; velocities: '
   'every k/2^53 in [0,1] (exact doubles); all six comparisons', cases=[(a, b) for a in EXPS for b in EXPS],
   covers=['a %s b' % o[0] for o in OPS])
def grid(ctx, case):
    body(ctx, case, ctx.dyadic('v'), ctx.dyadic('w'))


@H('the same with velocities any doubles in [0,1]', cases=[(a, b) for a in EXPS for b in EXPS],
   covers=['a %s b' % o[0] for o in OPS])
def compare(ctx, case):
    v, w = ctx.float('v'), ctx.float('w')
    for x in (v, w):
        ctx.assume(ctx.all([x >= 0.0, x <= 1.0]))
    body(ctx, case, v, w)
