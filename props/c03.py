"""C03: A signature is a non-negative nominator over a positive power of two; nothing else can be built."""
from melodia.core import Signature
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['both arguments are ints']


@H('nominator: every integer; denominator: every integer in [-4096, 70000] (symbolic)',
   covers=['accepted iff valid', 'stored unchanged'])
def construct(ctx, case):
    n, d = ctx.int('n'), ctx.int('d', -4096, 70000)
    valid = ctx.all([n >= 0, ctx.any(d == 1 << k for k in range(17))])
    try:
        s = Signature(n, d)
    except ValueError:
        ctx.check(ctx.not_(valid), 'accepted iff valid')
        return
    ctx.check(valid, 'accepted iff valid')
    ctx.check(ctx.all([s.nominator == n, s.denominator == d]), 'stored unchanged')
    ctx.observe('sig', [s.nominator, s.denominator])


def dens(tier):
    ks = [3, 8, 15, 16, 17, 31, 32, 33, 52, 53, 54, 63, 64, 65, 100, 127, 128, 1000, 1023, 1024, 1100]
    if tier != 'quick':
        ks = list(range(2, 140)) + [200, 256, 511, 512, 1000, 1022, 1023, 1024, 1025, 1100, 2048]
    out = list(range(-2, 18))
    for k in ks:
        out += [1 << k, (1 << k) - 1, (1 << k) + 1, 3 << k, -(1 << k), (1 << k) + (1 << (k // 2))]
    return [str(v) for v in dict.fromkeys(out)]


@H('nominator: every integer; denominators: small integers, 2^k and neighbours, 3*2^k, -2^k for k up to 1100',
   cases=dens, covers=['accepted iff valid'])
def construct_big(ctx, case):
    d = int(case)
    n = ctx.int('n')
    good = d > 0 and d & (d - 1) == 0
    try:
        s = Signature(n, d)
    except ValueError:
        ctx.check(ctx.not_(ctx.all([good, n >= 0])), 'accepted iff valid')
        return
    ctx.check(ctx.all([good, n >= 0]), 'accepted iff valid')
    ctx.check(ctx.all([s.nominator == n, s.denominator == d]), 'stored unchanged')


@H('two signatures, nominators all integers >= 0, denominators 2^e, e in {0,1,2,5,16,33,64}; +, *, abs, to, normalized',
   cases=[(a, b) for a in (0, 1, 2, 5, 16, 33, 64) for b in (0, 1, 2, 5, 16, 33, 64)],
   covers=['valid'])
def closed(ctx, case):
    a = Signature(ctx.int('n1', 0), 1 << case[0])
    b = Signature(ctx.int('n2', 0), 1 << case[1])
    out = [a + b, a * b, abs(a), (a + b).normalized()]
    if case[1] >= case[0]:
        out.append(a.to(1 << case[1]))
    for s in out:
        d = s.denominator
        if ctx.sym and type(d) is not int:
            ok = ctx.any(d == 1 << k for k in range(200))
        else:
            ok = d > 0 and d & (d - 1) == 0
        ctx.check(ctx.all([ok, s.nominator >= 0]), 'valid')
