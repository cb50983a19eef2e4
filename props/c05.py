"""C05: Formatting a tone gives its conventional spelling, and parsing that spelling gives the tone back."""
from melodia.core import Tone
from se.prop import Registry

H = Registry()
ASSUMPTIONS = []
SHARP = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
FLAT = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


def rng(tier):
    lim = 12 * 1000 if tier == 'quick' else 12 * 10 ** 9
    return [[down, lim] for down in (None, False, True)]


@H('every pitch with |octave| < 1000 (thorough: 10^9), default, sharp and flat spelling', cases=rng,
   covers=['round trip', 'spelling'])
def spelling(ctx, case):
    down, lim = case
    spelled(ctx, ctx.int('p', -lim, lim - 1), down)


@H('every pitch within 30 of +-12*10^k, k = 3..25, and of +-2^k, k = 31, 32, 53, 63, 64, 70: default, sharp and flat spelling',
   cases=[[down, c] for down in (None, False, True) for b in [12 * 10 ** k for k in (3, 4, 6, 9, 12, 16, 20, 25)] +
          [1 << k for k in (31, 32, 53, 63, 64, 70)] for c in (b, -b)], covers=['round trip', 'spelling'])
def far(ctx, case):
    down, c = case
    spelled(ctx, c + ctx.int('p', -30, 30), down)


def spelled(ctx, p, down):
    t = Tone(p)
    text = t.to_notation() if down is None else t.to_notation(transpose_down=down)
    cps = ctx.cps(text)
    names = FLAT if down else SHARP
    # pitch class -> expected leading text; the rest is the decimal octave
    conds = []
    for k, name in enumerate(names):
        body = cps[len(name):]
        if len(cps) <= len(name):
            conds.append(p % 12 != k)
            continue
        head = ctx.all(c == ord(x) for c, x in zip(cps, name))
        digits = list(body)
        isneg = digits[0] == 45
        vp = 0
        for c in digits:
            vp = vp * 10 + (c - 48)
        okp = ctx.all(ctx.all([c >= 48, c <= 57]) for c in digits)
        vn = 0
        for c in digits[1:]:
            vn = vn * 10 + (c - 48)
        okn = ctx.all([isneg, len(digits) > 1] + [ctx.all([c >= 48, c <= 57]) for c in digits[1:]])
        o = p // 12
        conds.append(ctx.implies(p % 12 == k, ctx.all([head, ctx.any([
            ctx.all([okp, vp == o]), ctx.all([okn, -vn == o])])])))
    ctx.check(ctx.all(conds), 'spelling')
    back = Tone.from_notation(text)
    ctx.check(back.pitch == p, 'round trip')
    ctx.observe('text', text)


@H('every pitch with |octave| < 1000', cases=[12000], covers=['str'])
def as_str(ctx, lim):
    p = ctx.int('p', -lim, lim - 1)
    t = Tone(p)
    ctx.check(ctx.all(a == b for a, b in zip(ctx.cps(str_of(ctx, t)), ctx.cps(t.to_notation())))
              if len(ctx.cps(str_of(ctx, t))) == len(ctx.cps(t.to_notation())) else False, 'str')


def str_of(ctx, x):
    return type(x).__str__(x)
