"""C07: Tone frequency is twelve-tone equal temperament relative to A4."""
from melodia.core import Tone
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['`reals` reads float arithmetic as exact real arithmetic (rounding is not modelled there); '
               '`doubles` uses the real IEEE results for the listed pitch range and base frequencies']


@H('every pitch (all integers); every base frequency m/64 Hz, 1 <= m <= 2^36 (in two ranges), or any integer 1 .. 2^40; real arithmetic',
   cases=['audible', 'high', 'integer'], float_mode='real', approx=True, covers=['formula', 'A4', 'octave doubles', 'increasing', 'linear in base'])
def reals(ctx, case):
    p = ctx.int('p')
    if case == 'integer':
        base = ctx.int('m', 1, 1 << 40)
    else:
        base = ctx.ratio('m', 1, 6400000, 64) if case == 'audible' else ctx.ratio('m', 6400000, 1 << 36, 64)
    f = Tone(p).to_frequency(base)
    if ctx.sym or abs(p) < 10000:
        ctx.check(ctx.close(f, base * ctx.pow2(p - 57, 12), 1e-11), 'formula')
        ctx.check(f > 0, 'positive')
        ctx.check(ctx.close(Tone(57).to_frequency(base), base), 'A4')
        g = Tone(p + 12).to_frequency(base)
        ctx.check(ctx.close(g, f * 2), 'octave doubles')
        ctx.check(Tone(p + 1).to_frequency(base) > f, 'increasing')
        ctx.check(ctx.close(Tone(p).to_frequency(base * 3), f * 3), 'linear in base')


def windows(tier):
    others = [440.0, 432.0, 442.5, 27.5, 1.0, 0.001, 415.3046974799451, 20000.0]
    out = [(b, -240, 360) for b in [None] + others]
    w = 900
    for lo in range(360, 11000, w):
        out.append((None, lo, lo + w))
        out.append((None, -lo, w - lo))
    return out


@H('pitches -10440..11160 with IEEE doubles at the default base frequency, -240..360 with 8 listed ones', cases=windows,
   covers=['formula'])
def doubles(ctx, case):
    base, lo, hi = case
    p = ctx.int('p', lo, hi)
    t = Tone(p)
    f = t.to_frequency() if base is None else t.to_frequency(base)
    b = 440.0 if base is None else base
    ctx.check(ctx.close(f, ctx.table(p, lambda v: b * 2.0 ** ((v - 57) / 12)), 1e-12), 'formula')
    if base is not None:
        f2 = t.to_frequency(base=base)
        ctx.check(ctx.close(f, f2), 'keyword base')
    ctx.observe('f', f)


@H('base frequency 0 and every pitch: the tone is silent (0 Hz)', float_mode='real', approx=True, covers=['zero'])
def zero(ctx, case):
    p = ctx.int('p')
    if ctx.sym or abs(p) < 10000:
        ctx.check(Tone(p).to_frequency(0.0) == 0, 'zero')
        ctx.check(Tone(p).to_frequency(0) == 0, 'zero')
