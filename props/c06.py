"""C06: Tones are integers under transposition: additive, invertible, ordered by pitch, octave = floor(pitch/12)."""
from melodia.core import Tone
from se.prop import Registry
from props.c02 import OPS

H = Registry()
ASSUMPTIONS = []


@H('every pitch and every transposition (all integers)', covers=['transposed pitch', 'composition', 'inverse'])
def transpose(ctx, case):
    p, a, b = ctx.int('p'), ctx.int('a'), ctx.int('b')
    t = Tone(p)
    ctx.check(t.pitch == p, 'pitch kept')
    ctx.check(t.transposed(a).pitch == p + a, 'transposed pitch')
    ctx.check(t.transposed(a).transposed(b) == t.transposed(a + b), 'composition')
    ctx.check(t.transposed(a).transposed(-a) == t, 'inverse')
    ctx.check(t.pitch == p, 'pitch kept')
    ctx.observe('p', t.transposed(a).pitch)


@H('every pitch (all integers)', covers=['octave'])
def octave(ctx, case):
    p = ctx.int('p')
    o = Tone(p).octave
    ctx.check(ctx.all([12 * o <= p, p < 12 * o + 12]), 'octave')
    ctx.check(Tone(p).transposed(12).octave == o + 1, 'octave step')
    ctx.check(Tone(p).transposed(-12).octave == o - 1, 'octave step')
    ctx.observe('octave', o)


@H('every pair of pitches (all integers), all six comparisons', covers=['a %s b' % o[0] for o in OPS])
def compare(ctx, case):
    p, q = ctx.int('p'), ctx.int('q')
    for name, op, ref in OPS:
        ctx.check(ctx.iff(op(Tone(p), Tone(q)), ref(p, q)), 'a %s b' % name)


@H('non-integer pitches: float, text, None, Tone', cases=list(range(4)), covers=['refused'])
def non_integer(ctx, case):
    bad = [60.0, 'C4', None, Tone(3)][case]
    try:
        Tone(bad)
    except ValueError:
        ctx.check(True, 'refused')
        return
    ctx.check(False, 'non-integer pitch accepted')
