"""C16: What MIDI cannot express is refused with an exception, and nothing is written."""
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['tempo arithmetic for symbolic tempos is exact (reals); tempos are multiples of 1/64 bpm']
ERRORS = (ValueError, OverflowError, ZeroDivisionError)


def attempt(ctx, writer, track, valid, label, errors=ERRORS):
    f = ctx.file(b'')
    try:
        writer.dump(track, f)
    except errors:
        ctx.check(ctx.not_(valid), label + ': refused only if not expressible')
        ctx.check(len(f.getvalue()) == 0, 'nothing written')
        refused = True
    else:
        ctx.check(valid, label + ': written only if expressible')
        ctx.check(len(f.getvalue()) > 0, 'something written')
        refused = False
    return refused


@H('a track of k notes, the pitch of each any integer; the refused note may be first, middle or last; middle C any '
   'integer', cases=[1, 2, 3], covers=['nothing written', 'something written'])
def pitch(ctx, k):
    c = ctx.int('c')
    ps = [ctx.int('p%d' % i) for i in range(k)]
    t = Track((4, 4), [(Note(p, (1, 4)), (i, 4)) for i, p in enumerate(ps)])
    attempt(ctx, midi.MIDIWriter(middle_c=c), t, ctx.all(x for p in ps for x in (p + 60 - c >= 0, p + 60 - c <= 127)),
            'pitch', ValueError)


@H('time signature n/2^e: every n >= 0, e in 0..14; with and without a note',
   cases=[[e, k] for e in (0, 2, 3, 7, 14) for k in (0, 1)], covers=['nothing written', 'something written'])
def time_signature(ctx, case):
    e, k = case
    n = ctx.int('n', 0)
    t = Track((n, 1 << e), [(Note(60, (1, 4)), (0, 1))] * k)
    attempt(ctx, midi.MIDIWriter(), t, n <= 255, 'time signature')


@H('tempo m/64 bpm, every integer m (also 0 and negative); with and without a note', cases=[0, 1], float_mode='real',
   covers=['nothing written', 'something written'])
def tempo(ctx, k):
    m = ctx.int('m', -(1 << 40), 1 << 40)
    bpm = ctx.frac(m, 64)
    t = Track((4, 4), [(Note(60, (1, 4), 1.0), (0, 1))] * k)
    # microseconds per quarter = int(60000000*64/m), truncated towards 0
    ok = ctx.any([ctx.all([m > 0, 60000000 * 64 < (1 << 24) * m]), ctx.all([m < 0, 60000000 * 64 < -m])])
    attempt(ctx, midi.MIDIWriter(bpm=bpm), t, ok, 'tempo')


@H('gaps: a note at every n >= 0 whole notes lasting every m >= 0 whole notes, 96 pulses per quarter; and a second note '
   'k whole notes after the first ends, every k in 0..2^30', cases=[0, 1], covers=['nothing written', 'something written'])
def gap(ctx, second):
    n, m = ctx.int('n', 0), ctx.int('m', 0)
    lim = ((1 << 28) - 1) // 384
    t = Track((4, 4), [(Note(60, (m, 1)), (n, 1))])
    ok = [n <= lim, m <= lim]
    if second:
        k = ctx.int('k', 0, 1 << 30)
        t.add(Note(62, (1, 1)), (n + m + k, 1))
        ok.append(k <= lim)
    attempt(ctx, midi.MIDIWriter(), t, ctx.all(ok), 'gap', ValueError)


@H('large tracks: n concrete notes and one of arbitrary pitch, the i-th; or a time signature k/4 for every k >= 0',
   cases=lambda tier: [[n, i] for n, i in ((100, 0), (100, 99), (600, 300), (2500, 1000), (100, -1), (2500, -1))] +
   ([[2500, 2499], [10000, 5000], [10000, -1]] if tier != 'quick' else []), max_steps=20000000,
   covers=['nothing written', 'something written'])
def large(ctx, case):
    n, i = case
    p, k = (ctx.int('p'), 4) if i >= 0 else (60, ctx.int('k', 0))
    t = Track((k, 4), [(Note(p if j == i else 36 + j % 60, (1, 4)), (j % 97, 8)) for j in range(n)])
    attempt(ctx, midi.MIDIWriter(), t, ctx.all([k <= 255, p >= -24, p <= 103]), 'large')


@H('after a refusal the same writer and track still work: pitch of the added note any integer', covers=['unchanged'])
def retry(ctx, case):
    p = ctx.int('p')
    ok = Track((4, 4), [(Note(60, (1, 4), 1.0), (0, 1))])
    bad = Track((4, 4), [(Note(60, (1, 4), 1.0), (0, 1)), (Note(p, (1, 4), 1.0), (1, 4))])
    w = midi.MIDIWriter()
    before = w.dumps(ok)
    if attempt(ctx, w, bad, ctx.all([p >= -24, p <= 103]), 'pitch'):
        ctx.check(w.dumps(ok) == before, 'unchanged')
        ctx.check(len(bad) == 2, 'unchanged')


@H('the constructor: every channel and every resolution outside 0..15 / 1..32767 is refused',
   covers=['channel range', 'resolution range'])
def construct(ctx, case):
    c, r = ctx.int('c'), ctx.int('r')
    ok = ctx.all([c >= 0, c <= 15, r >= 1, r <= 32767])
    try:
        midi.MIDIWriter(pulses_per_quarter=r, channel=c)
    except ValueError:
        ctx.check(ctx.not_(ok), 'channel range')
    else:
        ctx.check(ok, 'resolution range')
