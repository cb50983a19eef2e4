"""C29: The text of an object says what it is."""
from melodia.core import Note, Signature, Tone, Track
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['format(x, ".3f") of a float is taken to be its text to three decimals (Python guarantees it)']
NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']



def a_pitch(ctx):
    """An arbitrary pitch, by class and octave, and the text it must have."""
    k = ctx.choice('class', range(12))
    o = ctx.int('octave')
    return 12 * o + k, ctx.fmt('{}{}', NAMES[k], o)


@H('every pitch', covers=['tone'])
def tone(ctx, case):
    p, text = a_pitch(ctx)
    ctx.check(ctx.str(Tone(p)) == text, 'tone')


@H('signatures n/2^e: every n >= 0, e in 0..12 and 62..65', cases=lambda tier: list(range(13)) + [62, 63, 64, 65], covers=['signature'])
def signature(ctx, e):
    n = ctx.int('n', 0)
    ctx.check(ctx.str(Signature(n, 1 << e)) == ctx.fmt('{}/{}', n, 1 << e), 'signature')


@H('notes: every pitch, duration m/2^e (m >= 0), any velocity k/127 or k/1000 or k/1024', covers=['note'],
   cases=[[e, d] for e in (0, 2, 5) for d in (127, 1000, 1024)])
def note(ctx, case):
    e, den = case
    p, text = a_pitch(ctx)
    m, k = ctx.int('m', 0), ctx.int('k', 0, den)
    v = ctx.frac(k, den)
    ctx.check(ctx.str(Note(p, (m, 1 << e), v)) == ctx.fmt('Note {}/{} {} ({:.3f})', m, 1 << e, text, v), 'note')


@H('tracks of k notes, before and after iteration; time signature s/2^e, every s >= 0; every position and pitch',
   cases=[[k, e] for k in (0, 1, 2, 3, 10) for e in (0, 2, 6)] + [[100, 2], [1100, 2]], max_steps=20000000, covers=['track'])
def track(ctx, case):
    k, e = case
    s = ctx.int('s', 0)
    t = Track((s, 1 << e))
    for i in range(k):
        at = (ctx.int('n%d' % i, 0), 4) if i < 2 and k < 100 else (i, 8)
        t.add(Note(ctx.int('p%d' % i) if i < 2 and k < 100 else 60 + i, (1, 4), 0.5), at)
    want = ctx.fmt('Track {}/{} with {} notes', s, 1 << e, k)
    ctx.check(ctx.str(t) == want, 'track')
    if k:
        twice = Note(ctx.int('q'), (1, 8), 0.5)
        t.add(twice)
        t.add(twice, (1, 4))
        t.add([twice, twice])
        k += 4
        want = ctx.fmt('Track {}/{} with {} notes', s, 1 << e, k)
        ctx.check(ctx.str(t) == want, 'track')
    n = len(list(t))
    ctx.check(ctx.all([n == k, ctx.str(t) == want]), 'track')
