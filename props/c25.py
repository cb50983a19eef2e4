"""C25: The repr of every object is an expression that gives the object back."""
from melodia.core import Note, Signature, Tone, Track
from se.prop import Registry
from props.long import background

H = Registry()
ASSUMPTIONS = ['repr of a float is taken to denote that float (Python guarantees it)']
NAMES = {'Note': Note, 'Signature': Signature, 'Tone': Tone, 'Track': Track}


@H('every integer pitch', covers=['tone'])
def tone(ctx, case):
    p = ctx.int('p')
    r = ctx.eval_text(ctx.repr(Tone(p)), NAMES)
    ctx.check(isinstance(r, Tone), 'tone')
    ctx.check(r.pitch == p, 'tone')


@H('signatures n/d: every n >= 0, d = 2^e, e in 0..12 and up to 1100', cases=list(range(13)) + [31, 32, 53, 63, 64, 65, 100, 1024, 1100], covers=['signature'])
def signature(ctx, e):
    n = ctx.int('n', 0)
    r = ctx.eval_text(ctx.repr(Signature(n, 1 << e)), NAMES)
    ctx.check(isinstance(r, Signature), 'signature')
    ctx.check(ctx.all([r.nominator == n, r.denominator == 1 << e]), 'signature')


def same_note(ctx, a, b):
    return ctx.all([a.tone.pitch == b.tone.pitch, a.duration.nominator == b.duration.nominator,
                    a.duration.denominator == b.duration.denominator, a.velocity == b.velocity])


@H('notes: every pitch, duration m/2^e (m >= 0), velocity any double in [0,1]', cases=[0, 1, 2, 4, 10, 33, 65], covers=['note'])
def note(ctx, e):
    p, m, v = ctx.int('p'), ctx.int('m', 0), ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    a = Note(p, (m, 1 << e), v)
    r = ctx.eval_text(ctx.repr(a), NAMES)
    ctx.check(isinstance(r, Note), 'note')
    ctx.check(same_note(ctx, a, r), 'note')
    ctx.check(a == r, 'equal')


@H('tracks of k notes (k <= 3), every position, pitch and duration, velocity any double in [0,1]; time signature s/8, every s >= 0',
   cases=[[], [4], [4, 4], [4, 1], [1, 16], [1, 4, 2], [1 << 34], [1 << 66], [1, 1 << 65]], covers=['track'])
def track(ctx, dens):
    t = Track((ctx.int('s', 0), 8))
    for i, d in enumerate(dens):
        v = ctx.float('v%d' % i) if i == 0 else 0.5
        if i == 0:
            ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
        t.add(Note(ctx.int('p%d' % i), (ctx.int('m%d' % i, 0), 8), v), (ctx.int('n%d' % i, 0), d))
    r = ctx.eval_text(ctx.repr(t), NAMES)
    ctx.check(isinstance(r, Track), 'track')
    ctx.check(ctx.all([r.signature.nominator == t.signature.nominator, r.signature.denominator == t.signature.denominator]), 'signature')
    a, b = list(t), list(r)
    ctx.check(len(a) == len(b), 'track')
    ctx.check(ctx.all(ctx.all([x[0].nominator == y[0].nominator, x[0].denominator == y[0].denominator, same_note(ctx, x[1], y[1])])
                      for x, y in zip(a, b)), 'track')
    ctx.check(t == r, 'equal')
    ctx.check(ctx.all([r.length.nominator * t.length.denominator == t.length.nominator * r.length.denominator]), 'length')


@H('long tracks: n concrete notes (mixed denominators, ties, duplicates) with one arbitrary note (any pitch, duration m/8 and position k/32, from 40 notes on '
   'at one position) added as the i-th', cases=lambda tier: [[5, 2], [9, 0], [20, 11], [70, 3], [600, 300], [1100, 1000]] + ([[30, 20], [2500, 700]] if tier != 'quick' else []),
   max_steps=20000000, covers=['track'])
def long(ctx, case):
    n, i = case
    t = Track((3, 4))
    for j, b in enumerate(background(n)):
        if j == i:
            t.add(Note(ctx.int('p'), (ctx.int('m', 0), 8), 0.5), (ctx.int('k', 0), 32) if n < 40 else (301, 64))
        t.add(Note(b[0], b[1], b[2] / 127.0), b[3])
    r = ctx.eval_text(ctx.repr(t), NAMES)
    a, b = list(t), list(r)
    ctx.check(ctx.all([len(a) == n + 1, len(b) == n + 1]), 'track')
    ctx.check(ctx.all(ctx.all([x[0].nominator == y[0].nominator, x[0].denominator == y[0].denominator, same_note(ctx, x[1], y[1])])
                      for x, y in zip(a, b)), 'track')
    ctx.check(t == r, 'equal')
