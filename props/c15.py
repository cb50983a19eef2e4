"""C15: Writing a track and reading it back gives the same track."""
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props.hist import D, Entry, is_content, ascending
from props.long import lane
from props.c18 import DIVISIONS

H = Registry()
ASSUMPTIONS = ['positions and durations are multiples of a pulse and have a power-of-two denominator up to 2^14',
               'notes of the same pitch do not overlap; velocities are k/127 with k >= 1; pitches are MIDI 0..127']


def vel(ctx, k):
    return ctx.table(k, lambda i: i / 127.0)


def build(ctx, spec, sig, top, durs=None):
    """Track with notes at n/d, and the model entries."""
    t = Track(sig)
    model = []
    for i, d in enumerate(spec):
        n = ctx.int('n%d' % i, 0, top)
        m = durs[i] if durs else ctx.int('m%d' % i, 0, top)
        p = ctx.int('p%d' % i, -24, 103)
        v = (i + 1) / 127.0
        t.add(Note(p, (m, d), v), (n, d))
        model.append(Entry(n * (D // d), p, m * (D // d), v))
    return t, model


def compare(ctx, t, back, model):
    items = list(back)
    ctx.check(is_content(ctx, items, model), 'same notes')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(back.signature == t.signature, 'same time signature')
    ctx.check(ctx.all([back == t, t == back]), 'equal tracks')


@H('one note at n/d lasting m/d: n, m up to 2^17, d in {1,4,16,128}, every pitch, channel and velocity k/127 (k in 1..127); '
   'resolution 96', cases=[1, 4, 16, 128], covers=['same notes', 'equal tracks'])
def one_note(ctx, d):
    n, m = ctx.int('n', 0, 1 << 17), ctx.int('m', 0, 1 << 17)
    p, c, k = ctx.int('p', -24, 103), ctx.int('c', 0, 15), ctx.int('k', 1, 127)
    t = Track((4, 4), [(Note(p, (m, d), vel(ctx, k)), (n, d))])
    back = midi.loads(midi.dumps(t, channel=c))
    (pos, note), = list(back)
    ctx.check(ctx.all([pos.nominator * d == n * pos.denominator, note.tone.pitch == p,
                       note.duration.nominator * d == m * note.duration.denominator,
                       note.velocity == vel(ctx, k)]), 'same notes')
    ctx.check(back == t, 'equal tracks')


@H('one note at n/d lasting m/d, n and m up to 2^10, other resolutions and the coarsest/finest grid they can express',
   cases=lambda tier: [[1, 4], [2, 8], [24, 32], [480, 128], [960, 256], [4096, 16384], [32767, 4], [3, 4]] +
   ([[48, 64], [120, 32], [8192, 16384], [32766, 8], [32, 128]] if tier != 'quick' else []),
   covers=['same notes'])
def resolutions(ctx, case):
    ppq, d = case
    n, m, p = ctx.int('n', 0, 1 << 10), ctx.int('m', 0, 1 << 10), ctx.int('p', -24, 103)
    t = Track((4, 4), [(Note(p, (m, d), 1.0), (n, d))])
    back = midi.loads(midi.MIDIWriter(pulses_per_quarter=ppq).dumps(t))
    compare(ctx, t, back, [Entry(n * (D // d), p, m * (D // d), 1.0)])


@H('forty-one resolutions from the list (thorough: also every resolution up to 1024): one note at n/4 lasting m/4, n and m in 0..15, '
   'any pitch', cases=lambda tier: DIVISIONS + (list(range(1, 1025)) if tier != 'quick' else []), covers=['same notes'])
def many_resolutions(ctx, ppq):
    n, m, p = ctx.int('n', 0, 15), ctx.int('m', 0, 15), ctx.int('p', -24, 103)
    t = Track((4, 4), [(Note(p, (m, 4), 1.0), (n, 4))])
    back = midi.loads(midi.MIDIWriter(pulses_per_quarter=ppq).dumps(t))
    compare(ctx, t, back, [Entry(n * (D // 4), p, m * (D // 4), 1.0)])


@H('every time signature n/2^e, n in [1,255], e in 0..14, with an empty track and with one note',
   cases=[[e, k] for e in range(15) for k in (0, 1)], covers=['same time signature'])
def time_signature(ctx, case):
    e, k = case
    n = ctx.int('n', 1, 255)
    t = Track((n, 1 << e), [(Note(60, (1, 4), 1.0), (1, 4))] * k)
    back = midi.loads(midi.dumps(t))
    ctx.check(ctx.all([back.signature.nominator == n, back.signature.denominator == 1 << e]),
              'same time signature')
    ctx.check(len(back) == k, 'same size')


@H('two notes of different pitch in any relation: n and m up to the bound, denominators from the case list',
   cases=lambda tier: [[[1, 1], 6, 1], [[4, 4], 3, 96], [[1, 16], 2, 96], [[2, 8], 3, 24]] +
   ([[[1, 1], 40, 96], [[16, 4], 6, 96], [[8, 8], 8, 480]] if tier != 'quick' else []),
   covers=['same notes', 'equal tracks'])
def two_pitches(ctx, case):
    spec, top, ppq = case
    t, model = build(ctx, spec, (3, 4), top)
    ctx.assume(model[0].pitch != model[1].pitch)
    compare(ctx, t, midi.loads(midi.MIDIWriter(pulses_per_quarter=ppq).dumps(t)), model)


@H('two and three notes of one pitch one after the other: gaps g >= 0 and durations m >= 1 up to the bound (adjacent when '
   'g = 0), added in either order', cases=[[2, 0, 8], [2, 1, 8], [3, 0, 2], [3, 1, 2]], covers=['same notes', 'equal tracks'])
def same_pitch(ctx, case):
    k, rev, top = case
    p = ctx.int('p', -24, 103)
    at, es, model = 0, [], []
    for i in range(k):
        g, m = ctx.int('g%d' % i, 0, top), ctx.int('m%d' % i, 1, top)
        at = at + g
        es.append((Note(p, (m, 4), (i + 1) / 127.0), Signature(at, 4)))
        model.append(Entry(at * (D // 4), p, m * (D // 4), (i + 1) / 127.0))
        at = at + m
    t = Track((4, 4), es[::-1] if rev else es)
    compare(ctx, t, midi.loads(midi.MIDIWriter(pulses_per_quarter=1).dumps(t)), model)


@H('chords of k notes of different pitches at one position n/4 with one duration m/4 (n, m up to 64), k <= 3 (4 thorough)',
   cases=lambda tier: [2, 3] if tier == 'quick' else [2, 3, 4], covers=['same notes', 'equal tracks'])
def chord(ctx, k):
    n, m = ctx.int('n', 0, 64), ctx.int('m', 0, 64)
    ps = [ctx.int('p%d' % i, -24, 103) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(ps[i] != ps[j])
    t = Track((4, 4))
    t.add([Note(p, (m, 4), 1.0) for p in ps], (n, 4))
    model = [Entry(n * (D // 4), p, m * (D // 4), 1.0) for p in ps]
    compare(ctx, t, midi.loads(midi.dumps(t)), model)


@H('middle C given as every pitch for writer and reader', covers=['same notes'])
def middle_c(ctx, case):
    c, p = ctx.int('c', -200, 200), ctx.int('p', -300, 300)
    ctx.assume(ctx.all([p + 60 - c >= 0, p + 60 - c <= 127]))
    t = Track((4, 4), [(Note(p, (1, 4), 1.0), (1, 2))])
    back = midi.MIDIReader(middle_c=c).loads(midi.MIDIWriter(middle_c=c).dumps(t))
    compare(ctx, t, back, [Entry(D // 2, p, D // 4, 1.0)])


@H('long tracks: n concrete notes of five pitches, not overlapping per pitch but adjacent and simultaneous, in quarters, and one '
   'arbitrary note (another pitch, position k/8, k up to the bound, duration m/8, m in 0..2) added in the middle; resolution 96',
   cases=lambda tier: [[12, 40], [50, 12], [200, 2]] + ([[50, 100], [400, 20]] if tier != 'quick' else []),
   max_steps=20000000, covers=['same notes', 'equal tracks'])
def long(ctx, case):
    n, top = case
    t, model = Track((5, 8)), []
    for j, (p, m, v, k) in enumerate(lane(n)):
        if j == n // 2:
            q, x, y = ctx.int('q', 50, 103), ctx.int('k', 0, top), ctx.int('m', 0, 2)
            t.add(Note(q, (y, 8), 1.0), (x, 8))
            model.append(Entry(x * (D // 8), q, y * (D // 8), 1.0))
        t.add(Note(p, (m, 4), v / 127.0), (k, 4))
        model.append(Entry(k * (D // 4), p, m * (D // 4), v / 127.0))
    compare(ctx, t, midi.loads(midi.dumps(t)), model)


@H('late notes: n notes 350000 whole notes apart, then a note k/4 later lasting 3/4, or 3/4 later lasting k/4, 0 < k <= 1400000 '
   '(positions up to 2^32 pulses); resolution 96', cases=[[n, w] for n in (8, 17, 33) for w in (0, 1)], covers=['same notes'])
def late(ctx, case):
    n, which = case
    step = 350000
    k = ctx.int('k', 1, 4 * step)
    k, m = (k, 3) if which else (3, k)
    t, model = Track((7, 16)), []
    for i in range(n):
        t.add(Note(i, (1, 4), 1.0), (i * step, 1))
        model.append(Entry(i * step * D, i, D // 4, 1.0))
    base = (n - 1) * step
    t.add(Note(90, (m, 4), 1.0), (4 * base + k, 4))
    model.append(Entry(base * D + k * (D // 4), 90, m * (D // 4), 1.0))
    compare(ctx, t, midi.loads(midi.dumps(t)), model)
