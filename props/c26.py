"""C26: Operations leave their operands alone; separately made objects share nothing that can change."""
from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from melodia.music import chord
from melodia.processing import track as processing
from se.prop import Registry
from props import smf
from props.hist import D, Hist, is_content, Entry
from props.reading import Score

H = Registry()
ASSUMPTIONS = ['objects are observed through their public interface']


def sig(ctx, s, n, d):
    return ctx.all([s.nominator == n, s.denominator == d])


def quietly(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (ValueError, TypeError, ZeroDivisionError):
        return None


@H('two signatures, every n >= 0 (d = 2^e, listed e): after every operation both read as before',
   cases=[(0, 0), (2, 2), (1, 4), (4, 1), (0, 12)], covers=['signatures'])
def signatures(ctx, case):
    da, db = 1 << case[0], 1 << case[1]
    x, y = ctx.int('x', 0), ctx.int('y', 0)
    a, b = Signature(x, da), Signature(y, db)
    ops = [lambda: a + b, lambda: a * b, lambda: abs(a), lambda: a + a, lambda: a == b, lambda: a != b, lambda: a < b, lambda: a <= b,
           lambda: a > b, lambda: a >= b, lambda: a.to(1 << max(case)), lambda: quietly(a.to, 1), lambda: a.normalized(),
           lambda: ctx.repr(a)]
    for op in ops:
        op()
        ctx.check(ctx.all([sig(ctx, a, x, da), sig(ctx, b, y, db)]), 'signatures')


@H('every tone and note: deriving another leaves it as it was', covers=['tone', 'note'])
def derived(ctx, case):
    p, k, m, n = ctx.int('p', -200, 200), ctx.int('k', -200, 200), ctx.int('m', 0), ctx.int('n', 0)
    t = Tone(p)
    t.transposed(k)
    t == Tone(k), t < Tone(k), t.to_notation(), t.octave
    ctx.check(t.pitch == p, 'tone')
    d = Signature(m, 4)
    a = Note(t, d, 0.25)
    a.transposed(k)
    a.with_velocity(0.5)
    a.with_duration((n, 8))
    a == Note(k, (n, 4), 0.5)
    ctx.check(ctx.all([t.pitch == p, sig(ctx, d, m, 4)]), 'tone')
    ctx.check(ctx.all([a.tone.pitch == p, sig(ctx, a.duration, m, 4), a.velocity == 0.25]), 'note')
    b = a.transposed(k)
    b.with_velocity(0.75)
    ctx.check(ctx.all([a.tone.pitch == p, sig(ctx, a.duration, m, 4), a.velocity == 0.25]), 'note')
    ctx.check(ctx.all([b.tone.pitch == p + k, sig(ctx, b.duration, m, 4), b.velocity == 0.25]), 'note')


def snapshot(h):
    return list(h.model)


@H('one note, one position and one list of notes shared by two tracks (any positions over the listed denominators): each track holds '
   'what was added to it and nothing else', cases=[(4, 4), (4, 16), (16, 4), (1, 2)], covers=['tracks', 'arguments'])
def shared(ctx, case):
    n, q = ctx.int('n', 0), ctx.int('q', 0)
    a, b = Note(ctx.int('p', 0, 127), (ctx.int('m', 0), 8), 0.5), Note(ctx.int('r', 0, 127), (1, 8), 0.5)
    ea = lambda pos: Entry(pos, a.tone.pitch, a.duration.nominator * (D // 8), 0.5)
    eb = lambda pos: Entry(pos, b.tone.pitch, D // 8, 0.5)
    where, both = Signature(n, case[0]), [a, b]
    t, u, v = Track(), Track(), Track()
    un, uq = n * (D // case[0]), q * (D // case[1])
    t.add(a, where)
    u.add(both, where)
    t.add(b, (q, case[1]))
    ctx.check(is_content(ctx, list(t), [ea(un), eb(uq)]), 'tracks')
    ctx.check(is_content(ctx, list(u), [ea(un), eb(un)]), 'tracks')
    ctx.check(ctx.all([len(v) == 0, v.length.nominator == 0]), 'tracks')
    ctx.check(len(list(Track())) == 0, 'tracks')
    u.add(both, (q, case[1]))
    ctx.check(is_content(ctx, list(t), [ea(un), eb(uq)]), 'tracks')
    ctx.check(is_content(ctx, list(u), [ea(un), eb(un), ea(uq), eb(uq)]), 'tracks')
    ctx.check(sig(ctx, where, n, case[0]), 'arguments')
    ctx.check(len(both) == 2 and both[0] is a and both[1] is b, 'arguments')
    ctx.check(ctx.all([a.velocity == 0.5, b.duration.nominator == 1, b.duration.denominator == 8, a.duration.denominator == 8]), 'arguments')


def history(ctx, case):
    s = ctx.int('s', 0, 255)
    h = Hist(ctx, [4, 16, 1], pitches='const', durs='sym', maxn=12, signature=(s, 4))
    for c in case:
        h.op(c)
    t = h.track

    def check(label):
        ctx.check(ctx.all([t.length.nominator * D == h.length() * t.length.denominator, sig(ctx, t.signature, s, 4),
                           len(t) == len(h.model)]), label)
        ctx.check(is_content(ctx, list(t), h.model), label)
    return h, t, check


ONE = Note(1, (1, 4), 0.5)


@H('a track of two notes at any positions n/4, n/16 (n <= 12), any durations: writing, also with a writer that refuses it, comparing, '
   'printing and iterating leave content, length and signature alone', cases=['S', 'SN', 'SS', 'L'], covers=['track'])
def operations(ctx, case):
    h, t, check = history(ctx, case)
    quietly(midi.dumps, t)
    quietly(midi.MIDIWriter(middle_c=Tone(127)).dumps, t)
    check('track')


@H('the same tracks and k = 3: comparing, printing and iterating', cases=['SN', 'SS', 'LS', 'SST'], covers=['track'])
def looking(ctx, case):
    h, t, check = history(ctx, case)
    ctx.repr(t)
    t == Track((3, 4)), t == t, len(t)
    items = list(t)
    items.reverse()
    items.clear()
    check('track')
    h.op('S')
    check('track')


@H('the same tracks: a randomised copy and a copy by content are independent of the track, in both directions', cases=['S', 'SN', 'SS', 'L'],
   covers=['track', 'copy'])
def copies(ctx, case):
    h, t, check = history(ctx, case)
    other = processing.randomize_velocities(t, 0.25, 0.25)
    copy = Track(t.signature, [(n, p) for p, n in t])
    copy.add(ONE)
    other.add(ONE, (0, 1))
    check('track')
    t.add(ONE, (0, 1))
    h.model.append(Entry(0, 1, D // 4, 0.5))
    check('track')
    ctx.check(ctx.all([len(copy) == len(h.model), len(other) == len(h.model)]), 'copy')
    ctx.check(ctx.all(note.velocity == 0.25 for _, note in other if note is not ONE), 'copy')


@H('every chord function, any base pitch: each call returns notes of its own', cases=lambda tier: chords(), covers=['chord'])
def chord_lists(ctx, name):
    f = getattr(chord, name)
    p = ctx.int('p', -100, 100)
    a = f(p, (1, 4))
    b = f(p, (1, 4))
    want = [x.tone.pitch for x in b]
    if isinstance(a, list):
        a.append(Note(0, (1, 1), 0.0))
        a[0] = a[0].transposed(1)
        a.clear()
    c = f(p, (1, 4))
    for r in (b, c):
        r = list(r)
        ctx.check(len(r) == len(want), 'chord')
        ctx.check(ctx.all([x.tone.pitch == y for x, y in zip(r, want)]), 'chord')


def chords():
    return ['maj', 'min', 'aug', 'dim', 'sus2', 'sus4', 'maj7', 'min7', 'dom7', 'maj9', 'dim7']


@H('the same bytes read twice (one note, any pitch, velocity, channel; or a constant file), with a reader, with several, with the functions of the '
   'module: two tracks of their own; the bytes are not changed', cases=[[via, k] for via in ('reader', 'readers', 'module', 'files') for k in ('any', 'constant')],
   covers=['independent'])
def read_twice(ctx, case):
    via, kind = case
    sc = Score(ctx, 96)
    c, p, v = (3, 60, 64) if kind == 'constant' else (ctx.int('c', 0, 15), ctx.int('p', 0, 127), ctx.int('v', 1, 127))
    sc.delta(48)
    sc.on(c, p, v)
    sc.delta(24)
    sc.off(c, p, 0)
    data = smf.file_bytes(ctx, 96, sc.body)
    before = ctx.items(data)
    r = midi.MIDIReader()
    read = {'reader': r.loads, 'readers': lambda d, **k: midi.MIDIReader().loads(d, **k), 'module': midi.loads,
            'files': lambda d, **k: midi.load(ctx.file(d), **k)}[via]
    if kind == 'constant':
        a, b = read(data), read(data)
    else:
        a, b = read(data), read(data, channel=c)
    a.add(Note(0, (1, 1), 0.5))
    a.add(Note(0, (1, 1), 0.5), (0, 1))
    ctx.check(is_content(ctx, list(b), [e for _, e in sc.notes]), 'independent')
    b.add(Note(1, (1, 1), 0.5))
    for again in (read(data), r.loads(data), midi.loads(data)):
        ctx.check(is_content(ctx, list(again), [e for _, e in sc.notes]), 'independent')
    ctx.check(len(a) == 3, 'independent')
    after = ctx.items(data)
    ctx.check(ctx.all(x == y for x, y in zip(before, after)), 'bytes')


@H('empty tracks, tracks of one note, and what is made from them (a randomised copy, a copy by content, reads of a file with no notes): '
   'adding a note (any position) to one leaves the others as they are', cases=[[k, i] for k in (0, 1) for i in range(6)],
   covers=['separate'])
def separate(ctx, case):
    k, i = case
    n = ctx.int('n', 0)
    content = [(Note(60, (1, 4), 0.5), (1, 4))] * k
    data = smf.file_bytes(ctx, 96, [0, 0xFF, 0x58, 4, 4, 2, 24, 8] + [96, 0x90, 60, 64, 96, 0x80, 60, 0] * k)
    a = Track(content=content)
    r = midi.MIDIReader()
    all_ = [a, Track(content=content), Track(a.signature, [(x, p) for p, x in a]), processing.randomize_velocities(a), r.loads(data),
            r.loads(data)]
    for t in all_:
        ctx.check(len(t) == k, 'separate')
    all_[i].add(Note(61, (1, 4), 0.5), (n, 4))
    for j, t in enumerate(all_):
        m = k + (i == j)
        ctx.check(ctx.all([len(t) == m, len(list(t)) == m]), 'separate')
        if i != j:
            ctx.check(ctx.all([t.length.nominator * 2 == k * t.length.denominator]), 'separate')
    ctx.check(len(content) == k, 'arguments')
    ctx.check(len(r.loads(data)) == k, 'separate')


@H('iterating: half of an iteration (k of 2 notes at any positions), twice at once, then writing and adding: nothing is lost',
   cases=[0, 1, 2], covers=['track'])
def half(ctx, k):
    h, t, check = history(ctx, 'SN')
    it, other = iter(t), iter(t)
    for _ in range(k):
        next(it)
    check('track')
    del it
    h.op('S')
    check('track')
    t == Track()
    check('track')
