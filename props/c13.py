"""C13: The writer produces a well-formed one-track SMF holding exactly the track's notes."""
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props.long import background

H = Registry()
ASSUMPTIONS = ['an independent SMF decoder written from the MIDI file specification is the oracle']


def pulses(n, d, ppq):
    return 4 * ppq * n // d


def vel(ctx, m, den):
    return ctx.table(m, lambda k: k / den)


def expect(ctx, data, notes, ppq, channel, delta):
    """notes: [(on, off, pitch, velocity byte)].  All checks on the written bytes."""
    items = ctx.items(data)
    try:
        fmt, ntr, div, events = smf.decode(items)
    except smf.Bad as e:
        ctx.check(False, 'well-formed: %s' % e)
        return
    ctx.check(fmt == 0, 'format 0')
    ctx.check(ntr == 1, 'one track')
    ctx.check(div == ppq, 'division')
    chan = [(t, e) for t, e in events if len(e) == 3 and not (type(e[0]) is int and e[0] == 0xFF)]
    meta = [e for t, e in events if type(e[0]) is int and e[0] == 0xFF]
    ctx.check(sorted(e[1] for e in meta) == [0x2F, 0x51, 0x58], 'one time signature, one tempo, one end')
    ctx.check(ctx.all(t == 0 for t, e in events if type(e[0]) is int and e[0] == 0xFF and e[1] != 0x2F),
              'meta events at time 0')
    ctx.check(len(chan) == 2 * len(notes), 'two events per note')
    ctx.check(ctx.all(ctx.all([e[1] >= 0, e[1] < 128, e[2] >= 0, e[2] < 128]) for _, e in chan), 'data bytes')
    want = []
    for on, off, p, v in notes:
        want.append((on, 0x90 + channel, p + delta, v))
        want.append((off, 0x80 + channel, p + delta, None))

    def same(a, b):
        c = [a[0] == b[0], a[1] == b[1], a[2] == b[2]]
        if a[3] is not None and b[3] is not None:
            c.append(a[3] == b[3])
        elif (a[3] is None) != (b[3] is None):
            return False
        return ctx.all(c)
    conds = []
    for w in want:
        have = ctx.count(ctx.all([t == w[0], e[0] == w[1], e[1] == w[2]] + ([e[2] == w[3]] if w[3] is not None else []))
                         for t, e in chan)
        conds.append(have == ctx.count(same(w, x) for x in want))
    ctx.check(ctx.all(conds), 'exactly the notes')
    return events, chan


@H('one note: pitch 24-offset range all of MIDI 0..127, position n/d with n in [0, 2^21], duration m/d, d in {1,4,16,128}, '
   'channel 0..15, velocity k/127 for every k; resolution 96', cases=[1, 4, 16, 128],
   covers=['exactly the notes', 'well-formed'])
def one_note(ctx, d):
    p = ctx.int('p', -24, 103)
    n, m = ctx.int('n', 0, 1 << 21 if d > 1 else 1 << 19), ctx.int('m', 0, 1 << 19)
    c = ctx.int('c', 0, 15)
    k = ctx.int('k', 0, 127)
    t = Track((4, 4), [(Note(p, (m, d), vel(ctx, k, 127.0)), (n, d))])
    data = midi.MIDIWriter(channel=c).dumps(t)
    on = pulses(n, d, 96)
    ctx.cover('well-formed')
    expect(ctx, data, [(on, on + pulses(m, d, 96), p, k)], 96, c, 24)
    ctx.observe('data', data)


@H('one note, velocity every double in [0,1]: velocity byte is floor(127 v) in double arithmetic; pitch 0..127',
   covers=['exactly the notes'])
def velocity(ctx, case):
    v = ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    t = Track((4, 4), [(Note(36, (1, 4), v), (0, 1))])
    data = midi.dumps(t)
    items = ctx.items(data)
    _, _, _, ev = smf.decode(items)
    on = [e for _, e in ev if len(e) == 3 and e[0] == 0x90]
    ctx.check(len(on) == 1, 'one note on')
    b = on[0][2]
    x = v * 127
    ctx.check(ctx.all([x >= b, ctx.any([x < b + 1]), b >= 0, b <= 127]), 'exactly the notes')


@H('k = 2 and 3 notes in any order and overlap: positions and durations n/d, 0 <= n <= top, (denominators, resolution, '
   'top) from the case list; pitches 0..127, channel 3',
   cases=lambda tier: [[[4, 4], 96, 4], [[1, 16], 480, 4], [[16, 2], 1, 5], [[2, 2], 32767, 2], [[1, 1], 96, 60],
                       [[1, 1, 1], 1, 2], [[1, 2, 1], 24, 1]] +
   ([[[4, 4], 1, 40], [[8, 4], 480, 12], [[2, 2, 2], 96, 4], [[1, 4, 1], 3, 6], [[16, 16], 24, 16],
     [[1, 1, 1], 1, 7], [[1, 2, 1], 24, 2]] if tier != 'quick' else []),
   covers=['exactly the notes'])
def notes(ctx, case):
    dens, ppq, top = case
    t = Track((4, 4))
    want = []
    for i, d in enumerate(dens):
        n, m = ctx.int('n%d' % i, 0, top), ctx.int('m%d' % i, 0, top)
        p = ctx.int('p%d' % i, -24, 103)
        t.add(Note(p, (m, d), (i + 1) / 127.0), (n, d))
        on = pulses(n, d, ppq)
        want.append((on, on + pulses(m, d, ppq), p, i + 1))
    data = midi.MIDIWriter(pulses_per_quarter=ppq, channel=3).dumps(t)
    expect(ctx, data, want, ppq, 3, 24)


@H('empty track, any resolution 1..32767', covers=['exactly the notes'])
def empty(ctx, case):
    ppq = ctx.int('ppq', 1, 32767)
    expect(ctx, midi.MIDIWriter(pulses_per_quarter=ppq).dumps(Track()), [], ppq, 0, 24)


@H('long tracks: n concrete notes in mixed order with ties, duplicates and overlaps, and one arbitrary note (any pitch, position k/4, '
   'k up to the bound, duration 3/8) added in the middle; channel 0..15 (5 for n > 20); resolution 96; files over 255 and over 65535 bytes',
   cases=lambda tier: [[12, 30], [40, 12], [130, 4], [8500, 0]] + ([[40, 200], [300, 30]] if tier != 'quick' else []),
   max_steps=20000000, covers=['exactly the notes'])
def long(ctx, case):
    n, top = case
    c = ctx.int('c', 0, 15) if n <= 20 else 5
    t, want = Track((4, 4)), []
    for j, b in enumerate(background(n)):
        if j == n // 2:
            k, p = ctx.int('k', 0, top), ctx.int('p', -24 if n <= 300 else 60, 103)
            t.add(Note(p, (3, 8), 1.0), (k, 4))
            want.append((k * 96, k * 96 + 144, p, 127))
        t.add(Note(b[0], b[1], b[2] / 127.0), b[3])
        on = pulses(b[3][0], b[3][1], 96)
        want.append((on, on + pulses(b[1][0], b[1][1], 96), b[0], int(b[2] / 127.0 * 127)))
    data = midi.MIDIWriter(channel=c).dumps(t)
    if n <= 300:
        expect(ctx, data, want, 96, c, 24)
        return
    # only the framing and the counts (the comparison of all pairs is quadratic)
    fmt, ntr, div, events = smf.decode(ctx.items(data))
    ctx.check(len(events) == 2 * n + 5, 'exactly the notes')
    ctx.check(ctx.all(a[0] <= b[0] for a, b in zip(events, events[1:])), 'in order')
