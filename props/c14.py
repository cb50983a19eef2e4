"""C14: Written event times are the track's times, rounded down to pulses; too long gaps are refused."""
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props import smf

H = Registry()
ASSUMPTIONS = ['an independent SMF decoder written from the MIDI file specification is the oracle']
LIMIT = (1 << 28) - 1


def times(ctx, data):
    """Absolute times of the channel events; a malformed file is a failed check."""
    try:
        _, _, _, events = smf.decode(ctx.items(data))
    except smf.Bad as e:
        ctx.check(False, 'well-formed: %s' % e)
        return None
    return [t for t, e in events if not (type(e[0]) is int and e[0] == 0xFF)]


def judge(ctx, fn, on, length):
    """fn() writes one note that starts at pulse `on` and lasts `length` pulses."""
    fits = ctx.all([on <= LIMIT, length <= LIMIT])
    try:
        data = fn()
    except ValueError:
        ctx.check(ctx.not_(fits), 'refused only when too long')
        return
    ctx.check(fits, 'written only when it fits')
    ts = times(ctx, data)
    if ts is None:
        return
    ctx.check(len(ts) == 2, 'two events')
    ctx.check(ts[0] == on, 'start pulse')
    ctx.check(ts[1] == on + length, 'end pulse')
    ctx.observe('data', data)


@H('one note at n/d lasting m/d, every n and m in [0, 2^36]; resolution and d from the case list '
   '(d up to 2^14, resolutions 1..32767)',
   cases=lambda tier: [[1, 1], [1, 4], [1, 8], [24, 32], [96, 1], [96, 16], [480, 64], [960, 8],
                       [32767, 2], [32767, 16], [7, 8]] +
   ([[1, 256], [96, 256], [96, 1 << 14], [97, 128], [480, 1 << 12], [32766, 32], [1, 1 << 14]] if tier != 'quick' else []),
   covers=['start pulse', 'end pulse', 'refused only when too long'])
def values(ctx, case):
    ppq, d = case
    n, m = ctx.int('n', 0, 1 << 36), ctx.int('m', 0, 1 << 36)
    t = Track((4, 4), [(Note(60, (m, d)), (n, d))])
    w = midi.MIDIWriter(pulses_per_quarter=ppq)
    judge(ctx, lambda: w.dumps(t), 4 * ppq * n // d, 4 * ppq * m // d)


@H('one note at n/d, n <= 5, lasting 3/8; every resolution 1..32767; d in {1,2,4,8,32,128,1024}',
   cases=[[n, d] for n in (0, 1, 3, 5) for d in (1, 4, 32, 1024)],
   covers=['start pulse', 'end pulse'])
def resolution(ctx, case):
    n, d = case
    ppq = ctx.int('ppq', 1, 32767)
    t = Track((4, 4), [(Note(60, (3, 8)), (n, d))])
    w = midi.MIDIWriter(pulses_per_quarter=ppq)
    judge(ctx, lambda: w.dumps(t), 4 * ppq * n // d, 4 * ppq * 3 // 8)


@H('two notes, the second far behind the first: gaps on both sides of the longest representable gap (2^28-1 pulses); '
   'starts n, k in [0, 2^30] whole notes at 1 pulse per quarter', cases=[None],
   covers=['gap refused', 'gap written'])
def gap(ctx, case):
    n, k = ctx.int('n', 0, 1 << 30), ctx.int('k', 0, 1 << 30)
    t = Track((4, 4), [(Note(60, (0, 1)), (n, 1)), (Note(61, (0, 1)), (n + k, 1))])
    w = midi.MIDIWriter(pulses_per_quarter=1)
    fits = ctx.all([4 * n <= LIMIT, 4 * k <= LIMIT])
    try:
        data = w.dumps(t)
    except ValueError:
        ctx.check(ctx.not_(fits), 'gap refused')
        return
    ctx.check(fits, 'gap written')
    ts = times(ctx, data)
    if ts is not None:
        ctx.check(ctx.all([ts[0] == 4 * n, ts[1] == 4 * n, ts[2] == 4 * (n + k), ts[3] == 4 * (n + k)])
                  if len(ts) == 4 else False, 'times')


@H('very fine positions and durations: n/2^k k in {33,52,62} (thorough also 20,40,54,70), every n in [0, 2^(k+6)]; a partner just below 1 or above 0',
   cases=lambda tier: [[what, ppq, k] for what in ('position', 'duration')
                       for ppq, k in ((480, 33), (32767, 52), (1, 62)) +
                       (((96, 20), (7, 40), (96, 54), (960, 70)) if tier != 'quick' else ())],
   covers=['start pulse', 'end pulse'])
def fine(ctx, case):
    what, ppq, k = case
    n = ctx.int('n', 0, 1 << (k + 6))
    d = 1 << k
    t = Track((4, 4), [(Note(60, (n, d) if what == 'duration' else (1, d)), (n, d) if what == 'position' else (d - 1, d))])
    w = midi.MIDIWriter(pulses_per_quarter=ppq)
    q = 4 * ppq * n // d
    if what == 'position':
        judge(ctx, lambda: w.dumps(t), q, 4 * ppq // d)
    else:
        judge(ctx, lambda: w.dumps(t), 4 * ppq * (d - 1) // d, q)


@H('late notes: n notes 2^25 whole notes apart at 1 pulse per quarter (from the ninth on more than 2^30, from the seventeenth 2^31 pulses after the start), then a note k '
   'whole notes later lasting m, every k, m in [0, 2^26): each at its time', cases=[7, 8, 15, 16, 17, 33], covers=['late'])
def late(ctx, n):
    k, m = ctx.int('k', 0, (1 << 26) - 1), ctx.int('m', 0, (1 << 26) - 1)
    t = Track((4, 4), [(Note(i, (0, 1)), (i << 25, 1)) for i in range(n)])
    base = (n - 1) << 25
    t.add(Note(90, (m, 1)), (base + k, 1))
    ts = times(ctx, midi.MIDIWriter(pulses_per_quarter=1).dumps(t))
    if ts is None:
        return
    ctx.check(len(ts) == 2 * n + 2, 'late')
    ctx.check(ctx.all(ts[2 * i + j] == (i << 27) for i in range(n) for j in (0, 1)), 'late')
    ctx.check(ctx.all([ts[2 * n] == 4 * (base + k), ts[2 * n + 1] == 4 * (base + k + m)]), 'late')
