"""C18: The reader delivers exactly the notes that the file's note events denote."""
import itertools
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props.hist import D, is_content, ascending
from props.reading import Score
from props.long import rnd

H = Registry()
ASSUMPTIONS = ['a reference interpreter written from the MIDI file specification is the oracle; times are rounded down to '
               '1/16384 of a whole note, the start and the duration separately']


def judge(ctx, sc, data=None):
    t = midi.loads(data if data is not None else smf.file_bytes(ctx, sc.div, sc.body))
    items = list(t)
    ctx.check(len(items) == len(sc.notes), 'number of notes')
    ctx.check(is_content(ctx, items, [e for _, e in sc.notes]), 'exactly the notes')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.observe('notes', [[p.nominator, p.denominator, n.tone.pitch, n.duration.nominator, n.duration.denominator, n.velocity]
                          for p, n in items])


def play(ctx, sc, seq, top=127, delta=None):
    """One letter per event; every event carries a symbolic pitch and velocity where it has them."""
    for i, k in enumerate(seq):
        sc.delta(24 if delta is None else delta(i))
        p, v = ctx.int('p%d' % i, 0, 127), ctx.int('v%d' % i, 0, top)
        if k == 'N':
            sc.on(0, p, v)
        elif k == 'M':
            sc.on(9, p, v)
        elif k == 'F':
            sc.off(0, p, v)
        elif k == 'G':
            sc.off(9, p, v)
        elif k == 'R':
            sc.run(p, v)
        elif k == 'T':                     # text, v bytes of it skipped
            sc.raw(0xFF, 0x01, 3, p, v, 0x90)
            sc.status = None
        elif k == 'E':                     # empty unknown meta
            sc.raw(0xFF, 0x7F, 0)
            sc.status = None
        elif k == 'X':                     # system exclusive with data that looks like events
            sc.raw(0xF0, 4, 0x90, p, v, 0xF7)
            sc.status = None
        elif k == 'C':                     # program change
            sc.raw(0xC5, p)
            sc.status = None
        elif k == 'W':                     # pitch wheel
            sc.raw(0xE0, p, v)
            sc.status = None
        elif k == 'A':                     # poly aftertouch
            sc.raw(0xA0, p, v)
            sc.status = None
        elif k == 'B':                     # controller
            sc.raw(0xB0, p, v)
            sc.status = None
        elif k == 'D':                     # channel pressure
            sc.raw(0xD0, p)
            sc.status = None
        elif k == 'Q':                     # tempo
            sc.raw(0xFF, 0x51, 3, 7, p, v)
            sc.status = None
        else:
            raise AssertionError(k)


def sequences(letters, n):
    out = []
    for k in range(1, n + 1):
        for s in itertools.product(letters, repeat=k):
            if s[0] != 'R':
                out.append(''.join(s))
    return out


@H('every sequence of up to 4 (5 thorough) note events out of: note on, note off on the same channel, note on on another '
   'channel, running status; every pitch and velocity (also 0); division 96',
   cases=lambda tier: sequences('NFMR', 4 if tier == 'quick' else 5), covers=['exactly the notes'])
def events(ctx, seq):
    sc = Score(ctx, 96)
    play(ctx, sc, seq)
    judge(ctx, sc)


@H('note events at the same time and apart: on, off and running status, up to 3 events (thorough 4), every delta time 0 or 24, every '
   'pitch, velocities 0 to 3',
   cases=lambda tier: [s for s in sequences('NFR', 3 if tier == 'quick' else 4) if s[0] == 'N' and len(s) > 1] +
   (['NNFF', 'NFNF', 'NMFG', 'NRRR', 'NMRF'] if tier == 'quick' else []), covers=['exactly the notes'])
def moments(ctx, seq):
    sc = Score(ctx, 96)
    play(ctx, sc, seq, 3, lambda i: ctx.int('t%d' % i, 0, 1) * 24)
    judge(ctx, sc)


@H('longer selected sequences: re-struck pitches, interleaved chords, running status over several events, both channels',
   cases=lambda tier: ['NNFF', 'NRRR', 'NFNF', 'FRNR', 'NMFG', 'NMRG', 'NRFR'] + (['NRFRR', 'NNNFF', 'NMNGF', 'NFRNF']
                                                                                 if tier != 'quick' else []),
   covers=['exactly the notes'])
def long_events(ctx, seq):
    sc = Score(ctx, 96)
    play(ctx, sc, seq, 1)
    judge(ctx, sc)


@H('every event the reader does not use, between, before and after the events of a note (its time still counts); every data byte',
   cases=[''.join(x) for k in 'TEXCWABDQ' for x in ('N%sF' % k, '%sNF' % k, 'NF%s' % k)] +
   ['NXTF', 'NCDF', 'NQEF', 'TTNF', 'NBWF'], covers=['exactly the notes'])
def skipping(ctx, seq):
    sc = Score(ctx, 96)
    play(ctx, sc, seq)
    judge(ctx, sc)


@H('running status after every unused channel message: the next data bytes belong to that message',
   cases=[[st, n] for st, n in ((0xA0, 2), (0xB0, 2), (0xC0, 1), (0xD0, 1), (0xE0, 2))], covers=['exactly the notes'])
def running_unused(ctx, case):
    st, n = case
    c = ctx.int('c', 0, 15)
    sc = Score(ctx, 96)
    for k in range(3):
        sc.delta(24)
        sc.raw(*(([st + c] if k == 0 else []) + [ctx.int('d%d.%d' % (k, i), 0, 127) for i in range(n)]))
    sc.delta(24)
    p = ctx.int('p', 0, 127)
    sc.on(3, p, 64)
    sc.delta(24)
    sc.run(p, 0)
    judge(ctx, sc)


@H('running status is not carried over a meta or system exclusive event: such files are rejected',
   cases=[[0xFF, 0x01, 1, 0], [0xFF, 0x51, 3, 1, 2, 3], [0xFF, 0x58, 4, 4, 2, 24, 8], [0xF0, 2, 1, 0xF7], [0xF0, 2, 1, 2],
          [0xF0, 0], [0xF0, 1, None], [0xF0, 3, None, 0x90, None], [0xFF, None, 1, None], [0xFF, 0x7F, 0], [0xFF, 0x20, 1, None], [0xFF, 0x20, 1, 0]], covers=['rejected'])
def cancelled(ctx, mid):
    p, v = ctx.int('p', 0, 127), ctx.int('v', 0, 127)
    mid = [ctx.int('x%d' % i, 0, 255) if x is None else x for i, x in enumerate(mid)]
    if mid[:1] == [0xFF] and type(mid[1]) is not int:
        ctx.assume(ctx.all(mid[1] != k for k in (0x2F, 0x20, 0x58)))
    body = [0, 0x90, p, v, 0] + mid + [1, p, v]
    try:
        midi.loads(smf.file_bytes(ctx, 96, body))
    except midi.MIDIParsingError:
        ctx.check(True, 'rejected')
        return
    ctx.check(False, 'rejected')


@H('times: one note, start and length any variable length quantities of the stated byte counts; divisions 1..32767 from the list',
   cases=lambda tier: [[d, a, b] for d in (96, 4096) for a, b in ((1, 1), (2, 1), (1, 2), (4, 1))] +
   [[1, 1, 1], [480, 2, 2], [32767, 3, 1], [24, 1, 3], [8192, 4, 4]] +
   ([[d, a, b] for d in (120, 16384, 7, 960) for a, b in ((1, 1), (2, 2), (3, 4))] if tier != 'quick' else []),
   covers=['exactly the notes'])
def times(ctx, case):
    div, a, b = case
    t, u = ctx.int('t', 0, 128 ** a - 1), ctx.int('u', 0, 128 ** b - 1)
    sc = Score(ctx, div)
    sc.delta(t, smf.varlen(ctx, t, a))
    sc.on(0, 60, 100)
    sc.delta(u, smf.varlen(ctx, u, b))
    sc.off(0, 60, 0)
    judge(ctx, sc)


@H('late events: n events, each after any delta time of four bytes (up to 2^28 - 1 ticks; positions up to 2^33 ticks): an empty meta event or a note',
   cases=[[n, i, div] for n, i, div in ((9, 8, 96), (12, 3, 480), (20, 17, 32767), (40, 38, 96))], covers=['exactly the notes'])
def late(ctx, case):
    n, i, div = case
    sc = Score(ctx, div)
    for j in range(n):
        t = ctx.int('t%d' % j, 0, (1 << 28) - 1) if j == 0 or j in (i, i + 1) else (1 << 28) - 1 - j
        sc.delta(t, smf.varlen(ctx, t, 4))
        if j == i:
            sc.on(0, 60, 100)
        elif j == i + 1:
            sc.off(0, 60, 0)
        else:
            sc.raw(0xFF, 0x7F, 0)
            sc.status = None
    if i + 1 >= n:
        sc.delta(96)
        sc.off(0, 60, 0)
    judge(ctx, sc)


@H('the end of the track after any delta time of one or four bytes, behind every listed sequence of events (also none, and notes left open)',
   cases=[[seq, k] for seq in ('', 'N', 'F', 'Q', 'T', 'X', 'C', 'NF', 'NN', 'NFN', 'QT') for k in (1, 4)], covers=['exactly the notes'])
def ending(ctx, case):
    seq, k = case
    sc = Score(ctx, 96)
    play(ctx, sc, seq)
    t = ctx.int('t', 0, 128 ** k - 1)
    judge(ctx, sc, ctx.mkbytes(smf.header(96) + smf.chunk(b'MTrk', sc.body + smf.varlen(ctx, t, k) + [0xFF, 0x2F, 0])))


DIVISIONS = [2, 3, 5, 10, 12, 15, 24, 30, 48, 60, 100, 120, 192, 240, 256, 384, 500, 600, 768, 960, 1000, 1024, 1200,
             1536, 1920, 2400, 3840, 4000, 4095, 4097, 5000, 9600, 10000, 15360, 16383, 16384, 16385, 20000, 25000, 30000, 32766]


@H('forty-one divisions from the list (thorough: also every division up to 1024): one note that starts after any t in 0..127 and '
   'lasts u ticks', covers=['exactly the notes'],
   cases=lambda tier: [[d, u % 128] for u, d in enumerate(DIVISIONS + (list(range(1, 1025)) if tier != 'quick' else []))])
def divisions(ctx, case):
    div, u = case
    t, p = ctx.int('t', 0, 127), ctx.int('p', 0, 127)
    sc = Score(ctx, div)
    sc.delta(t)
    sc.on(0, p, 100)
    sc.delta(u)
    sc.off(0, p, 0)
    judge(ctx, sc)


@H('one note: every channel, pitch and velocities 1..127, either note-off form', cases=[0, 1], covers=['exactly the notes'])
def one(ctx, off):
    c, p, v, w = ctx.int('c', 0, 15), ctx.int('p', 0, 127), ctx.int('v', 1, 127), ctx.int('w', 0, 127)
    sc = Score(ctx, 96)
    sc.delta(0)
    sc.on(c, p, v)
    sc.delta(96)
    sc.off(c, p, w) if off else sc.on(c, p, 0)
    judge(ctx, sc)


@H('middle C: every integer pitch (as int and Tone); the note plays relative to it', cases=[0, 1], covers=['pitch'])
def middle_c(ctx, kind):
    from melodia.core import Tone
    c, p = ctx.int('c'), ctx.int('p', 0, 127)
    r = midi.MIDIReader(middle_c=Tone(c) if kind else c)
    (pos, note), = list(r.loads(smf.file_bytes(ctx, 96, [0, 0x90, p, 1, 96, 0x80, p, 0])))
    ctx.check(note.tone.pitch == p - 60 + c, 'pitch')


@H('a header chunk of 6 + n bytes: the first six count, the other n arbitrary bytes are skipped', cases=[0, 1, 2, 4, 10],
   covers=['exactly the notes'])
def long_header(ctx, n):
    p, div = ctx.int('p', 0, 127), 480
    sc = Score(ctx, div)
    sc.delta(ctx.int('t', 0, 127))
    sc.on(0, p, 64)
    sc.delta(1)
    sc.off(0, p, 64)
    extra = ctx.items(ctx.bytes('x', n))
    judge(ctx, sc, ctx.mkbytes(smf.chunk(b'MThd', [0, 0, 0, 1, div // 256, div % 256] + extra) + smf.chunk(b'MTrk', sc.body + smf.END)))


@H('system exclusive and meta events whose length is a variable length quantity of one to four bytes, minimal or not; the data '
   'are arbitrary bytes at both ends and zero between; the note follows', covers=['exactly the notes'],
   cases=[[st, n, k] for st in (0xF0, 0x7F, 0x06) for n, k in ((0, 1), (0, 2), (1, 3), (2, 4), (127, 1), (127, 2), (128, 2), (129, 2),
                                                         (200, 2), (255, 2), (256, 2), (300, 3), (16383, 2), (16384, 3), (70000, 4))])
def lengths(ctx, case):
    st, n, k = case
    p = ctx.int('p', 0, 127)
    edge = min(n, 2)
    data = ctx.items(ctx.bytes('d', edge))
    if n > 2:
        data = [data[0]] + [0] * (n - 2) + [data[1]]
    sc = Score(ctx, 96)
    sc.delta(24)
    sc.on(0, p, 64)
    sc.delta(24)
    sc.raw(*([0xF0] if st == 0xF0 else [0xFF, st]), *smf.varlen(ctx, n, k), *data)
    sc.status = None
    sc.delta(24)
    sc.off(0, p, 64)
    judge(ctx, sc)


@H('long chunks: skipped events of n data bytes (n from the list) before the note, so that the chunk is longer than '
   '255 and 65535 bytes; foreign chunks of that size before the track',
   cases=[[n, k] for n in (200, 300, 70000) for k in (0, 1)], covers=['exactly the notes'])
def long_chunks(ctx, case):
    n, k = case
    p = ctx.int('p', 0, 127)
    sc = Score(ctx, 96)
    if not k:
        sc.delta(0)
        sc.raw(0xFF, 0x01, *(smf.varlen(ctx, n, 3) + [0] * n))
    sc.delta(24)
    sc.on(0, p, 64)
    sc.delta(24)
    sc.off(0, p, 64)
    data = smf.header(96) + (smf.chunk(b'XYZT', [1] * n) if k else []) + smf.chunk(b'MTrk', sc.body + smf.END)
    judge(ctx, sc, ctx.mkbytes(data))


@H('long files: n concrete events (note-on and note-off on three channels over few pitches, notes of no duration, running status, controllers, meta '
   'events, delta times of one to four bytes) with one arbitrary note event (on or off, any pitch and velocity, one of these channels) '
   'in the middle; divisions from the list', cases=lambda tier: [[n, div, off] for n, div in ((20, 96), (80, 480), (200, 7), (200, 32767))
                                                                for off in (0, 1)] +
   ([[600, 960, 0], [600, 96, 1], [2000, 96, 0]] if tier != 'quick' else []), max_steps=20000000, covers=['exactly the notes'])
def long(ctx, case):
    n, div, off = case
    g = rnd(n + div)
    sc = Score(ctx, div)
    for j in range(n):
        size = (1, 1, 2, 1, 1, 3, 1, 4)[next(g) % 8] if j % 5 == 0 else 1
        d = next(g) % (128 ** size)
        if j == n // 2:
            p, v = ctx.int('p', 0, 127), ctx.int('v', 0, 127)
            sc.delta(5)
            sc.off(1, p, v) if off else sc.on(1, p, v)
        sc.delta(d, smf.varlen(ctx, d, size))
        kind, c, p, v = next(g) % 12, next(g) % 3, 60 + next(g) % 4, next(g) % 128
        if kind < 4:
            sc.on(c, p, v)
        elif kind < 8:
            sc.off(c, p, v)
        elif kind < 10 and sc.status:
            sc.run(p, v)
        elif kind == 10:
            sc.raw(0xB0 + c, p, v)
            sc.status = None
        else:
            sc.raw(0xFF, 0x03, 2, 0x90, 0x80)
            sc.status = None
        if j % 10 == 5:                     # a note of no duration
            sc.delta(1)
            sc.on(c, 72, 1 + v // 2)
            sc.delta(0)
            sc.off(c, 72, v)
    judge(ctx, sc)
