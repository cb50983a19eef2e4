"""C21: Writer settings do what they say: middle C, channel, tempo, resolution, time signature."""
from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from se.prop import Registry
from props import smf

H = Registry()
ASSUMPTIONS = ['tempo: bpm is a multiple of 1/64 and the division is exact (reals) in the symbolic harness; a list of '
               'special doubles is run as well']


def events(ctx, data):
    try:
        fmt, ntr, div, ev = smf.decode(ctx.items(data))
    except smf.Bad as e:
        ctx.check(False, 'well-formed: %s' % e)
        raise AssertionError
    return div, [e for _, e in ev]


def meta(ctx, data, kind):
    r = [e[3:] for e in events(ctx, data)[1] if type(e[0]) is int and e[0] == 0xFF and e[1] == kind]
    ctx.check(len(r) == 1, 'once')
    return r[0]


def notes(ctx, data):
    return [e for e in events(ctx, data)[1] if not (type(e[0]) is int and e[0] == 0xFF)]


def one():
    return Track((4, 4), [(Note(60, (1, 4), 1.0), (0, 1))])


@H('middle C any integer, as an int and as a Tone; every pitch that fits', cases=[0, 1], covers=['written pitch'])
def middle_c(ctx, kind):
    c, p = ctx.int('c'), ctx.int('p')
    ctx.assume(ctx.all([p - c + 60 >= 0, p - c + 60 <= 127]))
    w = midi.MIDIWriter(middle_c=Tone(c) if kind else c)
    ev = notes(ctx, w.dumps(Track((4, 4), [(Note(p, (1, 4), 1.0), (0, 1))])))
    ctx.check(ctx.all(e[1] == p - c + 60 for e in ev), 'written pitch')


@H('middle C in notation: every letter, accidental and octave -2..9', cases=[[l, a] for l in 'ABCDEFG' for a in ('', '#', 'b')],
   covers=['written pitch'])
def middle_c_notation(ctx, case):
    l, a = case
    o = ctx.int('o', 0, 9)
    name = l + a + str(o)
    c = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}[l] + {'': 0, '#': 1, 'b': -1}[a] + 12 * o
    for x, y in ((midi.MIDIWriter(middle_c=name), midi.MIDIWriter(middle_c=c)),):
        t = Track((4, 4), [(Note(c, (1, 4), 1.0), (0, 1))])
        ctx.check(x.dumps(t) == y.dumps(t), 'same as the pitch')
        ctx.check(ctx.all(e[1] == 60 for e in notes(ctx, x.dumps(t))), 'written pitch')


@H('every channel 0..15: the low half of every status byte, nothing else', covers=['status'])
def channel(ctx, case):
    c, p = ctx.int('c', 0, 15), ctx.int('p', -24, 103)
    t = Track((4, 4), [(Note(p, (1, 4), 1.0), (0, 1))])
    a, b = notes(ctx, midi.MIDIWriter(channel=c).dumps(t)), notes(ctx, midi.MIDIWriter().dumps(t))
    ctx.check(ctx.all(ctx.all([x[0] == y[0] + c, x[1] == y[1], x[2] == y[2]]) for x, y in zip(a, b)), 'status')
    ctx.check(ctx.all([a[0][0] == 0x90 + c, a[1][0] == 0x80 + c]), 'status')


@H('tempo m/64 bpm, every m that fits: microseconds per quarter are 60000000/bpm rounded towards zero', float_mode='real',
   covers=['tempo'])
def tempo(ctx, case):
    m = ctx.int('m', 1, 1 << 40)
    ctx.assume(60000000 * 64 < (1 << 24) * m)
    b = meta(ctx, midi.MIDIWriter(bpm=ctx.frac(m, 64)).dumps(one()), 0x51)
    us = smf.be(b)
    ctx.check(ctx.all([len(b) == 3, us * m <= 60000000 * 64, 60000000 * 64 < (us + 1) * m]), 'tempo')


@H('tempo an integer number of bpm, every integer 4..2000, through the writer and the module function', cases=[0, 1],
   float_mode='real', covers=['tempo'])
def tempo_int(ctx, kind):
    m = ctx.int('m', 4, 2000)
    data = midi.dumps(one(), bpm=m) if kind else midi.MIDIWriter(bpm=m).dumps(one())
    ctx.check(smf.be(meta(ctx, data, 0x51)) == 60000000 // m, 'tempo')


@H('resolution every 1..32767: the header division', covers=['division'])
def resolution(ctx, case):
    r = ctx.int('r', 1, 32767)
    div, _ = events(ctx, midi.MIDIWriter(pulses_per_quarter=r).dumps(Track()))
    ctx.check(div == r, 'division')


@H('time signature n/2^e, every n in 0..255, e in 0..20; any resolution: numerator, power, 24 clocks per click, 8 32nds per quarter',
   cases=range(0, 21), covers=['time signature'])
def time_signature(ctx, e):
    n, r = ctx.int('n', 0, 255), ctx.int('r', 1, 32767)
    b = meta(ctx, midi.MIDIWriter(pulses_per_quarter=r).dumps(Track((n, 1 << e))), 0x58)
    ctx.check(ctx.all([b[0] == n, b[1] == e, b[2] == 24, b[3] == 8]) if len(b) == 4 else False, 'time signature')


@H('the constructors accept exactly channels 0..15 and resolutions 1..32767', covers=['accepted', 'refused'])
def ranges(ctx, case):
    c, r = ctx.int('c'), ctx.int('r')
    ok = ctx.all([c >= 0, c <= 15, r >= 1, r <= 32767])
    try:
        midi.MIDIWriter(pulses_per_quarter=r, channel=c)
        ctx.check(ok, 'accepted')
    except ValueError:
        ctx.check(ctx.not_(ok), 'refused')


@H('middle C of another type is a TypeError for writer and reader', cases=[0, 1], covers=['type error'])
def bad_type(ctx, kind):
    cls = midi.MIDIReader if kind else midi.MIDIWriter
    for bad in (3.5, None, (60,), b'C3', [60]):
        try:
            cls(middle_c=bad)
            ctx.check(False, 'type error')
        except TypeError:
            ctx.check(True, 'type error')
