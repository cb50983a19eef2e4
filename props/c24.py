"""C24: The file, bytes, class and module interfaces agree; defaults are the documented ones."""
from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props import long
from props.hist import is_content
from props.reading import Score

H = Registry()
ASSUMPTIONS = ['in-memory binary files']


def track(ctx):
    n, m, p, s = ctx.int('n', 0, 40), ctx.int('m', 0, 40), ctx.int('p', -24, 103), ctx.int('s', 0, 255)
    return Track((s, 4), [(Note(p, (m, 4), 1.0), (n, 4))])


@H('writing one note at n/4 lasting m/4 (n, m <= 40), every pitch, channel and integer tempo 4..1000: dump to a file, dumps, and '
   'the class methods give the same bytes', float_mode='real', covers=['file and bytes', 'class and module'])
def write(ctx, case):
    t = track(ctx)
    c, bpm = ctx.int('c', 0, 15), ctx.int('bpm', 4, 1000)
    f, g = ctx.file(), ctx.file()
    w = midi.MIDIWriter(channel=c, bpm=bpm)
    b = midi.dumps(t, bpm=bpm, channel=c)
    midi.dump(t, f, bpm=bpm, channel=c)
    ctx.check(f.getvalue() == b, 'file and bytes')
    w.dump(t, g)
    ctx.check(g.getvalue() == b, 'class and module')
    ctx.check(w.dumps(t) == b, 'class and module')
    h = ctx.file()
    midi.dump(t, h, bpm, c)
    ctx.check(h.getvalue() == midi.dumps(t, bpm, c), 'positional arguments')


def outcome(f):
    try:
        return f() or True
    except Exception as e:
        return type(e)


@H('refusals agree: one note of every pitch, every integer tempo (also 0 and negative) or every integer channel, any time signature n/4: the '
   'module and class functions write the same or refuse with the same kind of exception', float_mode='real', cases=['pitch', 'tempo', 'channel', 'signature'],
   covers=['same refusal', 'same bytes'])
def refusals(ctx, which):
    p, bpm, c, n = 60, 120, 0, 4
    if which == 'pitch':
        p = ctx.int('p')
    elif which == 'tempo':
        bpm = ctx.int('bpm', -100, 1000)
    elif which == 'channel':
        c = ctx.int('c')
    else:
        n = ctx.int('n', 0)
    t = Track((n, 4), [(Note(p, (1, 4), 1.0), (0, 1))])
    files = [ctx.file() for _ in range(2)]
    results = [outcome(lambda: midi.dumps(t, bpm=bpm, channel=c)), outcome(lambda: midi.MIDIWriter(bpm=bpm, channel=c).dumps(t)),
               outcome(lambda: midi.dump(t, files[0], bpm=bpm, channel=c)),
               outcome(lambda: midi.MIDIWriter(bpm=bpm, channel=c).dump(t, files[1]))]
    if isinstance(results[0], type):
        ctx.check(all(r is results[0] for r in results), 'same refusal')
        ctx.check(all(len(f.getvalue()) == 0 for f in files), 'same refusal')
        return
    ctx.check(not any(isinstance(r, type) for r in results), 'same refusal')
    ctx.check(ctx.all([results[1] == results[0]] + [f.getvalue() == results[0] for f in files]), 'same bytes')


@H('reading: refusals agree too: a file with three arbitrary bytes as an event after a note-on, or a note on any channel read for any integer channel',
   cases=['bytes', 'channel'], covers=['same refusal', 'same'])
def unread(ctx, which):
    if which == 'bytes':
        data, kw = ctx.mkbytes(smf.header(96) + smf.chunk(b'MTrk', [0, 0x90, 60, 64, 96] + ctx.items(ctx.bytes('x', 3)) + smf.END)), {}
    else:
        c = ctx.int('c', 0, 15)
        data, kw = smf.file_bytes(ctx, 96, [0, 0x90 + c, 60, 1, 96, 0x80 + c, 60, 0]), {'channel': ctx.int('want')}
    results = [outcome(lambda: midi.loads(data, **kw)), outcome(lambda: midi.load(ctx.file(data), **kw)),
               outcome(lambda: midi.MIDIReader().loads(data, **kw)), outcome(lambda: midi.MIDIReader().load(ctx.file(data), **kw))]
    if isinstance(results[0], type):
        ctx.check(all(r is results[0] for r in results), 'same refusal')
        return
    ctx.check(not any(isinstance(r, type) for r in results), 'same refusal')
    for r in results[1:]:
        ctx.check(r == results[0], 'same')


@H('defaults: 120 bpm, channel 0, 96 pulses per quarter, middle C is C3', covers=['defaults'])
def defaults(ctx, case):
    t = track(ctx)
    b = midi.dumps(t)
    ctx.check(b == midi.MIDIWriter().dumps(t), 'defaults')
    ctx.check(b == midi.MIDIWriter(pulses_per_quarter=96, middle_c='C3', bpm=120.0, channel=0).dumps(t), 'defaults')
    ctx.check(b == midi.MIDIWriter(96, Tone(36), 120, 0).dumps(t), 'defaults')
    ctx.check(ctx.items(b)[12:14] == [0, 96], 'defaults')
    p = ctx.int('q', 0, 127)
    data = smf.file_bytes(ctx, 96, [0, 0x90, p, 1, 96, 0x80, p, 0])
    for r in (midi.loads(data), midi.MIDIReader().loads(data), midi.MIDIReader(middle_c='C3').loads(data), midi.MIDIReader(36).loads(data)):
        (pos, note), = list(r)
        ctx.check(note.tone.pitch == p - 24, 'defaults')


@H('the writer appends at the file position and leaves the file open; two tracks written to one file; earlier content stays',
   covers=['appended'])
def append(ctx, case):
    t, x = track(ctx), ctx.int('x', 0, 255)
    f = ctx.file()
    f.write(ctx.mkbytes([x, 1, 2]))
    midi.dump(t, f)
    midi.dump(t, f)
    b = ctx.items(midi.dumps(t))
    ctx.check(f.getvalue() == ctx.mkbytes([x, 1, 2] + b + b), 'appended')
    f.write(b'.')


@H('a file that already holds other bytes (the written part overwrites some of them, any values): written at the file position, what is '
   'in front and behind stays', cases=[0, 3, 5001, 70000], covers=['overwritten in place'])
def overwrite(ctx, at):
    t, x = track(ctx), ctx.int('x', 0, 255)
    old = [x, 1, 2, 3] * (40 + at // 4)
    f = ctx.file(ctx.mkbytes(old))
    f.seek(at)
    midi.dump(t, f)
    b = ctx.items(midi.dumps(t))
    ctx.check(f.getvalue() == ctx.mkbytes(old[:at] + b + old[at + len(b):]), 'overwritten in place')
    ctx.check(f.tell() == at + len(b), 'overwritten in place')
    f.write(b'.')


@H('a file whose last bytes are a foreign chunk with any content: file and bytes read the same',
   covers=['same'])
def read_all(ctx, case):
    p = ctx.int('p', 0, 127)
    x = ctx.items(ctx.bytes('x', 2))
    data = ctx.mkbytes(ctx.items(smf.file_bytes(ctx, 96, [0, 0x90, p, 1, 96, 0x80, p, 0])) + smf.chunk(b'last', x))
    f = ctx.file(data)
    tracks = [midi.load(f), midi.loads(data), midi.MIDIReader().load(ctx.file(data)), midi.MIDIReader().loads(data)]
    for t in tracks:
        ctx.check(len(t) == 1, 'same')
        ctx.check(list(t)[0][1].tone.pitch == p - 24, 'same')
    f.seek(0)
    ctx.check(f.read() == data, 'left open')


@H('reading two notes (any channels, pitches): file, bytes, class and module agree, with and without a channel; reading starts at '
   'the file position and leaves the file open', cases=[0, 1], covers=['same'])
def read(ctx, sel):
    sc = Score(ctx, 96)
    for i in range(2):
        c, p = ctx.int('c%d' % i, 0, 15), ctx.int('p%d' % i, 0, 127)
        sc.delta(24)
        sc.on(c, p, 100)
        sc.delta(24)
        sc.off(c, p, 0)
    data = smf.file_bytes(ctx, 96, sc.body)
    kw = {'channel': sc.notes[0][0]} if sel else {}
    want = [e for c, e in sc.notes if not sel or c == sc.notes[0][0]]
    f = ctx.file(data)
    g = ctx.file(ctx.mkbytes([1, 2, 3] + ctx.items(data)))
    g.seek(3)
    tracks = [midi.load(f, **kw), midi.loads(data, **kw), midi.MIDIReader().load(ctx.file(data), **kw), midi.MIDIReader().loads(data, **kw),
              midi.load(g, **kw)]
    for t in tracks:
        ctx.check(is_content(ctx, list(t), want), 'same')
    if sel:
        ctx.check(is_content(ctx, list(midi.loads(data, sc.notes[0][0])), want), 'same')
    ctx.check(f.tell() == len(data), 'left open')


@H('a track of 33000 notes (files of 300 kB) beside one note of any pitch: dump and dumps agree, load and loads agree', cases=[33000], max_steps=40000000,
   covers=['file and bytes', 'same'])
def large(ctx, k):
    p = ctx.int('p', -24, 103)
    t = Track((3, 4), [(Note(p, (1, 4), 1.0), (200000, 4))])
    for q, m, v, n in long.lane(k):
        t.add(Note(q, (m, 4), v / 127), (n, 4))
    b = midi.dumps(t)
    f = ctx.file()
    midi.dump(t, f)
    ctx.check(len(b) > 65536, 'file and bytes')
    ctx.check(f.getvalue() == b, 'file and bytes')
    u = midi.loads(b)
    f.seek(0)
    v = midi.load(f)
    ctx.check(ctx.all([len(u) == len(t), len(v) == len(t)]), 'same')
