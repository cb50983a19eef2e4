"""C27: What a writer or reader returns depends on its settings and the argument alone, not on what it did before."""
from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props.hist import is_content
from props.reading import Score

H = Registry()
ASSUMPTIONS = ['histories of the stated calls on one instance']


def one(ctx, tag, lo=-24, hi=103, den=4):
    n, p, s = ctx.int('n' + tag, 0, 20), ctx.int('p' + tag, lo, hi), ctx.int('s' + tag, 0, 255)
    return Track((s, den), [(Note(p, (1, 4), 1.0), (n, 4))])


def refused(fn, *a, **k):
    try:
        fn(*a, **k)
        return False
    except ValueError:
        return True


@H('two one-note tracks (any position n/4, n <= 20, any pitch and time signature), any channel: A, B, A on one writer equal the '
   'bytes of fresh writers', covers=['reused'])
def writer(ctx, case):
    a, b, c = one(ctx, 'a'), one(ctx, 'b', den=8), ctx.int('c', 0, 15)
    w = midi.MIDIWriter(pulses_per_quarter=480, channel=c)
    x, y, z = w.dumps(a), w.dumps(b), w.dumps(a)
    ctx.check(x == z, 'reused')
    f, g = midi.MIDIWriter(pulses_per_quarter=480, channel=c), midi.MIDIWriter(pulses_per_quarter=480, channel=c)
    ctx.check(f.dumps(a) == x, 'reused')
    ctx.check(g.dumps(b) == y, 'reused')


@H('a track the writer refuses (any unwritable pitch, behind any writable note; or a gap too long) in between: the next bytes are the same',
   cases=['pitch', 'first', 'gap', 'signature'], covers=['after a refusal'])
def writer_refusal(ctx, case):
    a, c = one(ctx, 'a'), ctx.int('c', 0, 15)
    w = midi.MIDIWriter(channel=c)
    x = w.dumps(a)
    bad = one(ctx, 'b')
    if case in ('pitch', 'first'):
        q = ctx.int('q')
        ctx.assume(ctx.any([q < -24, q > 103]))
        bad.add(Note(q, (1, 4), 0.5), (50, 1) if case == 'pitch' else (0, 1))
    elif case == 'gap':
        bad.add(Note(0, (1, 4), 0.5), (ctx.int('g', 1 << 20, 1 << 30), 1))
    try:
        if case == 'signature':
            midi.MIDIWriter(channel=c).dumps(bad)
        w.dumps(bad)
        ok = False
    except ValueError:
        ok = True
    if case != 'signature':
        ctx.check(ok, 'refused')
    ctx.check(w.dumps(a) == x, 'after a refusal')
    ctx.check(midi.MIDIWriter(channel=c).dumps(a) == x, 'after a refusal')


@H('two writers with different settings (any channels, any two middle C pitches 0..60, two resolutions) used in turn', covers=['own settings'])
def two_writers(ctx, case):
    a = one(ctx, 'a', 0, 60)
    c, d, m, k = ctx.int('c', 0, 15), ctx.int('d', 0, 15), ctx.int('m', 0, 60), ctx.int('k', 0, 60)
    v, w = midi.MIDIWriter(96, m, 120.0, c), midi.MIDIWriter(480, k, 60.0, d)
    x, y, x2, y2 = v.dumps(a), w.dumps(a), v.dumps(a), w.dumps(a)
    ctx.check(ctx.all([x == x2, y == y2]), 'own settings')
    ctx.check(midi.MIDIWriter(96, m, 120.0, c).dumps(a) == x, 'own settings')
    ctx.check(midi.MIDIWriter(480, k, 60.0, d).dumps(a) == y, 'own settings')
    (_, note), = list(midi.MIDIReader(m).loads(x))
    (_, other), = list(midi.MIDIReader(k).loads(y))
    ctx.check(ctx.all([note.tone.pitch == other.tone.pitch]), 'own settings')


def score(ctx, tag, div, unclosed=False):
    sc = Score(ctx, div)
    for i in range(2):
        c, p, v = ctx.int('c%s%d' % (tag, i), 0, 15), ctx.int('p%s%d' % (tag, i), 0, 127), ctx.int('v%s%d' % (tag, i), 1, 127)
        sc.delta(ctx.int('t%s%d' % (tag, i), 0, 127) if tag == 'b' and i == 0 else 30 + i)
        sc.on(c, p, v)
        if not (unclosed and i == 1):
            sc.delta(24)
            sc.off(c, p, 0)
    return sc


SIG = [0, 0xFF, 0x58, 4, 3, 2, 24, 8]
PREFIX = [0, 0xFF, 0x20, 1, 3]


@H('file A (two notes, any channels, pitches and velocities, in B any time; one may be left sounding; with a channel prefix and time signature), then '
   'file B, on one reader: B reads as with a fresh reader and A reads as before', cases=['plain', 'unclosed', 'prefix'],
   covers=['reused'])
def reader(ctx, case):
    a, b = score(ctx, 'a', 96, case == 'unclosed'), score(ctx, 'b', 480)
    pre = PREFIX + SIG if case == 'prefix' else SIG if case == 'plain' else []
    da, db = smf.file_bytes(ctx, 96, pre + a.body), smf.file_bytes(ctx, 480, b.body)
    r = midi.MIDIReader()
    first = r.loads(da)
    t = r.loads(db)
    ctx.check(is_content(ctx, list(t), [e for _, e in b.notes]), 'reused')
    ctx.check(ctx.all([t.signature.nominator == 4, t.signature.denominator == 4]), 'signature')
    again = r.loads(da)
    ctx.check(is_content(ctx, list(again), [e for _, e in a.notes]), 'reused')
    ctx.check(ctx.all([again.signature.nominator == first.signature.nominator,
                       again.signature.denominator == first.signature.denominator]), 'signature')


@H('a file that ends early or breaks off in an event (after any first note), then a good file, on one reader',
   cases=['cut', 'status', 'header', 'nothing'], covers=['after an error'])
def reader_error(ctx, case):
    a, b = score(ctx, 'a', 96, True), score(ctx, 'b', 480)
    items = ctx.items(smf.file_bytes(ctx, 96, a.body + ([0, 0xF4] if case == 'status' else [])))
    if case == 'cut':
        items = items[:-5]
    elif case == 'header':
        items = items[:10]
    elif case == 'nothing':
        items = []
    r = midi.MIDIReader()
    try:
        r.loads(ctx.mkbytes(items))
        ok = False
    except midi.MIDIParsingError:
        ok = True
    ctx.check(ok, 'refused')
    t = r.loads(smf.file_bytes(ctx, 480, b.body))
    ctx.check(is_content(ctx, list(t), [e for _, e in b.notes]), 'after an error')


@H('running status does not carry from one file to the next: a good file ending in any channel event, then a file starting with a data '
   'byte, is refused', covers=['refused'])
def reader_status(ctx, case):
    a = score(ctx, 'a', 96)
    r = midi.MIDIReader()
    r.loads(smf.file_bytes(ctx, 96, a.body))
    try:
        r.loads(smf.file_bytes(ctx, 96, [0, ctx.int('p', 0, 127), ctx.int('v', 0, 127)]))
        ok = False
    except midi.MIDIParsingError:
        ok = True
    ctx.check(ok, 'refused')


@H('two readers with any two middle C pitches used in turn', covers=['own settings'])
def two_readers(ctx, case):
    m, k, p = ctx.int('m', -100, 200), ctx.int('k', -100, 200), ctx.int('p', 0, 127)
    data = smf.file_bytes(ctx, 96, [0, 0x90, p, 1, 96, 0x80, p, 0])
    a, b = midi.MIDIReader(m), midi.MIDIReader(middle_c=k)
    for r, c in ((a, m), (b, k), (a, m), (b, k), (midi.MIDIReader(), 36)):
        (_, note), = list(r.loads(data))
        ctx.check(note.tone.pitch == p - 60 + c, 'own settings')


@H('readers: a file of any division (1..32767) with a time signature and one left-over note, then a file of the same or another division '
   'without: the second reads as with a fresh reader', cases=[0, 1], covers=['reused', 'signature'])
def reader_divisions(ctx, same):
    d = ctx.int('d', 1, 32767)
    e = d if same else ctx.int('e', 1, 32767)
    p = ctx.int('p', 0, 127)
    first = smf.file_bytes(ctx, d, PREFIX + SIG + [0, 0xFF, 0x20, 1, 0] + SIG + [0, 0x90, p, 64, 96, 0x93, p, 64])
    second = smf.file_bytes(ctx, e, [0, 0x80, p, 0, 0, 0x93, p, 1, 0, 0x83, p, 0])
    want = midi.MIDIReader().loads(second)
    r = midi.MIDIReader()
    r.loads(first)
    for t in (want, r.loads(second), r.loads(second, channel=3)):
        ctx.check(len(t) == 1, 'reused')
        ctx.check(ctx.all([t.signature.nominator == 4, t.signature.denominator == 4]), 'signature')
        (pos, note), = list(t)
        ctx.check(ctx.all([note.tone.pitch == p - 24, note.velocity == 1 / 127.0]), 'reused')
        ctx.check(ctx.all([pos.nominator == 0, note.duration.nominator == 0]), 'reused')


@H('writers of any resolution (1..32767): track A, track B, track A again: the same bytes, and the same as from fresh writers',
   cases=[[n, d] for n, d in ((0, 4), (3, 4), (1, 8), (5, 16))], covers=['reused'])
def writer_resolutions(ctx, case):
    n, d = case
    r = ctx.int('r', 1, 32767)
    p, s = ctx.int('p', -24, 103), ctx.int('s', 0, 255)
    a = Track((s, 8), [(Note(p, (1, 4), 1.0), (n, d))])
    b = Track((3, 4), [(Note(0, (1, 8), 0.5), (1, 2)), (Note(p, (1, 16), 0.5), (0, 1))])
    w = midi.MIDIWriter(pulses_per_quarter=r)
    x = w.dumps(a)
    w.dumps(b)
    ctx.check(w.dumps(a) == x, 'reused')
    ctx.check(midi.MIDIWriter(pulses_per_quarter=r).dumps(a) == x, 'reused')


@H('one track written, changed (a note added at any position n/4, or appended, any pitch), and written again, by one writer, by the module '
   'functions, to files: what is written is what a fresh writer writes for an equal track built at once',
   cases=[[via, at] for via in ('dumps', 'dump', 'module', 'file') for at in ('placed', 'appended')], covers=['changed'])
def changed_track(ctx, case):
    via, at = case
    n, p = ctx.int('n', 0, 20), ctx.int('p', -24, 103)
    w = midi.MIDIWriter()

    def to(fn):
        def write(t):
            f = ctx.file()
            fn(t, f)
            return f.getvalue()
        return write
    write = {'dumps': w.dumps, 'dump': to(w.dump), 'module': midi.dumps, 'file': to(midi.dump)}[via]
    a, b = Note(40, (1, 4), 1.0), Note(p, (1, 8), 1.0)
    t = Track((3, 4), [(a, (1, 4))])
    write(t)
    if at == 'placed':
        t.add(b, (n, 4))
        u = Track((3, 4), [(a, (1, 4)), (b, (n, 4))])
    else:
        t.add(b)
        u = Track((3, 4), [(a, (1, 4)), (b, (1, 2))])
    x = write(t)
    ctx.check(midi.MIDIWriter().dumps(u) == x, 'changed')
    ctx.check(write(t) == x, 'changed')


@H('a file read, the track it gave changed, and the file read again, by one reader, by the module functions, from files: as the first time',
   cases=['loads', 'load', 'module', 'file'], covers=['changed'])
def changed_result(ctx, via):
    a = score(ctx, 'a', 96)
    data = smf.file_bytes(ctx, 96, SIG + a.body)
    r = midi.MIDIReader()
    read = {'loads': r.loads, 'load': lambda d: r.load(ctx.file(d)), 'module': midi.loads, 'file': lambda d: midi.load(ctx.file(d))}[via]
    for k in range(3):
        t = read(data)
        ctx.check(is_content(ctx, list(t), [e for _, e in a.notes]), 'changed')
        ctx.check(ctx.all([t.signature.nominator == 3, t.signature.denominator == 4]), 'changed')
        t.add(Note(ctx.int('p%d' % k), (1, 1), 0.5), None if k else (0, 1))
