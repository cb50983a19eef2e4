"""C19: Channels are told apart on request and merged by default; time signatures go where they belong."""
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props.hist import D, is_content
from props.reading import Score

H = Registry()
ASSUMPTIONS = ['notes of one file within the stated number']


@H('k notes (k <= 3; 4 thorough) on any channels, each note its own channel and pitch, one after the other; every channel asked for',
   cases=lambda tier: [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4], covers=['that channel', 'all channels', 'missing channel'])
def select(ctx, k):
    sc = Score(ctx, 96)
    for i in range(k):
        c, p = ctx.int('c%d' % i, 0, 15), ctx.int('p%d' % i, 0, 127)
        sc.delta(24)
        sc.on(c, p, 100)
        sc.delta(24)
        sc.off(c, p, 0)
    want = ctx.int('want', 0, 15)
    data = smf.file_bytes(ctx, 96, sc.body)
    everything = [e for _, e in sc.notes]
    ctx.check(is_content(ctx, list(midi.loads(data)), everything), 'all channels')
    mine = [e for c, e in sc.notes if c == want]
    try:
        t = midi.loads(data, channel=want)
    except ValueError:
        ctx.check(not mine, 'missing channel')
        return
    ctx.check(len(mine) > 0, 'missing channel')
    ctx.check(is_content(ctx, list(t), mine), 'that channel')


@H('one or two notes on any channels, or none; any integer asked for as channel, also negative or large: without notes of its own it is '
   'refused, unless no channel of the file has any',
   cases=[0, 1, 2], covers=['missing channel', 'that channel'])
def asked(ctx, k):
    sc = Score(ctx, 96)
    sc.delta(0)
    sc.raw(0xFF, 0x58, 4, 3, 2, 24, 8)
    for i in range(k):
        c, p = ctx.int('c%d' % i, 0, 15), ctx.int('p%d' % i, 0, 127)
        sc.delta(24)
        sc.on(c, p, 100)
        sc.delta(24)
        sc.off(c, p, 0)
    want = ctx.int('want')
    data = smf.file_bytes(ctx, 96, sc.body)
    mine = [e for c, e in sc.notes if c == want]
    try:
        t = midi.loads(data, channel=want)
    except ValueError:
        ctx.check(not mine, 'missing channel')
        return
    if k:
        ctx.check(len(mine) > 0, 'missing channel')
    ctx.check(is_content(ctx, list(t), mine), 'that channel')


@H('two or three notes on different channels, one after the other or overlapping; the first or second of the times between is any variable '
   'length quantity of two or four bytes (up to 2^28 - 1 ticks), divisions from the list; read for each channel and merged',
   cases=[[div, k, order, at] for div, k in ((96, 2), (480, 4), (1, 4), (32767, 4)) for order in ('aAbB', 'abBA', 'aAbBcC') for at in (0, 1)],
   covers=['that channel', 'all channels'])
def times(ctx, case):
    div, k, order, at = case
    sc = Score(ctx, div)
    for i, e in enumerate(order):
        t = ctx.int('t%d' % i, 0, 128 ** k - 1) if i == at else 1000
        sc.delta(t, smf.varlen(ctx, t, k))
        c = 'abc'.index(e.lower()) * 7
        sc.on(c, 60, 100) if e.islower() else sc.off(c, 60, 0)
    data = smf.file_bytes(ctx, div, sc.body)
    t = midi.loads(data)
    ctx.check(is_content(ctx, list(t), [e for _, e in sc.notes]), 'all channels')
    n, d = t.length.nominator, t.length.denominator
    ctx.check(n * D == d * ctx.max([e.pos + e.dur for _, e in sc.notes]), 'all channels')
    for c in (0, 7):
        ctx.check(is_content(ctx, list(midi.loads(data, channel=c)), [e for x, e in sc.notes if x == c]), 'that channel')


@H('two overlapping notes of one pitch on two different channels: events on, on, off, off with the offs in either order',
   cases=[0, 1], covers=['apart'])
def overlap(ctx, order):
    a, b, p = ctx.int('a', 0, 15), ctx.int('b', 0, 15), ctx.int('p', 0, 127)
    ctx.assume(a != b)
    sc = Score(ctx, 96)
    sc.delta(0)
    sc.on(a, p, 10)
    sc.delta(24)
    sc.on(b, p, 20)
    sc.delta(24)
    sc.off([a, b][order], p, 0)
    sc.delta(48)
    sc.off([b, a][order], p, 0)
    data = smf.file_bytes(ctx, 96, sc.body)
    for c in (a, b):
        ctx.check(is_content(ctx, list(midi.loads(data, channel=c)), [e for x, e in sc.notes if x == c]), 'apart')
    ctx.check(is_content(ctx, list(midi.loads(data)), [e for _, e in sc.notes]), 'apart')


@H('k notes (k = 2; 3 thorough) of one pitch and velocity struck together on k different channels, released together: every '
   'one is in the merged track', cases=lambda tier: [2] if tier == 'quick' else [2, 3], covers=['all channels', 'that channel'])
def unison(ctx, k):
    cs = [ctx.int('c%d' % i, 0, 15) for i in range(k)]
    p, v = ctx.int('p', 0, 127), ctx.int('v', 1, 127)
    for i in range(k):
        for j in range(i):
            ctx.assume(cs[i] != cs[j])
    sc = Score(ctx, 96)
    for c in cs:
        sc.delta(0)
        sc.on(c, p, v)
    for i, c in enumerate(cs):
        sc.delta(0 if i else 48)
        sc.off(c, p, 0)
    data = smf.file_bytes(ctx, 96, sc.body)
    ctx.check(is_content(ctx, list(midi.loads(data)), [e for _, e in sc.notes]), 'all channels')
    for c in cs:
        ctx.check(is_content(ctx, list(midi.loads(data, channel=c)), [e for x, e in sc.notes if x == c]), 'that channel')


def ts(n, d):
    return [0, 0xFF, 0x58, 4, n, d, 24, 8]


def prefix(c):
    return [0, 0xFF, 0x20, 1, c]


NOTE = lambda c, p: [0, 0x90 + c, p, 64, 96, 0x80 + c, p, 64]


@H('time signature events n/2^d (every n in 1..255; powers from the cases): one, two (the last counts) or none (4/4), '
   'before or after the notes, with and without notes; read for one channel and merged',
   cases=[[k, d, late, notes] for k in (0, 1, 2) for d in (0, 2, 3) for late in (0, 1) for notes in (0, 1)],
   covers=['time signature'])
def global_signature(ctx, case):
    k, d, late, notes = case
    ns = [ctx.int('n%d' % i, 1, 255) for i in range(k)]
    c = ctx.int('c', 0, 15) if notes else 0
    sig = sum((ts(n, d) for n in ns), [])
    body = NOTE(c, 60) if notes else []
    body = body + sig if late else sig + body
    data = smf.file_bytes(ctx, 96, body)
    n, q = (ns[-1], 1 << d) if k else (4, 4)
    for t in (midi.loads(data), midi.loads(data, channel=c)):
        ctx.check(ctx.all([t.signature.nominator == n, t.signature.denominator == q]), 'time signature')
        ctx.check(len(t) == notes, 'notes')


@H('time signatures behind a channel prefix: global n/4, then m/8 for channel x; notes on channels a and b (all arbitrary); '
   'with and without the global one', cases=[0, 1], covers=['own signature', 'others keep theirs', 'largest'])
def channel_signature(ctx, with_global):
    n, m = ctx.int('n', 1, 255), ctx.int('m', 1, 255)
    a, b, x = ctx.int('a', 0, 15), ctx.int('b', 0, 15), ctx.int('x', 0, 15)
    ctx.assume(a != b)
    body = (ts(n, 2) if with_global else []) + prefix(x) + ts(m, 3) + NOTE(a, 60) + NOTE(b, 61)
    data = smf.file_bytes(ctx, 96, body)
    gn = n if with_global else 4
    sigs = []
    for c in (a, b):
        s = midi.loads(data, channel=c).signature
        ctx.check(ctx.implies(c == x, ctx.all([s.nominator == m, s.denominator == 8])), 'own signature')
        ctx.check(ctx.implies(c != x, ctx.all([s.nominator == gn, s.denominator == 4])), 'others keep theirs')
        sigs.append(s)
    t = midi.loads(data)
    # merged: the largest of the channels' signatures
    v = t.signature
    ctx.check(ctx.all(s.nominator * v.denominator <= v.nominator * s.denominator for s in sigs), 'largest')
    ctx.check(ctx.any(s.nominator * v.denominator == v.nominator * s.denominator for s in sigs), 'largest')
    ctx.check(len(t) == 2, 'notes')


@H('a prefix replaced by another prefix: each time signature goes to the prefix before it', covers=['own signature'])
def two_prefixes(ctx, case):
    n, m = ctx.int('n', 1, 255), ctx.int('m', 1, 255)
    a, b = ctx.int('a', 0, 15), ctx.int('b', 0, 15)
    ctx.assume(a != b)
    data = smf.file_bytes(ctx, 96, prefix(a) + ts(n, 2) + prefix(b) + ts(m, 4) + NOTE(b, 61) + NOTE(a, 60))
    s, u = midi.loads(data, channel=a).signature, midi.loads(data, channel=b).signature
    ctx.check(ctx.all([s.nominator == n, s.denominator == 4, u.nominator == m, u.denominator == 16]), 'own signature')


@H('every sequence of up to 4 (thorough 5) time signatures and channel prefixes, the prefixes naming arbitrary channels (also the '
   'same again), with the notes of two channels in front or behind: the last signature under its prefix counts',
   cases=lambda tier: [[''.join('PS'[v >> i & 1] for i in range(k)), late] for k in range(2, 5 if tier == 'quick' else 6)
                       for v in range(1 << k) for late in (0, 1) if 'S' in ''.join('PS'[v >> i & 1] for i in range(k))],
   covers=['own signature', 'merged signature'])
def sequences(ctx, case):
    seq, late = case
    a, b = ctx.int('a', 0, 15), ctx.int('b', 0, 15)
    ctx.assume(a != b)
    meta, under, events = [], None, []
    for i, k in enumerate(seq):
        if k == 'P':
            under = ctx.int('x%d' % i, 0, 15)
            meta += prefix(under)
        else:
            n = ctx.int('n%d' % i, 1, 255)
            meta += ts(n, 1 + i)
            events.append((under, n, 2 << i))
    notes = NOTE(a, 60) + NOTE(b, 61)
    data = smf.file_bytes(ctx, 96, notes + meta if late else meta + notes)
    sigs = []
    for c in (a, b):
        own = whole = None
        for x, n, d in events:
            if x is None:
                whole = (n, d)
            elif x == c:
                own = (n, d)
        n, d = own or whole or (4, 4)
        s = midi.loads(data, channel=c).signature
        ctx.check(ctx.all([s.nominator == n, s.denominator == d]), 'own signature')
        sigs.append((n, d))
    t = midi.loads(data)
    v = t.signature
    ctx.check(ctx.all(n * v.denominator <= v.nominator * d for n, d in sigs), 'merged signature')
    ctx.check(ctx.any(n * v.denominator == v.nominator * d for n, d in sigs), 'merged signature')
    ctx.check(len(t) == 2, 'notes')


@H('the same sequences of up to 3 time signatures and prefixes, with the notes of one channel or of none: signatures under prefixes of other '
   'channels do not count', cases=[[''.join('PS'[v >> i & 1] for i in range(k)), notes] for k in range(1, 4) for v in range(1 << k)
                                 for notes in (0, 1)], covers=['own signature', 'merged signature'])
def few(ctx, case):
    seq, notes = case
    a = ctx.int('a', 0, 15) if notes else 0
    body, under, own, whole = [], None, None, None
    for i, k in enumerate(seq):
        if k == 'P':
            under = ctx.int('x%d' % i, 0, 15)
            body += prefix(under)
        else:
            n = ctx.int('n%d' % i, 1, 255)
            body += ts(n, 1 + i)
            if under is None:
                whole = (n, 2 << i)
            elif under == a:
                own = (n, 2 << i)
    data = smf.file_bytes(ctx, 96, body + (NOTE(a, 60) if notes else []))
    n, d = own or whole or (4, 4)
    if notes:
        s = midi.loads(data, channel=a).signature
        ctx.check(ctx.all([s.nominator == n, s.denominator == d]), 'own signature')
    t = midi.loads(data)
    ctx.check(len(t) == notes, 'notes')
    if notes or whole is not None or own is None:
        ctx.check(ctx.all([t.signature.nominator == n, t.signature.denominator == d]), 'merged signature')
