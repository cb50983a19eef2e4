"""C17: Reading any bytes ends with a track or a parsing error, never anything else."""
import os
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props import smf
from props.hist import is_content
from props.reading import interpret

H = Registry()
ASSUMPTIONS = ['files within the stated lengths']


def verdict(ctx, data, channel=None, reader=None):
    """Reads; only a well-formed track, or MIDIParsingError (ValueError for a missing channel) is right."""
    r = reader or midi.MIDIReader()
    try:
        t = r.loads(data) if channel is None else r.loads(data, channel=channel)
    except midi.MIDIParsingError:
        ctx.cover('rejected')
        ctx.observe('result', 'rejected')
        return None
    except ValueError:
        ctx.check(channel is not None, 'only a parsing error')
        ctx.cover('no such channel')
        return None
    ctx.cover('accepted')
    ctx.check(isinstance(t, Track), 'a track')
    items = list(t)
    ctx.check(len(t) == len(items), 'length')
    ctx.check(ctx.all(p.nominator >= 0 for p, _ in items), 'positions')
    ctx.check(ctx.all(n.duration.nominator >= 0 for _, n in items), 'durations')
    ctx.check(ctx.all(c for _, n in items for c in (n.velocity >= 0.0, n.velocity <= 1.0)), 'velocities')
    ctx.check(ctx.all(c for _, n in items for c in (n.tone.pitch >= -24, n.tone.pitch <= 231)), 'pitches')
    ctx.observe('result', [[p.nominator, p.denominator, n.tone.pitch, n.duration.nominator, n.duration.denominator]
                           for p, n in items])
    return t


def check_signature(ctx, t, nn, dd):
    """nn / 2^dd as given (nn = 0: any zero)."""
    d = ctx.table(dd, lambda k: 1 << k)
    ctx.check(ctx.all([t.signature.nominator == nn, ctx.any([nn == 0, t.signature.denominator == d])]), 'time signature')


def judge(ctx, division, body, data):
    """The verdict, and what the track says must be what an independent decoder reads; what it rejects must be rejected."""
    t = verdict(ctx, data)
    try:
        notes, b = interpret(ctx, division, body)
    except smf.Undefined:
        return
    except smf.Bad:
        ctx.check(t is None, 'broken file rejected')
        return
    if b.refusable and t is None:
        return
    ctx.check(t is not None, 'readable file accepted')
    ctx.check(is_content(ctx, list(t), [e for _, e in notes]), 'notes')
    if not b.prefixed:
        check_signature(ctx, t, *(b.signature or (4, 2)))


@H('whole files of up to 16 arbitrary bytes', cases=lambda tier: range(0, 17) if tier == 'quick' else range(0, 25),
   covers=['rejected'])
def raw(ctx, n):
    verdict(ctx, ctx.bytes('b', n))


@H('a header chunk with arbitrary format, track count and division (6 bytes) and an empty track chunk', covers=['rejected', 'accepted'])
def head(ctx, case):
    b = ctx.items(ctx.bytes('h', 6))
    t = verdict(ctx, ctx.mkbytes(smf.chunk(b'MThd', b) + smf.chunk(b'MTrk', smf.END)))
    div = b[4] * 256 + b[5]
    ctx.check(ctx.iff(t is not None, ctx.all([b[0] * 256 + b[1] == 0, b[2] * 256 + b[3] == 1, div >= 1, div <= 32767])),
              'unsupported refused')


@H('a header chunk of n arbitrary bytes, n < 6, before a valid track chunk: the division is incomplete, so a parsing error; '
   'n > 6: further bytes are ignored', cases=[0, 1, 2, 3, 4, 5, 6, 7, 9], covers=['rejected', 'accepted'])
def short_head(ctx, n):
    b = ctx.items(ctx.bytes('h', n))
    if n >= 6:
        ctx.assume(b[4] < 128)
        ctx.assume(b[4] * 256 + b[5] > 0)
    t = verdict(ctx, ctx.mkbytes(smf.chunk(b'MThd', b) + smf.chunk(b'MTrk', smf.END)))
    if n < 6:
        ctx.check(t is None, 'incomplete header')
    else:
        ctx.check(ctx.iff(t is not None, ctx.all([x == y for x, y in zip(b[:4], (0, 0, 0, 1))])), 'further header bytes ignored')


@H('chunk names and sizes: two chunks with arbitrary 8-byte headers around fixed bodies, and bytes missing at the end',
   cases=[0, 1, 2], covers=['rejected'])
def chunks(ctx, cut):
    a, b = ctx.items(ctx.bytes('a', 8)), ctx.items(ctx.bytes('b', 8))
    data = a + [0, 0, 0, 1, 0, 96] + b + smf.END
    verdict(ctx, ctx.mkbytes(data[:len(data) - cut]))


@H('order of chunks: any sequence of up to 3 header / track / foreign chunks',
   cases=[[x, y, z] for x in range(4) for y in range(4) for z in range(4)], covers=['rejected', 'accepted'])
def order(ctx, case):
    p = ctx.int('p', 0, 127)
    kinds = [[], smf.chunk(b'MThd', [0, 0, 0, 1, 0, 96]), smf.chunk(b'MTrk', [0, 0x90, p, 1, 96, 0x80, p, 1] + smf.END),
             smf.chunk(b'abcd', [p, 1, 2])]
    verdict(ctx, ctx.mkbytes(sum((kinds[k] for k in case), [])))


@H('valid header (every division) and a track chunk of N arbitrary bytes, N <= 8 (10 thorough)',
   cases=lambda tier: range(0, 9) if tier == 'quick' else range(0, 11), covers=['rejected', 'accepted'])
def body(ctx, n):
    div = ctx.int('div', 1, 32767)
    b = ctx.items(ctx.bytes('b', n))
    judge(ctx, div, b, ctx.mkbytes(smf.header(div) + smf.chunk(b'MTrk', b)))


@H('valid header, a fixed beginning, N arbitrary bytes (N from the case list), an end of track event after them',
   cases=lambda tier: [[k, n] for k in range(6) for n in (1, 2, 3, 4, 5)] +
   ([[k, n] for k in range(6) for n in (6, 7, 8)] if tier != 'quick' else []), covers=['rejected', 'accepted'])
def middle(ctx, case):
    k, n = case
    pre = [[], [0, 0x90, 60, 1], [0, 0xFF, 0x58, 4, 3, 2, 24, 8], [0, 0xC3], [1, 0x90, 60, 1, 96, 0x80], [0x81]][k]
    b = ctx.items(ctx.bytes('b', n))
    judge(ctx, 96, pre + b + smf.END, ctx.mkbytes(smf.header(96) + smf.chunk(b'MTrk', pre + b + smf.END)))


@H('a valid file with one note, cut after any number of bytes', cases=range(0, 38), covers=['rejected', 'accepted'])
def truncated(ctx, cut):
    p, v = ctx.int('p', 0, 127), ctx.int('v', 1, 127)
    t, u = ctx.int('t', 0, 127), ctx.int('u', 0, 127)
    data = smf.header(96) + smf.chunk(b'MTrk', [t, 0x90, p, v, u, 0x80, p, 0] + smf.END)
    t = verdict(ctx, ctx.mkbytes(data[:len(data) - cut]))
    ctx.check((t is not None) == (cut == 0), 'cut file refused')


@H('a valid file with one note and one arbitrary byte substituted at any offset (offset 0..33)',
   cases=range(0, 34), covers=['rejected', 'accepted'])
def corrupted(ctx, at):
    p = ctx.int('p', 0, 127)
    t, u = (0, 0) if at in (12, 13) else (ctx.int('t', 0, 127), ctx.int('u', 0, 127))
    data = smf.header(96) + smf.chunk(b'MTrk', [t, 0x90, p, 64, u, 0x80, p, 0] + smf.END)
    data[at] = ctx.int('x', 0, 255)
    if at >= 22:
        judge(ctx, 96, data[22:], ctx.mkbytes(data))
        return
    t = verdict(ctx, ctx.mkbytes(data))
    if at < 4 or 14 <= at < 18:
        ctx.check(ctx.iff(t is not None, data[at] == b'MThd          MTrk'[at]), 'chunk names')
    elif 8 <= at < 14:
        ctx.check(ctx.iff(t is not None, ctx.all([smf.be(data[8:10]) == 0, smf.be(data[10:12]) == 1, smf.be(data[12:14]) > 0,
                                                  smf.be(data[12:14]) < 32768])), 'unsupported refused')


@H('channel argument: every integer channel against a file with notes on two arbitrary channels',
   covers=['no such channel', 'accepted'])
def channel(ctx, case):
    a, b, c = ctx.int('a', 0, 15), ctx.int('b', 0, 15), ctx.int('c')
    data = smf.file_bytes(ctx, 96, [0, 0x90 + a, 60, 1, 1, 0x80 + a, 60, 0, 1, 0x90 + b, 61, 1, 1, 0x80 + b, 61, 0])
    t = verdict(ctx, data, channel=c)
    ctx.check(ctx.iff(t is not None, ctx.any([c == a, c == b])), 'missing channel')


@H('the time signature event: arbitrary numerator and power', covers=['accepted'])
def signature(ctx, case):
    nn, dd = ctx.int('nn', 0, 255), ctx.int('dd', 0, 255)
    data = smf.file_bytes(ctx, 96, [0, 0xFF, 0x58, 4, nn, dd, 24, 8])
    t = verdict(ctx, data)
    ctx.check(t is not None, 'accepted')
    check_signature(ctx, t, nn, dd)


@H('meta, system exclusive and var-length lengths: arbitrary length bytes (up to 4) followed by too few or enough bytes',
   cases=[[k, n] for k in range(5) for n in (0, 1, 3)], covers=['rejected', 'accepted'])
def lengths(ctx, case):
    k, n = case
    pre = [[0, 0xFF, ctx.int('kind', 0, 255)], [0, 0xF0], [], [0, 0xF0], [0, 0xFF, 1]][k]
    ln = [ctx.int('l%d' % i, 0, 255) for i in range(3 if k < 2 else 4)]
    body = pre + ln + [7] * n + smf.END
    judge(ctx, 96, body, ctx.mkbytes(smf.header(96) + smf.chunk(b'MTrk', body)))


@H('a valid file followed by k <= 11 arbitrary bytes (first of them not "M"): accepted exactly when they are a complete foreign chunk',
   cases=range(1, 12), covers=['rejected'])
def trailing(ctx, k):
    p = ctx.int('p', 0, 127)
    data = smf.header(96) + smf.chunk(b'MTrk', [0, 0x90, p, 64, 96, 0x80, p, 0] + smf.END)
    more = ctx.items(ctx.bytes('x', k))
    ctx.assume(more[0] != 0x4D)
    t = verdict(ctx, ctx.mkbytes(data + more))
    ctx.check(ctx.iff(t is not None, False if k < 8 else smf.be(more[4:8]) == k - 8), 'incomplete chunk refused')
    if t is not None:
        ctx.check(len(t) == 1, 'notes')


@H('a valid file followed by another header or track chunk with any size and n bytes: refused when the size is larger than what is left, '
   'or when fewer than 8 bytes are', cases=[[k, n] for k in (0, 1) for n in (0, 1, 3, 6, 10)] + [[2, n] for n in range(1, 8)],
   covers=['rejected'])
def again(ctx, case):
    k, n = case
    p = ctx.int('p', 0, 127)
    data = smf.header(96) + smf.chunk(b'MTrk', [0, 0x90, p, 64, 96, 0x80, p, 0] + smf.END)
    if k == 2:
        t = verdict(ctx, ctx.mkbytes(data + list(b'MThd\0\0\0')[:n]))
        ctx.check(t is None, 'incomplete chunk refused')
        return
    size = ctx.items(ctx.bytes('s', 4))
    more = ([0, 0, 0, 1, 0, 96] if k == 0 else [0, 0xFF, 0x2F, 0])[:n]
    more += [0] * (n - len(more))
    t = verdict(ctx, ctx.mkbytes(data + list((b'MThd', b'MTrk')[k]) + size + more))
    ctx.check(ctx.implies(smf.be(size) > n, t is None), 'incomplete chunk refused')


@H('a foreign chunk with any 8-byte header (name not starting with "M") between header and track, its size larger than the rest of the '
   'file or right', cases=[0, 1, 5], covers=['rejected', 'accepted'])
def foreign(ctx, n):
    head = ctx.items(ctx.bytes('h', 8))
    ctx.assume(head[0] != 0x4D)
    rest = smf.chunk(b'MTrk', [0, 0x90, 60, 64, 96, 0x80, 60, 0] + smf.END)
    size = smf.be(head[4:8])
    ctx.assume(ctx.any([size == n, size > n + len(rest)]))
    t = verdict(ctx, ctx.mkbytes(smf.header(96) + head + [7] * n + rest))
    ctx.check(ctx.iff(t is not None, size == n), 'incomplete chunk refused')
    if t is not None:
        ctx.check(len(t) == 1, 'notes')


@H('a second header chunk with arbitrary format, track count and division (6 bytes), before or after the track chunk: an unsupported one is refused',
   cases=['before', 'after'], covers=['rejected', 'accepted'])
def second_header(ctx, where):
    b = ctx.items(ctx.bytes('h', 6))
    first, second, track = smf.chunk(b'MThd', [0, 0, 0, 1, 0, 96]), smf.chunk(b'MThd', b), smf.chunk(b'MTrk', smf.END)
    t = verdict(ctx, ctx.mkbytes(first + second + track if where == 'before' else first + track + second))
    div = b[4] * 256 + b[5]
    supported = ctx.all([b[0] * 256 + b[1] == 0, b[2] * 256 + b[3] == 1, div >= 1, div <= 32767])
    if t is not None:
        ctx.check(supported, 'unsupported refused')


@H('a second track chunk of N arbitrary bytes, N <= 5 (thorough 7), after a valid one: refused when its events are broken or unsupported',
   cases=lambda tier: range(0, 6) if tier == 'quick' else range(0, 8), covers=['rejected'])
def second_track(ctx, n):
    b = ctx.items(ctx.bytes('b', n))
    t = verdict(ctx, ctx.mkbytes(smf.header(96) + smf.chunk(b'MTrk', smf.END) + smf.chunk(b'MTrk', b)))
    try:
        interpret(ctx, 96, b)
    except smf.Undefined:
        return
    except smf.Bad:
        ctx.check(t is None, 'broken track refused')
