"""C20: The written file depends only on the track's content, and reading and writing again changes nothing."""
import itertools
from melodia.core import Note, Signature, Track
from melodia.io import midi
from se.prop import Registry
from props.long import background, lane

H = Registry()
ASSUMPTIONS = ['re-writing: positions and durations on the pulse grid, notes of one pitch not overlapping, velocities k/127, k >= 1']


def vel(ctx, k):
    return ctx.table(k, lambda i: i / 127.0)


@H('one note at n/d lasting m/d (n, m <= 300, d in {1,4,32}), every pitch, velocity k/127 and channel; time signature s/4, s in 1..255',
   cases=[1, 4, 32], covers=['same file'])
def again(ctx, d):
    n, m = ctx.int('n', 0, 300), ctx.int('m', 0, 300)
    p, k, c, s = ctx.int('p', -24, 103), ctx.int('k', 1, 127), ctx.int('c', 0, 15), ctx.int('s', 1, 255)
    a = midi.dumps(Track((s, 4), [(Note(p, (m, d), vel(ctx, k)), (n, d))]), channel=c)
    b = midi.dumps(midi.loads(a), channel=c)
    ctx.check(a == b, 'same file')


@H('two notes of different pitch anywhere (n, m <= 6 over 1 and 2, or <= 3 over 4)',
   cases=[[[1, 1], 6], [[2, 1], 4], [[4, 4], 2]], covers=['same file'])
def again_two(ctx, case):
    dens, top = case
    t = Track((3, 4))
    ps = []
    for i, d in enumerate(dens):
        p = ctx.int('p%d' % i, -24, 103)
        ps.append(p)
        t.add(Note(p, (ctx.int('m%d' % i, 0, top), d), 1.0), (ctx.int('n%d' % i, 0, top), d))
    ctx.assume(ps[0] != ps[1])
    a = midi.dumps(t)
    ctx.check(midi.dumps(midi.loads(a)) == a, 'same file')


def entries(ctx, dens, top):
    out = []
    for i, d in enumerate(dens):
        n, m, p = ctx.int('n%d' % i, 0, top), ctx.int('m%d' % i, 0, 1), ctx.int('p%d' % i, -24, 103)
        out.append((Note(p, (m, d), vel(ctx, ctx.int('k%d' % i, 0, 127))), Signature(n, d)))
    return out


@H('two notes (positions 0..8 over d, any pitch, velocity and duration) added in either order, and through a list; three '
   'notes in every order (positions 0..1)',
   cases=[[[1, 1], [1, 0], 8], [[4, 1], [1, 0], 2], [[4, 16], [1, 0], 1]] +
   [[[1, 1, 1], list(p), 1] for p in itertools.permutations(range(3))][1:4], covers=['same file'])
def order(ctx, case):
    dens, perm, top = case
    es = entries(ctx, dens, top)
    a, b = Track((4, 4), es), Track((4, 4), [es[i] for i in perm])
    ctx.check(midi.dumps(a) == midi.dumps(b), 'same file')


@H('equal values in other words: position n/d and kn/kd, duration m/4 and 2m/8', cases=[[1, 2], [4, 4], [2, 16]], covers=['same file'])
def spelling(ctx, case):
    d, k = case
    n, m, p = ctx.int('n', 0, 40), ctx.int('m', 0, 40), ctx.int('p', -24, 103)
    a = Track((4, 4), [(Note(p, (m, 4)), Signature(n, d))])
    b = Track(Signature(4, 4), [(Note(p, Signature(2 * m, 8)), (k * n, k * d))])
    ctx.check(midi.dumps(a) == midi.dumps(b), 'same file')


@H('long tracks: n concrete notes, one arbitrary note (any pitch and velocity k/127, position j/4 up to the bound): added in another '
   'order the file is the same; and for notes that do not overlap, read and written again it is the same',
   cases=lambda tier: [[12, 20, 0], [40, 6, 0], [150, 1, 0], [12, 20, 1], [40, 6, 1]] +
   ([[40, 60, 0], [300, 10, 0], [40, 60, 1], [300, 10, 1]] if tier != 'quick' else []), max_steps=20000000, covers=['same file'])
def long(ctx, case):
    n, top, re = case
    j, p, k = ctx.int('j', 0, top), ctx.int('p', 70, 103), ctx.int('k', 1, 127)
    x = (Note(p, (1, 4), vel(ctx, k)), Signature(j, 4))
    if re:
        bs = [(Note(q, (m, 4), v / 127.0), Signature(i, 4)) for q, m, v, i in lane(n)]
        a = midi.dumps(Track((4, 4), bs[:n // 2] + [x] + bs[n // 2:]))
        ctx.check(midi.dumps(midi.loads(a)) == a, 'same file')
        return
    bs = [(Note(q, m, v / 127.0), Signature(*i)) for q, m, v, i in background(n)]
    a, b = Track((4, 4), bs[:n // 2] + [x] + bs[n // 2:]), Track((4, 4), [x] + bs[::-1])
    ctx.check(midi.dumps(a) == midi.dumps(b), 'same file')
