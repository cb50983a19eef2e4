"""C12: Track equality means same time signature and same content, whatever the insertion order."""
import itertools
from melodia.core import Note, Signature, Track
from se.prop import Registry
from props.hist import D, Entry, same_entry
from props.long import background

H = Registry()
ASSUMPTIONS = ['tracks up to the stated number of notes']


def entry(ctx, name, d, e):
    n = ctx.int(name + '.pos', 0)
    m = ctx.int(name + '.dur', 0)
    p = ctx.int(name + '.p')
    return (Note(p, (m, e), 0.5), Signature(n, d)), Entry(n * (D // d), p, m * (D // e), 0.5)


def multiset_eq(ctx, a, b):
    if len(a) != len(b):
        return False
    return ctx.all(ctx.count(same_entry(ctx, x, y) for y in b) == ctx.count(same_entry(ctx, x, y) for y in a)
                   for x in a)


@H('tracks of i and j notes (i + j <= 3), every position, duration (denominators 1,4,16) and pitch; time signatures n/4 '
   'and m/8, every n, m >= 0; equal denominators too',
   cases=[[i, j, s] for i in range(4) for j in range(4) if i + j <= 3 for s in ((4, 4), (4, 8))],
   covers=['equal iff same'])
def iff(ctx, case):
    i, j, (sa, sb) = case
    n, m = ctx.int('n', 0), ctx.int('m', 0)
    dens = [4, 1, 16]
    ea = [entry(ctx, 'a%d' % k, dens[k], 4) for k in range(i)]
    eb = [entry(ctx, 'b%d' % k, dens[(k + 1) % 3], 8) for k in range(j)]
    a = Track((n, sa), [x for x, _ in ea])
    b = Track((m, sb), [x for x, _ in eb])
    want = ctx.all([n * sb == m * sa, multiset_eq(ctx, [e for _, e in ea], [e for _, e in eb])])
    ctx.check(ctx.iff(a == b, want), 'equal iff same')
    ctx.check(ctx.iff(b == a, want), 'symmetric')
    ctx.check(ctx.iff(a != b, ctx.not_(want)), 'unequal iff not same')


@H('two tracks of two notes each that agree in the time signature and the first note',
   cases=[[4, 8], [1, 16], [2, 2]], covers=['equal iff same'])
def two(ctx, case):
    d, e = case
    x, m0 = entry(ctx, 'x', 4, 4)
    y, m1 = entry(ctx, 'y', d, 4)
    z, m2 = entry(ctx, 'z', e, 4)
    a, b = Track((4, 4), [x, y]), Track((4, 4), [z, x])
    want = multiset_eq(ctx, [m0, m1], [m2, m0])
    ctx.check(ctx.iff(a == b, want), 'equal iff same')


@H('the same three notes (positions over 4,1,16; every position, duration, pitch) added in every order, optionally '
   'iterated in between', cases=[[p, it] for p in itertools.permutations(range(3)) for it in (0, 1)],
   covers=['insertion order'])
def order(ctx, case):
    perm, it = case
    es = [entry(ctx, 'e%d' % k, d, 4)[0] for k, d in enumerate((4, 1, 16))]
    a, b = Track(), Track()
    for note, pos in es:
        a.add(note, pos)
    for k in perm:
        b.add(*es[k])
        if it:
            list(b)
    ctx.check(a == b, 'insertion order')
    ctx.check(a == a, 'reflexive')


@H('prefixes: a track of k notes against the same track with one more note, k <= 2',
   cases=[0, 1, 2], covers=['longer track differs'])
def prefix(ctx, k):
    es = [entry(ctx, 'e%d' % i, d, 4)[0] for i, d in enumerate((4, 1, 16)[:k + 1])]
    a, b = Track((3, 4), es[:k]), Track((3, 4), es)
    ctx.check(ctx.not_(a == b), 'longer track differs')
    ctx.check(ctx.not_(b == a), 'longer track differs')


@H('one note against one note with very large denominators: position k/2^a against l/2^b, duration m/2^b against o/2^a, every k, l, m, o '
   '>= 0; equal exactly when the values are', cases=[[20, 22], [31, 64], [53, 54], [64, 65], [60, 200], [2, 70]],
   covers=['equal iff same'])
def fine(ctx, case):
    a, b = case
    k, l, m, o = (ctx.int(x, 0) for x in ('k', 'l', 'm', 'o'))
    s = Track((4, 4), [(Note(60, (m, 1 << b), 0.5), Signature(k, 1 << a))])
    t = Track((1 << b, 1 << b), [(Note(60, (o, 1 << a), 0.5), Signature(l, 1 << b))])
    want = ctx.all([k << (b - a) == l, m == o << (b - a)])
    ctx.check(ctx.iff(s == t, want), 'equal iff same')
    u = Track((4, 4), [(Note(60, (o, 1 << a), 0.5), Signature(l, 1 << b))])
    ctx.check(ctx.iff(s == u, want), 'equal iff same')
    ctx.check(ctx.iff(u == s, want), 'equal iff same')


@H('velocity differs: two one-note tracks, velocities any doubles in [0,1]', covers=['velocity matters'])
def velocity(ctx, case):
    v, w = ctx.float('v'), ctx.float('w')
    for x in (v, w):
        ctx.assume(ctx.all([x >= 0.0, x <= 1.0]))
    a, b = Track((4, 4), [(Note(60, (1, 4), v), (0, 1))]), Track((4, 4), [(Note(60, (1, 4), w), (0, 1))])
    ctx.check(ctx.iff(a == b, v == w), 'velocity matters')


@H('long tracks: the same n concrete notes in two orders (as made, and reversed or rotated), each with one arbitrary note (pitch, '
   'position, duration), the two differing at most in the named component: equal exactly when those two are equal; and n against '
   'n+1 notes',
   cases=lambda tier: [[n, r, c] for n, r in ((6, 0), (6, 1), (16, 1), (40, 0)) for c in ('p', 'dur')] + [[4, 0, 'pos'], [8, 1, 'pos']] +
   ([[100, 0, 'p'], [100, 1, 'dur'], [16, 1, 'pos']] if tier != 'quick' else []),
   max_steps=20000000, covers=['equal iff same'])
def long(ctx, case):
    n, r, comp = case
    bs = [(Note(p, m, v / 127.0), Signature(*k)) for p, m, v, k in background(n, dens=(1, 4))]
    x = {'pos': ctx.int('pos', 0), 'dur': ctx.int('dur', 0), 'p': ctx.int('p')}
    y = dict(x)
    y[comp] = ctx.int('other', 0)
    x, y = ((Note(z['p'], (z['dur'] * j, 4 * j), 0.5), Signature(z['pos'] * j, 4 * j)) for z, j in ((x, 1), (y, 2)))
    cs = bs[::-1] if r else bs[n // 3:] + bs[:n // 3]
    a, b = Track((4, 4), bs[:n // 2] + [x] + bs[n // 2:]), Track((4, 4), [y] + cs)
    same = ctx.all([x[1].nominator * 2 == y[1].nominator, x[0].tone.pitch == y[0].tone.pitch,
                    x[0].duration.nominator * 2 == y[0].duration.nominator])
    ctx.check(ctx.iff(a == b, same), 'equal iff same')
    ctx.check(ctx.not_(Track((4, 4), bs) == a), 'longer track differs')
