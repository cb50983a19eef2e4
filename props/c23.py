"""C23: Randomising velocities keeps everything else and stays within the limits."""
from melodia.core import Note, Signature, Track
from melodia.processing import track as processing
from se.prop import Registry
from props.hist import D, ascending
from props.long import lane

H = Registry()
ASSUMPTIONS = ['every random draw is an arbitrary finite double (a superset of what the generator can return)',
               'tracks up to the stated number of notes; minimum <= maximum for the limits']


def unit(ctx, name):
    v = ctx.float(name)
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    return v


def build(ctx, k, dens=(4, 1, 16), vel=lambda i: 0.5):
    t = Track((ctx.int('s', 0), 8))
    es = []
    for i in range(k):
        n, m, p = ctx.int('n%d' % i, 0), ctx.int('m%d' % i, 0), ctx.int('p%d' % i)
        t.add(Note(p, (m, 4), vel(i)), (n, dens[i]))
        es.append((n * (D // dens[i]), p, m * (D // 4)))
    return t, es


def kept(ctx, items, es):
    """items have the positions, pitches and durations es, as multisets."""
    def has(it, e):
        pos, note = it
        return ctx.all([pos.nominator * D == e[0] * pos.denominator, note.tone.pitch == e[1],
                        note.duration.nominator * D == e[2] * note.duration.denominator])

    def eq(a, b):
        return ctx.all(x == y for x, y in zip(a, b))
    if len(items) != len(es):
        return False
    return ctx.all(ctx.count(has(it, e) for it in items) == ctx.count(eq(e, f) for f in es) for e in es)


@H('k notes (k <= 2; 3 thorough), every position, pitch, duration; limits and mean any doubles in [0,1] with minimum <= maximum, variance any '
   'double in [0,100]; '
   'every outcome of the random draws', cases=lambda tier: [0, 1, 2] if tier == 'quick' else [0, 1, 2, 3],
   covers=['within the limits', 'everything else kept'])
def limits(ctx, k):
    t, es = build(ctx, k)
    lo, hi, mean = unit(ctx, 'lo'), unit(ctx, 'hi'), unit(ctx, 'mean')
    var = ctx.float('var')
    ctx.assume(ctx.all([lo <= hi, var >= 0.0, var <= 100.0]))
    r = processing.randomize_velocities(t, lo, hi, mean, var)
    items = list(r)
    for _, n in items:
        ctx.check(ctx.all([n.velocity >= lo, n.velocity <= hi]), 'within the limits')
    ctx.check(kept(ctx, items, es), 'everything else kept')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(ctx.all([r.signature.nominator == t.signature.nominator, r.signature.denominator == 8]), 'time signature')
    old = list(t)
    ctx.check(kept(ctx, old, es), 'input unchanged')
    ctx.check(ctx.all(n.velocity == 0.5 for _, n in old), 'input unchanged')
    ctx.check(r is not t, 'a new track')
    if k:
        ctx.check(ctx.all([r.length.nominator * t.length.denominator == t.length.nominator * r.length.denominator]), 'length')


@H('one note of any velocity (any double in [0,1]), any limits: the old velocity does not matter, and stays in the input',
   covers=['within the limits'])
def velocities(ctx, case):
    v, lo, hi = unit(ctx, 'v'), unit(ctx, 'lo'), unit(ctx, 'hi')
    ctx.assume(lo <= hi)
    t, es = build(ctx, 1, vel=lambda i: v)
    (_, note), = list(processing.randomize_velocities(t, lo, hi))
    ctx.check(ctx.all([note.velocity >= lo, note.velocity <= hi]), 'within the limits')
    (_, old), = list(t)
    ctx.check(old.velocity == v, 'input unchanged')


@H('default limits: 0.5 to 1.0, one and two notes', cases=[1, 2], covers=['default limits'])
def default_limits(ctx, k):
    t, es = build(ctx, k)
    items = list(processing.randomize_velocities(t))
    ctx.check(ctx.all(c for _, n in items for c in (n.velocity >= 0.5, n.velocity <= 1.0)), 'default limits')
    ctx.check(kept(ctx, items, es), 'everything else kept')


@H('limits equal: the velocity is that limit', covers=['pinned'])
def pinned(ctx, case):
    t, es = build(ctx, 1)
    lo = unit(ctx, 'lo')
    (_, note), = list(processing.randomize_velocities(t, minimum=lo, maximum=lo))
    ctx.check(note.velocity == lo, 'pinned')


@H('arguments: each of minimum, maximum, mean and variance any double (also infinite and NaN), the others valid; refused exactly '
   'outside [0,1] (variance: not >= 0)', cases=['minimum', 'maximum', 'mean', 'variance'], covers=['accepted', 'refused'])
def arguments(ctx, which):
    x = ctx.float('x')
    t, es = build(ctx, 1)
    if which == 'variance':
        # the square root of an infinite variance is no longer a finite spread
        ok = x >= 0.0
    else:
        ok = ctx.all([x >= 0.0, x <= 1.0])
    try:
        r = processing.randomize_velocities(t, **{which: x})
    except ValueError:
        ctx.check(ctx.not_(ok), 'refused')
        return
    ctx.check(ok, 'accepted')
    ctx.check(kept(ctx, list(r), es), 'everything else kept')


@H('adding to the result does not change the input and the other way round (tracks of 0, 1 and 2 notes)', cases=[0, 1, 2],
   covers=['independent'])
def independent(ctx, k):
    t, es = build(ctx, k)
    r = processing.randomize_velocities(t) if k < 2 else processing.randomize_velocities(t, 0.5, 0.5, 0.5, 0)
    ctx.check(r is not t, 'independent')
    r.add(Note(1, (1, 4), 0.5), (ctx.int('x', 0), 4))
    ctx.check(len(t) == k, 'independent')
    ctx.check(kept(ctx, list(t), es), 'independent')
    t.add(Note(2, (1, 4), 0.5))
    t.add(Note(2, (1, 4), 0.5))
    ctx.check(len(list(r)) == k + 1, 'independent')


@H('long tracks: n concrete notes and one arbitrary one (pitch; for n <= 40 also position k/8): every note is in the result, within the default limits', cases=lambda tier: [40, 260] if tier == 'quick' else [40, 260, 600],
   max_steps=20000000, covers=['within the limits', 'everything else kept'])
def long(ctx, n):
    t, es = Track((3, 4)), []
    k, p = ctx.int('k', 0, 8) if n <= 40 else 3, ctx.int('p')
    for j, (q, m, v, at) in enumerate(lane(n)):
        if j == n // 2:
            t.add(Note(p, (1, 2), 0.0), (k, 8))
            es.append((k * (D // 8), p, D // 2))
        t.add(Note(q, (m, 4), v / 127.0), (at, 4))
        es.append((at * (D // 4), q, m * (D // 4)))
    r = processing.randomize_velocities(t)
    items = list(r)
    ctx.check(len(items) == len(es), 'everything else kept')
    if n <= 40:
        ctx.check(kept(ctx, items, es), 'everything else kept')
    else:
        # the same notes in the same places
        ctx.check(ctx.all(c for a, b in zip(items, list(t)) for c in (a[0].nominator * b[0].denominator == b[0].nominator * a[0].denominator,
                                                                     a[1].tone.pitch == b[1].tone.pitch)), 'everything else kept')
    for _, x in items[:20] + items[-20:]:
        ctx.check(ctx.all([x.velocity >= 0.5, x.velocity <= 1.0]), 'within the limits')
