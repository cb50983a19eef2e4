"""C11: Track length is the right-most note end, and appending starts there."""
import itertools
from melodia.core import Note, Signature, Track
from se.prop import Registry
from props.hist import Hist, D, Entry, is_content, units
from props.long import background, entry

H = Registry()
ASSUMPTIONS = ['histories up to the stated number of operations']


def seqs(tier):
    n = 3 if tier == 'quick' else 4
    out = [''.join(s) for s in itertools.product('SNLG', repeat=n)]
    out = [s for s in out if sum({'L': 2, 'G': 2}.get(c, 1) for c in s) <= (4 if tier == 'quick' else 5)]
    out += ['N', 'S', 'G', 'SI', 'NIN', 'SISN', 'ZN', 'ISIN', 'PN', 'SAN', 'SSAN', 'SWN', 'SMN', 'NMN', 'NAM']
    dens = [[4, 1, 16], [1, 8, 2]] if tier == 'quick' else [[4, 1, 16], [1, 8, 2], [16, 1 << 20, 1], [1, 1, 1]]
    return [[s, d] for s in out for d in dens]


def check_length(ctx, h, label):
    n, d = units(h.track.length)
    ctx.check(n == h.length() * d, label)


@H('every history of 3 (thorough 4) operations out of: add at position, append, add list at position, append generator, '
   'with iterations in between; position and duration nominators every integer >= 0, denominators from the case list',
   cases=seqs, covers=['length', 'appended at the end'])
def history(ctx, case):
    ops, dens = case
    h = Hist(ctx, dens, pitches='const', durs='sym')
    check_length(ctx, h, 'empty track has length 0')
    for k in ops:
        h.op(k)
        check_length(ctx, h, 'length')
    ctx.check(is_content(ctx, list(h.track), h.model), 'appended at the end')
    check_length(ctx, h, 'length after iteration')


@H('long tracks: n concrete notes with one arbitrary note (position k/d, duration m/e, every k, m >= 0; d, e from the list) added as '
   'the i-th; then a note and a pair of notes appended',
   cases=lambda tier: [[n, i, d, e] for n, i in ((10, 0), (10, 9), (40, 20), (120, 60)) for d, e in ((4, 4), (1, 32), (64, 2))] +
   ([[n, i, d, e] for n, i in ((30, 5), (300, 299)) for d, e in ((1, 1), (1 << 20, 4), (4, 1 << 20))] if tier != 'quick' else []),
   max_steps=20000000, covers=['length', 'appended at the end'])
def long(ctx, case):
    n, i, d, e = case
    h = Hist(ctx, [d, e])
    t, model = h.track, h.model
    for j, b in enumerate(background(n)):
        if j == i:
            k, m = ctx.int('k', 0), ctx.int('m', 0)
            t.add(Note(200, (m, e), 0.5), (k, d))
            model.append(Entry(k * (D // d), 200, m * (D // e), 0.5))
            check_length(ctx, h, 'length')
        t.add(Note(b[0], b[1], b[2] / 127.0), b[3])
        model.append(entry(b))
    check_length(ctx, h, 'length')
    ends = []
    for what in (Note(201, (1, 2), 0.5), [Note(202, (1, 8), 0.5), Note(203, (3, 4), 0.5)]):
        u = h.length()
        t.add(what)
        for x in (what if isinstance(what, list) else [what]):
            ends.append(x)
            model.append(Entry(u, x.tone.pitch, x.duration.nominator * (D // x.duration.denominator), 0.5))
        check_length(ctx, h, 'length')
    ctx.check(is_content(ctx, list(t), model), 'appended at the end')


@H('groups of n notes (n from the list) appended after a note that ends anywhere, or added at any position: all start together, and the next '
   'append starts at the end of the longest; one of them has any duration', cases=[[n, i, form] for n, i in ((3, 1), (5, 4), (8, 0), (8, 7), (13, 12), (24, 11))
                                                                                   for form in ('list', 'tuple', 'generator', 'placed')],
   covers=['length', 'appended at the end'], max_steps=20000000)
def groups(ctx, case):
    n, i, form = case
    k, m = ctx.int('k', 0), ctx.int('m', 0)
    h = Hist(ctx, [8])
    t, model = h.track, h.model
    t.add(Note(100, (1, 8), 0.5), (k, 8))
    model.append(Entry(k * (D // 8), 100, D // 8, 0.5))
    durs = [(m, 16) if j == i else (j % 3, 4) for j in range(n)]
    notes = [Note(40 + j, d, 0.5) for j, d in enumerate(durs)]
    at = h.length()
    if form == 'placed':
        at = k * (D // 8)
        t.add(notes, Signature(k, 8))
    else:
        t.add(notes if form == 'list' else tuple(notes) if form == 'tuple' else (x for x in notes))
    model += [Entry(at, 40 + j, a * (D // b), 0.5) for j, (a, b) in enumerate(durs)]
    check_length(ctx, h, 'length')
    at = h.length()
    t.add(Note(101, (1, 4), 0.5))
    model.append(Entry(at, 101, D // 4, 0.5))
    check_length(ctx, h, 'length')
    ctx.check(is_content(ctx, list(t), model), 'appended at the end')


@H('histories of 3 operations with very large denominators of positions and durations (from the case list, up to 2^200)',
   cases=[[ops, e] for e in ([20, 21, 19], [30, 64, 31], [64, 63, 65], [100, 10, 200]) for ops in ('SNN', 'NSN', 'LNS', 'SGN', 'SIN')],
   covers=['length', 'appended at the end'])
def fine(ctx, case):
    ops, exps = case
    h = Hist(ctx, [1 << e for e in exps], pitches='const', durs='sym', unit=1 << 200)
    for k in ops:
        h.op(k)
        n, d = units(h.track.length, h.unit)
        ctx.check(n == h.length() * d, 'length')
    ctx.check(is_content(ctx, list(h.track), h.model, h.unit), 'appended at the end')


@H('constructor content of 3 notes, each with a position k/d (every k >= 0) or unplaced, any duration',
   cases=[''.join(x) for x in itertools.product('TN', repeat=3)], covers=['length', 'unplaced notes start at the end'])
def content(ctx, kinds):
    h = Hist(ctx, [4, 8, 1], durs='sym')
    pairs = []
    for kind in kinds:
        if kind == 'N':
            u = h.length()
            note, f = h.note()
            pairs.append((note, None))
        else:
            n, d, u = h.pos()
            note, f = h.note()
            pairs.append((note, (n, d)))
        h.put(u, f)
    h.track = Track(content=pairs)
    check_length(ctx, h, 'length')
    ctx.check(is_content(ctx, list(h.track), h.model), 'unplaced notes start at the end')
