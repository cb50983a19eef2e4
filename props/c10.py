"""C10: A track holds exactly the notes added, and iterates them in ascending position, over any history."""
import itertools
from melodia.core import Note, Signature, Track
from se.prop import Registry
from props.hist import D, Entry, Hist, is_content, ascending
from props.long import background, entry

H = Registry()
ASSUMPTIONS = ['histories up to the stated number of operations; positions are n/d with d from the listed denominators']

WEIGHT = {'S': 1, 'T': 1, 'N': 1, 'L': 2, 'G': 2, 'P': 2, 'Z': 0, 'I': 0, 'R': 0}


def seqs(tier):
    out = []
    lens, cap = ((3,), 3) if tier == 'quick' else ((3, 4), 4)
    for n in lens:
        for s in itertools.product('STNLGZIR', repeat=n):
            w = sum(WEIGHT[c] for c in s)
            if w < 2 or w > cap or s[0] in 'Z' or s[-1] in 'ZR':
                continue
            if tier != 'quick' and n == 4 and w > 3 and s.count('I') == 0:
                continue
            out.append(''.join(s))
    out += ['SISI', 'LISI', 'NINI', 'SISN', 'TIGI', 'SIST']
    dens = [[4, 1, 16]] if tier == 'quick' else [[4, 1, 16], [1, 2, 1 << 20]]
    return [[s, d] for s in dict.fromkeys(out) for d in dens]


@H('every history in the case list (3-4 operations out of: add at Signature, at pair, append, add list, append '
   'generator, add nothing, iterate, compare), up to 3 notes (thorough 4); position nominators every integer >= 0 over '
   'denominators 4,1,16 (thorough also 2^20); pitches 0..127', cases=seqs,
   covers=['content', 'ascending', 'size'])
def history(ctx, case):
    ops, dens = case
    h = Hist(ctx, dens)
    for k in ops:
        h.op(k)
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(len(h.track) == len(h.model), 'size')
    again = list(h.track)
    ctx.check(is_content(ctx, again, h.model), 'content after iteration')
    ctx.check(ascending(ctx, again), 'ascending')


@H('up to 4 notes (thorough 5) added at positions n_i/d_i, n_i every integer >= 0, d_i from the case list, distinct '
   'pitches', cases=lambda tier: [[4, 1, 16, 2], [1, 2, 4, 8], [8, 4, 2, 1], [1, 1, 1, 1]] +
   ([[16, 1, 4, 2, 8]] if tier != 'quick' else []), covers=['content', 'ascending'])
def many(ctx, dens):
    h = Hist(ctx, dens, pitches='const')
    for _ in dens:
        h.op('S')
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')


@H('notes that may be equal in everything: 3 notes (thorough 4) of arbitrary pitches, equal durations and velocities, at '
   'positions n_i/d_i, n_i every integer >= 0, d_i from the case list; the track is iterated in between in some cases',
   cases=lambda tier: [[4, 4, 8, 'SSS'], [4, 8, 8, 'SSS'], [8, 4, 4, 'SST'], [1, 1, 1, 'LS'], [4, 4, 16, 'SSIS'],
                       [4, 4, 16, 'LIS'], [2, 8, 32, 'SSN'], [2, 2, 8, 'SISI']] +
   ([[4, 4, 4, 8, 'SSSS'], [4, 8, 16, 32, 'SSSS'], [4, 4, 8, 8, 'LISI'], [4, 1, 1, 8, 'SSSI']] if tier != 'quick' else []),
   covers=['content', 'ascending'])
def duplicates(ctx, case):
    h = Hist(ctx, case[:-1], durs='same')
    for k in case[-1]:
        h.op(k)
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(len(h.track) == len(h.model), 'size')


@H('histories of up to 4 operations with very large denominators (from the case list, up to 2^200), growing, shrinking and mixed; '
   'position nominators every integer >= 0', covers=['content', 'ascending', 'size'],
   cases=[[ops, e] for e in ([20, 21, 19], [30, 64, 31], [64, 63, 65], [52, 53, 1], [100, 10, 200], [24, 25, 26])
          for ops in ('SSS', 'SNT', 'LS', 'SIS', 'TNSI', 'SITN')])
def fine(ctx, case):
    ops, exps = case
    h = Hist(ctx, [1 << e for e in exps], unit=1 << 200)
    for k in ops:
        h.op(k)
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model, h.unit), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(len(h.track) == len(h.model), 'size')


@H('content passed to the constructor (list, tuple, generator; positions as Signature, pair or None), 3 notes',
   cases=['list', 'tuple', 'gen'], covers=['content', 'ascending', 'signature'])
def constructor(ctx, form):
    h = Hist(ctx, [2, 8, 1])
    pairs = []
    for kind in ('T', 'S', 'N'):
        if kind == 'N':
            u = h.length()
            note, f = h.note()
            pairs.append((note, None))
        else:
            n, d, u = h.pos()
            note, f = h.note()
            pairs.append((note, Signature(n, d) if kind == 'S' else (n, d)))
        h.put(u, f)
    content = {'list': pairs, 'tuple': tuple(pairs), 'gen': (x for x in pairs)}[form]
    nn = ctx.int('nn', 0)
    t = Track((nn, 8), content) if form == 'list' else Track(signature=Signature(nn, 8), content=content)
    items = list(t)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(ctx.all([t.signature.nominator == nn, t.signature.denominator == 8]), 'signature')


@H('content with unplaced notes in every place: each of 3 pairs has a position k/d (every k >= 0) or None',
   cases=[''.join(x) for x in itertools.product('TN', repeat=3)], covers=['content', 'ascending'])
def placed(ctx, kinds):
    h = Hist(ctx, [4, 8, 1], durs='sym')
    pairs = []
    for kind in kinds:
        if kind == 'N':
            u = h.length()
            note, f = h.note()
            pairs.append((note, None))
        else:
            n, d, u = h.pos()
            note, f = h.note()
            pairs.append((note, (n, d)))
        h.put(u, f)
    items = list(Track(content=pairs))
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')


@H('iterations left early, two iterations at once, and one note object added twice; position nominators every integer >= 0',
   cases=['SAS', 'SSA', 'LA', 'LAS', 'SNA', 'SAN', 'SIA', 'LIA', 'SSW', 'LW', 'LWS', 'SIW', 'SSIW', 'W', 'A', 'SM', 'SMM', 'SNM', 'SIM', 'NMA',
          'SMW', 'SAAS', 'SSSA', 'SSSW', 'SWAW'], covers=['content', 'ascending', 'size'])
def iterations(ctx, ops):
    h = Hist(ctx, [4, 16, 1])
    for k in ops:
        h.op(k)
    ctx.check(len(h.track) == len(h.model), 'size')
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')


@H('chord-sized iterables: list/tuple/generator/iterator of 3 notes at one position, nested lists', cases=list(range(5)),
   covers=['content'])
def iterables(ctx, case):
    h = Hist(ctx, [4, 2])
    h.op('S')
    n, d, u = h.pos()
    ns = [h.note() for _ in range(3)]
    notes = [x for x, _ in ns]
    what = [notes, tuple(notes), (x for x in notes), iter(notes), [notes[:1], notes[1:]]][case]
    h.track.add(what, (n, d))
    for _, f in ns:
        h.put(u, f)
    items = list(h.track)
    ctx.check(is_content(ctx, items, h.model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')


@H('groups of n notes (n from the list; equal notes among them) added at any position k/8 or appended after a note that ends anywhere: as list, tuple '
   'or generator; one of the notes has any pitch',
   cases=[[n, i, form] for n, i in ((4, 3), (5, 0), (7, 6), (9, 8), (14, 12), (20, 1), (33, 32)) for form in ('list', 'append', 'generator', 'tuple')],
   covers=['content', 'ascending', 'size'], max_steps=20000000)
def groups(ctx, case):
    n, i, form = case
    k, p = ctx.int('k', 0), ctx.int('p')
    notes = [Note(p if j == i else 40 + j % 6, (j % 3, 4), 0.5) for j in range(n)]
    t, model = Track(), []
    if form in ('list', 'tuple'):
        t.add(notes if form == 'list' else tuple(notes), (k, 8))
    else:
        t.add(Note(100, (1, 8), 0.5), (k, 8))
        model.append(Entry(k * (D // 8), 100, D // 8, 0.5))
        t.add(notes if form == 'append' else (x for x in notes))
    at = k if form in ('list', 'tuple') else k + 1
    model += [Entry(at * (D // 8), x.tone.pitch, (j % 3) * (D // 4), 0.5) for j, x in enumerate(notes)]
    items = list(t)
    ctx.check(is_content(ctx, items, model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(ctx.all([len(t) == len(model), len(notes) == n]), 'size')


@H('default time signature; unsupported position and signature types are refused',
   cases=['default', 'where', 'signature'], covers=[])
def arguments(ctx, case):
    if case == 'default':
        s = Track().signature
        ctx.check(ctx.all([s.nominator == 4, s.denominator == 4]), 'default signature')
        ctx.check(ctx.all([len(Track()) == 0, len(list(Track())) == 0]), 'empty')
        return
    try:
        if case == 'where':
            t = Track()
            t.add(Note(60), ctx.int('x', 0))
        else:
            Track(ctx.int('x', 0))
    except TypeError:
        ctx.check(True, 'refused')
        return
    ctx.check(False, 'unsupported type accepted')


@H('long tracks: n concrete notes (mixed denominators, ties, duplicates) with one arbitrary note (any pitch, position k/d for every '
   'k >= 0, d from the list) added as the i-th, iterated after every s-th addition (0: never)',
   cases=lambda tier: [[n, i, d, s] for n, i, s in ((8, 0, 0), (8, 5, 3), (20, 10, 0), (20, 19, 7), (40, 3, 0), (40, 33, 5), (150, 70, 0))
                       for d in (4, 32)] +
   ([[n, i, d, s] for n, i, s in ((12, 6, 1), (64, 0, 0), (64, 40, 9), (300, 150, 0)) for d in (1, 16, 1 << 20)] if tier != 'quick' else []),
   max_steps=20000000, covers=['content', 'ascending'])
def long(ctx, case):
    n, i, d, s = case
    t, model = Track(), []
    for j, b in enumerate(background(n)):
        if j == i:
            k, p = ctx.int('k', 0), ctx.int('p')
            t.add(Note(p, (1, 4), 0.5), (k, d))
            model.append(Entry(k * (D // d), p, D // 4, 0.5))
        t.add(Note(b[0], b[1], b[2] / 127.0), b[3])
        model.append(entry(b))
        if s and j % s == s - 1:
            list(t)
    items = list(t)
    ctx.check(is_content(ctx, items, model), 'content')
    ctx.check(ascending(ctx, items), 'ascending')
    ctx.check(len(t) == len(model), 'size')
