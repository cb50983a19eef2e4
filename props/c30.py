"""C30: An addition that is refused leaves the track as it was."""
from melodia.core import Note, Signature, Tone, Track
from se.prop import Registry
from props.hist import Hist, D, Entry, ascending, is_content, units

H = Registry()
ASSUMPTIONS = ['a refused addition is one that raises; of a group of which one item is refused, the items before it may stay',
               'denominators of positions that are not refused are powers of two from the case list']


def state(ctx, h, label):
    n, d = units(h.track.length)
    ctx.check(n == h.length() * d, label + ': length')
    ctx.check(len(h.track) == len(h.model), label + ': number of notes')
    items = list(h.track)
    ctx.check(ctx.all([is_content(ctx, items, h.model), ascending(ctx, items)]), label + ': content')


def later(ctx, h, ops='S'):
    """The track is usable as before: more notes, compared with a track that saw no refusal."""
    for op in ops:
        h.op(op)
        state(ctx, h, 'later addition')


def refuse(ctx, track, what, *where):
    try:
        track.add(what, *where)
    except Exception:
        return True
    return False


PRIOR = ['', 'S', 'NS', 'SI', 'IN', 'LI']


@H('before: every listed history with any positions and durations; then an addition at the position k/d for every integer k and the listed '
   'd (0, negative, not a power of two, or valid): it is refused or the note is there, as if nothing had been refused', covers=[
       'refused: content', 'accepted: content', 'later addition: content'],
   cases=lambda tier: [[p, d, form] for p in PRIOR for d in (3, 0, -4, 12, 16) for form in ('note', 'group')[:2 if len(p) < 2 or d != 16 else 1]] +
   ([['SLN', d, form] for d in (-1, 6, 24, 100, 1, 32) for form in ('note', 'group')] if tier != 'quick' else []))
def position(ctx, case):
    prior, d, form = case
    h = Hist(ctx, [4, 1, 8], pitches='const', durs='sym')
    for op in prior:
        h.op(op)
    k = ctx.int('k')
    notes = [Note(90, (1, 2), 0.5), Note(91, (1, 4), 0.5)]
    if refuse(ctx, h.track, notes[0] if form == 'note' else notes, (k, d)):
        ctx.check(ctx.any([k < 0, d != 16]) if d in (16, 1, 32) else True, 'only what is not a position is refused')
        state(ctx, h, 'refused')
    else:
        ctx.check(d in (16, 1, 32), 'what is not a position is refused')
        ctx.check(k >= 0, 'what is not a position is refused')
        for p, u in ((90, D // 2), (91, D // 4))[:1 if form == 'note' else 2]:
            h.model.append(Entry(k * (D // d), p, u, 0.5))
        state(ctx, h, 'accepted')
    later(ctx, h, 'N')


def things(ctx, kind):
    p = ctx.int('q', 0, 127)
    n = ctx.int('m', 0)
    good = Note(p, (n, 4), 0.5)
    return {
        'int': lambda: ((p,), []), 'none': lambda: ((None,), []), 'tone': lambda: ((Tone(p),), []),
        'signature': lambda: ((Signature(n, 4),), []), 'float': lambda: ((0.5,), []),
        'object': lambda: ((object(),), []), 'class': lambda: ((Note,), []),
        'list of ints': lambda: (([p, p + 1],), []), 'list of none': lambda: (([None],), []),
        'swapped': lambda: (((n, 4), good), []), 'pair of numbers': lambda: (((n, 4),), []),
        'good then bad': lambda: (([good, p],), [good]), 'good, good, none': lambda: (([good, good, None],), [good, good]),
        'bad then good': lambda: (([p, good],), []), 'nested': lambda: (([[good, p], good],), [good]),
        'failing generator': lambda: ((failing([]),), []), 'generator failing late': lambda: ((failing([good]),), [good]),
        'track': lambda: ((Track(content=[(good, (n, 4))]),), None),
        'where int': lambda: ((good, n), []), 'where float': lambda: ((good, 0.5), []), 'where note': lambda: ((good, good), []),
        'where empty': lambda: ((good, ()), []), 'where three': lambda: ((good, (n, 4, 4)), []), 'where one': lambda: ((good, [n]), []),
        'where text': lambda: ((good, 'ab'), []), 'where none inside': lambda: ((good, (n, None)), []),
        'where text inside': lambda: ((good, (n, '4')), []), 'bad group where': lambda: (([good], (n, 3)), []),
        'empty group where': lambda: (([], (n, 3)), []), 'int at': lambda: ((p, (n, 64)), []), 'none at': lambda: ((None, (n, 64)), []),
        'bad group at': lambda: (([None, good], (n, 64)), []), 'object at': lambda: ((object(), Signature(n, 64)), []),
    }[kind]()


def failing(items):
    yield from items
    raise KeyError('no more')


KINDS = ['int', 'none', 'tone', 'signature', 'float', 'object', 'class', 'list of ints', 'list of none', 'swapped', 'pair of numbers',
         'good then bad', 'good, good, none', 'bad then good', 'nested', 'failing generator', 'generator failing late', 'where int', 'where float',
         'where note', 'where empty', 'where three', 'where one', 'where text', 'where none inside', 'where text inside', 'bad group where',
         'empty group where', 'int at', 'none at', 'bad group at', 'object at']


@H('before: every listed history; then an addition of something that is not a note, or at something that is not a position, from the list: '
   'it is refused and nothing but notes of the group before the refused item is added; later additions work', covers=[
       'refused: content', 'later addition: content'],
   cases=lambda tier: [[p, k] for p in (['', 'S', 'SN', 'LI'] if tier == 'quick' else PRIOR + ['SLN', 'LNIS']) for k in KINDS])
def kind(ctx, case):
    prior, k = case
    h = Hist(ctx, [4, 1, 8], pitches='const', durs='sym')
    for op in prior:
        h.op(op)
    args, before = things(ctx, k)
    end = h.length()
    refused = refuse(ctx, h.track, *args)
    ctx.check(refused, 'what is not a note or a position is refused')
    kept = len(h.track) - len(h.model)
    ctx.check(0 <= kept <= len(before), 'only notes before the refused one stay')
    for note in before[:kept]:
        h.model.append(Entry(end, note.tone.pitch, note.duration.nominator * (D // 4), 0.5))
    state(ctx, h, 'refused')
    later(ctx, h, 'S' if len(prior) < 2 else 'N')


@H('a track with a refused addition equals the track without it, has the same text; additions '
   'before and after at any positions', cases=[k for k in KINDS if not k.startswith(('good', 'nested', 'generator failing'))], covers=['equal', 'text'])
def compared(ctx, k):
    a, b = ctx.int('a', 0), ctx.int('b', 0)
    x, y = Note(60, (1, 4), 0.5), Note(64, (1, 8), 0.5)
    args, _ = things(ctx, k)
    t, u = Track((3, 4)), Track((3, 4))
    for track in (t, u):
        track.add(x, (a, 8))
        if track is t:
            ctx.check(refuse(ctx, t, *args), 'what is not a note or a position is refused')
        track.add(y, (b, 4))
    ctx.check(ctx.all([t == u, u == t]), 'equal')
    ctx.check(ctx.str(t) == ctx.str(u), 'text')
