"""Track histories: a reference model (list of entries in units of 1/D) beside the real track."""
from melodia.core import Note, Signature, Track

D = 1 << 20      # common denominator of every position and duration used


class Entry:
    def __init__(self, pos, pitch, dur, vel):
        self.pos, self.pitch, self.dur, self.vel = pos, pitch, dur, vel


def units(sig, unit=D):
    """Value of a signature in 1/unit, as (numerator, denominator) to compare without division."""
    return sig.nominator * unit, sig.denominator


class Hist:
    """Drives a real Track and the reference model with the same operations."""

    def __init__(self, ctx, denoms, pitches='sym', durs='const', maxn=None, signature=None, unit=D):
        self.ctx, self.denoms, self.pitches, self.durs, self.maxn = ctx, denoms, pitches, durs, maxn
        self.track = Track() if signature is None else Track(signature)
        self.unit = unit
        self.model = []
        self.i = 0
        self.first = None        # the first note object

    def length(self):
        if not self.model:
            return 0
        return self.ctx.max([e.pos + e.dur for e in self.model])

    def den(self, k):
        return self.denoms[k % len(self.denoms)]

    def note(self):
        i, ctx = self.i, self.ctx
        self.i += 1
        p = ctx.int('p%d' % i, 0, 127) if self.pitches == 'sym' else 60 + i
        if self.durs == 'sym':
            d = self.den(i + 1)
            n = ctx.int('n%d' % i, 0, self.maxn)
        elif self.durs == 'same':
            d, n = 4, 1
        else:
            d, n = 4, i % 2
        v = (0.0, 0.5, 1.0)[i % 3]
        note = Note(p, (n, d), v)
        if i == 0:
            self.first = note
        return note, (p, n * (self.unit // d), v)

    def pos(self):
        d = self.den(self.i)
        n = self.ctx.int('pos%d' % self.i, 0, self.maxn)
        return n, d, n * (self.unit // d)

    def put(self, at, fields):
        self.model.append(Entry(at, *fields))

    def op(self, kind):
        t, ctx = self.track, self.ctx
        if kind == 'S':                      # note at a Signature
            n, d, u = self.pos()
            note, f = self.note()
            t.add(note, Signature(n, d))
            self.put(u, f)
        elif kind == 'T':                    # note at a pair, keyword arguments
            n, d, u = self.pos()
            note, f = self.note()
            t.add(what=note, where=(n, d))
            self.put(u, f)
        elif kind == 'N':                    # note appended at the end
            u = self.length()
            note, f = self.note()
            t.add(note)
            self.put(u, f)
        elif kind == 'L':                    # list of notes at one position
            n, d, u = self.pos()
            notes = [self.note(), self.note()]
            t.add([x for x, _ in notes], Signature(n, d))
            for _, f in notes:
                self.put(u, f)
        elif kind == 'G':                    # generator of notes appended: all start together
            u = self.length()
            notes = [self.note(), self.note()]
            t.add((x for x, _ in notes))
            for _, f in notes:
                self.put(u, f)
        elif kind == 'P':                    # tuple of notes appended
            u = self.length()
            notes = [self.note(), self.note()]
            t.add(tuple(x for x, _ in notes), None)
            for _, f in notes:
                self.put(u, f)
        elif kind == 'Z':                    # nothing to add
            t.add([])
        elif kind == 'I':
            for _ in t:
                pass
        elif kind == 'A':                    # an iteration left after the first note
            for _ in t:
                break
        elif kind == 'W':                    # two iterations at once
            a = iter(t)
            first = [x for _, x in zip(range(1), a)]
            b = list(t)
            for items in (first + list(a), b):
                ctx.check(is_content(ctx, items, self.model, self.unit), 'content of interleaved iterations')
        elif kind == 'M':                    # the first note object again, at another position
            n, d, u = self.pos()
            self.i += 1
            t.add(self.first, (n, d))
            f = self.model[0]
            self.put(u, (f.pitch, f.dur, f.vel))
        elif kind == 'R':
            t == t, len(t), t.length
        else:
            raise AssertionError(kind)


def same(ctx, item, e, unit=D):
    """Does the iterated pair equal the model entry?"""
    pos, note = item
    pn, pd = units(pos, unit)
    dn, dd = units(note.duration, unit)
    return ctx.all([pn == e.pos * pd, note.tone.pitch == e.pitch, dn == e.dur * dd, note.velocity == e.vel])


def same_entry(ctx, a, b):
    return ctx.all([a.pos == b.pos, a.pitch == b.pitch, a.dur == b.dur, a.vel == b.vel])


def is_content(ctx, items, model, unit=D):
    """items and model are equal as multisets (no forking)."""
    if len(items) != len(model):
        return False
    conds = []
    for e in model:
        have = ctx.count(same(ctx, it, e, unit) for it in items)
        want = ctx.count(same_entry(ctx, e, f) for f in model)
        conds.append(have == want)
    return ctx.all(conds)


def ascending(ctx, items):
    return ctx.all(a[0].nominator * b[0].denominator <= b[0].nominator * a[0].denominator
                   for a, b in zip(items, items[1:]))
