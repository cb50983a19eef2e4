"""C22: Every chord function returns its documented intervals over the base, with the right duration and velocity."""
from melodia.core import Note, Signature, Tone
from melodia.music import chord
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['the interval table below is pinned from the documented chord definitions']

GROUPS = {
    'major maj': [0, 4, 7], 'minor min': [0, 3, 7], 'augmented aug': [0, 4, 8], 'diminished dim': [0, 3, 6],
    'suspended4 sus4': [0, 5, 7], 'suspended2 sus2': [0, 2, 7],
    'major7 maj7': [0, 4, 7, 11], 'minor7 min7': [0, 3, 7, 10], 'dominant7 dom7': [0, 4, 7, 10],
    'dominant7b5 dom7b5': [0, 4, 6, 10], 'diminished7 dim7': [0, 3, 6, 9], 'minor7b5 min7b5': [0, 3, 6, 10],
    'diminished_major7': [0, 3, 6, 11], 'minor_major7': [0, 3, 7, 11],
    'augmented_major7 major7s5 maj7s5': [0, 4, 8, 11], 'augmented_minor7 augmented7 aug7': [0, 4, 8, 10],
    'major9 maj9': [0, 4, 7, 11, 14], 'minor9 min9': [0, 3, 7, 10, 14], 'dominant9 dom9': [0, 4, 7, 10, 14],
    'dominant_minor9 min7b9': [0, 4, 7, 10, 13], 'minor69 min69': [0, 4, 7, 9, 14], 'added9 add9': [0, 4, 14],
    'major11 maj11': [0, 4, 7, 11, 14, 17], 'minor11 min11': [0, 3, 7, 10, 14, 17], 'dominant11 dom11': [0, 4, 7, 10, 14, 17],
}
CHORDS = {n: iv for g, iv in GROUPS.items() for n in g.split()}
NAMES = sorted(CHORDS)
LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}


def judge(ctx, name, notes, p, dn, dd, v):
    iv = CHORDS[name]
    ctx.check(isinstance(notes, tuple) and len(notes) == len(iv), 'tuple of notes')
    ctx.check(ctx.all(n.tone.pitch == p + i for n, i in zip(notes, iv)), 'intervals')
    ctx.check(ctx.all(ctx.all([n.duration.nominator == dn, n.duration.denominator == dd]) for n in notes), 'duration')
    ctx.check(ctx.all(n.velocity == v for n in notes), 'velocity')


@H('every chord function; base any integer pitch (as int, Tone, Note), no duration or velocity given; note duration m/16, '
   'any m >= 0, note velocity any double in [0,1]',
   cases=[[n, k] for n in NAMES for k in ('int', 'tone', 'note')], covers=['intervals', 'duration', 'velocity'])
def defaults(ctx, case):
    name, kind = case
    p = ctx.int('p')
    f = getattr(chord, name)
    if kind == 'int':
        judge(ctx, name, f(p), p, 1, 4, 0.75)
    elif kind == 'tone':
        judge(ctx, name, f(Tone(p)), p, 1, 4, 0.75)
    else:
        m, v = ctx.int('m', 0), ctx.float('v')
        ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
        judge(ctx, name, f(Note(p, (m, 16), v)), p, m, 16, v)


@H('every chord function; duration (pair or Signature, m/8, any m >= 0) and velocity (any double in [0,1], also 0) given; they win over '
   'those of a base note', cases=[[n, k] for n in NAMES for k in ('int', 'note', 'sig', 'dur', 'vel')],
   covers=['intervals', 'duration', 'velocity'])
def given(ctx, case):
    name, kind = case
    p, m, v = ctx.int('p'), ctx.int('m', 0), ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    f = getattr(chord, name)
    if kind == 'int':
        judge(ctx, name, f(p, (m, 8), v), p, m, 8, v)
    elif kind == 'sig':
        judge(ctx, name, f(Tone(p), Signature(m, 8), velocity=v), p, m, 8, v)
    elif kind == 'note':
        judge(ctx, name, f(Note(p, (3, 2), 0.25), duration=(m, 8), velocity=v), p, m, 8, v)
    elif kind == 'dur':
        judge(ctx, name, f(base=Note(p, (3, 2), 0.25), duration=(m, 8)), p, m, 8, 0.25)
    else:
        judge(ctx, name, f(Note(p, (3, 2), 0.25), velocity=v), p, 3, 2, v)


@H('every chord function; base in notation: letter, accidental, octave 0..9', cases=[[n, l + a] for i, n in enumerate(NAMES)
                                                                           for l, a in (('ABCDEFG'[i % 7], ('', '#', 'b')[i % 3]),
                                                                                        ('CDEFGAB'[i % 7], ''))],
   covers=['intervals'])
def notation(ctx, case):
    name, la = case
    o = ctx.int('o', 0, 9)
    p = LETTERS[la[0]] + {'': 0, '#': 1, 'b': -1}[la[1:]] + 12 * o
    judge(ctx, name, getattr(chord, name)(la + str(o)), p, 1, 4, 0.75)


@H('every chord function; base in notation without an octave, with several accidentals, and with octave -12..-1 or 10..12; duration '
   'and velocity default or given', cases=[[n, l + a, k, (i + j) % 2] for i, n in enumerate(NAMES) for j, (l, a, k) in enumerate((
       ('CDEFGAB'[i % 7], '', ''), ('ABCDEFG'[i % 7], ('#', 'b', '##', 'bb', '#b#')[i % 5], ''),
       ('EFGABCD'[i % 7], ('', 'b', '##')[i % 3], '-'), ('GABCDEF'[i % 7], ('#', '')[i % 2], '+')))], covers=['intervals', 'duration'])
def notations(ctx, case):
    name, la, kind, given = case
    o = ctx.int('o', -12, -1) if kind == '-' else ctx.int('o', 10, 12) if kind == '+' else 0
    p = LETTERS[la[0]] + la.count('#') - la.count('b') + 12 * o
    text = la + str(o) if kind else la
    f, m = getattr(chord, name), ctx.int('m', 0)
    if given:
        judge(ctx, name, f(text, (m, 8), 1.0), p, m, 8, 1.0)
    else:
        judge(ctx, name, f(text), p, 1, 4, 0.75)


@H('a base of another type is refused', cases=NAMES, covers=['refused'])
def refused(ctx, name):
    for bad in (None, 1.5, (60,), b'C3'):
        try:
            getattr(chord, name)(bad)
            ctx.check(False, 'refused')
        except (ValueError, TypeError):
            ctx.check(True, 'refused')
