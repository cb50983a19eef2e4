"""C28: The chord generator emits what the definitions say, and the committed chord module behaves as its output."""
import ast
import os
import pathlib
import sys
import melodia
from melodia.core import Note, Signature, Tone
from melodia.music import chord
from se.prop import Registry
from props.c22 import NAMES

H = Registry()
ASSUMPTIONS = ['the generator is run through its main() with the output path as the only argument; what it writes is executed',
               'definitions: replacing the module\'s list `chords` by other `Chord` entries']
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(melodia.__file__)))
SCRIPT = os.path.join(os.path.dirname(ROOT), 'scripts', 'generate_chords.py')


def replaceable():
    """The definitions can be replaced: the generator has a list `chords` of `Chord` entries and a main()."""
    with open(SCRIPT, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    bound = set()
    for s in tree.body:
        if isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            bound.add(s.name)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            bound.update(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
    return {'Chord', 'chords', 'main'} <= bound


OTHER = replaceable()


class Capture:
    """Stands in for the opened output file."""

    def __init__(self):
        self.text, self.used = '', False

    def __call__(self, *a, **k):
        self.used = True
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        self.text = self.text + s

    def writelines(self, parts):
        for s in parts:
            self.write(s)

    def close(self):
        pass

    flush = close


def emitted(ctx, definitions=None):
    """The text the generator writes."""
    g = ctx.source(SCRIPT, 'melodia_generate_chords')
    if definitions is not None:
        g.chords = [g.Chord(*d) for d in definitions]
    out = Capture()
    g.open = out
    old = sys.argv
    paths = pathlib.Path.write_text, pathlib.Path.open
    pathlib.Path.write_text = lambda self, text, *a, **k: out().write(text)
    pathlib.Path.open = out
    path = os.path.join(os.environ.get('TMPDIR') or '/tmp', 'melodia-chord-%d.py' % os.getpid())
    sys.argv = ['generate_chords.py', path]
    try:
        g.main()
        if out.used:
            return out.text
        with open(path, encoding='utf-8') as f:
            return f.read()
    finally:
        sys.argv = old
        pathlib.Path.write_text, pathlib.Path.open = paths
        if os.path.exists(path):
            os.remove(path)


def is_notes(ctx, r, pitches, dn, dd, v):
    if not isinstance(r, tuple) or len(r) != len(pitches):
        return False
    return ctx.all(ctx.all([n.tone.pitch == p, n.duration.nominator == dn, n.duration.denominator == dd, n.velocity == v])
                   for n, p in zip(r, pitches))


@H('one chord definition with two names and k intervals, every integer (negative, zero and repeated too), 2 <= k <= 4 (thorough 6): both functions '
   'give exactly these intervals over any base pitch, duration m/8 and velocity', cases=lambda tier: range(2, 5 if tier == 'quick' else 7) if OTHER else (),
   covers=['intervals'])
def definition(ctx, k):
    ns = [ctx.int('n%d' % i) for i in range(k)]
    m = ctx.module(emitted(ctx, [('first,other', 'Some Chord', ns)]), 'melodia_generated')
    p, q, v = ctx.int('p'), ctx.int('q', 0), ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    want = [p + n for n in ns]
    ctx.check(is_notes(ctx, m.first(p), want, 1, 4, 0.75), 'intervals')
    ctx.check(is_notes(ctx, m.other(Tone(p), (q, 8), v), want, q, 8, v), 'intervals')
    ctx.check(is_notes(ctx, m.first(Note(p, (q, 8), v)), want, q, 8, v), 'intervals')


@H('three definitions of 2 and 3 intervals (any integers; the third: not negative): every name gives its own chord', cases=[0, 1] if OTHER else [], covers=['names'])
def definitions(ctx, order):
    a, b, c = ([ctx.int('%s%d' % (x, i), 0 if x == 'c' else None) for i in range(n)] for x, n in (('a', 2), ('b', 2), ('c', 3)))
    defs = [('one', 'One', a), ('two, deux,zwei,dos , due', 'Two', b), ('three,drei', 'Three', c)]
    m = ctx.module(emitted(ctx, defs[::-1] if order else defs), 'melodia_generated')
    p = ctx.int('p')
    for names, ns in (('one', a), ('two deux zwei dos due', b), ('three drei', c)):
        for name in names.split():
            ctx.check(is_notes(ctx, getattr(m, name)(p), [p + n for n in ns], 1, 4, 0.75), 'names')


@H('every function of the committed chord module against the one generated from the committed definitions: the same notes for every base '
   'pitch (as integer, tone, note and in notation), duration m/8, velocity; defaults; other bases refused by both',
   cases=NAMES, covers=['same'])
def committed(ctx, name):
    m = ctx.module(emitted(ctx), 'melodia_generated')
    ctx.check(ctx.all([hasattr(m, name), hasattr(chord, name)]), 'same')
    f, g = getattr(m, name), getattr(chord, name)
    p, q, v = ctx.int('p'), ctx.int('q', 0), ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    for a in ((p,), (Tone(p),), (Note(p, (q, 8), v),), (p, (q, 8), v), (Tone(p), Signature(q, 8)), (Note(p, (q, 8), v), (1, 2), 0.0),
              ('Eb2', None, v)):
        x, y = f(*a), g(*a)
        ctx.check(is_notes(ctx, x, [n.tone.pitch for n in y], y[0].duration.nominator, y[0].duration.denominator, y[0].velocity), 'same')
        ctx.check(is_notes(ctx, y, [n.tone.pitch for n in x], x[0].duration.nominator, x[0].duration.denominator, x[0].velocity), 'same')
    for bad in (None, 1.5):
        for h in (f, g):
            try:
                h(bad)
                ctx.check(False, 'refused')
            except (ValueError, TypeError):
                pass


def functions(module):
    return sorted(n for n, f in vars(module).items() if not n.startswith('_') and type(f).__name__ == 'function')


@H('the committed chord module and the generated one hold the same functions', covers=['functions'])
def names(ctx, case):
    p = ctx.int('p')
    m = ctx.module(emitted(ctx), 'melodia_generated')
    a, b = functions(m), functions(chord)
    ctx.check(a == b, 'functions')
    for name in a:
        x, y = getattr(m, name)(p), getattr(chord, name)(p)
        ctx.check(len(x) == len(y), 'functions')
        ctx.check(ctx.all(u.tone.pitch == w.tone.pitch for u, w in zip(x, y)), 'functions')
