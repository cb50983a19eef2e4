"""C08: Note construction: accepted argument forms, velocity range, and derived copies."""
from melodia.core import Note, Signature, Tone
from se.prop import Registry

H = Registry()
ASSUMPTIONS = []
FORMS = [(t, d) for t in ('tone', 'int', 'str') for d in ('sig', 'tuple', 'list', 'default')]


def mk_tone(ctx, form, name='p'):
    if form == 'str':
        text = ctx.text(name + '.l', 1, 65, 71) + ctx.text(name + '.o', 1, 48, 57)
        c = ctx.cps(text)
        base = 0
        for k, v in (('C', 0), ('D', 2), ('E', 4), ('F', 5), ('G', 7), ('A', 9), ('B', 11)):
            base = base + ctx.ite(c[0] == ord(k), v, 0)
        return text, base + 12 * (c[1] - 48)
    p = ctx.int(name)
    return (Tone(p) if form == 'tone' else p), p


def mk_dur(ctx, form, name='d'):
    if form == 'default':
        return None, (1, 4)
    n = ctx.int(name, 0)
    d = ctx.choice(name + '.e', [1, 4, 64])
    return {'sig': Signature(n, d), 'tuple': (n, d), 'list': [n, d]}[form], (n, d)


@H('tone as Tone/int (every integer)/notation text [A-G][0-9]; duration as Signature/pair/list/default '
   '(nominator every integer >= 0); velocity: every IEEE double including NaN and infinities',
   cases=FORMS, covers=['velocity range', 'tone', 'duration', 'velocity'])
def construct(ctx, case):
    tone, p = mk_tone(ctx, case[0])
    dur, (n, d) = mk_dur(ctx, case[1])
    v = ctx.float('v')
    ok = ctx.all([v >= 0.0, v <= 1.0])
    try:
        note = Note(tone, velocity=v) if dur is None else Note(tone, dur, v)
    except ValueError:
        ctx.check(ctx.not_(ok), 'velocity range')
        return
    ctx.check(ok, 'velocity range')
    ctx.check(note.tone.pitch == p, 'tone')
    ctx.check(ctx.all([note.duration.nominator == n, note.duration.denominator == d]), 'duration')
    ctx.check(note.velocity == v, 'velocity')


@H('default arguments', covers=['defaults'])
def defaults(ctx, case):
    p = ctx.int('p')
    a = Note(p)
    ctx.check(ctx.all([a.tone.pitch == p, a.duration.nominator == 1, a.duration.denominator == 4,
                       a.velocity == 0.75]), 'defaults')


@H('note with any pitch, duration n/{1,4,64}, velocity any double in [0,1]; transposition any integer, new duration '
   'as Signature or pair, new velocity any double', cases=['transposed', 'with_duration', 'with_velocity'],
   covers=['tone', 'duration', 'velocity', 'original untouched'])
def derived(ctx, case):
    p, n = ctx.int('p'), ctx.int('n', 0)
    d = ctx.choice('d', [1, 4, 64])
    v = ctx.float('v')
    ctx.assume(ctx.all([v >= 0.0, v <= 1.0]))
    note = Note(p, (n, d), v)
    ep, en, ed, ev = p, n, d, v
    if case == 'transposed':
        k = ctx.int('k')
        new = note.transposed(k)
        ep = p + k
    elif case == 'with_duration':
        en, ed = ctx.int('n2', 0), ctx.choice('d2', [1, 2, 4, 32])
        new = note.with_duration(Signature(en, ed) if ctx.flag('sig') else (en, ed))
    else:
        w = ctx.float('w')
        ok = ctx.all([w >= 0.0, w <= 1.0])
        try:
            new = note.with_velocity(w)
        except ValueError:
            ctx.check(ctx.not_(ok), 'velocity range')
            return
        ctx.check(ok, 'velocity range')
        ev = w
    ctx.check(new.tone.pitch == ep, 'tone')
    ctx.check(ctx.all([new.duration.nominator == en, new.duration.denominator == ed]), 'duration')
    ctx.check(new.velocity == ev, 'velocity')
    ctx.check(ctx.all([note.tone.pitch == p, note.duration.nominator == n, note.duration.denominator == d,
                       note.velocity == v]), 'original untouched')


BAD = {'float': lambda ctx: 60.5, 'None': lambda ctx: None, 'list': lambda ctx: [ctx.int('x')], 'bytes': lambda ctx: b'C4',
       'pair': lambda ctx: (ctx.int('x', 0), 4), 'Signature': lambda ctx: Signature(ctx.int('x', 0), 4),
       'Note': lambda ctx: Note(ctx.int('x')), 'int': lambda ctx: ctx.int('x', 0), 'Tone': lambda ctx: Tone(ctx.int('x'))}


@H('unsupported argument types: tone as float, None, list, bytes, pair, signature, note; duration as integer, float, None, tone, note',
   cases=[['tone', k] for k in ('float', 'None', 'list', 'bytes', 'pair', 'Signature', 'Note')] +
         [['duration', k] for k in ('int', 'float', 'None', 'Tone', 'Note')], covers=['refused'])
def bad_types(ctx, case):
    what, kind = case
    p, x = ctx.int('p'), BAD[kind](ctx)
    try:
        Note(x) if what == 'tone' else Note(p, x)
    except TypeError:
        ctx.check(True, 'refused')
        return
    ctx.check(False, 'unsupported type accepted')


@H('durations that are not pairs or not signatures: every nominator; no, one or three numbers, denominators 0, 3, -4; the nominator negative; '
   'for a new note and for a new duration', cases=['()', '(n,)', '(n, 4, 4)', '(n, 4, 1, 1)', '(n, 3)', '(n, 0)', '(n, -4)', '(-1 - n, 4)', '[n]',
                                                 '[n, 4, 2]', '(n, None)', '(None, 4)'], covers=['refused'])
def bad_durations(ctx, text):
    n = ctx.int('n', 0)
    d = {'()': (), '(n,)': (n,), '(n, 4, 4)': (n, 4, 4), '(n, 4, 1, 1)': (n, 4, 1, 1), '(n, 3)': (n, 3), '(n, 0)': (n, 0), '(n, -4)': (n, -4),
         '(-1 - n, 4)': (-1 - n, 4), '[n]': [n], '[n, 4, 2]': [n, 4, 2], '(n, None)': (n, None), '(None, 4)': (None, 4)}[text]
    for f in (lambda: Note(60, d), lambda: Note(60).with_duration(d)):
        try:
            f()
        except (TypeError, ValueError):
            ctx.check(True, 'refused')
            continue
        ctx.check(False, 'not a duration, accepted')


@H('tone text with one more arbitrary character in front of, inside or behind a notation: the note has the tone that the notation gives, or is '
   'refused as the notation is', cases=['front', 'inside', 'behind', 'alone'], covers=['refused', 'accepted'])
def tone_text(ctx, where):
    x = ctx.text('x', 1)
    text = {'front': lambda: x + 'C4', 'inside': lambda: 'C' + x + '4', 'behind': lambda: 'C4' + x, 'alone': lambda: x}[where]()
    try:
        tone = Tone.from_notation(text)
    except ValueError:
        tone = None
    try:
        note = Note(text)
    except ValueError:
        ctx.check(tone is None, 'refused')
        return
    ctx.check(tone is not None, 'accepted')
    ctx.check(note.tone.pitch == tone.pitch, 'accepted')
