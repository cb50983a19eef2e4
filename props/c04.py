"""C04: Tone.from_notation accepts exactly the documented notation and gives it the documented pitch."""
import unicodedata

from melodia.core import Tone
from se.prop import Registry

H = Registry()
ASSUMPTIONS = ['decimal digits other than 0-9 are out of the claim (\\d accepts them), and so are surrogates and characters beyond U+FFFF']
DIGITS = [(k, k + 9) for k in range(128, 0x10000) if unicodedata.category(chr(k)) == 'Nd' and unicodedata.decimal(chr(k)) == 0]
BASE = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}


def grammar(ctx, cps):
    """[(condition, pitch)] - the disjoint ways to read cps as letter, accidentals, optional octave."""
    out = []
    n = len(cps)
    if n == 0:
        return out
    letter = ctx.any(cps[0] == ord(k) for k in BASE)
    base = 0
    for k, v in BASE.items():
        base = base + ctx.ite(cps[0] == ord(k), v, 0)
    for j in range(n):                      # j accidentals
        acc = cps[1:1 + j]
        conds = [letter] + [ctx.any([c == 35, c == 98]) for c in acc]
        shift = 0
        for c in acc:
            shift = shift + ctx.ite(c == 35, 1, -1)
        rest = cps[1 + j:]
        if not rest:
            out.append((ctx.all(conds), base + shift))
            continue
        for neg in (0, 1):
            digits = rest[neg:]
            if not digits:
                continue
            cc = list(conds)
            if neg:
                cc.append(rest[0] == 45)
            v = 0
            for c in digits:
                cc.append(ctx.all([c >= 48, c <= 57]))
                v = v * 10 + (c - 48)
            out.append((ctx.all(cc), base + shift + (-12 if neg else 12) * v))
    return out


def decide(ctx, text):
    cps = ctx.cps(text)
    ways = grammar(ctx, cps)
    valid = ctx.any(c for c, _ in ways)
    try:
        t = Tone.from_notation(text)
    except ValueError:
        ctx.check(ctx.not_(valid), 'valid notation is accepted')
        return
    ctx.check(valid, 'invalid notation is refused')
    ctx.check(ctx.all(ctx.implies(c, t.pitch == p) for c, p in ways), 'pitch')
    ctx.observe('pitch', t.pitch)


@H('every ASCII text of length 0..5 (thorough: 0..7)', cases=lambda tier: list(range(0, 6 if tier == 'quick' else 8)),
   covers=['valid notation is accepted', 'invalid notation is refused', 'pitch'])
def any_text(ctx, n):
    decide(ctx, ctx.text('s', n))


@H('letter, k accidentals (each # or b), optional minus, m digits: k <= 4, m <= 4 (thorough k <= 7, m <= 7)',
   cases=lambda tier: [(k, neg, m) for k in range(5 if tier == 'quick' else 8) for neg in (0, 1)
                       for m in range(0, 5 if tier == 'quick' else 8) if m or not neg],
   covers=['pitch'])
def structured(ctx, case):
    k, neg, m = case
    letter = ctx.text('l', 1, ord('A'), ord('G'))
    acc = ctx.text('a', k, 35, 98)
    for c in ctx.cps(acc):
        ctx.assume(ctx.any([c == 35, c == 98]))
    digits = ctx.text('d', m, 48, 57)
    decide(ctx, letter + acc + ('-' if neg else '') + digits)


@H('a valid notation (letter, <=2 accidentals, <=2 digits) with one arbitrary ASCII character inserted or appended',
   cases=[(k, m, at) for k in (0, 2) for m in (0, 2) for at in range(k + m + 2)],
   covers=['valid notation is accepted', 'invalid notation is refused'])
def intruder(ctx, case):
    k, m, at = case
    s = ctx.text('l', 1, ord('A'), ord('G')) + '#' * k
    d = ctx.text('d', m, 48, 57)
    s = s + d
    x = ctx.text('x', 1)
    decide(ctx, s[:at] + x + s[at:])


@H('long notation: any letter, many accidentals (up to 130, one of them at any of three places either way), octaves of up to 30 digits (first '
   'and last any), an optional minus', cases=[[i, j, m] for i, j, m in ((5, 0, 1), (0, 6, 0), (8, 1, 2), (9, 9, 0), (33, 0, 1), (0, 65, 3), (64, 66, 0),
                                                                   (0, 0, 5), (1, 0, 8), (0, 0, 10), (1, 1, 19), (0, 0, 30))],
   covers=['pitch'])
def long_text(ctx, case):
    i, j, m = case
    letter = ctx.text('l', 1, ord('A'), ord('G'))
    acc = '#' * i + 'b' * j
    if acc:
        at = ctx.int('at', 0, 2)
        k = [0, len(acc) // 2, len(acc) - 1][0 if at == 0 else 1 if at == 1 else 2]
        x = ctx.text('x', 1, 35, 98)
        ctx.assume(ctx.any([ctx.cps(x)[0] == 35, ctx.cps(x)[0] == 98]))
        acc = acc[:k] + x + acc[k + 1:]
    digits = ''
    if m == 1:
        digits = ctx.text('d', 1, 48, 57)
    elif m:
        digits = ctx.text('d', 1, 48, 57) + '0123456789'[:m - 2] * 1 + '7' * max(0, m - 12) + ctx.text('e', 1, 48, 57)
    neg = m and bool(ctx.int('neg', 0, 1) == 1)
    decide(ctx, letter + acc + ('-' if neg else '') + digits)


@H('a valid notation (letter, k accidentals, minus or not, m digits) with one character beyond ASCII, any up to U+FFFF that is neither a '
   'surrogate nor a decimal digit, inserted, appended or in place of one of its characters',
   cases=[(k, neg, m, at, put) for k, neg, m in ((0, 0, 0), (2, 0, 0), (0, 0, 2), (1, 1, 1), (2, 0, 2)) for at in range(1 + k + neg + m + 1)
          for put in (0, 1) if at + put <= 1 + k + neg + m],
   covers=['invalid notation is refused'])
def foreign(ctx, case):
    k, neg, m, at, put = case
    s = ctx.text('l', 1, ord('A'), ord('G')) + '#b'[:k] + '-' * neg + ctx.text('d', m, 48, 57)
    x = ctx.text('x', 1, 128, 0xFFFF)
    c = ctx.cps(x)[0]
    ctx.assume(ctx.any([c < 0xD800, c > 0xDFFF]))
    for a, b in DIGITS:
        ctx.assume(ctx.any([c < a, c > b]))
    try:
        Tone.from_notation(s[:at] + x + s[at + put:])
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused, 'invalid notation is refused')
