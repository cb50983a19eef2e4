"""Backtracking regular-expression matcher over symbolic text (driven by Python's own parse tree)."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:  # Python < 3.11
    import sre_parse
    import sre_constants as sc

from .core import Unmodelled
from .data import ascii_only, beyond, SymStr, conj, disj, mkstr, negate, str_cps


class SymMatch:
    def __init__(self, pattern, string, groups, end0, start0):
        self.re = pattern
        self.string = string
        self._g = groups
        self._span = (start0, end0)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._span
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        g = self._idx(g)
        if g and g > self.re.groups:
            raise IndexError('no such group')
        s, e = self.span(g)
        if s < 0:
            return default
        return self.string[s:e]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    @property
    def pos(self):
        return 0

    @property
    def endpos(self):
        return len(self.string)

    def __bool__(self):
        return True


def _cat(cat, c):
    name = str(cat)
    neg = '_NOT_' in name
    if 'DIGIT' in name:
        r = beyond(c, 'isdecimal', conj([c >= 48, c <= 57]))
    elif 'SPACE' in name:
        r = beyond(c, 'isspace', disj([conj([c >= 9, c <= 13]), conj([c >= 28, c <= 32])]))
    elif 'WORD' in name:
        ascii_only(c)
        r = disj([conj([c >= 48, c <= 57]), conj([c >= 65, c <= 90]), c == 95, conj([c >= 97, c <= 122])])
    else:
        raise Unmodelled('regex category')
    return negate(r) if neg else r


def _variants(v):
    """Code points that match the literal code point v when case is ignored."""
    ch = chr(v)
    out = {v} | {ord(x) for x in (ch.lower(), ch.upper()) if len(x) == 1}
    for a, b in ((0x69, 0x130), (0x69, 0x131), (0x73, 0x17F), (0x6B, 0x212A)):
        if out & {a, a - 32, b}:
            out |= {a, a - 32, b}
    return out


def _in_nocase(items, c):
    if any(op in (sc.RANGE, sc.LITERAL) and (av if op is sc.LITERAL else av[1]) > 127 for op, av in items):
        raise Unmodelled('regex ignorecase')
    pos = [it for it in items if it[0] is not sc.NEGATE]
    sets = [_in(pos, c)]
    for lo in range(97, 123):
        if any((op is sc.LITERAL and av in (lo, lo - 32)) or (op is sc.RANGE and (av[0] <= lo <= av[1] or av[0] <= lo - 32 <= av[1]))
               for op, av in pos):
            sets.append(disj(c == v for v in sorted(_variants(lo))))
    r = disj(sets)
    return negate(r) if len(pos) != len(items) else r


def _in(items, c):
    neg = False
    tests = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(c == av)
        elif op is sc.RANGE:
            tests.append(conj([c >= av[0], c <= av[1]]))
        elif op is sc.CATEGORY:
            tests.append(_cat(av, c))
        else:
            raise Unmodelled('regex set item')
    r = disj(tests)
    return negate(r) if neg else r


def _m(ops, k, cps, i, groups, cont, flags):
    """Matches ops[k:] at i, then calls cont(i, groups); returns its first non-None result."""
    if k == len(ops):
        return cont(i, groups)
    op, av = ops[k]
    n = len(cps)

    def nxt(j, g):
        return _m(ops, k + 1, cps, j, g, cont, flags)

    if op is sc.LITERAL:
        if flags & re.I:
            return nxt(i + 1, groups) if i < n and bool(disj(cps[i] == v for v in sorted(_variants(av)))) else None
        return nxt(i + 1, groups) if i < n and bool(cps[i] == av) else None
    if op is sc.NOT_LITERAL:
        if flags & re.I:
            return nxt(i + 1, groups) if i < n and bool(negate(disj(cps[i] == v for v in sorted(_variants(av))))) else None
        return nxt(i + 1, groups) if i < n and bool(cps[i] != av) else None
    if op is sc.ANY:
        if i >= n:
            return None
        if not flags & re.S and bool(cps[i] == 10):
            return None
        return nxt(i + 1, groups)
    if op is sc.IN:
        test = _in_nocase if flags & re.I else _in
        return nxt(i + 1, groups) if i < n and bool(test(av, cps[i])) else None
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return nxt(i, groups) if i == 0 else None
        if av is sc.AT_END_STRING:
            return nxt(i, groups) if i == n else None
        if av is sc.AT_END:
            if i == n or (i == n - 1 and bool(cps[i] == 10)):
                return nxt(i, groups)
            return None
        raise Unmodelled('regex anchor')
    if op is sc.SUBPATTERN:
        gid, add, rem, sub = av

        def close(j, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (i, j)
            return nxt(j, g)
        return _m(list(sub), 0, cps, i, groups, close, (flags | add) & ~rem)
    if op is sc.BRANCH:
        for sub in av[1]:
            r = _m(list(sub), 0, cps, i, groups, nxt, flags)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        greedy = op is sc.MAX_REPEAT

        def rep(count, j, g):
            def more(j2, g2):
                if j2 == j and count >= lo:
                    return None
                return rep(count + 1, j2, g2)
            if count < lo:
                return _m(sub, 0, cps, j, g, more, flags)
            if greedy:
                if hi is sc.MAXREPEAT or count < hi:
                    r = _m(sub, 0, cps, j, g, more, flags)
                    if r is not None:
                        return r
                return nxt(j, g)
            r = nxt(j, g)
            if r is not None:
                return r
            if hi is sc.MAXREPEAT or count < hi:
                return _m(sub, 0, cps, j, g, more, flags)
            return None
        return rep(0, i, groups)
    if op is sc.GROUPREF:
        s, e = groups.get(av, (-1, -1))
        if s < 0 or i + e - s > n:
            return None
        if bool(conj(cps[s + t] == cps[i + t] for t in range(e - s))):
            return nxt(i + e - s, groups)
        return None
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        direction, sub = av
        if direction < 0:
            raise Unmodelled('regex lookbehind')
        r = _m(list(sub), 0, cps, i, groups, lambda j, g: (j, g), flags)
        if (r is None) == (op is sc.ASSERT):
            return None
        return nxt(i, groups)
    if hasattr(sc, 'ATOMIC_GROUP') and op is sc.ATOMIC_GROUP:
        r = _m(list(av), 0, cps, i, groups, lambda j, g: (j, g), flags)
        return None if r is None else nxt(*r)
    if hasattr(sc, 'POSSESSIVE_REPEAT') and op is sc.POSSESSIVE_REPEAT:
        lo, hi, sub = av
        c, j, g = 0, i, groups
        while hi is sc.MAXREPEAT or c < hi:
            r = _m(list(sub), 0, cps, j, g, lambda a, b: (a, b), flags)
            if r is None or r[0] == j:
                break
            j, g = r
            c += 1
        return nxt(j, g) if c >= lo else None
    raise Unmodelled('regex op %s' % op)


def sym_match(pattern, text, mode, pos=0, endpos=None):
    if isinstance(pattern.pattern, bytes):
        raise Unmodelled('bytes regex')
    ops = list(sre_parse.parse(pattern.pattern, pattern.flags))
    cps = str_cps(text)
    if endpos is not None:
        cps = cps[:endpos]
    n = len(cps)
    starts = range(pos, n + 1) if mode == 'search' else [pos]
    for s in starts:
        if mode == 'fullmatch':
            def cont(j, g):
                return (j, g) if j == n else None
        else:
            def cont(j, g):
                return (j, g)
        r = _m(ops, 0, cps, s, {}, cont, pattern.flags)
        if r is not None:
            return SymMatch(pattern, mkstr(cps), r[1], r[0], s)
    return None
