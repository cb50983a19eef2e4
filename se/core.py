"""Symbolic core: path explorer, integers in polynomial normal form, booleans, floats.

Integers are Python's unbounded ints: a SymInt is a polynomial with integer coefficients over SMT
Int atoms, plus an interval that is a consequence of the declared input ranges.  Floor division
introduces quotient atoms q with the defining axioms d*q <= P < d*q + d, so masks, shifts, moduli and
byte splitting stay in (mostly linear) integer arithmetic.  Every branch on a symbolic value asks
the solver which sides are feasible; every side is explored.
"""
import math
import time
from fractions import Fraction

import z3

INF = float('inf')


class PathEnd(BaseException):
    """Unwinds the program under test; never an Exception, so the program cannot catch it."""


class Infeasible(PathEnd):
    pass


class SplitPoint(PathEnd):
    pass


class Unmodelled(PathEnd):
    pass


class StepLimit(PathEnd):
    pass


class BudgetExceeded(BaseException):
    pass


class Decision:
    __slots__ = ('kind', 'taken', 'pending', 'value', 'lit')

    def __init__(self, kind, taken, pending, value=None, lit=None):
        self.kind = kind          # 'b' branch, 'c' choice, 'v' value pick (no solver effect)
        self.taken = taken
        self.pending = pending    # 'b': other side to explore? 'c': number of options
        self.value = value
        self.lit = lit


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.solver_checks = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.queries = 0
        self.trivial_queries = 0
        self.assume_dead = 0
        self.cuts = 0

    def as_dict(self):
        return dict(self.__dict__)


_sqrt_memo = {}


def has_sqrt(e):
    k = e.get_id()
    hit = _sqrt_memo.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_FPA_SQRT or any(has_sqrt(c) for c in e.children()))
    _sqrt_memo[k] = (e, r)
    return r


class Explorer:
    """Depth-first exploration by re-execution with a recorded decision trail."""

    current = None

    def __init__(self, prefix=(), split_depth=None, timeout_ms=20000, deadline=None,
                 max_steps=400000, float_mode='tab', max_decisions=4000, value_cap=300):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trail = []
        self.forced = list(prefix)
        self.n_forced = len(self.forced)
        self.split_depth = split_depth
        self.splits = []
        self.built = 0
        self.adds = [0]
        self.stats = Stats()
        self.deadline = deadline
        self.max_steps = max_steps
        self.max_decisions = max_decisions
        self.float_mode = float_mode
        self.value_cap = value_cap
        self.functions = set()
        self._z_atoms = {}
        self.reset_path()

    # ---- per-path state -------------------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.add_idx = 0
        self.atoms = []          # (z3 const, lo, hi, kind, meta)
        self.qtable = {}
        self.ptable = {}
        self.known = {}
        self.keep = []
        self.steps = 0
        self.inputs = []
        self.model = None
        self.model_valid = False
        self.incomplete = []
        self.loose = False       # a model on this path only approximates the code
        self.zcache = {}
        self.subst = {}          # atom -> polynomial, learned from equalities on this path
        self.freed = set()       # quotient atoms that now define what they were defined by
        self.ab = {}             # atom -> (lo, hi) narrowed on this path
        self.pb = {}             # polynomial without constant term -> (lo, hi)
        self.bver = 0
        self.abcache = {}
        self.floors = {}         # polynomial -> (L, a): it equals floor(L/a)
        self.blocks = {}         # quotient atom -> [(polynomial, lo, hi, lead monomial, lead coef)]
        self.sqrts = []          # arguments of the square roots taken on this path

    # ---- solver plumbing ------------------------------------------------------------------
    def add(self, expr):
        """Adds a constraint at the current decision level (skips it when already on the stack)."""
        level = self.pos
        if level < self.built or self.add_idx < self.adds[level]:
            self.add_idx += 1
            return
        assert level == self.built
        self.solver.add(expr)
        self.adds[level] += 1
        self.add_idx += 1
        if self.model_valid and not self._model_true(expr):
            self.model_valid = False

    def _model_true(self, expr):
        try:
            return z3.is_true(self.model.eval(expr, model_completion=True))
        except z3.Z3Exception:
            return False

    def _check(self, *extra):
        t = time.time()
        if self.sqrts:
            m = self._hinted(extra)
            if m is not None:
                self.stats.solver_checks += 1
                self.stats.solver_time += time.time() - t
                return z3.sat, m
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        if extra:
            self.solver.pop()
        self.stats.solver_checks += 1
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _hinted(self, extra):
        """A model with some usual value under every square root (their exact constraints are slow), or None."""
        asserts = list(self.solver.assertions()) + list(extra)
        if not any(has_sqrt(a) for a in asserts):
            return None
        for v in (0.01, 0.0, 1e-12, 1e-7, 1e-4, 0.25, 1.0, 50.0):
            s = z3.Solver()
            s.set('timeout', 3000)
            vals = [(x, z3.FPVal(v, x.sort())) for x in self.sqrts]
            for a in asserts:
                s.add(z3.substitute(a, *vals))
            for x, c in vals:
                s.add(x == c)
            if s.check() == z3.sat:
                return s.model()
        return None

    def _push_level(self, lit):
        assert self.built == self.pos
        self.solver.push()
        if lit is not None:
            self.solver.add(lit)
        self.built += 1
        self.adds.append(0)

    def ensure_model(self):
        """A model of the current path condition (None when the solver cannot tell)."""
        if not self.model_valid:
            r, m = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self.model, self.model_valid = m, True
        return self.model

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        if self.deadline is not None and not self.steps & 0xFF and time.time() > self.deadline:
            raise BudgetExceeded()

    # ---- decisions ------------------------------------------------------------------------
    def _consume(self, kind):
        """Next recorded decision, if this position is being replayed."""
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != kind:
                raise RuntimeError('non-deterministic replay: %s != %s' % (d.kind, kind))
            return d
        return None

    def _advance(self, d, lit=None):
        if self.pos >= self.built:
            self._push_level(lit)
            if lit is not None and self.model_valid and not self._model_true(lit):
                self.model_valid = False
        else:
            self.model_valid = False
        self.pos += 1
        self.add_idx = 0

    def _new_decision(self):
        self.steps += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        if self.pos >= self.max_decisions:
            raise StepLimit()
        if self.split_depth is not None and self.pos >= self.split_depth:
            self.splits.append([(d.kind, d.taken, d.value) for d in self.trail])
            raise SplitPoint()

    def branch(self, cond):
        """Decides a z3 Bool on this path; explores both sides when both are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond):
            return not self.branch(cond.arg(0))
        key = cond.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit
        d = self._consume('b')
        if d is None and self.pos < self.n_forced:
            kind, taken, value = self.forced[self.pos]
            if kind != 'b':
                raise RuntimeError('non-deterministic prefix')
            d = Decision('b', taken, False)
            self.trail.append(d)
        if d is None:
            self._new_decision()
            self.stats.branches += 1
            ncond = z3.Not(cond)
            m = self.ensure_model()
            first = True
            if m is not None:
                first = self._model_true(cond)
                r, m2 = self._check(ncond if first else cond)
                pending = r != z3.unsat
            else:
                r, m2 = self._check(cond)
                if r == z3.unsat:
                    first, pending = False, False
                else:
                    r, m3 = self._check(ncond)
                    pending = r != z3.unsat
            if not pending:
                # implied: no decision needed, remember it
                d = Decision('b', first, False)
            else:
                d = Decision('b', first, True)
            self.trail.append(d)
        lit = cond if d.taken else z3.Not(cond)
        self._advance(d, lit)
        self.known[key] = d.taken
        self.keep.append(cond)
        return d.taken

    def choice(self, n):
        """A free structural choice in range(n); all are explored, no solver involved."""
        if n == 1:
            return 0
        d = self._consume('c')
        if d is None and self.pos < self.n_forced:
            kind, taken, value = self.forced[self.pos]
            if kind != 'c':
                raise RuntimeError('non-deterministic prefix')
            d = Decision('c', taken, 0)
            self.trail.append(d)
        if d is None:
            self._new_decision()
            d = Decision('c', 0, n)
            self.trail.append(d)
        self._advance(d)
        return d.taken

    def pick_value(self, zexpr):
        """A value of zexpr possible on this path, recorded so that replay sees the same one."""
        d = self._consume('v')
        if d is None and self.pos < self.n_forced:
            kind, taken, value = self.forced[self.pos]
            d = Decision('v', None, False, value)
            self.trail.append(d)
        if d is None:
            self._new_decision()
            m = self.ensure_model()
            if m is None:
                raise Unmodelled('solver gave no model for a value pick')
            v = m.eval(zexpr, model_completion=True)
            d = Decision('v', None, False, v.as_long())
            self.trail.append(d)
        self._advance(d)
        return d.value

    def backtrack(self):
        """Moves to the next unexplored decision; False when the tree is exhausted."""
        while len(self.trail) > self.n_forced:
            d = self.trail[-1]
            i = len(self.trail) - 1
            if d.kind == 'b' and d.pending:
                self._pop_to(i)
                d.taken = not d.taken
                d.pending = False
                return True
            if d.kind == 'c' and d.taken + 1 < d.pending:
                self._pop_to(i)
                d.taken += 1
                return True
            self.trail.pop()
        return False

    def _pop_to(self, level):
        while self.built > level:
            self.solver.pop()
            self.built -= 1
            self.adds.pop()

    def assume(self, cond):
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            return
        self.add(cond)
        if z3.is_false(cond):
            raise Infeasible()

    def feasible(self):
        self.ensure_model()

    def query(self, cond):
        """Does cond hold for every value on this path?  ('holds'|'fails'|'unknown', model)."""
        self.stats.queries += 1
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            self.stats.trivial_queries += 1
            return 'holds', None
        if self.model_valid and z3.is_false(self.model.eval(cond, model_completion=True)):
            return 'fails', self.model
        r, m = self._check(z3.Not(cond))
        if r == z3.unsat:
            return 'holds', None
        if r == z3.unknown:
            # a fresh, non-incremental solver is often stronger (floating point, nonlinear)
            s = z3.Solver()
            s.set('timeout', 60000)
            s.add(*self.solver.assertions())
            s.add(z3.Not(cond))
            t = time.time()
            r = s.check()
            self.stats.solver_time += time.time() - t
            self.stats.solver_checks += 1
            if r == z3.unsat:
                return 'holds', None
            if r == z3.sat:
                return 'fails', s.model()
            return 'unknown', None
        return 'fails', m

    # ---- atoms ----------------------------------------------------------------------------
    def new_atom(self, name, lo, hi, sort='i', meta=None):
        i = len(self.atoms)
        if name is None:
            name = '%s!%d' % (sort, i)
        key = (name, sort)
        c = self._z_atoms.get(key)
        if c is None:
            c = z3.Int(name) if sort == 'i' else z3.Real(name)
            self._z_atoms[key] = c
        self.atoms.append((c, lo, hi, sort, meta))
        return i

    def poly_z3(self, p):
        key = p
        e = self.zcache.get(key)
        if e is not None:
            return e
        terms = []
        real = any(self.atoms[a][3] == 'r' for mono, _ in p for a in mono)
        for mono, c in p:
            if real:
                t = z3.RealVal(c)
            else:
                t = z3.IntVal(c)
            f = None
            for a in mono:
                z, _, _, s, _ = self.atoms[a]
                if real and s == 'i':
                    z = z3.ToReal(z)
                f = z if f is None else f * z
            if f is None:
                terms.append(t)
            elif c == 1:
                terms.append(f)
            else:
                terms.append(t * f)
        if not terms:
            e = z3.RealVal(0) if real else z3.IntVal(0)
        elif len(terms) == 1:
            e = terms[0]
        else:
            e = z3.Sum(terms)
        self.zcache[key] = e
        return e


def ex():
    return Explorer.current


def learn(p):
    """The polynomial p is 0 on this path: solve it for an atom and substitute from now on."""
    e = ex()
    p = p_subst(p, e.subst)
    if p_is_const(p):
        return
    occ = {}
    for m, _ in p:
        for a in m:
            occ[a] = occ.get(a, 0) + 1
    best = None
    for m, c in p:
        if len(m) == 1 and c in (1, -1) and occ[m[0]] == 1 and e.atoms[m[0]][3] == 'i':
            a = m[0]
            if best is None or (e.atoms[a][4] is None) > (e.atoms[best[0]][4] is None):
                best = (a, c)
    if best is None:
        return
    a, c = best
    q = p_scale(tuple((m, k) for m, k in p if m != (a,)), -c)
    # substitutions stay fully resolved
    one = {a: q}
    for b in e.subst:
        e.subst[b] = p_subst(e.subst[b], one)
    e.subst[a] = q
    for m, _ in q:
        for b in m:
            e.freed.add(b)
    if e.floors:
        e.floors = {k: v for k, v in e.floors.items() if not any(a in m for m, _ in v[0])}
    if e.blocks:
        old = [b for bs in e.blocks.values() for b in bs]
        if any(a in m for b in old for m, _ in b[0]):
            e.blocks = {}
            for b in old:
                add_block(p_subst(b[0], one), b[1], b[2])


def add_block(p, lo, hi):
    """lo <= p <= hi always holds; p is a remainder  (something) - d*q  with q its newest atom."""
    e = ex()
    q, k, g = p_canon(p)
    if not q:
        return
    lo, hi = lo - k, hi - k
    if g < 0:
        g, lo, hi, q = -g, lo, hi, p_scale(q, -1)
    lo, hi = _cdiv(lo, g), hi // g
    if len(q) == 1:
        note_bound(q, lo, hi)
        return
    if any(len(m) != 1 for m, _ in q):
        return
    qa = q[-1][0][0]
    if q[-1][1] >= 0:
        note_bound(q, lo, hi)
        return
    lead, lc = q[0]
    bs = e.blocks.setdefault(qa, [])
    b = (q, lo, hi, lead, lc)
    if b not in bs:
        bs.append(b)


def p_blocks(p):
    """p = sum k*block + rest, greedily from the newest quotient; ([(k, block)], rest)."""
    e = ex()
    ks = []
    d = dict(p)
    qs = sorted({m[0] for m in d if len(m) == 1 and m[0] in e.blocks})
    while qs:
        qa = qs.pop()
        c = d.get((qa,), 0)
        best = None
        for b in e.blocks[qa]:
            dq = -b[0][-1][1]
            k = (-2 * c + dq) // (2 * dq)           # nearest integer to -c/dq
            if not k:
                continue
            lc = d.get(b[3], 0)
            if not lc:
                continue
            # what stays behind
            cost = sum(abs(d.get(m, 0) - k * x) for m, x in b[0])
            if best is None or cost < best[0]:
                best = (cost, k, b)
        if best is None:
            continue
        _, k, b = best
        for m, x in b[0]:
            v = d.get(m, 0) - k * x
            if v:
                d[m] = v
                if m[0] < qa and m[0] in e.blocks and m[0] not in qs:
                    qs.append(m[0])
                    qs.sort()
            else:
                d.pop(m, None)
        ks.append((k, b))
    return ks, p_from(d)


def p_subst(p, sub):
    if not sub:
        return p
    for m, _ in p:
        if any(a in sub for a in m):
            break
    else:
        return p
    out = ()
    for m, c in p:
        t = (((), c),)
        rest = []
        for a in m:
            q = sub.get(a)
            if q is None:
                rest.append(a)
            else:
                t = p_mul(t, q)
        if rest:
            r = tuple(rest)
            t = p_from({tuple(sorted(mm + r)): k for mm, k in t})
        out = p_add(out, t)
    return out


# ---- polynomials: tuple of (monomial, coef), sorted; monomial = sorted tuple of atom ids ------

def p_const(c):
    return (((), c),) if c else ()


def p_from(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def p_add(p, q, k=1):
    if not q:
        return p
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return p_from(d)


def p_scale(p, k):
    if k == 0:
        return ()
    return tuple((m, c * k) for m, c in p)


def p_mul(p, q):
    d = {}
    for m1, c1 in p:
        for m2, c2 in q:
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return p_from(d)


def p_is_const(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def p_constval(p):
    return p[0][1] if p else 0


def i_add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def i_mul(a, b):
    vals = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vals.append(0)
            else:
                vals.append(x * y)
    return (min(vals), max(vals))


def atom_bounds(e, a):
    _, lo, hi, _, meta = e.atoms[a]
    if not e.bver:
        return lo, hi
    c = e.abcache.get(a)
    if c is not None and c[0] == e.bver:
        return c[1], c[2]
    n = e.ab.get(a)
    if n is not None:
        lo, hi = max(lo, n[0]), min(hi, n[1])
    if meta is not None and meta[0] == 'quot':
        e.abcache[a] = (e.bver, lo, hi)         # cut cycles
        bl, bh = p_interval(meta[1])
        d = meta[2]
        if bl != -INF:
            lo = max(lo, bl // d)
        if bh != INF:
            hi = min(hi, bh // d)
    e.abcache[a] = (e.bver, lo, hi)
    return lo, hi


def p_interval(p, deep=True):
    e = ex()
    lo, hi = 0, 0
    for m, c in p:
        iv = (1, 1)
        for a in m:
            iv = i_mul(iv, atom_bounds(e, a))
        iv = i_mul(iv, (c, c))
        lo, hi = lo + iv[0], hi + iv[1]
    if e.pb and len(p) > 1:
        q, k, f = p_canon(p)
        n = e.pb.get(q)
        if n is not None:
            l2, h2 = i_mul(n, (f, f))
            lo, hi = max(lo, l2 + k), min(hi, h2 + k)
    if e.blocks and deep and len(p) > 1:
        ks, rest = p_blocks(p)
        if ks:
            l2, h2 = p_interval(rest, False)
            for k, b in ks:
                iv = i_mul((k, k), (b[1], b[2]))
                l2, h2 = l2 + iv[0], h2 + iv[1]
            lo, hi = max(lo, l2), min(hi, h2)
    return lo, hi


def p_canon(p):
    """p = f*q + k with q primitive, positive leading coefficient and no constant term."""
    k = 0
    q = []
    g = 0
    for m, c in p:
        if m == ():
            k = c
        else:
            q.append((m, c))
            g = math.gcd(g, c)
    if q and q[-1][1] < 0:
        g = -g
    return tuple((m, c // g) for m, c in q), k, g


def _cdiv(a, b):
    return -((-a) // b)


def note_bound(p, lo, hi, depth=0):
    """lo <= p <= hi holds on this path."""
    e = ex()
    p = p_subst(p, e.subst)
    q, k, f = p_canon(p)
    if not q or any(e.atoms[a][3] != 'i' for m, _ in q for a in m):
        return
    lo, hi = lo - k, hi - k
    if f < 0:
        f, lo, hi = -f, -hi, -lo
    lo = _cdiv(lo, f) if lo != -INF else -INF
    hi = hi // f if hi != INF else INF
    if len(q) == 1 and len(q[0][0]) == 1:
        a = q[0][0][0]
        ol, oh = atom_bounds(e, a)
        nl, nh = max(ol, lo), min(oh, hi)
        if (nl, nh) == (ol, oh) or nl > nh:
            return
        e.ab[a] = (nl, nh)
        e.bver += 1
        meta = e.atoms[a][4]
        if meta is not None and meta[0] == 'quot' and depth < 4 and a not in e.freed:
            d = meta[2]
            note_bound(meta[1], nl * d if nl != -INF else -INF, nh * d + d - 1 if nh != INF else INF, depth + 1)
        if nl == nh:
            learn((((), -nl), ((a,), 1)) if nl else (((a,), 1),))
        return
    old = e.pb.get(q, (-INF, INF))
    new = (max(old[0], lo), min(old[1], hi))
    if new == old or new[0] > new[1]:
        return
    e.pb[q] = new
    e.bver += 1
    if depth < 4 and len(q) <= 6:
        for m, c in q:
            if len(m) == 1:
                rest = tuple(t for t in q if t[0] != m)
                rl, rh = p_interval(rest)
                # c*a in [new - rest]
                l, h = new[0] - rh, new[1] - rl
                if l != -INF or h != INF:
                    note_bound(((m, c),), l, h, depth + 1)


def mkint(p, lo=-INF, hi=INF):
    e = Explorer.current
    if e is not None and e.subst:
        p = p_subst(p, e.subst)
    if p_is_const(p):
        return p_constval(p)
    l2, h2 = p_interval(p)
    lo = max(lo, l2)
    hi = min(hi, h2)
    if lo == hi:
        return lo
    return SymInt(p, lo, hi)


def poly(x):
    if type(x) is SymInt:
        return x.p
    return p_const(int(x))


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return int(x), int(x)


def is_intlike(x):
    return type(x) is SymInt or type(x) is int or type(x) is bool or type(x) is SymBool


def lift_int(x):
    """int/bool/SymBool -> int or SymInt; None if not an integer."""
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x.as_int()
    return None


def floordiv_const(x, d):
    """floor(x / d), d a positive int constant."""
    if type(x) is int:
        return x // d
    if d == 1:
        return x
    e = ex()
    if e.subst or e.bver:
        x = mkint(x.p, x.lo, x.hi)
        if type(x) is int:
            return x // d
    lo = x.lo // d if x.lo != -INF else -INF
    hi = x.hi // d if x.hi != INF else INF
    if lo == hi:
        return lo
    root = e.floors.get(x.p)
    if root is not None:
        # x = floor(L/a): floor(x/d) = floor(L/(a*d))
        L, a = root
    else:
        L, a = x.p, 1
    r = _floordiv(L, a * d)
    if type(r) is int:
        return r
    r = mkint(r.p, lo, hi)
    if type(r) is int:
        return r
    if not p_is_const(p_add(L, p_scale(r.p, a * d), -1)):
        e.floors[r.p] = (L, a * d)
    add_block(p_add(x.p, p_scale(r.p, d), -1), 0, d - 1)
    return r


def _floordiv(p, d):
    A, B = {}, {}
    for m, c in p:
        q, r = divmod(c, d)
        if q:
            A[m] = q
        if r:
            B[m] = r
    A, B = p_from(A), p_from(B)
    if ex().blocks and len(B) > 1:
        r = _quot_blocks(p, d)
        if r is not None:
            return mkint(r)
    q = _quot(B, d)
    return mkint(p_add(A, poly(q)))


def _quot_blocks(p, d):
    """floor(p/d) when p splits into remainders whose total below d is known; else None."""
    r = _quot_blocks1((), p, d)
    if r is None and len(p) > 1:
        for off in (d // 2, (d - 1) // 2):
            # p = d*A + B with the coefficients of B closest to 0
            A, B = {}, {}
            for m, c in p:
                q = (c + off) // d
                if q:
                    A[m] = q
                if c - q * d:
                    B[m] = c - q * d
            r = _quot_blocks1(p_from(A), p_from(B), d)
            if r is not None:
                break
    return r


def _quot_blocks1(out, p, d):
    ks, rest = p_blocks(p)
    if not ks:
        return None
    A, B = {}, {}
    for m, c in rest:
        q, r = divmod(c, d)
        if q:
            A[m] = q
        if r:
            B[m] = r
    lo, hi = p_interval(p_from(B), False)
    out = p_add(out, p_from(A))
    for k, b in ks:
        q, r = divmod(k, d)
        if q:
            out = p_add(out, p_scale(b[0], q))
        iv = i_mul((r, r), (b[1], b[2]))
        lo, hi = lo + iv[0], hi + iv[1]
    if lo == -INF or hi == INF or lo // d != hi // d:
        return None
    return p_add(out, p_const(lo // d))


def _quot(B, d):
    """floor(B/d) for a polynomial with coefficients in [0,d)."""
    e = ex()
    if p_is_const(B):
        return p_constval(B) // d
    bd = dict(B)
    k = bd.pop((), 0)
    g = d
    for c in bd.values():
        g = math.gcd(g, c)
    if g > 1:
        B = p_from(dict({m: c // g for m, c in bd.items()}, **{}))
        k = k // g
        d = d // g
        B = p_add(B, p_const(k))
        if d == 1:
            return mkint(B)
        return floordiv_const(mkint(B), d)
    if len(bd) == 1:
        (m, c), = bd.items()
        if c == 1 and len(m) == 1:
            meta = e.atoms[m[0]][4]
            if meta is not None and meta[0] == 'quot' and m[0] not in e.freed:
                # floor((floor(L/a)+k)/d) = floor((L + k*a)/(a*d))
                _, L, a = meta
                return floordiv_const(mkint(p_add(L, p_const(k * a))), a * d)
    lo, hi = p_interval(B)
    lo = lo // d if lo != -INF else -INF
    hi = hi // d if hi != INF else INF
    if lo == hi:
        return lo
    key = (B, d)
    a = e.qtable.get(key)
    if a is None:
        a = e.new_atom(None, lo, hi, 'i', ('quot', B, d))
        e.qtable[key] = a
        qz = e.atoms[a][0]
        bz = e.poly_z3(B)
        e.add(z3.And(d * qz <= bz, bz <= d * qz + (d - 1)))
    return SymInt((((a,), 1),), lo, hi)


def sym_floordiv(x, y):
    """Python floor division, any sign."""
    x, y = lift_int(x), lift_int(y)
    if type(y) is int:
        if y == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if y < 0:
            return floordiv_const(neg(x), -y)
        return floordiv_const(x, y)
    if bool(y == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if not bool(y > 0):
        x, y = neg(x), neg(y)
        if type(y) is int:
            return sym_floordiv(x, y)
    return _floordiv_pos(x, y)


def _floordiv_pos(x, y):
    """floor(x/y) for symbolic y > 0."""
    e = ex()
    if e.subst:
        x, y = (mkint(v.p, v.lo, v.hi) if type(v) is SymInt else v for v in (x, y))
        if type(y) is int:
            return sym_floordiv(x, y)
    P, Q = poly(x), y.p
    if not P:
        return 0
    if len(Q) == 1:
        (mq, cq), = Q
        exact = {}
        for m, c in P:
            rest = list(m)
            ok = c % cq == 0
            for a in mq:
                if a in rest:
                    rest.remove(a)
                else:
                    ok = False
            if not ok:
                exact = None
                break
            exact[tuple(rest)] = c // cq
        if exact is not None:
            return mkint(p_from(exact))
    key = (P, Q)
    a = e.qtable.get(key)
    if a is None:
        xl, xh = rng(x)
        yl = max(1, y.lo)
        if xl >= 0:
            lo, hi = (xl // y.hi if y.hi != INF else 0), (xh // yl if xh != INF else INF)
        else:
            lo, hi = -INF, INF
        a = e.new_atom(None, lo, hi, 'i', ('squot', P, Q))
        e.qtable[key] = a
        qz = e.atoms[a][0]
        pz, dz = e.poly_z3(P), e.poly_z3(Q)
        e.add(z3.And(dz * qz <= pz, pz < dz * qz + dz))
        if lo != -INF:
            e.add(qz >= lo)
        if hi != INF:
            e.add(qz <= hi)
    return SymInt((((a,), 1),), e.atoms[a][1], e.atoms[a][2])


def sym_mod(x, y):
    x, y = lift_int(x), lift_int(y)
    if type(y) is int and y > 0:
        if type(x) is SymInt:
            x = mkint(x.p, x.lo, x.hi)
        if type(x) is int:
            return x % y
        if x.lo >= 0 and x.hi < y:
            return x
        q = floordiv_const(x, y)
        return mkint(p_add(x.p, p_scale(poly(q), y), -1), 0, y - 1)
    q = sym_floordiv(x, y)
    return x - q * y


def neg(x):
    if type(x) is int:
        return -x
    return mkint(p_scale(x.p, -1), -x.hi, -x.lo)


def shift_amount(n):
    if type(n) is SymInt:
        return n.concretize('shift')
    n = int(n)
    if n < 0:
        raise ValueError('negative shift count')
    return n


def and_const(x, c):
    """x & c for constant c."""
    if type(x) is int:
        return x & c
    if c == 0:
        return 0
    if c < 0:
        # x & c == x - (x & ~c)
        return x - and_const(x, ~c)
    # a contiguous run of ones at a time
    total = 0
    i = 0
    while c >> i:
        if not (c >> i) & 1:
            i += 1
            continue
        j = i
        while (c >> j) & 1:
            j += 1
        part = sym_mod(floordiv_const(x, 1 << i), 1 << (j - i))
        total = total + part * (1 << i)
        i = j
    if type(total) is SymInt:
        total = mkint(total.p, 0, c)
    return total


def bit(x, i):
    return sym_mod(floordiv_const(x, 1 << i), 2)


def and_sym(x, y):
    for v in (x, y):
        if v.lo == -INF or v.hi == INF:
            raise Unmodelled('bitwise and of unbounded symbolic integers')
    # two's complement over enough bits
    n = max(abs(int(v)).bit_length() for v in (x.lo, x.hi, y.lo, y.hi)) + 1
    e = ex()
    total = 0
    for i in range(n):
        b, c = bit(x, i), bit(y, i)
        if type(b) is int:
            t = c if b else 0
        elif type(c) is int:
            t = b if c else 0
        else:
            t = ite_int(SymBool(z3.And(e.poly_z3(b.p) == 1, e.poly_z3(c.p) == 1)), 1, 0)
        w = (1 << i) if i < n - 1 else -(1 << i)
        total = total + t * w
    return total


def ite_int(cond, a, b):
    """cond ? a : b without forking."""
    c = to_z3bool(cond)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if type(a) is int and type(b) is int and a == b:
        return a
    if type(a) is SymInt and type(b) is SymInt and a.p == b.p:
        return a
    e = ex()
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    pa, pb = poly(a), poly(b)
    key = ('ite', c.get_id(), pa, pb)
    i = e.qtable.get(key)
    if i is None:
        i = e.new_atom(None, lo, hi, 'i', ('ite',))
        e.qtable[key] = i
        e.keep.append(c)
        z = e.atoms[i][0]
        e.add(z == z3.If(c, e.poly_z3(pa), e.poly_z3(pb)))
        if lo != -INF:
            e.add(z >= lo)
        if hi != INF:
            e.add(z <= hi)
    return SymInt((((i,), 1),), lo, hi)


class SymInt:
    __slots__ = ('p', 'lo', 'hi')

    def __init__(self, p, lo=-INF, hi=INF):
        self.p, self.lo, self.hi = p, lo, hi

    @property
    def __class__(self):
        return int

    @property
    def z(self):
        return ex().poly_z3(self.p)

    # numerator/denominator/real as for int
    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        try:
            return '<SymInt %s [%s,%s]>' % (self.z, self.lo, self.hi)
        except Exception:
            return '<SymInt>'

    # -- arithmetic
    def _bin(self, o, f, ff):
        oi = lift_int(o)
        if oi is not None:
            return f(self, oi)
        if is_floatlike(o):
            return ff(to_float(self), o)
        return NotImplemented

    def _rbin(self, o, f, ff):
        oi = lift_int(o)
        if oi is not None:
            return f(oi, self)
        if is_floatlike(o):
            return ff(o, to_float(self))
        return NotImplemented

    @staticmethod
    def _add(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        return mkint(p_add(poly(a), poly(b)), al + bl, ah + bh)

    @staticmethod
    def _sub(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        return mkint(p_add(poly(a), poly(b), -1), al - bh, ah - bl)

    @staticmethod
    def _mul(a, b):
        lo, hi = i_mul(rng(a), rng(b))
        return mkint(p_mul(poly(a), poly(b)), lo, hi)

    def __add__(self, o):
        return self._bin(o, self._add, f_add)

    def __radd__(self, o):
        return self._rbin(o, self._add, f_add)

    def __sub__(self, o):
        return self._bin(o, self._sub, f_sub)

    def __rsub__(self, o):
        return self._rbin(o, self._sub, f_sub)

    def __mul__(self, o):
        if type(o) in (list, tuple, str, bytes):
            return o * self.concretize('repeat')
        return self._bin(o, self._mul, f_mul)

    def __rmul__(self, o):
        if type(o) in (list, tuple, str, bytes):
            return o * self.concretize('repeat')
        return self._rbin(o, self._mul, f_mul)

    def __floordiv__(self, o):
        return self._bin(o, sym_floordiv, f_floordiv)

    def __rfloordiv__(self, o):
        return self._rbin(o, sym_floordiv, f_floordiv)

    def __mod__(self, o):
        return self._bin(o, sym_mod, f_mod)

    def __rmod__(self, o):
        return self._rbin(o, sym_mod, f_mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self._bin(o, int_truediv, f_div)

    def __rtruediv__(self, o):
        return self._rbin(o, int_truediv, f_div)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return (self ** o) % mod
        if type(o) is SymInt:
            o = o.concretize('exponent')
        if type(o) is int and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if type(o) is int:
            return 1.0 / to_float(self ** (-o))
        if is_floatlike(o):
            return f_pow(to_float(self), o)
        return NotImplemented

    def __rpow__(self, o):
        if type(o) is int:
            k = self.concretize('exponent')
            return o ** k
        return f_pow(o, to_float(self))

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return neg(self)
        return ite_int(self >= 0, self, neg(self))

    def __invert__(self):
        return -self - 1

    # -- bits
    def __and__(self, o):
        o = lift_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            return and_const(self, o)
        if o.p == self.p:
            return self
        return and_sym(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = lift_int(o)
        if o is None:
            return NotImplemented
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        o = lift_int(o)
        if o is None:
            return NotImplemented
        return self + o - (self & o) * 2

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << shift_amount(o))

    def __rlshift__(self, o):
        return o << self.concretize_shift()

    def __rshift__(self, o):
        return floordiv_const(self, 1 << shift_amount(o))

    def __rrshift__(self, o):
        return o >> self.concretize_shift()

    def concretize_shift(self):
        if bool(self < 0):
            raise ValueError('negative shift count')
        return self.concretize('shift')

    def bit_length(self):
        x = abs(self)
        if type(x) is int:
            return x.bit_length()
        lo, hi = x.lo, x.hi
        if hi == INF:
            raise Unmodelled('bit_length of an unbounded symbolic integer')
        k0, k1 = max(0, lo).bit_length(), hi.bit_length()
        n = k0
        for k in range(k0, k1):
            n = n + ite_int(x >= (1 << k), 1, 0)
        if type(n) is SymInt:
            n = mkint(n.p, k0, k1)
        return n

    def bit_count(self):
        x = abs(self)
        if type(x) is int:
            return x.bit_count()
        if x.hi == INF:
            raise Unmodelled('bit_count of an unbounded symbolic integer')
        n = 0
        for i in range(x.hi.bit_length()):
            n = n + bit(x, i)
        return n

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .data import mkbytes
        if type(length) is SymInt:
            length = length.concretize('to_bytes length')
        if length < 0:
            raise ValueError('length argument must be non-negative')
        x = self
        if signed:
            half = 1 << (8 * length - 1) if length else 0
            if bool(x < -half) or bool(x >= max(half, 1)):
                raise OverflowError('int too big to convert')
            x = sym_mod(x, 1 << (8 * length))
        else:
            if bool(x < 0):
                raise OverflowError("can't convert negative int to unsigned")
            if bool(x >= (1 << (8 * length))):
                raise OverflowError('int too big to convert')
        out = [sym_mod(floordiv_const(x, 1 << (8 * i)), 256) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        elif byteorder != 'little':
            raise ValueError("byteorder must be either 'little' or 'big'")
        return mkbytes(out)

    # -- comparison
    def _cmp(self, o, op):
        oi = lift_int(o)
        if oi is None:
            if is_floatlike(o):
                return f_cmp(self, o, op)
            return NotImplemented
        d = self - oi
        return cmp0(d, op)

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self != 0)

    # -- concretisation: forks over every feasible value
    def concretize(self, why='value'):
        e = ex()
        z = self.z
        n = 0
        while True:
            v = e.pick_value(z)
            if bool(SymBool(z == v)):
                return v
            n += 1
            if n > e.value_cap:
                e.incomplete.append('value enumeration cut at %d (%s)' % (n, why))
                e.stats.cuts += 1
                raise Unmodelled('too many values: ' + why)

    def __index__(self):
        return self.concretize('index')

    def __int__(self):
        return self.concretize('int')

    def __float__(self):
        return float(self.concretize('float'))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unmodelled('round to tens')

    def __hash__(self):
        if HashGuard.on:
            raise SymHash()
        return hash(self.concretize('hash'))

    def __str__(self):
        return str(self.concretize('str'))

    def __format__(self, spec):
        return format(self.concretize('format'), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymHash(Exception):
    pass


class HashGuard:
    on = False


def cmp0(d, op):
    """d op 0 as bool or SymBool."""
    op0 = op
    if type(d) is int:
        return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
    lo, hi = d.lo, d.hi
    if op == '<':
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == '<=':
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif op == '>':
        if lo > 0:
            return True
        if hi <= 0:
            return False
    elif op == '>=':
        if lo >= 0:
            return True
        if hi < 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return op == '!='
        # divisibility: sum of c_i x_i + k == 0 needs gcd(c_i) | k
        dd = dict(d.p)
        k = dd.pop((), 0)
        g = 0
        for c in dd.values():
            g = math.gcd(g, c)
        if g > 1 and k % g:
            return op == '!='
    # canonical sign and scale so that equal conditions share one z3 term
    p = d.p
    dd = dict(p)
    k = dd.pop((), 0)
    g = 0
    for c in dd.values():
        g = math.gcd(g, c)
    lead = max(dd)
    flip = dd[lead] < 0
    if flip:
        dd = {m: -c for m, c in dd.items()}
        k = -k
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    lin = p_from({m: c // g for m, c in dd.items()})
    # lin*g + k op 0
    z = ex().poly_z3(lin)
    if op in ('==', '!='):
        r = SymBool(z == (-k) // g)
    elif op in ('<', '>='):      # lin < -k/g  <=> lin <= ceil(-k/g)-1
        r = SymBool(z <= -((k) // g) - 1)
    else:                        # lin <= floor(-k/g)
        r = SymBool(z <= (-k) // g)
    if op in ('!=', '>', '>='):
        r = SymBool(z3.Not(r.e))
    r.eq = (d.p, lo, hi, op0)
    return r


_INV = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


class SymBool:
    __slots__ = ('e', 'eq')

    def __init__(self, e):
        self.e = e
        self.eq = None           # (polynomial, lo, hi, op): this is "polynomial op 0"

    def learned(self, taken):
        p, lo, hi, op = self.eq
        if not taken:
            op = _INV[op]
        l, h = -INF, INF
        if op == '==':
            learn(p)
            return
        if op == '!=':
            if lo == 0:
                l = 1
            elif hi == 0:
                h = -1
            else:
                return
        elif op == '<':
            h = -1
        elif op == '<=':
            h = 0
        elif op == '>':
            l = 1
        else:
            l = 0
        l, h = max(l, lo), min(h, hi)
        if l == h:
            learn(p_add(p, p_const(-l)))
        else:
            note_bound(p, l, h)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        r = ex().branch(self.e)
        if self.eq is not None:
            self.learned(r)
        return r

    def as_int(self):
        return ite_int(self, 1, 0)

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.And(self.e, to_z3bool(o)))
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.Or(self.e, to_z3bool(o)))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.Xor(self.e, to_z3bool(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(self.e == to_z3bool(o))
        return self.as_int() == o

    def __ne__(self, o):
        r = self == o
        return negate(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __lshift__(self, o):
        return self.as_int() << o


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def negate(b):
    if type(b) is SymBool:
        r = SymBool(b.e.arg(0) if z3.is_not(b.e) else z3.Not(b.e))
        if b.eq is not None:
            r.eq = b.eq[:3] + (_INV[b.eq[3]],)
        return r
    return not b


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def to_z3bool(b):
    t = type(b)
    if t is SymBool:
        return b.e
    if t is bool:
        return TRUE if b else FALSE
    if isinstance(b, z3.BoolRef):
        return b
    if t is SymInt:
        return to_z3bool(b != 0)
    return TRUE if b else FALSE


# ------------------------------------------------------------------------------ floats
#
# Three exact-enough encodings of Python floats, chosen by where the value comes from:
#   SymFP   an IEEE-754 binary64 term (z3 floating-point theory)
#   TabFP   a float that is a function of one small-range symbolic int, tabulated with real floats
#   SymReal an exact rational function of symbolic ints (float_mode 'real'; rounding not modelled)

F64 = z3.Float64()
RNE = z3.RNE()


def is_floatlike(x):
    return type(x) in (float, SymFP, TabFP, SymReal, DyFP, QuoFP)


def is_symfloat(x):
    return type(x) in (SymFP, TabFP, SymReal, DyFP, QuoFP)


def fpval(x):
    if type(x) is SymFP:
        return x.e
    if type(x) in (int, float):
        return z3.FPVal(float(x), F64)
    raise Unmodelled('mix of float encodings')


TAB_MAX = 1024


def to_float(x):
    """Python's float(x) for an int-like x."""
    if type(x) is int or type(x) is bool:
        return float(x) if abs(int(x)) < 1 << 1000 else float(x)
    if is_floatlike(x):
        return x
    if type(x) is SymBool:
        x = x.as_int()
        return to_float(x)
    if type(x) is SymInt:
        if ex().float_mode == 'real':
            return SymReal(x.p, p_const(1))
        if x.hi - x.lo <= TAB_MAX:
            return TabFP(x, [float(v) for v in range(int(x.lo), int(x.hi) + 1)])
        return dy_round(x, 1, 0)
    raise TypeError('not a number')


def int_truediv(a, b):
    e = ex()
    if type(b) is int and b == 0:
        raise ZeroDivisionError('division by zero')
    if e.float_mode == 'real':
        if type(b) is SymInt and bool(b == 0):
            raise ZeroDivisionError('division by zero')
        return real_div(SymReal(poly(a), p_const(1)), SymReal(poly(b), p_const(1)))
    if type(b) is int and type(a) is SymInt and a.hi - a.lo <= TAB_MAX:
        return TabFP(a, [v / b for v in range(int(a.lo), int(a.hi) + 1)])
    if type(a) is int and type(b) is SymInt and b.hi - b.lo <= TAB_MAX:
        if bool(b == 0):
            raise ZeroDivisionError('division by zero')
        return TabFP(b, [a / v if v else 0.0 for v in range(int(b.lo), int(b.hi) + 1)])
    if type(b) is SymInt:
        b = b.concretize('true division')
        if b == 0:
            raise ZeroDivisionError('division by zero')
    if type(a) is SymInt:
        return dy_round(a if b > 0 else -a, abs(b), 0)
    return a / b


def _coerce(a, b):
    """Brings two float-likes to one encoding."""
    ta, tb = type(a), type(b)
    if ta is QuoFP or tb is QuoFP:
        if ta is tb and a.d == b.d:
            return a, b
        a, b = (dy_round(x.n, x.d, 0) if type(x) is QuoFP else x for x in (a, b))
        ta, tb = type(a), type(b)
        if ta is float and tb is float:
            return a, b
    if ta is SymReal or tb is SymReal:
        return to_real(a), to_real(b)
    if ta is DyFP or tb is DyFP:
        return to_dy(a), to_dy(b)
    if ta is SymFP or tb is SymFP:
        if ta is TabFP:
            a = a.concretize()
        if tb is TabFP:
            b = b.concretize()
        return (SymFP(fpval(a)) if type(a) is not SymFP else a,
                SymFP(fpval(b)) if type(b) is not SymFP else b)
    if ta is TabFP and tb is TabFP and a.i.p == b.i.p and (a.i.lo, len(a.t)) != (b.i.lo, len(b.t)):
        # both tables are right on the common range, which holds the index
        lo, hi = max(a.i.lo, b.i.lo), min(a.i.lo + len(a.t), b.i.lo + len(b.t)) - 1
        if lo > hi:
            raise Infeasible()
        i = SymInt(a.i.p, lo, hi)
        return tuple(TabFP(i, x.t[int(lo - x.i.lo):int(hi - x.i.lo) + 1]) for x in (a, b))
    return a, b


def _as_floatlike(x):
    if is_floatlike(x):
        return x
    if type(x) in (int, bool, SymInt, SymBool):
        return to_float(x)
    return None


def _float_op(name, py, fp, rl):
    def op(a, b):
        a, b = _as_floatlike(a), _as_floatlike(b)
        if a is None or b is None:
            return NotImplemented
        if type(a) is float and type(b) is float:
            return py(a, b)
        a, b = _coerce(a, b)
        if type(a) is SymReal:
            return rl(a, b)
        if type(a) is QuoFP:
            a, b = (dy_round(x.n, x.d, 0) for x in (a, b))
            return globals()['f_' + name](a, b)
        if type(a) is DyFP:
            return dy_op(name, a, b)
        if type(a) is SymFP:
            return SymFP(fp(a.e, b.e))
        if type(a) is TabFP and type(b) is TabFP:
            if a.i.p == b.i.p and len(a.t) == len(b.t):
                return TabFP(a.i, [py(x, y) for x, y in zip(a.t, b.t)])
            if len(a.t) <= len(b.t):
                a = a.concretize()
            else:
                b = b.concretize()
        if type(a) is TabFP:
            return TabFP(a.i, [py(x, b) for x in a.t])
        if type(b) is TabFP:
            return TabFP(b.i, [py(a, y) for y in b.t])
        return py(a, b)
    op.__name__ = name
    return op


def _fp_div(a, b):
    return z3.fpDiv(RNE, a, b)


f_add = _float_op('add', lambda a, b: a + b, lambda a, b: z3.fpAdd(RNE, a, b), lambda a, b: real_add(a, b))
f_sub = _float_op('sub', lambda a, b: a - b, lambda a, b: z3.fpSub(RNE, a, b), lambda a, b: real_add(a, real_neg(b)))
f_mul = _float_op('mul', lambda a, b: a * b, lambda a, b: z3.fpMul(RNE, a, b), lambda a, b: real_mul(a, b))
_f_div = _float_op('div', lambda a, b: a / b if b else float('nan'), _fp_div, lambda a, b: real_div(a, b))


def f_div(a, b):
    z = _as_floatlike(b)
    if z is None:
        return NotImplemented
    if bool(f_cmp(z, 0.0, '==')):
        raise ZeroDivisionError('float division by zero')
    return _f_div(a, b)


def f_floordiv(a, b):
    q = f_div(a, b)
    return to_float(f_floor(q))


def f_mod(a, b):
    raise Unmodelled('float modulo')


def f_pow(a, b):
    a, b = _as_floatlike(a), _as_floatlike(b)
    if type(a) is float and type(b) is float:
        return a ** b
    if ex().float_mode == 'real':
        return real_pow(to_real(a), to_real(b))
    if type(b) is TabFP and type(a) is float:
        return TabFP(b.i, [a ** y for y in b.t])
    if type(a) is TabFP and type(b) is float:
        return TabFP(a.i, [x ** b for x in a.t])
    if type(a) is SymFP and type(b) is float and b == 0.5:
        if bool(f_cmp(a, 0.0, '<')):
            raise Unmodelled('power of a negative float')
        ex().sqrts.append(a.e)
        ex().loose = True                       # pow(x, 0.5) and sqrt(x) may differ in the last bit
        return SymFP(z3.If(z3.fpIsZero(a.e), z3.FPVal(0.0, a.e.sort()), z3.fpSqrt(RNE, a.e)))
    if type(a) is SymFP and type(b) in (int, float) and b == 2:
        return f_mul(a, a)
    raise Unmodelled('float power')


_PYCMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
          '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
_FPCMP = {'==': z3.fpEQ, '!=': lambda a, b: z3.Not(z3.fpEQ(a, b)), '<': z3.fpLT,
          '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}


def _rank_offset(a, b):
    """k with a == b[k:k+len(a)], b strictly increasing; else None."""
    if len(a) > len(b) or not all(x < y for x, y in zip(b, b[1:])):
        return None
    for k in range(len(b) - len(a) + 1):
        if b[k] == a[0] and b[k:k + len(a)] == a:
            return k
    return None


def f_cmp(a, b, op):
    if ex().float_mode != 'real':
        # Python compares an int with a float exactly
        if type(a) is SymInt and type(b) in (float, DyFP):
            return dy_cmp(a, b, op)
        if type(b) is SymInt and type(a) in (float, DyFP):
            return dy_cmp(a, b, op)
    a, b = _as_floatlike(a), _as_floatlike(b)
    if a is None or b is None:
        return NotImplemented
    if type(a) is float and type(b) is float:
        return _PYCMP[op](a, b)
    a, b = _coerce(a, b)
    if type(a) is SymReal:
        return real_cmp(a, b, op)
    if type(a) is QuoFP:
        return cmp0(lift_int(a.n - b.n), op)
    if type(a) is DyFP:
        return dy_cmp(a, b, op)
    if type(a) is SymFP:
        return mkbool(z3.simplify(_FPCMP[op](a.e, b.e)))
    if type(a) is TabFP and type(b) is TabFP:
        if a.i.p == b.i.p and len(a.t) == len(b.t):
            return a.where([_PYCMP[op](x, y) for x, y in zip(a.t, b.t)])
        ra = _rank_offset(a.t, b.t)
        if ra is not None:
            return cmp0(lift_int((a.i - a.i.lo + ra) - (b.i - b.i.lo)), op)
        rb = _rank_offset(b.t, a.t)
        if rb is not None:
            return cmp0(lift_int((a.i - a.i.lo) - (b.i - b.i.lo + rb)), op)
        if len(set(a.t)) <= len(set(b.t)):
            a = a.concretize()
        else:
            b = b.concretize()
    if type(a) is TabFP:
        return a.where([_PYCMP[op](x, b) for x in a.t])
    if type(b) is TabFP:
        return b.where([_PYCMP[op](a, y) for y in b.t])
    return _PYCMP[op](a, b)


class _FloatBase:
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __add__(self, o):
        return f_add(self, o)

    def __radd__(self, o):
        return f_add(o, self)

    def __sub__(self, o):
        return f_sub(self, o)

    def __rsub__(self, o):
        return f_sub(o, self)

    def __mul__(self, o):
        return f_mul(self, o)

    def __rmul__(self, o):
        return f_mul(o, self)

    def __truediv__(self, o):
        return f_div(self, o)

    def __rtruediv__(self, o):
        return f_div(o, self)

    def __floordiv__(self, o):
        return f_floordiv(self, o)

    def __rfloordiv__(self, o):
        return f_floordiv(o, self)

    def __pow__(self, o):
        return f_pow(self, o)

    def __rpow__(self, o):
        return f_pow(o, self)

    def __neg__(self):
        return f_mul(self, -1.0)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0.0) else -self

    def __eq__(self, o):
        r = f_cmp(self, o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = f_cmp(self, o, '!=')
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return f_cmp(self, o, '<')

    def __le__(self, o):
        return f_cmp(self, o, '<=')

    def __gt__(self, o):
        return f_cmp(self, o, '>')

    def __ge__(self, o):
        return f_cmp(self, o, '>=')

    def __bool__(self):
        return bool(self != 0.0)

    def __hash__(self):
        if HashGuard.on:
            raise SymHash()
        raise Unmodelled('hash of a symbolic float')

    def __float__(self):
        raise Unmodelled('native use of a symbolic float')

    def __int__(self):
        return int(f_trunc(self))

    def __trunc__(self):
        return f_trunc(self)

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return -f_floor(-self)

    def __round__(self, n=None):
        return f_round(self) if n is None else f_round_digits(self, n)

    def is_integer(self):
        return f_cmp(to_float(f_floor(self)), self, '==')

    def __str__(self):
        return '<symbolic float>'

    def __format__(self, spec):
        return '<symbolic float>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymFP(_FloatBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return '<SymFP %s>' % self.e


class TabFP(_FloatBase):
    """table[i - i.lo] as a function of the symbolic int i."""
    __slots__ = ('i', 't')

    def __init__(self, i, t):
        # index without its constant term, so that equal tables over shifted indices meet
        k = dict(i.p).get((), 0)
        self.i, self.t = (SymInt(p_add(i.p, p_const(-k)), i.lo - k, i.hi - k) if k else i), t

    def where(self, flags):
        """The condition 'flags[i]' as bool/SymBool."""
        if all(flags):
            return True
        if not any(flags):
            return False
        lo = int(self.i.lo)
        z = self.i.z
        runs = []
        start = None
        for k, f in enumerate(flags + [False]):
            if f and start is None:
                start = k
            if not f and start is not None:
                a, b = lo + start, lo + k - 1
                if a == b:
                    runs.append(z == a)
                else:
                    runs.append(z3.And(z >= a, z <= b))
                start = None
        return SymBool(z3.Or(runs) if len(runs) > 1 else runs[0])

    def concretize(self):
        v = self.i.concretize('tabulated float')
        return self.t[v - int(self.i.lo)]

    def to_int(self, vals):
        """The symbolic int with value vals[i - lo]."""
        if all(v == vals[0] for v in vals):
            return vals[0]
        lo = int(self.i.lo)
        deltas = [v - (lo + k) for k, v in enumerate(vals)]
        r = self.i + deltas[0]
        base = deltas[0]
        for dl in sorted(set(deltas)):
            if dl == base:
                continue
            c = self.where([d == dl for d in deltas])
            r = r + ite_int(c, dl - base, 0)
        if type(r) is SymInt:
            r = mkint(r.p, min(vals), max(vals))
        return r

    def __repr__(self):
        return '<TabFP of %r>' % (self.i,)


class DyFP(_FloatBase):
    """The double with value n * 2**k exactly; n a symbolic int."""
    __slots__ = ('n', 'k')

    def __init__(self, n, k):
        self.n, self.k = n, k

    def concretize(self):
        return math.ldexp(float(self.n if type(self.n) is int else self.n.concretize('float')), self.k)

    def __repr__(self):
        return '<DyFP %r * 2^%d>' % (self.n, self.k)


class QuoFP(_FloatBase):
    """The double nearest to n/d; n a symbolic int with |n| <= 2^52, d a positive int.  Injective and monotone in n."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def concretize(self):
        return self.n.concretize('float') / self.d

    def __repr__(self):
        return '<QuoFP %r / %d>' % (self.n, self.d)


DY_BITS = 62            # magnitudes of up to 2^DY_BITS are rounded symbolically


def mkdy(n, k):
    if type(n) is int:
        return math.ldexp(float(n), k)
    return DyFP(n, k)


def to_dy(x):
    if type(x) is DyFP:
        return x
    if type(x) is TabFP:
        x = x.concretize()
    if type(x) is int:
        return DyFP(x, 0)
    if type(x) is float:
        if x != x or x in (math.inf, -math.inf):
            raise Unmodelled('mix of float encodings')
        f = Fraction(x)
        return DyFP(f.numerator, -(f.denominator.bit_length() - 1))
    raise Unmodelled('mix of float encodings')


def dy_round(n, d, k):
    """The double nearest to n / d * 2**k (ties to even); n an int-like, d a positive int."""
    while d % 2 == 0:
        d //= 2
        k -= 1
    if type(n) is SymInt and d > 1:
        g = d
        for _, c in n.p:
            g = math.gcd(g, c)
        if g > 1:
            d //= g
            n = floordiv_const(n, g)
    if type(n) is int:
        r = Fraction(n, d) * Fraction(2) ** k
        return r.numerator / r.denominator
    if d == 1:
        lim = 1 << 53
        if n.lo >= -lim and n.hi <= lim:
            return DyFP(n, k)
        if bool(n <= lim):
            if bool(n >= -lim):
                return mkdy(lift_int(mkint(poly(n), max(n.lo, -lim), min(n.hi, lim))), k)
            s = -1
        else:
            s = 1
        a = n * s
        for b in range(54, DY_BITS + 1):
            if bool(a < (1 << b)):
                return mkdy(_rne(a, 1 << (b - 53)) * s, k + b - 53)
        if bool(a >= (1 << 1024)):
            raise OverflowError('int too large to convert to float')
        raise Unmodelled('float of a very large int')
    if bool(n == 0):
        return 0.0
    s = 1 if bool(n > 0) else -1
    a = n * s
    # exponent e of the quotient: 2^e <= a/d < 2^(e+1)
    lo, hi = -d.bit_length(), DY_BITS
    if not bool(a < (d << hi)):
        if bool(a >= (d << 1024)):
            raise OverflowError('integer division result too large for a float')
        raise Unmodelled('float of a very large int')
    while lo < hi - 1:
        mid = (lo + hi) // 2
        below = a < (d << mid) if mid >= 0 else (a << -mid) < d
        if bool(below):
            hi = mid
        else:
            lo = mid
    e = lo
    if e <= 52:
        q = _rne(a << (52 - e), d)
    else:
        q = _rne(a, d << (e - 52))
    return mkdy(q * s, k + e - 52)


def _rne(a, d):
    """a / d (a >= 0, d > 0) rounded to an int, ties to even."""
    q = a // d
    r = a - q * d
    up = r * 2 > d
    if d % 2 == 0:
        up = mkbool(z3.Or(to_z3bool(up), z3.And(to_z3bool(r * 2 == d), to_z3bool(q % 2 == 1))))
    return q + ite_int(up, 1, 0)


def _dy_align(a, b):
    k = min(a.k, b.k)
    if max(a.k, b.k) - k > 1200:
        raise Unmodelled('float magnitudes far apart')
    return a.n * (1 << (a.k - k)), b.n * (1 << (b.k - k)), k


def dy_op(name, a, b):
    if name in ('add', 'sub'):
        x, y, k = _dy_align(a, b)
        return dy_round(x + y if name == 'add' else x - y, 1, k)
    if name == 'mul':
        return dy_round(a.n * b.n, 1, a.k + b.k)
    if type(b.n) is int:
        n, m = a.n, b.n
        return dy_round(n if m > 0 else -n, abs(m), a.k - b.k)
    raise Unmodelled('division by a symbolic float')


def dy_cmp(a, b, op):
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
        if type(y) is float and (y != y or y in (math.inf, -math.inf)):
            if y != y:
                return op == '!='
            return _PYCMP[o](0.0, y)
    a = DyFP(a, 0) if type(a) in (SymInt, int) else to_dy(a)
    b = DyFP(b, 0) if type(b) in (SymInt, int) else to_dy(b)
    x, y, _ = _dy_align(a, b)
    return cmp0(lift_int(x - y), op)


def dy_floor(x):
    return x.n * (1 << x.k) if x.k >= 0 else x.n // (1 << -x.k)


def dy_round_int(x):
    if x.k >= 0:
        return x.n * (1 << x.k)
    if bool(x.n >= 0):
        return _rne(x.n, 1 << -x.k)
    return -_rne(-x.n, 1 << -x.k)


class SymReal(_FloatBase):
    """n/d, both polynomials; d is kept positive."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __repr__(self):
        e = ex()
        return '<SymReal (%s)/(%s)>' % (e.poly_z3(self.n), e.poly_z3(self.d))

    @property
    def numerator(self):
        raise Unmodelled('numerator of a symbolic fraction')


def to_real(x):
    if type(x) is QuoFP:
        x = dy_round(x.n, x.d, 0)
    if type(x) is SymReal:
        return x
    if type(x) is float:
        f = Fraction(x)
        return SymReal(p_const(f.numerator), p_const(f.denominator))
    if type(x) is int:
        return SymReal(p_const(x), p_const(1))
    if type(x) is Fraction:
        return SymReal(p_const(x.numerator), p_const(x.denominator))
    if type(x) is SymInt:
        return SymReal(x.p, p_const(1))
    if type(x) is SymBool:
        return to_real(x.as_int())
    if type(x) is DyFP:
        return SymReal(p_scale(poly(x.n), 1 << max(0, x.k)), p_const(1 << max(0, -x.k)))
    raise Unmodelled('mix of float encodings')


def _real_norm(n, d):
    if p_is_const(d):
        c = p_constval(d)
        g = abs(c)
        for _, k in n:
            g = math.gcd(g, k)
        if g > 1:
            n = tuple((m, k // g) for m, k in n)
            d = p_const(c // g)
    return SymReal(n, d)


def real_add(a, b):
    if a.d == b.d:
        return _real_norm(p_add(a.n, b.n), a.d)
    return _real_norm(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))


def real_neg(a):
    return SymReal(p_scale(a.n, -1), a.d)


def real_mul(a, b):
    return _real_norm(p_mul(a.n, b.n), p_mul(a.d, b.d))


def _poly_num(p):
    return mkint(p)


def p_sign_known(p):
    lo, hi = p_interval(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    return 0


def real_div(a, b):
    s = p_sign_known(b.n)
    if s == 0:
        if bool(SymBool(ex().poly_z3(b.n) == 0)):
            raise ZeroDivisionError('division by zero')
        s = 1 if bool(SymBool(ex().poly_z3(b.n) > 0)) else -1
    n, d = p_mul(a.n, b.d), p_mul(a.d, b.n)
    if s < 0:
        n, d = p_scale(n, -1), p_scale(d, -1)
    return _real_norm(n, d)


def real_cmp(a, b, op):
    if a.d == b.d:
        diff = p_add(a.n, b.n, -1)
    else:
        diff = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)
    if p_is_const(diff):
        return cmp0(p_constval(diff), op)
    e = ex()
    if all(e.atoms[x][3] == 'i' for m, _ in diff for x in m):
        return cmp0(mkint(diff), op)
    z = e.poly_z3(diff)
    return SymBool({'==': lambda: z == 0, '!=': lambda: z != 0, '<': lambda: z < 0,
                    '<=': lambda: z <= 0, '>': lambda: z > 0, '>=': lambda: z >= 0}[op]())


def real_pow(a, b):
    """a ** b over the reals, a > 0: an uninterpreted positive real with the laws of powers."""
    e = ex()
    if p_is_const(b.n) and p_is_const(b.d) and p_constval(b.n) % p_constval(b.d) == 0:
        k = p_constval(b.n) // p_constval(b.d)
        r = to_real(1)
        for _ in range(abs(k)):
            r = real_mul(r, a)
        return r if k >= 0 else real_div(to_real(1), r)
    if not (p_is_const(a.n) and p_is_const(a.d)):
        raise Unmodelled('power with a symbolic base')
    base = Fraction(p_constval(a.n), p_constval(a.d))
    if base <= 1:
        raise Unmodelled('power with base <= 1')
    b = _real_norm(b.n, b.d)
    key = ('pow', base, b.n, b.d)
    i = e.ptable.get(key)
    if i is None:
        i = e.new_atom(None, 0, INF, 'r', key)
        z = e.atoms[i][0]
        e.add(z > 0)
        xz = _real_z(b)
        bz = z3.RealVal(str(base))
        e.add(z3.Implies(xz == 0, z == 1))
        # instances of the laws against every other power term on this path
        for (tag, base2, n2, d2), j in list(e.ptable.items()):
            if base2 != base:
                continue
            zj, xj = e.atoms[j][0], _real_z(SymReal(n2, d2))
            e.add(z3.And(z3.Implies(xz == xj, z == zj), z3.Implies(xz < xj, z < zj),
                         z3.Implies(xz > xj, z > zj), z3.Implies(xz == xj + 1, z == bz * zj),
                         z3.Implies(xj == xz + 1, zj == bz * z)))
        e.ptable[key] = i
    return SymReal((((i,), 1),), p_const(1))


def _real_z(r):
    e = ex()
    n, d = e.poly_z3(r.n), e.poly_z3(r.d)
    n = z3.ToReal(n) if n.is_int() else n
    d = z3.ToReal(d) if d.is_int() else d
    if z3.is_rational_value(d) or p_is_const(r.d):
        return n / z3.RealVal(p_constval(r.d))
    return n / d


def _fp_to_int(x, lo, hi):
    """An Int value of an integral FP term known to lie in [lo,hi]: forks over the range halves."""
    e = ex()
    lo, hi = int(lo), int(hi)
    while lo < hi:
        mid = (lo + hi) // 2
        if bool(mkbool(z3.fpLEQ(x, z3.FPVal(float(mid), F64)))):
            hi = mid
        else:
            lo = mid + 1
    return lo


FP_INT_RANGE = 4096


def _fp_round_to_int(x, mode):
    if bool(mkbool(z3.simplify(z3.fpIsNaN(x.e)))):
        raise ValueError('cannot convert float NaN to integer')
    if bool(mkbool(z3.simplify(z3.fpIsInf(x.e)))):
        raise OverflowError('cannot convert float infinity to integer')
    r = z3.fpRoundToIntegral(mode, x.e)
    lim = float(FP_INT_RANGE)
    if bool(mkbool(z3.Or(z3.fpGT(r, z3.FPVal(lim, F64)), z3.fpLT(r, z3.FPVal(-lim, F64))))):
        raise Unmodelled('conversion of a large symbolic float to int')
    return _fp_to_int(r, -FP_INT_RANGE, FP_INT_RANGE)


def f_trunc(x):
    if type(x) is QuoFP:
        x = dy_round(x.n, x.d, 0)
    if type(x) in (int, float):
        return math.trunc(x)
    if type(x) is SymInt:
        return x
    if type(x) is TabFP:
        return x.to_int([math.trunc(v) for v in x.t])
    if type(x) in (SymReal, DyFP):
        if bool(x >= 0):
            return f_floor(x)
        return -f_floor(-x)
    return _fp_round_to_int(x, z3.RTZ())


def f_floor(x):
    if type(x) is QuoFP:
        x = dy_round(x.n, x.d, 0)
    if type(x) in (int, float):
        return math.floor(x)
    if type(x) is SymInt:
        return x
    if type(x) is TabFP:
        return x.to_int([math.floor(v) for v in x.t])
    if type(x) is DyFP:
        return dy_floor(x)
    if type(x) is SymReal:
        e = ex()
        for p in (x.n, x.d):
            for m, _ in p:
                for a in m:
                    if e.atoms[a][3] != 'i':
                        raise Unmodelled('floor of an irrational term')
        n, d = mkint(x.n), mkint(x.d)
        return sym_floordiv(n, d)
    return _fp_round_to_int(x, z3.RTN())


def f_round_digits(x, n):
    """round(x, n).  For doubles: round to integral of x * 10**n, over 10**n (the product may itself round: loose)."""
    if type(x) is TabFP:
        return TabFP(x.i, [round(v, n) for v in x.t])
    if type(x) is QuoFP:
        if x.d == 10 ** n:
            return x
        x = dy_round(x.n, x.d, 0)
        if type(x) is float:
            return round(x, n)
    if type(x) is DyFP and 0 <= n <= 15:
        if not bool(mkbool(to_z3bool(f_cmp(x, float(10 ** (15 - n)), '<')))) or not bool(f_cmp(x, -float(10 ** (15 - n)), '>')):
            raise Unmodelled('round to digits of a large float')
        q = dy_round_int(DyFP(x.n * 10 ** n, x.k))
        return QuoFP(q, 10 ** n) if type(q) is SymInt else q / 10 ** n
    if type(x) is SymFP and 0 <= n <= 22:
        ex().loose = True
        if not bool(mkbool(z3.simplify(z3.fpLT(z3.fpAbs(x.e), z3.FPVal(float(10 ** (15 - min(n, 15))), F64))))):
            raise Unmodelled('round to digits of a large float')
        k = z3.FPVal(float(10 ** n), F64)
        return SymFP(z3.fpDiv(RNE, z3.fpRoundToIntegral(RNE, z3.fpMul(RNE, x.e, k)), k))
    raise Unmodelled('round to digits')


def f_round(x):
    if type(x) is QuoFP:
        x = dy_round(x.n, x.d, 0)
    if type(x) in (int, float):
        return round(x)
    if type(x) is TabFP:
        return x.to_int([round(v) for v in x.t])
    if type(x) is DyFP:
        return dy_round_int(x)
    if type(x) is SymReal:
        # half to even
        f = f_floor(x)
        r = x - to_float(f)
        half = Fraction(1, 2)
        if bool(real_cmp(to_real(r), to_real(half), '<')):
            return f
        if bool(real_cmp(to_real(r), to_real(half), '>')):
            return f + 1
        return f if bool(f % 2 == 0) else f + 1
    return _fp_round_to_int(x, RNE)
