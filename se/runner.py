"""Explores every harness of a property in parallel and collects what the solver said."""
import gc
import importlib
import multiprocessing
import multiprocessing.connection
import os
import random
import sys
import time
import traceback

from . import core, instr, models, state, symctx
from .ctx import encode_inputs

SRC = os.environ.get('MELODIA_SRC', '/repo/src')


def load(prop):
    instr.install('melodia', SRC)
    sys.setrecursionlimit(6000)
    return importlib.import_module('props.' + prop.lower())


class Result:
    def __init__(self):
        self.stats = {}
        self.candidates = []      # dict(label, inputs, kind)
        self.unknown = []         # (label, inputs)
        self.unmodelled = []      # (reason, inputs)
        self.covered = set()
        self.witnesses = []
        self.functions = set()
        self.splits = []
        self.incomplete = []
        self.samples = []


GUARD = None


def witness(ctx, e):
    """Concrete inputs of the current path, and what the encoding predicts the code returns."""
    m = e.ensure_model()
    if m is None:
        return None
    inputs = encode_inputs(ctx.inputs_of(m))
    obs = []
    for label, v in ctx.observed if not e.loose else ():
        obs.append([label, ctx.eval_value(m, v)])
    return inputs, obs


def explore(h, case, prefix, options, hungry, total_deadline, max_witness):
    """Runs the paths below `prefix`; stops early when other workers are idle."""
    global GUARD
    res = Result()
    e = core.Explorer(prefix=prefix, timeout_ms=options.get('timeout_ms', 20000), deadline=total_deadline,
                      max_steps=options.get('max_steps', 200000), float_mode=options.get('float_mode', 'tab'),
                      max_decisions=options.get('max_decisions', 3000), value_cap=options.get('value_cap', 300))
    core.Explorer.current = e
    if GUARD is None:
        GUARD = state.StateGuard('melodia')
    t0 = time.time()
    n_wit = 0
    max_fail = options.get('max_fail', 3)
    while True:
        GUARD.restore()
        for c in models.MEMO_CACHES:
            c.clear()
        ctx = symctx.SymCtx(e, case)
        done = False
        try:
            try:
                h.fn(ctx, case)
                done = True
            except core.PathEnd:
                raise
            except (Exception, MemoryError) as err:
                m = e.ensure_model()
                if isinstance(err, RuntimeError) and 'non-deterministic' in str(err):
                    raise
                tb = traceback.extract_tb(err.__traceback__)
                where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno or 0) for f in tb[-4:])
                ctx.candidates.append(symctx.Candidate(
                    'exception %s' % type(err).__name__, None if m is None else ctx.inputs_of(m),
                    '%s (%s)' % (str(err)[:200], where)))
                res.incomplete.append('exception')
        except core.Infeasible:
            e.stats.assume_dead += 1
        except core.Unmodelled as u:
            w = None
            try:
                w = witness(ctx, e)
            except core.PathEnd:
                pass
            if w or not e.model_valid:
                res.unmodelled.append((str(u), w[0] if w else None))
        except core.StepLimit:
            try:
                w = witness(ctx, e)
                if w:
                    res.candidates.append({'label': 'termination', 'inputs': w[0], 'detail': 'step limit'})
            except core.PathEnd:
                pass
        except core.BudgetExceeded:
            res.incomplete.append('time budget')
            res.splits = []
            break
        if done:
            try:
                # a path that only exists because of dead assumptions is not a path
                e.feasible()
                e.stats.paths += 1
                res.covered |= ctx.covered
                if n_wit < max_witness or (e.stats.paths % 97 == 0 and n_wit < 4 * max_witness):
                    w = witness(ctx, e)
                    if w:
                        n_wit += 1
                        res.witnesses.append(w)
            except core.Infeasible:
                e.stats.assume_dead += 1
                done = False
            except core.PathEnd:
                pass
        for c in ctx.candidates:
            res.candidates.append({'label': c.label, 'detail': c.detail, 'loose': e.loose,
                                   'inputs': None if c.inputs is None else encode_inputs(c.inputs)})
        for lab in ctx.unknown:
            w = None
            try:
                w = witness(ctx, e)
            except core.PathEnd:
                pass
            res.unknown.append((lab, w[0] if w else None))
        res.incomplete.extend(e.incomplete)
        if not e.backtrack():
            break
        if len(res.candidates) >= max_fail:
            res.incomplete.append('stopped after %d counterexamples' % len(res.candidates))
            break
        if hungry.value > 0 and time.time() - t0 > 0.15:
            res.splits = open_prefixes(e)
            break
        if time.time() > total_deadline:
            res.incomplete.append('time budget')
            break
    res.stats = e.stats.as_dict()
    res.functions = e.functions
    core.Explorer.current = None
    return res


def open_prefixes(e):
    """After backtrack(): the current (flipped) trail and every other open alternative."""
    base = [(d.kind, d.taken, d.value) for d in e.trail]
    out = [list(base)]
    for i in range(e.n_forced, len(e.trail)):
        d = e.trail[i]
        if d.kind == 'b' and d.pending:
            out.append(base[:i] + [('b', not d.taken, None)])
        elif d.kind == 'c':
            for j in range(d.taken + 1, d.pending):
                out.append(base[:i] + [('c', j, None)])
    return out


def worker(conn, prop, hungry, deadline, tier):
    try:
        mod = sys.modules['props.' + prop.lower()]
        hs = list(mod.H)
        n = 0
        while True:
            task = conn.recv()
            if task is None:
                break
            hi, case, prefix, maxw = task
            try:
                opts = dict(hs[hi].options)
                opts.update(opts.get('thorough', {}) if tier == 'thorough' else {})
                r = explore(hs[hi], case, prefix, opts, hungry, deadline, maxw)
                conn.send(('ok', r))
            except BaseException:
                conn.send(('error', traceback.format_exc()))
            n += 1
            if n % 50 == 0:
                gc.collect()
    except (EOFError, KeyboardInterrupt):
        pass


class Runner:
    def __init__(self, prop, tier, budget, jobs=8, only=None, verbose=False):
        self.prop, self.tier, self.budget, self.jobs, self.only, self.verbose = \
            prop, tier, budget, jobs, only, verbose
        self.mod = load(prop)
        self.confirm = None       # fn(harness, case, inputs): a new violation on the plain code?

    def run(self):
        t0 = time.time()
        deadline = t0 + self.budget
        hungry = multiprocessing.Value('i', 0, lock=False)
        ctx = multiprocessing.get_context('fork')
        hs = list(self.mod.H)
        tasks = []
        ncases = {}
        self.per = {}
        for i, h in enumerate(hs):
            if self.only and h.name not in self.only:
                continue
            cs = list(h.cases(self.tier))
            ncases[i] = len(cs)
            self.per[h.name] = dict(cases=len(cs), stats={}, covered=set(), candidates=[], unknown=[], unmodelled=[],
                                    witnesses=[], incomplete=[], functions=set(), errors=[], bounds=h.bounds,
                                    wall=0.0, unfinished=0)
            maxw = max(2, min(12, 120 // max(1, len(cs))))
            for c in cs:
                tasks.append((i, c, (), maxw))
        # interleave harnesses so that a long one does not starve the others
        tasks.sort(key=lambda t: t[0])
        buckets = {}
        for t in tasks:
            buckets.setdefault(t[0], []).append(t)
        order = []
        while buckets:
            for k in list(buckets):
                order.append(buckets[k].pop(0))
                if not buckets[k]:
                    del buckets[k]
        queue = order[::-1]
        conns, procs, busy = [], [], {}
        for _ in range(min(self.jobs, max(1, 8))):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, self.prop, hungry, deadline, self.tier), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        idle = list(range(len(conns)))
        alive = set(idle)
        started = {}
        stop = set()      # harness indices with enough counterexamples
        confirmed, tries = False, 24
        while True:
            while queue and idle:
                t = queue.pop()
                if t[0] in stop:
                    self.per[hs[t[0]].name]['incomplete'].append('stopped after counterexamples')
                    continue
                if time.time() > deadline:
                    self.per[hs[t[0]].name]['unfinished'] += 1
                    continue
                w = idle.pop()
                conns[w].send(t)
                busy[w] = t
                started[w] = time.time()
            hungry.value = len(idle) if not queue else 0
            if not busy:
                if not queue:
                    break
                if not idle:
                    break
                continue
            for c in multiprocessing.connection.wait([conns[w] for w in busy], timeout=1.0):
                w = conns.index(c)
                t = busy.pop(w)
                rec = self.per[hs[t[0]].name]
                try:
                    kind, r = c.recv()
                except EOFError:
                    rec['errors'].append('worker died (out of memory?)')
                    alive.discard(w)
                    continue
                idle.append(w)
                rec['wall'] += time.time() - started[w]
                if kind == 'error':
                    rec['errors'].append(r)
                    continue
                self.merge(rec, t, r)
                if len(rec['candidates']) >= 6:
                    stop.add(t[0])
                for pre in r.splits:
                    queue.append((t[0], t[1], pre, 2))
                if self.confirm is not None and not confirmed and tries > 0:
                    for i in ([c['inputs'] for c in r.candidates][:2] + [u[1] for u in r.unknown[:1]] + [u[1] for u in r.unmodelled[:1]]):
                        if i is not None and tries > 0 and not confirmed:
                            tries -= 1
                            confirmed = self.confirm(hs[t[0]].name, t[1], i)
            if confirmed:
                # one counterexample, reproduced on the plain code, settles the verdict
                for q in queue:
                    self.per[hs[q[0]].name]['incomplete'].append('stopped after a violation')
                for w in list(busy):
                    self.per[hs[busy[w][0]].name]['incomplete'].append('stopped after a violation')
                    procs[w].kill()
                    alive.discard(w)
                break
            # a worker stuck in a solver call well past the deadline
            if time.time() > deadline + 60:
                for w in list(busy):
                    rec = self.per[hs[busy[w][0]].name]
                    rec['incomplete'].append('time budget (worker stopped)')
                    rec['unfinished'] += 1
                    procs[w].kill()
                    busy.pop(w)
                break
            if not alive:
                break
        for w in alive:
            try:
                conns[w].send(None)
            except (BrokenPipeError, OSError):
                pass
        for p in procs:
            p.join(timeout=2)
            if p.is_alive():
                p.kill()
        self.wall = time.time() - t0
        return self.per

    def merge(self, rec, t, r):
        for k, v in r.stats.items():
            rec['stats'][k] = rec['stats'].get(k, 0) + v
        rec['covered'] |= r.covered
        rec['functions'] |= r.functions
        rec['incomplete'].extend(r.incomplete)
        for c in r.candidates:
            rec['candidates'].append(dict(c, case=t[1]))
        for lab, i in r.unknown:
            rec['unknown'].append((lab, i, t[1]))
        for why, i in r.unmodelled:
            rec['unmodelled'].append((why, i, t[1]))
        for i, obs in r.witnesses:
            rec['witnesses'].append((i, obs, t[1]))
