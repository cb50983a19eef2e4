#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decides one property of melodia with the solver.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken, counterexample replayed on the plain
code; exit 2: error of the check itself (nothing decided, or a counterexample that does not reproduce).
"""
import argparse
import collections
import json
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from se import runner  # noqa: E402

PLAIN_PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


def replay(prop, jobs):
    if not jobs:
        return []
    out = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    todo = list(jobs)
    while todo:
        p = subprocess.run([PLAIN_PYTHON, os.path.join(HERE, 'replay.py')], env=env,
                           input=json.dumps({'property': prop, 'src': runner.SRC, 'jobs': todo}),
                           capture_output=True, text=True)
        lines = [json.loads(x) for x in p.stdout.splitlines() if x.startswith('{')]
        out.extend(lines[:len(todo)])
        if len(lines) >= len(todo):
            break
        # the interpreter died on this job (stack or memory): that is an outcome too
        out.append({'outcome': 'crash', 'label': 'interpreter crash', 'observed': [],
                    'detail': p.stderr[-1500:], 'rc': p.returncode})
        if not lines and 'Error' in p.stderr and p.returncode == 1:
            out[-1]['outcome'] = 'broken'
        todo = todo[len(lines) + 1:]
    return out


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: '):
                d = {}
                head, _, text = line[len('finding: '):].partition(' -- ')
                for tok in head.split():
                    k, _, v = tok.partition('=')
                    d[k] = v
                d['text'] = text
                if d.get('property') == prop:
                    res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', action='append')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property.upper(), a.tier
    budget = a.budget or (300 if tier == 'quick' else 800)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 0)
    random.seed(seed)
    R = runner.Runner(prop, tier, budget, a.jobs, a.only, a.verbose)
    known = known_findings(prop)

    def listed(harness, label):
        return next((k for k in known if k.get('harness') == harness and
                     k.get('label', '').replace('_', ' ') == (label or '').replace('_', ' ')), None)

    def confirm(harness, case, inputs):
        r = replay(prop, [{'harness': harness, 'case': case, 'inputs': inputs, 'timeout': 20}])[0]
        return r['outcome'] in ('fail', 'exception', 'timeout', 'crash') and not listed(harness, r['label'])
    R.confirm = confirm
    per = R.run()
    hs = {h.name: h for h in R.mod.H}

    # ---- replay counterexamples, inconclusive paths and path witnesses on the plain code
    jobs, meta = [], []

    def add(kind, h, case, inputs, extra, timeout=20):
        jobs.append({'harness': h, 'case': case, 'inputs': inputs, 'timeout': timeout})
        meta.append((kind, h, case, inputs, extra))
    for name, rec in per.items():
        by = collections.Counter()
        for c in rec['candidates']:
            by[c['label']] += 1
            if c['inputs'] is not None and by[c['label']] <= 6:
                add('cex', name, c['case'], c['inputs'], c, 20)
        for lab, i, case in rec['unknown'][:20]:
            if i is not None:
                add('open', name, case, i, 'solver unknown: ' + lab, 20)
        for why, i, case in rec['unmodelled'][:60]:
            if i is not None:
                add('open', name, case, i, 'not encoded: ' + why, 20)
        ws = rec['witnesses']
        cap = max(40, (600 if tier == 'quick' else 3000) // max(1, len(per)))
        if len(ws) > cap:
            ws = random.sample(ws, cap)
        for i, obs, case in ws:
            add('witness', name, case, i, obs, 20)
    results = replay(prop, jobs)

    violations, spurious, validated, disagreements = [], [], 0, []
    open_ok = 0
    for (kind, h, case, inputs, extra), r in zip(meta, results):
        bad = r['outcome'] in ('fail', 'exception', 'timeout', 'crash')
        item = {'harness': h, 'case': case, 'inputs': inputs, 'label': r['label'], 'detail': r.get('detail', ''),
                'outcome': r['outcome'], 'found_by': kind}
        if kind == 'cex':
            item['solver_label'] = extra['label']
            if bad:
                violations.append(item)
            else:
                spurious.append(dict(item, label=extra['label'], detail=extra['detail'], loose=extra.get('loose')))
        elif kind == 'open':
            if bad:
                violations.append(item)
            else:
                open_ok += 1
        else:
            if bad:
                violations.append(item)
            elif r['outcome'] == 'broken':
                disagreements.append(dict(item, detail=r['detail']))
            else:
                ok = r['outcome'] == 'pass'
                if ok:
                    got = dict((k, v) for k, v in r['observed'])
                    for k, v in extra:
                        if v is not None and json.loads(json.dumps(v)) != got.get(k):
                            ok = False
                            item['detail'] = 'observed %s: encoding %r, code %r' % (k, v, got.get(k))
                if ok:
                    validated += 1
                else:
                    disagreements.append(item)

    # ---- verdict
    new, old = [], []
    for v in violations:
        hit = listed(v['harness'], v['label'])
        (old if hit else new).append((v, hit))
    problems, notes = [], []
    tot = collections.Counter()
    funcs = set()
    for name, rec in per.items():
        for k, v in rec['stats'].items():
            tot[k] += v
        funcs |= rec['functions']
        missing = [c for c in hs[name].covers if c not in rec['covered']] if list(hs[name].cases(tier)) else []
        inc = list(dict.fromkeys(rec['incomplete']))
        if rec['unfinished']:
            inc.append('%d open subtrees not explored (time budget)' % rec['unfinished'])
        if rec['unmodelled']:
            inc.append('%d paths leave the encoding (%s)' % (len(rec['unmodelled']), collections.Counter(
                w for w, _, _ in rec['unmodelled']).most_common(2)))
        if rec['unknown']:
            inc.append('%d queries the solver did not decide' % len(rec['unknown']))
        if rec['errors']:
            inc.append('engine error: ' + rec['errors'][0].strip().splitlines()[-1])
            if a.verbose:
                print(rec['errors'][0])
        if inc:
            notes.append('%s: %s' % (name, '; '.join(map(str, inc))))
        if missing and not inc:
            problems.append('%s: never reached: %s' % (name, ', '.join(missing)))
        elif missing:
            notes.append('%s: not reached: %s' % (name, ', '.join(missing)))
    soft = [s for s in spurious if s['label'].startswith('exception') or s['label'] == 'termination'
            or hs[s['harness']].options.get('approx') or s.get('loose')]
    hard = [s for s in spurious if s not in soft]
    for s in soft:
        notes.append('%s: path ended with "%s" in the encoding only (%s)' % (s['harness'], s['label'], s['detail']))
    for s in hard[:5]:
        problems.append('%s: counterexample to "%s" does not reproduce: %s' % (s['harness'], s['label'], s['inputs']))
    for d in disagreements[:5]:
        problems.append('%s: encoding and code disagree: %s %s %s' % (d['harness'], d['outcome'], d['detail'],
                                                                      d['inputs']))
    if tot['paths'] == 0 and not violations:
        problems.append('nothing explored')

    wall = time.time() - t0
    complete = not notes and not problems
    for name, rec in per.items():
        s = rec['stats']
        print('%-28s cases=%-4d paths=%-6d queries=%-6d solver=%.1fs wall=%.1fs wit=%d%s' % (
            name, rec['cases'], s.get('paths', 0), s.get('queries', 0), s.get('solver_time', 0), rec['wall'],
            len(rec['witnesses']), '' if not rec['candidates'] else ' CEX=%d' % len(rec['candidates'])))
    for n in notes:
        print('INCOMPLETE', n[:600])
    for p in problems:
        print('PROBLEM', p[:1200])

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    samples = []
    for name, rec in per.items():
        for i, obs, case in rec['witnesses'][:2]:
            samples.append({'harness': name, 'case': case, 'inputs': i, 'predicted': obs})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': samples[:8] or ['none'],
            'queries_discharged': tot['queries'], 'queries_trivially_true': tot['trivial_queries'],
            'solver_calls': tot['solver_checks'], 'solver_seconds': round(tot['solver_time'], 2),
            'solver_unknown': tot['unknown'],
            'functions_encoded': sorted(funcs),
            'harnesses': {n: {'cases': r['cases'], 'paths': r['stats'].get('paths', 0),
                              'queries': r['stats'].get('queries', 0),
                              'solver_seconds': round(r['stats'].get('solver_time', 0), 2),
                              'bounds': r['bounds'], 'reached': sorted(r['covered'])} for n, r in per.items()},
            'exhaustive': complete,
            'incomplete': notes,
            'source': 'encoding regenerated from %s on this run' % runner.SRC,
        },
        'assumptions': list(getattr(R.mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    for v, k in old:
        pass
    for k in {id(k): k for _, k in old}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    rc = 0
    if new:
        rc = 1
        path = os.path.join(HERE, 'evidence', '%s.violation.json' % prop)
        first = [v for v, _ in new]
        with open(path, 'w') as f:
            json.dump({'property': prop, 'violations': first[:20],
                       'how': '%s %s/replay.py < request' % (PLAIN_PYTHON, HERE),
                       'request': {'property': prop, 'src': runner.SRC,
                                   'jobs': [{k: v[k] for k in ('harness', 'case', 'inputs')} for v in first[:20]]}},
                      f, indent=1)
        v = first[0]
        print('counterexample (%s): harness=%s case=%s inputs=%s outcome=%s label=%s %s' % (
            v['found_by'], v['harness'], v['case'], json.dumps(v['inputs'])[:800], v['outcome'], v['label'],
            v['detail'][-400:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif problems:
        rc = 2
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print('%s %s: %s in %.1fs' % (prop, tier, {0: 'held on everything explored' + ('' if complete else ' (incomplete)'),
                                             1: 'VIOLATED', 2: 'CHECK ERROR'}[rc], wall))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
