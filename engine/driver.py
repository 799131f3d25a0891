"""Decides one property: runs its harness configurations in the evaluator, discharges the obligations with z3, replays
solver models on the real code, writes the evidence."""
import ast
import hashlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

sys.setrecursionlimit(400000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYM_REPO', '/repo')
GROUP = int(os.environ.get('SYM_GROUP', '40'))
PYPY = '/opt/venv/bin/python'

ASSUMPTIONS = [
    'Decimal arithmetic is exact rational arithmetic in the evaluator; comparisons of computed numbers in the '
    'properties allow 1e-9 relative error in replays',
    'the models of the standard library listed in DESIGN.md behave as the library does (validated per run by replaying '
    'solver models natively)',
    'file system contents are those the harness created',
    'nothing is claimed outside the stated bounds',
]


# ---------------------------------------------------------------- harness configurations
def read_configs(pid, tier):
    path = os.path.join(VERIF, 'harness', pid + '.py')
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    env = {}
    for s in tree.body:
        # module-level constants; configurations may be built from earlier ones
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id.isupper():
            exec(compile(ast.Module([s], []), path, 'exec'), env)
    out = list(env['QUICK'])
    if tier == 'thorough':
        out += [c for c in env.get('THOROUGH', []) if c not in out]
    for i, c in enumerate(out):
        c.setdefault('fn', 'main')
    return out


# ---------------------------------------------------------------- values under a model
def value_at(I, v, vals, memo):
    from . import expr as X
    from .values import (force, SNum, SBool, VSeq, VSet, VDict, VUnion, Render, VStr, VView, VObj, Opaque)

    def ev(e):
        return X.evaluate(e, vals, memo)
    v = force(v)
    t = type(v)
    if t is VUnion:
        for g, x in v.alts:
            if ev(g):
                return value_at(I, x, vals, memo)
        return ['o', 'no alternative']
    if v is None or t is bool or t is str:
        return v
    if t is int:
        return ['n', str(v)]
    if t is SNum:
        return ['n', str(ev(v.e))]
    if t is SBool:
        return bool(ev(v.e))
    if t is VSeq:
        return ['l', [value_at(I, x, vals, memo) for g, x in v.ents if ev(g)]]
    if t is VView:
        return ['l', [value_at(I, x, vals, memo) for g, x in I.entries(v) if ev(g)]]
    if t is VSet:
        return ['s', sorted([value_at(I, x, vals, memo) for g, x, _ in v.ents if ev(g)], key=repr)]
    if t is VDict:
        return ['d', sorted([[value_at(I, e[1], vals, memo), value_at(I, e[2], vals, memo)] for e in v.ents
                             if ev(e[0])], key=repr)]
    if t is Render:
        f = ev(v.e)
        return v.prefix + (str(int(f)) if v.kind == 'int' else str(f)) + v.suffix
    if t is VStr:
        return ''.join(value_at(I, x, vals, memo) for g, x in v.ents if ev(g))
    if t is Opaque:
        return ['?']
    if t is VObj:
        return ['o', v.cls.name]
    return ['o', t.__name__]


def same(a, b):
    """Evaluator value a against real value b."""
    if a == ['?']:
        return True
    if isinstance(a, list) and isinstance(b, list) and a and b:
        if a[0] == 'n' and b[0] == 'n':
            try:
                x, y = Fraction(a[1]), Fraction(b[1])
            except ValueError:
                return a[1] == b[1]
            return abs(x - y) <= Fraction(1, 10 ** 8) * max(1, abs(x), abs(y))
        if a[0] == 'o' and b[0] == 'o':
            return True
        if a[0] != b[0] or len(a) != len(b):
            return False
        if a[0] in ('l', 's', 'd'):
            if len(a[1]) != len(b[1]):
                return False
            if a[0] == 'l':
                return all(same(x, y) for x, y in zip(a[1], b[1]))
            rest = list(b[1])
            for x in a[1]:
                for y in rest:
                    if a[0] == 's' and same(x, y) or a[0] == 'd' and same(x[0], y[0]) and same(x[1], y[1]):
                        rest.remove(y)
                        break
                else:
                    return False
            return True
    return a == b


# ---------------------------------------------------------------- one configuration
def inputs_at(I, vals):
    out = {}
    for n, (sort, e) in I.inputs.items():
        v = vals.get(n)
        if sort == 'bool':
            out[n] = bool(v)
        elif sort == 'int':
            out[n] = int(v) if v is not None else int(e.lo) if e.lo != float('-inf') else 0
        else:
            out[n] = str(Fraction(v)) if v is not None else str(e.lo)
    return out


def full(I, vals):
    """Model values with a value for every declared input."""
    r = dict(vals)
    for n, (sort, e) in I.inputs.items():
        if n not in r or r[n] is None:
            r[n] = False if sort == 'bool' else Fraction(0) if e.lo == float('-inf') or e.lo <= 0 <= e.hi \
                else Fraction(e.lo)
    return r


def sample_models(I, base, count, rng):
    """Solver models of the assumptions, steered towards variety by random literals."""
    from . import expr as X
    out = []
    r = I.solver.check(base, 20000)
    if r != 'sat':
        return out, r
    names = list(I.inputs.items())
    out.append(full(I, I.solver.values()))
    for _ in range(count - 1):
        vals = full(I, I.solver.values())
        lits = []
        rng.shuffle(names)
        for n, (sort, e) in names:
            if sort == 'bool':
                lits.append(e if rng.random() < 0.5 else X.not_(e))
            elif e.lo > float('-inf') and e.hi < float('inf') and sort == 'int':
                lits.append(X.eq(e, X.const(rng.randint(int(e.lo), int(e.hi)))))
        tries = 0
        k = len(lits)
        while True:
            r = I.solver.check(base + lits[:k], 5000)
            if r == 'sat' or k == 0 or tries > 12:
                break
            k = k * 2 // 3
            tries += 1
        if r == 'sat':
            out.append(full(I, I.solver.values()))
    return out, 'sat'


def run_config(args):
    pid, idx, param, seed, limit, nsamples = args
    from . import expr as X
    from .interp import Interp, Restart, Collector
    from .values import Dead, Unsupported
    from .expr import TRUE, FALSE, and_, not_
    res = {'idx': idx, 'param': param, 'paths': 0, 'obligations': 0, 'trivial': 0, 'violations': [], 'samples': [],
           'unknown': 0, 'unsupported': None, 'functions': {}, 'queries': 0, 'solver_time': 0.0, 'nstmt': 0,
           'nmerge': 0, 'sat': 0, 'unsat': 0, 'native_calls': 0, 'blind': [], 'vacuous': 0, 'checks': []}
    t0 = time.time()
    deadline = t0 + limit
    rng = random.Random('%s %s %s' % (seed, pid, idx))
    work = [()]
    msgs = {}
    try:
        while work:
            dec = work.pop()
            if time.time() > deadline:
                res['unsupported'] = 'time limit with %d case splits left' % (len(work) + 1)
                break
            I = Interp(dec, deadline=deadline, param=dict(param))
            I.repo = REPO
            I.L.paths = (os.path.join(VERIF, 'harness'),)
            why = None
            try:
                try:
                    m = I.L.import_name(I, pid)
                    I.call(I.getattr(m, param['fn']), [])
                except Dead:
                    pass
            except Restart as ex:
                for j, o in enumerate(ex.options):
                    if I.feasible(and_(I.pc, o)):
                        work.append(tuple(dec) + (j,))
                account(res, I)
                continue
            except Unsupported as ex:
                why = 'not encodable: %s' % ex
                if os.environ.get('SYM_DEBUG'):
                    traceback.print_exc()
                    fr = I.frame
                    while fr is not None:
                        print('   in', fr.func.qual if fr.func else '?', file=sys.stderr)
                        fr = fr.parent
            except RecursionError:
                why = 'not encodable: recursion'
            except MemoryError:
                why = 'not encodable: memory'
            except Exception as ex:
                why = 'evaluator error: %s: %s' % (type(ex).__name__, ex)
                if os.environ.get('SYM_DEBUG'):
                    traceback.print_exc()
            res['paths'] += 1
            if why is not None:
                res['unsupported'] = why
                ms, _ = sample_models(I, list(I.assump), 12, rng)
                for v in ms:
                    res['blind'].append(inputs_at(I, v))
                account(res, I)
                continue
            # obligations
            ob = []
            for pc, c, msg, at in I.checks:
                ob.append((and_(pc, not_(c)), msg, None))
                msgs[msg] = msgs.get(msg, 0) + 1
            for pc, exc, env in I.collectors[0].items:
                ob.append((pc, 'uncaught exception', exc))
            if not I.checks:
                res['unsupported'] = 'no obligation reached'
            decide(I, ob, res, deadline)
            # vacuity and translation samples
            base = I.assump + ([I.pc] if not I.collectors[0].items and I.pc is not FALSE else [])
            ms, st = sample_models(I, base, nsamples if res['paths'] < 40 else 1, rng)
            if st == 'unsat':
                res['vacuous'] += 1
            for v in ms:
                memo = {}
                try:
                    obs = [[n, value_at(I, x, v, memo)] for pc, n, x in I.observed if X.evaluate(pc, v, memo)]
                    bad = [msg for pc, c, msg, at in I.checks if X.evaluate(pc, v, memo)
                           and not X.evaluate(c, v, memo)]
                    exc = [e.cls.name for pc, e, env in I.collectors[0].items if X.evaluate(pc, v, memo)]
                except KeyError:
                    continue
                res['samples'].append({'values': inputs_at(I, v), 'observed': obs, 'failures': bad,
                                       'exception': exc[0] if exc else None})
            account(res, I)
            X.stats([])
    except Exception as ex:
        res['unsupported'] = 'driver error: %s: %s' % (type(ex).__name__, ex)
        if os.environ.get('SYM_DEBUG'):
            traceback.print_exc()
    res['msgs'] = msgs
    res['time'] = time.time() - t0
    return res


def decide(I, ob, res, deadline):
    """Discharge the obligations: groups first (unsat closes all of a group), then halves of a group that is not."""
    from . import expr as X
    res['obligations'] += len(ob)
    todo = [o for o in ob if o[0] is not X.FALSE]
    res['trivial'] += len(ob) - len(todo)
    seen = {}
    uniq = []
    for o in todo:
        if o[0].id not in seen:
            seen[o[0].id] = o
            uniq.append(o)
    found = {}
    groups = [uniq[i:i + GROUP] for i in range(0, len(uniq), GROUP)]
    groups.reverse()
    while groups:
        g = groups.pop()
        g = [o for o in g if found.get(o[1], 0) < 2]
        if not g:
            continue
        left = max(5.0, deadline - time.time())
        r = I.solver.check(I.assump + [X.or_(*[o[0] for o in g])], int(min(left, 240 if len(g) == 1 else 60) * 1000))
        if r == 'unsat':
            continue
        if r == 'sat':
            vals = full(I, I.solver.values())
            memo = {}
            hit = None
            for o in g:
                try:
                    if X.evaluate(o[0], vals, memo):
                        hit = o
                        break
                except (KeyError, ZeroDivisionError):
                    pass
            if hit is None and len(g) == 1:
                hit = g[0]
            if hit is not None:
                e, msg, exc = hit
                found[msg] = found.get(msg, 0) + 1
                res['violations'].append({'msg': msg + (': ' + exc.cls.name if exc is not None else ''),
                                          'values': inputs_at(I, vals)})
                groups.append([o for o in g if o is not hit])
                continue
        elif len(g) == 1:
            res['unknown'] += 1
            res['checks'].append('undecided: ' + g[0][1])
            continue
        m = (len(g) + 1) // 2
        groups.append(g[m:])
        groups.append(g[:m])


def account(res, I):
    s = I.solver
    res['queries'] += s.queries
    res['solver_time'] += s.time
    res['sat'] += s.sat
    res['unsat'] += s.unsat
    res['nstmt'] += I.nstmt
    res['nmerge'] += I.nmerge
    res['native_calls'] += I.native_calls
    for (m, q), n in I.functions.items():
        if m.startswith('segeval'):
            k = m + '.' + q
            res['functions'][k] = res['functions'].get(k, 0) + n


# ---------------------------------------------------------------- replay
def replay(jobs, fresh=False, nproc=4):
    """Run jobs on the real code; list of results (None where the run itself failed)."""
    if not jobs:
        return []
    groups = [[i] for i in range(len(jobs))] if fresh else [list(range(k, len(jobs), nproc)) for k in range(nproc)]
    groups = [g for g in groups if g]
    out = [None] * len(jobs)
    d = tempfile.mkdtemp(prefix='symjobs')
    try:
        procs = []
        todo = list(enumerate(groups))
        running = []

        def start(k, g):
            a, r = os.path.join(d, 'j%d' % k), os.path.join(d, 'r%d' % k)
            with open(a, 'w') as f:
                json.dump([jobs[i] for i in g], f)
            env = dict(os.environ, SYM_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(VERIF, 'engine', 'native', 'replay.py'), a, r],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d)
            running.append((p, g, r, time.time()))
        while todo or running:
            while todo and len(running) < 8:
                start(*todo.pop(0))
            p, g, r, t = running[0]
            try:
                p.wait(timeout=max(1, 240 - (time.time() - t)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            running.pop(0)
            if os.path.exists(r):
                with open(r) as f:
                    for i, x in zip(g, json.load(f)):
                        out[i] = x
    finally:
        import shutil
        shutil.rmtree(d)
    return out


def failed(r):
    return r is not None and not r['assumption'] and (r['failures'] or r['exception'])


# ---------------------------------------------------------------- one property
def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def check(pid, tier, seed=1, jobs=8, only=None, limit=None):
    t0 = time.time()
    cfgs = read_configs(pid, tier)
    if only is not None:
        cfgs = [c for i, c in enumerate(cfgs) if i in only]
    limit = limit or (150 if tier == 'quick' else 780)
    nsamples = 4 if tier == 'quick' else 8
    tasks = [(pid, i, c, seed, limit, nsamples) for i, c in enumerate(cfgs)]
    results = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i][2].get('cost', 1))
    hard = t0 + (330 if tier == 'quick' else 840)
    ctx = multiprocessing.get_context('fork')
    running = {}
    queue = list(order)
    while queue or running:
        while queue and len(running) < jobs:
            i = queue.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(tasks[i], wr))
            p.start()
            wr.close()
            running[i] = (p, rd, time.time())
        import multiprocessing.connection as mc
        ready = mc.wait([r for _, r, _ in running.values()], timeout=1)
        for i in list(running):
            p, rd, st = running[i]
            if rd in ready:
                try:
                    results[i] = rd.recv()
                except EOFError:
                    results[i] = None
                p.join()
                del running[i]
            elif time.time() > min(st + limit + 120, hard):
                p.kill()
                p.join()
                del running[i]
        if time.time() > hard:
            queue = []
    for i, r in enumerate(results):
        if r is None:
            results[i] = {'idx': i, 'param': cfgs[i], 'paths': 0, 'obligations': 0, 'trivial': 0, 'violations': [],
                          'samples': [], 'unknown': 0, 'unsupported': 'no answer within the time and memory limits',
                          'functions': {}, 'queries': 0, 'solver_time': 0.0, 'nstmt': 0, 'nmerge': 0, 'sat': 0,
                          'unsat': 0, 'native_calls': 0, 'blind': [], 'vacuous': 0, 'checks': [], 'time': 0,
                          'msgs': {}}
    # replay on the real code
    jobs_, tags = [], []
    for r in results:
        h = {'harness': pid, 'param': r['param']}
        for v in r['violations']:
            jobs_.append(dict(h, values=v['values']))
            tags.append(('cex', r, v))
        for s in r['samples']:
            jobs_.append(dict(h, values=s['values']))
            tags.append(('sample', r, s))
        for b in r['blind']:
            jobs_.append(dict(h, values=b))
            tags.append(('blind', r, b))
    fresh = any(r['param'].get('fresh') for r in results)
    outs = replay(jobs_, fresh)
    confirmed, unconfirmed, mismatches, validated, norun = [], [], [], 0, 0
    for job, (kind, r, x), o in zip(jobs_, tags, outs):
        if o is None:
            norun += 1
            if kind == 'cex':
                unconfirmed.append((job, x['msg'], 'replay did not finish'))
            continue
        if kind == 'cex':
            if failed(o):
                confirmed.append((job, o, x['msg']))
            else:
                unconfirmed.append((job, x['msg'], 'the real code does not fail'))
        elif kind == 'blind':
            if failed(o):
                confirmed.append((job, o, 'replayed solver model'))
        else:
            if failed(o):
                confirmed.append((job, o, 'replayed solver model'))
                if o['failures'] and not x['failures'] or o['exception'] and not x['exception']:
                    mismatches.append((job, x, o))
                continue
            obs = o['observed']
            if len(obs) != len(x['observed']) or not all(a[0] == b[0] and same(a[1], b[1])
                                                         for a, b in zip(x['observed'], obs)) or x['exception']:
                mismatches.append((job, x, o))
            else:
                validated += 1
    # fresh confirmation of what will be reported
    violations, known_seen = [], []
    kn = known_findings(pid)
    seen = set()
    for job, o, msg in confirmed:
        detail = o['exception'] or (o['failures'][0] if o['failures'] else '')
        key = (job['param']['fn'], detail)
        if key in seen:
            continue
        seen.add(key)
        again = replay([job], True)[0]
        if not failed(again):
            unconfirmed.append((job, detail, 'not reproduced in a fresh process'))
            continue
        violations.append((job, again, detail))
        if len(violations) >= 8:
            break
    und = [r for r in results if r['unsupported'] or r['unknown']]
    evidence(pid, tier, seed, cfgs, results, validated, mismatches, violations, unconfirmed, und, kn, time.time() - t0)
    return results, violations, unconfirmed, mismatches, und, kn


def worker(task, wr):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    import threading
    box = []
    threading.stack_size(1 << 30)

    def go():
        box.append(run_config(task))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    wr.send(box[0] if box else None)
    wr.close()


def evidence(pid, tier, seed, cfgs, results, validated, mismatches, violations, unconfirmed, und, kn, wall):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    fns = {}
    for r in results:
        for k, n in r['functions'].items():
            fns[k] = fns.get(k, 0) + n
    tot = lambda k: sum(r[k] for r in results)
    nsam = sum(len(r['samples']) for r in results)
    cov = {
        'what': 'states: statements of the evaluated program executed on a symbolic state (one state stands for every '
                'input that reaches it); transitions: branches whose two outcomes were both kept and merged; '
                'traces_validated_against_impl: solver models of the inputs for which the real code, run natively, '
                'gave the values the evaluator predicted',
        'states': tot('nstmt'),
        'transitions': tot('nmerge'),
        'traces_validated_against_impl': validated,
        'samples': [{'config': r['param'], 'values': s['values'], 'observed': s['observed'][:4]}
                    for r in results for s in r['samples'][:1]][:6],
        'technique': 'symbolic execution of the current sources with state merging; obligations discharged by z3',
        'functions_encoded': fns,
        'bounds': cfgs,
        'configurations': len(cfgs),
        'decided_configurations': len(cfgs) - len(und),
        'undecided': [{'config': r['param'], 'reason': r['unsupported'] or '; '.join(r['checks'][:5])} for r in und],
        'case_splits': tot('paths'),
        'obligations_checked': tot('obligations'),
        'obligations_closed_by_simplification': tot('trivial'),
        'queries': tot('queries'),
        'queries_sat': tot('sat'),
        'queries_unsat': tot('unsat'),
        'queries_unknown': tot('unknown'),
        'solver_seconds': round(tot('solver_time'), 2),
        'vacuous_paths': tot('vacuous'),
        'models_replayed': nsam,
        'models_disagreeing': len(mismatches),
        'disagreements': [{'config': j['param'], 'values': j['values'],
                           'evaluator': [x['observed'], x['failures'], x['exception']],
                           'real': [o['observed'], o['failures'], o['exception']]} for j, x, o in mismatches[:5]],
        'unconfirmed_counterexamples': [{'config': j['param'], 'values': j['values'], 'message': m, 'reason': w}
                                        for j, m, w in unconfirmed[:10]],
        'counterexamples': [{'config': j['param'], 'values': j['values'], 'what': m} for j, o, m in violations],
        'assertions': dict((m, n) for r in results for m, n in r['msgs'].items()),
        'known_findings': [k['what'] for k in kn],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(violations)}
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--limit', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            job = json.load(f)
        o = replay([job], True)[0]
        print(json.dumps(o, indent=1))
        return 1 if failed(o) else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = set(int(x) for x in a.only.split(',')) if a.only else None
    results, violations, unconfirmed, mismatches, und, kn = check(a.property, a.tier, seed, only=only, limit=a.limit)
    if a.v:
        for r in results:
            print('%5.1fs q=%-4d st=%.1f paths=%d ob=%d triv=%d stmt=%d %s %s' % (
                r['time'], r['queries'], r['solver_time'], r['paths'], r['obligations'], r['trivial'], r['nstmt'],
                r['param'], r['unsupported'] or ''))
        for j, x, o in mismatches[:5]:
            print('MISMATCH', j['param'], j['values'])
            print('   eval', x['observed'], x['failures'], x['exception'])
            print('   real', o['observed'], o['failures'], o['exception'], o.get('trace', '')[-600:])
        for j, m, w in unconfirmed[:10]:
            print('UNCONFIRMED', w, m, j['param'], j['values'])
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k['what']))
    rd = os.path.join(VERIF, 'evidence', 'replays')
    for j, o, m in violations:
        os.makedirs(rd, exist_ok=True)
        text = json.dumps(dict(j, property=a.property, what=m, real=o), indent=1, sort_keys=True)
        p = os.path.join(rd, '%s-%s.json' % (a.property, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            f.write(text)
        print('   %s: %s with %s %s' % (m, (o['trace'].strip().splitlines() or [''])[-1] if o['exception'] else
                                        'assertion fails', j['param'], j['values']))
        print('VIOLATION property=%s replay=%s' % (a.property, p))
    if not violations:
        n = sum(r['obligations'] for r in results)
        print('%s %s: %d obligations over %d configurations hold; %d configurations undecided; %d models replayed on '
              'the real code' % (a.property, a.tier, n, len(results), len(und), sum(len(r['samples']) for r in results)))
        for r in und:
            print('   undecided: %s %s' % (r['param'], r['unsupported'] or '%d queries unknown' % r['unknown']))
    return 1 if violations else 0
