"""Confusion matrices stay consistent under any history of use."""
import sym
import lib
from decimal import Decimal

FREE = ['set', 'inc', 'read', 'classes']
QUICK = [{'labels': [1, None], 'free': FREE, 'steps': 3, 'matrices': 1, 'hi': 5},
         {'labels': ['p', 'n'], 'free': FREE, 'steps': 3, 'matrices': 2, 'hi': 2},
         {'labels': ['a', 'b', 'c'], 'free': ['inc', 'read', 'classes'], 'steps': 3, 'matrices': 1, 'hi': 3},
         {'labels': ['p', 'n'], 'history': ['inc', 'classes', 'read', 'classes', 'set', 'classes'], 'matrices': 1,
          'hi': 5},
         {'labels': ['a', 'b'], 'history': ['set', 'precision', 'inc', 'precision'], 'matrices': 1, 'hi': 3},
         {'labels': ['a', 'b'], 'history': ['inc', 'recall', 'inc', 'recall'], 'matrices': 1, 'hi': 3},
         {'labels': ['a', 'b'], 'split': True, 'history': ['set', 'fmeasure', 'set', 'fmeasure'], 'matrices': 1, 'hi': 3},
         {'labels': ['a', 'b'], 'split': True, 'history': ['inc', 'micro', 'inc', 'micro'], 'matrices': 1, 'hi': 3},
         {'labels': ['a', 'b'], 'split': True, 'history': ['read', 'macro', 'inc', 'macro'], 'matrices': 1, 'hi': 3},
         {'labels': ['a', 'b'], 'split': True, 'history': ['inc', 'micro', 'inc', 'micro'], 'matrices': 2, 'hi': 3},
         {'fn': 'rows', 'hi': 5}, {'fn': 'late', 'hi': 5}, {'fn': 'produced', 'n': 3}]
THOROUGH = [{'labels': [1, None], 'free': FREE, 'steps': 5, 'matrices': 1, 'hi': 9},
            {'labels': ['p', 'n'], 'free': FREE, 'steps': 4, 'matrices': 2, 'hi': 9},
            {'labels': ['a', 'b', 'c'], 'free': FREE, 'steps': 4, 'matrices': 1, 'hi': 3},
            {'labels': ['a', 'b'], 'split': True, 'history': ['inc', 'set', 'micro', 'inc', 'micro', 'classes'], 'matrices': 1, 'hi': 5},
            {'labels': ['a', 'b'], 'split': True, 'history': ['inc', 'macro', 'set', 'macro', 'inc', 'macro'], 'matrices': 1, 'hi': 5},
            {'labels': ['a', 'b', 'c'], 'split': True, 'history': ['inc', 'precision', 'inc', 'recall'], 'matrices': 1, 'hi': 5},
            {'fn': 'produced', 'n': 5}]


QUERIES = ('precision', 'recall', 'fmeasure', 'micro', 'macro', 'classes')


def step(m, model, op, x, y, v):
    """One operation on the matrix and on the model, which maps each cell to its value and to whether it was used."""
    if op == 'set':
        m[x][y] = v
    elif op == 'inc':
        m[x][y] += v
    elif op == 'read':
        got = m[x][y]
        for k in model:
            if x == k[0] and y == k[1]:
                sym.check(got == model[k][0], 'read value')
                model[k][1] = True
        return
    elif op == 'classes':
        return classes(m, model)
    else:
        return query(m, model, op, x)
    for k in model:
        if x == k[0] and y == k[1]:
            model[k][0] = v + (model[k][0] if op == 'inc' else 0)
            model[k][1] = True


def used(model, label):
    out = False
    for k in model:
        if (k[0] == label or k[1] == label) and model[k][1]:
            out = True
    return out


def classes(m, model):
    got = m.classes()
    size = 0
    for l in sym.param['labels']:
        u = used(model, l)
        sym.check((l in got) == u, 'class set')
        if u:
            size += 1
    sym.check(len(got) == size, 'class set size')


def total(model, side, label):
    t = 0
    for k in model:
        if k[side] == label:
            t += model[k][0]
    return t


def ratio(got, num, den, msg):
    if num == 0:
        sym.check(got == 0, msg)
    else:
        sym.check(sym.eq(got, Decimal(num) / den), msg)


def query(m, model, op, label):
    import segeval
    labels = sym.param['labels']
    if op == 'micro':
        diag = cells = 0
        for k in model:
            cells += model[k][0]
            if k[0] == k[1]:
                diag += model[k][0]
        ratio(segeval.precision(m), diag, cells, 'micro precision')
        ratio(segeval.recall(m), diag, cells, 'micro recall')
    elif op == 'macro':
        n = 0
        values = 0
        for l in labels:
            if used(model, l):
                n += 1
                if model[(l, l)][0] > 0:
                    values += Decimal(model[(l, l)][0]) / total(model, 0, l)
        if n > 0:
            got = segeval.precision(m, version=segeval.Average.macro)
            sym.check(sym.eq(got, values / n), 'macro precision')
    else:
        for l in labels:
            if label == l:
                d, row, col = model[(l, l)][0], total(model, 0, l), total(model, 1, l)
                if op == 'precision':
                    ratio(segeval.precision(m, l), d, row, 'precision')
                elif op == 'recall':
                    ratio(segeval.recall(m, l), d, col, 'recall')
                elif d == 0:
                    sym.check(segeval.fmeasure(m, l) == 0, 'fmeasure')
                else:
                    p, r = Decimal(d) / row, Decimal(d) / col
                    sym.check(sym.eq(segeval.fmeasure(m, l), 2 * p * r / (p + r)), 'fmeasure')


def main():
    import segeval
    p = sym.param
    count = p['matrices']
    matrices = [segeval.ConfusionMatrix() for _ in range(count)]
    models = [dict(((x, y), [0, False]) for x in p['labels'] for y in p['labels']) for _ in range(count)]
    history = p.get('history')
    for i in range(p['steps'] if history is None else len(history)):
        op = sym.choice('op%d' % i, p['free']) if history is None else history[i]
        which = sym.choice('m%d' % i, list(range(count)))
        x = sym.choice('p%d' % i, p['labels']) if op not in ('micro', 'macro', 'classes') else None
        y = sym.choice('a%d' % i, p['labels']) if op not in QUERIES else None
        v = sym.int('v%d' % i, 0, p['hi']) if op not in QUERIES else None
        if p.get('split'):
            which, x, y = sym.fork(which), sym.fork(x), sym.fork(y)
        for w in range(count):
            for o in (p['free'] if history is None else [op]):
                if which == w and op == o:
                    step(matrices[w], models[w], o, x, y, v)
    queries = False
    for o in history or []:
        if o in ('precision', 'recall', 'fmeasure'):
            queries = True
    for m, model in zip(matrices, models):
        if not queries:
            # looking up precision reads cells, too
            classes(m, model)
        for k in model:
            sym.check(m[k[0]][k[1]] == model[k][0], 'stored value')
            sym.check(m[k[0]][k[1]] == model[k][0], 'stored value again')
        for l in p['labels']:
            sym.check(l in m.classes(), 'class set after reading all cells')
        sym.check(len(m.classes()) == len(p['labels']), 'class set size after reading all cells')
        sym.observe('cell', m[p['labels'][0]][p['labels'][-1]])


def rows():
    """Rows kept by the caller write to their matrix."""
    import segeval
    hi = sym.param['hi']
    m, other = segeval.ConfusionMatrix(), segeval.ConfusionMatrix()
    row = m['a']
    v, w = sym.int('v', 0, hi), sym.int('w', 0, hi)
    if sym.bool('query first'):
        m.classes()
    row['b'] = v
    sym.check(m['a']['b'] == v, 'kept row')
    sym.check('b' in m.classes() and 'a' in m.classes(), 'class set')
    row['c'] += w
    sym.check(m['a']['c'] == w and m['a']['b'] == v, 'kept row')
    sym.check(sorted(m.classes()) == ['a', 'b', 'c'], 'class set')
    sym.check(len(other.classes()) == 0 and other['a']['b'] == 0, 'other matrix')
    sym.check(sorted(other.classes()) == ['a', 'b'], 'class set of the other')
    third = segeval.ConfusionMatrix()
    sym.check(len(third.classes()) == 0, 'a new matrix has no classes')
    failed = False
    try:
        m['a'] = {}
    except AttributeError:
        failed = True
    sym.check(failed, 'rows cannot be replaced')
    sym.check(m['a']['b'] == v, 'kept after a refused assignment')


def late():
    """Statistics follow cells changed after they were computed, with values and labels as they come."""
    import segeval
    hi = sym.param['hi']
    m = segeval.ConfusionMatrix()
    tp, fp, fn = sym.int('tp', 1, hi), sym.int('fp', 0, hi), sym.int('fn', 0, hi)
    m['p']['p'] = tp
    sym.check(segeval.precision(m) == 1 and segeval.recall(m) == 1 and segeval.fmeasure(m) == 1, 'only hits')
    m[sym.fresh('p')][sym.fresh('n')] += fp
    ratio(segeval.precision(m, 'p'), tp, tp + fp, 'after false positives')
    sym.check(segeval.recall(m, 'p') == 1, 'after false positives')
    m[sym.fresh('n')]['p'] += fn
    ratio(segeval.recall(m, 'p'), tp, tp + fn, 'after false negatives')
    ratio(segeval.precision(m, 'p'), tp, tp + fp, 'after false negatives')
    m['p']['n'] = 0
    sym.check(segeval.precision(m, 'p') == 1, 'after taking them back')
    m['p'][None] += fp
    ratio(segeval.precision(m, 'p'), tp, tp + fp, 'missing class')
    sym.check(len(m.classes()) == 3, 'class set')


def produced():
    """Matrices of comparisons are as independent."""
    import segeval
    n = sym.param['n']
    a, b = lib.bits('a', n), lib.bits('b', n)
    x = segeval.boundary_confusion_matrix(lib.masses(a), lib.masses(b))
    y = segeval.boundary_confusion_matrix(lib.masses(b), lib.masses(a))
    was = [x[1][1], x[1][None], x[None][1]]
    y[1][1] += 7
    y[2][1] += 1
    sym.check(x[1][1] == was[0] and x[1][None] == was[1] and x[None][1] == was[2] and x[2][1] == 0, 'other matrix')
    z = segeval.boundary_confusion_matrix(lib.masses(a), lib.masses(b))
    sym.check(z[1][1] == was[0] and z[1][None] == was[1] and z[None][1] == was[2] and z[2][1] == 0, 'new matrix')
    for l in z.classes():
        sym.check(l is None or l == 1 or l == 2, 'class set')
