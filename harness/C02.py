"""Precision, recall and F-measure equal their definitions in [0, 1]."""
import sym
import lib
from decimal import Decimal

QUICK = [{'classes': ['p', 'n'], 'kind': 'int', 'hi': 30}, {'classes': [1, None], 'kind': 'dec', 'hi': 30},
         {'classes': ['a', 'b', 'c'], 'kind': 'int', 'hi': 3}, {'classes': ['x'], 'kind': 'dec', 'hi': 9},
         {'fn': 'fmeasures', 'classes': ['p', 'n'], 'kind': 'dec', 'hi': 1000, 'betas': [1, 2, 0.5]},
         {'fn': 'fmeasures', 'classes': [1, None], 'kind': 'dec', 'hi': 20, 'betas': [1]},
         {'fn': 'between', 'classes': ['p', 'n'], 'kind': 'int', 'hi': 6, 'betas': [1, 2, 0.5]},
         {'fn': 'fmacro', 'classes': ['p', 'n'], 'kind': 'int', 'hi': 9},
         {'classes': ['a', 'b', 'c', 'd', 'e', 'f'], 'kind': 'int', 'hi': 9, 'some': 7},
         {'fn': 'fmacro', 'classes': ['a', 'b', 'c', 'd', 'e', 'f'], 'kind': 'int', 'hi': 9, 'some': 3},
         {'fn': 'fmeasures', 'classes': ['p', 'n'], 'kind': 'dec', 'hi': 9, 'betas': [0.25, 3.125, '1.75', 0.1]},
         {'fn': 'mappings', 'hi': 9}, {'fn': 'names', 'hi': 9}]
THOROUGH = [{'classes': ['a', 'b', 'c'], 'kind': 'int', 'hi': 9}, {'classes': ['p', 'n'], 'kind': 'int', 'hi': 1000},
            {'fn': 'fmeasures', 'classes': ['a', 'b', 'c'], 'kind': 'dec', 'hi': 1000, 'betas': [1, 2, 0.5]},
            {'fn': 'between', 'classes': ['a', 'b', 'c'], 'kind': 'int', 'hi': 6, 'betas': [1]}]


def cell(name):
    p = sym.param
    if p.get('kind') == 'dec':
        return sym.dec(name, 0, p['hi'])
    return sym.int(name, 0, p['hi'])


def build(prefix=''):
    """A matrix and its cells."""
    import segeval
    classes = sym.param['classes']
    m = segeval.ConfusionMatrix()
    cells = {}
    for i in range(len(classes)):
        for j in range(len(classes)):
            some = sym.param.get('some')
            # only every `some`th cell is an input
            v = cell('%sm%d%d' % (prefix, i, j)) if not some or (i * len(classes) + j) % some == 0 else (i * 3 + j) % 4
            cells[(classes[i], classes[j])] = v
            m[classes[i]][classes[j]] = v
    return m, cells


def totals(cells, c):
    """Diagonal, row and column total."""
    row = col = 0
    for k in cells:
        if k[0] == c:
            row += cells[k]
        if k[1] == c:
            col += cells[k]
    return cells[(c, c)], row, col


def ratio(got, num, den, msg):
    """got is num / den, 0 if num is."""
    if num == 0:
        sym.check(got == 0, msg)
    else:
        sym.check(den > 0, msg)
        sym.check(sym.eq(got, Decimal(num) / den), msg)


def main():
    import segeval
    m, cells = build()
    classes = sym.param['classes']
    diag = rows = cols = 0
    for c in classes:
        d, row, col = totals(cells, c)
        diag += d
        rows += row
        cols += col
        if c is not None:
            ratio(segeval.precision(m, c), d, row, 'precision')
            ratio(segeval.recall(m, c), d, col, 'recall')
        sym.check(sym.le(d, row) and sym.le(d, col) and sym.le(0, d), 'within [0, 1]')
    ratio(segeval.precision(m), diag, rows, 'micro precision')
    ratio(segeval.recall(m), diag, cols, 'micro recall')
    ratio(segeval.precision(m, version=segeval.Average.micro), diag, rows, 'micro precision')
    if None not in classes:
        p = r = 0
        for c in classes:
            p += segeval.precision(m, c)
            r += segeval.recall(m, classification=c)
        n = len(classes)
        sym.check(sym.eq(segeval.precision(m, version=segeval.Average.macro), p / n), 'macro precision')
        sym.check(sym.eq(segeval.recall(m, version=segeval.Average.macro), r / n), 'macro recall')
    sym.observe('precision', segeval.precision(m))
    sym.observe('recall', segeval.recall(m))


def fmeasures():
    import segeval
    m, cells = build()
    for beta in sym.param['betas']:
        b2 = Decimal(str(beta)) * Decimal(str(beta))
        for c in sym.param['classes']:
            if c is None:
                continue
            d, row, col = totals(cells, c)
            f = segeval.fmeasure(m, c, beta=beta)
            if d == 0:
                sym.check(f == 0, 'zero')
            else:
                p, r = segeval.precision(m, c), segeval.recall(m, c)
                want = (1 + b2) * p * r / (b2 * p + r)
                sym.check(sym.eq(f, want), 'definition')
                # in terms of the counts
                sym.check(sym.eq(f * (b2 * col + row), (1 + b2) * d), 'counts')
            if beta == 1:
                sym.check(sym.eq(segeval.fmeasure(m, c), f), 'default beta')


def between():
    """F lies between precision and recall."""
    import segeval
    m, cells = build()
    c = sym.param['classes'][0]
    for beta in sym.param['betas']:
        p, r = segeval.precision(m, c), segeval.recall(m, c)
        f = segeval.fmeasure(m, c, beta=beta)
        sym.check(sym.le(min(p, r), f) and sym.le(f, max(p, r)), 'between')
        sym.check(sym.le(0, f) and sym.le(f, 1), 'range')


def fmacro():
    import segeval
    m, cells = build()
    classes = sym.param['classes']
    total = 0
    num = den = 0
    for c in classes:
        total += segeval.fmeasure(m, c)
        p, r = segeval.precision(m, c), segeval.recall(m, c)
        num += 2 * p * r
        den += p + r
    sym.check(sym.eq(segeval.fmeasure(m, version=segeval.Average.macro), total / len(classes)), 'macro')
    micro = segeval.fmeasure(m)
    if num == 0:
        sym.check(micro == 0, 'micro')
    else:
        sym.check(sym.eq(micro, num / den), 'micro')


def mappings():
    """A mapping of matrices gives one value per label."""
    import segeval
    hi = sym.param['hi']
    matrices = {}
    for label in ('i,c,d', 'i,c,e'):
        m = segeval.ConfusionMatrix()
        for x in (1, 2):
            for y in (1, 2):
                m[x][y] = sym.int('%s%d%d' % (label[-1], x, y), 0, hi)
        matrices[label] = m
    for f in (segeval.precision, segeval.recall, segeval.fmeasure):
        for kwargs in ({}, {'version': segeval.Average.macro}, {'classification': 2}):
            values = f(matrices, **kwargs)
            sym.check(sorted(values.keys()) == ['i,c,d', 'i,c,e'], 'labels')
            for label in matrices:
                sym.check(sym.eq(values[label], f(matrices[label], **kwargs)), 'value')


def names():
    """Class labels that are equal but different objects, rows and columns in any order, missing cells."""
    import segeval
    hi = sym.param['hi']
    m = segeval.ConfusionMatrix()
    a, b, c = (sym.int(x, 0, hi) for x in 'abc')
    m[sym.fresh('neg')][sym.fresh('pos')] = b
    m[sym.fresh('pos')][sym.fresh('pos')] += a
    m[sym.fresh('pos')][sym.fresh('other')] += c
    ratio(segeval.precision(m, sym.fresh('pos')), a, a + c, 'precision')
    ratio(segeval.recall(m, sym.fresh('pos')), a, a + b, 'recall')
    for x in ('neg', 'other', 'unknown'):
        sym.check(segeval.precision(m, x) == 0 and segeval.recall(m, x) == 0 and segeval.fmeasure(m, x) == 0, x)
    ratio(segeval.precision(m), a, a + b + c, 'micro')
