"""Summaries report population mean, deviation, variance and error."""
import sym
from decimal import Decimal

QUICK = [{'n': 1, 'kind': 'dec'}, {'n': 2, 'kind': 'dec'}, {'n': 3, 'kind': 'dec'}, {'n': 4, 'kind': 'dec'},
         {'n': 2, 'kind': 'int'}, {'n': 3, 'kind': 'int'}, {'n': 3, 'kind': 'mixed'}, {'n': 5, 'kind': 'unit'},
         {'fn': 'metrics', 'n': 3}, {'fn': 'many', 'n': 60, 'free': [7, 40]}]
THOROUGH = [{'n': 5, 'kind': 'dec'}, {'n': 6, 'kind': 'dec'}, {'n': 5, 'kind': 'int'}, {'n': 8, 'kind': 'unit'},
            {'fn': 'metrics', 'n': 4}, {'fn': 'many', 'n': 200, 'free': [0, 100, 199]}]


def value(kind, i):
    if kind == 'int' or kind == 'mixed' and i % 2:
        return sym.int('x%d' % i, -4, 9)
    if kind == 'unit':
        return sym.dec('x%d' % i, 0, 1)
    return sym.dec('x%d' % i, -1000, 1000)


def main():
    from segeval import summarize
    n = sym.param['n']
    values = [value(sym.param['kind'], i) for i in range(n)]
    d = {}
    for i in range(n):
        d['item%d,a,b' % i] = values[i]
    facts(summarize(d), values)
    back = {}
    for i in range(n - 1, -1, -1):
        back['item%d,a,b' % i] = values[i]
    for x, y in zip(summarize(d), summarize(back)):
        sym.check(sym.eq(x, y), 'order of the values')
    sym.check(d == dict(('item%d,a,b' % i, values[i]) for i in range(n)), 'the mapping is not changed')


def many():
    """Many values of which a few are any."""
    from segeval import summarize
    p = sym.param
    values = [sym.dec('x%d' % i, -1000, 1000) if i in p['free'] else Decimal(i % 7) / 4 for i in range(p['n'])]
    facts(summarize(dict(('item%d,a,b' % i, values[i]) for i in range(p['n']))), values)


def facts(result, values):
    n = len(values)
    sym.check(len(result) == 5, 'five numbers')
    mean, std, var, err, count = result
    total = Decimal(0)
    for x in values:
        total += x
    sym.check(count == n, 'count')
    sym.check(sym.eq(mean * n, total), 'mean')
    sq = Decimal(0)
    for x in values:
        sq += (x - mean) * (x - mean)
    sym.check(sym.eq(var * n, sq), 'variance')
    sym.check(sym.eq(std * std, var), 'deviation')
    sym.check(std >= 0, 'deviation sign')
    sym.check(sym.eq(err * err * n, var), 'error')
    sym.check(err >= 0, 'error sign')
    sym.check(var >= 0, 'variance sign')
    sym.check(sym.le(min(values), mean) and sym.le(mean, max(values)), 'mean between the extremes')
    same = True
    for x in values:
        if x != values[0]:
            same = False
    if same:
        sym.check(var == 0 and std == 0 and err == 0, 'no variance for equal values')
    else:
        sym.check(var > 0, 'variance of different values')
    sym.observe('mean', mean)
    sym.observe('variance', var)


def metrics():
    """Summaries of what the metrics return on a dataset."""
    import segeval
    import lib
    n = sym.param['n']
    items = {'i': dict((c, lib.masses(lib.bits(c, n))) for c in ('c1', 'c2', 'c3'))}
    dataset = segeval.Dataset(items)
    for f in (segeval.boundary_similarity, segeval.segmentation_similarity, segeval.pk):
        pairs = f(dataset)
        mean, std, var, err, count = segeval.summarize(pairs)
        total = Decimal(0)
        for k in pairs:
            total += pairs[k]
        sym.check(count == len(pairs), 'count')
        sym.check(sym.eq(mean * count, total), 'mean')
        sq = Decimal(0)
        for k in pairs:
            sq += (pairs[k] - mean) * (pairs[k] - mean)
        sym.check(sym.eq(var * count, sq), 'variance')
        sym.observe('mean', mean)
