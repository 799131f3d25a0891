"""Window size is half the mean reference segment length, at least two."""
import sym
import lib
from decimal import Decimal

QUICK = [{'fn': 'sizes', 'm': 1, 'hi': 100}, {'fn': 'sizes', 'm': 2, 'hi': 40}, {'fn': 'sizes', 'm': 3, 'hi': 12},
         {'fn': 'sizes', 'm': 2, 'hi': 5000},
         {'fn': 'rounding', 'm': 1, 'hi': 40}, {'fn': 'rounding', 'm': 2, 'hi': 9},
         {'fn': 'gaps', 'n': 9}, {'fn': 'label_runs', 'units': 4, 'labels': [0, 1, 2]},
         {'fn': 'label_runs', 'units': 4, 'labels': ['x', 'y']},
         {'fn': 'dataset', 'shape': [[1, 2]], 'hi': 12}, {'fn': 'dataset', 'shape': [[1, 1], [1]], 'hi': 12},
         {'fn': 'dataset', 'shape': [[2], [1, 1]], 'hi': 9},
         {'fn': 'positions', 'sizes': [[2, 4], [5]]}, {'fn': 'positions', 'sizes': [[7], [0]]},
         {'fn': 'defaults', 'n': 4, 'metric': 'pk'}, {'fn': 'defaults', 'n': 4, 'metric': 'window_diff'},
         {'fn': 'defaults', 'n': 4, 'metric': 'pk', 'round': 'ceil'},
         {'fn': 'defaults', 'n': 4, 'metric': 'window_diff', 'round': 'floor'},
         {'fn': 'wide', 'metric': 'pk', 'a': [3, 8, 11], 'b': [2, 5], 'n': 15},
         {'fn': 'wide', 'metric': 'window_diff', 'a': [3, 8], 'b': [2, 5], 'n': 12},
         {'fn': 'pairs', 'n': 3, 'metric': 'pk'}, {'fn': 'pairs', 'n': 3, 'metric': 'window_diff'}]
THOROUGH = [{'fn': 'sizes', 'm': 2, 'hi': 200}, {'fn': 'sizes', 'm': 4, 'hi': 9}, {'fn': 'rounding', 'm': 3, 'hi': 12},
            {'fn': 'gaps', 'n': 14}, {'fn': 'label_runs', 'units': 6, 'labels': [0, 1, 2]},
            {'fn': 'dataset', 'shape': [[2, 2], [1, 1]], 'hi': 6}, {'fn': 'dataset', 'shape': [[1], [1], [1, 2]], 'hi': 9},
            {'fn': 'positions', 'sizes': [[4, 4], [5], [3]]},
            {'fn': 'defaults', 'n': 6, 'metric': 'pk'}, {'fn': 'defaults', 'n': 6, 'metric': 'window_diff'},
            {'fn': 'defaults', 'n': 6, 'metric': 'pk', 'round': 'ceil'},
            {'fn': 'wide', 'metric': 'window_diff', 'a': [3, 8, 11], 'b': [2, 5], 'n': 15},
            {'fn': 'wide', 'metric': 'pk', 'a': [3, 8, 11, 20], 'b': [2, 5, 6, 19], 'n': 23},
            {'fn': 'pairs', 'n': 5, 'metric': 'pk'}, {'fn': 'pairs', 'n': 4, 'metric': 'window_diff'}]


def size_of(total, count, how='round'):
    """Half of total / count as an integer, at least 2."""
    d = 2 * count
    q = total // d
    r = total - q * d
    if how == 'ceil':
        q = q + 1 if r > 0 else q
    elif how == 'round':
        if 2 * r > d or (2 * r == d and q % 2 == 1):
            q = q + 1
    return q if q > 2 else 2


def down(x):
    return int(x)


def up(x):
    return -int(-x) if int(x) == x else int(x) + 1


def options(how):
    return {} if how == 'round' else {'fnc_round': up if how == 'ceil' else down}


def sizes():
    import segeval
    p = sym.param
    x = lib.mass_list('x', p['m'], p['hi'])
    got = segeval.compute_window_size(x)
    sym.check(got == size_of(sum(x), p['m']), 'window size')
    sym.check(got >= 2, 'at least two')
    sym.check(segeval.compute_window_size(list(x)) == got, 'of a list')
    sym.check(segeval.compute_window_size(x, fnc_round=round) == got, 'default rounding')
    sym.observe('size', got)


def rounding():
    import segeval
    p = sym.param
    x = lib.mass_list('x', p['m'], p['hi'])
    for how in ('ceil', 'floor'):
        got = segeval.compute_window_size(x, **options(how))
        sym.check(got == size_of(sum(x), p['m'], how), how)
    sym.check(segeval.compute_window_size(x, fnc_round=lambda v: 7) == 7, 'constant')
    sym.check(segeval.compute_window_size(x, fnc_round=lambda v: 0) == 2, 'at least two')
    sym.check(segeval.compute_window_size(x) == size_of(sum(x), p['m']), 'default afterwards')


def gaps():
    """Every segmentation of a text, as masses and as labels."""
    import segeval
    bs = lib.bits('a', sym.param['n'])
    for how in ('round', 'ceil', 'floor'):
        want = size_of(sym.param['n'] + 1, lib.count(bs) + 1, how)
        sym.check(segeval.compute_window_size(lib.masses(bs), **options(how)) == want, 'masses')
        got = segeval.compute_window_size(lib.positions(bs), boundary_format=segeval.BoundaryFormat.position,
                                          **options(how))
        sym.check(got == want, 'positions')
    sym.observe('size', got)


def label_runs():
    import segeval
    p = sym.param
    n = p['units']
    x = [sym.choice('x%d' % i, p['labels']) for i in range(n)]
    want = size_of(n, lib.count([x[i] != x[i + 1] for i in range(n - 1)]) + 1)
    sym.check(segeval.compute_window_size(x, boundary_format='position') == want, 'runs of labels')


def dataset():
    """The mean is over all segments, not over the means of coders or items."""
    import segeval
    p = sym.param
    items = {}
    total = count = 0
    i = 0
    for item in p['shape']:
        coders = {}
        for m in item:
            x = lib.mass_list('x%d_' % i, m, p['hi'])
            total += sum(x)
            count += m
            coders['c%d' % i] = x
            i += 1
        items['item%d' % i] = coders
    want = size_of(total, count)
    sym.check(segeval.compute_window_size(segeval.Dataset(items)) == want, 'dataset')
    sym.check(segeval.compute_window_size(items) == want, 'dictionary')
    sym.check(segeval.compute_window_size(items['item1' if 'item1' in items else 'item%d' % len(p['shape'][0])]) >= 2,
              'one item')


def positions():
    import segeval
    items, masses = {}, {}
    total = count = i = 0
    for item in sym.param['sizes']:
        coders, other = {}, {}
        for n in item:
            bs = lib.bits('b%d_' % i, n)
            total += n + 1
            count += lib.count(bs) + 1
            coders['c%d' % i] = lib.positions(bs)
            other['c%d' % i] = lib.masses(bs)
            i += 1
        items['i%d' % i] = coders
        masses['i%d' % i] = other
    want = size_of(total, count)
    data = segeval.Dataset(items, boundary_format=segeval.BoundaryFormat.position)
    sym.check(segeval.compute_window_size(data, boundary_format='position') == want, 'position dataset')
    sym.check(segeval.compute_window_size(segeval.Dataset(masses)) == want, 'mass dataset')


def same_as(f, args, size, hi, kwargs):
    """f without a window size behaves as with the one expected."""
    got = f(*args, **kwargs)
    parts = f(*args, return_parts=True, **kwargs)
    sym.check(2 <= size and size <= hi, 'within the range looked at')
    for k in range(2, hi + 1):
        if size == k:
            sym.check(parts == f(*args, return_parts=True, window_size=k, **kwargs), 'windows')
            sym.check(sym.eq(got, f(*args, window_size=k, **kwargs)), 'value')


def defaults():
    import segeval
    p = sym.param
    n = p['n']
    how = p.get('round', 'round')
    f = getattr(segeval, p['metric'])
    a, b = lib.bits('a', n), lib.bits('b', n)
    size = size_of(n + 1, lib.count(b) + 1, how)
    hi = (n + 2) // 2
    same_as(f, (lib.masses(a), lib.masses(b)), size, hi, options(how))
    same_as(f, (lib.positions(a), lib.positions(b)), size, hi, dict(options(how), boundary_format='position'))
    same_as(f, (lib.nltk(a), lib.nltk(b)), size, hi, dict(options(how), boundary_format='nltk')) if n > 0 else None


def wide():
    """Long segments, where sizes of hypothesis and reference differ."""
    import segeval
    f = getattr(segeval, sym.param['metric'])
    p = sym.param
    n = p['n']
    a, b = lib.bits('a', n, p['a']), lib.bits('b', n, p['b'])
    same_as(f, (lib.masses(a), lib.masses(b)), size_of(n + 1, lib.count(b) + 1), (n + 1) // 2, {})
    same_as(f, (lib.masses(b), lib.masses(a)), size_of(n + 1, lib.count(a) + 1), (n + 1) // 2, {})


def pairs():
    """In a dataset the reference of each pair sets the window size."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    bs = dict((c, lib.bits(c, p['n'])) for c in ('c', 'd'))
    coded = dict((c, lib.masses(bs[c])) for c in bs)
    got = f(segeval.Dataset({'i': coded}), return_parts=True)
    sym.check(sorted(got.keys()) == ['i,c,d', 'i,d,c'], 'pairs')
    for x, y in (('c', 'd'), ('d', 'c')):
        size = size_of(p['n'] + 1, lib.count(bs[y]) + 1)
        for k in range(2, (p['n'] + 2) // 2 + 1):
            if size == k:
                sym.check(got['i,%s,%s' % (x, y)] == f(coded[x], coded[y], window_size=k, return_parts=True), 'pair')
    two = f(segeval.Dataset({'i': {'c': coded['c']}}), segeval.Dataset({'i': {'d': coded['d']}}), return_parts=True)
    sym.check(two['i,c,d'] == got['i,c,d'], 'two datasets')
