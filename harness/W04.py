"""Edge-corrected WindowDiff weighs boundaries near the ends correctly."""
import sym
import lib
from decimal import Decimal

QUICK = [{'n': 4, 'sizes': [1, 2, 3]}, {'n': 3, 'sizes': [4, 5, 6]}, {'n': 5, 'sizes': [2]}, {'n': 6, 'sizes': [3]},
         {'n': 0, 'sizes': [1, 2, 3]}, {'n': 1, 'sizes': [1, 2, 3]},
         {'fn': 'one_segment', 'n': 6, 'sizes': [2]}, {'fn': 'one_segment', 'n': 5, 'sizes': [3]},
         {'fn': 'labels', 'units': 3, 'labels': [0, 1, 2], 'sizes': [1, 2]},
         {'fn': 'labels', 'units': 4, 'labels': [0, 1], 'sizes': [1, 3]},
         {'fn': 'labels', 'units': 3, 'labels': ['x', ''], 'sizes': [1, 2, 4]},
         {'fn': 'labels', 'units': 3, 'labels': [None, False, 2], 'sizes': [2]},
         {'fn': 'single', 'n': 6, 'sizes': [1, 2, 4]}, {'fn': 'single', 'n': 8, 'sizes': [3]},
         {'fn': 'sparse', 'n': 14, 'free': [0, 1, 12, 13], 'size': 4},
         {'fn': 'defaults', 'n': 4}, {'fn': 'dataset', 'n': 3}]
THOROUGH = [{'n': 6, 'sizes': [1, 2, 3, 4, 5, 6, 7]}, {'n': 7, 'sizes': [3]}, {'n': 8, 'sizes': [2]},
            {'fn': 'labels', 'units': 4, 'labels': [0, 1, 2], 'sizes': [1, 2, 3]},
            {'fn': 'single', 'n': 9, 'sizes': [1, 2, 3, 4, 5]}, {'fn': 'single', 'n': 12, 'sizes': [3]},
            {'fn': 'sparse', 'n': 24, 'free': [0, 1, 12, 22, 23], 'size': 5},
            {'fn': 'defaults', 'n': 5}, {'fn': 'dataset', 'n': 4}]


def windows(a, b, k):
    """Windows with different numbers of boundaries after the text is extended, and the normalisation."""
    n = len(a) + 1
    a = [False] * (k - 1) + [True] + a + [True] + [False] * (k - 1)
    b = [False] * (k - 1) + [True] + b + [True] + [False] * (k - 1)
    return lib.count([lib.count(a[i:i + k]) != lib.count(b[i:i + k]) for i in range(n + k)]), n + k + 1


def fixed(x, y, **kwargs):
    import segeval
    return segeval.window_diff(x, y, lamprier_et_al_2007_fix=True, **kwargs)


def verify(x, y, a, b, k, name, **kwargs):
    num, den = windows(a, b, k)
    parts = fixed(x, y, window_size=k, return_parts=True, **kwargs)
    sym.check(parts == (num, den), 'windows')
    sym.check(0 <= num and num <= den, 'range')
    got = fixed(x, y, window_size=k, **kwargs)
    sym.check(sym.eq(got, Decimal(num) / den), 'fraction')
    sym.check(sym.eq(fixed(x, y, window_size=k, one_minus=True, **kwargs), 1 - got), 'complement')
    sym.observe(name, got)


def main():
    p = sym.param
    a, b = lib.bits('a', p['n']), lib.bits('b', p['n'])
    x, y = lib.masses(a), lib.masses(b)
    for k in p['sizes']:
        verify(x, y, a, b, k, 'k%d' % k)
        sym.check(fixed(x, y, window_size=k, return_parts=True) == fixed(y, x, window_size=k, return_parts=True),
                  'symmetric')
        sym.check(fixed(x, tuple(list(x)), window_size=k) == 0, 'identical')


def one_segment():
    p = sym.param
    n = p['n']
    a = lib.bits('a', n)
    for k in p['sizes']:
        verify(lib.masses(a), (n + 1,), a, [False] * n, k, 'none %d' % k)
        verify((1,) * (n + 1), lib.masses(a), [True] * n, a, k, 'all %d' % k)


def labels():
    """Any labels, also those that could be taken for units outside the text."""
    p = sym.param
    n = p['units']
    a = [sym.choice('a%d' % i, p['labels']) for i in range(n)]
    b = [sym.choice('b%d' % i, p['labels']) for i in range(n)]
    ga, gb = ([x[i] != x[i + 1] for i in range(n - 1)] for x in (a, b))
    for k in p['sizes']:
        verify(a, tuple(b), ga, gb, k, 'k%d' % k, boundary_format='position')
        if lib.count([ga[i] != gb[i] for i in range(n - 1)]) == 0:
            sym.check(fixed(a, b, window_size=k, boundary_format='position') == 0, 'identical')


def single():
    """A boundary only one side has counts the same anywhere."""
    n = sym.param['n']
    g = sym.int('g', 0, n - 1)
    bs = [g == i for i in range(n)]
    for k in sym.param['sizes']:
        want = (k, n + 1 + k + 1)
        sym.check(fixed(lib.masses(bs), (n + 1,), window_size=k, return_parts=True) == want, 'missed')
        sym.check(fixed((n + 1,), lib.masses(bs), window_size=k, return_parts=True) == want, 'added')


def sparse():
    p = sym.param
    a, b = lib.bits('a', p['n'], p['free']), lib.bits('b', p['n'], p['free'])
    verify(lib.masses(a), lib.masses(b), a, b, p['size'], 'value')


def defaults():
    """The default window size and the plain metric with the correction off."""
    import segeval
    n = sym.param['n']
    a, b = lib.bits('a', n), lib.bits('b', n)
    x, y = lib.masses(a), lib.masses(b)
    got = fixed(x, y, return_parts=True)
    size = segeval.compute_window_size(y)
    for k in range(2, n // 2 + 2):
        if size == k:
            num, den = windows(a, b, k)
            sym.check(got == (num, den), 'default window')
    off = segeval.window_diff(x, y, lamprier_et_al_2007_fix=False, return_parts=True)
    sym.check(segeval.window_diff(x, y, return_parts=True) == off, 'off by default')
    again = fixed(x, y, return_parts=True)
    sym.check(got == again, 'after the plain one')


def dataset():
    import segeval
    n = sym.param['n']
    bs = dict((c, lib.bits(c, n)) for c in 'cd')
    coded = dict((c, lib.masses(bs[c])) for c in bs)
    got = segeval.window_diff(segeval.Dataset({'i': coded}), lamprier_et_al_2007_fix=True, window_size=2,
                              return_parts=True)
    sym.check(len(got) == 2, 'pairs')
    sym.check(got['i,c,d'] == windows(bs['c'], bs['d'], 2), 'pair')
    sym.check(got['i,d,c'] == windows(bs['d'], bs['c'], 2), 'pair')
