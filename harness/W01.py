"""Pk equals the fraction of windows whose end points disagree."""
import sym
import lib
from decimal import Decimal

QUICK = [{'n': 5, 'sizes': [1, 2, 3, 4, 5, 6, 9]}, {'n': 7, 'sizes': [2, 4]}, {'n': 8, 'sizes': [3]},
         {'n': 0, 'sizes': [1, 2]}, {'n': 1, 'sizes': [1, 2]}, {'n': 4, 'sizes': [0]},
         {'fn': 'one_segment', 'n': 8, 'sizes': [2, 3]},
         {'fn': 'labels', 'units': 4, 'labels': [0, 1, 2], 'sizes': [1, 2]},
         {'fn': 'labels', 'units': 3, 'labels': ['x', 'y', ''], 'sizes': [1, 2, 3]},
         {'fn': 'labels', 'units': 4, 'labels': [1000, 1001], 'sizes': [1, 2, 3]},
         {'fn': 'large', 'm': 3, 'hi': 4, 'size': 2}, {'fn': 'sparse', 'n': 24, 'free': [0, 7, 8, 15, 23], 'size': 8},
         {'fn': 'sparse', 'n': 530, 'free': [300, 302], 'size': 3},
         {'fn': 'below', 'n': 4, 'sizes': [1, 2, 3, 5]}, {'fn': 'below', 'n': 6, 'sizes': [2]}]
THOROUGH = [{'n': 8, 'sizes': [1, 2, 3, 4, 5, 6, 7, 8, 9]}, {'n': 9, 'sizes': [4]}, {'n': 9, 'sizes': [2]},
            {'fn': 'labels', 'units': 5, 'labels': [0, 1, 2], 'sizes': [1, 2, 3]},
            {'fn': 'labels', 'units': 5, 'labels': ['x', 'y', '', 'xy'], 'sizes': [1, 2]},
            {'fn': 'large', 'm': 4, 'hi': 4, 'size': 3},
            {'fn': 'sparse', 'n': 60, 'free': [0, 11, 12, 13, 14, 30, 31, 59], 'size': 13},
            {'fn': 'below', 'n': 7, 'sizes': [1, 2, 4]}, {'fn': 'below', 'n': 9, 'sizes': [3]}]


def apart(bs, i, j):
    """Is there a boundary between units i and j."""
    out = False
    for g in range(i, j):
        if bs[g]:
            out = True
    return out


def windows(a, b, k):
    """Windows in which the segmentations disagree, and windows."""
    n = len(a) + 1
    return lib.count([apart(a, i, i + k) != apart(b, i, i + k) for i in range(max(n - k, 0))]), max(n - k, 0)


def verify(x, y, a, b, k, name, **kwargs):
    """Pk of two segmentations with gaps a and b."""
    import segeval
    num, den = windows(a, b, k)
    got = segeval.pk(x, y, window_size=k, **kwargs)
    sym.check(segeval.pk(x, y, window_size=k, return_parts=True, **kwargs) == (num, den), 'windows')
    if den == 0:
        sym.check(got == 0, 'no window fits')
    else:
        sym.check(sym.eq(got, Decimal(num) / den), 'fraction')
        sym.check(0 <= num and num <= den, 'range')
    sym.observe(name, got)


def main():
    import segeval
    p = sym.param
    a, b = lib.bits('a', p['n']), lib.bits('b', p['n'])
    x, y = lib.masses(a), lib.masses(b)
    for k in p['sizes']:
        verify(x, y, a, b, k, 'k%d' % k)
        one, two = segeval.pk(x, y, window_size=k, return_parts=True), segeval.pk(y, x, window_size=k,
                                                                                 return_parts=True)
        sym.check(one == two, 'symmetric')
        sym.check(segeval.pk(x, x, window_size=k) == 0, 'identical')
        sym.check(segeval.pk(x, tuple(list(x)), window_size=k) == 0, 'identical')


def one_segment():
    """Against a text without boundaries and a text of single units."""
    p = sym.param
    n = p['n']
    a = lib.bits('a', n)
    for k in p['sizes']:
        verify(lib.masses(a), (n + 1,), a, [False] * n, k, 'none %d' % k)
        verify((1,) * (n + 1), lib.masses(a), [True] * n, a, k, 'all %d' % k)


def labels():
    """Labels are compared by value; a label that comes back is the same segment for Pk's probe."""
    import segeval
    p = sym.param
    n = p['units']
    a = [sym.choice('a%d' % i, p['labels']) for i in range(n)]
    b = [sym.choice('b%d' % i, p['labels']) for i in range(n)]
    for x in (a, b):
        # consecutive segments only
        for i in range(n):
            for j in range(i + 1, n):
                if x[i] == x[j]:
                    for m in range(i + 1, j):
                        sym.assume(x[m] == x[i])
    ga, gb = ([x[i] != x[i + 1] for i in range(n - 1)] for x in (a, b))
    fa, fb = [sym.fresh(x) for x in a], [sym.fresh(x) for x in b]
    for k in p['sizes']:
        verify(a, b, ga, gb, k, 'k%d' % k, boundary_format='position')
        verify(fa, b, ga, gb, k, 'fresh hypothesis %d' % k, boundary_format='position')
        verify(a, fb, ga, gb, k, 'fresh reference %d' % k, boundary_format='position')
        sym.check(segeval.pk(a, fa, window_size=k, boundary_format='position') == 0, 'identical')
        sym.check(segeval.pk(fa, a, window_size=k, boundary_format='position') == 0, 'identical')


def large():
    """Masses as numbers."""
    import segeval
    p = sym.param
    x, y = lib.mass_list('x', p['m'], p['hi']), lib.mass_list('y', p['m'], p['hi'])
    sym.assume(sum(x) == sum(y))
    n = p['m'] * p['hi']
    k = p['size']
    cx, cy = ends(x), ends(y)
    num = 0
    for i in range(n - k):
        if i + k < sum(x) and segment(cx, i) == segment(cx, i + k) and segment(cy, i) != segment(cy, i + k) or \
                i + k < sum(x) and segment(cx, i) != segment(cx, i + k) and segment(cy, i) == segment(cy, i + k):
            num += 1
    got = segeval.pk(x, y, window_size=k, return_parts=True)
    sym.check(got[0] == num and got[1] == max(sum(x) - k, 0), 'windows')


def ends(x):
    out = []
    t = 0
    for m in x:
        t += m
        out.append(t)
    return out


def segment(cs, unit):
    s = 0
    for c in cs:
        if c <= unit:
            s += 1
    return s


def sparse():
    """Longer texts with a few possible boundaries."""
    p = sym.param
    a, b = lib.bits('a', p['n'], p['free']), lib.bits('b', p['n'], p['free'])
    verify(lib.masses(a), lib.masses(b), a, b, p['size'], 'value')


def below():
    """Never above WindowDiff."""
    import segeval
    p = sym.param
    x, y = lib.masses(lib.bits('a', p['n'])), lib.masses(lib.bits('b', p['n']))
    for k in p['sizes']:
        pk = segeval.pk(x, y, window_size=k, return_parts=True)
        wd = segeval.window_diff(x, y, window_size=k, return_parts=True)
        sym.check(pk[1] == wd[1], 'windows')
        sym.check(pk[0] <= wd[0], 'below WindowDiff')
