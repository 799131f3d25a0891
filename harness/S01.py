"""Boundary similarity equals its definition and lies in [0, 1]."""
import sym
import lib
from decimal import Decimal

QUICK = [{'n': 1, 'types': [1], 'n_t': 1}, {'n': 4, 'types': [1], 'n_t': 2}, {'n': 6, 'types': [1], 'n_t': 3},
         {'n': 5, 'types': [1], 'n_t': 5},
         {'n': 3, 'types': [1, 2], 'n_t': 2}, {'n': 2, 'types': [1, 2, 3], 'n_t': 2},
         {'n': 3, 'types': [2, 7], 'n_t': 3}, {'n': 3, 'types': [3, 4], 'n_t': 1},
         {'n': 40, 'types': [1], 'n_t': 4, 'free': [0, 1, 3, 36, 39]},
         {'n': 12, 'types': [1], 'n_t': 2, 'free': [0, 1, 4, 5, 10, 11]},
         {'fn': 'masses', 'n': 6, 'n_t': 2}, {'fn': 'masses', 'n': 0, 'n_t': 2},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 4},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6},
         {'n': 40, 'types': [2, 7], 'busy': 3, 'free': 12, 'n_t': 3},
         {'n': 10, 'types': [1, 2, 4, 6, 9], 'busy': 9, 'free': 4, 'rare': [1, 9], 'n_t': 3}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 6, 'free': 10, 'n_t': 5},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 12, 'n_t': 9},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 16, 'n_t': 3},
            {'n': 9, 'types': [1], 'n_t': 3}, {'n': 8, 'types': [1], 'n_t': 6}, {'n': 5, 'types': [1, 2], 'n_t': 3},
            {'n': 3, 'types': [1, 2, 3], 'n_t': 3}, {'n': 2, 'types': [1, 2, 3, 4], 'n_t': 2},
            {'n': 3, 'types': [1, 4, 9], 'n_t': 2}, {'n': 6, 'types': [2, 3], 'n_t': 2},
            {'n': 60, 'types': [1, 2], 'n_t': 3, 'free': [0, 2, 29, 30, 59]},
            {'fn': 'masses', 'n': 9, 'n_t': 2}]


def verify(f, a, b, pa, pb, types, n_t, kwargs):
    r = lib.reference(pa, pb, types, n_t)
    parts = f(a, b, return_parts=True, **kwargs)
    num, den = parts[0], parts[1]
    sym.check(den == r['edits'] + r['matches'], 'denominator')
    scale = n_t * r['extent']
    sym.check(sym.eq((den - num) * scale, r['weighted']), 'weighted edits')
    value = f(a, b, **kwargs)
    if den > 0:
        sym.check(sym.eq(value, Decimal(num) / den), 'ratio')
    else:
        sym.check(value == 1, 'no boundaries at all')
        sym.check(num == 0, 'no boundaries at all')
    # about the ratio of the parts, which is the value
    sym.check(sym.le(0, num) and sym.le(num, den), 'range')
    sym.check((num == den) == lib.same(pa, pb), '1 exactly for identical segmentations')
    if r['matches'] == 0 and r['subs'] == 0 and r['transp'] == 0 and r['all'] > 0:
        sym.check(num == 0, 'nothing in common')
    sym.observe('value', value)


def main():
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    kwargs = {'boundary_format': 'sets'}
    if p['n_t'] != 2:
        kwargs['n_t'] = p['n_t']
    verify(segeval.boundary_similarity, lib.strings(pa), lib.strings(pb), pa, pb, p['types'], p['n_t'], kwargs)


def masses():
    """In the default format with the default options."""
    import segeval
    p = sym.param
    pa, pb = lib.pair('', [1])
    a = lib.masses([x[1] for x in pa])
    b = lib.masses([x[1] for x in pb])
    verify(segeval.boundary_similarity, a, b, pa, pb, [1], 2, {})
