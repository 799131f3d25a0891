"""Boundary statistics agree with the segmentations and the edits."""
import sym
import lib
from decimal import Decimal

QUICK = [{'n': 5, 'types': [1], 'n_t': 2, 'weight': 'default'}, {'n': 4, 'types': [1], 'n_t': 3, 'weight': 'plain'},
         {'n': 3, 'types': [1, 2], 'n_t': 2, 'weight': 'default'}, {'n': 3, 'types': [1, 2], 'n_t': 2, 'weight': 'own'},
         {'n': 2, 'types': [1, 2, 5], 'n_t': 2, 'weight': 'plain'},
         {'n': 3, 'types': [2, 6], 'n_t': 3, 'weight': 'default'},
         {'n': 30, 'types': [1], 'n_t': 4, 'free': [0, 1, 4, 28, 29], 'weight': 'default'},
         {'n': 130, 'types': [1, 3], 'n_t': 2, 'free': [0, 70, 129], 'weight': 'default'},
         {'fn': 'masses', 'n': 5, 'n_t': 2},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 4, 'weight': 'default'},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6, 'weight': 'own'},
         {'n': 40, 'types': [2, 7], 'busy': 3, 'free': 12, 'n_t': 3, 'weight': 'plain'},
         {'n': 10, 'types': [1, 2, 4, 6, 9], 'busy': 9, 'free': 4, 'rare': [1, 9], 'n_t': 3, 'weight': 'default'},
         {'n': 10, 'types': [1, 2, 4, 6, 9], 'busy': 9, 'free': 4, 'rare': [1, 9], 'n_t': 3, 'weight': 'own'}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 6, 'free': 10, 'n_t': 5, 'weight': 'default'},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 12, 'n_t': 9, 'weight': 'plain'},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 16, 'n_t': 3, 'weight': 'own'},
            {'n': 8, 'types': [1], 'n_t': 4, 'weight': 'default'}, {'n': 4, 'types': [1, 2], 'n_t': 3, 'weight': 'own'},
            {'n': 5, 'types': [1, 2], 'n_t': 2, 'weight': 'default'},
            {'n': 3, 'types': [1, 2, 3], 'n_t': 3, 'weight': 'default'},
            {'n': 2, 'types': [1, 2, 3, 4], 'n_t': 2, 'weight': 'own'},
            {'n': 60, 'types': [1, 2], 'n_t': 3, 'free': [0, 2, 29, 30, 59], 'weight': 'plain'},
            {'fn': 'masses', 'n': 8, 'n_t': 2}]


def w_a(additions):
    n = 0
    for a in additions:
        n += 3 if a[1] == 'a' else 5
    return n


def w_s(substitutions, max_s, min_s):
    n = 0
    for s in substitutions:
        n += 7 + 2 * abs(s[0] - s[1])
    return n + 100 * max_s + 1000 * min_s


def w_t(transpositions, max_n):
    n = 0
    for t in transpositions:
        n += (t[1] - t[0]) * 11
    return n + 10000 * max_n


def members(xs, types):
    """How often each type occurs."""
    return dict((t, lib.count([x == t for x in xs])) for t in types)


def verify(a, b, pa, pb, kwargs, weight, n_t, types):
    import segeval
    n = len(pa)
    r = lib.reference(pa, pb, types, n_t)
    s = segeval.boundary_statistics(a, b, **kwargs)
    matches = members(s['matches'], types)
    misses = members(s['full_misses'], types)
    for t in types:
        sym.check(matches[t] == lib.count([pa[i][t] and pb[i][t] for i in range(n)]), 'matches')
        sym.check(misses[t] == lib.count([pa[i][t] != pb[i][t] for i in range(n)]), 'full misses')
        sym.check((t in s['boundary_types']) == (r['use'][t] or r['all'] == 0 and t == 1), 'types in use')
    sym.check(len(s['matches']) == r['matches'], 'number of matches')
    sym.check(len(s['full_misses']) == r['misses'], 'number of misses')
    sym.check(len(s['boundary_types']) == r['types'], 'number of types in use')
    sym.check(s['boundaries_all'] == r['all'], 'all boundaries')
    sym.check(s['pbs'] == n * r['types'], 'potential boundaries')
    adds, subs, transp = segeval.boundary_edit_distance(lib.strings(pa), lib.strings(pb), n_t=n_t)
    sym.check(sorted(s['additions']) == sorted(adds), 'additions')
    sym.check(sorted(s['substitutions']) == sorted(subs), 'substitutions')
    sym.check(sorted(s['transpositions']) == sorted(transp), 'transpositions')
    sym.check(len(adds) == r['adds_a'] + r['adds_b'] and len(subs) == r['subs'] and len(transp) == r['transp'],
              'number of edits')
    lo = hi = None
    for t in sorted(types):
        if r['use'][t]:
            if lo is None:
                lo = t
            hi = t
    if lo is None:
        lo = hi = 1
    if weight == 'plain':
        sym.check(s['count_edits'] == r['edits'], 'plain count')
    elif weight == 'own':
        want = 3 * r['adds_a'] + 5 * r['adds_b'] + 7 * r['subs'] + 2 * r['distance'] + 100 * hi + 1000 * lo \
            + 11 * r['spans'] + 10000 * n_t
        sym.check(s['count_edits'] == want, 'own weights')
    else:
        sym.check(sym.eq(s['count_edits'] * n_t * r['extent'], r['weighted']), 'scaled weights')
    sym.check(len(s) == 9, 'nothing else')
    sym.observe('edits', s['count_edits'])


def main():
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    kwargs = {'boundary_format': 'sets', 'n_t': p['n_t']}
    if p['weight'] == 'plain':
        kwargs['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    elif p['weight'] == 'own':
        kwargs['weight'] = (w_a, w_s, w_t)
    verify(lib.strings(pa), lib.strings(pb), pa, pb, kwargs, p['weight'], p['n_t'], p['types'])


def masses():
    p = sym.param
    pa, pb = lib.pair('', [1])
    verify(lib.masses([x[1] for x in pa]), lib.masses([x[1] for x in pb]), pa, pb, {}, 'default', 2, [1])
