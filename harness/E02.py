"""Near misses are exactly the admissible transpositions, shortest first."""
import sym
import lib

QUICK = [{'n': 7, 'types': [1], 'n_t': 3},
         {'n': 6, 'types': [1], 'n_t': 6},
         {'n': 4, 'types': [1, 2], 'n_t': 2},
         {'n': 3, 'types': [1, 2], 'n_t': 3},
         {'n': 2, 'types': [1, 2, 3], 'n_t': 2, 'cost': 2},
         {'n': 4, 'types': [1, 2], 'n_t': 1}, {'n': 2, 'types': [1, 2, 3, 4], 'n_t': 2, 'crowded': True},
         {'n': 40, 'types': [1], 'n_t': 12, 'free': [0, 3, 11, 12, 20, 39]},
         {'n': 12, 'types': [1], 'n_t': 2, 'free': [0, 1, 4, 5, 10, 11]},
         {'n': 16, 'types': [1], 'n_t': 4, 'free': [0, 2, 5, 8, 11, 13, 15]},
         {'n': 30, 'types': [1, 300], 'n_t': 9, 'free': [2, 5, 10]},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 4},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6},
         {'n': 60, 'types': [2, 4, 7], 'busy': 5, 'free': 20, 'n_t': 3}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 6, 'free': 11, 'n_t': 5},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 16, 'n_t': 9},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 30, 'n_t': 5},
            {'n': 10, 'types': [1], 'n_t': 4, 'cost': 3},
            {'n': 6, 'types': [1, 2], 'n_t': 3},
            {'n': 4, 'types': [1, 2], 'n_t': 4},
            {'n': 3, 'types': [1, 2, 3], 'n_t': 3, 'cost': 3},
            {'n': 2, 'types': [1, 2, 3, 4], 'n_t': 2, 'cost': 3}, {'n': 2, 'types': [1, 2, 3, 4, 5], 'n_t': 2, 'crowded': True},
            {'n': 120, 'types': [1], 'n_t': 40, 'free': [0, 1, 20, 39, 40, 77, 119]},
            {'n': 60, 'types': [2, 4], 'n_t': 21, 'free': [0, 10, 19, 20, 59]}]


def main():
    import segeval
    p = sym.param
    n, types, n_t = p['n'], p['types'], p['n_t']
    pa, pb = crowded(types) if 'crowded' in p else lib.pair()
    a, b = lib.strings(pa), lib.strings(pb)
    transpositions = segeval.boundary_edit_distance(a, b, n_t=n_t)[2]
    taken = lib.ref_transpositions(pa, pb, types, n_t)[0]
    expected = 0
    for key in taken:
        if taken[key]:
            expected += 1
    for i, j, t in taken:
        found = lib.count([e[0] == i and e[1] == j and e[2] == t for e in transpositions])
        sym.check(found == (1 if taken[(i, j, t)] else 0), 'transposition')
    sym.check(len(transpositions) == expected, 'number of transpositions')
    if n_t == 2:
        sym.check(sorted(segeval.boundary_edit_distance(a, b)[2]) == sorted(transpositions), 'default span')
    for e in transpositions:
        sym.check(0 < e[1] - e[0] < n_t, 'span')
    sym.observe('transpositions', len(transpositions))


def crowded(types):
    """Two positions: every type on one side of the first, and perhaps on the other side of the second."""
    pa, pb = [{}, {}], [{}, {}]
    for t in types:
        side, again = sym.fork(sym.bool('side%d' % t)), sym.bool('again%d' % t)
        pa[0][t], pb[0][t] = side, not side
        pa[1][t], pb[1][t] = not side and again, side and again
    return pa, pb
