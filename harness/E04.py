"""Edit scripts are the same in both directions."""
import sym
import lib

QUICK = [{'n': 6, 'types': [1], 'n_t': 3},
         {'n': 3, 'types': [1, 2], 'n_t': 2},
         {'n': 2, 'types': [1, 5], 'n_t': 3},
         {'n': 40, 'types': [1], 'n_t': 12, 'free': [0, 3, 11, 12, 39]},
         {'n': 30, 'types': [1, 300], 'n_t': 9, 'free': [2, 10]},
         {'n': 12, 'types': [1], 'n_t': 2, 'free': [0, 1, 4, 5, 10, 11]},
         {'n': 1, 'types': [1, 2, 4], 'n_t': 2},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 1, 'free': 6, 'n_t': 4},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6},
         {'n': 60, 'types': [2, 4, 7], 'busy': 5, 'free': 20, 'n_t': 3}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 5},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 12, 'n_t': 9},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 24, 'n_t': 4},
            {'n': 8, 'types': [1], 'n_t': 4},
            {'n': 4, 'types': [1, 2], 'n_t': 2},
            {'n': 3, 'types': [1, 2], 'n_t': 3},
            {'n': 2, 'types': [1, 2, 3], 'n_t': 2, 'cost': 2},
            {'n': 30, 'types': [1, 300], 'n_t': 9, 'free': [2, 5, 10]}]


def main():
    import segeval
    p = sym.param
    n, types, n_t = p['n'], p['types'], p['n_t']
    pa, pb = lib.pair()
    a, b = lib.strings(pa), lib.strings(pb)
    adds, subs, trs = segeval.boundary_edit_distance(a, b, n_t=n_t)
    adds2, subs2, trs2 = segeval.boundary_edit_distance(b, a, n_t=n_t)
    sym.check(len(trs) == len(trs2), 'number of transpositions')
    for i in range(n):
        for j in range(i + 1, min(n, i + n_t)):
            for t in types:
                sym.check(lib.count([e[0] == i and e[1] == j and e[2] == t for e in trs]) ==
                          lib.count([e[0] == i and e[1] == j and e[2] == t for e in trs2]), 'transposition')
    for t in types:
        for s, o in (('a', 'b'), ('b', 'a')):
            sym.check(lib.count([e[0] == t and e[1] == s for e in adds]) ==
                      lib.count([e[0] == t and e[1] == o for e in adds2]), 'additions')
    sym.check(len(subs) == len(subs2), 'number of substitutions')
    sym.check(sum([abs(e[0] - e[1]) for e in subs]) == sum([abs(e[0] - e[1]) for e in subs2]), 'distance')
    fmt = {'boundary_format': segeval.BoundaryFormat.sets, 'n_t': n_t, 'return_parts': True}
    for f in (segeval.boundary_similarity, segeval.segmentation_similarity):
        n1, d1 = f(a, b, **fmt)[:2]
        n2, d2 = f(b, a, **fmt)[:2]
        sym.check(sym.eq(n1, n2), 'similarity numerator')
        sym.check(sym.eq(d1, d2), 'similarity denominator')
    sym.observe('edits', [len(adds), len(subs), len(trs)])
