"""Boundary edit distance accounts for every difference exactly once."""
import sym
import lib

QUICK = [{'n': 7, 'types': [1], 'n_t': 3},
         {'n': 4, 'types': [1, 2], 'n_t': 2},
         {'n': 3, 'types': [1, 2], 'n_t': 3},
         {'n': 2, 'types': [1, 2, 3], 'n_t': 2, 'cost': 2},
         {'n': 1, 'types': [2, 3, 5], 'n_t': 2},
         {'n': 40, 'types': [1], 'n_t': 12, 'free': [0, 3, 11, 12, 20, 39]},
         {'n': 30, 'types': [1, 300], 'n_t': 9, 'free': [2, 5, 10]},
         {'n': 12, 'types': [1], 'n_t': 2, 'free': [0, 1, 4, 5, 10, 11]},
         {'n': 16, 'types': [1], 'n_t': 4, 'free': [0, 2, 5, 8, 11, 13, 15]},
         {'n': 3, 'types': [1], 'n_t': 1},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 4},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6},
         {'n': 60, 'types': [2, 4, 7], 'busy': 5, 'free': 20, 'n_t': 3}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 6, 'free': 11, 'n_t': 5},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 16, 'n_t': 9},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 30, 'n_t': 5},
            {'n': 10, 'types': [1], 'n_t': 4, 'cost': 3},
            {'n': 5, 'types': [1, 2], 'n_t': 2},
            {'n': 4, 'types': [1, 2], 'n_t': 4},
            {'n': 3, 'types': [1, 2, 3], 'n_t': 3, 'cost': 3},
            {'n': 1, 'types': [1, 2, 3, 4], 'n_t': 2},
            {'n': 120, 'types': [1], 'n_t': 40, 'free': [0, 1, 20, 39, 40, 77, 119]}]


def main():
    import segeval
    p = sym.param
    types = p['types']
    pa, pb = lib.pair()
    a, b = lib.strings(pa), lib.strings(pb)
    additions, substitutions, transpositions = segeval.boundary_edit_distance(a, b, n_t=p['n_t'])
    differences = 0
    for t in types:
        only_a = lib.count([x[t] and not y[t] for x, y in zip(pa, pb)])
        only_b = lib.count([y[t] and not x[t] for x, y in zip(pa, pb)])
        differences += only_a + only_b
        add_a = lib.count([e[0] == t and e[1] == 'a' for e in additions])
        add_b = lib.count([e[0] == t and e[1] == 'b' for e in additions])
        sub_a = lib.count([e[0] == t for e in substitutions])
        sub_b = lib.count([e[1] == t for e in substitutions])
        tr = lib.count([e[2] == t for e in transpositions])
        sym.check(only_a == add_a + sub_a + tr, 'boundaries of the first string')
        sym.check(only_b == add_b + sub_b + tr, 'boundaries of the second string')
    total = len(additions) + 2 * len(substitutions) + 2 * len(transpositions)
    sym.check(differences == total, 'total')
    empty = len(additions) == 0 and len(substitutions) == 0 and len(transpositions) == 0
    sym.check(empty == (a == b), 'no edits exactly when equal')
    sym.observe('edits', [len(additions), len(substitutions), len(transpositions)])
