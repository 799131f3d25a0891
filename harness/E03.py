"""Boundary-type confusions are paired maximally and at minimal distance."""
import sym
import lib

QUICK = [{'n': 4, 'types': [1, 2], 'n_t': 2},
         {'n': 2, 'types': [1, 2, 3], 'n_t': 2}, {'n': 6, 'types': [1, 4], 'n_t': 2, 'free': [0, 2, 5]},
         {'n': 2, 'types': [0, -2, 3], 'n_t': 2},
         {'fn': 'sizes', 'a': 1, 'b': 1, 'hi': 60},
         {'fn': 'sizes', 'a': 1, 'b': 2, 'hi': 60},
         {'fn': 'sizes', 'a': 2, 'b': 1, 'hi': 60},
         {'fn': 'sizes', 'a': 2, 'b': 2, 'hi': 60},
         {'fn': 'sizes', 'a': 1, 'b': 3, 'hi': 60},
         {'fn': 'sizes', 'a': 3, 'b': 0, 'hi': 60},
         {'fn': 'sizes', 'a': 2, 'b': 3, 'hi': 60}, {'fn': 'sizes', 'a': 3, 'b': 2, 'hi': 60},
         {'fn': 'sizes', 'a': 3, 'b': 3, 'hi': 60}, {'fn': 'sizes', 'a': 2, 'b': 4, 'hi': 60},
         {'fn': 'sizes', 'a': 1, 'b': 1, 'hi': 60, 'also': [[7], [3, 28, 31]]},
         {'fn': 'sizes', 'a': 1, 'b': 0, 'hi': 60, 'also': [[7, 23], [3, 28, 31, 44]]},
         {'fn': 'sizes', 'a': 1, 'b': 0, 'hi': 60, 'also': [[7, 40, 23], [3, 28, 31]]},
         {'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'n_t': 4},
         {'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 10, 'n_t': 6},
         {'n': 60, 'types': [2, 4, 7], 'busy': 5, 'free': 20, 'n_t': 3}]
THOROUGH = [{'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 6, 'free': 11, 'n_t': 5},
            {'n': 24, 'types': [1, 2, 3], 'busy': 7, 'free': 16, 'n_t': 9},
            {'n': 60, 'types': [2, 4, 7], 'busy': 8, 'free': 30, 'n_t': 5},
            {'fn': 'sizes', 'a': 3, 'b': 1, 'hi': 60},
            {'fn': 'sizes', 'a': 4, 'b': 2, 'hi': 60}, {'fn': 'sizes', 'a': 1, 'b': 6, 'hi': 60},
            {'fn': 'sizes', 'a': 1, 'b': 0, 'lo': 32, 'hi': 43, 'also': [[7, 50], [3, 28, 31, 44, 55]]},
            {'fn': 'sizes', 'a': 0, 'b': 1, 'lo': 9, 'hi': 27, 'also': [[7, 50, 30], [3, 28, 31, 55]]},
            {'fn': 'sizes', 'a': 1, 'b': 1, 'hi': 60, 'also': [[7, 23], [3, 28, 31]]},
            {'fn': 'sizes', 'a': 1, 'b': 4, 'hi': 30}]


def main():
    """All strings over few types: numbers of edits at every position, after the transpositions are removed."""
    import segeval
    p = sym.param
    n, types, n_t = p['n'], p['types'], p['n_t']
    pa, pb = lib.pair()
    additions, substitutions, transpositions = segeval.boundary_edit_distance(lib.strings(pa), lib.strings(pb), n_t=n_t)
    if n_t == 2:
        default = segeval.boundary_edit_distance(lib.strings(pa), lib.strings(pb))
        sym.check(len(default[0]) == len(additions) and len(default[1]) == len(substitutions), 'default span')
    taken, ra, rb = lib.ref_transpositions(pa, pb, types, n_t)
    subs = adds_a = adds_b = 0
    distance = 0
    for i in range(n):
        a, b = lib.count(ra[i].values()), lib.count(rb[i].values())
        subs += a if a < b else b
        adds_a += a - b if a > b else 0
        adds_b += b - a if b > a else 0
        distance += lib.least(ra[i], rb[i], types)
    sym.check(len(substitutions) == subs, 'number of substitutions')
    sym.check(lib.count([e[1] == 'a' for e in additions]) == adds_a, 'additions of the first side')
    sym.check(lib.count([e[1] == 'b' for e in additions]) == adds_b, 'additions of the second side')
    total = 0
    for e in substitutions:
        total += abs(e[0] - e[1])
    sym.check(total == distance, 'least total distance')
    sym.observe('edits', [len(additions), len(substitutions), total])


def injections(xs, ys):
    """All ways to pair every one of xs with a different one of ys."""
    if not xs:
        return [[]]
    out = []
    for i in range(len(ys)):
        for rest in injections(xs[1:], ys[:i] + ys[i + 1:]):
            out.append([(xs[0], ys[i])] + rest)
    return out


def sizes():
    """One position, types of any value: the pairing has the least total distance."""
    import segeval
    p = sym.param
    xs = [sym.int('x%d' % i, p.get('lo', 1), p['hi']) for i in range(p['a'])]
    ys = [sym.int('y%d' % i, p.get('lo', 1), p['hi']) for i in range(p['b'])]
    also = p.get('also', [[], []])
    xs, ys = xs + also[0], ys + also[1]
    every = xs + ys
    for i in range(len(every)):
        for j in range(i):
            sym.assume(every[i] != every[j])
    common = sym.bool('common')
    both = sym.int('both', p['hi'] + 61, p['hi'] + 69)
    a, b = set(xs), set(ys)
    if common:
        a.add(both)
        b.add(both)
    additions, substitutions, transpositions = segeval.boundary_edit_distance([frozenset(a)], [frozenset(b)])
    sym.check(len(transpositions) == 0, 'no transposition')
    least = min(len(xs), len(ys))
    sym.check(len(substitutions) == least, 'number of substitutions')
    sym.check(len(additions) == max(len(xs), len(ys)) - least, 'number of additions')
    total = 0
    for e in substitutions:
        total += abs(e[0] - e[1])
        sym.check(lib.among(e[0], xs), 'substitution starts in the first string')
        sym.check(lib.among(e[1], ys), 'substitution ends in the second string')
    for x in xs:
        sym.check(lib.count([e[0] == x for e in substitutions]) +
                  lib.count([e[0] == x and e[1] == 'a' for e in additions]) == 1, 'types of the first string')
    for y in ys:
        sym.check(lib.count([e[1] == y for e in substitutions]) +
                  lib.count([e[0] == y and e[1] == 'b' for e in additions]) == 1, 'types of the second string')
    ways = injections(xs, ys) if len(xs) <= len(ys) else injections(ys, xs)
    attained = False
    for way in ways:
        d = 0
        for x, y in way:
            d += abs(x - y)
        sym.check(total <= d, 'least total distance')
        if total == d:
            attained = True
    sym.check(attained, 'a pairing')
    sym.observe('total', total)
