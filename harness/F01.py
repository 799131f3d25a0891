"""Masses and position labels convert into each other without loss."""
import sym
import lib

QUICK = [{'m': 1, 'hi': 9}, {'m': 3, 'hi': 5}, {'m': 5, 'hi': 3}, {'m': 2, 'hi': 14},
         {'fn': 'from_bits', 'n': 8}, {'fn': 'from_bits', 'n': 40, 'free': [0, 20, 21, 39]},
         {'fn': 'from_bits', 'n': 301, 'free': [0, 20, 21, 150, 299], 'every': 2},
         {'fn': 'labels', 'n': 6, 'labels': [1, 2, 3]}, {'fn': 'labels', 'n': 5, 'labels': [0, -1, 700, 'a', '1']},
         {'fn': 'labels', 'n': 4, 'labels': [1, '1', 'A', 'a']}, {'fn': 'labels', 'n': 4, 'labels': [None, 0, '', False]}, {'fn': 'names', 'n': 4}, {'fn': 'numbers', 'n': 6}]
THOROUGH = [{'m': 2, 'hi': 40, 'cost': 2}, {'fn': 'from_bits', 'n': 12}, {'fn': 'from_bits', 'n': 80, 'free': [0, 1, 2, 40, 41, 78, 79], 'cost': 3},
            {'m': 8, 'hi': 4, 'cost': 2}, {'m': 4, 'hi': 20, 'cost': 3}, {'m': 2, 'hi': 120, 'cost': 3},
            {'fn': 'from_bits', 'n': 24}, {'fn': 'labels', 'n': 9, 'labels': [1, 2, 3]},
            {'fn': 'labels', 'n': 7, 'labels': [0, -1, 700, 'a', '1']}, {'fn': 'numbers', 'n': 12}]


def roundtrip(ms):
    import segeval
    kept = tuple(ms)
    labels = segeval.convert_masses_to_positions(ms)
    total = 0
    for m in kept:
        total += m
    sym.check(len(labels) == total, 'one label per unit')
    back = segeval.convert_positions_to_masses(labels)
    sym.check(len(back) == len(kept), 'number of segments')
    for x, y in zip(back, kept):
        sym.check(x == y, 'mass')
    return labels


def main():
    p = sym.param
    ms = lib.mass_list('m', p['m'], p['hi'])
    labels = roundtrip(ms)
    start = 0
    for i in range(p['m']):
        sym.check(labels[start] == i + 1, 'first label of a segment')
        sym.check(labels[start + ms[i] - 1] == i + 1, 'last label of a segment')
        start += ms[i]
    sym.observe('last', labels[-1])


def from_bits():
    p = sym.param
    bs = lib.bits('b', p['n'], p.get('free'), range(3, p['n'], p['every']) if 'every' in p else ())
    labels = roundtrip(list(lib.masses(bs)))
    sym.check(len(labels) == p['n'] + 1, 'one label per unit')
    want = 1
    sym.check(labels[0] == 1, 'first label')
    for i in range(p['n']):
        if bs[i]:
            want += 1
        sym.check(labels[i + 1] == want, 'label')
    sym.observe('last', labels[-1])


def runs(labels, masses):
    """masses are the lengths of the maximal runs of equal labels."""
    n = len(labels)
    total = 0
    segments = 1
    for m in masses:
        sym.check(m > 0, 'positive')
        total += m
    sym.check(total == n, 'sum')
    ends = {}
    pos = 0
    for m in masses:
        pos += m
        ends[pos] = True
    for i in range(1, n):
        change = labels[i] != labels[i - 1]
        if change:
            segments += 1
        sym.check((i in ends) == change, 'run ends where the label changes')
    sym.check(len(masses) == segments, 'number of runs')
    sym.observe('masses', list(masses))


def labels():
    import segeval
    p = sym.param
    ls = [sym.choice('l%d' % i, p['labels']) for i in range(p['n'])]
    runs(ls, segeval.convert_positions_to_masses(ls))


def names():
    """Labels that are equal strings but different objects."""
    import segeval
    ls = [sym.text('segment', sym.int('l%d' % i, 0, 30)) for i in range(sym.param['n'])]
    runs(ls, segeval.convert_positions_to_masses(tuple(ls)))


def numbers():
    import segeval
    ls = [sym.int('l%d' % i, -1000, 1000) for i in range(sym.param['n'])]
    runs(ls, segeval.convert_positions_to_masses(tuple(ls)))
