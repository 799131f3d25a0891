"""All encodings of a segmentation denote the same boundaries."""
import sym
import lib

QUICK = [{'m': 1, 'hi': 9}, {'m': 3, 'hi': 5}, {'m': 5, 'hi': 3}, {'m': 2, 'hi': 14},
         {'fn': 'from_bits', 'n': 8}, {'fn': 'from_bits', 'n': 40, 'free': [0, 20, 21, 39]},
         {'fn': 'from_bits', 'n': 301, 'free': [0, 20, 21, 150, 299], 'every': 2},
         {'fn': 'nltk', 'n': 5, 'alphabet': '01', 'symbols': ['1', '0']},
         {'fn': 'nltk', 'n': 4, 'alphabet': '01b|', 'symbols': ['1', 'b', '|', '.']},
         {'fn': 'nltk', 'n': 8, 'alphabet': '01', 'symbols': None},
         {'fn': 'nltk', 'n': 0, 'alphabet': '01', 'symbols': None}]
THOROUGH = [{'m': 2, 'hi': 30, 'cost': 2}, {'fn': 'from_bits', 'n': 12}, {'fn': 'from_bits', 'n': 80, 'free': [0, 1, 2, 40, 41, 78, 79], 'cost': 3},
            {'m': 8, 'hi': 4, 'cost': 2}, {'m': 4, 'hi': 16, 'cost': 3}, {'fn': 'from_bits', 'n': 24},
            {'fn': 'nltk', 'n': 12, 'alphabet': '01', 'symbols': None},
            {'fn': 'nltk', 'n': 7, 'alphabet': '01b|', 'symbols': ['1', 'b', '|', '.', '\\', '^', '\t']}]


def main():
    import segeval
    p = sym.param
    ms = lib.mass_list('m', p['m'], p['hi'])
    string = segeval.boundary_string_from_masses(ms)
    total = 0
    for m in ms:
        total += m
    sym.check(len(string) == total - 1, 'one set per gap')
    ends = {}
    pos = 0
    for i in range(p['m'] - 1):
        pos += ms[i]
        ends[pos - 1] = True
        sym.check(string[pos - 1] == frozenset([1]), 'boundary at the end of a segment')
    used = 0
    for s in string:
        if len(s) > 0:
            used += 1
    sym.check(used == p['m'] - 1, 'nothing elsewhere')
    sym.observe('gaps', len(string))


def from_bits():
    import segeval
    p = sym.param
    bs = lib.bits('b', p['n'], p.get('free'), range(3, p['n'], p['every']) if 'every' in p else ())
    ms = lib.masses(bs)
    string = segeval.boundary_string_from_masses(ms)
    sym.check(len(string) == p['n'], 'one set per gap')
    for i in range(p['n']):
        sym.check(string[i] == (frozenset([1]) if bs[i] else frozenset()), 'set')
    back = segeval.convert_positions_to_masses(segeval.convert_masses_to_positions(ms))
    sym.check(tuple(back) == ms, 'positions denote the same')
    sym.check(tuple(segeval.convert_nltk_to_masses(lib.nltk(bs))) == ms, 'NLTK string denotes the same')
    sym.observe('boundaries', lib.count(bs))


def nltk():
    import segeval
    p = sym.param
    chars = [sym.choice('c%d' % i, list(p['alphabet'])) for i in range(p['n'])]
    text = ''.join(chars)
    if p['symbols'] is None:
        symbol = '1'
        ms = segeval.convert_nltk_to_masses(text)
    else:
        symbol = sym.choice('symbol', p['symbols'])
        ms = segeval.convert_nltk_to_masses(text, boundary_symbol=symbol)
    total = 0
    for m in ms:
        sym.check(m > 0, 'positive')
        total += m
    sym.check(total == p['n'] + 1, 'one unit more than characters')
    ends = {}
    pos = 0
    for m in ms:
        pos += m
        ends[pos] = True
    boundaries = 0
    for i in range(p['n']):
        b = chars[i] == symbol
        if b:
            boundaries += 1
        sym.check((i + 1 in ends) == b, 'segment ends exactly at boundary symbols')
    sym.check(len(ms) == boundaries + 1, 'number of segments')
    sym.observe('masses', list(ms))
