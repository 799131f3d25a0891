"""Actual agreement pools all coder pairs and items and lies in [0, 1]."""
import sym
import lib
from agree import bits_of, encode, pairs, sums, agreed
from decimal import Decimal

B = 'boundary_similarity'
S = 'segmentation_similarity'
QUICK = [{'items': {'i': 3}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B},
         {'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B},
         {'items': {'i': 2, 'I': 1}, 'coders': ['c', 'C', 'c '], 'n_t': 2, 'compare': B},
         {'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e'], 'n_t': 1, 'compare': S},
         {'items': {'i': 3, 'j': 1}, 'coders': ['c', 'd'], 'n_t': 3, 'compare': B},
         {'items': {'i': 3, 'j': 2}, 'coders': ['c', 'd'], 'n_t': 3, 'compare': S},
         {'items': {'i': 3}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B, 'weight': 'plain'},
         {'items': {'i': 1, 'j': 1}, 'coders': ['c', 'd', 'e', 'f'], 'n_t': 2, 'compare': B},
         {'items': {'i': 3, 'j': 1}, 'coders': list('cdefghij'), 'n_t': 2, 'compare': B, 'free': ['i_c', 'i_j', 'j_j']},
         {'items': {'#1': 2, '#2': 1}, 'coders': [10, 9], 'n_t': 2, 'compare': B},
         {'items': dict(('t%d' % x, 1 + x % 3) for x in range(12)), 'coders': ['c', 'd'], 'n_t': 2, 'compare': B, 'free': ['t0_c', 't11_d', 't10_d']},
         {'fn': 'parts', 'items': {'i': 3, 'j': 1}, 'coders': list('cdefghij'), 'compare': B, 'free': ['i_j', 'j_c']},
         {'fn': 'parts', 'items': {'i': 2, 'j': 3}, 'coders': ['c', 'd'], 'compare': B},
         {'fn': 'parts', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e'], 'compare': S},
         {'fn': 'parts', 'items': {'i': 2, 'j': 0, 'k': 1}, 'coders': ['c', 'd'], 'compare': B},
         {'items': {'i': 2, 'j': 0, 'k': 1}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B},
         {'fn': 'types', 'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 7, 'compare': B},
         {'fn': 'types', 'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 8, 'compare': S},
         {'fn': 'order', 'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd', 'e'], 'compare': B},
         {'fn': 'order', 'items': {'i': 3, 'j': 2, 'k': 1}, 'coders': ['c', 'd'], 'compare': S},
         {'fn': 'formats', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd']},
         {'fn': 'types', 'n': 2, 'types': [1, 2], 'compare': B}, {'fn': 'types', 'n': 2, 'types': [1, 3], 'compare': S},
         {'fn': 'function', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e']},
         {'fn': 'history', 'items': {'i': 2}, 'coders': ['c', 'd']}, {'fn': 'complete', 'items': {'i': 3, 'j': 2}}]
THOROUGH = [{'items': {'i': 5}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B},
            {'items': {'i': 3, 'j': 2}, 'coders': ['c', 'd', 'e'], 'n_t': 2, 'compare': B},
            {'items': {'i': 3, 'j': 3}, 'coders': ['c', 'd', 'e'], 'n_t': 3, 'compare': S},
            {'items': {'i': 2, 'j': 2, 'k': 2}, 'coders': ['c', 'd'], 'n_t': 2, 'compare': B},
            {'items': {'i': 2}, 'coders': ['c', 'd', 'e', 'f'], 'n_t': 2, 'compare': B},
            {'fn': 'parts', 'items': {'i': 3, 'j': 2}, 'coders': ['c', 'd', 'e'], 'compare': B},
            {'fn': 'order', 'items': {'i': 3, 'j': 2}, 'coders': ['c', 'd', 'e'], 'compare': B},
            {'fn': 'types', 'n': 3, 'types': [1, 2, 4], 'compare': B},
            {'fn': 'complete', 'items': {'i': 5, 'j': 3}}]


def options():
    import segeval
    p = sym.param
    kwargs = {'fnc_compare': getattr(segeval, p['compare'])} if p.get('compare') not in (None, B) else {}
    if p.get('n_t', 2) != 2:
        kwargs['n_t'] = p['n_t']
    if p.get('weight') == 'plain':
        kwargs['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    return kwargs


def main():
    """The pooled ratio, from the definitions."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    num, den = sums(bits, p['n_t'], p['compare'], p.get('weight', 'scaled'))
    parts = segeval.actual_agreement_linear(data, return_parts=True, **options())
    got_num, got_den = sum(parts[0]), sum(parts[1])
    sym.check(sym.eq(got_num * p['n_t'], num), 'numerator')
    sym.check(sym.eq(got_den, den), 'denominator')
    got = segeval.actual_agreement_linear(data, **options())
    if got_den > 0:
        sym.check(sym.eq(got, Decimal(got_num) / got_den), 'ratio')
    else:
        sym.check(got == 1, 'nothing to disagree on')
    sym.check(sym.le(0, got_num) and sym.le(got_num, got_den), 'range')
    if agreed(bits):
        sym.check(sym.eq(got_num, got_den), 'complete agreement')
    sym.observe('value', got)


def parts():
    """The parts, pair by pair and coder by coder."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    numerators, denominators, pbs, coders = segeval.actual_agreement_linear(data, return_parts=True, **options())
    want = pairs(bits)
    sym.check(len(numerators) == len(want) and len(denominators) == len(want) and len(pbs) == len(want), 'pairs')
    f = getattr(segeval, p['compare'])
    num = den = gaps = 0
    for i, c, d in want:
        x = f(data[i][c], data[i][d], return_parts=True)
        num += x[0]
        den += x[1]
        gaps += p['items'][i]
    sym.check(sym.eq(sum(numerators), num), 'numerators')
    sym.check(sym.eq(sum(denominators), den), 'denominators')
    sym.check(sum(pbs) == gaps, 'potential boundaries')
    sym.check(sorted(coders.keys()) == sorted(p['coders']), 'coders')
    for c in p['coders']:
        b = t = 0
        for i in bits:
            b += lib.count(bits[i][c]) * (len(p['coders']) - 1)
            t += p['items'][i] * (len(p['coders']) - 1)
        sym.check(sum(x[0] for x in coders[c]) == b, 'boundaries')
        sym.check(sum(x[1] for x in coders[c]) == t, 'potential boundaries of a coder')
        sym.check(len(coders[c]) == len(bits) * (len(p['coders']) - 1), 'entries')
    for x in range(len(numerators)):
        sym.check(sym.le(0, numerators[x]) and sym.le(numerators[x], denominators[x]), 'range of a pair')


def order():
    """Neither the order nor the names of items and coders matter."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    first = segeval.actual_agreement_linear(encode(bits), return_parts=True, **options())
    items, coders = sorted(p['items'], reverse=True), sorted(p['coders'], reverse=True)
    names = dict(zip(p['coders'], ['z', 'y', 'a', 'b']))
    numbers = dict(zip(p['coders'], [3, 1, 2, 4]))
    for data in (encode(bits, items=items), encode(bits, coders=coders), encode(bits, coders=coders, rename=names),
                 encode(bits, rename=numbers)):
        other = segeval.actual_agreement_linear(data, return_parts=True, **options())
        for k in range(3):
            sym.check(sym.eq(sum(first[k]), sum(other[k])), 'order')
    plain = dict((i, dict(encode(bits)[i])) for i in bits)
    other = segeval.actual_agreement_linear(plain, return_parts=True, **options())
    for k in range(3):
        sym.check(sym.eq(sum(first[k]), sum(other[k])), 'dictionary')


def formats():
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    first = segeval.actual_agreement_linear(encode(bits), return_parts=True)
    for form in ('position', 'nltk', 'sets'):
        other = segeval.actual_agreement_linear(encode(bits, form), return_parts=True)
        for k in range(3):
            sym.check(sym.eq(sum(first[k]), sum(other[k])), form)


def types():
    """Several boundary types."""
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    d = segeval.Dataset({'i': {'c': lib.strings(pa), 'd': lib.strings(pb)}, 'j': {'c': ({1},), 'd': (set(),)}},
                        boundary_format='sets', boundary_types=p['types'])
    r = lib.reference(pa, pb, p['types'], 2)
    numerators, denominators, pbs, coders = segeval.actual_agreement_linear(d, return_parts=True, **options())
    total = (r['edits'] + r['matches']) if p['compare'] == B else p['n'] * r['types']
    sym.check(sym.eq(sum(denominators), total + 1), 'denominator')
    sym.check(sym.eq((sum(denominators) - sum(numerators) - 1) * 2 * r['extent'], r['weighted']), 'numerator')
    sym.check(sum(pbs) == p['n'] * r['types'] + 1, 'potential boundaries')
    sym.check(sum(x[0] for x in coders['c']) == lib.count([s[t] for s in pa for t in s]) + 1, 'boundaries')
    sym.check(sum(x[0] for x in coders['d']) == lib.count([s[t] for s in pb for t in s]), 'boundaries')


def function():
    """The comparison function and its options."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    seen = []

    def compare(a, b, **kwargs):
        seen.append(kwargs)
        return len(a), len(a) + len(b), 'ignored'
    got = segeval.actual_agreement_linear(data, fnc_compare=compare, n_t=5)
    num = den = 0
    pool = {}
    for i, c, d in pairs(bits):
        num += len(data[i][c])
        den += len(data[i][c]) + len(data[i][d])
    sym.check(len(seen) == len(pairs(bits)), 'calls')
    for kwargs in seen:
        sym.check(kwargs['n_t'] == 5 and kwargs['return_parts'] and kwargs['boundary_format'] == 'mass', 'options')
    parts = segeval.actual_agreement_linear(data, fnc_compare=compare, return_parts=True)
    sym.check(sum(parts[1]) == den, 'denominators')
    sym.check(sym.eq(got, Decimal(sum(parts[0])) / sum(parts[1])), 'ratio')
    sym.check(len(parts[2]) == len(pairs(bits)), 'potential boundaries')


def history():
    """After codings were added."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    first = segeval.actual_agreement_linear(data, return_parts=True)
    bits['x'] = dict((c, lib.bits('x_%s_' % c, 2)) for c in p['coders'])
    data += encode({'x': bits['x']})
    num, den = sums(bits)
    parts = segeval.actual_agreement_linear(data, return_parts=True)
    sym.check(sym.eq(sum(parts[0]) * 2, num) and sym.eq(sum(parts[1]), den), 'added item')
    extra = dict((i, {'z': lib.bits('z_%s_' % i, len(bits[i][p['coders'][0]]))}) for i in bits)
    data += encode(extra)
    for i in bits:
        bits[i]['z'] = extra[i]['z']
    num, den = sums(bits)
    parts = segeval.actual_agreement_linear(data, return_parts=True)
    sym.check(sym.eq(sum(parts[0]) * 2, num) and sym.eq(sum(parts[1]), den), 'added coder')
    sym.check(len(first[0]) == 1, 'earlier result')


def complete():
    """Coders that all agree, whatever the codings, metric and options."""
    import segeval
    p = sym.param
    bits = {}
    for i in p['items']:
        b = lib.bits(i, p['items'][i])
        bits[i] = {'c': b, 'd': b, 'e': b}
    data = encode(bits)
    for f in (segeval.boundary_similarity, segeval.segmentation_similarity):
        for n_t in (1, 2, 3):
            sym.check(segeval.actual_agreement_linear(data, fnc_compare=f, n_t=n_t) == 1, 'complete agreement')
