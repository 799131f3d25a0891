"""Pi and kappa equal (observed - expected) / (1 - expected) agreement."""
import sym
import lib
from agree import bits_of, encode, sums, agreed, expected_pi, expected_kappa
from decimal import Decimal

B = 'boundary_similarity'
S = 'segmentation_similarity'
PI = 'fleiss_pi_linear'
KAPPA = 'fleiss_kappa_linear'
QUICK = [{'items': {'i': 3}, 'coders': ['c', 'd']},
         {'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd']},
         {'items': {'i': 3, 'j': 1}, 'coders': ['c', 'd'], 'n_t': 3, 'compare': S},
         {'items': {'i': 2, 'I': 1}, 'coders': ['c', 'C', 'c ']},
         {'items': {'i': 1, 'j': 1}, 'coders': ['c', 'd', 'e', 'f'], 'compare': S},
         {'items': {'i': 1, 'j': 1, 'k': 1}, 'coders': ['c', 'd', 'e'], 'n_t': 1},
         {'items': {'#1': 2, '#2': 1}, 'coders': [10, 9]},
         {'items': {'i': 2, 'j': 1}, 'coders': list('cdefghij'), 'free': ['i_j']},
         {'items': {'i': 2}, 'coders': list('cdefghijklm'), 'free': ['i_m']},
         {'items': dict(('t%d' % x, 1 + x % 3) for x in range(12)), 'coders': ['c', 'd'], 'free': ['t0_c', 't11_d']},
         {'fn': 'order', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e']},
         {'fn': 'order', 'items': {'i': 3, 'j': 1, 'k': 1}, 'coders': ['c', 'd']},
         {'fn': 'formats', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd']},
         {'fn': 'types', 'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 5},
         {'fn': 'types', 'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 6},
         {'fn': 'types', 'n': 2, 'types': [1, 2]}, {'fn': 'types', 'n': 2, 'types': [1, 3], 'compare': S},
         {'fn': 'types', 'n': 1, 'types': [1, 2, 3]},
         {'fn': 'complete', 'items': {'i': 3, 'j': 2}},
         {'fn': 'unequal', 'counts': [2, 3]}, {'fn': 'unequal', 'counts': [3, 2, 3]}, {'fn': 'unequal', 'counts': [2, 1]},
         {'fn': 'history', 'items': {'i': 2}, 'coders': ['c', 'd']}]
THOROUGH = [{'items': {'i': 5}, 'coders': ['c', 'd']},
            {'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd', 'e']},
            {'items': {'i': 3, 'j': 1}, 'coders': ['c', 'd', 'e'], 'n_t': 3, 'compare': S},
            {'items': {'i': 2, 'j': 2, 'k': 2}, 'coders': ['c', 'd']},
            {'items': {'i': 3}, 'coders': ['c', 'd', 'e', 'f']},
            {'fn': 'order', 'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd', 'e'], 'compare': S},
            {'fn': 'types', 'n': 3, 'types': [1, 2]}, {'fn': 'types', 'n': 2, 'types': [1, 2, 4]},
            {'fn': 'complete', 'items': {'i': 5, 'j': 3}}]


def options():
    import segeval
    p = sym.param
    kwargs = {'fnc_compare': getattr(segeval, p['compare'])} if p.get('compare') not in (None, B) else {}
    if p.get('n_t', 2) != 2:
        kwargs['n_t'] = p['n_t']
    return kwargs


def verify(name, f, data, num, den, expected, **kwargs):
    """Value and parts of one coefficient."""
    parts = f(data, return_parts=True, **kwargs)
    sym.check(isinstance(parts, tuple) and len(parts) == 2, name + ' parts')
    observed, e = parts
    if den > 0:
        sym.check(sym.eq(observed * den, num), name + ' observed agreement')
    else:
        sym.check(sym.eq(observed, 1), name + ' nothing to disagree on')
    sym.check(sym.eq(e, expected), name + ' expected agreement')
    if e < 1:
        got = f(data, **kwargs)
        a, x = f(data, return_parts=True, **kwargs)
        sym.check(sym.eq(got, (a - x) / (1 - x)), name + ' value')
        sym.check(sym.isnum(got), name + ' number')
    sym.check(sym.le(0, e) and sym.le(e, 1), name + ' range of the expected agreement')
    return parts


def main():
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    n_t = p.get('n_t', 2)
    num, den = sums(bits, n_t, p.get('compare', B))
    for name, f, e in ((PI, segeval.fleiss_pi_linear, expected_pi(bits)),
                       (KAPPA, segeval.fleiss_kappa_linear, expected_kappa(bits))):
        observed, e = verify(name, f, data, Decimal(num) / n_t, den, e, **options())
        # at most 1: the observed agreement is
        sym.check(sym.le(num, den * n_t), 'at most 1')
        if agreed(bits):
            sym.check(sym.eq(observed, 1), 'complete agreement')


def order():
    """Neither the order nor the names of items and coders matter."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    items, coders = sorted(p['items'], reverse=True), sorted(p['coders'], reverse=True)
    names = dict(zip(p['coders'], ['z', 'y', 'a', 'b']))
    numbers = dict(zip(p['coders'], [3, 1, 2, 4]))
    plain = dict((i, dict(encode(bits)[i])) for i in bits)
    for f in (segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear):
        first = f(encode(bits), return_parts=True, **options())
        for data in (encode(bits, items=items), encode(bits, coders=coders), plain,
                     encode(bits, items=items, rename=names), encode(bits, coders=coders, rename=numbers)):
            other = f(data, return_parts=True, **options())
            sym.check(sym.eq(first[0], other[0]) and sym.eq(first[1], other[1]), 'order')


def formats():
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    for f in (segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear):
        first = f(encode(bits), return_parts=True)
        for form in ('position', 'nltk', 'sets'):
            other = f(encode(bits, form), return_parts=True)
            sym.check(sym.eq(first[0], other[0]) and sym.eq(first[1], other[1]), form)


def types():
    """Several boundary types: every type in use by a pair of codings is a potential boundary at each of its gaps."""
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    x = sym.bool('x')
    d = segeval.Dataset({'i': {'c': lib.strings(pa), 'd': lib.strings(pb)},
                         'j': {'c': lib.single([True, x]), 'd': lib.single([False, True])}},
                        boundary_format='sets', boundary_types=p['types'])
    r = lib.reference(pa, pb, p['types'], 2)
    q = lib.reference([{1: True}, {1: x}], [{1: False}, {1: True}], [1], 2)
    size = p['n'] * r['types']
    a, b = lib.count([s[t] for s in pa for t in s]), lib.count([s[t] for s in pb for t in s])
    c = 1 + lib.count([x])
    den = (r['edits'] + r['matches'] + q['edits'] + q['matches']) if p.get('compare', B) == B else size + 2
    num = den - Decimal(r['weighted']) / (2 * r['extent']) - Decimal(q['weighted']) / 2
    mean = (Decimal(a + b) / size + Decimal(c + 1) / 2) / 4
    verify(PI, segeval.fleiss_pi_linear, d, num, den, mean * mean, **options())
    verify(KAPPA, segeval.fleiss_kappa_linear, d, num, den,
           (Decimal(a + c) / (size + 2)) * (Decimal(b + 1) / (size + 2)), **options())


def complete():
    """Coders that all agree, whatever the codings, metric and options."""
    import segeval
    p = sym.param
    bits = {}
    for i in p['items']:
        b = lib.bits(i, p['items'][i])
        bits[i] = {'c': b, 'd': b, 'e': b}
    data = encode(bits)
    for c in (segeval.boundary_similarity, segeval.segmentation_similarity):
        for f in (segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear):
            if f(data, fnc_compare=c, return_parts=True)[1] < 1:
                sym.check(sym.eq(f(data, fnc_compare=c), 1), 'complete agreement')


def unequal():
    """Items with different numbers of coders are rejected."""
    import segeval
    p = sym.param
    coders = ['c', 'd', 'e']
    bits = dict(('i%d' % x, dict((c, lib.bits('i%d_%s_' % (x, c), 2)) for c in coders[:p['counts'][x]]))
                for x in range(len(p['counts'])))
    data = encode(bits)
    for f in (segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear, segeval.artstein_poesio_bias_linear):
        for kwargs in ({}, {'return_parts': True}):
            try:
                f(data, **kwargs)
                failed = False
            except Exception:
                failed = True
            sym.check(failed, 'rejected')


def history():
    """After codings were added."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    segeval.fleiss_pi_linear(data, return_parts=True)
    segeval.fleiss_kappa_linear(data, return_parts=True)
    bits['x'] = dict((c, lib.bits('x_%s_' % c, 1)) for c in p['coders'])
    data += encode({'x': bits['x']})
    num, den = sums(bits)
    verify(PI, segeval.fleiss_pi_linear, data, Decimal(num) / 2, den, expected_pi(bits))
    verify(KAPPA, segeval.fleiss_kappa_linear, data, Decimal(num) / 2, den, expected_kappa(bits))
    extra = dict((i, {'b': lib.bits('z_%s_' % i, len(bits[i][p['coders'][0]]))}) for i in bits)
    data += encode(extra)
    for i in bits:
        bits[i]['b'] = extra[i]['b']
    num, den = sums(bits)
    verify(PI, segeval.fleiss_pi_linear, data, Decimal(num) / 2, den, expected_pi(bits))
    verify(KAPPA, segeval.fleiss_kappa_linear, data, Decimal(num) / 2, den, expected_kappa(bits))
