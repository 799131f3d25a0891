"""Annotator bias is the difference of the two expected agreements."""
import sym
import lib
from agree import bits_of, encode, expected_pi, expected_kappa
from decimal import Decimal

S = 'segmentation_similarity'
QUICK = [{'items': {'i': 3}, 'coders': ['c', 'd']},
         {'items': {'i': 4}, 'coders': ['c', 'd'], 'form': 'sets'},
         {'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd']},
         {'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd'], 'compare': S, 'n_t': 3},
         {'items': {'i': 2, 'I': 1}, 'coders': ['c', 'C', 'c '], 'form': 'sets'},
         {'items': {'i': 1, 'j': 1}, 'coders': ['c', 'd', 'e', 'f'], 'form': 'sets'},
         {'items': {'#1': 2, '#2': 1}, 'coders': [10, 9]},
         {'items': {'i': 2, 'j': 1}, 'coders': list('cdefghij'), 'free': ['i_j']},
         {'items': dict(('t%d' % x, 1 + x % 3) for x in range(12)), 'coders': ['c', 'd'], 'free': ['t0_c', 't11_d']},
         {'fn': 'order', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e']},
         {'fn': 'same', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd'], 'form': 'mass'},
         {'fn': 'same', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd'], 'form': 'position'},
         {'fn': 'same', 'items': {'i': 1, 'j': 1}, 'coders': ['c', 'd', 'e'], 'form': 'sets'},
         {'fn': 'types', 'n': 12, 'types': [1, 2, 3, 5, 9], 'busy': 4, 'free': 5},
         {'fn': 'types', 'n': 24, 'types': [1, 2, 3], 'busy': 2, 'free': 6},
         {'fn': 'types', 'n': 2, 'types': [1, 2]}, {'fn': 'types', 'n': 1, 'types': [1, 2, 3]},
         {'fn': 'passed', 'items': {'i': 1, 'j': 2}, 'coders': ['c', 'd', 'e']}]
THOROUGH = [{'items': {'i': 6}, 'coders': ['c', 'd'], 'form': 'sets'},
            {'items': {'i': 3, 'j': 2}, 'coders': ['c', 'd', 'e'], 'form': 'sets'},
            {'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd', 'e', 'f'], 'form': 'sets'},
            {'items': {'i': 2, 'j': 2, 'k': 1}, 'coders': ['c', 'd']},
            {'fn': 'order', 'items': {'i': 2, 'j': 2}, 'coders': ['c', 'd', 'e']},
            {'fn': 'same', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e'], 'form': 'sets'},
            {'fn': 'same', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd', 'e'], 'form': 'mass'},
            {'fn': 'same', 'items': {'i': 2, 'j': 1}, 'coders': ['c', 'd'], 'form': 'nltk'},
            {'fn': 'types', 'n': 3, 'types': [1, 2, 4]}]


def options():
    import segeval
    p = sym.param
    kwargs = {'fnc_compare': getattr(segeval, p['compare'])} if 'compare' in p else {}
    if 'n_t' in p:
        kwargs['n_t'] = p['n_t']
    return kwargs


def main():
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits, p.get('form', 'mass'))
    kwargs = options()
    parts = segeval.artstein_poesio_bias_linear(data, return_parts=True, **kwargs)
    sym.check(isinstance(parts, tuple) and len(parts) == 2, 'parts')
    pi, kappa = parts
    sym.check(sym.eq(pi, expected_pi(bits)), "pi's expected agreement")
    sym.check(sym.eq(kappa, expected_kappa(bits)), "kappa's expected agreement")
    got = segeval.artstein_poesio_bias_linear(data, **kwargs)
    sym.check(sym.eq(got, pi - kappa), 'value')
    sym.check(sym.isnum(got), 'number')
    if len(p['coders']) == 2 and len(p['items']) == 1:
        b, d = [lib.count(x) for x in bits['i'].values()]
        n = p['items']['i']
        half = (Decimal(b) - d) / (2 * n)
        sym.check(sym.eq(got, half * half), 'quarter of the squared difference')
        sym.check(sym.le(0, got), 'not negative')
        if b == d:
            sym.check(got == 0, 'no bias')
        else:
            sym.check(got > 0, 'bias')
    sym.observe('value', got)


def order():
    """Neither the order nor the names of items and coders matter."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    items, coders = sorted(p['items'], reverse=True), sorted(p['coders'], reverse=True)
    names = dict(zip(p['coders'], ['z', 'y', 'a', 'b']))
    first = segeval.artstein_poesio_bias_linear(encode(bits))
    for data in (encode(bits, items=items), encode(bits, coders=coders), encode(bits, items=items, rename=names)):
        sym.check(sym.eq(segeval.artstein_poesio_bias_linear(data), first), 'order')


def same():
    """The difference of the parts of pi and kappa."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits, p['form'])
    pi = segeval.fleiss_pi_linear(data, return_parts=True)[1]
    kappa = segeval.fleiss_kappa_linear(data, return_parts=True)[1]
    parts = segeval.artstein_poesio_bias_linear(data, return_parts=True)
    sym.check(sym.eq(parts[0], pi) and sym.eq(parts[1], kappa), 'parts')
    sym.check(sym.eq(segeval.artstein_poesio_bias_linear(data), pi - kappa), 'value')


def types():
    """Several boundary types, with two coders and one item."""
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    d = segeval.Dataset({'i': {'c': lib.strings(pa), 'd': lib.strings(pb)}}, boundary_format='sets',
                        boundary_types=p['types'])
    size = p['n'] * lib.reference(pa, pb, p['types'], 2)['types']
    a, b = lib.count([s[t] for s in pa for t in s]), lib.count([s[t] for s in pb for t in s])
    got = segeval.artstein_poesio_bias_linear(d)
    half = Decimal(a - b) / size / 2
    sym.check(sym.eq(got, half * half), 'quarter of the squared difference')
    parts = segeval.artstein_poesio_bias_linear(d, return_parts=True)
    mean = Decimal(a + b) / size / 2
    sym.check(sym.eq(parts[0], mean * mean), "pi's expected agreement")
    sym.check(sym.eq(parts[1], (Decimal(a) / size) * (Decimal(b) / size)), "kappa's expected agreement")


def passed():
    """The options reach the comparisons behind both expected agreements."""
    import segeval
    p = sym.param
    bits = bits_of(p['items'], p['coders'], p.get('free'))
    data = encode(bits)
    seen = []

    def compare(a, b, **kwargs):
        seen.append(kwargs)
        return 1, 2
    got = segeval.artstein_poesio_bias_linear(data, fnc_compare=compare, n_t=7)
    for kwargs in seen:
        sym.check(kwargs['n_t'] == 7 and kwargs['boundary_format'] == 'mass' and kwargs['return_parts'], 'options')
    # expected agreement does not depend on the comparisons
    sym.check(sym.eq(got, segeval.artstein_poesio_bias_linear(data)), 'value')
