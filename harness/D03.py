"""A metric gives the same result however its arguments are passed."""
import sym
import lib
from D01 import same, coded
from G02 import rejected

SIM = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix']
METRICS = SIM + ['pk', 'window_diff']
QUICK = [{'n': 3, 'metric': m, 'format': 'mass'} for m in METRICS] + \
        [{'n': 2, 'metric': m, 'format': f} for m in ('boundary_confusion_matrix', 'window_diff') for f in ('position', 'nltk')] + \
        [{'n': 2, 'metric': m, 'format': 'sets'} for m in SIM] + \
        [{'fn': 'dataset', 'n': 2, 'metric': m} for m in METRICS] + \
        [{'fn': 'units', 'gaps': [0, 1, 3], 'metric': m} for m in METRICS] + \
        [{'fn': 'lone', 'hi': 4, 'metric': m} for m in METRICS] + \
        [{'fn': 'missing', 'n': 2}, {'fn': 'agreements', 'n': 2}]
THOROUGH = [{'n': 5, 'metric': m, 'format': f} for m in METRICS for f in ('mass', 'position', 'nltk')] + \
           [{'n': 5, 'metric': m, 'format': 'sets'} for m in SIM] + \
           [{'fn': 'dataset', 'n': 4, 'metric': m} for m in METRICS] + \
           [{'fn': 'units', 'gaps': [0, 1, 2, 5], 'metric': m} for m in METRICS] + \
           [{'fn': 'lone', 'hi': 12, 'metric': m} for m in METRICS]


def options(name):
    out = [{}]
    if name in ('pk', 'window_diff'):
        out.append({'window_size': 1})
    else:
        out.append({'n_t': 3})
    if name not in ('boundary_statistics', 'boundary_confusion_matrix'):
        out.append({'return_parts': True})
        out.append({'one_minus': True})
    if name == 'window_diff':
        out.append({'lamprier_et_al_2007_fix': True})
    return out


def main():
    """Two segmentations, by position or by name, as tuples or lists."""
    import segeval
    p = sym.param
    form = p['format']
    f = getattr(segeval, p['metric'])
    a, b = coded('a', p['n'], form), coded('b', p['n'], form)
    for kwargs in options(p['metric']):
        if form != 'mass':
            kwargs['boundary_format'] = form
        want = f(a, b, **kwargs)
        same(f(hypothesis=a, reference=b, **kwargs), want, 'by name')
        same(f(reference=b, hypothesis=a, **kwargs), want, 'by name, reference first')
        if form != 'nltk':
            same(f(list(a), list(b), **kwargs), want, 'lists')
            same(f(hypothesis=a, reference=list(b), **kwargs), want, 'tuple and list')
    if form == 'mass':
        same(f(a, b, boundary_format=segeval.BoundaryFormat.mass), f(a, b), 'format given')


def equal(got, want, msg):
    sym.check(len(got) == len(want), msg + ' entries')
    for k in want:
        sym.check(k in got, msg + ' key')
        if k in got:
            same(got[k], want[k], msg)


def dataset():
    """One dataset or two, by position or by name."""
    import segeval
    p = sym.param
    n = p['n']
    f = getattr(segeval, p['metric'])
    d = segeval.Dataset({'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')}, 'j': {'c': (1, n), 'd': (n, 1)}})
    e = segeval.Dataset({'i': {'e': coded('e', n, 'mass')}, 'k': {'c': (2,)}})
    for kwargs in options(p['metric']):
        equal(f(dataset=d, **kwargs), f(d, **kwargs), 'dataset')
        want = f(d, e, **kwargs)
        equal(f(hypothesis=d, reference=e, **kwargs), want, 'datasets')
        equal(f(reference=e, hypothesis=d, **kwargs), want, 'datasets, reference first')
    equal(f(dataset=d, permuted=True), f(d, permuted=True), 'permuted')


def units():
    """A lone number is a single segment of that many units."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    for n in p['gaps']:
        x = n + 1
        b = lib.masses(lib.bits('b%d_' % n, n))
        for kwargs in options(p['metric']):
            same(f(x, b, **kwargs), f((x,), b, **kwargs), 'number first')
            same(f(b, x, **kwargs), f(b, (x,), **kwargs), 'number second')
            same(f(x, x, **kwargs), f((x,), (x,), **kwargs), 'numbers')
            same(f(hypothesis=x, reference=b, **kwargs), f((x,), b, **kwargs), 'number by name')
            same(f(hypothesis=b, reference=x, **kwargs), f(b, (x,), **kwargs), 'number by name as reference')
        sym.check(rejected(f, x + 1, b), 'number and different length')
        sym.check(rejected(f, b, x + 1), 'different length and number')


def lone():
    """Any two numbers: comparable when equal."""
    import segeval
    p = sym.param
    x, y = sym.int('x', 1, p['hi']), sym.int('y', 1, p['hi'])
    f = getattr(segeval, p['metric'])
    sym.check(rejected(f, x, y) == (x != y), 'numbers')


def missing():
    """Too few or too many arguments are rejected with the metric error."""
    import segeval
    n = sym.param['n']
    a, b = coded('a', n, 'mass'), coded('b', n, 'mass')
    d = segeval.Dataset({'i': {'c': a, 'd': b}})
    for name in METRICS:
        f = getattr(segeval, name)
        sym.check(rejected(f), name + ' without arguments')
        sym.check(rejected(f, hypothesis=a), name + ' without reference')
        sym.check(rejected(f, reference=a), name + ' without hypothesis')
        for x in (None, ()):
            sym.check(rejected(f, a, x), name + ' with an empty reference')
            sym.check(rejected(f, x, a), name + ' with an empty hypothesis')
            sym.check(rejected(f, hypothesis=x, reference=a), name + ' with an empty hypothesis by name')
        sym.check(rejected(f, a, b, a), name + ' of three segmentations')
        sym.check(rejected(f, d, d, d), name + ' of three datasets')
        sym.check(not rejected(f, a, b) and not rejected(f, d), name)


def agreements():
    """Agreement coefficients take the dataset by position or by name."""
    import segeval
    n = sym.param['n']
    d = segeval.Dataset({'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')}, 'j': {'c': (1, n), 'd': (n, 1)}})
    for name in ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear'):
        f = getattr(segeval, name)
        for kwargs in ({'return_parts': True}, {'return_parts': True, 'n_t': 3}):
            one, two = f(d, **kwargs), f(dataset=d, **kwargs)
            sym.check(one == two, name)
