"""Incomparable or unsupported inputs are rejected, never scored."""
import sym
import lib

METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk',
           'window_diff']
QUICK = [{'a': 2, 'b': 2, 'hi': 3, 'metric': m} for m in METRICS] + \
        [{'fn': 'encoded', 'n': n, 'm': m, 'metrics': METRICS} for n, m in ((1, 1), (3, 2), (2, 3))] + \
        [{'fn': 'encoded', 'n': 3, 'm': 3, 'metrics': [m]} for m in METRICS] + \
        [{'fn': 'encoded', 'n': 5, 'm': 3, 'metrics': METRICS}, {'fn': 'encoded', 'n': 0, 'm': 3, 'metrics': METRICS[4:]},
         {'fn': 'encoded', 'n': 24, 'm': 25, 'free': [3, 17], 'metrics': METRICS},
         {'fn': 'formats', 'n': 3}, {'fn': 'datasets', 'n': 2}]
THOROUGH = [{'a': 2, 'b': 3, 'hi': 4, 'metric': m} for m in METRICS] + \
           [{'a': 1, 'b': 1, 'hi': 12, 'metric': m} for m in METRICS] + \
           [{'fn': 'encoded', 'n': n, 'm': m, 'metrics': [x]} for n, m in ((5, 5), (6, 5), (3, 6)) for x in METRICS] + \
           [{'fn': 'datasets', 'n': 4}]

SIMILARITIES = ('boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix')
WINDOWS = ('pk', 'window_diff')


def rejected(f, *args, **kwargs):
    from segeval.util import SegmentationMetricError
    try:
        f(*args, **kwargs)
    except SegmentationMetricError:
        return True
    return False


def variants(name):
    """The metric and its options."""
    out = [{}]
    if name in ('boundary_similarity', 'segmentation_similarity') or name in WINDOWS:
        out = out + [{'return_parts': True}, {'one_minus': True}]
    if name in WINDOWS:
        out = out + [{'window_size': 2}]
    if name == 'window_diff':
        out = out + [{'lamprier_et_al_2007_fix': True}]
    return out


def main():
    """Masses of any total."""
    import segeval
    p = sym.param
    a = lib.mass_list('a', p['a'], p['hi'])
    b = lib.mass_list('b', p['b'], p['hi'])
    differ = sum(a) != sum(b)
    f = getattr(segeval, p['metric'])
    sym.check(rejected(f, a, b) == differ, 'tuples')
    sym.check(rejected(f, list(a), list(b)) == differ, 'lists')


def encode(bs, fmt):
    return {'mass': lib.masses, 'position': lib.positions, 'nltk': lib.nltk, 'sets': lib.single}[fmt](bs)


def encoded():
    """n and m gaps in every format."""
    import segeval
    p = sym.param
    a = lib.bits('a', p['n'], p.get('free'))
    b = lib.bits('b', p['m'], p.get('free'))
    for fmt in ('mass', 'position', 'nltk', 'sets'):
        if fmt in ('nltk', 'sets') and (p['n'] == 0 or p['m'] == 0):
            continue
        x, y = encode(a, fmt), encode(b, fmt)
        fmt = ''.join(list(fmt))
        for name in p['metrics']:
            f = getattr(segeval, name)
            bad = p['n'] != p['m'] or name in WINDOWS and fmt == 'sets'
            for options in variants(name):
                sym.check(rejected(f, x, y, boundary_format=fmt, **options) == bad, name + ' ' + fmt)


def formats():
    """A format that does not exist."""
    import segeval
    n = sym.param['n']
    a = lib.masses(lib.bits('a', n))
    b = lib.masses(lib.bits('b', n))
    fmt = sym.choice('format', ['', 'masses', 'Mass', 'set', 'positions', None, 0, 'mas'])
    for name in SIMILARITIES + WINDOWS:
        f = getattr(segeval, name)
        sym.check(rejected(f, a, b, boundary_format=fmt), name)
    dataset = segeval.Dataset({'i': {'c': a, 'd': b}}, boundary_format=fmt)
    for name in SIMILARITIES + WINDOWS:
        sym.check(rejected(getattr(segeval, name), dataset), name + ' of a dataset')
    for f in (segeval.actual_agreement_linear, segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear,
              segeval.artstein_poesio_bias_linear):
        sym.check(rejected(f, dataset), 'agreement')
    for args in ((), (a,), (a, b, a)):
        for name in ('boundary_similarity', 'pk'):
            if len(args) != 1:
                sym.check(rejected(getattr(segeval, name), *args), 'wrong number of arguments')


def datasets():
    """Two datasets in any two formats; the metric is applied only if they agree."""
    import segeval
    n = sym.param['n']
    names = ['mass', 'position', 'nltk', 'sets']
    a = lib.bits('a', n)
    b = lib.bits('b', n)
    fa = sym.choice('fa', names)
    fb = sym.choice('fb', names)
    for x in names:
        for y in names:
            if fa == x and fb == y:
                first = segeval.Dataset({'i': {'c': encode(a, x)}}, boundary_format=sym.fresh(x))
                second = segeval.Dataset({'i': {'d': encode(b, y)}}, boundary_format=sym.fresh(y))
                for name in ('boundary_similarity', 'segmentation_similarity', 'pk', 'window_diff',
                             'boundary_confusion_matrix'):
                    bad = x != y or name in WINDOWS and x == 'sets'
                    sym.check(rejected(getattr(segeval, name), first, second) == bad, name)
