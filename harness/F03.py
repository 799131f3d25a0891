"""Metric results do not depend on the encoding of the segmentations."""
import sym
import lib

METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk',
           'window_diff']
QUICK = [{'n': 2 if 'matrix' in m else 3 if 'similarity' in m else 4, 'metric': m} for m in METRICS] + \
        [{'n': 20, 'metric': 'segmentation_similarity', 'free': [0, 9, 19]},
         {'n': 8, 'metric': 'pk', 'free': [0, 4, 7]}, {'n': 6, 'metric': 'window_diff', 'free': [1, 3], 'plain': True}] + \
        [{'fn': 'datasets', 'n': 2 if 'matrix' in m else 3, 'metric': m} for m in METRICS] + \
        [{'fn': 'agreement', 'n': 3, 'metric': m} for m in
         ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')] + \
        [{'fn': 'window', 'n': 6}]
THOROUGH = [{'n': 7, 'metric': m} for m in METRICS] + \
           [{'n': 40, 'metric': m, 'free': [0, 1, 19, 20, 39]} for m in METRICS] + \
           [{'fn': 'datasets', 'n': 5, 'metric': m} for m in METRICS] + \
           [{'fn': 'agreement', 'n': 5, 'metric': m} for m in
            ('actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear')] + \
           [{'fn': 'window', 'n': 12}]
WINDOWS = ('pk', 'window_diff')


def encode(bs, fmt):
    return {'mass': lib.masses, 'position': lib.positions, 'nltk': lib.nltk, 'sets': lib.single}[fmt](bs)


def formats(metric):
    return ['mass', 'position', 'nltk'] + ([] if metric in WINDOWS else ['sets'])


def equal(x, y, msg):
    """Two results of one metric."""
    if isinstance(x, tuple):
        sym.check(len(x) == len(y), msg)
        for i in range(2):
            sym.check(sym.eq(x[i], y[i]), msg)
    elif isinstance(x, dict) and 'count_edits' in x:
        for k in ('count_edits', 'boundaries_all', 'pbs'):
            sym.check(sym.eq(x[k], y[k]), msg + ' ' + k)
        for k in ('additions', 'substitutions', 'transpositions', 'matches', 'full_misses', 'boundary_types'):
            sym.check(sorted(x[k]) == sorted(y[k]), msg + ' ' + k)
    elif isinstance(x, dict):
        for p in (None, 1):
            for a in (None, 1):
                sym.check(sym.eq(x[p][a], y[p][a]), msg + ' cell')
        sym.check(x.classes() == y.classes(), msg + ' classes')
    else:
        sym.check(sym.eq(x, y), msg)


def main():
    import segeval
    p = sym.param
    metric = p['metric']
    f = getattr(segeval, metric)
    a = lib.bits('a', p['n'], p.get('free'))
    b = lib.bits('b', p['n'], p.get('free'))
    variants = [{}]
    if metric in WINDOWS:
        variants = [{}, {'return_parts': True}, {'window_size': 2, 'return_parts': True}]
    elif metric != 'boundary_statistics':
        variants = [{}, {'n_t': 3}]
    if 'plain' in p:
        variants = [{}]
    elif metric == 'window_diff':
        variants.append({'lamprier_et_al_2007_fix': True, 'return_parts': True})
    for kwargs in variants:
        want = f(encode(a, 'mass'), encode(b, 'mass'), **kwargs)
        for fmt in formats(metric):
            got = f(encode(a, fmt), encode(b, fmt), boundary_format=sym.fresh(fmt), **kwargs)
            equal(got, want, fmt)


def coded(fmt, n):
    import segeval
    return segeval.Dataset({'i': {'c': encode(lib_bits('c', n), fmt), 'd': encode(lib_bits('d', n), fmt)},
                            'j': {'c': encode(lib_bits('x', n - 1), fmt), 'd': encode(lib_bits('y', n - 1), fmt)}},
                           boundary_format=sym.fresh(fmt))


KNOWN_BITS = {}


def lib_bits(name, n):
    if name not in KNOWN_BITS:
        KNOWN_BITS[name] = lib.bits(name, n)
    return KNOWN_BITS[name]


def datasets():
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    want = f(coded('mass', p['n']))
    for fmt in formats(p['metric']):
        got = f(coded(fmt, p['n']))
        sym.check(sorted(got.keys()) == sorted(want.keys()), fmt + ' pairs')
        for k in want:
            equal(got[k], want[k], fmt)


def agreement():
    import segeval
    p = sym.param
    metric = p['metric']
    f = getattr(segeval, metric)
    want = f(coded('mass', p['n']), return_parts=True)
    for fmt in ('mass', 'position', 'nltk', 'sets'):
        got = f(coded(fmt, p['n']), return_parts=True)
        if metric == 'actual_agreement_linear':
            for i in range(3):
                sym.check(list(got[i]) == list(want[i]), fmt)
            for c in ('c', 'd'):
                sym.check(got[3][c] == want[3][c], fmt + ' boundaries')
        else:
            equal(got, want, fmt)


def window():
    """The window size of masses and positions."""
    import segeval
    bs = lib.bits('b', sym.param['n'])
    m, p = lib.masses(bs), lib.positions(bs)
    sym.check(segeval.compute_window_size(m) == segeval.compute_window_size(p, boundary_format='position'), 'tuple')
    a = segeval.Dataset({'i': {'c': m}})
    b = segeval.Dataset({'i': {'c': p}}, boundary_format='position')
    sym.check(segeval.compute_window_size(a) == segeval.compute_window_size(b, boundary_format='position'), 'dataset')
