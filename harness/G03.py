"""Metrics leave their inputs untouched and are repeatable."""
import sym
import lib

METRICS = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix', 'pk',
           'window_diff']
SIMILARITIES = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix']
AGREEMENT = ['actual_agreement_linear', 'fleiss_pi_linear', 'fleiss_kappa_linear', 'artstein_poesio_bias_linear']
QUICK = [{'fn': 'lists', 'n': 4, 'metric': m, 'format': f} for m in METRICS for f in ('mass', 'position')] + \
        [{'fn': 'sets', 'n': 2, 'types': [1, 2]}, {'fn': 'sets', 'n': 3, 'types': [1]}] + \
        [{'fn': 'datasets', 'n': 2, 'metric': m} for m in METRICS + AGREEMENT] + \
        [{'fn': 'histories', 'n': 2, 'first': m} for m in METRICS] + \
        [{'fn': 'typed', 'n': 1, 'metric': m} for m in SIMILARITIES + AGREEMENT] + \
        [{'fn': 'options', 'n': 3}, {'fn': 'windows', 'n': 4}, {'fn': 'kept', 'n': 3}, {'fn': 'defaults', 'n': 2}, {'fn': 'matrices', 'hi': 5}, {'fn': 'agreements', 'n': 2}]
THOROUGH = [{'fn': 'lists', 'n': 6, 'metric': m, 'format': f} for m in METRICS for f in ('mass', 'position')] + \
           [{'fn': 'sets', 'n': 4, 'types': [1, 2]}, {'fn': 'sets', 'n': 2, 'types': [1, 2, 3]}] + \
           [{'fn': 'datasets', 'n': 4, 'metric': m} for m in METRICS + AGREEMENT] + \
           [{'fn': 'histories', 'n': 4, 'first': m} for m in METRICS] + \
           [{'fn': 'typed', 'n': 2, 'metric': m} for m in SIMILARITIES + AGREEMENT] + \
           [{'fn': 'options', 'n': 6}, {'fn': 'windows', 'n': 7}, {'fn': 'kept', 'n': 5}, {'fn': 'defaults', 'n': 4}, {'fn': 'matrices', 'hi': 50}, {'fn': 'agreements', 'n': 3}]


def equal(x, y, msg):
    if isinstance(x, tuple):
        sym.check(len(x) == len(y), msg)
        for i in range(2):
            sym.check(sym.eq(x[i], y[i]), msg)
    elif isinstance(x, dict) and 'count_edits' in x:
        for k in x:
            sym.check(k in y, msg)
            if isinstance(x[k], list) or isinstance(x[k], frozenset):
                sym.check(sorted(x[k]) == sorted(y[k]), msg + ' ' + k)
            else:
                sym.check(sym.eq(x[k], y[k]), msg + ' ' + k)
    elif isinstance(x, dict):
        for p in (None, 1, 2):
            for a in (None, 1, 2):
                sym.check(sym.eq(x[p][a], y[p][a]), msg)
    else:
        sym.check(sym.eq(x, y), msg)


def lists():
    """Segmentations given as lists."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    convert = lib.masses if p['format'] == 'mass' else lib.positions
    a = list(convert(lib.bits('a', p['n'])))
    b = list(convert(lib.bits('b', p['n'])))
    was_a, was_b = list(a), list(b)
    for kwargs in ([{}, {'lamprier_et_al_2007_fix': True}] if p['metric'] == 'window_diff' else [{}]):
        first = f(a, b, boundary_format=p['format'], **kwargs)
        sym.check(a == was_a, 'first segmentation')
        sym.check(b == was_b, 'second segmentation')
        second = f(a, b, boundary_format=p['format'], **kwargs)
        equal(first, second, 'again')
        other = f(tuple(was_a), tuple(was_b), boundary_format=p['format'], **kwargs)
        equal(first, other, 'tuples')


def sets():
    """Boundary strings of mutable sets."""
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    a, b = lib.strings(pa), lib.strings(pb)
    xs, ys = [set(s) for s in a], [set(s) for s in b]
    first = segeval.boundary_edit_distance(xs, ys, n_t=3)
    second = segeval.boundary_edit_distance(xs, ys, n_t=3)
    for m in SIMILARITIES:
        r = getattr(segeval, m)(xs, ys, boundary_format='sets')
        equal(r, getattr(segeval, m)(a, b, boundary_format='sets'), m)
    for i in range(p['n']):
        sym.check(xs[i] == a[i], 'first string')
        sym.check(ys[i] == b[i], 'second string')
    sym.check(len(xs) == p['n'] and len(ys) == p['n'], 'length')
    for x, y in zip(first, second):
        sym.check(sorted(x) == sorted(y), 'again')


def state(d):
    """Everything a dataset holds."""
    return (sorted([(i, sorted(list(d[i].items()))) for i in d.keys()]), sorted(d.coders), sorted(d.properties.items()),
            sorted(d.boundary_types), d.boundary_format)


def dataset(n):
    import segeval
    return segeval.Dataset({'i': {'c': lib.masses(lib.bits('c', n)), 'd': lib.masses(lib.bits('d', n))},
                            'j': {'c': lib.masses(lib.bits('x', n)), 'd': (n + 1,)}}, properties={'source': 'a'})


def datasets():
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    d = dataset(p['n'])
    if sym.fork(sym.bool('assigned')):
        # codings stored directly
        d['i']['e'] = (1, p['n'])
        d['j']['e'] = (p['n'], 1)
        d['j']['c'] = (p['n'] + 1,)
    was = state(d)
    kwargs = {'return_parts': True} if p['metric'] in AGREEMENT else {}
    first = f(d, **kwargs)
    sym.check(state(d) == was, 'dataset')
    if p['metric'] not in AGREEMENT:
        e = segeval.Dataset({'i': {'e': (1, p['n'])}})
        was_e = state(e)
        f(d, e)
        sym.check(state(d) == was, 'hypothesis dataset')
        sym.check(state(e) == was_e, 'reference dataset')
    second = f(d, **kwargs)
    sym.check(state(d) == was, 'dataset')
    if p['metric'] in AGREEMENT:
        if p['metric'] == 'actual_agreement_linear':
            for i in range(3):
                sym.check(list(first[i]) == list(second[i]), 'again')
        else:
            equal(first, second, 'again')
    else:
        sym.check(sorted(first.keys()) == sorted(second.keys()), 'again')
        for k in first:
            equal(first[k], second[k], 'again')


def typed():
    """Datasets of boundary sets, with any types declared."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    pa, pb = lib.pair('', [1, 2], p['n'])
    declared = sym.subset('declared', [1, 2, 3])
    d = segeval.Dataset({'i': {'c': lib.strings(pa), 'd': lib.strings(pb)}, 'j': {'c': (frozenset(),), 'd': (frozenset([2]),)}},
                        boundary_types=declared, boundary_format='sets')
    was = [(i, c, d[i][c]) for i in d for c in d[i]]
    kwargs = {'return_parts': True} if p['metric'] in AGREEMENT else {}
    f(d, **kwargs)
    for i, c, s in was:
        sym.check(d[i][c] == s, 'codings')
    sym.check(len(d) == 2 and sorted(d.coders) == ['c', 'd'] and sorted(d.keys()) == ['i', 'j'], 'items and coders')
    sym.check(d.boundary_types == set(declared), 'types')
    sym.check(d.boundary_format == 'sets' and d.properties == {}, 'format and properties')


def call(metric, a, b, option):
    """Metric under an option, given in every format."""
    import segeval
    f = getattr(segeval, metric)
    if option == 0:
        return f(lib.masses(a), lib.masses(b))
    if option == 1:
        return f(lib.positions(a), lib.positions(b), boundary_format='position')
    if option == 2:
        return f(lib.nltk(a), lib.nltk(b), boundary_format='nltk')
    if metric in SIMILARITIES:
        return f(lib.masses(a), lib.masses(b), n_t=3, weight=(segeval.weight_a, segeval.weight_s, segeval.weight_t))
    return f(lib.masses(a), lib.masses(b), window_size=3, one_minus=True)


def histories():
    """Any metric under any option between two computations."""
    p = sym.param
    a = lib.bits('a', p['n'])
    b = lib.bits('b', p['n'])
    first = call(p['first'], a, b, 0)
    kept = call(p['first'], a, b, 3)
    between = sym.choice('between', METRICS)
    option = sym.choice('option', [0, 1, 2, 3])
    for m in METRICS:
        for o in range(4):
            if m == between and o == option:
                call(m, a, b, o)
    equal(first, call(p['first'], a, b, 0), 'again')
    equal(kept, call(p['first'], a, b, 3), 'again with options')


def defaults():
    """Option dictionaries and defaults are not changed."""
    import segeval
    from segeval.metric import METRIC_DEFAULTS
    from segeval.similarity import SIMILARITY_METRIC_DEFAULTS
    from segeval.window import WINDOW_METRIC_DEFAULTS
    from segeval.agreement import AGREEMENT_METRIC_DEFAULTS
    tables = [METRIC_DEFAULTS, SIMILARITY_METRIC_DEFAULTS, WINDOW_METRIC_DEFAULTS, AGREEMENT_METRIC_DEFAULTS]
    was = [dict(t) for t in tables]
    n = sym.param['n']
    d = dataset(n)
    for m in METRICS:
        options = {'boundary_format': 'mass', 'permuted': True}
        if m in ('pk', 'window_diff'):
            options['window_size'] = 2
        else:
            options['n_t'] = 1
        kept = dict(options)
        getattr(segeval, m)(d, **options)
        getattr(segeval, m)((n + 1,), (1, n), **options)
        sym.check(options == kept, 'options')
    for m in AGREEMENT:
        getattr(segeval, m)(d, return_parts=True, n_t=3)
    segeval.compute_window_size(d, boundary_format='mass')
    for t, w in zip(tables, was):
        sym.check(t == w, 'defaults')


def matrices():
    """Precision, recall and F-measure of a matrix."""
    import segeval
    m = segeval.ConfusionMatrix()
    for x in (1, 2):
        for y in (1, None):
            m[x][y] = sym.int('m%s%s' % (x, y), 0, sym.param['hi'])
    was = dict(((x, y), m[x][y]) for x in m for y in m[x])
    first = []
    second = []
    for out in (first, second):
        for f in (segeval.precision, segeval.recall, segeval.fmeasure):
            for version in (segeval.Average.micro, segeval.Average.macro):
                out.append(f(m, version=version))
            out.append(f(m, 1))
    for x, y in zip(first, second):
        sym.check(sym.eq(x, y), 'again')
    for k in was:
        sym.check(m[k[0]][k[1]] == was[k], 'cell')
    sym.check(sorted([x for x in m.classes() if x is not None]) == [1, 2] and None in m.classes(), 'classes')


def agreements():
    """Agreement is the same after other agreement and other options."""
    import segeval
    d = dataset(sym.param['n'])
    first = segeval.fleiss_kappa_linear(d, return_parts=True)
    other = segeval.fleiss_kappa_linear(d, return_parts=True, fnc_compare=segeval.segmentation_similarity)
    segeval.fleiss_pi_linear(d, return_parts=True, n_t=1)
    segeval.artstein_poesio_bias_linear(d, fnc_compare=segeval.segmentation_similarity)
    equal(first, segeval.fleiss_kappa_linear(d, return_parts=True), 'again')
    equal(other, segeval.fleiss_kappa_linear(d, return_parts=True, fnc_compare=segeval.segmentation_similarity),
          'again with options')


def options():
    """Results under one option do not leak into results under another."""
    import segeval
    p = sym.param
    pa, pb = lib.pair('', [1])
    a = lib.masses([x[1] for x in pa])
    b = lib.masses([x[1] for x in pb])
    refs = dict((n_t, lib.reference(pa, pb, [1], n_t)) for n_t in (1, 2, 3))
    plain = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    for n_t, weight in ((2, None), (3, None), (1, None), (3, plain), (2, plain), (2, None), (3, None)):
        r = refs[n_t]
        kwargs = {} if weight is None else {'weight': weight}
        for f in (segeval.boundary_similarity, segeval.segmentation_similarity):
            num, den = f(a, b, n_t=n_t, return_parts=True, **kwargs)[:2]
            sym.check(den == (p['n'] if f is segeval.segmentation_similarity else r['edits'] + r['matches']),
                      'denominator')
            if weight is None:
                sym.check(sym.eq((den - num) * n_t, r['weighted']), 'weighted edits')
            else:
                sym.check(sym.eq(den - num, r['edits']), 'plain edits')
        edits = segeval.boundary_edit_distance(lib.strings(pa), lib.strings(pb), n_t=n_t)
        sym.check(len(edits[0]) + len(edits[1]) + len(edits[2]) == r['edits'], 'edits')


def windows():
    """Results for one window size do not leak into results for another."""
    import segeval
    p = sym.param
    n = p['n'] + 1
    bits_a, bits_b = lib.bits('a', p['n']), lib.bits('b', p['n'])
    a, b = lib.masses(bits_a), lib.masses(bits_b)
    for k in (2, 1, 3, 2, 1):
        ends = counts = 0
        for i in range(n - k):
            x, y = lib.count(bits_a[i:i + k]), lib.count(bits_b[i:i + k])
            if (x > 0) != (y > 0):
                ends += 1
            if x != y:
                counts += 1
        sym.check(segeval.pk(a, b, window_size=k, return_parts=True) == (ends, n - k), 'Pk')
        sym.check(segeval.window_diff(a, b, window_size=k, return_parts=True) == (counts, n - k), 'WindowDiff')


def kept():
    """The defaults are those of before after a whole dataset, or a pair, was given other options."""
    import segeval
    n = sym.param['n']
    a, b, x, y = [lib.masses(lib.bits(c, n)) for c in 'abxy']
    d = segeval.Dataset({'i': {'c1': a, 'c2': b}})
    metrics = (segeval.pk, segeval.window_diff, segeval.boundary_similarity)
    first = [(f(x, y), list(f(d).items())) for f in metrics]
    for k in (1, 3, 2):
        for f in metrics[:2]:
            f(d, window_size=k)
            f(d, window_size=k, one_minus=True)
            f(x, y, window_size=k, return_parts=True)
        segeval.boundary_similarity(d, n_t=k, one_minus=True)
        segeval.boundary_similarity(x, y, n_t=k, return_parts=True)
        for f, (pair, whole) in zip(metrics, first):
            sym.check(sym.eq(f(x, y), pair), 'pair by default')
            again = f(d)
            sym.check(len(again) == len(whole), 'pairs of the dataset')
            for key, value in whole:
                sym.check(sym.eq(again[key], value), 'dataset by default')
