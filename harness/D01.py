"""Pairwise metrics on a dataset compare every coder pair of every item."""
import sym
import lib
from decimal import Decimal

SIM = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix']
WIN = ['pk', 'window_diff']
METRICS = SIM + WIN
QUICK = [{'fn': 'structure', 'items': ['i', 'j'], 'coders': ['c', 'd', 'e']},
         {'fn': 'structure', 'items': ['i'], 'coders': ['d', 'c', 10, 2]},
         {'fn': 'structure', 'items': ['k', 'K', 'z '], 'coders': ['y', 'Y']},
         {'fn': 'structure', 'items': [' k', ''], 'coders': ['y', ' y', '\u00e9 ']}, {'fn': 'wide', 'items': 12, 'coders': 3},
         {'fn': 'wide', 'items': 2, 'coders': 11}] + \
        [{'fn': 'values', 'metric': m, 'format': f, 'n': 2} for m in METRICS for f in ('mass', 'position', 'nltk')] + \
        [{'fn': 'values', 'metric': m, 'format': 'sets', 'n': 2} for m in SIM] + \
        [{'fn': 'permuted', 'metric': m, 'n': 2} for m in METRICS] + \
        [{'fn': 'options', 'metric': m, 'n': 3} for m in METRICS] + \
        [{'fn': 'lengths', 'n': 2}, {'fn': 'history', 'n': 2}, {'fn': 'many', 'coders': 5}]
THOROUGH = [{'fn': 'structure', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']},
            {'fn': 'structure', 'items': ['i', 'j'], 'coders': ['c', 'd', 'e', 'f']}] + \
           [{'fn': 'values', 'metric': m, 'format': f, 'n': 4} for m in METRICS for f in ('mass', 'position')] + \
           [{'fn': 'options', 'metric': m, 'n': 5} for m in METRICS] + \
           [{'fn': 'lengths', 'n': 3}, {'fn': 'history', 'n': 3}, {'fn': 'many', 'coders': 8}]


def names(item, m, n):
    return '%s,%s,%s' % (item, m, n)


def same(x, y, msg):
    if isinstance(x, tuple):
        sym.check(len(x) == len(y), msg)
        sym.check(sym.eq(x[0], y[0]) and sym.eq(x[1], y[1]), msg)
    elif isinstance(x, dict) and 'count_edits' in x:
        for k in ('count_edits', 'boundaries_all', 'pbs'):
            sym.check(sym.eq(x[k], y[k]), msg + ' ' + k)
        for k in ('additions', 'substitutions', 'transpositions', 'matches', 'full_misses', 'boundary_types'):
            sym.check(sorted(x[k]) == sorted(y[k]), msg + ' ' + k)
    elif isinstance(x, dict):
        for p in (None, 1, 2):
            for a in (None, 1, 2):
                sym.check(sym.eq(x[p][a], y[p][a]), msg)
    else:
        sym.check(sym.eq(x, y), msg)


def verify(got, data, f, permuted, msg='value', **kwargs):
    """got holds one entry per pair of coders of each item, each with the value of f."""
    total = 0
    for item in data:
        coders = list(data[item].keys())
        for x in range(len(coders)):
            for y in range(x + 1, len(coders)):
                m, n = coders[x], coders[y]
                one, two = names(item, m, n), names(item, n, m)
                if permuted:
                    sym.check(one in got and two in got, 'both orders')
                else:
                    sym.check((one in got) != (two in got), 'one order')
                if one in got:
                    same(got[one], f(data[item][m], data[item][n], **kwargs), msg)
                if two in got:
                    same(got[two], f(data[item][n], data[item][m], **kwargs), msg)
                total += 2 if permuted else 1
    sym.check(len(got) == total, 'number of pairs')


def tag(a, b, **kwargs):
    """Stands for a metric: says which segmentations it was given."""
    return (a[0], b[0])


def structure():
    """Any items and coders, with a function that tells its arguments."""
    import segeval
    from segeval.compute import compute_pairwise_values
    p = sym.param
    data = {}
    t = 0
    for i in p['items']:
        coded = {}
        for c in p['coders']:
            t += 1
            if sym.fork(sym.bool('%s_%s' % (i, c))):
                coded[c] = (t, sym.int('%s_%s_mass' % (i, c), 1, 9))
        if coded or sym.fork(sym.bool('%s' % i)):
            data[i] = coded
    for permuted in (False, True):
        got = compute_pairwise_values(tag, segeval.Dataset(data), permuted=permuted, return_parts=True)
        verify(got, data, tag, permuted)
        got = compute_pairwise_values(tag, data, permuted=permuted)
        verify(got, data, tag, permuted)
    seen = []

    def record(a, b, **kwargs):
        seen.append(kwargs)
        return a[1] + b[1]
    got = compute_pairwise_values(record, data, permuted=False, some_option=3)
    verify(got, data, record, False)
    for kwargs in seen:
        sym.check('permuted' not in kwargs, 'options')


def coded(name, n, form):
    bs = lib.bits(name, n)
    return {'mass': lib.masses, 'position': lib.positions, 'nltk': lib.nltk, 'sets': lib.single}[form](bs)


def values():
    """Real metrics under their defaults, in the format of the dataset."""
    import segeval
    p = sym.param
    n, form = p['n'], p['format']
    f = getattr(segeval, p['metric'])
    data = {'i': dict((c, coded(c, n, form)) for c in ('c', 'd')),
            'j': dict((c, coded('j' + c, n, form)) for c in ('e', 'c'))}
    d = segeval.Dataset(data, boundary_format=form)
    permuted = p['metric'] in WIN
    got = f(d)
    verify(got, data, f, permuted, boundary_format=form)
    keyword = f(dataset=d)
    verify(keyword, data, f, permuted, boundary_format=form)
    # the format of a dataset is the one it says
    for other in ('mass', 'position', 'nltk'):
        verify(f(d, boundary_format=other), data, f, permuted, boundary_format=form)


def permuted():
    """Both settings of the permutation, as asked for."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    data = {'i': dict((c, coded(c, p['n'], 'mass')) for c in ('x', 'c', 'd')), 'j': {'c': (2, 2), 'd': (1, 2, 1)}}
    d = segeval.Dataset(data)
    for flag in (True, False):
        verify(f(d, permuted=flag), data, f, flag)


def options():
    """Options reach every comparison."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    n = p['n']
    data = {'i': dict((c, coded(c, n, 'mass')) for c in ('c', 'd')), 'j': {'d': (n + 1,), 'c': (1, n)}}
    d = segeval.Dataset(data)
    plain = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    tries = [{'n_t': 3}, {'n_t': 1}, {'weight': plain}, {'n_t': 3, 'weight': plain}] if p['metric'] in SIM else \
        [{'window_size': 3}, {'window_size': 1}, {'fnc_round': lambda x: 3}]
    if p['metric'] == 'window_diff':
        tries.append({'lamprier_et_al_2007_fix': True, 'window_size': 2})
    if p['metric'] not in ('boundary_statistics', 'boundary_confusion_matrix'):
        tries += [{'one_minus': True}, {'return_parts': True}]
    for kwargs in tries:
        verify(f(d, **kwargs), data, f, p['metric'] in WIN, **kwargs)


def lengths():
    """Texts of different lengths: no pair crosses items."""
    import segeval
    n = sym.param['n']
    data = {'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')},
            'j': {'c': coded('e', n + 1, 'mass'), 'd': coded('f', n + 1, 'mass')},
            'k': {'c': (n + 6,)}, 'l': {}}
    for m in METRICS:
        f = getattr(segeval, m)
        verify(f(segeval.Dataset(data)), data, f, m in WIN, m)


def history():
    """After codings were added and changed."""
    import segeval
    n = sym.param['n']
    data = {'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')}}
    d = segeval.Dataset(dict((i, dict(data[i])) for i in data))
    f = segeval.boundary_similarity
    first = f(d)
    d['i']['d'] = data['i']['d'] = coded('e', n, 'mass')
    verify(f(d), data, f, False, 'changed')
    d['i']['e'] = (n + 1,)
    data['i']['e'] = (n + 1,)
    d['j'] = {'c': (1, n), 'e': coded('g', n, 'mass')}
    data['j'] = dict(d['j'])
    verify(f(d), data, f, False, 'extended')
    verify(segeval.pk(d), data, segeval.pk, True, 'extended')
    sym.check(len(first) == 1, 'earlier result')


def many():
    """More coders."""
    import segeval
    k = sym.param['coders']
    data = {'i': dict(('c%d' % i, coded('b%d' % i, 1, 'mass')) for i in range(k))}
    for m in ('boundary_similarity', 'pk'):
        f = getattr(segeval, m)
        verify(f(segeval.Dataset(data)), data, f, m in WIN, m)


def wide():
    """Many items and coders."""
    import segeval
    from segeval.compute import compute_pairwise_values
    p = sym.param
    data = {}
    t = 0
    for x in range(p['items']):
        data['item%d' % x] = {}
        for y in range(p['coders']):
            t += 1
            data['item%d' % x]['coder%d' % y] = (t, sym.int('mass%d' % t, 1, 9))
    there = sym.fork(sym.choice('gone', [None, 'item0', 'item1']))
    if there is not None:
        del data[there]
    for flag in (True, False):
        got = compute_pairwise_values(tag, segeval.Dataset(data), permuted=flag)
        verify(got, data, tag, flag)
    seen = compute_pairwise_values(total, data, permuted=False)
    verify(seen, data, total, False)


def total(a, b, **kwargs):
    return a[1] + b[1]
