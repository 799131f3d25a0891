"""Comparing two datasets pairs all coders on the shared items."""
import sym
import lib
from D01 import names, same, tag, coded

SIM = ['boundary_similarity', 'segmentation_similarity', 'boundary_statistics', 'boundary_confusion_matrix']
METRICS = SIM + ['pk', 'window_diff']
QUICK = [{'fn': 'structure', 'items': ['j', 'i'], 'coders': [['c', 'd'], ['d']]},
         {'fn': 'structure', 'items': ['i'], 'coders': [['a', 'b', 3], ['b', 'a', 3]]},
         {'fn': 'structure', 'items': ['z', 'Z'], 'coders': [['c'], ['c', 'C']]},
         {'fn': 'structure', 'items': [' z'], 'coders': [['c ', ' c'], ['c ', 'c', '']]},
         {'fn': 'wide', 'items': 2, 'coders': [6, 7]}, {'fn': 'wide', 'items': 12, 'coders': [2, 2]}] + \
        [{'fn': 'values', 'metric': m, 'format': 'mass', 'n': 2} for m in METRICS] + \
        [{'fn': 'values', 'metric': m, 'format': f, 'n': 2} for m in ('boundary_similarity', 'pk')
         for f in ('position', 'nltk')] + \
        [{'fn': 'values', 'metric': m, 'format': 'sets', 'n': 2} for m in SIM] + \
        [{'fn': 'options', 'metric': m, 'n': 3} for m in METRICS] + \
        [{'fn': 'directions', 'n': 3}, {'fn': 'itself', 'n': 2}, {'fn': 'disjoint', 'n': 2}, {'fn': 'history', 'n': 2}]
THOROUGH = [{'fn': 'structure', 'items': ['z', 'a', 'm'], 'coders': [['c'], ['c']]},
            {'fn': 'structure', 'items': ['i', 'j'], 'coders': [['c', 'd'], ['d', 'e']]},
            {'fn': 'structure', 'items': ['i', 'j'], 'coders': [['c', 'd', 'e'], ['d', 'e']]},
            {'fn': 'structure', 'items': ['i', 'j', 'k'], 'coders': [['c', 'd'], ['c']]}] + \
           [{'fn': 'values', 'metric': m, 'format': f, 'n': 4} for m in METRICS for f in ('mass', 'position')] + \
           [{'fn': 'options', 'metric': m, 'n': 5} for m in METRICS] + \
           [{'fn': 'directions', 'n': 5}, {'fn': 'itself', 'n': 4}, {'fn': 'history', 'n': 3}]


def verify(got, one, two, f, msg='value', **kwargs):
    total = 0
    for item in one:
        if item in two:
            for m in one[item]:
                for n in two[item]:
                    k = names(item, m, n)
                    sym.check(k in got, 'pair')
                    if k in got:
                        same(got[k], f(one[item][m], two[item][n], **kwargs), msg)
                    total += 1
    sym.check(len(got) == total, 'number of pairs')


def structure():
    """Any items and coders on either side, with a function that tells its arguments."""
    import segeval
    from segeval.compute import compute_pairwise_values
    p = sym.param
    data = []
    t = 0
    for side in (0, 1):
        out = {}
        for i in p['items']:
            if sym.fork(sym.bool('item_%d_%s' % (side, i))):
                out[i] = {}
                for c in p['coders'][side]:
                    t += 1
                    if sym.fork(sym.bool('coder_%d_%s_%s' % (side, i, c))):
                        out[i][c] = (t, sym.int('mass_%d_%s_%s' % (side, i, c), 1, 9))
        data.append(out)
    one, two = data
    for permuted in (False, True):
        got = compute_pairwise_values(tag, segeval.Dataset(one), segeval.Dataset(two), permuted=permuted)
        verify(got, one, two, tag)
    got = compute_pairwise_values(tag, one, two, permuted=False, return_parts=True)
    verify(got, one, two, tag)


def values():
    import segeval
    p = sym.param
    n, form = p['n'], p['format']
    f = getattr(segeval, p['metric'])
    one = {'i': dict((c, coded('a' + c, n, form)) for c in ('c', 'd')), 'j': {'c': coded('j', n, form)}}
    two = {'i': dict((c, coded('b' + c, n, form)) for c in ('c', 'x')), 'k': {'c': coded('k', n, form)}}
    d, e = segeval.Dataset(one, boundary_format=form), segeval.Dataset(two, boundary_format=form)
    verify(f(d, e), one, two, f, boundary_format=form)
    verify(f(hypothesis=d, reference=e), one, two, f, boundary_format=form)


def options():
    """Options reach every comparison, and permutation does not matter."""
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    n = p['n']
    one = {'i': {'c': coded('a', n, 'mass')}, 'j': {'c': (1, n), 'd': (n, 1)}}
    two = {'i': {'c': coded('b', n, 'mass')}, 'j': {'c': (n + 1,)}}
    d, e = segeval.Dataset(one), segeval.Dataset(two)
    plain = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    tries = [{'n_t': 3}, {'n_t': 1}, {'weight': plain}, {'n_t': 3, 'weight': plain}] if p['metric'] in SIM else \
        [{'window_size': 3}, {'window_size': 1}, {'fnc_round': lambda x: 3}]
    if p['metric'] == 'window_diff':
        tries.append({'lamprier_et_al_2007_fix': True, 'window_size': 2})
    if p['metric'] not in ('boundary_statistics', 'boundary_confusion_matrix'):
        tries += [{'one_minus': True}, {'return_parts': True}]
    for kwargs in tries:
        verify(f(d, e, **kwargs), one, two, f, **kwargs)
    for flag in (True, False):
        verify(f(d, e, permuted=flag), one, two, f)


def directions():
    """Hypothesis and reference are not exchanged."""
    import segeval
    n = sym.param['n']
    one = {'i': {'c': coded('a', n, 'mass')}}
    two = {'i': {'d': coded('b', n, 'mass')}}
    d, e = segeval.Dataset(one), segeval.Dataset(two)
    for m in ('boundary_confusion_matrix', 'pk', 'window_diff', 'boundary_statistics'):
        f = getattr(segeval, m)
        verify(f(d, e), one, two, f, m)
        verify(f(e, d), two, one, f, m + ' back')


def itself():
    """A dataset against itself and against a copy compares each coder with every coder, itself included."""
    import segeval
    n = sym.param['n']
    one = {'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')}, 'j': {'c': (n + 1,), 'e': (1, n)}}
    d = segeval.Dataset(one)
    for f in (segeval.boundary_similarity, segeval.pk):
        verify(f(d, d), one, one, f)
        verify(f(d, d.copy()), one, one, f)


def disjoint():
    import segeval
    n = sym.param['n']
    one = {'i': {'c': coded('a', n, 'mass'), 'd': coded('b', n, 'mass')}}
    two = {'j': {'c': coded('e', n + 1, 'mass'), 'd': coded('f', n + 1, 'mass')}}
    d, e = segeval.Dataset(one), segeval.Dataset(two)
    for m in METRICS:
        f = getattr(segeval, m)
        sym.check(len(f(d, e)) == 0 and len(f(e, d)) == 0, 'no pair')
    two['k'] = dict(one['i'])
    verify(segeval.boundary_similarity(d, segeval.Dataset(two)), one, two, segeval.boundary_similarity)
    sym.check(sorted(d.keys()) == ['i'] and sorted(e.keys()) == ['j'], 'no item appears')


def history():
    """After either dataset was changed."""
    import segeval
    n = sym.param['n']
    one = {'i': {'c': coded('a', n, 'mass')}}
    two = {'i': {'d': coded('b', n, 'mass')}}
    d, e = (segeval.Dataset(dict((i, dict(x[i])) for i in x)) for x in (one, two))
    f = segeval.pk
    verify(f(d, e), one, two, f)
    e['i']['d'] = two['i']['d'] = coded('e', n, 'mass')
    verify(f(d, e), one, two, f, 'changed')
    e['j'] = {'d': (n + 2,)}
    two['j'] = {'d': (n + 2,)}
    verify(f(d, e), one, two, f, 'extended reference')
    d['j'] = {'x': (1, n + 1)}
    one['j'] = {'x': (1, n + 1)}
    verify(f(d, e), one, two, f, 'extended hypothesis')


def wide():
    """Many items and coders."""
    import segeval
    from segeval.compute import compute_pairwise_values
    p = sym.param
    data = []
    t = 0
    for side in (0, 1):
        out = {}
        for x in range(p['items']):
            out['item%d' % x] = {}
            for y in range(p['coders'][side]):
                t += 1
                out['item%d' % x]['coder%d' % y] = (t, sym.int('mass%d' % t, 1, 9))
        gone = sym.fork(sym.choice('gone%d' % side, [None, 'item0', 'item1']))
        if gone is not None:
            del out[gone]
        data.append(out)
    one, two = data
    verify(compute_pairwise_values(tag, segeval.Dataset(one), segeval.Dataset(two), permuted=False), one, two, tag)
    verify(compute_pairwise_values(total, two, one, permuted=True), two, one, total)


def total(a, b, **kwargs):
    return a[1] - b[1]
