"""Dataset copies are complete and independent."""
import sym
from data import model, dataset, holds, coders_of

QUICK = [{'items': ['i', 'I'], 'coders': ['c', 'C']}, {'items': ['i'], 'coders': ['c', 'd'], 'list': True},
         {'items': [1], 'coders': [1, 2, 3]},
         {'items': ['i', 'j'], 'coders': ['c', 'd'], 'side': 'copy'},
         {'items': ['i'], 'coders': ['c', 'd'], 'list': True, 'side': 'copy'},
         {'items': ['i', 'j', 'k', 'l'], 'coders': ['c'], 'list': True},
         {'fn': 'nested', 'side': 'copy'}, {'fn': 'nested', 'side': 'original'},
         {'fn': 'twice', 'items': ['i', 'j'], 'coders': ['c']},
         {'fn': 'formats', 'n': 2, 'format': 'sets'}, {'fn': 'formats', 'n': 2, 'format': 'nltk'},
         {'fn': 'formats', 'n': 2, 'format': 'position'}]
THOROUGH = [{'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']},
            {'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e'], 'side': 'copy', 'list': True},
            {'fn': 'twice', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd']},
            {'fn': 'formats', 'n': 4, 'format': 'sets'}, {'fn': 'formats', 'n': 4, 'format': 'position'}]


def change(d, lists):
    """Change everything about a dataset."""
    for i in list(d.keys()):
        for c in ('c', 'd', 1):
            if c in d[i]:
                if lists:
                    d[i][c].append(3)
                d[i][c] = (7,)
        d[i]['new'] = (1, 2)
    d['new'] = {'e': (1,)}
    d.coders.add('new')
    d.properties['x'] = 'changed'
    d.properties['new'] = 1
    d.boundary_types.add(9)
    d.boundary_format = 'other'


def main():
    p = sym.param
    m = model('a', p['items'], p['coders'])
    name, format = sym.choice('x', ['one', 'two']), sym.choice('f', ['mass', 'position'])
    types = sym.subset('t', [1, 2, 3])
    d = dataset(m, 'list' in p, properties={'x': name, 'y': 5}, boundary_types=types, boundary_format=format)
    extra = sym.bool('extra')
    if extra:
        # a coder without codings
        d.coders.add('extra')
    n = d.copy()
    sym.check(type(n) is type(d), 'type')
    sym.check(n == d, 'equal')
    for x in (n, d):
        holds(x, m, 'codings', False)
        sym.check(x.coders == (coders_of(m) | set(['extra']) if extra else coders_of(m)), 'coders')
        sym.check(x.properties == {'x': name, 'y': 5}, 'properties')
        sym.check(x.boundary_types == set(types), 'types')
        sym.check(x.boundary_format == format, 'format')
    changed, kept = (n, d) if 'side' in p else (d, n)
    change(changed, 'list' in p)
    holds(kept, m, 'after a change', False)
    sym.check(kept.coders == (coders_of(m) | set(['extra']) if extra else coders_of(m)), 'coders')
    sym.check(kept.properties == {'x': name, 'y': 5}, 'properties')
    sym.check(kept.boundary_types == set(types), 'types')
    sym.check(kept.boundary_format == format, 'format')


def nested():
    """Properties that are themselves collections."""
    x = sym.int('x', 0, 9)
    import segeval
    d = segeval.Dataset({'i': {'c': (x, 2)}}, properties={'k': [1, {'z': [x]}], 'l': {'m': x}})
    n = d.copy()
    sym.check(n.properties == d.properties, 'equal')
    changed, kept = (n, d) if sym.param['side'] == 'copy' else (d, n)
    changed.properties['k'][1]['z'].append(1)
    changed.properties['k'].append(3)
    changed.properties['l']['m'] = 100
    changed['i']['c'] = (1,)
    changed['i']['d'] = (1,)
    sym.check(kept.properties == {'k': [1, {'z': [x]}], 'l': {'m': x}}, 'properties')
    sym.check(kept['i'] == {'c': (x, 2)}, 'codings')


def twice():
    """A copy of a copy, and two copies of one dataset."""
    p = sym.param
    m = model('a', p['items'], p['coders'])
    d = dataset(m, True)
    first = d.copy()
    second = d.copy()
    third = first.copy()
    change(first, True)
    for x in (d, second, third):
        holds(x, m, 'after a change of the first')
    change(third, True)
    for x in (d, second):
        holds(x, m, 'after a change of the third')
    second += dataset({'z': {'z': [1]}})
    holds(d, m, 'after an addition')


def formats():
    """Copies in the other formats give the same results."""
    import segeval
    import lib
    p = sym.param
    a, b = lib.bits('a', p['n']), lib.bits('b', p['n'])
    f = {'position': lib.positions, 'nltk': lib.nltk, 'sets': lib.single}[p['format']]
    d = segeval.Dataset({'i': {'c': f(a), 'd': f(b)}}, boundary_format=p['format'], boundary_types=[1, 2])
    n = d.copy()
    sym.check(n['i'] == {'c': f(a), 'd': f(b)}, 'codings')
    sym.check(n.boundary_format == p['format'] and n.boundary_types == set([1, 2]), 'format')
    s, t = segeval.boundary_similarity(d), segeval.boundary_similarity(n)
    sym.check(list(s.keys()) == list(t.keys()), 'pairs')
    for k in s:
        sym.check(sym.eq(s[k], t[k]), 'value')
    sym.check(sym.eq(segeval.actual_agreement_linear(d), segeval.actual_agreement_linear(n)), 'agreement')
