"""A dataset holds exactly what it was created with."""
import sym
import lib
from data import model, dataset, holds, coders_of

QUICK = [{'items': ['i', 'I'], 'coders': ['c', 'd', 1]}, {'items': [1], 'coders': ['c', 'C'], 'list': True},
         {'items': ['i', 'j'], 'coders': ['c', 'd'], 'size': 0},
         {'fn': 'defaults', 'items': ['i'], 'coders': ['c', 'd']},
         {'fn': 'passed', 'items': ['i'], 'coders': ['c', 'd']}, {'fn': 'passed', 'items': ['i'], 'coders': ['c'], 'side': 'dataset'},
         {'fn': 'separate', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'grown', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'plain', 'n': 2}]
THOROUGH = [{'items': ['i', 'I', 'j', 1], 'coders': ['c', 'd', 'C', 1]},
            {'fn': 'separate', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']},
            {'fn': 'grown', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']}, {'fn': 'plain', 'n': 4}]


def main():
    from segeval.data import get_coders
    p = sym.param
    m = model('a', p['items'], p['coders'], p.get('size', 2))
    x, format = sym.int('x', 0, 9), sym.choice('f', ['mass', 'position', 'nltk', 'sets'])
    types = sym.subset('t', [1, 2, 3, 70])
    properties = {'x': x, 'y': [x]} if sym.bool('has_properties') else {}
    d = dataset(m, 'list' in p, properties=properties, boundary_types=types, boundary_format=format)
    holds(d, m, 'codings')
    sym.check(get_coders(d) == coders_of(m), 'coders')
    sym.check(d.properties == properties, 'properties')
    sym.check(d.boundary_types == set(types), 'types')
    sym.check(d.boundary_format == format, 'format')
    sym.observe('coders', len(d.coders))


def defaults():
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'])
    for d, want in ((segeval.Dataset(), {}), (dataset(m), m), (segeval.Dataset({}), {})):
        holds(d, want, 'codings')
        sym.check(d.properties == {}, 'no properties')
        sym.check(d.boundary_types == set([1]), 'type 1')
        sym.check(d.boundary_format == segeval.BoundaryFormat.mass, 'masses')


def passed():
    """What was passed is not shared."""
    p = sym.param
    m = model('a', p['items'], p['coders'])
    x = sym.int('x', 0, 9)
    properties, types = {'x': x}, set([1, 5])
    d = dataset(m, properties=properties, boundary_types=types)
    if 'side' in p:
        d.properties['z'] = x
        d.properties['x'] = x + 1
        d.boundary_types.add(9)
        sym.check(properties == {'x': x} and types == set([1, 5]), 'what was passed')
    else:
        properties['z'] = x
        properties['x'] = x + 1
        types.add(9)
        sym.check(d.properties == {'x': x}, 'properties')
        sym.check(d.boundary_types == set([1, 5]), 'types')
    holds(d, m, 'codings')


def separate():
    """Datasets share nothing with each other."""
    import segeval
    p = sym.param
    m, n = model('a', p['items'], p['coders']), model('b', p['items'], p['coders'])
    d, e, f = dataset(m), dataset(n), segeval.Dataset()
    for i in p['items']:
        e[i]['new'] = (1,)
        if i not in n:
            n[i] = {}
        n[i]['new'] = [1]
    e.coders.add('new')
    e.properties['x'] = 1
    e.boundary_types.add(7)
    e.boundary_format = segeval.BoundaryFormat.sets
    holds(d, m, 'one dataset')
    holds(e, n, 'the changed dataset')
    holds(f, {}, 'empty dataset')
    for x in (d, f, segeval.Dataset()):
        sym.check(x.properties == {} and x.boundary_types == set([1]), 'properties and types')
        sym.check(x.boundary_format == segeval.BoundaryFormat.mass, 'format')


def grown():
    """Items that are not there yet are empty and can be filled."""
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'])
    d = dataset(m)
    d['one']['e'] = (1, 2)
    d['two']
    m['one'] = {'e': [1, 2]}
    m['two'] = {}
    holds(d, m, 'codings', False)
    n = d['one']
    n['f'] = (3,)
    m['one']['f'] = [3]
    holds(d, m, 'codings', False)
    e = segeval.Dataset(dict((i, d[i]) for i in d))
    holds(e, m, 'again')


def plain():
    """A dictionary of dictionaries has the coders and the agreement of the dataset made from it."""
    import segeval
    from segeval.data import get_coders
    n = sym.param['n']
    data = {'i': {'c': lib.masses(lib.bits('a', n)), 'd': lib.masses(lib.bits('b', n))},
            'j': {'c': lib.masses(lib.bits('x', n)), 'd': (1, n)}}
    d = segeval.Dataset(data)
    sym.check(get_coders(data) == d.coders and get_coders(data) == set(['c', 'd']), 'coders')
    sym.check(get_coders({}) == set(), 'no coders')
    for f in (segeval.actual_agreement_linear, segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear,
              segeval.artstein_poesio_bias_linear):
        one = f(d, return_parts=True)
        two = f(data, return_parts=True, boundary_format=segeval.BoundaryFormat.mass)
        sym.check(one == two, 'agreement')
        sym.check(f(data, return_parts=True) == two, 'default format')
