"""Adding datasets merges codings and never overwrites one."""
import sym
from data import model, dataset, holds, union, overlap, coders_of

QUICK = [{'items': ['i', 'I', 'k'], 'coders': ['c', 'C', 'c ']}, {'items': ['i'], 'coders': ['c', 'd', 'e'], 'list': True},
         {'items': [1, 2], 'coders': [1, 2], 'list': True}, {'items': ['i', 'j'], 'coders': ['c', 'd'], 'size': 0},
         {'items': ['i'], 'coders': ['c%d' % x for x in range(70)]},
         {'items': ['t%d' % x for x in range(12)], 'coders': ['c']}, {'items': ['i'], 'coders': ['c%d' % x for x in range(12)]},
         {'fn': 'inplace', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'inplace', 'items': ['j'], 'coders': [1, 2, 3]}, {'fn': 'inplace', 'items': ['i'], 'coders': ['c', 'd'], 'size': 0},
         {'fn': 'own', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'history', 'items': ['i'], 'coders': ['c', 'd']},
         {'fn': 'history', 'items': ['i', 'j'], 'coders': ['c']},
         {'fn': 'chain', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'later', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'later', 'items': ['i'], 'coders': ['c', 'd'], 'list': True}]
THOROUGH = [{'items': ['i', 'j', 'k', 'l', 'm'], 'coders': ['c', 'd', 'e', 'f']},
            {'items': ['i', 'j'], 'coders': ['c', 'd'], 'list': True},
            {'fn': 'inplace', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']},
            {'fn': 'history', 'items': ['i', 'j'], 'coders': ['c', 'd']},
            {'fn': 'chain', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd']},
            {'fn': 'later', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd']}]


def two():
    p = sym.param
    size = p.get('size', 2)
    return model('a', p['items'], p['coders'], size), model('b', p['items'], p['coders'], size)


def apart(d, x, y, format, types, msg):
    """The properties, format and types d was created with."""
    sym.check(d.properties == {'x': x, 'y': y}, msg + ': properties')
    sym.check(d.boundary_format == format, msg + ': format')
    sym.check(d.boundary_types == set(types), msg + ': types')


def labelled(m, n):
    """Datasets that differ in everything but their codings, too."""
    p = sym.param
    x = sym.int('x', 0, 9)
    a = dataset(m, 'list' in p, properties={'x': x, 'y': 'a'}, boundary_format='position', boundary_types=[1, 5])
    b = dataset(n, 'list' in p, properties={'x': x + 1, 'y': 'b', 'z': x}, boundary_format='nltk', boundary_types=[2])
    return a, b, x


def main():
    """a + b."""
    import segeval
    from segeval.data import DataIOError
    p = sym.param
    m, n = two()
    a, b, x = labelled(m, n)
    both = overlap(m, n)
    try:
        r = a + b
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == both, 'rejects duplicates')
    if not failed:
        sym.check(isinstance(r, segeval.Dataset), 'type')
        holds(r, union(m, n), 'sum')
        apart(r, x, 'a', 'position', [1, 5], 'sum')
        sym.check(r is not a and r is not b, 'new dataset')
    holds(a, m, 'left operand')
    holds(b, n, 'right operand')
    apart(a, x, 'a', 'position', [1, 5], 'left operand')
    sym.check(b.properties == {'x': x + 1, 'y': 'b', 'z': x} and b.boundary_types == set([2]), 'right operand')


def inplace():
    """a += b."""
    from segeval.data import DataIOError
    m, n = two()
    a, b, x = labelled(m, n)
    same = a
    both = overlap(m, n)
    try:
        a += b
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == both, 'rejects duplicates')
    sym.check(same is a, 'in place')
    if failed:
        # no coding was overwritten
        for i in m:
            for c in m[i]:
                sym.check(list(a[i][c]) == m[i][c], 'kept')
    else:
        holds(a, union(m, n), 'sum')
    holds(b, n, 'right operand')
    apart(a, x, 'a', 'position', [1, 5], 'sum')


def own():
    """A dataset added to itself."""
    from segeval.data import DataIOError
    p = sym.param
    m = model('a', p['items'], p['coders'])
    a = dataset(m)
    try:
        r = a + a
        failed = False
        holds(r, m, 'sum')
    except DataIOError:
        failed = True
    sym.check(failed == overlap(m, m), 'rejects duplicates')
    holds(a, m, 'operand')
    try:
        a += a
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == overlap(m, m), 'rejects duplicates')
    holds(a, m, 'operand')


def history():
    """Several additions, one after the other."""
    from segeval.data import DataIOError
    p = sym.param
    import segeval
    a = segeval.Dataset()
    m = {}
    for x in range(3):
        n = model('b%d' % x, p['items'], p['coders'], size=1)
        if overlap(m, n):
            try:
                a + dataset(n)
                failed = False
            except DataIOError:
                failed = True
            sym.check(failed, 'rejects duplicates')
        else:
            if x == 1:
                a = a + dataset(n)
            else:
                a += dataset(n)
            m = union(m, n)
        holds(a, m, 'sum')


def chain():
    """Further additions do not reach into the datasets added before."""
    from segeval.data import DataIOError
    import segeval
    p = sym.param
    start = model('s', p['items'], p['coders'], size=1)
    m, n = model('a', p['items'], p['coders'], size=1), model('b', p['items'], p['coders'], size=1)
    r, a, b = dataset(start), dataset(m), dataset(n)
    failed = False
    try:
        r += a
        r += b
    except DataIOError:
        failed = True
    sym.check(failed == (overlap(start, m) or overlap(start, n) or overlap(m, n)), 'rejects duplicates')
    holds(a, m, 'first added')
    holds(b, n, 'second added')


def later():
    """Later changes of a sum do not show in its operands."""
    from segeval.data import DataIOError
    p = sym.param
    m, n = two()
    a, b = dataset(m, 'list' in p), dataset(n, 'list' in p)
    a.properties['x'] = ['1']
    b.properties['y'] = ['2']
    if not overlap(m, n):
        r = a + b
        for i in r:
            r[i]['new'] = (1, 2)
            for c in coders_of(union(m, n)):
                if c in r[i]:
                    if 'list' in p:
                        r[i][c].append(3)
                    r[i][c] = (7,)
        r['new'] = {'c': (1,)}
        r.coders.add('new')
        r.boundary_types.add(9)
        r.properties['z'] = '3'
        if 'x' in r.properties:
            r.properties['x'].append('4')
        holds(a, m, 'left operand')
        holds(b, n, 'right operand')
        sym.check(a.properties == {'x': ['1']} and b.properties == {'y': ['2']}, 'properties')
        sym.check(a.boundary_types == set([1]) and b.boundary_types == set([1]), 'types')
