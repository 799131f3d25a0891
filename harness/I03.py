"""Writing a dataset to JSON and reading it back preserves it."""
import sym
import lib
from data import model, dataset, holds, coders_of

NAMES = ['item 1', 'Item 1', 'caf\u00e9', 'items']
QUICK = [{'items': ['i', 'j'], 'coders': ['c', 'd']}, {'items': NAMES, 'coders': ['segmentation_type', '1']},
         {'items': ['i'], 'coders': ['c'], 'size': 4, 'plain': True}, {'items': ['i'], 'coders': ['c', 'd'], 'size': 0},
         {'items': ['t%d' % x for x in range(12)], 'coders': ['c', 'd'], 'size': 1}, {'fn': 'kinds'}, {'fn': 'long', 'n': 150},
         {'fn': 'metrics', 'items': ['i', 'j'], 'n': 2},
         {'fn': 'rejects'}, {'fn': 'malformed'}, {'fn': 'twice', 'items': ['i', 'j'], 'coders': ['c', 'd']},
         {'fn': 'folder', 'items': ['i'], 'coders': ['c', 'd']},
         {'fn': 'document', 'items': ['i', 'j'], 'coders': ['c', 'd']}]
THOROUGH = [{'items': ['i', 'j', 'k', 'l'], 'coders': ['c', 'd', 'e', 'f'], 'size': 3},
            {'fn': 'metrics', 'items': ['i', 'j'], 'n': 4}, {'fn': 'metrics', 'items': ['i'], 'n': 5},
            {'fn': 'twice', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']},
            {'fn': 'document', 'items': ['i', 'j', 'k'], 'coders': ['c', 'd', 'e']}]


def main():
    """Items, coders, masses and properties."""
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'], p.get('size', 2))
    x, y = sym.int('x', -5, 5), sym.choice('y', ['one', 'caf\u00e9'])
    properties = {'source': y, 'number': x, 'nested': {'k': [x, {'z': y}]}} if 'plain' not in p else None
    d = dataset(m, properties=properties)
    path = sym.tmp() + '/data.json'
    segeval.output_linear_mass_json(path, d)
    holds(d, m, 'written dataset')
    sym.check(d.properties == ({} if properties is None else properties), 'written properties')
    r = segeval.input_linear_mass_json(path)
    sym.check(isinstance(r, segeval.Dataset), 'type')
    holds(r, m, 'read dataset')
    sym.check(isinstance(r.coders, set), 'coders')
    for i in m:
        for c in m[i]:
            sym.check(isinstance(r[i][c], tuple), 'tuples')
            sym.check(r[i][c] == tuple(m[i][c]), 'masses')
    if properties is not None:
        for k in properties:
            sym.check(r.properties[k] == properties[k], 'properties')
    for k in r.properties:
        sym.check(k == 'segmentation_type' or properties is not None and k in properties, 'no other properties')
    sym.check(r.boundary_format == 'mass' and r.boundary_types == set([1]), 'format')


def metrics():
    """Every metric and coefficient gives the same result."""
    import segeval
    p = sym.param
    n = p['n']
    data = {}
    for i in p['items']:
        data[i] = {'c': lib.masses(lib.bits('c_%s_' % i, n)), 'd': lib.masses(lib.bits('d_%s_' % i, n))}
    d = segeval.Dataset(data)
    path = sym.tmp() + '/data.json'
    segeval.output_linear_mass_json(path, d)
    r = segeval.input_linear_mass_json(path)
    for f in (segeval.boundary_similarity, segeval.segmentation_similarity, segeval.pk, segeval.window_diff):
        s, t = f(d), f(r)
        sym.check(len(s) == len(t), 'pairs')
        for k in s:
            sym.check(k in t and sym.eq(s[k], t[k]), 'value')
    for f in (segeval.actual_agreement_linear, segeval.fleiss_pi_linear, segeval.fleiss_kappa_linear):
        s, t = f(d, return_parts=True), f(r, return_parts=True)
        if f is segeval.actual_agreement_linear:
            s, t = [sum(v) for v in s[:3]], [sum(v) for v in t[:3]]
        sym.check(all([sym.eq(s[k], t[k]) for k in range(len(s))]), 'agreement')


def rejects():
    """Files without items, or with a missing or different type."""
    import segeval
    from segeval.data import DataIOError
    x = sym.int('x', 1, 9)
    kinds = [None, 'linear', 'hierarchical', 'Linear', '', 'linear ', 1]
    kind = sym.fork(sym.choice('kind', [0, 1, 2, 3, 4, 5, 6, 7]))
    doc = {}
    if kind < 7:
        doc['segmentation_type'] = kinds[kind]
    there = sym.bool('items')
    if there:
        doc['items'] = {'i': {'c': [x, 2]}}
    if sym.bool('other'):
        doc['other'] = 1
    path = sym.tmp() + '/data.json'
    sym.write_json(path, doc)
    try:
        r = segeval.input_linear_mass_json(path)
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == (kind != 1 or not there), 'rejects')
    if not failed:
        holds(r, {'i': {'c': [x, 2]}}, 'read dataset')


def malformed():
    """Files that are not JSON."""
    import segeval
    from segeval.data import DataIOError
    text = sym.fork(sym.choice('text', ['', 'Coder\tMasses\nc\t1\t2\n', '{', '{"segmentation_type": "linear", "items": {}',
                                        "{'a': 1}", '{"items": {"i": {"c": [1,]}}, "segmentation_type": "linear"}']))
    path = sym.tmp() + '/data.json'
    sym.write_text(path, text)
    try:
        segeval.input_linear_mass_json(path)
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed, 'rejects')


def twice():
    """Written, read, changed, written and read again."""
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'], 1)
    d = dataset(m, properties={'k': 'v'})
    one, two = sym.tmp() + '/one.json', sym.tmp() + '/two.json'
    segeval.output_linear_mass_json(one, d)
    first = segeval.input_linear_mass_json(one)
    first.properties['l'] = 'w'
    first['new'] = {'e': (3, 4)}
    segeval.output_linear_mass_json(two, first)
    second = segeval.input_linear_mass_json(two)
    m['new'] = {'e': [3, 4]}
    holds(second, m, 'second')
    sym.check(second.properties['k'] == 'v' and second.properties['l'] == 'w', 'properties')
    again = segeval.input_linear_mass_json(one)
    del m['new']
    holds(again, m, 'first again')
    sym.check(again.properties['k'] == 'v' and 'l' not in again.properties, 'properties')
    holds(d, m, 'original')
    # a shorter dataset over a longer one
    segeval.output_linear_mass_json(two, segeval.Dataset({'z': {'f': (1,)}}))
    holds(segeval.input_linear_mass_json(two), {'z': {'f': [1]}}, 'overwritten')


def folder():
    """Given a folder, the file is output.json in it."""
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'])
    sym.mkdir(sym.tmp() + '/out')
    segeval.output_linear_mass_json(sym.tmp() + '/out', dataset(m))
    holds(segeval.input_linear_mass_json(sym.tmp() + '/out/output.json'), m, 'read dataset')


def document():
    """Files written by others: any field order, further fields."""
    import segeval
    p = sym.param
    m = model('a', p['items'], p['coders'])
    x = sym.int('x', 0, 9)
    path = sym.tmp() + '/data.json'
    sym.write_json(path, {'items': m, 'id': x, 'segmentation_type': 'linear', 'codings': {'i': {}}})
    r = segeval.input_linear_mass_json(path)
    holds(r, m, 'read dataset')
    sym.check(r.properties['id'] == x and r.properties['codings'] == {'i': {}}, 'properties')
    sym.check('items' not in r.properties, 'items are no property')


def kinds():
    """Properties of any kind JSON has, large masses, and empty items."""
    import segeval
    x, y = sym.int('x', 1, 10 ** 12), sym.int('y', -10 ** 12, 10 ** 12)
    kind = sym.fork(sym.choice('kind', [0, 1, 2, 3, 4, 5, 6, 7]))
    value = [None, True, False, '', [], {}, y, [None, {'a': False}]][kind]
    d = segeval.Dataset({'i': {'c': (x, 1), 'd': (1, x)}, 'none': {}}, properties={'p': value, ' q ': 'r', '': value})
    path = sym.tmp() + '/data.json'
    segeval.output_linear_mass_json(path, d)
    r = segeval.input_linear_mass_json(path)
    holds(r, {'i': {'c': [x, 1], 'd': [1, x]}, 'none': {}}, 'read dataset')
    sym.check('p' in r.properties and ' q ' in r.properties and '' in r.properties, 'names of the properties')
    sym.check(r.properties['p'] == value and r.properties[''] == value and r.properties[' q '] == 'r', 'properties')
    sym.check((r.properties['p'] is None) == (kind == 0), 'none')
    sym.check(isinstance(r.properties['p'], bool) == (kind == 1 or kind == 2), 'truth values')
    for k in d.properties:
        sym.check(k in ('p', ' q ', ''), 'properties as before')


def long():
    """Many segments."""
    import segeval
    n = sym.param['n']
    ms = [1 + x % 7 for x in range(n)]
    for x in (0, n // 2, n - 1):
        ms[x] = sym.int('m%d' % x, 1, 999)
    path = sym.tmp() + '/data.json'
    segeval.output_linear_mass_json(path, segeval.Dataset({'i': {'c': tuple(ms), 'd': ms[::-1]}}))
    holds(segeval.input_linear_mass_json(path), {'i': {'c': ms, 'd': ms[::-1]}}, 'read dataset')
