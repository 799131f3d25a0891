"""Loading a folder tree collects exactly its data files."""
import sym
from data import holds, union, overlap

# folder, file name, what the file is
TREE = [['', 'a.json', 'json'], ['x', 'b.json', 'json'], ['x/y', 'c.JSON', 'json'], ['x/y/z', 'd.jsn', 'json'],
        ['x', 'e.tsv', 'tsv'], ['x/y', 'f.txt', 'json']]
TYPES = [['', 'a.json', 'json'], ['', 'b.Jsn', 'json'], ['', 'c.tsv', 'tsv'], ['', 'd.json.bak', 'json'],
         ['', 'json', 'json'], ['', 'e.csv', 'tsv'], ['', 'f.jsonl', 'json'], ['', '.json', 'json']]
TABS = [['', 'a.tsv', 'tsv'], ['x', 'b.CSV', 'tsv'], ['x/y', 'c.Tsv', 'tsv'], ['x/y', 'd.json', 'json'],
        ['x/y', 'e.tsvx', 'tsv'], ['v.tsv', 'g.tsv', 'tsv']]
MIXED = [['x/y', 'a.json', 'json'], ['x', 'b.json', 'json'], ['', 'c.json', 'json'], ['x', 'd', 'json'], ['z', 'e.txt', 'json']]
WIDE = [['x', 'a.json', 'json'], ['y', 'a.json', 'json'], ['x/y', 'a.json', 'json'], ['y/x', 'a.json', 'json'],
        ['w.json', 'a.json', 'json']]
DEEP = [['a/b/c/d/e/f/g', 'a.json', 'json'], ['c/d/e/f/g', 'a.json', 'json'], ['a/b/c/d/e', 'b.json', 'json'], ['a/b/c/d', 'c.txt', 'json']]
NAMES = [['.x', 'a.json', 'json'], ['v1.2', 'a.b.json', 'json'], ['', '.a.json', 'json'], ['x y', ' a .JSN', 'json'], ['', 'a..json', 'json'],
         ['', 'b.json.txt', 'json'], ['-', 'json.x', 'json'], ['', 'output.json', 'json'], ['~', 'a.json~', 'json'], ['__pycache__', 'x.json', 'json']]
TABLES = [['.x', 'a.tsv', 'tsv'], ['v1.2', 'a.b.csv', 'tsv'], ['', '.a.tsv', 'tsv'], ['x y', ' a .TSV', 'tsv'], ['', 'b.tsv.txt', 'tsv'],
          ['a/b/c/d/e/f/g', 'a.b.tsv', 'tsv']]
QUICK = [{'tree': DEEP, 'type': 'json'}, {'tree': NAMES, 'type': 'json'}, {'tree': TABLES, 'type': 'tsv'},
         {'tree': TREE, 'type': 'json'}, {'tree': TREE, 'type': 'tsv'}, {'tree': TYPES, 'type': 'json'},
         {'tree': TYPES, 'type': 'tsv'}, {'tree': MIXED, 'type': 'json'}, {'tree': TABS, 'type': 'tsv'}, {'tree': WIDE, 'type': 'json'},
         {'tree': WIDE + TREE, 'type': 'json'}, {'tree': (TABS + TYPES[3:])[::-1], 'type': 'tsv'},
         {'tree': TREE[::-1], 'type': 'json'}, {'tree': TABS[::-1] + [['x/y/z', 'h.csv', 'tsv']], 'type': 'tsv'},
         {'fn': 'spread', 'folder': ''}, {'fn': 'spread', 'folder': 'x/y'}, {'fn': 'tables'},
         {'fn': 'twice'}, {'fn': 'agreement'}, {'fn': 'extended'}]
THOROUGH = [{'tree': WIDE + [['x/y/z/u', 'a.json', 'json'], ['x/y/z/u/v', 'b.json', 'json']] + TREE[::-1] + TYPES[1:], 'type': 'json'},
            {'tree': WIDE + TABS + TREE + [['x/y/z/u/v', 'b.tsv', 'tsv']] + TYPES[:0:-1], 'type': 'tsv'},
            {'fn': 'spread', 'folder': 'x', 'files': 4}]


def folders(path):
    """Make the folders of a path below the root."""
    p = sym.tmp() + '/root'
    for name in path.split('/'):
        if name:
            p += '/' + name
            sym.mkdir(p)
    return p


def put(folder, name, kind, x):
    """One file with two masses coded by c, and what it holds."""
    path = folders(folder) + '/' + name
    if kind == 'json':
        sym.write_json(path, {'segmentation_type': 'linear', 'items': {'item': {'c' + name: [x, 2]}}})
        return 'item', 'c' + name
    sym.write_rows(path, [['Coder', 'Masses'], ['c' + name, x, 2]], '\t')
    return name[:name.rindex('.')] if name.rfind('.') > 0 else name, 'c' + name


def main():
    """Which files are read, and what their items are called."""
    import segeval
    p = sym.param
    sym.mkdir(sym.tmp() + '/root')
    extensions = {'json': ['json', 'jsn'], 'tsv': ['tsv', 'csv']}[p['type']]
    want = {}
    n = 0
    for folder, name, kind in p['tree']:
        there = sym.bool('file%d' % n)
        empty = sym.bool('folder%d' % n) if folder else False
        x = sym.int('x%d' % n, 1, 9)
        n += 1
        if empty:
            folders(folder)
        if there:
            item, coder = put(folder, name, kind, x)
            if name.rfind('.') > 0 and name.lower()[name.rindex('.') + 1:] in extensions:
                item = ','.join([f for f in folder.split('/') if f] + [item])
                want = union(want, {item: {coder: [x, 2]}})
    d = segeval.load_nested_folders_dict(sym.tmp() + '/root', p['type'])
    sym.check(isinstance(d, segeval.Dataset), 'type')
    holds(d, want, 'loaded')


def spread():
    """The codings of one item spread over several files of a folder."""
    import segeval
    from segeval.data import DataIOError
    p = sym.param
    sym.mkdir(sym.tmp() + '/root')
    folder = folders(p['folder'])
    want = {}
    twice = False
    for n in range(p.get('files', 3)):
        m = {}
        for i in ('i', 'j'):
            for c in ('c', 'd'):
                coded = sym.bool('f%d_%s_%s' % (n, i, c))
                x = sym.int('m%d_%s_%s' % (n, i, c), 1, 9)
                if coded:
                    if i not in m:
                        m[i] = {}
                    m[i][c] = [x]
        sym.write_json(folder + '/%d.json' % n, {'segmentation_type': 'linear', 'items': m})
        twice = twice or overlap(want, m)
        want = union(want, m)
    try:
        d = segeval.load_nested_folders_dict(sym.tmp() + '/root', 'json')
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == twice, 'rejects duplicates')
    if not failed:
        names = [f for f in p['folder'].split('/') if f]
        holds(d, dict((','.join(names + [i]), want[i]) for i in want), 'loaded')


def tables():
    """Two delimited files with the same name but another extension are codings of one item."""
    import segeval
    from segeval.data import DataIOError
    sym.mkdir(sym.tmp() + '/root')
    folder = folders('x')
    first, second = sym.fork(sym.choice('first', ['c', 'd'])), sym.fork(sym.choice('second', ['c', 'd']))
    x, y = sym.int('x', 1, 9), sym.int('y', 1, 9)
    sym.write_rows(folder + '/t.tsv', [['Coder', 'Masses'], [first, x, y]], '\t')
    sym.write_rows(folder + '/t.csv', [['Coder', 'Masses'], [second, y]], '\t')
    try:
        d = segeval.load_nested_folders_dict(sym.tmp() + '/root', 'tsv')
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == (first == second), 'rejects duplicates')
    if not failed:
        holds(d, {'x,t': {first: [x, y], second: [y]}}, 'loaded')


def twice():
    """Loads do not influence each other."""
    import segeval
    x, y = sym.int('x', 1, 9), sym.int('y', 1, 9)
    sym.mkdir(sym.tmp() + '/root')
    put('', 'a.json', 'json', x)
    put('f/g', 'b.json', 'json', y)
    put('f/g', 't.tsv', 'tsv', y)
    put('h', 't.tsv', 'tsv', x)
    want = {'item': {'ca.json': [x, 2]}, 'f,g,item': {'cb.json': [y, 2]}}
    table = {'f,g,t': {'ct.tsv': [y, 2]}, 'h,t': {'ct.tsv': [x, 2]}}
    root = sym.tmp() + '/root'
    first = segeval.load_nested_folders_dict(root, 'json')
    holds(first, want, 'first')
    second = segeval.load_nested_folders_dict(root, 'tsv')
    holds(second, table, 'second')
    third = segeval.load_nested_folders_dict(root, 'json')
    holds(third, want, 'third')
    holds(segeval.load_nested_folders_dict(root + '/f', 'json'), {'g,item': {'cb.json': [y, 2]}}, 'inner')
    third['item']['z'] = (1,)
    third.coders.add('z')
    third.properties['z'] = 1
    holds(first, want, 'first, later')
    holds(second, table, 'second, later')
    holds(segeval.load_nested_folders_dict(root, 'json'), want, 'fourth')
    sym.check('z' not in segeval.load_nested_folders_dict(root, 'json').properties, 'properties')


def agreement():
    """What was loaded can be compared."""
    import segeval
    sym.mkdir(sym.tmp() + '/root')
    x, y = sym.int('x', 1, 3), sym.int('y', 1, 3)
    for folder in ('a', 'b/c'):
        path = folders(folder)
        sym.write_json(path + '/c.json', {'segmentation_type': 'linear', 'items': {'i': {'c': [x, 4 - x]}}})
        sym.write_json(path + '/d.json', {'segmentation_type': 'linear', 'items': {'i': {'d': [y, 4 - y]}}})
    d = segeval.load_nested_folders_dict(sym.tmp() + '/root', 'json')
    e = segeval.Dataset({'a,i': {'c': (x, 4 - x), 'd': (y, 4 - y)}, 'b,c,i': {'c': (x, 4 - x), 'd': (y, 4 - y)}})
    sym.check(d == e and d.coders == e.coders, 'codings')
    s = segeval.actual_agreement_linear(d, return_parts=True)
    t = segeval.actual_agreement_linear(e, return_parts=True)
    sym.check(all([sym.eq(sum(s[k]), sum(t[k])) for k in range(3)]), 'agreement')
    s, t = segeval.boundary_similarity(d), segeval.boundary_similarity(e)
    sym.check(len(s) == 2 and len(t) == 2, 'pairs')
    # which coder of a pair comes first is not determined
    for i in ('a,i', 'b,c,i'):
        u, v = [[x[k] for k in x if k[:len(i)] == i] for x in (s, t)]
        sym.check(len(u) == 1 and len(v) == 1 and sym.eq(u[0], v[0]), 'values')


def extended():
    """Loading into a dataset adds to it."""
    import segeval
    from segeval.data import DataIOError
    x = sym.int('x', 1, 9)
    sym.mkdir(sym.tmp() + '/root')
    put('f', 'a.json', 'json', x)
    coder = sym.fork(sym.choice('coder', ['d', 'ca.json']))
    d = segeval.Dataset({'f,item': {coder: (x,)}, 'other': {'d': (x,)}})
    try:
        e = segeval.load_nested_folders_dict(sym.tmp() + '/root', 'json', dataset=d)
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == (coder != 'd'), 'rejects duplicates')
    if not failed:
        holds(e, {'f,item': {'d': [x], 'ca.json': [x, 2]}, 'other': {'d': [x]}}, 'loaded')
