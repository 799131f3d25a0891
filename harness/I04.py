"""Reading TSV files preserves every coding."""
import sym
import lib

TAB = '\t'
QUICK = [{'rows': ['c', 'd'], 'size': [3, 2]}, {'rows': ['1', '2', '3'], 'size': [1, 4, 2]},
         {'rows': ['c'], 'size': [5]}, {'rows': [], 'size': []}, {'rows': ['c d', 'e-f'], 'size': [2, 2]},
         {'rows': ['c', ' c', 'c ', 'C', ''], 'size': [1, 2, 1, 1, 2]}, {'rows': ['c%d' % x for x in range(14)], 'size': [2] * 14},
         {'rows': ['c', 'Coder'], 'size': [2, 2], 'header': ['Coder', 3, 4]}, {'rows': ['c', 'd'], 'size': [1, 3], 'header': ['c', 5]},
         {'rows': ['c', 'd'], 'size': [2, 3], 'header': ['Coder']}, {'rows': ['c'], 'size': [3], 'header': ['Coder', '', 'Masses', '7', 'x']},
         {'fn': 'long', 'n': 150}, {'fn': 'quoted'},
         {'rows': ['c', 'd'], 'size': [2, 2], 'delimiter': ','}, {'rows': ['c', 'd'], 'size': [2, 3], 'delimiter': ';'},
         {'rows': ['c', 'd'], 'size': [2, 1], 'delimiter': ' '},
         {'fn': 'positions', 'n': 3, 'delimiter': ','}, {'fn': 'positions', 'n': 2, 'delimiter': TAB},
         {'fn': 'labels', 'n': 4}, {'fn': 'names'}, {'fn': 'duplicate', 'n': 4},
         {'fn': 'agreement', 'n': 2}, {'fn': 'separate'}]
THOROUGH = [{'rows': ['a', 'b', 'c', 'd', 'e'], 'size': [6, 5, 4, 3, 2]}, {'fn': 'positions', 'n': 7, 'delimiter': TAB},
            {'fn': 'labels', 'n': 6}, {'fn': 'agreement', 'n': 3}, {'fn': 'duplicate', 'n': 6}]


def read(f, path, delimiter):
    return f(path) if delimiter == TAB else f(path, delimiter=delimiter)


def main():
    import segeval
    p = sym.param
    delimiter = p.get('delimiter', TAB)
    rows = [p.get('header', ['Coder', 'Masses'])]
    want = {}
    for x in range(len(p['rows'])):
        ms = [sym.int('m%d_%d' % (x, y), 1, 999) for y in range(p['size'][x])]
        rows.append([p['rows'][x]] + ms)
        want[p['rows'][x]] = tuple(ms)
    path = sym.tmp() + '/text one.tsv'
    sym.write_rows(path, rows, delimiter)
    d = read(segeval.input_linear_mass_tsv, path, delimiter)
    sym.check(isinstance(d, segeval.Dataset), 'type')
    sym.check(list(d.keys()) == ['text one'], 'item')
    sym.check(set(d['text one'].keys()) == set(p['rows']), 'coders')
    for c in want:
        sym.check(d['text one'][c] == want[c], 'masses')
        sym.check(isinstance(d['text one'][c], tuple), 'tuple')
    sym.check(d.coders == set(p['rows']), 'coders of the dataset')
    sym.check(d.boundary_format == 'mass', 'format')


def positions():
    import segeval
    from segeval.data.tsv import input_linear_positions_tsv
    p = sym.param
    a, b = lib.bits('a', p['n']), lib.bits('b', p['n'])
    path = sym.tmp() + '/text.csv'
    sym.write_rows(path, [['Coder', 'Positions'], ['c'] + list(lib.positions(a)), ['d'] + list(lib.positions(b))],
                   p['delimiter'])
    d = read(input_linear_positions_tsv, path, p['delimiter'])
    sym.check(list(d.keys()) == ['text'], 'item')
    sym.check(d['text'] == {'c': lib.masses(a), 'd': lib.masses(b)}, 'masses')
    sym.check(d.coders == set(['c', 'd']), 'coders')


def labels():
    """Any labels: the lengths of the runs of equal ones."""
    from segeval.data.tsv import input_linear_positions_tsv
    n = sym.param['n']
    ls = [sym.int('l%d' % x, -3, 99) for x in range(n)]
    path = sym.tmp() + '/text.tsv'
    sym.write_rows(path, [['Coder', 'Positions'], ['c'] + ls], TAB)
    d = input_linear_positions_tsv(path)
    sym.check(list(d['text']['c']) == list(lib.masses([ls[x] != ls[x + 1] for x in range(n - 1)])), 'masses')


def names():
    """The item is named after the file."""
    import segeval
    x = sym.int('x', 1, 9)
    k = sym.fork(sym.choice('name', [0, 1, 2, 3, 4, 5]))
    name, item = [('a.tsv', 'a'), ('a.b.tsv', 'a.b'), ('a b', 'a b'), ('x.TSV', 'x'), ('1.csv', '1'), ('.tsv', '.tsv')][k]
    sym.mkdir(sym.tmp() + '/dir.tsv')
    path = sym.tmp() + '/dir.tsv/' + name
    sym.write_rows(path, [['Coder', 'Masses'], ['c', x]], TAB)
    d = segeval.input_linear_mass_tsv(path)
    sym.check(d == {item: {'c': (x,)}}, 'item')


def duplicate():
    """One coder coding the text twice is an error, as neither coding can be dropped."""
    import segeval
    from segeval.data import DataIOError
    n = sym.param['n']
    coders = [sym.fork(sym.choice('c%d' % x, ['c', 'd', 'e'][:min(x + 1, 3)])) for x in range(n - 1)]
    ms = [sym.int('m%d' % x, 1, 9) for x in range(n - 1)]
    path = sym.tmp() + '/text.tsv'
    sym.write_rows(path, [['Coder', 'Masses']] + [[coders[x], ms[x]] for x in range(n - 1)], TAB)
    try:
        d = segeval.input_linear_mass_tsv(path)
        failed = False
    except DataIOError:
        failed = True
    sym.check(failed == (len(set(coders)) < n - 1), 'rejects duplicates')
    if not failed:
        for x in range(n - 1):
            sym.check(d['text'][coders[x]] == (ms[x],), 'masses')


def agreement():
    """Agreement on what was read is agreement on the codings."""
    import segeval
    n = sym.param['n']
    a, b = lib.masses(lib.bits('a', n)), lib.masses(lib.bits('b', n))
    data = segeval.Dataset()
    same = segeval.Dataset()
    for x in range(2):
        # which rows are there is up to the masses
        path = sym.tmp() + '/t%d.tsv' % x
        rows = [['Coder', 'Masses']]
        codings = {}
        for c, ms in (('c', a), ('d', b)):
            row = [c]
            for y in range(n + 1):
                if sym.fork(y < len(ms)):
                    row.append(ms[y])
            rows.append(row)
            codings[c] = ms
        sym.write_rows(path, rows, TAB)
        data += segeval.input_linear_mass_tsv(path)
        same += segeval.Dataset({'t%d' % x: codings})
    sym.check(data == same and data.coders == same.coders, 'codings')
    s = segeval.actual_agreement_linear(data, return_parts=True)
    t = segeval.actual_agreement_linear(same, return_parts=True)
    sym.check(all([sym.eq(sum(s[k]), sum(t[k])) for k in range(3)]), 'agreement')


def separate():
    """Two files, one after the other."""
    import segeval
    x, y = sym.int('x', 1, 9), sym.int('y', 1, 9)
    one, two = sym.tmp() + '/one.tsv', sym.tmp() + '/two.tsv'
    sym.write_rows(one, [['Coder', 'Masses'], ['c', x, y]], TAB)
    sym.write_rows(two, [['Coder', 'Masses'], ['d', y]], TAB)
    d = segeval.input_linear_mass_tsv(one)
    e = segeval.input_linear_mass_tsv(two)
    f = segeval.input_linear_mass_tsv(one)
    e['two']['z'] = (1,)
    f['one']['c'] = (7,)
    f.coders.add('z')
    sym.check(d == {'one': {'c': (x, y)}} and d.coders == set(['c']), 'first')
    sym.check(e == {'two': {'d': (y,), 'z': (1,)}} and e.coders == set(['d']), 'second')


def long():
    """Many segments."""
    import segeval
    from segeval.data.tsv import input_linear_positions_tsv
    n = sym.param['n']
    ms = [1 + x % 7 for x in range(n)]
    for x in (0, n // 2, n - 1):
        ms[x] = sym.int('m%d' % x, 1, 999)
    path = sym.tmp() + '/text.tsv'
    sym.write_rows(path, [['Coder', 'Masses'], ['c'] + ms, ['d', 5]], TAB)
    d = segeval.input_linear_mass_tsv(path)
    sym.check(list(d['text']['c']) == ms and list(d['text']['d']) == [5], 'masses')
    ls = [x // 3 for x in range(n)]
    last = sym.int('last', 1000, 2000)
    ls[n - 1] = last
    sym.write_rows(path, [['Coder', 'Positions'], ['c'] + ls], TAB)
    d = input_linear_positions_tsv(path)
    sym.check(list(d['text']['c']) == list(lib.masses([ls[x] != ls[x + 1] for x in range(n - 1)])), 'labelled runs')


def quoted():
    """Quoted fields, blanks around numbers and either end of line."""
    import segeval
    k = sym.fork(sym.choice('text', [0, 1, 2, 3, 4, 5]))
    text, want = [('Coder\tMasses\n"a\tb"\t1\t2\n', {'a\tb': (1, 2)}),
                  ('Coder\tMasses\n"a"\t1\t2\nb\t3\n', {'a': (1, 2), 'b': (3,)}),
                  ('Coder\tMasses\na\t 1\t2 \nb\t"3"\n', {'a': (1, 2), 'b': (3,)}),
                  ('Coder\tMasses\r\na\t1\t2\r\nb\t3\r\n', {'a': (1, 2), 'b': (3,)}),
                  ('Coder\tMasses\na\t1\t2\nb\t3', {'a': (1, 2), 'b': (3,)}),
                  ('Coder\n"a ""b"""\t012\t0002\n', {'a "b"': (12, 2)})][k]
    path = sym.tmp() + '/text.tsv'
    sym.write_text(path, text)
    d = segeval.input_linear_mass_tsv(path)
    sym.check(d == {'text': want}, 'codings')
    sym.check(d.coders == set(want), 'coders')
