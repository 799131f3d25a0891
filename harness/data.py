"""Datasets with codings that may be absent, shared by the data harnesses. A model of a dataset is a dict of dicts."""
import sym


def model(name, items, coders, size=2, always=(), fork=False):
    """item -> coder -> masses; items and codings are present or absent independently."""
    out = {}
    for i in items:
        there = True if i in always else sym.bool('%s_%s' % (name, i))
        if fork:
            there = sym.fork(there)
        if there:
            out[i] = {}
        for c in coders:
            coded = sym.bool('%s_%s_%s' % (name, i, c))
            ms = [sym.int('%s_%s_%s_%d' % (name, i, c, x), 1, 9) for x in range(size)]
            if fork:
                coded = sym.fork(coded)
            if there and coded:
                out[i][c] = ms
    return out


def dataset(m, as_list=False, **kwargs):
    import segeval
    return segeval.Dataset(dict((i, dict((c, list(m[i][c]) if as_list else tuple(m[i][c])) for c in m[i])) for i in m),
                           **kwargs)


def coders_of(m):
    out = set()
    for i in m:
        for c in m[i]:
            out.add(c)
    return out


def holds(d, m, msg, coders=True):
    """Does the dataset hold exactly the codings of the model?"""
    sym.check(set(d.keys()) == set(m.keys()), msg + ': items')
    sym.check(len(d) == len(m), msg + ': number of items')
    for i in m:
        sym.check(set(d[i].keys()) == set(m[i].keys()), msg + ': codings')
        for c in m[i]:
            sym.check(list(d[i][c]) == m[i][c], msg + ': masses')
    if coders:
        sym.check(set(d.coders) == coders_of(m), msg + ': coders')


def union(m, n):
    out = {}
    for x in (m, n):
        for i in x:
            if i not in out:
                out[i] = {}
            for c in x[i]:
                out[i][c] = x[i][c]
    return out


def overlap(m, n):
    return any([c in n[i] for i in m if i in n for c in m[i]])
