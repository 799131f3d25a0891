"""one_minus complements and return_parts decomposes every metric."""
import sym
import lib
from decimal import Decimal

QUICK = [{'metric': 'boundary_similarity', 'n': 4, 'types': [1], 'weights': 'scaled'},
         {'metric': 'boundary_similarity', 'n': 2, 'types': [1, 3], 'weights': 'mixed'},
         {'metric': 'boundary_similarity', 'n': 4, 'types': [1], 'weights': 'plain'},
         {'metric': 'segmentation_similarity', 'n': 4, 'types': [1], 'weights': 'scaled'},
         {'metric': 'segmentation_similarity', 'n': 2, 'types': [1, 3], 'weights': 'mixed'},
         {'metric': 'segmentation_similarity', 'n': 4, 'types': [1], 'weights': 'plain'},
         {'fn': 'windows', 'metric': 'pk', 'n': 5, 'sizes': [1, 3, 6, 9]},
         {'fn': 'windows', 'metric': 'window_diff', 'n': 4, 'sizes': [1, 3, 6]},
         {'fn': 'default_window', 'metric': 'pk', 'n': 4}, {'fn': 'default_window', 'metric': 'window_diff', 'n': 3},
         {'fn': 'datasets', 'n': 2}]
THOROUGH = [{'metric': 'boundary_similarity', 'n': 7, 'types': [1], 'weights': 'scaled'},
            {'metric': 'segmentation_similarity', 'n': 7, 'types': [1], 'weights': 'plain'},
            {'metric': 'boundary_similarity', 'n': 3, 'types': [1, 2, 4], 'weights': 'scaled'},
            {'metric': 'segmentation_similarity', 'n': 3, 'types': [1, 2, 4], 'weights': 'mixed'},
            {'fn': 'windows', 'metric': 'pk', 'n': 9, 'sizes': [1, 2, 4, 9, 12]},
            {'fn': 'windows', 'metric': 'window_diff', 'n': 7, 'sizes': [1, 2, 4, 7, 9]},
            {'fn': 'default_window', 'metric': 'pk', 'n': 6}, {'fn': 'default_window', 'metric': 'window_diff', 'n': 6},
            {'fn': 'datasets', 'n': 4}]


def usable(value):
    """A number that combines with decimals and summarizes."""
    import segeval
    sym.check(sym.isnum(value), 'a number')
    x = Decimal('0.5') + value
    sym.check(sym.eq(x - value, Decimal('0.5')), 'combines')
    mean, std, var, err, n = segeval.summarize({'x': value})
    sym.check(sym.eq(mean, value), 'summarizes')


def options(f, args, kwargs, name=''):
    plain = f(*args, **kwargs)
    minus = f(*args, one_minus=True, **kwargs)
    parts = f(*args, return_parts=True, **kwargs)
    both = f(*args, return_parts=True, one_minus=True, **kwargs)
    stated = f(*args, return_parts=False, one_minus=False, **kwargs)
    sym.check(sym.eq(plain, stated), 'the options are off by default')
    sym.check(sym.eq(minus, 1 - plain), 'complement')
    usable(plain)
    usable(minus)
    sym.check(isinstance(parts, tuple) and isinstance(both, tuple), 'parts are tuples')
    sym.check(len(parts) >= 2 and len(both) >= 2, 'numerator and denominator')
    sym.check(sym.eq(parts[0], both[0]), 'numerator with one_minus')
    sym.check(sym.eq(parts[1], both[1]), 'denominator with one_minus')
    if parts[1] > 0:
        sym.check(sym.eq(plain, Decimal(parts[0]) / parts[1]), 'quotient of the parts')
    sym.observe(name + 'plain', plain)
    sym.observe(name + 'minus', minus)


def main():
    import segeval
    p = sym.param
    pa, pb = lib.pair()
    f = getattr(segeval, p['metric'])
    kwargs = {'boundary_format': 'sets'}
    if p['weights'] == 'plain':
        kwargs['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t)
    elif p['weights'] == 'mixed':
        kwargs['weight'] = (segeval.weight_a, segeval.weight_s, segeval.weight_t_scale)
    options(f, (lib.strings(pa), lib.strings(pb)), kwargs)


def pair():
    p = sym.param
    return lib.masses(lib.bits('a', p['n'])), lib.masses(lib.bits('b', p['n']))


def default_window():
    import segeval
    options(getattr(segeval, sym.param['metric']), pair(), {})


def windows():
    import segeval
    p = sym.param
    f = getattr(segeval, p['metric'])
    a, b = pair()
    for size in p['sizes']:
        options(f, (a, b), {'window_size': size}, 'k%d ' % size)
        if p['metric'] == 'window_diff':
            options(f, (a, b), {'window_size': size, 'lamprier_et_al_2007_fix': True}, 'lamprier k%d ' % size)


def datasets():
    """The options apply to every pair of a dataset."""
    import segeval
    n = sym.param['n']
    dataset = segeval.Dataset({'i': dict((c, lib.masses(lib.bits(c, n))) for c in ('c', 'd'))})
    other = segeval.Dataset({'i': {'e': lib.masses(lib.bits('e', n))}})
    for f in (segeval.boundary_similarity, segeval.segmentation_similarity, segeval.pk, segeval.window_diff):
        for args in ((dataset,), (dataset, other)):
            plain = f(*args)
            minus = f(*args, one_minus=True)
            parts = f(*args, return_parts=True)
            sym.check(len(plain) == len(minus) and len(plain) == len(parts), 'same pairs')
            for k in plain:
                sym.check(sym.eq(minus[k], 1 - plain[k]), 'complement')
                if parts[k][1] > 0:
                    sym.check(sym.eq(plain[k], Decimal(parts[k][0]) / parts[k][1]), 'quotient of the parts')
