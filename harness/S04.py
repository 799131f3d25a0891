"""Edit weights scale with distance and never exceed the plain counts."""
import sym
import lib

QUICK = [{'m': 0, 'hi': 50}, {'m': 1, 'hi': 50}, {'m': 2, 'hi': 50}, {'m': 4, 'hi': 9},
         {'fn': 'subs', 'm': 0, 'hi': 50}, {'fn': 'subs', 'm': 1, 'hi': 50}, {'fn': 'subs', 'm': 2, 'hi': 50},
         {'fn': 'subs', 'm': 4, 'hi': 9}, {'fn': 'additions', 'm': 5}, {'fn': 'defaults', 'n': 4}]
THOROUGH = [{'m': 3, 'hi': 1000}, {'m': 6, 'hi': 20}, {'m': 8, 'hi': 5}, {'fn': 'subs', 'm': 3, 'hi': 1000},
            {'fn': 'subs', 'm': 6, 'hi': 20}, {'fn': 'additions', 'm': 12}]


def distance(x, y):
    return x - y if x > y else y - x


def main():
    """Transpositions."""
    import segeval
    p = sym.param
    hi = p['hi']
    es = [(sym.int('s%d' % i, 0, hi), sym.int('e%d' % i, 0, hi), sym.int('t%d' % i, 1, 3)) for i in range(p['m'])]
    n_t = sym.int('n_t', 1, hi)
    total = 0
    within = True
    for s, e, t in es:
        total += distance(s, e)
        if distance(s, e) > n_t:
            within = False
    plain = segeval.weight_t(es, n_t)
    scaled = segeval.weight_t_scale(es, n_t)
    sym.check(plain == len(es), 'unscaled weight')
    sym.check(sym.eq(scaled * n_t, total), 'scaled weight')
    sym.check(sym.le(0, total), 'not negative')
    if within:
        # total is n_t times the scaled weight
        sym.check(sym.le(total, n_t * len(es)), 'within the number of edits')
    back = segeval.weight_t_scale([(e, s, t) for s, e, t in es], n_t)
    sym.check(sym.eq(back, scaled), 'direction')
    parts = 0
    for e in es:
        parts += segeval.weight_t_scale([e], n_t) * n_t
    sym.check(sym.eq(parts, total), 'additive')
    other = segeval.weight_t_scale(tuple(es[::-1]), n_t)
    sym.check(sym.eq(other, scaled), 'order')
    sym.observe('scaled', scaled)


def subs():
    import segeval
    p = sym.param
    hi = p['hi']
    es = [(sym.int('a%d' % i, 1, hi), sym.int('b%d' % i, 1, hi)) for i in range(p['m'])]
    least = sym.int('least', 1, hi)
    most = sym.int('most', 1, hi)
    sym.assume(least <= most)
    extent = most - least + 1
    total = 0
    within = True
    for a, b in es:
        total += distance(a, b)
        if distance(a, b) > extent:
            within = False
    sym.check(segeval.weight_s(es, most, least) == len(es), 'unscaled weight')
    sym.check(segeval.weight_s(es, most) == len(es), 'unscaled weight')
    scaled = segeval.weight_s_scale(es, most, least)
    sym.check(sym.eq(scaled * extent, total), 'scaled weight')
    sym.check(sym.eq(segeval.weight_s_scale(es, most) * most, total), 'the smallest type is 1 by default')
    if within:
        sym.check(sym.le(total, extent * len(es)), 'within the number of edits')
    sym.check(sym.eq(segeval.weight_s_scale([(b, a) for a, b in es], most, least), scaled), 'direction')
    parts = 0
    for e in es:
        parts += segeval.weight_s_scale([e], most, least) * extent
    sym.check(sym.eq(parts, total), 'additive')
    sym.observe('scaled', scaled)


def additions():
    import segeval
    es = []
    want = 0
    for i in range(sym.param['m']):
        if sym.bool('there%d' % i):
            es.append((sym.int('t%d' % i, 1, 9), sym.choice('side%d' % i, ['a', 'b'])))
            want += 1
    sym.check(segeval.weight_a(es) == want, 'additions are not weighted')
    sym.check(segeval.weight_a(tuple(es)) == want, 'additions are not weighted')
    sym.observe('n', want)


def defaults():
    """The metrics weigh as the exported scaled weights do."""
    import segeval
    p = sym.param
    pa, pb = lib.pair('', [1, 3], 3)
    a, b = lib.strings(pa), lib.strings(pb)
    for n_t in (1, 2, 3):
        plain = segeval.boundary_statistics(a, b, boundary_format='sets', n_t=n_t)
        stated = segeval.boundary_statistics(
            a, b, boundary_format='sets', n_t=n_t,
            weight=(segeval.weight_a, segeval.weight_s_scale, segeval.weight_t_scale))
        sym.check(sym.eq(plain['count_edits'], stated['count_edits']), 'default weights')
        types = plain['boundary_types']
        want = segeval.weight_a(plain['additions']) \
            + segeval.weight_s_scale(plain['substitutions'], max(types), min(types)) \
            + segeval.weight_t_scale(plain['transpositions'], n_t)
        sym.check(sym.eq(plain['count_edits'], want), 'sum of the weights')
        unscaled = segeval.boundary_statistics(
            a, b, boundary_format='sets', n_t=n_t, weight=(segeval.weight_a, segeval.weight_s, segeval.weight_t))
        sym.check(sym.le(plain['count_edits'], unscaled['count_edits']), 'scaled weights are not larger')
        sym.check(sym.le(0, plain['count_edits']), 'not negative')
        sym.observe('edits%d' % n_t, plain['count_edits'])
