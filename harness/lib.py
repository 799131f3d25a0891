"""Inputs and reference functions shared by the property harnesses. Everything here is interpreted twice: by the
evaluator with symbolic inputs, and natively when a solver model is replayed on the real code."""
import sym


# ---------------------------------------------------------------- segmentations from boundary bits
def bits(name, n, free=None, fixed=()):
    """One truth value per gap; only the gaps in `free` are inputs (all if None), those in `fixed` are boundaries."""
    out = []
    for i in range(n):
        if i in fixed:
            out.append(True)
        elif free is None or i in free:
            out.append(sym.bool('%s%d' % (name, i)))
        else:
            out.append(False)
    return out


def masses(bs):
    out = []
    cur = 1
    for b in bs:
        if b:
            out.append(cur)
            cur = 1
        else:
            cur += 1
    out.append(cur)
    return tuple(out)


def positions(bs):
    out = [1]
    cur = 1
    for b in bs:
        if b:
            cur += 1
        out.append(cur)
    return tuple(out)


def nltk(bs):
    return ''.join('1' if b else '0' for b in bs)


def single(bs):
    return tuple(frozenset([1]) if b else frozenset() for b in bs)


def mass_list(name, m, hi):
    """m segments of 1..hi units."""
    return tuple(sym.int('%s%d' % (name, i), 1, hi) for i in range(m))


# ---------------------------------------------------------------- boundary strings over several types
def typed(name, n, types, free=None):
    """n positions with any subset of the types: a list of dicts type -> truth value. Positions that are not free are
    empty."""
    return [dict((t, sym.bool('%s%d_%d' % (name, i, t)) if free is None or i in free else False) for t in types)
            for i in range(n)]


def strings(ps):
    out = []
    for p in ps:
        s = set()
        for t in p:
            if p[t]:
                s.add(t)
        out.append(frozenset(s))
    return tuple(out)


def count(items):
    n = 0
    for c in items:
        if c:
            n += 1
    return n


def pair(prefix='', types=None, n=None):
    p = sym.param
    types = p['types'] if types is None else types
    n = p['n'] if n is None else n
    if 'busy' in p:
        return busy(prefix, n, types, p['busy'], p['free'])
    free = p.get('free')
    return typed(prefix + 'a', n, types, free), typed(prefix + 'b', n, types, free)


def busy(prefix, n, types, seed, free):
    """Two boundary strings crowded with matches, near misses and confusions, of which `free` boundaries, spread evenly,
    are inputs. The types in `rare` can only be placed in the middle."""
    pa, pb = [], []
    rare = sym.param.get('rare', [])
    x = seed * 7919 + 17
    for i in range(n):
        a, b = {}, {}
        for t in types:
            x = (x * 1103515245 + 12345) % 2147483648
            u = x // 65536 % 20
            a[t] = u < 9 and t not in rare
            b[t] = (u < 5 or u > 15) and t not in rare
        pa.append(a)
        pb.append(b)
    total = 2 * n * len(types)
    for k in range(free):
        g = (k * total // free + seed * 5 + k * seed % 7) % total
        i, s, t = g // 2 // len(types), g % 2, types[g // 2 % len(types)]
        if t not in rare:
            (pa, pb)[s][i][t] = sym.bool('%s%s%d_%d' % (prefix, 'ab'[s], i, t))
    for t in rare:
        pa[n // 2][t] = sym.bool('%sra_%d' % (prefix, t))
        pb[n // 2][t] = sym.bool('%srb_%d' % (prefix, t))
    return pa, pb


# ---------------------------------------------------------------- reference edit script
def ref_transpositions(pa, pb, types, n_t):
    """Greedy choice of near misses: {(i, j, t): taken}."""
    n = len(pa)
    a = [dict((t, pa[i][t] and not pb[i][t]) for t in types) for i in range(n)]
    b = [dict((t, pb[i][t] and not pa[i][t]) for t in types) for i in range(n)]
    taken = {}
    for span in range(1, n_t):
        for i in range(n - span):
            j = i + span
            for t in types:
                one = (a[i][t] and b[j][t]) or (b[i][t] and a[j][t])
                subs_i = count(a[i].values()) > 0 and count(b[i].values()) > 0
                subs_j = count(a[j].values()) > 0 and count(b[j].values()) > 0
                take = one and not (subs_i and subs_j)
                taken[(i, j, t)] = take
                if take:
                    a[i][t] = False
                    a[j][t] = False
                    b[i][t] = False
                    b[j][t] = False
    return taken, a, b


def least(a, b, types):
    """Least total distance of a maximal pairing of the types set in a with those set in b (no type is in both).
    With both sides sorted an optimal pairing keeps the order: f[k] = least distance with k pairs so far."""
    na, nb = count(a.values()), count(b.values())
    best = 0
    found = False
    for xs in subsets(types):
        for ys in subsets([t for t in types if t not in xs]):
            if not xs or not ys:
                continue
            if all_set(a, xs, types) and all_set(b, ys, types):
                best = pairing(xs, ys)
    return best


def all_set(p, xs, types):
    ok = True
    for t in types:
        if p[t] != (t in xs):
            ok = False
    return ok


def subsets(items):
    out = [[]]
    for x in items:
        out = out + [s + [x] for s in out]
    return out


def pairing(xs, ys):
    """Least distance pairing of concrete types."""
    if len(xs) > len(ys):
        xs, ys = ys, xs
    if not xs:
        return 0
    return min([abs(xs[0] - ys[i]) + pairing(xs[1:], ys[:i] + ys[i + 1:]) for i in range(len(ys))])


def among(x, values):
    for v in values:
        if x == v:
            return True
    return False


# ---------------------------------------------------------------- reference statistics
def present(pa, pb, types):
    """type -> is it placed anywhere by either side."""
    out = {}
    for t in types:
        p = False
        for i in range(len(pa)):
            if pa[i][t] or pb[i][t]:
                p = True
        out[t] = p
    return out


def extent(use, types):
    """Largest minus smallest type in use plus one, 1 if none is."""
    lo = hi = None
    for t in sorted(types):
        if use[t]:
            if lo is None:
                lo = t
            hi = t
    return 1 if lo is None else hi - lo + 1


def reference(pa, pb, types, n_t):
    """What the statistics of two boundary strings should say, from the definitions."""
    n = len(pa)
    taken, ra, rb = ref_transpositions(pa, pb, types, n_t)
    r = {'adds_a': 0, 'adds_b': 0, 'subs': 0, 'distance': 0, 'matches': 0, 'misses': 0, 'all': 0, 'transp': 0,
         'spans': 0, 'taken': taken}
    for i in range(n):
        a, b = count(ra[i].values()), count(rb[i].values())
        r['subs'] += a if a < b else b
        r['adds_a'] += a - b if a > b else 0
        r['adds_b'] += b - a if b > a else 0
        if len(types) > 1:
            r['distance'] += least(ra[i], rb[i], types)
        r['matches'] += count([pa[i][t] and pb[i][t] for t in types])
        r['misses'] += count([pa[i][t] != pb[i][t] for t in types])
        r['all'] += count(pa[i].values()) + count(pb[i].values())
    for k in taken:
        if taken[k]:
            r['transp'] += 1
            r['spans'] += k[1] - k[0]
    r['edits'] = r['adds_a'] + r['adds_b'] + r['subs'] + r['transp']
    use = present(pa, pb, types)
    r['use'] = use
    r['types'] = max(count(use.values()), 1)
    r['extent'] = extent(use, types)
    # weighted edits times n_t times extent
    r['weighted'] = ((r['adds_a'] + r['adds_b']) * n_t + r['spans']) * r['extent'] + r['distance'] * n_t
    return r


def same(pa, pb):
    ok = True
    for i in range(len(pa)):
        for t in pa[i]:
            if pa[i][t] != pb[i][t]:
                ok = False
    return ok
