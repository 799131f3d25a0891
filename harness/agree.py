"""Datasets and reference sums shared by the agreement harnesses."""
import sym
import lib
from decimal import Decimal


def bits_of(shape, coders, free=None):
    """item -> coder -> gaps; `shape` maps items to numbers of gaps. Only the codings in `free`, as 'item_coder', are
    inputs (all if None), the others follow a pattern."""
    out = {}
    x = 0
    for label in shape:
        # '#1' is the number
        i = int(label[1:]) if label[:1] == '#' else label
        out[i] = {}
        for c in coders:
            name = '%s_%s' % (i, c)
            x += 1
            out[i][c] = lib.bits(name + '_', shape[label]) if free is None or name in free else \
                [(x + x // 3 + g) % 3 == 0 for g in range(shape[label])]
    return out


def encode(bits, form='mass', items=None, coders=None, rename=None):
    """A dataset with items and coders in the given orders."""
    import segeval
    f = {'mass': lib.masses, 'position': lib.positions, 'nltk': lib.nltk, 'sets': lib.single}[form]
    data = {}
    for i in items or bits:
        data[i] = {}
        for c in coders or bits[i]:
            data[i][rename[c] if rename else c] = f(bits[i][c])
    return segeval.Dataset(data, boundary_format=form)


def pairs(bits):
    """(item, coder, coder) for every unordered pair of coders and every item."""
    out = []
    for i in bits:
        cs = list(bits[i])
        for x in range(len(cs)):
            for y in range(x + 1, len(cs)):
                out.append((i, cs[x], cs[y]))
    return out


def sums(bits, n_t=2, compare='boundary_similarity', weight='scaled'):
    """Numerator times n_t and denominator, from the definitions of the similarities (one boundary type)."""
    num = den = 0
    for i, c, d in pairs(bits):
        pa, pb = [{1: x} for x in bits[i][c]], [{1: x} for x in bits[i][d]]
        r = lib.reference(pa, pb, [1], n_t)
        total = r['edits'] + r['matches'] if compare == 'boundary_similarity' else len(pa)
        num += total * n_t - (r['weighted'] if weight == 'scaled' else r['edits'] * n_t)
        den += total
    return num, den


def proportions(bits):
    """coder -> (boundaries, potential boundaries) over all items, times one less than the number of coders."""
    out = {}
    for i in bits:
        for c in bits[i]:
            b, t = out.get(c, (0, 0))
            out[c] = (b + lib.count(bits[i][c]), t + len(bits[i][c]))
    return out


def expected_pi(bits):
    """Square of the mean proportion of gaps that are boundaries."""
    total = 0
    n = 0
    for i in bits:
        for c in bits[i]:
            total += Decimal(lib.count(bits[i][c])) / len(bits[i][c])
            n += 1
    mean = total / n
    return mean * mean


def expected_kappa(bits):
    """Mean product of the overall proportions of two coders."""
    ps = proportions(bits)
    cs = list(ps)
    total = 0
    n = 0
    for x in range(len(cs)):
        for y in range(x + 1, len(cs)):
            (b, t), (d, u) = ps[cs[x]], ps[cs[y]]
            total += (Decimal(b) / t) * (Decimal(d) / u)
            n += 1
    return total / n


def agreed(bits):
    """Do all coders agree on everything?"""
    ok = True
    for i, c, d in pairs(bits):
        for g in range(len(bits[i][c])):
            if bits[i][c][g] != bits[i][d][g]:
                ok = False
    return ok
