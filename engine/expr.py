"""Hash-consed boolean / rational-arithmetic terms with local simplification.

Booleans are kept in negation normal form (De Morgan applied eagerly) so that path conditions expose their
conjuncts; numbers are linear combinations over atoms (variables, indicator of a boolean, ite, mul, div, floor, ...).
Integer and rational values share one representation: exact constants, `int` where integral, else `Fraction`.
"""
from fractions import Fraction
from math import gcd
import sys

INF = float('inf')


def norm(v):
    """The canonical Python number of an exact value."""
    t = type(v)
    if t is int:
        return v
    if t is not Fraction:
        v = Fraction(v)
    return v.numerator if v.denominator == 1 else v


def quot(a, b):
    if type(a) is int and type(b) is int and a % b == 0:
        return a // b
    return norm(Fraction(a) / b)


_table = {}
_next = [0]


class E(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', 'z', 'neg', 'conj')

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, lo=None, hi=None, key=None):
    k = (op,) + (key if key is not None else args)
    e = _table.get(k)
    if e is None:
        e = E()
        e.op, e.args, e.sort = op, args, sort
        e.id = _next[0]
        _next[0] += 1
        e.lo, e.hi = lo, hi
        e.z = None
        e.neg = None
        e.conj = None
        _table[k] = e
    return e


def reset():
    """Forget every term except the constants (one symbolic run per table)."""
    _table.clear()
    for e in (TRUE, FALSE, ZERO, ONE):
        e.z = None
    _table[('true',)] = TRUE
    _table[('false',)] = FALSE
    _table[('c', 0)] = ZERO
    _table[('c', 1)] = ONE


def size():
    return len(_table)


# ---------------------------------------------------------------- booleans
TRUE = _mk('true', (), 'b')
FALSE = _mk('false', (), 'b')
TRUE.neg, FALSE.neg = FALSE, TRUE
TRUE.conj, FALSE.conj = frozenset(), frozenset([FALSE.id])


def bvar(name):
    return _mk('bv', (name,), 'b')


def conjuncts(e):
    if e.op == 'and':
        return e.args
    if e is TRUE:
        return ()
    return (e,)


def conj_ids(e):
    c = e.conj
    if c is None:
        c = e.conj = frozenset(x.id for x in conjuncts(e))
    return c


def not_(e):
    n = e.neg
    if n is not None:
        return n
    op = e.op
    if op == 'and':
        n = or_(*[not_(x) for x in e.args])
    elif op == 'or':
        n = and_(*[not_(x) for x in e.args])
    elif op == 'le':
        d = e.args[0]
        n = _le0(sub(ONE, d)) if d.sort == 'i' else _lt0(neg(d))
    elif op == 'lt':
        n = _le0(neg(e.args[0]))
    else:
        n = _mk('not', (e,), 'b')
    e.neg = n
    if n.neg is None:
        n.neg = e
    return n


_and_memo = {}


def and_(*xs):
    if len(xs) == 2:
        a, b = xs
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE or b is FALSE:
            return FALSE
        if a is b:
            return a
    s = {}
    ors = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            for y in x.args:
                if y.id not in s:
                    s[y.id] = y
                    if y.op == 'or':
                        ors.append(y)
        elif x is not TRUE:
            if x.id not in s:
                s[x.id] = x
                if x.op == 'or':
                    ors.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    for e in s.values():
        n = e.neg
        if n is not None and n.id in s:
            return FALSE
    if ors:
        changed = True
        rounds = 0
        while changed and ors and rounds < 4:
            changed = False
            rounds += 1
            for o in list(ors):
                if o.id not in s:
                    ors.remove(o)
                    continue
                keep = []
                drop = False
                for d in o.args:
                    if d.op == 'and':
                        allin = True
                        dead = False
                        for y in d.args:
                            if y.id not in s:
                                allin = False
                            n = not_(y)
                            if n.id in s:
                                dead = True
                                break
                        if dead:
                            continue
                        if allin:
                            drop = True
                            break
                        keep.append(d)
                    else:
                        if d.id in s:
                            drop = True
                            break
                        n = not_(d)
                        if n.id in s:
                            continue
                        keep.append(d)
                if drop:
                    del s[o.id]
                    ors.remove(o)
                    changed = True
                elif len(keep) != len(o.args):
                    del s[o.id]
                    ors.remove(o)
                    changed = True
                    if not keep:
                        return FALSE
                    r = or_(*keep)
                    if r is FALSE:
                        return FALSE
                    for y in conjuncts(r):
                        if y.id not in s:
                            s[y.id] = y
                            n = not_(y)
                            if n.id in s:
                                return FALSE
                            if y.op == 'or':
                                ors.append(y)
        if not s:
            return TRUE
        if len(s) == 1:
            return next(iter(s.values()))
    ids = tuple(sorted(s))
    return _mk('and', tuple(s[i] for i in ids), 'b', key=ids)


def or_(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            for y in x.args:
                s[y.id] = y
        elif x is not FALSE:
            s[x.id] = x
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    for e in s.values():
        n = e.neg
        if n is not None and n.id in s:
            return TRUE
    if len(s) <= 24:
        ds = [dict((c.id, c) for c in conjuncts(e)) for e in s.values()]
        changed = True
        while changed:
            changed = False
            n = len(ds)
            for i in range(n):
                a = ds[i]
                if a is None:
                    continue
                for j in range(n):
                    b = ds[j]
                    if i == j or b is None:
                        continue
                    # absorption: a subset of b -> drop b
                    if len(a) <= len(b) and all(k in b for k in a):
                        ds[j] = None
                        changed = True
                        continue
                    # a minus one literal subset of b with complement: remove the complement from b
                    if len(a) <= len(b):
                        miss = None
                        for k in a:
                            if k not in b:
                                if miss is not None:
                                    miss = False
                                    break
                                miss = a[k]
                        if miss:
                            m = not_(miss)
                            if m.id in b:
                                b = dict(b)
                                del b[m.id]
                                ds[j] = b
                                changed = True
                                if not b:
                                    return TRUE
            ds = [d for d in ds if d is not None]
        if len(ds) == 1:
            return and_(*ds[0].values())
        common = set(ds[0])
        for d in ds[1:]:
            common &= set(d)
            if not common:
                break
        if common:
            cm = [ds[0][k] for k in common]
            rest = [and_(*[v for k, v in d.items() if k not in common]) for d in ds]
            return and_(or_(*rest), *cm)
        s = {}
        for d in ds:
            e = and_(*d.values())
            if e is TRUE:
                return TRUE
            if e.op == 'or':
                for y in e.args:
                    s[y.id] = y
            elif e is not FALSE:
                s[e.id] = e
        if not s:
            return FALSE
        if len(s) == 1:
            return next(iter(s.values()))
        for e in s.values():
            n = e.neg
            if n is not None and n.id in s:
                return TRUE
    ids = tuple(sorted(s))
    return _mk('or', tuple(s[i] for i in ids), 'b', key=ids)


def ite_b(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE:
        return or_(c, y)
    if x is FALSE:
        return and_(not_(c), y)
    if y is TRUE:
        return or_(not_(c), x)
    if y is FALSE:
        return and_(c, x)
    return or_(and_(c, x), and_(not_(c), y))


def iff(a, b):
    if a is b:
        return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))


def xor(a, b):
    return not_(iff(a, b))


def implies(a, b):
    return or_(not_(a), b)


def relative(pc, base):
    """The conjuncts of pc that base does not already contain."""
    if pc is base:
        return TRUE
    if base is TRUE:
        return pc
    b = conj_ids(base)
    return and_(*[x for x in conjuncts(pc) if x.id not in b])


# ---------------------------------------------------------------- numbers
def const(v):
    v = norm(v)
    return _mk('c', (v,), 'i' if v.denominator == 1 else 'r', v, v)


ZERO = const(0)
ONE = const(1)


def nvar(name, sort, lo=None, hi=None):
    return _mk('v', (name,), sort, -INF if lo is None else norm(lo), INF if hi is None else norm(hi))


def b2i(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return _mk('b2i', (b,), 'i', 0, 1, key=(b.id,))


def lin_parts(e):
    """(constant, {atom id: (coef, atom)})"""
    if e.op == 'c':
        return e.args[0], {}
    if e.op == 'lin':
        return e.args[0], dict((a.id, (k, a)) for k, a in e.args[1])
    return 0, {e.id: (1, e)}


def _mul_bound(k, b):
    if k == 0:
        return 0
    if b == INF or b == -INF:
        return b if k > 0 else -b
    return k * b


def mk_lin(c, parts, own=False):
    """own: parts belongs to this call and has no zero and only canonical coefficients."""
    if type(c) is not int:
        c = norm(c)
    if not own:
        parts = dict((i, p if type(p[0]) is int else (norm(p[0]), p[1])) for i, p in parts.items() if p[0] != 0)
    if not parts:
        return const(c)
    # complementary indicators: k*b2i(p) + m*b2i(not p)
    if len(parts) > 1:
        for i in list(parts):
            if i not in parts:
                continue
            k, a = parts[i]
            if a.op == 'b2i':
                n = a.args[0].neg
                if n is not None:
                    na = _table.get(('b2i', n.id))
                    if na is not None and na.id in parts and na.id != i:
                        m = parts[na.id][0]
                        del parts[na.id]
                        c = c + m
                        if k - m == 0:
                            del parts[i]
                        else:
                            parts[i] = (k - m, a)
        if not parts:
            return const(c)
    if c == 0 and len(parts) == 1:
        k, a = next(iter(parts.values()))
        if k == 1:
            return a
    items = tuple(parts[i] for i in sorted(parts))
    sort = 'i'
    if c.denominator != 1:
        sort = 'r'
    lo = hi = c
    for k, a in items:
        if a.sort != 'i' or k.denominator != 1:
            sort = 'r'
        if k > 0:
            l, h = _mul_bound(k, a.lo), _mul_bound(k, a.hi)
        else:
            l, h = _mul_bound(k, a.hi), _mul_bound(k, a.lo)
        lo = lo + l if lo != -INF and l != -INF else -INF
        hi = hi + h if hi != INF and h != INF else INF
    return _mk('lin', (c, items), sort, lo, hi, key=(c, tuple((k, a.id) for k, a in items)))


def add(x, y):
    c1, p1 = lin_parts(x)
    c2, p2 = lin_parts(y)
    if not p2 and c2 == 0:
        return x
    if not p1 and c1 == 0:
        return y
    if len(p1) < len(p2):
        p1, p2 = p2, p1
    p = dict(p1)
    for i, (k, a) in p2.items():
        if i in p:
            k = k + p[i][0]
            if k == 0:
                del p[i]
                continue
            if type(k) is not int:
                k = norm(k)
        p[i] = (k, a)
    return mk_lin(c1 + c2, p, True)


def scale(x, k):
    if k == 1:
        return x
    if k == 0:
        return ZERO
    c, p = lin_parts(x)
    return mk_lin(c * k, dict((i, (q * k, a)) for i, (q, a) in p.items()))


def neg(x):
    return scale(x, -1)


def sub(x, y):
    if x is y:
        return ZERO
    return add(x, scale(y, -1))


def sum_(xs):
    c = 0
    p = {}
    for x in xs:
        c2, p2 = lin_parts(x)
        c = c + c2
        for i, (k, a) in p2.items():
            if i in p:
                p[i] = (p[i][0] + k, a)
            else:
                p[i] = (k, a)
    return mk_lin(c, p)


def ite(c, x, y):
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    d = sub(x, y)
    if d.op == 'c':
        return add(y, scale(b2i(c), d.args[0]))
    # factor out the common part
    cx, px = lin_parts(x)
    cy, py = lin_parts(y)
    common = {}
    for i, (k, a) in px.items():
        if i in py and py[i][0] == k:
            common[i] = (k, a)
    if common:
        rx = mk_lin(cx, dict((i, p) for i, p in px.items() if i not in common))
        ry = mk_lin(cy, dict((i, p) for i, p in py.items() if i not in common))
        return add(mk_lin(0, common), ite(c, rx, ry))
    # nested ite on the same condition
    if x.op == 'ite' and x.args[0] is c:
        return ite(c, x.args[1], y)
    if y.op == 'ite' and y.args[0] is c:
        return ite(c, x, y.args[2])
    if c.op == 'not':
        return ite(c.args[0], y, x)
    sort = 'i' if x.sort == 'i' and y.sort == 'i' else 'r'
    return _mk('ite', (c, x, y), sort, min(x.lo, y.lo), max(x.hi, y.hi), key=(c.id, x.id, y.id))


def small_range(e, limit=64):
    return e.sort == 'i' and e.lo != -INF and e.hi != INF and e.hi - e.lo <= limit


def leaves(e, limit=32):
    """Constant leaves of an ite tree (as set of Fractions) or None."""
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'c':
            out.add(x.args[0])
        elif x.op == 'ite':
            stack.append(x.args[1])
            stack.append(x.args[2])
        elif x.op == 'b2i':
            out.add(0)
            out.add(1)
        elif x.op == 'lin' and len(x.args[1]) == 1 and x.args[1][0][1].op in ('b2i', 'ite'):
            k, a = x.args[1][0]
            l = leaves(a, limit)
            if l is None:
                return None
            out.update(norm(x.args[0] + k * v) for v in l)
        else:
            return None
        if len(out) > limit or len(seen) > 4 * limit:
            return None
    return out


def mul(x, y):
    if x.op == 'c':
        return scale(y, x.args[0])
    if y.op == 'c':
        return scale(x, y.args[0])
    if x.id > y.id:
        x, y = y, x
    for a, b in ((x, y), (y, x)):
        if a.op == 'b2i':
            return ite(a.args[0], b, ZERO)
        if a.op == 'lin' and len(a.args[1]) == 1 and a.args[1][0][1].op == 'b2i':
            k, at = a.args[1][0]
            return ite(at.args[0], scale(b, a.args[0] + k), scale(b, a.args[0]))
    for a, b in ((x, y), (y, x)):
        ls = leaves(a, 12)
        if ls is not None:
            return _map_leaves(a, lambda v: scale(b, v))
    for a, b in ((x, y), (y, x)):
        if small_range(a, 40):
            return _split_int(a, lambda v: scale(b, v))
    if x.op == 'div' and y.op == 'div':
        return div(mul(x.args[0], y.args[0]), mul(x.args[1], y.args[1]))
    cands = []
    for a in (x.lo, x.hi):
        for b in (y.lo, y.hi):
            if (a in (INF, -INF) or b in (INF, -INF)):
                cands = None
                break
            cands.append(a * b)
        if cands is None:
            break
    lo, hi = (min(cands), max(cands)) if cands else (-INF, INF)
    if x is y:
        lo = max(lo, 0)
    return _mk('mul', (x, y), 'i' if x.sort == y.sort == 'i' else 'r', lo, hi, key=(x.id, y.id))


def _map_leaves(e, f, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(e.id)
    if r is not None:
        return r
    if e.op == 'c':
        r = f(e.args[0])
    elif e.op == 'ite':
        r = ite(e.args[0], _map_leaves(e.args[1], f, memo), _map_leaves(e.args[2], f, memo))
    elif e.op == 'b2i':
        r = ite(e.args[0], f(1), f(0))
    else:
        c, ((k, a),) = e.args
        r = _map_leaves(a, lambda v: f(norm(c + k * v)))
    memo[e.id] = r
    return r


def _split_int(e, f, skip_zero=False, default=ZERO):
    r = default
    first = True
    v = int(e.hi)
    while v >= e.lo:
        if not (skip_zero and v == 0):
            w = f(v)
            r = w if (first and default is None) else ite(eq(e, const(v)), w, r)
            first = False
        v -= 1
    return r


def div(x, y):
    """x / y; at y == 0 the value is unconstrained by callers (they raise first) and is 0 here."""
    if y.op == 'c':
        return scale(x, quot(1, y.args[0])) if y.args[0] != 0 else ZERO
    if x.op == 'c' and x.args[0] == 0:
        return ZERO
    ls = leaves(y, 12)
    if ls is not None:
        return _map_leaves(y, lambda v: scale(x, quot(1, v)) if v != 0 else ZERO)
    lo, hi = -INF, INF
    if y.lo > 0 and x.lo >= 0 and x.hi != INF:
        lo, hi = 0, (quot(x.hi, y.lo) if y.lo != INF else 0)
    elif y.lo >= 0 and x.lo >= 0:
        lo = 0
        if x.hi != INF and y.sort == 'i':
            hi = x.hi
    return _mk('div', (x, y), 'r', lo, hi, key=(x.id, y.id))


def floor(x):
    if x.sort == 'i':
        return x
    if x.op == 'c':
        return const(x.args[0].numerator // x.args[0].denominator)
    ls = leaves(x, 32)
    if ls is not None:
        return _map_leaves(x, lambda v: const(v.numerator // v.denominator))
    import math
    lo = x.lo if x.lo == -INF else math.floor(x.lo)
    hi = x.hi if x.hi == INF else math.floor(x.hi)
    return _mk('floor', (x,), 'i', lo, hi, key=(x.id,))


def sqrt(x):
    if x.op == 'c':
        v = x.args[0]
        from math import isqrt
        if v >= 0:
            a, b = isqrt(v.numerator), isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return const(Fraction(a, b))
    return _mk('sqrt', (x,), 'r', 0, INF, key=(x.id,))


def uf(name, sort, args, lo=None, hi=None):
    return _mk('uf', (name,) + tuple(args), sort, -INF if lo is None else lo, INF if hi is None else hi,
               key=(name,) + tuple(a.id for a in args))


def abs_(x):
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return neg(x)
    return ite(le(ZERO, x), x, neg(x))


# ---------------------------------------------------------------- comparisons
def _normal(d):
    """Scale a difference so that coefficients are coprime integers when possible; returns (d, sign)."""
    c, p = lin_parts(d)
    l = c.denominator
    for k, _ in p.values():
        l = l * k.denominator // gcd(l, k.denominator)
    if l != 1:
        d = scale(d, l)
        c, p = lin_parts(d)
    g = 0
    for k, _ in p.values():
        g = gcd(g, abs(k.numerator))
    return d, c, p, g


def eq(x, y):
    if x is y:
        return TRUE
    d = sub(x, y)
    if d.op == 'c':
        return TRUE if d.args[0] == 0 else FALSE
    if d.lo > 0 or d.hi < 0:
        return FALSE
    d, c, p, g = _normal(d)
    ints = all(a.sort == 'i' for _, a in p.values())
    if ints and g > 1:
        if c % g != 0:
            return FALSE
        d = scale(d, Fraction(1, g))
        c, p = lin_parts(d)
    first = p[min(p)]
    if first[0] < 0:
        d = neg(d)
        c, p = lin_parts(d)
    if len(p) == 1:
        (k, a), = p.values()
        t = quot(-c, k)
        if a.op == 'b2i':
            return a.args[0] if t == 1 else not_(a.args[0]) if t == 0 else FALSE
        if a.op == 'ite':
            ls = leaves(a, 32)
            if ls is not None:
                if t not in ls:
                    return FALSE
                return _push_cmp(a, lambda v: TRUE if v == t else FALSE)
        if a.op == 'div':
            n, m = a.args
            # n/m == t
            return or_(and_(not_(eq(m, ZERO)), eq(n, scale(m, t))), and_(eq(m, ZERO), TRUE if t == 0 else FALSE))
        if a.op == 'ite':
            return or_(and_(a.args[0], eq(a.args[1], const(t))), and_(not_(a.args[0]), eq(a.args[2], const(t))))
    elif len(p) == 2 and all(a.op == 'b2i' for _, a in p.values()):
        (k1, a1), (k2, a2) = p.values()
        opts = []
        for v1 in (0, 1):
            for v2 in (0, 1):
                if c + k1 * v1 + k2 * v2 == 0:
                    opts.append(and_(a1.args[0] if v1 else not_(a1.args[0]), a2.args[0] if v2 else not_(a2.args[0])))
        return or_(*opts)
    elif ints and d.lo == 0 and all(a.op == 'b2i' for _, a in p.values()):
        # a sum at its minimum: every indicator at its minimum
        return and_(*[not_(a.args[0]) if k > 0 else a.args[0] for k, a in p.values()])
    elif ints and d.hi == 0 and all(a.op == 'b2i' for _, a in p.values()):
        return and_(*[a.args[0] if k > 0 else not_(a.args[0]) for k, a in p.values()])
    return _mk('eq', (d,), 'b', key=(d.id,))


def _push_cmp(e, f):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'c':
            r = f(x.args[0])
        elif x.op == 'ite':
            r = ite_b(x.args[0], go(x.args[1]), go(x.args[2]))
        elif x.op == 'b2i':
            r = ite_b(x.args[0], f(1), f(0))
        else:
            c, ((k, a),) = x.args
            r = _push_cmp(a, lambda v: f(norm(c + k * v)))
        memo[x.id] = r
        return r
    return go(e)


def _le0(d):
    """d <= 0"""
    if d.op == 'c':
        return TRUE if d.args[0] <= 0 else FALSE
    if d.hi <= 0:
        return TRUE
    if d.lo > 0:
        return FALSE
    d, c, p, g = _normal(d)
    ints = all(a.sort == 'i' for _, a in p.values())
    if ints and g > 1:
        # g*s + c <= 0  <=>  s <= floor(-c/g)
        q = (-c) // g
        d = mk_lin(-q, dict((i, (quot(k, g), a)) for i, (k, a) in p.items()))
        c, p = lin_parts(d)
        if d.hi <= 0:
            return TRUE
        if d.lo > 0:
            return FALSE
    elif not ints and g > 1:
        d = scale(d, Fraction(1, g))
        c, p = lin_parts(d)
    if len(p) == 1:
        (k, a), = p.values()
        if a.op in ('b2i', 'ite'):
            ls = leaves(a, 32)
            if ls is not None:
                return _push_cmp(a, lambda v: TRUE if c + k * v <= 0 else FALSE)
        if a.op == 'div' and a.args[1].lo >= 0:
            n, m = a.args
            z = eq(m, ZERO)
            return or_(and_(not_(z), _le0(add(scale(n, k), scale(m, c)))), and_(z, TRUE if c <= 0 else FALSE))
    if ints and d.hi == 0:
        pass
    if ints and d.lo == 0 and all(a.op == 'b2i' for _, a in p.values()):
        return and_(*[not_(a.args[0]) if k > 0 else a.args[0] for k, a in p.values()])
    if ints and d.hi == 1 and all(a.op == 'b2i' and abs(k) == 1 for k, a in p.values()):
        # violated only when every indicator is at its maximum
        return or_(*[not_(a.args[0]) if k > 0 else a.args[0] for k, a in p.values()])
    return _mk('le', (d,), 'b', key=(d.id,))


def _lt0(d):
    if d.op == 'c':
        return TRUE if d.args[0] < 0 else FALSE
    if d.hi < 0:
        return TRUE
    if d.lo >= 0:
        return FALSE
    d2, c, p, g = _normal(d)
    if all(a.sort == 'i' for _, a in p.values()):
        return _le0(add(d2, ONE))
    if len(p) == 1:
        (k, a), = p.values()
        if a.op in ('b2i', 'ite'):
            ls = leaves(a, 32)
            if ls is not None:
                return _push_cmp(a, lambda v: TRUE if c + k * v < 0 else FALSE)
        if a.op == 'div' and a.args[1].lo >= 0:
            n, m = a.args
            z = eq(m, ZERO)
            return or_(and_(not_(z), _lt0(add(scale(n, k), scale(m, c)))), and_(z, TRUE if c < 0 else FALSE))
    if g > 1:
        d2 = scale(d2, Fraction(1, g))
    return _mk('lt', (d2,), 'b', key=(d2.id,))


def le(x, y):
    return _le0(sub(x, y))


def lt(x, y):
    return _lt0(sub(x, y))


# ---------------------------------------------------------------- evaluation under a model
def evaluate(e, model, memo):
    """Value of e (bool or Fraction) under {variable name: value}; missing variables are False / 0 (or lo)."""
    r = memo.get(e.id)
    if r is not None:
        return r
    op, a = e.op, e.args
    if op == 'true':
        r = True
    elif op == 'false':
        r = False
    elif op == 'bv':
        r = bool(model.get(a[0], False))
    elif op == 'not':
        r = not evaluate(a[0], model, memo)
    elif op == 'and':
        r = all(evaluate(x, model, memo) for x in a)
    elif op == 'or':
        r = any(evaluate(x, model, memo) for x in a)
    elif op == 'c':
        r = a[0]
    elif op == 'v':
        if a[0] in model:
            r = norm(model[a[0]])
        else:
            r = e.lo if e.lo not in (-INF,) and e.lo > 0 else e.hi if e.hi != INF and e.hi < 0 else 0
    elif op == 'b2i':
        r = 1 if evaluate(a[0], model, memo) else 0
    elif op == 'lin':
        r = a[0]
        for k, x in a[1]:
            r = r + k * evaluate(x, model, memo)
    elif op == 'ite':
        r = evaluate(a[1] if evaluate(a[0], model, memo) else a[2], model, memo)
    elif op == 'mul':
        r = evaluate(a[0], model, memo) * evaluate(a[1], model, memo)
    elif op == 'div':
        d = evaluate(a[1], model, memo)
        r = quot(evaluate(a[0], model, memo), d) if d != 0 else 0
    elif op == 'floor':
        v = evaluate(a[0], model, memo)
        r = v.numerator // v.denominator
    elif op == 'sqrt':
        v = evaluate(a[0], model, memo)
        from decimal import Decimal, localcontext
        with localcontext() as ctx:
            ctx.prec = 60
            r = norm(Fraction((Decimal(v.numerator) / Decimal(v.denominator)).sqrt())) if v >= 0 else 0
    elif op == 'eq':
        r = evaluate(a[0], model, memo) == 0
    elif op == 'le':
        r = evaluate(a[0], model, memo) <= 0
    elif op == 'lt':
        r = evaluate(a[0], model, memo) < 0
    elif op == 'uf':
        r = model.get('uf', {}).get((a[0],) + tuple(evaluate(x, model, memo) for x in a[1:]), 0)
    else:
        raise ValueError(op)
    memo[e.id] = r
    return r


def show(e, depth=4):
    if depth == 0:
        return '..'
    op, a = e.op, e.args
    if op in ('true', 'false'):
        return op
    if op in ('bv', 'v'):
        return str(a[0])
    if op == 'c':
        return str(a[0])
    if op == 'lin':
        return '(' + ' + '.join([str(a[0])] + ['%s*%s' % (k, show(x, depth - 1)) for k, x in a[1][:6]]) + ')'
    return '%s(%s)' % (op, ', '.join(show(x, depth - 1) if isinstance(x, E) else str(x) for x in a[:6]))


def stats(roots):
    seen = set()
    stack = list(roots)
    while stack:
        e = stack.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == 'lin':
            stack.extend(x for _, x in e.args[1])
        else:
            stack.extend(x for x in e.args if isinstance(x, E))
    return len(seen)
