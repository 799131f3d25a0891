"""Translation of terms to z3 and the queries made on them."""
import math
import os
import time
from fractions import Fraction
import z3
from . import expr as X

DUMP = os.environ.get('SYM_DUMP')


class NotFinite(Exception):
    pass


class Finite(object):
    """Translation of terms over truth values and bounded integers to bit-vectors. A number t is (b, D, lo, hi, dens):
    dens are ids of positive integer bit-vectors d1.., b is a bit-vector whose signed value, in lo..hi, is
    t * D * d1 * .."""
    MAXW = 64

    def __init__(self):
        self.cache = {}
        self.vars = {}
        self.bad = set()
        self.side = []
        self.dens = {}          # id -> (b, lo, hi)

    @staticmethod
    def width(lo, hi):
        w = 1 + max((lo if lo >= 0 else -lo - 1).bit_length(), (hi if hi >= 0 else -hi - 1).bit_length())
        if w > Finite.MAXW:
            raise NotFinite()
        return w

    def z(self, e):
        c = self.cache
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in self.bad:
                self.bad.add(e.id)
                raise NotFinite()
            if x.id in c:
                stack.pop()
                continue
            todo = [y for y in Solver.kids(x) if y.id not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            try:
                c[x.id] = self.build(x)
            except NotFinite:
                self.bad.add(x.id)
                self.bad.add(e.id)
                raise
        return c[e.id]

    @staticmethod
    def ext(b, w):
        n = b.size()
        return b if n == w else z3.SignExt(w - n, b) if n < w else z3.Extract(w - 1, 0, b)

    def times(self, b, lo, hi, k):
        if k == 1:
            return b, lo, hi
        lo, hi = min(lo * k, hi * k), max(lo * k, hi * k)
        w = self.width(lo, hi)
        return self.ext(b, w) * z3.BitVecVal(k, w), lo, hi

    def product(self, b, lo, hi, y):
        c, l, h = y
        ends = [lo * l, lo * h, hi * l, hi * h]
        lo, hi = min(ends), max(ends)
        w = self.width(lo, hi)
        return self.ext(b, w) * self.ext(c, w), lo, hi

    def to(self, t, D, dens):
        """(b, lo, hi) of number * D * dens."""
        b, d, lo, hi, have = t
        b, lo, hi = self.times(b, lo, hi, D // d)
        rest = list(dens)
        for x in have:
            rest.remove(x)
        for x in rest:
            b, lo, hi = self.product(b, lo, hi, self.dens[x])
        return b, lo, hi

    @staticmethod
    def union(p, q):
        """The smallest collection with every element as often as in p and in q."""
        out = list(p)
        rest = list(p)
        for x in q:
            if x in rest:
                rest.remove(x)
            else:
                out.append(x)
        return tuple(out)

    def const(self, f):
        v = int(f.numerator)
        return z3.BitVecVal(v, self.width(v, v)), f.denominator, v, v, ()

    def ite(self, c, p, q):
        D = lcm(p[1], q[1])
        dens = self.union(p[4], q[4])
        x, xl, xh = self.to(p, D, dens)
        y, yl, yh = self.to(q, D, dens)
        lo, hi = min(xl, yl), max(xh, yh)
        w = self.width(lo, hi)
        return z3.If(c, self.ext(x, w), self.ext(y, w)), D, lo, hi, dens

    def build(self, x):
        c, op, a = self.cache, x.op, x.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'bv':
            v = z3.Bool(a[0])
            self.vars[a[0]] = v
            return v
        if op == 'not':
            return z3.Not(c[a[0].id])
        if op == 'and':
            return z3.And(*[c[y.id] for y in a])
        if op == 'or':
            return z3.Or(*[c[y.id] for y in a])
        if op == 'c':
            return self.const(a[0])
        if op == 'v':
            if x.sort != 'i' or x.lo == -X.INF or x.hi == X.INF:
                raise NotFinite()
            lo, hi = int(x.lo), int(x.hi)
            w = self.width(lo, hi)
            v = z3.BitVec(a[0], w)
            self.vars[a[0]] = v
            for t in (v >= z3.BitVecVal(lo, w), v <= z3.BitVecVal(hi, w)):
                self.side.append(t)
            return v, 1, lo, hi, ()
        if op == 'b2i':
            return z3.If(c[a[0].id], z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 1, 0, 1, ()
        if op == 'lin':
            D = a[0].denominator
            dens = ()
            for k, y in a[1]:
                D = lcm(D, k.denominator * c[y.id][1])
                dens = self.union(dens, c[y.id][4])
            parts = []
            lo = hi = 0
            terms = [(k, c[y.id]) for k, y in a[1]]
            if a[0] != 0:
                terms.append((Fraction(1), self.const(a[0])))
            for k, t in terms:
                n = k.numerator
                b, l, h = self.times(t[0], t[2], t[3], n)
                # number k*y = b / (t.D * k.denominator * t.dens)
                b, l, h = self.to((b, t[1] * k.denominator, l, h, t[4]), D, dens)
                parts.append(b)
                lo += l
                hi += h
            if not dens:
                # the bounds of the simplifier may be tighter
                if x.lo != -X.INF:
                    lo = max(lo, -int(-x.lo * D // 1))
                if x.hi != X.INF:
                    hi = min(hi, int(x.hi * D // 1))
            w = self.width(lo, hi)
            ts = [self.ext(b, w) for b in parts]
            while len(ts) > 1:
                ts = [ts[i] + ts[i + 1] if i + 1 < len(ts) else ts[i] for i in range(0, len(ts), 2)]
            return ts[0], D, lo, hi, dens
        if op == 'ite':
            return self.ite(c[a[0].id], c[a[1].id], c[a[2].id])
        if op == 'mul':
            p, q = c[a[0].id], c[a[1].id]
            b, lo, hi = self.product(p[0], p[2], p[3], (q[0], q[2], q[3]))
            return b, p[1] * q[1], lo, hi, p[4] + q[4]
        if op == 'div':
            n, d = c[a[0].id], c[a[1].id]
            db, dl, dh = d[0], d[2], d[3]
            if dl < 0 <= a[1].lo:
                dl = 0
            # n / (db / (D * dens)) = n * D * dens / db
            nb, nl, nh = self.times(n[0], n[2], n[3], d[1])
            for y in d[4]:
                nb, nl, nh = self.product(nb, nl, nh, self.dens[y])
            if dl < 0:
                neg = db < z3.BitVecVal(0, db.size())
                m = max(dh, -dl)
                w = self.width(-m, m)
                db = self.ext(db, w)
                db = z3.If(neg, -db, db)
                v = max(nh, -nl)
                w = self.width(-v, v)
                nb = self.ext(nb, w)
                nb = z3.If(neg, -nb, nb)
                dl, dh, nl, nh = 0, m, -v, v
            if dl == 0:
                zero = db == z3.BitVecVal(0, db.size())
                w = max(db.size(), 2)
                db = z3.If(zero, z3.BitVecVal(1, w), self.ext(db, w))
                nb = z3.If(zero, z3.BitVecVal(0, nb.size()), nb)
                dl, nl, nh = 1, min(nl, 0), max(nh, 0)
            key = a[1].id
            self.dens[key] = (db, dl, max(dh, 1))
            return nb, n[1], nl, nh, n[4] + (key,)
        if op == 'floor':
            b, D, lo, hi, dens = c[a[0].id]
            if D == 1 and not dens:
                return c[a[0].id]
            k, kl, kh = z3.BitVecVal(D, self.width(D, D)), D, D
            for y in dens:
                k, kl, kh = self.product(k, kl, kh, self.dens[y])
            w = max(b.size(), k.size()) + 1
            b, k = self.ext(b, w), self.ext(k, w)
            m = z3.SRem(b, k)
            q = (b - z3.If(m < 0, m + k, m)) / k
            lo, hi = (lo // kl if lo < 0 else lo // kh), (hi // kl if hi >= 0 else hi // kh)
            return self.ext(q, self.width(lo, hi)), 1, lo, hi, ()
        if op in ('eq', 'le', 'lt'):
            b = c[a[0].id][0]
            zero = z3.BitVecVal(0, b.size())
            return b == zero if op == 'eq' else b <= zero if op == 'le' else b < zero
        raise NotFinite()


def lcm(a, b):
    return a // math.gcd(a, b) * b


class Solver(object):
    def __init__(self, timeout_ms=60000):
        self.s = z3.Solver()
        self.timeout_ms = timeout_ms
        self.s.set('timeout', timeout_ms)
        self.cache = {}
        self.nsplit = 0
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.side = []          # side conditions of introduced terms (bounds of variables, roots)
        self.side_done = 0
        self.vars = {}
        self.split_memo = {}
        self.uf_apps = {}
        self.finite = Finite()
        self.nfinite = 0
        self.wides = {}

    # ------------------------------------------------------------ translation
    def z(self, e):
        c = self.cache
        r = c.get(e.id)
        if r is not None:
            return r
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in c:
                stack.pop()
                continue
            todo = [y for y in self.kids(x) if y.id not in c]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            c[x.id] = self.build(x)
        return c[e.id]

    @staticmethod
    def kids(x):
        if x.op == 'lin':
            return [a for _, a in x.args[1]]
        return [a for a in x.args if isinstance(a, X.E)]

    def num(self, f, real):
        if real or f.denominator != 1:
            return z3.RealVal(str(f))
        return z3.IntVal(f.numerator)

    @staticmethod
    def is_real(t):
        return t.sort().kind() == z3.Z3_REAL_SORT

    def toreal(self, t):
        return t if self.is_real(t) else z3.ToReal(t)

    def build(self, x):
        c, op, a = self.cache, x.op, x.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'bv':
            v = z3.Bool(a[0])
            self.vars[a[0]] = v
            return v
        if op == 'not':
            return z3.Not(c[a[0].id])
        if op == 'and':
            return z3.And(*[c[y.id] for y in a])
        if op == 'or':
            return z3.Or(*[c[y.id] for y in a])
        if op == 'c':
            return self.num(a[0], False)
        if op == 'v':
            v = z3.Int(a[0]) if x.sort == 'i' else z3.Real(a[0])
            self.vars[a[0]] = v
            if x.lo != -X.INF:
                self.side.append(v >= self.num(x.lo, x.sort != 'i'))
            if x.hi != X.INF:
                self.side.append(v <= self.num(x.hi, x.sort != 'i'))
            return v
        if op == 'b2i':
            return z3.If(c[a[0].id], z3.IntVal(1), z3.IntVal(0))
        if op == 'lin':
            ints = all(not self.is_real(c[y.id]) and k.denominator == 1 for k, y in a[1]) and a[0].denominator == 1
            ts = []
            if a[0] != 0:
                ts.append(self.num(a[0], not ints))
            for k, y in a[1]:
                t = c[y.id]
                if not ints:
                    t = self.toreal(t)
                ts.append(t if k == 1 else self.num(k, not ints) * t)
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        if op == 'ite':
            p, q = c[a[1].id], c[a[2].id]
            if self.is_real(p) != self.is_real(q):
                p, q = self.toreal(p), self.toreal(q)
            return z3.If(c[a[0].id], p, q)
        if op == 'mul':
            p, q = c[a[0].id], c[a[1].id]
            if self.is_real(p) != self.is_real(q):
                p, q = self.toreal(p), self.toreal(q)
            return p * q
        if op == 'div':
            n, d = a
            if X.small_range(d, 80):
                r = z3.RealVal(0)
                nt, dt = self.toreal(c[n.id]), c[d.id]
                for v in range(int(d.lo), int(d.hi) + 1):
                    if v != 0:
                        r = z3.If(dt == v, nt * z3.RealVal(str(Fraction(1, v))), r)
                return r
            self.nsplit += 1
            q = z3.Real('!q%d' % self.nsplit)
            nt, dt = self.toreal(c[n.id]), self.toreal(c[d.id])
            self.side.append(z3.If(dt == 0, q == 0, q * dt == nt))
            return q
        if op == 'floor':
            return z3.ToInt(self.toreal(c[a[0].id]))
        if op == 'sqrt':
            self.nsplit += 1
            q = z3.Real('!r%d' % self.nsplit)
            t = self.toreal(c[a[0].id])
            self.side.append(z3.And(q >= 0, z3.Implies(t >= 0, q * q == t)))
            return q
        if op == 'eq':
            t = c[a[0].id]
            return t == self.num(Fraction(0), self.is_real(t))
        if op == 'le':
            t = c[a[0].id]
            return t <= self.num(Fraction(0), self.is_real(t))
        if op == 'lt':
            t = c[a[0].id]
            return t < self.num(Fraction(0), self.is_real(t))
        raise ValueError(op)

    # ------------------------------------------------------------ queries
    def check(self, es, timeout_ms=None):
        """'sat' / 'unsat' / 'unknown' for the conjunction of terms; the model is kept in self.model."""
        t0 = time.time()
        self.model = None
        for e in es:
            if e is X.FALSE:
                return 'unsat'
        es = [e for e in es if e is not X.TRUE]
        limit = timeout_ms or self.timeout_ms
        zs = None
        if not any(e.id in self.finite.bad for e in es):
            try:
                zs = [self.finite.z(e) for e in es]
            except NotFinite:
                pass
        if zs is None:
            return self.check_arith(es, limit, t0)
        if any(self.wide(e) for e in es):
            r = self.check_arith(es, limit // 2, t0)
            return r if r != 'unknown' else self.check_finite(zs, limit // 2, time.time())
        r = self.check_finite(zs, limit, t0)
        if r == 'unknown' and limit > 20000:
            r = self.check_arith(es, limit // 2, time.time())
        return r

    def wide(self, e):
        """Does the term read integer inputs (where linear arithmetic does better than bits)?"""
        memo = self.wides
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == 'v':
                memo[x.id] = x.hi - x.lo > 6
                continue
            kids = self.kids(x)
            todo = [y for y in kids if y.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = any(memo[y.id] for y in kids)
        return memo[e.id]

    def check_arith(self, es, timeout_ms, t0):
        zs = [self.z(e) for e in es]
        s = self.s
        s.set('timeout', timeout_ms)
        s.push()
        try:
            for t in self.side:
                s.add(t)
            s.add(*zs)
            r = s.check()
            if DUMP and time.time() - t0 > 0.2:
                with open('%s/q%d.smt2' % (DUMP, self.queries), 'w') as f:
                    f.write(s.to_smt2())
            if r == z3.sat:
                self.model = s.model()
                self.model_vars = self.vars
                self.sat += 1
                out = 'sat'
            elif r == z3.unsat:
                self.unsat += 1
                out = 'unsat'
            else:
                self.unknown += 1
                out = 'unknown'
        finally:
            s.pop()
        self.queries += 1
        self.time += time.time() - t0
        return out

    def check_finite(self, zs, timeout_ms, t0):
        f = self.finite
        t = z3.Solver()
        t.set('timeout', timeout_ms)
        t.add(f.side)
        t.add(*zs)
        r = t.check()
        out = str(r)
        if r == z3.sat:
            self.model = t.model()
            self.model_vars = f.vars
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
        if DUMP and time.time() - t0 > 0.3:
            with open('%s/f%d.smt2' % (DUMP, self.queries), 'w') as g:
                g.write(t.to_smt2())
        self.queries += 1
        self.nfinite += 1
        self.time += time.time() - t0
        return out

    def values(self):
        """{variable: value} of the last model."""
        out = {}
        for name, v in self.model_vars.items():
            t = self.model.eval(v, model_completion=True)
            if z3.is_bv(t):
                out[name] = Fraction(t.as_signed_long())
                continue
            if z3.is_bool(t):
                out[name] = z3.is_true(t)
            elif z3.is_int_value(t):
                out[name] = Fraction(t.as_long())
            elif z3.is_rational_value(t):
                out[name] = Fraction(t.numerator_as_long(), t.denominator_as_long())
            else:
                t = t.approx(30)
                out[name] = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return out
