"""Operators, built-in types and built-in functions of the evaluator."""
import string as _string
from fractions import Fraction
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_, relative
from .values import *
from .values import V

T = {}
OBJECT_INIT = None
MAXLEN = 4000


def btype(name, bases=('object',), module='builtins'):
    t = BType(name, [T[b] for b in bases], module)
    T[name] = t
    return t


# ---------------------------------------------------------------- truth, identity, equality
def truth(I, v):
    t = type(v)
    if v is None:
        return FALSE
    if t is bool:
        return TRUE if v else FALSE
    if t is int:
        return TRUE if v else FALSE
    if t is str:
        return TRUE if v else FALSE
    if t is SBool:
        return v.e
    if t is SNum:
        return not_(X.eq(v.e, X.ZERO))
    if t is VUnion:
        r = I.lift(v, lambda x: mk_bool(truth(I, x)))
        return r.e if type(r) is SBool else TRUE if r else FALSE
    if t is Lazy:
        return truth(I, force(v))
    if t in (VSeq, VSet, VDict, VObj):
        f = I.user_attr(v, '__bool__')
        if f is not None:
            return truth(I, I.call(f, [v]))
        f = I.user_attr(v, '__len__')
        if f is not None:
            return truth(I, I.call(f, [v]))
        if t is VObj:
            return TRUE
        if t is VSeq and v.kind == 'iter':
            return TRUE
        return or_(*[e[0] for e in v.ents])
    if t is VView:
        return or_(*[e[0] for e in v.d.ents])
    if t is VStr:
        return or_(*[g for g, _ in v.ents])
    if t is Render:
        return TRUE
    if t is Opaque:
        return TRUE
    if t is Native:
        return TRUE if v.obj else FALSE
    return TRUE


def is_(I, a, b):
    if type(a) is VUnion or type(b) is VUnion:
        alts = []
        for g, x in alts_of(a):
            for h, y in alts_of(b):
                k = and_(g, h)
                if k is FALSE or and_(I.pc, k) is FALSE:
                    continue
                alts.append(and_(k, is_(I, x, y)))
        return or_(*alts)
    if a is b:
        return TRUE
    if a is None or b is None:
        return FALSE
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        # int and float objects are compared by value, Decimals by object identity
        if na[0] != nb[0] or na[0] in ('dec', 'frac'):
            return FALSE
        return X.eq(na[1], nb[1])
    if type(a) is str and type(b) is str:
        return TRUE if (len(a) <= 1 and a == b) else FALSE
    if type(a) is VSeq and type(b) is VSeq and a.kind == b.kind == 'tuple':
        if not a.ents and not b.ents and a.cls is b.cls:
            return TRUE
    if type(a) is Native and type(b) is Native:
        return TRUE if a.obj is b.obj else FALSE
    if type(a) is Bound and type(b) is Bound:
        return FALSE
    return FALSE


def eq(I, a, b):
    """Term of a == b."""
    if type(a) is Lazy:
        a = force(a)
    if type(b) is Lazy:
        b = force(b)
    if type(a) is VUnion or type(b) is VUnion:
        if type(a) is VUnion and type(b) is VUnion and a is b:
            return TRUE
        out = []
        for g, x in alts_of(a):
            for h, y in alts_of(b):
                k = and_(g, h)
                if k is FALSE:
                    continue
                p = and_(I.pc, k)
                if p is FALSE:
                    continue
                if simple(x) and simple(y):
                    r = eq(I, x, y)
                else:
                    k, r = I.under(k, lambda: eq(I, x, y))
                    if k is FALSE:
                        continue
                out.append(and_(k, r))
        return or_(*out)
    na = num(a)
    if na is not None:
        nb = num(b)
        if nb is not None:
            return X.eq(na[1], nb[1])
    ta, tb = type(a), type(b)
    f = I.user_attr(a, '__eq__')
    if f is not None:
        r = I.call(f, [a, b])
        if r is not T['NotImplemented']:
            return truth(I, r)
        f = I.user_attr(b, '__eq__')
        if f is not None:
            r = I.call(f, [b, a])
            if r is not T['NotImplemented']:
                return truth(I, r)
        return is_(I, a, b)
    f = I.user_attr(b, '__eq__')
    if f is not None:
        r = I.call(f, [b, a])
        if r is not T['NotImplemented']:
            return truth(I, r)
        return is_(I, a, b)
    if ta is str and tb is str:
        return TRUE if a == b else FALSE
    if a is None or b is None:
        return TRUE if a is b else FALSE
    if ta in STRS and tb in STRS:
        return str_eq(I, a, b)
    if ta is VSeq and tb is VSeq:
        if a is b:
            return TRUE
        if a.kind != b.kind or a.kind == 'iter':
            return FALSE
        return ents_eq(I, a.ents, b.ents)
    if ta is VSet and tb is VSet:
        return and_(subset(I, a, b), subset(I, b, a))
    if ta is VDict and tb is VDict:
        return dict_eq(I, a, b)
    if ta is VView and tb in (VView, VSet) or tb is VView and ta is VSet:
        return eq(I, as_set(I, a), as_set(I, b))
    if ta is Native and tb is Native:
        return TRUE if a.obj == b.obj else FALSE
    if ta is Bound and tb is Bound:
        return and_(is_(I, a.self, b.self), TRUE if a.fn is b.fn else FALSE)
    return TRUE if a is b else FALSE


def simple(v):
    return v is None or type(v) in (int, bool, str, SNum, SBool, Render, VStr, VClass, BType, VFunc, Builtin)


def bool_term(r):
    return r.e if type(r) is SBool else TRUE if r else FALSE


STRS = (str, Render, VStr, Opaque)


def str_eq(I, a, b):
    if type(a) is Render and type(b) is Render:
        if a.prefix == b.prefix and a.suffix == b.suffix:
            if a.kind == b.kind:
                return X.eq(a.e, b.e)
            I.unsupported('comparison of rendered numbers of different kinds')
        return render_str_eq_mixed(I, a, b)
    if type(a) is str and type(b) is Render:
        a, b = b, a
    if type(a) is Render and type(b) is str:
        s = b
        if not (s.startswith(a.prefix) and s.endswith(a.suffix) and len(s) >= len(a.prefix) + len(a.suffix)):
            return FALSE
        core = s[len(a.prefix):len(s) - len(a.suffix)] if a.suffix else s[len(a.prefix):]
        if a.kind == 'int':
            try:
                n = int(core)
            except ValueError:
                return FALSE
            return X.eq(a.e, X.const(n)) if str(n) == core else FALSE
        I.unsupported('comparison of a rendered number with text')
    if type(a) is VStr and type(b) is str:
        b = VStr([(TRUE, c) for c in b])
    if type(a) is str and type(b) is VStr:
        a = VStr([(TRUE, c) for c in a])
    if type(a) is VStr and type(b) is VStr:
        return ents_eq(I, a.ents, b.ents)
    if a is b:
        return TRUE
    I.unsupported('comparison of untracked text')


def render_str_eq_mixed(I, a, b):
    # the number text is digits with an optional sign: different non-digit prefixes or suffixes never coincide
    if not a.prefix[-1:].isdigit() and not b.prefix[-1:].isdigit() and a.kind == b.kind == 'int':
        if a.prefix != b.prefix or a.suffix != b.suffix:
            if '-' not in a.prefix[-1:] and '-' not in b.prefix[-1:]:
                return FALSE
    I.unsupported('comparison of rendered numbers')


def ents_eq(I, xs, ys):
    xs, ys = I.compact(xs), I.compact(ys)
    n = max(len(xs), len(ys))
    out = []
    for p in range(n):
        g = xs[p][0] if p < len(xs) else FALSE
        h = ys[p][0] if p < len(ys) else FALSE
        both = X.iff(g, h)
        if both is FALSE:
            return FALSE
        out.append(both)
        if g is not FALSE and h is not FALSE:
            e = eq(I, xs[p][1], ys[p][1])
            if g is not TRUE:
                e = or_(not_(g), e)
            if e is FALSE:
                return FALSE
            out.append(e)
    return and_(*out)


def dict_eq(I, a, b):
    if a is b:
        return TRUE
    out = []
    for g, k, v, hk in a.ents:
        if g is FALSE:
            continue
        h, w = dict_find(I, b, k)
        out.append(or_(not_(g), and_(h, eq(I, v, w)) if h is not FALSE else FALSE))
    for g, k, v, hk in b.ents:
        if g is FALSE:
            continue
        h, w = dict_find(I, a, k)
        out.append(or_(not_(g), h))
    return and_(*out)


def cmp(I, op, a, b):
    if type(a) is VUnion:
        return I.lift(a, lambda x: cmp(I, op, x, b))
    if type(b) is VUnion:
        return I.lift(b, lambda x: cmp(I, op, a, x))
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return mk_bool(num_cmp(op, na[1], nb[1]))
    from .interp import CMPD, SWAP
    if op == '==' or op == '!=':
        f = I.user_attr(a, '__ne__') if op == '!=' else None
        if f is not None:
            return I.call(f, [a, b])
        e = eq(I, a, b)
        return mk_bool(e if op == '==' else not_(e))
    f = I.user_attr(a, '__%s__' % CMPD[op])
    if f is not None:
        r = I.call(f, [a, b])
        if r is not T['NotImplemented']:
            return r
    f = I.user_attr(b, '__%s__' % CMPD[SWAP[op]])
    if f is not None:
        r = I.call(f, [b, a])
        if r is not T['NotImplemented']:
            return r
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if ta in STRS and tb in STRS:
        I.unsupported('order of symbolic text')
    if ta is VSeq and tb is VSeq and a.kind == b.kind and a.kind in ('list', 'tuple'):
        return mk_bool(seq_cmp(I, op, a, b))
    if ta in (VSet, VView) and tb in (VSet, VView):
        a, b = as_set(I, a), as_set(I, b)
        if op in ('>', '>='):
            a, b = b, a
            op = SWAP[op]
        s = subset(I, a, b)
        if op == '<':
            s = and_(s, not_(subset(I, b, a)))
        return mk_bool(s)
    if ta is Native and tb is Native:
        return I.from_native({'<': lambda: a.obj < b.obj, '<=': lambda: a.obj <= b.obj, '>': lambda: a.obj > b.obj,
                              '>=': lambda: a.obj >= b.obj}[op]())
    I.throw('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (op, tname(I, a), tname(I, b)))


def tname(I, v):
    t = type_of(I, v)
    return t.name if t is not None else '?'


def num_cmp(op, a, b):
    if op == '==':
        return X.eq(a, b)
    if op == '!=':
        return not_(X.eq(a, b))
    if op == '<':
        return X.lt(a, b)
    if op == '<=':
        return X.le(a, b)
    if op == '>':
        return X.lt(b, a)
    return X.le(b, a)


def seq_cmp(I, op, a, b):
    xs, ys = I.compact(a.ents), I.compact(b.ents)
    n = max(len(xs), len(ys))
    # strict less, and equality, built from the end
    res = TRUE if op in ('<=', '>=') else FALSE
    for p in reversed(range(n)):
        g = xs[p][0] if p < len(xs) else FALSE
        h = ys[p][0] if p < len(ys) else FALSE
        both = and_(g, h)
        if both is not FALSE:
            e = eq(I, xs[p][1], ys[p][1])
            if e is TRUE:
                here = res
            else:
                c = truth(I, cmp(I, op[0], xs[p][1], ys[p][1]))
                here = or_(and_(e, res), and_(not_(e), c))
        else:
            here = FALSE
        only_b = and_(not_(g), h)
        only_a = and_(g, not_(h))
        r = and_(both, here)
        if op[0] == '<':
            r = or_(r, only_b)
        else:
            r = or_(r, only_a)
        neither = and_(not_(g), not_(h))
        r = or_(r, and_(neither, TRUE if op in ('<=', '>=') else FALSE))
        res = r
    return res


def contains(I, c, x):
    if type(c) is VUnion:
        return bool_term(I.lift(c, lambda y: mk_bool(contains(I, y, x))))
    f = I.user_attr(c, '__contains__')
    if f is not None:
        return truth(I, I.call(f, [c, x]))
    t = type(c)
    if t is VDict:
        return dict_find(I, c, x)[0]
    if t is VView and c.which == 'keys':
        return dict_find(I, c.d, x)[0]
    if t is VSet:
        return set_contains(I, c, x)
    if t is str and type(x) is str:
        return TRUE if x in c else FALSE
    if t in STRS:
        if type(x) is VUnion:
            return bool_term(I.lift(x, lambda y: mk_bool(contains(I, c, y))))
        if t is VStr and type(x) is str and len(x) == 1:
            return or_(*[and_(g, eq(I, ch, x)) for g, ch in c.ents])
        if t is str and type(x) is VStr and len(x.ents) == 1 and x.ents[0][0] is TRUE:
            return contains(I, c, x.ents[0][1])
        if type(x) in STRS:
            I.unsupported('substring test on symbolic text')
        I.throw('TypeError', "'in <string>' requires string as left operand")
    if t is Native:
        return TRUE if I.concrete(x) in c.obj else FALSE
    return or_(*[and_(g, eq(I, v, x)) for g, v in I.entries(c)])


# ---------------------------------------------------------------- arithmetic
def arith(I, op, a, b):
    ka, ea = a
    kb, eb = b
    if ka == 'bool':
        ka = 'int'
    if kb == 'bool':
        kb = 'int'
    if ka == kb:
        kind = ka
    elif 'dec' in (ka, kb):
        if ka == 'int' or kb == 'int':
            kind = 'dec'
        else:
            I.throw('TypeError', "unsupported operand type(s) for %s: Decimal and %s" % (op, ka if kb == 'dec' else kb))
    elif 'float' in (ka, kb):
        kind = 'float'
    else:
        kind = 'frac'
    if op == '+':
        return mk_num(kind, X.add(ea, eb))
    if op == '-':
        return mk_num(kind, X.sub(ea, eb))
    if op == '*':
        return mk_num(kind, X.mul(ea, eb))
    if op in ('/', '//', '%'):
        z = X.eq(eb, X.ZERO)
        if z is not FALSE:
            if kind == 'dec':
                zz = X.eq(ea, X.ZERO)
                if op == '/':
                    I.throw_if(and_(z, zz), 'InvalidOperation', '0 / 0')
                    I.throw_if(and_(z, not_(zz)), 'DivisionByZero', 'x / 0')
                elif op == '//':
                    I.throw_if(and_(z, zz), 'InvalidOperation', '0 // 0')
                    I.throw_if(and_(z, not_(zz)), 'DivisionByZero', 'x // 0')
                else:
                    I.throw_if(z, 'InvalidOperation', 'x % 0')
            else:
                I.throw_if(z, 'ZeroDivisionError', 'division by zero')
        if eb.op != 'c' and eb.lo != eb.hi:
            u = I.unique(eb)
            if u is not None:
                eb = X.const(u)
        if op == '/':
            return mk_num('float' if kind == 'int' else kind, X.div(ea, eb))
        q = X.floor(X.div(ea, eb)) if kind != 'dec' else trunc(X.div(ea, eb))
        if op == '//':
            return mk_num(kind, q)
        return mk_num(kind, X.sub(ea, X.mul(eb, q)))
    if op == '**':
        return power(I, kind, ka, ea, kb, eb)
    if kind == 'int' and a[0] == b[0] == 'bool' and op in ('&', '|', '^'):
        x, y = as_bool(ea), as_bool(eb)
        return mk_bool({'&': and_, '|': or_, '^': X.xor}[op](x, y))
    if kind == 'int' and op in ('&', '|', '^', '<<', '>>'):
        if eb.op == 'c' and op == '<<':
            return mk_num('int', X.scale(ea, Fraction(2) ** int(eb.args[0])))
        if eb.op == 'c' and op == '>>':
            return mk_num('int', X.floor(X.scale(ea, Fraction(1, 2 ** int(eb.args[0])))))
        if op == '&' and eb.op == 'c' and eb.args[0] == 1:
            return mk_num('int', X.sub(ea, X.scale(X.floor(X.scale(ea, Fraction(1, 2))), Fraction(2))))
        f = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q, '<<': lambda p, q: p << q,
             '>>': lambda p, q: p >> q}[op]
        return I.with_int(mk_num('int', ea), lambda p: I.with_int(mk_num('int', eb), lambda q: f(p, q)))
    I.throw('TypeError', 'unsupported operand type(s) for %s' % op)


def as_bool(e):
    return not_(X.eq(e, X.ZERO))


def trunc(e):
    f = X.floor(e)
    if e.lo >= 0:
        return f
    return X.ite(X.le(X.ZERO, e), f, X.neg(X.floor(X.neg(e))))


def power(I, kind, ka, ea, kb, eb):
    if eb.op != 'c':
        u = I.unique(eb)
        if u is None:
            vs = I.value_set(eb, 20)
            return I.cases([(X.eq(eb, X.const(v)), (lambda v=v: power(I, kind, ka, ea, kb, X.const(v)))) for v in vs])
        eb = X.const(u)
    p = eb.args[0]
    if p == Fraction(1, 2):
        return mk_num(kind, sqrt(I, ea))
    if p.denominator != 1:
        I.unsupported('fractional power')
    n = int(p)
    if abs(n) > 40:
        I.unsupported('large power')
    r = X.ONE
    for _ in range(abs(n)):
        r = X.mul(r, ea)
    if n < 0:
        z = X.eq(ea, X.ZERO)
        I.throw_if(z, 'ZeroDivisionError', '0 to a negative power')
        r = X.div(X.ONE, r)
        kind = 'float' if kind == 'int' else kind
    return mk_num(kind, r)


def sqrt(I, e):
    if e.op == 'mul' and e.args[0] is e.args[1]:
        return X.abs_(e.args[0])
    return X.sqrt(e)


def binop(I, op, a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return arith(I, op, na, nb)
    if type(a) is VUnion:
        return I.lift(a, lambda x: binop(I, op, x, b))
    if type(b) is VUnion:
        return I.lift(b, lambda x: binop(I, op, a, x))
    from .interp import DUNDER
    f = I.user_attr(a, '__%s__' % DUNDER[op])
    if f is not None:
        r = I.call(f, [a, b])
        if r is not T['NotImplemented']:
            return r
    f = I.user_attr(b, '__r%s__' % DUNDER[op])
    if f is not None:
        r = I.call(f, [b, a])
        if r is not T['NotImplemented']:
            return r
    ta, tb = type(a), type(b)
    if op == '+':
        if ta in STRS and tb in STRS:
            return str_cat(I, a, b)
        if ta is VSeq and tb is VSeq and a.kind == b.kind and a.kind in ('list', 'tuple'):
            return VSeq(a.kind, a.ents + b.ents, I.pc if a.kind == 'list' else TRUE)
    if op == '*':
        if ta is VSeq and nb is not None and nb[0] in ('int', 'bool'):
            return seq_repeat(I, a, b)
        if tb is VSeq and na is not None and na[0] in ('int', 'bool'):
            return seq_repeat(I, b, a)
        if ta in STRS and nb is not None:
            return str_repeat(I, a, b)
        if tb in STRS and na is not None:
            return str_repeat(I, b, a)
    if op == '%' and ta in STRS:
        return str_percent(I, a, b)
    if op in ('&', '|', '-', '^'):
        if ta in (VSet, VView) and tb in (VSet, VView):
            return set_op(I, op, as_set(I, a), as_set(I, b))
        if ta is VView:
            return set_op(I, op, as_set(I, a), make_set(I, I.entries(b)))
        if op == '|' and ta is VDict and tb is VDict:
            d = dict_copy(I, a)
            dict_update(I, d, b)
            return d
    if ta is Native or tb is Native:
        x, y = I.concrete(a), I.concrete(b)
        import operator
        fn = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
              '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor}[op]
        return I.native_call(fn, [a, b], {})
    I.throw('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, tname(I, a), tname(I, b)))


def inplace(I, op, a, b):
    if type(a) is VUnion:
        return I.lift(a, lambda x: inplace(I, op, x, b))
    ta = type(a)
    if ta in (int, SNum, bool, SBool, str):
        return binop(I, op, a, b)
    from .interp import DUNDER
    f = I.user_attr(a, '__i%s__' % DUNDER[op])
    if f is not None:
        r = I.call(f, [a, b])
        if r is not T['NotImplemented']:
            return r
    if ta is VSeq and a.kind == 'list':
        if op == '+':
            seq_extend(I, a, b)
            return a
        if op == '*':
            r = seq_repeat(I, a, b)
            g = relative(I.pc, a.pc0)
            if g is not TRUE:
                I.unsupported('conditional in-place repetition')
            a.ents, a.dense = r.ents, r.dense
            return a
    if ta is VSet and not a.frozen and op in ('|', '&', '-', '^'):
        if type(b) is VUnion:
            return I.lift(b, lambda x: inplace(I, op, a, x))
        if type(b) not in (VSet, VView):
            I.throw('TypeError', 'unsupported operand for set update')
        set_update_op(I, a, op, as_set(I, b))
        return a
    if ta is VDict and op == '|':
        dict_update(I, a, b)
        return a
    return binop(I, op, a, b)


# ---------------------------------------------------------------- text
def str_cat(I, a, b):
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a + b
    if ta is str and a == '':
        return b
    if tb is str and b == '':
        return a
    if ta is Render and tb is str:
        return Render(a.prefix, a.kind, a.e, a.suffix + b)
    if ta is str and tb is Render:
        return Render(a + b.prefix, b.kind, b.e, b.suffix)
    if (ta is VStr or ta is str) and (tb is VStr or tb is str):
        return VStr(I.entries(a) + I.entries(b))
    return Opaque()


def str_repeat(I, s, n):
    def go(k):
        if type(s) is str:
            return s * k
        if type(s) is VStr:
            return VStr(s.ents * max(k, 0))
        return Opaque()
    return I.with_int(n, go)


def norm_str(I, ents):
    """Plain str when every character is known."""
    ents = I.simp_ents(ents)
    if all(g is TRUE and type(c) is str for g, c in ents):
        return ''.join(c for _, c in ents)
    return VStr(ents)


def str_(I, v):
    t = type(v)
    if t is str or t is Render or t is VStr or t is Opaque:
        return v
    if t is int or t is bool or v is None:
        return str(v)
    if t is SNum:
        return Render('', v.kind, v.e)
    if t is VUnion:
        return I.lift(v, lambda x: str_(I, x))
    if t is SBool:
        return VUnion([(v.e, 'True'), (not_(v.e), 'False')])
    for m in ('__str__', '__repr__'):
        f = I.user_attr(v, m)
        if f is not None:
            return I.call(f, [v])
    if t is VObj and I.is_exc(v.cls):
        args = v.native['args']
        if len(args.ents) == 1:
            return str_(I, args.ents[0][1])
        if not args.ents:
            return ''
    if t is Native:
        return str(v.obj)
    return repr_(I, v)


def repr_(I, v):
    t = type(v)
    if t in (int, bool, str) or v is None:
        return repr(v)
    f = I.user_attr(v, '__repr__')
    if f is not None:
        return I.call(f, [v])
    if t is SNum and v.kind == 'int':
        return Render('', 'int', v.e)
    if t is VSeq and v.dense and v.kind in ('list', 'tuple') and v.cls is None:
        parts = [repr_(I, x) for _, x in v.ents]
        if all(type(p) is str for p in parts):
            if v.kind == 'list':
                return '[' + ', '.join(parts) + ']'
            return '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')')
        r = '[' if v.kind == 'list' else '('
        return Opaque()
    if t in (VClass, BType):
        return "<class '%s'>" % v.name
    return Opaque()


def format_value(I, v, spec):
    if type(v) is VUnion:
        return I.lift(v, lambda x: format_value(I, x, spec))
    if spec == '':
        return str_(I, v)
    if type(v) in (int, str, bool) and type(spec) is str:
        try:
            return format(v, spec)
        except ValueError as ex:
            I.throw('ValueError', str(ex))
    if type(spec) is str and type(v) is SNum and spec in ('d', 'n'):
        return str_(I, v)
    return Opaque()


def str_format(I, s, args, kwargs):
    if type(s) is not str:
        return Opaque()
    out = ''
    auto = 0
    try:
        parts = list(_string.Formatter().parse(s))
    except ValueError as ex:
        I.throw('ValueError', str(ex))
    for lit, field, spec, conv in parts:
        out = str_cat(I, out, lit)
        if field is None:
            continue
        name = field
        rest = ''
        for i, c in enumerate(field):
            if c in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            name = str(auto)
            auto += 1
        if name.isdigit():
            if int(name) >= len(args):
                I.throw('IndexError', 'Replacement index %s out of range' % name)
            v = args[int(name)]
        else:
            if name not in kwargs:
                I.throw('KeyError', name)
            v = kwargs[name]
        if rest:
            return Opaque()
        v = repr_(I, v) if conv == 'r' else format_value(I, v, spec or '')
        if type(v) is VUnion:
            pre = out
            return I.lift(v, lambda x: Opaque()) if len(v.alts) > 8 else _fmt_union(I, s, args, kwargs)
        out = str_cat(I, out, v)
    return out


def _fmt_union(I, s, args, kwargs):
    for i, a in enumerate(args):
        if type(a) is SBool:
            a = VUnion([(a.e, True), (not_(a.e), False)])
        if type(a) is VUnion:
            return I.lift(a, lambda x: str_format(I, s, args[:i] + [x] + args[i + 1:], kwargs))
    for k, a in kwargs.items():
        if type(a) is VUnion:
            return I.lift(a, lambda x: str_format(I, s, args, dict(kwargs, **{k: x})))
    return Opaque()


def str_percent(I, s, v):
    vals = None
    if type(v) is VSeq and v.kind == 'tuple':
        if v.dense and all(type(x) in (int, str, bool) or x is None for _, x in v.ents):
            vals = tuple(x for _, x in v.ents)
    elif type(v) in (int, str, bool) or v is None:
        vals = v
    elif type(v) is VDict and all(g is TRUE and type(x) in (int, str, bool) for g, k, x, _ in v.ents):
        vals = dict((k, x) for g, k, x, _ in v.ents)
    if vals is not None and type(s) is str:
        try:
            return s % vals
        except (TypeError, ValueError, KeyError) as ex:
            I.throw(type(ex).__name__, str(ex))
    if type(s) is str and s.count('%') == 1:
        x = v
        if type(v) is VSeq and v.kind == 'tuple' and v.dense and len(v.ents) == 1:
            x = v.ents[0][1]
        for f in ('%s', '%d', '%i'):
            if f in s and num(x) is not None:
                a, b = s.split(f)
                return str_cat(I, str_cat(I, a, str_(I, x)), b)
    return Opaque()


def str_split_char(I, s, sep, maxsplit=-1, right=False):
    """Pieces of symbolic text at a one-character separator."""
    if type(sep) is not str or len(sep) != 1 or type(maxsplit) is not int:
        I.unsupported('split of symbolic text at this separator')
    ents = s.ents
    hits = [and_(g, eq(I, c, sep)) for g, c in ents]
    pieces = []
    n = len(ents)
    if maxsplit >= 0:
        before, used = [], X.const(0)
        for h in (reversed(hits) if right else hits):
            before.append(and_(h, X.lt(used, X.const(maxsplit))))
            used = X.add(used, X.b2i(h))
        hits = before[::-1] if right else before
    for i in range(n + 1):
        h = hits[i] if i < n else TRUE
        if h is FALSE:
            continue
        chars = []
        clear = TRUE
        for j in reversed(range(i)):
            clear = and_(clear, not_(hits[j]))
            if clear is FALSE:
                break
            g = and_(ents[j][0], clear)
            if g is not FALSE:
                chars.append((g, ents[j][1]))
        chars.reverse()
        pieces.append((h, norm_str(I, chars)))
    return VSeq('list', pieces, I.pc)


# ---------------------------------------------------------------- sequences
def max_int(I, e):
    """An upper bound of an integer term under the path condition."""
    if e.op == 'c':
        return int(e.args[0])
    u = I.unique(e)
    if u is not None:
        return int(u)
    if e.hi != X.INF and e.hi <= 300:
        return int(e.hi)
    return int(max(I.value_set(e, 300)))


def min_int(I, e):
    if e.op == 'c':
        return int(e.args[0])
    if e.lo != -X.INF and e.lo >= -300:
        return int(e.lo)
    return int(min(I.value_set(e, 300)))


def seq_repeat(I, s, n):
    e = num(n)[1]
    kind = s.kind
    if e.op != 'c':
        u = I.unique(e)
        if u is not None:
            e = X.const(u)
    if e.op == 'c':
        k = max(int(e.args[0]), 0)
        if k * len(s.ents) > 100000:
            I.unsupported('huge repetition')
        return VSeq(kind, s.ents * k, I.pc if kind == 'list' else TRUE)
    m = max_int(I, e)
    ents = []
    for k in range(m):
        g = X.lt(X.const(k), e)
        if and_(I.pc, g) is FALSE:
            break
        for h, v in s.ents:
            ents.append((and_(g, h), v))
    return VSeq(kind, ents, I.pc if kind == 'list' else TRUE)


def seq_push(I, s, v, g=TRUE):
    r = and_(relative(I.pc, s.pc0), g)
    if r is FALSE:
        return
    s.ents = list(s.ents)
    s.ents.append((r, v))
    if r is not TRUE:
        s.dense = False


def seq_extend(I, s, it):
    for g, v in I.entries_any(it):
        seq_push(I, s, v, g)


def index_alts(I, k):
    if type(k) in (int, bool):
        return [(TRUE, int(k))]
    n = num(k)
    if n is None or n[0] not in ('int', 'bool'):
        f = I.user_attr(k, '__index__')
        if f is not None:
            return index_alts(I, I.call(f, [k]))
        I.throw('TypeError', 'indices must be integers')
    return I.int_alts(k)


def ents_index(I, ents, k, what):
    comp = I.compact(ents)

    def at(i):
        if i >= 0:
            if i >= len(comp):
                I.throw('IndexError', what + ' index out of range')
            g, v = comp[i]
            I.throw_if(not_(g), 'IndexError', what + ' index out of range')
            return v
        if -i > len(comp):
            I.throw('IndexError', what + ' index out of range')
        g = comp[-i - 1][0]
        I.throw_if(not_(g), 'IndexError', what + ' index out of range')
        n = len(comp)
        alts = []
        for ln in range(n, -i - 1, -1):
            lo = comp[ln - 1][0]
            hi = comp[ln][0] if ln < n else FALSE
            c = and_(lo, not_(hi))
            if c is not FALSE and and_(I.pc, c) is not FALSE:
                alts.append((c, comp[ln + i][1]))
        return mk_union(alts)
    alts = index_alts(I, k)
    if len(alts) == 1:
        return at(alts[0][1])
    if all(g is TRUE for g, _ in comp):
        n = len(comp)
        bad = or_(*[g for g, i in alts if not -n <= i < n])
        I.throw_if(bad, 'IndexError', what + ' index out of range')
        return mk_union([(g, comp[i][1]) for g, i in alts if -n <= i < n])
    return I.cases([(g, (lambda i=i: at(i))) for g, i in alts])


def ents_slice(I, ents, lo, hi, step):
    if step is not None and not (type(step) is int and step == 1):
        if type(step) is not int:
            return I.with_int(step, lambda k: ents_slice(I, ents, lo, hi, k))
        comp = I.compact(ents)
        if lo is None and hi is None and step == -1:
            return list(reversed(ents))
        if all(g is TRUE for g, _ in comp) and all(x is None or type(x) is int for x in (lo, hi)):
            return comp[slice(lo, hi, step)]
        if step > 0 and lo is None or type(lo) is int and lo >= 0:
            l = lo or 0
            sel = ents_slice(I, ents, None, hi, None)
            comp = I.compact(sel)
            return [comp[i] for i in range(l, len(comp), step)]
        I.unsupported('extended slice of a symbolic sequence')
    if lo is None and hi is None:
        return list(ents)
    lo_c = lo is None or type(lo) is int
    hi_c = hi is None or type(hi) is int
    if lo_c and hi_c and all(g is TRUE for g, _ in ents):
        return ents[slice(lo, hi)]
    comp = I.compact(ents)
    dense = all(g is TRUE for g, _ in comp)
    n = X.const(len(comp)) if dense else I.length_e(comp)

    def norm(v, default):
        if v is None:
            return default
        k = num(v)
        if k is None:
            f = I.user_attr(v, '__index__')
            if f is None:
                I.throw('TypeError', 'slice indices must be integers or None or have an __index__ method')
            k = num(I.call(f, [v]))
        if k[0] not in ('int', 'bool'):
            I.throw('TypeError', 'slice indices must be integers or None or have an __index__ method')
        e = k[1]
        if e.op != 'c':
            u = I.unique(e)
            if u is not None:
                e = X.const(u)
        if e.lo >= 0:
            return e
        shifted = X.add(e, n)
        return X.ite(X.le(X.ZERO, e), e, X.ite(X.le(X.ZERO, shifted), shifted, X.ZERO))
    l = norm(lo, X.ZERO)
    h = norm(hi, None)
    out = []
    first = int(l.args[0]) if l.op == 'c' else None
    last = int(h.args[0]) if h is not None and h.op == 'c' else None
    for p, (g, v) in enumerate(comp):
        if first is not None and p < first or last is not None and p >= last:
            continue
        c = X.le(l, X.const(p)) if first is None else TRUE
        if h is not None and last is None:
            c = and_(c, X.lt(X.const(p), h))
        c = and_(c, g)
        if c is FALSE or and_(I.pc, c) is FALSE:
            continue
        out.append((c, v))
    return out


def getitem(I, o, k):
    t = type(o)
    if t is VUnion:
        return I.lift(o, lambda x: getitem(I, x, k))
    if type(k) is tuple:
        for i in (1, 2, 3):
            if type(k[i]) is VUnion:
                return I.lift(k[i], lambda x: getitem(I, o, k[:i] + (x,) + k[i + 1:]))
        if t is VSeq:
            ents = ents_slice(I, o.ents, k[1], k[2], k[3])
            return VSeq(o.kind, ents, I.pc if o.kind == 'list' else TRUE)
        if t is str:
            if all(x is None or type(x) is int for x in k[1:]):
                return o[slice(*k[1:])]
            return norm_str(I, ents_slice(I, [(TRUE, c) for c in o], k[1], k[2], k[3]))
        if t is VStr:
            return norm_str(I, ents_slice(I, o.ents, k[1], k[2], k[3]))
        if t is Native:
            return I.from_native(o.obj[slice(*[I.concrete(x) for x in k[1:]])])
        f = I.user_attr(o, '__getitem__')
        if f is not None:
            return I.call(f, [o, Native(slice(*[I.concrete(x) for x in k[1:]]))])
        I.throw('TypeError', 'object is not sliceable')
    f = I.user_attr(o, '__getitem__')
    if f is not None:
        return I.call(f, [o, k])
    if type(k) is VUnion and t is not VDict:
        return I.lift(k, lambda x: getitem(I, o, x))
    if t is VSeq:
        if o.kind == 'iter':
            I.throw('TypeError', "'generator' object is not subscriptable")
        if o.dense and type(k) is int:
            n = len(o.ents)
            if -n <= k < n:
                return force(o.ents[k][1])
        return ents_index(I, o.ents, k, o.kind)
    if t is VDict:
        return dict_getitem(I, o, k)
    if t is str:
        return I.with_int(k, lambda i: o[i] if -len(o) <= i < len(o) else I.throw('IndexError', 'string index out of '
                                                                                  'range'))
    if t is VStr:
        return ents_index(I, o.ents, k, 'string')
    if t is Native:
        try:
            return I.from_native(o.obj[I.concrete(k)])
        except (KeyError, IndexError, TypeError) as ex:
            I.throw(type(ex).__name__, str(ex))
    if t in (VClass, BType):
        return o
    if t in (Render, Opaque):
        I.unsupported('index into rendered text')
    I.throw('TypeError', "'%s' object is not subscriptable" % tname(I, o))


def setitem(I, o, k, v):
    t = type(o)
    if t is VUnion:
        return I.lift(o, lambda x: setitem(I, x, k, v))
    if type(k) is tuple:
        return set_slice(I, o, k, v)
    f = I.user_attr(o, '__setitem__')
    if f is not None:
        return I.call(f, [o, k, v])
    if type(k) is VUnion:
        return I.lift(k, lambda x: setitem(I, o, x, v))
    if t is VDict:
        return dict_set(I, o, k, v)
    if t is VSeq and o.kind == 'list':
        g = relative(I.pc, o.pc0)
        if type(k) is int and o.dense:
            n = len(o.ents)
            if not -n <= k < n:
                I.throw('IndexError', 'list assignment index out of range')
            o.ents = list(o.ents)
            o.ents[k] = (TRUE, merge(g, v, o.ents[k][1]))
            return
        comp = list(I.compact(o.ents))
        alts = index_alts(I, k)
        for h, i in alts:
            if -len(comp) <= i < len(comp):
                if i < 0:
                    if not all(x is TRUE for x, _ in comp):
                        # from the end of any length: entry j when entry j - i - 1 is the last one
                        I.throw_if(and_(h, not_(comp[-i - 1][0])), 'IndexError', 'list assignment index out of range')
                        here = and_(relative(I.pc, o.pc0), h)
                        for j in range(len(comp) + i + 1):
                            last = j - i - 1
                            end = and_(comp[last][0], not_(comp[last + 1][0]) if last + 1 < len(comp) else TRUE)
                            comp[j] = (comp[j][0], merge(and_(here, end), v, comp[j][1]))
                        continue
                    i += len(comp)
                p, old = comp[i]
                I.throw_if(and_(h, not_(p)), 'IndexError', 'list assignment index out of range')
                comp[i] = (p, merge(and_(relative(I.pc, o.pc0), h), v, old))
            else:
                I.throw_if(h, 'IndexError', 'list assignment index out of range')
        o.ents = comp
        o.dense = all(x is TRUE for x, _ in comp)
        return
    if t is Native:
        I.unsupported('item assignment on a native object')
    I.throw('TypeError', "'%s' object does not support item assignment" % tname(I, o))


def set_slice(I, o, k, v):
    if type(o) is not VSeq or o.kind != 'list':
        I.throw('TypeError', 'object does not support slice assignment')
    g = relative(I.pc, o.pc0)
    new = I.entries_any(v)
    lo, hi, st = [I.concrete(x) if x is not None else None for x in k[1:]]
    if st not in (None, 1):
        I.unsupported('extended slice assignment')
    if lo is None and hi is None:
        base, rest = [], []
        old = o.ents
    else:
        comp = I.compact(o.ents)
        if not all(x is TRUE for x, _ in comp):
            I.unsupported('slice assignment on a symbolic length')
        lo2, hi2, _ = slice(lo, hi).indices(len(comp))
        base, old, rest = comp[:lo2], comp[lo2:max(hi2, lo2)], comp[max(hi2, lo2):]
    if g is TRUE:
        mid = list(new)
    else:
        mid = [(and_(not_(g), h), x) for h, x in old] + [(and_(g, h), x) for h, x in new]
    o.ents = base + mid + rest
    o.dense = all(x is TRUE for x, _ in o.ents)


def delitem(I, o, k):
    t = type(o)
    if t is VUnion:
        return I.lift(o, lambda x: delitem(I, x, k))
    f = I.user_attr(o, '__delitem__')
    if f is not None:
        return I.call(f, [o, k])
    if t is VDict:
        return dict_del(I, o, k)
    if t is VSeq and o.kind == 'list':
        if type(k) is tuple:
            return set_slice(I, o, k, dense_seq('list', []))
        return seq_pop(I, o, k)
    I.throw('TypeError', "object doesn't support item deletion")


def seq_pop(I, s, k=-1):
    comp = I.compact(s.ents)
    g = relative(I.pc, s.pc0)

    def at(i):
        nonlocal g
        n = len(comp)
        if i >= n or -i > n:
            I.throw('IndexError', 'pop index out of range')
        if i < 0 and not all(x is TRUE for x, _ in comp):
            if i != -1:
                I.unsupported('pop from a symbolic length')
            I.throw_if(not_(comp[0][0]), 'IndexError', 'pop from empty list')
            g2 = relative(I.pc, s.pc0)
            alts, out = [], []
            for p, (h, v) in enumerate(comp):
                nxt = comp[p + 1][0] if p + 1 < n else FALSE
                last = and_(h, not_(nxt))
                alts.append((last, v))
                out.append((and_(h, not_(and_(g2, last))), v))
            s.ents = [x for x in out if x[0] is not FALSE]
            s.dense = all(x is TRUE for x, _ in s.ents)
            return mk_union(alts)
        if i < 0:
            i += n
        h, v = comp[i]
        I.throw_if(not_(h), 'IndexError', 'pop index out of range')
        g2 = relative(I.pc, s.pc0)
        out = list(comp)
        if g2 is TRUE:
            del out[i]
        else:
            out[i] = (and_(h, not_(g2)), v)
        s.ents = out
        s.dense = all(x is TRUE for x, _ in out)
        return v
    alts = index_alts(I, k)
    if len(alts) == 1:
        return at(alts[0][1])
    I.unsupported('pop at a symbolic index')


def sort_ents(I, ents, key=None, reverse=False):
    ents = I.simp_ents(ents)
    keyed = []
    for g, v in ents:
        k = v
        if key is not None:
            g, k = I.under(g, lambda: I.call(key, [v]))
            if g is FALSE:
                continue
        keyed.append((g, k, v))
    cks = [sort_key(k) for _, k, _ in keyed]
    if all(c is not None for c in cks) and len(set(c[0] for c in cks)) <= 1:
        order = sorted(range(len(keyed)), key=lambda i: cks[i][1], reverse=reverse)
        return [(keyed[i][0], keyed[i][2]) for i in order]
    if all(c is not None for c in cks) and not any(type(k) is VSeq for _, k, _ in keyed):
        I.throw('TypeError', "'<' not supported between instances")
    if all(g is TRUE for g, _, _ in keyed):
        return [(TRUE, v) for v in sort_network(I, [(k, v) for _, k, v in keyed], reverse)]
    out = []
    if len(keyed) <= 12:
        pairs = [(g, dense_seq('tuple', [k, v])) for g, k, v in keyed]
        for g, vals in I.dense_alts(pairs):
            kv = [(x.ents[0][1], x.ents[1][1]) if type(x) is VSeq else None for x in vals]
            if any(x is None for x in kv):
                I.unsupported('sort of alternatives')
            g, r = I.under(g, lambda: sort_network(I, kv, reverse))
            if g is not FALSE:
                for v in r:
                    out.append((g, v))
        return out
    I.unsupported('sort of a symbolic sequence')


def sort_key(k):
    t = type(k)
    if t is int or t is bool:
        return ('n', Fraction(int(k)))
    if t is SNum and k.e.op == 'c':
        return ('n', k.e.args[0])
    if t is str:
        return ('s', k)
    if t is VSeq and k.dense and k.kind in ('tuple', 'list'):
        ks = [sort_key(x) for _, x in k.ents]
        if any(x is None for x in ks):
            return None
        return (('t', tuple(x[0] for x in ks)), [x[1] for x in ks])
    return None


def sort_network(I, kv, reverse):
    """Stable insertion network over (key, value) pairs."""
    xs = list(kv)
    op = '>' if reverse else '<'
    for i in range(1, len(xs)):
        for j in range(i, 0, -1):
            (ka, va), (kb, vb) = xs[j - 1], xs[j]
            c = truth(I, cmp(I, op, kb, ka))
            if c is FALSE:
                break
            same = ka is va and kb is vb
            lo_k, hi_k = merge(c, kb, ka), merge(c, ka, kb)
            if same:
                xs[j - 1], xs[j] = (lo_k, lo_k), (hi_k, hi_k)
            else:
                xs[j - 1], xs[j] = (lo_k, merge(c, vb, va)), (hi_k, merge(c, va, vb))
    return [v for _, v in xs]


# ---------------------------------------------------------------- dictionaries
def unhashable(I, k):
    t = type(k)
    if t is VDict and I.user_attr(k, '__hash__') is None or t is VSet and not k.frozen \
            or t is VSeq and k.kind == 'list':
        return True
    if t is VSeq and k.kind == 'tuple':
        return any(unhashable(I, x) for _, x in k.ents)
    return False


def dict_find(I, d, k):
    """(guard, value) of a key; value None when no entry can match."""
    if type(k) is VUnion:
        gs, alts = [], []
        for g, x in k.alts:
            h, v = dict_find(I, d, x)
            h = and_(g, h)
            if h is not FALSE:
                gs.append(h)
                alts.append((h, v))
        if not gs:
            return FALSE, None
        return or_(*gs), mk_union(alts)
    hk = hkey(k)
    if hk is not None and d.nsym == 0:
        e = d.index.get(hk)
        if e is None or e[0] is FALSE:
            return FALSE, None
        v = e[2]
        if type(v) is Lazy:
            v = e[2] = force(v)
        return e[0], v
    if hk is None and unhashable(I, k):
        I.throw('TypeError', "unhashable type: '%s'" % tname(I, k))
    gs, alts = [], []
    for e in d.ents:
        if e[0] is FALSE:
            continue
        c = and_(e[0], eq(I, k, e[1]))
        if c is FALSE or and_(I.pc, c) is FALSE:
            continue
        v = e[2]
        if type(v) is Lazy:
            v = e[2] = force(v)
        gs.append(c)
        alts.append((c, v))
    if not gs:
        return FALSE, None
    return or_(*gs), mk_union(alts)


def dict_set(I, d, k, v, g=TRUE):
    if type(k) is VUnion:
        for h, x in k.alts:
            if and_(I.pc, h) is not FALSE:
                dict_set(I, d, x, v, and_(g, h))
        return
    rel = and_(relative(I.pc, d.pc0), g)
    if rel is FALSE:
        return
    hk = hkey(k)
    if hk is None and unhashable(I, k):
        I.throw('TypeError', "unhashable type: '%s'" % tname(I, k))
    if hk is not None and d.nsym == 0:
        e = d.index.get(hk)
        if e is None:
            e = [rel, k, v, hk]
            d.ents.append(e)
            d.index[hk] = e
        elif rel is TRUE:
            e[0], e[2] = TRUE, v
        elif e[0] is FALSE:
            e[0], e[2] = rel, v
        else:
            e[2] = lazy(rel, v, e[2])
            e[0] = or_(e[0], rel)
        return
    rest = rel
    own = None
    for e in d.ents:
        if hk is not None and e[3] == hk:
            own = e
            continue
        if e[0] is FALSE:
            continue
        c = and_(rest, e[0], eq(I, k, e[1]))
        if c is FALSE:
            continue
        e[2] = lazy(c, v, e[2])
        rest = and_(rest, not_(c))
        if rest is FALSE:
            return
    if not I.feasible(and_(I.pc, rest)):
        return
    if own is not None:
        own[2] = lazy(rest, v, own[2]) if own[0] is not FALSE else v
        own[0] = or_(own[0], rest)
        return
    e = [rest, k, v, hk]
    d.ents.append(e)
    if hk is None:
        d.nsym += 1
    else:
        d.index[hk] = e


def dict_del(I, d, k, quiet=False):
    g, v = dict_find(I, d, k)
    if not quiet:
        I.throw_if(not_(g), 'KeyError', k)
    rel = relative(I.pc, d.pc0)
    for e in list(d.ents):
        c = and_(rel, e[0], eq(I, k, e[1]))
        if c is FALSE:
            continue
        e[0] = and_(e[0], not_(c))
        if e[0] is FALSE:
            d.ents.remove(e)
            if e[3] is None:
                d.nsym -= 1
            else:
                del d.index[e[3]]
    return v


def dict_getitem(I, d, k):
    g, v = dict_find(I, d, k)
    if g is TRUE or and_(I.pc, not_(g)) is FALSE:
        return v
    if g is FALSE or and_(I.pc, g) is FALSE:
        return dict_missing(I, d, k)
    return I.branch(g, lambda: v, lambda: dict_missing(I, d, k))


def dict_missing(I, d, k):
    if d.cls is not None:
        f = I.class_lookup(d.cls, '__missing__')
        if f is not None:
            return I.call(f, [d, k])
    I.throw('KeyError', k)


def defaultdict_missing(I, args, kwargs):
    d, k = args
    if d.factory is None:
        I.throw('KeyError', k)
    v = I.call(d.factory, [])
    setitem(I, d, k, v)
    return v


def dict_update(I, d, other, kwargs=None):
    if type(other) is VUnion:
        I.lift(other, lambda x: dict_update(I, d, x))
    elif other is not None:
        if type(other) is VDict:
            src = [(e[0], e[1], e[2]) for e in other.ents]
            if I.user_attr(other, 'keys') is not None:
                src = [(g, k, getitem(I, other, k)) for g, k in I.entries_any(I.call(I.getattr(other, 'keys'), []))]
        elif type(other) is VObj and I.type_attr(other, 'keys') is not None:
            src = [(g, k, getitem(I, other, k)) for g, k in I.entries_any(I.call(I.getattr(other, 'keys'), []))]
        else:
            src = []
            for g, p in I.entries_any(other):
                def pair(p=p):
                    vals = I.unpack_vals(2, [], p)
                    return dense_seq('tuple', vals)
                g, pr = I.under(g, pair)
                if g is not FALSE:
                    src.append((g, pr.ents[0][1], pr.ents[1][1]))
        for g, k, v in src:
            dict_set(I, d, k, v, g)
    for k, v in (kwargs or {}).items():
        dict_set(I, d, k, v)


def dict_copy(I, d):
    r = VDict(I.pc)
    for g, k, v, hk in d.ents:
        if and_(I.pc, g) is FALSE:
            continue
        e = [g, k, v, hk]
        r.ents.append(e)
        if hk is None:
            r.nsym += 1
        else:
            r.index[hk] = e
    return r


def view_entries(I, v):
    d = v.d
    if v.which == 'keys':
        return [(e[0], e[1]) for e in d.ents]
    if v.which == 'values':
        return [(e[0], force(e[2])) for e in d.ents]
    return [(e[0], dense_seq('tuple', [e[1], force(e[2])])) for e in d.ents]


# ---------------------------------------------------------------- sets
def as_set(I, v):
    if type(v) is VSet:
        return v
    return make_set(I, I.entries_any(v))


def make_set(I, ents, frozen=False):
    s = VSet(False, I.pc)
    for g, x in ents:
        set_add(I, s, x, g)
    s.frozen = frozen
    return s


def set_add(I, s, x, g=TRUE):
    if type(x) is Lazy:
        x = force(x)
    if type(x) is VUnion:
        for h, y in x.alts:
            if and_(I.pc, g, h) is not FALSE:
                set_add(I, s, y, and_(g, h))
        return
    rel = and_(relative(I.pc, s.pc0), g)
    if rel is FALSE:
        return
    hk = hkey(x)
    if hk is None and unhashable(I, x):
        I.throw('TypeError', "unhashable type: '%s'" % tname(I, x))
    if hk is not None and s.nsym == 0:
        e = s.index.get(hk)
        if e is None:
            s.raw_add(rel, x, hk)
        else:
            e[0] = or_(e[0], rel)
        return
    rest = rel
    own = None
    for e in s.ents:
        if hk is not None and e[2] == hk:
            own = e
            continue
        if e[0] is FALSE:
            continue
        c = and_(e[0], eq(I, x, e[1]))
        if c is FALSE:
            continue
        rest = and_(rest, not_(c))
        if rest is FALSE:
            return
    if own is not None:
        own[0] = or_(own[0], rest)
    elif I.feasible(and_(I.pc, rest)):
        s.raw_add(rest, x, hk)


def set_contains(I, s, x):
    if type(x) is VUnion:
        return or_(*[and_(g, set_contains(I, s, y)) for g, y in x.alts])
    hk = hkey(x)
    if hk is not None and s.nsym == 0:
        e = s.index.get(hk)
        return e[0] if e is not None else FALSE
    if hk is None and unhashable(I, x) and type(x) is not VSet:
        I.throw('TypeError', "unhashable type: '%s'" % tname(I, x))
    return or_(*[and_(e[0], eq(I, x, e[1])) for e in s.ents if e[0] is not FALSE])


def set_remove(I, s, x, quiet):
    g = set_contains(I, s, x)
    if not quiet:
        I.throw_if(not_(g), 'KeyError', x)
    rel = relative(I.pc, s.pc0)
    for e in list(s.ents):
        c = and_(rel, e[0], eq(I, x, e[1]))
        if c is FALSE:
            continue
        e[0] = and_(e[0], not_(c))
        if e[0] is FALSE:
            s.ents.remove(e)
            if e[2] is None:
                s.nsym -= 1
            else:
                del s.index[e[2]]


def set_op(I, op, a, b):
    r = VSet(False, I.pc)
    if op == '&':
        for g, x, hk in a.ents:
            c = and_(g, set_contains(I, b, x))
            if c is not FALSE and and_(I.pc, c) is not FALSE:
                r.raw_add(c, x, hk)
    elif op == '-':
        for g, x, hk in a.ents:
            c = and_(g, not_(set_contains(I, b, x)))
            if c is not FALSE and and_(I.pc, c) is not FALSE:
                r.raw_add(c, x, hk)
    elif op == '^':
        for g, x, hk in a.ents:
            c = and_(g, not_(set_contains(I, b, x)))
            if c is not FALSE and and_(I.pc, c) is not FALSE:
                r.raw_add(c, x, hk)
        for g, x, hk in b.ents:
            c = and_(g, not_(set_contains(I, a, x)))
            if c is FALSE or and_(I.pc, c) is FALSE:
                continue
            if hk is not None and hk in r.index:
                e = r.index[hk]
                e[0] = or_(e[0], c)
            else:
                r.raw_add(c, x, hk)
    else:
        for g, x, hk in a.ents:
            if g is not FALSE:
                r.raw_add(g, x, hk)
        for g, x, hk in b.ents:
            set_add(I, r, x, g)
    r.frozen = a.frozen
    return r


def set_update_op(I, s, op, b):
    rel = relative(I.pc, s.pc0)
    if op == '|':
        for g, x, hk in list(b.ents):
            set_add(I, s, x, g)
        return
    n = set_op(I, op, s, b)
    # entry-wise: in the new set under rel, in the old one otherwise
    old = list(s.ents)
    s.ents, s.index, s.nsym = [], {}, 0
    newi = dict((id(e[1]) if e[2] is None else e[2], e) for e in n.ents)
    seen = set()
    for g, x, hk in old:
        key = id(x) if hk is None else hk
        seen.add(key)
        e = newi.get(key)
        c = X.ite_b(rel, e[0] if e is not None else FALSE, g)
        if c is not FALSE:
            s.raw_add(c, x, hk)
    for e in n.ents:
        key = id(e[1]) if e[2] is None else e[2]
        if key not in seen:
            c = and_(rel, e[0])
            if c is not FALSE:
                s.raw_add(c, e[1], e[2])


def subset(I, a, b):
    return and_(*[or_(not_(g), set_contains(I, b, x)) for g, x, _ in a.ents if g is not FALSE])


# ---------------------------------------------------------------- types
def type_of(I, v):
    t = type(v)
    if t is int:
        return T['int']
    if t is str or t in (Render, VStr, Opaque):
        return T['str']
    if t is bool or t is SBool:
        return T['bool']
    if v is None:
        return T['NoneType']
    if t is SNum:
        return T[{'int': 'int', 'dec': 'Decimal', 'float': 'float', 'frac': 'Fraction'}[v.kind]]
    if t is VSeq:
        if v.cls is not None:
            return v.cls
        return T[{'list': 'list', 'tuple': 'tuple', 'iter': 'generator', 'range': 'range'}[v.kind]]
    if t is VSet:
        return v.cls if v.cls is not None else T['frozenset' if v.frozen else 'set']
    if t is VDict:
        return v.cls if v.cls is not None else T['dict']
    if t is VObj:
        return v.cls
    if t in (VFunc, Bound):
        return T['function']
    if t is Builtin:
        return T['builtin_function_or_method']
    if t is VClass or t is BType:
        return T['type']
    if t is VView:
        return T['dict_' + v.which]
    if t is VProp:
        return T['property']
    return None


def isinstance_(I, v, c):
    if type(c) is VUnion:
        return bool_term(I.lift(c, lambda x: mk_bool(isinstance_(I, v, x))))
    if type(v) is VUnion:
        return or_(*[and_(g, isinstance_(I, x, c)) for g, x in v.alts])
    if type(c) is VSeq:
        return or_(*[and_(g, isinstance_(I, v, x)) for g, x in c.ents])
    if type(c) is Native:
        if type(v) is Native and isinstance(c.obj, type):
            return TRUE if isinstance(v.obj, c.obj) else FALSE
        if isinstance(c.obj, type):
            return FALSE
        I.unsupported('isinstance of a native type')
    t = type_of(I, v)
    if t is None:
        return FALSE
    if type(c) not in (VClass, BType):
        I.throw('TypeError', 'isinstance() arg 2 must be a type or tuple of types')
    return TRUE if issub(I, t, c) else FALSE


def issub(I, t, c):
    if c in t.mro:
        return True
    if type(c) is BType and c.name in ABCS:
        ok = ABCS[c.name]
        return any(type(k) is BType and k.name in ok for k in t.mro) or abc_duck(I, t, c.name)
    return False


def abc_duck(I, t, name):
    if name == 'Iterable':
        return I.class_lookup(t, '__iter__') is not None
    if name == 'Sized':
        return I.class_lookup(t, '__len__') is not None
    if name == 'Hashable':
        return not any(type(k) is BType and k.name in ('list', 'dict', 'set') for k in t.mro)
    if name == 'Callable':
        return I.class_lookup(t, '__call__') is not None or t.name in ('function', 'type', 'builtin_function_or_method')
    if name == 'Container':
        return I.class_lookup(t, '__contains__') is not None
    return False


_SEQ = ('list', 'tuple', 'str', 'range', 'bytes')
_SET = ('set', 'frozenset', 'dict_keys')
ABCS = {
    'Mapping': ('dict',), 'MutableMapping': ('dict',), 'Sequence': _SEQ, 'MutableSequence': ('list',), 'Set': _SET,
    'MutableSet': ('set',),
    'Iterable': _SEQ + _SET + ('dict', 'generator', 'dict_values', 'dict_items'),
    'Sized': _SEQ + _SET + ('dict', 'dict_values', 'dict_items'),
    'Container': _SEQ + _SET + ('dict',), 'Collection': _SEQ + _SET + ('dict', 'dict_values', 'dict_items'),
    'Hashable': (), 'Iterator': ('generator',), 'Generator': ('generator',), 'Callable': ('function',),
    'Number': ('int', 'float', 'Decimal', 'Fraction', 'bool'), 'Integral': ('int', 'bool'),
    'Real': ('int', 'float', 'Fraction', 'bool'), 'Rational': ('int', 'Fraction', 'bool'),
    'Complex': ('int', 'float', 'Fraction', 'bool'),
}


def namedtuple_fields(cls):
    f = cls.d.get('_fields') if type(cls) is VClass else None
    return [x for _, x in f.ents] if type(f) is VSeq else ()


def alloc(I, cls, base, args, kwargs):
    n = base.name
    if n in ('object', 'ModuleType'):
        return VObj(cls, I.pc)
    mro = [k.name for k in cls.mro if type(k) is BType]
    if 'BaseException' in [k.name for k in cls.mro]:
        o = VObj(cls, I.pc)
        o.native = {'args': dense_seq('tuple', args)}
        return o
    if 'dict' in mro:
        return VDict(I.pc, cls)
    if 'list' in mro:
        return VSeq('list', [], I.pc, cls)
    if 'tuple' in mro:
        return VSeq('tuple', I.entries_any(args[0]) if args else [], TRUE, cls)
    if 'set' in mro:
        return VSet(False, I.pc, cls)
    if 'frozenset' in mro:
        s = make_set(I, I.entries_any(args[0]) if args else [], True)
        s.cls = cls
        return s
    I.unsupported('subclass of %s' % n)


def meth(t, name, raw=False):
    def deco(f):
        T[t].methods[name] = Builtin('%s.%s' % (t, name), f, raw)
        return f
    return deco


def pos(names, args, kwargs, defaults=()):
    """Positional binding for built-ins with keyword names."""
    out = list(args)
    for n in names[len(out):]:
        if n in kwargs:
            out.append(kwargs[n])
        else:
            i = len(out) - (len(names) - len(defaults))
            out.append(defaults[i])
    return out


# ---------------------------------------------------------------- installation
def install(I):
    """Create the types once; per-interpreter state is only exc_classes and builtins."""
    if not T:
        make_types()
    I.exc_classes = {}
    make_exceptions(I)
    b = dict(BUILTINS)
    for n in ('object', 'type', 'int', 'bool', 'float', 'str', 'list', 'tuple', 'set', 'frozenset', 'dict', 'range',
              'property', 'staticmethod', 'classmethod'):
        b[n] = T[n]
    b.update(I.exc_classes)
    for n in ('InvalidOperation', 'DivisionByZero', 'DataError'):
        b.pop(n, None)
    b['NotImplemented'] = T['NotImplemented']
    b['Ellipsis'] = Native(Ellipsis)
    b['__debug__'] = True
    b['__name__'] = 'builtins'
    I.builtins = b


EXC = {
    'BaseException': 'object', 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'EOFError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception', 'IndexError': 'LookupError',
    'KeyError': 'LookupError', 'MemoryError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'FileExistsError': 'OSError', 'IsADirectoryError': 'OSError', 'NotADirectoryError': 'OSError',
    'PermissionError': 'OSError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'SyntaxError': 'Exception',
    'SystemError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'PendingDeprecationWarning': 'Warning', 'ResourceWarning': 'Warning',
    'JSONDecodeError': 'ValueError',
}


def make_exceptions(I):
    x = I.exc_classes
    for n, p in EXC.items():
        bases = [T['object']] if p == 'object' else [x[p]]
        c = VClass(n, bases, {})
        c.builtin = True
        x[n] = c
    x['IOError'] = x['EnvironmentError'] = x['OSError']

    def init(I, args, kwargs):
        args[0].native = {'args': dense_seq('tuple', args[1:])}
    x['BaseException'].d['__init__'] = Builtin('BaseException.__init__', init, True)

    def with_traceback(I, args, kwargs):
        return args[0]
    x['BaseException'].d['with_traceback'] = Builtin('with_traceback', with_traceback, True)
    x['BaseException'].d['__str__'] = Builtin('__str__', lambda I, a, k: str_(I, a[0]), True)

    def decx(n, *bases):
        c = VClass(n, [x[b] for b in bases], {})
        c.builtin = True
        x[n] = c
    decx('DecimalException', 'ArithmeticError')
    decx('InvalidOperation', 'DecimalException')
    decx('DivisionByZero', 'DecimalException', 'ZeroDivisionError')
    decx('CsvError', 'Exception')


def make_types():
    global OBJECT_INIT
    T['object'] = BType('object')
    o = T['object']
    OBJECT_INIT = Builtin('object.__init__', lambda I, a, k: None, True)
    o.methods['__init__'] = OBJECT_INIT
    o.methods['__getattribute__'] = Builtin('object.__getattribute__', lambda I, a, k: I.getattr_default(
        a[0], a[1], hook=False))
    o.methods['__setattr__'] = Builtin('object.__setattr__', lambda I, a, k: I.store_attr(I.attrs_of(a[0]), a[1], a[2]))
    o.methods['__eq__'] = Builtin('object.__eq__', lambda I, a, k: mk_bool(is_(I, a[0], a[1])))
    o.methods['__ne__'] = Builtin('object.__ne__', lambda I, a, k: mk_bool(not_(eq(I, a[0], a[1]))))
    o.methods['__hash__'] = Builtin('object.__hash__', lambda I, a, k: hash_(I, a[0]))
    o.methods['__str__'] = Builtin('object.__str__', lambda I, a, k: str_(I, a[0]))
    o.methods['__repr__'] = Builtin('object.__repr__', lambda I, a, k: Opaque())

    def obj_new(I, args, kwargs):
        c = args[0]
        base = [k for k in c.mro if type(k) is BType][0]
        return alloc(I, c, base, args[1:], kwargs)
    o.methods['__new__'] = VStatic(Builtin('object.__new__', obj_new, True))
    o.construct = lambda I, c, a, k: VObj(c, I.pc)
    btype('type')
    T['type'].construct = type_construct
    T['type'].methods['__call__'] = Builtin('type.__call__', lambda I, a, k: I.call(a[0], a[1:], k), True)
    for n in ('NoneType', 'function', 'builtin_function_or_method', 'generator', 'range', 'dict_keys', 'dict_values',
              'dict_items', 'property', 'staticmethod', 'classmethod', 'float', 'int', 'Decimal', 'Fraction', 'str',
              'list', 'tuple', 'set', 'frozenset', 'dict', 'ModuleType', 'bytes'):
        btype(n)
    btype('bool', ('int',))
    btype('defaultdict', ('dict',), 'collections')
    btype('OrderedDict', ('dict',), 'collections')
    for n in ABCS:
        btype(n, module='collections.abc')
    T['NotImplemented'] = Native(NotImplemented)
    from . import types_
    types_.install(T, BUILTINS)


def type_construct(I, c, args, kwargs):
    if len(args) == 1:
        t = type_of(I, args[0])
        if t is None:
            I.unsupported('type of a native object')
        return t
    name, bases, ns = args
    d = dict((e[1], e[2]) for e in ns.ents)
    bs = [x for _, x in I.entries(bases)] or [T['object']]
    return VClass(name, bs, d, None, I.pc)


def hash_(I, v):
    hk = hkey(v)
    if hk is None:
        if unhashable(I, v):
            I.throw('TypeError', "unhashable type: '%s'" % tname(I, v))
        f = I.user_attr(v, '__hash__')
        if f is not None:
            return I.call(f, [v])
        I.unsupported('hash of a symbolic value')
    return I.idmap.setdefault(hk, 1000 + len(I.idmap)) if hk[0] not in ('n',) else int(hk[1]) if hk[1].denominator == 1 \
        else I.idmap.setdefault(hk, 1000 + len(I.idmap))


def prop_attr(I, p, name):
    if name == 'setter':
        return Builtin('setter', lambda I, a, k: VProp(p.get, a[0], p.delete))
    if name == 'getter':
        return Builtin('getter', lambda I, a, k: VProp(a[0], p.set, p.delete))
    if name == 'deleter':
        return Builtin('deleter', lambda I, a, k: VProp(p.get, p.set, a[0]))
    if name == 'fget':
        return p.get
    I.throw('AttributeError', name)


BUILTINS = {}
