"""Constructors and methods of the built-in types, and the built-in functions."""
import math as _math
from decimal import Decimal
from fractions import Fraction
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_, relative
from .values import *
from .values import V

HALF = Fraction(1, 2)


def B():
    from . import builtins_
    return builtins_


def install(T, BUILTINS):
    b = B()
    meth = b.meth

    def func(name, raw=False):
        def deco(f):
            BUILTINS[name] = Builtin(name, f, raw)
            return f
        return deco

    # ------------------------------------------------------------ numbers
    def bad_number(I, s, what):
        I.throw('ValueError', 'could not convert string to %s: %r' % (what, s))

    def c_int(I, c, args, kw):
        if not args:
            return 0
        x = args[0]
        if type(x) is int and len(args) == 1:
            return x
        n = num(x)
        if n is not None:
            if n[0] in ('int', 'bool'):
                return mk_num('int', n[1])
            return mk_num('int', b.trunc(n[1]))
        for m in ('__int__', '__index__', '__trunc__'):
            f = I.user_attr(x, m)
            if f is not None:
                return I.call(f, [x])
        if type(x) is Render and not x.prefix and not x.suffix and x.kind == 'int':
            return mk_num('int', x.e)
        if type(x) in (str, VStr, Native):
            s = I.concrete(x)
            try:
                return int(s, *[I.concrete(a) for a in args[1:]]) if type(s) is str else int(s)
            except (ValueError, OverflowError, TypeError) as ex:
                I.throw(type(ex).__name__, str(ex))
        if type(x) in (Render, Opaque):
            I.unsupported('int of rendered text')
        I.throw('TypeError', "int() argument must be a string, a bytes-like object or a number, not '%s'"
                % b.tname(I, x))
    T['int'].construct = c_int

    def c_bool(I, c, args, kw):
        return mk_bool(b.truth(I, args[0])) if args else False
    T['bool'].construct = c_bool

    def c_float(I, c, args, kw):
        if not args:
            return SNum('float', X.ZERO)
        x = args[0]
        n = num(x)
        if n is not None:
            return SNum('float', n[1])
        f = I.user_attr(x, '__float__')
        if f is not None:
            return I.call(f, [x])
        if type(x) is Render and not x.prefix and not x.suffix:
            return SNum('float', x.e)
        if type(x) in (str, VStr, Native):
            s = I.concrete(x)
            try:
                return I.from_native(float(s))
            except (ValueError, TypeError) as ex:
                I.throw(type(ex).__name__, str(ex))
        I.throw('TypeError', 'float() argument must be a string or a number')
    T['float'].construct = c_float

    def c_decimal(I, c, args, kw):
        if not args:
            return SNum('dec', X.ZERO)
        x = args[0]
        n = num(x)
        if n is not None:
            if n[0] == 'frac':
                I.throw('TypeError', 'conversion from Fraction to Decimal is not supported')
            return SNum('dec', n[1])
        if type(x) is Render and not x.prefix and not x.suffix:
            return SNum('dec', x.e)
        if type(x) in (str, VStr, Native):
            s = I.concrete(x)
            try:
                return I.from_native(Decimal(s))
            except Exception as ex:
                I.throw(type(ex).__name__, str(ex))
        if type(x) is VSeq:
            return I.native_call(Decimal, args, {})
        I.throw('TypeError', "conversion from %s to Decimal is not supported" % b.tname(I, x))
    T['Decimal'].construct = c_decimal

    def c_fraction(I, c, args, kw):
        if len(args) == 2:
            d = num(args[1])
            I.throw_if(X.eq(d[1], X.ZERO), 'ZeroDivisionError', 'Fraction(x, 0)')
            return SNum('frac', X.div(num(args[0])[1], d[1]))
        if args and num(args[0]) is not None:
            return SNum('frac', num(args[0])[1])
        return I.from_native(Fraction(*[I.concrete(a) for a in args]))
    T['Fraction'].construct = c_fraction

    for t in ('int', 'float', 'Decimal', 'Fraction', 'bool'):
        kind = {'Decimal': 'dec', 'Fraction': 'frac', 'bool': 'int'}.get(t, t)

        def prop(name, f, t=t):
            T[t].methods[name] = VProp(Builtin(name, f))
        prop('real', lambda I, a, k: a[0])
        if t in ('int', 'bool', 'Fraction'):
            prop('numerator', lambda I, a, k: a[0] if num(a[0])[0] != 'frac' else frac_part(I, a[0], 0))
            prop('denominator', lambda I, a, k: 1 if num(a[0])[0] != 'frac' else frac_part(I, a[0], 1))
        meth(t, 'conjugate')(lambda I, a, k: a[0])
        from .interp import DUNDER, CMPD
        for op, nm in DUNDER.items():
            meth(t, '__%s__' % nm)(lambda I, a, k, op=op: b.binop(I, op, a[0], a[1]))
            meth(t, '__r%s__' % nm)(lambda I, a, k, op=op: b.binop(I, op, a[1], a[0]))
        for op, nm in CMPD.items():
            meth(t, '__%s__' % nm)(lambda I, a, k, op=op: b.cmp(I, op, a[0], a[1]))
        meth(t, '__neg__')(lambda I, a, k: I.unary('-', a[0]))
        meth(t, '__abs__')(lambda I, a, k: bi_abs(I, a, k))
        meth(t, '__int__')(lambda I, a, k: c_int(I, None, a, k))
        meth(t, '__float__')(lambda I, a, k: c_float(I, None, a, k))
        meth(t, '__bool__')(lambda I, a, k: mk_bool(b.truth(I, a[0])))
        meth(t, '__str__')(lambda I, a, k: b.str_(I, a[0]))

    def frac_part(I, x, i):
        f = I.fork_num(x.e)
        return int(f.numerator if i == 0 else f.denominator)

    meth('float', 'is_integer')(lambda I, a, k: mk_bool(X.eq(X.floor(num(a[0])[1]), num(a[0])[1])))
    meth('int', 'bit_length')(lambda I, a, k: I.with_int(a[0], lambda n: n.bit_length()))

    def dmeth(name):
        return meth('Decimal', name)

    @dmeth('sqrt')
    def d_sqrt(I, a, k):
        e = a[0].e
        I.throw_if(X.lt(e, X.ZERO), 'InvalidOperation', 'sqrt of a negative number')
        return SNum('dec', b.sqrt(I, e))
    dmeth('is_nan')(lambda I, a, k: False)
    dmeth('is_infinite')(lambda I, a, k: False)
    dmeth('is_finite')(lambda I, a, k: True)
    dmeth('is_zero')(lambda I, a, k: mk_bool(X.eq(a[0].e, X.ZERO)))
    dmeth('is_signed')(lambda I, a, k: mk_bool(X.lt(a[0].e, X.ZERO)))
    dmeth('copy_abs')(lambda I, a, k: bi_abs(I, a, k))
    dmeth('copy_negate')(lambda I, a, k: I.unary('-', a[0]))
    dmeth('normalize')(lambda I, a, k: a[0])
    dmeth('max')(lambda I, a, k: c_decimal(I, None, [fold_best(I, [(TRUE, x) for x in a], None, '>')], {}))
    dmeth('min')(lambda I, a, k: c_decimal(I, None, [fold_best(I, [(TRUE, x) for x in a], None, '<')], {}))

    @dmeth('compare')
    def d_compare(I, a, k):
        x, y = num(a[0])[1], num(a[1])[1]
        return SNum('dec', X.ite(X.lt(x, y), X.const(-1), X.ite(X.eq(x, y), X.ZERO, X.ONE)))

    def to_integral(I, a, k):
        return SNum('dec', round_half_even(num(a[0])[1]))
    dmeth('to_integral_value')(to_integral)
    dmeth('to_integral')(to_integral)

    @dmeth('from_float')
    def d_from_float(I, a, k):
        return c_decimal(I, None, a, k)
    T['Decimal'].methods['from_float'] = VStatic(T['Decimal'].methods['from_float'])

    def round_half_even(e):
        h = X.add(e, X.const(HALF))
        f = X.floor(h)
        tie = X.eq(f, h)
        if tie is FALSE:
            return f
        odd = X.sub(f, X.scale(X.floor(X.scale(f, HALF)), Fraction(2)))
        return X.ite(and_(tie, X.eq(odd, X.ONE)), X.sub(f, X.ONE), f)
    b.round_half_even = round_half_even

    @func('round')
    def bi_round(I, a, k):
        x, nd = b.pos(['number', 'ndigits'], a, k, [None])
        f = I.user_attr(x, '__round__')
        if f is not None:
            return I.call(f, [x] + ([nd] if nd is not None else []))
        n = num(x)
        if n is None:
            if type(x) is Native:
                return I.native_call(round, a, k)
            I.throw('TypeError', 'type %s doesn\'t define __round__ method' % b.tname(I, x))
        if nd is None:
            return mk_num('int', round_half_even(n[1]))
        d = I.with_int(nd, lambda i: i) if type(nd) is not int else nd
        if type(d) is not int:
            return I.with_int(nd, lambda i: bi_round(I, [x, i], {}))
        s = Fraction(10) ** d
        return mk_num('int' if n[0] == 'bool' else n[0], X.scale(round_half_even(X.scale(n[1], s)), 1 / s))

    @func('abs')
    def bi_abs(I, a, k):
        n = num(a[0])
        if n is None:
            f = I.user_attr(a[0], '__abs__')
            if f is not None:
                return I.call(f, [a[0]])
            if type(a[0]) is Native:
                return I.native_call(abs, a, k)
            I.throw('TypeError', "bad operand type for abs(): '%s'" % b.tname(I, a[0]))
        return mk_num('int' if n[0] == 'bool' else n[0], X.abs_(n[1]))

    @func('divmod')
    def bi_divmod(I, a, k):
        return dense_seq('tuple', [b.binop(I, '//', a[0], a[1]), b.binop(I, '%', a[0], a[1])])

    @func('pow')
    def bi_pow(I, a, k):
        r = b.binop(I, '**', a[0], a[1])
        return b.binop(I, '%', r, a[2]) if len(a) > 2 and a[2] is not None else r

    # ------------------------------------------------------------ text
    def c_str(I, c, args, kw):
        if not args:
            return ''
        return b.str_(I, args[0])
    T['str'].construct = c_str

    def plain(v):
        v = force(v)
        t = type(v)
        if t in (str, int, bool) or v is None:
            return True
        if t is VSeq and v.kind == 'tuple':
            return v.dense and all(plain(x) for _, x in v.ents)
        return False

    def smeth(name):
        native = getattr(str, name)

        def f(I, a, k):
            if all(plain(x) for x in a) and all(plain(x) for x in k.values()):
                try:
                    r = native(*[I.concrete(x) for x in a], **dict((n, I.concrete(x)) for n, x in k.items()))
                except (TypeError, ValueError, LookupError) as ex:
                    I.throw(type(ex).__name__, str(ex))
                return from_str(I, r)
            s = a[0]
            if type(s) is VStr:
                if name in ('split', 'rsplit') and len(a) in (2, 3) and type(a[1]) is str and len(a[1]) == 1:
                    most = force(a[2]) if len(a) == 3 else force(k.get('maxsplit', -1))
                    if type(most) is int and (len(a) == 3 or not set(k) - {'maxsplit'}):
                        return b.str_split_char(I, s, a[1], most, name == 'rsplit')
                if name == 'count' and len(a) == 2 and type(a[1]) is str and len(a[1]) == 1:
                    return mk_num('int', X.sum_([X.b2i(and_(g, b.eq(I, ch, a[1]))) for g, ch in s.ents]))
                if name == 'startswith' and len(a) == 2 and type(a[1]) is str and len(a[1]) == 1:
                    cp = I.compact(s.ents)
                    return mk_bool(and_(cp[0][0], b.eq(I, cp[0][1], a[1]))) if cp else False
                if name == 'replace' and len(a) == 3 and type(a[1]) is str and len(a[1]) == 1 and type(a[2]) is str \
                        and len(a[2]) <= 1:
                    out = []
                    for g, ch in s.ents:
                        e = b.eq(I, ch, a[1])
                        if a[2] == '':
                            out.append((and_(g, not_(e)), ch))
                        else:
                            out.append((g, merge(e, a[2], ch)))
                    return b.norm_str(I, out)
                if name in ('find', 'index', 'rfind', 'rindex') and len(a) in (2, 3) and type(a[1]) is str \
                        and len(a[1]) == 1:
                    return str_find(I, name, s, a)
                if name in ('lower', 'upper'):
                    return VStr([(g, I.lift(ch, lambda x: getattr(x, name)())) for g, ch in s.ents])
            if type(s) in (Opaque,):
                if name in ('split', 'rsplit', 'splitlines', 'startswith', 'endswith', 'find', 'index', 'count',
                            'isdigit'):
                    I.unsupported('str.%s of untracked text' % name)
                return Opaque()
            if type(s) is Render:
                if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper') and len(a) == 1 and plain_fix(s, name):
                    return s
                if name == 'startswith' and type(a[1]) is str and s.prefix.startswith(a[1]):
                    return True
                if name == 'endswith' and type(a[1]) is str and s.suffix.endswith(a[1]):
                    return True
                if name in ('split', 'rsplit', 'partition', 'rpartition') and len(a) == 2 and type(a[1]) is str \
                        and not any(c in '0123456789-.eE' for c in a[1]) and a[1]:
                    return render_split(I, s, name, a[1])
            vals = [I.concrete(x) for x in a]
            try:
                return from_str(I, native(*vals, **dict((n, I.concrete(x)) for n, x in k.items())))
            except (TypeError, ValueError, LookupError) as ex:
                I.throw(type(ex).__name__, str(ex))
        meth('str', name)(f)

    def plain_fix(s, name):
        return getattr(s.prefix, name)() == s.prefix and getattr(s.suffix, name)() == s.suffix and not (
            name.endswith('strip') and (s.prefix[:1].isspace() or s.suffix[-1:].isspace()))

    def render_split(I, s, name, sep):
        pre, suf = s.prefix.split(sep), s.suffix.split(sep)
        if name in ('partition', 'rpartition'):
            I.unsupported('partition of rendered text')
        mid = Render(pre[-1], s.kind, s.e, suf[0])
        return dense_seq('list', pre[:-1] + [mid] + suf[1:], I.pc)

    def str_find(I, name, s, a):
        start = 0
        if len(a) == 3:
            start = I.with_int(a[2], lambda i: i) if type(a[2]) is not int else a[2]
            if type(start) is not int or start < 0:
                I.unsupported('find from a symbolic start')
        comp = I.compact(s.ents)
        hit = FALSE
        val = X.const(-1)
        idx = range(start, len(comp))
        for i in (reversed(idx) if not name.startswith('r') else idx):
            g, ch = comp[i]
            h = and_(g, b.eq(I, ch, a[1]))
            if h is FALSE:
                continue
            val = X.ite(h, X.const(i), val)
            hit = or_(hit, h)
        if name.endswith('index'):
            I.throw_if(not_(hit), 'ValueError', 'substring not found')
        return mk_num('int', val)

    def from_str(I, r):
        if isinstance(r, bytes):
            return Native(r)
        return I.from_native(r)

    for n in ('split', 'rsplit', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace',
              'count', 'find', 'index', 'rfind', 'rindex', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper',
              'islower', 'isnumeric', 'isdecimal', 'isidentifier', 'partition', 'rpartition', 'encode', 'splitlines',
              'title', 'capitalize', 'swapcase', 'zfill', 'center', 'ljust', 'rjust', 'expandtabs', 'casefold',
              'translate', 'removeprefix', 'removesuffix'):
        smeth(n)
    meth('str', 'format', True)(lambda I, a, k: fmt(I, a, k))
    meth('str', 'format_map')(lambda I, a, k: fmt(I, [a[0]], dict((e[1], force(e[2])) for e in a[1].ents)))
    meth('str', '__len__')(lambda I, a, k: bi_len(I, a, k))
    meth('str', '__contains__')(lambda I, a, k: mk_bool(b.contains(I, a[0], a[1])))
    meth('str', '__getitem__')(lambda I, a, k: b.getitem(I, a[0], a[1]))
    meth('str', '__add__')(lambda I, a, k: b.binop(I, '+', a[0], a[1]))
    meth('str', '__eq__')(lambda I, a, k: mk_bool(b.eq(I, a[0], a[1])))
    T['str'].methods['maketrans'] = VStatic(Builtin('maketrans', lambda I, a, k: I.native_call(str.maketrans, a, k)))

    def fmt(I, a, k):
        s = a[0]
        if type(s) is VUnion:
            return I.lift(s, lambda x: fmt(I, [x] + list(a[1:]), k))
        return b.str_format(I, s, [force(x) for x in a[1:]], dict((n, force(x)) for n, x in k.items()))

    @meth('str', 'join')
    def s_join(I, a, k):
        sep = a[0]
        ents = I.simp_ents(I.entries_any(a[1]))
        flat = []
        for g, v in ents:
            v = force(v)
            if type(v) is VUnion:
                for h, x in v.alts:
                    flat.append((and_(g, h), x))
            else:
                flat.append((g, v))
        flat = [(g, v) for g, v in flat if and_(I.pc, g) is not FALSE]
        for g, v in flat:
            if type(v) not in b.STRS:
                I.throw_if(g, 'TypeError', 'sequence item: expected str instance, %s found' % b.tname(I, v))
        if all(g is TRUE for g, _ in flat) and all(type(v) is str for _, v in flat) and type(sep) is str:
            return sep.join(v for _, v in flat)
        if any(type(v) is Opaque for _, v in flat) or type(sep) in (Render, Opaque):
            return Opaque()
        if any(type(v) is Render for _, v in flat):
            # every choice of pieces separately
            alts = I.dense_alts([(g, v) for g, v in ents])
            return I.cases([(g, (lambda vs=vs: cat_all(I, sep, vs))) for g, vs in alts])
        out = []
        seen = FALSE
        for g, v in flat:
            if sep != '':
                h = and_(g, seen)
                if h is not FALSE:
                    out.extend((and_(h, q), c) for q, c in I.entries(sep))
            out.extend((and_(g, q), c) for q, c in I.entries(v))
            seen = or_(seen, g)
        return b.norm_str(I, out)

    def cat_all(I, sep, vs):
        def go(i, acc):
            if i == len(vs):
                return acc
            return I.lift(vs[i], lambda x: go(i + 1, b.str_cat(I, b.str_cat(I, acc, sep) if i else acc, x)))
        return go(0, '')

    @func('chr')
    def bi_chr(I, a, k):
        return I.with_int(a[0], chr)

    @func('ord')
    def bi_ord(I, a, k):
        return ord(I.concrete(a[0]))
    func('repr')(lambda I, a, k: b.repr_(I, a[0]))
    func('ascii')(lambda I, a, k: b.repr_(I, a[0]))
    func('format')(lambda I, a, k: b.format_value(I, a[0], a[1] if len(a) > 1 else ''))
    func('bin')(lambda I, a, k: I.with_int(a[0], bin))
    func('hex')(lambda I, a, k: I.with_int(a[0], hex))

    # ------------------------------------------------------------ sequences
    def c_list(I, c, args, kw):
        return VSeq('list', list(I.entries_any(args[0])) if args else [], I.pc)
    T['list'].construct = c_list

    def c_tuple(I, c, args, kw):
        if not args:
            return VSeq('tuple', [], TRUE)
        x = args[0]
        if type(x) is VSeq and x.kind == 'tuple' and x.cls is None:
            return x
        return VSeq('tuple', I.simp_ents(I.entries_any(x)), TRUE)
    T['tuple'].construct = c_tuple

    def c_range(I, c, args, kw):
        vals = []
        for x in args:
            n = num(x)
            if n is None or n[0] not in ('int', 'bool'):
                f = I.user_attr(x, '__index__')
                if f is None:
                    I.throw('TypeError', "'%s' object cannot be interpreted as an integer" % b.tname(I, x))
                n = num(I.call(f, [x]))
            e = n[1]
            if e.op != 'c':
                u = I.unique(e)
                if u is not None:
                    e = X.const(u)
            vals.append(e)
        lo, step = X.ZERO, X.ONE
        if len(vals) == 1:
            hi = vals[0]
        else:
            lo, hi = vals[:2]
            if len(vals) == 3:
                step = vals[2]
        if step.op != 'c':
            return I.with_int(mk_num('int', step), lambda s: c_range(I, c, list(args[:2]) + [s], {}))
        st = int(step.args[0])
        if st == 0:
            I.throw('ValueError', 'range() arg 3 must not be zero')
        if lo.op == 'c' and hi.op == 'c':
            r = range(int(lo.args[0]), int(hi.args[0]), st)
            if len(r) > 200000:
                I.unsupported('huge range')
            return VSeq('range', [(TRUE, i) for i in r], I.pc, dense=True)
        span = X.sub(hi, lo) if st > 0 else X.sub(lo, hi)
        m = b.max_int(I, span)
        ents = []
        for i in range(0, max(m, 0), abs(st)):
            g = X.lt(X.const(i), span)
            if g is FALSE or and_(I.pc, g) is FALSE:
                continue
            ents.append((g, mk_num('int', X.add(lo, X.const(i if st > 0 else -i)))))
        return VSeq('range', ents, I.pc)
    T['range'].construct = c_range
    func('xrange')(lambda I, a, k: c_range(I, None, a, k))
    del BUILTINS['xrange']

    def write(I, s, fn):
        """Replace the entries of list s by fn(entries) where the path condition holds."""
        g = relative(I.pc, s.pc0)
        old = s.ents
        new = fn(old)
        if g is TRUE:
            s.ents = new
        else:
            ng = not_(g)
            s.ents = [(and_(ng, h), v) for h, v in old] + [(and_(g, h), v) for h, v in new]
            s.ents = [x for x in s.ents if x[0] is not FALSE]
        s.dense = all(h is TRUE for h, _ in s.ents)

    lm = lambda n, raw=True: meth('list', n, raw)
    lm('append')(lambda I, a, k: b.seq_push(I, a[0], a[1]))

    @lm('extend')
    def l_extend(I, a, k):
        b.seq_extend(I, a[0], a[1])

    @meth('list', 'insert', True)
    def l_insert(I, a, k):
        s, i, v = a
        if type(i) is VUnion or type(i) is SNum:
            return I.with_int(i, lambda j: l_insert(I, [s, j, v], k))
        g = relative(I.pc, s.pc0)
        if i == 0:
            s.ents = [(g, v)] + s.ents
        elif i > 0 or all(h is TRUE for h, _ in s.ents):
            comp = list(I.compact(s.ents))
            if i < 0:
                i = max(0, i + len(comp))
            s.ents = comp[:i] + [(g, v)] + comp[i:]
        else:
            # -i entries stay behind the new one: before entry j when entry j - i - 1 is the last
            comp = list(I.compact(s.ents))
            new = [(and_(g, not_(comp[-i - 1][0]) if -i - 1 < len(comp) else TRUE), v)]
            for at, entry in enumerate(comp):
                last = at - i - 1
                if last < len(comp):
                    end = and_(comp[last][0], not_(comp[last + 1][0]) if last + 1 < len(comp) else TRUE)
                    new.append((and_(g, end), v))
                new.append(entry)
            s.ents = new
        s.dense = all(h is TRUE for h, _ in s.ents)

    @lm('pop', False)
    def l_pop(I, a, k):
        return b.seq_pop(I, *a)

    @lm('remove')
    def l_remove(I, a, k):
        s, v = a
        found = or_(*[and_(h, b.eq(I, x, v)) for h, x in s.ents])
        I.throw_if(not_(found), 'ValueError', 'list.remove(x): x not in list')

        def fn(old):
            out, none = [], TRUE
            for h, x in old:
                hit = and_(none, h, b.eq(I, x, v))
                none = and_(none, not_(hit))
                h = and_(h, not_(hit))
                if h is not FALSE:
                    out.append((h, x))
            return out
        write(I, s, fn)

    lm('clear')(lambda I, a, k: write(I, a[0], lambda o: []))
    lm('reverse')(lambda I, a, k: write(I, a[0], lambda o: list(reversed(o))))

    @lm('sort')
    def l_sort(I, a, k):
        rev = k.get('reverse', False)
        write(I, a[0], lambda o: b.sort_ents(I, o, k.get('key'), bool(I.concrete(rev))))
    lm('copy')(lambda I, a, k: VSeq('list', list(a[0].ents), I.pc))

    def index(I, a, k):
        s, v = a[0], a[1]
        ents = I.entries(s)
        if len(a) > 2:
            ents = b.ents_slice(I, ents, None, a[3] if len(a) > 3 else None, None)
        none = TRUE
        before = []
        hits = []
        lo = a[2] if len(a) > 2 else 0
        if type(lo) is not int or lo < 0:
            I.unsupported('index from a symbolic start')
        if lo:
            ents = I.compact(ents)
        for p, (h, x) in enumerate(ents):
            if p >= lo:
                hit = and_(none, h, b.eq(I, x, v))
                if hit is not FALSE and and_(I.pc, hit) is not FALSE:
                    hits.append((hit, X.add(X.const(sum(1 for g in before if g is TRUE)),
                                            X.sum_([X.b2i(g) for g in before if g is not TRUE]))))
                none = and_(none, not_(hit))
                if none is FALSE:
                    break
            before.append(h)
        I.throw_if(none, 'ValueError', 'x not in list')
        if not hits:
            I.throw('ValueError', 'x not in list')
        e = hits[-1][1]
        for h, p in reversed(hits[:-1]):
            e = X.ite(h, p, e)
        return mk_num('int', e)

    def count(I, a, k):
        n = X.sum_([X.b2i(and_(h, b.eq(I, x, a[1]))) for h, x in I.entries(a[0])])
        return mk_num('int', n)

    for t in ('list', 'tuple'):
        meth(t, 'index', True)(index)
        meth(t, 'count', True)(count)
        meth(t, '__len__')(lambda I, a, k: length(I, a[0]))
        meth(t, '__getitem__', True)(lambda I, a, k: raw_getitem(I, a[0], a[1]))
        meth(t, '__iter__')(lambda I, a, k: VSeq('iter', a[0].ents, I.pc))
        meth(t, '__contains__', True)(lambda I, a, k: mk_bool(or_(*[and_(h, b.eq(I, x, a[1])) for h, x in a[0].ents])))
        meth(t, '__add__')(lambda I, a, k: b.binop(I, '+', a[0], a[1]))
        meth(t, '__mul__')(lambda I, a, k: b.binop(I, '*', a[0], a[1]))
        meth(t, '__eq__')(lambda I, a, k: mk_bool(b.ents_eq(I, a[0].ents, a[1].ents)) if type(a[1]) is VSeq else
                          T['NotImplemented'])
        meth(t, '__lt__')(lambda I, a, k: b.cmp(I, '<', a[0], a[1]))
    meth('range', 'index', True)(index)
    meth('range', 'count', True)(count)
    meth('range', '__len__')(lambda I, a, k: length(I, a[0]))

    def raw_getitem(I, o, k):
        if type(k) is VUnion:
            return I.lift(k, lambda x: raw_getitem(I, o, x))
        if type(k) is Native and isinstance(k.obj, slice):
            return VSeq(o.kind, b.ents_slice(I, o.ents, k.obj.start, k.obj.stop, k.obj.step), I.pc)
        return b.ents_index(I, o.ents, k, o.kind)

    @meth('list', '__init__')
    def l_init(I, a, k):
        if len(a) > 1:
            for g, v in I.entries_any(a[1]):
                b.seq_push(I, a[0], v, g)

    @meth('list', '__setitem__', True)
    def l_setitem(I, a, k):
        o = a[0]
        c, o.cls = o.cls, None
        try:
            b.setitem(I, o, a[1], a[2])
        finally:
            o.cls = c

    @meth('list', '__iadd__', True)
    def l_iadd(I, a, k):
        b.seq_extend(I, a[0], a[1])
        return a[0]

    # generators
    @meth('generator', '__next__')
    def g_next(I, a, k):
        return bi_next(I, a, k)
    meth('generator', '__iter__')(lambda I, a, k: a[0])
    meth('generator', 'close')(lambda I, a, k: None)

    # ------------------------------------------------------------ sets
    def c_set(I, c, args, kw):
        return b.make_set(I, I.entries_any(args[0]) if args else [])
    T['set'].construct = c_set

    def c_frozenset(I, c, args, kw):
        if args and type(args[0]) is VSet and args[0].frozen:
            return args[0]
        return b.make_set(I, I.entries_any(args[0]) if args else [], True)
    T['frozenset'].construct = c_frozenset
    sm = lambda n: meth('set', n, True)
    sm('add')(lambda I, a, k: b.set_add(I, a[0], a[1]))
    sm('remove')(lambda I, a, k: b.set_remove(I, a[0], force(a[1]), False))
    sm('discard')(lambda I, a, k: b.set_remove(I, a[0], force(a[1]), True))

    @sm('update')
    def s_update(I, a, k):
        for o in a[1:]:
            for g, v in I.entries_any(o):
                b.set_add(I, a[0], v, g)

    @meth('set', '__init__')
    def s_init(I, a, k):
        if len(a) > 1:
            for g, v in I.entries_any(a[1]):
                b.set_add(I, a[0], v, g)

    def upd(op):
        def f(I, a, k):
            for o in a[1:]:
                o = force(o)
                if type(o) is VUnion:
                    I.lift(o, lambda x: b.set_update_op(I, a[0], op, b.as_set(I, x)))
                else:
                    b.set_update_op(I, a[0], op, b.as_set(I, o))
        return f
    sm('difference_update')(upd('-'))
    sm('intersection_update')(upd('&'))
    sm('symmetric_difference_update')(upd('^'))

    @sm('clear')
    def s_clear(I, a, k):
        b.set_update_op(I, a[0], '&', VSet(False, I.pc))

    @sm('pop')
    def s_pop(I, a, k):
        s = a[0]
        ents = I.simp_ents([(e[0], e[1]) for e in s.ents])
        I.throw_if(not_(or_(*[g for g, _ in ents])), 'KeyError', 'pop from an empty set')
        two = X.lt(X.ONE, I.length_e(ents))
        if I.feasible(and_(I.pc, two)):
            I.unsupported('pop from a set of several elements')
        v = mk_union(ents)
        b.set_remove(I, s, v, True)
        return v

    for t in ('set', 'frozenset', 'dict_keys', 'dict_items'):
        def binary(op):
            def f(I, a, k):
                r = b.as_set(I, a[0])
                if len(a) == 1:
                    r = b.set_op(I, '|', r, VSet(False, I.pc))
                for o in a[1:]:
                    r = b.set_op(I, op, r, b.as_set(I, o))
                return r
            return f
        if t in ('set', 'frozenset'):
            meth(t, 'union')(binary('|'))
            meth(t, 'intersection')(binary('&'))
            meth(t, 'difference')(binary('-'))
            meth(t, 'symmetric_difference')(binary('^'))
            meth(t, 'issubset')(lambda I, a, k: mk_bool(b.subset(I, a[0], b.as_set(I, a[1]))))
            meth(t, 'issuperset')(lambda I, a, k: mk_bool(b.subset(I, b.as_set(I, a[1]), a[0])))
            meth(t, 'copy')(lambda I, a, k: b.set_op(I, '|', a[0], VSet(False, I.pc)))
        meth(t, 'isdisjoint')(lambda I, a, k: mk_bool(not_(or_(*[e[0] for e in b.set_op(
            I, '&', b.as_set(I, a[0]), b.as_set(I, a[1])).ents]))))
        meth(t, '__contains__', True)(lambda I, a, k: mk_bool(b.contains(I, a[0], a[1])))
        meth(t, '__len__')(lambda I, a, k: bi_len(I, a, k))
        meth(t, '__iter__')(lambda I, a, k: VSeq('iter', I.entries(a[0]), I.pc))

    # ------------------------------------------------------------ dictionaries
    def c_dict(I, c, args, kw):
        d = VDict(I.pc)
        if c is not None and c.name == 'OrderedDict':
            d.cls = c
        b.dict_update(I, d, args[0] if args else None, kw)
        return d
    T['dict'].construct = c_dict
    T['OrderedDict'].construct = c_dict

    def c_defaultdict(I, c, args, kw):
        d = VDict(I.pc, T['defaultdict'])
        d.factory = args[0] if args else None
        b.dict_update(I, d, args[1] if len(args) > 1 else None, kw)
        return d
    T['defaultdict'].construct = c_defaultdict

    dm = lambda n, raw=True: meth('dict', n, raw)

    @dm('__init__')
    def d_init(I, a, k):
        user_update(I, a[0], a[1] if len(a) > 1 else None, k)

    def user_update(I, d, src, kw):
        # dict.update / dict.__init__ write directly, without an overridden __setitem__
        b.dict_update(I, d, force(src) if src is not None else None, kw)

    @meth('defaultdict', '__init__', True)
    def dd_init(I, a, k):
        a[0].factory = a[1] if len(a) > 1 else None
        user_update(I, a[0], a[2] if len(a) > 2 else None, k)
    meth('defaultdict', '__missing__')(b.defaultdict_missing)
    T['defaultdict'].methods['default_factory'] = VProp(Builtin('default_factory', lambda I, a, k: a[0].factory))

    @meth('defaultdict', 'copy')
    def dd_copy(I, a, k):
        d = a[0]
        if type(d.cls) is VClass:
            r = I.instantiate(d.cls, [d.factory, d], {})
            return r
        r = b.dict_copy(I, d)
        r.cls, r.factory = d.cls, d.factory
        return r
    meth('defaultdict', '__copy__')(dd_copy)

    @dm('__setitem__')
    def d_setitem(I, a, k):
        b.dict_set(I, a[0], force(a[1]), a[2])

    @dm('__getitem__')
    def d_getitem(I, a, k):
        key = force(a[1])
        if type(key) is VUnion:
            return I.lift(key, lambda x: b.dict_getitem(I, a[0], x))
        return b.dict_getitem(I, a[0], key)
    dm('__delitem__', False)(lambda I, a, k: b.dict_del(I, a[0], a[1]) and None)
    dm('__contains__')(lambda I, a, k: mk_bool(b.dict_find(I, a[0], force(a[1]))[0]))
    dm('__len__')(lambda I, a, k: mk_num('int', I.length_e([(e[0], None) for e in a[0].ents])))
    dm('__iter__')(lambda I, a, k: VSeq('iter', [(e[0], e[1]) for e in a[0].ents], I.pc))
    dm('__eq__')(lambda I, a, k: mk_bool(b.dict_eq(I, a[0], a[1])) if type(a[1]) is VDict else T['NotImplemented'])
    dm('keys')(lambda I, a, k: VView(a[0], 'keys'))
    dm('values')(lambda I, a, k: VView(a[0], 'values'))
    dm('items')(lambda I, a, k: VView(a[0], 'items'))
    dm('update')(lambda I, a, k: user_update(I, a[0], a[1] if len(a) > 1 else None, k))
    dm('copy')(lambda I, a, k: b.dict_copy(I, a[0]))
    T['OrderedDict'].methods['move_to_end'] = Builtin('move_to_end', lambda I, a, k: I.unsupported('move_to_end'))

    @dm('get')
    def d_get(I, a, k):
        d, key = a[0], force(a[1])
        dflt = a[2] if len(a) > 2 else k.get('default')
        g, v = b.dict_find(I, d, key)
        if g is FALSE:
            return dflt
        return merge(g, v, force(dflt))

    @dm('setdefault')
    def d_setdefault(I, a, k):
        d, key = a[0], force(a[1])
        dflt = a[2] if len(a) > 2 else None
        g, v = b.dict_find(I, d, key)
        if g is TRUE or and_(I.pc, not_(g)) is FALSE:
            return v

        def absent():
            b.dict_set(I, d, key, dflt)
            return dflt
        if g is FALSE:
            return absent()
        return I.branch(g, lambda: v, absent)

    @dm('pop', False)
    def d_pop(I, a, k):
        d, key = a[0], a[1]
        g, v = b.dict_find(I, d, key)
        if len(a) > 2:
            b.dict_del(I, d, key, True)
            return merge(g, v, a[2]) if g is not FALSE else a[2]
        I.throw_if(not_(g), 'KeyError', key)
        b.dict_del(I, d, key, True)
        return v

    @dm('popitem')
    def d_popitem(I, a, k):
        d = a[0]
        ents = I.simp_ents([(e[0], e) for e in d.ents])
        I.throw_if(not_(or_(*[g for g, _ in ents])), 'KeyError', 'popitem(): dictionary is empty')
        none = TRUE
        alts = []
        for g, e in reversed(ents):
            h = and_(none, g)
            if h is not FALSE:
                alts.append((h, e))
            none = and_(none, not_(g))
        rel = relative(I.pc, d.pc0)
        res = []
        for h, e in alts:
            res.append((h, dense_seq('tuple', [e[1], force(e[2])])))
            e[0] = and_(e[0], not_(and_(rel, h)))
            if e[0] is FALSE:
                d.ents.remove(e)
                if e[3] is None:
                    d.nsym -= 1
                else:
                    del d.index[e[3]]
        return mk_union(res)

    @dm('clear')
    def d_clear(I, a, k):
        d = a[0]
        ng = not_(relative(I.pc, d.pc0))
        for e in list(d.ents):
            e[0] = and_(e[0], ng)
        if ng is FALSE:
            d.ents, d.index, d.nsym = [], {}, 0

    def fromkeys(I, a, k):
        d = VDict(I.pc)
        v = a[2] if len(a) > 2 else None
        for g, x in I.entries_any(a[1]):
            b.dict_set(I, d, x, v, g)
        if a[0] is T['OrderedDict']:
            d.cls = a[0]
        return d
    T['dict'].methods['fromkeys'] = VClassM(Builtin('fromkeys', fromkeys))
    for t in ('dict_values', 'dict_items', 'dict_keys'):
        meth(t, '__len__')(lambda I, a, k: bi_len(I, a, k))
        meth(t, '__iter__')(lambda I, a, k: VSeq('iter', I.entries(a[0]), I.pc))

    # ------------------------------------------------------------ descriptors, modules
    def c_property(I, c, args, kw):
        g, s, d, doc = b.pos(['fget', 'fset', 'fdel', 'doc'], args, kw, [None, None, None, None])
        return VProp(g, s, d)
    T['property'].construct = c_property
    T['staticmethod'].construct = lambda I, c, a, k: VStatic(a[0])
    T['classmethod'].construct = lambda I, c, a, k: VClassM(a[0])

    @meth('ModuleType', '__init__')
    def m_init(I, a, k):
        I.store_attr(a[0].attrs, '__name__', a[1])
        I.store_attr(a[0].attrs, '__doc__', a[2] if len(a) > 2 else None)

    def c_module(I, c, a, k):
        o = VObj(c, I.pc)
        m_init(I, [o] + list(a), k)
        return o
    T['ModuleType'].construct = c_module
    T['ModuleType'].methods['__dir__'] = Builtin('__dir__', lambda I, a, k: VSeq('list', [
        (e[0], e[1]) for e in a[0].attrs.ents], I.pc))

    # ------------------------------------------------------------ functions
    def length(I, o):
        return mk_num('int', I.length_e(o.ents))

    @func('len')
    def bi_len(I, a, k):
        o = a[0]
        f = I.user_attr(o, '__len__')
        if f is not None:
            return I.call(f, [o])
        t = type(o)
        if t is VSeq and o.kind != 'iter' or t is VStr:
            return length(I, o)
        if t is VDict or t is VSet:
            return mk_num('int', I.length_e([(e[0], None) for e in o.ents]))
        if t is VView:
            return mk_num('int', I.length_e([(e[0], None) for e in o.d.ents]))
        if t is str:
            return len(o)
        if t is Native:
            return I.native_call(len, a, k)
        if t is VObj and o.native is not None and hasattr(o.native, 'ents'):
            return mk_num('int', I.length_e(o.native.ents))
        if t is Render and o.kind == 'int':
            f = I.fork_num(o.e)
            return len(o.prefix) + len(o.suffix) + len(str(int(f)))
        if t in (Render, Opaque):
            I.unsupported('length of rendered text')
        I.throw('TypeError', "object of type '%s' has no len()" % b.tname(I, o))

    func('isinstance', True)(lambda I, a, k: mk_bool(b.isinstance_(I, force(a[0]), force(a[1]))))

    @func('issubclass')
    def bi_issubclass(I, a, k):
        cs = [x for _, x in a[1].ents] if type(a[1]) is VSeq else [a[1]]
        return any(b.issub(I, a[0], c) for c in cs)

    @func('enumerate')
    def bi_enumerate(I, a, k):
        it, start = b.pos(['iterable', 'start'], a, k, [0])
        out = []
        ents = I.simp_ents(I.entries_any(it))
        base = num(start)[1]
        gs = []
        n = 0
        for g, v in ents:
            i = X.add(base, X.add(X.const(n), X.sum_(gs))) if gs else X.add(base, X.const(n))
            out.append((g, dense_seq('tuple', [mk_num('int', i), v])))
            if g is TRUE:
                n += 1
            else:
                gs.append(X.b2i(g))
        return VSeq('iter', out, I.pc)

    def zip_ents(I, cols):
        cols = [I.simp_ents(c) for c in cols]
        if not cols:
            return []
        if all(all(g is TRUE for g, _ in c) for c in cols):
            return [(TRUE, dense_seq('tuple', list(vs))) for vs in zip(*[[v for _, v in c] for c in cols])]
        first = cols[0]
        if all(len(c) == len(first) and all(c[i][0] is first[i][0] for i in range(len(c))) for c in cols[1:]):
            return [(first[i][0], dense_seq('tuple', [c[i][1] for c in cols])) for i in range(len(first))]
        cols = [I.compact(c) for c in cols]
        out = []
        for row in zip(*cols):
            g = and_(*[h for h, _ in row])
            if g is FALSE or and_(I.pc, g) is FALSE:
                break
            out.append((g, dense_seq('tuple', [v for _, v in row])))
        return out
    b.zip_ents = zip_ents

    @func('zip')
    def bi_zip(I, a, k):
        return VSeq('iter', zip_ents(I, [list(I.entries_any(x)) for x in a]), I.pc)

    @func('map')
    def bi_map(I, a, k):
        pc0 = I.pc
        out = []
        if len(a) == 2:
            rows = [(g, [v]) for g, v in I.entries_any(a[1])]
        else:
            rows = [(g, [x for _, x in v.ents]) for g, v in zip_ents(I, [list(I.entries_any(x)) for x in a[1:]])]
        for g, vs in rows:
            g, v = I.under(g, lambda: I.call(a[0], vs))
            if g is not FALSE:
                out.append((g, v))
        return VSeq('iter', out, pc0)

    @func('filter')
    def bi_filter(I, a, k):
        pc0 = I.pc
        out = []
        for h, v in I.entries_any(a[1]):
            g, c = I.under(h, lambda: b.truth(I, v if a[0] is None else I.call(a[0], [v])))
            if g is not FALSE:
                g = and_(g, c)
                if g is not FALSE:
                    out.append((g, v))
        return VSeq('iter', out, pc0)

    @func('reversed')
    def bi_reversed(I, a, k):
        f = I.user_attr(a[0], '__reversed__')
        if f is not None:
            return I.call(f, [a[0]])
        if type(a[0]) is VSeq and a[0].kind == 'iter' or type(a[0]) is VSet:
            I.throw('TypeError', "'%s' object is not reversible" % b.tname(I, a[0]))
        return VSeq('iter', list(reversed(I.entries(a[0]))), I.pc)

    @func('sorted')
    def bi_sorted(I, a, k):
        rev = bool(I.concrete(k.get('reverse', False)))
        return VSeq('list', b.sort_ents(I, list(I.entries_any(a[0])), k.get('key'), rev), I.pc)

    @func('sum')
    def bi_sum(I, a, k):
        it, acc = b.pos(['iterable', 'start'], a, k, [0])
        ents = I.simp_ents(I.entries_any(it))
        ns = [num(force(v)) for _, v in ents]
        sn = num(acc)
        if sn is not None and all(n is not None for n in ns) and ents:
            kinds = set('int' if n[0] == 'bool' else n[0] for n in ns)
            k0 = 'int' if sn[0] == 'bool' else sn[0]
            if len(kinds) == 1 and (k0 in kinds or k0 == 'int'):
                kind = kinds.pop()
                tot = X.add(sn[1], X.sum_([n[1] if g is TRUE else X.ite(g, n[1], X.ZERO)
                                           for (g, _), n in zip(ents, ns)]))
                if kind == k0 or any(g is TRUE for g, _ in ents):
                    return mk_num(kind, tot)
                some = or_(*[g for g, _ in ents])
                if not I.feasible(and_(I.pc, not_(some))):
                    return mk_num(kind, tot)
                return mk_union([(some, mk_num(kind, tot)), (not_(some), mk_num(k0, sn[1]))])
        for g, v in ents:
            h, r = I.under(g, lambda: b.binop(I, '+', acc, v))
            if h is not FALSE:
                acc = merge(h, r, acc)
        return acc

    def fold_best(I, ents, key, op, default=UNDEF):
        ents = I.simp_ents(ents)
        has = FALSE
        best = bk = None
        for g, v in ents:
            v = force(v)
            if key is not None:
                g, kv = I.under(g, lambda: I.call(key, [v]))
                if g is FALSE:
                    continue
            else:
                kv = v
            if has is FALSE:
                has, best, bk = g, v, kv
                continue
            g2, c = I.under(and_(g, has), lambda: b.truth(I, b.cmp(I, op, kv, bk)))
            take = or_(and_(g2, c), and_(g, not_(has)))
            best = merge(take, v, best)
            bk = merge(take, kv, bk) if key is not None else best
            has = or_(has, g)
        if default is UNDEF:
            I.throw_if(not_(has), 'ValueError', 'arg is an empty sequence')
            if has is FALSE:
                I.throw('ValueError', 'arg is an empty sequence')
            return best
        if has is FALSE:
            return default
        return merge(has, best, force(default))

    def minmax(op):
        def f(I, a, k):
            key = k.get('key')
            if len(a) == 1:
                return fold_best(I, list(I.entries_any(a[0])), key, op, k.get('default', UNDEF))
            return fold_best(I, [(TRUE, x) for x in a], key, op)
        return f
    func('max', True)(minmax('>'))
    func('min', True)(minmax('<'))

    @func('any')
    def bi_any(I, a, k):
        return mk_bool(or_(*[and_(g, item_truth(I, g, v)) for g, v in I.entries_any(a[0])]))

    @func('all')
    def bi_all(I, a, k):
        return mk_bool(and_(*[or_(not_(g), item_truth(I, g, v)) for g, v in I.entries_any(a[0])]))

    def item_truth(I, g, v):
        if type(v) in (bool, int, str, SBool, SNum) or v is None:
            return b.truth(I, v)
        h, t = I.under(g, lambda: b.truth(I, v))
        return t if h is not FALSE else FALSE

    @func('iter')
    def bi_iter(I, a, k):
        o = a[0]
        if len(a) > 1:
            I.unsupported('iter with a sentinel')
        if type(o) is VSeq and o.kind == 'iter':
            return o
        if type(o) is VObj and I.type_attr(o, '__iter__') is not None:
            return I.call(I.type_attr(o, '__iter__'), [o])
        return VSeq('iter', list(I.entries(o)), I.pc)

    @func('next')
    def bi_next(I, a, k):
        it = a[0]
        if type(it) is not VSeq or it.kind != 'iter':
            f = I.type_attr(it, '__next__')
            if f is None:
                I.throw('TypeError', "'%s' object is not an iterator" % b.tname(I, it))
            return I.call(f, [it])
        ents = I.simp_ents(it.ents)
        has = or_(*[g for g, _ in ents])
        if len(a) == 1:
            I.throw_if(not_(has), 'StopIteration')
        rel = relative(I.pc, it.pc0)
        none = TRUE
        alts = []
        new = []
        for g, v in it.ents:
            h = and_(none, g)
            if none is not FALSE and h is not FALSE:
                alts.append((h, v))
                none = and_(none, not_(g))
                g = and_(g, not_(and_(rel, h)))
            if g is not FALSE:
                new.append((g, v))
        it.ents = new
        if len(a) > 1 and none is not FALSE:
            alts.append((none, a[1]))
        return mk_union(alts)

    func('print', True)(lambda I, a, k: None)
    func('callable')(lambda I, a, k: type(a[0]) in (VFunc, Bound, Builtin, VClass, BType) or type(a[0]) is Native and
                     callable(a[0].obj) or type(a[0]) in (VObj, VDict) and I.type_attr(a[0], '__call__') is not None)
    func('hash')(lambda I, a, k: b.hash_(I, a[0]))

    @func('id')
    def bi_id(I, a, k):
        n = num(a[0])
        if n is not None and n[0] in ('int', 'bool'):
            return mk_num('int', X.add(X.scale(n[1], Fraction(8)), X.ONE))
        return I.idmap.setdefault(('id', id(a[0])), 100000 + 8 * len(I.idmap))

    @func('getattr')
    def bi_getattr(I, a, k):
        if len(a) == 2:
            return I.getattr(a[0], a[1])
        h = I.hasattr(a[0], a[1])
        if h is TRUE:
            return I.getattr(a[0], a[1])
        if h is FALSE:
            return a[2]
        return I.branch(h, lambda: I.getattr(a[0], a[1]), lambda: a[2])
    func('hasattr')(lambda I, a, k: mk_bool(I.hasattr(a[0], a[1])))
    func('setattr', True)(lambda I, a, k: I.setattr(force(a[0]), I.concrete(a[1]), a[2]))
    func('delattr')(lambda I, a, k: I.delattr(a[0], a[1]))

    @func('vars')
    def bi_vars(I, a, k):
        return I.getattr(a[0], '__dict__')

    @func('dir')
    def bi_dir(I, a, k):
        o = a[0]
        f = I.type_attr(o, '__dir__')
        if f is not None:
            return VSeq('list', b.sort_ents(I, list(I.entries_any(I.call(f, [o])))), I.pc)
        names = {}
        t = o if type(o) in (VClass, BType) else b.type_of(I, o)
        for c in t.mro:
            for n in (c.d if type(c) is VClass else c.methods):
                names[n] = TRUE
        d = I.attrs_of(o)
        if d is not None:
            for e in d.ents:
                names[e[1]] = or_(names.get(e[1], FALSE), e[0])
        return VSeq('list', [(names[n], n) for n in sorted(names)], I.pc)

    func('globals')(lambda I, a, k: I.frame.module.attrs)
    func('slice', True)(lambda I, a, k: Native(slice(*[I.concrete(x) for x in a])))
    func('open', True)(lambda I, a, k: I.L.bi_open(I, a, k))

    @func('__import__', True)
    def bi_import(I, a, k):
        name, g, l, frm, level = b.pos(['name', 'globals', 'locals', 'fromlist', 'level'], [force(x) for x in a], k,
                                       [None, None, dense_seq('tuple', []), 0])
        names = [I.concrete(x) for _, x in I.entries(frm)] if frm is not None else []
        name = I.concrete(name)
        if names:
            return I.L.import_from(I, name, names)
        I.L.import_name(I, name)
        return I.L.import_name(I, name.split('.')[0])
