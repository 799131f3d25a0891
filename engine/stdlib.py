"""Import system, modelled standard-library modules and the virtual file system of the evaluator."""
import ast
import importlib
import itertools as _it
import json as _json
import math as _math
import os
import posixpath
from fractions import Fraction
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_, relative
from .values import *
from .values import V
from .interp import Frame, Collector, parse_file
from . import builtins_ as b
from .builtins_ import T, meth, btype, pos

PRELUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude')
NATIVE = ('re', 'string', 'textwrap', 'locale', 'unicodedata', 'keyword')
MODELS = {}
_types_ready = []


def model(name):
    def deco(f):
        MODELS[name] = f
        return f
    return deco


def install(I):
    I.L = Lib()
    if not _types_ready:
        more_types()
        _types_ready.append(1)
    I.L.modules = VDict(TRUE)
    I.L.fs = {'/': [TRUE, 'dir', []], '/tmp': [TRUE, 'dir', []], '/cwd': [TRUE, 'dir', []]}


class Lib(object):
    paths = ()

    # ------------------------------------------------------------ imports
    def lookup(self, name):
        e = self.modules.index.get(('s', name))
        return force(e[2]) if e is not None and e[0] is not FALSE else None

    def find(self, I, name):
        tail = name.rpartition('.')[2]
        parent = name.rpartition('.')[0]
        if parent:
            p = self.lookup(parent)
            if type(p) is not VObj:
                return None
            g, pth = I.load_attr(p.attrs, '__path__')
            if pth is None:
                return None
            dirs = [x for _, x in I.entries(pth)]
        else:
            dirs = [I.repo] + list(self.paths) + [PRELUDE]
        for d in dirs:
            q = os.path.join(d, tail)
            if os.path.isfile(os.path.join(q, '__init__.py')):
                return os.path.join(q, '__init__.py'), q
            if os.path.isfile(q + '.py'):
                return q + '.py', None
        return None

    def import_name(self, I, name):
        m = self.lookup(name)
        if m is not None:
            return m
        parent, _, tail = name.rpartition('.')
        if parent:
            self.import_name(I, parent)
            m = self.lookup(name)
            if m is not None:
                return m
        src = self.find(I, name)
        if src is not None:
            m = self.execute(I, name, *src)
        elif name in MODELS:
            m = self.build(I, name)
        elif name.split('.')[0] in NATIVE:
            m = Native(importlib.import_module(name))
            b.dict_set(I, self.modules, name, m)
        elif parent and type(self.lookup(parent)) is VObj or not known_stdlib(name):
            I.throw('ModuleNotFoundError', "No module named '%s'" % name)
        else:
            raise Unsupported('module %s' % name)
        if parent:
            p = self.lookup(parent)
            if type(p) is VObj:
                pc = I.pc
                I.pc = TRUE
                I.store_attr(p.attrs, tail, m)
                I.pc = pc
        return m

    def build(self, I, name):
        pc = I.pc
        I.pc = TRUE
        try:
            m = VObj(T['ModuleType'], TRUE)
            I.store_attr(m.attrs, '__name__', name)
            for k, v in MODELS[name](I).items():
                I.store_attr(m.attrs, k, v)
            b.dict_set(I, self.modules, name, m)
        finally:
            I.pc = pc
        return m

    def execute(self, I, name, path, pkgdir):
        tree = parse_file(path)
        m = VObj(T['ModuleType'], TRUE)
        pc, frame = I.pc, I.frame
        I.pc = TRUE
        col = Collector(None)
        I.collectors.append(col)
        leaks, nraise = I.leaks, I.nraise
        handling, I.handling = I.handling, []
        try:
            for k, v in (('__name__', name), ('__file__', path), ('__doc__', ast.get_docstring(tree)),
                         ('__package__', name if pkgdir else name.rpartition('.')[0]), ('__spec__', None),
                         ('__loader__', None)):
                I.store_attr(m.attrs, k, v)
            if pkgdir:
                I.store_attr(m.attrs, '__path__', dense_seq('list', [pkgdir]))
            b.dict_set(I, self.modules, name, m)
            fr = Frame(m, None, m.attrs)
            I.frame = fr
            done = True
            try:
                I.block(tree.body)
            except Dead:
                done = False
            if not done:
                I.pc = TRUE
                b.dict_del(I, self.modules, name, True)
        finally:
            I.collectors.pop()
            I.frame = frame
            I.pc = pc
            I.handling = handling
            I.leaks, I.nraise = leaks, nraise
        if not done:
            I.raise_exc(col.items[0][1])
        if col.items:
            raise Unsupported('conditional exception while importing %s' % name)
        r = self.lookup(name)
        if r is None:
            I.throw('KeyError', name)
        return r

    def import_from(self, I, name, names):
        m = self.import_name(I, name)
        for n in names:
            if n == '*' or type(m) is not VObj:
                continue
            if I.load_attr(m.attrs, '__path__')[1] is None:
                continue
            if I.hasattr(m, n) is FALSE and (self.find(I, name + '.' + n) is not None or name + '.' + n in MODELS):
                self.import_name(I, name + '.' + n)
        return m

    def import_attr(self, I, m, name):
        h = I.hasattr(m, name)
        if h is not FALSE:
            return I.getattr(m, name)
        mn = I.load_attr(m.attrs, '__name__')[1] if type(m) is VObj else getattr(m.obj, '__name__', '?')
        sub = self.lookup('%s.%s' % (force(mn), name))
        if sub is not None:
            return sub
        I.throw('ImportError', "cannot import name '%s' from '%s'" % (name, force(mn)))

    # ------------------------------------------------------------ virtual files
    def fs_guard(self, path, kinds=('file', 'dir')):
        e = self.fs.get(norm(path))
        if e is None or e[1] not in kinds:
            return FALSE
        return e[0]

    def fs_put(self, I, path, kind, content=None):
        path = norm(path)
        d = posixpath.dirname(path)
        e = self.fs.get(path)
        if e is None:
            e = self.fs[path] = [FALSE, kind, []]
        elif e[1] != kind:
            if I.feasible(and_(I.pc, e[0])):
                raise Unsupported('a path that is both file and folder')
            e[1] = kind
        e[0] = or_(e[0], I.pc)
        if kind == 'file':
            n = not_(I.pc)
            alts = [(and_(g, n), c) for g, c in e[2]]
            e[2] = [(g, c) for g, c in alts if g is not FALSE] + [(I.pc, content)]
        return e

    def fs_append(self, I, path, piece):
        e = self.fs[norm(path)]
        out = []
        for g, c in e[2]:
            h = and_(g, I.pc)
            r = and_(g, not_(I.pc))
            if r is not FALSE:
                out.append((r, c))
            if h is not FALSE:
                out.append((h, c + [piece]))
        e[2] = out

    def fs_read(self, I, path, fn):
        """fn(content) over the possible contents of an existing file."""
        e = self.fs[norm(path)]
        alts = [(g, c) for g, c in e[2] if I.feasible(and_(I.pc, g))]
        if len(alts) == 1:
            return fn(alts[0][1])
        return I.cases([(g, (lambda c=c: fn(c))) for g, c in alts])

    def fs_list(self, I, path):
        path = norm(path)
        out = []
        for p, e in self.fs.items():
            if posixpath.dirname(p) == path and p != path and and_(I.pc, e[0]) is not FALSE:
                out.append((e[0], posixpath.basename(p), e[1]))
        return out

    def bi_open(self, I, a, k):
        path, mode = pos(['file', 'mode', 'buffering', 'encoding', 'errors', 'newline'], a, k,
                         ['r', None, None, None, None])[:2]
        return I.lift(path, lambda p: self.open1(I, p, I.concrete(mode)))

    def open1(self, I, path, mode):
        if type(path) is not str:
            path = I.concrete(path)
        if type(path) is not str:
            I.throw('TypeError', 'expected str path')
        if 'w' in mode or 'x' in mode:
            if norm(path) in self.fs and self.fs[norm(path)][1] == 'dir':
                I.throw_if(self.fs[norm(path)][0], 'IsADirectoryError', path)
            g = self.fs_guard(posixpath.dirname(norm(path)), ('dir',))
            I.throw_if(not_(g), 'FileNotFoundError', path)
            self.fs_put(I, path, 'file', [])
        else:
            e = self.fs.get(norm(path))
            if e is None and 'a' not in mode:
                I.throw('FileNotFoundError', path)
            if e is not None and e[1] == 'dir':
                I.throw_if(e[0], 'IsADirectoryError', path)
            if 'a' in mode:
                if e is None:
                    self.fs_put(I, path, 'file', [])
            else:
                I.throw_if(not_(e[0]), 'FileNotFoundError', path)
        o = VObj(T['file'], I.pc)
        o.native = FileHandle(path, mode)
        return o


class FileHandle(object):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.done = False

    def entries(self, I, o):
        return I.entries_any(file_lines(I, o))


class JsonText(Opaque):
    __slots__ = ('doc',)

    def __init__(self, doc):
        self.doc = doc
        self.why = 'json'


class RowsText(Opaque):
    """Lines of delimited cells."""
    __slots__ = ('rows', 'delim')

    def __init__(self, rows, delim):
        self.rows, self.delim = rows, delim
        self.why = 'rows'


def norm(p):
    return posixpath.normpath(p)


def known_stdlib(name):
    import sys
    return name.split('.')[0] in sys.stdlib_module_names


def file_text(I, o):
    h = o.native
    if h.done:
        return ''
    h.done = True

    def join(c):
        if len(c) == 1:
            return c[0]
        r = ''
        for p in c:
            if type(p) is JsonText or type(p) is RowsText:
                raise Unsupported('text around structured content')
            r = b.str_cat(I, r, p)
        return r
    return I.L.fs_read(I, h.path, join)


def file_lines(I, o):
    t = file_text(I, o)

    def lines(x):
        if type(x) is RowsText:
            out = []
            for r in x.rows:
                s = ''
                for i, c in enumerate(r):
                    if i:
                        s = b.str_cat(I, s, x.delim)
                    s = b.str_cat(I, s, c)
                out.append(b.str_cat(I, s, '\n'))
            return dense_seq('list', out, I.pc)
        if type(x) is str:
            return dense_seq('list', x.splitlines(True), I.pc)
        I.unsupported('lines of symbolic file content')
    return I.lift(t, lines)


def more_types():
    btype('file')
    f = meth
    f('file', '__enter__')(lambda I, a, k: a[0])
    f('file', '__exit__')(lambda I, a, k: None)
    f('file', 'close')(lambda I, a, k: None)
    f('file', 'flush')(lambda I, a, k: None)
    f('file', 'read')(lambda I, a, k: file_text(I, a[0]))
    f('file', 'readlines')(lambda I, a, k: file_lines(I, a[0]))
    f('file', '__iter__')(lambda I, a, k: VSeq('iter', I.entries_any(file_lines(I, a[0])), I.pc))

    @meth('file', 'write', True)
    def write(I, a, k):
        h = a[0].native
        if not any(c in h.mode for c in 'wax+'):
            I.throw('OSError', 'not writable')
        I.L.fs_append(I, h.path, force(a[1]))

    # Counter and deque
    btype('Counter', ('dict',), 'collections')
    btype('deque', ('list',), 'collections')

    def c_counter(I, c, a, k):
        d = VDict(I.pc, T['Counter'])
        counter_update(I, [d] + a, k)
        return d

    def counter_add(I, d, key, n, g=TRUE):
        def go():
            old = I.call(BGET, [d, key, 0])
            b.dict_set(I, d, key, b.binop(I, '+', old, n))
        I.under(g, go)

    def counter_update(I, a, k, sign=1):
        d = a[0]
        if len(a) > 1 and a[1] is not None:
            src = a[1]
            if type(src) is VDict:
                for e in list(src.ents):
                    counter_add(I, d, e[1], I.unary('-', force(e[2])) if sign < 0 else force(e[2]), e[0])
            else:
                for g, x in list(I.entries_any(src)):
                    counter_add(I, d, force(x), sign, g)
        for n, v in k.items():
            counter_add(I, d, n, v)
    BGET = T['dict'].methods['get']
    T['Counter'].construct = c_counter
    meth('Counter', 'update')(counter_update)
    meth('Counter', 'subtract')(lambda I, a, k: counter_update(I, a, k, -1))
    meth('Counter', '__missing__')(lambda I, a, k: 0)

    @meth('Counter', 'elements')
    def c_elements(I, a, k):
        out = []
        for e in a[0].ents:
            for g, x in b.seq_repeat(I, dense_seq('list', [e[1]]), force(e[2])).ents:
                out.append((and_(e[0], g), x))
        return VSeq('iter', out, I.pc)

    @meth('Counter', 'most_common')
    def c_most(I, a, k):
        ents = [(e[0], dense_seq('tuple', [e[1], force(e[2])])) for e in a[0].ents]
        r = b.sort_ents(I, ents, Builtin('key', lambda I, a, k: a[0].ents[1][1]), True)
        n = a[1] if len(a) > 1 else None
        return VSeq('list', r if n is None else b.ents_slice(I, r, None, n, None), I.pc)

    def c_deque(I, c, a, k):
        return VSeq('list', list(I.entries_any(a[0])) if a else [], I.pc, T['deque'])
    T['deque'].construct = c_deque
    meth('deque', 'popleft')(lambda I, a, k: b.seq_pop(I, a[0], 0))
    meth('deque', 'appendleft', True)(lambda I, a, k: I.call(T['list'].methods['insert'], [a[0], 0, a[1]]))

    # simple namespace-like helper types
    btype('partial', module='functools')
    btype('Context')
    btype('Logger')

    def noop(I, a, k):
        return None
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log', 'setLevel', 'addHandler'):
        meth('Logger', n, True)(noop)
    for n in ('isEnabledFor',):
        meth('Logger', n, True)(lambda I, a, k: False)


def bi(name, fn, raw=False):
    return Builtin(name, fn, raw)


# ---------------------------------------------------------------- decimal, fractions, numbers, math
@model('decimal')
def m_decimal(I):
    ctx = VObj(T['Context'], TRUE)
    I.store_attr(ctx.attrs, 'prec', 28)
    I.store_attr(ctx.attrs, 'rounding', 'ROUND_HALF_EVEN')
    d = {'Decimal': T['Decimal'], 'getcontext': bi('getcontext', lambda I, a, k: ctx),
         'setcontext': bi('setcontext', lambda I, a, k: None)}
    for n in ('DecimalException', 'InvalidOperation', 'DivisionByZero'):
        d[n] = I.exc_classes[n]
    for n in ('ROUND_HALF_EVEN', 'ROUND_HALF_UP', 'ROUND_HALF_DOWN', 'ROUND_UP', 'ROUND_DOWN', 'ROUND_FLOOR',
              'ROUND_CEILING', 'ROUND_05UP'):
        d[n] = n
    return d


@model('fractions')
def m_fractions(I):
    return {'Fraction': T['Fraction']}


@model('numbers')
def m_numbers(I):
    return dict((n, T[n]) for n in ('Number', 'Integral', 'Real', 'Rational', 'Complex'))


def as_num(I, v):
    n = num(v)
    if n is None:
        f = I.user_attr(v, '__float__')
        if f is not None:
            return num(I.call(f, [v]))
        I.throw('TypeError', 'must be real number, not %s' % b.tname(I, v))
    return n


@model('math')
def m_math(I):
    def flo(I, a, k):
        return mk_num('int', X.floor(as_num(I, a[0])[1]))

    def cei(I, a, k):
        return mk_num('int', X.neg(X.floor(X.neg(as_num(I, a[0])[1]))))

    def sqr(I, a, k):
        e = as_num(I, a[0])[1]
        I.throw_if(X.lt(e, X.ZERO), 'ValueError', 'math domain error')
        return SNum('float', b.sqrt(I, e))

    def fabs(I, a, k):
        return SNum('float', X.abs_(as_num(I, a[0])[1]))

    def trunc(I, a, k):
        return mk_num('int', b.trunc(as_num(I, a[0])[1]))

    def fsum(I, a, k):
        return SNum('float', X.sum_([X.ite(g, as_num(I, v)[1], X.ZERO) for g, v in I.entries_any(a[0])]))

    def prod(I, a, k):
        acc = k.get('start', 1)
        for g, v in I.entries_any(a[0]):
            acc = merge(g, b.binop(I, '*', acc, v), acc)
        return acc

    def mpow(I, a, k):
        r = b.binop(I, '**', SNum('float', as_num(I, a[0])[1]), SNum('float', as_num(I, a[1])[1]))
        return r

    def isclose(I, a, k):
        x, y = as_num(I, a[0])[1], as_num(I, a[1])[1]
        rt = as_num(I, k.get('rel_tol', SNum('float', X.const(Fraction(1, 10 ** 9)))))[1]
        at = as_num(I, k.get('abs_tol', 0))[1]
        d = X.abs_(X.sub(x, y))
        return mk_bool(or_(X.le(d, at), X.le(d, X.mul(rt, X.abs_(x))), X.le(d, X.mul(rt, X.abs_(y)))))

    def conc(fn):
        return lambda I, a, k: I.native_call(fn, a, k)
    d = {'floor': flo, 'ceil': cei, 'sqrt': sqr, 'fabs': fabs, 'trunc': trunc, 'fsum': fsum, 'prod': prod, 'pow': mpow,
         'isclose': isclose, 'isnan': lambda I, a, k: a[0].obj != a[0].obj if type(a[0]) is Native else False,
         'isinf': lambda I, a, k: abs(a[0].obj) == float('inf') if type(a[0]) is Native else False,
         'isfinite': lambda I, a, k: type(a[0]) is not Native}
    for n in ('factorial', 'comb', 'perm', 'gcd', 'log', 'log2', 'log10', 'exp'):
        d[n] = conc(getattr(_math, n))
    d = dict((n, bi(n, f)) for n, f in d.items())
    d['inf'] = Native(float('inf'))
    d['nan'] = Native(float('nan'))
    d['pi'] = I.from_native(_math.pi)
    d['e'] = I.from_native(_math.e)
    return d


# ---------------------------------------------------------------- itertools
def subsets(I, ents, limit=8):
    """[(guard, [values])] over the exact presence patterns of the entries."""
    ents = I.simp_ents(ents)
    free = [i for i, (g, _) in enumerate(ents) if g is not TRUE]
    if len(free) > limit:
        return I.dense_alts(ents)
    out = [(TRUE, [])]
    for g, v in ents:
        new = []
        for p, vs in out:
            h = and_(p, g)
            if and_(I.pc, h) is not FALSE:
                new.append((h, vs + [v]))
            if g is not TRUE:
                h = and_(p, not_(g))
                if and_(I.pc, h) is not FALSE:
                    new.append((h, vs))
        out = new
    return out


def iseq(I, ents):
    if len(ents) > 50000:
        I.unsupported('iterator of more than 50000 entries')
    return VSeq('iter', ents, I.pc)


@model('itertools')
def m_itertools(I):
    d = {}

    def fn(f):
        d[f.__name__.rstrip('_')] = bi(f.__name__, f)
        return f

    @fn
    def chain(I, a, k):
        out = []
        for x in a:
            out.extend(I.entries_any(x))
        return iseq(I, out)

    def from_iterable(I, a, k):
        out = []
        for g, x in I.entries_any(a[0]):
            h, es = I.under(g, lambda: I.entries_any(x))
            if h is not FALSE:
                out.extend((and_(h, q), v) for q, v in es)
        return iseq(I, out)
    ch = BType('chain', [T['object']], 'itertools')
    ch.construct = lambda I, c, a, k: chain(I, a, k)
    ch.methods['from_iterable'] = VStatic(bi('from_iterable', from_iterable))
    d['chain'] = ch

    def tuples(I, pool, idx):
        out = []
        for ix in idx:
            g = and_(*[pool[i][0] for i in sorted(set(ix))])
            if g is FALSE or and_(I.pc, g) is FALSE:
                continue
            out.append((g, dense_seq('tuple', [pool[i][1] for i in ix])))
        return iseq(I, out)

    def count_of(I, v, fn):
        if type(v) is int:
            return fn(v)
        return I.with_int(v, fn)

    @fn
    def combinations(I, a, k):
        it, r = pos(['iterable', 'r'], a, k)
        pool = I.simp_ents(I.entries_any(it))
        return count_of(I, r, lambda r: tuples(I, pool, _it.combinations(range(len(pool)), r)))

    @fn
    def combinations_with_replacement(I, a, k):
        it, r = pos(['iterable', 'r'], a, k)
        pool = I.simp_ents(I.entries_any(it))
        return count_of(I, r, lambda r: tuples(I, pool, _it.combinations_with_replacement(range(len(pool)), r)))

    @fn
    def permutations(I, a, k):
        it, r = pos(['iterable', 'r'], a, k, [None])
        pool = I.simp_ents(I.entries_any(it))
        if r is not None:
            return count_of(I, r, lambda r: tuples(I, pool, _it.permutations(range(len(pool)), r)))
        out = []
        for g, vs in subsets(I, pool):
            if len(vs) > 6:
                I.unsupported('permutations of more than 6 values')
            out.extend((g, dense_seq('tuple', list(p))) for p in _it.permutations(vs))
        return iseq(I, out)

    @fn
    def product(I, a, k):
        rep = k.get('repeat', 1)

        def go(rep):
            pools = [I.simp_ents(I.entries_any(x)) for x in a]
            pools = pools * rep
            out = [(TRUE, [])]
            for p in pools:
                out = [(h, vs + [v]) for g, vs in out for q, v in p for h in (and_(g, q),)
                       if h is not FALSE and and_(I.pc, h) is not FALSE]
                if len(out) > 50000:
                    I.unsupported('product of more than 50000 entries')
            return iseq(I, [(g, dense_seq('tuple', vs)) for g, vs in out])
        return count_of(I, rep, go)

    @fn
    def islice(I, a, k):
        ents = I.entries_any(a[0])
        if len(a) == 2:
            return iseq(I, b.ents_slice(I, ents, None, a[1], None))
        return iseq(I, b.ents_slice(I, ents, a[1], a[2], a[3] if len(a) > 3 else None))

    @fn
    def repeat(I, a, k):
        if len(a) < 2 and 'times' not in k:
            I.unsupported('endless itertools.repeat')
        s = b.seq_repeat(I, dense_seq('list', [a[0]]), a[1] if len(a) > 1 else k['times'])
        return iseq(I, s.ents)

    @fn
    def count(I, a, k):
        I.unsupported('endless itertools.count')

    @fn
    def cycle(I, a, k):
        I.unsupported('endless itertools.cycle')

    @fn
    def accumulate(I, a, k):
        it, f, init = pos(['iterable', 'func', 'initial'], a, k, [None, None])
        out = []
        acc, has = None, FALSE
        if init is not None:
            acc, has = init, TRUE
            out.append((TRUE, init))
        for g, v in I.simp_ents(I.entries_any(it)):
            if has is FALSE:
                acc, has = v, g
            else:
                h, r = I.under(and_(g, has), lambda: I.call(f, [acc, v]) if f is not None else b.binop(I, '+', acc, v))
                new = merge(h, r, v) if h is not FALSE else v
                acc = merge(g, new, acc)
                has = or_(has, g)
            out.append((g, acc))
        return iseq(I, out)

    @fn
    def starmap(I, a, k):
        out = []
        for g, v in I.entries_any(a[1]):
            h, r = I.under(g, lambda: I.call_star(a[0], [v], {}) if False else I.call(
                a[0], [x for _, x in I.entries_any(v)]))
            if h is not FALSE:
                out.append((h, r))
        return iseq(I, out)

    @fn
    def takewhile(I, a, k):
        out, go = [], TRUE
        for g, v in I.entries_any(a[1]):
            h, c = I.under(and_(g, go), lambda: b.truth(I, I.call(a[0], [v])))
            if h is FALSE:
                continue
            out.append((and_(h, c), v))
            go = and_(go, or_(not_(g), c))
            if go is FALSE:
                break
        return iseq(I, [x for x in out if x[0] is not FALSE])

    @fn
    def dropwhile(I, a, k):
        out, drop = [], TRUE
        for g, v in I.entries_any(a[1]):
            h, c = I.under(and_(g, drop), lambda: b.truth(I, I.call(a[0], [v])))
            if h is not FALSE:
                drop = and_(drop, or_(not_(g), c))
            out.append((and_(g, not_(drop)), v))
        return iseq(I, [x for x in out if x[0] is not FALSE])

    @fn
    def filterfalse(I, a, k):
        out = []
        for h, v in I.entries_any(a[1]):
            g, c = I.under(h, lambda: b.truth(I, v if a[0] is None else I.call(a[0], [v])))
            g = and_(g, not_(c)) if g is not FALSE else g
            if g is not FALSE:
                out.append((g, v))
        return iseq(I, out)

    @fn
    def compress(I, a, k):
        out = []
        for g, v in b.zip_ents(I, [list(I.entries_any(a[0])), list(I.entries_any(a[1]))]):
            x, s = [y for _, y in v.ents]
            h, c = I.under(g, lambda: b.truth(I, s))
            h = and_(h, c) if h is not FALSE else h
            if h is not FALSE:
                out.append((h, x))
        return iseq(I, out)

    @fn
    def pairwise(I, a, k):
        c = I.compact(I.entries_any(a[0]))
        return iseq(I, [(c[i + 1][0], dense_seq('tuple', [c[i][1], c[i + 1][1]])) for i in range(len(c) - 1)])

    @fn
    def zip_longest(I, a, k):
        cols = [I.compact(list(I.entries_any(x))) for x in a]
        fill = k.get('fillvalue')
        out = []
        for i in range(max([len(c) for c in cols] or [0])):
            gs = [c[i][0] if i < len(c) else FALSE for c in cols]
            g = or_(*gs)
            out.append((g, dense_seq('tuple', [merge(h, c[i][1], fill) if h is not FALSE else fill
                                               for h, c in zip(gs, cols)])))
        return iseq(I, out)

    @fn
    def tee(I, a, k):
        ents = list(I.entries_any(a[0]))
        n = a[1] if len(a) > 1 else 2
        return dense_seq('tuple', [iseq(I, list(ents)) for _ in range(I.concrete(n))])

    @fn
    def groupby(I, a, k):
        it, key = pos(['iterable', 'key'], a, k, [None])
        comp = I.compact(list(I.entries_any(it)))
        keys = []
        for i, (g, v) in enumerate(comp):
            if key is None:
                keys.append(v)
            else:
                h, kv = I.under(g, lambda: I.call(key, [v]))
                if h is not g:
                    I.unsupported('groupby key raises')
                keys.append(kv)
        starts = []
        for i, (g, v) in enumerate(comp):
            if i == 0:
                starts.append(g)
            else:
                h, e = I.under(g, lambda: b.eq(I, keys[i - 1], keys[i]))
                starts.append(and_(g, not_(e)) if h is not FALSE else FALSE)
        out = []
        for i, s in enumerate(starts):
            if s is FALSE or and_(I.pc, s) is FALSE:
                continue
            items = [(TRUE, comp[i][1])]
            run = TRUE
            for j in range(i + 1, len(comp)):
                run = and_(run, not_(starts[j]), comp[j][0])
                if run is FALSE:
                    break
                items.append((run, comp[j][1]))
            out.append((s, dense_seq('tuple', [keys[i], iseq(I, items)])))
        return iseq(I, out)
    return d


# ---------------------------------------------------------------- collections
@model('collections')
def m_collections(I):
    return {'defaultdict': T['defaultdict'], 'OrderedDict': T['OrderedDict'], 'Counter': T['Counter'],
            'deque': T['deque'], 'namedtuple': bi('namedtuple', namedtuple),
            'abc': I.L.import_name(I, 'collections.abc') if I.L.lookup('collections.abc') else I.L.build(
                I, 'collections.abc'),
            'Mapping': T['Mapping'], 'Iterable': T['Iterable']}


@model('collections.abc')
def m_abc(I):
    return dict((n, T[n]) for n in b.ABCS if n not in ('Number', 'Integral', 'Real', 'Rational', 'Complex'))


def namedtuple(I, a, k):
    name = I.concrete(a[0])
    fields = I.concrete(a[1] if len(a) > 1 else k['field_names'])
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = list(fields)
    dflt = k.get('defaults')
    dvals = [v for _, v in I.entries(dflt)] if dflt is not None else []
    d = {}
    c = VClass(name, [T['tuple']], d, I.frame.module if I.frame else None)
    c.builtin = True

    def new(I, a, k):
        vals = list(a[1:])
        if len(vals) > len(fields):
            I.throw('TypeError', '__new__() takes %d positional arguments' % len(fields))
        for n in fields[len(vals):]:
            if n in k:
                vals.append(k[n])
            else:
                i = len(vals) - (len(fields) - len(dvals))
                if i < 0:
                    I.throw('TypeError', "__new__() missing required argument: '%s'" % n)
                vals.append(dvals[i])
        for n in k:
            if n not in fields or fields.index(n) < len(a) - 1:
                I.throw('TypeError', 'unexpected keyword argument %s' % n)
        return VSeq('tuple', [(TRUE, v) for v in vals], TRUE, a[0], True)
    d['__new__'] = VStatic(bi('__new__', new, True))
    d['_fields'] = dense_seq('tuple', fields)
    for i, n in enumerate(fields):
        d[n] = VProp(bi(n, (lambda I, a, k, i=i: force(a[0].ents[i][1]))))

    def replace(I, a, k):
        vals = dict(zip(fields, [v for _, v in a[0].ents]))
        for n, v in k.items():
            if n not in vals:
                I.throw('ValueError', 'Got unexpected field names')
            vals[n] = v
        return VSeq('tuple', [(TRUE, vals[n]) for n in fields], TRUE, a[0].cls, True)
    d['_replace'] = bi('_replace', replace, True)

    def asdict(I, a, k):
        r = VDict(I.pc)
        for n, (_, v) in zip(fields, a[0].ents):
            b.dict_set(I, r, n, v)
        return r
    d['_asdict'] = bi('_asdict', asdict)
    d['_make'] = VClassM(bi('_make', lambda I, a, k: new(I, [a[0]] + [v for _, v in I.entries_any(a[1])], {})))
    d['__module__'] = '?'
    d['__slots__'] = dense_seq('tuple', [])
    return c


# ---------------------------------------------------------------- copy
def atomic(v):
    return v is None or type(v) in (int, bool, str, SNum, SBool, Render, VStr, Opaque, VFunc, Builtin, VClass, BType,
                                    Native, Bound)


def deepcopy(I, v, memo):
    v = force(v)
    if atomic(v):
        return v
    if type(v) is VUnion:
        return I.lift(v, lambda x: deepcopy(I, x, memo))
    if id(v) in memo:
        return memo[id(v)][1]
    f = I.user_attr(v, '__deepcopy__')
    if f is not None:
        md = VDict(I.pc)
        return I.call(f, [v, md])

    def put(new):
        memo[id(v)] = (v, new)
        return new
    t = type(v)
    if t is VSeq:
        if v.kind == 'iter':
            I.throw('TypeError', "cannot pickle 'generator' object")
        if v.kind == 'range':
            return v
        if v.kind == 'tuple':
            ents = [(g, sub(I, g, x, memo)) for g, x in v.ents]
            if all(a[1] is c[1] for a, c in zip(ents, v.ents)):
                return put(v)
            return put(VSeq('tuple', ents, TRUE, v.cls))
        new = put(VSeq('list', [], I.pc, v.cls))
        new.ents = [(g, sub(I, g, x, memo)) for g, x in v.ents if and_(I.pc, g) is not FALSE]
        new.dense = all(g is TRUE for g, _ in new.ents)
        copy_attrs(I, v, new, memo)
        return new
    if t is VSet:
        new = put(VSet(False, I.pc, v.cls))
        for g, x, hk in v.ents:
            if and_(I.pc, g) is not FALSE:
                b.set_add(I, new, sub(I, g, x, memo), g)
        new.frozen = v.frozen
        copy_attrs(I, v, new, memo)
        return new
    if t is VDict:
        for m in ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__'):
            if I.user_attr(v, m) is not None:
                I.unsupported('copy through %s' % m)
        if T['defaultdict'] in (v.cls.mro if v.cls is not None else ()):
            if type(v.cls) is VClass:
                new = put(I.instantiate(v.cls, [v.factory] if v.factory is not None else [], {}))
            else:
                new = put(VDict(I.pc, v.cls))
                new.factory = v.factory
        else:
            new = put(VDict(I.pc, v.cls))
            copy_attrs(I, v, new, memo)
        for e in list(v.ents):
            g = e[0]
            if and_(I.pc, g) is FALSE:
                continue

            def item(e=e):
                key = deepcopy(I, e[1], memo)
                I.setitem(new, key, deepcopy(I, e[2], memo))
            I.under(g, item)
        return new
    if t is VObj:
        if v.native is not None:
            I.unsupported('deepcopy of this object')
        if v.cls is T['ModuleType']:
            I.throw('TypeError', "cannot pickle 'module' object")
        new = put(VObj(v.cls, I.pc))
        copy_attrs(I, v, new, memo)
        return new
    if t is VView:
        I.throw('TypeError', "cannot pickle 'dict_%s' object" % v.which)
    I.unsupported('deepcopy of %s' % t.__name__)


def sub(I, g, x, memo):
    h, r = I.under(g, lambda: deepcopy(I, x, memo))
    return r


def copy_attrs(I, v, new, memo):
    if v.attrs is None:
        return
    d = I.attrs_of(new)
    for e in v.attrs.ents:
        if and_(I.pc, e[0]) is not FALSE:
            x = force(e[2])
            d.ents.append([e[0], e[1], deepcopy(I, x, memo) if memo is not None else x, e[3]])
            d.index[e[3]] = d.ents[-1]


def copy1(I, a, k):
    v = a[0]
    if atomic(v):
        return v
    f = I.user_attr(v, '__copy__')
    if f is not None:
        return I.call(f, [v])
    t = type(v)
    if t is VSeq:
        if v.kind == 'tuple':
            return v
        new = VSeq(v.kind, list(v.ents), I.pc, v.cls)
        copy_attrs(I, v, new, None)
        return new
    if t is VSet:
        if v.frozen:
            return v
        new = b.set_op(I, '|', v, VSet(False, I.pc))
        new.cls = v.cls
        copy_attrs(I, v, new, None)
        return new
    if t is VDict:
        if T['defaultdict'] in (v.cls.mro if v.cls is not None else ()):
            return I.call(T['defaultdict'].methods['copy'], [v])
        new = b.dict_copy(I, v)
        new.cls = v.cls
        copy_attrs(I, v, new, None)
        return new
    if t is VObj and v.native is None:
        new = VObj(v.cls, I.pc)
        copy_attrs(I, v, new, None)
        return new
    I.unsupported('copy of %s' % t.__name__)


@model('copy')
def m_copy(I):
    return {'deepcopy': bi('deepcopy', lambda I, a, k: deepcopy(I, a[0], {})), 'copy': bi('copy', copy1)}


# ---------------------------------------------------------------- json
def to_json(I, v, sort, seen=()):
    """JSON normal form: dict with text keys, list, text, number, bool, None."""
    v = force(v)
    if type(v) is VUnion:
        return I.lift(v, lambda x: to_json(I, x, sort, seen))
    if v is None or type(v) in (int, bool, str, SBool, Render, VStr):
        return v
    if type(v) is SNum and v.kind in ('int', 'float'):
        return v
    if id(v) in seen:
        I.throw('ValueError', 'Circular reference detected')
    seen = seen + (id(v),)
    if type(v) is VSeq and v.kind in ('list', 'tuple'):
        out = []
        for g, x in v.ents:
            h, r = I.under(g, lambda: to_json(I, x, sort, seen))
            if h is not FALSE:
                out.append((h, r))
        return VSeq('list', out, I.pc)
    if type(v) is VDict:
        d = VDict(I.pc)
        kinds = set()
        for e in list(v.ents):
            if and_(I.pc, e[0]) is FALSE:
                continue

            def item(e=e):
                key = e[1]
                if type(key) in (str, Render, VStr):
                    kinds.add('s')
                elif key is None or type(key) in (bool, SBool):
                    kinds.add('x')
                    key = {None: 'null', True: 'true', False: 'false'}[I.concrete(key)]
                elif num(key) is not None and num(key)[0] in ('int', 'float'):
                    kinds.add('n')
                    key = b.str_(I, key)
                else:
                    I.throw('TypeError', 'keys must be str, int, float, bool or None, not %s' % b.tname(I, key))
                b.dict_set(I, d, key, to_json(I, e[2], sort, seen))
            I.under(e[0], item)
        if sort and len(kinds) > 1:
            I.throw('TypeError', "'<' not supported between instances of 'int' and 'str'")
        return d
    I.throw('TypeError', 'Object of type %s is not JSON serializable' % b.tname(I, v))


def json_copy(I, v):
    v = force(v)
    if type(v) is VUnion:
        return I.lift(v, lambda x: json_copy(I, x))
    if type(v) is VSeq:
        return VSeq('list', [(g, json_copy(I, x)) for g, x in v.ents], I.pc)
    if type(v) is VDict:
        d = VDict(I.pc)
        for g, k, x, hk in v.ents:
            e = [g, k, json_copy(I, x), hk]
            d.ents.append(e)
            if hk is None:
                d.nsym += 1
            else:
                d.index[hk] = e
        return d
    return v


@model('json')
def m_json(I):
    def dumps(I, a, k):
        sort = k.get('sort_keys', False)
        if k.get('cls') is not None or k.get('default') is not None:
            I.unsupported('json encoder hooks')
        return JsonText(to_json(I, a[0], sort is True))

    def dump(I, a, k):
        obj = a[0] if a else k['obj']
        fp = a[1] if len(a) > 1 else k['fp']
        t = dumps(I, [obj], k)
        I.call(I.getattr(fp, 'write'), [t])

    def loads(I, a, k):
        return I.lift(a[0], lambda t: parse(I, t, k))

    def parse(I, t, k):
        if any(k.get(n) is not None for n in ('cls', 'object_hook', 'parse_int', 'object_pairs_hook')):
            I.unsupported('json decoder hooks')
        if type(t) is JsonText:
            return json_copy(I, t.doc)
        if type(t) is RowsText:
            I.throw('JSONDecodeError', 'not JSON')
        if type(t) is not str:
            t = I.concrete(t)
        try:
            return I.from_native(_json.loads(t))
        except ValueError as ex:
            I.throw('JSONDecodeError', str(ex))

    def load(I, a, k):
        fp = a[0] if a else k['fp']
        return loads(I, [I.call(I.getattr(fp, 'read'), [])], k)
    return {'dump': bi('dump', dump), 'dumps': bi('dumps', dumps), 'load': bi('load', load), 'loads': bi('loads', loads),
            'JSONDecodeError': I.exc_classes['JSONDecodeError']}


# ---------------------------------------------------------------- csv
@model('csv')
def m_csv(I):
    def reader(I, a, k):
        f = a[0]
        delim = k.get('delimiter', ',')
        if len(a) > 1:
            dial = I.concrete(a[1])
            delim = {'excel': ',', 'excel-tab': '\t'}.get(dial) if 'delimiter' not in k else delim
        delim = I.concrete(delim)
        opts = dict((n, I.concrete(v)) for n, v in k.items() if n != 'delimiter')
        for n in opts:
            if n not in ('skipinitialspace', 'quoting', 'quotechar', 'strict', 'lineterminator', 'doublequote', 'escapechar'):
                I.unsupported('csv option %s' % n)
        if type(f) is VObj and type(f.native) is FileHandle:
            t = file_text(I, f)
            return I.lift(t, lambda x: rows(I, x, delim, opts))
        lines = [I.concrete(x) for _, x in I.entries_any(f)]
        return rows(I, ''.join(x if x.endswith('\n') else x + '\n' for x in lines), delim, opts)

    def rows(I, x, delim, opts):
        import csv
        if type(x) is RowsText:
            special = [o for o in (opts.get('quotechar'), opts.get('escapechar')) if o] + ['"']
            if opts.get('quoting') == csv.QUOTE_NONNUMERIC or any(type(c) is str and any(o in c for o in special)
                                                                 for r in x.rows for c in r):
                I.unsupported('quoting of rows')
            if x.delim == delim:
                def cell(c):
                    return c.lstrip(' ') if opts.get('skipinitialspace') and type(c) is str else c
                return iseq(I, [(TRUE, dense_seq('list', [cell(c) for c in r], I.pc)) for r in x.rows])
            # cells joined by the other delimiter: one field per line unless a cell holds this one
            out = []
            for r in x.rows:
                s = ''
                for i, c in enumerate(r):
                    s = b.str_cat(I, b.str_cat(I, s, x.delim) if i else s, c)
                if type(s) is Opaque:
                    I.unsupported('rows read with another delimiter')
                out.append((TRUE, dense_seq('list', [s], I.pc)))
            return iseq(I, out)
        if type(x) is not str:
            I.unsupported('csv of symbolic text')
        try:
            return iseq(I, [(TRUE, I.from_native(list(r))) for r in csv.reader(x.splitlines(True), delimiter=delim, **opts)])
        except csv.Error as ex:
            I.throw('CsvError', str(ex))

    def dict_reader(I, a, k):
        rs = I.entries_any(reader(I, a, k))
        head = I.entries_any(rs[0][1])
        out = []
        for g, r in rs[1:]:
            d = VDict(I.pc)
            for (_, n), (h, v) in zip(head, I.entries_any(r)):
                b.dict_set(I, d, n, v, h)
            out.append((g, d))
        return iseq(I, out)
    return {'reader': bi('reader', reader), 'DictReader': bi('DictReader', dict_reader), 'QUOTE_NONE': 3,
            'QUOTE_MINIMAL': 0, 'QUOTE_ALL': 1, 'QUOTE_NONNUMERIC': 2, 'Error': I.exc_classes['CsvError']}


# ---------------------------------------------------------------- os, codecs, io
@model('os.path')
def m_ospath(I):
    def pure(n):
        f = getattr(posixpath, n)
        return bi(n, lambda I, a, k: I.from_native(f(*[I.concrete(x) for x in a])))
    d = dict((n, pure(n)) for n in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath', 'isabs', 'relpath',
                                    'commonprefix', 'normcase'))
    for n in ('abspath', 'realpath', 'expanduser'):
        d[n] = bi(n, lambda I, a, k: norm(posixpath.join('/cwd', a[0])) if not a[0].startswith('/') else norm(a[0]))
    d['isdir'] = bi('isdir', lambda I, a, k: mk_bool(I.L.fs_guard(I.concrete(a[0]), ('dir',))))
    d['isfile'] = bi('isfile', lambda I, a, k: mk_bool(I.L.fs_guard(I.concrete(a[0]), ('file',))))
    d['exists'] = bi('exists', lambda I, a, k: mk_bool(I.L.fs_guard(I.concrete(a[0]))))
    d['sep'] = '/'
    return d


@model('os')
def m_os(I):
    path = I.L.lookup('os.path') or I.L.build(I, 'os.path')

    def names(I, p):
        p = I.concrete(p)
        g = I.L.fs_guard(p, ('dir',))
        I.throw_if(not_(g), 'FileNotFoundError', p)
        return I.L.fs_list(I, p)

    def listdir(I, a, k):
        p = a[0] if a else '.'
        return VSeq('list', [(g, n) for g, n, _ in names(I, p)], I.pc)

    def walk(I, a, k):
        top = a[0]
        out = []

        def go(g, p):
            es = I.L.fs_list(I, p)
            dirs = [(h, n) for h, n, kd in es if kd == 'dir']
            files = [(h, n) for h, n, kd in es if kd == 'file']
            out.append((g, dense_seq('tuple', [p, VSeq('list', dirs, I.pc), VSeq('list', files, I.pc)])))
            for h, n in dirs:
                go(and_(g, h), posixpath.join(p, n))
        go(I.L.fs_guard(top, ('dir',)), top)
        return iseq(I, out)

    def mkdir(I, a, k):
        I.L.fs_put(I, I.concrete(a[0]), 'dir')

    def makedirs(I, a, k):
        p = norm(I.concrete(a[0]))
        todo = []
        while p not in ('/', '.', ''):
            todo.append(p)
            p = posixpath.dirname(p)
        for q in reversed(todo):
            if I.L.fs_guard(q) is not TRUE:
                I.L.fs_put(I, q, 'dir')

    def scandir(I, a, k):
        I.unsupported('os.scandir')
    return {'path': path, 'listdir': bi('listdir', listdir), 'walk': bi('walk', walk), 'mkdir': bi('mkdir', mkdir),
            'makedirs': bi('makedirs', makedirs), 'sep': '/', 'linesep': '\n', 'extsep': '.', 'pathsep': ':',
            'curdir': '.', 'getcwd': bi('getcwd', lambda I, a, k: '/cwd'), 'environ': VDict(TRUE), 'name': 'posix',
            'scandir': bi('scandir', scandir)}


@model('codecs')
def m_codecs(I):
    def copen(I, a, k):
        path, mode = pos(['filename', 'mode', 'encoding', 'errors', 'buffering'], a, k, ['r', None, None, None])[:2]
        return I.L.bi_open(I, [path, mode], {})
    return {'open': bi('open', copen, True)}


@model('io')
def m_io(I):
    return {'open': bi('open', lambda I, a, k: I.L.bi_open(I, a, k), True)}


# ---------------------------------------------------------------- functools, operator, sys, types, ...
@model('functools')
def m_functools(I):
    def reduce(I, a, k):
        f, ents = a[0], I.simp_ents(I.entries_any(a[1]))
        has, acc = (TRUE, a[2]) if len(a) > 2 else (FALSE, None)
        for g, v in ents:
            if has is FALSE:
                has, acc = g, v
                continue
            h, r = I.under(and_(g, has), lambda: I.call(f, [acc, v]))
            new = r if h is TRUE else merge(h, r, v) if h is not FALSE else v
            acc = merge(g, new, acc) if has is TRUE or h is not FALSE else acc
            has = or_(has, g)
        I.throw_if(not_(has), 'TypeError', 'reduce() of empty sequence with no initial value')
        return acc

    def partial(I, a, k):
        f, pre, kw = a[0], a[1:], dict(k)
        return bi('partial', lambda I, a2, k2: I.call(f, pre + a2, dict(kw, **k2)), True)

    def wraps(I, a, k):
        return bi('wraps', lambda I, a2, k2: a2[0], True)

    def cached(I, f):
        table = VDict(TRUE)

        def call(I, a, k):
            key = dense_seq('tuple', [force(x) for x in a] + [dense_seq('tuple', [n, force(k[n])]) for n in k])
            g, v = b.dict_find(I, table, key)

            def miss():
                r = I.call(f, a, k)
                b.dict_set(I, table, key, r)
                return r
            if g is FALSE or and_(I.pc, g) is FALSE:
                return miss()
            if g is TRUE or and_(I.pc, not_(g)) is FALSE:
                return v
            return I.branch(g, lambda: v, miss)
        return bi('cached', call, True)

    def lru_cache(I, a, k):
        if a and type(a[0]) in (VFunc, Builtin, Bound):
            return cached(I, a[0])
        return bi('lru_cache', lambda I, a2, k2: cached(I, a2[0]), True)

    def cmp_to_key(I, a, k):
        I.unsupported('cmp_to_key')
    return {'reduce': bi('reduce', reduce), 'partial': bi('partial', partial, True), 'wraps': bi('wraps', wraps, True),
            'lru_cache': bi('lru_cache', lru_cache, True),
            'cache': bi('cache', lambda I, a, k: cached(I, a[0]), True),
            'cmp_to_key': bi('cmp_to_key', cmp_to_key),
            'total_ordering': bi('total_ordering', lambda I, a, k: I.unsupported('total_ordering'))}


@model('operator')
def m_operator(I):
    d = {}
    for n, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
                  ('pow', '**'), ('and_', '&'), ('or_', '|'), ('xor', '^')):
        d[n] = bi(n, lambda I, a, k, op=op: b.binop(I, op, a[0], a[1]))
        d['i' + n.rstrip('_')] = bi(n, lambda I, a, k, op=op: b.inplace(I, op, a[0], a[1]))
    for n, op in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        d[n] = bi(n, lambda I, a, k, op=op: b.cmp(I, op, a[0], a[1]))
    d['is_'] = bi('is_', lambda I, a, k: mk_bool(b.is_(I, a[0], a[1])))
    d['is_not'] = bi('is_not', lambda I, a, k: mk_bool(not_(b.is_(I, a[0], a[1]))))
    d['not_'] = bi('not_', lambda I, a, k: mk_bool(not_(b.truth(I, a[0]))))
    d['truth'] = bi('truth', lambda I, a, k: mk_bool(b.truth(I, a[0])))
    d['neg'] = bi('neg', lambda I, a, k: I.unary('-', a[0]))
    d['abs'] = bi('abs', lambda I, a, k: I.call(b.BUILTINS['abs'], a))
    d['getitem'] = bi('getitem', lambda I, a, k: b.getitem(I, a[0], a[1]))
    d['contains'] = bi('contains', lambda I, a, k: mk_bool(b.contains(I, a[0], a[1])))

    def itemgetter(I, a, k):
        def get(I, o, k2):
            if len(a) == 1:
                return b.getitem(I, o[0], a[0])
            return dense_seq('tuple', [b.getitem(I, o[0], x) for x in a])
        return bi('itemgetter', get)

    def attrgetter(I, a, k):
        def one(I, o, n):
            for p in n.split('.'):
                o = I.getattr(o, p)
            return o

        def get(I, o, k2):
            if len(a) == 1:
                return one(I, o[0], a[0])
            return dense_seq('tuple', [one(I, o[0], x) for x in a])
        return bi('attrgetter', get)

    def methodcaller(I, a, k):
        return bi('methodcaller', lambda I, o, k2: I.call(I.getattr(o[0], a[0]), a[1:], k))
    d['itemgetter'] = bi('itemgetter', itemgetter)
    d['attrgetter'] = bi('attrgetter', attrgetter)
    d['methodcaller'] = bi('methodcaller', methodcaller)
    return d


@model('sys')
def m_sys(I):
    out = VObj(T['file'], TRUE)
    out.native = FileHandle('/dev/null', 'w')
    return {'modules': I.L.modules, 'version_info': dense_seq('tuple', [3, 9, 0, 'final', 0]), 'maxsize': 2 ** 63 - 1,
            'version': '3.9', 'path': dense_seq('list', [], TRUE), 'argv': dense_seq('list', [''], TRUE),
            'platform': 'linux', 'byteorder': 'little',
            'getrecursionlimit': bi('getrecursionlimit', lambda I, a, k: 1000),
            'intern': bi('intern', lambda I, a, k: a[0]),
            'float_info': Native(__import__('sys').float_info)}


@model('importlib')
def m_importlib(I):
    def import_module(I, a, k):
        name, package = b.pos(['name', 'package'], [force(x) for x in a], k, [None, None])
        name = I.concrete(name)
        if name.startswith('.'):
            up = len(name) - len(name.lstrip('.'))
            base = I.concrete(package).split('.')
            name = '.'.join(base[:len(base) - up + 1] + ([name[up:]] if name[up:] else []))
        return I.L.import_name(I, name)
    return {'import_module': bi('import_module', import_module, True),
            'invalidate_caches': bi('invalidate_caches', lambda I, a, k: None, True)}


@model('types')
def m_types(I):
    return {'ModuleType': T['ModuleType'], 'FunctionType': T['function'], 'GeneratorType': T['generator'],
            'LambdaType': T['function'], 'BuiltinFunctionType': T['builtin_function_or_method'],
            'MappingProxyType': bi('MappingProxyType', lambda I, a, k: a[0])}


@model('warnings')
def m_warnings(I):
    n = bi('warn', lambda I, a, k: None, True)
    return {'warn': n, 'simplefilter': n, 'filterwarnings': n, 'warn_explicit': n}


@model('logging')
def m_logging(I):
    lg = VObj(T['Logger'], TRUE)
    n = bi('log', lambda I, a, k: None, True)
    d = dict((x, n) for x in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig', 'log'))
    d['getLogger'] = bi('getLogger', lambda I, a, k: lg, True)
    d.update({'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40})
    h = BType('NullHandler', [T['object']])
    h.construct = lambda I, c, a, k: VObj(c, I.pc)
    d['NullHandler'] = h
    return d


@model('typing')
def m_typing(I):
    o = T['object']
    d = dict((n, o) for n in ('Any', 'Dict', 'List', 'Tuple', 'Set', 'FrozenSet', 'Optional', 'Union', 'Callable',
                              'Iterable', 'Iterator', 'Sequence', 'Mapping', 'Type', 'Generic', 'Hashable', 'Number'))
    d['TypeVar'] = bi('TypeVar', lambda I, a, k: o, True)
    d['cast'] = bi('cast', lambda I, a, k: a[1], True)
    d['TYPE_CHECKING'] = False
    return d


@model('abc')
def m_abcmod(I):
    ident = bi('abstractmethod', lambda I, a, k: a[0], True)
    return {'abstractmethod': ident, 'ABC': T['object'], 'abstractproperty': bi(
        'abstractproperty', lambda I, a, k: VProp(a[0]), True)}


@model('__future__')
def m_future(I):
    return {}


@model('builtins')
def m_builtins(I):
    return dict(I.builtins)


from . import symlib  # noqa: E402,F401  (registers the sym model)
