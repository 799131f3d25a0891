"""Symbolic values of the evaluator.  Concrete None / bool / int / str are Python's own."""
from fractions import Fraction
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_, relative


class Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Dead(Exception):
    """The current path condition is false: unwind to the nearest join."""


class Unsupported(Exception):
    pass


class V(object):
    __slots__ = ()


class SBool(V):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class SNum(V):
    __slots__ = ('kind', 'e')

    def __init__(self, kind, e):
        self.kind, self.e = kind, e

    def __repr__(self):
        return 'SNum(%s, %r)' % (self.kind, self.e)


def mk_bool(e):
    return True if e is TRUE else False if e is FALSE else SBool(e)


def mk_num(kind, e):
    if kind == 'int':
        if e.op == 'c':
            return int(e.args[0])
        return SNum('int', e)
    return SNum(kind, e)


def num(v):
    """(kind, term) of a number, or None."""
    t = type(v)
    if t is int:
        return 'int', X.const(v)
    if t is SNum:
        return v.kind, v.e
    if t is bool:
        return 'bool', X.ONE if v else X.ZERO
    if t is SBool:
        return 'bool', X.b2i(v.e)
    return None


class Render(V):
    """The text prefix + str(number) + suffix of a symbolic number (injective in the number)."""
    __slots__ = ('prefix', 'kind', 'e', 'suffix')

    def __init__(self, prefix, kind, e, suffix=''):
        self.prefix, self.kind, self.e, self.suffix = prefix, kind, e, suffix


class Opaque(V):
    """Text whose content is not tracked (messages)."""
    __slots__ = ('why',)

    def __init__(self, why='text'):
        self.why = why


class VStr(V):
    """Text of guarded characters: list of (guard, one-character str or VUnion of such)."""
    __slots__ = ('ents',)

    def __init__(self, ents):
        self.ents = ents


class VUnion(V):
    """Exactly one alternative holds under the path condition of its creation."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'VUnion(%r)' % (self.alts,)


class Lazy(V):
    """merge(cond, new, old), not yet computed."""
    __slots__ = ('cond', 'new', 'old', 'value')

    def __init__(self, cond, new, old):
        self.cond, self.new, self.old = cond, new, old
        self.value = None


class VSeq(V):
    """list / tuple / range / iterator; entries (guard, value) in order."""
    __slots__ = ('kind', 'ents', 'dense', 'pc0', 'cls', 'attrs', 'prefix')

    def __init__(self, kind, ents, pc0=TRUE, cls=None, dense=None):
        self.kind, self.ents, self.pc0, self.cls = kind, ents, pc0, cls
        self.attrs = None
        self.dense = all(g is TRUE for g, _ in ents) if dense is None else dense
        self.prefix = None      # compacted form, when known

    def __repr__(self):
        return 'VSeq(%s, %r)' % (self.kind, self.ents)


def dense_seq(kind, vals, pc0=TRUE, cls=None):
    return VSeq(kind, [(TRUE, v) for v in vals], pc0, cls, True)


class VSet(V):
    __slots__ = ('frozen', 'ents', 'index', 'nsym', 'pc0', 'cls', 'attrs')

    def __init__(self, frozen, pc0=TRUE, cls=None):
        self.frozen, self.pc0, self.cls = frozen, pc0, cls
        self.ents = []          # [guard, elem, hkey]
        self.index = {}
        self.nsym = 0
        self.attrs = None

    def raw_add(self, g, v, hk):
        ent = [g, v, hk]
        self.ents.append(ent)
        if hk is None:
            self.nsym += 1
        else:
            self.index[hk] = ent


class VDict(V):
    __slots__ = ('ents', 'index', 'nsym', 'pc0', 'cls', 'attrs', 'factory')

    def __init__(self, pc0=TRUE, cls=None):
        self.ents = []          # [guard, key, value, hkey]
        self.index = {}
        self.nsym = 0
        self.pc0 = pc0
        self.cls = cls
        self.attrs = None
        self.factory = None


class VView(V):
    __slots__ = ('d', 'which')

    def __init__(self, d, which):
        self.d, self.which = d, which


class VObj(V):
    __slots__ = ('cls', 'attrs', 'pc0', 'native', '__weakref__')

    def __init__(self, cls, pc0=TRUE):
        self.cls, self.pc0 = cls, pc0
        self.attrs = VDict(pc0)
        self.native = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class VFunc(V):
    __slots__ = ('name', 'node', 'args', 'body', 'defaults', 'kwdefaults', 'frame', 'module', 'clsname', 'defcls',
                 'isgen', 'locals', 'globals_', 'nonlocals', 'attrs', 'qual', 'file', 'scope')


class Bound(V):
    __slots__ = ('self', 'fn')

    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn


class Builtin(V):
    __slots__ = ('name', 'fn', 'raw')

    def __init__(self, name, fn, raw=False):
        self.name, self.fn, self.raw = name, fn, raw

    def __repr__(self):
        return '<builtin %s>' % self.name


class VProp(V):
    __slots__ = ('get', 'set', 'delete')

    def __init__(self, get, set_=None, delete=None):
        self.get, self.set, self.delete = get, set_, delete


class VStatic(V):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class VClassM(V):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class VSuper(V):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class BType(V):
    """A built-in type: python-implemented methods."""
    __slots__ = ('name', 'bases', 'methods', 'construct', 'mro', 'module')

    def __init__(self, name, bases=(), module='builtins'):
        self.name, self.bases, self.methods, self.construct = name, list(bases), {}, None
        self.module = module
        self.mro = c3(self)

    def __repr__(self):
        return "<class '%s'>" % self.name


class VClass(V):
    __slots__ = ('name', 'bases', 'd', 'mro', 'module', 'qual', 'pc0', 'builtin')

    def __init__(self, name, bases, d, module=None, pc0=TRUE):
        self.name, self.bases, self.d, self.module, self.pc0 = name, list(bases), d, module, pc0
        self.builtin = False
        self.qual = name
        self.mro = c3(self)

    def __repr__(self):
        return "<class '%s'>" % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent mro')
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class Native(V):
    """A real Python object reached through the concrete fallback."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


# ---------------------------------------------------------------- hash keys of concrete values
def hkey(v):
    t = type(v)
    if t is str:
        return ('s', v)
    if t is int:
        return ('n', v)
    if t is bool:
        return ('n', int(v))
    if v is None:
        return ('0',)
    if t is SNum:
        return ('n', v.e.args[0]) if v.e.op == 'c' else None
    if t is VSeq:
        if v.kind != 'tuple' or not v.dense:
            return None
        ks = []
        for _, x in v.ents:
            k = hkey(x)
            if k is None:
                return None
            ks.append(k)
        return ('t', tuple(ks))
    if t is VSet:
        if v.nsym or any(e[0] is not TRUE for e in v.ents):
            return None
        return ('f', frozenset(v.index))
    if t is VObj:
        if has_user(v.cls, '__eq__'):
            return None
        return ('o', id(v))
    if t is Render:
        if v.e.op == 'c':
            return None
        return None
    if t in (VClass, BType, VFunc, Builtin):
        return ('o', id(v))
    if t is Bound:
        k = hkey(v.self)
        return ('b', k, id(v.fn)) if k is not None else None
    if t is Native:
        try:
            return ('nat', hash(v.obj), id(v.obj))
        except TypeError:
            return None
    return None


def has_user(cls, name):
    for k in cls.mro:
        if type(k) is VClass and name in k.d and not k.builtin:
            return True
    return False


# ---------------------------------------------------------------- merging
def alts_of(v):
    return v.alts if type(v) is VUnion else ((TRUE, v),)


def merge(c, x, y):
    """x when c holds, else y."""
    if x is y or c is TRUE:
        return x
    if c is FALSE:
        return y
    if type(x) is Lazy:
        x = force(x)
    if type(y) is Lazy:
        y = force(y)
    if x is y:
        return x
    if type(x) is not VUnion and type(y) is not VUnion:
        r = merge1(c, x, y)
        if r is not None:
            return r[0]
        return VUnion([(c, x), (not_(c), y)])
    n = not_(c)
    out = []
    for g, v in alts_of(x):
        g = and_(c, g)
        if g is not FALSE:
            add_alt(out, g, v)
    for g, v in alts_of(y):
        g = and_(n, g)
        if g is not FALSE:
            add_alt(out, g, v)
    if len(out) == 1:
        return out[0][1]
    return VUnion(out)


def add_alt(out, g, v):
    for i, (h, w) in enumerate(out):
        r = merge1(g, v, w)
        if r is not None:
            out[i] = (or_(g, h), r[0])
            return
    out.append((g, v))


def mk_union(alts):
    """Union of exclusive (guard, value) alternatives; the guards cover the path condition."""
    out = []
    for g, v in alts:
        if g is FALSE:
            continue
        if type(v) is Lazy:
            v = force(v)
        for h, w in alts_of(v):
            k = and_(g, h)
            if k is not FALSE:
                add_alt(out, k, w)
    if len(out) == 1:
        return out[0][1]
    return VUnion(out)


def merge1(c, x, y):
    """Single merged value as a 1-tuple, or None when a union is needed."""
    if x is y:
        return (x,)
    tx, ty = type(x), type(y)
    if tx is str:
        if ty is str and x == y:
            return (x,)
        return None
    if tx is ty:
        if tx is int:
            return (mk_num('int', X.ite(c, X.const(x), X.const(y))),)
        if tx is bool:
            return (mk_bool(X.ite_b(c, X.TRUE if x else X.FALSE, X.TRUE if y else X.FALSE)),)
        if tx is SNum:
            if x.kind == y.kind:
                return (mk_num(x.kind, X.ite(c, x.e, y.e)),)
            return None
        if tx is SBool:
            return (mk_bool(X.ite_b(c, x.e, y.e)),)
        if tx is VSeq:
            if x.kind == 'tuple' and y.kind == 'tuple' and x.cls is y.cls and x.dense and y.dense \
                    and len(x.ents) == len(y.ents):
                return (VSeq('tuple', [(TRUE, merge(c, a, b)) for (_, a), (_, b) in zip(x.ents, y.ents)], TRUE, x.cls,
                             True),)
            return None
        if tx is Bound and x.self is y.self and x.fn is y.fn:
            return (x,)
        if tx is VSet and x.frozen and y.frozen and x.cls is y.cls and not x.nsym and not y.nsym:
            r = VSet(True, TRUE, x.cls)
            n = not_(c)
            for g, v, hk in x.ents:
                e = y.index.get(hk)
                r.raw_add(X.ite_b(c, g, e[0] if e else FALSE), v, hk)
            for g, v, hk in y.ents:
                if hk not in x.index:
                    r.raw_add(and_(n, g), v, hk)
            return (r,)
        if tx is Render and x.prefix == y.prefix and x.suffix == y.suffix and x.kind == y.kind:
            return (Render(x.prefix, x.kind, X.ite(c, x.e, y.e), x.suffix),)
        if tx is Opaque:
            return (x,)
        return None
    if (tx is int and ty is SNum and y.kind == 'int') or (ty is int and tx is SNum and x.kind == 'int'):
        return (mk_num('int', X.ite(c, num(x)[1], num(y)[1])),)
    if (tx is bool and ty is SBool) or (ty is bool and tx is SBool):
        ex = x.e if tx is SBool else (TRUE if x else FALSE)
        ey = y.e if ty is SBool else (TRUE if y else FALSE)
        return (mk_bool(X.ite_b(c, ex, ey)),)
    return None


def force(v):
    if type(v) is not Lazy:
        return v
    if v.value is not None:
        return v.value[0]
    chain = []
    x = v
    while type(x) is Lazy and x.value is None:
        chain.append(x)
        x = x.old
    r = x.value[0] if type(x) is Lazy else x
    for l in reversed(chain):
        r = merge(l.cond, force(l.new), r)
        l.value = (r,)
        l.new = l.old = None
    return r


def lazy(c, new, old):
    if new is old or c is TRUE:
        return new
    if c is FALSE:
        return old
    return Lazy(c, new, old)
