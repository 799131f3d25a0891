"""Symbolic evaluator for Python source: path conditions, guarded heap updates, merging of states at joins."""
import ast
import os
import sys
from fractions import Fraction
import random
from . import expr as X
from .expr import TRUE, FALSE, and_, or_, not_, relative
from .values import *
from .values import V, c3
from .solver import Solver


class Frame(object):
    __slots__ = ('env', 'parent', 'func', 'module', 'loops', 'returns', 'locals', 'globals_', 'nonlocals', 'clsname',
                 'defcls', 'store', 'yields', 'pc0', 'first')

    def __init__(self, module, parent=None, store=None):
        self.env = {}
        self.parent, self.module, self.store = parent, module, store
        self.func = None
        self.loops = []
        self.returns = []
        self.locals = frozenset()
        self.globals_ = frozenset()
        self.nonlocals = frozenset()
        self.clsname = parent.clsname if parent is not None else None
        self.defcls = parent.defcls if parent is not None else None
        self.yields = None
        self.pc0 = TRUE
        self.first = None


class Loop(object):
    __slots__ = ('breaks', 'continues')

    def __init__(self):
        self.breaks, self.continues = [], []


class Collector(object):
    __slots__ = ('frame', 'items')

    def __init__(self, frame):
        self.frame, self.items = frame, []


class Restart(Exception):
    """A case split was requested; .options are the terms of the cases."""

    def __init__(self, options):
        self.options = options


_scope_cache = {}


def scope_info(node):
    """(local names, global names, nonlocal names, is generator) of a function / lambda node."""
    r = _scope_cache.get(id(node))
    if r is not None and r[4] is node:
        return r
    names, glob, nonl, gen = set(), set(), set(), [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)
        else:
            walk(t)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            walk(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    r = (frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl), gen[0], node)
    _scope_cache[id(node)] = r
    return r


_ast_cache = {}


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    r = _ast_cache.get(k)
    if r is None:
        with open(path, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ast.parse(src, path)
        for n in ast.walk(r):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                n.value = sys.intern(n.value)
        _ast_cache[k] = r
    return r


CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '&': 'and',
          '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPD = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}


class Pool(object):
    """Concrete inputs that show that a term can be true without asking the solver."""
    SIZE = 24
    MOST = 80

    def __init__(self):
        self.rng = random.Random(7)
        self.models = [[{}, {}, 0] for _ in range(self.SIZE)]

    def declare(self, name, sort, lo, hi):
        r = self.rng
        for i, m in enumerate(self.models[:self.SIZE]):
            if name in m[0]:
                continue
            if sort == 'bool':
                v = r.random() < (.1, .25, .5, .5, .75, .9)[i % 6]
            elif lo is None or hi is None:
                v = r.randint(-9, 9)
            elif sort == 'int':
                v = lo if i % 6 == 0 else hi if i % 6 == 5 else r.randint(lo, hi)
            else:
                v = X.norm(lo + (hi - lo) * Fraction(r.randint(0, 12), 12))
            m[0][name] = v

    def learn(self, values):
        if len(self.models) < self.MOST:
            self.models.append([values, {}, 0])

    def live(self, assump):
        """Models of the assumptions."""
        n = len(assump)
        for m in list(self.models):
            vals, memo, k = m
            while k < n and X.evaluate(assump[k], vals, memo):
                k += 1
            if k == n:
                m[2] = n
                yield vals, memo
            else:
                self.models.remove(m)

    def witness(self, assump, e):
        for vals, memo in self.live(assump):
            if X.evaluate(e, vals, memo):
                return True
        return False

    def values(self, assump, pc, e, limit):
        out = []
        for vals, memo in self.live(assump):
            if X.evaluate(pc, vals, memo):
                v = X.evaluate(e, vals, memo)
                if v not in out:
                    out.append(v)
                    if len(out) >= limit:
                        break
        return out


class Interp(object):
    def __init__(self, decisions=(), unwind=80, deadline=None, param=None):
        self.pc = TRUE
        self.compacted = {}
        self.assump = []
        self.solver = Solver()
        self.decisions = list(decisions)
        self.ndec = 0
        self.unwind = unwind
        self.deadline = deadline
        self.frame = None
        self.leaks = 0
        self.nraise = 0
        self.collectors = [Collector(None)]
        self.handling = []
        self.depth = 0
        self.nstmt = 0
        self.nmerge = 0
        self.functions = {}
        self.feas_cache = {}
        self.pool = Pool()
        self.uniq_cache = {}
        self.checks = []
        self.observed = []
        self.inputs = {}
        self.notes = []
        self.repo = '/repo'
        self.param = param or {}
        self.native_calls = 0
        self.idmap = {}
        from . import builtins_ as B
        self.B = B
        B.install(self)
        from . import stdlib
        stdlib.install(self)

    # ------------------------------------------------------------ solver helpers
    def feasible(self, e):
        """False only when e is known to be unsatisfiable with the assumptions."""
        if e is FALSE:
            return False
        if e is TRUE and not self.assump:
            return True
        k = (e.id, len(self.assump))
        r = self.feas_cache.get(k)
        if r is None:
            r = self.pool.witness(self.assump, e)
            if not r:
                r = self.solver.check(self.assump + [e], 20000)
                if r == 'sat':
                    self.pool.learn(self.solver.values())
                r = r != 'unsat'
            self.feas_cache[k] = r
        return r

    def unique(self, e, pc=None):
        """The only value of a numeric term under the path condition, or None."""
        if e.op == 'c':
            return e.args[0]
        pc = self.pc if pc is None else pc
        k = (e.id, pc.id, len(self.assump))
        if k in self.uniq_cache:
            return self.uniq_cache[k]
        r = None
        seen = self.pool.values(self.assump, pc, e, 2)
        if len(seen) > 1:
            pass
        elif seen:
            v, = seen
            if self.solver.check(self.assump + [pc, not_(X.eq(e, X.const(v)))], 20000) == 'unsat':
                r = v
        elif self.solver.check(self.assump + [pc], 20000) == 'sat':
            from .expr import evaluate
            self.solver.z(e)
            vals = self.solver.values()
            v = evaluate(e, vals, {})
            if self.solver.check(self.assump + [pc, not_(X.eq(e, X.const(v)))], 20000) == 'unsat':
                r = v
        self.uniq_cache[k] = r
        return r

    def value_set(self, e, limit=130):
        """All values of a numeric term under the path condition (list of Fractions)."""
        if e.op == 'c':
            return [e.args[0]]
        ls = X.leaves(e, limit)
        if ls is not None and len(ls) <= 12:
            return sorted(ls)
        if X.small_range(e, 40):
            return [i for i in range(int(e.lo), int(e.hi) + 1)]
        out = list(self.pool.values(self.assump, self.pc, e, limit))
        while len(out) < limit:
            r = self.solver.check(self.assump + [self.pc] + [not_(X.eq(e, X.const(v))) for v in out], 20000)
            if r == 'unsat':
                return sorted(out)
            if r != 'sat':
                raise Unsupported('value set: solver gave no answer')
            self.solver.z(e)
            out.append(X.evaluate(e, self.solver.values(), {}))
        raise Unsupported('value set of a term larger than %d' % limit)

    def int_alts(self, v):
        """[(guard, python int)] for a number usable as an index."""
        n = num(v)
        if n is None or n[0] not in ('int', 'bool'):
            self.throw('TypeError', 'an integer is required')
        e = n[1]
        if e.op == 'c':
            return [(TRUE, int(e.args[0]))]
        u = self.unique(e)
        if u is not None:
            return [(TRUE, int(u))]
        out = []
        for x in self.value_set(e):
            g = X.eq(e, X.const(x))
            if and_(self.pc, g) is not FALSE:
                out.append((g, int(x)))
        return out

    def with_int(self, v, fn):
        """fn(python int), split over the values of v."""
        if type(v) is int:
            return fn(v)
        alts = self.int_alts(v)
        if len(alts) == 1:
            return fn(alts[0][1])
        return self.cases([(g, (lambda k=k: fn(k))) for g, k in alts])

    def fork(self, options):
        """Restart-based case split: options are exclusive, exhaustive terms; returns the chosen index."""
        i = self.ndec
        self.ndec += 1
        if i < len(self.decisions):
            j = self.decisions[i]
            self.assump.append(X.implies(self.pc, options[j]))
            return j
        raise Restart(options)

    def fork_bool(self, e):
        if e is TRUE or e is FALSE:
            return e is TRUE
        if not self.feasible(and_(self.pc, e)):
            return False
        if not self.feasible(and_(self.pc, not_(e))):
            return True
        return self.fork([e, not_(e)]) == 0

    def fork_num(self, e):
        vs = self.value_set(e)
        if len(vs) == 1:
            return vs[0]
        return vs[self.fork([X.eq(e, X.const(v)) for v in vs])]

    def concrete(self, v, seen=None):
        """A real Python value, splitting on everything symbolic in it."""
        v = force(v)
        t = type(v)
        if t is VUnion:
            alts = [(g, w) for g, w in v.alts if self.feasible(and_(self.pc, g))]
            if len(alts) == 1:
                return self.concrete(alts[0][1])
            return self.concrete(alts[self.fork([g for g, _ in alts])][1])
        if t in (int, bool, str) or v is None:
            return v
        if t is SBool:
            return self.fork_bool(v.e)
        if t is SNum:
            f = self.fork_num(v.e)
            if v.kind == 'int':
                return int(f)
            if v.kind == 'float':
                return float(f)
            if v.kind == 'dec':
                from decimal import Decimal
                return Decimal(f.numerator) / Decimal(f.denominator)
            return f
        if t is VSeq:
            out = [self.concrete(x) for g, x in v.ents if self.fork_bool(g)]
            return tuple(out) if v.kind == 'tuple' else out
        if t is VView:
            return [self.concrete(x) for g, x in self.entries(v) if self.fork_bool(g)]
        if t is VSet:
            out = [self.concrete(x) for g, x, _ in v.ents if self.fork_bool(g)]
            return frozenset(out) if v.frozen else set(out)
        if t is VDict:
            return dict((self.concrete(e[1]), self.concrete(e[2])) for e in v.ents if self.fork_bool(e[0]))
        if t is Native:
            return v.obj
        if t is VStr:
            return ''.join(self.concrete(x) for g, x in v.ents if self.fork_bool(g))
        if t is Render:
            return v.prefix + str(self.concrete(mk_num(v.kind, v.e))) + v.suffix
        if t in (VFunc, Bound, Builtin):
            def fn(*args):
                return self.concrete(self.call(v, [self.from_native(a) for a in args]))
            return fn
        raise Unsupported('no concrete form of %s' % t.__name__)

    def from_native(self, o):
        t = type(o)
        if o is None or t in (int, bool, str):
            return o
        if t is float:
            if o != o or o in (float('inf'), float('-inf')):
                return Native(o)
            return SNum('float', X.const(Fraction(repr(o))))
        if t.__name__ == 'Decimal':
            return SNum('dec', X.const(Fraction(o))) if o.is_finite() else Native(o)
        if t is Fraction:
            return SNum('frac', X.const(o))
        if t in (list, tuple):
            return dense_seq('list' if t is list else 'tuple', [self.from_native(x) for x in o], self.pc)
        if t in (set, frozenset):
            s = VSet(t is frozenset, self.pc)
            for x in o:
                self.B.set_add(self, s, self.from_native(x))
            return s
        if t is dict:
            d = VDict(self.pc)
            for k, x in o.items():
                self.B.dict_set(self, d, self.from_native(k), self.from_native(x))
            return d
        if isinstance(o, type) and issubclass(o, BaseException):
            c = self.exc_classes.get(o.__name__)
            if c is not None:
                return c
        return Native(o)

    def native_call(self, fn, args, kwargs):
        self.native_calls += 1
        a = [self.concrete(x) for x in args]
        k = dict((n, self.concrete(x)) for n, x in kwargs.items())
        try:
            r = fn(*a, **k)
        except (Dead, Restart, Unsupported):
            raise
        except Exception as ex:
            self.throw(type(ex).__name__, str(ex))
        if hasattr(r, '__next__'):
            r = list(r)
        return self.from_native(r)

    # ------------------------------------------------------------ exceptions
    def throw(self, name, msg=''):
        cls = self.exc_classes.get(name) or self.exc_classes['Exception']
        self.raise_exc(self.make_exc(cls, [msg]))

    def throw_if(self, cond, name, msg=''):
        """Raise under pc and cond; execution goes on where cond is false."""
        if cond is FALSE:
            return
        c = and_(self.pc, cond)
        if c is FALSE:
            return
        if c is self.pc:
            self.throw(name, msg)
        if not self.feasible(c):
            return
        pc0 = self.pc
        self.pc = c
        try:
            self.throw(name, msg)
        except Dead:
            pass
        self.pc = and_(pc0, not_(cond))
        if self.pc is FALSE or not self.feasible(self.pc):
            raise Dead()

    def make_exc(self, cls, args):
        o = VObj(cls, self.pc)
        o.native = {'args': dense_seq('tuple', args)}
        return o

    def raise_exc(self, exc):
        col = self.collectors[-1]
        col.items.append((self.pc, exc, dict(col.frame.env) if col.frame is not None else None))
        self.leaks += 1
        self.nraise += 1
        raise Dead()

    def unsupported(self, msg):
        if not self.feasible(self.pc):
            raise Dead()
        raise Unsupported(msg)

    # ------------------------------------------------------------ joins
    def cases(self, alts):
        """Run fn() under each exclusive guard (together covering pc) and merge the results."""
        pc0 = self.pc
        res = []
        leaks = self.leaks
        for g, fn in alts:
            p = and_(pc0, g)
            if p is FALSE:
                continue
            self.pc = p
            try:
                v = fn()
                res.append((g, self.pc, v))
            except Dead:
                pass
        if not res:
            self.pc = FALSE
            raise Dead()
        self.nmerge += len(res) - 1
        if self.leaks == leaks and all(True for _ in res):
            # no path left: together the cases still cover pc0 (dropped ones are infeasible)
            self.pc = pc0
        else:
            self.pc = or_(*[p for _, p, _ in res])
        if len(res) == 1:
            return res[0][2]
        return mk_union([(g, v) for g, _, v in res])

    def under(self, g, fn):
        """fn() under pc and g; (guard of normal completion, value), guard FALSE when it never completes.  Paths where
        g is false go on; paths that raise leave the path condition."""
        pc0 = self.pc
        p = and_(pc0, g)
        if p is FALSE:
            return FALSE, None
        leaks = self.leaks
        self.pc = p
        try:
            v = fn()
        except Dead:
            self.pc = and_(pc0, not_(g)) if g is not TRUE else FALSE
            if self.pc is FALSE:
                raise Dead()
            return FALSE, None
        if self.leaks == leaks:
            self.pc = pc0
            return g, v
        q = self.pc
        self.pc = or_(q, and_(pc0, not_(g))) if g is not TRUE else q
        return relative(q, pc0), v

    def lift(self, v, fn):
        """fn(alternative) over a union."""
        if type(v) is Lazy:
            v = force(v)
        if type(v) is not VUnion:
            return fn(v)
        return self.cases([(g, (lambda x=x: fn(x))) for g, x in v.alts])

    def branch(self, c, f1, f2):
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        return self.cases([(c, f1), (not_(c), f2)])

    def join_ends(self, ends, base, clean):
        fr = self.frame
        if not ends:
            self.pc = FALSE
            raise Dead()
        if len(ends) == 1:
            self.pc, fr.env = ends[0]
            if clean:
                self.pc = base
            return
        self.nmerge += len(ends) - 1
        p, env = ends[-1]
        for q, e in reversed(ends[:-1]):
            if e is env:
                continue
            c = relative(q, base)
            new = dict(env)
            for k, v in e.items():
                w = env.get(k, UNDEF)
                if v is not w:
                    new[k] = lazy(c, v, w)
            for k, w in env.items():
                if k not in e:
                    new[k] = lazy(c, UNDEF, w)
            env = new
        fr.env = env
        self.pc = base if clean else or_(*[q for q, _ in ends])

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.nstmt += 1
            if not self.nstmt & 0x3ff and self.deadline is not None:
                import time
                if time.time() > self.deadline:
                    raise Unsupported('time limit of the run')
            m = STMT.get(type(s))
            if m is None:
                self.unsupported('statement %s' % type(s).__name__)
            m(self, s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if type(s.value) is not ast.Constant:
            self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            v = self.eval(s.value)
            self.store_name(t.id, self.inplace(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            name = self.mangle(t.attr)
            old = self.getattr(o, name)
            v = self.eval(s.value)
            self.setattr(o, name, self.inplace(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.getitem(o, k)
            v = self.eval(s.value)
            self.setitem(o, k, self.inplace(op, old, v))
        else:
            self.unsupported('augmented target')

    def assign(self, t, v):
        tt = type(t)
        if tt is ast.Name:
            self.store_name(t.id, v)
        elif tt in (ast.Tuple, ast.List):
            self.unpack(t.elts, v)
        elif tt is ast.Attribute:
            self.setattr(self.eval(t.value), self.mangle(t.attr), v)
        elif tt is ast.Subscript:
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        elif tt is ast.Starred:
            self.assign(t.value, v)
        else:
            self.unsupported('assignment target')

    def unpack(self, elts, v):
        v = force(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if type(v) is VUnion:
            lists = None
            alts = []
            for g, x in v.alts:
                p = and_(self.pc, g)
                if p is FALSE:
                    continue
                alts.append((g, x))
            results = []
            pc0 = self.pc
            leaks = self.leaks
            for g, x in alts:
                self.pc = and_(pc0, g)
                try:
                    results.append((g, self.pc, self.unpack_vals(n, star, x)))
                except Dead:
                    pass
            if not results:
                raise Dead()
            self.pc = pc0 if self.leaks == leaks else or_(*[p for _, p, _ in results])
            vals = [mk_union([(g, r[i]) for g, _, r in results]) for i in range(n)]
        else:
            vals = self.unpack_vals(n, star, v)
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def unpack_vals(self, n, star, v):
        ents = self.entries(v)
        if not star:
            if len(ents) == n and all(and_(self.pc, not_(g)) is FALSE for g, _ in ents):
                return [x for _, x in ents]
            comp = self.compact(ents)
            ln = self.length_e(ents)
            self.throw_if(not_(X.eq(ln, X.const(n))), 'ValueError', 'unpack')
            if len(comp) < n:
                self.throw('ValueError', 'not enough values to unpack')
            return [x for _, x in comp[:n]]
        i = star[0]

        def one(vals):
            if len(vals) < n - 1:
                self.throw('ValueError', 'not enough values to unpack')
            k = n - 1 - i
            mid = vals[i:len(vals) - k] if k else vals[i:]
            return dense_seq('tuple', vals[:i] + [dense_seq('list', mid, self.pc)] + (vals[len(vals) - k:] if k else []))
        r = self.cases([(g, (lambda vs=vs: one(vs))) for g, vs in self.dense_alts(ents)])
        r = force(r)
        if type(r) is VSeq:
            return [x for _, x in r.ents]
        self.unsupported('starred unpacking of alternatives')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                self.delitem(o, self.eval_index(t.slice))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value), self.mangle(t.attr))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.Delete(targets=t.elts))
            else:
                self.unsupported('del target')

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        fr = self.frame
        fr.returns.append((self.pc, v, fr.env))
        self.leaks += 1
        raise Dead()

    def s_If(self, s):
        c = self.eval_truth(s.test)
        pc0 = self.pc
        fr = self.frame
        tpc = and_(pc0, c)
        fpc = and_(pc0, not_(c))
        if fpc is FALSE:
            return self.block(s.body)
        if tpc is FALSE:
            return self.block(s.orelse)
        env0 = fr.env
        leaks = self.leaks
        ends = []
        for p, b in ((tpc, s.body), (fpc, s.orelse)):
            self.pc = p
            fr.env = dict(env0) if b else env0
            try:
                self.block(b)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
        self.join_ends(ends, pc0, self.leaks == leaks)
        if len(ends) == 1 and not self.feasible(self.pc):
            # the branch that raises or returns is always taken
            raise Dead()

    def for_loop(self, s):
        fr = self.frame
        it = force(self.eval(s.iter))
        if type(it) is VUnion:
            # the same loop over each alternative
            pc0, env0 = self.pc, fr.env
            leaks = self.leaks
            ends = []
            for g, x in it.alts:
                p = and_(pc0, g)
                if p is FALSE:
                    continue
                self.pc, fr.env = p, dict(env0)
                try:
                    self.for_over(s, x)
                    ends.append((self.pc, fr.env))
                except Dead:
                    pass
            self.join_ends(ends, pc0, self.leaks == leaks)
        else:
            self.for_over(s, it)

    def for_over(self, s, it):
        fr = self.frame
        breaks = []
        base = self.pc
        leaks_all = self.leaks
        nbreak = 0
        ents = self.entries(it)
        dead = False
        for g, v in ents:
            pc0 = self.pc
            ipc = and_(pc0, g)
            if ipc is FALSE:
                continue
            env0 = fr.env
            loop = Loop()
            fr.loops.append(loop)
            leaks = self.leaks
            ends = []
            self.pc = ipc
            if ipc is not pc0:
                fr.env = dict(env0)
            try:
                self.assign(s.target, v)
                self.block(s.body)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
            finally:
                fr.loops.pop()
            ends.extend(loop.continues)
            if loop.continues and self.leaks - len(loop.continues) == leaks:
                self.leaks = leaks
            if ipc is not pc0:
                ends.append((and_(pc0, not_(g)), env0))
            breaks.extend(loop.breaks)
            if not ends:
                dead = True
                break
            self.join_ends(ends, pc0, self.leaks == leaks)
        ends = []
        if not dead:
            try:
                if s.orelse:
                    if breaks:
                        fr.env = dict(fr.env)
                    self.block(s.orelse)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
        nb = len(breaks)
        ends.extend(breaks)
        # breaks count as leaks of the iterations but not of the loop
        clean = self.leaks - nb == leaks_all
        if clean:
            self.leaks = leaks_all
        self.join_ends(ends, base, clean)

    def s_While(self, s):
        fr = self.frame
        breaks = []
        base = self.pc
        leaks_all = self.leaks
        exits = []
        n = 0
        while True:
            n += 1
            c = self.eval_truth(s.test)
            pc0 = self.pc
            tpc = and_(pc0, c)
            if tpc is not FALSE and tpc is not pc0 and not self.feasible(tpc):
                tpc = FALSE
            elif tpc is pc0 and n > self.unwind and not self.feasible(tpc):
                tpc = FALSE
            fpc = and_(pc0, not_(c)) if tpc is not pc0 else FALSE
            if tpc is FALSE:
                fpc = pc0
            if fpc is not FALSE:
                exits.append((fpc, fr.env))
            if tpc is FALSE:
                break
            if n > (self.unwind if fpc is not FALSE else 5000):
                self.pc = tpc
                raise Unsupported('loop unwinding bound %d reached' % self.unwind)
            self.pc = tpc
            fr.env = dict(fr.env)
            loop = Loop()
            fr.loops.append(loop)
            ends = []
            leaks = self.leaks
            try:
                self.block(s.body)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
            finally:
                fr.loops.pop()
            ends.extend(loop.continues)
            if loop.continues and self.leaks - len(loop.continues) == leaks:
                self.leaks = leaks
            breaks.extend(loop.breaks)
            if not ends:
                break
            self.join_ends(ends, tpc, self.leaks == leaks)
        nb = len(breaks)
        if s.orelse and exits:
            try:
                self.join_ends(exits, base, False)
                if breaks:
                    fr.env = dict(fr.env)
                self.block(s.orelse)
                exits = [(self.pc, fr.env)]
            except Dead:
                exits = []
        ends = exits + breaks
        clean = self.leaks - nb == leaks_all
        if clean:
            self.leaks = leaks_all
        self.join_ends(ends, base, clean)

    def s_Break(self, s):
        self.frame.loops[-1].breaks.append((self.pc, self.frame.env))
        self.leaks += 1
        raise Dead()

    def s_Continue(self, s):
        self.frame.loops[-1].continues.append((self.pc, self.frame.env))
        self.leaks += 1
        raise Dead()

    def s_Assert(self, s):
        c = self.eval_truth(s.test)
        self.throw_if(not_(c), 'AssertionError', 'assert at line %d' % s.lineno)

    def s_Raise(self, s):
        if s.exc is None:
            if not self.handling:
                self.throw('RuntimeError', 'No active exception to reraise')
            self.raise_exc(self.handling[-1])
        v = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        self.raise_value(v)

    def raise_value(self, v):
        def one(x):
            if type(x) is VClass:
                x = self.call(x, [])
            if type(x) is not VObj or not self.is_exc(x.cls):
                self.throw('TypeError', 'exceptions must derive from BaseException')
            self.raise_exc(x)
        self.lift(v, one)
        raise Dead()

    def is_exc(self, cls):
        return self.exc_classes['BaseException'] in cls.mro

    def s_Try(self, s):
        fr = self.frame
        base = self.pc
        leaks = self.leaks
        if s.finalbody:
            nret = len(fr.returns)
            marks = [(len(l.breaks), len(l.continues)) for l in fr.loops]
            outer = Collector(fr)
            self.collectors.append(outer)
            try:
                self.try_core(s)
                ends = [(self.pc, fr.env)]
            except Dead:
                ends = []
            finally:
                self.collectors.pop()
            # the finally block on every way out
            final_ends = []
            for p, env in ends:
                self.pc, fr.env = p, env
                try:
                    self.block(s.finalbody)
                    final_ends.append((self.pc, fr.env))
                except Dead:
                    pass

            def rerun(items, env_at):
                out = []
                for it in items:
                    self.pc = it[0]
                    fr.env = dict(it[env_at])
                    try:
                        self.block(s.finalbody)
                        lst = list(it)
                        lst[0], lst[env_at] = self.pc, fr.env
                        out.append(tuple(lst))
                    except Dead:
                        pass
                return out
            fr.returns[nret:] = rerun(fr.returns[nret:], 2)
            for l, (b, c) in zip(fr.loops, marks):
                l.breaks[b:] = rerun(l.breaks[b:], 1)
                l.continues[c:] = rerun(l.continues[c:], 1)
            for p, exc, env in outer.items:
                self.pc, fr.env = p, env
                try:
                    self.block(s.finalbody)
                    self.raise_exc(exc)
                except Dead:
                    pass
            self.join_ends(final_ends, base, False)
        else:
            self.try_core(s)

    def try_core(self, s):
        fr = self.frame
        base = self.pc
        leaks = self.leaks
        nraise = self.nraise
        col = Collector(fr)
        self.collectors.append(col)
        ends = []
        try:
            self.block(s.body)
            ends.append((self.pc, fr.env))
        except Dead:
            pass
        finally:
            self.collectors.pop()
        if ends and s.orelse:
            self.pc, fr.env = ends.pop()
            try:
                self.block(s.orelse)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
        if not col.items:
            self.join_ends(ends, base, self.leaks == leaks)
            return
        for p, exc, env in col.items:
            self.pc, fr.env = p, env
            try:
                self.handle(s.handlers, exc)
                ends.append((self.pc, fr.env))
            except Dead:
                pass
        self.join_ends(ends, base, False)

    def handle(self, handlers, exc):
        for h in handlers:
            if h.type is not None:
                t = force(self.eval(h.type))
                ts = [x for _, x in t.ents] if type(t) is VSeq else [t]
                ok = any(x in exc.cls.mro for x in ts)
            else:
                ok = True
            if ok:
                if h.name:
                    self.store_name(h.name, exc)
                self.handling.append(exc)
                try:
                    self.block(h.body)
                finally:
                    self.handling.pop()
                if h.name:
                    self.store_name(h.name, UNDEF)
                return
        self.raise_exc(exc)

    def s_With(self, s):
        self.with_items(s, s.items)

    def with_items(self, s, items):
        if not items:
            return self.block(s.body)
        it = items[0]
        mgr = self.eval(it.context_expr)
        exit_ = self.getattr(mgr, '__exit__')
        v = self.call(self.getattr(mgr, '__enter__'), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        fr = self.frame
        base = self.pc
        leaks = self.leaks
        nret = len(fr.returns)
        marks = [(len(l.breaks), len(l.continues)) for l in fr.loops]
        col = Collector(fr)
        self.collectors.append(col)
        ends = []
        try:
            self.with_items(s, items[1:])
            ends.append((self.pc, fr.env))
        except Dead:
            pass
        finally:
            self.collectors.pop()
        clean = self.leaks == leaks
        if ends:
            self.call(exit_, [None, None, None])
        elif not col.items:
            # left by return / break / continue only
            pcs = [p for p, _, _ in fr.returns[nret:]]
            for l, (b, c) in zip(fr.loops, marks):
                pcs += [p for p, _ in l.breaks[b:]] + [p for p, _ in l.continues[c:]]
            if pcs:
                self.pc = or_(*pcs)
                try:
                    self.call(exit_, [None, None, None])
                except Dead:
                    pass
        if ends:
            ends = [(self.pc, fr.env)]
        for p, exc, env in col.items:
            self.pc, fr.env = p, env
            try:
                r = self.call(exit_, [exc.cls, exc, None])
                t = self.truth(r)
                if t is TRUE:
                    ends.append((self.pc, fr.env))
                elif t is FALSE:
                    self.raise_exc(exc)
                else:
                    self.unsupported('symbolic __exit__ result')
            except Dead:
                pass
        self.join_ends(ends, base, clean)

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d), [f])
        self.store_name(s.name, f)

    def make_func(self, node, name):
        fr = self.frame
        f = VFunc()
        f.name, f.node, f.args = name, node, node.args
        f.body = node.body
        f.defaults = [self.eval(d) for d in node.args.defaults]
        f.kwdefaults = [self.eval(d) if d is not None else UNDEF for d in node.args.kw_defaults]
        f.frame = fr
        f.module = fr.module
        f.clsname, f.defcls = fr.clsname, fr.defcls
        f.locals, f.globals_, f.nonlocals, f.isgen, _ = scope_info(node)
        f.attrs = None
        outer = fr.func.qual + '.<locals>.' if fr.func is not None else (
            fr.clsname + '.' if fr.store is not None and fr.clsname else '')
        f.qual = outer + name
        return f

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        kw = dict((k.arg, self.eval(k.value)) for k in s.keywords)
        if kw:
            self.unsupported('class keywords')
        for b in bases:
            if type(b) not in (VClass, BType):
                self.unsupported('base class %s' % type(b).__name__)
        if not bases:
            bases = [self.B.T['object']]
        store = VDict(self.pc)
        cls_cell = [None]
        fr = Frame(self.frame.module, self.frame, store)
        fr.func = None
        fr.clsname = s.name
        fr.defcls = cls_cell
        fr.pc0 = self.pc
        saved = self.frame
        self.frame = fr
        try:
            self.B.dict_set(self, store, '__module__', self.module_name(fr.module))
            self.B.dict_set(self, store, '__qualname__', s.name)
            doc = ast.get_docstring(s, clean=False)
            self.B.dict_set(self, store, '__doc__', doc)
            self.block(s.body)
        finally:
            self.frame = saved
        c = self.make_class(s.name, bases, store, saved.module)
        cls_cell[0] = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v])
        self.store_name(s.name, v)

    def make_class(self, name, bases, store, module):
        d = {}
        for g, k, v, hk in store.ents:
            d[k] = force(v)
        return VClass(name, bases, d, module, self.pc)

    def module_name(self, module):
        g, v = self.B.dict_find(self, module.attrs, '__name__')
        return force(v) if v is not None else '?'

    def s_Import(self, s):
        for a in s.names:
            m = self.import_name(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                self.store_name(a.name.split('.')[0], self.import_name(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            g, pkg = self.B.dict_find(self, self.frame.module.attrs, '__package__')
            pkg = force(pkg)
            for _ in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            mod = pkg + ('.' + mod if mod else '')
        if mod == '__future__':
            return
        names = [a.name for a in s.names]
        m = self.import_from(mod, names)
        for a in s.names:
            if a.name == '*':
                self.import_star(m)
                continue
            self.store_name(a.asname or a.name, self.import_attr(m, a.name))

    def import_star(self, m):
        if type(m) is Native:
            self.unsupported('import *')
        g, all_ = self.B.dict_find(self, m.attrs, '__all__')
        if all_ is not None:
            for _, n in self.entries(force(all_)):
                self.store_name(n, self.getattr(m, n))
        else:
            for g, k, v, hk in list(m.attrs.ents):
                if not k.startswith('_'):
                    self.store_name(k, force(v))

    def s_Global(self, s):
        pass

    def s_Match(self, s):
        self.unsupported('match statement')

    # ------------------------------------------------------------ names
    def mangle(self, name):
        c = self.frame.clsname
        if c and name.startswith('__') and not name.endswith('__') and c.strip('_'):
            return '_' + c.lstrip('_') + name
        return name

    def store_name(self, name, v):
        fr = self.frame
        name = self.mangle(name)
        if name in fr.globals_:
            return self.store_attr(fr.module.attrs, name, v)
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if p.store is None and name in p.locals:
                    old = p.env.get(name, UNDEF)
                    p.env[name] = lazy(relative(self.pc, p.pc0), v, old)
                    return
                p = p.parent
            self.unsupported('nonlocal %s' % name)
        if fr.store is not None:
            return self.store_attr(fr.store, name, v)
        fr.env[name] = v

    def store_attr(self, d, name, v):
        """Predicated write of a str key in an attribute dictionary."""
        hk = ('s', name)
        g = relative(self.pc, d.pc0)
        e = d.index.get(hk)
        if v is UNDEF:
            if e is not None:
                if g is TRUE:
                    del d.index[hk]
                    d.ents.remove(e)
                else:
                    e[0] = and_(e[0], not_(g))
            return
        if e is None:
            e = [g, name, v, hk]
            d.ents.append(e)
            d.index[hk] = e
        elif g is TRUE:
            e[0], e[2] = TRUE, v
        else:
            e[2] = lazy(g, v, e[2]) if e[0] is not FALSE else v
            e[0] = or_(e[0], g)

    def load_attr(self, d, name):
        """(guard, value) of a str key of an attribute dictionary; value None when absent."""
        e = d.index.get(('s', name))
        if e is None:
            return FALSE, None
        v = e[2]
        if type(v) is Lazy:
            v = e[2] = force(v)
        return e[0], v

    def load_name(self, name):
        fr = self.frame
        name = self.mangle(name)
        if fr.store is None:
            if name in fr.locals:
                v = fr.env.get(name, UNDEF)
                if type(v) is Lazy:
                    v = fr.env[name] = force(v)
                if v is UNDEF:
                    self.throw('UnboundLocalError', name)
                if type(v) is VUnion and any(x is UNDEF for _, x in v.alts):
                    v = self.drop_undef(v, name)
                    fr.env[name] = v
                return v
        else:
            g, v = self.load_attr(fr.store, name)
            if v is not None or g is not FALSE:
                if g is TRUE or and_(self.pc, not_(g)) is FALSE:
                    return v
        if name not in fr.globals_:
            p = fr.parent
            while p is not None:
                if p.store is None:
                    if name in p.locals:
                        v = p.env.get(name, UNDEF)
                        if type(v) is Lazy:
                            v = p.env[name] = force(v)
                        if v is UNDEF:
                            self.throw('NameError', name)
                        if type(v) is VUnion and any(x is UNDEF for _, x in v.alts):
                            v = self.drop_undef(v, name)
                        return v
                p = p.parent
        g, v = self.load_attr(fr.module.attrs, name)
        if g is not FALSE:
            if g is TRUE or and_(self.pc, not_(g)) is FALSE:
                return v
            if name not in self.builtins:
                self.throw_if(not_(g), 'NameError', name)
                return v
        if name in self.builtins:
            return self.builtins[name]
        if name == '__class__' and fr.defcls:
            return fr.defcls[0]
        self.throw('NameError', "name '%s' is not defined" % name)

    def drop_undef(self, v, name):
        g = or_(*[h for h, x in v.alts if x is UNDEF])
        self.throw_if(g, 'UnboundLocalError', name)
        return mk_union([(h, x) for h, x in v.alts if x is not UNDEF])

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        v = EXPR[type(n)](self, n)
        if type(v) is Lazy:
            v = force(v)
        return v

    def e_Constant(self, n):
        v = n.value
        t = type(v)
        if v is None or t in (int, bool, str):
            return v
        if t is float:
            return self.from_native(v)
        if v is Ellipsis:
            return Native(v)
        if t is bytes:
            return Native(v)
        self.unsupported('constant %r' % (v,))

    def e_Name(self, n):
        return self.load_name(n.id)

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), self.mangle(n.attr))

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(BIN[type(n.op)], a, b)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return mk_bool(not_(self.eval_truth(n.operand)))
        v = self.eval(n.operand)
        return self.lift(v, lambda x: self.unary(n.op, x))

    def unary(self, op, x):
        k = num(x)
        if k is None:
            m = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(op)]
            f = self.type_attr(x, m)
            if f is not None:
                return self.call(f, [x])
            self.throw('TypeError', 'bad operand type for unary operator')
        kind = 'int' if k[0] == 'bool' else k[0]
        if isinstance(op, ast.USub):
            return mk_num(kind, X.neg(k[1]))
        if isinstance(op, ast.UAdd):
            return mk_num(kind, k[1])
        return mk_num('int', X.sub(X.const(-1), k[1]))

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        vals = n.values

        def go(i):
            v = self.eval(vals[i])
            if i == len(vals) - 1:
                return v
            c = self.truth(v)
            if is_and:
                return self.branch(c, lambda: go(i + 1), lambda: self.narrow(v, False))
            return self.branch(c, lambda: self.narrow(v, True), lambda: go(i + 1))
        return go(0)

    def narrow(self, v, truth):
        if type(v) is SBool:
            return truth
        return v

    def eval_truth(self, n):
        """Truth term of an expression (short-circuit forms without building their values)."""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            acc = self.eval_truth(n.values[0])
            for m in n.values[1:]:
                go = acc if is_and else not_(acc)
                q0 = self.pc
                p = and_(q0, go)
                if p is FALSE:
                    break
                before = self.leaks
                self.pc = p
                try:
                    c = self.eval_truth(m)
                except Dead:
                    # nothing survives where the operand was evaluated
                    self.pc = and_(q0, not_(go))
                    if self.pc is FALSE:
                        raise
                    return FALSE if is_and else TRUE
                self.pc = q0 if self.leaks == before else or_(self.pc, and_(q0, not_(go)))
                acc = and_(acc, c) if is_and else or_(acc, c)
            return acc
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.eval_truth(n.operand))
        return self.truth(self.eval(n))

    def e_Compare(self, n):
        return mk_bool(self.compare_chain(n)) if len(n.ops) > 1 else self.compare(n.ops[0], self.eval(n.left),
                                                                                 self.eval(n.comparators[0]))

    def compare_chain(self, n):
        left = self.eval(n.left)

        def go(i, left):
            right = self.eval(n.comparators[i])
            c = self.truth(self.compare(n.ops[i], left, right))
            if i == len(n.ops) - 1:
                return mk_bool(c)
            return self.branch(c, lambda: go(i + 1, right), lambda: False)
        return self.truth(go(0, left))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return mk_bool(self.is_(a, b))
        if isinstance(op, ast.IsNot):
            return mk_bool(not_(self.is_(a, b)))
        if isinstance(op, ast.In):
            return mk_bool(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return mk_bool(not_(self.contains(b, a)))
        return self.cmp(CMP[type(op)], a, b)

    def e_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in self.frame.locals:
            return self.do_super(n)
        fn = self.eval(f)
        args = []
        alts = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.eval(a.value)))
            else:
                args.append(('', self.eval(a)))
        kwargs = {}
        dstar = []
        for k in n.keywords:
            if k.arg is None:
                dstar.append(self.eval(k.value))
            else:
                kwargs[k.arg] = self.eval(k.value)
        for d in dstar:
            self.add_kwargs(kwargs, d)
        if not any(t for t, _ in args):
            return self.call(fn, [v for _, v in args], kwargs)
        return self.call_star(fn, args, kwargs)

    def add_kwargs(self, kwargs, d):
        d = force(d)
        if type(d) is VUnion:
            self.unsupported('** of alternatives')
        if type(d) is not VDict:
            ks = self.call(self.getattr(d, 'keys'), [])
            ents = [(g, k, self.getitem(d, k)) for g, k in self.entries(ks)]
        else:
            ents = [(e[0], e[1], e[2]) for e in d.ents]
        for g, k, v in ents:
            p = and_(self.pc, g)
            if p is FALSE:
                continue
            if and_(self.pc, not_(g)) is not FALSE and self.feasible(and_(self.pc, not_(g))):
                if not self.feasible(p):
                    continue
                self.unsupported('** of a dict with conditional keys')
            if type(k) is not str:
                self.throw('TypeError', 'keywords must be strings')
            if k in kwargs:
                self.throw('TypeError', "got multiple values for keyword argument '%s'" % k)
            kwargs[k] = force(v)

    def call_star(self, fn, args, kwargs):
        f = force(fn)
        chain = type(f) is BType and f.name == 'chain' and f.module == 'itertools'
        union = type(f) is Bound and type(f.fn) is Builtin and f.fn.name.split('.')[-1] == 'union' and type(f.self) is VSet
        if (chain or union) and not kwargs and not any(type(force(v)) is VUnion for _, v in args):
            # the pieces one after the other, however many there are
            pieces = []
            for t, v in args:
                pieces.extend(self.entries(v) if t else [(TRUE, v)])
            if chain or not all(g is TRUE for g, _ in pieces):
                out = []
                for g, x in pieces:
                    h, es = self.under(g, lambda: self.entries_any(x))
                    if h is not FALSE:
                        out.extend((and_(h, q), v) for q, v in es)
                it = VSeq('iter', out, self.pc)
                return it if chain else self.call(fn, [it], {})

        def go(i, acc):
            if i == len(args):
                return self.call(fn, acc, dict(kwargs))
            t, v = args[i]
            if not t:
                return go(i + 1, acc + [v])

            def over(x):
                ents = self.entries(x)
                alts = self.dense_alts(ents)
                if len(alts) == 1:
                    return go(i + 1, acc + alts[0][1])
                return self.cases([(g, (lambda vs=vs: go(i + 1, acc + vs))) for g, vs in alts])
            return self.lift(v, over)
        return go(0, [])

    def do_super(self, n):
        if n.args:
            cls = self.eval(n.args[0])
            obj = self.eval(n.args[1])
        else:
            fr = self.frame
            while fr is not None and fr.func is None:
                fr = fr.parent
            cls = fr.defcls[0]
            obj = fr.first
        return VSuper(cls, obj)

    def e_IfExp(self, n):
        c = self.eval_truth(n.test)
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_Lambda(self, n):
        return self.make_func(n, '<lambda>')

    def e_Tuple(self, n):
        return self.display('tuple', n.elts)

    def e_List(self, n):
        return self.display('list', n.elts)

    def display(self, kind, elts):
        ents = []
        for e in elts:
            if isinstance(e, ast.Starred):
                ents.extend(self.entries_any(self.eval(e.value)))
            else:
                ents.append((TRUE, self.eval(e)))
        return VSeq(kind, ents, self.pc)

    def e_Set(self, n):
        s = VSet(False, self.pc)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                for g, x in self.entries_any(self.eval(e.value)):
                    self.B.set_add(self, s, x, g)
            else:
                self.B.set_add(self, s, self.eval(e))
        return s

    def e_Dict(self, n):
        d = VDict(self.pc)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.B.dict_update(self, d, self.eval(v))
            else:
                k = self.eval(k)
                self.B.dict_set(self, d, k, self.eval(v))
        return d

    def eval_index(self, n):
        if isinstance(n, ast.Slice):
            return ('slice', self.eval(n.lower) if n.lower is not None else None,
                    self.eval(n.upper) if n.upper is not None else None,
                    self.eval(n.step) if n.step is not None else None)
        return self.eval(n)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        return self.getitem(o, self.eval_index(n.slice))

    def e_Starred(self, n):
        self.unsupported('starred expression')

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        fr = self.frame
        while fr.func is None and fr.store is None and fr.parent is not None:
            fr = fr.parent
        name = n.target.id
        if fr.store is not None:
            self.store_attr(fr.store, name, v)
        else:
            old = fr.env.get(name, UNDEF)
            fr.env[name] = lazy(relative(self.pc, fr.pc0), v, old)
        return v

    def comp_frame(self, gens):
        fr = Frame(self.frame.module, self.frame)
        fr.pc0 = self.pc
        names = set()
        for g in gens:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    names.add(m.id)
        fr.locals = frozenset(names)
        return fr

    def comprehension(self, gens, emit):
        """emit() is called under the path condition of each element."""
        fr = self.comp_frame(gens)
        saved = self.frame
        first = self.eval(gens[0].iter)

        def go(i, it):
            g = gens[i]
            for h, v in self.entries_any(it):
                pc0 = self.pc
                p = and_(pc0, h)
                if p is FALSE:
                    continue
                self.pc = p
                leaks = self.leaks
                rest = []
                skipped = FALSE
                try:
                    self.assign(g.target, v)
                    for c in g.ifs:
                        t = self.eval_truth(c)
                        q = and_(self.pc, t)
                        n = and_(self.pc, not_(t))
                        if q is FALSE:
                            rest.append(self.pc)
                            raise Dead()
                        if n is not FALSE:
                            rest.append(n)
                            self.pc = q
                    if i + 1 < len(gens):
                        go(i + 1, self.eval(gens[i + 1].iter))
                    else:
                        emit()
                    rest.append(self.pc)
                except Dead:
                    pass
                if self.leaks == leaks:
                    self.pc = pc0
                else:
                    if p is not pc0:
                        rest.append(and_(pc0, not_(h)))
                    self.pc = or_(*rest) if rest else FALSE
                    if self.pc is FALSE:
                        raise Dead()
        self.frame = fr
        try:
            go(0, first)
        finally:
            self.frame = saved

    def e_ListComp(self, n):
        pc0 = self.pc
        ents = []
        self.comprehension(n.generators, lambda: self.emit(ents, pc0, n.elt))
        return VSeq('list', ents, pc0)

    def emit(self, ents, pc0, elt):
        v = self.eval(elt)
        ents.append((relative(self.pc, pc0), v))

    def e_GeneratorExp(self, n):
        pc0 = self.pc
        ents = []
        self.comprehension(n.generators, lambda: self.emit(ents, pc0, n.elt))
        return VSeq('iter', ents, pc0)

    def e_SetComp(self, n):
        s = VSet(False, self.pc)
        self.comprehension(n.generators, lambda: self.B.set_add(self, s, self.eval(n.elt)))
        return s

    def e_DictComp(self, n):
        d = VDict(self.pc)

        def emit():
            k = self.eval(n.key)
            self.B.dict_set(self, d, k, self.eval(n.value))
        self.comprehension(n.generators, emit)
        return d

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        fr = self.frame
        while fr.yields is None:
            fr = fr.parent
        fr.yields.append((relative(self.pc, fr.pc0), v))
        if len(fr.yields) > 20000:
            self.unsupported('generator yields without end')
        return None

    def e_YieldFrom(self, n):
        fr = self.frame
        ents = self.entries_any(self.eval(n.value))
        h = relative(self.pc, fr.pc0)
        for g, v in ents:
            fr.yields.append((and_(h, g), v))
        return None

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = self.eval(v.format_spec) if v.format_spec is not None else ''
                if spec != '':
                    x = self.B.format_value(self, x, spec)
                elif v.conversion == 114:
                    x = self.B.repr_(self, x)
                else:
                    x = self.B.str_(self, x)
                parts.append(x)
        r = ''
        for p in parts:
            r = self.binop('+', r, p)
        return r

    def e_FormattedValue(self, n):
        return self.B.str_(self, self.eval(n.value))

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs=None):
        t = type(fn)
        if t is VFunc:
            return self.call_func(fn, args, kwargs or {})
        if t is Bound:
            return self.call(fn.fn, [fn.self] + list(args), kwargs)
        if t is Builtin:
            kwargs = kwargs or {}
            if not fn.raw:
                for i, a in enumerate(args):
                    if type(a) is VUnion:
                        return self.lift(a, lambda x: self.call(fn, args[:i] + [x] + args[i + 1:], kwargs))
            return fn.fn(self, list(args), kwargs)
        if t is VUnion or t is Lazy:
            return self.lift(fn, lambda f: self.call(f, args, kwargs))
        if t is BType:
            kwargs = kwargs or {}
            if fn.construct is None:
                self.unsupported('constructor of %s' % fn.name)
            for i, a in enumerate(args):
                if type(a) is VUnion:
                    return self.lift(a, lambda x: self.call(fn, args[:i] + [x] + args[i + 1:], kwargs))
            return fn.construct(self, fn, list(args), kwargs)
        if t is VClass:
            return self.instantiate(fn, list(args), kwargs or {})
        if t is VStatic:
            return self.call(fn.fn, args, kwargs)
        if t is Native:
            if callable(fn.obj):
                return self.native_call(fn.obj, args, kwargs or {})
        if t in (VObj, VDict, VSeq):
            f = self.type_attr(fn, '__call__')
            if f is not None:
                return self.call(f, [fn] + list(args), kwargs)
        self.throw('TypeError', 'object is not callable')

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 20:
            if self.depth > 220:
                self.depth -= 1
                self.unsupported('recursion bound')
            if self.pc is not TRUE and self.depth % 6 == 0 and not self.feasible(self.pc):
                self.depth -= 1
                raise Dead()
        fr = Frame(f.module, f.frame)
        fr.func = f
        fr.locals, fr.globals_, fr.nonlocals = f.locals, f.globals_, f.nonlocals
        fr.clsname, fr.defcls = f.clsname, f.defcls
        fr.pc0 = self.pc
        saved = self.frame
        try:
            self.bind(f, fr, args, kwargs)
            fr.first = args[0] if args else None
            self.frame = fr
            pc0 = self.pc
            nraise, leaks = self.nraise, self.leaks
            self.functions[(self.modname(f.module), f.qual)] = self.functions.get(
                (self.modname(f.module), f.qual), 0) + 1
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.body)
            if f.isgen:
                fr.yields = []
            try:
                self.block(f.body)
                fr.returns.append((self.pc, None, None))
            except Dead:
                pass
            if self.nraise == nraise:
                self.leaks = leaks
                self.pc = pc0
                if not fr.returns:
                    self.pc = FALSE
                    raise Dead()
            else:
                self.leaks = leaks + self.nraise - nraise
                if not fr.returns:
                    self.pc = FALSE
                    raise Dead()
                self.pc = or_(*[p for p, _, _ in fr.returns])
            if f.isgen:
                return VSeq('iter', fr.yields, fr.pc0)
            if len(fr.returns) == 1:
                return fr.returns[0][1]
            self.nmerge += len(fr.returns) - 1
            return mk_union([(relative(p, pc0), v) for p, v, _ in fr.returns])
        finally:
            self.frame = saved
            self.depth -= 1

    def modname(self, m):
        return self.module_name(m)

    def bind(self, f, fr, args, kwargs):
        a = f.args
        env = fr.env
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for k, v in zip(pos, args):
            env[k] = v
        if a.vararg is not None:
            env[a.vararg.arg] = dense_seq('tuple', list(args[n:]), self.pc)
        ponly = set(x.arg for x in a.posonlyargs)
        names = set(pos) | set(x.arg for x in a.kwonlyargs)
        extra = None
        if a.kwarg is not None:
            extra = VDict(self.pc)
            env[a.kwarg.arg] = extra
        for k, v in kwargs.items():
            if k in names and k not in ponly:
                if k in env:
                    self.throw('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                env[k] = v
            elif extra is not None:
                self.B.dict_set(self, extra, k, v)
            else:
                self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        nd = len(f.defaults)
        for i, k in enumerate(pos):
            if k not in env:
                j = i - (n - nd)
                if j < 0:
                    self.throw('TypeError', "%s() missing required argument '%s'" % (f.name, k))
                env[k] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in env:
                if d is UNDEF:
                    self.throw('TypeError', "%s() missing keyword-only argument '%s'" % (f.name, x.arg))
                env[x.arg] = d

    def instantiate(self, cls, args, kwargs):
        base = None
        for k in cls.mro:
            if type(k) is BType:
                base = k
                break
        new = self.class_lookup(cls, '__new__')
        if new is not None and type(new) in (VFunc, VStatic):
            o = self.call(new, [cls] + args, kwargs)
            if not (type(o) in (VObj, VDict, VSeq, VSet) and o.cls is cls):
                return o
        else:
            o = self.B.alloc(self, cls, base, args, kwargs)
        init = self.class_lookup(cls, '__init__')
        if init is self.B.OBJECT_INIT:
            if (args or kwargs) and new is None:
                self.throw('TypeError', '%s() takes no arguments' % cls.name)
        elif init is not None:
            self.call(init, [o] + args, kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        """Raw attribute in the MRO, or None."""
        for k in cls.mro:
            if type(k) is VClass:
                if name in k.d:
                    v = k.d[name]
                    if type(v) is Lazy:
                        v = k.d[name] = force(v)
                    return v
            else:
                if name in k.methods:
                    return k.methods[name]
        return None

    def type_of(self, v):
        return self.B.type_of(self, v)

    def type_attr(self, v, name):
        """Special method looked up on the type; None when only object's default applies."""
        t = self.type_of(v)
        if t is None:
            return None
        r = self.class_lookup(t, name)
        if type(r) is VStatic:
            return r.fn
        return r

    def user_attr(self, v, name):
        """Special method defined by interpreted code, or None."""
        t = type(v)
        if t is VObj or ((t is VDict or t is VSeq or t is VSet) and type(v.cls) is VClass):
            for k in v.cls.mro:
                if type(k) is VClass:
                    if name in k.d:
                        r = force(k.d[name])
                        return r.fn if type(r) is VStatic else r
                elif name in k.methods:
                    return None
        return None

    def attrs_of(self, v):
        t = type(v)
        if t is VObj:
            return v.attrs
        if t in (VDict, VSeq, VSet) and type(v.cls) is VClass:
            if v.attrs is None:
                v.attrs = VDict(v.pc0)
            return v.attrs
        return None

    def hasattr(self, o, name):
        """Truth term of hasattr."""
        def one(x):
            col = Collector(self.frame)
            self.collectors.append(col)
            pc0 = self.pc
            try:
                self.getattr(x, name)
                ok = self.pc
            except Dead:
                ok = FALSE
            finally:
                self.collectors.pop()
            bad = []
            for p, exc, env in col.items:
                if self.exc_classes['AttributeError'] in exc.cls.mro:
                    bad.append(p)
                else:
                    self.pc = p
                    try:
                        self.raise_exc(exc)
                    except Dead:
                        pass
            self.pc = or_(ok, *bad) if bad else ok
            if not bad and ok is not FALSE:
                self.pc = ok
            elif len(bad) == len(col.items):
                self.pc = pc0
            if self.pc is FALSE:
                raise Dead()
            return mk_bool(relative(ok, pc0) if ok is not FALSE else FALSE)
        return self.truth(self.lift(o, one))

    def getattr(self, o, name):
        t = type(o)
        if t is VUnion or t is Lazy:
            return self.lift(o, lambda x: self.getattr(x, name))
        if t is VObj:
            return self.getattr_obj(o, name)
        if t is VClass:
            return self.getattr_class(o, name)
        if t is VSuper:
            return self.getattr_super(o, name)
        if t in (VDict, VSeq, VSet) and type(o.cls) is VClass:
            return self.getattr_obj(o, name)
        if t is VFunc:
            return self.getattr_func(o, name)
        if t is BType:
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__mro__':
                return dense_seq('tuple', o.mro)
            r = self.class_lookup(o, name)
            if r is not None:
                if type(r) is VClassM:
                    return Bound(o, r.fn)
                if type(r) is VStatic:
                    return r.fn
                return r
            if name == '__dict__':
                return VDict(self.pc)
            self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
        if t is Native:
            return self.getattr_native(o, name)
        if t is Bound:
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.fn
            if type(o.fn) is VFunc:
                return self.getattr_func(o.fn, name)
        if t is Builtin and name in ('__name__', '__qualname__'):
            return o.name
        if t is VProp:
            return self.B.prop_attr(self, o, name)
        ty = self.type_of(o)
        if ty is not None:
            r = self.class_lookup(ty, name)
            if r is not None:
                return self.bind_attr(r, o, ty)
            if name == '__class__':
                return ty
        self.throw('AttributeError', "'%s' object has no attribute '%s'" % (ty.name if ty else '?', name))

    def bind_attr(self, r, o, ty):
        t = type(r)
        if t is VFunc or t is Builtin:
            return Bound(o, r)
        if t is VProp:
            return self.call(r.get, [o])
        if t is VStatic:
            return r.fn
        if t is VClassM:
            return Bound(ty, r.fn)
        return r

    def getattr_obj(self, o, name):
        cls = o.cls
        ga = self.class_lookup(cls, '__getattribute__')
        if type(ga) is VFunc:
            return self.call(ga, [o, name])
        return self.getattr_default(o, name)

    def getattr_default(self, o, name, hook=True):
        cls = o.cls
        r = self.class_lookup(cls, name)
        if type(r) is VProp:
            return self.call(r.get, [o])
        d = self.attrs_of(o)
        g, v = self.load_attr(d, name)
        if g is TRUE:
            return v
        p = and_(self.pc, g)
        if p is not FALSE:
            if and_(self.pc, not_(g)) is FALSE:
                return v
            return self.branch(g, lambda: v, lambda: self.getattr_miss(o, name, r, hook))
        return self.getattr_miss(o, name, r, hook)

    def getattr_miss(self, o, name, r, hook):
        cls = o.cls
        if r is not None:
            return self.bind_attr(r, o, cls)
        if name == '__dict__':
            return self.attrs_of(o)
        if name == '__class__':
            return cls
        if type(o) is VObj and o.native is not None and isinstance(o.native, dict) and name in o.native:
            return o.native[name]
        if hook:
            h = self.class_lookup(cls, '__getattr__')
            if h is not None:
                return self.call(h, [o, name])
        self.throw('AttributeError', "'%s' object has no attribute '%s'" % (cls.name, name))

    def getattr_class(self, c, name):
        r = self.class_lookup(c, name)
        if r is not None:
            if type(r) is VStatic:
                return r.fn
            if type(r) is VClassM:
                return Bound(c, r.fn)
            return r
        if name in ('__name__', '__qualname__'):
            return c.name
        if name == '__mro__':
            return dense_seq('tuple', c.mro)
        if name == '__bases__':
            return dense_seq('tuple', c.bases)
        if name == '__dict__':
            d = VDict(self.pc)
            for k, v in c.d.items():
                self.B.dict_set(self, d, k, force(v))
            return d
        if name == '__class__':
            return self.B.T['type']
        self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (c.name, name))

    def getattr_super(self, s, name):
        obj = s.obj
        start = obj if type(obj) is VClass else obj.cls
        mro = start.mro
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            d = k.d if type(k) is VClass else k.methods
            if name in d:
                r = force(d[name])
                if type(obj) is VClass:
                    if type(r) is VClassM:
                        return Bound(obj, r.fn)
                    return r.fn if type(r) is VStatic else r
                return self.bind_attr(r, obj, start)
        self.throw('AttributeError', "'super' object has no attribute '%s'" % name)

    def getattr_func(self, f, name):
        if f.attrs is not None:
            g, v = self.load_attr(f.attrs, name)
            if g is TRUE:
                return v
            if g is not FALSE:
                self.throw_if(not_(g), 'AttributeError', name)
                return v
        if name in ('__name__', '__qualname__'):
            return f.name
        if name == '__doc__':
            return ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
        if name == '__module__':
            return self.module_name(f.module)
        if name == '__defaults__':
            return dense_seq('tuple', f.defaults) if f.defaults else None
        if name == '__dict__':
            if f.attrs is None:
                f.attrs = VDict(TRUE)
            return f.attrs
        self.throw('AttributeError', "'function' object has no attribute '%s'" % name)

    def getattr_native(self, o, name):
        try:
            return self.from_native(getattr(o.obj, name))
        except AttributeError as ex:
            self.throw('AttributeError', str(ex))

    def setattr(self, o, name, v):
        t = type(o)
        if t is VUnion:
            return self.lift(o, lambda x: self.setattr(x, name, v))
        d = self.attrs_of(o)
        if d is not None:
            h = self.user_attr(o, '__setattr__')
            if h is not None:
                return self.call(h, [o, name, v])
            r = self.class_lookup(o.cls, name)
            if type(r) is VProp:
                if r.set is None:
                    self.throw('AttributeError', "can't set attribute")
                return self.call(r.set, [o, v])
            if t is VSeq and name in self.B.namedtuple_fields(o.cls):
                self.throw('AttributeError', "can't set attribute")
            return self.store_attr(d, name, v)
        if t is VClass:
            if o.builtin:
                self.throw('TypeError', "can't set attributes of built-in/extension type")
            o.d[name] = lazy(relative(self.pc, o.pc0), v, o.d[name]) if name in o.d else v
            return
        if t is VFunc:
            if f_attrs_none(o):
                o.attrs = VDict(TRUE)
            return self.store_attr(o.attrs, name, v)
        if t is Native:
            self.unsupported('attribute set on a native object')
        self.throw('AttributeError', "object has no attribute '%s'" % name)

    def delattr(self, o, name):
        def one(x):
            d = self.attrs_of(x)
            if d is None:
                self.unsupported('del of attribute')
            g, v = self.load_attr(d, name)
            self.throw_if(not_(g), 'AttributeError', name)
            self.store_attr(d, name, UNDEF)
        self.lift(o, one)

    # ------------------------------------------------------------ sequences
    def entries(self, v):
        """[(guard, value)] of an iterable (not a union)."""
        t = type(v)
        if t is VSeq:
            f = self.user_attr(v, '__iter__')
            if f is None:
                if v.kind == 'iter':
                    ents = v.ents
                    g = relative(self.pc, v.pc0)
                    if g is TRUE:
                        v.ents = []
                    else:
                        v.ents = [(and_(h, not_(g)), x) for h, x in ents]
                    return ents
                return v.ents
            return self.entries_any(self.call(f, [v]))
        if t is VView:
            return self.B.view_entries(self, v)
        if t is VSet:
            f = self.user_attr(v, '__iter__')
            if f is None:
                return [(e[0], e[1]) for e in v.ents]
            return self.entries_any(self.call(f, [v]))
        if t is VDict:
            f = self.user_attr(v, '__iter__')
            if f is not None:
                return self.entries_any(self.call(f, [v]))
            return [(e[0], e[1]) for e in v.ents]
        if t is str:
            return [(TRUE, c) for c in v]
        if t is VStr:
            return v.ents
        if t is VUnion or t is Lazy:
            return self.entries_any(v)
        if t is VObj:
            if v.native is not None and hasattr(v.native, 'entries'):
                return v.native.entries(self, v)
            f = self.type_attr(v, '__iter__')
            if f is not None:
                it = self.call(f, [v])
                if it is v:
                    return self.drain(v)
                return self.entries_any(it)
            f = self.type_attr(v, '__getitem__')
            if f is not None:
                self.unsupported('iteration through __getitem__')
        if t is Native:
            try:
                return [(TRUE, self.from_native(x)) for x in v.obj]
            except TypeError:
                pass
        if t is VClass:
            f = self.class_lookup(v, '__members_iter__')
            if f is not None:
                return self.entries_any(f)
        if t in (Render, Opaque):
            self.unsupported('iteration over rendered text')
        self.throw('TypeError', "'%s' object is not iterable" % getattr(self.type_of(v), 'name', '?'))

    def drain(self, v):
        """Entries of an iterator object with a user __next__ (concrete ends only)."""
        f = self.type_attr(v, '__next__')
        out = []
        pc0 = self.pc
        while True:
            col = Collector(self.frame)
            self.collectors.append(col)
            try:
                x = self.call(f, [v])
                out.append((relative(self.pc, pc0), x))
                ok = True
            except Dead:
                ok = False
            finally:
                self.collectors.pop()
            for p, exc, env in col.items:
                if self.exc_classes['StopIteration'] not in exc.cls.mro:
                    self.pc = p
                    try:
                        self.raise_exc(exc)
                    except Dead:
                        pass
            if not ok:
                self.pc = pc0
                return out
            if len(out) > 500:
                self.unsupported('iterator without end')

    def entries_any(self, v):
        v = force(v)
        if type(v) is VUnion:
            out = []
            pc0 = self.pc
            leaks = self.leaks
            for g, x in v.alts:
                p = and_(pc0, g)
                if p is FALSE:
                    continue
                self.pc = p
                try:
                    for h, y in self.entries(x):
                        k = and_(g, h)
                        if k is not FALSE:
                            out.append((k, y))
                except Dead:
                    pass
            self.pc = pc0
            if self.leaks != leaks:
                # some alternative was not iterable
                bad = or_(*[p for p, _, _ in self.collectors[-1].items[-(self.leaks - leaks):]])
                self.pc = and_(pc0, not_(bad))
                if self.pc is FALSE:
                    raise Dead()
            return out
        return self.entries(v)

    def length_e(self, ents):
        k = 0
        gs = []
        for g, _ in ents:
            if g is TRUE:
                k += 1
            elif g is not FALSE:
                gs.append(X.b2i(g))
        return X.add(X.const(k), X.sum_(gs)) if gs else X.const(k)

    def simp_ents(self, ents):
        """Drop entries that the path condition excludes; mark those it implies."""
        out = []
        for g, v in ents:
            if g is TRUE:
                out.append((g, v))
                continue
            p = and_(self.pc, g)
            if p is FALSE:
                continue
            if p is self.pc:
                g = TRUE
            out.append((g, v))
        return out

    def compact(self, ents):
        """Prefix form: [(length > p, element at position p)]."""
        ents = self.simp_ents(ents)
        if all(g is TRUE for g, _ in ents):
            return ents
        # already a prefix form: every guard implied by the next
        ok = True
        for i in range(len(ents) - 1):
            if not implied(ents[i + 1][0], ents[i][0]):
                ok = False
                break
        if ok:
            return ents
        n = len(ents)
        key = tuple([id(x) for e in ents for x in e])
        hit = self.compacted.get(key)
        if hit is not None:
            return list(hit[1])
        cnt = [TRUE]            # cnt[p]: exactly p of the entries so far are present
        cols = [[] for _ in range(n)]
        for g, v in ents:
            ng = not_(g)
            new = [FALSE] * (len(cnt) + 1)
            for p, c in enumerate(cnt):
                if c is FALSE:
                    continue
                hit = and_(c, g)
                if hit is not FALSE:
                    cols[p].append((hit, v))
                    new[p + 1] = or_(new[p + 1], hit)
                miss = and_(c, ng)
                if miss is not FALSE:
                    new[p] = or_(new[p], miss)
            while new and new[-1] is FALSE:
                new.pop()
            cnt = new
        out = []
        for p in range(n):
            if not cols[p]:
                break
            g = or_(*[h for h, _ in cols[p]])
            out.append((g, mk_union(cols[p])))
        if n > 8:
            if len(self.compacted) >= 64:
                self.compacted.pop(next(iter(self.compacted)))
            # the entries stay referenced, so that their ids stay theirs
            self.compacted[key] = (ents, list(out))
        return out

    def dense_alts(self, ents):
        """[(guard, [values])] by length."""
        comp = self.compact(ents)
        out = []
        n = len(comp)
        vals = [v for _, v in comp]
        for k in range(n, -1, -1):
            lo = comp[k - 1][0] if k else TRUE
            hi = comp[k][0] if k < n else FALSE
            g = and_(lo, not_(hi))
            if g is FALSE or and_(self.pc, g) is FALSE:
                continue
            out.append((g, vals[:k]))
        if len(out) > 1:
            out = [(g, vs) for g, vs in out if self.feasible(and_(self.pc, g))]
            if len(out) == 1:
                out = [(TRUE, out[0][1])]
        elif len(out) == 1:
            out = [(TRUE, out[0][1])]
        return out

    def truth(self, v):
        return self.B.truth(self, v)

    def is_(self, a, b):
        return self.B.is_(self, a, b)

    def contains(self, c, x):
        return self.B.contains(self, c, x)

    def cmp(self, op, a, b):
        return self.B.cmp(self, op, a, b)

    def eq(self, a, b):
        return self.B.eq(self, a, b)

    def binop(self, op, a, b):
        return self.B.binop(self, op, a, b)

    def inplace(self, op, a, b):
        return self.B.inplace(self, op, a, b)

    def getitem(self, o, k):
        return self.B.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.B.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.B.delitem(self, o, k)

    # ------------------------------------------------------------ imports
    def import_name(self, name):
        return self.L.import_name(self, name)

    def import_from(self, name, names):
        return self.L.import_from(self, name, names)

    def import_attr(self, m, name):
        return self.L.import_attr(self, m, name)


def implied(a, b):
    """Syntactic: a implies b."""
    if b is TRUE or a is FALSE or a is b:
        return True
    if and_(a, b) is a:
        return True
    return False


def f_attrs_none(f):
    return f.attrs is None


STMT = {}
EXPR = {}
for _n in dir(Interp):
    if _n.startswith('s_'):
        STMT[getattr(ast, _n[2:], None)] = getattr(Interp, _n)
    elif _n.startswith('e_'):
        EXPR[getattr(ast, _n[2:], None)] = getattr(Interp, _n)
STMT[ast.For] = Interp.for_loop
STMT[ast.Nonlocal] = Interp.s_Global
EOF_MARK = None
